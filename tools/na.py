NOT_APPLICABLE = {
    "N02": "Equality of two pure functions over all types and values: decided by value and type coverage, not by schedules or faults (the fault-, schedule- and history-dependent parts of serialization are claimed as J01-J04 and Y01-Y03).",
    "N04": "Compile-time registration facts and pure lookups; there is no nondeterminism to simulate.",
    "N05": "Value-type algebra without any schedule, clock, I/O or fault the property depends on.",
}
