exec(open("/verif/tools/plants/sig.py").read().split("BUGS = [")[0])
BUGS = [
 dict(id="s03-narrow-block-count", prop="S03",
  edits=[(S, "std::atomic<unsigned> blocking_{0};", "std::atomic<std::uint8_t> blocking_{0};")],
  needs="exactly 256 (or a multiple) blockers of one slot alive at the same time",
  breaks="the block count wraps around, so a slot with 256 live blockers is invoked",
  demo=PRE + r'''
int main() {
    kl::signal<void()> s; int n = 0;
    kl::connection c = s.connect([&] { ++n; });
    {
        std::vector<kl::connection::blocker> v;
        for (int i = 0; i < 600; ++i) { v.push_back(c.get_blocker()); s(); CHECK(n == 0); }
    }
    s(); CHECK(n == 1);
    puts("ok");
}
'''),
 dict(id="s01-narrow-emission-count", prop="S01",
  edits=[(S, "std::uint32_t active_emissions_{0};", "std::uint8_t active_emissions_{0};")],
  needs="256 emissions of one signal in progress at once (deep recursion), with a disconnection made while exactly that many run",
  breaks="the count of running emissions wraps to zero, slots are unlinked under running emissions and the rest of the list is skipped",
  demo=PRE + r'''
int main() {
    for (int at : {255, 256, 257, 512}) {
        kl::signal<void(int)> s; int later = 0; kl::connection c;
        c = s.connect([&](int d) { if (d < at) s(d + 1); else { auto k = kl::this_signal::current_connection(); k.disconnect(); } });
        s.connect([&](int) { ++later; });
        s(1);
        CHECK(later == at);
    }
    puts("ok");
}
'''),
 dict(id="s07-no-cleanup-on-throw", prop="S07",
  edits=[(S, """            if (prev == 1)
                cleanup_invalidated_slots_locked(removed);""", """            // Callables must not be destroyed while the stack is being unwound
            if (prev == 1 && std::uncaught_exceptions() == 0)
                cleanup_invalidated_slots_locked(removed);""")],
  needs="a slot disconnects (itself or another slot) and the same emission is left by an exception; no later emission happens",
  breaks="after an emission that threw, deferred disconnections do not happen: the disconnected slot's callable stays alive inside the signal",
  demo=PRE + r'''
int main() {
    kl::signal<void()> s; auto token = std::make_shared<int>(1); std::weak_ptr<int> w = token;
    s.connect([token] { kl::this_signal::current_connection().disconnect(); throw 7; });
    token.reset();
    bool caught = false;
    try { s(); } catch (int) { caught = true; }
    CHECK(caught); CHECK(s.num_slots() == 0); CHECK(w.expired());
    puts("ok");
}
'''),
 dict(id="s05-swap-lock-order", prop="S05",
  edits=[(S, "        std::scoped_lock lock{left.mutex_, right.mutex_};\n", "        std::lock_guard<std::mutex> left_lock{left.mutex_};\n        std::lock_guard<std::mutex> right_lock{right.mutex_};\n")],
  needs="two threads swapping the same two signals with the operands in opposite order, both between the two lock acquisitions",
  breaks="concurrent swaps deadlock",
  demo=PRE + r'''
int main() {
    alarm(60);
    kl::signal<void()> a, b; a.connect([] {});
    std::thread t([&] { for (int i = 0; i < 2000000; ++i) swap(a, b); });
    for (int i = 0; i < 2000000; ++i) swap(b, a);
    t.join();
    CHECK(a.num_slots() + b.num_slots() == 1);
    puts("ok");
}
'''),
 dict(id="s04-nested-disconnect-kept", prop="S04",
  edits=[(S, """                // We'll try again after all emissions are finished
                deferred_cleanup_ = true;""", """                // We'll try again after all emissions are finished
                deferred_cleanup_ = active_emissions_ == 1;""")],
  needs="a slot is disconnected while two or more emissions of the signal run (nested or on two threads), the last deferred request of that period being such a one",
  breaks="the disconnected slot is never unlinked, so its callable outlives every emission and every handle",
  demo=PRE + r'''
int main() {
    kl::signal<void(int)> s; auto token = std::make_shared<int>(1); std::weak_ptr<int> w = token;
    s.connect([&s, token](int d) { if (d) s(d - 1); else kl::this_signal::current_connection().disconnect(); });
    token.reset();
    s(1);
    CHECK(s.num_slots() == 0); CHECK(w.expired());
    puts("ok");
}
'''),
]
