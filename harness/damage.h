// What an unreliable transport or device does to bytes. Choice 0 everywhere is "no damage".
#pragma once
#include "../sim/simrt.h"
#include <string>
inline void damage_once(std::string& b, uint32_t kind)
{
    if (b.empty()) return;
    uint32_t n = (uint32_t)b.size();
    switch (kind) {
    case 1: b.resize(sim::choose(sim::FAULT, n)); sim::fault_fired("truncated"); break;
    case 2: { uint32_t p = sim::choose(sim::FAULT, n); b[p] = (char)(b[p] ^ (1u << sim::choose(sim::FAULT, 8))); sim::fault_fired("bit-flipped"); break; }
    case 3: { uint32_t p = sim::choose(sim::FAULT, n); static const char C[] = "{}[]\",:0129-.eEtfnu\\/ x%"; b[p] = C[sim::choose(sim::FAULT, sizeof C - 1)]; sim::fault_fired("byte-overwritten"); break; }
    case 4: { uint32_t p = sim::choose(sim::FAULT, n), l = 1 + sim::choose(sim::FAULT, 8); b.erase(p, l); sim::fault_fired("bytes-lost"); break; }
    case 5: { uint32_t p = sim::choose(sim::FAULT, n), l = 1 + sim::choose(sim::FAULT, 16); std::string c = b.substr(p, l); b.insert(p, c); sim::fault_fired("bytes-duplicated"); break; }
    case 6: { uint32_t p = sim::choose(sim::FAULT, n), q = sim::choose(sim::FAULT, n), l = 1 + sim::choose(sim::FAULT, 6); std::string c = b.substr(p, l); b.erase(p, l); b.insert(q <= b.size() ? q : b.size(), c); sim::fault_fired("bytes-reordered"); break; }
    case 7: { uint32_t p = sim::choose(sim::FAULT, n); for (uint32_t i = p; i < n && i < p + 16; ++i) b[i] = 0; sim::fault_fired("block-zeroed"); break; }
    }
}
