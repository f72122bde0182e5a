#pragma once
// The view of the machine a debugger has, compared with the reference semantics of pipe.h.
#include "dbg.h"
#include "pipe.h"
typedef Mach<3, 1, 3> S;
// the flags are not shown to the debugger; they are observed through conditional jumps
inline void put(Native& n, const S& s) {
    n.SetRegisters({{"R0", s.r[0]}, {"R1", s.r[1]}, {"R2", s.r[2]}, {"SP", s.sp}, {"BP", s.bp}});
    n.SetFloatRegister("F0", bits2d(s.f[0]));
    n.SetMemory(0, {s.m[0], s.m[1], s.m[2]});
}
inline void same_m(Native& n, const S& s, const char* lbl) {
    auto m = n.ReadMemory(0, 3);
    vf_ensure(m.size() == 3 && m[0] == s.m[0] && m[1] == s.m[1] && m[2] == s.m[2], lbl);
}
inline void same(Native& n, const S& s, uint64_t ip, const char* lbl) {
    auto r = n.GetRegisters();
    vf_ensure(r.at("R0") == s.r[0] && r.at("R1") == s.r[1] && r.at("R2") == s.r[2], lbl);
    vf_ensure(r.at("SP") == s.sp && r.at("BP") == s.bp, lbl);
    vf_ensure((uint64_t)r.at("IP") == ip, lbl);
    vf_ensure(n.GetFloatRegister("F0") == bits2d(s.f[0]), lbl);
    same_m(n, s, lbl);
}
inline void havoc(S& s) {
    s.havoc(); s.fl = 0;
    s.f[0] = d2bits(1.5);
}
inline bool stepped(const DebugEvent& e) { return std::holds_alternative<Singlestep>(e); }
inline bool ended(const DebugEvent& e) { return std::holds_alternative<ExecutionEnd>(e); }
inline bool failed(const DebugEvent& e) { return std::holds_alternative<CpuError>(e); }
inline bool hit(const DebugEvent& e, uint64_t at) { return std::holds_alternative<BreakpointHit>(e) && std::get<BreakpointHit>(e).address == at; }
inline bool watched(const DebugEvent& e, uint64_t at) { return std::holds_alternative<WatchpointTrigger>(e) && std::get<WatchpointTrigger>(e).address == at; }
inline DebugEvent go(Native& n) { n.ContinueExecution(); return n.WaitForDebugEvent(); }
inline void to_end(Native& n, const S& s, uint64_t ip) {
    vf_ensure(ended(go(n)), "continuing runs to the end");
    same(n, s, ip, "final state");
}
inline uint64_t rnd(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
inline uint64_t seeded(int k) { uint64_t s = 88172645463325252ull + 1000003ull * k; for (int i = 0; i < 8; ++i) rnd(s); return s; }
template <class F> inline bool refused(F f) { try { f(); } catch (const DebuggerError&) { return true; } return false; }
