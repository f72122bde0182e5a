// VF-SRC: t86 parser debugger
// VF-OPT: text=1
// VF-COVER: triggered, not triggered, failing store, history, skipped, refused
#include "dbgsem.h"
// every kind of store, to any address, against any set of watched cells (k / NSTORE: bit set of watched cells)
enum { sReg, sImm, sOff, sScaled, sRR, sFloat, sPush, sPushi, sFpush, sCall, NSTORE };
static void store(Prog& p, int t, Imm i) {
    switch (t) {
    case sReg: p.add<MOV>(Memory::Register(r1), r0); break;
    case sImm: p.add<MOV>(Memory::Register(r1), i.a); break;
    case sOff: p.add<MOV>(Memory::RegisterOffset(r1 + i.b), r0); break;
    case sScaled: p.add<MOV>(Memory::RegisterScaled(r1 * 1), r0); break;
    case sRR: p.add<MOV>(Memory::RegisterRegister(r1 + r2), r0); break;
    case sFloat: p.add<MOV>(Memory::Register(r1), f0); break;
    case sPush: p.add<PUSH>(r0); break;
    case sPushi: p.add<PUSH>(i.a); break;
    case sFpush: p.add<FPUSH>(f0); break;
    case sCall: p.add<CALL>((uint64_t)1); break;
    }
}
static bool apply(S& s, int t, Imm i, uint64_t& a) {
    int64_t v = s.r[0]; a = s.r[1];
    if (t == sImm || t == sPushi) v = i.a;
    if (t == sOff) a = add(s.r[1], i.b);
    if (t == sRR) a = add(s.r[1], s.r[2]);
    if (t == sFloat || t == sFpush) v = s.f[0];
    if (t >= sPush) a = sub(s.sp, 1);
    if (t == sCall) v = 1;
    if (!st(s, a, v)) return false;
    if (t >= sPush) s.sp = a;
    return true;
}
VF prove_store(int k) { // CASES 80
    int t = k % NSTORE, w = k / NSTORE;
    S s; havoc(s); Imm i = anyimm();
    Prog p; store(p, t, i); p.add<NOP>();
    Session d(p.halt().make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    for (int c = 0; c < 3; ++c) if (w >> c & 1) n.SetWatchpointWrite(c);
    uint64_t a; bool ok = apply(s, t, i, a);
    auto e = go(n);
    if (!ok) {
        vf_ensure(failed(e), "a store outside the memory is an error, not a watchpoint");
        same_m(n, s, "a failing store changes nothing");
        vf_cover("failing store"); return;
    }
    if (w >> (a & 3) & 1) {
        vf_ensure(watched(e, a), "a store to a watched cell stops, and the cell is reported");
        same(n, s, 1, "stopped right behind the store, which is done");
        vf_cover("triggered");
        e = go(n);
    } else vf_cover("not triggered");
    vf_ensure(ended(e), "no other stop");
    same(n, s, 3, "final state");
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
}
// loads, address computations, and stores that are not executed do not stop
VF prove_no_store(int k) { // CASES 9
    S s; havoc(s); s.sp = 2; s.r[1] = 1;
    Prog p; int64_t v = vf_i64("v");
    switch (k) {
    case 0: p.add<MOV>(r0, Memory::Register(r1)); break;
    case 1: p.add<ADD>(r0, Memory::Immediate(1)); break;
    case 2: p.add<CMP>(r0, Memory::Register(r1)); break;
    case 3: p.add<LEA>(r0, Memory::RegisterOffset(r1 + 0)); break;
    case 4: p.add<POP>(r0); p.add<POP>(r0); s.sp = 0; break;
    case 5: p.add<MOV>(f0, Memory::Register(r1)); break;
    case 6: p.add<JMP>((uint64_t)2); p.add<MOV>(Memory::Register(r1), v); break;                                       // behind a jump
    case 7: p.add<CMP>(r0, r0); p.add<JZ>((uint64_t)3); p.add<PUSH>(r0); break;                                        // behind a taken conditional jump
    case 8: p.halt(); p.add<MOV>(Memory::Immediate(1), v); break;                                                     // behind the end
    }
    Session d(p.halt().make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    for (int c = 0; c < 3; ++c) n.SetWatchpointWrite(c);
    vf_ensure(ended(go(n)), "only an executed store stops");
    same_m(n, s, "memory is unchanged");
    vf_cover("skipped");
}
// histories of adding, removing and replacing watchpoints, with stores in between
VF bounded_history(int k) { // CASES 40 240
    uint64_t seed = seeded(k + 1000);
    int64_t v = vf_i64("v");
    static const int M = 7, N = 5;
    // N stores of v to cells chosen by the seed, with a step in between
    int cell[N]; Prog p;
    for (int i = 0; i < N; ++i) { cell[i] = rnd(seed) % M; if (i % 2) p.add<MOV>(Memory::Immediate(cell[i]), v); else { p.add<MOV>(r1, cell[i]); p.add<MOV>(Memory::Register(r1), v); } }
    Session d(p.halt().make(), 3, 1, M);
    Native& n = *d.n;
    std::map<uint64_t, int> want;
    int next = 0; std::vector<int64_t> mem(M, 0);
    for (bool over = false; !over;) {
        for (int c = rnd(seed) % 5; c >= 0; --c) {
            uint64_t a = rnd(seed) % M; bool has = want.count(a), full = want.size() == 4; bool r;
            switch (rnd(seed) % 6) {
            case 0: case 1: case 2:
                r = refused([&] { n.SetWatchpointWrite(a); });
                vf_ensure(r == (has || full), "a watchpoint is set unless there is one at the cell or four already");
                if (!has && !full) want[a] = 1;
                break;
            case 3: case 4:
                r = refused([&] { n.RemoveWatchpoint(a); });
                vf_ensure(r == !has, "removing needs a watchpoint"); want.erase(a); break;
            default: {
                std::map<uint64_t, Watchpoint> all; want.clear();
                for (int x = rnd(seed) % 4; x >= 0; --x) { uint64_t y = rnd(seed) % M; want[y] = 1; all.emplace(y, Watchpoint{Watchpoint::Type::Write, 0}); }
                n.SetAllWatchpoints(all); }
            }
            vf_ensure(n.GetWatchpoints().size() == want.size(), "the watchpoints are those set");
            for (auto& [y, z] : want) vf_ensure(n.GetWatchpoints().count(y), "the watchpoints are those set");
        }
        bool stop = false; uint64_t at = 0;
        while (next < N && !stop) { at = cell[next++]; mem[at] = v; stop = want.count(at); }
        over = !stop;
        auto e = go(n);
        vf_ensure(over ? ended(e) : watched(e, at), "continuing stops behind the next store to a watched cell");
        auto m = n.ReadMemory(0, M);
        for (int i = 0; i < M; ++i) vf_ensure(m[i] == mem[i], "memory at the stop");
    }
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
    vf_cover("history");
}
// with other kinds of stops around: step onto, breakpoint behind, two stores in a row
VF prove_with_others(int k) { // CASES 6
    S s; havoc(s);
    Session d([&] { Prog p; p.add<MOV>(Memory::Immediate(0), r0); p.add<MOV>(Memory::Immediate(2), r1); p.add<MOV>(Memory::Immediate(0), r2); p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    n.SetWatchpointWrite(0);
    if (k & 1) n.SetBreakpoint(1);
    if (k & 2) n.SetBreakpoint(0);
    vf_ensure(watched(k == 4 ? n.PerformSingleStep() : go(n), 0), "the first store stops");
    s.m[0] = s.r[0]; same(n, s, 1, "behind the store");
    if (k == 5) n.RemoveWatchpoint(0);
    // the run goes on at the instruction with the breakpoint, which is stepped over
    auto e = go(n);
    s.m[2] = s.r[1]; s.m[0] = s.r[2];
    if (k != 5) { vf_ensure(watched(e, 0), "the second store stops"); same(n, s, 3, "behind the store"); e = go(n); }
    vf_ensure(ended(e), "no other stop");
    same(n, s, 4, "final state");
}
// any address may be watched, and none is watched twice
VF prove_refused(int k) { // CASES 3
    uint64_t a = vf_u64("a"), b = vf_u64("b"); vf_assume(a != b);
    Session d([&] { Prog p; p.add<MOV>(Memory::Immediate(1), 5); p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    n.SetWatchpointWrite(a);
    if (k == 0) vf_ensure(refused([&] { n.SetWatchpointWrite(a); }), "a second watchpoint at a cell is refused");
    if (k == 1) vf_ensure(refused([&] { n.RemoveWatchpoint(b); }), "there is no watchpoint to remove");
    if (k == 2) { n.SetWatchpointWrite(b); n.RemoveWatchpoint(a); n.SetWatchpointWrite(a); n.RemoveWatchpoint(b); }
    vf_ensure(n.GetWatchpoints().size() == 1 && n.GetWatchpoints().count(a), "exactly this watchpoint is set");
    vf_cover("refused");
    auto e = go(n);
    if (a == 1) vf_ensure(watched(e, 1) && ended(go(n)), "a store to the watched cell stops once");
    else vf_ensure(ended(e), "no stop for another cell");
}
