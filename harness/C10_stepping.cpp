// VF-SRC: t86 parser debugger
// VF-OPT: text=1
// VF-COVER: stepped, failed step, halt step, jump taken, jump not taken, over call, out of call, watch in step, breakpoint in call, walk over, walk out, walk stop, walk watch, walk end
#include "dbgsem.h"
// one step = one instruction, from any state
VF prove_step(int k) { // CASES 22
    S s; havoc(s); Imm i = anyimm();
    Prog p; emit(p, k, i);
    Session d(p.halt().make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    same(n, s, 0, "values written are read back");
    bool ok = sem(s, k, i);
    auto e = n.PerformSingleStep();
    if (!ok) {
        vf_ensure(std::holds_alternative<CpuError>(e), "a failing instruction is reported as an error");
        same_m(n, s, "a failing instruction changes no memory");
        vf_cover("failed step");
        return;
    }
    vf_ensure(stepped(e), "a step ends with a step stop");
    if (k == tMOVF) {
        double f = n.GetFloatRegister("F0"), g = bits2d(s.f[0]);     // a NaN is shown as such, its payload is not
        vf_ensure(g != g ? f != f : d2bits(f) == s.f[0], "float register after the step");
        n.SetFloatRegister("F0", 1.5); s.f[0] = d2bits(1.5);
    }
    same(n, s, 1, "exactly one instruction was executed");
    vf_cover("stepped");
    vf_ensure(std::holds_alternative<ExecutionEnd>(n.PerformSingleStep()), "stepping the halt ends the execution");
    same(n, s, 2, "the halt changes nothing");
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
    vf_cover("halt step");
}
template <class J> static void jump(Prog& p) { p.add<J>((uint64_t)4); }
static void cond(Prog& p, int j) {
    switch (j) {
    case 0: return jump<JZ>(p); case 1: return jump<JNZ>(p); case 2: return jump<JE>(p); case 3: return jump<JNE>(p);
    case 4: return jump<JG>(p); case 5: return jump<JGE>(p); case 6: return jump<JL>(p); case 7: return jump<JLE>(p);
    case 8: return jump<JA>(p); case 9: return jump<JAE>(p); case 10: return jump<JB>(p); case 11: return jump<JBE>(p);
    case 12: return jump<JO>(p); case 13: return jump<JNO>(p); case 14: return jump<JS>(p); case 15: return jump<JNS>(p);
    default: return jump<JMP>(p);
    }
}
static bool taken(int j, int64_t a, int64_t b) {
    uint64_t x = a, y = b; int64_t v = x - y;
    bool o = (i128)a - b != (i128)v;
    switch (j) {
    case 0: case 2: return a == b; case 1: case 3: return a != b;
    case 4: return a > b; case 5: return a >= b; case 6: return a < b; case 7: return a <= b;
    case 8: return x > y; case 9: return x >= y; case 10: return x < y; case 11: return x <= y;
    case 12: return o; case 13: return !o; case 14: return v < 0; case 15: return v >= 0;
    default: return true;
    }
}
// the flags survive the stop between a comparison and the jump that uses them, and the step ends at the jump's target
VF prove_step_jump(int j) { // CASES 17
    S s; havoc(s);
    Prog p; p.add<CMP>(r0, r1); cond(p, j); p.add<MOV>(r2, 7); p.halt(); p.add<MOV>(r2, 9); p.halt();
    Session d(p.make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    vf_ensure(stepped(n.PerformSingleStep()), "step");
    same(n, s, 1, "a comparison changes nothing but flags");
    vf_ensure(stepped(n.PerformSingleStep()), "step");
    bool t = taken(j, s.r[0], s.r[1]);
    same(n, s, t ? 4 : 2, "a jump is stepped to where it leads");
    vf_ensure(stepped(n.PerformSingleStep()), "step");
    s.r[2] = t ? 9 : 7;
    same(n, s, t ? 5 : 3, "the step after the jump executes the instruction there");
    vf_cover(t ? "jump taken" : "jump not taken");
    vf_ensure(std::holds_alternative<ExecutionEnd>(n.PerformSingleStep()), "halt");
}
// call and return, stepped into
VF prove_step_call(int k) { // CASES 2
    S s; havoc(s); s.sp = 3;
    Prog p; p.add<CALL>((uint64_t)3); p.add<MOV>(r1, 5); p.halt(); p.add<MOV>(r0, r2); p.add<RET>();
    Session d(p.make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    vf_ensure(stepped(n.PerformSingleStep()), "step");
    s.sp = 2; s.m[2] = 1; same(n, s, 3, "a call is stepped into");
    vf_ensure(stepped(k ? n.PerformSingleStep() : n.PerformStepOver()), "step");
    s.r[0] = s.r[2]; same(n, s, 4, "step in the callee");
    vf_ensure(stepped(k ? n.PerformSingleStep() : n.PerformStepOver()), "step");
    s.sp = 3; same(n, s, 1, "the return is stepped to the caller");
    vf_ensure(stepped(n.PerformSingleStep()), "step");
    s.r[1] = 5; same(n, s, 2, "step after the return");
    to_end(n, s, 3);
}
// generated programs walked through by steps, step-overs and a final continue: every stop shows the state of executing
// the instructions one after another
VF bounded_walk(int k) { // CASES 48 320
    static const int ok[] = {tMOVi, tMOVr, tMOVr2, tADD, tSUB, tLD0, tST0, tST0i, tPUSH, tPOP, tCMP, tINC, tMOVRF, tLEA, tCLF, tMOVi};
    uint64_t seed = seeded(k);
    S s; havoc(s); s.sp = 2;
    int t[8]; Imm im[8]; Prog p; int depth = 0;
    for (int i = 0; i < 8; ++i) {
        t[i] = ok[rnd(seed) % 16];
        if (t[i] == tPUSH && depth == 2) t[i] = tST0;
        if (t[i] == tPOP && depth == -1) t[i] = tLD0;
        depth += t[i] == tPUSH ? 1 : t[i] == tPOP ? -1 : 0;
        im[i] = anyimm(); emit(p, t[i], im[i]);
    }
    Session d(p.halt().make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    int steps = 3 + rnd(seed) % 6;
    for (int i = 0; i < 8; ++i) {
        vf_ensure(sem(s, t[i], im[i]), "(domain) no failing instruction");
        if (i >= steps) continue;
        vf_ensure(stepped(rnd(seed) % 4 ? n.PerformSingleStep() : n.PerformStepOver()), "a step ends with a step stop");
        same(n, s, i + 1, "every stop shows the state of sequential execution");
    }
    to_end(n, s, 9);
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
}
// ---- stepping over calls and out of them
//  0 MOV R0, a / 1 CALL f / 2 MOV R2, R0 / 3 HALT /  f=4: PUSH BP / 5 MOV BP,SP / 6 body / 7 POP BP / 8 RET
static void body(Prog& p, int b) {
    p.add<PUSH>(rBP); p.add<MOV>(rBP, rSP);
    switch (b) {
    case 0: p.add<INC>(r0); break;
    case 1: p.add<MOV>(Memory::Immediate(0), r0); break;
    case 2: p.halt(); break;
    case 3: p.add<MOV>(Memory::Immediate(9), r0); break;
    case 4: p.add<CALL>((uint64_t)9); break;                    // a leaf function at 9
    }
    p.add<POP>(rBP); p.add<RET>();
    if (b == 4) { p.add<INC>(r0); p.add<RET>(); }
}
static bool no_bps(Native& n) { return n.GetBreakpoints().empty(); }
static bool text_is(Native& n, uint64_t at, const char* t) { return n.ReadText(at, 1).at(0) == t; }
// variants: 0..4 body; set: 0 nothing, 1 breakpoint behind the call, 2 disabled breakpoint behind the call, 3 breakpoint at the call
VF prove_step_over(int k) { // CASES 20
    int b = k % 5, set = k / 5;
    Session d([&] { Prog p; p.add<MOV>(r0, r1); p.add<CALL>((uint64_t)4); p.add<MOV>(r2, r0); p.halt(); body(p, b); return p.make(); }(), 3, 1, 6);
    Native& n = *d.n;
    int64_t a = vf_i64("a"); n.SetRegister("R1", a);
    if (set == 1 || set == 2) n.SetBreakpoint(2);
    if (set == 2) n.DisableSoftwareBreakpoint(2);
    if (set == 3) n.SetBreakpoint(1);
    vf_ensure(stepped(n.PerformSingleStep()), "step");
    auto e = n.PerformStepOver();
    auto r = n.GetRegisters();
    if (b == 2) vf_ensure(std::holds_alternative<ExecutionEnd>(e), "a callee that halts ends the execution");
    else if (b == 3) vf_ensure(std::holds_alternative<CpuError>(e), "a callee that fails is reported as an error");
    else {
        vf_ensure(stepped(e), "stepping over a call ends with a step stop");
        vf_ensure(r.at("IP") == 2 && r.at("SP") == 6 && r.at("BP") == 6, "stepping over a call stops behind it");
        vf_ensure(r.at("R0") == (b == 1 ? a : (int64_t)((uint64_t)a + 1)), "the callee was executed");
        if (b == 1) vf_ensure(n.ReadMemory(0, 1)[0] == a, "the callee was executed");
    }
    auto& bps = n.GetBreakpoints();
    if (set == 0) vf_ensure(bps.empty(), "no breakpoint is left behind");
    else vf_ensure(bps.size() == 1 && bps.count(set == 3 ? 1 : 2) == 1 && bps.begin()->second.enabled == (set != 2), "the user's breakpoints are as before");
    vf_ensure(text_is(n, 2, "MOV R2, R0") && text_is(n, 1, "CALL 4"), "the text is as before");
    if (b == 2 || b == 3) return;
    auto e2 = n.PerformStepOver();
    r = n.GetRegisters();
    vf_ensure(stepped(e2) && r.at("IP") == 3 && r.at("R2") == r.at("R0"), "the instruction behind the call is executed by the next step");
    n.ContinueExecution();
    vf_ensure(std::holds_alternative<ExecutionEnd>(n.WaitForDebugEvent()), "continuing runs to the end");
    vf_cover("over call");
}
// stops inside the callee are reported, and leave no temporary breakpoint behind
VF prove_stop_in_call(int k) { // CASES 3
    Session d([&] { Prog p; p.add<CALL>((uint64_t)3); p.add<MOV>(r2, r0); p.halt(); p.add<PUSH>(rBP); p.add<MOV>(rBP, rSP); p.add<MOV>(Memory::Immediate(0), r1); p.add<POP>(rBP); p.add<RET>(); return p.make(); }(), 3, 1, 6);
    Native& n = *d.n;
    int64_t a = vf_i64("a"); n.SetRegister("R1", a);
    if (k == 0) n.SetBreakpoint(5); else n.SetWatchpointWrite(0);
    auto e = k == 2 ? n.PerformStepOver(false) : n.PerformStepOver();
    if (k == 0) {
        vf_ensure(std::holds_alternative<BreakpointHit>(e) && std::get<BreakpointHit>(e).address == 5 && n.GetIP() == 5, "a breakpoint in the callee is reported");
        vf_ensure(n.GetBreakpoints().size() == 1, "no breakpoint is left behind");
        vf_ensure(n.ReadMemory(0, 1)[0] == 0, "stopped before the instruction");
        vf_cover("breakpoint in call");
    } else {
        vf_ensure(std::holds_alternative<WatchpointTrigger>(e) && std::get<WatchpointTrigger>(e).address == 0, "a watchpoint in the callee is reported");
        vf_ensure(n.GetIP() == 6 && no_bps(n), "stopped behind the write");
        vf_ensure(n.ReadMemory(0, 1)[0] == a, "the write is done");
    }
    n.ContinueExecution();
    vf_ensure(std::holds_alternative<ExecutionEnd>(n.WaitForDebugEvent()), "continuing runs to the end");
    vf_ensure(n.ReadMemory(0, 1)[0] == a && n.GetRegister("R2") == 0, "final state");
}
// stepping out, from every place of a function, also with a nested call and a breakpoint on the way
VF prove_step_out(int k) { // CASES 10
    int at = k % 5, bp = k / 5;
    //  0 CALL 3 / 1 MOV R2,R0 / 2 HALT / 3 PUSH BP / 4 MOV BP,SP / 5 CALL 8 / 6 POP BP / 7 RET / 8 INC R0 / 9 RET
    Session d([&] { Prog p; p.add<CALL>((uint64_t)3); p.add<MOV>(r2, r0); p.halt(); p.add<PUSH>(rBP); p.add<MOV>(rBP, rSP); p.add<CALL>((uint64_t)8); p.add<POP>(rBP); p.add<RET>(); p.add<INC>(r0); p.add<RET>(); return p.make(); }(), 3, 1, 6);
    Native& n = *d.n;
    int64_t a = vf_i64("a"); n.SetRegister("R0", a);
    vf_ensure(stepped(n.PerformSingleStep()), "step");
    for (int i = 0; i < at; ++i) vf_ensure(stepped(i == 2 ? n.PerformStepOver() : n.PerformSingleStep()), "step");
    vf_ensure(n.GetIP() == 3 + (uint64_t)at, "position in the function");
    if (bp) n.SetBreakpoint(7);
    auto e = n.PerformStepOut();
    if (bp && at < 4) {
        vf_ensure(std::holds_alternative<BreakpointHit>(e) && n.GetIP() == 7, "a breakpoint on the way is reported");
        e = n.PerformStepOut();
    }
    auto r = n.GetRegisters();
    vf_ensure(stepped(e) && r.at("IP") == 1 && r.at("SP") == 6 && r.at("BP") == 6 && r.at("R0") == (int64_t)((uint64_t)a + 1), "stepping out stops behind the call");
    vf_ensure(n.GetBreakpoints().size() == (size_t)bp, "the breakpoints are as before");
    n.ContinueExecution();
    vf_ensure(std::holds_alternative<ExecutionEnd>(n.WaitForDebugEvent()), "continuing runs to the end");
    vf_ensure(n.GetRegister("R2") == (int64_t)((uint64_t)a + 1), "final state");
    vf_cover("out of call");
}
// a step that ends in another stop does not leave a pending step behind
VF prove_step_other(int k) { // CASES 3
    Session d([&] { Prog p; p.add<MOV>(Memory::Immediate(1), r1); p.add<INC>(r0); p.add<INC>(r0); p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    int64_t a = vf_i64("a"), b = vf_i64("b"); n.SetRegister("R1", a); n.SetRegister("R0", b);
    if (k < 2) n.SetWatchpointWrite(1);
    if (k == 1) n.SetBreakpoint(0);
    if (k == 2) n.SetBreakpoint(1);
    auto e = n.PerformSingleStep();
    if (k < 2) vf_ensure(std::holds_alternative<WatchpointTrigger>(e) && std::get<WatchpointTrigger>(e).address == 1, "a watched write ends the step as such");
    else vf_ensure(stepped(e), "step");
    vf_ensure(n.GetIP() == 1 && n.ReadMemory(1, 1)[0] == a, "one instruction was executed");
    vf_cover("watch in step");
    if (k == 2) {
        vf_ensure(stepped(n.PerformSingleStep()) && n.GetIP() == 2, "a step executes the instruction under a breakpoint");
        vf_ensure(n.GetRegister("R0") == (int64_t)((uint64_t)b + 1), "a step executes the instruction under a breakpoint");
    }
    n.ContinueExecution();
    vf_ensure(std::holds_alternative<ExecutionEnd>(n.WaitForDebugEvent()), "continuing runs to the end");
    vf_ensure(n.GetRegister("R0") == (int64_t)((uint64_t)b + 2), "final state");
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
}
// ---- walks through programs with calls, recursion and loops: steps, steps over, steps out and continues, with breakpoints
// and a watchpoint, against an abstract machine that counts calls
enum Op { iINC, iMOVI, iMOVR, iST, iSUB1, iJZ, iJNZ, iJMP, iCALL, iRET, iENTER, iFRAME, iLEAVE, iNOP, iHALT };
struct Ins { Op op; int a; };
static const std::vector<Ins> WALK[] = {
    // calls three deep, the function in the middle calls twice
    {{iMOVI, 3}, {iCALL, 4}, {iMOVR, 0}, {iHALT, 0}, {iENTER, 0}, {iFRAME, 0}, {iCALL, 11}, {iINC, 0}, {iCALL, 11}, {iLEAVE, 0}, {iRET, 0}, {iENTER, 0}, {iFRAME, 0}, {iCALL, 17}, {iLEAVE, 0}, {iRET, 0}, {iNOP, 0}, {iINC, 0}, {iST, 0}, {iRET, 0}},
    // recursion
    {{iMOVI, 3}, {iCALL, 4}, {iMOVR, 0}, {iHALT, 0}, {iENTER, 0}, {iFRAME, 0}, {iSUB1, 0}, {iJZ, 9}, {iCALL, 4}, {iINC, 0}, {iST, 0}, {iLEAVE, 0}, {iRET, 0}},
    // a loop that calls, a function with a jump and a shared end
    {{iMOVI, 3}, {iCALL, 7}, {iSUB1, 0}, {iJNZ, 1}, {iCALL, 8}, {iMOVR, 0}, {iHALT, 0}, {iINC, 0}, {iST, 0}, {iJMP, 11}, {iNOP, 0}, {iRET, 0}},
    // a function that calls as its first and as its last but one instruction, a call right behind a call
    {{iMOVI, 2}, {iCALL, 5}, {iCALL, 9}, {iCALL, 5}, {iHALT, 0}, {iCALL, 9}, {iINC, 0}, {iCALL, 9}, {iRET, 0}, {iST, 0}, {iRET, 0}},
};
struct Walk {
    std::vector<Ins> p; int64_t r[3], m[12] = {}; uint64_t ip = 0, sp = 12, bp = 12; bool z = false, over = false, watch = false; int depth = 0;
    std::map<uint64_t, bool> bps;
    bool hit = false;            // the last instruction stored to the watched cell
    bool on() { auto it = bps.find(ip); return it != bps.end() && it->second; }
    void store(uint64_t a, int64_t v) { m[a] = v; if (a == 0 && watch) hit = true; }
    void exec() {
        Ins i = p[ip++]; hit = false;
        switch (i.op) {
        case iINC: r[0] = (uint64_t)r[0] + 1; z = r[0] == 0; break;
        case iMOVI: r[2] = i.a; break;
        case iMOVR: r[1] = r[0]; break;
        case iST: store(0, r[0]); break;
        case iSUB1: --r[2]; z = r[2] == 0; break;
        case iJZ: if (z) ip = i.a; break;
        case iJNZ: if (!z) ip = i.a; break;
        case iJMP: ip = i.a; break;
        case iCALL: store(--sp, ip); ip = i.a; ++depth; break;
        case iRET: ip = m[sp++]; --depth; break;
        case iENTER: store(--sp, bp); break;
        case iFRAME: bp = sp; break;
        case iLEAVE: bp = m[sp++]; break;
        case iNOP: break;
        case iHALT: over = true; break;
        }
    }
    // runs until the depth is at most d (or forever); 's'tep done, 'b'reakpoint, 'w'atchpoint, 'e'nd
    char run(int d, bool forever) {
        for (;;) {
            exec();
            if (over) return 'e';
            if (hit) return 'w';
            if (!forever && depth <= d) return 's';
            if (on()) return 'b';
        }
    }
    char step() { exec(); return over ? 'e' : hit ? 'w' : 's'; }
    char step_over() { return p[ip].op == iCALL ? run(depth, false) : step(); }
    char step_out() { return run(depth - 1, false); }
};
static char kind(const DebugEvent& e) {
    return std::holds_alternative<Singlestep>(e) ? 's' : std::holds_alternative<BreakpointHit>(e) ? 'b' : std::holds_alternative<WatchpointTrigger>(e) ? 'w' : std::holds_alternative<ExecutionEnd>(e) ? 'e' : '?';
}
VF bounded_calls(int k) { // CASES 64 640
    uint64_t seed = seeded(1000 + k);
    Walk w; w.p = WALK[k % 4];
    Session d([&] { Prog p;
        for (auto i : w.p) switch (i.op) {
            case iINC: p.add<INC>(r0); break;
            case iMOVI: p.add<MOV>(r2, (int64_t)i.a); break;
            case iMOVR: p.add<MOV>(r1, r0); break;
            case iST: p.add<MOV>(Memory::Immediate(0), r0); break;
            case iSUB1: p.add<SUB>(r2, 1); break;
            case iJZ: p.add<JZ>((uint64_t)i.a); break;
            case iJNZ: p.add<JNZ>((uint64_t)i.a); break;
            case iJMP: p.add<JMP>((uint64_t)i.a); break;
            case iCALL: p.add<CALL>((uint64_t)i.a); break;
            case iRET: p.add<RET>(); break;
            case iENTER: p.add<PUSH>(rBP); break;
            case iFRAME: p.add<MOV>(rBP, rSP); break;
            case iLEAVE: p.add<POP>(rBP); break;
            case iNOP: p.add<NOP>(); break;
            case iHALT: p.halt(); break;
        }
        return p.make(); }(), 3, 1, 12);
    Native& n = *d.n;
    w.r[0] = vf_i64("a"); w.r[1] = w.r[2] = 0; n.SetRegister("R0", w.r[0]);
    if (rnd(seed) % 3 == 0) { w.watch = true; n.SetWatchpointWrite(0); }
    int nb = rnd(seed) % 4;
    for (int i = 0; i < nb; ++i) { uint64_t a = rnd(seed) % w.p.size(); if (!w.bps.count(a)) { n.SetBreakpoint(a); w.bps[a] = true; if (rnd(seed) % 4 == 0) { n.DisableSoftwareBreakpoint(a); w.bps[a] = false; } } }
    int go_in = rnd(seed) % 4;       // get into a function first
    for (int c = 0; c < 12 && !w.over; ++c) {
        char want, got;
        switch (c < go_in ? 0 : rnd(seed) % 6) {
        case 0: case 1: want = w.step(); got = kind(n.PerformSingleStep()); break;
        case 2: case 3: want = w.step_over(); got = kind(n.PerformStepOver()); vf_cover("walk over"); break;
        case 4: want = w.step_out(); got = kind(n.PerformStepOut()); vf_cover("walk out"); break;
        default: want = w.run(0, true); n.ContinueExecution(); got = kind(n.WaitForDebugEvent());
        }
        vf_ensure(want == got, "the stop is reported with its actual reason");
        if (want == 'b') vf_cover("walk stop");
        if (want == 'w') vf_cover("walk watch");
        auto r = n.GetRegisters();
        vf_ensure(r.at("IP") == (int64_t)w.ip, "the stop is where one-by-one execution stops");
        vf_ensure(r.at("R0") == w.r[0] && r.at("R1") == w.r[1] && r.at("R2") == w.r[2] && r.at("SP") == (int64_t)w.sp && r.at("BP") == (int64_t)w.bp, "with its registers");
        auto m = n.ReadMemory(0, 12);
        for (int i = 0; i < 12; ++i) vf_ensure(m[i] == w.m[i], "and its memory");
        auto& b = n.GetBreakpoints();
        vf_ensure(b.size() == w.bps.size(), "the breakpoints are those the user set");
        for (auto& [a, e] : w.bps) { auto it = b.find(a); vf_ensure(it != b.end() && it->second.enabled == e, "the breakpoints are those the user set"); }
    }
    if (w.over) vf_cover("walk end");
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
}
