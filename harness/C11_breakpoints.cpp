// VF-SRC: t86 parser debugger
// VF-OPT: text=1
// VF-COVER: hit, failed, history stop, history end, refused, replaced, commands
#include "dbgsem.h"
static const char* under(int t, Imm i, std::string& buf) {      // the text of a template, as the machine prints it
    Prog p; emit(p, t, i); buf = p.v[0]->toString(); return buf.c_str();
}
// a breakpoint on any kind of instruction: stops before it, shows the instruction, and running on (or stepping on, or
// removing the breakpoint first) has the effect of the instruction
VF prove_hit(int k) { // CASES 63
    int t = k % 21, how = k / 21; if (t == tSUB || t == tCLF) t = tDIV;      // these have no text
    S s; havoc(s); Imm i = anyimm();
    Prog p; p.add<NOP>(); emit(p, t, i);
    Session d(p.halt().make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    n.SetBreakpoint(1);
    std::string txt; under(t, i, txt);
    vf_ensure(n.ReadText(1, 1).at(0) == txt, "the text shows the instruction under the breakpoint");
    vf_ensure(hit(go(n), 1), "the breakpoint is reported");
    same(n, s, 1, "stopped before the instruction at the breakpoint");
    auto all = n.ReadText(0, 3);
    vf_ensure(all[0] == "NOP" && all[1] == txt && all[2] == "HALT", "the text shows the program");
    vf_cover("hit");
    if (how == 1) n.UnsetBreakpoint(1);
    bool ok = sem(s, t, i);
    auto e = how == 2 ? n.PerformSingleStep() : go(n);
    if (!ok) { vf_ensure(failed(e), "a failing instruction under a breakpoint is reported as an error"); same_m(n, s, "it changes no memory"); vf_cover("failed"); return; }
    vf_ensure(how == 2 ? stepped(e) : ended(e), "the run goes on behind the breakpoint");
    if (t == tMOVF) {
        double f = n.GetFloatRegister("F0"), g = bits2d(s.f[0]);
        vf_ensure(g != g ? f != f : d2bits(f) == s.f[0], "float register"); n.SetFloatRegister("F0", 1.5); s.f[0] = d2bits(1.5);
    }
    same(n, s, how == 2 ? 2 : 3, "the instruction under the breakpoint took effect once");
    vf_ensure(n.ReadText(1, 1).at(0) == txt, "the text shows the instruction");
    if (how == 2) to_end(n, s, 3);
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
}
// breakpoints on jumps, calls, returns and in loops
VF prove_control(int k) { // CASES 12
    S s; havoc(s); s.sp = 3; s.r[2] = 3;
    //  0 CMP R0,R1 / 1 JL 4 / 2 MOV R0,1 / 3 JMP 5 / 4 MOV R0,2 / 5 CALL 9 / 6 SUB R2,1 / 7 JNZ 6 / 8 HALT / 9 MOV R1,R0 / 10 RET
    Session d([&] { Prog p; p.add<CMP>(r0, r1); p.add<JL>((uint64_t)4); p.add<MOV>(r0, 1); p.add<JMP>((uint64_t)5); p.add<MOV>(r0, 2); p.add<CALL>((uint64_t)9);
        p.add<SUB>(r2, 1); p.add<JNZ>((uint64_t)6); p.halt(); p.add<MOV>(r1, r0); p.add<RET>(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    put(n, s);
    bool less = s.r[0] < s.r[1];
    bool at[11] = {};
    if (k < 11) at[k] = true; else for (int i = 0; i < 11; ++i) at[i] = true;
    for (int i = 0; i < 11; ++i) if (at[i]) n.SetBreakpoint(i);
    int want[24], w = 0;          // the instructions of the run, in order
    want[w++] = 0; want[w++] = 1;
    if (less) want[w++] = 4; else { want[w++] = 2; want[w++] = 3; }
    for (int x : {5, 9, 10, 6, 7, 6, 7, 6, 7, 8}) want[w++] = x;
    for (int i = 0; i < w; ++i) {
        if (!at[want[i]]) continue;
        if (i == 0) continue;     // the first instruction is stepped over when the execution starts on it
        vf_ensure(hit(go(n), want[i]) && n.GetIP() == (uint64_t)want[i], "every execution of an instruction with a breakpoint stops before it");
        if (want[i] == 6) vf_ensure(n.GetRegister("R1") == (less ? 2 : 1), "state at the stop");
    }
    vf_ensure(ended(go(n)), "and nothing else stops");
    s.r[0] = s.r[1] = less ? 2 : 1; s.r[2] = 0; s.m[2] = 6;
    same(n, s, 9, "final state");
}
// ---- histories of debugger commands, against an abstract machine: text, set of breakpoints, sequential execution
struct Model { int t[6]; Imm im[6]; int n = 6; std::map<uint64_t, bool> bp; S s; uint64_t ip = 0; bool over = false; };
static std::string text(const Model& m, int a) { std::string b; return a == m.n - 1 ? "HALT" : (under(m.t[a], m.im[a], b), b); }
static void one(Model& m) {
    if (m.ip == (uint64_t)m.n - 1) { m.over = true; ++m.ip; return; }
    vf_assume(sem(m.s, m.t[m.ip], m.im[m.ip])); ++m.ip;
}
static bool on(const Model& m) { auto it = m.bp.find(m.ip); return it != m.bp.end() && it->second; }
static void check(Native& n, const Model& m) {
    same(n, m.s, m.ip, "every stop shows the state of sequential execution");
    auto x = n.ReadText(0, m.n);
    for (int i = 0; i < m.n; ++i) vf_ensure(x[i] == text(m, i), "the text shows the program, whatever breakpoints are set");
    auto& b = n.GetBreakpoints();
    vf_ensure(b.size() == m.bp.size(), "the breakpoints are those set");
    for (auto& [a, e] : m.bp) { auto it = b.find(a); vf_ensure(it != b.end() && it->second.enabled == e, "the breakpoints are those set"); }
}
static const int SAFE[] = {tMOVi, tMOVr, tMOVr2, tADD, tLEA, tLD0, tST0, tST0i, tINC, tLEA, tMOVi, tMOVRF};
VF bounded_history(int k) { // CASES 48 320
    uint64_t seed = seeded(k);
    Model m; havoc(m.s);
    Prog p;
    for (int i = 0; i < 5; ++i) { m.t[i] = SAFE[rnd(seed) % 12]; m.im[i] = anyimm(); emit(p, m.t[i], m.im[i]); }
    Session d(p.halt().make(), 3, 1, 3);
    Native& n = *d.n;
    put(n, m.s);
    for (int c = 0; c < 9 && !m.over; ++c) {
        uint64_t a = rnd(seed) % 6; bool has = m.bp.count(a); bool r;
        switch (rnd(seed) % 9) {
        case 0: case 1: case 2:
            r = refused([&] { n.SetBreakpoint(a); });
            vf_ensure(r == has, "a second breakpoint at an address is refused"); if (!has) m.bp[a] = true; break;
        case 3: r = refused([&] { n.UnsetBreakpoint(a); }); vf_ensure(r == !has, "removing needs a breakpoint"); m.bp.erase(a); break;
        case 4: r = refused([&] { n.DisableSoftwareBreakpoint(a); }); vf_ensure(r == !has, "disabling needs a breakpoint"); if (has) m.bp[a] = false; break;
        case 5: r = refused([&] { n.EnableSoftwareBreakpoint(a); }); vf_ensure(r == !has, "enabling needs a breakpoint"); if (has) m.bp[a] = true; break;
        case 6:
            if (a == 5) break;
            m.t[a] = SAFE[rnd(seed) % 12]; n.WriteText(a, {text(m, a)}); break;
        case 7: {
            auto e = n.PerformSingleStep(); one(m);
            vf_ensure(m.over ? ended(e) : stepped(e), "a step ends with a step stop"); break; }
        default: {
            one(m);
            while (!m.over && !on(m)) one(m);
            auto e = go(n);
            vf_ensure(m.over ? ended(e) : hit(e, m.ip), "continuing stops at the next enabled breakpoint or the end");
            if (!m.over) vf_cover("history stop"); }
        }
        if (m.over) break;
        check(n, m);
    }
    if (!m.over) {
        for (bool done = false; !done;) {
            one(m);
            while (!m.over && !on(m)) one(m);
            auto e = go(n);
            vf_ensure(m.over ? ended(e) : hit(e, m.ip), "continuing stops at the next enabled breakpoint or the end");
            done = m.over;
        }
    }
    check(n, m);
    vf_ensure(d.finish() && d.link.vm_result, "the machine ends");
    vf_cover("history end");
}
// every sequence of three breakpoint and text commands around one address: text, set of breakpoints, refusals, execution
VF bounded_commands(int k) { // CASES 49
    Session d([&] { Prog p; p.add<MOV>(r0, 1); p.add<MOV>(r1, 2); p.add<MOV>(r2, 3); p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    std::string t[4] = {"MOV R0, 1", "MOV R1, 2", "MOV R2, 3", "HALT"};
    int val[3] = {1, 2, 3}, fresh = 10;
    bool has = false, on = false;
    auto wr = [&](int i) { val[i] = ++fresh; return t[i] = "MOV R" + std::to_string(i) + ", " + std::to_string(fresh); };
    auto cmd = [&](int c) {
        bool r;
        switch (c) {
        case 0: r = refused([&] { n.SetBreakpoint(1); }); vf_ensure(r == has, "a second breakpoint is refused"); if (!has) has = on = true; break;
        case 1: r = refused([&] { n.UnsetBreakpoint(1); }); vf_ensure(r == !has, "removing needs a breakpoint"); has = on = false; break;
        case 2: r = refused([&] { n.EnableSoftwareBreakpoint(1); }); vf_ensure(r == !has, "enabling needs a breakpoint"); on = has; break;
        case 3: r = refused([&] { n.DisableSoftwareBreakpoint(1); }); vf_ensure(r == !has, "disabling needs a breakpoint"); on = false; break;
        case 4: n.WriteText(1, {wr(1)}); break;
        case 5: n.WriteText(0, {wr(0), wr(1), wr(2)}); break;
        case 6: { std::map<uint64_t, SoftwareBreakpoint> w; w.emplace(1, SoftwareBreakpoint{"", true}); n.SetAllBreakpoints(w); has = on = true; break; }
        }
        auto x = n.ReadText(0, 4);
        for (int i = 0; i < 4; ++i) vf_ensure(x.at(i) == t[i], "the text shows the program, whatever breakpoints are set");
        vf_ensure(n.ReadText(1, 1).at(0) == t[1], "the text shows the program, whatever breakpoints are set");
        auto& b = n.GetBreakpoints();
        vf_ensure(b.size() == (has ? 1u : 0u) && (!has || (b.begin()->first == 1 && b.begin()->second.enabled == on)), "the breakpoints are those set");
    };
    for (int c = 0; c < 7; ++c) {
        cmd(k / 7); cmd(k % 7); cmd(c);
        n.SetRegister("IP", 0);
        if (on) { vf_ensure(hit(go(n), 1), "an enabled breakpoint stops"); vf_ensure(n.GetRegister("R0") == val[0], "before the breakpoint"); }
        // run up to the end but for the HALT: step the rest
        while (n.GetIP() < 3) vf_ensure(stepped(n.PerformSingleStep()), "a step");
        vf_ensure(n.GetRegister("R0") == val[0] && n.GetRegister("R1") == val[1] && n.GetRegister("R2") == val[2], "the program computes what its text says");
        if (has) cmd(1);
    }
    vf_ensure(ended(go(n)), "the program ends");
    vf_cover("commands");
}
// addresses outside the text are refused and harm nothing; all addresses
VF prove_refused(int k) { // CASES 4
    uint64_t a = vf_u64("a");
    Session d([&] { Prog p; p.add<INC>(r0); p.add<INC>(r0); p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    if (k == 0) { vf_assume(a >= 3); vf_ensure(refused([&] { n.SetBreakpoint(a); }), "a breakpoint outside the text is refused"); }
    if (k == 1) vf_ensure(refused([&] { n.UnsetBreakpoint(a); }), "there is no breakpoint to remove");
    if (k == 2) vf_ensure(refused([&] { n.EnableSoftwareBreakpoint(a); }), "there is no breakpoint to enable");
    if (k == 3) vf_ensure(refused([&] { n.DisableSoftwareBreakpoint(a); }), "there is no breakpoint to disable");
    vf_cover("refused");
    vf_ensure(n.GetBreakpoints().empty(), "a refused command changes nothing");
    vf_ensure(ended(go(n)) && n.GetRegister("R0") == 2, "a refused command changes nothing");
}
// the whole set of breakpoints is replaced (as when the program is run again)
VF prove_replace(int k) { // CASES 8
    Session d([&] { Prog p; p.add<INC>(r0); p.add<INC>(r0); p.add<INC>(r1); p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    for (int i = 0; i < 3; ++i) if (k >> i & 1) n.SetBreakpoint(i + 1);
    if (k & 2) n.DisableSoftwareBreakpoint(2);
    std::map<uint64_t, SoftwareBreakpoint> want;
    want.emplace(2, SoftwareBreakpoint{"", true});
    if (k & 1) want.emplace(3, SoftwareBreakpoint{"", true});
    n.SetAllBreakpoints(want);
    auto x = n.ReadText(0, 4);
    vf_ensure(x[0] == "INC R0" && x[1] == "INC R0" && x[2] == "INC R1" && x[3] == "HALT", "the text is the program's");
    vf_ensure(n.GetBreakpoints().size() == want.size(), "exactly the new breakpoints are set");
    vf_ensure(hit(go(n), 2), "a new breakpoint stops");
    if (k & 1) vf_ensure(hit(go(n), 3), "a new breakpoint stops");
    vf_ensure(ended(go(n)), "an old breakpoint does not stop");
    vf_ensure(n.GetRegister("R0") == 2 && n.GetRegister("R1") == 1, "final state");
    vf_cover("replaced");
}
// pinned by an existing test (the reference output of a re-run): a disabled breakpoint taken over by replacing the whole
// set has no saved instruction, so the text shows an empty line there
VF known_replace_disabled(int) {
    Session d([&] { Prog p; p.add<INC>(r0); p.halt(); return p.make(); }(), 3, 1, 3);
    std::map<uint64_t, SoftwareBreakpoint> want;
    want.emplace(0, SoftwareBreakpoint{"", false});
    d.n->SetAllBreakpoints(want);
    vf_ensure(d.n->ReadText(0, 1).at(0) == "INC R0", "the text shows the instruction at a disabled breakpoint that was restored");
}
