// VF-SRC: t86 parser debugger
// VF-OPT: text=1
// VF-COVER: registers, floats, memory, out of range, text, program sees registers, program sees memory, malformed
#include "dbgsem.h"
static Session* session(int nr = 3) {
    return new Session([&] { Prog p; p.add<INC>(r0); p.add<NOP>(); p.halt(); return p.make(); }(), nr, 2, 3);
}
// a register written has the value, for every register and value, and no other register or cell changes
VF prove_set_register(int k) { // CASES 10
    static const char* name[] = {"R0", "R1", "R2", "SP", "BP"};
    auto* d = session(); Native& n = *d->n;
    std::map<std::string, int64_t> all;
    for (auto x : name) all[x] = vf_i64("r");
    n.SetRegisters(all);
    int64_t m0 = vf_i64("m"), v = vf_i64("v"); n.SetMemory(1, {m0});
    n.SetFloatRegister("F0", 0.5);
    if (k >= 5) vf_ensure(stepped(n.PerformSingleStep()), "step");
    if (k >= 5) all["R0"] = (int64_t)((uint64_t)all["R0"] + 1);
    n.SetRegister(name[k % 5], v); all[name[k % 5]] = v;
    auto got = n.GetRegisters();
    for (auto x : name) { vf_ensure(got.at(x) == all[x], "exactly the written register has the written value"); vf_ensure(n.GetRegister(x) == all[x], "the single read agrees"); }
    vf_ensure(got.at("IP") == (k >= 5) && n.GetIP() == (uint64_t)(k >= 5), "the program counter is as before");
    vf_ensure(got.size() == 6, "all registers are shown");
    auto m = n.ReadMemory(0, 3);
    vf_ensure(m.size() == 3 && m[0] == 0 && m[1] == m0 && m[2] == 0, "memory is as before");
    vf_ensure(n.GetFloatRegister("F0") == 0.5 && n.GetFloatRegister("F1") == 0, "float registers are as before");
    vf_ensure(ended(go(n)), "runs to the end");
    got = n.GetRegisters();
    if (k < 5) all["R0"] = (int64_t)((uint64_t)all["R0"] + 1);
    for (auto x : name) vf_ensure(got.at(x) == all[x], "the program works on the written values");
    vf_cover("registers");
    vf_ensure(d->finish() && d->link.vm_result, "the machine ends");
}
// a float register written has the value, and the other one keeps every bit
VF prove_set_float(int k) { // CASES 4
    Session d([&] { Prog p; p.add<MOV>(f0, r0); p.add<MOV>(r1, f0); p.add<MOV>(r2, FloatRegister{1}); p.halt(); return p.make(); }(), 3, 2, 3);
    Native& n = *d.n;
    uint64_t b = vf_u64("bits"), w = vf_u64("w");
    if (k == 0) {        // any bits in F0, a number is written to F1
        double v = bits2d(w); vf_assume(v == v);
        n.SetRegister("R0", b);
        vf_ensure(stepped(n.PerformSingleStep()), "step");
        n.SetFloatRegister("F1", v);
        vf_ensure(d2bits(n.GetFloatRegister("F1")) == w, "the written value is read back");
        vf_ensure(ended(go(n)), "runs to the end");
        vf_ensure(n.GetRegister("R1") == (int64_t)b, "the other float register keeps its bits");
        vf_ensure(n.GetRegister("R2") == (int64_t)w, "the program sees the written bits");
        vf_cover("floats");
    } else if (k == 1) { // any number is shown as it is
        double v = bits2d(b); vf_assume(v == v);
        n.SetRegister("R0", b);
        vf_ensure(stepped(n.PerformSingleStep()), "step");
        vf_ensure(d2bits(n.GetFloatRegister("F0")) == b && d2bits(n.GetFloatRegisters().at("F0")) == b, "the value of the register is shown");
        vf_ensure(d2bits(n.GetFloatRegisters().at("F1")) == 0, "the value of the register is shown");
    } else if (k == 2) { // both at once
        double v = bits2d(w); vf_assume(v == v); double u = bits2d(b); vf_assume(u == u);
        n.SetFloatRegisters({{"F0", u}, {"F1", v}});
        auto g = n.GetFloatRegisters();
        vf_ensure(g.size() == 2 && d2bits(g.at("F0")) == b && d2bits(g.at("F1")) == w, "the written values are read back");
    } else {
        vf_ensure(refused([&] { n.SetFloatRegister("F2", 1); }) && refused([&] { n.SetFloatRegister("R0", 1); }) && refused([&] { n.GetFloatRegister("F2"); }), "an unknown float register is refused");
        vf_ensure(refused([&] { n.SetRegister("R3", 1); }) && refused([&] { n.SetRegister("F0", 1); }) && refused([&] { n.SetRegister("", 1); }) && refused([&] { n.GetRegister("R3"); }) && refused([&] { n.GetRegister("D0"); }), "an unknown register is refused");
        vf_ensure(n.GetRegister("R0") == 0 && n.GetFloatRegister("F0") == 0, "and nothing is changed");
        vf_ensure(ended(go(n)), "runs to the end");
    }
}
// the program counter: execution goes on at the written place
VF prove_set_ip(int k) { // CASES 12
    int to = k % 4, when = k / 4;
    Session d([&] { Prog p; p.add<MOV>(r0, 1); p.add<MOV>(r1, 2); p.add<MOV>(r2, 3); p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    int64_t r[3] = {vf_i64("a"), vf_i64("b"), vf_i64("c")};
    n.SetRegisters({{"R0", r[0]}, {"R1", r[1]}, {"R2", r[2]}});
    for (int i = 0; i < when; ++i) { vf_ensure(stepped(n.PerformSingleStep()), "step"); r[i] = i + 1; }
    n.SetRegister("IP", to);
    vf_ensure(n.GetIP() == (uint64_t)to, "the program counter is read back");
    if (to < 3 && when < 2) { vf_ensure(stepped(n.PerformSingleStep()) && n.GetIP() == (uint64_t)to + 1, "the step executes the instruction there"); r[to] = to + 1; }
    vf_ensure(n.GetRegister("R0") == r[0] && n.GetRegister("R1") == r[1] && n.GetRegister("R2") == r[2], "only that instruction was executed");
    vf_ensure(ended(go(n)), "runs to the end");
    for (int i = to; i < 3; ++i) r[i] = i + 1;
    vf_ensure(n.GetRegister("R0") == r[0] && n.GetRegister("R1") == r[1] && n.GetRegister("R2") == r[2], "execution went on there");
}
// memory: any address and any number of cells
VF prove_memory(int k) { // CASES 5
    auto* d = session(); Native& n = *d->n;
    int64_t m[3] = {vf_i64("m"), vf_i64("m"), vf_i64("m")};
    n.SetMemory(0, {m[0], m[1], m[2]});
    std::vector<int64_t> v;
    for (int i = 0; i < k; ++i) v.push_back(vf_i64("v"));
    uint64_t a = vf_u64("a");
    bool in = a <= 3 && a + k <= 3;
    if (k) {
        bool r = refused([&] { n.SetMemory(a, v); });
        vf_ensure(r == !in, "writing cells outside the memory is refused");
        if (in) for (int i = 0; i < 3; ++i) if ((uint64_t)i >= a && (uint64_t)i < a + k) m[i] = v[i - a];
    }
    auto all = n.ReadMemory(0, 3);
    vf_ensure(all.size() == 3 && all[0] == m[0] && all[1] == m[1] && all[2] == m[2], "exactly the written cells have the written values");
    uint64_t b = vf_u64("b"), c = vf_u64("c");
    std::vector<int64_t> got; bool r = refused([&] { got = n.ReadMemory(b, c); });
    if (b <= 3 && c <= 3 && b + c <= 3) {
        vf_ensure(!r && got.size() == c, "cells of the memory are read");
        for (uint64_t i = 0; i < c; ++i) vf_ensure(got[i] == m[b + i], "the cells read are those asked for");
        vf_cover("memory");
    } else { if (c) vf_ensure(r, "reading outside the memory is refused"); vf_cover("out of range"); }
    vf_ensure(ended(go(n)), "runs to the end");
}
// memory written at a stop is what the program then loads, also right behind its own stores to the same cell
VF prove_program_sees_memory(int k) { // CASES 24
    int load = k % 4, steps = k / 4 % 3, brk = k / 12;
    Session d([&] { Prog p; p.add<MOV>(Memory::Immediate(1), r0); p.add<MOV>(r2, Memory::Immediate(1));
        switch (load) {
        case 0: p.add<MOV>(r1, Memory::Immediate(1)); break;
        case 1: p.add<ADD>(r1, Memory::Immediate(1)); break;
        case 2: p.add<POP>(r1); break;
        default: p.add<MOV>(Memory::Immediate(2), r0); p.add<MOV>(r1, Memory::Immediate(1)); break;
        }
        return p.halt().make(); }(), 3, 1, 3);
    Native& n = *d.n;
    int64_t a = vf_i64("a"), v = vf_i64("v");
    n.SetRegister("R0", a); n.SetRegister("SP", 1);
    n.SetMemory(1, {vf_i64("old")});
    if (brk && steps) { n.SetBreakpoint(steps); vf_ensure(hit(go(n), steps), "breakpoint"); }
    else for (int i = 0; i < steps; ++i) vf_ensure(stepped(n.PerformSingleStep()), "step");
    n.SetMemory(1, {v});
    vf_ensure(n.ReadMemory(1, 1)[0] == v, "the written cell is read back");
    vf_ensure(ended(go(n)), "runs to the end");
    int64_t now = steps ? v : a;
    vf_ensure(n.ReadMemory(1, 1)[0] == now, "the written cell keeps its value");
    vf_ensure(n.GetRegister("R1") == now, "the program loads the written value");
    vf_ensure(n.GetRegister("R2") == (steps == 2 ? a : now), "the program loads the written value");
    vf_cover("program sees memory");
}
// registers written at a stop are what the next instructions use, also when they were just computed by the program
VF prove_program_sees_registers(int k) { // CASES 22
    S s; havoc(s); Imm i = anyimm(), j = anyimm();
    Prog p; emit(p, tINC, j); emit(p, tMOVr2, j); emit(p, tLEA, j); emit(p, k, i);
    Session d(p.halt().make(), 3, 1, 3);
    Native& n = *d.n;
    for (int x = 0; x < 3; ++x) vf_ensure(stepped(n.PerformSingleStep()), "step");
    s.fl = (k == tCLF || k == tCMP) ? 0 : s.fl;
    put(n, s);
    same(n, s, 3, "the written state is read back");
    bool ok = sem(s, k, i);
    auto e = go(n);
    if (!ok) { vf_ensure(failed(e), "error"); return; }
    vf_ensure(ended(e), "runs to the end");
    if (k == tMOVF) { double f = n.GetFloatRegister("F0"), g = bits2d(s.f[0]); vf_ensure(g != g ? f != f : d2bits(f) == s.f[0], "float register"); n.SetFloatRegister("F0", 1.5); s.f[0] = d2bits(1.5); }
    same(n, s, 5, "the program works on the written state");
    vf_cover("program sees registers");
}
// text written at a stop is what the program then executes, wherever the stop is
VF prove_text(int k) { // CASES 16
    int at = k % 4, steps = k / 4;
    Session d([&] { Prog p; for (int i = 0; i < 4; ++i) p.add<INC>(r0); return p.halt().make(); }(), 3, 1, 3);
    Native& n = *d.n;
    int64_t r = vf_i64("r"), v = vf_i64("v");
    n.SetRegister("R0", r);
    for (int i = 0; i < steps; ++i) vf_ensure(stepped(n.PerformSingleStep()), "step");
    std::vector<std::string> w = {"MOV R1, R0"};
    if (at < 3) w.push_back("MOV R2, " + std::to_string(v));
    n.WriteText(at, w);
    auto t = n.ReadText(0, 5);
    for (int i = 0; i < 5; ++i) vf_ensure(t[i] == (i == at ? w[0] : i == at + 1 && at < 3 ? w[1] : i == 4 ? "HALT" : "INC R0"), "exactly the written instructions are in the text");
    vf_cover("text");
    uint64_t x = r, r1v = 0, r2v = 0;
    for (int i = 0; i < 5; ++i) {
        if (i < steps) { ++x; continue; }
        if (i == at) r1v = x; else if (i == at + 1 && at < 3) r2v = v; else if (i < 4) ++x;
    }
    vf_ensure(ended(go(n)), "runs to the end");
    vf_ensure(n.GetRegister("R0") == (int64_t)x && n.GetRegister("R1") == (int64_t)r1v && n.GetRegister("R2") == (int64_t)r2v, "the written instructions are executed");
}
VF prove_text_refused(int k) { // CASES 3
    auto* d = session(); Native& n = *d->n;
    uint64_t a = vf_u64("a"), c = vf_u64("c");
    if (k == 0) { vf_assume(a > 1); vf_ensure(refused([&] { n.WriteText(a, {"NOP", "INC R1"}); }), "writing outside the text is refused"); vf_cover("out of range"); }
    if (k == 1) {
        std::vector<std::string> t; bool r = refused([&] { t = n.ReadText(a, c); });
        bool in = a <= 3 && c <= 3 && a + c <= 3;
        if (in) vf_ensure(!r && t.size() == c, "instructions of the text are read"); else if (c) vf_ensure(r, "reading outside the text is refused");
    }
    if (k == 2) for (const char* bad : {"FOO R0", "MOV R0", "", "MOV 5, R0", "INC R1 R2", "MOV R0, [R1 * R2]", "MOV R0, 99999999999999999999"}) {
        vf_ensure(refused([&] { n.WriteText(1, {bad}); }), "a malformed instruction is refused");
        vf_ensure(refused([&] { n.WriteText(0, {"NOP", bad}); }), "a malformed instruction is refused");
        vf_cover("malformed");
    }
    auto t = n.ReadText(0, 3);
    vf_ensure(t[0] == "INC R0" && t[1] == "NOP" && t[2] == "HALT", "a refused command changes nothing");
    vf_ensure(ended(go(n)) && n.GetRegister("R0") == 1, "a refused command changes nothing");
}
