// VF-SRC: t86
// VF-COVER: arithmetic, compare, move, error, stack, convert
// Floating point instructions: IEEE double arithmetic with documented flags, bit-exact data movement, conversions.
#include "vm.h"
typedef Mach<3, 2, 3> M;
#define R(i) Register{(size_t)(i)}
#define F(i) FloatRegister{(size_t)(i)}
static int fflags(double v) { return (v < 0 ? FS : 0) | (v == 0 ? FZ : 0) | (v == __builtin_inf() || v == -__builtin_inf() ? FO : 0); }
template <class I> static void put(Prog& p, bool imm, double v) { if (imm) p.add<I>(F(0), v); else p.add<I>(F(0), F(1)); }
// FADD FSUB FMUL FDIV FCMP, register and immediate operand
VF prove_arith(int k) { // CASES 10
    Cpu cpu(3, 2, 1, 2, 3, 4);
    M s; s.havoc();
    bool imm = k % 2; uint64_t ib = vf_u64("fimm");
    double x = bits2d(s.f[0]), y = bits2d(imm ? ib : s.f[1]), v = 0;
    Prog p;
    switch (k / 2) {
    case 0: put<FADD>(p, imm, y); v = x + y; break;
    case 1: put<FSUB>(p, imm, y); v = x - y; break;
    case 2: put<FMUL>(p, imm, y); v = x * y; break;
    case 3: put<FDIV>(p, imm, y); v = x / y; break;
    case 4: put<FCMP>(p, imm, y); v = x - y; break;
    }
    cpu.start(p.halt().make()); s.load(cpu);
    s.fl = fflags(v);
    vf_ensure(run(cpu) == HALTED, "the program halts");
    double got = cpu.getFloatRegister(F(0));
    if (k / 2 == 4) { vf_ensure(d2bits(got) == s.f[0], "FCMP leaves its operands"); vf_cover("compare"); }
    else { vf_ensure(d2bits(got) == d2bits(v) || (got != got && v != v), "the result is the IEEE result"); s.f[0] = d2bits(got); vf_cover("arithmetic"); }
    s.check(cpu, "flags, and nothing else changes");
}
// bit-exact moves among float registers, integer registers and memory
VF prove_move(int k) { // CASES 8
    Cpu cpu(3, 2, 1, 2, 3, 4);
    M s; s.havoc();
    uint64_t ib = vf_u64("fimm"), a = vf_u64("addr");
    Prog p; M e = s; bool err = false;
    switch (k) {
    case 0: p.add<MOV>(F(0), F(1)); e.f[0] = e.f[1]; break;
    case 1: p.add<MOV>(F(0), bits2d(ib)); e.f[0] = ib; break;
    case 2: p.add<MOV>(F(0), R(1)); e.f[0] = e.r[1]; break;
    case 3: p.add<MOV>(R(1), F(0)); e.r[1] = e.f[0]; break;
    case 4: p.add<MOV>(F(0), Memory::Immediate(1)); e.f[0] = e.m[1]; break;
    case 5: p.add<MOV>(Memory::Immediate(1), F(0)); e.m[1] = e.f[0]; break;
    case 6: p.add<MOV>(F(0), Memory::Register(R(1))); err = (uint64_t)s.r[1] >= 3; if (!err) for (int i = 0; i < 3; ++i) if (i == s.r[1]) e.f[0] = e.m[i]; break;
    case 7: p.add<MOV>(Memory::Register(R(1)), F(0)); err = (uint64_t)s.r[1] >= 3; if (!err) for (int i = 0; i < 3; ++i) if (i == s.r[1]) e.m[i] = e.f[0]; break;
    }
    cpu.start(p.halt().make()); s.load(cpu);
    End end = run(cpu);
    if (err) { vf_ensure(end == ERROR, "an address outside the memory is an error"); s.same_mem(cpu, "memory is unchanged"); vf_cover("error"); return; }
    vf_ensure(end == HALTED, "the program halts");
    e.check(cpu, "the bits are copied, and nothing else changes");
    vf_cover("move");
}
// stores of a float register through the composite address forms
VF prove_store_forms(int k) { // CASES 6
    Cpu cpu(3, 2, 1, 2, 3, 4);
    M s; s.havoc();
    int64_t i = vf_i64("i"), j = k == 5 || k == 3 || k == 1 ? 2 : 1, ea = vf_u64("ea");
    Prog p;
    switch (k) {
    case 0: s.r[1] = (uint64_t)ea - (uint64_t)i; p.add<MOV>(Memory::RegisterOffset(R(1) + i), F(0)); break;
    case 1: vf_assume(ea % 2 == 0 && ea >= 0); s.r[1] = ea / 2; p.add<MOV>(Memory::RegisterScaled(R(1) * 2), F(0)); break;
    case 2: s.r[1] = (uint64_t)ea - (uint64_t)s.r[2]; p.add<MOV>(Memory::RegisterRegister(R(1) + R(2)), F(0)); break;
    case 3: s.r[1] = (uint64_t)ea - (uint64_t)s.r[2] * 2; p.add<MOV>(Memory::RegisterRegisterScaled(R(1) + R(2) * 2), F(0)); break;
    case 4: s.r[1] = (uint64_t)ea - (uint64_t)s.r[2] - (uint64_t)i; p.add<MOV>(Memory::RegisterOffsetRegister(R(1) + i + R(2)), F(0)); break;
    case 5: s.r[1] = (uint64_t)ea - (uint64_t)s.r[2] * 2 - (uint64_t)i; p.add<MOV>(Memory::RegisterOffsetRegisterScaled(R(1) + i + R(2) * 2), F(0)); break;
    }
    cpu.start(p.halt().make()); s.load(cpu);
    End end = run(cpu);
    if ((uint64_t)ea >= 3) { vf_ensure(end == ERROR, "an address outside the memory is an error"); s.same_mem(cpu, "memory is unchanged"); return; }
    vf_ensure(end == HALTED, "the program halts");
    for (int a = 0; a < 3; ++a) if (a == ea) s.m[a] = s.f[0];
    s.check(cpu, "the bits are stored at the address, and nothing else changes");
}
// FPUSH / FPOP
VF prove_stack(int k) { // CASES 3
    Cpu cpu(3, 2, 1, 2, 3, 4);
    M s; s.havoc();
    uint64_t ib = vf_u64("fimm");
    Prog p; bool err;
    M e = s;
    if (k == 2) {
        p.add<FPOP>(F(1)); err = (uint64_t)s.sp >= 3;
        if (!err) { for (int i = 0; i < 3; ++i) if (i == s.sp) e.f[1] = s.m[i]; e.sp = s.sp + 1; }
    } else {
        if (k == 0) p.add<FPUSH>(F(1)); else p.add<FPUSH>(bits2d(ib));
        uint64_t a = (uint64_t)s.sp - 1; err = a >= 3;
        if (!err) { for (uint64_t i = 0; i < 3; ++i) if (i == a) e.m[i] = k == 0 ? s.f[1] : ib; e.sp = a; }
    }
    cpu.start(p.halt().make()); s.load(cpu);
    End end = run(cpu);
    if (err) { vf_ensure(end == ERROR, "an address outside the memory is an error"); s.same_mem(cpu, "memory is unchanged"); return; }
    vf_ensure(end == HALTED, "the program halts");
    e.check(cpu, "the bits are pushed or popped, and nothing else changes");
    vf_cover("stack");
}
// EXT / NRW
VF prove_convert(int k) { // CASES 2
    Cpu cpu(3, 2, 1, 2, 3, 4);
    M s; s.havoc();
    Prog p;
    if (k == 0) p.add<EXT>(F(0), R(1));
    else { double d = bits2d(s.f[0]); vf_assume(d > -9.2e18 && d < 9.2e18); p.add<NRW>(R(1), F(0)); }
    cpu.start(p.halt().make()); s.load(cpu);
    if (k == 0) s.f[0] = d2bits((double)s.r[1]); else s.r[1] = (int64_t)bits2d(s.f[0]);
    vf_ensure(run(cpu) == HALTED, "the program halts");
    s.check(cpu, "the value is converted, and nothing else changes");
    vf_cover("convert");
}
