// VF-SRC: t86
// VF-COVER: load in range, load out of range, store in range, store out of range, lea
// Effective addresses, loads, stores and LEA through the whole pipeline, for all register,
// immediate and scale values and all addresses (also outside the memory).
#include "vm.h"
typedef Mach<3, 1, 3> M;

enum Shape { sI, sR, sRO, sRS, sRR, sROR, sRRS, sRORS, NSHAPES };
struct Addr { uint64_t i, sc; };
static uint64_t ea(int shape, const M& s, Addr a) {
    uint64_t r1 = s.r[1], r2 = s.r[2];
    switch (shape) {
    case sI: return a.i;
    case sR: return r1;
    case sRO: return r1 + a.i;
    case sRS: return r1 * a.sc;
    case sRR: return r1 + r2;
    case sROR: return r1 + a.i + r2;
    case sRRS: return r1 + r2 * a.sc;
    default: return r1 + a.i + r2 * a.sc;
    }
}
// Any address and any registers.  Where the address is a sum, the register that is added last is written as
// (address - rest): for every choice of the rest this is a bijection, so the registers still range over all values.
static Addr anyaddr(int shape, M& s) {
    Addr a; a.i = vf_u64("i"); a.sc = vf_u64("scale");
    uint64_t e = vf_u64("ea"), r1 = s.r[1], r2 = s.r[2];
    switch (shape) {
    case sRO: s.r[1] = e - a.i; break;
    case sRR: s.r[2] = e - r1; break;
    case sROR: s.r[2] = e - r1 - a.i; break;
    case sRRS: s.r[1] = e - r2 * a.sc; break;
    case sRORS: s.r[1] = e - a.i - r2 * a.sc; break;
    }
    return a;
}
#define R1 Register{1}
#define R2 Register{2}
#define OPERAND(shape, F) \
    switch (shape) { \
    case sI: F(Memory::Immediate(a.i)); break; \
    case sR: F(Memory::Register(R1)); break; \
    case sRO: F(Memory::RegisterOffset(R1 + (int64_t)a.i)); break; \
    case sRS: F(Memory::RegisterScaled(R1 * (int64_t)a.sc)); break; \
    case sRR: F(Memory::RegisterRegister(R1 + R2)); break; \
    case sROR: F(Memory::RegisterOffsetRegister(R1 + (int64_t)a.i + R2)); break; \
    case sRRS: F(Memory::RegisterRegisterScaled(R1 + R2 * (int64_t)a.sc)); break; \
    case sRORS: F(Memory::RegisterOffsetRegisterScaled(R1 + (int64_t)a.i + R2 * (int64_t)a.sc)); break; }

VF prove_load(int shape) { // CASES 8
    Cpu cpu(3, 1, 1, 2, 3, 1);
    M s; s.havoc(); Addr a = anyaddr(shape, s);
    Prog p;
#define L(op) p.add<MOV>(Register{0}, op)
    OPERAND(shape, L)
    cpu.start(p.halt().make());
    s.load(cpu);
    uint64_t e = ea(shape, s, a);
    End end = run(cpu);
    if (e < 3) {
        vf_ensure(end == HALTED, "runs to HALT");
        s.r[0] = e == 0 ? s.m[0] : e == 1 ? s.m[1] : s.m[2];
        vf_ensure(cpu.getRegister(Register{0}) == s.r[0], "loaded value is the addressed cell");
        s.check(cpu, "a load changes only its register");
        vf_cover("load in range");
    } else {
        vf_ensure(end == ERROR, "a load outside the memory ends in a CPU error");
        s.same_mem(cpu, "memory unchanged by a failed load");
        vf_cover("load out of range");
    }
}
// kind: 0 store register, 1 store immediate, 2 store float register
VF prove_store(int k) { // CASES 24
    int shape = k % 8, kind = k / 8;
    Cpu cpu(3, 1, 1, 2, 3, 1);
    M s; s.havoc(); Addr a = anyaddr(shape, s);
    int64_t imm = vf_i64("imm"), v;
    Prog p;
    if (kind == 0) {
        v = s.r[0];
#define S0(op) p.add<MOV>(op, Register{0})
        OPERAND(shape, S0)
    } else if (kind == 1) {
        v = imm;
#define S1(op) p.add<MOV>(op, imm)
        OPERAND(shape, S1)
    } else {
        v = s.f[0];
#define S2(op) p.add<MOV>(op, FloatRegister{0})
        OPERAND(shape, S2)
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    uint64_t e = ea(shape, s, a);
    End end = run(cpu);
    if (e < 3) {
        vf_ensure(end == HALTED, "runs to HALT");
        for (uint64_t i = 0; i < 3; ++i) if (i == e) s.m[i] = v;
        s.same_mem(cpu, "a store writes exactly the addressed cell");
        s.check(cpu, "a store changes only memory");
        vf_cover("store in range");
    } else {
        vf_ensure(end == ERROR, "a store outside the memory ends in a CPU error");
        s.same_mem(cpu, "memory unchanged by a failed store");
        vf_cover("store out of range");
    }
}
// the address register is also the register being stored / loaded into
VF prove_alias(int k) { // CASES 3
    Cpu cpu(3, 1, 1, 2, 3, 1);
    M s; s.havoc();
    Prog p;
    uint64_t e = s.r[1];
    if (k == 0) p.add<MOV>(R1, Memory::Register(R1));
    else if (k == 1) p.add<MOV>(Memory::Register(R1), R1);
    else { p.add<MOV>(R1, Memory::RegisterRegister(R1 + R1)); e = e + e; }
    cpu.start(p.halt().make());
    s.load(cpu);
    End end = run(cpu);
    if (e >= 3) { vf_ensure(end == ERROR, "an access outside the memory ends in a CPU error"); s.same_mem(cpu, "memory unchanged"); return; }
    vf_ensure(end == HALTED, "runs to HALT");
    int64_t cell = e == 0 ? s.m[0] : e == 1 ? s.m[1] : s.m[2];
    if (k == 1) { for (uint64_t i = 0; i < 3; ++i) if (i == e) s.m[i] = s.r[1]; }
    else s.r[1] = cell;
    s.check(cpu, "access through the register that is transferred");
}
VF prove_lea(int k) { // CASES 6
    int shape = k + 2;
    Cpu cpu(3, 1, 1, 2, 3, 1);
    M s; s.havoc(); Addr a = anyaddr(shape, s);
    Prog p;
    switch (shape) {
    case sRO: p.add<LEA>(Register{0}, Memory::RegisterOffset(R1 + (int64_t)a.i)); break;
    case sRS: p.add<LEA>(Register{0}, Memory::RegisterScaled(R1 * (int64_t)a.sc)); break;
    case sRR: p.add<LEA>(Register{0}, Memory::RegisterRegister(R1 + R2)); break;
    case sROR: p.add<LEA>(Register{0}, Memory::RegisterOffsetRegister(R1 + (int64_t)a.i + R2)); break;
    case sRRS: p.add<LEA>(Register{0}, Memory::RegisterRegisterScaled(R1 + R2 * (int64_t)a.sc)); break;
    case sRORS: p.add<LEA>(Register{0}, Memory::RegisterOffsetRegisterScaled(R1 + (int64_t)a.i + R2 * (int64_t)a.sc)); break;
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    s.r[0] = ea(shape, s, a);
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    vf_ensure(cpu.getRegister(Register{0}) == s.r[0], "LEA computes the effective address");
    s.check(cpu, "LEA changes only its register");
    vf_cover("lea");
}
// register moves
VF prove_mov(int k) { // CASES 2
    Cpu cpu(3, 1, 1, 2, 3, 1);
    M s; s.havoc(); int64_t imm = vf_i64("imm");
    Prog p;
    switch (k) {
    case 0: p.add<MOV>(Register{0}, imm); s.load(cpu); s.r[0] = imm; break;
    case 1: p.add<MOV>(Register{0}, R1); s.load(cpu); s.r[0] = s.r[1]; break;
    }
    cpu.start(p.halt().make());
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    s.check(cpu, "MOV copies the value and changes nothing else");
}
// the data section of a program is what memory starts with
VF prove_data_section(int k) { // CASES 4
    Cpu cpu(3, 1, 1, 2, 3, 1);
    int64_t d[3]; std::vector<int64_t> data;
    for (int i = 0; i < k; ++i) { d[i] = vf_i64("d"); data.push_back(d[i]); }
    Prog p; p.halt();
    cpu.start(Program(std::move(p.v), data));
    for (int i = 0; i < 3; ++i) vf_ensure(cpu.getMemory(i) == (i < k ? d[i] : 0), "memory starts with the data section");
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    for (int i = 0; i < 3; ++i) vf_ensure(cpu.getMemory(i) == (i < k ? d[i] : 0), "memory starts with the data section");
    vf_ensure(cpu.getRegister(Register::StackPointer()) == 3 && cpu.getRegister(Register::StackBasePointer()) == 3, "the stack starts past the last cell");
}
