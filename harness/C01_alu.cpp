// VF-SRC: t86
// VF-COVER: alu done, division by zero reported, unary done, special, move
// Integer arithmetic, run through the whole pipeline, for all operand values.
#include "vm.h"

typedef Mach<3, 1, 2> M;

enum Op { oADD, oSUB, oMUL, oDIV, oMOD, oIMUL, oIDIV, oAND, oOR, oXOR, oLSH, oRSH, NOPS };

// contract of one operation: result and flags, or an error
struct Spec { bool err = false; int64_t v = 0; int fl = 0; };
static int sz(int64_t v) { return (v < 0 ? FS : 0) | (v == 0 ? FZ : 0); }
static Spec spec(int op, int64_t x, int64_t y) {
    Spec s; uint64_t ux = x, uy = y;
    switch (op) {
    case oADD: { s.v = ux + uy; i128 w = (i128)x + y; s.fl = sz(s.v) | ((u128)ux + uy > UINT64_MAX ? FC : 0) | (w != (i128)s.v ? FO : 0); break; }
    case oSUB: { s.v = ux - uy; i128 w = (i128)x - y; s.fl = sz(s.v) | (ux < uy ? FC : 0) | (w != (i128)s.v ? FO : 0); break; }
    case oMUL: { s.v = ux * uy; s.fl = sz(s.v) | ((u128)ux * uy > UINT64_MAX ? FC : 0); break; }
    case oIMUL: { s.v = ux * uy; s.fl = sz(s.v) | ((i128)x * y != (i128)s.v ? FO : 0); break; }
    case oDIV: if (y == 0) s.err = true; else { s.v = ux / uy; s.fl = sz(s.v); } break;
    case oIDIV: if (y == 0) s.err = true; else if (y == -1) { s.v = 0 - ux; s.fl = sz(s.v); } else { s.v = x / y; s.fl = sz(s.v); } break;
    case oMOD: if (y == 0) s.err = true; else if (y == -1) { s.v = 0; s.fl = FZ; } else { s.v = x % y; s.fl = sz(s.v); } break;
    case oAND: s.v = x & y; s.fl = sz(s.v); break;
    case oOR: s.v = x | y; s.fl = sz(s.v); break;
    case oXOR: s.v = x ^ y; s.fl = sz(s.v); break;
    case oLSH: // carry is the last bit shifted out
        s.v = uy < 64 ? (int64_t)(ux << uy) : 0;
        s.fl = sz(s.v) | (uy >= 1 && uy <= 64 && ((ux >> ((64 - uy) & 63)) & 1) ? FC : 0);
        break;
    case oRSH: // arithmetic
        s.v = uy < 64 ? x >> uy : (x < 0 ? -1 : 0);
        s.fl = sz(s.v) | (uy >= 1 && uy <= 64 && ((x >> ((uy - 1) & 63)) & 1) ? FC : 0);
        break;
    }
    return s;
}

enum Form { fRR, fRI, fRM, fRMR, fRMRO, fRRO, fRself, fRRR, fRRI, fSPI, fBPSP, fRBPO, NFORMS };

template <class I>
static void binary(int op, int form) {
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    int64_t imm = vf_i64("imm"), x = s.r[0], y = 0;
    int dst = 0;
    Prog p;
    switch (form) {
    case fRR: p.add<I>(Register{0}, Register{1}); y = s.r[1]; break;
    case fRI: p.add<I>(Register{0}, imm); y = imm; break;
    case fRM: p.add<I>(Register{0}, Memory::Immediate{1}); y = s.m[1]; break;
    case fRMR: s.r[1] = 1; p.add<I>(Register{0}, Memory::Register{Register{1}}); y = s.m[1]; break;
    case fRMRO: s.r[1] = 5; p.add<I>(Register{0}, Memory::RegisterOffset{Register{1} + (-5)}); y = s.m[0]; break;
    case fRRO: p.add<I>(Register{0}, Register{1} + imm); y = (uint64_t)s.r[1] + (uint64_t)imm; break;
    case fRself: p.add<I>(Register{1}, Register{1}); x = y = s.r[1]; dst = 1; break;
    case fRRR: p.add<I>(Register{0}, Register{1}, Register{2}); x = s.r[1]; y = s.r[2]; break;
    case fRRI: p.add<I>(Register{2}, Register{1}, imm); x = s.r[1]; y = imm; dst = 2; break;
    case fSPI: p.add<I>(Register::StackPointer(), imm); x = s.sp; y = imm; dst = -1; break;
    case fBPSP: p.add<I>(Register::StackBasePointer(), Register::StackPointer()); x = s.bp; y = s.sp; dst = -2; break;
    case fRBPO: p.add<I>(Register{0}, Register::StackBasePointer() + imm); y = (uint64_t)s.bp + (uint64_t)imm; break;
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    Spec e = spec(op, x, y);
    End end = run(cpu);
    if (e.err) {
        vf_ensure(end == ERROR, "division by zero ends in a CPU error");
        s.same_mem(cpu, "memory unchanged by a failed division");
        vf_cover("division by zero reported");
        return;
    }
    vf_ensure(end == HALTED, "runs to HALT");
    Register d = dst == -1 ? Register::StackPointer() : dst == -2 ? Register::StackBasePointer() : Register{(size_t)dst};
    if (dst == -1) s.sp = e.v; else if (dst == -2) s.bp = e.v; else s.r[dst] = e.v;
    if (dst < 0) vf_cover("special");
    vf_ensure(cpu.getRegister(d) == e.v, "result");
    int64_t fl = cpu.getRegister(Register::Flags());
    vf_ensure((fl & FS) == (e.fl & FS), "sign flag");
    vf_ensure((fl & FZ) == (e.fl & FZ), "zero flag");
    vf_ensure((fl & FC) == (e.fl & FC), "carry flag");
    vf_ensure((fl & FO) == (e.fl & FO), "overflow flag");
    s.fl = e.fl;
    s.check(cpu, "nothing else changes");
    vf_cover("alu done");
}

static void dispatch(int op, int form) {
    switch (op) {
    case oADD: binary<ADD>(op, form); break;
    case oSUB: binary<SUB>(op, form); break;
    case oMUL: binary<MUL>(op, form); break;
    case oDIV: binary<DIV>(op, form); break;
    case oMOD: binary<MOD>(op, form); break;
    case oIMUL: binary<IMUL>(op, form); break;
    case oIDIV: binary<IDIV>(op, form); break;
    case oAND: binary<AND>(op, form); break;
    case oOR: binary<OR>(op, form); break;
    case oXOR: binary<XOR>(op, form); break;
    case oLSH: binary<LSH>(op, form); break;
    case oRSH: binary<RSH>(op, form); break;
    }
}
// 12 operations x 12 operand forms
VF prove_binary(int k) { // CASES 144
    dispatch(k / NFORMS, k % NFORMS);
}
// INC, DEC, NEG, NOT
VF prove_unary(int k) { // CASES 4
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    Prog p;
    int64_t x = s.r[1]; Spec e;
    switch (k) {
    case 0: p.add<INC>(Register{1}); e = spec(oADD, x, 1); break;
    case 1: p.add<DEC>(Register{1}); e = spec(oSUB, x, 1); break;
    case 2: p.add<NEG>(Register{1}); e.v = 0 - (uint64_t)x; e.fl = sz(e.v); break;
    case 3: p.add<NOT>(Register{1}); e.v = ~x; e.fl = sz(e.v); break;
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    s.r[1] = e.v; s.fl = e.fl;
    vf_ensure(cpu.getRegister(Register{1}) == e.v, "unary result");
    vf_ensure(cpu.getRegister(Register::Flags()) == e.fl, "unary flags");
    s.check(cpu, "nothing else changes");
    vf_cover("unary done");
}
// CMP sets the flags of a subtraction and changes nothing else
VF prove_cmp(int k) { // CASES 7
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    int64_t imm = vf_i64("imm"), y = 0;
    Prog p;
    switch (k) {
    case 0: p.add<CMP>(Register{0}, Register{1}); y = s.r[1]; break;
    case 1: p.add<CMP>(Register{0}, imm); y = imm; break;
    case 2: p.add<CMP>(Register{0}, Memory::Immediate{1}); y = s.m[1]; break;
    case 3: s.r[1] = 1; p.add<CMP>(Register{0}, Memory::Register{Register{1}}); y = s.m[1]; break;
    case 4: s.r[1] = 1; p.add<CMP>(Register{0}, Memory::RegisterOffset{Register{1} + (-1)}); y = s.m[0]; break;
    case 5: p.add<CMP>(Register::StackPointer(), Register::StackBasePointer()); y = s.bp; break;
    case 6: p.add<CMP>(Register{0}, Register{0}); y = s.r[0]; break;
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    Spec e = spec(oSUB, k == 5 ? s.sp : s.r[0], y);
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    s.fl = e.fl;
    vf_ensure(cpu.getRegister(Register::Flags()) == e.fl, "CMP flags");
    s.check(cpu, "CMP changes only the flags");
}
// moves between registers and of immediates keep the value and change no flag
VF prove_mov(int k) { // CASES 10
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    int64_t imm = vf_i64("imm");
    auto sp = Register::StackPointer(), bp = Register::StackBasePointer();
    Prog p; M e = s;
    switch (k) {
    case 0: p.add<MOV>(Register{0}, Register{1}); e.r[0] = s.r[1]; break;
    case 1: p.add<MOV>(Register{2}, imm); e.r[2] = imm; break;
    case 2: p.add<MOV>(Register{1}, Register{2} + imm); e.r[1] = (uint64_t)s.r[2] + (uint64_t)imm; break;
    case 3: p.add<MOV>(sp, Register{1}); e.sp = s.r[1]; break;
    case 4: p.add<MOV>(bp, sp); e.bp = s.sp; break;
    case 5: p.add<MOV>(Register{0}, bp); e.r[0] = s.bp; break;
    case 6: p.add<MOV>(sp, imm); e.sp = imm; break;
    case 7: p.add<MOV>(Register{1}, Register{1}); break;
    case 8: p.add<MOV>(Register{1}, sp + imm); e.r[1] = (uint64_t)s.sp + (uint64_t)imm; break;
    case 9: p.add<MOV>(Register{0}, Register{1}).template add<MOV>(Register{1}, Register{0} + imm).template add<MOV>(Register{0}, imm); e.r[1] = (uint64_t)s.r[1] + (uint64_t)imm; e.r[0] = imm; break;
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    e.check(cpu, "a move copies its operand and changes nothing else");
    vf_cover("move");
}
