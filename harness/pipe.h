#pragma once
// A reference (one instruction at a time) semantics for a set of instruction templates, to compare the
// out-of-order pipeline with.  Immediates are arbitrary.
#include "vm.h"
typedef Mach<3, 1, 3> M;
struct Imm { int64_t a, b; };
inline Imm anyimm() { Imm i; i.a = vf_i64("imm"); i.b = vf_i64("imm2"); return i; }
#define r0 Register{0}
#define r1 Register{1}
#define r2 Register{2}
#define f0 FloatRegister{0}
#define rSP Register::StackPointer()
#define rBP Register::StackBasePointer()

enum T { tMOVi, tMOVr, tMOVr2, tADD, tSUB, tLDr, tLD0, tSTr, tST0, tST0i, tSTbase, tPUSH, tPOP, tCMP, tINC, tADDm, tMOVF, tMOVRF, tLEA, tCLF, tLDbp, tDIV, NT };

inline void emit(Prog& p, int t, Imm i) {
    switch (t) {
    case tMOVi: p.add<MOV>(r0, i.a); break;
    case tMOVr: p.add<MOV>(r1, r0); break;
    case tMOVr2: p.add<MOV>(r0, r2); break;
    case tADD: p.add<ADD>(r0, r1); break;
    case tSUB: p.add<SUB>(r1, r0, r2); break;
    case tLDr: p.add<MOV>(r0, Memory::Register(r1)); break;
    case tLD0: p.add<MOV>(r2, Memory::Immediate(0)); break;
    case tSTr: p.add<MOV>(Memory::Register(r1), r0); break;
    case tST0: p.add<MOV>(Memory::Immediate(0), r2); break;
    case tST0i: p.add<MOV>(Memory::Immediate(0), i.a); break;
    case tSTbase: p.add<MOV>(Memory::Register(r2), i.a); break;
    case tPUSH: p.add<PUSH>(r0); break;
    case tPOP: p.add<POP>(r1); break;
    case tCMP: p.add<CMP>(r0, r2); break;
    case tINC: p.add<INC>(r1); break;
    case tADDm: p.add<ADD>(r2, Memory::Register(r1)); break;
    case tMOVF: p.add<MOV>(f0, r0); break;
    case tMOVRF: p.add<MOV>(r1, f0); break;
    case tLEA: p.add<LEA>(r1, Memory::RegisterRegister(r0 + r2)); break;
    case tCLF: p.add<CLF>(); break;
    case tLDbp: p.add<MOV>(r1, Memory::Register(rBP)); break;
    case tDIV: p.add<DIV>(r0, r1); break;
    }
}
inline int sz(int64_t v) { return (v < 0 ? FS : 0) | (v == 0 ? FZ : 0); }
inline int addfl(int64_t x, int64_t y) { int64_t v = (uint64_t)x + (uint64_t)y; return sz(v) | ((uint64_t)v < (uint64_t)x ? FC : 0) | ((i128)x + y != (i128)v ? FO : 0); }
inline int subfl(int64_t x, int64_t y) { int64_t v = (uint64_t)x - (uint64_t)y; return sz(v) | ((uint64_t)x < (uint64_t)y ? FC : 0) | ((i128)x - y != (i128)v ? FO : 0); }
inline bool ld(const M& s, uint64_t a, int64_t& v) { if (a >= 3) return false; v = a == 0 ? s.m[0] : a == 1 ? s.m[1] : s.m[2]; return true; }
inline bool st(M& s, uint64_t a, int64_t v) { if (a >= 3) return false; for (uint64_t i = 0; i < 3; ++i) if (i == a) s.m[i] = v; return true; }
inline int64_t add(int64_t x, int64_t y) { return (uint64_t)x + (uint64_t)y; }
inline int64_t sub(int64_t x, int64_t y) { return (uint64_t)x - (uint64_t)y; }

// false: the instruction fails (and has no effect)
inline bool sem(M& s, int t, Imm i) {
    int64_t v = 0;
    switch (t) {
    case tMOVi: s.r[0] = i.a; break;
    case tMOVr: s.r[1] = s.r[0]; break;
    case tMOVr2: s.r[0] = s.r[2]; break;
    case tADD: s.fl = addfl(s.r[0], s.r[1]); s.r[0] = add(s.r[0], s.r[1]); break;
    case tSUB: s.fl = subfl(s.r[0], s.r[2]); s.r[1] = sub(s.r[0], s.r[2]); break;
    case tLDr: if (!ld(s, s.r[1], v)) return false; s.r[0] = v; break;
    case tLD0: s.r[2] = s.m[0]; break;
    case tSTr: return st(s, s.r[1], s.r[0]);
    case tST0: s.m[0] = s.r[2]; break;
    case tST0i: s.m[0] = i.a; break;
    case tSTbase: return st(s, s.r[2], i.a);
    case tPUSH: if (!st(s, sub(s.sp, 1), s.r[0])) return false; s.sp = sub(s.sp, 1); break;
    case tPOP: if (!ld(s, s.sp, v)) return false; s.r[1] = v; s.sp = add(s.sp, 1); break;
    case tCMP: s.fl = subfl(s.r[0], s.r[2]); break;
    case tINC: s.fl = addfl(s.r[1], 1); s.r[1] = add(s.r[1], 1); break;
    case tADDm: if (!ld(s, s.r[1], v)) return false; s.fl = addfl(s.r[2], v); s.r[2] = add(s.r[2], v); break;
    case tMOVF: s.f[0] = s.r[0]; break;
    case tMOVRF: s.r[1] = s.f[0]; break;
    case tLEA: s.r[1] = add(s.r[0], s.r[2]); break;
    case tCLF: s.fl = 0; break;
    case tLDbp: if (!ld(s, s.bp, v)) return false; s.r[1] = v; break;
    case tDIV: if (s.r[1] == 0) return false; s.r[0] = (uint64_t)s.r[0] / (uint64_t)s.r[1]; s.fl = sz(s.r[0]); break;
    }
    return true;
}
// run templates t[0..n) on the machine (alus, entries, gates) and compare with the reference semantics
inline void compare(const int* t, int n, int alus, int entries, int gates, M& s) {
    Cpu cpu(3, 1, alus, entries, 3, gates);
    Prog p; Imm im[24];
    for (int i = 0; i < n; ++i) { im[i] = anyimm(); emit(p, t[i], im[i]); }
    cpu.start(p.halt().make());
    s.load(cpu);
    bool ok = true;
    for (int i = 0; i < n && ok; ++i) ok = sem(s, t[i], im[i]);
    End end = run(cpu, 300);
    if (ok) {
        vf_ensure(end == HALTED, "the program halts");
        s.check(cpu, "final state is the one of sequential execution");
        vf_cover("halted");
    } else {
        vf_ensure(end == ERROR, "a failing instruction ends in a CPU error");
        s.same_mem(cpu, "memory at an error is what the instructions before it left");
        vf_cover("failed");
    }
}
