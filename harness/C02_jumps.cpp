// VF-SRC: t86
// VF-COVER: taken, not taken, loop taken, loop ends, step taken, step not taken, chain
// Control transfer, run through the whole pipeline, for all flag values and targets.
#include "vm.h"
typedef Mach<3, 1, 2> M;

static bool cond(int c, int64_t fl) {
    bool s = fl & FS, z = fl & FZ, cy = fl & FC, o = fl & FO;
    switch (c) {
    case 0: case 2: return z;            // JZ JE
    case 1: case 3: return !z;           // JNZ JNE
    case 4: return !z && s == o;         // JG
    case 5: return s == o;               // JGE
    case 6: return s != o;               // JL
    case 7: return z || s != o;          // JLE
    case 8: return !cy && !z;            // JA
    case 9: return !cy;                  // JAE
    case 10: return cy;                  // JB
    case 11: return cy || z;             // JBE
    case 12: return o;                   // JO
    case 13: return !o;                  // JNO
    case 14: return s;                   // JS
    case 15: return !s;                  // JNS
    default: return true;                // JMP
    }
}
enum { jI, jR, jM, jMR, jMRO };
template <class J> static void put(Prog& p, int form, uint64_t dest, M& s) {
    switch (form) {
    case jI: p.add<J>((uint64_t)dest); break;
    case jR: s.r[1] = dest; p.add<J>(Register{1}); break;
    case jM: s.m[1] = dest; p.add<J>(Memory::Immediate{1}); break;
    case jMR: s.m[1] = dest; s.r[1] = 1; p.add<J>(Memory::Register{Register{1}}); break;
    case jMRO: s.m[0] = dest; s.r[1] = 7; p.add<J>(Memory::RegisterOffset{Register{1} + (-7)}); break;
    }
}
static void putcond(Prog& p, int c, int form, uint64_t dest, M& s) {
    switch (c) {
    case 0: put<JZ>(p, form, dest, s); break;
    case 1: put<JNZ>(p, form, dest, s); break;
    case 2: put<JE>(p, form, dest, s); break;
    case 3: put<JNE>(p, form, dest, s); break;
    case 4: put<JG>(p, form, dest, s); break;
    case 5: put<JGE>(p, form, dest, s); break;
    case 6: put<JL>(p, form, dest, s); break;
    case 7: put<JLE>(p, form, dest, s); break;
    case 8: put<JA>(p, form, dest, s); break;
    case 9: put<JAE>(p, form, dest, s); break;
    case 10: put<JB>(p, form, dest, s); break;
    case 11: put<JBE>(p, form, dest, s); break;
    case 12: put<JO>(p, form, dest, s); break;
    case 13: put<JNO>(p, form, dest, s); break;
    case 14: put<JS>(p, form, dest, s); break;
    case 15: put<JNS>(p, form, dest, s); break;
    case 16: if (form == jI) p.add<JMP>((uint64_t)dest); else { s.r[1] = dest; p.add<JMP>(Register{1}); } break;
    }
}
// the jump and what is executed after it: exactly the path the condition selects
VF prove_jump(int k) { // CASES 82
    int c = k < 80 ? k / 5 : 16, form = k < 80 ? k % 5 : k - 80;
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    Prog p;
    uint64_t dest = vf_choose("dest", 2) ? 4 : 1;
    putcond(p, c, form, dest, s);                         // 0
    p.add<MOV>(Register{0}, (int64_t)11);                 // 1
    p.add<MOV>(Memory::Immediate{1}, (int64_t)12);        // 2
    p.halt();                                             // 3
    p.add<MOV>(Register{2}, (int64_t)21);                 // 4
    p.add<MOV>(Memory::Immediate{0}, (int64_t)22);        // 5
    p.halt();                                             // 6
    cpu.start(p.make());
    s.load(cpu);
    bool t = cond(c, s.fl) && dest == 4;
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    if (t) { s.r[2] = 21; s.m[0] = 22; vf_cover("taken"); }
    else { s.r[0] = 11; s.m[1] = 12; vf_cover("not taken"); }
    s.check(cpu, "exactly the selected path is executed");
    vf_ensure(cpu.getRegister(Register::ProgramCounter()) == (t ? 7 : 4), "program counter after HALT");
}
// the program counter after the jump alone, any 64-bit target
VF prove_jump_target(int k) { // CASES 82
    int c = k < 80 ? k / 5 : 16, form = k < 80 ? k % 5 : k - 80;
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    Prog p;
    uint64_t dest = vf_u64("dest");
    putcond(p, c, form, dest, s);
    p.add<MOV>(Register{0}, (int64_t)11).halt();
    cpu.start(p.make());
    s.load(cpu);
    cpu.setTrapFlag();
    vf_ensure(run(cpu) == STOPPED, "steps");
    bool t = cond(c, s.fl);
    vf_ensure((uint64_t)cpu.getRegister(Register::ProgramCounter()) == (t ? dest : 1), "program counter after the jump");
    s.check(cpu, "a jump changes nothing but the program counter");
    if (t) vf_cover("step taken"); else vf_cover("step not taken");
}
// CMP followed by a conditional jump is the comparison of the two values
VF prove_compare_and_jump(int c) { // CASES 16
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    Prog p;
    p.add<CMP>(Register{0}, Register{1});
    putcond(p, c, jI, 4, s);
    p.add<MOV>(Register{2}, (int64_t)1).halt();
    p.add<MOV>(Register{2}, (int64_t)2).halt();
    cpu.start(p.make());
    s.load(cpu);
    int64_t x = s.r[0], y = s.r[1]; uint64_t ux = x, uy = y;
    int64_t d = ux - uy; bool ov = (i128)x - y != (i128)d;
    bool e = false;
    switch (c) {
    case 0: case 2: e = x == y; break;
    case 1: case 3: e = x != y; break;
    case 4: e = x > y; break;
    case 5: e = x >= y; break;
    case 6: e = x < y; break;
    case 7: e = x <= y; break;
    case 8: e = ux > uy; break;
    case 9: e = ux >= uy; break;
    case 10: e = ux < uy; break;
    case 11: e = ux <= uy; break;
    case 12: e = ov; break;
    case 13: e = !ov; break;
    case 14: e = d < 0; break;
    case 15: e = d >= 0; break;
    }
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    vf_ensure(cpu.getRegister(Register{2}) == (e ? 2 : 1), "compare and jump decides the relation it names");
}
// LOOP: decrement, jump while the result is not zero
VF prove_loop(int k) { // CASES 2
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    Prog p;
    uint64_t dest = vf_u64("dest");
    if (k == 0) p.add<LOOP>(Register{0}, (uint64_t)dest); else { s.r[1] = dest; p.add<LOOP>(Register{0}, Register{1}); }
    p.add<MOV>(Register{2}, (int64_t)11).halt();
    cpu.start(p.make());
    s.load(cpu);
    cpu.setTrapFlag();
    vf_ensure(run(cpu) == STOPPED, "steps");
    int64_t x = s.r[0], v = (uint64_t)x - 1;
    s.r[0] = v;
    s.fl = (v < 0 ? FS : 0) | (v == 0 ? FZ : 0) | (x == 0 ? FC : 0) | (x == IMIN ? FO : 0);
    vf_ensure((uint64_t)cpu.getRegister(Register::ProgramCounter()) == (v != 0 ? dest : 1), "LOOP target");
    s.check(cpu, "LOOP changes only its counter and the flags");
    if (v != 0) vf_cover("loop taken"); else vf_cover("loop ends");
}
// a loop executes its body as often as the counter says (bounded: counter 1..3)
VF bounded_loop_body(int k) { // CASES 3
    Cpu cpu(3, 1, 1, 2, 2, 1);
    M s; s.havoc();
    s.r[0] = k + 1;
    Prog p;
    p.add<ADD>(Register{2}, Register{1}).add<LOOP>(Register{0}, (uint64_t)0).halt();
    cpu.start(p.make());
    s.load(cpu);
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    uint64_t e = s.r[2];
    for (int i = 0; i <= k; ++i) e += s.r[1];
    vf_ensure((uint64_t)cpu.getRegister(Register{2}) == e, "loop body count");
    vf_ensure(cpu.getRegister(Register{0}) == 0, "loop counter");
    vf_cover("chain");
}
