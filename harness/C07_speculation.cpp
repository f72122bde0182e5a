// VF-SRC: t86
// VF-COVER: jumped, fell through, conditional taken, conditional not taken, program halted, program failed
// Instructions that are fetched (and executed) behind a control transfer that goes elsewhere leave no trace:
// no register, flag or memory effect, no error, no stop, no output.
#include "vm.h"
#include "progs.h"
typedef Mach<3, 1, 3> M;
#define R(i) Register{(size_t)(i)}
enum { wSTORE, wLOAD, wDIV0, wPUSH, wPOP, wHALT, wBKPT, wJMP, wCALL, wRET, wMOV, wADD, wMOVF, wIDIV, wMOD, wSTOREi, wLEAchain, wLOOP, wMOVSP, wJMPR, wADDm, NW };
static void wrong(Prog& p, int w, int64_t i) {
    switch (w) {
    case wSTORE: p.add<MOV>(Memory::Register(R(1)), R(0)); break;
    case wLOAD: p.add<MOV>(R(0), Memory::Register(R(1))); break;
    case wDIV0: p.add<DIV>(R(0), 0l); break;
    case wPUSH: p.add<PUSH>(R(0)); break;
    case wPOP: p.add<POP>(R(1)); break;
    case wHALT: p.add<HALT>(); break;
    case wBKPT: p.add<BKPT>(); break;
    case wJMP: p.add<JMP>((uint64_t)i); break;
    case wCALL: p.add<CALL>((uint64_t)i); break;
    case wRET: p.add<RET>(); break;
    case wMOV: p.add<MOV>(R(0), i); break;
    case wADD: p.add<ADD>(R(0), R(1)); break;
    case wMOVF: p.add<MOV>(FloatRegister{0}, R(1)); break;
    case wIDIV: p.add<IDIV>(R(0), R(1)); break;
    case wMOD: p.add<MOD>(R(0), R(1)); break;
    case wSTOREi: p.add<MOV>(Memory::Immediate(0), i); break;
    case wLEAchain: p.add<LEA>(R(0), Memory::RegisterOffset(R(0) + 1)); break;
    case wLOOP: p.add<LOOP>(R(0), (uint64_t)i); break;
    case wMOVSP: p.add<MOV>(Register::StackPointer(), R(1)); break;
    case wJMPR: p.add<JMP>(R(1)); break;
    case wADDm: p.add<ADD>(R(0), Memory::Register(R(1))); break;
    }
}
static const int cfg[][3] = { {2, 6, 4}, {1, 2, 4}, {1, 4, 1} };
// unconditional transfers whose destination is only known late: JMP register, JMP memory-loaded register, CALL register, RET
VF bounded_unconditional(int k) { // CASES 252
    int w = k % NW, how = k / NW % 4, c = k / NW / 4;
    Cpu cpu(3, 1, cfg[c][0], cfg[c][1], 3, cfg[c][2]);
    M s; s.havoc();
    int64_t i = vf_i64("imm");
    Prog p;                       // 0: (load) 1: transfer to 5  2,3: wrong path  4: HALT (wrong) 5: right path: HALT
    s.sp = 2;
    s.m[2] = 5; s.r[2] = 5;
    M e = s;
    switch (how) {
    case 0: p.add<NOP>(); p.add<JMP>(R(2)); break;
    case 1: p.add<MOV>(R(2), Memory::Immediate(2)); p.add<JMP>(R(2)); break;
    case 2: p.add<MOV>(R(2), Memory::Immediate(2)); p.add<CALL>(R(2)); e.sp = 1; e.m[1] = 2; break;
    case 3: p.add<NOP>(); p.add<RET>(); e.sp = 3; break;
    }
    wrong(p, w, i); wrong(p, w == wADD ? wSTOREi : wADD, i); p.halt(); p.halt();
    cpu.start(p.make());
    s.load(cpu);
    vf_ensure(run(cpu, 200) == HALTED, "the program halts without an error or a stop");
    vf_ensure(cpu.getRegister(Register::ProgramCounter()) == 6, "the program stops behind the HALT of the right path");
    e.check(cpu, "the wrong path leaves no trace");
    vf_cover("jumped");
}
// conditional jumps in both directions, condition depends on a load
VF bounded_conditional(int k) { // CASES 126
    int w = k % NW, form = k / NW % 2, c = k / NW / 2;
    Cpu cpu(3, 1, cfg[c][0], cfg[c][1], 3, cfg[c][2]);
    M s; s.havoc();
    int64_t i = vf_i64("imm");
    bool taken = vf_choose("taken", 2);
    s.sp = 2; s.m[2] = taken ? 0 : 7;
    // 0: MOV R2,[2] 1: CMP R2,0 2: JZ 6  3..5 not-taken side  6.. taken side
    Prog p;
    p.add<MOV>(R(2), Memory::Immediate(2)); p.add<CMP>(R(2), 0l);
    M e = s; e.r[2] = e.m[2]; e.fl = taken ? FZ : 0;
    if (form == 0) p.add<JZ>((uint64_t)6); else { p.add<JZ>(Memory::Immediate(1)); s.m[1] = e.m[1] = 6; }
    if (taken) { wrong(p, w, i); wrong(p, w == wADD ? wSTOREi : wADD, i); p.halt(); p.halt(); }
    else { p.halt(); p.add<NOP>(); p.add<NOP>(); wrong(p, w, i); wrong(p, w == wADD ? wSTOREi : wADD, i); p.halt(); }
    cpu.start(p.make());
    s.load(cpu);
    vf_ensure(run(cpu, 200) == HALTED, "the program halts without an error or a stop");
    vf_ensure(cpu.getRegister(Register::ProgramCounter()) == (taken ? 7 : 4), "the program stops behind the HALT of the right path");
    e.check(cpu, "the wrong path leaves no trace");
    vf_cover(taken ? "conditional taken" : "conditional not taken");
}
// the right path uses what the wrong path touched
VF bounded_after(int k) { // CASES 63
    int w = k % NW, c = k / NW;
    Cpu cpu(3, 1, cfg[c][0], cfg[c][1], 3, cfg[c][2]);
    M s; s.havoc(); s.sp = 2; s.m[2] = 5;
    vf_assume((uint64_t)s.r[1] < 3);
    int64_t i = vf_i64("imm");
    Prog p;
    p.add<MOV>(R(2), Memory::Immediate(2)); p.add<JMP>(R(2));
    wrong(p, w, i); wrong(p, w == wADD ? wSTOREi : wADD, i); p.halt();
    // 5: right path
    p.add<LEA>(R(0), Memory::RegisterOffset(R(0) + 1));
    p.add<MOV>(R(2), Memory::Immediate(0));
    p.add<MOV>(Memory::Immediate(0), R(0));
    p.add<MOV>(R(0), Memory::Register(R(1)));
    p.add<PUSH>(R(2)); p.halt();
    cpu.start(p.make());
    M e = s; e.r[0] = (uint64_t)e.r[0] + 1; e.r[2] = e.m[0]; e.m[0] = e.r[0];
    e.r[0] = e.r[1] == 0 ? e.m[0] : e.r[1] == 1 ? e.m[1] : e.m[2]; e.m[1] = e.r[2]; e.sp = 1;
    s.load(cpu);
    vf_ensure(run(cpu, 300) == HALTED, "the program halts without an error or a stop");
    e.check(cpu, "the right path sees nothing of the wrong path");
    vf_cover("fell through");
}
// nothing behind a HALT has an effect
VF bounded_behind_halt(int k) { // CASES 63
    int w = k % NW, c = k / NW;
    Cpu cpu(3, 1, cfg[c][0], cfg[c][1], 3, cfg[c][2]);
    M s; s.havoc();
    int64_t i = vf_i64("imm");
    Prog p;
    p.add<MOV>(R(2), Memory::Immediate(2)); p.halt();
    wrong(p, w, i); wrong(p, wADD, i); p.halt();
    cpu.start(p.make());
    s.load(cpu);
    M e = s; e.r[2] = e.m[2];
    vf_ensure(run(cpu, 300) == HALTED, "the program halts without an error or a stop");
    e.check(cpu, "nothing behind the HALT has an effect");
}
// whole programs where everything that is not executed (behind jumps, returns and halts) would fail, stop, write or jump
VF bounded_programs(int k) { // CASES 96 960
    progs::Gen g(5000 + k, k % 4 == 0, true, true, 1, 5 + k % 6, k % 7 == 6);
    progs::compare(g, k % 8);
}
