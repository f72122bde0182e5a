// VF-SRC: t86
// VF-COVER: push, push out of range, pop, pop out of range, call, call out of range, ret, ret out of range, call-ret, push-pop
// Stack and subroutine instructions through the whole pipeline, for all values and all stack pointers.
#include "vm.h"
typedef Mach<2, 2, 3> M;
static int64_t cell(const M& s, uint64_t a) { return a == 0 ? s.m[0] : a == 1 ? s.m[1] : s.m[2]; }
static void put(M& s, uint64_t a, int64_t v) { for (uint64_t i = 0; i < 3; ++i) if (i == a) s.m[i] = v; }

// PUSH R, PUSH i, FPUSH F, FPUSH f, PUSH SP, PUSH BP
VF prove_push(int k) { // CASES 6
    Cpu cpu(2, 2, 1, 2, 3, 1);
    M s; s.havoc();
    uint64_t imm = vf_u64("imm"); int64_t v = 0;
    Prog p;
    switch (k) {
    case 0: p.add<PUSH>(Register{1}); v = s.r[1]; break;
    case 1: p.add<PUSH>((int64_t)imm); v = imm; break;
    case 2: p.add<FPUSH>(FloatRegister{1}); v = s.f[1]; break;
    case 3: p.add<FPUSH>(bits2d(imm)); v = imm; break;
    case 4: p.add<PUSH>(Register::StackPointer()); v = s.sp; break;
    case 5: p.add<PUSH>(Register::StackBasePointer()); v = s.bp; break;
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    uint64_t a = (uint64_t)s.sp - 1;
    End end = run(cpu);
    if (a < 3) {
        vf_ensure(end == HALTED, "runs to HALT");
        put(s, a, v); s.sp = a;
        s.check(cpu, "PUSH stores below the stack pointer, decrements it and changes nothing else");
        vf_cover("push");
    } else {
        vf_ensure(end == ERROR, "PUSH outside the memory ends in a CPU error");
        s.same_mem(cpu, "memory unchanged by a failed PUSH");
        vf_cover("push out of range");
    }
}
// POP R, POP BP, FPOP F, POP SP (the popped value stays)
VF prove_pop(int k) { // CASES 4
    Cpu cpu(2, 2, 1, 2, 3, 1);
    M s; s.havoc();
    Prog p;
    switch (k) {
    case 0: p.add<POP>(Register{1}); break;
    case 1: p.add<POP>(Register::StackBasePointer()); break;
    case 2: p.add<FPOP>(FloatRegister{1}); break;
    case 3: p.add<POP>(Register::StackPointer()); break;
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    uint64_t a = s.sp;
    End end = run(cpu);
    if (a < 3) {
        vf_ensure(end == HALTED, "runs to HALT");
        int64_t v = cell(s, a);
        if (k == 0) s.r[1] = v; else if (k == 1) s.bp = v; else if (k == 2) s.f[1] = v;
        s.sp = k == 3 ? v : a + 1;
        s.check(cpu, "POP loads the top of the stack, increments the stack pointer and changes nothing else");
        vf_cover("pop");
    } else {
        vf_ensure(end == ERROR, "POP outside the memory ends in a CPU error");
        s.same_mem(cpu, "memory unchanged by a failed POP");
        vf_cover("pop out of range");
    }
}
// CALL alone, any target
VF prove_call(int k) { // CASES 3
    Cpu cpu(2, 2, 1, 2, 3, 1);
    M s; s.havoc();
    uint64_t dest = vf_u64("dest");
    Prog p;
    p.add<NOP>();
    if (k == 0) p.add<CALL>((uint64_t)dest); else if (k == 1) { s.r[1] = dest; p.add<CALL>(Register{1}); } else { s.bp = dest; p.add<CALL>(Register::StackBasePointer()); }
    p.add<MOV>(Register{0}, (int64_t)5).halt();
    cpu.start(p.make());
    s.load(cpu);
    cpu.setTrapFlag();
    vf_ensure(run(cpu) == STOPPED, "steps over NOP");
    uint64_t a = (uint64_t)s.sp - 1;
    End end = run(cpu);
    if (a < 3) {
        vf_ensure(end == STOPPED, "steps");
        put(s, a, 2); s.sp = a;
        vf_ensure((uint64_t)cpu.getRegister(Register::ProgramCounter()) == dest, "CALL jumps to its target");
        s.check(cpu, "CALL pushes the address of the next instruction and changes nothing else");
        vf_cover("call");
    } else {
        vf_ensure(end == ERROR, "CALL outside the memory ends in a CPU error");
        s.same_mem(cpu, "memory unchanged by a failed CALL");
        vf_cover("call out of range");
    }
}
VF prove_ret(int) {
    Cpu cpu(2, 2, 1, 2, 3, 1);
    M s; s.havoc();
    Prog p;
    p.add<RET>().template add<MOV>(Register{0}, (int64_t)5).halt();
    cpu.start(p.make());
    s.load(cpu);
    cpu.setTrapFlag();
    uint64_t a = s.sp;
    End end = run(cpu);
    if (a < 3) {
        vf_ensure(end == STOPPED, "steps");
        vf_ensure(cpu.getRegister(Register::ProgramCounter()) == cell(s, a), "RET jumps to the address on top of the stack");
        s.sp = a + 1;
        s.check(cpu, "RET pops the stack and changes nothing else");
        vf_cover("ret");
    } else {
        vf_ensure(end == ERROR, "RET outside the memory ends in a CPU error");
        s.same_mem(cpu, "memory unchanged by a failed RET");
        vf_cover("ret out of range");
    }
}
// CALL then RET: the callee runs, then the instruction after the CALL, with the stack pointer restored
VF prove_call_ret(int k) { // CASES 2
    Cpu cpu(2, 2, 1, 2, 3, 1);
    M s; s.havoc();
    vf_assume((uint64_t)s.sp - 1 < 3);
    int64_t imm = vf_i64("imm");
    Prog p;
    if (k == 0) p.add<CALL>((uint64_t)3); else { s.r[1] = 3; p.add<CALL>(Register{1}); }
    p.add<MOV>(Register{1}, Register{0});   // 1
    p.halt();                               // 2
    p.add<MOV>(Register{0}, imm);           // 3
    p.add<RET>();                           // 4
    p.add<MOV>(Register{0}, (int64_t)9);    // 5 never executed
    p.halt();
    cpu.start(p.make());
    s.load(cpu);
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    s.r[0] = imm; s.r[1] = imm; put(s, (uint64_t)s.sp - 1, 1);
    s.check(cpu, "CALL and RET run the callee once and come back with the stack pointer restored");
    vf_cover("call-ret");
}
// what is pushed is popped, in reverse order
VF prove_push_pop(int k) { // CASES 4
    Cpu cpu(2, 2, 1, 2, 3, 1);
    M s; s.havoc();
    Prog p;
    if (k == 0) { s.sp = 3; p.add<PUSH>(Register{0}).template add<PUSH>(Register{1}).template add<POP>(Register{0}).template add<POP>(Register{1}); }
    else if (k == 1) { vf_assume((uint64_t)s.sp - 1 < 3); p.add<PUSH>(Register{0}).template add<POP>(Register{1}); }
    else if (k == 3) { vf_assume((uint64_t)s.sp - 1 < 3); p.add<PUSH>(Register::StackPointer()).template add<POP>(Register::StackPointer()); }
    else { vf_assume((uint64_t)s.sp - 1 < 3); p.add<FPUSH>(FloatRegister{0}).template add<FPOP>(FloatRegister{1}); }
    cpu.start(p.halt().make());
    s.load(cpu);
    vf_ensure(run(cpu) == HALTED, "runs to HALT");
    if (k == 0) { s.m[2] = s.r[0]; s.m[1] = s.r[1]; int64_t t = s.r[0]; s.r[0] = s.r[1]; s.r[1] = t; }
    else if (k == 1) { put(s, (uint64_t)s.sp - 1, s.r[0]); s.r[1] = s.r[0]; }
    else if (k == 3) put(s, (uint64_t)s.sp - 1, s.sp);
    else { put(s, (uint64_t)s.sp - 1, s.f[0]); s.f[1] = s.f[0]; }
    s.check(cpu, "what was pushed is popped in reverse order");
    vf_cover("push-pop");
}
