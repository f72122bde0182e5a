// VF-SRC: t86
// VF-COVER: io, failed before io, wrong path, program halted, program failed
// Character and number output and character input happen exactly once, in program order, with the register's
// value, and only for instructions on the executed path.
#include "vm.h"
#include "progs.h"
#include <iostream>
typedef Mach<3, 1, 2> M;
#define R(i) Register{(size_t)(i)}
static const int cfg[][3] = { {1, 2, 4}, {2, 6, 4}, {1, 1, 1}, {4, 4, 2} };
static uint8_t inchar() { uint8_t c = vf_u8("in"); vf_assume(c > 32 && c < 127); vf_in_push(c); return c; }
VF prove_putnum(int k) { // CASES 4
    Cpu cpu(3, 1, cfg[k][0], cfg[k][1], 2, cfg[k][2]);
    M s; s.havoc();
    Prog p; p.add<PUTNUM>(R(1), *vf_ostream(0)); cpu.start(p.halt().make());
    s.load(cpu);
    vf_ensure(run(cpu) == HALTED, "the program halts");
    s.check(cpu, "output changes no state");
    vf_ensure(vf_out_count(0) == 1 && vf_out_count(1) == 0, "one number is written");
    vf_ensure(vf_out_value(0, 0) == s.r[1], "the number is the value of the register");
}
VF prove_putchar(int k) { // CASES 4
    Cpu cpu(3, 1, cfg[k][0], cfg[k][1], 2, cfg[k][2]);
    M s; s.havoc();
    Prog p; p.add<PUTCHAR>(R(1), *vf_ostream(1)); cpu.start(p.halt().make());
    s.load(cpu);
    vf_ensure(run(cpu) == HALTED, "the program halts");
    s.check(cpu, "output changes no state");
    vf_ensure(vf_out_count(1) == 1 && vf_out_count(0) == 0, "one character is written");
    vf_ensure((uint8_t)vf_out_value(1, 0) == (uint8_t)s.r[1], "the character is the low byte of the register");
}
VF prove_getchar(int k) { // CASES 4
    Cpu cpu(3, 1, cfg[k][0], cfg[k][1], 2, cfg[k][2]);
    M s; s.havoc();
    uint8_t c = inchar(), d = inchar();
    Prog p; p.add<GETCHAR>(R(0), *vf_istream()); p.add<MOV>(R(2), R(0)); p.add<GETCHAR>(R(1), *vf_istream()); cpu.start(p.halt().make());
    s.load(cpu);
    s.r[0] = s.r[2] = c; s.r[1] = d;
    vf_ensure(run(cpu) == HALTED, "the program halts");
    s.check(cpu, "each GETCHAR reads the next character into its register");
}
// sequences of output, input, register and memory instructions
VF bounded_sequence(int k) { // CASES 64
    const int* c = cfg[k % 4];
    Cpu cpu(3, 1, c[0], c[1], 2, c[2]);
    M s; s.havoc();
    int64_t num[16]; uint8_t ch[16]; int nn = 0, nc = 0;
    Prog p; M e = s;
    uint32_t x = 4711 + 31337 * k;
    for (int i = 0; i < 10; ++i) {
        x = x * 1664525u + 1013904223u;
        int r = (x >> 24) % 3, q = (x >> 16) % 3;
        switch ((x >> 20) % 7) {
        case 0: case 1: p.add<PUTNUM>(R(r), *vf_ostream(0)); num[nn++] = e.r[r]; break;
        case 2: p.add<PUTCHAR>(R(r), *vf_ostream(1)); ch[nc++] = e.r[r]; break;
        case 3: p.add<GETCHAR>(R(r), *vf_istream()); e.r[r] = inchar(); break;
        case 4: p.add<MOV>(R(r), R(q)); e.r[r] = e.r[q]; break;
        case 5: p.add<MOV>(R(r), Memory::Immediate(q & 1)); e.r[r] = e.m[q & 1]; break;
        case 6: p.add<MOV>(Memory::Immediate(q & 1), R(r)); e.m[q & 1] = e.r[r]; break;
        }
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    vf_ensure(run(cpu, 400) == HALTED, "the program halts");
    e.check(cpu, "the final state is the one of sequential execution");
    vf_ensure(vf_out_count(0) == nn && vf_out_count(1) == nc, "every output instruction writes exactly once");
    for (int i = 0; i < nn; ++i) vf_ensure(vf_out_value(0, i) == num[i], "numbers are written in program order");
    for (int i = 0; i < nc; ++i) vf_ensure((uint8_t)vf_out_value(1, i) == ch[i], "characters are written in program order");
    vf_cover("io");
}
// output behind a failing instruction, or on a path not taken, does not happen
VF bounded_not_executed(int k) { // CASES 16
    const int* c = cfg[k % 4]; int how = k / 4;
    Cpu cpu(3, 1, c[0], c[1], 2, c[2]);
    M s; s.havoc();
    uint8_t in = inchar();
    Prog p; bool fails = false;
    switch (how) {
    case 0: s.r[1] = 0; p.add<DIV>(R(0), R(1)); fails = true; break;
    case 1: vf_assume((uint64_t)s.r[1] >= 2); p.add<MOV>(R(0), Memory::Register(R(1))); fails = true; break;
    case 2: s.m[0] = 6; p.add<MOV>(R(0), Memory::Immediate(0)); break;
    case 3: s.r[0] = 6; p.add<NOP>(); break;
    }
    if (fails) p.add<NOP>(); else p.add<JMP>(R(0));
    p.add<PUTNUM>(R(0), *vf_ostream(0)); p.add<PUTCHAR>(R(0), *vf_ostream(1)); p.add<GETCHAR>(R(2), *vf_istream()); p.halt();
    p.add<GETCHAR>(R(1), *vf_istream()); p.halt();
    cpu.start(p.make()); s.load(cpu);
    End end = run(cpu, 300);
    vf_ensure(vf_out_count(0) == 0 && vf_out_count(1) == 0, "instructions that are not executed write nothing");
    if (fails) { vf_ensure(end == ERROR, "the failing instruction is reported"); vf_cover("failed before io"); }
    else {
        vf_ensure(end == HALTED, "the program halts");
        vf_ensure(cpu.getRegister(R(1)) == in && cpu.getRegister(R(2)) == s.r[2], "instructions that are not executed read nothing");
        vf_cover("wrong path");
    }
}
// input and output in loops, branches and functions
VF bounded_programs(int k) { // CASES 48 480
    progs::Gen g(7000 + k, k % 4 == 0, k % 2, true, 1, 5 + k % 5, k % 6 == 5);
    progs::compare(g, k % 8);
}
