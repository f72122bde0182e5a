// VF-SRC: t86
// VF-COVER: halted, long
// Loads and stores take effect in program order: all sequences of three memory instructions, any (aliasing)
// addresses inside the memory, any values, machine with enough entries to have all of them in flight.
#include "pipe.h"
static const int mem[] = { tLDr, tLD0, tSTr, tST0, tST0i, tSTbase, tPUSH, tPOP };
static M inrange() {
    M s; s.havoc();
    vf_assume((uint64_t)s.r[1] < 3); vf_assume((uint64_t)s.r[2] < 3); s.sp = 2;
    return s;
}
VF bounded_three(int k) { // CASES 512
    int t[3] = { mem[k / 64], mem[k / 8 % 8], mem[k % 8] };
    M s = inrange();
    compare(t, 3, 1, 4, 2, s);
}
// long mixes of loads and stores of any values at overlapping addresses, several machine configurations
static const int cfg[][3] = { {1, 2, 4}, {1, 4, 1}, {1, 1, 1}, {2, 6, 2}, {4, 4, 4}, {1, 3, 3} };
VF bounded_long(int k) { // CASES 96 480
    typedef Mach<3, 1, 4> L;
    const int* c = cfg[k % 6];
    Cpu cpu(3, 1, c[0], c[1], 4, c[2]);
    L s; s.havoc(); s.bp = k / 6 % 4; s.sp = 4;
    L e = s; Prog p;
    uint32_t x = 99 + 7919 * k;
    for (int i = 0; i < 24; ++i) {
        x = x * 1664525u + 1013904223u;
        int op = (x >> 24) % 8, a = (x >> 20) % 4, r = (x >> 16) % 3;
        if (op == 5 && e.sp == 0) op = 6;
        if (op == 6 && e.sp == 4) op = 5;
        switch (op) {
        case 0: case 1: p.add<MOV>(Memory::Immediate(a), Register{(size_t)r}); e.m[a] = e.r[r]; break;
        case 2: p.add<MOV>(Register{(size_t)r}, Memory::Immediate(a)); e.r[r] = e.m[a]; break;
        case 3: p.add<MOV>(Memory::Register(rBP), Register{(size_t)r}); e.m[e.bp] = e.r[r]; break;
        case 4: p.add<MOV>(Register{(size_t)r}, Memory::RegisterOffset(rBP + (a - e.bp))); e.r[r] = e.m[a]; break;
        case 5: p.add<PUSH>(Register{(size_t)r}); e.m[--e.sp] = e.r[r]; break;
        case 6: p.add<POP>(Register{(size_t)r}); e.r[r] = e.m[e.sp++]; break;
        case 7: { int64_t v = vf_i64("imm"); p.add<MOV>(Memory::Immediate(a), v); e.m[a] = v; break; }
        }
    }
    cpu.start(p.halt().make());
    s.load(cpu);
    vf_ensure(run(cpu, 600) == HALTED, "the program halts");
    e.check(cpu, "final state is the one of sequential execution");
    vf_cover("long");
}
