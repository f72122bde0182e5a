// VF-SRC: t86
// VF-COVER: halted, failed, program halted, program failed
// Executing out of order, with renamed registers, on any of the machine configurations, gives the state of
// one-by-one execution.
#include "pipe.h"
#include "progs.h"
// every pair of the 22 templates, any state (failing instructions included)
VF bounded_pair(int k) { // CASES 484
    int t[2] = { k / NT, k % NT };
    M s; s.havoc();
    compare(t, 2, 2, 4, 4, s);
}
static const int cfg[][3] = { {1, 1, 1}, {1, 2, 4}, {1, 2, 1}, {4, 4, 4}, {2, 3, 2}, {3, 7, 1} };
static const int hz[] = { tLEA, tINC, tMOVr, tPUSH, tPOP, tLDr };
// triples of dependent instructions on six configurations
VF bounded_triple(int k) { // CASES 216
    int t[3] = { hz[k / 36], hz[k / 6 % 6], hz[k % 6] };
    M s; s.havoc(); s.sp = 1 + k % 2;
    const int* c = cfg[(k / 36 + k / 6 + k) % 6];
    compare(t, 3, c[0], c[1], c[2], s);
}
// every triple of the 22 templates
VF bounded_all_triples(int k) { // CASES 0 10648
    int t[3] = { k / (NT * NT), k / NT % NT, k % NT };
    M s; s.havoc();
    const int* c = cfg[(k / (NT * NT) + k / NT + k) % 6];
    compare(t, 3, c[0], c[1], c[2], s);
}
// long dependent sequences (physical registers and write-buffer entries are reused many times)
static const int ln[] = { tLEA, tMOVr, tMOVr, tMOVr2, tMOVr2, tMOVi, tLD0, tLD0, tST0, tST0, tST0i, tMOVF, tMOVRF, tPUSH, tPOP, tCLF };
VF bounded_long(int k) { // CASES 120 720
    uint32_t x = 12345 + 977 * k;
    int t[20], sp = 2;
    for (int i = 0; i < 20; ++i) {
        x = x * 1664525u + 1013904223u;
        int c = ln[(x >> 20) % 16];
        if (c == tPUSH && sp == 1) c = tPOP;
        if (c == tPOP && sp == 3) c = tPUSH;
        if (c == tPUSH) --sp; else if (c == tPOP) ++sp;
        t[i] = c;
    }
    t[3 + k % 7] = k % 2 ? tINC : tSUB;
    for (int i = 0, q = 2; i < 20; ++i) { if (t[i] == tPUSH) --q; if (t[i] == tPOP) ++q; if (q < 0 || q > 3) { t[i] = tLEA; q = q < 0 ? 0 : 3; } }
    M s; s.havoc(); s.sp = 2;
    const int* c = cfg[k % 6];
    compare(t, 20, c[0], c[1], c[2], s);
}
// whole programs with loops, branches, functions, computed jumps, stack, memory and floats; every sixth one ends in a failing instruction
VF bounded_programs(int k) { // CASES 96 960
    progs::Gen g(9000 + k, k % 4 == 0, false, false, 1, 5 + k % 6, k % 6 == 5);
    progs::compare(g, k % 8);
}
