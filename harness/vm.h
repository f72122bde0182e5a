#pragma once
// Common vocabulary of the VM contracts: an arbitrary machine state, the real
// Cpu put into that state, and the comparison of every architecturally visible
// part of it afterwards.
#include "vf.h"
#include "t86/cpu.h"
#include "t86/program.h"
#include "t86/instruction.h"
#include <exception>
#include <memory>
#include <vector>
using namespace tiny::t86;
typedef unsigned __int128 u128;
typedef __int128 i128;

static const int64_t IMIN = INT64_MIN;
enum { FS = 1, FZ = 2, FC = 4, FO = 8 };

inline double bits2d(uint64_t b) { double d; __builtin_memcpy(&d, &b, 8); return d; }
inline uint64_t d2bits(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); return b; }

template <int NR, int NF, int NM>
struct Mach {
    static const int nr = NR, nf = NF, nm = NM;
    int64_t r[NR];
    uint64_t f[NF ? NF : 1];
    int64_t m[NM];
    int64_t sp, bp, fl;
    uint64_t pc;
    void havoc() {
        for (int i = 0; i < NR; ++i) r[i] = vf_i64("r");
        for (int i = 0; i < NF; ++i) f[i] = vf_u64("f");
        for (int i = 0; i < NM; ++i) m[i] = vf_i64("m");
        sp = vf_i64("sp"); bp = vf_i64("bp"); fl = vf_u64("flags") & 15;
        pc = 0;
    }
    void load(Cpu& c) const {
        for (int i = 0; i < NR; ++i) c.setRegister(Register{(size_t)i}, r[i]);
        for (int i = 0; i < NF; ++i) c.setFloatRegister(FloatRegister{(size_t)i}, bits2d(f[i]));
        for (int i = 0; i < NM; ++i) c.setMemory(i, m[i]);
        c.setRegister(Register::StackPointer(), sp);
        c.setRegister(Register::StackBasePointer(), bp);
        c.setRegister(Register::Flags(), fl);
    }
    void same_regs(const Cpu& c, const char* lbl) const {
        for (int i = 0; i < NR; ++i) vf_ensure(c.getRegister(Register{(size_t)i}) == r[i], lbl);
    }
    void same_floats(const Cpu& c, const char* lbl) const {
        for (int i = 0; i < NF; ++i) vf_ensure(d2bits(c.getFloatRegister(FloatRegister{(size_t)i})) == f[i], lbl);
    }
    void same_mem(const Cpu& c, const char* lbl) const {
        for (int i = 0; i < NM; ++i) vf_ensure(c.getMemory(i) == m[i], lbl);
    }
    // every architecturally visible part of the machine, except the program counter
    void check(const Cpu& c, const char* what) const {
        same_regs(c, what); same_floats(c, what); same_mem(c, what);
        vf_ensure(c.getRegister(Register::StackPointer()) == sp, what);
        vf_ensure(c.getRegister(Register::StackBasePointer()) == bp, what);
        vf_ensure(c.getRegister(Register::Flags()) == fl, what);
    }
};

struct Prog {
    std::vector<std::unique_ptr<Instruction>> v;
    template <class I, class... A> Prog& add(A&&... a) { v.push_back(std::make_unique<I>(std::forward<A>(a)...)); return *this; }
    Prog& halt() { v.push_back(std::make_unique<HALT>()); return *this; }
    Program make() { return Program(std::move(v)); }
};

// what a run ended with
enum End { HALTED, ERROR, STOPPED, RUNNING };
// tick until the machine halts, is interrupted, or the tick throws (the way the operating loop reports a CPU error)
inline End run(Cpu& c, int max = 120) {
    for (int t = 0; t < max; ++t) {
        try { c.tick(); } catch (const std::exception&) { return ERROR; }
        if (c.halted()) return HALTED;
        if (c.interrupted()) return STOPPED;
    }
    return RUNNING;
}
