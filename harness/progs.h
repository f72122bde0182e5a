#pragma once
// Whole programs: loops, branches on known and on unknown data, functions, computed jumps, stack, memory, floats and
// input/output, generated from a number; a one-instruction-at-a-time interpreter; and the comparison with the real machine.
#include "vm.h"
namespace progs {
enum { NR = 5, NF = 2, NM = 24 };
typedef Mach<NR, NF, NM> M;
enum Op { MOVi, MOVr, ALU, ALUi, ALUm, INCr, DECr, NEGr, NOTr, LEAo, LEArr, LD, ST, STi, LDp, STp, STpi, LDpo, PSH, PSHi, POPr, FPSH, FPOPr, FRr, RFr, FFr, FLD, FST, FLDp, FSTp,
          EXTc, FAi, FCi, FNRW, CMPr, CMPi, CMPpi, SETp, SETc, DECc, JCC, JMPl, JMPp, LOOPc, LOOPp, CALLl, CALLp, RETn, ENTER, FRAME, LEAVE, UNFRAME, NUM, CHR, GET, NOPn, HLT, DIV0, BADLD, BADST, BRK, NOP_ };
struct Ins { int op, a = 0, b = 0; int64_t i = 0; };
inline int sz(int64_t v) { return (v < 0 ? FS : 0) | (v == 0 ? FZ : 0); }
inline int addfl(int64_t x, int64_t y) { int64_t v = (uint64_t)x + (uint64_t)y; return sz(v) | ((uint64_t)v < (uint64_t)x ? FC : 0) | ((i128)x + y != (i128)v ? FO : 0); }
inline int subfl(int64_t x, int64_t y) { int64_t v = (uint64_t)x - (uint64_t)y; return sz(v) | ((uint64_t)x < (uint64_t)y ? FC : 0) | ((i128)x - y != (i128)v ? FO : 0); }
inline int fflags(double v) { return (v < 0 ? FS : 0) | (v == 0 ? FZ : 0) | (v == __builtin_inf() || v == -__builtin_inf() ? FO : 0); }
inline bool cond(int c, int fl) {
    bool z = fl & FZ, s = fl & FS, o = fl & FO, y = fl & FC;
    switch (c) {
    case 0: return z; case 1: return !z; case 2: return z; case 3: return !z;
    case 4: return !z && s == o; case 5: return s == o; case 6: return s != o; case 7: return z || s != o;
    case 8: return !y && !z; case 9: return !y; case 10: return y; case 11: return y || z;
    case 12: return o; case 13: return !o; case 14: return s; default: return !s;
    }
}
template <class A> inline void put_jcc(Prog& p, int c, A a) {
    switch (c) {
    case 0: p.add<JZ>(a); break; case 1: p.add<JNZ>(a); break; case 2: p.add<JE>(a); break; case 3: p.add<JNE>(a); break;
    case 4: p.add<JG>(a); break; case 5: p.add<JGE>(a); break; case 6: p.add<JL>(a); break; case 7: p.add<JLE>(a); break;
    case 8: p.add<JA>(a); break; case 9: p.add<JAE>(a); break; case 10: p.add<JB>(a); break; case 11: p.add<JBE>(a); break;
    case 12: p.add<JO>(a); break; case 13: p.add<JNO>(a); break; case 14: p.add<JS>(a); break; default: p.add<JNS>(a); break;
    }
}
inline Register R(int i) { return Register{(size_t)i}; }
inline FloatRegister F(int i) { return FloatRegister{(size_t)i}; }
inline Register rsp() { return Register::StackPointer(); }
inline Register rbp() { return Register::StackBasePointer(); }
enum { CNT = 3, PTR = 4 };
inline void emit(Prog& p, const Ins& n) {
    Register a = R(n.a), b = R(n.b), c = R(CNT), q = R(PTR);
    double d = (double)n.i / 4;
    switch (n.op) {
    case MOVi: p.add<MOV>(a, n.i); break;
    case MOVr: p.add<MOV>(a, b); break;
    case ALU: switch (n.i) { case 0: p.add<ADD>(a, b); break; case 1: p.add<SUB>(a, b); break; case 2: p.add<AND>(a, b); break; case 3: p.add<OR>(a, b); break; default: p.add<XOR>(a, b); } break;
    case ALUi: if (n.b) p.add<SUB>(a, n.i); else p.add<ADD>(a, n.i); break;
    case ALUm: if (n.b) p.add<SUB>(a, Memory::Immediate(n.i)); else p.add<XOR>(a, Memory::Immediate(n.i)); break;
    case INCr: p.add<INC>(a); break;
    case DECr: p.add<DEC>(a); break;
    case NEGr: p.add<NEG>(a); break;
    case NOTr: p.add<NOT>(a); break;
    case LEAo: p.add<LEA>(a, Memory::RegisterOffset(b + n.i)); break;
    case LEArr: p.add<LEA>(a, Memory::RegisterRegister(a + b)); break;
    case LD: p.add<MOV>(a, Memory::Immediate(n.i)); break;
    case ST: p.add<MOV>(Memory::Immediate(n.i), a); break;
    case STi: p.add<MOV>(Memory::Immediate(n.a), n.i); break;
    case LDp: p.add<MOV>(a, Memory::Register(q)); break;
    case STp: p.add<MOV>(Memory::Register(q), a); break;
    case STpi: p.add<MOV>(Memory::Register(q), n.i); break;
    case LDpo: p.add<MOV>(a, Memory::RegisterOffset(q + n.i)); break;
    case PSH: p.add<PUSH>(a); break;
    case PSHi: p.add<PUSH>(n.i); break;
    case POPr: p.add<POP>(a); break;
    case FPSH: p.add<FPUSH>(F(n.a)); break;
    case FPOPr: p.add<FPOP>(F(n.a)); break;
    case FRr: p.add<MOV>(F(0), a); break;
    case RFr: p.add<MOV>(a, F(n.b)); break;
    case FFr: p.add<MOV>(F(0), F(1)); break;
    case FLD: p.add<MOV>(F(0), Memory::Immediate(n.i)); break;
    case FST: p.add<MOV>(Memory::Immediate(n.i), F(n.a)); break;
    case FLDp: p.add<MOV>(F(0), Memory::Register(q)); break;
    case FSTp: p.add<MOV>(Memory::Register(q), F(n.a)); break;
    case EXTc: p.add<EXT>(F(1), c); break;
    case FAi: if (n.a == 0) p.add<FADD>(F(1), d); else if (n.a == 1) p.add<FSUB>(F(1), d); else if (n.a == 2) p.add<FMUL>(F(1), d); else p.add<FDIV>(F(1), d); break;
    case FCi: p.add<FCMP>(F(1), d); break;
    case FNRW: p.add<NRW>(a, F(1)); break;
    case CMPr: p.add<CMP>(a, b); break;
    case CMPi: p.add<CMP>(a, n.i); break;
    case CMPpi: p.add<CMP>(R(CNT), n.i); break;
    case SETp: p.add<MOV>(q, n.i); break;
    case SETc: p.add<MOV>(c, n.i); break;
    case DECc: p.add<SUB>(c, (int64_t)1); break;
    case JCC: if (n.b == 0) put_jcc(p, n.a, (uint64_t)n.i); else put_jcc(p, n.a, q); break;
    case JMPl: p.add<JMP>((uint64_t)n.i); break;
    case JMPp: p.add<JMP>(q); break;
    case LOOPc: p.add<LOOP>(c, (uint64_t)n.i); break;
    case LOOPp: p.add<LOOP>(c, q); break;
    case CALLl: p.add<CALL>((uint64_t)n.i); break;
    case CALLp: p.add<CALL>(q); break;
    case RETn: p.add<RET>(); break;
    case ENTER: p.add<PUSH>(rbp()); break;
    case FRAME: p.add<MOV>(rbp(), rsp()); break;
    case LEAVE: p.add<POP>(rbp()); break;
    case UNFRAME: p.add<MOV>(rsp(), rbp()); break;
    case NUM: p.add<PUTNUM>(a, *vf_ostream(0)); break;
    case CHR: p.add<PUTCHAR>(a, *vf_ostream(1)); break;
    case GET: p.add<GETCHAR>(a, *vf_istream()); break;
    case NOPn: p.add<NOP>(); break;
    case HLT: p.add<HALT>(); break;
    case DIV0: p.add<DIV>(a, (int64_t)0); break;
    case BADLD: p.add<MOV>(a, Memory::Immediate(NM + n.i)); break;
    case BADST: p.add<MOV>(Memory::Immediate(NM + n.i), a); break;
    case BRK: p.add<BKPT>(); break;
    }
}
struct Run { M s; std::vector<int64_t> nums; std::vector<uint8_t> chars, in; size_t read = 0; int steps = 0; };
// one instruction; 0 goes on, 1 halted, 2 failed
inline int exec(Run& r, const Ins& n) {
    M& s = r.s; int64_t x, v;
    auto push = [&](int64_t w) { --s.sp; s.m[s.sp] = w; };
    auto pop = [&] { int64_t w = s.m[s.sp]; ++s.sp; return w; };
    double d = (double)n.i / 4, t;
    ++s.pc;
    switch (n.op) {
    case MOVi: s.r[n.a] = n.i; break;
    case MOVr: s.r[n.a] = s.r[n.b]; break;
    case ALU: x = s.r[n.b]; v = s.r[n.a];
        switch (n.i) { case 0: s.fl = addfl(v, x); v = (uint64_t)v + x; break; case 1: s.fl = subfl(v, x); v = (uint64_t)v - x; break; case 2: v &= x; s.fl = sz(v); break; case 3: v |= x; s.fl = sz(v); break; default: v ^= x; s.fl = sz(v); }
        s.r[n.a] = v; break;
    case ALUi: v = s.r[n.a]; if (n.b) { s.fl = subfl(v, n.i); v = (uint64_t)v - n.i; } else { s.fl = addfl(v, n.i); v = (uint64_t)v + n.i; } s.r[n.a] = v; break;
    case ALUm: v = s.r[n.a]; x = s.m[n.i]; if (n.b) { s.fl = subfl(v, x); v = (uint64_t)v - x; } else { v ^= x; s.fl = sz(v); } s.r[n.a] = v; break;
    case INCr: s.fl = addfl(s.r[n.a], 1); s.r[n.a] = (uint64_t)s.r[n.a] + 1; break;
    case DECr: s.fl = subfl(s.r[n.a], 1); s.r[n.a] = (uint64_t)s.r[n.a] - 1; break;
    case NEGr: s.r[n.a] = 0 - (uint64_t)s.r[n.a]; s.fl = sz(s.r[n.a]); break;
    case NOTr: s.r[n.a] = ~s.r[n.a]; s.fl = sz(s.r[n.a]); break;
    case LEAo: s.r[n.a] = (uint64_t)s.r[n.b] + n.i; break;
    case LEArr: s.r[n.a] = (uint64_t)s.r[n.a] + s.r[n.b]; break;
    case LD: s.r[n.a] = s.m[n.i]; break;
    case ST: s.m[n.i] = s.r[n.a]; break;
    case STi: s.m[n.a] = n.i; break;
    case LDp: s.r[n.a] = s.m[s.r[PTR]]; break;
    case STp: s.m[s.r[PTR]] = s.r[n.a]; break;
    case STpi: s.m[s.r[PTR]] = n.i; break;
    case LDpo: s.r[n.a] = s.m[s.r[PTR] + n.i]; break;
    case PSH: push(s.r[n.a]); break;
    case PSHi: push(n.i); break;
    case POPr: s.r[n.a] = pop(); break;
    case FPSH: push(s.f[n.a]); break;
    case FPOPr: s.f[n.a] = pop(); break;
    case FRr: s.f[0] = s.r[n.a]; break;
    case RFr: s.r[n.a] = s.f[n.b]; break;
    case FFr: s.f[0] = s.f[1]; break;
    case FLD: s.f[0] = s.m[n.i]; break;
    case FST: s.m[n.i] = s.f[n.a]; break;
    case FLDp: s.f[0] = s.m[s.r[PTR]]; break;
    case FSTp: s.m[s.r[PTR]] = s.f[n.a]; break;
    case EXTc: s.f[1] = d2bits((double)s.r[CNT]); break;
    case FAi: t = bits2d(s.f[1]); t = n.a == 0 ? t + d : n.a == 1 ? t - d : n.a == 2 ? t * d : t / d; s.f[1] = d2bits(t); s.fl = fflags(t); break;
    case FCi: s.fl = fflags(bits2d(s.f[1]) - d); break;
    case FNRW: s.r[n.a] = (int64_t)bits2d(s.f[1]); break;
    case CMPr: s.fl = subfl(s.r[n.a], s.r[n.b]); break;
    case CMPi: s.fl = subfl(s.r[n.a], n.i); break;
    case CMPpi: s.fl = subfl(s.r[CNT], n.i); break;
    case SETp: s.r[PTR] = n.i; break;
    case SETc: s.r[CNT] = n.i; break;
    case DECc: s.fl = subfl(s.r[CNT], 1); --s.r[CNT]; break;
    case JCC: if (cond(n.a, s.fl)) s.pc = n.b ? s.r[PTR] : n.i; break;
    case JMPl: s.pc = n.i; break;
    case JMPp: s.pc = s.r[PTR]; break;
    case LOOPc: case LOOPp: s.fl = subfl(s.r[CNT], 1); if (--s.r[CNT]) s.pc = n.op == LOOPc ? n.i : s.r[PTR]; break;
    case CALLl: push(s.pc); s.pc = n.i; break;
    case CALLp: push(s.pc); s.pc = s.r[PTR]; break;
    case RETn: s.pc = pop(); break;
    case ENTER: push(s.bp); break;
    case FRAME: s.bp = s.sp; break;
    case LEAVE: s.bp = pop(); break;
    case UNFRAME: s.sp = s.bp; break;
    case NUM: r.nums.push_back(s.r[n.a]); break;
    case CHR: r.chars.push_back(s.r[n.a]); break;
    case GET: s.r[n.a] = r.in[r.read++]; break;
    case NOPn: break;
    case HLT: return 1;
    default: return 2;
    }
    return 0;
}
// ---- generation: data registers R0..R2, counter R3, pointer R4; cells 0..5 data, 6..23 stack
struct Gen {
    std::vector<Ins> v; uint64_t seed; bool traps, io; int unknown; int alus = 0, cur = -1, depth = 0; bool symbolic; int funs = 0, fun_at[3]; int fails = -1;
    struct Patch { size_t at; int fun; }; std::vector<Patch> calls;
    uint64_t rnd(uint64_t n) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (seed >> 33) % n; }
    int64_t small() { return (int64_t)rnd(7) - 3; }
    void add(int op, int a = 0, int b = 0, int64_t i = 0) { v.push_back({op, a, b, i}); }
    int D() { return rnd(3); }
    // what is never executed
    void trap() {
        if (!traps) return;
        int n = 1 + rnd(3);
        for (int i = 0; i < n; ++i) switch (rnd(16)) {
            case 0: add(DIV0, D()); break; case 1: add(BADLD, D(), 0, rnd(3)); break; case 2: add(BADST, D(), 0, rnd(3)); break;
            case 3: add(HLT); break; case 4: add(BRK); break; case 5: add(NUM, D()); break; case 6: add(GET, D()); break; case 7: add(CHR, D()); break;
            case 8: add(STi, rnd(6), 0, 99); break; case 9: add(FRAME); break; case 10: add(UNFRAME); break; case 11: add(RETn); break;
            case 12: add(CALLl, 0, 0, rnd(v.size() + 1)); break; case 13: add(PSH, D()); break; case 14: add(SETc, 0, 0, 77); break; case 15: add(JCC, rnd(16), 0, rnd(v.size() + 1)); break;
        }
    }
    // instructions that compute on unknown data multiply the paths: few of them, and executed once, in the symbolic programs
    bool alu_ok() { return !symbolic || (depth == 0 && cur < 0 && alus-- > 0); }
    void straight() {
        int c = rnd(io ? 36 : 31);
        if (((c >= 3 && c <= 8) || (c >= 27 && c <= 29)) && !alu_ok()) c = c < 7 ? 9 : c == 7 ? 10 : 1 + c % 2;
        switch (c) {
        case 0: add(MOVi, D(), 0, small()); break;
        case 1: case 2: add(MOVr, D(), D()); break;
        case 3: case 4: add(ALU, D(), D(), rnd(5)); break;
        case 5: add(ALUi, D(), rnd(2), small()); break;
        case 6: add(ALUm, D(), rnd(2), rnd(6)); break;
        case 7: add(rnd(2) ? INCr : DECr, D()); break;
        case 8: add(rnd(2) ? NEGr : NOTr, D()); break;
        case 9: add(LEAo, D(), D(), small()); break;
        case 10: add(LEArr, D(), D()); break;
        case 11: case 12: add(LD, D(), 0, rnd(6)); break;
        case 13: case 14: add(ST, D(), 0, rnd(6)); break;
        case 15: add(STi, rnd(6), 0, small()); break;
        case 16: add(SETp, 0, 0, rnd(6)); add(LDp, D()); break;
        case 17: add(SETp, 0, 0, rnd(6)); add(STp, D()); if (rnd(2)) add(LD, D(), 0, rnd(6)); break;
        case 18: add(SETp, 0, 0, rnd(6)); add(STpi, 0, 0, small()); add(LDp, D()); break;
        case 19: add(SETp, 0, 0, 2 + rnd(3)); add(LDpo, D(), 0, (int64_t)rnd(3) - 1); break;
        case 20: add(PSH, D()); add(POPr, D()); break;
        case 21: add(FRr, D()); break;
        case 22: add(RFr, D(), 0); break;
        case 23: add(FLD, 0, 0, rnd(6)); break;
        case 24: add(FST, rnd(2), 0, rnd(6)); break;
        case 25: add(FPSH, rnd(2)); straight(); add(FPOPr, 0); break;
        case 26: add(SETp, 0, 0, rnd(6)); add(rnd(2) ? FSTp : FLDp, 0); break;
        case 27: add(EXTc); add(FAi, rnd(4), 0, 1 + rnd(9)); break;
        case 28: add(FAi, rnd(2), 0, small()); if (rnd(2)) add(FNRW, D()); break;
        case 29: add(FCi, 0, 0, small()); break;
        case 30: if (rnd(2)) add(PSHi, 0, 0, small()); else add(PSH, D()); straight(); add(POPr, D()); break;
        case 31: case 32: case 33: add(NUM, D()); break;
        case 34: add(CHR, D()); break;
        case 35: add(GET, D()); break;
        }
    }
    // a jump over a few instructions that depends on what is known
    void known_if() { ++depth; known_if_(); --depth; }
    void known_if_() {
        if (rnd(3)) add(CMPpi, 0, 0, rnd(4)); else add(FCi, 0, 0, small());
        size_t j = v.size(); bool far = rnd(3) == 0;
        if (far) add(SETp); 
        j = v.size(); add(JCC, rnd(16), far);
        straight(); if (rnd(2)) straight();
        v[far ? j - 1 : j].i = v.size();
    }
    void unknown_if() {
        if (unknown <= 0) { known_if(); return; }
        --unknown;
        if (rnd(2)) add(CMPr, rnd(2), 2); else add(CMPi, D(), 0, small());
        size_t j = v.size(); add(JCC, rnd(16), 0);
        straight();
        if (rnd(2)) { size_t e = v.size(); add(JMPl); trap(); v[j].i = v.size(); straight(); v[e].i = v.size(); }
        else v[j].i = v.size();
    }
    void over() {           // an unconditional jump over instructions
        bool far = rnd(2); size_t j = v.size();
        if (far) { add(SETp); add(JMPp); } else add(JMPl);
        if (traps) trap(); else { straight(); }
        v[j].i = v.size();
    }
    void call(int depth) {
        if (depth >= 2 || funs == 0) { straight(); return; }
        int f = depth == 0 ? rnd(funs) : funs - 1;
        if (depth == 1 && f == cur) { straight(); return; }
        bool far = rnd(3) == 0;
        calls.push_back({v.size(), f});
        if (far) { add(SETp); add(CALLp); } else add(CALLl);
    }
    void loop(int depth) {
        if (depth > 0) add(PSH, CNT);
        add(SETc, 0, 0, 2 + rnd(2));
        bool far = rnd(3) == 0; size_t start = v.size();
        int n = 1 + rnd(3); ++depth;
        for (int i = 0; i < n; ++i) switch (rnd(6)) { case 0: known_if(); break; case 1: if (depth == 0) call(0); else straight(); break; case 2: over(); break; default: straight(); }
        --depth;
        switch (rnd(3)) {
        case 0: add(DECc); add(JCC, rnd(2) ? 1 : 3, 0, start); break;
        case 1: if (far) { add(SETp, 0, 0, start); add(LOOPp); } else add(LOOPc, 0, 0, start); break;
        case 2: add(DECc); add(CMPpi, 0, 0, 0); add(JCC, 4, 0, start); break;
        }
        if (depth > 0) add(POPr, CNT);
    }
    void block(int n, int depth) {
        for (int i = 0; i < n; ++i) switch (rnd(10)) {
            case 0: if (depth < 2) loop(depth); else straight(); break;
            case 1: known_if(); break;
            case 2: if (depth == 0) unknown_if(); else known_if(); break;
            case 3: case 4: call(depth); break;
            case 5: over(); break;
            default: straight();
        }
    }
    Gen(uint64_t sd, bool symbolic, bool traps, bool io, int unknown, int size, bool failing) : seed(sd), traps(traps), io(io), unknown(unknown), alus(2), symbolic(symbolic) {
        rnd(2);
        funs = rnd(3);
        add(SETc, 0, 0, rnd(4));
        block(size, 0);
        if (failing) { add(rnd(3) == 0 ? DIV0 : rnd(2) ? BADLD : BADST, D(), 0, rnd(2)); straight(); straight(); }
        add(HLT); trap();
        for (int f = 0; f < funs; ++f) {
            cur = f; fun_at[f] = v.size();
            bool frame = rnd(2);
            if (frame) { add(ENTER); add(FRAME); }
            block(1 + rnd(3), 1);
            if (frame) { if (rnd(2)) { add(PSH, D()); add(UNFRAME); } add(LEAVE); }
            add(RETn); trap();
        }
        for (auto& c : calls) v[c.at].i = fun_at[c.fun];
        add(HLT);
    }
};
static const int config[][3] = { {1, 1, 1}, {1, 2, 4}, {2, 6, 4}, {4, 4, 4}, {2, 3, 2}, {3, 7, 1}, {1, 4, 1}, {2, 8, 3} };
// runs a generated program on the real machine and compares everything visible
inline void compare(Gen& g, int cfgno) {
    const int* c = config[cfgno];
    Run r; M& s = r.s;
    if (g.symbolic) s.havoc();
    else {
        s.fl = g.rnd(16); s.pc = 0;
        auto any = [&]() -> int64_t { int64_t v = g.rnd(1u << 30); return g.rnd(3) == 0 ? v * 0x9e3779b97f4a7c15 : g.rnd(2) ? v : -v; };
        for (auto& v : s.r) v = any();
        for (auto& v : s.m) v = any();
        for (auto& v : s.f) v = any();
    }
    s.sp = NM; s.bp = NM; s.r[CNT] = 0; s.r[PTR] = 0; s.f[1] = d2bits(1.5);
    Cpu cpu(NR, NF, c[0], c[1], NM, c[2]);
    Prog p; for (auto& i : g.v) emit(p, i);
    cpu.start(p.make());
    s.load(cpu);
    if (g.io) for (int i = 0; i < 24; ++i) { r.in.push_back('a' + i); vf_in_push('a' + i); }
    int how = 0;
    while (!how && r.steps < 400) { how = exec(r, g.v[s.pc]); ++r.steps; }
    vf_ensure(how != 0, "harness: the program ends");
    End end = run(cpu, 60 * r.steps + 100);
    if (how == 1) {
        vf_ensure(end == HALTED, "the program halts");
        vf_ensure((uint64_t)cpu.getRegister(Register::ProgramCounter()) == s.pc, "the program stops behind its HALT");
        s.check(cpu, "the final state is the one of sequential execution");
        vf_cover("program halted");
    } else {
        vf_ensure(end == ERROR, "a failing instruction ends in a CPU error");
        s.same_mem(cpu, "memory at an error is what the instructions before it left");
        vf_cover("program failed");
    }
    if (g.io) {
        vf_ensure(vf_out_count(0) == (int)r.nums.size() && vf_out_count(1) == (int)r.chars.size(), "every output instruction writes exactly once");
        for (size_t i = 0; i < r.nums.size(); ++i) vf_ensure(vf_out_value(0, i) == r.nums[i], "numbers are written in program order");
        for (size_t i = 0; i < r.chars.size(); ++i) vf_ensure((uint8_t)vf_out_value(1, i) == r.chars[i], "characters are written in program order");
    }
}
}
