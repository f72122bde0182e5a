// VF-SRC: t86 parser
// VF-OPT: text=1
// VF-COVER: round-trip, user text, data, rejected
#include "vm.h"
#include "t86-parser/parser.h"
#include <sstream>
#include <functional>
// ---- structural equality of operands and instructions, by the getters
static bool same(const RegisterOffset& a, const RegisterOffset& b) { return a.reg() == b.reg() && a.offset() == b.offset(); }
static bool same(const RegisterScaled& a, const RegisterScaled& b) { return a.reg() == b.reg() && a.scale() == b.scale(); }
static bool same(const Operand& a, const Operand& b) {
    if (a.getType() != b.getType()) return false;
    if (a.isValue()) return a.getValue() == b.getValue();
    if (a.isFloatValue()) return d2bits(a.getFloatValue()) == d2bits(b.getFloatValue());
    if (a.isRegister()) return a.getRegister() == b.getRegister();
    if (a.isFloatRegister()) return a.getFloatRegister().index() == b.getFloatRegister().index();
    if (a.isRegisterOffset()) return same(a.getRegisterOffset(), b.getRegisterOffset());
    if (a.isMemoryImmediate()) return a.getMemoryImmediate().index() == b.getMemoryImmediate().index();
    if (a.isMemoryRegister()) return a.getMemoryRegister().reg() == b.getMemoryRegister().reg();
    if (a.isMemoryRegisterOffset()) return same(a.getMemoryRegisterOffset().regOffset(), b.getMemoryRegisterOffset().regOffset());
    if (a.isMemoryRegisterScaled()) return same(a.getMemoryRegisterScaled().regScaled(), b.getMemoryRegisterScaled().regScaled());
    if (a.isMemoryRegisterRegister()) {
        auto x = a.getMemoryRegisterRegister().regReg(), y = b.getMemoryRegisterRegister().regReg();
        return x.reg1() == y.reg1() && x.reg2() == y.reg2();
    }
    if (a.isMemoryRegisterOffsetRegister()) {
        auto x = a.getMemoryRegisterOffsetRegister().regOffsetReg(), y = b.getMemoryRegisterOffsetRegister().regOffsetReg();
        return same(x.regOffset(), y.regOffset()) && x.reg() == y.reg();
    }
    if (a.isMemoryRegisterRegisterScaled()) {
        auto x = a.getMemoryRegisterRegisterScaled().regRegScaled(), y = b.getMemoryRegisterRegisterScaled().regRegScaled();
        return x.reg() == y.reg() && same(x.regScaled(), y.regScaled());
    }
    if (a.isMemoryRegisterOffsetRegisterScaled()) {
        auto x = a.getMemoryRegisterOffsetRegisterScaled().regOffsetRegScaled(), y = b.getMemoryRegisterOffsetRegisterScaled().regOffsetRegScaled();
        return same(x.regOffset(), y.regOffset()) && same(x.regScaled(), y.regScaled());
    }
    return false;
}
static bool same(const Instruction& a, const Instruction& b) {
    if (a.type() != b.type()) return false;
    auto x = a.signatureOperands(), y = b.signatureOperands();
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) if (!same(x[i], y[i])) return false;
    return true;
}
static std::unique_ptr<Instruction> parse(const std::string& t) {
    std::istringstream is(t);
    ::Parser p(is);
    auto j = p.Instruction(); p.CheckEnd();
    return j;
}
typedef std::unique_ptr<Instruction> IP;
template <class I, class... A> static IP mk(A&&... a) { return std::make_unique<I>(std::forward<A>(a)...); }
static Register R(size_t i) { return Register{i}; }
static FloatRegister F(size_t i) { return FloatRegister{i}; }
static void round_trip(const IP& a) {
    try {
        auto b = parse(a->toString());
        vf_ensure(same(*a, *b), "the printed instruction reads back as the same instruction");
    } catch (const ParserError&) { vf_ensure(false, "the printed instruction is accepted"); }
    vf_cover("round-trip");
}
// every register name
static Register anyreg(int k) { static const int n[] = {0, 1, 9, 10, 123}; if (k < 5) return R(n[k]); return k == 5 ? Register::StackPointer() : k == 6 ? Register::StackBasePointer() : Register::ProgramCounter(); }

template <class I> static IP arith(int form, int64_t i) {
    switch (form) {
    case 0: return mk<I>(R(3), R(12));
    case 1: return mk<I>(R(0), i);
    case 2: return mk<I>(R(2), R(1) + i);
    case 3: return mk<I>(R(2), Mem((uint64_t)i));
    case 4: return mk<I>(R(2), Mem(R(7)));
    default: return mk<I>(R(2), Mem(Register::StackBasePointer() + i));
    }
}
VF prove_arithmetic(int k) { // CASES 66
    int64_t i = vf_i64("i"); int f = k % 6;
    if (f == 3) vf_assume(i >= 0);
    IP a;
    switch (k / 6) {
    case 0: a = arith<ADD>(f, i); break;  case 1: a = arith<SUB>(f, i); break;  case 2: a = arith<MUL>(f, i); break;
    case 3: a = arith<DIV>(f, i); break;  case 4: a = arith<IMUL>(f, i); break; case 5: a = arith<IDIV>(f, i); break;
    case 6: a = arith<AND>(f, i); break;  case 7: a = arith<OR>(f, i); break;   case 8: a = arith<XOR>(f, i); break;
    case 9: a = arith<LSH>(f, i); break;  default: a = arith<RSH>(f, i); break;
    }
    round_trip(a);
}
VF prove_compare_and_unary(int k) { // CASES 22
    int64_t i = vf_i64("i");
    switch (k) {
    case 0: round_trip(mk<CMP>(R(3), R(12))); break;
    case 1: round_trip(mk<CMP>(R(3), i)); break;
    case 2: vf_assume(i >= 0); round_trip(mk<CMP>(R(3), Mem((uint64_t)i))); break;
    case 3: round_trip(mk<CMP>(R(3), Mem(R(2)))); break;
    case 4: round_trip(mk<CMP>(R(3), Mem(R(2) + i))); break;
    case 5: round_trip(mk<INC>(R(4))); break;
    case 6: round_trip(mk<DEC>(R(4))); break;
    case 7: round_trip(mk<NEG>(R(4))); break;
    case 8: round_trip(mk<NOT>(R(4))); break;
    case 9: round_trip(mk<LOOP>(R(4), R(5))); break;
    case 10: round_trip(mk<LOOP>(R(4), i)); break;
    case 11: round_trip(mk<JMP>(R(4))); break;
    case 12: round_trip(mk<JMP>(i)); break;
    case 13: round_trip(mk<CALL>(R(4))); break;
    case 14: round_trip(mk<CALL>(i)); break;
    case 15: round_trip(mk<PUSH>(R(4))); break;
    case 16: round_trip(mk<PUSH>(i)); break;
    case 17: round_trip(mk<POP>(R(4))); break;
    case 18: round_trip(mk<PUTCHAR>(R(4))); break;
    case 19: round_trip(mk<PUTNUM>(R(4))); break;
    case 20: round_trip(mk<GETCHAR>(R(4))); break;
    default: round_trip(mk<HALT>()); round_trip(mk<NOP>()); round_trip(mk<BKPT>()); round_trip(mk<BREAK>()); round_trip(mk<RET>()); break;
    }
}
template <class I> static IP jump(int form, int64_t i) {
    switch (form) {
    case 0: return mk<I>(R(3));
    case 1: return mk<I>(i);
    case 2: return mk<I>(Mem((uint64_t)i));
    case 3: return mk<I>(Mem(R(6)));
    default: return mk<I>(Mem(R(6) + i));
    }
}
VF prove_jumps(int k) { // CASES 80
    int64_t i = vf_i64("i"); int f = k % 5;
    if (f == 2) vf_assume(i >= 0);
    IP a;
    switch (k / 5) {
    case 0: a = jump<JZ>(f, i); break;  case 1: a = jump<JNZ>(f, i); break; case 2: a = jump<JE>(f, i); break;  case 3: a = jump<JNE>(f, i); break;
    case 4: a = jump<JG>(f, i); break;  case 5: a = jump<JGE>(f, i); break; case 6: a = jump<JL>(f, i); break;  case 7: a = jump<JLE>(f, i); break;
    case 8: a = jump<JA>(f, i); break;  case 9: a = jump<JAE>(f, i); break; case 10: a = jump<JB>(f, i); break; case 11: a = jump<JBE>(f, i); break;
    case 12: a = jump<JO>(f, i); break; case 13: a = jump<JNO>(f, i); break; case 14: a = jump<JS>(f, i); break; default: a = jump<JNS>(f, i); break;
    }
    round_trip(a);
}
// memory operand forms; i, j arbitrary
static Operand memory(int form, int64_t i, int64_t j) {
    switch (form) {
    case 0: return Mem((uint64_t)i);
    case 1: return Mem(R(5));
    case 2: return Mem(R(5) + i);
    case 3: return Mem(R(5) * i);
    case 4: return Mem(R(5) + R(6));
    case 5: return Mem(R(5) + R(6) * i);
    case 6: return Mem(R(5) + i + R(6));
    default: return Mem(R(5) + i + R(6) * j);
    }
}
VF prove_mov(int k) { // CASES 42
    int64_t i = vf_i64("i"), j = vf_i64("j"), v = vf_i64("v");
    if (k < 32 && k % 8 == 0) vf_assume(i >= 0);
    if (k < 8) round_trip(mk<MOV>(R(1), memory(k, i, j)));
    else if (k < 16) round_trip(mk<MOV>(memory(k - 8, i, j), R(2)));
    else if (k < 24) round_trip(mk<MOV>(memory(k - 16, i, j), F(2)));
    else if (k < 32) round_trip(mk<MOV>(memory(k - 24, i, j), v));
    else if (k == 32) round_trip(mk<MOV>(R(1), R(2)));
    else if (k == 33) round_trip(mk<MOV>(R(1), v));
    else if (k == 34) round_trip(mk<MOV>(R(1), F(2)));
    else if (k == 35) round_trip(mk<MOV>(F(1), F(2)));
    else if (k == 36) round_trip(mk<MOV>(F(1), R(2)));
    else if (k == 37) { vf_assume(v >= 0); round_trip(mk<MOV>(F(1), Mem((uint64_t)v))); }
    else if (k == 38) round_trip(mk<MOV>(F(1), Mem(R(3))));
    else if (k < 41) { for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) round_trip(k == 39 ? mk<MOV>(anyreg(a), anyreg(b)) : mk<MOV>(Mem(anyreg(a) + 5 + anyreg(b) * 3), anyreg(a))); }
    else { round_trip(mk<EXT>(F(1), R(2))); round_trip(mk<NRW>(R(1), F(2))); round_trip(mk<FPOP>(F(3))); round_trip(mk<FPUSH>(F(3))); }
}
VF prove_lea(int k) { // CASES 5
    int64_t i = vf_i64("i"), j = vf_i64("j");
    static const int form[] = {2, 4, 5, 6, 7};
    switch (k) {
    case 0: round_trip(mk<LEA>(R(1), Mem(R(5) + i))); break;
    case 1: round_trip(mk<LEA>(R(1), Mem(R(5) + R(6)))); break;
    case 2: round_trip(mk<LEA>(R(1), Mem(R(5) + R(6) * i))); break;
    case 3: round_trip(mk<LEA>(R(1), Mem(R(5) + i + R(6)))); break;
    default: round_trip(mk<LEA>(R(1), Mem(R(5) + i + R(6) * j))); break;
    }
}
VF prove_float(int k) { // CASES 13
    uint64_t b = vf_u64("f"); double d = bits2d(b);
    vf_assume((b >> 52 & 0x7ff) != 0x7ff);     // finite: there is no text for the others
    switch (k) {
    case 0: round_trip(mk<FADD>(F(1), d)); break;  case 1: round_trip(mk<FADD>(F(1), F(2))); break;
    case 2: round_trip(mk<FSUB>(F(1), d)); break;  case 3: round_trip(mk<FSUB>(F(1), F(2))); break;
    case 4: round_trip(mk<FMUL>(F(1), d)); break;  case 5: round_trip(mk<FMUL>(F(1), F(2))); break;
    case 6: round_trip(mk<FDIV>(F(1), d)); break;  case 7: round_trip(mk<FDIV>(F(1), F(2))); break;
    case 8: round_trip(mk<FCMP>(F(1), d)); break;  case 9: round_trip(mk<FCMP>(F(1), F(2))); break;
    case 10: round_trip(mk<FPUSH>(d)); break;      case 11: round_trip(mk<MOV>(F(1), Operand(d))); break;
    default: for (double x : {0.1, -0.1, 1e300, -1e-300, 5e-324, 123456789012345680.0, 1.0 / 3, -0.0, 2.5, 1e22}) { round_trip(mk<MOV>(F(1), Operand(x))); round_trip(mk<FADD>(F(1), x)); } break;
    }
}
// ---- text as a user writes it; n is any written magnitude
static void expect(const std::string& t, const IP& want) {
    try { auto got = parse(t); vf_ensure(same(*got, *want), "the text means this instruction"); }
    catch (const ParserError&) { vf_ensure(false, "the text is a legal instruction"); }
    vf_cover("user text");
}
static void reject(const std::string& t) {
    bool ok = false;
    try { parse(t); } catch (const ParserError&) { ok = true; }
    vf_ensure(ok, "malformed text is rejected with a parse error");
    vf_cover("rejected");
}
VF prove_signs(int k) { // CASES 16
    uint64_t n = vf_u64("n"); vf_assume(n <= (uint64_t)INT64_MAX + (k % 2));
    if (k == 3 || k == 5 || k == 7 || k == 9 || k == 13) vf_assume(n <= INT64_MAX);    // "R - n" negates a written number
    int64_t p = (int64_t)n, m = (int64_t)(0 - n); std::string s = std::to_string(n), z = "-" + s;
    switch (k) {
    case 0: expect("MOV R0, " + s, mk<MOV>(R(0), p)); break;
    case 1: expect("MOV R0, " + z, mk<MOV>(R(0), m)); break;
    case 2: expect("7 ADD R1,R2+" + s + " # comment", mk<ADD>(R(1), R(2) + p)); break;
    case 3: expect("SUB R1, R2 - " + s, mk<SUB>(R(1), R(2) + m)); expect("SUB R1, R2 + " + z, mk<SUB>(R(1), R(2) + m)); break;
    case 4: expect("AND R1, [R2 + " + s + "]", mk<AND>(R(1), Mem(R(2) + p))); break;
    case 5: expect("OR R1, [R2 - " + s + "]", mk<OR>(R(1), Mem(R(2) + m))); expect("OR R1, [R2 + " + z + "]", mk<OR>(R(1), Mem(R(2) + m))); break;
    case 6: expect("MOV [R1 + R2 * " + s + "], R3", mk<MOV>(Mem(R(1) + R(2) * p), R(3))); expect("MOV [" + s + "], " + s, mk<MOV>(Mem(n), p)); break;
    case 7: expect("MOV [R1 - " + s + " + R2 * " + z + "], " + z, mk<MOV>(Mem(R(1) + m + R(2) * m), m)); break;
    case 8: expect("MOV R3, [R1 * " + s + "]", mk<MOV>(R(3), Mem(R(1) * p))); expect("LEA R3, [R1 + " + s + " + R2]", mk<LEA>(R(3), Mem(R(1) + p + R(2)))); break;
    case 9: expect("MOV R3, [R1 + R2 * " + z + "]", mk<MOV>(R(3), Mem(R(1) + R(2) * m))); expect("LEA R3, [R1 - " + s + " + R2]", mk<LEA>(R(3), Mem(R(1) + m + R(2)))); break;
    case 10: expect("CMP BP, " + s, mk<CMP>(Register::StackBasePointer(), p)); expect("PUSH " + s, mk<PUSH>(p)); expect("LOOP R0, " + s, mk<LOOP>(R(0), p)); break;
    case 11: expect("CMP SP, " + z, mk<CMP>(Register::StackPointer(), m)); expect("PUSH " + z, mk<PUSH>(m)); break;
    case 12: expect("JMP " + s, mk<JMP>(p)); expect("CALL " + s, mk<CALL>(p)); expect("JNZ [" + s + "]", mk<JNZ>(Mem(n))); break;
    case 13: expect("JLE [R0 - " + s + "]", mk<JLE>(Mem(R(0) + m))); break;
    case 14: expect("XOR R11, " + s, mk<XOR>(R(11), p)); break;
    default: expect("MUL R11, " + z, mk<MUL>(R(11), m)); break;
    }
}
VF prove_out_of_range(int k) { // CASES 4
    uint64_t n = vf_u64("n"); std::string s = std::to_string(n);
    if (k % 2 == 0) { vf_assume(n > (uint64_t)INT64_MAX); reject("MOV R0, " + s); if (k) reject("ADD R0, [R1 + " + s + "]"); }
    else { vf_assume(n > (uint64_t)INT64_MAX + 1); reject("MOV R0, -" + s); if (k == 3) reject("ADD R0, R1 - " + s); }
}
VF prove_data(int k) { // CASES 3
    // .data cells in order, then the instructions
    uint64_t a = vf_u64("a"), b = vf_u64("b"); vf_assume(a <= INT64_MAX && b <= (uint64_t)INT64_MAX + 1);
    std::string A = std::to_string(a), B = std::to_string(b), t;
    std::vector<int64_t> want;
    if (k == 0) { t = ".data\n" + A + " -" + B + "\n.text\n0 MOV R0, -" + B + "\n1 HALT\n"; want = {(int64_t)a, (int64_t)(0 - b)}; }
    else if (k == 1) { t = ".data -" + B + " \"a\\n\\\"\" " + A + " \"\"\n.text\n0 MOV R0, -" + B + "\n1 HALT"; want = {(int64_t)(0 - b), 'a', '\n', '"', 0, (int64_t)a, 0}; }
    else { t = ".text\n0 MOV R0, -" + B + "\n1 HALT\n.other x ? @ 1\n.data # c\n" + A + "\n.debug_source\nint main() {}"; want = {(int64_t)a}; }
    std::istringstream is(t);
    ::Parser p(is);
    Program prog = p.Parse();
    vf_ensure(prog.data() == want, "the data section lists exactly these cells");
    vf_ensure(prog.instructions().size() == 2, "every instruction is in the program");
    vf_ensure(same(*prog.instructions()[0], *mk<MOV>(R(0), (int64_t)(0 - b))), "the first instruction is the first line");
    vf_ensure(prog.instructions()[1]->type() == Instruction::Type::HALT, "the second instruction is the second line");
    vf_cover("data");
}
VF bounded_rejected(int k) { // CASES 3
    static const char* bad[] = {"MOV R0", "MOV R0 R1", "MOV R0, -R1", "MOV R0, --1", "MOV R0, -", "MOV 5, R0", "MOV [R1 - R2], R0", "LEA R0, [R1 - R2]", "MOV R0, [R1 + R2 * R3]", "MOV R0, [R1 * R2]",
        "MOV R0, [R1 + 1 + 2]", "MOV R0, [R1", "MOV R0, [R1 + ]", "MOV R0, []", "MOV R0, 1.5", "MOV F0, 1", "MOV F0, [R1 + 1]", "MOV [R1], [R2]", "MOV [R1], 1.5", "LEA R0, [R1]", "LEA R0, [5]",
        "ADD 5, R0", "ADD R0, F1", "ADD R0, 1.5", "ADD R0, [R1 + R2]", "ADD R0, [R1 * 2]", "ADD [R0], 1", "FADD F0, R1", "FADD F0, 1", "FADD R0, F1", "CMP R0, R1 + 1", "JMP [R0]", "CALL [R0]", "PUSH [R0]", "PUSH 1.5",
        "POP 5", "FPUSH R0", "FPUSH 5", "INC 5", "INC", "FOO R0", "HALT R0", "RET 5", "R0", "5", "", "MOV R0, 1 2", "MOV X0, 1", "EXT R0, F0", "NRW F0, R0", "PUTCHAR 5", "GETCHAR [R0]", "MOV R0, ?", "MOV X1, 1", "FPOP X", "MOV R0, [F1]", "MOV R0, \"x"};
    int n = sizeof bad / sizeof *bad;
    for (int i = k; i < n; i += 3) reject(bad[i]);
}
// pinned by the existing test suite (NativeSourceTest.StructuredTypesBasic pops into RBP), hence not repaired
VF known_register_name(int) {
    bool ok = false;
    try { parse("POP RBP"); } catch (const ParserError&) { ok = true; }
    vf_ensure(ok, "a register name without a number is rejected");
}
