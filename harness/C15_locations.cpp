// VF-SRC: t86 parser debugger
// VF-OPT: text=1
// VF-COVER: location, register, refused, text
#include "src.h"
// Location programs against the documented stack machine: every program of up to four instructions, all operands and
// all register and memory contents.
enum { iPush, iReg, iNoReg, iAdd, iBase, iDeref, NI };
struct Ref { bool reg; std::string name; int64_t v; };
struct Fix {
    std::map<std::string, int64_t> regs; std::vector<int64_t> mem; Native n;
    Fix() : regs{{"R0", vf_i64("r0")}, {"BP", vf_i64("bp")}, {"SP", vf_i64("sp")}, {"IP", 0}}, mem{vf_i64("m0"), vf_i64("m1")}, n(std::make_unique<Cells>(regs, mem)) {}
};
static bool value(Fix& f, const Ref& x, int64_t& v) {
    if (!x.reg) { v = x.v; return true; }
    auto it = f.regs.find(x.name); if (it == f.regs.end()) return false;
    v = it->second; return true;
}
static void check(Fix& f, const std::vector<int>& kinds, const std::vector<int64_t>& op, Source* src = nullptr) {
    std::vector<expr::LocExpr> prog;
    std::vector<Ref> st; bool ok = true;
    for (size_t i = 0; i < kinds.size(); ++i) switch (kinds[i]) {
    case iPush: prog.push_back(expr::Push{expr::Offset{op[i]}}); st.push_back({false, "", op[i]}); break;
    case iReg: prog.push_back(expr::Push{expr::Register{"R0"}}); st.push_back({true, "R0", 0}); break;
    case iNoReg: prog.push_back(expr::Push{expr::Register{"R9"}}); st.push_back({true, "R9", 0}); break;
    case iBase: prog.push_back(expr::FrameBaseRegisterOffset{op[i]}); st.push_back({false, "", add(f.regs.at("BP"), op[i])}); break;
    case iAdd: {
        prog.push_back(expr::Add{});
        if (!ok) break;
        int64_t a, b;
        if (st.size() < 2 || !value(f, st[st.size() - 1], a) || !value(f, st[st.size() - 2], b)) { ok = false; break; }
        st.pop_back(); st.back() = {false, "", add(a, b)}; break; }
    case iDeref: {
        prog.push_back(expr::Dereference{});
        if (!ok) break;
        int64_t a;
        if (st.empty() || !value(f, st.back(), a) || (a != 0 && a != 1)) { ok = false; break; }
        st.back() = {false, "", a == 0 ? f.mem[0] : f.mem[1]}; break; }
    }
    if (st.empty()) ok = false;
    expr::Location got;
    bool r = refused([&] { got = src ? *src->GetVariableLocation(f.n, "a") : ExpressionInterpreter::Interpret(prog, f.n); });
    vf_ensure(r == !ok, "a program is refused exactly if an operand is missing or cannot be read");
    if (!ok) { vf_cover("refused"); return; }
    if (auto reg = std::get_if<expr::Register>(&got)) { vf_ensure(st.back().reg && reg->name == st.back().name, "the location is the register on the top of the stack"); vf_cover("register"); }
    else { vf_ensure(!st.back().reg && std::get<expr::Offset>(got).value == st.back().v, "the location is the address on the top of the stack"); vf_cover("location"); }
}
VF bounded_program(int k) { // CASES 43
    Fix f; std::vector<int64_t> op; for (int i = 0; i < 5; ++i) op.push_back(vf_i64("op"));
    if (k == 42) { check(f, {}, op); return; }
    if (k >= 36) { check(f, {k - 36}, op); return; }
    std::vector<int> p{k / NI, k % NI};
    int third = pick(NI + 1);
    if (third < NI) {
        p.push_back(third);
        int fourth = pick(NI + 1);
        if (fourth < NI) {
            p.push_back(fourth);
#ifdef VF_THOROUGH
            int fifth = pick(NI + 1); if (fifth < NI) p.push_back(fifth);
#endif
        }
    }
    check(f, p, op);
}
// the same programs written as text in the debugging information of a variable
static const struct { const char* text; std::vector<int> kinds; std::vector<int64_t> op; } texts[] = {
    {"`BASE_REG_OFFSET -2`", {iBase}, {-2}},
    {"`BASE_REG_OFFSET 9223372036854775807`", {iBase}, {INT64_MAX}},
    {"[BASE_REG_OFFSET -9223372036854775808]", {iBase}, {INT64_MIN}},
    {"`PUSH R0`", {iReg}, {0}},
    {"`PUSH 7`", {iPush}, {7}},
    {"[ PUSH -3 ]", {iPush}, {-3}},
    {"[PUSH 0; PUSH R0; ADD]", {iPush, iReg, iAdd}, {0, 0, 0}},
    {"[PUSH R0;PUSH -9223372036854775808;ADD;]", {iReg, iPush, iAdd}, {0, INT64_MIN, 0}},
    {"[BASE_REG_OFFSET 1; DEREFERENCE]", {iBase, iDeref}, {1, 0}},
    {"[PUSH 5; PUSH R0; DEREFERENCE; ADD]", {iPush, iReg, iDeref, iAdd}, {5, 0, 0, 0}},
    {"[BASE_REG_OFFSET 0; DEREFERENCE; PUSH 3; ADD]", {iBase, iDeref, iPush, iAdd}, {0, 0, 3, 0}},
    {"[PUSH R0; DEREFERENCE; DEREFERENCE]", {iReg, iDeref, iDeref}, {0, 0, 0}},
    {"[ADD]", {iAdd}, {0}},
    {"[PUSH R9; PUSH 1; ADD]", {iNoReg, iPush, iAdd}, {0, 1, 0}},
};
static const char* bad[] = {"PUSH 1", "[PUSH]", "[PUSH 1 PUSH 2]", "[POP]", "[PUSH [1]]", "`PUSH 9223372036854775809`", "[BASE_REG_OFFSET R0]", "[PUSH 1; 2]", "[BASE_REG_OFFSET - - 1]"};
static Source source(const std::string& text) {
    return parsed(".debug_info\nDIE_compilation_unit: { DIE_variable: { ATTR_name: a, ATTR_type: 0, ATTR_location: " + text + ", }, }");
}
VF prove_text(int k) { // CASES 16
    Fix f;
    if (k == 14) {
        for (auto t : bad) {
            bool threw = false;
            try { source(t); } catch (const ParserError&) { threw = true; }
            vf_ensure(threw, "a malformed location is an error");
        }
        return;
    }
    if (k == 15) {
        for (auto t : {"[]", "``"}) vf_ensure(!source(t).GetVariableLocation(f.n, "a"), "an empty program is an unknown location");
        vf_ensure(!source("`PUSH 1`").GetVariableLocation(f.n, "b"), "an unknown variable has no location");
        return;
    }
    Source s = source(texts[k].text);
    check(f, texts[k].kinds, texts[k].op, &s);
    vf_cover("text");
}
