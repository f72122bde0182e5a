// VF-SRC: t86 parser debugger
// VF-OPT: text=1
// VF-COVER: integers, floats, chars, pointers, loads, out of range, assigned, refused, tree, history, shown
#include "src.h"
// Typed variables over arbitrary memory and registers, against C semantics of the documented expression grammar.
static const char* info = R"(.debug_info
DIE_compilation_unit: {
DIE_primitive_type: { ATTR_name: int, ATTR_id: 0, ATTR_size: 1, },
DIE_primitive_type: { ATTR_name: float, ATTR_id: 1, ATTR_size: 1, },
DIE_primitive_type: { ATTR_name: char, ATTR_id: 2, ATTR_size: 1, },
DIE_pointer_type: { ATTR_type: 0, ATTR_size: 1, ATTR_id: 3, },
DIE_structured_type: { ATTR_name: "struct P", ATTR_size: 2, ATTR_id: 4, ATTR_members: { 0: {0: x}, 1: {1: f}, }, },
DIE_pointer_type: { ATTR_type: 4, ATTR_size: 1, ATTR_id: 5, },
DIE_array_type: { ATTR_type: 0, ATTR_size: 3, ATTR_id: 6, },
DIE_array_type: { ATTR_type: 4, ATTR_size: 2, ATTR_id: 7, },
DIE_array_type: { ATTR_type: 0, ATTR_size: 2, ATTR_id: 8, },
DIE_structured_type: { ATTR_name: "struct Q", ATTR_size: 5, ATTR_id: 9, ATTR_members: { 0: {6: a}, 3: {4: in}, }, },
DIE_pointer_type: { ATTR_type: 2, ATTR_size: 1, ATTR_id: 10, },
DIE_function: { ATTR_name: main, ATTR_begin_addr: 0, ATTR_end_addr: 10, DIE_scope: { ATTR_begin_addr: 0, ATTR_end_addr: 10,
DIE_variable: { ATTR_name: i, ATTR_type: 0, ATTR_location: `PUSH 0`, },
DIE_variable: { ATTR_name: j, ATTR_type: 0, ATTR_location: `BASE_REG_OFFSET 0`, },
DIE_variable: { ATTR_name: f, ATTR_type: 1, ATTR_location: `PUSH 2`, },
DIE_variable: { ATTR_name: g, ATTR_type: 1, ATTR_location: [PUSH BP; PUSH 2; ADD], },
DIE_variable: { ATTR_name: c, ATTR_type: 2, ATTR_location: `PUSH 4`, },
DIE_variable: { ATTR_name: d, ATTR_type: 2, ATTR_location: `PUSH 5`, },
DIE_variable: { ATTR_name: s, ATTR_type: 4, ATTR_location: `PUSH 6`, },
DIE_variable: { ATTR_name: t, ATTR_type: 4, ATTR_location: `BASE_REG_OFFSET 7`, },
DIE_variable: { ATTR_name: sa, ATTR_type: 7, ATTR_location: `PUSH 6`, },
DIE_variable: { ATTR_name: a, ATTR_type: 6, ATTR_location: `PUSH 8`, },
DIE_variable: { ATTR_name: b, ATTR_type: 8, ATTR_location: `PUSH 9`, },
DIE_variable: { ATTR_name: ip, ATTR_type: 3, ATTR_location: `PUSH 11`, },
DIE_variable: { ATTR_name: jp, ATTR_type: 3, ATTR_location: `PUSH R2`, },
DIE_variable: { ATTR_name: sp, ATTR_type: 5, ATTR_location: `PUSH R0`, },
DIE_variable: { ATTR_name: sq, ATTR_type: 5, ATTR_location: `PUSH R2`, },
DIE_variable: { ATTR_name: ri, ATTR_type: 0, ATTR_location: `PUSH R1`, },
DIE_variable: { ATTR_name: q, ATTR_type: 9, ATTR_location: `PUSH 3`, },
DIE_variable: { ATTR_name: str, ATTR_type: 10, ATTR_location: `PUSH R1`, },
DIE_variable: { ATTR_name: lost, ATTR_type: 0, ATTR_location: [], },
DIE_variable: { ATTR_name: typeless, ATTR_type: 77, ATTR_location: `PUSH 0`, },
} } })";
static const int M = 12; // i=0 j=1 f=2 g=3 c=4 d=5 s=6 t=8 sa=6 a=8 b=9 ip=11 q=3(a=3..5, in=6)
struct Fix {
    std::map<std::string, int64_t> regs; std::vector<int64_t> mem; Native n; Source s; TypedValue v; size_t idx = 0;
    Fix() : regs{{"R0", vf_i64("r0")}, {"R1", vf_i64("r1")}, {"R2", vf_i64("r2")}, {"BP", 1}, {"IP", 5}}, n(nullptr), s(parsed(info)) {
        for (int i = 0; i < M; ++i) mem.push_back(vf_i64("m"));
        n = Native(std::make_unique<Cells>(regs, mem));
    }
    bool ev(const std::string& e) { return !refused([&] { auto r = s.EvaluateExpression(n, e); v = r.first; idx = r.second; }); }
    template <class T> const T& is() { vf_ensure(std::holds_alternative<T>(v), "the value has the type of the expression"); return std::get<T>(v); }
    void integer(const std::string& e, int64_t w) { vf_ensure(ev(e), "evaluated"); vf_ensure(is<IntegerValue>().value == w, "the value of the expression"); }
    void number(const std::string& e, double w) { vf_ensure(ev(e), "evaluated"); double x = is<FloatValue>().value; vf_ensure(w != w ? x != x : d2bits(x) == d2bits(w), "the value of the expression"); }
    void pointer(const std::string& e, uint64_t w, size_t to) { vf_ensure(ev(e), "evaluated"); auto& x = is<PointerValue>(); vf_ensure(x.value == w && x.type.type_id == to, "the value of the expression"); }
    void refuse(const std::string& e) { auto m = mem; auto r = regs; vf_ensure(!ev(e), "refused"); same(m, r); }
    void same(const std::vector<int64_t>& m, const std::map<std::string, int64_t>& r) {
        for (int i = 0; i < M; ++i) vf_ensure(mem[i] == m[i], "no other cell changes");
        for (auto& [x, y] : r) vf_ensure(regs.at(x) == y, "no other register changes");
    }
    int64_t p(uint64_t a) { for (int i = 0; i < M - 1; ++i) if (a == (uint64_t)i) return mem[i]; return mem[M - 1]; }
};
static const char* ops[] = {"+", "-", "*", "/", "%", "==", "!=", "<=", ">=", ">", "<", "&&", "||", "&", "|", "^", "<<", ">>"};
template <class T> static int64_t cmp(int op, T x, T y) {
    switch (op) { case 5: return x == y; case 6: return x != y; case 7: return x <= y; case 8: return x >= y; case 9: return x > y; case 10: return x < y; case 11: return (x != 0) & (y != 0); default: return (x != 0) | (y != 0); }
}
static bool arith(int op, int64_t x, int64_t y, int64_t& r) {
    switch (op) {
    case 0: r = add(x, y); return true;
    case 1: r = sub(x, y); return true;
    case 2: r = (int64_t)((uint64_t)x * (uint64_t)y); return true;
    case 3: case 4: if (y == 0 || (x == INT64_MIN && y == -1)) return false; r = op == 3 ? x / y : x % y; return true;
    case 13: r = x & y; return true;
    case 14: r = x | y; return true;
    case 15: r = x ^ y; return true;
    case 16: vf_assume((uint64_t)y < 64); r = (int64_t)((uint64_t)x << y); return true;
    case 17: vf_assume((uint64_t)y < 64); r = x >> y; return true;
    default: r = cmp(op, x, y); return true;
    }
}
VF prove_int(int k) { // CASES 18
    Fix f; int64_t r;
    bool ok = arith(k, f.mem[0], f.mem[1], r);
    std::string e = std::string("i ") + ops[k] + " j";
    if (ok) { f.integer(e, r); vf_cover("integers"); } else f.refuse(e);
    f.refuse("(" + e + ") = 3");
    if (k == 0) { int64_t x = f.mem[0]; f.integer("-i", sub(0, x)); f.integer("!i", x == 0); f.integer("--i", x); f.integer("!!ri", f.regs.at("R1") != 0); f.integer("i", x); f.integer("9223372036854775807", INT64_MAX); }
}
VF prove_float(int k) { // CASES 18
    Fix f; double x = bits2d(f.mem[2]), y = bits2d(f.mem[3]);
    std::string e = std::string("f ") + ops[k] + " g";
    switch (k) {
    case 0: f.number(e, x + y); break;
    case 1: f.number(e, x - y); break;
    case 2: f.number(e, x * y); break;
    case 3: if (y == 0) f.refuse(e); else f.number(e, x / y); break;
    case 4: case 13: case 14: case 15: case 16: case 17: f.refuse(e); break;
    default: f.integer(e, cmp(k, x, y));
    }
    if (k == 5) { f.number("f", x); f.number("2.5", 2.5); f.number("0.125", 0.125); f.integer("f < 1.5", x < 1.5); }
    vf_cover("floats");
}
VF prove_char(int k) { // CASES 18
    Fix f; signed char x = (signed char)f.mem[4], y = (signed char)f.mem[5];
    if (k >= 16) vf_assume(y >= 0 && y < 24 && x >= 0);
    int64_t r; bool ok = arith(k, x, y, r);
    std::string e = std::string("c ") + ops[k] + " d";
    if (ok && k != 1) { f.integer(e, r); vf_cover("chars"); } else f.refuse(e);
    if (k == 0) { vf_ensure(f.ev("c") && f.is<CharValue>().value == (char)x, "a char is the low byte of its cell"); vf_ensure(f.ev("!d") && f.is<CharValue>().value == (y == 0), "negation of a char"); }
}
VF prove_pointer(int k) { // CASES 18
    Fix f; uint64_t p = f.mem[11], q = f.regs.at("R2"), r = f.regs.at("R0"); int64_t i = f.mem[0];
    switch (k) {
    case 0: f.pointer("ip + i", p + i, 0); f.pointer("i + ip", p + i, 0); f.pointer("sp + i", r + 2 * i, 4); f.pointer("i + sp", r + 2 * i, 4); f.refuse("ip + jp"); f.refuse("ip + f"); break;
    case 1: f.pointer("ip - i", p - i, 0); f.pointer("sp - i", r - 2 * i, 4); f.refuse("i - ip"); f.refuse("ip - sp"); f.refuse("ip - 1.5"); break;
    case 2: f.integer("ip - jp", (int64_t)(p - q)); f.pointer("ip", p, 0); f.pointer("sp", r, 4); break;
    case 3: f.integer("sp - sq", (int64_t)(r - q) / 2); break;
    case 4: f.pointer("sp + (sq - sp)", r + 2 * ((int64_t)(q - r) / 2), 4); break;
    case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 12: f.integer(std::string("ip ") + ops[k] + " jp", cmp(k, p, q)); break;
    default: f.refuse(std::string("ip ") + ops[k] + " jp"); f.refuse(std::string("ip ") + ops[k] + " 1"); f.refuse("-ip"); f.refuse("*i"); f.refuse("ip * 2"); break;
    }
    vf_cover("pointers");
}
// loads through pointers, members and elements, wherever they point
VF prove_load(int k) { // CASES 16
    Fix f; uint64_t p = f.mem[11], r = f.regs.at("R0"); int64_t i = f.mem[0], j = f.mem[1]; auto m = f.mem; auto g = f.regs;
    auto at = [&](const char* e, uint64_t a) { if (a < (uint64_t)M) { f.integer(e, f.p(a)); vf_cover("loads"); } else { f.refuse(e); vf_cover("out of range"); } };
    switch (k) {
    case 0: at("*ip", p); break;
    case 1: at("ip[j]", p + j); break;
    case 2: at("*(ip - j)", p - j); break;
    // the whole structure is read
    case 3: if (r == (uint64_t)M - 1) f.refuse("sp->x"); else at("sp->x", r); break;
    case 4: { uint64_t a = r + 1; if (a >= 1 && a < (uint64_t)M) f.number("(*sp).f", bits2d(f.p(a))); else f.refuse("(*sp).f"); } break;
    case 5: { uint64_t a = r + 2 * j; if (a < (uint64_t)M - 1) f.integer("sp[j].x", f.p(a)); else f.refuse("sp[j].x"); } break;
    case 6: if (i >= 0 && i < 3) f.integer("a[i]", m[8 + i]); else f.refuse("a[i]"); break;
    case 7: if (i >= 0 && i < 2) f.integer("sa[i].x", m[6 + 2 * i]); else f.refuse("sa[i].x"); break;
    case 8: f.integer("s.x", m[6]); f.number("s.f", bits2d(m[7])); f.integer("t.x", m[8]); f.number("sa[1].f", bits2d(m[9])); f.refuse("s.y"); break;
    case 9: f.integer("q.in.x", m[6]); f.number("q.in.f", bits2d(m[7])); f.integer("q.a[2]", m[5]); f.refuse("q.x"); break;
    case 10: if (j >= 0 && j < 3) f.integer("q.a[j]", m[3 + j]); else f.refuse("q.a[j]"); break;
    case 11: f.integer("ri", g.at("R1")); f.integer("j", j); f.integer("b[1]", m[10]); f.refuse("b[2]"); f.refuse("a[0 - 1]"); f.refuse("a[1.0]"); f.refuse("a[ip]"); f.refuse("i[0]"); break;
    case 12: vf_ensure(f.ev("a") && f.is<ArrayValue>().members.size() == 3 && f.is<ArrayValue>().begin_address == 8, "array");
             for (int x = 0; x < 3; ++x) vf_ensure(std::get<IntegerValue>(f.is<ArrayValue>().members[x]).value == m[8 + x], "array"); break;
    case 13: vf_ensure(f.ev("s") && f.is<StructuredValue>().members.size() == 2 && f.is<StructuredValue>().name == "struct P", "structure");
             vf_ensure(std::get<IntegerValue>(f.is<StructuredValue>().members.at("x")).value == m[6], "structure"); break;
    case 14: f.refuse("lost"); f.refuse("typeless"); f.refuse("unknown"); f.refuse("x"); f.refuse("main"); break;
    case 15: if (m[9] >= 0 && m[9] < 3) f.integer("a[a[1]]", m[8 + m[9]]); else f.refuse("a[a[1]]"); break;
    }
    f.same(m, g);
}
VF prove_assign(int k) { // CASES 20
    Fix f; uint64_t p = f.mem[11], r = f.regs.at("R0"); int64_t i = f.mem[0], j = f.mem[1]; auto m = f.mem; auto g = f.regs;
    auto set = [&](const char* e, uint64_t a, int64_t v, bool in) {
        if (!in) { f.refuse(e); vf_cover("out of range"); return; }
        f.integer(e, v); for (int x = 0; x < M; ++x) if (a == (uint64_t)x) m[x] = v;
        vf_cover("assigned");
    };
    switch (k) {
    case 0: set("i = j", 0, j, true); break;
    case 1: set("a[i] = j", 8 + i, j, i >= 0 && i < 3); break;
    case 2: set("*ip = j", p, j, p < (uint64_t)M); break;
    case 3: set("sp->x = j", r, j, r < (uint64_t)M - 1); break;
    case 4: set("ip[1] = i", p + 1, i, p + 1 < (uint64_t)M); break;
    case 5: set("sa[1].x = i + j", 8, add(i, j), true); break;
    case 6: set("q.a[1] = 77", 4, 77, true); break;
    case 7: f.integer("ri = j", j); g["R1"] = j; break;
    case 8: f.pointer("sp = sp + j", r + 2 * j, 4); g["R0"] = r + 2 * j; break;
    case 9: f.pointer("ip = jp", g.at("R2"), 0); m[11] = g.at("R2"); break;
    case 10: f.number("f = g", bits2d(m[3])); if (bits2d(m[3]) == bits2d(m[3])) m[2] = m[3]; else { double w = bits2d(f.mem[2]); vf_ensure(w != w, "not a number"); m[2] = f.mem[2]; } break;
    case 11: f.number("s.f = 2.5", 2.5); m[7] = d2bits(2.5); break;
    case 12: vf_ensure(f.ev("c = d") && f.is<CharValue>().value == (char)m[5] && (char)f.mem[4] == (char)m[5], "char"); m[4] = f.mem[4]; break;
    case 13: vf_assume(bits2d(m[9]) == bits2d(m[9])); vf_ensure(f.ev("s = t"), "structure"); m[6] = m[8]; m[7] = m[9]; break;
    case 14: vf_ensure(f.ev("a = q.a"), "array"); m[8] = m[3]; m[9] = m[4]; m[10] = m[5]; break;
    case 15: vf_assume(bits2d(m[7]) == bits2d(m[7])); vf_ensure(f.ev("sa[1] = sa[0]"), "element"); m[8] = m[6]; m[9] = m[7]; break;
    case 16: f.integer("(i = j) + 1", add(j, 1)); m[0] = j; break;
    case 17: f.integer("i", i); f.integer("$0 = j", j); m[0] = j; break;
    case 18: vf_assume(r < (uint64_t)M - 1 && bits2d(m[7]) == bits2d(m[7])); vf_ensure(f.ev("*sp = s"), "structure"); for (int x = 0; x < M - 1; ++x) if (r == (uint64_t)x) { int64_t u = m[6], v = m[7]; m[x] = u; m[x + 1] = v; } break;
    case 19: f.integer("s.x = 5", 5); m[6] = 5; f.integer("s.x", 5); f.integer("sa[0].x + q.in.x", 10); break;
    }
    f.same(m, g);
}
static const char* bad[] = {"i = f", "f = 1", "f = i", "i = c", "c = 1", "c = i", "i = ip", "ip = i", "ip = sp", "ip = 0", "a = b", "s = i", "i = s", "s = q", "q = s", "a = i", "a = ip", "1 = 2", "i + j = 3", "-i = 3", "1.5 = f", "(a[0] + 1) = 2", "$0 = 1",
    "s.y", "i.x", "i->x", "s->x", "sp.x", "*i", "*f", "*s", "*a", "a + 1", "s + 1", "s == t", "a == a", "-f", "!f", "-s", "f & g", "i + f", "f + i", "i + c", "c + i", "i == f", "i && f", "i == ip", "ip == sq + 0.5", "c - i",
    "", " ", "i +", "+ i", "(i", "i)", "i j", "i 1", "1 2", "a[0", "a]", "a[]", "s.", "s.1", "sp->", "sp->1", "@", "i @ j", "i + @", "$", "$i", "$-1", "$0", "$99999999999", "9223372036854775809", "i ? j : 1", "~i", "i++", "i += 1", "&i", "(int) i", "i,", "i;", "i = ", "= i", "\"a\"", "\"a", "i !", "i !! j", "()", "i <> j", "#", "i . x", "1.x"};
VF prove_refused(int k) { // CASES 30
    Fix f;
    for (size_t x = k; x < sizeof bad / sizeof *bad; x += 30) {
        if (std::string(bad[x]) == "#" ) continue;
        f.refuse(bad[x]);
    }
    vf_cover("refused");
}
// generated expressions, printed with the parentheses the documented grammar needs and some more, with any spacing
static uint64_t sd;
struct T { int op; int64_t lit; int leaf; T *l, *r; };
static int level(int op) { // binding of the operators, weakest first: equality, logical, comparison, shifts, bits, sum, product
    switch (op) { case 5: case 6: return 1; case 11: case 12: return 2; case 7: case 8: case 9: case 10: return 3; case 16: case 17: return 4; case 13: case 14: case 15: return 5; case 0: case 1: return 6; case 2: return 7; default: return 9; }
}
static T* tree(int depth) {
    static const int usable[] = {0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17};
    if (depth == 0 || rnd(sd) % 6 == 0) { if (rnd(sd) % 4 == 0) return new T{18 /* unary */, 0, (int)(rnd(sd) % 3), depth ? tree(depth - 1) : new T{20, 0, 0, 0, 0}, 0}; if (rnd(sd) % 3 == 0) return new T{19, (int64_t)(rnd(sd) % 100), 0, 0, 0}; return new T{20, 0, (int)(rnd(sd) % 6), 0, 0}; }
    int op = usable[rnd(sd) % 16];
    T* r = op >= 16 ? new T{19, (int64_t)(rnd(sd) % 64), 0, 0, 0} : tree(depth - 1);
    return new T{op, 0, 0, tree(depth - 1), r};
}
static const char* leaves[] = {"i", "j", "a[1]", "s.x", "q.a[0]", "sa[1].x"};
static int64_t value(Fix& f, T* t) {
    static const int cell[] = {0, 1, 9, 6, 3, 8};
    if (t->op == 19) return t->lit;
    if (t->op == 20) return f.mem[cell[t->leaf]];
    if (t->op == 18) { int64_t x = value(f, t->l); return t->leaf == 0 ? sub(0, x) : t->leaf == 1 ? x == 0 : x; }
    int64_t x = value(f, t->l), y = value(f, t->r), r; arith(t->op, x, y, r); return r;
}
static std::string sp() { static const char* w[] = {"", " ", "", "  ", "\t", " "}; return w[rnd(sd) % 6]; }
static std::string text(T* t, int need) {
    std::string s; int l = level(t->op); if (t->op == 18) l = 8;
    if (t->op == 19) s = std::to_string(t->lit);
    else if (t->op == 20) s = leaves[t->leaf];
    else if (t->op == 18) s = (t->leaf == 0 ? "-" : t->leaf == 1 ? "!" : "--") + sp() + text(t->l, 8);
    else s = text(t->l, l) + sp() + ops[t->op] + sp() + text(t->r, l + 1);
    if (l < need || rnd(sd) % 8 == 0) s = "(" + sp() + s + sp() + ")";
    return s;
}
VF bounded_tree(int k) { // CASES 40 320
    sd = seeded(k); Fix f; T* t = tree(2 + k % 3);
    auto m = f.mem; auto g = f.regs;
    std::string e = sp() + text(t, 1) + sp();
    f.integer(e, value(f, t));
    f.same(m, g);
    vf_cover("tree");
}
// results are numbered from zero in the order they were computed and keep their value
VF prove_history(int k) { // CASES 3
    Fix f; int64_t i = f.mem[0], j = f.mem[1];
    f.refuse("$0");
    f.integer("i", i); vf_ensure(f.idx == 0, "the first result is $0");
    f.refuse("i +"); f.refuse("$1");
    f.integer("j", j); vf_ensure(f.idx == 1, "a refused expression is not counted");
    if (k == 0) { f.integer("$0 + $1", add(i, j)); f.integer("$2 - $0", j); vf_ensure(f.idx == 3, "numbering"); }
    if (k == 1) { f.integer("i = 7", 7); f.integer("$0", i); f.integer("i", 7); f.integer("$1 = $0", i); vf_ensure(f.mem[1] == i && f.mem[0] == 7, "assigned through a result"); }
    if (k == 2) { auto r = f.s.EvaluateExpression(f.n, "i + 1", false); vf_ensure(std::get<IntegerValue>(r.first).value == add(i, 1), "value"); f.refuse("$2"); f.integer("$1", j); vf_ensure(f.idx == 2, "numbering"); }
    vf_cover("history");
}
// values as they are shown
VF prove_shown(int k) { // CASES 9
    Fix f; auto m = f.mem;
    auto shown = [&](const char* e, const std::string& v, const char* type) {
        vf_ensure(f.ev(e), "evaluated");
        vf_ensure(f.s.TypedValueToString(f.n, f.v) == v, "the value shown"); vf_ensure(f.s.TypedValueTypeToString(f.v) == type, "the type shown");
        vf_cover("shown");
    };
    auto n = [](int64_t x) { return std::to_string(x); };
    switch (k) {
    case 0: shown("i", n(m[0]), "int"); shown("ri", n(f.regs.at("R1")), "int"); shown("-5", "-5", "int"); break;
    case 1: shown("ip", fmt::format("{}", (uint64_t)m[11]), "int*"); shown("sp", fmt::format("{}", (uint64_t)f.regs.at("R0")), "struct P*"); break;
    case 2: shown("a", "[" + n(m[8]) + ", " + n(m[9]) + ", " + n(m[10]) + "]", "int[]"); break;
    case 3: shown("s", "{ f = " + std::to_string(bits2d(m[7])) + ", x = " + n(m[6]) + " }", "struct P"); break;
    case 4: m[7] = f.mem[7] = d2bits(0.5); m[9] = f.mem[9] = d2bits(-2.25); shown("sa", "[{ f = " + std::to_string(bits2d(m[7])) + ", x = " + n(m[6]) + " }, { f = " + std::to_string(bits2d(m[9])) + ", x = " + n(m[8]) + " }]", "struct P[]"); break;
    case 5: m[7] = f.mem[7] = d2bits(0.5); shown("q", "{ a = [" + n(m[3]) + ", " + n(m[4]) + ", " + n(m[5]) + "], in = { f = " + std::to_string(bits2d(m[7])) + ", x = " + n(m[6]) + " } }", "struct Q"); break;
    case 6: f.mem[3] = 'H'; f.mem[4] = '\n'; f.mem[5] = 'i'; f.mem[6] = '\t'; f.mem[7] = 0; f.regs["R1"] = 3; shown("str", "3 \"H\\ni\\t\"", "char*"); break;
    case 7: f.mem[4] = 'x'; shown("c", "'x'", "char"); break;
    case 8: for (int i = 7; i < M; ++i) f.mem[i] = 'z'; f.regs["R1"] = 7; vf_ensure(f.ev("str"), "evaluated"); vf_ensure(refused([&] { f.s.TypedValueToString(f.n, f.v); }), "a string that does not end in memory is refused"); break;
    }
}
