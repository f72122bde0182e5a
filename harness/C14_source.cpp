// VF-SRC: t86 parser debugger
// VF-OPT: text=1
// VF-COVER: line, no line, function, scope, hidden, step, stop inside, text lines, refused, by name
#include "dbgsem.h"
#define SRC_NO_HELPERS
#include "src.h"
#include "debugger/Source/Die.h"
// lines and addresses: any addresses, any question
VF prove_lines(int k) { // CASES 2
    uint64_t a[4]; for (auto& x : a) x = vf_u64("a");
    static const size_t line[4] = {0, 3, 4, 9};
    std::map<size_t, uint64_t> m; for (int i = 0; i < 4; ++i) m[line[i]] = a[i];
    Source s;
    vf_ensure(!s.AddrToLine(a[0]) && !s.LineToAddr(0), "nothing is known without debugging information");
    s.RegisterLineMapping(LineMapping(m));
    if (k == 0) {
        uint64_t q = vf_u64("q");
        std::optional<size_t> want; for (int i = 0; i < 4; ++i) if (a[i] == q) want = line[i];
        auto got = s.AddrToLine(q);
        vf_ensure(got.has_value() == want.has_value() && (!want || *got == *want), "an address belongs to the last line that starts there");
        if (want) vf_cover("line"); else vf_cover("no line");
    } else {
        uint64_t q = vf_u64("q");
        std::optional<uint64_t> want; for (int i = 0; i < 4; ++i) if (q == line[i]) want = a[i];
        auto got = s.LineToAddr(q);
        vf_ensure(got.has_value() == want.has_value() && (!want || *got == *want), "a line starts at its address");
    }
}
// functions by address and by name
VF prove_functions(int k) { // CASES 2
    uint64_t b[2], e[2], q = vf_u64("q"); for (int i = 0; i < 2; ++i) { b[i] = vf_u64("b"); e[i] = vf_u64("e"); }
    if (k) vf_assume(e[0] <= b[1] || e[1] <= b[0]);
    auto fun = [&](const char* n, int i) { return DIE(DIE::TAG::function, {ATTR_name{n}, ATTR_begin_addr{b[i]}, ATTR_end_addr{e[i]}}, {}); };
    Source s;
    vf_ensure(!s.GetFunctionNameByAddress(q) && !s.GetFunctionAddrByName("f"), "nothing is known without debugging information");
    s.RegisterDebuggingInformation(DIE(DIE::TAG::compilation_unit, {}, {DIE(DIE::TAG::function, {ATTR_name{"half"}, ATTR_begin_addr{0}}, {}), fun("f", 0), DIE(DIE::TAG::primitive_type, {ATTR_name{"g"}, ATTR_id{0}, ATTR_size{1}}, {}), fun("g", 1)}));
    auto got = s.GetFunctionNameByAddress(q);
    bool inf = b[0] <= q && q < e[0], ing = b[1] <= q && q < e[1];
    vf_ensure(got.has_value() == (inf || ing), "an address is in a function from its first instruction up to its end");
    if (got) vf_ensure((*got == "f" && inf) || (*got == "g" && ing), "the function is one that contains the address");
    if (got) vf_cover("function");
    for (int i = 0; i < 2; ++i) { auto r = s.GetFunctionAddrByName(i ? "g" : "f"); vf_ensure(r && r->first == b[i] && r->second == e[i], "a function is found by its name"); }
    vf_ensure(!s.GetFunctionAddrByName("h") && !s.GetFunctionAddrByName("half") && !s.GetFunctionAddrByName(""), "an unknown function is not found");
}
// variables: the innermost scope that contains the instruction
VF prove_scopes(int k) { // CASES 8
    uint64_t b[3], e[3], q = vf_u64("q"); for (int i = 0; i < 3; ++i) { b[i] = vf_u64("b"); e[i] = vf_u64("e"); }
    auto var = [](const char* n, int64_t at) { return DIE(DIE::TAG::variable, {ATTR_name{n}, ATTR_type{(size_t)at}, ATTR_location_expr{{expr::Push{expr::Offset{at}}}}}, {}); };
    auto block = [&](DIE::TAG t, int i, std::vector<DIE> c) { return DIE(t, {ATTR_name{"fun"}, ATTR_begin_addr{b[i]}, ATTR_end_addr{e[i]}}, std::move(c)); };
    // declarations of the outer scope before or behind the nested one
    auto scope = [&](int i, DIE decl, DIE nested, bool behind) { std::vector<DIE> c; if (behind) { c.push_back(std::move(nested)); c.push_back(std::move(decl)); } else { c.push_back(std::move(decl)); c.push_back(std::move(nested)); } return block(DIE::TAG::scope, i, std::move(c)); };
    DIE inner = block(DIE::TAG::scope, 2, {var("x", 2), var("y", 3)});
    DIE body = scope(1, var("x", 1), std::move(inner), k & 1);
    DIE fun = block(DIE::TAG::function, 0, {std::move(body)});
    std::vector<DIE> top; if (k & 2) { top.push_back(std::move(fun)); top.push_back(var("x", 0)); } else { top.push_back(var("x", 0)); top.push_back(std::move(fun)); }
    for (size_t i = 0; i < 4; ++i) top.push_back(DIE(DIE::TAG::primitive_type, {ATTR_name{"int"}, ATTR_id{i}, ATTR_size{10 + i}}, {}));
    top.push_back(block(DIE::TAG::function, 0, {DIE(DIE::TAG::scope, {ATTR_begin_addr{0}}, {var("z", 4)})}));
    Source s; s.RegisterDebuggingInformation(DIE(DIE::TAG::compilation_unit, {}, std::move(top)));
    bool in0 = b[0] <= q && q < e[0], in1 = in0 && b[1] <= q && q < e[1], in2 = in1 && b[2] <= q && q < e[2];
    std::map<std::string, int64_t> regs{{"R0", 0}, {"BP", 0}, {"IP", (int64_t)q}}; std::vector<int64_t> mem{0};
    Native n(std::make_unique<Cells>(regs, mem));
    if (k & 4) {
        auto v = s.GetScopedVariables(q);
        vf_ensure(v.size() == (in2 ? 2u : 1u) && v.count("x") && v.count("y") == in2, "the variables are those of the scopes that contain the instruction");
        vf_cover("scope");
    } else {
        auto at = s.GetVariableLocation(n, "x"), y = s.GetVariableLocation(n, "y");
        vf_ensure(at && std::get<expr::Offset>(*at).value == (in2 ? 2 : in1 ? 1 : 0), "a name is the variable of the innermost scope");
        vf_ensure(y.has_value() == in2 && (!in2 || std::get<expr::Offset>(*y).value == 3), "a variable is known in its scope only");
        auto t = s.GetVariableTypeInformation(n, "x");
        vf_ensure(t && std::get<PrimitiveType>(*t).size == 10u + (in2 ? 2 : in1 ? 1 : 0), "and so is its type");
        vf_ensure(!s.GetVariableLocation(n, "z") && !s.GetVariableLocation(n, "fun"), "a scope without an end contains nothing");
        vf_cover("hidden");
    }
}
// the text of the line table and of the source
VF prove_line_text(int k) { // CASES 3
    if (k == 0) {
        Source s = parsed(".text\n0 MOV R0, [R1 + -1] # 5: 7\n1 HALT\n.data\n\"a.b\" 7\n.debug_line\n5: 2\n0: 2 7:0\n# 3: 3\n2 : 9223372036854775807\n5: 4\n.debug_source\nint main() {\n\n    return 0; # .debug_line\n}\n.debug_line");
        uint64_t q = vf_u64("q"), l = vf_u64("l"); 
        auto x = s.AddrToLine(q);
        std::optional<size_t> want; if (q == 2) want = 0; if (q == 0) want = 7; if (q == INT64_MAX) want = 2; if (q == 4) want = 5;
        vf_ensure(x.has_value() == want.has_value() && (!want || *x == *want), "the lines are those of the table");
        static const char* src[] = {"int main() {", "", "    return 0; # .debug_line", "}", ".debug_line"};
        auto t = s.GetLine(l);
        vf_ensure(t.has_value() == (l < 5), "the source has its lines");
        for (uint64_t i = 0; i < 5; ++i) if (t && l == i) vf_ensure(*t == src[i], "the lines are those of the source");
        vf_ensure(s.GetLines().size() == 5 && s.GetLines()[2] == src[2], "the lines are those of the source");
        uint64_t c = vf_u64("c"); vf_assume(c < 8 && l < 8);
        auto r = s.GetLinesRange(l, c); 
        uint64_t from = l < 5 ? l : 5, to = l + c < 5 ? l + c : 5;
        vf_ensure(r.size() == to - from, "a range of lines stops at the end of the source");
        for (uint64_t i = 0; i < 5; ++i) if (r.size() > i) vf_ensure(r[i] == s.GetLines()[from + i], "a range of lines");
        vf_cover("text lines");
    } else if (k == 1) {
        for (auto bad : {".debug_line\n1 2", ".debug_line\n1:", ".debug_line\n:1", ".debug_line\n-1: 2", ".debug_line\na: 2", ".debug_line\n1: R0", ".debug_line\n1: 9223372036854775809", "1: 2", ".5", ".debug_info\nDIE_nothing: { }", ".debug_info\nDIE_scope: { ATTR_nothing: 1 }", ".debug_info\nDIE_scope: { ATTR_begin_addr: R0 }",
                        ".debug_info\nDIE_scope: { ATTR_begin_addr 5 }", ".debug_info\nDIE_scope: { ATTR_id: 5", ".debug_info\nDIE_scope { }", ".debug_info\nDIE_structured_type: { ATTR_members: { 0: 1 } }", ".debug_info\nDIE_structured_type: { ATTR_members: { 0: {1: a} 1: {1: b} } }"}) {
            bool threw = false; try { parsed(bad); } catch (const ParserError&) { threw = true; }
            vf_ensure(threw, "malformed debugging information is an error"); vf_cover("refused");
        }
    } else {
        Source s = parsed(".debug_line\n0: 4\n3: 6\n.debug_info\nDIE_compilation_unit: { DIE_function: { ATTR_name: main, ATTR_begin_addr: 5, ATTR_end_addr: 9, }, DIE_structured_type: { ATTR_id: 0, }, DIE_structured_type: { ATTR_id: 1, ATTR_name: s, ATTR_size: 3, ATTR_members: { 0: {7: a}, 1: {8: b} } }, }");
        vf_ensure(s.GetAddressFromString("0") == 4 && s.GetAddressFromString("3") == 6 && s.GetAddressFromString("main") == 5, "a place is a line or a function");
        vf_ensure(s.GetAddressFromString("1", true) == 4 && s.GetAddressFromString("4", true) == 6 && s.GetAddressFromString("main", true) == 5, "lines are counted from one for users");
        vf_cover("by name");
        for (auto x : {"1", "4", "mai", "main2", "", "s", "99999999999999999999", "-1"}) vf_ensure(refused([&] { s.GetAddressFromString(x); }), "anything else is refused");
        for (auto x : {"0", "2", "5", "a"}) vf_ensure(refused([&] { s.GetAddressFromString(x, true); }), "anything else is refused");
        auto t = s.GetType(1); vf_ensure(t && !s.GetType(0) && !s.GetType(2), "types by number");
        auto& st = std::get<StructuredType>(*t);
        vf_ensure(st.name == "s" && st.size == 3 && st.members.size() == 2 && st.members[0].name == "a" && st.members[0].type_id == 7 && st.members[0].offset == 0 && st.members[1].name == "b" && st.members[1].type_id == 8 && st.members[1].offset == 1, "the members are those listed");
        vf_ensure(refused([&] { s.GetTypeSize(1000); }) && s.GetTypeSize(1) == 3, "size of a type");
    }
}
// stepping by lines in the real debugger and machine
static Source lines(std::map<size_t, uint64_t> m) { Source s; s.RegisterLineMapping(LineMapping(std::move(m))); return s; }
VF prove_step(int k) { // CASES 12
    S s; havoc(s); s.sp = 3;
    Session d([&] { Prog p;
        p.add<ADD>(r0, r1);            // 0 line 0
        p.add<INC>(r1);                // 1
        p.add<CALL>((uint64_t)5);      // 2 lines 1 and 2
        p.add<INC>(r0);                // 3
        p.halt();                      // 4 line 3
        p.add<INC>(r2);                // 5 line 5
        p.add<DEC>(r2);                // 6
        p.add<RET>();                  // 7 line 6
        return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    Source src = lines({{0, 0}, {1, 2}, {2, 2}, {3, 4}, {5, 5}, {6, 7}});
    put(n, s);
    if (k == 0) { vf_ensure(ended(Source().StepIn(n)), "without lines a step runs to the end"); return; }
    if (k == 1) { vf_ensure(ended(Source().StepOver(n)), "without lines a step runs to the end"); return; }
    if (k == 2 || k == 3) n.SetBreakpoint(1);
    if (k == 4 || k == 5) n.SetBreakpoint(6);
    if (k == 6 || k == 7) n.SetBreakpoint(0);
    if (k == 8 || k == 9) { n.SetBreakpoint(2); n.SetBreakpoint(5); if (k == 9) n.DisableSoftwareBreakpoint(5); }
    bool over = k & 1;
    auto step = [&] { return over ? src.StepOver(n) : src.StepIn(n); };
    s.r[0] = add(s.r[0], s.r[1]);
    auto e = step();
    if (k == 2 || k == 3) { vf_ensure(hit(e, 1), "a breakpoint inside a line stops the step"); same(n, s, 1, "stopped at the breakpoint"); vf_cover("stop inside"); e = step(); }
    s.r[1] = add(s.r[1], 1);
    vf_ensure(stepped(e), "a step goes to the next line"); same(n, s, 2, "exactly the instructions of the line were executed"); vf_cover("step");
    if (k == 10) { n.SetWatchpointWrite(2); s.m[2] = 3; s.sp = 2; vf_ensure(watched(src.StepOver(n), 2), "a watchpoint stops the step"); same(n, s, 5, "stopped behind the store"); return; }
    s.m[2] = 3;
    e = step();
    if (!over) {
        s.sp = 2;
        vf_ensure(stepped(e), "a step goes into a call"); same(n, s, 5, "at the first line of the function");
        s.r[2] = add(s.r[2], 1); e = step();
        if (k == 4) { vf_ensure(hit(e, 6), "a breakpoint inside a line stops the step"); same(n, s, 6, "stopped at the breakpoint"); e = step(); }
        s.r[2] = sub(s.r[2], 1);
        vf_ensure(stepped(e), "a step goes to the next line"); same(n, s, 7, "exactly the instructions of the line were executed");
        e = step(); s.sp = 3;
    } else if (k == 5) {
        s.sp = 2; s.r[2] = add(s.r[2], 1);
        vf_ensure(hit(e, 6), "a breakpoint in a function stepped over stops"); same(n, s, 6, "stopped at the breakpoint");
        s.r[2] = sub(s.r[2], 1); vf_ensure(stepped(step()), "step"); same(n, s, 7, "line"); e = step(); s.sp = 3;
    }
    s.r[0] = add(s.r[0], 1);
    vf_ensure(stepped(e), "a step over a call, or a return, goes on to the next line"); same(n, s, 4, "exactly these instructions were executed");
    vf_ensure(ended(step()), "a step can reach the end");
    same(n, s, 5, "final state");
}
// the line reached depends on the data
VF prove_step_jump(int k) { // CASES 4
    S s; havoc(s); s.sp = 3;
    Session d([&] { Prog p;
        p.add<CMP>(r0, r1);            // 0 line 0
        p.add<JZ>((uint64_t)4);        // 1
        p.add<INC>(r2);                // 2
        p.add<INC>(r2);                // 3 line 1
        p.add<INC>(r0);                // 4
        p.add<INC>(r0);                // 5 line 2
        p.halt(); return p.make(); }(), 3, 1, 3);
    Native& n = *d.n;
    Source src = lines({{0, 0}, {1, 3}, {2, 5}});
    put(n, s);
    if (k & 2) n.SetBreakpoint(3);
    auto e = k & 1 ? src.StepOver(n) : src.StepIn(n);
    vf_ensure(stepped(e), "a step goes to the next line");
    if (s.r[0] == s.r[1]) { s.r[0] = add(s.r[0], 1); same(n, s, 5, "the line reached"); }
    else { s.r[2] = add(s.r[2], 1); same(n, s, 3, "the line reached"); }
    vf_cover("step");
}
