#pragma once
// A process whose registers and memory cells hold arbitrary values, behind the real debugger.  It follows the contract
// of the process interface proved in C13: reads and writes are exact, and refused outside the memory.
#include "vm.h"
#include <sstream>
#include "debugger/Native.h"
#include "debugger/DebuggerError.h"
#include "debugger/Source/Source.h"
#include "debugger/Source/Parser.h"
#include "debugger/Source/ExpressionInterpreter.h"
struct Cells : Process {
    std::map<std::string, int64_t>& regs; std::vector<int64_t>& mem;
    Cells(std::map<std::string, int64_t>& r, std::vector<int64_t>& m) : regs(r), mem(m) {}
    void WriteText(uint64_t, const std::vector<std::string>&) override {}
    std::vector<std::string> ReadText(uint64_t, size_t n) override { return std::vector<std::string>(n, "NOP"); }
    void WriteMemory(uint64_t a, const std::vector<int64_t>& d) override {
        uint64_t n = d.size();
        if (a > mem.size() || n > mem.size() - a) throw DebuggerError("out of range");
        for (uint64_t x = 0; x + n <= mem.size(); ++x) if (a == x) { for (uint64_t i = 0; i < n; ++i) mem[x + i] = d[i]; return; }
    }
    std::vector<int64_t> ReadMemory(uint64_t a, size_t n) override {
        if (a > mem.size() || n > mem.size() - a) throw DebuggerError("out of range");
        std::vector<int64_t> r;
        for (uint64_t x = 0; x + n <= mem.size(); ++x) if (a == x) { for (uint64_t i = 0; i < n; ++i) r.push_back(mem[x + i]); break; }
        return r;
    }
    StopReason GetReason() override { return StopReason::Singlestep; }
    void Singlestep() override {}
    std::map<std::string, int64_t> FetchRegisters() override { return regs; }
    std::map<std::string, double> FetchFloatRegisters() override { return {}; }
    std::map<std::string, uint64_t> FetchDebugRegisters() override { return {}; }
    void SetRegisters(const std::map<std::string, int64_t>& r) override { regs = r; }
    void SetFloatRegisters(const std::map<std::string, double>&) override {}
    void SetDebugRegisters(const std::map<std::string, uint64_t>&) override {}
    void ResumeExecution() override {}
    size_t TextSize() override { return 100; }
    void Wait() override {}
    void Terminate() override {}
};
#ifndef SRC_NO_HELPERS
template <class F> inline bool refused(F f) { try { f(); } catch (const DebuggerError&) { return true; } return false; }
inline uint64_t rnd(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
inline uint64_t seeded(int k) { uint64_t s = 88172645463325252ull + 1000003ull * k; for (int i = 0; i < 8; ++i) rnd(s); return s; }
inline int64_t add(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }
inline int64_t sub(int64_t a, int64_t b) { return (int64_t)((uint64_t)a - (uint64_t)b); }
#endif
// chooses one of n alternatives; all of them are explored, each on its own
inline int pick(int n) { uint64_t u = vf_u64("pick"); for (int i = 0; i < n - 1; ++i) if (u == (uint64_t)i) return i; return n - 1; }
inline Source parsed(const std::string& text) {
    std::istringstream is(text);
    dbg::Parser p(is);
    auto info = p.Parse();
    Source s;
    if (info.line_mapping) s.RegisterLineMapping(std::move(*info.line_mapping));
    if (info.source_code) s.RegisterSourceFile(std::move(*info.source_code));
    if (info.top_die) s.RegisterDebuggingInformation(std::move(*info.top_die));
    return s;
}
