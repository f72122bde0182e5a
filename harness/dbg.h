#pragma once
// The real virtual machine (operating loop, debug interface, processor) and the real debugger (Native, T86Process) as
// two contexts of one program, connected by two message queues.  Only the transport (TCP / threads) is replaced: a
// side that waits for a message lets the other side run until one arrives.
#include "vm.h"
#include "t86/os.h"
#include "debugger/Native.h"
#include "debugger/T86Process.h"
#include <deque>
#include <cstdlib>
struct Link { std::deque<std::string> to_vm, to_dbg; bool vm_result = false, vm_threw = false, closed = false; };
static Link* lnk;
struct DbgSide : Messenger {
    std::optional<std::string> Receive() override {
        while (lnk->to_dbg.empty()) { if (vf_co_done()) return std::nullopt; vf_co_switch(); }
        std::string s = lnk->to_dbg.front(); lnk->to_dbg.pop_front(); return s;
    }
    void Send(const std::string& s) override { lnk->to_vm.push_back(s); }
};
struct VmSide : Messenger {
    std::optional<std::string> Receive() override {
        while (lnk->to_vm.empty()) { if (lnk->closed) return std::nullopt; vf_co_switch(); }
        std::string s = lnk->to_vm.front(); lnk->to_vm.pop_front(); return s;
    }
    void Send(const std::string& s) override { lnk->to_dbg.push_back(s); }
};
static OS* dbg_os; static Program* dbg_prog;
static void vm_main() {
    try { lnk->vm_result = dbg_os->Run(std::move(*dbg_prog)); } catch (const std::exception&) { lnk->vm_threw = true; }
}
struct Session {
    Link link; OS os; Program prog; std::unique_ptr<Native> n;
    Session(Program p, size_t regs, size_t fregs, size_t mem) : os(regs, fregs, mem), prog(std::move(p)) {
        lnk = &link; dbg_os = &os; dbg_prog = &prog;
        os.SetDebuggerComms(std::make_unique<VmSide>());
        n = std::make_unique<Native>(std::make_unique<T86Process>(std::make_unique<DbgSide>(), regs, fregs, mem));
        vf_co_start(vm_main);
        vf_ensure(std::holds_alternative<ExecutionBegin>(n->WaitForDebugEvent()), "the session starts with an execution-begin stop");
    }
    // let the machine end; true if it ended by itself or was told to terminate
    bool finish() {
        if (!vf_co_done()) n->Terminate();
        link.closed = true;
        for (int i = 0; i < 4 && !vf_co_done(); ++i) vf_co_switch();
        return vf_co_done() && !link.vm_threw;
    }
};
