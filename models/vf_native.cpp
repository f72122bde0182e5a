// Native implementation of the contract intrinsics: replay of a counterexample
// or seeded random search, against the real code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <random>
#include <exception>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <ucontext.h>
#include <cxxabi.h>
#include <sanitizer/common_interface_defs.h>
struct Entry { const char* name; int k; void (*f)(int); };
extern Entry vf_entries[];
extern int vf_nentries;
struct Val { char kind; std::string name; uint64_t v; uint64_t n, def; std::map<uint64_t, uint64_t> cells; };
static bool replaying; static std::vector<Val> vals; static size_t pos;
static std::mt19937_64 rng; static std::vector<std::string> trace;
static jmp_buf jb;
// two contexts of one program
static ucontext_t co_main, co_fib; static bool in_co, co_end, co_reject; static void (*co_fn)();
static const size_t CO_SIZE = 4 << 20; static char* co_stack;
static const void* main_bot; static size_t main_size; static void* fake_main; static void* fake_fib;
struct EhGlobals { void* caught; unsigned n; }; static EhGlobals co_eh;
static void swap_eh() { EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals(); EhGlobals t = *g; *g = co_eh; co_eh = t; }
static void to_main(bool last) {
    in_co = false; swap_eh();
    __sanitizer_start_switch_fiber(last ? nullptr : &fake_fib, main_bot, main_size);
    swapcontext(&co_fib, &co_main);
    __sanitizer_finish_switch_fiber(fake_fib, &main_bot, &main_size);
}
static void co_entry() {
    __sanitizer_finish_switch_fiber(nullptr, &main_bot, &main_size);
    co_fn(); co_end = true; to_main(true);
}
static void reject() {
    if (in_co) { co_reject = true; to_main(false); }
    longjmp(jb, 1);
}
struct Shared { uint64_t seed; uint64_t iters, rejected; char label[512]; };
static Shared* sh;
static uint64_t draw(int w) {
    uint64_t r = rng();
    switch (r % 16) {
        case 0: return 0; case 1: return 1; case 2: return ~0ull; case 3: return 1ull << (w - 1); case 4: return (1ull << (w - 1)) - 1;
        case 5: case 6: case 7: return (r >> 8) % 8;
        case 8: return (r >> 8) % 70;
        case 9: return 0 - ((r >> 8) % 8);
        case 10: return (1ull << ((r >> 8) % w)) + ((r >> 16) % 3) - 1;
        case 11: return rng() >> ((r >> 8) % 64);
        default: return rng();
    }
}
static uint64_t val(const char* name, int w) {
    uint64_t v;
    if (replaying) { v = 0; if (pos < vals.size()) v = vals[pos].v; ++pos; }
    else v = draw(w);
    if (w < 64) v &= (1ull << w) - 1;
    trace.push_back(std::string("v ") + name + " " + std::to_string(v));
    return v;
}
static std::ostringstream outs[2]; static std::stringstream ins;
extern "C" std::ostream* vf_ostream(int ch) { return &outs[ch]; }
extern "C" std::istream* vf_istream(void) { return &ins; }
extern "C" {
void vf_co_start(void (*f)()) {
    if (!co_stack) co_stack = (char*)mmap(nullptr, CO_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    co_fn = f; co_end = false; in_co = false; co_reject = false; co_eh = {nullptr, 0};
    getcontext(&co_fib); co_fib.uc_stack.ss_sp = co_stack; co_fib.uc_stack.ss_size = CO_SIZE; co_fib.uc_link = nullptr;
    makecontext(&co_fib, co_entry, 0);
}
void vf_co_switch(void) {
    if (in_co) { to_main(false); return; }
    in_co = true; swap_eh();
    __sanitizer_start_switch_fiber(&fake_main, co_stack, CO_SIZE);
    swapcontext(&co_main, &co_fib);
    __sanitizer_finish_switch_fiber(fake_main, nullptr, nullptr);
    if (co_reject) longjmp(jb, 1);
}
int vf_co_done(void) { return co_end; }
int vf_out_count(int ch) {
    std::string s = outs[ch].str();
    if (ch == 1) return s.size();
    int n = 0; for (char c : s) n += c == '\n'; return n;
}
int64_t vf_out_value(int ch, int i) {
    std::string s = outs[ch].str();
    if (ch == 1) return s[i];
    std::istringstream is(s); std::string l; for (int j = 0; j <= i; ++j) std::getline(is, l);
    return (int64_t)strtoll(l.c_str(), 0, 10);
}
void vf_in_push(uint8_t c) { ins << (char)c; }
uint64_t vf_u64(const char* n) { return val(n, 64); }
uint32_t vf_u32(const char* n) { return val(n, 32); }
uint16_t vf_u16(const char* n) { return val(n, 16); }
uint8_t vf_u8(const char* n) { return val(n, 8); }
bool vf_bool(const char* n) { return val(n, 1); }
int vf_choose(const char* n, int k) {
    uint64_t v;
    if (replaying) { v = pos < vals.size() ? vals[pos].v : 0; ++pos; } else v = rng() % (k ? k : 1);
    trace.push_back(std::string("v ") + n + " " + std::to_string(v));
    if (v >= (uint64_t)k) reject();
    return (int)v;
}
void vf_assume(int c) { if (!c) reject(); }
void vf_ensure(int c, const char* label) {
    if (c) return;
    snprintf(sh->label, sizeof sh->label, "%s", label);
    fprintf(stderr, "FAILED ensure: %s\n", label);
    for (auto& t : trace) fprintf(stderr, "  %s\n", t.c_str());
    fflush(stderr); _exit(42);
}
void vf_cover(const char*) {}
uint64_t vf_split(uint64_t v) { return v; }
int vf_symbolic(void) { return 0; }
void* vf_array(const char* name, uint64_t n) {
    if (n > 4096) reject();
    uint64_t* p = (uint64_t*)operator new(n * 8);
    Val* a = nullptr;
    if (replaying) { if (pos < vals.size()) a = &vals[pos]; ++pos; }
    std::string line = std::string("a ") + name + " " + std::to_string(n) + " 0 " + std::to_string(n);
    for (uint64_t i = 0; i < n; ++i) {
        if (a) { auto it = a->cells.find(i); p[i] = it == a->cells.end() ? a->def : it->second; }
        else p[i] = replaying ? 0 : draw(64);
        line += " " + std::to_string(i) + " " + std::to_string(p[i]);
    }
    trace.push_back(line);
    return p;
}
}
static void on_terminate() {
    const char* what = "unknown";
    std::string s;
    try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (std::exception& e) { s = e.what(); what = s.c_str(); } catch (...) {}
    snprintf(sh->label, sizeof sh->label, "uncaught exception: %s", what);
    fprintf(stderr, "FAILED uncaught exception: %s\n", what);
    for (auto& t : trace) fprintf(stderr, "  %s\n", t.c_str());
    fflush(stderr); _exit(43);
}
static void on_sig(int s) {
    snprintf(sh->label, sizeof sh->label, "signal %d", s);
    fprintf(stderr, "FAILED signal %d\n", s);
    for (auto& t : trace) fprintf(stderr, "  %s\n", t.c_str());
    fflush(stderr); _exit(44);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=45:handle_segv=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=0"; }
static int run_once(Entry& e) {      // 0 ok, 1 rejected by an assumption
    trace.clear(); pos = 0; in_co = false; co_eh = {nullptr, 0}; outs[0].str(""); outs[1].str(""); ins.str(""); ins.clear();
    if (setjmp(jb)) return 1;
    e.f(e.k);
    return 0;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv) {
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string name = argv[1]; int k = atoi(argv[2]); std::string mode = argv[3];
    Entry* e = nullptr;
    for (int i = 0; i < vf_nentries; ++i) if (name == vf_entries[i].name) e = &vf_entries[i];
    if (!e) { fprintf(stderr, "no entry\n"); return 3; }
    e->k = k;
    auto child_setup = [] {
        std::set_terminate(on_terminate);
        for (int s : {SIGFPE, SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGTRAP, SIGALRM}) signal(s, on_sig);
    };
    if (mode == "replay") {
        replaying = true;
        FILE* f = fopen(argv[4], "r"); char* line = nullptr; size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            char* save; char* t = strtok_r(line, " \n", &save);
            if (!t) continue;
            if (!strcmp(t, "v")) { Val v{}; v.name = strtok_r(nullptr, " \n", &save); v.v = strtoull(strtok_r(nullptr, " \n", &save), 0, 10); vals.push_back(v); }
            else if (!strcmp(t, "a")) {
                Val v{}; v.name = strtok_r(nullptr, " \n", &save); v.n = strtoull(strtok_r(nullptr, " \n", &save), 0, 10);
                v.def = strtoull(strtok_r(nullptr, " \n", &save), 0, 10); int c = atoi(strtok_r(nullptr, " \n", &save));
                while (c--) { uint64_t i = strtoull(strtok_r(nullptr, " \n", &save), 0, 10); v.cells[i] = strtoull(strtok_r(nullptr, " \n", &save), 0, 10); }
                vals.push_back(v);
            }
        }
        child_setup(); alarm(20);
        int r = run_once(*e);
        printf("%s\n", r ? "REJECTED" : "OK");
        return 0;
    }
    // search <seed> <seconds> <max>
    uint64_t seed = strtoull(argv[4], 0, 10); double secs = atof(argv[5]); uint64_t max = strtoull(argv[6], 0, 10);
    double t0 = now();
    sh->seed = 0;
    pid_t p = fork();
    if (p == 0) {
        child_setup();
        for (uint64_t i = 0; i < max && now() - t0 < secs; ++i) {
            sh->seed = seed * 1000003 + i; rng.seed(sh->seed);
            alarm(10);
            if (run_once(*e)) ++sh->rejected;
            ++sh->iters;
        }
        alarm(0);
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    printf("iterations %llu rejected %llu\n", (unsigned long long)sh->iters, (unsigned long long)sh->rejected);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    printf("FAILED seed %llu %s\n", (unsigned long long)sh->seed, sh->label);
    return 1;
}
