// C17: messages between debugger and machine.  The real TCP and thread messengers over a network that splits, delays and
// fails as it likes, and over threads that are preempted at every synchronisation.
// VF-SRC: common
// VF-COVER: split, one direction, ping pong, cut, send failed, receive failed, long, threads waited, threads preempted, threads both ways
#include "vf.h"
#include <iostream>
#include <vector>
#include <cstdlib>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <exception>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <span>
#include <optional>
#include <string>
#include <string_view>
#include <queue>
#include <deque>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <map>
// ---------------------------------------------------------------- the network: two byte streams
enum { CLIENT = 100001, SERVER = 100002, LISTEN = 100003 };
static const size_t CAP = 80000;
struct Wire { uint8_t d[CAP]; size_t w = 0, r = 0; bool closed = false; };
struct Net {
    Wire up, down;              // client to server, server to client
    int mode = 0;               // 0 everything at once, 1 single bytes, 2 up to `shorts` arbitrary splits, 3 drawn at random
    int shorts = 0; uint64_t seed = 1;
    int ops = 0, fail_at = -1;  // the operation that fails
    bool failed = false;
    size_t part(size_t n) {
        if (n <= 1 || mode == 0) return n;
        if (mode == 1) return 1;
        if (mode == 2) {
            if (!shorts) return n;
            size_t k = 1 + vf_choose("part", (int)n);
            if (k < n) { --shorts; vf_cover("split"); }
            return k;
        }
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t x = seed >> 33;
        return x % 4 == 0 ? n : x % 4 == 1 ? 1 : 1 + (x / 4) % n;
    }
};
static Net* net;
static bool net_fails() {
    if (net->failed || net->ops++ == net->fail_at) { net->failed = true; errno = ECONNRESET; return true; }
    return false;
}
static ssize_t net_put(int fd, const void* b, size_t n) {
    if (net_fails()) return -1;
    Wire& w = fd == CLIENT ? net->up : net->down;
    size_t k = net->part(n);
    vf_ensure(w.w + k <= CAP, "no more is sent than the messages");
    memcpy(w.d + w.w, b, k); w.w += k;
    return k;
}
static ssize_t net_get(int fd, void* b, size_t n, bool all) {
    if (net_fails()) return -1;
    Wire& w = fd == CLIENT ? net->down : net->up;
    size_t have = w.w - w.r;
    if (n == 0) return 0;
    if (have == 0) {
        vf_ensure(w.closed, "nobody waits for bytes that are never sent");
        return 0;
    }
    size_t k = all ? std::min(n, have) : net->part(std::min(n, have));
    memcpy(b, w.d + w.r, k); w.r += k;
    return k;
}
static bool ours(int fd) { return fd >= CLIENT; }
extern "C" {
ssize_t send(int fd, const void* b, size_t n, int) { return net_put(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return ours(fd) ? net_put(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t recv(int fd, void* b, size_t n, int flags) { return net_get(fd, b, n, flags & MSG_WAITALL); }
ssize_t read(int fd, void* b, size_t n) { return ours(fd) ? net_get(fd, b, n, false) : syscall(SYS_read, fd, b, n); }
int close(int fd) { return ours(fd) ? 0 : (int)syscall(SYS_close, fd); }
int socket(int, int, int) noexcept { return CLIENT; }
int connect(int, const sockaddr*, socklen_t) { return 0; }
int bind(int, const sockaddr*, socklen_t) noexcept { return 0; }
int listen(int, int) noexcept { return 0; }
int accept(int, sockaddr*, socklen_t*) { return SERVER; }
int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; }
int shutdown(int, int) noexcept { return 0; }
}
// ---------------------------------------------------------------- two threads: preempted at every lock, unlock, wait and notification
struct Sched {
    bool on = false; int cur = 0; bool done = false;      // context 0 is main, 1 the other thread
    int preempts = 0, spurious = 0;                         // voluntary switches and spurious wake-ups left
};
static Sched sched;
static void yield_to() {
    sched.cur ^= 1; int me = sched.cur ^ 1;
    vf_co_switch();
    sched.cur = me;
}
static bool can_switch() { return sched.on && !vf_co_done(); }
static void preempt() {
    if (can_switch() && sched.preempts > 0 && vf_choose("preempt", 2)) { --sched.preempts; vf_cover("threads preempted"); yield_to(); }
}
static int held[2];
namespace std {
struct vf_mutex {
    int owner = -1;
    void lock() {
        preempt();
        vf_ensure(owner != sched.cur, "no thread locks twice");
        while (owner != -1) { vf_ensure(can_switch(), "no thread waits for ever"); yield_to(); }
        owner = sched.cur; ++held[sched.cur];
    }
    bool try_lock() { if (owner != -1) return false; lock(); return true; }
    void unlock() {
        vf_ensure(owner == sched.cur, "a thread unlocks what it has locked");
        --held[sched.cur]; owner = -1;
        preempt();
    }
};
struct vf_cv {
    bool waiting[2] = {};
    void notify_one() noexcept { wake(); }
    void notify_all() noexcept { wake(); }
    void wake() { waiting[0] = waiting[1] = false; preempt(); }
    template <class L> void wait(L& l) {
        int me = sched.cur;
        waiting[me] = true;
        l.unlock();
        if (sched.spurious > 0 && sched.on && vf_choose("spurious", 2)) { --sched.spurious; waiting[me] = false; }
        while (waiting[me]) {
            vf_cover("threads waited");
            vf_ensure(can_switch(), "a waiting thread is woken");
            yield_to();
            vf_ensure(!(waiting[0] && waiting[1]), "a waiting thread is woken");
        }
        l.lock();
    }
    template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
};
static void shared_access() { vf_ensure(!sched.on || held[sched.cur] > 0, "the shared queue is only used under its lock"); }
template <class T, class C = deque<T>> struct vf_queue : queue<T, C> {
    typedef queue<T, C> Q;
    bool empty() const { shared_access(); return Q::empty(); }
    size_t size() const { shared_access(); return Q::size(); }
    void push(const T& t) { shared_access(); Q::push(t); }
    void push(T&& t) { shared_access(); Q::push(move(t)); }
    template <class... A> void emplace(A&&... a) { shared_access(); Q::emplace(forward<A>(a)...); }
    T& front() { shared_access(); vf_ensure(!Q::empty(), "no message is taken from an empty queue"); return Q::front(); }
    const T& front() const { shared_access(); return Q::front(); }
    void pop() { shared_access(); vf_ensure(!Q::empty(), "no message is taken from an empty queue"); Q::pop(); }
};
}
#include "common/messenger.h"
#include "common/TCP.h"
#define mutex vf_mutex
#define condition_variable vf_cv
#define queue vf_queue
#include "common/threads_messenger.h"
#undef mutex
#undef condition_variable
#undef queue

typedef std::optional<std::string> Got;
struct Pair {
    Net n; TCP::TCPServer s; TCP::TCPClient c;
    Pair() : s(9110), c(9110) { net = &n; s.Initialize(); c.Initialize(); }
    Messenger& from(int dir) { return dir ? (Messenger&)s : (Messenger&)c; }
    Messenger& to(int dir) { return dir ? (Messenger&)c : (Messenger&)s; }
    Wire& wire(int dir) { return dir ? n.down : n.up; }
};
static Pair* fresh() { return new Pair; }
// any content
static std::string message(int len, const char* name) { std::string m; for (int i = 0; i < len; ++i) m += (char)vf_u8(name); return m; }
static const int LEN[] = {1, 0, 2, 3, 5, 8, 9};
// any two messages, split by the network in any way (up to two places)
VF bounded_split(int k) { // CASES 14 28
    std::unique_ptr<Pair> p(fresh());
    int dir = k % 2, len = LEN[k / 2 % 7];
    std::string a = message(len, "a"), b = message(k / 2 % 3, "b");
    p->n.mode = 2; p->n.shorts = k < 14 ? 2 : 3;
    p->from(dir).Send(a); p->from(dir).Send(b);
    vf_ensure(p->wire(1 - dir).w == 0, "nothing arrives at the sender");
    Got x = p->to(dir).Receive();
    vf_ensure(x && x->size() == a.size(), "the message arrives whole");
    vf_ensure(*x == a, "the message arrives as it was sent");
    Got y = p->to(dir).Receive();
    vf_ensure(y && y->size() == b.size() && *y == b, "the next message follows");
    vf_ensure(p->wire(dir).r == p->wire(dir).w, "nothing is left over");
    p->wire(dir).closed = true;
    vf_ensure(!p->to(dir).Receive(), "the end of the connection is reported");
    vf_cover("one direction");
}
// request and response, byte by byte or split at random
VF bounded_pingpong(int k) { // CASES 12 120
    std::unique_ptr<Pair> p(fresh());
    p->n.mode = k % 3 == 0 ? 1 : 3; p->n.seed = 77 + k;
    for (int i = 0; i < 4; ++i) {
        int dir = (i + k) % 2;
        std::string a = message((i * 7 + k) % 20, "m");
        p->from(dir).Send(a);
        if (k % 2 && i == 2) { p->from(dir).Send(a); Got x = p->to(dir).Receive(); vf_ensure(x && *x == a, "each message arrives once for each time it is sent"); }
        Got x = p->to(dir).Receive();
        vf_ensure(x && *x == a, "the message arrives as it was sent");
        vf_ensure(p->wire(dir).r == p->wire(dir).w, "nothing is left over");
    }
    vf_cover("ping pong");
}
// the connection ends anywhere
VF bounded_cut(int k) { // CASES 10
    std::unique_ptr<Pair> p(fresh());
    int dir = k % 2, len = LEN[k / 2 % 5];
    std::string a = message(len, "a"), b = message(2, "b");
    p->from(dir).Send(a);
    size_t first = p->wire(dir).w;
    p->from(dir).Send(b);
    size_t both = p->wire(dir).w;
    p->wire(dir).w = vf_choose("cut", (int)both); p->wire(dir).closed = true;
    size_t cut = p->wire(dir).w;
    p->n.mode = 2; p->n.shorts = 1;
    auto receive = [&] { try { return p->to(dir).Receive(); } catch (const std::exception&) { return Got(); } };
    Got x = receive();
    vf_ensure(x.has_value() == (cut >= first), "a message that did not arrive whole is not delivered");
    if (x) {
        vf_ensure(*x == a, "the message arrives as it was sent");
        vf_ensure(!receive(), "a message that did not arrive whole is not delivered");
    }
    vf_cover("cut");
}
// sending fails anywhere: it is reported, and nothing but the beginning of the messages was sent
VF bounded_send_error(int k) { // CASES 8
    int dir = k % 2, len = LEN[k / 2 % 4];
    std::unique_ptr<Pair> p(fresh()), q(fresh());
    std::string a = message(len, "a"), b = message(2, "b");
    net = &q->n;
    q->from(dir).Send(a); q->from(dir).Send(b);
    net = &p->n;
    p->n.mode = k / 2 % 2 ? 1 : 2; p->n.shorts = 1; p->n.fail_at = vf_choose("fails", 24);
    int sent = 0; bool thrown = false;
    try { p->from(dir).Send(a); ++sent; p->from(dir).Send(b); ++sent; } catch (const std::exception&) { thrown = true; }
    vf_ensure(thrown == p->n.failed, "a failure to send is reported");
    Wire &w = p->wire(dir), &v = q->wire(dir);
    vf_ensure(w.w <= v.w && (thrown || w.w == v.w), "nothing is sent twice");
    for (size_t i = 0; i < w.w && i < v.w; ++i) vf_ensure(w.d[i] == v.d[i], "nothing is sent twice");
    if (thrown) vf_cover("send failed");
}
// receiving fails anywhere
VF bounded_receive_error(int k) { // CASES 8
    int dir = k % 2, len = LEN[k / 2 % 4];
    std::unique_ptr<Pair> p(fresh());
    std::string a = message(len, "a"), b = message(2, "b");
    p->from(dir).Send(a); p->from(dir).Send(b);
    p->n.mode = k / 2 % 2 ? 1 : 2; p->n.shorts = 1; p->n.ops = 0; p->n.fail_at = vf_choose("fails", 22);
    for (auto m : {&a, &b}) {
        Got x;
        try { x = p->to(dir).Receive(); } catch (const std::exception&) {}
        vf_ensure(x.has_value() == !p->n.failed, "a failure to receive yields no message");
        if (!x) { vf_cover("receive failed"); return; }
        vf_ensure(*x == *m, "the message arrives as it was sent");
    }
}
// long messages
VF bounded_long(int k) { // CASES 10
    static const int L[] = {127, 128, 255, 256, 257, 4095, 4096, 32768, 65535, 65536};
    std::unique_ptr<Pair> p(fresh());
    std::string a; a.resize(L[k]);
    for (int i = 0; i < L[k]; ++i) a[i] = (char)(i * 37 + k);
    p->n.mode = 3; p->n.seed = k + 5;
    p->from(k % 2).Send(a); p->from(k % 2).Send("end");
    Got x = p->to(k % 2).Receive();
    vf_ensure(x && *x == a, "the message arrives as it was sent");
    x = p->to(k % 2).Receive();
    vf_ensure(x && *x == "end", "the next message follows");
    vf_cover("long");
}
// ---- threads
static ThreadQueue<std::string>*q1, *q2;
static Messenger *ma, *mb;
static std::string tm[4];
static int t_kind;
static void other() {
    if (t_kind == 0) { for (int i = 0; i < 3; ++i) mb->Send(tm[i]); }
    else if (t_kind == 1) { for (int i = 0; i < 2; ++i) { Got x = mb->Receive(); vf_ensure(x && *x == tm[2 * i], "the message arrives as it was sent"); mb->Send(tm[2 * i + 1]); } }
    else if (t_kind == 2) { for (int i = 0; i < 3; ++i) { Got x = mb->Receive(); vf_ensure(x && *x == tm[i], "the message arrives as it was sent"); } }
    else { mb->Send(tm[2]); Got x = mb->Receive(); vf_ensure(x && *x == tm[0], "the message arrives as it was sent"); mb->Send(tm[3]); x = mb->Receive(); vf_ensure(x && *x == tm[1], "the message arrives as it was sent"); }
    sched.cur = 0;
}
VF bounded_threads(int k) { // CASES 8
    std::unique_ptr<ThreadMessengerOwner> owner; std::unique_ptr<ThreadMessenger> a, b;
    ThreadQueue<std::string> x, y;
    sched = Sched(); held[0] = held[1] = 0;
    if (k % 2) { owner = std::make_unique<ThreadMessengerOwner>(); b = std::make_unique<ThreadMessenger>(owner->GetOutQueue(), owner->GetInQueue()); ma = owner.get(); mb = b.get(); }
    else { a = std::make_unique<ThreadMessenger>(x, y); b = std::make_unique<ThreadMessenger>(y, x); ma = a.get(); mb = b.get(); }
    for (int i = 0; i < 4; ++i) tm[i] = message(i % 3 + 1, "t");
    t_kind = k / 2;
    sched.preempts = 3; sched.spurious = 1;
    vf_co_start(other); sched.on = true;
    auto expect = [&](int i) { Got g = ma->Receive(); vf_ensure(g && *g == tm[i], "the message arrives as it was sent"); };
    if (t_kind == 0) for (int i = 0; i < 3; ++i) expect(i);
    else if (t_kind == 1) for (int i = 0; i < 2; ++i) { ma->Send(tm[2 * i]); expect(2 * i + 1); }
    else if (t_kind == 2) for (int i = 0; i < 3; ++i) ma->Send(tm[i]);
    else { ma->Send(tm[0]); expect(2); ma->Send(tm[1]); expect(3); vf_cover("threads both ways"); }
    for (int i = 0; i < 40 && !vf_co_done(); ++i) yield_to();
    vf_ensure(vf_co_done(), "no thread waits for ever");
    sched.on = false;
    for (auto q : k % 2 ? std::vector{&owner->GetInQueue(), &owner->GetOutQueue()} : std::vector{&x, &y}) vf_ensure(q->q.empty(), "nothing is left over");
}
