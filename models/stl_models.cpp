// Out-of-line parts of libstdc++ that are not in its headers, written so that
// every documented contract of the containers holds (the trees are not balanced,
// hash tables have a fixed bucket count: neither is observable).
#include <map>
#include <list>
#include <unordered_map>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <streambuf>
#include <sstream>
#include <charconv>
#include <string>
#include <cstdlib>
namespace std {
template<> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& ineof) {
    streamsize n = 0;
    ineof = true;
    for (int c = in->sgetc(); c != char_traits<char>::eof(); c = in->snextc()) {
        if (out->sputc(char(c)) == char_traits<char>::eof()) { ineof = false; break; }
        n++;
    }
    return n;
}
// Streams: the parts that go through a locale, for the "C" locale.
extern "C" void vf_unmodelled_stream_format();
template<> basic_istream<char>::sentry::sentry(basic_istream<char>& in, bool noskip) : _M_ok(false) {
    if (in.good()) {
        if (in.tie()) in.tie()->flush();
        if (!noskip && (in.flags() & ios_base::skipws)) {
            int c = in.rdbuf()->sgetc();
            while (c != -1 && (c == ' ' || (c >= 9 && c <= 13))) c = in.rdbuf()->snextc();
            if (c == -1) in.setstate(ios_base::eofbit | ios_base::failbit);
        }
    }
    if (in.good()) _M_ok = true; else in.setstate(ios_base::failbit);
}
template<> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char delim) {
    ios_base::iostate err = ios_base::goodbit;
    bool some = false;
    istream::sentry ok(in, true);
    if (ok) {
        s.erase();
        for (int c = in.rdbuf()->sgetc();; c = in.rdbuf()->snextc()) {
            if (c == -1) { err |= ios_base::eofbit; break; }
            some = true;
            if (char(c) == delim) { in.rdbuf()->sbumpc(); break; }
            s += char(c);
        }
        if (!some) err |= ios_base::failbit;
        if (err) in.setstate(err);
    }
    return in;
}
template<> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s) {
    istream::sentry ok(in, false);
    if (ok) {
        s.erase();
        streamsize n = in.width() > 0 ? in.width() : streamsize(-1) ;
        int c = in.rdbuf()->sgetc();
        for (; n != 0 && c != -1 && !(c == ' ' || (c >= 9 && c <= 13)); c = in.rdbuf()->snextc()) { s += char(c); if (n > 0) --n; }
        in.width(0);
        if (c == -1) in.setstate(ios_base::eofbit);
        if (s.empty()) in.setstate(ios_base::failbit);
    }
    return in;
}
template<> basic_istream<char>& ws(basic_istream<char>& in) {
    int c = in.rdbuf()->sgetc();
    while (c != -1 && (c == ' ' || (c >= 9 && c <= 13))) c = in.rdbuf()->snextc();
    if (c == -1) in.setstate(ios_base::eofbit);
    return in;
}
static basic_istream<char>& vf_read_number(basic_istream<char>& in, bool is_signed, long& sv, unsigned long& uv, int bits) {
    istream::sentry ok(in, false);
    if (!ok) return in;
    if (in.flags() & (ios_base::hex | ios_base::oct)) vf_unmodelled_stream_format();
    string s; bool any = false;
    int c = in.rdbuf()->sgetc();
    if (c == '-' || c == '+') { s += char(c); c = in.rdbuf()->snextc(); }
    for (; c >= '0' && c <= '9'; c = in.rdbuf()->snextc()) { s += char(c); any = true; }
    if (c == -1) in.setstate(ios_base::eofbit);
    if (!any) { sv = 0; uv = 0; in.setstate(ios_base::failbit); return in; }
    errno = 0;
    if (is_signed) {
        sv = strtoll(s.c_str(), nullptr, 10);
        long hi = bits == 64 ? LONG_MAX : (1L << (bits - 1)) - 1, lo = -hi - 1;
        if (errno == ERANGE) in.setstate(ios_base::failbit);
        else if (bits < 64 && sv > hi) { sv = hi; in.setstate(ios_base::failbit); }
        else if (bits < 64 && sv < lo) { sv = lo; in.setstate(ios_base::failbit); }
    } else {
        uv = strtoull(s.c_str(), nullptr, 10);
        if (errno == ERANGE) in.setstate(ios_base::failbit);
        else if (bits < 64 && uv >> bits) { uv = (1UL << bits) - 1; in.setstate(ios_base::failbit); }
    }
    return in;
}
#define VF_EXTRACT(T, S, B) template<> template<> basic_istream<char>& basic_istream<char>::_M_extract(T& v) { long s = 0; unsigned long u = 0; ios_base::iostate before = rdstate(); vf_read_number(*this, S, s, u, B); if (before == ios_base::goodbit) v = S ? (T)s : (T)u; return *this; }
VF_EXTRACT(long, true, 64) VF_EXTRACT(unsigned long, false, 64) VF_EXTRACT(long long, true, 64) VF_EXTRACT(unsigned long long, false, 64)
VF_EXTRACT(unsigned int, false, 32) VF_EXTRACT(unsigned short, false, 16)
template<> basic_istream<char>& basic_istream<char>::operator>>(int& v) { long s = 0; unsigned long u = 0; ios_base::iostate before = rdstate(); vf_read_number(*this, true, s, u, 32); if (before == ios_base::goodbit) v = int(s); return *this; }
template<> basic_istream<char>& basic_istream<char>::operator>>(short& v) { long s = 0; unsigned long u = 0; ios_base::iostate before = rdstate(); vf_read_number(*this, true, s, u, 16); if (before == ios_base::goodbit) v = short(s); return *this; }
static basic_ostream<char>& vf_write_text(basic_ostream<char>& out, const string& s) { return __ostream_insert(out, s.data(), streamsize(s.size())); }
template<typename T> static basic_ostream<char>& vf_write_number(basic_ostream<char>& out, T v) {
    auto base = out.flags() & ios_base::basefield;
    if (out.flags() & (ios_base::showpos | ios_base::internal)) vf_unmodelled_stream_format();
    if (base == ios_base::hex && !(out.flags() & ios_base::uppercase)) {
        char b[24]; auto r = to_chars(b, b + sizeof b, static_cast<unsigned long long>(v), 16);
        string s(b, r.ptr);
        if ((out.flags() & ios_base::showbase) && v != 0) s = "0x" + s;
        return vf_write_text(out, s);
    }
    if (base != ios_base::dec && base != ios_base::fmtflags(0)) vf_unmodelled_stream_format();
    return vf_write_text(out, to_string(v));
}
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long v) { return vf_write_number(*this, v); }
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long v) { return vf_write_number(*this, v); }
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long long v) { return vf_write_number(*this, v); }
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long long v) { return vf_write_number(*this, v); }
template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(bool v) {
    return vf_write_text(*this, flags() & ios_base::boolalpha ? (v ? "true" : "false") : (v ? "1" : "0"));
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base *next = nullptr, *prev = nullptr;
    if (h._M_left == z) next = _Rb_tree_increment(z);
    if (h._M_right == z) prev = (h._M_left == z) ? &h : _Rb_tree_decrement(z);
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (h._M_parent == a) h._M_parent = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            repl(y, y->_M_right);
            y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
        }
        repl(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (h._M_left == z) h._M_left = next;
    if (h._M_right == z) h._M_right = prev;
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
    _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev;
    p->_M_next = n; n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        _List_node_base* const t = _M_prev;
        _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            auto* t = x._M_next; x._M_next = y._M_next; y._M_next = t;
            t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 7; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t, size_t) const {
    if (n_bkt < 7) return {true, 7};
    return {false, 0};
}
}
}
extern "C" {
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcmp(const char* a, const char* b) {
    while (*a && *a == *b) { ++a; ++b; }
    return (unsigned char)*a - (unsigned char)*b;
}
static int vf_digit(int c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
long strtol(const char* s, char** end, int base) {
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false;
    if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vf_digit(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = (*p == '0') ? 8 : 10;
    unsigned long v = 0; bool any = false, over = false;
    unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX;
    while (vf_digit((unsigned char)*p) < base) {
        unsigned d = vf_digit((unsigned char)*p); any = true;
        if (v > (lim - d) / (unsigned)base) over = true; else v = v * base + d;
        ++p;
    }
    if (end) *end = const_cast<char*>(any ? p : s);
    if (over) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? (long)(0 - v) : (long)v;
}
long strtoll_(const char* s, char** end, int base) { return strtol(s, end, base); }
}
