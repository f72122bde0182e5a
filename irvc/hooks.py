"""Semantics of everything the linked IR calls but does not define: LLVM
intrinsics, the vf_* contract intrinsics, the C++ runtime (allocation,
exceptions, RTTI) and a few libc functions.  This file is part of the trusted
base; anything not listed here is Unsupported."""
import re, math, struct
import z3
from engine import (Unsupported, PathEnd, Refork, UNDEF, simp, bv, sgn, tobool, isz, CALL_BODY, HANDLED, SH, OFFMASK, STD_BASES)

H = {}       # exact names
P = []       # (regex, handler)
def hook(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
def pat(rx):
    def d(f):
        P.append((re.compile(rx), f)); return f
    return d

def lookup(eng, f):
    n = f.name
    h = H.get(n)
    if h is not None: return h
    if n.startswith('_ZSt10from_charsI'): return FROM_CHARS
    if f.body is not None: return None
    for rx, h in P:
        if rx.match(n): return h
    return None

NOP = lambda e, st, fr, I, f, v, a: None

# ------------------------------------------------------------ contracts
def _sym(w):
    def h(e, st, fr, I, f, v, a):
        name = e.cstring(st, v[0])
        x = e.fresh(w, name)
        st.nd.append((name, w, x))
        return x
    return h
H['vf_u64'] = _sym(64); H['vf_u32'] = _sym(32); H['vf_u8'] = _sym(8); H['vf_u16'] = _sym(16)

@hook('vf_bool')
def _(e, st, fr, I, f, v, a):
    name = e.cstring(st, v[0])
    x = e.fresh(1, name); st.nd.append((name, 1, x))
    return x

@hook('vf_choose')
def _(e, st, fr, I, f, v, a):
    """case split over 0..n-1 (concrete in each branch)"""
    name = e.cstring(st, v[0]); n = e.conc(st, v[1], 'vf_choose')
    if n <= 0: raise PathEnd('infeasible')
    pend = st.ghost.get('choose')
    if pend is not None:
        del st.ghost['choose']
        st.nd.append((name, 32, pend)); return pend
    states = []
    for k in range(n):
        t = st.fork() if k < n - 1 else st
        t.ghost['choose'] = k; states.append(t)
    raise Refork(states[::-1])

@hook('vf_assume')
def _(e, st, fr, I, f, v, a):
    c = v[0]
    c = e.nz(c, 32) if not _isbool(c) else c
    if isz(c): c = simp(c)
    if isinstance(c, int):
        if not c: raise PathEnd('infeasible')
        return None
    if not e.sat(st, c): raise PathEnd('infeasible')
    e.add(st, c)

def _isbool(c): return isinstance(c, z3.BoolRef)

@hook('vf_ensure')
def _(e, st, fr, I, f, v, a):
    c = v[0]; label = 'ensure: ' + e.cstring(st, v[1])
    c = e.nz(c, 32) if not _isbool(c) else c
    if isz(c): c = simp(c)
    if isinstance(c, int):
        e.lab(label, bool(c))
        if not c:
            e.record(st, label, 'ensure', e.get_model(st))
            raise PathEnd('failure')
        # the path must be feasible for the obligation to count (it is: paths are explored under sat checks)
        return None
    e.check_cond(st, c, label, 'ensure')

@hook('vf_cover')
def _(e, st, fr, I, f, v, a):
    n = e.cstring(st, v[0])
    if n not in e.covers:
        e.get_model(st)
        e.covers.add(n)

@hook('vf_split')
def _(e, st, fr, I, f, v, a):
    """case split on every feasible value of the argument"""
    return e.conc(st, v[0], 'vf_split')

@hook('vf_symbolic')
def _(e, st, fr, I, f, v, a): return 1

@hook('vf_log')
def _(e, st, fr, I, f, v, a):
    st.log.append(list(v))

@hook('vf_array')
def _(e, st, fr, I, f, v, a):
    """fresh object of n 8-byte cells (n may be symbolic) with arbitrary contents; returns its address"""
    name = e.cstring(st, v[0]); n = v[1]
    if isz(n): n = simp(n)
    size = n * 8 if isinstance(n, int) else n * z3.BitVecVal(8, 64)
    o = e.new_obj(st, size, 'heap', name)
    e.symc += 1
    o.arr = z3.Array('%s!%d' % (name, e.symc), z3.BitVecSort(64), z3.BitVecSort(64))
    st.nd.append((name, 'arr', (n, o.arr)))
    return o.base

@hook('vf_fail_on_exception')
def _(e, st, fr, I, f, v, a): pass

# ------------------------------------------------------------ coroutines (two contexts of one program)
@hook('vf_co_start')
def _(e, st, fr, I, f, v, a):
    from engine import Frame
    g = e.fbyaddr.get(e.conc(st, v[0], 'coroutine'))
    e.compile(g)
    n = Frame(g); b = g.blocks[g.entry]; n.block = b; n.code = b.insts
    st.co = [[n], [], None]; st.in_co = False
@hook('vf_co_switch')
def _(e, st, fr, I, f, v, a):
    if st.co is None: raise Unsupported('switch to a finished coroutine')
    e.co_swap(st)
@hook('vf_co_done')
def _(e, st, fr, I, f, v, a): return int(st.co is None)

# ------------------------------------------------------------ numbers in text
# A symbolic number that is formatted becomes a token "@k;"; parsing the token yields the number again.  This is
# the contract "parsing is the inverse of formatting" of the library functions; concrete numbers take the real
# code (integers) or Python's shortest / %f formatting (floating point).
def new_token(e, st, kind, x):
    t = st.ghost.get('tok', ()); key = ('tokof', kind, x.get_id())
    if key in st.ghost: return st.ghost[key]          # the same number has the same text (the table keeps the term alive)
    st.ghost['tok'] = t + ((kind, x),); st.ghost[key] = len(t)
    return len(t)
def s_of(k): return '@%d;' % k
def d_of(k): return '90909%06d90909' % k          # spelled with digits only, so that the lexer under test reads it as a number
def put_str(e, st, p, txt):
    """construct a std::string at p"""
    b = txt.encode('latin1')
    if len(b) <= 15:
        d = p + 16
    else:
        o = e.new_obj(st, len(b) + 1, 'heap', 'string'); d = o.base
        e.store(st, p + 16, e.ty64, len(b))
    e.store(st, p, e.mod_ptr, d); e.store(st, p + 8, e.ty64, len(b))
    for i, c in enumerate(b + b'\0'): e.store(st, d + i, e.ty8, c)
def dval(b): return struct.unpack('<d', struct.pack('<Q', b))[0]
def fmt_double(b):
    x = dval(b)
    neg = b >> 63
    if x != x: return '-nan' if neg else 'nan'
    if x in (float('inf'), float('-inf')): return '-inf' if neg else 'inf'
    if x == 0: return '-0' if neg else '0'
    r = repr(abs(x))
    if 'e' in r: m, ex = r.split('e'); ex = int(ex)
    else: m, ex = r, 0
    ip, _, fp = m.partition('.')
    digs = (ip + fp); point = len(ip) + ex
    k = len(digs) - len(digs.lstrip('0')); digs = digs[k:]; point -= k
    digs = digs.rstrip('0')
    e10 = point - 1
    if -4 <= e10 < 16:
        if point <= 0: s = '0.' + '0' * -point + digs
        elif point >= len(digs): s = digs + '0' * (point - len(digs))
        else: s = digs[:point] + '.' + digs[point:]
    else:
        s = digs[0] + ('.' + digs[1:] if len(digs) > 1 else '') + 'e%s%02d' % ('-' if e10 < 0 else '+', abs(e10))
    return ('-' if neg else '') + s
@hook('vf_tok')
def _(e, st, fr, I, f, v, a):
    x = simp(v[0]) if isz(v[0]) else v[0]
    if x is UNDEF: raise Unsupported('formatting an undefined value')
    if isinstance(x, int): return 0xffffffff
    return new_token(e, st, 'u' if v[1] == 0 else 's', x)
@hook('vf_tokd')
def _(e, st, fr, I, f, v, a):
    x = simp(v[0]) if isz(v[0]) else v[0]
    txt = fmt_double(x) if isinstance(x, int) else s_of(new_token(e, st, 'd', x))
    for i, c in enumerate(txt.encode() + b'\0'): e.store(st, v[1] + i, e.ty8, c)
def _to_string(kind, w):
    def h(e, st, fr, I, f, v, a):
        x = simp(v[1]) if isz(v[1]) else v[1]
        if isinstance(x, int):
            if kind != 'd': return CALL_BODY
            put_str(e, st, v[0], '%f' % dval(x)); return None
        if kind == 'd':                    # six decimals: some number close to x
            y = st.ghost.get(('rounded', x.get_id()))
            if y is not None: put_str(e, st, v[0], dec_double(e, st, y)); return None
            y = st.ghost['rounded', x.get_id()] = e.fresh(64, 'rounded'); d = z3.fpSub(z3.RNE(), z3.fpBVToFP(y, z3.Float64()), z3.fpBVToFP(x, z3.Float64()))
            e.add(st, z3.Or(x == y, z3.fpLEQ(z3.fpAbs(d), z3.FPVal(1e-6, z3.Float64()))))
            put_str(e, st, v[0], dec_double(e, st, y)); return None
        if w < 64: x = z3.SignExt(64 - w, x) if kind == 's' else z3.ZeroExt(64 - w, x)
        neg = kind == 's' and decide(e, st, simp(x < 0))
        put_str(e, st, v[0], '-' + d_of(new_token(e, st, 'u', simp(-x))) if neg else d_of(new_token(e, st, 'u', x)))
    return h
for c, kind, w in (('i', 's', 32), ('j', 'u', 32), ('l', 's', 64), ('m', 'u', 64), ('x', 's', 64), ('y', 'u', 64), ('d', 'd', 64)):
    H['_ZNSt7__cxx119to_stringE' + c] = _to_string(kind, w)
def fixed_double(b):
    """shortest round-trip digits, fixed notation (std::to_chars)"""
    x = dval(b)
    if x != x or x in (float('inf'), float('-inf')) or x == 0: return fmt_double(b)
    from decimal import Decimal
    s = format(Decimal(repr(x)), 'f')
    return s.rstrip('0').rstrip('.') if '.' in s else s
def dec_double(e, st, x):
    """text of the symbolic double x in fixed notation"""
    ex = z3.Extract(62, 52, x)
    neg = '-' if decide(e, st, simp(z3.Extract(63, 63, x) == 1)) else ''
    if decide(e, st, simp(ex == 0x7ff)): return neg + ('inf' if decide(e, st, simp(z3.Extract(51, 0, x) == 0)) else 'nan')
    y = simp(x & z3.BitVecVal((1 << 63) - 1, 64))
    fy = z3.fpBVToFP(y, z3.Float64())
    whole = decide(e, st, simp(z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), fy), fy)))
    return neg + d_of(new_token(e, st, 'd', y)) + ('' if whole else '.5')
@hook('_ZSt8to_charsPcS_dSt12chars_format')
def _(e, st, fr, I, f, v, a):
    if v[3] != 2: raise Unsupported('to_chars format')
    x = simp(v[2]) if isz(v[2]) else v[2]
    txt = (fixed_double(x) if isinstance(x, int) else dec_double(e, st, x)).encode()
    if v[1] - v[0] < len(txt): return (v[1], 75)
    for i, c in enumerate(txt): e.store(st, v[0] + i, e.ty8, c)
    return (v[0] + len(txt), 0)
def token_at(e, st, p, end=None):
    """token at address p -> (kind, value, length) or None"""
    p = e.conc(st, p, 'text')
    o = st.objs.get(p >> SH)
    if o is None or o.arr is not None: return None
    off = p & OFFMASK; txt = b''
    lim = 24 if end is None else min(24, end - p)
    while len(txt) < lim and off + len(txt) < o.size:
        b = e.rd(st, o, off + len(txt), 1)
        if not isinstance(b, int): break
        txt += bytes([b])
        if b == 59: break
    m = re.match(rb'@(\d+);', txt) or re.match(rb'90909(\d{6})90909(?!\d)(\.[05](?!\d))?', txt)
    if m: 
        k, x = st.ghost['tok'][int(m.group(1))]
        return k, x, len(m.group(0))
    m = re.match(rb'-90909(\d{6})90909(?!\d)(\.[05](?!\d))?', txt)
    if not m: return None
    k, x = st.ghost['tok'][int(m.group(1))]
    return ('d', simp(x | z3.BitVecVal(1 << 63, 64)), len(m.group(0))) if k == 'd' else ('n', simp(-x), len(m.group(0)))
def tok_int(e, st, k, x, w, signed):
    """(value, in range)"""
    if k == 'd': raise Unsupported('reading a formatted floating-point number as an integer')
    if w != 64: raise Unsupported('narrow integer parse')
    if k == 'n': return (x, simp(x < 0)) if signed else (x, 0)
    if (k == 's') == signed: return x, 1
    return x, simp(x >= 0)        # the sign bit decides representability either way
def decide(e, st, c):
    if isinstance(c, int): return c
    if e.sat(st, c):
        if e.sat(st, z3.Not(c)):
            t = st.fork(); e.add(t, c); e.add(st, z3.Not(c)); raise Refork([t, st])
        return 1
    return 0
def FROM_CHARS(e, st, fr, I, f, v, a):
    end = e.conc(st, v[1], 'text end')
    t = token_at(e, st, v[0], end)
    if t is None:
        if f.body is None: raise Unsupported(f.name)
        return CALL_BODY
    k, x, n = t
    c = re.match(r'^_ZSt10from_charsI(\w)', f.name).group(1)
    if c in 'lmxy':
        val, ok = tok_int(e, st, k, x, 64, c in 'lx')
        if k in 'ns' and c in 'my':       # a negative number: no characters of it form an unsigned one
            if not decide(e, st, ok): return (v[0], 22)
        elif not decide(e, st, ok): return (v[0] + n, 34)
        e.store(st, v[2], e.ty64, val)
        return (v[0] + n, 0)
    raise Unsupported(f.name)
def _strto(signed):
    def h(e, st, fr, I, f, v, a):
        t = token_at(e, st, v[0])
        if t is None:
            p = e.conc(st, v[0], 'text'); txt = e.cstring(st, p); base = v[2] if isinstance(v[2], int) else 10
            m = re.match(r'[ \t\n\v\f\r]*([+-]?)(0[xX])?', txt) if base == 16 else re.match(r'[ \t\n\v\f\r]*([+-]?)()', txt)
            ds = re.match(r'[0-9a-fA-F]+' if base == 16 else r'[0-9]+', txt[m.end():])
            if base not in (10, 16): raise Unsupported('strtol base')
            if not ds:
                if v[1]: e.store(st, v[1], e.mod_ptr, p)
                return 0
            val = int(ds.group(0), base)
            if m.group(1) == '-': val = -val
            if v[1]: e.store(st, v[1], e.mod_ptr, p + m.end() + ds.end())
            lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (-(1 << 64) + 1, (1 << 64) - 1)
            if val < lo or val > hi:
                e.store(st, H['__errno_location'](e, st, fr, I, f, v, a), e.ty32, 34)
                val = (lo if val < lo else hi) if signed else hi
            return val & ((1 << 64) - 1)
        k, x, n = t
        val, ok = tok_int(e, st, k, x, 64, signed)
        if signed and not decide(e, st, ok):
            e.store(st, H['__errno_location'](e, st, fr, I, f, v, a), e.ty32, 34); val = (1 << 63) - 1
        if v[1]: e.store(st, v[1], e.mod_ptr, v[0] + n)
        return val
    return h
H['strtoll'] = H['__isoc23_strtoll'] = _strto(True)
H['strtoull'] = H['__isoc23_strtoull'] = H['strtoul'] = H['__isoc23_strtoul'] = _strto(False)
@hook('strtod')
def _(e, st, fr, I, f, v, a):
    t = token_at(e, st, v[0])
    p = v[0]
    if t is None:
        txt = e.cstring(st, p)
        m = re.match(r'[ \t\n\v\f\r]*[+-]?(inf(inity)?|nan|([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?)', txt, re.I)
        if not m:
            if v[1]: e.store(st, v[1], e.mod_ptr, p)
            return 0
        if v[1]: e.store(st, v[1], e.mod_ptr, p + m.end())
        s_ = m.group(0).strip(); x = float(s_)
        b = struct.unpack('<Q', struct.pack('<d', abs(x) if x == x else x))[0] & ((1 << 63) - 1) | ((1 << 63) if s_[0] == '-' else 0)
        if (x in (float('inf'), float('-inf')) and 'inf' not in s_.lower()) or (x == x and 0 < abs(x) < 2.2250738585072014e-308) or (x == 0 and re.search(r'[1-9]', re.split('[eE]', s_)[0])):
            e.store(st, H['__errno_location'](e, st, fr, I, f, v, a), e.ty32, 34)
        return b
    k, x, n = t
    if v[1]: e.store(st, v[1], e.mod_ptr, p + n)
    if k != 'd':
        z = z3.fpToIEEEBV((z3.fpSignedToFP if k in 'ns' else z3.fpUnsignedToFP)(z3.RNE(), x, z3.Float64()))
        return z
    # subnormal numbers set ERANGE in glibc's strtod
    ex = z3.Extract(62, 52, x); sub = z3.And(ex == 0, z3.Extract(51, 0, x) != 0)
    if decide(e, st, simp(sub)): e.store(st, H['__errno_location'](e, st, fr, I, f, v, a), e.ty32, 34)
    nan = z3.And(ex == 0x7ff, z3.Extract(51, 0, x) != 0)
    if decide(e, st, simp(nan)):
        y = e.fresh(64, 'nan'); e.add(st, z3.And(z3.Extract(62, 51, y) == 0xfff, z3.Extract(63, 63, y) == z3.Extract(63, 63, x))); return y
    return x

@hook('_ZSt10from_charsPKcS0_RdSt12chars_format')
def _(e, st, fr, I, f, v, a):
    end = e.conc(st, v[1], 'text end'); p = e.conc(st, v[0], 'text')
    if v[3] != 3: raise Unsupported('from_chars format')
    t = token_at(e, st, p, end)
    if t is None:
        txt = ''.join(chr(c) for c in (e.load(st, q, e.ty8) for q in range(p, end)) if isinstance(c, int))
        if len(txt) != end - p: raise Unsupported('from_chars of symbolic characters')
        m = re.match(r'-?(inf(inity)?|nan(\([A-Za-z0-9_]*\))?|([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?)', txt, re.I)
        if not m: return (p, 22)
        s_ = m.group(0); u = s_.lstrip('-').lower(); x = float('nan') if u.startswith('nan') else float(u)
        if (x == float('inf') and not u.startswith('inf')) or (x == 0 and re.search(r'[1-9]', u.split('e')[0])): return (p + m.end(), 34)
        b = struct.unpack('<Q', struct.pack('<d', x))[0] & ((1 << 63) - 1) | ((1 << 63) if s_[0] == '-' else 0)
        e.store(st, v[2], e.ty64, b)
        return (p + m.end(), 0)
    k, x, n = t
    if k != 'd': x = z3.fpToIEEEBV((z3.fpSignedToFP if k in 'ns' else z3.fpUnsignedToFP)(z3.RNE(), x, z3.Float64()))
    else:
        nan = z3.And(z3.Extract(62, 52, x) == 0x7ff, z3.Extract(51, 0, x) != 0)
        if decide(e, st, simp(nan)):
            y = e.fresh(64, 'nan'); e.add(st, z3.And(z3.Extract(62, 51, y) == 0xfff, z3.Extract(63, 63, y) == z3.Extract(63, 63, x))); x = y
    e.store(st, v[2], e.ty64, x)
    return (p + n, 0)

# ------------------------------------------------------------ intrinsics
for n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.assume', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.experimental.noalias.scope.decl',
          'llvm.invariant.start.p0', 'llvm.invariant.end.p0', 'llvm.stackrestore', 'llvm.stackrestore.p0', 'llvm.prefetch', 'llvm.donothing'):
    H[n] = NOP
H['llvm.stacksave'] = H['llvm.stacksave.p0'] = lambda e, st, fr, I, f, v, a: 0
def _id(e, st, fr, I, f, v, a): return v[0]
@pat(r'^llvm\.(memcpy|memmove)\.')
def _(e, st, fr, I, f, v, a): e.memcpy(st, v[0], v[1], v[2])
H['memcpy'] = H['memmove'] = lambda e, st, fr, I, f, v, a: (e.memcpy(st, v[0], v[1], v[2]), v[0])[1]
@pat(r'^llvm\.memset\.')
def _(e, st, fr, I, f, v, a): e.memset(st, v[0], v[1], v[2])
H['memset'] = lambda e, st, fr, I, f, v, a: (e.memset(st, v[0], v[1] & 255 if isinstance(v[1], int) else z3.Extract(7, 0, v[1]), v[2]), v[0])[1]
@pat(r'^llvm\.(expect|ssa\.copy|launder|strip|expect\.with)')
def _(e, st, fr, I, f, v, a): return v[0]
@pat(r'^llvm\.is\.constant')
def _(e, st, fr, I, f, v, a): return 0
@pat(r'^llvm\.(umax|umin|smax|smin)\.i')
def _(e, st, fr, I, f, v, a):
    k = f.name.split('.')[1]; ty = a[0][0]
    p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
    c = e.icmp(p, v[0], v[1], ty)
    if isinstance(c, int): return v[0] if c else v[1]
    return e.ite(c, v[0], v[1], ty)
@pat(r'^llvm\.abs\.i')
def _(e, st, fr, I, f, v, a):
    x = v[0]; w = a[0][0].bits
    if isinstance(x, int): return abs(sgn(x, w)) & ((1 << w) - 1)
    return z3.If(x < 0, -x, x)
@pat(r'^llvm\.([us])(add|sub|mul)\.with\.overflow\.i')
def _(e, st, fr, I, f, v, a):
    m = re.match(r'^llvm\.([us])(add|sub|mul)\.with', f.name); sg, op = m.groups()
    w = a[0][0].bits; x, y = v[0], v[1]
    if x is UNDEF: x = e.fresh(w)
    if y is UNDEF: y = e.fresh(w)
    if isinstance(x, int) and isinstance(y, int):
        if sg == 's': x = sgn(x, w); y = sgn(y, w)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        ok = (-(1 << (w - 1)) <= r < (1 << (w - 1))) if sg == 's' else (0 <= r < (1 << w))
        return (r & ((1 << w) - 1), int(not ok))
    x = bv(x, w); y = bv(y, w); s = sg == 's'
    if op == 'add':
        r = x + y
        ov = z3.And((x < 0) == (y < 0), (r < 0) != (x < 0)) if s else z3.ULT(r, x)
    elif op == 'sub':
        r = x - y
        ov = z3.And((x < 0) != (y < 0), (r < 0) != (x < 0)) if s else z3.ULT(x, y)
    else:
        r = x * y
        ext = z3.SignExt if s else z3.ZeroExt
        P = bv(simp(ext(w, x) * ext(w, y)), 2 * w)
        ov = P != z3.SignExt(w, r) if s else z3.Extract(2 * w - 1, w, P) != 0
    return (simp(r), simp(ov))
@pat(r'^llvm\.(u|s)(add|sub)\.sat\.i')
def _(e, st, fr, I, f, v, a):
    w = a[0][0].bits; x = bv(v[0], w); y = bv(v[1], w)
    m = re.match(r'^llvm\.(u|s)(add|sub)', f.name).groups()
    if m == ('u', 'sub'): return simp(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
    if m == ('u', 'add'): return simp(z3.If(z3.ULT(x + y, x), z3.BitVecVal(-1, w), x + y))
    raise Unsupported(f.name)
@pat(r'^llvm\.(ctpop|ctlz|cttz)\.i')
def _(e, st, fr, I, f, v, a):
    w = a[0][0].bits; x = v[0]; k = f.name.split('.')[1]
    if isinstance(x, int):
        if k == 'ctpop': return bin(x).count('1')
        if k == 'ctlz': return w - x.bit_length()
        return w if x == 0 else (x & -x).bit_length() - 1
    if k == 'ctpop':
        r = z3.BitVecVal(0, w)
        for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        return r
    r = z3.BitVecVal(w, w)
    rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
    for i in rng:
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if k == 'ctlz' else i, w), r)
    return r
@pat(r'^llvm\.bswap\.i')
def _(e, st, fr, I, f, v, a):
    w = a[0][0].bits; x = bv(v[0], w)
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
@pat(r'^llvm\.(fshl|fshr)\.i')
def _(e, st, fr, I, f, v, a):
    w = a[0][0].bits; x, y, z = [bv(k, w) for k in v]
    c = z3.Concat(x, y); sh = z3.ZeroExt(w, z3.URem(z, z3.BitVecVal(w, w)))
    if 'fshl' in f.name: return simp(z3.Extract(2 * w - 1, w, c << sh))
    return simp(z3.Extract(w - 1, 0, z3.LShR(c, sh)))
@pat(r'^llvm\.fabs\.f64')
def _(e, st, fr, I, f, v, a):
    return v[0] & ((1 << 63) - 1) if isinstance(v[0], int) else v[0] & z3.BitVecVal((1 << 63) - 1, 64)
@pat(r'^llvm\.is\.fpclass\.f(32|64)')
def _(e, st, fr, I, f, v, a):
    w = 64 if f.name.endswith('64') else 32
    eb, mb = (11, 52) if w == 64 else (8, 23)
    x = bv(v[0], w); m = v[1]
    sg = z3.Extract(w - 1, w - 1, x) == 1; ex = z3.Extract(w - 2, mb, x); fr_ = z3.Extract(mb - 1, 0, x)
    e1 = ex == (1 << eb) - 1; e0 = ex == 0; z = fr_ == 0; q = z3.Extract(mb - 1, mb - 1, x) == 1
    en = z3.And(z3.Not(e1), z3.Not(e0)); ng = z3.Not(sg)
    cl = [z3.And(e1, z3.Not(z), z3.Not(q)), z3.And(e1, q), z3.And(e1, z, sg), z3.And(en, sg), z3.And(e0, z3.Not(z), sg), z3.And(e0, z, sg),
          z3.And(e0, z, ng), z3.And(e0, z3.Not(z), ng), z3.And(en, ng), z3.And(e1, z, ng)]
    r = simp(z3.Or(*[c for i, c in enumerate(cl) if m >> i & 1]))
    if z3.is_true(r) if isz(r) else False: return 1
    if z3.is_false(r) if isz(r) else False: return 0
    return r
@pat(r'^llvm\.eh\.typeid\.for')
def _(e, st, fr, I, f, v, a): return e.tid(v[0])
@pat(r'^llvm\.(trap|debugtrap|ubsantrap)')
def _(e, st, fr, I, f, v, a): e.definite_failure(st, 'trap', 'trap reached')
@pat(r'^llvm\.fmuladd\.f64')
def _(e, st, fr, I, f, v, a):
    t = a[0][0]
    return e.fbin('fadd', e.fbin('fmul', v[0], v[1], t), v[2], t)
@pat(r'^llvm\.load\.relative')
def _(e, st, fr, I, f, v, a): raise Unsupported(f.name)

# ------------------------------------------------------------ allocation
@hook('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t')
def _(e, st, fr, I, f, v, a):
    n = e.conc(st, v[0], 'allocation size')
    if n > (1 << 31):
        if f.name == 'malloc': return 0
        return throw_std(e, st, fr, I, '_ZTISt9bad_alloc')
    return e.new_obj(st, n, 'heap', f.name).base
@hook('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(e, st, fr, I, f, v, a):
    p = e.conc(st, v[0], 'pointer to free')
    if p == 0: return
    o = st.objs.get(p >> SH)
    if o is None or o.kind not in ('heap', 'exc') or p & OFFMASK: e.fail_mem(st, 'free of a pointer that is not a heap block', p)
    if not o.alive: e.fail_mem(st, 'double free', p)
    o = e.wobj(st, o); o.alive = False; o.cells = {}; o.arr = None

# ------------------------------------------------------------ exceptions
def exc_types(st, p, ti):
    d = dict(st.ghost.get('exti', {})); d[p] = ti; st.ghost['exti'] = d
def throw_std(e, st, fr, I, name):
    o = e.new_obj(st, 64, 'exc', name); o.cells[0] = (8, e.exc_vptr)
    ti = e.gaddr.get(name, name)
    exc_types(st, o.base, ti)
    return e.throw_here(st, fr, I, o.base, ti)
@hook('__cxa_allocate_exception')
def _(e, st, fr, I, f, v, a): return e.new_obj(st, v[0], 'exc').base
@hook('__cxa_free_exception')
def _(e, st, fr, I, f, v, a): pass
@hook('__cxa_throw')
def _(e, st, fr, I, f, v, a):
    exc_types(st, v[0], v[1])
    return e.throw_here(st, fr, I, v[0], v[1])
@hook('__cxa_begin_catch')
def _(e, st, fr, I, f, v, a):
    st.caught.append(v[0]); return v[0]
@hook('__cxa_get_exception_ptr')
def _(e, st, fr, I, f, v, a): return v[0]
@hook('__cxa_end_catch')
def _(e, st, fr, I, f, v, a):
    if st.caught: st.caught.pop()
@hook('__cxa_rethrow')
def _(e, st, fr, I, f, v, a):
    p = st.caught[-1]
    return e.throw_here(st, fr, I, p, st.ghost['exti'][p])
@hook('_Unwind_Resume')
def _(e, st, fr, I, f, v, a):
    p = v[0]
    return e.throw_here(st, fr, I, p, st.ghost['exti'][p])
@hook('__cxa_bad_typeid', '__cxa_bad_cast')
def _(e, st, fr, I, f, v, a): return throw_std(e, st, fr, I, '_ZTISt8bad_cast')
THROWS = {'out_of_range_fmt': '_ZTISt12out_of_range', 'out_of_range': '_ZTISt12out_of_range', 'length_error': '_ZTISt12length_error',
          'logic_error': '_ZTISt11logic_error', 'invalid_argument': '_ZTISt16invalid_argument', 'bad_alloc': '_ZTISt9bad_alloc',
          'bad_function_call': '_ZTISt17bad_function_call', 'bad_array_new_length': '_ZTISt20bad_array_new_length', 'bad_cast': '_ZTISt8bad_cast',
          'runtime_error': '_ZTISt13runtime_error', 'domain_error': '_ZTISt12domain_error', 'bad_optional_access': '_ZTISt19bad_optional_access',
          'system_error': '_ZTISt12system_error', 'bad_variant_access': '_ZTISt18bad_variant_access', 'overflow_error': '_ZTISt14overflow_error', 'range_error': '_ZTISt11range_error'}
@pat(r'^_ZSt\d+__throw_')
def _(e, st, fr, I, f, v, a):
    m = re.match(r'^_ZSt\d+__throw_([a-z_]+)', f.name)
    k = m.group(1)
    for n in sorted(THROWS, key=len, reverse=True):
        if k.startswith(n): return throw_std(e, st, fr, I, THROWS[n])
    raise Unsupported(f.name)
def _noexc_ctor(e, st, fr, I, f, v, a):
    # constructors/assignment of std exception classes: only the vptr matters, when its table is known
    m = re.match(r'^_ZNSt(\d+\w+?)C[12]E', f.name)
    return None
@pat(r'^_ZNSt(9exception|13runtime_error|11logic_error|12out_of_range|16invalid_argument|12length_error|12domain_error|14overflow_error|11range_error|8bad_cast|9bad_alloc|18bad_variant_access|19bad_optional_access|12system_error)[CD][0-2]E')
def _(e, st, fr, I, f, v, a):
    if 'D' not in f.name.rsplit('E', 2)[0][-3:]: e.store(st, v[0], e.mod_ptr, e.exc_vptr)
    return None
@pat(r'^_ZNSt(13runtime_error|11logic_error|9exception|12out_of_range)aSE')
def _(e, st, fr, I, f, v, a): return v[0]
@pat(r'^_ZNKSt(\d+\w+)4whatEv$')
def _(e, st, fr, I, f, v, a):
    o = e.new_obj(st, 1, 'global', 'what'); o.cells[0] = (1, 0); return o.base
@hook('_ZSt9terminatev', 'abort', '__clang_call_terminate', '_ZSt10unexpectedv')
def _(e, st, fr, I, f, v, a): e.definite_failure(st, 'terminate', f.name + ' called')
@hook('exit', '_exit', 'quick_exit')
def _(e, st, fr, I, f, v, a): e.definite_failure(st, 'terminate', f.name + ' called')
@hook('__assert_fail')
def _(e, st, fr, I, f, v, a): e.definite_failure(st, 'assert', e.cstring(st, v[0]))
@pat(r'^_ZSt21__glibcxx_assert_failPKciS0_S0_$')
def _(e, st, fr, I, f, v, a): e.definite_failure(st, 'library-precondition', e.cstring(st, v[3]))
@hook('__cxa_pure_virtual')
def _(e, st, fr, I, f, v, a): e.definite_failure(st, 'memory-safety', 'pure virtual call')
@hook('_ZSt18uncaught_exceptionv', '_ZSt19uncaught_exceptionsv')
def _(e, st, fr, I, f, v, a): return 0
# exception_ptr: the exception object's address
@hook('_ZSt17current_exceptionv')
def _(e, st, fr, I, f, v, a):
    e.store(st, v[0], e.mod_ptr, st.caught[-1] if st.caught else 0)
@hook('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _(e, st, fr, I, f, v, a):
    p = e.load(st, v[0], e.mod_ptr); p = e.conc(st, p, 'exception_ptr')
    return e.throw_here(st, fr, I, p, st.ghost['exti'][p])
@pat(r'^_ZNSt15__exception_ptr13exception_ptr(9_M_addref|10_M_release|4swap)')
def _(e, st, fr, I, f, v, a): return None
@pat(r'^_ZNSt15__exception_ptr13exception_ptr[CD]')
def _(e, st, fr, I, f, v, a):
    if 'C' in f.name[len('_ZNSt15__exception_ptr13exception_ptr'):][:1] and len(v) == 2:
        e.store(st, v[0], e.mod_ptr, e.load(st, v[1], e.mod_ptr))
    elif len(v) == 1 and f.name.endswith(('C1Ev', 'C2Ev')): e.store(st, v[0], e.mod_ptr, 0)

# ------------------------------------------------------------ static init, rtti
@hook('__cxa_atexit', '__cxa_thread_atexit', 'atexit')
def _(e, st, fr, I, f, v, a): return 0
@hook('__cxa_guard_acquire')
def _(e, st, fr, I, f, v, a):
    o, off = e.find(st, v[0], 1)
    b = e.rd(st, o, off, 1)
    return 0 if b == 1 else 1
@hook('__cxa_guard_release')
def _(e, st, fr, I, f, v, a):
    o, off = e.find(st, v[0], 1); e.wr(e.wobj(st, o), off, 1, 1)
@hook('__cxa_guard_abort')
def _(e, st, fr, I, f, v, a): pass
@hook('__dynamic_cast')
def _(e, st, fr, I, f, v, a):
    p = e.conc(st, v[0], 'dynamic_cast operand')
    if p == 0: return 0
    vp = e.conc(st, e.load(st, p, e.mod_ptr), 'vptr')
    ti = e.conc(st, e.load(st, vp - 8, e.mod_ptr), 'typeinfo')
    top = sgn(e.conc(st, e.load(st, vp - 16, e.mod_ptr), 'offset to top'), 64)
    if e.ti_match(ti, v[2]): return (p + top) & ((1 << 64) - 1)
    return 0

# ------------------------------------------------------------ libc
def _bytes(e, st, addr, n):
    if n == 0: return []
    addr = e.conc(st, addr, 'address')
    o, off = e.find(st, addr, n)
    if o.arr is not None: return [e.rd(st, o, off + i, 1) for i in range(n)]
    return [e.fresh(8) if b is UNDEF else b for b in e.rd_bytes(o, off, n)]
@hook('memcmp', 'bcmp', '__builtin_memcmp')
def _(e, st, fr, I, f, v, a):
    n = e.conc(st, v[2], 'memcmp length')
    x = _bytes(e, st, v[0], n); y = _bytes(e, st, v[1], n)
    if all(isinstance(b, int) for b in x + y):
        for p, q in zip(x, y):
            if p != q: return 1 if p > q else 0xffffffff
        return 0
    r = z3.BitVecVal(0, 32)
    for p, q in reversed(list(zip(x, y))):
        P_, Q = bv(p, 8), bv(q, 8)
        r = z3.If(z3.ULT(P_, Q), z3.BitVecVal(-1, 32), z3.If(z3.UGT(P_, Q), z3.BitVecVal(1, 32), r))
    return simp(r)
@hook('strlen')
def _(e, st, fr, I, f, v, a):
    addr = e.conc(st, v[0], 'string'); n = 0
    while True:
        o, off = e.find(st, addr + n, 1)
        b = e.rd(st, o, off, 1)
        if isz(b): b = simp(b)
        if isinstance(b, int):
            if b == 0: return n
        else:
            if e.sat(st, b == 0):
                if e.sat(st, b != 0):
                    t = st.fork(); e.add(t, b == 0); e.add(st, b != 0); raise Refork([t, st])
                return n
        n += 1
@hook('memchr')
def _(e, st, fr, I, f, v, a):
    n = e.conc(st, v[2], 'memchr length'); addr = e.conc(st, v[0], 'memchr')
    x = _bytes(e, st, addr, n)
    c = v[1] & 255 if isinstance(v[1], int) else z3.Extract(7, 0, v[1])
    if isinstance(c, int) and all(isinstance(b, int) for b in x):
        for i, b in enumerate(x):
            if b == c: return addr + i
        return 0
    # split: first match position
    neg = []
    for i, b in enumerate(x):
        eq = simp(bv(b, 8) == bv(c, 8))
        if isinstance(eq, int):
            if eq: return addr + i if not neg else _ret_here(e, st, addr + i)
            continue
        if e.sat(st, eq):
            if e.sat(st, z3.Not(eq)):
                t = st.fork(); e.add(t, eq); e.add(st, z3.Not(eq)); raise Refork([t, st])
            return addr + i
    return 0
def _ret_here(e, st, x): return x
@hook('log2', 'llvm.log2.f64')
def _(e, st, fr, I, f, v, a):
    x = e.conc(st, v[0], 'log2 argument')
    d = struct.unpack('<d', struct.pack('<Q', x))[0]
    if d > 0: r = math.log2(d)
    elif d == 0: r = float('-inf')
    else: r = float('nan')
    return struct.unpack('<Q', struct.pack('<d', r))[0]
@hook('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_cond_broadcast', 'pthread_cond_signal')
def _(e, st, fr, I, f, v, a): return 0
@hook('__errno_location')
def _(e, st, fr, I, f, v, a):
    p = st.ghost.get('errno')
    if p is None:
        o = e.new_obj(st, 4, 'global', 'errno'); o.cells[0] = (4, 0); p = st.ghost['errno'] = o.base
    return p
# logging: output only, nothing flows back
H['_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale'] = NOP
@hook('_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc', '_ZNKSt9basic_iosIcSt11char_traitsIcEE6narrowEcc')
def _(e, st, fr, I, f, v, a): return v[1]
@pat(r'^_ZNSt6locale[CD]|^_ZNSt8ios_base7_M_initEv|^_ZNSt8ios_base[CD][0-2]Ev|^_ZNSt6localeaSERKS_')
def _(e, st, fr, I, f, v, a):
    if f.name.startswith('_ZNSt8ios_baseC') or f.name == '_ZNSt8ios_base7_M_initEv':
        # flags skipws|dec, precision 6, width 0, exceptions none, state good (layout of libstdc++'s ios_base)
        p = v[0]
        e.store(st, p + 8, e.ty64, 6); e.store(st, p + 16, e.ty64, 0); e.store(st, p + 24, e.ty32, 0x1002)
        e.store(st, p + 28, e.ty32, 0); e.store(st, p + 32, e.ty32, 0)
    return None
@hook('_ZNSt6locale7classicEv', '_ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv_')
def _(e, st, fr, I, f, v, a): return e.gaddr_any(st)
@pat(r'^_ZNSt8ios_base4Init[CD]')
def _(e, st, fr, I, f, v, a): return None
# streams handed out by the harness: values written are recorded, values read come from the harness
@hook('vf_ostream', 'vf_istream')
def _(e, st, fr, I, f, v, a):
    key = 'stream%s%s' % (f.name[3], v[0] if v else '')
    p = st.ghost.get(key)
    if p is None:
        p = e.new_obj(st, 4096, 'heap', key).base
        st.ghost[key] = p; st.ghost['out', p] = ()
    return p
def _out(kind, w, signed):
    def h(e, st, fr, I, f, v, a):
        if _to_stderr(e, v[0]): return v[0]
        if not (isinstance(v[0], int) and ('out', v[0]) in st.ghost):
            if f.body is not None: return CALL_BODY
        else:
            x = v[1]
            if isz(x): x = simp((z3.SignExt if signed else z3.ZeroExt)(64 - w, x)) if w < 64 else x
            elif x is not UNDEF: x = (sgn(x, w) if signed else x) & ((1 << 64) - 1)
            st.ghost['out', v[0]] = st.ghost['out', v[0]] + ((kind, x),)
        return v[0]
    return h
H['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'] = _out(1, 8, True)
H['_ZNSolsEi'] = _out(2, 32, True); H['_ZNSolsEl'] = H['_ZNSolsEx'] = _out(2, 64, True)
H['_ZNSolsEj'] = _out(2, 32, False); H['_ZNSolsEm'] = H['_ZNSolsEy'] = _out(2, 64, False)
H['_ZNSolsEs'] = _out(2, 16, True); H['_ZNSolsEt'] = _out(2, 16, False)
H['_ZNSo3putEc'] = _out(1, 8, True)
@hook('_ZNSolsEPFRSoS_E', '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_')
def _(e, st, fr, I, f, v, a):
    if not (isinstance(v[0], int) and ('out', v[0]) in st.ghost) and not _to_stderr(e, v[0]) and f.body is not None: return CALL_BODY
    return v[0]
# what goes to the error stream is no observable behaviour of any property
def _to_stderr(e, v): return isinstance(v, int) and v in (e.gaddr.get('_ZSt4cerr'), e.gaddr.get('_ZSt4clog'))
@hook('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZNSo5flushEv', *['_ZNSo9_M_insertI%sEERSoT_' % c for c in ('b', 'l', 'm', 'x', 'y', 'd', 'e', 'PKv')])
def _(e, st, fr, I, f, v, a):
    if _to_stderr(e, v[0]): return v[0]
    if f.body is None: raise Unsupported(f.name)
    return CALL_BODY
@hook('vf_out_count')
def _(e, st, fr, I, f, v, a): return len(st.ghost.get(('out', st.ghost.get('streamo%s' % v[0])), ()))
@hook('vf_out_value')
def _(e, st, fr, I, f, v, a):
    x = st.ghost['out', st.ghost['streamo%s' % v[0]]][v[1]]
    return x[1]
@hook('vf_in_push')
def _(e, st, fr, I, f, v, a): st.ghost['in'] = st.ghost.get('in', ()) + (v[0],)
@hook('_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_', '_ZNSi3getERc')
def _(e, st, fr, I, f, v, a):
    if v[0] != st.ghost.get('streami') and f.body is not None: return CALL_BODY
    q = st.ghost.get('in', ())
    if v[0] != st.ghost.get('streami') or not q: raise Unsupported('input stream')
    st.ghost['in'] = q[1:]
    o, off = e.find(st, v[1], 1, True); e.wr(e.wobj(st, o), off, 1, q[0])
    return v[0]
@hook('_ZNSi3getEv')
def _(e, st, fr, I, f, v, a):
    if v[0] != st.ghost.get('streami') and f.body is not None: return CALL_BODY
    q = st.ghost.get('in', ())
    if v[0] != st.ghost.get('streami') or not q: raise Unsupported('input stream')
    st.ghost['in'] = q[1:]
    return z3.ZeroExt(24, q[0]) if isz(q[0]) else q[0]
@pat(r'^(_ZStls|_ZNSo|_ZSt4endl|_ZSt16__ostream_insert|_ZSt5flush)')
def _(e, st, fr, I, f, v, a): return v[0] if v else None
@pat(r'^_ZNSt11_Hash_bytes')
def _(e, st, fr, I, f, v, a): raise Unsupported(f.name)
@hook('_ZSt11_Hash_bytesPKvmm')
def _(e, st, fr, I, f, v, a): return 0    # any function of the bytes is a legal hash

@hook('_ZNK4tiny3t8611Instruction8toStringB5cxx11Ev')
def _(e, st, fr, I, f, v, a):
    """text of an instruction for the log: an empty string (log output is not modelled)"""
    if e.opts.get('text') and not any('ReservationStation' in x.f.name for x in st.frames): return CALL_BODY
    p = v[0]
    e.store(st, p, e.mod_ptr, p + 16); e.store(st, p + 8, e.mod_ptr, 0)
    o, off = e.find(st, p + 16, 1, True); e.wr(e.wobj(st, o), off, 1, 0)
@pat(r'^_ZNK?4tiny3t8611StatsLogger')
def _(e, st, fr, I, f, v, a):
    r = I.ty.k
    if r == 'void': return None
    if r == 'ptr': return e.gaddr_any(st)
    return 0
