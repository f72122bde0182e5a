"""irvc: verification-condition generator for LLVM IR.

A contract harness (C++ function with vf_assume / vf_ensure) is executed
symbolically over the IR that clang generates from /repo's sources.  Every
path condition is carried exactly; every obligation (explicit postcondition,
assert() in the code, memory bounds, division traps, uncaught exceptions,
unreachable code) is decided by an SMT solver for all values of the symbolic
inputs.  Nothing is sampled.  Constructs that are not understood raise
Unsupported: the run is then an error, not a verdict."""
import sys, time, re, subprocess, os, tempfile
import z3
from llparse import Module, Func, Ty, Undef, CE, GRef, ParseError, PTR, IntTy

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
SH = 32                      # object id << SH = base address
OFFMASK = (1 << SH) - 1
FUNC_BASE = 0x7E00000000000000

class Unsupported(Exception): pass
class PathEnd(Exception):
    def __init__(s, why): s.why = why
class Refork(Exception):
    """current instruction must be re-executed in the given states"""
    def __init__(s, states): s.states = states

class _U:
    def __repr__(s): return 'UNDEF'
    def __deepcopy__(s, m): return s
UNDEF = _U()

BV = z3.BitVecRef
BoolT = z3.BoolRef
def isz(v): return isinstance(v, z3.ExprRef)

def bv(v, w):
    if isinstance(v, int): return z3.BitVecVal(v, w)
    return v
def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v
def tobool(v):
    if isinstance(v, int): return z3.BoolVal(bool(v))
    return v
def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

class Obj:
    __slots__ = ('base', 'size', 'cells', 'kind', 'alive', 'owner', 'name', 'arr', 'const')
    def __init__(s, base, size, kind, name=''):
        s.base = base; s.size = size; s.kind = kind; s.cells = {}; s.alive = True; s.owner = None; s.name = name; s.arr = None; s.const = False
    def copy(s):
        o = Obj.__new__(Obj)
        o.base = s.base; o.size = s.size; o.kind = s.kind; o.cells = dict(s.cells); o.alive = s.alive; o.name = s.name; o.arr = s.arr; o.owner = None; o.const = s.const
        return o

class Frame:
    __slots__ = ('f', 'block', 'code', 'ip', 'env', 'prev', 'dst', 'norm', 'unw', 'allocas', 'visits', 'retty')
    def __init__(s, f):
        s.f = f; s.env = {}; s.ip = 0; s.prev = None; s.dst = None; s.norm = None; s.unw = None; s.allocas = []; s.visits = {}
    def copy(s):
        n = Frame.__new__(Frame)
        n.f = s.f; n.block = s.block; n.code = s.code; n.ip = s.ip; n.env = dict(s.env); n.prev = s.prev; n.dst = s.dst; n.norm = s.norm; n.unw = s.unw
        n.allocas = list(s.allocas); n.visits = dict(s.visits)
        return n

class State:
    _n = 0
    def __init__(s):
        s.frames = []; s.objs = {}; s.nextid = 1; s.pc = []; s.model = None; s.nd = []; s.caught = []; s.steps = 0
        s.exc = None; s.log = []; s.covers = set(); s.forks = 0; s.ghost = {}
        s.co = None      # the other context of a coroutine pair: [frames, caught, exc]
        s.in_co = False
        State._n += 1; s.id = State._n
    def fork(s):
        n = State.__new__(State)
        State._n += 1; n.id = State._n
        n.frames = [f.copy() for f in s.frames]; n.objs = dict(s.objs); n.nextid = s.nextid
        n.pc = list(s.pc); n.model = s.model; n.nd = list(s.nd); n.caught = list(s.caught); n.steps = s.steps; n.exc = s.exc; n.log = list(s.log)
        n.covers = set(s.covers); n.forks = s.forks; n.ghost = dict(s.ghost)
        n.in_co = s.in_co
        n.co = None if s.co is None else [[f.copy() for f in s.co[0]], list(s.co[1]), s.co[2]]
        # both sides lose ownership: copy on write
        State._n += 1; s.id = State._n
        return n

STD_BASES = {
 '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
 '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
 '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
 '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
 '_ZTISt18bad_variant_access': ['_ZTISt9exception'], '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
 '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
 '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
 '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt9exception': [],
}

def mul_other(A, B):
    """A = x*B (in either order) -> x"""
    if z3.is_app_of(A, z3.Z3_OP_BMUL) and A.num_args() == 2:
        p, q = A.arg(0), A.arg(1)
        return q if p.eq(B) else p if q.eq(B) else None

class Failure:
    def __init__(s, label, kind, where, model, nd, log, detail=''):
        s.label = label; s.kind = kind; s.where = where; s.model = model; s.nd = nd; s.log = log; s.detail = detail

class Engine:
    def __init__(s, mod, hooks=None, opts=None):
        s.mod = mod; s.opts = opts or {}
        s.solver_to = s.opts.get('solver_ms', 60000)
        s.gaddr = {}; s.faddr = {}; s.fbyaddr = {}; s.gname = {}
        s.user_hooks = hooks or {}
        s.stats = dict(obligations=0, discharged=0, paths=0, queries=0, solver_s=0.0, steps=0, infeasible=0)
        s.by_label = {}
        s.failures = []; s.undecided = []
        s.covers = set(); s.symc = 0
        s.sol = z3.Solver(); s.sol.set('timeout', 3000); s.sstack = []
        s.tids = {}
        s.external_used = set(); s.visited = set()
        s.max_steps = s.opts.get('max_steps', 20_000_000)
        s.max_visits = s.opts.get('max_visits', 300)
        s.deadline = None
        s.init_state = State(); s.mod_ptr = PTR; s.ty8 = IntTy(8); s.ty32 = IntTy(32); s.ty64 = IntTy(64)
        s.setup_globals()

    # ------------------------------------------------------------ globals
    def setup_globals(s):
        st = s.init_state
        for i, (n, f) in enumerate(s.mod.funcs.items()):
            a = FUNC_BASE + (i + 1) * 16
            s.faddr[n] = a; s.fbyaddr[a] = f
        for i, n in enumerate(('_ZNSt9exceptionD2Ev', '_ZNKSt9exception4whatEv')):
            if n not in s.faddr:
                f = Func(n); f.mod = s.mod; f.params = []; f.pattrs = []; f.vararg = False; f.attrs = None; f.ret = PTR if i else None
                s.mod.funcs.setdefault(n, f)
                a = FUNC_BASE + (len(s.mod.funcs) + 8 + i) * 16; s.faddr[n] = a; s.fbyaddr[a] = f
        slots = {16: '_ZNSt9exceptionD2Ev', 24: '_ZNSt9exceptionD2Ev', 32: '_ZNKSt9exception4whatEv'}
        o = s.new_obj(st, 40, 'global', 'vtable of a standard exception'); s.exc_vptr = o.base + 16
        for k, n in slots.items(): o.cells[k] = (8, s.faddr[n])
        for n, (t, init, const, ext) in s.mod.globals.items():
            if ext:
                o = s.new_obj(st, 4096, 'extern', n)
                if n.startswith('_ZTVSt') and '__cxxabiv' not in n:
                    for k, m in slots.items(): o.cells[k] = (8, s.faddr[m])
            else:
                o = s.new_obj(st, t.size(), 'global', n)
                o.const = const
            s.gaddr[n] = o.base; s.gname[o.base] = n
        for n, (t, init, const, ext) in s.mod.globals.items():
            if init is not None:
                o = st.objs[s.gaddr[n] >> SH]
                s.init_store(o, 0, t, init)

    def init_store(s, o, off, t, v):
        t = t.resolve()
        if t.k in ('int', 'ptr', 'fp'):
            v = s.const(v)
            if v is UNDEF: return
            o.cells[off] = (t.size(), v)
        elif t.k in ('arr', 'vec'):
            if isinstance(v, Undef): return
            es = t.elt.size()
            for i, e in enumerate(v): s.init_store(o, off + i * es, t.elt, e)
        elif t.k == 'struct':
            if isinstance(v, Undef): return
            for fo, ft, e in zip(t.offsets(), t.fields, v): s.init_store(o, off + fo, ft, e)
        else: raise Unsupported('init ' + t.k)

    def const(s, v):
        """resolve link-time constants to plain values"""
        if isinstance(v, (int, str)) or v is None: return v
        if isinstance(v, Undef): return s.undef_of(v.ty)
        if isinstance(v, tuple): return tuple(s.const(x) for x in v)
        if isinstance(v, GRef):
            n = v.n
            while n in s.mod.aliases:
                a = s.mod.aliases[n]
                if isinstance(a, GRef): n = a.n
                else: return s.const(a)
            if n in s.gaddr: return s.gaddr[n]
            if n in s.faddr: return s.faddr[n]
            raise Unsupported('unknown global ' + n)
        if isinstance(v, CE):
            if v.op in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast'):
                return s.const(v.a[0])
            if v.op == 'trunc': return s.const(v.a[0]) & ((1 << v.ty[1].bits) - 1)
            if v.op == 'zext': return s.const(v.a[0])
            if v.op == 'gep':
                return s.gep(v.ty, s.const(v.a[0]), [(t, s.const(i)) for t, i in v.a[1]])
            if v.op in ('add', 'sub'):
                a = s.const(v.a[0]); b = s.const(v.a[1])
                return (a + b if v.op == 'add' else a - b) & ((1 << v.ty.bits) - 1)
            raise Unsupported('constexpr ' + v.op)
        return v
    def undef_of(s, ty):
        t = ty.resolve()
        if t.k in ('arr', 'vec'): return (s.undef_of(t.elt),) * t.n
        if t.k == 'struct': return tuple(s.undef_of(f) for f in t.fields)
        return UNDEF

    # ------------------------------------------------------------ memory
    def new_obj(s, st, size, kind, name=''):
        i = st.nextid; st.nextid = i + 1
        o = Obj(i << SH, size, kind, name); o.owner = st.id
        st.objs[i] = o
        return o
    def wobj(s, st, o):
        if o.owner != st.id:
            o = o.copy(); o.owner = st.id; st.objs[o.base >> SH] = o
        return o

    def fresh(s, w, name='u'):
        s.symc += 1
        if w == 1: return z3.Bool('%s!%d' % (name, s.symc))
        return z3.BitVec('%s!%d' % (name, s.symc), w)

    def fail_mem(s, st, what, addr):
        s.definite_failure(st, 'memory-safety', '%s at address %s' % (what, hex(addr) if isinstance(addr, int) else addr))

    def find(s, st, addr, n, write=False):
        """-> (obj, off) for a concrete address, or raises PathEnd after recording a failure"""
        o = st.objs.get(addr >> SH)
        if o is None or not o.alive:
            if addr < 4096: s.fail_mem(st, 'null pointer access', addr)
            elif o is None: s.fail_mem(st, 'wild pointer access', addr)
            else: s.fail_mem(st, 'use after free/scope (%s)' % o.kind, addr)
        off = addr & OFFMASK
        if isinstance(o.size, int):
            if off + n > o.size:
                s.fail_mem(st, 'out-of-bounds %s of %d bytes at offset %d of %s %s (size %d)' % ('write' if write else 'read', n, off, o.kind, o.name, o.size), addr)
        else:
            s.oblige(st, z3.ULE(z3.BitVecVal(off + n, 64), o.size), 'memory-safety', 'bounds of symbolic-size object')
        if write and o.const:
            s.fail_mem(st, 'write to constant ' + o.name, addr)
        return o, off

    def resolve(s, st, addr, n, write=False):
        """symbolic address -> concrete (by case split) or (obj, symbolic offset) for array objects"""
        addr = simp(addr)
        if isinstance(addr, int): return addr
        # array-mode object?
        m = s.get_model(st)
        a0 = m.eval(addr, model_completion=True).as_long()
        o = st.objs.get(a0 >> SH)
        vals = s.enum_values(st, addr, 25)
        if vals is not None:
            if len(vals) == 1: return vals[0]
            states = []
            for v in vals:
                t = st.fork(); s.add(t, addr == v); states.append(t)
            raise Refork(states)
        if o is None or not o.alive or o.kind == 'extern':
            # split off this value
            t = st.fork(); s.add(t, addr == a0)
            s.add(st, addr != a0)
            raise Refork([t, st])
        lo = o.base
        inr = z3.And(z3.UGE(addr, lo), z3.ULE(addr, lo + (OFFMASK)))
        if s.sat(st, z3.Not(inr)):
            t = st.fork(); s.add(t, inr); s.add(st, z3.Not(inr))
            raise Refork([t, st])
        off = simp(addr - lo)
        if isinstance(off, int): return lo + off
        # bounds
        if isinstance(o.size, int):
            s.oblige(st, z3.ULE(off, o.size - n) if o.size >= n else z3.BoolVal(False), 'memory-safety', 'index within object %s' % o.name)
        else:
            s.oblige(st, z3.And(z3.ULE(off + n, o.size), z3.ULE(off, o.size)), 'memory-safety', 'index within object %s' % o.name)
        if n != 8: raise Unsupported('symbolic-offset access of %d bytes' % n)
        al = simp(z3.Extract(2, 0, off))
        if al != 0:
            if s.sat(st, z3.Extract(2, 0, off) != 0): raise Unsupported('unaligned symbolic offset')
        if o.arr is None:
            o = s.wobj(st, o); s.to_array(o)
        return (o, simp(z3.LShR(off, 3)))

    def to_array(s, o):
        if not isinstance(o.size, int): raise Unsupported('symbolic size non-array object')
        vals = {}
        for off, (n, v) in o.cells.items():
            if n != 8 or off % 8: raise Unsupported('object %s not an array of 8-byte cells' % o.name)
            vals[off // 8] = v
        base = None
        if len(vals) == o.size // 8:
            from collections import Counter
            c = Counter(v for v in vals.values() if isinstance(v, int)).most_common(1)
            if c: base = c[0][0]
        if base is None:
            s.symc += 1
            arr = z3.Array('mem!%d' % s.symc, z3.BitVecSort(64), z3.BitVecSort(64))
        else:
            arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(base, 64))
        for i, v in sorted(vals.items()):
            if isinstance(v, int) and v == base: continue
            arr = z3.Store(arr, z3.BitVecVal(i, 64), bv(v, 64))
        o.arr = arr; o.cells = {}

    def rd_bytes(s, o, off, n):
        """list of n byte values (int / BV8 / UNDEF)"""
        out = []
        cells = o.cells
        i = off
        while i < off + n:
            hit = None
            for back in range(0, 16):
                c = cells.get(i - back)
                if c is not None:
                    if c[0] > back: hit = (i - back, c)
                    break
            if hit is None:
                out.append(UNDEF); i += 1; continue
            co, (cn, cv) = hit
            k = i - co
            while k < cn and i < off + n:
                if isinstance(cv, int): out.append((cv >> (8 * k)) & 255)
                else: out.append(z3.Extract(8 * k + 7, 8 * k, cv))
                k += 1; i += 1
        return out

    def rd(s, st, o, off, n):
        """read n bytes as one value of 8n bits (int/BV/UNDEF)"""
        if o.arr is not None:
            if n == 8 and off % 8 == 0: return z3.Select(o.arr, z3.BitVecVal(off // 8, 64))
            e = z3.Select(o.arr, z3.BitVecVal(off // 8, 64))
            k = off % 8
            if k + n > 8: raise Unsupported('straddling array read')
            return z3.Extract(8 * (k + n) - 1, 8 * k, e)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        bs = s.rd_bytes(o, off, n)
        if all(b is UNDEF for b in bs): return UNDEF
        bs = [s.fresh(8, 'uninit') if b is UNDEF else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        e = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0]
        return simp(e)

    def clear_range(s, o, off, n):
        cells = o.cells
        # cells starting before off and overlapping
        for back in range(1, 16):
            p = off - back
            c = cells.get(p)
            if c is not None:
                if c[0] > back: s.split(o, p)
                break
        end = off + n
        if n <= 64:
            for p in range(off, end):
                c = cells.get(p)
                if c is not None:
                    if p + c[0] > end: s.split(o, p)
                    cells.pop(p, None)
        else:
            for p in [p for p in cells if off <= p < end]:
                c = cells[p]
                if p + c[0] > end:
                    s.split(o, p)
            for p in [p for p in cells if off <= p < end]: del cells[p]
    def split(s, o, p):
        n, v = o.cells.pop(p)
        for k in range(n):
            if isinstance(v, int): b = (v >> (8 * k)) & 255
            else: b = z3.Extract(8 * k + 7, 8 * k, v)
            o.cells[p + k] = (1, b)

    def wr(s, o, off, n, v):
        if o.arr is not None:
            if n == 8 and off % 8 == 0:
                o.arr = z3.Store(o.arr, z3.BitVecVal(off // 8, 64), bv(v, 64)); return
            raise Unsupported('partial array write')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            if v is UNDEF: del o.cells[off]
            else: o.cells[off] = (n, v)
            return
        s.clear_range(o, off, n)
        if v is not UNDEF: o.cells[off] = (n, v)

    def load(s, st, addr, ty):
        t = ty.resolve() if ty.k == 'named' else ty
        k = t.k
        if k == 'struct':
            return tuple(s.load(st, s.padd(addr, o), f) for o, f in zip(t.offsets(), t.fields))
        if k in ('arr', 'vec'):
            es = t.elt.size()
            return tuple(s.load(st, s.padd(addr, i * es), t.elt) for i in range(t.n))
        n = t.size()
        if isz(addr):
            addr = s.resolve(st, addr, n)
            if isinstance(addr, tuple):
                return z3.Select(addr[0].arr, addr[1])
        o, off = s.find(st, addr, n)
        v = s.rd(st, o, off, n)
        if k == 'int' and t.bits != 8 * n and v is not UNDEF:
            if t.bits == 1:
                return (v & 1) if isinstance(v, int) else (z3.Extract(0, 0, v) == 1)
            return v & ((1 << t.bits) - 1) if isinstance(v, int) else z3.Extract(t.bits - 1, 0, v)
        if isz(v) and isinstance(v, z3.BitVecRef) and k == 'ptr':
            v = simp(v)
        return v
    def store(s, st, addr, ty, v):
        t = ty.resolve() if ty.k == 'named' else ty
        k = t.k
        if k == 'struct':
            for o, f, x in zip(t.offsets(), t.fields, v): s.store(st, s.padd(addr, o), f, x)
            return
        if k in ('arr', 'vec'):
            es = t.elt.size()
            for i, x in enumerate(v): s.store(st, s.padd(addr, i * es), t.elt, x)
            return
        n = t.size()
        if k == 'int' and t.bits != 8 * n and v is not UNDEF:
            if t.bits == 1 and isz(v): v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            elif isz(v): v = z3.ZeroExt(8 * n - t.bits, v)
        if isz(addr):
            addr = s.resolve(st, addr, n, True)
            if isinstance(addr, tuple):
                o = s.wobj(st, addr[0])
                o.arr = z3.Store(o.arr, addr[1], bv(v, 64) if v is not UNDEF else s.fresh(64)); return
        o, off = s.find(st, addr, n, True)
        s.wr(s.wobj(st, o), off, n, v)
    def padd(s, a, k):
        if k == 0: return a
        if isinstance(a, int): return (a + k) & M64
        return a + k

    def memcpy(s, st, d, src, n):
        n = s.conc(st, n, 'memcpy length')
        if n == 0: return
        d = s.conc(st, d, 'memcpy dst'); src = s.conc(st, src, 'memcpy src')
        so, soff = s.find(st, src, n)
        do, doff = s.find(st, d, n, True)
        if so.arr is not None:
            vals = [(k, (8, z3.Select(so.arr, z3.BitVecVal((soff + k) // 8, 64)))) for k in range(0, n, 8)]
            if soff % 8 or n % 8: raise Unsupported('memcpy of partial array cells')
        else:
            # make sure cells do not straddle the borders
            vals = []
            i = soff; end = soff + n
            cells = so.cells
            # head
            for back in range(1, 16):
                c = cells.get(i - back)
                if c is not None:
                    if c[0] > back:
                        k = min(c[0] - back, n)
                        for j, b in enumerate(s.rd_bytes(so, i, k)): vals.append((j, (1, b)))
                        i += k
                    break
            if n <= 256:
                while i < end:
                    c = cells.get(i)
                    if c is None: i += 1; continue
                    if i + c[0] <= end: vals.append((i - soff, c)); i += c[0]
                    else:
                        for j, b in enumerate(s.rd_bytes(so, i, end - i)): vals.append((i - soff + j, (1, b)))
                        i = end
            else:
                for p in sorted(q for q in cells if i <= q < end):
                    c = cells[p]
                    if p + c[0] <= end: vals.append((p - soff, c))
                    else:
                        for j, b in enumerate(s.rd_bytes(so, p, end - p)): vals.append((p - soff + j, (1, b)))
        do = s.wobj(st, do)
        if do.arr is not None:
            for k, (cn, cv) in vals: s.wr(do, doff + k, cn, cv)
            return
        s.clear_range(do, doff, n)
        for k, c in vals:
            if c[1] is not UNDEF: do.cells[doff + k] = c
    def memset(s, st, d, v, n):
        n = s.conc(st, n, 'memset length')
        if n == 0: return
        d = s.conc(st, d, 'memset dst')
        o, off = s.find(st, d, n, True)
        o = s.wobj(st, o)
        if o.arr is not None: raise Unsupported('memset on array object')
        s.clear_range(o, off, n)
        if isinstance(v, int):
            w = int.from_bytes(bytes([v]) * 8, 'little')
            i = 0
            while i < n and (off + i) % 8: o.cells[off + i] = (1, v); i += 1
            while i + 8 <= n: o.cells[off + i] = (8, w); i += 8
            while i < n: o.cells[off + i] = (1, v); i += 1
        else:
            for i in range(n): o.cells[off + i] = (1, v)

    def conc(s, st, v, what):
        """force a concrete value (case split when several are possible)"""
        if isinstance(v, int): return v
        if v is UNDEF: raise Unsupported('undef ' + what)
        v = simp(v)
        if isinstance(v, int): return v
        vals = s.enum_values(st, v, s.opts.get('enum_max', 40))
        if vals is None: raise Unsupported('symbolic %s with too many values' % what)
        if len(vals) == 1:
            return vals[0]
        states = []
        for x in vals:
            t = st.fork(); s.add(t, v == x); states.append(t)
        raise Refork(states)

    def enum_values(s, st, e, limit):
        vals = []
        s.sync(st)
        s.sol.push()
        try:
            while True:
                t0 = time.time(); r = s.sol.check(); s.stats['queries'] += 1; s.stats['solver_s'] += time.time() - t0
                if r == z3.unsat: break
                if r != z3.sat: raise Unsupported('solver unknown while enumerating values')
                x = s.sol.model().eval(e, model_completion=True).as_long()
                vals.append(x)
                if len(vals) > limit: return None
                s.sol.add(e != x)
        finally:
            s.sol.pop()
        return vals

    def cstring(s, st, addr):
        addr = s.conc(st, addr, 'string')
        o = st.objs.get(addr >> SH); off = addr & OFFMASK
        out = bytearray()
        while True:
            b = s.rd(st, o, off, 1)
            if not isinstance(b, int) or b == 0: break
            out.append(b); off += 1
        return out.decode('latin1')

    # ------------------------------------------------------------ solver
    def sync(s, st):
        i = 0
        ss = s.sstack; pc = st.pc
        n = min(len(ss), len(pc))
        while i < n and ss[i] is pc[i]: i += 1
        if len(ss) > i:
            s.sol.pop(len(ss) - i); del ss[i:]
        for c in pc[i:]:
            s.sol.push(); s.sol.add(c); ss.append(c)
    def solve(s, st, extra, need_model=False):
        """-> (result, model)"""
        s.stats['queries'] += 1
        t0 = time.time()
        try:
            s.sync(st)
            s.sol.push(); s.sol.add(extra)
            r = s.sol.check()
            m = s.sol.model() if r == z3.sat else None
            s.sol.pop()
            if r != z3.unknown: return r, m
            return s.solve_hard(st, extra)
        finally:
            s.stats['solver_s'] += time.time() - t0
    def solve_hard(s, st, extra):
        goal = list(st.pc) + [extra]
        # cheap search for a model: boundary values
        m = s.probe(st, goal)
        if m is not None: return z3.sat, m
        so = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver() if not s.has_arrays(goal) else z3.Solver()
        so.set('timeout', s.solver_to)
        for g in goal: so.add(g)
        r = so.check()
        if r == z3.sat:
            so2 = so
            return r, so2.model()
        if r == z3.unsat: return r, None
        # second opinion
        r = s.cvc5(goal)
        if r == 'unsat': return z3.unsat, None
        return z3.unknown, None
    def has_arrays(s, goal):
        return any('Array' in g.sexpr() or 'fp.' in g.sexpr() for g in goal)
    def cvc5(s, goal):
        so = z3.Solver()
        for g in goal: so.add(g)
        txt = '(set-logic ALL)\n' + so.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % s.solver_to, fh.name], capture_output=True, text=True, timeout=s.solver_to / 1000 + 30)
            return p.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            os.unlink(fh.name)
    def probe(s, st, goal):
        import random, itertools
        vs = {}
        for g in goal: collect_vars(g, vs)
        vs = [v for v in vs.values()]
        if not vs or len(vs) > 8 or any(not z3.is_bv(v) for v in vs): return None
        rnd = random.Random(12345)
        B = lambda w: [0, 1, 2, 3, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, 1 << (w // 2), (1 << (w // 2)) - 1, (1 << (w//2)) + 1, 5, 7, 10, 63, 64, 255]
        conj = z3.And(*goal)
        cand = []
        if len(vs) <= 2:
            cand = list(itertools.product(*[B(v.size()) for v in vs]))
        for _ in range(400):
            cand.append(tuple(rnd.choice(B(v.size())) if rnd.random() < .6 else rnd.getrandbits(rnd.randint(1, v.size())) for v in vs))
        for c in cand:
            r = z3.simplify(z3.substitute(conj, *[(v, z3.BitVecVal(x & ((1 << v.size()) - 1), v.size())) for v, x in zip(vs, c)]))
            if z3.is_true(r):
                so = z3.Solver()
                for v, x in zip(vs, c): so.add(v == (x & ((1 << v.size()) - 1)))
                so.check(); return so.model()
        return None

    def get_model(s, st):
        if st.model is None:
            r, m = s.solve(st, z3.BoolVal(True))
            if r == z3.unsat: raise PathEnd('infeasible')
            if r != z3.sat: raise Unsupported('solver unknown on path condition')
            st.model = m
        return st.model
    def add(s, st, c):
        st.pc.append(c)
        if st.model is not None:
            if not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None
    def sat(s, st, c):
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)): return True
        r, m = s.solve(st, c)
        if r == z3.sat:
            return True
        if r == z3.unsat: return False
        raise Unsupported('solver unknown on a branch condition')

    def where(s, st):
        names = [f.f.name for f in st.frames[-6:]]
        return names

    # ------------------------------------------------------------ obligations
    def lab(s, label, ok):
        e = s.by_label.setdefault(label, [0, 0])
        e[0] += 1
        if ok: e[1] += 1
        s.stats['obligations'] += 1
        if ok: s.stats['discharged'] += 1
    def oblige(s, st, c, kind, detail):
        """implicit obligation with a symbolic condition"""
        c = simp(c) if isz(c) else c
        label = kind + ': ' + detail
        if isinstance(c, int):
            if c: s.lab(label, True); return
            s.definite_failure(st, kind, detail)
        s.check_cond(st, c, label, kind)
    def check_cond(s, st, c, label, kind):
        nc = z3.Not(c)
        if st.model is not None and z3.is_true(st.model.eval(nc, model_completion=True)):
            r, m = z3.sat, st.model
        else:
            r, m = s.solve(st, nc)
        if r == z3.unsat:
            s.lab(label, True)
        elif r == z3.sat:
            s.lab(label, False)
            s.record(st, label, kind, m)
        else:
            s.lab(label, False)
            s.undecided.append((label, s.where(st)))
        if r != z3.unsat:
            if not s.sat(st, c): raise PathEnd('after failed obligation')
        s.add(st, c)
    def definite_failure(s, st, kind, detail):
        label = kind + ': ' + detail
        s.lab(label, False)
        s.record(st, label, kind, s.get_model(st))
        raise PathEnd('failure')
    def record(s, st, label, kind, m):
        same = [f for f in s.failures if f.label == label]
        if len(same) >= 4: return
        nd = []
        for name, w, e in st.nd:
            if w == 'arr':
                n, arr = e
                n = n if isinstance(n, int) else m.eval(n, model_completion=True).as_long()
                cells = {}; d = 0
                v = m.eval(arr, model_completion=True)
                while z3.is_store(v):
                    cells.setdefault(v.arg(1).as_long(), v.arg(2).as_long()); v = v.arg(0)
                if z3.is_K(v): d = v.arg(0).as_long()
                nd.append((name, 'arr', n, d, {k: x for k, x in cells.items() if k < n}))
            elif isinstance(e, int): nd.append((name, w, e))
            else:
                v = m.eval(e, model_completion=True)
                nd.append((name, w, v.as_long() if z3.is_bv(v) else int(z3.is_true(v))))
        log = []
        for rec in st.log:
            log.append([ (m.eval(x, model_completion=True).as_long() if isz(x) else x) for x in rec])
        s.failures.append(Failure(label, kind, s.where(st), None, nd, log))

    # ------------------------------------------------------------ running
    def get(s, st, fr, a):
        if a.__class__ is str: v = fr.env[a]
        else: v = a
        return v

    def compile(s, f):
        if f.compiled: return
        s.mod.func_blocks(f)
        for b in f.blocks.values():
            for I in b.phis:
                I.x = {k: s.const(v) for k, v in I.x.items()}
            for I in b.insts:
                I.a = tuple(s.const(x) for x in I.a)
                if I.op == 'getelementptr': I.x = [(t, s.const(v)) for t, v in I.x]
                elif I.op == 'call': I.x = [(t, s.const(v), at) for t, v, at in I.x]
                elif I.op == 'invoke':
                    args, n, u = I.x
                    I.x = ([(t, s.const(v), at) for t, v, at in args], n, u)
                elif I.op == 'landingpad':
                    I.x = [(k, s.const(v)) for k, v in I.x]
                elif I.op == 'switch':
                    d, cases = I.x
                    I.x = (d, [(s.const(c), l) for c, l in cases])
                I.run = getattr(s, 'i_' + I.op, None)
                if I.run is None:
                    if I.op in BINOPS: I.run = s.i_bin
                    elif I.op in CASTS: I.run = s.i_cast
                    else: raise Unsupported('instruction ' + I.op)
        f.compiled = True; s.visited.add(f.name)

    def push(s, st, f, args, dst=None, norm=None, unw=None):
        if f.blocks is None or not f.compiled: s.compile(f)
        fr = Frame(f)
        if len(args) < len(f.params): raise Unsupported('argument count for ' + f.name)
        for (t, n), v in zip(f.params, args): fr.env[n] = v
        for (t, n), at, in zip(f.params, f.pattrs):
            bt = at.get('byval')
            if bt is not None:
                o = s.new_obj(st, bt.size(), 'byval'); fr.allocas.append(o.base >> SH)
                s.memcpy(st, o.base, fr.env[n], bt.size()); fr.env[n] = o.base
        fr.dst = dst; fr.norm = norm; fr.unw = unw
        b = f.blocks[f.entry]; fr.block = b; fr.code = b.insts; fr.ip = 0
        st.frames.append(fr)
        if len(st.frames) > 400: raise Unsupported('call depth (recursion) in ' + f.name)

    def run_function(s, name, st=None, args=()):
        """explore all paths of function `name` from state st; returns final states"""
        if st is None: st = s.init_state.fork()
        f = s.mod.funcs[name]
        s.push(st, f, args)
        work = [st]; done = []
        while work:
            st = work.pop()
            try:
                r = s.run_path(st, work)
                if r is not None: done.append(r)
                s.stats['paths'] += 1
            except Unsupported as e:
                if not getattr(e, 'loc', None):
                    st = s.cur
                    fr = st.frames[-1] if st.frames else None
                    e.loc = s.where(st); e.inst = fr.code[fr.ip - 1].text if fr else ''
                raise
            except PathEnd as e:
                if e.why == 'infeasible': s.stats['infeasible'] += 1
                else: s.stats['paths'] += 1
            s.stats['steps'] += st.steps; st.steps = 0
            if s.deadline and time.time() > s.deadline: raise Unsupported('time limit')
        return done

    def gaddr_any(s, st):
        p = st.ghost.get('stats')
        if p is None: p = st.ghost['stats'] = s.new_obj(st, 4096, 'extern', 'stats').base
        return p

    def run_ctors(s):
        """static initialisation, once; its final state is the start of every harness"""
        g = s.gaddr.get('__libc_single_threaded')
        if g is not None: s.init_state.objs[g >> SH].cells[0] = (1, 1)
        for prio, fn in s.mod.ctors:
            st = s.init_state
            fs = s.run_function(fn.n, st)
            if len(fs) != 1: raise Unsupported('static initialiser with several outcomes')
            s.init_state = fs[0]
        s.init_state.steps = 0
        s.stats['paths'] = 0

    def run_path(s, st, work):
        frames = st.frames; s.cur = st
        while frames:
            fr = frames[-1]
            I = fr.code[fr.ip]; fr.ip += 1
            st.steps += 1
            if st.steps & 0x3fff == 0:
                if st.steps > s.max_steps: raise Unsupported('step limit')
                if s.deadline and time.time() > s.deadline: raise Unsupported('time limit')
            try:
                r = I.run(st, fr, I)
                if r is not None:
                    # r: list of states replacing this one (already positioned)
                    for t in r[1:]: work.append(t)
                    if not r: raise PathEnd('infeasible')
                    st = r[0]; frames = st.frames; s.cur = st
            except Refork as rf:
                for t in rf.states:
                    t.frames[-1].ip -= 1
                    work.append(t)
                raise PathEnd('infeasible')
        return st

    def goto(s, st, fr, label):
        b = fr.f.blocks[label]
        prev = fr.block.name
        if b.phis:
            env = fr.env
            vals = []
            for p in b.phis:
                a = p.x[prev]
                vals.append(env[a] if a.__class__ is str else a)
            for p, v in zip(b.phis, vals): env[p.dst] = v
        fr.prev = prev; fr.block = b; fr.code = b.insts; fr.ip = 0

    def i_br(s, st, fr, I):
        x = I.x
        if len(x) == 1: s.goto(st, fr, x[0]); return
        c = s.get(st, fr, I.a[0])
        if isz(c):
            c = simp(c)
        if c is UNDEF: c = s.fresh(1)
        if isinstance(c, int):
            s.goto(st, fr, x[0] if c else x[1]); return
        return s.branch(st, fr, [(c, x[0]), (z3.Not(c), x[1])], I)

    def branch(s, st, fr, alts, I):
        """two-or-more-way branch on symbolic conditions"""
        feas = []
        m = s.get_model(st)
        rest = len(alts)
        for c, l in alts:
            rest -= 1
            if z3.is_true(m.eval(c, model_completion=True)): feas.append((c, l))
            elif rest == 0 and not feas: feas.append((c, l))
            elif s.sat(st, c): feas.append((c, l))
        if not feas: raise PathEnd('infeasible')
        if len(feas) > 1:
            k = id(I); n = fr.visits.get(k, 0) + 1; fr.visits[k] = n
            if n > s.max_visits: raise Unsupported('loop with symbolic bound in ' + fr.f.name)
        out = []
        for i, (c, l) in enumerate(feas):
            t = st if i == len(feas) - 1 else st.fork()
            if len(feas) > 1: s.add(t, c); t.forks += 1
            out.append((t, l))
        for t, l in out: s.goto(t, t.frames[-1], l)
        return [t for t, l in out]

    def i_switch(s, st, fr, I):
        v = s.get(st, fr, I.a[0]); d, cases = I.x
        if isz(v): v = simp(v)
        if v is UNDEF: v = s.fresh(I.ty.bits)
        if isinstance(v, int):
            for c, l in cases:
                if c == v: s.goto(st, fr, l); return
            s.goto(st, fr, d); return
        bl = {}
        for c, l in cases: bl.setdefault(l, []).append(v == c if not isinstance(v, z3.BoolRef) else (v if c else z3.Not(v)))
        alts = [(z3.Or(*cs) if len(cs) > 1 else cs[0], l) for l, cs in bl.items() if l != d]
        neg = z3.Not(z3.Or(*[a[0] for a in alts])) if alts else z3.BoolVal(True)
        alts.append((neg, d))
        return s.branch(st, fr, alts, I)

    def i_ret(s, st, fr, I):
        v = s.get(st, fr, I.a[0]) if I.a else None
        s.pop_frame(st)
        if not st.frames:
            if st.in_co:
                s.co_swap(st); st.co = None; return
            st.ghost['ret'] = v; return
        c = st.frames[-1]
        if fr.dst is not None: c.env[fr.dst] = v
        if fr.norm is not None: s.goto(st, c, fr.norm)
    def co_swap(s, st):
        o = st.co; fs = list(st.frames)
        st.frames[:] = o[0]
        st.co = [fs, st.caught, st.exc]
        st.caught = o[1]; st.exc = o[2]; st.in_co = not st.in_co
    def pop_frame(s, st):
        fr = st.frames.pop()
        for i in fr.allocas:
            o = s.wobj(st, st.objs[i]); o.alive = False; o.cells = {}
        return fr

    def i_unreachable(s, st, fr, I):
        s.definite_failure(st, 'unreachable', 'unreachable code reached in ' + fr.f.name)

    def i_fence(s, st, fr, I): pass

    def i_alloca(s, st, fr, I):
        n = s.conc(st, s.get(st, fr, I.a[0]), 'alloca count')
        o = s.new_obj(st, I.ty.size() * n, 'alloca', fr.f.name + '.' + (I.dst or ''))
        fr.allocas.append(o.base >> SH)
        fr.env[I.dst] = o.base

    def i_load(s, st, fr, I):
        a = I.a[0]
        if a.__class__ is str: a = fr.env[a]
        if a is UNDEF: raise Unsupported('load from undef')
        fr.env[I.dst] = s.load(st, a, I.ty)
    def i_store(s, st, fr, I):
        v, a = I.a
        if v.__class__ is str: v = fr.env[v]
        if a.__class__ is str: a = fr.env[a]
        s.store(st, a, I.ty, v)

    def nz(s, v, w):
        if isinstance(v, int): return int(v != 0)
        if v is UNDEF: return s.fresh(1)
        return v != 0

    def gep(s, ty, base, idx):
        t = ty; off = 0
        first = True
        for it, iv in idx:
            if first:
                sz = t.size(); first = False
                cur = t
            else:
                r = cur.resolve()
                if r.k == 'struct':
                    off = off + r.offsets()[iv]; cur = r.fields[iv]; continue
                cur = r.elt; sz = cur.size()
            w = it.bits
            if isinstance(iv, int):
                k = sgn(iv, w) * sz
                off = off + k
            else:
                if iv is UNDEF: raise Unsupported('undef index')
                e = iv if w == 64 else z3.SignExt(64 - w, iv)
                e = e * sz if sz != 1 else e
                off = (e + off) if isinstance(off, int) else off + e
        if isinstance(off, int):
            if isinstance(base, int): return (base + off) & M64
            return base + off if off else base
        return bv(base, 64) + off
    def i_getelementptr(s, st, fr, I):
        env = fr.env
        b = I.a[0]
        if b.__class__ is str: b = env[b]
        if b is UNDEF: raise Unsupported('gep on undef')
        idx = [(t, env[v] if v.__class__ is str else v) for t, v in I.x]
        r = s.gep(I.ty, b, idx)
        env[I.dst] = r if isinstance(r, int) else simp(r)

    def i_phi(s, st, fr, I): raise Unsupported('phi')

    def i_select(s, st, fr, I):
        env = fr.env
        c, a, b = [env[x] if x.__class__ is str else x for x in I.a]
        if isz(c): c = simp(c)
        if isinstance(c, int): env[I.dst] = a if c else b; return
        if c is UNDEF: env[I.dst] = a; return
        env[I.dst] = s.ite(c, a, b, I.ty)
    def ite(s, c, a, b, ty):
        if a is b: return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        t = ty.resolve()
        if t.k == 'struct': return tuple(s.ite(c, x, y, f) for x, y, f in zip(a, b, t.fields))
        if t.k in ('arr', 'vec'): return tuple(s.ite(c, x, y, t.elt) for x, y in zip(a, b))
        if t.k == 'int' and t.bits == 1:
            return z3.If(c, tobool(a), tobool(b))
        w = 64 if t.k == 'ptr' else t.bits
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        return z3.If(c, bv(a, w), bv(b, w))
    def i_freeze(s, st, fr, I):
        v = s.get(st, fr, I.a[0])
        if v is UNDEF: v = s.fresh(64 if I.ty.k == 'ptr' else I.ty.bits)
        fr.env[I.dst] = v

    def i_extractvalue(s, st, fr, I):
        v = s.get(st, fr, I.a[0])
        for k in I.x: v = v[k]
        fr.env[I.dst] = v
    def i_insertvalue(s, st, fr, I):
        v = s.get(st, fr, I.a[0]); x = s.get(st, fr, I.a[1])
        def ins(agg, idx):
            if not idx: return x
            l = list(agg); l[idx[0]] = ins(l[idx[0]], idx[1:]); return tuple(l)
        fr.env[I.dst] = ins(v, I.x)
    def i_extractelement(s, st, fr, I):
        v = s.get(st, fr, I.a[0]); k = s.conc(st, s.get(st, fr, I.a[1]), 'vector index')
        fr.env[I.dst] = v[k]
    def i_insertelement(s, st, fr, I):
        v = s.get(st, fr, I.a[0]); x = s.get(st, fr, I.a[1]); k = s.conc(st, s.get(st, fr, I.a[2]), 'vector index')
        l = list(v); l[k] = x; fr.env[I.dst] = tuple(l)
    def i_shufflevector(s, st, fr, I):
        a = s.get(st, fr, I.a[0]); b = s.get(st, fr, I.a[1]); m = I.a[2]
        j = tuple(a) + tuple(b)
        fr.env[I.dst] = tuple(UNDEF if k is UNDEF else j[k] for k in m)

    # ---- arithmetic
    def i_bin(s, st, fr, I):
        env = fr.env
        a, b = I.a
        if a.__class__ is str: a = env[a]
        if b.__class__ is str: b = env[b]
        if I.ty.k == 'vec':
            env[I.dst] = tuple(s.binop(st, I.op, x, y, I.ty.elt) for x, y in zip(a, b)); return
        env[I.dst] = s.binop(st, I.op, a, b, I.ty)
    def binop(s, st, op, a, b, ty):
        if ty.k == 'fp': return s.fbin(op, a, b, ty)
        w = ty.bits
        if a is UNDEF: a = s.fresh(w)
        if b is UNDEF: b = s.fresh(w)
        mask = (1 << w) - 1
        if a.__class__ is int and b.__class__ is int:
            if op == 'add': return (a + b) & mask
            if op == 'sub': return (a - b) & mask
            if op == 'mul': return (a * b) & mask
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w: return s.bad_shift(st, op, w)
                if op == 'shl': return (a << b) & mask
                if op == 'lshr': return a >> b
                return (sgn(a, w) >> b) & mask
            if b == 0: s.definite_failure(st, 'division', 'division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, w), sgn(b, w)
            if y == -1 and x == -(1 << (w - 1)): s.definite_failure(st, 'division', 'INT_MIN / -1 traps')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & mask
            return (x - q * y) & mask
        if w == 1:
            a = tobool(a); b = tobool(b)
            if op == 'and': return z3.And(a, b)
            if op == 'or': return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'): return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        # cheap identities
        if b.__class__ is int:
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
                if op in ('and', 'mul'): return 0
            if op == 'and' and b == mask: return a
            if op == 'mul' and b == 1: return a
        if a.__class__ is int and a == 0:
            if op in ('add', 'or', 'xor'): return b
            if op in ('and', 'mul'): return 0
        A = bv(a, w); B = bv(b, w)
        if op == 'add': return A + B
        if op == 'sub': return A - B
        if op == 'mul': return A * B
        if op == 'and': return A & B
        if op == 'or': return A | B
        if op == 'xor': return A ^ B
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int) or b >= w:
                s.shift_check(st, op, B, w)
            if op == 'shl': return A << B
            if op == 'lshr': return z3.LShR(A, B)
            return A >> B
        # division
        if not (isinstance(b, int) and b != 0):
            s.oblige(st, B != 0, 'division', 'divisor is not zero')
        if op == 'udiv':
            oth = mul_other(A, B)
            if oth is not None:
                # lemma L1 (DESIGN.md): y != 0 ==> (x*y mod 2^w) udiv y == x iff x*y < 2^w, and it is below x otherwise
                F = s.fresh(w, 'q'); P = simp(z3.ZeroExt(w, oth) * z3.ZeroExt(w, B))
                no = z3.Extract(2 * w - 1, w, bv(P, 2 * w)) == 0
                s.add(st, z3.Or(no, z3.ULT(F, oth)))
                s.used_lemma = True
                return z3.If(no, oth, F)
            return z3.UDiv(A, B)
        if op == 'urem': return z3.URem(A, B)
        if not (isinstance(b, int) and b != mask):
            s.oblige(st, z3.Not(z3.And(A == (1 << (w - 1)), B == mask)), 'division', 'signed division does not trap (INT_MIN / -1)')
        if op == 'sdiv':
            oth = mul_other(A, B)
            if oth is not None:
                # lemma L2 (DESIGN.md): y != 0, no trap ==> (x*y mod 2^w) sdiv y == x iff x*y fits in w signed bits
                F = s.fresh(w, 'q'); P = simp(z3.SignExt(w, oth) * z3.SignExt(w, B))
                no = bv(P, 2 * w) == z3.SignExt(w, A)
                s.add(st, z3.Or(no, F != oth))
                s.used_lemma = True
                return z3.If(no, oth, F)
            return A / B
        if op == 'srem': return z3.SRem(A, B)
        raise Unsupported(op)
    def shift_check(s, st, op, B, w):
        s.oblige(st, z3.ULT(B, w), 'shift', 'shift count below the width')
    def bad_shift(s, st, op, w):
        s.definite_failure(st, 'shift', 'shift count below the width')

    def fpv(s, a, ty):
        srt = z3.Float64() if ty.bits == 64 else z3.Float32()
        return z3.fpBVToFP(bv(a, ty.bits), srt)
    def fbin(s, op, a, b, ty):
        if ty.bits not in (32, 64): raise Unsupported('fp width')
        if a is UNDEF: a = s.fresh(ty.bits)
        if b is UNDEF: b = s.fresh(ty.bits)
        x = s.fpv(a, ty); y = s.fpv(b, ty); rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if r is None: raise Unsupported(op)
        e = z3.fpToIEEEBV(r(rm, x, y))
        return simp(e) if isinstance(a, int) and isinstance(b, int) else e
    def i_fneg(s, st, fr, I):
        a = s.get(st, fr, I.a[0]); w = I.ty.bits
        fr.env[I.dst] = (a ^ (1 << (w - 1))) if isinstance(a, int) else a ^ z3.BitVecVal(1 << (w - 1), w)
    def i_fcmp(s, st, fr, I):
        a = s.get(st, fr, I.a[0]); b = s.get(st, fr, I.a[1]); p = I.x
        if p == 'true': fr.env[I.dst] = 1; return
        if p == 'false': fr.env[I.dst] = 0; return
        if a is UNDEF: a = s.fresh(I.ty.bits)
        if b is UNDEF: b = s.fresh(I.ty.bits)
        x = s.fpv(a, I.ty); y = s.fpv(b, I.ty)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': z3.fpEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y)}
        if p == 'ord': r = z3.Not(un)
        elif p == 'uno': r = un
        elif p == 'one': r = z3.And(z3.Not(un), z3.Not(base['eq']))
        elif p == 'une': r = z3.Or(un, z3.Not(base['eq']))
        elif p[0] == 'o': r = base[p[1:]]
        else: r = z3.Or(un, base[p[1:]])
        fr.env[I.dst] = simp(r)
    def i_icmp(s, st, fr, I):
        env = fr.env
        a, b = I.a
        if a.__class__ is str: a = env[a]
        if b.__class__ is str: b = env[b]
        if I.ty.k == 'vec':
            env[I.dst] = tuple(s.icmp(I.x, x, y, I.ty.elt) for x, y in zip(a, b)); return
        env[I.dst] = s.icmp(I.x, a, b, I.ty)
    def icmp(s, p, a, b, ty):
        w = 64 if ty.k == 'ptr' else ty.bits
        if a is UNDEF: a = s.fresh(w)
        if b is UNDEF: b = s.fresh(w)
        if a.__class__ is int and b.__class__ is int:
            if p == 'eq': return int(a == b)
            if p == 'ne': return int(a != b)
            if p == 'ult': return int(a < b)
            if p == 'ule': return int(a <= b)
            if p == 'ugt': return int(a > b)
            if p == 'uge': return int(a >= b)
            a = sgn(a, w); b = sgn(b, w)
            if p == 'slt': return int(a < b)
            if p == 'sle': return int(a <= b)
            if p == 'sgt': return int(a > b)
            return int(a >= b)
        if w == 1:
            a = tobool(a); b = tobool(b)
            if p == 'eq': return a == b
            if p == 'ne': return z3.Xor(a, b)
            ab = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); bb = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            a, b = ab, bb
        A = bv(a, w); B = bv(b, w)
        if p == 'eq': return A == B
        if p == 'ne': return A != B
        if p == 'ult': return z3.ULT(A, B)
        if p == 'ule': return z3.ULE(A, B)
        if p == 'ugt': return z3.UGT(A, B)
        if p == 'uge': return z3.UGE(A, B)
        if p == 'slt': return A < B
        if p == 'sle': return A <= B
        if p == 'sgt': return A > B
        return A >= B
    def i_cast(s, st, fr, I):
        v = s.get(st, fr, I.a[0])
        if I.ty.k == 'vec' and isinstance(v, tuple):
            if I.op == 'bitcast': raise Unsupported('vector bitcast')
            fr.env[I.dst] = tuple(s.cast(st, I.op, x, I.x.elt, I.ty.elt) for x in v); return
        fr.env[I.dst] = s.cast(st, I.op, v, I.x, I.ty)
    def cast(s, st, op, v, f, t):
        if v is UNDEF: return UNDEF
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'ptrtoint' and t.bits != 64: raise Unsupported('ptrtoint width')
            if op == 'bitcast' and isinstance(v, tuple): raise Unsupported('vector bitcast')
            return v
        if op == 'trunc':
            w = t.bits
            if isinstance(v, int): return v & ((1 << w) - 1)
            if w == 1: return z3.Extract(0, 0, v) == 1
            return z3.Extract(w - 1, 0, v)
        if op == 'zext':
            if isinstance(v, int): return v
            if f.bits == 1: return z3.If(v, z3.BitVecVal(1, t.bits), z3.BitVecVal(0, t.bits))
            return z3.ZeroExt(t.bits - f.bits, v)
        if op == 'sext':
            if isinstance(v, int): return sgn(v, f.bits) & ((1 << t.bits) - 1)
            if f.bits == 1: return z3.If(v, z3.BitVecVal((1 << t.bits) - 1, t.bits), z3.BitVecVal(0, t.bits))
            return z3.SignExt(t.bits - f.bits, v)
        if op in ('sitofp', 'uitofp'):
            srt = z3.Float64() if t.bits == 64 else z3.Float32()
            x = bv(v, f.bits)
            e = z3.fpSignedToFP(z3.RNE(), x, srt) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), x, srt)
            e = z3.fpToIEEEBV(e)
            return simp(e) if isinstance(v, int) else e
        if op in ('fptosi', 'fptoui'):
            x = s.fpv(v, f)
            e = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(t.bits)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(t.bits))
            return simp(e) if isinstance(v, int) else e
        if op in ('fpext', 'fptrunc'):
            srt = z3.Float64() if t.bits == 64 else z3.Float32()
            e = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), s.fpv(v, f), srt))
            return simp(e) if isinstance(v, int) else e
        raise Unsupported(op)

    def i_atomicrmw(s, st, fr, I):
        a = s.get(st, fr, I.a[0]); v = s.get(st, fr, I.a[1])
        old = s.load(st, a, I.ty)
        op = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}.get(I.x)
        new = v if I.x == 'xchg' else s.binop(st, op, old, v, I.ty)
        s.store(st, a, I.ty, new)
        fr.env[I.dst] = old
    def i_cmpxchg(s, st, fr, I):
        a, c, n = [s.get(st, fr, x) for x in I.a]
        old = s.load(st, a, I.ty)
        eq = s.icmp('eq', old, c, I.ty)
        if isz(eq): raise Unsupported('symbolic cmpxchg')
        if eq: s.store(st, a, I.ty, n)
        fr.env[I.dst] = (old, eq)

    # ------------------------------------------------------------ calls
    def i_call(s, st, fr, I, norm=None, unw=None, args=None):
        if args is None: args = I.x
        env = fr.env
        c = I.a[0]
        if c.__class__ is str: c = env[c]
        if not isinstance(c, int):
            c = s.conc(st, c, 'call target')
        f = s.fbyaddr.get(c)
        if f is None:
            s.definite_failure(st, 'memory-safety', 'call through invalid function pointer %s' % hex(c))
        vals = [env[v] if v.__class__ is str else v for t, v, at in args]
        # byval at call sites is copied in push() via callee attrs; externals get raw pointers
        h = s.hook_for(f)
        if h is not None:
            r = h(s, st, fr, I, f, vals, args)
            if r is CALL_BODY:
                pass
            elif r is HANDLED:
                return
            else:
                if I.dst is not None: fr.env[I.dst] = r
                if norm is not None: s.goto(st, fr, norm)
                return
        if f.body is None:
            raise Unsupported('external function ' + f.name)
        s.push(st, f, vals, I.dst, norm, unw)
    def i_invoke(s, st, fr, I):
        args, n, u = I.x
        return s.i_call(st, fr, I, n, u, args)

    def hook_for(s, f):
        h = s._hcache.get(f.name, 0) if hasattr(s, '_hcache') else 0
        if h != 0: return h
        if not hasattr(s, '_hcache'): s._hcache = {}
        import hooks
        h = s.user_hooks.get(f.name)
        if h is None: h = hooks.lookup(s, f)
        s._hcache[f.name] = h
        if h is not None and f.body is None and not f.name.startswith(('llvm.', 'vf_')): s.external_used.add(f.name)
        return h

    # ------------------------------------------------------------ exceptions
    def throw(s, st, exc, ti):
        """unwind to the innermost invoke"""
        st.exc = (exc, ti)
        while st.frames:
            fr = s.pop_frame(st)
            if not st.frames: break
            if fr.unw is not None:
                c = st.frames[-1]
                if s.land(st, c, fr.unw): return
        s.get_uncaught(st, ti)
    def throw_here(s, st, fr, I, exc, ti):
        """throw raised by a hook for call I in frame fr (no callee frame)"""
        st.exc = (exc, ti)
        if I.op == 'invoke':
            if s.land(st, fr, I.x[2]): return HANDLED
        s.throw(st, exc, ti)
        return HANDLED
    def land(s, st, c, label):
        b = c.f.blocks[label]
        lp = b.insts[0]
        if lp.op != 'landingpad': raise Unsupported('landing block without landingpad')
        sel = None
        cleanup = False
        for k, v in lp.x:
            if k == 'cleanup': cleanup = True
            elif k == 'catch':
                if v == 0 or s.ti_match(st.exc[1], v):
                    sel = s.tid(v); break
            elif k == 'filter':
                if not any(s.ti_match(st.exc[1], x) for x in v):
                    sel = (-1) & 0xffffffff; break
        if sel is None and not cleanup: return False
        s.goto(st, c, label)
        c.env[lp.dst] = (st.exc[0], sel if sel is not None else 0)
        c.ip = 1
        return True
    def i_landingpad(s, st, fr, I): raise Unsupported('landingpad reached by normal flow')
    def i_resume(s, st, fr, I):
        exc, ti = st.exc
        v = s.get(st, fr, I.a[0])
        if isinstance(v[0], int) and v[0] in st.ghost.get('exti', {}): ti = st.ghost['exti'][v[0]]; exc = v[0]
        s.throw(st, exc, ti)
    def tid(s, ti):
        if ti == 0: return 0x7fffffff
        if ti not in s.tids: s.tids[ti] = len(s.tids) + 1
        return s.tids[ti]
    def ti_bases(s, ti):
        n = s.gname.get(ti)
        if n is None: return []
        if n in STD_BASES:
            return [s.gaddr[b] if b in s.gaddr else b for b in STD_BASES[n]]
        t, init, const, ext = s.mod.globals[n]
        if init is None or ext: return []
        v = s.const(init)
        out = []
        if len(v) == 3: out.append(v[2])
        elif len(v) > 3:
            for k in range(4, len(v), 2): out.append(v[k])
        return out
    def ti_names(s, ti):
        """names of ti and all bases (transitive)"""
        out = set(); todo = [ti]
        while todo:
            x = todo.pop()
            if isinstance(x, str):
                if x in out: continue
                out.add(x); todo += STD_BASES.get(x, [])
            else:
                n = s.gname.get(x)
                if n in out: continue
                out.add(n)
                todo += s.ti_bases(x)
                todo += STD_BASES.get(n, [])
        return out
    def ti_match(s, thrown, want):
        return s.gname.get(want) in s.ti_names(thrown)
    def get_uncaught(s, st, ti):
        n = s.gname.get(ti) if isinstance(ti, int) else ti
        # frames are gone: use the harness name only
        label = 'exception: uncaught exception ' + str(n)
        s.lab(label, False)
        s.record(st, label, 'exception', s.get_model(st))
        raise PathEnd('failure')

def collect_vars(e, out, seen=None):
    if seen is None: seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        stack.extend(x.children())

CALL_BODY = object(); HANDLED = object()
BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())
