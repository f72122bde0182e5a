"""Parser for the textual LLVM IR (clang 18, opaque pointers) that irvc verifies.

Everything clang emits for the targets of this repository is parsed into plain
Python tuples.  Unknown syntax raises ParseError: the check then ends as an
error, never as a verdict."""
import re

class ParseError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'elt', 'n', 'fields', 'packed', 'name', '_size', '_align', '_offs', 'mod')
    def __init__(s, k, bits=0, elt=None, n=0, fields=None, packed=False, name=None):
        s.k = k; s.bits = bits; s.elt = elt; s.n = n; s.fields = fields; s.packed = packed; s.name = name
        s._size = None; s._align = None; s._offs = None; s.mod = None
    def resolve(s):
        if s.k == 'named':
            t = s.mod.types.get(s.name)
            if t is None:
                raise ParseError('opaque type used: ' + s.name)
            return t.resolve()
        return s
    def align(s):
        if s._align is None:
            t = s.resolve()
            if t.k == 'int':
                b = (t.bits + 7) // 8
                a = 1
                while a < b: a *= 2
                s._align = min(a, 16)
            elif t.k == 'ptr': s._align = 8
            elif t.k == 'fp': s._align = t.bits // 8
            elif t.k in ('arr', 'vec'): s._align = t.elt.align()
            elif t.k == 'struct':
                s._align = 1 if t.packed else max([f.align() for f in t.fields] or [1])
            else: raise ParseError('align of ' + t.k)
        return s._align
    def size(s):
        """alloc size"""
        if s._size is None:
            t = s.resolve()
            if t.k == 'int':
                a = t.align(); b = (t.bits + 7) // 8
                s._size = (b + a - 1) // a * a
            elif t.k == 'ptr': s._size = 8
            elif t.k == 'fp': s._size = t.bits // 8 if t.bits != 80 else 16
            elif t.k in ('arr', 'vec'): s._size = t.n * t.elt.size()
            elif t.k == 'struct':
                t.offsets(); s._size = t._size
            else: raise ParseError('size of ' + t.k)
        return s._size
    def offsets(s):
        t = s.resolve()
        if t._offs is None:
            o = 0; offs = []
            for f in t.fields:
                if not t.packed:
                    a = f.align(); o = (o + a - 1) // a * a
                offs.append(o); o += f.size()
            if not t.packed:
                a = t.align(); o = (o + a - 1) // a * a
            t._offs = offs; t._size = o
        return t._offs
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.bits
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.elt)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.fields))
        if s.k == 'named': return '%' + s.name
        if s.k == 'fp': return 'f%d' % s.bits
        return s.k

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata'); TOKEN = Ty('token')
DOUBLE = Ty('fp', 64); FLOAT = Ty('fp', 32); X86FP80 = Ty('fp', 80); FP128 = Ty('fp', 128)
_ints = {}
def IntTy(b):
    t = _ints.get(b)
    if t is None: t = _ints[b] = Ty('int', b)
    return t

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<attr>\#[0-9]+)
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<cmt>\$[-a-zA-Z$._0-9]+|\$"[^"]*")
 | (?P<fp>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_.][-a-zA-Z0-9_.]*)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)

def tokenize(line):
    out = []
    pos = 0; n = len(line)
    while pos < n:
        c = line[pos]
        if c in ' \t\n\r': pos += 1; continue
        if c == ';': break
        m = TOK.match(line, pos)
        if not m: raise ParseError('cannot tokenize: %r' % line[pos:pos+40])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out

def unq(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'): s = s[1:-1]
    return s

def cstr(s):
    # c"..." -> bytes
    s = s[2:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

PATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg returned nest
 swiftself immarg noreturn nounwind inalloca allocptr allocalign nofree writable dead_on_unwind captures
 swiftasync swifterror'''.split())
PATTRS_P = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype preallocated inalloca range nofpclass'.split())

class Parser:
    """token stream over one line"""
    def __init__(s, mod, toks, line):
        s.m = mod; s.t = toks; s.i = 0; s.line = line
    def err(s, msg='syntax'):
        raise ParseError('%s at token %d (%s) in: %s' % (msg, s.i, s.t[s.i:s.i+4], s.line[:300]))
    def peek(s, k=0):
        return s.t[s.i+k][1] if s.i+k < len(s.t) else None
    def kind(s, k=0):
        return s.t[s.i+k][0] if s.i+k < len(s.t) else None
    def next(s):
        if s.i >= len(s.t): s.err('eol')
        v = s.t[s.i]; s.i += 1; return v
    def accept(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        if not s.accept(v): s.err('expected ' + v)
    def eol(s): return s.i >= len(s.t)

    def type(s):
        k, v = s.next()
        if k == 'id':
            if v == 'ptr':
                t = PTR
                if s.accept('addrspace'):
                    s.expect('('); s.next(); s.expect(')')
            elif v[0] == 'i' and v[1:].isdigit(): t = IntTy(int(v[1:]))
            elif v == 'void': t = VOID
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'x86_fp80': t = X86FP80
            elif v == 'fp128': t = FP128
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'token': t = TOKEN
            elif v == 'opaque': t = Ty('opaque')
            else: s.i -= 1; s.err('type')
        elif k == 'loc':
            t = s.m.named(unq(v))
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect(']')
            t = Ty('arr', elt=e, n=n)
        elif v == '{':
            t = Ty('struct', fields=s.tlist('}'))
        elif v == '<':
            if s.accept('{'):
                f = s.tlist('}'); s.expect('>')
                t = Ty('struct', fields=f, packed=True)
            else:
                n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect('>')
                t = Ty('vec', elt=e, n=n)
        else:
            s.i -= 1; s.err('type')
        # function type suffix?
        while s.peek() == '(' and s.fty_ahead():
            s.skip_parens()
            t = Ty('fn', elt=t)
        return t
    def fty_ahead(s):
        return s.in_fn_ty
    in_fn_ty = False
    def tlist(s, close):
        f = []
        if s.accept(close): return f
        while True:
            f.append(s.type())
            if s.accept(close): return f
            s.expect(',')
    def skip_parens(s):
        s.expect('('); d = 1
        while d:
            v = s.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
    def pattrs(s):
        """parameter attributes; returns dict of interesting ones"""
        r = {}
        while s.i < len(s.t):
            k, v = s.t[s.i]
            if k == 'id' and v in PATTRS_P:
                s.i += 1
                if v == 'align' and s.peek() != '(':
                    s.next()
                elif s.peek() == '(':
                    if v in ('sret', 'byval'):
                        s.expect('('); r[v] = s.type(); s.expect(')')
                    else: s.skip_parens()
            elif k == 'id' and v in PATTRS:
                s.i += 1
                if s.peek() == '(': s.skip_parens()
            elif k == 'str': # string attribute
                s.i += 1
                if s.accept('='): s.next()
            else: break
        return r

    # ---- values.  local -> str name ; constant -> ('c', ...) evaluated at link time
    def value(s, ty):
        k, v = s.next()
        if k == 'loc': return unq(v)
        if k == 'num':
            n = int(v)
            b = ty.resolve().bits if ty.k in ('int',) else 64
            return n & ((1 << b) - 1)
        if k == 'id':
            if v == 'true': return 1
            if v == 'false': return 0
            if v == 'null': return 0
            if v in ('undef', 'poison'): return Undef(ty)
            if v == 'zeroinitializer': return zero_of(ty)
            if v == 'none': return 0
            if v == 'inttoptr' or v in ('ptrtoint', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
                s.expect('('); t = s.type(); a = s.value(t); s.expect('to'); t2 = s.type(); s.expect(')')
                return CE(v, (t, t2), (a,))
            if v == 'getelementptr':
                while s.kind() == 'id' and s.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    if s.next()[1] == 'inrange': s.skip_parens()
                s.expect('('); t = s.type(); s.expect(',')
                bt = s.type(); base = s.value(bt); idx = []
                while s.accept(','):
                    if s.accept('inrange'):
                        if s.peek() == '(': s.skip_parens()
                    it = s.type(); iv = s.value(it); idx.append((it, iv))
                s.expect(')')
                return CE('gep', t, (base, idx))
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while s.kind() == 'id' and s.peek() in ('nsw', 'nuw', 'exact'): s.next()
                s.expect('('); t = s.type(); a = s.value(t); s.expect(','); t2 = s.type(); b = s.value(t2); s.expect(')')
                return CE(v, t, (a, b))
            if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi': s.err('const')
            s.i -= 1; s.err('value')
        if k == 'glob': return GRef(unq(v))
        if k == 'str' and v.startswith('c'): return tuple(cstr(v))
        if k == 'fp':
            import struct
            f = float(v)
            if ty.bits == 32: return struct.unpack('<I', struct.pack('<f', f))[0]
            return struct.unpack('<Q', struct.pack('<d', f))[0]
        if k == 'hex':
            if v[2] in 'KLMHR': return int(v[3:], 16)
            n = int(v, 16)
            if ty.bits == 32:
                import struct
                d = struct.unpack('<d', struct.pack('<Q', n))[0]
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return n
        if v == '[' or (v == '{') or v == '<':
            packed = False
            if v == '<' and s.accept('{'): packed = True; close = '}'
            else: close = {'[': ']', '{': '}', '<': '>'}[v]
            out = []
            if not s.accept(close):
                while True:
                    t = s.type(); out.append(s.value(t))
                    if s.accept(close): break
                    s.expect(',')
            if packed: s.expect('>')
            return tuple(out)
        if k == 'meta':
            # metadata operand; skip to the end of it
            if s.peek() == '(' : s.skip_parens()
            elif s.peek() == '{': pass
            return None
        s.i -= 1; s.err('value')
    def tv(s):
        t = s.type(); s.pattrs()
        if t.k == 'metadata':
            if s.kind() != 'meta':
                t2 = s.type(); return (t, s.value(t2))
        return t, s.value(t)

class Undef:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty
class CE:
    __slots__ = ('op', 'ty', 'a')
    def __init__(s, op, ty, a): s.op = op; s.ty = ty; s.a = a
class GRef:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n

def zero_of(ty):
    t = ty.resolve()
    if t.k in ('int', 'ptr', 'fp'): return 0
    if t.k in ('arr', 'vec'): return (zero_of(t.elt),) * t.n
    if t.k == 'struct': return tuple(zero_of(f) for f in t.fields)
    raise ParseError('zero of ' + t.k)

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'run', 'text')
    def __init__(s, op, dst=None, ty=None, a=(), x=None, text=None):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.x = x; s.run = None; s.text = text

class Block:
    __slots__ = ('name', 'insts', 'phis')
    def __init__(s, name): s.name = name; s.insts = []; s.phis = []

class Func:
    __slots__ = ('name', 'ret', 'params', 'pattrs', 'vararg', 'blocks', 'entry', 'body', 'mod', 'addr', 'compiled', 'attrs')
    def __init__(s, name):
        s.name = name; s.blocks = None; s.body = None; s.compiled = False

LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
 default hidden protected dso_local dso_preemptable dllimport dllexport local_unnamed_addr unnamed_addr
 externally_initialized fastcc ccc coldcc tailcc'''.split())

class Module:
    def __init__(s):
        s.types = {}; s.tycache = {}; s.globals = {}; s.funcs = {}; s.aliases = {}
        s.ctors = []
    def named(s, n):
        t = s.tycache.get(n)
        if t is None:
            t = Ty('named', name=n); t.mod = s; s.tycache[n] = t
        return t

    def parse(s, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            L = lines[i]
            if not L or L[0] in ';!': i += 1; continue
            if L.startswith('%'):
                p = Parser(s, tokenize(L), L)
                nm = unq(p.next()[1]); p.expect('='); p.expect('type')
                if p.peek() != 'opaque':
                    s.types[nm] = p.type()
                i += 1; continue
            if L.startswith('@'):
                s.global_line(L); i += 1; continue
            if L.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = s.header(L)
                f.body = lines[i+1:j]
                i = j + 1; continue
            if L.startswith('declare'):
                s.header(L); i += 1; continue
            i += 1
        return s

    def global_line(s, L):
        p = Parser(s, tokenize(L), L)
        nm = unq(p.next()[1]); p.expect('=')
        ext = False
        while p.kind() == 'id' and p.peek() in LINK or p.peek() in ('thread_local', 'addrspace'):
            v = p.next()[1]
            if v in ('external', 'extern_weak'): ext = True
            if v == 'thread_local' and p.peek() == '(': p.skip_parens()
            if v == 'addrspace': p.skip_parens()
        k = p.next()[1]
        if k in ('alias', 'ifunc'):
            p.type()
            if p.peek() == '(': p.skip_parens()
            p.expect(','); t = p.type(); s.aliases[nm] = p.value(t); return
        if k not in ('global', 'constant'): p.err('global')
        t = p.type()
        init = None
        if not ext and not p.eol() and p.peek() != ',':
            init = p.value(t)
        if nm == 'llvm.global_ctors':
            s.ctors = [(e[0], e[1]) for e in init] if init else []
            return
        s.globals[nm] = (t, init, k == 'constant', ext)

    def header(s, L):
        p = Parser(s, tokenize(L.rstrip(' {')), L)
        p.next()
        while p.kind() == 'id' and p.peek() in LINK: p.next()
        if p.peek() == 'cc': p.next(); p.next()
        p.pattrs()
        rt = p.type()
        nm = unq(p.next()[1])
        f = Func(nm); f.ret = rt; f.mod = s; f.params = []; f.pattrs = []; f.vararg = False
        p.expect('(')
        cnt = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'): f.vararg = True
                else:
                    t = p.type(); at = p.pattrs()
                    name = None
                    if p.kind() == 'loc': name = unq(p.next()[1])
                    else: name = str(cnt)
                    f.params.append((t, name)); f.pattrs.append(at); cnt += 1
                if p.accept(')'): break
                p.expect(',')
        old = s.funcs.get(nm)
        if old is None or old.body is None:
            s.funcs[nm] = f
        return f

    def func_blocks(s, f):
        """parse the body on demand"""
        if f.blocks is not None: return
        blocks = {}; cur = None
        # implicit entry label: number after the params
        entry_name = None
        lines = f.body
        i = 0
        first = True
        nparam_unnamed = sum(1 for t, n in f.params if n.isdigit())
        while i < len(lines):
            L = lines[i]; i += 1
            st = L.strip()
            if not st or st[0] == ';': continue
            if not L.startswith(' ') and ':' in L:
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', L)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"': nm = nm[1:-1]
                    cur = Block(nm); blocks[nm] = cur
                    if first: entry_name = nm; first = False
                    continue
            if first:
                entry_name = str(nparam_unnamed); cur = Block(entry_name); blocks[entry_name] = cur; first = False
            # multi-line instructions
            if st.startswith('switch') or ' = switch' in st:
                while not lines[i-1].strip().endswith(']'):
                    st += ' ' + lines[i].strip(); i += 1
            elif ('invoke ' in st):
                while i < len(lines) and lines[i].strip().startswith('to label'):
                    st += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in st:
                while i < len(lines) and re.match(r'^(catch|cleanup|filter)\b', lines[i].strip()):
                    st += ' ' + lines[i].strip(); i += 1
            ins = s.inst(st)
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.insts.append(ins)
        f.blocks = blocks; f.entry = entry_name
        f.body = True

    def inst(s, st):
        mi = st.find(', !')
        if mi >= 0 and 'metadata' not in st: st = st[:mi]
        p = Parser(s, tokenize(st), st)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = unq(p.next()[1]); p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        I = Inst(op, dst, text=st)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.kind() == 'id' and p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            I.ty = t; I.a = (a, b)
        elif op == 'fneg':
            t = p.type(); I.ty = t; I.a = (p.value(t),)
        elif op in ('icmp', 'fcmp'):
            if op == 'fcmp':
                while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            pr = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            I.ty = t; I.a = (a, b); I.x = pr
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            I.ty = t2; I.a = (a,); I.x = t
        elif op == 'select':
            ct, c = p.tv(); p.expect(','); t, a = p.tv(); p.expect(','); _, b = p.tv()
            I.ty = t; I.a = (c, a, b)
        elif op == 'freeze':
            t, a = p.tv(); I.ty = t; I.a = (a,)
        elif op == 'phi':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            t = p.type(); d = {}
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = unq(p.next()[1]); p.expect(']')
                d[b] = v
                if not p.accept(','): break
            I.ty = t; I.x = d
        elif op == 'br':
            if p.accept('label'):
                I.x = (unq(p.next()[1]),)
            else:
                t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = unq(p.next()[1]); p.expect(','); p.expect('label'); b = unq(p.next()[1])
                I.a = (c,); I.x = (a, b)
        elif op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = unq(p.next()[1]); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv, unq(p.next()[1])))
            I.ty = t; I.a = (v,); I.x = (d, cases)
        elif op == 'ret':
            t = p.type()
            I.ty = t
            if t.k != 'void': I.a = (p.value(t),)
        elif op in ('unreachable', 'fence'): pass
        elif op == 'resume':
            t, v = p.tv(); I.ty = t; I.a = (v,)
        elif op == 'alloca':
            p.accept('inalloca')
            t = p.type(); cnt = 1
            while p.accept(','):
                if p.accept('align'): p.next()
                else: ct = p.type(); cnt = p.value(ct)
            I.ty = t; I.a = (cnt,)
        elif op == 'load':
            p.accept('atomic'); p.accept('volatile')
            t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            I.ty = t; I.a = (a,)
        elif op == 'store':
            p.accept('atomic'); p.accept('volatile')
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            I.ty = t; I.a = (v, a)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            t = p.type(); p.expect(','); bt = p.type(); base = p.value(bt); idx = []
            while p.accept(','):
                it = p.type(); idx.append((it, p.value(it)))
            I.ty = t; I.a = (base,); I.x = idx
        elif op == 'extractvalue':
            t, v = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            I.ty = t; I.a = (v,); I.x = idx
        elif op == 'insertvalue':
            t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            I.ty = t; I.a = (v, v2); I.x = idx
        elif op == 'landingpad':
            t = p.type(); cl = []
            while not p.eol():
                k = p.next()[1]
                if k == 'cleanup': cl.append(('cleanup', None))
                elif k == 'catch':
                    ct, cv = p.tv(); cl.append(('catch', cv))
                elif k == 'filter':
                    ct, cv = p.tv(); cl.append(('filter', cv))
                else: p.err('landingpad')
            I.ty = t; I.x = cl
        elif op in ('call', 'invoke'):
            while p.kind() == 'id' and p.peek() in LINK or p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            p.pattrs()
            rt = p.type()
            # optional function type
            if p.peek() == '(':
                p.skip_parens()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type(); at = p.pattrs()
                    if t.k == 'metadata':
                        # skip the operand
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            v = p.next()[1]
                            if v in '({[': d += 1
                            elif v in ')}]': d -= 1
                        v = None
                    else:
                        v = p.value(t)
                    args.append((t, v, at))
                    if p.accept(')'): break
                    p.expect(',')
            I.ty = rt; I.a = (callee,); I.x = args
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.expect('to'); p.expect('label'); n = unq(p.next()[1]); p.expect('unwind'); p.expect('label'); u = unq(p.next()[1])
                I.x = (args, n, u)
        elif op == 'atomicrmw':
            p.accept('volatile')
            rop = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); v = p.value(t2)
            I.ty = t2; I.a = (a, v); I.x = rop
        elif op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile')
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); c = p.value(t2); p.expect(','); t3 = p.type(); n = p.value(t3)
            I.ty = t2; I.a = (a, c, n)
        elif op in ('extractelement',):
            t, v = p.tv(); p.expect(','); it, ix = p.tv(); I.ty = t; I.a = (v, ix)
        elif op in ('insertelement',):
            t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); p.expect(','); it, ix = p.tv(); I.ty = t; I.a = (v, v2, ix)
        elif op == 'shufflevector':
            t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); p.expect(','); t3, m = p.tv(); I.ty = t3; I.a = (v, v2, m); I.x = t
        else:
            raise ParseError('unknown instruction: ' + st)
        return I
