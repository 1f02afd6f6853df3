"""Symbolic values: scalars (python int / z3 BV), ropes, heap references.

Scalars of integer type are python ints (unsigned, masked) or z3 bit-vectors of
the width of their Go type.  Booleans are python bools or z3 Bools.  Sequences
(strings, array contents) are ropes: tuples of segments.
"""
import z3, hashlib

W = 64

class Unsupported(Exception):
    pass

class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond

def isz(x):
    return isinstance(x, z3.ExprRef)

_simp_cache = {}
def simp(x):
    if not isz(x):
        return x
    i = x.get_id()
    r = _simp_cache.get(i)
    if r is not None and r[0].eq(x):
        return r[1]
    y = z3.simplify(x)
    if z3.is_bv_value(y):
        y = y.as_long()
    elif z3.is_true(y):
        y = True
    elif z3.is_false(y):
        y = False
    if len(_simp_cache) > 400000:
        _simp_cache.clear()
    _simp_cache[i] = (x, y)
    return y

def bv(x, w):
    return x if isz(x) else z3.BitVecVal(x, w)

def zb(x):
    return x if isz(x) else z3.BoolVal(bool(x))

def mask(x, w):
    return x & ((1 << w) - 1)

def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x

def add(a, b, w=W):
    if not isz(a) and not isz(b):
        return mask(a + b, w)
    if not isz(a) and a == 0: return b
    if not isz(b) and b == 0: return a
    return simp(bv(a, w) + bv(b, w))

def sub(a, b, w=W):
    if not isz(a) and not isz(b):
        return mask(a - b, w)
    if not isz(b) and b == 0: return a
    return simp(bv(a, w) - bv(b, w))

def mul(a, b, w=W):
    if not isz(a) and not isz(b):
        return mask(a * b, w)
    return simp(bv(a, w) * bv(b, w))

def eq(a, b, w=W):
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return simp(zb(a) == zb(b))
    if not isz(a) and not isz(b):
        return a == b
    if isz(a): w = a.size()
    elif isz(b): w = b.size()
    return simp(bv(a, w) == bv(b, w))

def ult(a, b, w=W):
    if not isz(a) and not isz(b):
        return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))

def ule(a, b, w=W):
    if not isz(a) and not isz(b):
        return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))

def slt(a, b, w=W):
    if not isz(a) and not isz(b):
        return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))

def sle(a, b, w=W):
    if not isz(a) and not isz(b):
        return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))

def bnot(a):
    if isz(a): return simp(z3.Not(a))
    return not a

def band(*xs):
    ys = []
    for x in xs:
        if isz(x): ys.append(x)
        elif not x: return False
    if not ys: return True
    if len(ys) == 1: return ys[0]
    return simp(z3.And(*ys))

def bor(*xs):
    ys = []
    for x in xs:
        if isz(x): ys.append(x)
        elif x: return True
    if not ys: return False
    if len(ys) == 1: return ys[0]
    return simp(z3.Or(*ys))

def ite(c, a, b, w=None):
    if not isz(c):
        return a if c else b
    if not isz(a) and not isz(b) and type(a) == type(b) and a == b:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return simp(z3.If(c, zb(a), zb(b)))
    if w is None:
        w = a.size() if isz(a) else b.size()
    return simp(z3.If(c, bv(a, w), bv(b, w)))

# ---------------------------------------------------------------- references

class Ref:
    """Heap object reference: id plus index arguments (for families)."""
    __slots__ = ('id', 'args')
    def __init__(self, id, args=()):
        self.id = id; self.args = args
    def key(self):
        return (self.id, tuple(a.get_id() if isz(a) else a for a in self.args))
    def __repr__(self):
        return 'Ref(%s%s)' % (self.id, list(self.args) if self.args else '')

class Ptr:
    __slots__ = ('ref', 'path', 'nil')
    def __init__(self, ref, path=(), nil=False):
        self.ref = ref; self.path = path; self.nil = nil
    def __repr__(self):
        return 'Ptr(%s,%s,nil=%s)' % (self.ref, self.path, self.nil)

class Slice:
    __slots__ = ('ref', 'path', 'off', 'ln', 'nil', 'et')
    def __init__(self, ref, path, off, ln, nil=False, et=None):
        self.ref = ref; self.path = path; self.off = off; self.ln = ln; self.nil = nil; self.et = et
    def __repr__(self):
        return 'Slice(%s%s,off=%s,len=%s,nil=%s)' % (self.ref, self.path or '', self.off, self.ln, self.nil)

class Struct:
    __slots__ = ('f',)
    def __init__(self, f): self.f = tuple(f)
    def __repr__(self): return 'Struct%r' % (self.f,)

class Iface:
    """interface value; dyn = (typeid, value) or None for opaque non-nil; nil may be symbolic"""
    __slots__ = ('nil', 'dyn', 'tag')
    def __init__(self, nil, dyn=None, tag=None):
        self.nil = nil; self.dyn = dyn; self.tag = tag
    def __repr__(self): return 'Iface(nil=%s,%s)' % (self.nil, self.dyn)

class Func:
    __slots__ = ('name', 'bind')
    def __init__(self, name, bind=()): self.name = name; self.bind = tuple(bind)

class MapRef:
    __slots__ = ('ref', 'nil')
    def __init__(self, ref, nil=False): self.ref = ref; self.nil = nil

class MapC:
    """map content: concrete association list"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)

class BigC:
    """content of a big.Int object: signed integer as python int or z3 BV of width BW
    (two's complement) with a known bound on its magnitude in bits (bits)."""
    __slots__ = ('v', 'bits', 'neg')
    def __init__(self, v, bits, neg=False):
        self.v = v; self.bits = bits; self.neg = neg   # neg: may be negative

class HashC:
    """content of a hash.Hash object: kind, key rope, data rope"""
    __slots__ = ('kind', 'key', 'data')
    def __init__(self, kind, key, data): self.kind = kind; self.key = key; self.data = data

class Opaque:
    __slots__ = ('tag', 'payload')
    def __init__(self, tag, payload=()): self.tag = tag; self.payload = payload

class Stale:
    """pointer-like loop variable that every iteration overwrites before reading: reading what an earlier iteration left is not supported"""
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('stale loop variable read')

class Iter:
    __slots__ = ('rope', 'pos')
    def __init__(self, rope, pos): self.rope = rope; self.pos = pos

# ---------------------------------------------------------------- bases

class Base:
    """An immutable symbolic sequence: elements are given by uninterpreted functions of
    (args, index).  elem: element descriptor ('bv',w) | ('bool',) | type id (int)"""
    __slots__ = ('name', 'args', 'ln', 'et')
    def __init__(self, name, args, ln, et):
        self.name = name; self.args = tuple(args); self.ln = ln; self.et = et
    def key(self):
        return (self.name, tuple(a.get_id() if isz(a) else a for a in self.args))
    def __repr__(self): return '%s%s' % (self.name, list(self.args) if self.args else '')
    def sub(self, s):
        return Base(self.name, tuple(tsub(a, s) for a in self.args), tsub(self.ln, s), self.et)

class App(Base):
    """Uninterpreted function applied to ropes and scalars (hash digests, hex text, ...)."""
    __slots__ = ('f', 'ropes', 'sc')
    def __init__(self, f, ropes, sc, ln, et):
        self.f = f; self.ropes = tuple(ropes); self.sc = tuple(sc)
        sk = []; leaf = []
        for r in self.ropes:
            canon(r, sk, leaf, [])
            sk.append('|')
        for s in self.sc:
            cterm(s, sk, leaf, [])
        self.name = f + '#' + hashlib.md5(''.join(sk).encode()).hexdigest()[:12]
        self.args = tuple(leaf)
        self.ln = ln; self.et = et
    def sub(self, s):
        return App(self.f, tuple(rsub(r, s) for r in self.ropes), tuple(tsub(x, s) for x in self.sc),
                   tsub(self.ln, s), self.et)
    def __repr__(self): return '%s(%s)' % (self.f, ','.join(map(repr, self.ropes)))

def ufname(f, ropes, sc=()):
    """name and leaf args for a scalar uninterpreted function of ropes"""
    sk = []; leaf = []
    for r in ropes:
        canon(r, sk, leaf, [])
        sk.append('|')
    for s in sc:
        cterm(s, sk, leaf, [])
    return f + '#' + hashlib.md5(''.join(sk).encode()).hexdigest()[:12], tuple(leaf)

def ufapp(f, ropes, sc, rng):
    n, leaf = ufname(f, ropes, sc)
    return uf(n, leaf, rng)

def sort_of(a):
    return a.sort()

def uf(name, args, rng):
    args = [a if isz(a) else z3.BitVecVal(a, W) for a in args]
    if not args:
        return z3.Const(name, rng)
    fn = z3.Function(name, *([a.sort() for a in args] + [rng]))
    return fn(*args)

# ---------------------------------------------------------------- rope segments

class U:
    """explicit units"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    @property
    def ln(self): return len(self.v)
    def __repr__(self):
        if all(isinstance(x, int) and not isinstance(x, bool) for x in self.v) and len(self.v) > 0 and all(x < 256 for x in self.v):
            return 'U<%s>' % bytes(self.v).hex()
        return 'U%s' % (list(self.v),)

class S:
    """slice of a base"""
    __slots__ = ('b', 'off', 'ln')
    def __init__(self, b, off, ln): self.b = b; self.off = off; self.ln = ln
    def __repr__(self): return 'S(%r,%s,%s)' % (self.b, self.off, self.ln)

class R:
    """n copies of a value"""
    __slots__ = ('v', 'ln')
    def __init__(self, v, ln): self.v = v; self.ln = ln
    def __repr__(self): return 'R(%s,%s)' % (self.v, self.ln)

class C:
    """concatenation over index var in [0,n) of cases: [(cond, rope)]; clen: constant body length or None;
    ln: total length"""
    __slots__ = ('var', 'n', 'cases', 'clen', 'ln')
    def __init__(self, var, n, cases, clen, ln):
        self.var = var; self.n = n; self.cases = tuple(cases); self.clen = clen; self.ln = ln
    def __repr__(self): return 'C(%s<%s: %s)' % (self.var, self.n, ' / '.join('[%s]%r' % (c if not isz(c) else '..', r) for c, r in self.cases))

def mkC(var, n, cases):
    # every index in [0,n) is in one of the cases: equal contents in all of them need no case distinction
    if cases:
        ks = set()
        for c, r in cases:
            sk = []; leaf = []
            try: canon(r, sk, leaf, [var])
            except Unsupported:
                ks = (); break
            ks.add((''.join(sk), tuple(x.get_id() if isz(x) else x for x in leaf)))
        if len(ks) == 1:
            cases = [(True, cases[0][1])]
    lens = set()
    for c, r in cases:
        l = rlen(r)
        lens.add(l if not isz(l) else None)
    if len(lens) == 1 and None not in lens:
        cl = lens.pop()
        return C(var, n, cases, cl, mul(cl, n))
    sk = []; leaf = []
    for c, r in cases:
        cterm(c, sk, leaf, [var]); canon(r, sk, leaf, [var])
    nm = 'sumlen#' + hashlib.md5(''.join(sk).encode()).hexdigest()[:12]
    return C(var, n, cases, None, uf(nm, tuple(leaf) + (bv(n, W),), z3.BitVecSort(W)))

EMPTY = ()

def seg_nonempty(s):
    return isz(s.ln) or s.ln != 0

def norm(segs):
    out = []
    for s in segs:
        if not isz(s.ln) and s.ln == 0:
            continue
        if out:
            p = out[-1]
            if isinstance(p, U) and isinstance(s, U):
                out[-1] = U(p.v + s.v); continue
            if isinstance(p, S) and isinstance(s, S) and p.b.key() == s.b.key():
                d = sub(add(p.off, p.ln), s.off)
                if not isz(d) and d == 0:
                    out[-1] = S(p.b, p.off, add(p.ln, s.ln)); continue
            if isinstance(p, S) and isinstance(s, U) and isinstance(p.b.et, tuple):
                # units that continue the slice
                k = 0; off = add(p.off, p.ln)
                for v in s.v:
                    if isz(v) and base_at_matches(p.b, add(off, k), v): k += 1
                    else: break
                if k:
                    out[-1] = S(p.b, p.off, add(p.ln, k))
                    if k < len(s.v): out.append(U(s.v[k:]))
                    continue
        out.append(s)
    return tuple(out)

def base_at_matches(b, idx, v):
    if not isinstance(b.et, tuple) or b.et[0] != 'bv': return False
    if not z3.is_app(v) or v.decl().name() != b.name + '@': return False
    t = simp(base_term(b, idx))
    return isz(t) and t.eq(v)

def base_term(b, idx):
    if b.et[0] == 'bool':
        return uf(b.name + '@', b.args + (bv(idx, W),), z3.BoolSort())
    return uf(b.name + '@', b.args + (bv(idx, W),), z3.BitVecSort(b.et[1]))

def cat(*rs):
    l = []
    for r in rs: l.extend(r)
    return norm(l)

def rlen(r):
    t = 0
    for s in r: t = add(t, s.ln)
    return t

def units(vals):
    vals = tuple(vals)
    return (U(vals),) if vals else ()

def cbytes(b):
    return units(tuple(b))

def is_conc(r):
    return all(isinstance(s, U) and all(isinstance(v, int) for v in s.v) for s in r)

def conc(r):
    return bytes(v for s in r for v in s.v)

# ---------------------------------------------------------------- substitution

def tsub(t, s):
    if isz(t):
        return simp(z3.substitute(t, *s))
    return t

def segsub(g, s):
    if isinstance(g, U): return U(tuple(vsub(v, s) for v in g.v))
    if isinstance(g, S): return S(g.b.sub(s), tsub(g.off, s), tsub(g.ln, s))
    if isinstance(g, R): return R(vsub(g.v, s), tsub(g.ln, s))
    if isinstance(g, C):
        # bound vars are globally unique
        return mkC(g.var, tsub(g.n, s), [(tsub(c, s), rsub(r, s)) for c, r in g.cases])
    raise Unsupported('segsub')

def rsub(r, s):
    return norm([segsub(g, s) for g in r])

def vsub(v, s):
    if isinstance(v, (int, bool, str)) or v is None: return v
    if isz(v): return tsub(v, s)
    if isinstance(v, Ref): return Ref(v.id, tuple(tsub(a, s) for a in v.args))
    if isinstance(v, Ptr): return Ptr(vsub(v.ref, s), tuple((k, tsub(i, s)) for k, i in v.path), tsub(v.nil, s))
    if isinstance(v, Slice): return Slice(vsub(v.ref, s), tuple((k, tsub(i, s)) for k, i in v.path), tsub(v.off, s), tsub(v.ln, s), tsub(v.nil, s), v.et)
    if isinstance(v, Struct): return Struct([vsub(x, s) for x in v.f])
    if isinstance(v, tuple):
        if v and isinstance(v[0], (U, S, R, C)): return rsub(v, s)
        if not v: return v
        return tuple(vsub(x, s) for x in v)
    if isinstance(v, Iface): return Iface(tsub(v.nil, s), None if v.dyn is None else (v.dyn[0], vsub(v.dyn[1], s)), v.tag)
    if isinstance(v, Func): return Func(v.name, tuple(vsub(x, s) for x in v.bind))
    if isinstance(v, MapRef): return MapRef(vsub(v.ref, s), v.nil)
    if isinstance(v, MapC): return MapC([(vsub(a, s), vsub(b, s)) for a, b in v.items])
    if isinstance(v, BigC): return BigC(tsub(v.v, s), v.bits, v.neg)
    if isinstance(v, HashC): return HashC(v.kind, rsub(v.key, s), rsub(v.data, s))
    if isinstance(v, Opaque): return Opaque(v.tag, tuple(vsub(x, s) for x in v.payload))
    if isinstance(v, Iter): return Iter(rsub(v.rope, s), tsub(v.pos, s))
    if isinstance(v, (U, S, R, C)): return segsub(v, s)
    raise Unsupported('vsub %r' % (v,))

def rename(v, m):
    """rename heap object ids"""
    if isinstance(v, (int, bool, str)) or v is None or isz(v): return v
    if isinstance(v, Ref): return Ref(m.get(v.id, v.id), v.args)
    if isinstance(v, Ptr): return Ptr(rename(v.ref, m), v.path, v.nil)
    if isinstance(v, Slice): return Slice(rename(v.ref, m), v.path, v.off, v.ln, v.nil, v.et)
    if isinstance(v, Struct): return Struct([rename(x, m) for x in v.f])
    if isinstance(v, tuple):
        if v and isinstance(v[0], (U, S, R, C)):
            return tuple(rename(g, m) for g in v)
        return tuple(rename(x, m) for x in v)
    if isinstance(v, U): return U(tuple(rename(x, m) for x in v.v))
    if isinstance(v, S): return v
    if isinstance(v, R): return R(rename(v.v, m), v.ln)
    if isinstance(v, C): return C(v.var, v.n, tuple((c, rename(r, m)) for c, r in v.cases), v.clen, v.ln)
    if isinstance(v, Iface): return Iface(v.nil, None if v.dyn is None else (v.dyn[0], rename(v.dyn[1], m)), v.tag)
    if isinstance(v, Func): return Func(v.name, tuple(rename(x, m) for x in v.bind))
    if isinstance(v, MapRef): return MapRef(rename(v.ref, m), v.nil)
    if isinstance(v, MapC): return MapC([(rename(a, m), rename(b, m)) for a, b in v.items])
    return v

# ---------------------------------------------------------------- canonical skeletons

def free_consts(t, acc, seen):
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.append(x)
        else:
            for k in range(x.num_args() - 1, -1, -1):
                st.append(x.arg(k))

def cterm(t, sk, leaf, bound):
    if not isz(t):
        sk.append('#%s;' % (t,)); return
    t = simp(t)
    if not isz(t):
        sk.append('#%s;' % (t,)); return
    if bound:
        acc = []
        free_consts(t, acc, set())
        bids = {b.get_id() for b in bound}
        if any(a.get_id() in bids for a in acc):
            s = []
            for n, b in enumerate(bound):
                s.append((b, z3.Const('$b%d' % n, b.sort())))
            k = 0
            for a in sorted(acc, key=lambda a: a.decl().name()):
                if a.get_id() in bids: continue
                s.append((a, z3.Const('$f%d:%s' % (k, a.sort().sexpr()), a.sort()))); k += 1
                leaf.append(a)
            sk.append('{' + z3.substitute(t, *s).sexpr() + '}')
            return
    sk.append('_%s;' % t.sort().sexpr())
    leaf.append(t)

def canon(r, sk, leaf, bound):
    for g in r:
        if isinstance(g, U):
            for v in g.v: canonv(v, sk, leaf, bound)
        elif isinstance(g, S):
            sk.append('S:' + g.b.name + '(')
            for a in g.b.args: cterm(a, sk, leaf, bound)
            sk.append(')')
            cterm(g.off, sk, leaf, bound); cterm(g.ln, sk, leaf, bound)
        elif isinstance(g, R):
            sk.append('R:'); canonv(g.v, sk, leaf, bound); cterm(g.ln, sk, leaf, bound)
        elif isinstance(g, C):
            sk.append('C:'); cterm(g.n, sk, leaf, bound)
            for c, rr in g.cases:
                sk.append('['); cterm(c, sk, leaf, bound + [g.var]); canon(rr, sk, leaf, bound + [g.var]); sk.append(']')
    sk.append('.')

def canonv(v, sk, leaf, bound):
    if isinstance(v, (int, bool)) or isz(v): cterm(v, sk, leaf, bound); return
    if isinstance(v, Struct):
        sk.append('T(')
        for x in v.f: canonv(x, sk, leaf, bound)
        sk.append(')'); return
    if isinstance(v, tuple):
        sk.append('<'); canon(v, sk, leaf, bound); sk.append('>'); return
    raise Unsupported('canon of %r' % (v,))
