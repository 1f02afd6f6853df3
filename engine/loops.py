"""Loop summarisation: infers the inductive form of every loop variable, proves the inductive step with
z3 for a symbolic iteration k, and replaces the loop by the closed form (concatenation over j<k, cursor
functions with step facts).  Nothing is bounded by an iteration count."""
import z3
from val import *
from ir import *

class SV:
    def __init__(self, key, t, kind, init):
        self.key = key; self.t = t; self.kind = kind; self.init = init; self.cls = None; self.ph = None
        self.X = None; self.nm = None

def flat(eng, t):
    p = eng.p
    if t is not None and p.kind(t) == 'struct' and not p.isbig(t):
        for i, f in enumerate(p.ti(t)['fields']):
            for pa, tt in flat(eng, f['t']): yield (i,) + pa, tt
    else: yield (), t

def getl(v, path):
    for i in path: v = v.f[i]
    return v

def setl(v, path, x):
    if not path: return x
    f = list(v.f); f[path[0]] = setl(f[path[0]], path[1:], x); return Struct(f)

STALE = Stale()
class Restart(Exception): pass

def hpath(path):
    return tuple(('i', x[1]) if isinstance(x, tuple) else ('f', x) for x in path)

def hget(eng, s, c, path): return eng.walk(s, c, hpath(path))
def hset(eng, s, c, path, x): return eng.upd(s, c, hpath(path), x)

def kindof(eng, t, v):
    if isinstance(v, Iter): return 'iter'
    if isinstance(v, HashC): return 'hash'
    if isinstance(v, BigC): return 'big'
    if isinstance(v, MapC): return 'fix'
    if isinstance(v, (Ptr, Iface, MapRef, Func, Opaque)): return 'fix'
    if isinstance(v, Slice): return 'slice'
    if isinstance(t, tuple): return 'rope'       # ('elems', et)
    k = eng.p.kind(t)
    if k in ('int', 'bool', 'string'): return k
    if k == 'array': return 'rope'
    if k == 'tuple': return 'fix'
    raise Unsupported('loop variable of kind %s' % k)

def same(a, b):
    if a is b: return True
    if isz(a) or isz(b): return isz(a) and isz(b) and a.eq(b)
    if type(a) != type(b): return False
    if isinstance(a, (int, bool, str)) or a is None: return a == b
    if isinstance(a, tuple):
        if len(a) != len(b): return False
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Base): return a.key() == b.key()
    if isinstance(a, C):
        return a.var.eq(b.var) and same(a.n, b.n) and len(a.cases) == len(b.cases) and all(same(x, y) for x, y in zip(a.cases, b.cases))
    if isinstance(a, Opaque): return a.tag == b.tag and same(a.payload, b.payload)
    if isinstance(a, Iface) and a.nil is True and b.nil is True: return True
    sl = [s for c in type(a).__mro__ for s in getattr(c, '__slots__', ())]
    return all(same(getattr(a, s), getattr(b, s)) for s in sl if s not in ('et',))

def names_in(v, acc, seen):
    """collect uninterpreted symbol names occurring in a value"""
    if isz(v):
        st = [v]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen[i] = x
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st.extend(x.children())
        return
    if v is None or isinstance(v, (int, bool, str)): return
    if isinstance(v, (tuple, list)):
        for x in v: names_in(x, acc, seen)
        return
    if isinstance(v, Base):
        acc.add(v.name); names_in(v.args, acc, seen); names_in(v.ln, acc, seen)
        if isinstance(v, App): names_in(v.ropes, acc, seen); names_in(v.sc, acc, seen)
        return
    if isinstance(v, Ref):
        acc.add(v.id); names_in(v.args, acc, seen); return
    sl = [s for c in type(v).__mro__ for s in getattr(c, '__slots__', ())]
    for s in sl:
        if s == 'et': continue
        names_in(getattr(v, s), acc, seen)

def mentions(v, nms):
    acc = set(); names_in(v, acc, {})
    return any(a in nms or a.split('@')[0].split('[]')[0].split('.')[0] in nms for a in acc)

# ------------------------------------------------------------------ unroll or summarise

def want(eng, st, fr, loop, vals):
    fn = fr.fn
    blk = fn.blocks[loop.header]
    last = blk['ins'][-1]
    if last['op'] != 'if': return True
    # evaluate the header symbolically on a scratch copy
    try:
        s = st.clone(); f = s.frames[-1]
        for r, v in vals.items(): f.regs[r] = v
        n = 0
        while blk['ins'][n]['op'] == 'phi': n += 1
        cmpi = None
        for ins in blk['ins'][n:-1]:
            if ins['op'] == 'call':
                nm = ins.get('callee') or ''
                if not (isinstance(ins.get('fn'), dict) and 'b' in ins['fn']) and not nm.startswith('builtin:'): return guess(eng, st, fr, loop, vals)
            if ins['op'] in ('store', 'next', 'range'): return guess(eng, st, fr, loop, vals)
            f.ip = blk['ins'].index(ins)
            eng.silent += 1
            try: eng.step(s, f, blk, ins, None, [])
            finally: eng.silent -= 1
            if ins.get('r') == last['x']: cmpi = ins
    except Unsupported:
        return True
    if cmpi is None or cmpi['op'] != 'binop': return guess(eng, st, fr, loop, vals)
    x = eng.val(s, f, cmpi['x']); y = eng.val(s, f, cmpi['y'])
    if eng.p.kind(cmpi['xt']) != 'int': return guess(eng, st, fr, loop, vals)
    w, sg = eng.p.intinfo(cmpi['xt'])
    bop = cmpi['bop']
    inside = [t in loop.body for t in blk['succs']]
    if inside[0] == inside[1]: return guess(eng, st, fr, loop, vals)
    if not inside[0]: bop = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[bop]
    d = sub(y, x, w) if bop in ('<', '<=', '!=') else sub(x, y, w)
    if not isz(d):
        return sgn(d, w) > 1050
    if bop in ('==',): return guess(eng, st, fr, loop, vals)
    lim = 66
    return not eng.must(st, sle(d, lim, w))

def guess(eng, st, fr, loop, vals):
    # loops whose slice variables are provably short are unrolled
    small = False
    for r, v in vals.items():
        if isinstance(v, Slice):
            if eng.must(st, ule(v.ln, 66)): small = True
            else: return True
        if isinstance(v, tuple) and (not v or isinstance(v[0], (U, S, R, C))):
            if eng.must(st, ule(rlen(v), 66)): small = True
            else: return True
    if not vals:
        # string iteration
        blk = fr.fn.blocks[loop.header]
        for ins in blk['ins']:
            if ins['op'] == 'next':
                p = eng.val(st, fr, ins['x']); it = eng.content(st, p.ref)
                if not ins['isstr']: return False
                return not eng.must(st, ule(rlen(it.rope), 66))
        return True
    if small: return False
    blk = fr.fn.blocks[loop.header]
    for ins in blk['ins']:
        if ins['op'] == 'next':
            p = eng.val(st, fr, ins['x']); it = eng.content(st, p.ref)
            if not ins['isstr']: return False
            return not eng.must(st, ule(rlen(it.rope), 66))
    return True

# ------------------------------------------------------------------ summarise

class Summ:
    def __init__(self, eng, st, loop, vals):
        self.eng = eng; self.st = st; self.loop = loop
        self.fr = st.frames[-1]; self.depth = len(st.frames) - 1
        self.vals = vals
        self.k = eng.fresh_bv(st, W, 'k')
        self.svs = {}
        self.objs = {}     # modified objects: id -> type
        self.Q = []        # accepted invariants: functions k -> Bool
        self.fam = {}
        self.N = None
        self.tried = False
        self.cases = None
        self.split = {}
        for ins in self.fr.fn.blocks[loop.header]['ins']:
            if ins['op'] != 'phi': break
            for pa, tt in flat(eng, ins['t']):
                self.addsv(('p', ins['r']) + pa, tt, getl(vals[ins['r']], pa))
    def addsv(self, key, t, init):
        v = SV(key, t, kindof(self.eng, t, init), init)
        v.nm = 'L%d' % self.eng.fid()
        self.svs[key] = v
        return v
    # ---------------------------------------------------------- placeholders (pass 1)
    def placeholder(self, s, v):
        eng = self.eng
        if v.kind == 'int': return uf(v.nm + 'ph', s.ctx, z3.BitVecSort(eng.p.intinfo(v.t)[0]))
        if v.kind == 'bool': return uf(v.nm + 'ph', s.ctx, z3.BoolSort())
        if v.kind == 'big': return BigC(uf(v.nm + 'ph', s.ctx, z3.BitVecSort(eng.BW)), eng.BW - 1, True)
        if v.kind in ('string', 'hash'):
            ln = uf(v.nm + 'phlen', s.ctx, z3.BitVecSort(W)); s.assume(z3.ULT(ln, 1 << 40))
            r = (S(Base(v.nm + 'ph', s.ctx, ln, ('bv', 8)), 0, ln),)
            return r if v.kind == 'string' else HashC(v.init.kind, v.init.key, r)
        if v.kind == 'iter':
            return Iter(v.init.rope, uf(v.nm + 'ph', s.ctx, z3.BitVecSort(W)))
        if v.kind == 'slice':
            ln = uf(v.nm + 'phlen', s.ctx, z3.BitVecSort(W)); s.assume(z3.ULT(ln, 1 << 40))
            nil = uf(v.nm + 'phnil', s.ctx, z3.BoolSort()); s.assume(z3.Or(z3.Not(nil), ln == 0))
            et = v.init.et if v.init.et is not None else eng.p.ti(v.t)['elem']
            b = Base(v.nm + 'ph', s.ctx, ln, eng.p.elem_desc(et))
            h = dict(s.heap); h[v.nm + 'ph'] = (s.ctx, (S(b, 0, ln),), ()); s.heap = h
            eng.otypes[v.nm + 'ph'] = ('elems', et)
            return Slice(Ref(v.nm + 'ph', s.ctx), (), 0, ln, nil, et)
        if v.kind == 'rope':
            ln = rlen(v.init); et = v.t[1] if isinstance(v.t, tuple) else eng.p.ti(v.t)['elem']
            return (S(Base(v.nm + 'ph', s.ctx, ln, eng.p.elem_desc(et)), 0, ln),)
        return v.init
    # ---------------------------------------------------------- values at iteration k (pass 2)
    def cur(self, v, k, suffix='cur', sort=None):
        return uf(v.nm + suffix, tuple(self.st.ctx) + (bv(k, W),), (z3.BitVecSort(W) if sort is None else sort))
    def intval(self, cls, init, k, w, nm, sort=None):
        if cls[0] == 'inv': return init
        if cls[0] == 'cnt': return add(init, mul(cls[1], self.trunc(k, w), w), w)
        return uf(nm, tuple(self.st.ctx) + (bv(k, W),), (z3.BitVecSort(w) if sort is None else sort))
    def trunc(self, k, w):
        if w == W: return k
        if not isz(k): return mask(k, w)
        return simp(z3.Extract(w - 1, 0, k) if w < W else z3.ZeroExt(w - W, k))
    def at(self, s, v, k, explicit):
        eng = self.eng; c = v.cls
        if c is None or c[0] == 'inv': return v.init
        if c[0] == 'stale': return STALE
        if v.kind == 'int':
            return self.intval(c, v.init, k, eng.p.intinfo(v.t)[0], v.nm + 'cur')
        if v.kind == 'bool': return self.cur(v, k, 'cur', z3.BoolSort())
        if v.kind == 'big': return BigC(self.cur(v, k, 'cur', z3.BitVecSort(eng.BW)), eng.BW - 1, True)
        if v.kind == 'iter': return Iter(v.init.rope, self.intval(c, v.init.pos, k, W, v.nm + 'cur'))
        if v.kind == 'hash': return HashC(v.init.kind, v.init.key, self.accrope(s, v, v.init.data, k, explicit))
        if v.kind == 'string':
            if c[0] in ('acc', 'pre'): return self.accrope(s, v, v.init, k, explicit)
            if c[0] == 'sub':
                g = v.init[0]
                off, ln = self.subvals(v, c, g.off, g.ln, k)
                return norm([S(g.b, off, ln)])
            return self.seqrope(v, k, ('bv', 8))
        if v.kind == 'slice':
            if c[0] == 'sub':
                off, ln = self.subvals(v, c, v.init.off, v.init.ln, k)
                return Slice(v.init.ref, v.init.path, off, ln, v.init.nil, v.init.et)
            et = v.init.et if v.init.et is not None else eng.p.ti(v.t)['elem']
            if c[0] in ('acc', 'pre'):
                r = self.accrope(s, v, v.initrope, k, explicit)
                nil = band(v.init.nil, eq(rlen(r), 0)) if v.init.nil is not False else False
            else:
                r = self.seqrope(v, k, eng.p.elem_desc(et))
                nil = self.cur(v, k, 'nil', z3.BoolSort())
                s.assume(z3.Or(z3.Not(nil), zb(eq(rlen(r), 0))))
            return Slice(eng.alloc(s, r, 'L', ('elems', et)), (), 0, rlen(r), nil, et)
        if v.kind == 'rope': return self.tabrope(s, v, k, explicit)
        raise Unsupported('loop value')
    def subvals(self, v, c, off0, ln0, k):
        if c[1] == 'one':
            cu = self.intval(c[2], 0, k, W, v.nm + 'cur')
            return add(off0, cu), sub(ln0, cu)
        return self.intval(c[2], off0, k, W, v.nm + 'off'), self.intval(c[3], ln0, k, W, v.nm + 'ln')
    def seqrope(self, v, k, et):
        ln = self.cur(v, k, 'seqlen')
        return (S(Base(v.nm + 'seq', tuple(self.st.ctx) + (bv(k, W),), ln, et), 0, ln),)
    def accrope(self, s, v, init, k, explicit):
        r = self.accrope_(s, v, init, k, explicit)
        for g in r:
            if isinstance(g, C) and g.clen is None and isz(g.ln): s.assume(z3.ULT(g.ln, 1 << 40))
        return r
    def accrope_(self, s, v, init, k, explicit):
        if explicit and v.X is not None:
            if not isz(k) and k == 0: return init
            j = z3.BitVec('j!%d' % self.eng.fid(), W)
            if v.cls[0] == 'acc':
                cs = [(tsub(c, [(self.k, j)]), rsub(r, [(self.k, j)])) for c, r in v.X]
                return cat(init, self.cseg(j, k, cs))
            t = simp(bv(k, W) - 1 - j)
            cs = [(tsub(c, [(self.k, t)]), rsub(r, [(self.k, t)])) for c, r in v.X]
            return cat(self.cseg(j, k, cs), init)
        if v.clen is not None: ln = mul(v.clen, k)
        else:
            ln = self.cur(v, k, 'acclen'); s.assume(z3.ULT(ln, 1 << 40))
        et = ('bv', 8) if v.kind in ('string', 'hash') else self.eng.p.elem_desc(v.init.et if v.init.et is not None else self.eng.p.ti(v.t)['elem'])
        b = Base(v.nm + 'acc', tuple(self.st.ctx) + (bv(k, W),), ln, et)
        sg = S(b, 0, ln)
        # keep the accumulated part recognisable: no normalisation across it
        return tuple(init) + (sg,) if v.cls[0] == 'acc' else (sg,) + tuple(init)
    def cseg(self, j, k, cs):
        if all(not r for c, r in cs): return ()
        # constant unit body -> repetition
        if len(cs) == 1:
            r = cs[0][1]
            if len(r) == 1 and isinstance(r[0], U) and len(r[0].v) == 1 and not isz(r[0].v[0]) and isinstance(r[0].v[0], int):
                return (R(r[0].v[0], k),)
            if len(r) == 1 and isinstance(r[0], R) and isinstance(r[0].v, int):
                ln = r[0].ln
                if not isz(ln): return (R(r[0].v, mul(ln, k)),)
            if len(r) == 1 and isinstance(r[0], U) and len(r[0].v) == 1 and isz(r[0].v[0]):
                # element j of a base in order
                x = r[0].v[0]
                if z3.is_app(x) and x.decl().name().endswith('@'):
                    a = [x.arg(q) for q in range(x.num_args())]
                    d = sub(a[-1], j)
                    if not mentions((d, a[:-1]), {j.decl().name()}):
                        pass
        return (mkC(j, k, cs),)
    def tabrope(self, s, v, k, explicit):
        eng = self.eng
        if v.cls[0] == 'fh': return self.fhrope(s, v, k)
        if v.cls[1] is None: return self.placeholder(s, v)
        # v.cls = ('tab', runs) runs: list of (p0, stride, width) sorted by position; v.X per run
        _, runs = v.cls
        init = v.init
        L = rlen(init)
        pos = 0; out = []
        for q, (p0, sd, w) in enumerate(runs):
            if sd == w: lo, hi = p0, add(p0, mul(w, k))
            else: lo, hi = sub(add(p0, w), mul(w, k)), add(p0, w)
            if not eng.must(s, band(ule(pos, lo), ule(lo, hi), ule(hi, L))): raise Unsupported('overlapping array writes in loop')
            out.extend(eng.rope_slice(s, init, pos, lo))
            n = mul(w, k)
            if explicit and v.X is not None:
                j = z3.BitVec('j!%d' % eng.fid(), W)
                t = j if sd == w else simp(bv(k, W) - 1 - j)
                cs = [(tsub(c, [(self.k, t)]), rsub(r[q], [(self.k, t)])) for c, r in v.X]
                out.extend(self.cseg(j, k, cs))
            else:
                et = v.t[1] if isinstance(v.t, tuple) else eng.p.ti(v.t)['elem']
                out.append(S(Base(v.nm + 'tab%d' % q, tuple(self.st.ctx) + (bv(k, W),), n, eng.p.elem_desc(et)), 0, n))
            pos = hi
        out.extend(eng.rope_slice(s, init, pos, L))
        return tuple(g for g in out if seg_nonempty(g)) if not explicit else norm(out)
    # ---------------------------------------------------------- build a state at the loop header
    def build(self, k, mode):
        """mode: 'ph' | 'opaque' | 'explicit'"""
        eng = self.eng
        s = self.st.clone()
        if mode == 'ph' or (isz(k) and k.eq(self.k)):
            s.ctx = tuple(self.st.ctx) + (self.k,)
            if mode != 'ph' and self.N is not None: s.assume(ult(self.k, self.N))
        if mode == 'explicit' and self.fam:
            h = dict(s.heap); h.update(self.fam); s.heap = h
        f = s.frames[-1]
        newv = {}
        for key, v in self.svs.items():
            newv[key] = self.placeholder(s, v) if mode == 'ph' else self.at(s, v, k, mode == 'explicit')
        regs = {}
        for ins in f.fn.blocks[self.loop.header]['ins']:
            if ins['op'] != 'phi': break
            x = self.vals[ins['r']]
            for pa, tt in flat(eng, ins['t']): x = setl(x, pa, newv[('p', ins['r']) + pa])
            regs[ins['r']] = x
        f.regs.update(regs)
        h = None
        for oid in self.objs:
            h = h or dict(s.heap)
            formals, c, upd = self.objinit(oid)
            for key, v in self.svs.items():
                if key[0] == 'h' and key[1] == oid: c = hset(eng, s, c, key[2:], newv[key])
            h[oid] = (formals, c, upd)
        if h is not None:
            hh = dict(s.heap); hh.update({o: h[o] for o in self.objs}); s.heap = hh
        f.blk = self.loop.header
        n = 0
        while f.fn.blocks[f.blk]['ins'][n]['op'] == 'phi': n += 1
        f.ip = n
        f.cnt = dict(f.cnt)
        return s, newv
    def objinit(self, oid):
        e = self.st.heap.get(oid)
        if e is not None: return e
        c = self.eng.lazy[oid](self.st, ())
        return ((), c, ())
    def run(self, s, silent):
        eng = self.eng
        if silent: eng.silent += 1
        try: r = eng.run(s, (self.depth, self.loop))
        finally:
            if silent: eng.silent -= 1
        return [x for kd, x in r if kd == 'cont'], [x for kd, x in r if kd == 'exit']
    def newval(self, s, key):
        if key[0] == 'p': return getl(s.newphis[key[1]], key[2:])
        formals, c, upd = s.heap[key[1]]
        return hget(self.eng, s, c, key[2:])
    # ---------------------------------------------------------- detect heap writes
    def find_mods(self, base, conts):
        """objects modified by the body that existed before; returns True when new ones were found"""
        eng = self.eng; new = False
        for s in conts:
            for oid, e in s.heap.items():
                b = base.heap.get(oid)
                if b is e: continue
                pre = self.st.heap.get(oid)
                if pre is None:
                    if oid in eng.lazy:
                        if e[0] != () or e[1] is None or e[2]: raise Unsupported('loop modifies family object ' + oid)
                        pre = ((), eng.lazy[oid](self.st, ()), ())
                    elif b is None: continue      # allocated in the body
                    else:
                        if oid.endswith('ph') or oid.startswith('L!'): raise Unsupported('write into an accumulated sequence')
                        continue
                if e[2] or pre[2] or not same(e[0], pre[0]):
                    raise Unsupported('loop modifies family object ' + oid)
                t = eng.otypes.get(oid)
                if t is None: raise Unsupported('untyped object modified in loop: ' + oid)
                bc = b[1] if b is not None else pre[1]
                if isinstance(bc, (Iter, HashC, BigC, MapC)): leaves = [((), t)]
                elif t[0] == 'elems': leaves = [((), t)]
                else: leaves = list(flat(eng, t[1]))
                for pa, tt in leaves:
                    key = ('h', oid) + pa
                    if key in self.svs: continue
                    if key in self.split:
                        p = self.split[key]
                        x, y = getl(e[1], pa), getl(bc, pa)
                        for lo, hi in ((0, p), (add(p, 1), rlen(y))):
                            if not same(eng.rope_slice(s, x, lo, hi), eng.rope_slice(s, y, lo, hi)): raise Unsupported('scattered array writes in loop')
                        continue
                    if not same(getl(e[1], pa), getl(bc, pa)):
                        self.objs[oid] = t
                        self.addsv(key, tt, getl(pre[1], pa)); new = True
        return new
    # ---------------------------------------------------------- classification (pass 1)
    def classify(self, base, ph, conts):
        eng = self.eng
        for key, v in self.svs.items():
            nvs = [(s, self.newval(s, key)) for s in conts]
            o = ph[key]
            if all(same(n, o) for s, n in nvs): v.cls = ('inv',); continue
            if v.kind == 'fix':
                for s, n in nvs:
                    if same(n, v.init): continue
                    r = (False,)
                    if type(n) == type(v.init) and isinstance(n, Iface) and n.nil is True and v.init.nil is True: continue
                    if key[0] == 'h' and isinstance(n, Ptr): v.cls = ('stale',); break
                    raise Unsupported('loop variable %s changes (%r)' % (key, n))
                else: v.cls = ('inv',)
                continue
            if v.kind == 'int':
                w = eng.p.intinfo(v.t)[0]
                v.cls = self.intcls([sub(n, o, w) for s, n in nvs], w); continue
            if v.kind == 'iter':
                v.cls = self.intcls([sub(n.pos, o.pos) for s, n in nvs], W); continue
            if v.kind in ('bool', 'big'): v.cls = ('cur',); continue
            if v.kind in ('string', 'hash'):
                rr = [n if v.kind == 'string' else n.data for s, n in nvs]
                oo = o if v.kind == 'string' else o.data
                v.cls = self.seqcls(rr, oo)
                if v.cls[0] == 'sub':
                    if v.kind == 'hash' or len(v.init) != 1 or not isinstance(v.init[0], S): v.cls = ('seq',)
                    else:
                        v.cls = self.subcls([(s, r[0].off if r else 0, r[0].ln if r else 0) for (s, n), r in zip(nvs, rr)], 0, oo[0].ln)
                if v.kind == 'hash' and v.cls[0] not in ('acc',): raise Unsupported('hash state in loop')
                v.clen = None
                continue
            if v.kind == 'slice':
                v.clen = None
                if all(isinstance(n, Slice) and n.ref is not None and n.ref.id == o.ref.id and not n.path for s, n in nvs):
                    if v.init.ref is None: v.cls = ('inv',); continue
                    v.cls = self.subcls([(s, n.off, n.ln) for s, n in nvs], 0, o.ln); continue
                rr = [eng.slice_rope(s, n) for s, n in nvs]
                oo = eng.slice_rope(base, o)
                v.cls = self.seqcls(rr, oo)
                if v.cls[0] == 'sub': v.cls = ('seq',)
                if v.cls[0] in ('acc', 'pre'): v.initrope = eng.slice_rope(self.st, v.init)
                continue
            if v.kind == 'rope':
                v.cls = ('tab', None); continue
            raise Unsupported('classify')
    def intcls(self, ds, w):
        d0 = ds[0]
        if all(not isz(d) for d in ds) and all(d == d0 for d in ds):
            return ('inv',) if d0 == 0 else ('cnt', d0)
        return ('cur',)
    def seqcls(self, rr, oo):
        b = oo[0].b.name
        def full(g): return isinstance(g, S) and g.b.name == b and same(g.off, 0) and same(g.ln, oo[0].ln)
        def clean(gs): return not mentions(tuple(gs), {b})
        if all(r and full(r[0]) for r in rr): return ('acc',)
        if all(r and full(r[-1]) for r in rr): return ('pre',)
        if all(len(r) == 0 or (len(r) == 1 and isinstance(r[0], S) and r[0].b.name == b) for r in rr): return ('sub',)
        return ('seq',)
    def subcls(self, nvs, off, ln):
        offs = [sub(o, off) for s, o, l in nvs]; lns = [sub(l, ln) for s, o, l in nvs]
        if all(not isz(add(a, b)) and add(a, b) == 0 for a, b in zip(offs, lns)):
            return ('sub', 'one', self.intcls(offs, W))
        return ('sub', 'two', self.intcls(offs, W), self.intcls(lns, W))
    # ---------------------------------------------------------- scalar components for Houdini / facts
    def scalars(self):
        """[(name, init, fn_at(k), fn_new(s), width)] of cursor-class scalars"""
        out = []
        eng = self.eng
        for key, v in self.svs.items():
            c = v.cls
            if c is None: continue
            if v.kind == 'int' and c[0] == 'cur':
                w = eng.p.intinfo(v.t)[0]
                out.append((v.nm + 'cur', v.init, z3.BitVecSort(w), lambda s, key=key: self.newval(s, key), v))
            elif v.kind == 'bool' and c[0] == 'cur':
                out.append((v.nm + 'cur', v.init, z3.BoolSort(), lambda s, key=key: self.newval(s, key), v))
            elif v.kind == 'big' and c[0] == 'cur':
                out.append((v.nm + 'cur', eng.bigterm(v.init), z3.BitVecSort(eng.BW), lambda s, key=key: eng.bigterm(self.newval(s, key)), v))
            elif v.kind == 'iter' and c[0] == 'cur':
                out.append((v.nm + 'cur', v.init.pos, z3.BitVecSort(W), lambda s, key=key: self.newval(s, key).pos, v))
            elif c[0] == 'sub':
                if v.kind == 'slice': o0, l0 = v.init.off, v.init.ln
                else: o0, l0 = v.init[0].off, v.init[0].ln
                def no(s, key=key, v=v):
                    n = self.newval(s, key)
                    if v.kind == 'slice': return n.off
                    return n[0].off if n else v.init[0].off
                def nl(s, key=key, v=v):
                    n = self.newval(s, key)
                    if v.kind == 'slice': return n.ln
                    return rlen(n)
                if c[1] == 'one':
                    if c[2][0] == 'cur': out.append((v.nm + 'cur', 0, z3.BitVecSort(W), lambda s, nl=nl, l0=l0: sub(l0, nl(s)), v))
                else:
                    if c[2][0] == 'cur': out.append((v.nm + 'off', o0, z3.BitVecSort(W), no, v))
                    if c[3][0] == 'cur': out.append((v.nm + 'ln', l0, z3.BitVecSort(W), nl, v))
            elif c[0] == 'seq':
                def sl(s, key=key, v=v):
                    n = self.newval(s, key)
                    return n.ln if v.kind == 'slice' else rlen(n)
                out.append((v.nm + 'seqlen', v.init.ln if v.kind == 'slice' else rlen(v.init), z3.BitVecSort(W), sl, v))
        return out
    def sc_at(self, sc, k): return uf(sc[0], tuple(self.st.ctx) + (bv(k, W),), sc[2])
    def candidates(self):
        eng = self.eng; st = self.st
        T = []
        def addT(t):
            if isz(t) and not any(isz(x) and x.eq(t) for x in T) and len(T) < 14: T.append(t)
        for r, v in self.fr.regs.items():
            if isinstance(v, Slice): addT(v.ln)
            elif isinstance(v, tuple) and v and isinstance(v[0], (U, S, R, C)): addT(rlen(v))
            elif isz(v) and z3.is_bv(v) and v.size() == W: addT(v)
        cs = []
        for sc in self.scalars():
            if sc[2] == z3.BoolSort() or sc[2].size() > W: continue
            w = sc[2].size(); init = sc[1]
            cand = [lambda x, w=w: sle(0, x, w), lambda x, init=init, w=w: sle(init, x, w), lambda x, init=init, w=w: sle(x, init, w)]
            if w == W:
                for t in T: cand.append(lambda x, t=t: sle(x, t))
                cand.append(lambda x: slt(x, 1 << 50))
                v = sc[4]
                if v.cls[0] == 'sub' and sc[0].endswith('cur'):
                    l0 = v.init.ln if v.kind == 'slice' else v.init[0].ln
                    cand.append(lambda x, l0=l0: ule(x, l0))
            for f in cand:
                if eng.must(st, f(init)): cs.append((sc, f))
        return cs
    # ---------------------------------------------------------- pass 2
    def pass2(self):
        eng = self.eng
        for v in self.svs.values():
            if not hasattr(v, 'clen'): v.clen = None
        cand = self.candidates()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise Unsupported('loop invariants do not stabilise')
            if self.N is None and not self.tried:
                self.tried = True
                self.solveN(cand)
            if self.N is not None and not isz(self.N) and self.N == 0:
                for v in self.svs.values(): v.cls = ('inv',); v.X = None
                self.cases = []; self.Q = []; self.fam = {}
                return True
            s, old = self.build(self.k, 'opaque')
            self.base_assume(s, self.k, cand)
            eng.add_index(s, self.k)
            n0 = len(s.pc); f0 = len(s.facts)
            if not eng.feasible(s): conts = []; base = s
            else:
                base = s.clone()
                conts, exits = self.run(s, True)
            if self.find_mods(base, conts): return False
            # Houdini
            bad = set()
            for x in conts:
                for q, (sc, f) in enumerate(cand):
                    if q in bad: continue
                    if not eng.must(x, f(sc[3](x))): bad.add(q)
            if bad:
                cand = [c for q, c in enumerate(cand) if q not in bad]; continue
            # check classification and extract bodies
            r = self.extract(base, old, conts, n0, f0)
            if r == 'again': continue
            if self.N is None and self.solveN(cand): continue
            self.Q = cand
            return True
    def base_assume(self, s, k, cand):
        for sc in self.scalars():
            x0 = self.sc_at(sc, 0)
            s.assume(eq(x0, sc[1]))
        for sc, f in cand:
            s.assume(zb(f(self.sc_at(sc, k))))
    def extract(self, base, old, conts, n0, f0):
        eng = self.eng
        cases = []
        accn = set()
        for v in self.svs.values():
            if v.cls and v.cls[0] in ('acc', 'pre'): accn |= {v.nm + 'acc', v.nm + 'acclen'}
            if v.cls and v.cls[0] == 'tab': accn |= {v.nm + 'tab%d' % q for q in range(4)} | {v.nm + 'ph'}
        X = {key: [] for key in self.svs}
        fam = {}
        again = False
        for ci, s in enumerate(conts):
            ren = {oid: '%s~%d_%d' % (oid, ci, eng.fid()) for oid in s.heap if oid not in base.heap and oid not in eng.lazy}
            conds = []
            for c in s.pc[n0:]: conds.append(c)
            cond = band(*conds) if conds else True
            nf = s.facts[f0:]
            rel = []
            for key, v in self.svs.items():
                n = self.newval(s, key); o = old[key]; c = v.cls
                if c[0] == 'inv':
                    if not same(n, o):
                        ok = v.kind == 'fix' and (same(n, v.init) or (isinstance(n, Iface) and n.nil is True and v.init.nil is True))
                        if v.kind == 'int' and eng.must(s, eq(n, o)): ok = True
                        if not ok:
                            if v.kind == 'int': v.cls = ('cur',); again = True; continue
                            raise Unsupported('loop variable %s not invariant' % (key,))
                elif c[0] == 'cnt':
                    if v.kind == 'iter': n = n.pos; o = o.pos; w = W
                    else: w = eng.p.intinfo(v.t)[0]
                    if not eng.must(s, eq(n, add(o, c[1], w))): v.cls = ('cur',); again = True
                elif c[0] in ('acc', 'pre'):
                    if v.kind == 'slice': nr = eng.slice_rope(s, n); orp = eng.content(base, o.ref)
                    elif v.kind == 'hash': nr = n.data; orp = o.data
                    else: nr = n; orp = o
                    m = len(orp)
                    x = self.strip(nr, orp, c[0])
                    if x is None: raise Unsupported('accumulator %s changes shape' % (key,))
                    X[key].append((cond, rename(x, ren)))
                elif c[0] == 'tab':
                    pass
            for sc in self.scalars():
                rel.append(zb(eq(self.sc_at(sc, self.k + 1), sc[3](s))))
            cases.append((conds, rel, nf, s, ren))
            for oid, new in ren.items():
                fm, cc, up = s.heap[oid]
                if up: raise Unsupported('family with updates')
                fam[new] = (fm, rename(cc, ren) if cc is not None else None, ())
                eng.otypes[new] = eng.otypes.get(oid)
                if oid in eng.lazy: eng.lazy[new] = eng.lazy[oid]
        if again:
            self.N = None; self.tried = False
            return 'again'
        # tabulated arrays
        for key, v in self.svs.items():
            if v.cls[0] == 'tab':
                if v.cls[1] is None:
                    try: self.tab_runs(key, v, conts)
                    except Unsupported: v.cls = ('fh', frozenset())
                    return 'again'
                xs = self.tab_extract(key, v, conts, [band(*c[0]) if c[0] else True for c in cases], [c[4] for c in cases])
                X[key] = xs
        for key, v in self.svs.items():
            if v.cls[0] == 'fh' and self.fh_check(key, v, old[key], conts): return 'again'
        # constant growth known? give exact lengths and retry when lengths matter
        for key, v in self.svs.items():
            if v.cls[0] in ('acc', 'pre') and v.clen is None:
                ls = {(rlen(r) if not isz(rlen(r)) else None) for c, r in X[key]}
                if len(ls) == 1 and None not in ls:
                    v.clen = ls.pop(); again = True
        if again: return 'again'
        for key, v in self.svs.items():
            if v.cls[0] in ('acc', 'pre', 'tab'):
                if mentions([x for x in X[key]], accn): raise Unsupported('accumulator %s depends on accumulated data' % (key,))
        for conds, rel, nf, s, ren in cases:
            if mentions(conds, accn) or mentions(rel, accn):
                raise Unsupported('loop control depends on accumulated data')
        for key, v in self.svs.items(): v.X = X[key] if v.cls[0] in ('acc', 'pre', 'tab') else None
        self.cases = cases; self.fam = fam
        # flags that only ever fall (or only ever rise): their last value bounds every earlier one
        self.mono = []
        for sc in self.scalars():
            if sc[2] != z3.BoolSort(): continue
            o = self.sc_at(sc, self.k)
            for up in (False, True):
                if all(eng.must(c[3], z3.Implies(zb(o), zb(sc[3](c[3]))) if up else z3.Implies(zb(sc[3](c[3])), zb(o))) for c in cases):
                    self.mono.append((sc, up)); break
        return 'ok'
    def strip(self, nr, orp, how):
        m = len(orp)
        if how == 'acc':
            if len(nr) < m: return None
            for a, b in zip(nr[:m - 1], orp[:m - 1]):
                if not same(a, b): return None
            a, b = nr[m - 1], orp[m - 1]
            if same(a, b): return norm(nr[m:])
            return None
        if len(nr) < m: return None
        t = nr[len(nr) - m:]
        if all(same(a, b) for a, b in zip(t, orp)): return norm(nr[:len(nr) - m])
        return None
    # arrays of structures written at arbitrary positions: fields that the body never changes keep their value,
    # the others are unknown at every iteration
    def fh_et(self, v): return v.t[1] if isinstance(v.t, tuple) else self.eng.p.ti(v.t)['elem']
    def fhrope(self, s, v, k):
        eng = self.eng; et = self.fh_et(v); L = rlen(v.init)
        b = Base(v.nm + 'fh', tuple(self.st.ctx) + (bv(k, W),), L, eng.p.elem_desc(et))
        ch = v.cls[1]
        if ch is None: return (S(b, 0, L),)
        if not ch: return v.init
        j = z3.BitVec('j!%d' % eng.fid(), W)
        t = s.clone()
        n0 = len(t.pc)
        e0 = eng.rope_at(t, v.init, j); e1 = eng.base_at(t, b, j)
        return (mkC(j, L, [(True, units([Struct([y if i in ch else x for i, (x, y) in enumerate(zip(e0.f, e1.f))])]))]),)
    def fh_check(self, key, v, o, conts):
        eng = self.eng; et = self.fh_et(v)
        if v.cls[1] is None: return False
        if eng.p.kind(et) != 'struct' or eng.p.isbig(et):
            v.cls = ('fh', None); return True
        nf = len(eng.p.ti(et)['fields']); ch = set(v.cls[1])
        def proj(s, r, i):
            out = []
            for g in r:
                if isinstance(g, U): out.append(U([x.f[i] for x in g.v]))
                elif isinstance(g, R): out.append(R(g.v.f[i], g.ln))
                elif isinstance(g, C): out.append(mkC(g.var, g.n, [(c, proj(s, q, i)) for c, q in g.cases]))
                else:
                    j = z3.BitVec('j!%d' % eng.fid(), W)
                    out.append(mkC(j, g.ln, [(True, (U([eng.base_at(s.clone(), g.b, add(g.off, j)).f[i]]),))]))
            return norm(out)
        for i in range(nf):
            if i in ch: continue
            for s in conts:
                n = self.newval(s, key)
                if same(n, o): continue
                eng.silent += 1
                try: ok = eng.with_forks(s.clone(), lambda q: eng.prove_rope_eq(q, proj(q, n, i), proj(q, v.init, i)))[0]
                except Unsupported: ok = False
                finally: eng.silent -= 1
                if not ok: ch.add(i); break
        if ch != set(v.cls[1]):
            v.cls = ('fh', frozenset(ch) if len(ch) < nf else None); return True
        return False
    # arrays written at affine positions
    def tab_runs(self, key, v, conts):
        """discover write positions with placeholder content (counters real)"""
        eng = self.eng
        runs = None
        for x in conts:
            n = self.newval(x, key)
            rr = self.parse_runs(x, v, n)
            if not rr: continue
            if runs is None: runs = rr
            elif not (len(runs) == len(rr) and all(same(a, b) for a, b in zip(runs, rr))):
                raise Unsupported('array write positions differ between paths')
        res = []
        for p, w in runs or []:
            if isz(w): raise Unsupported('array write of varying width')
            p0 = tsub(p, [(self.k, z3.BitVecVal(0, W))]) if isz(p) else p
            p1 = tsub(p, [(self.k, z3.BitVecVal(1, W))]) if isz(p) else p
            sd = sub(p1, p0)
            if isz(sd): raise Unsupported('non-affine array write')
            chk = eq(p, add(p0, mul(sd, self.k)))
            if isz(chk):
                t = self.st.clone()
                if self.N is not None: t.assume(ult(self.k, self.N))
                chk = eng.must(t, chk)
            if not chk: raise Unsupported('non-affine array write')
            if sd == 0 and w == 1 and len(runs) == 1 and key[0] == 'h':
                et = v.t[1] if isinstance(v.t, tuple) else eng.p.ti(v.t)['elem']
                self.split[key] = p0
                del self.svs[key]
                el = eng.rope_at(self.st, v.init, p0)
                for pa, tt in flat(eng, et): self.addsv(key + (('@', p0),) + pa, tt, getl(el, pa))
                raise Restart()
            if sgn(sd, W) != w and sgn(sd, W) != -w: raise Unsupported('array write stride %s width %s' % (sgn(sd, W), w))
            res.append((p0, w if sgn(sd, W) == w else -w, w))
        v.cls = ('tab', res)
    def parse_runs(self, s, v, n):
        pos = 0; runs = []; cur = None
        nm = v.nm + 'ph'
        for g in n:
            ident = isinstance(g, S) and g.b.name == nm and self.eng.must(s, eq(g.off, pos))
            if not ident and isinstance(g, U):
                pass
            if ident:
                if cur: runs.append(cur); cur = None
            else:
                if cur: cur = (cur[0], add(cur[1], g.ln))
                else: cur = (pos, g.ln)
            pos = add(pos, g.ln)
        if cur: runs.append(cur)
        return runs
    def tab_extract(self, key, v, conts, conds, rens):
        eng = self.eng; out = []
        for s, cond, ren in zip(conts, conds, rens):
            n = self.newval(s, key)
            parts = []
            for (p0, sd, w) in v.cls[1]:
                p = add(p0, mul(mask(sd, W), self.k))
                parts.append(rename(eng.rope_slice(s, n, p, add(p, w)), ren))
            out.append((cond, parts))
        return out
    # ---------------------------------------------------------- trip count
    def solveN(self, cand):
        eng = self.eng
        blk = self.fr.fn.blocks[self.loop.header]
        last = blk['ins'][-1]
        if last['op'] != 'if': return False
        inside = [t in self.loop.body for t in blk['succs']]
        if inside[0] == inside[1]: return False
        def header(k):
            s, _ = self.build(k, 'opaque')
            self.base_assume(s, k, cand)
            f = s.frames[-1]
            cm = None
            eng.silent += 1
            try:
                while True:
                    ins = blk['ins'][f.ip]
                    if ins is last: break
                    if ins['op'] == 'call' and not (isinstance(ins.get('fn'), dict) and 'b' in ins['fn']): return None
                    if ins['op'] in ('store',): return None
                    nfr = len(s.frames)
                    eng.step(s, f, blk, ins, None, [])
                    if ins.get('r') == last['x']: cm = ins
            except Fork: return None
            finally: eng.silent -= 1
            c = eng.val(s, f, last['x'])
            if not inside[0]: c = bnot(c)
            return s, f, cm, c
        h = header(self.k)
        if h is None: return False
        s, f, cm, c = h
        if cm is None or cm['op'] != 'binop' or eng.p.kind(cm['xt']) != 'int': 
            if cm is not None and cm['op'] == 'extract': return self.solve_iter(cand)
            return False
        o = cm['bop']
        if not inside[0]: o = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[o]
        w, sg = eng.p.intinfo(cm['xt'])
        if o == '==': return False
        x = eng.val(s, f, cm['x']); y = eng.val(s, f, cm['y'])
        D = sub(y, x, w) if o in ('<', '<=', '!=') else sub(x, y, w)
        z = lambda q: tsub(D, [(self.k, z3.BitVecVal(q, W))])
        D0, D1 = z(0), z(1)
        sd = sub(D0, D1, w)
        if isz(sd): return False
        sd = sgn(sd, w)
        if sd <= 0: return False
        lin = eq(D, sub(D0, mul(sd, self.trunc(self.k, w), w), w), w)
        if isz(lin) and not eng.must(self.st, lin) or (not isz(lin) and not lin): return False
        if o in ('<=', '>='): D0 = add(D0, 1, w)
        pos = slt(0, D0, w) if sg or o == '!=' else None
        if pos is None:
            # unsigned comparison
            x0 = tsub(x, [(self.k, z3.BitVecVal(0, W))]) if isz(x) else x
            y0 = tsub(y, [(self.k, z3.BitVecVal(0, W))]) if isz(y) else y
            pos = ult(x0, y0, w) if o in ('<', '<=') else ult(y0, x0, w)
            if o in ('<=', '>='): pos = ule(x0, y0, w) if o == '<=' else ule(y0, x0, w)
        if isz(pos):
            if not eng.must(self.st, pos):
                if eng.must(self.st, bnot(pos)): pos = False
                elif eng.must(self.st, eq(D0, 0)) : pos = False
                else:
                    # allow D0 == 0 to be folded into the closed form
                    if eng.must(self.st, sle(0, D0, w)): pos = True
                    else: raise Fork(pos)
            else: pos = True
        if not pos: N = 0
        else:
            d = D0 if w == W else (D0 if not isz(D0) else simp(z3.ZeroExt(W - w, D0)))
            if sd == 1: N = d
            else:
                if o == '!=': return False
                N = simp(z3.UDiv(bv(add(d, sd - 1), W), z3.BitVecVal(sd, W)))
        # validate
        t = self.st.clone()
        self.base_assume(t, self.k, cand)
        t.assume(zb(ult(self.k, N))) if isz(N) or N else None
        if not (not isz(N) and N == 0):
            if not eng.must(t, c): return False
        h2 = header(N)
        if h2 is None: return False
        if not eng.must(h2[0], bnot(h2[3])): return False
        self.N = N
        return True
    def solve_iter(self, cand):
        # string iteration: one element per step
        for key, v in self.svs.items():
            if v.kind == 'iter' and v.cls == ('cnt', 1) and not isz(v.init.pos) and v.init.pos == 0:
                self.N = rlen(v.init.rope)
                return True
        return False
    # ---------------------------------------------------------- facts about completed iterations
    def fact(self, n):
        from ex import Fact
        if not self.cases:
            return None
        j = z3.BitVec('f!%d' % self.eng.fid(), W)
        s = [(self.k, j)]
        cs = []
        for conds, rel, nf, x, ren in self.cases:
            ts = [tsub(c, s) for c in conds] + [tsub(r, s) for r in rel]
            for sc, f in self.Q:
                ts.append(tsub(zb(f(self.sc_at(sc, self.k))), s)); ts.append(tsub(zb(f(self.sc_at(sc, self.k + 1))), s))
            for sc, up in self.mono:
                a, b = self.sc_at(sc, bv(n, W)), tsub(self.sc_at(sc, self.k + 1), s)
                ts.append(z3.Implies(b, a) if up else z3.Implies(a, b))
            cs.append((ts, [q.sub(s) for q in nf]))
        return Fact(j, n, cs)
    def install(self, s, n):
        """assume what is known after n completed iterations"""
        eng = self.eng
        self.base_assume(s, n, self.Q)
        if not self.cases:
            s.assume(eq(n, 0)); return
        f = self.fact(n)
        if any(len(c[0]) or c[1] for c in f.cases):
            eng.add_fact(s, f)
            if not eng.summ: pass
            elif isz(n): eng.add_index(s, simp(n - 1))
            elif n > 0: eng.add_index(s, n - 1)     # the last completed iteration

def summarise(eng, st, loop, vals, stop, out):
    n0 = eng.nfresh
    try: return summarise_(eng, st, loop, vals, stop, out)
    except Fork as f:
        acc = set(); names_in(f.cond, acc, {})
        for a in acc:
            if '!' in a and a.split('!')[1].split('@')[0].split('.')[0].isdigit() and int(a.split('!')[1].split('@')[0].split('.')[0]) > n0 and a[0] in 'kj':
                raise Unsupported('case split on a loop-internal quantity: %s' % str(f.cond)[:200])
        raise

def summarise_(eng, st, loop, vals, stop, out):
    key = (st.frames[-1].fn.name, loop.header)
    eng.summarised.add(key)
    L = Summ(eng, st, loop, vals)
    for rounds in range(8):
        # pass 1: shapes
        for rr in range(8):
            s, ph = L.build(L.k, 'ph')
            eng.add_index(s, L.k)
            base = s.clone()
            conts, exits = L.run(s, True)
            if not L.find_mods(base, conts): break
        else: raise Unsupported('modified set does not stabilise')
        for v in L.svs.values(): v.cls = None
        L.classify(base, ph, conts)
        L.N = None; L.tried = False
        try:
            if L.pass2(): break
        except Restart: pass
    else: raise Unsupported('loop analysis does not stabilise')
    res = []
    # iteration k: exits from the body
    from ex import PathEnd
    exits = []
    try:
        if L.N is not None and not isz(L.N) and L.N == 0: raise PathEnd()
        s, _ = L.build(L.k, 'explicit')
        s.ctx = tuple(st.ctx) + (L.k,)
        L.install(s, L.k)
        eng.add_index(s, L.k)
        if eng.feasible(s): conts, exits = L.run(s, False)
    except PathEnd: pass
    for x in exits: res.append(x)
    # normal termination
    if L.N is not None:
        s, _ = L.build(L.N, 'explicit')
        s.ctx = st.ctx
        L.install(s, L.N)
        if eng.feasible(s):
            conts, exits = L.run(s, False)
            if conts: raise Unsupported('loop exit condition')
            res.extend(exits)
    more = []
    for x in res:
        x.ctx = st.ctx
        f = x.frames[-1]
        if f.ip == -1:
            tgt = f.blk; f.blk = f.prev
            r = eng.jump(x, f, tgt, stop, out)
            if r is None: more.append(x)
            else: more.extend(r)
        else: more.append(x)
    return more

def unroll_merge(eng, st, loop, vals, stop, out):
    """runs a loop of concrete trip count iteration by iteration, joining the paths of one iteration at the header"""
    depth = len(st.frames) - 1
    fr = st.frames[-1]
    hdr = fr.fn.blocks[loop.header]
    n = 0
    while n < len(hdr['ins']) and hdr['ins'][n]['op'] == 'phi': n += 1
    base = dict(fr.regs)
    ctx = st.ctx
    def place(s, v):
        f = s.frames[-1]
        f.regs = dict(base); f.regs.update(v)
        f.prev = None; f.blk = loop.header; f.ip = n
        return s
    cur = [place(st, vals)]; res = []
    for it in range(1100):
        conts = []
        for s in cur:
            for kind, x in eng.run(s, (depth, loop)):
                if kind == 'cont': conts.append(x)
                elif kind == 'exit': res.append(x)
                else: raise Unsupported('loop iteration ended the lemma')
        if not conts: break
        cur = []
        for x in conts:
            v = x.newphis; x.newphis = None
            for m in cur:
                if join(eng, m, x, v): break
            else: cur.append([x, v])
        cur = [place(x, v) for x, v in cur]
    else: raise LoopLimitHere()
    more = []
    for x in res:
        x.ctx = ctx
        f = x.frames[-1]
        if f.ip == -1:
            tgt = f.blk; f.blk = f.prev
            r = eng.jump(x, f, tgt, stop, out)
            if r is None: more.append(x)
            else: more.extend(r)
        else: more.append(x)
    return more

class LoopLimitHere(Unsupported): pass

def join(eng, m, y, w):
    """joins state y (header values w) into m = [state, header values]; False if they differ in more than scalars"""
    x, v = m
    if len(x.frames) != len(y.frames) or x.facts != y.facts: return False
    if x.heap is not y.heap:
        if set(x.heap) != set(y.heap) or any(x.heap[k] is not y.heap[k] for k in x.heap): return False
    for r in v:
        a, b = v[r], w[r]
        if a is b: continue
        if not (isinstance(a, (bool, int)) or isz(a)) or not (isinstance(b, (bool, int)) or isz(b)): return False
    n = 0
    while n < len(x.pc) and n < len(y.pc) and x.pc[n].eq(y.pc[n]): n += 1
    cx = simp(z3.And(*x.pc[n:])); cy = simp(z3.And(*y.pc[n:]))
    nv = {}
    for r in v:
        a, b = v[r], w[r]
        if a is b or (not isz(a) and not isz(b) and type(a) == type(b) and a == b): nv[r] = a; continue
        if isinstance(a, bool) or isinstance(b, bool) or isz(a) and z3.is_bool(a): nv[r] = simp(z3.If(zb(cy), zb(b), zb(a)))
        elif isz(a) or isz(b): nv[r] = ite(cy, b, a)
        else:
            wd = [eng.p.intinfo(i['t'])[0] for i in y.frames[-1].fn.blocks[y.frames[-1].blk]['ins'] if i.get('r') == r]
            return False
    pc = x.pc[:n]
    x.pc = []; x.known = {}
    for c in pc: x.assume(c)
    o = simp(z3.Or(zb(cx), zb(cy)))
    if isz(o): x.assume(o)
    m[1] = nv
    return True
