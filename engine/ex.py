"""Symbolic execution of go/ssa with loop summarisation; discharges obligations with z3."""
import z3, time, sys
from val import *
from ir import *

MAXLEN = 1 << 40

class PathEnd(Exception):
    pass

class Fact:
    __slots__ = ('var', 'n', 'cases', 'guard')
    # for all var < n: guard -> OR_c (AND terms_c) ; nested facts guarded by their case
    def __init__(self, var, n, cases, guard=True):
        self.var = var; self.n = n; self.cases = cases; self.guard = guard
    def sub(self, s):
        return Fact(self.var, tsub(self.n, s), [([tsub(t, s) for t in ts], [f.sub(s) for f in nf]) for ts, nf in self.cases], tsub(self.guard, s))

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'ret', 'cnt', 'lemma')
    def clone(self):
        f = Frame(); f.fn = self.fn; f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.regs = dict(self.regs); f.ret = self.ret; f.cnt = dict(self.cnt); f.lemma = self.lemma
        return f

class State:
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.heap = self.heap; s.pc = list(self.pc); s.known = dict(self.known); s.facts = list(self.facts); s.idx = list(self.idx)
        s.ctx = self.ctx; s.apps = dict(self.apps); s.newphis = None; s.res = None; s.tr = list(self.tr)
        return s
    def assume(self, c):
        if not isz(c):
            if not c: raise PathEnd()
            return
        if z3.is_and(c):
            for i in range(c.num_args()): self.assume(c.arg(i))
            return
        i = c.get_id()
        k = self.known.get(i)
        if k is not None:
            if not k[0]: raise PathEnd()
            return
        self.pc.append(c)
        self.known[i] = (True, c)
        if z3.is_not(c):
            a = c.arg(0); self.known[a.get_id()] = (False, a)
        else:
            n = z3.Not(c); self.known[n.get_id()] = (False, n)

class Solver:
    def __init__(self, timeout=8000):
        self.s = z3.Solver(); self.s.set('timeout', timeout)
        self.timeout = timeout
        self.stk = []; self.time = 0.0; self.n = 0; self.unknowns = 0
    def sync(self, pc):
        n = 0
        st = self.stk
        m = min(len(st), len(pc))
        while n < m and (st[n] is pc[n] or st[n].eq(pc[n])): n += 1
        if len(st) > n:
            self.s.pop(len(st) - n); del st[n:]
        for c in pc[n:]:
            self.s.push(); self.s.add(c); st.append(c)
    def check(self, pc, c):
        """sat/unsat/unknown of pc and c"""
        t = time.time()
        self.sync(pc)
        self.s.push(); self.s.add(c)
        r = self.s.check()
        self.n += 1
        if r == z3.unknown:
            self.unknowns += 1
            s2 = z3.SolverFor('QF_AUFBV'); s2.set('timeout', self.timeout * 3)
            s2.add(*pc); s2.add(c)
            r = s2.check()
            self.model = s2.model() if r == z3.sat else None
        elif r == z3.sat:
            self.model = self.s.model()
        self.s.pop()
        self.time += time.time() - t
        return r

class LoopLimit(Exception):
    def __init__(self, key): self.key = key

class Failure:
    def __init__(self, kind, pos, msg, fn, lemma, model=None, inputs=None):
        self.kind = kind; self.pos = pos; self.msg = msg; self.fn = fn; self.lemma = lemma; self.model = model; self.inputs = inputs

class Engine:
    def __init__(self, prog, intrinsics, contracts=None, repo='/repo', timeout=8000, maxpaths=4000):
        self.p = prog
        self.intr = intrinsics
        self.contracts = contracts or {}
        self.sv = Solver(timeout)
        self.lazy = {}
        self.atoms = {}
        self.nfresh = 0
        self.silent = 0
        self.obl = {}          # (kind,pos) -> count
        self.fails = []
        self.force = set(); self.summ = set()
        self.maxpaths = maxpaths
        self.bounded = []
        self.repo = repo
        self.curlemma = None
        self.inputs = []
        self.used = set()
        self.assumed = set()
        self.paths = 0
        self.steps = 0
        self.deadline = None
        self.inithook = None
        self.otypes = {}
        self.summarised = set()
        self.lin = None; self.merged = None; self.tabs = {}; self.tabof = {}
    # ------------------------------------------------------------ fresh
    def fid(self):
        self.nfresh += 1
        return self.nfresh
    def fresh_bv(self, st, w, tag='v'):
        return uf('%s!%d' % (tag, self.fid()), st.ctx, z3.BitVecSort(w))
    def fresh_bool(self, st, tag='b'):
        return uf('%s!%d' % (tag, self.fid()), st.ctx, z3.BoolSort())
    def fresh_base(self, st, et, ln, tag='s'):
        return Base('%s!%d' % (tag, self.fid()), st.ctx, ln, et)
    # ------------------------------------------------------------ decisions
    def must(self, st, c):
        """is c implied by the path condition? (no fork)"""
        c = simp(c)
        if not isz(c): return bool(c)
        k = st.known.get(c.get_id())
        if k is not None: return k[0]
        r = self.sv.check(st.pc, z3.Not(c))
        if r == z3.unsat:
            st.known[c.get_id()] = (True, c)
            return True
        return False
    def feasible(self, st, c=True):
        c = simp(c)
        if not isz(c) and not c: return False
        if isz(c):
            k = st.known.get(c.get_id())
            if k is not None and k[0] is False: return False
        return self.sv.check(st.pc, zb(c)) != z3.unsat
    def decide(self, st, c):
        c = simp(c)
        if not isz(c): return bool(c)
        k = st.known.get(c.get_id())
        if k is not None: return k[0]
        r = self.sv.check(st.pc, z3.Not(c))
        if r == z3.unsat:
            st.known[c.get_id()] = (True, c); return True
        r = self.sv.check(st.pc, c)
        if r == z3.unsat:
            st.known[c.get_id()] = (False, c); return False
        raise Fork(c)
    def const_of(self, st, t, limit=1 << 20):
        """constant value of t under the path condition, or None"""
        t = simp(t)
        if not isz(t): return t
        r = self.sv.check(st.pc, z3.BoolVal(True))
        if r != z3.sat: return None
        v = self.sv.model.eval(t, model_completion=True).as_long()
        if self.must(st, eq(t, v)): return v
        return None
    def check(self, st, c, kind, ins=None, msg='', pos=None):
        c = simp(c)
        if self.silent:
            if isz(c):
                st.assume(c)
                if not self.feasible(st): raise PathEnd()
            elif not c: raise PathEnd()
            return
        fr = st.frames[-1]
        pos = pos or (ins or {}).get('pos') or fr.fn.pos
        key = (kind, self.rel(pos), fr.fn.name)
        o = self.obl.setdefault(key, [0, 0])
        o[0] += 1
        if not isz(c) and c: return
        if isz(c):
            k = st.known.get(c.get_id())
            if k is not None and k[0]: return
            r = self.sv.check(st.pc, z3.Not(c))
            if r == z3.unsat:
                st.known[c.get_id()] = (True, c); return
        else:
            r = self.sv.check(st.pc, z3.BoolVal(True))
            if r == z3.unsat: raise PathEnd()
        o[1] += 1
        self.fail(st, kind, pos, msg or str(kind), self.sv.model if r == z3.sat else None, 'unknown' if r == z3.unknown else 'sat', bnot(c))
        if not isz(c): raise PathEnd()
        st.assume(c)
        if not self.feasible(st): raise PathEnd()
    def small_lens(self, v, out):
        if isinstance(v, Slice):
            if isz(v.ln): out.append(v.ln)
        elif isinstance(v, tuple):
            n = rlen(v) if v and isinstance(v[0], (U, S, R, C)) else 0
            if isz(n): out.append(n)
        elif isinstance(v, Struct):
            for x in v.f: self.small_lens(x, out)
    def fail(self, st, kind, pos, msg, model, verdict, neg=None):
        fr = st.frames[-1]
        f = Failure(kind, self.rel(pos), msg, fr.fn.name, self.curlemma, None, None)
        f.verdict = verdict
        f.stack = [x.fn.name for x in st.frames]
        if len(self.fails) > 30: model = None
        if model is not None and neg is not None:
            small = []
            for n, t, v in self.inputs: self.small_lens(v, small)
            if small:
                for bound in (40, 100):
                    if self.sv.check(st.pc + [zb(neg)], z3.And(*[z3.ULT(x, bound) for x in small])) == z3.sat:
                        model = self.sv.model; break
        if model is not None:
            try: f.inputs = [(n, self.concretise(st, model, t, v)) for n, t, v in self.inputs]
            except Exception as e: f.inputs = None; f.msg += ' (model not concretised: %r)' % (e,)
        self.fails.append(f)
    def rel(self, pos):
        if pos and pos.startswith(self.repo + '/'): return pos[len(self.repo) + 1:]
        return pos
    # ------------------------------------------------------------ model -> concrete json
    def mev(self, model, t):
        t = simp(t)
        if not isz(t): return t
        v = model.eval(t, model_completion=True)
        if z3.is_bv_value(v): return v.as_long()
        return z3.is_true(v)
    def concretise(self, st, model, t, v, depth=0):
        p = self.p; k = p.kind(t)
        if k == 'int':
            x = self.mev(model, v)
            w, s = p.intinfo(t)
            return sgn(x, w) if s else x
        if k == 'bool': return bool(self.mev(model, v))
        if k == 'string': return {'hex': self.conc_rope(st, model, v)}
        if k == 'struct':
            return {f['name']: self.concretise(st, model, f['t'], x, depth + 1) for f, x in zip(p.ti(t)['fields'], v.f)}
        if k == 'slice':
            if self.mev(model, v.nil): return None
            n = min(self.mev(model, v.ln), 4096)
            et = p.ti(t)['elem']
            c0 = self.init_content(st, v.ref)
            if p.intinfo(et) and p.intinfo(et)[0] == 8:
                m = self.conc_take(n, depth)
                return {'hex': bytes(self.mev(model, self.rope_at_nf(c0, i, model)) for i in range(m)).hex() + '00' * (n - m)}
            n = min(n, 40)
            out = []
            for i in range(n):
                e = self.rope_at_nf(c0, i, model, st)
                out.append(self.concretise(st, model, et, e, depth + 1))
            return out
        if k == 'ptr':
            if self.mev(model, v.nil): return None
            if depth > 6: return None
            c = self.init_content(st, v.ref)
            if isinstance(c, BigC): return {'big': str(self.mev(model, c.v))}
            return self.concretise(st, model, p.ti(t)['elem'], c, depth + 1)
        if k == 'array':
            n = p.ti(t)['len']
            return [self.concretise(st, model, p.ti(t)['elem'], self.rope_at_nf(v, i, model, st), depth + 1) for i in range(n)]
        return None
    def init_content(self, st, ref):
        e = self.lazy.get(ref.id)
        if e is None:
            f, c, _ = st.heap[ref.id]
            return c
        return e(st, ref.args)
    def rope_at_nf(self, r, i, model, st=None):
        pos = 0
        for g in r:
            n = self.mev(model, g.ln)
            if i < pos + n:
                if isinstance(g, S): return self.base_at(st, g.b, add(g.off, i - pos))
                if isinstance(g, U): return g.v[i - pos]
                if isinstance(g, R): return g.v
            pos += n
        return 0
    def conc_rope(self, st, model, r):
        n = min(self.mev(model, rlen(r)), 4096)
        m = self.conc_take(n, 1)
        return bytes(self.mev(model, self.rope_at_nf(r, i, model)) & 255 for i in range(m)).hex() + '00' * (n - m)
    def conc_take(self, n, depth):
        b = getattr(self, 'concbudget', 30000)
        m = min(n, b if depth == 0 else min(b, 700))
        self.concbudget = b - m
        return m
    # ------------------------------------------------------------ facts
    def add_index(self, st, t):
        if not isz(t): t = z3.BitVecVal(t, W)
        for x in st.idx:
            if x.eq(t): return
        st.idx.append(t)
        for f in list(st.facts): self.instantiate(st, f, t)
    def add_fact(self, st, f):
        st.facts.append(f)
        for t in list(st.idx): self.instantiate(st, f, t)
    def instantiate(self, st, f, t):
        g = band(f.guard, ult(t, f.n))
        if not isz(g) and not g: return
        s = [(f.var, bv(t, W))]
        cs = []
        for ts, nf in f.cases:
            cs.append(band(*[tsub(x, s) for x in ts]))
        c = bor(*cs)
        if isz(g): c = simp(z3.Implies(g, zb(c)))
        if isz(c) or not c: 
            if isz(c): st.assume(c)
            else: raise PathEnd()
        for (ts, nf), cc in zip(f.cases, cs):
            for x in nf:
                y = x.sub(s)
                y = Fact(y.var, y.n, y.cases, band(y.guard, cc if len(f.cases) > 1 else True, g))
                if not isz(y.guard) and not y.guard: continue
                self.add_fact(st, y)
    # ------------------------------------------------------------ heap
    def content(self, st, ref):
        e = st.heap.get(ref.id)
        if e is None:
            l = self.lazy.get(ref.id)
            if l is None: raise Unsupported('no content for %r' % (ref,))
            return l(st, ref.args)
        formals, c, upd = e
        for a, cc in upd:
            if self.decide(st, band(*[eq(x, y) for x, y in zip(a, ref.args)])): return cc
        if c is None: return self.lazy[ref.id](st, ref.args)
        if not formals or all(isz(x) and isz(y) and x.eq(y) for x, y in zip(formals, ref.args)): return c
        return vsub(c, list(zip(formals, [bv(a, W) for a in ref.args])))
    def set_content(self, st, ref, c):
        if 'fh' in ref.id and ref.id.startswith('in:L'): raise Unsupported('write through a reference forgotten by a loop invariant')
        e = st.heap.get(ref.id)
        h = dict(st.heap)
        if e is None:
            if not ref.args: h[ref.id] = ((), c, ())
            else: h[ref.id] = ((), None, ((ref.args, c),))
        else:
            formals, c0, upd = e
            if not ref.args: h[ref.id] = ((), c, ())
            elif not upd and c0 is not None and all(isz(x) and isz(y) and x.eq(y) for x, y in zip(formals, ref.args)) and all(any(x.eq(k) for k in st.ctx) for x in formals):
                h[ref.id] = (formals, c, ())
            else:
                new = [(ref.args, c)]
                for a, cc in upd:
                    cond = band(*[eq(x, y) for x, y in zip(a, ref.args)])
                    if not isz(cond) and cond: continue
                    new.append((a, cc))
                h[ref.id] = (formals, c0, tuple(new))
        st.heap = h
    def alloc(self, st, content, tag='o', ty=None):
        i = '%s!%d' % (tag, self.fid())
        self.otypes[i] = ty
        h = dict(st.heap); h[i] = (st.ctx, content, ()); st.heap = h
        return Ref(i, st.ctx)
    def walk(self, st, c, path):
        for k, i in path:
            if k == 'f': c = c.f[i]
            else: c = self.rope_at(st, c, i)
        return c
    def upd(self, st, c, path, v):
        if not path: return v
        k, i = path[0]
        if k == 'f':
            f = list(c.f); f[i] = self.upd(st, f[i], path[1:], v); return Struct(f)
        if len(path) == 1: return self.rope_set(st, c, i, v)
        return self.rope_set(st, c, i, self.upd(st, self.rope_at(st, c, i), path[1:], v))
    def load(self, st, ptr):
        return self.walk(st, self.content(st, ptr.ref), ptr.path)
    def store(self, st, ptr, v):
        c = self.content(st, ptr.ref) if ptr.path else None
        self.set_content(st, ptr.ref, self.upd(st, c, ptr.path, v))
    # ------------------------------------------------------------ ropes with decisions
    def base_at(self, st, b, idx):
        if isinstance(b.et, tuple):
            t = simp(base_term(b, idx))
            if st is not None and isinstance(b, App) and isz(t):
                if b.f == 'hexenc': self.hexdigit(st, b, idx, t)
                elif b.f in ('tolower', 'toupper') and not isz(idx) and (not isz(b.ln) or self.must(st, z3.UGT(b.ln, idx))):
                    c = bv(self.rope_at(st, b.ropes[0], idx), 8)
                    lo, hi, d = (65, 90, 32) if b.f == 'tolower' else (97, 122, -32)
                    st.assume(t == z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + d, c))
            return t
        return self.mk_input(st, b.et, b.name + '[]', b.args + (bv(idx, W),))
    def hexdigit(self, st, b, idx, t):
        """what a character of hex text is"""
        st.assume(z3.Or(z3.And(z3.UGE(t, 48), z3.ULE(t, 57)), z3.And(z3.UGE(t, 97), z3.ULE(t, 102))))
        if isz(idx) or isz(b.ln) and not self.must(st, z3.UGT(b.ln, idx)): return
        v = self.rope_at(st, b.ropes[0], idx >> 1)
        v = bv(v, 8)
        n = z3.LShR(v, 4) if idx % 2 == 0 else v & 15
        st.assume(t == z3.If(z3.ULT(n, 10), n + 48, n + 87))
    def case_rope(self, st, g, t):
        """rope of C segment g at index t"""
        self.add_index(st, t)
        s = [(g.var, bv(t, W))]
        n = len(g.cases)
        for q, (c, r) in enumerate(g.cases):
            if q == n - 1 or self.decide(st, tsub(c, s)): return rsub(r, s)
    def rope_at(self, st, r, i):
        i = simp(i)
        if not isz(i):
            pos = 0
            for g in r:
                if isz(g.ln): break
                if i < pos + g.ln: return self.seg_at(st, g, i - pos)
                pos += g.ln
        if len(r) == 1: return self.seg_at(st, r[0], i)
        # mux over one concrete rope of scalars
        pos = 0
        for n, g in enumerate(r):
            if n == len(r) - 1: return self.seg_at(st, g, sub(i, pos))
            end = add(pos, g.ln)
            if self.decide(st, ult(i, end)): return self.seg_at(st, g, sub(i, pos))
            pos = end
        raise Unsupported('index into empty rope')
    def seg_at(self, st, g, i):
        if isinstance(g, S): return self.base_at(st, g.b, add(g.off, i))
        if isinstance(g, R): return g.v
        if isinstance(g, U):
            if not isz(i): return g.v[i]
            return self.mux(st, g.v, i)
        if isinstance(g, C):
            if g.clen is None: raise Unsupported('index into variable-size concat')
            if g.clen == 1: return self.rope_at(st, self.case_rope(st, g, i), 0)
            t = simp(z3.UDiv(bv(i, W), bv(g.clen, W))); m = simp(z3.URem(bv(i, W), bv(g.clen, W)))
            return self.rope_at(st, self.case_rope(st, g, t), m)
    def mux(self, st, vals, i):
        v0 = vals[0]
        if isinstance(v0, (int, bool)) or isz(v0):
            w = None
            for v in vals:
                if isz(v):
                    w = v.size() if z3.is_bv(v) else 0; break
            if w is None:
                if isinstance(v0, bool): w = 0
                else: w = getattr(self, 'muxw', 8)
            if self.lin is not None and isz(i) and all(isinstance(v, int) for v in vals):
                # a constant table indexed by a value of another constant table: one composed table
                q = i
                if q.decl().kind() == z3.Z3_OP_CONCAT and q.num_args() == 2 and z3.is_bv_value(q.arg(0)) and q.arg(0).as_long() == 0: q = q.arg(1)
                elif q.decl().kind() == z3.Z3_OP_ZERO_EXT: q = q.arg(0)
                e = self.tabof.get(q.get_id())
                if e is not None and all(v < len(vals) for v in e[1]):
                    vals = tuple(vals[v] for v in e[1]); i = e[2]
                    if w and vals == tuple(range(len(vals))): return self.lin.mk(self.lin.form(bv(i, W), W)[:w])
            n = len(vals)
            def build(lo, size):
                if lo >= n: return vals[n - 1]
                if size == 1: return vals[lo]
                h = size // 2
                b = h.bit_length() - 1
                if lo + h >= n: return build(lo, h)
                c = z3.Extract(b, b, bv(i, W)) == 1
                x = build(lo, h); y = build(lo + h, h)
                if not isz(x) and not isz(y) and x == y: return x
                if w == 0: return z3.If(c, zb(y), zb(x))
                return z3.If(c, bv(y, w), bv(x, w))
            size = 1
            while size < n: size *= 2
            r = simp(build(0, size))
            if self.lin is not None and w and isz(r):
                # a table value is kept as one named term (defined by the table), so that linear forms over it agree
                k = self.tabs.get(r.get_id())
                if k is None:
                    k = self.tabs[r.get_id()] = (z3.BitVec('tab!%d' % len(self.tabs), w), r)
                    if all(isinstance(v, int) for v in vals): self.tabof[k[0].get_id()] = (k[0], tuple(vals), i)
                st.assume(k[0] == r)
                return k[0]
            return r
        for k in range(len(vals) - 1):
            if self.decide(st, eq(i, k)): return vals[k]
        return vals[-1]
    def rope_slice(self, st, r, lo, hi):
        """r[lo:hi]; bounds already checked"""
        lo = simp(lo); hi = simp(hi)
        if not isz(lo) and not isz(hi) and lo == hi: return ()
        if isz(lo) and isz(hi) and lo.eq(hi): return ()
        if isz(lo) and isz(hi) and len(r) == 1 and isinstance(r[0], U) and is_conc(r) and self.must(st, eq(sub(hi, lo), 1)):
            return units([self.mux(st, r[0].v, lo)])
        l, rest = self.rope_split(st, r, lo)
        a, b = self.rope_split(st, rest, sub(hi, lo))
        return a
    def rope_split(self, st, r, n):
        n = simp(n)
        left = []
        segs = list(r)
        if isz(n):
            t = 0
            for q, g in enumerate(segs):
                t = add(t, g.ln)
                d = sub(n, t)
                if not isz(d) and d == 0: return norm(segs[:q + 1]), norm(segs[q + 1:])
        while segs:
            if not isz(n) and n == 0: return norm(left), norm(segs)
            g = segs[0]
            d = sub(n, g.ln)
            if not isz(d):
                if d == 0:
                    left.append(g); segs.pop(0); return norm(left), norm(segs)
                if not isz(n):
                    if n > g.ln: left.append(g); segs.pop(0); n = d; continue
                    a, b = self.seg_split(st, g, n)
                    return norm(left + list(a)), norm(list(b) + segs[1:])
            if len(segs) == 1 and (isinstance(g, (S, R)) or (isinstance(g, C) and g.clen == 1)):
                a, b = self.seg_split(st, g, n)
                return norm(left + list(a)), norm(list(b))
            if self.decide(st, ule(g.ln, n)):
                left.append(g); segs.pop(0); n = d; continue
            a, b = self.seg_split(st, g, n)
            return norm(left + list(a)), norm(list(b) + segs[1:])
        return norm(left), ()
    def seg_split(self, st, g, n):
        if isinstance(g, S): return (S(g.b, g.off, n),), (S(g.b, add(g.off, n), sub(g.ln, n)),)
        if isinstance(g, R): return (R(g.v, n),), (R(g.v, sub(g.ln, n)),)
        if isinstance(g, U):
            if isz(n):
                for k in range(len(g.v) + 1):
                    if k == len(g.v) or self.decide(st, eq(n, k)):
                        n = k; break
            return (U(g.v[:n]),), (U(g.v[n:]),)
        if isinstance(g, C):
            if not isz(n) and n == 0: return (), (g,)
            if g.clen == 1:
                j = z3.BitVec('j!%d' % self.fid(), W); j2 = z3.BitVec('j!%d' % self.fid(), W)
                a = mkC(j, n, [(tsub(c, [(g.var, j)]), rsub(r, [(g.var, j)])) for c, r in g.cases])
                s2 = [(g.var, j2 + bv(n, W))]
                b = mkC(j2, sub(g.n, n), [(tsub(c, s2), rsub(r, s2)) for c, r in g.cases])
                return (a,), (b,)
            k = self.const_of(st, g.n)
            if k is not None and k <= 64:
                rr = cat(*[self.case_rope(st, g, i) for i in range(k)])
                return self.rope_split(st, rr, n)
            if g.clen and not isz(n):
                q = n // g.clen; m = n % g.clen
                if self.decide(st, ult(q, g.n)):
                    head = [self.case_rope(st, g, i) for i in range(q + 1)]
                    j2 = z3.BitVec('j!%d' % self.fid(), W); s2 = [(g.var, j2 + bv(q + 1, W))]
                    b = mkC(j2, sub(g.n, q + 1), [(tsub(c, s2), rsub(r, s2)) for c, r in g.cases])
                    h = cat(*head); x, y = self.rope_split(st, h, n)
                    return x, norm(list(y) + [b])
            raise Unsupported('split of concat segment %r at %s' % (g, n))
    def rope_set(self, st, r, i, v):
        i = simp(i)
        if isz(i) and len(r) == 1 and isinstance(r[0], U) and (isinstance(v, (int, bool)) or isz(v)) and len(r[0].v) <= 64:
            w = v.size() if isz(v) and z3.is_bv(v) else getattr(self, 'muxw', 8)
            return (U(tuple(ite(eq(i, k), v, x, w) for k, x in enumerate(r[0].v))),)
        a, rest = self.rope_split(st, r, i)
        _, b = self.rope_split(st, rest, 1)
        return cat(a, units([v]), b)
    def expand(self, st, r, limit=600):
        """replace segments of (provably) constant length by units"""
        out = []
        for g in r:
            if isinstance(g, U): out.append(g); continue
            n = g.ln
            if isz(n): n = self.const_of(st, n)
            if n is None or n > limit: out.append(g); continue
            if isinstance(g, C):
                k = self.const_of(st, g.n)
                if k is None or k > limit: out.append(g); continue
                for i in range(k): out.extend(self.expand(st, self.case_rope(st, g, i), limit))
                continue
            out.append(U(tuple(self.seg_at(st, g, i) for i in range(n))))
        return norm(out)
    def rope_units(self, st, r, limit=5000):
        """list of element values when the length is constant, else None"""
        n = rlen(r)
        n = self.const_of(st, n)
        if n is None or n > limit: return None
        r = self.expand(st, r, limit)
        out = []
        for g in r:
            if isinstance(g, U): out.extend(g.v)
            else: return None
        return out
    # ------------------------------------------------------------ equality of ropes
    def rope_eq_term(self, st, a, b):
        """exact Bool for a == b over scalar elements, or None when not expressible"""
        la, lb = rlen(a), rlen(b)
        le = eq(la, lb)
        if not isz(le) and not le: return False
        if isz(le) and not self.feasible(st, le): return False
        if len(a) == len(b) and self.same_rope(a, b): return True
        if len(a) == 1 and len(b) == 1 and isinstance(a[0], S) and isinstance(b[0], S) and isinstance(a[0].b, App) and isinstance(b[0].b, App) \
           and a[0].b.f == b[0].b.f and a[0].b.f in ('hexenc', 'b58enc') and len(a[0].b.ropes) == 1 and self.whole(a[0]) and self.whole(b[0]):
            return self.rope_eq_term(st, a[0].b.ropes[0], b[0].b.ropes[0])
        for x, y in ((a, b), (b, a)):
            # hex text against constant text
            if len(x) == 1 and isinstance(x[0], S) and isinstance(x[0].b, App) and x[0].b.f == 'hexenc' and self.whole(x[0]) and is_conc(y):
                t = conc(y)
                try: raw = bytes.fromhex(t.decode())
                except Exception: return False
                if raw.hex().encode() != t: return False
                return self.rope_eq_term(st, x[0].b.ropes[0], cbytes(raw))
        n = self.const_of(st, la) if isz(la) else la
        m = self.const_of(st, lb) if isz(lb) else lb
        k = n if n is not None else m
        if k is not None and k <= 600:
            ua = self.take_units(st, a, k); ub = self.take_units(st, b, k)
            if ua is not None and ub is not None:
                return band(le, *[self.val_eq_term(st, x, y) for x, y in zip(ua, ub)])
        if len(a) == 1 and len(b) == 1 and isinstance(a[0], R) and isinstance(b[0], R):
            return band(le, bor(eq(la, 0), self.val_eq_term(st, a[0].v, b[0].v)))
        return None
    def whole(self, g):
        o = eq(g.off, 0); l = eq(g.ln, g.b.ln)
        return (not isz(o) and o) and (not isz(l) and l)
    def take_units(self, st, r, k):
        """first k elements assuming the length is k"""
        out = []
        for g in r:
            if len(out) == k: break
            n = g.ln
            if isz(n): n = self.const_of(st, n)
            if n is None:
                if g is r[-1] and isinstance(g, (S, R)): n = k - len(out)
                else: return None
            if isinstance(g, C):
                kk = self.const_of(st, g.n)
                if kk is None: return None
                for i in range(kk):
                    u = self.rope_units(st, self.case_rope(st, g, i))
                    if u is None: return None
                    out.extend(u)
                continue
            for i in range(n):
                out.append(self.seg_at(st, g, i))
        return out if len(out) == k else None
    def val_eq_term(self, st, x, y):
        if isinstance(x, (int, bool)) or isz(x): return eq(x, y)
        if isinstance(x, Struct): return band(*[self.val_eq_term(st, a, b) for a, b in zip(x.f, y.f)])
        if isinstance(x, tuple):
            t = self.rope_eq_term(st, x, y)
            if t is None: raise Unsupported('rope equality term')
            return t
        if isinstance(x, Ptr):
            if isinstance(x.nil, bool) and x.nil: return y.nil
            if isinstance(y.nil, bool) and y.nil: return x.nil
            if x.ref is not None and y.ref is not None and x.ref.id == y.ref.id:
                same = band(*[eq(a, b) for a, b in zip(x.ref.args, y.ref.args)], *[eq(i, j) for (_, i), (_, j) in zip(x.path, y.path)]) if len(x.path) == len(y.path) else False
                return bor(band(x.nil, y.nil), band(bnot(x.nil), bnot(y.nil), same))
            return band(x.nil, y.nil)
        if isinstance(x, Iface):
            if isinstance(x.nil, bool) and x.nil: return y.nil
            if isinstance(y.nil, bool) and y.nil: return x.nil
            if x.tag is not None and x.tag == y.tag: return True
        raise Unsupported('equality of %r' % type(x))
    def same_rope(self, a, b):
        sa = []; la = []; sb = []; lb = []
        try: canon(a, sa, la, []); canon(b, sb, lb, [])
        except Unsupported: return False
        return sa == sb and len(la) == len(lb) and all(x.eq(y) for x, y in zip(la, lb))
    def hextext(self, g):
        if isinstance(g, U): return all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256 and chr(x) in '0123456789abcdef' for x in g.v)
        return isinstance(g, S) and isinstance(g.b, App) and g.b.f == 'hexenc'
    def prove_rope_eq(self, st, a, b, depth=0):
        """attempt a proof of a == b; returns (True,None) or (False, reason, cond) where cond is a scalar condition that may fail"""
        if depth > 12: return (False, 'too deep', None)
        if len(a) == len(b) and self.same_rope(a, b): return (True, None, None)
        if (len(a) > 1 or len(b) > 1) and all(self.hextext(g) for r in (a, b) for g in r):
            import intr
            ua, ub = intr.undo_hex(self, st, a), intr.undo_hex(self, st, b)
            if ua is not None and ub is not None: return self.prove_rope_eq(st, ua, ub, depth + 1)
        la, lb = rlen(a), rlen(b)
        le = eq(la, lb)
        A = list(a); B = list(b)
        def zero(g):
            return isz(g.ln) and self.must(st, eq(g.ln, 0))
        guard = 0
        while True:
            guard += 1
            if guard > 3000: return (False, 'no alignment', None)
            while A and (not isz(A[0].ln) and A[0].ln == 0): A.pop(0)
            while B and (not isz(B[0].ln) and B[0].ln == 0): B.pop(0)
            if not A and not B: return (True, None, None)
            if not A or not B:
                r = A or B
                t = rlen(r)
                if self.must(st, eq(t, 0)): return (True, None, None)
                return (False, 'lengths differ', eq(la, lb))
            x, y = A[0], B[0]
            if isinstance(x, U) and isinstance(y, U):
                n = min(len(x.v), len(y.v))
                for i in range(n):
                    ok = self.prove_val_eq(st, x.v[i], y.v[i], depth)
                    if not ok[0]: return ok
                A[0] = U(x.v[n:]); B[0] = U(y.v[n:]); continue
            if isinstance(x, (S, R, C)) and zero(x): A.pop(0); continue
            if isinstance(y, (S, R, C)) and zero(y): B.pop(0); continue
            if isinstance(x, U) or isinstance(y, U):
                sw = isinstance(y, U)
                u, g, UU, GG = (y, x, B, A) if sw else (x, y, A, B)
                if isinstance(g, C):
                    k = self.const_of(st, g.n)
                    if k is not None and k <= 600:
                        rr = cat(*[self.case_rope(st, g, i) for i in range(k)])
                        GG[0:1] = list(rr); continue
                    if g.clen == 1 or (g.clen and self.must(st, ult(0, g.n))):
                        hd = self.case_rope(st, g, 0)
                        j2 = z3.BitVec('j!%d' % self.fid(), W); s2 = [(g.var, j2 + 1)]
                        if self.must(st, ult(0, g.n)):
                            GG[0:1] = list(hd) + [mkC(j2, sub(g.n, 1), [(tsub(c, s2), rsub(r, s2)) for c, r in g.cases])]
                            continue
                    return (False, 'explicit elements against a loop-built sequence', le)
                if self.must(st, ult(0, g.ln)):
                    ok = self.prove_val_eq(st, u.v[0], self.seg_at(st, g, 0), depth)
                    if not ok[0]: return ok
                    _, rest = self.seg_split(st, g, 1)
                    UU[0] = U(u.v[1:]); GG[0:1] = list(rest); continue
                return (False, 'element against possibly empty segment', le)
            if isinstance(x, C) and isinstance(y, C):
                if self.must(st, eq(x.n, y.n)):
                    r = self.prove_cmap_eq(st, x, y, depth)
                    if not r[0]: return r
                    A.pop(0); B.pop(0); continue
                kx = self.const_of(st, x.n); ky = self.const_of(st, y.n)
                if kx is not None and kx <= 600: A[0:1] = list(cat(*[self.case_rope(st, x, i) for i in range(kx)])); continue
                if ky is not None and ky <= 600: B[0:1] = list(cat(*[self.case_rope(st, y, i) for i in range(ky)])); continue
                if x.clen == 1 and y.clen == 1:
                    if self.must(st, ule(x.n, y.n)):
                        h, t = self.seg_split(st, y, x.n); B[0:1] = list(h) + list(t); continue
                    if self.must(st, ule(y.n, x.n)):
                        h, t = self.seg_split(st, x, y.n); A[0:1] = list(h) + list(t); continue
                return (False, 'loop-built sequences of different counts', eq(x.n, y.n))
            if isinstance(x, C) or isinstance(y, C):
                sw = isinstance(y, C)
                c, g, CC, GG = (y, x, B, A) if sw else (x, y, A, B)
                k = self.const_of(st, c.n)
                if k is not None and k <= 600:
                    CC[0:1] = list(cat(*[self.case_rope(st, c, i) for i in range(k)])); continue
                if c.clen == 1:
                    # element-wise against S/R of the same length
                    n = None
                    if self.must(st, ule(c.n, g.ln)): n = c.n
                    elif self.must(st, ule(g.ln, c.n)): n = g.ln
                    if n is not None:
                        j = self.fresh_idx(st); s2 = st.clone(); s2.assume(ult(j, n))
                        if self.feasible(s2):
                            self.add_index(s2, j)
                            r = self.forall_cases(s2, c, j, lambda s3, rr: self.prove_val_eq(s3, self.rope_at(s3, rr, 0), self.seg_at(s3, g, j), depth + 1))
                            if not r[0]: return r
                        _, t1 = self.seg_split(st, c, n); _, t2 = self.seg_split(st, g, n)
                        CC[0:1] = list(t1); GG[0:1] = list(t2); continue
                if isinstance(g, S):
                    r = self.telescope(st, c, g)
                    if r is not None:
                        CC.pop(0); GG[0:1] = list(r); continue
                return (False, 'loop-built sequence against slice', le)
            if isinstance(x, S) and isinstance(y, S):
                same = x.b.name == y.b.name and all(self.must(st, eq(p, q)) for p, q in zip(x.b.args, y.b.args))
                if not same and isinstance(x.b, App) and isinstance(y.b, App) and x.b.f == y.b.f and len(x.b.ropes) == len(y.b.ropes) and len(x.b.sc) == len(y.b.sc):
                    res = (True, None, None)
                    for p, q in zip(x.b.sc, y.b.sc):
                        if not self.must(st, eq(p, q)): res = (False, 'argument of %s' % x.b.f, eq(p, q)); break
                    if res[0]:
                        for p, q in zip(x.b.ropes, y.b.ropes):
                            res = self.prove_rope_eq(st, p, q, depth + 1)
                            if not res[0]: res = (False, '%s argument: %s' % (x.b.f, res[1]), res[2]); break
                    if not res[0]: return res
                    same = True
                if not same and x.b.name.startswith('opq:') and y.b.name.startswith('opq:'):
                    ax = __import__("intr").opq_args(x.b); ay = __import__("intr").opq_args(y.b)
                    if ax and ay and ax[:2] == ay[:2] and len(ax[2]) == len(ay[2]) and len(ax[3]) == len(ay[3]):
                        res = (True, None, None)
                        for p, q in zip(ax[3], ay[3]):
                            if not self.must(st, eq(p, q)): res = (False, 'argument of %s' % ax[0], eq(p, q)); break
                        if res[0]:
                            for p, q in zip(ax[2], ay[2]):
                                res = self.prove_rope_eq(st, p, q, depth + 1)
                                if not res[0]: res = (False, '%s argument: %s' % (ax[0], res[1]), res[2]); break
                        if not res[0]: return res
                        same = True
                if same and self.must(st, eq(x.off, y.off)):
                    if self.must(st, eq(x.ln, y.ln)): A.pop(0); B.pop(0); continue
                    if self.must(st, ule(x.ln, y.ln)):
                        A.pop(0); B[0] = S(y.b, add(y.off, x.ln), sub(y.ln, x.ln)); continue
                    if self.must(st, ule(y.ln, x.ln)):
                        B.pop(0); A[0] = S(x.b, add(x.off, y.ln), sub(x.ln, y.ln)); continue
                    return (False, 'slice lengths', eq(x.ln, y.ln))
                k = self.const_of(st, x.ln); m = self.const_of(st, y.ln)
                if k is not None and k <= 600:
                    A[0:1] = [U(tuple(self.seg_at(st, x, i) for i in range(k)))]; continue
                if m is not None and m <= 600:
                    B[0:1] = [U(tuple(self.seg_at(st, y, i) for i in range(m)))]; continue
                if isinstance(x.b.et, tuple) and isinstance(y.b.et, tuple) and st.facts and not same:
                    n = x.ln if self.must(st, ule(x.ln, y.ln)) else (y.ln if self.must(st, ule(y.ln, x.ln)) else None)
                    if n is not None:
                        j = self.fresh_idx(st); s2 = st.clone(); s2.assume(ult(j, n))
                        ok = True
                        if self.feasible(s2):
                            self.add_index(s2, j)
                            ok = self.must(s2, eq(self.seg_at(s2, x, j), self.seg_at(s2, y, j)))
                        if ok:
                            _, t1 = self.seg_split(st, x, n); _, t2 = self.seg_split(st, y, n)
                            A[0:1] = [t for t in t1 if seg_nonempty(t)]; B[0:1] = [t for t in t2 if seg_nonempty(t)]; continue
                if same: return (False, 'slice offsets differ', eq(x.off, y.off))
                return (False, 'different sources %r vs %r' % (x.b, y.b), le)
            if isinstance(x, R) and isinstance(y, R):
                ok = self.prove_val_eq(st, x.v, y.v, depth)
                if not ok[0]: return ok
                if self.must(st, eq(x.ln, y.ln)): A.pop(0); B.pop(0); continue
                if self.must(st, ule(x.ln, y.ln)): A.pop(0); B[0] = R(y.v, sub(y.ln, x.ln)); continue
                if self.must(st, ule(y.ln, x.ln)): B.pop(0); A[0] = R(x.v, sub(x.ln, y.ln)); continue
                return (False, 'repetition counts', eq(x.ln, y.ln))
            # R against S
            for g, GG in ((x, A), (y, B)):
                k = self.const_of(st, g.ln)
                if k is not None and k <= 600:
                    GG[0:1] = [U(tuple(self.seg_at(st, g, i) for i in range(k)))]; break
            else:
                return (False, 'cannot align %r with %r' % (x, y), le)
    def fresh_idx(self, st):
        return z3.BitVec('q!%d' % self.fid(), W)
    def forall_cases(self, st, c, j, fn):
        s = [(c.var, j)]
        for cond, r in c.cases:
            s2 = st.clone()
            try:
                s2.assume(tsub(cond, s))
                if not self.feasible(s2): continue
                res = self.with_forks(s2, lambda s3: fn(s3, rsub(r, s)))
            except PathEnd: continue
            if not res[0]: return res
        return (True, None, None)
    def with_forks(self, st, fn):
        work = [st]
        n = 0
        while work:
            s = work.pop(); n += 1
            if n > 300: return (False, 'too many cases', None)
            try:
                r = fn(s)
            except Fork as f:
                for c in (f.cond, z3.Not(f.cond)):
                    s2 = s.clone()
                    try: s2.assume(simp(c))
                    except PathEnd: continue
                    work.append(s2)
                continue
            except PathEnd: continue
            if not r[0]:
                self.failstate = s
                return r
        return (True, None, None)
    def prove_cmap_eq(self, st, x, y, depth):
        j = self.fresh_idx(st)
        s1 = st.clone(); s1.assume(ult(j, x.n))
        if not self.feasible(s1): return (True, None, None)
        self.add_index(s1, j)
        if not self.feasible(s1): return (True, None, None)
        sx = [(x.var, j)]; sy = [(y.var, j)]
        for c, r in x.cases:
            for d, q in y.cases:
                s2 = s1.clone()
                try:
                    s2.assume(tsub(c, sx)); s2.assume(tsub(d, sy))
                    if not self.feasible(s2): continue
                    rr = rsub(r, sx); qq = rsub(q, sy)
                    res = self.with_forks(s2, lambda s3: self.prove_rope_eq(s3, rr, qq, depth + 1))
                except PathEnd: continue
                if not res[0]: return (False, 'loop element: ' + str(res[1]), None)
        return (True, None, None)
    def telescope(self, st, c, g):
        """C(j<n, body(j)) against slice g of base b: prove body(j) = b[s(j):s(j+1)] with s(0)=g.off; return the remaining segments of g"""
        cand = []
        for cond, r in c.cases:
            if not r: return None
            h = r[0]
            if isinstance(h, S) and h.b.name == g.b.name: cand.append(h.off)
            elif isinstance(h, U) and isz(h.v[0]) and h.v[0].decl().name() == g.b.name + '@': cand.append(h.v[0].arg(h.v[0].num_args() - 1))
        if not cand: return None
        for s0 in cand:
            s_at = lambda t: tsub(s0, [(c.var, bv(t, W))])
            if not self.must(st, eq(s_at(0), g.off)): continue
            j = self.fresh_idx(st)
            s1 = st.clone(); s1.assume(ult(j, c.n))
            ok = (True,)
            if self.feasible(s1):
                self.add_index(s1, j)
                def fn(s3, rr):
                    nxt = s_at(j + 1)
                    want = (S(g.b, s_at(j), sub(nxt, s_at(j))),)
                    return self.prove_rope_eq(s3, rr, want, 3)
                ok = self.forall_cases(s1, c, j, fn)
            if ok[0]:
                end = s_at(c.n)
                return norm([S(g.b, end, sub(add(g.off, g.ln), end))])
        return None
    def prove_val_eq(self, st, x, y, depth=0):
        if isinstance(x, (int, bool)) or isz(x):
            e = eq(x, y)
            if not isz(e): return (bool(e), None if e else 'constants %s vs %s' % (x, y), e)
            if self.must(st, e): return (True, None, None)
            return (False, 'scalar mismatch', e)
        if isinstance(x, Struct):
            for a, b in zip(x.f, y.f):
                r = self.prove_val_eq(st, a, b, depth + 1)
                if not r[0]: return r
            return (True, None, None)
        if isinstance(x, tuple): return self.prove_rope_eq(st, x, y, depth + 1)
        if isinstance(x, Slice):
            r = self.prove_val_eq(st, x.ln, y.ln)
            if not r[0]: return (False, 'slice length', r[2])
            return self.prove_rope_eq(st, self.slice_rope(st, x), self.slice_rope(st, y), depth + 1)
        if isinstance(x, Ptr):
            if x.nil is True or y.nil is True:
                e = band(eq(x.nil, y.nil))
                return (self.must(st, e), 'nil pointer', e)
            e = eq(x.nil, y.nil)
            if not self.must(st, e): return (False, 'pointer nilness', e)
            if self.must(st, x.nil): return (True, None, None)
            return self.prove_val_eq(st, self.load(st, x), self.load(st, y), depth + 1)
        if isinstance(x, BigC):
            e = eq(self.bigterm(x), self.bigterm(y))
            return (self.must(st, e), 'big.Int value', e)
        if isinstance(x, Iface):
            e = eq(x.nil, y.nil)
            if not self.must(st, e): return (False, 'interface nilness', e)
            return (True, None, None)
        return (False, 'cannot compare %r' % type(x), None)
    def slice_rope(self, st, s):
        if isinstance(s.nil, bool) and s.nil: return ()
        if s.ref is None: return ()
        c = self.walk(st, self.content(st, s.ref), s.path)
        return self.rope_slice(st, c, s.off, add(s.off, s.ln))
    BW = 640
    def bigterm(self, c):
        return bv(c.v if isz(c.v) else mask(c.v, self.BW), self.BW)
    # ------------------------------------------------------------ symbolic inputs
    def mk_input(self, st, t, name, args=()):
        p = self.p; k = p.kind(t)
        if k == 'int': return uf(name, args, z3.BitVecSort(p.intinfo(t)[0]))
        if k == 'bool': return uf(name, args, z3.BoolSort())
        if k == 'string':
            ln = uf(name + '.len', args, z3.BitVecSort(W))
            st.assume(z3.ULT(ln, MAXLEN))
            return (S(Base(name, args, ln, ('bv', 8)), 0, ln),)
        if k == 'struct':
            return Struct([self.mk_input(st, f['t'], name + '.' + f['name'], args) for f in p.ti(t)['fields']])
        if k == 'array':
            n = p.ti(t)['len']; et = p.ti(t)['elem']
            if n > 4096: raise Unsupported('big array input')
            b = Base(name, args, n, p.elem_desc(et))
            return units([self.base_at(st, b, i) for i in range(n)])
        if k == 'slice':
            ln = uf(name + '.len', args, z3.BitVecSort(W)); nil = uf(name + '.nil', args, z3.BoolSort())
            st.assume(z3.ULT(ln, MAXLEN)); st.assume(z3.Or(z3.Not(nil), ln == 0))
            et = p.elem_desc(p.ti(t)['elem'])
            rid = 'in:' + name
            if rid not in self.lazy:
                def mk(st2, a, name=name, et=et):
                    l2 = uf(name + '.len', a, z3.BitVecSort(W))
                    return (S(Base(name, a, l2, et), 0, l2),)
                self.lazy[rid] = mk
                self.otypes[rid] = ('elems', p.ti(t)['elem'])
            return Slice(Ref(rid, args), (), 0, ln, nil, p.ti(t)['elem'])
        if k == 'ptr':
            el = p.ti(t)['elem']
            nil = uf(name + '.nil', args, z3.BoolSort())
            rid = 'in:' + name
            if rid not in self.lazy:
                if p.isbig(el):
                    def mk(st2, a, name=name):
                        v = uf(name + '.big', a, z3.BitVecSort(256))
                        return BigC(z3.ZeroExt(self.BW - 256, v), 256)
                    self.assumed.add('big.Int inputs are non-negative and below 2^256')
                else:
                    def mk(st2, a, name=name, el=el): return self.mk_input(st2, el, '*' + name, a)
                self.lazy[rid] = mk
                self.otypes[rid] = ('val', el)
            return Ptr(Ref(rid, args), (), nil)
        if k == 'iface':
            return Iface(uf(name + '.nil', args, z3.BoolSort()), None, name)
        raise Unsupported('input of kind %s (%s)' % (k, p.ti(t)['str']))
    def zero(self, t):
        p = self.p; k = p.kind(t)
        if k == 'int': return 0
        if k == 'bool': return False
        if k == 'string': return ()
        if p.isbig(t): return BigC(0, 0)
        if k == 'struct': return Struct([self.zero(f['t']) for f in p.ti(t)['fields']])
        if k == 'array':
            n = p.ti(t)['len']; z = self.zero(p.ti(t)['elem'])
            return units([z] * n) if n <= 4096 else (R(z, n),)
        if k == 'slice': return Slice(None, (), 0, 0, True, p.ti(t)['elem'])
        if k == 'ptr': return Ptr(None, (), True)
        if k == 'iface': return Iface(True)
        if k == 'map': return MapRef(None, True)
        if k == 'func': return Func(None)
        if k == 'tuple': return tuple(self.zero(e) for e in p.ti(t)['elems'])
        return Opaque('zero')
    # ------------------------------------------------------------ running
    def new_state(self, heap=None):
        st = State(); st.frames = []; st.heap = heap or {}; st.pc = []; st.known = {}; st.facts = []; st.idx = []
        st.ctx = (); st.apps = {}; st.newphis = None; st.res = None; st.tr = []
        return st
    def push(self, st, fn, args, ret=None, bind=(), lemma=False):
        f = Frame(); f.fn = fn; f.blk = 0; f.ip = 0; f.prev = -1; f.regs = {}; f.ret = ret; f.cnt = {}; f.lemma = lemma
        for p, a in zip(fn.params, args): f.regs[p['n']] = a
        for p, a in zip(fn.freevars, bind): f.regs[p['n']] = a
        if len(st.frames) > 60: raise Unsupported('call depth')
        st.frames.append(f)
        self.used.add(fn.name)
    def run(self, st, stop=None):
        """explore from st; returns list of (kind, state)"""
        work = [st]; out = []
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
            try:
                more = self.steps_until(s, stop, out)
                work.extend(more)
            except PathEnd:
                self.paths += 1
            if len(work) + len(out) > self.maxpaths: raise Unsupported('too many paths')
        return out
    def steps_until(self, st, stop, out):
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            ins = None if fr.ip == -1 else blk['ins'][fr.ip]
            heap = st.heap; npc = len(st.pc); nf = len(st.facts); ni = len(st.idx); nfr = len(st.frames)
            self.steps += 1
            try:
                r = self.enter_block(st, stop, out) if ins is None else self.step(st, fr, blk, ins, stop, out)
            except Fork as f:
                # restore
                st.heap = heap
                del st.facts[nf:]; del st.idx[ni:]
                if len(st.pc) > npc:
                    # keep assumptions made by the aborted attempt out of the state
                    keep = st.pc[:npc]
                    st.pc = []; kn = st.known; st.known = {}
                    for c in keep: st.assume(c)
                res = []
                for c in (z3.Not(f.cond), f.cond):
                    s2 = st.clone()
                    try: s2.assume(simp(c))
                    except PathEnd: continue
                    res.append(s2)
                return res
            if r is not None:
                return r
    def jump(self, st, fr, target, stop, out):
        """transfer control in the top frame; returns list of states (replacing st) or None to continue"""
        depth = len(st.frames) - 1
        src = fr.blk
        if stop and stop[0] == depth:
            if target == stop[1].header:
                st.newphis = self.edge_vals(st, fr, target, src)
                out.append(('cont', st)); return []
            if target not in stop[1].body:
                fr.prev = src; fr.blk = target; fr.ip = -1
                out.append(('exit', st)); return []
        fr.prev = src; fr.blk = target; fr.ip = -1
        return None
    def edge_vals(self, st, fr, target, src):
        b = fr.fn.blocks[target]
        e = b['preds'].index(src)
        return {i['r']: self.val(st, fr, i['edges'][e]) for i in b['ins'] if i['op'] == 'phi'}
    def enter_block(self, st, stop, out):
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.blk]
        vals = {}
        if b['ins'] and b['ins'][0]['op'] == 'phi':
            if self.merged is not None: vals, self.merged = self.merged, None
            else: vals = self.edge_vals(st, fr, fr.blk, fr.prev)
        self.merged = None
        loop = fr.fn.loops.get(fr.blk)
        if loop is not None:
            if fr.prev not in loop.body:
                fr.cnt[fr.blk] = 0
                if 'merge' in self.summ:
                    import loops
                    return loops.unroll_merge(self, st, loop, vals, stop, out)
                if self.want_summary(st, fr, loop, vals):
                    import loops
                    return loops.summarise(self, st, loop, vals, stop, out)
            else:
                fr.cnt[fr.blk] += 1
                if fr.cnt[fr.blk] > self.unroll_limit(st, fr, loop):
                    raise LoopLimit((fr.fn.name, loop.header))
        for r, v in vals.items(): fr.regs[r] = v
        n = 0
        while n < len(b['ins']) and b['ins'][n]['op'] == 'phi': n += 1
        fr.ip = n
        return None
    def unroll_limit(self, st, fr, loop):
        return 1100
    def want_summary(self, st, fr, loop, vals):
        if (fr.fn.name, loop.header) in self.force: return True
        if self.summ:
            nm = fr.fn.name.rsplit('.', 1)[-1]
            if nm in self.summ: return True
            if '-*' in self.summ or '-' + nm in self.summ: return False
        import loops
        return loops.want(self, st, fr, loop, vals)
    # ------------------------------------------------------------ operands
    def val(self, st, fr, x):
        if isinstance(x, str):
            return fr.regs[x]
        if x is None: return None
        if 'c' in x:
            t = x['t']
            if x.get('nil'): return self.zero(t)
            if 'bool' in x: return x['bool']
            if 'bytes' in x: return cbytes(x['bytes'])
            if 'int' in x:
                ii = self.p.intinfo(t)
                if ii is None:
                    if self.p.kind(t) == 'bool': return bool(int(x['int']))
                    return Opaque('const', (x['int'],))
                return mask(int(x['int']), ii[0])
            return Opaque('const')
        if 'g' in x:
            return Ptr(Ref('G:' + x['g']))
        if 'f' in x: return Func(x['f'])
        if 'b' in x: return Func('builtin:' + x['b'])
        raise Unsupported('operand %r' % (x,))
    # ------------------------------------------------------------ step
    def step(self, st, fr, blk, ins, stop, out):
        op = ins['op']
        m = getattr(self, 'op_' + op, None)
        if m is None: raise Unsupported('instruction %s' % op)
        return m(st, fr, blk, ins, stop, out)
    def setr(self, fr, ins, v):
        fr.regs[ins['r']] = v
        fr.ip += 1
    def op_if(self, st, fr, blk, ins, stop, out):
        c = self.val(st, fr, ins['x'])
        if self.lin and isz(c):
            r = self.ifconv(st, fr, blk, c, stop, out)
            if r is not False: return None if r is True else r
        t = blk['succs'][0] if self.decide(st, c) else blk['succs'][1]
        return self.jump(st, fr, t, stop, out)
    def ifconv(self, st, fr, blk, c, stop, out):
        """linear mode: merges the two sides of a small pure conditional instead of forking"""
        cb = self.lin.cond(c)
        if cb is None or cb < 2: return False
        PURE = ('binop', 'convert', 'unop', 'indexaddr')
        sides = []
        for n in blk['succs']:
            b = fr.fn.blocks[n]
            if b['preds'] == [fr.blk] and len(b['succs']) == 1 and b['ins'][-1]['op'] == 'jump' and all(i['op'] in PURE for i in b['ins'][:-1]):
                sides.append((b['ins'][:-1], b['succs'][0], n))
            else: sides.append(([], n, fr.blk))
        if sides[0][1] != sides[1][1]: return False
        j = sides[0][1]
        J = fr.fn.blocks[j]
        if sides[0][2] == sides[1][2]: return False
        top = stop and stop[0] == len(st.frames) - 1
        if top and j != stop[1].header and j not in stop[1].body: return False
        phis = [i for i in J['ins'] if i['op'] == 'phi']
        if any(self.p.kind(i['t']) != 'int' for i in phis): return False
        ip = fr.ip
        for ins2, _, n in sides:
            for i in ins2: self.step(st, fr, fr.fn.blocks[n], i, stop, out)
        fr.ip = ip
        vals = {}
        for i in phis:
            x, y = (self.val(st, fr, i['edges'][J['preds'].index(s[2])]) for s in sides)
            v = self.lin.ite(cb, x, y, self.p.intinfo(i['t'])[0])
            if v is None: return False
            vals[i['r']] = v
        if top and j == stop[1].header:
            st.newphis = vals
            out.append(('cont', st)); return []
        fr.prev = sides[0][2]; fr.blk = j; fr.ip = -1
        self.merged = vals
        r = self.enter_block(st, stop, out)
        return True if r is None else r
    def op_jump(self, st, fr, blk, ins, stop, out):
        return self.jump(st, fr, blk['succs'][0], stop, out)
    def op_return(self, st, fr, blk, ins, stop, out):
        depth = len(st.frames) - 1
        if stop and stop[0] == depth:
            out.append(('exit', st)); return []
        vals = [self.val(st, fr, x) for x in ins['res']]
        if depth == 0 or fr.ret == 'TOP':
            st.res = vals
            out.append(('ret', st)); self.paths += 1; return []
        st.frames.pop()
        v = None if not vals else (vals[0] if len(vals) == 1 else tuple(vals))
        up = st.frames[-1]
        if fr.ret is not None: up.regs[fr.ret] = v
        up.ip += 1
        return None
    def op_panic(self, st, fr, blk, ins, stop, out):
        self.check(st, False, 'panic', ins, 'explicit panic reached')
        raise PathEnd()
    def op_rundefers(self, st, fr, blk, ins, stop, out):
        fr.ip += 1
    def op_alloc(self, st, fr, blk, ins, stop, out):
        self.setr(fr, ins, Ptr(self.alloc(st, self.zero(ins['elem']), 'a', ('val', ins['elem']))))
    def nilcheck(self, st, p, ins):
        if isinstance(p.nil, bool) and not p.nil: return
        self.check(st, bnot(p.nil), 'nil-dereference', ins, 'nil pointer dereference')
        if p.ref is None: raise PathEnd()
    def op_fieldaddr(self, st, fr, blk, ins, stop, out):
        p = self.val(st, fr, ins['x']); self.nilcheck(st, p, ins)
        self.setr(fr, ins, Ptr(p.ref, p.path + (('f', ins['i']),)))
    def op_field(self, st, fr, blk, ins, stop, out):
        v = self.val(st, fr, ins['x'])
        self.setr(fr, ins, v.f[ins['i']])
    def to64(self, v, t):
        w, s = self.p.intinfo(t)
        if w == 64: return v
        if not isz(v): return mask(sgn(v, w), 64) if s else v
        return simp(z3.SignExt(64 - w, v) if s else z3.ZeroExt(64 - w, v))
    def op_indexaddr(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x']); i = self.to64(self.val(st, fr, ins['i']), ins['it'])
        if isinstance(x, Slice):
            self.check(st, ult(i, x.ln), 'index', ins, 'index out of range')
            if isz(i) and z3.is_const(i) and all(f.fn.name.rsplit('.', 1)[-1].startswith(('vlemma_', 'vspec_')) for f in st.frames): self.add_index(st, i)   # the lemma's quantified index
            self.setr(fr, ins, Ptr(x.ref, x.path + (('i', add(x.off, i)),)))
        else:
            self.nilcheck(st, x, ins)
            n = self.p.ti(self.p.ti(ins['xt'])['elem'])['len']
            self.check(st, ult(i, n), 'index', ins, 'index out of range')
            self.setr(fr, ins, Ptr(x.ref, x.path + (('i', i),)))
    def op_index(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x']); i = self.to64(self.val(st, fr, ins['i']), ins['it'])
        self.check(st, ult(i, rlen(x)), 'index', ins, 'index out of range')
        self.muxw = self.width(ins['t'])
        self.setr(fr, ins, self.rope_at(st, x, i))
    def width(self, t):
        ii = self.p.intinfo(t)
        return ii[0] if ii else 8
    def op_lookup(self, st, fr, blk, ins, stop, out):
        if self.p.kind(ins['xt']) == 'string': return self.op_index(st, fr, blk, ins, stop, out)
        m = self.val(st, fr, ins['x']); k = self.val(st, fr, ins['i'])
        vt = self.p.ti(ins['xt'])['elem']
        found = None
        if m.ref is not None:
            for kk, vv in self.content(st, m.ref).items:
                if self.decide(st, self.val_eq_term(st, kk, k)): found = vv; break
        v = found if found is not None else self.zero(vt)
        self.setr(fr, ins, (v, found is not None) if ins['commaok'] else v)
    def op_makemap(self, st, fr, blk, ins, stop, out):
        self.setr(fr, ins, MapRef(self.alloc(st, MapC(()), 'm')))
    def op_mapupdate(self, st, fr, blk, ins, stop, out):
        m = self.val(st, fr, ins['m']); k = self.val(st, fr, ins['i']); v = self.val(st, fr, ins['x'])
        if m.ref is None:
            self.check(st, False, 'nil-map', ins, 'assignment to nil map'); raise PathEnd()
        items = list(self.content(st, m.ref).items)
        for n, (kk, vv) in enumerate(items):
            if self.decide(st, self.val_eq_term(st, kk, k)): items[n] = (k, v); break
        else: items.append((k, v))
        self.set_content(st, m.ref, MapC(items)); fr.ip += 1
    def op_store(self, st, fr, blk, ins, stop, out):
        p = self.val(st, fr, ins['a']); self.nilcheck(st, p, ins)
        self.muxw = self.width(ins['xt'])
        self.store(st, p, self.val(st, fr, ins['x'])); fr.ip += 1
    def op_unop(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x']); u = ins['uop']
        if u == '*':
            self.nilcheck(st, x, ins)
            self.muxw = self.width(ins['t'])
            self.setr(fr, ins, self.load(st, x))
        elif u == '!': self.setr(fr, ins, bnot(x))
        elif u == '-':
            w = self.width(ins['t']); self.setr(fr, ins, sub(0, x, w))
        elif u == '^':
            w = self.width(ins['t'])
            self.setr(fr, ins, mask(~x, w) if not isz(x) else simp(~x))
        else: raise Unsupported('unop ' + u)
    def op_binop(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x']); y = self.val(st, fr, ins['y']); o = ins['bop']; t = ins['xt']
        k = self.p.kind(t)
        if k == 'int': return self.setr(fr, ins, self.arith(st, o, x, y, t, ins['yt'], ins))
        if k == 'bool':
            e = eq(x, y)
            if o == '==': return self.setr(fr, ins, e)
            if o == '!=': return self.setr(fr, ins, bnot(e))
        if k == 'string':
            if o == '+': return self.setr(fr, ins, self.strcat(st, x, y))
            if o in ('==', '!='):
                e = self.streq(st, x, y)
                return self.setr(fr, ins, e if o == '==' else bnot(e))
            ux = self.rope_units(st, x, 64); uy = self.rope_units(st, y, 64)
            if ux is not None and uy is not None and all(isinstance(v, int) for v in ux + uy):
                a, b = bytes(ux), bytes(uy)
                return self.setr(fr, ins, {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o])
            e = ufapp('strlt', [x, y], (), z3.BoolSort())
            if o == '<': return self.setr(fr, ins, e)
        if o in ('==', '!='):
            e = self.refeq(st, x, y)
            return self.setr(fr, ins, e if o == '==' else bnot(e))
        raise Unsupported('binop %s on %s' % (o, k))
    def refeq(self, st, x, y):
        if isinstance(x, Slice) and isinstance(y, Slice):
            if y.ref is None: return x.nil
            if x.ref is None: return y.nil
        if isinstance(x, MapRef): return (x.nil if y.ref is None else y.nil)
        if isinstance(x, Func): return x.name == y.name
        if isinstance(x, Iface) and isinstance(y, Iface):
            if isinstance(y.nil, bool) and y.nil: return x.nil
            if isinstance(x.nil, bool) and x.nil: return y.nil
            if x.dyn and y.dyn and x.dyn[0] == y.dyn[0]: return self.val_eq_term(st, x.dyn[1], y.dyn[1])
            if x.tag is not None and x.tag == y.tag: return True
            raise Unsupported('interface comparison')
        return self.val_eq_term(st, x, y)
    def streq(self, st, x, y):
        e = self.rope_eq_term(st, x, y)
        if e is None:
            r = self.prove_rope_eq(st, x, y)
            if r[0]: return True
            sx, lx = ufname('', [x]); sy, ly = ufname('', [y])
            if sy < sx: x, y = y, x
            e = ufapp('streq', [x, y], (), z3.BoolSort())
            st.assume(z3.Implies(e, zb(eq(rlen(x), rlen(y)))))
        return e
    def strcat(self, st, x, y):
        r = cat(x, y)
        out = []
        for g in r:
            if out and isinstance(g, S) and isinstance(out[-1], S) and isinstance(g.b, App) and isinstance(out[-1].b, App) and g.b.f == 'hexenc' and out[-1].b.f == 'hexenc' and self.whole(g) and self.whole(out[-1]):
                rr = cat(out[-1].b.ropes[0], g.b.ropes[0])
                out[-1] = self.hexenc_rope(st, rr)[0]
                continue
            out.append(g)
        return norm(out)
    def hexenc_rope(self, st, rr):
        if is_conc(rr): return cbytes(conc(rr).hex().encode())
        n = rlen(rr)
        ln = mul(2, n)
        b = App('hexenc', [rr], (), ln, ('bv', 8))
        return (S(b, 0, ln),)
    def arith(self, st, o, x, y, t, yt, ins):
        w, s = self.p.intinfo(t)
        conc2 = not isz(x) and not isz(y)
        if self.lin and not conc2:
            if o in ('&', '|', '^', '&^', '<<', '>>'):
                if o in ('<<', '>>') and not isz(y) and self.p.intinfo(yt)[1] and y >> (self.p.intinfo(yt)[0] - 1): r = None
                else: r = self.lin.op(o, x, y, w, s)
                if r is not None: return r
            elif o in ('==', '!='):
                r = self.lin.eq(x, y, w)
                if r is not None: return r if o == '==' else bnot(r)
        if o == '+': return add(x, y, w)
        if o == '-': return sub(x, y, w)
        if o == '*': return mul(x, y, w)
        if o == '==': return eq(x, y)
        if o == '!=': return bnot(eq(x, y))
        if o in ('<', '<=', '>', '>='):
            if o in ('>', '>='): x, y = y, x; o = '<' if o == '>' else '<='
            f = (slt if s else ult) if o == '<' else (sle if s else ule)
            return f(x, y, w)
        if o in ('<<', '>>'):
            w2, s2 = self.p.intinfo(yt)
            if s2:
                self.check(st, bnot(slt(y, 0, w2)), 'shift', ins, 'negative shift amount')
            if not isz(y):
                y = sgn(y, w2) if s2 else y
                if y >= w: return 0 if (o == '<<' or not s) else (ite(slt(x, 0, w), mask(-1, w), 0, w))
                if not isz(x):
                    return mask(x << y, w) if o == '<<' else (mask(sgn(x, w) >> y, w) if s else x >> y)
                yy = z3.BitVecVal(y, w)
            else:
                if w2 < w: yy = z3.ZeroExt(w - w2, y); big = False
                elif w2 > w:
                    yy = z3.Extract(w - 1, 0, y); big = z3.UGE(y, w)
                    X = bv(x, w)
                    r = (X << yy) if o == '<<' else ((X >> yy) if s else z3.LShR(X, yy))
                    dflt = z3.BitVecVal(0, w) if (o == '<<' or not s) else z3.If(X < 0, z3.BitVecVal(mask(-1, w), w), z3.BitVecVal(0, w))
                    return simp(z3.If(big, dflt, r))
                else: yy = y
            X = bv(x, w)
            return simp((X << yy) if o == '<<' else ((X >> yy) if s else z3.LShR(X, yy)))
        if o in ('/', '%'):
            self.check(st, bnot(eq(y, 0)), 'div-zero', ins, 'division by zero')
            if conc2:
                a, b = (sgn(x, w), sgn(y, w)) if s else (x, y)
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                return mask(q if o == '/' else a - q * b, w)
            X, Y = bv(x, w), bv(y, w)
            if s and not isz(y) and not (y >> (w - 1)) and self.must(st, bnot(slt(x, 0, w))): s = False
            if o == '/': return simp(X / Y if s else z3.UDiv(X, Y))
            return simp(z3.SRem(X, Y) if s else z3.URem(X, Y))
        if conc2:
            return mask({'&': x & y, '|': x | y, '^': x ^ y, '&^': x & ~y}[o], w)
        X, Y = bv(x, w), bv(y, w)
        return simp({'&': lambda: X & Y, '|': lambda: X | Y, '^': lambda: X ^ Y, '&^': lambda: X & ~Y}[o]())
    def op_extract(self, st, fr, blk, ins, stop, out):
        self.setr(fr, ins, self.val(st, fr, ins['x'])[ins['i']])
    def op_changetype(self, st, fr, blk, ins, stop, out):
        self.setr(fr, ins, self.val(st, fr, ins['x']))
    def op_makeiface(self, st, fr, blk, ins, stop, out):
        self.setr(fr, ins, Iface(False, (ins['xt'], self.val(st, fr, ins['x']))))
    def op_makeclosure(self, st, fr, blk, ins, stop, out):
        self.setr(fr, ins, Func(ins['f'], [self.val(st, fr, b) for b in ins['bindings']]))
    def op_typeassert(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x'])
        if x.dyn is None: raise Unsupported('type assertion on opaque interface')
        ok = x.dyn[0] == ins['at']
        if self.p.kind(ins['at']) == 'iface': ok = True; v = x
        else: v = x.dyn[1] if ok else self.zero(ins['at'])
        if ins['commaok']: self.setr(fr, ins, (v, ok))
        else:
            self.check(st, ok, 'type-assert', ins); self.setr(fr, ins, v)
    def convint(self, x, ft, tt):
        wf, sf = self.p.intinfo(ft); wt, _ = self.p.intinfo(tt)
        if not isz(x): return mask(sgn(x, wf) if sf else x, wt)
        if wt == wf: return x
        if self.lin: return self.lin.conv(x, wf, sf, wt)
        if wt < wf: return simp(z3.Extract(wt - 1, 0, x))
        return simp(z3.SignExt(wt - wf, x) if sf else z3.ZeroExt(wt - wf, x))
    def op_convert(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x']); ft, tt = ins['xt'], ins['t']
        kf, kt = self.p.kind(ft), self.p.kind(tt)
        if kf == 'int' and kt == 'int': return self.setr(fr, ins, self.convint(x, ft, tt))
        if kf == 'string' and kt == 'slice':
            et = self.p.ti(tt)['elem']
            if self.width(et) == 8:
                return self.setr(fr, ins, self.new_slice(st, x, et))
            u = self.rope_units(st, x)
            if u is not None:
                # runes: ASCII only
                for v in u: 
                    if not self.decide(st, ult(v, 0x80, 8)): raise Unsupported('non-ASCII rune conversion')
                return self.setr(fr, ins, self.new_slice(st, units([v if not isz(v) else simp(z3.ZeroExt(24, v)) for v in u]), et))
            raise Unsupported('[]rune of symbolic string')
        if kf == 'slice' and kt == 'string':
            et = self.p.ti(ft)['elem']
            r = self.slice_rope(st, x)
            if self.width(et) == 8: return self.setr(fr, ins, r)
            u = self.rope_units(st, r)
            if u is not None:
                for v in u:
                    if not self.decide(st, ult(v, 0x80, 32)): raise Unsupported('non-ASCII rune conversion')
                return self.setr(fr, ins, units([v if not isz(v) else simp(z3.Extract(7, 0, v)) for v in u]))
            raise Unsupported('string of symbolic rune slice')
        if kf == 'int' and kt == 'string':
            w = self.p.intinfo(ft)[0]
            if self.decide(st, ult(x, 0x80, w)):
                return self.setr(fr, ins, units([x if not isz(x) else simp(z3.Extract(7, 0, x) if w > 8 else x)]))
            raise Unsupported('non-ASCII rune to string')
        if kf == kt: return self.setr(fr, ins, x)
        raise Unsupported('convert %s -> %s' % (kf, kt))
    def new_slice(self, st, rope, et, nil=False):
        return Slice(self.alloc(st, rope, 'b', ('elems', et)), (), 0, rlen(rope), nil, et)
    def op_makeslice(self, st, fr, blk, ins, stop, out):
        n = self.to64(self.val(st, fr, ins['len']), ins['lt']); c = self.to64(self.val(st, fr, ins['cap']), ins['ct'])
        et = self.p.ti(ins['t'])['elem']
        self.check(st, band(ule(n, c), ult(c, 1 << 44)), 'makeslice', ins, 'makeslice: length/capacity out of range')
        z = self.zero(et)
        L = c if not isz(c) and not isz(n) and c <= 4096 else n
        if not isz(L) and L <= 4096: rope = units([z] * L)
        else: rope = (R(z, L),)
        self.setr(fr, ins, Slice(self.alloc(st, rope, 'b', ('elems', et)), (), 0, n, False, et))
    def op_slice(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x'])
        lo = self.val(st, fr, ins['lo']) if ins['lo'] is not None else 0
        if ins['lo'] is not None: lo = self.to64(lo, ins['lot'])
        hi = self.val(st, fr, ins['hi']) if ins['hi'] is not None else None
        if hi is not None: hi = self.to64(hi, ins['hit'])
        if ins['max'] is not None: raise Unsupported('3-index slice')
        k = self.p.kind(ins['xt'])
        if k == 'string':
            n = rlen(x)
            if hi is None: hi = n
            self.check(st, band(ule(lo, hi), ule(hi, n)), 'slice', ins, 'slice bounds out of range')
            return self.setr(fr, ins, self.rope_slice(st, x, lo, hi))
        if k == 'slice':
            if hi is None:
                hi = x.ln
                self.check(st, ule(lo, hi), 'slice', ins, 'slice bounds out of range')
            else:
                cap = x.ln
                if x.ref is not None:
                    c = self.walk(st, self.content(st, x.ref), x.path)
                    cap = sub(rlen(c), x.off)
                self.check(st, band(ule(lo, hi), ule(hi, cap)), 'slice', ins, 'slice bounds out of range')
            return self.setr(fr, ins, Slice(x.ref, x.path, add(x.off, lo), sub(hi, lo), x.nil, x.et))
        # pointer to array
        self.nilcheck(st, x, ins)
        at = self.p.ti(self.p.ti(ins['xt'])['elem'])
        n = at['len']
        if hi is None: hi = n
        self.check(st, band(ule(lo, hi), ule(hi, n)), 'slice', ins, 'slice bounds out of range')
        self.setr(fr, ins, Slice(x.ref, x.path, lo, sub(hi, lo), False, at['elem']))
    def op_range(self, st, fr, blk, ins, stop, out):
        x = self.val(st, fr, ins['x'])
        if self.p.kind(ins['xt']) == 'string':
            return self.setr(fr, ins, Ptr(self.alloc(st, Iter(x, 0), 'it', ('iter', None))))
        m = x
        return self.setr(fr, ins, Ptr(self.alloc(st, Iter(self.content(st, m.ref).items if m.ref else (), 0), 'it')))
    def op_next(self, st, fr, blk, ins, stop, out):
        p = self.val(st, fr, ins['x']); it = self.content(st, p.ref)
        if ins['isstr']:
            if self.decide(st, ult(it.pos, rlen(it.rope))):
                b = self.rope_at(st, it.rope, it.pos)
                if not self.decide(st, ult(b, 0x80, 8)):
                    # a multi-byte or invalid sequence: some rune, one to four bytes (over-approximation)
                    r = self.fresh_bv(st, 32, 'rune'); w = self.fresh_bv(st, W, 'runelen')
                    st.assume(z3.And(z3.UGE(r, 0x80), z3.ULE(r, 0x10ffff)))
                    st.assume(z3.And(z3.UGE(w, 1), z3.ULE(w, 4), zb(ule(w, sub(rlen(it.rope), it.pos)))))
                    self.set_content(st, p.ref, Iter(it.rope, add(it.pos, w)))
                    return self.setr(fr, ins, (True, it.pos, r))
                r = b if not isz(b) else simp(z3.ZeroExt(24, b))
                self.set_content(st, p.ref, Iter(it.rope, add(it.pos, 1)))
                return self.setr(fr, ins, (True, it.pos, r))
            return self.setr(fr, ins, (False, 0, 0))
        if it.pos < len(it.rope):
            k, v = it.rope[it.pos]
            self.set_content(st, p.ref, Iter(it.rope, it.pos + 1))
            return self.setr(fr, ins, (True, k, v))
        t = self.p.ti(ins['t'])['elems']
        self.setr(fr, ins, (False, self.zero(t[1]) if t[1] >= 0 else None, self.zero(t[2]) if t[2] >= 0 else None))
    def op_defer(self, st, fr, blk, ins, stop, out):
        raise Unsupported('defer')
    # ------------------------------------------------------------ calls
    def op_call(self, st, fr, blk, ins, stop, out):
        args = [self.val(st, fr, a) for a in ins['args']]
        if 'invoke' in ins:
            recv = self.val(st, fr, ins['recv'])
            h = self.intr.get('invoke:' + ins['invoke'])
            if h is None: raise Unsupported('interface call ' + ins['invoke'])
            return self.finish_call(st, fr, ins, h(self, st, ins, [recv] + args))
        name = ins.get('callee'); bind = ()
        if name is None or 'fn' in ins:
            f = self.val(st, fr, ins['fn'])
            if not isinstance(f, Func) or f.name is None: raise Unsupported('dynamic call')
            name, bind = f.name, f.bind
        return self.call(st, fr, ins, name, args, bind)
    def call(self, st, fr, ins, name, args, bind=()):
        if name not in self.contracts_off():
            c = self.contracts.get(name)
            if c is not None and (not fr.lemma or fr.lemma == 'c' or name in self.contracts['!every']):
                if callable(c): return self.finish_call(st, fr, ins, c(self, st, ins, args))
                self.used.add('contract:' + name)
                name = c
        h = self.intr.get(name)
        if h is None:
            short = name.rsplit('.', 1)[-1]
            h = self.intr.get('ghost:' + short) if short.startswith('v') else None
        if h is not None: return self.finish_call(st, fr, ins, h(self, st, ins, args))
        f = self.p.fns.get(name)
        if f is None: raise Unsupported('no model for ' + name)
        self.push(st, f, args, ins.get('r'), bind)
        return None
    def contracts_off(self): return ()
    def finish_call(self, st, fr, ins, v):
        if 'r' in ins: fr.regs[ins['r']] = v
        fr.ip += 1
        return None
