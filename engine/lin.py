"""Bit-level linear (GF(2)) normal forms, used by lemmas with the option summ=...,lin.

A scalar is a tuple of bits, each an XOR of atoms (bits of terms the code did not compute with the operations below) and
a constant, kept as an int mask.  Operations whose result is again linear are computed on these forms exactly; the result
is a constant, a part of an input term, or a named term `lin!k` identified by its form, so two computations of the same
linear function yield the same term.  To the solver a named term is an unconstrained constant (an over-approximation)."""
import z3
from val import isz, simp, mask

class Lin:
    def __init__(self):
        self.atoms = {}; self.rev = [None]; self.forms = {}; self.names = {}; self.keep = []
    def atom(self, t, b):
        k = (t.get_id(), b)
        n = self.atoms.get(k)
        if n is None:
            n = self.atoms[k] = len(self.rev)
            self.rev.append((t, b))
        return 1 << n
    def form(self, t, w):
        if not isz(t): return tuple((t >> i) & 1 for i in range(w))
        if not z3.is_bv(t): return None
        f = self.forms.get(t.get_id())
        if f is not None: return f
        k = t.decl().kind()
        if k == z3.Z3_OP_CONCAT:
            r = ()
            for c in reversed(t.children()): r += self.form(c, c.size())
        elif k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            c = t.arg(0); r = self.form(c, c.size())[lo:hi + 1]
        elif k == z3.Z3_OP_ZERO_EXT:
            c = t.arg(0); r = self.form(c, c.size()) + (0,) * (t.size() - c.size())
        elif k == z3.Z3_OP_SIGN_EXT:
            c = t.arg(0); r = self.form(c, c.size()); r += (r[-1],) * (t.size() - c.size())
        elif z3.is_bv_value(t):
            v = t.as_long(); r = tuple((v >> i) & 1 for i in range(t.size()))
        else:
            r = tuple(self.atom(t, i) for i in range(t.size()))
        self.keep.append(t)
        self.forms[t.get_id()] = r
        return r
    def mk(self, bits):
        w = len(bits)
        if all(b < 2 for b in bits): return sum(b << i for i, b in enumerate(bits))
        t = self.names.get(bits)
        if t is not None: return t
        t = self.plain(bits)
        if t is None:
            n = w
            while bits[n - 1] == 0: n -= 1
            if n < w: t = simp(z3.ZeroExt(w - n, self.mk(bits[:n])))
        if t is None:
            t = z3.BitVec('lin!%d_%d' % (len(self.names), w), w)
            self.forms[t.get_id()] = bits
        self.names[bits] = t; self.keep.append(t)
        return t
    def simple(self, bits):
        return all(b < 2 or not b & (b - 1) for b in bits)
    def plain(self, bits):
        """rearranged bits of input terms and constants: an ordinary term"""
        if not self.simple(bits): return None
        parts = []; i = 0; n = len(bits)
        while i < n:
            b = bits[i]; k = i + 1
            if b < 2:
                while k < n and bits[k] < 2: k += 1
                parts.append(z3.BitVecVal(sum(v << q for q, v in enumerate(bits[i:k])), k - i))
            else:
                t, j = self.rev[b.bit_length() - 1]
                while k < n and bits[k] > 1:
                    t2, j2 = self.rev[bits[k].bit_length() - 1]
                    if not t2.eq(t) or j2 != j + k - i: break
                    k += 1
                parts.append(t if j == 0 and k - i == t.size() else z3.Extract(j + k - i - 1, j, t))
            i = k
        parts.reverse()
        return simp(z3.Concat(*parts) if len(parts) > 1 else parts[0])
    def op(self, o, x, y, w, signed):
        """None when the result is not linear"""
        if o in ('<<', '>>'):
            if isz(y): return None
            f = self.form(x, w)
            if o == '<<': return self.mk(((0,) * min(y, w) + f)[:w])
            top = f[-1] if signed else 0
            return self.mk((f[y:] if y < w else ()) + (top,) * min(y, w))
        a, b = self.form(x, w), self.form(y, w)
        if o == '^': return self.mk(tuple(p ^ q for p, q in zip(a, b)))
        if o == '&^': b = tuple(q ^ 1 for q in b); o = '&'
        out = []
        for p, q in zip(a, b):
            if o == '|' and (p | q) not in (0, 1) or o == '&':
                if q < 2: p, q = q, p
                if p < 2:
                    if o == '&': out.append(q if p else 0)
                    else: out.append(1 if p else q)
                elif p == q: out.append(p)
                else: return None
            else: out.append(p | q)
        return self.mk(tuple(out))
    def conv(self, x, wf, sf, wt):
        f = self.form(x, wf)
        if wt <= wf: return self.mk(f[:wt])
        return self.mk(f + ((f[-1] if sf else 0),) * (wt - wf))
    def eq(self, x, y, w):
        a, b = self.form(x, w), self.form(y, w)
        if a is None or b is None: return None
        if self.simple(a) and self.simple(b): return None
        d = [p ^ q for p, q in zip(a, b)]
        if not any(d): return True
        if any(v == 1 for v in d): return False
        d = self.mk(tuple(sorted(set(d) - {0})))
        return simp(d == z3.BitVecVal(0, d.size()))
    def cond(self, c):
        """the bit a boolean term stands for, or None"""
        if not isz(c): return int(bool(c))
        if z3.is_not(c):
            b = self.cond(c.arg(0))
            return None if b is None else b ^ 1
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            w = c.arg(0).size()
            d = [p ^ q for p, q in zip(self.form(c.arg(0), w), self.form(c.arg(1), w))]
            if 1 in d: return 0
            d = set(v for v in d if v)
            if not d: return 1
            if len(d) == 1: return d.pop() ^ 1
        return None
    def ite(self, cb, x, y, w):
        a, b = self.form(x, w), self.form(y, w)
        if a is None or b is None: return None
        out = []
        for p, q in zip(a, b):
            d = p ^ q
            if d == 0: out.append(p)
            elif d == 1: out.append(q ^ cb)
            else: return None
        return self.mk(tuple(out))
