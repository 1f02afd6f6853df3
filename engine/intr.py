"""Models of the Go builtins, the standard library and the crypto dependency used by the code under contract.
Everything here is part of the trusted base; hash functions, signatures and curve points are uninterpreted."""
import z3, hashlib
from val import *
import ex
from ex import PathEnd

I = {}
def reg(*names):
    def d(f):
        for n in names: I[n] = f
        return f
    return d

B8 = ('bv', 8)
SK = z3.BitVecSort(W)

def bytes_et(eng):
    return eng.p.tbystr.get('byte', eng.p.tbystr.get('uint8'))

def bsl(eng, st, rope, nil=False):
    return eng.new_slice(st, rope, bytes_et(eng), nil)

def nilslice(eng): return Slice(None, (), 0, 0, True, bytes_et(eng))

def rope_of(eng, st, v):
    return v if isinstance(v, tuple) else eng.slice_rope(st, v)

def err(eng, msg=''):
    return Iface(False, None, 'err!%d' % eng.fid())
NOERR = Iface(True)

# ---------------------------------------------------------------- builtins
def b_len(eng, st, ins, a):
    v = a[0]
    if isinstance(v, Slice): return v.ln
    if isinstance(v, tuple): return rlen(v)
    if isinstance(v, MapRef): return len(eng.content(st, v.ref).items) if v.ref else 0
    raise Unsupported('len')
def b_cap(eng, st, ins, a):
    v = a[0]
    if v.ref is None: return 0
    n = sub(rlen(eng.walk(st, eng.content(st, v.ref), v.path)), v.off)
    u = eng.fresh_bv(st, W, 'cap'); st.assume(z3.UGE(u, bv(n, W)))
    return u
def b_append(eng, st, ins, a):
    x, y = a[0], a[1]
    et = x.et if isinstance(x, Slice) and x.et is not None else None
    if et is None: et = eng.p.ti(ins['t'])['elem']
    yr = rope_of(eng, st, y)
    yl = rlen(yr) if isinstance(y, tuple) else y.ln
    if not isz(yl) and yl == 0: return x
    if x.ref is None:
        nl = eq(yl, 0)
        return eng.new_slice(st, yr, et, nl)
    c = eng.walk(st, eng.content(st, x.ref), x.path)
    L = rlen(c); end = add(x.off, x.ln)
    atend = eq(end, L)
    if not (not isz(atend) and atend):
        # spare elements behind the slice: Go overwrites them when the result fits
        if not eng.decide(st, atend):
            fits = ule(add(end, yl), L)
            if eng.decide(st, fits):
                pre, rest = eng.rope_split(st, c, end)
                _, post = eng.rope_split(st, rest, yl)
                eng.store(st, Ptr(x.ref, x.path), cat(pre, yr, post))
                return Slice(x.ref, x.path, x.off, add(x.ln, yl), False, et)
    xr = eng.rope_slice(st, c, x.off, end)
    r = cat(xr, yr) if not any(isinstance(g, S) and ('acc' in g.b.name or g.b.name.endswith('ph')) for g in xr) else tuple(xr) + tuple(yr)
    nil = band(x.nil, eq(yl, 0)) if x.nil is not False else False
    return Slice(eng.alloc(st, r, 'b', ('elems', et)), (), 0, add(x.ln, yl), nil, et)
def b_copy(eng, st, ins, a):
    d, s = a
    sr = rope_of(eng, st, s); sl = rlen(sr) if isinstance(s, tuple) else s.ln
    if d.ref is None: return 0
    n = ite(slt(sl, d.ln), sl, d.ln)
    k = eng.const_of(st, n) if isz(n) else n
    if k is None:
        if eng.decide(st, sle(sl, d.ln)): n = sl
        else: n = d.ln
    else: n = k
    c = eng.walk(st, eng.content(st, d.ref), d.path)
    part, _ = eng.rope_split(st, sr, n)
    pre, rest = eng.rope_split(st, c, d.off)
    _, post = eng.rope_split(st, rest, n)
    eng.store(st, Ptr(d.ref, d.path), cat(pre, part, post))
    return n
I['builtin:len'] = b_len; I['builtin:cap'] = b_cap; I['builtin:append'] = b_append; I['builtin:copy'] = b_copy
@reg('builtin:ssa:wrapnilchk')
def _(eng, st, ins, a):
    eng.nilcheck(st, a[0], ins); return a[0]
@reg('builtin:print', 'builtin:println', 'fmt.Println', 'fmt.Printf', 'fmt.Print')
def _(eng, st, ins, a): return (0, NOERR)
@reg('builtin:delete')
def _(eng, st, ins, a): raise Unsupported('delete')
@reg('builtin:min')
def _(eng, st, ins, a):
    w, s = eng.p.intinfo(ins['t']); r = a[0]
    for x in a[1:]: r = ite((slt if s else ult)(x, r, w), x, r, w)
    return r
@reg('builtin:max')
def _(eng, st, ins, a):
    w, s = eng.p.intinfo(ins['t']); r = a[0]
    for x in a[1:]: r = ite((slt if s else ult)(r, x, w), x, r, w)
    return r

# ---------------------------------------------------------------- errors / fmt
@reg('errors.New', 'github.com/pkg/errors.New', 'fmt.Errorf', 'github.com/pkg/errors.Errorf', 'github.com/pkg/errors.Wrap')
def _(eng, st, ins, a): return err(eng)
@reg('invoke:Error')
def _(eng, st, ins, a):
    eng.check(st, bnot(a[0].nil), 'nil-dereference', ins, 'method call on nil interface')
    ln = eng.fresh_bv(st, W, 'errlen'); st.assume(z3.ULT(ln, 1 << 20))
    return (S(eng.fresh_base(st, B8, ln, 'errtext'), 0, ln),)
@reg('fmt.Sprintf', 'fmt.Sprint')
def _(eng, st, ins, a):
    if isinstance(a[0], tuple) and is_conc(a[0]) and conc(a[0]) == b'%c' and len(a) > 1 and eng.const_of(st, a[1].ln) == 1:
        v = eng.rope_at(st, eng.slice_rope(st, a[1]), 0)
        if isinstance(v, Iface) and v.dyn and eng.p.kind(v.dyn[0]) == 'int' and eng.p.intinfo(v.dyn[0])[0] == 8:
            c = v.dyn[1]
            if eng.decide(st, ult(c, 128, 8)): return units([c])
            c = bv(c, 8)
            return units([simp(z3.LShR(c, 6) | 0xc0), simp(c & 0x3f | 0x80)])
    ln = eng.fresh_bv(st, W, 'sprlen'); st.assume(z3.ULT(ln, 1 << 40))
    return (S(eng.fresh_base(st, B8, ln, 'sprintf'), 0, ln),)

# ---------------------------------------------------------------- hex
def ishexc(b): return all(c in b'0123456789abcdefABCDEF' for c in b)
@reg('encoding/hex.EncodeToString')
def _(eng, st, ins, a):
    return hexenc(eng, st, eng.slice_rope(st, a[0]))
def hexenc(eng, st, r):
    if not r: return ()
    return eng.hexenc_rope(st, r)
def undo_hex(eng, st, r):
    """rope of raw bytes when r is text made of hexenc pieces and constant hex text, else None"""
    out = []
    for g in r:
        if isinstance(g, S) and isinstance(g.b, App) and g.b.f == 'hexenc':
            if eng.whole(g): out.extend(g.b.ropes[0]); continue
            o, l = g.off, g.ln
            if (isz(o) or o % 2 == 0) and (isz(l) or l % 2 == 0) and even(eng, st, o) and even(eng, st, l):
                h = lambda t: t // 2 if not isz(t) else simp(z3.LShR(t, 1))
                out.extend(eng.rope_slice(st, g.b.ropes[0], h(o), add(h(o), h(l)))); continue
            if not isz(o) and not isz(l) and l % 2 == 0 and l <= 256:
                # text starting at the second digit of a byte: bytes recombined from neighbouring nibbles
                v = [bv(eng.rope_at(st, g.b.ropes[0], o // 2 + k), 8) for k in range(l // 2 + 1)]
                out.append(U([simp(z3.Concat(z3.Extract(3, 0, x), z3.Extract(7, 4, y))) for x, y in zip(v, v[1:])])); continue
            return None
        if isinstance(g, U) and all(isinstance(x, int) for x in g.v) and len(g.v) % 2 == 0 and ishexc(bytes(g.v)):
            out.extend(cbytes(bytes.fromhex(bytes(g.v).decode()))); continue
        return None
    return norm(out)
def even(eng, st, t):
    if not isz(t): return t % 2 == 0
    return eng.must(st, eq(simp(z3.Extract(0, 0, t)), 0))
@reg('encoding/hex.DecodeString')
def _(eng, st, ins, a):
    r = a[0]
    u = undo_hex(eng, st, r)
    if u is not None: return (bsl(eng, st, u), NOERR)
    if is_conc(r):
        t = conc(r)
        n = 0
        while n + 1 < len(t) and ishexc(t[n:n + 2]): n += 2
        return (bsl(eng, st, cbytes(bytes.fromhex(t[:n].decode()))), err(eng))
    n = rlen(r)
    ok = ufapp('ishex', [r], (), z3.BoolSort())
    if eng.decide(st, ok):
        st.assume(zb(eq(simp(z3.Extract(0, 0, bv(n, W))), 0)))
        if not eng.feasible(st): raise PathEnd()
        ln = simp(z3.LShR(bv(n, W), 1))
        return (bsl(eng, st, norm([S(App('unhex', [r], (), ln, B8), 0, ln)])), NOERR)
    ln = eng.fresh_bv(st, W, 'badhexlen'); st.assume(z3.ULE(ln, z3.LShR(bv(n, W), 1)))
    return (bsl(eng, st, (S(eng.fresh_base(st, B8, ln, 'badhex'), 0, ln),)), err(eng))

# ---------------------------------------------------------------- hashes
SHA1, SHA3, SHA256, SHA512, MD4, MD5, RIPE, B2B, B2S, SM3, DSHA, H160, BL256, BL512, KEC, KECR, SHA3R, KEC512, SHA3512 = range(0xA0000000, 0xA0000013)
HN = {SHA1: ('sha1', 20), SHA3: ('sha3-256', 32), SHA256: ('sha256', 32), SHA512: ('sha512', 64), MD4: ('md4', 16), MD5: ('md5', 16), RIPE: ('ripemd160', 20),
      SM3: ('sm3', 32), BL256: ('blake256', 32), BL512: ('blake512', 64), KEC: ('keccak256', 32), KEC512: ('keccak512', 64), SHA3512: ('sha3-512', 64)}
def happ(eng, st, name, ln, rope):
    return (S(App(name, [same_call(eng, st, 'h:' + name, *ufname(name, [rope], ()), [rope], ())[2][0]], (), ln, B8), 0, ln),)
@reg('github.com/blocktree/go-owcrypt.Hash')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[0])
    alg = eng.const_of(st, a[2]) if isz(a[2]) else a[2]
    if alg is None:
        for h in list(HN) + [DSHA, H160, KECR, SHA3R]:
            if eng.decide(st, eq(a[2], h)): alg = h; break
        else: raise Unsupported('symbolic hash algorithm')
    if alg in HN: return bsl(eng, st, happ(eng, st, HN[alg][0], HN[alg][1], r))
    if alg == DSHA: return bsl(eng, st, happ(eng, st, 'sha256', 32, happ(eng, st, 'sha256', 32, r)))
    if alg == H160: return bsl(eng, st, happ(eng, st, 'ripemd160', 20, happ(eng, st, 'sha256', 32, r)))
    if alg == KECR: return bsl(eng, st, happ(eng, st, 'ripemd160', 20, happ(eng, st, 'keccak256', 32, r)))
    if alg == SHA3R: return bsl(eng, st, happ(eng, st, 'ripemd160', 20, happ(eng, st, 'sha3-256', 32, r)))
    if alg in (B2B, B2S):
        n = eng.const_of(st, a[1]) if isz(a[1]) else a[1]
        if n is None:
            for c in (32, 20, 64, 4):
                if eng.decide(st, eq(a[1], c)): n = c; break
        if n is None or n < 1 or n > 64: raise Unsupported('blake2 length')
        return bsl(eng, st, happ(eng, st, 'blake2b-%d' % n if alg == B2B else 'blake2s-%d' % n, n, r))
    return nilslice(eng)
def hmac_rope(eng, st, kind, key, data):
    n = 64 if kind == 'sha512' else 32
    return (S(App('hmac-' + kind, [key, data], (), n, B8), 0, n),)
@reg('github.com/blocktree/go-owcrypt.Hmac')
def _(eng, st, ins, a):
    k = {0x50505050: 'sha256', 0x50505051: 'sha512', 0x50505052: 'sm3'}.get(a[2])
    if k is None: raise Unsupported('hmac alg')
    return bsl(eng, st, hmac_rope(eng, st, k, eng.slice_rope(st, a[0]), eng.slice_rope(st, a[1])))
def newhash(kind, key=None):
    def f(eng, st, ins, a):
        ref = eng.alloc(st, HashC(kind, (), ()), 'h', ('hash', None))
        return Iface(False, ('hash', Ptr(ref)), None)
    return f
I['crypto/sha256.New'] = newhash('sha256'); I['crypto/sha512.New'] = newhash('sha512')
@reg('crypto/sha256.Sum256')
def _(eng, st, ins, a): return eng.expand(st, happ(eng, st, 'sha256', 32, eng.slice_rope(st, a[0])))
@reg('crypto/hmac.New')
def _(eng, st, ins, a):
    k = {'crypto/sha512.New': 'hmac-sha512', 'crypto/sha256.New': 'hmac-sha256'}.get(a[0].name)
    if k is None: raise Unsupported('hmac.New')
    ref = eng.alloc(st, HashC(k, eng.slice_rope(st, a[1]), ()), 'h', ('hash', None))
    return Iface(False, ('hash', Ptr(ref)), None)
@reg('invoke:Write')
def _(eng, st, ins, a):
    if not a[0].dyn or a[0].dyn[0] != 'hash': raise Unsupported('Write on non-hash')
    p = a[0].dyn[1]; h = eng.content(st, p.ref); r = eng.slice_rope(st, a[1])
    eng.set_content(st, p.ref, HashC(h.kind, h.key, tuple(h.data) + tuple(r) if any(isinstance(g, S) and ('acc' in g.b.name or g.b.name.endswith('ph')) for g in h.data) else cat(h.data, r)))
    return (rlen(r), NOERR)
@reg('invoke:Sum')
def _(eng, st, ins, a):
    if not a[0].dyn or a[0].dyn[0] != 'hash': raise Unsupported('Sum on non-hash')
    h = eng.content(st, a[0].dyn[1].ref)
    pre = eng.slice_rope(st, a[1])
    if h.kind.startswith('hmac-'): r = hmac_rope(eng, st, h.kind[5:], h.key, h.data)
    else: r = happ(eng, st, h.kind, {'sha256': 32, 'sha512': 64}[h.kind], h.data)
    return bsl(eng, st, cat(pre, r))
@reg('invoke:Reset')
def _(eng, st, ins, a):
    p = a[0].dyn[1]; h = eng.content(st, p.ref); eng.set_content(st, p.ref, HashC(h.kind, h.key, ())); return None

# ---------------------------------------------------------------- curve operations (uninterpreted)
K1, R1, SM2, EDN, ED, X25, C25S = range(0xECC00000, 0xECC00007)
CV = {K1: 'secp256k1', R1: 'secp256r1', SM2: 'sm2', EDN: 'ed25519n', ED: 'ed25519', X25: 'x25519', C25S: 'c25519s'}
OW = 'github.com/blocktree/go-owcrypt.'
def curve(eng, st, t):
    if isz(t):
        for c in CV:
            if eng.decide(st, eq(t, c)): return c
        return None
    return t if t in CV else None
@reg(OW + 'Verify')
def _(eng, st, ins, a):
    c = curve(eng, st, a[4])
    if c is None: return 0xE002
    pub, msg, sig = (eng.slice_rope(st, a[i]) for i in (0, 2, 3))
    ok = verify_term(eng, st, CV[c], pub, msg, sig)
    return simp(z3.If(ok, z3.BitVecVal(1, 16), z3.BitVecVal(0, 16)))
def verify_term(eng, st, cn, pub, msg, sig):
    ok = ufapp('verify:' + cn, [pub, msg, sig], (), z3.BoolSort())
    n = 64 if cn in ('secp256k1', 'secp256r1', 'sm2') else 32
    st.assume(z3.Implies(ok, z3.And(zb(eq(rlen(pub), n)), zb(eq(rlen(sig), 64)))))
    if n == 64: st.assume(z3.Implies(ok, zb(eq(rlen(msg), 32))))
    st.tr.append(('verify', cn, pub, msg, sig, ok))
    return ok
@reg(OW + 'Signature')
def _(eng, st, ins, a):
    c = curve(eng, st, a[3])
    if c is None: return (nilslice(eng), 0, 0xE002)
    pri, msg = eng.slice_rope(st, a[0]), eng.slice_rope(st, a[2])
    k = 'sign!%d' % len(st.tr)       # not a function of its arguments (random nonce): one symbol per call on the path
    ok = uf(k + '.ok', st.ctx, z3.BoolSort())
    if c in (K1, R1, SM2): st.assume(z3.Implies(ok, z3.And(zb(eq(rlen(pri), 32)), zb(eq(rlen(msg), 32)))))
    if c in (ED, X25): st.assume(z3.Implies(ok, zb(eq(rlen(pri), 32))))
    if eng.decide(st, ok):
        v = uf(k + '.v', st.ctx, z3.BitVecSort(8)); st.assume(z3.ULT(v, 4))
        b = Base(k, st.ctx, 64, B8)
        r = (S(b, 0, 64),)
        st.tr.append(('sign', CV[c], pri, msg, r))
        return (bsl(eng, st, r), v, 1)
    st.tr.append(('nosign',))
    return (nilslice(eng), 0, 0xE000)
@reg(OW + 'GenPubkey')
def _(eng, st, ins, a):
    c = curve(eng, st, a[1])
    if c is None: return (nilslice(eng), 0xE002)
    pri = eng.slice_rope(st, a[0])
    ok = ufapp('genpubok:' + CV[c], [pri], (), z3.BoolSort())
    n = 64 if c in (K1, R1, SM2) else 32
    if n == 64: st.assume(z3.Implies(ok, zb(eq(rlen(pri), 32))))
    if eng.decide(st, ok):
        return (bsl(eng, st, (S(App('genpub:' + CV[c], [pri], (), n, B8), 0, n),)), 1)
    return (nilslice(eng), 0xE000)
def compress(eng, st, r, nil=False):
    n = rlen(r)
    if eng.decide(st, eq(n, 65)):
        if not eng.decide(st, eq(eng.rope_at(st, r, 0), 4)): return None
        r = eng.rope_slice(st, r, 1, 65)
    elif not eng.decide(st, eq(n, 64)): return None
    last = eng.rope_at(st, r, 63)
    p = add(2, last & 1 if not isz(last) else simp(last & 1), 8)
    return cat(units([p]), eng.rope_slice(st, r, 0, 32))
@reg(OW + 'PointCompress')
def _(eng, st, ins, a):
    c = curve(eng, st, a[1])
    if c not in (K1, R1, SM2): return nilslice(eng)
    x = compress(eng, st, eng.slice_rope(st, a[0]))
    return nilslice(eng) if x is None else bsl(eng, st, x)
@reg(OW + 'PointDecompress')
def _(eng, st, ins, a):
    c = curve(eng, st, a[1])
    r = eng.slice_rope(st, a[0])
    if c not in (K1, R1, SM2) or not eng.decide(st, eq(rlen(r), 33)): return nilslice(eng)
    ok = ufapp('oncurve:' + CV[c], [r], (), z3.BoolSort())
    f = eng.rope_at(st, r, 0)
    st.assume(z3.Implies(ok, zb(bor(eq(f, 2), eq(f, 3)))))
    if not eng.decide(st, ok): return nilslice(eng)
    y = (S(App('decompY:' + CV[c], [r], (), 32, B8), 0, 32),)
    return bsl(eng, st, cat(units([4]), eng.rope_slice(st, r, 1, 33), y))
@reg(OW + 'Point_mulBaseG')
def _(eng, st, ins, a):
    c = curve(eng, st, a[1]); r = eng.slice_rope(st, a[0])
    if c is None or not eng.decide(st, eq(rlen(r), 32)): return nilslice(eng)
    ok = ufapp('genpubok:' + CV[c], [r], (), z3.BoolSort())
    if not eng.decide(st, ok): return nilslice(eng)
    n = 64 if c in (K1, R1, SM2) else 32
    p = (S(App('genpub:' + CV[c], [r], (), n, B8), 0, n),)
    return bsl(eng, st, compress(eng, st, p) if n == 64 else p)
@reg(OW + 'Point_mulBaseG_add')
def _(eng, st, ins, a):
    c = curve(eng, st, a[2]); p = eng.slice_rope(st, a[0]); r = eng.slice_rope(st, a[1])
    if c is None or not eng.decide(st, eq(rlen(r), 32)): return (nilslice(eng), False)
    inf = ufapp('muladdinf:' + CV[c], [p, r], (), z3.BoolSort())
    if eng.decide(st, inf): return (nilslice(eng), True)
    if c in (K1, R1, SM2):
        if not eng.decide(st, ufapp('muladdok:' + CV[c], [p, r], (), z3.BoolSort())): return (nilslice(eng), False)
        n = 64
    else: n = 32
    return (bsl(eng, st, (S(App('muladd:' + CV[c], [p, r], (), n, B8), 0, n),)), False)
@reg(OW + 'RecoverPubkey')
def _(eng, st, ins, a):
    c = curve(eng, st, a[2]); s = eng.slice_rope(st, a[0]); m = eng.slice_rope(st, a[1])
    if c is None: return (nilslice(eng), 0xE002)
    if not eng.decide(st, band(eq(rlen(s), 65), eq(rlen(m), 32))): return (nilslice(eng), 0)
    r = simp(z3.Concat(*[bv(eng.rope_at(st, s, i), 8) for i in range(32)]))
    eng.check(st, band(bnot(eq(r, 0, 256)), bnot(eq(r, ORD[c], 256))), 'nil-dereference', ins, 'RecoverPubkey with an r that has no inverse')
    if eng.decide(st, ufapp('recok:' + CV[c], [s, m], (), z3.BoolSort())):
        return (bsl(eng, st, (S(App('recover:' + CV[c], [s, m], (), 64, B8), 0, 64),)), 1)
    return (nilslice(eng), 0)
ORD = {K1: 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, R1: 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
       SM2: 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123}
@reg(OW + 'GetCurveOrder')
def _(eng, st, ins, a):
    c = curve(eng, st, a[0])
    if c not in ORD: raise Unsupported('curve order')
    return bsl(eng, st, cbytes(ORD[c].to_bytes(32, 'big')))
@reg(OW + 'CURVE25519_convert_Ed_to_X')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[0])
    if not eng.decide(st, eq(rlen(r), 32)): return (nilslice(eng), err(eng))
    if not eng.decide(st, ufapp('ed2xok', [r], (), z3.BoolSort())): return (nilslice(eng), err(eng))
    return (bsl(eng, st, (S(App('ed2x', [r], (), 32, B8), 0, 32),)), NOERR)

# ---------------------------------------------------------------- encoding/binary
def putn(nb, be):
    def f(eng, st, ins, a):
        b, v = a[1], a[2]
        eng.check(st, ule(nb, b.ln), 'index', ins, 'PutUint%d: buffer too short' % (nb * 8))
        if b.ref is None: raise PathEnd()
        w = nb * 8
        bs = [(v >> (8 * i)) & 255 if not isz(v) else simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(nb)]
        if be: bs.reverse()
        c = eng.walk(st, eng.content(st, b.ref), b.path)
        pre, rest = eng.rope_split(st, c, b.off)
        _, post = eng.rope_split(st, rest, nb)
        eng.store(st, Ptr(b.ref, b.path), cat(pre, units(bs), post))
        return None
    return f
def catbytes(bs):
    """big-endian list of bytes -> value"""
    if all(not isz(b) for b in bs):
        v = 0
        for b in bs: v = v << 8 | b
        return v
    return simp(z3.Concat(*[bv(b, 8) for b in bs])) if len(bs) > 1 else bs[0]
def getn(nb, be):
    def f(eng, st, ins, a):
        b = a[1]
        eng.check(st, ule(nb, b.ln), 'index', ins, 'Uint%d: buffer too short' % (nb * 8))
        if b.ref is None: raise PathEnd()
        r = eng.slice_rope(st, Slice(b.ref, b.path, b.off, nb, False, b.et))
        bs = [eng.rope_at(st, r, i) for i in range(nb)]
        if not be: bs.reverse()
        return catbytes(bs)
    return f
def appn(nb, be):
    def f(eng, st, ins, a):
        v = a[2]
        bs = [(v >> (8 * i)) & 255 if not isz(v) else simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(nb)]
        if be: bs.reverse()
        return b_append(eng, st, ins, [a[1], bsl(eng, st, units(bs))])
    return f
for nb in (2, 4, 8):
    for nm, be in (('littleEndian', False), ('bigEndian', True)):
        I['(encoding/binary.%s).PutUint%d' % (nm, nb * 8)] = putn(nb, be)
        I['(encoding/binary.%s).Uint%d' % (nm, nb * 8)] = getn(nb, be)
        I['(encoding/binary.%s).AppendUint%d' % (nm, nb * 8)] = appn(nb, be)
@reg('encoding/binary.PutUvarint')
def _(eng, st, ins, a):
    b, v = a
    bs = []; x = v; n = 0
    while True:
        n += 1
        if n == 10 or eng.decide(st, ult(x, 0x80, 64)):
            bs.append(x & 255 if not isz(x) else simp(z3.Extract(7, 0, x))); break
        bs.append((x & 0x7f) | 0x80 if not isz(x) else simp(z3.Concat(z3.BitVecVal(1, 1), z3.Extract(6, 0, x))))
        x = x >> 7 if not isz(x) else simp(z3.LShR(x, 7))
    eng.check(st, ule(n, b.ln), 'index', ins, 'PutUvarint: buffer too short')
    c = eng.walk(st, eng.content(st, b.ref), b.path)
    pre, rest = eng.rope_split(st, c, b.off)
    _, post = eng.rope_split(st, rest, n)
    eng.store(st, Ptr(b.ref, b.path), cat(pre, units(bs), post))
    return n
@reg('encoding/binary.Uvarint')
def _(eng, st, ins, a):
    b = a[0]
    v = 0
    for i in range(11):
        if not eng.decide(st, ult(i, b.ln)): return (0, 0)
        if i == 10: return (0, mask(-11, 64))
        x = eng.rope_at(st, eng.slice_rope(st, b), i)
        if eng.decide(st, ult(x, 0x80, 8)):
            if i == 9 and eng.decide(st, ult(1, x, 8)): return (0, mask(-10, 64))
            xe = simp(z3.ZeroExt(56, x)) if isz(x) else x
            t = simp(bv(v, 64) | (bv(xe, 64) << (7 * i)))
            return (t, i + 1)
        xe = simp(z3.ZeroExt(57, z3.Extract(6, 0, x))) if isz(x) else x & 0x7f
        v = simp(bv(v, 64) | (bv(xe, 64) << (7 * i)))
    return (0, mask(-11, 64))

# ---------------------------------------------------------------- math/big
BW = 640
def big(eng, st, p, ins=None):
    if ins is not None: eng.nilcheck(st, p, ins)
    return eng.content(st, p.ref)
def setbig(eng, st, p, v, bits, neg=False):
    c = BigC(v if isz(v) else v, bits, neg)
    if p.path: eng.store(st, p, c)
    else: eng.set_content(st, p.ref, c)
    return p
def bigv(eng, st, p, ins):
    eng.nilcheck(st, p, ins)
    return eng.load(st, p)
def newbig(eng, st, v, bits, neg=False):
    return Ptr(eng.alloc(st, BigC(v, bits, neg), 'big', ('big', None)))
def bt(c): return bv(c.v if isz(c.v) else mask(c.v, BW), BW)
def fold(v):
    v = simp(v)
    return v if isz(v) else sgn(v, BW)
@reg('math/big.NewInt')
def _(eng, st, ins, a):
    v = a[0]
    if not isz(v): return newbig(eng, st, sgn(v, 64), 64, sgn(v, 64) < 0)
    return newbig(eng, st, fold(z3.SignExt(BW - 64, v)), 64, not eng.must(st, sle(0, v)))
BI = '(*math/big.Int).'
@reg(BI + 'SetBytes')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[1])
    u = eng.rope_units(st, r)
    if u is None:
        n = rlen(r)
        if not eng.must(st, ule(n, 66)): raise Unsupported('SetBytes of unbounded length')
        for k in range(67):
            if eng.decide(st, eq(n, k)): break
        u = eng.rope_units(st, r)
    if not u: return setbig(eng, st, a[0], 0, 0)
    while u and not isz(u[0]) and u[0] == 0: u = u[1:]
    if not u: return setbig(eng, st, a[0], 0, 0)
    v = catbytes(u)
    w = 8 * len(u)
    if w >= BW: raise Unsupported('big.Int too large')
    return setbig(eng, st, a[0], v if not isz(v) else simp(z3.ZeroExt(BW - w, v)), w)
@reg(BI + 'SetUint64')
def _(eng, st, ins, a): return setbig(eng, st, a[0], a[1] if not isz(a[1]) else simp(z3.ZeroExt(BW - 64, a[1])), 64)
@reg(BI + 'SetInt64')
def _(eng, st, ins, a): return setbig(eng, st, a[0], sgn(a[1], 64) if not isz(a[1]) else simp(z3.SignExt(BW - 64, a[1])), 64, True)
@reg(BI + 'Set')
def _(eng, st, ins, a):
    c = bigv(eng, st, a[1], ins); return setbig(eng, st, a[0], c.v, c.bits, c.neg)
@reg(BI + 'Cmp')
def _(eng, st, ins, a):
    x, y = bigv(eng, st, a[0], ins), bigv(eng, st, a[1], ins)
    if not isz(x.v) and not isz(y.v): return mask((x.v > y.v) - (x.v < y.v), 64)
    X, Y = bt(x), bt(y)
    if not x.neg and not y.neg: lt, e = z3.ULT(X, Y), X == Y
    else: lt, e = X < Y, X == Y
    return simp(z3.If(e, z3.BitVecVal(0, 64), z3.If(lt, z3.BitVecVal(-1, 64), z3.BitVecVal(1, 64))))
@reg(BI + 'Sign')
def _(eng, st, ins, a):
    x = bigv(eng, st, a[0], ins)
    if not isz(x.v): return mask((x.v > 0) - (x.v < 0), 64)
    X = bt(x)
    return simp(z3.If(X == 0, z3.BitVecVal(0, 64), z3.If(X < 0, z3.BitVecVal(-1, 64), z3.BitVecVal(1, 64))))
def arith(op):
    def f(eng, st, ins, a):
        x, y = bigv(eng, st, a[1], ins), bigv(eng, st, a[2], ins)
        if op == '*':
            bits = x.bits + y.bits
        else: bits = max(x.bits, y.bits) + 1
        if bits >= BW - 1: raise Unsupported('big.Int overflow of model width')
        if not isz(x.v) and not isz(y.v):
            v = {'+': x.v + y.v, '-': x.v - y.v, '*': x.v * y.v}[op]
            return setbig(eng, st, a[0], v, max(abs(v).bit_length(), 1), v < 0)
        X, Y = bt(x), bt(y)
        v = fold({'+': X + Y, '-': X - Y, '*': X * Y}[op] if op != '*' else X * Y)
        neg = x.neg or y.neg or op == '-'
        if neg and op == '-' and isz(v) and not x.neg and not y.neg:
            if eng.must(st, z3.UGE(X, Y)): neg = False
        return setbig(eng, st, a[0], v, bits, neg)
    return f
I[BI + 'Add'] = arith('+'); I[BI + 'Sub'] = arith('-'); I[BI + 'Mul'] = arith('*')
@reg(BI + 'Mod')
def _(eng, st, ins, a):
    x, y = bigv(eng, st, a[1], ins), bigv(eng, st, a[2], ins)
    eng.check(st, bnot(eq(bt(y), 0)) if isz(y.v) else y.v != 0, 'div-zero', ins, 'big.Int Mod by zero')
    if not isz(x.v) and not isz(y.v): return setbig(eng, st, a[0], x.v % abs(y.v), abs(y.v).bit_length())
    X, Y = bt(x), bt(y)
    if not x.neg and eng.must(st, z3.ULT(X, Y)): return setbig(eng, st, a[0], x.v, min(x.bits, y.bits))
    r = uf('bigmod', (X, Y), z3.BitVecSort(BW))
    st.assume(z3.ULT(r, Y))
    if not x.neg: st.assume(z3.Implies(z3.ULT(X, Y), r == X))
    if not isz(y.v) and not x.neg and x.bits <= y.v.bit_length() + 1:
        st.assume(z3.Implies(z3.And(z3.UGE(X, Y), z3.ULT(X, Y + Y)), r == X - Y))
    return setbig(eng, st, a[0], r, y.bits)
@reg(BI + 'Bytes')
def _(eng, st, ins, a):
    x = bigv(eng, st, a[0], ins)
    if not isz(x.v):
        n = (abs(x.v).bit_length() + 7) // 8
        return bsl(eng, st, cbytes(abs(x.v).to_bytes(n, 'big')))
    X = bt(x)
    if x.neg and not eng.must(st, X >= 0): X = simp(z3.If(X < 0, -X, X))
    nb = (x.bits + 7) // 8
    for k in range(nb, 0, -1):
        # is the value at least 256^(k-1)?
        hi = simp(z3.Extract(min(8 * nb, BW) - 1, 8 * (k - 1), X))
        if eng.decide(st, bnot(eq(hi, 0))):
            return bsl(eng, st, units([simp(z3.Extract(8 * i + 7, 8 * i, X)) for i in range(k - 1, -1, -1)]))
    return bsl(eng, st, ())
@reg(BI + 'BitLen')
def _(eng, st, ins, a):
    x = bigv(eng, st, a[0], ins)
    if not isz(x.v): return abs(x.v).bit_length()
    X = bt(x)
    if x.neg: X = simp(z3.If(X < 0, -X, X))
    r = z3.BitVecVal(0, 64)
    for i in range(x.bits): r = z3.If(z3.Extract(i, i, X) == 1, z3.BitVecVal(i + 1, 64), r)
    return simp(r)
@reg(BI + 'Uint64', BI + 'Int64')
def _(eng, st, ins, a):
    x = bigv(eng, st, a[0], ins)
    return mask(x.v, 64) if not isz(x.v) else simp(z3.Extract(63, 0, bt(x)))
@reg(BI + 'IsUint64')
def _(eng, st, ins, a):
    x = bigv(eng, st, a[0], ins)
    return 0 <= x.v < 1 << 64 if not isz(x.v) else simp(z3.Extract(BW - 1, 64, bt(x)) == 0)
@reg(BI + 'SetString')
def _(eng, st, ins, a):
    r = a[1]
    if is_conc(r) and not isz(a[2]):
        try: v = int(conc(r).decode(), a[2])
        except ValueError: return (Ptr(None, (), True), False)
        setbig(eng, st, a[0], v, max(1, abs(v).bit_length()), v < 0)
        return (a[0], True)
    ok = ufapp('bigstrok', [r], (a[2],), z3.BoolSort())
    if eng.decide(st, ok):
        v = ufapp('bigstr', [r], (a[2],), z3.BitVecSort(256))
        eng.assumed.add('big.Int text inputs denote values below 2^256')
        setbig(eng, st, a[0], simp(z3.ZeroExt(BW - 256, v)), 256)
        return (a[0], True)
    return (Ptr(None, (), True), False)
@reg(BI + 'String')
def _(eng, st, ins, a):
    x = bigv(eng, st, a[0], ins)
    if not isz(x.v): return cbytes(str(x.v).encode())
    ln = ufapp('bigtextlen', [], (x.v,), SK); st.assume(z3.ULT(ln, 400))
    return (S(App('bigtext', [], (x.v,), ln, B8), 0, ln),)

# ---------------------------------------------------------------- math/bits
def blen(v, w):
    if not isz(v): return v.bit_length()
    r = z3.BitVecVal(0, 64)
    for i in range(w): r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i + 1, 64), r)
    return simp(r)
def btz(v, w):
    if not isz(v): return (v & -v).bit_length() - 1 if v else w
    r = z3.BitVecVal(w, 64)
    for i in range(w - 1, -1, -1): r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, 64), r)
    return simp(r)
def bpop(v, w):
    if not isz(v): return bin(v).count('1')
    r = z3.BitVecVal(0, 64)
    for i in range(w): r = r + z3.ZeroExt(63, z3.Extract(i, i, v))
    return simp(r)
def brevb(v, w):
    if not isz(v): return int.from_bytes(v.to_bytes(w // 8, 'big'), 'little')
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
for _w, _s in ((8, '8'), (16, '16'), (32, '32'), (64, '64'), (64, '')):
    def _mk(w):
        return (lambda eng, st, ins, a: blen(a[0], w),
                lambda eng, st, ins, a: w - blen(a[0], w) if not isz(a[0]) else simp(z3.BitVecVal(w, 64) - blen(a[0], w)),
                lambda eng, st, ins, a: btz(a[0], w), lambda eng, st, ins, a: bpop(a[0], w),
                lambda eng, st, ins, a: brevb(a[0], w))
    _f = _mk(_w)
    I['math/bits.Len' + _s], I['math/bits.LeadingZeros' + _s], I['math/bits.TrailingZeros' + _s], I['math/bits.OnesCount' + _s] = _f[:4]
    if _w > 8: I['math/bits.ReverseBytes' + _s] = _f[4]
@reg(BI + 'FillBytes')
def _(eng, st, ins, a):
    d = I[BI + 'Bytes'](eng, st, ins, [a[0]])
    eng.check(st, ule(d.ln, a[1].ln), 'index', ins, 'FillBytes: buffer too small')
    n = eng.const_of(st, a[1].ln) if isz(a[1].ln) else a[1].ln
    if n is None: raise Unsupported('FillBytes of unknown length')
    b_copy(eng, st, ins, [a[1], cat(units([0] * (n - d.ln)), eng.slice_rope(st, d))])
    return a[1]
@reg(BI + 'IsInt64')
def _(eng, st, ins, a):
    x = bigv(eng, st, a[0], ins)
    if not isz(x.v): return -(1 << 63) <= x.v < 1 << 63
    X = bt(x)
    return simp(z3.And(X >= -(1 << 63), X < (1 << 63)))
@reg('crypto/subtle.ConstantTimeCompare')
def _(eng, st, ins, a):
    return 1 if eng.decide(st, eng.streq(st, eng.slice_rope(st, a[0]), eng.slice_rope(st, a[1]))) else 0
@reg('strings.ContainsRune')
def _(eng, st, ins, a): return bnot(eq(I['strings.IndexRune'](eng, st, ins, a), mask(-1, 64)))

# ---------------------------------------------------------------- strings, strconv, bytes
def concs(*rs): return all(is_conc(r) for r in rs)
@reg('strings.HasPrefix')
def _(eng, st, ins, a):
    s, p = a; n = rlen(p)
    if not is_conc(p) and not is_conc(s): return eq(I['strings.Index'](eng, st, ins, a), 0)
    if not eng.decide(st, ule(n, rlen(s))): return False
    e = eng.rope_eq_term(st, eng.rope_slice(st, s, 0, n), p)
    if e is None: raise Unsupported('HasPrefix')
    return e
@reg('strings.HasSuffix')
def _(eng, st, ins, a):
    s, p = a; n = rlen(p)
    if not eng.decide(st, ule(n, rlen(s))): return False
    e = eng.rope_eq_term(st, eng.rope_slice(st, s, sub(rlen(s), n), rlen(s)), p)
    if e is None: raise Unsupported('HasSuffix')
    return e
def casemap(name, py):
    def f(eng, st, ins, a):
        r = a[0]
        if is_conc(r) and all(c < 128 for c in conc(r)): return cbytes(py(conc(r)))
        if name == 'tolower':
            if all((isinstance(g, S) and isinstance(g.b, App) and g.b.f == 'hexenc') or (isinstance(g, U) and all(isinstance(v, int) and v < 128 and bytes([v]).lower() == bytes([v]) for v in g.v)) for g in r): return r
        n = rlen(r)
        u = eng.rope_units(st, r, 200) if not isz(n) else None
        if u is not None:
            out = []
            for c in u:
                if not isz(c): out.append(py(bytes([c]))[0]); continue
                if not eng.must(st, z3.ULT(c, 0x80)):
                    raise Unsupported(name)
                if eng.must(st, z3.Not(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)) if name == 'tolower' else z3.And(z3.UGE(c, 97), z3.ULE(c, 122)))): out.append(c); continue
                if name == 'tolower': out.append(simp(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)))
                else: out.append(simp(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c)))
            return units(out)
        eng.assumed.add('strings.ToLower/ToUpper keep the byte length (ASCII text)')
        return (S(App(name, [r], (), n, B8), 0, n),)
    return f
I['strings.ToLower'] = casemap('tolower', bytes.lower); I['strings.ToUpper'] = casemap('toupper', bytes.upper)
def sindex(name, py):
    def f(eng, st, ins, a):
        s, p = a[0], a[1]
        if not isinstance(p, tuple): p = units([p])
        if concs(s, p): return mask(py(conc(s), conc(p)), 64)
        if is_conc(s) and len(p) == 1 and isinstance(p[0], U) and len(p[0].v) == 1:
            c = p[0].v[0]; t = conc(s); r = z3.BitVecVal(-1, 64)
            if eng.lin:
                w0 = getattr(eng, 'muxw', 8); eng.muxw = 64
                try: return eng.mux(st, [mask(t.find(bytes([k])) if name != 'lastindex' else t.rfind(bytes([k])), 64) for k in range(256)], simp(z3.ZeroExt(56, bv(c, 8))))
                finally: eng.muxw = w0
            rng = range(len(t)) if name != 'lastindex' else range(len(t) - 1, -1, -1)
            seen = set(); items = []
            for i in rng:
                if t[i] in seen: continue
                seen.add(t[i]); items.append((t[i], i))
            for ch, i in reversed(items): r = z3.If(c == ch, z3.BitVecVal(i, 64), r)
            return simp(r)
        if eng.lin and is_conc(p) and len(conc(p)) == 1 and s and all(isinstance(g, U) for g in s):
            v = [x for g in s for x in g.v]; c = conc(p)[0]
            for i in (range(len(v)) if name != 'lastindex' else range(len(v) - 1, -1, -1)):
                if eng.decide(st, eq(v[i], c)): return i
            return mask(-1, 64)
        r = ufapp(name, [s, p], (), SK)
        st.assume(z3.And(r >= -1, z3.Or(r == -1, zb(ule(add(r, rlen(p)), rlen(s))))))
        if name == 'index' and is_conc(p) and p and not getattr(eng, 'noidx', False):
            st.assume((r == 0) == zb(I['strings.HasPrefix'](eng, st, ins, [s, p])))
        return r
    return f
I['strings.Index'] = sindex('index', bytes.find); I['strings.IndexByte'] = sindex('index', bytes.find)
I['strings.LastIndex'] = sindex('lastindex', bytes.rfind); I['strings.LastIndexByte'] = sindex('lastindex', bytes.rfind)
I['strings.IndexRune'] = lambda eng, st, ins, a: I['strings.Index'](eng, st, ins, [a[0], units([a[1] & 255 if not isz(a[1]) else simp(z3.Extract(7, 0, a[1]))])])
@reg('strings.Contains')
def _(eng, st, ins, a): return bnot(eq(I['strings.Index'](eng, st, ins, a), mask(-1, 64)))
def nothas(g, c):
    """text that cannot contain the byte c: hex text, for a c that is no lower-case hex digit"""
    return isinstance(g, S) and isinstance(g.b, App) and g.b.f == 'hexenc' and c not in b'0123456789abcdef'
@reg('strings.Split')
def _(eng, st, ins, a):
    s, sep = a
    et = eng.p.ti(ins['t'])['elem']
    if concs(s, sep) and conc(sep): return eng.new_slice(st, units([cbytes(x) for x in conc(s).split(conc(sep))]), et)
    if is_conc(sep) and len(conc(sep)) == 1 and s and nothas(s[0], conc(sep)[0]):
        h = 1
        while h < len(s) and nothas(s[h], conc(sep)[0]): h += 1
        if h == len(s): return eng.new_slice(st, units([s]), et)
        if isinstance(s[h], U):
            for k, v in enumerate(s[h].v):
                if isz(v): break
                if v == conc(sep)[0]:
                    rest = I['strings.Split'](eng, st, ins, [cat(units(s[h].v[k + 1:]), s[h + 1:]), sep])
                    return eng.new_slice(st, cat(units([cat(s[:h], units(s[h].v[:k]))]), eng.slice_rope(st, rest)), et)
    if is_conc(sep) and len(conc(sep)) == 1 and s and isinstance(s[0], U):
        k = 0
        for v in s[0].v:
            if isz(v): break
            if v == conc(sep)[0]:
                rest = I['strings.Split'](eng, st, ins, [cat(units(s[0].v[k + 1:]), s[1:]), sep])
                return eng.new_slice(st, cat(units([units(s[0].v[:k])]), eng.slice_rope(st, rest)), et)
            k += 1
    n, leaf = ufname('split', [s, sep])
    ln = uf(n + '.len', leaf, SK); st.assume(z3.And(z3.UGE(ln, 1), z3.ULT(ln, 1 << 40)))
    return eng.new_slice(st, (S(Base(n, leaf, ln, et), 0, ln),), et)
@reg('strings.Replace', 'strings.ReplaceAll')
def _(eng, st, ins, a):
    s, o, n = a[0], a[1], a[2]
    k = a[3] if len(a) > 3 else mask(-1, 64)
    if concs(s, o, n) and not isz(k): return cbytes(conc(s).replace(conc(o), conc(n), sgn(k, 64)))
    if is_conc(o) and len(conc(o)) == 1 and not isz(k) and sgn(k, 64) < 0:
        c = conc(o)[0]
        if all(isinstance(g, U) and not any(isz(x) for x in g.v) or nothas(g, c) for g in s):
            out = ()
            for g in s:
                if isinstance(g, U):
                    for x in g.v: out = cat(out, n if x == c else units([x]))
                else: out = cat(out, (g,))
            return out
    nm, leaf = ufname('replace', [s, o, n], (k,))
    ln = uf(nm + '.len', leaf, SK); st.assume(z3.ULT(ln, 1 << 40))
    return (S(Base(nm, leaf, ln, B8), 0, ln),)
@reg('strings.Count')
def _(eng, st, ins, a):
    s, o = a
    if concs(s, o): return conc(s).count(conc(o)) if conc(o) else len(conc(s).decode('utf8', 'replace')) + 1
    if is_conc(o) and len(conc(o)) == 1:
        c = conc(o)[0]
        if all(isinstance(g, U) and not any(isz(x) for x in g.v) or nothas(g, c) for g in s):
            return sum(list(g.v).count(c) for g in s if isinstance(g, U))
    n, leaf = ufname('strcount', [s, o])
    r = uf(n, leaf, SK); st.assume(z3.ULT(r, 1 << 40))
    return r
@reg('strings.EqualFold')
def _(eng, st, ins, a):
    if concs(*a): return conc(a[0]).lower() == conc(a[1]).lower()
    return ufapp('equalfold', [a[0], a[1]], (), z3.BoolSort())
@reg('strings.Repeat')
def _(eng, st, ins, a):
    n = eng.const_of(st, a[1]) if isz(a[1]) else a[1]
    if n is not None and n < 1000: return cat(*([a[0]] * n))
    raise Unsupported('strings.Repeat')
@reg('strings.TrimLeft', 'strings.Trim', 'strings.TrimSpace')
def _(eng, st, ins, a):
    if concs(*a):
        nm = ins['callee']; s = conc(a[0])
        if nm.endswith('TrimLeft'): return cbytes(s.lstrip(conc(a[1])))
        if nm.endswith('TrimSpace'): return cbytes(s.strip())
        return cbytes(s.strip(conc(a[1])))
    if ins['callee'].endswith('TrimSpace'):
        n, leaf = ufname('trimspace', [a[0]])
        ln = uf(n + '.len', leaf, SK); st.assume(zb(z3.ULE(bv(ln, W), bv(rlen(a[0]), W))))
        return (S(Base(n, leaf, ln, B8), 0, ln),)
    raise Unsupported('strings.Trim')
@reg('strings.TrimPrefix')
def _(eng, st, ins, a):
    if not eng.decide(st, I['strings.HasPrefix'](eng, st, ins, a)): return a[0]
    return eng.rope_slice(st, a[0], rlen(a[1]), rlen(a[0]))
@reg('strings.TrimSuffix')
def _(eng, st, ins, a):
    if not eng.decide(st, I['strings.HasSuffix'](eng, st, ins, a)): return a[0]
    return eng.rope_slice(st, a[0], 0, sub(rlen(a[0]), rlen(a[1])))
def rope_elems(eng, st, sl, what):
    n = eng.const_of(st, sl.ln) if isz(sl.ln) else sl.ln
    if n is None: raise Unsupported(what + ' of a list of unknown length')
    r = eng.slice_rope(st, sl)
    return [eng.rope_at(st, r, i) for i in range(n)]
@reg('strings.Join')
def _(eng, st, ins, a):
    o = ()
    for i, x in enumerate(rope_elems(eng, st, a[0], 'strings.Join')): o = cat(o, a[1], x) if i else x
    return o
@reg('bytes.Join')
def _(eng, st, ins, a):
    o = (); sep = eng.slice_rope(st, a[1])
    for i, x in enumerate(rope_elems(eng, st, a[0], 'bytes.Join')):
        x = eng.slice_rope(st, x); o = cat(o, sep, x) if i else x
    return bsl(eng, st, o)
@reg('bytes.Repeat')
def _(eng, st, ins, a): return bsl(eng, st, I['strings.Repeat'](eng, st, ins, [eng.slice_rope(st, a[0]), a[1]]))
@reg('bytes.HasPrefix')
def _(eng, st, ins, a):
    s, p = a
    if not eng.decide(st, ule(p.ln, s.ln)): return False
    r = eng.slice_rope(st, s)
    return eng.streq(st, eng.rope_slice(st, r, 0, p.ln), eng.slice_rope(st, p))
@reg('bytes.HasSuffix')
def _(eng, st, ins, a):
    s, p = a
    if not eng.decide(st, ule(p.ln, s.ln)): return False
    r = eng.slice_rope(st, s)
    return eng.streq(st, eng.rope_slice(st, r, sub(s.ln, p.ln), s.ln), eng.slice_rope(st, p))
@reg('bytes.Compare', 'strings.Compare')
def _(eng, st, ins, a):
    x, y = [eng.slice_rope(st, v) if isinstance(v, Slice) else v for v in a]
    if eng.decide(st, eng.streq(st, x, y)): return 0
    lt = ufapp('lexless', [x, y], (), z3.BoolSort())
    return simp(z3.If(zb(lt), bv(mask(-1, 64), 64), bv(1, 64)))
@reg('bytes.Clone')
def _(eng, st, ins, a):
    if eng.decide(st, a[0].nil): return a[0]
    return bsl(eng, st, eng.slice_rope(st, a[0]))
for _k in ('Index', 'IndexByte', 'LastIndex', 'LastIndexByte', 'Contains', 'Count'):
    def _mk(k):
        def f(eng, st, ins, a):
            b = [eng.slice_rope(st, v) if isinstance(v, Slice) else v for v in a]
            if k.endswith('Byte'): b[1] = units([b[1]])
            h = I.get('strings.' + k.replace('Byte', ''))
            return h(eng, st, ins, b)
        return f
    I['bytes.' + _k] = _mk(_k)
@reg('encoding/hex.EncodedLen')
def _(eng, st, ins, a): return mul(a[0], 2) if not isz(a[0]) else simp(a[0] * 2)
@reg('encoding/hex.DecodedLen')
def _(eng, st, ins, a): return a[0] // 2 if not isz(a[0]) else simp(z3.LShR(a[0], 1))
@reg('encoding/hex.Encode')
def _(eng, st, ins, a):
    t = I['encoding/hex.EncodeToString'](eng, st, ins, [a[1]])
    eng.check(st, ule(rlen(t), a[0].ln), 'index', ins, 'hex.Encode: buffer too short')
    b_copy(eng, st, ins, [a[0], t])
    return rlen(t)
@reg('encoding/hex.Decode')
def _(eng, st, ins, a):
    d, e = I['encoding/hex.DecodeString'](eng, st, ins, [eng.slice_rope(st, a[1])])
    if eng.decide(st, e.nil):
        eng.check(st, ule(d.ln, a[0].ln), 'index', ins, 'hex.Decode: buffer too short')
        b_copy(eng, st, ins, [a[0], d])
        return (d.ln, e)
    raise Unsupported('hex.Decode of bad text')
@reg('bytes.Equal')
def _(eng, st, ins, a):
    return eng.streq(st, eng.slice_rope(st, a[0]), eng.slice_rope(st, a[1]))
def itoa(eng, st, v, base, signed):
    if not isz(v):
        x = sgn(v, 64) if signed else v
        if base == 10: return cbytes(str(x).encode())
        if base == 16: return cbytes((('-' if x < 0 else '') + '%x' % abs(x)).encode())
    ln = ufapp('itoalen', [], (v, base, int(signed)), SK); st.assume(z3.And(z3.UGE(ln, 1), z3.ULT(ln, 66)))
    return (S(App('itoa', [], (v, base, int(signed)), ln, B8), 0, ln),)
@reg('strconv.FormatInt')
def _(eng, st, ins, a): return itoa(eng, st, a[0], a[1], True)
@reg('strconv.FormatUint')
def _(eng, st, ins, a): return itoa(eng, st, a[0], a[1], False)
@reg('strconv.Itoa')
def _(eng, st, ins, a): return itoa(eng, st, a[0], 10, True)
@reg('strconv.Atoi')
def _(eng, st, ins, a):
    r = a[0]
    if is_conc(r):
        t = conc(r).decode('latin1')
        try:
            if t.strip() != t or '_' in t: raise ValueError
            v = int(t)
            if not -(1 << 63) <= v < 1 << 63: raise ValueError
            return (mask(v, 64), NOERR)
        except ValueError: return (0, err(eng))
    st.assume(z3.Implies(ufapp('atoiok', [r], (), z3.BoolSort()), zb(bnot(eq(rlen(r), 0)))))
    if eng.decide(st, ufapp('atoiok', [r], (), z3.BoolSort())): return (ufapp('atoi', [r], (), SK), NOERR)
    return (0, err(eng))
@reg('strconv.ParseInt', 'strconv.ParseUint')
def _(eng, st, ins, a):
    r = a[0]
    tag = 'parse' + ins['callee'][-6:]
    if eng.decide(st, ufapp(tag + 'ok', [r], (a[1], a[2]), z3.BoolSort())): return (ufapp(tag, [r], (a[1], a[2]), SK), NOERR)
    return (eng.fresh_bv(st, 64, 'parsebad'), err(eng))
@reg('crypto/rand.Read')
def _(eng, st, ins, a):
    b = a[0]
    n = b.ln
    if b.ref is not None:
        c = eng.walk(st, eng.content(st, b.ref), b.path)
        pre, rest = eng.rope_split(st, c, b.off)
        _, post = eng.rope_split(st, rest, n)
        eng.store(st, Ptr(b.ref, b.path), cat(pre, (S(eng.fresh_base(st, B8, n, 'rand'), 0, n),), post))
    ok = eng.fresh_bool(st, 'randok')
    return (n, Iface(z3.Not(z3.Not(ok)) if False else ok, None, 'randerr'))
@reg('time.Now')
def _(eng, st, ins, a): return Opaque('time', (eng.fresh_bv(st, 64, 'now'),))
@reg('(time.Time).Unix', '(time.Time).UnixNano')
def _(eng, st, ins, a):
    v = a[0].payload[0] if a[0].payload else eng.fresh_bv(st, 64, 'now')
    x = uf('time' + ins['callee'][-5:], (v,), SK)
    st.assume(z3.And(x > 0, x < (1 << 62)))
    return x
@reg('(*encoding/base64.Encoding).EncodeToString')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[1]); n = rlen(r)
    ln = simp(z3.UDiv(bv(add(n, 2), W), bv(3, W)) * 4) if isz(n) else (n + 2) // 3 * 4
    return (S(App('base64', [r], (), ln, B8), 0, ln),)
def bufrope(eng, st, p):
    c = eng.load(st, p)
    if not eng.must(st, eq(c.f[1], 0)): raise Unsupported('partly read bytes.Buffer')
    return c, (() if c.f[0].ref is None else eng.slice_rope(st, c.f[0]))
def bufwrite(eng, st, p, r):
    c, o = bufrope(eng, st, p)
    eng.store(st, p, Struct((bsl(eng, st, cat(o, r)),) + tuple(c.f[1:])))
@reg('(*bytes.Buffer).WriteString')
def _(eng, st, ins, a): bufwrite(eng, st, a[0], a[1]); return (rlen(a[1]), NOERR)
@reg('(*bytes.Buffer).WriteByte')
def _(eng, st, ins, a): bufwrite(eng, st, a[0], units([a[1]])); return NOERR
@reg('(*bytes.Buffer).Write')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[1]); bufwrite(eng, st, a[0], r); return (rlen(r), NOERR)
@reg('(*bytes.Buffer).String')
def _(eng, st, ins, a): return bufrope(eng, st, a[0])[1]
@reg('(*bytes.Buffer).Bytes')
def _(eng, st, ins, a): return bsl(eng, st, bufrope(eng, st, a[0])[1])
@reg('(*bytes.Buffer).Len')
def _(eng, st, ins, a): return rlen(bufrope(eng, st, a[0])[1])
@reg('(*bytes.Buffer).Grow', '(*strings.Builder).Grow')
def _(eng, st, ins, a): return None
@reg('(*bytes.Buffer).Reset')
def _(eng, st, ins, a):
    c = eng.load(st, a[0]); eng.store(st, a[0], Struct((bsl(eng, st, ()),) + tuple(c.f[1:])))
@reg('bytes.NewBuffer', 'bytes.NewBufferString')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[0]) if isinstance(a[0], Slice) else a[0]
    t = eng.p.ti(ins['t'])['elem']
    z = eng.zero(t) if hasattr(eng, 'zero') else None
    return Ptr(eng.alloc(st, Struct((bsl(eng, st, r),) + tuple(z.f[1:])), 'buf', ('var', t)), ())
def sbwrite(eng, st, p, r):
    c = eng.load(st, p)
    o = () if c.f[1].ref is None else eng.slice_rope(st, c.f[1])
    eng.store(st, p, Struct((c.f[0], bsl(eng, st, cat(o, r))) + tuple(c.f[2:])))
def sbrope(eng, st, p):
    c = eng.load(st, p)
    return () if c.f[1].ref is None else eng.slice_rope(st, c.f[1])
@reg('(*strings.Builder).WriteString')
def _(eng, st, ins, a): sbwrite(eng, st, a[0], a[1]); return (rlen(a[1]), NOERR)
@reg('(*strings.Builder).WriteByte')
def _(eng, st, ins, a): sbwrite(eng, st, a[0], units([a[1]])); return NOERR
@reg('(*strings.Builder).Write')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[1]); sbwrite(eng, st, a[0], r); return (rlen(r), NOERR)
@reg('(*strings.Builder).String')
def _(eng, st, ins, a): return sbrope(eng, st, a[0])
@reg('(*strings.Builder).Len')
def _(eng, st, ins, a): return rlen(sbrope(eng, st, a[0]))

# ---------------------------------------------------------------- ghost helpers
@reg('ghost:vassume')
def _(eng, st, ins, a):
    c = simp(a[0])
    st.assume(c)
    if not eng.feasible(st): raise PathEnd()
    return None
@reg('ghost:vassert')
def _(eng, st, ins, a):
    eng.check(st, a[0], 'assert', ins, 'contract assertion'); return None
@reg('ghost:vreach')
def _(eng, st, ins, a):
    if not eng.silent: eng.reached.add((ins.get('pos')))
    return None
def eqob(eng, st, ins, x, y, what):
    if eng.silent: return None
    fr = st.frames[-1]
    key = ('equal', eng.rel(ins.get('pos')), fr.fn.name)
    o = eng.obl.setdefault(key, [0, 0]); o[0] += 1
    eng.failstate = st
    r = eng.with_forks(st.clone(), lambda s: eng.prove_val_eq(s, x, y))
    if r[0]: return None
    o[1] += 1
    fs = eng.failstate
    model = None; verdict = 'unproved'; neg = None
    for c in ([bnot(r[2])] if len(r) > 2 and r[2] is not None else []) + [True]:
        rr = eng.sv.check(fs.pc, zb(c))
        if rr == z3.sat:
            model = eng.sv.model; verdict = 'sat' if c is not True else 'unproved'; neg = c; break
        if rr == z3.unsat and c is True: return None
    eng.fail(fs, 'equal', ins.get('pos'), '%s: %s' % (what, r[1]), model, verdict, neg)
    return None
@reg('ghost:veqb')
def _(eng, st, ins, a): return eqob(eng, st, ins, eng.slice_rope(st, a[0]), eng.slice_rope(st, a[1]), 'byte strings differ')
@reg('ghost:veqs')
def _(eng, st, ins, a): return eqob(eng, st, ins, a[0], a[1], 'strings differ')
@reg('ghost:vsame')
def _(eng, st, ins, a):
    x, y = eng.slice_rope(st, a[0]), eng.slice_rope(st, a[1])
    if st.facts:
        try:
            if eng.with_forks(st.clone(), lambda s: eng.prove_rope_eq(s, x, y))[0]: return True
        except Unsupported: pass
    e = eng.streq(st, x, y)
    if isz(e) and z3.is_app(e) and e.decl().name().startswith('streq') and all(len(r) == 1 and isinstance(r[0], S) and not isinstance(r[0].b.et, ex.Struct) for r in (x, y)):
        at = lambda r, i: eng.base_at(st, r[0].b, add(r[0].off, i))
        j = z3.BitVec('f!%d' % eng.fid(), W); n = rlen(x)
        eng.add_fact(st, ex.Fact(j, n, [([eq(at(x, j), at(y, j))], [])], e))
        w = z3.BitVec('w!%d' % eng.fid(), W)
        st.assume(z3.Or(e, zb(bnot(eq(rlen(x), rlen(y)))), zb(band(ult(w, n), bnot(eq(at(x, w), at(y, w)))))))
        eng.add_index(st, w)
    return e
@reg('ghost:vrev')
def _(eng, st, ins, a):
    r = eng.slice_rope(st, a[0]); n = rlen(r)
    k = eng.const_of(st, n) if isz(n) else n
    if k is not None and k <= 600:
        u = eng.rope_units(st, r)
        if u is not None: return bsl(eng, st, units(list(reversed(u))))
    if len(r) == 1 and isinstance(r[0], S):
        j = z3.BitVec('j!%d' % eng.fid(), W); g = r[0]
        t = simp(bv(g.off, W) + bv(n, W) - 1 - j)
        return bsl(eng, st, norm([mkC(j, n, [(True, units([simp(base_term(g.b, t))]))])]))
    raise Unsupported('vrev')
@reg('ghost:vverified')
def _(eng, st, ins, a):
    """vverified(pub, msg, sig []byte, curve uint32) bool: the signature check of exactly these bytes succeeded"""
    c = curve(eng, st, a[3])
    pub, msg, sig = (eng.slice_rope(st, x) for x in a[:3])
    for t in st.tr:
        if t[0] == 'verify' and t[1] == CV.get(c):
            if all(eng.with_forks(st.clone(), lambda s, p=p, q=q: eng.prove_rope_eq(s, p, q))[0] for p, q in ((t[2], pub), (t[3], msg), (t[4], sig))):
                return t[5]
    return ufapp('verify:' + CV[c], [pub, msg, sig], (), z3.BoolSort())
@reg('ghost:vsigned')
def _(eng, st, ins, a):
    """vsigned(pri, msg, sig []byte, curve uint32) bool: sig is what signing exactly these bytes with this key returned, or its normalisation"""
    c = curve(eng, st, a[3])
    pri, msg, sig = (eng.slice_rope(st, x) for x in a[:3])
    def is_(p, q): return eng.with_forks(st.clone(), lambda s: eng.prove_rope_eq(s, p, q))[0]
    for t in st.tr:
        if t[0] != 'sign' or t[1] != CV.get(c): continue
        q = opq_args(sig[0].b) if len(sig) == 1 and isinstance(sig[0], S) and eng.must(st, eq(sig[0].off, 0)) and eng.must(st, eq(sig[0].ln, sig[0].b.ln)) else None
        raw = q[2][0] if q and len(q[2]) == 1 and q[0].lower().endswith(('serilizes', 'normalise')) else sig
        if is_(t[2], pri) and is_(t[3], msg) and is_(t[4], raw): return True
    return False
@reg('ghost:vcopy')
def _(eng, st, ins, a):
    if a[0].ref is None: return a[0]
    return Slice(eng.alloc(st, eng.slice_rope(st, a[0]), 'b', ('elems', a[0].et)), (), 0, a[0].ln, a[0].nil, a[0].et)


# ---------------------------------------------------------------- opaque callees
def deep(eng, st, v, depth=0):
    """value with every reference replaced by what it points to"""
    if depth > 6: raise Unsupported('opaque argument')
    if isinstance(v, tuple): return deep_rope(eng, st, v, depth)
    if isinstance(v, Slice): return ex.Struct((v.nil if isinstance(v.nil, bool) or isz(v.nil) else False, deep_rope(eng, st, eng.slice_rope(st, v), depth + 1)))
    if isinstance(v, ex.Struct): return ex.Struct([deep(eng, st, x, depth + 1) for x in v.f])
    if isinstance(v, Ptr):
        if v.ref is None: return 0
        if v.nil is not False:
            c = eng.load(st, Ptr(v.ref, v.path, False))
            return ex.Struct((v.nil, eng.bigterm(c) if isinstance(c, BigC) else deep(eng, st, c, depth + 1)))
        c = eng.load(st, v)
        return eng.bigterm(c) if isinstance(c, BigC) else deep(eng, st, c, depth + 1)
    if isz(v) or isinstance(v, (int, bool)): return v
    raise Unsupported('opaque argument')
def deep_rope(eng, st, r, depth):
    out = []
    for g in r:
        if isinstance(g, U): out.append(U([deep(eng, st, x, depth + 1) for x in g.v]))
        elif isinstance(g, R): out.append(R(deep(eng, st, g.v, depth + 1), g.ln))
        elif isinstance(g, C): out.append(mkC(g.var, g.n, [(c, deep_rope(eng, st, q, depth + 1)) for c, q in g.cases]))
        elif isinstance(g.b.et, tuple): out.append(g)
        else:
            j = z3.BitVec('j!%d' % eng.fid(), W)
            out.append(mkC(j, g.ln, [(True, (U([deep(eng, st, eng.base_at(st, g.b, add(g.off, j)), depth + 1)]),))]))
    return norm(out)
def flat_arg(eng, st, v, ropes, sc, depth=0):
    if depth > 6: raise Unsupported('opaque argument')
    if isinstance(v, tuple): ropes.append(v)
    elif isinstance(v, Slice):
        ropes.append(deep_rope(eng, st, eng.slice_rope(st, v), 0))
    elif isinstance(v, ex.Struct):
        for x in v.f: flat_arg(eng, st, x, ropes, sc, depth + 1)
    elif isinstance(v, Ptr):
        if v.ref is None: sc.append(0)
        else:
            if v.nil is not False: sc.append(v.nil)
            c = eng.load(st, v)
            if isinstance(c, BigC): sc.append(eng.bigterm(c))
            else: flat_arg(eng, st, c, ropes, sc, depth + 1)
    elif isinstance(v, Iface) and v.dyn is not None and v.nil is False:
        ropes.append(norm([U(list(('type%s' % v.dyn[0]).encode()))])); flat_arg(eng, st, v.dyn[1], ropes, sc, depth + 1)
    elif isinstance(v, Iface): raise Unsupported('opaque argument')
    elif isinstance(v, MapRef) or isinstance(v, Opaque): raise Unsupported('opaque argument')
    else: sc.append(v)

def opaque_inverse(name, g, base):
    """f(g(x, ...), ...) = (x, nil error); everything else as an opaque callee"""
    def h(eng, st, ins, a):
        r = a[0] if isinstance(a[0], tuple) else eng.slice_rope(st, a[0])
        r = [x for x in r if seg_nonempty(x)]
        if len(r) == 1 and isinstance(r[0], S):
            q = opq_args(r[0].b)
            if q and q[0].endswith('.' + g) and eng.must(st, eq(r[0].off, 0)) and eng.must(st, eq(r[0].ln, r[0].b.ln)):
                # the remaining arguments (alphabets, prefixes) have to agree as well
                ropes, sc = [], []
                for x in a[1:]: flat_arg(eng, st, x, ropes, sc)
                ok = len(ropes) == len(q[2]) - 1 and len(sc) == len(q[3]) and all(eng.must(st, eq(x, y)) for x, y in zip(sc, q[3])) and all(eng.prove_rope_eq(st, x, y, 1)[0] for x, y in zip(ropes, q[2][1:]))
                if ok:
                    eng.assumed.add('%s inverts %s (its own contract lemmas are separate)' % (name.rsplit('/', 1)[-1], g))
                    return (bsl(eng, st, q[2][0]), NOERR)
        return base(eng, st, ins, a)
    return h
OPQ = {}
def opq_args(b):
    """(function, result part, argument ropes, scalars) of a base that is the result of an opaque call, or None"""
    if not b.name.startswith('opq:') or '#' not in b.name: return None
    h, t = b.name.split('#', 1)
    n = h + '#' + t[:12]; part = t[12:]
    e = OPQ.get(n)
    if e is None or len(e[3]) != len(b.args): return None
    s = [(x, bv(y, x.size()) if z3.is_bv(x) else y) for x, y in zip(e[3], b.args) if isz(x)]
    try: ropes = tuple(rsub(r, s) for r in e[1]); sc = tuple(tsub(x, s) for x in e[2])
    except Exception: return None
    m, leaf = ufname('opq:' + e[0], ropes, sc)
    if m != n or len(leaf) != len(b.args) or not all((isz(p) and isz(q) and p.eq(q)) or (not isz(p) and not isz(q) and p == q) for p, q in zip(leaf, b.args)): return None
    return (h, part, ropes, sc)

def same_call(eng, st, key, n, leaf, ropes, sc):
    """an earlier call on this path whose arguments provably have the same values, else this one"""
    prev = st.apps.get(key, ())
    for q in prev:
        if q[0] == n and len(q[1]) == len(leaf) and all((x.eq(y) if isz(x) and isz(y) else x is y or (not isz(x) and not isz(y) and x == y)) for x, y in zip(q[1], leaf)): return q
    for q in prev:
        if len(q[2]) != len(ropes) or len(q[3]) != len(sc): continue
        if not all(maybe_eq(x, y) for x, y in zip(q[3], sc)): continue
        try:
            if all(eng.must(st, beq(x, y)) for x, y in zip(q[3], sc)) and all(eng.prove_rope_eq(st, x, y, 1)[0] for x, y in zip(q[2], ropes)): return q
        except Unsupported: pass
    r = (n, leaf, tuple(ropes), tuple(sc))
    st.apps[key] = prev + (r,)
    return r
def maybe_eq(x, y):
    """scalars of the same kind that are not two different constants"""
    bx, by = isinstance(x, bool) or isz(x) and z3.is_bool(x), isinstance(y, bool) or isz(y) and z3.is_bool(y)
    if bx != by: return False
    if isz(x) and isz(y): return x.sort() == y.sort()
    return isz(x) or isz(y) or x == y
def beq(x, y):
    if isinstance(x, bool) or isinstance(y, bool) or isz(x) and z3.is_bool(x): return zb(x) == zb(y)
    return eq(x, y)
def opaque_call(name):
    """callee kept abstract: a pure, deterministic, total function of its argument values"""
    short = name.rsplit('/', 1)[-1]
    def f(eng, st, ins, a):
        ropes, sc = [], []
        for x in a: flat_arg(eng, st, x, ropes, sc)
        n, leaf = ufname('opq:' + short, ropes, sc)
        n, leaf, ropes, sc = same_call(eng, st, short, n, leaf, ropes, sc)
        OPQ.setdefault(n, (short, tuple(ropes), tuple(sc), leaf))
        eng.assumed.add('%s is a pure function of its arguments (kept abstract here; its own contract lemmas are separate)' % short)
        if 't' not in ins: return None
        t = ins['t']
        def mk(t, n):
            if eng.p.kind(t) == 'iface': return Iface(uf(n + '.nil', leaf, z3.BoolSort()), None, n)
            v = eng.mk_input(st, t, n, leaf)
            return own(v, t)
        def own(v, t):
            """every call hands out its own objects"""
            if isinstance(v, Slice) and v.nil is not True: return eng.new_slice(st, eng.slice_rope(st, v), v.et, v.nil)
            if isinstance(v, ex.Struct) and eng.p.kind(t) == 'struct': return ex.Struct([own(x, f['t']) for x, f in zip(v.f, eng.p.ti(t)['fields'])])
            if isinstance(v, Ptr) and v.ref is not None and eng.p.kind(t) == 'ptr':
                el = eng.p.ti(t)['elem']
                if not eng.p.isbig(el) and eng.p.kind(el) == 'struct':
                    return Ptr(eng.alloc(st, own(eng.load(st, Ptr(v.ref, v.path, False)), el), 'a', ('val', el)), (), v.nil)
            return v
        if eng.p.kind(t) == 'tuple':
            r = tuple(mk(x, '%s.%d' % (n, i)) for i, x in enumerate(eng.p.ti(t)['elems']))
            if len(r) >= 2 and isinstance(r[-1], Iface) and isz(r[-1].nil):
                for x in r[:-1]:
                    if isinstance(x, Ptr) and isz(x.nil):
                        st.assume(z3.Implies(r[-1].nil, z3.Not(x.nil)))
                        eng.assumed.add('%s returns a non-nil result when it returns no error' % short)
            return r
        return mk(t, n)
    return f

# ---------------------------------------------------------------- ghost: text without given characters
@reg('ghost:vlit')
def _(eng, st, ins, a): return not isz(a[0])
@reg('ghost:vatom')
def _(eng, st, ins, a):
    for g in a[0]:
        if isinstance(g, S) and eng.must(st, eq(g.off, 0)): eng.atoms[g.b.key()] = eng.atoms.get(g.b.key(), set()) | set(conc(a[1]))
    return None
def atom_parts(eng, s, p):
    """rope s cut at every occurrence of the single byte p, or None if that is not known"""
    out = [[]]
    for g in s:
        if isinstance(g, U):
            for v in g.v:
                if isz(v): return None
                if v == p: out.append([])
                else: out[-1].append(U([v]))
        elif isinstance(g, S) and p in eng.atoms.get(g.b.key(), ()): out[-1].append(g)
        elif isinstance(g, S) and isinstance(g.b, App) and g.b.f == 'itoa' and (p in b"/' " ): out[-1].append(g)
        else: return None
    return [norm(x) for x in out]
def _wrap_atoms():
    osplit, orep, oidx = I['strings.Split'], I['strings.Replace'], I['strings.Index']
    def one(p): return conc(p)[0] if is_conc(p) and len(conc(p)) == 1 else None
    def split(eng, st, ins, a):
        c = one(a[1])
        if c is not None and eng.atoms and not is_conc(a[0]):
            ps = atom_parts(eng, a[0], c)
            if ps is not None: return eng.new_slice(st, units(ps), eng.p.ti(ins['t'])['elem'])
        return osplit(eng, st, ins, a)
    def rep(eng, st, ins, a):
        c = one(a[1])
        if c is not None and eng.atoms and not is_conc(a[0]):
            ps = atom_parts(eng, a[0], c)
            if ps is not None and len(ps) == 1: return a[0]
        return orep(eng, st, ins, a)
    def idx(eng, st, ins, a):
        if eng.atoms and not is_conc(a[0]) and isinstance(a[1], tuple) and is_conc(a[1]) and len(conc(a[1])) >= 1:
            p = conc(a[1])
            if a[0] and isinstance(a[0][0], U) and len(a[0][0].v) >= len(p) and all(not isz(v) for v in a[0][0].v[:len(p)]) and bytes(a[0][0].v[:len(p)]) == p: return 0
            if len(p) == 1:
                ps = atom_parts(eng, a[0], p[0])
                if ps is not None: return mask(-1, 64) if len(ps) == 1 else rlen(ps[0])
        return oidx(eng, st, ins, a)
    I['strings.Split'] = split; I['strings.Replace'] = I['strings.ReplaceAll'] = rep; I['strings.Index'] = idx
_wrap_atoms()
