"""check one property: overlay the contracts on /repo's working tree, dump SSA, discharge every obligation,
replay / search counterexamples for what is not discharged, write evidence."""
import sys, os, re, json, time, subprocess, glob, shutil, signal, resource, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
MOD = 'github.com/blocktree/go-owcdrivers'
sys.path.insert(0, HERE)

def log(*a):
    print(*a, file=sys.stderr); sys.stderr.flush()

# ---------------------------------------------------------------- contract files
class Chunk:
    __slots__ = ('lines', 'name', 'kind', 'props', 'opts', 'file', 'dropped')

def parse_contract(path):
    """-> (packages, deps, imports, chunks)"""
    lines = open(path).read().split('\n')
    pk = []; deps = []; fprops = []; fopts = {}; imports = []; chunks = []
    i = 0
    while i < len(lines) and not lines[i].startswith('package '):
        m = re.match(r'//vp:(\w+)\s*(.*)', lines[i])
        if m:
            if m[1] == 'packages': pk += m[2].split()
            elif m[1] == 'deps': deps += m[2].split()
            elif m[1] == 'prop': fprops += m[2].split()
            elif m[1] == 'opt': fopts.update(x.split('=', 1) for x in m[2].split())
        i += 1
    i += 1
    cur = []
    def flush():
        nonlocal cur
        if any(l.strip() for l in cur):
            c = Chunk(); c.lines = cur; c.dropped = False; c.file = path
            c.name = None; c.kind = None; c.props = []; c.opts = dict(fopts)
            for l in cur:
                m = re.match(r'//vp:(\w+)\s*(.*)', l)
                if m:
                    if m[1] == 'prop': c.props += m[2].split()
                    elif m[1] == 'opt': c.opts.update(x.split('=', 1) for x in m[2].split())
                m = re.match(r'(func|type|var|const)\s+(\([^)]*\)\s*)?(\w+)?', l)
                if m and c.kind is None: c.kind = m[1]; c.name = m[3]
            if not c.props: c.props = list(fprops)
            chunks.append(c)
        cur = []
    body = False
    while i < len(lines):
        l = lines[i]
        if re.match(r'import\s*\(', l):
            i += 1
            while lines[i].strip() != ')':
                if lines[i].strip(): imports.append(lines[i].strip())
                i += 1
            i += 1; continue
        m = re.match(r'import\s+(.*)', l)
        if m: imports.append(m[1].strip()); i += 1; continue
        if re.match(r'(func|type|var|const)\b', l):
            # comments immediately above belong to this declaration
            k = len(cur)
            while k > 0 and cur[k - 1].startswith('//'): k -= 1
            head = cur[k:]; cur = cur[:k]
            flush()
            cur = head
        cur.append(l)
        i += 1
    flush()
    return pk, deps, imports, chunks

class PkgPlan:
    def __init__(self, pkg):
        self.pkg = pkg; self.files = []; self.deps = set(); self.lemmas = {}; self.findings = {}; self.dropped = []

def load_contracts():
    """pkg -> PkgPlan"""
    plans = {}
    for path in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*', '*.go'))):
        d = os.path.basename(os.path.dirname(path))
        if d.startswith('_'): continue
        pk, deps, imports, chunks = parse_contract(path)
        if not pk: pk = [d]
        for p in pk:
            pl = plans.setdefault(p, PkgPlan(p))
            pl.deps |= set(deps)
            cs = []
            for c in chunks:
                only = c.opts.get('only'); exc = c.opts.get('except')
                if only and p not in only.split(','): continue
                if exc and p in exc.split(','): continue
                n = Chunk()
                for a in Chunk.__slots__: setattr(n, a, getattr(c, a))
                n.lines = list(c.lines)
                cs.append(n)
            pl.files.append((d + '_' + os.path.basename(path), list(imports), cs))
            for c in cs:
                if c.kind == 'func' and c.name and c.name.startswith('vlemma'): pl.lemmas[c.name] = c
                if c.kind == 'func' and c.name and c.name.startswith('vfinding'): pl.findings[c.name] = c
    return plans

def pkgname(p):
    """package clause of directory p"""
    for f in sorted(glob.glob(os.path.join(REPO, p, '*.go'))):
        if f.endswith('_test.go'): continue
        m = re.search(r'^package\s+(\w+)', open(f, errors='replace').read(), re.M)
        if m: return m[1]
    return os.path.basename(p)

def write_overlay(plans, need, work, harness):
    """need: {pkg: set of lemma names}; returns overlay path and map file-> [(start,end,chunk,plan)]"""
    rep = {}; spans = {}
    for p in sorted(need):
        pl = plans[p]; name = pkgname(p)
        od = os.path.join(work, 'ov', p); os.makedirs(od, exist_ok=True)
        def put(fn, text):
            f = os.path.join(od, fn); open(f, 'w').write(text)
            rep[os.path.join(REPO, p, 'zz_verif_' + fn)] = f
            return os.path.join(REPO, p, 'zz_verif_' + fn)
        put('ghost.go', open(os.path.join(VERIF, 'contracts', '_lib', 'ghost.go')).read().replace('package PKG', 'package ' + name))
        lem = []; gens = []
        for fn, imports, chunks in pl.files:
            out = ['package ' + name, '']
            sp = []
            for im in imports:
                sp.append((len(out) + 1, len(out) + 1, ('import', imports, im), pl))
                out.append('import ' + im)
            for c in chunks:
                if c.dropped: continue
                if not harness and any('*vrand' in l for l in c.lines): continue
                a = len(out) + 1
                out += c.lines
                sp.append((a, len(out), c, pl))
                if c.kind == 'func' and c.name:
                    if c.name.startswith('vlemma') or c.name.startswith('vfinding'): lem.append(c.name)
                    if c.name.startswith('vgen_'): gens.append(c.name)
            key = put(fn, '\n'.join(out) + '\n')
            spans[key] = sp; spans[rep[key]] = sp
        if harness:
            put('harness.go', open(os.path.join(VERIF, 'contracts', '_lib', 'harness.go')).read().replace('package PKG', 'package ' + name))
            t = ['package ' + name, '', 'func VHarness(argv []string) {', '\tVMain(map[string]interface{}{']
            t += ['\t\t"%s": %s,' % (x, x) for x in lem]
            t += ['\t}, map[string]interface{}{']
            for x in gens:
                t.append('\t\t"%s": %s,' % (x.replace('vgen_', 'vlemma_', 1), x))
            t += ['\t}, nil, argv)', '}']
            put('reg.go', '\n'.join(t) + '\n')
    if harness:
        md = os.path.join(work, 'ov', 'main'); os.makedirs(md, exist_ok=True)
        t = ['package main', '', 'import (', '\t"os"']
        for k, p in enumerate(sorted(need)): t.append('\tp%d "%s/%s"' % (k, MOD, p))
        t += [')', '', 'func main() {', '\tswitch os.Args[1] {']
        for k, p in enumerate(sorted(need)): t += ['\tcase "%s":' % p, '\t\tp%d.VHarness(os.Args[2:])' % k]
        t += ['\t}', '}']
        f = os.path.join(md, 'main.go'); open(f, 'w').write('\n'.join(t) + '\n')
        rep[os.path.join(REPO, 'zz_verif_main', 'main.go')] = f
    ov = os.path.join(work, 'overlay.json')
    json.dump({'Replace': rep}, open(ov, 'w'))
    return ov, spans

def goenv():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1); e[k.decode()] = v.decode(errors='replace')
    return e

def build_ssadump(work, env):
    b = os.path.join(VERIF, '.cache', 'ssadump')
    src = os.path.join(VERIF, 'tool', 'ssadump', 'main.go')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(b) and os.path.exists(b + '.h') and open(b + '.h').read() == h: return b
    os.makedirs(os.path.dirname(b), exist_ok=True)
    e = dict(env); e['GOFLAGS'] = '-mod=mod'; e['GOSUMDB'] = 'off'; e['GOPROXY'] = 'off'
    tmp = b + '.%d' % os.getpid()
    r = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.dirname(src), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise SystemExit('cannot build ssadump: ' + r.stdout.decode()[:2000])
    os.rename(tmp, b); open(b + '.h', 'w').write(h)
    return b

def apply_errors(errs, spans):
    """drop the contract declarations that no longer type-check; returns True when something was dropped"""
    did = False; other = []
    for f, line, msg in errs:
        sp = spans.get(f)
        hit = False
        if sp:
            for a, b, c, pl in sp:
                if a <= line <= b:
                    hit = True
                    if isinstance(c, tuple):
                        if 'imported and not used' in msg and c[2] in c[1]: c[1].remove(c[2]); did = True
                    elif not c.dropped:
                        c.dropped = True; pl.dropped.append((c.name, msg)); did = True
        if not hit: other.append((f, line, msg))
    return did, other

def dump(plans, need, work, env, binp):
    ds = set()
    for p in need: ds |= plans[p].deps
    for rnd in range(8):
        ov, spans = write_overlay(plans, need, work, False)
        args = [binp, '-dir', REPO, '-overlay', ov] + ['./' + p for p in sorted(set(need) | ds)]
        out = os.path.join(work, 'dump.json')
        with open(out, 'w') as fo:
            r = subprocess.run(args, stdout=fo, stderr=subprocess.PIPE, cwd=REPO, env=env)
        if r.returncode == 0: return out, None
        errs = []
        txt = r.stderr.decode(errors='replace')
        for l in txt.split('\n'):
            m = re.match(r'ERR \S+ (.+?):(\d+):(\d+): (.*)', l)
            if m: errs.append((m[1], int(m[2]), m[4]))
        did, other = apply_errors(errs, spans)
        if not did: return None, txt[:3000]
    return None, 'contracts do not type-check'

def build_harness(plans, need, work, env):
    ov, spans = write_overlay(plans, need, work, True)
    b = os.path.join(work, 'vharness')
    r = subprocess.run(['go', 'build', '-overlay', ov, '-o', b, './zz_verif_main'], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, r.stdout.decode(errors='replace')[:3000]
    return b, None

# ---------------------------------------------------------------- parallel job runner
def run_jobs(jobs, nproc, deadline, mem=None):
    """jobs: list of (key, fn, limit_s, est); fn runs in a forked child and returns json-able; -> {key: result}"""
    res = {}; running = {}
    jobs = sorted(jobs, key=lambda j: -j[3])
    tmpd = None
    import tempfile
    tmpd = tempfile.mkdtemp(prefix='vjobs')
    k = 0
    try:
        while jobs or running:
            while jobs and len(running) < nproc and time.time() < deadline:
                key, fn, lim, _ = jobs.pop(0)
                k += 1
                outp = os.path.join(tmpd, str(k))
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                        r = fn()
                        with open(outp + '.t', 'w') as f: json.dump(r, f)
                        os.rename(outp + '.t', outp)
                    except BaseException:
                        with open(outp + '.err', 'w') as f: f.write(traceback.format_exc())
                    os._exit(0)
                running[pid] = (key, outp, time.time() + lim)
            if jobs and time.time() >= deadline:
                for key, fn, lim, _ in jobs: res[key] = {'status': 'timeout', 'why': 'the time of this check ran out before the lemma was tried'}
                jobs = []
            done = []
            for pid in list(running):
                r, st = os.waitpid(pid, os.WNOHANG)
                key, outp, end = running[pid]
                if r == 0:
                    if time.time() > min(end, deadline + 5):
                        try: os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            try: os.kill(pid, signal.SIGKILL)
                            except OSError: pass
                        os.waitpid(pid, 0)
                        res[key] = {'status': 'timeout', 'why': 'time limit'}
                        del running[pid]
                    continue
                del running[pid]
                if os.path.exists(outp): res[key] = json.load(open(outp))
                else: res[key] = {'status': 'crash', 'why': open(outp + '.err').read()[-600:] if os.path.exists(outp + '.err') else 'process ended (%d)' % st}
            time.sleep(0.02)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    return res

# ---------------------------------------------------------------- main
def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('--pkg', default='')
    ap.add_argument('--noprove', action='store_true')
    ap.add_argument('--secs', type=float, default=0)
    ap.add_argument('--replay', default='')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 780 if tier == 'quick' else 3000
    prove_dl = t0 + (500 if tier == 'quick' else 2400)
    nproc = os.cpu_count() or 4
    plans = load_contracts()
    need = {}
    own = {p for p, pl in plans.items() if any(a.prop in c.props for c in pl.lemmas.values())}
    for p, pl in plans.items():
        if a.pkg and p not in a.pkg.split(','): continue
        for n, c in pl.lemmas.items():
            if a.prop != 'ALL' and a.prop not in c.props and not (p in own and set(c.props) & BASE.get(a.prop, set())): continue
            if a.only and not any(x in n for x in a.only.split(',')): continue
            if c.opts.get('tier') == 'thorough' and tier != 'thorough': continue
            need.setdefault(p, []).append(n)
        for n, c in pl.findings.items():
            if a.prop in c.props and not a.only: need.setdefault(p, [])
    if not need: raise SystemExit('no contract lemma for ' + a.prop)
    import tempfile
    work = tempfile.mkdtemp(prefix='vp_%s_' % a.prop)
    try:
        return run(a, tier, seed, t0, limit, prove_dl, nproc, plans, need, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

# what a property's functions rest on in the same package (address codecs, numbers, low-s, DER) is decided in its check too
CODEC = {'P01', 'P02', 'P03', 'P05', 'P06'}
BASE = {'P09': {'P01', 'P02', 'P03'}, 'P11': {'P01', 'P05', 'P06'}, 'P12': {'P01', 'P02', 'P06'}, 'P14': {'P02'}}
for _i in range(15, 30): BASE['P%d' % _i] = CODEC

def fmt_inputs(ft, inputs): return json.dumps(inputs)[:1500]

def run(a, tier, seed, t0, limit, prove_dl, nproc, plans, need, work):
    prop = a.prop
    env = goenv()
    binp = build_ssadump(work, env)
    log('[%s] ssadump ready %.1fs' % (prop, time.time() - t0))
    dfile, err = dump(plans, need, work, env, binp)
    viol = []; known = []
    if dfile is None:
        rp = write_replay(prop, 'build', {'obligation': 'the code under contract builds', 'output': err})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        write_evidence(prop, tier, seed, t0, {}, {}, {}, 1, [], {'build': err})
        return 1
    log('[%s] dump %.1fs' % (prop, time.time() - t0))
    hb, herr = build_harness(plans, need, work, env)
    if hb is None: log('harness does not build:', herr)
    log('[%s] harness %.1fs' % (prop, time.time() - t0))
    if a.replay:
        j = json.load(open(a.replay))
        f = os.path.join(work, 'in.json'); json.dump([j['inputs']], open(f, 'w'))
        r = subprocess.run([hb, j['package'], 'replay', j['lemma'], f], stdout=subprocess.PIPE)
        print(r.stdout.decode()); return r.returncode
    from ir import Prog
    import verify, contracts_py
    prog = Prog(dfile)
    dropped = {}
    jobs = []; meta = {}
    for p in sorted(need):
        pl = plans[p]
        for d in pl.dropped: dropped['%s.%s' % (p, d[0])] = d[1]
        full = MOD + '/' + p
        live = [n for n in need[p] if not pl.lemmas[n].dropped]
        if not live: continue
        if a.noprove:
            for n in live: meta[(p, n)] = pl.lemmas[n]
            continue
        try:
            heap, ot = verify.init_heap(prog, full, REPO)
            ierr = None
        except Exception as x:
            heap, ot = {}, {}; ierr = repr(x)
        for n in live:
            c = pl.lemmas[n]
            meta[(p, n)] = c
            if 'search' in c.opts: c.opts.setdefault('bounded', 'executed on generated inputs only: ' + c.opts['search']); continue
            bud = float(c.opts.get('budget', 120)) * (1 if tier == 'quick' else 4)
            sto = int(float(c.opts.get('timeout', 8)) * 1000 * (1 if tier == 'quick' else 3))
            bud = min(bud, 420 if tier == 'quick' else 2400)
            def fn(full=full, n=n, heap=heap, ot=ot, bud=bud, sto=sto, c=c, ierr=ierr, mult=1):
                if ierr: return {'lemma': n, 'status': 'unsupported', 'why': 'package initialiser: ' + ierr}
                ct = contracts_py.get(c.opts, prog, full)
                return verify.run_lemma(prog, full + '.' + n, heap, ot, ct, REPO, sto * mult, bud * (2 if mult > 1 else 1), int(c.opts.get('maxpaths', 6000)), [x for x in c.opts.get('summ', '').split(',') if x])
            jobs.append(((p, n), fn, bud * 1.3 + 20, float(c.opts.get('est', bud if 'budget' in c.opts else 10))))
    res = run_jobs(jobs, nproc, prove_dl, mem=6 << 30) if jobs else {}
    # solver gave up ('unknown') on everything that is open: one more attempt with a larger solver timeout
    again = []
    for k, fn, lim, est in jobs:
        r = res.get(k) or {}
        if r.get('status') == 'failed' and r.get('fails') and all(f['verdict'] == 'unknown' for f in r['fails']): again.append((k, (lambda fn=fn: fn(mult=6)), lim * 2, est))
    if again and time.time() < prove_dl:
        log('[%s] retrying %d lemmas with a larger solver timeout' % (prop, len(again)))
        res.update(run_jobs(again, nproc, prove_dl + 60, mem=6 << 30))
    log('[%s] prove %.1fs' % (prop, time.time() - t0))
    for k, v in dropped.items(): log('   DROPPED', k, v)
    # which lemmas are open
    open_ = {}
    for k in meta:
        r = res.get(k)
        if r is None: continue
        why = None
        if r['status'] == 'ok':
            if r.get('unreached'): why = [{'kind': 'vacuity', 'pos': ','.join(map(str, r['unreached'])), 'fn': k[1], 'msg': 'the end of the lemma is no longer reachable', 'verdict': 'unreached', 'inputs': None}]
        elif r['status'] == 'failed': why = r['fails']
        else: why = [{'kind': r['status'], 'pos': '', 'fn': k[1], 'msg': r.get('why', ''), 'verdict': 'undecided', 'inputs': None}] + r.get('fails', [])
        if why: open_[k] = why
        log('   %s.%s %s %s %.1fs (solver %.1fs) obl=%d paths=%d' % (k[0], k[1], r['status'], r.get('why', '')[:160], r.get('time', 0), r.get('solver_time', 0), sum(x[3] for x in r.get('obl', [])), r.get('paths', 0)))
        for f in (why or [])[:6]: log('       ', f['kind'], f['pos'], f['fn'].split('/')[-1], (f['msg'] or '')[:200], f['verdict'])
    # search: open lemmas get real time, proved ones a short conformance run of the compiled code
    sres = {}
    if hb:
        left = max(30, limit - (time.time() - t0) - 40)
        nopen = max(1, len(open_))
        per_open = min(60 if tier == 'quick' else 200, max(8, left * 0.8 * nproc / (nopen + 1)))
        per_ok = 2.0 if tier == 'quick' else 20.0
        if len(meta): per_ok = min(per_ok, max(0.3, (60 if tier == 'quick' else 400) * nproc / len(meta)))
        if a.secs: per_open = per_ok = a.secs
        dfile2 = {}
        jobs = []
        for k, c in meta.items():
            isop = k in open_
            nrep = 1
            if isop and nopen < nproc: nrep = max(1, min(4, nproc // nopen))
            inp = []
            for f in open_.get(k, []):
                if f.get('inputs'): inp.append([x[1] for x in f['inputs']])
            fi = os.path.join(work, '%s.%s.in.json' % (k[0].replace('/', '_'), k[1])); json.dump(inp, open(fi, 'w'))
            dc = os.path.join(work, '%s.%s.dict.json' % (k[0].replace('/', '_'), k[1]))
            json.dump(harvest(prog, MOD + '/' + k[0], res.get(k, {}).get('used')), open(dc, 'w'))
            secs = per_open if isop else per_ok * (3 if 'search' in c.opts else 1)
            for q in range(nrep):
                def fn(k=k, secs=secs, fi=fi, dc=dc, q=q):
                    r = subprocess.run(['timeout', '-k', '2', str(int(secs + 60)), hb, k[0], 'search', k[1], str(seed * 100 + q), str(secs), fi, dc], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    o = r.stdout.decode(errors='replace').strip().split('\n')[-1]
                    try: return json.loads(o)
                    except ValueError: return {'lemma': k[1], 'failed': r.returncode not in (124, 137), 'msg': 'process died: ' + r.stderr.decode(errors='replace')[:300], 'inputs': None, 'tried': 0, 'skipped': 0, 'source': 'crash'}
                jobs.append((k + (q,), fn, secs + 90, (1e6 if isop else 0)))
        sres = run_jobs(jobs, nproc, t0 + limit)
        log('[%s] search %.1fs' % (prop, time.time() - t0))
    fnd = {}
    if hb:
        for p in need:
            for n, c in plans[p].findings.items():
                if prop not in c.props or c.dropped: continue
                r = subprocess.run(['timeout', '60', hb, p, 'search', n, '1', '1'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                try: j = json.loads(r.stdout.decode().strip().split('\n')[-1])
                except ValueError: j = {'failed': True, 'msg': 'died'}
                fnd[(p, n)] = j
    bad = 0
    for k in sorted(meta):
        hits = [sres.get(k + (q,)) for q in range(4)]
        hits = [h for h in hits if h and h.get('failed')]
        hit = next((h for h in hits if h.get('inputs') is not None), hits[0] if hits else None)
        r = res.get(k, {})
        if k not in open_ and not hit: continue
        bad += 1
        ob = ['%s at %s in %s: %s [%s]' % (f['kind'], f['pos'], f['fn'], f['msg'], f['verdict']) for f in open_.get(k, [])]
        ob = list(dict.fromkeys(ob))
        doc = {'property': prop, 'package': k[0], 'lemma': k[1], 'contract': os.path.relpath(meta[k].file, VERIF), 'failed_obligations': ob[:20]}
        if hit:
            doc['inputs'] = hit.get('inputs'); doc['observed'] = hit['msg']; doc['found_by'] = hit.get('source')
            doc['rerun'] = 'bash /verif/check.sh %s --replay THIS_FILE' % prop
            rp = write_replay(prop, k[0].replace('/', '_') + '.' + k[1], doc)
            log('   failing input for %s.%s: %s %s' % (k[0], k[1], hit['msg'][:300], json.dumps(hit.get('inputs'))[:400]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            doc['verifier_output'] = open_[k]
            rp = write_replay(prop, k[0].replace('/', '_') + '.' + k[1], doc)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    for p in sorted(need):
        live = [n for n in need[p] if not plans[p].lemmas[n].dropped]
        if need[p] and not live:
            bad += 1
            rp = write_replay(prop, p.replace('/', '_') + '.contract', {'failed_obligations': ['no contract lemma of package %s type-checks any more' % p], 'dropped': plans[p].dropped})
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    for (p, n), j in sorted(fnd.items()):
        if j.get('failed'):
            w = plans[p].findings[n]
            txt = ' '.join(l[2:].strip() for l in w.lines if l.startswith('// '))
            print('KNOWN-FINDING: property=%s %s.%s %s' % (prop, p, n, txt))
    write_evidence(prop, tier, seed, t0, meta, res, sres, bad, open_, dropped)
    sys.stdout.flush()
    return 1 if bad else 0

def harvest(prog, pkg, used):
    strs = set(); nums = set()
    names = set(used or [])
    for n, f in prog.fns.items():
        if names and n not in names: continue
        if not names and not n.startswith(pkg + '.'): continue
        for b in f.blocks:
            for i in b['ins']:
                walk_const(i, strs, nums)
    return {'Strs': sorted(strs)[:400], 'Nums': sorted(nums)[:400]}

def walk_const(x, strs, nums):
    if isinstance(x, dict):
        if 'str' in x and isinstance(x['str'], str) and len(x['str']) < 400:
            strs.add(x['str'])
        v = x.get('int')
        if isinstance(v, str):
            try:
                if 0 <= int(v) < 1 << 64: nums.add(int(v))
            except ValueError: pass
        elif isinstance(v, int) and 0 <= v < 1 << 64: nums.add(v)
        for y in x.values(): walk_const(y, strs, nums)
    elif isinstance(x, list):
        for y in x: walk_const(y, strs, nums)

def write_replay(prop, name, doc):
    d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s.%s.json' % (prop, name))
    doc.setdefault('property', prop)
    with open(f, 'w') as o: json.dump(doc, o, indent=1, default=str)
    return f

def write_evidence(prop, tier, seed, t0, meta, res, sres, bad, open_, dropped):
    if prop == 'ALL': return
    d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    tot = dis = q = 0; st = 0.0; fns = {}; assumed = set(); summ = set(); per = []
    kinds = {}
    for k in sorted(meta):
        r = res.get(k, {})
        nf = len(r.get('fails', []))
        o = sum(x[3] for x in r.get('obl', []))
        ok = r.get('status') == 'ok' and k not in open_
        n = max(o, 1)
        if 'bounded' not in meta[k].opts: tot += n; dis += n if ok else max(0, o - max(1, nf))
        for x in r.get('obl', []): kinds[x[0]] = kinds.get(x[0], 0) + x[3]
        q += r.get('queries', 0); st += r.get('solver_time', 0)
        for u in r.get('used', []):
            if '.vlemma' in u or '.vspec' in u or u.rsplit('.', 1)[-1].startswith('v') and u.rsplit('.', 1)[-1] in ('vassert', 'vassume', 'veqb', 'veqs', 'vrev', 'vcopy', 'vsame', 'vreach'): continue
            fns.setdefault(u.replace(MOD + '/', ''), []).append(k[1])
        for x in r.get('assumed', []): assumed.add(x)
        for x in r.get('summarised', []): summ.add(x.replace(MOD + '/', ''))
        per.append({'lemma': '%s.%s' % k, 'status': ('bounded (%s)' % meta[k].opts['bounded'] if 'bounded' in meta[k].opts else 'proved') if ok or 'search' in meta[k].opts else r.get('status', 'not run'), 'obligations': o, 'paths': r.get('paths', 0), 'solver_s': round(r.get('solver_time', 0), 2), 'wall_s': round(r.get('time', 0), 2)})
    tried = sum((v or {}).get('tried', 0) for v in sres.values()); sk = sum((v or {}).get('skipped', 0) for v in sres.values())
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
           'coverage': {'obligations': tot, 'discharged': dis,
                        'checker_cmd': 'bash /verif/check.sh %s --tier %s' % (prop, tier),
                        'trusted_base': ['engine/*.py: symbolic executor, loop-invariant inference and lemma runner', 'tool/ssadump with golang.org/x/tools/go/ssa (front end)', 'z3 (back end of every obligation that is not closed by term simplification)', 'models of standard-library and go-owcrypt functions in engine/intr.py'],
                        'backend': 'z3', 'solver_queries': q, 'solver_time_s': round(st, 2), 'obligations_by_kind': kinds,
                        'functions_under_contract': {k: sorted(set(v)) for k, v in sorted(fns.items())},
                        'bounded_stand_ins_not_counted_as_proved': sorted('%s.%s: %s' % (k[0], k[1], meta[k].opts['bounded']) for k in meta if 'bounded' in meta[k].opts),
                        'loops_with_inferred_invariants': sorted(summ), 'lemmas': per,
                        'contracts_dropped_because_their_subject_no_longer_exists': dropped,
                        'conformance_runs_on_compiled_code': {'executions': tried, 'precondition_skips': sk}},
           'assumptions': sorted(assumed) + ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': bad}
    with open(os.path.join(d, prop + '.json'), 'w') as o: json.dump(doc, o, indent=1)

ASSUME = ['slices handed in by the caller have capacity equal to their length and distinct arguments do not overlap',
          'package-level variables are only written by package initialisers',
          'int is 64 bits wide; all integer arithmetic is exact two\'s-complement machine arithmetic (bit-vectors)',
          'memory is sufficient for every allocation']

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
