"""Run the contract lemmas of one or more packages: symbolic execution + SMT for every obligation."""
import sys, os, json, time, traceback, z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from val import *
from ir import *
import ex, intr
from ex import Engine, PathEnd, LoopLimit, Failure, Struct

def setup_engine(prog, contracts=None, repo='/repo', timeout=8000):
    e = Engine(prog, intr.I, contracts or {}, repo=repo, timeout=timeout)
    e.lazy['G:encoding/binary.LittleEndian'] = lambda st, a: Struct(())
    e.lazy['G:encoding/binary.BigEndian'] = lambda st, a: Struct(())
    e.reached = set()
    return e

class InitEngine(Engine):
    """executes package initialisers; anything without a model yields an opaque value"""
    def call(self, st, fr, ins, name, args, bind=()):
        if name.endswith('.init'):
            f = self.p.fns.get(name)
            if f is None or len(st.frames) > 40:
                fr.ip += 1
                if 'r' in ins: fr.regs[ins['r']] = None
                return None
        try:
            return Engine.call(self, st, fr, ins, name, args, bind)
        except Unsupported:
            fr.ip += 1
            if 'r' in ins: fr.regs[ins['r']] = self.opaque(ins['t'])
            return None
    def opaque(self, t):
        k = self.p.kind(t)
        if k == 'tuple': return tuple(self.opaque(x) for x in self.p.ti(t)['elems'])
        if k == 'iface': return Iface(False, None, 'init!%d' % self.fid())
        if k == 'ptr': return Ptr(self.alloc(self._st, Opaque('init'), 'op', ('val', self.p.ti(t)['elem'])))
        if k in ('int', 'bool', 'string', 'slice'): raise Unsupported('opaque init value')
        return Opaque('init')

def init_heap(prog, pkg, repo='/repo'):
    """heap after running the package initialiser (globals)"""
    e = InitEngine(prog, intr.I, {}, repo=repo)
    e.lazy['G:encoding/binary.LittleEndian'] = lambda st, a: Struct(())
    e.lazy['G:encoding/binary.BigEndian'] = lambda st, a: Struct(())
    e.reached = set(); e.silent = 1
    h = {}
    for g in prog.globals:
        t = g['t']
        try: h['G:' + g['name']] = ((), e.zero(t), ()); e.otypes['G:' + g['name']] = ('val', t)
        except Unsupported: pass
    st = e.new_state(h)
    e._st = st
    f = prog.fns.get(pkg + '.init')
    if f is None: return st.heap, e.otypes
    e.push(st, f, [], 'TOP')
    st.frames[-1].ret = 'TOP'
    out = e.run(st)
    rets = [s for k, s in out if k == 'ret']
    if len(rets) != 1: raise Unsupported('package initialiser forks')
    return rets[0].heap, e.otypes

def run_lemma(prog, name, heap, otypes, contracts=None, repo='/repo', timeout=8000, budget=600, maxpaths=4000, summ=()):
    t0 = time.time()
    force = set()
    e = None
    res = {'lemma': name}
    for attempt in range(6):
        e = setup_engine(prog, contracts, repo, timeout)
        e.nfresh = 1000000
        e.otypes.update(otypes); e.force = force; e.summ = set(summ); e.curlemma = name; e.maxpaths = maxpaths
        if 'lin' in e.summ:
            import lin
            e.lin = lin.Lin()
        e.deadline = t0 + budget
        try:
            f = prog.fns[name]
            st = e.new_state(dict(heap))
            args = []
            for p in f.params:
                v = e.mk_input(st, p['t'], p['n'])
                args.append(v); e.inputs.append((p['n'], p['t'], v))
            e.push(st, f, args, 'TOP', (), 'c' if '.vlemmac_' in name else True)
            out = e.run(st)
            res['status'] = 'ok' if not e.fails else 'failed'
            res['ends'] = len([1 for k, s in out if k == 'ret'])
            break
        except LoopLimit as l:
            force = force | {l.key}; continue
        except Unsupported as u:
            res['status'] = 'unsupported'; res['why'] = str(u)[:600]
            if os.environ.get('VDEBUG'): traceback.print_exc()
            break
        except z3.Z3Exception as u:
            res['status'] = 'unsupported'; res['why'] = 'solver: ' + str(u)[:400]
            if os.environ.get('VDEBUG'): traceback.print_exc()
            break
        except (KeyError, IndexError, AttributeError, TypeError, AssertionError, RecursionError, ValueError) as u:
            res['status'] = 'unsupported'; res['why'] = 'engine: ' + repr(u)[:400]
            if os.environ.get('VDEBUG'): traceback.print_exc()
            break
    else:
        res['status'] = 'unsupported'; res['why'] = 'loop limit'
    # vreach markers of the lemma
    marks = set()
    f = prog.fns.get(name)
    if f:
        for b in f.blocks:
            for i in b['ins']:
                if i['op'] == 'call' and (i.get('callee') or '').endswith('.vreach'): marks.add(i.get('pos'))
    res['unreached'] = sorted(m for m in marks if m not in e.reached) if res['status'] == 'ok' else []
    res['time'] = time.time() - t0
    res['solver_time'] = e.sv.time; res['queries'] = e.sv.n; res['unknown'] = e.sv.unknowns
    res['paths'] = e.paths; res['steps'] = e.steps
    res['obl'] = [[k[0], k[1], k[2], v[0], v[1]] for k, v in e.obl.items()]
    res['used'] = sorted(e.used); res['assumed'] = sorted(e.assumed); res['summarised'] = sorted('%s#%d' % k for k in e.summarised)
    fs = []
    seen = set()
    for x in e.fails:
        k = (x.kind, x.pos, x.fn)
        if k in seen and x.inputs is None: continue
        seen.add(k)
        if len(fs) < 40: fs.append({'kind': x.kind, 'pos': x.pos, 'fn': x.fn, 'msg': x.msg, 'verdict': x.verdict, 'stack': x.stack, 'inputs': x.inputs})
    res['fails'] = fs
    return res

if __name__ == '__main__':
    prog = Prog(sys.argv[1])
    pkg = sys.argv[2]
    pats = sys.argv[3:]
    heap, ot = init_heap(prog, pkg)
    for n in sorted(prog.fns):
        if not n.startswith(pkg + '.vlemma'): continue
        if pats and not any(p in n for p in pats): continue
        r = run_lemma(prog, n, heap, ot)
        print(n.rsplit('.', 1)[1], r['status'], r.get('why', ''), '%.1fs solver %.1fs q=%d paths=%d steps=%d ends=%s obl=%d' % (r['time'], r['solver_time'], r['queries'], r['paths'], r['steps'], r.get('ends'), sum(x[3] for x in r['obl'])), 'UNREACHED %s' % r['unreached'] if r['unreached'] else '')
        for f in r['fails'][:8]: print('    FAIL', f['kind'], f['pos'], f['fn'], f['msg'][:200], f['verdict'], json.dumps(f['inputs'])[:300] if f['inputs'] is not None else None)
