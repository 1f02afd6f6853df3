import json

BASIC = {'bool': None, 'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
         'uint': (64, False), 'uint8': (8, False), 'byte': (8, False), 'uint16': (16, False), 'uint32': (32, False),
         'uint64': (64, False), 'uintptr': (64, False), 'rune': (32, True), 'untyped int': (64, True), 'untyped rune': (32, True)}

class Loop:
    def __init__(self, header, body, latches):
        self.header = header; self.body = body; self.latches = latches

class Fn:
    def __init__(self, j):
        self.name = j['name']; self.short = j['short']; self.params = j['params']; self.freevars = j['freevars']
        self.results = j['results']; self.pkg = j.get('pkg'); self.blocks = j['blocks']; self.pos = j['pos']
        self._loops = None
    @property
    def loops(self):
        if self._loops is None: self._mkloops()
        return self._loops
    def _mkloops(self):
        b = self.blocks
        def dom(a, x):
            while x != -1:
                if x == a: return True
                x = b[x]['idom']
            return False
        loops = {}
        for u in b:
            for h in u['succs']:
                if dom(h, u['i']):
                    body = {h}; st = [u['i']]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(b[x]['preds'])
                    if h in loops:
                        loops[h].body |= body; loops[h].latches.append(u['i'])
                    else:
                        loops[h] = Loop(h, body, [u['i']])
        # defs inside each loop
        for l in loops.values():
            l.defs = {i['r'] for x in l.body for i in b[x]['ins'] if 'r' in i}
        self._loops = loops

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {f['name']: Fn(f) for f in d['funcs']}
        self.globals = d['globals']
        self.gtypes = {g['name']: g['t'] for g in d['globals']}
        self.tbystr = {t['str']: i for i, t in enumerate(self.types)}
    def ti(self, t): return self.types[t]
    def intinfo(self, t):
        ty = self.types[t]
        if ty['k'] == 'basic': return BASIC.get(ty['basic'])
        return None
    def kind(self, t):
        ty = self.types[t]
        if ty['k'] == 'basic':
            n = ty['basic']
            if n in ('bool', 'untyped bool'): return 'bool'
            if n in ('string', 'untyped string'): return 'string'
            if BASIC.get(n): return 'int'
            if n == 'untyped nil': return 'nil'
            return 'other'
        return ty['k']
    def isbig(self, t):
        ty = self.types[t]
        return ty.get('named') == 'math/big.Int'
    def elem_desc(self, t):
        """element descriptor for bases over element type t"""
        ii = self.intinfo(t)
        if ii: return ('bv', ii[0])
        if self.kind(t) == 'bool': return ('bool',)
        return t
