"""contracts on callees that are used at call sites instead of inlining the body"""
def get(opts, prog, pkg):
    """opaque=f,g : calls to f and g are uninterpreted pure functions;  contracts=f:vcontract_f : calls are replaced by a contract function"""
    import intr
    out = {}; every = set()
    for fn in [x for x in opts.get('opaque', '').split(',') if x]:
        names = [n for n in prog.fns if n.endswith('.' + fn) and (n.startswith(pkg + '.') or n.startswith('(' + pkg) or n.startswith('(*' + pkg) or '.' in fn)]
        if ')' in fn: names = [n for n in prog.fns if n.startswith(('(' + pkg + '.', '(*' + pkg + '.')) and n.endswith('.' + fn)]
        elif '.' in fn: names = [n for n in prog.fns if n.rsplit('/', 1)[-1] == fn]
        for n in names: out[n] = intr.opaque_call(n); every.add(n)
    for c in [x for x in opts.get('contracts', '').split(',') if x]:
        f, g = c.split(':')
        for n in prog.fns:
            if n.startswith((pkg + '.', pkg + '/', '(' + pkg + '.', '(*' + pkg + '.')) and n.endswith('.' + f):
                out[n] = pkg + '.' + g.lstrip('+')
                if g[0] == '+': every.add(n)      # replaced in the lemma's own code as well
    for c in [x for x in opts.get('inverse', '').split(',') if x]:
        f, g = c.split(':')
        for n in prog.fns:
            if n in out and n.endswith('.' + f): out[n] = intr.opaque_inverse(n, g, out[n])
    out['!every'] = every
    return out
