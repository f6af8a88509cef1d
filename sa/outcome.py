"""Everything observable about a function: value, effects, panics, process exits."""
from terms import *
import terms as TM
import engine


class Outcome:
    def __init__(self, fn, v, E):
        self.fn, self.v, self.E = fn, v, E
        self.fx = E.st.get(('FX',), EMPTY)
        self.v = self.arrays(v)

    def arrays(self, t):
        """arrays handed to the browser, by their elements"""
        if t.op == 'ite':
            return ite(atom(t.a[0]), self.arrays(t.a[1]), self.arrays(t.a[2]))
        if t.op == 'jsarr':
            return TM.lift(lambda x: mk('jslist', x), self.E.st[t.a[0]])
        if t.op == 'rec' and any(x.op == 'jsarr' for x in t.a[3]):
            return mk('rec', t.a[0], t.a[1], t.a[2], tuple(self.arrays(x) for x in t.a[3]))
        return t

    def outs(self, i):
        """final value behind the i-th &mut parameter"""
        return self.E.st.get(('P', 'p%d' % i))


def evaluate(prog, fn, tag='', cuts=(), crate=None, names=None):
    E = engine.Engine(prog, tag, cuts)
    E.root_crate = crate or fn.facts
    args = []
    for i in range(fn.argc):
        ty = fn.locals[i + 1]
        nm = names[i] if names and i < len(names) else 'p%d' % i
        p = mk('param', nm)
        if ty == 'bool':
            p = atom(p)
        if ty.startswith('&mut'):
            cell = ('P', 'p%d' % i)
            E.st[cell] = p
            p = ref(cell)
        args.append(p)
    E.st[('FX',)] = EMPTY
    E.args = args
    try:
        v = E.run_fn(fn, args, 'root')
    except engine.Diverge:
        v = mk('never')
    return Outcome(fn, v, E)
