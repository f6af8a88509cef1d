import sys, time
from terms import *
import terms as TM
import engine, facts

def program(names=None):
    fs, dg = facts.load(names or facts.NAMES[:1])
    return engine.Program(fs)

def evaluate(prog, fn, params=None, crate=None, tag='', cuts=()):
    """value, engine after evaluating fn on symbolic parameters"""
    E = engine.Engine(prog, tag, cuts)
    E.root_crate = crate or fn.facts
    args = []
    for i in range(fn.argc):
        n = fn.names.get(i + 1, 'arg%d' % i)
        ty = fn.locals[i + 1]
        p = (params or {}).get(n)
        if p is None:
            p = mk('param', n)
            if ty == 'bool':
                p = atom(p)
        if ty.startswith('&mut'):
            cell = ('P', n)
            E.st[cell] = p
            p = ref(cell)
        args.append(p)
    try:
        v = E.run_fn(fn, args, 'root')
    except engine.Diverge:
        v = mk('never')
    return v, E

if __name__ == '__main__':
    t0 = time.time()
    prog = program(facts.NAMES[:3])
    fn = [f for f in prog.find(sys.argv[1])][0]
    t1 = time.time()
    v, E = evaluate(prog, fn)
    t2 = time.time()
    print('load %.1f eval %.1f blocks %d terms %d loops %d' % (t1 - t0, t2 - t1, E.nblocks, TM._cnt[0], len(LOOPS)))
    print('UNMODELLED', {k: v for k, v in E.unmodelled.items()})
    print('inlined', len(E.inlined))
    for p in E.panics.values():
        print('PANIC', p['kind'], p['sp'], show(p['cond'], 6))
    print(show(v, 60))
    if len(sys.argv) > 2:
        import pp
        open(sys.argv[2], 'w').write(pp.pp(v, w=600))
        with open(sys.argv[2], 'a') as fh:
            for L in LOOPS:
                if '~' in L: continue
                l = LOOPS[L]
                fh.write('\n=== LOOP %s count=%s dom=%s exits=%s\n' % (L, show(l.count, 6) if l.count else None, show(l.dom, 6) if l.dom else None, {k: show(c, 5) for k, c in l.exits.items()}))
                for k, (i, n) in l.cells.items():
                    fh.write('--- %s init %s\n' % (k, show(i, 6)[:300]))
                    pass
                    o = []; pp.pp(n, 2, o, set(LOOPS), 300); fh.write('\n'.join(o) + '\n')
