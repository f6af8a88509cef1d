"""debug printer of sequence grammars"""
from terms import *
import terms as TM

def prune(t, c, memo=None):
    """deeply simplify t knowing c"""
    if c is TRUE: return t
    memo = {} if memo is None else memo
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'ite':
            r = restrict(t, c)
            if r is not t:
                r = go(r)
            elif True:
                # prune leaves under their own conditions is too costly here
                r = lift(go1, t)
        else:
            r = go1(t)
        memo[t] = r
        return r
    def go1(t):
        if t.op in ('gam','spl','one'):
            x = go(t.a[0])
            return mk(t.op, x)
        if t.op in ('rec',):
            return mk('rec', t.a[0], t.a[1], t.a[2], tuple(go(x) for x in t.a[3]))
        if t.op == 'seq':
            return seq([go(x) for x in t.a])
        return t
    return go(t)

def pp(t, ind=0, out=None, seen=None, w=200):
    top = out is None
    if top: out, seen = [], set()
    P = lambda s: out.append('  ' * ind + s)
    if t.op == 'seq':
        for s in t.a: pp(s, ind, out, seen, w)
    elif t.op == 'one':
        if t.a[0].op in ('seq','ite','join'):
            P('ONE:'); pp(t.a[0], ind+1, out, seen, w)
        else: P('one ' + show(t.a[0], 20)[:w])
    elif t.op == 'lit': P(repr(t.a[0]))
    elif t.op == 'hole': P('{' + show(t.a[0], 12)[:w] + (':' + t.a[1] if t.a[1] else '') + '}')
    elif t.op == 'rep':
        L = t.a[0]; l = LOOPS[L]
        P('REP %s count=%s dom=%s guard=%s' % (L, show(l.count,8)[:w] if l.count else None, show(l.dom,8)[:w] if l.dom else None, show(l.guard,8)[:w] if l.guard else None))
        if L not in seen:
            seen.add(L)
            for k,(i,n) in l.cells.items():
                P('   cell %s: init %s' % (k, show(i,8)[:w]))
                P('        next %s' % (show(n,14)[:w]))
        pp(t.a[1], ind+1, out, seen, w)
    elif t.op == 'gam':
        pp(t.a[0], ind, out, seen, w)
    elif t.op == 'ite':
        P('IF ' + show(t.a[0], 10)[:w]); pp(t.a[1], ind+1, out, seen, w)
        P('ELSE'); pp(t.a[2], ind+1, out, seen, w)
    elif t.op == 'spl':
        P('..'); pp(t.a[0], ind+1, out, seen, w)
    elif t.op == 'rec' and t.a[3]:
        P(t.a[0] + ':' + t.a[1])
        for n, v in zip(t.a[2], t.a[3]):
            P(' .' + n); pp(v, ind+1, out, seen, w)
    elif t.op in ('join',):
        P('JOIN sep=%s' % show(t.a[1])); pp(t.a[0], ind+1, out, seen, w)
    else: P(show(t, 20)[:w])
    if top: return '\n'.join(out)
