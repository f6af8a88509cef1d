"""The bundled circuits: constraints as index-ranged equations, coverage of reads, recovery of
the automaton and of the reveal edges, helper gates and composite wiring."""
import json, os
import circ, rx
from terms import T

OUT0 = 'packages/circom/circuits'


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ linear forms
def L(c=0, **v):
    d = {k: x for k, x in v.items() if x}
    if c:
        d[''] = c
    return tuple(sorted(d.items()))


def ladd(a, b, s=1):
    d = dict(a)
    for k, x in b:
        d[k] = d.get(k, 0) + s * x
    return tuple(sorted((k, x) for k, x in d.items() if x))


def lscale(a, s):
    return tuple((k, x * s) for k, x in a) if s else ()


def lconst(a):
    if not a:
        return 0
    return a[0][1] if len(a) == 1 and a[0][0] == '' else None


def lshow(a):
    if not a:
        return '0'
    return '+'.join((k if x == 1 else '%d%s' % (x, k and '*' + k)) if k else str(x) for k, x in sorted(a, reverse=True)).replace('+-', '-')


def lle(a, b):
    """a <= b for all parameter values >= 1"""
    d = dict(ladd(b, a, -1))
    c = d.pop('', 0)
    return all(x >= 0 for x in d.values()) and c + sum(d.values()) >= 0


def subst(a, v, by):
    d = dict(a)
    if v not in d:
        return a
    k = d.pop(v)
    return ladd(tuple(sorted(d.items())), lscale(by, k))


class Asg:
    def __init__(self, base, path, op, rhs, loops, text):
        self.base, self.path, self.op, self.rhs, self.loops, self.text = base, path, op, rhs, loops, text


class Flat:
    """declarations and assignments of one template"""

    def __init__(self, t):
        self.name, self.params = t[1], t[2]
        self.sig, self.comp, self.asg, self.eqs, self.vars = {}, {}, [], [], {}
        self.order = []
        self.vexp = {}
        self.n = 0
        for p in self.params:
            self.vars[p] = L(**{p: 1})
        self.go(t[3], ())

    def lin(self, e, env=None):
        env = env or self.vars
        k = e[0]
        if k == 'num':
            v = e[1]
            if isinstance(v, T) and v.op == 'int':
                v = v.a[0]
            if isinstance(v, int):
                return L(v)
        elif k == 'id' and isinstance(e[1], str) and e[1] in self.vars:
            return self.vars[e[1]]
        elif k == 'bin' and e[1] in '+-':
            return ladd(self.lin(e[2]), self.lin(e[3]), 1 if e[1] == '+' else -1)
        elif k == 'bin' and e[1] == '*':
            a, b = self.lin(e[2]), self.lin(e[3])
            if lconst(a) is not None:
                return lscale(b, lconst(a))
            if lconst(b) is not None:
                return lscale(a, lconst(b))
        raise Unsupported('index ' + circ.eshow(e))

    def loc(self, e):
        """name, path of a signal expression"""
        path = []
        while e[0] in ('idx', 'dot'):
            path.append(('i', self.lin(e[2])) if e[0] == 'idx' else ('f', e[2]))
            e = e[1]
        if e[0] != 'id' or not isinstance(e[1], str):
            raise Unsupported('signal ' + circ.eshow(e))
        return e[1], tuple(reversed(path))

    def rhs(self, e):
        """expression with indices evaluated: ('sig', base, path) ('c', lin) ('+'|'-'|'*', a, b) ('call', name, args, sigs) ('proj', call, k)"""
        k = e[0]
        if k == 'num':
            return ('c', self.lin(e))
        if k == 'id':
            if e[1] in self.vexp:
                return self.vexp[e[1]]
            if e[1] in self.vars:
                return ('c', self.vars[e[1]])
            return ('sig', e[1], ())
        if k in ('idx', 'dot'):
            b, p = self.loc(e)
            return ('sig', b, p)
        if k == 'bin' and e[1] in '+-*':
            return (e[1], self.rhs(e[2]), self.rhs(e[3]))
        if k == 'call':
            return ('inst', e[1], tuple(self.lin(x) for x in e[2]))
        if k == 'anon' and e[1][0] == 'call':
            return ('call', e[1][1], tuple(self.lin(x) for x in e[1][2]), tuple(self.rhs(x) for x in e[2]))
        if k == 'arr':
            return ('arr', tuple(self.rhs(x) for x in e[1]))
        raise Unsupported('expression ' + circ.eshow(e))

    def summed(self, body):
        """(variable, expression) of a loop that only adds up an expression"""
        if len(body) == 1 and body[0][0] == 'block':
            body = body[0][1]
        if len(body) != 1 or body[0][0] != 'assign' or body[0][1][0] != 'id' or body[0][1][1] not in self.vars or body[0][1][1] in self.params:
            return None
        v, op, e = body[0][1][1], body[0][2], body[0][3]
        if op == '+=':
            return v, e
        if op == '=' and e[0] == 'bin' and e[1] == '+' and ('id', v) in (e[2], e[3]):
            return v, e[3] if e[2] == ('id', v) else e[2]
        return None

    def first(self, init, body):
        """(first round, other rounds) of a loop that treats its first round separately"""
        if init[0] != 'var' or init[3] is None or init[1] in self.vars or not any(s[0] == 'if' for s in body):
            return None
        one, rest = [], []
        for s in body:
            if s[0] != 'if':
                one.append(s)
                rest.append(s)
                continue
            c = s[1]
            if c[0] != 'bin' or c[2] != ('id', init[1]) or c[1] not in ('==', '!=', '>') or self.lin(c[3]) != self.lin(init[3]):
                return None
            a, b = list(s[2]), list(s[3] or [])
            one += a if c[1] == '==' else b
            rest += b if c[1] == '==' else a
        return one, rest

    def go(self, ss, loops):
        for s in ss:
            k = s[0]
            if k == 'signal':
                self.sig[s[2]] = (s[1], [self.lin(x) for x in s[3]])
                if s[1]:
                    self.order.append((s[1], s[2]))
            elif k == 'component':
                self.comp[s[1]] = [self.lin(x) for x in s[2]]
            elif k == 'var':
                if s[3] is None or s[2]:
                    raise Unsupported('variable ' + s[1])
                self.vars[s[1]] = self.lin(s[3])
            elif k == 'assign':
                tx = '%s %s %s' % (circ.eshow(s[1]), s[2], circ.eshow(s[3]))
                if s[2] == '===':
                    self.eqs.append((self.rhs(s[1]), self.rhs(s[3]), loops, tx))
                elif s[2] == '<--' and s[1][0] != 'tuple':
                    b, p = self.loc(s[1])
                    try:
                        r = self.rhs(s[3])
                    except Unsupported:
                        r = ('hint', tx)
                    self.asg.append(Asg(b, p, s[2], r, loops, tx))
                elif s[2] in ('<==', '=', '<--'):
                    if s[1][0] == 'tuple':
                        r = self.rhs(s[3])
                        for j, x in enumerate(s[1][1]):
                            b, p = self.loc(x)
                            self.asg.append(Asg(b, p, s[2], ('proj', r, j), loops, tx))
                    else:
                        if s[1][0] == 'id' and s[1][1] in self.vars:
                            raise Unsupported('variable update ' + tx)
                        b, p = self.loc(s[1])
                        self.asg.append(Asg(b, p, s[2], self.rhs(s[3]), loops, tx))
                else:
                    raise Unsupported(tx)
            elif k == 'while':
                # a counter that goes up by one at the end of each round
                c, body = s[1], s[2]
                v = c[2][1] if c[0] == 'bin' and c[1] in ('<', '<=') and c[2][0] == 'id' else None
                if body and body[0][0] == 'block' and len(body) == 1:
                    body = body[0][1]
                st = body[-1] if body else ('none',)
                if v not in self.vars or v in self.params or st[0] != 'assign' or st[2] != '+=' or st[1] != ('id', v) or self.lin(st[3]) != L(1):
                    raise Unsupported('while')
                lo = self.vars.pop(v)
                if lconst(lo) is None:
                    raise Unsupported('while')
                self.go([('for', ('var', v, (), ('num', lconst(lo))), c, st, list(body[:-1]))], loops)
            elif k == 'for':
                init, c, st, body = s[1:5]
                down = init[0] == 'var' and init[3] is not None and c[0] == 'bin' and c[1] in ('>', '>=') and c[2] == ('id', init[1]) and \
                    st[0] == 'assign' and st[2] == '-=' and st[1] == ('id', init[1]) and self.lin(st[3]) == L(1)
                x = self.summed(body)
                if down and x is None:
                    # the same positions in the other order
                    lo = ('bin', '+', c[3], ('num', 1)) if c[1] == '>' else c[3]
                    self.go([('for', ('var', init[1], init[2], lo), ('bin', '<=', ('id', init[1]), init[3]), ('assign', st[1], '+=', st[3]), body)], loops)
                    continue
                if not loops and x is not None and init[0] == 'var' and init[3] is not None and c[0] == 'bin' and c[1] in ('<', '<=') and c[2] == ('id', init[1]) and \
                        st[0] == 'assign' and st[2] == '+=' and st[1] == ('id', init[1]) and self.lin(st[3]) == L(1):
                    lo, hi = self.lin(init[3]), self.lin(c[3])
                    if c[1] == '<':
                        hi = ladd(hi, L(1), -1)
                    old = self.vars.get(init[1])
                    self.vars[init[1]] = ladd(J, lo)
                    e = self.rhs(x[1])
                    if old is None:
                        del self.vars[init[1]]
                    else:
                        self.vars[init[1]] = old
                    t = ('sum', 'SUM', e, ladd(hi, lo, -1))
                    was = self.vexp.get(x[0]) or ('c', self.vars[x[0]])
                    self.vexp[x[0]] = t if was == ('c', L()) else ('+', was, t)
                    continue
                first = self.first(init, body)
                if first is not None:
                    self.vars[init[1]] = self.lin(init[3])
                    self.go(first[0], loops)
                    del self.vars[init[1]]
                    self.go([('for', ('var', init[1], init[2], ('bin', '+', init[3], ('num', 1))), c, st, first[1])], loops)
                    continue
                if init[0] == 'var' and init[3] is not None and c[0] == 'bin' and c[1] in ('<', '<=') and c[2] == ('id', init[1]) and \
                        st[0] == 'assign' and st[2] == '+=' and st[1] == ('id', init[1]) and self.lin(st[3]) == L(1):
                    self.n += 1
                    v = '%s#%d' % (init[1], self.n)
                    lo, hi = self.lin(init[3]), self.lin(c[3])
                    if c[1] == '<':
                        hi = ladd(hi, L(1), -1)
                    old = self.vars.get(init[1])
                    self.vars[init[1]] = L(**{v: 1})
                    self.go(body, loops + ((v, lo, hi),))
                    if old is None:
                        del self.vars[init[1]]
                    else:
                        self.vars[init[1]] = old
                else:
                    raise Unsupported('loop ' + circ.eshow(c))
            elif k == 'block':
                self.go(s[1], loops)
            elif k in ('comment', 'pragma', 'include'):
                pass
            else:
                raise Unsupported(k)


def box(path, loops):
    """index path -> ranges per index (fields as they are)"""
    out = []
    for k, x in path:
        if k == 'f':
            out.append(x)
            continue
        lo = hi = x
        for v, a, b in reversed(loops):
            c = dict(x).get(v, 0)
            if c not in (0, 1, -1):
                raise Unsupported('index stride')
            if c == 1:
                lo, hi = subst(lo, v, a), subst(hi, v, b)
            elif c == -1:
                lo, hi = subst(lo, v, b), subst(hi, v, a)
        out.append((lo, hi))
    return out


def covered(want, have):
    """is the box `want` covered by the union of the boxes `have` (one dimension may be pieced together)"""
    if any(len(h) == len(want) and all(inside(w, x) for w, x in zip(want, h)) for h in have):
        return True
    for d in range(len(want)):
        if isinstance(want[d], str):
            continue
        hs = [h[d] for h in have if len(h) == len(want) and all(inside(w, x) for j, (w, x) in enumerate(zip(want, h)) if j != d)]
        p, e = want[d]
        go = True
        while go:
            go = False
            for j, (lo, hi) in enumerate(hs):
                if lle(lo, p):
                    # also true when the piece is empty or ends before p
                    if lle(e, hi):
                        return True
                    p = ladd(hi, L(1))
                    del hs[j]
                    go = True
                    break
    return False


def inside(w, x):
    if isinstance(w, str) or isinstance(x, str):
        return w == x
    return lle(x[0], w[0]) and lle(w[1], x[1])


def empty(b, loops):
    return any(not lle(lo, hi) and lle(ladd(hi, L(1)), lo) for v, lo, hi in loops)


# gates of the standard circuit library
LIB = {'IsEqual': [('in', 2)], 'IsZero': [('in', None)], 'LessThan': [('in', 2)], 'LessEqThan': [('in', 2)], 'GreaterThan': [('in', 2)],
       'GreaterEqThan': [('in', 2)], 'AND': [('a', None), ('b', None)], 'OR': [('a', None), ('b', None)], 'NOT': [('in', None)], 'XOR': [('a', None), ('b', None)],
       'MultiAND': [('in', 'n')], 'Num2Bits': [('in', None)]}


class Lib:
    """all bundled templates"""

    def __init__(self, repo):
        self.files, self.t, self.where, self.err = {}, {}, {}, {}
        self.inc = {}
        root = os.path.join(repo, OUT0)
        fs = []
        for d, ds, xs in os.walk(root):
            ds.sort()
            fs += [os.path.join(d, f) for f in sorted(xs) if f.endswith('.circom')]
        for f in fs:
            n = os.path.relpath(f, root)
            try:
                a = circ.parse_text(open(f, encoding='utf8').read())
            except (circ.ParseError, RecursionError) as e:
                self.err[n] = str(e)
                continue
            self.files[n] = a
            self.inc[n] = [s[1] for s in a if s[0] == 'include']
            for s in a:
                if s[0] == 'template':
                    try:
                        self.t[s[1]] = Flat(s)
                    except Unsupported as e:
                        self.t[s[1]] = None
                        self.err[n + ':' + str(s[1])] = str(e)
                    self.where[s[1]] = n

    def ports(self, name, args):
        """input ports of a template: [(name, [dims as Lin])]"""
        if name in self.t and self.t[name] is not None:
            f = self.t[name]
            out = []
            for k, n in f.order:
                if k == 'input':
                    ds = []
                    for d in f.sig[n][1]:
                        for p, a in zip(f.params, args):
                            d = subst(d, p, a)
                        ds.append(d)
                    out.append((n, ds))
            return out
        if name in LIB:
            return [(n, [] if k is None else [args[0] if k == 'n' else L(k)]) for n, k in LIB[name]]
        return None


def reads(r, out):
    if r[0] == 'sig':
        out.append((r[1], r[2]))
    elif r[0] in '+-*':
        reads(r[1], out)
        reads(r[2], out)
    elif r[0] == 'call':
        for x in r[3]:
            reads(x, out)
    elif r[0] == 'arr':
        for x in r[1]:
            reads(x, out)
    elif r[0] == 'proj':
        reads(r[1], out)
    elif r[0] == 'sum':
        raise Unsupported('positions read by a sum')
    return out


def whole(dims):
    return [(L(), ladd(d, L(1), -1)) for d in dims]


def constrained(lib, f):
    """(violations, unknowns, obligations) of assignment coverage of one template"""
    bad, unk, n = [], [], 0
    have = {}
    for a in f.asg:
        if a.op == '<--' and any(a.base == b for x, y, _, _ in f.eqs for b, p in reads(x, []) + reads(y, [])):
            unk.append('constrained elsewhere: ' + a.text)
        elif a.op == '<--':
            bad.append('assigned without a constraint: ' + a.text)
        bx = box(a.path, a.loops)
        if a.base in f.sig:
            bx += whole(f.sig[a.base][1][len([x for x in bx if not isinstance(x, str)]):])
        have.setdefault(a.base, []).append((bx, a))
    rd = []
    for a in f.asg:
        for b, p in reads(a.rhs, []):
            rd.append((b, p, a.loops, a.text))
    for x, y, loops, tx in f.eqs:
        for b, p in reads(x, []) + reads(y, []):
            rd.append((b, p, loops, tx))
    for k, o in f.order:
        if k == 'output':
            rd.append((o, (), (), 'signal output ' + o))
    seen = set()
    for b, p, loops, tx in rd:
        bx = box(p, loops)
        if (b, repr(bx)) in seen:
            continue
        seen.add((b, repr(bx)))
        if b in f.sig:
            if f.sig[b][0] == 'input':
                continue
            ds = f.sig[b][1]
            bx += whole(ds[len(bx):])
            n += 1
            if empty(bx, loops):
                continue
            if not covered(bx, [h for h, a in have.get(b, [])]):
                bad.append('%s is read but not constrained at every position read by: %s' % (b, tx[:160]))
        elif b in f.comp:
            n += 1
            ix = [x for x in bx if not isinstance(x, str)][:len(f.comp[b])]
            if not covered(ix, [h for h, a in have.get(b, []) if a.op == '=']):
                bad.append('component %s is read but not created for: %s' % (b, tx[:160]))
        else:
            unk.append('unknown signal %s in %s' % (b, tx[:160]))
    # every input port of every component instance
    for b in f.comp:
        inst = [(h, a) for h, a in have.get(b, []) if a.op == '=']
        n += 1
        if f.comp[b] and not covered(whole(f.comp[b]), [h for h, a in inst]) and not pieces(f.comp[b], [h for h, a in inst]):
            bad.append('component array %s is declared larger than it is used' % b)
        for h, a in inst:
            if a.rhs[0] != 'inst':
                unk.append(a.text)
                continue
            ps = lib.ports(a.rhs[1], a.rhs[2])
            if ps is None:
                unk.append('unknown template %s' % a.rhs[1])
                continue
            mine = [x for x, y in have[b] if y.op == '<==' and len(x) > len(h) and all(inside(w, z) for w, z in zip(h, x))]
            for pn, pd in ps:
                n += 1
                hs = [x[len(h):] for x in mine if x[len(h)] == pn]
                hs = [x + whole(pd) if len(x) == 1 else x for x in hs]
                if not covered([pn] + whole(pd), hs) and not pieces(pd, [x[1:] for x in hs]):
                    bad.append('input %s of %s is not driven completely (%s)' % (pn, b + ''.join('[%s..%s]' % (lshow(x), lshow(y)) for x, y in h), a.text[:120]))
                if pd and any(not lle(x[1][1], ladd(pd[0], L(1), -1)) for x in hs):
                    bad.append('input %s of %s is driven outside its width (%s)' % (pn, b, a.text[:120]))
    # no position assigned twice
    for b, hs in have.items():
        keys = {}
        for h, a in hs:
            k = repr(h)
            if k in keys and a.op == keys[k].op:
                bad.append('assigned twice: %s / %s' % (keys[k].text[:120], a.text[:120]))
            keys[k] = a
    return bad, unk, n


def pieces(dims, have):
    """the union of single positions covers the whole array (constant dims)"""
    if not dims:
        return bool(have)
    n = lconst(dims[0])
    if n is None:
        return covered(whole(dims), have)
    for j in range(n):
        hs = [h[1:] for h in have if h and inside((L(j), L(j)), h[0])]
        if not hs:
            return False
        if len(dims) > 1 and not covered(whole(dims[1:]), hs) and not pieces(dims[1:], hs):
            return False
    return True


# ------------------------------------------------------------------ automaton recovery
class Auto:
    """transition relation of a regex template"""

    def __init__(self, lib, name):
        self.lib, self.f = lib, lib.t[name]
        f = self.f
        self.msgs = []
        main = {}
        for a in f.asg:
            if a.base == 'states' and len(a.path) == 2 and len(a.loops) == 1:
                c = dict(a.path[0][1]).get(a.loops[0][0], 0)
                if c == 1:
                    main.setdefault(a.loops[0][0], []).append(a)
        if not main:
            raise Unsupported('no state updates')
        self.v = max(main, key=lambda k: len(main[k]))
        self.loop = main[self.v][0].loops[0]
        self.defs = {}
        for a in f.asg:
            if len(a.loops) == 1 and a.loops[0][0] == self.v:
                self.defs.setdefault(self.key(a.base, a.path), []).append(a)
        self.memo = {}
        sd = f.sig['states'][1]
        self.n = lconst(sd[1])
        if self.n is None:
            raise Unsupported('number of states')

    def key(self, b, p):
        """base and path with the step variable as an offset"""
        out = []
        for k, x in p:
            if k == 'f':
                out.append(x)
            else:
                d = dict(x)
                s = d.pop(self.v, 0)
                out.append((s, tuple(sorted(d.items()))))
        return (b, tuple(out))

    def val(self, e):
        """DNF: frozenset of (prev states, byte mask, flags)"""
        k = e[0]
        if k == 'c':
            c = lconst(e[1])
            if c == 0:
                return frozenset()
            if c == 1:
                return frozenset([(frozenset(), rx.ALL, frozenset())])
            raise Unsupported('constant %s as a truth value' % lshow(e[1]))
        if k == '*':
            return self.conj(self.val(e[1]), self.val(e[2]))
        if k == '-' and e[1] == ('c', L(1)):
            return self.neg(self.val(e[2]))
        if k == 'sig':
            return self.sigval(e[1], e[2])
        if k == 'call':
            return self.gate(e[1], e[2], list(self.flatargs(e[3])))
        raise Unsupported('operand %s' % (e,))

    def flatargs(self, xs):
        for x in xs:
            if x[0] == 'arr':
                for y in x[1]:
                    yield y
            else:
                yield x

    def conj(self, a, b):
        return frozenset((p | q, m & n, f | g) for p, m, f in a for q, n, g in b if m & n)

    def neg(self, a):
        if all(not p and not f for p, m, f in a):
            u = 0
            for p, m, f in a:
                u |= m
            u = rx.ALL & ~u
            return frozenset([(frozenset(), u, frozenset())]) if u else frozenset()
        if len(a) == 1:
            (p, m, f), = a
            if not p and m == rx.ALL and len(f) == 1:
                g, = f
                return frozenset([(p, m, frozenset([g[1:] if g[0] == '!' else '!' + g]))])
        raise Unsupported('negation')

    def gate(self, g, args, ins):
        if g in ('AND', 'MultiAND'):
            r = frozenset([(frozenset(), rx.ALL, frozenset())])
            for x in ins:
                r = self.conj(r, self.val(x))
            return r
        if g in ('OR', 'MultiOR'):
            r = frozenset()
            for x in ins:
                r |= self.val(x)
            return r
        if g == 'IsEqual':
            return self.cmp(lambda a, b: a == b, ins)
        if g in ('LessEqThan', 'LessThan', 'GreaterEqThan', 'GreaterThan'):
            if lconst(args[0]) is None or lconst(args[0]) < 8:
                raise Unsupported('comparison of %s bits' % lshow(args[0]))
            op = {'LessEqThan': lambda a, b: a <= b, 'LessThan': lambda a, b: a < b, 'GreaterEqThan': lambda a, b: a >= b, 'GreaterThan': lambda a, b: a > b}[g]
            return self.cmp(op, ins)
        if g == 'NOT':
            return self.neg(self.val(ins[0]))
        raise Unsupported('gate ' + g)

    def byte(self, e):
        if e[0] == 'c' and lconst(e[1]) is not None:
            return lambda x, c=lconst(e[1]): c
        if e[0] == 'sig' and e[1] == 'in' and self.key(e[1], e[2]) == ('in', ((1, ()),)):
            return lambda x: x
        raise Unsupported('comparison operand')

    def cmp(self, op, ins):
        a, b = self.byte(ins[0]), self.byte(ins[1])
        m = 0
        for x in range(256):
            if op(a(x), b(x)):
                m |= 1 << x
        return frozenset([(frozenset(), m, frozenset())]) if m else frozenset()

    def sigval(self, b, p):
        k = self.key(b, p)
        if k in self.memo:
            if self.memo[k] is None:
                raise Unsupported('cyclic ' + b)
            return self.memo[k]
        if b == 'states' and len(k[1]) == 2 and k[1][0] == (1, ()):
            s = lconst(k[1][1][1])
            return frozenset([(frozenset([s]), rx.ALL, frozenset())])
        if b == 'from_zero_enabled' and k[1] == ((1, ()),):
            return frozenset([(frozenset(), rx.ALL, frozenset(['fz']))])
        self.memo[k] = None
        if k[1] and k[1][-1] == 'out' or b in self.f.comp:
            inst = self.defs.get((b, k[1][:-1]), [])
            inst = [a for a in inst if a.op == '=']
            if len(inst) != 1 or inst[0].rhs[0] != 'inst':
                raise Unsupported('component %s' % (k,))
            g, args = inst[0].rhs[1], inst[0].rhs[2]
            ins = []
            for pn, pd in self.lib.ports(g, args) or []:
                w = [None] if not pd else list(range(lconst(pd[0])))
                for j in w:
                    q = (b, k[1][:-1] + (pn,) + (() if j is None else ((0, L(j)),)))
                    ds = self.defs.get(q, [])
                    if len(ds) != 1:
                        raise Unsupported('input %s' % (q,))
                    ins.append(ds[0].rhs)
            r = self.gate(g, args, ins)
        else:
            ds = self.defs.get(k, [])
            if len(ds) != 1:
                raise Unsupported('%d definitions of %s' % (len(ds), k))
            r = self.val(ds[0].rhs)
        self.memo[k] = r
        return r

    def transitions(self):
        """(from, to, needs from-zero flag) -> mask"""
        tr = {}
        for s in range(1, self.n):
            k = ('states', ((1, L(1)), (0, L(s))))
            ds = self.defs.get(k, [])
            if len(ds) != 1:
                raise Unsupported('state %d has %d updates' % (s, len(ds)))
            for p, m, f in self.val(ds[0].rhs):
                if not p and m:
                    self.bad.append('state %d becomes active whatever the previous state is: %s' % (s, ds[0].text))
                    continue
                if len(p) != 1:
                    raise Unsupported('update of state %d depends on several states' % s)
                q = (next(iter(p)), s, f)
                tr[q] = tr.get(q, 0) | m
        return tr


def lookup(f, base, loops=None):
    return [a for a in f.asg if a.base == base]


def check_language(lib, name, parts):
    """(violations, unknowns, facts) of B01 for a template"""
    bad, unk = [], []
    A = Auto(lib, name)
    f = A.f
    A.bad = bad
    tr = A.transitions()
    facts = {'states': A.n, 'transitions': len(tr)}
    for (p, s, fl), m in sorted(tr.items(), key=repr):
        if p == 0 and fl != frozenset(['fz']):
            bad.append('the transition from the start state to state %d is not restricted to a fresh start' % s)
        if p != 0 and fl:
            bad.append('the transition from state %d to state %d depends on a fresh start' % (p, s))
        if m & 1:
            bad.append('the transition from state %d to state %d is enabled by the padding byte' % (p, s))
    trans = [dict() for _ in range(A.n)]
    for (p, s, fl), m in tr.items():
        for x in range(256):
            if m >> x & 1:
                if trans[p].get(x, s) != s:
                    bad.append('byte %d leads from state %d to both %d and %d' % (x, p, trans[p][x], s))
                trans[p][x] = s
    # fresh start: no other state after the same byte
    fz = A.defs.get(('from_zero_enabled', ((1, ()),)), [])
    want = set(range(1, A.n))
    if len(fz) != 1:
        bad.append('the fresh start flag has %d definitions' % len(fz))
    else:
        r = fz[0].rhs
        if r[0] == 'call' and r[1] == 'MultiNOR':
            got = set()
            for x in A.flatargs(r[3]):
                if x[0] != 'sig' or x[1] not in ('states', 'states_tmp'):
                    unk.append('fresh start flag reads %s' % (x,))
                    continue
                k = A.key(x[1], x[2])
                if k[1][0] != (1, L(1)):
                    bad.append('the fresh start flag reads %s of another step' % x[1])
                s = lconst(k[1][1][1])
                got.add(s)
                if x[1] == 'states' and ('states_tmp', k[1]) in A.defs:
                    bad.append('the fresh start flag reads state %d after the start transition' % s)
                if x[1] == 'states_tmp':
                    t = A.sigval('states_tmp', x[2])
                    u = {}
                    for p, m, fl in t:
                        for q in p:
                            u[(q, fl)] = u.get((q, fl), 0) | m
                    full = {(p, fl): m for (p, s2, fl), m in tr.items() if s2 == s and p != 0}
                    if u != full:
                        bad.append('the fresh start flag ignores a transition into state %d' % s)
            if got != want:
                bad.append('the fresh start flag ignores states %s' % sorted(want - got))
        else:
            unk.append('fresh start flag: ' + fz[0].text)
    acc = accept_state(f)
    facts['accept'] = acc
    own = None
    if acc is None:
        unk.append('accepting state not found')
    else:
        d = rx.DFA([dict(m) for m in trans], {acc})
        e, own = rx.merged(parts)
        for m in e.trans:
            m.pop(0, None)
        e.trim()
        dd = rx.DFA([dict(m) for m in trans], {acc}).trim()
        diffs, pairs = rx.product(dd, e)
        for k, w in diffs:
            bad.append('%s, after %r (first: circuit, second: definition)' % (k, w))
        facts['pairs'] = len(pairs)
    return bad, unk, facts, A, trans, acc, own


def accept_state(f):
    xs = [a for a in f.asg if a.base == 'is_accepted' and a.path and a.path[0] == ('f', 'in')]
    if len(xs) == 1 and xs[0].rhs[0] == 'sig' and xs[0].rhs[1] == 'states':
        return lconst(xs[0].rhs[2][1][1])
    return None


# ------------------------------------------------------------------ equations in closed form
def rsub(e, v, by):
    """replace an index variable in an expression"""
    k = e[0]
    if k == 'c':
        return ('c', subst(e[1], v, by))
    if k == 'sig':
        return ('sig', e[1], tuple((t, subst(x, v, by)) if t == 'i' else (t, x) for t, x in e[2]))
    if k in '+-*':
        return (k, rsub(e[1], v, by), rsub(e[2], v, by))
    if k == 'call':
        return ('call', e[1], tuple(subst(x, v, by) for x in e[2]), tuple(rsub(x, v, by) for x in e[3]))
    if k == 'arr':
        return ('arr', tuple(rsub(x, v, by) for x in e[1]))
    if k == 'proj':
        return ('proj', rsub(e[1], v, by), e[2])
    return e


J = L(j=1)


def at(a):
    """(position pattern, right hand side, range) of an assignment with one loop, written over position j"""
    if not a.loops:
        return a.path, a.rhs, None
    if len(a.loops) > 1:
        raise Unsupported('nested loops: ' + a.text)
    v, lo, hi = a.loops[0]
    for n, (k, x) in enumerate(a.path):
        if k == 'i' and v in dict(x):
            c = dict(x)[v]
            if c not in (1, -1):
                raise Unsupported('index stride')
            rest = ladd(x, lscale(L(**{v: 1}), c), -1)
            sol = lscale(ladd(J, rest, -1), c)
            path = tuple((t, subst(y, v, sol)) if t == 'i' else (t, y) for t, y in a.path)
            e1, e2 = subst(x, v, lo), subst(x, v, hi)
            return path, rsub(a.rhs, v, sol), (e1, e2) if c == 1 else (e2, e1)
    raise Unsupported('loop without position: ' + a.text)


class Eqs:
    """closed form lookups in one template"""

    def __init__(self, lib, f):
        self.lib, self.f = lib, f
        self.by = {}
        for a in f.asg:
            try:
                p, r, g = at(a)
            except Unsupported:
                self.by.setdefault(a.base, []).append(None)
                continue
            self.by.setdefault(a.base, []).append((p, r, g, a))

    def find(self, b, path):
        """the unique defining expression of signal b at a path (None if there is none or several)"""
        hits = []
        for x in self.by.get(b, []):
            if x is None:
                return None
            p, r, g, a = x
            if len(p) > len(path) or a.op == '=':
                continue
            s = None
            ok = True
            for (k, u), (l, w) in zip(p, path):
                if k != l:
                    ok = False
                elif k == 'f':
                    ok = ok and u == w
                elif 'j' in dict(u):
                    t = ladd(w, ladd(u, J, -1), -1)
                    if s is not None and s != t:
                        ok = False
                    s = t
                elif u != w:
                    ok = False
                if not ok:
                    break
            if ok:
                if s is not None:
                    if g and lconst(s) is not None and (not lle(g[0], s)):
                        continue
                    r = rsub(r, 'j', s)
                hits.append((r, path[len(p):]))
        if len(hits) != 1:
            return None
        r, rest = hits[0]
        if rest:
            r = self.sel(r, rest)
        return r

    def sel(self, r, rest):
        if r[0] == 'sig':
            return ('sig', r[1], r[2] + rest)
        if r[0] == 'proj':
            return ('at', r, rest)
        return None

    def resolve(self, e, stop, depth=0):
        if depth > 60:
            raise Unsupported('depth')
        k = e[0]
        if k == 'sig':
            b, p = e[1], e[2]
            if b in stop or (b in self.f.sig and self.f.sig[b][0] == 'input'):
                return e
            if b in self.f.comp:
                return self.comp(b, p, stop, depth)
            r = self.find(b, p)
            if r is None:
                return e
            return self.resolve(r, stop, depth + 1)
        if k in '+-*':
            return (k, self.resolve(e[1], stop, depth + 1), self.resolve(e[2], stop, depth + 1))
        if k == 'call':
            return ('call', e[1], e[2], tuple(self.resolve(x, stop, depth + 1) for x in e[3]))
        if k == 'arr':
            return ('arr', tuple(self.resolve(x, stop, depth + 1) for x in e[1]))
        if k == 'proj':
            return ('proj', self.resolve(e[1], stop, depth + 1), e[2])
        if k == 'at':
            return ('at', self.resolve(e[1], stop, depth + 1), e[2])
        if k == 'sum':
            return ('sum', e[1], self.resolve(e[2], stop, depth + 1), e[3])
        return e

    def comp(self, b, p, stop, depth):
        n = len(self.f.comp[b])
        ix, rest = p[:n], p[n:]
        if not n and rest and rest[0][0] == 'f' and (rest[0] != ('f', 'out') or len(rest) != 1 or self.several(b)):
            return self.sub(b, rest, stop, depth)
        if len(rest) != 1 or rest[0] != ('f', 'out'):
            return ('sig', b, p)
        inst = None
        for x in self.by.get(b, []):
            if x and x[3].op == '=' and x[1][0] == 'inst':
                inst = x[1]
        if inst is None:
            return ('sig', b, p)
        ports = self.lib.ports(inst[1], inst[2])
        ins = []
        for pn, pd in ports or []:
            js = [()] if not pd else [(('i', L(j)),) for j in range(lconst(pd[0]))] if lconst(pd[0]) is not None else None
            if js is None:
                return ('sig', b, p)
            for q in js:
                r = self.find(b, ix + (('f', pn),) + q)
                if r is None:
                    return ('sig', b, p)
                ins.append(self.resolve(r, stop, depth + 1))
        return ('call', inst[1], inst[2], tuple(ins))


    def several(self, b):
        """the template of component b if it has several outputs"""
        xs = [x for x in self.by.get(b, []) if x and x[3].op == '=' and x[1][0] == 'inst']
        f = self.lib.t.get(xs[0][1][1]) if len(xs) == 1 else None
        outs = [o for k, o in f.order if k == 'output'] if f is not None else []
        return (xs[0][1], outs) if len(outs) > 1 else None

    def sub(self, b, rest, stop, depth):
        """an output of a sub-circuit, as if the sub-circuit was written as a call"""
        s = self.several(b)
        if s is None or rest[0][1] not in s[1]:
            return ('sig', b, rest)
        inst, outs = s
        ins = []
        for pn, pd in self.lib.ports(inst[1], inst[2]):
            q = (('f', pn),)
            r = self.find(b, q)
            if r is None and len(pd) == 1:
                ds = [x for x in self.by.get(b, []) if x and x[3].op == '<==' and len(x[0]) == 2 and x[0][0] == q[0]]
                if len(ds) != 1 or ds[0][0] != q + (('i', J),) or ds[0][2] != (L(), ladd(pd[0], L(1), -1)):
                    return ('sig', b, rest)
                r = unindexed(self, ds[0][1])
                if r is None:
                    r = ('arr', (('sig', 'each j: ' + pkey(poly(array(self, self.resolve(ds[0][1], stop, depth + 1)))), ()),))
            if r is None:
                return ('sig', b, rest)
            ins.append(self.resolve(r, stop, depth + 1) if r[0] != 'arr' else r)
        e = ('proj', ('call', inst[1], inst[2], tuple(ins)), outs.index(rest[0][1]))
        return ('at', e, rest[1:]) if rest[1:] else e


def unindexed(E, r):
    """the array whose element at position j is r"""
    if r[0] == 'at' and r[2] == (('i', J),):
        return r[1]
    if r[0] == 'sig' and len(r[2]) == 1 and r[2][0] == ('i', J) and r[1] in E.f.sig and len(E.f.sig[r[1]][1]) == 1:
        return ('sig', r[1], ())
    return None


def flatten(xs):
    out = []
    for x in xs:
        if x[0] == 'arr':
            out += flatten(x[1])
        else:
            out.append(x)
    return out


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return {k: c for k, c in r.items() if c}


def pkey(p):
    return '{' + ' + '.join('%s*%s' % (c, '*'.join(m)) if m else str(c) for m, c in sorted(p.items())) + '}'


ONE = {(): 1}


def poly(e):
    """polynomial over signals and comparison gates; boolean gates are expanded"""
    k = e[0]
    if k == 'c':
        r = {}
        for v, c in e[1]:
            r[(v,) if v else ()] = c
        return r
    if k == 'sig':
        return {(e[1] + ''.join('[%s]' % lshow(x) if t == 'i' else '.' + x for t, x in e[2]),): 1}
    if k == '+':
        return padd(poly(e[1]), poly(e[2]))
    if k == '-':
        return padd(poly(e[1]), poly(e[2]), -1)
    if k == '*':
        return pmul(poly(e[1]), poly(e[2]))
    if k == 'call':
        g, xs = e[1], [poly(x) for x in flatten(e[3])]
        if g in ('AND', 'MultiAND'):
            r = ONE
            for x in xs:
                r = pmul(r, x)
            return r
        if g == 'OR':
            return padd(padd(xs[0], xs[1]), pmul(xs[0], xs[1]), -1)
        if g == 'XOR' and len(xs) == 2:
            return padd(padd(xs[0], xs[1]), pmul(pmul(xs[0], xs[1]), {(): 2}), -1)
        if g == 'IsEqual' and len(xs) == 2:
            d = padd(xs[0], xs[1], -1)
            k = min([m for m in d if m], default=None)
            if k is not None and d[k] < 0:
                d = {m: -x for m, x in d.items()}
            return {('IsZero<>(%s)' % pkey(d),): 1}
        if g == 'NOT':
            return padd(ONE, xs[0], -1)
        if g == 'ORAnd':
            return pmul(padd(padd(xs[0], xs[1]), pmul(xs[0], xs[1]), -1), xs[2])
        if g == 'MultiNOR':
            return padd(ONE, {('MultiOR(' + ', '.join(sorted(map(pkey, xs))) + ')',): 1}, -1)
        if g == 'MultiOR':
            return {('MultiOR(' + ', '.join(sorted(map(pkey, xs))) + ')',): 1}
        return {('%s<%s>(%s)' % (g, ','.join(map(lshow, e[2])), ', '.join(pkey(x) for x in xs)),): 1}
    if k == 'proj':
        return {('%s.%d' % (pkey(poly(e[1])), e[2]),): 1}
    if k == 'at':
        return {(pkey(poly(e[1])) + ''.join('[%s]' % lshow(x) for t, x in e[2]),): 1}
    if k == 'arr':
        return {('[%s]' % ', '.join(pkey(poly(x)) for x in e[1]),): 1}
    raise Unsupported('polynomial of ' + k)


def sig(b, *ix):
    return ('sig', b, tuple(('f', x) if isinstance(x, str) else ('i', x) for x in ix))


def c(n):
    return ('c', L(n) if isinstance(n, int) else n)


def jj(n=0):
    return ladd(J, L(n))


def check_frame(lib, f, A, acc):
    """input, initial states, acceptance and change flags of a regex template"""
    bad, unk, n = [], [], 0
    N = L(**{f.params[0]: 1})
    NB = ladd(N, L(1))

    def defs(b):
        out = []
        for a in f.asg:
            if a.base == b:
                out.append(at(a) + (a,))
        return out

    def expect(what, cond, text='', base=None):
        nonlocal n
        n += 1
        if not cond:
            (bad if base is None or base in f.sig or base in f.comp else unk).append(what + (': ' + text if text else ''))

    # automaton input
    ds = defs('in')
    z = [d for d in ds if d[0] == (('i', L()),)]
    expect('the first automaton input is not the sentinel 255', len(z) == 1 and z[0][1] == c(255), z[0][3].text if z else '', base='in')
    m = [d for d in ds if d not in z]
    expect('the automaton does not read the message in order', len(m) == 1 and m[0][0] == (('i', J),) and m[0][1] == sig('msg', jj(-1)) and m[0][2] == (L(1), N),
           m[0][3].text if m else '', base='in')
    # range check
    E = Eqs(lib, f)
    want = ('call', 'LessThan', (L(8),), (('arr', (sig('msg', J), c(255))),))
    ok = False
    for x, y, loops, tx in f.eqs:
        if len(loops) != 1:
            continue
        v, lo, hi = loops[0]
        for p, q in ((x, y), (y, x)):
            if q == c(1) and lo == L() and lle(ladd(N, L(1), -1), hi):
                r = E.resolve(rsub(p, v, J), ())
                if r == want or r == ('call', 'LessThan', (L(8),), (sig('msg', J), c(255))):
                    ok = True
    expect('message bytes are not constrained to be below 255', ok)
    # initial states
    bx = [box(a.path, a.loops) for a in f.asg if a.base == 'states' and a.path[0] == ('i', L()) and a.rhs == c(0)]
    bx = [b for b in bx]
    expect('a state other than the start state is not initially inactive', A.n == 1 or covered([(L(), L()), (L(1), L(A.n - 1))], bx) or pieces([L(1), L(A.n - 1)], [[h[0], (ladd(h[1][0], L(1), -1), ladd(h[1][1], L(1), -1))] for h in bx]), base='states')
    on = [box(a.path, a.loops) for a in f.asg if a.base == 'states' and len(a.path) == 2 and a.path[1] == ('i', L()) and a.rhs == c(1)]
    expect('the start state is not active at every position', covered([(L(), N), (L(), L())], on), base='states')
    st0 = [a for a in f.asg if a.base == 'states' and len(a.path) == 2 and a.path[1] == ('i', L()) and a.rhs != c(1)]
    expect('the start state is updated', not st0, st0[0].text if st0 else '')
    # there is no fresh start after the last byte
    ds = [d for d in defs('from_zero_enabled') if d[0] == (('i', NB),)]
    expect('the position after the last byte counts as a fresh start', len(ds) == 1 and ds[0][1] == c(0), ds[0][3].text if ds else '',
           base='from_zero_enabled' if not ds else None)
    # acceptance
    ds = [d for d in defs('is_accepted') if d[3].op != '=']
    expect('acceptance does not look at every position', len(ds) == 1 and ds[0][2] == (L(), NB) and ds[0][1] == sig('states', J, L(acc)), ds[0][3].text if ds else '', base='is_accepted')
    inst = [d for d in defs('is_accepted') if d[3].op == '=']
    expect('acceptance is not a disjunction', len(inst) == 1 and inst[0][1] == ('inst', 'MultiOR', (ladd(NB, L(1)),)), inst[0][3].text if inst else '', base='is_accepted')
    ds = defs('out')
    expect('the output is not the acceptance', len(ds) == 1 and ds[0][1] == sig('is_accepted', 'out'), ds[0][3].text if ds else '', base='is_accepted')
    # change flags
    got = {}
    for d in defs('state_changed'):
        if d[3].op == '=':
            expect('the change flag has the wrong width', d[1] == ('inst', 'MultiOR', (L(A.n - 1),)) and d[2] == (L(), N), d[3].text)
        elif len(d[0]) == 3 and d[0][0] == ('i', J):
            got[lconst(d[0][2][1])] = d
    seen = set()
    for k, d in got.items():
        r = d[1]
        expect('the change flag reads another step', r[0] == 'sig' and r[1] == 'states' and r[2][0] == ('i', jj(1)), d[3].text)
        if r[0] == 'sig':
            seen.add(lconst(r[2][1][1]))
    expect('the change flag ignores states %s' % sorted(set(range(1, A.n)) - seen), seen == set(range(1, A.n)), base='state_changed')
    return bad, unk, n


def check_reveal(lib, f, A, trans, acc, own, parts, pairs):
    """reveal outputs against the public parts"""
    bad, unk, n = [], [], 0
    N = L(**{f.params[0]: 1})
    E = Eqs(lib, f)
    # consecutive run
    want = {
        2: ('call', 'ORAnd', (), (('arr', (('-', c(1), sig('from_zero_enabled', jj(2))), sig('states', jj(2), L(acc)), sig('is_consecutive', J, L(1)))),)),
        1: ('*', sig('state_changed', jj(1), 'out'), sig('is_consecutive', J, L(0))),
        0: ('+', ('*', sig('states', jj(2), L(acc)), ('-', c(1), sig('is_consecutive', jj(1), L(2)))), sig('is_consecutive', jj(1), L(2))),
    }
    seen = {}
    for a in f.asg:
        if a.base != 'is_consecutive':
            continue
        p, r, g = at(a)
        if p == (('i', N), ('i', L(2))):
            n += 1
            if r != c(0):
                bad.append('the run does not end after the last byte: ' + a.text)
            seen['end'] = 1
            continue
        k = lconst(p[1][1])
        if p[0] != ('i', J) or k not in want:
            unk.append(a.text)
            continue
        n += 1
        seen[k] = 1
        if g != (L(), ladd(N, L(1), -1)):
            bad.append('the run logic does not cover every byte: ' + a.text)
        if poly(r) != poly(want[k]):
            bad.append('the run logic is changed: ' + a.text)
    if set(seen) != {0, 1, 2, 'end'}:
        unk.append('run logic not found')
    # state pairs circuit -> definition
    cm = {}
    for p, q in pairs:
        cm.setdefault(p, q)
    public = [k for k, p in enumerate(parts) if p['is_public']]
    outs = [o for k, o in f.order if k == 'output' and o != 'out']
    n += 1
    if len(outs) != len(public):
        bad.append('%d reveal outputs for %d public parts' % (len(outs), len(public)))
        return bad, unk, n
    for o, k in zip(outs, public):
        exp = set()
        for p, m in enumerate(trans):
            for b, t in m.items():
                if own.get((cm.get(p), b)) == k:
                    exp.add((p, t))
        mixed = {(p, t) for p, m in enumerate(trans) for b, t in m.items() if p in cm and own.get((cm[p], b)) != k} & exp
        r = None
        for a in f.asg:
            if a.base == o:
                p, r, g = at(a)
                n += 1
                if p != (('i', J),) or g != (L(), ladd(N, L(1), -1)):
                    bad.append('%s is not defined for every byte: %s' % (o, a.text))
        if r is None:
            bad.append('%s is never assigned' % o)
            continue
        fs = factors(E.resolve(r, ('in', 'states', 'from_zero_enabled', 'state_changed', 'is_consecutive', 'out', 'is_accepted')))
        byte = [x for x in fs if x == sig('in', jj(1)) or x == sig('msg', J)]
        acc_ = [x for x in fs if x == sig('out')]
        run = [x for x in fs if x == sig('is_consecutive', J, L(2))]
        rest = [x for x in fs if x not in byte + acc_ + run]
        n += 4
        if len(byte) != 1:
            bad.append('%s does not copy the byte at its own position' % o)
        if not acc_:
            bad.append('%s does not depend on acceptance' % o)
        if not run:
            bad.append('%s does not depend on the accepted run' % o)
        if len(rest) != 1:
            (bad if not rest else unk).append('%s does not depend on the transitions of its part' % o if not rest else '%s has other factors' % o)
            continue
        got = set()
        for t in terms_(rest[0]):
            e = edge(t)
            n += 1
            if e is None:
                bad.append('%s: not a transition of a run: %s' % (o, pkey(poly(t))[:200]))
            else:
                got.add(e)
        for e in sorted(exp - got):
            bad.append('%s omits the transition %d -> %d of its public part' % (o, *e))
        for e in sorted(got - exp):
            bad.append('%s reveals the transition %d -> %d that does not belong to its public part' % (o, *e))
        if mixed:
            unk.append('%s: transitions shared with another part: %s' % (o, sorted(mixed)))
    return bad, unk, n


def factors(e):
    if e[0] == '*':
        return factors(e[1]) + factors(e[2])
    if e[0] == 'call' and e[1] in ('AND', 'MultiAND'):
        return [y for x in flatten(e[3]) for y in factors(x)]
    return [e]


def terms_(e):
    if e[0] == 'call' and e[1] in ('OR', 'MultiOR'):
        return [y for x in flatten(e[3]) for y in terms_(x)]
    return [e]


def edge(t):
    """(from, to) if the product is a transition from step j+1 to step j+2"""
    fs = factors(t)
    st = {}
    fl = None
    for x in fs:
        if x[0] == 'sig' and x[1] == 'states' and x[2][0][1] in (jj(1), jj(2)):
            st[x[2][0][1] == jj(2)] = lconst(x[2][1][1])
        elif x == sig('from_zero_enabled', jj(1)):
            fl = 'fz'
        elif x == ('-', c(1), sig('from_zero_enabled', jj(1))):
            fl = '!fz'
        else:
            return None
    if set(st) != {False, True} or fl is None or len(fs) != 3 or (fl == 'fz') != (st[False] == 0):
        return None
    return (st[False], st[True])


# ------------------------------------------------------------------ helper gates
def prefix(f, b):
    """X(j) if the array b holds running sums of X over its whole length"""
    d = [at(a) for a in f.asg if a.base == b]
    if len(d) != 2 or b not in f.sig or len(f.sig[b][1]) != 1:
        return None
    last = ladd(f.sig[b][1][0], L(1), -1)
    z = [x for x in d if x[0] == (('i', L()),)]
    s = [x for x in d if x[0] == (('i', J),)]
    if not z and len(s) == 1 and s[0][2] == (L(), ladd(last, L(1), -1)) and s[0][1][0] == '+':
        # from the last position to the first
        z = [x for x in d if x[0] == (('i', last),)]
        for x, y in ((s[0][1][1], s[0][1][2]), (s[0][1][2], s[0][1][1])):
            if len(z) == 1 and x == sig(b, jj(1)) and rsub(y, 'j', last) == z[0][1]:
                return 'SUM', y, last, L()
        return None
    if len(z) != 1 or len(s) != 1:
        return None
    r = s[0][1]
    if r[0] == '-' and r[1] == sig(b, jj(-1)):
        return 'DIFF', r[2], last, last
    if r[0] not in '+*':
        return None
    for x, y in ((r[1], r[2]), (r[2], r[1])):
        if x == sig(b, jj(-1)):
            if r[0] == '*':
                return 'PRODUCT', y, last, last
            if s[0][2] != (L(1), last):
                return 'PART', y, s[0][2], last
            if rsub(y, 'j', L()) == z[0][1]:
                return 'SUM', y, last, last
            if z[0][1] == c(0):
                return 'SUM', rsub(y, 'j', jj(1)), ladd(last, L(1), -1), last
            return 'SUM[from %s]' % pkey(poly(z[0][1])), y, last, last
    return None


def helper(lib, name):
    """polynomial of the output of a helper gate"""
    f = lib.t[name]
    E = Eqs(lib, f)
    sums = {}
    for b in f.sig:
        try:
            p = prefix(f, b)
        except Unsupported:
            p = None
        if p:
            sums[b] = p

    def go(e):
        k = e[0]
        if k == 'sig' and e[1] in sums and len(e[2]) == 1 and e[2][0][0] == 'i':
            kind, x, hi, last = sums[e[1]]
            if last == L() and e[2][0][1] != last:
                return e
            if e[2][0][1] == last and kind != 'PART':
                return ('sum', kind, x, hi)
            return ('sum', kind if kind != 'PART' else 'PART', x, hi if kind == 'PART' else ladd(hi, ladd(e[2][0][1], last, -1)))
        if k in '+-*':
            return (k, go(e[1]), go(e[2]))
        if k == 'call':
            return ('call', e[1], e[2], tuple(go(x) for x in e[3]))
        if k == 'arr':
            return ('arr', tuple(go(x) for x in e[1]))
        return e

    def pol(e):
        # sums become atoms
        def rep(e):
            if e[0] == 'sum':
                return ('sig', '%s(%s, 0..%s)' % (e[1], pkey(poly(e[2])), e[3] if isinstance(e[3], str) else lshow(e[3]) if not e[1] == 'PART' else '%s-%s' % tuple(map(lshow, e[3]))), ())
            if e[0] in '+-*':
                return (e[0], rep(e[1]), rep(e[2]))
            if e[0] in ('call',):
                return ('call', e[1], e[2], tuple(rep(x) for x in e[3]))
            if e[0] == 'arr':
                return ('arr', tuple(rep(x) for x in e[1]))
            return e
        return poly(rep(e))
    o = E.find('out', ())
    if o is None:
        raise Unsupported('%s has no single definition of its output' % name)
    return pol(go(E.resolve(o, tuple(sums))))


SUMIN = 'SUM({1*in[j]}, 0..n-1)'
GATES = {
    'MultiOR': ('disjunction of its inputs', [{(): 1, ('IsZero<>({1*%s})' % SUMIN,): -1}]),
    'MultiNOR': ('negated disjunction of its inputs', [{(): 1, ('MultiOR({1*in})',): -1}, {('IsZero<>({1*%s})' % SUMIN,): 1}]),
    'ORAnd': ('(first or second) and third input', [{('in[0]', 'in[2]'): 1, ('in[1]', 'in[2]'): 1, ('in[0]', 'in[1]', 'in[2]'): -1}]),
    'IsNotZeroAcc': ('accumulator plus one for a non-zero input', [{('acc',): 1, (): 1, ('IsZero<>({1*in})',): -1}]),
}


# ------------------------------------------------------------------ composite circuits
def wiring(lib, name):
    """outputs and equality constraints of a composite circuit in terms of its sub-circuits"""
    f = lib.t[name]
    E = Eqs(lib, f)
    outs = {}
    for k, o in f.order:
        if k == 'output':
            ds = [at(a) for a in f.asg if a.base == o]
            if len(ds) != 1:
                for p, r, g in ds:
                    if p and set(poly(array(E, E.resolve(r, ())))) <= {()}:
                        outs[o] = (pkey(poly(r)), lshow(p[0][1]), 'fixed')
                if o not in outs:
                    raise Unsupported('%s has %d definitions' % (o, len(ds)))
                continue
            p, r, g = ds[0]
            outs[o] = (pkey(poly(array(E, E.resolve(r, ())))), None if g is None else (lshow(g[0]), lshow(g[1])))
    eqs = set()
    for x, y, loops, tx in f.eqs:
        q = padd(poly(array(E, E.resolve(x, ()))), poly(array(E, E.resolve(y, ()))), -1)
        eqs.add((min(pkey(q), pkey({m: -k for m, k in q.items()})), len(loops)))
    return outs, eqs


def array(E, e, depth=0):
    """whole arrays passed to sub-circuits: replaced by their element-wise definition"""
    k = e[0]
    if depth > 40:
        raise Unsupported('depth')
    if k in '+-*':
        return (k, array(E, e[1], depth + 1), array(E, e[2], depth + 1))
    if k == 'call':
        return gate(('call', e[1], e[2], tuple(array(E, whole_array(E, x), depth + 1) for x in e[3])))
    if k == 'arr':
        return ('arr', tuple(array(E, x, depth + 1) for x in e[1]))
    if k == 'proj':
        return ('proj', array(E, e[1], depth + 1), e[2])
    if k == 'at':
        return ('at', array(E, e[1], depth + 1), e[2])
    return e


def boolean(x):
    """acceptance outputs of sub-circuits, and polynomials of them built by gates"""
    return x[0] == 'proj' and x[1][0] == 'call' and x[2] == 0 or x[0] == 'bool'


def gate(e):
    """a logical gate over acceptance outputs, as the polynomial it computes"""
    xs = flatten(e[3])
    if e[1] not in ('MultiOR', 'MultiNOR', 'OR', 'AND', 'NOT', 'ORAnd') or not all(boolean(x) for x in xs):
        return e
    xs = [x[1] if x[0] == 'bool' else x for x in xs]
    one = ('c', L(1))

    def neg(x):
        return ('-', one, x)
    if e[1] == 'NOT' and len(xs) == 1:
        return neg(xs[0])
    if e[1] == 'ORAnd' and len(xs) == 3:
        return ('*', neg(('*', neg(xs[0]), neg(xs[1]))), xs[2])
    r = xs[0] if e[1] == 'AND' else neg(xs[0])
    for x in xs[1:]:
        r = ('*', r, x if e[1] == 'AND' else neg(x))
    return neg(r) if e[1] in ('MultiOR', 'OR') else r


def whole_array(E, x):
    if x[0] == 'sig' and x[2] == () and x[1] in E.f.sig and len(E.f.sig[x[1]][1]) == 1 and E.f.sig[x[1]][0] != 'input':
        ds = [d for d in E.by.get(x[1], [])]
        if len(ds) == 1 and ds[0] and ds[0][2] is not None and ds[0][2] == (L(), ladd(E.f.sig[x[1]][1][0], L(1), -1)):
            r = array(E, E.resolve(ds[0][1], ()))
            u = unindexed(E, r)
            if u is not None and (u[0] != 'sig' or E.f.sig[u[1]][1] == E.f.sig[x[1]][1]):
                return u
            return ('arr', (('sig', 'each j: ' + pkey(poly(r)), ()),))
    return x
