"""Canonical fingerprints of value terms.

Two terms get the same fingerprint iff they are the same value graph up to the names of
loops, of loop-carried variables and of call sites, the order in which conditions are
tested, and the orientation of comparisons.  Decision diagrams are fingerprinted as
polynomials over their atoms (order independent); atoms over the same linear form are cut
points of one number line, so chains of comparisons are canonical too.  Loop-carried values
are fingerprinted by partition refinement over (initial value, next value, domain, exits).
"""
import hashlib
from terms import *
import terms as TM

P = (1 << 61) - 1
ROUNDS = 8


def H(*xs):
    h = hashlib.blake2b(digest_size=8)
    for x in xs:
        h.update(repr(x).encode())
        h.update(b'\0')
    return int.from_bytes(h.digest(), 'big') % P


NOHIST = frozenset()
NAT = {'len', 'idx', 'u8of', 'cast', 'mul', 'rem', 'div'}


class Colours:
    def __init__(self):
        self.final = {}          # terms without pending loops
        self.lcol = {}           # final loop colours
        self.ccol = {}           # final cell colours (L, c)
        self.ecol = {}           # (L, j) exit colours
        self.cur = None          # working colours of the SCC in progress
        self.memo = {}
        self.scc_of = {}
        self.datoms = {}
        self.hmemo = {}
        self.stuck = set()
        self.ranks = {}

    # -------------------------------------------------------- loops
    def loop_refs(self, L):
        out = set()
        for t in TM.LOOPS[L].terms():
            for x in t.dep:
                if isinstance(x, str) and x in TM.LOOPS:
                    out.add(x)
        return out

    def ensure(self, L):
        if L in self.lcol or (self.cur is not None and L in self.cur['L']):
            return
        # Tarjan from L
        index, low, st, on, order = {}, {}, [], set(), []
        work = [(L, None)]
        it = {}
        while work:
            v, _ = work[-1]
            if v not in index:
                index[v] = low[v] = len(index)
                st.append(v)
                on.add(v)
                it[v] = iter(sorted(x for x in self.loop_refs(v) if x not in self.lcol))
            adv = False
            for w in it[v]:
                if self.cur is not None and w in self.cur['L']:
                    continue
                if w not in index:
                    work.append((w, v))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                self.solve(comp)

    def solve(self, comp):
        save = self.cur, self.memo
        Ls = set(comp)
        cells = [(L, c) for L in comp for c in TM.LOOPS[L].cells]
        cur = {'L': {L: H('loop') for L in comp}, 'C': {x: H('cell') for x in cells}, 'E': {(L, j): H('exit') for L in comp for j in TM.LOOPS[L].exits}}
        anc = {}
        for L in comp:
            a, p = [], TM.LOOPS[L].parent
            n = 0
            while p is not None and n < 30:
                a.append(p)
                p = TM.LOOPS[p].parent if p in TM.LOOPS else None
                n += 1
            anc[L] = a
        for r in range(ROUNDS):
            self.cur = cur
            self.memo = {}
            nl, ne, nc = {}, {}, {}
            for L in comp:
                o = TM.LOOPS[L]
                ex = {j: self.col(c) for j, c in o.exits.items()}
                for j in ex:
                    ne[(L, j)] = H('exit', ex[j])
                nl[L] = H('loop', self.col(o.count) if o.count is not None else (self.col(o.dom) if o.dom is not None else 0),
                          sorted(ex.values()))
            for L, c in cells:
                i, n = TM.LOOPS[L].cells[c]
                nc[(L, c)] = H('cell', nl[L], self.col(i), self.col(n))
            # nested loops over equal domains are told apart by depth
            base = dict(nl)
            for L in comp:
                k = sum(1 for a in anc[L] if base.get(a, self.lcol.get(a)) == base[L])
                if k:
                    nl[L] = H('nested', nl[L], k)
            cur = {'L': nl, 'C': nc, 'E': ne}
        self.cur, self.memo = save
        self.lcol.update(cur['L'])
        self.ccol.update(cur['C'])
        self.ecol.update(cur['E'])

    def lc(self, L):
        if L not in TM.LOOPS:
            return H('freeloop')
        self.ensure(L)
        if self.cur is not None and L in self.cur['L']:
            return self.cur['L'][L]
        return self.lcol[L]

    def cc(self, L, c):
        self.lc(L)
        k = (L, c)
        if self.cur is not None and L in self.cur['L']:
            return self.cur['C'].get(k, H('nocell', c == 'idx'))
        return self.ccol.get(k, H('nocell', c == 'idx'))

    def ec(self, L, j):
        self.lc(L)
        k = (L, int(j))
        if self.cur is not None and L in self.cur['L']:
            return self.cur['E'].get(k, 0)
        return self.ecol.get(k, 0)

    def pending(self, t):
        if self.cur is None:
            return False
        return self._pend(t)

    def _pend(self, t):
        for x in t.dep:
            if isinstance(x, str) and x not in self.lcol:
                return True
        return False

    # -------------------------------------------------------- terms
    def col(self, t):
        r = self.final.get(t)
        if r is not None:
            return r
        if self.cur is not None:
            r = self.memo.get(t)
            if r is not None:
                return r
        r = self.col1(t)
        if self.cur is None or not self._pend(t):
            self.final[t] = r
        else:
            self.memo[t] = r
        return r

    def arg(self, x):
        if isinstance(x, T):
            return self.col(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def linbase(self, t):
        """(sign, base colour, constant) of a linear form; sign normalised"""
        c, ps = TM.lin_parts(t)
        a = sorted((self.col(k), v) for k, v in ps)
        b = sorted((self.col(k), -v) for k, v in ps)
        # merge equal colours
        ha, hb = H('lb', a), H('lb', b)
        # prefer the orientation with a positive single term
        if len(a) == 1:
            pos = a[0][1] > 0
        else:
            pos = ha <= hb
        return (1, ha, c) if pos else (-1, hb, -c)

    def atomkey(self, a):
        """(group key, kind, data)"""
        if a.op in ('eq0', 'ge0'):
            l = a.a[0]
            s, b, c = self.linbase(l)
            nat = False
            if l.op != 'int':
                ps = TM.lin_parts(l)[1]
                if all(v * s > 0 for _, v in ps):
                    nat = True
            if a.op == 'eq0':
                return ('n', b), (('pt', -c), nat)
            if s > 0:
                return ('n', b), (('ge', -c), nat)
            # -(base) + c0 >= 0 with base = -ps; here c is negated: base <= c0 = -c
            return ('n', b), (('le', -c), nat)
        if a.op == 'is':
            return ('v', self.col(a.a[0])), ('v', a.a[1])
        if a.op == 'streq':
            return ('s', self.col(a.a[0])), ('v', self.col(a.a[1]))
        return ('x', self.col(a)), ('b',)

    def deepatoms(self, t):
        r = self.datoms.get(t)
        if r is None:
            r = frozenset()
            if t.op == 'ite':
                r = frozenset((t.a[0],))
            st = list(t.a)
            while st:
                x = st.pop()
                if isinstance(x, T):
                    r = r | self.deepatoms(x)
                elif isinstance(x, tuple):
                    st.extend(x)
            if t.op == 'rep' and r:
                r = frozenset(x for x in r if t.a[0] not in x.dep)
            if t.op == 'lam' and r:
                r = frozenset(x for x in r if not any(isinstance(y, T) for y in x.dep))
            self.datoms[t] = r
        return r

    def head(self, a):
        x = a.a[0] if a.a else None
        if isinstance(x, T):
            while x.op == 'fld':
                x = x.a[0]
            return (a.op, x.op, x.a[0] if x.op == 'app' else None)
        return (a.op, None, None)

    def nested(self, a):
        return self.deepatoms(a) - {a}

    def rank(self, a):
        r = self.ranks.get(a)
        if r is None:
            r = self.atomkey(a)[0]
            r = (str(r[0]), r[1], a.id)
            if self.cur is None:
                self.ranks[a] = r
        return r

    def pivot(self, *ts):
        """an atom of the diagrams to split on: those nested in other atoms first"""
        c = set()
        for t in ts:
            for a in atoms_of(t):
                for x in self.nested(a):
                    if x not in self.stuck and not self.nested(x):
                        c.add(x)
        if not c:
            for t in ts:
                c |= atoms_of(t)
        return c.pop() if len(c) == 1 else min(c, key=self.rank)

    def cofm(self, t, asg, memo):
        if t.op != 'ite':
            if not self.deepatoms(t) & asg.keys():
                return t
            r = memo.get(t)
            if r is None:
                r = memo[t] = TM.rebuild(t, lambda x: self.cofm(x, asg, memo), lambda L: L)
            return r
        r = memo.get(t)
        if r is None:
            v = asg.get(t.a[0])
            if v is not None:
                r = self.cofm(t.a[1] if v else t.a[2], asg, memo)
            else:
                hi, lo = self.cofm(t.a[1], asg, memo), self.cofm(t.a[2], asg, memo)
                at_ = t.a[0]
                if self.deepatoms(at_) & asg.keys():
                    c = self.cofm(atom(at_) if False else at_, asg, memo)
                    r = gam(c if c.op == 'ite' or is_bool(c) else atom(c), hi, lo)
                else:
                    r = t if (hi is t.a[1] and lo is t.a[2]) else (hi if hi is lo else mk('ite', at_, hi, lo))
            memo[t] = r
        return r

    def relevant(self, t, hist):
        """the settled conditions that may turn up again below t once more conditions are settled"""
        if not hist or t.op in ('true', 'false', 'int', 'param', 'lit', 'chr'):
            return NOHIST
        d = self.deepatoms(t)
        if not d:
            return NOHIST
        heads = {self.head(x) for x in d if self.nested(x)}
        if not heads:
            return NOHIST
        return frozenset((h, v) for h, v in hist if self.head(h) in heads)

    def settle(self, t, hist):
        """t under the settled conditions"""
        if hist and self.deepatoms(t):
            d = dict(hist)
            if self.deepatoms(t) & d.keys():
                return self.cofm(t, d, {})
        return t

    def colh(self, t, hist):
        t = self.settle(t, hist)
        hist = self.relevant(t, hist)
        if t.op == 'ite':
            if not hist:
                return self.col(t)
            k = (t, hist)
            r = self.hmemo.get(k)
            if r is None:
                r = self.diagram(t, hist)
                if self.cur is None:
                    self.hmemo[k] = r
            return r
        if hist:
            # settle conditions nested in the leaf
            x = self.leafpivot(t, hist)
            if x is not None:
                return self.diagram(t, hist, x)
        return self.col(t)

    def leafpivot(self, t, hist):
        heads = {self.head(h) for h, _ in hist}
        c = {x for y in self.deepatoms(t) if self.head(y) in heads for x in self.nested(y) if x not in self.stuck and not self.nested(x)}
        return min(c, key=self.rank) if c else None

    def diagram(self, t, hist=NOHIST, piv=None):
        """polynomial fingerprint of a decision diagram"""
        piv = piv if piv is not None else self.pivot(t)
        k0, _ = self.atomkey(piv)
        mem = []
        for a in self.deepatoms(t):
            if self.nested(a):
                continue
            k, d = self.atomkey(a)
            if k == k0:
                mem.append((a, d))
        r = 0
        for asg, p in self.categories(k0, mem):
            s = self.cofm(t, asg, {})
            if s is t:
                # the condition cannot be removed here (bound below): leave it in place
                self.stuck.add(piv)
                return self.col(t) if t.op != 'ite' or self.cur is not None or True and piv not in atoms_of(t) else H('stuck')
            r += p * self.colh(s, hist | frozenset(asg.items()))
        return r % P

    def categories(self, k0, mem):
        if k0[0] == 'x':
            cats = [({a: True for a, _ in mem}, H('p', k0)), ({a: False for a, _ in mem}, (1 - H('p', k0)) % P)]
        elif k0[0] in ('v', 's'):
            vals = sorted({d[1] for _, d in mem}, key=repr)
            cats, rest = [], 1
            for v in vals:
                p = H('p', k0, v)
                rest -= p
                cats.append(({a: d[1] == v for a, d in mem}, p))
            cats.append(({a: False for a, d in mem}, rest % P))
        else:
            nat = all(d[1] for _, d in mem)
            cuts = set()
            for _, (d, _) in mem:
                if d[0] == 'pt':
                    cuts |= {d[1], d[1] + 1}
                elif d[0] == 'ge':
                    cuts.add(d[1])
                else:
                    cuts.add(d[1] + 1)
            cuts = sorted(c for c in cuts if not (nat and c <= 0))
            lo = 0 if nat else None
            F = lambda x: H('F', k0, x)
            cats = []
            prev, fp = lo, 0
            for c in cuts + [None]:
                fc = 1 if c is None else F(c)
                x = prev if prev is not None else (cuts[0] - 1 if cuts else 0)
                asg = {}
                for a, (d, _) in mem:
                    asg[a] = (x == d[1]) if d[0] == 'pt' else (x >= d[1] if d[0] == 'ge' else x <= d[1])
                cats.append((asg, (fc - fp) % P))
                prev, fp = c, fc
        return cats

    UIDOPS = {'io': 1, 'jsarr': 0}

    def col1(self, t):
        op, a = t.op, t.a
        if op == 'ite':
            return self.diagram(t)
        if op == 'true':
            return 1
        if op == 'false':
            return 0
        if op == 'lin':
            d = {}
            for k, v in a[1]:
                c = self.col(k)
                d[c] = d.get(c, 0) + v
            return H('lin', a[0], sorted(d.items()))
        if op in ('eq0', 'ge0', 'is', 'streq') and False:
            pass
        if op in ('mul', 'eq'):
            return H(op, sorted(self.col(x) for x in a))
        if op == 'idx':
            return H('idx', self.lc(a[0]))
        if op == 'mu':
            return H('mu', self.cc(a[0], a[1]))
        if op == 'fin':
            return H('fin', self.cc(a[0], a[1]), self.lc(a[0]))
        if op == 'finx':
            return H('finx', self.cc(a[0], a[2]), self.ec(a[0], a[1]), self.lc(a[0]))
        if op == 'exit':
            return H('exit', self.lc(a[0]), self.ec(a[0], a[1]))
        if op == 'rep':
            return H('rep', self.lc(a[0]), self.col(a[1]))
        if op == 'seq':
            return H('seq', self.segcols(a))
        if op == 'elem':
            return H('elem')
        if op == 'io':
            return H('io', a[0], self.arg(a[2:]))
        if op == 'jsarr':
            return H('jsarr', self.arg(a[1:]))
        if op == 'ref':
            return H('ref')
        if op == 'undef':
            return H('undef')
        if op == 'fnref':
            return H('fnref', a[0].split('::')[-1] if isinstance(a[0], str) else '')
        if op == 'rec' and a[0] == 'closure':
            return H('closure', self.arg(a[3]))
        return H(op, self.arg(a))

    def segcols(self, ss):
        """segments; neighbouring alternatives on the same conditions are taken together"""
        out = []
        k = 0
        ss = list(ss)
        while k < len(ss):
            s = ss[k]
            if s.op == 'gam':
                sup = atoms_of(s.a[0])
                m = s.a[0]
                while k + 1 < len(ss) and ss[k + 1].op == 'gam' and atoms_of(ss[k + 1].a[0]) == sup:
                    m = _catd(m, ss[k + 1].a[0])
                    k += 1
                out.append(('gam', self.col(m)))
            elif s.op == 'lit':
                out.append(('lit', s.a[0]))
            else:
                out.append((s.op, self.col(s)))
            k += 1
        return out


def _catd(a, b):
    """concatenation of two sequence diagrams"""
    if a.op != 'ite' and b.op != 'ite':
        return TM.cat(a, b)
    m = TM._top(a, b)
    a1, a0 = TM._co(a, m)
    b1, b0 = TM._co(b, m)
    return ite(atom(m), _catd(a1, b1), _catd(a0, b0))
