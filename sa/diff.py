"""Where two value graphs differ.

diff(a, b) descends both graphs in parallel (coinductively through loops) and returns the
places where they stop agreeing.  A mismatch is *definite* when both sides are in normal
form at that point (constants, linear forms over the same variables, branches on the same
conditions, present / missing elements, wrappers such as reversal around the same value);
a mismatch between differently shaped computations is *shape*: nothing is claimed about it.
"""
import os, time
import strdom
from terms import *
import terms as TM
from colour import Colours, P as PRIME

MEASURE = {'max', 'min', 'len', 'sum', 'last', 'first', 'count'}
CONSTS = {'int', 'chr', 'true', 'false', 'lit', 'bytes', 'const'}
WRAP = {'drop', 'take', 'rev', 'sorted', 'dedup', 'trunc', 'enum', 'keys', 'values', 'sortedby', 'replace', 'vremove', 'vinsert', 'repeat'}


def decision(ss):
    """a block as a decision diagram of plain sequences"""
    from colour import _catd
    if len({x for s in ss if s.op == 'gam' for x in atoms_of(s.a[0])}) > 10:
        return None
    try:
        r = EMPTY
        for s in ss:
            r = _catd(r, s.a[0] if s.op == 'gam' else mk('seq', s))
        return r
    except Exception:
        return None


DEBUG = bool(os.environ.get('VERIF_DEBUG'))


def counts(t):
    """t counts the elements some selection of a text or sequence keeps"""
    return t.op == 'len' and contains(t.a[0], lambda x: x.op in ('take_while', 'skip_while', 'trim', 'trim_start', 'trim_end', 'rep') or x.op.startswith('s_'))


class Timeout(Exception):
    pass


class Mis:
    def __init__(self, path, kind, a, b, definite):
        self.path, self.kind, self.a, self.b, self.definite = path, kind, a, b, definite

    def key(self):
        return (self.kind, self.a, self.b)

    def text(self, d=5):
        def s(x):
            if x is None:
                return 'nothing'
            if isinstance(x, (list, tuple)):
                return '[' + ', '.join(s(y) for y in x) + ']'
            return show(x, d) if isinstance(x, T) else str(x)
        return '%s%s: expected %s, found %s [at %s]' % ('' if self.definite else '(undecided) ', self.kind, s(self.a)[:300], s(self.b)[:300],
                                                        ' / '.join(self.path[-8:]))

    def spans(self):
        out = []
        for x in (self.b, self.a):
            xs = x if isinstance(x, (list, tuple)) else [x]
            for y in xs:
                if isinstance(y, T) and y.sp:
                    out.append(y.sp)
        return out


class Diff:
    """a: reference, b: current"""

    def __init__(self, C=None):
        self.C = C or Colours()
        self.seen = set()
        self.out = []
        self.keys = set()
        self.loops = {}
        self.cellstack = []

    def add(self, path, kind, a, b, definite):
        if definite and unread(b) - unread(a):
            definite = False
        m = Mis(path, kind, a, b, definite)
        if m.key() not in self.keys:
            self.keys.add(m.key())
            self.out.append(m)

    def same(self, a, b):
        return a is b or self.C.col(a) == self.C.col(b)

    def eqv(self, a, b):
        return self.same(a, b) or not self.trial(a, b, ()) or not self.trial(b, a, ())

    def run(self, a, b, path=()):
        self.diff(a, b, tuple(path))
        return self.out

    deadline = None
    shallow = False

    def diff(self, a, b, path):
        if self.deadline and time.time() > self.deadline:
            raise Timeout()
        if a is b or (a, b) in self.seen:
            return
        if len(self.out) > 200:
            return
        self.seen.add((a, b))
        if self.same(a, b):
            return
        if a.op == 'ite' or b.op == 'ite':
            return self.diagrams(a, b, path)
        if a.op == 'bot' or b.op == 'bot':
            return
        if a.op == 'seq' or b.op == 'seq':
            if a.op == 'seq' and b.op == 'seq' or a.op in WRAP or b.op in WRAP or a is EMPTY or b is EMPTY:
                pass
            if a.op == 'seq' and b.op == 'seq':
                return self.seqs(a, b, path)
        if a.op != b.op:
            return self.shape(a, b, path)
        op = a.op
        if op in CONSTS:
            return self.add(path, 'constant', a, b, True)
        if op == 'lin' or op == 'eq0' or op == 'ge0':
            return self.linear(a, b, path)
        if op == 'rec':
            if a.a[0] != b.a[0] or set(a.a[2]) != set(b.a[2]):
                if a.a[0] == b.a[0]:
                    return self.add(path, 'variant', a, b, True)
                return self.add(path, 'shape', a, b, False)
            if a.a[1] != b.a[1]:
                return self.add(path, 'variant', a, b, True)
            for n in a.a[2]:
                self.diff(a.a[3][a.a[2].index(n)], b.a[3][b.a[2].index(n)], path + ('.' + n,))
            return
        if op == 'fld':
            if (a.a[1], a.a[2]) != (b.a[1], b.a[2]):
                return self.add(path, 'field', a, b, self.same(a.a[0], b.a[0]) or looks_elsewhere([a], [b]) or looks_elsewhere([b], [a]))
            return self.diff(a.a[0], b.a[0], path)
        if op == 'is':
            if a.a[1] != b.a[1]:
                u, v = (x.a[0].a[0] if x.a[0].op == 'fld' and x.a[0].a[2] else x.a[0] for x in (a, b))
                return self.add(path, 'variant test', a, b, self.same(a.a[0], b.a[0]) or u.op != v.op and 'at' in (u.op, v.op) and [m.kind for m in self.trial(u, v, path)] == ['selection'])
            return self.diff(a.a[0], b.a[0], path)
        if op == 'len':
            for x, y in ((a.a[0], b.a[0]), (b.a[0], a.a[0])):
                if x.op == 'chars' and y.op != 'chars' and self.eqv(x.a[0], y):
                    return self.add(path, 'measure', a, b, True)
                # equal elements counted once
                if x.op == 'set' and y.op == 'seq' and self.counted_once(x.a[0], y, path):
                    return self.add(path, 'measure', a, b, True)
            u, v = self.marked(a.a[0]), self.marked(b.a[0])
            if (u, v) != (a.a[0], b.a[0]) and not self.trial(u, v, path):
                return
        if op in ('mu', 'fin'):
            return self.cells(a.a[0], a.a[1], b.a[0], b.a[1], path, op)
        if op == 'finx':
            if not self.loop(a.a[0], b.a[0], path):
                return
            self.exitpair(a.a[0], a.a[1], b.a[0], b.a[1], path)
            return self.cells(a.a[0], a.a[2], b.a[0], b.a[2], path, op)
        if op == 'exit':
            if not self.loop(a.a[0], b.a[0], path):
                return
            return self.exitpair(a.a[0], a.a[1], b.a[0], b.a[1], path)
        if op == 'idx':
            if self.loops.get(a.a[0]) == b.a[0]:
                return
            if self.pairable(a.a[0], b.a[0]):
                self.loop(a.a[0], b.a[0], path)
                return
            return self.add(path, 'index', a, b, self.known(a.a[0]) and self.known(b.a[0]))
        if op == 'rep':
            if not self.known(a.a[0]) and not self.known(b.a[0]):
                a2, b2 = later(a, b), later(b, a)
                if a2 is not a or b2 is not b:
                    return self.diff(a2, b2, path)
            self.loop(a.a[0], b.a[0], path)
            return self.diff(a.a[1], b.a[1], path + ('each ' + b.a[0],))
        if op == 'app':
            if a.a[0] != b.a[0] or len(a.a) != len(b.a):
                return self.add(path, 'call', a, b, not (str(a.a[0]).startswith('cut:') ^ str(b.a[0]).startswith('cut:')) and (len(a.a) == len(b.a) or str(a.a[0]).startswith('cut:')))
            return self.args(a, b, path + (str(a.a[0]).split('::')[-1],))
        if op in ('mul', 'eq'):
            xa, xb = list(a.a), list(b.a)
            if self.same(xa[0], xb[1]) or self.same(xa[1], xb[0]):
                xb.reverse()
            for x, y in zip(xa, xb):
                self.diff(x, y, path + (op,))
            return
        if op == 'cast' and a.a[0] != b.a[0]:
            if not self.same(a.a[1], b.a[1]):
                return self.diff(a.a[1], b.a[1], path + (op,))
            return self.add(path, 'measure', a, b, 'u8' not in (a.a[0], b.a[0]) and bool({a.a[0], b.a[0]} & {'u16', 'i16', 'f32'}))
        if op == 'param' or op == 'zst' or op == 'fnref':
            return self.add(path, op, a, b, op != 'zst')
        if op in ('kset', 'kapp') and len(a.a[0]) != len(b.a[0]):
            return self.add(path, 'shape', a, b, False)
        return self.args(a, b, path + (op,))

    def known(self, L):
        return L in self.loops or L in self.loops.values()

    def args(self, a, b, path):
        def go(x, y, p):
            if isinstance(x, T) and isinstance(y, T):
                self.diff(x, y, p)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    self.add(path, 'shape', a, b, False)
                else:
                    for u, v in zip(x, y):
                        go(u, v, p)
            elif x != y:
                if a.op == 'io' and x == a.a[0]:
                    if {x, y} == {'write', 'write_all'} and not self.loops:
                        # a single write may stop short of the whole text
                        return self.add(path, 'call', a, b, True)
                    return self.add(path, 'shape', a, b, False)
                if a.op in ('undef', 'io', 'jsarr', 'ref', 'elem'):
                    return
                self.add(p, a.op, a, b, True)
        if len(a.a) != len(b.a):
            js = a.op == 'fx' and a.a[0] == b.a[0] == 'js' and {a.a[1], b.a[1]} == {'set', 'push'} and all(x.a[2].op == 'jsarr' and len(x.a[2].a) > 1 for x in (a, b))
            return self.add(path, 'call' if js else 'shape', a, b, js)
        for x, y in zip(a.a, b.a):
            go(x, y, path)

    def shape(self, a, b, path):
        for x, y in ((a, b), (b, a)):
            # a list written out, against a few numbers computed from it
            if x.op == 'fld' and x.a[0].op == 'app' and str(x.a[0].a[0]).startswith('serde_json::to_') and x.a[0].a[1].op == 'seq' and summary(y):
                return self.add(path, 'summary', a, b, True)
        if a.op in CONSTS and b.op in CONSTS:
            return self.add(path, 'constant', a, b, True)
        for x, y in ((a, b), (b, a)):
            if x.op == 'rec' and x.a[1] == '' and x.a[3] and y.op in ('param', 'fld', 'at', 'app', 'mget', 'mu', 'fin', 'finx'):
                for n, v in zip(x.a[2], x.a[3]):
                    f = TM.fld(y, n)
                    self.diff(*((v, f) if x is a else (f, v)), path + ('.' + str(n),))
                return
        # a wrapper (reversal, slice, sorting ...) around the same value
        for x, y in ((a, b), (b, a)):
            if x.op in WRAP and isinstance(x.a[0], T) and self.eqv(x.a[0], y):
                return self.add(path, 'wrapper', a, b, True)
            if x.op in WRAP and unwrapped(x) is not x.a[0] and self.eqv(unwrapped(x), y):
                return self.add(path, 'wrapper', a, b, True)
            if answered(x, y) and not answered(y, x):
                return self.add(path, 'answer', a, b, True)
            # a text cut by bytes on one side and by characters on the other
            s, n = stem(x)
            t, m = stem(y)
            if s.op == 'chars' and n and m and t.op != 'chars' and self.eqv(s.a[0], t):
                return self.add(path, 'measure', a, b, True)
        for x, y in ((a, b), (b, a)):
            # a number that no longer has room for every index
            if x.op == 'cast' and x.a[0] in ('u16', 'i16', 'f32') and self.eqv(x.a[1], y.a[1] if y.op == 'cast' else y):
                return self.add(path, 'measure', a, b, True)
        for x, y in ((a, b), (b, a)):
            # the bytes of a text, against one number per character
            s = mapped(x)
            if s.op == 'chars' and x is not s and self.eqv(s.a[0], y) and numeric(x):
                return self.add(path, 'measure', a, b, True)
            z = x.a[1] if x.op == 'cast' else x
            if z.op == 'at' and y.op == 'at' and z.a[0].op == 'chars' and z.a[1].op == 'idx' and y.a[1].op == 'idx' and self.eqv(z.a[0].a[0], y.a[0]):
                return self.add(path, 'measure', a, b, True)
            # all the lists in a list, against one of them
            s = flattened(x)
            if s is not None and y.op == 'at' and y.a[1].op == 'int' and self.eqv(s, y.a[0]):
                return self.add(path, 'derived', a, b, True)
            # the first match, against another one
            if x.op == 'app' and y.op == 'at' and y.a[0].op == 'app' and y.a[1] is not TM.int_(0) and str(x.a[0]) + '_iter' == str(y.a[0].a[0]) and \
                    len(x.a) == len(y.a[0].a) and all(self.same(u, v) for u, v in zip(x.a[1:], y.a[0].a[1:])):
                return self.add(path, 'selection', a, b, True)
        if unit(a) and unit(b) and unit(a) != unit(b):
            return self.add(path, 'measure', a, b, True)
        if a.op in WRAP and b.op in WRAP and isinstance(a.a[0], T) and isinstance(b.a[0], T) and self.eqv(a.a[0], b.a[0]):
            return self.add(path, 'wrapper', a, b, True)
        acc = ('param', 'fld', 'at', 'len', 'idx')
        for x, y in ((a, b), (b, a)):
            if x.op == 'rec' and not x.a[3] and y.op in acc:
                return self.add(path, 'content', a, b, True)
            if x.op == 'app' and str(x.a[0]).startswith('cut:') and (y.op in acc and len(x.a) == 1 or y.op in acc + ('rec', 'mu', 'fin') and
                                                                     any(isinstance(z, T) and z.op == y.op and self.eqv(z, y) for z in x.a[1:])):
                # the texts of a list of pieces, before or after the pieces are split further
                pieces = '#' in str(x.a[0]) and path[-1:] == ('domain',) and collects(path[-2])
                return self.add(path, 'derived', a, b, not pieces)
            if x.op == 'fin' and y.op in ('true', 'false') and self.known(x.a[0]):
                return self.add(path, 'value', a, b, True)
        for x, y in ((a, b), (b, a)):
            if x.op == 'mu' and not self.shallow:
                # the variable before its update on one side, after it on the other
                M = self.loops.get(x.a[0]) or next((k for k, v in self.loops.items() if v == x.a[0]), None)
                for N, d in ((x.a[0], x.a[1]), (M, None)):
                    for e, cell in (TM.LOOPS[N].cells.items() if N in TM.LOOPS else ()):
                        if (d is None and e.split('@')[0] == x.a[1].split('@')[0] and e.split('.')[2:] == x.a[1].split('.')[2:] or e == d) and (cell[1] is y or self.eqv(cell[1], y)):
                            return self.add(path, 'step', a, b, True)
        for x, y in ((a, b), (b, a)):
            # a list collected piece by piece on one side only
            if x.op == 'seq' and len(x.a) == 1 and x.a[0].op == 'rep' and y.op == 'fin' and not self.shallow:
                L, M = x.a[0].a[0], y.a[0]
                if L in TM.LOOPS and (self.loops.get(L) == M or self.loops.get(M) == L or self.pairable(*((L, M) if x is a else (M, L)))):
                    for c, cell in TM.LOOPS[L].cells.items():
                        t = cell[1]
                        if cell[0] is EMPTY and t.op == 'seq' and t.a and t.a[0].op == 'spl' and t.a[0].a[0] is mk('mu', L, c) and c.split('@')[0] == y.a[1].split('@')[0] and \
                                len(t.a) == 2 and (t.a[1].a[0] if t.a[1].op == 'gam' else mk('seq', t.a[1])) is x.a[0].a[1]:
                            u, v = (L, c), (M, y.a[1])
                            return self.cells(*(u + v if x is a else v + u), path, 'fin')
        sa, sb = self.selection(a), self.selection(b)
        if sa and sb and sa[0] != sb[0] and self.eqv(sa[1], sb[1]):
            return self.add(path, 'selection', a, b, True)
        if a.op in MEASURE and b.op in MEASURE and a.op != b.op and isinstance(a.a[0], T) and isinstance(b.a[0], T) and self.eqv(mapped(a.a[0]), mapped(b.a[0])):
            return self.add(path, 'measure', a, b, True)
        for x, y in ((a, b), (b, a)):
            if self.derived(x, y):
                return self.add(path, 'derived', a, b, True)
            if self.cellstack and y in self.cellstack[-1] and (x.op in ('fld', 'at') or x.op in ('param', 'len', 'idx', 'app', 'lin', 'int', 'chr', 'lit', 'true', 'false') and not mentions_mu(x)):
                # the cell is updated on one side and left alone on the other
                own = path and path[-1] == 'at' and self.eqv(x, TM.LOOPS[y.a[0]].cells.get(y.a[1], (y, y))[0])
                return self.add(path, 'update', a, b, not own)
        if self.cellstack:
            u, v = self.cellstack[-1]
            for u, v in ((u, v), (v, u)):
                g, h = growth(a, u), growth(b, v)
                if g and h and g != h and {g, h} != {'kept', 'extended'} and {g, h} != {'grown', 'extended'} and len(TM.LOOPS[u.a[0]].cells) == len(TM.LOOPS[v.a[0]].cells):
                    return self.add(path, 'step', a, b, True)
        nums = ('int', 'lin')
        if a.op in nums or b.op in nums:
            return self.linear(a, b, path)
        if a is EMPTY or b is EMPTY:
            y = b if a is EMPTY else a
            if y.op in ('param', 'fld', 'at', 'app'):
                return self.add(path, 'content', a, b, True)
        if a.op in CONSTS and b.op in ('param', 'fld', 'at', 'len', 'idx', 'app') or b.op in CONSTS and a.op in ('param', 'fld', 'at', 'len', 'idx', 'app'):
            return self.add(path, 'value', a, b, True)
        if a.op in acc and b.op in acc:
            return self.add(path, 'value', a, b, True)
        for x, y in ((a, b), (b, a)):
            # what is looked up in the input, against the number of the element
            if x.op == 'mget' and x.a[0].op in ('param', 'fld') and y.op in ('idx', 'len'):
                return self.add(path, 'value', a, b, True)
            # everything found, against the last thing found
            if x.op in ('seq', 'set', 'map') and y.op == 'fin' and not self.shallow:
                q = x if x.op == 'seq' else x.a[0]
                r = q.a[0] if q.op == 'seq' and len(q.a) == 1 and q.a[0].op == 'rep' else None
                if r is not None and r.a[0] in TM.LOOPS and (self.loops.get(r.a[0]) == y.a[0] or self.loops.get(y.a[0]) == r.a[0] or
                                                             self.pairable(*((r.a[0], y.a[0]) if x is a else (y.a[0], r.a[0])))):
                    mu = mk('mu', *y.a)
                    cell = TM.LOOPS[y.a[0]].cells.get(y.a[1])
                    ls = [l for _, l in leaves(cell[1])] if cell else []
                    new = [l for l in ls if l is not mu]
                    if new and all(not contains(l, lambda t: t is mu) for l in new) and any(l.op == 'seq' and l.a or l.op in ('set', 'map') for l in new):
                        return self.add(path, 'step', a, b, True)
        if 'repeat' in (a.op, b.op) and 'seq' in (a.op, b.op):
            x, y = (a, b) if a.op == 'repeat' else (b, a)
            if x.a[0].op in CONSTS and y.a and y.a[0].op == 'one' and y.a[0].a[0].op in CONSTS and y.a[0].a[0] is not x.a[0]:
                return self.add(path, 'constant', a, b, True)
            return self.add(path, 'shape', a, b, False)
        return self.add(path, 'shape', a, b, False)

    def marked(self, x):
        """a sequence of the same length whose elements do not matter"""
        def marks(t):
            if t.op == 'ite':
                return ite(t.a[0], marks(t.a[1]), marks(t.a[2]))
            if t.op == 'seq':
                return mk('seq', *(mk('one', TM.int_(0)) if y.op == 'one' else mk('rep', y.a[0], marks(y.a[1])) if y.op == 'rep' and y.a[0] in TM.LOOPS else y for y in t.a))
            return t
        return marks(x)

    def counted_once(self, x, y, path):
        """x has one element for each element of y, a field of an element of the input, which can repeat"""
        if not all(s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'rep' and s.a[0].a[0] in TM.LOOPS for s in (x, y)):
            return False
        (L, f), (M, g) = x.a[0].a, y.a[0].a
        d = TM.LOOPS[L].dom
        for _, l in leaves(f):
            if l is EMPTY:
                continue
            e = l.a[0].a[0] if l.op == 'seq' and len(l.a) == 1 and l.a[0].op == 'one' else None
            if e is None or e.op != 'fld' or e.a[0].op != 'at' or e.a[0].a[1] is not mk('idx', L):
                return False
        if any(l is not EMPTY and not (l.op == 'seq' and len(l.a) == 1 and l.a[0].op == 'one') for _, l in leaves(g)):
            return False
        if TM.LOOPS[M].dom is None or d is None or not self.eqv(*((d, TM.LOOPS[M].dom) if L.startswith('R:') else (TM.LOOPS[M].dom, d))):
            return False

        def marks(t):
            return ite(t.a[0], marks(t.a[1]), marks(t.a[2])) if t.op == 'ite' else t if t is EMPTY else one(TM.int_(0))
        u, v = mk('seq', mk('rep', L, marks(f))), mk('seq', mk('rep', M, marks(g)))
        return not self.trial(*((u, v) if L.startswith('R:') else (v, u)), path)

    def selection(self, x):
        """(how, from what) for a sequence that selects elements of another one"""
        if x.op in ('take_while', 'skip_while', 'map_while') and isinstance(x.a[0], T):
            y = x.a[0]
            return (x.op, y.a[0] if y.op == 'rev' else y)
        if x.op == 'seq' and len(x.a) == 1:
            if x.a[0].op == 'spl':
                return self.selection(x.a[0].a[0])
            if x.a[0].op != 'rep':
                return None
            L, body = x.a[0].a
            idx = mk('idx', L)
            ls = [l for _, l in leaves(body)]
            doms = {e.a[0] for l in ls if l is not EMPTY for e in elems_of(l) if e.a[1] is idx}
            if len(doms) == 1 and L in TM.LOOPS:
                dom = doms.pop()
                e = one(mk('at', dom, idx))
                if all(l is EMPTY or l is e for l in ls) and any(l is EMPTY for l in ls):
                    d = TM.LOOPS[L].dom
                    return ('filter', d if d is not None and TM.at(d, idx) is e.a[0].a[0] else dom)
        return None

    def derived(self, x, y):
        """x is computed from y by an operation that loses or changes information"""
        if x.op == 'bin' and any(isinstance(z, T) and self.same(z, y) for z in x.a) and all(not isinstance(z, T) or self.same(z, y) or z.op in CONSTS for z in x.a):
            return True
        if x.op in ('sorted', 'rev') and isinstance(x.a[0], T) and x.a[0].op == 'seq':
            return self.derived(x.a[0], y)
        z = x.a[0].a[0] if x.op == 'seq' and len(x.a) == 1 and x.a[0].op in ('hole', 'spl') else x
        if z.op == 'at' and z.a[1].op == 'int' and y.op == 'join' and self.eqv(mapped(y.a[0]), z.a[0]):
            return True
        if x.op in PUREFN and isinstance(x.a[0], T) and (self.eqv(x.a[0], y) or x.a[0].op == 'ite' and any(self.eqv(l, y) for _, l in leaves(x.a[0]))):
            return True
        if x.op == 'seq' and len(x.a) == 1 and x.a[0].op == 'rep':
            L, body = x.a[0].a
            idx = mk('idx', L)
            doms = {e.a[0] for _, l in leaves(body) if l is not EMPTY for e in elems_of(l) if e.a[1] is idx}
            if len(doms) == 1 and TM.LOOPS.get(L) is not None:
                dom = doms.pop()
                if self.eqv(dom, y) or unwrapped(dom) is not dom and self.eqv(unwrapped(dom), y):
                    e = mk('at', dom, idx)
                    same = one(e)
                    ls = [l for _, l in leaves(body)]
                    # a proper filter or map of y
                    if any(l is EMPTY for l in ls) and all(l is EMPTY or l.op == 'seq' and len(l.a) == 1 and l.a[0].op == 'one' for l in ls):
                        return True
                    if len(ls) == 1 and ls[0].op == 'seq' and len(ls[0].a) == 1 and ls[0].a[0].op == 'one' and ls[0].a[0].a[0].op in ('fld', 'lin', 'bin', 'len', 'rec') and \
                            not ident(ls[0].a[0].a[0], e):
                        return True
        if x.op in ('map', 'set') and x.a[0].op == 'seq' and len(x.a[0].a) > 1 and x.a[0].a[0].op == 'spl' and self.eqv(x.a[0].a[0].a[0], y):
            return all(s.op in ('kset', 'kapp', 'krem', 'one', 'rep', 'gam') for s in x.a[0].a[1:])
        if x.op in ('map', 'set') and x.a[0].op == 'seq' and y.op in ('param', 'fld', 'at', 'mget') and self.derived(x.a[0], y):
            return True
        if x.op == 'seq' and len(x.a) > 1 and all(s.op in ('spl', 'lit', 'one') for s in x.a):
            sp = [s.a[0] for s in x.a if s.op == 'spl']
            if len(sp) == 1 and self.eqv(sp[0], y):
                return True
            if sp and all(z.op in ('take', 'drop') and self.eqv(z.a[0], y) for z in sp):
                return not (len(x.a) == 2 and sp[0].op == 'take' and sp[1].op == 'drop' and sp[0].a[1] is sp[1].a[1])
            if y.op == 'range' and sp[0].op == 'range' and x.a[0].op == 'spl' and self.eqv(sp[0].a[0], y.a[0]):
                return True
        if x.op == 'seq' and x.a and all(s.op in ('one', 'lit') for s in x.a) and y.op in ('param', 'fld', 'at'):
            return True
        return False

    def linear(self, a, b, path):
        if a.op in ('eq0', 'ge0'):
            if a.op != b.op:
                return self.add(path, 'comparison', a, b, True)
            a, b = a.a[0], b.a[0]
        ca, pa = TM.lin_parts(a)
        cb, pb = TM.lin_parts(b)
        ra, rb = list(pa), list(pb)
        for x in pa:
            for y in rb:
                if x[1] == y[1] and self.same(x[0], y[0]):
                    ra.remove(x)
                    rb.remove(y)
                    break
        if not ra and not rb:
            return self.add(path, 'offset', a, b, True)
        if len(ra) == len(rb) and sorted(v for _, v in ra) == sorted(v for _, v in rb):
            n = len(self.out)
            used = []
            for x in ra:
                y = [y for y in rb if y[1] == x[1] and y not in used and y[0].op == x[0].op] or [y for y in rb if y[1] == x[1] and y not in used]
                used.append(y[0])
                self.diff(x[0], y[0][0], path + ('term',))
            if ca != cb:
                # a different constant next to differing variables decides nothing by itself
                vs = [x[0].op for x in ra + rb]
                self.add(path, 'offset', a, b, len(self.out) == n or all(m.definite for m in self.out[n:]) and
                         (all(v in ('param', 'fld', 'at', 'len', 'idx', 'int', 'mu') for v in vs) or n < len(self.out) and all(m.kind in ('answer', 'measure') for m in self.out[n:])))
            return
        if not ra or not rb or ca != cb or True:
            if any(counts(x[0]) for x in ra) and any(counts(x[0]) for x in rb):
                # how many elements a selection keeps can be counted in more than one way
                return self.add(path, 'linear', a, b, False)
            if (not ra or not rb) and all(x[0].op in ('param', 'fld', 'at', 'len') or x[0].op == 'app' and not str(x[0].a[0]).startswith('cut:') for x in ra + rb) and \
                    all(x[0].op in ('mu', 'idx', 'param', 'fld', 'at', 'len', 'app') for x in pa + pb):
                # one side adds something that is not constant
                return self.add(path, 'linear', a, b, True)
            simple = all(x[0].op in ('param', 'fld', 'at', 'len', 'idx', 'int') for x in ra + rb) or (not pa or not pb) and all(x[0].op in ('param', 'fld', 'at', 'len', 'idx', 'int', 'app', 'mu') for x in pa + pb)
            return self.add(path, 'linear', a, b, simple)

    # -------------------------------------------------------- conditions
    def diagrams(self, a, b, path):
        if a.op != 'ite' or b.op != 'ite':
            # a result handed on as it is, against one taken apart and rebuilt
            a, b = expanded(a, b), expanded(b, a)
        if len(list(atoms_of(a))) != len(list(atoms_of(b))):
            # a choice between records, against a record of choices
            la, lb = ([l for _, l in leaves(x)] for x in (a, b))
            ns = {l.a[:2] for l in la + lb if l.op == 'rec'}
            if len(ns) == 1 and all(l.op in ('rec', 'param', 'fld', 'at', 'mget', 'mu') for l in la + lb) and any(l.op == 'rec' for l in la) and any(l.op == 'rec' for l in lb):
                r = [l for l in la if l.op == 'rec'][0]
                if r.a[1] == '' and r.a[3]:
                    for n in r.a[2]:
                        self.diff(TM.fld(a, n), TM.fld(b, n), path + ('.' + str(n),))
                    return
            if any(l.op == 'arr' and l.a[1].op == 'ite' for l in la + lb):
                a, b = chosen(a), chosen(b)
                if a is b:
                    return
        for x, y in ((a, b), (b, a)):
            # one side builds the record, the other chooses between a record and the one it started from
            if x.op == 'rec' and x.a[1] == '' and x.a[3] and y.op == 'ite':
                ls = [l for _, l in leaves(y)]
                if any(l.op == 'rec' and l.a[0] == x.a[0] for l in ls) and any(l.op != 'rec' for l in ls) and \
                        all(l.op in ('param', 'fld', 'at', 'mget', 'mu') or l.op == 'rec' and l.a[0] == x.a[0] for l in ls):
                    for n, v in zip(x.a[2], x.a[3]):
                        f = TM.fld(y, n)
                        self.diff(*((v, f) if x is a else (f, v)), path + ('.' + str(n),))
                    return
        if a.op != 'ite' and a.op not in CONSTS and all(l.op in ('true', 'false', 'bot') for _, l in leaves(b)):
            a = ite(atom(a), TRUE, FALSE)
        elif b.op != 'ite' and b.op not in CONSTS and all(l.op in ('true', 'false', 'bot') for _, l in leaves(a)):
            b = ite(atom(b), TRUE, FALSE)
        if a.op == 'ite' or b.op == 'ite':
            # flushing more often than before makes no difference unless the flush fails
            fa, fb = [x for x in atoms_of(a) if is_flush(x)], [x for x in atoms_of(b) if is_flush(x)]
            if bool(fa) != bool(fb):
                for x in fa:
                    a = TM.cof(a, x, True)
                for x in fb:
                    b = TM.cof(b, x, True)
                return self.diff(a, b, path)
        A, B = list(atoms_of(a)), list(atoms_of(b))
        A.sort(key=lambda t: t.id)
        B.sort(key=lambda t: t.id)
        C = self.C
        va = {}
        for x in A:
            va.setdefault(self.acol(x), []).append(x)
        match, ub = {}, []
        ua = set(A)
        for y in B:
            c = self.acol(y)
            f = (1 - c) % PRIME
            if c in va or f in va:
                x = va[c][0] if c in va else va[f][0]
                match[y] = x
                ua.discard(x)
            else:
                ub.append(y)
        ua = [x for x in A if x in ua]
        sub = []
        was = self.shallow
        for y in list(ub):
            # the same test once variables of the same name are taken to correspond
            for x in ua:
                if x.op != y.op:
                    continue
                self.shallow = True
                alike = not self.trial(x, y, path + ('if',))
                self.shallow = was
                if alike:
                    ua.remove(x)
                    ub.remove(y)
                    match[y] = x
                    sub.append((y, self.trial(x, y, path + ('if',))))
                    break
        for y in list(ub):
            cand = [x for x in ua if (x.op == y.op or {x.op, y.op} == {'has', 'any'} and searched(x) is not None and searched(y) is not None) and not crossed(x, y)]
            if not cand:
                continue
            best = None
            for x in cand:
                d = self.trial(searched(x), searched(y), path + ('if',)) if x.op != y.op else self.trial(x, y, path + ('if',))
                s = (any(not m.definite for m in d), len(d), abs(A.index(x) - B.index(y)))
                if best is None or s < best[0]:
                    best = (s, x, d)
            if best and (len(cand) == 1 or best[0][1] <= 3):
                ua.remove(best[1])
                ub.remove(y)
                match[y] = best[1]
                sub.append((y, best[2]))
        if sub and any(l.op == 'bot' for _, l in leaves(a)):
            # a condition that only decides about runs that do not count
            def matters(y):
                q = {}
                self.product(a, b, {k: v for k, v in match.items() if k is not y}, q)
                return any(u.op != 'bot' and v.op != 'bot' and not self.same(u, v) for u, v in q)
            sub = [(y, ms) for y, ms in sub if not ms or matters(y)]
        sub = [m for _, ms in sub for m in ms]
        self.inner(a, b, A, B, match, path)
        # leaf pairs under the matched conditions
        pairs = {}
        self.product(a, b, match, pairs)
        lp = [(x, y) for (x, y) in pairs if not self.same(x, y) and x.op != 'bot' and y.op != 'bot']
        if not lp or self.boolsame(a, b, match):
            for m in sub:
                self.push(m)
            if not lp:
                return
        for m in sub:
            self.push(m)
        if ua or ub:
            # a condition on one side only
            rel_a = [x for x in ua]
            if len(ub) + len(ua) > 0:
                one_sided = not ua or not ub
                grd = [x for x in ua + ub]
                simple = all(simple_atom(x) or x.op == 'exit' and self.known(x.a[0]) for x in grd)
                n = len(self.out)
                probe = []
                vac = {z.a[0].a[0] for z in ua + ub if z.op == 'eq0' and z.a[0].op == 'len'}
                lp = [(x, y) for x, y in lp if not (vac and (vacuous(x, y, vac) or vacuous(y, x, vac)))]
                for x, y in lp[:12]:
                    d = self.trial(x, y, path)
                    if d:
                        probe.append((x, y, d))
                if not probe and len(lp) <= 12:
                    # every pair of outcomes agrees once the loops are matched
                    return
                # the differing leaves belong to one branch of the extra condition
                definite = one_sided and simple and bool(probe) and all(m.definite for _, _, d in probe for m in d)
                samegrp = len(ua) == len(ub) and all(any(C.atomkey(x)[0] == C.atomkey(y)[0] for y in ub) for x in ua)
                if ua and ub and any(has_io(x) for x in ua + ub):
                    simple = False
                if samegrp and simple:
                    definite = bool(probe) and all(m.definite for _, _, d in probe for m in d)
                if not definite:
                    definite = self.witness(a, b, A, B, match, ua, ub, path)
                if not definite and simple and ua and ub and probe and all(m.definite for _, _, d in probe for m in d):
                    # the conditions differ in what they depend on
                    sa, sb = support(ua), support(ub)
                    definite = bool(sa - sb) and not any(x.op == 'cut' for x in ub) or looks_elsewhere(ua, ub)
                if not definite and ua and ub and probe and not any(has_io(x) for x in ua + ub):
                    definite = self.outright(pairs, lp, probe, ua, ub)
                if not definite and self.cellstack:
                    # elements of a list are rewritten on one side, and only appended on the other
                    u, v = self.cellstack[-1]
                    u, v = (u, v) if a.op != 'ite' or any(growth(l, u) for _, l in leaves(a)) else (v, u)
                    ga, gb = {growth(l, u) for _, l in leaves(a) if l.op != 'bot'}, {growth(l, v) for _, l in leaves(b) if l.op != 'bot'}
                    adds = {'kept', 'grown', 'extended'}
                    definite = len(TM.LOOPS[u.a[0]].cells) == len(TM.LOOPS[v.a[0]].cells) and None not in ga | gb and \
                        ('overwritten' in ga and gb <= adds or 'overwritten' in gb and ga <= adds)
                if DEBUG and not definite:
                    print('PROBE', one_sided, simple, samegrp, [show(x, 5) for x in ua + ub])
                    for x, y, d in probe:
                        print('    ', show(x, 6)[:300], '|', show(y, 6)[:300])
                        for m in d:
                            print('        ', m.text(6)[:500])
                if definite and all(blank_entry(x, y) or blank_entry(y, x) for x, y in lp):
                    # a key without anything under it, and no such key
                    definite = False
                if definite and not ua and self.cellstack and ub == [self.cellstack[-1][1]] and all(y is TRUE for _, y in lp):
                    # a flag that stays set once it is, against one set anew in every iteration
                    definite = False
                self.add(path, 'condition', tuple(ua) or None, tuple(ub) or None, definite)
                return
        for x, y in lp:
            if is_bool(x) and is_bool(y):
                if not sub:
                    self.add(path, 'condition', a, b, True)
                continue
            self.diff(x, y, path + ('then',))

    def outright(self, pairs, lp, probe, ua, ub):
        """some outcome of the reference has no counterpart: whatever the conditions mean, the current
        side answers differently wherever the reference gives it"""
        for c in ua + ub:
            if c.op in ('eq', 'streq', 'eq0') and not (c.op == 'eq0' and c.a[0].op == 'len'):
                return False
        ds = {}
        for x, y, d in probe:
            ds[(x, y)] = d
        if len(lp) > 12:
            return False
        for X in {x for x, _ in pairs}:
            if X.op in ('bot', 'ite'):
                continue
            ys = [y for x, y in pairs if x is X and y.op != 'bot']
            if ys and all((X, y) in lp and ds.get((X, y)) and all(m.definite and m.kind != 'condition' for m in ds[(X, y)]) for y in ys):
                if DEBUG:
                    print('OUTRIGHT', show(X, 6)[:300], [show(y, 6)[:300] for y in ys])
                return True
        return False

    def inner(self, a, b, A, B, match, path):
        """match the conditions inside conditions"""
        C = self.C
        xs = sorted(set(C.deepatoms(a)) - set(A) - set(match.values()), key=lambda t: t.id)
        if not xs:
            return
        for y in sorted(set(C.deepatoms(b)) - set(B), key=lambda t: t.id):
            if y in match or y in xs:
                continue
            c = self.acol(y)
            for x in xs:
                if x.op == y.op and (self.acol(x) in (c, (1 - c) % PRIME) or not self.trial(x, y, path)):
                    match[y] = x
                    break

    def witness(self, a, b, A, B, match, ua, ub, path):
        """the conditions look at one text: is there a text on which the outcomes differ"""
        sa, sb = [strdom.subject(x) for x in ua], [strdom.subject(x) for x in ub]
        if None in sa or None in sb or len(set(sa)) > 1 or len(set(sb)) > 1:
            return False
        ta, tb = (sa + [None])[0], (sb + [None])[0]
        if ta is not None and tb is not None and not self.eqv(ta, tb):
            return False
        if ta is None:
            ta = next((x for x in map(strdom.subject, sorted(set(A) | self.C.deepatoms(a), key=lambda t: t.id)) if x is not None and self.eqv(x, tb)), None)
        if tb is None:
            tb = next((x for x in map(strdom.subject, sorted(set(B) | self.C.deepatoms(b), key=lambda t: t.id)) if x is not None and self.eqv(ta, x)), None)
        xa = [x for x in set(A) | self.C.deepatoms(a) if ta is not None and strdom.subject(x) is ta]
        xb = [x for x in set(B) | self.C.deepatoms(b) if tb is not None and strdom.subject(x) is tb]
        for w in strdom.witnesses(xa + xb):
            va, vb = strdom.fold(xa, ta, w), strdom.fold(xb, tb, w)
            ca, cb = self.C.cofm(a, va, {}), self.C.cofm(b, vb, {})
            if any(x in xa and x not in va for x in set(atoms_of(ca)) | self.C.deepatoms(ca)) or any(x in xb and x not in vb for x in set(atoms_of(cb)) | self.C.deepatoms(cb)):
                continue
            pairs = {}
            m = {y: x for y, x in match.items() if y not in vb}
            self.product(ca, cb, m, pairs)
            for x, y in pairs:
                if x.op == 'bot' or y.op == 'bot' or self.same(x, y):
                    continue
                if not w and (vacuous(x, y, {ta, tb}) or vacuous(y, x, {ta, tb})):
                    continue
                d = self.trial(x, y, path)
                if d and all(z.definite for z in d):
                    return True
        return False

    def boolsame(self, a, b, match):
        return False

    def acol(self, x):
        """fingerprint of an atom, oriented"""
        return self.C.col(mk('ite', x, TRUE, FALSE))

    def push(self, m):
        if m.key() not in self.keys:
            self.keys.add(m.key())
            self.out.append(m)

    def trial(self, a, b, path):
        """mismatches of a pair without recording them (loop pairings made are undone)"""
        save = (set(self.seen), self.out, set(self.keys), dict(self.loops))
        self.out = []
        self.keys = set()
        self.diff(a, b, path)
        r = self.out
        self.seen, self.out, self.keys, self.loops = save
        return r

    def product(self, a, b, match, out, seen=None):
        """pairs of leaves reached together"""
        seen = set() if seen is None else seen
        stack = [(a, self.remap(b, match))]
        inv = {}
        for y, x in match.items():
            if y is not x:
                inv.setdefault(x, []).append((y, self.flipped(x, y)))
        while stack:
            x, y = stack.pop()
            if (x, y) in seen or len(seen) > 5000:
                continue
            seen.add((x, y))
            if x.op != 'ite' and y.op != 'ite':
                out[(x, y)] = True
                continue
            m = self.C.pivot(x, y)
            for pol in (True, False):
                asg = {m: pol}
                if pol:
                    g = TM._group(m)
                    if g is not None:
                        for z in self.C.deepatoms(x) | self.C.deepatoms(y):
                            if z is not m and TM._group(z) == g:
                                asg[z] = False
                # the current side mentions the same conditions under its own names
                for z, v in list(asg.items()):
                    for q, f in inv.get(z, ()):
                        asg.setdefault(q, v ^ f)
                memo = {}
                stack.append((self.C.cofm(x, asg, memo), self.C.cofm(y, asg, memo)))

    def flipped(self, x, y):
        return (self.acol(x) + self.acol(y)) % PRIME == 1 and self.acol(x) != self.acol(y)

    def remap(self, b, match):
        memo = {}

        def go(t):
            if t.op != 'ite':
                return t
            r = memo.get(t)
            if r is None:
                y = match.get(t.a[0], t.a[0])
                c = atom(y)
                # orientation may be flipped between equal atoms
                if y is not t.a[0] and self.flipped(t.a[0], y):
                    c = bnot(c)
                r = ite(c, go(t.a[1]), go(t.a[2]))
                memo[t] = r
            return r
        return go(b)

    # -------------------------------------------------------- sequences
    def seqs(self, a, b, path):
        A, B = merged(segs(a)), merged(segs(b))
        ca = [self.scol(s) for s in A]
        cb = [self.scol(s) for s in B]
        # longest common subsequence
        n, m = len(A), len(B)
        if n * m > 400000:
            return self.add(path, 'shape', a, b, False)
        tab = [[0] * (m + 1) for _ in range(n + 1)]
        for i in range(n - 1, -1, -1):
            for j in range(m - 1, -1, -1):
                tab[i][j] = tab[i + 1][j + 1] + 1 if ca[i] == cb[j] else max(tab[i + 1][j], tab[i][j + 1])
        i = j = 0
        blocks, ra, rb = [], [], []
        while i < n or j < m:
            if i < n and j < m and ca[i] == cb[j]:
                if ra or rb:
                    blocks.append((ra, rb))
                    ra, rb = [], []
                i += 1
                j += 1
            elif j < m and (i == n or tab[i][j + 1] >= tab[i + 1][j]):
                rb.append(B[j])
                j += 1
            else:
                ra.append(A[i])
                i += 1
        if ra or rb:
            blocks.append((ra, rb))
        for ra, rb in blocks:
            self.block(ra, rb, path)

    def scol(self, s):
        if s.op == 'lit':
            return s.a[0]
        if s.op == 'gam':
            return ('gam', self.C.col(s.a[0]))
        return (s.op, self.C.col(s))

    def block(self, ra, rb, path):
        if len(ra) == len(rb):
            for x, y in zip(ra, rb):
                self.seg(x, y, path)
            return
        if not ra or not rb:
            x = ra or rb
            return self.add(path, 'missing element' if ra else 'extra element', tuple(ra) or None, tuple(rb) or None,
                            all(s.op in ('one', 'lit', 'hole', 'kset', 'kapp', 'krem', 'rep', 'spl', 'gam') for s in x))
        if any(s.op == 'gam' for s in ra + rb):
            x, y = decision(ra), decision(rb)
            if x is not None and y is not None and (x.op == 'ite' or y.op == 'ite'):
                return self.diagrams(x, y, path)
        # pair elements of equal kind in order, the rest is missing or extra
        small, big = (ra, rb) if len(ra) < len(rb) else (rb, ra)
        kinds = [s.op for s in big]
        pos, ok, pairs = 0, True, []
        for s in small:
            while pos < len(big) and big[pos].op != s.op:
                pos += 1
            if pos == len(big):
                ok = False
                break
            pairs.append((s, big[pos]))
            pos += 1
        lits = all(s.op in ('lit', 'hole', 'one') for s in ra + rb)
        for x, y in ((ra, rb), (rb, ra)):
            # one value over and over again, against a list with another constant in it
            if len(x) == 1 and x[0].op == 'spl' and x[0].a[0].op == 'repeat' and x[0].a[0].a[0].op in CONSTS and \
                    any(s.op == 'one' and s.a[0].op in CONSTS and s.a[0] is not x[0].a[0].a[0] for s in y):
                lits = True
        self.add(path, 'elements', tuple(ra), tuple(rb), lits)

    def seg(self, x, y, path):
        if x.op == y.op:
            if x.op == 'lit':
                return self.add(path, 'text', x, y, True)
            if x.op in ('one', 'spl', 'gam'):
                return self.diff(x.a[0], y.a[0], path)
            if x.op == 'hole':
                if x.a[1] != y.a[1]:
                    return self.add(path, 'format', x, y, True)
                return self.diff(x.a[0], y.a[0], path)
            return self.diff(x, y, path)
        if x.op == 'gam' or y.op == 'gam':
            sx = x.a[0] if x.op == 'gam' else mk('seq', x)
            sy = y.a[0] if y.op == 'gam' else mk('seq', y)
            return self.diagrams(sx, sy, path)
        if {x.op, y.op} in ({'kapp', 'one'}, {'kset', 'kapp'}, {'krem', 'one'}, {'krem', 'kapp'}, {'krem', 'kset'}):
            k = [s.a[0][0].a[0] if s.op in ('kapp', 'kset') and s.a[0][0].op == 'K' else s.a[0] if s.op == 'krem' else TM.fld(s.a[0], '0') if s.op == 'one' and s.a[0].op == 'rec' else None
                 for s in (x, y)]
            filtered = any(contains(v, lambda t: t.op in ('rep', 'krem')) for s in (x, y) if s.op != 'krem' for v in ((s.a[0],) if s.op == 'one' else (s.a[1],)) if isinstance(v, T))
            return self.add(path, 'entry', x, y, None not in k and self.eqv(k[0], k[1]) and not filtered)
        if {x.op, y.op} <= {'lit', 'hole', 'one'}:
            return self.add(path, 'text', x, y, True)
        if {x.op, y.op} == {'rep', 'one'}:
            r = x if x.op == 'rep' else y
            d = TM.LOOPS[r.a[0]].dom if r.a[0] in TM.LOOPS else None
            if d is not None and d.op in ('param', 'fld') and r.a[1].op == 'seq' and len(r.a[1].a) == 1 and r.a[1].a[0].op == 'one' and \
                    any(TM.LOOPS[k].dom is d for k in list(self.loops) + list(self.loops.values()) if k in TM.LOOPS):
                # once for each element of a list that is gone through anyway, against only once
                return self.add(path, 'shape', x, y, True)
        if {x.op, y.op} == {'rep', 'spl'}:
            s = x.a[0] if x.op == 'spl' else y.a[0]
            r = y if x.op == 'spl' else x
            L = r.a[0]
            if L in TM.LOOPS and TM.LOOPS[L].dom is not None and self.eqv(TM.LOOPS[L].dom, s):
                e = one(TM.at(TM.LOOPS[L].dom, mk('idx', L)))
                return self.diff(e, r.a[1], path) if r is y else self.diff(r.a[1], e, path)
            dom = TM.LOOPS[L].dom if L in TM.LOOPS else None
            if dom is not None and dom.op == 'chars' and self.eqv(dom.a[0], s) and r.a[1].op == 'seq' and len(r.a[1].a) == 1 and r.a[1].a[0].op == 'one' and r.a[1].a[0].a[0].op == 'cast':
                # bytes of a text against its characters cut down to numbers
                return self.add(path, 'measure', x, y, True)
            if s.op in ('param', 'fld', 'at') or s.op in WRAP:
                return self.add(path, 'shape', x, y, False)
        return self.add(path, 'shape', x, y, False)

    # -------------------------------------------------------- loops
    def pairable(self, L, M):
        return self.loops.get(L) in (None, M) and (M not in self.loops.values() or self.loops.get(L) == M)

    def loop(self, L, M, path):
        if self.loops.get(L) == M:
            return True
        if L not in TM.LOOPS or M not in TM.LOOPS:
            self.add(path, 'shape', mk('idx', L), mk('idx', M), False)
            return False
        first = L not in self.loops
        if first:
            self.loops[L] = M
        if ('loop', L, M) in self.seen:
            return True
        if self.shallow:
            return True
        self.seen.add(('loop', L, M))
        if self.C.lc(L) == self.C.lc(M):
            return True
        o, n = TM.LOOPS[L], TM.LOOPS[M]
        p = path + ('loop ' + M,)
        if (o.count is None) != (n.count is None):
            self.add(p, 'shape', mk('idx', L), mk('idx', M), False)
            return False
        if o.count is not None and not self.same(o.count, n.count):
            if o.dom is not None and n.dom is not None and not self.same(o.dom, n.dom):
                self.diff(o.dom, n.dom, p + ('domain',))
            else:
                self.diff(o.count, n.count, p + ('count',))
        elif o.count is None and o.dom is not None and n.dom is not None:
            self.diff(o.dom, n.dom, p + ('domain',))
        ea = {self.C.ec(L, j): j for j in o.exits}
        eb = {self.C.ec(M, j): j for j in n.exits}
        ua = [ea[c] for c in ea if c not in eb]
        ub = [eb[c] for c in eb if c not in ea]
        if len(ua) == len(ub):
            for i, j in zip(sorted(ua), sorted(ub)):
                self.diff(o.exits[i], n.exits[j], p + ('exit',))
        elif ua or ub:
            self.add(p, 'exits', tuple(o.exits[i] for i in ua) or None, tuple(n.exits[i] for i in ub) or None, False)
        return True

    def exitpair(self, L, i, M, j, path):
        if self.C.ec(L, i) == self.C.ec(M, j):
            return
        o, n = TM.LOOPS[L], TM.LOOPS[M]
        if self.shallow:
            return
        self.diff(o.exits.get(int(i), FALSE), n.exits.get(int(j), FALSE), path + ('exit of ' + M,))

    def cells(self, L, c, M, d, path, op):
        if not self.loop(L, M, path):
            return
        if self.shallow and c.split('@')[0] == d.split('@')[0]:
            return
        if ('cell', L, c, M, d) in self.seen:
            return
        self.seen.add(('cell', L, c, M, d))
        if c == 'idx' or d == 'idx':
            if c != d:
                self.add(path, 'shape', mk(op, L, c), mk(op, M, d), False)
            return
        o, n = TM.LOOPS[L].cells.get(c), TM.LOOPS[M].cells.get(d)
        if o is not None and n is not None:
            nc, nd = c.split('@')[0], d.split('@')[0]
            if nc != nd and any(x.split('@')[0] == nc for x in TM.LOOPS[M].cells) and any(x.split('@')[0] == nd for x in TM.LOOPS[L].cells):
                return self.add(path, 'cell', mk(op, L, c), mk(op, M, d), False)
        if o is None or n is None:
            if o is not n:
                self.add(path, 'shape', mk('mu', L, c), mk('mu', M, d), False)
            return
        nm = d.split('@')[0]
        self.diff(o[0], n[0], path + ('initial ' + nm,))
        self.cellstack.append((mk('mu', L, c), mk('mu', M, d)))
        self.diff(o[1], n[1], path + ('next %s in %s' % (nm, M),))
        self.cellstack.pop()


def growth(t, mu):
    """how a list differs from the one the iteration started with"""
    if t is mu:
        return 'kept'
    if t.op == 'seq' and t.a and t.a[0].op == 'spl' and t.a[0].a[0] is mu and all(s.op in ('one', 'gam') for s in t.a[1:]):
        return 'grown' if any(s.op == 'one' for s in t.a[1:]) else 'extended'
    if t.op == 'arr' and t.a[0] is mu and t.a[1].op == 'seq' and len(t.a[1].a) and all(s.op == 'kset' for s in t.a[1].a):
        return 'overwritten'
    return None


def searched(t):
    """membership in a list written out, as a search for an equal element"""
    if t.op == 'any':
        return t

    def go(q):
        if q.op == 'ite':
            x, y = go(q.a[1]), go(q.a[2])
            return None if x is None or y is None else ite(atom(q.a[0]), x, y)
        if q.op != 'seq':
            return None
        out = []
        for s in q.a:
            if s.op == 'one':
                out.append(mk('one', TM.eq(s.a[0], t.a[1])))
                continue
            u = go(s.a[1]) if s.op == 'rep' else go(s.a[0]) if s.op == 'gam' else None
            if u is None:
                return None
            out.append(mk('rep', s.a[0], u) if s.op == 'rep' else mk('gam', u))
        return TM.seq(out)
    q = t.a[0].a[0] if t.a[0].op == 'set' else t.a[0]
    q = go(q) if t.op == 'has' and len(t.a) == 2 else None
    return None if q is None else mk('any', q)


def chosen(t):
    """an array whose changes depend on a condition, as a choice between arrays"""
    if t.op == 'ite':
        return ite(atom(t.a[0]), chosen(t.a[1]), chosen(t.a[2]))
    if t.op == 'arr' and t.a[1].op == 'ite':
        base = t.a[0]
        return TM.lift(lambda q: TM.mk_arr(base, q), t.a[1])
    return t


def later(x, y):
    """x repeats more often than y, and adds nothing the first times"""
    if x.op != 'rep' or y.op != 'rep' or x.a[0] not in TM.LOOPS or y.a[0] not in TM.LOOPS:
        return x
    L, M = TM.LOOPS[x.a[0]], TM.LOOPS[y.a[0]]
    if L.count is None or M.count is None or L.exits or contains(x.a[1], lambda t: t.op in ('mu', 'fin', 'finx', 'exit') and t.a[0] == L.id):
        return x
    (c, p), (d, q) = TM.lin_parts(L.count), TM.lin_parts(M.count)
    k = c - d
    if not 0 < k < 4 or len(p) != len(q):
        return x
    ix = mk('idx', L.id)
    for j in range(k):
        if TM.subst(x.a[1], {ix: TM.int_(j)}) is not EMPTY:
            return x
    n = L.id + '>>%d' % k
    if n not in TM.LOOPS:
        N = TM.LOOPS[n] = TM.Loop(n)
        N.count, N.simple, N.fn, N.sp, N.parent = TM.sub(L.count, TM.int_(k)), L.simple, L.fn, L.sp, L.parent
    return mk('rep', n, TM.subst(x.a[1], {ix: TM.add(mk('idx', n), TM.int_(k))}))


_ur = {}


def unread(t):
    """iterator functions without a meaning here that a value depends on"""
    if not isinstance(t, T):
        return frozenset().union(*[unread(x) for x in t]) if isinstance(t, (list, tuple)) else frozenset()
    r = _ur.get(t)
    if r is None:
        out, st, seen, ls = set(), [t], set(), set()
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == 'app' and str(x.a[0]).split('::')[0] in ('std', 'core', 'alloc', 'itertools') and ('iter' in str(x.a[0]).lower()):
                    out.add(str(x.a[0]))
                for y in x.dep:
                    if isinstance(y, str) and y in TM.LOOPS and y not in ls:
                        ls.add(y)
                        st.extend(TM.LOOPS[y].terms())
                st.extend(x.a)
        r = _ur[t] = frozenset(out)
    return r


PUREFN = {'trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 's_trim_matches', 's_trim_end_matches', 's_trim_start_matches'}


def support(ts):
    """the inputs a computation depends on, loops included"""
    out, st, seen, ls = set(), list(ts), set(), set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'param':
                out.add(x.a[0])
            if x.op in ('mu', 'fin', 'finx', 'exit', 'rep', 'idx') and x.a[0] not in ls and x.a[0] in TM.LOOPS:
                ls.add(x.a[0])
                st.extend(TM.LOOPS[x.a[0]].terms())
            st.extend(x.a)
    return out


def mapped(s):
    """the sequence a sequence is an element by element image of"""
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'rep':
        L, body = s.a[0].a
        if body.op == 'seq' and len(body.a) == 1 and body.a[0].op == 'one' and L in TM.LOOPS and TM.LOOPS[L].dom is not None:
            return TM.LOOPS[L].dom
    return s


def numeric(s):
    """the elements of an element by element image are numbers"""
    e = s.a[0].a[1].a[0].a[0]
    return e.op == 'cast' or e.op == 'at'


def flattened(s):
    """the list of lists all of whose elements a list has"""
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'rep':
        L, body = s.a[0].a
        if body.op == 'at' and body.a[1] is mk('idx', L):
            return body.a[0]
        if body.op == 'seq' and len(body.a) == 1 and body.a[0].op == 'spl' and body.a[0].a[0].op == 'at' and body.a[0].a[0].a[1] is mk('idx', L):
            return body.a[0].a[0].a[0]
        # element by element
        if body.op == 'seq' and len(body.a) == 1 and body.a[0].op == 'rep' and L in TM.LOOPS:
            M, b2 = body.a[0].a
            d = TM.LOOPS[M].dom if M in TM.LOOPS else None
            if d is not None and d.op == 'at' and d.a[1] is mk('idx', L) and b2 is one(TM.at(d, mk('idx', M))):
                return d.a[0]
    return None


def merged(ss):
    """an entry appended to right after it was made"""
    out = []
    for s in ss:
        if s.op == 'kapp' and len(s.a[0]) == 1 and s.a[0][0].op == 'K' and out and out[-1].op == 'one' and out[-1].a[0].op == 'rec' and \
                TM.fld(out[-1].a[0], '0') is s.a[0][0].a[0]:
            v = TM.fld(out[-1].a[0], '1')
            out[-1] = mk('one', TM.tup(s.a[0][0].a[0], TM.upd_path(v, (), 'kapp', s.a[1])))
        else:
            out.append(s)
    return out


def elems_of(t):
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'at' and x.a[1].op == 'idx':
                out.add(x)
            st.extend(x.a)
    return out


def ident(x, e):
    """x rebuilds the whole of e"""
    if x.op != 'rec':
        return False
    return all(v.op == 'fld' and v.a[0] is e for v in x.a[3])


_mm = {}


def mentions_mu(t):
    r = _mm.get(t)
    if r is None:
        r = t.op in ('mu', 'fin', 'finx') or any(mentions_mu(y) for x in t.a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T))
        _mm[t] = r
    return r


def vacuous(x, y, ds):
    """x is empty and y repeats over one of the sequences ds (tested for emptiness)"""
    return (x is EMPTY or x in ds) and y.op == "seq" and all(s.op == "rep" and s.a[0] in TM.LOOPS and (TM.LOOPS[s.a[0]].dom in ds or TM.LOOPS[s.a[0]].count is not None and
                                                TM.LOOPS[s.a[0]].count.op == 'len' and TM.LOOPS[s.a[0]].count.a[0] in ds) or s.op == 'spl' and s.a[0] in ds for s in y.a)


def scalar(t):
    if t.op == 'ite':
        return scalar(t.a[1]) and scalar(t.a[2])
    if t.op == 'rec':
        return all(scalar(x) for x in t.a[3])
    if t.op == 'fld' and t.a[0].op == 'at':
        return scalar(t.a[0])
    if t.op == 'lin':
        return all(scalar(v) for v, _ in t.a[1])
    if t.op == 'at' and (t.a[1].op == 'int' or t.a[1].op == 'lin' and all(scalar(v) for v, _ in t.a[1].a[1])):
        return True
    return t.op in ('int', 'chr', 'len', 'sum', 'bot', 'min', 'max', 'optfirst', 'true', 'false') or t.op == 'fld' and scalar(t.a[0])


def number(t):
    if t.op == 'ite':
        return number(t.a[1]) and number(t.a[2])
    return t.op in ('mu', 'fin', 'finx', 'int', 'lin', 'len', 'sum', 'min', 'max', 'idx', 'at', 'fld')


def summary(t):
    """text made up of a fixed number of numbers"""
    return t.op == 'seq' and bool(t.a) and all(s.op == 'lit' or s.op == 'hole' and scalar(s.a[0]) for s in t.a) and any(s.op == 'hole' for s in t.a)


def is_flush(x):
    return x.op == 'is' and x.a[1] == 'Ok' and x.a[0].op == 'io' and x.a[0].a[0] in ('flush', 'sync_all', 'sync_data')


_io = {}


def has_io(t):
    r = _io.get(t)
    if r is None:
        r = t.op == 'io' or any(has_io(y) for x in t.a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T))
        _io[t] = r
    return r


def simple_atom(x):
    if x.op == 'any':
        # some element has a flag set, or is empty
        return not contains(x, lambda t: not (t.op == 'eq0' and t.a[0].op == 'len') and t.op in ('eq', 'streq', 'eq0', 'ge0', 'has', 'mu', 'fin', 'finx', 'exit', 'undef', 'bad', 'strhas', 'starts', 'ends'))
    if x.op == 'has' and fresh(x.a[1]):
        return False
    return x.op not in ('exit', 'undef', 'bad', 'ite')


def collects(step):
    """the loop only concatenates texts"""
    L = TM.LOOPS.get(step[5:]) if step.startswith('loop ') else None
    if L is None or L.exits:
        return False
    for i, n in L.cells.values():
        if not (i is EMPTY and n.op == 'seq' and len(n.a) == 2 and n.a[0].op == 'spl' and n.a[0].a[0].op == 'mu' and (n.a[1].op == 'spl' or n.a[1].op == 'one' and n.a[1].a[0].op == 'fld')):
            return False
    return bool(L.cells)


def blank_entry(x, y):
    """y is x and an entry without a value more"""
    if x.op != 'seq' or y.op != 'seq' or len(y.a) != len(x.a) + 1 or y.a[:-1] != x.a:
        return False
    e = y.a[-1]
    v = e.a[1] if e.op == 'kset' else TM.fld(e.a[0], '1') if e.op == 'one' and e.a[0].op == 'rec' and len(e.a[0].a[3]) == 2 else None
    return v is not None and (v is EMPTY or v.op in ('map', 'set') and v.a[0] is EMPTY)


def fresh(k):
    """a number that was not used as a key so far, such as the length of the list it numbers"""
    return k.op in ('len', 'max') or k.op == 'lin' and any(v.op in ('len', 'max') for v, _ in k.a[1])


def expanded(x, y):
    if x.op not in ('app', 'fld', 'param', 'at', 'mget') or y.op != 'ite':
        return x
    ls = [l for _, l in leaves(y) if l.op != 'bot']
    if not ls or not all(l.op == 'rec' and l.a[0] in ('Result', 'Option') for l in ls):
        return x
    if not any(t.op == 'is' and (t.a[0] is x or t.a[0].op == x.op == 'app' and t.a[0].a[0] == x.a[0]) for t in atoms_of(y)):
        return x
    ty = ls[0].a[0]
    good, other = ('Ok', 'Err') if ty == 'Result' else ('Some', 'None')
    bad = [l for l in ls if l.a[1] == other]
    e = bad[0] if bad and not bad[0].a[3] else TM.rec(ty, other, (), ()) if ty == 'Option' else TM.rec(ty, other, ('0',), (TM.fld(x, '0', other),))
    return TM.gam(TM.is_var(x, good), TM.rec(ty, good, ('0',), (TM.fld(x, '0', good),)), e)


DEPS = ('fancy_regex', 'regex', 'regex_automata')


def answered(x, y):
    """x is an answer of the regex engine, y is worked out without asking it"""
    if x.op != 'app' or str(x.a[0]).split('::')[0] not in DEPS or y.op in ('param', 'app', 'ite'):
        return False
    return not contains(y, lambda t: t.op in ('mu', 'fin', 'finx', 'undef', 'bad', 'cut', 'hv') or t.op == 'app' and not str(t.a[0]).startswith('std::'))


def unit(t):
    """what a length or position counts"""
    if t.op == 'app' and str(t.a[0]).endswith(('::Match::start', '::Match::end')):
        return 'bytes'
    if t.op == 'len' and t.a[0].op == 'chars':
        return 'characters'
    if t.op == 'len' and t.a[0].op in ('take', 'drop') and stem(t.a[0])[0].op == 'chars':
        return 'characters'
    return None


def stem(t):
    """the sequence a selection by position is taken from, and whether a position is not constant"""
    n = False
    while True:
        if t.op in ('take', 'drop'):
            n = n or t.a[1].op != 'int'
            t = t.a[0]
        elif t.op == 'cat' and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == 'seq' and len(t.a) == 1 and t.a[0].op in ('spl', 'hole', 'cat') and isinstance(t.a[0].a[0], T):
            t = t.a[0].a[0]
        else:
            return t, n


def unwrapped(t):
    while t.op in WRAP and isinstance(t.a[0], T):
        t = t.a[0]
    return t


_cn = {}


def cellnames(t):
    """the loop variables a condition mentions itself"""
    r = _cn.get(t)
    if r is None:
        r = frozenset()
        if t.op in ('mu', 'fin', 'finx'):
            r = frozenset(((t.a[0], t.a[-1]),))
        for x in t.a:
            for y in x if isinstance(x, tuple) else (x,):
                if isinstance(y, T):
                    r |= cellnames(y)
        _cn[t] = r
    return r


def crossed(x, y):
    """the conditions test differently named variables that both loops have"""
    cx, cy = cellnames(x), cellnames(y)
    nx, ny = {c.split('@')[0] for _, c in cx}, {c.split('@')[0] for _, c in cy}
    if nx == ny or not nx or not ny:
        return False
    hx = {c.split('@')[0] for L, _ in cx if L in TM.LOOPS for c in TM.LOOPS[L].cells}
    hy = {c.split('@')[0] for L, _ in cy if L in TM.LOOPS for c in TM.LOOPS[L].cells}
    return nx <= hy and ny <= hx


def paths_of(ts):
    """the places in the inputs a condition looks at (None: something else too)"""
    out = set()

    def acc(x):
        if x.op == 'param':
            return str(x.a[0])
        if x.op == 'fld':
            p = acc(x.a[0])
            return p and '%s.%s%s' % (p, x.a[2] + ':' if x.a[2] else '', x.a[1])
        if x.op == 'at':
            p = acc(x.a[0])
            return p and p + '[]'
        return None

    def go(x):
        if x.op in ('param', 'fld', 'at'):
            p = acc(x)
            if p:
                out.add(p)
                if x.op == 'at':
                    go(x.a[1])
                elif x.op == 'fld' and x.a[0].op == 'at':
                    go(x.a[0].a[1])
                return
        if x.op in ('app', 'hv', 'fin', 'finx', 'mu', 'exit', 'io', 'undef', 'any', 'rep'):
            out.add(None)
        for y in x.a:
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, T):
                    go(z)
    for t in ts:
        go(t)
    return out


def looks_elsewhere(ua, ub):
    pa, pb = paths_of(ua), paths_of(ub)
    if None in pa or None in pb:
        return False
    pa = {p for p in pa if '.' in p}
    rel = lambda p, q: p.startswith(q) or q.startswith(p)
    return bool(pa) and any(not any(rel(p, q) for q in pb) for p in pa)
