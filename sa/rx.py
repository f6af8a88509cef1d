"""Regexes of the definition files as byte automata (an own implementation, independent of the
code under analysis).  A caret is the start-of-text byte 255.  Byte sets are 256 bit masks.
"""
ALL = (1 << 256) - 1


def bit(b):
    return 1 << b


def rng(a, b):
    return ((1 << (b - a + 1)) - 1) << a


def utf8(a, b):
    """code point range -> byte sequences of (lo, hi)"""
    out = []

    def enc(c):
        return chr(c).encode('utf8', 'surrogatepass')

    def split(lo, hi):
        if lo > hi:
            return
        if lo < 0xD800 and hi > 0xDFFF:
            split(lo, 0xD7FF)
            split(0xE000, hi)
            return
        if lo >= 0xD800 and lo <= 0xDFFF:
            split(0xE000, hi)
            return
        if hi >= 0xD800 and hi <= 0xDFFF:
            split(lo, 0xD7FF)
            return
        for m in (0x7F, 0x7FF, 0xFFFF):
            if lo <= m < hi:
                split(lo, m)
                split(m + 1, hi)
                return
        if hi <= 0x7F:
            out.append([(lo, hi)])
            return
        for i in range(1, 4):
            m = (1 << (6 * i)) - 1
            if lo & ~m != hi & ~m:
                if lo & m:
                    split(lo, lo | m)
                    split((lo | m) + 1, hi)
                    return
                if hi & m != m:
                    split(lo, (hi & ~m) - 1)
                    split(hi & ~m, hi)
                    return
        out.append(list(zip(enc(lo), enc(hi))))
    split(a, b)
    return out


MAXC = 0x10FFFF


def norm(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def negate(rs):
    out, p = [], 0
    for a, b in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return out


class RegexError(Exception):
    pass


ESC = {'n': 10, 'r': 13, 't': 9, 'v': 11, 'f': 12, '0': 0, 'a': 7}
CLS = {'d': [(48, 57)], 'w': [(48, 57), (65, 90), (95, 95), (97, 122)], 's': [(9, 13), (32, 32)]}


class P:
    """regex text -> tree: ('set', ranges) ('sentinel',) ('cat', xs) ('alt', xs) ('rep', x, lo, hi)"""

    def __init__(self, s):
        self.s, self.i = s, 0

    def more(self):
        return self.i < len(self.s)

    def top(self):
        r = self.alt()
        if self.more():
            raise RegexError('unbalanced at %d of %r' % (self.i, self.s))
        return r

    def alt(self):
        xs = [self.cat()]
        while self.more() and self.s[self.i] == '|':
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def cat(self):
        xs = []
        while self.more() and self.s[self.i] not in '|)':
            xs.append(self.post())
        return ('cat', xs)

    def post(self):
        x = self.atom()
        while self.more() and self.s[self.i] in '*+?{':
            c = self.s[self.i]
            if c == '{':
                e = self.s.index('}', self.i)
                q = self.s[self.i + 1:e].split(',')
                self.i = e + 1
                lo = int(q[0])
                hi = lo if len(q) == 1 else int(q[1]) if q[1] else None
            else:
                self.i += 1
                lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
            if self.more() and self.s[self.i] == '?':
                self.i += 1
            x = ('rep', x, lo, hi)
        return x

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == '(':
            if self.s.startswith('?:', self.i):
                self.i += 2
            elif self.s.startswith('?', self.i):
                raise RegexError('group flags')
            x = self.alt()
            if not self.more() or self.s[self.i] != ')':
                raise RegexError('group')
            self.i += 1
            return x
        if c == '[':
            return ('set', self.cls())
        if c == '.':
            return ('set', negate([(10, 10)]))
        if c == '^':
            return ('sentinel',)
        if c == '$':
            raise RegexError('end anchor')
        if c == '\\':
            return ('set', self.esc())
        return ('set', [(ord(c), ord(c))])

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        if c in CLS:
            return CLS[c]
        if c.lower() in CLS:
            return negate(CLS[c.lower()])
        if c == 'x':
            h = self.s[self.i:self.i + 2]
            self.i += 2
            return [(int(h, 16), int(h, 16))]
        v = ESC.get(c, ord(c))
        if c.isalnum() and c not in ESC:
            raise RegexError('escape \\' + c)
        return [(v, v)]

    def cls(self):
        neg = False
        if self.s[self.i] == '^':
            neg = True
            self.i += 1
        rs = []
        first = True
        while True:
            c = self.s[self.i]
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if c == '[' or self.s.startswith('&&', self.i) or self.s.startswith('--', self.i) and False:
                raise RegexError('class')
            self.i += 1
            a = self.esc() if c == '\\' else [(ord(c), ord(c))]
            if self.s[self.i] == '-' and self.s[self.i + 1] != ']' and len(a) == 1 and a[0][0] == a[0][1]:
                self.i += 1
                d = self.s[self.i]
                self.i += 1
                b = self.esc() if d == '\\' else [(ord(d), ord(d))]
                if b[0][0] < a[0][0]:
                    raise RegexError('range')
                rs.append((a[0][0], b[0][1]))
            else:
                rs += a
        return negate(rs) if neg else norm(rs)


class NFA:
    def __init__(self):
        self.e, self.t = [], []        # epsilon edges, (mask, target) edges

    def new(self):
        self.e.append([])
        self.t.append([])
        return len(self.e) - 1

    def build(self, x, s):
        """returns the end state"""
        k = x[0]
        if k == 'sentinel':
            n = self.new()
            self.t[s].append((bit(255), n))
            return n
        if k == 'set':
            n = self.new()
            for a, b in x[1]:
                for seq in utf8(a, b):
                    p = s
                    for j, (lo, hi) in enumerate(seq):
                        q = n if j == len(seq) - 1 else self.new()
                        self.t[p].append((rng(lo, hi), q))
                        p = q
            return n
        if k == 'cat':
            for y in x[1]:
                s = self.build(y, s)
            return s
        if k == 'alt':
            n = self.new()
            for y in x[1]:
                a = self.new()
                self.e[s].append(a)
                self.e[self.build(y, a)].append(n)
            return n
        if k == 'rep':
            _, y, lo, hi = x
            for _ in range(lo):
                s = self.build(y, s)
            if hi is None:
                a = self.new()
                self.e[s].append(a)
                self.e[self.build(y, a)].append(a)
                n = self.new()
                self.e[a].append(n)
                return n
            n = self.new()
            self.e[s].append(n)
            for _ in range(hi - lo):
                s = self.build(y, s)
                self.e[s].append(n)
            return n
        raise RegexError(k)


class DFA:
    """trans[s] = {byte: target}, state 0 is the start"""

    def __init__(self, trans, acc):
        self.trans, self.acc = trans, acc

    def trim(self):
        """only states from which acceptance is reachable"""
        rev = {}
        for s, m in enumerate(self.trans):
            for t in m.values():
                rev.setdefault(t, set()).add(s)
        live, work = set(self.acc), list(self.acc)
        while work:
            for p in rev.get(work.pop(), ()):
                if p not in live:
                    live.add(p)
                    work.append(p)
        for m in self.trans:
            for b in [b for b, t in m.items() if t not in live]:
                del m[b]
        return self


def subset(starts, step, accepting):
    """step(frozenset) -> {byte: frozenset}"""
    ids, trans, acc = {starts: 0}, [], set()
    order = [starts]
    i = 0
    while i < len(order):
        S = order[i]
        if accepting(S):
            acc.add(i)
        m = {}
        for b, T in step(S).items():
            if not T:
                continue
            if T not in ids:
                ids[T] = len(order)
                order.append(T)
            m[b] = ids[T]
        trans.append(m)
        i += 1
    return DFA(trans, acc)


def compile(text):
    n = NFA()
    s = n.new()
    f = n.build(P(text).top(), s)

    def close(S):
        S, w = set(S), list(S)
        while w:
            for t in n.e[w.pop()]:
                if t not in S:
                    S.add(t)
                    w.append(t)
        return frozenset(S)

    def step(S):
        es = [e for s in S for e in n.t[s]]
        out, memo = {}, {}
        for b in range(256):
            ts = frozenset(t for m, t in es if m >> b & 1)
            if ts:
                if ts not in memo:
                    memo[ts] = close(ts)
                out[b] = memo[ts]
        return out
    return minimise(subset(close([s]), step, lambda S: f in S).trim())


def minimise(d):
    n = len(d.trans)
    part = [1 if s in d.acc else 0 for s in range(n)]
    while True:
        sig = {}
        new = []
        for s in range(n):
            k = (part[s], tuple(sorted((b, part[t]) for b, t in d.trans[s].items())))
            new.append(sig.setdefault(k, len(sig)))
        if len(set(new)) == len(set(part)):
            break
        part = new
    # number from the start state
    ids, order = {new[0]: 0}, [0]
    i = 0
    trans = []
    while i < len(order):
        m = {}
        for b, t in sorted(d.trans[order[i]].items()):
            if new[t] not in ids:
                ids[new[t]] = len(order)
                order.append(t)
            m[b] = ids[new[t]]
        trans.append(m)
        i += 1
    return DFA(trans, {i for i, s in enumerate(order) if s in d.acc})


def product(a, b, limit=3):
    """walk two automata together; differences as (kind, word)"""
    out, seen, work = [], {(0, 0): b''}, [(0, 0)]
    pairs = []
    while work and len(out) < limit:
        p, q = work.pop(0)
        w = seen[(p, q)]
        pairs.append((p, q))
        if (p in a.acc) != (q in b.acc):
            out.append(('accepts only in the ' + ('first' if p in a.acc else 'second'), w))
        for x in range(256):
            s, t = a.trans[p].get(x), b.trans[q].get(x)
            if s is None and t is None:
                continue
            if s is None or t is None:
                out.append(('byte %d only possible in the %s' % (x, 'second' if s is None else 'first'), w + bytes([x])))
                if len(out) >= limit:
                    break
                continue
            if (s, t) not in seen:
                seen[(s, t)] = w + bytes([x])
                work.append((s, t))
    return out, pairs


def merged(parts):
    """automaton of a part list under the merge rule: where a part may end, a byte the next part
    can start with belongs to the next part.  Returns DFA and, per edge (state, byte), its part."""
    ds = [compile(p) for p in parts]
    owner = {}
    start = frozenset([(0, 0)])

    def step(S):
        (k, q), = S
        out = {}
        for b, t in ds[k].trans[q].items():
            out[b] = (frozenset([(k, t)]), k)
        if q in ds[k].acc and k + 1 < len(ds):
            for b, t in ds[k + 1].trans[0].items():
                out[b] = (frozenset([(k + 1, t)]), k + 1)
        for b, (T, j) in out.items():
            owner[(S, b)] = j
        return {b: T for b, (T, j) in out.items()}
    ids = {start: 0}
    order = [start]
    trans, own = [], {}
    i = 0
    while i < len(order):
        m = {}
        for b, T in step(order[i]).items():
            if T not in ids:
                ids[T] = len(order)
                order.append(T)
            m[b] = ids[T]
            own[(i, b)] = owner[(order[i], b)]
        trans.append(m)
        i += 1
    acc = {i for i, S in enumerate(order) if next(iter(S))[0] == len(ds) - 1 and next(iter(S))[1] in ds[-1].acc}
    return DFA(trans, acc).trim(), own
