"""Tests on texts, decided on witness texts.

Conditions such as `s == "^"`, `s.ends_with('$')` or `s.len() == 4` that look at one text
only are predicates over one string.  Two decision diagrams that differ in such conditions
are compared on a finite family of witness texts built from the constants that occur in the
conditions themselves: the predicates are folded on each witness, and a witness on which
the remaining diagrams differ shows the two conditions to be different predicates.
"""
from terms import *
import terms as TM

ACCESS = ('param', 'fld', 'mget', 'app')
PRED = {'streq', 'ends', 'starts', 'strhas', 'eq0', 'ge0'}


class No(Exception):
    pass


def lit_of(t):
    if t.op == 'seq' and all(s.op == 'lit' or s.op == 'one' and s.a[0].op == 'chr' for s in t.a):
        return ''.join(s.a[0] if s.op == 'lit' else chr(s.a[0].a[0]) for s in t.a)
    if t.op == 'lit' and isinstance(t.a[0], str):
        return t.a[0]
    return None


def base(t, out):
    """the innermost texts a term looks at"""
    if t.op in ('int', 'chr', 'lit', 'bytes', 'true', 'false') or lit_of(t) is not None:
        return
    if t.op in ('streq', 'ends', 'starts', 'strhas', 'trim', 'trim_start', 'trim_end', 'chars', 'len', 'rev', 'take', 'drop', 'eq0', 'ge0', 'lin', 'bin', 'take_while',
                's_trim_matches', 's_trim_end_matches', 's_trim_start_matches', 's_find', 's_rfind', 'as_bytes_', 'chr8'):
        for x in t.a if t.op != 'lin' else [v for v, _ in t.a[1]]:
            if isinstance(x, T):
                if t.op == 'take_while' and x is t.a[1]:
                    continue
                base(x, out)
        return
    if t.op == 'at' and t.a[0].op in ('s_split', 's_splitn', 's_rsplit', 'lines', 'split_whitespace', 'at'):
        out.add(t)
        return
    if t.op == 'at' and (t.a[1].op in ('int', 'lin')) and t.a[0].op != 'param' and t.a[0].op != 'fld':
        b = set()
        base(t.a[0], b)
        base(t.a[1], b)
        out |= b
        return
    if t.op == 'at' and t.a[1].op in ('int', 'lin'):
        out.add(t.a[0])
        base(t.a[1], out)
        return
    out.add(t)


def lits(t, out, nums):
    l = lit_of(t)
    if l is not None:
        if l:
            out.add(l)
        return
    if t.op in ('chr', 'int'):
        if 0 <= t.a[0] < 0x110000 and t.op == 'chr':
            out.add(chr(t.a[0]))
        if t.op == 'int':
            nums.add(t.a[0])
        return
    if t.op == 'lin':
        nums.add(t.a[0])
        if 32 <= abs(t.a[0]) < 127:
            out.add(chr(abs(t.a[0])))
        for v, _ in t.a[1]:
            lits(v, out, nums)
        return
    for x in t.a:
        if isinstance(x, T):
            lits(x, out, nums)
    for x in t.dep:
        if isinstance(x, str) and x in TM.LOOPS and t.op == 'rep':
            lits(t.a[1], out, nums)


def ev(t, s, w):
    """value of t when the text s is w"""
    if t is s:
        return w
    l = lit_of(t)
    if l is not None:
        return l
    o = t.op
    if o in ('int', 'chr'):
        return t.a[0]
    if o == 'true':
        return True
    if o == 'false':
        return False
    if o == 'lin':
        return t.a[0] + sum(k * ev(v, s, w) for v, k in t.a[1])
    if o == 'eq0':
        return ev(t.a[0], s, w) == 0
    if o == 'ge0':
        return ev(t.a[0], s, w) >= 0
    if o == 'ite':
        return ev(t.a[1] if ev(t.a[0], s, w) else t.a[2], s, w)
    if o in ('streq', 'ends', 'starts', 'strhas', 'len', 'rev', 'trim', 'trim_start', 'trim_end', 'chars', 'as_bytes_'):
        x = ev(t.a[0], s, w)
        if not isinstance(x, str):
            raise No()
        if o == 'len':
            return len(x)
        if o == 'rev':
            return x[::-1]
        if o in ('chars', 'as_bytes_'):
            return x
        if o.startswith('trim'):
            return {'trim': x.strip, 'trim_start': x.lstrip, 'trim_end': x.rstrip}[o]()
        y = ev(t.a[1], s, w)
        return {'streq': lambda: x == y, 'ends': lambda: x.endswith(y), 'starts': lambda: x.startswith(y), 'strhas': lambda: y in x}[o]()
    if o in ('take', 'drop'):
        x, n = ev(t.a[0], s, w), ev(t.a[1], s, w)
        if not 0 <= n <= len(x):
            raise No()
        return x[:n] if o == 'take' else x[n:]
    if o == 'at':
        x, n = ev(t.a[0], s, w), ev(t.a[1], s, w)
        if not isinstance(x, str) or not 0 <= n < len(x):
            raise No()
        return ord(x[n])
    if o == 'bin' and t.a[0] == 'Rem':
        return ev(t.a[1], s, w) % ev(t.a[2], s, w)
    if o == 'take_while':
        x = ev(t.a[0], s, w)
        p = t.a[1]
        if p.op != 'seq' or len(p.a) != 1 or p.a[0].op != 'rep':
            raise No()
        L, body = p.a[0].a
        if body.op != 'seq' or len(body.a) != 1 or body.a[0].op != 'one':
            raise No()
        n = 0
        e = TM.at(t.a[0], mk('idx', L))
        while n < len(x) and ev2(body.a[0].a[0], e, ord(x[n])):
            n += 1
        return x[:n]
    raise No()


def fold(xs, s, w):
    r = {}
    for x in xs:
        try:
            r[x] = bool(ev(x, s, w))
        except (No, TypeError, ZeroDivisionError):
            pass
    return r


def inside(x, s):
    return x is s or any(inside(y, s) for y in (x.a if x.op != 'lin' else [v for v, _ in x.a[1]]) if isinstance(y, T))


def ev2(t, e, v):
    if t is e:
        return v
    if t.op == 'int' or t.op == 'chr':
        return t.a[0]
    if t.op in ('true', 'false'):
        return t.op == 'true'
    if t.op == 'ite':
        return ev2(t.a[1] if ev2(t.a[0], e, v) else t.a[2], e, v)
    if t.op == 'lin':
        return t.a[0] + sum(k * ev2(x, e, v) for x, k in t.a[1])
    if t.op == 'eq0':
        return ev2(t.a[0], e, v) == 0
    if t.op == 'ge0':
        return ev2(t.a[0], e, v) >= 0
    raise No()


def looked(x, s):
    if x.op in ('len', 'at', 'take_while') and isinstance(x.a[0], T) and inside(x.a[0], s):
        return True
    return any(looked(y, s) for y in (x.a if x.op != 'lin' else [v for v, _ in x.a[1]]) if isinstance(y, T))


def subject(x):
    """the one text condition x looks at, or None"""
    if x.op not in PRED:
        return None
    b = set()
    base(x, b)
    if len(b) != 1:
        return None
    s = b.pop()
    # a text, not a number: it has to be looked into somewhere
    if x.op in ('eq0', 'ge0') and not looked(x, s):
        return None
    return s


def witnesses(atoms):
    ls, ns = set(), set()
    for x in atoms:
        lits(x, ls, ns)
    ls = sorted(ls, key=lambda l: (len(l), l))[:6]
    out = ['', 'q', 'qq']
    for l in ls:
        out += [l, l + 'q', 'q' + l, 'q' + l + 'q', l + l, l * 3, l * 4, l[:-1], l[1:], 'q' + l + l, ' ' + l, l + ' ']
    for a in ls:
        for b in ls:
            if a != b:
                out += [a + b, a + 'q' + b, a + a + b, b + a + a + b, a + b + b, a * 3 + b, 'q' + a * 4 + b]
    for n in sorted({abs(n) for n in ns if abs(n) <= 16}):
        for k in (n - 1, n, n + 1):
            if k >= 0:
                out.append('q' * k)
                for l in ls:
                    if len(l) <= k:
                        out += [l + 'q' * (k - len(l)), 'q' * (k - len(l)) + l]
                    if len(l) == 1:
                        for j in range(k):
                            out.append('q' * j + l + 'q' * (k - j - 1))
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r[:600]
