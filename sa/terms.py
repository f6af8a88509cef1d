"""Hash-consed value terms of the MIR value-numbering analysis (no execution, no solver).

A term is an operator with arguments; equal terms are the same object.  Conditions and
values that depend on conditions are reduced ordered decision diagrams ('ite' nodes over
condition atoms), so the way branches are nested does not matter.  Integers are kept in
linear normal form.  Strings and vectors are sequences of segments.
"""
import re
import sys
sys.setrecursionlimit(100000)

_tab = {}
_cnt = [0]
CUR = {'sp': None}


class T:
    __slots__ = ('op', 'a', 'id', 'sp', 'dep', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


NODEP = frozenset()


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        t.sp = CUR['sp']
        d = NODEP
        for x in a:
            d = _dep(x, d)
        if op in ('mu', 'idx', 'fin', 'rep', 'exit', 'finx'):
            d = d | {a[0]}
        elif op == 'elem':
            d = d | {t}
        t.dep = d
        _tab[k] = t
    return t


def _dep(x, d):
    if isinstance(x, T):
        if x.dep:
            return d | x.dep if d else x.dep
    elif isinstance(x, tuple):
        for y in x:
            d = _dep(y, d)
    return d


def reset():
    _tab.clear()
    global TRUE, FALSE
    for m in (_ite_memo, _res_memo, _not_memo, _aset_memo):
        m.clear()
    _consts()


def _consts():
    global TRUE, FALSE, EMPTY, UNIT
    TRUE = mk('true')
    FALSE = mk('false')
    EMPTY = mk('seq')
    UNIT = mk('rec', '()', '', (), ())


_ite_memo = {}
_res_memo = {}
_not_memo = {}
_aset_memo = {}
_consts()

# ---------------------------------------------------------------- conditions / MTBDD


def is_bool(t):
    return t is TRUE or t is FALSE


def _group(atom):
    """atoms of one group exclude each other"""
    if atom.op == 'eq0':
        l = atom.a[0]
        if l.op == 'lin' and len(l.a[1]) == 1 and l.a[1][0][1] == 1:
            return ('n', l.a[1][0][0])
        if l.op != 'lin':
            return ('n', l)
    if atom.op == 'is':
        return ('v', atom.a[0])
    if atom.op == 'streq':
        return ('s', atom.a[0])
    return None


def atoms_of(t):
    r = _aset_memo.get(t)
    if r is None:
        if t.op != 'ite':
            r = frozenset()
        else:
            r = frozenset((t.a[0],)) | atoms_of(t.a[1]) | atoms_of(t.a[2])
        _aset_memo[t] = r
    return r


def cof(t, atom, val):
    """cofactor of t for atom=val"""
    if t.op != 'ite' or atom not in atoms_of(t):
        return t
    if t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return node(t.a[0], cof(t.a[1], atom, val), cof(t.a[2], atom, val))


def node(atom, hi, lo):
    g = _group(atom)
    if g is not None:
        for x in atoms_of(hi):
            if x is not atom and _group(x) == g:
                hi = cof(hi, x, False)
    if hi is lo:
        return hi
    return mk('ite', atom, hi, lo)


def atom(a):
    """boolean diagram of one atom"""
    return mk('ite', a, TRUE, FALSE)


def _top(*ts):
    m = None
    for t in ts:
        if t.op == 'ite' and (m is None or t.a[0].id < m.id):
            m = t.a[0]
    return m


def _co(t, m):
    if t.op == 'ite' and t.a[0] is m:
        return t.a[1], t.a[2]
    return t, t


def ite(c, a, b):
    """raw decision diagram: if c then a else b"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op != 'ite':
        c = atom(c)
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is None:
        m = _top(c, a, b)
        c1, c0 = _co(c, m)
        a1, a0 = _co(a, m)
        b1, b0 = _co(b, m)
        g = _group(m)
        if g is not None:
            c1, a1, b1 = (_excl(x, m, g) for x in (c1, a1, b1))
        r = node(m, ite(c1, a1, b1), ite(c0, a0, b0))
        _ite_memo[k] = r
    return r


def _excl(t, m, g):
    for x in atoms_of(t):
        if x is not m and _group(x) == g:
            t = cof(t, x, False)
    return t


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    r = _not_memo.get(a)
    if r is None:
        if a is TRUE:
            r = FALSE
        elif a is FALSE:
            r = TRUE
        elif a.op == 'ite':
            r = mk('ite', a.a[0], bnot(a.a[1]), bnot(a.a[2]))
        else:
            r = mk('ite', a, FALSE, TRUE)
        _not_memo[a] = r
    return r


def restrict(f, c):
    """simplify f knowing c holds"""
    if c is TRUE or c is FALSE or f.op != 'ite':
        return f
    k = (f, c)
    r = _res_memo.get(k)
    if r is None:
        fa, ca = f.a[0], c.a[0]
        if ca.id < fa.id and ca is not fa:
            g = _group(ca)
            f1 = _excl(f, ca, g) if g is not None else f
            if c.a[2] is FALSE:
                r = restrict(f1, c.a[1])
            elif c.a[1] is FALSE:
                r = restrict(f, c.a[2])
            else:
                r = restrict(f, bor(c.a[1], c.a[2]))
        elif ca is fa:
            if c.a[1] is FALSE:
                r = restrict(f.a[2], c.a[2])
            elif c.a[2] is FALSE:
                r = restrict(f.a[1], c.a[1])
            else:
                r = node(fa, restrict(f.a[1], c.a[1]), restrict(f.a[2], c.a[2]))
        else:
            r = node(fa, restrict(f.a[1], cof(c, fa, True)), restrict(f.a[2], cof(c, fa, False)))
        _res_memo[k] = r
    return r


def leaves(t, c=None):
    """[(condition, leaf)] of a decision diagram, conditions as diagrams"""
    if t.op != 'ite':
        return [(TRUE if c is None else c, t)]
    out = {}

    def go(t, c):
        if t.op != 'ite':
            out[t] = bor(out[t], c) if t in out else c
            return
        a = atom(t.a[0])
        go(t.a[1], band(c, a))
        go(t.a[2], band(c, bnot(a)))
    go(t, TRUE)
    return [(c2, l) for l, c2 in out.items()]


def lift(f, t):
    """apply f to the leaves of t"""
    if t.op != 'ite':
        return f(t)
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == 'ite':
                r = gam(atom(t.a[0]), go(t.a[1]), go(t.a[2]))
            else:
                r = f(t)
            memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- integers

def int_(n):
    return mk('int', n)


def lin_parts(t):
    if t.op == 'int':
        return t.a[0], ()
    if t.op == 'lin':
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def lin(c, d):
    ps = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda p: p[0].id))
    if not ps:
        return int_(c)
    if c == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return mk('lin', c, ps)


def _intleaves(t):
    return t.op == 'ite' and all(l.op == 'int' for _, l in leaves(t))


def add(a, b, sb=1):
    if _intleaves(a):
        return lift(lambda x: add(x, b, sb), a)
    if _intleaves(b):
        return lift(lambda x: add(a, x, sb), b)
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    d = dict(pa)
    for k, v in pb:
        d[k] = d.get(k, 0) + sb * v
    return lin(ca + sb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    if not pa:
        return lin(ca * cb, {k: ca * v for k, v in pb})
    if not pb:
        return lin(ca * cb, {k: cb * v for k, v in pa})
    if a.id > b.id:
        a, b = b, a
    return mk('mul', a, b)


def _numlift(t):
    return t.op == 'ite'


def eq0(l):
    if l.op == 'ite':
        return lift(eq0, l)
    if l.op == 'int':
        return TRUE if l.a[0] == 0 else FALSE
    c, ps = lin_parts(l)
    if ps[0][1] < 0:
        l = lin(-c, {k: -v for k, v in ps})
        c, ps = lin_parts(l)
    if len(ps) == 1 and ps[0][0].op == 'ite' and ps[0][1] == 1:
        return lift(lambda x: eq0(add(x, int_(c))), ps[0][0])
    if all(v > 0 for _, v in ps) and c > 0:
        return FALSE
    if c == 0 and len(ps) == 2 and ps[0][1] == -ps[1][1] and ps[0][0].op == ps[1][0].op == 'at' and ps[0][0].a[0] is ps[1][0].a[0] and ps[0][0].a[0].op == 'set':
        # the elements of a set differ
        return eq0(sub(ps[0][0].a[1], ps[1][0].a[1]))
    if len(ps) == 1 and ps[0][1] == 1 and ps[0][0].op == 'u8of' and -c > 255:
        return FALSE
    return atom(mk('eq0', l))


def extremum(t):
    """t is the larger or the smaller of two numbers"""
    if t.op != 'ite' or t.a[0].op != 'ge0' or t.a[1].op == 'ite' or t.a[2].op == 'ite':
        return None
    x, y = t.a[1], t.a[2]
    d = t.a[0].a[0]
    for k, p, q in (('max', x, y), ('min', y, x)):
        e = sub(sub(p, q), d)
        if e.op == 'int' and e.a[0] in (0, 1):
            return k, x, y
    return None


def ge0(l):
    """l >= 0 for integer l over naturals"""
    if l.op == 'ite':
        return lift(ge0, l)
    if l.op == 'int':
        return TRUE if l.a[0] >= 0 else FALSE
    c, ps = lin_parts(l)
    if len(ps) == 1 and ps[0][0].op == 'ite' and abs(ps[0][1]) == 1:
        s = ps[0][1]
        return lift(lambda x: ge0(add(int_(c), x, s)), ps[0][0])
    for v, k in ps:
        m = extremum(v)
        if m:
            # the larger of two is small exactly if both are
            rest = {p: q for p, q in ps if p is not v}
            x, y = (ge0(add(lin(c, rest), mul(int_(k), z))) for z in m[1:])
            return (band if (m[0] == 'max') == (k < 0) else bor)(x, y)
    if c >= 0 and all(v > 0 for _, v in ps):
        return TRUE
    if c < 0 and all(v < 0 for _, v in ps):
        return FALSE
    if len(ps) == 1 and ps[0][1] == 1 and -3 <= c < 0:
        # x >= k for a small k: x is none of 0..k-1
        r = TRUE
        for j in range(-c):
            r = band(r, bnot(eq0(add(ps[0][0], int_(-j)))))
        return r
    if len(ps) == 1 and ps[0][1] == -1 and 0 <= c < 3:
        return bnot(ge0(lin(-c - 1, {ps[0][0]: 1})))
    if ps[0][1] < 0:
        return bnot(atom(mk('ge0', lin(-c - 1, {k: -v for k, v in ps}))))
    return atom(mk('ge0', l))


def lt(a, b):
    return ge0(add(sub(b, a), int_(-1)))


def le(a, b):
    return ge0(sub(b, a))


# ---------------------------------------------------------------- records and variants

def rec(adt, variant, names, vals):
    return mk('rec', adt, variant, tuple(names), tuple(vals))


def tup(*vals):
    return rec('()', '', [str(i) for i in range(len(vals))], vals)


def some(x):
    return rec('Option', 'Some', ['0'], [x])


def none():
    return rec('Option', 'None', [], [])


def ok(x):
    return rec('Result', 'Ok', ['0'], [x])


def err(x):
    return rec('Result', 'Err', ['0'], [x])


def bool_opt(c, x):
    return gam(c, some(x), none())


TWO = {'Option': ('Some', 'None'), 'Result': ('Ok', 'Err'), 'ControlFlow': ('Continue', 'Break')}
_neg = {'None': 'Some', 'Err': 'Ok', 'Break': 'Continue'}


def is_var(x, v):
    def f(y):
        if y.op == 'rec':
            return TRUE if y.a[1] == v else FALSE
        if v in _neg:
            return bnot(is_var(y, _neg[v]))
        # presence of an opaque first/last element is emptiness of the sequence
        if y.op == 'optfirst' and v == 'Some':
            return bnot(eq0(length(y.a[0])))
        if v == 'Ok' and y.op == 'app' and y.a[0] == 'regex::Regex::new' and valid_pattern(y.a[1]):
            return TRUE
        return atom(mk('is', y, v))
    return lift(f, x)


def valid_pattern(t):
    """a pattern written in the code, of the plain kind that always compiles"""
    if t.op == 'seq' and len(t.a) == 1 and t.a[0].op == 'lit':
        s = t.a[0].a[0]
        if isinstance(s, str) and len(s) < 500 and re.fullmatch(r'(?:[^\\{}&~]|\\[sdwnrtx*+?.()\[\]=>-])*', s) and not re.search(r'\(\?|\[\[|--', s):
            try:
                re.compile(s)
                return True
            except re.error:
                pass
    return False


def fld(x, name, variant=''):
    """field `name` of a struct/tuple value or of enum variant `variant`"""
    def f(y):
        if y.op == 'rec':
            if variant and y.a[1] and y.a[1] != variant:
                return mk('bot')
            for n, v in zip(y.a[2], y.a[3]):
                if n == name:
                    return v
            return mk('bot')
        if y.op == 'bot':
            return y
        if y.op == 'optfirst' and variant == 'Some':
            return at(y.a[0], int_(0))
        if y.op == 'recupd':
            b, n, v = y.a
            return v if n == name else fld(b, name, variant)
        if y.op == 'at' and y.a[0].op == 'seq' and (r := column(y.a[0], name, variant)) is not None:
            return at(r, y.a[1])
        return mk('fld', y, variant, name)
    return drop_bot(lift(f, x))


def column(s, name, variant):
    """the sequence of one field of the records that are listed in s"""
    if s.op == 'ite':
        u, v = column(s.a[1], name, variant), column(s.a[2], name, variant)
        return None if u is None or v is None else ite(s.a[0], u, v)
    if s.op != 'seq':
        return None
    out = []
    for p in s.a:
        if p.op == 'one' and p.a[0].op == 'rec':
            out.append(mk('one', fld(p.a[0], name, variant)))
        elif p.op == 'rep' and p.a[0] in LOOPS and (b := column(p.a[1], name, variant)) is not None:
            out.append(mk('rep', p.a[0], b))
        else:
            return None
    return mk('seq', *out)


def drop_bot(t):
    """branches that cannot be taken (value of a wrong variant)"""
    if t.op != 'ite':
        return t
    hi, lo = drop_bot(t.a[1]), drop_bot(t.a[2])
    if hi.op == 'bot':
        return lo
    if lo.op == 'bot':
        return hi
    if hi is t.a[1] and lo is t.a[2]:
        return t
    return node(t.a[0], hi, lo)


def setfld(x, name, v, variant='', names=None):
    def f(y):
        if y.op == 'rec' and name in y.a[2]:
            vals = list(y.a[3])
            vals[y.a[2].index(name)] = v
            return mk('rec', y.a[0], y.a[1], y.a[2], tuple(vals))
        if names and not variant:
            return rec(names[0], '', names[1], [v if n == name else fld(y, n) for n in names[1]])
        if y.op == 'bot':
            return y
        return mk('recupd', y, name, v)
    return lift(f, x)


# ---------------------------------------------------------------- sequences

def lit(s):
    return mk('seq', mk('lit', s)) if s else EMPTY


def segs(t):
    """segments of a sequence value"""
    if t.op == 'seq':
        return t.a
    if t.op == 'ite':
        return (mk('gam', t),)
    return (mk('spl', t),)


def seq(ss):
    out = []
    for s in ss:
        if s.op == 'lit':
            if not s.a[0]:
                continue
            if out and out[-1].op == 'lit':
                out[-1] = mk('lit', out[-1].a[0] + s.a[0])
                continue
        elif s.op == 'spl' and s.a[0].op in ('seq', 'ite'):
            for q in segs(s.a[0]):
                if q.op == 'lit' and out and out[-1].op == 'lit':
                    out[-1] = mk('lit', out[-1].a[0] + q.a[0])
                else:
                    out.append(q)
            continue
        elif s.op == 'gam':
            m = s.a[0]
            if m.op != 'ite':
                for q in segs(m):
                    if q.op == 'lit' and out and out[-1].op == 'lit':
                        out[-1] = mk('lit', out[-1].a[0] + q.a[0])
                    else:
                        out.append(q)
                continue
        elif s.op == 'rep' and s.a[1] is EMPTY:
            continue
        out.append(s)
    if len(out) == 1:
        if out[0].op == 'spl':
            return out[0].a[0]
        if out[0].op == 'gam':
            return out[0].a[0]
    return mk('seq', *out)


def cat(*ts):
    r = []
    for t in ts:
        r.extend(segs(t))
    return seq(r)


def one(v):
    return mk('seq', mk('one', v))


def ones(vs):
    return mk('seq', *[mk('one', v) for v in vs]) if vs else EMPTY


def is_seqlike(t):
    return t.op in ('seq', 'range', 'drop', 'take')


def gam(c, a, b):
    """value merge; factors what both branches share"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    ka, kb = _kind(a), _kind(b)
    if ka == 'seq' or kb == 'seq':
        if ka in ('seq', 'ite', None) and kb in ('seq', 'ite', None):
            return gam_seq(c, a, b)
    if ka in ('map', 'set') and (kb == ka or kb is None) or kb in ('map', 'set') and ka is None:
        k = ka if ka in ('map', 'set') else kb
        return mk_cont(k, gam_seq(c, cont_seq(a, k), cont_seq(b, k)))
    if ka == 'arr' or kb == 'arr':
        ba = a.a[0] if ka == 'arr' else a
        bb = b.a[0] if kb == 'arr' else b
        if ba is bb:
            qa = a.a[1] if ka == 'arr' else EMPTY
            qb = b.a[1] if kb == 'arr' else EMPTY
            return mk_arr(ba, gam_seq(c, qa, qb))
    if ka == 'rec' and kb == 'rec' and a.a[:3] == b.a[:3] and (a.a[1] == '' or len(a.a[3]) == 0 or True):
        if a.a[1] == '':
            return mk('rec', a.a[0], a.a[1], a.a[2], tuple(gam(c, x, y) for x, y in zip(a.a[3], b.a[3])))
        # same enum variant on both sides: merge the payload
        return mk('rec', a.a[0], a.a[1], a.a[2], tuple(gam(c, x, y) for x, y in zip(a.a[3], b.a[3])))
    return ite(c, a, b)


def _kind(t):
    if t.op == 'seq':
        return 'seq'
    if t.op in ('map', 'set', 'arr', 'rec', 'ite'):
        return t.op
    if t.op in ('int', 'true', 'false', 'bot', 'lin'):
        return t.op
    return None


def _lcp_lit(x, y):
    n = 0
    for p, q in zip(x, y):
        if p != q:
            break
        n += 1
    return n


def gam_seq(c, a, b):
    if a is b:
        return a
    sa, sb = list(segs(a)), list(segs(b))
    pre, suf = [], []
    while sa and sb and sa[0] is sb[0]:
        pre.append(sa.pop(0))
        sb.pop(0)
    while sa and sb and sa[-1] is sb[-1]:
        suf.insert(0, sa.pop())
        sb.pop()
    mid = ite(c, seq(sa), seq(sb))
    return seq(pre + list(segs(mid)) + suf)


LOOPS = {}      # loop id -> Loop record (filled by the engine)


def length(t):
    def f(t):
        if t.op == 'seq':
            r = int_(0)
            for s in t.a:
                if s.op == 'one':
                    r = add(r, int_(1))
                elif s.op == 'lit':
                    r = add(r, int_(len(s.a[0].encode())))
                elif s.op == 'spl':
                    r = add(r, length(s.a[0]))
                elif s.op == 'gam':
                    r = add(r, length(s.a[0]))
                elif s.op == 'rep':
                    n = length(s.a[1])
                    if n.op == 'int' and s.a[0] in LOOPS and LOOPS[s.a[0]].count is not None:
                        r = add(r, mul(n, LOOPS[s.a[0]].count))
                    else:
                        r = add(r, mk('len', mk('seq', s)))
                else:
                    r = add(r, mk('len', mk('seq', s)))
            return r
        if t.op == 'range':
            return sub(t.a[1], t.a[0])
        if t.op == 'drop':
            return sub(length(t.a[0]), t.a[1])
        if t.op == 'take':
            return t.a[1]
        if t.op in ('enum', 'rev', 'sorted', 'sortedby', 'mapvals', 'keys', 'values', 'muts', 'mapmuts', 'mvmuts'):
            return length(t.a[0])
        if t.op == 'repeat':
            return t.a[1]
        if t.op == 'arr':
            return length(t.a[0])
        if t.op == 'zip':
            return length(t.a[0])
        if t.op in ('set', 'map') and t.a[0] is EMPTY:
            return int_(0)
        return mk('len', t)
    return lift(f, t)


_pure_memo = {}


def pure_of(t, L):
    """t does not depend on state carried between the iterations of L"""
    if L not in t.dep and not any(isinstance(x, str) and L in loop_deps(x) for x in t.dep):
        return True
    k = (t, recsig(L))
    r = _pure_memo.get(k)
    if r is None:
        seen, st, r, loops = set(), [t], True, set()
        while st and r:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
                continue
            if not isinstance(x, T) or not x.dep or x in seen:
                continue
            seen.add(x)
            if x.op in ('mu', 'fin', 'exit', 'finx', 'rep', 'idx'):
                if x.a[0] == L and x.op != 'idx':
                    r = False
                elif x.a[0] != L and x.a[0] not in loops and x.a[0] in LOOPS:
                    loops.add(x.a[0])
                    st.extend(LOOPS[x.a[0]].terms())
            st.extend(x.a)
        _pure_memo[k] = r
    return r


def elems(r, s):
    """the sequence r of indexes of s as the sequence of the elements of s at them"""
    if not (len(r.a) == 1 and r.a[0].op == 'rep' and r.a[0].a[0] in LOOPS):
        return None
    L, body = r.a[0].a
    d = LOOPS[L].dom
    d = d.a[0] if d is not None and d.op == 'enum' else d
    if d is not s:
        return None
    idx = mk('idx', L)

    def f(x):
        if x.op == 'ite':
            u, v = f(x.a[1]), f(x.a[2])
            return None if u is None or v is None else ite(x.a[0], u, v)
        if x.op == 'seq' and not x.a:
            return x
        if x.op == 'seq' and len(x.a) == 1 and x.a[0].op == 'one' and x.a[0].a[0] is idx:
            return one(at(s, idx))
        return None
    b = f(body)
    return None if b is None else mk('seq', mk('rep', L, b))


def at(s, i):
    if i.op == 'at' and i.a[0].op == 'seq' and s.op != 'ite' and (r := elems(i.a[0], s)) is not None:
        return at(r, i.a[1])
    if i.op == 'ite' and len(atoms_of(i)) <= 3:
        return lift(lambda j: mk('bot') if j.op == 'bot' else at(s, j), i)

    def f(s):
        if s.op == 'seq':
            if i.op == 'int':
                n = i.a[0]
                for g in s.a:
                    if g.op == 'one':
                        if n == 0:
                            return g.a[0]
                        n -= 1
                    else:
                        break
            if len(s.a) == 1 and s.a[0].op == 'rep':
                L, body = s.a[0].a
                if body.op == 'seq' and len(body.a) == 1 and body.a[0].op == 'one' and L in LOOPS and pure_of(body, L):
                    return subst(body.a[0].a[0], {mk('idx', L): i})
            return mk('at', s, i)
        if s.op == 'range':
            return add(s.a[0], i)
        if s.op == 'drop':
            return at(s.a[0], add(s.a[1], i))
        if s.op == 'take':
            return at(s.a[0], i)
        if s.op == 'enum':
            return tup(i, at(s.a[0], i))
        if s.op == 'zip':
            return tup(at(s.a[0], i), at(s.a[1], i))
        if s.op == 'rev':
            return at(s.a[0], sub(add(length(s.a[0]), int_(-1)), i))
        if s.op == 'keys':
            return fld(at(s.a[0], i), '0')
        if s.op == 'values':
            return fld(at(s.a[0], i), '1')
        if s.op == 'repeat':
            return s.a[0]
        if s.op == 'muts':
            return ref_ext(s.a[1], ('at', i))
        if s.op == 'mapmuts':
            k = fld(at(s.a[0], i), '0')
            return tup(k, ref_ext(s.a[1], ('key', k)))
        if s.op == 'mvmuts':
            return ref_ext(s.a[1], ('key', fld(at(s.a[0], i), '0')))
        if s.op == 'arr':
            return arr_get(s, i)
        if s.op == 'bot':
            return s
        return mk('at', s, i)
    return lift(f, s)


def distinct(a, b):
    """provably different"""
    if a is b:
        return False
    if a.op == 'int' and b.op == 'int':
        return True
    if a.op in ('int', 'lin') or b.op in ('int', 'lin'):
        d = sub(a, b)
        if d.op == 'int' and d.a[0] != 0:
            return True
        return False
    if a.op == 'seq' and b.op == 'seq':
        if all(s.op == 'lit' for s in a.a) and all(s.op == 'lit' for s in b.a):
            return True
    if a.op == 'rec' and b.op == 'rec':
        if a.a[1] != b.a[1]:
            return True
        return any(distinct(x, y) for x, y in zip(a.a[3], b.a[3]))
    return False


def repeated(x, n):
    def f(k):
        if k.op == 'int' and 0 <= k.a[0] <= 8:
            return seq([mk('one', x)] * k.a[0])
        return mk('repeat', x, k)
    return lift(f, n)


def drop(s, n):
    if n.op == 'int' and n.a[0] == 0:
        return s
    if n.op == 'ite':
        return lift(lambda k: drop(s, k), n)

    def f(s):
        if n is length(s) and s.op in ('param', 'seq'):
            return EMPTY
        if s.op == 'repeat':
            return repeated(s.a[0], sub(s.a[1], n))
        if s.op == 'seq' and len(s.a) > 1 and s.a[0].op == 'spl':
            k = sub(n, length(seq(s.a[:1])))
            if k.op == 'int' and k.a[0] >= 0:
                return drop(seq(s.a[1:]), k)
        if s.op == 'seq' and n.op == 'int':
            k = n.a[0]
            ss = list(s.a)
            while k and ss:
                if ss[0].op == 'one':
                    ss.pop(0)
                    k -= 1
                elif ss[0].op == 'lit' and ss[0].a[0].isascii():
                    t = ss[0].a[0]
                    m = min(k, len(t))
                    ss[0] = mk('lit', t[m:])
                    if not t[m:]:
                        ss.pop(0)
                    k -= m
                else:
                    break
            if k == 0:
                return seq(ss)
            return mk('drop', seq(ss), int_(k))
        if s.op == 'drop':
            return drop(s.a[0], add(s.a[1], n))
        if s.op == 'range':
            return mk('range', add(s.a[0], n), s.a[1])
        if s.op == 'bot':
            return s
        return mk('drop', s, n)
    return lift(f, s)


def take(s, n):
    if s.op == 'ite' and not any(l.op == 'ref' for _, l in leaves(s)):
        return lift(lambda x: take(x, n), s)
    if n.op == 'ite':
        return lift(lambda k: take(s, k), n)
    if n is length(s) and s.op in ('param', 'seq'):
        return s
    if s.op == 'repeat':
        return repeated(s.a[0], n)
    if s.op == 'seq' and len(s.a) > 1 and s.a[0].op == 'spl':
        # the first list is taken whole
        k = sub(n, length(seq(s.a[:1])))
        if k.op == 'int' and k.a[0] >= 0:
            r = seq(s.a[1:])
            return cat(seq(s.a[:1]), take(r, k) if k.a[0] else EMPTY)
    return mk('take', s, n)


# ---------------------------------------------------------------- maps, sets, indexed vectors

def cont_seq(t, k):
    """update log of a map/set value"""
    if t.op == k:
        return t.a[0]
    return seq([mk('spl', t)]) if t.op != 'ite' else mk('seq', mk('gam', t))


IDEMP = {'trim': ('trim',), 'trim_start': ('trim_start', 'trim'), 'trim_end': ('trim_end', 'trim'), 'to_lowercase': ('to_lowercase',),
         'to_ascii_lowercase': ('to_ascii_lowercase',), 'to_ascii_uppercase': ('to_ascii_uppercase',)}


def unary(n, v):
    """text function n of v; applying it again changes nothing"""
    if n == 'trim' and v.op in ('trim_start', 'trim_end'):
        return mk(n, v.a[0])
    return v if v.op in IDEMP.get(n, ()) else mk(n, v)


def const_key(t):
    if t.op in ('int', 'chr'):
        return (0, t.a[0])
    if t.op == 'seq' and len(t.a) == 1 and t.a[0].op == 'lit':
        return (1, t.a[0].a[0])
    return None


def mk_cont(k, q):
    if k == 'map' and q.op == 'seq' and len(q.a) > 1 and all(s.op == 'one' and s.a[0].op == 'rec' for s in q.a):
        # entries under different constant keys: the order they were put in is not observable
        ks = [const_key(fld(s.a[0], '0')) for s in q.a]
        if None not in ks and len(set(ks)) == len(ks):
            q = seq([s for _, s in sorted(zip(ks, q.a), key=lambda p: p[0])])
    if q.op not in ('seq', 'ite', 'rep'):
        return mk(k, q) if q.op in ('sorted', 'range', 'keys', 'values', 'rev', 'drop', 'take') else q
    return mk(k, q)


def mk_arr(base, q):
    if q is EMPTY:
        return base
    return mk('arr', base, q)


def map_get(m, k):
    """value stored under k (payload of Option); None if undecided -> term"""
    def f(m):
        if m.op == 'map':
            ss = list(segs(m.a[0]))
            i = len(ss)
            pend = []
            while i > 0:
                s = ss[i - 1]
                if s.op == 'one' and s.a[0].op == 'rec':
                    kk = fld(s.a[0], '0')
                    if kk is k:
                        return apply_pend(fld(s.a[0], '1'), pend)
                    if distinct(kk, k):
                        i -= 1
                        continue
                    break
                if s.op in ('kapp', 'kset'):
                    path = s.a[0]
                    if path[0] is mk('K', k):
                        pend.insert(0, (s.op, path[1:], s.a[1]))
                        i -= 1
                        continue
                    if distinct(path[0].a[0], k):
                        i -= 1
                        continue
                    break
                if s.op == 'krem' and distinct(s.a[0], k):
                    i -= 1
                    continue
                if s.op == 'gam' and len(atoms_of(s.a[0])) <= GAMMAX:
                    pre = seq(ss[:i - 1])
                    return apply_pend(lift(lambda l: map_get(mk_cont('map', cat(pre, l)), k), s.a[0]), pend)
                break
            base = seq(ss[:i])
            bm = mk_cont('map', base)
            return apply_pend(own_entry(bm, k, '1') or mk('mget', bm, k), pend)
        return own_entry(m, k, '1') or mk('mget', m, k)
    return lift(f, m)


def own_entry(m, k, n):
    """the entry of m whose key k is taken from m itself"""
    if k.op == 'fld' and k.a[1] == '0' and k.a[0].op == 'at' and k.a[0].a[0] is m:
        return fld(k.a[0], n)
    return None


def apply_pend(v, pend):
    for op, path, x in pend:
        v = upd_path(v, path, op, x)
    return v


def map_has(m, k):
    def f(m):
        if m.op == 'map':
            ss = list(segs(m.a[0]))
            while ss:
                s = ss.pop()
                if s.op == 'one' and s.a[0].op == 'rec':
                    kk = fld(s.a[0], '0')
                    if kk is k:
                        return TRUE
                    if distinct(kk, k):
                        continue
                if s.op in ('kapp', 'kset'):
                    # updating an entry in place does not change which keys exist
                    continue
                if s.op == 'krem':
                    if s.a[0] is k:
                        return FALSE
                    if distinct(s.a[0], k):
                        continue
                if s.op == 'gam' and len(atoms_of(s.a[0])) <= GAMMAX:
                    pre = seq(ss)
                    return lift(lambda l: map_has(mk_cont('map', cat(pre, l)), k), s.a[0])
                return atom(mk('has', mk_cont('map', seq(ss + [s])), k))
            return FALSE
        return atom(mk('has', m, k))
    return lift(f, m)


def map_opt(m, k):
    return gam(map_has(m, k), some(map_get(m, k)), none())


def set_has(s, k):
    def f(s):
        if s.op == 'set':
            ss = list(segs(s.a[0]))
            while ss:
                g = ss.pop()
                if g.op == 'one':
                    if g.a[0] is k:
                        return TRUE
                    if distinct(g.a[0], k):
                        continue
                if g.op == 'krem':
                    if g.a[0] is k:
                        return FALSE
                    if distinct(g.a[0], k):
                        continue
                if g.op == 'spl' and not ss:
                    return atom(mk('has', g.a[0], k))
                return atom(mk('has', mk_cont('set', seq(ss + [g])), k))
            return FALSE
        if s.op == 'seq':
            if all(g.op == 'one' for g in s.a):
                r = FALSE
                for g in s.a:
                    r = bor(r, eq(g.a[0], k))
                return r
        return atom(mk('has', s, k))
    return lift(f, s)


GAMMAX = 6


def overwritten(s, path):
    """every update of segment s is undone by setting path"""
    if s.op in ('kset', 'kapp'):
        return tuple(s.a[0][:len(path)]) == tuple(path)
    if s.op == 'gam':
        return all(l is EMPTY or l.op == 'seq' and all(overwritten(x, path) for x in l.a) for _, l in leaves(s.a[0]))
    return False


def arr_get(a, i):
    base, q = a.a
    ss = list(segs(q))
    pend = []
    while ss:
        s = ss[-1]
        if s.op in ('kset', 'kapp'):
            p = s.a[0]
            if p[0] is i:
                pend.insert(0, (s.op, p[1:], s.a[1]))
                ss.pop()
                if s.op == 'kset' and len(p) == 1:
                    return apply_pend(mk('bot'), pend)
                continue
            if distinct(p[0], i):
                ss.pop()
                continue
        if s.op == 'gam' and len(atoms_of(s.a[0])) <= GAMMAX:
            pre = seq(ss[:-1])
            return apply_pend(lift(lambda l: at(mk_arr(base, cat(pre, l)), i), s.a[0]), pend)
        break
    if ss:
        return apply_pend(mk('at', mk_arr(base, seq(ss)), i), pend)
    return apply_pend(at(base, i), pend)


def upd_path(v, path, op, x):
    """container v with op ('kset' value x / 'kapp' append x) at index/key path"""
    if not path:
        if op == 'kset':
            return x
        if v.op == 'map' or v.op == 'set':
            return mk_cont(v.op, cat(v.a[0], x.a[0] if x.op == v.op else x))
        return cat(v, x)

    def f(v):
        if path[0].op == 'K':
            q = cont_seq(v, 'map')
            if op == 'kset' and len(path) == 1:
                return mk_cont('map', cat(q, one(tup(path[0].a[0], x))))
            if op == 'kset' or len(path) > 1:
                # an entry written just before is updated directly
                ss = segs(q)
                if ss and ss[-1].op == 'one' and fld(ss[-1].a[0], '0') is path[0].a[0]:
                    nv = upd_path(fld(ss[-1].a[0], '1'), path[1:], op, x)
                    return mk_cont('map', seq(ss[:-1] + (mk('one', tup(path[0].a[0], nv)),)))
            return mk_cont('map', cat(q, mk('seq', mk(op, tuple(path), x))))
        if v.op == 'arr':
            ss = segs(v.a[1])
            if op == 'kset':
                n = len(ss)
                while n and overwritten(ss[n - 1], path):
                    n -= 1
                if n < len(ss):
                    return mk_arr(v.a[0], cat(seq(ss[:n]), mk('seq', mk(op, tuple(path), x))))
            if ss and ss[-1].op == 'kset' and tuple(path[:len(ss[-1].a[0])]) == ss[-1].a[0]:
                # an element written just before is updated directly
                nv = upd_path(ss[-1].a[1], path[len(ss[-1].a[0]):], op, x)
                return mk_arr(v.a[0], seq(ss[:-1] + (mk('kset', ss[-1].a[0], nv),)))
            return mk_arr(v.a[0], cat(v.a[1], mk('seq', mk(op, tuple(path), x))))
        if v.op == 'seq' and path[0].op == 'int':
            n = path[0].a[0]
            if n < len(v.a) and all(s.op == 'one' for s in v.a[:n + 1]):
                ss = list(v.a)
                ss[n] = mk('one', upd_path(ss[n].a[0], path[1:], op, x))
                return seq(ss)
        return mk_arr(v, mk('seq', mk(op, tuple(path), x)))
    return lift(f, v)


# references: mutable reference to (cell, path)

def ref(cell, path=()):
    return mk('ref', cell, tuple(path))


def ref_ext(r, step):
    return lift(lambda x: mk('ref', x.a[0], x.a[1] + (step,)) if x.op == 'ref' else mk('bot'), r)


# ---------------------------------------------------------------- equality

NUMOPS = {'int', 'lin', 'len', 'mul', 'idx', 'div', 'rem', 'cast', 'satsub'}


def is_text(t):
    return t.op == 'seq' and all(s.op in ('lit', 'hole') for s in t.a) and t.a


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return lift(lambda x: eq(x, b), a)
    if b.op == 'ite':
        return lift(lambda x: eq(a, x), b)
    if a.op in ('int', 'lin') or b.op in ('int', 'lin'):
        return eq0(sub(a, b))
    if a.op == 'rec' and b.op == 'rec':
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[3], b.a[3]):
            r = band(r, eq(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'rec' and x.a[0] in TWO and y.op != 'rec':
            r = is_var(y, x.a[1])
            for n, v in zip(x.a[2], x.a[3]):
                r = band(r, eq(fld(y, n, x.a[1]), v))
            return r
        if x is EMPTY:
            return eq0(length(y))
        if x is TRUE:
            return y if y.op == 'ite' else atom(y)
        if x is FALSE:
            return bnot(y if y.op == 'ite' else atom(y))
    if distinct(a, b):
        return FALSE
    if is_text(a) and not is_text(b):
        a, b = b, a
    if is_text(b):
        return atom(mk('streq', a, b))
    if a.op in NUMOPS or b.op in NUMOPS or a.op in ('at', 'fld', 'mu', 'fin', 'param'):
        # opaque scalars: linear form is canonical
        return eq0(sub(a, b))
    if a.id > b.id:
        a, b = b, a
    return atom(mk('eq', a, b))


# ---------------------------------------------------------------- substitution

class Loop:
    def __init__(self, L):
        self.id = L
        self.count = None       # number of completed iterations, if known at loop entry
        self.dom = None         # sequence iterated over (if an iterator loop)
        self.cells = {}         # key -> (init, next) over mu terms
        self.exits = {}         # exit no -> condition over mu terms
        self.simple = False     # pure map: no state carried between iterations
        self.fn = None
        self.sp = None
        self.parent = None
        self.guard = None       # filter condition fused from the domain
        self.desc = ''
        self.fusedom = None

    def terms(self):
        out = []
        for i, n in self.cells.values():
            out += [i, n]
        out += [c for c in self.exits.values()]
        for x in (self.count, self.dom):
            if x is not None:
                out.append(x)
        return out


def loop_deps(L, seen=None):
    """all bound loops / placeholder elements a loop record depends on"""
    seen = set() if seen is None else seen
    if L in seen or L not in LOOPS:
        return set()
    seen.add(L)
    d = set()
    for t in LOOPS[L].terms():
        for x in t.dep:
            d.add(x)
            if isinstance(x, str):
                d |= loop_deps(x, seen)
    return d


def all_deps(t):
    d = set(t.dep)
    for x in list(d):
        if isinstance(x, str):
            d |= loop_deps(x)
    return d


_inst_cnt = {}


def subst(t, m, memo=None):
    """replace terms by m (dict T->T), renormalising; loops that depend on a replaced
    term are instantiated under a new id"""
    keys = set()
    for k in m:
        keys |= set(k.dep)
    if memo is None:
        memo = {}
    ctx = (m, keys, memo, {})
    return _sub(t, ctx)


def _sub(t, ctx):
    m, keys, memo, loopmap = ctx
    if t in m:
        return m[t]
    if not t.dep:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if not (t.dep & keys):
        # may still depend through a loop record
        hit = False
        for x in t.dep:
            if isinstance(x, str) and _loop_hit(x, ctx):
                hit = True
                break
        if not hit:
            memo[t] = t
            return t
    r = rebuild(t, lambda x: _sub(x, ctx), lambda L: _sub_loop(L, ctx))
    memo[t] = r
    return r


def _direct(L, ctx):
    """(record of L mentions a replaced term, loops its record refers to)"""
    m, keys, memo, loopmap = ctx
    k = ('direct', L)
    r = loopmap.get(k)
    if r is None:
        hit, refs, seen = False, set(), set()
        st = list(LOOPS[L].terms())
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
                continue
            if not isinstance(x, T) or not x.dep or x in seen:
                continue
            seen.add(x)
            if x in m:
                hit = True
                continue
            if x.op in ('mu', 'fin', 'exit', 'finx', 'rep', 'idx'):
                refs.add(x.a[0])
            st.extend(x.a)
        r = loopmap[k] = (hit, refs)
    return r


def _loop_hit(L, ctx):
    """does the record of loop L (or of a loop it refers to) mention a replaced term?"""
    m, keys, memo, loopmap = ctx
    k = ('hit', L)
    r = loopmap.get(k)
    if r is None:
        r = False
        if L in LOOPS and L not in keys and loop_deps(L) & keys:
            seen, st = {L}, [L]
            while st:
                x = st.pop()
                if x not in LOOPS or (x in keys and x != L):
                    continue
                h, refs = _direct(x, ctx)
                if h:
                    r = True
                    break
                for y in refs:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
        loopmap[k] = r
    return r


def recsig(L):
    """identity of the records L stands for, transitively"""
    seen, st, out = {L}, [L], []
    while st:
        x = st.pop()
        if x not in LOOPS:
            continue
        out.append((x, tuple(t.id for t in LOOPS[x].terms())))
        for t in LOOPS[x].terms():
            for y in t.dep:
                if isinstance(y, str) and y not in seen:
                    seen.add(y)
                    st.append(y)
    return tuple(sorted(out))


def _sub_loop(L, ctx):
    m, keys, memo, loopmap = ctx
    if L in keys or L not in LOOPS or not _loop_hit(L, ctx):
        return L
    if L in loopmap:
        return loopmap[L]
    sig = (L, tuple(sorted((k.id, v.id) for k, v in m.items())), recsig(L))
    if sig in _inst_cnt:
        N = _inst_cnt[sig]
        loopmap[L] = N
        if N in LOOPS:
            return N
    else:
        N = L.split('~')[0] + '~%d' % (len(_inst_cnt) + 1)
        _inst_cnt[sig] = N
        loopmap[L] = N
    o = LOOPS[L]
    n = Loop(N)
    LOOPS[N] = n
    n.fn, n.sp, n.parent, n.simple, n.desc = o.fn, o.sp, o.parent, o.simple, o.desc
    f = lambda x: _sub(x, ctx)
    n.count = f(o.count) if o.count is not None else None
    n.dom = f(o.dom) if o.dom is not None else None
    n.guard = f(o.guard) if o.guard is not None else None
    n.cells = {k: (f(i), f(x)) for k, (i, x) in o.cells.items()}
    n.exits = {k: f(c) for k, c in o.exits.items()}
    return N


def rebuild(t, f, fl):
    """t with arguments mapped by f and loop ids by fl, through the normalising constructors"""
    op, a = t.op, t.a
    if op == 'ite':
        at_ = f(a[0])
        c = at_ if (at_.op == 'ite' or at_ is TRUE or at_ is FALSE) else atom(at_)
        return gam(c, f(a[1]), f(a[2]))
    if op == 'lin':
        r = int_(a[0])
        for k, v in a[1]:
            r = add(r, mul(int_(v), f(k)))
        return r
    if op == 'eq0':
        return eq0(f(a[0]))
    if op == 'ge0':
        return ge0(f(a[0]))
    if op == 'is':
        return is_var(f(a[0]), a[1])
    if op == 'fld':
        return fld(f(a[0]), a[2], a[1])
    if op == 'at':
        return at(f(a[0]), f(a[1]))
    if op == 'len':
        return length(f(a[0]))
    if op == 'mul':
        return mul(f(a[0]), f(a[1]))
    if op == 'drop':
        return drop(f(a[0]), f(a[1]))
    if op in ('eq', 'streq'):
        return eq(f(a[0]), f(a[1]))
    if op == 'has':
        x, k = f(a[0]), f(a[1])
        if x.op == 'map':
            return map_has(x, k)
        return set_has(x, k)
    if op == 'mget':
        return map_get(f(a[0]), f(a[1]))
    if op == 'seq':
        return seq([f(s) for s in a])
    if op in ('map', 'set'):
        return mk_cont(op, f(a[0]))
    if op == 'arr':
        b, q = f(a[0]), f(a[1])
        if b.op == 'arr':
            return mk_arr(b.a[0], cat(b.a[1], q))
        return mk_arr(b, q)
    if op == 'gam':
        return mk('gam', f(a[0]))
    if op == 'spl':
        return mk('spl', f(a[0]))
    if op == 'hole':
        return hole_seg(f(a[0]), a[1])
    if op in IDEMP:
        return unary(op, f(a[0]))
    if op in ('mu', 'fin', 'exit', 'finx', 'rep', 'idx'):
        L = fl(a[0])
        return mk(op, L, *[_mapa(x, f) for x in a[1:]])
    if op == 'ref':
        return mk('ref', a[0], tuple(_mapa(x, f) for x in a[1]))
    return mk(op, *[_mapa(x, f) for x in a])


def _mapa(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapa(y, f) for y in x)
    return x


def hole_seg(v, kind):
    """segment that prints v (kind: '' display, '?' debug, else format spec)"""
    if kind == '':
        if v.op == 'int':
            return mk('lit', str(v.a[0]))
        if v.op == 'chr':
            return mk('lit', chr(v.a[0]))
        if v.op == 'seq' or v.op in ('param:str',):
            return mk('spl', v)
    if kind == '?' and v.op == 'int':
        return mk('lit', str(v.a[0]))
    return mk('hole', v, kind)


# ---------------------------------------------------------------- printing

def show(t, depth=14):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '…'
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.a
    if op == 'int':
        return str(a[0])
    if op == 'lin':
        r = []
        for k, v in a[1]:
            r.append(('+' if v > 0 else '-') + ('' if abs(v) == 1 else str(abs(v)) + '*') + s(k))
        x = ''.join(r).lstrip('+')
        return '(' + x + (('%+d' % a[0]) if a[0] else '') + ')'
    if op == 'true':
        return 'T'
    if op == 'false':
        return 'F'
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + s(a[0])
        return 'ite(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'eq0':
        return s(a[0]) + '==0'
    if op == 'ge0':
        return s(a[0]) + '>=0'
    if op == 'is':
        return '%s is %s' % (s(a[0]), a[1])
    if op == 'fld':
        return s(a[0]) + '.' + (a[1] + ':' if a[1] else '') + a[2]
    if op == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'len':
        return 'len(%s)' % s(a[0])
    if op == 'rec':
        return (a[0].split('::')[-1] if a[0] != '()' else '') + (':' + a[1] if a[1] else '') + '(' + ', '.join(
            (n + '=' if not n.isdigit() else '') + s(v) for n, v in zip(a[2], a[3])) + ')'
    if op == 'seq':
        return '[' + ' '.join(s(x) for x in a) + ']'
    if op == 'one':
        return s(a[0])
    if op == 'lit':
        return repr(a[0])
    if op == 'hole':
        return '{' + s(a[0]) + (':' + a[1] if a[1] else '') + '}'
    if op == 'spl':
        return '..' + s(a[0])
    if op == 'rep':
        return 'REP<%s>%s' % (a[0], s(a[1]))
    if op == 'gam':
        return 'GAM' + s(a[0])
    if op in ('mu', 'idx', 'fin'):
        return '%s<%s>' % (op, ','.join(show(x) for x in a))
    if op == 'param':
        return str(a[0])
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))


def contains(t, pred):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        st.extend(x.a)
    return False
