"""Meaning of the standard-library (and dependency) calls used by the analysed crates, as
term constructors.  Anything not listed becomes an opaque application (recorded)."""
import re
import terms as TM
from terms import *
from engine import strip_generics, strip_ref, Diverge

TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


class C:
    """one call"""
    __slots__ = ('E', 'f', 'args', 'site', 'dty', 'atys', 'path', 'name', 'gargs')

    def __init__(self, E, f, args, site, dty, atys):
        self.E, self.f, self.args, self.site, self.dty, self.atys = E, f, args, site, dty, atys
        self.path = strip_generics(f['path'])
        self.name = f.get('name', '')
        self.gargs = f.get('args', [])

    def D(self, i=0):
        return self.E.deref(self.args[i])

    def w(self, v, i=0):
        self.E.write_ref(self.args[i], v)

    def uid(self):
        fn, fid, b = self.E.cur
        return '%s.%s.%s' % (fid, b, self.site)


OWNERS = [
    ('std::vec::Vec', 'Vec'), ('std::collections::VecDeque', 'Vec'), ('core::slice', 'Vec'), ('std::slice', 'Vec'),
    ('std::collections::BTreeMap', 'Map'), ('std::collections::HashMap', 'Map'), ('std::collections::hash_map::HashMap', 'Map'),
    ('std::collections::BTreeSet', 'Set'), ('std::collections::HashSet', 'Set'), ('std::collections::hash_set::HashSet', 'Set'),
    ('std::string::String', 'Str'), ('core::str', 'Str'), ('std::str', 'Str'),
    ('std::option::Option', 'Option'), ('std::result::Result', 'Result'),
    ('std::iter', 'Iter'), ('itertools::Itertools', 'Iter'), ('std::collections::btree_map', 'MapE'),
    ('std::collections::hash_map', 'MapE'), ('std::array', 'Vec'), ('core::array', 'Vec'),
    ('std::boxed::Box', 'Box'), ('core::num', 'Num'), ('std::num', 'Num'), ('std::cmp', 'Cmp'), ('std::mem', 'Mem'),
    ('std::fs', 'fs'), ('std::io', 'io'), ('std::ops', 'ops'), ('std::convert', 'conv'), ('std::fmt', 'fmt'),
    ('core::fmt', 'fmt'), ('core::bool', 'Bool'), ('std::bool', 'Bool'), ('std::borrow', 'conv'), ('std::char', 'Char'),
    ('core::char', 'Char'), ('std::rc::Rc', 'Box'), ('std::sync::Arc', 'Box'),
]


def owner(path):
    for p, o in OWNERS:
        if path.startswith(p):
            return o
    return ''


def call(E, f, args, site, dty, atys):
    c = C(E, f, args, site, dty, atys)
    o = owner(c.path)
    # trait methods: choose by the implementing type where the meaning differs
    if o == 'conv' or o == 'ops' or o == 'Cmp' or o == 'Iter':
        pass
    for k in (c.path, o + '::' + c.name, '*::' + c.name if not o or o in ('conv', 'ops', 'Cmp') else None):
        if k and k in TABLE:
            r = TABLE[k](c)
            if r is not None:
                return r
    return opaque(c)


def opaque(c, note=True):
    E = c.E
    if note:
        E.unmodelled.setdefault((c.path, E.cur[0].path), TM.CUR['sp'])
    if c.f.get('never'):
        E.panic('never:' + c.path, TRUE)
        raise Diverge()
    vals = [E.deref(a) if not is_fnval(a) else a for a in c.args]
    v = mk('app', c.path, *vals)
    for i, a in enumerate(c.args):
        if a.op == 'ref' and i < len(c.atys) and c.atys[i].startswith('&') and 'mut ' in c.atys[i][:12]:
            E.write_ref(a, mk('hv', c.path, str(i), *vals))
    if c.dty == 'bool':
        v = atom(v)
    return v


def is_fnval(a):
    return a.op == 'fnref' or (a.op == 'rec' and a.a[0] == 'closure')


# ------------------------------------------------------------------ identity-like
def _ident(c):
    if c.name in ('iter', 'into_iter'):
        return ordered(c, c.D())
    return c.D()


SORTED = set()


def ordered(c, v):
    """note that v comes out of an ordered set, so that sorting it changes nothing"""
    ty = c.gargs[0] if c.gargs and 'BTreeSet' in c.gargs[0] else (c.atys[0] if c.atys else '')
    if strip_generics(strip_ref(ty)).endswith('BTreeSet'):
        SORTED.add(v)
    return v


for n in ('conv::as_ref', 'conv::borrow', 'ops::deref', 'Vec::as_slice', 'Vec::to_vec', 'Vec::into_boxed_slice', 'Str::as_str',
          'Str::as_bytes', 'Str::into_bytes', 'Str::to_owned', 'Str::into_boxed_str', 'conv::to_owned', 'std::clone::Clone::clone',
          'std::hint::must_use', 'Iter::into_iter', 'Iter::iter', 'Vec::iter', 'Map::iter', 'Set::iter', 'Iter::cloned', 'Iter::copied',
          'Iter::by_ref', 'Iter::peekable', 'Iter::fuse', 'Option::as_deref', 'Option::as_ref', 'Option::cloned', 'Option::copied',
          'Result::as_ref', 'Result::cloned', 'Result::copied', 'Str::bytes', 'Box::new', 'Set::range_all', 'Str::into_string',
          'Option::into_iter_', 'Str::to_string', 'Vec::into_iter', 'Map::into_iter', 'Set::into_iter', 'std::slice::into_vec', 'Vec::into_vec',
          'std::borrow::Cow::into_owned', 'conv::into_owned', 'Box::as_ref', 'io::by_ref', 'std::path::Path::new', 'std::path::Path::to_path_buf',
          'std::path::PathBuf::as_path', 'Str::trim_unused', 'Str::as_ref', 'Vec::as_ref', 'Vec::concat_one', 'std::iter::Iterator::into_iter',
          'Result::as_deref'):
    TABLE[n] = _ident


@model('ops::deref_mut', 'Vec::as_mut_slice', 'conv::as_mut', 'conv::borrow_mut', 'Option::as_deref_mut_', 'Str::as_mut_str', 'Box::as_mut')
def _identmut(c):
    return c.args[0]


@model('*::drop', 'std::mem::drop', 'Mem::drop', 'Mem::forget')
def _drop(c):
    return UNIT


@model('conv::from', 'conv::into')
def _from(c):
    if any('js_sys::' in str(g) for g in c.gargs):
        return js_value(c, c.args[0])
    x = c.D()
    to = c.gargs[0] if c.name == 'from' else (c.gargs[1] if len(c.gargs) > 1 else c.dty)
    frm = c.gargs[1] if c.name == 'from' and len(c.gargs) > 1 else (c.gargs[0] if c.gargs else '')
    b = strip_generics(strip_ref(to))
    if b.endswith(('BTreeMap', 'HashMap')):
        return mk_cont('map', as_iter(c.E, x))
    if b.endswith(('BTreeSet', 'HashSet')):
        return mk_cont('set', as_iter(c.E, x))
    if b.endswith(('VecDeque', 'Vec', 'String', 'PathBuf', 'str', 'OsString')) or '[' in b[:1]:
        return x
    if b in c.E.WIDTH:
        return c.E.cast(x, strip_ref(frm), b) if strip_ref(frm) in c.E.WIDTH or frm == 'bool' else None
    if to == frm:
        return x
    if 'Box<dyn' in to:
        return x
    return mk('app', 'From::from', b, x)


@model('conv::try_from', 'conv::try_into')
def _tryfrom(c):
    return mk('app', 'try_from', c.dty, c.D())


# ------------------------------------------------------------------ iterators as sequences
def as_iter(E, v):
    def f(v):
        if v.op == 'rec' and v.a[0] in ('Range', 'RangeInclusive'):
            hi = fld(v, 'end')
            return mk('range', fld(v, 'start'), add(hi, int_(1)) if v.a[0] == 'RangeInclusive' else hi)
        if v.op == 'rec' and v.a[0] == 'RangeFrom':
            return mk('rangefrom', fld(v, 'start'))
        if v.op == 'rec' and v.a[0] == 'Option':
            return one(fld(v, '0', 'Some')) if v.a[1] == 'Some' else EMPTY
        return v
    return lift(f, v)


@model('ops::new', 'std::ops::RangeInclusive::new')
def _ri(c):
    return rec('RangeInclusive', '', ['start', 'end'], [c.D(0), c.D(1)])


@model('Iter::into_iter', 'Vec::into_iter', 'Iter::iter', 'Option::into_iter', 'Option::iter')
def _into_iter(c):
    a = c.args[0]
    ty = c.gargs[0] if c.gargs else (c.atys[0] if c.atys else '')
    if a.op == 'ref' and ty.startswith('&') and 'mut' in ty[:12]:
        t = strip_generics(strip_ref(ty))
        cur = c.E.deref(a)
        if t.endswith(('BTreeMap', 'HashMap')):
            return mk('mapmuts', cur, a)
        if 'Iter' in t or 'iter' in t:
            return a
        return mk('muts', cur, a)
    v = ordered(c, as_iter(c.E, c.E.deref(a)))
    if ty and strip_generics(strip_ref(ty)).startswith('std::option::Option') and v.op not in ('seq', 'ite'):
        return gam(is_var(v, 'Some'), one(fld(v, '0', 'Some')), EMPTY)
    return v


@model('Vec::iter_mut', 'Vec::each_mut')
def _iter_mut(c):
    return mk('muts', c.D(), c.args[0])


@model('Map::iter_mut')
def _miter_mut(c):
    return mk('mapmuts', c.D(), c.args[0])


@model('Map::values_mut')
def _values_mut(c):
    return mk('mvmuts', c.D(), c.args[0])


@model('Map::keys', 'Map::into_keys')
def _keys(c):
    return mapproj(c.D(), '0')


@model('Map::values', 'Map::into_values')
def _values(c):
    return mapproj(c.D(), '1')


def mapproj(m, i):
    return lift(lambda x: mk('keys' if i == '0' else 'values', x), m)


@model('Iter::next', 'Iter::next_back')
def _next(c):
    r = c.args[0]
    back = c.name == 'next_back'
    v = as_iter(c.E, c.E.deref(r))
    n = length(v)
    ne = ge0(add(n, int_(-1)))
    if r.op == 'ref' and r.a[1] == () and c.E.st.get(r.a[0]) is not None and c.E.st[r.a[0]].op == 'ref' and False:
        pass
    if back:
        x = at(v, add(n, int_(-1)))
        rest = take(v, add(n, int_(-1)))
    else:
        x = at(v, int_(0))
        rest = drop(v, int_(1))
    target = r
    for _ in range(4):
        if target.op == 'ref':
            cur = c.E.st.get(target.a[0])
            for s in target.a[1]:
                cur = c.E.step(cur, s)
            if cur is not None and cur.op == 'ref':
                target = cur
                continue
        break
    if target.op == 'ref':
        c.E.write_ref(target, rest if ne is TRUE else (v if ne is FALSE else drop1(v, rest, ne)))
    return gam(ne, some(x), none()) if ne is not FALSE else none()


def drop1(v, rest, ne):
    return rest


@model('Iter::peek')
def _peek(c):
    v = c.D()
    return gam(ge0(add(length(v), int_(-1))), some(at(v, int_(0))), none())


@model('Iter::enumerate')
def _enum(c):
    v = as_iter(c.E, c.D())
    if v.op == 'seq' and all(s.op == 'one' for s in v.a):
        return ones([tup(int_(i), s.a[0]) for i, s in enumerate(v.a)])
    # one element per iteration: the position is the iteration number
    if v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 'rep':
        L, b = v.a[0].a
        if b.op == 'seq' and len(b.a) == 1 and b.a[0].op == 'one':
            return mk('seq', mk('rep', L, one(tup(mk('idx', L), b.a[0].a[0]))))
    return mk('enum', v)


@model('Iter::rev')
def _rev(c):
    v = as_iter(c.E, c.D())
    if v.op == 'seq' and all(s.op == 'one' for s in v.a):
        return mk('seq', *v.a[::-1])
    return mk('rev', v)


@model('Iter::zip')
def _zip(c):
    a, b = as_iter(c.E, c.D(0)), as_iter(c.E, c.D(1))
    if a.op == 'rangefrom' and a.a[0] is int_(0):
        return mk('enum', b)
    if b.op == 'rangefrom':
        return swapped(c, a, b)
    return mk('zip', a, b)


def swapped(c, a, b):
    return mapseq(c.E, mk('enum', a), lambda x: tup(fld(x, '1'), add(fld(x, '0'), b.a[0])), c.uid() + 'z')


@model('Iter::chain')
def _chain(c):
    return cat(as_iter(c.E, c.D(0)), as_iter(c.E, c.D(1)))


@model('Iter::skip')
def _skip(c):
    v = as_iter(c.E, c.D(0))
    return drop(v, c.args[1])


@model('Iter::take')
def _take(c):
    v, n = as_iter(c.E, c.D(0)), c.args[1]
    if v.op == 'repeatinf':
        return repeated(v.a[0], n)
    ss = segs(v) if v.op == 'seq' else ()
    if len(ss) > 1 and ss[-1].op == 'spl' and ss[-1].a[0].op == 'repeatinf':
        # a list, and then one value over and over again
        h = seq(ss[:-1])
        more = sub(n, length(h))
        return ite(ge0(more), cat(h, repeated(ss[-1].a[0].a[0], more)), take(h, n))
    return take(v, n)


@model('Iter::once', 'std::iter::once')
def _once(c):
    return one(c.args[0])


@model('std::iter::empty', 'Iter::empty')
def _emptyit(c):
    return EMPTY


@model('std::iter::repeat')
def _repeatit(c):
    return mk('repeatinf', c.args[0])


def iter_mu_pure(E, fn):
    """run fn and say whether it changed anything"""
    before = dict(E.st)
    v = fn()
    return v, all(E.st.get(k) is x for k, x in before.items())


def mapseq(E, s, fn, uid, flat=False):
    """sequence of fn(x) (or of fn(x)'s elements) for x in s; effects are kept"""
    s = as_iter(E, s)
    out = EMPTY
    if s.op == 'take' and any(contains(g, lambda x: x.op == 'ref') for g in segs(s.a[0]) if g.op == 'rep'):
        # the first few of a filtered list of mutable references: count them
        cell = ('CNT', uid)
        E.st[cell] = int_(0)

        def counted(x):
            def body():
                E.st[cell] = add(E.st[cell], int_(1))
                r = fn(x)
                return r if flat else one(r)
            return E.cond_eval(lt(E.st[cell], E.deref(s.a[1])), body, lambda: EMPTY)
        r = mapseq(E, s.a[0], counted, uid, True)
        E.st.pop(cell)
        return r
    for j, g in enumerate(segs(s)):
        if g.op == 'one':
            E.ctx.append((uid, j))
            try:
                r = fn(g.a[0])
            finally:
                E.ctx.pop()
            out = cat(out, r if flat else one(r))
        elif g.op == 'gam':
            res = None
            for k, (c, l) in enumerate(leaves(g.a[0])):
                def leaf(l, j=j, k=k):
                    return mapseq(E, l, fn, '%s/%d.%d' % (uid, j, k), flat)
                v = E.cond_eval(c, lambda: leaf(l), lambda: EMPTY)
                res = v if res is None else gam(c, v, res)
            out = cat(out, res if res is not None else EMPTY)
        elif g.op == 'rep' and LOOPS.get(g.a[0]) is not None and not E.has_mu(g.a[1], g.a[0]):
            L0, body = g.a
            st = dict(E.st)
            r = mapseq(E, body, fn, '%s/%d' % (uid, j), flat)
            if all(E.st.get(k) is x for k, x in st.items()):
                out = cat(out, mk('seq', mk('rep', L0, r)))
                continue
            E.st = type(E.st)(st)
            out = cat(out, seqloop(E, g, fn, '%s/%d' % (uid, j), flat))
        elif g.op == 'lit':
            for k, ch in enumerate(g.a[0]):
                E.ctx.append((uid, j, k))
                try:
                    r = fn(int_(ord(ch)))
                finally:
                    E.ctx.pop()
                out = cat(out, r if flat else one(r))
        else:
            out = cat(out, seqloop(E, g, fn, '%s/%d' % (uid, j), flat))
    return out


def seqloop(E, g, fn, uid, flat):
    """general loop over one segment"""
    cur = E.cur
    L = E.loopid(('syn', uid), (cur[0].name or 'c').split('::')[-1])
    idx = mk('idx', L)
    guard = TRUE
    dom = g.a[0] if g.op == 'spl' else mk('seq', g)
    if g.op == 'rep':
        L0, body = g.a
        l0 = LOOPS[L0]
        ls = leaves(body)
        if l0.count is not None and all(l is EMPTY or (l.op == 'seq' and len(l.a) == 1 and l.a[0].op == 'one') for _, l in ls):
            e, gd = None, FALSE
            for c, l in ls:
                if l is not EMPTY:
                    gd = bor(gd, c)
                    e = l.a[0].a[0] if e is None else gam(c, l.a[0].a[0], e)
            m = {mk('idx', L0): idx}
            LOOPS.setdefault(L, TM.Loop(L))
            x, guard, count, dom = subst(e, m), subst(gd, m), l0.count, l0.dom
        else:
            x, count = mk('at', dom, idx), length(dom)
    else:
        x, count = at(dom, idx), length(dom)
    outc = ('OUT', L)
    st0 = E.st.copy()
    st0[outc] = EMPTY
    pc, know = E.pc, E.know

    def ev(st):
        E.st, E.pc, E.cur = st, TRUE, cur
        E.know = band(know, pc)
        E.loopstack.append(L)

        def body():
            r = fn(x)
            E.st[outc] = cat(E.st[outc], r if flat else one(r))
            return UNIT
        try:
            E.cond_eval(guard, body, lambda: UNIT)
            return [('back', None, TRUE, E.st)]
        except Diverge:
            return []
        finally:
            E.loopstack.pop()
            E.pc, E.know, E.cur = pc, know, cur
    res = E.loop_core(L, st0, lambda c: True, [outc], ev, cur[0], TM.CUR['sp'], natural=count)
    nat = [s for k, t, c, s in res if t == 'nat']
    LOOPS[L].dom = dom
    LOOPS[L].guard = guard if guard is not TRUE else None
    if not nat:
        raise Diverge()
    E.st = nat[0]
    out = E.st.pop(outc)
    return out


@model('Iter::map')
def _map(c):
    f = c.args[1]
    return mapseq(c.E, c.D(), lambda x: c.E.apply(f, [x], c.site + 'm'), c.uid())


@model('Iter::inspect')
def _inspect(c):
    f = c.args[1]

    def g(x):
        c.E.apply(f, [x], c.site + 'm')
        return x
    return mapseq(c.E, c.D(), g, c.uid())


@model('Iter::filter')
def _filter(c):
    f = c.args[1]
    E = c.E

    def g(x):
        cond = E.tobool(E.apply(f, [x], c.site + 'm'))
        return gam(cond, one(x), EMPTY)
    return mapseq(E, c.D(), g, c.uid(), True)


@model('Iter::filter_map')
def _filter_map(c):
    f = c.args[1]
    E = c.E

    def g(x):
        r = E.apply(f, [x], c.site + 'm')
        return gam(is_var(r, 'Some'), one(fld(r, '0', 'Some')), EMPTY)
    return mapseq(E, c.D(), g, c.uid(), True)


@model('Iter::flat_map')
def _flat_map(c):
    f = c.args[1]
    return mapseq(c.E, c.D(), lambda x: as_iter(c.E, c.E.deref(c.E.apply(f, [x], c.site + 'm'))), c.uid(), True)


@model('Iter::flatten')
def _flatten(c):
    def g(x):
        x = c.E.deref(x)
        if 'Option' in ''.join(c.gargs[:1]) or x.op == 'rec' and x.a[0] == 'Option':
            return gam(is_var(x, 'Some'), one(fld(x, '0', 'Some')), EMPTY)
        return as_iter(c.E, x)
    return mapseq(c.E, c.D(), g, c.uid(), True)


@model('Iter::for_each')
def _for_each(c):
    f = c.args[1]

    def g(x):
        c.E.apply(f, [x], c.site + 'm')
        return EMPTY
    mapseq(c.E, c.D(), g, c.uid(), True)
    return UNIT


def tryloop(c, s, init, step):
    """for x in s: step(acc, x) gives (goes on, next acc, result when it stops); -> (stopped, result, acc)"""
    E, uid = c.E, c.uid() + 't'
    cur = E.cur
    L = E.loopid(('syn', uid), (cur[0].name or 'c').split('::')[-1])
    idx, guard = mk('idx', L), TRUE
    q = segs(s)
    if len(q) == 1 and q[0].op == 'rep' and LOOPS.get(q[0].a[0]) is not None and LOOPS[q[0].a[0]].count is not None and \
            all(l is EMPTY or l.op == 'seq' and len(l.a) == 1 and l.a[0].op == 'one' for _, l in leaves(q[0].a[1])) and not E.has_mu(q[0].a[1], q[0].a[0]):
        L0, body = q[0].a
        e, gd = None, FALSE
        for k, l in leaves(body):
            if l is not EMPTY:
                gd = bor(gd, k)
                e = l.a[0].a[0] if e is None else gam(k, l.a[0].a[0], e)
        m = {mk('idx', L0): idx}
        LOOPS.setdefault(L, TM.Loop(L))
        x, guard, count, dom = subst(e, m), subst(gd, m), LOOPS[L0].count, LOOPS[L0].dom
    else:
        x, count, dom = at(s, idx), length(s), s
    acc, res = ('ACC', L), ('RES', L)
    st0 = E.st.copy()
    st0[acc], st0[res] = init, UNIT
    pc, know = E.pc, E.know

    def ev(st):
        E.st, E.pc, E.cur = st, TRUE, cur
        E.know = band(know, pc)
        E.loopstack.append(L)

        def body():
            goes, nxt, out = step(E.st[acc], x)
            E.st[acc], E.st[res] = gam(goes, nxt, E.st[acc]), gam(goes, E.st[res], out)
            return goes
        try:
            goes = E.cond_eval(guard, body, lambda: TRUE)
            goes = goes if TM.is_bool(goes) or goes.op == 'ite' else atom(goes)
            if goes is TRUE:
                return [('back', None, TRUE, E.st)]
            a, b = E.st, E.st.copy()
            a = engine_prune(E, a, goes)
            b = engine_prune(E, b, bnot(goes))
            return [('back', None, goes, a), ('exit', 'stop', bnot(goes), b)] if goes is not FALSE else [('exit', 'stop', TRUE, b)]
        except Diverge:
            return []
        finally:
            E.loopstack.pop()
            E.pc, E.know, E.cur = pc, know, cur
    out = E.loop_core(L, st0, lambda c: True, [acc], ev, cur[0], TM.CUR['sp'], natural=count)
    if L in LOOPS and LOOPS[L].count is not None:
        LOOPS[L].dom = dom
        LOOPS[L].guard = guard if guard is not TRUE else None
    stopped = FALSE
    for k, t, cond, st in out:
        if t != 'nat':
            stopped = bor(stopped, cond)
    if not out:
        raise Diverge()
    _, E.st = E.merge([(cond, st) for k, t, cond, st in out])
    return stopped, E.st.pop(res), E.st.pop(acc)


def engine_prune(E, st, cond):
    r = type(st)()
    for k, v in st.items():
        r[k] = restrict(v, cond) if v.op == 'ite' else v
    return r


@model('Iter::try_for_each', 'Iter::try_fold')
def _try_fold(c):
    fold = c.name == 'try_fold'
    f = c.args[2 if fold else 1]
    ty = strip_generics(c.dty)
    yes, no = ('Ok', 'Err') if ty.endswith('Result') else ('Some', 'None') if ty.endswith('Option') else (None, None)
    if yes is None:
        return None

    def step(a, x):
        r = c.E.apply(f, [a, x] if fold else [x], c.site + 'm')
        stop = err(fld(r, '0', 'Err')) if yes == 'Ok' else none()
        return is_var(r, yes), fld(r, '0', yes) if fold else UNIT, stop
    stopped, r, a = tryloop(c, as_iter(c.E, c.D()), c.args[1] if fold else UNIT, step)
    good = ok(a) if yes == 'Ok' else some(a)
    return gam(stopped, r, good)


@model('Iter::fold')
def _fold(c):
    f = c.args[2]
    E = c.E
    cell = ('ACC', c.uid())
    E.st[cell] = c.args[1]

    def g(x):
        E.st[cell] = E.apply(f, [E.st[cell], x], c.site + 'm')
        return EMPTY
    mapseq(E, c.D(), g, c.uid(), True)
    return E.st.pop(cell)


def pred_seq(c, i=1):
    f = c.args[i]
    return mapseq(c.E, c.D(), lambda x: boolval(c.E.tobool(c.E.apply(f, [x], c.site + 'm'))), c.uid())


def boolval(b):
    return b


@model('Iter::any')
def _any(c):
    s = pred_seq(c)
    if s.op == 'seq' and all(g.op == 'one' for g in s.a):
        r = FALSE
        for g in s.a:
            r = bor(r, g.a[0])
        return r
    return atom(mk('any', s))


@model('Iter::all')
def _all(c):
    f = c.args[1]
    s = mapseq(c.E, c.D(), lambda x: bnot(c.E.tobool(c.E.apply(f, [x], c.site + 'm'))), c.uid())
    if s.op == 'seq' and all(g.op == 'one' for g in s.a):
        r = FALSE
        for g in s.a:
            r = bor(r, g.a[0])
        return bnot(r)
    return bnot(atom(mk('any', s)))


def first_of(s):
    """Option of the first element"""
    return gam(bnot(eq0(length(s))), some(at(s, int_(0))), none())


@model('Iter::find')
def _find(c):
    return first_of(_filter(c))


@model('Iter::rfind')
def _rfind(c):
    return last_of(_filter(c))


@model('Iter::find_map')
def _find_map(c):
    return first_of(_filter_map(c))


def last_of(s):
    return gam(bnot(eq0(length(s))), some(at(s, add(length(s), int_(-1)))), none())


@model('Iter::partition')
def _partition(c):
    f = c.args[1]
    E = c.E
    s = as_iter(E, c.D())
    ty = c.gargs[1] if len(c.gargs) > 1 else ''
    yes = mapseq(E, s, lambda x: gam(E.tobool(E.apply(f, [x], c.site + 'm')), one(x), EMPTY), c.uid() + 'y', True)
    no = mapseq(E, s, lambda x: gam(E.tobool(E.apply(f, [x], c.site + 'n')), EMPTY, one(x)), c.uid() + 'n', True)
    return tup(collect(c, yes, ty), collect(c, no, ty))


@model('Iter::unzip')
def _unzip(c):
    s = as_iter(c.E, c.D())
    g = c.gargs[-2:] if len(c.gargs) >= 4 else ('', '')
    return tup(*[collect(c, mapseq(c.E, s, lambda x: fld(x, i), c.uid() + 'u' + i), t) for i, t in zip('01', g)])


@model('Iter::position')
def _position(c):
    f = c.args[1]
    E = c.E
    c2 = C(E, c.f, [c.D()], c.site, '', [])
    en = _enum(c2)

    def g(x):
        cond = E.tobool(E.apply(f, [fld(x, '1')], c.site + 'm'))
        return gam(cond, one(fld(x, '0')), EMPTY)
    return first_of(mapseq(E, en, g, c.uid(), True))


@model('Iter::rposition')
def _rposition(c):
    r = _position(c)
    s = next((t for _, t in TM.leaves(r) if t.op == 'rec' and t.a[1] == 'Some'), None)
    return last_of(s.a[3][0].a[0]) if s is not None and s.a[3][0].op == 'at' else None


@model('Iter::count', 'Iter::len')
def _count(c):
    return length(as_iter(c.E, c.D()))


@model('Iter::max', 'Iter::min', 'Iter::max_by_key_', 'Iter::last_')
def _max(c):
    s = as_iter(c.E, c.D())
    return gam(bnot(eq0(length(s))), some(mk(c.name, s)), none())


@model('Iter::last', 'Vec::last')
def _last(c):
    s = as_iter(c.E, c.D())
    return gam(bnot(eq0(length(s))), some(at(s, add(length(s), int_(-1)))), none())


@model('Iter::sum')
def _sum(c):
    s = as_iter(c.E, c.D())
    if s.op == 'seq' and all(g.op == 'one' for g in s.a):
        r = int_(0)
        for g in s.a:
            r = add(r, g.a[0])
        return r
    return mk('sum', s)


@model('Iter::nth')
def _nth(c):
    s = as_iter(c.E, c.D())
    i = c.args[1]
    return gam(lt(i, length(s)), some(at(s, i)), none())


@model('Iter::take_while', 'Iter::skip_while', 'Iter::map_while')
def _take_while(c):
    s = as_iter(c.E, c.D())
    f = c.args[1]
    p = mapseq(c.E, s, lambda x: c.E.apply(f, [x], c.site + 'm'), c.uid())
    return mk(c.name, s, p)


@model('Iter::step_by', 'Vec::chunks', 'Vec::windows')
def _win(c):
    return mk(c.name, as_iter(c.E, c.D()), c.args[1])


@model('Iter::collect', 'Iter::collect_vec')
def _collect(c):
    s = as_iter(c.E, c.D())
    ty = c.gargs[1] if c.name == 'collect' and len(c.gargs) > 1 else c.dty
    return collect(c, s, ty)


def collect(c, s, ty):
    b = strip_generics(ty)
    if b.endswith('String'):
        return flat_text(s)
    if b == 'js_sys::Array':
        return js_array(c, s)
    if b.endswith(('BTreeMap', 'HashMap')):
        return mk_cont('map', s)
    if b.endswith(('BTreeSet', 'HashSet')):
        return mk_cont('set', s)
    if b.endswith('Result'):
        inner = split_args(ty)[0] if '<' in ty else ''
        oks = mapseq(c.E, s, lambda x: fld(x, '0', 'Ok'), c.uid() + 'ok')
        bad = mapseq(c.E, s, lambda x: gam(is_var(x, 'Ok'), EMPTY, one(fld(x, '0', 'Err'))), c.uid() + 'bad', True)
        return gam(eq0(length(bad)), ok(collect(c, oks, inner)), err(at(bad, int_(0))))
    if b.endswith('Option'):
        inner = split_args(ty)[0] if '<' in ty else ''
        oks = mapseq(c.E, s, lambda x: fld(x, '0', 'Some'), c.uid() + 'ok')
        bad = mapseq(c.E, s, lambda x: gam(is_var(x, 'Some'), EMPTY, one(UNIT)), c.uid() + 'bad', True)
        return gam(eq0(length(bad)), some(collect(c, oks, inner)), none())
    return s


def split_args(ty):
    i = ty.index('<')
    out, d, cur = [], 0, ''
    for ch in ty[i + 1:-1]:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def flat_text(s):
    """concatenation of the sequences in s"""
    out = []
    for g in segs(s):
        if g.op == 'one':
            x = g.a[0]
            out += list(segs(x)) if x.op != 'chr' else [mk('lit', chr(x.a[0]))]
        elif g.op == 'rep':
            out.append(mk('rep', g.a[0], flat_text(g.a[1])))
        elif g.op == 'gam':
            t = lift(flat_text, g.a[0])
            out += list(segs(t))
        elif g.op == 'spl':
            out.append(mk('cat', g.a[0]))
        else:
            out.append(g)
    return seq(out)


@model('Vec::concat', 'Iter::concat')
def _concat(c):
    return flat_text(c.D())


@model('Vec::join', 'Iter::join')
def _join(c):
    s, sep = as_iter(c.E, c.D()), c.D(1)
    if c.f['path'].startswith('itertools'):
        s = mapseq(c.E, s, lambda x: to_text(c, x, ''), c.uid())
    return join(s, sep)


def join(s, sep):
    ss = segs(s)
    if sep is EMPTY:
        return flat_text(s)
    if all(g.op == 'one' for g in ss):
        out = []
        for i, g in enumerate(ss):
            if i:
                out += list(segs(sep))
            out += list(segs(g.a[0]))
        return seq(out)
    return mk('seq', mk('join', s, sep))


# ------------------------------------------------------------------ vectors
@model('Vec::new', 'Str::new', 'Vec::with_capacity', 'Str::with_capacity', 'Vec::default', 'Str::default')
def _newv(c):
    return EMPTY


@model('Map::new', 'Map::with_capacity', 'Map::default')
def _newm(c):
    return mk('map', EMPTY)


@model('Set::new', 'Set::with_capacity', 'Set::default')
def _news(c):
    return mk('set', EMPTY)


@model('std::default::Default::default')
def _default(c):
    return default_of(c.gargs[0] if c.gargs else c.dty)


def default_of(ty):
    b = strip_generics(strip_ref(ty))
    if b.endswith(('Vec', 'String', 'VecDeque')) or b in ('str',):
        return EMPTY
    if b.endswith(('BTreeMap', 'HashMap')):
        return mk('map', EMPTY)
    if b.endswith(('BTreeSet', 'HashSet')):
        return mk('set', EMPTY)
    if b == 'bool':
        return FALSE
    if b in ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize'):
        return int_(0)
    if b.endswith('Option'):
        return none()
    if b == '()':
        return UNIT
    return None


@model('Vec::reserve', 'Str::reserve', 'Vec::shrink_to_fit', 'Str::shrink_to_fit')
def _nop(c):
    return UNIT


@model('Vec::push', 'Vec::push_back')
def _push(c):
    c.w(cat(c.D(), one(c.args[1])))
    return UNIT


@model('Vec::push_front')
def _push_front(c):
    c.w(cat(one(c.args[1]), c.D()))
    return UNIT


@model('Vec::insert')
def _vinsert(c):
    i = c.args[1]
    if i.op == 'int' and i.a[0] == 0:
        c.w(cat(one(c.args[2]), c.D()))
        return UNIT
    if i is length(c.D()):
        c.w(cat(c.D(), one(c.args[2])))
        return UNIT
    c.w(mk('vinsert', c.D(), i, c.args[2]))
    return UNIT


@model('Vec::extend', 'Iter::extend', 'Vec::extend_from_slice', 'Set::extend', 'Map::extend', 'Str::extend')
def _extend(c):
    ty = c.gargs[0] if c.gargs else ''
    v, x = c.D(), as_iter(c.E, c.D(1))
    b = strip_generics(strip_ref(ty if c.name == 'extend' else (c.atys[0] if c.atys else '')))
    if v.op in ('map', 'set') or b.endswith(('BTreeSet', 'HashSet', 'BTreeMap', 'HashMap')):
        k = v.op if v.op in ('map', 'set') else ('set' if b.endswith('Set') else 'map')
        c.w(mk_cont(k, cat(cont_seq(v, k), x)))
        return UNIT
    if b.endswith('String'):
        x = flat_text(x)
    c.w(cat(v, x))
    return UNIT


@model('Vec::append', 'Set::append', 'Map::append')
def _append(c):
    r = _extend(c)
    if c.args[1].op == 'ref':
        c.w(EMPTY if c.path.startswith(('std::vec', 'std::collections::VecD')) else mk('set', EMPTY), 1)
    return r


@model('Vec::len', 'Str::len', 'Map::len', 'Set::len')
def _len(c):
    return length(c.D())


@model('Vec::is_empty', 'Str::is_empty', 'Map::is_empty', 'Set::is_empty')
def _is_empty(c):
    return eq0(length(c.D()))


@model('Vec::first', 'Vec::front', 'Set::first')
def _first(c):
    return first_of(c.D())


@model('Vec::back')
def _back(c):
    return _last(c)


@model('Set::last')
def _slast(c):
    return _last(c)


@model('Map::first_key_value')
def _mfirst(c):
    return first_of(c.D())


@model('Vec::pop_front')
def _pop_front(c):
    v = c.D()
    ne = bnot(eq0(length(v)))
    c.w(drop(v, int_(1)))
    return gam(ne, some(at(v, int_(0))), none())


@model('Vec::pop', 'Vec::pop_back')
def _pop(c):
    v = c.D()
    n = length(v)
    if v.op == 'seq' and v.a and v.a[-1].op == 'one':
        c.w(seq(v.a[:-1]))
        return some(v.a[-1].a[0])
    ne = bnot(eq0(n))
    c.w(take(v, add(n, int_(-1))))
    return gam(ne, some(at(v, add(n, int_(-1)))), none())


@model('Vec::remove')
def _vremove(c):
    v, i = c.D(), c.args[1]
    if i.op == 'int' and i.a[0] == 0:
        c.w(drop(v, int_(1)))
    else:
        c.w(mk('vremove', v, i))
    r = at(v, i)
    return some(r) if 'VecDeque' in c.path else r


@model('Vec::clear', 'Str::clear')
def _clear(c):
    c.w(EMPTY)
    return UNIT


@model('Map::clear')
def _mclear(c):
    c.w(mk('map', EMPTY))
    return UNIT


@model('Set::clear')
def _sclear(c):
    c.w(mk('set', EMPTY))
    return UNIT


@model('Vec::truncate', 'Str::truncate')
def _trunc(c):
    c.w(mk('trunc', c.D(), c.args[1]))
    return UNIT


@model('std::iter::repeat_n')
def _repeat_n(c):
    return repeated(c.args[0], c.args[1])


@model('Vec::resize')
def _resize(c):
    v, n = c.D(), c.args[1]
    more = sub(n, length(v))
    c.w(ite(ge0(more), cat(v, repeated(c.args[2], more)), take(v, n)))
    return UNIT


@model('Vec::get')
def _vget(c):
    v, i = c.D(), c.D(1)
    if i.op == 'rec' and i.a[0].startswith('Range'):
        a, b = bounds(i, v)
        return gam(band(le(a, b), le(b, length(v))), some(c.E.slice(v, a, b)), none())
    return gam(lt(i, length(v)), some(at(v, i)), none())


TABLE['Str::get'] = TABLE['Vec::get']


@model('Vec::get_mut')
def _vget_mut(c):
    v, i = c.D(), c.args[1]
    return gam(lt(i, length(v)), some(ref_ext(c.args[0], ('at', i))), none())


@model('Vec::first_mut', 'Vec::front_mut')
def _vfirst_mut(c):
    v = c.D()
    return gam(bnot(eq0(length(v))), some(ref_ext(c.args[0], ('at', int_(0)))), none())


@model('Vec::last_mut', 'Vec::back_mut')
def _vlast_mut(c):
    v = c.D()
    n = length(v)
    return gam(bnot(eq0(n)), some(ref_ext(c.args[0], ('at', add(n, int_(-1))))), none())


def bounds(r, v):
    n = r.a[0]
    if n == 'RangeFull':
        return int_(0), length(v)
    a = fld(r, 'start') if 'start' in r.a[2] else int_(0)
    if 'end' in r.a[2]:
        b = fld(r, 'end')
        if 'Inclusive' in n:
            b = add(b, int_(1))
    else:
        b = length(v)
    return a, b


@model('ops::index')
def _index(c):
    v, i = c.D(), c.D(1)
    ty = strip_generics(strip_ref(c.gargs[0])) if c.gargs else ''
    if ty.endswith('Map'):
        c.E.panic('index', bnot(map_has(v, i)))
        return map_get(v, i)
    if i.op == 'rec' and i.a[0].startswith('Range'):
        a, b = bounds(i, v)
        if a.op != 'int' or b is not length(v) or a.a[0]:
            c.E.panic('slice', bnot(band(le(a, b), le(b, length(v)))))
        return c.E.slice(v, a, b)
    if i.op == 'zst' and 'RangeFull' in i.a[0]:
        return v
    if ty.endswith('Captures'):
        return mk('app', 'capture', v, i)
    if ty.endswith('Value'):
        return mk('app', 'jsonidx', v, i)
    c.E.panic('index', bnot(lt(i, length(v))))
    return at(v, i)


@model('ops::index_mut')
def _index_mut(c):
    i = c.D(1)
    ty = strip_generics(strip_ref(c.gargs[0])) if c.gargs else ''
    if i.op == 'rec' and i.a[0].startswith('Range') and isinstance(c.args[0], T) and c.args[0].op == 'ref':
        v = c.D()
        a, b = bounds(i, v)
        if a.op != 'int' or b is not length(v) or a.a[0]:
            c.E.panic('slice', bnot(band(le(a, b), le(b, length(v)))))
        return ref_ext(c.args[0], ('sl', a, None if b is length(v) else b))
    if i.op == 'zst' and 'RangeFull' in i.a[0]:
        return c.args[0]
    if i.op == 'rec' and i.a[0].startswith('Range') or i.op == 'zst':
        return None
    c.E.panic('index', bnot(lt(i, length(c.D()))))
    return ref_ext(c.args[0], ('at', i))


@model('Vec::copy_from_slice', 'Vec::clone_from_slice')
def _copy_slice(c):
    c.w(c.D(1))
    return UNIT


@model('Vec::fill')
def _fill(c):
    c.w(repeated(c.args[1], length(c.D())))
    return UNIT


@model('Vec::contains')
def _vcontains(c):
    return set_has(c.D(), c.D(1))


@model('Set::contains')
def _scontains(c):
    return set_has(c.D(), c.D(1))


def other_key(cond, x):
    """k when cond says exactly that x differs from k, and k is independent of x"""
    if cond.op != 'ite' or cond.a[1] is not FALSE or cond.a[2] is not TRUE:
        return None
    a = cond.a[0]
    if a.op in ('eq', 'streq') and x in a.a:
        k = a.a[1] if a.a[0] is x else a.a[0]
    elif a.op == 'eq0':
        k0, parts = lin_parts(a.a[0])
        cx = dict((t, n) for t, n in parts).get(x)
        if cx not in (1, -1):
            return None
        k = add(mul(int_(-cx), a.a[0]), x)
    else:
        return None
    return None if contains(k, lambda t: t is x) else k


def retain(c, kind):
    f = c.args[1]
    v = c.D()
    tests = []

    def g(x):
        cond = c.E.tobool(c.E.apply(f, [x], c.site + 'm'))
        tests.append((cond, x))
        return gam(cond, one(x), EMPTY)
    s = mapseq(c.E, v, g, c.uid(), True)
    if kind == 'set' and len(tests) == 1:
        k = other_key(*tests[0])
        if k is not None:
            c.w(mk_cont('set', cat(cont_seq(v, 'set'), mk('seq', mk('krem', k)))))
            return UNIT
    c.w(mk_cont('set', s) if kind == 'set' else s)
    return UNIT


@model('Vec::retain')
def _retain(c):
    return retain(c, 'vec')


@model('Set::retain')
def _sretain(c):
    return retain(c, 'set')


@model('Map::retain')
def _mretain(c):
    f = c.args[1]

    def g(x):
        cond = c.E.tobool(c.E.apply(f, [fld(x, '0'), fld(x, '1')], c.site + 'm'))
        return gam(cond, one(x), EMPTY)
    c.w(mk_cont('map', mapseq(c.E, c.D(), g, c.uid(), True)))
    return UNIT


def is_sorted_unique(v):
    return v.op in ('set',) or v.op == 'range'


@model('Vec::sort', 'Vec::sort_unstable')
def _sort(c):
    c.w(sort(c.D()))
    return UNIT


def sort(v):
    if v.op in ('sorted', 'range', 'set') or v in SORTED:
        return v
    return mk('sorted', v)


@model('Iter::sorted', 'Iter::sorted_unstable')
def _sorted_it(c):
    return sort(as_iter(c.E, c.D()))


def natural_order(k, x):
    """key term orders pairs like their own order"""
    if k is x:
        return True
    if k.op == 'rec' and k.a[0] == '()' and k.a[3] and all(v is fld(x, str(i)) for i, v in enumerate(k.a[3])):
        return True
    return False


@model('Vec::sort_by_key', 'Vec::sort_unstable_by_key', 'Iter::sorted_by_key', 'Vec::sort_by_cached_key')
def _sortk(c):
    v = as_iter(c.E, c.D())
    x = mk('elem', 'srt')
    k = c.E.apply(c.args[1], [x], c.site + 'k')
    k = c.E.deref(k)
    r = sort(v) if natural_order(k, x) and (k is x or len(k.a[3]) == 2) else mk('sortedby', v, mk('lam', k))
    if c.name.startswith('sorted'):
        return r
    c.w(r)
    return UNIT


@model('Vec::sort_by', 'Vec::sort_unstable_by', 'Iter::sorted_by')
def _sortby(c):
    v = as_iter(c.E, c.D())
    x, y = mk('elem', 'sa'), mk('elem', 'sb')
    k = c.E.apply(c.args[1], [x, y], c.site + 'k')
    nat = cmp_keys(k, x, y)
    r = None
    if nat is not None:
        if nat == [x] or (len(nat) >= 2 and all(n is fld(x, str(i)) for i, n in enumerate(nat))):
            r = sort(v)
    if r is None:
        r = mk('sortedby', v, mk('lam', k))
    if c.name.startswith('sorted'):
        return r
    c.w(r)
    return UNIT


def cmp_keys(k, x, y):
    """list of key terms compared in order (ascending), or None"""
    if k.op == 'cmp':
        a, b = k.a
        if subst(a, {x: y}) is b:
            if a.op == 'rec' and a.a[0] == '()':
                return list(a.a[3])
            return [a]
        return None
    if k.op == 'then':
        p, q = cmp_keys(k.a[0], x, y), cmp_keys(k.a[1], x, y)
        return None if p is None or q is None else p + q
    return None


@model('Vec::reverse')
def _reverse(c):
    c.w(mk('rev', c.D()))
    return UNIT


@model('Vec::dedup', 'Vec::dedup_by_key')
def _dedup(c):
    v = c.D()
    k = None
    if c.name.endswith('dedup_by_key'):
        x = mk('elem', 'srt')
        k = c.E.deref(c.E.apply(c.args[1], [x], c.site + 'k'))
        if natural_order(k, x):
            k = None
    if k is not None:
        c.w(mk('dedup', v, mk('lam', k)))
    elif v.op == 'sorted':
        c.w(mk_cont('set', v.a[0]))
    elif v.op not in ('set', 'range') and v not in SORTED:
        c.w(mk('dedup', v))
    return UNIT


@model('Vec::split_at')
def _split_at(c):
    v, i = c.D(), c.args[1]
    return tup(take(v, i), drop(v, i))


TABLE['Str::split_at'] = TABLE['Vec::split_at']


@model('Vec::split_first')
def _split_first(c):
    v = c.D()
    return gam(bnot(eq0(length(v))), some(tup(at(v, int_(0)), drop(v, int_(1)))), none())


@model('Vec::split_last')
def _split_last(c):
    v = c.D()
    n = add(length(v), int_(-1))
    return gam(bnot(eq0(length(v))), some(tup(at(v, n), take(v, n))), none())


@model('Vec::drain')
def _drain(c):
    v = c.D()
    r = c.D(1)
    if r.op == 'zst' or (r.op == 'rec' and r.a[0] == 'RangeFull'):
        c.w(EMPTY)
        return v
    return None


@model('std::vec::from_elem')
def _from_elem(c):
    return mk('repeat', c.args[0], c.args[1]) if c.args[1].op != 'int' or c.args[1].a[0] > 8 else ones([c.args[0]] * c.args[1].a[0])


@model('std::boxed::Box::new_uninit', 'Box::new_uninit')
def _new_uninit(c):
    cell = ('H', c.uid())
    c.E.st[cell] = mk('undef', '')
    return ref(cell)


@model('std::boxed::box_assume_init_into_vec_unsafe', 'Box::box_assume_init_into_vec_unsafe')
def _assume(c):
    r = c.args[0]
    v = c.E.deref(r)
    for _, x in leaves(r):
        if x.op == 'ref':
            c.E.st.pop(x.a[0], None)
    return v


# ------------------------------------------------------------------ maps and sets
@model('Map::get')
def _mget(c):
    return map_opt(c.D(), c.D(1))


@model('Map::get_mut')
def _mget_mut(c):
    m, k = c.D(), c.D(1)
    return gam(map_has(m, k), some(ref_ext(c.args[0], ('key', k))), none())


@model('Map::contains_key')
def _mhas(c):
    return map_has(c.D(), c.D(1))


@model('Map::insert')
def _minsert(c):
    m, k = c.D(), c.D(1) if c.args[1].op == 'ref' else c.args[1]
    old = map_opt(m, k)
    c.w(upd_path(m, [mk('K', k)], 'kset', c.args[2]))
    return old


@model('Map::remove')
def _mremove(c):
    m, k = c.D(), c.D(1)
    old = map_opt(m, k)
    has = restrict(map_has(m, k), band(c.E.pc, c.E.know))
    c.w(gam(has, mk_cont('map', cat(cont_seq(m, 'map'), mk('seq', mk('krem', k)))), m))
    return old


@model('Set::insert')
def _sinsert(c):
    s, k = c.D(), c.args[1]
    has = set_has(s, k)
    c.w(mk_cont('set', cat(cont_seq(s, 'set'), one(k))))
    return bnot(has)


@model('Set::remove')
def _sremove(c):
    s, k = c.D(), c.D(1)
    has = set_has(s, k)
    c.w(mk_cont('set', cat(cont_seq(s, 'set'), mk('seq', mk('krem', k)))))
    return has


@model('Set::union', 'Set::difference', 'Set::intersection')
def _setop(c):
    a, b = c.D(), c.D(1)
    if c.name == 'union':
        return mk_cont('set', cat(cont_seq(a, 'set'), cont_seq(b, 'set')))
    return mk('set' + c.name, a, b)


@model('Set::is_subset', 'Set::is_superset', 'Set::is_disjoint')
def _setrel(c):
    return atom(mk(c.name, c.D(), c.D(1)))


@model('Map::entry')
def _entry(c):
    return mk('entry', c.args[0], c.args[1])


@model('MapE::or_insert_with', 'MapE::or_insert', 'MapE::or_default')
def _or_insert(c):
    e = c.args[0]
    E = c.E
    r, k = e.a
    m = E.deref(r)
    has = map_has(m, k)

    def dflt():
        if c.name == 'or_insert':
            return c.args[1]
        if c.name == 'or_insert_with':
            return E.apply(c.args[1], [], c.site + 'd')
        ty = strip_ref(c.dty)
        v = default_of(ty)
        return v if v is not None else mk('app', 'default', ty)
    d = E.cond_eval(has, lambda: mk('bot'), dflt)
    d = drop_bot(d)
    if has is not TRUE:
        E.write_ref(r, gam(has, m, upd_path(m, [mk('K', k)], 'kset', d)))
    return ref_ext(r, ('key', k))


@model('MapE::and_modify')
def _and_modify(c):
    e = c.args[0]
    r, k = e.a
    has = map_has(c.E.deref(r), k)
    c.E.cond_eval(has, lambda: c.E.apply(c.args[1], [ref_ext(r, ('key', k))], c.site), lambda: UNIT)
    return e


# ------------------------------------------------------------------ strings
@model('Str::push_str', 'Str::add_assign', 'ops::add_assign')
def _push_str(c):
    if c.path.startswith('std::ops') and not is_strty(c.gargs[0] if c.gargs else ''):
        c.w(add(c.D(), c.D(1)))
        return UNIT
    c.w(cat(c.D(), c.D(1)))
    return UNIT


@model('ops::sub_assign')
def _sub_assign(c):
    c.w(sub(c.D(), c.D(1)))
    return UNIT


@model('Str::push')
def _str_push(c):
    x = c.args[1]
    c.w(cat(c.D(), mk('seq', hole_seg(x, '')) if hole_seg(x, '').op != 'spl' else x))
    return UNIT


@model('ops::add')
def _add(c):
    ty = c.gargs[0] if c.gargs else ''
    if is_strty(ty):
        return cat(c.D(), c.D(1))
    return add(c.D(), c.D(1))


@model('ops::sub')
def _sub(c):
    return sub(c.D(), c.D(1))


@model('ops::mul')
def _mul(c):
    return mul(c.D(), c.D(1))


@model('ops::not')
def _not(c):
    return bnot(c.E.tobool(c.D()))


def is_strty(ty):
    b = strip_generics(strip_ref(ty))
    return b in ('str', 'std::string::String', 'alloc::string::String', 'std::borrow::Cow') or b.endswith('::String')


def to_text(c, v, kind, ty=''):
    v = c.E.deref(v)
    if kind == '' and is_strty(ty):
        return v
    if v.op in ('seq', 'ite') and kind == '' and (v.op == 'seq' or all(l.op == 'seq' for _, l in leaves(v))):
        return v
    if v.op == 'fmtargs':
        return v.a[0]
    if kind == '' and v.op == 'app' and v.a[0] in ('std::path::Path::display',):
        return v.a[1]
    return seq([hole_seg(v, kind)])


@model('std::string::ToString::to_string', 'Str::to_string')
def _to_string(c):
    ty = c.gargs[0] if c.gargs else ''
    return to_text(c, c.args[0], '', ty)


@model('fmt::new_display', 'fmt::new_debug', 'fmt::new_lower_hex', 'fmt::new_upper_hex', 'fmt::new_binary', 'fmt::new_octal')
def _farg(c):
    ty = c.gargs[-1] if c.gargs else ''
    v = c.D()
    k = {'new_display': '', 'new_debug': '?', 'new_lower_hex': 'x', 'new_upper_hex': 'X', 'new_binary': 'b', 'new_octal': 'o'}[c.name]
    return mk('farg', k, v, ty)


@model('std::fmt::Arguments::from_str_nonconst', 'std::fmt::Arguments::from_str', 'fmt::from_str_nonconst')
def _fstr(c):
    return mk('fmtargs', c.D())


@model('std::fmt::Arguments::new', 'fmt::new')
def _fnew(c):
    t, a = c.D(0), c.D(1)
    if t.op == 'seq':
        t = mk('bytes', tuple(b''.join(s.a[0].encode('latin1') for s in t.a)))
    if t.op != 'bytes':
        return None
    b = bytes(t.a[0])
    out = []
    i, nxt = 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(mk('lit', b[i:i + x].decode('utf8', 'replace')))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(mk('lit', b[i:i + n].decode('utf8', 'replace')))
            i += n
        else:
            spec = ''
            if x & 1:
                spec += 'f' + b[i:i + 4].hex()
                i += 4
            if x & 2:
                spec += 'w%d' % (b[i] | b[i + 1] << 8)
                i += 2
            if x & 4:
                spec += 'p%d' % (b[i] | b[i + 1] << 8)
                i += 2
            if x & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            arg = at(a, int_(nxt))
            nxt += 1
            if arg.op == 'farg':
                k, v, ty = arg.a
                out += list(segs(to_text(c, v, k + spec, ty)))
            else:
                out.append(mk('hole', arg, spec))
    return mk('fmtargs', seq(out))


@model('std::fmt::format', 'fmt::format')
def _format(c):
    v = c.D()
    return v.a[0] if v.op == 'fmtargs' else None


@model('fmt::as_str')
def _fas(c):
    return None


@model('fmt::write_fmt', 'fmt::write_str', 'fmt::write_char')
def _fmtwrite(c):
    x = c.D(1)
    c.w(cat(c.D(), x.a[0] if x.op == 'fmtargs' else x))
    return ok(UNIT)


@model('Str::replace')
def _replace(c):
    s, a, b = c.D(), c.D(1), c.D(2)
    a = char_text(a)
    return mk('replace', s, a, b)


def char_text(a):
    if a.op == 'chr':
        return lit(chr(a.a[0]))
    if a.op == 'seq' and all(s.op == 'one' and s.a[0].op == 'chr' for s in a.a):
        return mk('oneof', tuple(sorted(chr(s.a[0].a[0]) for s in a.a)))
    return a


@model('Str::starts_with', 'Str::ends_with', 'Str::contains', 'Vec::starts_with', 'Vec::ends_with')
def _starts(c):
    s, p = c.D(), char_text(c.D(1))
    if p is EMPTY:
        return TRUE
    ss = segs(s)
    if p.op == 'seq' and len(p.a) == 1 and p.a[0].op == 'lit':
        q = p.a[0].a[0]
        if c.name == 'starts_with' and ss and ss[0].op == 'lit' and (len(ss[0].a[0]) >= len(q) or len(ss) == 1):
            return TRUE if ss[0].a[0].startswith(q) else FALSE
        if c.name == 'ends_with' and ss and ss[-1].op == 'lit' and (len(ss[-1].a[0]) >= len(q) or len(ss) == 1):
            return TRUE if ss[-1].a[0].endswith(q) else FALSE
    return atom(mk({'starts_with': 'starts', 'ends_with': 'ends', 'contains': 'strhas'}[c.name], s, p))


@model('Str::strip_suffix', 'Str::strip_prefix')
def _strip(c):
    s, p = c.D(), char_text(c.D(1))
    k = 'ends' if c.name == 'strip_suffix' else 'starts'
    n = length(p)
    if k == 'ends':
        rest = take(s, sub(length(s), n))
    else:
        rest = drop(s, n)
    return gam(atom(mk(k, s, p)), some(rest), none())


for _n in ('trim', 'trim_start', 'trim_end', 'chars', 'lines', 'to_lowercase', 'to_uppercase', 'char_indices', 'split_whitespace',
           'to_ascii_lowercase', 'to_ascii_uppercase', 'as_bytes_'):
    def _f(c, n=_n):
        return unary(n, c.D())
    TABLE['Str::' + _n] = _f

for _n in ('split', 'rsplit', 'find', 'rfind', 'trim_end_matches', 'trim_start_matches', 'trim_matches', 'split_once', 'rsplit_once',
           'splitn', 'matches', 'match_indices', 'repeat', 'replacen', 'split_terminator', 'is_char_boundary'):
    def _f2(c, n=_n):
        v = mk('s_' + n, *[char_text(c.D(i)) for i in range(len(c.args))])
        return atom(v) if c.dty == 'bool' else v
    TABLE['Str::' + _n] = _f2


@model('Str::parse')
def _parse(c):
    return mk('parse', c.gargs[0] if c.gargs else '', c.D())


@model('Str::pop')
def _spop(c):
    s = c.D()
    c.w(mk('spop', s))
    return mk('spopped', s)


@model('Num::from_str_radix')
def _radix(c):
    return mk('app', 'from_str_radix', c.path, c.D(), c.D(1))


# ------------------------------------------------------------------ numbers, comparison
@model('Num::saturating_sub')
def _satsub(c):
    a, b = c.D(), c.D(1)
    d = sub(a, b)
    if d.op == 'int':
        return int_(max(0, d.a[0]))
    return gam(le(b, a), d, int_(0))


@model('Num::checked_sub')
def _chksub(c):
    a, b = c.D(), c.D(1)
    return gam(le(b, a), some(sub(a, b)), none())


@model('Num::checked_add', 'Num::wrapping_add', 'Num::wrapping_sub', 'Num::saturating_add', 'Num::abs_diff', 'Num::pow',
       'Num::wrapping_mul', 'Num::checked_mul', 'Num::overflowing_add', 'Num::leading_zeros')
def _num(c):
    return mk('num', c.path, *[c.E.deref(a) for a in c.args])


for _n in ('is_ascii_digit', 'is_ascii', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_alphanumeric', 'is_ascii_whitespace', 'is_ascii_punctuation',
           'is_numeric', 'is_alphabetic', 'is_whitespace', 'is_digit', 'is_ascii_graphic', 'is_ascii_hexdigit', 'is_ascii_control', 'is_control'):
    def _f3(c, n=_n):
        return atom(mk('chk', n, c.D()))
    for _o in ('Num', 'Char', 'Str'):
        TABLE[_o + '::' + _n] = _f3


@model('Cmp::eq')
def _eq(c):
    return eq(c.D(), c.D(1))


@model('Cmp::ne')
def _ne(c):
    return bnot(eq(c.D(), c.D(1)))


@model('Cmp::lt')
def _lt(c):
    return lt(c.D(), c.D(1))


@model('Cmp::le')
def _le(c):
    return le(c.D(), c.D(1))


@model('Cmp::gt')
def _gt(c):
    return lt(c.D(1), c.D())


@model('Cmp::ge')
def _ge(c):
    return le(c.D(1), c.D())


@model('Cmp::cmp', 'Cmp::partial_cmp')
def _cmp(c):
    v = mk('cmp', c.D(), c.D(1))
    return some(v) if c.name == 'partial_cmp' else v


@model('Cmp::then')
def _then(c):
    return mk('then', c.D(), c.D(1))


@model('Cmp::then_with')
def _then_with(c):
    return mk('then', c.D(), c.E.apply(c.args[1], [], c.site))


@model('Cmp::reverse')
def _crev(c):
    v = c.D()
    return mk('cmp', v.a[1], v.a[0]) if v.op == 'cmp' else mk('crev', v)


def cmp_is(v, val):
    return atom(mk('cmpis', v, str(val)))


@model('Cmp::min')
def _min(c):
    a, b = c.D(), c.D(1)
    return gam(le(a, b), a, b)


@model('Cmp::max')
def _max2(c):
    a, b = c.D(), c.D(1)
    return gam(le(b, a), a, b)


@model('Bool::then')
def _bthen(c):
    return c.E.cond_eval(c.E.tobool(c.D()), lambda: some(c.E.apply(c.args[1], [], c.site)), none)


@model('Bool::then_some')
def _bthens(c):
    return gam(c.E.tobool(c.D()), some(c.args[1]), none())


@model('Mem::take')
def _mtake(c):
    v = c.D()
    d = default_of(c.gargs[0] if c.gargs else c.dty)
    c.w(d if d is not None else mk('app', 'default', c.dty))
    return v


@model('Mem::replace')
def _mreplace(c):
    v = c.D()
    c.w(c.args[1])
    return v


@model('Mem::swap')
def _mswap(c):
    a, b = c.D(), c.D(1)
    c.w(b)
    c.w(a, 1)
    return UNIT


# ------------------------------------------------------------------ Option / Result
GOOD = {'Option': 'Some', 'Result': 'Ok'}


def opt(c):
    return 'Option' if c.path.startswith('std::option') else 'Result'


@model('Option::is_some', 'Result::is_ok')
def _is_some(c):
    return is_var(c.D(), GOOD[opt(c)])


@model('Option::is_none', 'Result::is_err')
def _is_none(c):
    return bnot(is_var(c.D(), GOOD[opt(c)]))


@model('Option::is_some_and', 'Result::is_ok_and', 'Option::is_none_or')
def _is_some_and(c):
    x = c.D()
    g = GOOD[opt(c)]
    d = TRUE if c.name == 'is_none_or' else FALSE
    return c.E.cond_eval(is_var(x, g), lambda: c.E.tobool(c.E.apply(c.args[1], [fld(x, '0', g)], c.site)), lambda: d)


@model('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Result::unwrap_err')
def _unwrap(c):
    x = c.args[0] if c.args[0].op != 'ref' else c.D()
    g = GOOD[opt(c)]
    if c.name == 'unwrap_err':
        g = 'Err'
    cond = is_var(x, g)
    c.E.panic('unwrap', restrict(bnot(cond), band(c.E.pc, c.E.know)), x)
    if cond is FALSE:
        raise Diverge()
    return fld(x, '0', g)


@model('Option::unwrap_or', 'Result::unwrap_or')
def _unwrap_or(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    return gam(is_var(x, g), fld(x, '0', g), c.args[1])


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _unwrap_or_default(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    d = default_of(c.dty)
    return gam(is_var(x, g), fld(x, '0', g), d if d is not None else mk('app', 'default', c.dty))


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _unwrap_or_else(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    ar = [] if opt(c) == 'Option' else [fld(x, '0', 'Err')]
    return c.E.cond_eval(is_var(x, g), lambda: fld(x, '0', g), lambda: c.E.apply(c.args[1], ar, c.site))


def wrap(c, v):
    return some(v) if opt(c) == 'Option' else ok(v)


def bad(c, x):
    return none() if opt(c) == 'Option' else err(fld(x, '0', 'Err'))


@model('Option::map', 'Result::map')
def _omap(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    return c.E.cond_eval(is_var(x, g), lambda: wrap(c, c.E.apply(c.args[1], [fld(x, '0', g)], c.site)), lambda: bad(c, x))


@model('Option::map_or', 'Result::map_or')
def _omap_or(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    return c.E.cond_eval(is_var(x, g), lambda: c.E.apply(c.args[2], [fld(x, '0', g)], c.site), lambda: c.args[1])


@model('Option::map_or_else', 'Result::map_or_else')
def _omap_or_else(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    ar = [] if opt(c) == 'Option' else [fld(x, '0', 'Err')]
    return c.E.cond_eval(is_var(x, g), lambda: c.E.apply(c.args[2], [fld(x, '0', g)], c.site),
                         lambda: c.E.apply(c.args[1], ar, c.site + 'e'))


@model('Option::and_then', 'Result::and_then')
def _and_then(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    return c.E.cond_eval(is_var(x, g), lambda: c.E.apply(c.args[1], [fld(x, '0', g)], c.site), lambda: bad(c, x))


@model('Option::filter')
def _ofilter(c):
    x = c.args[0]
    return c.E.cond_eval(is_var(x, 'Some'), lambda: gam(c.E.tobool(c.E.apply(c.args[1], [fld(x, '0', 'Some')], c.site)), x, none()),
                         none)


@model('Option::or_else', 'Result::or_else')
def _or_else(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    ar = [] if opt(c) == 'Option' else [fld(x, '0', 'Err')]
    return c.E.cond_eval(is_var(x, g), lambda: wrap(c, fld(x, '0', g)), lambda: c.E.apply(c.args[1], ar, c.site))


@model('Option::or', 'Result::or')
def _or(c):
    x = c.args[0]
    g = GOOD[opt(c)]
    return gam(is_var(x, g), x, c.args[1])


@model('Option::and', 'Option::zip')
def _oand(c):
    x, y = c.args[0], c.args[1]
    if c.name == 'and':
        return gam(is_var(x, 'Some'), y, none())
    return gam(band(is_var(x, 'Some'), is_var(y, 'Some')), some(tup(fld(x, '0', 'Some'), fld(y, '0', 'Some'))), none())


@model('Option::ok_or')
def _ok_or(c):
    x = c.args[0]
    return gam(is_var(x, 'Some'), ok(fld(x, '0', 'Some')), err(c.args[1]))


@model('Option::ok_or_else')
def _ok_or_else(c):
    x = c.args[0]
    return c.E.cond_eval(is_var(x, 'Some'), lambda: ok(fld(x, '0', 'Some')), lambda: err(c.E.apply(c.args[1], [], c.site)))


@model('Result::ok')
def _rok(c):
    x = c.args[0]
    return gam(is_var(x, 'Ok'), some(fld(x, '0', 'Ok')), none())


@model('Result::err')
def _rerr(c):
    x = c.args[0]
    return gam(is_var(x, 'Ok'), none(), some(fld(x, '0', 'Err')))


@model('Result::map_err')
def _map_err(c):
    x = c.args[0]
    return c.E.cond_eval(is_var(x, 'Ok'), lambda: ok(fld(x, '0', 'Ok')), lambda: err(c.E.apply(c.args[1], [fld(x, '0', 'Err')], c.site)))


@model('Option::take')
def _otake(c):
    v = c.D()
    c.w(none())
    return v


@model('Option::insert', 'Option::get_or_insert_with', 'Option::replace')
def _oins(c):
    return None


@model('Option::as_mut', 'Option::as_deref_mut')
def _oas_mut(c):
    v = c.D()
    return gam(is_var(v, 'Some'), some(ref_ext(c.args[0], ('f', '0', 'Some', None))), none())


@model('Option::flatten', 'Option::transpose', 'Result::transpose')
def _oflat(c):
    x = c.args[0]
    if c.name == 'flatten':
        return gam(is_var(x, 'Some'), fld(x, '0', 'Some'), none())
    if opt(c) == 'Option':
        i = fld(x, '0', 'Some')
        return gam(is_var(x, 'Some'), gam(is_var(i, 'Ok'), ok(some(fld(i, '0', 'Ok'))), err(fld(i, '0', 'Err'))), ok(none()))
    return None


@model('ops::branch')
def _branch(c):
    x = c.args[0]
    isopt = c.gargs and c.gargs[0].startswith('std::option')
    g = 'Some' if isopt else 'Ok'
    b = none() if isopt else None

    return gam(is_var(x, g), rec('ControlFlow', 'Continue', ['0'], [fld(x, '0', g)]),
               rec('ControlFlow', 'Break', ['0'], [none() if isopt else err(fld(x, '0', 'Err'))]))


@model('ops::from_residual')
def _from_residual(c):
    x = c.args[0]
    if c.gargs and c.gargs[0].startswith('std::option'):
        return none()
    if c.gargs and c.gargs[0].startswith('std::result'):
        e = fld(x, '0', 'Err')
        # error conversion: look for the crate's own From impl
        to = split_args(c.gargs[0])[1] if '<' in c.gargs[0] else ''
        frm = split_args(c.gargs[1])[1] if len(c.gargs) > 1 and '<' in c.gargs[1] else ''
        if to and frm and to != frm:
            g = from_impl(c.E, to, frm)
            if g is not None:
                return err(c.E.run_fn(g, [e], c.site + 'from'))
            return err(mk('app', 'From::from', strip_generics(to), e))
        return err(e)
    return None


def from_impl(E, to, frm):
    for g in E.prog.fns.values():
        if g.name == 'from' and g.d.get('impl', '').startswith('<') and False:
            pass
        im = g.d.get('impl', '')
        if g.name == 'from' and 'From<' in im and im.endswith('From<%s>' % frm) | ('From<%s>' % frm in im) and g.locals[0] == to:
            return g
    return None


@model('ops::from_output')
def _from_output(c):
    return ok(c.args[0])


@model('ops::call', 'ops::call_mut', 'ops::call_once')
def _callfn(c):
    tupv = c.args[1]
    return c.E.apply(c.args[0], list(tupv.a[3]) if tupv.op == 'rec' else [tupv], c.site)


# ------------------------------------------------------------------ effects
def effect(c, *a):
    E = c.E
    cell = ('FX',)
    E.st[cell] = cat(E.st.get(cell, EMPTY), one(mk('fx', *a)))


def io_result(c, kind, *vals):
    return mk('io', kind, c.uid(), *vals)


@model('std::fs::File::create', 'fs::create')
def _fcreate(c):
    effect(c, 'create', c.D())
    return io_result(c, 'create', c.D())


@model('std::fs::File::create_new')
def _fcreate_new(c):
    effect(c, 'create only if absent', c.D())
    return io_result(c, 'create', c.D())


@model('std::fs::OpenOptions::new', 'std::fs::File::options')
def _oo_new(c):
    return mk('openopts')


def _oo_set(c):
    o, v = c.D(), c.D(1)
    if o.op == 'openopts':
        k = [x for x in o.a if x != c.name]
        if v is TRUE:
            o = mk('openopts', *sorted(k + [c.name]))
        elif v is FALSE:
            o = mk('openopts', *k)
        else:
            o = mk('app', c.path, o, v)
    else:
        o = mk('app', c.path, o, v)
    c.w(o)
    return c.args[0]


for _n in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
    TABLE['std::fs::OpenOptions::' + _n] = _oo_set


@model('std::fs::OpenOptions::open')
def _oo_open(c):
    o, p = c.D(), c.D(1)
    if o.op != 'openopts':
        effect(c, 'open', o, p)
        return io_result(c, 'open', o, p)
    k = set(o.a)
    if not k & {'write', 'append'}:
        return mk('io', 'open', '', p)
    how = 'create only if absent' if 'create_new' in k else 'append to' if 'append' in k else \
        ('create' if 'create' in k else 'overwrite only if present') if 'truncate' in k else 'overwrite without truncating' if 'create' in k else 'overwrite in place'
    effect(c, how, p)
    return io_result(c, 'create', p)


@model('std::fs::File::open')
def _fopen(c):
    return mk('io', 'open', '', c.D())


def contents(p):
    return mk('app', 'contents of file', p)


@model('std::fs::read_to_string', 'std::fs::read')
def _fread(c):
    # opening and reading, a failed read being reported like a failed open
    r = mk('io', 'open', '', c.D())
    return gam(is_var(r, 'Ok'), ok(contents(c.D())), err(fld(r, '0', 'Err')))


def opened(h):
    """path of an open file"""
    if h.op == 'fld' and h.a[2] == '0' and h.a[0].op == 'io' and h.a[0].a[0] == 'open':
        return h.a[0].a[2]
    return None


@model('io::read_to_string', 'io::read_to_end')
def _ioread(c):
    p = opened(c.D())
    if p is None:
        return None
    if len(c.args) > 1:
        c.w(cat(c.D(1), seq([mk('spl', contents(p))])), 1)
        return ok(length(contents(p)))
    return ok(contents(p))


@model('std::fs::write')
def _fwrite(c):
    # File::create(path)?.write_all(contents)
    E = c.E
    effect(c, 'create', c.D())
    r = io_result(c, 'create', c.D())
    good = is_var(r, 'Ok')
    h = TM.fld(r, '0', 'Ok')
    before = E.st[('FX',)]
    effect(c, 'append', h, as_text(c.D(1)))
    E.st[('FX',)] = ite(good, E.st[('FX',)], before)
    return ite(good, io_result(c, 'write_all', h), r)


for _n in ('remove_file', 'create_dir', 'create_dir_all', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'set_permissions'):
    def _f4(c, n=_n):
        effect(c, 'fs', n, *[c.E.deref(a) for a in c.args])
        return io_result(c, n, *[c.E.deref(a) for a in c.args])
    TABLE['std::fs::' + _n] = _f4


def as_text(v):
    if v.op == 'bytes':
        try:
            return lit(bytes(v.a[0]).decode())
        except UnicodeDecodeError:
            return v
    if v.op == 'fmtargs':
        return v.a[0]
    return v


@model('std::io::BufWriter::new', 'std::io::BufReader::new', 'std::io::LineWriter::new')
def _bufw(c):
    return c.D()


@model('io::write_all', 'io::write_fmt', 'io::write')
def _write_all(c):
    h, x = c.D(), as_text(c.D(1))
    effect(c, 'append', h, x)
    return io_result(c, 'write_all' if c.name == 'write_fmt' else c.name, h)


@model('io::flush', 'io::sync_all', 'fs::sync_all', 'fs::sync_data')
def _flush(c):
    # whether buffered text is flushed at all is decided by the rule buffered_writes
    return io_result(c, 'flush', c.D())


@model('std::io::_print', 'std::io::_eprint')
def _print(c):
    effect(c, 'stderr' if c.name == '_eprint' else 'stdout', as_text(c.D()))
    return UNIT


@model('std::process::exit', 'std::process::abort')
def _exit(c):
    E = c.E
    fn, fid, b = E.cur
    effect(c, 'exit', c.D() if c.args else UNIT)
    E.diverged[(fid, b)] = dict(code=c.D() if c.args else UNIT, cond=band(E.pc, E.know), fx=E.st.get(('FX',), EMPTY), fn=fn.path, sp=TM.CUR['sp'])
    raise Diverge()


@model('std::path::Path::join', 'std::path::PathBuf::join')
def _pjoin(c):
    return mk('pathjoin', c.D(), c.D(1))


@model('std::path::PathBuf::new')
def _pnew(c):
    return EMPTY


@model('std::path::Path::display')
def _pdisp(c):
    return mk('app', 'std::path::Path::display', c.D())


@model('std::path::PathBuf::push')
def _ppush(c):
    c.w(mk('pathjoin', c.D(), c.D(1)))
    return UNIT


# pure dependency calls: opaque but known to have no effect on our state
PURE = {
    'regex::Regex::new', 'regex::Regex::captures', 'regex::Regex::captures_iter', 'regex::Regex::is_match', 'regex::Regex::find',
    'regex::Regex::find_iter', 'regex::Captures::get', 'regex::Match::as_str', 'regex::Match::start', 'regex::Match::end',
    'fancy_regex::Regex::new', 'fancy_regex::Regex::captures', 'fancy_regex::Regex::captures_len', 'fancy_regex::Captures::get',
    'fancy_regex::Match::start', 'fancy_regex::Match::end', 'fancy_regex::Match::as_str', 'fancy_regex::Regex::find', 'fancy_regex::Regex::is_match',
    'fancy_regex::Match::range', 'fancy_regex::Captures::len', 'fancy_regex::Captures::name', 'fancy_regex::Captures::iter',
    'serde_json::from_str', 'serde_json::from_reader', 'serde_json::from_slice', 'serde_json::to_string', 'serde_json::Value::as_str', 'serde_json::to_vec',
    'serde_json::from_value', 'serde_json::to_value', 'serde_wasm_bindgen::from_value', 'serde_wasm_bindgen::to_value',
    'wasm_bindgen::JsValue::from_str', 'wasm_bindgen::JsValue::as_string', 'wasm_bindgen::JsValue::is_string',
    'regex_automata::dfa::dense::Builder::build', 'regex_automata::dfa::dense::Builder::configure', 'regex_automata::dfa::dense::Builder::new',
    'regex_automata::dfa::dense::Config::accelerate', 'regex_automata::dfa::dense::Config::byte_classes', 'regex_automata::dfa::dense::Config::new',
    'regex_automata::dfa::dense::Config::minimize', 'regex_automata::dfa::dense::Config::start_kind', 'regex_automata::dfa::dense::DFA::builder',
    'regex_automata::dfa::dense::DFA::config', 'regex_automata::dfa::dense::Builder::syntax', 'clap::Parser::parse',
}


def matched_text(m):
    """the text a match was found in"""
    while m.op == 'fld':
        m = m.a[0]
    if m.op != 'app' or not isinstance(m.a[1] if len(m.a) > 1 else None, T):
        return None
    p = str(m.a[0])
    if p.endswith(('::Captures::get', '::Captures::name')):
        return matched_text(m.a[1])
    if p.endswith(('::Regex::captures', '::Regex::find')) and len(m.a) > 2:
        return m.a[2]
    return None


def pure(c):
    vals = [c.E.deref(a) for a in c.args]
    g = ''
    if c.path.startswith(('serde_json::from', 'serde_wasm_bindgen::from')):
        g = (c.gargs[-1] if c.gargs else '')
        rt = c.dty
        if rt.startswith('std::result::Result<'):
            g = split_args(rt)[0]
        if c.name == 'from_reader' and vals and opened(vals[0]) is not None:
            return mk('app', 'serde_json::from_str', g, contents(opened(vals[0])))
        if c.name == 'from_str' and vals:
            # white space around a document does not matter
            while vals[0].op in ('trim', 'trim_start', 'trim_end'):
                vals[0] = vals[0].a[0]
        return mk('app', 'serde_json::from_str' if c.name == 'from_slice' else c.path, g, *vals)
    # configuring a builder through &mut self: the value configured is returned
    if c.name == 'as_str' and '::Match::' in c.path:
        g = matched_text(vals[0])
        if g is not None:
            p = c.path[:-len('as_str')]
            return drop(take(g, mk('app', p + 'end', vals[0])), mk('app', p + 'start', vals[0]))
    if c.path == 'wasm_bindgen::JsValue::is_string':
        return is_var(mk('app', 'wasm_bindgen::JsValue::as_string', *vals), 'Some')
    if c.name == 'is_match' and len(vals) == 2:
        return is_var(mk('app', c.path[:-len('is_match')] + 'captures', *vals), 'Some')
    v = mk('app', c.path, *vals)
    if c.dty == 'bool':
        return atom(v)
    return v


for _p in PURE:
    TABLE[_p] = pure


@model('regex_automata::dfa::dense::Builder::configure', 'regex_automata::dfa::dense::Builder::syntax', 'regex_automata::dfa::dense::Builder::thompson')
def _configure(c):
    v = mk('app', c.path, c.D(), c.D(1))
    c.w(v)
    return c.args[0]


# ------------------------------------------------------------------ arrays of the browser
def js_array(c, q):
    """a new array, shared by everyone holding it, with the elements q"""
    cell = ('JS', c.uid())
    c.E.st[cell] = q
    return mk('jsarr', cell)


def js_size(n):
    """a length or position handed to the browser (usize has 32 bits there)"""
    return n.a[1] if n.op == 'cast' and n.a[0] == 'u32' else n


@model('js_sys::Array::new', 'js_sys::Array::of1', 'js_sys::Array::of2', 'js_sys::Array::of3', 'js_sys::Array::of4')
def _jsnew(c):
    return js_array(c, ones([js_value(c, a) for a in c.args]))


@model('js_sys::Array::new_with_length')
def _jsnewlen(c):
    n = js_size(c.D())
    x = mk('undef', '')
    return js_array(c, ones([x] * n.a[0]) if n.op == 'int' and n.a[0] <= 8 else mk('repeat', x, n))


def js_value(c, a):
    """what an array holds now (nobody changes one after handing it over)"""
    v = c.E.deref(a)
    if v.op == 'jsarr':
        return mk('jslist', c.E.st[v.a[0]])
    # an array is a value like any other
    while v.op == 'app' and len(v.a) == 3 and v.a[0] == 'From::from' and v.a[2].op == 'jslist':
        v = v.a[2]
    return v


@model('js_sys::Array::set')
def _jsset(c):
    r = c.D()
    if r.op != 'jsarr':
        effect(c, 'js', c.name, *[c.E.deref(a) for a in c.args])
        return UNIT
    c.E.assign(r.a[0], (('at', js_size(c.D(1))),), js_value(c, c.args[2]))
    return UNIT


@model('js_sys::Array::push')
def _jspush(c):
    r = c.D()
    if r.op != 'jsarr':
        effect(c, 'js', c.name, *[c.E.deref(a) for a in c.args])
        return mk('app', 'js_sys::Array::push')
    q = cat(c.E.st[r.a[0]], one(js_value(c, c.args[1])))
    c.E.st[r.a[0]] = q
    return length(q)


@model('js_sys::Array::length')
def _jslength(c):
    r = c.D()
    return length(c.E.st[r.a[0]]) if r.op == 'jsarr' else mk('app', 'js_sys::Array::length', c.D())
