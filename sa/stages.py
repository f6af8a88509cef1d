"""Stages of the system, evaluated symbolically on the current and on the confirmed tree.

A stage is one function; the other stages it calls stay opaque, so that a change inside a
stage is seen where it is made.  A stage that no longer exists under its name (or with the
same arity) is not kept opaque on either side: its callers then include its code.
"""
import json, time
from terms import *
import terms as TM
import engine, facts, refs, outcome
import circ, astx
from diff import Diff, Timeout
from colour import Colours

COMPILER = ['create_dfa_config', 'find_caret_index', 'process_caret_in_regex', 'ends_with_end_anchor', 'validate_end_anchor',
            'parse_states', 'handle_eoi_transitions', 'find_start_state', 'sort_and_rename_states', 'create_special_char_mappings',
            'parse_char', 'process_state_edges', 'convert_dfa_to_graph', 'modify_graph_for_caret', 'create_simple_caret_graph',
            'handle_caret_regex', 'rename_states', 'update_public_edges', 'process_public_regex', 'add_dfa', 'get_regex_and_dfa',
            'create_dfa_graph_from_regex', 'match_string_with_dfa_graph', 'create_regex_and_dfa_from_str_and_defs',
            'get_accepted_state', 'get_max_state', 'gen_circom_template', 'gen_circom_string', 'dfa_to_regex_def_text', 'gen_halo2_tables',
            'load_substring_definitions_json', 'generate_outputs', 'gen_from_decomposed', 'gen_from_raw', 'gen_circom_from_decomposed_regex',
            'genFromDecomposed', 'genFromRaw', 'genRegexAndDfa', 'genCircom']
BIN = ['main', 'process_decomposed', 'process_raw']
APIS = ['extract_substr_idxes', 'extract_substr', 'pad_string', 'extract_email_addr_idxes', 'extract_email_domain_idxes', 'extract_from_all_idxes',
        'extract_from_addr_idxes', 'extract_to_all_idxes', 'extract_to_addr_idxes', 'extract_subject_all_idxes', 'extract_body_hash_idxes',
        'extract_timestamp_idxes', 'extract_message_id_idxes']
WASM = ['padString', 'extractSubstrIdxes', 'extractSubstr', 'extractEmailAddrIdxes', 'extractEmailDomainIdxes', 'extractFromAllIdxes',
        'extractFromAddrIdxes', 'extractToAllIdxes', 'extractToAddrIdxes', 'extractSubjectAllIdxes', 'extractBodyHashIdxes',
        'extractTimestampIdxes', 'extractMessageIdIdxes', 'parse_js_regex_config']
# entry points a user can call: they have to exist
PUBLIC = {'gen_from_decomposed', 'gen_from_raw', 'gen_circom_from_decomposed_regex', 'genFromDecomposed', 'genFromRaw', 'genRegexAndDfa', 'genCircom',
          'main'} | set(APIS) | set(WASM) - {'parse_js_regex_config'}
UNIT = {}
for n in COMPILER:
    UNIT[n] = 0
for n in APIS:
    UNIT[n] = 1
for n in BIN:
    UNIT[n] = 2
for n in WASM:
    UNIT[n] = 3
UNITCRATE = ['zk_regex_compiler', 'zk_regex_apis', 'zk_regex', 'zk_regex_apis']
# every function of the crate that is the same function on both sides stays opaque
ALLCUT = ('*',)
# never opaque: small helpers whose text is part of the caller
INLINE = set()


class World:
    """both programs, and the stages evaluated so far"""

    def __init__(self):
        self.digest = None
        self.progs = {}
        self.cache = {}
        self.C = Colours()
        self.time = {}
        self.deadline = None
        self.local = {}          # functions that are not stages: name -> unit

    def unit(self, name):
        return UNIT[name] if name in UNIT else self.local[name]

    def locals(self, unit):
        """named functions of a crate that are not stages, on both sides with the same arity"""
        k = ('locals', unit)
        if k not in self.cache:
            def names(side):
                n = {}
                for f in self.prog(side, unit).fns.values():
                    if f.facts == UNITCRATE[unit] and f.d.get('kind') == 'fn' and f.name not in UNIT:
                        n[f.name] = n.get(f.name, 0) + 1
                return {x for x, c in n.items() if c == 1}
            ns = names('ref') & names('cur')
            for x in ns:
                self.local.setdefault(x, unit)
            self.cache[k] = tuple(sorted(x for x in ns if self.local[x] == unit and self.stable(x)))
        return self.cache[k]

    def prog(self, side, unit):
        k = (side, unit)
        if k not in self.progs:
            names = [facts.NAMES[unit]] if unit == 0 else [facts.NAMES[0], facts.NAMES[unit]]
            if side == 'cur':
                fs, self.digest = facts.load(names)
            else:
                fs = refs.load(names)
            self.progs[k] = engine.Program(fs)
        return self.progs[k]

    def fn(self, side, name):
        p = self.prog(side, self.unit(name))
        fs = p.find(name)
        if len(fs) > 1:
            fs = [f for f in fs if f.facts == UNITCRATE[self.unit(name)]] or fs
            fs = sorted(fs, key=lambda f: len(f.path))[:1]
        return fs[0] if fs else None

    def stable(self, name):
        """the stage exists on both sides with the same arity"""
        k = ('stable', name)
        if k not in self.cache:
            a, b = self.fn('ref', name), self.fn('cur', name)
            self.cache[k] = a is not None and b is not None and a.argc == b.argc and \
                [x.startswith('&mut') for x in a.locals[1:a.argc + 1]] == [x.startswith('&mut') for x in b.locals[1:b.argc + 1]]
        return self.cache[k]

    def cuts(self, name, without=()):
        u = self.unit(name)
        us = {u}
        if u == 2:
            us.add(0)
        if u == 3:
            us.add(1)
        if without[:1] == ALLCUT:
            ns = [n for x in us for n in self.locals(x) if n != name]
            return tuple(n for n in tuple(n for n in UNIT if UNIT[n] in us and n != name and self.stable(n)) + tuple(ns) if n not in without)
        return tuple(n for n in UNIT if UNIT[n] in us and n != name and n not in INLINE and n not in without and self.stable(n))

    def stage(self, side, name, without=()):
        k = (side, name, tuple(sorted(without)))
        if k not in self.cache:
            f = self.fn(side, name)
            if f is None:
                self.cache[k] = None
            else:
                t = time.time()
                r = self.fn('ref', name)
                ns = [r.names.get(i + 1, 'p%d' % i) for i in range(r.argc)] if r else None
                self.cache[k] = outcome.evaluate(self.prog(side, self.unit(name)), f, 'R:' if side == 'ref' else '', self.cuts(name, without), names=ns)
                self.time[k] = time.time() - t
        return self.cache[k]


# ------------------------------------------------------------------ views
def blank_err(t, memo=None):
    """error payloads do not matter, only that it is an error"""
    memo = {} if memo is None else memo
    if t.op == 'ite':
        r = memo.get(t)
        if r is None:
            r = memo[t] = ite(atom(t.a[0]), blank_err(t.a[1], memo), blank_err(t.a[2], memo))
        return r
    if t.op == 'rec' and t.a[1] == 'Err':
        return mk('rec', t.a[0], 'Err', (), ())
    return t


def ok_only(t, memo=None):
    """the success values (error leaves removed)"""
    memo = {} if memo is None else memo
    if t.op == 'ite':
        r = memo.get(t)
        if r is None:
            r = memo[t] = ite(atom(t.a[0]), ok_only(t.a[1], memo), ok_only(t.a[2], memo))
        return r
    if t.op == 'rec' and t.a[1] == 'Err':
        return mk('bot')
    return t


def err_only(t, memo=None):
    memo = {} if memo is None else memo
    if t.op == 'ite':
        r = memo.get(t)
        if r is None:
            r = memo[t] = ite(atom(t.a[0]), err_only(t.a[1], memo), err_only(t.a[2], memo))
        return r
    if t.op == 'rec' and t.a[1] in ('Err', 'Ok'):
        return TRUE if t.a[1] == 'Err' else FALSE
    if t.op == 'app' and str(t.a[0]).startswith('cut:'):
        return ite(atom(TM.is_var(t, 'Ok')), FALSE, TRUE)
    return FALSE


def view_value(o):
    out = [('value', blank_err(o.v))]
    for i in range(o.fn.argc):
        x = o.outs(i)
        if x is not None:
            out.append(('result in argument %d' % i, x))
    return out


def view_ok(o):
    out = [('value', ok_only(o.v))]
    return out + view_value(o)[1:]


def view_errs(o):
    return [('error exit', err_only(o.v))]


class TooBig(Exception):
    pass


def norm_fx(t, memo=None):
    """effects as one decision diagram whose leaves are plain sequences"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if len(memo) > 4000:
        raise TooBig()
    if t.op == 'ite':
        r = ite(atom(t.a[0]), norm_fx(t.a[1], memo), norm_fx(t.a[2], memo))
    elif t.op == 'seq':
        r = EMPTY
        cm = {}
        for s in t.a:
            if s.op == 'gam':
                x = norm_fx(s.a[0], memo)
            elif s.op == 'rep':
                b = norm_fx(s.a[1], memo)
                x = mk('seq', mk('rep', s.a[0], b))
            else:
                x = mk('seq', s)
            r = catd(r, x, cm)
    else:
        r = t
    memo[t] = r
    return r


def catd(a, b, memo):
    """concatenation of two decision diagrams of sequences"""
    k = (a, b)
    r = memo.get(k)
    if r is None:
        if len(memo) > 20000:
            raise TooBig()
        if a.op != 'ite' and b.op != 'ite':
            r = TM.cat(a, b)
        else:
            m = TM._top(a, b)
            a1, a0 = TM._co(a, m)
            b1, b0 = TM._co(b, m)
            g = TM._group(m)
            if g is not None:
                a1, b1 = TM._excl(a1, m, g), TM._excl(b1, m, g)
            r = TM.node(m, catd(a1, b1, memo), catd(a0, b0, memo))
        memo[k] = r
    return r


def view_effects(o):
    try:
        return [('effects', norm_fx(o.fx))]
    except TooBig:
        return [('effects', o.fx)]


def view_canned(o):
    """value with definition texts replaced by the names of their files"""
    side = 'ref' if o.E.tag == 'R:' else 'cur'
    names = {json.dumps(v, sort_keys=True): k for k, v in refs.definitions(side).items()}

    def go(t):
        if not isinstance(t, T):
            return tuple(go(x) for x in t) if isinstance(t, tuple) else t
        if t.op == 'seq' and len(t.a) == 1 and t.a[0].op == 'lit' and '"parts"' in t.a[0].a[0]:
            try:
                k = names.get(json.dumps(json.loads(t.a[0].a[0]), sort_keys=True))
            except ValueError:
                k = None
            if k is not None:
                return TM.lit('definition ' + k)
        if not any(isinstance(x, (T, tuple)) for x in t.a):
            return t
        return mk(t.op, *[go(x) for x in t.a])
    return [('value', go(blank_err(o.v)))]


def pick(t, keep):
    """effects t reduced to the ones keep(fx) asks for"""
    memo = {}

    def one(s):
        if s.op == 'one' and s.a[0].op == 'fx':
            r = keep(s.a[0])
            if r is not None:
                return r
        elif s.op == 'rep':
            b = go(s.a[1])
            return [mk('rep', s.a[0], b)] if b is not EMPTY else []
        elif s.op == 'gam':
            b = go(s.a[0])
            return list(TM.segs(b))
        return [s]

    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == 'ite':
                r = ite(atom(t.a[0]), go(t.a[1]), go(t.a[2]))
            elif t.op == 'seq':
                r = TM.seq([x for s in t.a for x in one(s)])
            else:
                r = t
            memo[t] = r
        return r
    return go(t)


def fits(o):
    """the condition that the text (first parameter) fits in the length (second parameter)"""
    a, b = o.E.args[:2]
    return TM.ge0(TM.sub(b, TM.length(a)))


def lifted(v):
    try:
        return norm_fx(filled(v, {}))
    except TooBig:
        return v


def filled(t, memo):
    """byte by byte loops as lists: [c; n], and text[i] where i is in the text and c elsewhere"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        r = ite(atom(t.a[0]), filled(t.a[1], memo), filled(t.a[2], memo))
    elif t.op == 'rec' and t.a[1] in ('Ok', 'Some'):
        r = mk('rec', t.a[0], t.a[1], t.a[2], tuple(filled(x, memo) for x in t.a[3]))
    elif t.op == 'seq':
        r = EMPTY
        for s in t.a:
            x = mk('seq', s)
            if s.op == 'gam':
                x = filled(s.a[0], memo)
            elif s.op == 'rep' and s.a[0] in TM.LOOPS:
                x = filling(TM.LOOPS[s.a[0]], s.a[0], s.a[1]) or x
            r = TM.cat(r, x)
    else:
        r = t
    memo[t] = r
    return r


def filling(L, name, body):
    n = L.count
    if n is None and L.dom is not None:
        n = TM.length(L.dom)
    if n is None and len(L.exits) == 1 and len(L.cells) == 1:
        # one element is added until the list has its length
        (key, (init, nxt)), = L.cells.items()
        x, = L.exits.values()
        ss = TM.segs(nxt) if nxt.op == 'seq' else ()
        if len(ss) == 2 and ss[0].op == 'spl' and ss[0].a[0].op == 'mu' and ss[1].op == 'one' and x.op == 'ite' and x.a[0].op == 'ge0' and x.a[1] is FALSE:
            c, ps = TM.lin_parts(x.a[0].a[0])
            l = TM.length(ss[0].a[0])
            if c == -1 and dict(ps).get(l) == -1:
                n = TM.sub(TM.add(TM.add(x.a[0].a[0], l), TM.int_(1)), TM.length(init))
    elif L.exits:
        n = None
    if n is None:
        return None

    def own(x):
        return TM.contains(x, lambda y: y.op in ('mu', 'elem', 'fin', 'idx', 'undef') and (y.op != 'idx' or y.a[0] == name))

    def elem(b):
        return b.a[0].a[0] if b.op == 'seq' and len(b.a) == 1 and b.a[0].op == 'one' else None
    if own(n):
        return None
    x = elem(body)
    if x is None and body.op == 'seq' and len(body.a) == 1 and body.a[0].op == 'gam' and body.a[0].a[0].op == 'ite':
        g = body.a[0].a[0]
        u, v = elem(g.a[1]), elem(g.a[2])
        if u is not None and v is not None:
            x = ite(atom(g.a[0]), u, v)
    if x is None:
        return None
    if not own(x):
        return TM.repeated(x, n)
    i = mk('idx', name)
    if x.op != 'ite' or x.a[1].op == 'ite' or x.a[2].op == 'ite':
        return None
    for k in (1, 2):
        u, v = x.a[k], x.a[3 - k]
        if u.op == 'at' and u.a[1] is i and not own(u.a[0]) and not own(v):
            t = u.a[0]
            inside = TM.ge0(TM.sub(TM.sub(TM.length(t), i), TM.int_(1)))
            if (ite(atom(x.a[0]), TRUE, FALSE) if k == 1 else TM.bnot(ite(atom(x.a[0]), TRUE, FALSE))) is inside:
                more = TM.sub(n, TM.length(t))
                return ite(TM.ge0(more), TM.cat(t if t.op == 'seq' else mk('seq', mk('spl', t)), TM.repeated(v, more)), TM.take(t, n))
    return None


def view_padded(o):
    """value where the text is not longer than the length asked for (the rest is decided by the rule padding)"""
    c = fits(o)
    v = lifted(o.v)
    if c.op == 'ite' and c.a[1] is TRUE:
        v = TM.cof(v, c.a[0], True)
    elif c.op == 'ite' and c.a[2] is TRUE:
        v = TM.cof(v, c.a[0], False)
    return [('value', blank_err(v))]


def view_arrays(o):
    """the arrays handed to the browser"""
    return [('arrays', ok_only(o.v))]


# ways to open a file for writing which do not leave exactly what is written in it
OPENS = ('create only if absent', 'append to', 'overwrite only if present', 'overwrite without truncating', 'overwrite in place')


def view_files(o):
    """which files are written (not what is written into them)"""
    def keep(f):
        if f.a[0] in ('write', 'create'):
            return [mk('one', mk('fx', 'file', f.a[1]))]
        if f.a[0] in ('append', 'flush', 'stdout', 'stderr', 'exit'):
            return []
        if f.a[0] in OPENS:
            return [mk('one', mk('fx', f.a[0], f.a[1]))]
        if f.a[0] == 'call':
            g = o.E.prog.find(f.a[1])
            ns = [g[0].names.get(i + 1, '') for i in range(g[0].argc)] if g else []
            if len(ns) == len(f.a) - 2:
                return [mk('one', mk('fx', 'call', f.a[1], *[x for n, x in zip(ns, f.a[2:]) if 'path' in n or 'num' in n]))]
    fs = pick(view_effects(o)[0][1], keep)
    if o.E.tag != 'R:':
        # writing nothing when the function fails is as good as what was written before the failure
        fs = less_on_error(fs, err_only(o.v), {})
    return [('files', fs)]


def less_on_error(f, e, memo):
    k = (f, e)
    r = memo.get(k)
    if r is None:
        if f.op != 'ite' and e.op != 'ite':
            r = mk('bot') if f is EMPTY and e is TRUE else f
        elif len(memo) > 20000:
            raise ValueError('files: too many cases')
        else:
            m = TM._top(f, e)
            f1, f0 = TM._co(f, m)
            e1, e0 = TM._co(e, m)
            g = TM._group(m)
            if g is not None:
                f1, e1 = TM._excl(f1, m, g), TM._excl(e1, m, g)
            r = TM.node(m, less_on_error(f1, e1, memo), less_on_error(f0, e0, memo))
        memo[k] = r
    return r


def view_local(o):
    return view_value(o) + view_effects(o) + view_exits(o)


def view_exits(o):
    """process exits: condition and code"""
    t = mk('none')
    for k, p in sorted(o.E.diverged.items(), key=repr):
        c = p['cond']
        t = ite(c, mk('exitcode', p['code'] if isinstance(p['code'], T) else TM.int_(p['code'] if p['code'] is not None else -1)), t)
    return [('process exit', t)]


GROUPS = {
    'msg': {'in', 'in_range_checks', 'msg', 'num_bytes'},
    'gates': {'eq', 'lt', 'and', 'multi_or'},
    'state': {'states', 'states_tmp', 'from_zero_enabled', 'state_changed'},
    'accept': {'is_accepted', 'out', 'end_anchor_check', 'padding_start'},
    'changed': {'state_changed'},
    'reveal': {'is_consecutive', 'prev_states#', 'is_substr#', 'is_reveal#', 'reveal#'},
}
KNOWN = set().union(*GROUPS.values())


def keeper(groups):
    def keep(s):
        k = s[0]
        if k == 'assign':
            b = astx.base(s[1])
        elif k in ('signal', 'component', 'var'):
            n = s[2] if k == 'signal' else s[1]
            b = n if isinstance(n, str) else ''.join(x if isinstance(x, str) else '#' for x in n)
        elif k in ('pragma', 'include'):
            return 'header' in groups
        else:
            b = None
        if b not in KNOWN:
            return True
        return any(b in GROUPS[g] for g in groups if g in GROUPS)
    return keep


def view_text(*groups, rhs=True):
    keep = keeper(groups)

    def view(o):
        memo = {}

        def go(x):
            if x.op == 'ite':
                if x not in memo:
                    memo[x] = ite(atom(x.a[0]), go(x.a[1]), go(x.a[2]))
                return memo[x]
            if x.op == 'rec' and x.a[1] == 'Err':
                return mk('bot')
            if x.op == 'rec' and x.a[1] == 'Ok' and x.a[3]:
                return mk('ctext', astx.encode(tree(x.a[3][0]), keep, rhs))
            return x
        return [('circuit text', go(o.v))]
    return view


TREES = {}


def tree(t):
    if t not in TREES:
        TREES[t] = circ.parse_term(t)
    return TREES[t]


# ------------------------------------------------------------------ comparison
class Verdict:
    """outcome of comparing one view of one stage"""

    def __init__(self, stage, view, mis, note='', without=()):
        self.stage, self.view, self.mis, self.note, self.without = stage, view, mis, note, without

    @property
    def definite(self):
        return [m for m in self.mis if m.definite]

    @property
    def shape(self):
        return [m for m in self.mis if not m.definite]

    @property
    def violated(self):
        return bool(self.mis) and not self.shape and not self.note


VIEWS = {'value': view_value, 'ok': view_ok, 'errs': view_errs, 'effects': view_effects, 'canned': view_canned, 'padded': view_padded, 'files': view_files, 'arrays': view_arrays, 'local': view_local, 'exits': view_exits}
for g in list(GROUPS) + ['header']:
    VIEWS['text:' + g] = view_text(g)
VIEWS['text:targets'] = view_text('header', *GROUPS, rhs=False)
VIEWS['text'] = view_text('header', *GROUPS)


def project(t, f, memo):
    """field f of the result (errors are not compared)"""
    if t.op == 'ite':
        r = memo.get(t)
        if r is None:
            r = memo[t] = ite(atom(t.a[0]), project(t.a[1], f, memo), project(t.a[2], f, memo))
        return r
    if t.op == 'rec' and t.a[1] == 'Err':
        return mk('bot')
    if t.op == 'rec' and t.a[1] == 'Ok':
        return project(t.a[3][0], f, memo)
    return TM.fld(t, f)


def viewfn(view):
    if '#' in view:
        return lambda o: [(view, project(o.v, view.split('#')[1], {}))]
    return VIEWS[view]


def calls_of(w, side, name):
    """stages a stage calls (through helpers that are not stages)"""
    return reached(w, side, name)[0]


def locals_of(w, side, name):
    """functions that are not stages, part of a stage"""
    return reached(w, side, name)[1]


def reached(w, side, name):
    k = ('reached', side, name)
    if k in w.cache:
        return w.cache[k]
    p = w.prog(side, w.unit(name))
    f = w.fn(side, name)
    out, seen, work, loc = set(), set(), [f], set()
    while work:
        g = work.pop()
        if g is None or g.key in seen:
            continue
        seen.add(g.key)
        for c in g.d.get('calls_out', []) or callees(p, g):
            h = p.fns.get(c)
            if h is None:
                continue
            if h.name in UNIT and h.d.get('kind') in ('fn', 'method'):
                out.add(h.name)
            else:
                if h.d.get('kind') == 'fn':
                    loc.add(h.name)
                work.append(h)
    w.cache[k] = out, loc
    return w.cache[k]


def callees(p, g):
    """keys of workspace functions and closures mentioned in the body of g"""
    r = getattr(g, '_callees', None)
    if r is None:
        r = set()

        def go(x):
            if isinstance(x, dict):
                for k in ('key', 'def', 'fn', 'closure', 'path'):
                    v = x.get(k)
                    if isinstance(v, str):
                        if v in p.fns:
                            r.add(v)
                        elif v in p.by_path:
                            r.add(p.by_path[v].key)
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(g.d.get('blocks'))
        g._callees = r
    return r


def called(ts):
    """opaque functions whose results terms use (loops included)"""
    out, st, seen, ls = set(), list(ts), set(), set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'app' and str(x.a[0]).startswith('cut:'):
                out.add(str(x.a[0])[4:].split('#')[0])
            if x.op == 'fx' and x.a[0] == 'call':
                out.add(str(x.a[1]).split('::')[-1])
            for y in x.dep:
                if isinstance(y, str) and y in TM.LOOPS and y not in ls:
                    ls.add(y)
                    st.extend(TM.LOOPS[y].terms())
            st.extend(x.a)
    return out


def compare(w, name, view, without=()):
    """compare0, and where only one side calls a function, with that function's code included"""
    r = compare0(w, name, view, without)
    inl = tuple(without)
    for _ in range(3):
        if not r.mis and not r.note:
            return r
        a, b = w.stage('ref', name, inl), w.stage('cur', name, inl)
        try:
            cs = [called([x for _, x in viewfn(view)(o)]) for o in (a, b)]
        except Exception:
            return r
        known = set(w.cuts(name, inl))
        d = {n for n in cs[0] ^ cs[1] if n in known}
        if not d:
            return r
        inl = inl + tuple(sorted(d))
        q = compare0(w, name, view, inl)
        if not q.mis and not q.note or not r.violated:
            r = q if not q.note else r
    return r


def survives(o):
    """the entries of maps the function relies on are there"""
    if not hasattr(o, 'alive'):
        bad = FALSE
        for p in o.E.panics.values():
            c = TM.bnot(p['cond'])
            if p['kind'] in ('unwrap', 'expect') and not p['loops'] and not p['cond'].dep and any(x.op == 'has' for x in TM.atoms_of(c)) and len(TM.atoms_of(c)) < 8:
                bad = TM.bor(bad, p['cond'])
        o.alive = TM.bnot(bad)
    return o.alive


def compare0(w, name, view, without=()):
    k = ('cmp', name, view, tuple(sorted(without)))
    if k in w.cache:
        return w.cache[k]
    try:
        a, b = w.stage('ref', name, without), w.stage('cur', name, without)
        try:
            xs = viewfn(view)(a)
        except Exception as e:
            raise RuntimeError('reference view: %r' % e)
        ys = viewfn(view)(b)
        mis = []
        for (p, x), (q, y) in zip(xs, ys):
            D = Diff(w.C)
            D.deadline = w.deadline
            m = D.run(x, y, (p,))
            if m and (alive := survives(a)) is not TRUE:
                # only runs in which the confirmed code comes to an end count
                D = Diff(w.C)
                D.deadline = w.deadline
                m2 = D.run(engine.prune(x, alive, {}), engine.prune(y, alive, {}), (p,))
                m = m2 if len(m2) < len(m) or all(not q.definite for q in m2) else m
            mis += m
        r = Verdict(name, view, mis, '' if not b.E.unmodelled or b.E.unmodelled.keys() <= a.E.unmodelled.keys() else '', without)
    except circ.ParseError as e:
        r = Verdict(name, view, [], 'emitted text does not parse: %s' % e, without)
    except (RecursionError, Timeout, KeyError, IndexError, AttributeError, TypeError, ValueError, RuntimeError, AssertionError) as e:
        r = Verdict(name, view, [], 'not analysed: %s %s' % (type(e).__name__, str(e)[:200]), without)
    w.cache[k] = r
    return r
