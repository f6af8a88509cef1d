"""Structural rules.  Each rule is one function of a check.Run; it reports obligations through
R.ok (holds), R.bad (violated, with a construct) and R.unk (could not be decided)."""
import json, os, re
from terms import *
import terms as TM
import stages, circ, astx, facts, diff
from diff import Diff


# ------------------------------------------------------------------ generated text
def texts(R, side='cur'):
    """circuit text terms of the string interface (success leaves)"""
    o = R.w.stage(side, 'gen_circom_string')
    out, seen = [], set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'ite':
            go(t.a[1])
            go(t.a[2])
        elif t.op == 'rec' and t.a[1] == 'Ok':
            out.append(t.a[3][0])
    go(o.v)
    return out


def opaque(t):
    """the text has a part whose shape is unknown, outside of comments"""
    return any(x[0] == 'opq' for x in circ.flat(t))


def trees(R, rule):
    out = []
    for t in texts(R):
        try:
            out.append((t, stages.tree(t)))
        except circ.ParseError as e:
            definite(R, rule, 'gen_circom_string', t, e)
    return out


SOFT = ('alternative', 'opaque', 'computed', 'segment', 'list joined', 'list element', 'empty list')


def definite(R, rule, where, t, e):
    m = str(e)
    if m.startswith(SOFT) or any(s in m for s in ('<opq>', '<rep>', '<gam>', '<join>', '<h>')):
        R.unk(rule, '%s: %s' % (where, m[:200]))
    else:
        R.bad(rule, where, 'the emitted text is not complete circom: %s' % m[:300])


def assign_ops(R):
    """no assignment without a constraint is emitted"""
    for t, ss in trees(R, 'assign_ops'):
        n = [0]

        def f(s, ctx):
            if s[0] == 'assign':
                n[0] += 1
                if s[2] in ('<--', '-->'):
                    R.bad('assign_ops', 'gen_circom_string', 'a signal is assigned without a constraint: %s' % (astx.base(s[1]),))
        circ.walk(ss, f)
        R.ok('assign_ops', n[0], '%d emitted assignments and constraints' % n[0])


def parse(R):
    """every alternative of the emitted text is one complete template"""
    for t, ss in trees(R, 'parse'):
        ts = [s for s in ss if s[0] == 'template']
        if len(ts) != 1:
            R.bad('parse', 'gen_circom_string', 'the text has %d templates' % len(ts))
        else:
            n = ts[0][1]
            holes = [x for x in (n if not isinstance(n, str) else ()) if not isinstance(x, str)]
            if [x for x in holes if x.op == 'param' and x.a[0] == 'template_name'] and len(n) == 1:
                R.ok('parse', 1, 'one template named after the requested name')
            else:
                R.bad('parse', 'gen_circom_string', 'the template is not named after the requested name: %s' % (n,))
    full, plain = file_texts(R)
    for k, t in (('with reveal logic', full), ('without reveal logic', plain)):
        if t is None:
            R.unk('parse', 'text of the file %s not found' % k)
            continue
        for x in leaves_of(t):
            if x.op == 'bot':
                continue
            try:
                ss = stages.tree(x)
                n = len([s for s in ss if s[0] == 'template'])
                if n != 1:
                    R.bad('parse', 'gen_circom_template', 'the file %s has %d templates' % (k, n))
                else:
                    R.ok('parse', 1, 'file %s parses as one template' % k)
            except circ.ParseError as e:
                definite(R, 'parse', 'gen_circom_template (%s)' % k, x, e)


def leaves_of(t):
    out, seen = [], set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'ite':
            go(t.a[1])
            go(t.a[2])
        else:
            out.append(t)
    go(t)
    return out


def io_ok(t, memo=None):
    """every file operation succeeds"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t.op != 'ite':
            r = t
        else:
            a = t.a[0]
            isio = any(isinstance(x, T) and x.op == 'io' for x in a.a)
            if isio:
                r = io_ok(t.a[1] if 'Ok' in a.a else t.a[2], memo)
            else:
                r = ite(atom(a), io_ok(t.a[1], memo), io_ok(t.a[2], memo))
        memo[t] = r
    return r


def file_texts(R):
    """(text with reveal logic, text without) of the file interface, as diagrams"""
    if R.w.fn('cur', 'gen_circom_template') is None:
        return None, None
    o = R.w.stage('cur', 'gen_circom_template')
    fx = io_ok(stages.view_effects(o)[0][1])
    gs = next((a for a in TM.atoms_of(fx) if a.op == 'param' and a.a[0] == 'gen_substrs'), None)
    if gs is None:
        return None, None

    def text(x):
        if x.op == 'seq':
            if not x.a:
                return mk('bot')
            out = []
            for s in x.a:
                if s.op != 'one' or s.a[0].op != 'fx':
                    raise ValueError('effect ' + s.op)
                f = s.a[0]
                if f.a[0] == 'create' and out:
                    out = []
                elif f.a[0] == 'append':
                    out.append(f.a[2])
                elif f.a[0] == 'write':
                    out = [f.a[2]]
            return TM.cat(*out) if out else EMPTY
        raise ValueError('effects ' + x.op)

    def go(t):
        if t.op == 'ite':
            return ite(atom(t.a[0]), go(t.a[1]), go(t.a[2]))
        return text(t)
    bad = io_ok(stages.err_only(o.v))

    def both(val):
        return ite(TM.cof(bad, gs, val), mk('bot'), go(TM.cof(fx, gs, val)))
    return both(True), both(False)


def parity(R):
    """file text = string text"""
    full, plain = file_texts(R)
    if full is None:
        R.unk('parity', 'the text written to the file was not recovered')
        return
    s = unwrap(stages.ok_only(R.w.stage('cur', 'gen_circom_string').v))
    D = Diff(R.w.C)
    D.deadline = R.w.deadline
    ms = D.run(s, full, ('text',))
    decide(R, 'parity', 'gen_circom_template', ms, 'the file differs from the string interface: ', 'text of file and string interface agree')
    # without reveal logic: the same statements except the reveal group
    keep = stages.keeper(('header', 'msg', 'gates', 'state', 'accept'))

    def strip(t):
        if t.op == 'ite':
            return ite(atom(t.a[0]), strip(t.a[1]), strip(t.a[2]))
        if t.op == 'bot':
            return t
        return mk('ctext', astx.encode(stages.tree(t), keep))
    try:
        a, b = strip(full), strip(plain)
    except circ.ParseError as e:
        R.unk('parity', 'text does not parse: %s' % e)
        return
    D = Diff(R.w.C)
    D.deadline = R.w.deadline
    ms = D.run(a, b, ('text without reveal logic',))
    decide(R, 'parity', 'gen_circom_template', ms, 'without reveal logic the file has other statements: ', 'statements without reveal logic agree')
    for t in leaves_of(plain):
        if t.op == 'bot':
            continue
        bad = []

        def f(s, ctx):
            b = None
            if s[0] == 'assign':
                b = astx.base(s[1])
            elif s[0] == 'signal':
                b = s[2] if isinstance(s[2], str) else ''.join(x if isinstance(x, str) else '#' for x in s[2])
            if b in stages.GROUPS['reveal']:
                bad.append(b)
        circ.walk(stages.tree(t), f)
        if bad:
            R.bad('parity', 'gen_circom_template', 'reveal logic is written although it was not requested: %s' % sorted(set(bad)))
        else:
            R.ok('parity', 1, 'no reveal statement without reveal logic')


def decide(R, rule, where, ms, what, good):
    if not ms:
        R.ok(rule, 1, good)
    elif all(m.definite for m in ms):
        R.bad(rule, where, what + '; '.join(m.text(4) for m in ms[:3]), [x for m in ms for x in m.spans()])
    else:
        R.unk(rule, what + '; '.join(m.text(3)[:200] for m in ms[:2]))


def padding(R):
    """a text that is longer than the length asked for is not cut"""
    o = R.w.stage('cur', 'pad_string')
    if o is None:
        return
    c = stages.fits(o)
    text = o.E.args[0]
    if c.op != 'ite':
        return
    over = c.a[1] is not TRUE
    v = TM.cof(stages.lifted(o.v), c.a[0], over)
    n = 0
    for q in o.E.panics.values():
        # an overflow is only noticed in a debug build
        if not q['kind'].startswith('assert:attempt') and not q['loops'] and TM.cof(band(q['cond'], q['know']), c.a[0], over) is TRUE:
            R.ok('padding', 1, 'a longer text is refused')
            return
    for _, l in TM.leaves(v):
        n += 1
        t = l
        if t.op == 'rec' and t.a[1] in ('Ok', 'Some') and t.a[3]:
            t = t.a[3][0]
        elif t.op == 'rec' and t.a[1] in ('Err', 'None'):
            R.ok('padding', 1, 'a longer text is an error')
            continue
        if t.op in ('bot', 'never'):
            R.ok('padding', 1, 'a longer text has no result')
            continue
        ss = TM.segs(t) if t.op == 'seq' else ()
        if t is text or ss and ss[0].op == 'spl' and ss[0].a[0] is text:
            R.ok('padding', 1, 'a longer text is kept whole')
        elif t.op in ('take', 'drop') and t.a[0] is text or t is TM.EMPTY or ss and ss[0].op == 'spl' and ss[0].a[0].op in ('take', 'drop') and ss[0].a[0].a[0] is text:
            R.bad('padding', 'pad_string', 'a text longer than the length asked for is cut: %s' % TM.show(t, 5), [t.sp] if t.sp else [])
        else:
            R.unk('padding', 'longer text: %s' % TM.show(t, 4)[:200])


def entries(t, out):
    """every element written in a sequence, under whatever condition"""
    if t.op == 'ite':
        entries(t.a[1], out)
        entries(t.a[2], out)
    elif t.op == 'seq':
        for x in t.a:
            if x.op == 'one':
                out.append(x.a[0])
            elif x.op in ('gam', 'spl'):
                entries(x.a[0], out)
    return out


def pieces(t, out):
    """parts a text is made of: ('lit',), ('num', term), ('rep', loop, parts), ('?',)"""
    for s in TM.segs(t) if t.op == 'seq' else ():
        if s.op == 'lit':
            out.append(('lit', s.a[0]))
        elif s.op == 'hole':
            out.append(('num', s.a[0]))
        elif s.op == 'one':
            for x in s.a[0].a[3] if s.a[0].op == 'rec' else (s.a[0],):
                if x.op == 'seq':
                    pieces(x, out)
                else:
                    out.append(('num', x) if diff.number(x) else ('?',))
        elif s.op == 'rep':
            ls = [x for _, x in TM.leaves(s.a[1])]
            sub = [pieces(x, []) for x in ls if x is not TM.EMPTY]
            out.append(('rep', s.a[0], sub))
        else:
            out.append(('?',))
    return out


def sources(t):
    """loop-carried values a number is taken from"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('mu', 'fin', 'finx'):
            out.add(x.a[1])
        elif x.op == 'ite':
            st.extend(x.a[1:])
        else:
            st.extend(y for y in x.a if isinstance(y, T))
    return out


def lossy(k):
    """reason why different lists can have the text k; None if they cannot, or it is unknown ('?')"""
    if diff.summary(k):
        return 'the key is made of a fixed number of numbers'
    sep = True
    body = k
    if k.op == 'fld' and k.a[0].op == 'app' and str(k.a[0].a[0]).startswith('serde_json::to_'):
        body = k.a[0].a[1]
    elif k.op == 'seq' and len(k.a) == 1 and k.a[0].op == 'join':
        body = k.a[0].a[0]
        sep = k.a[0].a[1] is not TM.EMPTY
    elif k.op == 'seq' and len(k.a) == 1 and k.a[0].op == 'hole' and k.a[0].a[0].op == 'seq':
        body = k.a[0].a[0]
    else:
        sep = False
    ps = pieces(body, [])
    if not ps or any(p[0] == '?' for p in ps):
        return '?'
    reps = [p for p in ps if p[0] == 'rep']
    if any(q[0] != 'num' and q[0] != 'lit' for p in reps for x in p[2] for q in x):
        return '?'
    if not sep:
        for p in reps:
            # the digits of consecutive numbers run together
            if p[2] and all(len(x) == 1 and x[0][0] == 'num' and diff.number(x[0][1]) for x in p[2]):
                return 'the numbers of a list are written one after the other without a separator'
    if len(ps) == 2 and len(reps) == 2:
        xs = [[q for x in p[2] for q in x] for p in reps]
        if all(x and all(q[0] == 'num' for q in x) for x in xs):
            a, b = [set().union(*[sources(q[1]) for q in x]) for x in xs]
            if a and b and not a & b:
                return 'numbers of two kinds (%s and %s) are listed without saying which is which' % (sorted(a)[0].split('@')[0], sorted(b)[0].split('@')[0])
    return None if sep or any(q[0] == 'lit' for p in reps for x in p[2] for q in x) else '?'


def cache_keys(R):
    """an emitted gate is looked up under a text that tells different sets of inputs apart"""
    o = R.w.stage('cur', 'gen_circom_string')
    if o is None:
        return
    seen = set()
    for k, L in list(TM.LOOPS.items()):
        if k.startswith('R:'):
            continue
        for n, (i, x) in L.cells.items():
            if x.op != 'map':
                continue
            for e in entries(x.a[0], []):
                if e.op != 'rec' or len(e.a[3]) != 2:
                    continue
                key = TM.fld(e, '0')
                if not (key.op == 'seq' or key.op == 'fld' and key.a[0].op == 'app') or key in seen:
                    continue
                seen.add(key)
                why = lossy(key)
                if why == '?':
                    R.unk('cache_keys', '%s: %s' % (n.split('@')[0], TM.show(key, 5)[:160]))
                elif why:
                    R.bad('cache_keys', k.split('.')[0], 'different inputs share an entry of %s: %s (%s)' % (n.split('@')[0], why, TM.show(key, 5)[:160]), [key.sp] if key.sp else [])
                else:
                    R.ok('cache_keys', 1, '%s: %s' % (n.split('@')[0], TM.show(key, 4)[:160]))


def unwrap(t):
    if t.op == 'ite':
        return ite(atom(t.a[0]), unwrap(t.a[1]), unwrap(t.a[2]))
    return t.a[3][0] if t.op == 'rec' and t.a[1] == 'Ok' else t


def leftover(t, ch):
    """can the character ch of regex text still be in the text t?  None: not known"""
    if t.op in ('fld', 'param'):
        return regex_text(t)
    if not mentions(t, regex_text):
        return False
    if t.op == 'ite':
        return either(t.a[0], leftover(t.a[1], ch), leftover(t.a[2], ch), ch)
    if t.op == 'seq':
        return worst([leftover(s, ch) for s in t.a])
    if t.op == 'lit':
        return False
    if t.op in ('spl', 'one', 'hole'):
        if t.op == 'hole' and len(t.a) > 1 and str(t.a[1]).startswith('?'):
            return False
        return leftover(t.a[0], ch)
    if t.op in TRIMS or t.op in ('trunc', 'drop', 'take', 'chars', 'bytes'):
        return leftover(t.a[0], ch)
    if t.op == 's_replacen':
        few = len(t.a) == 4 and t.a[3].op == 'int' and t.a[3].a[0] < 1 << 16
        return leftover(t.a[0], ch) if few else None
    if t.op == 'lines':
        # a carriage return is only taken off in front of a line feed
        return leftover(t.a[0], ch) if ch != '\n' else False
    if t.op == 'split_whitespace':
        return False
    if t.op == 's_split' and len(t.a) > 1 or t.op == 'replace':
        r = leftover(t.a[0], ch)
        if t.op == 'replace':
            to = literal(t.a[2])
            if to is None or ch in to:
                # what it puts in may be the character again
                return None if to is None or not r else True
        if r is not True:
            return r
        f = literal(t.a[1])
        if f is not None:
            return f != ch
        if t.a[1].op == 'oneof':
            q = t.a[1].a[0]
            el = q if isinstance(q, tuple) else q.a if isinstance(q, T) and q.op == 'seq' else None
            if el is not None:
                cs = [literal(x if x.op == 'chr' else mk('seq', x)) if isinstance(x, T) else x for x in el]
                if None not in cs:
                    return ch not in cs
        return None
    if t.op == 'join':
        sep = literal(t.a[1])
        return None if sep is None or ch in sep else leftover(t.a[0], ch)
    if t.op == 'app' and str(t.a[0]).rsplit('::', 1)[-1] in ('escape_debug', 'escape_default', 'escape_unicode'):
        return False
    if t.op == 'at':
        return leftover(t.a[0], ch)
    return None


def worst(rs):
    return True if True in rs else None if None in rs else False


def given(c, ch):
    """the condition, where the regex text has the character ch and the element looked at is ch; '*' either way"""
    if c.op == 'ite':
        a = given(c.a[0], ch)
        if a in (True, False):
            return given(c.a[1] if a else c.a[2], ch)
        x, y = given(c.a[1], ch), given(c.a[2], ch)
        return x if x == y else '*' if a == '*' and None not in (x, y) else None
    if c.op in ('true', 'false'):
        return c.op == 'true'
    if not mentions(c, regex_text):
        return '*'
    if c.op == 'eq0' and c.a[0].op == 'lin' and len(c.a[0].a[1]) == 2 and not c.a[0].a[0]:
        (x, i), (y, j) = c.a[0].a[1]
        if y.op == 'chr':
            x, y = y, x
        if x.op == 'chr' and i == -j and y.op == 'at' and leftover(y, ch):
            return chr(x.a[0]) == ch
    if c.op == 'strhas' and regex_text(c.a[0]):
        f = literal(c.a[1])
        if f is not None:
            return True if f == ch else '*' if ch not in f else None
    return None


def either(c, a, b, ch):
    g = given(c if isinstance(c, T) else T('true'), ch)
    if g is True or g is False:
        return a if g else b
    return worst([a, b]) if g == '*' else a if a == b else None


def printed(toks, ch):
    """can the character ch of regex text be printed by these tokens?  None: not known"""
    rs = []
    for s in toks:
        if s[0] == 'lit' or s[0] == 'hole' and s[2].startswith('?'):
            continue
        if s[0] in ('hole', 'opq'):
            rs.append(leftover(s[1], ch))
        elif s[0] == 'rep':
            rs.append(printed(s[2], ch))
        elif s[0] == 'gam':
            rs.append(either(s[1], printed(s[2], ch), printed(s[3], ch), ch))
        elif s[0] in ('cat', 'one'):
            rs.append(printed(s[1], ch))
        elif s[0] == 'join':
            rs.append(printed(s[2], ch))
            if isinstance(s[1], str) and ch in s[1]:
                rs.append(None if any(mentions(x, regex_text) for x in s[2]) else False)
        elif mentions(s, regex_text):
            rs.append(None)
    return worst(rs)


TRIMS = ('trim', 'trim_start', 'trim_end', 's_trim_matches', 's_trim_end_matches', 's_trim_start_matches', 'to_lowercase', 'to_uppercase',
         'to_ascii_lowercase', 'to_ascii_uppercase')


def literal(t):
    if t.op == 'seq' and all(s.op == 'lit' or (s.op == 'one' and s.a[0].op == 'chr') for s in t.a):
        return ''.join(s.a[0] if s.op == 'lit' else chr(s.a[0].a[0]) for s in t.a)
    if t.op == 'chr':
        return chr(t.a[0])
    return None


def mentions(t, pred, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, (tuple, list)):
        return any(mentions(x, pred, seen) for x in t)
    if not isinstance(t, T) or t in seen:
        return False
    seen.add(t)
    return pred(t) or any(mentions(x, pred, seen) for x in t.a)


def regex_text(t):
    return t.op == 'fld' and 'regex_pattern' in t.a or t.op == 'param' and 'regex' in str(t.a[0]) and 'and_dfa' not in str(t.a[0])


def comment(R):
    """regex text only inside line comments, line breaks escaped"""
    for t, ss in trees(R, 'comment'):
        n = 0
        for c in astx.comments(ss):
            vs = [s[1] for s in flatsegs(c) if s[0] != 'lit']
            text = [v for v in vs if mentions(v, regex_text)]
            n += len(vs) - len(text)
            if not text:
                continue
            sp = [v.sp for v in text if v.sp][:1]
            rs = {x: printed(c, x) for x in '\n\r'}
            raw = [x for x in rs if rs[x]]
            if raw:
                R.bad('comment', 'gen_circom_string', 'regex text is printed without escaping %s' % ' and '.join(map(repr, raw)), sp)
            elif None in rs.values():
                R.unk('comment', 'regex text reaches a comment through ' + TM.show(text[0], 4)[:160])
            else:
                R.ok('comment', 1, 'regex text is printed in a comment with both line breaks replaced')
        R.ok('comment', 1, '%d other values printed in comments' % n)
        try:
            code = astx.encode(ss)
            if mentions(code, regex_text):
                R.bad('comment', 'gen_circom_string', 'regex text is printed outside a comment')
            else:
                R.ok('comment', 1, 'no regex text outside comments')
        except ValueError as e:
            R.unk('comment', str(e))


def comment_lines(R):
    """no value inside a line comment is printed over several lines"""
    for t, ss in trees(R, 'comment_lines'):
        n = 0
        for c in astx.comments(ss):
            for s in flatsegs(c):
                if s[0] == 'hole':
                    n += 1
                    if pretty(s[2]) and multiline(s[1]):
                        R.bad('comment_lines', 'gen_circom_string', 'a list is printed over several lines ({:#?}) inside a line comment: the lines after the first are circuit text', [s[1].sp] if s[1].sp else [])
        R.ok('comment_lines', n, '%d values printed in line comments, none pretty-printed' % n)


def pretty(kind):
    """format spec of {:#?}"""
    m = re.match(r'\?f([0-9a-f]{8})', kind)
    return bool(m) and bool(int.from_bytes(bytes.fromhex(m.group(1)), 'little') >> 23 & 1)


def multiline(v):
    """the value is a collection: {:#?} breaks the line between its items"""
    return v.op in ('seq', 'sort', 'map', 'set', 'rev', 'filter', 'keys', 'values', 'entries', 'uniq', 'rec', 'tup', 'sorted', 'app', 'fld', 'param', 'at', 'mget', 'ite')


def flatsegs(c):
    for s in c:
        if s[0] in ('lit', 'hole', 'opq'):
            yield s
        elif s[0] == 'rep':
            yield from flatsegs(s[2])
        elif s[0] == 'gam':
            yield from flatsegs(s[2])
            yield from flatsegs(s[3])
        elif s[0] == 'cat':
            yield from flatsegs(s[1])
        elif s[0] == 'join':
            for x in s[2]:
                if x[0] == 'one':
                    yield from flatsegs(x[1])
                elif x[0] == 'rep':
                    for y in x[2]:
                        yield from flatsegs(y[1]) if y[0] == 'one' else flatsegs([y])
                elif x[0] == 'opq':
                    yield x


# ------------------------------------------------------------------ front end
ESC = {'\\n': 10, '\\r': 13, '\\t': 9, '\\v': 11, '\\f': 12, '\\0': 0, '\\"': 34, "\\'": 39, '\\': 92, ' ': 32, '\\\\': 92, "' '": 32}


def label_table(R):
    """escape table entries mean what they say"""
    o = R.w.stage('cur', 'create_special_char_mappings') if R.w.fn('cur', 'create_special_char_mappings') else None
    if o is None or o.v.op != 'map':
        R.unk('label_table', 'the escape table is not a constant map')
        return
    q = o.v.a[0]
    for s in (q.a if q.op == 'seq' else ()):
        if s.op != 'one':
            R.unk('label_table', 'computed entry')
            continue
        k, v = s.a[0].a[3] if s.a[0].op == 'rec' else (None, None)
        ks = literal(k) if k is not None else None
        if ks is None or v.op not in ('int', 'chr'):
            R.unk('label_table', 'computed entry')
        elif ks in ESC:
            if ESC[ks] != v.a[0]:
                R.bad('label_table', 'create_special_char_mappings', 'label %r is decoded as byte %d' % (ks, v.a[0]), [s.sp] if s.sp else [])
            else:
                R.ok('label_table', 1, '%r -> %d' % (ks, v.a[0]))
        else:
            R.unk('label_table', 'label %r is not known' % ks)


# ------------------------------------------------------------------ call graph
EFFECTS = [
    ('creates or writes files', re.compile(r'std::fs::(write|File::(create|create_new|options)|OpenOptions)|tempfile::')),
    ('changes the file system', re.compile(r'std::fs::(remove|rename|create_dir|copy|set_perm|hard_link|DirBuilder)|std::os::unix::fs')),
    ('reads files', re.compile(r'std::fs::(read|File::open|metadata|canonicalize|symlink_metadata|exists)|std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize)')),
    ('uses the network', re.compile(r'std::net::|std::os::unix::net')),
    ('starts processes', re.compile(r'std::process::(Command|Child)')),
    ('ends the process', re.compile(r'std::process::(exit|abort)$')),
    ('reads the environment', re.compile(r'std::env::(var|vars|current_dir|args|temp_dir|home_dir|current_exe|set_var|remove_var|set_current_dir)')),
    ('uses threads', re.compile(r'std::thread::(spawn|scope|Builder|sleep)|std::sync::mpsc')),
    ('reads the clock', re.compile(r'std::time::(SystemTime|Instant).*(now|elapsed)')),
    ('uses randomness', re.compile(r'\brand::|getrandom|RandomState|fastrand|std::collections::hash_map::DefaultHasher|Math::random')),
]


def calls(f):
    for b in f.d.get('blocks') or []:
        t = b['t']
        if t.get('t') == 'call' and t['f'].get('k') == 'fn':
            yield t


def graph(R, side, unit):
    k = ('graph', side, unit)
    if k not in R.w.cache:
        p = R.w.prog(side, unit)
        own = {}
        for key, f in p.fns.items():
            cs = set()
            for t in calls(f):
                pth = t['f'].get('rpath') or t['f']['path']
                for c, rx in EFFECTS:
                    if rx.search(pth):
                        cs.add((c, pth, t['sp']))
            own[key] = cs
        R.w.cache[k] = own
    return R.w.cache[k]


def reach_effects(R, side, name):
    f = R.w.fn(side, name)
    if f is None:
        return None, 0
    unit = stages.UNIT[name]
    p = R.w.prog(side, unit)
    own = graph(R, side, unit)
    seen, work, out = {f.key}, [f], {}
    while work:
        g = work.pop()
        for c, pth, sp in own.get(g.key, ()):
            out.setdefault(c, []).append((pth, sp, g.path))
        for k in stages.callees(p, g):
            if k not in seen:
                seen.add(k)
                h = p.fns.get(k)
                if h is not None:
                    work.append(h)
    return out, len(seen)


def effects(R):
    """who may call: effect classes reachable from every public entry"""
    for n in sorted(stages.PUBLIC):
        ref, _ = reach_effects(R, 'ref', n)
        cur, k = reach_effects(R, 'cur', n)
        if cur is None or ref is None:
            continue
        new = set(cur) - set(ref)
        for c in sorted(new):
            pth, sp, fn = cur[c][0]
            R.bad('effects', n, '%s: %s reached through %s' % (c, pth, fn), [sp])
        if not new:
            R.ok('effects', 1, '%s: %d functions reachable, effects: %s' % (n, k, ', '.join(sorted(cur)) or 'none'))


HASHC = re.compile(r'Hash(Map|Set)\b')
HASHIT = {'iter', 'into_iter', 'keys', 'values', 'drain', 'into_keys', 'into_values', 'iter_mut', 'values_mut', 'difference', 'union', 'intersection',
          'symmetric_difference', 'extract_if'}
FREE = {'any', 'all', 'count', 'sum', 'min', 'max', 'product', 'contains', 'len', 'is_empty', 'min_by', 'max_by', 'for_each_free'}
ADAPT = {'map', 'filter', 'cloned', 'copied', 'filter_map', 'flat_map', 'flatten', 'into_iter', 'chain', 'inspect', 'by_ref', 'iter', 'deref', 'deref_mut', 'clone', 'as_ref',
         'borrow', 'as_slice', 'as_mut_slice'}
ORDERED = re.compile(r'BTree(Map|Set)|BinaryHeap|Hash(Map|Set)')


def determinism(R):
    """no ambient input, no iteration over hash containers whose order can reach the output"""
    for unit in (0, 1):
        p = R.w.prog('cur', unit)
        own = graph(R, 'cur', unit)
        nf = nc = 0
        for key, f in sorted(p.fns.items()):
            if f.d.get('derived'):
                continue
            nf += 1
            for c, pth, sp in own[key]:
                if c in ('reads the environment', 'uses threads', 'reads the clock', 'uses randomness'):
                    R.bad('determinism', f.path, '%s: %s' % (c, pth), [sp])
            for t in calls(f):
                nc += 1
                fd = t['f']
                nm = fd.get('name', '')
                pth = fd.get('rpath') or fd['path']
                args = fd.get('args') or []
                aty = argty(f, t['a'][0]) if t['a'] else ''
                on = HASHC.search(strip_outer(aty)) or HASHC.search(pth.split('::' + nm)[0])
                if nm in HASHIT and on:
                    hash_iter(R, f, t)
                if 'fmt' in pth and nm in ('new_debug', 'new_display', 'fmt') and any(HASHC.search(a) for a in args):
                    R.bad('determinism', f.path, 'a hash container is printed', [t['sp']])
                if nm in ('serialize', 'to_string', 'to_value', 'to_vec') and any(HASHC.search(a) for a in args):
                    R.bad('determinism', f.path, 'a hash container is serialised', [t['sp']])
                if re.search(r'ptr::(addr|const_ptr|mut_ptr).*addr|expose_provenance|new_pointer', pth):
                    R.bad('determinism', f.path, 'an address is used as a value', [t['sp']])
        R.ok('determinism', nc, '%d calls in %d functions of %s' % (nc, nf, facts.NAMES[unit]))


def strip_outer(ty):
    """head constructor of a type, references removed"""
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty or '')
    return ty.split('<')[0]


def argty(f, a):
    if a.get('k') in ('copy', 'move') and len(a['p']) == 1:
        return f.locals[a['p'][0]]
    return a.get('ty', '') if a.get('k') == 'c' else ''


def hash_iter(R, f, t):
    """where does the order of this iteration go (forward flow over the locals of f)"""
    taint, work = set(), []
    if t['d'] and len(t['d']) == 1:
        taint.add(t['d'][0])
    uses, changed = [], True
    while changed:
        changed = False
        for b in f.d['blocks']:
            for s in b['s']:
                if any(x in taint for x in locals_in(s['v'])) and s['d'][0] not in taint:
                    taint.add(s['d'][0])
                    changed = True
            u = b['t']
            if u.get('t') == 'call' and u is not t and any(a.get('k') in ('copy', 'move') and a['p'][0] in taint for a in u['a']):
                nm = u['f'].get('name', '') if u['f'].get('k') == 'fn' else ''
                if (b['t'], nm) not in [(x, y) for x, y in uses]:
                    uses.append((u, nm))
                if nm in ADAPT or nm == 'next':
                    if u['d'][0] not in taint and nm != 'next':
                        taint.add(u['d'][0])
                        changed = True
    bad, unk = [], []
    srt = [sort_kind(R, f, c, t) for c in calls(f) if c['f'].get('name', '').startswith('sort')]
    if 'partial' in srt and not any(x in ('total', 'unknown') for x in srt):
        srt = []
    for u, nm in uses:
        if nm in FREE or nm in ADAPT or nm in ('drop', 'size_hint', 'reserve'):
            continue
        if nm in ('collect', 'extend', 'from_iter', 'collect_vec', 'sorted'):
            tys = ' '.join(u['f'].get('args') or [])
            dst = strip_outer(f.locals[u['d'][0]]) if nm != 'extend' else strip_outer(argty(f, u['a'][0]))
            if ORDERED.search(dst) or nm == 'sorted' or srt and all(x == 'total' for x in srt):
                continue
            (unk if srt else bad).append(nm)
            continue
        if nm == 'next':
            body = [c['f'].get('name', '') for c in calls(f)]
            snk = [x for x in body if x in ('push', 'push_str', 'push_back', 'write_fmt', 'write_str', 'write_all', 'format', 'fmt')]
            (bad if snk and not srt else unk).append('loop')
            continue
        if nm in ('find', 'position', 'enumerate', 'zip', 'fold', 'join', 'for_each', 'last', 'nth', 'take', 'skip', 'first', 'rev', 'peekable', 'reduce', 'try_fold'):
            (unk if srt else bad).append(nm)
            continue
        unk.append(nm)
    if bad:
        R.bad('determinism', f.path, 'the iteration order of a hash container decides the result (%s)' % ', '.join(sorted(set(bad))), [t['sp']])
    elif unk:
        R.unk('determinism', '%s: iteration over a hash container (%s)' % (f.path, ', '.join(sorted(set(unk)))))
    else:
        R.ok('determinism', 1, '%s: iteration over a hash container, order not used' % f.path)


def sort_kind(R, f, c, t):
    """does this sort leave no freedom to elements that came out of a hash container in any order?"""
    nm = c['f'].get('name', '')
    if nm in ('sort', 'sort_unstable', 'sorted', 'sorted_unstable'):
        return 'total'
    args = c['f'].get('args') or []
    m = re.match(r"&*(?:'\w+ )?\((.*)\)$", strip_ref(args[0])) if args else None
    if not m:
        return 'unknown'
    n = len(split_top(m.group(1)))
    if 'HashMap' in (argty(f, t['a'][0]) if t['a'] else ''):
        need = {0}            # keys are unique
    else:
        need = set(range(n))
    have = set()
    for k in c['f'].get('closures') or []:
        g = R.w.prog('cur', 0).fns.get(k) or R.w.prog('cur', 1).fns.get(k)
        if g is None:
            return 'unknown'
        if any(x['f'].get('local') for x in calls(g)):
            return 'unknown'

        def go(x):
            if isinstance(x, dict):
                ps = x.get('p')
                if isinstance(ps, list) and ps and isinstance(ps[0], int):
                    have.update(y[1] for y in ps[1:] if isinstance(y, list) and len(y) > 1 and y[0] == 'f')
                for y in x.values():
                    go(y)
            elif isinstance(x, list):
                for y in x:
                    go(y)
        go(g.d['blocks'])
    if not have:
        return 'unknown'
    return 'unknown' if need <= have else 'partial'


def strip_ref(ty):
    return re.sub(r"^(&('\w+ )?(mut )?)+", '', ty or '')


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '<([{'
        d -= ch in '>)]}'
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x for x in out + [cur] if x.strip()]


def locals_in(v):
    out = []

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get('p'), list) and x['p'] and isinstance(x['p'][0], int):
                out.append(x['p'][0])
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(v)
    return out


PANICS = ('unwrap', 'expect', 'panic', 'unreachable', 'index', 'assert', 'divzero')


def free_choice(c):
    """the condition only compares sizes of the input, or what a library says about it, with constants"""
    def size(t):
        if t.op == 'len':
            t = t.a[0]
            while t.op in ('fld', 'at'):
                t = t.a[0]
            return t.op in ('param', 'app') and not str(t.a[0]).startswith('cut:')
        return t.op == 'app' and not str(t.a[0]).startswith('cut:') and all(not isinstance(z, T) or size(z) or z.op in ('fld', 'param') for z in t.a[1:])
    n = 0
    for x in TM.atoms_of(c):
        if x.op in ('eq0', 'ge0'):
            k, vs = TM.lin_parts(x.a[0])
            if len(vs) == 1 and size(vs[0][0]):
                n += abs(k) > 1
                continue
            if x.op == 'eq0' and vs[0][0].op == 'len' and vs[0][0].a[0].op == 'mu':
                continue
        if x.op == 'is' and (x.a[0].op == 'app' or x.a[0].op == 'param'):
            continue
        return False
    return n > 0


def panics(R, which):
    """panics on conditions the confirmed tree does not panic on"""
    us = {'*compiler': (0, 2), '*apis': (1, 3)}[which]
    for s in stages.UNIT:
        if stages.UNIT[s] not in us or R.w.fn('ref', s) is None or R.w.fn('cur', s) is None:
            continue
        if not R.w.stable(s):
            continue
        try:
            a, b = R.w.stage('ref', s), R.w.stage('cur', s)
        except Exception as e:
            R.unk('panics', '%s: %s' % (s, e))
            continue

        def hard(o):
            return [p for p in o.E.panics.values() if p['kind'] in ('unwrap', 'expect', 'panic', 'unreachable') or p['kind'].startswith(('panic', 'divzero', 'assert:Div', 'assert:Rem'))
                    or p['kind'].startswith('never:core::panicking::') and free_choice(p['cond'])]
        A, B = hard(a), hard(b)
        if len(B) <= len(A):
            R.ok('panics', max(1, len(B)), '%s: %d guarded panic sites' % (s, len(B)))
            continue
        # which conditions are new
        have = [R.w.C.col(TM.band(p['know'], p['cond'])) for p in a.E.panics.values()] if hasattr(R.w.C, 'col') else []
        new = [p for p in B if R.w.C.col(TM.band(p['know'], p['cond'])) not in have] if have is not None else B
        if not new:
            R.ok('panics', len(B))
            continue
        # the condition can be met: an uninterpreted failure of a value that depends on the input
        for p in new[:len(B) - len(A)]:
            R.bad('panics', s, '%s that can be reached: fails when %s' % (p['kind'], show(p['cond'], 5)[:200]), [p['sp']])


# ------------------------------------------------------------------ command line
def options(R, side):
    """{subcommand: {id: (short, long)}} and whether -h is free, from the parser construction"""
    p = R.w.prog(side, 2)
    fs = [f for f in p.fns.values() if f.name == 'augment_subcommands' and '::<Commands' in f.path]
    if not fs:
        return None
    f = fs[0]
    out, free, cur, arg, more = {}, {}, None, None, {}
    pos = {}

    def lit_(a):
        for k in ('str', 'char', 'bool', 'int'):
            if k in a:
                return a[k]
        return None
    # resolve moved constants: short(c) often takes a literal directly
    for b in f.rpo:
        t = f.blocks[b]['t']
        if t.get('t') != 'call' or t['f'].get('k') != 'fn':
            continue
        pth, nm = t['f']['path'], t['f'].get('name')
        if pth.endswith('clap::Command::new'):
            cur = lit_(t['a'][0])
            out.setdefault(cur, {})
            free.setdefault(cur, False)
        elif pth.endswith('clap::Arg::new'):
            arg = lit_(t['a'][0])
            if cur is not None:
                out[cur][arg] = [None, None]
        elif pth.endswith('clap::Arg::short') and cur is not None and arg in out[cur]:
            x = lit_(t['a'][1])
            out[cur][arg][0] = chr(x) if isinstance(x, int) else x
        elif pth.endswith('clap::Arg::long') and cur is not None and arg in out[cur]:
            out[cur][arg][1] = lit_(t['a'][1])
        elif nm == 'disable_help_flag' and cur is not None:
            free[cur] = True
        elif '::Arg::' in pth and nm not in COSMETIC and cur is not None and arg in out[cur]:
            more.setdefault((cur, arg), []).append((nm, tuple(str(lit_(a)) for a in t['a'][1:])))
    return out, free, f, more


COSMETIC = {'help', 'long_help', 'value_name', 'value_names', 'help_heading', 'display_order', 'hide', 'hide_default_value', 'hide_possible_values', 'hide_short_help', 'hide_long_help',
            'next_line_help', 'visible_alias', 'visible_aliases', 'alias', 'aliases', 'short_alias', 'short_aliases', 'visible_short_alias', 'value_hint', 'id', 'value_parser',
            'action', 'new'}


def cli_options(R):
    r = options(R, 'cur')
    q = options(R, 'ref')
    if r is None or q is None or not any(r[0].values()):
        R.unk('cli_options', 'the option tables were not found')
        return
    out, free, f, more = r
    for (c, i) in sorted(set(more) | set(q[3]), key=str):
        if i in out.get(c, {}) and i in q[0].get(c, {}):
            a, b = q[3].get((c, i), []), more.get((c, i), [])
            for nm, xs in sorted(set(a) ^ set(b)):
                R.bad('cli_options', c, 'option %s: %s(%s) %s' % (i, nm, ', '.join(xs), 'added' if (nm, xs) in b else 'is gone'))
    for c, t in out.items():
        shorts, longs = {}, {}
        for i, (s, l) in t.items():
            if s is not None:
                if s in shorts:
                    R.bad('cli_options', c, 'option -%s is defined for both %s and %s' % (s, shorts[s], i))
                shorts[s] = i
            if l is not None:
                if l in longs:
                    R.bad('cli_options', c, 'option --%s is defined for both %s and %s' % (l, longs[l], i))
                longs[l] = i
        if 'h' in shorts and not free.get(c):
            if i != 'help':
                R.bad('cli_options', c, 'option -h of %s collides with the help flag' % shorts['h'])
        R.ok('cli_options', len(t), '%s: %s' % (c, ', '.join('-%s --%s' % tuple(x) for x in t.values())))
    for c, t in q[0].items():
        if c not in out:
            R.bad('cli_options', str(c), 'the command no longer exists')
            continue
        for i, (s, l) in t.items():
            if i not in out[c]:
                # renamed field: same option names elsewhere
                if [s, l] not in [list(x) for x in out[c].values()]:
                    R.bad('cli_options', c, 'option -%s --%s no longer exists' % (s, l))
            elif list(out[c][i]) != [s, l]:
                R.bad('cli_options', c, 'option %s is now -%s --%s instead of -%s --%s' % (i, out[c][i][0], out[c][i][1], s, l))


# ------------------------------------------------------------------ bundled circuits
CIRC = 'packages/circom/circuits'


def lib(R):
    import bundle
    if 'lib' not in R.w.cache:
        R.w.cache['lib'] = bundle.Lib(facts.REPO)
    return R.w.cache['lib']


def definitions(R):
    """[(definition file, parts, template)] by file name"""
    L = lib(R)
    d = os.path.join(facts.REPO, CIRC, 'common')
    out = []
    for j in sorted(os.listdir(d)):
        if j.endswith('.json'):
            fn = 'common/%s_regex.circom' % j[:-5]
            ts = [t for t in L.t if L.where[t] == fn]
            out.append((j, json.load(open(os.path.join(d, j)))['parts'], ts))
    return out


def guarded(R, rule, what, f):
    import bundle
    try:
        return f()
    except (bundle.Unsupported, KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
        R.unk(rule, '%s: %s %s' % (what, type(e).__name__, str(e)[:200]))
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()


def analysed(R):
    """language analysis of every circuit with a definition"""
    if 'analysed' in R.w.cache:
        return R.w.cache['analysed']
    import bundle
    L = lib(R)
    out = []
    for j, parts, ts in definitions(R):
        if not ts:
            errs = [e for e in L.err if e.startswith('common/%s_regex.circom' % j[:-5])]
            out.append((j, parts, None, None, 'no circuit' + (': ' + L.err[errs[0]] if errs else '')))
            continue
        for t in ts:
            if L.t[t] is None:
                out.append((j, parts, t, None, 'not understood'))
                continue
            used, work = set(), [t]
            while work:
                x = work.pop()
                for a in L.t[x].asg if L.t.get(x) is not None else []:
                    us = set()
                    insts(a.rhs, us)
                    work += us - used
                    used |= us
            unknown = sorted(u for u in used if u in L.t and L.t[u] is None or u not in L.t and u not in bundle.LIB)
            if unknown:
                out.append((j, parts, t, None, 'uses %s, which is not understood' % ', '.join(unknown)))
                continue
            try:
                out.append((j, parts, t, bundle.check_language(L, t, [p['regex_def'] for p in parts]), None))
            except (bundle.Unsupported, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                out.append((j, parts, t, None, '%s %s' % (type(e).__name__, e)))
    R.w.cache['analysed'] = out
    return out


def report(R, rule, where, bad, unk, n, sample):
    for b in dict.fromkeys(bad):
        R.bad(rule, where, b)
    for u in dict.fromkeys(unk):
        R.unk(rule, '%s: %s' % (where, u))
    R.ok(rule, n, sample)


def b_language(R):
    import bundle
    L = lib(R)
    for j, parts, t, r, why in analysed(R):
        if r is None:
            R.unk('b_language', '%s: %s' % (j, why))
            continue
        bad, unk, fa, A, trans, acc, own = r
        report(R, 'b_language', t, bad, unk, fa['transitions'] + fa.get('pairs', 0), '%s = %s: %s' % (t, j, fa))
        x = guarded(R, 'b_language', t, lambda: bundle.check_frame(L, A.f, A, acc))
        if x:
            bad, unk, n = x
            report(R, 'b_language', t, [b for b in bad if not b.startswith(('message bytes', 'the change flag', 'the position after'))], unk, n, '%s: frame' % t)


def b_reveal(R):
    import bundle, rx
    L = lib(R)
    for j, parts, t, r, why in analysed(R):
        if r is None:
            R.unk('b_reveal', '%s: %s' % (j, why))
            continue
        bad0, unk0, fa, A, trans, acc, own = r
        if acc is None:
            R.unk('b_reveal', '%s: accepting state not found' % j)
            continue

        def go():
            e, own = rx.merged([p['regex_def'] for p in parts])
            for m in e.trans:
                m.pop(0, None)
            _, pairs = rx.product(rx.DFA([dict(m) for m in trans], {acc}), e)
            return bundle.check_reveal(L, A.f, A, trans, acc, own, parts, pairs)
        x = guarded(R, 'b_reveal', t, go)
        if x:
            report(R, 'b_reveal', t, x[0], x[1], x[2], '%s: %d reveal obligations' % (t, x[2]))
        x = guarded(R, 'b_reveal', t, lambda: bundle.check_frame(L, A.f, A, acc))
        if x:
            report(R, 'b_reveal', t, [b for b in x[0] if b.startswith(('the change flag', 'the position after'))], [], 1, None)


def b_constrained(R):
    import bundle
    L = lib(R)
    for k, e in L.err.items():
        R.unk('b_constrained', '%s: %s' % (k, e))
    for t, f in sorted(L.t.items()):
        if f is None:
            continue
        x = guarded(R, 'b_constrained', t, lambda: bundle.constrained(L, f))
        if x:
            report(R, 'b_constrained', t, x[0], x[1], x[2], '%s: %d signals and component inputs' % (t, x[2]))
    for j, parts, t, r, why in analysed(R):
        if r is None:
            R.unk('b_constrained', '%s: %s' % (j, why))
            continue
        x = guarded(R, 'b_constrained', t, lambda: bundle.check_frame(L, r[3].f, r[3], r[5]))
        if x:
            report(R, 'b_constrained', t, [b for b in x[0] if b.startswith('message bytes')], [], 1, '%s: range check' % t)
    # includes: every template that is used is in a file that is (transitively) included
    known = {'comparators': ('IsZero', 'IsEqual', 'LessThan', 'LessEqThan', 'GreaterThan', 'GreaterEqThan'),
             'gates': ('AND', 'OR', 'NOT', 'XOR', 'NAND', 'NOR', 'MultiAND'), 'bitify': ('Num2Bits', 'Bits2Num')}
    std = {n: k for k, ns in known.items() for n in ns}
    for t, f in sorted(L.t.items()):
        if f is None:
            continue
        fn = L.where[t]
        clo, ext, work = set(), set(), [fn]
        while work:
            x = work.pop()
            if x in clo or x not in L.files:
                continue
            clo.add(x)
            for i in L.inc[x]:
                if i.startswith('@zk-email/zk-regex-circom/circuits/'):
                    work.append(i[len('@zk-email/zk-regex-circom/circuits/'):])
                elif i.startswith('.'):
                    work.append(os.path.normpath(os.path.join(os.path.dirname(x), i)))
                else:
                    ext.add(os.path.basename(i).replace('.circom', ''))
        used = set()
        for a in f.asg:
            insts(a.rhs, used)
        for u in sorted(used):
            if u in L.where:
                if L.where[u] not in clo:
                    R.bad('b_constrained', t, 'template %s is used but its file is not included' % u)
                else:
                    R.ok('b_constrained')
            elif u in std and std[u] not in ext and not (std[u] == 'bitify' and 'comparators' in ext):
                R.bad('b_constrained', t, 'gate %s is used but its library is not included' % u)


def insts(r, out):
    if isinstance(r, tuple):
        if r and r[0] in ('inst', 'call') and len(r) > 1 and isinstance(r[1], str):
            out.add(r[1])
        for x in r:
            insts(x, out)


def b_helpers(R):
    import bundle
    L = lib(R)
    for g, (what, want) in bundle.GATES.items():
        if g not in L.t:
            R.bad('b_helpers', g, 'the helper gate no longer exists')
            continue
        if L.t[g] is None:
            R.unk('b_helpers', g)
            continue
        x = guarded(R, 'b_helpers', g, lambda: bundle.helper(L, g))
        if x is None:
            continue
        if x in want:
            R.ok('b_helpers', 1, '%s: out = %s (%s)' % (g, bundle.pkey(x), what))
        elif all(all(re.fullmatch(r'[\w\[\]]+|IsZero<>\(\{.*\}\)|(SUM|PRODUCT|PART|DIFF)[^()]*\(.*\)|MultiOR\(\{.*\}\)', y) for y in m) for m in x):
            R.bad('b_helpers', g, 'the output is not the %s: out = %s' % (what, bundle.pkey(x)))
        else:
            R.unk('b_helpers', '%s: out = %s' % (g, bundle.pkey(x)))
        for p in L.t[g].asg:
            if p.op == '<--' and not L.t[g].eqs:
                R.bad('b_helpers', g, 'assigned without a constraint: ' + p.text)


def b_composite(R):
    import bundle
    L = lib(R)
    for g, (outs, eqs) in WIRING.items():
        if g not in L.t:
            R.bad('b_composite', g, 'the circuit no longer exists')
            continue
        if L.t[g] is None:
            R.unk('b_composite', g)
            continue
        x = guarded(R, 'b_composite', g, lambda: bundle.wiring(L, g))
        if x is None:
            continue
        leaf = re.compile(r'[A-Za-z]\w*(?=[<(])')
        known = set(leaf.findall(repr(outs) + repr(eqs))) | {'EmailAddrRegex', 'EmailAddrWithNameRegex', 'FromAllRegex', 'ToAllRegex', 'ReversedBracketRegex',
                                                          'ReversedEmailAddrWithNameRegex', 'MessageIdRegex', 'SubjectAllRegex', 'BodyHashRegex', 'TimestampRegex', 'EmailDomainRegex'}
        for o in sorted(set(outs) | set(x[0])):
            a, b = outs.get(o), x[0].get(o)
            if a == b:
                R.ok('b_composite', 1, '%s.%s = %s' % (g, o, a[0]))
            elif b is None:
                R.bad('b_composite', g, 'output %s no longer exists' % o)
            elif len(b) == 3:
                R.bad('b_composite', g, 'output %s is always %s at position %s' % (o, b[0], b[1]))
            elif a is None or set(leaf.findall(b[0])) <= known and b[1] is not None and a[1] is not None or b[1] == a[1] and set(leaf.findall(b[0])) <= known:
                R.bad('b_composite', g, 'output %s is %s, expected %s' % (o, b, a))
            else:
                R.unk('b_composite', '%s.%s is %s' % (g, o, b))
        for e in sorted(set(eqs) | x[1]):
            if e in eqs and e in x[1]:
                R.ok('b_composite', 1, '%s: %s = 0' % (g, e[0]))
            elif e in eqs:
                R.bad('b_composite', g, 'the constraint %s = 0 is missing' % e[0])


WIRING = {
    'EmailAddrWithNameRegex': (
        {'out': ('{1*{1*ReversedBracketRegex<msg_bytes>({1*each j: {1*msg[msg_bytes-1*j-1]}})}.0}', None),
         'reveal0': ('{1*{1*{1*ReversedBracketRegex<msg_bytes>({1*each j: {1*msg[msg_bytes-1*j-1]}})}.1}[msg_bytes-1*j-1]}', ('0', 'msg_bytes-1'))},
        set()),
    'FromAddrRegex': (
        {'out': ('{1*{1*EmailAddrRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.0 + -1*{1*EmailAddrRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.0*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.0 + 1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.0}', None),
         'reveal0': ('{-1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.0*{1*{1*EmailAddrRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.1}[j] + 1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.0*{1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.1}[j] + 1*{1*{1*EmailAddrRegex<msg_bytes>({1*{1*FromAllRegex<msg_bytes>({1*msg})}.1})}.1}[j]}', ('0', 'msg_bytes-1'))},
        {('{-1 + 1*{1*FromAllRegex<msg_bytes>({1*msg})}.0}', 0)}),
    'ToAddrRegex': (
        {'out': ('{1*{1*EmailAddrRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.0 + -1*{1*EmailAddrRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.0*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.0 + 1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.0}', None),
         'reveal0': ('{-1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.0*{1*{1*EmailAddrRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.1}[j] + 1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.0*{1*{1*EmailAddrWithNameRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.1}[j] + 1*{1*{1*EmailAddrRegex<msg_bytes>({1*{1*ToAllRegex<msg_bytes>({1*msg})}.1})}.1}[j]}', ('0', 'msg_bytes-1'))},
        {('{-1 + 1*{1*ToAllRegex<msg_bytes>({1*msg})}.0}', 0)}),
}


def b_sync(R):
    a = os.path.join(facts.REPO, 'packages/apis/src/decomposed_defs')
    b = os.path.join(facts.REPO, CIRC, 'common')

    def load(d, f):
        return [(p['regex_def'], bool(p['is_public'])) for p in json.load(open(os.path.join(d, f)))['parts']]
    fa, fb = set(os.listdir(a)), set(os.listdir(b))
    for f in sorted(x for x in fa & fb if x.endswith('.json')):
        x, y = load(a, f), load(b, f)
        if x == y:
            R.ok('b_sync', len(x), '%s: %d parts agree' % (f, len(x)))
        elif len(x) != len(y):
            R.bad('b_sync', f, 'the library has %d parts, the circuits %d' % (len(x), len(y)))
        else:
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    R.bad('b_sync', f, 'part %d differs: library %r, circuits %r' % (i, p, q))
    for f in SHARED:
        if f not in fa:
            R.bad('b_sync', f, 'the definition is no longer shipped with the extraction library')
        if f not in fb:
            R.bad('b_sync', f, 'the definition is no longer shipped with the circuits')


SHARED = ['body_hash.json', 'email_addr.json', 'email_domain.json', 'from_all.json', 'message_id.json', 'subject_all.json', 'timestamp.json', 'to_all.json']


# header definitions: file name -> header names
HEADERS = {'from_all': 'from', 'from_addr': 'from', 'to_all': 'to', 'to_addr': 'to', 'subject_all': 'subject', 'message_id': 'message-id',
           'body_hash': 'dkim-signature', 'timestamp': 'dkim-signature'}


def b_headers(R):
    """header definitions start at a line start with their own header name and reveal nothing across a line break"""
    import rx
    for d in ('packages/apis/src/decomposed_defs', CIRC + '/common'):
        full = os.path.join(facts.REPO, d)
        for j in sorted(os.listdir(full)):
            if not j.endswith('.json') or j[:-5] not in HEADERS:
                continue
            where = d.split('/')[1] + '/' + j
            try:
                parts = json.load(open(os.path.join(full, j)))['parts']
                # the private prefix up to the first public part
                k = next((i for i, p in enumerate(parts) if p['is_public']), len(parts))
                pre, _ = rx.merged([''.join('(' + p['regex_def'] + ')' for p in parts[:max(k, 1)])])
                h = rx.merged(['(\r\n|^)' + HEADERS[j[:-5]] + ':'])[0].trim()
                w = prefix_missing(pre.trim(), h)
                if w is not None:
                    R.bad('b_headers', where, 'matches text that does not start with the header %r at a line start: %r' % (HEADERS[j[:-5]], w))
                else:
                    R.ok('b_headers', 1, '%s: every match starts with (line start)%s:' % (where, HEADERS[j[:-5]]))
                for i, p in enumerate(parts):
                    if not p['is_public']:
                        continue
                    e = rx.merged([p['regex_def']])[0].trim()
                    nl = sorted({b for m in e.trans for b in m if b in (10, 13)})
                    if nl:
                        R.bad('b_headers', where, 'public part %d (%r) can run over a line break' % (i, p['regex_def']))
                    else:
                        R.ok('b_headers', 1, '%s: public part %d stays on its line' % (where, i))
            except (rx.RegexError, ValueError, KeyError, TypeError) as e:
                R.unk('b_headers', '%s: %s' % (where, e))


def prefix_missing(a, h):
    """a word of a that has no prefix in h (None if there is none)"""
    seen, work = {(0, 0)}, [(0, 0, b'')]
    while work:
        p, q, w = work.pop(0)
        if q in h.acc:
            continue
        if p in a.acc:
            return w
        for b, r in sorted(a.trans[p].items()):
            if b not in h.trans[q]:
                return w + bytes([b])
            n = (r, h.trans[q][b])
            if n not in seen:
                seen.add(n)
                work.append(n + (w + bytes([b]),))
    return None


# ------------------------------------------------------------------ dropped results
def dropped_results(R):
    """a Result that is not looked at"""
    for unit in (0, 1, 2):
        p = R.w.prog('cur', unit)
        q = R.w.prog('ref', unit)

        def drops(p):
            out = {}
            for key, f in sorted(p.fns.items()):
                if f.d.get('derived'):
                    continue
                used = None
                for t in calls(f):
                    if len(t['d']) != 1 or not re.match(r'(std::result::)?Result<', f.locals[t['d'][0]]):
                        continue
                    if used is None:
                        used = set()
                        for b in f.d['blocks']:
                            for s in b['s']:
                                used |= set(locals_in(s['v']))
                                if len(s['d']) > 1:
                                    used.add(s['d'][0])
                            u = b['t']
                            if u.get('t') == 'call':
                                for a in u['a']:
                                    used |= set(locals_in(a))
                            elif u.get('t') in ('switch', 'assert'):
                                used |= set(locals_in(u.get('a')))
                    if t['d'][0] != 0 and t['d'][0] not in used:
                        out.setdefault((t['f'].get('rpath') or t['f'].get('path') or ''), []).append((f.path, t['sp']))
            return out
        A, B = drops(q), drops(p)
        n = 0
        for c, xs in sorted(B.items()):
            if len(xs) > len(A.get(c, [])) and not c.endswith(('fmt::Write::write_fmt', 'fmt::Write::write_str', 'String::write_fmt')) and 'String' not in c:
                R.bad('dropped_results', xs[-1][0], 'the result of %s is dropped' % c, [x[1] for x in xs])
            n += 1
        R.ok('dropped_results', max(1, len(p.fns)), '%s: %d functions, %d dropped results' % (facts.NAMES[unit], len(p.fns), n))


def partial_writes(R):
    """one write call may stop short of the whole text: the number of bytes it wrote has to be looked at"""
    n = 0
    for unit in (0, 1, 2):
        p = R.w.prog('cur', unit)
        for key, f in sorted(p.fns.items()):
            if f.d.get('derived'):
                continue
            for t in calls(f):
                n += 1
                path = t['f'].get('path') or ''
                if path.split('<')[0] != 'std::io::Write::write' and not re.search(r'(^|::)io::Write::write$', strip_gen(path)):
                    continue
                if not count_used(f, t['d'][0]):
                    R.bad('partial_writes', f.path, 'a single write call whose byte count is ignored may leave the output cut short', [t['sp']])
    R.ok('partial_writes', n, '%d calls: every write that may be partial has its byte count looked at' % n)


BUFFERED = re.compile(r'^std::io::(BufWriter|LineWriter)<.*\b(File|Stdout|Stderr|dyn)\b')


def buffered_writes(R):
    """a buffered writer swallows the error of its last write when it is dropped: it has to be flushed before"""
    n = m = 0
    for unit in (0, 1, 2):
        p = R.w.prog('cur', unit)
        for key, f in sorted(p.fns.items()):
            n += 1
            if f.d.get('derived'):
                continue
            for l, ty in enumerate(f.locals):
                if BUFFERED.match(ty or ''):
                    m += 1
                    bad = unflushed(p, f, l)
                    if bad:
                        R.bad('buffered_writes', f.path, bad[0][0], [sp for _, sp in bad if sp][:1])
    R.ok('buffered_writes', n, '%d functions, %d buffered writers: flushed before they are dropped' % (n, m))


def flushes(p, t, seen=None):
    """may this call flush the writer it is given?"""
    seen = set() if seen is None else seen
    path = strip_gen(t['f'].get('rpath') or '') + ' ' + strip_gen(t['f'].get('path') or '')
    if re.search(r'::(flush|into_inner|into_parts|sync_all|sync_data)( |$)', path):
        return True
    g = p.fns.get(t['f'].get('rkey')) or p.fns.get(t['f'].get('key'))
    if g is None or g.path in seen:
        return False
    seen.add(g.path)
    return any(flushes(p, u, seen) for u in calls(g))


def unflushed(p, f, l):
    """drops of buffered writer l with text in it on a path that reports no error"""
    refs = {l}
    grew = True
    while grew:
        grew = False
        for b in f.d['blocks']:
            for s in b['s']:
                if len(s['d']) == 1 and s['d'][0] not in refs and set(locals_in(s['v'])) & refs and \
                        (re.match(r'^&', f.locals[s['d'][0]]) or isinstance(s['v'], dict) and s['v'].get('kind') == 'closure'):
                    refs.add(s['d'][0])
                    grew = True
            u = b['t']
            if u.get('t') == 'call' and len(u['d']) == 1 and u['d'][0] not in refs and re.match(r'^&mut .*(BufWriter|LineWriter)<', f.locals[u['d'][0]]) \
                    and any(set(locals_in(a)) & refs for a in u['a']):
                refs.add(u['d'][0])
                grew = True
    bl = f.d['blocks']
    state, work, out, said = {0: False}, [0], [], set()
    while work:
        i = work.pop()
        w = state[i]
        b = bl[i]
        for s in b['s']:
            v = s['v']
            if isinstance(v, dict) and v.get('r') == 'agg' and v.get('variant') == 'Err':
                w = False
        t = b['t']
        k = t.get('t')
        if k == 'call':
            path = strip_gen(t['f'].get('rpath') or t['f'].get('path') or '') if t['f'].get('k') == 'fn' else ''
            mine = [a for a in t['a'] if set(locals_in(a)) & refs]
            if path.endswith('from_residual'):
                w = False
            elif mine and any(a.get('k') == 'move' and a['p'] == [l] for a in mine):
                if path.endswith('mem::drop'):
                    if w and i not in said:
                        said.add(i)
                        out.append(('a buffered writer is dropped without a flush, an error of its last write is lost', t['sp']))
                w = False
            elif mine:
                w = not flushes(p, t)
        elif k == 'drop' and t['p'] == [l]:
            if w and i not in said:
                said.add(i)
                out.append(('a buffered writer is dropped without a flush, an error of its last write is lost', None))
            w = False
        for j in succs(t):
            if j not in state or w and not state[j]:
                state[j] = w or state.get(j, False)
                work.append(j)
    return out


def succs(t):
    out = [t[k] for k in ('to', 'o') if isinstance(t.get(k), int)]
    return out + [b for _, b in t.get('ts') or []]


def strip_gen(p):
    while True:
        q = re.sub(r'<[^<>]*>', '', p)
        if q == p:
            return p
        p = q


def count_used(f, dest):
    chain = {dest}
    grew = True
    while grew:
        grew = False
        for b in f.d['blocks']:
            for s in b['s']:
                ls = set(locals_in(s['v']))
                if ls and ls <= chain and s['d'][0] not in chain and len(s['d']) == 1:
                    chain.add(s['d'][0])
                    grew = True
            u = b['t']
            if u.get('t') == 'call' and any(set(locals_in(a)) & chain for a in u['a']):
                ty = f.locals[u['d'][0]]
                if u['d'][0] not in chain and ('usize' in ty):
                    chain.add(u['d'][0])
                    grew = True
    if 0 in chain:
        return True
    counts = {l for l in chain if f.locals[l] in ('usize', '&usize')}
    for b in f.d['blocks']:
        for s in b['s']:
            if set(locals_in(s['v'])) & counts and s['d'][0] not in counts:
                return True
            if len(s['d']) > 1 and set(locals_in(s['v'])) & counts:
                return True
        u = b['t']
        if u.get('t') == 'call' and any(set(locals_in(a)) & counts for a in u['a']):
            return True
        if u.get('t') in ('switch', 'assert') and set(locals_in(u.get('a'))) & counts:
            return True
    return False


# ------------------------------------------------------------------ configuration formats
# struct -> field -> keys every definition file may use for it
INPUTS = {
    'compiler': {'RegexPartConfig': {'is_public': ('is_public',), 'regex_def': ('regex_def',)}, 'DecomposedRegexConfig': {'parts': ('parts',)},
                 'SubstringDefinitionsJson': {'transitions': ('transitions',)}},
    'apis': {'RegexPartConfig': {'is_public': ('is_public', 'isPublic'), 'regex_def': ('regex_def', 'regexDef')}, 'DecomposedRegexConfig': {'parts': ('parts',)}},
}
OUTPUTS = {'compiler': {'RegexAndDFA': ('regex_pattern', 'dfa', 'has_end_anchor', 'substrings'), 'DFAGraph': ('states',),
                        'DFAStateNode': ('state_type', 'state_id', 'transitions'), 'SubstringDefinitions': ('substring_ranges', 'substring_boundaries')}, 'apis': {}}
CASES = {'camelCase': lambda w: w[0] + ''.join(x.capitalize() for x in w[1:]), 'PascalCase': lambda w: ''.join(x.capitalize() for x in w),
         'snake_case': '_'.join, 'kebab-case': '-'.join, 'SCREAMING_SNAKE_CASE': lambda w: '_'.join(w).upper(), 'SCREAMING-KEBAB-CASE': lambda w: '-'.join(w).upper(),
         'lowercase': lambda w: '_'.join(w).lower(), 'UPPERCASE': lambda w: '_'.join(w).upper()}


def rust_tokens(src):
    """tokens of Rust source without comments"""
    pat = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|\'?[A-Za-z_]\w*|\d\w*|\s+|.', re.S)
    for m in pat.finditer(src):
        t = m.group(0)
        if not t.isspace() and not t.startswith('//') and not t.startswith('/*'):
            yield t


def attributes(ts, i):
    """token lists of the attributes that start at i, and the index after them"""
    out = []
    while i + 1 < len(ts) and ts[i] == '#' and ts[i + 1] == '[':
        d, j = 0, i + 1
        while j < len(ts):
            d += ts[j] in '([{'
            d -= ts[j] in ')]}'
            j += 1
            if d == 0:
                break
        out.append(ts[i + 2:j - 1])
        i = j
    return out, i


def serde_items(attrs):
    """(name, value) of every serde attribute item"""
    out = []
    for a in attrs:
        if a[:2] != ['serde', '(']:
            continue
        d, cur = 0, []
        for t in a[2:-1] + [',']:
            if t == ',' and d == 0:
                if cur:
                    out.append((cur[0], cur[2].strip('"') if len(cur) == 3 and cur[1] == '=' else ' '.join(cur[1:])))
                cur = []
                continue
            d += t in '(['
            d -= t in ')]'
            cur.append(t)
    return out


def rust_structs(src):
    """name -> (derived traits, serde items, [(field, serde items)]) of the structs outside of test modules"""
    ts = list(rust_tokens(src))
    out = {}
    i = 0
    while i < len(ts):
        attrs, j = attributes(ts, i)
        if j == i and ts[i] not in ('pub', 'struct', 'mod'):
            i += 1
            continue
        k = j
        while k < len(ts) and ts[k] in ('pub', '(', ')', 'crate', 'super', 'in'):
            k += 1
        if k < len(ts) and ts[k] == 'mod' and any(a == ['cfg', '(', 'test', ')'] for a in attrs):
            d = 0
            while k < len(ts):
                d += ts[k] == '{'
                d -= ts[k] == '}'
                k += 1
                if ts[k - 1] == '}' and d == 0 or ts[k - 1] == ';' and d == 0:
                    break
            i = k
            continue
        if k + 2 >= len(ts) or ts[k] != 'struct':
            i = max(j, i + 1)
            continue
        name = ts[k + 1]
        der = [t for a in attrs if a[:1] == ['derive'] for t in a]
        k += 2
        while k < len(ts) and ts[k] not in '{;(':
            k += 1
        fields = []
        if k < len(ts) and ts[k] == '{':
            k += 1
            while k < len(ts) and ts[k] != '}':
                fa, k = attributes(ts, k)
                while ts[k] == 'pub':
                    k += 1
                    if ts[k] == '(':
                        while ts[k] != ')':
                            k += 1
                        k += 1
                f = ts[k]
                d = 0
                while k < len(ts) and not (ts[k] == ',' and d == 0) and not (ts[k] == '}' and d == 0):
                    d += ts[k] in '<([{'
                    d -= ts[k] in '>)]}'
                    k += 1
                fields.append((f, serde_items(fa)))
                if k < len(ts) and ts[k] == ',':
                    k += 1
        out[name] = (der, serde_items(attrs), fields)
        i = k + 1
    return out


def serde_formats(R):
    """definitions are read, and results written, field by field under their documented names"""
    pk = 'apis' if R.pid.startswith('A') else 'compiler'
    d = os.path.join(facts.REPO, 'packages', pk, 'src')
    structs = {}
    for dp, ds, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith('.rs'):
                for n, v in rust_structs(open(os.path.join(dp, f), encoding='utf-8').read()).items():
                    structs.setdefault(n, (v, os.path.relpath(os.path.join(dp, f), facts.REPO)))
    what = R.pid

    def rename(items, cont, f, way):
        nm = f[2:] if f.startswith('r#') else f
        ra = dict(cont).get('rename_all')
        if ra is not None:
            if ra.startswith('('):
                m = re.search(way + r' = "([^"]*)"', ra)
                ra = m.group(1) if m else None
            if ra is not None:
                nm = CASES.get(ra, lambda w: None)(nm.split('_'))
        for k, v in items:
            if k == 'rename':
                if v.startswith('('):
                    m = re.search(way + r' = "([^"]*)"', v)
                    nm = m.group(1) if m else nm
                else:
                    nm = v
        return nm
    for s, want in INPUTS[pk].items():
        if s not in structs:
            R.unk('serde', '%s was not found' % s)
            continue
        (der, cont, fields), where = structs[s]
        if 'Deserialize' not in der or any(k in ('from', 'try_from', 'transparent', 'remote', 'crate') for k, _ in cont):
            R.unk('serde', '%s is not read field by field' % s)
            continue
        if any(k == 'default' for k, _ in cont):
            R.bad('serde', where, '%s: missing fields are filled in instead of being an error' % s)
        if any(k == 'deny_unknown_fields' for k, _ in cont):
            R.bad('serde', where, '%s: definitions with further fields (comments, descriptions) are refused' % s)
        keys = {}
        for f, items in fields:
            ks = [rename(items, cont, f, 'deserialize')] + [v for k, v in items if k == 'alias']
            for k, v in items:
                if k in ('default',):
                    R.bad('serde', where, '%s.%s: a missing field is filled in instead of being an error' % (s, f))
                if k in ('skip', 'skip_deserializing'):
                    R.bad('serde', where, '%s.%s is not read from the definition' % (s, f))
                    ks = []
                if k in ('deserialize_with', 'with', 'flatten'):
                    R.unk('serde', '%s.%s is read by %s' % (s, f, v or k))
            for k in ks:
                if k is None:
                    R.unk('serde', '%s.%s has an unknown key' % (s, f))
                elif k in keys:
                    R.bad('serde', where, '%s: key %s is read into %s and %s' % (s, k, keys[k], f))
                else:
                    keys[k] = f
        n = 0
        for f, ks in want.items():
            here = [g for g, _ in fields]
            for k in ks:
                if k not in keys:
                    R.bad('serde', where, '%s: key %s is no longer read' % (s, k))
                elif f in here and keys[k] != f:
                    R.bad('serde', where, '%s: key %s is read into %s' % (s, k, keys[k]))
                else:
                    n += 1
        R.ok('serde', n, '%s in %s: keys %s' % (s, where, ', '.join('%s -> %s' % x for x in sorted(keys.items()))))
    for s, want in OUTPUTS[pk].items():
        if s not in structs:
            R.unk('serde', '%s was not found' % s)
            continue
        (der, cont, fields), where = structs[s]
        if 'Serialize' not in der or any(k in ('into', 'transparent', 'remote', 'crate', 'tag') for k, _ in cont):
            R.unk('serde', '%s is not written field by field' % s)
            continue
        fs = dict(fields)
        for f in want:
            if f not in fs:
                R.unk('serde', '%s.%s was not found' % (s, f))
                continue
            nm = rename(fs[f], cont, f, 'serialize')
            if any(k in ('skip', 'skip_serializing') for k, _ in fs[f]):
                R.bad('serde', where, '%s.%s is not written' % (s, f))
            elif any(k == 'skip_serializing_if' for k, _ in fs[f]):
                R.bad('serde', where, '%s.%s is written only for some values' % (s, f))
            elif any(k in ('serialize_with', 'with', 'flatten', 'getter') for k, _ in fs[f]):
                R.unk('serde', '%s.%s is written by a function of its own' % (s, f))
            elif nm != f:
                R.bad('serde', where, '%s.%s is written as %s' % (s, f, nm))
            else:
                R.ok('serde', 1, '%s.%s is written under its name' % (s, f))
