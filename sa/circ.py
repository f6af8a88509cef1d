"""Circom text to syntax trees: one parser for the bundled circuits (plain text) and for the
grammar of the text the generator emits (holes, repetitions and alternatives kept symbolic).

Tokens: ('id', parts) ('num', int) ('h', term) ('p', punct) ('s', string) ('rep', L, toks)
('gam', cond, toksA, toksB) ('join', sep, items) ('cmt', segments) ('opq', term).
"""
import os
import re
from terms import *
import terms as TM


class ParseError(Exception):
    pass


PUNCT = ['<==', '==>', '<--', '-->', '===', '<=', '>=', '==', '!=', '&&', '||', '++', '--', '+=', '-=', '*=', '\\=', '<<', '>>', '**',
         '+', '-', '*', '/', '\\', '%', '<', '>', '!', '(', ')', '[', ']', '{', '}', ';', ',', '.', '=', '?', ':', '&', '|', '^', '~']
IDS = re.compile(r'[A-Za-z_$][A-Za-z0-9_$]*')
IDC = re.compile(r'[A-Za-z0-9_$]+')


def flat(t):
    """text term -> segments lit/hole/spl/rep(L, segs)/gam(c, segs, segs)/join(sep, items)"""
    out = []
    for s in segs(t):
        if s.op == 'join':
            s = mk('spl', s)
        if s.op == 'lit':
            out.append(('lit', s.a[0]))
        elif s.op == 'hole':
            out.append(('hole', s.a[0], s.a[1]))
        elif s.op == 'rep':
            out.append(('rep', s.a[0], flat(s.a[1])))
        elif s.op == 'gam':
            h, s = headed(s.a[0])
            if h:
                out.append(('lit', h))
            out.append(gamflat(s))
        elif s.op == 'spl' and s.a[0].op == 'join':
            sep = s.a[0].a[1]
            if not (sep.op == 'seq' and all(x.op == 'lit' for x in sep.a)):
                out.append(('opq', s.a[0]))
            else:
                out.append(('join', ''.join(x.a[0] for x in sep.a), items(s.a[0].a[0])))
        elif s.op == 'spl':
            out.append(('opq', s.a[0]))
        elif s.op == 'one' and s.a[0].op == 'chr':
            out.append(('lit', chr(s.a[0].a[0])))
        elif s.op == 'one' and s.a[0].op == 'int' and s.a[0].a[0] < 128:
            out.append(('lit', chr(s.a[0].a[0])))
        else:
            out.append(('opq', mk('seq', s)))
    return out


def headed(t):
    """whole statements that all alternatives start with, and the alternatives without them"""
    ls = []

    def go(x):
        if x.op == 'ite':
            go(x.a[1])
            go(x.a[2])
        else:
            ls.append(x)
    go(t)
    if len(ls) > 8 or any(x.op != 'seq' or not x.a or x.a[0].op != 'lit' or not isinstance(x.a[0].a[0], str) for x in ls):
        return '', t
    h = os.path.commonprefix([x.a[0].a[0] for x in ls])
    h = h[:1 + max(h.rfind(c) for c in ';\n{}')]
    if not h:
        return '', t

    def cut(x):
        if x.op == 'ite':
            return TM.ite(x.a[0], cut(x.a[1]), cut(x.a[2]))
        r = x.a[0].a[0][len(h):]
        return TM.seq(([mk('lit', r)] if r else []) + list(x.a[1:]))
    return h, cut(t)


def gamflat(t):
    if t.op == 'ite':
        return ('gam', TM.atom(t.a[0]), [gamflat(t.a[1])] if t.a[1].op == 'ite' else flat(t.a[1]),
                [gamflat(t.a[2])] if t.a[2].op == 'ite' else flat(t.a[2]))
    return ('cat', flat(t))


def items(q):
    """elements of a joined list"""
    out = []
    for s in segs(q):
        if s.op == 'one':
            out.append(('one', flat(s.a[0])))
        elif s.op == 'rep':
            out.append(('rep', s.a[0], items(s.a[1])))
        elif s.op == 'gam':
            def go(t):
                if t.op == 'ite':
                    return [('gam', TM.atom(t.a[0]), go(t.a[1]), go(t.a[2]))]
                return items(t)
            out += go(s.a[0])
        else:
            out.append(('opq', s))
    return out


def lines(its, sep):
    """newline joined items as plain segments"""
    out = []
    for it in its:
        if it[0] == 'one':
            out += it[1] + [('lit', sep)]
        elif it[0] == 'rep':
            out.append(('rep', it[1], lines(it[2], sep)))
        elif it[0] == 'gam':
            out.append(('gam', it[1], lines(it[2], sep), lines(it[3], sep)))
        else:
            out.append(('opq', it[1]))
    return out


GLUE_L = re.compile(r'[A-Za-z0-9_$]+$')
GLUE_R = re.compile(r'^[A-Za-z0-9_$]+')


def glue(ss):
    """an alternative that starts or ends inside a token takes in the rest of that token"""
    out = []
    k = 0
    ss = list(ss)
    while k < len(ss):
        s = ss[k]
        if s[0] == 'gam':
            pre, post = [], []
            while out:
                l = out[-1]
                if l[0] in ('hole', 'opq'):
                    pre.insert(0, out.pop())
                    continue
                if l[0] == 'lit':
                    m = GLUE_L.search(l[1])
                    if m:
                        out.pop()
                        if m.start():
                            out.append(('lit', l[1][:m.start()]))
                        pre.insert(0, ('lit', m.group()))
                        if m.start() == 0:
                            continue
                break
            while k + 1 < len(ss):
                r = ss[k + 1]
                if r[0] in ('hole', 'opq'):
                    post.append(r)
                    k += 1
                    continue
                if r[0] == 'lit':
                    m = GLUE_R.search(r[1])
                    if m:
                        post.append(('lit', m.group()))
                        if m.end() < len(r[1]):
                            ss[k + 1] = ('lit', r[1][m.end():])
                            break
                        k += 1
                        continue
                break
            s = ('gam', s[1], merge(pre + s[2] + post), merge(pre + s[3] + post))
            if pre or post:
                s = ('gam', s[1], glue(s[2]), glue(s[3]))
        out.append(s)
        k += 1
    return out


def merge(ss):
    out = []
    for s in ss:
        if s[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + s[1])
        else:
            out.append(s)
    return out


def prep(ss):
    return glue(merge(prep1(ss)))


def prep1(ss):
    """join over newlines becomes lines; nested concatenations are spliced"""
    out = []
    for s in ss:
        if s[0] == 'join' and '\n' in s[1]:
            out += prep(lines(s[2], s[1]))
        elif s[0] == 'cat':
            out += prep(s[1])
        elif s[0] == 'rep':
            out.append(('rep', s[1], prep(s[2])))
        elif s[0] == 'gam':
            out.append(('gam', s[1], prep(s[2]), prep(s[3])))
        elif s[0] == 'join':
            out.append(('join', s[1], [prepi(i) for i in s[2]]))
        else:
            out.append(s)
    return out


def prepi(i):
    if i[0] == 'one':
        return ('one', prep(i[1]))
    if i[0] == 'rep':
        return ('rep', i[1], [prepi(x) for x in i[2]])
    if i[0] == 'gam':
        return ('gam', i[1], [prepi(x) for x in i[2]], [prepi(x) for x in i[3]])
    return i


class Lexer:
    def __init__(self):
        self.cmt = None

    def toks(self, ss):
        out = []
        pend = None      # identifier being built: list of parts
        st = {'cmt': None}

        def flush():
            nonlocal pend
            if pend is not None:
                if len(pend) == 1 and isinstance(pend[0], str):
                    out.append(('id', pend[0]))
                else:
                    out.append(('id', tuple(pend)))
                pend = None

        for k, s in enumerate(ss):
            if st['cmt'] is not None:
                # inside a // comment: everything up to a newline in literal text
                if s[0] == 'lit':
                    n = s[1].find('\n')
                    if n < 0:
                        st['cmt'].append(s)
                        continue
                    st['cmt'].append(('lit', s[1][:n]))
                    out.append(('cmt', st['cmt']))
                    st['cmt'] = None
                    s = ('lit', s[1][n:])
                else:
                    st['cmt'].append(s)
                    continue
            if s[0] == 'lit':
                x = s[1]
                i = 0
                while i < len(x):
                    if pend is not None:
                        m = IDC.match(x, i)
                        if m:
                            pend.append(m.group())
                            i = m.end()
                            continue
                        flush()
                        continue
                    c = x[i]
                    if c.isspace():
                        i += 1
                        continue
                    if x.startswith('//', i):
                        n = x.find('\n', i)
                        if n < 0:
                            st['cmt'] = [('lit', x[i + 2:])]
                            i = len(x)
                        else:
                            out.append(('cmt', [('lit', x[i + 2:n])]))
                            i = n
                        continue
                    if x.startswith('/*', i):
                        n = x.find('*/', i)
                        if n < 0:
                            raise ParseError('unterminated comment')
                        i = n + 2
                        continue
                    if c == '"':
                        n = x.find('"', i + 1)
                        if n < 0:
                            raise ParseError('unterminated string')
                        out.append(('s', x[i + 1:n]))
                        i = n + 1
                        continue
                    m = IDS.match(x, i)
                    if m:
                        # an identifier at the end of a literal may continue in a hole
                        i = m.end()
                        if i == len(x) and k + 1 < len(ss) and ss[k + 1][0] in ('hole', 'opq'):
                            pend = [m.group()]
                        else:
                            out.append(('id', m.group()))
                        continue
                    m = re.compile(r'0x[0-9a-fA-F]+|\d+').match(x, i)
                    if m:
                        if m.end() == len(x) and k + 1 < len(ss) and ss[k + 1][0] in ('hole', 'opq'):
                            raise ParseError('number continued by a computed value')
                        if m.end() < len(x) and IDS.match(x, m.end()):
                            raise ParseError('malformed number %r' % x[i:i + 20])
                        out.append(('num', int(m.group(), 0)))
                        i = m.end()
                        continue
                    for p in PUNCT:
                        if x.startswith(p, i):
                            out.append(('p', p))
                            i += len(p)
                            break
                    else:
                        raise ParseError('unexpected character %r' % c)
            elif s[0] == 'hole':
                if pend is not None:
                    pend.append(s[1])
                elif k and ss[k - 1][0] == 'hole':
                    raise ParseError('two computed values without separator')
                elif k and ss[k - 1][0] == 'lit' and re.search(r'\d$', ss[k - 1][1]):
                    raise ParseError('number continued by a computed value')
                else:
                    nx = ss[k + 1] if k + 1 < len(ss) else None
                    if nx and nx[0] == 'lit' and IDC.match(nx[1]):
                        raise ParseError('computed value continued by %r' % nx[1][:10])
                    out.append(('h', s[1]))
            elif s[0] == 'opq':
                if pend is not None:
                    pend.append(s[1])
                else:
                    nx = ss[k + 1] if k + 1 < len(ss) else None
                    if s[1].op in ('fld', 'param', 'at') and not TM.contains(s[1], lambda x: x.op == 'lit' and isinstance(x.a[0], str) and not IDC.fullmatch(x.a[0])):
                        pend = [s[1]]
                    else:
                        out.append(('opq', s[1]))
            elif s[0] == 'rep':
                flush()
                out.append(('rep', s[1], self.toks(s[2])))
            elif s[0] == 'gam':
                flush()
                out.append(('gam', s[1], self.toks(s[2]), self.toks(s[3])))
            elif s[0] == 'join':
                flush()
                out.append(('join', s[1], [self.item(i) for i in s[2]]))
            else:
                raise ParseError('segment ' + s[0])
        flush()
        if st['cmt'] is not None:
            out.append(('cmt', st['cmt']))
        return out

    def item(self, i):
        if i[0] == 'one':
            return ('one', self.toks(i[1]))
        if i[0] == 'rep':
            return ('rep', i[1], [self.item(x) for x in i[2]])
        if i[0] == 'gam':
            return ('gam', i[1], [self.item(x) for x in i[2]], [self.item(x) for x in i[3]])
        return i


ASSIGN = ('<==', '<--', '===', '=', '==>', '-->', '+=', '-=', '*=', '\\=')


class Parser:
    """statements of one token list; structure tokens may stand for statements"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ('end',)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def isp(self, p, n=0):
        x = self.peek(n)
        return x[0] == 'p' and x[1] == p

    def eat(self, p):
        if not self.isp(p):
            raise ParseError('expected %r, found %s' % (p, self.ctx()))
        self.i += 1

    def ctx(self):
        return ' '.join(str(x[1]) if x[0] in ('id', 'num', 'p') else '<%s>' % x[0] for x in self.t[max(0, self.i - 6):self.i + 4])

    def stmts(self, end=None):
        out = []
        while True:
            if self.peek()[0] == 'end':
                if end:
                    raise ParseError('missing %r' % end)
                return out
            if end and self.isp(end):
                return out
            out.extend(self.stmt())

    def lift_point(self):
        """a gam token before the end of the statement that starts here"""
        d = 0
        j = self.i
        while j < len(self.t):
            x = self.t[j]
            if x[0] == 'gam':
                return j
            if x[0] in ('rep', 'cmt') and d == 0:
                return None
            if x[0] == 'p':
                if x[1] in '([':
                    d += 1
                elif x[1] in ')]':
                    d -= 1
                elif d <= 0 and x[1] in (';', '{', '}'):
                    return None
            j += 1
        return None

    def stmt(self):
        x = self.peek()
        if x[0] == 'cmt':
            self.i += 1
            return [('comment', x[1])]
        if x[0] == 'rep':
            self.i += 1
            return [('rep', x[1], Parser(x[2]).stmts())]
        if x[0] == 'gam':
            try:
                a = Parser(x[2]).stmts()
                b = Parser(x[3]).stmts()
                self.i += 1
                return [('gam', x[1], a, b)]
            except ParseError:
                pass
        j = self.lift_point()
        if j is not None:
            # distribute the rest of this statement over the alternatives
            e, d = j + 1, 0
            g = self.t[j]

            def closed(ts):
                return ts and ts[-1][0] == 'p' and ts[-1][1] in (';', '}')
            if not (closed(g[2]) and closed(g[3])):
                while e < len(self.t):
                    y = self.t[e]
                    e += 1
                    if y[0] == 'p':
                        if y[1] in '([':
                            d += 1
                        elif y[1] in ')]':
                            d -= 1
                        elif y[1] == ';' and d <= 0:
                            break
                        elif y[1] in '{}' and d <= 0:
                            raise ParseError('alternative around a block: ' + self.ctx())
            pre, post = self.t[self.i:j], self.t[j + 1:e]
            a = Parser(pre + g[2] + post).stmts()
            b = Parser(pre + g[3] + post).stmts()
            self.i = e
            return [('gam', g[1], a, b)]
        if x[0] == 'join' and x[1].strip() == '':
            self.i += 1
            return self.joined(x[2])
        if x[0] == 'p' and x[1] == '{':
            self.i += 1
            b = self.stmts('}')
            self.eat('}')
            return [('block', b)]
        if x[0] == 'p' and x[1] == ';':
            self.i += 1
            return []
        if x[0] == 'id' and isinstance(x[1], str):
            w = x[1]
            if w == 'pragma':
                ts = []
                while not self.isp(';'):
                    if self.peek()[0] == 'end':
                        raise ParseError('pragma')
                    ts.append(self.next())
                self.i += 1
                return [('pragma', ts)]
            if w == 'include':
                self.i += 1
                s = self.next()
                if s[0] != 's':
                    raise ParseError('include')
                self.eat(';')
                return [('include', s[1])]
            if w in ('template', 'function'):
                self.i += 1
                n = self.name()
                self.eat('(')
                ps = []
                while not self.isp(')'):
                    ps.append(self.name())
                    if not self.isp(')'):
                        self.eat(',')
                self.eat(')')
                self.eat('{')
                b = self.stmts('}')
                self.eat('}')
                return [(w, n, ps, b)]
            if w == 'signal':
                return self.decl_signal()
            if w == 'component':
                return self.decl_component()
            if w == 'var':
                r = self.decl_var()
                self.eat(';')
                return r
            if w == 'for':
                self.i += 1
                self.eat('(')
                init = self.decl_var() if self.peek() == ('id', 'var') else [self.simple()]
                self.eat(';')
                c = self.expr()
                self.eat(';')
                step = self.simple()
                self.eat(')')
                return [('for', init[0], c, step, self.body())]
            if w == 'while':
                self.i += 1
                self.eat('(')
                c = self.expr()
                self.eat(')')
                return [('while', c, self.body())]
            if w == 'if':
                self.i += 1
                self.eat('(')
                c = self.expr()
                self.eat(')')
                a = self.body()
                b = []
                if self.peek() == ('id', 'else'):
                    self.i += 1
                    b = self.body()
                return [('if', c, a, b)]
            if w in ('return', 'assert'):
                self.i += 1
                e = self.expr()
                self.eat(';')
                return [(w, e)]
            if w == 'log':
                self.i += 1
                self.eat('(')
                while not self.isp(')'):
                    self.next()
                self.eat(')')
                self.eat(';')
                return []
        s = self.simple()
        self.eat(';')
        return [s]

    def joined(self, its):
        out = []
        for it in its:
            if it[0] == 'one':
                out += Parser(it[1]).stmts()
            elif it[0] == 'rep':
                out.append(('rep', it[1], self.joined(it[2])))
            elif it[0] == 'gam':
                out.append(('gam', it[1], self.joined(it[2]), self.joined(it[3])))
            else:
                raise ParseError('opaque text')
        return out

    def body(self):
        if self.isp('{'):
            self.i += 1
            b = self.stmts('}')
            self.eat('}')
            return b
        return self.stmt()

    def name(self):
        x = self.next()
        if x[0] != 'id':
            raise ParseError('name expected: ' + self.ctx())
        return x[1]

    def dims(self):
        ds = []
        while self.isp('['):
            self.i += 1
            ds.append(self.expr())
            self.eat(']')
        return ds

    def decl_signal(self):
        self.i += 1
        kind = ''
        if self.peek() in (('id', 'input'), ('id', 'output')):
            kind = self.next()[1]
        out = []
        if self.isp('{'):
            while not self.isp('}'):
                self.next()
            self.i += 1
        while True:
            n = self.name()
            ds = self.dims()
            out.append(('signal', kind, n, ds))
            if self.isp('<==') or self.isp('<--'):
                op = self.next()[1]
                out.append(('assign', ('id', n), op, self.expr()))
            if self.isp(','):
                self.i += 1
                continue
            self.eat(';')
            return out

    def decl_component(self):
        self.i += 1
        out = []
        while True:
            n = self.name()
            ds = self.dims()
            out.append(('component', n, ds))
            if self.isp('='):
                self.i += 1
                out.append(('assign', ('id', n), '=', self.expr()))
            if self.isp(','):
                self.i += 1
                continue
            if self.isp('main'):
                pass
            self.eat(';')
            return out

    def decl_var(self):
        self.i += 1
        out = []
        while True:
            n = self.name()
            ds = self.dims()
            e = None
            if self.isp('='):
                self.i += 1
                e = self.expr()
            out.append(('var', n, ds, e))
            if self.isp(','):
                self.i += 1
                continue
            return out

    def simple(self):
        lhs = self.expr()
        x = self.peek()
        if x[0] == 'p' and x[1] in ASSIGN:
            self.i += 1
            rhs = self.expr()
            if x[1] == '==>':
                return ('assign', rhs, '<==', lhs)
            if x[1] == '-->':
                return ('assign', rhs, '<--', lhs)
            return ('assign', lhs, x[1], rhs)
        if x[0] == 'p' and x[1] in ('++', '--'):
            self.i += 1
            return ('assign', lhs, '+=' if x[1] == '++' else '-=', ('num', int_(1)))
        return ('expr', lhs)

    PREC = [('||',), ('&&',), ('|',), ('^',), ('&',), ('==', '!=', '<', '>', '<=', '>='), ('<<', '>>'), ('+', '-'), ('*', '/', '\\', '%'), ('**',)]

    def expr(self, lvl=0):
        if lvl == 0:
            c = self.expr(1) if False else self.binary(0)
            if self.isp('?'):
                self.i += 1
                a = self.expr()
                self.eat(':')
                b = self.expr()
                return ('cond', c, a, b)
            return c
        return self.binary(lvl)

    def binary(self, lvl):
        if lvl == len(self.PREC):
            return self.unary()
        a = self.binary(lvl + 1)
        while self.peek()[0] == 'p' and self.peek()[1] in self.PREC[lvl]:
            op = self.next()[1]
            b = self.binary(lvl + 1)
            a = ('bin', op, a, b)
        return a

    def unary(self):
        if self.isp('-'):
            self.i += 1
            return ('bin', '-', ('num', int_(0)), self.unary())
        if self.isp('!') or self.isp('~'):
            op = self.next()[1]
            return ('un', op, self.unary())
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.isp('['):
                self.i += 1
                k = self.expr()
                self.eat(']')
                e = ('idx', e, k)
            elif self.isp('.'):
                self.i += 1
                e = ('dot', e, self.name())
            elif self.isp('(') and e[0] in ('id', 'call'):
                self.i += 1
                args = self.args(')')
                e = ('call', e[1], args) if e[0] == 'id' else ('anon', e, args)
            else:
                return e

    def args(self, end):
        out = []
        if self.isp(end):
            self.i += 1
            return out
        while True:
            x = self.peek()
            if x[0] == 'join':
                if x[1].strip() != ',':
                    raise ParseError('list joined with %r' % x[1])
                self.i += 1
                out += self.jitems(x[2])
            else:
                out.append(self.expr())
            if self.isp(end):
                self.i += 1
                return out
            self.eat(',')

    def jitems(self, its):
        out = []
        for it in its:
            if it[0] == 'one':
                g = [j for j, x in enumerate(it[1]) if x[0] == 'gam']
                if g:
                    j = g[0]
                    x = it[1][j]
                    out.append(('gam', x[1], self.jitems([('one', it[1][:j] + x[2] + it[1][j + 1:])]),
                                self.jitems([('one', it[1][:j] + x[3] + it[1][j + 1:])])))
                    continue
                p = Parser(it[1])
                if p.peek()[0] == 'end':
                    raise ParseError('empty list element')
                out.append(p.expr())
                while p.isp(','):
                    p.i += 1
                    out.append(p.expr())
                if p.peek()[0] != 'end':
                    # alternatives inside the element
                    j = p.lift_point()
                    raise ParseError('list element: ' + p.ctx())
            elif it[0] == 'rep':
                out.append(('rep', it[1], self.jitems(it[2])))
            elif it[0] == 'gam':
                out.append(('gam', it[1], self.jitems(it[2]), self.jitems(it[3])))
            else:
                raise ParseError('opaque list element')
        return out

    def primary(self):
        x = self.next()
        if x[0] == 'num':
            return ('num', int_(x[1]))
        if x[0] == 'h':
            return ('num', x[1])
        if x[0] == 'id':
            return ('id', x[1])
        if x[0] == 'gam':
            def br(ts):
                p = Parser(ts)
                e = p.expr()
                if p.peek()[0] != 'end':
                    raise ParseError('alternative: ' + p.ctx())
                return e
            return ('egam', x[1], br(x[2]), br(x[3]))
        if x == ('p', '('):
            e = self.expr()
            if self.isp(','):
                es = [e]
                while self.isp(','):
                    self.i += 1
                    es.append(self.expr())
                self.eat(')')
                return ('tuple', es)
            self.eat(')')
            return e
        if x == ('p', '['):
            return ('arr', self.args(']'))
        self.i -= 1
        raise ParseError('expression expected: ' + self.ctx())


def distribute(ss):
    """alternatives inside list elements with surrounding text are moved outwards"""
    return ss


def parse_text(s):
    return Parser(Lexer().toks([('lit', s)])).stmts()


def parse_term(t):
    ss = prep(flat(t))
    return Parser(Lexer().toks(ss)).stmts()


def walk(ss, f, ctx=()):
    for s in ss:
        f(s, ctx)
        if s[0] in ('template', 'function'):
            walk(s[3], f, ctx + (s,))
        elif s[0] == 'for':
            walk(s[4], f, ctx + (s,))
        elif s[0] == 'while':
            walk(s[2], f, ctx + (s,))
        elif s[0] == 'if':
            walk(s[2], f, ctx + (('then', s[1]),))
            walk(s[3], f, ctx + (('else', s[1]),))
        elif s[0] == 'block':
            walk(s[1], f, ctx)
        elif s[0] == 'rep':
            walk(s[2], f, ctx + (s,))
        elif s[0] == 'gam':
            walk(s[2], f, ctx + (('gam', s[1]),))
            walk(s[3], f, ctx + (('gam', bnot(s[1])),))


def eshow(e, d=5):
    if e is None:
        return ''
    k = e[0]
    if k == 'num':
        return show(e[1], d)
    if k == 'id':
        return e[1] if isinstance(e[1], str) else ''.join(x if isinstance(x, str) else '{' + show(x, d) + '}' for x in e[1])
    if k == 'idx':
        return '%s[%s]' % (eshow(e[1], d), eshow(e[2], d))
    if k == 'dot':
        return '%s.%s' % (eshow(e[1], d), e[2])
    if k == 'bin':
        return '(%s %s %s)' % (eshow(e[2], d), e[1], eshow(e[3], d))
    if k == 'un':
        return e[1] + eshow(e[2], d)
    if k == 'call':
        return '%s(%s)' % (e[1] if isinstance(e[1], str) else eshow(('id', e[1])), ', '.join(eshow(x, d) for x in e[2]))
    if k == 'anon':
        return '%s(%s)' % (eshow(e[1], d), ', '.join(eshow(x, d) for x in e[2]))
    if k == 'arr':
        return '[' + ', '.join(eshow(x, d) for x in e[1]) + ']'
    if k == 'rep':
        return 'REP<%s>(%s)' % (e[1], ', '.join(eshow(x, d) for x in e[2]))
    if k in ('gam', 'egam'):
        f = (lambda x: ', '.join(eshow(y, d) for y in x)) if k == 'gam' else (lambda x: eshow(x, d))
        return 'GAM(%s ? %s : %s)' % (show(e[1], d), f(e[2]), f(e[3]))
    if k == 'cond':
        return '(%s ? %s : %s)' % (eshow(e[1], d), eshow(e[2], d), eshow(e[3], d))
    if k == 'tuple':
        return '(' + ', '.join(eshow(x, d) for x in e[1]) + ')'
    return str(e)


def sshow(ss, ind=0, d=5):
    out = []
    P = lambda s: out.append('  ' * ind + s)
    for s in ss:
        k = s[0]
        if k in ('template', 'function'):
            P('%s %s(%s)' % (k, eshow(('id', s[1])), s[2]))
            out.append(sshow(s[3], ind + 1, d))
        elif k == 'for':
            P('for %s; %s; %s' % (s[1], eshow(s[2], d), eshow(s[3][1], d)))
            out.append(sshow(s[4], ind + 1, d))
        elif k == 'rep':
            P('REP ' + s[1])
            out.append(sshow(s[2], ind + 1, d))
        elif k == 'gam':
            P('GAM ' + show(s[1], d))
            out.append(sshow(s[2], ind + 1, d))
            P('ELSE')
            out.append(sshow(s[3], ind + 1, d))
        elif k == 'assign':
            P('%s %s %s' % (eshow(s[1], d), s[2], eshow(s[3], d)))
        elif k == 'signal':
            P('signal %s %s %s' % (s[1], eshow(('id', s[2]), d), [eshow(x, d) for x in s[3]]))
        elif k == 'component':
            P('component %s %s' % (eshow(('id', s[1]), d), [eshow(x, d) for x in s[2]]))
        elif k == 'if':
            P('if ' + eshow(s[1], d))
            out.append(sshow(s[2], ind + 1, d))
            P('else')
            out.append(sshow(s[3], ind + 1, d))
        elif k == 'block':
            out.append(sshow(s[1], ind, d))
        else:
            P(str(s)[:200])
    return '\n'.join(x for x in out if x)


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        print('##', f)
        a = parse_text(open(f).read())
        print(sshow(a))
