"""Circom syntax trees as value terms, so that they can be fingerprinted and compared.

Arithmetic is kept in linear normal form and alternatives are decision diagrams; comments
are dropped (except the one the regex text is written into, see `comment_holes`).
"""
from terms import *
import terms as TM


def name(n):
    if isinstance(n, str):
        return mk('cid', n)
    return mk('cidp', *[lit(x) if isinstance(x, str) else mk('hole', x, '') for x in n])


def base(e):
    """name of the signal or component an expression starts from"""
    while isinstance(e, tuple) and e[0] in ('idx', 'dot'):
        e = e[1]
    if isinstance(e, tuple) and e[0] == 'id':
        return e[1] if isinstance(e[1], str) else ''.join(x if isinstance(x, str) else '#' for x in e[1])
    if isinstance(e, tuple) and e[0] in ('gam', 'egam'):
        return base(e[2])
    return None


def expr(e):
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'id':
        return name(e[1])
    if k == 'idx':
        return mk('cidx', expr(e[1]), expr(e[2]))
    if k == 'dot':
        return mk('cdot', expr(e[1]), e[2] if isinstance(e[2], str) else name(e[2]))
    if k == 'bin':
        a, b = expr(e[2]), expr(e[3])
        if e[1] == '+':
            return TM.add(a, b)
        if e[1] == '-':
            return TM.sub(a, b)
        if e[1] == '*':
            return TM.mul(a, b)
        if e[1] in ('>', '>='):
            return mk('cbin', {'>': '<', '>=': '<='}[e[1]], b, a)
        return mk('cbin', e[1], a, b)
    if k == 'un':
        return mk('cun', e[1], expr(e[2]))
    if k == 'call':
        return mk('ccall', name(e[1]) if isinstance(e[1], (str, tuple)) else expr(e[1]), lst(e[2]))
    if k == 'anon':
        return mk('canon', expr(e[1]), lst(e[2]))
    if k == 'arr':
        return mk('carr', lst(e[1]))
    if k == 'egam':
        return ite(e[1], expr(e[2]), expr(e[3]))
    if k == 'gam':
        return ite(e[1], lst(e[2]), lst(e[3]))
    if k == 'cond':
        return mk('ccond', expr(e[1]), expr(e[2]), expr(e[3]))
    if k == 'tuple':
        return mk('ctuple', lst(e[1]))
    raise ValueError('expression ' + str(k))


def lst(es):
    out = []
    for e in es:
        if e[0] == 'rep':
            out.append(mk('rep', e[1], lst(e[2])))
        elif e[0] == 'gam':
            t = ite(e[1], lst(e[2]), lst(e[3]))
            out.append(mk('gam', t) if t.op == 'ite' else mk('spl', t))
        else:
            out.append(mk('one', expr(e)))
    return seq(out)


def encode(ss, keep=None, rhs=True):
    """statement list -> sequence term; keep(stmt) selects statements, rhs=False erases right hand sides"""
    out = []
    for s in ss:
        out += stmt(s, keep, rhs)
    return TM.cat(*[mk('seq', x) for x in out]) if out else EMPTY


def stmt(s, keep, rhs):
    k = s[0]
    if k in ('template', 'function'):
        return [mk('one', mk('ctemplate', k, name(s[1]), tuple(name(p) for p in s[2]), encode(s[3], keep, rhs)))]
    if k == 'for':
        b = encode(s[4], keep, rhs)
        if b is EMPTY:
            return []
        return [mk('one', mk('cfor', encode([s[1]]), expr(s[2]), encode([s[3]]), b))]
    if k == 'while':
        b = encode(s[2], keep, rhs)
        return [mk('one', mk('cwhile', expr(s[1]), b))] if b is not EMPTY else []
    if k == 'if':
        a, b = encode(s[2], keep, rhs), encode(s[3], keep, rhs)
        return [mk('one', mk('cif', expr(s[1]), a, b))] if a is not EMPTY or b is not EMPTY else []
    if k == 'block':
        return list(segs(encode(s[1], keep, rhs)))
    if k == 'rep':
        b = encode(s[2], keep, rhs)
        return [mk('rep', s[1], b)] if b is not EMPTY else []
    if k == 'gam':
        t = ite(s[1], encode(s[2], keep, rhs), encode(s[3], keep, rhs))
        if t.op == 'ite':
            return [mk('gam', t)]
        return list(segs(t))
    if k == 'comment':
        return []
    if keep is not None and not keep(s):
        return []
    if k == 'assign':
        r = expr(s[3]) if rhs else mk('zst', 'erased')
        if not rhs and s[2] == '=':
            # component instances keep the gate and its arity
            r = expr(s[3])
        return [mk('one', mk('cassign', s[2], expr(s[1]), r))]
    if k == 'signal':
        return [mk('one', mk('csignal', s[1], name(s[2]), lst(s[3])))]
    if k == 'component':
        return [mk('one', mk('ccomponent', name(s[1]), lst(s[2])))]
    if k == 'var':
        return [mk('one', mk('cvar', name(s[1]), lst(s[2]), expr(s[3]) if s[3] is not None else UNIT))]
    if k == 'pragma':
        return [mk('one', mk('cpragma', *[mk('lit', str(x[1])) if not isinstance(x[1], T) else x[1] for x in s[1]]))]
    if k == 'include':
        return [mk('one', mk('cinclude', s[1]))]
    if k in ('return', 'assert', 'expr'):
        return [mk('one', mk('c' + k, expr(s[1])))]
    raise ValueError('statement ' + str(k))


def comments(ss, out=None):
    """terms printed into comments"""
    out = [] if out is None else out
    for s in ss:
        if s[0] == 'comment':
            out.append(s[1])
        elif s[0] in ('template', 'function'):
            comments(s[3], out)
        elif s[0] == 'for':
            comments(s[4], out)
        elif s[0] in ('rep', 'while'):
            comments(s[2], out)
        elif s[0] in ('gam', 'if'):
            comments(s[2], out)
            comments(s[3], out)
        elif s[0] == 'block':
            comments(s[1], out)
    return out
