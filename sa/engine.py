"""Interprocedural value numbering over MIR facts.

Functions are evaluated block by block on the control-flow graph with joins (never path
by path): branch results are merged into decision diagrams, natural loops are collapsed
into recurrences (Loop records) with closed forms for induction variables, sequence
appends and keyed updates.  Local functions and closures are inlined by call site.
"""
import re
from terms import *
import terms as TM

LIMIT_DEPTH = 40


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or s[i - 1] not in '-='):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').rstrip(':')


def strip_ref(t):
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = t[1:].lstrip()
            m = re.match(r"'\w+ ", t)
            if m:
                t = t[m.end():]
            if t.startswith('mut '):
                t = t[4:]
        elif t.startswith('*const ') or t.startswith('*mut '):
            t = t.split(' ', 1)[1]
        else:
            return t


TRANSP = ('std::mem::MaybeUninit<', 'std::mem::ManuallyDrop<', 'std::boxed::Box<', 'std::boxed::BoxRaw<',
          'std::ptr::Unique<', 'std::ptr::NonNull<')


class Fn:
    def __init__(self, d, facts):
        self.d = d
        self.key = d.get('key', '')
        self.path = d.get('path', '')
        self.name = d.get('name') or self.path.split('::')[-1]
        self.locals = d['locals']
        self.names = {int(k): v for k, v in d['names'].items()}
        self.blocks = d['blocks']
        self.argc = d['argc']
        self.facts = facts
        self.sp = d.get('sp', '')
        self._analyse()

    def landing(self, b):
        """the first block on the way from b where something happens"""
        n = 0
        while b is not None and not self.blocks[b]['s'] and self.blocks[b]['t']['t'] == 'goto' and n < 50:
            b, n = self.blocks[b]['t']['to'], n + 1
        return b

    def succ(self, b):
        t = self.blocks[b]['t']
        k = t['t']
        if k in ('goto', 'drop', 'assert'):
            return [t['to']]
        if k == 'switch':
            return [x[1] for x in t['ts']] + [t['o']]
        if k == 'call':
            return [t['to']] if t['to'] is not None else []
        return []

    def _analyse(self):
        n = len(self.blocks)
        seen, order = set(), []
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ(b):
                preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                nw = ps[0]
                for p in ps[1:]:
                    x, y = p, nw
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                    nw = x
                if idom.get(b) != nw:
                    idom[b] = nw
                    ch = True
        self.idom, self.pos = idom, pos

        def dom(a, b):
            while b != a:
                if b == 0:
                    return False
                b = idom[b]
            return True
        loops = {}
        for b in self.rpo:
            for s in self.succ(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        # blocks that only lead to a panic belong to the loop they are reached from
        reach = {b for b in self.rpo if self.blocks[b]['t']['t'] == 'return'}
        st = list(reach)
        while st:
            for p in preds[st.pop()]:
                if p not in reach:
                    reach.add(p)
                    st.append(p)
        for body in loops.values():
            ch = True
            while ch:
                ch = False
                for b in self.rpo:
                    if b not in body and b not in reach and preds[b] and all(p in body for p in preds[b]):
                        body.add(b)
                        ch = True
        self.loops = loops
        self._live()

    def _uses(self, b):
        use, defs = set(), set()

        def place_use(p, isdef):
            if isdef and len(p) == 1:
                return
            if p[0] not in defs:
                use.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in defs:
                    use.add(e[1])

        def op(o):
            if o['k'] in ('copy', 'move'):
                place_use(o['p'], False)
        blk = self.blocks[b]
        for s in blk['s']:
            v = s['v']
            for k in ('a', 'b'):
                if k in v and isinstance(v[k], dict):
                    op(v[k])
            for o in v.get('ops', []):
                op(o)
            if 'p' in v:
                place_use(v['p'], False)
                if v['r'] == 'ref' and v.get('mut') and '*' not in v['p']:
                    self.addr.add(v['p'][0])
            place_use(s['d'], True)
            if len(s['d']) == 1:
                defs.add(s['d'][0])
        t = blk['t']
        if t['t'] == 'call':
            if t['f']['k'] in ('copy', 'move'):
                op(t['f'])
            for o in t['a']:
                op(o)
            place_use(t['d'], True)
            if len(t['d']) == 1:
                defs.add(t['d'][0])
        elif t['t'] in ('switch', 'assert'):
            op(t['a'])
        elif t['t'] == 'return':
            use.add(0)
        return use, defs

    def _live(self):
        self.addr = set()
        ud = {b: self._uses(b) for b in self.rpo}
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ(b):
                    o |= live[s]
                u, d = ud[b]
                n = u | (o - d)
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live


class Program:
    """all functions of the analysed crates"""

    def __init__(self, facts):
        self.fns = {}
        self.by_path = {}
        self.adts = {}
        self.promoted = {}
        for d in facts:
            for f in d['fns']:
                fn = Fn(f, d['crate'])
                self.fns[f['key']] = fn
                self.by_path[f['path']] = fn
                for i, p in enumerate(f['promoted']):
                    p = dict(p)
                    p['key'] = f['key'] + '#p%d' % i
                    self.promoted[(f['key'], i)] = Fn(p, d['crate'])
            for a in d['adts']:
                self.adts[a['path']] = a
                self.adts[a['path'].split('::', 1)[1]] = a

    def adt_of(self, ty):
        return self.adts.get(strip_generics(strip_ref(ty)))

    def find(self, name, crate=None):
        """functions (not closures) by name"""
        return [f for f in self.fns.values() if f.d.get('kind') in ('fn', 'method') and f.name == name
                and (crate is None or f.facts == crate)]


class Diverge(Exception):
    pass


class State(dict):
    def copy(self):
        return State(self)


# functions kept opaque whose calls are effects
FXCUTS = {'gen_circom_template', 'gen_halo2_tables', 'gen_from_raw', 'gen_from_decomposed', 'generate_outputs', 'process_decomposed', 'process_raw'}


class Engine:
    def __init__(self, prog, tag='', cuts=()):
        self.prog = prog
        self.tag = tag
        self.cuts = set(cuts)
        self.st = State()
        self.pc = TRUE
        self.know = TRUE
        self.frames = {}
        self.fnrefs = {}
        self.panics = {}
        self.unmodelled = {}
        self.lost = {}           # writes through references whose target is not known
        self.calls = {}
        self.depth = 0
        self.cur = None          # (fn, fid, block)
        self.loopstack = []
        self.loopids = {}
        self.ctx = []
        self.stack = []
        self.nblocks = 0
        self.inlined = set()
        self.exits = []
        self.frame_fn = {}
        self.diverged = {}
        import models
        self.models = models

    # ------------------------------------------------------------ helpers
    def fid(self, key):
        key = (key, tuple(self.ctx))
        if key not in self.frames:
            self.frames[key] = '%sf%d' % (self.tag, len(self.frames))
        return self.frames[key]

    def loopid(self, key, name):
        key = (key, tuple(self.ctx))
        if key not in self.loopids:
            self.loopids[key] = '%s%s.%d' % (self.tag, name, len(self.loopids))
        return self.loopids[key]

    def panic(self, kind, cond, site=None):
        c = band(self.pc, cond)
        if c is FALSE:
            return
        fn, fid, b = self.cur
        self.panics[(fid, b, kind)] = dict(kind=kind, cond=c, know=self.know, fn=fn.path, sp=TM.CUR['sp'],
                                           stack=tuple(self.stack), loops=tuple(self.loopstack), args=site)

    # ------------------------------------------------------------ references
    def read_ref(self, r):
        def f(x):
            if x.op != 'ref':
                return x
            v = self.st.get(x.a[0])
            if v is None:
                return mk('undef', str(x.a[0]))
            for s in x.a[1]:
                v = self.step(v, s)
            return v
        return lift(f, r)

    def step(self, v, s):
        if v.op == 'ref':
            v = self.read_ref(v)
        if s[0] == 'f':
            return fld(v, s[1], s[2])
        if s[0] == 'at':
            return at(v, s[1])
        if s[0] == 'key':
            return map_get(v, s[1])
        if s[0] == 'sl':
            return self.slice(v, s[1], s[2] if s[2] is not None else length(v))
        raise AssertionError(s)

    def deref(self, v):
        """value behind any references"""
        for _ in range(6):
            if v.op == 'ref' or (v.op == 'ite' and any(l.op == 'ref' for _, l in leaves(v))):
                v = self.read_ref(v)
            else:
                break
        return v

    def write_ref(self, r, val, cond=TRUE):
        for c, x in leaves(r):
            if x.op != 'ref':
                continue
            c = band(cond, c)
            self.assign(x.a[0], x.a[1], val, c)

    def assign(self, cell, path, val, cond=TRUE):
        old = self.st.get(cell)
        if old is None:
            old = mk('undef', str(cell))
        new = self.update(old, list(path), val)
        self.st[cell] = gam(cond, new, old) if cond is not TRUE else new

    def update(self, v, path, val):
        if not path:
            return val
        if v.op == 'ref':
            # path leads through a stored reference
            self.write_ref(lift(lambda x: mk('ref', x.a[0], x.a[1] + tuple(path)) if x.op == 'ref' else mk('bot'), v), val)
            return v
        s = path[0]
        if s[0] == 'f':
            cur = fld(v, s[1], s[2]) if v.op != 'undef' else mk('undef', '')
            names = None
            if s[3] and s[3] in self.prog.adts:
                a = self.prog.adts[s[3]]
                if len(a['variants']) == 1:
                    names = (s[3].split('::')[-1], [f[0] for f in a['variants'][0]['fields']])
            if v.op == 'undef':
                if names:
                    v = rec(names[0], '', names[1], [mk('undef', n) for n in names[1]])
                else:
                    return rec('()', '', [s[1]], [self.update(cur, path[1:], val)])
            return setfld(v, s[1], self.update(cur, path[1:], val), s[2], names)
        if s[0] == 'sl':
            if len(path) > 1 and path[1][0] == 'at':
                return self.update(v, [('at', add(s[1], path[1][1]))] + list(path[2:]), val)
            hi = s[2] if s[2] is not None else length(v)
            new = self.update(self.slice(v, s[1], hi), path[1:], val)
            head = EMPTY if s[1].op == 'int' and s[1].a[0] == 0 else take(v, s[1])
            return cat(head, new, drop(v, hi) if hi is not length(v) else EMPTY)
        keys = []
        cur = v
        while path and path[0][0] in ('at', 'key'):
            kind, k = path.pop(0)
            cur = map_get(cur, k) if kind == 'key' else at(cur, k)
            keys.append(mk('K', k) if kind == 'key' else k)
            if path and cur.op == 'ref':
                break
        if path:
            val = self.update(cur, path, val)
        if val is cur:
            return v
        app = self._append_of(val, cur)
        if app is not None:
            return upd_path(v, keys, 'kapp', app)
        return upd_path(v, keys, 'kset', val)

    def _append_of(self, val, cur):
        for kind in ('map', 'set'):
            if val.op == kind:
                a, b = segs(val.a[0]), segs(cont_seq(cur, kind))
                if len(a) > len(b) and a[:len(b)] == b:
                    return mk_cont(kind, seq(a[len(b):])) if kind == 'map' else seq(a[len(b):])
                return None
        if val.op == 'seq':
            a, b = segs(val), segs(cur)
            if cur is not EMPTY and len(a) > len(b) and a[:len(b)] == b:
                return seq(a[len(b):])
        return None

    # ------------------------------------------------------------ places
    def fieldname(self, ty, i, variant):
        a = self.prog.adt_of(ty)
        if a:
            for v in a['variants']:
                if not variant or v['name'] == variant:
                    if i < len(v['fields']):
                        return v['fields'][i][0], strip_generics(strip_ref(ty))
        b = strip_generics(strip_ref(ty))
        if b in ('std::ops::Range', 'core::ops::Range'):
            return ('start', 'end')[i], None
        return str(i), None

    def read_place(self, fr, p):
        fn, fid = fr
        v = self.st.get((fid, p[0]))
        ty = fn.locals[p[0]]
        if v is None:
            v = mk('undef', '')
        variant = ''
        for e in p[1:]:
            if e == '*':
                if v.op in ('ref', 'ite'):
                    v = self.read_ref(v)
                ty = self.deref_ty(ty)
            elif e[0] == 'f':
                if ty.startswith(TRANSP) or strip_ref(ty).startswith(TRANSP[:2]):
                    ty = e[2]
                    continue
                n, _ = self.fieldname(ty, e[1], variant)
                v = fld(v, n, variant)
                variant = ''
                ty = e[2]
                if ty == 'bool':
                    v = self.tobool(v)
            elif e[0] == 'v':
                variant = e[2]
            elif e[0] == 'i':
                v = at(v, self.st.get((fid, e[1]), mk('undef', '')))
                ty = self.elem_ty(ty)
            elif e[0] == 'ci':
                n = sub(length(v), int_(e[1])) if e[3] else int_(e[1])
                v = at(v, n)
                ty = self.elem_ty(ty)
            elif e[0] == 'ss':
                end = sub(length(v), int_(e[2])) if e[3] else int_(e[2])
                v = self.slice(v, int_(e[1]), end)
        return v

    def deref_ty(self, ty):
        t = ty.strip()
        if t.startswith('std::boxed::Box<'):
            return t[len('std::boxed::Box<'):-1]
        if t.startswith('&'):
            t = t[1:]
            m = re.match(r"'\w+ ", t)
            if m:
                t = t[m.end():]
            if t.startswith('mut '):
                t = t[4:]
            return t
        if t.startswith('*'):
            return t.split(' ', 1)[1]
        return t

    def elem_ty(self, ty):
        t = strip_ref(ty)
        if t.startswith('['):
            return t[1:-1].split(';')[0].strip()
        return ''

    def slice(self, v, a, b):
        if b is length(v):
            return drop(v, a)
        return drop(take(v, b), a)

    def place_loc(self, fr, p):
        """(cell, path) alternatives of a place: [(cond, cell, path)]"""
        fn, fid = fr
        locs = [(TRUE, (fid, p[0]), ())]
        ty = fn.locals[p[0]]
        variant = ''
        for e in p[1:]:
            if e == '*':
                out = []
                for c, cell, path in locs:
                    v = self.st.get(cell)
                    if v is None:
                        out.append((c, cell, path))
                        continue
                    for s in path:
                        v = self.step(v, s)
                    for c2, x in leaves(v):
                        c3 = band(c, c2)
                        if x.op == 'ref':
                            out.append((c3, x.a[0], x.a[1]))
                        elif x.op == 'bot':
                            pass
                        else:
                            if ty.startswith('&mut') and x.op != 'undef':
                                self.lost[(fn.path, show(x, 3)[:80])] = TM.CUR['sp']
                            out.append((c3, cell, path))
                locs = out
                ty = self.deref_ty(ty)
            elif e[0] == 'f':
                if ty.startswith(TRANSP) or strip_ref(ty).startswith(TRANSP[:2]):
                    ty = e[2]
                    continue
                n, adt = self.fieldname(ty, e[1], variant)
                locs = [(c, cell, path + (('f', n, variant, adt),)) for c, cell, path in locs]
                variant = ''
                ty = e[2]
            elif e[0] == 'v':
                variant = e[2]
            elif e[0] == 'i':
                i = self.st.get((fid, e[1]), mk('undef', ''))
                locs = [(c, cell, path + (('at', i),)) for c, cell, path in locs]
                ty = self.elem_ty(ty)
            elif e[0] == 'ci':
                i = int_(e[1])
                locs = [(c, cell, path + (('at', i),)) for c, cell, path in locs]
                ty = self.elem_ty(ty)
        return locs

    def write_place(self, fr, p, val):
        if len(p) == 1:
            self.st[(fr[1], p[0])] = val
            return
        for c, cell, path in self.place_loc(fr, p):
            self.assign(cell, path, val, c)

    def tobool(self, v):
        if v.op in ('ite', 'true', 'false', 'bot'):
            return v
        return atom(v)

    # ------------------------------------------------------------ operands, rvalues
    def operand(self, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read_place(fr, o['p'])
        if k == 'c':
            return self.const(o)
        if k == 'fn':
            t = mk('fnref', o['key'], '|'.join(o.get('args', [])))
            self.fnrefs[t] = o
            return t
        if k == 'closure':
            return mk('rec', 'closure', o['key'], (), ())
        if k == 'promoted':
            f = self.prog.promoted.get((o['fn'], o['idx']))
            if f is None:
                return mk('const', o['fn'] + str(o['idx']))
            return self.run_fn(f, [], 'p%s.%d' % (o['fn'], o['idx']))
        return mk('other', str(o))

    def const(self, o):
        if 'int' in o:
            return int_(o['int'])
        if 'bool' in o:
            return TRUE if o['bool'] else FALSE
        if 'char' in o:
            return mk('chr', o['char'])
        if 'str' in o:
            return lit(o['str'])
        if 'bytes' in o:
            return mk('bytes', tuple(o['bytes']))
        if o.get('zst'):
            if o['ty'] == '()':
                return UNIT
            return mk('zst', o['ty'])
        return mk('const', o.get('raw', ''))

    def op_ty(self, fr, o):
        if o['k'] in ('copy', 'move'):
            p = o['p']
            ty = fr[0].locals[p[0]]
            for e in p[1:]:
                if e == '*':
                    ty = self.deref_ty(ty)
                elif e[0] == 'f':
                    ty = e[2]
                elif e[0] in ('i', 'ci'):
                    ty = self.elem_ty(ty)
            return ty
        return o.get('ty', '')

    WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
             'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'isize': 63, 'i128': 127, 'char': 32, 'f32': 24, 'f64': 53}

    def cast(self, v, frm, to):
        if frm == 'bool':
            return gam(v, int_(1), int_(0))
        if v.op == 'chr':
            v = int_(v.a[0])
            frm = 'u32'
        wf, wt = self.WIDTH.get(frm), self.WIDTH.get(to)
        if wf is None or wt is None:
            return v
        if to == 'char':
            return mk('tochar', v) if v.op != 'int' else mk('chr', v.a[0])
        if wt >= wf:
            return v
        if to == 'f64':
            # exact for anything that is an index or a length
            return v
        if v.op == 'int' and to != 'f32':
            return int_(v.a[0] & ((1 << wt) - 1)) if v.a[0] >= 0 else v
        return mk('cast', to, v)

    def binop(self, op, a, b, ty=''):
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne') and (ty == 'bool'):
            a, b = self.tobool(a), self.tobool(b)
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('BitXor', 'Ne'):
                return ite(a, bnot(b), b)
            return ite(a, b, bnot(b))
        if op in ('Eq', 'Ne'):
            if a.op == 'disc' and b.op == 'int':
                r = self.disc_is(a, b.a[0])
            elif a.op == 'disc' and b.op == 'disc':
                r = FALSE
                for val, nm in a.a[1]:
                    r = bor(r, band(self.disc_is(a, val), self.disc_is(b, val)))
            else:
                r = eq(a, b)
            return bnot(r) if op == 'Ne' else r
        if a.op == 'chr' and b.op == 'chr':
            a, b = int_(a.a[0]), int_(b.a[0])
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op.startswith('Add'):
            r = add(a, b)
        elif op.startswith('Sub'):
            r = sub(a, b)
        elif op.startswith('Mul'):
            r = mul(a, b)
        else:
            if a.op == 'int' and b.op == 'int' and op in ('Div', 'Rem', 'BitAnd', 'BitOr', 'Shl', 'Shr') and (
                    op not in ('Div', 'Rem') or b.a[0]):
                x, y = a.a[0], b.a[0]
                r = int_({'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                          'Shl': lambda: x << y, 'Shr': lambda: x >> y}[op]())
            else:
                r = mk('bin', op.replace('WithOverflow', ''), a, b)
        if op.endswith('WithOverflow'):
            return tup(r, mk('ovf', r) if op.startswith('Sub') and r.op != 'int' else FALSE)
        return r

    def rvalue(self, fr, v):
        r = v['r']
        if r == 'use':
            return self.operand(fr, v['a'])
        if r == 'ref':
            if v.get('mut'):
                out = None
                for c, cell, path in self.place_loc(fr, v['p']):
                    x = ref(cell, path)
                    out = x if out is None else ite(c, x, out)
                return out if out is not None else mk('bot')
            return self.read_place(fr, v['p'])
        if r == 'cast':
            a = self.operand(fr, v['a'])
            if v['kind'].startswith(('IntToInt', 'IntToFloat', 'FloatToFloat')):
                return self.cast(a, self.op_ty(fr, v['a']), v['to'])
            return a
        if r == 'bin':
            return self.binop(v['op'], self.operand(fr, v['a']), self.operand(fr, v['b']), self.op_ty(fr, v['a']))
        if r == 'un':
            a = self.operand(fr, v['a'])
            if v['op'] == 'Not':
                if self.op_ty(fr, v['a']) == 'bool':
                    return bnot(self.tobool(a))
                return mk('un', 'Not', a)
            if v['op'] == 'PtrMetadata':
                return length(self.deref(a))
            if v['op'] == 'Neg':
                return sub(int_(0), a)
            return mk('un', v['op'], a)
        if r == 'disc':
            x = self.read_place(fr, v['p'])
            return mk('disc', self.deref(x), tuple((int(a), b) for a, b in v['vs']))
        if r == 'agg':
            ops = [self.operand(fr, o) for o in v['ops']]
            k = v['kind']
            if k == 'array':
                return ones(ops)
            if k == 'tuple':
                return tup(*ops)
            if k == 'adt':
                nm = v['adt'].split('::')[-1]
                a = self.prog.adts.get(v['adt'])
                variant = v['variant']
                if a and len(a['variants']) == 1 and a['variants'][0]['name'] == variant and nm == variant:
                    variant = ''
                elif nm == variant:
                    variant = ''
                return rec(nm, variant, v['fields'], ops)
            if k == 'closure':
                return rec('closure', v['key'], [str(i) for i in range(len(ops))], ops)
            return mk('agg', k, *ops)
        if r == 'repeat':
            a = self.operand(fr, v['a'])
            m = re.match(r'\d+', v['n'])
            return mk('repeat', a, int_(int(m.group())) if m else mk('const', v['n']))
        return mk('rv', str(v.get('dbg', r))[:80])

    def disc_is(self, d, val):
        for x, nm in d.a[1]:
            if x == val:
                return is_var(d.a[0], nm)
        return FALSE

    # ------------------------------------------------------------ region evaluation
    def merge(self, edges):
        if len(edges) == 1:
            return edges[0][0], edges[0][1].copy()
        joint = FALSE
        for c, _ in edges:
            joint = bor(joint, c)
        st = edges[-1][1].copy()
        for c, s in reversed(edges[:-1]):
            c = restrict(c, joint)
            if c is TRUE:
                st = s.copy()
                continue
            for k, v in s.items():
                w = st.get(k)
                if w is None:
                    st[k] = v
                elif w is not v:
                    st[k] = v if w.op == 'undef' else (w if v.op == 'undef' else gam(c, v, w))
        return joint, st

    def region(self, fr, blocks, entry, st0, header=None):
        """-> list of (kind, target, cond, state); kind in back/exit/ret"""
        fn, fid = fr
        incoming = {entry: [(TRUE, st0)]}
        out = []
        inner = {}
        for h in fn.loops:
            if h in blocks and h != header:
                inner[h] = fn.loops[h]
        skip = set()

        def edge(t, c, s):
            if c is FALSE:
                return
            if t == header:
                out.append(('back', t, c, s))
            elif t not in blocks:
                out.append(('exit', fn.landing(t) if header is not None else t, c, s))
            else:
                incoming.setdefault(t, []).append((c, s))
        for b in fn.rpo:
            if b not in blocks or b not in incoming or b in skip:
                continue
            pc, st = self.merge(incoming.pop(b))
            if pc is FALSE:
                continue
            if b in inner:
                body = inner[b]
                skip |= body
                self.st, self.pc = st, pc
                for kind, t, c, s in self.loop(fr, b, body, st, pc):
                    if kind == 'ret':
                        out.append(('ret', None, band(pc, c), s))
                    else:
                        edge(t, band(pc, c), s)
                continue
            for kind, t, c, s in self.block(fr, b, st, pc):
                if kind == 'ret':
                    out.append(('ret', None, c, s))
                else:
                    edge(t, c, s)
        return out

    def block(self, fr, b, st, pc):
        fn, fid = fr
        self.nblocks += 1
        self.st, self.pc, self.cur = st, pc, (fn, fid, b)
        blk = fn.blocks[b]
        for s in blk['s']:
            TM.CUR['sp'] = s['sp']
            self.write_place(fr, s['d'], self.rvalue(fr, s['v']))
        t = blk['t']
        k = t['t']
        if k == 'goto' or k == 'drop':
            return [('edge', t['to'], pc, self.st)]
        if k == 'return':
            return [('ret', None, pc, self.st)]
        if k == 'assert':
            TM.CUR['sp'] = t['sp']
            c = self.operand(fr, t['a'])
            c = self.tobool(c)
            if c.op == 'ite' and c.a[0].op == 'ovf' and c.a[1] is TRUE and c.a[2] is FALSE:
                c = bnot(TM.ge0(c.a[0].a[0]))
            bad = bnot(c) if t['exp'] else c
            m = t['msg']
            if 'Misaligned' not in m and 'NullPointer' not in m:
                self.panic('assert:' + m.split('(')[0].split('{')[0].strip(), restrict(bad, pc) if bad is not FALSE else
                           (TRUE if 'Overflow' in m else FALSE), None)
            return [('edge', t['to'], pc, self.st)]
        if k == 'switch':
            TM.CUR['sp'] = t['sp']
            v = self.operand(fr, t['a'])
            full = band(pc, self.know) if self.know is not TRUE else pc
            rest = TRUE
            out = []
            for val, tgt in t['ts']:
                if v.op == 'disc':
                    c = self.disc_is(v, int(val))
                elif t['ty'] == 'bool':
                    c = bnot(self.tobool(v)) if int(val) == 0 else self.tobool(v)
                elif t['ty'] == 'char':
                    c = eq(v, mk('chr', int(val)))
                elif v.op == 'cmpres':
                    c = self.models.cmp_is(v, int(val))
                else:
                    c = eq(v, int_(int(val)))
                c = restrict(c, full)
                c2 = band(rest, c)
                rest = band(rest, bnot(c))
                out.append((tgt, c2))
            out.append((t['o'], rest))
            # the last alternative of an exhaustive match
            if fn.blocks[t['o']]['t']['t'] == 'unreachable' and not fn.blocks[t['o']]['s']:
                tg, c = out[-2]
                out[-2] = (tg, bor(c, rest))
                out.pop()
            res = []
            for tgt, c in out:
                c = band(pc, c)
                if c is not FALSE:
                    res.append(('edge', tgt, c, self.st.copy()))
            return res
        if k == 'call':
            TM.CUR['sp'] = t['sp']
            try:
                v = self.call(fr, b, t)
            except Diverge:
                return []
            self.cur = (fn, fid, b)
            if t['to'] is None:
                return []
            self.pc = pc
            TM.CUR['sp'] = t['sp']
            self.write_place(fr, t['d'], v)
            return [('edge', t['to'], pc, self.st)]
        return []

    # ------------------------------------------------------------ calls
    def call(self, fr, b, t):
        fn, fid = fr
        f = t['f']
        args = [self.operand(fr, a) for a in t['a']]
        dty = fn.locals[t['d'][0]] if len(t['d']) == 1 else ''
        if f['k'] in ('copy', 'move'):
            return self.apply(self.operand(fr, f), args, 'c%d' % b)
        if f['k'] != 'fn':
            raise Diverge()
        self.calls[(fid, b)] = (f['path'], f.get('rpath'), t['sp'], fn.path)
        atys = [self.op_ty(fr, a) for a in t['a']]
        return self.call_fn(f, args, 'b%d' % b, dty, atys)

    SKIP_LOCAL = ('serde::', 'std::fmt::Debug', 'std::clone::Clone', 'clap::')

    def call_fn(self, f, args, site, dty='', atys=()):
        tr = f.get('trait', '')
        if f.get('local') and not tr.startswith(self.SKIP_LOCAL):
            g = self.prog.fns.get(f['rkey'])
            if g is not None:
                return self.run_fn(g, args, site)
        if not f.get('local'):
            g = self.prog.fns.get(f['rkey'])
            if g is not None and g.facts != self.root_crate:
                return self.run_fn(g, args, site)
        return self.models.call(self, f, args, site, dty, atys)

    root_crate = ''

    def run_fn(self, g, args, site):
        """inline g"""
        if g.name in self.cuts and self.depth > 0 and g.d.get('kind') in ('fn', 'method'):
            vals = [self.deref(a) for a in args]
            if g.name in FXCUTS:
                self.st[('FX',)] = cat(self.st.get(('FX',), EMPTY), one(mk('fx', 'call', g.name, *vals)))
            v = mk('app', 'cut:' + g.name, *vals)
            for i, a in enumerate(args):
                if g.locals[i + 1].startswith('&mut'):
                    self.write_ref(a, mk('app', 'cut:%s#%d' % (g.name, i), *vals))
            return self.tobool(v) if g.locals[0] == 'bool' else v
        if self.depth > LIMIT_DEPTH or self.stack.count(g.path) > 1:
            self.unmodelled[(g.path, 'depth')] = TM.CUR['sp']
            return mk('app', g.path, *args)
        save = (self.pc, self.know, self.cur, TM.CUR['sp'])
        pfid = self.cur[1] if self.cur else 'root'
        fid = self.fid((pfid, self.cur[2] if self.cur else 0, site, g.key))
        if self.pc is not TRUE:
            self.know = band(self.know, self.pc)
        self.frame_fn[fid] = g
        self.depth += 1
        self.stack.append(g.path)
        self.inlined.add(g.path)
        st = self.st.copy()
        for i, a in enumerate(args):
            st[(fid, i + 1)] = a
        outs = self.region((g, fid), set(g.rpo), 0, st)
        self.stack.pop()
        self.depth -= 1
        self.pc, self.know, self.cur, TM.CUR['sp'] = save
        rets = [(c, s) for kind, _, c, s in outs if kind == 'ret' and c is not FALSE]
        if not rets:
            raise Diverge()
        joint, st = self.merge(rets)
        rv = st.get((fid, 0), UNIT)
        for k in [k for k in st if k[0] == fid]:
            del st[k]
        self.st = st
        if g.locals[0] == '()':
            rv = UNIT
        return rv

    def apply(self, fv, args, site, dty=''):
        """call a function value"""
        fv = self.deref(fv)
        if fv.op == 'rec' and fv.a[0] == 'closure':
            g = self.prog.fns.get(fv.a[1])
            if g is not None:
                return self.run_fn(g, [fv] + list(args), site)
        if fv.op == 'fnref':
            f = self.fnrefs[fv]
            last = f['path'].split('::')
            # enum / struct constructor used as a function
            for pre in range(2, len(last) + 1):
                a = self.prog.adts.get('::'.join(last[:-1][-pre:])) if len(last) > 1 else None
                if a:
                    for v in a['variants']:
                        if v['name'] == last[-1]:
                            return rec(a['path'].split('::')[-1], last[-1], [x[0] for x in v['fields']], args)
            if f['path'] in ('std::option::Option::Some', 'std::prelude::v1::Some', 'std::option::Option::<T>::Some'):
                return some(args[0])
            if f['path'].startswith('std::result::Result') and last[-1] in ('Ok', 'Err'):
                return ok(args[0]) if last[-1] == 'Ok' else err(args[0])
            return self.call_fn(f, list(args), site, dty, [''] * len(args))
        if fv.op == 'zst':
            return mk('app', fv.a[0], *args)
        if fv.op == 'ite' and all(l.op == 'fnref' or l.op == 'rec' and l.a[0] == 'closure' for _, l in TM.leaves(fv)):
            # one of several functions, chosen beforehand
            return self.cond_eval(atom(fv.a[0]), lambda: self.apply(fv.a[1], args, site + 't', dty), lambda: self.apply(fv.a[2], args, site + 'e', dty))
        self.unmodelled[(fv.op, 'apply')] = TM.CUR['sp']
        return mk('app', 'apply', fv, *[self.deref(a) for a in args])

    def cond_eval(self, c, f1, f2):
        """value of `if c then f1() else f2()` with effects of the branch taken"""
        c = restrict(c, band(self.pc, self.know)) if self.pc is not TRUE or self.know is not TRUE else c
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        pc, st0 = self.pc, self.st.copy()
        res = []
        for cc, f in ((c, f1), (bnot(c), f2)):
            self.st, self.pc = st0.copy(), band(pc, cc)
            try:
                v = f()
                self.st[('RES',)] = v
                res.append((cc, self.st))
            except Diverge:
                pass
        self.pc = pc
        if not res:
            self.st = st0
            raise Diverge()
        _, self.st = self.merge(res)
        return self.st.pop(('RES',))

    # ------------------------------------------------------------ loops
    def loop(self, fr, header, body, st0, pc0):
        fn, fid = fr
        L = self.loopid((fid, header), fn.name)
        fx = st0.get(('FX',))
        if fx is not None and fx.op == 'ite':
            g = restrict(fx, band(self.know, pc0))
            if g is not fx:
                st0 = st0.copy()
                st0[('FX',)] = g
        if self.peelable(fr, body, st0):
            r = self.peel(fr, header, body, st0)
            if r is not None:
                return r
        live = fn.live[header] | fn.addr

        def is_live(cell):
            if cell[0] != fid:
                return True
            return cell[1] in live
        cand = []
        for b in body:
            blk = fn.blocks[b]
            for s in blk['s']:
                if '*' not in s['d']:
                    cand.append((fid, s['d'][0]))
            if blk['t']['t'] == 'call' and '*' not in blk['t']['d']:
                cand.append((fid, blk['t']['d'][0]))
        cand = [c for c in dict.fromkeys(cand) if c in st0 and is_live(c)]

        def ev(st):
            self.loopstack.append(L)
            save = self.know, self.pc
            self.know = band(self.know, pc0)
            try:
                return self.region(fr, body, header, st, header)
            finally:
                self.loopstack.pop()
                self.know, self.pc = save
        hint = {c: fn.names.get(c[1]) for c in cand}
        return self.loop_core(L, st0, is_live, cand, ev, fn, fn.blocks[header]['t'].get('sp') or fn.sp)

    def peelable(self, fr, body, st0):
        fn, fid = fr
        for b in body:
            t = fn.blocks[b]['t']
            if t['t'] == 'call' and t['f'].get('name') == 'next' and t['a'] and t['a'][0]['k'] == 'move':
                l = t['a'][0]['p'][0]
                for s in fn.blocks[b]['s']:
                    if s['d'] == [l] and s['v']['r'] == 'ref':
                        for c, cell, path in self.place_loc_safe(fr, s['v']['p'], st0):
                            v = st0.get(cell)
                            if v is not None and not path:
                                n = length(v)
                                if n.op == 'int' and n.a[0] <= 40:
                                    return True
        return False

    def place_loc_safe(self, fr, p, st):
        save = self.st
        self.st = st
        try:
            return self.place_loc(fr, p)
        except Exception:
            return []
        finally:
            self.st = save

    def peel(self, fr, header, body, st0):
        cur, acc, exits = st0, TRUE, []
        for n in range(64):
            self.ctx.append(('p', fr[1], header, n))
            try:
                outs = self.region(fr, body, header, cur.copy(), header)
            finally:
                self.ctx.pop()
            backs = [(c, s) for k, t, c, s in outs if k == 'back']
            for k, t, c, s in outs:
                if k != 'back':
                    exits.append((k, t, band(acc, c), s))
            if not backs:
                return exits
            j, cur = self.merge(backs)
            acc = band(acc, j)
        return None

    def mkmu(self, L, key, init):
        if init.op == 'rec' and (init.a[1] == '' or init.a[0] == 'closure') and init.a[2]:
            return mk('rec', init.a[0], init.a[1], init.a[2],
                      tuple(v if v.op == 'ref' else self.mkmu(L, key + '.' + n, v) for n, v in zip(init.a[2], init.a[3])))
        return mk('mu', L, key)

    def mukeys(self, L, key, init, nxt, out):
        """flatten (init,next) per mu leaf"""
        if init.op == 'rec' and (init.a[1] == '' or init.a[0] == 'closure') and init.a[2]:
            for n, v in zip(init.a[2], init.a[3]):
                if v.op == 'ref':
                    continue
                self.mukeys(L, key + '.' + n, v, fld(nxt, n) if init.a[1] == '' else fld(nxt, n, init.a[1]), out)
        else:
            out[key] = (init, nxt)

    def cellname(self, cell):
        f = self.frame_fn.get(cell[0])
        n = f.names.get(cell[1]) if f else None
        return '%s%s' % (n + '@' if n else '', '.'.join(str(x) for x in cell))

    def loop_core(self, L, st0, is_live, cand, ev, fn, sp, natural=None, elem=None):
        """generic loop: ev(state) -> outcomes of one iteration; returns exits"""
        M = list(cand)
        steps = {c for c in st0 if natural is None and mutiter(st0[c])}
        eta = {}
        for rnd in range(8):
            st = st0.copy()
            hdr, step = {}, {}
            for c in M:
                if c in steps:
                    # an iterator handing out mutable references, advanced once per iteration
                    hdr[c] = step[c] = drop_(st0[c], mk('idx', L))
                else:
                    hdr[c] = self.mkmu(L, self.cellname(c), st0[c])
                    if c in eta:
                        a, ns = eta[c]
                        hdr[c] = rec(a, '', ns, [mk('mu', L, self.cellname(c) + '.' + n) for n in ns])
                st[c] = hdr[c]
            LOOPS.pop(L, None)
            outs = ev(st.copy())
            backs = [(c, s) for k, t, c, s in outs if k == 'back']
            if not backs:
                break
            jb, sb = self.merge(backs)
            bad = [c for c in step if sb.get(c) is not None and sb[c] is not drop_(st0[c], add(mk('idx', L), int_(1)))]
            if bad:
                for c in bad:
                    steps.discard(c)
                    self.unmodelled.setdefault(('advance of ' + str(c), fn.path if fn else ''), sp)
                continue
            new = [c for c in st0 if c not in M and is_live(c) and sb.get(c) is not None and sb[c] is not st0[c]]
            # a structure updated field by field
            wide = {}
            for c in M:
                if c not in step and c not in eta and hdr[c].op == 'mu' and sb.get(c) is not None:
                    ls = [l for _, l in leaves(sb[c]) if l is not hdr[c]]
                    if ls and all(l.op == 'rec' and l.a[1] == '' and l.a[0] not in ('()', 'closure') and (l.a[0], l.a[2]) == (ls[0].a[0], ls[0].a[2]) for l in ls):
                        wide[c] = (ls[0].a[0], ls[0].a[2])
            eta.update(wide)
            # drop invariants early
            if not new and not wide:
                break
            M += new
        if not backs:
            # body never repeats: not really a loop
            m = {}
            for c in M:
                if c in step:
                    m[mk('idx', L)] = int_(0)
                elif c in eta:
                    for n in eta[c][1]:
                        m[mk('mu', L, self.cellname(c) + '.' + n)] = fld(st0[c], n)
                else:
                    self._mumap(hdr[c], st0[c], m)
            return [(k, t, subst(cnd, m), self.substate(s, m)) for k, t, cnd, s in outs]
        rec_ = {}
        for c in M:
            if c in step:
                continue
            if c in eta:
                for n in eta[c][1]:
                    rec_[self.cellname(c) + '.' + n] = (fld(st0[c], n), fld(sb.get(c, st0[c]), n))
                continue
            self.mukeys(L, self.cellname(c), st0[c], sb.get(c, st0[c]), rec_)
        exits = [(k, t, c, s) for k, t, c, s in outs if k != 'back']
        conds = [c for k, t, c, s in exits]
        idx = mk('idx', L)
        total = {mk('mu', L, 'step:' + self.cellname(c)): hdr[c] for c in step}
        # closed forms, to a fixpoint
        for rnd in range(10):
            m = {}
            for key, (i, n) in rec_.items():
                mu = mk('mu', L, key)
                if n is mu or n is i and not self._mentions(n, L):
                    m[mu] = i
                    continue
                cf = self.closed(mu, i, n, idx, L)
                if cf is not None:
                    m[mu] = cf
            if not m:
                m = self.kept_keys(L, rec_, conds)
            if not m:
                # reads of elements that only later iterations overwrite
                for key, (i, n) in rec_.items():
                    mu = mk('mu', L, key)
                    r = self.own_index(mu, i, n, idx)
                    if r:
                        m.update(r)
                if m:
                    memo = {}
                    nr = {k: (i, subst(n, m, memo)) for k, (i, n) in rec_.items()}
                    if all(nr[k][1] is rec_[k][1] for k in nr):
                        break
                    rec_ = nr
                    conds = [subst(c, m, memo) for c in conds]
                    exits = [(k, t, c2, self.substate(s, m, memo)) for (k, t, c, s), c2 in zip(exits, conds)]
                    continue
                break
            memo = {}
            total = {k: subst(v, m, memo) for k, v in total.items()}
            for k in m:
                total[k] = m[k]
            rec_ = {k: (i, subst(n, m, memo)) for k, (i, n) in rec_.items() if mk('mu', L, k) not in m}
            conds = [subst(c, m, memo) for c in conds]
            exits = [(k, t, c2, self.substate(s, m, memo)) for (k, t, c, s), c2 in zip(exits, conds)]
            jb = subst(jb, m, memo)
        # the natural exit: index reached the count
        count, nat, rng, known = natural, None, None, None
        if natural is None:
            for d in self.iterdoms(total, idx):
                n = length(d)
                if n.op != 'ite' or L in n.dep:
                    continue
                want = lift(lambda x: eq0(sub(length(x), idx)), d)
                for j, c in enumerate(conds):
                    if c is want:
                        count, nat = n, j
                        known = FALSE
                        for lc, l in leaves(n):
                            if not (l.op == 'int' and l.a[0] == 0):
                                known = bor(known, lc)
                        # inside the loop iterations remain
                        go = lift(lambda x: FALSE if length(x) is int_(0) else bnot(eq0(sub(length(x), idx))), d)
                        break
                if nat is not None:
                    break
        if natural is None and nat is None:
            for n, c in enumerate(conds):
                for a in atoms_of(c):
                    r = self.count_atom(a, idx, L)
                    if r is not None:
                        cnt, pol = r       # pol: atom true means iterations remain
                        if cof(c, a, pol) is FALSE:
                            count, nat, rng = cnt, n, (a, pol)
                            break
                if nat is not None:
                    break
        lp = Loop(L)
        lp.sp, lp.fn = sp, fn.path if fn else ''
        lp.parent = self.loopstack[-1] if self.loopstack else None
        guard = None
        if rng is not None:
            a, pol = rng
            fix = lambda t: self.cofdeep(t, a, pol)
            rec_ = {k: (i, fix(n)) for k, (i, n) in rec_.items()}
            conds = [c if j == nat else cof(c, a, pol) for j, c in enumerate(conds)]
        if known is not None:
            memo = {}
            rec_ = {k: (i, prune(n, go, memo)) for k, (i, n) in rec_.items()}
            conds = [c if j == nat else prune(c, go, memo) for j, c in enumerate(conds)]
        # ways out of the loop to the same place are one
        groups = {}
        for j, (k, t, c, s) in enumerate(exits):
            groups.setdefault(('', j) if j == nat or k != 'exit' or t is None else (k, t), []).append(j)
        if len(groups) < len(exits):
            ne, nc, nn = [], [], None
            for js in groups.values():
                js = [j for j in js if j == nat or conds[j] is not FALSE] or js[:1]
                if nat in js:
                    nn = len(ne)
                k, t, _, _ = exits[js[0]]
                c, s = self.merge([(conds[j], exits[j][3]) for j in js])
                ne.append((k, t, c, s))
                nc.append(c)
            exits, conds, nat = ne, nc, nn
        # the next iteration is only reached if no way out was taken
        if natural is None:
            out = FALSE
            for j, c in enumerate(conds):
                if j != nat:
                    out = bor(out, c)
            if out is not FALSE and out is not TRUE and len(TM.atoms_of(out)) <= 10:
                go, memo = bnot(out), {}
                rec_ = {k: (i, prune(n, go, memo)) for k, (i, n) in rec_.items()}
        # domain of an iterator loop / filtered domain fusion
        doms = set()
        if count is not None:
            doms.update(self.iterdoms(total, idx))
            for t in total.values():
                if t.op == 'range' and not (t.a[1].dep & {L}):
                    doms.add(mk('range', subst(t.a[0], {idx: int_(0)}), t.a[1]))
            fused = self.fuse(L, idx, doms, count, rec_, conds, nat)
            if fused:
                rec_, conds, count, guard, fm = fused
                total.update(fm)
                exits = [(k, t, c, self.substate(s, fm)) for k, t, c, s in exits]
        lp.count = count
        doms = sorted(doms, key=lambda d: d.id)
        lp.dom = doms[0] if doms else None
        lp.guard = guard
        lp.cells = dict(rec_)
        LOOPS[L] = lp
        # values after the loop
        fin = {}
        for key, (i, n) in rec_.items():
            mu = mk('mu', L, key)
            acc = self.accumulated(mu, i, n, L, idx, count)
            fin[mu] = acc if acc is not None else mk('fin', L, key)
        un = self.unrolled(L, rec_, idx, count, guard, [c for j, c in enumerate(conds) if j != nat])
        if un is not None:
            fin.update(un)
        lp.acc = {k: fin[mk('mu', L, k)] for k in rec_}
        for mu, cf in total.items():
            if mu.op == 'mu' and count is not None and mu not in fin:
                fin[mu] = subst(cf, {idx: count})
        lp.exits = {}
        res = []
        others = FALSE
        nonnat = [j for j in range(len(exits)) if j != nat]
        if natural is not None:
            nat = -1
        only = nat is None and len(exits) == 1
        for j in nonnat:
            k, t, c, s = exits[j]
            if conds[j] is FALSE:
                continue
            lp.exits[j] = conds[j]
            if only:
                m = {mk('mu', L, key): fin[mk('mu', L, key)] if mk('mu', L, key) in fin else mk('fin', L, key) for key in rec_}
                m[idx] = mk('fin', L, 'idx')
                res.append((k, t, TRUE, self.substate(s, m)))
                continue
            ex = mk('exit', L, str(j))
            if nat is None and j == nonnat[-1]:
                ec = bnot(others)
            else:
                ec = band(atom(ex), bnot(others)) if others is not FALSE else atom(ex)
            others = bor(others, ec)
            m = {mk('mu', L, key): mk('finx', L, str(j), key) for key in rec_}
            m[idx] = mk('finx', L, str(j), 'idx')
            res.append((k, t, ec, self.substate(s, m)))
        if nat is not None and nat >= 0:
            k, t, c, s = exits[nat]
            m = dict(fin)
            m[idx] = count
            if guard is not None:
                pass
            res.append((k, t, bnot(others), self.substate(s, m)))
        if natural is not None:
            m = dict(fin)
            m[idx] = count
            s = st.copy()
            memo = {}
            full = dict(total)
            s2 = State()
            for c, v in s.items():
                v = subst(v, full, None) if v.dep else v
                s2[c] = subst(v, m, memo) if v.dep else v
            res.append(('exit', 'nat', bnot(others), s2))
        return res

    def unrolled(self, L, rec_, idx, count, guard, conds):
        """values after a loop over a few known elements that nothing leaves early"""
        if count is None or count.op != 'int' or not 0 <= count.a[0] <= 8 or guard is not None or any(c is not FALSE for c in conds):
            return None
        cur = {mk('mu', L, k): i for k, (i, n) in rec_.items()}
        for j in range(count.a[0]):
            m = dict(cur)
            m[idx] = int_(j)
            memo = {}
            cur = {mk('mu', L, k): subst(n, m, memo) for k, (i, n) in rec_.items()}
        return cur

    def _mumap(self, h, init, m):
        if h.op == 'mu':
            m[h] = init
        elif h.op == 'rec':
            for a, b in zip(h.a[3], init.a[3]):
                self._mumap(a, b, m)

    def substate(self, s, m, memo=None):
        if not m:
            return s
        memo = {} if memo is None else memo
        r = State()
        for c, v in s.items():
            r[c] = subst(v, m, memo) if v.dep else v
        return r

    def _mentions(self, t, L):
        return L in t.dep

    def cofdeep(self, t, a, pol):
        if not (set(a.dep) & set(t.dep)):
            return t
        return subst(t, {a: TRUE if pol else FALSE}) if True else t

    def closed(self, mu, i, n, idx, L):
        """closed form of mu in the iteration number"""
        d = None
        if n.op == 'ite' and n.a[0] is mu:
            n = ite(mu, TRUE if n.a[1] is mu else n.a[1], FALSE if n.a[2] is mu else n.a[2])
        if n.op in ('lin', 'mu'):
            d = sub(n, mu)
            if d.op == 'int':
                return add(i, mul(int_(d.a[0]), idx))
        if n.op == 'drop' and n.a[0] is mu and n.a[1].op == 'int':
            return drop(i, mul(n.a[1], idx)) if i.op != 'range' else mk('range', add(i.a[0], mul(n.a[1], idx)), i.a[1])
        if not (set(n.dep) & {L}):
            if n is i:
                return i
            if {i, n} == {TRUE, FALSE}:
                # a flag for the first round
                return ite(eq0(idx), i, n)
        return None

    def kept_keys(self, L, rec_, conds):
        """keys a map has before the loop, which no iteration removes: the map has them throughout"""
        r = {}
        for key, (i, n) in rec_.items():
            mu = mk('mu', L, key)
            if i.op != 'map' or n.op != 'map':
                continue

            def grows(q):
                return all(s.op in ('kset', 'kapp', 'one') or s.op == 'spl' and s.a[0] is mu or
                           s.op == 'gam' and all(grows(l) for _, l in leaves(s.a[0])) for s in segs(q))
            if not all(l.op == 'seq' and grows(l) for _, l in leaves(n.a[0])):
                continue
            seen, todo = set(), [x for _, x in rec_.values()] + list(conds)
            while todo:
                t = todo.pop()
                if t.id in seen or L not in t.dep:
                    continue
                seen.add(t.id)
                if t.op == 'has' and L not in t.a[1].dep:
                    q = segs(t.a[0].a[0]) if t.a[0].op == 'map' else ()
                    if (t.a[0] is mu or q and q[0].op == 'spl' and q[0].a[0] is mu) and map_has(i, t.a[1]) is TRUE:
                        r[t] = TRUE
                todo += [x for x in t.a if isinstance(x, type(t))]
                for x in t.a:
                    if isinstance(x, tuple):
                        todo += [y for y in x if isinstance(y, type(t))]
        return r

    def own_index(self, mu, i, n, idx):
        """vector updated only at the current index: at(mu, idx) is still the initial element"""
        if n is not mu and self.only_at(n, mu, idx):
            return {mk('at', mu, idx): at(i, idx)}
        if n.op == 'map':
            q = segs(n.a[0])
            if q and q[0].op == 'spl' and q[0].a[0] is mu:
                ps = self._upd_paths(seq(q[1:]))
                if ps and all(p and p[0] is ps[0][0] for p in ps) and idx.a[0] in ps[0][0].dep and \
                        ps[0][0].a[0].op == 'fld' and ps[0][0].a[0].a[0].op == 'at':
                    k = ps[0][0].a[0]
                    return {mk('mget', mu, k): map_get(i, k)}
        return None

    def only_at(self, n, mu, idx, depth=6):
        """n is mu with updates of the element idx only, inner loops included"""
        if n is mu:
            return True
        if depth == 0:
            return False
        if n.op == 'ite':
            return all(self.only_at(l, mu, idx, depth) for _, l in leaves(n))
        if n.op == 'arr':
            return all(p and p[0] is idx for p in self._upd_paths(n.a[1])) and self.only_at(n.a[0], mu, idx, depth)
        if n.op == 'fin' and n.a[0] in LOOPS:
            c = LOOPS[n.a[0]].cells.get(n.a[1])
            return c is not None and self.only_at(c[0], mu, idx, depth - 1) and self.only_at(c[1], mk('mu', n.a[0], n.a[1]), idx, depth - 1)
        return False

    def _upd_paths(self, q):
        out = []
        for _, l in leaves(q):
            for s in segs(l):
                if s.op in ('kset', 'kapp'):
                    out.append(s.a[0])
                elif s.op == 'one' and s.a[0].op == 'rec' and s.a[0].a[0] == '()':
                    out.append((mk('K', fld(s.a[0], '0')),))
                elif s.op == 'gam':
                    out += self._upd_paths(s.a[0])
                elif s.op == 'rep':
                    out += self._upd_paths(s.a[1])
                else:
                    out.append(())
        return out

    def iterdoms(self, total, idx):
        """sequences iterated over in step with idx"""
        out = []
        for t in total.values():
            ls = [l for _, l in leaves(t)]
            if ls and all(l.op == 'drop' and l.a[1] is idx for l in ls):
                d = lift(lambda l: l.a[0], t)
                if d not in out:
                    out.append(d)
        return out

    def count_atom(self, a, idx, L):
        """(count, polarity) if atom says whether iterations remain"""
        if a.op == 'ge0':
            c, ps = lin_parts(a.a[0])
            d = dict(ps)
            if d.get(idx) == -1:
                del d[idx]
                cnt = lin(c + 1, d)
                if L not in cnt.dep:
                    return cnt, True
            elif d.get(idx) == 1:
                # idx >= count
                d2 = {k: -v for k, v in d.items() if k is not idx}
                cnt = lin(-c, d2)
                if L not in cnt.dep:
                    return cnt, False
        if a.op == 'eq0':
            c, ps = lin_parts(a.a[0])
            d = dict(ps)
            s = d.get(idx)
            if s in (1, -1):
                cnt = lin(c * -s, {k: v * -s for k, v in d.items() if k is not idx})
                if L not in cnt.dep:
                    return cnt, False
        return None

    def fuse(self, L, idx, doms, count, rec_, conds, nat):
        for s in list(doms):
            if s.op != 'seq' or len(s.a) != 1 or s.a[0].op != 'rep':
                continue
            L0, bodyq = s.a[0].a
            l0 = LOOPS.get(L0)
            if l0 is None or l0.count is None or self.has_mu(bodyq, L0):
                continue
            elems = [(c, l) for c, l in leaves(bodyq)]
            if not all(l is EMPTY or (l.op == 'seq' and len(l.a) == 1 and l.a[0].op == 'one') for _, l in elems):
                continue
            if not any(l is EMPTY for _, l in elems):
                continue
            N = self.loopid(('fuse', L), L.split('.')[0])
            e = None
            g = FALSE
            for c, l in elems:
                if l is not EMPTY:
                    g = bor(g, c)
                    e = l.a[0].a[0] if e is None else gam(c, l.a[0].a[0], e)
            m0 = {mk('idx', L0): mk('elem', 'I' + L)}
            e, g = subst(e, m0), subst(g, m0)
            m = {mk('at', s, idx): e}
            nr = {k: (i, subst(n, m)) for k, (i, n) in rec_.items()}
            nc = [subst(c, m) for c in conds]
            bad = any(self.has_idx(n, L) for i, n in nr.values()) or any(
                self.has_idx(c, L) for j, c in enumerate(nc) if j != nat)
            if bad:
                continue
            back = {mk('elem', 'I' + L): idx}
            g = subst(g, back)
            nr = {k: (i, gam(g, subst(n, back), mk('mu', L, k))) for k, (i, n) in nr.items()}
            nc = [c if j == nat else band(g, subst(c, back)) for j, c in enumerate(nc)]
            doms.clear()
            if l0.dom is not None:
                doms.add(l0.dom)
            return nr, nc, l0.count, g, {mk('at', s, idx): subst(e, back)}
        return None

    def has_idx(self, t, L):
        return contains(t, lambda x: x.op == 'idx' and x.a[0] == L)

    def has_mu(self, t, L):
        return contains(t, lambda x: x.op == 'mu' and x.a[0] == L)

    def accumulated(self, mu, i, n, L, idx, count):
        def tail(q, h):
            q = segs(q)
            if q and q[0] is h:
                rest = seq(q[1:])
                if not contains(rest, lambda x: x is mu):
                    return rest
            return None
        spl = mk('spl', mu)
        if n.op == 'seq':
            j = self.separated(mu, i, n, L, idx, count)
            if j is not None:
                return j
            r = tail(n, spl)
            if r is not None:
                return cat(i, mk('seq', mk('rep', L, r)))
        if n.op in ('map', 'set'):
            r = tail(n.a[0], spl)
            if r is not None and n.op == 'map' and r.op == 'seq' and len(r.a) == 1 and r.a[0].op == 'one' and count is not None and count is length(i) and \
                    fld(r.a[0].a[0], '0') is fld(at(i, idx), '0'):
                # every entry is replaced
                return mk_cont('map', mk('seq', mk('rep', L, r)))
            if r is not None:
                return mk_cont(n.op, cat(cont_seq(i, n.op), mk('seq', mk('rep', L, r))))
        if n.op == 'arr' and n.a[0] is mu and not contains(n.a[1], lambda x: x is mu):
            q = n.a[1]
            v = self.all_elems(i, q, idx, count)
            if v is not None:
                return mk('seq', mk('rep', L, one(v)))
            if i.op == 'arr':
                return mk_arr(i.a[0], cat(i.a[1], mk('seq', mk('rep', L, q))))
            return mk_arr(i, mk('seq', mk('rep', L, q)))
        return None

    def separated(self, mu, i, n, L, idx, count):
        """text that grows by an element per round, with a separator before all but the first -> join"""
        q = n.a
        if len(q) < 3 or q[0] is not mk('spl', mu) or q[1].op != 'gam' or q[1].a[0].op != 'ite':
            return None
        c, u, v = q[1].a[0].a
        rest = seq(q[2:])
        if u is not EMPTY or v.op != 'seq' or not v.a or any(x.op != 'lit' for x in v.a) or contains(rest, lambda x: x is mu):
            return None
        empty = i is EMPTY and any(x.op == 'lit' and x.a[0] for x in q[2:]) and eq0(length(mu))
        if TM.atom(c) is not eq0(idx) and TM.atom(c) is not empty:
            return None
        s = mk('seq', mk('rep', L, one(rest)))
        if len(q) == 3 and q[2].op == 'spl' and q[2].a[0].op == 'at' and q[2].a[0].a[1] is idx and not self.has_idx(q[2].a[0].a[0], L) and \
                count is length(q[2].a[0].a[0]):
            s = q[2].a[0].a[0]
        return cat(i, self.models.join(s, v))

    def all_elems(self, i, q, idx, count):
        """vector whose every element idx is rewritten from itself -> element expression"""
        if count is None or count is not length(i):
            return None

        def f(l):
            v = at(i, idx)
            for s in segs(l):
                if s.op not in ('kset', 'kapp') or s.a[0][0] is not idx:
                    return mk('bad')
                v = upd_path(v, s.a[0][1:], s.op, s.a[1])
            return v
        r = None
        if q.op == 'ite':
            r = lift(f, q)
        else:
            r = f(q)
            if len(q.a) == 1 and q.a[0].op == 'gam':
                r = lift(f, q.a[0].a[0])
        if contains(r, lambda x: x.op == 'bad'):
            return None
        return r


def drop_(v, i):
    return lift(lambda x: mk('drop', x.a[0], add(x.a[1], i)) if x.op == 'drop' else mk('drop', x, i), v) if i is not int_(0) else v


def mutiter(v):
    """an iterator over mutable references"""
    n = 0
    for _, l in leaves(v):
        while l.op in ('drop', 'enum', 'rev', 'take', 'zip'):
            l = l.a[0]
        if l.op not in ('muts', 'mapmuts', 'mvmuts'):
            return False
        n += 1
    return n > 0


def prune(t, c, memo):
    """t simplified everywhere under the knowledge c"""
    if c is TRUE or not isinstance(t, T):
        return t

    def down(x, c):
        if isinstance(x, tuple):
            return tuple(down(y, c) for y in x)
        if not isinstance(x, T) or c is TRUE:
            return x
        r = memo.get((x, c))
        if r is not None:
            return r
        if x.op == 'ite':
            y = restrict(x, c)
            if y is not x:
                r = down(y, c)
            else:
                a = down(x.a[0], c)
                cc = a if a.op == 'ite' or TM.is_bool(a) else TM.atom(a)
                c1, c0 = cof(c, x.a[0], True), cof(c, x.a[0], False)
                b1, b0 = down(x.a[1], c1 if c1 is not FALSE else c), down(x.a[2], c0 if c0 is not FALSE else c)
                r = gam(cc, b1, b0) if (cc, b1, b0) != x.a else x
        elif not x.a or x.op in ('int', 'lit', 'param', 'chr'):
            r = x
        else:
            n = tuple(down(y, c) for y in x.a)
            r = x if n == x.a else TM.rebuild(x, lambda y: down(y, c), lambda L: L)
        memo[(x, c)] = r
        return r
    return down(t, c)
