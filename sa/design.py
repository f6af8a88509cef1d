"""design.py [RESULTS.json] - fill the generated tables of DESIGN.md (RESULTS: seeded change -> properties that report it)"""
import ast, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props


def fill(s, k, body):
    a, b = '<!-- %s -->\n' % k, '<!-- /%s -->' % k
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + body.strip('\n') + '\n\n' + s[j:]


def docs():
    """docstring of every rule"""
    out = {}
    for f in ('rules.py', 'bundle.py'):
        for n in ast.parse(open(os.path.join(HERE, f)).read()).body:
            if isinstance(n, ast.FunctionDef):
                out.setdefault(n.name, ast.get_docstring(n) or '')
    return out


def main():
    f = os.path.join(V, 'DESIGN.md')
    s = open(f).read()
    d = docs()
    used = {}
    for p in props.P:
        for o in p['obl']:
            if o.startswith('R:'):
                used.setdefault(o[2:], []).append(p['id'])
    s = fill(s, 'rules', '\n'.join('* `%s` (%s): %s' % (r, ', '.join(ids), ' '.join(d.get(r, '').split())) for r, ids in sorted(used.items())))
    s = fill(s, 'table', '| id | property | obligations | decided by |\n|---|---|---|---|\n' +
             '\n'.join('| %s | %s | %s | %s |' % (p['id'], p['title'], ' '.join('`%s`' % o for o in p['obl']), p['note']) for p in props.P))
    s = fill(s, 'na', '\n'.join('* **%s** %s: %s' % (i, t, r) for i, t, _, r in props.NA))
    fx = []
    for l in open(os.path.join(V, 'known-findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            fx.append(m.groups())
    by = {}
    for i, c, t in fx:
        by.setdefault(c, []).append((i, t))
    s = fill(s, 'fixes', '\n'.join('* `%s` %s' % (c, '; '.join('%s: %s' % x for x in v)) for c, v in by.items()))
    rows = []
    prev = {m.group(1): m.group(2) for m in re.finditer(r'^\| `([^`]+)` \|[^\n]*\| ([^|\n]*) \|$', s, re.M)}
    res = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
    sd = os.path.join(V, 'seeded')
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        r = ', '.join(res[n]) or 'missed' if n in res else prev.get(n, '?')
        rows.append('| `%s` | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], r))
    s = fill(s, 'seeded', '| change | property | what it breaks | needs | reported by |\n|---|---|---|---|---|\n' + '\n'.join(rows))
    open(f, 'w').write(s)


if __name__ == '__main__':
    main()
