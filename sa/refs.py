"""The confirmed instance: facts of the reference tree, committed under /verif/ref."""
import gzip, json, os, sys
import facts

DIR = os.path.join(facts.VERIF, 'ref')


def load(names=None):
    out = []
    for n in names or facts.NAMES[:1]:
        with gzip.open(os.path.join(DIR, n + '.gz'), 'rt') as fh:
            out.append(json.load(fh))
    return out


def definitions(side):
    """definition name -> parsed definition"""
    if side == 'ref':
        with open(os.path.join(DIR, 'defs.json')) as fh:
            return json.load(fh)
    d = os.path.join(facts.REPO, 'packages/apis/src/decomposed_defs')
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith('.json'):
            try:
                with open(os.path.join(d, f)) as fh:
                    out[f[:-5]] = json.load(fh)
            except ValueError:
                pass
    return out


def save():
    d, dg = facts.produce()
    with open(os.path.join(DIR, 'defs.json'), 'w') as fh:
        json.dump(definitions('cur'), fh, indent=1, sort_keys=True)
        fh.write('\n')
    for n in facts.NAMES:
        with open(os.path.join(d, n), 'rb') as fh, open(os.path.join(DIR, n + '.gz'), 'wb') as out:
            with gzip.GzipFile(fileobj=out, mode='wb', mtime=0, filename='') as z:
                z.write(fh.read())


if __name__ == '__main__':
    save()
