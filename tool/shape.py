"""What the contracts know of the shape of each function: the names of its variables and its loops.

A contract names local variables. When a variable was only renamed, the contract is read with the new
name; the pairing is by order of declaration among the names that disappeared and those that appeared.
"""
import json, os, re
from weave import VERIF

PATH = os.path.join(VERIF, 'pinned', 'shape.json')


def of(f):
    names = []
    for v in f['vars']:
        if v[0] not in names:
            names.append(v[0])
    return {'vars': names, 'loops': [[l['kind'], l['parent'], bool((l.get('auto') or {}).get('exit'))] for l in f['loops']], 'text': '\n'.join(f['stmts'])}


def load():
    return json.load(open(PATH)) if os.path.exists(PATH) else {}


def pin(ir, known):
    out = {f['name']: of(f) for f in ir['functions'] if f['name'] in known and f['name'] not in ('from_signature', 'name', 'short_name', 'media_type', 'extension', 'kind')}
    json.dump(out, open(PATH, 'w'), indent=0, sort_keys=True)


PINNED = load()


def renames(w, name):
    """{contract's name: current name} for variables that seem renamed."""
    f, p = w.F.get(name), PINNED.get(name)
    if not f or not p:
        return {}
    now = of(f)['vars']
    gone = [v for v in p['vars'] if v not in now]
    new = [v for v in now if v not in p['vars']]
    if len(gone) != len(new):
        # temporaries the extractor introduced do not take part
        new = [v for v in new if '__' not in v]
        gone = [v for v in gone if '__' not in v]
    return dict(zip(gone, new)) if len(gone) == len(new) else {}


def same_loops(w, name):
    f, p = w.F.get(name), PINNED.get(name)
    if not f or not p:
        return False
    return of(f)['loops'] == p['loops']


def changed(w, name):
    f, p = w.F.get(name), PINNED.get(name)
    return not f or not p or '\n'.join(f['stmts']) != p['text']
