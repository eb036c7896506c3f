"""Canonical member names.

The requirement tables name data members and member functions.  Names carry no behaviour: when a class of the
analysed tree has lost a member of the recorded schema (sa/schema.json) and has gained one of the same type at the
same rank among the changed ones, the facts are rewritten to use the recorded name.  Anything else is left alone."""
import json, os

SCHEMA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'schema.json')


def strip(q):
    out, d = [], 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>' and d:
            d -= 1
        elif not d:
            out.append(ch)
    return ''.join(out)


def fields(r):
    return [[f['n'], strip(f['t'].get('t', ''))] for f in r['fields']]


def methods(F):
    out = {}
    for f in F.functions.values():
        if f.get('cls') and not f.get('ctor') and not f.get('dtor') and '(anonymous' not in f['q'] and 'operator' not in f['q']:
            c = strip(f['cls'])
            out.setdefault(c, {}).setdefault(f['f'], [strip(f['q']).split('::')[-1], [strip(p['t'].get('t', '')) for p in f['params']] + [bool(f.get('const'))]])
    return out


def build(F):
    s = {}
    for q, r in F.records.items():
        if '/src/' in (r['file'] or '') and 'anonymous' not in q:
            s.setdefault(strip(q), {'fields': fields(r)})
    for c, m in methods(F).items():
        if c in s:
            s[c]['methods'] = sorted({json.dumps(x) for x in m.values()})
    return s


def pair(old, new):
    """old, new: [[name, type]] -> {new name: old name} for members that only changed their name"""
    on, nn = {n for n, _ in old}, {n for n, _ in new}
    gone, come = [x for x in old if x[0] not in nn], [x for x in new if x[0] not in on]
    m = {}
    for t in {x[1] for x in gone}:
        a, b = [x[0] for x in gone if x[1] == t], [x[0] for x in come if x[1] == t]
        if len(a) == len(b):
            m.update(zip(b, a))
    return m


def walk(x, ren):
    if isinstance(x, dict):
        if x.get('k') == 'mem' and x.get('mk') == 'field':
            m = ren.get(strip(x.get('cls') or ''))
            if m and x['n'] in m:
                x['n'] = m[x['n']]
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v, ren)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                walk(v, ren)


def apply(F):
    try:
        s = json.load(open(SCHEMA))
    except OSError:
        return F
    ren = {}
    for q, r in F.records.items():
        b = s.get(strip(q))
        if b:
            m = pair(b['fields'], fields(r))
            if m:
                ren[strip(q)] = m
                for f in r['fields']:
                    f['n'] = m.get(f['n'], f['n'])
    if ren:
        for f in F.functions.values():
            walk(f, ren)
            m = ren.get(strip(f.get('cls') or ''))
            if m:
                for i in f.get('inits') or []:
                    if i.get('m') in m:
                        i['m'] = m[i['m']]
        for r in F.records.values():
            walk(r, ren)
        for l in F.globals.values():
            walk(l, ren)
    cur = methods(F)
    for c, m in cur.items():
        b = s.get(c)
        if not b or 'methods' not in b:
            continue
        old = [json.loads(x) for x in b['methods']]
        new = sorted({json.dumps(x) for x in m.values()})
        names = pair([[n, json.dumps(t)] for n, t in old], [[n, json.dumps(t)] for n, t in map(json.loads, new)])
        if names:
            ren['%s()' % c] = names
            for k in m:
                f = F.functions[k]
                n = m[k][0]
                if n in names:
                    h, _, t = f['q'].rpartition('::' + n)
                    if h:
                        f['q'] = h + '::' + names[n] + t
    F.renamed = ren
    return F


if __name__ == '__main__':
    import facts
    F = facts.load(canon=False)
    json.dump(build(F), open(SCHEMA, 'w'), indent=0, sort_keys=True)
    open(SCHEMA, 'a').write('\n')
