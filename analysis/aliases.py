"""Names of private items may change without any change of behaviour.  The properties are stated on
behaviour; a few private types, fields and functions serve as anchors.  schema.json records how those
looked when the specifications were written, and resolve() gives an item renamed since its old name back,
matching by structure (module, field types, signature) and never guessing between several candidates.
"""
import json, os, re, sys, collections
HERE = os.path.dirname(os.path.abspath(__file__))
SCHEMA = os.path.join(HERE, 'schema.json')

def _mod(d): return d.rsplit('::', 1)[0]
def _fmod(r): return r['def'].split('::{')[0] if '::{' in r['def'] else _mod(r['def'])

def _adts(d):
    """local types: def -> [(variant, discr, [(field, type string)])], seen generically"""
    T = d['types']; out = collections.OrderedDict()
    for a in d['adts']:
        t = T[a['ty']]
        if t['k'] != 'adt': continue
        out[a['def']] = [(v['name'], str(v['discr']), [(f[0], T[f[1]]['s']) for f in v['fields']]) for v in t['variants']]
    return out

def _fns(d):
    T = d['types']; out = []
    for r in d['roots']:
        if r['impl_trait'] is not None: continue
        sd = T[r['self_ty']].get('def') if r['self_ty'] is not None else None
        out.append({'name': r['name'], 'mod': _fmod(r), 'self': sd, 'ins': [T[i]['s'] for i in r['ins']], 'out': T[r['out']]['s']})
    return out

def schema(d): return {'adts': _adts(d), 'fns': _fns(d)}

def _ty(s, names):
    """a type string with the local type names that differ blanked out"""
    for n in names: s = re.sub(r'(?<![\w])%s(?![\w])' % re.escape(n), '_', s)
    return s

def resolve(raw):
    d = json.loads(raw)
    if not os.path.exists(SCHEMA): return d, []
    base = json.load(open(SCHEMA)); notes = []
    cur = _adts(d)
    lost = [a for a in base['adts'] if a not in cur]; new = [a for a in cur if a not in base['adts']]
    # 1. types: moved under the same name, or renamed in place with the same shape
    pairs = []
    def shape(vs, names, deep): return [[_ty(t, names) for _, t in fs] if deep else len(fs) for _, _, fs in vs]
    short = [a.rsplit('::', 1)[1] for a in lost + new]
    for rule in ('moved', 'shape', 'fields', 'size'):
        for a in list(lost):
            def ok(b):
                if rule == 'moved': return b.rsplit('::', 1)[1] == a.rsplit('::', 1)[1]
                if _mod(a) != _mod(b): return False
                if rule == 'fields': return [[f for f, _ in fs] for _, _, fs in base['adts'][a]] == [[f for f, _ in fs] for _, _, fs in cur[b]] and any(fs for _, _, fs in cur[b])
                return shape(base['adts'][a], short, rule == 'shape') == shape(cur[b], short, rule == 'shape')
            c = [b for b in new if ok(b)]
            if len(c) == 1 and sum(1 for x in lost if x != a and _mod(x) == _mod(a) and rule in ('shape', 'size') and
                                   shape(base['adts'][x], short, rule == 'shape') == shape(cur[c[0]], short, rule == 'shape')) == 0:
                pairs.append((c[0], a)); lost.remove(a); new.remove(c[0])
    if pairs:
        for b, a in pairs:
            raw = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(b), lambda m: a, raw)
            # paths as the compiler prints them for users, without the crate's name
            pb, pa = b.split('::', 1)[1], a.split('::', 1)[1]
            raw = re.sub(r'(?<![\w])(?<!geo_crossings::)%s(?!\w)' % re.escape(pb), lambda m: pa, raw)
            notes.append('%s is taken for %s' % (b, a))
        d = json.loads(raw); cur = _adts(d)
    # 2. fields and variants
    T = d['types']
    for a, bv in base['adts'].items():
        cv = cur.get(a)
        if cv is None: continue
        vmap = {}
        bn = [v[0] for v in bv]; cn = [v[0] for v in cv]
        lostv = [v for v in bv if v[0] not in cn]; newv = [v for v in cv if v[0] not in bn]
        for v in lostv:
            c = [w for w in newv if [t for _, t in w[2]] == [t for _, t in v[2]]]
            if len(c) > 1: c = [w for w in c if w[1] == v[1]] if len(c) == sum(1 for x in lostv if [t for _, t in x[2]] == [t for _, t in v[2]]) else []
            if len(c) == 1: vmap[c[0][0]] = v[0]; newv.remove(c[0])
        if len(bv) == 1 and len(cv) == 1: vmap = {cv[0][0]: bv[0][0]} if cv[0][0] != bv[0][0] else {}
        fmap = {}
        for w in cv:
            v = next((x for x in bv if x[0] == vmap.get(w[0], w[0])), None)
            if v is None: continue
            lf = [f for f in v[2] if f[0] not in [x[0] for x in w[2]]]; nf = [f for f in w[2] if f[0] not in [x[0] for x in v[2]]]
            for rule in (0, 1):
                for f in list(lf):
                    same = [x for x in lf if rule or x[1] == f[1]]; c = [x for x in nf if rule or x[1] == f[1]]
                    # several of one type: pair them in order when none was added or removed
                    if len(same) != len(c): continue
                    g = c[same.index(f)]
                    fmap[(w[0], g[0])] = f[0]; lf.remove(f); nf.remove(g)
        if not vmap and not fmap: continue
        notes += ['%s::%s is taken for %s' % (a, k if isinstance(k, str) else '.'.join(k), v) for k, v in list(vmap.items()) + list(fmap.items())]
        for t in T:
            if t['k'] == 'adt' and t['def'] == a:
                for v in t['variants']:
                    for f in v['fields']: f[0] = fmap.get((v['name'], f[0]), f[0])
                    v['name'] = vmap.get(v['name'], v['name'])
    # 3. functions without a trait
    key = lambda f: (f['mod'], f['self'], f['name'])
    bk = {key(f): f for f in base['fns']}
    roots = [r for r in d['roots'] if r['impl_trait'] is None]
    cf = _fns(d)
    ck = {key(f) for f in cf}
    lost = [f for k, f in bk.items() if k not in ck]
    new = [(f, r) for f, r in zip(cf, roots) if key(f) not in bk]
    gen = lambda s: re.sub(r"'\w+ ", '', s)
    for rule in ('sig', 'moved', 'args'):
        for f in list(lost):
            def ok(g):
                s = [gen(x) for x in g['ins']] == [gen(x) for x in f['ins']]
                if rule == 'sig': return g['mod'] == f['mod'] and g['self'] == f['self'] and s and gen(g['out']) == gen(f['out'])
                if rule == 'moved': return g['name'] == f['name'] and s
                return g['mod'] == f['mod'] and s and gen(g['out']) == gen(f['out'])
            c = [(g, r) for g, r in new if ok(g)]
            if len(c) != 1: continue
            rivals = [x for x in lost if x is not f and rule != 'moved' and x['mod'] == f['mod'] and (rule == 'args' or x['self'] == f['self']) and [gen(y) for y in x['ins']] == [gen(y) for y in f['ins']] and gen(x['out']) == gen(f['out'])]
            if rivals: continue
            g, r = c[0]
            r['alias'] = {'name': f['name'], 'mod': f['mod'], 'self': f['self']}
            r['path'] = re.sub(r'(?<!\w)%s$' % re.escape(r['name']), f['name'], r['path'])
            notes.append('%s is taken for %s' % (r['def'], f['name'])); lost.remove(f); new.remove(c[0])
    return d, notes

if __name__ == '__main__':
    # aliases.py DUMP: record the schema of a dump
    json.dump(schema(json.load(open(sys.argv[1]))), open(SCHEMA, 'w'), indent=0)
