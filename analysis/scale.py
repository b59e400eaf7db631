"""Size limits in the source.

Rules are decided on structures of a few entries.  Code that behaves differently
only beyond some size ("more than 16 segments") says so by a literal.  Every
integer literal of that kind (4 or more, not a capacity) in the functions a rule
analysed is replaced, order-preserving, by a small one and the rule is decided
again: what it demands must not depend on the value of such a limit.  Conversions
of counts and positions to narrow integers are limits of the same kind."""
LO, HI = 4, 1 << 17
INTS = ('usize', 'u64', 'u32', 'u16', 'u8', 'i64', 'i32', 'i16', 'i8', 'u128', 'i128')
NARROW = ('u8', 'i8', 'u16', 'i16')
CAPACITY = ('with_capacity', 'reserve', 'reserve_exact', 'try_reserve', 'shrink_to', 'with_capacity_and_hasher')

def _consts(x):
    if isinstance(x, dict):
        c = x.get('c')
        if isinstance(c, dict):
            if 'v' in c: yield c
            return
        for k, v in x.items():
            if k in ('p', 'rc'): continue
            yield from _consts(v)
    elif isinstance(x, list):
        for v in x: yield from _consts(v)

def _sites(p, paths):
    """(kind, object, key, value, where) of every limit in local bodies with these paths"""
    for b in p.bodies:
        if not b or not b.get('local') or b['path'] not in paths or not b['blocks']: continue
        if 'Debug>::fmt' in b['path'] or 'Display>::fmt' in b['path']: continue
        for blk in b['blocks']:
            if not blk: continue
            for s in blk['s']:
                if s[0] != '=': continue
                r = s[2]; where = s[3] if len(s) > 3 else b['span']
                if r[0] == 'bin' and r[1].replace('WithOverflow', '').replace('Unchecked', '') in ('Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shr'): continue
                if r[0] == 'bin' and r[1].startswith('Shl'):
                    c = [list(_consts(x)) for x in r[2:4]]
                    if c[0] and c[1] and isinstance(c[1][0]['v'], int) and c[1][0]['v'] >= 3:
                        yield 'shl', (c[0][0], c[1][0]), None, c[0][0]['v'] << c[1][0]['v'], where
                    continue
                if r[0] == 'cast' and r[1] == 'IntToInt' and p.T[r[3]]['s'] in NARROW and 'p' in r[2] and len(r[2]['p']) == 1 \
                        and p.T[b['locals'][r[2]['p'][0]]]['s'] in ('usize', 'u64', 'u32', 'i64', 'i32'):
                    yield 'cast', r, 1, None, where
                    continue
                for c in _consts(r):
                    if lim(p, c): yield 'lit', c, 'v', c['v'], where
            t = blk['t']
            if t[0] == 'call':
                if isinstance(t[1], dict) and t[1].get('name') in CAPACITY: continue
                for c in _consts(t[2:]):
                    if lim(p, c): yield 'lit', c, 'v', c['v'], b['span']
            elif t[0] == 'switch' and p.T[t[4]]['s'] in ('usize', 'u64', 'u32', 'i64', 'i32', 'u128'):
                for x in t[2]:
                    if isinstance(x[0], int) and LO <= x[0] <= HI: yield 'lit', x, 0, x[0], b['span']

def lim(p, c):
    return isinstance(c['v'], int) and not isinstance(c['v'], bool) and LO <= c['v'] <= HI and p.T[c['ty']]['s'] in INTS

def limits(p, paths):
    return sorted({(k, v if v is not None else 0) for k, _, _, v, _ in _sites(p, paths)})

def apply(p, paths, base):
    """replace the limits; returns a description of what was replaced"""
    sites = list(_sites(p, paths))
    vals = sorted({v for k, _, _, v, _ in sites if v is not None})
    new = {v: base + i for i, v in enumerate(vals)}
    seen = set(); out = []
    for k, o, key, v, where in sites:
        if k == 'shl':
            a, s = o
            if id(a) in seen: continue
            seen.add(id(a)); a['v'] = new[v]; s['v'] = 0
        elif k == 'cast':
            o[key] = 'IntToNarrow'
        else:
            if (id(o)) in seen: continue
            seen.add(id(o)); o[key] = new[v]
        out.append('%s: %s' % (where, 'a conversion to a narrow integer' if k == 'cast' else 'the limit %d taken as %d' % (v, new[v])))
    return sorted(set(out))
