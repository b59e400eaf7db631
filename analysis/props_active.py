"""A: the set of active segments and the order it is kept in"""
import itertools
from registry import prop
from sweepdom import *
from props_cross import adt_ty, SPLAYW
import natives

ACTIVE = 'geo_crossings::active::Active'
SSET = 'geo_crossings::splay::set::SplaySet'
BSET = 'alloc::collections::btree::set::BTreeSet'

def akey(p, v): return v[3][p.fidx(ACTIVE, 'key')]

class ASet:
    """models: an ordered set of Active values, positions of keys given by `pos`"""
    def __init__(self, p): self.p = p
    def models(self, pos):
        p = self.p; M = {}
        def cont(en, st, r):
            x = rd(en, st, r)
            while x[0] in ('ref', 'box'): x = rd(en, st, x)
            if x[0] == 'adt' and len(x[3]) == 1: x = x[3][0]
            if x[0] != 'aset': raise Undecided('not the set of active segments')
            return ('aset', x[1])
        def elem(en, st, x):
            if x[0] == 'ref': x = rd(en, st, x)
            if x[0] != 'adt' or x[1] != ACTIVE: raise Undecided('unknown element')
            return x
        at = lambda v: pos[akey(p, v)]
        def ref(st, v): return ('ref', st.alloc(v, 'EL'), (), None)
        def below(en, st, c):
            s = st.g[cont(en, st, c.args[0])]; x = elem(en, st, c.args[1]); st.emit('asked', x)
            got = [v for v in s if at(v) < at(x)]
            return some(ref(st, got[-1])) if got else NONE
        def above(en, st, c):
            s = st.g[cont(en, st, c.args[0])]; x = elem(en, st, c.args[1]); st.emit('asked', x)
            got = [v for v in s if at(v) > at(x)]
            return some(ref(st, got[0])) if got else NONE
        def has(en, st, c):
            s = st.g[cont(en, st, c.args[0])]; x = elem(en, st, c.args[1]); st.emit('asked', x)
            return any(at(v) == at(x) for v in s)
        def insert(en, st, c):
            k = cont(en, st, c.args[0]); x = elem(en, st, c.args[1]); s = st.g[k]
            if any(at(v) == at(x) for v in s): return False
            st.g[k] = tuple(sorted(s + (x,), key=at)); return True
        def remove(en, st, c):
            k = cont(en, st, c.args[0]); x = elem(en, st, c.args[1]); s = st.g[k]; st.emit('asked', x)
            st.g[k] = tuple(v for v in s if at(v) != at(x)); return len(st.g[k]) < len(s)
        for r in p.roots:
            if r['self_ty'] is not None and p.T[r['self_ty']].get('def') == SSET and not r['impl_trait']:
                f = {'prev': below, 'next': above, 'contains': has, 'insert': insert, 'remove': remove}.get(r['name'])
                if f: M[r['def']] = f
        B = 'std::collections::BTreeSet::<T, A>::'
        M[B + 'insert'] = insert; M[B + 'remove'] = remove; M[B + 'contains'] = has
        def bound(en, st, b, i):
            if b[0] == 'op': b = en.expand(st, b)
            if b[2] == 2: return None
            v = b[3][0]
            x = elem(en, st, v); st.emit('asked', x)
            return at(x), b[2] == 0
        def rng(en, st, c):
            s = st.g[cont(en, st, c.args[0])]; b = c.args[1]
            if b[0] == 'adt':
                raise Undecided('range of another kind')
            lo, hi = bound(en, st, b[1][0], 0), bound(en, st, b[1][1], 1)
            got = [v for v in s if (lo is None or at(v) > lo[0] or (lo[1] and at(v) == lo[0])) and (hi is None or at(v) < hi[0] or (hi[1] and at(v) == hi[0]))]
            return ('seq', 'iter', tuple(ref(st, v) for v in got))
        M[B + 'range'] = rng
        M[B + 'iter'] = lambda en, st, c: ('seq', 'iter', tuple(ref(st, v) for v in st.g[cont(en, st, c.args[0])]))
        return M

def impls(p):
    out = {}
    for r in p.roots:
        if r['impl_trait'] == ACC and r['self_ty'] is not None:
            out.setdefault(p.T[r['self_ty']].get('def'), {})[r['name']] = r
    if len(out) < 2: raise Anchor('anchor: implementations of Access (%d)' % len(out))
    return out

@prop('A01', assumptions=['SplaySet and BTreeSet are ordered sets under the comparator (S08; BTreeSet is trusted)', 'active segments are linearly ordered and their order does not change (W-properties, O04)'], floor=60)
def a01(p, rep, tier):
    """Every method of both Access implementations is interpreted on sets of 0 to 3 active segments and every position of the key asked for, stored or not: prev_key and next_key must give the adjacent key and leave the set alone, add_key and remove_key must change exactly that key and panic when there is nothing to change."""
    A = ASet(p)
    for adt, ms in sorted(impls(p).items(), key=str):
        for nm in ('prev_key', 'next_key', 'add_key', 'remove_key'):
            if nm not in ms: raise Anchor('anchor: %s of %s' % (nm, adt))
            r = ms[nm]; body = p.body_of(r)
            for n in range(0, 4 if tier == 'quick' else 7):
                for where in range(2 * n + 1):      # even: a gap, odd: a member
                    keys = [10 + i for i in range(n)]
                    pos = {k: 2 * i + 1 for i, k in enumerate(keys)}
                    member = where % 2 == 1
                    key = keys[where // 2] if member else 5
                    pos[key] = where
                    en = Engine(p, models=dict(GEOM, **A.models(pos)), max_visits=20)
                    st = State(); sid = st.fresh(); aid = st.fresh()
                    ks = tuple(sorted(set(keys + [key])))
                    st.g[('slab', sid)] = ks; st.g[('slabn', sid)] = 20; st.g[('gone', sid)] = ()
                    for k in ks: st.mem[cell(sid, k)] = ('op', ('v', 'segment%d' % k), None)
                    ordered = sorted(ks, key=lambda k: pos[k])
                    for x, y in zip(ordered, ordered[1:]): st.ord.add(('v', 'segment%d' % x), ('v', 'segment%d' % y), LT)
                    sb = st.fresh(); st.mem[('H', sb)] = ('slab', sid)
                    sref = ('ref', ('H', sb), (), None)
                    ka, sa = p.fidx(ACTIVE, 'key'), p.fidx(ACTIVE, 'storage')
                    def act(k):
                        f = [None, None]; f[ka] = k; f[sa] = sref
                        return ('adt', ACTIVE, 0, tuple(f))
                    st.g[('aset', aid)] = tuple(act(k) for k in keys)
                    sv = ('aset', aid)
                    if adt == SPLAYW: sv = ('adt', SPLAYW, 0, (sv,))
                    def chk(f, nm=nm, keys=keys, pos=pos, key=key, member=member, aid=aid, en=en, sref=sref):
                        st = f.st; out = []
                        now = [akey(p, v) for v in st.g[('aset', aid)]]
                        for e in st.trace:
                            if e[0] == 'asked' and (akey(p, e[1]) != key or e[1][3][sa] != sref): out.append('the set is asked about another segment')
                        if nm in ('prev_key', 'next_key'):
                            cand = [k for k in keys if (pos[k] < pos[key] if nm == 'prev_key' else pos[k] > pos[key])]
                            want = (cand[-1] if nm == 'prev_key' else cand[0]) if cand else None
                            v = force(en, st, f.val)
                            got = v[3][0] if v[2] else None
                            if got != want: out.append('the key given is not that of the segment directly %s' % ('below' if nm == 'prev_key' else 'above'))
                            if now != keys: out.append('a query changes the active set')
                        else:
                            want = keys + [key] if nm == 'add_key' else [k for k in keys if k != key]
                            if sorted(now) != sorted(set(want)): out.append('the active set does not %s exactly the given key' % ('gain' if nm == 'add_key' else 'lose'))
                            if member == (nm == 'add_key'): out.append('a change that is not possible passes unnoticed')
                            for v in st.g[('aset', aid)]:
                                if v[3][sa] != sref: out.append('an active segment refers to another storage')
                        return out
                    def pan(f, nm=nm, member=member):
                        if nm in ('add_key', 'remove_key') and member == (nm == 'add_key'): return None
                        return 'panics: %s' % f.why.split(' @ ')[0]
                    run(rep, en, r, [(st, [by_ref(st, sv), key, sref])], 'the active set is the ordered set of active keys', chk, pan,
                        name='%s: %d active, key %s' % (label(r), n, 'active' if member else 'not active'))

@prop('A02', assumptions=['the order of the geometries is that of O04 (an unknown function here)'], floor=8)
def a02(p, rep, tier):
    """The comparisons of Active and of Segment and the comparator SplayWrap installs are interpreted: Active compares the segments its keys refer to, equality is that of keys, Segment orders by geometry and then by key, the comparator is Ord::cmp unreversed; incomparable active segments panic instead of being ordered."""
    X = Ctx(p)
    def lessq(w, want): return {'lt': w < 0, 'le': w <= 0, 'gt': w > 0, 'ge': w >= 0}[want]
    dec = lambda v: None if v[2] == 0 else v[3][0][2] - 1
    # Active
    for tr, nm in ((EQT, 'eq'), (EQT, 'ne'), (PORDT, 'partial_cmp'), (ORDT, 'cmp'), (PORDT, 'lt'), (PORDT, 'le'), (PORDT, 'gt'), (PORDT, 'ge')):
        rs = [r for r in methods(p, ACTIVE, tr) if r['name'] == nm]
        if not rs:
            if nm in ('eq', 'partial_cmp', 'cmp'): raise Anchor('anchor: %s of Active' % nm)
            continue
        r = rs[0]
        for same in (True, False):
            for w in ((0,) if same else (-1, 1, None)):
                en = Engine(p, models=dict(GEOM), max_visits=20); st = State(); sid = st.fresh()
                ks = (3,) if same else (3, 8)
                st.g[('slab', sid)] = (3, 8); st.g[('slabn', sid)] = 20; st.g[('gone', sid)] = ()
                for k in (3, 8): st.mem[cell(sid, k)] = ('op', ('v', 'segment%d' % k), None)
                sb = st.fresh(); st.mem[('H', sb)] = ('slab', sid)
                ka, sa = p.fidx(ACTIVE, 'key'), p.fidx(ACTIVE, 'storage')
                def act(k):
                    f = [None, None]; f[ka] = k; f[sa] = ('ref', ('H', sb), (), None)
                    return ('adt', ACTIVE, 0, tuple(f))
                def pc(en, st, c, w=w):
                    a, b = rd(en, st, c.args[0]), rd(en, st, c.args[1])
                    nums = {'segment3': 3, 'segment8': 8}
                    a, b = nums.get(a[1][1]), nums.get(b[1][1])
                    if a is None or b is None: raise Undecided('comparison of unknown segments')
                    if w is None and a != b: return NONE
                    x = 0 if a == b else (w if (a, b) == (3, 8) else -w)
                    return some(mkord(x))
                en.models[(PORDT, 'partial_cmp')] = pc
                for q in ('lt', 'le', 'gt', 'ge'):
                    en.models[(PORDT, q)] = lambda en, st, c, q=q: (lambda v: v[2] == 1 and lessq(dec(v), q))(pc(en, st, c))
                en.models[(EQT, 'eq')] = lambda en, st, c: rd(en, st, c.args[0]) == rd(en, st, c.args[1])
                def chk(f, nm=nm, same=same, w=w):
                    v = f.val
                    if nm in ('eq', 'ne'): ok = (v == (same == (nm == 'eq')))
                    elif nm == 'partial_cmp': ok = dec(v) == w
                    elif nm == 'cmp': ok = w is not None and v[2] - 1 == w
                    else: ok = v == (w is not None and lessq(w, nm))
                    return [] if ok else ['the answer is not that of the segments referred to' if nm not in ('eq', 'ne') else 'equality is not that of the keys']
                def pan(f, nm=nm, w=w): return None if nm == 'cmp' and w is None else 'panics: %s' % f.why.split(' @ ')[0]
                run(rep, en, r, [(st, [by_ref(st, act(3)), by_ref(st, act(3 if same else 8))])], 'active segments compare as the segments they refer to', chk, pan, name='%s: %s' % (label(r), 'the same' if same else {-1: 'below', 1: 'above', None: 'not comparable'}[w]))
    # Segment
    for tr, nm in ((EQT, 'eq'), (EQT, 'ne'), (PORDT, 'partial_cmp')):
        rs = [r for r in methods(p, SEG, tr) if r['name'] == nm]
        if not rs:
            if nm in ('eq', 'partial_cmp'): raise Anchor('anchor: %s of Segment' % nm)
            continue
        r = rs[0]
        for kk in ((3, 3), (3, 8), (8, 3)):
            for w in (-1, 0, 1, None):
                en = SwEngine(p, models=make_models(p, X), max_visits=20); en.X = X; st = State()
                for m in methods(p, LOP, PORDT):
                    if m['name'] == 'partial_cmp':
                        def pc(en, st, c, w=w):
                            a, b = ends(en, st, rd(en, st, c.args[0]))[0], ends(en, st, rd(en, st, c.args[1]))[0]
                            if w is None: return NONE
                            return some(mkord(w if (a, b) == (S('p1'), S('p2')) else -w if (b, a) == (S('p1'), S('p2')) else 0))
                        en.models[m['def']] = pc
                a, b = (by_ref(st, X.seg(k, lop_line(X.pt('p%d' % i), X.pt('q%d' % i)), 'c%d' % i)) for i, k in ((1, kk[0]), (2, kk[1])))
                def chk(f, nm=nm, kk=kk, w=w):
                    v = f.val
                    if nm in ('eq', 'ne'): return [] if v == ((kk[0] == kk[1]) == (nm == 'eq')) else ['equality is not that of the keys']
                    want = w if w is None or w else (kk[0] > kk[1]) - (kk[0] < kk[1])
                    return [] if dec(v) == want else ['the order is not by geometry and then by key']
                run(rep, en, r, [(st, [a, b])], 'segments are ordered by geometry, then by key', chk, name='%s: keys %s, geometry %s' % (label(r), kk, {None: 'not comparable', -1: 'below', 0: 'equal', 1: 'above'}[w]))
    # the comparator of SplayWrap
    r = [x for x in methods(p, SPLAYW, 'core::default::Default') if x['name'] == 'default']
    if len(r) != 1: raise Anchor('anchor: Default of SplayWrap')
    en = Engine(p, models=dict(GEOM), max_visits=20); st = State()
    for m in p.roots:
        if m['self_ty'] is not None and p.T[m['self_ty']].get('def') == SSET and m['name'] == 'new' and not m['impl_trait']:
            def nw(en, st, c): st.emit('new', c.args[0]); return ('op', ('v', 'set'), c.c['ret'])
            en.models[m['def']] = nw
    got = []
    def chk(f):
        es = [e for e in f.st.trace if e[0] == 'new']
        if len(es) != 1 or en.term(f.st, f.val[3][0]) != S('set'): return ['the active set does not start empty']
        got.append((f.st, es[0][1])); return []
    run(rep, en, r[0], [(st, [])], 'the active set starts empty and ordered by Ord', chk)
    for st, fn in got:
        for w in (-1, 0, 1):
            en2 = Engine(p, models=dict(GEOM), max_visits=20)
            def oc(en, st, c, w=w):
                a, b = rd(en, st, c.args[0])[1][1], rd(en, st, c.args[1])[1][1]
                return mkord(w if (a, b) == ('x', 'y') else -w if (a, b) == ('y', 'x') else 0)
            en2.models[(ORDT, 'cmp')] = oc
            en2.models[(PORDT, 'partial_cmp')] = lambda en, st, c: some(oc(en, st, c))
            s2 = st.copy(); s2.frames = []
            x, y = by_ref(s2, ('op', ('v', 'x'), None)), by_ref(s2, ('op', ('v', 'y'), None))
            b = s2.alloc(fn, 'CB'); s2.mem[('R', 0)] = UNINIT
            en2.push_native(s2, 'script', (((x, y),), ('ref', b, (), None), UNIT), (('R', 0), ()), None)
            def step(en, st, fr):
                if not fr.data[0]: return ('ret', st.mem[('L', fr.uid, 0)])
                args = fr.data[0][0]; fn = fr.data[1]; fr.data = ((), fn, None)
                return ('call', fn, list(args))
            natives.STEPS['call-once'] = step
            s2.frames[-1].native = 'call-once'
            explore(rep, en2, [s2], 'comparator of %s' % label(r[0]), 'the active set starts empty and ordered by Ord',
                    lambda f, w=w: [] if f.val[2] - 1 == w else ['the comparator is not Ord::cmp'])
