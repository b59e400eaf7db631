"""F: decomposition into monotone pieces"""
import itertools
from drive import *
from registry import prop
from monodom import *
from props_bops import merge

def pieces_ok(P, pieces):
    """faults of a decomposition, given as pairs of vertex sequences"""
    out = set(); cnt = {}
    for top, bot in pieces:
        if len(top) < 2 or len(bot) < 2 or top[0] != bot[0] or top[-1] != bot[-1]: out.add('the two sides of a piece do not begin and end together'); continue
        if any(a >= b for s in (top, bot) for a, b in zip(s, s[1:])): out.add('a side of a piece is not monotone'); continue
        for w, s in (('t', top), ('b', bot)):
            for a, b in zip(s, s[1:]): cnt[a, b, w] = cnt.get((a, b, w), 0) + 1
    trap = P.trapezoids(); allowed = True
    for a, b in {k[:2] for k in cnt}:
        t, u = cnt.get((a, b, 't'), 0), cnt.get((a, b, 'b'), 0)
        e = P.edge(a, b)
        if e is not None:
            if (t, u) != ((0, 1) if P.edges[e][2] else (1, 0)): out.add('an edge of the polygon is used twice' if t + u > 1 else 'an edge of the polygon has a piece on the wrong side')
        else:
            if (t, u) != (1, 1): out.add('a line added between pieces does not have one piece on each side')
            if (a, b) not in trap: out.add('a line added between pieces runs where it may leave the polygon or cross it')
    for a, b, _ in P.edges:
        if (a, b, 't') not in cnt and (a, b, 'b') not in cnt: out.add('an edge of the polygon bounds no piece')
    if not out:
        # the sides are the right way up: order of the first edges
        def pos(v, w):
            e = P.edge(v, w)
            if e is not None: return P.stacks[v].index(e)
            lo, hi = trap[v, w][0]
            return P.stacks[v].index(lo) + .5
        for top, bot in pieces:
            if pos(top[0], top[1]) <= pos(bot[0], bot[1]): out.add('the upper side of a piece lies below the lower side')
    return sorted(out)

def polygons(tier): return monos(500 if tier == 'quick' else 8000)

def mono_state(P, cy, num):
    st = State(); total(st, [vn(i) for i in range(len(P.types))])
    st.g['mono'] = P
    if num % 2: st.g['flip'] = True
    rs = mono_rings(P, cy, num)
    return st, poly(rs[0], rs[1:])

def shape(P): return ''.join({'Start': '(', 'Split': '{', 'End': ')', 'Merge': '}', 'Continue': '-'}[t] + str(g[0]) for t, g in zip(P.types, P.gaps))

ASM = ['the polygon is valid: every vertex belongs to exactly two edges, edges meet in vertices only', 'geometry answers exactly (any arrangement of edges along the sweep, drawn with straight lines)', 'active segments are kept in order (A01, A02), events are sorted as in O02']

@prop('F01', assumptions=ASM, floor=300)
def f01(p, rep, tier):
    """monotone_chains is interpreted from the polygon to the pieces, on polygons given as arrangements: fixed pseudo-random sweeps of up to 22 vertices with up to eight edges active, holes included, rings in both directions. The pieces must have strictly monotone sides that begin and end together, upper above lower; each edge of the polygon must bound exactly one piece, from the inside; each added line must lie inside and have exactly one piece on either side."""
    X = MX(p)
    r = root_of(p, 'monotone_chains')
    pair = root_of(p, 'into_ls_pair', MPOLYP)
    RULE = 'the pieces are monotone and partition the polygon'
    work = polygons(tier)
    rep.notes.append('%d polygons, %d with holes' % (len(work), sum(len(c) > 1 for _, c in work)))
    def job(part):
        def go(rep):
            en = meng(p, X)
            for num, (P, cy) in part:
                st, v = mono_state(P, cy, num)
                def chk(f, P=P):
                    st = f.st; v = f.val
                    if v[0] != 'seq': raise Undecided('the pieces are not a known sequence')
                    out = []
                    for m in v[2]:
                        fin = en.run([begin(en, st.copy(), pair, [m])])
                        if len(fin) != 1 or fin[0].kind != 'return': raise Undecided('into_ls_pair: %s' % [x.why for x in fin])
                        t = fin[0].val[1] if fin[0].val[0] == 'tup' else None
                        if t is None: raise Undecided('into_ls_pair is unknown')
                        out.append([[en.nm(st, x) if False else en.nm(en, fin[0].st, x) for x in en.coords(en, fin[0].st, l)] for l in t])
                    return pieces_ok(P, out)
                run(rep, en, r, [(st, [by_ref(st, v)])], RULE, chk, name='%s: %s' % (label(r), shape(P)))
        return go
    k = 16
    parallel(rep, [job([(i, w) for i, w in enumerate(work) if i % k == j]) for j in range(k)])
    segment_order(p, X, rep)
    merge(rep, label(r))

SEVENT = 'geo_crossings::monotone::sweep::SweepEvent'

@prop('F02', assumptions=ASM, floor=300)
def f02(p, rep, tier):
    """MonotoneSweep is interpreted from the polygon to the end, on the same polygons: it must report every vertex once, in sweep order, with the kind its neighbours and the inside give it, and then end."""
    mono_events(p, rep, polygons(tier), 'each vertex is reported once, in order, with its kind')

def mono_events(p, rep, work, RULE, only=None):
    X = MX(p)
    mk = root_of(p, 'from_polygon', MSWEEP)
    nx = [r for r in p.roots if r['name'] == 'next' and r['impl_trait'] and r['impl_trait'].endswith('iterator::Iterator') and r['self_ty'] is not None
          and p.T[r['self_ty']].get('def') == 'core::pin::Pin' and 'Sweep' in p.T[r['self_ty']]['s']]
    if len(nx) != 1: raise Anchor('anchor: iterator of the monotone sweep')
    nx = nx[0]
    se = adt_ty(p, SEVENT, lambda t: generic(p, t)); ff = p.T[se]['variants'][0]['fields']
    fp = [i for i, f in enumerate(ff) if p.T[f[1]].get('def') == 'geo_crossings::events::SweepPoint']
    ft = [i for i, f in enumerate(ff) if p.T[f[1]].get('def') == VTY]
    if len(fp) != 1 or len(ft) != 1: raise Anchor('anchor: fields of the sweep event')
    VN = [v['name'] for v in p.T[ff[ft[0]][1]]['variants']]
    def job(part):
        def go(rep):
            en = meng(p, X)
            for num, (P, cy) in part:
                st, v = mono_state(P, cy, num)
                def chk(f, P=P):
                    st = f.st; b = st.fresh(); st.mem['H', b] = f.val
                    got = []; cur = ('adt', 'core::pin::Pin', 0, (('box', b),)); slot = st.alloc(cur, 'PB')
                    while True:
                        fin = en.run([begin(en, st.copy(), nx, [('ref', slot, (), None)])])
                        if len(fin) != 1: raise Undecided('next forks: %s' % [x.why for x in fin])
                        if fin[0].kind == 'panic':
                            if only: return only(fin[0])
                            return ['next ends in a panic (%s)' % fin[0].why]
                        if fin[0].kind != 'return': raise Undecided('next: %s' % fin[0].why)
                        st = fin[0].st; r = fin[0].val
                        if only:
                            m = only(fin[0])
                            if m: return m
                        if r[0] != 'adt' or r[1] != 'core::option::Option': raise Undecided('next gives something unknown')
                        if r[2] == 0: break
                        e = r[3][0]
                        t = e[3][ft[0]]
                        if t[0] != 'adt': raise Undecided('kind unknown')
                        pt = e[3][fp[0]]
                        while pt[0] == 'adt': pt = pt[3][0]
                        got.append((en.nm(en, st, pt), VN[t[2]]))
                        if len(got) > len(P.types) + 2: return ['more vertices are reported than there are']
                    if only: return []
                    want = list(enumerate(P.types))
                    if got == want: return []
                    a, b = [g[0] for g in got], [g[0] for g in want]
                    if a == b: return ['a vertex is reported with the wrong kind']
                    if sorted(a) == b: return ['vertices are reported out of order']
                    if set(a) == set(b): return ['a vertex is reported twice']
                    return ['a vertex is not reported']
                run(rep, en, mk, [(st, [by_ref(st, v)])], RULE, chk, **(dict(allow_panic=lambda f: None) if only else {}), name='%s: %s' % (label(nx), shape(P)))
        return go
    k = 16
    parallel(rep, [job([(i, w) for i, w in enumerate(work) if i % k == j]) for j in range(k)])
    merge(rep, label(nx))

def segment_order(p, X, rep):
    """order of the segments of the sweep: that of their geometry"""
    rs = [r for r in methods(p, MSEG, PORDT) if r['name'] == 'partial_cmp']
    if len(rs) != 1: raise Anchor('anchor: order of the monotone segments')
    r = rs[0]
    en = Engine(p, models=dict(GEOM), max_visits=20, max_states=4000); want = [None]
    for q in methods(p, LOP, PORDT):
        if q['name'] == 'partial_cmp':
            def m(en, st, c):
                a, b = rd(en, st, c.args[0]), rd(en, st, c.args[1])
                t = (en.term(st, a), en.term(st, b))
                if t == (S('ga'), S('gb')): w = want[0]
                elif t == (S('gb'), S('ga')): w = -want[0] if want[0] else want[0]
                else: raise Undecided('comparison of something else')
                return NONE if w is None else some(mkord(w))
            en.models[q['def']] = m
    keyf = [i for i, f in enumerate(X.msf) if p.T[f[1]]['s'] == 'usize']
    def seg(n, k):
        v = []
        for i, f in enumerate(X.msf):
            if i == X.mgeom: v.append(('op', S('g' + n), f[1]))
            elif i in keyf: v.append(k)
            else: v.append(('op', S('h' + n), f[1]))
        return ('adt', MSEG, 0, tuple(v))
    for w in (-1, 1, 0, None):
        for ka, kb in ((1, 2), (2, 1), (1, 1)):
            if w == 0 and ka != kb or w in (-1, 1) and ka == kb: continue
            want[0] = w
            st = State()
            def chk(f):
                v = force(en, f.st, f.val)
                got = None if v[2] == 0 else force(en, f.st, v[3][0])[2] - 1
                return [] if got == w else ['segments of the sweep are not in the order of their geometry']
            run(rep, en, r, [(st, [by_ref(st, seg('a', ka)), by_ref(st, seg('b', kb))])], 'segments lie in the order of their geometry', chk)
