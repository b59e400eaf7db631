"""O: the orders the sweep rests on, and segment geometry"""
from registry import prop
from drive import *
from geom import *

ASSUME = ['scalars are totally ordered (no NaN); coordinates are finite',
          'Kernel::orient2d is an unknown function of which only this is used: it alternates under permutation of its arguments and is Collinear when two of them coincide',
          'geo::line_intersection is an unknown function of its two arguments']
EQT, ORDT, PORDT = 'core::cmp::PartialEq', 'core::cmp::Ord', 'core::cmp::PartialOrd'

def engine(p):
    en = Engine(p, models=GEOM, max_visits=20, max_states=20000)
    en.pure = True      # no loops, finitely many facts: recursion past the depth limit repeats itself
    return en

def val3(en, st, v, what):
    """ordering value -> -1/0/1"""
    v = force(en, st, v)
    if v[1] == OPT:
        if v[2] == 0: return None
        v = force(en, st, v[3][0])
    return v[2] - 1

def check_cmp(en, a, b, spec, name, outside=None):
    """result of a comparison-trait method against the three-way specification spec(st)"""
    def chk(f):
        st = f.st; out = []
        s = spec(st)
        v = f.val
        if outside and s is None:
            if name in ('partial_cmp', 'eq', 'lt', 'le', 'gt', 'ge'):
                bad = val3(en, st, v, name) is not None if name == 'partial_cmp' else en.truth(st, v)
                if bad: out.append(outside)
                return out
        if name in ('partial_cmp', 'cmp'):
            got = val3(en, st, v, name)
            want = s
            if got != want: out.append('%s returns %s where the order says %s' % (name, nm3(got), nm3(want)))
        elif name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            got = en.truth(st, v)
            want = {'eq': s == 0, 'ne': s != 0, 'lt': s == -1, 'le': s in (-1, 0), 'gt': s == 1, 'ge': s in (0, 1)}[name]
            if got != want: out.append('%s returns %s where the order says %s' % (name, got, nm3(s)))
        elif name in ('max', 'min'):
            # std: max returns the second argument when equal, min the first
            x = en.term(st, v); want = b if (name == 'max') == (s <= 0) else a
            if x != en.term(st, want): out.append('%s returns the wrong operand' % name)
        else: raise Undecided('method %s' % name)
        return out
    return chk

def nm3(x): return 'None' if x is None else ('Less', 'Equal', 'Greater')[x + 1]

def cmp_impl(rep, p, adt, mk, spec, rule, traits=(EQT, PORDT, ORDT), need=3, outside=None):
    n = 0
    for tr in traits:
        for r in methods(p, adt, tr):
            if p.body_of(r)['argc'] != 2: continue
            en = engine(p)
            st = State()
            cases = mk(en, st)
            for st, a, b in cases:
                args = [by_ref(st, a), by_ref(st, b)] if r['name'] not in ('max', 'min') else [a, b]
                run(rep, en, r, [(st, args)], rule, check_cmp(en, a, b, lambda s, a=a, b=b: spec(en, s, a, b), r['name'], outside),
                    lambda f: 'a path of the comparison panics (%s)' % f.why)
                n += 1
    if n < need: raise Anchor('anchor: comparison methods of %s (%d found)' % (adt, n))

@prop('O01', assumptions=ASSUME[:1], floor=3)
def o01(p, rep, tier):
    """Every comparison method of SweepPoint is interpreted on two arbitrary points; on each path the result must be the lexicographic one (x, then y), so the order is total, antisymmetric, transitive and agrees with ==."""
    ty = anyty(p)
    cmp_impl(rep, p, SWEEPPT, lambda en, st: [(st, sp('a', ty), sp('b', ty))], lambda en, s, a, b: lex3(en, s, a, b),
             'points are ordered by x, then y')
    # conversions keep the coordinates
    n = 0
    for r in methods(p, SWEEPPT, 'core::convert::From'):
        en = engine(p); st = State()
        argt = p.T[p.body_of(r)['locals'][1]]
        if argt['k'] == 'tuple': arg = ('tup', (('op', S('a.x'), ty), ('op', S('a.y'), ty)))
        elif argt.get('def') == COORD: arg = coord('a', ty)
        else: continue
        def chk(f):
            got = xy(en, f.st, f.val)
            return [] if got == (S('a.x'), S('a.y')) else ['the sweep point made from (a.x, a.y) holds (%s, %s)' % (show_term(got[0]), show_term(got[1]))]
        run(rep, en, r, [(st, [arg])], 'conversion keeps x and y', chk); n += 1
    r = root_of(p, 'coord', SWEEPPT)
    en = engine(p); st = State()
    run(rep, en, r, [(st, [by_ref(st, sp('a', ty))])], 'conversion keeps x and y',
        lambda f: [] if xy(en, f.st, f.val) == (S('a.x'), S('a.y')) else ['coord() does not return the stored coordinate'])

EV_ORDER = ['PointLeft', 'LineRight', 'LineLeft', 'PointRight']

def event(en, p, name, ty, variant):
    i = {n: p.fidx(EVENT, n) for n in ('point', 'ty', 'segment_key')}
    fs = [None] * len(i)
    fs[i['point']] = sp(name, ty); fs[i['ty']] = ('adt', EVTY, variant, ()); fs[i['segment_key']] = ('op', S(name + '.key'), anyusize(p))
    return ('adt', EVENT, 0, tuple(fs))

def anyusize(p):
    for i, t in enumerate(p.T):
        if t['s'] == 'usize': return i

def evrank(p, v): return EV_ORDER.index(p.variants[EVTY][v])

def event_spec(en, st, a, b):
    p = en.p
    i = p.fidx(EVENT, 'point'); j = p.fidx(EVENT, 'ty')
    c = lex3(en, st, a[3][i], b[3][i])
    if c == 0:
        x, y = evrank(p, a[3][j][2]), evrank(p, b[3][j][2])
        c = (x > y) - (x < y)
    return -c

@prop('O02', assumptions=ASSUME[:1], floor=20)
def o02(p, rep, tier):
    """Every comparison method of Event and EventType is interpreted on two arbitrary events for each pair of types; the result must put the lexicographically smaller point first in a max-heap, ties in the order point-left, line-right, line-left, point-right, and must not depend on the segment key."""
    ty = anyty(p)
    nv = len(p.variants[EVTY])
    if sorted(p.variants[EVTY]) != sorted(EV_ORDER): raise Anchor('anchor: variants of EventType changed')
    def mk(en, st):
        return [(st.copy(), event(en, p, 'a', ty, i), event(en, p, 'b', ty, j)) for i in range(nv) for j in range(nv)]
    cmp_impl(rep, p, EVENT, mk, event_spec, 'events are queued by point, then by type')
    def mk2(en, st):
        return [(st.copy(), ('adt', EVTY, i, ()), ('adt', EVTY, j, ())) for i in range(nv) for j in range(nv)]
    def sp2(en, st, a, b):
        x, y = evrank(p, a[2]), evrank(p, b[2])
        return (x > y) - (x < y)
    cmp_impl(rep, p, EVTY, mk2, sp2, 'event types are ranked point-left, line-right, line-left, point-right', traits=(PORDT, ORDT))

def show_pt(t): return '(%s, %s)' % (show_term(t[0]), show_term(t[1]))
def variant(en, st, v):
    v = force(en, st, v)
    return v

@prop('O03', assumptions=ASSUME[:1], floor=6)
def o03(p, rep, tier):
    """From<Line>, From<Coordinate>, is_line, line, first and second are interpreted on arbitrary coordinates: equal ends give a Point, others a Line with the lexicographically smaller end first, and the accessors return exactly the stored ends."""
    ty = anyty(p)
    R = 'a segment is stored with its ends in lexicographic order, or as a point when they coincide'
    done = set()
    for r in methods(p, LOP, 'core::convert::From'):
        en = engine(p); st = State()
        at = p.T[p.body_of(r)['locals'][1]]
        a, b = coord('a', ty), coord('b', ty)
        if at.get('def') == LINE:
            arg = ('adt', LINE, 0, (a, b))
            def chk(f, en=en):
                return same_lop(en, f.st, f.val, norm_line(en, f.st, a, b))
        elif at.get('def') == COORD:
            arg = a
            def chk(f, en=en):
                return same_lop(en, f.st, f.val, ('P', xy(en, f.st, a)))
        else: continue
        done.add(at['def'])
        run(rep, en, r, [(st, [arg])], R, chk)
    if done != {LINE, COORD}: raise Anchor('anchor: From impls of LineOrPoint')
    for shape in ('point', 'line'):
        for name in ('is_line', 'line', 'first', 'second'):
            r = root_of(p, name, LOP)
            en = engine(p); st = State()
            P, Q = sp('a', ty), sp('b', ty)
            v = lop_point(P) if shape == 'point' else lop_line(P, Q)
            A, B = (S('a.x'), S('a.y')), (S('b.x'), S('b.y'))
            E = B if shape == 'line' else A
            def chk(f, en=en, name=name, A=A, E=E, shape=shape):
                st = f.st
                if name == 'is_line':
                    return [] if en.truth(st, f.val) == (shape == 'line') else ['is_line is wrong for a %s' % shape]
                if name == 'line':
                    l = f.val if f.val[0] == 'adt' else en.expand(st, f.val)
                    got = (xy(en, st, l[3][0]), xy(en, st, l[3][1]))
                    return [] if got == (A, E) else ['line() of a %s runs from %s to %s' % (shape, show_pt(got[0]), show_pt(got[1]))]
                want = A if name == 'first' else E
                got = xy(en, st, f.val)
                return [] if got == want else ['%s() of a %s is %s, expected %s' % (name, shape, show_pt(got), show_pt(want))]
            run(rep, en, r, [(st, [by_ref(st, v)])], 'accessors return the stored ends', chk)

def norm_line(en, st, a, b):
    c = lex3(en, st, a, b)
    if c == 0: return ('P', xy(en, st, a))
    return ('L', xy(en, st, a), xy(en, st, b)) if c < 0 else ('L', xy(en, st, b), xy(en, st, a))

def same_lop(en, st, v, want):
    """want: ('P', pt) or ('L', p, q)"""
    v = force(en, st, v)
    got = ('P', xy(en, st, v[3][0])) if v[2] == 0 else ('L', xy(en, st, v[3][0]), xy(en, st, v[3][1]))
    if got[0] == want[0] and all(tuple(map(st.ord.rep, x)) == tuple(map(st.ord.rep, y)) for x, y in zip(got[1:], want[1:])): return []
    sh = lambda g: ('Point' if g[0] == 'P' else 'Line') + '(' + ', '.join(show_pt(x) for x in g[1:]) + ')'
    return ['the result is %s, expected %s' % (sh(got), sh(want))]

ORD_OF = {CCW: -1, CW: 1, COL: 0}

def seg_spec(en, st, a, b):
    """three-way order of two segments per the sweep rule; None when they cannot be compared"""
    la, lb = a[2] == 1, b[2] == 1
    if not la and not lb:
        return 0 if lex3(en, st, a[3][0], b[3][0]) == 0 else None
    if la and not lb:
        p, q = a[3]; r = b[3][0]
        if lex3(en, st, r, q) > 0 or lex3(en, st, p, r) > 0: return None
        o = ORD_OF[orient(en, st, p, q, r)]
        return o if o else 1
    if not la:
        c = seg_spec(en, st, b, a)
        return None if c is None else -c
    c = lex3(en, st, a[3][0], b[3][0])
    if c > 0:
        k = seg_spec(en, st, b, a)
        return None if k is None else -k
    p1, q1 = a[3]; p2, q2 = b[3]
    if lex3(en, st, p2, q1) >= 0: return None
    o = ORD_OF[orient(en, st, p1, q1, p2)]
    return o if o else ORD_OF[orient(en, st, p1, q1, q2)]

@prop('O04', assumptions=ASSUME[:2], floor=8)
def o04(p, rep, tier):
    """partial_cmp and eq (and any other comparison method) of LineOrPoint are interpreted on two arbitrary segments for each of the four shape pairs, lines having their ends in order; every path must give the order by vertical position at the later left end, ties by the direction of the other end, a point below a line through it, None outside the common span. The rule is antisymmetric by construction, so a path that deviates for one argument order is reported."""
    ty = anyty(p)
    for sa in (0, 1):
        for sb in (0, 1):
            def mk(en, st):
                P, Q, R_, S_ = (sp(n, ty) for n in ('p1', 'q1', 'p2', 'q2'))
                a = lop_line(P, Q) if sa else lop_point(P)
                b = lop_line(R_, S_) if sb else lop_point(R_)
                sts = [st]
                if sa: sts = [y for x in sts for y in setrel(en, x, P, Q, (-1,))]
                if sb: sts = [y for x in sts for y in setrel(en, x, R_, S_, (-1,))]
                return [(x, a, b) for x in sts]
            cmp_impl(rep, p, LOP, mk, seg_spec, 'segments are ordered by position above the sweep (%s against %s)' % (('point', 'line')[sa], ('point', 'line')[sb]), need=2,
                     outside='segments without a common span are nevertheless ordered')

@prop('O05', assumptions=ASSUME, floor=4)
def o05(p, rep, tier):
    """intersect_line and intersect_line_ordered are interpreted on arbitrary segments, geo's line_intersection being an unknown function of the two lines: a point meets a line exactly when collinear and within its ends; otherwise the library's answer for these two lines is passed on unchanged, overlaps being normalised, except that a crossing point just below the first end in the order is moved to the next x."""
    ty = anyty(p)
    for meth in ('intersect_line', 'intersect_line_ordered'):
        for sa in (0, 1):
            en = engine(p)
            r = root_of(p, meth, LOP)
            P, Q, R_, S_ = (sp(n, ty) for n in ('p', 'q', 'r', 's'))
            st = State()
            a = lop_line(P, Q) if sa else lop_point(P)
            b = lop_line(R_, S_)
            sts = setrel(en, st, R_, S_, (-1,))
            if sa: sts = [y for x in sts for y in setrel(en, x, P, Q, (-1,))]
            def spec(s, sa=sa, en=en, meth=meth):
                """expected Option<LineOrPoint> as ('none',) / ('P',pt) / ('L',p,q) plus alternatives"""
                if not sa:
                    if orient(en, s, R_, P, S_) != COL: return None
                    if lex3(en, s, P, R_) < 0 or lex3(en, s, P, S_) > 0: return None
                    return ('P', xy(en, s, P))
                calls = [e for e in s.trace if e[0] == 'lint']
                sets = [frozenset(map(lambda t: tuple(map(s.ord.rep, t)), l)) for c in calls for l in c[1:3]]
                mine = [frozenset(tuple(map(s.ord.rep, xy(en, s, v))) for v in l) for l in ((P, Q), (R_, S_))]
                if len(calls) != 1 or set(sets) != set(mine):
                    return ('bad', 'the crossing of the two segments themselves is not asked for exactly once')
                n = calls[0][3]
                o = force(en, s, ('op', ('lint', n), p_lint(p)))
                if o[2] == 0: return None
                li = force(en, s, o[3][0])
                if p.variants[LINT][li[2]] == 'SinglePoint':
                    pt = en.child(s, li, ('f', 0)); w = ('P', xy(en, s, pt))
                else:
                    l = en.child(s, li, ('f', 0))
                    l = en.expand(s, l) if l[0] == 'op' else l
                    pt = l[3][0]
                    w = norm_line(en, s, l[3][0], l[3][1])
                if w[0] == 'L' or meth == 'intersect_line': return w
                if lex3(en, s, pt, P) < 0:
                    (x, y), (px, py) = w[1], xy(en, s, P)
                    if en.cmp3(s, x, px) == 0: return ('P', (('app', 'next_after', s.ord.rep(x), ('inf', 1)), y))
                    return ('any',)
                return w
            def chk(f, en=en, spec=spec):
                s = f.st
                w = spec(s)
                if w and w[0] == 'bad': return [w[1]]
                v = force(en, s, f.val)
                if w is None: return [] if v[2] == 0 else ['a crossing is reported where there is none']
                if w[0] == 'any': return []
                if v[2] == 0: return ['no crossing is reported where there is one']
                return same_lop(en, s, v[3][0], w)
            def ap(f): return 'panics on valid segments (%s)' % f.why
            run(rep, en, r, [(s, [by_ref(s, a), by_ref(s, b)]) for s in sts], 'crossing of a %s with a segment' % ('point', 'segment')[sa], chk, ap)

def p_lint(p):
    for i, t in enumerate(p.T):
        if t['k'] == 'adt' and t['def'] == OPT and p.T[t['args'][0]].get('def') == LINT and p.T[p.T[p.T[t['args'][0]]['variants'][0]['fields'][0][1]]['variants'][0]['fields'][0][1]]['k'] == 'param': return i
    for i, t in enumerate(p.T):
        if t['k'] == 'adt' and t['def'] == OPT and p.T[t['args'][0]].get('def') == LINT: return i
    raise Anchor('no Option<LineIntersection>')
