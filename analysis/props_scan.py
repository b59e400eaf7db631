"""F: monotone pieces as values: construction, conversion, scanning, raster queries"""
import copy, itertools, random
from registry import prop
from scandom import *
from props_bops import merge

SCANNER = 'geo_crossings::monotone::mono_poly::Scanner'
MPOLYP = 'geo_crossings::monotone::mono_poly::MonoPoly'
TRAPZ = 'geo_crossings::monotone::Trapz'
TRIP = 'geo_crossings::monotone::Trip'
SASM = ['scalars are real numbers: arithmetic is exact (rounding is out of reach), no NaN']

def follow(en, root, args, st):
    """results of one call, as (state, value); panics are returned as text"""
    out = []
    for f in en.run([begin(en, st.copy(), root, args)]):
        if f.kind == 'undecided': raise Undecided('%s: %s' % (root['name'], f.why))
        out.append((f.st, None, f.why) if f.kind == 'panic' else (f.st, f.val, None))
    return out

class Judge:
    """collect the outcomes of one case: what fails on every way through, or on one that guessed nothing, is a fault"""
    def __init__(self): self.n = 0; self.bad = []; self.sure = []
    def add(self, st, msgs):
        self.n += 1
        if msgs:
            self.bad.append((st, msgs))
            if not st.g.get('guess'): self.sure.append((st, msgs))
    def settle(self, rep, name, rule):
        if self.sure or (self.bad and len(self.bad) == self.n):
            st, msgs = (self.sure or self.bad)[0]
            for m in sorted(set(msgs)): rep.violation(name, rule, m, st.log)
        elif self.bad: rep.undecided(name, 'depends on an order the case does not fix: ' + self.bad[0][1][0])
        rep.obligation(name, rule, self.n)

def stats(rep, en):
    for b in en.stats['bodies']: rep.bodies.add(en.p.bodies[b]['path'])
    rep.models |= en.used_models; rep.states += en.stats['states']; en.stats['states'] = 0

def drive_cases(rep, en, name, rule, cases, fn):
    """fn(judge, case) explores one case"""
    for c in cases:
        j = Judge()
        try: fn(j, c)
        except Undecided as u: rep.undecided(name, str(u)); rep.obligation(name, rule, 0); continue
        j.settle(rep, name, rule)
    stats(rep, en)

class SX:
    def __init__(self, p):
        self.new = root_of(p, 'new', MPOLYP)
        self.trapz = adt_ty(p, TRAPZ, lambda t: generic(p, t)); self.trip = adt_ty(p, TRIP, lambda t: generic(p, t))
        ix = lambda t, n: [f[0] for f in p.T[t]['variants'][0]['fields']].index(n)
        try:
            self.l, self.r = ix(self.trapz, 'left'), ix(self.trapz, 'right')
            self.tx, self.tt, self.tb = ix(self.trip, 'x'), ix(self.trip, 'top'), ix(self.trip, 'bot')
        except ValueError: raise Anchor('anchor: fields of Trapz and Trip')
    def trip_terms(self, en, st, v):
        if v[0] != 'adt': raise Undecided('a trip that is not known')
        return tuple(en.sval(en, st, v[3][i]) for i in (self.tx, self.tt, self.tb))
    def trapz_terms(self, en, st, v):
        if v[0] != 'adt' or v[1] != TRAPZ: raise Undecided('a trapezoid that is not known')
        return self.trip_terms(en, st, v[3][self.l]), self.trip_terms(en, st, v[3][self.r])
    def mk_trip(self, x, t, b):
        v = [None] * 3
        v[self.tx], v[self.tt], v[self.tb] = op(x), op(t), op(b)
        return ('adt', TRIP, 0, tuple(v))
    def mk_trapz(self, l, r):
        v = [None] * 2
        v[self.l], v[self.r] = l, r
        return ('adt', TRAPZ, 0, tuple(v))

# ---- F03: construction and conversion
def plain_state(O):
    st = State(); st.g['scan'] = O
    return st

def grid_points(n):
    """points in sweep order over two columns and two heights, so that equal x and equal y occur"""
    pts = [(x, y) for x in range(n) for y in range(2)]
    O = OrderType()
    O.group([(sym('x%d' % x), x) for x in range(n)]); O.group([(sym('y%d' % y), y) for y in range(2)])
    return O, [cxy(sym('x%d' % x), sym('y%d' % y)) for x, y in pts]

@prop('F03', assumptions=SASM, floor=400)
def f03(p, rep, tier):
    """MonoPoly::new on every pair of sequences of up to three (thorough: four) points out of a grid, in which both coordinates repeat: it returns exactly for pairs of strictly increasing sides with common ends, and keeps them; into_ls_pair, top, bot and into_polygon then give back these sides, the polygon as one closed ring that goes along one side and back along the other; bounding_rect, on pieces given as order types, gives the least and the greatest of each coordinate."""
    X = SX(p); en = scan_engine(p)
    top, bot, pair, poly_ = (root_of(p, n, MPOLYP) for n in ('top', 'bot', 'into_ls_pair', 'into_polygon'))
    br = [r for r in p.roots if r['name'] == 'bounding_rect' and r['self_ty'] is not None and p.T[r['self_ty']].get('def') == MPOLYP]
    if len(br) != 1: raise Anchor('anchor: bounding_rect of MonoPoly')
    N = 3 if tier == 'quick' else 4
    O, P = grid_points(2 if tier == 'quick' else 3)
    seqs = [s for n in range(0, N + 1) for s in itertools.product(range(len(P)), repeat=n)]
    inc = [s for s in seqs if all(a < b for a, b in zip(s, s[1:]))]
    work = []
    for a in seqs:
        for b in seqs:
            good = len(a) > 1 and len(b) > 1 and a in inc and b in inc and a[0] == b[0] and a[-1] == b[-1]
            # every good pair; bad ones that are wrong in few places
            if good: work.append((a, b, True)); continue
            if len(a) < 2 or len(b) < 2:
                if len(a) + len(b) <= 3: work.append((a, b, False))
                continue
            if a[0] == b[0] and a[-1] == b[-1]: work.append((a, b, False))
            elif a in inc and b in inc and len(a) + len(b) <= 4: work.append((a, b, False))
    rnd = random.Random(3); goods = [w for w in work if w[2]]; bads = [w for w in work if not w[2]]
    rnd.shuffle(bads); bads = bads[:2000 if tier == 'quick' else 6000]
    RULE = 'accepts exactly pairs of strictly increasing sides with common ends'; R2 = 'gives back the sides it was made of'; R3 = 'the ring runs along one side and back along the other'
    def seq_of(st, v): return [tuple(fp(en.sval(en, st, x)) for x in c[3]) for c in en.coords(en, st, v)]
    name = label(X.new)
    def one(j, c):
        a, b, good = c
        la, lb = ls([P[i] for i in a]), ls([P[i] for i in b])
        st = plain_state(O)
        A, B = seq_of(st, la), seq_of(st, lb)
        for st, v, why in follow(en, X.new, [la, lb], st):
            if why is not None: j.add(st, ['a valid pair of sides is refused (%s)' % why] if good else []); continue
            if not good: j.add(st, ['a pair of sides is accepted that is not valid']); continue
            msgs = []
            for r, want, n in ((top, A, 'top'), (bot, B, 'bot')):
                for s2, w, y in follow(en, r, [('ref', st.alloc(v, 'M'), (), None)], st):
                    if y is not None or seq_of(s2, w) != want: msgs.append('%s() is not the side it was made of' % n)
            for s2, w, y in follow(en, pair, [v], st):
                if y is not None or w[0] != 'tup' or [seq_of(s2, x) for x in w[1]] != [A, B]: msgs.append('into_ls_pair does not give back the two sides')
            for s2, w, y in follow(en, poly_, [v], st):
                if y is not None: msgs.append('into_polygon ends in a panic (%s)' % y); continue
                if w[0] != 'adt' or w[1] != POLY: raise Undecided('into_polygon gives something unknown')
                ring = seq_of(s2, w[3][0])
                if w[3][1][0] != 'seq' or w[3][1][2]: msgs.append('the polygon has holes')
                if len(ring) < 2 or ring[0] != ring[-1]: msgs.append('the ring is not closed'); continue
                cyc = ring[:-1]; want = A + B[::-1][1:-1]
                def canon(c):
                    return min([tuple(c[i:] + c[:i]) for i in range(len(c))] + [tuple(c[::-1][i:] + c[::-1][:i]) for i in range(len(c))])
                if len(cyc) != len(want) or canon(cyc) != canon(want): msgs.append('the ring does not run along one side and back along the other')
            j.add(st, msgs)
    drive_cases(rep, en, name, RULE, goods + bads, one)
    # bounding rectangle
    def rectangle(j, pc):
        O = OrderType()
        O.group(list(zip(pc.x, pc.xs))); O.group([(t, h) for h, t in pc.y.items()])
        st = plain_state(O)
        hs = sorted(pc.y)
        want = [(pc.x[0], pc.y[hs[0]]), (pc.x[-1], pc.y[hs[-1]])]
        for st, v, why in follow(en, X.new, [ls(pc.line(pc.top)), ls(pc.line(pc.bot))], st):
            if why is not None: j.add(st, ['a valid pair of sides is refused (%s)' % why]); continue
            for s2, w, y in follow(en, br[0], [('ref', st.alloc(v, 'M'), (), None)], st):
                if y is not None: j.add(s2, ['bounding_rect ends in a panic (%s)' % y]); continue
                if w[0] != 'adt' or w[1] != RECT: raise Undecided('bounding_rect gives something unknown')
                got = [tuple(fp(en.sval(en, s2, x)) for x in c[3]) for c in w[3]]
                j.add(s2, [] if got == [tuple(fp(x) for x in c) for c in want] else ['the rectangle is not the least one around the piece'])
    drive_cases(rep, en, label(br[0]), 'the least rectangle around the piece', list(pieces(tier)), rectangle)
    merge(rep, name)

# ---- F04: scanning
@stepfn('drain')
def step_drain(en, st, fr):
    """take items from an iterator until it ends"""
    it, got, waiting, bound, nx = fr.data
    if waiting:
        r = st.mem[('L', fr.uid, 0)]
        if r[0] != 'adt': raise Undecided('an item that is not known')
        if r[2] == 0:
            st.g['drained'] = got; return ('ret', UNIT)
        got = got + (r[3][0],)
        if len(got) > bound: raise Undecided('the iterator does not end')
        fr.data = (it, got, False, bound, nx); return ('again',)
    fr.data = (it, got, True, bound, nx)
    def go(en, st, dest):
        v = rd(en, st, it)
        if v[0] == 'adt' and v[1] == 'core::iter::sources::from_fn::FromFn':
            return en.invoke(st, ('ref', it[1], it[2] + (('f', 0),), None), [], dest, 0, '')
        if v[0] == 'adt':
            for r in nx:
                if en.p.T[r['self_ty']].get('def') == v[1]:
                    en.push(st, en.p.body_of(r), [it], dest, 0, ''); return ('pushed',)
        raise Undecided('an iterator of unknown kind')
    return ('callm', go, ())

def drain(en, st, v, nx):
    st = st.copy()
    b = st.alloc(v, 'IT')
    st.mem[('R', 0)] = UNINIT
    en.push_native(st, 'drain', (('ref', b, (), None), (), False, 200, nx), (('R', 0), ()), None)
    out = []
    for f in en.run([st]):
        if f.kind == 'undecided': raise Undecided('advance_to: %s' % f.why)
        out.append((f.st, f.st.g.get('drained'), f.why if f.kind == 'panic' else None))
    return out

def scan_cases(tier):
    """pieces with the places where scanning stops"""
    rnd = random.Random(9)
    for pc in pieces(tier):
        spots = [(Fraction(-1), None)]
        for i in range(pc.m + 1):
            spots.append((Fraction(pc.xs[i]), i))
            if i < pc.m:
                spots.append((pc.xs[i] + Fraction(pc.xs[i + 1] - pc.xs[i], 3), None)); spots.append((pc.xs[i] + Fraction(2 * (pc.xs[i + 1] - pc.xs[i]), 3), None))
        spots.append((Fraction(pc.xs[-1] + 1), None))
        for n in ((2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
            k = sorted(rnd.sample(range(len(spots)), min(n, len(spots))))
            yield pc, [spots[i] for i in k]
        yield pc, [spots[0], spots[-1]]

def order_of(pc, cuts):
    """order type of a piece with cuts; gives the terms of the cuts"""
    O = OrderType(); cx = []
    for i, (x, col) in enumerate(cuts): cx.append(pc.x[col] if col is not None else sym('c%d' % i))
    O.group(list(zip(pc.x, map(Fraction, pc.xs))) + [(t, c[0]) for t, c in zip(cx, cuts)])
    hs = [(t, Fraction(h)) for h, t in pc.y.items()]
    pos = [(Fraction(x), t) for x, t in zip(pc.xs, pc.x)] + [(c[0], t) for c, t in zip(cuts, cx)]
    for x, t in pos:
        for side in (pc.top, pc.bot):
            r = pc.at(side, x, t, 1)
            if r and r[0][0] == 'ar': hs.append(r)
    O.group(hs)
    return O, cx

def tiles(pc, lo, hi, cuts):
    """trapezoids between two positions (number, term)"""
    pts = [p for p in [lo] + [(Fraction(x), t) for x, t in zip(pc.xs, pc.x)] + [hi] if lo[0] <= p[0] <= hi[0]]
    pts = [p for i, p in enumerate(sorted(pts, key=lambda p: p[0])) ]
    u = []
    for p in pts:
        if not u or u[-1][0] != p[0]: u.append(p)
    out = []
    for a, b in zip(u, u[1:]):
        out.append(((a[1], pc.at(pc.top, a[0], a[1], 1)[0], pc.at(pc.bot, a[0], a[1], 1)[0]), (b[1], pc.at(pc.top, b[0], b[1], 0)[0], pc.at(pc.bot, b[0], b[1], 0)[0])))
    return out

def fpt(tz): return tuple(tuple(fp(x) for x in t) for t in tz)

@prop('F04', assumptions=SASM, floor=300)
def f04(p, rep, tier):
    """scan_lines, advance_to, advance_upto and Trapz::area are interpreted on pieces given as order types (up to three inner columns, thorough four; vertical edges, points on one side only or on both) and on up to four places where scanning stops, before, on, between and past the columns: what is reported up to each stop must be the trapezoids between there and the last stop, in order, each over one column, heights compared as rational functions of the coordinates with linear interpolation on the edges; advance_upto must report the same; curr must be at the stop; the area of each must be its width times the mean height."""
    X = SX(p)
    scan = root_of(p, 'scan_lines', MPOLYP); to = root_of(p, 'advance_to', SCANNER); upto = root_of(p, 'advance_upto', SCANNER)
    cur = root_of(p, 'curr', SCANNER); area = root_of(p, 'area', TRAPZ)
    nx = [r for r in p.roots if r['name'] == 'next' and r['impl_trait'] and r['impl_trait'].endswith('iterator::Iterator') and r['self_ty'] is not None]
    RULE = 'the trapezoids up to a stop tile the piece from the last one'
    work = list(scan_cases(tier))
    def record(en, st, f, args):
        st.g['seen'] = st.g.get('seen', ()) + (args[0],); return UNIT
    def one(en):
        def go(j, c):
            pc, cuts = c
            O, cx = order_of(pc, cuts)
            st = plain_state(O)
            start = (Fraction(pc.xs[0]), pc.x[0]); end = (Fraction(pc.xs[-1]), pc.x[-1])
            for st, v, why in follow(en, X.new, [ls(pc.line(pc.top)), ls(pc.line(pc.bot))], st):
                if why: raise Undecided('the piece is refused: ' + why)
                mp = ('ref', st.alloc(v, 'M'), (), None)
                todo = []
                for s2, sc, y in follow(en, scan, [mp, op(cx[0])], st):
                    if y: j.add(s2, ['scan_lines ends in a panic (%s)' % y]); continue
                    b = s2.alloc(sc, 'SC')
                    todo.append((s2, ('ref', b, (), None), 0, []))
                while todo:
                    s, ref, i, msgs = todo.pop()
                    at = max(start, (cuts[i][0], cx[i]), key=lambda q: q[0]); at = min(end, at, key=lambda q: q[0])
                    # where it is
                    for s3, w, y in follow(en, cur, [ref], s):
                        if y: msgs = msgs + ['curr ends in a panic (%s)' % y]; continue
                        x, t, bo = X.trip_terms(en, s3, w)
                        if fp(x) != fp(at[1]): msgs = msgs + ['the scanner is not where it was advanced to']
                        for h, side in ((t, pc.top), (bo, pc.bot)):
                            ok = [fp(q[0]) for q in (pc.at(side, at[0], at[1], 0), pc.at(side, at[0], at[1], 1)) if q]
                            if fp(h) not in ok: msgs = msgs + ['the scanner is not at the height of the side']
                    if i + 1 == len(cuts): j.add(s, msgs); continue
                    hi = min(end, max(start, (cuts[i + 1][0], cx[i + 1]), key=lambda q: q[0]), key=lambda q: q[0])
                    want = [fpt(t) for t in tiles(pc, at, hi, cuts)]
                    def judge(s, got, what):
                        g = [fpt(X.trapz_terms(en, s, t)) for t in got]
                        if g == want: return []
                        if len(g) == len(want): return ['%s reports a trapezoid with the wrong corners' % what]
                        return ['%s %s' % (what, 'leaves out a trapezoid' if len(g) < len(want) else 'reports a trapezoid too many')]
                    # advance_upto on a copy
                    sc = s.copy(); sc.g['seen'] = ()
                    for s3, w, y in follow(en, upto, [ref, op(cx[i + 1]), ('op', sym('$proc'), None)], sc):
                        if y: msgs = msgs + ['advance_upto ends in a panic (%s)' % y]; continue
                        msgs = msgs + judge(s3, s3.g['seen'], 'advance_upto')
                    for s3, w, y in follow(en, to, [ref, op(cx[i + 1])], s):
                        if y: j.add(s3, msgs + ['advance_to ends in a panic (%s)' % y]); continue
                        for s4, got, y in drain(en, s3, w, nx):
                            if y: j.add(s4, msgs + ['an item of advance_to ends in a panic (%s)' % y]); continue
                            m2 = msgs + judge(s4, got, 'advance_to')
                            for t in got:
                                for s5, a, y in follow(en, area, [('ref', s4.alloc(t, 'TZ'), (), None)], s4):
                                    if y: m2 = m2 + ['area ends in a panic (%s)' % y]; continue
                                    l, r = X.trapz_terms(en, s5, t)
                                    e = ar('/', ar('*', ar('+', ar('-', l[1], l[2]), ar('-', r[1], r[2])), ar('-', r[0], l[0])), num(2))
                                    if fp(en.sval(en, s5, a)) != fp(e): m2 = m2 + ['the area is not the width times the mean height']
                            todo.append((s4, ref, i + 1, m2))
        return go
    def job(part):
        def go(rep):
            en = scan_engine(p); en.models['call-opaque'] = record
            drive_cases(rep, en, label(to), RULE, part, one(en))
        return go
    k = 16
    parallel(rep, [job(work[i::k]) for i in range(k)])
    merge(rep, label(to))

# ---- F05, F06: raster queries
def bands(rnd, pc, h):
    """lower end, height of a row: numbers; whole and half numbers so that corners fall on rows as well"""
    hs = sorted(pc.y)
    lo = Fraction(rnd.choice((hs[0] - 3, hs[0] - 1, hs[0], hs[0] + 1, hs[0] + 2, hs[-1], hs[-1] + 1)))
    return lo, Fraction(rnd.choice((1, 2, 3, 4, 8, 16)), rnd.choice((1, 2)))

def raster_cases(tier, n):
    rnd = random.Random(21)
    for pc in pieces(tier):
        spots = [Fraction(-1)] + [Fraction(x) for x in pc.xs] + [pc.xs[i] + Fraction(pc.xs[i + 1] - pc.xs[i], 3) for i in range(pc.m)] + [Fraction(pc.xs[-1] + 1)]
        spots.sort()
        for k in range(n):
            i, j = sorted(rnd.sample(range(len(spots)), 2)) if k else (0, len(spots) - 1)
            cuts = [(spots[q], pc.xs.index(spots[q]) if spots[q] in pc.xs else None) for q in (i, j)]
            h = rnd.choice((1, 2, 3, 5))
            yield pc, cuts, h, bands(rnd, pc, h)

def raster_order(pc, cuts, h, lo, s):
    """order type with the rows; returns it with the piece, the terms of the cuts and of the rows, ...; a corner on a row has the height of the row"""
    cmin, sl = sym('cmin'), sym('slice')
    row = [(ar('+', ar('*', sl, num(j)), cmin), lo + j * s) for j in range(h + 2)]
    pc = copy.copy(pc); pc.y = dict(pc.y)
    for t, v in row:
        if v in pc.y: pc.y[v] = t
    cx = []
    for i, (x, col) in enumerate(cuts): cx.append(pc.x[col] if col is not None else sym('c%d' % i))
    start = (Fraction(pc.xs[0]), pc.x[0]); end = (Fraction(pc.xs[-1]), pc.x[-1])
    O = OrderType()
    hs = [(t, Fraction(y)) for y, t in pc.y.items()] + row
    pos = [(Fraction(x), t) for x, t in zip(pc.xs, pc.x)] + [(c[0], t) for c, t in zip(cuts, cx)]
    val = {}
    for x, t in pos:
        for side in (pc.top, pc.bot):
            for right in (0, 1):
                r = pc.at(side, x, t, right)
                if r: hs.append(r); val[fp(r[0])] = r[1]
    xs = list(zip(pc.x, map(Fraction, pc.xs))) + [(t, c[0]) for t, c in zip(cx, cuts)]
    xval = {fp(t): v for t, v in xs}
    lo_, hi_ = (min(end, max(start, (cuts[i][0], cx[i]), key=lambda q: q[0]), key=lambda q: q[0]) for i in (0, 1))
    tz = tiles(pc, lo_, hi_, cuts)
    marks = row + [(t, v) for t, v in hs]
    # where the slanted sides of each trapezoid meet each height
    for l, r in tz:
        for k in (1, 2):
            a, b = val[fp(l[k])], val[fp(r[k])]; xa, xb = xval[fp(l[0])], xval[fp(r[0])]
            for t, v in marks:
                if min(a, b) < v < max(a, b):
                    f = ar('/', ar('-', t, l[k]), ar('-', r[k], l[k]))
                    xs.append((ar('+', ar('*', f, ar('-', r[0], l[0])), l[0]), xa + (v - a) / (b - a) * (xb - xa)))
    O.group(xs); O.group(hs)
    O.positive(sl)
    O.affine.append((sl, cmin)); O.floors.append((sl, cmin, [(t, j) for j, (t, v) in enumerate(row)]))
    distinct = len({fp(t) for t, _ in hs}) == len({v for _, v in hs})
    return O, pc, cx, row, cmin, tz, val, xval, distinct

def rows_of(y, lo, s, h): return min((y - lo) // s, h - 1)

@prop('F05', assumptions=SASM, floor=300)
def f05(p, rep, tier):
    """cross_bounds and cross_ubounds are interpreted on pieces given as order types, on stretches that begin and end before, on, between or past the columns, and rows (1 to 5) placed below, across, above and exactly on the corners: they must give nothing (the pair (height, 0)) exactly when no part of the stretch lies strictly between the bounds, else the rows of the lowest and the highest point within the bounds, and cross_bounds also the greatest height of the lower and the least of the upper side; the scanner must have moved to the end of the stretch."""
    X = SX(p)
    scan = root_of(p, 'scan_lines', MPOLYP); cur = root_of(p, 'curr', SCANNER)
    cb, cu = root_of(p, 'cross_bounds', SCANNER), root_of(p, 'cross_ubounds', SCANNER)
    work = list(raster_cases(tier, 3 if tier == 'quick' else 12))
    def one(en, root):
        def go(j, c):
            pc, cuts, h, (lo, s) = c
            O, pc, cx, row, cmin, tz, val, xval, _ = raster_order(pc, cuts, h, lo, s)
            st = plain_state(O)
            tops = [t[1] for q in tz for t in q]; bots = [t[2] for q in tz for t in q]
            v = lambda t: val[fp(t)]
            want = None
            if tz:
                ymax, ymin = max(map(v, tops)), min(map(v, bots))
                if not (ymax <= ymin or ymax <= lo or ymin >= lo + h * s):
                    want = (rows_of(max(ymin, lo), lo, s, h), rows_of(min(ymax, lo + h * s), lo, s, h), max(bots, key=v), min(tops, key=v))
            for st, m, why in follow(en, X.new, [ls(pc.line(pc.top)), ls(pc.line(pc.bot))], st):
                if why: raise Undecided('the piece is refused: ' + why)
                for s2, sc, y in follow(en, scan, [('ref', st.alloc(m, 'M'), (), None), op(cx[0])], st):
                    if y: raise Undecided('scan_lines: ' + y)
                    ref = ('ref', s2.alloc(sc, 'SC'), (), None)
                    for s3, r, y in follow(en, root, [ref, op(cx[1]), op(cmin), op(row[h][0]), h], s2):
                        if y: j.add(s3, ['%s ends in a panic (%s)' % (root['name'], y)]); continue
                        msgs = []
                        if root is cb:
                            if r[0] != 'adt': raise Undecided('an unknown result')
                            if (r[2] == 0) != (want is None): msgs.append('something is reported where nothing lies between the bounds' if want is None else 'nothing is reported where something lies between the bounds')
                            elif want is not None:
                                g = r[3][0][1]
                                if (g[0], g[1]) != want[:2]:
                                    if not all(isinstance(q, int) for q in g[:2]): raise Undecided('rows unknown')
                                    msgs.append('the rows are not those of the lowest and the highest point')
                                for q, w, n in ((g[2], want[2], 'greatest height of the lower side'), (g[3], want[3], 'least height of the upper side')):
                                    if compare(en, s3, en.sval(en, s3, q), w) != 0: msgs.append('the %s is not reported' % n)
                        else:
                            w = (h, 0) if want is None else want[:2]
                            if r[0] != 'tup' or not all(isinstance(q, int) for q in r[1]): raise Undecided('rows unknown')
                            if tuple(r[1]) != w: msgs.append('nothing is not reported as the empty pair' if want is None else 'the rows are not those of the lowest and the highest point')
                        start, end = Fraction(pc.xs[0]), Fraction(pc.xs[-1])
                        q = max(start, min(end, max(cuts[1][0], start))); wx = [t for t, n in list(zip(pc.x, map(Fraction, pc.xs))) + [(cx[1], cuts[1][0])] if n == q][0]
                        for s4, w, y in follow(en, cur, [ref], s3):
                            if y or compare(en, s4, X.trip_terms(en, s4, w)[0], wx) != 0: msgs.append('the scanner has not moved to the end of the stretch')
                        j.add(s3, msgs)
        return go
    def job(part, root):
        def go(rep):
            en = scan_engine(p)
            drive_cases(rep, en, label(root), 'rows and heights of the stretch', part, one(en, root))
        return go
    k = 8
    parallel(rep, [job(work[i::k], r) for i in range(k) for r in (cb, cu)])
    merge(rep, label(cb))

def over(l, r, k, c, val, cv):
    """integral of the part of a side above a height, from the left to the right of a trapezoid: a term"""
    a, b = val[fp(l[k])], val[fp(r[k])]
    w = ar('-', r[0], l[0])
    if a <= cv and b <= cv: return num(0)
    if a >= cv and b >= cv: return ar('*', w, ar('-', ar('/', ar('+', l[k], r[k]), num(2)), c))
    hi, lo = (l[k], r[k]) if a > b else (r[k], l[k])
    d = ar('-', hi, c)
    return ar('/', ar('*', w, ar('*', d, d)), ar('*', num(2), ar('-', hi, lo)))

@prop('F06', assumptions=SASM, floor=200)
def f06(p, rep, tier):
    """cross_area is interpreted on pieces and stretches as in F05, with rows below, across, above and on the corners: to each row it must add exactly the area of the part of the stretch within that row, compared as a rational function of the coordinates with the integral between the sides, and leave the others as they are."""
    X = SX(p)
    scan = root_of(p, 'scan_lines', MPOLYP); ca = root_of(p, 'cross_area', SCANNER)
    work = [c for c in raster_cases(tier, 3 if tier == 'quick' else 14) if raster_order(c[0], c[1], c[2], *c[3])[-1]]
    def one(en):
        def go(j, c):
            pc, cuts, h, (lo, s) = c
            O, pc, cx, row, cmin, tz, val, xval, distinct = raster_order(pc, cuts, h, lo, s)
            st = plain_state(O)
            want = []
            for k in range(h):
                e = sym('a%d' % k)
                (c0, v0), (c1, v1) = row[k], row[k + 1]
                for l, r in tz:
                    for side, o in ((1, '+'), (2, '-')):
                        e = ar(o, e, ar('-', over(l, r, side, c0, val, v0), over(l, r, side, c1, val, v1)))
                want.append(fp(e))
            for st, m, why in follow(en, X.new, [ls(pc.line(pc.top)), ls(pc.line(pc.bot))], st):
                if why: raise Undecided('the piece is refused: ' + why)
                for s2, sc, y in follow(en, scan, [('ref', st.alloc(m, 'M'), (), None), op(cx[0])], st):
                    if y: raise Undecided('scan_lines: ' + y)
                    ref = ('ref', s2.alloc(sc, 'SC'), (), None)
                    arr = ('ref', s2.alloc(('seq', 'array', tuple(op(sym('a%d' % k)) for k in range(h))), 'ARR'), (), None)
                    for s3, r, y in follow(en, ca, [ref, op(cx[1]), op(cmin), op(row[h][0]), arr], s2):
                        if y: j.add(s3, ['cross_area ends in a panic (%s)' % y]); continue
                        got = rd(en, s3, arr)
                        if got[0] != 'seq' or len(got[2]) != h: raise Undecided('rows unknown')
                        got = [fp(en.sval(en, s3, q)) for q in got[2]]
                        j.add(s3, [] if got == want else ['a row does not get the area of the part within it'])
        return go
    def job(part):
        def go(rep):
            en = scan_engine(p)
            drive_cases(rep, en, label(ca), 'each row gets the area within it', part, one(en))
        return go
    k = 16
    parallel(rep, [job(work[i::k]) for i in range(k)])
    merge(rep, label(ca))
