"""Domain for scanning monotone pieces: scalars are algebraic expressions over unknown coordinates. Expressions are compared
as functions (equal as rational functions, whatever their form); which of two is larger follows from the order type of the
case (the order of the coordinates and of the heights of the sides over every position), for differences that are products
and sums of known signs by their sign, and is tried both ways otherwise."""
import random
from fractions import Fraction
from bopsdom import *
from geom import COORD
import arith

RECT = 'geo_types::geometry::rect::Rect'
PRIMES = ((1 << 61) - 1, (1 << 89) - 1)
def sym(n): return ('v', n)
def op(t): return ('op', t, None)
def ar(o, a, b): return ('ar', o, a, b)
def num(n): return ('i', n)

_val = {}
def symval(n, k):
    r = random.Random('%s/%d' % (n, k)); return r.randrange(2, PRIMES[k] - 2)

_fp = {}
def fp(t):
    """the expression evaluated in two large fields at fixed arbitrary points: equal for equal functions"""
    r = _fp.get(t)
    if r is None:
        if len(_fp) > 400000: _fp.clear()
        r = _fp[t] = tuple(_fpk(t, k) for k in (0, 1))
    return r
def _fpk(t, k):
    m = PRIMES[k]
    if t[0] == 'i': return t[1] % m
    if t[0] == 'ar':
        a, b = fp(t[2])[k], fp(t[3])[k]
        if t[1] == '+': return (a + b) % m
        if t[1] == '-': return (a - b) % m
        if t[1] == '*': return a * b % m
        if b == 0: raise Undecided('division by zero')
        return a * pow(b, -1, m) % m
    return symval(repr(t), k)

class OrderType:
    """`lines`: lists of (term, rank) groups, each totally ordered; equal rank for equal values"""
    def __init__(self):
        self.rank = {}        # fingerprint -> (group, rank)
        self.syms = {}        # fingerprint -> symbol used in expansions
        self.gaps = {}        # symbol -> polynomial in gaps
        self.affine = []      # (mul, add): comparisons are also tried after t -> t * mul + add, mul positive
        self.floors = []      # (mul, add, [(term, index)]): floor of t is the last index whose term is not above t * mul + add
        self.pos = set()      # symbols known to be positive
        self.n = 0
    def group(self, vals):
        """vals: list of (term, number): the numbers give the order only"""
        self.n += 1; g = self.n
        ks = sorted({v for _, v in vals})
        base = None
        for i, v in enumerate(ks):
            for t, w in vals:
                if w != v: continue
                f = fp(t)
                if f in self.rank and self.rank[f] != (g, i): continue
                self.rank[f] = (g, i)
                p = {((('g', g, -1), 1),): 1}
                for j in range(1, i + 1): p[((('g', g, j), 1),)] = 1
                self.gaps[f] = p
    def positive(self, t):
        self.n += 1; self.gaps[fp(t)] = {((('g', self.n, 0), 1),): 1}
    def cmp_named(self, a, b):
        ra, rb = self.rank.get(fp(a)), self.rank.get(fp(b))
        if ra is None or rb is None or ra[0] != rb[0]: return None
        return (ra[1] > rb[1]) - (ra[1] < rb[1])
    # polynomials in gaps
    def expand(self, t, cap=3000):
        """(numerator, denominator) with known expressions replaced by sums of gaps"""
        g = self.gaps.get(fp(t))
        if g is not None: return g, {(): 1}
        if t[0] == 'i': return ({(): t[1]} if t[1] else {}), {(): 1}
        if t == arith.EPS: return {((('e', 0, 0), 1),): 1}, {(): 1}
        if t[0] == 'ar':
            (an, ad), (bn, bd) = self.expand(t[2]), self.expand(t[3])
            if t[1] == '*': r = pmul(an, bn), pmul(ad, bd)
            elif t[1] == '/': r = pmul(an, bd), pmul(ad, bn)
            elif ad == bd: r = padd(an, bn, 1 if t[1] == '+' else -1), ad
            else: r = padd(pmul(an, bd), pmul(bn, ad), 1 if t[1] == '+' else -1), pmul(ad, bd)
            if len(r[0]) + len(r[1]) > cap: raise TooBig()
            return r
        return {(((t, 0), 1),): 1}, {(): 1}
    def sign(self, t):
        try: n, d = self.expand(t)
        except TooBig: return None
        s = psign(lowest(n))
        if s == 0: return 0
        e = psign(lowest(d))
        return None if s is None or not e else s * e
class TooBig(Exception): pass
def padd(a, b, s):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = {}
            for v, e in m + n: q[v] = q.get(v, 0) + e
            k = tuple(sorted(q.items(), key=repr))
            x = r.get(k, 0) + c * d
            if x: r[k] = x
            else: r.pop(k, None)
    return r
def lowest(p):
    """with a tolerance in it: the part of lowest degree (see arith.py)"""
    if not any(v[0] == 'e' for m in p for v, e in m): return p
    d = {m: sum(e if v[0] != 'e' else e / 2 for v, e in m) for m in p}
    lo = min(d.values())
    return {m: c for m, c in p.items() if d[m] == lo}
def psign(p):
    """sign of a polynomial whose variables are positive; those of other kinds, and the first of a group, may have any sign"""
    s = 0
    for m, c in p.items():
        if any((v[0] not in ('g', 'e') or v[2] == -1) and e % 2 for v, e in m): return None
        if any((v[0] not in ('g', 'e') or v[2] == -1) for v, e in m): return None
        k = 1 if c > 0 else -1
        if s and k != s: return None
        s = k
    return s

def compare(en, st, a, b):
    """-1 / 0 / 1, forking when the case leaves it open"""
    for x, y, sg in ((a, b, 1), (b, a, -1)):
        if x[0] == 'inf': return 0 if x == y else x[1] * sg
    O = st.g['scan']
    if fp(a) == fp(b): return 0
    r = O.cmp_named(a, b)
    if r is not None: return r
    d = ar('-', a, b)
    r = O.sign(d)
    if r is not None: return r
    for mul, add in O.affine:
        r = O.cmp_named(ar('+', ar('*', a, mul), add), ar('+', ar('*', b, mul), add))
        if r is not None: return r
    k = fp(a), fp(b)
    for kk, sg in ((('cg',) + k, 1), (('cg',) + k[::-1], -1)):
        if kk in st.mat: return st.mat[kk] * sg
    alts = []
    for v, n in ((-1, '<'), (1, '>')):
        def ref(s, v=v):
            s.mat[('cg',) + k] = v; s.g['guess'] = True
        alts.append(('%s %s %s' % (show_term(a), n, show_term(b)), ref))
    raise Fork(alts, 'order')

def scan_engine(p):
    en = Engine(p, models=dict(GEOM), max_visits=400, max_states=200000); M = en.models
    en.collect_bound = 80
    def val(en, st, v):
        while v[0] == 'ref': v = rd(en, st, v)
        t = en.term(st, v)
        if t[0] == 'flit':
            t = arith.literal(t)
            if t is None: raise Undecided('float literal')
        return t
    en.sval = val
    en.cmp3 = lambda st, a, b: compare(en, st, a, b)
    def cmpq(st, a, b, want):
        c = compare(en, st, a, b)
        return bool({-1: LT, 0: EQ, 1: GT}[c] & want)
    en.cmpq = cmpq
    def arith(o):
        def f(en, st, c):
            a, b = val(en, st, c.args[0]), val(en, st, c.args[1])
            if 'inf' in (a[0], b[0]): raise Undecided('arithmetic on infinity')
            if o == '/':
                if compare(en, st, b, num(0)) == 0: return ('$panic', 'a division by zero')
            return ('op', ar(o, a, b), c.c['ret'])
        return f
    for n, o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
        M['core::ops::arith::%s' % n.capitalize(), n] = arith(o)
        def asg(en, st, c, o=o):
            r = arith(o)(en, st, c)
            if r[0] == 'op': wr(en, st, c.args[0], r); return UNIT
            return r
        M['core::ops::arith::%sAssign' % n.capitalize(), n + '_assign'] = asg
    M['core::ops::arith::Neg', 'neg'] = lambda en, st, c: ('op', ar('-', num(0), val(en, st, c.args[0])), c.c['ret'])
    M['num_traits::identities::Zero', 'zero'] = lambda en, st, c: ('op', num(0), c.c['ret'])
    M['num_traits::identities::One', 'one'] = lambda en, st, c: ('op', num(1), c.c['ret'])
    M['num_traits::identities::Zero', 'is_zero'] = lambda en, st, c: compare(en, st, val(en, st, c.args[0]), num(0)) == 0
    def mm(s):
        def f(en, st, c):
            a, b = val(en, st, c.args[0]), val(en, st, c.args[1])
            return ('op', a if compare(en, st, a, b) * s >= 0 else b, c.c['ret'])
        return f
    M['num_traits::float::Float', 'max'] = mm(1); M['num_traits::float::Float', 'min'] = mm(-1)
    def clampf(en, st, c):
        a, lo, hi = (val(en, st, x) for x in c.args)
        if compare(en, st, a, lo) < 0: a = lo
        elif compare(en, st, a, hi) > 0: a = hi
        return ('op', a, c.c['ret'])
    M['num_traits::clamp'] = M['num_traits::clamp::clamp'] = clampf
    def m_abs(en, st, c):
        a = val(en, st, c.args[0])
        return ('op', a if compare(en, st, a, num(0)) >= 0 else ar('-', num(0), a), c.c['ret'])
    M['num_traits::float::Float', 'abs'] = m_abs; M['num_traits::sign::Signed', 'abs'] = m_abs
    M['num_traits::float::Float', 'mul_add'] = lambda en, st, c: ('op', ar('+', ar('*', val(en, st, c.args[0]), val(en, st, c.args[1])), val(en, st, c.args[2])), c.c['ret'])
    M['num_traits::float::Float', 'recip'] = lambda en, st, c: ('op', ar('/', num(1), val(en, st, c.args[0])), c.c['ret'])
    def m_bool(r):
        return lambda en, st, c: r
    M['num_traits::float::Float', 'is_nan'] = m_bool(False)
    M['num_traits::float::Float', 'is_finite'] = lambda en, st, c: val(en, st, c.args[0])[0] != 'inf'
    M['num_traits::float::Float', 'is_infinite'] = lambda en, st, c: val(en, st, c.args[0])[0] == 'inf'
    def floor(en, st, c):
        t = val(en, st, c.args[0]); O = st.g['scan']
        if t[0] == 'i': return ('op', t, c.c['ret'])
        for mul, add, marks in O.floors:
            q = ar('+', ar('*', t, mul), add)
            best = None
            for mt, i in marks:
                if compare(en, st, mt, q) <= 0: best = i
            if best is not None: return ('op', num(best), c.c['ret'])
        raise Undecided('floor of an unknown expression')
    M['num_traits::float::Float', 'floor'] = M['num_traits::float::Float', 'trunc'] = floor
    def ceil(en, st, c):
        t = val(en, st, c.args[0]); r = floor(en, st, c)
        if t[0] == 'i': return r
        for mul, add, marks in st.g['scan'].floors:
            for mt, i in marks:
                if r[1] == num(i) and compare(en, st, mt, ar('+', ar('*', t, mul), add)) == 0: return r
        return ('op', num(r[1][1] + 1), r[2])
    M['num_traits::float::Float', 'ceil'] = ceil
    def rnd(en, st, c):
        # heights between two rows may all be nearer the lower one, or all nearer the upper one
        if 'round' not in st.mat:
            raise Fork([('fractions are below a half', lambda s: s.mat.__setitem__('round', 0)), ('fractions are above a half', lambda s: s.mat.__setitem__('round', 1))], 'order')
        return (ceil if st.mat['round'] else floor)(en, st, c)
    M['num_traits::float::Float', 'round'] = rnd
    def m_from(en, st, c):
        v = c.args[0]
        if isinstance(v, int): return some(('op', num(v), None))
        if isinstance(v, tuple) and v[0] == 'op' and v[1][0] == 'flit': return some(('op', val(en, st, v), None))
        raise Undecided('conversion of an unknown number')
    M['num_traits::cast::NumCast', 'from'] = m_from
    M['num_traits::cast::FromPrimitive', 'from_usize'] = m_from
    def m_to(en, st, c):
        t = val(en, st, c.args[0])
        if t[0] == 'i' and t[1] >= 0: return some(t[1])
        if t[0] == 'i': return NONE
        # the integer part is what counts
        r = floor(en, st, c)
        return some(r[1][1])
    M['num_traits::cast::ToPrimitive', 'to_usize'] = m_to
    def flip(f, sw=False):
        def g(en, st, c):
            a, b = val(en, st, c.args[0]), val(en, st, c.args[1])
            return f(compare(en, st, a, b))
        return g
    for n, f in (('lt', lambda r: r < 0), ('le', lambda r: r <= 0), ('gt', lambda r: r > 0), ('ge', lambda r: r >= 0), ('partial_cmp', lambda r: some(mkord(r)))):
        M['core::cmp::PartialOrd', n] = flip(f)
    M['core::cmp::PartialEq', 'eq'] = flip(lambda r: r == 0); M['core::cmp::PartialEq', 'ne'] = flip(lambda r: r != 0)
    # geometry containers
    def coords(en, st, v):
        while v[0] == 'ref': v = rd(en, st, v)
        if v[0] != 'adt' or v[1] != LSTR or v[3][0][0] != 'seq': raise Undecided('not a known line string')
        return v[3][0][2]
    en.coords = coords
    def closed(en, st, c):
        l = coords(en, st, c.args[0])
        return not l or lex3(en, st, l[0], l[-1]) == 0
    M['geo::LineString::<T>::is_closed'] = closed
    M['geo::LineString::<T>::new'] = lambda en, st, c: ('adt', LSTR, 0, (c.args[0],))
    M['<geo::LineString<T> as std::clone::Clone>::clone'] = lambda en, st, c: rd(en, st, c.args[0])
    M['<geo::LineString<T> as std::convert::From<std::vec::Vec<IC>>>::from'] = lambda en, st, c: ('adt', LSTR, 0, (c.args[0],))
    def m_poly(en, st, c):
        l = coords(en, st, c.args[0])
        if l and lex3(en, st, l[0], l[-1]) != 0: l = l + (l[0],)
        return ('adt', POLY, 0, (('adt', LSTR, 0, (('seq', 'vec', tuple(l)),)), c.args[1]))
    M['geo::Polygon::<T>::new'] = m_poly
    M['std::io::_eprint'] = lambda en, st, c: UNIT
    def rect(en, st, c):
        def xy_(v):
            if v[0] == 'tup': return [val(en, st, x) for x in v[1]]
            return [val(en, st, x) for x in v[3]]
        a, b = xy_(c.args[0]), xy_(c.args[1])
        lo = []; hi = []
        for x, y in zip(a, b):
            if compare(en, st, x, y) <= 0: lo.append(op(x)); hi.append(op(y))
            else: lo.append(op(y)); hi.append(op(x))
        return ('adt', RECT, 0, (('adt', COORD, 0, tuple(lo)), ('adt', COORD, 0, tuple(hi))))
    M['geo::Rect::<T>::new'] = rect
    return en

def cxy(x, y): return ('adt', COORD, 0, (op(x), op(y)))
def ls(cs): return ('adt', LSTR, 0, (('seq', 'vec', tuple(cs)),))

# ---- pieces by order type
class Piece:
    """columns 0..m; each side has zero, one or two points in a column (two: a vertical edge)"""
    def __init__(self, top, bot, ty, by, xs):
        # top, bot: per column the list of heights (numbers) on that side; xs: numbers for the columns
        self.m = len(top) - 1
        self.xs = xs
        self.x = [sym('x%d' % i) for i in range(self.m + 1)]
        self.top = [(i, h) for i, hs in enumerate(ty) for h in hs]
        self.bot = [(i, h) for i, hs in enumerate(by) for h in hs]
        hts = sorted({h for _, h in self.top + self.bot})
        self.y = {h: sym('y%d' % i) for i, h in enumerate(hts)}
    def line(self, side): return [cxy(self.x[i], self.y[h]) for i, h in side]
    def at(self, side, x, xt, right):
        """height of a side over a position (number, term), just left or right of it: (term, number)"""
        pts = [(self.xs[i], self.x[i], h) for i, h in side]
        same = [h for a, _, h in pts if a == x]
        if same:
            h = same[-1] if right else same[0]
            return self.y[h], Fraction(h)
        for (a, at, h), (b, bt, k) in zip(pts, pts[1:]):
            if a < x < b:
                t = ar('+', ar('*', ar('/', ar('-', xt, at), ar('-', bt, at)), ar('-', self.y[k], self.y[h])), self.y[h])
                return t, h + Fraction(x - a) / (b - a) * (k - h)
        return None

COLS = [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (2, 2)]
def pieces(tier, seed=5):
    import itertools
    rnd = random.Random(seed)
    for m in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for first in (1, 2):
            for last in (1, 2):
                for mid in itertools.product(COLS, repeat=m - 1):
                    if m == 1 and first == last == 1: continue
                    if m >= 3 and tier == 'quick' and rnd.random() < .5: continue
                    if m >= 4 and rnd.random() < .9: continue
                    p = draw(rnd, m, first, last, mid)
                    if p: yield p

def draw(rnd, m, first, last, mid):
    """heights at random with the top above the bottom"""
    for _ in range(300):
        xs = [0]
        for i in range(m): xs.append(xs[-1] + rnd.choice((1, 2, 3)))
        ty = []; by = []
        h = rnd.randint(-6, 6); e = rnd.randint(-6, 6)
        cols = [(first, 1)] + list(mid) + [(1, last)]
        for i, (a, b) in enumerate(cols):
            def pts(n, start=None, end=None):
                v = sorted(rnd.sample(range(-6, 7), n))
                if start is not None: v[0] = start
                if end is not None: v[-1] = end
                return v
            ty.append(pts(a, h if i == 0 else None, e if i == m else None))
            by.append(pts(b, h if i == 0 else None, e if i == m else None))
        if any(len(v) == 2 and v[0] >= v[1] for v in ty + by): continue
        p = Piece(cols, cols, ty, by, xs)
        ok = True
        for i in range(m + 1):
            for right in (0, 1):
                if (i == 0 and not right) or (i == m and right): continue
                t, b = p.at(p.top, xs[i], p.x[i], right)[1], p.at(p.bot, xs[i], p.x[i], right)[1]
                if i in (0, m):
                    if t < b: ok = False
                elif t <= b: ok = False
        mids = [Fraction(xs[i] + xs[i + 1]) / 2 for i in range(m)]
        if any(p.at(p.top, x, num(0), 0)[1] <= p.at(p.bot, x, num(0), 0)[1] for x in mids): ok = False
        if ok: return p
    return None
