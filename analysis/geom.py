"""Models of the geometry vocabulary (geo, geo-types, num-traits, float_next_after) and of
comparisons of scalars.  Coordinates are pairs of unknowns under a total order; the orientation
predicate is an unknown function that is only assumed to be alternating."""
from mai import *
from natives import rd, wr, model as _native_model

COORD = 'geo_types::geometry::coord::Coord'
LINE = 'geo_types::geometry::line::Line'
ORIENT = 'geo::algorithm::kernels::Orientation'
CCW, CW, COL = 0, 1, 2
SWEEPPT = 'geo_crossings::events::SweepPoint'
EVENT = 'geo_crossings::events::Event'
EVTY = 'geo_crossings::events::EventType'
LOP = 'geo_crossings::line_or_point::LineOrPoint'
LINT = 'geo::algorithm::line_intersection::LineIntersection'

def xy(en, st, v):
    """the two scalar terms of a coordinate value (or of a sweep point holding one)"""
    if v[0] == 'ref': v = rd(en, st, v)
    if v[0] == 'op':
        v = en.expand(st, v)
    if v[0] == 'adt' and v[1] == SWEEPPT: return xy(en, st, v[3][0])
    if v[0] == 'adt' and v[1] == COORD:
        return (en.term(st, v[3][0]), en.term(st, v[3][1]))
    raise Undecided('coordinates of %r' % (v[0],))

def lex3(en, st, a, b):
    """-1/0/1 of two coordinate values: x first, then y"""
    ax, ay = xy(en, st, a); bx, by = xy(en, st, b)
    c = en.cmp3(st, ax, bx)
    return c if c else en.cmp3(st, ay, by)

def orient(en, st, a, b, c):
    """orientation of three coordinates: a Fork-ing oracle alternating in its arguments"""
    t = [tuple(st.ord.rep(x) for x in xy(en, st, v)) for v in (a, b, c)]
    # equal points make the triple collinear: decide equalities before naming the oracle
    for i in range(3):
        for j in range(i):
            if t[i] == t[j]: return COL
    for i in range(3):
        for j in range(i):
            mx = st.ord.mask(t[i][0], t[j][0]); my = st.ord.mask(t[i][1], t[j][1])
            if mx & EQ and my & EQ:
                if en.cmp3(st, t[i][0], t[j][0]) == 0 and en.cmp3(st, t[i][1], t[j][1]) == 0: return COL
    idx = sorted(range(3), key=lambda i: repr(t[i]))
    sign = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1}.get(tuple(idx), -1)
    key = ('orient',) + tuple(t[i] for i in idx)
    m = None
    for k in list(st.mat):
        if isinstance(k, tuple) and k and k[0] == 'orient' and tuple(tuple(st.ord.rep(x) for x in q) for q in k[1:]) == key[1:]:
            m = st.mat[k]
    if m is None:
        alts = []
        for val, nm in ((1, 'CounterClockwise'), (-1, 'Clockwise'), (0, 'Collinear')):
            alts.append(('orientation%s is %s' % (tuple('(%s,%s)' % (show_term(p[0]), show_term(p[1])) for p in key[1:]), nm),
                         lambda s, val=val: s.mat.__setitem__(key, val)))
        raise Fork(alts, 'orient')
    m *= sign
    return CCW if m > 0 else CW if m < 0 else COL

def coord_ty(en, st): return None

def is_scalar(en, ty):
    t = en.T[ty]
    while t['k'] == 'ref': t = en.T[t['to']]
    return t['k'] in ('param', 'alias', 'proj', 'other') or t['s'] in ('f32', 'f64')

GEOM = {}
def model(*names):
    def deco(f):
        for n in names: GEOM[n] = f
        return f
    return deco

@model('<geo_types::geometry::coord::Coord<T> as std::clone::Clone>::clone', '<geo::Line<T> as std::clone::Clone>::clone',
       '<geo::kernels::Orientation as std::clone::Clone>::clone',
       '<geo_types::geometry::line::Line<T> as std::clone::Clone>::clone')
def m_clone(en, st, c): return rd(en, st, c.args[0])

@model('<geo_types::geometry::coord::Coord<T> as std::cmp::PartialEq>::eq')
def m_coord_eq(en, st, c): return lex3(en, st, rd(en, st, c.args[0]), rd(en, st, c.args[1])) == 0

@model('<geo_types::geometry::coord::Coord<T> as std::cmp::PartialEq>::ne')
def m_coord_ne(en, st, c): return lex3(en, st, rd(en, st, c.args[0]), rd(en, st, c.args[1])) != 0

@model('<geo_types::geometry::coord::Coord<T> as std::convert::From<(T, T)>>::from')
def m_coord_from(en, st, c):
    v = c.args[0]
    if v[0] == 'op': v = en.expand(st, v)
    return ('adt', COORD, 0, tuple(v[1]))

@model('<geo::kernels::Orientation as std::cmp::PartialEq>::eq')
def m_or_eq(en, st, c):
    a = force(en, st, c.args[0]); b = force(en, st, c.args[1])
    return a[2] == b[2]

@model('<geo::kernels::Orientation as std::cmp::PartialEq>::ne')
def m_or_ne(en, st, c):
    a = force(en, st, c.args[0]); b = force(en, st, c.args[1])
    return a[2] != b[2]

def force(en, st, r):
    if r[0] == 'adt': return r
    if r[0] == 'op':
        t = en.T[r[2]]
        if t['k'] == 'adt' and t['enum']:
            en.split_enum(st, r)
            return en.expand(st, r)
    b, p, w = en.deref(st, r)
    v = en.read(st, b, p)
    if v[0] == 'adt': return v
    return en.concretise(st, b, p)

@model('geo::Line::<T>::new')
def m_line_new(en, st, c):
    # Line::new takes impl Into<Coord>: only coordinates occur here
    return ('adt', LINE, 0, (c.args[0], c.args[1]))

@model('geo::Line::<T>::start_point', 'geo::Line::<T>::end_point')
def m_line_pt(en, st, c): raise Undecided('Line::start_point')

@model('geo_types::geometry::coord::Coord::<T>::x_y')
def m_xy(en, st, c):
    v = c.args[0]
    if v[0] == 'ref': v = rd(en, st, v)
    if v[0] == 'op': v = en.expand(st, v)
    return ('tup', tuple(v[3]))

@model(('geo::algorithm::kernels::Kernel', 'orient2d'))
def m_orient(en, st, c):
    k = c.c.get('args') or ()
    if k and isinstance(k[0], int) and en.T[k[0]]['s'].endswith('SimpleKernel'): return inexact_orient(en, st, c)
    return ('adt', ORIENT, orient(en, st, *c.args), ())

def inexact_orient(en, st, c):
    """the orientation computed in the scalar type itself: rounding may give it any sign"""
    t = tuple(tuple(st.ord.rep(x) for x in xy(en, st, v)) for v in c.args)
    key = ('inexact', t)
    if key not in st.mat:
        raise Fork([('the rounded orientation is %s' % n, lambda s, v=v: s.mat.__setitem__(key, v)) for v, n in ((CCW, 'CounterClockwise'), (CW, 'Clockwise'), (COL, 'Collinear'))], 'orient')
    return ('adt', ORIENT, st.mat[key], ())

@model(('num_traits::float::Float', 'infinity'))
def m_inf(en, st, c): return ('op', ('inf', 1), c.c['ret'])
@model(('num_traits::float::Float', 'neg_infinity'))
def m_ninf(en, st, c): return ('op', ('inf', -1), c.c['ret'])

@model(('float_next_after::NextAfter', 'next_after'))
def m_next(en, st, c):
    t = en.term(st, c.args[0]); d = en.term(st, c.args[1])
    n = ('app', 'next_after', t, d)
    if d == ('inf', 1): st.ord.add(n, t, GT)
    if d == ('inf', -1): st.ord.add(n, t, LT)
    return ('op', n, c.c['ret'])

@model('geo::line_intersection::line_intersection')
def m_lint(en, st, c):
    """an unknown answer: None, a single point, or an overlap; the arguments are recorded"""
    a = tuple(tuple(xy(en, st, en.child(st, l, ('f', i))) for i in (0, 1)) for l in c.args)
    n = sum(1 for e in st.trace if e[0] == 'lint')
    st.emit('lint', a[0], a[1], n)
    return ('op', ('lint', n), c.c['ret'])

# scalar comparisons: T is a parameter, so the trait calls stay unresolved
def scal(en, st, c, i): return en.term(st, rd(en, st, c.args[i]))

def _mk(name, want):
    @model(('core::cmp::PartialOrd', name))
    def f(en, st, c):
        return en.cmpq(st, scal(en, st, c, 0), scal(en, st, c, 1), want)
for _n, _w in (('lt', LT), ('le', LT | EQ), ('gt', GT), ('ge', GT | EQ)): _mk(_n, _w)

@model(('core::cmp::PartialEq', 'eq'))
def m_eq(en, st, c): return en.cmpq(st, scal(en, st, c, 0), scal(en, st, c, 1), EQ)
@model(('core::cmp::PartialEq', 'ne'))
def m_ne(en, st, c): return en.cmpq(st, scal(en, st, c, 0), scal(en, st, c, 1), LT | GT)
@model(('core::cmp::PartialOrd', 'partial_cmp'))
def m_pcmp(en, st, c): return some(mkord(en.cmp3(st, scal(en, st, c, 0), scal(en, st, c, 1))))

# ---- arithmetic on coordinates (arith.py)
import arith
def aval(en, st, v):
    while v[0] == 'ref': v = rd(en, st, v)
    t = en.term(st, v)
    if t[0] == 'flit':
        t = arith.literal(t)
        if t is None: raise Undecided('float literal')
    return t
def _arith(o):
    def f(en, st, c):
        if c.c.get('ret') is not None and not is_scalar(en, c.c['ret']): return None
        return ('op', arith.ar(o, aval(en, st, c.args[0]), aval(en, st, c.args[1])), c.c['ret'])
    return f
for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')): GEOM['core::ops::arith::' + _n.capitalize(), _n] = _arith(_o)
@model(('core::ops::arith::Neg', 'neg'))
def m_neg(en, st, c):
    if c.c.get('ret') is not None and not is_scalar(en, c.c['ret']): return None
    return ('op', arith.ar('-', arith.num(0), aval(en, st, c.args[0])), c.c['ret'])
@model(('num_traits::identities::Zero', 'zero'))
def m_zero(en, st, c): return ('op', arith.num(0), c.c['ret'])
@model(('num_traits::identities::One', 'one'))
def m_one(en, st, c): return ('op', arith.num(1), c.c['ret'])
@model(('num_traits::float::Float', 'epsilon'), ('num_traits::float::Float', 'min_positive_value'), ('approx::abs_diff_eq::AbsDiffEq', 'default_epsilon'))
def m_eps(en, st, c): return ('op', arith.EPS, c.c['ret'])
@model(('num_traits::float::Float', 'abs'), ('num_traits::sign::Signed', 'abs'))
def m_fabs(en, st, c):
    a = aval(en, st, c.args[0])
    return ('op', a if en.cmp3(st, a, arith.num(0)) >= 0 else arith.ar('-', arith.num(0), a), c.c['ret'])
def _mm(s):
    def f(en, st, c):
        a, b = aval(en, st, c.args[0]), aval(en, st, c.args[1])
        return ('op', a if en.cmp3(st, a, b) * s >= 0 else b, c.c['ret'])
    return f
GEOM['num_traits::float::Float', 'max'] = _mm(1); GEOM['num_traits::float::Float', 'min'] = _mm(-1)
@model(('num_traits::cast::NumCast', 'from'), ('num_traits::cast::FromPrimitive', 'from_f64'), ('num_traits::cast::FromPrimitive', 'from_f32'))
def m_numcast(en, st, c):
    v = c.args[0]
    if isinstance(v, int): return some(('op', arith.num(v), None))
    if isinstance(v, tuple) and v[0] == 'op' and v[1][0] == 'flit':
        t = arith.literal(v[1])
        if t is not None: return some(('op', t, None))
    raise Undecided('conversion of an unknown number')

# ---- helpers to build symbolic inputs
def S(name): return ('v', name)
def coord(name, ty=None):
    """a coordinate with unknown x and y"""
    return ('adt', COORD, 0, (('op', S(name + '.x'), ty), ('op', S(name + '.y'), ty)))
def sp(name, ty=None): return ('adt', SWEEPPT, 0, (coord(name, ty),))
def lop_point(p): return ('adt', LOP, 0, (p,))
def lop_line(p, q): return ('adt', LOP, 1, (p, q))
def setrel(en, st, a, b, allowed):
    """list of states in which lex(a,b) is in `allowed` (subset of -1,0,1)"""
    out = []; todo = [st]
    while todo:
        s = todo.pop()
        try:
            c = lex3(en, s, a, b)
        except Fork as f:
            for lab, ref in f.alts:
                k = s.copy()
                if ref(k) is not False: todo.append(k)
            continue
        if c in allowed: out.append(s)
    return out
