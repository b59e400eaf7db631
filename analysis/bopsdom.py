"""Domain for the boolean operations: polygons made of symbolic sweep points, a scripted sequence of crossings
with a known vertical order, and the calls that leave the module (ring building, assembly) recorded."""
from props_cross import *

BOPS = 'geo_crossings::bops'
RINGS = BOPS + '::rings::Rings'
RING = BOPS + '::rings::Ring'
OPTYPE = BOPS + '::op::OpType'
BOOL = BOPS + '::BooleanOp'
WIND = 'geo::algorithm::winding_order::WindingOrder'
LSTR = 'geo_types::geometry::line_string::LineString'
POLY = 'geo_types::geometry::polygon::Polygon'
MPOLY = 'geo_types::geometry::multi_polygon::MultiPolygon'
FROM = 'core::convert::From'
LIFT = {'coords': 'CoordsIter'}

def crd(name): return ('op', ('app', 'coord', S(name)), None)
def lstr(names): return ('adt', LSTR, 0, (('seq', 'vec', tuple(crd(n) for n in names)),))
def poly(ext, ints=()): return ('adt', POLY, 0, (lstr(ext), ('seq', 'vec', tuple(lstr(i) for i in ints))))
def mpoly(ps): return ('adt', MPOLY, 0, (('seq', 'vec', tuple(ps)),))
def cname(en, st, v):
    """name of a coordinate or sweep point value"""
    t = en.term(st, v)
    return t[2] if t[0] == 'app' and t[1] == 'coord' else t

@stepfn('capture')
def step_capture(en, st, fr):
    """the line of every edge given to the sweep"""
    todo, got, fn, val, waiting = fr.data
    if waiting:
        l = st.mem[('L', fr.uid, 0)]
        if l[0] == 'op': l = en.expand(st, l)
        got = got + (tuple(cname(en, st, x) for x in l[3]),)
        todo = todo[1:]
    if not todo:
        st.g['lines'] = got
        return ('ret', val)
    fr.data = (todo, got, fn, val, True)
    b = todo[0]
    if b[0] != 'ref': b = ('ref', st.alloc(b, 'CAP'), (), None)
    def go(en, st, dest):
        en.push(st, en.p.body_of(fn), [b], dest, 0, '')
        return ('pushed',)
    return ('callm', go, ())

class BX(CX):
    def __init__(self, p):
        CX.__init__(self, p)
        self.wn = None
        w = adt_ty(p, WIND)
        self.wn = [v['name'] for v in p.T[w]['variants']]
        if sorted(self.wn) != ['Clockwise', 'CounterClockwise']: raise Anchor('anchor: WindingOrder')
        self.wi = {n: i for i, n in enumerate(self.wn)}
        self.cit_next = root_of(p, 'next', CIT, ITERT); self.cit_from = root_of(p, 'from_iter', CIT, FROMIT)
        self.prev = (p.find('prev_active', CIT) or [None])[0]
    def w(self, name): return ('adt', WIND, self.wi[name], ())

def beng(p, X, max_states=60000):
    """engine with the geometry containers and the crossings iterator modelled"""
    en = ceng(p, X); M = en.models
    en.max_states = max_states
    en.collect_bound = 80
    # points and coordinates name each other
    for r in p.roots:
        if r['name'] == 'from' and r['self_ty'] is not None and p.T[r['self_ty']].get('def') == SWEEPPT and r['impl_trait'] == FROM:
            def m_from(en, st, c):
                t = en.term(st, c.args[0])
                return ('op', t[2], X.sp_ty) if t[0] == 'app' and t[1] == 'coord' else None
            M[r['def']] = m_from
    for r in p.roots:
        if r['name'] == 'from' and r['self_ty'] is not None and p.T[r['self_ty']].get('def') == LOP and r['def'] in M: del M[r['def']]
    # LineString and polygons
    def coords(en, st, v):
        if v[0] == 'ref': v = rd(en, st, v)
        if v[0] != 'adt' or v[1] != LSTR or v[3][0][0] != 'seq': raise Undecided('not a known line string')
        return v[3][0][2]
    def names(en, st, v): return [cname(en, st, x) for x in coords(en, st, v)]
    en.names = names
    M['geo::LineString::<T>::is_closed'] = lambda en, st, c: (lambda n: not n or en.cmpq(st, n[0], n[-1], EQ))(names(en, st, c.args[0]))
    M["<geo::LineString<T> as geo::coords_iter::CoordsIter<'a>>::coords_count"] = lambda en, st, c: len(coords(en, st, c.args[0]))
    def m_lines(en, st, c):
        cs = coords(en, st, c.args[0])
        # an opaque type that is Map<Windows, closure> below: the windows stand for the lines they make
        return ('adt', 'core::iter::adapters::map::Map', 0, (('seq', 'iter', tuple(('adt', LINE, 0, (a, b)) for a, b in zip(cs, cs[1:]))), ('op', S('make-line'), None)))
    def m_mkline(en, st, c):
        a = c.args[1]
        return a[1][0] if a[0] == 'tup' else a
    M['geo::LineString::<T>::lines::{closure#0}'] = m_mkline
    M['geo::LineString::<T>::lines'] = m_lines
    def m_close(en, st, c):
        b, pth, w = en.deref(st, c.args[0])
        v = en.read(st, b, pth); cs = coords(en, st, v)
        if cs and not en.cmpq(st, cname(en, st, cs[0]), cname(en, st, cs[-1]), EQ):
            en.write(st, b, pth, ('adt', LSTR, 0, (('seq', 'vec', tuple(cs) + (cs[0],)),)))
        return UNIT
    M['geo::LineString::<T>::close'] = m_close
    M['<geo::LineString<T> as std::clone::Clone>::clone'] = lambda en, st, c: rd(en, st, c.args[0])
    M['geo::LineString::<T>::new'] = lambda en, st, c: ('adt', LSTR, 0, (c.args[0],))
    def field(n):
        def f(en, st, c):
            b, pth, w = en.deref(st, c.args[0]); return ('ref', b, pth + (('f', n),), None)
        return f
    def count(en, st, v):
        if v[0] == 'ref': v = rd(en, st, v)
        if v[1] == LSTR: return len(coords(en, st, v))
        if v[0] == 'seq': return sum(count(en, st, x) for x in v[2])
        return sum(count(en, st, x) for x in v[3])
    for n, q in (('Polygon', 'geo::Polygon'), ('MultiPolygon', 'geo::MultiPolygon')):
        M["<%s<T> as geo::coords_iter::CoordsIter<'a>>::coords_count" % q] = lambda en, st, c: count(en, st, c.args[0])
        M['<%s<T> as std::clone::Clone>::clone' % q] = lambda en, st, c: rd(en, st, c.args[0])
    M['geo::Polygon::<T>::exterior'] = field(0)
    M['geo::Polygon::<T>::interiors'] = field(1)
    M['geo::Polygon::<T>::new'] = lambda en, st, c: ('adt', POLY, 0, (c.args[0], c.args[1]))
    def m_ipush(en, st, c):
        b, pth, w = en.deref(st, c.args[0]); v = en.read(st, b, pth)
        if v[0] != 'adt': raise Undecided('interiors_push on an unknown polygon')
        en.write(st, b, pth, ('adt', POLY, 0, (v[3][0], ('seq', 'vec', v[3][1][2] + (c.args[1],)))))
        return UNIT
    M['geo::Polygon::<T>::interiors_push'] = m_ipush
    M['<geo::MultiPolygon<T> as std::convert::From<std::vec::Vec<IP>>>::from'] = lambda en, st, c: ('adt', MPOLY, 0, (c.args[0],))
    M['<geo::winding_order::WindingOrder as std::clone::Clone>::clone'] = lambda en, st, c: rd(en, st, c.args[0])
    M['<geo::winding_order::WindingOrder as std::cmp::PartialEq>::eq'] = lambda en, st, c: weq(en, st, c)
    M['<geo::winding_order::WindingOrder as std::cmp::PartialEq>::ne'] = lambda en, st, c: not weq(en, st, c)
    def weq(en, st, c):
        a, b = (rd(en, st, x) for x in c.args)
        if a[0] != 'adt' or b[0] != 'adt': raise Undecided('comparison of unknown windings')
        return a[2] == b[2]
    # the crossings iterator follows a script
    M[('core::iter::traits::collect::IntoIterator', 'into_iter')] = lambda en, st, c: c.args[0] if c.args[0][0] == 'seq' else None
    def m_from_iter(en, st, c):
        src = c.args[0]
        if isinstance(src, tuple) and src[0] == 'ref':
            b, pth, lo, hi, v = seqref(en, st, src); src = ('seq', 'iter', tuple(('ref', b, pth + (('i', i),), None) for i in range(lo, hi)))
        if src[0] != 'seq': raise Undecided('the edges come from an iterator that is not known')
        its = src[2]
        v = X.citer([])
        st.g['captured'] = its; st.g['lines'] = ()
        if not its: return v
        e = its[0]
        if e[0] == 'ref': e = rd(en, st, e)
        if e[0] != 'adt': raise Undecided('edges of unknown type')
        fn = [r for r in p.roots if r['impl_trait'] == CRS and r['name'] == 'line' and p.T[r['self_ty']].get('def') == e[1]]
        if len(fn) != 1: raise Anchor('anchor: Crossable for %s' % e[1])
        en.push_native(st, 'capture', (tuple(its), (), fn[0], v, False), c.dest, c.target)
        return ('$pushed',)
    M[X.cit_from['def']] = m_from_iter
    def edge_ref(st, lo, hi):
        """the crossable of an edge, given its ends"""
        for r, l in zip(st.g['captured'], st.g['lines']):
            if set(l) == {S(lo), S(hi)}: return r
        raise Lost('%s-%s' % (lo, hi))
    en.edge_ref = edge_ref
    def m_next(en, st, c):
        s = st.g['script']
        b, pth, w = en.deref(st, c.args[0])
        if not s:
            en.write(st, b, pth + (('f', X.C['segments']),), ('seq', 'vec', ()))
            st.g['rank'] = {}; st.g['below'] = {}
            return NONE
        st.g['script'] = s[1:]
        batch = s[0]
        st.g['rank'] = batch['rank']; st.g['below'] = batch['below']
        out = []
        try:
            for edge, piece, left, ovl, key in batch['crossings']:
                v = X.crossing_of('x', False, ovl, left, key)
                fs = list(v[3]); fs[X.G['crossable']] = edge_ref(st, *edge); fs[X.G['line']] = lop_line(X.pt(piece[0]), X.pt(piece[1]))
                out.append(('adt', CROSSING, 0, tuple(fs)))
        except Lost as l: return ('$panic', 'the edge %s is not given to the sweep' % l)
        en.write(st, b, pth + (('f', X.C['segments']),), ('seq', 'vec', tuple(out)))
        st.g['now'] = batch['at']
        return some(crd(batch['at']))
    M[X.cit_next['def']] = m_next
    def m_prev(en, st, c):
        v = rd(en, st, c.args[1])
        if v[0] == 'op': v = en.expand(st, v)
        if v[3][X.G['at_left']] is not True: return ('$panic', 'the segment below is asked for at a right end')
        k = v[3][X.G['key']]
        if k not in st.g['below']: raise Undecided('prev_active of an unknown crossing')
        x = st.g['below'][k]
        if x is None: return NONE
        edge, piece = x
        r = edge_ref(st, *edge)
        b = st.alloc(r, 'PA')
        return some(('tup', (lop_line(X.pt(piece[0]), X.pt(piece[1])), ('ref', b, (), None))))
    if X.prev: M[X.prev['def']] = m_prev
    # vertical order of the pieces that meet in the current point
    def piece(en, st, v):
        v = rd(en, st, v) if v[0] == 'ref' else v
        if v[0] == 'op': v = en.expand(st, v)
        if v[2] != 1: raise Undecided('a point is compared')
        return tuple(en.term(st, x)[1] for x in v[3])
    def cmp(en, st, c):
        a, b = piece(en, st, c.args[0]), piece(en, st, c.args[1])
        rk = st.g['rank']
        if a == b: return 0
        if a not in rk or b not in rk or rk[a][0] != rk[b][0]: return None
        return (rk[a][1] > rk[b][1]) - (rk[a][1] < rk[b][1])
    for r in methods(p, LOP, PORDT):
        if r['name'] == 'partial_cmp':
            M[r['def']] = lambda en, st, c: (lambda o: NONE if o is None else some(mkord(o)))(cmp(en, st, c))
    for r in methods(p, LOP, EQT):
        if r['name'] == 'eq': M[r['def']] = lambda en, st, c: cmp(en, st, c) == 0
        elif r['name'] == 'ne': M[r['def']] = lambda en, st, c: cmp(en, st, c) != 0
    return en

class Lost(Exception): pass
def _ret(p, r): return None

def total(st, names):
    """the points in ascending order"""
    for a, b in zip(names, names[1:]): st.ord.add(S(a), S(b), LT)
