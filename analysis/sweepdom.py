"""Abstract domain for the crossings sweep: a slab of segments over symbolic, totally ordered points, an
event heap as a set of known events, the active set as a list, and oracles for intersections."""
from drive import *
from geom import *
from colls import seqref, items, slab_keys, cell, it
import colls
from natives import rd, wr

SEG = 'geo_crossings::crossings::sweep::Segment'
SWEEP = 'geo_crossings::crossings::sweep::Sweep'
ACC = 'geo_crossings::active::Access'
CRS = 'geo_crossings::crossings::Crossable'
CROSSING = 'geo_crossings::crossings::Crossing'
EVN = ['PointLeft', 'LineRight', 'LineLeft', 'PointRight']
EQT, ORDT, PORDT = 'core::cmp::PartialEq', 'core::cmp::Ord', 'core::cmp::PartialOrd'

class SwEngine(Engine):
    def child(self, st, v, e):
        if v[0] == 'op' and v[2] is not None and e[0] == 'f' and self.T[v[2]].get('def') == SWEEPPT:
            ct = self.T[v[2]]['variants'][0]['fields'][0][1]
            if self.T[ct].get('def') != COORD: raise Undecided('coordinates of a sweep point are read')
            fs = [None, None]
            for i, (n, ty) in enumerate((f[0], f[1]) for f in self.T[ct]['variants'][0]['fields']):
                fs[i] = ('op', ('p' + n, v[1]), ty)
            return ('adt', COORD, 0, tuple(fs))
        return Engine.child(self, st, v, e)

    # coordinates of a point known by its place in the order only: the plane can be turned so that no two
    # points have one x, and sheared so that y goes with x or against it or two chosen points have one y; what is then found happens for
    # some coordinates.  Two points with one x are left undecided
    def cmp3(self, st, ta, tb):
        a, b = st.ord.rep(ta), st.ord.rep(tb)
        if a[0] in ('px', 'py') and a[0] == b[0]:
            c = Engine.cmp3(self, st, a[1], b[1])
            if not c: return 0
            if '2dx' not in st.mat:
                raise Fork([('no two points have one x', lambda s: s.mat.__setitem__('2dx', 1)), ('some points have one x', lambda s: s.mat.__setitem__('2dx', 0))], 'order')
            if not st.mat['2dx']: raise Undecided('two points with one x coordinate')
            if a[0] == 'px': return c
            pair = frozenset((a[1], b[1]))
            if '2dy' not in st.mat:
                raise Fork([(n, lambda s, v=v: s.mat.__setitem__('2dy', v)) for v, n in ((pair, 'the two points have one y'), (1, 'y grows with x'), (-1, 'y falls with x'))], 'order')
            k = st.mat['2dy']
            if not isinstance(k, frozenset): return c * k
            if k == pair: return 0
            raise Undecided('y coordinates of other points than two that have one y')
        return Engine.cmp3(self, st, ta, tb)

    def cmpq(self, st, ta, tb, want):
        a, b = st.ord.rep(ta), st.ord.rep(tb)
        if a[0] in ('px', 'py') and a[0] == b[0]:
            return bool({-1: LT, 0: EQ, 1: GT}[self.cmp3(st, a, b)] & want)
        return Engine.cmpq(self, st, ta, tb, want)

class Ctx:
    """types and field positions found in the program"""
    def __init__(self, p):
        self.p = p; T = p.T
        self.seg_ty = None
        for i, t in enumerate(T):
            if t.get('def') == SEG and T[t['args'][0]]['k'] == 'param': self.seg_ty = i
        if self.seg_ty is None: raise Anchor('anchor: %s<C>' % SEG)
        self.sw_ty = None
        for i, t in enumerate(T):
            if t.get('def') == SWEEP and T[t['args'][0]]['k'] == 'param' and len(t['args']) > 1 and T[t['args'][1]]['k'] == 'param': self.sw_ty = i
        if self.sw_ty is None: raise Anchor('anchor: %s<C, A>' % SWEEP)
        self.sf = T[self.seg_ty]['variants'][0]['fields']
        names = [f[0] for f in self.sf]
        self.F = {n: p.fidx(SEG, n) for n in ('geom', 'key', 'crossable', 'first_segment', 'left_event_done', 'overlapping', 'is_overlapping')}
        self.lop_ty = self.sf[self.F['geom']][1]
        self.c_ty = self.sf[self.F['crossable']][1]
        lt = T[self.lop_ty]
        if lt.get('def') != LOP: raise Anchor('anchor: geom of Segment is a LineOrPoint')
        self.sp_ty = lt['variants'][0]['fields'][0][1]
        self.swf = T[self.sw_ty]['variants'][0]['fields']
        self.W = {n: p.fidx(SWEEP, n) for n in ('segments', 'events', 'active_segments')}
        self.E = {n: p.fidx(EVENT, n) for n in ('point', 'ty', 'segment_key')}
        if sorted(p.variants[EVTY]) != sorted(EVN): raise Anchor('anchor: variants of EventType')
        self.evi = {n: p.vidx(EVTY, n) for n in EVN}
    def pt(self, name): return ('op', ('v', name), self.sp_ty)
    def cr(self, name): return ('op', ('v', name), self.c_ty)
    def seg(self, key, geom, c, first=True, done=False, ovl=None, isov=False):
        fs = [('op', ('v', 'seg%s.%s' % (key, f[0])), f[1]) for f in self.sf]
        def put(n, v): fs[self.F[n]] = v
        put('geom', geom); put('key', key); put('crossable', self.cr(c)); put('first_segment', first)
        put('left_event_done', done); put('overlapping', NONE if ovl is None else some(ovl)); put('is_overlapping', isov)
        return ('adt', SEG, 0, tuple(fs))
    def ev(self, pt, ty, key):
        fs = [None] * len(self.E)
        fs[self.E['point']] = pt; fs[self.E['ty']] = ('adt', EVTY, self.evi[ty], ()); fs[self.E['segment_key']] = key
        return ('adt', EVENT, 0, tuple(fs))
    def evf(self, e):
        """event value -> (point, type name, key)"""
        return e[3][self.E['point']], self.p.variants[EVTY][e[3][self.E['ty']][2]], e[3][self.E['segment_key']]
    def get(self, v, n): return v[3][self.F[n]]

def rank(ty): return EVN.index(ty)

def ev3(en, st, X, a, b):
    """which event comes first: -1 a, 1 b, 0 tie"""
    pa, ta, _ = X.evf(a); pb, tb, _ = X.evf(b)
    c = en.cmp3(st, en.term(st, pa), en.term(st, pb))
    return c if c else (rank(ta) > rank(tb)) - (rank(ta) < rank(tb))

def place_of(en, st, v):
    """the place in memory a reference designates in the end"""
    while True:
        b, p, w = en.deref(st, v)
        x = en.read(st, b, p)
        if isinstance(x, tuple) and x and x[0] in ('ref', 'box'): v = x; continue
        return b, p

def make_models(p, X):
    M = dict(GEOM)
    def on(adt, trait, table):
        for r in methods(p, adt, trait):
            if r['name'] in table: M[r['def']] = table[r['name']]
    def v(en, st, x): return en.term(st, rd(en, st, x))
    on(SWEEPPT, EQT, {'eq': lambda en, st, c: en.cmpq(st, v(en, st, c.args[0]), v(en, st, c.args[1]), EQ),
                      'ne': lambda en, st, c: en.cmpq(st, v(en, st, c.args[0]), v(en, st, c.args[1]), LT | GT)})
    on(SWEEPPT, PORDT, {'partial_cmp': lambda en, st, c: some(mkord(en.cmp3(st, v(en, st, c.args[0]), v(en, st, c.args[1])))),
                        **{n: (lambda en, st, c, w=w: en.cmpq(st, v(en, st, c.args[0]), v(en, st, c.args[1]), w)) for n, w in (('lt', LT), ('le', LT | EQ), ('gt', GT), ('ge', GT | EQ))}})
    on(SWEEPPT, ORDT, {'cmp': lambda en, st, c: mkord(en.cmp3(st, v(en, st, c.args[0]), v(en, st, c.args[1])))})
    on(SWEEPPT, 'core::clone::Clone', {'clone': lambda en, st, c: rd(en, st, c.args[0])})
    for n, w in (('lt', LT), ('le', LT | EQ), ('gt', GT), ('ge', GT | EQ)):
        def f(en, st, c, w=w):
            a = rd(en, st, c.args[0])
            if isinstance(a, tuple) and a[0] == 'op' and a[2] is not None and en.T[a[2]].get('def') == SWEEPPT:
                return en.cmpq(st, v(en, st, c.args[0]), v(en, st, c.args[1]), w)
            return None
        M['std::cmp::PartialOrd::' + n] = f
    def same(en, st, c):
        a, b = rd(en, st, c.args[0]), rd(en, st, c.args[1])
        def pts(x): return [x[2]] + [en.term(st, y) for y in x[3]]
        a, b = pts(a), pts(b)
        if a[0] != b[0]: return False
        return all([en.cmpq(st, x, y, EQ) for x, y in zip(a[1:], b[1:])])
    on(LOP, EQT, {'eq': same, 'ne': lambda en, st, c: not same(en, st, c)})
    def clone(en, st, c): return rd(en, st, c.args[0])
    M[('core::clone::Clone', 'clone')] = clone
    # heap
    BH = 'std::collections::BinaryHeap::<T, A>::'
    def heap(en, st, r):
        x = rd(en, st, r)
        if x[0] != 'heap': raise Undecided('not a known heap')
        return ('heap', x[1])
    def h_new(en, st, c):
        i = st.fresh(); st.g[('heap', i)] = (); return ('heap', i)
    M['std::collections::BinaryHeap::<T>::with_capacity'] = M['std::collections::BinaryHeap::<T>::new'] = M['<std::collections::BinaryHeap<T> as std::default::Default>::default'] = h_new
    def h_push(en, st, c):
        k = heap(en, st, c.args[0]); st.g[k] = st.g[k] + (c.args[1],); return UNIT
    M[BH + 'push'] = h_push
    def first(en, st, k):
        h = st.g[k]
        best = 0
        for i in range(1, len(h)):
            r = ev3(en, st, X, h[i], h[best])
            if r < 0: best = i
            elif r == 0 and X.evf(h[i])[2] != X.evf(h[best])[2]:
                t = ('tie', i, best, len(h))
                if en.truth(st, ('op', t, None)): best = i
        return best
    def h_pop(en, st, c):
        k = heap(en, st, c.args[0]); h = st.g[k]
        if not h:
            if st.g.get('open'): return ('$panic', 'takes an event that is not known to be due')
            return NONE
        cur = st.g.get('current')
        i = h.index(st.g['start']) if cur is None and 'start' in st.g else first(en, st, k); e = h[i]
        if cur is not None and ev3(en, st, X, e, cur) >= 0:
            return ('$panic', 'takes an event that is not due before the one being handled')
        if cur is None: st.g['current'] = e
        st.g[k] = h[:i] + h[i + 1:]
        st.emit('pop', e)
        return some(e)
    M[BH + 'pop'] = h_pop
    def h_peek(en, st, c):
        k = heap(en, st, c.args[0]); h = st.g[k]
        if not h:
            if st.g.get('open'): raise Undecided('peek of unknown events')
            return NONE
        cur = st.g.get('current')
        i = h.index(st.g['start']) if cur is None and 'start' in st.g else first(en, st, k); e = h[i]
        if cur is not None and ev3(en, st, X, e, cur) >= 0: raise Undecided('peek of unknown events')
        b = st.alloc(e, 'PK'); return some(('ref', b, (), None))
    M[BH + 'peek'] = h_peek
    M[BH + 'len'] = lambda en, st, c: len(st.g[heap(en, st, c.args[0])]) if not st.g.get('open') else ('op', ('heap-len',), c.c['ret'])
    M[BH + 'is_empty'] = lambda en, st, c: not st.g[heap(en, st, c.args[0])] and not st.g.get('open')
    def h_all(en, st, c):
        if st.g.get('open'): raise Undecided('visit of unknown events')
        k = heap(en, st, c.args[0]) if c.args[0][0] == 'ref' else ('heap', c.args[0][1])
        return st.g[k]
    M[BH + 'iter'] = M["<&'a std::collections::BinaryHeap<T, A> as std::iter::IntoIterator>::into_iter"] = lambda en, st, c: it([('ref', st.alloc(e, 'PK'), (), None) for e in h_all(en, st, c)])
    M[BH + 'into_vec'] = lambda en, st, c: ('seq', 'vec', tuple(h_all(en, st, c)))
    M['<std::collections::BinaryHeap<T, A> as std::iter::IntoIterator>::into_iter'] = lambda en, st, c: it(h_all(en, st, c))
    def h_ext(en, st, c):
        k = heap(en, st, c.args[0]); x = c.args[1]
        if not (isinstance(x, tuple) and x[0] == 'seq'): raise Undecided('a heap is extended by an unknown iterator')
        st.g[k] = st.g[k] + tuple(x[2]); return UNIT
    M['<std::collections::BinaryHeap<T, A> as std::iter::Extend<T>>::extend'] = h_ext
    # active set: st.g['ord'] every known key in vertical order, st.g['act'] the active ones
    def pos(en, st, k):
        if k not in st.g['ord']: raise Undecided('neighbour of a segment of unknown position')
        return st.g['ord'].index(k)
    def nb(d):
        def f(en, st, c):
            k = c.args[1]
            if not isinstance(k, int): raise Undecided('key unknown')
            sid = colls.slab_of(en, st, c.args[2])
            if k not in slab_keys(st, sid): return ('$panic', 'neighbour query for a segment that is not stored')
            o = st.g['ord']; i = pos(en, st, k) + d
            while 0 <= i < len(o):
                if o[i] in st.g['act']: return some(o[i])
                i += d
            return NONE
        return f
    M[(ACC, 'prev_key')] = nb(-1); M[(ACC, 'next_key')] = nb(1)
    def a_add(en, st, c):
        k = c.args[1]; sid = colls.slab_of(en, st, c.args[2])
        if k not in slab_keys(st, sid): return ('$panic', 'a segment that is not stored is made active')
        if k in st.g['act']: return ('$panic', 'a segment is made active twice')
        if k not in st.g['ord']: raise Undecided('active segment of unknown position')
        st.g['act'] = st.g['act'] | {k}
        st.emit('store', place_of(en, st, c.args[2])); st.emit('add', k); return UNIT
    def a_rem(en, st, c):
        k = c.args[1]; sid = colls.slab_of(en, st, c.args[2])
        if k not in slab_keys(st, sid): return ('$panic', 'the active set is asked to remove a segment that is not stored')
        if k not in st.g['act']: return ('$panic', 'a segment that is not active is removed from the active set')
        st.g['act'] = st.g['act'] - {k}
        st.emit('rem', k); return UNIT
    M[(ACC, 'add_key')] = a_add; M[(ACC, 'remove_key')] = a_rem
    def dflt(en, st, c):
        t = en.T[c.c['ret']]
        if t['k'] == 'param': return ('op', ('active',), c.c['ret'])
        return None
    M[('core::default::Default', 'default')] = dflt
    # callback
    def cb(en, st, f, args):
        a = args
        seg = rd(en, st, a[0]); ty = force(en, st, a[1])
        st.emit('cb', seg, p.variants[EVTY][ty[2]])
        return UNIT
    M['call-opaque'] = cb
    # the input segment of a crossable
    def line(en, st, c):
        return ('op', ('app', 'line', en.term(st, rd(en, st, c.args[0]))), c.c['ret'])
    M[(CRS, 'line')] = line
    for r in methods(p, LOP, 'core::convert::From'):
        at = p.T[p.body_of(r)['locals'][1]]
        if at.get('def') == LINE:
            def frm(en, st, c):
                t = en.term(st, c.args[0])
                return ('op', ('app', 'segment', t), X.lop_ty)
            M[r['def']] = frm
    # intersection oracle
    for nm in ('intersect_line_ordered', 'intersect_line'):
        r = root_of(p, nm, LOP)
        M[r['def']] = isec(X, nm == 'intersect_line_ordered')
    return M

def ends(en, st, g):
    """terms of the ends of a segment geometry"""
    if g[2] == 0: return (en.term(st, g[3][0]),) * 2
    return en.term(st, g[3][0]), en.term(st, g[3][1])

def isec(X, ordered):
    def f(en, st, c):
        a = rd(en, st, c.args[0]); b = rd(en, st, c.args[1])
        if a[0] != 'adt' or b[0] != 'adt': raise Undecided('intersection of unknown geometry')
        if b[2] == 0: return ('$panic', 'intersects with a point as the second operand')
        (p1, q1), (p2, q2) = ends(en, st, a), ends(en, st, b)
        own = (owner(en, st, c.args[0], a), owner(en, st, c.args[1], b))
        # the same question has the same answer
        norm = lambda *e: tuple(sorted(((st.ord.rep(x), st.ord.rep(y)) for x, y in e), key=repr))
        n = norm((p1, q1), (p2, q2))
        m = None; cnt = 0
        for k in st.mat:
            if isinstance(k, tuple) and k and k[0] == 'isec':
                cnt += 1
                if norm(*k[1:]) == n: m = st.mat[k]
        if m is None:
            key = ('isec',) + n
            r = ('v', 'r%d' % cnt)
            cur = st.g.get('current')
            pair = tuple(sorted(own, key=repr)) if None not in own else None
            clean = pair is not None and pair in st.g['clean']
            bothact = pair is not None and own[0] in st.g['wereact'] and own[1] in st.g['wereact']
            isline = a[2] == 1
            alts = []
            NE = LT | GT
            def none(s):
                s.mat[key] = 'none'
                return not isline or (s.ord.add(p1, p2, NE) and s.ord.add(q1, q2, NE))
            def start(s):
                s.mat[key] = ('pt', p1)
                return s.ord.add(p1, p2, EQ) and s.ord.add(q1, q2, NE)
            def end(s):
                s.mat[key] = ('pt', q1)
                return s.ord.add(p1, p2, NE) and s.ord.add(q1, q2, EQ)
            def point(s):
                s.mat[key] = ('pt', r if ordered else ('v', 'unordered'))
                ok = all(s.ord.add(r, x, GT | EQ) for x in (p1, p2)) and all(s.ord.add(r, x, LT | EQ) for x in (q1, q2))
                if cur is not None: ok = ok and s.ord.add(r, en.term(s, X.evf(cur)[0]), GT | EQ)
                return ok and (not isline or (s.ord.add(p1, p2, NE) and s.ord.add(q1, q2, NE)))
            alts.append(('the segments do not meet', none))
            if isline:
                alts.append(('the segments start together', start))
                alts.append(('the segments end together', end))
            if not clean: alts.append(('the segments meet in a point', point))
            if isline and not clean and not bothact:
                for ml, lo in ((GT | EQ, p1), (LT, p2)):
                    for mh, hi in ((LT, q1), (EQ, q1), (GT, q2)):
                        def over(s, ml=ml, mh=mh, lo=lo, hi=hi):
                            s.mat[key] = ('ln', lo, hi)
                            return s.ord.add(p1, p2, ml) and s.ord.add(q1, q2, mh) and s.ord.add(lo, hi, LT)
                        alts.append(('the segments overlap', over))
            raise Fork(alts, 'isec')
        st.emit('isec', own, (p1, q1), (p2, q2), m)
        if m == 'none': return NONE
        if m[0] == 'pt': return some(lop_point(('op', m[1], X.sp_ty)))
        return some(lop_line(('op', m[1], X.sp_ty), ('op', m[2], X.sp_ty)))
    return f

def owner(en, st, r, g):
    """the crossable whose geometry this is, when the geometry is a current one"""
    X = en.X
    b, p, w = en.deref(st, r)
    want = None
    if p:
        par = en.read(st, b, p[:-1])
        if par[0] == 'adt' and par[1] == SEG: want = par[3][X.F['key']]
    e = tuple(st.ord.rep(x) for x in ends(en, st, g))
    best = None
    for kk in st.g:
        if not (isinstance(kk, tuple) and kk[0] == 'slab'): continue
        for k in slab_keys(st, kk[1]):
            v = st.mem[cell(kk[1], k)]
            if want is not None and k != want: continue
            gg = v[3][X.F['geom']]
            if gg[0] == 'adt' and gg[2] == g[2] and tuple(st.ord.rep(x) for x in ends(en, st, gg)) == e:
                t = en.term(st, v[3][X.F['crossable']])
                if best is None or v[3][X.F['is_overlapping']] is False: best = t
    return best
