"""Domain for the monotone decomposition: polygons given by the order of their vertices along the sweep and the vertical
order of their edges at each of them (every such arrangement has a drawing with straight edges). What the code asks of the
geometry (comparisons with edges, orientations, windings) is answered from that order."""
import random
from bopsdom import *
from geom import ORIENT

MSEG = 'geo_crossings::monotone::segment::Segment'
MSWEEP = 'geo_crossings::monotone::sweep::Sweep'
MPOLYP = 'geo_crossings::monotone::mono_poly::MonoPoly'
VTY = 'geo_crossings::monotone::segment::VertexType'
TYPES = ('Start', 'Split', 'End', 'Merge', 'Continue')

class Mono:
    """a polygon swept from left to right; edges alternate bottom, top, bottom, ... along the stack"""
    def __init__(self): self.stack = (); self.edges = (); self.types = (); self.stacks = (); self.gaps = ()
    def step(self, i, k, m):
        """a vertex where k edges from position i end and m begin (k + m = 2)"""
        n = Mono(); p = len(self.types)
        es = list(self.edges)
        for e in self.stack[i:i + k]: es[e] = (es[e][0], p, es[e][2])
        new = []
        for j in range(m):
            new.append(len(es)); es.append((p, None, (i + j) % 2 == 0))
        n.edges = tuple(es)
        n.stack = self.stack[:i] + tuple(new) + self.stack[i + k:]
        inside = i % 2 == 1
        ty = 'Continue' if k == 1 else ('Split' if inside else 'Start') if m else ('Merge' if inside else 'End')
        n.types = self.types + (ty,); n.stacks = self.stacks + (n.stack,); n.gaps = self.gaps + ((i, k, m),)
        return n
    def cycles(self):
        """the rings, each a simple cycle of three vertices or more; None if there are none such"""
        if self.stack: return None
        ends = [(a, b) for a, b, _ in self.edges]
        if len(set(ends)) != len(ends): return None
        adj = {}
        for a, b in ends: adj.setdefault(a, []).append(b); adj.setdefault(b, []).append(a)
        out = []; seen = set()
        for s in sorted(adj):
            if s in seen: continue
            path = [s]; prev = None
            while True:
                seen.add(path[-1])
                nx = [x for x in adj[path[-1]] if x != prev]
                prev, x = path[-1], nx[0]
                if x == s: break
                path.append(x)
            if len(path) < 3: return None
            out.append(path)
        # one exterior, the others begin inside of it
        if [self.types[c[0]] for c in out].count('Start') != 1: return None
        return out
    def lower(self, v):
        """right end of the lower of the edges that begin at v"""
        i = self.gaps[v][0]
        return self.edges[self.stacks[v][i]][1]
    def between(self, v, e):
        """vertex against edge: -1 below, 1 above, 0 an end of it; None if the edge does not reach there"""
        a, b, _ = self.edges[e]
        if v in (a, b): return 0
        if not a < v < b: return None
        i, k, m = self.gaps[v]
        return -1 if self.stacks[v].index(e) >= i + m else 1
    def above(self, e, f):
        """edge against edge: the order in which they lie where both are active"""
        if e == f: return 0
        for s in self.stacks:
            if e in s and f in s: return (s.index(e) > s.index(f)) - (s.index(e) < s.index(f))
        return None
    def edge(self, a, b):
        if a > b: a, b = b, a
        for i, (x, y, _) in enumerate(self.edges):
            if (x, y) == (a, b): return i
        return None
    def trapezoids(self):
        """pairs of vertices that are the left and the right end of one trapezoid of the inside, with what bounds it above and below"""
        out = {}
        last = {}     # gap (lower edge, upper edge) -> vertex that made it
        for v in range(len(self.types)):
            prev = self.stacks[v - 1] if v else ()
            i, k, m = self.gaps[v]
            now = self.stacks[v]
            ig = lambda s: {(s[j], s[j + 1]) for j in range(0, len(s) - 1, 2)}
            for g in ig(prev) - ig(now): out.setdefault((last.pop(g), v), []).append(g)
            for g in ig(now) - ig(prev): last[g] = v
        return out

def monos(count, seed=11, most=16):
    rnd = random.Random(seed); seen = set(); out = []
    n = 0
    while len(out) < count:
        p = Mono(); want = rnd.randint(1, most); n += 1
        wide = rnd.choice((2, 4, 6, 8))
        while True:
            N = len(p.stack)
            if len(p.types) > 22: break
            grow = len(p.types) < want
            if not N:
                if p.types: break
                p = p.step(0, 0, 2); continue
            r = rnd.random()
            if grow and r < .45 and N < wide: p = p.step(rnd.randint(0, N), 0, 2)
            elif r < (.7 if grow else .5): p = p.step(rnd.randint(0, N - 1), 1, 1)
            elif N > 2 or not grow:
                p = p.step(rnd.randint(0, N - 2), 2, 0)
        if p.stack or p.gaps in seen: continue
        cy = p.cycles()
        if cy is None: continue
        seen.add(p.gaps); out.append((p, cy))
    return out

def vn(i): return 'q%02d' % i

def mono_rings(p, cy, num):
    """coordinate names of the rings, turned and started as the number says; exterior first"""
    out = []
    for j, c in enumerate(sorted(cy, key=lambda c: p.types[c[0]] != 'Start')):
        s = (num * 7 + j * 3) % len(c); d = (num >> j) % 2
        c = c[s:] + c[:s]
        if d: c = c[::-1]
        r = [vn(x) for x in c + [c[0]]]
        if num % 5 == 1: r.insert(1, r[0])         # a vertex given twice
        out.append(r)
    return out

class MX(BX):
    def __init__(self, p):
        BX.__init__(self, p)
        self.mseg = adt_ty(p, MSEG, lambda t: generic(p, t)); self.msf = p.T[self.mseg]['variants'][0]['fields']
        c = [i for i, f in enumerate(self.msf) if p.T[f[1]].get('def') == LOP]
        if len(c) != 1: raise Anchor('anchor: geometry of the monotone segment')
        self.mgeom = c[0]

def meng(p, X):
    """st.g['mono'] is the polygon"""
    en = beng(p, X, 10 ** 9); M = en.models
    en.max_visits = 4000
    def nm(en, st, v):
        t = en.term(st, v)
        if t[0] == 'app' and t[1] == 'coord': t = t[2]
        if t[0] != 'v' or t[1][:1] != 'q': raise Undecided('a point that is no vertex')
        return int(t[1][1:])
    def geom(en, st, v):
        while v[0] == 'ref': v = rd(en, st, v)
        if v[0] == 'op': v = en.expand(st, v)
        return v[2], tuple(nm(en, st, x) for x in v[3])
    def cmp(en, st, a, b):
        (va, a), (vb, b) = geom(en, st, a), geom(en, st, b); P = st.g['mono']
        def edge(e):
            i = P.edge(*e)
            if i is None: raise Undecided('comparison with a line that is no edge')
            return i
        if va == vb == 0: return (a > b) - (a < b)
        if va == vb: r = P.above(edge(a), edge(b))
        elif va == 0: r = P.between(a[0], edge(b))
        else:
            r = P.between(b[0], edge(a)); r = None if r is None else -r
        if r is None: raise Undecided('comparison of edges that never meet the sweep together')
        return r
    en.mcmp = cmp
    for r in methods(p, LOP, PORDT):
        if r['name'] == 'partial_cmp': M[r['def']] = lambda en, st, c: some(mkord(cmp(en, st, c.args[0], c.args[1])))
    for r in methods(p, LOP, EQT):
        if r['name'] == 'eq': M[r['def']] = lambda en, st, c: cmp(en, st, c.args[0], c.args[1]) == 0
        elif r['name'] == 'ne': M[r['def']] = lambda en, st, c: cmp(en, st, c.args[0], c.args[1]) != 0
    for r in p.roots:
        if r['name'] == 'from' and r['self_ty'] is not None and p.T[r['self_ty']].get('def') == LOP: M.pop(r['def'], None)
    def ceq(en, st, c): return nm(en, st, rd(en, st, c.args[0])) == nm(en, st, rd(en, st, c.args[1]))
    for q in ('geo_types::geometry::coord::Coord<T>', 'geo_types::Coord<T>', 'geo_types::Coordinate<T>'):
        M['<%s as std::cmp::PartialEq>::eq' % q] = ceq
        M['<%s as std::cmp::PartialEq>::ne' % q] = lambda en, st, c: not ceq(en, st, c)
    M['geo_types::geometry::coord::Coord::<T>::zero'] = lambda en, st, c: crd('zero')
    # orientation of three vertices: known when two of them are the ends of an edge that passes over or below the third
    ON = {v['name']: i for i, v in enumerate(p.T[adt_ty(p, ORIENT)]['variants'])}
    def orient(en, st, c):
        q = [nm(en, st, x) for x in c.args]; P = st.g['mono']
        if len(set(q)) < 3: return ('adt', ORIENT, ON['Collinear'], ())
        for i, j, k, sg in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1)):
            a, b, v = q[i], q[j], q[k]
            e = P.edge(a, b)
            if e is None: continue
            r = P.between(v, e)
            if r is None: continue
            left = r > 0 if a < b else r < 0
            return ('adt', ORIENT, ON['CounterClockwise' if left else 'Clockwise'], ())
        st.emit('guess')
        return ('adt', ORIENT, (q[0] * 5 + q[1] * 3 + q[2]) % 3, ())
    M[('geo::algorithm::kernels::Kernel', 'orient2d')] = orient
    def m_wo(en, st, c):
        ns = [nm(en, st, x) for x in _coords(en, st, c.args[0])]; P = st.g['mono']
        d = [x for i, x in enumerate(ns) if not i or x != ns[i - 1]]
        if len(d) < 4 or d[0] != d[-1]: return NONE
        m = d.index(min(d)); nx = d[m + 1]
        if any(P.edge(a, b) is None for a, b in zip(d, d[1:])): raise Undecided('winding of something that is no ring')
        return some(X.w('CounterClockwise' if nx == P.lower(d[m]) else 'Clockwise'))
    M['<geo::LineString<T> as geo::winding_order::Winding>::winding_order'] = m_wo
    def _coords(en, st, v):
        while v[0] == 'ref': v = rd(en, st, v)
        if v[0] != 'adt' or v[1] != LSTR or v[3][0][0] != 'seq': raise Undecided('not a known line string')
        return v[3][0][2]
    en.coords = _coords; en.nm = nm
    # the active segments, by vertical order
    def segv(en, st, sid, k):
        if k not in slab_keys(st, sid): return None
        return st.mem[cell(sid, k)][3][X.mgeom]
    def key(c, i):
        k = c.args[i]
        if not isinstance(k, int): raise Undecided('key unknown')
        return k
    def order(en, st, sid, a, b):
        r = cmp(en, st, segv(en, st, sid, a), segv(en, st, sid, b))
        return r or (a > b) - (a < b)
    def act(st): return st.g.setdefault('act', ())
    def nb(d):
        def f(en, st, c):
            k = key(c, 1); sid = colls.slab_of(en, st, c.args[2])
            if segv(en, st, sid, k) is None: return ('$panic', 'neighbour query for a segment that is not stored')
            best = None
            for x in act(st):
                if order(en, st, sid, x, k) * d > 0 and (best is None or order(en, st, sid, x, best) * d < 0): best = x
            return NONE if best is None else some(best)
        return f
    def a_add(en, st, c):
        k = key(c, 1); sid = colls.slab_of(en, st, c.args[2])
        if segv(en, st, sid, k) is None: return ('$panic', 'a segment that is not stored is made active')
        if any(order(en, st, sid, x, k) == 0 for x in act(st)): return ('$panic', 'a segment is made active twice')
        st.g['act'] = act(st) + (k,); return UNIT
    def a_rem(en, st, c):
        k = key(c, 1); sid = colls.slab_of(en, st, c.args[2])
        if k not in act(st): return ('$panic', 'a segment that is not active is removed from the active set')
        st.g['act'] = tuple(x for x in act(st) if x != k); return UNIT
    T = {'prev_key': nb(-1), 'next_key': nb(1), 'add_key': a_add, 'remove_key': a_rem}
    for r in p.roots:
        if r['impl_trait'] == ACC and r['name'] in T: M[r['def']] = T[r['name']]
    for n, f in T.items(): M[(ACC, n)] = f
    # events are sorted by their own order
    cmpf = [r for r in methods(p, EVENT, ORDT) if r['name'] == 'cmp']
    def m_sort(en, st, c):
        its = items(en, st, c.args[0])
        if len(its) < 2: return UNIT
        if its[0][0] != 'adt' or its[0][1] != EVENT or len(cmpf) != 1: return colls._sort(en, st, c)
        r = cmpf[0]
        def key_(x, y): return ev3(en, st, X, x, y)
        import functools
        # the order of events is O02; equal events may come out in any order
        l = sorted(its, key=functools.cmp_to_key(lambda x, y: -key_(x, y)))
        if st.g.get('flip'):
            out = []
            for x in l:
                j = len(out)
                while j and key_(x, out[j - 1]) == 0: j -= 1
                out.insert(j, x)
            l = out
        setitems(en, st, c.args[0], l); return UNIT
    for q in ('std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_unstable', 'core::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable'): M[q] = m_sort
    return en
from colls import setitems
