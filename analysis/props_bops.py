"""E: boolean operations"""
import itertools, random
from registry import prop
from bopsdom import *
from geom import COL

RESULT = {'Intersection': lambda a, b: a and b, 'Union': lambda a, b: a or b, 'Difference': lambda a, b: a and not b, 'Xor': lambda a, b: a != b}

# ---- histories of coincident groups of edges along a sweep
KINDS = ('A', 'B', 'AB', 'AA', 'BAB')

class Hist:
    """a sequence of points; at each some stacked groups end and others begin in their place"""
    def __init__(self): self.steps = []; self.n = 0
    def copy(self):
        h = Hist(); h.steps = list(self.steps); h.n = self.n; return h
    def active(self): return self.steps[-1][2] if self.steps else ()
    def step(self, i, k, kinds):
        """end groups i..i+k of the active stack, start groups of the given kinds there"""
        act = self.active()
        h = self.copy(); new = []
        for kd in kinds: new.append((h.n, kd)); h.n += 1
        h.steps.append((act[i:i + k], tuple(new), act[:i] + tuple(new) + act[i + k:], i))
        return h
    def closed(self):
        return self.step(0, len(self.active()), ()) if self.active() else self

def even(*groups):
    s = ''.join(g if isinstance(g, str) else g[1] for g in groups)
    return s.count('A') % 2 == 0 and s.count('B') % 2 == 0

def starts(n, kinds=KINDS):
    for m in range(0, n + 1):
        yield from itertools.product(kinds, repeat=m)

def histories(tier):
    q = tier == 'quick'
    firsts = [k for k in starts(3 if q else 4, KINDS) if k and even(*k)]
    for f in firsts: yield Hist().step(0, 0, f).closed()
    for f in firsts:
        if len(f) > 3: continue
        h = Hist().step(0, 0, f)
        n = len(h.active())
        for i in range(n + 1):
            for k in range(0, min(2 if q else 3, n - i) + 1):
                if q and k and any(len(x) > 2 for x in f): continue
                for s in starts(2 if q else 3, KINDS if not q and len(f) < 3 else ('A', 'B', 'AB')):
                    if k == 0 and not s: continue
                    if not even(*(h.active()[i:i + k] + s)): continue
                    yield h.step(i, k, s).closed()
    # three points
    for f in (('A', 'A'), ('A', 'B', 'AB'), ('AB', 'AB'), ('B', 'A', 'B', 'A')):
        h = Hist().step(0, 0, f)
        def moves(h):
            n = len(h.active())
            for i in range(n + 1):
                for k in range(0, min(2, n - i) + 1):
                    for s in starts(2, ('A', 'B', 'AB')):
                        if (k == 0 and not s) or not even(*(h.active()[i:i + k] + s)): continue
                        yield h.step(i, k, s)
        for h2 in moves(h):
            if len(h2.active()) > 5: continue
            for j, h3 in enumerate(moves(h2)):
                if q and j % 7: continue
                yield h3.closed()

def build(h, variant, na, nb, beyond=False):
    """script and expected boundary pieces of a history; None if it needs more edges than there are"""
    free = {'A': list(range(na)), 'B': list(range(nb))}
    pieces = {}; members = {}
    script = []; key = 0; keys = {}
    for si, (ended, new, act, pos) in enumerate(h.steps):
        at = 'p%d' % si
        back = {'A': [], 'B': []}
        for g, kd in ended:
            for e in members[g]:
                if e not in back[e[0]]: back[e[0]].append(e)
        still = {e for g, _ in act if g not in {x for x, _ in new} for e in members.get(g, ())}
        for c in back: back[c] = [e for e in back[c] if e not in still]
        far = {e for g, _ in act for e in members.get(g, ()) if pieces[g][0][0] == 'b'}
        live = [e for g, _ in act for e in members.get(g, ()) if e not in far] if beyond and si else []
        for g, kd in new:
            ms = []; out = any(e[0] in kd for e in live)
            for c in kd:
                sec = [e for e in live if e[0] == c]
                if sec:
                    # an edge with another piece still active: this one begins beyond the end of the edge
                    e = sec[0]; live.remove(e)
                elif variant % 2 == 0 and back[c]: e = back[c].pop(0)
                elif free[c]: e = (c, free[c].pop(0))
                else: return None
                ms.append(e)
            members[g] = ms
            pieces[g] = ('%s%d' % ('b' if out else 's', g), 'e%d' % g)
            for m in range(len(ms)): keys[(g, m)] = key; key += 1
        rank = {}
        for i, (g, _) in enumerate(ended): rank[pieces[g]] = (False, i)
        for i, (g, _) in enumerate(new): rank[pieces[g]] = (True, i)
        below = {}
        bg = act[pos - 1][0] if pos else None
        for i, (g, _) in enumerate(new):
            u = bg if i == 0 else new[i - 1][0]
            for m in range(len(members[g])):
                # a piece that is chained behind the carrier is not active itself: the carrier lies below it
                w = u if m == 0 else g
                below[keys[(g, m)]] = None if w is None else (ends(members[w][0]), pieces[w])
        def block(g, left):
            n = len(members[g])
            return [(ends(e), pieces[g], left, m + 1 < n, keys[(g, m)]) for m, e in enumerate(members[g])]
        eb = [block(g, False) for g, _ in ended]; nb_ = [block(g, True) for g, _ in new]
        arr = {0: eb + nb_, 1: list(reversed(eb)) + list(reversed(nb_)), 2: list(reversed(nb_ + eb)), 3: nb_[1:] + eb[1:] + nb_[:1] + eb[:1]}[variant % 4]
        script.append({'at': at, 'rank': rank, 'below': below, 'crossings': [c for b in arr for c in b]})
    # expected boundary
    reg = {}
    exp = []
    act = ()
    for ended, new, nact, pos in h.steps:
        a = b = False; up = {}
        for g, kd in act:
            lo = (a, b); a ^= kd.count('A') % 2 == 1; b ^= kd.count('B') % 2 == 1
            up[g] = (lo, (a, b))
        for g, kd in ended: exp.append((pieces[g], up[g]))
        act = nact
    return script, exp, pieces

def ends(e):
    """the lines of the ring lo0 hi0 lo1 hi1 ... : number n"""
    p, n = e
    lo = '%slo%d' % (p, (n + 1) // 2); hi = '%shi%d' % (p, n // 2)
    return (lo, hi)

def ring_names(p, n):
    """closed ring of n lines (n even), each from a point left of the sweep to one right of it"""
    m = n // 2
    r = []
    for i in range(m): r += ['%slo%d' % (p, i), '%shi%d' % (p, i)]
    return r + ['%slo0' % p]

def ring_line(p, n, total_):
    lo = '%slo%d' % (p, ((n + 1) // 2) % (total_ // 2)); hi = '%shi%d' % (p, n // 2)
    return lo, hi

def bop_models(p, X, en):
    M = en.models
    T = {'add': root_of(p, 'add_edge', RINGS), 'fin': root_of(p, 'finish', RINGS), 'asm': root_of(p, 'assemble', module=BOPS)}
    def m_add(en, st, c):
        g, w = c.args[1], c.args[2]
        if g[0] == 'op': g = en.expand(st, g)
        if w[0] != 'adt': raise Undecided('unknown winding')
        st.emit('edge', tuple(en.term(st, x)[1] for x in g[3]), X.wn[w[2]])
        return UNIT
    M[T['add']['def']] = m_add
    def m_fin(en, st, c): st.emit('finish', bool(st.g['script'])); return ('seq', 'vec', (('op', ('v', 'the rings'), None),))
    M[T['fin']['def']] = m_fin
    def m_asm(en, st, c):
        v = c.args[0]
        st.emit('assemble', v == ('seq', 'vec', (('op', ('v', 'the rings'), None),)))
        return ('seq', 'vec', (('op', ('v', 'the polygons'), None),))
    M[T['asm']['def']] = m_asm

@prop('E01', assumptions=['the crossings of each point are those of C01 (coincident pieces reported one after another, the carrier first), prev_active is C04', 'around a point every operand has an even number of edges', 'Rings::add_edge and finish as in E03, assemble as in E04'], floor=400)
def e01(p, rep, tier):
    """boolean_op is interpreted from two polygons to the calls that build the rings, with the crossings scripted: histories of stacked groups of edges (each group of up to three coincident edges of either operand) that begin, continue and end at up to four points, in several orders of report; for each operation the pieces handed on must be exactly those that separate result from non-result, once each, with the result on the side their winding says."""
    X = BX(p)
    adtT = p.T
    r = root_of(p, 'boolean_op', POLY, BOOL)
    vi = {v: i for i, v in enumerate(p.variants[OPTYPE])}
    if sorted(vi) != sorted(RESULT): raise Anchor('anchor: variants of OpType')
    RULE = 'exactly the pieces between result and non-result become boundary, with the result on their left'
    hs = [(h, False) for h in histories(tier)]
    hs += [(h, True) for i, (h, _) in enumerate(hs) if len(h.steps) > 2 and (tier != 'quick' or i % 3 == 0)]
    rep.notes.append('%d histories of crossings, 4 operations each' % len(hs))
    def job(part):
        def go(rep):
            en = beng(p, X, 10 ** 9); bop_models(p, X, en)
            bases = {}
            for N in (4, 6, 8, 12, 16):
                los = ['%slo%d' % (q, i) for q in 'AB' for i in range(N // 2)]; his = ['%shi%d' % (q, i) for q in 'AB' for i in range(N // 2)]
                base = State()
                for a, b in zip(los, los[1:]): base.ord.add(S(a), S(b), LT)
                for a, b in zip(his, his[1:]): base.ord.add(S(a), S(b), LT)
                base.ord.add(S(los[-1]), S('mid'), LT); base.ord.add(S('mid'), S(his[0]), LT)
                bases[N] = (base, los, his)
            for num, (h, beyond) in part:
                nm = ' | '.join('-%s +%s at %d' % (','.join(k for _, k in e) or '0', ','.join(k for _, k in s) or '0', pos) for e, s, _, pos in h.steps)
                for oi, op in enumerate(RESULT):
                    for N in bases:
                        s = build(h, (num + oi) % 4, N, N, beyond)
                        if s is not None: break
                    if s is None: rep.undecided(label(r), 'history too long'); continue
                    base, los, his = bases[N]
                    script, exp, pieces = s
                    # the first and last line of the ring share a point
                    script = [dict(b, crossings=[(fix(e, N), pc, l, o, k) for e, pc, l, o, k in b['crossings']], below={k: None if v is None else (fix(v[0], N), v[1]) for k, v in b['below'].items()}) for b in script]
                    st = base.copy()
                    if beyond and not any(pc[0][0] == 'b' for pc in pieces.values()): continue
                    for pc in pieces.values():
                        if pc[0][0] == 'b':
                            st.ord.add(S(his[-1]), S(pc[0]), LT); st.ord.add(S(pc[0]), S(pc[1]), LT); continue
                        st.ord.add(S(los[-1]), S(pc[0]), LT); st.ord.add(S(pc[0]), S('mid'), LT); st.ord.add(S('mid'), S(pc[1]), LT)
                    st.g['script'] = tuple(script)
                    args = [by_ref(st, poly(ring_names('A', N))), by_ref(st, poly(ring_names('B', N))), ('adt', OPTYPE, vi[op], ())]
                    want = {}
                    for pc, (lo, up) in exp:
                        a, b = RESULT[op](*lo), RESULT[op](*up)
                        if a != b: want[pc] = 'CounterClockwise' if b else 'Clockwise'
                    def chk(f, want=want):
                        st = f.st; out = []
                        got = {}
                        for e in st.trace:
                            if e[0] == 'edge': got.setdefault(e[1], []).append(e[2])
                        for pc, w in want.items():
                            if pc not in got: out.append('a piece between result and non-result does not become boundary')
                            elif len(got[pc]) > 1: out.append('a boundary piece is added more than once')
                            elif got[pc] != [w]: out.append('the result is taken to lie on the wrong side of a boundary piece')
                        for pc in got:
                            if pc not in want: out.append('a piece that does not separate result from non-result becomes boundary' if pc in pieces.values() else 'the boundary is not made of the pieces reported')
                        fin = [e for e in st.trace if e[0] == 'finish']
                        if len(fin) != 1 or fin[0][1]: out.append('the rings are closed before all crossings are seen')
                        if [e[1] for e in st.trace if e[0] == 'assemble'] != [True]: out.append('the polygons are not assembled from the rings found')
                        v = f.val
                        if v[0] != 'adt' or v[3][0] != ('seq', 'vec', (('op', ('v', 'the polygons'), None),)): out.append('the result is not the polygons assembled')
                        return sorted(set(out))
                    run(rep, en, r, [(st, args)], RULE, chk, name='%s: %s, %s%s' % (label(r), op, nm, ' (pieces beyond the end of their edge)' if beyond else ''))
        return go
    k = 24
    parallel(rep, [job([(i, h) for i, h in enumerate(hs) if i % k == j]) for j in range(k)])
    merge(rep, label(r))

def fix(e, N):
    lo, hi = e
    p = lo[0]
    n = int(lo[3:])
    return ('%slo%d' % (p, n % (N // 2)), hi)

def merge(rep, name):
    """violations of one function under one rule are one construct"""
    for v in rep.viol: v['construct'] = v['construct'].split(': ')[0]
    seen = set(); out = []
    for v in rep.viol:
        k = (v['construct'], v['rule'], v['detail'])
        if k in seen: continue
        seen.add(k); out.append(v)
    rep.viol[:] = out

@prop('E02', assumptions=['the crossings of each point are those of C01; an edge is what its Crossable::line says'], floor=20)
def e02(p, rep, tier):
    """boolean_op of polygons and of multi-polygons is interpreted on operands with several polygons, holes, repeated vertices, short and empty rings: the edges given to the sweep must be exactly the non-degenerate lines of all rings (a ring of less than four coordinates bounds nothing and may be left out), and, with two lines of one operand scripted as the only crossings, the difference must keep them for the first operand and drop them for the second. The four named operations must be boolean_op of the same operands with their own operation."""
    X = BX(p)
    vi = {v: i for i, v in enumerate(p.variants[OPTYPE])}
    RULE = 'the edges of all rings of both operands take part, each for its operand'
    sq = lambda c: [c + '0', c + '1', c + '2', c + '3', c + '0']
    tri = lambda c: [c + '0', c + '1', c + '2', c + '0']
    polys = {'square': [(sq('a'), [])], 'triangle and hole': [(tri('a'), [tri('b')])], 'square, two holes': [(sq('a'), [tri('b'), sq('c')])],
             'repeated vertex': [(['a0', 'a1', 'a1', 'a2', 'a0'], [])], 'repeated start': [(['a0', 'a0', 'a1', 'a2', 'a0'], [['b0', 'b1', 'b2', 'b2', 'b0']])],
             'degenerate ring': [(['a0', 'a1', 'a0'], [])], 'empty': [([], [])], 'all one point': [(['a0', 'a0', 'a0', 'a0', 'a0'], [])], 'short hole': [(tri('a'), [['b0', 'b1', 'b0'], tri('c')])],
             'edge twice': [(['a0', 'a1', 'a0', 'a2', 'a0'], [])]}
    multi = dict(polys); multi.update({'none': [], 'two': [(tri('a'), []), (tri('b'), [])], 'two with holes': [(sq('a'), [tri('b')]), (tri('c'), [tri('d')])], 'three': [(tri('a'), []), (tri('b'), [tri('c')]), (tri('d'), [])]})
    def rename(ps, q): return [([q + x for x in e], [[q + x for x in i] for i in ii]) for e, ii in ps]
    def mk(ps, kind): return poly(*ps[0]) if kind == POLY else mpoly([poly(*x) for x in ps])
    def lines(ps):
        must, may = [], []
        for e, ii in ps:
            for r in [e] + ii:
                (must if len(r) > 3 else may).extend(frozenset((a, b)) for a, b in zip(r, r[1:]) if a != b)
        return must, may
    cases = []
    for kind, tab in ((POLY, polys), (MPOLY, multi)):
        for i, (n1, p1) in enumerate(tab.items()):
            others = list(tab.items())
            for n2, p2 in ([others[(i + 1) % len(others)], others[(i + 4) % len(others)]] if tier == 'quick' else others): cases.append((kind, n1, p1, n2, p2))
    def one(rep, kind, n1, p1, n2, p2):
        r = root_of(p, 'boolean_op', kind, BOOL)
        P, Q = rename(p1, 'P'), rename(p2, 'Q')
        names = sorted({x for ps in (P, Q) for e, ii in ps for rr in [e] + ii for x in rr})
        for oi in range(2):
            en = beng(p, X, 10 ** 9); bop_models(p, X, en)
            def state():
                st = State(); total(st, names if not oi else names[::-1]); st.g['script'] = (); return st
            m1, y1 = lines(P); m2, y2 = lines(Q)
            def chk(f):
                st = f.st
                if 'lines' not in st.g: return ['no sweep takes place']
                got = [frozenset(x[1] for x in l) for l in st.g['lines']]
                out = []
                for ps, (m, y) in (('first', lines(P)), ('second', lines(Q))):
                    for l in set(m):
                        if (got.count(l) - m.count(l)) % 2: out.append('an edge of the %s operand does not take part' % ps)
                extra = [l for l in got if l not in m1 + m2]
                if any(len(l) == 1 for l in extra): out.append('a degenerate edge takes part')
                if any(extra.count(l) % 2 for l in extra if len(l) == 2): out.append('an edge takes part that is not an edge of the operands')
                return sorted(set(out))
            run(rep, en, r, [case(state(), P, Q, kind)], RULE, chk, name='%s: %s with %s' % (label(r), n1, n2))
        # which operand an edge belongs to
        for which, ps in (('first', P), ('second', Q)):
            ls = [sorted(l, key=names.index) for l in dict.fromkeys(lines(ps)[0])]
            for a, b in zip(ls, ls[1:] + ls[:1]):
                if a == b: continue
                en = beng(p, X, 10 ** 9); bop_models(p, X, en)
                st = State(); total(st, names)
                rank1 = {('s0', 'e0'): (True, 0), ('s1', 'e1'): (True, 1)}; rank2 = {k: (False, v[1]) for k, v in rank1.items()}
                for i in (0, 1): total(st, ['s%d' % i, names[0]]); total(st, ['s%d' % i, 'e%d' % i])
                A = (tuple(a), ('s0', 'e0')); B = (tuple(b), ('s1', 'e1'))
                st.g['script'] = ({'at': 'p0', 'rank': rank1, 'below': {0: None, 1: A}, 'crossings': [B + (True, False, 1), A + (True, False, 0)]},
                                  {'at': 'p1', 'rank': rank2, 'below': {}, 'crossings': [A + (False, False, 0), B + (False, False, 1)]})
                def chk(f, which=which):
                    got = sorted(e[1:] for e in f.st.trace if e[0] == 'edge')
                    want = [(('s0', 'e0'), 'CounterClockwise'), (('s1', 'e1'), 'Clockwise')] if which == 'first' else []
                    return [] if got == want else ['an edge of the %s operand does not count for it' % which]
                run(rep, en, r, [case(st, P, Q, kind)], RULE, chk, name='%s: %s with %s, edges %s %s' % (label(r), n1, n2, a, b))
    def case(st, P, Q, kind): return (st, [by_ref(st, mk(P, kind)), by_ref(st, mk(Q, kind)), ('adt', OPTYPE, vi['Difference'], ())])
    k = 16
    parallel(rep, [(lambda rep, j=j: [one(rep, *c) for i, c in enumerate(cases) if i % k == j]) for j in range(k)])
    # the named operations
    for nm in ('intersection', 'union', 'difference', 'xor'):
        r = next((r for r in p.roots if r['name'] == nm and r['def'] == '%s::%s' % (BOOL, nm)), None)
        if r is None: raise Anchor('anchor: %s::%s' % (BOOL, nm))
        en = beng(p, X); st = State()
        def m(en, st, c):
            st.emit('op', en.term(st, rd(en, st, c.args[0])), en.term(st, rd(en, st, c.args[1])), c.args[2][2])
            return ('op', ('app', 'result'), c.c['ret'])
        en.models[(BOOL, 'boolean_op')] = m
        def chk(f, nm=nm, en=en):
            got = [e[1:] for e in f.st.trace if e[0] == 'op']
            out = []
            if len(got) != 1 or got[0][2] != vi[nm.capitalize()]: out.append('the operation is not that of its name')
            elif got[0][:2] != (S('self'), S('other')) and (nm == 'difference' or sorted(got[0][:2]) != sorted((S('self'), S('other')))): out.append('the operands are not those given, in their order')
            elif en.term(f.st, f.val) != ('app', 'result'): out.append('the result is not returned')
            return out
        run(rep, en, r, [(st, [by_ref(st, ('op', S('self'), None)), by_ref(st, ('op', S('other'), None))])], 'the named operations are those of their names', chk)
    merge(rep, '')

# ---- rings
def cycles(n, k):
    """simple directed cycles of length k over points 0..n-1, each once"""
    for vs in itertools.combinations(range(n), k):
        for rest in itertools.permutations(vs[1:]): yield (vs[0],) + rest

def arcs(c): return [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]
def disjoint(cs):
    seen = set()
    for c in cs:
        for a, b in arcs(c):
            k = frozenset((a, b))
            if k in seen: return False
            seen.add(k)
    return True

def boundaries(tier):
    q = tier == 'quick'
    for n in range(3, 7):
        for c in cycles(n, n): yield (c,)
    small = [c for k in (3, 4) for c in cycles(5, k)]
    for i, cs in enumerate(itertools.combinations(small, 2)):
        if disjoint(cs) and (not q or i % 2 == 0): yield cs
    big = [c for k in (3, 4, 5) for c in cycles(7, k)]
    step = 211 if q else 23
    for i, cs in enumerate(itertools.combinations(big, 2)):
        if i % step == 0 and disjoint(cs): yield cs
    tri = [c for c in cycles(7, 3)]
    step = 37 if q else 7
    for i, cs in enumerate(itertools.combinations(tri, 3)):
        if i % step == 0 and disjoint(cs): yield cs
    if not q:
        for i, cs in enumerate(itertools.combinations(tri, 4)):
            if i % 61 == 0 and disjoint(cs): yield cs

def orders(edges, tier):
    """orders in which the sweep can report these edges: by right end, any order among those of one point"""
    by = {}
    for e in edges: by.setdefault(max(e), []).append(e)
    ks = sorted(by)
    yield [e for k in ks for e in by[k]]
    if any(len(v) > 1 for v in by.values()): yield [e for k in ks for e in reversed(by[k])]
    if tier != 'quick':
        for m in range(2): yield [e for k in ks for e in (by[k][1 + m:] + by[k][:1 + m])]

@prop('E03', assumptions=['the boundary pieces come in the order of their right ends, with the result on the side their winding says, and at every point as many lead in as lead out (E01)', 'winding_order of a line string is an unknown function of the line string that turns with its direction'], floor=400)
def e03(p, rep, tier):
    """Rings::add_edge and finish are interpreted over boundaries made of directed loops (one to three, thorough four, over up to seven points, disjoint or touching in vertices), reported in the order of the sweep: the rings must be closed, visit no vertex twice, run in one direction with the region on one side, together use every piece exactly once, and be marked as holes exactly when the region lies outside of them."""
    X = BX(p)
    ra = root_of(p, 'add_edge', RINGS); rf = root_of(p, 'finish', RINGS); rd_ = root_of(p, 'default', RINGS, 'core::default::Default')
    rt = adt_ty(p, RING, lambda t: generic(p, t)); fs = p.T[rt]['variants'][0]['fields']
    ci = X.pos(fs, lambda f: p.T[f[1]].get('def') == LSTR); hi = X.pos(fs, lambda f: p.T[f[1]]['s'] == 'bool')
    RULE = 'the boundary pieces become simple closed rings, holes marked'
    name = '%s, %s' % (label(ra), label(rf).split('::')[-1])
    work = []
    for bi, cs in enumerate(boundaries(tier)):
        dirs = [a for c in cs for a in arcs(c)]
        for oi, order in enumerate(orders(dirs, tier)): work.append((bi, oi, cs, order))
    rep.notes.append('%d sequences of boundary pieces' % len(work))
    def turn(names):
        """does this loop, run in its direction, turn counter-clockwise? any fixed answer that turns with the direction"""
        m = names.index(min(names)); r = names[m:] + names[:m]
        f = r[1] < r[-1]
        canon = r if f else [r[0]] + r[:0:-1]
        return (sum(ord(ch) * (i + 1) for i, n in enumerate(canon) for ch in n) % 2 == 0) == f
    def job(part):
        def go(rep):
            en = beng(p, X, 10 ** 9)
            def m_wo(en, st, c):
                ns = [x[1] for x in en.names(en, st, c.args[0])]
                if len(ns) < 4 or ns[0] != ns[-1] or len(set(ns)) < 3: return NONE
                return some(X.w('CounterClockwise' if turn(ns[:-1]) else 'Clockwise'))
            en.models['<geo::LineString<T> as geo::winding_order::Winding>::winding_order'] = m_wo
            base = State(); total(base, ['v%d' % i for i in range(7)])
            fin = en.run([begin(en, base.copy(), rd_, [])])
            if len(fin) != 1 or fin[0].kind != 'return': rep.undecided(name, 'Rings::default: %s' % [f.why for f in fin]); return
            st0, init = fin[0].st, fin[0].val
            for bi, oi, cs, order in part:
                nm = '%s: %s reported %s' % (name, ' '.join('-'.join(map(str, c)) for c in cs), ' '.join('%d>%d' % e for e in order))
                rep.obligation(nm, RULE, 1)
                st = st0.copy(); ref = by_ref(st, init); bad = None
                for a, b in order:
                    lo, h = min(a, b), max(a, b)
                    fin = en.run([begin(en, st, ra, [ref, lop_line(X.pt('v%d' % lo), X.pt('v%d' % h)), X.w('CounterClockwise' if a == lo else 'Clockwise')])])
                    if len(fin) != 1 or fin[0].kind != 'return':
                        f = next((f for f in fin if f.kind != 'return'), None); bad = f; break
                    st = fin[0].st
                if bad is None:
                    fin = en.run([begin(en, st, rf, [rd(en, st, ref)])])
                    if len(fin) != 1 or fin[0].kind != 'return': bad = next((f for f in fin if f.kind != 'return'), fin[0] if fin else None)
                if bad is not None:
                    if bad.kind == 'panic': rep.violation(name, RULE, 'panics while the rings are built', bad.st.log)
                    else: rep.undecided(nm, bad.why)
                    continue
                st, v = fin[0].st, fin[0].val
                try: msgs = judge(en, st, v, order)
                except Undecided as u: rep.undecided(nm, str(u)); continue
                for m in msgs: rep.violation(name, RULE, m, [('loops', nm)])
            for b in en.stats['bodies']: rep.bodies.add(p.bodies[b]['path'])
            rep.models |= en.used_models; rep.states += en.stats['states']
        return go
    def judge(en, st, v, order):
        if v[0] != 'seq': raise Undecided('rings are not a known sequence')
        out = set(); used = {}
        for r in v[2]:
            if r[0] == 'op': r = en.expand(st, r)
            ns = [int(x[1][1:]) for x in en.names(en, st, r[3][ci])]
            if len(ns) < 4 or ns[0] != ns[-1]: out.add('a ring is not closed, or has no area'); continue
            if len(set(ns)) != len(ns) - 1: out.add('a ring visits a vertex twice')
            es = list(zip(ns, ns[1:]))
            fw = sum(e in order for e in es); bw = sum((b, a) in order for a, b in es)
            if fw + bw != len(es): out.add('a ring has an edge that is no boundary piece')
            elif fw and bw: out.add('a ring has the region on both sides')
            for a, b in es: used[frozenset((a, b))] = used.get(frozenset((a, b)), 0) + 1
            ccw = turn(['v%d' % n for n in ns[:-1]])
            hole = en.truth(st, r[3][hi])
            if not (fw and bw) and hole != (not ccw if fw else ccw): out.add('a ring is a hole but not marked as one, or the other way round')
        for a, b in order:
            n = used.get(frozenset((a, b)), 0)
            if n != 1: out.add('a boundary piece is %s' % ('lost' if not n else 'used more than once'))
        return sorted(out)
    k = 16
    parallel(rep, [job([w for i, w in enumerate(work) if i % k == j]) for j in range(k)])
    merge(rep, '')

# ---- assembling polygons
class Lam:
    """nested rings as a stack of edges along the sweep. Regions: 'o' outside, ('e', r) inside exterior r, ('h', r) inside hole r."""
    def __init__(self):
        self.stack = ()       # (edge number, ring)
        self.rings = ()       # (is hole, region outside of it)
        self.edges = ()       # (ring, start point, end point or None, pieces)
        self.steps = ()       # (ended edges/pieces, started, gap index)
        self.npts = 0
    def region(self, i):
        """the region below stack position i"""
        g = 'o'
        for e, r in self.stack[:i]: g = self.cross(g, r)
        return g
    def cross(self, g, r):
        hole, out = self.rings[r]; inn = ('h' if hole else 'e', r)
        if g == inn: return out
        if g == out: return inn
        return None
    def move(self, i, k, new):
        """end k edges from position i, begin edges of the rings `new` there; a split edge is ('split', ring)"""
        n = Lam(); p = self.npts; n.npts = p + 1
        n.rings = self.rings
        g = self.region(i)
        edges = list(self.edges); started = []
        ended = self.stack[i:i + k]
        splits = {r[1]: 1 for r in new if isinstance(r, tuple)}
        for e, r in ended:
            rr, a, b, pcs = edges[e]
            pcs = pcs[:-1] + ((pcs[-1][0], p),)
            edges[e] = (rr, a, None if r in splits else p, pcs)
        rings = list(n.rings)
        for r in new:
            sp = isinstance(r, tuple); r = r[1] if sp else r
            if r >= len(rings):
                if r != len(rings): return None
                if g == 'o' or g[0] == 'h': rings.append((False, g))
                else: rings.append((True, g))
            n.rings = tuple(rings)
            g2 = n.cross(g, r)
            if g2 is None: return None
            g = g2
            if sp:
                e = next(e for e, q in ended if q == r)
                edges[e] = edges[e][:3] + (edges[e][3] + ((p, None),),)
                started.append((e, r))
            else:
                edges.append((r, p, None, ((p, None),))); started.append((len(edges) - 1, r))
        n.rings = tuple(rings); n.edges = tuple(edges)
        n.stack = self.stack[:i] + tuple(started) + self.stack[i + k:]
        n.steps = self.steps + ((tuple((e, len(self.edges[e][3]) - 1) for e, _ in ended), tuple((e, len(edges[e][3]) - 1) for e, _ in started), i, n.stack),)
        # the region above must be what it was
        if n.region(i + len(started)) != self.region(i + k): return None
        return n
    def comp(self, e):
        """the connected part of its ring an edge belongs to"""
        r = self.edges[e][0]; pts = set(self.edges[e][1:2])
        while True:
            more = {x for q, a, b, _ in self.edges if q == r and (a in pts or b in pts and b is not None) for x in (a, b) if x is not None} - pts
            if not more: return min(pts)
            pts |= more
    def pairs(self):
        """neighbours on the stack that may end together: the last two edges of a ring, or ends of different parts of it"""
        for i in range(len(self.stack) - 1):
            (e, r), (f, q) = self.stack[i], self.stack[i + 1]
            if r == q and (self.comp(e) != self.comp(f) or sum(1 for _, x in self.stack if x == r) == 2): yield i
    def close(self, at_once):
        """end everything, by pairs or, when possible, all in one point"""
        s = self
        while s is not None and s.stack:
            if at_once and all(sum(1 for _, r in s.stack if r == x) == 2 for _, x in s.stack):
                starts = [s.edges[e][:2] for e, _ in s.stack]
                if len(set(starts)) == len(starts):
                    s = s.move(0, len(s.stack), ()); continue
                k = next(i for i, x in enumerate(starts) if starts.count(x) > 1)
                s = s.move(k, 1, (s.stack[k][1],)); continue
            ps = list(s.pairs())
            if not ps: return None
            i = ps[0]
            if s.edges[s.stack[i][0]][1] == s.edges[s.stack[i + 1][0]][1]: s = s.move(i, 1, (s.stack[i][1],)); continue
            s = s.move(i, 2, ())
        return s
    def cyclesof(self):
        """coordinates of every ring; None unless each is one simple cycle of at least three vertices"""
        out = []; seen = set()
        for r, a, b, pcs in self.edges:
            if b is None or (a, b) in seen: return None
            seen.add((a, b))
        for r in range(len(self.rings)):
            adj = {}
            for q, a, b, _ in self.edges:
                if q == r: adj.setdefault(a, []).append(b); adj.setdefault(b, []).append(a)
            if any(len(v) != 2 for v in adj.values()) or len(adj) < 3: return None
            s = min(adj); path = [s]; prev = None
            while True:
                nx = [x for x in adj[path[-1]] if x != prev] or [prev]
                prev, x = path[-1], nx[0]
                if x == s: break
                path.append(x)
            if len(path) != len(adj): return None
            out.append(path + [s])
        return out

def laminars(tier):
    """arrangements of nested rings, by fixed pseudo-random walks along the sweep"""
    rnd = random.Random(7); seen = set(); out = []
    want = 900 if tier == 'quick' else 9000
    while len(out) < want:
        l = Lam()
        for _ in range(rnd.randint(1, 9)):
            N = len(l.stack); i = rnd.randint(0, N); k = rnd.choice((0, 0, 1, 1, 2, 2, 3)) if N else 0
            ended = [r for _, r in l.stack[i:i + k]]
            if i + k > N or any(ended.count(r) > 2 for r in ended): continue
            # ends of one part of a ring meet only when they are its last
            bad = False
            for r in set(ended):
                es = [e for e, q in l.stack[i:i + k] if q == r]
                if len(es) == 2 and (l.edges[es[0]][1] == l.edges[es[1]][1] or l.comp(es[0]) == l.comp(es[1]) and sum(1 for _, x in l.stack if x == r) > 2): bad = True
            if bad: continue
            once = sorted({r for r in ended if ended.count(r) == 1})
            live = sorted({r for _, r in l.stack} - set(ended)); fr = len(l.rings)
            extra = rnd.choice([[], [fr], [fr], [fr, fr + 1]] + ([[rnd.choice(live)]] if live else []))
            if not k and not extra or max(extra + [0]) > 4 or N - k + len(once) + 2 * len(extra) > 10: continue
            ms = once + [x for x in extra for _ in range(2)]
            rnd.shuffle(ms)
            fs = list(dict.fromkeys(x for x in ms if x >= fr)); ren = dict(zip(fs, sorted(fs)))
            ms = [ren.get(x, x) for x in ms]
            if len(once) == 1 and rnd.random() < .3: ms = [('split', x) if x == once[0] else x for x in ms]
            m = l.move(i, k, tuple(ms))
            if m is not None: l = m
        if not l.stack and not l.rings: continue
        c = l.close(rnd.random() < .5)
        if c is None or c.steps in seen: continue
        cy = c.cyclesof()
        if cy is None: continue
        seen.add(c.steps); out.append((c, cy))
    return out

@prop('E04', assumptions=['rings are simple, disjoint up to vertices and marked as E03 says; the crossings of each point are those of C01, prev_active is C04'], floor=400)
def e04(p, rep, tier):
    """assemble is interpreted on arrangements of up to five rings (exteriors, holes, islands in holes, side by side, touching in vertices, notched, with edges split in between), crossings scripted in several orders and rings numbered in several ways: it must give exactly one polygon for each exterior, with its coordinates and precisely the holes that lie directly inside it."""
    X = BX(p)
    r = root_of(p, 'assemble', module=BOPS)
    rt = adt_ty(p, RING, lambda t: generic(p, t)); fs = p.T[rt]['variants'][0]['fields']
    ci = X.pos(fs, lambda f: p.T[f[1]].get('def') == LSTR); hi = X.pos(fs, lambda f: p.T[f[1]]['s'] == 'bool')
    if len(fs) != 2: raise Anchor('anchor: fields of Ring')
    RULE = 'one polygon for each exterior, with the holes directly inside it'
    work = laminars(tier)
    rep.notes.append('%d arrangements of rings' % len(work))
    nm = lambda i: 'p%02d' % i
    def job(part):
        def go(rep):
            en = beng(p, X, 10 ** 9)
            for num, (l, cy) in part:
                n = len(l.rings)
                # which number each ring has, and where its coordinates start
                order = list(range(n))
                order = [order, order[::-1], order[1:] + order[:1], order[::2] + order[1::2]][num % 4]
                coords = []
                for q in range(n):
                    c = cy[q][:-1]; s = (num + q) % len(c); c = c[s:] + c[:s]
                    if (num + q) % 3 == 0: c = c[::-1]
                    coords.append([nm(x) for x in c + [c[0]]])
                st = State(); total(st, [nm(i) for i in range(l.npts)])
                ends_ = lambda e: (nm(l.edges[e][1]), nm(l.edges[e][2]))
                pc = lambda e, k: tuple(nm(x) for x in l.edges[e][3][k])
                cur = {}; script = []; key = {}
                for at, (ended, started, i, stack) in enumerate(l.steps):
                    for e, k in started: cur[e] = k; key[e, k] = len(key)
                    rank = {pc(e, k): (False, j) for j, (e, k) in enumerate(ended)}
                    rank.update({pc(e, k): (True, j) for j, (e, k) in enumerate(started)})
                    below = {}
                    for j, (e, k) in enumerate(started):
                        b = stack[i + j - 1][0] if i + j else None
                        below[key[e, k]] = None if b is None else (ends_(b), pc(b, cur[b]))
                    E = [(ends_(e), pc(e, k), False, False, key[e, k]) for e, k in ended]
                    S_ = [(ends_(e), pc(e, k), True, False, key[e, k]) for e, k in started]
                    cr = [E + S_, E[::-1] + S_[::-1], S_[::-1] + E, S_[1:] + E + S_[:1]][(num // 4 + at) % 4]
                    script.append({'at': nm(at), 'rank': rank, 'below': below, 'crossings': cr})
                st.g['script'] = tuple(script)
                rings = []
                for q in order:
                    v = [None, None]; v[ci] = lstr(coords[q]); v[hi] = l.rings[q][0]
                    rings.append(('adt', RING, 0, tuple(v)))
                want = sorted((coords[q], sorted(coords[h] for h in range(n) if l.rings[h] == (True, ('e', q)))) for q in range(n) if not l.rings[q][0])
                def chk(f, want=want, en=en):
                    v = f.val; st = f.st
                    if v[0] != 'seq': raise Undecided('polygons are not a known sequence')
                    got = []
                    nn = lambda x: [y[1] for y in en.names(en, st, x)]
                    for x in v[2]:
                        if x[0] != 'adt' or x[1] != POLY: raise Undecided('a polygon is not known')
                        got.append((nn(x[3][0]), sorted(nn(i) for i in items_of(en, st, x[3][1]))))
                    got.sort()
                    if got == want: return []
                    a, b = [e for e, _ in got], [e for e, _ in want]
                    out = []
                    if [e for e in b if e not in a]: out.append('an exterior ring becomes no polygon')
                    if len(a) != len(set(map(tuple, a))): out.append('an exterior ring becomes more than one polygon')
                    if [e for e in a if e not in b]: out.append('a polygon has an exterior that is no exterior ring')
                    if not out: out.append('a hole is lost, doubled or given to the wrong polygon')
                    return out
                d = '; '.join('%s in %s' % ('hole' if h else 'exterior', o if o == 'o' else '%s%d' % o) for h, o in l.rings)
                run(rep, en, r, [(st, [('seq', 'vec', tuple(rings))])], RULE, chk, name='%s: #%d %s' % (label(r), num, d))
        return go
    def items_of(en, st, v):
        if v[0] != 'seq': raise Undecided('the holes of a polygon are not known')
        return v[2]
    k = 16
    parallel(rep, [job([(i, w) for i, w in enumerate(work) if i % k == j]) for j in range(k)])
    # no rings
    en = beng(p, X); st = State(); st.g['script'] = ()
    run(rep, en, r, [(st, [('seq', 'vec', ())])], RULE, lambda f: [] if f.val == ('seq', 'vec', ()) else ['polygons from no rings'], name=label(r) + ': no rings')
    merge(rep, label(r))
