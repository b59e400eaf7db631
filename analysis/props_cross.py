"""C: the iterators built on the sweep"""
import itertools
from registry import prop
from sweepdom import *
from props_order import anyusize
import natives
from natives import stepfn

ITERT = 'core::iter::traits::iterator::Iterator'
FROMIT = 'core::iter::traits::collect::FromIterator'
CIT = 'geo_crossings::crossings::CrossingsIter'
INTS = 'geo_crossings::crossings::Intersections'
SPLAYW = 'geo_crossings::active::SplayWrap'

def adt_ty(p, d, pred=lambda t: True):
    for i, t in enumerate(p.T):
        if t.get('def') == d and t['k'] == 'adt' and pred(t): return i
    raise Anchor('anchor: type %s' % d)

def generic(p, t): return p.T[t['args'][0]]['k'] == 'param'

class CX(Ctx):
    def __init__(self, p):
        Ctx.__init__(self, p)
        self.cit = adt_ty(p, CIT, lambda t: generic(p, t)); self.cf = p.T[self.cit]['variants'][0]['fields']
        self.ints = adt_ty(p, INTS, lambda t: generic(p, t)); self.inf = p.T[self.ints]['variants'][0]['fields']
        self.crossing = adt_ty(p, CROSSING, lambda t: generic(p, t)); self.crf = p.T[self.crossing]['variants'][0]['fields']
        isd = lambda d: (lambda f: p.T[f[1]].get('def') == d)
        self.C = {'sweep': self.pos(self.cf, isd(SWEEP)), 'segments': self.pos(self.cf, isd('alloc::vec::Vec'))}
        self.N = {'inner': self.pos(self.inf, isd(CIT))}
        self.G = {n: p.fidx(CROSSING, n) for n in ('crossable', 'line', 'first_segment', 'has_overlap', 'at_left', 'key')}
    def pos(self, fs, pred):
        c = [i for i, f in enumerate(fs) if pred(f)]
        if len(c) != 1: raise Anchor('anchor: field of %r' % [f[0] for f in fs])
        return c[0]
    def crossing_of(self, c, first, ovl, left, key=0):
        fs = [('op', ('v', 'crossing.%s' % f[0]), f[1]) for f in self.crf]
        for n, v in (('crossable', self.cr(c)), ('line', ('op', ('v', 'piece-of-' + c), self.lop_ty)), ('first_segment', first), ('has_overlap', ovl), ('at_left', left), ('key', key)): fs[self.G[n]] = v
        return ('adt', CROSSING, 0, tuple(fs))
    def citer(self, segs, sweep=None):
        fs = [('op', ('v', 'iter.' + f[0]), f[1]) for f in self.cf]
        fs[self.C['segments']] = ('seq', 'vec', tuple(segs))
        if sweep is not None: fs[self.C['sweep']] = sweep
        return ('adt', CIT, 0, tuple(fs))

def ceng(p, X):
    M = make_models(p, X)
    r = root_of(p, 'coord', SWEEPPT)
    en = SwEngine(p, models=M, max_visits=200, max_states=40000)
    en.X = X
    en.models[r['def']] = lambda en, st, c: ('op', ('app', 'coord', en.term(st, c.args[0] if c.args[0][0] != 'ref' else rd(en, st, c.args[0]))), c.c['ret'])
    return en

@stepfn('script')
def step_script(en, st, fr):
    calls, fn, val = fr.data
    if not calls: return ('ret', val)
    args, rest = calls[0], calls[1:]
    fr.data = (rest, fn, val)
    return ('call', fn, list(args))

def sw_pred(p): return lambda r: p.T[r['self_ty']]['args'][1:] and p.T[p.T[r['self_ty']]['args'][1]]['k'] == 'param'

@prop('C01', assumptions=['Sweep::next_event and peek_point behave as in W04 and W07; every batch of events reports something (W02)'], floor=20)
def c01(p, rep, tier):
    """CrossingsIter::next is interpreted with the sweep replaced by a script of events (up to three at the current point, followed by another point or none, each reporting 0 to 2 segments of every event type): it must take exactly the events at the next point and expose what they report, in order, field by field; from_iter must start with the sweep of the same items and nothing exposed."""
    X = CX(p)
    rn = root_of(p, 'next', CIT, ITERT)
    peek = try_root(p, rep, 'peek_point', SWEEP, pred=sw_pred(p)); nxt = root_of(p, 'next_event', SWEEP, pred=sw_pred(p))
    bools = (True, False)
    def scripts():
        for here in range(0, 4 if tier == 'quick' else 5):
            for after in (0, 1, 2) if here else (0,):
                for cbs in itertools.product((0, 1, 2), repeat=here):
                    if here and not sum(cbs): continue
                    if sum(cbs) > (3 if tier == 'quick' else 4): continue
                    yield here, after, cbs
    tys = ['LineLeft', 'LineRight', 'PointLeft']
    for here, after, cbs in scripts():
        for rot, old in ((0, 0), (1, 2), (2, 1)):
            en = ceng(p, X); st = State()
            st.ord.add(S('a'), S('b'), LT)
            evs = []; want = []; n = rot
            for i in range(here + after):
                calls = []
                for j in range(cbs[i] if i < here else 1):
                    ty = tys[n % 3]; key = 40 + n
                    g = lop_point(X.pt('a')) if ty == 'PointLeft' else ('op', ('v', 'geom%d' % n), X.lop_ty)
                    seg = X.seg(key, g, 'c%d' % n, bools[n // 2 % 2], False, 77 if n % 2 else None, n % 3 == 0)
                    b = st.alloc(seg, 'SG')
                    calls.append((('ref', b, (), None), ('adt', EVTY, X.evi[ty], ())))
                    if i < here: want.append((seg, ty))
                    n += 1
                evs.append((X.pt('a') if i < here else X.pt('b'), tuple(calls)))
            st.g['script'] = tuple(evs)
            def m_peek(en, st, c):
                return some(st.g['script'][0][0]) if st.g['script'] else NONE
            def m_next(en, st, c):
                if not st.g['script']: return NONE
                pt, calls = st.g['script'][0]; st.g['script'] = st.g['script'][1:]
                b = st.alloc(c.args[1], 'CB')
                en.push_native(st, 'script', (calls, ('ref', b, (), None), some(pt)), c.dest, c.target)
                return ('$pushed',)
            en.models[nxt['def']] = m_next
            if peek: en.models[peek['def']] = m_peek
            it = by_ref(st, X.citer([X.crossing_of('old%d' % i, True, False, True) for i in range(old)]))
            def chk(f, en=en, it=it, want=want, here=here, after=after):
                st = f.st; out = []
                v = force(en, st, f.val)
                if len(st.g['script']) != after: out.append('the step does not take exactly the events at the next point')
                if not here: return out + (['the iteration does not end when no event is left'] if v[2] else [])
                if v[2] != 1: out.append('the iteration ends although there are events')
                elif en.term(st, v[3][0]) != ('app', 'coord', S('a')):
                    out.append('the coordinate returned is not that of the events taken')
                segs = rd(en, st, it)[3][X.C['segments']][2]
                if len(segs) != len(want): return out + ['%s crossings are exposed than the events reported' % ('more' if len(segs) > len(want) else 'fewer')]
                for s, (seg, ty) in zip(segs, want):
                    if s[0] != 'adt': s = en.expand(st, s)
                    g = lambda n: s[3][X.G[n]]
                    t = lambda x: en.term(st, x)
                    if t(g('crossable')) != t(X.get(seg, 'crossable')): out.append('a crossing does not carry the input it belongs to, or the order is not that of the events'); continue
                    if t(g('line')) != t(X.get(seg, 'geom')): out.append('the line of a crossing is not the geometry of the piece reported')
                    if en.truth(st, g('first_segment')) != X.get(seg, 'first_segment'): out.append('the first-segment flag of a crossing is wrong')
                    if en.truth(st, g('has_overlap')) != (X.get(seg, 'overlapping') != NONE): out.append('the overlap flag of a crossing is wrong')
                    if en.truth(st, g('at_left')) != (ty == 'LineLeft'): out.append('at_left of a crossing is wrong')
                    if g('key') != X.get(seg, 'key'): out.append('a crossing refers to another segment')
                return out
            run(rep, en, rn, [(st, [it])], 'a step exposes the events at one point', chk,
                name='%s: %s events at the point, %s later' % (label(rn), cbs, after))
    # from_iter
    for n in range(0, 4):
        for which, d in (('CrossingsIter', CIT), ('Intersections', INTS)):
            r = root_of(p, 'from_iter', d, FROMIT)
            en = ceng(p, X); st = State()
            src = ('seq', 'iter', tuple(X.cr('c%d' % i) for i in range(n)))
            new = root_of(p, 'new', SWEEP, pred=sw_pred(p))
            def m_new(en, st, c): st.emit('sweep-of', c.args[0]); return ('op', ('v', 'the sweep'), c.c['ret'])
            en.models[new['def']] = m_new
            en.models[('core::iter::traits::collect::IntoIterator', 'into_iter')] = lambda en, st, c: c.args[0]
            en.models[(ITERT, 'size_hint')] = lambda en, st, c: ('tup', (('op', ('hint', 'min'), anyusize(p)), some(('op', ('hint', 'max'), anyusize(p))) if en.truth(st, ('op', ('hint', 'known'), None)) else NONE))
            def chk(f, en=en, d=d, src=src):
                st = f.st; v = f.val
                if d == INTS: v = v[3][X.N['inner']]
                got = [e[1] for e in st.trace if e[0] == 'sweep-of']
                if got != [src] or en.term(st, v[3][X.C['sweep']]) != S('the sweep'): return ['the sweep does not run over exactly the items given']
                if v[3][X.C['segments']][2]: return ['crossings are exposed before the first step']
                return []
            run(rep, en, r, [(st, [src])], 'iteration starts with all items and nothing exposed', chk, name='%s: %d items' % (label(r), n))
    # reading the crossings
    for nm in ('intersections', 'intersections_mut'):
        r = root_of(p, nm, CIT)
        for n in range(3):
            en = ceng(p, X); st = State()
            it = by_ref(st, X.citer([X.crossing_of('c%d' % i, True, False, True) for i in range(n)]))
            before = rd(en, st, it)[3][X.C['segments']]
            def chk(f, en=en, it=it, before=before):
                b, pth, lo, hi, v = seqref(en, f.st, f.val)
                if v != before or (lo, hi) != (0, len(before[2])) or rd(en, f.st, it)[3][X.C['segments']] != before: return ['the crossings given out are not those of the last step']
            run(rep, en, r, [(st, [it])], 'all crossings of the last step are exposed', lambda f: chk(f) or [], name='%s: %d' % (label(r), n))

# ---- pairs
def partitions(xs):
    xs = list(xs)
    if not xs: yield []; return
    h, t = xs[0], xs[1:]
    for q in partitions(t):
        yield [[h]] + q
        for i in range(len(q)): yield q[:i] + [[h] + q[i]] + q[i + 1:]

def batches(n, perms):
    """(crossings, roles, left groups, right groups): every way n lines can meet in a point"""
    names = ['A', 'B', 'C', 'D'][:n]
    for roles in itertools.product(('start', 'pass', 'end', 'point'), repeat=n):
        role = dict(zip(names, roles))
        L = [x for x in names if role[x] in ('start', 'pass')]; R = [x for x in names if role[x] in ('pass', 'end')]
        Pn = [x for x in names if role[x] == 'point']
        for lg in partitions(L):
            for rg in partitions(R):
                # lines that pass and coincide on one side coincide on the other side too
                gl = {x: i for i, g in enumerate(lg) for x in g}; gr = {x: i for i, g in enumerate(rg) for x in g}
                both = [x for x in names if role[x] == 'pass']
                if any((gl[x] == gl[y]) != (gr[x] == gr[y]) for x, y in itertools.combinations(both, 2)): continue
                for order in perms(lg, rg):
                    lo, ro = order
                    seq = [(x, 'P', False) for x in Pn]
                    for g in ro: seq += [(x, 'R', i + 1 < len(g)) for i, x in enumerate(g)]
                    for g in lo: seq += [(x, 'L', i + 1 < len(g)) for i, x in enumerate(g)]
                    yield role, seq, gl, gr

def all_perms(lg, rg):
    def arr(gs):
        for o in itertools.permutations(gs):
            for q in itertools.product(*[list(itertools.permutations(g)) for g in o]): yield [list(g) for g in q]
    return itertools.product(arr(lg), arr(rg))
def few_perms(lg, rg):
    yield lg, rg
    yield [list(reversed(g)) for g in reversed(lg)], [list(reversed(g)) for g in reversed(rg)]
    yield [list(reversed(g)) for g in lg], rg

LI_FN = ('geo::line_intersection::line_intersection', 'geo::algorithm::line_intersection::line_intersection')

def pair_runs(p, rep, X, work):
    """drive Intersections::next over a script of batches; yields (script, list of results) on completion"""
    rn = root_of(p, 'next', INTS, ITERT); inext = root_of(p, 'next', CIT, ITERT); rf = root_of(p, 'from_iter', INTS, FROMIT)
    en = ceng(p, X)
    M = en.models
    new = root_of(p, 'new', SWEEP, pred=sw_pred(p))
    M[new['def']] = lambda en, st, c: ('op', ('v', 'the sweep'), c.c['ret'])
    M[('core::iter::traits::collect::IntoIterator', 'into_iter')] = lambda en, st, c: c.args[0]
    M[(ITERT, 'size_hint')] = lambda en, st, c: ('tup', (0, some(0)))
    def m_next(en, st, c):
        s = st.g['script']
        b, pth, w = en.deref(st, c.args[0])
        if not s:
            en.write(st, b, pth + (('f', X.C['segments']),), ('seq', 'vec', ()))
            return NONE
        st.g['script'] = s[1:]
        en.write(st, b, pth + (('f', X.C['segments']),), ('seq', 'vec', s[0]))
        return some(('op', ('v', 'pt%d' % len(s)), en.T[c.c['ret']]['args'][0]))
    M[inext['def']] = m_next
    def li(en, st, c):
        a, b = en.term(st, c.args[0]), en.term(st, c.args[1])
        return some(('op', ('app', 'li', a, b), en.T[c.c['ret']]['args'][0]))
    for n in LI_FN: M[n] = li
    # the initial state
    st0 = State()
    fin = en.run([begin(en, st0, rf, [('seq', 'iter', ())])])
    if len(fin) != 1 or fin[0].kind != 'return': raise Undecided('the start of the iteration: %s' % [f.why for f in fin])
    init = fin[0].val
    for tag, script in work:
        st = State(); st.g['script'] = tuple(tuple(b) for b in script)
        ref = by_ref(st, init)
        out = []; bad = None
        for _ in range(400):
            fin = en.run([begin(en, st, rn, [ref])])
            if len(fin) != 1 or fin[0].kind != 'return':
                f = next((f for f in fin if f.kind != 'return'), fin[0] if fin else None)
                bad = ('panic', f.why) if f is not None and f.kind == 'panic' else ('undecided', f.why if f is not None else 'no path'); break
            st = fin[0].st
            v = force(en, st, fin[0].val)
            if v[2] == 0: break
            r = v[3][0]
            if r[0] == 'op': r = en.expand(st, r)
            out.append(tuple(en.term(st, x) for x in r[1]))
        else: bad = ('undecided', 'no end')
        yield tag, out, bad, st
    for b in en.stats['bodies']: rep.bodies.add(p.bodies[b]['path'])
    rep.models |= en.used_models; rep.states += en.stats['states']

def crossing_seq(X, role, seq, rfirst=True):
    # a piece that ends at the point may or may not be the first of its line
    return [X.crossing_of(x, role[x] in ('start', 'point') if k != 'R' else rfirst, ovl, k == 'L') for x, k, ovl in seq]

def judge_pairs(role, gl, gr, out, names):
    msgs = set()
    got = {}
    for a, b, li in out:
        x, y = a[1], b[1]
        if x == y: msgs.add('a line is reported to meet itself'); continue
        if li not in (('app', 'li', ('app', 'line', a), ('app', 'line', b)), ('app', 'li', ('app', 'line', b), ('app', 'line', a))): msgs.add('the intersection reported is not that of the two input lines reported with it')
        k = frozenset((x, y)); got[k] = got.get(k, 0) + 1
    for x, y in itertools.combinations(names, 2):
        n = got.get(frozenset((x, y)), 0)
        before = x in gr and y in gr and gr[x] == gr[y]
        after = x in gl and y in gl and gl[x] == gl[y]
        want = 0 if before else 1
        if n == want: continue
        if before: case = 'coincide up to the point'
        elif after: case = 'coincide from the point on, where ' + ('both begin' if role[x] == role[y] == 'start' else 'one begins and the other does not')
        else: case = 'meet in the point only (%s)' % ' and '.join('one %s' % {'start': 'begins', 'pass': 'passes', 'end': 'ends', 'point': 'is a point'}[r] for r in sorted((role[x], role[y])))
        msgs.add('two lines that %s are %s' % (case, 'not reported' if n < want else 'reported again' if want == 0 else 'reported %s' % ('twice' if n == 2 else 'several times')))
    return sorted(msgs)

RULE_P = 'each pair of meeting lines is reported exactly once'

@prop('C02', assumptions=['the crossings of each point are those of C01, with correct first-segment marks (W06) and chains reported one after another (W04)', 'lines that pass a point and coincide on one side of it coincide on the other'], floor=400)
def c02(p, rep, tier):
    """Intersections::next is driven over every way in which up to three lines (thorough: four) can meet in a point (each beginning, passing, ending or degenerate, in every chain of overlaps, in several orders) and over sequences of points: each pair of different lines must come out exactly once at the point where the two first meet, with the intersection of the two input lines, and the iteration must end with the crossings."""
    X = CX(p)
    rn = root_of(p, 'next', INTS, ITERT)
    jobs = []
    def batch_job(work, meta):
        def go(rep):
            for tag, out, bad, st in pair_runs(p, rep, X, work):
                role, gl, gr, names, nm = meta[tag]
                name = '%s: %s' % (label(rn), nm)
                rep.obligation(name, RULE_P, 1)
                if bad and bad[0] == 'undecided': rep.undecided(name, bad[1]); continue
                if bad: rep.violation(label(rn), RULE_P, 'panics: %s' % bad[1].split(' @ ')[0], st.log); continue
                for m in judge_pairs(role, gl, gr, out, names): rep.violation(label(rn), RULE_P, m, [('lines', nm)])
        return go
    work, meta = [], {}
    def flush():
        nonlocal work, meta
        if work: jobs.append(batch_job(work, meta))
        work, meta = [], {}
    for n in range(1, 4 if tier == 'quick' else 5):
        for role, seq, gl, gr in batches(n, all_perms if n < 3 or (n == 3 and tier != 'quick') else few_perms):
            nm = ' '.join('%s%s%s' % (x, k, '+' if o else '') for x, k, o in seq) + ' (' + ' '.join('%s %s' % i for i in sorted(role.items())) + ')'
            for rf in (True, False):
                tag = len(meta); meta[tag] = (role, gl, gr, sorted(role), nm)
                work.append((tag, [crossing_seq(X, role, seq, rf)]))
            if len(work) >= 120: flush()
    flush()
    # sequences of points
    shapes = {0: [], 1: [('p', 'P', False)], 2: [('A', 'R', False), ('B', 'L', False)], 3: [('A', 'R', False), ('B', 'L', False), ('C', 'L', False)], 4: [('p', 'P', False), ('A', 'R', False), ('B', 'L', True), ('C', 'L', False)]}
    def seqs(rep):
        tags = [t for n in range(0, 4) for t in itertools.product((1, 2, 3, 4), repeat=n)]
        work = []
        for t in tags:
            script = []
            for i, k in enumerate(t):
                role = {x: 'point' if x == 'p' else 'end' if kk == 'R' else 'start' for x, kk, _ in shapes[k]}
                script.append(crossing_seq(X, {'%s%d' % (x, i): r for x, r in role.items()}, [('%s%d' % (x, i), kk, o) for x, kk, o in shapes[k]]))
            work.append((t, script))
        for t, out, bad, st in pair_runs(p, rep, X, work):
            name = '%s: points with %s crossings' % (label(rn), t)
            rep.obligation(name, RULE_P, 1)
            if bad and bad[0] == 'undecided': rep.undecided(name, bad[1]); continue
            if bad: rep.violation(label(rn), RULE_P, 'panics: %s' % bad[1].split(' @ ')[0], st.log); continue
            got = sorted(tuple(sorted((a[1], b[1]))) for a, b, _ in out)
            want = sorted(tuple(sorted((x + str(i), y + str(i)))) for i, k in enumerate(t) for (x, _, _), (y, _, _) in itertools.combinations(shapes[k], 2))
            if got != want: rep.violation(label(rn), RULE_P, 'pairs of some points are lost, repeated or mixed with those of other points', [('crossings per point', str(t))])
            if st.g['script']: rep.violation(label(rn), RULE_P, 'the iteration ends before the crossings do', [('crossings per point', str(t))])
    jobs.append(seqs)
    parallel(rep, jobs)

@prop('C03', assumptions=['T::line of the type referred to is an unknown function'], floor=5)
def c03(p, rep, tier):
    """Every Crossable implementation of the crate for references, smart pointers and Line is interpreted: line() must be the line of what it wraps, unchanged."""
    rs = [r for r in p.roots if r['impl_trait'] == CRS and r['name'] == 'line']
    n = 0
    for r in rs:
        t = p.T[r['self_ty']]
        en = Engine(p, models=dict(GEOM), max_visits=8)
        en.models[(CRS, 'line')] = lambda en, st, c: ('op', ('app', 'line', en.term(st, rd(en, st, c.args[0]))), c.c['ret'])
        st = State()
        if t.get('def') == LINE:
            v = ('op', ('v', 'x'), r['self_ty']); want = S('x')
        elif t['k'] == 'ref':
            v = by_ref(st, ('op', ('v', 'x'), t['to'])); want = ('app', 'line', S('x'))
        elif t.get('def') in ('alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc'):
            i = st.fresh(); st.mem[('H', i)] = ('op', ('v', 'x'), t['args'][0]); v = ('box', i); want = ('app', 'line', S('x'))
        else: continue
        n += 1
        def chk(f, en=en, want=want):
            return [] if en.term(f.st, f.val) == want else ['the line given is not that of the wrapped value']
        run(rep, en, r, [(st, [by_ref(st, v)])], 'line() is the line of the wrapped value', chk)
    if n < 5: raise Anchor('anchor: Crossable for Line, references and smart pointers (%d found)' % n)

@prop('C04', assumptions=['the active set answers prev_key as in A01'], floor=2)
def c04(p, rep, tier):
    """CrossingsIter::prev_active is interpreted for a crossing at its left end with and without an active segment below: it must give the current geometry and input of exactly the segment the active set names, or None."""
    X = CX(p)
    r = root_of(p, 'prev_active', CIT)
    for below in (True, False):
        for extra in (0, 1):
            en = ceng(p, X); st = State(); sid = st.fresh()
            st.g[('slab', sid)] = tuple(range(2 + extra)); st.g[('slabn', sid)] = 2 + extra; st.g[('gone', sid)] = ()
            for k in range(2 + extra):
                st.mem[cell(sid, k)] = X.seg(k, lop_line(X.pt('p%d' % k), X.pt('q%d' % k)), 'c%d' % k, True, k > 0)
            for m in methods(p, SPLAYW, ACC):
                if m['name'] == 'prev_key': en.models[m['def']] = lambda en, st, c: (some(1) if c.args[1] == 0 and below else NONE)
                elif m['name'] == 'next_key': en.models[m['def']] = lambda en, st, c: some(2) if extra else NONE
            fs = [('op', ('v', 'sweep.' + f[0]), f[1]) for f in X.swf]
            hb = st.fresh(); st.mem[('H', hb)] = ('slab', sid)
            fs[X.W['segments']] = ('box', hb) if p.T[X.swf[X.W['segments']][1]].get('box') else ('slab', sid)
            it = by_ref(st, X.citer([], ('adt', SWEEP, 0, tuple(fs))))
            c = by_ref(st, X.crossing_of('c0', True, False, True, 0))
            def chk(f, en=en):
                v = force(en, f.st, f.val)
                if (v[2] == 1) != below: return ['a segment below is %s' % ('not found' if below else 'made up')]
                if not below: return []
                t = v[3][0]
                if t[0] == 'op': t = en.expand(f.st, t)
                g, cr = t[1]
                if g[0] != 'adt': return ['the geometry is not that of the segment below']
                out = []
                if g[2] != 1 or [en.term(f.st, x) for x in g[3]] != [S('p1'), S('q1')]: out.append('the geometry is not that of the segment below')
                if en.term(f.st, rd(en, f.st, cr)) != S('c1'): out.append('the input is not that of the segment below')
                return out
            run(rep, en, r, [(st, [it, c])], 'the segment below is the one the active set names', chk, name='%s: %s' % (label(r), 'one below' if below else 'none below'))
