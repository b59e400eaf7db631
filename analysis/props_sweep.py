"""W: one step of the crossings sweep, from every state that satisfies the sweep's invariants"""
from registry import prop
from sweepdom import *
from props_order import anyusize

ASSUME_W = ['points are totally ordered (SweepPoint order, O01) and events are queued in that order (O02)',
            'intersect_line_ordered answers exactly (O05): nothing, a point of both segments not before the current one, or the overlap from the later start to the earlier end; segments sharing an end meet there',
            'the active set is an ordered list of keys (A-properties)',
            'two segments active together and neighbours have already been split where they meet']

class Scene:
    """an initial state: pieces, active list and the event to be handled"""
    def __init__(self, en, X, name):
        self.en = en; self.X = X; self.name = name
        self.st = st = State()
        self.sid = st.fresh(); self.hid = st.fresh()
        st.g[('slab', self.sid)] = (); st.g[('slabn', self.sid)] = 0; st.g[('heap', self.hid)] = ()
        st.g[('gone', self.sid)] = ()
        st.g['act'] = frozenset(); st.g['ord'] = (); st.g['clean'] = frozenset(); st.g['wereact'] = frozenset()
        st.g['open'] = True
        self.init = {}        # crossable term -> (p term, q term)
        self.reported = set() # keys already reported at their left end
        self.coinc = []       # crossables known to coincide on a span
        self.keys = {}        # name -> key
        self.first = {}
    def add(self, name, p, q, done=False, ovl=None, isov=False, point=False):
        X, st = self.X, self.st
        k = st.g[('slabn', self.sid)]; st.g[('slabn', self.sid)] = k + 1
        g = lop_point(X.pt(p)) if point else lop_line(X.pt(p), X.pt(q))
        st.mem[cell(self.sid, k)] = X.seg(k, g, name, True, done, ovl, isov)
        st.g[('slab', self.sid)] += (k,)
        self.init[S(name)] = (S(p), S(q if not point else p))
        self.keys[name] = k
        if done: self.reported.add(k)
        return k
    def line(self, name, p, q, done, chain=0):
        """a line piece with `chain` overlapping pieces below it"""
        nxt = None
        for i in range(chain, 0, -1):
            nxt = self.add('%s%d' % (name, i), p, q, done, nxt, True)
        k = self.add(name, p, q, done, nxt)
        mem = [name] + ['%s%d' % (name, i) for i in range(1, chain + 1)]
        for i in range(len(mem)):
            for j in range(i): self.coinc.append((S(mem[j]), S(mem[i]), S(p), S(q)))
        return k
    def event(self, pt, ty, key):
        e = self.X.ev(self.X.pt(pt), ty, key)
        self.st.g[('heap', self.hid)] += (e,)
        return e
    def rel(self, a, m, b):
        if not self.st.ord.add(S(a), S(b), m): raise Infeasible()
    def cleanp(self, *pairs):
        self.st.g['clean'] = self.st.g['clean'] | {tuple(sorted((S(a), S(b)), key=repr)) for a, b in pairs}
    def sweep(self):
        X, st = self.X, self.st
        fs = [('op', ('v', 'sweep.' + f[0]), f[1]) for f in X.swf]
        hb = st.fresh(); st.mem[('H', hb)] = ('slab', self.sid)
        boxed = self.en.T[X.swf[X.W['segments']][1]].get('box')
        st.g['home'] = (('H', hb), ()) if boxed else None
        fs[X.W['segments']] = ('box', hb) if boxed else ('slab', self.sid)
        fs[X.W['events']] = ('heap', self.hid)
        return ('adt', SWEEP, 0, tuple(fs))

def neighbours(sc, names, chains, a_rel, b_rel, pt):
    """active segments around the event segment; names in vertical order with 's' in between"""
    order = []
    for n in names:
        if n == 's': order.append(sc.keys['s']); continue
        sc.rel(n + 'a', a_rel, pt); sc.rel(n + 'b', b_rel, pt); sc.rel(n + 'a', LT, n + 'b')
        k = sc.line(n, n + 'a', n + 'b', True, chains.get(n, 0))
        sc.event(n + 'b', 'LineRight', k)
        order.append(k)
        for m in [n] + ['%s%d' % (n, i) for i in range(1, chains.get(n, 0) + 1)]:
            sc.st.g['wereact'] = sc.st.g['wereact'] | {S(m)}
    sc.st.g['ord'] = tuple(order)
    sc.st.g['act'] = frozenset(k for k in order if k != sc.keys['s'])
    ns = [n for n in names if n != 's']
    return ns

def line_left(en, X, names, chains, schain):
    sc = Scene(en, X, 'left end of a line%s between %s' % (' carrying %d overlapping' % schain if schain else '', shown(names, chains)))
    sc.rel('p', LT, 'q')
    k = sc.line('s', 'p', 'q', False, schain)
    sc.start = sc.event('p', 'LineLeft', k); sc.event('q', 'LineRight', k)
    ns = neighbours(sc, names, chains, LT | EQ, GT, 'p')
    sc.cleanp(*zip(ns, ns[1:]))
    sc.cur = S('p')
    return sc

def line_right(en, X, names, chains, schain):
    sc = Scene(en, X, 'right end of a line%s between %s' % (' carrying %d overlapping' % schain if schain else '', shown(names, chains)))
    sc.rel('p', LT, 'q')
    k = sc.line('s', 'p', 'q', True, schain)
    sc.start = sc.event('q', 'LineRight', k)
    neighbours(sc, names, chains, LT, GT | EQ, 'q')
    sc.st.g['act'] = sc.st.g['act'] | {k}
    sc.st.g['wereact'] = sc.st.g['wereact'] | {S('s')} | {S('s%d' % i) for i in range(1, schain + 1)}
    sc.cleanp(*zip(names, names[1:]))
    sc.cur = S('q')
    return sc

def point_left(en, X, names, chains):
    sc = Scene(en, X, 'a point between %s' % shown(names, chains))
    k = sc.add('s', 'p', None, point=True)
    sc.start = sc.event('p', 'PointLeft', k); sc.event('p', 'PointRight', k)
    ns = neighbours(sc, names, chains, LT, GT | EQ, 'p')
    sc.cleanp(*zip(ns, ns[1:]))
    sc.cur = S('p')
    return sc

def shown(names, chains):
    r = ['%s%s' % (n, '+%d' % chains[n] if chains.get(n) else '') for n in names if n != 's']
    return '(' + ', '.join('s' if n == 's' else '%s%s' % (n, '+%d' % chains[n] if chains.get(n) else '') for n in names) + ')'

def point_right(en, X):
    sc = Scene(en, X, 'end of a point')
    k = sc.add('s', 'p', None, point=True); sc.reported.add(k)
    sc.start = sc.event('p', 'PointRight', k)
    neighbours(sc, ['P', 's', 'N'], {}, LT, GT | EQ, 'p'); sc.cleanp(('P', 'N')); sc.cur = S('p')
    return sc

def stale(en, X, kind):
    sc = Scene(en, X, 'stale right end (%s)' % kind)
    if kind == 'segment gone':
        sc.add('s', 'p', 'q'); sc.st.g[('slab', sc.sid)] = (); k = 0; sc.init = {}
    elif kind == 'segment now ends elsewhere':
        sc.rel('p', LT, 'q'); sc.rel('t', LT, 'q'); sc.rel('p', LT | EQ, 't')  # what ended before t is gone
        k = sc.line('s', 'p', 'q', True); sc.event('q', 'LineRight', k)
    elif kind == 'segment overlaps another':
        sc.rel('p', LT, 't')
        sc.line('s', 'p', 't', True, 1); k = sc.keys['s1']; sc.event('t', 'LineRight', sc.keys['s'])
    else:
        k = sc.add('s', 't', None, point=True); sc.reported.add(k)
    sc.start = sc.event('t', 'LineRight', k)
    if 's' not in sc.keys or kind == 'segment gone':
        sc.st.g['ord'] = (); sc.st.g['act'] = frozenset()
    else:
        neighbours(sc, ['P', 's', 'N'], {}, LT, GT | EQ, 't')
        if kind.startswith('segment'):
            if kind == 'segment overlaps another':
                # an overlapped segment lies where its carrier lies
                o = list(sc.st.g['ord']); o.insert(o.index(sc.keys['s']) + 1, sc.keys['s1']); sc.st.g['ord'] = tuple(o)
            sc.st.g['act'] = sc.st.g['act'] | {sc.keys['s']}; sc.cleanp(('P', 's'), ('s', 'N'))
            sc.st.g['wereact'] = sc.st.g['wereact'] | {S('s'), S('s1')}
        else: sc.cleanp(('P', 'N'))
    sc.cur = S('t')
    sc.stale = True
    return sc

def scenes(en, X, tier):
    out = []
    base = [['s'], ['P', 's'], ['s', 'N'], ['P', 's', 'N'], ['PP', 'P', 's'], ['s', 'N', 'NN'], ['PP', 'P', 's', 'N'], ['P', 's', 'N', 'NN'], ['PP', 'P', 's', 'N', 'NN']]
    for names in base:
        if tier == 'quick' and len(names) > 4: continue
        chs = [{}]
        if 'P' in names: chs.append({'P': 1})
        if 'N' in names: chs.append({'N': 1})
        if 'P' in names and 'N' in names: chs.append({'P': 1, 'N': 1})
        if tier == 'quick' and len(names) == 4: chs = [{'P': 1, 'N': 1}]
        for ch in chs:
            for scn in (0, 1):
                if tier == 'quick' and len(names) == 4 and scn: continue
                out.append(line_left(en, X, names, ch, scn))
                if len(names) <= 3: out.append(line_right(en, X, names, ch, scn))
            if len(names) <= 3: out.append(point_left(en, X, names, ch))
    for names in base[:4]: out.append(line_right(en, X, names, {}, 2))
    for ch in ({'P': 2}, {'N': 2}, {'P': 2, 'N': 2}):
        nm = ['P', 's', 'N'] if len(ch) == 2 else ['P', 's'] if 'P' in ch else ['s', 'N']
        for scn in (0, 1, 2): out.append(line_left(en, X, nm, ch, scn))
        out.append(line_right(en, X, ['P', 's', 'N'], ch, 0))
    out.append(point_right(en, X))
    for k in ('segment gone', 'segment now ends elsewhere', 'segment overlaps another', 'the key now names a point'): out.append(stale(en, X, k))
    return out

# ---------------------------------------------------------------------------------- the specification
def piece(en, st, X, v):
    g = X.get(v, 'geom')
    if g[0] == 'op': g = en.expand(st, g) if False else g
    if g[0] != 'adt': raise Undecided('geometry of a stored segment unknown')
    return g[2], ends(en, st, g)

def ovl(en, st, X, v):
    o = X.get(v, 'overlapping')
    if o[0] != 'adt': raise Undecided('overlapping unknown')
    return o[3][0] if o[2] == 1 else None

def judge(en, sc, f):
    """-> list of (tag, message) about the final state"""
    st, X = f.st, sc.X
    out = []
    def say(tag, msg): out.append((tag, msg))
    live = {k: st.mem[cell(sc.sid, k)] for k in slab_keys(st, sc.sid)}
    gone = [v for _, v in st.g.get(('gone', sc.sid), ())]
    eq = lambda a, b: en.cmpq(st, a, b, EQ)
    def flag(v, n): return en.truth(st, X.get(v, n))
    cr = lambda v: en.term(st, X.get(v, 'crossable'))
    nm = lambda v: show_term(cr(v))
    for k, v in live.items():
        if X.get(v, 'key') != k: say('split', 'a stored segment holds a key that is not its own')
    home = st.g.get('home')
    if home:
        if any(e[0] == 'store' and e[1] != home for e in st.trace): say('stay', 'a segment becomes active with a reference to storage other than that of the sweep')
        sw = next((v for b, v in st.mem.items() if isinstance(v, tuple) and v[:2] == ('adt', SWEEP)), None)
        if sw is None: raise Undecided('the sweep is not found')
        if st.g['act'] and place_of(en, st, sw[3][X.W['segments']]) != home: say('stay', 'the storage of active segments is replaced')
    # --- pieces tile the original segment
    bycr = {}
    for v in list(live.values()) + gone: bycr.setdefault(cr(v), []).append(v)
    for c, (p, q) in sc.init.items():
        ps = [piece(en, st, X, v) for v in bycr.get(c, [])]
        if c == S('s') and not ps: say('split', 'the event segment is lost'); continue
        if ps and ps[0][0] == 0:
            if len(ps) != 1 or not eq(ps[0][1][0], p): say('split', 'a point segment is altered')
            continue
        x = p; rest = list(ps); ok = True; steps = 0
        while rest:
            hit = next((i for i, (k, (a, b)) in enumerate(rest) if k == 1 and eq(a, x)), None)
            if hit is None: ok = False; break
            k, (a, b) = rest.pop(hit)
            if en.cmp3(st, a, b) >= 0: ok = False; break
            x = b
        if not ok or not eq(x, q):
            say('split', 'the pieces of %s no longer make up the segment it was before' % role(c))
    for c in bycr:
        if c not in sc.init: say('split', 'a segment of an unknown line is stored')
    # --- chains
    parent = {}
    for k, v in live.items():
        o = ovl(en, st, X, v)
        if o is None: continue
        if o not in live: say('chain', 'a segment refers to an overlapping segment that is not stored'); return out
        if o in parent: say('chain', 'two segments claim the same overlapping segment')
        parent[o] = k
        a, b = piece(en, st, X, v), piece(en, st, X, live[o])
        if a[0] != 1 or b[0] != 1 or not eq(a[1][0], b[1][0]) or not eq(a[1][1], b[1][1]):
            say('chain', 'an overlapping segment differs in geometry from the one that carries it')
    for k, v in live.items():
        if flag(v, 'is_overlapping') != (k in parent): say('chain', 'the overlap mark of a segment disagrees with the chain it is in')
    def root(k):
        n = 0
        while k in parent:
            k = parent[k]; n += 1
            if n > 20: return None
        return k
    if any(root(k) is None for k in live): say('chain', 'the chain of overlapping segments is circular'); return out
    coinc = list(sc.coinc)
    for e in st.trace:
        if e[0] == 'isec' and isinstance(e[4], tuple) and e[4][0] == 'ln' and None not in e[1]:
            coinc.append((e[1][0], e[1][1], e[4][1], e[4][2]))
    for c1, c2, lo, hi in coinc:
        for k, v in live.items():
            if cr(v) != c1: continue
            a, b = piece(en, st, X, v)[1]
            if en.cmpq(st, a, lo, GT | EQ) and en.cmpq(st, b, hi, LT | EQ):
                if not any(cr(w) == c2 and root(j) == root(k) for j, w in live.items()):
                    say('chain', 'pieces of coinciding lines are not chained to each other')
    # --- schedule
    heap = [X.evf(e) for e in st.g[('heap', sc.hid)]]
    queued = lambda pt, ty, key: sum(1 for a, b, c in heap if c == key and b == ty and eq(en.term(st, a), pt))
    act = st.g['act']
    for k in act:
        if k not in live: say('sched', 'a segment that is no longer stored stays active'); say('live', 'a segment that is no longer stored stays active')
    pend = set()
    for k, v in live.items():
        kind, (p, q) = piece(en, st, X, v)
        if kind == 0: continue
        r = root(k)
        if r == k:
            if not queued(q, 'LineRight', k): say('sched', 'the right end of %s is not queued' % role2(sc, k, v, cr))
            n = queued(p, 'LineLeft', k)
            if k in act:
                if n: say('sched', 'an active segment still has its left end queued')
            elif n != 1: say('sched', 'the left end of %s, which is not active, is queued %s' % (role2(sc, k, v, cr), 'more than once' if n else 'nowhere'))
            if n: pend.add(k)
        else:
            if k in act: say('sched', 'an overlapped segment is active itself')
            if queued(p, 'LineLeft', k): say('sched', 'an overlapped segment still has its left end queued')
    for pt, ty, key in heap:
        if key not in live: 
            if ty != 'LineRight': say('sched', 'a left end is queued for a segment that is not stored')
        elif ty == 'LineLeft':
            kind, (p, q) = piece(en, st, X, live[key])
            if kind == 0 or not eq(p, en.term(st, pt)): say('sched', 'a queued left end is not where its segment starts')
        elif ty == 'PointLeft': say('sched', 'a point is queued again')
    carry = [piece(en, st, X, v)[1] for k, v in live.items() if root(k) == k]
    for pt, ty, key in heap:
        t = en.term(st, pt)
        if key in live and not eq(t, sc.cur) and not any(eq(t, x) for e in carry for x in e):
            say('sched', 'an event is queued at a point where nothing starts or ends any more')
    # --- the point handled is returned
    v = force(en, st, f.val)
    if v[2] != 1: say('sched', 'no point is returned although an event was due')
    elif not eq(en.term(st, v[3][0]), sc.cur): say('sched', 'the point returned is not that of the event')
    # --- callbacks
    cbs = [(X.get(e[1], 'key'), e[2], e[1], i) for i, e in enumerate(st.trace) if e[0] == 'cb']
    if sc.__dict__.get('stale'):
        if cbs: say('report', 'a stale event is reported')
        if set(k for k in live) != set(sc.keys.values()) - ({0} if 'gone' in sc.name else set()): say('sched', 'a stale event changes the stored segments')
        if gone or len(act) != len(sc.st.g['act']): say('sched', 'a stale event changes the active segments')
    gonek = [X.get(v, 'key') for v in gone]
    last = None
    seenL = []; seenR = []
    for j, (k, ty, snap, i) in enumerate(cbs):
        tgt = None
        if ty == 'LineRight':
            seenR.append(k)
            tgt = next((v for v in gone if X.get(v, 'key') == k and cr(v) == cr(snap)), None)
            if tgt is None: say('report', 'the right end of a segment that is not released is reported'); continue
        elif ty in ('LineLeft', 'PointLeft'):
            seenL.append(k)
            tgt = live.get(k)
            if tgt is None or cr(tgt) != cr(snap):
                say('report', 'the left end of a segment that is not stored is reported'); continue
            if (ty == 'LineLeft') != (piece(en, st, X, tgt)[0] == 1): say('report', 'the kind of the event reported does not fit the segment')
        else:
            say('report', 'the right end of a point is reported'); continue
        a, b = piece(en, st, X, snap), piece(en, st, X, tgt)
        if a[0] != b[0] or not eq(a[1][0], b[1][0]) or not eq(a[1][1], b[1][1]):
            say('report', 'a segment is reported with a geometry that is not its final one')
        so, to = ovl(en, st, X, snap), ovl(en, st, X, tgt)
        if (so is None) != (to is None): say('report', 'a segment is reported with the wrong overlap mark')
        if so is not None and not (j + 1 < len(cbs) and cbs[j + 1][0] == so and cbs[j + 1][1] == ty):
            say('report', 'the segments overlapping a reported one do not follow it')
    if len(set(seenR)) != len(seenR) or sorted(seenR) != sorted(gonek): say('report', 'right ends are not reported exactly once for each segment released')
    for v in gone:
        kind, (p, q) = piece(en, st, X, v)
        if kind == 1 and not eq(q, sc.cur): say('report', 'a segment is released although it does not end at the current point')
    # a key may be released and given out again: only live segments are counted here
    for k, v in live.items():
        kind, _ = piece(en, st, X, v)
        n = seenL.count(k)
        before = k in sc.reported and cr(v) == S(next((x for x, y in sc.keys.items() if y == k), '?'))
        want = (k == sc.keys.get('s')) if kind == 0 else root(k) in act
        total = n + (1 if before else 0)
        if want and total != 1: say('report', 'the left end of %s is reported %s' % ('a point' if kind == 0 else 'an active segment', 'more than once' if total else 'never'))
        if not want and total: say('report', 'a left end is reported although the segment is not active')
        # an overlapped piece is never a carrier again: its mark is not read
        if kind == 1 and root(k) == k and flag(v, 'left_event_done') != (total > 0): say('report', 'the mark of a reported left end is wrong')
    order = [(0 if ty == 'LineRight' else 1) for _, ty, _, _ in cbs]
    if order != sorted(order): say('report', 'a left end is reported before the right end of a segment ending at the same point')
    if X.evf(sc.start)[1] == 'LineLeft' and any(ty == 'LineLeft' for _, ty, _, _ in cbs):
        # only segments split by the one handled: two others meeting here were split here before, being neighbours
        met = {c for e in st.trace if e[0] == 'isec' and S('s') in e[1] and isinstance(e[4], tuple) and eq(e[4][1], sc.cur)
               for c, g in zip(e[1], (e[2], e[3])) if c != S('s') and en.cmpq(st, sc.cur, g[1], LT)}
        for pt, ty, key in heap:
            if ty == 'LineRight' and key in live and root(key) == key and cr(live[key]) in met and eq(en.term(st, pt), sc.cur) and eq(piece(en, st, X, live[key])[1][1], sc.cur):
                say('sched', 'a left end is handled while the right end of a segment ending at the same point is still queued')
    # --- neighbours
    row = []
    names = {k: S(n) for n, k in sc.keys.items()}
    for k in sc.st.g['ord'] if hasattr(sc, 'st') else ():
        c = names.get(k)
        if k in act and k in live and cr(live[k]) == c: row.append(k); continue
        if any(cr(live[j]) == c and eq(piece(en, st, X, live[j])[1][0], sc.cur) for j in pend): row.append(None)
    for k in act:
        if k not in row: say('neigh', 'a segment became active at an unexpected place')
    for x, y in zip(row, row[1:]):
        if x is None or y is None: continue
        if not tested(en, st, X, live[x], live[y], cr): say('neigh', 'two segments are neighbours although it was not settled where they meet')
    if piece(en, st, X, live[sc.keys['s']])[0] == 0 if sc.keys.get('s') in live else False:
        if X.evf(sc.start)[1] == 'PointLeft':
            i = sc.st.g['ord'].index(sc.keys['s'])
            for j in (i - 1, i + 1):
                if 0 <= j < len(sc.st.g['ord']):
                    k = sc.st.g['ord'][j]
                    if k in live and not tested(en, st, X, live[sc.keys['s']], live[k], cr): say('neigh', 'a point is not tested against the segment next to it')
    # --- first-segment flags: pieces made later are not first; an untouched piece keeps its mark
    for k, v in list(live.items()) + [(None, v) for v in gone]:
        c = cr(v)
        if c not in sc.init: continue
        at = eq(piece(en, st, X, v)[1][0], sc.init[c][0])
        if not at and flag(v, 'first_segment'): say('first', 'a piece that does not start where its line starts is marked as the first')
        whole = at and eq(piece(en, st, X, v)[1][1], sc.init[c][1])
        if whole and not flag(v, 'first_segment'): say('first', 'a segment that was not split loses its mark as the first')
    return out

def tested(en, st, X, a, b, cr):
    pair = tuple(sorted((cr(a), cr(b)), key=repr))
    if pair in st.g['clean']: return True
    A, B = piece(en, st, X, a), piece(en, st, X, b)
    le = lambda x, y: en.cmpq(st, x, y, LT | EQ)
    for e in st.trace:
        if e[0] != 'isec' or None in e[1]: continue
        if tuple(sorted(e[1], key=repr)) != pair: continue
        if e[1][0] == cr(a): sa, sb = e[2], e[3]
        else: sa, sb = e[3], e[2]
        if not (le(sa[0], A[1][0]) and le(A[1][1], sa[1]) and le(sb[0], B[1][0]) and le(B[1][1], sb[1])): continue
        m = e[4]
        if m == 'none': return True
        if m[0] == 'pt':
            if all(le(m[1], s[1][0]) or le(s[1][1], m[1]) for s in (A, B)): return True
        else:
            if any(le(s[1][1], m[1]) or le(m[2], s[1][0]) for s in (A, B)): return True
    return False

def role(c): return {'s': 'the event segment', 'P': 'the segment below', 'N': 'the segment above', 'PP': 'the second segment below', 'NN': 'the second segment above'}.get(c[1], 'an overlapping segment')
def role2(sc, k, v, cr): return 'a piece of ' + role(cr(v))

def engine(p, X):
    en = SwEngine(p, models=make_models(p, X), max_visits=40, max_states=40000)
    en.X = X
    return en

def explore_sweep(p, rep, tier, tags, rule, panics=False):
    X = Ctx(p)
    r = root_of(p, 'next_event', SWEEP, pred=lambda r: p.T[r['self_ty']]['args'][1:] and p.T[p.T[r['self_ty']]['args'][1]]['k'] == 'param')
    fty = p.body_of(r)['locals'][2]
    en0 = engine(p, X)
    def job(sc):
        def go(rep):
            en = engine(p, X); sc.en = en
            sc.st.g['start'] = sc.start
            sv = sc.sweep()
            st = sc.st.copy()
            sw = by_ref(st, sv)
            def chk(f): return sorted(set(m for t, m in judge(en, sc, f) if t in tags))
            run(rep, en, r, [(st, [sw, ('op', ('v', 'callback'), fty)])], rule, chk,
                (lambda f: 'panics: %s' % f.why.split(' @ ')[0]) if panics is True else panics or (lambda f: None), name='%s: %s' % (label(r), sc.name))
        return go
    scs = scenes(en0, X, tier)
    scs.sort(key=lambda sc: -len(sc.st.g['ord']))
    parallel(rep, [job(sc) for sc in scs])
    return X

STEP = 'Sweep::next_event is interpreted from abstract states covering every kind of event with up to two active segments on each side, carrying overlapping segments or not; intersections are answered by an oracle in every possible way. '

def w(pid, tags, rule, doc, **kw):
    def f(p, rep, tier): explore_sweep(p, rep, tier, tags, rule, **kw)
    f.__doc__ = STEP + doc
    prop(pid, assumptions=ASSUME_W, floor=40)(f)
w('W01', {'split'}, 'splitting cuts a segment into pieces that make it up exactly', 'After the step the pieces of every line, live and released, must make up exactly the segment it was before.')
w('W02', {'sched'}, 'every piece is active or scheduled', 'After the step every stored line piece that is not overlapped has its right end queued and is either active or has its left end queued once; nothing else is active; stale events change nothing; no path panics or takes an event that is not due.', panics=True)
w('W03', {'neigh'}, 'segments that become neighbours are split where they meet', 'After the step every two neighbouring active segments, and a point and the segments next to it, have been tested against each other with their current geometry and split at the answer, unless a piece about to start lies between them.')
w('W04', {'report'}, 'both ends of every piece are reported once', 'The callbacks of the step are compared with the change of state: the left end of each piece is reported exactly when it or its carrier becomes active, the right end exactly when it is released at its own end point, with final geometry, overlapping pieces right after their carrier, right ends before left ends.')
w('W05', {'chain'}, 'coinciding pieces are chained', 'After the step overlapping pieces form chains: one carrier each, same geometry, consistent marks, no cycle; pieces of lines known to coincide on a span are in one chain.')

@prop('W06', assumptions=ASSUME_W, floor=40)
def w06(p, rep, tier):
    """The step exploration checks the first-piece mark of new and untouched pieces; Segment::adjust_for_intersection is interpreted on a line and every kind of intersection: the piece that keeps the start must keep its mark."""
    X = explore_sweep(p, rep, tier, {'first'}, 'the first piece of a line, and no other, is marked first')
    r = try_root(p, rep, 'adjust_for_intersection', SEG)
    for first in (True, False) if r else ():
        for kind in ('point', 'overlap'):
            en = engine(p, X); st = State()
            st.g.update(act=frozenset(), ord=(), clean=frozenset(), wereact=frozenset())
            for a, m, b in (('p', LT, 'q'),) + ((('r', GT | EQ, 'p'), ('r', LT | EQ, 'q')) if kind == 'point' else (('r', GT | EQ, 'p'), ('r', LT, 't'), ('t', LT | EQ, 'q'))):
                st.ord.add(S(a), S(b), m)
            seg = X.seg(0, lop_line(X.pt('p'), X.pt('q')), 'c', first)
            ref = by_ref(st, seg)
            arg = lop_point(X.pt('r')) if kind == 'point' else lop_line(X.pt('r'), X.pt('t'))
            def chk(f, en=en, ref=ref, kind=kind, first=first):
                s = f.st
                v = rd(en, s, ref)
                e = lambda a, b: en.cmpq(s, S(a), S(b), EQ)
                at = piece(en, s, X, v)[1]
                if not (en.cmpq(s, at[0], S('p'), EQ)): return []
                got = en.truth(s, X.get(v, 'first_segment'))
                if got == first: return []
                if kind == 'point': case = 'at a point'
                elif e('r', 'p'): case = 'at the end of an overlap'
                elif e('t', 'q'): case = 'at the start of an overlap'
                else: case = 'at both ends of an overlap'
                return ['the first piece of a line loses its mark when split %s' % case if first else 'a later piece is marked first when split %s' % case]
            run(rep, en, r, [(st, [ref, arg])], 'the first piece of a line, and no other, is marked first', chk, lambda f: None)

@prop('W07', assumptions=ASSUME_W[:1], floor=4)
def w07(p, rep, tier):
    """Sweep::new is interpreted on inputs of 0 to 3 crossables (each step adds one, independent of those before): one segment per crossable with its own geometry, unmarked except first, and exactly its two end events queued; next_event and peek_point on an empty queue return None."""
    X = Ctx(p)
    isA = lambda r: p.T[r['self_ty']]['args'][1:] and p.T[p.T[r['self_ty']]['args'][1]]['k'] == 'param'
    r = root_of(p, 'new', SWEEP, pred=isA)
    for n in range(0, 4 if tier == 'quick' else 5):
        en = engine(p, X); st = State()
        st.g.update(act=frozenset(), ord=(), clean=frozenset(), wereact=frozenset())
        its = tuple(X.cr('c%d' % i) for i in range(n))
        M = en.models
        M[('core::iter::traits::collect::IntoIterator', 'into_iter')] = lambda en, st, c: c.args[0]
        def nxt(en, st, c):
            v = rd(en, st, c.args[0])
            if v[0] != 'seq': raise Undecided('unknown iterator')
            if not v[2]: return NONE
            wr(en, st, c.args[0], ('seq', 'iter', v[2][1:])); return some(v[2][0])
        M[('core::iter::traits::iterator::Iterator', 'next')] = nxt
        def hint(en, st, c):
            lo = ('op', ('hint', 'min'), anyusize(p))
            t = ('hint', 'max')
            return ('tup', (lo, some(('op', t, anyusize(p))) if en.truth(st, ('op', ('hint', 'known'), None)) else NONE))
        M[('core::iter::traits::iterator::Iterator', 'size_hint')] = hint
        arg = ('seq', 'iter', its)
        def chk(f, en=en, n=n):
            st = f.st; out = []
            v = f.val
            segs = v[3][X.W['segments']]; ev = v[3][X.W['events']]
            while segs[0] in ('box', 'ref'): b, pth, w_ = en.deref(st, segs); segs = en.read(st, b, pth)
            live = {k: st.mem[cell(segs[1], k)] for k in slab_keys(st, segs[1])}
            crs = sorted(repr(en.term(st, X.get(x, 'crossable'))) for x in live.values())
            if crs != sorted(repr(S('c%d' % i)) for i in range(n)): return ['the sweep does not hold one segment per input']
            heap = [X.evf(e) for e in st.g[('heap', ev[1])]]
            want = []
            for k, s in live.items():
                if X.get(s, 'key') != k: out.append('a stored segment holds a key that is not its own')
                g = force(en, st, X.get(s, 'geom'))
                base = ('app', 'segment', ('app', 'line', en.term(st, X.get(s, 'crossable'))))
                if en.term(st, X.get(s, 'geom')) != base and (g[0] != 'adt' or [en.term(st, x) for x in g[3]] != [('f', base, i, g[2]) for i in range(len(g[3]))]):
                    out.append('a segment does not have the geometry of its input')
                if not en.truth(st, X.get(s, 'first_segment')): out.append('an input segment is not marked as first')
                if en.truth(st, X.get(s, 'left_event_done')) or en.truth(st, X.get(s, 'is_overlapping')) or X.get(s, 'overlapping') != NONE: out.append('an input segment starts in a wrong state')
                pts = [en.term(st, x) for x in g[3]]
                if g[2] == 0: want += [(pts[0], 'PointLeft', k), (pts[0], 'PointRight', k)]
                else: want += [(pts[0], 'LineLeft', k), (pts[1], 'LineRight', k)]
            got = sorted(repr((en.term(st, a), b, c)) for a, b, c in heap)
            if got != sorted(map(repr, want)) and got != sorted(repr(x) for x in want if x[1] != 'PointRight'): out.append('the queue does not hold exactly the two end events of each input')
            return out
        run(rep, en, r, [(st, [arg])], 'the sweep starts with every input scheduled', chk, name='%s: %d inputs' % (label(r), n))
    # empty queue, and peeking
    for name in ('next_event', 'peek_point'):
        r = root_of(p, name, SWEEP, pred=isA) if name == 'next_event' else try_root(p, rep, name, SWEEP, pred=isA)
        for queued in (False, True) if r else ():
            if queued and name == 'next_event': continue
            en = engine(p, X); sc = Scene(en, X, ''); sc.st.g['open'] = False
            if queued:
                k = sc.line('s', 'p', 'q', False); sc.event('p', 'LineLeft', k); sc.event('q', 'LineRight', k); sc.rel('p', LT, 'q')
            sv = sc.sweep(); st = sc.st; args = [by_ref(st, sv)]
            if name == 'next_event': args.append(('op', ('v', 'callback'), p.body_of(r)['locals'][2]))
            def chk(f, en=en, queued=queued, sc=sc):
                v = force(en, f.st, f.val); out = []
                if any(e[0] == 'cb' for e in f.st.trace): out.append('an event is reported from an empty queue')
                if (v[2] == 1) != queued: out.append('the answer for %s queue is wrong' % ('a filled' if queued else 'an empty'))
                elif queued and en.term(f.st, v[3][0]) != S('p'): out.append('the point announced is not the next one')
                if queued and len(f.st.g[('heap', sc.hid)]) != 2: out.append('peeking changes the queue')
                return out
            run(rep, en, r, [(st, args)], 'the queue is read as it is', chk, name='%s: %s queue' % (label(r), 'filled' if queued else 'empty'))
