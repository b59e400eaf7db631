"""Specifications of the splay tree and set, decided over the tree shape domain."""
from mai import *
from treedom import *
from core import *
from colls import it, ITM

LESSEQ = LT | EQ

class Ctx:
    """one exploration of one method on an arbitrary tree"""
    def __init__(self, prog, kind):
        self.p = prog; self.kind = kind
        self.en = Engine(prog, max_visits=60, max_states=20000)
        self.dom = TreeDom(self.en)

def find_struct(prog, name):
    c = [d for d in prog.variants if d.startswith('geo_crossings::splay') and d.endswith('::' + name)]
    return c

def build(ctx, st, ty, depth=0):
    """value of a tree-bearing struct: the first cell gets the whole content, counters its length"""
    p = ctx.p; T = p.T
    t = T[ty]
    n = cell_node(p, ty)
    if n is not None:
        ctx.dom.node(n); ctx.nodety = n
        if st.g.get('placed'): raise Undecided('two trees in one structure')
        st.g['placed'] = True
        return ('tree', st.g['G'], n)
    if t['k'] == 'adt' and not t['enum'] and not t['box'] and (t['def'].startswith('geo_crossings') or t['def'].startswith('core::cell')):
        return ('adt', t['def'], 0, tuple(build(ctx, st, f[1], depth + 1) for f in t['variants'][0]['fields']))
    if t['k'] == 'prim' and t['s'] == 'usize':
        return ctx.dom.count(st.g['G'])
    if t['k'] == 'param':
        return ('op', ('cmp',), ty)
    if t['k'] == 'tuple' and not t['args']: return UNIT
    if t['k'] == 'adt' and not t['enum'] and not t['box'] and not t['variants'][0]['fields']:
        return ('adt', t['def'], 0, ())
    raise Undecided('field of type %s in a tree structure' % t['s'])

def cells(ctx, st, v):
    """all cells inside a struct value"""
    if not isinstance(v, tuple) or not v: return []
    if v[0] in ('tree', 'ctx'): return [v]
    if v[0] == 'adt' and v[1] == OPT:
        if v == NONE: return [v]
        return [v] if isinstance(v[3][0], tuple) and v[3][0][:1] == ('box',) else []
    if v[0] == 'adt': return [c for x in v[3] for c in cells(ctx, st, x)]
    if v[0] == 'tup': return [c for x in v[1] for c in cells(ctx, st, x)]
    return []

def sizes(v):
    if isinstance(v, bool): return []
    if isinstance(v, int): return [v]
    if not isinstance(v, tuple) or not v: return []
    if v[0] == 'lin': return [v]
    if v[0] == 'adt' and v[1] != OPT: return [c for x in v[3] for c in sizes(x)]
    return []

def walk_struct(ctx, st, v):
    cs = cells(ctx, st, v)
    if len(cs) != 1: raise Undecided('expected one tree cell, found %d' % len(cs))
    return ctx.dom.walk(st, cs[0])

def labs(st, atoms): return [st.g['lab'][a] for a in atoms]

def eq_status(st):
    """('none',) / ('one', atom) / ('open',) whether some entry compares Equal with the query"""
    G = st.g['G']
    for a in G:
        if a[0] == 'E' and st.g['lab'][a] == EQ: return ('one', a)
    if any(st.g['lab'][a] & EQ for a in G): return ('open',)
    return ('none',)

def entry_of_ref(ctx, st, v, what):
    """which entry's key/value a returned reference points to"""
    b, p, w = ctx.en.deref(st, v)
    x = ctx.en.read(st, b, p)
    if x == UNIT:
        return None
    if x[0] != 'op' or x[1][0] != what: return ('other', x)
    return ('E', x[1][1])

def ref_in_tree(ctx, st, v):
    b, p, w = ctx.en.deref(st, v)
    return b[0] in ('H', 'EV', 'EK', 'C')

def unchanged(ctx, st, selfb, out):
    """the stored sequence and the counters are exactly those on entry"""
    v = st.mem[selfb]
    w = walk_struct(ctx, st, v)
    if w != st.g['G']:
        out.append('the in-order content after the call differs from the content before it: %s instead of %s' % (show_seq(w), show_seq(st.g['G'])))
    chk_size(ctx, st, v, w, out)

def chk_size(ctx, st, v, w, out):
    for s in sizes(v):
        d = ctx.en.ladd(s, count_items(ctx, w), -1)
        if d != 0: out.append('the element count is off by %s from the number of entries stored' % show_int(d))

def count_items(ctx, w):
    c = 0; d = {}
    for a in w:
        if a[0] == 'S': d[('n', a)] = d.get(('n', a), 0) + 1
        else: c += 1
    return ctx.en.mklin(c, d)

def show_int(d):
    return str(d) if isinstance(d, int) else 'c=%s%s' % (d[1], ''.join(' %+d*%s' % (k, show_term(t)) for t, k in d[2]))

def show_seq(w):
    return '[' + ' '.join('%s%s' % (a[0], a[1][1]) if a[0] in 'ES' else 'new' for a in w) + ']'

# ---------------------------------------------------------------------------- drivers
def start(ctx, root, extra, byref=True):
    """state at entry of method `root` on a structure with arbitrary content"""
    st = State()
    ctx.dom.init(st)
    body = ctx.p.body_of(root)
    a0 = ctx.p.T[body['locals'][1]]
    selfty = a0['to'] if a0['k'] == 'ref' else body['locals'][1]
    v = build(ctx, st, selfty)
    st.mem[('A', 'self')] = v
    if a0['k'] == 'ref': args = [('ref', ('A', 'self'), (), None)]
    else:
        args = [v]
    args += extra(st)
    if len(args) != body['argc']: raise Anchor('%s takes %d arguments, expected %d' % (root['def'], body['argc'], len(args)))
    ctx.en.push(st, body, args, (('A', 'ret'), ()), None)
    st.mem[('A', 'ret')] = UNINIT
    return st

def query(st):
    st.mem[('A', 'q')] = ('op', ('Q',), None)
    return [('ref', ('A', 'q'), (), None)]

def nokey(st): return []

def getroot(prog, name, adt, trait=None):
    rs = [r for r in prog.find(name, adt, trait)]
    if len(rs) != 1: raise Anchor('anchor: %s of %s%s (%d found)' % (name, adt, ' as ' + trait if trait else '', len(rs)))
    return rs[0]

TREE = 'geo_crossings::splay::tree::SplayTree'
SET = 'geo_crossings::splay::set::SplaySet'
TITER = 'geo_crossings::splay::tree::IntoIter'
SITER = 'geo_crossings::splay::set::IntoIter'
NEXT = 'core::iter::traits::iterator::Iterator'
BACK = 'core::iter::traits::double_ended::DoubleEndedIterator'

def run_method(rep, prog, root, extra, rule, check, allow_panic=None):
    ctx = Ctx(prog, None)
    try:
        st = start(ctx, root, extra)
    except Undecided as u:
        rep.undecided(root['def'], str(u)); return
    name = pretty(root)
    explore(rep, ctx.en, [st], name, rule, lambda f: check(ctx, f), allow_panic and (lambda f: allow_panic(ctx, f)))

def pretty(root):
    return root.get('path') or root['def']

def is_some(v): return v[0] == 'adt' and v[1] == OPT and v[2] == 1
def is_none(v): return v == NONE

# lookups -------------------------------------------------------------------------------
def spec_lookup(kind):
    """kind: 'val' / 'key' reference to the matching entry, 'bool', 'index'"""
    def check(ctx, f):
        st = f.st; v = f.val; out = []
        q = eq_status(st)
        if kind == 'bool':
            if not isinstance(v, bool): raise Undecided('boolean result')
            hit = v
        elif kind == 'index': hit = True
        else:
            if v[0] == 'op': raise Undecided('opaque result')
            hit = is_some(v)
        if not hit and q[0] != 'none':
            out.append('reports absence although an entry %s compares Equal with the key' % ('does' if q[0] == 'one' else 'may'))
        if hit:
            if q[0] != 'one': out.append('reports a match although no entry is known to compare Equal with the key')
            elif kind in ('val', 'key', 'index'):
                r = v if kind == 'index' else v[3][0]
                e = entry_of_ref(ctx, st, r, 'k' if kind == 'key' else 'val')
                if e is not None and e != q[1]: out.append('returns a reference to another entry than the matching one')
                if not ref_in_tree(ctx, st, r): out.append('returns a reference to something outside the tree')
        unchanged(ctx, st, ('A', 'self'), out)
        return out
    return check

def panic_if_absent(ctx, f):
    q = eq_status(f.st)
    if q[0] == 'none': return None
    return 'panics although an entry compares Equal with the key'

def spec_neighbour(kind, setlike=False):
    """kind: next / prev / min / max"""
    def check(ctx, f):
        st = f.st; v = f.val; out = []
        G = st.g['G']; lab = st.g['lab']
        if kind == 'next': cand = [(a, lab[a] & LT) for a in G]
        elif kind == 'prev': cand = [(a, lab[a] & GT) for a in reversed(G)]
        elif kind == 'min': cand = [(a, 1) for a in G]
        else: cand = [(a, 1) for a in reversed(G)]
        names = {'next': 'entry above the key', 'prev': 'entry below the key', 'min': 'smallest entry', 'max': 'largest entry'}
        if is_none(v):
            if any(m for a, m in cand): out.append('returns None although an %s may exist' % names[kind])
        else:
            if not is_some(v): raise Undecided('result')
            r = v[3][0]
            if setlike or kind in ('min', 'max'): refs = [(r, 'k')]
            else: refs = [(r[1][0], 'k'), (r[1][1], 'val')]
            for r, what in refs:
                e = entry_of_ref(ctx, st, r, what)
                if e is None: continue
                if e[0] != 'E': out.append('returns a reference to something that is not an entry'); continue
                ok = False
                for a, m in cand:
                    if a == e:
                        full = lab[a] == (LT if kind == 'next' else GT) if kind in ('next', 'prev') else True
                        ok = full; break
                    if m: break
                if not ok: out.append('the %s returned is not the %s' % ('key' if what == 'k' else 'value', names[kind]))
        unchanged(ctx, st, ('A', 'self'), out)
        return out
    return check

# updates -------------------------------------------------------------------------------
def newkv(st):
    return [('op', ('Q',), None), ('op', ('newval',), None)]
def newk(st):
    return [('op', ('Q',), None)]

def spec_insert(setlike):
    def check(ctx, f):
        st = f.st; v = f.val; out = []
        q = eq_status(st)
        G = st.g['G']; lab = st.g['lab']
        me = st.mem[('A', 'self')]
        w = walk_struct(ctx, st, me)
        if setlike:
            if not isinstance(v, bool): raise Undecided('boolean result')
            fresh = v
        else: fresh = is_none(v)
        if q[0] == 'open': out.append('an insertion completes without having decided whether the key is present'); return out
        if q[0] == 'one':
            if fresh: out.append('reports a fresh key although an equal entry was stored')
            elif not setlike:
                x = v[3][0]
                if x != UNIT and not (x[0] == 'op' and x[1] == ('val', q[1][1])): out.append('does not return the value it replaced')
            # same sequence, with the value of the equal entry replaced
            ok = len(w) == len(G)
            if ok:
                for a, b in zip(w, G):
                    if a == b and b != q[1]: continue
                    if b == q[1]:
                        if a[0] == 'N' and a[1][0] == 'op' and a[1][1] == ('Q',): out.append('the stored %s is exchanged for the equal one given' % ('element' if setlike else 'key')); return out
                        kept = a[0] == 'N' and a[1][0] == 'op' and a[1][1] == ('k', q[1][1])
                        if setlike: continue_ok = a == b or kept
                        else: continue_ok = kept and a[2] == ('op', ('newval',), None)
                        if continue_ok: continue
                    ok = False
            if not ok: out.append('replacing the value of an existing key changed the stored sequence: %s instead of %s' % (show_seq(w), show_seq(G)))
        else:
            if not fresh: out.append('reports an existing key although no entry compares Equal')
            i = next((j for j, a in enumerate(w) if a[0] == 'N'), None)
            rest = w[:i] + w[i+1:] if i is not None else w
            if i is None or rest != G:
                out.append('after inserting a fresh key the content is %s instead of %s with the new entry added' % (show_seq(w), show_seq(G)))
            else:
                n = w[i]
                if not (n[1][0] == 'op' and n[1][1] == ('Q',)) : out.append('the new entry does not carry the given key')
                if not setlike and n[2] != ('op', ('newval',), None): out.append('the new entry does not carry the given value')
                if any(lab[a] != GT for a in w[:i]) or any(lab[a] != LT for a in w[i+1:]):
                    out.append('the new entry is not placed between the entries below and above it')
        chk_size(ctx, st, me, w, out)
        if any(e[0] == 'underflow' for e in st.trace): out.append('the element count goes below zero')
        return out
    return check

def spec_remove(setlike):
    def check(ctx, f):
        st = f.st; v = f.val; out = []
        q = eq_status(st)
        G = st.g['G']
        me = st.mem[('A', 'self')]
        w = walk_struct(ctx, st, me)
        hit = v if setlike else is_some(v)
        if not isinstance(hit, bool): raise Undecided('boolean result')
        if q[0] == 'open': out.append('a removal completes without having decided whether the key is present'); return out
        if q[0] == 'one':
            if not hit: out.append('reports absence although an entry compares Equal')
            elif not setlike:
                x = v[3][0]
                if x != UNIT and not (x[0] == 'op' and x[1] == ('val', q[1][1])): out.append('does not return the removed value')
            exp = tuple(a for a in G if a != q[1])
            if w != exp: out.append('after removing a key the content is %s instead of %s' % (show_seq(w), show_seq(exp)))
        else:
            if hit: out.append('reports a removal although no entry compares Equal')
            if w != G: out.append('removing an absent key changed the content: %s instead of %s' % (show_seq(w), show_seq(G)))
        chk_size(ctx, st, me, w, out)
        return out
    return check

def spec_len(kind):
    def check(ctx, f):
        st = f.st; v = f.val; out = []
        G = st.g['G']
        n = ctx.dom.count(G)
        if kind == 'len':
            if ctx.en.ladd(v, n, -1) != 0: out.append('len differs from the number of entries')
        else:
            if v is True and not all(False for a in G) and any(a[0] == 'E' or a in st.g['ne'] or True for a in G): out.append('is_empty is true while entries may be stored')
            if v is False and ctx.dom.may_empty(st, G): out.append('is_empty is false while no entry may be stored')
        unchanged(ctx, st, ('A', 'self'), out)
        return out
    return check

# iteration -----------------------------------------------------------------------------
def spec_iter(kind, setlike):
    def check(ctx, f):
        st = f.st; v = f.val; out = []
        G = st.g['G']
        me = st.mem[('A', 'self')]
        w = walk_struct(ctx, st, me)
        if is_none(v):
            if G: out.append('iteration ends although entries may remain')
            chk_size(ctx, st, me, w, out)
            return out
        x = v[3][0]
        kv = [(x, 'k')] if setlike else [(x[1][0], 'k'), (x[1][1], 'val')]
        if not G: out.append('yields an entry from an empty iterator'); return out
        e = G[0] if kind == 'next' else G[-1]
        rest = G[1:] if kind == 'next' else G[:-1]
        for y, what in kv:
            if y == UNIT: continue
            if not (e[0] == 'E' and y[0] == 'op' and y[1] == (what, e[1])):
                out.append('yields a %s that is not the %s remaining one' % ('key' if what == 'k' else 'value', 'smallest' if kind == 'next' else 'largest'))
        if w != rest: out.append('after yielding an entry the iterator holds %s instead of %s' % (show_seq(w), show_seq(rest)))
        chk_size(ctx, st, me, w, out)
        return out
    return check

def spec_hint(ctx, f):
    st = f.st; v = f.val; out = []
    n = ctx.dom.count(st.g['G'])
    lo, hi = v[1]
    if ctx.en.ladd(lo, n, -1) != 0: out.append('size_hint lower bound is not the number of remaining entries')
    if not is_some(hi) or ctx.en.ladd(hi[3][0], n, -1) != 0: out.append('size_hint upper bound is not the number of remaining entries')
    unchanged(ctx, st, ('A', 'self'), out)
    return out

# iterator methods that the crate overrides although it need not
def spec_nth(back, n, setlike):
    def check(ctx, f):
        st = f.st; v = f.val; out = []
        G = st.g['G'][::-1] if back else st.g['G']
        w = walk_struct(ctx, st, st.mem[('A', 'self')])
        if is_none(v):
            if len(G) > n or any(a[0] == 'S' for a in G): out.append('skipping ahead finds nothing although entries may remain')
            if w: out.append('entries remain after skipping past the end')
            chk_size(ctx, st, st.mem[('A', 'self')], w, out)
            return out
        x = v[3][0]
        y = x if setlike else x[1][0]
        if y != UNIT and y[0] == 'op' and y[1][0] == 'k' and ('E', y[1][1]) in G:
            before = G[:G.index(('E', y[1][1]))]
            lo = sum(1 for a in before if a[0] == 'E' or a in st.g['ne'])
            if lo > n or lo != n and all(a[0] == 'E' for a in before): return ['skipping %d entries yields another than the next one' % n]
        if any(a[0] != 'E' for a in G[:n + 1]) or len(G) <= n: raise Undecided('entries yielded are not singled out')
        rest = G[n + 1:]
        if back: rest = rest[::-1]
        chk_item(x, G[n], setlike, out)
        if w != rest: out.append('after skipping ahead the iterator holds %s instead of %s' % (show_seq(w), show_seq(rest)))
        chk_size(ctx, st, st.mem[('A', 'self')], w, out)
        return out
    return check

def chk_item(x, e, setlike, out):
    kv = [(x, 'k')] if setlike else [(x[1][0], 'k'), (x[1][1], 'val')]
    for y, what in kv:
        if y != UNIT and not (e[0] == 'E' and y[0] == 'op' and y[1] == (what, e[1])): out.append('yields an entry that is not the one due')

def spec_last(setlike):
    def check(ctx, f):
        out = []; G = f.st.g['G']
        if is_none(f.val):
            if G: out.append('finds no last entry although entries may remain')
        elif not G: out.append('yields an entry from an empty iterator')
        else: chk_item(f.val[3][0], G[-1], setlike, out)
        return out
    return check

def spec_count(ctx, f):
    n = ctx.dom.count(f.st.g['G'])
    return ['counts something else than the entries remaining'] if ctx.en.ladd(f.val, n, -1) != 0 else []

def step_model(ctx, back):
    """next / next_back of an owning iterator as the step S05 establishes for it"""
    dom = ctx.dom
    def f(en, st, c):
        base, path, _ = en.deref(st, c.args[0])
        v = en.read(st, base, path)
        cs = cells(ctx, st, v)
        if len(cs) != 1 or (cs[0] != NONE and cs[0][0] != 'tree'): raise Undecided('iterator state')
        at = cs[0][1] if cs[0] != NONE else ()
        if not at: return NONE
        e = at[-1] if back else at[0]
        if e[0] == 'S':
            lab = st.g['lab']
            def z(s): dom.make_empty(s, e)
            def nz(s):
                n = ('E', s.fresh()); r = ('S', s.fresh())
                l = dict(s.g['lab']); m = l.pop(e); l[n] = m; l[r] = m
                dom.subst(s, e, (r, n) if back else (n, r))
                s.g['lab'] = l; s.g['ne'] = s.g['ne'] - {e}
            alts = [('another entry is left', nz)]
            if e not in st.g['ne']: alts.append(('no entry is left', z))
            raise Fork(alts, 'shape')
        rest = at[:-1] if back else at[1:]
        nt = dom.node(cs[0][2])
        def g(x):
            if x == cs[0]: return ('tree', rest, x[2]) if rest else NONE
            if isinstance(x, int) and not isinstance(x, bool): return x - 1
            if isinstance(x, tuple) and x and x[0] == 'lin': return en.ladd(x, 1, -1)
            if isinstance(x, tuple) and x and x[0] == 'adt' and x[1] != OPT: return ('adt', x[1], x[2], tuple(g(y) for y in x[3]))
            return x
        en.write(st, base, path, g(v))
        t = en.T[c.c['ret']]
        k, w = dom.key_of(nt, e[1]), dom.val_of(nt, e[1])
        it = en.T[t['args'][0]]
        return some(('tup', (k, w)) if it['k'] == 'tuple' else k)
    return f

def overrides(rep, prog, adt, setlike, rule):
    steps = []
    for a in (TITER, SITER):
        for n, t in (('next', NEXT), ('next_back', BACK)):
            steps += [(r, n == 'next_back') for r in prog.find(n, a, t)]
    for r in prog.roots:
        if r['self_ty'] is None or prog.T[r['self_ty']].get('def') != adt: continue
        if r['impl_trait'] is None or '::iter::' not in r['impl_trait'] or r['name'] in ('next', 'next_back', 'size_hint'): continue
        back = r['name'].endswith('_back')
        def run(extra, chk):
            ctx = Ctx(prog, None)
            if 'nth' in r['name']: ctx.en.hooks.pop('loop', None); ctx.en.max_visits = 8
            for q, bk in steps: ctx.en.models[q['def']] = step_model(ctx, bk)
            try: st = start(ctx, r, extra)
            except Undecided as u: rep.undecided(r['def'], str(u)); return
            explore(rep, ctx.en, [st], pretty(r), rule, lambda f: chk(ctx, f))
        if r['name'] in ('nth', 'nth_back'):
            for n in (0, 1, 2): run(lambda st: [n], spec_nth(back, n, setlike))
        elif r['name'] == 'last': run(nokey, spec_last(setlike))
        elif r['name'] in ('count', 'len'): run(nokey, spec_count)
        elif r['name'] == 'is_empty': run(nokey, spec_len('empty'))
        else: rep.undecided(r['def'], 'no specification of this iterator method')

def spec_into(ctx, f):
    st = f.st; v = f.val; out = []
    w = walk_struct(ctx, st, v)
    if w != st.g['G']: out.append('into_iter holds %s instead of %s' % (show_seq(w), show_seq(st.g['G'])))
    chk_size(ctx, st, v, w, out)
    return out

def spec_clear(ctx, f):
    st = f.st; out = []
    me = st.mem[('A', 'self')]
    w = walk_struct(ctx, st, me)
    if w: out.append('entries remain after clear: %s' % show_seq(w))
    for s in sizes(me):
        if s != 0: out.append('the element count is not zero after clear')
    return out

def spec_nodeep(ctx, f):
    out = []
    for e in f.st.trace:
        if e[0] == 'deepdrop': out.append('a subtree of unbounded depth is released by recursive drop glue')
    return out

# whole values --------------------------------------------------------------------------
def drop_value(rep, prog, adt, rule):
    """drop an arbitrary value of the type (its Drop impl if any, then drop glue)"""
    import natives
    ctx = Ctx(prog, None)
    ty = next(i for i, t in enumerate(prog.T) if t['k'] == 'adt' and t['def'] == adt and all(prog.T[a]['k'] == 'param' for a in t['args'] ))
    st = State(); ctx.dom.init(st)
    v = build(ctx, st, ty)
    st.mem[('A', 'ret')] = UNINIT
    natives.push_drop(ctx.en, st, v, (('A', 'ret'), ()), None, '')
    ctx.dom.keepalive = True
    explore(rep, ctx.en, [st], 'drop of %s' % adt, rule, lambda f: spec_nodeep(ctx, f))

def new_empty(rep, prog, adt, rule):
    ctx = Ctx(prog, None)
    r = getroot(prog, 'new', adt)
    st = State(); ctx.dom.init(st); st.g['G'] = (); st.g['lab'] = {}
    body = prog.body_of(r)
    st.mem[('A', 'ret')] = UNINIT
    if body['argc'] != 1: raise Anchor('new of %s' % adt)
    ctx.en.push(st, body, [('op', ('cmp',), body['locals'][1])], (('A', 'ret'), ()), None)
    def check(f):
        out = []
        w = walk_struct(ctx, f.st, f.val)
        if w: out.append('a new tree is not empty')
        for s in sizes(f.val):
            if s != 0: out.append('a new tree does not have count zero')
        return out
    explore(rep, ctx.en, [st], pretty(r), rule, check)

def extend(rep, prog, adt, ins, nargs):
    """Extend: each item of the input reaches insert once, in order, with key and value in place"""
    r = getroot(prog, 'extend', adt, 'core::iter::traits::collect::Extend')
    ctx = Ctx(prog, None)
    en = ctx.en; en.hooks.pop('loop', None); en.max_visits = 6
    st = State(); ctx.dom.init(st)
    body = prog.body_of(r)
    v = build(ctx, st, prog.T[body['locals'][1]]['to'])
    st.mem[('A', 'self')] = v; st.mem[('A', 'ret')] = UNINIT
    en.models.update(ITM); en.models[('core::iter::traits::collect::IntoIterator', 'into_iter')] = lambda en, st, c: c.args[0]
    insroot = {getroot(prog, ins, TREE)['def'], getroot(prog, ins, SET)['def']}
    def insm(en, st, c):
        st.emit('insert', c.args[0], *c.args[1:])
        t = en.T[c.c['ret']]
        return ('op', ('insres', st.fresh()), c.c['ret'])
    for c in callees(prog):
        if c.get('rdef') in insroot or c.get('def') in insroot:
            en.models[c.get('rdef') or c.get('def')] = insm
            if c.get('rpath'): en.models[c['rpath']] = insm
    states = []
    for n in range(4):
        s = st.copy(); s.g['items'] = n
        its = tuple(('op', ('itemk', i), None) if nargs == 1 else ('tup', (('op', ('itemk', i), None), ('op', ('itemv', i), None))) for i in range(n))
        en.push(s, body, [('ref', ('A', 'self'), (), None), it(its)], (('A', 'ret'), ()), None)
        states.append(s)
    def check(f):
        out = []
        got = [e for e in f.st.trace if e[0] == 'insert']
        n = f.st.g.get('items', 0)
        if len(got) != n: out.append('extend takes %d items from its input but performs %d insertions' % (n, len(got)))
        for i, e in enumerate(got[:n]):
            if e[1][0] != 'ref' or e[1][1] != ('A', 'self'): out.append('extend inserts into something else than the collection')
            want = [('itemk', i)] + ([('itemv', i)] if nargs == 2 else [])
            have = [x[1] if x[0] == 'op' else x for x in e[2:] if x != UNIT]
            if have[:len(want)] != want: out.append('extend does not insert the items as given, in input order')
        return out
    explore(rep, en, states, pretty(r), 'extend inserts every item of its input', check)

def extend_one(rep, prog, adt, setlike):
    """Extend with one item, down to the nodes of an arbitrary tree"""
    r = getroot(prog, 'extend', adt, 'core::iter::traits::collect::Extend')
    ctx = Ctx(prog, None)
    en = ctx.en
    st = State(); ctx.dom.init(st)
    body = prog.body_of(r)
    v = build(ctx, st, prog.T[body['locals'][1]]['to'])
    st.mem[('A', 'self')] = v; st.mem[('A', 'ret')] = UNINIT
    en.models.update(ITM); en.models[('core::iter::traits::collect::IntoIterator', 'into_iter')] = lambda en, st, c: c.args[0]
    one = ('op', ('Q',), None) if setlike else ('tup', (('op', ('Q',), None), ('op', ('newval',), None)))
    en.push(st, body, [('ref', ('A', 'self'), (), None), it((one,))], (('A', 'ret'), ()), None)
    ins = spec_insert(setlike)
    def check(f):
        q = eq_status(f.st)
        if q[0] == 'open': return ['extend completes without having decided whether the key is present']
        old = ('op', ('val', q[1][1]), None) if q[0] == 'one' else None
        g = Final(f.kind, f.st, (q[0] == 'none') if setlike else some(old) if old else NONE, f.why)
        return ins(ctx, g)
    explore(rep, en, [st], pretty(r), 'extending by one item inserts it', check)

_CALLEES = {}
def callees(prog):
    k = id(prog)
    if k not in _CALLEES:
        out = []
        for b in prog.bodies:
            for bl in b.get('blocks', ()):
                if bl and bl['t'][0] == 'call': out.append(bl['t'][1])
        _CALLEES[k] = out
    return _CALLEES[k]

# entries stay where they are ---------------------------------------------------------------
def entry_fields(nt, n):
    """entries whose key or value this node holds"""
    out = []
    for i, what in ((nt.key, 'k'), (nt.value, 'val')):
        if i is None: continue
        v = n[3][i]
        if isinstance(v, tuple) and v and v[0] == 'op' and v[1][0] == what: out.append((what, v[1][1]))
    return out

def watch_moves(ctx, moves):
    """record every write that puts an entry's key or value into another place than the node holding it"""
    en = ctx.en
    write = en.write
    def node(v):
        if isinstance(v, tuple) and len(v) == 4 and v[0] == 'adt':
            for nt in ctx.dom.nodes.values():
                if nt.defn == v[1]: return nt
        return None
    def w(st, base, path, val):
        old = st.mem.get(base) if base[0] == 'H' else None
        nt = node(old)
        write(st, base, path, val)
        if nt is None: return
        new = st.mem.get(base)
        if not node(new): return
        a, b = entry_fields(nt, old), entry_fields(nt, new)
        for x in b:
            if x not in a: moves.append(('the %s of a stored entry is moved into another node' % ('key' if x[0] == 'k' else 'value'), st.log))
        for i in (nt.key, nt.value):
            if i is not None and old[3][i] != new[3][i] and new[3][i] != UNINIT and old[3][i] != UNINIT and not (set(b) - set(a)):
                moves.append(('a stored entry is overwritten', st.log))
    en.write = w
    import natives
    def box_new(en_, st, c):
        nt = node(c.args[0])
        if nt is not None and entry_fields(nt, c.args[0]): moves.append(('a stored entry is moved into a new node', st.log))
        i = st.fresh(); st.mem[('H', i)] = c.args[0]
        return ('box', i)
    for nm in ('std::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::new'): en.models[nm] = box_new
    return moves

def shared_methods(prog, adts):
    """every method that takes a tree or set by shared reference, and how to call it"""
    out = []
    for r in prog.roots:
        if r['self_ty'] is None or prog.T[r['self_ty']].get('def') not in adts or not r['ins']: continue
        if r['impl_trait'] in ('core::fmt::Debug',): continue
        t = prog.T[r['ins'][0]]
        if t['k'] != 'ref' or t.get('mut') or prog.T[t['to']].get('def') not in adts: continue
        rest = [prog.T[i] for i in r['ins'][1:]]
        if not rest: out.append((r, nokey))
        elif len(rest) == 1 and rest[0]['k'] == 'ref' and not rest[0].get('mut'): out.append((r, query))
        else: out.append((r, None))
    return out

def stay_put(rep, prog, rule):
    for r, extra in shared_methods(prog, (TREE, SET)):
        name = pretty(r)
        if extra is None: rep.undecided(name, 'arguments not understood'); continue
        ctx = Ctx(prog, None); moves = watch_moves(ctx, [])
        try: st = start(ctx, r, extra)
        except Undecided as u: rep.undecided(name, str(u)); continue
        explore(rep, ctx.en, [st], name, rule, lambda f: [], lambda f: None)
        for m, log in moves: rep.violation(name, rule, m, log)
