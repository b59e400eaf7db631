"""mai: a disjunctive abstract interpreter over the MIR dump written by /verif/driver.

Abstract values are immutable tuples:
  int / bool                     known scalars
  ('lin', c, ((term,k),...))     integers: constant plus unknowns
  ('op', term, ty)               an unknown value named by a term, expanded lazily by its type
  ('adt', def, variant, fields)  struct / enum value
  ('tup', vals) ('clos', def, upvars, body) ('fn', callee)
  ('seq', kind, items)           vectors, arrays, deques, maps ... with known length
  ('ref', base, path, view)      reference into abstract memory, ('box', id) owning pointer
  ('uninit',)
Undecided branches fork the abstract state; comparisons of unknowns are decided by a finite
ordering domain (class Order).  Nothing of the analysed program is ever executed.
"""
import json, sys
import arith
sys.setrecursionlimit(20000)

UNINIT = ('uninit',)
UNIT = ('tup', ())

import os
DEBUG = bool(os.environ.get('VERIF_DEBUG'))

class Undecided(Exception):
    pass
class Infeasible(Exception):
    pass
class Fork(Exception):
    """alternatives: list of (label, refine(state)->False if contradictory)"""
    def __init__(self, alts, what=''):
        self.alts = alts; self.what = what

# ---------------------------------------------------------------------------- program
def signed(adt, d):
    # discriminants come as raw bits; the only signed narrow one in use is Ordering (i8)
    if adt == 'core::cmp::Ordering' and d >= 128: return d - 256
    return d - (1 << 64) if d >= (1 << 63) else d

class Prog:
    def __init__(self, path):
        import aliases
        d, self.alias_notes = aliases.resolve(open(path).read())
        self.T = d['types']; self.bodies = d['bodies']; self.roots = d['roots']
        self.adts = d['adts']; self.impls = d['impls']; self.crate = d['crate']
        self.discr = {}
        self.variants = {}
        for t in self.T:
            if t['k'] == 'adt' and t['def'] not in self.discr:
                self.discr[t['def']] = [signed(t['def'], int(v['discr'])) for v in t['variants']]
                self.variants[t['def']] = [v['name'] for v in t['variants']]
        self.dropimpl = {}
        for r in self.roots:
            if r['impl_trait'] == 'core::ops::drop::Drop' and r['name'] == 'drop':
                self.dropimpl[self.T[r['self_ty']]['def']] = r
        self._fieldidx = {}
        for t in self.T:
            if t['k'] == 'adt':
                for vi, v in enumerate(t['variants']):
                    for fi, f in enumerate(v['fields']):
                        self._fieldidx[(t['def'], vi, f[0])] = fi

    def fidx(self, adt, name, variant=0):
        k = (adt, variant, name)
        if k not in self._fieldidx:
            raise KeyError('anchor: field %s of %s not found' % (name, adt))
        return self._fieldidx[k]

    def vidx(self, adt, name):
        return self.variants[adt].index(name)

    def find(self, name, self_def=None, trait=None, module=None, pred=None):
        """local functions by name, impl self type (canonical def) and trait"""
        out = []
        for r in self.roots:
            a = r.get('alias')
            if a is not None:
                # an item renamed or moved since the specifications were written
                if a['name'] == name and self_def in (None, a['self']) and trait is None and (module is None or module in a['mod']) and (pred is None or pred(r)): out.append(r)
                continue
            if r['name'] != name: continue
            if self_def is not None:
                if r['self_ty'] is None: continue
                t = self.T[r['self_ty']]
                if t.get('def') != self_def: continue
            if trait is not None and r['impl_trait'] != trait: continue
            if trait is None and self_def is not None and r['impl_trait'] is not None: continue
            if module is not None and module not in r['def']: continue
            if pred is not None and not pred(r): continue
            out.append(r)
        return out

    def body_of(self, r):
        return self.bodies[r['body']]

    def next_for(self, c):
        """the call that steps the iterator given to this callee"""
        it = c.c.get('iters') or {}
        src = c.args[-1]
        d = src[1] if isinstance(src, tuple) and src[0] == 'adt' else None
        cand = [(t, m['next']) for t, m in it.items() if 'next' in m]
        if len(cand) > 1 and d is not None: cand = [x for x in cand if self.T[int(x[0])].get('def') == d] or cand
        if len(cand) != 1: return None
        return self.item(cand[0][1], 'next')
    def item(self, m, name):
        """a callee made of an entry of the driver's table of iterator methods"""
        b, path = m[:2]
        k = {'kind': 'item', 'def': path, 'rdef': path, 'path': path, 'rpath': path, 'name': name, 'ret': None}
        if b >= 0: k['body'] = b
        if len(m) > 2: k.update(m[2])
        return k

# ---------------------------------------------------------------------------- ordering domain
LT, EQ, GT = 1, 2, 4
def inv(m):
    return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)
_COMP = {}
def comp(a, b):
    k = (a, b)
    r = _COMP.get(k)
    if r is None:
        r = 0
        for x in (1, 2, 4):
            if not a & x: continue
            for y in (1, 2, 4):
                if not b & y: continue
                if x == 2: r |= y
                elif y == 2: r |= x
                elif x == y: r |= x
                else: r |= 7
        _COMP[k] = r
    return r

class Order:
    """finite set of terms under a total order, with what is known of each pair (path-consistent)"""
    __slots__ = ('rel', 'nodes', 'uf')
    def __init__(self, o=None):
        if o is None:
            self.rel = {}; self.nodes = (); self.uf = {}
        else:
            self.rel = dict(o.rel); self.nodes = o.nodes; self.uf = dict(o.uf)
    def rep(self, t):
        uf = self.uf
        while t in uf: t = uf[t]
        if uf and isinstance(t, tuple) and t and isinstance(t[0], str):
            n = tuple(self.rep(x) if isinstance(x, tuple) else x for x in t)
            if n != t:
                return self.rep(n)
        return t
    def mask(self, a, b):
        a = self.rep(a); b = self.rep(b)
        if a == b: return EQ
        return self.rel.get((a, b), 7)
    def add(self, a, b, m):
        a = self.rep(a); b = self.rep(b)
        if a == b: return bool(m & EQ)
        for x in (a, b):
            if x not in self.nodes: self.nodes = self.nodes + (x,)
        cur = self.rel.get((a, b), 7)
        n = cur & m
        if n == 0: return False
        if n == EQ:
            return self._merge(a, b)
        if n == cur: return True
        return self._set(a, b, n)
    def _set(self, a, b, m):
        q = [(a, b, m)]
        rel = self.rel
        while q:
            a, b, m = q.pop()
            cur = rel.get((a, b), 7)
            n = cur & m
            if n == 0: return False
            if n == cur: continue
            rel[(a, b)] = n; rel[(b, a)] = inv(n)
            for c in self.nodes:
                if c == a or c == b: continue
                bc = rel.get((b, c), 7)
                x = comp(n, bc)
                if x != 7 and (rel.get((a, c), 7) & x) != rel.get((a, c), 7): q.append((a, c, x))
                ca = rel.get((c, a), 7)
                y = comp(ca, n)
                if y != 7 and (rel.get((c, b), 7) & y) != rel.get((c, b), 7): q.append((c, b, y))
        return True
    def _merge(self, a, b):
        # keep the structurally smaller term as representative
        if len(repr(a)) > len(repr(b)): a, b = b, a
        moved = []
        for c in self.nodes:
            if c != a and c != b:
                m = self.rel.pop((b, c), None); self.rel.pop((c, b), None)
                if m is not None: moved.append((c, m))
        self.rel.pop((a, b), None); self.rel.pop((b, a), None)
        self.nodes = tuple(x for x in self.nodes if x != b)
        self.uf[b] = a
        for c, m in moved:
            if not self.add(a, c, m): return False
        # congruence: representatives of other nodes may have changed
        for c in self.nodes:
            r = self.rep(c)
            if r != c:
                rest = [(d, self.rel.pop((c, d), None), self.rel.pop((d, c), None)) for d in self.nodes if d != c]
                self.nodes = tuple(x for x in self.nodes if x != c)
                for d, m, _ in rest:
                    if m is not None and not self.add(r, d, m): return False
        for c in list(self.nodes):
            for d in list(self.nodes):
                m = self.rel.get((c, d))
                if m == EQ and c != d: return self._merge(c, d)
        # equality facts can sharpen the rest
        for c in list(self.nodes):
            for d in list(self.nodes):
                m = self.rel.get((c, d))
                if m is not None and m != 7:
                    for e in self.nodes:
                        if e in (c, d): continue
                        x = comp(m, self.rel.get((d, e), 7))
                        if x != 7 and not self.add(c, e, x): return False
        return True

# ---------------------------------------------------------------------------- state
class Frame:
    __slots__ = ('body', 'bb', 'uid', 'dest', 'target', 'visits', 'native', 'data', 'pend', 'span', 'drop')
    def __init__(self):
        self.native = None; self.data = None; self.pend = None; self.visits = {}; self.span = ''; self.drop = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.body = self.body; f.bb = self.bb; f.uid = self.uid; f.dest = self.dest; f.target = self.target
        f.visits = dict(self.visits); f.native = self.native; f.data = self.data; f.pend = self.pend; f.span = self.span
        f.drop = self.drop
        return f

class State:
    __slots__ = ('frames', 'mem', 'mat', 'ord', 'g', 'trace', 'log', 'ctr', 'types')
    def __init__(self):
        self.frames = []; self.mem = {}; self.mat = {}; self.ord = Order(); self.g = {}
        self.trace = (); self.log = (); self.ctr = 0
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.mat = dict(self.mat)
        s.ord = Order(self.ord); s.g = dict(self.g); s.trace = self.trace; s.log = self.log; s.ctr = self.ctr
        return s
    def fresh(self):
        self.ctr += 1
        return ('#', self.ctr)
    def alloc(self, v, tag='H'):
        b = (tag, self.fresh())
        self.mem[b] = v
        return b
    def emit(self, *ev):
        self.trace = self.trace + (ev,)

class Final:
    def __init__(self, kind, st, val=None, why=''):
        self.kind = kind; self.st = st; self.val = val; self.why = why

def state_sig(st):
    """what the rest of a run depends on, with allocations numbered as they are met: the interpreter is a function of it"""
    names = {}; out = []; queue = []
    def name(k):
        if k not in names:
            names[k] = len(names); queue.append(k)
        return names[k]
    uids = {fr.uid: i for i, fr in enumerate(st.frames)}
    def walk(v):
        if not isinstance(v, tuple) or not v: return v if isinstance(v, (int, str, bool, type(None))) else repr(v)
        if v[0] == 'ref' and len(v) == 4: return ('ref', name(v[1]), walk(v[2]), walk(v[3]))
        if v[0] == 'box' and len(v) == 2 and ('H', v[1]) in st.mem: return ('box', name(('H', v[1])))
        return tuple(walk(x) for x in v)
    for fr in st.frames:
        out.append((fr.body['id'] if fr.body else fr.native, fr.bb, fr.dest and (name(fr.dest[0]), walk(fr.dest[1])), fr.target, walk(fr.data) if fr.data is not None else None, repr(fr.pend), repr(fr.drop)))
        if fr.body:
            for i in range(len(fr.body['locals'])): out.append(walk(st.mem.get(('L', fr.uid, i))))
    i = 0
    while i < len(queue):
        k = queue[i]; i += 1
        out.append(walk(st.mem.get(k)))
    return hash((tuple(map(repr, out)), repr(sorted(map(repr, st.g.items()))), repr(sorted(map(repr, st.mat.items()))), len(st.trace), len(st.log)))

# ---------------------------------------------------------------------------- engine
def loop_heads(body):
    """targets of back edges (DFS)"""
    if '_heads' in body: return body['_heads']
    heads = set(); color = {}
    succ = [succs(b['t']) if b else [] for b in body['blocks']]
    stack = [(0, iter(succ[0]))]; color[0] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1; stack.append((s, iter(succ[s]))); break
            if c == 1: heads.add(s)
        else:
            color[n] = 2; stack.pop()
    body['_heads'] = heads
    return heads

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[5]] if t[5] is not None else []
    if k == 'assert': return [t[4]]
    return []

def _places_in(o, out):
    if isinstance(o, dict):
        for k, v in o.items():
            if k == 'p': _pl(v, out)
            elif k in ('c', 'm'): pass
            else: _places_in(v, out)
    elif isinstance(o, list):
        for v in o: _places_in(v, out)

def _pl(p, out):
    out.add(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == 'i': out.add(e[1])

def liveness(body):
    """live-in locals per block (address-taken locals are handled by reachability)"""
    if '_live' in body: return body['_live']
    n = len(body['blocks'])
    use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
    for i, b in enumerate(body['blocks']):
        if not b: continue
        u, d = use[i], dfn[i]
        def uses(o):
            s = set(); _places_in(o, s)
            for x in s:
                if x not in d: u.add(x)
        for s in b['s']:
            if s[0] == '=':
                r = s[2]
                if r[0] in ('ref', 'discr'):
                    q = set(); _pl(r[2] if r[0] == 'ref' else r[1], q)
                    for x in q:
                        if x not in d: u.add(x)
                else: uses(r)
                if len(s[1]) > 1:
                    q = set(); _pl(s[1], q)
                    for x in q:
                        if x not in d: u.add(x)
                else: d.add(s[1][0])
            elif s[0] == 'setd':
                q = set(); _pl(s[1], q)
                for x in q:
                    if x not in d: u.add(x)
        t = b['t']
        if t[0] == 'switch': uses([t[1]])
        elif t[0] == 'call':
            uses([t[2], t[3]])
            if len(t[4]) > 1:
                q = set(); _pl(t[4], q)
                for x in q:
                    if x not in d: u.add(x)
            else: d.add(t[4][0])
        elif t[0] == 'drop':
            q = set(); _pl(t[1], q)
            for x in q:
                if x not in d: u.add(x)
        elif t[0] == 'assert': uses([t[1]])
        elif t[0] == 'return':
            if 0 not in d: u.add(0)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            b = body['blocks'][i]
            if not b: continue
            out = set()
            for s in succs(b['t']): out |= live[s]
            new = use[i] | (out - dfn[i])
            if new != live[i]: live[i] = new; ch = True
    body['_live'] = live
    return live

PANICS = ('core::panicking::', 'std::rt::begin_panic', 'std::option::unwrap_failed', 'std::option::expect_failed',
          'std::result::unwrap_failed', 'core::option::', 'std::rt::panic', 'std::panicking::')

class Engine:
    def __init__(self, prog, models=None, max_visits=8, max_states=60000, max_depth=60):
        self.p = prog; self.T = prog.T
        self.models = dict(models or {})       # name -> handler
        self.max_visits = max_visits; self.max_states = max_states; self.max_depth = max_depth
        self.hooks = {}                        # 'discr', 'drop', 'loop', 'field'
        self.visited = {}
        self.stats = {'states': 0, 'forks': 0, 'calls': {}, 'pruned': 0, 'bodies': set()}
        self.used_models = set()
        import natives, colls
        self.natives = natives.TABLE
        self.natmod = natives

    # -- values
    def ty(self, i): return self.T[i]

    def adt_of(self, ty): return self.T[ty]['def']

    def norm(self, st, t):
        return st.ord.rep(t)

    def term(self, st, v):
        """a term naming a value"""
        if isinstance(v, bool): return ('b', v)
        if isinstance(v, int): return ('i', v)
        k = v[0]
        if k == 'op': return st.ord.rep(v[1])
        if k == 'lin':
            return ('lin', v[1], tuple((st.ord.rep(t), c) for t, c in v[2]))
        if k == 'adt':
            ts = tuple(self.term(st, f) for f in v[3])
            if ts and all(t[0] == 'f' and t[2] == i and t[1] == ts[0][1] for i, t in enumerate(ts)):
                return st.ord.rep(ts[0][1])
            return st.ord.rep(('mk', v[1], v[2]) + ts)
        if k == 'tup':
            return ('mk', 'tup', 0) + tuple(self.term(st, f) for f in v[1])
        if k == 'ref':
            return self.term(st, self.read(st, v[1], v[2]))
        if k == 'box':
            return self.term(st, st.mem[('H', v[1])])
        if k == 'seq':
            return ('seq', v[1]) + tuple(self.term(st, f) for f in v[2])
        if k == 'clos' or k == 'fn': return ('fnval', v[1] if k == 'clos' else 'fn')
        raise Undecided('no term for value %r' % (v[0],))

    def expand(self, st, v):
        """turn an opaque struct / tuple / materialised enum into explicit fields"""
        if v[0] != 'op': return v
        t = self.T[v[2]]
        term = v[1]
        if t['k'] == 'adt':
            if t['box']:
                b = ('H', ('bx', term))
                if b not in st.mem:
                    st.mem[b] = ('op', ('*', term), t['args'][0])
                return ('box', ('bx', term))
            if t['enum']:
                m = st.mat.get(self.norm(st, term))
                if m is None: raise Undecided('enum %s not yet split' % t['s'])
                var = t['variants'][m]
                return ('adt', t['def'], m, tuple(('op', ('f', term, i, m), f[1]) for i, f in enumerate(var['fields'])))
            var = t['variants'][0]
            return ('adt', t['def'], 0, tuple(('op', ('f', term, i), f[1]) for i, f in enumerate(var['fields'])))
        if t['k'] == 'tuple':
            return ('tup', tuple(('op', ('f', term, i), x) for i, x in enumerate(t['args'])))
        if t['k'] == 'closure':
            raise Undecided('opaque closure')
        raise Undecided('cannot expand opaque %s' % t['s'])

    def child(self, st, v, e):
        k = v[0] if isinstance(v, tuple) else None
        if e[0] == 'f':
            i = e[1]
            if k == 'adt': return v[3][i]
            if k == 'tup': return v[1][i]
            if k == 'clos': return v[2][i]
            if k == 'box': return v
            if k == 'ref': return v       # NonNull / Unique wrappers around raw pointers
            if k == 'op':
                t = self.T[v[2]]
                if t['k'] == 'adt' and not t['enum'] and not t['box']:
                    return ('op', ('f', v[1], i), t['variants'][0]['fields'][i][1])
                return self.child(st, self.expand(st, v), e)
            h = self.hooks.get('field')
            if h:
                r = h(self, st, v, e)
                if r is not None: return r
            raise Undecided('field %r of %r' % (i, k))
        if e[0] == 'i':
            if k == 'seq':
                if not (0 <= e[1] < len(v[2])): raise Undecided('index out of modelled range')
                return v[2][e[1]]
            raise Undecided('index of %r' % (k,))
        raise Undecided('projection %r' % (e,))

    def read(self, st, base, path):
        if base not in st.mem: raise Undecided('read of unknown memory %r' % (base,))
        v = st.mem[base]
        for e in path:
            v = self.child(st, v, e)
        return v

    def _set(self, st, v, path, val):
        if not path: return val
        e = path[0]
        if v[0] == 'op': v = self.expand(st, v)
        sub = self._set(st, self.child(st, v, e), path[1:], val)
        i = e[1]
        if v[0] == 'adt': return ('adt', v[1], v[2], v[3][:i] + (sub,) + v[3][i+1:])
        if v[0] == 'tup': return ('tup', v[1][:i] + (sub,) + v[1][i+1:])
        if v[0] == 'clos': return ('clos', v[1], v[2][:i] + (sub,) + v[2][i+1:], v[3])
        if v[0] == 'seq': return ('seq', v[1], v[2][:i] + (sub,) + v[2][i+1:]) + v[3:]
        raise Undecided('write into %r' % (v[0],))

    def write(self, st, base, path, val):
        if not path: st.mem[base] = val
        else:
            if base not in st.mem: raise Undecided('write of unknown memory %r' % (base,))
            st.mem[base] = self._set(st, st.mem[base], path, val)
        h = self.hooks.get('write')
        if h: h(self, st, base, path, val)

    def deref(self, st, v):
        """value of pointer type -> (base, path, view)"""
        if v[0] == 'ref': return v[1], v[2], v[3]
        if v[0] == 'box': return ('H', v[1]), (), None
        if v[0] == 'op':
            t = self.T[v[2]]
            if t['k'] in ('ref', 'ptr'):
                b = ('D', self.norm(st, v[1]))
                if b not in st.mem: st.mem[b] = ('op', ('*', v[1]), t['to'])
                return b, (), None
            if t['k'] == 'adt' and t['box']:
                x = self.expand(st, v)
                return ('H', x[1]), (), None
        if v[0] == 'adt' and len(v[3]) >= 1:
            return self.deref(st, v[3][0])
        raise Undecided('deref of %r' % (v[0],))

    def concretise(self, st, base, path):
        """force an explicit variant at a place (forks on an undecided enum)"""
        v = self.read(st, base, path)
        if v[0] == 'adt': return v
        if v[0] == 'op':
            t = self.T[v[2]]
            if t['k'] == 'adt' and t['enum']:
                self.split_enum(st, v)
            v = self.expand(st, v)
            self.write(st, base, path, v)
            return v
        h = self.hooks.get('discr')
        if h:
            return h(self, st, base, path, v)
        raise Undecided('variant of %r' % (v[0],))

    def split_enum(self, st, v):
        term = self.norm(st, v[1])
        if term in st.mat: return st.mat[term]
        t = self.T[v[2]]
        h = self.hooks.get('split')
        if h:
            r = h(self, st, term, t)
            if r is not None:
                st.mat[term] = r
                return r
        alts = []
        for i, var in enumerate(t['variants']):
            def ref(s, i=i):
                s.mat[term] = i
            alts.append(('%s is %s' % (show_term(term), var['name']), ref))
        raise Fork(alts, 'variant')

    def truth(self, st, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if v[0] == 'op':
            term = self.norm(st, v[1])
            m = st.mat.get(term)
            if m is not None: return bool(m)
            def a(s): s.mat[term] = True
            def b(s): s.mat[term] = False
            raise Fork([('%s = true' % show_term(term), a), ('%s = false' % show_term(term), b)], 'bool')
        raise Undecided('truth of %r' % (v[0],))

    # -- order queries
    def cmp3(self, st, ta, tb):
        """-1/0/1, forking when the ordering is unknown"""
        if arith.has(ta) or arith.has(tb): return arith.cmp(self, st, ta, tb, Undecided)
        m = st.ord.mask(ta, tb)
        if m == LT: return -1
        if m == EQ: return 0
        if m == GT: return 1
        alts = []
        for bit, s in ((LT, '<'), (EQ, '=='), (GT, '>')):
            if m & bit:
                alts.append(('%s %s %s' % (show_term(ta), s, show_term(tb)), lambda x, bit=bit: x.ord.add(ta, tb, bit)))
        raise Fork(alts, 'order')

    def cmpq(self, st, ta, tb, want):
        """is the relation within mask `want`?"""
        if arith.has(ta) or arith.has(tb): return bool({-1: LT, 0: EQ, 1: GT}[arith.cmp(self, st, ta, tb, Undecided)] & want)
        m = st.ord.mask(ta, tb)
        if m & ~want == 0: return True
        if m & want == 0: return False
        names = {1: '<', 2: '==', 3: '<=', 4: '>', 5: '!=', 6: '>='}
        if want in (EQ, EQ ^ 7):
            self.cmp3(st, ta, tb)
        return_alts = []
        for mm in (want, 7 ^ want):
            return_alts.append(('%s %s %s' % (show_term(ta), names[mm], show_term(tb)), lambda x, mm=mm: x.ord.add(ta, tb, mm)))
        raise Fork(return_alts, 'order')

    # -- integers
    def lin(self, v):
        if isinstance(v, bool): return ('lin', int(v), ())
        if isinstance(v, int): return ('lin', v, ())
        if v[0] == 'lin': return v
        if v[0] == 'op': return ('lin', 0, ((v[1], 1),))
        raise Undecided('integer of %r' % (v[0],))

    def mklin(self, c, d):
        ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=repr))
        if not ts: return c
        return ('lin', c, ts)

    def ladd(self, a, b, s=1):
        if isinstance(a, int) and isinstance(b, int): return a + s * b
        a = self.lin(a); b = self.lin(b)
        d = dict(a[2])
        for t, k in b[2]: d[t] = d.get(t, 0) + s * k
        return self.mklin(a[1] + s * b[1], d)

    def int_cmp_mask(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return LT if a < b else EQ if a == b else GT
        if not isinstance(a, int) and a[0] == 'op' and a[1] in st.mat: a = st.mat[a[1]]
        if not isinstance(b, int) and b[0] == 'op' and b[1] in st.mat: b = st.mat[b[1]]
        d = self.ladd(a, b, -1)
        if isinstance(d, int):
            return LT if d < 0 else EQ if d == 0 else GT
        m = st.ord.mask(self.term(st, self.simp(a)), self.term(st, self.simp(b)))
        h = self.hooks.get('intcmp')
        if h: m &= h(self, st, a, b, d)
        return m

    def simp(self, a):
        if not isinstance(a, int) and a[0] == 'lin' and a[1] == 0 and len(a[2]) == 1 and a[2][0][1] == 1:
            return ('op', a[2][0][0], None)
        return a

    def int_rel(self, st, a, b, want):
        m = self.int_cmp_mask(st, a, b)
        if m & ~want == 0: return True
        if m & want == 0: return False
        ta = self.term(st, self.simp(a)); tb = self.term(st, self.simp(b))
        names = {1: '<', 2: '==', 3: '<=', 4: '>', 5: '!=', 6: '>='}
        alts = []
        for mm in (want & m, m & ~want):
            if mm == 5:
                for x in (1, 4):
                    alts.append(('%s %s %s' % (show_term(ta), names[x], show_term(tb)), lambda s, x=x: s.ord.add(ta, tb, x)))
            else:
                alts.append(('%s %s %s' % (show_term(ta), names[mm], show_term(tb)), lambda s, mm=mm: s.ord.add(ta, tb, mm)))
        raise Fork(alts, 'int')

    # -- places and operands
    def place(self, st, fr, p):
        base = ('L', fr.uid, p[0]); path = (); view = None
        for e in p[1:]:
            if e == '*':
                v = self.read(st, base, path)
                if isinstance(v, tuple) and v[0] == 'op' and self.T[v[2]]['k'] == 'adt' and self.T[v[2]]['box']:
                    v = self.expand(st, v); self.write(st, base, path, v)
                base, path, view = self.deref(st, v)
            elif e[0] == 'f':
                v = self.read(st, base, path)
                if v[0] == 'uninit':
                    # field-wise initialisation
                    raise Undecided('field of uninitialised value')
                if v[0] == 'box':
                    path = path + (('f', e[1]),)
                else:
                    if v[0] == 'op':
                        t = self.T[v[2]]
                        if t['k'] == 'adt' and t['box']:
                            self.write(st, base, path, self.expand(st, v))
                    path = path + (('f', e[1]),)
            elif e[0] == 'd':
                self.concretise(st, base, path)
            elif e[0] == 'i':
                k = st.mem[('L', fr.uid, e[1])]
                if not isinstance(k, int): raise Undecided('index by unknown integer')
                path = path + (('i', k + (view[0] if view else 0)),)
                view = None
            elif e[0] == 'ci':
                lo, hi = self.bounds(st, base, path, view)
                k = hi - e[1] if e[3] else lo + e[1]
                path = path + (('i', k),); view = None
            elif e[0] == 'ss':
                lo, hi = self.bounds(st, base, path, view)
                view = (lo + e[1], hi - e[2] if e[3] else lo + e[2])
            else:
                raise Undecided('projection %r' % (e,))
        return base, path, view

    def bounds(self, st, base, path, view):
        if view: return view
        v = self.read(st, base, path)
        if v[0] == 'seq': return (0, len(v[2]))
        raise Undecided('length of %r' % (v[0],))

    def operand(self, st, fr, o):
        if 'p' in o:
            b, p, _ = self.place(st, fr, o['p'])
            v = self.read(st, b, p)
            if o.get('m') and not (isinstance(v, tuple) and v[0] == 'uninit'):
                self._moved.append((b, p))
            return v
        if 'rc' in o: return False      # a check of the compiler for undefined behaviour, off in release builds
        c = o['c']
        if 'fn' in c: return ('fn', FnKey(c['fn']))
        if 'v' in c:
            t = self.T[c['ty']]['s']
            if t == 'bool': return bool(c['v'])
            if t in ('f32', 'f64'): return ('op', ('flit', c['v'], t), c['ty'])
            return c['v']
        if 'promoted' in c: return self.promoted(st, c['promoted'])
        if 'ebits' in c:
            t = self.T[c['ty']]
            return self.enum_from_bits(t, c['ebits'])
        t = self.T[c['ty']]
        if c.get('zst'):
            if t['k'] == 'tuple' and not t['args']: return UNIT
            if t['k'] == 'adt' and not t['enum']: return ('adt', t['def'], 0, tuple(self.zst(f[1]) for f in t['variants'][0]['fields']))
            if t['k'] == 'closure': return ('clos', t['def'], (), c.get('cbody'))
            return ('op', ('const', t['s']), c['ty'])
        return ('op', ('const', c.get('uneval') or c.get('str') or t['s'], t['s']), c['ty'])

    def zst(self, ty):
        t = self.T[ty]
        if t['k'] == 'tuple' and not t['args']: return UNIT
        if t['k'] == 'adt' and not t['enum']: return ('adt', t['def'], 0, tuple(self.zst(f[1]) for f in t['variants'][0]['fields']))
        return ('op', ('const', t['s']), ty)

    def enum_from_bits(self, t, bits):
        # field-less enum constants, and Option<fieldless> style constants with a known tag
        for i, v in enumerate(t['variants']):
            if int(v['discr']) & 0xff == bits & 0xff and int(v['discr']) < 256 and not v['fields']:
                return ('adt', t['def'], i, ())
        if all(not v['fields'] for v in t['variants']):
            for i, v in enumerate(t['variants']):
                if int(v['discr']) & 0xff == bits & 0xff: return ('adt', t['def'], i, ())
        # niche-encoded Option<E>
        if t['def'] == 'core::option::Option':
            inner = self.T[t['args'][0]]
            if inner['k'] == 'adt' and inner['enum']:
                for i, v in enumerate(inner['variants']):
                    if int(v['discr']) & 0xff == bits & 0xff:
                        return ('adt', t['def'], 1, (('adt', inner['def'], i, ()),))
                return ('adt', t['def'], 0, ())
        raise Undecided('constant of enum %s' % t['s'])

    def promoted(self, st, bid):
        key = ('P', bid)
        if key in st.mem: return st.mem[key]
        body = self.p.bodies[bid]
        if body.get('kind') == 'error': raise Undecided('promoted body missing')
        fr = Frame(); fr.body = body; fr.bb = 0; fr.uid = ('P', bid)
        for i in range(len(body['locals'])): st.mem[('L', fr.uid, i)] = UNINIT
        n = 0
        saved = self._moved
        while True:
            n += 1
            if n > 50: raise Undecided('promoted too long')
            bl = body['blocks'][fr.bb]
            for s in bl['s']: self.stmt(st, fr, s)
            t = bl['t']
            if t[0] == 'goto': fr.bb = t[1]
            elif t[0] == 'return': break
            else: raise Undecided('promoted with %s' % t[0])
        self._moved = saved
        st.mem[key] = st.mem[('L', fr.uid, 0)]
        return st.mem[key]

    # -- rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k == 'ref':
            b, p, view = self.place(st, fr, r[2])
            return ('ref', b, p, view)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r[1], v, r[3])
        if k == 'bin':
            a = self.operand(st, fr, r[2]); b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            return self.unop(st, r[1], a)
        if k == 'discr':
            b, p, _ = self.place(st, fr, r[1])
            if len(r[1]) == 1 and st.mem.get(b) == UNINIT:
                # a zero-sized Option<!> is None without ever being written
                t = self.T[fr.body['locals'][r[1][0]]]
                if t.get('def') == OPT and (self.T[t['args'][0]]['s'] in ('!', 'std::convert::Infallible')): st.mem[b] = NONE
            v = self.concretise(st, b, p)
            return self.p.discr[v[1]][v[2]]
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            ak = r[1]
            if ak[0] == 'adt': return ('adt', ak[1], ak[2], ops)
            if ak[0] == 'tuple': return ('tup', ops)
            if ak[0] == 'array': return ('seq', 'array', ops)
            if ak[0] == 'closure': return ('clos', ak[1], ops, ak[3])
            raise Undecided('aggregate %r' % (ak,))
        if k == 'len':
            b, p, view = self.place(st, fr, r[1])
            lo, hi = self.bounds(st, b, p, view)
            return hi - lo
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 64: return ('seq', 'array', (v,) * n)
        raise Undecided('rvalue %s' % k)

    def cast(self, st, fr, kind, v, ty):
        if kind == 'BoxDerefTransmute':
            if v[0] == 'box': return ('ref', ('H', v[1]), (), None)
            if v[0] == 'ref': return v
            if v[0] == 'op':
                b, p, w = self.deref(st, v)
                return ('ref', b, p, w)
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'FnPtrToPtr', 'Subtype'):
            if isinstance(v, tuple) and v[0] == 'op' and self.T[ty]['k'] != self.T[v[2]]['k']:
                return v
            if isinstance(v, tuple) and v[0] == 'ref':
                t = self.T[ty]
                if t['k'] in ('ref', 'ptr'):
                    return self.recast(st, v, t['to'])
            if isinstance(v, int) and kind == 'Transmute':
                t = self.T[ty]
                if t['k'] == 'adt' and t['enum']: return self.enum_from_bits(t, v & 0xff if v < 0 else v)
            if isinstance(v, tuple) and v[0] == 'adt' and kind == 'Transmute':
                t = self.T[ty]
                if t['k'] == 'prim': return self.p.discr[v[1]][v[2]]
            return v
        if kind == 'IntToNarrow':       # see scale.py
            return v & 3 if isinstance(v, int) and not isinstance(v, bool) else v
        if kind == 'IntToInt':
            if isinstance(v, bool): return int(v)
            if isinstance(v, tuple) and v[0] == 'adt': return self.p.discr[v[1]][v[2]]
            if isinstance(v, int):
                s = self.T[ty]['s']
                bits = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'isize': 64, 'usize': 64}.get(s)
                if bits:
                    v &= (1 << bits) - 1
                    if s[0] == 'i' and v >> (bits - 1): v -= 1 << bits
            return v
        if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            return ('op', ('app', kind, self.term(st, v)), ty)
        raise Undecided('cast %s' % kind)

    def recast(self, st, v, to):
        """pointer cast through transparent wrappers: follow the wrapped field"""
        return v

    def binop(self, st, op, a, b):
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        over = 'WithOverflow' in op
        if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            isb = isinstance(a, bool) or isinstance(b, bool)
            if isb:
                a = self.truth(st, a); b = self.truth(st, b)
                a = int(a); b = int(b)
            if isinstance(a, tuple) and a[0] == 'adt' and not a[3]: a = self.p.discr[a[1]][a[2]]
            if isinstance(b, tuple) and b[0] == 'adt' and not b[3]: b = self.p.discr[b[1]][b[2]]
            if isinstance(a, tuple) and a[0] == 'ref' and isinstance(b, tuple) and b[0] == 'ref':
                if o == 'Eq': return a[1:3] == b[1:3]
                if o == 'Ne': return a[1:3] != b[1:3]
            if isinstance(a, tuple) and a[0] == 'op' and a[2] is not None and self.T[a[2]]['s'] == 'bool':
                a = int(self.truth(st, a))
            if isinstance(b, tuple) and b[0] == 'op' and b[2] is not None and self.T[b[2]]['s'] == 'bool':
                b = int(self.truth(st, b))
            if o == 'Cmp':
                if self.int_rel(st, a, b, LT): return ORD_LESS
                return ORD_EQ if self.int_rel(st, a, b, EQ) else ORD_GREATER
            want = {'Eq': EQ, 'Ne': LT | GT, 'Lt': LT, 'Le': LT | EQ, 'Gt': GT, 'Ge': GT | EQ}[o]
            return self.int_rel(st, a, b, want)
        if o in ('BitXor', 'BitAnd', 'BitOr') and (isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, tuple) and a[0] == 'op' and self.T[a[2]]['s'] == 'bool')):
            a = self.truth(st, a); b = self.truth(st, b)
            return {'BitXor': a != b, 'BitAnd': a and b, 'BitOr': a or b}[o]
        if o in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            r = self.ladd(a, b, 1 if o == 'Add' else -1)
            h = self.hooks.get('intres')
            if h: h(self, st, r)
            if isinstance(r, int) and r < 0 and o == 'Sub': st.emit('underflow')
            return ('tup', (r, False)) if over else r
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = {'Mul': lambda: a * b, 'Div': lambda: a // b, 'Rem': lambda: a % b, 'BitAnd': lambda: a & b,
                     'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b}[o]()
            except ZeroDivisionError:
                raise Undecided('division by zero')
            return ('tup', (r, False)) if over else r
        if o in ('Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Offset'):
            r = ('lin', 0, ((('app', o, self.term(st, a), self.term(st, b)), 1),))
            if o == 'Mul':
                if isinstance(a, int) or isinstance(b, int):
                    c, x = (a, b) if isinstance(a, int) else (b, a)
                    l = self.lin(x)
                    r = self.mklin(l[1] * c, {t: k * c for t, k in l[2]})
                else:
                    ta, tb = sorted((self.term(st, a), self.term(st, b)), key=repr)
                    r = ('lin', 0, ((('app', o, ta, tb), 1),))
            return ('tup', (r, False)) if over else r
        raise Undecided('binop %s' % op)

    def unop(self, st, op, a):
        if op == 'Not':
            if isinstance(a, bool): return not a
            if isinstance(a, tuple) and a[0] == 'op': return not self.truth(st, a)
            if isinstance(a, int): return ~a
        if op == 'Neg' and isinstance(a, int): return -a
        if op == 'Neg': return self.ladd(0, a, -1)
        if op == 'PtrMetadata':
            b, p, view = self.deref(st, a)
            lo, hi = self.bounds(st, b, p, view)
            return hi - lo
        raise Undecided('unop %s' % op)

    # -- statements
    def stmt(self, st, fr, s):
        k = s[0]
        self._moved = []
        if k == '=':
            v = self.rvalue(st, fr, s[2])
            b, p, _ = self.place(st, fr, s[1])
            for mb, mp in self._moved:
                if (mb, mp) != (b, p): self.write(st, mb, mp, UNINIT)
            self.write(st, b, p, v)
        elif k in ('live',):
            pass
        elif k == 'dead':
            st.mem[('L', fr.uid, s[1])] = UNINIT
        elif k == 'setd':
            b, p, _ = self.place(st, fr, s[1])
            v = self.read(st, b, p)
            if v[0] == 'adt': self.write(st, b, p, ('adt', v[1], s[2], v[3]))
            else: raise Undecided('set discriminant')
        elif k == 'assume':
            pass
        else:
            raise Undecided('statement %s' % k)

    # -- calls
    def push(self, st, body, args, dest, target, span=''):
        if body.get('kind') == 'error': raise Undecided('body missing: %s' % body.get('path'))
        if len(st.frames) > self.max_depth: raise Undecided('call depth (recursion in %s)' % body['path'])
        fr = Frame()
        fr.body = body; fr.bb = 0; fr.uid = st.fresh(); fr.dest = dest; fr.target = target; fr.span = span
        n = body['argc']
        if body.get('spread') is not None and len(args) > n:
            sp = body['spread']
            args = list(args[:sp - 1]) + [('tup', tuple(args[sp - 1:]))]
        if len(args) != n:
            raise Undecided('arity of %s: %d given, %d expected' % (body['path'], len(args), n))
        for i in range(len(body['locals'])): st.mem[('L', fr.uid, i)] = UNINIT
        for i, a in enumerate(args): st.mem[('L', fr.uid, i + 1)] = a
        st.frames.append(fr)
        self.stats['bodies'].add(body['id'])
        self.stats['calls'][body['path']] = self.stats['calls'].get(body['path'], 0) + 1

    def push_native(self, st, name, data, dest, target):
        fr = Frame()
        fr.body = None; fr.bb = 0; fr.uid = st.fresh(); fr.dest = dest; fr.target = target
        fr.native = name; fr.data = data; fr.pend = None
        st.frames.append(fr)

    def invoke(self, st, f, args, dest, target, span=''):
        """call a callable value"""
        k = f[0]
        if k == 'ref':
            inner = self.read(st, f[1], f[2])
            if isinstance(inner, tuple) and inner[0] in ('ref', 'box', 'fn', 'op'):
                return self.invoke(st, inner, args, dest, target, span)
            if inner[0] == 'clos':
                return self.invoke_clos(st, f, inner, args, dest, target, span)
            if inner[0] == 'adt' and len(inner[3]) == 1:
                return self.invoke(st, inner[3][0], args, dest, target, span)
        if k == 'box':
            return self.invoke(st, ('ref', ('H', f[1]), (), None), args, dest, target, span)
        if k == 'clos':
            return self.invoke_clos(st, None, f, args, dest, target, span)
        if k == 'fn':
            c = f[1].c
            # tuple-struct / variant constructors used as functions
            r = self.call(st, None, c, list(args), [None] * len(args), dest, target, span)
            return r
        if k == 'op':
            m = self.models.get('call-opaque')
            if m:
                r = m(self, st, f, args)
                if r is not None: return ('val', r)
            raise Undecided('call of an unknown function value')
        raise Undecided('call of %r' % (k,))

    def invoke_clos(self, st, ref, clos, args, dest, target, span):
        bid = clos[3]
        if bid is None or bid < 0: raise Undecided('closure body missing')
        body = self.p.bodies[bid]
        selfty = self.T[body['locals'][1]]
        if selfty['k'] == 'ref':
            if ref is None:
                b = st.alloc(clos); ref = ('ref', b, (), None)
            a = [ref]
        else:
            a = [clos]
        self.push(st, body, a + list(args), dest, target, span)
        return ('pushed',)

    def ret(self, st, fr, dest, target, val):
        b, p = dest
        self.write(st, b, p, val)
        fr.bb = target

    def lookup(self, c):
        """model for a callee: user models first, then the native table"""
        for tab in (self.models, self.natives):
            for key in (c.get('rpath'), c.get('rdef'), c.get('path'), c.get('def')):
                if key is not None and key in tab:
                    return key, tab[key]
        t = c.get('trait')
        if t:
            for tab in (self.models, self.natives):
                k = (t, c['name'])
                if k in tab and 'body' not in c: return k, tab[k]
        return None, None

    def call(self, st, fr, c, args, argtys, dest, target, span):
        """returns ('val', v) | ('pushed',) | ('panic', msg)"""
        kind = c.get('kind')
        if kind == 'ptr': raise Undecided('indirect call')
        key, m = self.lookup(c)
        if m is not None:
            self.used_models.add(str(key))
            r = m(self, st, Call(c, args, argtys, dest, target, span))
            if r is not None:
                if isinstance(r, tuple) and r and r[0] in ('$pushed', '$panic'): return (r[0][1:],) + r[1:]
                return ('val', r)
        path = c.get('rpath') or c.get('path') or ''
        if path.startswith('core::panicking::') or path.startswith('std::rt::begin_panic') or path.startswith('std::rt::panic') or path.startswith('std::panicking') or path in PANICS:
            return ('panic', path)
        tr = c.get('trait')
        if tr in ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce'):
            f = args[0]; tup = args[1]
            if tup[0] == 'op': tup = self.expand(st, tup)
            return self.invoke(st, f, list(tup[1]), dest, target, span)
        if 'body' in c:
            body = self.p.bodies[c['body']]
            self.push(st, body, args, dest, target, span)
            return ('pushed',)
        if '::fmt::' in path or path.startswith('core::fmt') or path.startswith('std::fmt') or path.startswith('alloc::fmt') or tr in ('core::fmt::Debug', 'core::fmt::Display'):
            return ('val', ('op', ('fmt', path), c['ret']))
        if kind in ('item', 'unresolved') and 'variants' in self.T[c['ret']] and path.split('::')[-1] in [v['name'] for v in self.T[c['ret']]['variants']]:
            t = self.T[c['ret']]
            for i, v in enumerate(t['variants']):
                if v['name'] == path.split('::')[-1]: return ('val', ('adt', t['def'], i, tuple(args)))
        h = self.hooks.get('call')
        if h:
            r = h(self, st, Call(c, args, argtys, dest, target, span))
            if r is not None: return ('val', r)
        if 'dbody' in c:        # an unknown implementor: the trait's own implementation
            self.push(st, self.p.bodies[c['dbody']], args, dest, target, span)
            return ('pushed',)
        raise Undecided('no model of %s' % (path or c.get('intr') or c))

    # -- drops
    def find_drops(self, st, v, base, path, out, depth=0):
        if not isinstance(v, tuple) or depth > 6: return
        if v[0] == 'adt':
            if v[1] in self.p.dropimpl: out.append((v[1], base, path))
            for i, f in enumerate(v[3]): self.find_drops(st, f, base, path + (('f', i),), out, depth + 1)
        elif v[0] == 'tup':
            for i, f in enumerate(v[1]): self.find_drops(st, f, base, path + (('f', i),), out, depth + 1)
        elif v[0] == 'box':
            b = ('H', v[1])
            if b in st.mem: self.find_drops(st, st.mem[b], b, (), out, depth + 1)
        elif v[0] == 'op':
            t = self.T[v[2]] if v[2] is not None else {'k': ''}
            if t['k'] == 'adt' and t.get('def') in self.p.dropimpl: out.append((t['def'], base, path))

    def do_drop(self, st, fr, t):
        b, p, _ = self.place(st, fr, t[1])
        v = self.read(st, b, p)
        if isinstance(v, tuple) and v[0] == 'uninit':
            fr.bb = t[2]; return
        todo = []
        self.find_drops(st, v, b, p, todo)
        key = ('drop', fr.bb)
        done = fr.drop or 0
        if done < len(todo):
            d, db, dp = todo[done]
            fr.drop = done + 1
            r = self.p.dropimpl[d]
            junk = st.alloc(UNINIT)
            self.push(st, self.p.body_of(r), [('ref', db, dp, None)], (junk, ()), fr.bb, t[4])
            st.frames[-1].dest = (junk, ())
            return
        fr.drop = None
        h = self.hooks.get('drop')
        if h: h(self, st, v, t[4])
        self.write(st, b, p, UNINIT)
        fr.bb = t[2]

    # -- main loop
    def run(self, states):
        work = list(states)
        finals = []
        while work:
            st = work.pop()
            self.stats['states'] += 1
            if self.stats['states'] > self.max_states:
                finals.append(Final('undecided', st, None, 'state limit')); break
            try:
                r = self.run_one(st, work)
                if r is not None: finals.append(r)
            except Undecided as u:
                where = ''
                for f in reversed(st.frames):
                    if f.body is not None: where = f.body['path']; break
                finals.append(Final('undecided', st, None, '%s [in %s]' % (u, where)))
            except Infeasible:
                self.stats['pruned'] += 1
            except (TypeError, IndexError, KeyError, AttributeError, ValueError, NameError, AssertionError, RecursionError, ArithmeticError, StopIteration) as e:
                # a shape of value the models do not expect: not decided, never an alarm
                if DEBUG: raise
                where = ''
                for f in reversed(st.frames):
                    if f.body is not None: where = f.body['path']; break
                finals.append(Final('undecided', st, None, 'a value of an unexpected shape (%s: %s) [in %s]' % (type(e).__name__, e, where)))
        return finals

    def run_one(self, st, work):
        """advance one state until it forks or ends"""
        self._snap = None
        while True:
            fr = st.frames[-1]
            snap = None
            try:
                if fr.native is not None:
                    snap = st.copy()
                    out = self.natmod.STEPS[fr.native](self, st, fr)
                    # out: ('ret', v) | ('call', f, args) | ('callm', callee, args)
                    if out[0] == 'ret':
                        st.frames.pop()
                        r = self.finish_return(st, fr, out[1])
                        if r is not None: return r
                        continue
                    if out[0] == 'again': continue
                    b = ('L', fr.uid, 0)
                    st.mem[b] = UNINIT
                    res = self.invoke(st, out[1], out[2], (b, ()), 0) if out[0] == 'call' else out[1](self, st, (b, ()))
                    if res[0] == 'val':
                        st.mem[b] = res[1]
                    elif res[0] == 'panic':
                        return Final('panic', st, None, res[1])
                    continue
                bl = fr.body['blocks'][fr.bb]
                if fr.pend is None:
                    if fr.bb in loop_heads(fr.body):
                        h = self.hooks.get('loop')
                        if h and h(self, st, fr) == 'prune':
                            self.stats['pruned'] += 1
                            return None
                    n = fr.visits.get(fr.bb, 0)
                    fr.visits[fr.bb] = n + 1
                    if n + 1 > self.max_visits - 12:
                        sig = state_sig(st)
                        if ('sig', fr.bb, sig) in fr.visits: return Final('panic', st, None, 'a loop that does not end @ %s' % fr.span if fr.span else 'a loop that does not end')
                        fr.visits['sig', fr.bb, sig] = 1
                        if n + 1 > self.max_visits: raise Undecided('loop bound')
                    fr.pend = 0
                i = 0
                stm = bl['s']
                if fr.drop is None:
                    if isinstance(fr.pend, int): i = fr.pend
                    while i < len(stm):
                        fr.pend = i
                        self.stmt(st, fr, stm[i])
                        i += 1
                fr.pend = i
                r = self.term_(st, fr, bl['t'])
                if r is not None: return r
            except Fork as f:
                base = snap if snap is not None else (self._snap if self._snap is not None else st)
                self._snap = None
                top = base.frames[-1]
                self.stats['forks'] += 1
                for label, ref in reversed(f.alts):
                    c = base.copy()
                    ok = ref(c)
                    if ok is False: continue
                    c.log = c.log + ((self.where(base), label),)
                    work.append(c)
                return None

    _snap = None

    def where(self, st):
        for f in reversed(st.frames):
            if f.body is not None and f.body['local']:
                bl = f.body['blocks'][f.bb]
                t = bl['t']
                sp = ''
                if t[0] == 'call': sp = t[6]
                elif t[0] == 'switch': sp = t[5]
                if not sp or not sp.startswith('src'):
                    for s in bl['s']:
                        if s[0] == '=': sp = s[3]
                return '%s (%s)' % (f.body['path'], sp)
        return ''

    def finish_return(self, st, fr, v):
        if not st.frames:
            return Final('return', st, v)
        caller = st.frames[-1]
        b, p = fr.dest
        self.write(st, b, p, v)
        if caller.native is None:
            caller.bb = fr.target
            if caller.drop is None: caller.pend = None
            if fr.target is None: return Final('panic', st, None, 'diverged')
        return None

    def term_(self, st, fr, t):
        k = t[0]
        self._snap = None
        if k == 'goto':
            fr.bb = t[1]; fr.pend = None; return None
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            if isinstance(v, tuple) and v[0] == 'op':
                if self.T[t[4]]['s'] == 'bool': v = self.truth(st, v)
            if isinstance(v, tuple) and v[0] in ('lin', 'op'):
                nxt = t[3]
                for val, bb in t[2]:
                    if self.int_rel(st, v, val, EQ): nxt = bb; break
                fr.bb = nxt; fr.pend = None; return None
            if isinstance(v, tuple): raise Undecided('switch on %r' % (v[0],))
            v = int(v)
            ts = self.T[t[4]]['s']
            bits = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'bool': 8}.get(ts, 64)
            vv = v & ((1 << bits) - 1)
            nxt = t[3]
            for val, bb in t[2]:
                if (val & ((1 << bits) - 1)) == vv: nxt = bb; break
            fr.bb = nxt; fr.pend = None
            return None
        if k == 'return':
            v = st.mem[('L', fr.uid, 0)]
            self.check_escape(st, fr)
            for i in range(len(fr.body['locals'])):
                st.mem.pop(('L', fr.uid, i), None)
            st.frames.pop()
            return self.finish_return(st, fr, v)
        if k == 'unreachable':
            raise Infeasible()
        if k == 'drop':
            self._snap = st.copy()
            self.do_drop(st, fr, t)
            self._snap = None
            if st.frames[-1] is fr and fr.drop is None: fr.pend = None
            return None
        if k == 'assert':
            c = self.truth(st, self.operand(st, fr, t[1]))
            if c != t[2]: return Final('panic', st, None, 'assert ' + t[3])
            fr.bb = t[4]; fr.pend = None; return None
        if k == 'call':
            self._snap = st.copy()
            c = t[1]
            self._moved = []
            args = [self.operand(st, fr, a) for a in t[3]]
            b, p, _ = self.place(st, fr, t[4])
            for mb, mp in self._moved: self.write(st, mb, mp, UNINIT)
            if c.get('kind') == 'ptr':
                f = self.operand(st, fr, t[2])
                r = self.invoke(st, f, args, (b, p), t[5], t[6])
            else:
                r = self.call(st, fr, c, args, t[7], (b, p), t[5], t[6])
            self._snap = None
            if r[0] == 'panic': return Final('panic', st, None, r[1] + ' @ ' + str(t[6]))
            if r[0] == 'val':
                if t[5] is None: return Final('panic', st, None, (c.get('rpath') or '') + ' @ ' + str(t[6]))
                self.write(st, b, p, r[1])
                fr.bb = t[5]; fr.pend = None
            return None
        if k == 'resume': raise Infeasible()
        raise Undecided('terminator %s' % k)

    def check_escape(self, st, fr): pass

class FnKey:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
    def __repr__(self): return 'fn:' + (self.c.get('path') or '?')
    def __eq__(self, o): return isinstance(o, FnKey) and self.c is o.c
    def __hash__(self): return id(self.c)

class Call:
    __slots__ = ('c', 'args', 'argtys', 'dest', 'target', 'span')
    def __init__(self, c, args, argtys, dest, target, span):
        self.c = c; self.args = args; self.argtys = argtys; self.dest = dest; self.target = target; self.span = span

ORD = 'core::cmp::Ordering'
ORD_LESS = ('adt', ORD, 0, ()); ORD_EQ = ('adt', ORD, 1, ()); ORD_GREATER = ('adt', ORD, 2, ())
def mkord(x): return (ORD_LESS, ORD_EQ, ORD_GREATER)[x + 1]
OPT = 'core::option::Option'
NONE = ('adt', OPT, 0, ())
def some(v): return ('adt', OPT, 1, (v,))

def show_term(t):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    if t[0] == 'f': return '%s.%s' % (show_term(t[1]), t[2])
    if t[0] == '*': return '*' + show_term(t[1])
    if t[0] == 'v': return str(t[1])
    if t[0] == '#': return '#%s' % (t[1],)
    if t[0] == 'i': return str(t[1])
    if t[0] == 'app': return '%s(%s)' % (str(t[1]).split('::')[-1], ','.join(show_term(x) for x in t[2:]))
    if t[0] == 'mk': return '%s{%s}' % (str(t[1]).split('::')[-1], ','.join(show_term(x) for x in t[3:]))
    return '%s(%s)' % (t[0], ','.join(show_term(x) for x in t[1:]))
