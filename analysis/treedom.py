"""Shape domain for owned binary search trees of unbounded size.

A cell (Option<Box<Node>>) may hold
  ('tree', atoms, nodety)                 a tree of unknown shape whose in-order walk is `atoms`
  ('ctx', before, cell, after, nodety)    a tree of unknown shape containing one known hole
Atoms are ('E', id) one entry, or ('S', id) a run of entries of unknown length.
Ghost state:
  g['G']    the in-order content of the whole tree on entry, as a tuple of atoms
  g['lab']  atom -> mask of possible results of comparator(Q, entry)   (LT/EQ/GT)
  g['ne']   set of segments known to be non-empty
Consistency of the comparator means: along G the results are GT* EQ? LT*.
Loops are summarised at their heads: nodes nothing points to are folded back into their parent's
summary, adjacent runs with equal labels are merged, the state is renamed canonically and a state
that was seen before is not explored again (a fixpoint over a finite set of abstract states).
"""
from mai import *

class Node:
    """what is known about a node type, found by shape rather than by name"""
    def __init__(self, prog, ty):
        t = prog.T[ty]
        self.ty = ty; self.defn = t['def']
        fs = t['variants'][0]['fields']
        self.fields = fs
        links = [i for i, f in enumerate(fs) if link_target(prog, f[1]) == t['def']]
        if len(links) != 2: raise KeyError('anchor: node type with two owned links (%s)' % t['s'])
        byname = {fs[i][0]: i for i in links}
        self.left = byname.get('left', links[0]); self.right = byname.get('right', links[1])
        rest = [i for i in range(len(fs)) if i not in links]
        self.key = next((i for i in rest if fs[i][0] == 'key'), rest[0])
        rest2 = [i for i in rest if i != self.key]
        self.value = next((i for i in rest2 if fs[i][0] == 'value'), rest2[0] if rest2 else None)
        self.extra = [i for i in rest2 if i != self.value]

def link_target(prog, ty):
    t = prog.T[ty]
    if t['k'] == 'adt' and t['def'] == OPT:
        b = prog.T[t['args'][0]]
        if b['k'] == 'adt' and b['box']:
            n = prog.T[b['args'][0]]
            if n['k'] == 'adt': return n['def']
    return None

def cell_node(prog, ty):
    """node type index if ty is Option<Box<Node>> with Node a two-link node"""
    t = prog.T[ty]
    if t['k'] == 'adt' and t['def'] == OPT:
        b = prog.T[t['args'][0]]
        if b['k'] == 'adt' and b['box']:
            n = prog.T[b['args'][0]]
            if n['k'] == 'adt' and not n['enum']:
                links = [f for f in n['variants'][0]['fields'] if link_target(prog, f[1]) == n['def']]
                if len(links) == 2: return b['args'][0]
    return None

class TreeDom:
    def __init__(self, en):
        self.en = en; self.p = en.p
        self.nodes = {}
        en.hooks['discr'] = self.discr
        en.hooks['loop'] = self.loop
        en.hooks['drop'] = self.dropped
        en.hooks['intcmp'] = self.intcmp
        en.models['call-opaque'] = self.call_opaque
        self.seen = {}
        self.folds = 0

    def node(self, ty):
        if ty not in self.nodes: self.nodes[ty] = Node(self.p, ty)
        return self.nodes[ty]

    # ---- ghost state
    def init(self, st, names=1, query=True):
        s = ('S', st.fresh())
        st.g['G'] = (s,); st.g['lab'] = {s: 7}; st.g['ne'] = frozenset()
        return s

    def count(self, atoms):
        c = 0; d = {}
        for a in atoms:
            if a[0] == 'E': c += 1
            else: d[('n', a)] = d.get(('n', a), 0) + 1
        return self.en.mklin(c, d)

    def setlab(self, st, a, m):
        """restrict label of atom a; False if contradictory"""
        lab = dict(st.g['lab']); G = st.g['G']
        i = G.index(a)
        upd = {i: m}
        if a[0] == 'E' or a in st.g['ne']:
            if m == GT:
                for j in range(i): upd[j] = GT
            elif m == LT:
                for j in range(i + 1, len(G)): upd[j] = LT
            elif m == EQ:
                for j in range(i): upd[j] = GT
                for j in range(i + 1, len(G)): upd[j] = LT
            elif m == (LT | EQ):
                for j in range(i + 1, len(G)): upd[j] = LT
            elif m == (GT | EQ):
                for j in range(i): upd[j] = GT
        empt = []
        for j, mm in upd.items():
            b = G[j]
            n = lab[b] & mm
            if n == 0:
                if b[0] == 'E' or b in st.g['ne']: return False
                empt.append(b)
            lab[b] = n
        st.g['lab'] = lab
        for b in empt: self.make_empty(st, b)
        return True

    def subst(self, st, seg, repl):
        """replace a segment by a sequence of atoms everywhere in the state"""
        en = self.en
        term = ('n', seg)
        rc = 0; rd = []
        for a in repl:
            if a[0] == 'E': rc += 1
            else: rd.append(('n', a))
        def f(v):
            if not isinstance(v, tuple) or not v: return v
            if v[0] == 'lin':
                for t, k in v[2]:
                    if t == term:
                        d = {t2: k2 for t2, k2 in v[2] if t2 != term}
                        for t2 in rd: d[t2] = d.get(t2, 0) + k
                        return en.mklin(v[1] + k * rc, d)
                return v
            if v[0] == 'tree':
                if seg in v[1]: return ('tree', splice(v[1], seg, repl), v[2])
                return v
            if v[0] == 'ctx':
                return ('ctx', splice(v[1], seg, repl), v[2], splice(v[3], seg, repl), v[4])
            if v[0] in ('adt', 'tup', 'seq', 'clos'): return tuple(f(x) if isinstance(x, tuple) else x for x in v)
            if v[0] in ('ref', 'op', 'box', 'uninit', 'fn'): return v
            return tuple(f(x) if isinstance(x, tuple) else x for x in v)
        for b in list(st.mem):
            st.mem[b] = f(st.mem[b])
        for fr in st.frames:
            if fr.native: fr.data = f(fr.data)
        st.trace = f(st.trace)
        st.g['G'] = splice(st.g['G'], seg, repl)

    def make_empty(self, st, seg):
        self.subst(st, seg, ())
        lab = dict(st.g['lab']); lab.pop(seg, None); st.g['lab'] = lab

    def may_empty(self, st, atoms):
        return all(a[0] == 'S' and a not in st.g['ne'] for a in atoms)

    # ---- materialisation
    def key_of(self, nt, e): return ('op', ('k', e), nt.fields[nt.key][1])
    def val_of(self, nt, e):
        ty = nt.fields[nt.value][1]
        t = self.p.T[ty]
        if t['k'] == 'tuple' and not t['args']: return UNIT
        return ('op', ('val', e), ty)

    def mk_node(self, nt, e, l, r):
        fs = []
        for i, f in enumerate(nt.fields):
            if i == nt.key: fs.append(self.key_of(nt, e[1]))
            elif i == nt.value: fs.append(self.val_of(nt, e[1]))
            elif i == nt.left: fs.append(l)
            elif i == nt.right: fs.append(r)
            else: fs.append(('op', ('extra', e[1], i), f[1]))
        return ('adt', nt.defn, 0, tuple(fs))

    def discr(self, en, st, base, path, v):
        if v[0] == 'ctx':
            cell = v[2]
            if not self.cell_pinned(st, cell):
                c = st.mem[cell]
                if c == NONE or c[0] == 'tree':
                    atoms = v[1] + (c[1] if c[0] == 'tree' else ()) + v[3]
                    del st.mem[cell]
                    en.write(st, base, path, ('tree', atoms, v[4]))
                    return en.concretise(st, base, path)
            raise Undecided('variant of a tree with an open hole')
        if v[0] != 'tree': raise Undecided('variant of %r' % (v[0],))
        atoms = v[1]
        if not atoms:
            en.write(st, base, path, NONE); return NONE
        nt = self.node(v[2])
        alts = []
        if self.may_empty(st, atoms):
            def emp(s):
                for a in atoms: self.make_empty(s, a)
                en.write(s, base, path, NONE)
            alts.append(('subtree is empty', emp))
        for i, a in enumerate(atoms):
            def root(s, i=i, a=a):
                if a[0] == 'S':
                    s1 = ('S', s.fresh()); e = ('E', s.fresh()); s2 = ('S', s.fresh())
                    m = s.g['lab'][a]
                    lab = dict(s.g['lab']); lab.pop(a); lab[s1] = m; lab[e] = m; lab[s2] = m
                    self.subst(s, a, (s1, e, s2))
                    s.g['lab'] = lab
                    s.g['ne'] = s.g['ne'] - {a}
                    j = i + 1
                    if m in (EQ,):
                        if not self.setlab(s, e, EQ): return False
                else:
                    e = a; j = i
                cur = en.read(s, base, path)
                ats = cur[1]
                j = ats.index(e)
                def tr(x): return ('tree', x, v[2]) if x else NONE
                n = self.mk_node(nt, e, tr(ats[:j]), tr(ats[j+1:]))
                b = s.fresh()
                s.mem[('H', b)] = n
                en.write(s, base, path, some(('box', b)))
            alts.append(('subtree root in %s%s' % (a[0], a[1][1]), root))
        if len(alts) == 1:
            alts[0][1](st)
            return en.read(st, base, path)
        raise Fork(alts, 'shape')

    def cell_pinned(self, st, cell):
        def f(v):
            if not isinstance(v, tuple) or not v: return False
            if v[0] == 'ref' and v[1] == cell: return True
            return any(f(x) for x in v if isinstance(x, tuple))
        return any(f(v) for b, v in st.mem.items() if b != cell) or any(fr.dest[0] == cell for fr in st.frames)

    # ---- comparator
    def call_opaque(self, en, st, f, args):
        t = f[1]
        if t[0] != 'cmp': return None
        a = en.term(st, args[0]); b = en.term(st, args[1])
        return self.compare(en, st, a, b)

    def compare(self, en, st, a, b):
        st.g['ncmp'] = st.g.get('ncmp', 0)
        if a == b: return ORD_EQ
        if b == ('Q',):
            r = self.compare(en, st, b, a)
            return mkord(1 - r[2])
        if a == ('Q',) and b[0] == 'k':
            e = ('E', b[1])
            if e not in st.g['lab']: raise Undecided('comparison with a folded entry')
            m = st.g['lab'][e]
            if m == LT: return ORD_LESS
            if m == EQ: return ORD_EQ
            if m == GT: return ORD_GREATER
            alts = []
            for bit, n in ((LT, 'Less'), (EQ, 'Equal'), (GT, 'Greater')):
                if m & bit: alts.append(('comparator(query, entry %s) = %s' % (b[1][1], n), lambda s, bit=bit: self.setlab(s, e, bit)))
            raise Fork(alts, 'cmp')
        if a[0] == 'k' and b[0] == 'k':
            G = st.g['G']
            i = G.index(('E', a[1])); j = G.index(('E', b[1]))
            return ORD_LESS if i < j else ORD_GREATER
        raise Undecided('comparator on %s, %s' % (show_term(a), show_term(b)))

    # ---- integers
    def intcmp(self, en, st, a, b, d):
        """bounds of a - b from segment lengths"""
        if isinstance(d, int): return LT if d < 0 else EQ if d == 0 else GT
        lo = hi = d[1]
        for t, k in d[2]:
            if t[0] == 'n':
                n = 1 if t[1] in st.g['ne'] else 0
                if k > 0: lo += k * n; hi = None
                else:
                    if hi is not None: hi += k * n
                    lo = None
                    break
            else: return 7
        if lo is None:
            if all(k < 0 for t, k in d[2] if t[0] == 'n') and all(t[0] == 'n' for t, k in d[2]):
                hi = d[1] + sum(k * (1 if t[1] in st.g['ne'] else 0) for t, k in d[2])
                return LT if hi < 0 else LT | EQ if hi == 0 else 7
            return 7
        if lo > 0: return GT
        if lo == 0:
            # zero exactly when every segment is empty
            segs = [t[1] for t, k in d[2]]
            def z(s):
                for x in segs: self.make_empty(s, x)
            def nz(s):
                if len(segs) == 1: s.g['ne'] = s.g['ne'] | {segs[0]}
            if any(s in st.g['ne'] for s in segs): return GT
            if len(segs) > 1: return GT | EQ
            raise Fork([('count is zero', z), ('count is positive', nz)], 'count')
        segs = [t[1] for t, k in d[2]]
        if len(segs) == 1 and segs[0] not in st.g['ne']:
            def z(s): self.make_empty(s, segs[0])
            def nz(s): s.g['ne'] = s.g['ne'] | {segs[0]}
            raise Fork([('count is zero', z), ('count is positive', nz)], 'count')
        return 7

    # ---- drops
    def deep(self, st, v, depth=0):
        if not isinstance(v, tuple) or not v: return False
        if v[0] == 'tree': return any(a[0] == 'S' for a in v[1])
        if v[0] == 'ctx': return True
        if v[0] == 'box':
            x = st.mem.get(('H', v[1]))
            return x is not None and self.deep(st, x)
        if v[0] == 'adt': return any(self.deep(st, x) for x in v[3])
        if v[0] == 'tup': return any(self.deep(st, x) for x in v[1])
        return False

    def dropped(self, en, st, v, span):
        if self.deep(st, v): st.emit('deepdrop', span)

    # ---- in-order walk of memory
    def walk(self, st, v):
        """sequence of items: atoms, or ('N', keyterm, valterm) for a node not matching an entry"""
        if v == NONE: return ()
        if v[0] == 'tree': return v[1]
        if v[0] == 'ctx': return v[1] + self.walk(st, st.mem[v[2]]) + v[3]
        if v[0] == 'adt' and v[1] == OPT:
            b = v[3][0]
            if b[0] != 'box': raise Undecided('walk of %r' % (b[0],))
            return self.walkbox(st, b)
        if v[0] == 'box': return self.walkbox(st, v)
        raise Undecided('walk of %r' % (v[0],))

    def node_of(self, st, b):
        n = st.mem.get(('H', b[1]))
        if n is None or n[0] != 'adt': raise Undecided('walk: node content')
        for nt in self.nodes.values():
            if nt.defn == n[1]: return n, nt
        raise Undecided('walk: not a node')

    def walkbox(self, st, b):
        n, nt = self.node_of(st, b)
        return self.walk(st, n[3][nt.left]) + (self.item(st, n, nt),) + self.walk(st, n[3][nt.right])

    def item(self, st, n, nt):
        k = n[3][nt.key]; v = n[3][nt.value]
        if k[0] == 'op' and k[1][0] == 'k':
            e = k[1][1]
            if v == UNIT or v[0] == 'op' and v[1] == ('val', e): return ('E', e)
        return ('N', k, v)

    # ---- summarisation at loop heads
    def reach(self, st, live0):
        """bases reachable from live locals, and the pointers into each base"""
        pins = {}
        seen = set(); work = list(live0)
        def f(v):
            if not isinstance(v, tuple) or not v: return
            if v[0] == 'ref':
                pins.setdefault(v[1], set()).add(v[2]); work.append(v[1]); return
            if v[0] == 'box': work.append(('H', v[1])); return
            if v[0] == 'ctx': work.append(v[2]); return
            if v[0] in ('op', 'lin', 'tree', 'fn'):
                return
            for x in v:
                if isinstance(x, tuple): f(x)
        while work:
            b = work.pop()
            if b in seen or b not in st.mem: continue
            seen.add(b)
            f(st.mem[b])
        return seen, pins

    def roots_of(self, st):
        out = []
        for i, fr in enumerate(st.frames):
            if fr.body is None:
                out.append(fr.data[0])
                continue
            if i == len(st.frames) - 1:
                lv = liveness(fr.body)[fr.bb]
            else:
                lv = liveness(fr.body)[fr.target_bb] if False else range(len(fr.body['locals']))
            for l in lv: out.append(('L', fr.uid, l))
        for b in st.mem:
            if b[0] in ('A', 'P'): out.append(b)
        for fr in st.frames: out.append(fr.dest[0])
        return out

    def loop(self, en, st, fr):
        self.fold(st)
        k = self.canon(st)
        if k in self.seen: return 'prune'
        self.seen[k] = True
        return None

    def fold(self, st):
        self.folds += 1
        live0 = self.roots_of(st)
        seen, pins = self.reach(st, live0)
        for b in list(st.mem):
            if b not in seen:
                if b[0] == 'L': st.mem[b] = UNINIT
                elif b[0] != 'P': del st.mem[b]
        for fr in st.frames:
            pins.setdefault(fr.dest[0], set()).add(fr.dest[1])
        redirect = {}
        def foldval(base, path, v):
            if not isinstance(v, tuple) or not v: return v
            if v[0] == 'adt' and v[1] == OPT and v[2] == 1 and isinstance(v[3][0], tuple) and v[3][0] and v[3][0][0] == 'box' and self.is_node(st, v[3][0]) \
               or v[0] in ('ctx', 'tree'):
                return foldcell(base, path, v)
            if v[0] == 'box':
                if self.is_node(st, v): foldnode(v)
                return v
            if v[0] == 'adt': return ('adt', v[1], v[2], tuple(foldval(base, path + (('f', i),), x) for i, x in enumerate(v[3])))
            if v[0] == 'tup': return ('tup', tuple(foldval(base, path + (('f', i),), x) for i, x in enumerate(v[1])))
            if v[0] == 'clos': return ('clos', v[1], tuple(foldval(base, path + (('f', i),), x) for i, x in enumerate(v[2])), v[3])
            return v
        def foldnode(b):
            """fold the children of a node that stays"""
            hb = ('H', b[1])
            n, nt = self.node_of(st, b)
            for i in (nt.left, nt.right):
                c = foldval(hb, (('f', i),), n[3][i])
                n = ('adt', n[1], n[2], n[3][:i] + (c,) + n[3][i+1:])
            st.mem[hb] = n
        def treeish(c): return c == NONE or c[0] == 'tree'
        def atoms(c): return () if c == NONE else c[1]
        def foldcell(base, path, v):
            if v[0] == 'tree': return v if v[1] else NONE
            inner = any(len(p) > len(path) and p[:len(path)] == path for p in pins.get(base, ()))
            if v[0] == 'ctx':
                cell = v[2]
                if cell not in st.mem: raise Undecided('lost hole')
                c = foldval(cell, (), st.mem[cell])
                st.mem[cell] = c
                if pins.get(cell): return v
                if treeish(c):
                    del st.mem[cell]
                    a = v[1] + atoms(c) + v[3]
                    return ('tree', a, v[4]) if a else NONE
                if c[0] == 'ctx':
                    del st.mem[cell]
                    return ('ctx', v[1] + c[1], c[2], c[3] + v[3], v[4])
                return v
            b = v[3][0]; hb = ('H', b[1])
            foldnode(b)
            if inner: return v
            n, nt = self.node_of(st, b)
            it = self.item(st, n, nt)
            if it[0] != 'E' or nt.extra: return v
            L = n[3][nt.left]; R = n[3][nt.right]
            lp, rp = (('f', nt.left),), (('f', nt.right),)
            hard = [p for p in pins.get(hb, ()) if p == () or p[0] in (('f', nt.left), ('f', nt.right))]
            hs = set(hard)
            if not hs:
                if treeish(L) and treeish(R):
                    res = ('tree', atoms(L) + (it,) + atoms(R), nt.ty)
                elif treeish(R):
                    if L[0] != 'ctx':
                        c = ('C', st.fresh()); st.mem[c] = L; L = ('ctx', (), c, (), nt.ty)
                    res = ('ctx', L[1], L[2], L[3] + (it,) + atoms(R), nt.ty)
                elif treeish(L):
                    if R[0] != 'ctx':
                        c = ('C', st.fresh()); st.mem[c] = R; R = ('ctx', (), c, (), nt.ty)
                    res = ('ctx', atoms(L) + (it,) + R[1], R[2], R[3], nt.ty)
                else: return v
            elif hs == {lp} and treeish(R):
                c = ('C', st.fresh()); st.mem[c] = L; pins[c] = {()}
                redirect[(hb, lp)] = (c, ())
                res = ('ctx', (), c, (it,) + atoms(R), nt.ty)
            elif hs == {rp} and treeish(L):
                c = ('C', st.fresh()); st.mem[c] = R; pins[c] = {()}
                redirect[(hb, rp)] = (c, ())
                res = ('ctx', atoms(L) + (it,), c, (), nt.ty)
            else: return v
            # pointers to the key or value of a folded node now name the entry itself
            for p in pins.get(hb, ()):
                if p and p[0] == ('f', nt.key):
                    kb = ('EK', it[1]); st.mem[kb] = self.key_of(nt, it[1]); redirect[(hb, p[:1])] = (kb, ())
                elif p and p[0] == ('f', nt.value):
                    vb = ('EV', it[1]); st.mem[vb] = self.val_of(nt, it[1]); redirect[(hb, p[:1])] = (vb, ())
            del st.mem[hb]
            return res
        for b in list(st.mem):
            if b[0] == 'H' and b in st.mem and st.mem[b][0] == 'adt' and any(nt.defn == st.mem[b][1] for nt in self.nodes.values()): continue
            if b[0] == 'C' or b not in st.mem: continue
            st.mem[b] = foldval(b, (), st.mem[b])
        if redirect:
            def red(v):
                if not isinstance(v, tuple) or not v: return v
                if v[0] == 'ref':
                    k = (v[1], v[2][:1])
                    if k in redirect:
                        nb, np = redirect[k]
                        return ('ref', nb, np + v[2][1:], v[3])
                    return v
                if v[0] in ('op', 'lin', 'tree', 'fn', 'box'): return v
                return tuple(red(x) if isinstance(x, tuple) else x for x in v)
            for b in list(st.mem): st.mem[b] = red(st.mem[b])
            for fr in st.frames:
                k = (fr.dest[0], fr.dest[1][:1])
                if k in redirect: fr.dest = (redirect[k][0], redirect[k][1] + fr.dest[1][1:])
        self.merge(st)

    def is_node(self, st, b):
        n = st.mem.get(('H', b[1]))
        return n is not None and n[0] == 'adt' and any(nt.defn == n[1] for nt in self.nodes.values())

    def merge(self, st):
        """merge adjacent runs with equal labels that nothing refers to"""
        used = set()
        lists = []
        def f(v):
            if not isinstance(v, tuple) or not v: return
            if v[0] == 'tree': lists.append(v[1]); return
            if v[0] == 'ctx': lists.append(v[1]); lists.append(v[3]); return
            if v[0] in ('k', 'val', 'extra') and len(v) >= 2 and isinstance(v[1], tuple): used.add(('E', v[1])); return
            if v[0] == 'ref' and v[1][0] in ('EK', 'EV'): used.add(('E', v[1][1])); return
            if v[0] == 'E' and len(v) == 2: used.add(v); return
            for x in v:
                if isinstance(x, tuple): f(x)
        for b, v in st.mem.items():
            if b[0] in ('EK', 'EV'): continue
            f(v)
        f(st.trace)
        for b in list(st.mem):
            if b[0] in ('EK', 'EV') and ('E', b[1]) not in used: del st.mem[b]
        G = st.g['G']; lab = dict(st.g['lab'])
        where = {}
        for li, l in enumerate(lists):
            for i, a in enumerate(l): where[a] = (li, i)
        i = 0
        runs = []
        cur = []
        for a in G:
            ok = False
            if cur:
                p = cur[-1]
                same = (where.get(p) is None and where.get(a) is None) or \
                    (where.get(p) is not None and where.get(a) is not None and where[p][0] == where[a][0] and where[p][1] + 1 == where[a][1])
                ok = same and lab[p] == lab[a] and p not in used and a not in used and lab[a] != EQ
            if ok: cur.append(a)
            else:
                if len(cur) > 1: runs.append(cur)
                cur = [a]
        if len(cur) > 1: runs.append(cur)
        self._where = where
        for r in runs:
            self.merge_run(st, r, where.get(r[0]) is not None)

    def merge_run(self, st, run, inmem):
        en = self.en
        segs = [a for a in run if a[0] == 'S']; ents = [a for a in run if a[0] == 'E']
        # coefficients of the runs in every integer must agree
        lins = []
        def f(v):
            if not isinstance(v, tuple) or not v: return
            if v[0] == 'lin': lins.append(v); return
            if v[0] in ('tree', 'ctx', 'ref', 'op', 'box', 'fn'): return
            for x in v:
                if isinstance(x, tuple): f(x)
        for v in st.mem.values(): f(v)
        for l in lins:
            d = dict(l[2])
            if len({d.get(('n', s), 0) for s in segs}) > 1: return
        new = ('S', st.fresh())
        rs = set(run)
        # a run of entries only: how an integer counts them is a choice of representation
        nall = sum(1 for a in st.g['G'] if a[0] == 'E')
        nin = sum(1 for a in st.g['G'] if a[0] == 'E' and a in self._where)
        def g(v):
            if isinstance(v, int) or not isinstance(v, tuple) or not v: return v
            if v[0] == 'lin':
                d = dict(v[2])
                k = d.get(('n', segs[0]), 0) if segs else 0
                if not segs and (v[1] >= nall or (inmem and v[1] >= nin)): k = 1
                c = v[1] - k * len(ents)
                for s in segs: d.pop(('n', s), None)
                if k: d[('n', new)] = k
                return en.mklin(c, d)
            if v[0] == 'tree':
                return ('tree', sq(v[1]), v[2])
            if v[0] == 'ctx':
                return ('ctx', sq(v[1]), v[2], sq(v[3]), v[4])
            if v[0] in ('ref', 'op', 'box', 'fn'): return v
            return tuple(g(x) if isinstance(x, tuple) else x for x in v)
        def sq(l):
            out = []; done = False
            for a in l:
                if a in rs:
                    if not done: out.append(new); done = True
                else: out.append(a)
            return tuple(out)
        for b in list(st.mem): st.mem[b] = g(st.mem[b])
        st.g['G'] = sq(st.g['G'])
        lab = dict(st.g['lab'])
        m = lab[run[0]]
        for a in run: lab.pop(a)
        lab[new] = m
        st.g['lab'] = lab
        ne = set(st.g['ne'])
        if ents or any(s in ne for s in segs): ne.add(new)
        st.g['ne'] = frozenset(ne - rs)

    def canon(self, st):
        names = {}
        def nm(v):
            if not isinstance(v, tuple): return v
            if len(v) == 2 and v[0] == '#':
                if v not in names: names[v] = ('#', 'c%d' % len(names))
                return names[v]
            if v and v[0] == 'fn' : return v
            return tuple(nm(x) if isinstance(x, tuple) else x for x in v)
        out = []
        seen = set(); work = []
        def visit(b):
            if b in seen or b not in st.mem: return
            seen.add(b)
            v = st.mem[b]
            out.append((nm(b), nm(v)))
            def f(x):
                if not isinstance(x, tuple) or not x: return
                if x[0] == 'ref': work.append(x[1]); return
                if x[0] == 'box': work.append(('H', x[1])); return
                if x[0] == 'ctx': work.append(x[2]); return
                if x[0] in ('op', 'lin', 'tree', 'fn'): return
                for y in x:
                    if isinstance(y, tuple): f(y)
            f(v)
        for fr in st.frames:
            out.append((fr.body['id'] if fr.body else fr.native, fr.bb, nm(fr.uid), nm(fr.dest), fr.target, nm(fr.data) if isinstance(fr.data, tuple) else repr(fr.data), fr.drop))
            if fr.body:
                for i in range(len(fr.body['locals'])):
                    visit(('L', fr.uid, i))
                    while work: visit(work.pop(0))
            visit(fr.dest[0])
            while work: visit(work.pop(0))
        for b in sorted((b for b in st.mem if b[0] == 'A'), key=repr):
            visit(b)
            while work: visit(work.pop(0))
        G = tuple((nm(a), st.g['lab'][a], a in st.g['ne']) for a in st.g['G'])
        return repr((out, G, nm(st.trace)))

def splice(l, a, repl):
    i = l.index(a) if a in l else None
    if i is None: return l
    return l[:i] + tuple(repl) + l[i+1:]
