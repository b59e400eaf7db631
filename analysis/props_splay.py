from registry import prop
from splay_specs import *

ASSUME = ['the comparator is a consistent total order on the stored keys and the query (results Greater* Equal? Less* along the in-order sequence)',
          'the tree holds distinct keys in order on entry (established by insert/remove themselves, S03/S04)',
          'models of mem::{replace,swap,take,drop}, Box::new, UnsafeCell as documented',
          'panics unwinding out of user code (comparator, Drop of keys and values) are not considered']
COLLECT = 'core::iter::traits::collect::IntoIterator'

def m(rep, p, name, adt, extra, chk, rule, trait=None, ap=None):
    run_method(rep, p, getroot(p, name, adt, trait), extra, rule, chk, ap)

@prop('S01', assumptions=ASSUME, floor=6)
def s01(p, rep, tier):
    """Every lookup method is interpreted on a tree of arbitrary size and shape; at each exit the result must agree with the ghost in-order content (a match exactly when an entry compares Equal, a reference to that entry) and the content must be the one on entry."""
    R = 'lookup result agrees with the stored entries and the content is untouched'
    m(rep, p, 'get', TREE, query, spec_lookup('val'), R)
    m(rep, p, 'get_mut', TREE, query, spec_lookup('val'), R)
    m(rep, p, 'find_key', TREE, query, spec_lookup('key'), R)
    m(rep, p, 'contains', TREE, query, spec_lookup('bool'), R)
    m(rep, p, 'index', TREE, query, spec_lookup('index'), R, 'core::ops::index::Index', panic_if_absent)
    m(rep, p, 'index_mut', TREE, query, spec_lookup('index'), R, 'core::ops::index::IndexMut', panic_if_absent)

@prop('S02', assumptions=ASSUME, floor=4)
def s02(p, rep, tier):
    """next/prev/min/max on a tree of arbitrary size and shape: the result must be the neighbouring (extreme) entry of the ghost in-order content, None exactly when there is none, content untouched."""
    R = 'neighbour query returns the adjacent entry and the content is untouched'
    m(rep, p, 'next', TREE, query, spec_neighbour('next'), R)
    m(rep, p, 'prev', TREE, query, spec_neighbour('prev'), R)
    m(rep, p, 'min', TREE, nokey, spec_neighbour('min'), R)
    m(rep, p, 'max', TREE, nokey, spec_neighbour('max'), R)

@prop('S03', assumptions=ASSUME, floor=2)
def s03(p, rep, tier):
    """insert on a tree of arbitrary size and shape: the in-order content afterwards is the old one with the entry added at its place (or its value replaced and the old value returned), count updated; Extend inserts every item of its input, in order."""
    R = 'insert stores exactly the given entry'
    m(rep, p, 'insert', TREE, newkv, spec_insert(False), R)
    extend(rep, p, TREE, 'insert', 2)
    extend_one(rep, p, TREE, False)

@prop('S04', assumptions=ASSUME, floor=1)
def s04(p, rep, tier):
    """remove on a tree of arbitrary size and shape: the in-order content afterwards is the old one without the matching entry, whose value is returned; absent keys change nothing."""
    m(rep, p, 'remove', TREE, query, spec_remove(False), 'remove deletes exactly the matching entry')

@prop('S05', assumptions=ASSUME, floor=7)
def s05(p, rep, tier):
    """Owning iteration: into_iter keeps the content, each next/next_back step takes exactly the first/last entry off the in-order content and ends only when it is empty, size_hint is the exact number left. By induction on steps every entry is yielded once, in order, from both ends."""
    R = 'owning iteration yields each entry once, in order'
    m(rep, p, 'into_iter', TREE, nokey, spec_into, R, COLLECT)
    m(rep, p, 'next', TITER, nokey, spec_iter('next', False), R, NEXT)
    m(rep, p, 'next_back', TITER, nokey, spec_iter('back', False), R, BACK)
    m(rep, p, 'size_hint', TITER, nokey, spec_hint, R, NEXT)
    m(rep, p, 'into_iter', SET, nokey, spec_into, R, COLLECT)
    m(rep, p, 'next', SITER, nokey, spec_iter('next', True), R, NEXT)
    m(rep, p, 'next_back', SITER, nokey, spec_iter('back', True), R, BACK)
    m(rep, p, 'size_hint', SITER, nokey, spec_hint, R, NEXT)
    overrides(rep, p, TITER, False, R)
    overrides(rep, p, SITER, True, R)

@prop('S06', assumptions=ASSUME, floor=6)
def s06(p, rep, tier):
    """clear, and dropping a tree, a set or a partly consumed iterator: no path hands a subtree of unbounded depth to drop glue (which recurses), and clear leaves an empty tree with count zero."""
    R = 'no unbounded recursive release'
    both = lambda ctx, f: spec_clear(ctx, f) + spec_nodeep(ctx, f)
    m(rep, p, 'clear', TREE, nokey, both, R)
    m(rep, p, 'clear', SET, nokey, both, R)
    for adt in (TREE, SET, TITER, SITER): drop_value(rep, p, adt, R)
    for name, adt, extra, trait in (('insert', TREE, newkv, None), ('remove', TREE, query, None), ('get', TREE, query, None),
                                    ('next', TITER, nokey, NEXT), ('next_back', TITER, nokey, BACK), ('into_iter', TREE, nokey, COLLECT)):
        m(rep, p, name, adt, extra, spec_nodeep, R, trait)

@prop('S07', assumptions=ASSUME, floor=5)
def s07(p, rep, tier):
    """len and is_empty against the ghost content; new gives an empty tree; insert/remove/clear keep the stored count equal to the number of entries."""
    R = 'count equals number of entries'
    def onlysize(ctx, f):
        out = []
        me = f.st.mem[('A', 'self')]
        chk_size(ctx, f.st, me, walk_struct(ctx, f.st, me), out)
        return out
    m(rep, p, 'len', TREE, nokey, spec_len('len'), R)
    m(rep, p, 'is_empty', TREE, nokey, spec_len('empty'), R)
    m(rep, p, 'len', SET, nokey, spec_len('len'), R)
    m(rep, p, 'is_empty', SET, nokey, spec_len('empty'), R)
    for n, e in (('insert', newkv), ('remove', query), ('get', query), ('get_mut', query), ('find_key', query), ('next', query), ('prev', query)):
        m(rep, p, n, TREE, e, onlysize, R)
    m(rep, p, 'clear', TREE, nokey, spec_clear, R)
    new_empty(rep, p, TREE, R); new_empty(rep, p, SET, R)

@prop('S08', assumptions=ASSUME, floor=9)
def s08(p, rep, tier):
    """Every SplaySet method interpreted down to the tree nodes, on a set of arbitrary size and shape, against the same ghost content as the map."""
    R = 'set operation agrees with the stored elements'
    m(rep, p, 'find', SET, query, spec_lookup('key'), R)
    m(rep, p, 'contains', SET, query, spec_lookup('bool'), R)
    m(rep, p, 'next', SET, query, spec_neighbour('next', True), R)
    m(rep, p, 'prev', SET, query, spec_neighbour('prev', True), R)
    m(rep, p, 'min', SET, nokey, spec_neighbour('min', True), R)
    m(rep, p, 'max', SET, nokey, spec_neighbour('max', True), R)
    m(rep, p, 'insert', SET, newk, spec_insert(True), R)
    m(rep, p, 'remove', SET, query, spec_remove(True), R)
    m(rep, p, 'len', SET, nokey, spec_len('len'), R)
    m(rep, p, 'is_empty', SET, nokey, spec_len('empty'), R)
    m(rep, p, 'clear', SET, nokey, spec_clear, R)
    extend(rep, p, SET, 'insert', 1)
    extend_one(rep, p, SET, True)

@prop('S09', assumptions=ASSUME, floor=15)
def s09(p, rep, tier):
    """Every method that takes a tree or set by shared reference is interpreted on a tree of arbitrary size and shape; every write into a node is inspected: none may put a stored key or value into another node, a new node or overwrite one. Nodes are boxed, so entries keep their address and references handed out before stay valid."""
    stay_put(rep, p, 'shared lookups leave every entry in its place in memory')
