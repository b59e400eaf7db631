"""Models of sequences (Vec, slices, arrays, VecDeque, SmallVec), their iterators, slabs, heaps,
ordered maps and sets, cells and smart pointers.  Sequences have a known length and unknown
elements; every model is the documented behaviour of the item."""
from mai import *
from natives import TABLE, STEPS, stepfn, rd, wr, push_drop
import natives

COLL = TABLE      # these models are always available
def model(*names):
    def deco(f):
        for n in names: COLL[n] = f
        return f
    return deco

def seqref(en, st, r):
    """reference (or owner) of a sequence -> (base, path, lo, hi, value)"""
    b, p, view = en.deref(st, r)
    v = en.read(st, b, p)
    while isinstance(v, tuple) and v[0] in ('ref', 'box'):
        b, p, view = en.deref(st, v)
        v = en.read(st, b, p)
    if v[0] == 'op': v = en.expand_seq(st, b, p, v) if hasattr(en, 'expand_seq') else v
    if v[0] == 'adt' and len(v[3]) == 1 and isinstance(v[3][0], tuple) and v[3][0][0] == 'seq':
        p = p + (('f', 0),); v = v[3][0]
    if v[0] != 'seq': raise Undecided('not a known sequence: %r' % (v[0],))
    lo, hi = view if view else (0, len(v[2]))
    return b, p, lo, hi, v

def items(en, st, r):
    b, p, lo, hi, v = seqref(en, st, r)
    return list(v[2][lo:hi])

def setitems(en, st, r, its):
    b, p, lo, hi, v = seqref(en, st, r)
    en.write(st, b, p, ('seq', v[1], tuple(v[2][:lo]) + tuple(its) + tuple(v[2][hi:])))

def elemref(b, p, i): return ('ref', b, p + (('i', i),), None)

def refs(en, st, r):
    b, p, lo, hi, v = seqref(en, st, r)
    return [elemref(b, p, i) for i in range(lo, hi)]

VEC = 'std::vec::Vec::<T, A>::'
VECT = 'std::vec::Vec::<T>::'
SL = 'core::slice::<impl [T]>::'
SL2 = 'std::slice::<impl [T]>::'
VD = 'std::collections::VecDeque::<T, A>::'
VDT = 'std::collections::VecDeque::<T>::'
SV = 'smallvec::SmallVec::<A>::'

@model(VECT + 'new', VECT + 'with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def vec_new(en, st, c): return ('seq', 'vec', ())
@model(VDT + 'new', VDT + 'with_capacity', '<std::collections::VecDeque<T> as std::default::Default>::default')
def vd_new(en, st, c): return ('seq', 'deque', ())
@model(SV + 'new', SV + 'with_capacity', '<smallvec::SmallVec<A> as std::default::Default>::default')
def sv_new(en, st, c): return ('seq', 'smallvec', ())

@model(VEC + 'len', SL + 'len', VD + 'len', SV + 'len')
def s_len(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0]); return hi - lo
@model(VEC + 'is_empty', SL + 'is_empty', VD + 'is_empty', SV + 'is_empty')
def s_empty(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0]); return hi == lo
@model(VEC + 'capacity', VD + 'capacity', SV + 'capacity')
def s_cap(en, st, c): return ('op', ('capacity',), c.c['ret'])
@model(VEC + 'reserve', VEC + 'shrink_to_fit', VEC + 'reserve_exact', VD + 'reserve', SV + 'reserve')
def s_noop(en, st, c): return UNIT

@model(VEC + 'push', VD + 'push_back', SV + 'push')
def s_push(en, st, c):
    setitems(en, st, c.args[0], items(en, st, c.args[0]) + [c.args[1]]); return UNIT
@model(VD + 'push_front')
def s_pushf(en, st, c):
    setitems(en, st, c.args[0], [c.args[1]] + items(en, st, c.args[0])); return UNIT
@model(VEC + 'pop', VD + 'pop_back', SV + 'pop')
def s_pop(en, st, c):
    x = items(en, st, c.args[0])
    if not x: return NONE
    setitems(en, st, c.args[0], x[:-1]); return some(x[-1])
@model(VD + 'pop_front')
def s_popf(en, st, c):
    x = items(en, st, c.args[0])
    if not x: return NONE
    setitems(en, st, c.args[0], x[1:]); return some(x[0])
@model(VEC + 'clear', VD + 'clear', SV + 'clear')
def s_clear(en, st, c):
    setitems(en, st, c.args[0], []); return UNIT
@model(VEC + 'truncate', VD + 'truncate', SV + 'truncate')
def s_trunc(en, st, c):
    n = c.args[1]
    if not isinstance(n, int): raise Undecided('truncate to an unknown length')
    setitems(en, st, c.args[0], items(en, st, c.args[0])[:n]); return UNIT
@model(VEC + 'insert', SV + 'insert', VD + 'insert')
def s_insert(en, st, c):
    x = items(en, st, c.args[0]); i = c.args[1]
    if not isinstance(i, int): raise Undecided('insert at an unknown index')
    if i > len(x): return ('$panic', 'insert out of bounds')
    x.insert(i, c.args[2]); setitems(en, st, c.args[0], x); return UNIT
@model(VEC + 'remove', SV + 'remove')
def s_remove(en, st, c):
    x = items(en, st, c.args[0]); i = c.args[1]
    if not isinstance(i, int): raise Undecided('remove at an unknown index')
    if i >= len(x): return ('$panic', 'remove out of bounds')
    r = x.pop(i); setitems(en, st, c.args[0], x); return r
@model(VEC + 'swap_remove', SV + 'swap_remove')
def s_swrem(en, st, c):
    x = items(en, st, c.args[0]); i = c.args[1]
    if not isinstance(i, int): raise Undecided('swap_remove at an unknown index')
    if i >= len(x): return ('$panic', 'swap_remove out of bounds')
    r = x[i]; x[i] = x[-1]; x.pop(); setitems(en, st, c.args[0], x); return r
@model(VEC + 'append')
def s_append(en, st, c):
    y = items(en, st, c.args[1]); setitems(en, st, c.args[0], items(en, st, c.args[0]) + y); setitems(en, st, c.args[1], []); return UNIT
@model(SL + 'reverse', SL2 + 'reverse')
def s_rev(en, st, c):
    setitems(en, st, c.args[0], items(en, st, c.args[0])[::-1]); return UNIT
@model(SL + 'swap')
def s_swap(en, st, c):
    x = items(en, st, c.args[0]); i, j = c.args[1], c.args[2]
    if not (isinstance(i, int) and isinstance(j, int)): raise Undecided('swap at unknown indices')
    if i >= len(x) or j >= len(x): return ('$panic', 'swap out of bounds')
    x[i], x[j] = x[j], x[i]; setitems(en, st, c.args[0], x); return UNIT
@model('std::vec::from_elem')
def s_fromelem(en, st, c):
    if not isinstance(c.args[1], int): raise Undecided('vec![x; n] of unknown length')
    if c.args[1] > 64: raise Undecided('vec![x; n] too long')
    return ('seq', 'vec', (c.args[0],) * c.args[1])

def _end(which, mutable):
    def f(en, st, c):
        r = refs(en, st, c.args[0])
        return some(r[which]) if r else NONE
    return f
for _pfx in (SL, VD, SL2):
    COLL[_pfx + 'first'] = COLL[_pfx + 'first_mut'] = COLL[_pfx + 'front'] = COLL[_pfx + 'front_mut'] = _end(0, 0)
    COLL[_pfx + 'last'] = COLL[_pfx + 'last_mut'] = COLL[_pfx + 'back'] = COLL[_pfx + 'back_mut'] = _end(-1, 0)

@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       '<smallvec::SmallVec<A> as std::ops::Deref>::deref', '<smallvec::SmallVec<A> as std::ops::DerefMut>::deref_mut',
       VEC + 'as_slice', VEC + 'as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow',
       SV + 'as_slice', SV + 'as_mut_slice', VD + 'make_contiguous')
def s_deref(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0])
    return ('ref', b, p, (lo, hi))

def rng(en, st, i, n):
    """index value -> int or (lo, hi)"""
    if isinstance(i, int) and not isinstance(i, bool): return i
    if i[0] in ('lin', 'op'):
        raise Undecided('index by an unknown integer')
    if i[0] == 'adt':
        d = i[1].split('::')[-1]; f = i[3]
        if d == 'Range': return (f[0], f[1])
        if d == 'RangeFrom': return (f[0], n)
        if d == 'RangeTo': return (0, f[0])
        if d == 'RangeFull': return (0, n)
        if d == 'RangeInclusive': return (f[0], f[1] + 1)
        if d == 'RangeToInclusive': return (0, f[0] + 1)
    raise Undecided('index by %r' % (i,))

@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       '<smallvec::SmallVec<A> as std::ops::Index<I>>::index', '<smallvec::SmallVec<A> as std::ops::IndexMut<I>>::index_mut',
       'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       '<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index', '<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut')
def s_index(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0])
    k = rng(en, st, c.args[1], hi - lo)
    if isinstance(k, tuple):
        if not (0 <= k[0] <= k[1] <= hi - lo): return ('$panic', 'slice out of bounds')
        return ('ref', b, p, (lo + k[0], lo + k[1]))
    if not 0 <= k < hi - lo: return ('$panic', 'index out of bounds')
    return elemref(b, p, lo + k)

@model(SL + 'get', SL + 'get_mut', VD + 'get', VD + 'get_mut')
def s_get(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0])
    k = rng(en, st, c.args[1], hi - lo)
    if isinstance(k, tuple):
        if not (0 <= k[0] <= k[1] <= hi - lo): return NONE
        return some(('ref', b, p, (lo + k[0], lo + k[1])))
    return some(elemref(b, p, lo + k)) if 0 <= k < hi - lo else NONE
@model(SL + 'get_unchecked', SL + 'get_unchecked_mut')
def s_getu(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0])
    k = rng(en, st, c.args[1], hi - lo)
    if isinstance(k, tuple) or not 0 <= k < hi - lo: raise Undecided('get_unchecked out of range')
    return elemref(b, p, lo + k)
@model(SL + 'split_at', SL + 'split_at_mut')
def s_split(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0]); k = c.args[1]
    if not isinstance(k, int): raise Undecided('split_at of an unknown index')
    if k > hi - lo: return ('$panic', 'split_at out of bounds')
    return ('tup', (('ref', b, p, (lo, lo + k)), ('ref', b, p, (lo + k, hi))))
@model(SL + 'split_first', SL + 'split_last')
def s_splitf(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0])
    if hi == lo: return NONE
    if c.c['name'] == 'split_first': return some(('tup', (elemref(b, p, lo), ('ref', b, p, (lo + 1, hi)))))
    return some(('tup', (elemref(b, p, hi - 1), ('ref', b, p, (lo, hi - 1)))))

# ---- iterators: ('seq', 'iter', remaining items)
def it(x): return ('seq', 'iter', tuple(x))

@model(SL + 'iter', SL + 'iter_mut', VD + 'iter', VD + 'iter_mut',
       'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter',
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a smallvec::SmallVec<A> as std::iter::IntoIterator>::into_iter", "<&'a mut smallvec::SmallVec<A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter")
def s_iter(en, st, c): return it(refs(en, st, c.args[0]))

@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', '<smallvec::SmallVec<A> as std::iter::IntoIterator>::into_iter',
       'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter', '<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter')
def s_into(en, st, c):
    v = c.args[0]
    if v[0] == 'adt' and len(v[3]) == 1: v = v[3][0]
    if v[0] != 'seq': raise Undecided('into_iter of %r' % (v[0],))
    return it(v[2])

@model(VEC + 'drain', VD + 'drain', SV + 'drain')
def s_drain(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0])
    k = rng(en, st, c.args[1], hi - lo)
    if not (isinstance(k[0], int) and isinstance(k[1], int)): raise Undecided('drain of an unknown range')
    if not (0 <= k[0] <= k[1] <= hi - lo): return ('$panic', 'drain out of bounds')
    out = v[2][k[0]:k[1]]
    en.write(st, b, p, ('seq', v[1], v[2][:k[0]] + v[2][k[1]:]))
    return it(out)

@model(SL + 'windows')
def s_windows(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0]); n = c.args[1]
    return it([('ref', b, p, (i, i + n)) for i in range(lo, hi - n + 1)])
@model(SL + 'chunks', SL + 'chunks_exact')
def s_chunks(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0]); n = c.args[1]
    r = []
    i = lo
    while i < hi:
        j = min(i + n, hi)
        if j - i == n or c.c['name'] == 'chunks': r.append(('ref', b, p, (i, j)))
        i = j
    return it(r)

ITN = ["std::collections::binary_heap::Iter<'a, T>", "std::collections::binary_heap::IntoIter<T, A>", "slab::Iter<'a, T>", "slab::IterMut<'a, T>", "std::collections::btree_set::IntoIter<T, A>", "std::slice::Iter<'a, T>", "std::slice::IterMut<'a, T>", "std::slice::Windows<'a, T>", "std::slice::Chunks<'a, T>", 'std::array::IntoIter<T, N>', 'std::vec::IntoIter<T, A>', 'smallvec::IntoIter<A>',
       "std::vec::Drain<'_, T, A>", "std::vec::Drain<'a, T, A>", "std::collections::vec_deque::Iter<'a, T>", "std::collections::vec_deque::IterMut<'a, T>", 'std::collections::vec_deque::IntoIter<T, A>',
       "std::collections::vec_deque::Drain<'_, T, A>", "smallvec::Drain<'a, T>", "std::collections::btree_set::Range<'a, T>", "std::collections::btree_set::Iter<'a, T>", "std::collections::btree_map::Iter<'a, K, V>",
       'std::collections::btree_map::IntoIter<K, V, A>', "std::collections::btree_map::IterMut<'a, K, V>", "std::slice::ChunksExact<'a, T>", "std::slice::Iter<'_, T>", "std::collections::btree_map::Values<'a, K, V>", "std::collections::btree_map::Keys<'a, K, V>", "std::collections::btree_map::ValuesMut<'a, K, V>"]
ITM = {}         # iterator methods by trait and name, for iterators of unknown type
def itm(name, trait, f):
    ITM[(trait.replace('std::iter::', 'core::iter::traits::iterator::' if trait == 'std::iter::Iterator' else 'core::iter::traits::double_ended::' if trait.endswith('DoubleEndedIterator') else 'core::iter::traits::exact_size::'), name)] = f
    for n in ITN: COLL['<%s as %s>::%s' % (n, trait, name)] = f
ITER = 'std::iter::Iterator'
def take_front(en, st, c):
    v = rd(en, st, c.args[0])
    if v[0] != 'seq' or v[1] != 'iter': raise Undecided('next of %r' % (v[0],))
    if not v[2]: return NONE
    wr(en, st, c.args[0], it(v[2][1:])); return some(v[2][0])
def take_back(en, st, c):
    v = rd(en, st, c.args[0])
    if v[0] != 'seq' or v[1] != 'iter': raise Undecided('next_back of %r' % (v[0],))
    if not v[2]: return NONE
    wr(en, st, c.args[0], it(v[2][:-1])); return some(v[2][-1])
def it_hint(en, st, c):
    n = len(rd(en, st, c.args[0])[2]); return ('tup', (n, some(n)))
itm('next', ITER, take_front)
itm('next_back', 'std::iter::DoubleEndedIterator', take_back)
itm('size_hint', ITER, it_hint)
itm('len', 'std::iter::ExactSizeIterator', lambda en, st, c: len(rd(en, st, c.args[0])[2]))
itm('clone', 'std::clone::Clone', lambda en, st, c: rd(en, st, c.args[0]))
itm('count', ITER, lambda en, st, c: len(c.args[0][2]))
itm('last', ITER, lambda en, st, c: some(c.args[0][2][-1]) if c.args[0][2] else NONE)
def it_nth(en, st, c):
    v = rd(en, st, c.args[0]); n = c.args[1]
    wr(en, st, c.args[0], it(v[2][n + 1:]))
    return some(v[2][n]) if n < len(v[2]) else NONE
itm('nth', ITER, it_nth)

def _hof(name, kind, byref):
    def f(en, st, c):
        v = rd(en, st, c.args[0]) if byref else c.args[0]
        if v[0] != 'seq': raise Undecided('%s of %r' % (name, v[0]))
        acc = c.args[1] if name in ('fold', 'rfold') else None
        fn = c.args[2] if name in ('fold', 'rfold') else c.args[1]
        b = st.alloc(fn, 'HOF')
        en.push_native(st, 'hof', (name, c.args[0] if byref else None, v[2], 0, acc, ('ref', b, (), None), False), c.dest, c.target)
        return ('$pushed',)
    return f
for _n, _b in (('fold', 0), ('for_each', 0), ('position', 1), ('any', 1), ('all', 1), ('find', 1), ('find_map', 1)): itm(_n, ITER, _hof(_n, ITER, _b))

@stepfn('hof')
def step_hof(en, st, fr):
    name, src, its, i, acc, fn, waiting = fr.data
    if waiting:
        r = st.mem[('L', fr.uid, 0)]
        if name == 'fold': acc = r
        elif name == 'for_each': pass
        else:
            if name == 'find_map':
                r = r if r[0] == 'adt' else en.concretise(st, ('L', fr.uid, 0), ())
                hit = r[2] == 1
            else:
                hit = en.truth(st, r)
            if name == 'all': hit = not hit
            if hit:
                k = i - 1
                if src is not None: wr(en, st, src, it(its[i:]))
                if name == 'position': return ('ret', some(k))
                if name == 'rposition': return ('ret', some(len(its) - 1 - k))
                if name == 'any': return ('ret', True)
                if name == 'all': return ('ret', False)
                if name == 'find': return ('ret', some(its[k]))
                if name == 'find_map': return ('ret', r)
        fr.data = (name, src, its, i, acc, fn, False)
        return ('again',)
    if i >= len(its):
        if src is not None: wr(en, st, src, it(()))
        return ('ret', {'fold': acc, 'for_each': UNIT, 'position': NONE, 'rposition': NONE, 'any': False, 'all': True, 'find': NONE, 'find_map': NONE}[name])
    fr.data = (name, src, its, i + 1, acc, fn, True)
    if name == 'fold': args = [acc, its[i]]
    elif name == 'find':
        b = st.alloc(its[i], 'HOF'); args = [('ref', b, (), None)]
    else: args = [its[i]]
    return ('call', fn, args)

# ---- collecting / extending from an arbitrary iterator: drive its next()
def _collect(kind, into):
    def f(en, st, c):
        src = c.args[-1]
        have = () if not into else tuple(items(en, st, c.args[0]))
        if isinstance(src, tuple) and src[0] == 'adt' and src[1] == OPT: src = it(src[3])
        if kind == '$deref':
            if src[0] == 'ref': src = it(items(en, st, src))
            elif src[0] == 'seq': src = it(tuple(rd(en, st, x) for x in src[2]))
        if isinstance(src, tuple) and src[0] == 'seq' and src[1] == 'iter':
            if into: setitems(en, st, c.args[0], have + src[2]); return UNIT
            return ('seq', kind, src[2])
        if isinstance(src, tuple) and src[0] == 'seq':
            if into: setitems(en, st, c.args[0], have + src[2]); return UNIT
            return ('seq', kind, src[2])
        nx = en.p.next_for(c)
        if nx is None: raise Undecided('collect: iterator of unknown type')
        b = st.alloc(src, 'IT')
        en.push_native(st, 'collect', (kind, c.args[0] if into else None, ('ref', b, (), None), nx, (), False), c.dest, c.target)
        return ('$pushed',)
    return f
for _n, _k in (('std::vec::Vec<T>', 'vec'), ('smallvec::SmallVec<A>', 'smallvec'), ('std::collections::VecDeque<T>', 'deque')):
    it_ = '<A as smallvec::Array>::Item' if 'small' in _n else 'T'
    COLL['<%s as std::iter::FromIterator<%s>>::from_iter' % (_n, it_)] = _collect(_k, False)
for _n in ('std::vec::Vec<T, A>', 'smallvec::SmallVec<A>', 'std::collections::VecDeque<T, A>'):
    it_ = '<A as smallvec::Array>::Item' if 'small' in _n else 'T'
    COLL['<%s as std::iter::Extend<%s>>::extend' % (_n, it_)] = _collect('', True)
    COLL["<%s as std::iter::Extend<&'a %s>>::extend" % (_n, it_)] = _collect('$deref', True)


@stepfn('collect')
def step_collect(en, st, fr):
    kind, dst, ref, nx, got, waiting = fr.data
    if waiting:
        r = st.mem[('L', fr.uid, 0)]
        if r[0] != 'adt': r = en.concretise(st, ('L', fr.uid, 0), ())
        if r[2] == 0:
            if dst is None:
                return ('ret', ('seq', kind, got))
            if kind == '$deref': got = tuple(rd(en, st, x) for x in got)
            setitems(en, st, dst, items(en, st, dst) + list(got)); return ('ret', UNIT)
        if len(got) > getattr(en, "collect_bound", 12): raise Undecided('collect: loop bound')
        fr.data = (kind, dst, ref, nx, got + (r[3][0],), False)
        return ('again',)
    fr.data = (kind, dst, ref, nx, got, True)
    def go(en, st, dest):
        return en.call(st, None, nx, [ref], [None], dest, 0, '')
    return ('callm', go, ())

# ---- clone of containers: elements are cloned value-wise
@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<smallvec::SmallVec<A> as std::clone::Clone>::clone', '<std::collections::VecDeque<T, A> as std::clone::Clone>::clone',
       '<std::cell::Cell<T> as std::clone::Clone>::clone', SL2 + 'to_vec', 'std::slice::<impl [T]>::to_vec')
def s_clone(en, st, c):
    b, p, w = en.deref(st, c.args[0])
    v = en.read(st, b, p)
    if w and v[0] == 'seq': return ('seq', 'vec', v[2][w[0]:w[1]])
    return v

# ---- sorting by a comparator (insertion sort on the known length)
def _sort(en, st, c):
    its = items(en, st, c.args[0])
    if len(its) < 2: return UNIT
    fn = c.args[1] if len(c.args) > 1 else None
    if fn is None:
        # numbers, points and tuples of them: by value (the order of points is O01)
        l = []
        for x in its:
            j = len(l)
            while j and ordv(en, st, l[j - 1], x) > (-1 if 'unstable' in c.c['name'] else 0): j -= 1
            l.insert(j, x)
        setitems(en, st, c.args[0], tuple(l)); return UNIT
    b = st.alloc(fn, 'HOF')
    # an unstable sort promises nothing about equal elements: take them in reverse
    en.push_native(st, 'sort', (c.args[0], (), tuple(its), None, ('ref', b, (), None), False, 'unstable' in c.c['name']), c.dest, c.target)
    return ('$pushed',)
for _n in ('sort_by', 'sort_unstable_by', 'sort', 'sort_unstable'):
    COLL[SL + _n] = _sort; COLL[SL2 + _n] = _sort
@stepfn('sort')
def step_sort(en, st, fr):
    dst, done, rest, j, fn, waiting, unst = fr.data
    if waiting:
        r = st.mem[('L', fr.uid, 0)]
        if r[0] != 'adt': r = en.concretise(st, ('L', fr.uid, 0), ())
        # compared done[j] with rest[0]
        if r[2] == 2 or r[2] == 1 and unst:      # done[j] > x : keep moving left
            fr.data = (dst, done, rest, j - 1, fn, False, unst)
        else:
            fr.data = (dst, done[:j + 1] + (rest[0],) + done[j + 1:], rest[1:], None, fn, False, unst)
        return ('again',)
    if not rest:
        setitems(en, st, dst, done); return ('ret', UNIT)
    if j is None: j = len(done) - 1
    if j < 0:
        fr.data = (dst, (rest[0],) + done, rest[1:], None, fn, False, unst); return ('again',)
    fr.data = (dst, done, rest, j, fn, True, unst)
    a = st.alloc(done[j], 'HOF'); b = st.alloc(rest[0], 'HOF')
    args = [('ref', a, (), None), ('ref', b, (), None)]
    if isinstance(fn, dict):
        def go(en, st, dest): return en.call(st, None, fn, args, [None, None], dest, 0, '')
        return ('callm', go, ())
    return ('call', fn, args)

# ---- smart pointers and cells
@model('<std::rc::Rc<T, A> as std::ops::Deref>::deref', '<std::sync::Arc<T, A> as std::ops::Deref>::deref',
       '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut',
       '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow')
def p_deref(en, st, c):
    b, p, w = en.deref(st, c.args[0])
    v = en.read(st, b, p)
    if v[0] in ('box', 'ref'):
        b, p, w = en.deref(st, v); return ('ref', b, p, w)
    if v[0] == 'op':
        k = ('D', st.ord.rep(v[1]))
        if k not in st.mem:
            t = en.T[v[2]] if v[2] is not None else {}
            st.mem[k] = ('op', ('*', v[1]), t.get('args', [None])[0])
        return ('ref', k, (), None)
    raise Undecided('deref of %r' % (v[0],))
@model('std::boxed::convert::<impl std::convert::From<T> for std::boxed::Box<T>>::from')
def b_from(en, st, c):
    i = st.fresh(); st.mem[('H', i)] = c.args[0]; return ('box', i)
@model('std::cell::Cell::<T>::new', '<std::cell::Cell<T> as std::convert::From<T>>::from')
def c_new(en, st, c): return ('adt', 'core::cell::Cell', 0, (c.args[0],))
@model('std::cell::Cell::<T>::get')
def c_get(en, st, c):
    b, p, w = en.deref(st, c.args[0]); return en.read(st, b, p + (('f', 0),))
@model('std::cell::Cell::<T>::set')
def c_set(en, st, c):
    b, p, w = en.deref(st, c.args[0]); en.write(st, b, p + (('f', 0),), c.args[1]); return UNIT
@model('std::cell::Cell::<T>::replace')
def c_repl(en, st, c):
    b, p, w = en.deref(st, c.args[0]); v = en.read(st, b, p + (('f', 0),)); en.write(st, b, p + (('f', 0),), c.args[1]); return v

# ---- slab: cells keyed by small integers
def slab_value(st, sid): return ('slab', sid)
def slab_of(en, st, r):
    b, p, w = en.deref(st, r)
    v = en.read(st, b, p)
    while v[0] in ('box', 'ref'):
        b, p, w = en.deref(st, v); v = en.read(st, b, p)
    if v[0] != 'slab': raise Undecided('not a modelled slab: %r' % (v[0],))
    return v[1]
def slab_keys(st, sid): return st.g[('slab', sid)]
def cell(sid, k): return ('SL', sid, k)
SB = 'slab::Slab::<T>::'
@model(SB + 'with_capacity', SB + 'new', '<slab::Slab<T> as std::default::Default>::default')
def slab_new(en, st, c):
    sid = st.fresh(); st.g[('slab', sid)] = (); st.g[('slabn', sid)] = 0
    return ('slab', sid)
def new_key(st, sid):
    # the key freed last is given out first
    for k, _ in reversed(st.g.get(('gone', sid), ())):
        if k not in slab_keys(st, sid): return k
    return st.g[('slabn', sid)]
def put_slab(st, sid, k, v):
    st.mem[cell(sid, k)] = v; st.g[('slab', sid)] = slab_keys(st, sid) + (k,)
    st.g[('slabn', sid)] = max(st.g[('slabn', sid)], k + 1)
@model(SB + 'vacant_key')
def slab_vk(en, st, c): return new_key(st, slab_of(en, st, c.args[0]))
@model(SB + 'vacant_entry')
def slab_vac(en, st, c):
    sid = slab_of(en, st, c.args[0])
    return ('adt', 'slab::VacantEntry', 0, (('slabref', sid), new_key(st, sid)))
@model("slab::VacantEntry::<'a, T>::key")
def vac_key(en, st, c): return rd(en, st, c.args[0])[3][1]
@model("slab::VacantEntry::<'a, T>::insert")
def vac_ins(en, st, c):
    sid = c.args[0][3][0][1]; k = c.args[0][3][1]
    put_slab(st, sid, k, c.args[1])
    return ('ref', cell(sid, k), (), None)
@model(SB + 'insert')
def slab_ins(en, st, c):
    sid = slab_of(en, st, c.args[0]); k = new_key(st, sid)
    put_slab(st, sid, k, c.args[1])
    return k
def keyarg(k):
    if isinstance(k, tuple) and k[0] == 'ref': raise Undecided('slab key by reference')
    if not isinstance(k, int): raise Undecided('slab key is unknown')
    return k
@model(SB + 'get', SB + 'get_mut')
def slab_get(en, st, c):
    sid = slab_of(en, st, c.args[0]); k = keyarg(c.args[1])
    return some(('ref', cell(sid, k), (), None)) if k in slab_keys(st, sid) else NONE
@model(SB + 'contains')
def slab_has(en, st, c):
    sid = slab_of(en, st, c.args[0]); return keyarg(c.args[1]) in slab_keys(st, sid)
@model(SB + 'get_unchecked', SB + 'get_unchecked_mut')
def slab_getu(en, st, c):
    sid = slab_of(en, st, c.args[0]); k = keyarg(c.args[1])
    if k not in slab_keys(st, sid):
        return ('$panic', 'unchecked access to a segment that is not stored')
    return ('ref', cell(sid, k), (), None)
@model('<slab::Slab<T> as std::ops::Index<usize>>::index', '<slab::Slab<T> as std::ops::IndexMut<usize>>::index_mut')
def slab_idx(en, st, c):
    sid = slab_of(en, st, c.args[0]); k = keyarg(c.args[1])
    if k not in slab_keys(st, sid): return ('$panic', 'slab index of a missing key')
    return ('ref', cell(sid, k), (), None)
@model(SB + 'remove', SB + 'try_remove')
def slab_rem(en, st, c):
    sid = slab_of(en, st, c.args[0]); k = keyarg(c.args[1])
    t = c.c['name'] == 'try_remove'
    if k not in slab_keys(st, sid): return NONE if t else ('$panic', 'removal of a segment that is not stored')
    v = st.mem[cell(sid, k)]
    st.g[('slab', sid)] = tuple(x for x in slab_keys(st, sid) if x != k)
    st.g.setdefault(('gone', sid), ()); st.g[('gone', sid)] = st.g[('gone', sid)] + ((k, v),)
    return some(v) if t else v
@model(SB + 'len')
def slab_len(en, st, c): return len(slab_keys(st, slab_of(en, st, c.args[0])))
@model(SB + 'is_empty')
def slab_isem(en, st, c): return not slab_keys(st, slab_of(en, st, c.args[0]))

# ---- logging is off: log statements only read
@model('log::max_level')
def log_max(en, st, c): return ('op', ('log-max',), c.c['ret'])
@model('<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::partial_cmp')
def log_cmp(en, st, c): return some(ORD_GREATER)
@model('<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::le', '<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::lt')
def log_le(en, st, c): return False

# ---- ordered maps and sets with known contents
def kterm(en, st, v):
    if isinstance(v, int): return ('i', v)
    return en.term(st, v)
def key3(en, st, a, b):
    if isinstance(a, tuple) and a[0] == 'ref': a = rd(en, st, a)
    if isinstance(b, tuple) and b[0] == 'ref': b = rd(en, st, b)
    if isinstance(a, int) and isinstance(b, int): return (a > b) - (a < b)
    h = en.hooks.get('key3')
    if h:
        r = h(en, st, a, b)
        if r is not None: return r
    return en.cmp3(st, kterm(en, st, a), kterm(en, st, b))
BM = 'std::collections::BTreeMap::<K, V, A>::'
@model('std::collections::BTreeMap::<K, V>::new', '<std::collections::BTreeMap<K, V> as std::default::Default>::default')
def bm_new(en, st, c): return ('seq', 'btree', ())
@model('std::collections::BTreeSet::<T>::new', '<std::collections::BTreeSet<T> as std::default::Default>::default')
def bs_new(en, st, c): return ('seq', 'bset', ())
def bm_find(en, st, its, k):
    """(index, found)"""
    for i, e in enumerate(its):
        ek = e[1][0] if isinstance(e, tuple) and e[0] == 'tup' and len(e[1]) == 2 else e
        r = key3(en, st, k, ek)
        if r == 0: return i, True
        if r < 0: return i, False
    return len(its), False
@model(BM + 'insert')
def bm_insert(en, st, c):
    its = items(en, st, c.args[0]); i, f = bm_find(en, st, its, c.args[1])
    if f:
        old = its[i][1][1]; its[i] = ('tup', (its[i][1][0], c.args[2])); r = some(old)
    else:
        its.insert(i, ('tup', (c.args[1], c.args[2]))); r = NONE
    setitems(en, st, c.args[0], its); return r
@model(BM + 'remove')
def bm_remove(en, st, c):
    its = items(en, st, c.args[0]); i, f = bm_find(en, st, its, c.args[1])
    if not f: return NONE
    e = its.pop(i); setitems(en, st, c.args[0], its); return some(e[1][1])
@model(BM + 'get', BM + 'get_mut')
def bm_get(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0])
    i, f = bm_find(en, st, v[2], c.args[1])
    return some(('ref', b, p + (('i', i), ('f', 1)), None)) if f else NONE
@model(BM + 'contains_key')
def bm_has(en, st, c): return bm_find(en, st, items(en, st, c.args[0]), c.args[1])[1]
@model(BM + 'len', 'std::collections::BTreeSet::<T, A>::len')
def bm_len(en, st, c): return len(items(en, st, c.args[0]))
@model(BM + 'is_empty', 'std::collections::BTreeSet::<T, A>::is_empty')
def bm_emp(en, st, c): return not items(en, st, c.args[0])
@model(BM + 'clear', 'std::collections::BTreeSet::<T, A>::clear')
def bm_clear(en, st, c): setitems(en, st, c.args[0], []); return UNIT
# ---- entries of a map
BE = "std::collections::btree_map::Entry::<'a, K, V, A>::"
@model(BM + 'entry')
def bm_entry(en, st, c):
    # the map is looked up again when the entry is used
    its = items(en, st, c.args[0]); i, f = bm_find(en, st, its, c.args[1])
    return ('adt', en.T[c.c['ret']]['def'], 1 if f else 0, (('adt', 'std::entry', 0, (c.args[0], c.args[1])),))
def default_of(en, ty):
    t = en.T[ty]; d = t.get('def') or ''
    if d.endswith('::Vec'): return ('seq', 'vec', ())
    if d.endswith('::VecDeque'): return ('seq', 'deque', ())
    if d.endswith('::SmallVec'): return ('seq', 'smallvec', ())
    if d == OPT: return NONE
    if t['s'] in ('usize', 'u32', 'i32', 'u64', 'isize', 'i64'): return 0
    if t['s'] == 'bool': return False
    raise Undecided('default of %s' % t['s'])
def entry_at(en, st, e, mk):
    ref, key = (e[3][0] if len(e[3]) == 1 else e)[3]
    b, p, lo, hi, v = seqref(en, st, ref)
    i, f = bm_find(en, st, v[2], key)
    if not f:
        its = list(v[2]); its.insert(i, ('tup', (key, mk()))); setitems(en, st, ref, its)
    b, p, lo, hi, v = seqref(en, st, ref)
    return ('ref', b, p + (('i', i), ('f', 1)), None)
@model(BE + 'or_default')
def be_default(en, st, c): return entry_at(en, st, c.args[0], lambda: default_of(en, en.T[c.c['ret']]['to']))
@model(BE + 'or_insert')
def be_insert(en, st, c): return entry_at(en, st, c.args[0], lambda: c.args[1])
# ---- one of two iterators over known elements
def _ends(v, back):
    """the elements of an iterator value in the order next() gives them, and how to rebuild it"""
    if v[0] == 'seq': return list(v[2]), lambda l, v=v: ('seq', v[1], tuple(l))
    if v[0] == 'adt' and v[1].endswith('::Rev'):
        l, mk = _ends(v[3][0], back)
        return l[::-1], lambda l, v=v, mk=mk: ('adt', v[1], v[2], (mk(l[::-1]),))
    raise Undecided('either of an iterator that is not known')
def either_next(back):
    def f(en, st, c):
        v = rd(en, st, c.args[0])
        if v[0] != 'adt': raise Undecided('either is unknown')
        l, mk = _ends(v[3][0], back)
        if not l: return NONE
        x = l[-1] if back else l[0]
        wr(en, st, c.args[0], ('adt', v[1], v[2], (mk(l[:-1] if back else l[1:]),)))
        return some(x)
    return f
for _q in ('either::iterator::<impl std::iter::Iterator for itertools::Either<L, R>>::', 'either::iterator::<impl std::iter::Iterator for either::Either<L, R>>::'): COLL[_q + 'next'] = either_next(False)
for _q in ('either::iterator::<impl std::iter::DoubleEndedIterator for itertools::Either<L, R>>::', 'either::iterator::<impl std::iter::DoubleEndedIterator for either::Either<L, R>>::'): COLL[_q + 'next_back'] = either_next(True)
# ---- vec![..]: an array written into a fresh box
@model('std::boxed::Box::<T>::new_uninit')
def b_uninit(en, st, c):
    b = st.alloc(('adt', 'uninit', 0, (UNIT, ('adt', 'uninit', 0, (UNIT,)))), 'BOXU')
    return ('adt', 'std::box-uninit', 0, (('ref', b, (), None),))
@model('std::boxed::box_assume_init_into_vec_unsafe')
def b_intovec(en, st, c):
    v = c.args[0]
    if v[0] != 'adt' or v[1] != 'std::box-uninit': raise Undecided('a box of unknown contents')
    v = en.read(st, v[3][0][1], ())[3][1][3][0]
    while v[0] == 'adt' and len(v[3]) == 1: v = v[3][0]
    if v[0] != 'seq': raise Undecided('vec! of unknown contents')
    return ('seq', 'vec', v[2])
# ---- flat_map: step the inner iterator, then the outer one
FLAT = 'core::iter::adapters::flatten::FlatMap'
@model('std::iter::Iterator::flat_map')
def i_flat_map(en, st, c): return ('adt', FLAT, 0, (c.args[0], c.args[1], NONE))
FLATTEN = 'core::iter::adapters::flatten::Flatten'
@model('std::iter::Iterator::flatten')
def i_flatten(en, st, c): return ('adt', FLATTEN, 0, (c.args[0], UNIT, NONE))
def as_iter(en, st, x, base=None, path=()):
    """the iterator IntoIterator makes of a value"""
    if x[0] == 'seq': return x if x[1] == 'iter' else it(x[2])
    if x[0] == 'ref':
        v = en.read(st, x[1], x[2])
        if v[0] == 'seq': return it(refs(en, st, x))
        if v[0] == 'adt' and v[1].split('::')[-1] == 'Option': return it([('ref', x[1], x[2] + (('f', 0),), None)] if v[2] == 1 else [])
        raise Undecided('iterating over a reference to something that is not known')
    if x[0] != 'adt' and base is not None: x = en.concretise(st, base, path)
    if x[0] == 'adt' and x[1].split('::')[-1] == 'Option': return it(x[3] if x[2] == 1 else ())
    return x
@model('std::iter::Iterator::zip')
def i_zip(en, st, c): return ('adt', ZIP, 0, (c.args[0], as_iter(en, st, c.args[1])))
ZIP = 'core::iter::adapters::zip::Zip'
@model('<std::iter::Zip<A, B> as std::iter::Iterator>::next')
def zip_next(en, st, c):
    b, pth, w = en.deref(st, c.args[0])
    A, B = c.c['rargs'][:2]
    sub = [None if en.read(st, b, pth + (('f', i),))[0] == 'seq' else stepper(en, c, t) for i, t in enumerate((A, B))]
    en.push_native(st, 'zip', ((b, pth), sub, 0, (), False), c.dest, c.target)
    return ('$pushed',)
@stepfn('zip')
def step_zip(en, st, fr):
    (b, pth), sub, i, got, wait = fr.data
    if wait:
        r = st.mem[('L', fr.uid, 0)]
        if r[0] != 'adt': r = en.concretise(st, ('L', fr.uid, 0), ())
        if r[2] == 0: return ('ret', NONE)
        fr.data = ((b, pth), sub, i + 1, got + (r[3][0],), False); return ('again',)
    if i == 2: return ('ret', some(('tup', got)))
    fp = pth + (('f', i),)
    if sub[i] is None:
        v = en.read(st, b, fp)
        if not v[2]: return ('ret', NONE)
        en.write(st, b, fp, it(v[2][1:]))
        fr.data = ((b, pth), sub, i + 1, got + (v[2][0],), False); return ('again',)
    fr.data = ((b, pth), sub, i, got, True)
    m, ref = sub[i], ('ref', b, fp, None)
    return ('callm', lambda en, st, dest: en.call(st, None, m, [ref], [None], dest, 0, ''), ())
def stepper(en, c, ty):
    m = (c.c.get('iters') or {}).get(str(ty)) or {}
    if 'next' not in m: raise Undecided('flat_map over an iterator of unknown type')
    return en.p.item(m['next'], 'next')
@model('<std::iter::FlatMap<I, U, F> as std::iter::Iterator>::next', '<std::iter::Flatten<I> as std::iter::Iterator>::next')
def flat_next(en, st, c):
    I, U = c.c['rargs'][:2]
    b, pth, w = en.deref(st, c.args[0])
    en.push_native(st, 'flat', ((b, pth), stepper(en, c, I), stepper(en, c, U) if 'next' in ((c.c.get('iters') or {}).get(str(U)) or {}) else None, ''), c.dest, c.target)
    return ('$pushed',)
@stepfn('flat')
def step_flat(en, st, fr):
    (b, pth), outer, inner, wait = fr.data
    at = lambda i: ('ref', b, pth + (('f', i),), None)
    def put(i, x): en.write(st, b, pth + (('f', i),), x)
    if wait:
        r = st.mem[('L', fr.uid, 0)]
        if wait != 'f' and r[0] != 'adt': r = en.concretise(st, ('L', fr.uid, 0), ())
        if wait == 'f': put(2, some(as_iter(en, st, r, ('L', fr.uid, 0))))
        elif wait == 'u':
            if r[2] == 1: return ('ret', r)
            put(2, NONE)
        elif r[2] == 0: return ('ret', NONE)
        elif en.read(st, b, pth)[1] == FLATTEN:
            x = r[3][0]
            put(2, some(as_iter(en, st, x, ('L', fr.uid, 0), (('f', 0),))))
        else:
            fr.data = (fr.data[0], outer, inner, 'f')
            return ('call', at(1), [r[3][0]])
    front = en.read(st, b, pth + (('f', 2),))
    if front[2] == 1:
        v = front[3][0]
        if v[0] == 'seq':
            if v[2]:
                put(2, some(it(v[2][1:]))); return ('ret', some(v[2][0]))
            put(2, NONE)
            fr.data = (fr.data[0], outer, inner, ''); return ('again',)
        if inner is None: raise Undecided('flat_map gives something that is not an iterator')
        fr.data = (fr.data[0], outer, inner, 'u')
        ref = ('ref', b, pth + (('f', 2), ('f', 0)), None)
        return ('callm', lambda en, st, dest: en.call(st, None, inner, [ref], [None], dest, 0, ''), ())
    fr.data = (fr.data[0], outer, inner, 'o')
    return ('callm', lambda en, st, dest: en.call(st, None, outer, [at(0)], [None], dest, 0, ''), ())
# ---- try_fold over known elements
def it_try_fold(en, st, c):
    v = rd(en, st, c.args[0])
    if v[0] != 'seq': raise Undecided('try_fold of %r' % (v[0],))
    b = st.alloc(c.args[2], 'HOF')
    en.push_native(st, 'tryfold', (c.args[0], v[2], 0, c.args[1], ('ref', b, (), None), c.c['ret'], False), c.dest, c.target)
    return ('$pushed',)
itm('try_fold', ITER, it_try_fold)
@stepfn('tryfold')
def step_tryfold(en, st, fr):
    src, its, i, acc, fn, ret, waiting = fr.data
    d = en.T[ret].get('def') or ''
    go_on = {'ControlFlow': 0, 'Result': 0, 'Option': 1}.get(d.split('::')[-1])
    if go_on is None: raise Undecided('try_fold with result %s' % en.T[ret]['s'])
    if waiting:
        r = st.mem[('L', fr.uid, 0)]
        if r[0] != 'adt': r = en.concretise(st, ('L', fr.uid, 0), ())
        if r[2] != go_on:
            wr(en, st, src, it(its[i:])); return ('ret', r)
        fr.data = (src, its, i, r[3][0] if r[3] else UNIT, fn, ret, False); return ('again',)
    if i >= len(its):
        wr(en, st, src, it(()))
        return ('ret', ('adt', d, go_on, (acc,)))
    fr.data = (src, its, i + 1, acc, fn, ret, True)
    return ('call', fn, [acc, its[i]])
# ---- line strings: a wrapper around the vector of coordinates
LSDEF = 'geo_types::geometry::line_string::LineString'
def ls_of(v):
    if v[0] == 'adt' and v[1] == LSDEF: return v
    if v[0] != 'seq': raise Undecided('a line string of unknown contents')
    return ('adt', LSDEF, 0, (('seq', 'vec', v[2]),))
def _icoord(en, st, c):
    v = ls_of(c.args[0])
    if any(x[0] == 'tup' for x in v[3][0][2] if isinstance(x, tuple)): raise Undecided('a line string from tuples')
    return v
COLL['<geo::LineString<T> as std::convert::From<std::vec::Vec<IC>>>::from'] = _icoord
def _lsref(en, st, c):
    b, p, w = en.deref(st, c.args[0])
    return ('ref', b, p + (('f', 0),), None)
COLL['geo::LineString::<T>::coords'] = COLL['geo::LineString::<T>::coords_mut'] = lambda en, st, c: it(refs(en, st, _lsref(en, st, c)))
COLL['geo::LineString::<T>::into_inner'] = lambda en, st, c: c.args[0][3][0]
COLL["<&'a geo::LineString<T> as std::iter::IntoIterator>::into_iter"] = lambda en, st, c: it(refs(en, st, _lsref(en, st, c)))
COLL['<geo::LineString<T> as std::iter::IntoIterator>::into_iter'] = lambda en, st, c: it(c.args[0][3][0][2])

# ---- more of the same collections
@model(VEC + 'split_off', VD + 'split_off')
def s_splitoff(en, st, c):
    x = items(en, st, c.args[0]); n = c.args[1]
    if not isinstance(n, int): raise Undecided('split_off at an unknown index')
    if n > len(x): return ('$panic', 'split_off out of bounds')
    kind = seqref(en, st, c.args[0])[4][1]
    setitems(en, st, c.args[0], x[:n]); return ('seq', kind, tuple(x[n:]))
@model(VEC + 'extend_from_slice', SV + 'extend_from_slice')
def s_extslice(en, st, c):
    setitems(en, st, c.args[0], items(en, st, c.args[0]) + items(en, st, c.args[1])); return UNIT
@model(SV + 'insert_from_slice')
def s_insslice(en, st, c):
    x = items(en, st, c.args[0]); i = c.args[1]
    if not isinstance(i, int): raise Undecided('insert at an unknown index')
    if i > len(x): return ('$panic', 'insert out of bounds')
    setitems(en, st, c.args[0], x[:i] + items(en, st, c.args[2]) + x[i:]); return UNIT
@model(VEC + 'resize')
def s_resize(en, st, c):
    x = items(en, st, c.args[0]); n = c.args[1]
    if not isinstance(n, int) or n > 64: raise Undecided('resize to an unknown length')
    setitems(en, st, c.args[0], (x + [c.args[2]] * n)[:n]); return UNIT
@model(SL + 'rotate_left', SL + 'rotate_right', VD + 'rotate_left', VD + 'rotate_right')
def s_rot(en, st, c):
    x = items(en, st, c.args[0]); n = c.args[1]
    if not isinstance(n, int): raise Undecided('rotate by an unknown amount')
    if n > len(x): return ('$panic', 'rotate out of bounds')
    if 'right' in c.c['name']: n = len(x) - n
    setitems(en, st, c.args[0], x[n:] + x[:n]); return UNIT
@model(SL + 'fill')
def s_fill(en, st, c):
    setitems(en, st, c.args[0], [c.args[1]] * len(items(en, st, c.args[0]))); return UNIT
COLL[VD + 'append'] = COLL[VEC + 'append']; COLL[VD + 'swap'] = COLL[SL + 'swap']
@model(VD + 'remove')
def vd_remove(en, st, c):
    x = items(en, st, c.args[0]); i = c.args[1]
    if not isinstance(i, int): raise Undecided('remove at an unknown index')
    if i >= len(x): return NONE
    r = x.pop(i); setitems(en, st, c.args[0], x); return some(r)
@model(VD + 'range')
def vd_range(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0]); k = rng(en, st, c.args[1], hi - lo)
    if not (isinstance(k, tuple) and 0 <= k[0] <= k[1] <= hi - lo): raise Undecided('range of a deque')
    return it(refs(en, st, c.args[0])[k[0]:k[1]])
def _as(kind):
    def f(en, st, c):
        v = c.args[0]
        if v[0] != 'seq': raise Undecided('conversion of an unknown sequence')
        return ('seq', kind, v[2])
    return f
COLL['<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from'] = _as('deque')
COLL['std::collections::vec_deque::<impl std::convert::From<std::collections::VecDeque<T, A>> for std::vec::Vec<T, A>>::from'] = _as('vec')
COLL[SV + 'from_vec'] = _as('smallvec'); COLL[SV + 'into_vec'] = _as('vec')
COLL[VEC + 'into_boxed_slice'] = _as('vec'); COLL[SL2 + 'into_vec'] = _as('vec')
COLL[SV + 'inline_size'] = lambda en, st, c: 4
@model('std::array::<impl [T; N]>::as_slice')
def a_slice(en, st, c):
    b, p, lo, hi, v = seqref(en, st, c.args[0]); return ('ref', b, p, (lo, hi))
@model('std::array::<impl [T; N]>::each_ref')
def a_each(en, st, c): return ('seq', 'arr', tuple(refs(en, st, c.args[0])))
@model(SL + 'first_chunk')
def s_fchunk(en, st, c): raise Undecided('first_chunk')

# one closure call for each element
def _each(kind):
    def f(en, st, c):
        if kind == 'map':
            v = c.args[0]
            if v[0] != 'seq': raise Undecided('map of an unknown array')
            its = v[2]
        else: its = tuple(items(en, st, c.args[0]))
        b = st.alloc(c.args[1], 'HOF')
        en.push_native(st, 'each', (kind, c.args[0], tuple(its), 0, (), ('ref', b, (), None), None), c.dest, c.target)
        return ('$pushed',)
    return f
COLL['std::array::<impl [T; N]>::map'] = _each('map')
for _q in (VEC, SV, VD): COLL[_q + 'retain'] = COLL[_q + 'retain_mut'] = _each('retain')
@stepfn('each')
def step_each(en, st, fr):
    kind, src, its, i, got, fn, wait = fr.data
    if wait is not None:
        r = st.mem[('L', fr.uid, 0)]
        if kind == 'map': got = got + (r,)
        elif en.truth(st, r): got = got + (en.read(st, wait, ()),)
        fr.data = (kind, src, its, i + 1, got, fn, None); return ('again',)
    if i >= len(its):
        if kind == 'map': return ('ret', ('seq', 'arr', got))
        setitems(en, st, src, got); return ('ret', UNIT)
    if kind == 'map':
        fr.data = (kind, src, its, i, got, fn, ()); return ('call', fn, [its[i]])
    b = st.alloc(its[i], 'HOF')
    fr.data = (kind, src, its, i, got, fn, b)
    return ('call', fn, [('ref', b, (), None)])
# reversed traversals of a known iterator
@model('<std::iter::Zip<A, B> as std::iter::DoubleEndedIterator>::next_back')
def zip_back(en, st, c):
    b, pth, w = en.deref(st, c.args[0])
    x, y = (en.read(st, b, pth + (('f', i),)) for i in (0, 1))
    if x[0] != 'seq' or y[0] != 'seq': raise Undecided('the back of a zip of unknown iterators')
    n = min(len(x[2]), len(y[2]))
    if n == 0: return NONE
    for i, v in enumerate((x, y)): en.write(st, b, pth + (('f', i),), it(v[2][:n - 1]))
    return some(('tup', (x[2][n - 1], y[2][n - 1])))
def it_nth_back(en, st, c):
    v = rd(en, st, c.args[0]); n = c.args[1]
    wr(en, st, c.args[0], it(v[2][:-(n + 1)] if n < len(v[2]) else ()))
    return some(v[2][-(n + 1)]) if n < len(v[2]) else NONE
itm('nth_back', 'std::iter::DoubleEndedIterator', it_nth_back)
def it_rfold(en, st, c):
    b = st.alloc(c.args[2], 'HOF')
    en.push_native(st, 'hof', ('fold', None, c.args[0][2][::-1], 0, c.args[1], ('ref', b, (), None), False), c.dest, c.target)
    return ('$pushed',)
itm('rfold', 'std::iter::DoubleEndedIterator', it_rfold)
def it_rpos(en, st, c):
    v = rd(en, st, c.args[0]); b = st.alloc(c.args[1], 'HOF')
    en.push_native(st, 'hof', ('rposition', None, v[2][::-1], 0, None, ('ref', b, (), None), False), c.dest, c.target)
    return ('$pushed',)
itm('rposition', ITER, it_rpos)
# ordered maps
def _pairs(en, st, r):
    b, p, lo, hi, v = seqref(en, st, r)
    return [tuple(('ref', b, p + (('i', i), ('f', j)), None) for j in (0, 1)) for i in range(lo, hi)]
COLL[BM + 'iter'] = COLL[BM + 'iter_mut'] = lambda en, st, c: it([('tup', x) for x in _pairs(en, st, c.args[0])])
COLL["<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter"] = COLL[BM + 'iter']
COLL["<&'a mut std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter"] = COLL[BM + 'iter']
COLL['<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter'] = lambda en, st, c: it(c.args[0][2])
COLL[BM + 'keys'] = lambda en, st, c: it([x[0] for x in _pairs(en, st, c.args[0])])
COLL[BM + 'values'] = COLL[BM + 'values_mut'] = lambda en, st, c: it([x[1] for x in _pairs(en, st, c.args[0])])
COLL[BM + 'first_key_value'] = lambda en, st, c: (lambda x: some(('tup', x[0])) if x else NONE)(_pairs(en, st, c.args[0]))
COLL[BM + 'last_key_value'] = lambda en, st, c: (lambda x: some(('tup', x[-1])) if x else NONE)(_pairs(en, st, c.args[0]))
def _bm_pop(i):
    def f(en, st, c):
        x = items(en, st, c.args[0])
        if not x: return NONE
        r = x.pop(i); setitems(en, st, c.args[0], x); return some(r)
    return f
COLL[BM + 'pop_first'] = _bm_pop(0); COLL[BM + 'pop_last'] = _bm_pop(-1)
@model(BM + 'remove_entry')
def bm_rement(en, st, c):
    its = items(en, st, c.args[0]); i, f = bm_find(en, st, its, c.args[1])
    if not f: return NONE
    e = its.pop(i); setitems(en, st, c.args[0], its); return some(e)
@model(BM + 'get_key_value')
def bm_gkv(en, st, c):
    i, f = bm_find(en, st, items(en, st, c.args[0]), c.args[1])
    return some(('tup', _pairs(en, st, c.args[0])[i])) if f else NONE
@model(BE + 'or_insert_with')
def be_with(en, st, c):
    e = c.args[0]
    if e[2] == 1: return entry_at(en, st, e, None)
    b = st.alloc(c.args[1], 'HOF')
    en.push_native(st, 'orwith', (e, ('ref', b, (), None), False), c.dest, c.target)
    return ('$pushed',)
@stepfn('orwith')
def step_orwith(en, st, fr):
    e, fn, wait = fr.data
    if wait:
        r = st.mem[('L', fr.uid, 0)]; return ('ret', entry_at(en, st, e, lambda: r))
    fr.data = (e, fn, True); return ('call', fn, [])
@model(BE + 'and_modify')
def be_mod(en, st, c):
    e = c.args[0]
    if e[2] == 0: return e
    b = st.alloc(c.args[1], 'HOF')
    en.push_native(st, 'andmod', (e, ('ref', b, (), None), False), c.dest, c.target)
    return ('$pushed',)
@stepfn('andmod')
def step_andmod(en, st, fr):
    e, fn, wait = fr.data
    if wait: return ('ret', e)
    fr.data = (e, fn, True); return ('call', fn, [entry_at(en, st, e, None)])
BO = "std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::"; BV = "std::collections::btree_map::VacantEntry::<'a, K, V, A>::"
def _own(en, st, c):
    e = c.args[0]
    if e[0] == 'ref': e = rd(en, st, e)
    return ('adt', '', 0, (e,))
COLL[BO + 'get'] = COLL[BO + 'get_mut'] = COLL[BO + 'into_mut'] = lambda en, st, c: entry_at(en, st, _own(en, st, c), None)
COLL[BV + 'insert'] = lambda en, st, c: entry_at(en, st, _own(en, st, c), lambda: c.args[1])
@model(BO + 'insert')
def bo_insert(en, st, c):
    r = entry_at(en, st, _own(en, st, c), None); old = rd(en, st, r); wr(en, st, r, c.args[1]); return old
@model(BO + 'remove')
def bo_remove(en, st, c):
    ref, key = _own(en, st, c)[3][0][3]
    its = items(en, st, ref); i, f = bm_find(en, st, its, key)
    e = its.pop(i); setitems(en, st, ref, its); return e[1][1]
# cells
@model('std::cell::Cell::<T>::take')
def c_take(en, st, c):
    b, p, w = en.deref(st, c.args[0]); v = en.read(st, b, p + (('f', 0),))
    en.write(st, b, p + (('f', 0),), default_of(en, c.c['ret'])); return v
@model('std::cell::Cell::<T>::swap')
def c_swap(en, st, c):
    x, y = (en.deref(st, a) for a in c.args[:2])
    u, v = (en.read(st, a[0], a[1] + (('f', 0),)) for a in (x, y))
    en.write(st, x[0], x[1] + (('f', 0),), v); en.write(st, y[0], y[1] + (('f', 0),), u); return UNIT
@model('std::cell::Cell::<T>::update')
def c_update(en, st, c):
    b, p, w = en.deref(st, c.args[0]); fb = st.alloc(c.args[1], 'HOF')
    en.push_native(st, 'cellup', ((b, p + (('f', 0),)), ('ref', fb, (), None), False), c.dest, c.target)
    return ('$pushed',)
@stepfn('cellup')
def step_cellup(en, st, fr):
    (b, p), fn, wait = fr.data
    if wait: en.write(st, b, p, st.mem[('L', fr.uid, 0)]); return ('ret', UNIT)
    fr.data = ((b, p), fn, True); return ('call', fn, [en.read(st, b, p)])
@model('std::cell::Cell::<T>::into_inner')
def c_into(en, st, c): return c.args[0][3][0]
@model('std::cell::Cell::<T>::get_mut')
def c_getm(en, st, c):
    b, p, w = en.deref(st, c.args[0]); return ('ref', b, p + (('f', 0),), None)

DEAD = ('unchecked access to a segment that is not stored', 'neighbour query for a segment that is not stored', 'a segment that is not stored is made active', 'the active set is asked to remove a segment that is not stored')
def dead(why):
    """the panic of an access to released storage, if it is one"""
    return next((d for d in DEAD if d in why), None)

# ---- keys compared structurally
def eqv(en, st, a, b):
    if isinstance(a, tuple) and a and a[0] == 'ref': a = rd(en, st, a)
    if isinstance(b, tuple) and b and b[0] == 'ref': b = rd(en, st, b)
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tup':
        return len(a[1]) == len(b[1]) and all(eqv(en, st, x, y) for x, y in zip(a[1], b[1]))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'adt' and a[1] in (OPT, ORD):
        return a[2] == b[2] and all(eqv(en, st, x, y) for x, y in zip(a[3], b[3]))
    return key3(en, st, simple_key(a), simple_key(b)) == 0
def simple_key(v):
    """keys with an order of their own are not compared here"""
    if isinstance(v, tuple) and v and (v[0] in ('seq', 'clos', 'box') or v[0] == 'adt' and not v[1].endswith(('::SweepPoint', '::Coord'))): raise Undecided('comparison of keys of type %s' % (v[1] if v[0] == 'adt' else v[0],))
    return v
def ordv(en, st, a, b):
    if isinstance(a, tuple) and a and a[0] == 'ref': a = rd(en, st, a)
    if isinstance(b, tuple) and b and b[0] == 'ref': b = rd(en, st, b)
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return (a > b) - (a < b)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tup':
        for x, y in zip(a[1], b[1]):
            r = ordv(en, st, x, y)
            if r: return r
        return 0
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'adt' and a[1] in (OPT, ORD):
        if a[2] != b[2]: return -1 if a[2] < b[2] else 1
        return ordv(en, st, ('tup', a[3]), ('tup', b[3]))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'adt' and a[1] == 'core::cmp::Reverse': return ordv(en, st, b[3][0], a[3][0])
    return key3(en, st, simple_key(a), simple_key(b))
@model(SL + 'contains', VD + 'contains')
def s_contains(en, st, c): return any(eqv(en, st, x, c.args[1]) for x in items(en, st, c.args[0]))
@model(VEC + 'dedup')
def s_dedup(en, st, c):
    out = []
    for x in items(en, st, c.args[0]):
        if not out or not eqv(en, st, out[-1], x): out.append(x)
    setitems(en, st, c.args[0], out); return UNIT
@model(SL + 'is_sorted')
def s_issorted(en, st, c):
    its = items(en, st, c.args[0]); return all(ordv(en, st, x, y) <= 0 for x, y in zip(its, its[1:]))
@model(SL + 'binary_search')
def s_bsearch(en, st, c):
    for i, x in enumerate(items(en, st, c.args[0])):
        r = ordv(en, st, x, c.args[1])
        if r >= 0: return ('adt', en.T[c.c['ret']]['def'], 0 if r == 0 else 1, (i,))
    return ('adt', en.T[c.c['ret']]['def'], 1, (len(items(en, st, c.args[0])),))
def _keyed(kind):
    def f(en, st, c):
        b, p, lo, hi, v = seqref(en, st, c.args[0])
        its = tuple(items(en, st, c.args[0]))
        fn = st.alloc(c.args[-1], 'HOF')
        en.push_native(st, 'keyed', (kind, c.args[0], its, 0, (), ('ref', fn, (), None), c.args[1] if len(c.args) > 2 else None, en.T[c.c['ret']].get('def')), c.dest, c.target)
        return ('$pushed',)
    return f
for _n in ('sort_by_key', 'sort_by_cached_key', 'sort_unstable_by_key'): COLL[SL + _n] = COLL[SL2 + _n] = _keyed('sort' if 'unst' not in _n else 'usort')
COLL[SL + 'partition_point'] = _keyed('pp'); COLL[SL + 'binary_search_by'] = _keyed('bs'); COLL[SL + 'binary_search_by_key'] = _keyed('bsk')
COLL[VEC + 'dedup_by_key'] = _keyed('dedup')
for _n in ('partition_point', 'binary_search_by', 'binary_search_by_key'): COLL[VD + _n] = COLL[SL + _n]
@stepfn('keyed')
def step_keyed(en, st, fr):
    """calls the key function (predicate, comparator) on every element in turn, then acts on the answers"""
    kind, src, its, i, got, fn, arg, rd_ = fr.data
    if i and len(got) < i:
        r = st.mem[('L', fr.uid, 0)]
        if kind == 'pp': r = en.truth(st, r)
        elif kind == 'bs' and r[0] != 'adt': r = en.concretise(st, ('L', fr.uid, 0), ())
        fr.data = (kind, src, its, i, got + (r,), fn, arg, rd_); return ('again',)
    if i < len(its):
        b = st.alloc(its[i], 'HOF')
        fr.data = (kind, src, its, i + 1, got, fn, arg, rd_); return ('call', fn, [('ref', b, (), None)])
    n = len(its)
    if kind == 'pp':
        k = next((j for j in range(n) if not got[j]), n)
        if any(got[k:]): raise Undecided('partition_point of a slice that is not partitioned')
        return ('ret', k)
    if kind in ('bs', 'bsk'):
        o = [g[2] - 1 for g in got] if kind == 'bs' else [ordv(en, st, g, arg) for g in got]
        if any(x > y for x, y in zip(o, o[1:])): raise Undecided('binary search of a slice that is not sorted')
        if o.count(0) > 1: raise Undecided('binary search with several matches')
        if 0 in o: return ('ret', ('adt', rd_, 0, (o.index(0),)))
        return ('ret', ('adt', rd_, 1, (sum(1 for x in o if x < 0),)))
    if kind == 'dedup':
        keep = [j for j in range(n) if not j or not eqv(en, st, got[j - 1], got[j])]
        setitems(en, st, src, [its[j] for j in keep]); return ('ret', UNIT)
    import functools
    idx = list(range(n))
    if kind == 'usort': idx.reverse()
    idx.sort(key=functools.cmp_to_key(lambda x, y: ordv(en, st, got[x], got[y])))
    setitems(en, st, src, [its[j] for j in idx]); return ('ret', UNIT)

# ---- sets by order, and hash maps as far as no order shows
BS = 'std::collections::BTreeSet::<T, A>::'; HM = 'std::collections::HashMap::<K, V, S, A>::'; HS = 'std::collections::HashSet::<T, S, A>::'
for _q in ('std::collections::HashMap::<K, V>::', 'std::collections::HashMap::<K, V, std::hash::RandomState>::', 'std::collections::HashMap::<K, V, S>::'):
    for _n in ('new', 'with_capacity'): COLL[_q + _n] = bm_new
for _q in ('std::collections::HashSet::<T>::', 'std::collections::HashSet::<T, std::hash::RandomState>::', 'std::collections::HashSet::<T, S>::'):
    for _n in ('new', 'with_capacity'): COLL[_q + _n] = bs_new
COLL['<std::collections::HashMap<K, V, S> as std::default::Default>::default'] = bm_new
COLL['<std::collections::HashSet<T, S> as std::default::Default>::default'] = bs_new
def hfind(en, st, its, k, pair):
    for i, e in enumerate(its):
        if eqv(en, st, k, e[1][0] if pair else e): return i, True
    return len(its), False
def _hm(name):
    def f(en, st, c):
        its = items(en, st, c.args[0]); pair = rd(en, st, c.args[0])[1] == 'btree'
        i, hit = hfind(en, st, its, c.args[1], pair)
        if name == 'has': return hit
        if name == 'get':
            b, p, lo, hi, v = seqref(en, st, c.args[0])
            return some(('ref', b, p + (('i', i),) + ((('f', 1),) if pair else ()), None)) if hit else NONE
        if name == 'remove':
            if not hit: return NONE if pair else False
            e = its.pop(i); setitems(en, st, c.args[0], its); return some(e[1][1]) if pair else True
        if name == 'take':
            if not hit: return NONE
            e = its.pop(i); setitems(en, st, c.args[0], its); return some(e)
        if name == 'insert':
            if pair:
                old = its[i][1][1] if hit else None
                e = ('tup', (its[i][1][0] if hit else c.args[1], c.args[2]))
            else: e = c.args[1]
            if hit and not pair: return False
            its[i:i + 1] = [e]; setitems(en, st, c.args[0], its)
            return (some(old) if hit else NONE) if pair else True
    return f
for _q in (HM, HM.replace(', A>', '>')):
    for _n, _k in (('get', 'get'), ('get_mut', 'get'), ('contains_key', 'has'), ('insert', 'insert'), ('remove', 'remove')): COLL[_q + _n] = _hm(_k)
    COLL[_q + 'len'] = bm_len; COLL[_q + 'is_empty'] = bm_emp; COLL[_q + 'clear'] = bm_clear
for _q in (HS, HS.replace(', A>', '>')):
    for _n, _k in (('get', 'get'), ('contains', 'has'), ('insert', 'insert'), ('remove', 'remove'), ('take', 'take')): COLL[_q + _n] = _hm(_k)
    COLL[_q + 'len'] = bm_len; COLL[_q + 'is_empty'] = bm_emp; COLL[_q + 'clear'] = bm_clear
def isset(en, st, r):
    v = rd(en, st, r) if r[0] == 'ref' else r
    if not (isinstance(v, tuple) and v[0] == 'seq' and v[1] == 'bset'): raise Undecided('not a known set')
    return r
def _bs(name):
    def f(en, st, c):
        isset(en, st, c.args[0]); its = items(en, st, c.args[0])
        i, hit = 0, False
        if len(c.args) > 1:
            for i, e in enumerate(its + [None]):
                if e is None: break
                r = ordv(en, st, c.args[1], e)
                if r <= 0: hit = r == 0; break
        b, p, lo, hi, v = seqref(en, st, c.args[0]); at = lambda j: some(('ref', b, p + (('i', j),), None))
        if name == 'contains': return hit
        if name == 'get': return at(i) if hit else NONE
        if name == 'first': return at(0) if its else NONE
        if name == 'last': return at(len(its) - 1) if its else NONE
        if name in ('pop_first', 'pop_last'):
            if not its: return NONE
            e = its.pop(0 if name == 'pop_first' else -1); setitems(en, st, c.args[0], its); return some(e)
        if name in ('remove', 'take'):
            if not hit: return NONE if name == 'take' else False
            e = its.pop(i); setitems(en, st, c.args[0], its); return some(e) if name == 'take' else True
        if hit: return False
        its.insert(i, c.args[1]); setitems(en, st, c.args[0], its); return True
    return f
for _n in ('insert', 'contains', 'get', 'first', 'last', 'pop_first', 'pop_last', 'remove', 'take'): COLL[BS + _n] = _bs(_n)
COLL[BS + 'iter'] = COLL["<&'a std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter"] = lambda en, st, c: it(refs(en, st, isset(en, st, c.args[0])))
COLL['<std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter'] = lambda en, st, c: it(isset(en, st, c.args[0])[2])

# ---- storage read as a whole
@model(SB + 'iter', SB + 'iter_mut', "<&'a slab::Slab<T> as std::iter::IntoIterator>::into_iter", "<&'a mut slab::Slab<T> as std::iter::IntoIterator>::into_iter")
def slab_iter(en, st, c):
    sid = slab_of(en, st, c.args[0])
    if st.g.get('open'): raise Undecided('visit of unknown segments')
    return it([('tup', (k, ('ref', cell(sid, k), (), None))) for k in sorted(slab_keys(st, sid))])
COLL[SB + 'capacity'] = s_cap; COLL[SB + 'reserve'] = s_noop; COLL[SB + 'shrink_to_fit'] = s_noop
for _n in ("slab::Iter<'a, T>", "slab::IterMut<'a, T>"):
    COLL['<%s as std::iter::Iterator>::next' % _n] = take_front; COLL['<%s as std::iter::DoubleEndedIterator>::next_back' % _n] = take_back
