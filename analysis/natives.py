"""Models of standard-library items whose bodies are not expanded into the dump.
Each model is the documented behaviour of the item, in abstract values."""
from mai import *

TABLE = {}
STEPS = {}

def model(*names):
    def deco(f):
        for n in names: TABLE[n] = f
        return f
    return deco

def stepfn(name):
    def deco(f):
        STEPS[name] = f
        return f
    return deco

def target(en, st, v):
    return en.deref(st, v)

def rd(en, st, v):
    b, p, w = en.deref(st, v)
    return en.read(st, b, p)

def wr(en, st, v, x):
    b, p, w = en.deref(st, v)
    en.write(st, b, p, x)

# ---- boxes, cells, memory -------------------------------------------------------------
@model('std::boxed::Box::<T>::new')
def box_new(en, st, c):
    i = st.fresh()
    st.mem[('H', i)] = c.args[0]
    return ('box', i)

@model('std::boxed::Box::<T>::pin')
def box_pin(en, st, c):
    i = st.fresh()
    st.mem[('H', i)] = c.args[0]
    return ('adt', 'core::pin::Pin', 0, (('box', i),))

@model('<std::boxed::Box<T, A> as std::ops::Drop>::drop')
def box_drop(en, st, c):
    return UNIT

@model('std::cell::UnsafeCell::<T>::get', 'std::cell::UnsafeCell::<T>::get_mut')
def uc_get(en, st, c):
    b, p, w = en.deref(st, c.args[0])
    return ('ref', b, p + (('f', 0),), None)

@model('std::cell::UnsafeCell::<T>::new')
def uc_new(en, st, c):
    return ('adt', en.T[c.c['ret']]['def'], 0, (c.args[0],))

@model('std::cell::UnsafeCell::<T>::into_inner')
def uc_into(en, st, c):
    return en.child(st, c.args[0], ('f', 0))

@model('std::mem::replace')
def mem_replace(en, st, c):
    b, p, w = en.deref(st, c.args[0])
    old = en.read(st, b, p)
    en.write(st, b, p, c.args[1])
    return old

@model('std::mem::swap')
def mem_swap(en, st, c):
    b, p, w = en.deref(st, c.args[0])
    b2, p2, w = en.deref(st, c.args[1])
    x = en.read(st, b, p); y = en.read(st, b2, p2)
    en.write(st, b, p, y); en.write(st, b2, p2, x)
    return UNIT

@model('std::mem::take')
def mem_take(en, st, c):
    b, p, w = en.deref(st, c.args[0])
    old = en.read(st, b, p)
    if isinstance(old, bool): en.write(st, b, p, False); return old
    if isinstance(old, int): en.write(st, b, p, 0); return old
    if old[0] == 'adt' and old[1] == OPT or old[0] in ('tree', 'ctx'):
        en.write(st, b, p, NONE)
        return old
    if old[0] == 'seq' and old[1] in ('vec', 'deque', 'smallvec', 'btree', 'bset'):
        en.write(st, b, p, ('seq', old[1], ()))
        return old
    raise Undecided('mem::take of %r' % (old[0],))

@model('std::mem::forget')
def mem_forget(en, st, c):
    return UNIT

@model('std::mem::drop')
def mem_drop(en, st, c):
    push_drop(en, st, c.args[0], c.dest, c.target, c.span)
    return ('$pushed',)

def push_drop(en, st, v, dest, target, span):
    b = ('T', st.fresh())
    st.mem[b] = v
    todo = []
    en.find_drops(st, v, b, (), todo)
    en.push_native(st, 'dropval', (b, 0, tuple(todo), span), dest, target)
    st.mem[('L', st.frames[-1].uid, 0)] = ('ref', b, (), None)

@stepfn('dropval')
def step_dropval(en, st, fr):
    b, i, todo, span = fr.data
    if i < len(todo):
        d, db, dp = todo[i]
        fr.data = (b, i + 1, todo, span)
        r = en.p.dropimpl[d]
        def go(en, st, dest):
            en.push(st, en.p.body_of(r), [('ref', db, dp, None)], (('T', b[1], 'r'), ()), 0, span)
            st.mem[('T', b[1], 'r')] = UNINIT
            return ('pushed',)
        return ('callm', go, ())
    h = en.hooks.get('drop')
    if h: h(en, st, st.mem[b], span)
    del st.mem[b]
    return ('ret', UNIT)

# ---- arithmetic of known integers
BITS = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'usize': (0, 64), 'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'isize': (1, 64)}
def _int(x):
    if isinstance(x, bool) or not isinstance(x, int): raise Undecided('arithmetic of an unknown integer')
    return x
def _known(x): return isinstance(x, int) and not isinstance(x, bool)
def _sym(x):
    if isinstance(x, bool) or not (isinstance(x, int) or isinstance(x, tuple) and x[0] in ('lin', 'op')): raise Undecided('arithmetic of an unknown integer')
def _arith(ty, op, mode):
    sg, n = BITS[ty]; lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sg else (0, (1 << n) - 1)
    def f(en, st, c):
        a, b = c.args[0], c.args[1]
        if not (_known(a) and _known(b)):
            # symbolic counts: they stay far below the upper limit of their type
            _sym(a); _sym(b)
            if ty != 'usize' or op == 'mul': raise Undecided('arithmetic of an unknown integer')
            if op == 'sub' and not en.int_rel(st, a, b, GT | EQ):
                if mode == 'saturating': return 0
                if mode == 'checked': return NONE
                raise Undecided('wrapping arithmetic of an unknown integer')
            r = en.ladd(a, b, -1 if op == 'sub' else 1)
            return some(r) if mode == 'checked' else ('tup', (r, False)) if mode == 'overflowing' else r
        r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
        if mode == 'saturating': return max(lo, min(hi, r))
        if mode == 'checked': return some(r) if lo <= r <= hi else NONE
        w = (r - lo) % (1 << n) + lo
        if mode == 'wrapping': return w
        return ('tup', (w, w != r))
    return f
for _t in BITS:
    for _o in ('add', 'sub', 'mul'):
        for _m in ('saturating', 'checked', 'wrapping', 'overflowing'): TABLE['core::num::<impl %s>::%s_%s' % (_t, _m, _o)] = _arith(_t, _o, _m)
    TABLE['core::num::<impl %s>::abs_diff' % _t] = lambda en, st, c: abs(_int(c.args[0]) - _int(c.args[1]))
    TABLE['core::num::<impl %s>::is_power_of_two' % _t] = lambda en, st, c: bin(_int(c.args[0])).count('1') == 1
    TABLE['core::num::<impl %s>::is_multiple_of' % _t] = lambda en, st, c: (_int(c.args[0]) % _int(c.args[1]) == 0) if _int(c.args[1]) else _int(c.args[0]) == 0
    TABLE['core::num::<impl %s>::signum' % _t] = lambda en, st, c: (_int(c.args[0]) > 0) - (_int(c.args[0]) < 0)
@model('std::intrinsics::cold_path')
def i_cold(en, st, c): return UNIT
@model('std::intrinsics::likely', 'std::intrinsics::unlikely')
def i_likely(en, st, c): return c.args[0]
def _minmax(want):
    def f(en, st, c):
        a, b = c.args[0], c.args[1]
        if _known(a) and _known(b): return min(a, b) if want == LT else max(a, b)
        _sym(a); _sym(b)
        return a if en.int_rel(st, a, b, want | EQ) else b
    return f
TABLE['std::intrinsics::integer_min'] = _minmax(LT)
TABLE['std::intrinsics::integer_max'] = _minmax(GT)

@model('std::ptr::const_ptr::<impl *const T>::as_ref', 'std::ptr::mut_ptr::<impl *mut T>::as_ref', 'std::ptr::mut_ptr::<impl *mut T>::as_mut')
def ptr_as_ref(en, st, c):
    """A raw pointer made from a reference is never null."""
    v = c.args[0]
    if not (isinstance(v, tuple) and v[0] == 'ref'): raise Undecided('as_ref of a pointer of unknown origin')
    return some(v)

@model('std::ptr::const_ptr::<impl *const T>::is_null', 'std::ptr::mut_ptr::<impl *mut T>::is_null')
def ptr_is_null(en, st, c):
    v = c.args[0]
    if not (isinstance(v, tuple) and v[0] == 'ref'): raise Undecided('is_null of a pointer of unknown origin')
    return False
