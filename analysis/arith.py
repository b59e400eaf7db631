"""Arithmetic on coordinates outside the scanning domain: sums, differences and products of unknown
coordinates, compared by what the order of the coordinates says about them.

A tolerance (epsilon(), or a small literal) is a positive number of unknown size.  What the rules
demand holds for coordinates of every size, in particular for coordinates whose differences are far
below the tolerance: in a comparison with a tolerance the part of lowest degree counts, a coordinate
having degree 1 and a tolerance degree 1/2 (coordinates << tolerance << 1)."""
from fractions import Fraction
import struct

EPS = ('eps',)
def num(n): return ('i', n)
def ar(o, a, b): return ('ar', o, a, b)

def has(t):
    return isinstance(t, tuple) and len(t) > 0 and (t[0] in ('ar', 'eps'))

def literal(t):
    """the term of a floating-point literal, or None"""
    if t[0] != 'flit': return None
    v = t[1]
    if isinstance(v, str):
        try: v = float(v)
        except ValueError: return None
    elif isinstance(v, int):
        v = struct.unpack('<d', struct.pack('<Q', v & ((1 << 64) - 1)))[0] if t[2] == 'f64' else struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0]
    if v != v or v in (float('inf'), float('-inf')): return None
    if v == 0: return num(0)
    if abs(v) <= 1e-2: return EPS if v > 0 else ar('-', num(0), EPS)
    f = Fraction(v)
    return num(f.numerator) if f.denominator == 1 else ar('/', num(f.numerator), num(f.denominator))

class NoPoly(Exception): pass
def expand(st, t):
    """polynomial: {sorted tuple of atoms: coefficient}"""
    if t[0] == 'i': return {(): Fraction(t[1])} if t[1] else {}
    if t[0] == 'ar':
        a, b = expand(st, t[2]), expand(st, t[3])
        if t[1] in '+-':
            r = dict(a)
            for m, c in b.items():
                x = r.get(m, 0) + (c if t[1] == '+' else -c)
                if x: r[m] = x
                else: r.pop(m, None)
            return r
        if t[1] == '*':
            r = {}
            for m, c in a.items():
                for n, d in b.items():
                    k = tuple(sorted(m + n, key=repr)); x = r.get(k, 0) + c * d
                    if x: r[k] = x
                    else: r.pop(k, None)
            return r
        if t[1] == '/' and set(b) == {()}: return {m: c / b[()] for m, c in a.items()}
        raise NoPoly()
    return {(st.ord.rep(t) if t != EPS else t,): Fraction(1)}

def deg(m): return sum(Fraction(1, 2) if x == EPS else 1 for x in m)

def sgn(en, st, t, Und):
    if t[0] == 'i': return (t[1] > 0) - (t[1] < 0)
    if t == EPS: return 1
    if t[0] != 'ar': return en.cmp3(st, t, num(0))
    o, a, b = t[1:]
    if o == '-': return cmp(en, st, a, b, Und)
    if o in '*/':
        if o == '*' and a == b: return abs(sgn(en, st, a, Und))
        return sgn(en, st, a, Und) * sgn(en, st, b, Und)
    x, y = sgn(en, st, a, Und), sgn(en, st, b, Und)
    if x == y or not y: return x
    if not x: return y
    return cmp(en, st, t, num(0), Und, True)

def cmp(en, st, a, b, Und, flat=False):
    """-1/0/1 of a against b"""
    if not has(a) and not has(b): return en.cmp3(st, a, b)
    try: d = expand(st, ar('-', a, b))
    except NoPoly: raise Und('comparison of a quotient')
    if not d: return 0
    if any(EPS in m for m in d):
        lo = min(deg(m) for m in d); part = {m: c for m, c in d.items() if deg(m) == lo}
        if all(all(x == EPS for x in m) for m in part):
            s = {(c > 0) - (c < 0) for c in part.values()}
            if len(s) == 1: return s.pop()
        if len(part) == 1:
            (m, c), = part.items()
            r = 1 if c > 0 else -1
            for x in m:
                if x != EPS: r *= en.cmp3(st, x, num(0))
            if r: return r
        raise Und('comparison with a tolerance')
    ms = list(d.items())
    if len(ms) == 1 and len(ms[0][0]) <= 1:
        m, c = ms[0]; s = 1 if c > 0 else -1
        return s * en.cmp3(st, m[0], num(0)) if m else s
    if len(ms) == 2 and all(len(m) == 1 for m, _ in ms) and ms[0][1] == -ms[1][1]:
        (p, c), (q, _) = ms
        return en.cmp3(st, p[0], q[0]) * (1 if c > 0 else -1)
    if not flat:
        # products, squares and sums of equal signs
        if b == num(0) and a[0] == 'ar' and a[1] != '-': return sgn(en, st, a, Und)
        if a == num(0) and b[0] == 'ar' and b[1] != '-': return -sgn(en, st, b, Und)
    if len(ms) >= 4 and all(len(m) == 2 for m, _ in ms):
        # a determinant computed in the scalar type: rounding may give it any sign
        key = ('inexact', tuple(sorted(((m, str(c)) for m, c in ms), key=repr)))
        neg = ('inexact', tuple(sorted(((m, str(-c)) for m, c in ms), key=repr)))
        if key in st.mat: return st.mat[key]
        if neg in st.mat: return -st.mat[neg]
        from mai import Fork
        raise Fork([('the computed determinant is %s' % n, lambda s, v=v: s.mat.__setitem__(key, v)) for v, n in ((-1, 'negative'), (0, 'zero'), (1, 'positive'))], 'order')
    raise Und('comparison of an arithmetic expression')
