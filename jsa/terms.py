"""Hash-consed terms: integer polynomials, bit-vector normal forms, sequences.

A term is interned, so structural equality is object identity.  Integers, field members and characters
are polynomials ('poly') over atoms; bitwise expressions are kept in algebraic normal form over rotated
atoms; sequences are concatenations of literal, slice, and comprehension segments.
"""
import itertools


class T:
    __slots__ = ('op', 'a', 'id', 'lv', 'fv', '_b')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = itertools.count()


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_cnt)
        t.lv = None
        t.fv = None
        t._b = None
        _tab[k] = t
    return t


_fresh = itertools.count()


def sym(name, ty='int'):
    return mk('sym', name, ty)


def fresh(name, ty='int'):
    return mk('sym', '%s#%d' % (name, next(_fresh)), ty)


# ------------------------------------------------------------------ polynomials
def poly(d):
    return mk('poly', tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=_mkey)))


def _mkey(mc):
    return tuple(x.id for x in mc[0])


def C(n):
    return mk('poly', (((), n),)) if n != 0 else mk('poly', ())


def A(atom):
    """atom as a polynomial"""
    if atom.op == 'poly':
        return atom
    return mk('poly', (((atom,), 1),))


ZERO = C(0)
ONE = C(1)


def isp(x):
    return isinstance(x, T) and x.op == 'poly'


def const(p):
    """integer value of a constant polynomial, or None"""
    if not p.a[0]:
        return 0
    if len(p.a[0]) == 1 and p.a[0][0][0] == ():
        return p.a[0][0][1]
    return None


def as_atom(p):
    """the atom of a polynomial that is exactly one atom"""
    if len(p.a[0]) == 1:
        m, c = p.a[0][0]
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def add(p, q):
    if not p.a[0]:
        return q
    if not q.a[0]:
        return p
    d = dict(p.a[0])
    for m, c in q.a[0]:
        d[m] = d.get(m, 0) + c
    return poly(d)


def neg(p):
    return scale(p, -1)


def scale(p, k):
    return mk('poly', tuple((m, c * k) for m, c in p.a[0])) if k else ZERO


def sub(p, q):
    return add(p, neg(q))


def mul(p, q):
    cp = const(p)
    if cp is not None:
        return scale(q, cp)
    cq = const(q)
    if cq is not None:
        return scale(p, cq)
    d = {}
    for m1, c1 in p.a[0]:
        for m2, c2 in q.a[0]:
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[m] = d.get(m, 0) + c1 * c2
    r = poly(d)
    return _simp_inv(r)


def _simp_inv(p):
    """x * inv(x) = 1 for atoms x (field inverses of single atoms)"""
    if not any(a.op == 'inv' for m, _ in p.a[0] for a in m):
        return p
    d = {}
    ch = False
    for m, c in p.a[0]:
        m = list(m)
        k = 0
        while k < len(m):
            if m[k].op == 'inv':
                at = as_atom(m[k].a[0])
                if at is not None and at in m:
                    inv = m[k]
                    m.remove(inv)
                    m.remove(at)
                    ch = True
                    k = 0
                    continue
            k += 1
        m = tuple(m)
        d[m] = d.get(m, 0) + c
    return poly(d) if ch else p


def psum(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def atoms(p):
    s = []
    for m, _ in p.a[0]:
        for x in m:
            if x not in s:
                s.append(x)
    return s


def power(p, n):
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


# ------------------------------------------------------------------ bounds
WID = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
       'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'char': 32}
LENMAX = 2 ** 63 - 1


def ty_bounds(ty):
    if ty in WID:
        w = WID[ty]
        if ty[0] == 'i':
            return -2 ** (w - 1), 2 ** (w - 1) - 1
        return 0, 2 ** w - 1
    if ty == 'len':
        return 0, LENMAX
    if ty == 'nat':
        return 0, None
    if ty == 'small':      # counters the statement assumes to stay away from the type's end
        return 0, 2 ** 62
    if ty == 'pos':
        return 1, 2 ** 40
    if ty == 'bool':
        return 0, 1
    return None, None


def bounds(t):
    """(lo, hi) of an atom or polynomial; None when unbounded"""
    if t._b is not None:
        return t._b
    r = _bounds(t)
    t._b = r
    return r


def _bounds(t):
    op = t.op
    if op == 'poly':
        lo = hi = 0
        for m, c in t.a[0]:
            ml, mh = _mono_bounds(m)
            if c < 0:
                ml, mh = mh, ml
            lo = None if lo is None or ml is None else lo + c * ml
            hi = None if hi is None or mh is None else hi + c * mh
        return lo, hi
    if op == 'sym':
        return ty_bounds(t.a[1])
    if op == 'len':
        return 0, LENMAX
    if op == 'at':
        return ty_bounds(t.a[2])
    if op == 'wrap':
        return 0, 2 ** t.a[0] - 1
    if op == 'rot':
        return 0, 2 ** t.a[0] - 1
    if op == 'bits':
        m = 0
        for _, k in t.a[0]:
            m |= k
        return 0, m
    if op == 'mod':
        c = const(t.a[1])
        return 0, (c - 1 if c is not None else None)
    if op == 'div':
        lo, hi = bounds(t.a[0])
        c = const(t.a[1])
        if lo is not None and lo >= 0:
            return 0, (hi // c if hi is not None and c else hi)
        return None, None
    if op == 'ceildiv':
        return 0, None
    if op == 'trip':
        return 0, 2 ** 64
    if op in ('min', 'max'):
        bs = [bounds(x) for x in t.a[0]]
        los = [b[0] for b in bs]
        his = [b[1] for b in bs]
        if op == 'min':
            return (None if None in los else min(los)), (min([h for h in his if h is not None], default=None))
        return max([x for x in los if x is not None], default=None), (None if None in his else max(his))
    if op in ('app', 'proj'):
        return ty_bounds(t.a[-1]) if isinstance(t.a[-1], str) else (None, None)
    if op == 'bitlen':
        return 0, None
    if op == 'First':
        return 0, bounds(t.a[1])[1]
    if op == 'intf':
        n, w = t.a[0], t.a[1]
        if n in ('next_power_of_two', 'reverse_bits', 'isqrt'):
            return 0, 2 ** w - 1
        return 0, w
    if op == 'bigf':
        return 0, (bounds(t.a[1])[1] if t.a[0] in ('root', 'shr') else None)
    if op == 'modpow':
        c = const(t.a[2])
        return 0, (c - 1 if c is not None and c > 0 else None)
    if op == 'rand':
        hi = None
        if t.a[2] == 'below':
            hi = const(t.a[3])
            return 0, (hi - 1 if hi is not None and hi > 0 else None)
        if t.a[2] == 'bits':
            hi = const(t.a[3])
            return 0, (2 ** hi - 1 if hi is not None and hi < 10000 else None)
        if t.a[2] == 'range':
            lo, hi = const(t.a[3]), const(t.a[4])
            return lo, (hi - 1 if hi is not None else None)
    return None, None


def _mono_bounds(m):
    lo = hi = 1
    for x in m:
        l, h = bounds(x)
        if l is None or l < 0:
            if len(m) == 1:
                return l, h
            return None, None
        lo = lo * l
        hi = None if hi is None or h is None else hi * h
    return lo, hi


# ------------------------------------------------------------------ bit vectors
# A bits value is a map monomial -> mask, the xor over all monomials of (and of rotated leaves) & mask.
# A leaf is an atom; rot(w, r, atom) is the atom rotated left by r in a word of w bits.
def _known(x):
    lo, hi = bounds(x)
    if lo is None or lo < 0 or hi is None:
        return None
    return (1 << hi.bit_length()) - 1


def _leafmask(l):
    if l.op == 'rot':
        w, r, x = l.a
        k = _known(x)
        full = (1 << w) - 1
        if k is None:
            return full
        k &= full
        return ((k << r) | (k >> (w - r))) & full
    return _known(l)


def to_bits(p, w):
    """polynomial (value in 0..2^w-1) -> dict monomial->mask"""
    full = (1 << w) - 1
    c = const(p)
    if c is not None:
        c &= full
        return {(): c} if c else {}
    at = as_atom(p)
    if at is not None and at.op == 'bits':
        return {m: k & full for m, k in at.a[0] if k & full}
    # a sum of disjoint bit values is their xor
    if len(p.a[0]) > 1 or at is None:
        parts = []
        ok = True
        for m, co in p.a[0]:
            if len(m) == 0 and co > 0:
                parts.append({(): co & full})
            elif len(m) == 1 and co > 0 and co & (co - 1) == 0:
                b = to_bits(A(m[0]), w)
                s = co.bit_length() - 1
                parts.append(b_shl(b, s, w))
            else:
                ok = False
                break
        if ok:
            used = 0
            acc = {}
            for b in parts:
                mm = 0
                for k in b.values():
                    mm |= k
                if mm & used:
                    ok = False
                    break
                used |= mm
                acc = b_xor(acc, b)
            if ok:
                lo, hi = bounds(p)
                if hi is not None and hi <= full:
                    return acc
        x = mk('wrap', w, p)
        return {(x,): full}
    k = _known(at)
    if k is None:
        at = mk('wrap', w, p)
        k = full
    k &= full
    return {(at,): k} if k else {}


def b_xor(a, b):
    d = dict(a)
    for m, k in b.items():
        n = d.get(m, 0) ^ k
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return d


def b_and(a, b):
    d = {}
    for m1, k1 in a.items():
        for m2, k2 in b.items():
            k = k1 & k2
            if not k:
                continue
            m = tuple(sorted(set(m1) | set(m2), key=lambda t: t.id))
            n = d.get(m, 0) ^ k
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    return d


def b_rot(a, r, w):
    r %= w
    if r == 0:
        return dict(a)
    full = (1 << w) - 1
    d = {}
    for m, k in a.items():
        nm = []
        for l in m:
            if l.op == 'rot' and l.a[0] == w:
                rr = (l.a[1] + r) % w
                nm.append(mk('rot', w, rr, l.a[2]) if rr else l.a[2])
            else:
                nm.append(mk('rot', w, r, l))
        nm = tuple(sorted(nm, key=lambda t: t.id))
        kk = ((k << r) | (k >> (w - r))) & full
        n = d.get(nm, 0) ^ kk
        if n:
            d[nm] = n
        else:
            d.pop(nm, None)
    return d


def b_mask(a, msk):
    return {m: k & msk for m, k in a.items() if k & msk}


def b_shl(a, s, w):
    full = (1 << w) - 1
    if s >= w:
        return {}
    return b_mask(b_rot(a, s, w), (full << s) & full)


def b_shr(a, s, w):
    full = (1 << w) - 1
    if s >= w:
        return {}
    return b_mask(b_rot(a, w - s, w), full >> s)


def from_bits(b):
    b = {m: k for m, k in b.items() if k}
    if not b:
        return ZERO
    if len(b) == 1:
        (m, k), = b.items()
        if m == ():
            return C(k)
        if len(m) == 1:
            x = m[0]
            if x.op == 'wrap' and k & (k + 1) == 0 and k.bit_length() <= x.a[0]:
                return wrap(x.a[1], k.bit_length())
            km = _leafmask(x)
            if km is not None and km & ~k == 0 and x.op != 'rot':
                if x.op == 'wrap':
                    return wrap(x.a[1], x.a[0])
                return A(x)
    return A(mk('bits', tuple(sorted(b.items(), key=_mkey))))


def wrap(p, w):
    """p mod 2^w as a polynomial"""
    lo, hi = bounds(p)
    if lo is not None and hi is not None and 0 <= lo and hi < 2 ** w:
        return p
    m = 2 ** w
    q = p
    # flatten inner wraps of at least this width
    for _ in range(8):
        ch = False
        d = ZERO
        for mo, c in q.a[0]:
            c %= m
            if not c:
                continue
            if len(mo) == 1 and mo[0].op == 'wrap' and mo[0].a[0] >= w:
                d = add(d, scale(mo[0].a[1], c))
                ch = True
            else:
                d = add(d, poly({mo: c}))
        q = d
        if not ch:
            break
    q = poly({mo: c % m for mo, c in q.a[0]})
    c = const(q)
    if c is not None:
        return C(c % m)
    lo, hi = bounds(q)
    if lo is not None and hi is not None and 0 <= lo and hi < m:
        return q
    at = as_atom(q)
    if at is not None and at.op == 'bits':
        return from_bits(b_mask(dict(at.a[0]), m - 1))
    if at is not None and at.op == 'wrap' and at.a[0] <= w:
        return q
    if at is not None and _known(at) is not None:
        return from_bits(b_mask(to_bits(q, 256), m - 1))
    return A(mk('wrap', w, q))


def bxor(p, q, w):
    return from_bits(b_xor(to_bits(p, w), to_bits(q, w)))


def band(p, q, w):
    return from_bits(b_and(to_bits(p, w), to_bits(q, w)))


def bor(p, q, w):
    a, b = to_bits(p, w), to_bits(q, w)
    return from_bits(b_xor(b_xor(a, b), b_and(a, b)))


def bnot(p, w):
    return from_bits(b_xor(to_bits(p, w), {(): (1 << w) - 1}))


def shl(p, s, w):
    return from_bits(b_shl(to_bits(p, w), s, w))


def shr(p, s, w):
    return from_bits(b_shr(to_bits(p, w), s, w))


def rotl(p, s, w):
    return from_bits(b_rot(to_bits(p, w), s % w, w))


def byte_of(p, i, w):
    """i-th least significant byte of a word"""
    return from_bits(b_mask(b_shr(to_bits(p, w), 8 * i, w), 0xFF))


def word_of(bs, w, little=True):
    """word from bytes"""
    acc = {}
    n = len(bs)
    for i, b in enumerate(bs):
        s = 8 * (i if little else n - 1 - i)
        acc = b_xor(acc, b_shl(to_bits(b, w), s, w))
    return from_bits(acc)


# ------------------------------------------------------------------ integer division
def divmod_(p, q):
    cp, cq = const(p), const(q)
    if cq == 1:
        return p, ZERO
    if cp is not None and cq:
        return C(cp // cq), C(cp % cq)
    if cq is not None and cq > 0:
        # split off multiples of the divisor
        whole = poly({m: c // cq for m, c in p.a[0]})
        rest = poly({m: c % cq for m, c in p.a[0]})
        lo, hi = bounds(rest)
        if lo is not None and lo >= 0 and hi is not None and hi < cq:
            return whole, rest
        d = A(mk('div', rest, q))
        return add(whole, d), sub(rest, scale(d, cq))
    d = A(mk('div', p, q))
    return d, sub(p, mul(d, q))


def ceildiv(p, q):
    cp, cq = const(p), const(q)
    if cp is not None and cq:
        return C(-(-cp // cq))
    if cq == 1:
        return p
    if cq is None and p.a[0] and q.a[0]:
        c, r = divmod(p.a[0][-1][1], dict(q.a[0]).get(p.a[0][-1][0], 0) or 1 << 200)
        if c > 0 and not r and scale(q, c) is p:
            return C(c)
    return A(mk('ceildiv', p, q))


# ------------------------------------------------------------------ field helpers
def finv(p):
    c = const(p)
    if c in (1, -1):
        return p
    at = as_atom(p)
    if at is not None and at.op == 'inv':
        return at.a[0]
    if len(p.a[0]) == 1:
        m, co = p.a[0][0]
        if co in (1, -1):
            r = C(co)
            for x in m:
                r = mul(r, x.a[0] if x.op == 'inv' else A(mk('inv', A(x))))
            return r
        # leave the coefficient inside
    # normalise the sign: leading coefficient positive
    if p.a[0] and p.a[0][-1][1] < 0:
        return neg(A(mk('inv', neg(p))))
    return A(mk('inv', p))


def fpow(b, e):
    """b ** e with a polynomial exponent"""
    c = const(e)
    if c is not None and 0 <= c <= 64:
        return power(b, c)
    if const(b) in (0, 1) and (const(b) == 1):
        return ONE
    at = as_atom(b)
    if at is not None and at.op == 'pow':
        return fpow(at.a[0], mul(at.a[1], e))
    # split off constant part of the exponent
    k = dict(e.a[0]).get((), 0)
    if 0 < k <= 8 and len(e.a[0]) > 1 and all(cc > 0 for _, cc in e.a[0]):
        return mul(power(b, k), fpow(b, sub(e, C(k))))
    return A(mk('pow', b, e))


# ------------------------------------------------------------------ binders
def height(t):
    """largest binder level inside a term"""
    if isinstance(t, tuple):
        r = 0
        for x in t:
            h = height(x)
            if h > r:
                r = h
        return r
    if not isinstance(t, T):
        return 0
    if t.lv is None:
        r = height(t.a)
        if t.op in BINDERS:
            r = max(r, t.a[0])
        t.lv = r
    return t.lv


BINDERS = {'Sum', 'Prod', 'flat', 'Iter', 'Any', 'All', 'First'}


def free_syms(t):
    """frozenset of free 'sym'/'bv'/'trip' atoms"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= free_syms(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    if t.fv is None:
        if t.op in ('sym', 'bv'):
            t.fv = frozenset([t])
        else:
            r = free_syms(t.a)
            if t.op == 'len':
                r = r | frozenset([t])
            if t.op in BINDERS:
                lv = t.a[0]
                b = mk('bv', lv)
                if t.op == 'Iter':
                    r = r - {b, mk('bv', -lv)}
                else:
                    # the count (a[1]) is outside of the binder
                    r = (free_syms(t.a[2:]) - {b}) | free_syms(t.a[1])
            t.fv = r
    return t.fv


def subst(t, m, memo=None):
    """simultaneous substitution of symbols; m: atom -> term (poly, seq or value)"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo, frozenset(m))


def _subst(t, m, memo, keys):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo, keys) for x in t)
    if not isinstance(t, T):
        if hasattr(t, 'map_terms'):
            return t.map_terms(lambda x: _subst(x, m, memo, keys))
        return t
    if not (free_syms(t) & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in BINDERS:
        r = _subst_binder(t, m, memo, keys)
    else:
        r = rebuild(t.op, tuple(_subst(x, m, memo, keys) for x in t.a))
    memo[t] = r
    return r


def rewrite(t, m, memo=None):
    """replaces whole terms outside of binders"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(rewrite(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        if t.op in BINDERS or not t.a:
            r = t
        else:
            a = tuple(rewrite(x, m, memo) for x in t.a)
            r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t.op, a)
        memo[t] = r
    return r


def _subst_binder(t, m, memo, keys):
    lv = t.a[0]
    k = fresh('k', 'nat')
    open_ = {mk('bv', lv): A(k)}
    if t.op == 'Iter':
        # Iter(lv, count, init, body): value after count steps of v -> body(bv lv = step, bv -lv = v)
        acc = fresh('v', 'any')
        open_[mk('bv', -lv)] = acc
        body = subst(t.a[3], open_)
        body = subst(body, m)
        return iter_term(k, acc, subst(t.a[1], m), subst(t.a[2], m), body, *t.a[4:])
    body = subst(t.a[2], open_)
    body = subst(body, m)
    n = subst(t.a[1], m)
    rest = subst(t.a[3:], open_)
    rest = subst(rest, m)
    if t.op == 'Sum':
        return Sum(k, n, body)
    if t.op == 'Prod':
        return Prod(k, n, body, *rest)
    if t.op == 'flat':
        return flat(k, n, body)
    if t.op == 'First':
        return first(k, n, body)
    return mk_bind(t.op, k, n, body, *rest)


def first(k, n, body):
    """the least index below n for which the body holds, n when there is none"""
    if body is False or n is ZERO:
        return n
    if body is True:
        return A(mk('First', 1, n, mk('const', True)))
    return A(mk_bind('First', k, n, body))


def mk_bind(op, k, n, body, *rest):
    lv = max(height(body), height(rest)) + 1
    b = mk('bv', lv)
    km = {k: A(b)}
    return mk(op, lv, n, subst(body, km), *[subst(r, km) for r in rest])


def iter_term(k, acc, n, init, body, *rest):
    lv = height(body) + 1
    body = subst(body, {k: A(mk('bv', lv)), acc: mk('bv', -lv)})
    r = mk('Iter', lv, n, init, body, *rest)
    if not isp(init) and isinstance(body, T) and body.op == 'seq' and const(n) is None:
        # at least one step: the last one explicit
        n1 = sub(n, ONE)
        lo, _ = bounds(n1)
        if lo is not None and lo >= 0:
            return iter_step(r, n1, mk('Iter', lv, n1, init, body, *rest))
    if n is ZERO:
        return init
    return r


def iter_step(x, idx, prev):
    """the step of an iterate, from prev at iteration idx"""
    return subst(x.a[3], {mk('bv', x.a[0]): idx, mk('bv', -x.a[0]): prev})


def rebuild(op, a):
    f = _CONS.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)


def _re_poly(ms):
    r = ZERO
    for m, c in ms:
        t = C(c)
        for x in m:
            t = mul(t, A(x) if isinstance(x, T) and x.op != 'poly' else x)
        r = add(r, t)
    return r


def _re_bits(ms):
    acc = {}
    for m, k in ms:
        b = {(): k}
        for x in m:
            if isp(x):
                w = max(k.bit_length(), 8)
                w = next(z for z in (8, 16, 32, 64, 128, 256) if z >= w)
                b = b_and(b, to_bits(x, w))
            else:
                b = b_and(b, {(x,): k})
        acc = b_xor(acc, b)
    return from_bits(acc)


def _re_rot(w, r, x):
    if isp(x):
        return rotl(x, r, w)
    return mk('rot', w, r, x)


def int_fn(name, w, v):
    """value of an integer function of the standard library on a number"""
    v &= (1 << w) - 1
    ones = bin(v).count('1')
    if name == 'count_ones':
        return ones
    if name == 'count_zeros':
        return w - ones
    if name == 'leading_zeros':
        return w - v.bit_length()
    if name == 'leading_ones':
        return w - (v ^ ((1 << w) - 1)).bit_length()
    if name == 'trailing_zeros':
        return w if v == 0 else (v & -v).bit_length() - 1
    if name == 'trailing_ones':
        u = v ^ ((1 << w) - 1)
        return w if u == 0 else (u & -u).bit_length() - 1
    if name == 'reverse_bits':
        return int(bin(v)[2:].zfill(w)[::-1], 2)
    if name == 'ilog2':
        return max(v.bit_length() - 1, 0)
    if name == 'ilog10':
        return max(len(str(v)) - 1, 0)
    if name == 'isqrt':
        r = int(v ** 0.5)
        while r * r > v:
            r -= 1
        while (r + 1) * (r + 1) <= v:
            r += 1
        return r
    if name == 'next_power_of_two':
        return 1 if v <= 1 else 1 << (v - 1).bit_length()
    raise ValueError(name)


def intf(name, w, x):
    c = const(x)
    return C(int_fn(name, w, c)) if c is not None else A(mk('intf', name, w, x))


def big_fn(name, *v):
    if name == 'gcd':
        import math
        return math.gcd(*v)
    if name == 'lcm':
        import math
        return v[0] * v[1] // math.gcd(*v) if v[0] and v[1] else 0
    if name == 'root':
        x, n = v
        if n <= 0:
            raise ValueError('root')
        lo, hi = 0, 1 << (x.bit_length() // n + 1)
        while lo < hi:
            m = (lo + hi + 1) // 2
            if m ** n <= x:
                lo = m
            else:
                hi = m - 1
        return lo
    if name == 'shl':
        return v[0] << min(v[1], 1 << 16)
    if name == 'shr':
        return v[0] >> v[1]
    return {'and': int.__and__, 'or': int.__or__, 'xor': int.__xor__}[name](*v)


def bigf(name, *xs):
    """a function of natural numbers of any size that is only ever evaluated"""
    c = [const(x) for x in xs]
    return C(big_fn(name, *c)) if None not in c else A(mk('bigf', name, *xs))


def tri(n):
    """n (n - 1) / 2"""
    c = const(n)
    if c is not None:
        return C(c * (c - 1) // 2)
    c = 0
    for m, k in n.a[0]:
        if m == ():
            c = k
    if c == 0:
        return A(mk('tri', n))
    p = sub(n, C(c))
    return add(add(A(mk('tri', p)), scale(p, c)), C(c * (c - 1) // 2))


def peel(n):
    """n - 1 when n is at least one by its form (and not just by a large constant)"""
    c = sum(q for m, q in n.a[0] if m == ())
    if not 1 <= c <= 8 or const(n) is not None:
        return None
    n1 = sub(n, ONE)
    lo, _ = bounds(n1)
    return n1 if lo is not None and lo >= 0 else None


# sums over a bound variable
def Sum(k, n, body):
    """sum over k < n of body (k a symbol)"""
    cn = const(n)
    if body is ZERO or cn == 0:
        return ZERO
    # linear in the summand, constants factor out, telescoping is not attempted
    if cn is not None and 0 < cn <= 16:
        return psum(subst(body, {k: C(i)}) for i in range(cn))
    n1 = peel(n)
    if n1 is not None:
        return add(Sum(k, n1, body), subst(body, {k: n1}))
    tot = ZERO
    for m, c in body.a[0]:
        inside = tuple(x for x in m if k in free_syms(x))
        outside = tuple(x for x in m if k not in free_syms(x))
        o = poly({outside: c})
        if not inside:
            tot = add(tot, mul(o, n))
        elif all(x is k for x in inside) and len(inside) == 1:
            # k(k-1)/2 kept as atom of n
            tot = add(tot, mul(o, tri(n)))
        else:
            tot = add(tot, mul(o, A(mk_bind('Sum', k, n, poly({inside: 1})))))
    return tot


def Prod(k, n, body, cond=True):
    """product over k < n (with cond(k)) of body"""
    cn = const(n)
    if body is ONE or cn == 0 or cond is False:
        return ONE
    if len(body.a[0]) == 1 and body.a[0][0][1] == 1 and len(body.a[0][0][0]) == 1:
        x = body.a[0][0][0][0]
        # a factor that is one where a condition (does not) hold is left out there
        if x.op == 'ite' and x.a[1] is ONE:
            return Prod(k, n, x.a[2], band_(cond, bnot_(x.a[0])))
        if x.op == 'ite' and x.a[2] is ONE:
            return Prod(k, n, x.a[1], band_(cond, x.a[0]))
    at = lambda i: subst(body, {k: i}) if cond is True else ite(subst(cond, {k: i}), subst(body, {k: i}), ONE)
    if cn is not None and 0 < cn <= 16:
        r = ONE
        for i in range(cn):
            r = mul(r, at(C(i)))
        return r
    n1 = peel(n)
    if n1 is not None:
        return mul(Prod(k, n1, body, cond), at(n1))
    if len(body.a[0]) == 1 and cond is True:
        m, c = body.a[0][0]
        inside = tuple(x for x in m if k in free_syms(x))
        outside = tuple(x for x in m if k not in free_syms(x))
        r = fpow(poly({outside: c}), n) if (outside or c != 1) else ONE
        for x in inside:
            if x.op == 'inv':
                r = mul(r, finv(Prod(k, n, x.a[0])))
            else:
                r = mul(r, A(mk_bind('Prod', k, n, A(x), True)))
        return r
    if len(body.a[0]) == 1:
        m, c = body.a[0][0]
        r = ONE
        if c != 1:
            r = A(mk_bind('Prod', k, n, C(c), cond))
        for x in m:
            if x.op == 'inv':
                r = mul(r, finv(Prod(k, n, x.a[0], cond)))
            else:
                r = mul(r, A(mk_bind('Prod', k, n, A(x), cond)))
        return r
    # normalise the sign of a multi-term factor
    if body.a[0] and body.a[0][-1][1] < 0:
        return mul(Prod(k, n, C(-1), cond), Prod(k, n, neg(body), cond))
    return A(mk_bind('Prod', k, n, body, cond))


# ------------------------------------------------------------------ sequences
# segments: lit(vals) | sub(base, start, len) | fill(v, n) | flat(lv, n, body)
# base: T('base', name, elemtype) or any opaque term
EMPTY = mk('seq', ())


def lit(vals):
    vals = tuple(vals)
    return mk('seq', (mk('lit', vals),)) if vals else EMPTY


def whole(base):
    if base.op == 'seq':
        return base
    return mk('seq', (mk('sub', base, ZERO, lenof(base)),))


def lenof(base):
    if base.op == 'base' and isinstance(base.a[0], T) and base.a[0].op == 'bytes_be':
        base = mk('base', mk('bytes_le', base.a[0].a[0]), base.a[1])
    return A(mk('len', base))


def mirrored(s):
    """the reversal of a whole encoded number"""
    if s.op == 'seq' and len(s.a[0]) == 1 and s.a[0][0].op == 'sub' and s.a[0][0].a[0].op == 'base':
        b = s.a[0][0].a[0]
        if isinstance(b.a[0], T) and b.a[0].op in ('bytes_le', 'bytes_be') and s is whole(b):
            o = 'bytes_be' if b.a[0].op == 'bytes_le' else 'bytes_le'
            return whole(mk('base', mk(o, b.a[0].a[0]), b.a[1]))
    return None


def fill(v, n):
    c = const(n)
    if c is not None:
        return lit((v,) * c)
    return mk('seq', (mk('fill', v, n),))


def flat(k, n, body):
    """concatenation over k < n of body(k)"""
    if body is EMPTY:
        return EMPTY
    c = const(n)
    if c is not None and c <= 64:
        return cat(*[subst(body, {k: C(i)}) for i in range(c)])
    segs = body.a[0]
    if len(segs) == 1:
        s = segs[0]
        if k not in free_syms(body):
            if s.op == 'lit' and len(set(s.a[0])) == 1:
                return fill(s.a[0][0], scale(n, len(s.a[0])))
            if s.op == 'fill':
                return fill(s.a[0], mul(n, s.a[1]))
        if s.op == 'sub' and k not in free_syms(s.a[0]):
            base, st, ln = s.a
            s0 = subst(st, {k: ZERO})
            if sub(st, s0) is mul(ln, A(k)) and k not in free_syms(ln):
                return mk('seq', (mk('sub', base, s0, mul(ln, n)),))
        if s.op == 'lit' and len(s.a[0]) == 1:
            v = s.a[0][0]
            b = _elem_src(v)
            if b is not None and k not in free_syms(b[0]):
                i0 = subst(b[1], {k: ZERO})
                if sub(b[1], i0) is A(k):
                    return mk('seq', (mk('sub', b[0], i0, n),))
    return mk('seq', (mk_bind('flat', k, n, body),))


ELEM_SRC = []     # hooks recognising structured elements of a base


def _elem_src(v):
    """(base, index) when v is the element of a base"""
    if isp(v):
        a = as_atom(v)
        if a is not None and a.op == 'at':
            return a.a[0], a.a[1]
        return None
    for f in ELEM_SRC:
        r = f(v)
        if r is not None:
            return r
    return None


def comp(k, n, elem):
    return flat(k, n, lit((elem,)))


def cat(*seqs):
    segs = []
    for s in seqs:
        for g in s.a[0]:
            _push(segs, g)
    # short symbolic-free fills are literals already
    return mk('seq', tuple(segs))


def _push(segs, g):
    if g.op == 'sub' and const(g.a[2]) == 0:
        return
    if g.op == 'fill' and const(g.a[1]) == 0:
        return
    if segs:
        p = segs[-1]
        if p.op == 'lit' and g.op == 'lit':
            segs[-1] = mk('lit', p.a[0] + g.a[0])
            return
        if p.op == 'sub' and g.op == 'sub' and p.a[0] is g.a[0] and add(p.a[1], p.a[2]) is g.a[1]:
            segs[-1] = mk('sub', p.a[0], p.a[1], add(p.a[2], g.a[2]))
            return
        if p.op == 'fill' and g.op == 'fill' and p.a[0] is g.a[0]:
            segs[-1] = mk('fill', p.a[0], add(p.a[1], g.a[1]))
            return
        if p.op == 'fill' and g.op == 'lit':
            n = 0
            while n < len(g.a[0]) and g.a[0][n] is p.a[0]:
                n += 1
            if n:
                segs[-1] = mk('fill', p.a[0], add(p.a[1], C(n)))
                if n < len(g.a[0]):
                    segs.append(mk('lit', g.a[0][n:]))
                return
        if p.op == 'lit' and g.op == 'fill':
            n = 0
            while n < len(p.a[0]) and p.a[0][-1 - n] is g.a[0]:
                n += 1
            if n:
                if n < len(p.a[0]):
                    segs[-1] = mk('lit', p.a[0][:-n])
                else:
                    segs.pop()
                _push(segs, mk('fill', g.a[0], add(g.a[1], C(n))))
                return
        if p.op == 'flat' and g.op == 'flat' and p.a[0] == g.a[0]:
            # same body continued
            b = mk('bv', p.a[0])
            if b in free_syms(p.a[2]) or True:
                sh = _shift_body(p.a[0], p.a[2], p.a[1])
                if sh is g.a[2]:
                    segs[-1] = mk('flat', p.a[0], add(p.a[1], g.a[1]), p.a[2])
                    return
        if p.op == 'lit' and g.op == 'flat' and len(g.a[2].a[0]) == 1 and g.a[2].a[0][0].op == 'lit':
            # absorb the element before a comprehension when it continues it backwards
            bl = g.a[2].a[0][0].a[0]
            if len(bl) == 1 and mk('bv', g.a[0]) in free_syms(g.a[2]):
                k = fresh('k', 'nat')
                e1 = subst(g.a[2], {mk('bv', g.a[0]): sub(A(k), ONE)})
                if subst(e1, {k: ZERO}) is lit((p.a[0][-1],)):
                    if len(p.a[0]) > 1:
                        segs[-1] = mk('lit', p.a[0][:-1])
                    else:
                        segs.pop()
                    for x in flat(k, add(g.a[1], ONE), e1).a[0]:
                        _push(segs, x)
                    return
        if p.op == 'flat' and g.op == 'lit' and len(p.a[2].a[0]) == 1 and p.a[2].a[0][0].op == 'lit':
            bl = p.a[2].a[0][0].a[0]
            if len(bl) == 1 and subst(p.a[2], {mk('bv', p.a[0]): p.a[1]}) is lit((g.a[0][0],)):
                segs[-1] = mk('flat', p.a[0], add(p.a[1], ONE), p.a[2])
                if len(g.a[0]) > 1:
                    _push(segs, mk('lit', g.a[0][1:]))
                return
    segs.append(g)


def _shift_body(lv, body, by):
    """body with bv := bv + by, closed again at the same level"""
    k = fresh('k', 'nat')
    b = subst(body, {mk('bv', lv): add(A(k), by)})
    return subst(b, {k: A(mk('bv', lv))})


def seglen(g):
    if g.op == 'lit':
        return C(len(g.a[0]))
    if g.op == 'sub':
        return g.a[2]
    if g.op == 'fill':
        return g.a[1]
    # flat
    k = fresh('k', 'nat')
    body = subst(g.a[2], {mk('bv', g.a[0]): A(k)})
    l = slen(body)
    if k not in free_syms(l):
        return mul(l, g.a[1])
    return Sum(k, g.a[1], l)


def slen(s):
    if s.op != 'seq':
        return lenof(s)
    return psum(seglen(g) for g in s.a[0])


def flat_body(g, idx):
    return subst(g.a[2], {mk('bv', g.a[0]): idx})


def flat_from(g, start, n):
    """iterations start .. start+n of a flat segment, as a seq"""
    k = fresh('k', 'nat')
    return flat(k, n, flat_body(g, add(start, A(k))))


def _re_seq(segs):
    out = []
    for g in segs:
        if isinstance(g, T) and g.op == 'seq':
            for x in g.a[0]:
                _push(out, x)
        else:
            _push(out, g)
    return mk('seq', tuple(out))


def _re_sub(base, start, ln):
    if isinstance(base, T) and base.op == 'seq':
        # substituting a sequence for a base symbol: only the whole of it can be taken without a state
        if start is ZERO and ln is slen(base):
            return base
        r = static_slice(base, start, ln)
        if r is not None:
            return r
        return mk('seq', (mk('sub', base, start, ln),))
    return mk('sub', base, start, ln)


def static_slice(s, start, ln):
    """slice whose cuts are decidable syntactically; None otherwise"""
    out = []
    pos = ZERO
    i = 0
    segs = list(s.a[0])
    # skip whole segments
    while i < len(segs) and pos is not start:
        l = seglen(segs[i])
        rest = sub(start, pos)
        cr, cl = const(rest), const(l)
        if segs[i].op == 'lit' and cr is not None and cr < cl:
            segs[i] = mk('lit', segs[i].a[0][cr:])
            pos = start
            break
        if segs[i].op in ('sub', 'fill') and i == len(segs) - 1:
            lo, _ = bounds(rest)
            if lo is not None and lo >= 0:
                if segs[i].op == 'sub':
                    segs[i] = mk('sub', segs[i].a[0], add(segs[i].a[1], rest), sub(l, rest))
                else:
                    segs[i] = mk('fill', segs[i].a[0], sub(l, rest))
                pos = start
                break
            return None
        lo, _ = bounds(sub(rest, l))
        if lo is None or lo < 0:
            return None
        pos = add(pos, l)
        i += 1
    if pos is not start:
        return None
    left = ln
    while left is not ZERO:
        if i >= len(segs):
            return None
        l = seglen(segs[i])
        if l is left:
            _push(out, segs[i])
            left = ZERO
            break
        d = sub(left, l)
        lo, hi = bounds(d)
        if lo is not None and lo >= 0:
            _push(out, segs[i])
            left = d
            i += 1
            continue
        if hi is not None and hi < 0:
            g = segs[i]
            if g.op == 'sub':
                _push(out, mk('sub', g.a[0], g.a[1], left))
            elif g.op == 'fill':
                _push(out, mk('fill', g.a[0], left))
            elif g.op == 'lit' and const(left) is not None:
                _push(out, mk('lit', g.a[0][:const(left)]))
            else:
                return None
            left = ZERO
            break
        return None
    return mk('seq', tuple(out))


def _re_at(base, idx, ty):
    if isinstance(base, T) and base.op == 'seq':
        r = static_slice(base, idx, ONE)
        if r is not None and len(r.a[0]) == 1:
            g = r.a[0][0]
            if g.op == 'lit':
                return g.a[0][0]
            if g.op == 'fill':
                return g.a[0]
            if g.op == 'sub':
                return A(mk('at', g.a[0], g.a[1], ty))
        # a comprehension over the index
        if len(base.a[0]) == 1 and base.a[0][0].op == 'flat':
            g = base.a[0][0]
            b = g.a[2]
            if len(b.a[0]) == 1 and b.a[0][0].op == 'lit' and len(b.a[0][0].a[0]) == 1:
                return flat_body(g, idx).a[0][0].a[0][0]
        if len(base.a[0]) == 1 and base.a[0][0].op == 'fill':
            return base.a[0][0].a[0]
    return A(mk('at', base, idx, ty))


def _re_len(b):
    if isinstance(b, T) and b.op == 'seq':
        return slen(b)
    return lenof(b)


def _re_wrap(w, p):
    return wrap(p, w)


def _re_inv(p):
    return finv(p)


def _re_div(p, q):
    return divmod_(p, q)[0]


def ge0(p):
    c = const(p)
    if c is not None:
        return c >= 0
    lo, hi = bounds(p)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    return mk('ge0', p)


def eq0(p):
    c = const(p)
    if c is not None:
        return c == 0
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if p.a[0][-1][1] < 0:
        p = neg(p)
    return mk('eq0', p)


def feq0(p):
    """zero test in the field"""
    c = const(p)
    if c == 0:
        return True
    if c in (1, -1):
        return False
    if p.a[0][-1][1] < 0:
        p = neg(p)
    return mk('feq0', p)


def bnot_(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.op == 'not':
        return c.a[0]
    return mk('not', c)


def band_(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    return mk('andb', a, b)


def bor_(a, b):
    return bnot_(band_(bnot_(a), bnot_(b)))


def ite(c, a, b):
    if c is True or a is b:
        return a
    if c is False:
        return b
    if isinstance(c, T) and c.op == 'not':
        return ite(c.a[0], b, a)
    t = mk('ite', c, a, b)
    return A(t) if isp(a) or isp(b) else t


_CONS = {
    'poly': _re_poly, 'bits': _re_bits, 'rot': _re_rot, 'wrap': _re_wrap, 'inv': _re_inv,
    'pow': fpow, 'seq': _re_seq, 'sub': _re_sub, 'at': _re_at, 'len': _re_len,
    'div': _re_div, 'ge0': ge0, 'eq0': eq0, 'feq0': feq0, 'not': bnot_, 'andb': band_, 'ite': ite,
    'ceildiv': ceildiv, 'tri': tri, 'intf': intf, 'bigf': bigf,
}
# seq constructors receive rebuilt segments; a rebuilt 'sub' may be a whole seq, handled in _re_seq
_CONS['fill'] = lambda v, n: mk('fill', v, n) if const(n) is None else fill(v, n)
_CONS['lit'] = lambda vs: mk('lit', vs)


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth - 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    op, a = t.op, t.a
    if op == 'poly':
        if not a[0]:
            return '0'
        out = []
        for m, c in a[0][:12]:
            ms = '*'.join(show(x, depth - 1) for x in m)
            if not ms:
                out.append(str(c) if abs(c) < 10 ** 6 else hex(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c, ms))
        if len(a[0]) > 12:
            out.append('…')
        s = ' + '.join(out).replace('+ -', '- ')
        return s if len(a[0]) == 1 else '(' + s + ')'
    if op in ('sym',):
        return a[0].split('#')[0] + ('' if '#' not in a[0] else "'" + a[0].split('#')[1])
    if op == 'base':
        return a[0]
    if op == 'len':
        return '|%s|' % show(a[0], depth - 1)
    if op == 'at':
        return '%s[%s]' % (show(a[0], depth - 1), show(a[1], depth - 1))
    if op == 'seq':
        return '⟨' + ' ++ '.join(show(g, depth - 1) for g in a[0][:10]) + '⟩'
    if op == 'lit':
        if len(a[0]) > 20:
            return '[%s … %d]' % (', '.join(show(x, depth - 1) for x in a[0][:6]), len(a[0]))
        return '[' + ', '.join(show(x, depth - 1) for x in a[0]) + ']'
    if op == 'sub':
        return '%s[%s;+%s]' % (show(a[0], depth - 1), show(a[1], depth - 1), show(a[2], depth - 1))
    if op == 'fill':
        return '[%s;%s]' % (show(a[0], depth - 1), show(a[1], depth - 1))
    if op == 'flat':
        return 'for b%d<%s: %s' % (a[0], show(a[1], depth - 1), show(a[2], depth - 1))
    if op == 'bv':
        return 'b%d' % a[0]
    if op == 'ge0':
        return '%s>=0' % show(a[0], depth - 1)
    if op == 'eq0':
        return '%s==0' % show(a[0], depth - 1)
    if op == 'feq0':
        return '%s=0(F)' % show(a[0], depth - 1)
    return '%s(%s)' % (op, ', '.join(show(x, depth - 1) for x in a))
