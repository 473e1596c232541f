"""Equality of abstract values under the facts of a state."""
from . import terms as t, lin
from .terms import mk, C, A, isp, const, T
from .interp import Split, Unsupported, Panic

FAILED = []      # scalar pairs at equal positions not shown equal: (state, a, b)


def cases(I, st, f, limit=400):
    """f(state) -> bool with splits resolved both ways; True when it holds in every case"""
    todo = [st.copy()]
    n = 0
    while todo:
        s = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported('too many cases')
        try:
            if not f(s):
                return False
        except Split as e:
            todo.extend(I.fork(s, e.cond))
    return True


def int_equal(s, a, b):
    if a is b:
        return True
    d = t.sub(a, b)
    if d is t.ZERO:
        return True
    if lin.entails_eq(s.pc, d):
        return True
    u = unwrap(s, d)
    return u is not d and (u is t.ZERO or lin.entails_eq(s.pc, u))


def unwrap(s, d):
    """drops reductions modulo 2^w of values that the facts keep in range"""
    m = {}
    for x in t.atoms(d):
        if x.op == 'wrap' and isp(x.a[1]):
            w, p = x.a
            if s.decide(t.ge0(p)) is True and s.decide(t.ge0(t.sub(C((1 << w) - 1), p))) is True:
                m[x] = p
    return subst_atoms(d, m) if m else d


def equal(I, st, a, b):
    del FAILED[:]
    a, b = known_values(st, a), known_values(st, b)
    return cases(I, st, lambda s: val_equal(I, s, a, b))


def val_equal(I, s, a, b):
    if a is b:
        return True
    a, b = I.expand(s, a), I.expand(s, b)
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        x, want = (a, b) if isinstance(b, bool) else (b, a)
        d = s.decide(x)
        return d is not None and d == want
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    if a.op == 'ite' or b.op == 'ite':
        x = a if a.op == 'ite' else b
        pick = x.a[1] if s.need(x.a[0]) else x.a[2]
        return val_equal(I, s, pick if x is a else a, b if x is a else pick)
    if isp(a) and isp(b):
        if int_equal(s, a, b):
            return True
        for x in t.atoms(t.sub(a, b)):
            if x.op == 'ite':
                c = s.need(x.a[0])
                m = {x: x.a[1] if c else x.a[2]}
                return val_equal(I, s, subst_atoms(a, m), subst_atoms(b, m))
        return atoms_equal(I, s, a, b)
    if a.op == 'seq' or b.op == 'seq':
        if not (a.op == 'seq' and b.op == 'seq'):
            return False
        return seq_eq(I, s, a, b)
    if a.op == 'E' and b.op == 'E':
        return a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]) and all(
            val_equal(I, s, x, y) for x, y in zip(a.a[2], b.a[2]))
    if a.op == b.op and a.op in ('ge0', 'eq0', 'feq0', 'not', 'andb', 'bsym', 'bat', 'isv'):
        x, y = s.decide(a), s.decide(b)
        if x is not None and x == y:
            return True
        x = s.need(a)
        y = s.need(b)
        return x == y
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in t.BINDERS and a.op not in ('base', 'sym'):
        return all(arg_equal(I, s, x, y) for x, y in zip(a.a, b.a))
    return False


def arg_equal(I, s, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(arg_equal(I, s, p, q) for p, q in zip(x, y))
    if isinstance(x, T) and isinstance(y, T):
        return val_equal(I, s, x, y)
    return x == y


def subst_atoms(p, m):
    r = t.ZERO
    for mo, c in p.a[0]:
        q = C(c)
        for x in mo:
            q = t.mul(q, m.get(x, A(x)))
        r = t.add(r, q)
    return r


def atoms_equal(I, s, a, b):
    """polynomials whose atoms pair up under equal arguments"""
    d = t.sub(a, b)
    ats = t.atoms(d)
    rep = {}
    ch = False
    for i, x in enumerate(ats):
        for y in ats[:i]:
            if x.op == y.op and x.op not in ('sym', 'base') and x.op not in t.BINDERS and len(x.a) == len(y.a):
                if y in rep:
                    continue
                try:
                    same = all(arg_equal(I, s, p, q) for p, q in zip(x.a, y.a))
                except Unsupported:
                    same = False
                if same:
                    rep[x] = A(y)
                    ch = True
                    break
            if x.op == y.op and x.op in ('Sum', 'Prod', 'Iter') and binder_equal(I, s, x, y):
                rep[x] = A(y)
                ch = True
                break
    if not ch:
        return False
    return int_equal(s, subst_atoms(a, rep), subst_atoms(b, rep))


def binder_equal(I, s, x, y):
    if x.op != y.op or not int_equal(s, x.a[1], y.a[1]):
        return False
    if x.op == 'Iter':
        return iter_equal(I, s, x, y)
    k = t.fresh('k', 'nat')
    m = {}
    bx = t.subst(x.a[2], {mk('bv', x.a[0]): A(k)})
    by = t.subst(y.a[2], {mk('bv', y.a[0]): A(k)})
    for p, q in zip(x.a[3:], y.a[3:]):
        p2 = t.subst(p, {mk('bv', x.a[0]): A(k)}) if isinstance(p, (T, tuple)) else p
        q2 = t.subst(q, {mk('bv', y.a[0]): A(k)}) if isinstance(q, (T, tuple)) else q
        if p2 is not q2 and p2 != q2:
            return False
    s2 = s.copy()
    if not s2.assume(t.ge0(A(k)), True) or not s2.assume(t.ge0(t.sub(t.sub(x.a[1], A(k)), t.ONE)), True):
        return True
    return cases(I, s2, lambda z: val_equal(I, z, bx, by))


def iter_equal(I, s, x, y):
    """recurrences from the same start whose steps agree"""
    if len(x.a) != len(y.a) or not val_equal(I, s, x.a[2], y.a[2]):
        return False
    k = t.fresh('k', 'nat')
    acc = t.fresh('acc', 'any') if isp(x.a[2]) else mk('base', t.fresh('acc', 'any'), ('any',))
    bx = t.subst(x.a[3], {mk('bv', x.a[0]): A(k), mk('bv', -x.a[0]): acc if not isp(x.a[2]) else acc})
    by = t.subst(y.a[3], {mk('bv', y.a[0]): A(k), mk('bv', -y.a[0]): acc if not isp(x.a[2]) else acc})
    s2 = s.copy()
    if not s2.assume(t.ge0(A(k)), True) or not s2.assume(t.ge0(t.sub(t.sub(x.a[1], A(k)), t.ONE)), True):
        return True
    return cases(I, s2, lambda z: val_equal(I, z, bx, by))


def seq_equal(I, st, a, b):
    return cases(I, st, lambda s: seq_eq(I, s, a, b))


def empty(s, ln):
    c = const(ln)
    if c is not None:
        return c == 0
    return s.need(t.eq0(ln))


def seq_eq(I, s, a, b):
    a = list(a.a[0])
    b = list(b.a[0])
    if has_iter(a) != has_iter(b):
        a, b = unrolled(I, s, a), unrolled(I, s, b)
    steps = 0
    while True:
        steps += 1
        if steps > 3000:
            raise Unsupported('sequence comparison too long')
        while a and empty(s, t.seglen(a[0])):
            a = a[1:]
        while b and empty(s, t.seglen(b[0])):
            b = b[1:]
        if not a or not b:
            return not a and not b
        g, h = a[0], b[0]
        if g is h:
            a, b = a[1:], b[1:]
            continue
        if g.op == 'sub' and h.op == 'sub' and g.a[0] is not h.a[0] and row_like(g.a[0]) and row_like(h.a[0]) \
                and g.a[0].op == h.a[0].op and same_base(I, s, g.a[0], h.a[0]):
            h = mk('sub', g.a[0], h.a[1], t.slen(g.a[0]) if h.a[2] is t.slen(h.a[0]) else h.a[2])
            b = [h] + b[1:]
        la, lb = t.seglen(g), t.seglen(h)
        if int_equal(s, la, lb):
            if not seg_eq(I, s, g, h, la):
                return False
            a, b = a[1:], b[1:]
            continue
        # unequal lengths: align the shorter one
        if g.op == 'flat' and h.op == 'flat' and unalign(g, h):
            return False
        if s.need(t.ge0(t.sub(la, lb))):
            # la >= lb and not provably equal
            if s.decide(t.ge0(t.sub(lb, la))) is True:
                la = lb
                if not seg_eq(I, s, g, h, la):
                    return False
                a, b = a[1:], b[1:]
                continue
            x, y = I.cut(s, mk('seq', (g,)), lb)
            a = list(x.a[0]) + list(y.a[0]) + a[1:]
            if not x.a[0] or a[0] is g and t.seglen(a[0]) is not lb:
                return False
            if len(x.a[0]) == 1:
                if not seg_eq(I, s, a[0], h, lb):
                    return False
                a, b = a[1:], b[1:]
        else:
            x, y = I.cut(s, mk('seq', (h,)), la)
            b = list(x.a[0]) + list(y.a[0]) + b[1:]
            if not x.a[0] or b[0] is h and t.seglen(b[0]) is not la:
                return False
            if len(x.a[0]) == 1:
                if not seg_eq(I, s, g, b[0], la):
                    return False
                a, b = a[1:], b[1:]


def has_iter(segs):
    return any(g.op == 'sub' and g.a[0].op == 'Iter' for g in segs)


def unrolled(I, s, segs):
    out = []
    for g in segs:
        u = None
        if g.op == 'sub' and g.a[0].op == 'Iter':
            u = unroll(s, g.a[0])
        if u is None:
            out.append(g)
            continue
        if g.a[1] is not t.ZERO or g.a[2] is not t.seglen(mk('sub', g.a[0], t.ZERO, t.slen(t.whole(g.a[0])))):
            u = I.slice(s, u, g.a[1], g.a[2])
        out += list(u.a[0])
    return out


def unroll(s, x):
    """an iterate with one step made explicit, when there is at least one"""
    if s.decide(t.ge0(t.sub(x.a[1], t.ONE))) is not True or isp(x.a[2]):
        return None
    n1 = t.sub(x.a[1], t.ONE)
    prev = mk('Iter', x.a[0], n1, *x.a[2:])
    return t.iter_step(x, n1, prev)


def row_like(b):
    return b.op != 'base'


def same_base(I, s, x, y):
    if x is y:
        return True
    if x.op == 'Iter' and y.op == 'Iter':
        return binder_equal(I, s, x, y)
    if x.op != y.op or len(x.a) != len(y.a) or x.op in t.BINDERS or x.op == 'base':
        return False
    return all(arg_equal(I, s, p, q) for p, q in zip(x.a, y.a))


def unalign(g, h):
    return False


def record(s, x, y):
    """scalars at the same place of two values"""
    if x is y:
        return True
    if isp(x) and isp(y):
        FAILED.append((s.copy(), x, y))
        return True
    if isinstance(x, T) and isinstance(y, T) and x.op == 'E' and y.op == 'E' and x.a[:2] == y.a[:2] and len(x.a[2]) == len(y.a[2]):
        return all([record(s, p, q) for p, q in zip(x.a[2], y.a[2])])
    return False


def seg_eq(I, s, g, h, n):
    """segments of equal length n"""
    if g is h:
        return True
    if g.op == 'sub' and h.op == 'sub':
        if same_base(I, s, g.a[0], h.a[0]) and int_equal(s, g.a[1], h.a[1]):
            return True
        if g.a[0] is h.a[0] and g.a[0].op == 'base':
            return False
        for x, y in ((g, h), (h, g)):
            if x.a[0].op == 'Iter' and y.a[0].op != 'Iter':
                u = unroll(s, x.a[0])
                return u is not None and seq_eq(I, s, I.slice(s, u, x.a[1], x.a[2]), mk('seq', (y,)))
    if g.op == 'fill' and h.op == 'fill':
        return val_equal(I, s, g.a[0], h.a[0])
    if g.op == 'lit' or h.op == 'lit':
        c = const(n)
        if c is None:
            l = len((g if g.op == 'lit' else h).a[0])
            c = l
        G, H = mk('seq', (g,)), mk('seq', (h,))
        ok = True
        for i in range(c):
            x, y = I.get(s, G, C(i)), I.get(s, H, C(i))
            if not val_equal(I, s, x, y):
                ok = False
                if len(FAILED) > 16 or not record(s, x, y):
                    break
        return ok
    if g.op == 'flat' and h.op == 'flat' and int_equal(s, g.a[1], h.a[1]):
        k = t.fresh('k', 'nat')
        s2 = s.copy()
        if not s2.assume(t.ge0(A(k)), True) or not s2.assume(t.ge0(t.sub(t.sub(g.a[1], A(k)), t.ONE)), True):
            return True
        x, y = t.flat_body(g, A(k)), t.flat_body(h, A(k))
        return cases(I, s2, lambda z: seq_eq(I, z, x, y))
    # element by element at an arbitrary index
    k = t.fresh('k', 'nat')
    s2 = s.copy()
    if not s2.assume(t.ge0(A(k)), True) or not s2.assume(t.ge0(t.sub(t.sub(n, A(k)), t.ONE)), True):
        return True
    fl = g if g.op == 'flat' else h
    ot = h if fl is g else g
    if fl.op == 'flat':
        # compare chunk by chunk
        body = t.flat_body(fl, A(k))
        bl = t.slen(body)
        if k in t.free_syms(bl):
            return False
        s3 = s.copy()
        if not s3.assume(t.ge0(A(k)), True) or not s3.assume(t.ge0(t.sub(t.sub(fl.a[1], A(k)), t.ONE)), True):
            return True
        O = mk('seq', (ot,))
        return cases(I, s3, lambda z: seq_eq(I, z, body, I.slice(z, O, t.mul(bl, A(k)), bl)))
    G, H = mk('seq', (g,)), mk('seq', (h,))
    return cases(I, s2, lambda z: val_equal(I, z, I.get(z, G, A(k)), I.get(z, H, A(k))))


def known_values(st, x):
    """replaces symbols that the facts pin to a constant"""
    m = {}
    for kind, p in st.pc:
        if kind == 'eq' and isp(p):
            ms = [q for q in p.a[0] if q[0] != ()]
            if len(ms) == 1 and len(ms[0][0]) == 1 and abs(ms[0][1]) == 1 and ms[0][0][0].op in ('len', 'sym'):
                c = sum(k for q, k in p.a[0] if q == ())
                m[ms[0][0][0]] = C(-c * ms[0][1])
    return t.subst(x, m) if m and isinstance(x, T) else x
