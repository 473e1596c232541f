"""Sums and products over a bound variable: exceptions for the first or last terms are split off where the state says
they exist, common factors leave products, quotients of neighbours telescope."""
from . import terms as t
from .terms import C, A, const, T
from .interp import Split, Unsupported


def tidy(st, p):
    out = t.ZERO
    for m, c in p.a[0]:
        r = C(c)
        m = list(m)
        while m:
            x = next((y for y in m if y.op == 'Prod'), m[0])
            m.remove(x)
            r = t.mul(r, atom(st, x, m))
        out = t.add(out, r)
    return out


def absorb(x, m):
    """the number of factors of the monomial m that continue the product x; they are taken from m"""
    n = x.a[1]
    more = 0
    while True:
        f = t.subst(x.a[2], {t.mk('bv', x.a[0]): n})
        if len(f.a[0]) != 1 or f.a[0][0][1] != 1:
            return more
        left = list(m)
        for y in f.a[0][0][0]:
            if y not in left:
                return more
            left.remove(y)
        m[:] = left
        n = t.add(n, t.ONE)
        more += 1


def atom(st, x, m=()):
    if x.op in ('Sum', 'Prod'):
        lv, n, body = x.a[:3]
        if x.op == 'Prod' and (len(x.a) < 4 or x.a[3] is True) and m:
            n = t.add(n, C(absorb(x, m)))
        k = t.fresh('k', 'nat')
        b = {t.mk('bv', lv): A(k)}
        body = t.subst(body, b)
        cond = t.subst(x.a[3], b) if len(x.a) > 3 else True
        if cond is not True:
            z = st.copy()
            if not z.assume(t.ge0(t.sub(t.sub(n, A(k)), t.ONE))) or not z.assume(cond):
                return t.ONE
            return t.Prod(k, n, tidy(z, body), cond)
        return over(st, k, n, body, x.op == 'Sum')
    if x.op == 'ite' and t.isp(x.a[1]) and t.isp(x.a[2]):
        return tidy(st, x.a[1] if st.need(x.a[0]) else x.a[2])
    if x.op == 'inv':
        return t.finv(tidy(st, x.a[0]))
    if x.op == 'pow':
        return t.fpow(tidy(st, x.a[0]), x.a[1])
    return A(x)


def over(st, k, n, body, sums):
    """the sum or product over k < n; where the body is not uniform the range is cut"""
    unit, join = (t.ZERO, t.add) if sums else (t.ONE, t.mul)
    z = st.copy()
    if not z.assume(t.ge0(t.sub(t.sub(n, A(k)), t.ONE))):
        return unit
    try:
        body = tidy(z, body)
    except Split as e:
        c = e.cond
        while isinstance(c, T) and c.op == 'not':
            c = c.a[0]
        if not (isinstance(c, T) and c.op in ('ge0', 'eq0')) or k not in t.free_syms(c):
            raise
        co = dict(c.a[0].a[0]).get((k,), 0)
        rest = t.sub(c.a[0], t.scale(A(k), co))
        if co not in (1, -1) or k in t.free_syms(rest):
            raise Unsupported('condition within a sum')
        if c.op == 'ge0':
            cuts = [t.add(rest, t.ONE) if co == -1 else t.neg(rest)]
        else:
            m = t.scale(rest, -co)
            cuts = [m, t.add(m, t.ONE)]
        at = [t.ZERO]
        for m in cuts:
            if not st.need(t.ge0(m)):
                continue
            if not st.need(t.ge0(t.sub(n, m))):
                break
            at.append(m)
        at.append(n)
        out = unit
        for lo, hi in zip(at, at[1:]):
            f = t.subst(body, {k: t.add(A(k), lo)}) if lo is not t.ZERO else body
            out = join(out, over(st, k, t.sub(hi, lo), f, sums))
        return out
    return t.Sum(k, n, body) if sums else product(k, n, body)


def product(k, n, body):
    if not body.a[0]:
        return t.Prod(k, n, body)
    out = t.ONE
    if len(body.a[0]) > 1:
        common = list(body.a[0][0][0])
        for m, _ in body.a[0][1:]:
            left = list(m)
            keep = []
            for x in common:
                if x in left:
                    left.remove(x)
                    keep.append(x)
            common = keep
        if common:
            rest = {}
            for m, c in body.a[0]:
                w = list(m)
                for x in common:
                    w.remove(x)
                rest[tuple(w)] = c
            return t.mul(product(k, n, t.poly({tuple(common): 1})), product(k, n, t.poly(rest)))
        if k not in t.free_syms(body):
            return t.fpow(body, n)
        return t.Prod(k, n, body)
    m, c = body.a[0][0]
    m = list(m)
    again = True
    while again:
        again = False
        for y in m:
            if y.op != 'inv' or t.as_atom(y.a[0]) is None or k not in t.free_syms(y):
                continue
            Y = y.a[0]
            for x in m:
                if x is y or k not in t.free_syms(x):
                    continue
                X = A(x)
                if X is t.subst(Y, {k: t.sub(A(k), t.ONE)}):
                    f = t.mul(t.subst(X, {k: t.ZERO}), t.finv(t.subst(Y, {k: t.sub(n, t.ONE)})))
                elif X is t.subst(Y, {k: t.add(A(k), t.ONE)}):
                    f = t.mul(t.subst(Y, {k: n}), t.finv(t.subst(Y, {k: t.ZERO})))
                else:
                    continue
                out = t.mul(out, f)
                m.remove(x)
                m.remove(y)
                again = True
                break
            if again:
                break
    return t.mul(out, t.Prod(k, n, t.poly({tuple(m): c})))


def cases(I, st, *ps):
    """[(state, tidied terms)], splitting the state where that is needed"""
    work, out = [st], []
    while work:
        s = work.pop()
        if len(out) + len(work) > 40:
            raise Unsupported('too many cases')
        try:
            out.append((s, [tidy(s, p) for p in ps]))
        except Split as e:
            work += I.fork(s, e.cond)
    return out


def aligned(st, p):
    """equal sums of different ranges are expressed by one another"""
    out = t.ZERO
    for m, c in p.a[0]:
        r = C(c)
        for x in m:
            if x.op == 'Sum':
                lv, n, body = x.a[:3]
                k = t.fresh('k', 'nat')
                z = st.copy()
                if not z.assume(t.ge0(t.sub(t.sub(n, A(k)), t.ONE))):
                    r = t.ZERO
                    break
                r = t.mul(r, level(st, k, n, aligned(z, t.subst(body, {t.mk('bv', lv): A(k)}))))
            else:
                r = t.mul(r, A(x))
        out = t.add(out, r)
    return merged(out)


def level(st, k, n, body):
    c = dict(n.a[0]).get((), 0)
    if c >= 0 or not st.decide(t.ge0(n)) is True:
        return t.Sum(k, n, body)
    m = t.sub(n, C(c))
    r = t.Sum(k, m, body)
    for i in range(c, 0):
        r = t.sub(r, t.subst(body, {k: t.add(m, C(i))}))
    return r


def quotient(f, g):
    """the monomial u with f = u * g, or None"""
    if not f.a[0] or len(f.a[0]) != len(g.a[0]):
        return None
    a, b = f.a[0][0], None
    for m, c in g.a[0]:
        left = list(a[0])
        for x in m:
            if x not in left:
                break
            left.remove(x)
        else:
            if c == a[1]:
                u = t.poly({tuple(left): 1})
                if t.mul(u, g) is f:
                    return u
    return None


def merged(p):
    for _ in range(60):
        xs = sorted({x for m, _ in p.a[0] for x in m if x.op == 'Sum'}, key=repr_key)
        step = None
        for x in xs:
            for y in xs:
                if x is y or x.a[1] is not y.a[1]:
                    continue
                k = t.fresh('k', 'nat')
                f, g = [t.subst(z.a[2], {t.mk('bv', z.a[0]): A(k)}) for z in (x, y)]
                for m in (1, 2, 3):
                    u = quotient(t.subst(f, {k: t.add(A(k), C(m))}), g)
                    if u is not None and k not in t.free_syms(u):
                        step = x, y, f, g, k, m, u
                        break
                if step:
                    break
            if step:
                break
        if not step:
            return p
        x, y, f, g, k, m, u = step
        n = x.a[1]
        v = t.mul(u, A(y))
        for i in range(m):
            v = t.add(v, t.subst(f, {k: C(i)}))
            v = t.sub(v, t.mul(u, t.subst(g, {k: t.sub(n, C(i + 1))})))
        p = replaced(p, x, v)
    return p


def repr_key(x):
    return t.show(x, 30)


def replaced(p, x, v):
    out = t.ZERO
    for m, c in p.a[0]:
        r = C(c)
        for y in m:
            r = t.mul(r, v if y is x else A(y))
        out = t.add(out, r)
    return out


def powers(p):
    """powers of one base whose exponents differ by constants are expressed by the least"""
    xs = {x for m, _ in p.a[0] for x in m if x.op == 'pow'}
    for x in xs:
        least = min((const(t.sub(y.a[1], x.a[1])) for y in xs
                     if y.a[0] is x.a[0] and const(t.sub(y.a[1], x.a[1])) is not None))
        if least < 0:
            low = t.mk('pow', x.a[0], t.add(x.a[1], C(least)), *x.a[2:])
            p = replaced(p, x, t.mul(A(low), t.power(x.a[0], -least)))
    return p
