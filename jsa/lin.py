"""Linear integer facts: entailment by Gaussian elimination and Fourier-Motzkin with integer tightening.

A fact is ('ge', p) meaning p >= 0, ('eq', p) meaning p == 0, ('ne', p) meaning p != 0; p is a polynomial
term, monomials of degree > 1 are treated as variables (with the sign facts their bounds give)."""
from math import gcd
from . import terms as t

_cache = {}


def _lin(p):
    """polynomial -> (dict var->coef, const); var = monomial tuple"""
    d = {}
    c0 = 0
    for m, c in p.a[0]:
        if m == ():
            c0 = c
        else:
            d[m] = c
    return d, c0


def _positive(q, given):
    lo, _ = t.bounds(q)
    return lo is not None and lo > 0 or ('ge', t.sub(q, t.ONE)) in given


def _scaled(given):
    """facts on a rounded quotient by a positive symbolic divisor, multiplied out:
    ceil(p/q) <= e iff p <= e q, and ceil(p/q) >= e iff p > (e - 1) q"""
    out = []
    for kind, f in given:
        if kind == 'ne':
            continue
        for m, c in f.a[0]:
            if len(m) == 1 and c in (1, -1) and m[0].op in ('ceildiv', 'div'):
                p, q = m[0].a
                if t.const(q) is not None or not _positive(q, given):
                    continue
                e = t.scale(t.sub(f, t.scale(t.mk('poly', ((m, 1),)), c)), -c)
                up = m[0].op == 'ceildiv'
                if c == -1 or kind == 'eq':     # quotient <= e
                    out.append(('ge', t.sub(t.mul(e, q), p) if up else t.sub(t.sub(t.mul(t.add(e, t.ONE), q), p), t.ONE)))
                if c == 1 or kind == 'eq':      # quotient >= e
                    out.append(('ge', t.sub(t.sub(p, t.mul(t.sub(e, t.ONE), q)), t.ONE) if up else t.sub(p, t.mul(e, q))))
    return out


def _quotient_bounds(given, atoms):
    """p <= c q gives ceil(p/q) <= c for a constant c; p >= c q + 1 gives ceil(p/q) >= c + 1"""
    out = []
    for x in atoms:
        if x.op not in ('ceildiv', 'div'):
            continue
        p, q = x.a
        if t.const(q) is not None or not _positive(q, given):
            continue
        mp = t.A(x)
        for kind, f in given:
            if kind != 'ge':
                continue
            for sign in (1, -1):
                g = t.add(f, t.scale(p, sign))      # f + p = c q + d, or f - p = -c q - d
                ms = [(m, c) for m, c in g.a[0] if m]
                if not ms:
                    continue
                m0, c0 = ms[0]
                cq = dict(q.a[0]).get(m0)
                if not cq or c0 % cq:
                    continue
                c = c0 // cq
                d = t.const(t.sub(g, t.scale(q, c)))
                if d is None:
                    continue
                if sign == 1:        # p <= c q + d
                    if x.op == 'ceildiv' and d <= 0:
                        out.append(('ge', t.sub(t.C(c), mp)))
                    elif x.op == 'div' and d < 0:
                        out.append(('ge', t.sub(t.C(c - 1), mp)))
                    elif x.op == 'div' and d == 0:
                        out.append(('ge', t.sub(t.C(c), mp)))
                else:                # p >= -c q - d
                    if x.op == 'ceildiv' and d < 0:
                        out.append(('ge', t.sub(mp, t.C(-c + 1))))
                    elif d <= 0:
                        out.append(('ge', t.sub(mp, t.C(-c))))
    return out


def _side_facts(seen_atoms, todo, given=()):
    """facts about atoms by definition"""
    out = []
    while todo:
        m = todo.pop()
        if m in seen_atoms:
            continue
        seen_atoms.add(m)
        if len(m) > 1:
            lo, hi = t._mono_bounds(m)
        else:
            lo, hi = t.bounds(m[0])
        mp = t.mk('poly', ((m, 1),))
        if lo is not None:
            out.append(('ge', t.sub(mp, t.C(lo))))
        if hi is not None:
            out.append(('ge', t.sub(t.C(hi), mp)))
        if len(m) == 1:
            x = m[0]
            fs = []
            if x.op == 'div':
                p, q = x.a
                lo, _ = t.bounds(p)
                c = t.const(q)
                if c is not None and c > 0:
                    r = t.sub(p, t.scale(mp, c))
                    fs = [('ge', r), ('ge', t.sub(t.C(c - 1), r))]
                else:
                    if _positive(q, given):
                        r = t.sub(p, t.mul(mp, q))
                        fs = [('ge', r), ('ge', t.sub(t.sub(q, t.ONE), r))]
            elif x.op == 'ceildiv':
                p, q = x.a
                if _positive(q, given):
                    r = t.sub(t.mul(mp, q), p)
                    fs = [('ge', r), ('ge', t.sub(t.sub(q, t.ONE), r))]
            elif x.op == 'min':
                fs = [('ge', t.sub(y, mp)) for y in x.a[0]]
            elif x.op == 'max':
                fs = [('ge', t.sub(mp, y)) for y in x.a[0]]
            for f in fs:
                out.append(f)
                for mm, _ in f[1].a[0]:
                    if mm and mm not in seen_atoms:
                        todo.append(mm)
    return out


def _norm(d, c):
    """tighten d . x + c >= 0; returns (d, c) or True/False"""
    d = {k: v for k, v in d.items() if v}
    if not d:
        return c >= 0
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g
    return d, c


def infeasible(facts):
    """True when the conjunction of facts has no integer solution (sound, incomplete)"""
    key = frozenset(facts)
    r = _cache.get(key)
    if r is None:
        r = _infeasible(list(key))
        _cache[key] = r
    return r


def _infeasible(facts):
    allf = list(facts)
    given = set(facts)
    allf += _scaled(given)
    seen = set()
    todo = [m for f in allf for m, _ in f[1].a[0] if m]
    allf += _side_facts(seen, todo, given)
    qs = {m[0] for m in seen if len(m) == 1 and m[0].op in ('ceildiv', 'div')}
    if qs:
        allf += _quotient_bounds(given, qs)
    eqs, ges, nes = [], [], []
    for k, p in allf:
        d, c = _lin(p)
        (eqs if k == 'eq' else nes if k == 'ne' else ges).append((d, c))
    # Gaussian elimination on equalities with a unit coefficient
    for _ in range(200):
        if not eqs:
            break
        eq = None
        for i, (d, c) in enumerate(eqs):
            if not d:
                if c != 0:
                    return True
                eqs.pop(i)
                eq = 'again'
                break
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if c % g:
                return True
            if g > 1:
                eqs[i] = ({k: v // g for k, v in d.items()}, c // g)
                d, c = eqs[i]
            for k, v in d.items():
                if abs(v) == 1:
                    eq = (i, k, v)
                    break
            if eq:
                break
        if eq == 'again':
            continue
        if eq is None:
            # no unit coefficient: keep as two inequalities
            for d, c in eqs:
                ges.append((d, c))
                ges.append(({k: -v for k, v in d.items()}, -c))
            break
        i, k, v = eq
        d, c = eqs.pop(i)
        # k = -(rest)/v
        rest = {a: -b * v for a, b in d.items() if a != k}
        rc = -c * v

        def sb(dc):
            d2, c2 = dc
            if k not in d2:
                return dc
            co = d2[k]
            nd = {a: b for a, b in d2.items() if a != k}
            for a, b in rest.items():
                nd[a] = nd.get(a, 0) + co * b
            return {a: b for a, b in nd.items() if b}, c2 + co * rc
        eqs = [sb(x) for x in eqs]
        ges = [sb(x) for x in ges]
        nes = [sb(x) for x in nes]
    for d, c in nes:
        if not {a for a, b in d.items() if b} and c == 0:
            return True
    if _fm(ges):
        return True
    # case split on disequalities that share variables (at most three)
    cand = [x for x in nes if x[0]][:3]
    if cand:
        return _split(ges, cand)
    return False


def _split(ges, nes):
    if not nes:
        return _fm(ges)
    d, c = nes[0]
    pos = (dict(d), c - 1)
    ngt = ({k: -v for k, v in d.items()}, -c - 1)
    return (_fm(ges + [pos]) or _split(ges + [pos], nes[1:])) and (_fm(ges + [ngt]) or _split(ges + [ngt], nes[1:]))


LIMIT = 1500


def _fm(ges):
    cs = {}

    def put(d, c):
        r = _norm(d, c)
        if r is True:
            return False
        if r is False:
            return True
        d, c = r
        k = frozenset(d.items())
        o = cs.get(k)
        if o is None or c < o:
            cs[k] = c
            nk = frozenset((a, -b) for a, b in k)
            if nk in cs and cs[nk] + c < 0:
                return True
        return False
    for d, c in ges:
        if put(d, c):
            return True
    # combinations whose coefficients share a divisor tighten over the integers
    if len(cs) <= 40:
        base = [(dict(k), c) for k, c in cs.items()]
        for i, (d1, c1) in enumerate(base):
            if max(abs(x) for x in d1.values()) == 1:
                continue
            for d2, c2 in base:
                common = [x for x in d1 if x in d2 and d1[x] * d2[x] < 0]
                if not common or len(set(d1) | set(d2)) - len(common) > 2:
                    continue
                v = common[0]
                a, b = abs(d1[v]), abs(d2[v])
                nd = {x: y * b for x, y in d1.items()}
                for x, y in d2.items():
                    nd[x] = nd.get(x, 0) + y * a
                nd = {x: y for x, y in nd.items() if y}
                if not nd or len(nd) > 2:
                    continue
                g = 0
                for y in nd.values():
                    g = gcd(g, y)
                if g > 1 and (c1 * b + c2 * a) % g and put(nd, c1 * b + c2 * a):
                    return True
    for _ in range(60):
        vars_ = {}
        for k in cs:
            for a, b in k:
                p = vars_.setdefault(a, [0, 0])
                p[0 if b > 0 else 1] += 1
        if not vars_:
            return False
        v = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1], vars_[x][0] + vars_[x][1]))
        pos, ngt, rest = [], [], []
        for k, c in cs.items():
            d = dict(k)
            b = d.get(v, 0)
            (pos if b > 0 else ngt if b < 0 else rest).append((d, c))
        if len(pos) * len(ngt) + len(rest) > LIMIT:
            return False
        cs.clear()
        for d, c in rest:
            cs[frozenset(d.items())] = c
        for d1, c1 in pos:
            a = d1[v]
            for d2, c2 in ngt:
                b = -d2[v]
                nd = {}
                for x, y in d1.items():
                    nd[x] = y * b
                for x, y in d2.items():
                    nd[x] = nd.get(x, 0) + y * a
                nd.pop(v, None)
                if put(nd, c1 * b + c2 * a):
                    return True
    return False


def relevant(facts, p):
    """facts connected with the variables of p"""
    vs = {x for m, _ in p.a[0] for x in _deep(m)}
    todo = list(facts)
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for f in todo:
            fv = {x for m, _ in f[1].a[0] for x in _deep(m)}
            if fv & vs or not fv:
                vs |= fv
                out.append(f)
                ch = True
            else:
                rest.append(f)
        todo = rest
    return out


_deepc = {}


def _deep(m):
    r = _deepc.get(m)
    if r is None:
        r = set(m)
        for x in m:
            if x.op in ('div', 'ceildiv', 'min', 'max'):
                for y in x.a:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        for mm, _ in z.a[0]:
                            r |= _deep(mm)
        _deepc[m] = r
    return r


def entails_ge(facts, p):
    """facts |- p >= 0"""
    g = t.ge0(p)
    if g is True:
        return True
    n = ('ge', t.sub(t.neg(p), t.ONE))
    fs = relevant(facts, p)
    if g is False:
        return infeasible(fs + [])  # only when the state itself is impossible
    return infeasible(fs + [n])


def entails_eq(facts, p):
    c = t.const(p)
    if c == 0:
        return True
    return entails_ge(facts, p) and entails_ge(facts, t.neg(p))


def decide(facts, cond):
    """True / False / None for a ge0/eq0 condition"""
    if cond is True or cond is False:
        return cond
    if cond.op == 'not':
        r = decide(facts, cond.a[0])
        return None if r is None else not r
    p = cond.a[0]
    if cond.op == 'ge0':
        if entails_ge(facts, p):
            return True
        if entails_ge(facts, t.sub(t.neg(p), t.ONE)):
            return False
        return None
    if cond.op == 'eq0':
        fs = relevant(facts, p)
        if infeasible(fs + [('eq', p)]):
            return False
        if infeasible(fs + [('ne', p)]) or entails_eq(facts, p):
            return True
        return None
    return None
