"""Prime fields, Diffie-Hellman and RSA: M01-M06, E01, E02."""
from itertools import permutations, product
from . import terms as t, interp, prove, evalt, lin, report
from .terms import mk, A, C, isp, const, T
from .interp import State, Unsupported, Split, Panic
from .rules_h import guard, compare, decide, panic_sites, brief, unknowns, U8
from .models import BIGUINT

PF = 'PrimeField'
BIG = ('adt', BIGUINT, ())

RFC5114 = {}


class Field:
    """a concrete implementor of PrimeField wrapping one big integer"""

    def __init__(self, prog, im, I):
        self.p = prog
        self.im = im
        self.I = I
        self.ty = I.rty(im['crate'], im['self'], {})
        self.key = self.ty[1]
        self.name = self.key.split('::')[-1]
        adt = prog.adts.get(self.key)
        fs = adt['variants'][0]['fields'] if adt else []
        self.plain = len(fs) == 1 and I.rty(adt['crate'], fs[0]['ty'], {}) == BIG
        self.prime = None

    def method(self, trait, name, **targs):
        r = self.I.find_impl(trait, name, self.ty)
        if r is not None:
            return r
        for k in self.p.bodies:
            if k.endswith('::%s::%s' % (trait, name)):
                return k, {'Self': self.ty}
        raise Unsupported('no %s::%s for %s' % (trait, name, self.name))

    def wrap(self, v):
        return mk('E', self.key, 0, (v,))

    def member(self, st, name):
        v = A(t.sym(name, 'nat'))
        st.assume(t.ge0(t.sub(C(self.prime - 1), v)), True)
        return v

    def number(self, st, v):
        v = self.I.mget(st, v)
        if isinstance(v, T) and v.op == 'E' and v.a[0] == self.key and isp(v.a[2][0]):
            return v.a[2][0]
        raise Unsupported('field member expected, got %s' % t.show(v, 3))

    def find_prime(self):
        k, env = self.method(PF, 'field_prime')
        rs = self.I.run(k, [], State(), env)
        if len(rs) != 1:
            raise Unsupported('field_prime has several outcomes')
        v = self.number(rs[0][0], rs[0][1])
        c = const(v)
        if c is None:
            raise Unsupported('field_prime is not a constant')
        self.prime = c
        return c


def fields(prog, rep):
    out = []
    for im in prog.impls:
        if (im.get('trait') or '').split('::')[-1].split('<')[0] != PF:
            continue
        I = interp.Interp(prog)
        F = Field(prog, im, I)
        if not F.key.startswith('jester'):
            continue
        try:
            if not F.plain:
                raise Unsupported('not a wrapper of one big integer')
            F.find_prime()
        except (Unsupported, Split, Panic, KeyError, IndexError, TypeError) as e:
            rep.unknown('field %s' % F.name, 'its modulus is not found: %s' % str(e)[:200])
            continue
        if F.prime < 2:
            rep.violation('%s:prime' % F.name, 'the modulus of %s is %d' % (F.name, F.prime))
            continue
        out.append(F)
    if not out:
        rep.violation('anchor', 'there is no predefined prime field any more')
    rep.facts['fields'] = [F.name for F in out]
    return out


def congruent(rep, F, st, key, what, got, want, where):
    """got = want (mod p) and 0 <= got < p"""
    p = F.prime
    d = t.sub(got, want)
    d = t.poly({m: c % p for m, c in d.a[0]})
    if d is t.ZERO or unfold(st, d, p) is t.ZERO or divisible(st, t.sub(got, want), p):
        rep.ok(what + ': congruent')
    else:
        w, n = (None, 0)
        if not unknowns(got):
            z = t.sub(got, want)
            for big in (False, True):
                if w is None:
                    w, n = evalt.differ(st, [(mk('mod', z, C(p)), t.ZERO)], big=big, hook=modhook, want=60)
        if w is not None:
            rep.violation(key, '%s: %s gives %s, which is not congruent to %s modulo the prime (for instance when %s)' % (
                what, where, brief(got), brief(want), w[0]))
        else:
            rep.unknown(what + ': congruent', 'got %s want %s' % (brief(got), brief(want)))
    decide(rep, st, t.band_(t.ge0(got), t.ge0(t.sub(C(p - 1), got))), what + ': reduced', key, where)


def modhook(v, x):
    if x.op == 'mod':
        return v.evi(x.a[0]) % v.evi(x.a[1])
    return None


def unfold(st, d, p):
    """drops multiples of p inside of powers and roundings: modpow(b, 1, p) = b etc."""
    m = {}
    for x in t.atoms(d):
        if x.op == 'modpow' and const(x.a[2]) == p and const(x.a[1]) == 1:
            m[x] = x.a[0]
    if not m:
        return d
    d = prove.subst_atoms(d, m)
    return t.poly({q: c % p for q, c in d.a[0]})


def divisible(st, d, p):
    """p | d under the facts, where equalities pin values"""
    d = prove.known_values(st, d)
    d = t.poly({m: c % p for m, c in d.a[0]})
    if d is t.ZERO:
        return True
    for k in (0, 1, -1):
        if lin.entails_eq(st.pc, t.sub(d, C(k * p))):
            return True
    return False


def outcomes(rep, F, what, key, f):
    """runs f(st) -> results; panics are violations"""
    I = F.I
    I.panics, I.proved = [], []
    rs = f()
    panic_sites(rep, I, key, what)
    if not rs and not I.panics:
        rep.violation(key, '%s never returns' % what)
    return rs


BINOPS = {'Add': ('add', t.add), 'Sub': ('sub', t.sub), 'Mul': ('mul', t.mul)}


def check_M01(prog, rep):
    rep.rule = ('Every arithmetic operation of every concrete prime field is summarised for arbitrary reduced operands; the '
                'result must differ from the exact integer result by a polynomial multiple of the modulus and lie in 0..p-1 '
                'on every path. Sums and products are summarised over the proved binary operations.')
    nops = 0
    for F in fields(prog, rep):
        I = F.I
        for tr, (m, f) in sorted(BINOPS.items()):
            def one():
                st = State()
                a, b = F.member(st, 'a'), F.member(st, 'b')
                k, env = F.method(tr, m)
                what = '%s %s' % (F.name, m)
                for s, v in outcomes(rep, F, what, '%s:%s' % (F.name, m), lambda: I.run(k, [F.wrap(a), F.wrap(b)], st, env)):
                    congruent(rep, F, s, '%s:%s' % (F.name, m), what, F.number(s, v), f(a, b), k)
            guard(rep, '%s %s' % (F.name, m), one)
            nops += 1

        def rem():
            st = State()
            a, b = F.member(st, 'a'), A(t.sym('b', 'nat'))
            st.assume(t.ge0(t.sub(b, t.ONE)), True)
            st.assume(t.ge0(t.sub(C(F.prime), b)), True)
            for tr, m, i in (('Rem', 'rem', 1), ('Div', 'div', 0)):
                k, env = F.method(tr, m)
                what = '%s %s' % (F.name, m)
                for s, v in outcomes(rep, F, what, '%s:%s' % (F.name, m), lambda: I.run(k, [F.wrap(a), F.wrap(b)], st.copy(), env)):
                    compare(rep, I, s, '%s:%s' % (F.name, m), what, simple(s, F.number(s, v)), t.divmod_(a, b)[i], k)
        guard(rep, F.name + ' rem', rem)

        def neutral():
            for tr, m, c in (('Zero', 'zero', 0), ('One', 'one', 1)):
                k, env = F.method(tr, m)
                for s, v in I.run(k, [], State(), env):
                    compare(rep, I, s, '%s:%s' % (F.name, m), '%s %s' % (F.name, m), F.number(s, v), C(c % F.prime), k)
                try:
                    k, env = F.method(tr, 'is_' + m)
                except Unsupported:
                    continue
                st = State()
                a = F.member(st, 'a')
                truth(rep, F, st, '%s is_%s' % (F.name, m), '%s:is_%s' % (F.name, m), I.run(k, [F.wrap(a)], st, env),
                      t.eq0(t.sub(a, C(c))), k)
            r = I.find_impl('PartialEq', 'eq', F.ty)
            if r:
                st = State()
                a, b = F.member(st, 'a'), F.member(st, 'b')
                truth(rep, F, st, F.name + ' ==', F.name + ':eq', I.run(r[0], [F.wrap(a), F.wrap(b)], st, r[1]),
                      t.eq0(t.sub(a, b)), r[0])
        guard(rep, F.name + ' zero, one, equality', neutral)

        def power():
            k, env = F.method(PF, 'pow')
            st = State()
            a, b = F.member(st, 'a'), F.member(st, 'b')
            what = F.name + ' pow'
            for s, v in outcomes(rep, F, what, F.name + ':pow', lambda: I.run(k, [F.wrap(a), F.wrap(b)], st, env)):
                congruent(rep, F, s, F.name + ':pow', what, F.number(s, v), A(mk('modpow', a, b, C(F.prime))), k)
            k, env = F.method(PF, 'modpow')
            st = State()
            a, b = F.member(st, 'a'), F.member(st, 'b')
            n = A(t.sym('n', 'nat'))
            st.assume(t.ge0(t.sub(n, t.ONE)), True)
            st.assume(t.ge0(t.sub(C(F.prime - 1), n)), True)
            what = F.name + ' modpow'
            for s, v in outcomes(rep, F, what, F.name + ':modpow', lambda: I.run(k, [F.wrap(a), F.wrap(b), F.wrap(n)], st, env)):
                compare(rep, I, s, F.name + ':modpow', what, simple(s, F.number(s, v)), A(mk('modpow', a, b, n)), k)
        guard(rep, F.name + ' powers', power)

        def folds():
            J = interp.Interp(prog)
            G = Field(prog, F.im, J)
            G.prime = F.prime
            J.models['elem'] = lambda I_, base, idx, ety: G.wrap(A(mk('at', base, idx, 'nat'))) if ety == G.ty else None
            for tr, (m, f) in BINOPS.items():
                k, _ = G.method(tr, m)
                J.opaque_fns[k] = (lambda f: lambda I_, st, a, ci: G.wrap(f(G.number(st, a[0]), G.number(st, a[1]))))(f)
            for tr, m, c in (('PartialEq', 'eq', None), ('Zero', 'is_zero', t.ZERO), ('One', 'is_one', t.ONE)):
                q = J.find_impl(tr, m, G.ty)
                if q is not None:
                    J.opaque_fns[q[0]] = (lambda c: lambda I_, st, a, ci: t.feq0(
                        t.sub(G.number(st, a[0]), G.number(st, a[1]) if c is None else c)))(c)
            for tr, m, red in (('Sum', 'sum', t.Sum), ('Product', 'product', t.Prod)):
                r = J.find_impl(tr, m, G.ty)
                if r is None:
                    raise Unsupported('no ' + m)
                st = State()
                xs = t.whole(mk('base', 'xs', G.ty))
                n = t.slen(xs)
                from .models import as_iter
                it = as_iter(J, st, xs)
                env = dict(r[1])
                for g in prog.bodies[r[0]]['generics']:
                    env.setdefault(g, ('param', g))
                j = t.fresh('k', 'nat')
                el = G.number(st, J.get(st, xs, A(j)))
                what, key = '%s %s' % (F.name, m), '%s:%s' % (F.name, m)

                def judge(rep, st, it, want, what):
                    J.panics, J.proved = [], []
                    res = J.run(r[0], [it], st, env)
                    for s, v in res:
                        compare(rep, J, s, key, what, G.number(s, v), want, r[0], field=True, prime=F.prime)
                    panic_sites(rep, J, key, what)
                    if not res:
                        rep.violation(key, what + ' never returns')

                def few():
                    # any number of members could not be summarised: a few of them
                    for cnt in range(4):
                        s0 = State()
                        ys = [G.member(s0, 'x%d' % i) for i in range(cnt)]
                        want = t.ZERO if m == 'sum' else t.ONE
                        for y in ys:
                            want = (t.add if m == 'sum' else t.mul)(want, y)
                        judge(rep, s0, as_iter(J, s0, t.lit([G.wrap(y) for y in ys])), want, '%s of %d members' % (what, cnt))
                before = len(rep.undecided)
                guard(rep, what, lambda: judge(rep, st, it, red(j, n, el), what))
                if len(rep.undecided) > before:
                    guard(rep, what + ' of few members', few)
        guard(rep, F.name + ' sum and product', folds)
    rep.facts['operations'] = nops


def simple(st, v):
    """removes reductions of values that are in range, at every depth"""
    for _ in range(6):
        m = {}
        for x in inner(v, 'div'):
            if st.decide(t.ge0(x.a[0])) is True and st.decide(t.ge0(t.sub(t.sub(x.a[1], x.a[0]), t.ONE))) is True:
                m[x] = t.ZERO
            elif modsmall(st, x):
                m[x] = t.ZERO
        if not m:
            return v
        v = t.rewrite(v, m)
    return v


def inner(v, op):
    out, seen, todo = [], set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x.id not in seen:
            seen.add(x.id)
            if x.op == op:
                out.append(x)
            todo.extend(x.a)
    return sorted(out)


def modsmall(st, x):
    """div(modpow(b, e, n), p) with n <= p"""
    a = t.as_atom(x.a[0])
    return a is not None and a.op == 'modpow' and st.decide(t.ge0(t.sub(x.a[1], a.a[2]))) is True


def truth(rep, F, st, what, key, results, want, where):
    """a boolean result equals a condition"""
    for s, v in results:
        for z in F.I.fork(s.copy(), want):
            w = z.decide(want)
            for z2 in (F.I.fork(z, v) if isinstance(v, T) else [z]):
                got = z2.decide(v) if isinstance(v, T) else v
                if got == w:
                    rep.ok(what)
                    continue
                wit = next(iter(evalt.valuations(z2, [], tries=300, want=1)), None) or \
                    next(iter(evalt.valuations(z2, [], tries=200, want=1, big=True)), None)
                if wit is not None and got is not None and w is not None:
                    rep.violation(key, '%s: %s returns %s, for instance when %s' % (what, where, got, evalt.describe(wit, z2)))
                else:
                    rep.unknown(what, 'not decided')


# ---------------------------------------------------------------------------------------------- M02
def check_M02(prog, rep):
    rep.rule = ('Every conversion of every prime field is summarised for an arbitrary source value (all of i64 and u64, any '
                'natural number, any text the big-integer parser accepts); the result must be the reduced representative '
                'of the source, and no panic may be reachable.')
    for F in fields(prog, rep):
        I = F.I

        def big():
            r = find_from(I, prog, BIG, F.ty)
            if r is None:
                raise Unsupported('no conversion from BigUint')
            st = State()
            n = A(t.sym('n', 'nat'))
            what = F.name + ' from BigUint'
            for s, v in outcomes(rep, F, what, F.name + ':from', lambda: I.run(r[0], [n], st, r[1])):
                congruent(rep, F, s, F.name + ':from', what, F.number(s, v), n, r[0])
        guard(rep, F.name + ' from BigUint', big)

        def small():
            for m, ty in (('from_u64', 'u64'), ('from_i64', 'i64')):
                k, env = F.method('FromPrimitive', m)
                st = State()
                n = A(t.sym('n', ty))
                what = '%s %s' % (F.name, m)
                for s, v in outcomes(rep, F, what, '%s:%s' % (F.name, m), lambda: I.run(k, [n], st, env)):
                    v = I.open(s, v)
                    if v.a[1] != 1:
                        never(rep, s, '%s:%s' % (F.name, m), what + ' gives None', k)
                        continue
                    congruent(rep, F, s, '%s:%s' % (F.name, m), what, F.number(s, v.a[2][0]), n, k)
        guard(rep, F.name + ' from machine integers', small)

        def text():
            k, env = F.method('Num', 'from_str_radix')
            st = State()
            txt, radix = mk('opq', 'text', ('str',)), A(t.sym('radix', 'u32'))
            what = F.name + ' from_str_radix'
            from .models import parse_number
            ref = parse_number(I, st, txt, radix)
            for s, v in outcomes(rep, F, what, F.name + ':from_str_radix', lambda: I.run(k, [txt, radix], st, env)):
                v = I.open(s, v)
                want = I.open(s, ref)
                if v.a[1] != want.a[1]:
                    rep.violation(F.name + ':from_str_radix', '%s: %s where the number parser gives %s' % (
                        what, ('Ok', 'Err')[v.a[1]], ('Ok', 'Err')[want.a[1]]))
                elif v.a[1] == 0:
                    congruent(rep, F, s, F.name + ':from_str_radix', what, F.number(s, v.a[2][0]), want.a[2][0], k)
                else:
                    rep.ok(what + ': error passed on')
        guard(rep, F.name + ' from text', text)

        def back():
            st = State()
            a = F.member(st, 'a')
            k, env = F.method(PF, 'as_uint')
            for s, v in outcomes(rep, F, F.name + ' as_uint', F.name + ':as_uint', lambda: I.run(k, [F.wrap(a)], st.copy(), env)):
                compare(rep, I, s, F.name + ':as_uint', F.name + ' as_uint', v, a, k)
            r = find_from(I, prog, F.ty, BIG)
            if r:
                for s, v in outcomes(rep, F, F.name + ' into BigUint', F.name + ':into', lambda: I.run(r[0], [F.wrap(a)], st.copy(), r[1])):
                    compare(rep, I, s, F.name + ':into', F.name + ' into BigUint', v, a, r[0])
        guard(rep, F.name + ' to BigUint', back)


def never(rep, s, key, what, where):
    """a state that must be impossible"""
    v = next(iter(evalt.valuations(s, [], tries=300, want=1)), None) or \
        next(iter(evalt.valuations(s, [], tries=200, want=1, big=True)), None)
    if v is not None:
        rep.violation(key, '%s in %s, for instance when %s' % (what, where, evalt.describe(v, s) or 'called at all'))
    elif lin.infeasible(list(s.pc)):
        rep.ok(what + ': impossible')
    else:
        rep.unknown(what, 'not excluded')


def find_from(I, prog, src, dst):
    for im in prog.impls:
        tr = (im.get('trait') or '').split('::')[-1].split('<')[0]
        if tr != 'From' or im['crate'] is None:
            continue
        try:
            if I.rty(im['crate'], im['self'], {}) != dst:
                continue
            args = [I.rarg(im['crate'], x, {}) for x in im['trait_args']]
        except (Unsupported, KeyError):
            continue
        if args[-1] != src:
            continue
        for it in im['items']:
            if it[0] == 'from':
                return it[1], {}
    return None


# ---------------------------------------------------------------------------------------------- M03
def check_M03(prog, rep):
    rep.rule = ('inverse and extended_greatest_common_divisor are summarised once for an arbitrary prime field: under the '
                'hypothesis that the recursive result satisfies the Bezout identity for its arguments, the result must '
                'satisfy it for the arguments of the step, the recursion must be on (b, a mod b), and inverse must return the '
                'coefficient that belongs to its own argument.')
    for F in fields(prog, rep):
        try:
            own = F.method(PF, 'inverse')[0], F.method(PF, 'extended_greatest_common_divisor')[0]
        except Unsupported as e:
            rep.unknown(F.name + ' inverse', str(e))
            continue
        guard(rep, F.name + ' inverse', lambda: inverse(prog, rep, F, *own))


def fieldlevel(prog, F):
    """an interpreter in which the ring operations of F are exact and members are representatives; returns it"""
    J = interp.Interp(prog)
    G = Field(prog, F.im, J)
    G.prime = F.prime
    for tr, (m, f) in BINOPS.items():
        k, _ = G.method(tr, m)
        J.opaque_fns[k] = (lambda f: lambda I_, st, a, ci: G.wrap(f(G.number(st, a[0]), G.number(st, a[1]))))(f)
    for tr, m, i in (('Rem', 'rem', 1), ('Div', 'div', 0)):
        k, _ = G.method(tr, m)

        def h(I_, st, a, ci, i=i):
            x, y = G.number(st, a[0]), G.number(st, a[1])
            if st.need(t.eq0(y)):
                I_.panic('div', 'division by zero', ci.where, st)
                return []
            return G.wrap(t.divmod_(x, y)[i])
        J.opaque_fns[k] = h
    # results of the ring operations stand for their reduced values
    for tr, m, c in (('PartialEq', 'eq', None), ('Zero', 'is_zero', t.ZERO), ('One', 'is_one', t.ONE)):
        q = J.find_impl(tr, m, G.ty)

        def same(I_, st, a, ci, c=c):
            vs = [G.number(st, a[0]), G.number(st, a[1]) if c is None else c]
            for i, v in enumerate(vs):
                if not (st.decide(t.ge0(v)) is True and st.decide(t.ge0(t.sub(C(G.prime), v))) is True):
                    vs[i] = t.divmod_(v, C(G.prime))[1]
            return t.eq0(t.sub(vs[0], vs[1]))
        if q is not None:
            J.opaque_fns[q[0]] = same
    return J, G


def inverse(prog, rep, F, kinv, kgcd):
    p = F.prime
    J, G = fieldlevel(prog, F)
    calls = []
    RES = [A(t.sym(n, 'nat')) for n in ('d', 's', 't')]

    def rec(I_, st, a, ci):
        calls.append((st.copy(), G.number(st, a[0]), G.number(st, a[1])))
        return mk('E', '()', 0, tuple(G.wrap(x) for x in RES))
    # one step
    st = State()
    a, b = A(t.sym('a', 'nat')), A(t.sym('b', 'nat'))
    for x in (a, b):
        st.assume(t.ge0(t.sub(C(p), x)), True)
    # inverse
    st2 = State()
    x = G.member(st2, 'x')
    st2.assume(t.ge0(t.sub(x, t.ONE)), True)
    J.opaque_fns[kgcd] = rec
    env = {'Self': G.ty}
    J.panics, J.proved = [], []
    outs = J.run(kinv, [G.wrap(x)], st2, env)
    icalls, calls = list(calls), calls
    del calls[:]
    if not icalls:
        # no use of the recursion: a power with exponent p - 2 is the inverse by Fermat's theorem
        for s, v in outs:
            got = simple(s, G.number(s, v))
            m = t.as_atom(got)
            if m is not None and m.op == 'modpow' and const(m.a[2]) == p and m.a[0] is x and const(m.a[1]) == p - 2:
                rep.ok(F.name + ' inverse is x^(p-2)')
            else:
                direct(rep, F, s, x, got, kinv)
        panic_sites(rep, J, F.name + ':inverse', F.name + ' inverse')
        return
    panic_sites(rep, J, F.name + ':inverse', F.name + ' inverse')
    J.panics, J.proved = [], []
    del calls[:]
    # recursive call inside of the body
    steps = []
    body_env = {'Self': G.ty}
    J.opaque_fns.pop(kgcd)
    first = [True]

    def once(I_, st_, a_, ci):
        if first[0]:
            first[0] = False
            return NotImplemented
        return rec(I_, st_, a_, ci)
    J.opaque_fns[kgcd] = rec
    steps = run_body(J, kgcd, [G.wrap(a), G.wrap(b)], st, body_env)
    panic_sites(rep, J, F.name + ':gcd', F.name + ' extended gcd')
    scalls = list(calls)
    if not steps:
        rep.violation(F.name + ':gcd', 'extended_greatest_common_divisor never returns')
        return
    # the contract: some order of (divisor, coefficient of first, coefficient of second) that every step keeps
    best = None
    for perm in permutations(range(3)):
        errs, bad, form = [], None, None
        for s, v in steps:
            r = [G.number(s, y) for y in J.mget(s, v).a[2]]
            d, cs, ct = (r[perm[i]] for i in range(3))
            used = any(uses(y, RES) for y in r)
            hd, hs, ht = (RES[perm[i]] for i in range(3))
            want = t.add(t.mul(a, cs), t.mul(b, ct))
            if used:
                mine = [c for c in scalls if state_extends(s, c[0])]
                if len(mine) != 1:
                    errs.append('the recursion of a path is not found')
                    continue
                _, ra, rb = mine[0]
                hyp = t.add(t.mul(ra, hs), t.mul(rb, ht))
                # d = hd = hyp under the hypothesis
                dd = prove.subst_atoms(d, {t.as_atom(hd): hyp})
                diff = t.sub(want, dd)
                if uses(diff, [hd]):
                    bad = bad or 'the divisor takes part in the coefficients'
                q = t.poly({m: c % p for m, c in diff.a[0]})
                if q is not t.ZERO and not divisible(s, diff, p):
                    w, _ = evalt.differ(s, [(mk('mod', diff, C(p)), t.ZERO)], hook=modhook)
                    bad = bad or 'the Bezout identity is lost' + (' (for instance when %s)' % w[0] if w else '?')
                if d is not hd:
                    form = form or 'the divisor %s is not the one of the recursion' % brief(d)
                # either argument is replaced by its rest modulo the other one, which becomes the other argument
                ways = [(((ra, b, 'first'), (rb, t.divmod_(a, b)[1], 'second')), b),
                        (((rb, a, 'second'), (ra, t.divmod_(b, a)[1], 'first')), a)]
                for way, by in ways:
                    if s.decide(t.eq0(by)) is False and all(prove.equal(J, s, simple(s, got), ref) for got, ref, nm in way):
                        break
                else:
                    for got, ref, nm in ways[0][0]:
                        if not prove.equal(J, s, simple(s, got), ref):
                            w, _ = evalt.differ(s, [(got, ref)])
                            form = form or 'the %s argument of the recursion is %s, not %s' % (nm, brief(got), brief(ref)) + ('' if w else '?')
            else:
                if any(unknowns(y) for y in r):
                    errs.append('a result without recursion whose value is not found: ' + brief(d))
                    continue
                diff = t.sub(want, d)
                diff = prove.known_values(s, diff)
                q = t.poly({m: c % p for m, c in diff.a[0]})
                if q is not t.ZERO and not divisible(s, diff, p):
                    bad = bad or 'the end of the recursion does not satisfy the Bezout identity'
                if not common(J, s, a, b, d):
                    w = next(iter(evalt.valuations(s, [], tries=50, want=1)), None)
                    form = form or 'the recursion ends with %s' % brief(d) + ('' if w else '?')
        # inverse takes the right coefficient
        for s, v in outs:
            mine = [c for c in icalls if state_extends(s, c[0])]
            got = G.number(s, v)
            if not mine and not uses(got, RES):
                # decided without the recursion
                w, _ = evalt.differ(s, [(mk('mod', t.sub(t.mul(x, got), t.ONE), C(p)), t.ZERO)], hook=modhook)
                if w is not None and not unknowns(got):
                    bad = bad or 'inverse returns %s without recursion (for instance when %s)' % (brief(got), w[0])
                elif prove.equal(J, s, t.divmod_(t.mul(x, got), C(p))[1], t.ONE):
                    pass
                else:
                    errs.append('a value of inverse that does not come from the recursion')
                continue
            if len(mine) != 1:
                errs.append('the call of inverse is not found')
                continue
            _, ra, rb = mine[0]
            ok = False
            for me, other, coef in ((ra, rb, RES[perm[1]]), (rb, ra, RES[perm[2]])):
                if prove.equal(J, s, me, x) and const(other) == p:
                    e = t.sub(got, coef)
                    if t.poly({m: c % p for m, c in e.a[0]}) is t.ZERO or divisible(s, e, p) or reduced_of(s, got, coef, p):
                        ok = True
            if not ok:
                bad = bad or 'inverse returns %s after the recursion on (%s, %s)' % (brief(got), brief(ra), brief(rb))
        score = (bad is not None, form is not None, len(errs))
        if best is None or score < best[0]:
            best = (score, bad, form, errs)
            if score == (False, False, 0):
                break
    score, bad, form, errs = best
    if score == (False, False, 0):
        for s, v in steps:
            rep.ok('%s extended gcd keeps the Bezout identity' % F.name)
        rep.ok('%s inverse returns the coefficient of its argument' % F.name)
    elif bad and not bad.endswith('?'):
        rep.violation('%s:inverse' % F.name, '%s: %s (%s)' % (F.name, bad, kgcd))
    else:
        particular(rep, F, kinv, bad or form or errs[0], None if bad or not form or form.endswith('?') else form)


def common(J, s, a, b, d):
    """d divides both of them"""
    if s.decide(t.eq0(b)) is True and prove.equal(J, s, d, a) or s.decide(t.eq0(a)) is True and prove.equal(J, s, d, b):
        return True
    if s.decide(t.eq0(t.sub(d, t.ONE))) is True:
        return True
    for x, y in ((a, b), (b, a)):
        if prove.equal(J, s, d, x) and s.decide(t.eq0(x)) is False and s.decide(t.eq0(t.divmod_(y, x)[1])) is True:
            return True
    return False


def particular(rep, F, kinv, why, firm=None):
    """where the general argument does not apply: the values for particular members; all of them in small fields, so
    that there nothing is left open"""
    p, I = F.prime, F.I
    full = p <= 127
    xs = range(1, p) if full else sorted({1, 2, 3, 5, 255, 256, p // 2, p // 2 + 1, p // 3, p - 3, p - 2, p - 1} - {0})
    bad = []

    def one(x):
        I.panics, I.proved = [], []
        rs = I.run(kinv, [F.wrap(C(x))], State(), {'Self': F.ty})
        if not rs and I.panics:
            bad.append('inverse of %d panics' % x)
        for s, v in rs:
            got = const(F.number(s, v))
            if got is None:
                raise Unsupported('value of inverse')
            if got * x % p != 1 or not 0 <= got < p:
                bad.append('inverse of %d gives %d' % (x, got))
    sub = report.Report(rep.pid, rep.technique)
    for x in xs:
        guard(sub, 'inverse of %d' % x, lambda: one(x), 20)
        if bad:
            rep.violation('%s:inverse' % F.name, '%s: %s (%s)' % (F.name, bad[0], kinv))
            return
        if len(sub.undecided) > 2:
            break
    if firm and sub.undecided:
        rep.violation('%s:inverse' % F.name, '%s: %s (%s)' % (F.name, firm, kinv))
    elif full and not sub.undecided:
        rep.ok('%s inverse of all %d members' % (F.name, p - 1))
    else:
        rep.unknown('%s inverse' % F.name, why)


def reduced_of(s, got, coef, p):
    """got is coef reduced once more"""
    return got is t.divmod_(coef, C(p))[1]


def direct(rep, F, s, x, got, where):
    w, n = evalt.differ(s, [(mk('mod', t.sub(t.mul(x, got), t.ONE), C(F.prime)), t.ZERO)], hook=modhook)
    if w is not None and not unknowns(got):
        rep.violation(F.name + ':inverse', '%s inverse: %s gives %s (for instance when %s)' % (F.name, where, brief(got), w[0]))
    else:
        particular(rep, F, where, 'got ' + brief(got))


def uses(v, syms):
    fs = t.free_syms(v)
    return any(t.as_atom(y) in fs for y in syms)


def state_extends(s, c):
    """s continues c"""
    return set(c.pc) <= set(s.pc) and all(s.bf.get(k) == v for k, v in c.bf.items())


def run_body(J, key, args, st, env):
    """runs a body whose own key is opaque (recursion)"""
    h = J.opaque_fns.pop(key)
    calls = {}
    orig = J.run
    depth = [0]

    def run(k, a, s, e, *rest, **kw):
        if k == key and depth[0] > 0:
            r = h(J, s, a, None)
            return [(s, r)]
        if k == key:
            depth[0] += 1
            try:
                return orig(k, a, s, e, *rest, **kw)
            finally:
                depth[0] -= 1
        return orig(k, a, s, e, *rest, **kw)
    J.run = run
    try:
        return J.run(key, args, st, env)
    finally:
        J.run = orig
        J.opaque_fns[key] = h


# ---------------------------------------------------------------------------------------------- M04
def check_M04(prog, rep):
    rep.rule = ('from_bytes_* and as_bytes_* of every prime field are summarised for an arbitrary byte string and member: '
                'Some exactly when the encoded integer is below the prime and then that integer, the encoding is that of '
                'the representative, and decoding an encoding returns the member.')
    for F in fields(prog, rep):
        I = F.I
        for e in ('le', 'be'):
            def dec():
                k, env = F.method(PF, 'from_bytes_' + e)
                st = State()
                bs = t.whole(mk('base', 'bytes', U8))
                n = A(mk('app', 'int_' + e, bs, 'nat'))
                key, what = '%s:from_bytes_%s' % (F.name, e), '%s from_bytes_%s' % (F.name, e)
                below = t.ge0(t.sub(C(F.prime - 1), n))
                for s, v in outcomes(rep, F, what, key, lambda: I.run(k, [bs], st, env)):
                    v = I.open(s, v)
                    if v.a[1] == 1:
                        decide(rep, s, below, what + ' accepts only what is below the prime', key, k)
                        if s.assume(below, True):
                            compare(rep, I, s, key, what, simple(s, F.number(s, v.a[2][0])), n, k)
                    else:
                        decide(rep, s, t.bnot_(below), what + ' rejects only what is not below the prime', key, k)
            concretely(rep, F, e, '%s from_bytes_%s' % (F.name, e), dec, 'dec')

            def enc():
                k, env = F.method(PF, 'as_bytes_' + e)
                st = State()
                a = F.member(st, 'a')
                key, what = '%s:as_bytes_%s' % (F.name, e), '%s as_bytes_%s' % (F.name, e)
                want = t.whole(mk('base', mk('bytes_' + e, a), U8))
                k2, env2 = F.method(PF, 'from_bytes_' + e)
                for s, v in outcomes(rep, F, what, key, lambda: I.run(k, [F.wrap(a)], st, env)):
                    compare(rep, I, s, key, what, v, want, k)
                    for s2, v2 in I.run(k2, [v], s, env2):
                        v2 = I.open(s2, v2)
                        if v2.a[1] != 1:
                            never(rep, s2, key, what + ' is rejected when decoded', k2)
                        else:
                            compare(rep, I, s2, key, what + ' decoded', simple(s2, F.number(s2, v2.a[2][0])), a, k2)
            concretely(rep, F, e, '%s as_bytes_%s' % (F.name, e), enc, 'enc')


def concretely(rep, F, e, what, f, way):
    """the general obligation; when it cannot be settled, the summaries for particular constants: a contradiction there
    is one, agreement there settles nothing"""
    before, bad = len(rep.undecided), len(rep.violations)
    guard(rep, what, f)
    if len(rep.undecided) == before or len(rep.violations) > bad:
        return
    I, p, o = F.I, F.prime, 'little' if e == 'le' else 'big'
    some = [0, 1, 2, 127, 128, 255, 256, 257, 4096, 65535, 65536, 65537, 0x010000, 0x01000001, 0xff00ff00, 1 << 32, (1 << 64) - 1,
            1 << 64, p >> 8, p // 2, p - 256, p - 2, p - 1]
    if way == 'dec':
        some += [p, p + 1, p + 256, 2 * p, 2 * p - 1]
    key = '%s:%s' % (F.name, what.split(' ')[-1])

    def one(x, pad):
        n = max(1, (x.bit_length() + 7) // 8)
        st = State()
        byts = [C(y) for y in x.to_bytes(n + pad, o)]
        if way == 'dec':
            k, env = F.method(PF, 'from_bytes_' + e)
            I.panics, I.proved = [], []
            rs = I.run(k, [t.lit(byts)], st, env)
            if I.panics and not rs:
                rep.violation(key, '%s: panics on the encoding %s' % (what, bytes(const(y) for y in byts).hex()))
            for s, v in rs:
                v = I.open(s, v)
                got = None if v.a[1] != 1 else const(F.number(s, v.a[2][0]))
                if v.a[1] != 1 or got is not None:
                    if got != (x if x < p else None):
                        rep.violation(key, '%s: %s is decoded as %s' % (what, bytes(const(y) for y in byts).hex(), got))
                        return
        else:
            k, env = F.method(PF, 'as_bytes_' + e)
            I.panics, I.proved = [], []
            rs = I.run(k, [F.wrap(C(x))], st, env)
            if I.panics and not rs:
                rep.violation(key, '%s: panics on %d' % (what, x))
            for s, v in rs:
                v = I.open(s, v)
                ys = [const(I.get(s, v, C(i))) for i in range(const(t.slen(v)))]
                if None not in ys and ys != [const(y) for y in byts]:
                    rep.violation(key, '%s: %d is encoded as %s' % (what, x, bytes(ys).hex()))
                    return
    sub = report.Report(rep.pid, rep.technique)
    for x in some:
        for pad in ((0, 1, 7) if way == 'dec' else (0,)):
            if 0 <= x < (p if way == 'enc' else 2 * p + 1) and len(rep.violations) == bad:
                guard(sub, '%s of %d' % (what, x), lambda: one(x, pad), 20)


# ---------------------------------------------------------------------------------------------- M05
def rng(I, st, name='rng'):
    return I.alloc(st, mk('E', 'rng:' + name, 0, (t.ZERO,)), name)


def drawn(I, st, ref):
    return I.mget(st, ref).a[2][0]


def check_M05(prog, rep):
    rep.rule = ('generate_random_member of every prime field is summarised on a generator whose draws are recorded: the '
                'result must be one draw that is uniform over a range of exactly a multiple of the prime, reduced.')
    for F in fields(prog, rep):
        def one():
            I = F.I
            k, env = F.method(PF, 'generate_random_member')
            st = State()
            r = rng(I, st)
            env = dict(env)
            env['R'] = ('param', 'R')
            key, what = F.name + ':random', F.name + ' generate_random_member'
            outs = [(s, F.number(s, v)) for s, v in outcomes(rep, F, what, key, lambda: I.run(k, [r], st, env))]
            sub = report.Report(rep.pid, rep.technique)
            for s, v in outs:
                uniform(sub, F.prime, s, v, key, what, k)
            if sub.undecided and not sub.violations and tally(rep, F.prime, outs, key, what, k):
                return
            rep.obligations += sub.obligations
            rep.violations += sub.violations
            rep.undecided += sub.undecided
        guard(rep, F.name + ' generate_random_member', one)


def tally(rep, p, outs, key, what, where, limit=40000):
    """whether the outcomes, as terms over draws from known ranges, give every member of a small field equally often:
    every combination of drawn values is put into the terms.  False when that cannot be done"""
    draws = {}
    for s, v in outs:
        for x in inner((v, tuple(q for _, q in s.pc), tuple(s.bf)), 'rand'):
            b = {'below': lambda: (0, const(x.a[3])), 'range': lambda: (const(x.a[3]), const(x.a[4])),
                 'bits': lambda: (0, None if const(x.a[3]) is None else 1 << const(x.a[3]))}.get(x.a[2], lambda: (None, None))()
            if None in b or const(x.a[1]) is None:
                return False
            draws[x] = b
        if t.free_syms(v) or any(t.free_syms(q) for _, q in s.pc) or any(t.free_syms(c) for c in s.bf):
            return False
    ds = sorted(draws)
    n = 1
    for lo, hi in draws.values():
        n *= hi - lo
    if n > limit or n <= 0 or p > limit:
        return False
    count = [0] * p
    for vals in product(*(range(*draws[x]) for x in ds)):
        e = evalt.Val(0, fix=dict(zip(ds, vals)))
        hit = []
        for s, v in outs:
            if all({'ge': x >= 0, 'eq': x == 0, 'ne': x != 0}[kind] for kind, x in ((kind, e.ev(q)) for kind, q in s.pc)) and \
                    all(bool(e.ev(c)) == b for c, b in s.bf.items()):
                hit.append(e.ev(v))
        if len(hit) != 1:
            return False
        count[hit[0] % p] += 1
    if len(set(count)) == 1:
        rep.ok(what + ': uniform over the field (all %d combinations of draws)' % n)
    else:
        a, b = count.index(max(count)), count.index(min(count))
        rep.violation(key, '%s: of the %d combinations of drawn values in %s, %d give %d and %d give %d' % (
            what, n, where, count[a], a, count[b], b))
    return True


def uniform(rep, p, s, got, key, what, where):
    got = simple_draw(s, got, p)
    x = t.as_atom(got)
    if x is None:
        q = [y for y in t.atoms(got) if y.op == 'rand']
        if q and len(t.atoms(got)) <= 2:
            x, folded = q[0], True
        elif not q:
            rep.violation(key, '%s: the result %s is not drawn from the generator' % (what, brief(got)))
            return
        else:
            rep.unknown(what + ': uniform', 'result ' + brief(got))
            return
    else:
        folded = False
    if x.op != 'rand':
        rep.violation(key, '%s: the result %s is not a draw' % (what, brief(got)))
        return
    kind = x.a[2]
    if kind == 'below':
        lo, hi = 0, const(x.a[3])
    elif kind == 'range':
        lo, hi = const(x.a[3]), const(x.a[4])
    elif kind == 'bits':
        lo, hi = 0, (1 << const(x.a[3])) if const(x.a[3]) is not None else None
    else:
        rep.unknown(what + ': uniform', 'draw of kind ' + str(kind))
        return
    if lo is None or hi is None:
        rep.unknown(what + ': uniform', 'range of the draw not known')
        return
    # a draw that is repeated until it meets a condition is uniform over the values meeting it
    for i, (c, q) in enumerate(s.pc):
        if x not in t.atoms(q):
            continue
        m = dict(q.a[0])
        k, b = m.pop((x,), 0), m.pop((), 0)
        if m or k not in (1, -1) or c != 'ge':
            rep.unknown(what + ': uniform', 'condition on the draw: ' + brief(q))
            return
        lo, hi = (max(lo, -b), hi) if k == 1 else (lo, min(hi, b + 1))
    if folded:
        d = t.sub(got, A(x))
        fold = t.poly({m: c % p for m, c in d.a[0]}) is t.ZERO
        if not fold:
            rep.unknown(what + ': uniform', 'result ' + brief(got))
            return
    if (hi - lo) % p == 0 and (folded or (lo, hi) == (0, p)):
        rep.ok(what + ': uniform over the field')
    else:
        rep.violation(key, '%s: %s draws from %d values (%d..%d) for a field of %d members, so they are not equally likely' % (
            what, where, hi - lo, lo, hi, p))


def simple_draw(s, v, p):
    m = {}
    for x in t.atoms(v):
        if x.op == 'div' and const(x.a[1]) == p:
            y = t.as_atom(x.a[0])
            if y is not None and y.op == 'rand':
                hi = const(y.a[3]) if y.a[2] == 'below' else const(y.a[4]) if y.a[2] == 'range' else \
                    (1 << const(y.a[3])) if y.a[2] == 'bits' and const(y.a[3]) is not None else None
                if hi is not None and hi <= p:
                    m[x] = t.ZERO
    return prove.subst_atoms(v, m) if m else v


# ---------------------------------------------------------------------------------------------- M06
def is_prime(n):
    """Miller-Rabin with fixed bases (deterministic below 3.3e24), Lucas-Lehmer for Mersenne numbers"""
    if n < 2:
        return False
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
    for q in small:
        if n % q == 0:
            return n == q
    if n & (n + 1) == 0:
        k = n.bit_length()
        if k > 2:
            s = 4
            for _ in range(k - 2):
                s = (s * s - 2) % n
            return s == 0
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in small + tuple(range(43, 200, 2)):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def check_M06(prog, rep):
    from .rfc5114 import MODULI
    rep.rule = ('The modulus each predefined field parses its literal to is evaluated from the source and compared with '
                '2^K - 1 or RFC 5114, and tested for primality.')
    import re
    names = set()
    fs = fields(prog, rep)
    for F in fs:
        names.add(F.name)
        m = re.match(r'^Mersenne(\d+)$', F.name)
        if m:
            want = 2 ** int(m.group(1)) - 1
        else:
            want = MODULI.get(F.name)
        if want is not None:
            if F.prime == want:
                rep.ok(F.name + ' has the documented modulus')
            else:
                rep.violation(F.name, 'the modulus of %s is %d, not %d' % (F.name, F.prime, want))
        if is_prime(F.prime):
            rep.ok(F.name + ' is prime')
        else:
            rep.violation(F.name, 'the modulus of %s, %d, is not prime' % (F.name, F.prime))
    for n in ['Mersenne%d' % k for k in (2, 3, 5, 13, 17, 19, 31, 61, 89, 107, 127)] + sorted(MODULI):
        if n not in names and not any(n in str(u) for u in rep.undecided):
            rep.violation(n, 'the predefined field %s is missing' % n)
    rep.facts['moduli'] = {F.name: F.prime.bit_length() for F in fs}


# ---------------------------------------------------------------------------------------------- E01
def anchor(prog, rep, trait, names, crate, selfname=None):
    """the body of a trait method implemented by a crate"""
    out = {}
    for im in prog.impls:
        if im['crate'] != crate or (im.get('trait') or '').split('::')[-1].split('<')[0] != trait:
            continue
        if selfname and selfname not in str(prog_type(prog, im)):
            continue
        for it in im['items']:
            if it[0] in names:
                out.setdefault(it[0], it[1])
    for n in names:
        if n not in out:
            rep.violation('anchor:' + n, 'there is no %s::%s in %s any more' % (trait, n, crate))
    return out if len(out) == len(names) else None


def prog_type(prog, im):
    try:
        return interp.Interp(prog).rty(im['crate'], im['self'], {})
    except (Unsupported, KeyError):
        return ''


def check_E01(prog, rep):
    rep.rule = ('generate_asymmetrical_key_pair and generate_shared_secret are summarised for every predefined field, an '
                'arbitrary generator, partner key and random tape: one uniform draw a, returned with generator^a, and '
                'partner^private, both modulo the prime. Equality of the secrets is the commutation of exponents.')
    r = anchor(prog, rep, 'DiffieHellmanKeyExchangeScheme', ('generate_asymmetrical_key_pair', 'generate_shared_secret'),
               'jester_encryption')
    if r is None:
        return
    for F in fields(prog, rep):
        I = F.I
        p = C(F.prime)

        def env(k):
            e = {'Self': F.ty}
            for g in prog.bodies[k]['generics']:
                e[g] = ('param', 'R') if g == 'R' or g.startswith('impl') else F.ty
            return e

        def pair():
            k = r['generate_asymmetrical_key_pair']
            st = State()
            g = F.member(st, 'generator')
            tape = rng(I, st)
            key, what = F.name + ':pair', F.name + ' key pair'
            for s, v in outcomes(rep, F, what, key, lambda: I.run(k, [tape, F.wrap(g)], st, env(k))):
                v = I.mget(s, v)
                priv, pub = (F.number(s, x) for x in v.a[2])
                uniform(rep, F.prime, s, priv, key, what + ' private key', k)
                decide(rep, s, t.eq0(t.sub(drawn(I, s, tape), t.ONE)), what + ': one draw', key, k)
                congruent(rep, F, s, key, what + ' public key', pub, A(mk('modpow', g, priv, p)), k)
        guard(rep, F.name + ' key pair', pair)

        def secret():
            k = r['generate_shared_secret']
            st = State()
            a, b = F.member(st, 'private_key'), F.member(st, 'partner_key')
            key, what = F.name + ':secret', F.name + ' shared secret'
            for s, v in outcomes(rep, F, what, key, lambda: I.run(k, [F.wrap(a), F.wrap(b)], st, env(k))):
                congruent(rep, F, s, key, what, F.number(s, v), A(mk('modpow', b, a, p)), k)
        guard(rep, F.name + ' shared secret', secret)


# ---------------------------------------------------------------------------------------------- E02
def check_E02(prog, rep):
    rep.rule = ('encrypt_message and decrypt_message are summarised for every predefined field, an arbitrary key and an '
                'arbitrary byte string m: whenever they return, int_le(m) < n and the result is the little-endian encoding '
                'of int_le(m)^key mod n; whenever they refuse (panic), int_le(m) >= n.')
    r = anchor(prog, rep, 'AsymmetricalEncryptionScheme', ('encrypt_message', 'decrypt_message'), 'jester_encryption', 'RSA')
    if r is None:
        return
    for F in fields(prog, rep):
        I = F.I
        for m, kn, fld in (('encrypt_message', 'RSAPublicKey', 'e'), ('decrypt_message', 'RSAPrivateKey', 'd')):
            def one():
                k = r[m]
                adts = [a for a in prog.adts if a.split('::')[-1] == kn]
                if not adts:
                    rep.violation('anchor:' + kn, 'the key type %s is missing' % kn)
                    return
                st = State()
                val = {fld: F.member(st, fld), 'n': F.member(st, 'n')}
                fs = prog.adts[adts[0]]['variants'][0]['fields']
                names = [f['name'] for f in fs]
                if sorted(names) != sorted(val):
                    raise Unsupported('fields of %s: %s' % (kn, names))
                kv = mk('E', adts[0], 0, tuple(F.wrap(val[x]) for x in names))
                bs = t.whole(mk('base', 'message', U8))
                n = A(mk('app', 'int_le', bs, 'nat'))
                key, what = '%s:%s' % (F.name, m), '%s %s' % (F.name, m)
                below = t.ge0(t.sub(t.sub(val['n'], n), t.ONE))
                env = {'Self': ('adt', 'RSA', (F.ty,))}
                for g in prog.bodies[k]['generics']:
                    env[g] = F.ty
                I.panics, I.proved = [], []
                rs = I.run(k, [kv, bs], st, env)
                want = t.whole(mk('base', mk('bytes_le', A(mk('modpow', n, val[fld], val['n']))), U8))
                if not rs:
                    rep.violation(key, what + ' never returns')
                for s, v in rs:
                    decide(rep, s, below, what + ' accepts only what is below the modulus', key, k)
                    if s.assume(below, True):
                        compare(rep, I, s, key, what, simple(s, v), want, k)
                for p in I.panics:
                    z = p.st.copy()
                    if z.assume(below, True):
                        never(rep, z, key, '%s refuses a message below the modulus (%s)' % (what, p.msg), k)
                    else:
                        rep.ok(what + ' refuses only what is not below the modulus')
            guard(rep, '%s %s' % (F.name, m), one)
