"""Secret sharing: S01-S12.

Shares are summarised by the value they share: a share type S of the interactive protocols is an arbitrary type whose
values are opened to the field polynomial they stand for; the linear scheme acts on these polynomials (that it does is
S03 for the scheme of this crate).  What a party sends is recorded in the protocol object.
"""
import re
from itertools import permutations
from . import terms as t, interp, prove, evalt
from .terms import mk, A, C, isp, const, T
from .interp import State, Unsupported, Split, Panic, NONE, UNIT
from .rules_h import guard, compare, decide, panic_sites, panic_where, brief, unknowns, U8, Fail
from .models import val, seqv, each, finish, push_to, mkiter, BIGUINT, some, strip

TT, SS, PP, RR = ('param', 'T'), ('param', 'S'), ('param', 'P'), ('param', 'R')
BIG = ('adt', BIGUINT, ())
PRIME = t.sym('p', 'nat')

# what a party does, in the transcript
REVEAL, DISTRIBUTE, TRIPLES, RANDOM, MULTIPLY, UMULTIPLY, INVERT, UINVERT = range(1, 9)


class Sharing:
    def __init__(self, prog):
        self.p = prog
        self.I = I = interp.Interp(prog)
        m = I.models
        m['is_field'] = lambda I_, ty: strip(ty) in (TT, SS)
        m['elem'] = self.elem
        old = I.symbolic
        I.symbolic = lambda ty, name: A(t.sym(name, 'any')) if ty in (TT, SS) else old(ty, name)
        I.field_from = self.field_from
        I.field_uint = self.field_uint
        for n, f in (('add_shares', lambda x, y: t.add(x, y)), ('sub_shares', lambda x, y: t.sub(x, y)),
                     ('add_scalar', lambda x, y: t.add(x, y)), ('sub_scalar', lambda x, y: t.sub(x, y)),
                     ('multiply_scalar', lambda x, y: t.mul(x, y))):
            m['LinearSharingScheme::' + n] = self.binary(f)
        m['LinearSharingScheme::sum_shares'] = self.sum_shares
        m['CliqueCommunicationScheme::reveal_shares'] = self.reveal
        m['CliqueCommunicationScheme::distribute_secret'] = self.distribute
        m['BeaverCommunicationScheme::obtain_beaver_triples'] = self.triples
        m['RandomNumberGenerationScheme::generate_random_number_sharing'] = self.random
        m['MultiplicationScheme::multiply'] = self.multiply
        m['UnboundedMultiplicationScheme::unbounded_multiply'] = self.umultiply
        m['InversionScheme::inverse'] = self.inverse
        m['UnboundedInversionScheme::unbounded_inverse'] = self.uinverse
        m['PrimeField::generate_random_member'] = self.member
        m['PrimeField::field_prime'] = lambda I_, st, a, ci: A(PRIME) if ci.targs[0] == TT else NotImplemented
        m['PrimeField::inverse'] = self.finverse
        m['PrimeField::pow'] = self.fpower
        self.caching = None         # what is read from and written to a process-wide cache; None: caches are transparent
        m['static'] = lambda I_, st, key, *a: mk('cache', key)
        m['Mutex::lock'] = self.lock
        m['TypeMap::get'] = m['TypeMap::get_mut'] = lambda I_, st, a, ci: self.opened(I_, st, a, ci, some)
        m['TypeMap::entry'] = lambda I_, st, a, ci: self.opened(I_, st, a, ci, lambda v: mk('E', 'tmentry', 0, (v,)))
        for n in ('or_insert_with', 'or_insert', 'or_default'):
            m['Entry::' + n] = self.or_insert
        m['mapbase'] = self.cached
        for n in ('insert', 'get', 'entry', 'contains_key'):
            m['HashMap::' + n] = getattr(self, 'hm_' + n)
        m['PrimeField::as_uint'] = lambda I_, st, a, ci: self.field_uint(st, val(I_, st, a[0]), TT) \
            if ci.targs[0] == TT else NotImplemented

    # ---- values
    def elem(self, I, base, idx, ety):
        return A(mk('at', base, idx, 'any')) if ety in (TT, SS) else None

    def field_uint(self, st, v, ty):
        if v is A(PRIME) or const(v) in (0, 1):
            return v
        return A(mk('repr', v, 'nat'))

    def field_from(self, st, v, src, dst):
        if not isp(v):
            raise Unsupported('conversion into a field')
        m = {x: x.a[0] for x in t.atoms(v) if x.op == 'repr'}
        return prove.subst_atoms(v, m) if m else v

    def finverse(self, I, st, a, ci):
        if ci.targs[0] != TT:
            return NotImplemented
        return t.finv(I.fe(st, a[0]))

    def fpower(self, I, st, a, ci):
        if ci.targs[0] != TT:
            return NotImplemented
        e = val(I, st, a[1])
        return t.fpow(I.fe(st, a[0]), self.field_uint(st, e, TT))

    # ---- the protocol object
    def protocol(self, st):
        return self.I.alloc(st, mk('E', 'PROTO', 0, (t.EMPTY, t.EMPTY, t.EMPTY, t.ZERO, t.ZERO, t.ZERO)), 'protocol')

    def log(self, I, st, ref, ops, revealed=None, distributed=None, triples=None, randoms=None, received=None):
        v = I.mget(st, ref)
        if not (isinstance(v, T) and v.op == 'E' and v.a[0] == 'PROTO'):
            raise Unsupported('protocol object expected, got %s' % t.show(v, 2))
        f = list(v.a[2])
        if revealed is not None:
            f[0] = t.cat(f[0], t.lit((revealed,)))
        if distributed is not None:
            f[1] = t.cat(f[1], t.lit((distributed,)))
        f[2] = t.cat(f[2], t.lit(tuple(C(x) if isinstance(x, int) else x for x in ops)))
        out = None
        for i, n in ((3, triples), (4, randoms), (5, received)):
            if n is not None:
                out = f[i]
                f[i] = t.add(f[i], n)
        I.mset(st, ref, mk('E', 'PROTO', 0, tuple(f)))
        return out

    def binary(self, f):
        def g(I, st, a, ci):
            if ci.targs[0] != PP:
                return NotImplemented
            return f(I.fe(st, a[0]), I.fe(st, a[1]))
        return g

    def sum_shares(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        x = seqv(I, st, a[0])
        if st.need(t.eq0(t.slen(x))):
            return NONE
        return I.models_some(self.total(I, st, x)) if hasattr(I, 'models_some') else [(s, some(v)) for s, v in self.total(I, st, x)]

    def total(self, I, st, x):
        acc = I.alloc(st, t.ZERO, 'acc')

        def body(S, e):
            I.mset(S, acc, t.add(I.mget(S, acc), I.fe(S, e)))
            return [S]
        return finish(I, each(I, st, mkiter(mk('sview', x), t.slen(x)), body), acc)

    def mapped(self, I, st, x, f):
        """[(state, sequence of f(element))]"""
        acc = I.alloc(st, t.EMPTY, 'acc')
        return finish(I, each(I, st, mkiter(mk('sview', x), t.slen(x)), lambda S, e: [push_to(I, S, acc, f(S, e))]), acc)

    def ready(self, rs):
        return [(s, mk('E', 'ready', 0, (v,))) for s, v in rs]

    def reveal(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        v = I.fe(st, a[1])
        self.log(I, st, a[0], [REVEAL], revealed=v)
        return self.ready([(st, v)])

    def distribute(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        v = I.fe(st, a[1])
        n = self.log(I, st, a[0], [DISTRIBUTE], distributed=v, received=t.ONE)
        return self.ready([(st, t.whole(mk('row', mk('base', 'received', ('slice', SS)), SS, n)))])

    def triples(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        n = val(I, st, a[1])
        c = self.log(I, st, a[0], [TRIPLES, n], triples=n)
        k = t.fresh('k', 'nat')
        x, y = [A(mk('at', mk('base', b, TT), t.add(c, A(k)), 'any')) for b in ('triple_a', 'triple_b')]
        return self.ready([(st, t.comp(k, n, mk('E', '()', 0, (x, y, t.mul(x, y)))))])

    def random(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        c = self.log(I, st, a[1], [RANDOM], randoms=t.ONE)
        return self.ready([(st, A(mk('at', mk('base', 'random', TT), c, 'any')))])

    def multiply(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        self.log(I, st, a[0], [MULTIPLY])
        return self.ready([(st, t.mul(I.fe(st, a[1]), I.fe(st, a[2])))])

    def umultiply(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        x = seqv(I, st, a[1])
        self.log(I, st, a[0], [UMULTIPLY, t.slen(x)])

        def f(S, e):
            e = I.open(S, val(I, S, e))
            return t.mul(I.fe(S, e.a[2][0]), I.fe(S, e.a[2][1]))
        return self.ready(self.mapped(I, st, x, f))

    def inverse(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        self.log(I, st, a[1], [INVERT])
        return self.ready([(st, t.finv(I.fe(st, a[2])))])

    def uinverse(self, I, st, a, ci):
        if ci.targs[0] != PP:
            return NotImplemented
        x = seqv(I, st, a[2])
        self.log(I, st, a[1], [UINVERT, t.slen(x)])
        return self.ready(self.mapped(I, st, x, lambda S, e: t.finv(I.fe(S, e))))

    def member(self, I, st, a, ci):
        if ci.targs[0] != TT:
            return NotImplemented
        return I.draw(st, a[0], 'member')

    # ---- process-wide caches behind a lock: maps of computed values, one per static and key type
    def lock(self, I, st, a, ci):
        v = val(I, st, a[0])
        if not (isinstance(v, T) and v.op == 'cache'):
            return NotImplemented
        g = mk('E', 'MutexGuard', 0, (I.alloc(st, v, 'guarded'),))
        if 'std::sync' in ci.path:
            return mk('E', 'core::result::Result', 0, (g,))
        return mk('E', 'ready', 0, (g,))

    def opened(self, I, st, a, ci, f):
        v = val(I, st, a[0])
        if not (isinstance(v, T) and v.op == 'cache'):
            return NotImplemented
        return f(mk('map', mk('cachemap', v.a[0], ci.targs[-1]), t.EMPTY))

    def or_insert(self, I, st, a, ci):
        e = val(I, st, a[0])
        if e.op != 'E' or e.a[0] not in ('tmentry', 'hmentry'):
            return NotImplemented
        if e.a[0] == 'tmentry':
            return I.alloc(st, e.a[2][0], 'cachemap')
        m, key = e.a[2]
        old = self.cached(I, st, m.a[0], key)
        if old.a[1] == 1:
            return I.alloc(st, old.a[2][0], 'entry')
        if ci.name == 'or_insert':
            rs = [(st, a[1])]
        elif ci.name == 'or_insert_with':
            rs = I.apply(st, a[1], [])
        else:
            raise Unsupported('default cache entry')
        out = []
        for s, v in rs:
            self.store(s, m.a[0], key, v)
            out.append((s, I.alloc(s, v, 'entry')))
        return out

    def store(self, st, base, key, v):
        if self.caching is not None:
            self.caching['puts'].append((base, key, v, st))

    def cachemap(self, I, st, a):
        m = val(I, st, a[0])
        return m if isinstance(m, T) and m.op == 'map' and m.a[0].op == 'cachemap' else None

    def cached(self, I, st, base, key):
        if base.op != 'cachemap':
            raise Unsupported('lookup in a symbolic map')
        if self.caching is None:
            return NONE
        hit = mk('bsym', 'hit', base, key)
        self.caching['gets'].append((base, key))
        return some(A(mk('cached', base, key, 'any'))) if st.need(hit) else NONE

    def hm_get(self, I, st, a, ci):
        m = self.cachemap(I, st, a)
        return NotImplemented if m is None else self.cached(I, st, m.a[0], val(I, st, a[1]))

    def hm_contains_key(self, I, st, a, ci):
        m = self.cachemap(I, st, a)
        return NotImplemented if m is None else self.cached(I, st, m.a[0], val(I, st, a[1])) is not NONE

    def hm_entry(self, I, st, a, ci):
        m = self.cachemap(I, st, a)
        return NotImplemented if m is None else mk('E', 'hmentry', 0, (m, val(I, st, a[1])))

    def hm_insert(self, I, st, a, ci):
        m = self.cachemap(I, st, a)
        if m is None:
            return NotImplemented
        self.store(st, m.a[0], val(I, st, a[1]), a[2])
        return mk('opq', 'old', ('adt', 'core::option::Option', (TT,)))

    # ---- running
    def rng(self, st):
        return self.I.alloc(st, mk('E', 'rng:r', 0, (t.ZERO,)), 'rng')

    def env(self, k):
        return {g: ('param', g) for g in self.p.bodies[k]['generics']}

    def call(self, k, args, st):
        """a plain function"""
        self.I.panics, self.I.proved = [], []
        return self.I.run(k, args, st, self.env(k))

    def drive(self, k, args, st):
        """a function returning a future: what the future evaluates to"""
        out = []
        for s, f in self.call(k, args, st):
            out += self.I.poll(s, f)
        return out


def small(st, *ns):
    """lengths and counts of things that exist in memory"""
    for n in ns:
        st.assume(t.ge0(t.sub(C(2 ** 40), n)), True)


def anchors(prog, trait, method, crate='jester_sharing'):
    """hand-written (not generated by the delegation macro) implementations of a protocol trait"""
    out = []
    for im in prog.impls:
        if im['crate'] != crate or (im.get('trait') or '').split('<')[0].split('::')[-1] != trait:
            continue
        if im['generics'] and 'Marker' in im['generics']:
            continue
        for name, key, kind, _ in im['items']:
            if name == method and key in prog.bodies:
                out.append(key)
    return out


def need_anchor(prog, rep, trait, method):
    r = anchors(prog, trait, method)
    if not r:
        rep.violation('anchor', 'no implementation of %s::%s is left' % (trait, method))
    return r


def seq_param(name, ety=SS):
    return t.whole(mk('base', name, ety))


def at(name, i):
    return A(mk('at', mk('base', name, TT), i, 'any'))


# ---------------------------------------------------------------------------------------------- S03
def check_S03(prog, rep):
    rep.rule = ('Every operation of the linear scheme is summarised for two arbitrary Shamir shares (or a slice of them) and '
                'an arbitrary scalar: same point, field operation on the values, refusal of different points.')
    for name, op in (('add_shares', t.add), ('sub_shares', t.sub), ('add_scalar', t.add), ('sub_scalar', t.sub),
                     ('multiply_scalar', t.mul)):
        for k in need_anchor(prog, rep, 'LinearSharingScheme', name):
            def one():
                g = Sharing(prog)
                I, st = g.I, State()
                x1, x2 = A(t.sym('x1', 'usize')), A(t.sym('x2', 'usize'))
                y1, y2 = A(t.sym('y1', 'any')), A(t.sym('y2', 'any'))
                two = name.endswith('shares')
                a = mk('E', '()', 0, (x1, y1))
                b = mk('E', '()', 0, (x2, y2)) if two else y2
                n = 0
                for s, v in g.call(k, [a, b], st):
                    n += 1
                    v = I.mget(s, v)
                    if two:
                        decide(rep, s, t.eq0(t.sub(x1, x2)), '%s returns for equal points only' % name, k, k)
                    compare(rep, I, s, k, name + ': point', v.a[2][0], x1, k)
                    compare(rep, I, s, k, name + ': value', v.a[2][1], op(y1, y2), k, field=True)
                if not n:
                    rep.violation(k, '%s never returns' % name)
                for o in list(I.panics):
                    if two and o.st is not None:
                        s = o.st.copy()
                        if not s.assume(t.eq0(t.sub(x1, x2)), True):
                            I.panics.remove(o)
                            rep.ok(name + ' refuses shares of different points only')
                panic_sites(rep, I, k, name)
            guard(rep, name, one)
    for k in need_anchor(prog, rep, 'LinearSharingScheme', 'sum_shares'):
        guard(rep, 'sum_shares', lambda: sum_rule(prog, rep, k))


def sum_rule(prog, rep, k):
    PAIR = ('tuple', (('uint', 'usize'), TT))
    # slices of up to four shares of arbitrary points and values
    for n in range(5):
        g = Sharing(prog)
        I, st = g.I, State()
        xs = [A(t.sym('x%d' % i, 'usize')) for i in range(n)]
        ys = [A(t.sym('y%d' % i, 'any')) for i in range(n)]
        seq = t.lit(tuple(mk('E', '()', 0, (x, y)) for x, y in zip(xs, ys)))
        what = 'sum_shares of %d shares' % n
        same = True
        for x in xs[1:]:
            same = t.band_(same, t.eq0(t.sub(x, xs[0])))
        got = 0
        for s, v in g.call(k, [seq], st):
            got += 1
            v = I.open(s, I.mget(s, v))
            if n == 0:
                decide_bool(rep, v.a[1] == 0, what + ' is None', k, k)
                continue
            decide(rep, s, same, what + ' returns for equal points only', k, k)
            if v.a[1] == 0:
                rep.violation(k, what + ' gives None')
                continue
            p = I.mget(s, v.a[2][0])
            compare(rep, I, s, k, what + ': point', p.a[2][0], xs[0], k)
            compare(rep, I, s, k, what + ': value', p.a[2][1], t.psum(ys), k, field=True)
        if not got:
            rep.violation(k, what + ': never returns')
        allowed(rep, I, same, k, what)
    # a slice of any length
    g = Sharing(prog)
    I, st = g.I, State()
    seq = seq_param('shares', PAIR)
    n = t.slen(seq)
    x = A(t.sym('x', 'usize'))
    b = mk('base', 'shares', PAIR)
    fx, fy = mk('fld', b, ('uint', 'usize'), 0), mk('fld', b, TT, 1)
    old = I.models['elem']

    def elem(I_, base, idx, ety):
        if base is fx:
            return x         # all of one point
        return old(I_, base, idx, ety)
    I.models['elem'] = elem
    st.assume(t.ge0(t.sub(n, t.ONE)), True)
    small(st, n)
    j = t.fresh('k', 'nat')
    want = t.Sum(j, n, A(mk('at', fy, A(j), 'any')))
    what = 'sum_shares of any number of shares of one point'
    got = 0
    for s, v in g.call(k, [seq], st):
        got += 1
        v = I.open(s, I.mget(s, v))
        if v.a[1] == 0:
            rep.violation(k, what + ' gives None')
            continue
        p = I.mget(s, v.a[2][0])
        compare(rep, I, s, k, what + ': point', p.a[2][0], x, k)
        compare(rep, I, s, k, what + ': value', p.a[2][1], want, k, field=True)
    if not got:
        rep.violation(k, what + ': never returns')
    panic_sites(rep, I, k, what)


def decide_bool(rep, b, what, key, where):
    if b:
        rep.ok(what)
    else:
        rep.violation(key, '%s: not so in %s' % (what, where))


def allowed(rep, I, ok, key, what):
    """panics are refusals of inputs that do not meet the condition"""
    for o in list(I.panics):
        if o.st is None:
            continue
        s = o.st.copy()
        if ok is False or not s.assume(ok, True):
            I.panics.remove(o)
            rep.ok(what + ': refusal at %s' % o.where)
    panic_sites(rep, I, key, what)


# ---------------------------------------------------------------------------------------------- S01
def check_S01(prog, rep):
    rep.rule = ('generate_shares is summarised for an arbitrary secret, count, threshold and random tape: share number k '
                'must be (k + 1, secret + sum of draw_i * (k + 1)^i for 0 < i < threshold), every draw uniform and used for '
                'one coefficient; returning paths must imply threshold > 1 and count < p, refusals must not be within.')
    for k in need_anchor(prog, rep, 'ThresholdSecretSharingScheme', 'generate_shares'):
        guard(rep, 'generate_shares', lambda: gen_rule(prog, rep, k))


def gen_rule(prog, rep, k):
    order = [None]
    before = len(rep.undecided)
    for m in (2, 3, 4, 5, None):
        what = 'generate_shares' + ('' if m is None else ' with threshold %d' % m)
        guard(rep, what, lambda: gen_case(prog, rep, k, m, None, order, what))
    if len(rep.undecided) > before:
        # not summarised for every count: small counts one by one
        for m, n in ((2, 1), (2, 2), (3, 1), (3, 2)):
            what = 'generate_shares of %d with threshold %d' % (n, m)
            guard(rep, what, lambda: gen_case(prog, rep, k, m, n, order, what))


def gen_case(prog, rep, k, m, cnt, order, what):
    secret = A(t.sym('secret', 'any'))
    thr = A(t.sym('threshold', 'usize'))
    count = A(t.sym('count', 'usize')) if cnt is None else C(cnt)
    g = Sharing(prog)
    I, st = g.I, State()
    small(st, count)
    th = thr if m is None else C(m)
    if m is None:
        small(st, thr)
    st.assume(t.ge0(t.sub(A(PRIME), C(2))), True)
    r = g.rng(st)
    legal = t.band_(t.ge0(t.sub(th, C(2))), t.ge0(t.sub(t.sub(A(PRIME), count), t.ONE)))
    got = 0
    for s, v in g.call(k, [r, secret, count, th], st):
        got += 1
        v = I.expand(s, I.mget(s, v))
        decide(rep, s, legal, what + ': returns for legal parameters only', k, k)
        compare(rep, I, s, k, what + ': number of shares', t.slen(v), count, k)
        drawn = I.mget(s, r).a[2][0]
        compare(rep, I, s, k, what + ': number of draws', drawn, t.sub(th, t.ONE), k)
        for j in ([None] if cnt is None else range(cnt)):
            z = s.copy()
            if j is None:
                sh = t.fresh('share', 'nat')
                if not z.assume(t.ge0(t.sub(t.sub(count, t.ONE), A(sh))), True):
                    continue
                j = A(sh)
            else:
                j = C(j)
            e = I.get(z, v, j)
            e = I.open(z, I.mget(z, e))
            x, y = e.a[2]
            compare(rep, I, z, k, what + ': evaluation point', x, t.add(j, t.ONE), k)
            if m is not None:
                o = coefficients(rep, z, k, what, y, secret, x, m)
                if cnt is None:
                    if order[0] is None or o is None or order[0] == 'any':
                        order[0] = o
                    elif o != order[0]:
                        order[0] = None
            elif order[0] in ('up', 'down'):
                i = t.fresh('i', 'nat')
                n = t.sub(thr, t.ONE)
                c = A(i) if order[0] == 'up' else t.sub(t.sub(n, t.ONE), A(i))
                term = t.mul(A(mk('rand', 'rng:r', c, 'member')), t.fpow(x, t.add(A(i), t.ONE)))
                compare(rep, I, z, k, what + ': value', y, t.add(secret, t.Sum(i, n, term)), k, field=True)
            else:
                rep.unknown(what + ': value', 'order of the draws not recognised: ' + brief(y))
    if not got:
        rep.violation(k, what + ': never returns')
    allowed(rep, I, legal, k, what)


def refuted(st, y, secret, x, draws):
    """for every order of the draws, a valuation at which y is not the polynomial with these coefficients"""

    w = None
    for p in permutations(draws):
        want = secret
        for i, d in enumerate(p):
            want = t.add(want, t.mul(d, t.power(x, i + 1)))
        for big in (False, True):
            w, n = evalt.differ(st, [(y, want)], field=True, big=big)
            if w is not None:
                break
        if w is None:
            return None
    return w


def coefficients(rep, st, key, what, y, secret, x, m):
    """y = secret + sum of distinct draws times x^1 .. x^(m-1); which order"""
    d = t.sub(y, secret)
    rands = sorted({a for q, _ in d.a[0] for a in q if a.op == 'rand'}, key=lambda a: const(a.a[1]) if const(a.a[1]) is not None else -1)
    rest = {}
    by = {a: {} for a in rands}
    for q, c in d.a[0]:
        rs = [a for a in q if a.op == 'rand']
        if len(rs) != 1:
            rest[q] = c
            continue
        w = list(q)
        w.remove(rs[0])
        by[rs[0]][tuple(w)] = c
    exps = []
    if const(x) is None:
        for a in rands:
            f = t.poly(by[a])
            i = [i for i in range(0, m + 3) if t.sub(f, t.power(x, i)) is t.ZERO]
            exps.append(i[0] if i else None)
    if not rest and sorted(e if e is not None else -1 for e in exps) == list(range(1, m)):
        if len({a.a[1] for a in rands}) != len(rands) or any(a.a[2] != 'member' for a in rands):
            rep.unknown(what + ': coefficients', 'draws ' + brief(y))
            return None
        rep.ok(what + ': every coefficient is a draw of its own')
        if exps == list(range(1, m)):
            return 'any' if m == 2 else 'up'
        if exps == list(range(m - 1, 0, -1)):
            return 'down'
        return None
    draws = [A(mk('rand', 'rng:r', C(i), 'member')) for i in range(m - 1)]
    for p in permutations(draws):
        want = secret
        for i, dr in enumerate(p):
            want = t.add(want, t.mul(dr, t.power(x, i + 1)))
        if t.sub(y, want) is t.ZERO:
            rep.ok(what + ': every coefficient is a draw of its own')
            return None
    w = refuted(st, y, secret, x, draws) if not unknowns(y) else None
    if w is not None:
        rep.violation(key, '%s: %s gives shares %s, which are not the values of the secret plus draws times powers of the '
                      'point, one draw each (for instance when %s)' % (what, key, brief(y), w[0] or 'any input'))
    else:
        rep.unknown(what + ': coefficients', 'value ' + brief(y))
    return None


# ---------------------------------------------------------------------------------------------- S02
PAIR = ('tuple', (('uint', 'usize'), TT))


def rational_zero(d, limit=4000):
    """d = 0 wherever the arguments of its inverses are not zero"""
    for _ in range(200):
        inv = None
        for q, _ in d.a[0]:
            for a in q:
                if a.op == 'inv':
                    inv = a
                    break
            if inv is not None:
                break
        if inv is None:
            return d is t.ZERO
        e = max(sum(1 for a in q if a is inv) for q, _ in d.a[0])
        out = t.ZERO
        for q, c in d.a[0]:
            r = [a for a in q if a is not inv]
            k = len(q) - len(r)
            m = t.poly({tuple(r): c})
            for _ in range(e - k):
                m = t.mul(m, inv.a[0])
            out = t.add(out, m)
            if len(out.a[0]) > limit:
                raise Unsupported('rational expression too large')
        d = out
    return False


def lagrange0(xs, ys):
    r = t.ZERO
    for i, x in enumerate(xs):
        p = ys[i]
        for j, z in enumerate(xs):
            if j != i:
                p = t.mul(p, t.mul(t.neg(z), t.finv(t.sub(x, z))))
        r = t.add(r, p)
    return r


def check_S02(prog, rep):
    rep.rule = ('reconstruct_secret is summarised for an arbitrary slice of shares with distinct points and any threshold: '
                'the result must be the Lagrange interpolation at zero through exactly threshold of the shares, and returning '
                'paths must imply at least threshold shares.')
    for k in need_anchor(prog, rep, 'ThresholdSecretSharingScheme', 'reconstruct_secret'):
        guard(rep, 'reconstruct_secret', lambda: rec_rule(prog, rep, k))


def proves(I, s, x, y):
    try:
        return prove.equal(I, s, x, y)
    except (Unsupported, Split, Panic):
        return False


def on_polynomial(fx, fy, thr):
    """valuations under which the shares lie on one polynomial of degree below the threshold, at distinct points"""
    secret = t.sym('shared secret', 'any')

    def coef(v, i):
        return evalt.h64('coefficient', v.seed, i) % v.prime

    def hook(v, x):
        if x is secret:
            return coef(v, 0) if v.evi(thr) > 0 else 0
        if x.op == 'at' and x.a[0] is fx:
            return 1 + (v.evi(x.a[1]) ^ v.seed % 64)
        if x.op == 'at' and x.a[0] is fy:
            p = 1 + (v.evi(x.a[1]) ^ v.seed % 64)
            r = 0
            for i in reversed(range(v.evi(thr))):
                r = (r * p + coef(v, i)) % v.prime
            return r
        return None
    return hook


def rec_rule(prog, rep, k):
    from itertools import combinations
    rev = None
    for m in range(1, 5):
        for n in range(0, m + 3):
            if n < m - 1:
                continue
            g = Sharing(prog)
            I, st = g.I, State()
            xs = [A(t.sym('x%d' % i, 'usize')) for i in range(n)]
            ys = [A(t.sym('y%d' % i, 'any')) for i in range(n)]
            for i, x in enumerate(xs):
                small(st, x)
                st.assume(t.ge0(t.sub(x, t.ONE)), True)
                for z in xs[:i]:
                    st.assume(t.eq0(t.sub(x, z)), False)
            seq = t.lit(tuple(mk('E', '()', 0, p) for p in zip(xs, ys)))
            what = 'reconstruct_secret, %d shares, threshold %d' % (n, m)
            got = 0
            for s, v in g.call(k, [seq, C(m)], st):
                got += 1
                if n < m:
                    rep.violation(k, '%s: %s gives %s instead of refusing' % (what, k, brief(v)))
                    continue
                v = I.fe(s, v)
                if any(rational_zero(t.sub(v, lagrange0([xs[i] for i in c], [ys[i] for i in c])))
                       for c in combinations(range(n), m)):
                    rep.ok(what + ': interpolation through %d shares' % m)
                    continue
                compare(rep, I, s, k, what, v, lagrange0(xs[:m], ys[:m]), k, field=True)
            if not got and n >= m:
                rep.violation(k, what + ': never returns')
            allowed(rep, I, n >= m, k, what)
    g = Sharing(prog)
    I, st = g.I, State()
    seq = seq_param('shares', PAIR)
    n = t.slen(seq)
    thr = A(t.sym('threshold', 'usize'))
    small(st, n)
    b = mk('base', 'shares', PAIR)
    fx, fy = mk('fld', b, ('uint', 'usize'), 0), mk('fld', b, TT, 1)
    old = I.models['elem']

    def elem(I_, base, idx, ety):
        if base is fx:
            return A(mk('at', base, idx, 'len'))
        return old(I_, base, idx, ety)
    I.models['elem'] = elem
    X = lambda i: A(mk('at', fx, i, 'len'))
    Y = lambda i: A(mk('at', fy, i, 'any'))
    what = 'reconstruct_secret'
    legal = t.ge0(t.sub(n, thr))
    got = 0
    for s, v in g.call(k, [seq, thr], st):
        got += 1
        decide(rep, s, legal, what + ': returns for at least threshold shares only', k, k)
        i, j = t.fresh('i', 'nat'), t.fresh('j', 'nat')

        def window(f):
            xi, xj = X(t.add(A(i), f)), X(t.add(A(j), f))
            one = t.mul(t.neg(xj), t.finv(t.sub(xi, xj)))
            return t.Sum(i, thr, t.mul(Y(t.add(A(i), f)), t.Prod(j, thr, one, t.bnot_(t.eq0(t.sub(xi, xj))))))
        v = I.fe(s, v)
        if any(proves(I, s, v, window(f)) for f in (C(0), t.sub(n, thr))):
            rep.ok(what + ': value')
            continue
        # any other selection of shares is judged on shares that do lie on a polynomial of degree below the threshold
        compare(rep, I, s, k, what + ': value', v, A(t.sym('shared secret', 'any')), k, field=True, hook=on_polynomial(fx, fy, thr))
    if not got:
        rep.violation(k, what + ': never returns')
    allowed(rep, I, legal, k, what)


# ---------------------------------------------------------------------------------------------- protocols
REVEALED, DISTRIBUTED, TRANSCRIPT, NTRIPLES, NRANDOMS, NRECEIVED = range(6)
PROTOCOLS = (('MultiplicationScheme', 'multiply'), ('UnboundedMultiplicationScheme', 'unbounded_multiply'),
             ('InversionScheme', 'inverse'), ('UnboundedInversionScheme', 'unbounded_inverse'),
             ('ConditionalSelectionScheme', 'joint_conditional_selection'),
             ('OrFunctionScheme', 'shared_or'), ('UnboundedOrFunctionScheme', 'unbounded_shared_or'),
             ('RandomNumberGenerationScheme', 'generate_random_number_sharing'),
             ('RandomBitGenerationScheme', 'generate_random_bit'))
ANY = lambda n: A(t.sym(n, 'any'))
SECRETS = ('lhs', 'rhs', 'cond', 'x', 'y')


class Play:
    """one protocol function summarised for n inputs (None: any number)"""

    def __init__(self, prog, k, method, n=None, setup=None, positive=False):
        self.g = g = Sharing(prog)
        self.I, self.k, self.method, self.n = g.I, k, method, n
        st = State()
        st.assume(t.ge0(t.sub(A(PRIME), C(2))), True)
        if setup:
            setup(self, st)
        self.proto, self.rng = g.protocol(st), g.rng(st)
        if method == 'multiply':
            args = [self.proto, ANY('lhs'), ANY('rhs')]
        elif method == 'unbounded_multiply':
            self.seq = self.inputs(st, ('tuple', (SS, SS)), lambda i: mk('E', '()', 0, (ANY('x%d' % i), ANY('y%d' % i))))
            args = [self.proto, self.seq]
        elif method == 'joint_conditional_selection':
            args = [self.proto, ANY('cond'), ANY('lhs'), ANY('rhs')]
        elif method in ('inverse', 'shared_or'):
            args = [self.rng, self.proto, ANY('x0')]
        elif method.startswith('unbounded'):
            self.seq = self.inputs(st, SS, lambda i: ANY('x%d' % i))
            args = [self.rng, self.proto, self.seq]
        else:
            args = [self.rng, self.proto]
        self.length = C(n) if n is not None else t.slen(self.seq) if hasattr(self, 'seq') else t.ONE
        if method == 'unbounded_shared_or' or method == 'shared_or':
            st.assume(self.legal(), True)
        self.start = st
        self.ends = []
        for s, v in g.drive(k, args, st):
            p = self.I.mget(s, self.proto)
            self.ends.append((s, self.I.expand(s, self.I.mget(s, v)), p.a[2]))

    def legal(self):
        return t.ge0(t.sub(A(PRIME), t.add(self.length, C(2))))

    def inputs(self, st, ety, f):
        if self.n is not None:
            return t.lit(tuple(f(i) for i in range(self.n)))
        s = seq_param('x', ety)
        small(st, t.slen(s))
        return s

    def input(self, i, part=None):
        """a term for input number i"""
        return self.g.p and self.I.get(self.start, self.seq, i)

    def moved(self, s):
        return self.I.mget(s, self.rng).a[2][0]


def is_secret(a):
    """an input share"""
    if a.op == 'sym':
        n = a.a[0]
        return n in SECRETS or n[0] in 'xy' and n[1:].isdigit()
    if a.op == 'at':
        b = a.a[0]
        while isinstance(b, T) and b.op in ('fld', 'row'):
            b = b.a[0]
        return b.op == 'base' and b.a[0] == 'x'
    return False


def is_blind(a):
    return a.op == 'at' and a.a[0].op == 'base' and a.a[0].a[0] in ('random', 'triple_a', 'triple_b')


def is_hidden(a):
    """something only known as a share, or derived from it"""
    return is_secret(a) or is_blind(a) or a.op == 'rand' or a.op == 'at' and 'received' in t.show(a, 6)


def deep_atoms(x, keep=lambda a: True):
    """all atoms anywhere inside"""
    out, seen, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo += y
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if keep(y):
            out.add(y)
            if y.op == 'at':
                todo.append(y.a[1])
                continue
        todo += [z for z in y.a if isinstance(z, (T, tuple))]
    return out


def elements(I, st, seq):
    """the elements of a sequence of known length"""
    n = const(t.slen(seq))
    if n is None:
        raise Unsupported('sequence of unknown length')
    return [val(I, st, I.get(st, seq, C(i))) for i in range(n)]


def same(rep, I, s, k, what, got, want):
    if isp(got) and not unknowns(got) and any(a.a[0] is t.ZERO for a in deep_atoms(got, lambda a: a.op == 'inv')):
        clash0 = next(iter(evalt.valuations(s, [], tries=60, want=1, field=True)), None)
        if clash0 is not None:
            rep.violation(k, '%s: %s gives %s, which inverts zero for every input' % (what, k, brief(got)))
            return False
    try:
        if isp(got) and isp(want) and rational_zero(t.sub(got, want)):
            rep.ok(what)
            return True
    except Unsupported:
        pass
    return compare(rep, I, s, k, what, got, want, k, field=True)


def returned(rep, play, what):
    if not play.ends:
        rep.violation(play.k, what + ': never returns')
    return bool(play.ends)


# ---------------------------------------------------------------------------------------------- S04
def check_S04(prog, rep):
    rep.rule = ('The multiplication protocols are summarised for arbitrary shared operands, pair lists and triples (a, b, ab): '
                'the result must be the product of the operands, pair by pair, with one triple per pair.')
    for k in need_anchor(prog, rep, 'MultiplicationScheme', 'multiply'):
        def one():
            p = Play(prog, k, 'multiply')
            what = 'multiply'
            returned(rep, p, what)
            for s, v, q in p.ends:
                same(rep, p.I, s, k, what + ': product', p.I.fe(s, v), t.mul(ANY('lhs'), ANY('rhs')))
                compare(rep, p.I, s, k, what + ': number of triples', q[NTRIPLES], t.ONE, k)
            panic_sites(rep, p.I, k, what)
        guard(rep, 'multiply', one)
    for k in need_anchor(prog, rep, 'UnboundedMultiplicationScheme', 'unbounded_multiply'):
        for n in (0, 1, 2, 3, 4, None):
            guard(rep, 'unbounded_multiply', lambda: umul_rule(prog, rep, k, n))


def umul_rule(prog, rep, k, n):
    p = Play(prog, k, 'unbounded_multiply', n)
    what = 'unbounded_multiply of %s pairs' % ('any number of' if n is None else n)
    returned(rep, p, what)
    for s, v, q in p.ends:
        compare(rep, p.I, s, k, what + ': number of results', t.slen(v), p.length, k)
        compare(rep, p.I, s, k, what + ': number of triples', q[NTRIPLES], p.length, k)
        j = t.fresh('pair', 'nat')
        for i in (range(n) if n is not None else [A(j)]):
            z = s.copy()
            i = C(i) if isinstance(i, int) else i
            if not z.assume(t.ge0(t.sub(t.sub(p.length, i), t.ONE)), True):
                continue
            e = p.I.open(z, val(p.I, z, p.I.get(z, p.seq, i)))
            want = t.mul(p.I.fe(z, e.a[2][0]), p.I.fe(z, e.a[2][1]))
            same(rep, p.I, z, k, what + ': product', p.I.fe(z, p.I.get(z, v, i)), want)
        if n is not None:
            used = {}
            for e in elements(p.I, s, q[REVEALED]):
                pairs = {int(a.a[0][1:]) for a in deep_atoms(e, is_secret)}
                for a in deep_atoms(e, is_blind):
                    used.setdefault(a.a[1], set()).update(pairs)
            for c, ps in used.items():
                decide_bool(rep, len(ps) <= 1, '%s: a triple serves one pair' % what, k, '%s: triple %s masks operands of pairs %s' % (
                    k, t.show(c), sorted(ps)))
    panic_sites(rep, p.I, k, what)


# ---------------------------------------------------------------------------------------------- S05
def check_S05(prog, rep):
    rep.rule = ('The inversion protocols are summarised for arbitrary shared values and helpers: result i must be the inverse '
                'of input i wherever no helper is zero, and there must be as many results as inputs.')
    for k in need_anchor(prog, rep, 'InversionScheme', 'inverse'):
        def one():
            p = Play(prog, k, 'inverse')
            returned(rep, p, 'inverse')
            for s, v, q in p.ends:
                same(rep, p.I, s, k, 'inverse', p.I.fe(s, v), t.finv(ANY('x0')))
            panic_sites(rep, p.I, k, 'inverse')
        guard(rep, 'inverse', one)
    for k in need_anchor(prog, rep, 'UnboundedInversionScheme', 'unbounded_inverse'):
        for n in (0, 1, 2, 3, 4, None):
            def one():
                p = Play(prog, k, 'unbounded_inverse', n)
                what = 'unbounded_inverse of %s values' % ('any number of' if n is None else n)
                returned(rep, p, what)
                for s, v, q in p.ends:
                    compare(rep, p.I, s, k, what + ': number of results', t.slen(v), p.length, k)
                    j = t.fresh('position', 'nat')
                    for i in (range(n) if n is not None else [A(j)]):
                        z = s.copy()
                        i = C(i) if isinstance(i, int) else i
                        if not z.assume(t.ge0(t.sub(t.sub(p.length, i), t.ONE)), True):
                            continue
                        want = t.finv(p.I.fe(z, p.I.get(z, p.seq, i)))
                        same(rep, p.I, z, k, what + ': inverse', p.I.fe(z, p.I.get(z, v, i)), want)
                panic_sites(rep, p.I, k, what)
            guard(rep, 'unbounded_inverse', one)


# ---------------------------------------------------------------------------------------------- S06
def check_S06(prog, rep):
    rep.rule = ('The selection protocol is summarised for an arbitrary condition and operands: result condition * (lhs - rhs) + '
                'rhs, whose values at 1 and 0 are the operands, one nested multiplication, nothing revealed.')
    for k in need_anchor(prog, rep, 'ConditionalSelectionScheme', 'joint_conditional_selection'):
        def one():
            p = Play(prog, k, 'joint_conditional_selection')
            what = 'joint_conditional_selection'
            returned(rep, p, what)
            c, l, r = ANY('cond'), ANY('lhs'), ANY('rhs')
            for s, v, q in p.ends:
                v = p.I.fe(s, v)
                same(rep, p.I, s, k, what, v, t.add(t.mul(c, t.sub(l, r)), r))
                for x, w in ((t.ONE, l), (t.ZERO, r)):
                    same(rep, p.I, s, k, what + ' with condition %s' % t.show(x), t.subst(v, {t.as_atom(c): x}), w)
                ops = elements(p.I, s, q[TRANSCRIPT])
                decide_bool(rep, const(t.slen(q[REVEALED])) == 0, what + ': reveals nothing', k, k)
                one = ops == [C(MULTIPLY)] or ops == [C(UMULTIPLY), t.ONE]
                decide_bool(rep, one, what + ': one secure multiplication and nothing else', k,
                            '%s, which performs %s' % (k, steps(ops)))
            panic_sites(rep, p.I, k, what)
        guard(rep, 'joint_conditional_selection', one)


NAMES = {REVEAL: 'reveal', DISTRIBUTE: 'distribute', TRIPLES: 'triples', RANDOM: 'random', MULTIPLY: 'multiply',
         UMULTIPLY: 'multiply batch', INVERT: 'invert', UINVERT: 'invert batch'}


def steps(ops):
    out, i = [], 0
    while i < len(ops):
        c = const(ops[i])
        w = NAMES.get(c, t.show(ops[i], 3))
        if c in (TRIPLES, UMULTIPLY, UINVERT) and i + 1 < len(ops):
            i += 1
            w += '(%s)' % t.show(ops[i], 3)
        out.append(w)
        i += 1
    return ', '.join(out) or 'nothing'


# ---------------------------------------------------------------------------------------------- S08
def check_S08(prog, rep):
    rep.rule = ('The random number protocol is summarised for an arbitrary generator and number of parties: exactly one '
                'uniform draw, distributed exactly once and used for nothing else; result the sum of the received shares.')
    for k in need_anchor(prog, rep, 'RandomNumberGenerationScheme', 'generate_random_number_sharing'):
        for parties in (1, 2, 3, None):
            guard(rep, 'generate_random_number_sharing', lambda: random_rule(prog, rep, k, parties))


def random_rule(prog, rep, k, parties):
    what = 'generate_random_number_sharing with %s parties' % ('any number of' if parties is None else parties)
    row = t.whole(mk('row', mk('base', 'received', ('slice', SS)), SS, t.ZERO))
    n = t.slen(row)

    def setup(p, st):
        small(st, n)
        st.assume(t.ge0(t.sub(n, t.ONE)), True)
        if parties is not None:
            st.assume(t.eq0(t.sub(n, C(parties))), True)
    p = Play(prog, k, 'generate_random_number_sharing', setup=setup)
    returned(rep, p, what)
    draw = A(mk('rand', 'rng:r', t.ZERO, 'member'))
    for s, v, q in p.ends:
        compare(rep, p.I, s, k, what + ': number of draws', p.moved(s), t.ONE, k)
        compare(rep, p.I, s, k, what + ': number of sharings', t.slen(q[DISTRIBUTED]), t.ONE, k)
        if const(t.slen(q[DISTRIBUTED])) == 1:
            e = elements(p.I, s, q[DISTRIBUTED])[0]
            same(rep, p.I, s, k, what + ': the draw is shared', p.I.fe(s, e), draw)
        compare(rep, p.I, s, k, what + ': nothing revealed', t.slen(q[REVEALED]), t.ZERO, k)
        v = p.I.fe(s, v)
        i = t.fresh('i', 'nat')
        e = lambda j: p.I.fe(s, p.I.get(s, row, j))
        want = t.psum([e(C(j)) for j in range(parties)]) if parties is not None else \
            t.Sum(i, n, A(mk('at', mk('row', mk('base', 'received', ('slice', SS)), SS, t.ZERO), A(i), 'any')))
        same(rep, p.I, s, k, what + ': sum of the received shares', v, want)
        decide_bool(rep, not deep_atoms(v, lambda a: a.op == 'rand'), what + ': the draw is used for sharing only', k, k)
        cs = [c for f in s.pc for c in deep_atoms(f[1], lambda a: a.op == 'rand')] + \
            [c for f in s.bf for c in deep_atoms(f, lambda a: a.op == 'rand')]
        decide_bool(rep, not cs, what + ': nothing depends on the draw', k, k)
    panic_sites(rep, p.I, k, what)


# ---------------------------------------------------------------------------------------------- S07
def primes_of(n):
    out, d = set(), 2
    n = abs(n)
    while d * d <= n:
        while n % d == 0:
            out.add(d)
            n //= d
        d += 1
    return out | ({n} if n > 1 else set())


def check_S07(prog, rep):
    rep.rule = ('The OR protocols are summarised for 1 to 4 shared bits: for every bit pattern (and for 5, 6, 7, 9 and 12 bits, every '
                'number of set bits) the value must be the OR, with no '
                'division by anything that may vanish in a field larger than the number of bits plus one.  For any number '
                'of bits the value must be the sum over Newton basis polynomials, the cached matrix entries being their '
                'coefficients and the divided differences.  Empty and too long lists must be refused, and only these.')
    for k in need_anchor(prog, rep, 'OrFunctionScheme', 'shared_or'):
        guard(rep, 'shared_or', lambda: or_rule(prog, rep, k, 'shared_or', 1))
    for k in need_anchor(prog, rep, 'UnboundedOrFunctionScheme', 'unbounded_shared_or'):
        guard(rep, 'unbounded_shared_or of no bits', lambda: or_refusal(prog, rep, k, 0))
        for n in (1, 2, 3, 4) + ((5,) if thorough() else ()):
            guard(rep, 'unbounded_shared_or of %d bits' % n, lambda: or_rule(prog, rep, k, 'unbounded_shared_or', n))
        guard(rep, 'unbounded_shared_or of any number of bits', lambda: or_general(prog, rep, k))


def thorough():
    import os, sys
    return 'thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'


def or_refusal(prog, rep, k, n):
    what = 'unbounded_shared_or of %d bits' % n
    g = Sharing(prog)
    I, st = g.I, State()
    st.assume(t.ge0(t.sub(A(PRIME), C(2))), True)
    proto, rng = g.protocol(st), g.rng(st)
    legal = t.ge0(t.sub(A(PRIME), C(n + 2))) if n else False
    for s, v in g.drive(k, [rng, proto, t.lit(tuple(ANY('x%d' % i) for i in range(n)))], st):
        if legal is False:
            rep.violation(k, what + ': returns instead of refusing')
        else:
            decide(rep, s, legal, what + ': returns where the sample points are distinct members only', k, k)
    allowed(rep, I, legal, k, what)
    rep.ok(what + ': refusals')


def or_rule(prog, rep, k, method, n):
    from itertools import product
    what = '%s of %d bits' % (method, n)
    if method != 'shared_or':
        or_refusal(prog, rep, k, n)
    p = Play(prog, k, method, n)
    returned(rep, p, what)
    for s, v, q in p.ends:
        v = p.I.fe(s, v)
        for bits in product((0, 1), repeat=n):
            w = prove.subst_atoms(v, {t.sym('x%d' % i, 'any'): C(b) for i, b in enumerate(bits)})
            pat = what + ' ' + ''.join(map(str, bits))
            bad = None
            for a in deep_atoms(w, lambda a: a.op == 'inv'):
                c = const(a.a[0])
                if c is None:
                    if as_blinds(a.a[0]):
                        continue
                    bad = 'inverts ' + brief(a.a[0])
                elif c == 0 or any(f > n + 1 for f in primes_of(c)):
                    bad = 'inverts %d, which is not invertible in every field larger than the number of bits plus one' % c
            if bad:
                rep.unknown(pat, bad) if 'every' not in bad else rep.violation(k, '%s: %s %s' % (pat, k, bad))
                continue
            same(rep, p.I, s, k, pat, w, C(int(any(bits))))
    panic_sites(rep, p.I, k, what)


def as_blinds(p):
    """a monomial of random helpers"""
    return len(p.a[0]) == 1 and all(is_blind(a) or a.op == 'inv' and as_blinds(a.a[0]) for a in p.a[0][0][0])


def matrix_functions(prog):
    """the asynchronous functions of two signed coordinates giving a field member"""
    out = []
    for b, d in prog.bodies.items():
        if d['kind'] == 'Fn' and d['crate'] == 'jester_sharing' and d['argc'] == 2 and d['generics'] == ['T']:
            r, x, y = [prog.ty('jester_sharing', d['locals'][i]) for i in range(3)]
            if x['s'] == y['s'] == 'isize' and ('Future' in r['s'] or r['k'] == 'coroutine'):
                out.append(b)
    return out


def pure(f, *a):
    return A(mk('pure', f, tuple(a), 'any'))


def make_opaque(I, fs):
    for f in fs:
        I.opaque_fns[f] = lambda I_, st, a, ci, f=f: mk('E', 'ready', 0, (pure(f, *[val(I_, st, x) for x in a]),))


def proved(rep, I, s, what, got, want):
    """opaque functions stand for values that are related, so a difference shows nothing"""
    try:
        if got is want or prove.equal(I, s, got, want):
            rep.ok(what)
            return
    except (Unsupported, Split, Panic):
        pass
    rep.unknown(what, 'got %s want %s' % (brief(got), brief(want)))


def or_general(prog, rep, k):
    what = 'unbounded_shared_or of any number of bits'
    # refusals
    bits = seq_param('x', SS)
    n = t.slen(bits)
    fs = matrix_functions(prog)

    def machine():
        g = Sharing(prog)
        I, st = g.I, State()
        make_opaque(I, fs)
        plain = I.models.get('LinearSharingScheme::sum_shares')

        def total(I_, st_, a, ci):
            if seqv(I_, st_, a[0]) is not bits:
                return plain(I_, st_, a, ci) if plain else NotImplemented
            return NONE if st_.need(t.eq0(n)) else some(t.sub(ANY('s'), t.ONE))
        I.models['LinearSharingScheme::sum_shares'] = total
        small(st, n)
        st.assume(t.ge0(t.sub(A(PRIME), C(2))), True)
        return g, I, st
    legal = t.ge0(t.sub(A(PRIME), t.add(n, C(2))))
    roles = {}
    for f in fs:
        guard(rep, 'matrix entries', lambda: matrix_rule(prog, rep, f, machine, roles))
    g, I, st = machine()
    f = g.call(k, [g.rng(st), g.protocol(st), bits], st)
    for s, v in f:
        decide(rep, s, legal, what + ': returns where the sample points are distinct members only', k, k)
        decide(rep, s, t.ge0(t.sub(n, t.ONE)), what + ': returns for at least one bit only', k, k)
    allowed(rep, I, t.band_(legal, t.ge0(t.sub(n, t.ONE))), k, what)
    # value
    if sorted(roles) != ['lower', 'upper'] or len(fs) != 2:
        rep.unknown(what, 'the factors of the inverse matrix are not recognised')
        return
    from . import sums
    for cnt in (tuple(range(5, 17)) + (20,) if thorough() else (5, 6, 7, 9, 12)):
        guard(rep, 'unbounded_shared_or of %d bits' % cnt, lambda: or_many(prog, rep, k, cnt, roles))
    before = len(rep.undecided)
    g, I, st = machine()
    st.assume(t.ge0(t.sub(n, C(5))), True)
    st.assume(legal, True)
    up, lo = [lambda *a, f=roles[r]: pure(f, *a) for r in ('upper', 'lower')]
    i, j, m = [t.fresh(q, 'nat') for q in 'ijm']
    N = t.add(n, t.ONE)
    coef = t.Sum(j, n, t.Sum(m, N, t.mul(up(A(i), A(m)), lo(A(m), t.add(A(j), t.ONE)))))
    want = t.Sum(i, N, t.mul(coef, t.fpow(ANY('s'), A(i))))
    ends = g.drive(k, [g.rng(st), g.protocol(st), bits], st)
    for s, v in ends:
        for z, (a, b) in sums.cases(I, s, I.fe(s, v), want):
            a, b = sums.aligned(z, a), sums.aligned(z, b)
            d = sums.powers(sums.merged(t.sub(a, b)))
            known = len(rep.undecided) == before
            proved(rep, I, z, what + ': value', d, t.ZERO)
            if known and len(rep.undecided) > before and not deep_atoms(d, is_secret):
                w = or_witness(z, d, n, roles)
                if w is not None:
                    rep.violation(k, '%s: %s does not give the OR, for instance with %s' % (what, k, w))
    allowed(rep, I, True, k, what)


def or_witness(z, d, n, roles):
    """bits for which the value differs, the matrix entries being what the recursions proved of them give"""
    up = {}

    def upper(r, c, p):
        for q in range(-1, r + 1):
            for e in range(0, c + 1):
                if (q, e) not in up:
                    up[q, e] = 1 if q == e else 0 if e == 0 or q == -1 else (up[q - 1, e - 1] - e * up[q, e - 1]) % p
        return up[r, c]

    def hook(v, x):
        if x.op != 'pure':
            return None
        if x.a[0] not in roles.values():
            raise evalt.Undef('value')
        r, c = v.evi(x.a[1][0]), v.evi(x.a[1][1])
        if not (-1 <= r < 60 and 0 <= c < 60):
            raise evalt.Undef('entry')
        if x.a[0] == roles['upper']:
            return upper(r, c, v.prime)
        if c > r:
            return 0
        y = 1
        for m in range(r + 1):
            y = y * (c - m) % v.prime if m != c else y
        return pow(y, -1, v.prime)
    ln = t.as_atom(n)
    for cnt in (5, 6, 7, 8, 9, 12, 17, 20, 33):
        up.clear()
        for s in sorted({1, 2, cnt, cnt + 1}):
            w, _ = evalt.differ(z, [(d, t.ZERO)], field=True, hook=hook, tries=60, want=1,
                                fix={ln: cnt, ln.a[0]: cnt, t.sym('s', 'any'): s})
            if w is not None:
                return '%d bits, %d of them set' % (cnt, s - 1)
    return None


def or_many(prog, rep, k, n, roles):
    """n bits with the sum as one symbol: the value for every number of set bits"""
    what = 'unbounded_shared_or of %d bits' % n
    xs = tuple(ANY('x%d' % i) for i in range(n))
    up = {}
    parts = []                  # how many bits a sum over some of them only covers

    def upper(r, c):
        for q in range(-1, r + 1):
            for e in range(0, c + 1):
                if (q, e) not in up:
                    up[q, e] = 1 if q == e else 0 if e == 0 or q == -1 else up[q - 1, e - 1] - e * up[q, e - 1]
        return C(up[r, c])

    def lower(r, c):
        y = 1
        for m in range(r + 1):
            y *= c - m if m != c else 1
        return t.ZERO if c > r else t.finv(C(y))

    def setup(p, st):
        for role, f in (('upper', upper), ('lower', lower)):
            def h(I_, st_, a, ci, f=f):
                r, c = const(val(I_, st_, a[0])), const(val(I_, st_, a[1]))
                if r is None or c is None or r < -1 or c < 0:
                    raise Unsupported('entry of the matrix')
                return mk('E', 'ready', 0, (f(r, c),))
            p.I.opaque_fns[roles[role]] = h

        plain = p.I.models.get('LinearSharingScheme::sum_shares')

        def total(I_, st_, a, ci):
            got = I_.expand(st_, seqv(I_, st_, a[0]))
            if got is t.lit(xs):
                return some(t.sub(ANY('s'), t.ONE))
            g = got.a[0]
            if len(g) == 1 and g[0].op == 'lit' and len(set(g[0].a[0])) == len(g[0].a[0]) and set(g[0].a[0]) <= set(xs):
                parts.append(len(g[0].a[0]))
                return some(t.sub(ANY('s'), t.ONE))
            return plain(I_, st_, a, ci) if plain else NotImplemented
        p.I.models['LinearSharingScheme::sum_shares'] = total
    p = Play(prog, k, 'unbounded_shared_or', n, setup=setup)
    returned(rep, p, what)
    for s, v, q in p.ends:
        v = p.I.fe(s, v)
        if any(deep_atoms(v, lambda a: a is x) for x in map(t.as_atom, xs)):
            raise Unsupported('bits are used one by one')
        if parts:
            if len(parts) > 1:
                raise Unsupported('several sums of some of the bits')
            # the value does not depend on the bits left out of the sum
            w = prove.subst_atoms(v, {t.sym('s', 'any'): t.ONE})
            for set_ in (0, 1):
                same(rep, p.I, s, k, '%s, none of %d summed ones set, %d of the others' % (what, parts[0], set_), w, C(set_))
            continue
        for set_ in range(n + 1):
            w = prove.subst_atoms(v, {t.sym('s', 'any'): C(set_ + 1)})
            same(rep, p.I, s, k, '%s, %d of them set' % (what, set_), w, C(int(set_ > 0)))


def matrix_rule(prog, rep, f, machine, roles):
    """the factor U (recursion of the Newton basis polynomials) or L (divided differences)"""
    g, I, st = machine()
    r, c = A(t.sym('row', 'isize')), A(t.sym('column', 'isize'))
    st.assume(t.ge0(t.sub(C(2 ** 40), r)), True)
    st.assume(t.ge0(t.sub(C(2 ** 40), c)), True)
    st.assume(t.ge0(t.add(r, t.ONE)), True)
    st.assume(t.ge0(c), True)
    rec = t.sub(pure(f, t.sub(r, t.ONE), t.sub(c, t.ONE)), t.mul(c, pure(f, r, t.sub(c, t.ONE))))
    ends = g.drive(f, [r, c], st)
    ends = [(s, I.fe(s, I.mget(s, v))) for s, v in ends]
    what = 'matrix entry ' + f.split('::')[-1]
    panics = list(I.panics)
    if any(deep_atoms(v, lambda a: a.op == 'pure') for s, v in ends):
        roles['upper'] = f
        for s, v in ends:
            for z in (y for cond in (t.eq0(t.sub(r, c)),) for y in I.fork(s, cond)):
                for y in I.fork(z, t.eq0(c)):
                    for x in I.fork(y, t.eq0(t.add(r, t.ONE))):
                        if x.decide(t.eq0(t.sub(r, c))):
                            proved(rep, I, x, what + ' on the diagonal', v, t.ONE)
                        elif x.decide(t.eq0(c)) or x.decide(t.eq0(t.add(r, t.ONE))):
                            proved(rep, I, x, what + ' at the border', v, t.ZERO)
                        else:
                            proved(rep, I, x, what + ' recursion', v, rec)
    else:
        roles['lower'] = f
        for s, v in ends:
            s.assume(t.ge0(r), True)
            for z in I.fork(s, t.ge0(t.sub(t.sub(c, r), t.ONE))):
                if z.decide(t.ge0(t.sub(t.sub(c, r), t.ONE))):
                    proved(rep, I, z, what + ' above the diagonal', v, t.ZERO)
                else:
                    m = t.fresh('m', 'nat')
                    want = t.finv(t.Prod(m, t.add(r, t.ONE), t.sub(c, A(m)), t.bnot_(t.eq0(t.sub(c, A(m))))))
                    for y in I.fork(z, t.eq0(r)):
                        one = y.decide(t.eq0(r)) and y.decide(t.eq0(c))
                        proved(rep, I, y, what + ' divided difference', v, t.ONE if one else want)
    for o in panics:
        rep.unknown(what, 'may panic: %s at %s' % (o.msg, panic_where(o)))


# ---------------------------------------------------------------------------------------------- S09
def plays(prog, rep, need=True):
    """every protocol function, for small and for arbitrary sizes: (play, label); None where it is not understood"""
    for trait, method in PROTOCOLS:
        for k in need_anchor(prog, rep, trait, method):
            sizes = (None,)
            if method.startswith('unbounded'):
                sizes = (1, 2, 3, 4, None) if method == 'unbounded_shared_or' else (0, 1, 2, 3, 4, None)
            for n in sizes:
                what = method + ('' if not method.startswith('unbounded') else ' of %s inputs' % ('any number of' if n is None else n))

                def setup(p, st):
                    if method == 'unbounded_shared_or' and n is None:
                        make_opaque(p.I, matrix_functions(prog))
                    row = mk('row', mk('base', 'received', ('slice', SS)), SS, t.ZERO)
                    st.assume(t.ge0(t.sub(A(mk('len', row)), t.ONE)), True)
                p = guard(rep, what, lambda: Play(prog, k, method, n, setup=setup))
                if p is not None:
                    yield p, what


class Shape(Exception):
    pass


def families(seq):
    """[(k, count, elements)]: the parts of a sequence of revealed values"""
    out = []
    for g in seq.a[0]:
        if g.op == 'lit':
            out.append((None, t.ONE, list(g.a[0])))
        elif g.op == 'fill':
            out.append((None, t.ONE, [g.a[0]]))
        elif g.op == 'flat':
            k = t.fresh('k', 'nat')
            body = t.flat_body(g, A(k))
            if any(h.op != 'lit' for h in body.a[0]):
                raise Shape('nested sequence of revealed values')
            out.append((k, g.a[1], [e for h in body.a[0] for e in h.a[0]]))
        elif g.op == 'sub':
            k = t.fresh('k', 'nat')
            out.append((k, g.a[2], [A(mk('at', g.a[0], t.add(g.a[1], A(k)), 'any'))]))
        else:
            raise Shape('revealed values ' + g.op)
    return out


def unit_blind(e, b):
    """e is a bijective function of the blind b (away from zero)"""
    ib = mk('inv', A(b))
    occ = [(sum(x is b for x in m), sum(x is ib for x in m), c) for m, c in e.a[0]]
    for m, _ in e.a[0]:
        for x in m:
            if x is not b and x is not ib and b in deep_atoms(x):
                return False
    if all(o[:2] == (1, 0) for o in occ) or all(o[:2] == (0, 1) for o in occ):
        return True
    lin = [o for o, (m, _) in zip(occ, e.a[0]) if o[0] or o[1]]
    return len(lin) == 1 and lin[0][0] == 1 and lin[0][1] == 0 and lin[0][2] in (1, -1) and \
        all(len(m) == 1 for o, (m, _) in zip(occ, e.a[0]) if o[0])


def masked(st, fams):
    """None, or the revealed value for which no blind of its own is found"""
    earlier = []
    for k, n, es in fams:
        z = st.copy()
        if k is not None and not z.assume(t.ge0(t.sub(t.sub(n, A(k)), t.ONE)), True):
            continue
        k2 = t.fresh('k', 'nat') if k is not None else None
        for i, e in enumerate(es):
            if not deep_atoms(e, is_hidden):
                continue
            others = [(f, None) for f in es[:i]]
            if k is not None:
                others += [(t.subst(f, {k: A(k2)}), (k2, t.sub(t.sub(A(k), A(k2)), t.ONE))) for f in es]
            others += [(t.subst(f, {q: A(q2)}) if q is not None else f, (q2, t.sub(t.sub(m, A(q2)), t.ONE)) if q is not None else None)
                       for q, m, fs in earlier for q2 in [t.fresh('k', 'nat')] for f in fs]
            good = False
            for b in sorted(deep_atoms(e, is_blind), key=lambda x: t.show(x, 9)):
                if has_bound(b) or not unit_blind(e, b):
                    continue
                if all(apart(z, b, f, rng) for f, rng in others):
                    good = True
                    break
            if not good:
                return e
        earlier.append((k, n, es))
    return None


def orders(fams):
    """orders in which the revealed values may be looked at: as they come, and the one found from the back"""
    yield fams
    if all(k is None for k, n, es in fams):
        left, out = [e for k, n, es in fams for e in es], []
        while left:
            for e in left:
                rest = [f for f in left if f is not e]
                if any(unit_blind(e, b) and all(b not in deep_atoms(f, is_blind) for f in rest) for b in deep_atoms(e, is_blind)):
                    break
            else:
                e = left[-1]
            left.remove(e)
            out.insert(0, e)
        yield [(None, t.ONE, out)]


def has_bound(b):
    return bool(deep_atoms(b.a[1], lambda a: a.op == 'bv'))


def apart(st, b, f, rng):
    """the blind b does not occur in f"""
    for c in deep_atoms(f, is_blind):
        if c.a[0] is not b.a[0]:
            continue
        z = st.copy()
        if has_bound(c):
            return False
        if rng is not None and not z.assume(t.ge0(rng[1]), True):
            continue
        if z.assume(t.eq0(t.sub(c.a[1], b.a[1])), True):
            return False
    return True


LEAKP = (1 << 61) - 1


def gradient(e, env, wrt):
    """value and derivatives of a term over field atoms"""
    v, d = 0, {}
    for m, c in e.a[0]:
        x, dx = c % LEAKP, {}
        for a in m:
            y, dy = atom_gradient(a, env, wrt)
            nd = {w: g * y % LEAKP for w, g in dx.items()}
            for w, g in dy.items():
                nd[w] = (nd.get(w, 0) + x * g) % LEAKP
            x, dx = x * y % LEAKP, nd
        v = (v + x) % LEAKP
        for w, g in dx.items():
            d[w] = (d.get(w, 0) + g) % LEAKP
    return v, d


def atom_gradient(a, env, wrt):
    if a.op == 'inv':
        v, d = gradient(a.a[0], env, wrt)
        if v == 0:
            raise Shape('zero inverted')
        i = pow(v, LEAKP - 2, LEAKP)
        return i, {w: -g * i * i % LEAKP for w, g in d.items()}
    if a.op == 'sym' or a.op == 'at' or a.op == 'rand':
        import zlib
        if a not in env:
            env[a] = zlib.crc32(t.show(a, 20).encode()) * 2654435761 % LEAKP + 2
        return env[a], ({a: 1} if a in wrt else {})
    raise Shape('operation ' + a.op)


def rank(rows):
    rows = [dict(r) for r in rows]
    n = 0
    while rows:
        r = rows.pop()
        piv = next((w for w, x in r.items() if x % LEAKP), None)
        if piv is None:
            continue
        n += 1
        i = pow(r[piv], LEAKP - 2, LEAKP)
        for q in rows:
            f = q.get(piv, 0) * i % LEAKP
            if f:
                for w, x in r.items():
                    q[w] = (q.get(w, 0) - f * x) % LEAKP
    return n


def leak(es):
    """why the values depend on the inputs however the blinds fall, or None"""
    blinds = {a for e in es for a in deep_atoms(e, is_blind)}
    secrets = {a for e in es for a in deep_atoms(e, is_secret)}
    if not secrets:
        return None
    for e in es:
        if deep_atoms(e, is_secret) and not deep_atoms(e, is_blind):
            return 'the value %s, which no random element masks' % brief(e)
    env = {}
    try:
        grads = [gradient(e, env, blinds | secrets)[1] for e in es]
        rb = rank([{w: x for w, x in g.items() if w in blinds} for g in grads])
        rs = rank(grads)
        if rs > rb:
            return 'values %s, which have %d degrees of freedom through the masks but %d with the inputs' % (
                ', '.join(brief(e) for e in es), rb, rs)
    except Shape:
        return None
    # quadratic characters
    vecs = []
    for e in es:
        if len(e.a[0]) != 1:
            fs = content(e)
            if fs is None:
                continue
        else:
            fs = [(x.a[0], 1) if x.op == 'inv' else (A(x), 1) for x in e.a[0][0][0]]
        v = {}
        for f, _ in fs:
            v[f] = v.get(f, 0) ^ 1
        vecs.append({f for f, x in v.items() if x})
    isb = lambda f: t.as_atom(f) is not None and is_blind(t.as_atom(f))
    for mask in range(1, 1 << min(len(vecs), 10)):
        acc = set()
        for i, v in enumerate(vecs[:10]):
            if mask >> i & 1:
                acc ^= v
        if acc and not any(isb(f) or deep_atoms(f, is_blind) for f in acc) and any(deep_atoms(f, is_secret) for f in acc):
            return 'values %s: whether %s is a square shows, since the masks come in even powers' % (
                ', '.join(brief(e) for i, e in enumerate(es) if mask >> i & 1), ' * '.join(brief(f) for f in acc))
    return None


def content(e):
    """factors (common monomial, remaining polynomial) of a polynomial"""
    common = list(e.a[0][0][0])
    for m, _ in e.a[0][1:]:
        left, keep = list(m), []
        for x in common:
            if x in left:
                left.remove(x)
                keep.append(x)
        common = keep
    rest = {}
    for m, c in e.a[0]:
        w = list(m)
        for x in common:
            w.remove(x)
        rest[tuple(w)] = c
    return [(x.a[0], 1) if x.op == 'inv' else (A(x), 1) for x in common] + [(t.poly(rest), 1)]


def check_S09(prog, rep):
    rep.rule = ('The revealed values of every protocol, for 0 to 4 and for any number of inputs, must admit an order in '
                'which each is a bijective function of a jointly random element that no earlier one contains.  Reported: '
                'a value without mask, more degrees of freedom with inputs than masks, masks in even powers only.')
    for p, what in plays(prog, rep):
        for s, v, q in p.ends:
            try:
                fams = families(q[REVEALED])
                if any(masked(s, o) is None for o in orders(fams)):
                    rep.ok(what + ': revealed values are masked')
                    continue
                why = brief(masked(s, fams))
            except Shape as e:
                fams, why = None, str(e)
            n = const(t.slen(q[REVEALED]))
            w = None
            if n is not None:
                w = leak([p.I.fe(s, x) for x in elements(p.I, s, q[REVEALED])])
            elif fams is not None:
                for k, m, es in fams:
                    z = s.copy()
                    if k is None or z.assume(t.ge0(t.sub(m, t.ONE)), True):
                        for e in es:
                            if deep_atoms(e, is_secret) and not deep_atoms(e, is_blind):
                                w = w or 'the value %s, which no random element masks' % brief(e)
            if w:
                rep.violation(p.k, '%s: %s reveals %s' % (what, p.k, w))
            else:
                rep.unknown(what + ': revealed values', 'no mask of its own found for ' + why)


# ---------------------------------------------------------------------------------------------- S10
def check_S10(prog, rep):
    rep.rule = ('The sequence of interactive steps of every path through every protocol, for 0 to 4 and for any number of '
                'inputs: no share, random or revealed value may occur in it, in the number of its steps, or in a condition '
                'that separates two paths with different steps or ends in a panic.')
    for p, what in plays(prog, rep):
        for s, v, q in p.ends:
            bad = deep_atoms(q[TRANSCRIPT], is_hidden)
            decide_bool(rep, not bad, what + ': steps do not depend on values', p.k,
                        '%s: its steps %s depend on %s' % (p.k, brief(q[TRANSCRIPT]), ', '.join(brief(b) for b in bad)))
        for i, (s1, _, q1) in enumerate(p.ends):
            for s2, _, q2 in p.ends[:i]:
                z = public(s1, s2)
                if z is None:
                    continue
                try:
                    eq = q1[TRANSCRIPT] is q2[TRANSCRIPT] or prove.equal(p.I, z, q1[TRANSCRIPT], q2[TRANSCRIPT])
                except (Unsupported, Split, Panic):
                    eq = False
                if eq:
                    rep.ok(what + ': paths separated by values perform the same steps')
                    continue
                f = secret_facts(s1) + secret_facts(s2)
                if f and evalt.differ(z, [(q1[TRANSCRIPT], q2[TRANSCRIPT])])[0] is not None:
                    rep.violation(p.k, '%s: %s performs %s or %s depending on whether %s' % (
                        what, p.k, brief(q1[TRANSCRIPT]), brief(q2[TRANSCRIPT]), '; '.join(brief(x) for x in f[:2])))
                else:
                    rep.unknown(what + ': steps of two paths', '%s and %s' % (brief(q1[TRANSCRIPT]), brief(q2[TRANSCRIPT])))
        for o in p.I.panics:
            if o.st is not None:
                f = secret_facts(o.st)
                decide_bool(rep, not f, what + ': no abort depends on values', p.k, '%s: %s at %s happens if %s' % (
                    p.k, o.msg, panic_where(o), '; '.join(brief(x) for x in f[:2])))


def secret_facts(s):
    return [f[1] for f in s.pc if deep_atoms(f[1], is_hidden)] + [f for f in s.bf if deep_atoms(f, is_hidden)]


def public(s1, s2):
    """a state with the public facts of both, or None"""
    z = State()
    for s in (s1, s2):
        for f in s.pc:
            if deep_atoms(f[1], is_hidden):
                continue
            c = {'ge': t.ge0, 'eq': t.eq0, 'ne': lambda x: t.bnot_(t.eq0(x))}[f[0]](f[1])
            if not z.assume(c, True):
                return None
        for f, v in s.bf.items():
            if not deep_atoms(f, is_hidden) and not z.assume(f, v):
                return None
    return z


# ---------------------------------------------------------------------------------------------- S11
def last(path):
    return (path or '').split('<')[0].split('::')[-1]


def check_S11(prog, rep):
    rep.rule = ('Every forwarding function generated by the delegation macro, in the library and in a witness crate of '
                'traits of other shapes, is summarised for arbitrary arguments: exactly one call, of the same method, on the '
                'marked implementation or the delegate, same arguments in order, result returned as it is.')
    from . import facts
    n = forwarding(prog, rep, 'jester_sharing')
    if not n:
        rep.violation('anchor', 'no delegatable protocol is left')
    try:
        w = facts.Program(facts.witness())
    except facts.WitnessError as e:
        rep.violation('jester_sharing_proc::delegatable_protocol', 'delegatable traits of the witness crate no longer compile: ' + str(e)[-600:])
        return
    except facts.FactError as e:
        rep.unknown('witness crate', str(e)[-400:])
        return
    m = forwarding(w, rep, 'jester_witness')
    rep.facts.update(library_functions=n, witness_functions=m)
    if m != 24:
        rep.violation('jester_sharing_proc::delegatable_protocol', 'the macro generates %d forwarding functions for the witness traits, 24 are required' % m)


def forwarding(prog, rep, crate):
    traits = {}
    for im in prog.impls:
        if im['crate'] == crate and im.get('trait'):
            traits.setdefault(last(im['trait']), []).append(im)
    n = 0
    for name, ims in sorted(traits.items()):
        for im in ims:
            own = name not in ('Drop',) and 'Marker' in im['generics']
            dele = name.endswith('Impl') and name[:-4] in traits and any('Marker' in x['generics'] for x in traits[name[:-4]])
            if not own and not dele:
                continue
            if dele and prog.ty(crate, im['self'])['k'] != 'param':
                continue
            for method, key, kind, _ in im['items']:
                if key in prog.bodies:
                    n += 1
                    guard(rep, key, lambda: forward_rule(prog, rep, crate, im, name, method, key, own))
    return n


def forward_rule(prog, rep, crate, im, name, method, key, own):
    I = interp.Interp(prog)
    st = State()
    calls = []
    b = prog.bodies[key]
    target = name + 'Impl' if own else name[:-4]

    def star(I_, st_, a, ci):
        if ci.trait is None:
            return NotImplemented
        r = mk('opq', 'result%d' % len(calls), ('param', 'RESULT'))
        calls.append((ci, list(a), r))
        I_.mset(st_, log, t.cat(I_.mget(st_, log), t.lit((C(len(calls) - 1),))))
        return r
    I.models['*'] = star
    log = I.alloc(st, t.EMPTY, 'log')
    args = []
    for i in range(b['argc']):
        args.append(mk('opq', 'argument %d' % i, ('param', 'A%d' % i)))
    for i, l in enumerate(b['locals'][1:b['argc'] + 1]):
        if prog.ty(crate, l)['k'] == 'ref' and prog.ty(crate, l)['mut']:
            args[i] = I.alloc(st, args[i], 'a%d' % i)
    what = '%s::%s' % (im['trait'], method) + (' on the marked implementation' if own else ' on the delegate')
    env = {g: ('param', g) for g in b['generics']}
    got = 0
    start = {i: I.mget(st, a) for i, a in enumerate(args) if a.op == 'mref'}
    for s, v in I.run(key, args, st, env):
        got += 1
        made = [calls[const(x)] for x in elements(I, s, I.mget(s, log))]
        if len(made) != 1:
            rep.violation(key, '%s: %s makes %d calls (%s) instead of one' % (what, key, len(made), ', '.join(c[0].name for c in made)))
            continue
        ci, a, r = made[0]
        selfty = ci.targs[0]
        ok = last(ci.trait) == target and ci.name == method
        decide_bool(rep, ok, what + ': same method', key, '%s, which calls %s::%s' % (key, ci.trait, ci.name))
        if own:
            right = selfty == ('param', im_self(prog, crate, im))
        else:
            right = selfty[0] in ('proj', 'alias', 'opaque') or 'Delegate' in repr(selfty)
        decide_bool(rep, right, what + ': on the chosen implementation', key, '%s, which calls it on %r' % (key, selfty))
        pa = lambda xs: [x[1] for x in xs if isinstance(x, tuple) and x[0] == 'param']
        want = [g for g in b['generics']]
        have = pa(ci.targs[1:])
        decide_bool(rep, have == want, what + ': same type arguments', key, '%s, which passes type arguments %s for %s' % (key, have, want))
        same_args = len(a) == len(args) and all(x is y for x, y in zip(a, args))
        decide_bool(rep, same_args, what + ': arguments in order', key, '%s, which passes %s' % (
            key, ', '.join(shown(I, s, x, args) for x in a)))
        decide_bool(rep, v is r, what + ': result returned unchanged', key, '%s, which returns %s' % (key, brief(v)))
        moved = [i for i, x in start.items() if I.mget(s, args[i]) is not x]
        decide_bool(rep, not moved, what + ': arguments not modified', key, '%s, which changes argument %s' % (key, moved))
    if not got:
        rep.violation(key, what + ': never returns')
    panic_sites(rep, I, key, what)


def im_self(prog, crate, im):
    return prog.ty(crate, im['self']).get('name')


def shown(I, s, x, args):
    for i, y in enumerate(args):
        if x is y:
            return 'argument %d' % i
    return brief(x, 60)


# ---------------------------------------------------------------------------------------------- S12
def check_S12(prog, rep):
    rep.rule = ('(a) In every body of the library no lock guard may be initialised where the task can be suspended or where '
                'a call acquires a lock or runs an executor (forward dataflow over MIR). (b) Cached functions are '
                'summarised with hits and misses: a hit is returned as it is, a miss stores the returned value, under a key '
                'that determines the arguments it depends on and that lookups use alike, in a map typed by the field.')
    guards(prog, rep)
    fs = matrix_functions(prog)
    touched = set()
    for f in fs:
        guard(rep, 'cache of ' + f, lambda: cache_rule(prog, rep, f, fs, touched))
    # caches elsewhere
    g = Sharing(prog)
    for k, b in prog.bodies.items():
        if b['crate'] != 'jester_sharing' or not locks(prog, b):
            continue
        root = k.split('::{closure')[0]
        if root not in fs and not any(root.startswith(f + '::') for f in fs) and k not in touched:
            rep.unknown('cache used in ' + k, 'not one of the matrix entry functions')


def guard_type(s):
    if s.startswith('&') or s.startswith('*') or 'Future' in s.split('<')[0]:
        return False
    head = s.split('<')[0].split('::')[-1]
    if head in ('MutexGuard', 'MappedMutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'OwnedMutexGuard'):
        return True
    return head in ('Option', 'Result', 'Box', 'LockResult') and 'Guard<' in s or s.startswith('(') and 'Guard<' in s


def lock_call(f, blocking=False):
    """a call that acquires a lock or runs an executor"""
    p = f.get('rpath', f['path'])
    n = re.sub('<.*?>', '', p).split('::')[-1]
    if n == 'block_on':
        return True
    return n in ('lock', 'read', 'write') and ('Mutex' in p or 'RwLock' in p) and \
        (not blocking or 'std::sync' in p or 'parking_lot' in p)


def locks(prog, b):
    return [(bi, f) for bi, tm, f in prog.calls(b) if lock_call(f)]


def guards(prog, rep):
    n = m = 0
    for k, b in prog.bodies.items():
        types = prog.crates[b['crate']].types
        gl = {i for i, l in enumerate(b['locals']) if guard_type(types[l]['s'])}
        if b['coroutine'] and any(guard_type(types[u]['s']) for u in types[b['locals'][1]].get('upvars', ())):
            rep.unknown('guards in ' + k, 'a lock guard is captured by a task')
        ys = [i for i, bb in enumerate(b['blocks']) if bb['t'][0] == 'yield' and not bb['c']]
        n += len(ys)
        if not gl:
            continue
        m += 1
        bad = live_guards(prog, b, gl)
        for i, l, why in bad:
            sp = b['blocks'][i]['t'][-1]
            rep.violation('%s:%s' % (k, why), '%s holds the lock guard _%d (%s) while %s at %s' % (
                k, l, types[b['locals'][l]]['s'].split('<')[0], why, sp))
        if not bad:
            for i in ys:
                rep.ok('no guard at the suspension in %s block %d' % (k, i))
            rep.ok('no lock acquired under a guard in ' + k)
    rep.facts.update(suspension_points=n, bodies_with_guards=m)


def moved_locals(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'mv' and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
            if not x[1][1]:
                out.add(x[1][0])
            else:
                out.add((x[1][0],))
            return
        for y in x:
            moved_locals(y, out)


def live_guards(prog, b, gl):
    """[(block, local, what happens there)]"""
    argl = {i for i in gl if 1 <= i <= b['argc'] and not b['coroutine']}
    entry = {0: frozenset(argl)}
    todo, bad = [0], set()
    while todo:
        i = todo.pop()
        live = set(entry[i])
        bb = b['blocks'][i]
        if bb['c']:
            continue

        def consume(x):
            mv = set()
            moved_locals(x, mv)
            for l in mv:
                # moving the payload out of an Option or tuple takes the guard along
                live.discard(l[0] if isinstance(l, tuple) else l)
        for s in bb['s']:
            if s[0] == '=':
                consume(s[2])
                l, proj = s[1]
                if l in gl and not empty_variant(s[2]):
                    live.add(l)
                elif l in gl and not proj:
                    live.discard(l)
            elif s[0] == 'dead':
                live.discard(s[1])
        tm = bb['t']
        k = tm[0]
        nxt = []
        if k == 'goto':
            nxt = [tm[1]]
        elif k == 'sw':
            nxt = [x[1] for x in tm[2]] + [tm[3]]
        elif k == 'call':
            consume(tm[2])
            f = tm[1][1].get('fn') if tm[1][0] == 'c' else None
            if f is not None:
                q = f.get('rkey', f['key'])
                if lock_call(f, True) or q in prog.bodies and not prog.bodies[q]['coroutine'] and blocking(prog, q):
                    for l in live:
                        bad.add((i, l, 'a call may wait for a lock'))
            if tm[3][0] in gl:
                live.add(tm[3][0])
            if tm[4] is not None:
                nxt = [tm[4]]
        elif k == 'drop':
            if not tm[1][1]:
                live.discard(tm[1][0])
            nxt = [tm[2]]
        elif k == 'assert':
            nxt = [tm[4]]
        elif k == 'yield':
            for l in live:
                bad.add((i, l, 'the task is suspended'))
            nxt = [tm[2]]
        for j in nxt:
            old = entry.get(j)
            new = frozenset(live) if old is None else old | live
            if old is None or new != old:
                entry[j] = new
                todo.append(j)
    return sorted(bad)


def empty_variant(rv):
    return rv[0] == 'agg' and not rv[2]


def blocking(prog, q):
    """a synchronous function that acquires a blocking lock or runs an executor"""
    seen, todo = set(), [q]
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.bodies or prog.bodies[k]['coroutine']:
            continue
        seen.add(k)
        for bi, f in locks(prog, prog.bodies[k]):
            if lock_call(f, True):
                return True
        for bi, tm, f in prog.calls(prog.bodies[k]):
            todo.append(f.get('rkey', f['key']))
    return False


def cache_rule(prog, rep, f, fs, touched):
    g = Sharing(prog)
    I, st = g.I, State()
    make_opaque(I, fs)
    g.caching = {'gets': [], 'puts': []}
    r, c = A(t.sym('row', 'isize')), A(t.sym('column', 'isize'))
    for x in (r, c):
        st.assume(t.ge0(t.sub(C(2 ** 40), x)), True)
        st.assume(t.ge0(t.add(x, t.ONE)), True)
    st.assume(t.ge0(c), True)
    what = f.split('::')[-1]
    ends = [(s, I.fe(s, I.mget(s, v))) for s, v in g.drive(f, [r, c], st)]
    if not ends:
        rep.violation(f, what + ' never returns')
    if not g.caching['gets'] and not g.caching['puts']:
        rep.ok(what + ' uses no cache')
        return
    comps = lambda key: list(key.a[2]) if isinstance(key, T) and key.op == 'E' else [key]
    puts, gets = g.caching['puts'], g.caching['gets']
    for base, key in [(b, k) for b, k, _, _ in puts] + gets:
        typed = 'param' in repr(base.a[1]) and "'T'" in repr(base.a[1])
        decide_bool(rep, typed, what + ': the map is chosen by the field', f, '%s, whose cache is looked up by the type %s for every field' % (f, t.show(base, 5)))
    # what is stored is what is returned, where it is stored
    for s, v in ends:
        hits = deep_atoms(v, lambda a: a.op == 'cached')
        held = [a for a in s.bf if isinstance(a, T) and a.op == 'bsym' and a.a[0] == 'hit' and s.bf[a] is True]
        mine = [(b, k, pv) for b, k, pv, ps in puts if compatible(ps, s)]
        if t.as_atom(v) is not None and t.as_atom(v).op == 'cached':
            b, k = t.as_atom(v).a[:2]
            rep.ok(what + ': a hit is returned as it is')
            for pb, pk, pv, ps in puts:
                if pb is b:
                    alike(rep, I, s, f, what, comps(k), comps(pk))
            if not any(pb is b for pb, pk, pv, ps in puts):
                rep.ok(what + ': nothing else is stored there')
            continue
        if hits or held:
            rep.violation(f, '%s: %s returns %s after finding an entry' % (what, f, brief(v)))
            continue
        for b, k, pv in mine:
            proved(rep, I, s, what + ': the value stored is the one returned', I.fe(s, I.mget(s, pv)), v) if \
                not differs(s, I.fe(s, I.mget(s, pv)), v) else rep.violation(
                    f, '%s: %s stores %s but returns %s' % (what, f, brief(I.mget(s, pv)), brief(v)))
            # the key determines the value
            m = {r: A(t.sym('row2', 'isize')), c: A(t.sym('column2', 'isize'))}
            solved = [x for x in (r, c) if any(y is x for y in comps(k))]
            m = {t.as_atom(x): y for x, y in m.items() if x not in solved}
            z = State()
            ok = True
            for fa in s.pc:
                for p in (fa[1], t.subst(fa[1], m)):
                    cond = {'ge': t.ge0, 'eq': t.eq0, 'ne': lambda x: t.bnot_(t.eq0(x))}[fa[0]](p)
                    ok = ok and z.assume(cond, True)
            for x in comps(k):
                ok = ok and z.assume(t.eq0(t.sub(x, t.subst(x, m))), True)
            if not ok:
                continue
            w = t.subst(v, m) if m else v
            same_v = w is v or prove.equal(I, z, v, w)
            free = [x for x in (r, c) if t.as_atom(x) in t.free_syms(v)]
            fixed = set().union(*[t.free_syms(x) for x in comps(k)]) if comps(k) else set()
            lost = [x for x in free if t.as_atom(x) not in fixed]
            if same_v:
                rep.ok(what + ': the key determines the stored value')
            elif lost or differs(z, v, w, True):
                rep.violation(f, '%s: %s stores %s under the key (%s), which other arguments share' % (
                    what, f, brief(v), ', '.join(brief(x) for x in comps(k))))
            else:
                rep.unknown(what + ': key', 'stored %s under (%s)' % (brief(v), ', '.join(brief(x) for x in comps(k))))
        rep.ok(what + ': a miss computes the value')
    touched.add(f)


def compatible(ps, s):
    """the put was made on the path to s"""
    return all(x in s.pc for x in ps.pc) and all(s.bf.get(k) == v for k, v in ps.bf.items())


def differs(s, a, b, field=True):
    if a is b or any(x.op == 'cached' for x in deep_atoms(a) | deep_atoms(b)):
        return False
    if deep_atoms(a, lambda x: x.op == 'pure') or deep_atoms(b, lambda x: x.op == 'pure'):
        return False
    return evalt.differ(s, [(a, b)], field=field)[0] is not None


def alike(rep, I, s, f, what, get, put):
    if len(get) == len(put) and all(prove.equal(I, s, a, b) for a, b in zip(get, put)):
        rep.ok(what + ': lookups use the key of insertion')
        return
    if len(get) != len(put) or any(evalt.differ(s, [(a, b)])[0] is not None for a, b in zip(get, put)):
        rep.violation(f, '%s: %s looks up (%s) but stores under (%s)' % (
            what, f, ', '.join(brief(x) for x in get), ', '.join(brief(x) for x in put)))
    else:
        rep.unknown(what + ': keys', 'not shown equal')
