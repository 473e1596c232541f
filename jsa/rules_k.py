"""H05, H06: HMAC and HKDF over an arbitrary block hash function."""
from . import terms as t, interp, prove, evalt
from .terms import mk, A, C, isp, const, T
from .interp import State, Unsupported, Split, Panic
from .rules_h import guard, compare, decide, panic_sites, U8, Fail

HASH = ('param', 'Hash')


class Generic:
    """an arbitrary implementation of the hash traits: a function of context and bytes"""

    def __init__(self, prog, L=None, B=None):
        self.p = prog
        self.I = I = interp.Interp(prog)
        self.L = A(t.sym('digest_len', 'usize')) if L is None else C(L)
        self.B = A(t.sym('block_len', 'usize')) if B is None else C(B)
        m = I.models
        for names, f in ((('HashFunction::digest_message',), self.digest_message),
                         (('HashFunction::init_hash',), self.init),
                         (('HashFunction::update_hash',), self.update),
                         (('HashFunction::finish_hash',), self.finish),
                         (('HashValue::raw',), self.raw),
                         (('BlockHashFunction::block_size',), lambda I, st, a, ci: self.size(ci, self.B)),
                         (('BlockHashFunction::output_size',), lambda I, st, a, ci: self.size(ci, self.L))):
            for n in names:
                m[n] = f

    def mine(self, ci):
        return ci.targs and ci.targs[0][0] in ('param', 'alias')

    def size(self, ci, v):
        return v if self.mine(ci) else NotImplemented

    def bytes(self, msg):
        return mk('seq', (mk('sub', mk('dig', msg, U8), t.ZERO, self.L),))

    def H(self, msg):
        return self.bytes(msg)

    def seq(self, I, st, v):
        from .models import seqv
        return seqv(I, st, v)

    def digest_message(self, I, st, a, ci):
        if not self.mine(ci):
            return NotImplemented
        return mk('E', 'DIGEST', 0, (self.bytes(self.seq(I, st, a[1])),))

    def init(self, I, st, a, ci):
        return mk('E', 'HSTATE', 0, (t.EMPTY,)) if self.mine(ci) else NotImplemented

    def update(self, I, st, a, ci):
        if not self.mine(ci):
            return NotImplemented
        cur = I.mget(st, a[0])
        I.mset(st, a[0], mk('E', 'HSTATE', 0, (t.cat(cur.a[2][0], self.seq(I, st, a[2])),)))
        return interp.UNIT

    def finish(self, I, st, a, ci):
        if not self.mine(ci):
            return NotImplemented
        return mk('E', 'DIGEST', 0, (self.bytes(I.mget(st, a[0]).a[2][0]),))

    def raw(self, I, st, a, ci):
        v = a[0]
        if isinstance(v, T) and v.op == 'mref':
            v = I.mget(st, v)
        if not (isinstance(v, T) and v.op == 'E' and v.a[0] == 'DIGEST'):
            return NotImplemented
        return v.a[2][0]

    def state(self):
        st = State()
        for f in (t.ge0(t.sub(self.L, t.ONE)), t.ge0(t.sub(self.B, self.L)), t.ge0(t.sub(C(2 ** 20), self.B))):
            st.assume(f, True)
        return st

    # ---- references
    def xorpad(self, I, k0, pad):
        """k0: list of segments, elementwise xor with a constant"""
        out = []
        for g in k0.a[0]:
            n = t.seglen(g)
            if g.op == 'fill':
                out.append(t.fill(t.bxor(g.a[0], C(pad), 8), n))
            elif g.op == 'lit':
                out.append(t.lit(tuple(t.bxor(x, C(pad), 8) for x in g.a[0])))
            else:
                j = t.fresh('k', 'nat')
                out.append(t.comp(j, n, t.bxor(I.elem_of(g.a[0], t.add(g.a[1], A(j))), C(pad), 8)))
        return t.cat(*out)

    def hmac(self, I, k0, msg):
        inner = self.H(t.cat(self.xorpad(I, k0, 0x36), msg))
        return self.H(t.cat(self.xorpad(I, k0, 0x5c), inner))


def fn_key(prog, path):
    for k, it in prog.items.items():
        if it.get('path') == path or k == path:
            return k
    return None


def hmac_key(prog):
    k = 'jester_hashes::hmac::hmac'
    if k not in prog.bodies:
        raise Fail('hmac')
    return k


def check_H05(prog, rep):
    rep.rule = ('hmac is summarised for an arbitrary implementation of the hash traits (digest_message an opaque function of '
                'the bytes, digests of at most a block, arbitrary block size), key and message; in each case of the key '
                'length the returned bytes must be the term RFC 2104 prescribes, and no panic may be reachable.')
    k = 'jester_hashes::hmac::hmac'
    if k not in prog.bodies:
        rep.violation('anchor', 'the public function hmac is missing')
        return

    def one():
        g = Generic(prog)
        I = g.I
        K = t.whole(mk('base', 'key', U8))
        M = t.whole(mk('base', 'message', U8))
        kl = t.slen(K)
        ctx = mk('opq', 'ctx', ('param', 'Context'))
        cases = (('key shorter than a block', [t.ge0(t.sub(t.sub(g.B, kl), t.ONE))], t.cat(K, t.fill(t.ZERO, t.sub(g.B, kl)))),
                 ('key of exactly a block', [t.eq0(t.sub(g.B, kl))], K),
                 ('key longer than a block', [t.ge0(t.sub(t.sub(kl, g.B), t.ONE))],
                  t.cat(g.H(K), t.fill(t.ZERO, t.sub(g.B, g.L)))))
        for label, facts, k0 in cases:
            st = g.state()
            total_limit(st, kl, t.slen(M))
            for f in facts:
                st.assume(f, True)
            I.panics, I.proved = [], []
            n = 0
            for s, v in I.run(k, [ctx, K, M], st, env(prog, k)):
                n += 1
                compare(rep, I, s, 'hmac', 'hmac, %s (path %d)' % (label, n), v, g.hmac(I, k0, M), k)
            panic_sites(rep, I, 'hmac', 'hmac, ' + label)
            if not n:
                rep.violation('hmac', 'hmac never returns for a %s' % label)
    guard(rep, 'hmac', one)
    if rep.undecided:
        # what the general summary leaves open is looked at for given sizes, any bytes and any message
        for L, B, kl in ((2, 8, 0), (2, 8, 3), (2, 8, 8), (2, 8, 9), (2, 8, 11), (3, 6, 5), (3, 6, 7), (1, 5, 1), (1, 5, 6), (3, 16, 10)):
            def given():
                g = Generic(prog, L, B)
                I = g.I
                K = t.lit(tuple(A(t.sym('key%d' % i, 'u8')) for i in range(kl)))
                M = t.whole(mk('base', 'message', U8))
                k0 = I.expand(st0(g), t.cat(g.H(K) if kl > B else K, t.fill(t.ZERO, C(B - (L if kl > B else kl)))))
                st = st0(g)
                total_limit(st, t.slen(M))
                what = 'hmac, digests of %d bytes, blocks of %d, a key of %d' % (L, B, kl)
                I.panics, I.proved = [], []
                rs = I.run(k, [mk('opq', 'ctx', ('param', 'Context')), K, M], st, env(prog, k))
                for s, v in rs:
                    compare(rep, I, s, 'hmac', what, flat(I, s, g.seq(I, s, v)), flat(I, s, given_hmac(g, I, s, k0, M)), k)
                panic_sites(rep, I, 'hmac', what)
                if not rs:
                    rep.violation('hmac', what + ' never returns')
            guard(rep, 'hmac for given sizes', given)
    rep.facts['functions'] = [k]


def flat(I, st, x):
    return I.expand(st, x)


def given_hmac(g, I, st, k0, M):
    inner = I.expand(st, t.cat(g.xorpad(I, k0, 0x36), M))
    return g.H(I.expand(st, t.cat(g.xorpad(I, k0, 0x5c), I.expand(st, g.H(inner)))))


def st0(g):
    return g.state()


def total_limit(st, *ns):
    for n in ns:
        st.assume(t.ge0(t.sub(C(2 ** 60), n)), True)


def env(prog, k):
    return {g: ('param', g) for g in prog.bodies[k]['generics']}


def check_H06(prog, rep):
    rep.rule = ('hkdf_derive_key is summarised for an arbitrary hash (hmac itself opaque), salt, input, info and length; the '
                'result must be the first output_length bytes of the recurrence of RFC 5869, and no returning path may admit '
                'more than 255 digests.')
    k = 'jester_hashes::kdf::hkdf_derive_key'
    hm = 'jester_hashes::hmac::hmac'
    if k not in prog.bodies:
        rep.violation('anchor', 'the public function hkdf_derive_key is missing')
        return

    def one(blocks=None):
        g = Generic(prog)
        I = g.I

        def mac(I_, st, a, ci):
            if not (ci.targs and ci.targs[0][0] == 'param'):
                raise Unsupported('hmac over a fixed hash')
            return HM(g.seq(I_, st, a[1]), g.seq(I_, st, a[2]))

        def HM(key, msg):
            return mk('seq', (mk('sub', mk('dig', key, U8, msg), t.ZERO, g.L),))
        I.opaque_fns[hm] = mac
        salt, ikm, info = [t.whole(mk('base', n, U8)) for n in ('salt', 'ikm', 'info')]
        N = A(t.sym('output_length', 'usize')) if blocks is None else t.scale(g.L, blocks)
        label = 'hkdf_derive_key' if blocks is None else 'hkdf_derive_key for %d digests' % blocks
        ctx = mk('opq', 'ctx', ('param', 'Context'))
        prk = HM(salt, ikm)
        st = g.state()
        total_limit(st, *[t.slen(x) for x in (salt, ikm, info)])
        I.panics, I.proved = [], []
        n = 0
        body = prog.bodies[k]
        order = [l for l in body['names']] if False else None
        for s, v in I.run(k, [ctx, salt, ikm, N, info], st, env(prog, k)):
            n += 1
            what = label + ' (path %d)' % n
            decide(rep, s, t.ge0(t.sub(t.scale(g.L, 255), N)), what + ': at most 255 digests', 'hkdf:limit', k)
            compare(rep, I, s, 'hkdf:length', what + ': exact length', t.slen(v), N, k)
            # the reference: T(j+1) for j < m, m blocks
            j = t.fresh('k', 'nat')
            acc = t.fresh('v', 'any')
            kk = t.fresh('k', 'nat')
            step = HM(prk, t.cat(t.whole(acc), info, t.lit((t.add(A(kk), t.ONE),))))
            prev = t.iter_term(kk, acc, A(j), t.EMPTY, step)
            tj = HM(prk, t.cat(t.whole(prev), info, t.lit((t.add(A(j), t.ONE),))))
            m = t.ceildiv(N, g.L)
            full = t.flat(j, m, tj)
            if not s.assume(t.ge0(t.sub(t.scale(g.L, 255), N)), True):
                continue
            try:
                for z, want in cut_all(I, s, full, N):
                    compare(rep, I, z, 'hkdf:bytes', what + ': bytes', v, want, k)
            except (Unsupported, Split, Panic) as e:
                rep.unknown(what + ': bytes', str(e)[:200])
        if not n:
            rep.violation('hkdf', label + ' never returns')
        if blocks is not None:
            return
        # within the limit it does not panic
        g2 = State()
        I.panics, I.proved = [], []
        st = g.state()
        total_limit(st, *[t.slen(x) for x in (salt, ikm, info)])
        st.assume(t.ge0(t.sub(t.scale(g.L, 255), N)), True)
        I.run(k, [ctx, salt, ikm, N, info], st, env(prog, k))
        panic_sites(rep, I, 'hkdf', 'hkdf_derive_key up to 255 digests')
    guard(rep, 'hkdf_derive_key', one)
    if rep.undecided:
        # what the general summary leaves open is looked at for fixed numbers of digests
        for b in (1, 2, 3, 4):
            guard(rep, 'hkdf_derive_key for %d digests' % b, lambda: one(b))
        if rep.undecided:
            given_hkdf(prog, rep, k, hm)
    rep.facts['functions'] = [k]


def given_hkdf(prog, rep, k, hm):
    """given sizes, any salt, input, info"""
    for L, N in ((4, 0), (4, 1), (4, 4), (4, 5), (4, 11), (4, 16), (3, 14), (1, 3), (1, 256), (2, 511)):
        def given():
            g = Generic(prog, L, 8)
            I = g.I

            def HM(key, msg):
                return mk('seq', (mk('sub', mk('dig', key, U8, msg), t.ZERO, g.L),))
            I.opaque_fns[hm] = lambda I_, st, a, ci: HM(I_.expand(st, g.seq(I_, st, a[1])), I_.expand(st, g.seq(I_, st, a[2])))
            salt, ikm, info = [t.whole(mk('base', n, U8)) for n in ('salt', 'ikm', 'info')]
            st = g.state()
            total_limit(st, *[t.slen(x) for x in (salt, ikm, info)])
            what = 'hkdf_derive_key, digests of %d bytes, %d bytes wanted' % (L, N)
            I.panics, I.proved = [], []
            rs = I.run(k, [mk('opq', 'ctx', ('param', 'Context')), salt, ikm, C(N), info], st, env(prog, k))
            if N > 255 * L:
                if rs:
                    rep.violation('hkdf:limit', what + ': more than 255 digests are given out')
                else:
                    rep.ok(what + ': refused')
                return
            prk = I.expand(st, HM(salt, ikm))
            want, prev = [], t.EMPTY
            for i in range(-(-N // L)):
                prev = I.expand(st, HM(prk, I.expand(st, t.cat(prev, info, t.lit((C(i + 1),))))))
                want.append(prev)
            want = t.cat(*want)
            for s, v in rs:
                w = I.expand(s, I.slice(s, want, t.ZERO, C(N))) if N else t.EMPTY
                compare(rep, I, s, 'hkdf:bytes', what, I.expand(s, g.seq(I, s, v)), w, k)
            panic_sites(rep, I, 'hkdf', what)
            if not rs:
                rep.violation('hkdf', what + ' never returns')
        guard(rep, 'hkdf_derive_key for given sizes', given)


def cut_all(I, s, x, n):
    """the first n bytes of x, by whether n is the whole length"""
    from .models import trunc
    out = []
    whole = t.ge0(t.sub(n, t.slen(x)))
    for z in I.fork(s.copy(), whole):
        out.append((z, x if z.decide(whole) is True else trunc(I, z, x, n)))
    return out
