"""Double ratchet: D01-D08.

The Diffie-Hellman scheme, the cipher and both key derivations are arbitrary: uninterpreted functions of their inputs.
A message chain is (origin, position); its message keys are (origin, number).  Keys exchanged are values with equality.
A session is an arbitrary one satisfying the invariant below, which the two ways of establishing one must create and
every operation must preserve:

    received key R, own pair, root and sending chain (C, n) present, n the sending counter;
    receiving chain (chain of R, m) with m the receiving counter, or none, then m = 0 and no kept keys;
    a key kept for (K, i) is message key i of the chain of K, and i < m if K is R.
"""
from . import terms as t, interp, prove, evalt
from .terms import mk, A, C, isp, const, T
from .interp import State, Unsupported, Split, Panic, NONE, UNIT
from .rules_h import guard, compare, decide, panic_sites, brief, unknowns, U8
from .models import val, seqv, some, is_some, map_put, map_get
from .loops import tsubst, contains

CRATE = 'jester_double_ratchet'
PROTO = CRATE + '::DoubleRatchetProtocol'
LIMIT = 1000                # MAX_SKIPPED_MESSAGES
WORK = 1 << 16              # what one message may cost, whatever the limit
ROLES = {
    'gen': ('K', 'diffie_hellman_generator'), 'own': ('K', 'diffie_hellman_public_key'),
    'priv': ('V', 'diffie_hellman_private_key'), 'recvd': ('K', 'diffie_hellman_received_key'),
    'root': ('R', 'root_chain_key'), 'send': ('M', 'sending_chain_key'), 'recv': ('M', 'receiving_chain_key'),
    'sl': ('n', 'sending_chain_length'), 'rl': ('n', 'receiving_chain_length'),
    'psl': ('n', 'previous_sending_chain_length'), 'prl': ('n', 'previous_receiving_chain_length'),
    'kept': ('map', 'missed_messages'),
}
MSGROLES = {'pk': ('K', 'public_key'), 'num': ('n', 'message_number'), 'prev': ('n', 'previous_chain_length'),
            'body': ('C', 'message')}
OPTION = 'core::option::Option'


def chain(origin, pos):
    return mk('E', 'chain', 0, (origin, pos))


def mkey(origin, pos):
    return mk('E', 'message key', 0, (origin, pos))


def key(n):
    return A(t.sym(n, 'any'))


def kdf_root(root, dh):
    return mk('E', 'root key', 0, (root, dh)), chain(mk('E', 'origin', 0, (root, dh)), t.ZERO)


def dh(priv, pub):
    return mk('E', 'shared', 0, (priv, pub))


def pair(gen, i):
    return mk('E', 'private', 0, (gen, i)), A(mk('app', 'public', gen, i, 'any'))


def origin_of(k):
    return mk('E', 'chain of', 0, (k,))


def isinput(c):
    return isinstance(c, T) and c.op == 'opq' and str(c.a[0]).startswith('const:') and str(c.a[0]).endswith('INPUT')


class Missing(Exception):
    pass


class Ratchet:
    def __init__(self, prog):
        self.p = prog
        self.I = I = interp.Interp(prog)
        adt = prog.adts.get(PROTO)
        msg = [k for k, a in prog.adts.items() if k.startswith(CRATE) and a['kind'] == 'struct' and k.endswith('Message')]
        if adt is None or len(msg) != 1:
            raise Missing('the protocol or its message type')
        self.msgkey = msg[0]
        g = adt['generics']
        if len(g) != 11:
            raise Unsupported('type parameters of the protocol')
        (self.DH, self.ENC, self.ROOT, self.MSG, self.K, self.V, self.SH, self.RK, self.CK, self.MK, _) = [('param', x) for x in g]
        self.kind = {self.K: 'K', self.V: 'V', self.RK: 'R', self.CK: 'M', self.MK: 'key'}
        m = I.models
        m['DiffieHellmanKeyExchangeScheme::generate_asymmetrical_key_pair'] = self.generate
        m['DiffieHellmanKeyExchangeScheme::generate_shared_secret'] = lambda I_, st, a, ci: dh(val(I, st, a[0]), val(I, st, a[1]))
        m['KeyDerivationFunction::derive_key'] = self.derive
        m['ConstantInputKeyRatchet::derive_key_without_input'] = self.step
        m['SymmetricalEncryptionScheme::encrypt_message'] = lambda I_, st, a, ci: self.cipher('enc', st, a)
        m['SymmetricalEncryptionScheme::decrypt_message'] = lambda I_, st, a, ci: self.cipher('dec', st, a)
        m['HashMap::insert'] = self.insert
        m['mapbase'] = self.lookup
        m['maprange'] = self.within
        m['elem'] = self.elem
        old = I.symbolic
        I.symbolic = lambda ty, name: key(name) if ty == self.K else old(ty, name)
        self.extra = []
        self.fresh = None
        self.strange = None
        try:
            self.paths = self.roles(PROTO, adt, ROLES)
        except Unsupported as e:
            self.paths, self.strange = None, str(e)
        madt = prog.adts[self.msgkey]
        self.mpaths = self.roles(self.msgkey, madt, MSGROLES, {madt['generics'][0]: self.K, madt['generics'][1]: ('adt', 'alloc::vec::Vec', (('uint', 'u8'),))})
        self.work = None

    # ---------------------------------------------------------------- shape of the session and of messages
    def leaves(self, adtkey, tenv, path, name):
        adt = self.p.adts[adtkey]
        for i, f in enumerate(adt['variants'][0]['fields']):
            ty = self.I.rty(adt['crate'], f['ty'], tenv)
            n, p = f['name'], path + (i,)
            sub = self.p.adts.get(ty[1]) if ty[0] == 'adt' else None
            if ty[0] == 'adt' and ty[1].endswith('PhantomData'):
                continue
            if sub and sub['kind'] == 'struct' and ty[1].startswith(CRATE):
                yield from self.leaves(ty[1], dict(zip(sub['generics'], ty[2])), p, n)
                continue
            yield p, n, ty

    def classify(self, ty):
        opt = False
        if ty[0] == 'adt' and ty[1].endswith('Option'):
            opt, ty = True, ty[2][0]
        if ty[0] == 'uint':
            return 'n', opt, ty
        if ty[0] == 'adt' and ty[1].endswith('HashMap'):
            return 'map', opt, ty
        if ty[0] == 'adt' and ty[1].endswith('Vec'):
            return 'C', opt, ty
        return self.kind.get(ty, '?'), opt, ty

    def roles(self, adtkey, adt, wanted, tenv=None):
        """which leaf plays which role: by kind, ambiguities by name"""
        ls = [(p, n, self.classify(ty)) for p, n, ty in self.leaves(adtkey, tenv or {x: ('param', x) for x in adt['generics']}, (), '')]
        out = {}
        taken = set()
        for r, (k, n) in wanted.items():
            c = [l for l in ls if l[2][0] == k and l[1] == n]
            if len(c) == 1:
                out[r] = (c[0][0], c[0][2][1])
                taken.add(c[0][0])
        for r, (k, n) in wanted.items():
            if r in out:
                continue
            c = [l for l in ls if l[2][0] == k and l[0] not in taken]
            others = [q for q, (k2, _) in wanted.items() if k2 == k and q not in out]
            if len(c) == 1 and len(others) == 1:
                out[r] = (c[0][0], c[0][2][1])
                taken.add(c[0][0])
        for r in wanted:
            if r not in out and r not in ('prl',):
                raise Unsupported('the part of the state playing the role of %s is not recognised' % wanted[r][1])
        self.extra += [n for p, n, c in ls if p not in taken]
        return out

    def build(self, adtkey, tenv, path, paths, values):
        adt = self.p.adts[adtkey]
        fs = []
        where = {p: (r, o) for r, (p, o) in paths.items()}
        for i, f in enumerate(adt['variants'][0]['fields']):
            ty = self.I.rty(adt['crate'], f['ty'], tenv)
            p = path + (i,)
            if p in where:
                r, o = where[p]
                v = values[r]
                if o and v is not NONE and not (v.op == 'opq' and v.a[1][0] == 'adt' and v.a[1][1] == OPTION):
                    v = some(v)
                fs.append(v)
                continue
            sub = self.p.adts.get(ty[1]) if ty[0] == 'adt' else None
            if sub and sub['kind'] == 'struct' and ty[1].startswith(CRATE):
                fs.append(self.build(ty[1], dict(zip(sub['generics'], ty[2])), p, paths, values))
            elif ty[0] == 'adt' and ty[1].endswith('PhantomData'):
                fs.append(mk('E', ty[1], 0, ()))
            else:
                fs.append(self.I.symbolic(ty, f['name']))
        return mk('E', adtkey, 0, tuple(fs))

    def read(self, st, v, paths):
        """role -> value; the contents of options that are there, NONE otherwise"""
        out = {}
        for r, (p, o) in paths.items():
            x = self.I.mget(st, v)
            for i in p:
                x = self.I.open(st, self.I.mget(st, x)).a[2][i]
            x = self.I.mget(st, x)
            if o:
                x = self.I.open(st, x)
                x = x.a[2][0] if is_some(x) else NONE
            if isinstance(x, T) and x.op != 'map':
                x = self.I.expand(st, x)
            out[r] = x
        return out

    # ---------------------------------------------------------------- models
    def elem(self, I, base, idx, ety):
        if ety == self.K:
            return A(mk('at', base, idx, 'any'))
        return None

    def count(self, st):
        if self.work is not None:
            self.I.mset(st, self.work, t.add(self.I.mget(st, self.work), t.ONE))

    def generate(self, I, st, a, ci):
        r = I.mget(st, a[0])
        if r.op != 'E' or not r.a[0].startswith('rng:'):
            raise Unsupported('generator')
        i = r.a[2][0]
        I.mset(st, a[0], mk('E', r.a[0], 0, (t.add(i, t.ONE),)))
        return mk('E', '()', 0, pair(val(I, st, a[1]), i))

    def derive(self, I, st, a, ci):
        if ci.targs[0] == self.MSG:
            c = val(I, st, a[1])
            if isinput(c):
                return self.step(I, st, a, ci)
            raise Unsupported('message key derivation with another input')
        self.count(st)
        r, c = kdf_root(val(I, st, a[0]), val(I, st, a[1]))
        return mk('E', '()', 0, (r, c))

    def step(self, I, st, a, ci):
        self.count(st)
        c = val(I, st, a[0])
        if c.op != 'E' or c.a[0] != 'chain':
            raise Unsupported('chain key %s' % t.show(c, 2))
        o, n = c.a[2]
        return mk('E', '()', 0, (chain(o, t.add(n, t.ONE)), mkey(o, n)))

    def cipher(self, what, st, a):
        return t.whole(mk('base', mk('app', what, val(self.I, st, a[0]), seqv(self.I, st, a[1])), U8))

    def insert(self, I, st, a, ci):
        I.mset(st, a[0], map_put(val(I, st, a[0]), val(I, st, a[1]), some(a[2])))
        return mk('unk', 'old')

    def lookup(self, I, st, base, k):
        """what the arbitrary session keeps under a key"""
        pk, n = I.open(st, k).a[2]
        pk = val(I, st, pk)
        if not isp(pk) or not isp(n):
            raise Unsupported('kept under ' + t.show(k, 2))
        cur = st.need(t.eq0(t.sub(pk, key('R'))))
        if cur:
            if st.need(t.ge0(t.sub(n, A(t.sym('rl', 'usize'))))):
                return NONE
            pk = key('R')
        if st.decide(t.eq0(A(t.sym('entries of %s' % t.show(base), 'len')))) is True:
            return NONE
        if self.fresh is not None and pk is not key('R') and st.need(t.eq0(t.sub(pk, self.fresh))):
            return NONE                 # a new key: nothing is kept under it
        there = mk('bsym', 'kept(%s,%s)' % (t.show(pk), t.show(n)))
        if not st.need(there):
            return NONE
        st.assume(t.ge0(t.sub(A(t.sym('entries of %s' % t.show(base), 'len')), t.ONE)), True)
        return some(mkey(origin_of(pk), n))

    def within(self, I, st, g, k):
        """what a run of updates with consecutive numbers holds under a key"""
        b = mk('bv', g.a[0])
        segs = g.a[2].a[0]
        if len(segs) != 1 or segs[0].op != 'lit' or len(segs[0].a[0]) != 1:
            return None
        i = t.fresh('i', 'nat')
        e = tsubst(segs[0].a[0][0], {b: A(i)})
        if e.a[0] == 'retain':
            return None
        (pk, n), v = I.open(st, e.a[2][0]).a[2], e.a[2][1]
        qk, q = I.open(st, k).a[2]
        co = dict(n.a[0]).get((i,), 0) if isp(n) else 0
        if isp(n) and not contains(n, i) and not contains(pk, i):
            # one key all the time: the last update counts
            if not st.need(t.ge0(t.sub(g.a[1], t.ONE))) or not st.need(I.equal(st, pk, qk)) or not st.need(t.eq0(t.sub(n, q))):
                return NONE
            return tsubst(v, {i: t.sub(g.a[1], t.ONE)})
        rest = t.sub(n, t.scale(A(i), co)) if co in (1, -1) else None
        if rest is None or contains(rest, i) or contains(pk, i):
            return None
        if not st.need(I.equal(st, pk, qk)):
            return NONE
        at = t.scale(t.sub(q, rest), co)
        if not st.need(t.ge0(at)) or not st.need(t.ge0(t.sub(t.sub(g.a[1], at), t.ONE))):
            return NONE
        return tsubst(v, {i: at})

    # ---------------------------------------------------------------- sessions
    def session(self, st, replied):
        """an arbitrary established session; replied: it has a receiving chain"""
        v = dict(gen=key('generator'), own=key('own key'), priv=mk('E', 'private', 0, (mk('opq', 'own', self.V),)),
                 recvd=key('R'), root=mk('opq', 'root', self.RK))
        for n in ('sl', 'rl', 'psl', 'prl'):
            v[n] = A(t.sym(n, 'usize'))
            st.assume(t.ge0(t.sub(C(2 ** 62), v[n])), True)
        v['send'] = chain(mk('opq', 'sending', self.CK), v['sl'])
        if replied:
            v['recv'] = chain(origin_of(key('R')), v['rl'])
            v['kept'] = mk('map', mk('base', 'kept', ('entry',)), t.EMPTY)
        else:
            v['rl'] = v['psl'] = v['prl'] = t.ZERO
            v['recv'] = NONE
            v['kept'] = mk('map', mk('empty'), t.EMPTY)
        return v

    def env(self, k):
        return {g: ('param', g) for g in self.p.bodies[k]['generics']}

    def fn(self, name):
        ks = [k for k, b in self.p.bodies.items() if k.startswith(CRATE + '::') and k.split('::')[-1] == name and b['kind'] == 'AssocFn']
        if len(ks) != 1:
            raise Missing(name)
        return ks[0]

    def message(self, st, body=None):
        v = dict(pk=key('message key'), num=A(t.sym('number', 'usize')), prev=A(t.sym('previous', 'usize')),
                 body=mk('opq', 'body', ('adt', OPTION, (('adt', 'alloc::vec::Vec', (('uint', 'u8'),)),))) if body is None else body)
        return v, self.message_of(v)

    def message_of(self, v):
        m = self.p.adts[self.msgkey]
        te = {m['generics'][0]: self.K, m['generics'][1]: ('adt', 'alloc::vec::Vec', (('uint', 'u8'),))}
        return self.build(self.msgkey, te, (), self.mpaths, v)

    def make(self, v):
        return self.build(PROTO, {x: ('param', x) for x in self.p.adts[PROTO]['generics']}, (), self.paths, v)

    def run(self, name, args, st):
        k = self.fn(name)
        self.I.panics, self.I.proved = [], []
        self.work = self.I.alloc(st, t.ZERO, 'work')
        return k, self.I.run(k, args, st, self.env(k))

    def rng(self, st):
        return self.I.alloc(st, mk('E', 'rng:r', 0, (t.ZERO,)), 'rng')


class Lenient:
    """a report that raises nothing: the session has state whose meaning is not known"""
    def __init__(self, rep):
        self.rep = rep

    def __getattr__(self, n):
        return getattr(self.rep, n)

    def violation(self, key_, text):
        self.rep.unknown(key_, 'state of unknown meaning: ' + text[:300])


def ratchet(prog, rep):
    try:
        r = Ratchet(prog)
    except Missing as e:
        rep.violation('anchor', 'missing: %s' % e)
        return None, rep
    except (Unsupported, KeyError, IndexError, ValueError) as e:
        rep.unknown('the session', str(e))
        return None, rep
    if r.strange:
        rep.unknown('sessions in general (they were followed from their establishment)', r.strange)
        follow(rep, r)
        return None, rep
    rep.facts['parts of the session recognised'] = sorted(r.paths)
    if r.extra:
        rep.notes.append('state of unknown meaning: ' + ', '.join(r.extra))
        follow(rep, r)
        return r, Lenient(rep)
    return r, rep


def follow(rep, r, seconds=80):
    from . import histories
    guard(rep, 'given histories', lambda: histories.judge(rep, r, rep.pid, seconds))


def splitting(I, s, f):
    """f on every case of s"""
    todo, out = [s], []
    while todo:
        z = todo.pop()
        c = z.copy()
        try:
            out.append((c, f(c)))
        except Split as e:
            todo += I.fork(z, e.cond)
    return out


# ---------------------------------------------------------------------------------------------- comparing sessions
NAMES = dict(gen='generator', own='own public key', priv='own private key', recvd='received key', root='root key',
             send='sending chain', recv='receiving chain', sl='sending counter', rl='receiving counter',
             psl='previous sending length', kept='kept keys')


def same_state(rep, R, s, what, key_, got, want, where, only=None, more=()):
    """the two states agree (on the parts that are ever read; more: on further ones)"""
    for r in tuple(NAMES) + tuple(more):
        if only and r not in only or r not in got:
            continue
        w = '%s: %s' % (what, NAMES.get(r, 'previous receiving length'))
        if r == 'kept':
            kept_rule(rep, R, s, key_, w, got[r], want[r], where)
            continue
        x, y = got[r], want[r]
        if (x is NONE) != (y is NONE):
            clash(rep, s, key_, '%s: %s leaves %s where %s is required' % (w, where, brief(x), brief(y)), w)
            continue
        compare(rep, R.I, s, key_, w, x, y, where)


def clash(rep, s, key_, text, what):
    """a definite difference of shape on a feasible path"""
    if not any(unknowns(f[1]) for f in s.pc):
        v = next(iter(evalt.valuations(s, [], tries=300, want=1)), None) or \
            next(iter(evalt.valuations(s, [], tries=300, want=1, big=True)), None)
        if v is not None:
            rep.violation(key_, text + ' (for instance when %s)' % (evalt.describe(v, s) or 'called at all'))
            return
    rep.unknown(what, text)


def kept_rule(rep, R, s, key_, what, got, want, where, loss=False):
    """two maps with the same base hold the same (with loss: whatever the second one holds the first one holds, too)"""
    if got is want:
        rep.ok(what)
        return
    try:
        if got.op == want.op == 'map' and got.a[0] is want.a[0] and prove.equal(R.I, s, got.a[1], want.a[1]):
            rep.ok(what)
            return
    except (Unsupported, Split, Panic):
        pass
    # what either holds under an arbitrary key
    q = mk('E', '()', 0, (key('some key'), A(t.sym('some number', 'usize'))))
    bad = False
    for z, (x, y) in splitting(R.I, s, lambda z: (R.I.open(z, map_get(R.I, z, got, q)), R.I.open(z, map_get(R.I, z, want, q)))):
        if loss and (is_some(x) or not is_some(y)):
            continue
        if is_some(x) != is_some(y):
            clash(rep, z, key_, '%s: under a key (some key, some number) %s keeps %s where %s is required' % (what, where, brief(x), brief(y)), what)
            bad = True
        elif is_some(x) and not compare(rep, R.I, z, key_, what, x.a[2][0], y.a[2][0], where):
            bad = True
    if not bad:
        rep.ok(what)


def kept_range(m, pk, origin, lo, n):
    """m with the keys number lo .. lo + n - 1 of a chain"""
    i = t.fresh('i', 'nat')
    e = mk('E', '()', 0, (mk('E', '()', 0, (pk, t.add(lo, A(i)))), some(mkey(origin, t.add(lo, A(i))))))
    return mk('map', m.a[0], t.cat(m.a[1], t.flat(i, n, t.lit((e,)))))


# ---------------------------------------------------------------------------------------------- receiving
INVALID, OUTOFORDER, UNKNOWN, PLAIN = 'invalid header', 'out of order', 'unknown header', 'plaintext'


def outcome(R, s, v):
    """(kind, plaintext)"""
    v = R.I.open(s, R.I.mget(s, v))
    if v.a[1] == 0:
        return PLAIN, R.I.mget(s, v.a[2][0])
    e = R.I.open(s, R.I.mget(s, v.a[2][0]))
    n = [x['name'] for x in R.p.adts[e.a[0]]['variants']][e.a[1]]
    if 'OutOfOrder' in n:
        return OUTOFORDER, R.I.mget(s, e.a[2][0])
    if 'Unknown' in n:
        return UNKNOWN, None
    return INVALID, None


def spec(R, v, m):
    """what receiving message m in session v must do: rule, {allowed outcome: (plaintext, session)}"""
    def f(s):
        I = R.I
        body = I.open(s, m['body'])
        if not is_some(body):
            return 'D07', 'a message without content', {INVALID: (None, v)}
        text = body.a[2][0]
        dec = lambda k: t.whole(mk('base', mk('app', 'dec', k, text), U8))
        num, prev, pk = m['num'], m['prev'], m['pk']
        k = mk('E', '()', 0, (pk, num))
        kept = NONE if v['kept'].a[0].op == 'empty' else R.lookup(I, s, v['kept'].a[0], k)
        if kept is not NONE:
            return 'D03', 'a message with a kept key', {OUTOFORDER: (dec(kept.a[2][0]), dict(v, kept=map_put(v['kept'], k, NONE)))}
        if s.need(t.eq0(t.sub(pk, v['recvd']))):
            if v['recv'] is NONE:
                return 'D07', 'a message under the initial key', {INVALID: (None, v)}
            n = t.sub(num, v['rl'])
            if not s.need(t.ge0(n)):
                return 'D03', 'a message behind the chain whose key is not kept', {UNKNOWN: (None, v)}
            c = v['recv'].a[2][0]
            ok = {PLAIN: (dec(mkey(c, num)), dict(v, recv=chain(c, t.add(num, t.ONE)), rl=t.add(num, t.ONE),
                                                 kept=kept_range(v['kept'], v['recvd'], c, v['rl'], n)))}
            if not s.need(t.ge0(t.sub(C(LIMIT), n))):
                ok[INVALID] = (None, v)
                return 'D08', 'a message of the chain beyond the limit', ok
            return 'D02', 'a message of the current chain', ok
        n = t.sub(prev, v['rl'])
        if not s.need(t.ge0(n)) or v['recv'] is NONE and not s.need(t.eq0(prev)):
            return 'D04', 'a new key announcing an impossible length', {INVALID: (None, v)}
        root1, c1 = kdf_root(v['root'], dh(v['priv'], pk))
        priv, pub = pair(v['gen'], t.ZERO)
        root2, c2 = kdf_root(root1, dh(priv, pk))
        kept = v['kept']
        if v['recv'] is not NONE:
            kept = kept_range(kept, v['recvd'], v['recv'].a[2][0], v['rl'], n)
        c1 = c1.a[2][0]
        kept = kept_range(kept, pk, c1, t.ZERO, num)
        new = dict(v, recvd=pk, own=pub, priv=priv, root=root2, send=c2, recv=chain(c1, t.add(num, t.ONE)),
                   sl=t.ZERO, rl=t.add(num, t.ONE), psl=v['sl'], kept=kept)
        ok = {PLAIN: (dec(mkey(c1, num)), new)}
        if not s.need(t.ge0(t.sub(C(LIMIT), n))) or not s.need(t.ge0(t.sub(C(LIMIT), num))):
            ok[INVALID] = (None, v)
            return 'D08', 'a new key beyond the limit', ok
        return 'D04', 'a new key', ok
    return f


# counters of the session and of the message for which the code is followed when nothing general can be said about it
INSTANCES = [(0, 0, 0), (0, 2, 0), (2, 1, 4), (2, 3, 2), (2, 4, 2), (2, 0, 3), (3, 3, 5), (1, 0, 1), (2, 1, 1), (2, 1, 2)]


def receive(R):
    """(session kind, session, state after, outcome, plaintext, session after, rule, case, allowed) of every path"""
    c = getattr(R, '_receive', None)
    if c is not None:
        return c
    R.bad = []
    R.proved = []
    R.undecided = []
    out = []
    for replied in (True, False):
        kind = 'established session' if replied else 'session that has not received yet'
        try:
            new = received(R, replied, kind, None)
            known = [x for x in new if not any(unknowns(y) for y in x[5].values() if isinstance(y, T))]
            out += known
            if len(known) == len(new):
                continue
            R.undecided.append('%s: a session left with values not known' % kind)
        except (Unsupported, RecursionError) as e:
            R.undecided.append('%s: %s' % (kind, str(e)[:300]))
        for x in INSTANCES:
            if not replied and (x[0] or x[2]):
                continue
            try:
                out += received(R, replied, kind, x)
            except (Unsupported, RecursionError, Split, Panic):
                pass
    if R.undecided and not out:
        raise Unsupported(R.undecided[0])
    R._receive = out
    return out


def undecided(rep, R):
    if R.undecided and not R.extra and not getattr(R, '_histories', None):
        follow(rep, R, 60)
    for u in R.undecided:
        rep.unknown('decrypt_message in general (it was followed for some given counters)', u)


def received(R, replied, kind, at):
    st = State()
    v = R.session(st, replied)
    m, mv = R.message(st)
    if at is not None:
        if replied:
            v['rl'] = C(at[0])
            v['recv'] = chain(origin_of(key('R')), v['rl'])
        m['num'], m['prev'] = C(at[1]), C(at[2])
        mv = R.message_of(m)
        kind = '%s, %d received, message number %d after %d of the chain before' % (kind, at[0] if replied else 0, at[1], at[2])
    me = R.I.alloc(st, R.make(v), 'session')
    k, rs = R.run('decrypt_message', [me, R.rng(st), mv], st)
    R.receive_key = k
    w = R.work
    out = []
    bad, proved = [(kind, p) for p in R.I.panics], list(R.I.proved)
    for s, r in rs:
        for s1, (o, text) in splitting(R.I, s, lambda z: outcome(R, z, r)):
            for s2, after in splitting(R.I, s1, lambda z: R.read(z, me, R.paths)):
                for z, (rule, case, ok) in splitting(R.I, s2, spec(R, v, m)):
                    out.append((kind, v, z, o, text, after, rule, case, ok, R.I.mget(z, w)))
    R.bad += bad
    R.proved += proved
    return out


def judge(prog, rep, rule):
    R, rep = ratchet(prog, rep)
    if R is None:
        return

    def go():
        n = 0
        for kind, v, z, o, text, after, ru, case, ok, work in receive(R):
            if ru != rule and (rule != 'D03' or ru not in ('D02', 'D04') or o not in ok):
                continue
            what = '%s, %s' % (kind, case)
            R.fresh = None
            if case.startswith('a new key'):
                R.fresh = key('message key')
                if any(b is True and x.op == 'bsym' and str(x.a[0]).startswith('kept(%s,' % t.show(R.fresh)) for x, b in z.bf.items()):
                    rep.ok('%s: used before' % what)
                    continue
            if ru != rule:
                # the key of a late message must still be there when it arrives
                w = what + ': keys stay kept'
                got, want = after.get('kept'), ok[o][1].get('kept')
                if isinstance(got, T) and isinstance(want, T):
                    kept_rule(rep, R, z, 'decrypt_message:' + case, w, got, want, 'decrypt_message', True)
                continue
            n += 1
            if o not in ok:
                clash(rep, z, 'decrypt_message:' + case, '%s: decrypt_message ends with %s where %s is required' % (
                    what, o, ' or '.join(sorted(ok))), what)
                continue
            rep.ok('%s: %s' % (what, o))
            w, sess = ok[o]
            if w is not None:
                compare(rep, R.I, z, 'decrypt_message:' + case, what + ': plaintext', text, w, 'decrypt_message')
            same_state(rep, R, z, what, 'decrypt_message:' + case, after, sess, 'decrypt_message')
        R.fresh = None
        rep.facts['paths of decrypt_message'] = n
        undecided(rep, R)
        if not n and not R.undecided:
            rep.violation('decrypt_message', 'decrypt_message never returns for the messages of this property')
    guard(rep, 'decrypt_message', go)
    return R


def check_D02(prog, rep):
    rep.rule = ('decrypt_message is summarised for an arbitrary session satisfying the invariant and an arbitrary message; on '
                'every path with the current ratchet key and a number not behind the chain the plaintext must be the '
                'decryption under that numbered key, the skipped keys kept, the chain advanced; nothing else may change.')
    judge(prog, rep, 'D02')


def check_D03(prog, rep):
    rep.rule = ('As D02, for messages whose key is kept (any chain) and for messages behind the chain without a kept key.')
    judge(prog, rep, 'D03')


def check_D04(prog, rep):
    rep.rule = ('As D02, for messages with another ratchet key: both root steps, both chains, counters, kept keys.')
    judge(prog, rep, 'D04')


def check_D01(prog, rep):
    rep.rule = ('encrypt_message is summarised for an arbitrary session satisfying the invariant: number, key, previous length, '
                'cipher text under the chain\'s key of that number, chain and counter advanced together, nothing else changed; '
                'the provided single-step derivation must be the derivation with the constant input.')
    R, rep = ratchet(prog, rep)
    if R is None:
        return

    def go():
        for replied in (True, False):
            st = State()
            v = R.session(st, replied)
            me = R.I.alloc(st, R.make(v), 'session')
            text = t.whole(mk('base', 'text', U8))
            k, rs = R.run('encrypt_message', [me, text], st)
            what = 'encrypt_message' + ('' if replied else ' before any reply')
            if not rs:
                rep.violation(k, what + ' never returns')
            for s, r in rs:
                for s1, m in splitting(R.I, s, lambda z: R.read(z, r, R.mpaths)):
                    compare(rep, R.I, s1, k, what + ': number', m['num'], v['sl'], k)
                    compare(rep, R.I, s1, k, what + ': ratchet key', m['pk'], v['own'], k)
                    compare(rep, R.I, s1, k, what + ': previous length', m['prev'], v['psl'], k)
                    if m['body'] is NONE:
                        clash(rep, s1, k, what + ' sends no content', what)
                        continue
                    c = v['send'].a[2][0]
                    compare(rep, R.I, s1, k, what + ': cipher text', m['body'],
                            t.whole(mk('base', mk('app', 'enc', mkey(c, v['sl']), text), U8)), k)
                    for s2, after in splitting(R.I, s1, lambda z: R.read(z, me, R.paths)):
                        n = t.add(v['sl'], t.ONE)
                        same_state(rep, R, s2, what, k, after, dict(v, send=chain(c, n), sl=n), k)
    guard(rep, 'encrypt_message', go)

    def default():
        ks = [k for k in prog.bodies if k == CRATE + '::ConstantInputKeyRatchet::derive_key_without_input']
        for k in ks:
            I = interp.Interp(prog)
            calls = []

            def derive(I_, st, a, ci):
                calls.append(a)
                return mk('E', '()', 0, (mk('E', 'next', 0, tuple(a)), mk('E', 'out', 0, tuple(a))))
            I.models['KeyDerivationFunction::derive_key'] = derive
            st = State()
            x = mk('opq', 'chain key', ('param', 'CK'))
            for s, r in I.run(k, [x], st, {'Self': ('param', 'Self')}):
                r = I.open(s, I.mget(s, r))
                one = calls[0] if len(calls) == 1 else None
                rep.check(one is not None and one[0] is x and isinput(one[1]) and
                          r.a[2][0] is mk('E', 'next', 0, tuple(one)) and r.a[2][1] is mk('E', 'out', 0, tuple(one)), k,
                          '%s returns %s, which is not one derivation of the chain key with the constant input' % (k, brief(r)),
                          'provided single step: derive_key(key, INPUT)')
    guard(rep, 'derive_key_without_input', default)

    def untouched():
        for kind, v, z, o, text, after, ru, case, ok, work in receive(R):
            if ru in ('D02', 'D03', 'D07') or o in (INVALID, UNKNOWN):
                same_state(rep, R, z, '%s, %s' % (kind, case), 'decrypt_message:' + case, after, v, 'decrypt_message', ('send', 'sl', 'psl'))
            elif o == PLAIN and isinstance(after['send'], T) and after['send'].op == 'E' and after['send'].a[0] == 'chain':
                # counter and chain restart together
                compare(rep, R.I, z, 'decrypt_message:' + case, '%s, %s: counter of the sending chain' % (kind, case),
                        after['sl'], after['send'].a[2][1], 'decrypt_message')
                if ru == 'D04' and after['own'] is not v['own'] and isinstance(after.get('psl'), T):
                    compare(rep, R.I, z, 'decrypt_message:' + case, '%s, %s: length of the previous sending chain' % (kind, case),
                            after['psl'], v['sl'], 'decrypt_message')
        undecided(rep, R)
    guard(rep, 'decrypt_message and the sending chain', untouched)


def check_D05(prog, rep):
    rep.rule = ('initialize_sending, initialize_receiving and decrypt_first_message are summarised for arbitrary inputs; every '
                'part of the session they return, the first message and the plaintext are compared with the root and chain '
                'derivations of the protocol; first replies may only be refused without content or beyond the skip limit.')
    R, rep = ratchet(prog, rep)
    if R is None:
        return
    gen, root = key('generator'), mk('opq', 'root', R.RK)
    empty = mk('map', mk('empty'), t.EMPTY)
    zero = dict(sl=t.ZERO, rl=t.ZERO, psl=t.ZERO, prl=t.ZERO, kept=empty)

    def responder():
        st = State()
        k, rs = R.run('initialize_receiving', [R.rng(st), gen, key('R'), root], st)
        priv, pub = pair(gen, t.ZERO)
        r, c = kdf_root(root, dh(priv, key('R')))
        want = dict(zero, gen=gen, own=pub, priv=priv, recvd=key('R'), root=r, send=c, recv=NONE)
        if not rs:
            rep.violation(k, 'initialize_receiving never returns')
        for s, v in rs:
            for z, got in splitting(R.I, s, lambda z: R.read(z, v, R.paths)):
                same_state(rep, R, z, 'initialize_receiving', k, got, want, k)
        panic_sites(rep, R.I, k, 'initialize_receiving')
    guard(rep, 'initialize_receiving', responder)

    def initiator():
        st = State()
        k, rs = R.run('initialize_sending', [R.rng(st), gen, root], st)
        priv, pub = pair(gen, t.ZERO)
        want = dict(zero, gen=gen, own=pub, priv=priv, recvd=NONE, root=root, send=NONE, recv=NONE)
        if not rs:
            rep.violation(k, 'initialize_sending never returns')
        for s, v in rs:
            p = R.I.open(s, R.I.mget(s, v)).a[2]
            for z, m in splitting(R.I, s, lambda z: R.read(z, p[1], R.mpaths)):
                compare(rep, R.I, z, k, 'first message: ratchet key', m['pk'], pub, k)
                compare(rep, R.I, z, k, 'first message: number', m['num'], t.ZERO, k)
                compare(rep, R.I, z, k, 'first message: previous length', m['prev'], t.ZERO, k)
                rep.check(m['body'] is NONE, k, 'first message: %s sends content %s' % (k, brief(m['body'])), 'first message: no content')
            for z, got in splitting(R.I, s, lambda z: R.read(z, p[0], R.paths)):
                same_state(rep, R, z, 'initialize_sending', k, got, want, k, ('gen', 'own', 'priv', 'root', 'kept'))
                first(R, rep, z, p[0], got)
        panic_sites(rep, R.I, k, 'initialize_sending')

    def first(R, rep, st, me, v):
        """the reply to the session just initialised"""
        try:
            return reply(R, rep, st.copy(), me, None)
        except (Unsupported, RecursionError) as e:
            rep.unknown('decrypt_first_message in general (it was followed for some given numbers)', str(e)[:300])
        for n in range(4):
            reply(R, rep, st.copy(), me, n)

    def reply(R, rep, st, me, number):
        I = R.I
        m, mv = R.message(st)
        if number is not None:
            m['num'] = C(number)
            mv = R.message_of(m)
        rng = [a for a in st.mem if isinstance(st.mem[a], T) and st.mem[a].op == 'E' and str(st.mem[a].a[0]).startswith('rng:')]
        g = R.rng(st)
        I.mset(st, g, mk('E', 'rng:r', 0, (t.ONE,)))
        keep_p, keep_q = I.panics, I.proved
        k, rs = R.run('decrypt_first_message', [I.mget(st, me), g, mv], st)
        what = 'decrypt_first_message'
        priv, pub = pair(gen, t.ZERO)
        root1, c1 = kdf_root(root, dh(priv, m['pk']))
        priv2, pub2 = pair(gen, t.ONE)
        root2, c2 = kdf_root(root1, dh(priv2, m['pk']))
        c1 = c1.a[2][0]
        n = t.add(m['num'], t.ONE)
        want = dict(zero, gen=gen, own=pub2, priv=priv2, recvd=m['pk'], root=root2, send=c2, recv=chain(c1, n), rl=n,
                    kept=kept_range(empty, m['pk'], c1, t.ZERO, m['num']))
        if not rs:
            rep.violation(k, what + ' never returns')
        for s, r in rs:
            for s1, body in splitting(I, s, lambda z: I.open(z, m['body'])):
                if not is_some(body):
                    clash(rep, s1, k, what + ' returns for a message without content', what)
                    continue
                p = I.open(s1, I.mget(s1, r)).a[2]
                compare(rep, I, s1, k, what + ': plaintext', I.mget(s1, p[1]),
                        t.whole(mk('base', mk('app', 'dec', mkey(c1, m['num']), body.a[2][0]), U8)), k)
                for z, got in splitting(I, s1, lambda z: R.read(z, p[0], R.paths)):
                    same_state(rep, R, z, what, k, got, want, k)
        legal = t.ge0(t.sub(C(LIMIT), m['num']))
        for o in list(I.panics):
            s = o.st.copy()
            b = s.exp.get(m['body'])
            if b is not None and not is_some(b) or not s.assume(legal, True):
                I.panics.remove(o)
                rep.ok(what + ': refusal at %s' % (o.where,))
        panic_sites(rep, I, k, what)
        I.panics, I.proved = keep_p, keep_q
    guard(rep, 'initialize_sending and decrypt_first_message', initiator)


def check_D06(prog, rep):
    rep.rule = ('On every path of decrypt_message that ends in an invalid or unknown header error every part of the session must '
                'have the value it had before.')
    R, rep = ratchet(prog, rep)
    if R is None:
        return

    def go():
        n = 0
        for kind, v, z, o, text, after, ru, case, ok, work in receive(R):
            if o in (INVALID, UNKNOWN):
                n += 1
                same_state(rep, R, z, '%s, %s (%s)' % (kind, case, o), 'decrypt_message:' + case, after, v, 'decrypt_message',
                           more=('prl',))
        rep.facts['rejecting paths'] = n
        undecided(rep, R)
    guard(rep, 'decrypt_message', go)


def check_D07(prog, rep):
    rep.rule = ('Every unwrap, overflow check, index and assertion reached by decrypt_message and encrypt_message from an arbitrary '
                'session satisfying the invariant, for an arbitrary message, must be excluded by the facts of its path; the '
                'invariant is preserved (also D01-D05). Counters of the session stay below 2^62.')
    R = judge(prog, rep, 'D07')
    if R is None:
        return
    lrep = Lenient(rep) if R.extra else rep

    def go():
        k, I = None, R.I
        rs = receive(R)
        k = R.receive_key
        I.panics, I.proved = [p for _, p in R.bad], R.proved
        panic_sites(lrep, I, k, 'decrypt_message')
        undecided(rep, R)
        for kind, v, z, o, text, after, ru, case, ok, work in rs:
            for r in ('priv', 'recvd', 'root', 'send'):
                if after[r] is NONE:
                    clash(lrep, z, k + ':' + r, '%s, %s: decrypt_message leaves no %s' % (kind, case, NAMES[r]), r)
                else:
                    lrep.ok('%s, %s: %s present' % (kind, case, NAMES[r]))
            if after['recv'] is NONE and v['recv'] is not NONE:
                clash(lrep, z, k + ':recv', '%s, %s: decrypt_message leaves no receiving chain' % (kind, case), 'recv')
        for replied in (True, False):
            st = State()
            v = R.session(st, replied)
            me = I.alloc(st, R.make(v), 'session')
            k, rs = R.run('encrypt_message', [me, t.whole(mk('base', 'text', U8))], st)
            panic_sites(lrep, I, k, 'encrypt_message' + ('' if replied else ' before any reply'))
            if not rs:
                lrep.violation(k, 'encrypt_message never returns')
            for s, r in rs:
                for z, after in splitting(I, s, lambda z: R.read(z, me, R.paths)):
                    for r in ('priv', 'recvd', 'root', 'send') + (('recv',) if replied else ()):
                        if after[r] is NONE:
                            clash(lrep, z, k + ':' + r, 'encrypt_message leaves no %s' % NAMES[r], r)
                        else:
                            lrep.ok('encrypt_message: %s present' % NAMES[r])
    guard(rep, 'panic freedom', go)


def check_D08(prog, rep):
    rep.rule = ('The number of key derivations on every path of decrypt_message and decrypt_first_message, and the number of kept '
                'keys added, must be below a constant (%d) by the facts of the path; headers at or below the documented limit '
                'are judged by D02 and D04, headers beyond it must be refused or handled like any other.' % WORK)
    R = judge(prog, rep, 'D08')
    if R is None:
        return
    lrep = Lenient(rep) if R.extra else rep

    def go():
        for kind, v, z, o, text, after, ru, case, ok, work in receive(R):
            what = '%s, %s (%s)' % (kind, case, o)
            decide(lrep, z, t.ge0(t.sub(C(WORK), work)), what + ': key derivations', R.receive_key, 'decrypt_message')
            if isinstance(after['kept'], T) and after['kept'].op == 'map':
                decide(lrep, z, t.ge0(t.sub(C(WORK), t.slen(after['kept'].a[1]))), what + ': kept keys added', R.receive_key, 'decrypt_message')
        undecided(rep, R)
    guard(rep, 'decrypt_message', go)

    def first():
        st = State()
        v = dict(R.session(st, False), recvd=NONE, send=NONE)
        m, mv = R.message(st)
        k, rs = R.run('decrypt_first_message', [R.make(v), R.rng(st), mv], st)
        for s, r in rs:
            decide(lrep, s, t.ge0(t.sub(C(WORK), R.I.mget(s, R.work))), 'decrypt_first_message: key derivations', k, k)
    guard(rep, 'decrypt_first_message', first)
