"""Double ratchet sessions followed from their establishment through given histories.

Used where the session holds state the invariant of rules_d says nothing about (or is laid out in a way not recognised):
sessions are then not arbitrary but those the two ways of establishing one produce, and the operations are summarised one
after the other for given counters and arbitrary, distinct keys, contents and derivations.  A deviation is a violation;
histories that agree prove nothing beyond themselves, so the general statement stays undecided.
"""
import time
from . import terms as t, prove
from .terms import mk, A, C, T
from .interp import State, Unsupported, Split, Panic, NONE
from .models import some, is_some
from .rules_h import compare, brief, U8
from . import rules_d as d

NKEYS = 12


class Capture:
    """a report that only remembers"""
    def __init__(self):
        self.bad = []
        self.open = []

    def ok(self, what):
        pass

    def violation(self, key, text):
        self.bad.append(text)

    def unknown(self, what, why=''):
        self.open.append('%s: %s' % (what, why))


class Model:
    """what a session must do"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def copy(self):
        m = Model(**self.__dict__)
        m.kept = dict(self.kept)
        return m

    @staticmethod
    def responder(R, keys):
        priv, pub = d.pair(d.key('generator'), t.ZERO)
        r, c = d.kdf_root(R.h_root, d.dh(priv, keys[0]))
        return Model(own=pub, priv=priv, recvd=keys[0], root=r, send=c.a[2][0], sl=0, rl=0, psl=0, recv=None, kept={}, gens=1, start=1, fresh=1)

    @staticmethod
    def initiator(R, keys, number):
        gen = d.key('generator')
        priv, pub = d.pair(gen, t.ZERO)
        r1, c1 = d.kdf_root(R.h_root, d.dh(priv, keys[0]))
        priv2, pub2 = d.pair(gen, t.ONE)
        r2, c2 = d.kdf_root(r1, d.dh(priv2, keys[0]))
        c1 = c1.a[2][0]
        return Model(own=pub2, priv=priv2, recvd=keys[0], root=r2, send=c2.a[2][0], sl=0, rl=number + 1, psl=0, recv=c1,
                     kept={(0, i): d.mkey(c1, C(i)) for i in range(number)}, cur=0, gens=2, start=2, fresh=1)

    def encrypt(self):
        n, self.sl = self.sl, self.sl + 1
        return self.own, n, self.psl, d.mkey(self.send, C(n))

    def decrypt(self, k, pk, num, prev, body):
        """(property, case, outcome, message key); k the index of the key"""
        if not body:
            return 'D07', 'a message without content', d.INVALID, None
        key_ = self.kept.pop((k, num), None)
        if key_ is not None:
            return 'D03', 'a message with a kept key', d.OUTOFORDER, key_
        if pk is self.recvd:
            if self.recv is None:
                return 'D07', 'a message under the initial key', d.INVALID, None
            if num < self.rl:
                return 'D03', 'a message behind the chain whose key is not kept', d.UNKNOWN, None
            if num - self.rl > d.LIMIT:
                return 'D08', 'a message of the chain beyond the limit', d.INVALID, None
            for i in range(self.rl, num):
                self.kept[(k, i)] = d.mkey(self.recv, C(i))
            self.rl = num + 1
            return 'D02', 'a message of the current chain', d.PLAIN, d.mkey(self.recv, C(num))
        if prev < self.rl or self.recv is None and prev:
            return 'D04', 'a new key announcing an impossible length', d.INVALID, None
        if prev - self.rl > d.LIMIT or num > d.LIMIT:
            return 'D08', 'a new key beyond the limit', d.INVALID, None
        if self.recv is not None:
            for i in range(self.rl, prev):
                self.kept[(self.cur, i)] = d.mkey(self.recv, C(i))
        root, c = d.kdf_root(self.root, d.dh(self.priv, pk))
        c = c.a[2][0]
        self.priv, self.own = d.pair(d.key('generator'), C(self.gens))
        self.gens += 1
        root, s = d.kdf_root(root, d.dh(self.priv, pk))
        self.root, self.send = root, s.a[2][0]
        for i in range(num):
            self.kept[(k, i)] = d.mkey(c, C(i))
        self.recv, self.recvd, self.cur = c, pk, k
        self.psl, self.sl, self.rl = self.sl, 0, num + 1
        self.fresh = max(self.fresh, k + 1)
        return 'D04', 'a new key', d.PLAIN, d.mkey(c, C(num))


Model.cur = 0


class Dead(Exception):
    pass


class Explorer:
    def __init__(self, R, budget):
        self.R = R
        self.end = time.time() + budget
        self.steps = 0
        self.found = []             # (properties, text)
        self.seen = set()
        self.undecided = []
        R.h_root = mk('opq', 'root', R.RK)
        self.keys = [d.key('key %d' % i) for i in range(NKEYS)]
        st = State()
        for i, a in enumerate(self.keys):
            for b in self.keys[:i]:
                st.assume(t.eq0(t.sub(a, b)), False)
        self.st = st

    # -------------------------------------------------------------------------------------------- one step
    def call(self, st, name, args):
        R = self.R
        k, rs = R.run(name, args, st)
        self.steps += 1
        return k, rs, list(R.I.panics)

    def deviation(self, props, history, text):
        key_ = (tuple(props), text.split(' gives ')[0][:80])
        if key_ in self.seen:
            return
        self.seen.add(key_)
        self.found.append((props, 'after %s: %s' % ('; '.join(history) or 'establishing the session', text)))

    def one(self, rs, ps, props, history, what):
        """the single way a step can end"""
        if ps and not rs:
            self.deviation(tuple(props) + ('D07',), history, '%s panics at %s' % (what, ps[0].where))
            raise Dead
        if len(rs) != 1:
            raise Unsupported('%d ways for %s to end' % (len(rs), what))
        return rs[0]

    def same(self, s, props, history, what, got, want):
        cap = Capture()
        compare(cap, self.R.I, s, what, what, got, want, 'it')
        for x in cap.bad[:1]:
            self.deviation(props, history, x)
            raise Dead
        for x in cap.open[:1]:
            raise Unsupported(x)

    def text(self, cipher, what, k, text):
        return t.whole(mk('base', mk('app', what, k, text), U8))

    def sending(self, st, me, model, history):
        R = self.R
        st, model = st.copy(), model.copy()
        text = t.whole(mk('base', 'text', U8))
        # until the first ratchet step everything stems from the handshake
        init = ('D05',) if model.gens == model.start else ()
        pk, n, psl, k = model.encrypt()
        f, rs, ps = self.call(st, 'encrypt_message', [me, text])
        h = history
        s, r = self.one(rs, ps, ('D01',), h, 'encrypt_message')
        ms = d.splitting(R.I, s, lambda z: R.read(z, r, R.mpaths))
        if len(ms) != 1:
            raise Unsupported('messages')
        s, m = ms[0]
        self.same(s, ('D01',), h, 'encrypt_message: number', m['num'], C(n))
        self.same(s, ('D01',) + init, h, 'encrypt_message: ratchet key', m['pk'], pk)
        self.same(s, ('D01', 'D04'), h, 'encrypt_message: previous length', m['prev'], C(psl))
        if m['body'] is NONE:
            self.deviation(('D01',), h, 'encrypt_message sends no content')
            raise Dead
        self.same(s, ('D01',) + init, h, 'encrypt_message: cipher text', m['body'], self.text(s, 'enc', k, text))
        return s, model, history + ['a message is sent']

    def receiving(self, st, me, rng, model, history, k, num, prev, body=True):
        R = self.R
        st, model = st.copy(), model.copy()
        text = t.whole(mk('base', 'cipher', U8))
        pk = self.keys[k]
        what = 'message %d under %s (%d before)%s' % (num, t.show(pk), prev, '' if body else ' without content')
        init = ('D05',) if model.gens == model.start else ()
        rule, case, want, key_ = model.decrypt(k, pk, num, prev, body)
        mv = R.message_of(dict(pk=pk, num=C(num), prev=C(prev), body=text if body else NONE))
        f, rs, ps = self.call(st, 'decrypt_message', [me, rng, mv])
        R.receive_key = f
        props = (rule,) + (('D06',) if any('refused' in h for h in history) else ())
        s, r = self.one(rs, ps, props, history, 'decrypt_message of ' + what)
        os = d.splitting(R.I, s, lambda z: d.outcome(R, z, r))
        if len(os) != 1:
            raise Unsupported('outcomes')
        s, (o, got) = os[0]
        if o != want:
            self.deviation(props, history, 'decrypt_message of %s (%s) ends with %s where %s is required' % (what, case, o, want))
            raise Dead
        if key_ is not None:
            self.same(s, props + init, history, 'decrypt_message of %s (%s): plaintext' % (what, case), got, self.text(s, 'dec', key_, text))
        w = R.I.mget(s, R.work)
        if (t.const(w) or 0) > d.WORK:
            self.deviation(('D08',), history, 'decrypt_message of %s derives %s keys' % (what, brief(w)))
        return s, model, history + [what + (' is refused' if want in (d.INVALID, d.UNKNOWN) else ' is received')]

    # -------------------------------------------------------------------------------------------- sessions
    def sessions(self):
        R = self.R
        gen = d.key('generator')
        out = []

        def responder():
            st = self.st.copy()
            rng = R.rng(st)
            k, rs, ps = self.call(st, 'initialize_receiving', [rng, gen, self.keys[0], R.h_root])
            s, v = self.one(rs, ps, ('D05',), [], 'initialize_receiving')
            v = R.I.mget(s, v)
            return s, R.I.alloc(s, v, 'session'), rng, Model.responder(R, self.keys), ['a session established by initialize_receiving']

        def initiator(n):
            st = self.st.copy()
            rng = R.rng(st)
            k, rs, ps = self.call(st, 'initialize_sending', [rng, gen, R.h_root])
            s, v = self.one(rs, ps, ('D05',), [], 'initialize_sending')
            me = R.I.mget(s, R.I.open(s, R.I.mget(s, v)).a[2][0])
            text = t.whole(mk('base', 'cipher', U8))
            mv = R.message_of(dict(pk=self.keys[0], num=C(n), prev=t.ZERO, body=text))
            k, rs, ps = self.call(s, 'decrypt_first_message', [me, rng, mv])
            s, v = self.one(rs, ps, ('D05',), [], 'decrypt_first_message')
            p = R.I.open(s, R.I.mget(s, v)).a[2]
            m = Model.initiator(R, self.keys, n)
            self.same(s, ('D05',), [], 'decrypt_first_message: plaintext', R.I.mget(s, p[1]),
                      self.text(s, 'dec', d.mkey(m.recv, C(n)), text))
            return s, R.I.alloc(s, R.I.mget(s, p[0]), 'session'), rng, m, ['a session established by a first reply with number %d' % n]
        for f in (responder, lambda: initiator(0), lambda: initiator(2)):
            x = self.attempt(f)
            if x is not None:
                out.append(x)
        return out

    def attempt(self, f):
        if time.time() > self.end:
            raise TimeoutError
        try:
            return f()
        except Dead:
            return None
        except (Unsupported, Split, Panic, RecursionError, KeyError, IndexError, AttributeError, TypeError) as e:
            self.undecided.append('%s: %s' % (type(e).__name__, str(e)[:160]))
            return None

    def actions(self, model):
        """what may come next"""
        m = model
        if m.recv is not None:
            yield ('r', m.cur, m.rl, 0, True)
        yield ('s',)
        if m.fresh < NKEYS:
            yield ('r', m.fresh, 0, m.rl, True)
            yield ('r', m.fresh, 2, m.rl + (1 if m.recv is not None else 0), True)
        if m.recv is not None:
            yield ('r', m.cur, m.rl + 2, 0, True)
        ks = list(m.kept)
        for k in dict.fromkeys(ks[:1] + ks[-1:]):
            yield ('r', k[0], k[1], 0, True)
        if m.recv is not None:
            if (m.cur, m.rl - 1) not in m.kept:
                yield ('r', m.cur, m.rl - 1, 0, True)
            yield ('r', m.cur, m.rl, 0, False)
            if m.fresh < NKEYS:
                yield ('r', m.fresh, 0, m.rl - 1, True)
        else:
            yield ('r', 0, 0, 0, True)

    def step(self, node, a):
        s, me, rng, model, history = node
        if a[0] == 's':
            s, model, history = self.sending(s, me, model, history)
        else:
            s, model, history = self.receiving(s, me, rng, model, history, *a[1:])
        return s, me, rng, model, history

    def line(self, node, choose, n):
        """one long history"""
        for i in range(n):
            for a in choose(node[3], i):
                node = self.attempt(lambda: self.step(node, a))
                if node is None:
                    return

    def explore(self):
        try:
            level = self.sessions()
            starts = list(level)
            whole, self.end = self.end, time.time() + (self.end - time.time()) * 0.4
            try:
                for depth in range(5):
                    nxt = []
                    for node in level:
                        for a in self.actions(node[3]):
                            x = self.attempt(lambda: self.step(node, a))
                            if x is not None:
                                nxt.append(x)
                    level = nxt
                    self.depth = depth + 1
            except TimeoutError:
                pass
            self.end = whole
            left = (whole - time.time()) / (5 * max(1, len(starts)))
            for node in starts:
                cur = lambda m, i, g=0: [('r', m.cur, m.rl + g, 0, True)] if m.recv is not None else [('r', m.fresh, 0, 0, True)]
                new = lambda m, i: [('r', m.fresh, i % 3, m.rl + (i % 2 if m.recv is not None else 0), True), ('s',), ('s',)] if m.fresh < NKEYS else []

                def late(m, i):
                    return [('r',) + k + (0, True) for k in list(m.kept)[:1]] if i > 24 else cur(m, i, 1)
                for f, n in ((cur, 300), (lambda m, i: [('s',)], 300), (new, 12), (lambda m, i: cur(m, i, i % 2), 200), (late, 50)):
                    self.end = time.time() + left
                    try:
                        self.line(node, f, n)
                    except TimeoutError:
                        pass
        except TimeoutError:
            pass


def explore(R, seconds=80):
    x = getattr(R, '_histories', None)
    if x is None:
        x = R._histories = Explorer(R, seconds)
        x.depth = 0
        x.explore()
    return x


def judge(rep, R, pid, seconds=80):
    x = explore(R, seconds)
    rep.facts['steps of given histories followed'] = x.steps
    rep.facts['all histories followed up to length'] = x.depth
    if x.undecided:
        rep.notes.append('%d histories left: %s' % (len(x.undecided), x.undecided[0]))
    n = 0
    for props, text in x.found:
        if pid in props:
            n += 1
            if n <= 5:
                rep.violation('history', text)
    return n
