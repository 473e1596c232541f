"""Distinguishing valuations of abstract values.

Two abstract values whose normal forms differ may still be equal; they are reported as different only when a
valuation of the free symbols satisfies the path facts and separates them.  Terms are evaluated, never the
program."""
import hashlib, random, time
from . import terms as t
from .terms import T, mk, const, isp

P = (1 << 61) - 1


PSYM = t.sym('p', 'nat')


def mentions(x, op, seen):
    if isinstance(x, tuple):
        return any(mentions(y, op, seen) for y in x)
    if not isinstance(x, T) or x.id in seen:
        return False
    seen.add(x.id)
    return x.op == op or mentions(x.a, op, seen)


class Undef(Exception):
    pass


def h64(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'little')


class Val:
    def __init__(self, seed, field=False, fix=None, prime=P, hook=None):
        self.seed = seed
        self.field = field
        self.fix = dict(fix or {})
        self.memo = {}
        self.names = {}
        self.prime = prime
        self.rng = random.Random(seed)
        self.maxlen = None
        self.hook = hook
        self.itc = {}
        self.arr = {}
        self.flat = False
        self.until = time.time() + 20

    def small(self, key):
        r = h64('len', self.seed, key)
        style = r % 7
        if self.maxlen is not None:
            if self.maxlen > 1 << 20 or self.maxlen in (1 << 9, 1 << 13):
                return (r >> 8) % (1 << ((r >> 4) % self.maxlen.bit_length()))
            return (r >> 8) % (self.maxlen + 1)
        if style < 2:
            return (r >> 8) % 4
        if style < 4:
            return (r >> 8) % 40
        if style < 5:
            return (0, 1, 55, 56, 63, 64, 65, 127, 128, 129, 192, 256)[(r >> 8) % 12]
        return (r >> 8) % 300

    def key(self, x):
        """stable name of an opaque atom: structure with evaluated arguments"""
        return show_key(x)

    def name(self, x):
        return show_key(x)

    def typed(self, key, ty):
        r = h64('v', self.seed, key)
        if self.flat and isinstance(key, tuple) and key[0] == 'at' and key[1][0] not in ('dig', 'iter'):
            # a sequence of equal extreme elements
            c = h64('flat', self.seed, key[1]) % 4
            if c < 2:
                return 0
            if c == 2 and ty in t.WID and ty != 'usize':
                return (1 << (t.WID[ty] - (ty[0] == 'i'))) - 1
            if c == 2:
                return 1
        if ty in t.WID:
            w = t.WID[ty]
            if ty == 'usize':
                return r % 2000 if r % 3 else r % 20
            v = h64('v2', self.seed, key) << 64 | r
            v %= 1 << w
            if ty[0] == 'i':
                v -= 1 << (w - 1)
            return v
        if ty in ('len', 'small', 'nat'):
            return self.small(key)
        if ty == 'pos':
            return 1 + self.small(key)
        return r % self.prime

    # ------------------------------------------------------------
    def ev(self, x):
        if isinstance(x, (bool, int, str)) or x is None:
            return x
        if isinstance(x, tuple):
            return tuple(self.ev(y) for y in x)
        r = self.memo.get(x)
        if r is None:
            r = self._ev(x)
            self.memo[x] = r
        return r

    def evi(self, x):
        """integer value, never reduced"""
        if not self.field:
            return self.ev(x)
        k = ('i', x)
        r = self.memo.get(k)
        if r is None:
            self.field = False
            saved = self.memo
            self.memo = self.__dict__.setdefault('memo_i', {})
            try:
                r = self.ev(x)
            finally:
                self.field = True
                self.memo = saved
            self.memo[k] = r
        return r

    def lazy(self, base):
        """element function and length of a sequence-like term"""
        if base.op == 'seq':
            l = self.ev(base)
            return l
        return None

    def coded(self, base):
        """bytes of an encoded number"""
        if isinstance(base, T) and base.op == 'base' and isinstance(base.a[0], T) and base.a[0].op in ('bytes_le', 'bytes_be'):
            v = self.evi(base.a[0].a[0])
            if not isinstance(v, int) or v < 0:
                raise Undef('encoded number')
            return list(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little' if base.a[0].op == 'bytes_le' else 'big'))
        return None

    def elems(self, base, start, n):
        c = self.coded(base)
        if c is not None:
            if start < 0 or start + n > len(c):
                raise Undef('slice')
            return c[start:start + n]
        if n > 200000 or time.time() > self.until:
            raise Undef('long sequence')
        if isinstance(base, T) and base.op == 'bv':
            l = self.fix.get(base)
            if not isinstance(l, (list, tuple)) or start < 0 or start + n > len(l):
                raise Undef('slice')
            return list(l[start:start + n])
        if isinstance(base, T) and base.op == 'seq':
            l = self.ev(base)
            if start < 0 or start + n > len(l):
                raise Undef('slice')
            return l[start:start + n]
        if isinstance(base, T) and base.op == 'Iter':
            l = self.iterate(base)
            if isinstance(l, (list, tuple)):
                if start < 0 or start + n > len(l):
                    raise Undef('slice')
                return list(l[start:start + n])
        bk, ety = self.basekey(base)
        return [self.elem(bk, start + i, ety) for i in range(n)]

    def basekey(self, base):
        if base.op == 'base':
            nm = base.a[0]
            return ('b', self.deep(nm)), base.a[1]
        if base.op == 'row':
            bk, _ = self.basekey(base.a[0])
            return ('r', bk, self.evi(base.a[2])), base.a[1]
        if base.op == 'fld':
            bk, _ = self.basekey(base.a[0])
            return ('f', bk, base.a[2]), base.a[1]
        if base.op == 'dig':
            return ('dig', h64('dig', self.deep(base.a[0]), self.deep(base.a[2:]))), base.a[1]
        if base.op == 'Iter':
            return ('iter', self.deep(self.iterate(base))), ('any',)
        raise Undef(base.op)

    def deep(self, x):
        """hashable evaluated form"""
        if isinstance(x, T):
            return self.deep(self.ev(x))
        if isinstance(x, (list, tuple)):
            return tuple(self.deep(y) for y in x)
        return x

    def elem(self, bk, i, ety):
        l = self.arr.get(bk)
        if l is not None and 0 <= i < len(l):
            return l[i]
        k = ety[0]
        if k in ('uint', 'int'):
            return self.typed(('at', bk, i), ety[1])
        if k in ('ref', 'ptr'):
            return self.elem(bk, i, ety[2])
        if k == 'bool':
            return bool(h64('bool', self.seed, bk, i) & 1)
        if k == 'slice' or (k == 'adt' and ety[1] == 'alloc::vec::Vec'):
            e = ety[1] if k == 'slice' else ety[2][0]
            rk = ('r', bk, i)
            return [self.elem(rk, j, e) for j in range(self.lenof(rk))]
        if k == 'tuple':
            return ('E', '()', 0, tuple(self.elem(('f', bk, j), i, y) for j, y in enumerate(ety[1])))
        if k == 'adt' and ety[1] == 'alloc::boxed::Box':
            return self.elem(bk, i, ety[2][0])
        if k == 'adt' and ety[1].startswith('num_bigint'):
            return self.typed(('at', bk, i), 'nat')
        if k in ('field', 'param', 'any', 'alias'):
            return self.typed(('at', bk, i), 'any')
        return ('o', ('at', bk, i))

    def lenof(self, bk):
        if ('len', bk) in self.fix:
            return self.fix[('len', bk)]
        return self.small(('len', bk))

    def iterate(self, x):
        lv, n, init, body = x.a[:4]
        n = self.evi(n)
        if n < 0 or n > 2000:
            raise Undef('iteration count')
        bvk, bva = mk('bv', lv), mk('bv', -lv)
        outer = sorted(b for b in t.free_syms(body) | t.free_syms(init) if b.op == 'bv' and b is not bvk and b is not bva)
        key = (init, body, tuple((b, self.deep(self.fix.get(b))) for b in outer))
        vs = self.itc.get(key)
        if vs is None:
            vs = self.itc[key] = [self.ev(init)]
        while len(vs) <= n:
            if time.time() > self.until:
                raise Undef('time')
            vs.append(self.bind({bvk: len(vs) - 1, bva: vs[-1]}, body))
        return vs[n]

    def bind(self, m, body):
        saved = self.memo
        sf = self.fix
        si = self.__dict__.get('memo_i')
        self.memo = {}
        self.memo_i = {}
        self.memo_r = {}
        self.fix = dict(sf)
        self.fix.update(m)
        try:
            return self.ev(body)
        finally:
            self.memo = saved
            self.fix = sf
            self.memo_i = si if si is not None else {}
            self.memo_r = {}

    def red(self, v):
        return v % self.prime if self.field and isinstance(v, int) and not isinstance(v, bool) else v

    def _ev(self, x):
        if x in self.fix:
            return self.fix[x]
        op, a = x.op, x.a
        if self.hook is not None:
            r = self.hook(self, x)
            if r is not None:
                return r
        if op == 'poly':
            s = 0
            for m, c in a[0]:
                v = c
                for y in m:
                    w = self.ev(y)
                    if not isinstance(w, int):
                        raise Undef('number')
                    v *= int(w)
                    if self.field:
                        v %= self.prime
                s += v
            return self.red(s)
        if op == 'sym':
            return self.typed(a[0], a[1])
        if op == 'len':
            b = a[0]
            if b.op == 'seq':
                return len(self.ev(b))
            if b.op == 'bv' and isinstance(self.fix.get(b), (list, tuple)):
                return len(self.fix[b])
            if b.op == 'Iter':
                l = self.iterate(b)
                if isinstance(l, (list, tuple)):
                    return len(l)
            c = self.coded(b)
            if c is not None:
                return len(c)
            bk, ety = self.basekey(b)
            return self.lenof(bk)
        if op == 'at':
            i = self.evi(a[1])
            if isinstance(a[0], T) and a[0].op == 'seq':
                return self.elems(a[0], i, 1)[0]
            c = self.coded(a[0])
            if c is not None:
                if not 0 <= i < len(c):
                    raise Undef('index')
                return c[i]
            bk, ety = self.basekey(a[0])
            ty = a[2]
            l = self.arr.get(bk)
            if l is not None and 0 <= i < len(l):
                return self.red(l[i])
            return self.red(self.typed(('at', bk, i), ty if isinstance(ty, str) else 'any'))
        if op == 'bat':
            bk, _ = self.basekey(a[0])
            return bool(h64('bool', self.seed, bk, self.evi(a[1])) & 1)
        if op == 'opqat':
            bk, ety = self.basekey(a[0])
            return self.elem(bk, self.evi(a[1]), ety)
        if op == 'bv':
            raise Undef('bound variable')
        if op == 'bits':
            s = 0
            for m, k in a[0]:
                v = k
                for y in m:
                    v &= self.ev(y)
                s ^= v
            return s
        if op == 'rot':
            w, r, y = a
            v = self.ev(y) & ((1 << w) - 1)
            return ((v << r) | (v >> (w - r))) & ((1 << w) - 1)
        if op == 'wrap':
            return self.evi(a[1]) % (1 << a[0])
        if op == 'shl':
            return (self.evi(a[1]) << self.evi(a[2])) % (1 << a[0])
        if op == 'shr':
            return self.evi(a[1]) >> self.evi(a[2])
        if op == 'div':
            d = self.evi(a[1])
            if d == 0:
                raise Undef('division')
            return self.evi(a[0]) // d
        if op == 'mod':
            return self.evi(a[0]) % self.evi(a[1])
        if op == 'ceildiv':
            d = self.evi(a[1])
            if d == 0:
                raise Undef('division')
            return -(-self.evi(a[0]) // d)
        if op == 'intf':
            return t.int_fn(a[0], a[1], self.evi(a[2]))
        if op == 'bigf':
            try:
                return t.big_fn(a[0], *[self.evi(x) for x in a[1:]])
            except ValueError:
                raise Undef('root')
        if op == 'tri':
            n = self.evi(a[0])
            return self.red(n * (n - 1) // 2)
        if op == 'inv':
            v = self.ev(a[0]) % self.prime
            if v == 0:
                raise Undef('inverse of zero')
            return pow(v, -1, self.prime)
        if op == 'pow':
            e = self.evi(a[1])
            b = self.ev(a[0])
            if e < 0:
                raise Undef('exponent')
            if self.field:
                return pow(b, e, self.prime)
            if e > 4000:
                raise Undef('exponent')
            return b ** e
        if op == 'repr':
            # the representative of a field member, in a field whose prime is the one evaluated with
            if self.evi(PSYM) != self.prime:
                raise Undef('prime')
            if self.field:
                v = self.ev(a[0])
            else:
                saved, self.field = self.memo, True
                self.memo = self.__dict__.setdefault('memo_r', {})
                try:
                    v = self.ev(a[0])
                finally:
                    self.memo, self.field = saved, False
            if not isinstance(v, int):
                raise Undef('field member')
            return v % self.prime
        if op == 'modpow':
            b, e, m = [self.evi(y) for y in a]
            if m <= 0:
                raise Undef('modulus')
            return pow(b, e, m)
        if op in ('Sum', 'Prod'):
            lv, n, body = a[:3]
            n = self.evi(n)
            if n > 3000:
                raise Undef('count')
            s = 0 if op == 'Sum' else 1
            b = mk('bv', lv)
            for i in range(n):
                if op == 'Prod' and len(a) > 3 and a[3] is not True and not self.bind({b: i}, a[3]):
                    continue
                v = self.bind({b: i}, body)
                s = s + v if op == 'Sum' else s * v
                s = self.red(s)
            return s
        if op == 'First':
            lv, n, body = a[:3]
            n = self.evi(n)
            return next((i for i in range(n) if self.bind({mk('bv', lv): i}, body)), n)
        if op == 'All':
            lv, n, body = a[:3]
            return all(self.bind({mk('bv', lv): i}, body) for i in range(self.evi(n)))
        if op == 'Iter':
            return self.iterate(x)
        if op == 'seq':
            out = []
            for g in a[0]:
                out += self.seg(g)
                if len(out) > 300000:
                    raise Undef('size')
            return out
        if op == 'E':
            return ('E', a[0] if isinstance(a[0], str) else str(a[0]), a[1], tuple(self.ev(y) for y in a[2]))
        if op in ('ge0',):
            return self.evi(a[0]) >= 0
        if op == 'eq0':
            return self.evi(a[0]) == 0
        if op == 'feq0':
            return self.ev(a[0]) % self.prime == 0
        if op == 'not':
            return not self.ev(a[0])
        if op == 'andb':
            return bool(self.ev(a[0])) and bool(self.ev(a[1]))
        if op == 'const':
            return a[0]
        if op == 'ite':
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if op == 'bsym':
            return bool(h64('bool', self.seed, a[0]) & 1)
        if op == 'isv':
            return h64('isv', self.seed, self.deep(a[0])) % 2 == a[1]
        if op == 'same':
            return self.deep(a[0]) == self.deep(a[1])
        if op in ('opq', 'unk'):
            return ('o', x.a[0] if isinstance(x.a[0], str) else self.deep(x.a[0]))
        if op == 'str':
            return ('s', a[0])
        if op == 'rand':
            return self.red(self.typed(('rand', self.deep(a)), 'any'))
        if op == 'app' and a[0] in ('int_le', 'int_be') and isinstance(a[1], T) and a[1].op == 'seq':
            l = self.ev(a[1])
            if len(l) > 20000 or not all(isinstance(y, int) and 0 <= y < 256 for y in l):
                raise Undef('bytes')
            return self.red(int.from_bytes(bytes(l), 'little' if a[0] == 'int_le' else 'big'))
        if op == 'app' and self.flat and a[0] in ('int_le', 'int_be') and isinstance(a[1], T) and a[1].op == 'base':
            l = self.elems(a[1], 0, self.evi(t.mk('len', a[1])))
            if len(l) > 20000 or not all(isinstance(y, int) and 0 <= y < 256 for y in l):
                raise Undef('bytes')
            return self.red(int.from_bytes(bytes(l), 'little' if a[0] == 'int_le' else 'big'))
        if op == 'app':
            ty = a[-1] if isinstance(a[-1], str) else 'any'
            return self.red(self.typed(('app', a[0], self.deep(a[1:])), ty))
        if op == 'cw':
            return self.typed(('cw', a[0], self.deep(a[1])), a[2])
        if op in ('bytes_le', 'bytes_be'):
            return ('o', (op, self.deep(a[0])))
        if op == 'final':
            # what a sequence of map updates leaves under every key
            m = {}
            for e in self.ev(a[0]):
                m[self.deep(e[3][0])] = self.deep(e[3][1])
            return tuple(sorted(m.items(), key=repr))
        if op == 'mref':
            raise Undef('reference')
        # anything else is an uninterpreted constructor
        return ('o', (op, self.deep(a)))

    def seg(self, g):
        op, a = g.op, g.a
        if op == 'lit':
            return [self.ev(y) for y in a[0]]
        if op == 'sub':
            n = self.evi(a[2])
            s = self.evi(a[1])
            if n < 0 or s < 0:
                raise Undef('slice')
            return self.elems(a[0], s, n)
        if op == 'fill':
            n = self.evi(a[1])
            if n < 0 or n > 300000:
                raise Undef('fill')
            return [self.ev(a[0])] * n
        if op == 'flat':
            n = self.evi(a[1])
            if n < 0 or n > 3000:
                raise Undef('count')
            out = []
            b = mk('bv', a[0])
            for i in range(n):
                out += self.bind({b: i}, a[2])
            return out
        raise Undef(op)


def show_key(x):
    return x


def facts_hold(v, st):
    f, v.field = v.field, False
    try:
        for kind, p in st.pc:
            x = v.ev(p)
            if kind == 'ge' and x < 0 or kind == 'eq' and x != 0 or kind == 'ne' and x == 0:
                return False
        for c, b in st.bf.items():
            if c.op == 'feq0':
                continue
            if bool(v.ev(c)) != b:
                return False
    finally:
        v.field = f
        if f:
            v.memo = {}
    return True


def free_lens(x, acc, seen):
    if isinstance(x, tuple):
        for y in x:
            free_lens(y, acc, seen)
        return
    if not isinstance(x, T) or x.id in seen:
        return
    seen.add(x.id)
    if x.op == 'len':
        acc.add(x)
    if x.op == 'sym':
        acc.add(x)
    free_lens(x.a, acc, seen)


def valuations(st, terms, tries=400, want=12, field=False, fix=None, hook=None, seed0=0, prime=P, big=False):
    """valuations satisfying the facts of a state.  Symbols pinned by equalities are solved for."""
    ats = set()
    seen = set()
    for kind, p in st.pc:
        free_lens(p, ats, seen)
    for c in st.bf:
        free_lens(c, ats, seen)
    ats = sorted(ats)
    out = 0
    ms = set()
    if any(mentions(x, 'repr', ms) for x in list(terms) + [p for _, p in st.pc] + list(st.bf)):
        fix = dict(fix or {})
        fix.setdefault(PSYM, prime)
        ats = [a for a in ats if a is not PSYM]
    for s in range(tries):
        v = Val(seed0 * 100003 + s, field, fix, prime=prime, hook=hook)
        v.flat = s % 11 == 6
        if s % 3 == 0:
            v.maxlen = (3, 8, 20, 70)[(s // 3) % 4]
        if big:
            v.maxlen = 1 << (40, 62, 9, 13)[s % 4]
        try:
            if big and s % 3 == 1:
                extremes(v, st)
            elif s % 4 == 3:
                edges(v, st)
            good = repair(v, st, ats)
        except (Undef, OverflowError, RecursionError):
            continue
        if good:
            out += 1
            yield v
            if out >= want:
                return


def extremes(v, st):
    """some symbols start at the upper end their facts allow"""
    for i, (kind, p) in enumerate(st.pc):
        ms = [m for m, c in p.a[0] if m]
        if kind != 'ge' or len(ms) != 1 or len(ms[0]) != 1 or not settable(ms[0][0]):
            continue
        c = dict(p.a[0])
        k, b = c[ms[0]], c.get((), 0)
        if k < 0 and h64('ext', v.seed, i) % 2:
            hi = t.bounds(ms[0][0])[1]
            val = b // -k - h64('ext2', v.seed, i) % 3
            if hi is not None:
                val = min(val, hi - h64('ext2', v.seed, i) % 3)
            setv(v, ms[0][0], max(val, 0))


def edges(v, st):
    """every symbol at a corner of what its own facts allow"""
    hi = {}
    for kind, p in st.pc:
        ms = [m for m, c in p.a[0] if m]
        if kind == 'ge' and len(ms) == 1 and len(ms[0]) == 1 and (settable(ms[0][0]) or quotient(ms[0][0]) is not None):
            c = dict(p.a[0])
            if c[ms[0]] < 0:
                b = c.get((), 0) // -c[ms[0]]
                a = ms[0][0]
                hi[a] = min(b, hi.get(a, b))
    for i, a in enumerate(sorted(hi)):
        if hi[a] < 0 or a.op == 'len' and hi[a] > 1 << 40:
            continue
        r = h64('edge', v.seed, i)
        val = max(0, min(hi[a], (0, 1, 2, hi[a], hi[a] - 1)[r % 5]))
        q = quotient(a)
        if q is not None:
            # a quotient at its bound: the dividend follows from the divisor
            d = v.evi(a.a[1])
            val = max(0, val * d - (h64('edgeq', v.seed, i) % d if d > 0 and a.op == 'ceildiv' else 0))
            a = q
        setv(v, a, val)


def quotient(a):
    """the symbol a quotient divides"""
    if a.op in ('ceildiv', 'div') and isp(a.a[0]):
        x = t.as_atom(a.a[0])
        if x is not None and settable(x) and const(a.a[1]) != 0:
            return x
    return None


def settable(a):
    if a.op == 'len' and a.a[0].op == 'base' and isinstance(a.a[0].a[0], T) and a.a[0].a[0].op in ('bytes_le', 'bytes_be'):
        return False
    if a.op in ('sym', 'len'):
        return True
    return a.op == 'app' and a.a[0] in ('int_le', 'int_be') and isinstance(a.a[1], T) and a.a[1].op == 'seq' and \
        len(a.a[1].a[0]) == 1 and a.a[1].a[0][0].op == 'sub' and a.a[1].a[0][0].a[0].op == 'base' and \
        a.a[1] is t.whole(a.a[1].a[0][0].a[0])


def setv(v, a, val):
    if a.op == 'app':
        base = a.a[1].a[0][0].a[0]
        bk, _ = v.basekey(base)
        n = (val.bit_length() + 7) // 8 + h64('pad', v.seed, val) % 3
        l = list(val.to_bytes(n, 'little' if a.a[0] == 'int_le' else 'big'))
        v.arr[bk] = l
        setv(v, mk('len', base), n)
        return
    if a.op == 'len':
        bk = None
        try:
            bk, _ = v.basekey(a.a[0])
        except (Undef, IndexError):
            pass
        if bk is not None:
            v.fix[('len', bk)] = val
    v.fix[a] = val
    v.memo = {}
    v.memo_i = {}
    v.memo_r = {}
    v.itc = {}


def repair(v, st, ats):
    """adjusts single symbols until the linear facts hold"""
    v_field = v.field
    v.field = False
    try:
        for rnd in range(30):
            bad = None
            for kind, p in st.pc:
                x = v.ev(p)
                if kind == 'ge' and x < 0 or kind == 'eq' and x != 0 or kind == 'ne' and x == 0:
                    bad = (kind, p, x)
                    break
            if bad is None:
                break
            kind, p, x = bad
            cands = [(m[0], c) for m, c in p.a[0] if len(m) == 1 and settable(m[0])]
            quot = [(m[0], c) for m, c in p.a[0] if len(m) == 1 and m[0].op in ('ceildiv', 'div')]
            if quot and (not cands or (v.seed + rnd) % 2):
                q, c = quot[0]
                num = [(m[0], k) for m, k in q.a[0].a[0] if len(m) == 1 and m[0].op in ('sym', 'len') and settable(m[0]) and k == 1]
                if num:
                    # move the numerator of a quotient
                    d = -x // c if kind != 'ne' else 1
                    a, dv = num[0][0], v.ev(q.a[1])
                    nv = v.ev(a) + d * dv
                    lo, hi = t.bounds(a)
                    if d and not (lo is not None and nv < lo or hi is not None and nv > hi):
                        setv(v, a, nv)
                        continue
            if not cands:
                return False
            a, c = cands[(v.seed + rnd * 7) % len(cands)]
            cur = v.ev(a)
            if kind == 'ne':
                setv(v, a, cur + 1)
                continue
            slack = 0 if kind == 'eq' else h64('slack', v.seed, rnd) % 5
            # c*delta = slack - x
            need = slack - x
            d = need // c if (need % c == 0) else (need // c + (1 if kind == 'ge' and c > 0 else 0))
            if kind == 'ge' and c < 0:
                d = -((need + (-c) - 1) // (-c))
            nv = cur + d
            lo, hi = t.bounds(a)
            if a.op == 'app':
                lo, hi = 0, None
            if lo is not None and nv < lo or hi is not None and nv > hi:
                # move something else next time
                continue
            if d == 0:
                continue
            setv(v, a, nv)
        else:
            return False
    finally:
        v.field = v_field
        v.memo = {}
        v.memo_i = {}
        v.memo_r = {}
    return facts_hold(v, st)


def differ(st, pairs, field=False, tries=400, want=12, fix=None, hook=None, prime=P, big=False):
    """(witness text, index) when some valuation satisfying the facts separates a pair; None otherwise.
    Second component of the result counts the valuations tried."""
    n = 0
    t0 = time.time()
    for v in valuations(st, [x for p in pairs for x in p], tries, want, field, fix, hook, prime=prime, big=big):
        if time.time() - t0 > 40:
            break
        v.until = time.time() + 5
        try:
            for i, (a, b) in enumerate(pairs):
                x, y = v.ev(a), v.ev(b)
                if x != y:
                    return (describe(v, st), i, x, y), n
            n += 1
        except (Undef, OverflowError, RecursionError, ZeroDivisionError, TypeError):
            continue
    return None, n


def describe(v, st):
    ats = set()
    seen = set()
    for kind, p in st.pc:
        free_lens(p, ats, seen)
    out = []
    for a in sorted(ats)[:12]:
        try:
            out.append('%s=%s' % (t.show(a), v.evi(a)))
        except Undef:
            pass
    return ', '.join(out)
