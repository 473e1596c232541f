"""Hash functions, HMAC and HKDF: H01-H08."""
import os, time
import re
import traceback
from . import terms as t, interp, loops, lin, prove, evalt, hashref
from .terms import mk, C, A, isp, const, T
from .interp import Unsupported, Split, Panic, State

FAMILIES = [
    dict(name='MD5', self='jester_hashes::md5::MD5Hash', B=64, w=32, n=4, little=True, blake=False, iv=hashref.MD5_IV),
    dict(name='SHA-1', self='jester_hashes::sha1::SHA1Hash', B=64, w=32, n=5, little=False, blake=False, iv=hashref.SHA1_IV),
    dict(name='BLAKE2b', self='jester_hashes::blake::blake2b::Blake2b', B=128, w=64, n=8, little=True, blake=True, iv=hashref.B2B_IV),
    dict(name='BLAKE2s', self='jester_hashes::blake::blake2s::Blake2s', B=64, w=32, n=8, little=True, blake=True, iv=hashref.B2S_IV),
]
HF = 'HashFunction'
U8 = ('uint', 'u8')


class Fail(Exception):
    """an anchor is missing"""


def guard(rep, what, f, limit=240):
    """runs one obligation; what the engine cannot handle is left undecided"""
    from . import budget
    try:
        if budget.over():
            raise Unsupported('time budget')
        with budget.obligation(limit):
            return f()
    except (Unsupported, Split, Panic, evalt.Undef, RecursionError, AttributeError, IndexError, TypeError, ValueError,
            KeyError, AssertionError, MemoryError) as e:
        if os.environ.get("JSA_TB"):
            traceback.print_exc()
        rep.unknown(what, '%s: %s' % (type(e).__name__, str(e)[:300]))
    return None


class Dead(Exception):
    """a candidate that panics for every input"""


class Hash:
    def __init__(self, prog, fam):
        self.p = prog
        self.fam = fam
        self.__dict__.update({k: v for k, v in fam.items() if k != 'self'})
        self.ty = ('adt', fam['self'], ())
        self.I = interp.Interp(prog)
        self.keys = {}
        for m in ('init_hash', 'update_hash', 'finish_hash', 'digest_message'):
            self.keys[m] = self.method('HashFunction', m)
        for m in ('block_size', 'output_size'):
            self.keys[m] = self.method('BlockHashFunction', m)
        self.types = {}
        for im in prog.impls:
            if im.get('trait') and im['trait'].split('::')[-1] == HF and \
                    self.I.rty(im['crate'], im['self'], {}) == self.ty:
                for it in im['items']:
                    if it[0] in ('Context', 'HashState', 'HashData'):
                        self.types[it[0]] = self.I.rty(im['crate'], it[3], {})
        if len(self.types) != 3:
            raise Fail('associated types of %s' % fam['self'])
        self.raw_key = self.method('HashValue', 'raw', self.types['HashData'])
        self.wty = 'u%d' % self.w
        self._summary = None

    def method(self, trait, m, ty=None):
        r = self.I.find_impl(trait, m, ty or self.ty)
        if r is None:
            raise Fail('%s::%s of %s' % (trait, m, ty or self.ty))
        return r[0]

    def interp(self, opaque=True):
        I = interp.Interp(self.p)
        if opaque:
            s = self.summary()
            I.opaque_fns[s.key] = lambda I_, st, args, ci: s.apply(I_, st, args)
        return I

    # -------------------------------------------------------- symbolic states
    def sym_value(self, I, ty, name):
        if ty[0] == 'array' and isinstance(ty[2], int) and ty[2] <= 16 and ty[1][0] == 'uint' and ty[1][1] in ('u32', 'u64'):
            b = mk('base', name, ty[1])
            return t.lit(tuple(A(mk('at', b, C(i), ty[1][1])) for i in range(ty[2])))
        if ty[0] in ('ref', 'ptr'):
            return self.sym_value(I, ty[2], name)
        if ty[0] == 'adt' and ty[1].startswith('jester'):
            adt = self.p.adts[ty[1]]
            if adt['kind'] == 'struct':
                tenv = dict(zip(adt['generics'], ty[2]))
                return mk('E', ty[1], 0, tuple(
                    self.sym_value(I, I.rty(adt['crate'], f['ty'], tenv), name + '.' + f['name'])
                    for f in adt['variants'][0]['fields']))
        return I.symbolic(ty, name)

    def leaves(self, v, path=()):
        """(path, value) of the scalar and sequence parts of a state value"""
        if isinstance(v, T) and v.op == 'E':
            for i, x in enumerate(v.a[2]):
                yield from self.leaves(x, path + (('f', i),))
        else:
            yield path, v

    def word_group(self, v, path=()):
        """path of the part of a state that holds exactly the chaining words"""
        if isinstance(v, T) and v.op == 'E':
            fs = v.a[2]
            if len(fs) == self.n and all(isp(x) and self.wordlike(x) for x in fs):
                return path
            for i, x in enumerate(fs):
                r = self.word_group(x, path + (('f', i),))
                if r is not None:
                    return r
        elif isinstance(v, T) and v.op == 'seq' and len(v.a[0]) == 1 and v.a[0][0].op == 'lit' \
                and len(v.a[0][0].a[0]) == self.n and all(isp(x) and self.wordlike(x) for x in v.a[0][0].a[0]):
            return path
        return None

    def wordlike(self, x):
        a = t.as_atom(x)
        return a is not None and a.op in ('sym', 'at', 'cw') and a.a[-1] == self.wty

    def words_at(self, v, path):
        for e in path:
            v = v.a[2][e[1]]
        return list(v.a[2]) if v.op == 'E' else list(self.I.split_lit(State(), v, self.n))

    def set_words(self, I, st, v, path, ws):
        if path:
            fs = list(v.a[2])
            fs[path[0][1]] = self.set_words(I, st, fs[path[0][1]], path[1:], ws)
            return mk('E', v.a[0], v.a[1], tuple(fs))
        return mk('E', v.a[0], v.a[1], tuple(ws)) if v.op == 'E' else t.lit(tuple(ws))

    # -------------------------------------------------------- the compression function
    def candidates(self):
        """local functions below update/finish taking one block of bytes and something to change"""
        I = self.I
        crate = self.p.crates['jester_hashes']
        edges = {}
        for b in crate.bodies.values():
            edges[b['key']] = {f.get('rkey', f['key']) for f in self.p.fn_values(b)} | {
                k for k in crate.bodies if k.startswith(b['key'] + '::{')}
        reach = set()
        todo = [self.keys['update_hash'], self.keys['finish_hash'], self.keys['digest_message']]
        while todo:
            k = todo.pop()
            if k in reach or k not in edges:
                continue
            reach.add(k)
            todo += [x for x in edges[k] if x]
        stty = self.types['HashState']
        self.wgty = None
        res = []
        for k in sorted(reach):
            b = crate.bodies[k]
            if k in self.keys.values() or '{closure' in k:
                continue
            tys = [I.rty('jester_hashes', b['locals'][i], {}) for i in range(1, b['argc'] + 1)]
            blk = [i for i, ty in enumerate(tys) if self.blockish(ty)]
            mut = [i for i, ty in enumerate(tys) if ty[0] == 'ref' and ty[1] and
                   (ty[2] == stty or self.holds_words(I, ty[2]))]
            ret = I.rty('jester_hashes', b['locals'][0], {})
            if len(blk) == 1 and (len(mut) == 1 or not mut and self.holds_words(I, ret)):
                res.append((k, tys, blk[0], mut[0] if mut else None))
        # innermost first
        def below(k):
            seen, todo = set(), [k]
            while todo:
                x = todo.pop()
                for y in edges.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen
        keys = {r[0] for r in res}
        return sorted(res, key=lambda r: (len(below(r[0]) & keys), tuple(r[1][r[2]]) and r[1][r[2]][0] != 'ref', r[0]))

    def blockish(self, ty):
        while ty[0] == 'ref':
            if ty[1]:
                return False
            ty = ty[2]
        if ty[0] == 'array':
            return ty[1] == U8 and ty[2] == self.B
        return ty == ('slice', U8)

    def holds_words(self, I, ty):
        if ty[0] == 'array' and ty[2] == self.n and ty[1] == ('uint', self.wty):
            return True
        try:
            v = self.sym_value(I, ty, 'x')
        except (Unsupported, KeyError):
            return False
        return isinstance(v, T) and v.op == 'E' and self.word_group(v) is not None

    def summary(self):
        if self._summary is None:
            errs = []
            self.dead = []
            for c in self.candidates():
                try:
                    try:
                        s = Summary(self, *c)
                    except Dead as e:
                        self.dead.append(e.args)
                        continue
                    if s.useful():
                        self._summary = s
                        break
                except (Unsupported, Split, Panic) as e:
                    errs.append('%s: %s' % (c[0], e))
            else:
                raise Unsupported('no compression function found for %s (%s)' % (self.name, '; '.join(errs)[:300]))
        return self._summary

    def ref(self, ws, bs, meta=None):
        if self.name == 'MD5':
            return hashref.md5(ws, bs)
        if self.name == 'SHA-1':
            return hashref.sha1(ws, bs)
        return hashref.blake2(ws, bs, meta[0], meta[1], self.w)


class Summary:
    """effect of the compression function on an arbitrary state and block"""

    def __init__(self, H, key, tys, blk, mut):
        self.H, self.key, self.tys, self.blk, self.mut = H, key, tys, blk, mut
        I = interp.Interp(H.p)
        I.wrap_plain = True
        st = State()
        self.inputs = []
        args = []
        self.bsyms = tuple(A(t.sym('B[%d]' % i, 'u8')) for i in range(H.B))
        for i, ty in enumerate(tys):
            if i == blk:
                # one variable per byte of the block
                v = t.lit(self.bsyms)
            else:
                v = H.sym_value(I, ty, 'in%d' % i)
            self.inputs.append(v)
            if i == mut:
                v = I.alloc(st, v, 'state')
                self.loc = v
            args.append(v)
        b = H.p.bodies[key]
        self.outs = []
        for s, r in I.run(key, args, st, dict()):
            new = I.mget(s, self.loc) if mut is not None else r
            self.outs.append((self.conds(s), ('ret', new, r)))
        self.nret = len(self.outs)
        if not self.outs and I.panics:
            raise Dead(key, I)
        for p in I.panics:
            self.outs.append((self.conds(p.st), ('panic', p)))
        self.I = I
        self.loopstats = I.loopstats
        self.proved = len(I.proved)
        src = self.inputs[mut] if mut is not None else None
        if src is None:
            for v in self.inputs:
                if H.word_group(v) is not None:
                    src = v
        self.src = src
        self.path = H.word_group(src) if src is not None else None
        ret0 = self.outs[0][1][1] if self.nret else None
        self.opath = self.path if mut is not None else (out_group(H, ret0) if ret0 is not None else None)
        if self.path is None or self.opath is None:
            raise Unsupported('no chaining words in %s' % key)
        self.win = H.words_at(src, self.path)
        self.metas = None

    def conds(self, s):
        return tuple(('f', f) for f in s.pc) + tuple(('c', c, v) for c, v in s.bf.items())

    def useful(self):
        for c, o in self.outs:
            if o[0] == 'ret':
                ws = self.H.words_at(o[1], self.opath)
                if all(w is not x for w, x in zip(ws, self.win)):
                    # every output word depends on the block
                    return all(any(loops.contains(w, t.as_atom(b)) for b in self.bsyms) for w in ws)
        return False

    def scalars(self):
        """integer and boolean inputs other than the words and the block"""
        out = []
        for i, v in enumerate(self.inputs):
            if i == self.blk:
                continue
            for p, x in self.H.leaves(v):
                if isp(x) and x not in self.win:
                    out.append(('%d%s' % (i, p), x))
                elif isinstance(x, T) and x.op == 'bsym':
                    out.append(('%d%s' % (i, p), x))
        return out

    def meta_of(self, conds, new):
        """(counter, flag) a BLAKE2 path of the function stands for, read off the roles of its inputs"""
        H = self.H
        ints = [x for n, x in self.scalars() if isp(x) and t.as_atom(x).a[-1] == 'u%d' % (2 * H.w)]
        if not ints:
            ints = [x for n, x in self.scalars() if isp(x) and t.as_atom(x).a[-1] in ('u64', 'u128', 'usize')]
        flags = [x for n, x in self.scalars() if not isp(x)]
        if len(flags) > 1:
            # those the function looks at
            flags = [f for f in flags if any(c[0] == 'c' and c[1] is f for cs, o in self.outs for c in cs)]
        if len(flags) != 1:
            raise Unsupported('final block flag of %s not identified' % self.key)
        fl = None
        for c in conds:
            if c[0] == 'c' and c[1] is flags[0]:
                fl = c[2]
        return ints, flags[0], fl

    def choose_metas(self):
        """per returning path the (counter, flag) value; decided by comparison with the reference"""
        if self.metas is not None:
            return self.metas
        self.metas = []
        H = self.H
        for conds, o in self.outs:
            if o[0] != 'ret':
                self.metas.append(None)
                continue
            if not H.blake:
                self.metas.append((None, None, H.ref(self.win, list(self.bsyms))))
                continue
            ints, flag, fl = self.meta_of(conds, o[1])
            ws = H.words_at(o[1], self.opath)
            best = None
            for f in ([fl] if fl is not None else [True, False]):
                for x in ints:
                    want = H.ref(self.win, list(self.bsyms), (x, f))
                    if best is None:
                        best = (x, f if fl is not None else flag, want)
                    if all(a is b for a, b in zip(ws, want)):
                        best = (x, f if fl is not None else flag, want)
            if best is None:
                raise Unsupported('byte counter of %s not identified' % self.key)
            if fl is None:
                raise Unsupported('flag of %s' % self.key)
            self.metas.append(best)
        return self.metas

    # -------------------------------------------------------- use as an opaque step
    def apply(self, I, st, args):
        H = self.H
        m = {}
        for i, (v, a) in enumerate(zip(self.inputs, args)):
            if i == self.mut:
                a = I.mget(st, a)
            if i == self.blk:
                a = I.mget(st, a)
                if not prove.int_equal(st, t.slen(a), C(H.B)):
                    raise Unsupported('block of unknown length')
                block = a
                continue
            self.bind(I, st, v, a, m)
        metas = self.choose_metas()
        for (conds, o), meta in zip(self.outs, metas):
            ok = True
            for c in conds:
                if c[0] == 'f':
                    p = loops.tsubst(c[1][1], m)
                    cond = {'ge': t.ge0, 'eq': t.eq0, 'ne': lambda q: t.bnot_(t.eq0(q))}[c[1][0]](p)
                    want = True
                else:
                    cond = loops.tsubst(c[1], m) if isinstance(c[1], T) else c[1]
                    want = c[2]
                if st.need(cond) != want:
                    ok = False
                    break
            if not ok:
                continue
            if o[0] == 'panic':
                raise Panic(o[1].kind, o[1].msg)
            ws = [loops.tsubst(w, m) for w in self.win]
            ch = chain_of(ws)
            ct = t.EMPTY
            if H.blake:
                ct = t.lit((mk('E', '()', 0, (loops.tsubst(meta[0], m), loops.tsubst(meta[1], m) if isinstance(meta[1], T) else meta[1])),))
            ch = mk('chain', ch.a[0], t.cat(ch.a[1], block), t.cat(ch.a[2], ct))
            new = loops.tsubst(H.set_words(I, st, o[1], self.opath, self.win), m)
            nw = [A(mk('cw', i, ch, H.wty)) for i in range(H.n)]
            new = H.set_words(I, st, new, self.opath, nw)
            if self.mut is not None:
                s2 = st.copy()
                I.mset(s2, args[self.mut], new)
                return [(s2, interp.UNIT)]
            return [(st, new)]
        raise Unsupported('no path of the compression function applies')

    def bind(self, I, st, v, a, m):
        a = I.expand(st, a)
        if isinstance(v, T) and v.op == 'E':
            a = I.open(st, a)
            for x, y in zip(v.a[2], a.a[2]):
                self.bind(I, st, x, y, m)
        elif isp(v):
            m[t.as_atom(v)] = a
        elif isinstance(v, T) and v.op == 'bsym':
            m[v] = a
        elif isinstance(v, T) and v.op == 'seq':
            g = v.a[0]
            if len(g) == 1 and g[0].op == 'lit':
                for i, x in enumerate(g[0].a[0]):
                    m[t.as_atom(x)] = I.get(st, a, C(i))
            elif len(g) == 1 and g[0].op == 'sub':
                m[g[0].a[0]] = a
        elif isinstance(v, T) and v.op in ('opq',):
            m[v] = a


def out_group(H, v):
    def find(v, path):
        if isinstance(v, T) and v.op == 'E':
            if len(v.a[2]) == H.n and all(isp(x) for x in v.a[2]):
                return path
            for i, x in enumerate(v.a[2]):
                r = find(x, path + (('f', i),))
                if r is not None:
                    return r
        elif isinstance(v, T) and v.op == 'seq' and const(t.slen(v)) == H.n:
            return path
        return None
    return find(v, ())


def chain_of(ws):
    """the chaining value a list of words stands for"""
    ats = [t.as_atom(w) for w in ws]
    if all(a is not None and a.op == 'cw' and a.a[0] == i for i, a in enumerate(ats)) and len({a.a[1] for a in ats}) == 1:
        return ats[0].a[1]
    if any(has_cw(w) for w in ws):
        raise Unsupported('mixture of chaining words')
    return mk('chain', mk('init', *ws), t.EMPTY, t.EMPTY)


_hc = {}


def cws(v, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, tuple):
        for x in v:
            cws(x, acc, seen)
    elif isinstance(v, T) and v.id not in seen:
        seen.add(v.id)
        if v.op == 'cw':
            acc.add(v)
        else:
            cws(v.a, acc, seen)
    return acc


def has_cw(v):
    return bool(cws(v))


def unknowns(v, seen=None):
    """values the engine left arbitrary"""
    seen = set() if seen is None else seen
    if isinstance(v, tuple):
        return any(unknowns(x, seen) for x in v)
    if not isinstance(v, T) or v.id in seen:
        return False
    seen.add(v.id)
    if v.op in ('sym', 'base', 'opq', 'bsym', 'unk') and (v.op == 'unk' or 'phi' in str(v.a[0]) and '#' in str(v.a[0])):
        return True
    return any(unknowns(x, seen) for x in v.a)


def compare(rep, I, st, key, what, got, want, where, field=False, hook=None, prime=evalt.P):
    """one obligation: got and want are equal in every execution described by st"""
    try:
        same = prove.equal(I, st, got, want)
        why = 'values not shown equal'
    except (Unsupported, Split, Panic) as e:
        same = False
        why = str(e)[:200]
    if same:
        rep.ok(what)
        return True
    if not unknowns(got) and not any(unknowns(f[1]) for f in st.pc):
        w, n = evalt.differ(st, [(got, want)], field=field, hook=hook, prime=prime)
        if w is not None:
            rep.violation(key, '%s: %s gives %s where %s is required (for instance when %s: %s instead of %s)' % (
                what, where, brief(got), brief(want), w[0] or 'any input', brief(w[2]), brief(w[3])))
            return False
        todo = list(prove.FAILED)
        if isp(got) and isp(want):
            todo.append((st, got, want))
        for z, x, y in todo:
            w, m = evalt.differ(z, [(x, y)], field=field, hook=hook, prime=prime, big=True)
            if w is not None:
                rep.violation(key, '%s: at one position %s has %s where %s is required (for instance when %s: %s instead of %s)' % (
                    what, where, brief(x), brief(y), w[0] or 'any input', brief(w[2]), brief(w[3])))
                return False
        why += ' (%d valuations agree)' % n
    rep.unknown(what, why + ': got %s want %s' % (brief(got), brief(want)))
    return None


def brief(x, n=300):
    s = t.show(x, 5) if isinstance(x, T) else repr(x)
    return s if len(s) <= n else s[:n] + '…'


def hashes(prog, rep):
    out = []
    for f in FAMILIES:
        try:
            out.append(Hash(prog, f))
        except Fail as e:
            rep.violation('missing:' + f['name'], '%s has no %s: the public hash interface is gone' % (f['name'], e))
    return out


# ---------------------------------------------------------------------------------------------- H03
def check_H03(prog, rep):
    rep.rule = ('The compression function of each algorithm (found by signature below update/finish) is evaluated '
                'abstractly on an arbitrary chaining value, block, counter and flag; the normal form of every output '
                'word must be that of the reference function built from the RFC, on every path. Initial words likewise.')
    fn = {}
    for H in hashes(prog, rep):
        def one():
            s = H.summary()
            fn[H.name] = '%s (%d returning paths, %d obligations inside)' % (s.key, s.nret, s.proved)
            metas = s.choose_metas()
            for (conds, o), meta in zip(s.outs, metas):
                if o[0] != 'ret':
                    continue
                got = H.words_at(o[1], s.opath)
                want = meta[2]
                fl = '' if not H.blake else (' (last block)' if meta[1] is True else ' (not last)')
                st = State()
                for c in conds:
                    if c[0] == 'f':
                        st.pc += (c[1],)
                    else:
                        st.bf[c[1]] = c[2]
                bad = [i for i in range(H.n) if got[i] is not want[i]]
                if not bad:
                    for i in range(H.n):
                        rep.ok('%s compression word %d%s' % (H.name, i, fl))
                    continue
                w, n = evalt.differ(st, [(got[i], want[i]) for i in bad], tries=60, want=4)
                if w is not None:
                    i = bad[w[1]]
                    rep.violation('%s:compress' % H.name,
                                  '%s: output word %d%s of one compression step is not that of the RFC (for instance when %s: %#x '
                                  'instead of %#x)' % (s.key, i, fl, w[0] or 'all inputs are as drawn', w[2], w[3]))
                else:
                    rep.unknown('%s compression%s' % (H.name, fl), 'normal forms differ, %d valuations agree' % n)
        guard(rep, '%s compression' % H.name, one)

        def iv():
            I = H.interp(False)
            st = State()
            ctx = H.sym_value(I, H.types['Context'], 'ctx')
            if H.blake:
                # H08 settles that anything longer is refused
                ctx = with_ctx(H, ctx, A(t.sym('output_len', 'u8')), short_key())
            res = I.run(H.keys['init_hash'], [ctx], st)
            if not res:
                rep.violation('%s:init' % H.name, 'init_hash never returns')
            path = None
            for s, v in res:
                gen = H.sym_value(I, H.types['HashState'], 'state')
                path = H.word_group(gen)
                got = H.words_at(v, path)
                want = [C(x) for x in H.iv]
                if H.blake:
                    p = param_word(H, I, s, ctx)
                    want[0] = t.bxor(want[0], p, H.w)
                for i in range(H.n):
                    compare(rep, I, s, '%s:iv' % H.name, '%s initial word %d' % (H.name, i), got[i], want[i],
                            H.keys['init_hash'])
        guard(rep, '%s initial value' % H.name, iv)
    rep.facts['functions'] = fn


def ctx_parts(H, ctx):
    """(output length, key) of a BLAKE2 context by the public field names"""
    adt = H.p.adts[H.types['Context'][1]]
    names = [f['name'] for f in adt['variants'][0]['fields']]
    return ctx.a[2][names.index('output_len')], ctx.a[2][names.index('key')]


def with_ctx(H, ctx, out, key):
    adt = H.p.adts[H.types['Context'][1]]
    names = [f['name'] for f in adt['variants'][0]['fields']]
    fs = list(ctx.a[2])
    fs[names.index('output_len')] = out
    fs[names.index('key')] = key
    return mk('E', ctx.a[0], ctx.a[1], tuple(fs))


def short_key():
    return mk('seq', (mk('sub', mk('base', 'key', U8), t.ZERO, A(t.sym('key_len', 'u8'))),))


def param_word(H, I, s, ctx):
    out, key = ctx_parts(H, ctx)
    return t.bxor(t.bxor(C(0x01010000), t.shl(t.slen(key), 8, H.w), H.w), out, H.w)


# ---------------------------------------------------------------------------------------------- H01, H02
LEN = 2 ** 61 - 129    # two blocks below the 2^64 bits that end the range of MD5 and SHA-1 (in bytes)


def total_fact(s, total, limit=LEN):
    s.assume(t.ge0(t.sub(C(limit), total)), True)


class Absorb:
    """The invariant between what has been absorbed and the state, found from the code and then proved inductive."""

    def __init__(self, H, rep):
        self.H, self.rep = H, rep
        self.I = H.interp()
        self.gen = H.sym_value(self.I, H.types['HashState'], 'state')
        self.path = H.word_group(self.gen)
        if self.path is None:
            raise Unsupported('no chaining words in the state of ' + H.name)
        self.roles = {}
        self.I.opaque_fns[H.keys['init_hash']] = self.seeded_init

    def seeded_init(self, I, st, args, ci):
        return [(s, self.seed(s, v)) for s, v in I.run(self.H.keys['init_hash'], args, st)]

    # ---- pieces
    def seed(self, s, v):
        """marks the words of a fresh state as a chaining value"""
        H = self.H
        ws = H.words_at(v, self.path)
        ch = chain_of(ws)
        self.iv = ch
        nw = [A(mk('cw', i, ch, H.wty)) for i in range(H.n)]
        return H.set_words(self.I, s, v, self.path, nw)

    def chain(self, v):
        return chain_of(self.H.words_at(v, self.path))

    def rest(self, v):
        """leaves other than the words"""
        for p, x in self.H.leaves(v):
            if p[:len(self.path)] != self.path:
                yield p, x

    def at(self, v, p):
        for e in p:
            v = v.a[2][e[1]]
        return v

    def put(self, v, p, x):
        if not p:
            return x
        fs = list(v.a[2])
        fs[p[0][1]] = self.put(fs[p[0][1]], p[1:], x)
        return mk('E', v.a[0], v.a[1], tuple(fs))

    # ---- candidate roles, as functions of (X length, rest length)
    def int_roles(self):
        B = self.H.B
        return [('bytes compressed', lambda X, r: X), ('bits compressed', lambda X, r: t.scale(X, 8)),
                ('bytes absorbed', lambda X, r: t.add(X, r)), ('bits absorbed', lambda X, r: t.scale(t.add(X, r), 8)),
                ('bytes buffered', lambda X, r: r), ('bits buffered', lambda X, r: t.scale(r, 8)),
                ('free bytes', lambda X, r: t.sub(C(B), r)),
                ('blocks compressed', lambda X, r: self.blocks(X))]

    def blocks(self, X):
        q, r = self.I.polydiv(X, C(self.H.B))
        if q is None or r is not t.ZERO:
            q, _ = t.divmod_(X, C(self.H.B))
        return q

    def ctxs(self):
        """(label, context, facts, initial message) cases"""
        H = self.H
        ctx = H.sym_value(self.I, H.types['Context'], 'ctx')
        if not H.blake:
            return [('', ctx, [], t.EMPTY)]
        out, key = ctx_parts(H, ctx)
        kl = A(t.sym('key_len', 'usize'))
        key = mk('seq', (mk('sub', mk('base', 'key', U8), t.ZERO, kl),))
        mx = 64 if H.w == 64 else 32
        valid = [t.ge0(t.sub(out, t.ONE)), t.ge0(t.sub(C(mx), out))]
        c1 = with_ctx(H, ctx, out, t.EMPTY)
        c2 = with_ctx(H, ctx, out, key)
        padded = t.cat(key, t.fill(t.ZERO, t.sub(C(H.B), kl)))
        return [(' without key', c1, valid, t.EMPTY),
                (' with key', c2, valid + [t.ge0(t.sub(kl, t.ONE)), t.ge0(t.sub(C(mx), kl))], padded)]

    def fresh_state(self, facts):
        st = State()
        for f in facts:
            if not st.assume(f, True):
                raise Unsupported('contradictory context')
        return st

    def meta_want(self, n):
        """counter and flag of the first n (all non-final) blocks"""
        k = t.fresh('k', 'nat')
        e = mk('E', '()', 0, (t.scale(t.add(A(k), t.ONE), self.H.B), False))
        return t.comp(k, n, e)

    # ---- init and first update: find the roles
    def infer(self, label, ctx, facts, pre):
        H, I, rep = self.H, self.I, self.rep
        st = self.fresh_state(facts)
        outs = I.run(H.keys['init_hash'], [ctx], st)
        if not outs:
            raise Unsupported('init_hash%s never returns' % label)
        N = mk('base', 'input', U8)
        n = A(mk('len', N))
        obs = []
        for s, v in outs:
            v = self.seed(s, v)
            obs.append((s, v, t.ZERO, t.slen(pre)))
            s2 = s.copy()
            total_fact(s2, n)
            ref = I.alloc(s2, v, 'state')
            for s3, _ in I.run(H.keys['update_hash'], [ref, ctx, t.whole(N)], s2):
                w = I.mget(s3, ref)
                X = t.slen(self.chain(w).a[1])
                obs.append((s3, w, X, t.sub(t.add(t.slen(pre), n), X)))
        self.first = [(o[0], o[1]) for o in obs]
        for p, g in self.rest(self.gen):
            vals = [self.at(o[1], p) for o in obs]
            role = None
            if isp(g):
                for name, f in self.int_roles():
                    if all(prove.int_equal(o[0], x, f(o[2], o[3])) for o, x in zip(obs, vals)):
                        role = ('int', name, f)
                        break
                if role is None and not any(unknowns(x) for x in vals):
                    # the role no small example contradicts; the obligations below then decide
                    for name, f in self.int_roles():
                        pairs = [(o[0], x, f(o[2], o[3])) for o, x in zip(obs, vals)]
                        res = [evalt.differ(z, [(x, y)]) for z, x, y in pairs]
                        if all(w is None and n for w, n in res):
                            role = ('int', name, f)
                            break
            elif isinstance(g, T) and g.op == 'seq':
                msg = t.cat(pre, t.whole(N))
                m0 = pre
                seqs = [m0] + [msg] * (len(obs) - 1)
                fixed = const(t.slen(g))
                ok = True
                for i, (o, x) in enumerate(zip(obs, vals)):
                    m = m0 if o[2] is t.ZERO and i_is_init(obs, i) else msg
                    try:
                        tail = prove.cases(I, o[0], lambda z: self.tail_ok(z, x, m, o[2], o[3], fixed is not None))
                    except (Unsupported, Split, Panic):
                        tail = False
                    ok = ok and tail
                if ok:
                    role = ('buf', 'fixed' if fixed is not None else 'exact', fixed)
            if role is None and all(x is vals[0] for x in vals) and not unknowns(vals[0]):
                role = ('const', 'constant', vals[0])
            if role is None:
                raise Unsupported('role of state part %s of %s not recognised' % (p, H.name))
            if p in self.roles and self.roles[p][:2] != role[:2]:
                if self.roles[p][0] == 'const' or role[0] == 'const':
                    raise Unsupported('role of state part %s of %s differs between contexts' % (p, H.name))
            self.roles.setdefault(p, role)

    def tail_ok(self, z, x, m, X, r, fixed):
        _, want = self.I.cut(z, m, X)
        if fixed:
            x, _ = self.I.cut(z, x, r)
        return prove.seq_eq(self.I, z, x, want)

    # ---- a generic state satisfying the invariant
    def generic(self, st, tag='', limit=LEN):
        """(state value, absorbed P of q blocks, buffered R of r bytes)"""
        H, I = self.H, self.I
        q = t.sym('blocks' + tag, 'nat')
        r = t.sym('buffered' + tag, 'nat')
        Q, R = A(q), A(r)
        st.assume(t.ge0(Q), True)
        st.assume(t.ge0(R), True)
        P = mk('seq', (mk('sub', mk('base', 'absorbed' + tag, U8), t.ZERO, t.scale(Q, H.B)),))
        Bf = mk('seq', (mk('sub', mk('base', 'pending' + tag, U8), t.ZERO, R),))
        meta = self.meta_want(Q) if H.blake else t.EMPTY
        ch = mk('chain', self.iv.a[0], P, meta)
        v = H.set_words(I, st, self.gen, self.path, [A(mk('cw', i, ch, H.wty)) for i in range(H.n)])
        for p, role in self.roles.items():
            if role[0] == 'int':
                x = role[2](t.slen(P), R)
                if role[1] == 'blocks compressed':
                    x = Q
            elif role[0] == 'buf':
                x = Bf
                if role[1] == 'fixed':
                    x = t.cat(Bf, mk('seq', (mk('sub', mk('base', 'stale' + tag, U8), t.ZERO, t.sub(C(role[2]), R)),)))
            else:
                x = role[2]
            v = self.put(v, p, x)
        if limit is None:
            return v, P, Bf, Q, R
        total_fact(st, t.add(t.slen(P), R), limit)
        return v, P, Bf, Q, R

    def in_range(self, st, v, X, r):
        """every counter of the state lies in the range of its type"""
        for (p, role), (p2, g) in [(a, b) for a in self.roles.items() for b in self.rest(self.gen) if a[0] == b[0]]:
            if role[0] == 'int':
                ty = t.as_atom(g).a[-1]
                st.assume(t.ge0(t.sub(C(2 ** t.WID[ty] - 1), role[2](X, r))), True)

    def bound(self, st, Q, R, case):
        """how much may be pending: eager hashes keep less than a block, BLAKE2 keeps the last one back"""
        H = self.H
        if not H.blake:
            return st.assume(t.ge0(t.sub(C(H.B - 1), R)), True)
        ok = st.assume(t.ge0(t.sub(C(H.B), R)), True)
        if case == 'first':
            return ok and st.assume(t.eq0(Q), True)
        return ok and st.assume(t.ge0(t.sub(Q, t.ONE)), True) and st.assume(t.ge0(t.sub(R, t.ONE)), True)

    # ---- obligations
    def check_state(self, s, v, msg, what, key, where):
        """v is a state that has absorbed exactly msg"""
        H, I, rep = self.H, self.I, self.rep
        ch = self.chain(v)
        X = ch.a[1]
        xl = t.slen(X)
        total = t.slen(msg)
        pend = t.sub(total, xl)
        # recover what is buffered
        buf = None
        for p, role in self.roles.items():
            if role[0] == 'buf':
                x = self.at(v, p)
                buf = x
                if role[1] == 'fixed':
                    buf = None
                    bl = [self.at(v, q) for q, r2 in self.roles.items() if r2[0] == 'int' and r2[1] == 'bytes buffered']
                    if bl:
                        todo = self.cut_all(s, x, bl[0])
                        buf = todo
        if buf is None:
            raise Unsupported('no buffer')
        bufs = buf if isinstance(buf, list) else [(s, buf)]
        ok = True
        for z, b in bufs:
            ok = compare(rep, I, z, key, what + ': compressed and pending bytes', t.cat(X, b), msg, where) and ok
            # the pending length
            ok = compare(rep, I, z, key, what + ': pending length', t.slen(b), t.sub(total, xl), where) and ok
            lo = t.ge0(t.slen(b))
            if not H.blake:
                self.decide(z, t.ge0(t.sub(C(H.B - 1), t.slen(b))), what + ': less than a block pending', key, where)
            else:
                self.decide(z, t.ge0(t.sub(C(H.B), t.slen(b))), what + ': at most a block pending', key, where)
                z2 = z.copy()
                if z2.assume(t.ge0(t.sub(xl, t.ONE)), True):
                    self.decide(z2, t.ge0(t.sub(t.slen(b), t.ONE)), what + ': last block kept back', key, where)
        if H.blake:
            n = self.blocks(xl)
            compare(rep, I, s, key, what + ': counters and flags', ch.a[2], self.meta_want(n), where)
        for p, role in self.roles.items():
            x = self.at(v, p)
            if role[0] == 'int':
                compare(rep, I, s, key, '%s: %s' % (what, role[1]), x, role[2](xl, pend), where)
            elif role[0] == 'const':
                compare(rep, I, s, key, '%s: unchanged part' % what, x, role[2], where)
        return ok

    def cut_all(self, s, x, n):
        out, todo = [], [s.copy()]
        while todo:
            z = todo.pop()
            try:
                a, _ = self.I.cut(z, x, n)
                out.append((z, a))
            except Split as e:
                todo.extend(self.I.fork(z, e.cond))
        return out

    def decide(self, s, c, what, key, where):
        rep = self.rep
        if s.decide(c) is True:
            rep.ok(what)
            return
        bad = s.copy()
        if not bad.assume(c, False):
            rep.ok(what)
            return
        w, n = evalt.differ(bad, [(t.ZERO, t.ONE)])
        if w is not None and not any(unknowns(f[1]) for f in bad.pc):
            rep.violation(key, '%s does not hold in %s (for instance when %s)' % (what, where, w[0]))
        else:
            rep.unknown(what, 'not decided')

    def padding(self, msg):
        """the padded message of MD5 and SHA-1, by cases of the padding length z: facts and value"""
        H = self.H
        n = t.slen(msg)
        bits = t.scale(n, 8)
        bs = [t.wrap(t.shr(bits, 8 * i, 64) if i else bits, 8) for i in range(8)]
        if not H.little:
            bs = bs[::-1]
        z = A(t.sym('zeros', 'nat'))
        m = A(t.sym('padded_blocks', 'nat'))
        facts = [t.ge0(z), t.ge0(t.sub(C(63), z)), t.eq0(t.sub(t.scale(m, 64), t.add(t.add(n, z), C(9))))]
        return facts, t.cat(msg, t.lit((C(0x80),)), t.fill(t.ZERO, z), t.lit(tuple(bs)))

    def check_digest(self, s, v, msg, what, key, where, pre_ok=True):
        """v is the digest of exactly msg"""
        H, I, rep = self.H, self.I, self.rep
        cs = cws(v)
        chs = {c.a[1] for c in cs}
        if len(chs) != 1 or {c.a[0] for c in cs} != set(range(H.n)):
            if not H.blake or len(chs) != 1:
                rep.violation(key, '%s: the digest returned by %s is not made of the chaining words after one last block' % (
                    what, where))
                return
        ch = chs.pop()
        if ch.a[0] is not self.iv.a[0]:
            same = all(prove.val_equal(I, s, a, b) for a, b in zip(ch.a[0].a, self.iv.a[0].a))
            if not same:
                rep.unknown(what + ': initial value', 'chain starts elsewhere')
        if not H.blake:
            facts, want = self.padding(msg)
            z = s.copy()
            for f in facts:
                if not z.assume(f, True):
                    raise Unsupported('padding facts contradict the path')
            compare(rep, I, z, key, what + ': padded message', ch.a[1], want, where)
            return
        total = t.slen(msg)
        # blocks: all but the last are full; the last holds 1..B bytes (or none when nothing was absorbed)
        for label, cond, nb in (('empty', t.eq0(total), t.ZERO),
                                ('non-empty', t.ge0(t.sub(total, t.ONE)), A(t.sym('full_blocks', 'nat')))):
            z = s.copy()
            if not z.assume(cond, True):
                continue
            if label != 'empty':
                # the number of full blocks is unique: take what the chain says when it satisfies the definition
                q = t.slen(ch.a[2])
                if q is not None:
                    g = t.sub(q, t.ONE)
                    if all(z.decide(x) is True for x in (
                            t.ge0(g), t.ge0(t.sub(t.sub(total, t.scale(g, H.B)), t.ONE)),
                            t.ge0(t.sub(t.scale(q, H.B), total)))):
                        nb = g
                f = [t.ge0(nb), t.ge0(t.sub(t.sub(total, t.scale(nb, H.B)), t.ONE)),
                     t.ge0(t.sub(t.scale(t.add(nb, t.ONE), H.B), total))]
                if not all(z.assume(x, True) for x in f):
                    continue
            padn = t.sub(t.scale(t.add(nb, t.ONE), H.B), total)
            want = t.cat(msg, t.fill(t.ZERO, padn))
            compare(rep, I, z, key, '%s (%s): zero-padded blocks' % (what, label), ch.a[1], want, where)
            wm = t.cat(self.meta_want(nb), t.lit((mk('E', '()', 0, (total, True)),)))
            compare(rep, I, z, key, '%s (%s): byte counters and final flags' % (what, label), ch.a[2], wm, where)


def i_is_init(obs, i):
    return i == 0 or obs[i][0] is not obs[i - 1][0] and obs[i][3] is obs[0][3] and obs[i][2] is t.ZERO and False


def absorb(prog, rep, H, pid):
    name = H.name

    def inductive():
        ab = Absorb(H, rep)
        I = ab.I
        for label, ctx, facts, pre in ab.ctxs():
            ab.infer(label, ctx, facts, pre)
        rep.facts.setdefault('state invariants', []).append('%s: %s' % (name, ', '.join(
            '%s=%s' % ('.'.join(str(e[1]) for e in p) or 'state', r[1]) for p, r in sorted(ab.roles.items()))))
        for label, ctx, facts, pre in ab.ctxs():
            # init
            st = ab.fresh_state(facts)
            for s, v in I.run(H.keys['init_hash'], [ctx], st):
                v = ab.seed(s, v)
                ab.check_state(s, v, pre, '%s init%s' % (name, label), name + ':init', H.keys['init_hash'])
        label, ctx, facts, pre = ab.ctxs()[-1] if False else ab.ctxs()[0]
        gctx = H.sym_value(I, H.types['Context'], 'ctx')
        for case in (('first', 'later') if H.blake else ('any',)):
            # update from any state satisfying the invariant
            st = State()
            if H.blake:
                out, key = ctx_parts(H, gctx)
                mx = 64 if H.w == 64 else 32
                for f in (t.ge0(t.sub(out, t.ONE)), t.ge0(t.sub(C(mx), out)), t.ge0(t.sub(C(mx), t.slen(key)))):
                    st.assume(f, True)
            v, P, Bf, Q, R = ab.generic(st)
            if not ab.bound(st, Q, R, case):
                raise Unsupported('contradictory invariant')
            N = t.whole(mk('base', 'input', U8))
            su = st.copy()
            total_fact(su, t.psum([t.slen(P), R, t.slen(N)]))
            ref = I.alloc(su, v, 'state')
            I.panics = []
            n = 0
            for s, _ in I.run(H.keys['update_hash'], [ref, gctx, N], su):
                n += 1
                ab.check_state(s, I.mget(s, ref), t.cat(P, Bf, N), '%s update (%s, path %d)' % (name, case, n),
                               name + ':update', H.keys['update_hash'])
            if not n:
                rep.violation(name + ':update', 'update_hash of %s never returns' % name)
            # finish
            sf = st.copy()
            ref = I.alloc(sf, v, 'state')
            n = 0
            for s, d in I.run(H.keys['finish_hash'], [ref, gctx], sf):
                n += 1
                ab.check_digest(s, d, t.cat(P, Bf), '%s finish (%s, path %d)' % (name, case, n), name + ':finish',
                                H.keys['finish_hash'])
            if not n:
                rep.violation(name + ':finish', 'finish_hash of %s never returns' % name)
    guard(rep, name + ' incremental hashing', inductive)

    def oneshot():
        ab = Absorb(H, rep)
        I = ab.I
        seen = []
        for label, ctx, facts, pre in ab.ctxs():
            st = ab.fresh_state(facts)
            for s, v in I.run(H.keys['init_hash'], [ctx], st):
                ab.seed(s, v)
            N = t.whole(mk('base', 'input', U8))
            total_fact(st, t.slen(N))
            n = 0
            for s, d in I.run(H.keys['digest_message'], [ctx, N], st):
                n += 1
                ab.check_digest(s, d, t.cat(pre, N), '%s digest_message%s (path %d)' % (name, label, n), name + ':digest',
                                H.keys['digest_message'])
            if not n:
                rep.violation(name + ':digest', 'digest_message of %s never returns' % name)
    guard(rep, name + ' one-shot hashing', oneshot)

    def twice():
        # without any invariant: init, two updates, finish; only used to refute
        ab = Absorb(H, rep)
        I = ab.I
        sub = Silent(rep)
        ab.rep = sub
        for label, ctx, facts, pre in ab.ctxs():
            st = ab.fresh_state(facts)
            N1, N2 = t.whole(mk('base', 'input1', U8)), t.whole(mk('base', 'input2', U8))
            total_fact(st, t.add(t.slen(N1), t.slen(N2)))
            for s, v in I.run(H.keys['init_hash'], [ctx], st):
                v = ab.seed(s, v)
                ref = I.alloc(s, v, 'state')
                for s1, _ in I.run(H.keys['update_hash'], [ref, ctx, N1], s):
                    for s2, _ in I.run(H.keys['update_hash'], [ref, ctx, N2], s1):
                        for s3, d in I.run(H.keys['finish_hash'], [ref, ctx], s2):
                            ab.check_digest(s3, d, t.cat(pre, N1, N2), '%s two updates%s' % (name, label),
                                            name + ':split', H.keys['update_hash'])
        sub.close('%s hashed in two pieces' % name)
    if any(u.startswith(name + ' incremental') for u in rep.undecided):
        guard(rep, name + ' hashed in two pieces', twice)
        guard(rep, name + ' hashed in pieces of given lengths', lambda: pieces(rep, H))
    rep.facts['compression functions'] = rep.facts.get('compression functions', []) + [H.summary().key if H._summary else 'none']


def pieces(rep, H, panics=False):
    # without any invariant: contents arbitrary, lengths given; only used to refute
    B, name = H.B, H.name
    ls = [0, 1, B - 9, B - 8, B - 1, B, B + 1, 2 * B]
    seqs = [[a, b, c] for a in (1, B - 1, B, B + 1, 2 * B) for b in ls for c in (0, 1, B)]
    seqs += [[1] * 300, [B] * 20, [0] * 300 + [1], [B - 1, 1] * 12, [3] * 80, [B + 1] * 12]
    done, end = 0, time.time() + 90
    for label, ctx, facts, pre in (lambda ab: ab.ctxs())(Absorb(H, rep)):
        ab = Absorb(H, rep)
        I = ab.I
        ab.rep = Silent(rep)
        if H.blake and pre is not t.EMPTY:
            kl = t.as_atom(A(t.sym('key_len', 'usize')))
            sub = lambda x: loops.tsubst(x, {kl: C(16)})
            ctx, pre, facts = sub(ctx), sub(pre), [sub(f) for f in facts]
        for ns in seqs:
            if time.time() > end or rep.violations:
                break
            st = ab.fresh_state(facts)
            msg = pre
            try:
                ends = [(s, I.alloc(s, ab.seed(s, v), 'state')) for s, v in I.run(H.keys['init_hash'], [ctx], st)]
                for i, n in enumerate(ns):
                    N = mk('seq', (mk('sub', mk('base', 'input %d' % i, U8), t.ZERO, C(n)),)) if n else t.EMPTY
                    msg = t.cat(msg, N)
                    I.panics, I.proved = [], []
                    ends = [(s2, ref) for s, ref in ends for s2, _ in I.run(H.keys['update_hash'], [ref, ctx, N], s)]
                    if panics and I.panics:
                        panic_sites(ab.rep, I, name, '%s updates of %s bytes%s' % (name, ', '.join(map(str, ns[:6])) + (', …' if len(ns) > 6 else ''), label))
                    if len(ends) != 1:
                        raise Unsupported('ways')
                for s, ref in ends:
                    for s2, d in I.run(H.keys['finish_hash'], [ref, ctx], s):
                        if panics:
                            continue
                        ab.check_digest(s2, d, msg, '%s updates of %s bytes%s' % (
                            name, ', '.join(map(str, ns[:6])) + (', …' if len(ns) > 6 else ''), label), name + ':pieces', H.keys['update_hash'])
                done += 1
            except (Unsupported, Split, Panic, KeyError, IndexError, TypeError, AttributeError, ValueError):
                continue
    rep.facts['histories of given lengths followed (%s)' % name] = done


class Silent:
    """collects violations only"""
    def __init__(self, rep):
        self.rep = rep
        self.n = 0
        self.u = 0

    def ok(self, what):
        self.n += 1

    def unknown(self, what, why=''):
        self.u += 1

    def violation(self, key, text):
        self.rep.violation(key, text)

    def close(self, what):
        self.rep.notes.append('%s: %d obligations hold, %d undecided' % (what, self.n, self.u))


def check_H01(prog, rep):
    rep.rule = ('With the compression function kept opaque, init/update/finish/digest_message of MD5 and SHA-1 are summarised '
                'for an arbitrary chunk; the byte sequence compressed so far plus what is pending must be the sequence '
                'absorbed (inductive over updates), and finish must compress exactly the padding of the standard.')
    for H in hashes(prog, rep):
        if not H.blake:
            absorb(prog, rep, H, 'H01')


def check_H02(prog, rep):
    rep.rule = ('With the compression function kept opaque, BLAKE2b and BLAKE2s are summarised for an arbitrary key, state and '
                'chunk; compressed plus pending bytes must be key block and message, each block must carry the number of bytes '
                'absorbed up to it, and only the block compressed by finish the final flag.')
    for H in hashes(prog, rep):
        if H.blake:
            absorb(prog, rep, H, 'H02')


# ---------------------------------------------------------------------------------------------- H04
def word_bytes(H, ws):
    """bytes of words in the order of the standard"""
    out = []
    for w in ws:
        b = [t.wrap(t.shr(w, 8 * i, H.w) if i else w, 8) for i in range(H.w // 8)]
        out += b if H.little else b[::-1]
    return t.cat(t.lit(tuple(out)))


def valid_ctx(H, I):
    """(context, facts that make it a supported one, output length)"""
    ctx = H.sym_value(I, H.types['Context'], 'ctx')
    if not H.blake:
        return ctx, [], C(16 if H.n == 4 else 20)
    out, key = ctx_parts(H, ctx)
    mx = 64 if H.w == 64 else 32
    return ctx, [t.ge0(t.sub(out, t.ONE)), t.ge0(t.sub(C(mx), out)), t.ge0(t.sub(C(mx), t.slen(key)))], out


def check_H04(prog, rep):
    rep.rule = ('With the compression function kept opaque, raw() of every digest returned for an arbitrary context and '
                'message is compared with the standard byte order of the last chaining words; output_size and block_size '
                'are summarised for an arbitrary context.')
    for H in hashes(prog, rep):
        def sizes():
            I = H.interp(False)
            ctx, facts, out = valid_ctx(H, I)
            for m, want in (('output_size', out), ('block_size', C(H.B))):
                st = State()
                for f in facts:
                    st.assume(f, True)
                n = 0
                for s, v in I.run(H.keys[m], [ctx], st):
                    n += 1
                    compare(rep, I, s, '%s:%s' % (H.name, m), '%s %s' % (H.name, m), v, want, H.keys[m])
                if not n:
                    rep.violation('%s:%s' % (H.name, m), '%s never returns' % H.keys[m])
        guard(rep, H.name + ' sizes', sizes)

        def digest():
            ab = Absorb(H, rep)
            I = ab.I
            ctx, facts, out = valid_ctx(H, I)
            for how in ('digest_message', 'finish_hash'):
                st = State()
                for f in facts:
                    st.assume(f, True)
                if how == 'digest_message':
                    N = t.whole(mk('base', 'input', U8))
                    total_fact(st, t.slen(N))
                    res = I.run(H.keys[how], [ctx, N], st)
                else:
                    for label, c, f2, pre in ab.ctxs():
                        ab.infer(label, c, f2, pre)
                    v, P, Bf, Q, R = ab.generic(st)
                    for case in (('first', 'later') if H.blake else ('any',)):
                        if ab.bound(st, Q, R, case):
                            break
                    ref = I.alloc(st, v, 'state')
                    res = I.run(H.keys[how], [ref, ctx], st)
                n = 0
                for s, d in res:
                    n += 1
                    key = '%s:raw' % H.name
                    what = '%s raw bytes after %s (path %d)' % (H.name, how, n)
                    cs = cws(d)
                    chs = {c.a[1] for c in cs}
                    if len(chs) != 1:
                        rep.unknown(what, 'digest is not made of one chaining value')
                        continue
                    ch = chs.pop()
                    ws = [A(mk('cw', i, ch, H.wty)) for i in range(H.n)]
                    rr = I.alloc(s, d, 'digest')
                    for s2, b in I.run(H.raw_key, [rr], s):
                        outs = ab.cut_all(s2, word_bytes(H, ws), out)
                        for s3, want in outs:
                            compare(rep, I, s3, key, what, b, want, H.raw_key)
                        compare(rep, I, s2, key, what + ': length', t.slen(b), out, H.raw_key)
                if not n:
                    rep.violation('%s:%s' % (H.name, how), '%s never returns' % H.keys[how])
        guard(rep, H.name + ' digest bytes', digest)

        def any_digest():
            # a digest value that did not come out of this run
            I = H.interp(False)
            v = H.sym_value(I, H.types['HashData'], 'digest')
            path = H.word_group(v)
            if path is None:
                return
            ws = H.words_at(v, path)
            st = State()
            ref = I.alloc(st, v, 'digest')
            for s, b in I.run(H.raw_key, [ref], st):
                compare(rep, I, s, '%s:raw' % H.name, '%s raw bytes of an arbitrary digest' % H.name, b,
                        word_bytes(H, ws), H.raw_key)
        guard(rep, H.name + ' raw of arbitrary digest', any_digest)


# ---------------------------------------------------------------------------------------------- H07, H08
def panic_sites(rep, I, key, what, seen=None):
    """every way I found a run can panic is a violation unless its facts contradict each other"""
    done = set()
    for p in I.panics:
        w = panic_where(p)
        if (w, p.msg) in done:
            continue
        bad = p.st
        v = None
        if not any(unknowns(f[1]) for f in bad.pc) and not any(unknowns(c) for c in bad.bf):
            v = next(iter(evalt.valuations(bad, [], tries=300, want=1)), None) or \
                next(iter(evalt.valuations(bad, [], tries=200, want=1, big=True)), None)
        if v is not None:
            done.add((w, p.msg))
            rep.violation('%s:%s' % (key, w.split(' ')[0]), '%s: %s (%s) can be reached at %s, for instance when %s' % (
                what, p.kind, p.msg, w, evalt.describe(v, bad) or 'called at all'))
        else:
            done.add((w, p.msg))
            rep.unknown('%s: %s at %s' % (what, p.msg, w), 'not excluded, but no witness')
    kinds = {}
    for k, w in I.proved:
        kinds.setdefault(k, set()).add(str(w))
    for k, ws in sorted(kinds.items()):
        for w in sorted(ws):
            if seen is None or (k, w) not in seen:
                rep.ok('%s: %s at %s' % (what, k, w))
            if seen is not None:
                seen.add((k, w))


def panic_where(p):
    w = p.where
    if isinstance(w, (list, tuple)):
        w = ':'.join(str(x) for x in w)
    return str(w)


def check_H07(prog, rep):
    rep.rule = ('Every assertion, slice range, index, copy length and raw access reached while summarising init, update, '
                'finish, one-shot digest and raw for arbitrary supported contexts, states satisfying the invariant of H01/H02 '
                'and chunks within the length limit is an obligation: the facts of the path must exclude the failure.')
    for H in hashes(prog, rep):
        def inner():
            try:
                s = H.summary()
            except Unsupported:
                for key, I in H.dead:
                    I.proved = []
                    panic_sites(rep, I, H.name, '%s compression' % H.name)
                raise
            # panics of the compression function itself become panics of its callers under their facts,
            # except for raw accesses that no fact excludes
            I = interp.Interp(H.p)
            I.panics = [p for p in s.I.panics if p.kind == 'memory' and (not s.conds(p.st) or p.msg.startswith('misaligned'))]
            panic_sites(rep, I, H.name, '%s compression' % H.name)
            seen = set()
            for k, w in s.I.proved:
                if (k, str(w)) not in seen:
                    seen.add((k, str(w)))
                    rep.ok('%s compression: %s at %s' % (H.name, k, w))
        guard(rep, H.name + ' compression', inner)

        seen = set()

        def oneshot():
            ab = Absorb(H, rep)
            I = ab.I
            for label, ctx, facts, pre in ab.ctxs():
                N = t.whole(mk('base', 'input', U8))
                st = ab.fresh_state(facts)
                total_fact(st, t.add(t.slen(pre), t.slen(N)))
                I.panics, I.proved = [], []
                try:
                    for s, d in I.run(H.keys['digest_message'], [ctx, N], st):
                        I.run(H.raw_key, [I.alloc(s, d, 'digest')], s)
                finally:
                    panic_sites(rep, I, H.name, '%s one-shot%s' % (H.name, label), seen)
        guard(rep, H.name + ' one-shot', oneshot)

        def hashing():
            ab = Absorb(H, rep)
            I = ab.I
            for label, ctx, facts, pre in ab.ctxs():
                I.panics, I.proved = [], []
                ab.infer(label, ctx, facts, pre)
                panic_sites(rep, I, H.name, '%s first update%s' % (H.name, label), seen)
            gctx, facts, _ = valid_ctx(H, I)
            for case in (('first', 'later') if H.blake else ('any',)):
                st = ab.fresh_state(facts)
                v, P, Bf, Q, R = ab.generic(st)
                if not ab.bound(st, Q, R, case):
                    raise Unsupported('contradictory invariant')
                N = t.whole(mk('base', 'input', U8))
                su = st.copy()
                total_fact(su, t.psum([t.slen(P), R, t.slen(N)]))
                I.panics, I.proved = [], []
                I.run(H.keys['update_hash'], [I.alloc(su, v, 'state'), gctx, N], su)
                panic_sites(rep, I, H.name, '%s update (%s)' % (H.name, case), seen)
                sf = st.copy()
                total_fact(sf, t.psum([t.slen(P), R]))
                I.panics, I.proved = [], []
                for s, d in I.run(H.keys['finish_hash'], [I.alloc(sf, v, 'state'), gctx], sf):
                    I.run(H.raw_key, [I.alloc(s, d, 'digest')], s)
                panic_sites(rep, I, H.name, '%s finish (%s)' % (H.name, case), seen)
            for m in ('block_size', 'output_size'):
                I.panics, I.proved = [], []
                st = ab.fresh_state(facts)
                I.run(H.keys[m], [gctx], st)
                panic_sites(rep, I, H.name, '%s %s' % (H.name, m), seen)
        before = len(rep.undecided)
        guard(rep, H.name + ' hashing', hashing)
        if len(rep.undecided) > before:
            guard(rep, H.name + ' hashed in pieces of given lengths', lambda: pieces(rep, H, True))


def check_H08(prog, rep):
    rep.rule = ('init_hash and digest_message of BLAKE2 are summarised for an arbitrary context: every returning path must '
                'imply the parameter ranges of RFC 7693. For all hashes, update and finish are summarised from states up to '
                'the numeric limit of their counters: a returning path must keep the counter exact, and finish of MD5 and '
                'SHA-1 may only return when the bit length fits 64 bits.')
    for H in hashes(prog, rep):
        def params():
            I = H.interp(True)
            ctx = H.sym_value(I, H.types['Context'], 'ctx')
            out, key = ctx_parts(H, ctx)
            mx = 64 if H.w == 64 else 32
            for m in ('init_hash', 'digest_message'):
                st = State()
                args = [ctx]
                if m == 'digest_message':
                    ab = Absorb(H, rep)
                    I = ab.I
                    N = t.whole(mk('base', 'input', U8))
                    total_fact(st, t.slen(N))
                    args.append(N)
                n = 0
                for s, v in I.run(H.keys[m], args, st):
                    n += 1
                    for text, c in (('no empty output', t.ge0(t.sub(out, t.ONE))), ('output bounded', t.ge0(t.sub(C(mx), out))),
                                    ('key bounded', t.ge0(t.sub(C(mx), t.slen(key))))):
                        decide(rep, s, c, '%s %s path %d: %s' % (H.name, m, n, text), '%s:%s' % (H.name, m), H.keys[m])
                if not n:
                    rep.violation('%s:%s' % (H.name, m), '%s never returns' % H.keys[m])
        if H.blake:
            guard(rep, H.name + ' parameters', params)

        def counters():
            ab = Absorb(H, rep)
            I = ab.I
            for label, ctx, facts, pre in ab.ctxs():
                ab.infer(label, ctx, facts, pre)
            gctx, facts, _ = valid_ctx(H, I)
            for case in (('first', 'later') if H.blake else ('any',)):
                st = ab.fresh_state(facts)
                v, P, Bf, Q, R = ab.generic(st, limit=None)
                if not ab.bound(st, Q, R, case):
                    raise Unsupported('contradictory invariant')
                ab.in_range(st, v, t.slen(P), R)
                N = t.whole(mk('base', 'input', U8))
                su = st.copy()
                ref = I.alloc(su, v, 'state')
                for n, (s, _) in enumerate(I.run(H.keys['update_hash'], [ref, gctx, N], su)):
                    w = I.mget(s, ref)
                    X = t.slen(ab.chain(w).a[1])
                    pend = t.sub(t.psum([t.slen(P), R, t.slen(N)]), X)
                    for p, role in ab.roles.items():
                        if role[0] == 'int':
                            compare(rep, I, s, '%s:update' % H.name, '%s update (%s, path %d): exact %s' % (
                                H.name, case, n + 1, role[1]), ab.at(w, p), role[2](X, pend), H.keys['update_hash'])
                sf = st.copy()
                ref = I.alloc(sf, v, 'state')
                total = t.add(t.slen(P), R)
                for n, (s, d) in enumerate(I.run(H.keys['finish_hash'], [ref, gctx], sf)):
                    what = '%s finish (%s, path %d)' % (H.name, case, n + 1)
                    if not H.blake:
                        decide(rep, s, t.ge0(t.sub(C(2 ** 61 - 1), total)), what + ': length fits 64 bits',
                               '%s:finish' % H.name, H.keys['finish_hash'])
                        continue
                    chs = {c.a[1] for c in cws(d)}
                    if len(chs) != 1:
                        rep.unknown(what, 'digest is not made of one chaining value')
                        continue
                    ml = chs.pop().a[2]
                    nb = t.slen(ml)
                    last = I.get(s, ml, t.sub(nb, t.ONE))
                    compare(rep, I, s, '%s:finish' % H.name, what + ': exact counter', last.a[2][0], total,
                            H.keys['finish_hash'])
        guard(rep, H.name + ' counters', counters)


def decide(rep, s, c, what, key, where):
    if s.decide(c) is True:
        rep.ok(what)
        return
    bad = s.copy()
    if not bad.assume(c, False):
        rep.ok(what)
        return
    if not any(unknowns(f[1]) for f in bad.pc):
        v = next(iter(evalt.valuations(bad, [], tries=300, want=1)), None) or \
            next(iter(evalt.valuations(bad, [], tries=300, want=1, big=True)), None)
        if v is not None:
            rep.violation(key, '%s: not guaranteed where %s returns, for instance when %s' % (
                what, where, evalt.describe(v, bad) or 'called at all'))
            return
    rep.unknown(what, 'not decided')


def helper_bounds(prog, rep):
    """the raw accesses reached from the compression functions stay inside source and destination (X02)"""
    for H in hashes(prog, rep):
        def one():
            try:
                I = H.summary().I
            except Unsupported:
                for key, J in H.dead:
                    J.proved = []
                    J.panics = [p for p in J.panics if p.kind == 'memory']
                    panic_sites(rep, J, H.name, '%s compression' % H.name)
                raise
            I.proved = [x for x in I.proved if x[0] == 'memory']
            I.panics = [p for p in I.panics if p.kind == 'memory']
            panic_sites(rep, I, H.name, '%s compression' % H.name)
        guard(rep, H.name + ' raw accesses', one)


def check_H05(prog, rep):
    from . import rules_k
    rules_k.check_H05(prog, rep)


def check_H06(prog, rep):
    from . import rules_k
    rules_k.check_H06(prog, rep)
