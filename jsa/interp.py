"""Trace-partitioned abstract interpretation of MIR.

Values are terms (terms.py).  Shared references are transparent (a snapshot of what they point to cannot
change while they live); mutable references and raw pointers are ('mref', loc, path).  A state is split when
a branch condition is not decided by its facts; loops are summarised by solving the recurrences of the
memory they change.  Nothing is executed on concrete inputs."""
import re
from . import terms as t, lin
from .terms import T, mk, C, A, isp, const

UNIT = mk('E', '()', 0, ())


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


class Panic(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class State:
    __slots__ = ('mem', 'pc', 'bf', 'exp', 'tag')

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.bf = {}
        self.exp = {}
        self.tag = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.bf = dict(self.bf)
        s.exp = dict(self.exp)
        s.tag = self.tag
        return s

    def decide(self, c):
        if c is True or c is False:
            return c
        if c.op == 'not':
            r = self.decide(c.a[0])
            return None if r is None else not r
        if c.op == 'andb':
            a, b = self.decide(c.a[0]), self.decide(c.a[1])
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if c.op in ('ge0', 'eq0'):
            if c in self.bf:
                return self.bf[c]
            return lin.decide(self.pc, c)
        if c.op == 'ite':
            x = self.decide(c.a[0])
            if x is True:
                return self.decide(c.a[1])
            if x is False:
                return self.decide(c.a[2])
            return None
        return self.bf.get(c)

    def need(self, c):
        r = self.decide(c)
        if r is None:
            if c.op == 'not':
                c = c.a[0]
                self_need = self.need(c)
                return not self_need
            if c.op == 'andb':
                for x in c.a:
                    if self.decide(x) is None:
                        raise Split(x)
            if c.op == 'ite':
                raise Split(c.a[0])
            raise Split(c)
        return r

    def assume(self, c, val=True):
        """adds a fact; False when it contradicts the state"""
        if c is True or c is False:
            return c == val
        if c.op == 'not':
            return self.assume(c.a[0], not val)
        if c.op == 'andb':
            if val:
                return self.assume(c.a[0]) and self.assume(c.a[1])
            a, b = self.decide(c.a[0]), self.decide(c.a[1])
            if a is True:
                return self.assume(c.a[1], False)
            if b is True:
                return self.assume(c.a[0], False)
            if a is False or b is False:
                return True
            self.bf[c] = False
            return True
        if c.op == 'ge0':
            p = c.a[0]
            f = ('ge', p) if val else ('ge', t.sub(t.neg(p), t.ONE))
        elif c.op == 'eq0':
            f = ('eq' if val else 'ne', c.a[0])
        else:
            if c in self.bf:
                return self.bf[c] == val
            self.bf[c] = val
            return True
        if f in self.pc:
            return True
        self.pc = self.pc + (f,)
        return not lin.infeasible(lin.relevant(self.pc, f[1]))


class Outcome:
    """a path that ended in a panic"""
    def __init__(self, kind, msg, where, st):
        self.kind, self.msg, self.where, self.st = kind, msg, where, st

    def __repr__(self):
        return '%s %s at %s' % (self.kind, self.msg, self.where)


class Frame:
    __slots__ = ('body', 'fid', 'tenv', 'crate')


INT = ('uint', 'int')


class Interp:
    def __init__(self, prog, models=None, budget=4000000):
        self.p = prog
        self.models = {}
        from . import models as std
        self.models.update(std.MODELS)
        if models:
            self.models.update(models)
        self.fid = 0
        self.panics = []
        self.wrap_plain = False   # wrapping additions of counters stay symbolic
        self.proved = []          # (kind, where) obligations discharged
        self.budget = budget
        self.depth = 0
        self.loops = {}
        self.loopstats = []
        self.frames = {}
        self.called = set()
        self.opaque_fns = {}      # key -> python handler(I, st, args, callee)
        self.quiet = 0
        self.unroll = 130

    # ------------------------------------------------------------ types
    def rty(self, crate, ix, tenv):
        d = self.p.crates[crate].types[ix]
        k = d['k']
        if k in ('uint', 'int', 'float'):
            return (k, d['s'])
        if k == 'adt':
            return ('adt', d['key'], tuple(self.rarg(crate, a, tenv) for a in d['args']))
        if k == 'ref':
            return ('ref', d['mut'], self.rty(crate, d['e'], tenv))
        if k == 'ptr':
            return ('ptr', d['mut'], self.rty(crate, d['e'], tenv))
        if k == 'slice':
            return ('slice', self.rty(crate, d['e'], tenv))
        if k == 'array':
            return ('array', self.rty(crate, d['e'], tenv), self.rarg(crate, d['len'], tenv))
        if k == 'tuple':
            return ('tuple', tuple(self.rty(crate, x, tenv) for x in d['ts']))
        if k == 'param':
            return tenv.get(d['name'], ('param', d['name']))
        if k in ('closure', 'coroutine'):
            return (k, d['key'])
        if k == 'fndef':
            return ('fndef', d['key'], tuple(self.rarg(crate, a, tenv) for a in d['args']))
        if k == 'alias':
            args = tuple(self.rarg(crate, a, tenv) for a in d['args'])
            return self.project(d['dbg'], args) or ('alias', d['s'], args)
        return (k,)

    def rarg(self, crate, a, tenv):
        if 't' in a:
            return self.rty(crate, a['t'], tenv)
        if 'cv' in a:
            return a['cv']
        if 'cp' in a:
            return tenv.get(a['cp'], ('cparam', a['cp']))
        return ('cx', a.get('cx'))

    def project(self, dbg, args):
        """<T as Trait>::Assoc for a concrete T of the workspace"""
        m = re.search(r'~ ([\w]+)\[[0-9a-f]+\]::(.*?)\)', dbg)
        if not m or not args or not isinstance(args[0], tuple) or args[0][0] == 'param':
            return None
        name = m.group(2).split('::')[-1]
        trait = m.group(2).split('::')[-2] if '::' in m.group(2) else None
        for im in self.p.impls:
            if 'trait' not in im or im['trait'].split('::')[-1] != trait:
                continue
            u = self.unify(self.rty(im['crate'], im['self'], {}), args[0], {})
            if u is None:
                continue
            for it in im['items']:
                if it[0] == name and it[3] is not None:
                    return self.rty(im['crate'], it[3], u)
        return None

    def unify(self, pat, ty, env):
        """binds the parameters of an impl header to a type"""
        if isinstance(pat, tuple) and pat and pat[0] in ('param', 'cparam'):
            if pat[1] in env:
                return env if env[pat[1]] == ty else None
            env = dict(env)
            env[pat[1]] = ty
            return env
        if isinstance(pat, tuple) and isinstance(ty, tuple):
            if len(pat) != len(ty):
                return None
            for a, b in zip(pat, ty):
                env = self.unify(a, b, env)
                if env is None:
                    return None
            return env
        return env if pat == ty else None

    def find_impl(self, trait, name, selfty, rest=None):
        """body key and type environment of the implementation of a trait method for a concrete type; `rest` are the
        arguments of the trait, where they are known"""
        found = []
        for im in self.p.impls:
            if im.get('trait') is None or im['trait'].split('::')[-1].split('<')[0] != trait.split('::')[-1].split('<')[0]:
                continue
            u = self.unify(self.rty(im['crate'], im['self'], {}), selfty, {})
            if u is None:
                continue
            targs = [self.rty(im['crate'], x['t'], {}) for x in im.get('trait_args', [])[1:]
                     if isinstance(x, dict) and isinstance(x.get('t'), int)]
            if rest is not None and targs:
                u = self.unify(tuple(targs), tuple(rest[:len(targs)]), dict(u))
                if u is None:
                    continue
            for it in im['items']:
                if it[0] == name and it[1] in self.p.bodies:
                    found.append((it[1], u, all(x == selfty for x in targs)))
        if len(found) > 1:
            found = [f for f in found if f[2]] or found
        if len(found) > 1:
            raise Unsupported('several implementations of %s' % trait)
        return found[0][:2] if found else None

    def intty(self, ty):
        """name of an integer type, or None"""
        if ty and ty[0] in INT:
            return ty[1]
        if ty and ty[0] == 'char':
            return 'char'
        if ty and ty[0] == 'bool':
            return 'bool'
        return None

    # ------------------------------------------------------------ symbolic inputs
    def symbolic(self, ty, name):
        """an arbitrary value of a type"""
        k = ty[0]
        if k in INT:
            return A(t.sym(name, ty[1]))
        if k == 'bool':
            return mk('bsym', name)
        if k in ('ref', 'ptr'):
            return self.symbolic(ty[2], name)
        if k == 'slice':
            return t.whole(mk('base', name, ty[1]))
        if k == 'array':
            if isinstance(ty[2], int):
                b = mk('base', name, ty[1])
                return mk('seq', (mk('sub', b, t.ZERO, C(ty[2])),))
            return t.whole(mk('base', name, ty[1]))
        if k == 'tuple':
            return mk('E', '()', 0, tuple(self.symbolic(x, '%s.%d' % (name, i)) for i, x in enumerate(ty[1])))
        if k == 'adt':
            key = ty[1]
            if key == 'alloc::vec::Vec':
                return t.whole(mk('base', name, ty[2][0]))
            if key == 'alloc::boxed::Box':
                return self.symbolic(ty[2][0], name)
            if key == 'num_bigint::biguint::BigUint':
                return A(t.sym(name, 'nat'))
            adt = self.p.adts.get(key)
            if adt and adt['kind'] == 'struct' and key.startswith('jester'):
                tenv = dict(zip(adt['generics'], ty[2]))
                fs = []
                for f in adt['variants'][0]['fields']:
                    fs.append(self.symbolic(self.rty(adt['crate'], f['ty'], tenv), name + '.' + f['name']))
                return mk('E', key, 0, tuple(fs))
            return mk('opq', name, ty)
        return mk('opq', name, ty)

    def elem_of(self, base, idx):
        """element idx of an opaque sequence"""
        ety = base.a[1]
        if base.op == 'Iter' or not isinstance(ety, tuple):
            raise Unsupported('element of %s' % base.op)
        return self._elem(base, idx, ety)

    def _elem(self, base, idx, ety):
        f = self.models.get('elem')
        if f is not None:
            r = f(self, base, idx, ety)
            if r is not None:
                return r
        k = ety[0]
        if k in INT:
            return A(mk('at', base, idx, ety[1]))
        if k in ('ref', 'ptr'):
            return self._elem(base, idx, ety[2])
        if k == 'slice' or (k == 'adt' and ety[1] == 'alloc::vec::Vec'):
            e = ety[1] if k == 'slice' else ety[2][0]
            b = mk('row', base, e, idx)
            return t.whole(b)
        if k == 'tuple':
            return mk('E', '()', 0, tuple(self._elem(mk('fld', base, x, i), idx, x) for i, x in enumerate(ety[1])))
        if k == 'adt' and ety[1] == 'alloc::boxed::Box':
            return self._elem(base, idx, ety[2][0])
        if k == 'bool':
            return mk('bat', base, idx)
        return mk('opqat', base, idx, ety)

    # ------------------------------------------------------------ sequences with decisions
    def cut(self, st, s, pos):
        """(prefix of length pos, rest); the caller has established 0 <= pos <= len"""
        if s.op != 'seq':
            s = mk('seq', (mk('sub', s, t.ZERO, t.slen(s)),))
        segs = s.a[0]
        left = []
        cum = t.ZERO
        for i, g in enumerate(segs):
            off = t.sub(pos, cum)
            if off is t.ZERO:
                return mk('seq', tuple(left)), mk('seq', tuple(segs[i:]))
            ln = t.seglen(g)
            if i == len(segs) - 1 and g.op in ('sub', 'fill'):
                inside = st.decide(t.ge0(t.sub(off, ln))) is not True
            else:
                inside = not st.need(t.ge0(t.sub(off, ln)))
            if not inside:
                left.append(g)
                cum = t.add(cum, ln)
                continue
            if g.op == 'sub':
                a = mk('sub', g.a[0], g.a[1], off)
                b = mk('sub', g.a[0], t.add(g.a[1], off), t.sub(ln, off))
                return t.cat(mk('seq', tuple(left)), mk('seq', (a,))), t.cat(mk('seq', (b,)), mk('seq', tuple(segs[i + 1:])))
            if g.op == 'fill':
                return (t.cat(mk('seq', tuple(left)), t.fill(g.a[0], off)),
                        t.cat(t.fill(g.a[0], t.sub(ln, off)), mk('seq', tuple(segs[i + 1:]))))
            if g.op == 'lit':
                n = const(off)
                vals = g.a[0]
                if n is None:
                    if len(set(vals)) == 1:
                        return (t.cat(mk('seq', tuple(left)), mk('seq', (mk('fill', vals[0], off),))),
                                t.cat(mk('seq', (mk('fill', vals[0], t.sub(ln, off)),)), mk('seq', tuple(segs[i + 1:]))))
                    if len(vals) > 16:
                        whole = mk('seq', (g,))
                        return (t.cat(mk('seq', tuple(left)), mk('seq', (mk('sub', whole, t.ZERO, off),))),
                                t.cat(mk('seq', (mk('sub', whole, off, t.sub(ln, off)),)), mk('seq', tuple(segs[i + 1:]))))
                    n = self.pick(st, off, len(vals))
                return (t.cat(mk('seq', tuple(left)), t.lit(vals[:n])),
                        t.cat(t.lit(vals[n:]), mk('seq', tuple(segs[i + 1:]))))
            # flat
            k = t.fresh('k', 'nat')
            body = t.flat_body(g, A(k))
            bl = t.slen(body)
            if k in t.free_syms(bl):
                raise Unsupported('cut of ragged comprehension')
            q, r = self.polydiv(off, bl)
            if q is None:
                raise Unsupported('cut of comprehension at %r by %r' % (off, bl))
            head = t.flat(k, q, body)
            if r is t.ZERO:
                tail = t.flat_from(g, q, t.sub(g.a[1], q))
                return t.cat(mk('seq', tuple(left)), head), t.cat(tail, mk('seq', tuple(segs[i + 1:])))
            mid = t.flat_body(g, q)
            a, b = self.cut(st, mid, r)
            tail = t.flat_from(g, t.add(q, t.ONE), t.sub(t.sub(g.a[1], q), t.ONE))
            return (t.cat(mk('seq', tuple(left)), head, a), t.cat(b, tail, mk('seq', tuple(segs[i + 1:]))))
        return mk('seq', tuple(left)), t.EMPTY

    def polydiv(self, p, d):
        """quotient and remainder of p by d, syntactically"""
        c = const(d)
        if c is not None and c > 0:
            if c == 1:
                return p, t.ZERO
            q = t.poly({m: v // c for m, v in p.a[0]})
            r = t.poly({m: v % c for m, v in p.a[0]})
            if const(r) is not None:
                return q, r
            lo, hi = t.bounds(r)
            if lo is not None and lo >= 0 and hi is not None and hi < c:
                return q, r
            return None, None
        # monomial divisor
        if len(d.a[0]) == 1:
            (m, co), = d.a[0]
            q = {}
            for pm, pc in p.a[0]:
                rest = list(pm)
                ok = pc % co == 0
                for x in m:
                    if x in rest:
                        rest.remove(x)
                    else:
                        ok = False
                if not ok:
                    return None, None
                q[tuple(rest)] = pc // co
            return t.poly(q), t.ZERO
        if p is d:
            return t.ONE, t.ZERO
        return None, None

    def pick(self, st, p, n):
        """concrete value of p in 0..n by case split"""
        if n > 40:
            raise Unsupported('symbolic index into a table')
        for i in range(n):
            if st.need(t.eq0(t.sub(p, C(i)))):
                return i
        return n

    def run_of(self, st, vals, off):
        """element of a long literal: the run of equal elements is found by case split"""
        ends = [i for i in range(1, len(vals)) if vals[i] is not vals[i - 1]] + [len(vals)]
        if len(ends) > 16:
            raise Unsupported('symbolic index into a table')
        for e in ends[:-1]:
            if st.need(t.ge0(t.sub(C(e - 1), off))):
                return vals[e - 1]
        return vals[-1]

    def slice(self, st, s, start, ln):
        if s.op != 'seq':
            s = mk('seq', (mk('sub', s, t.ZERO, t.slen(s)),))
        if start is not t.ZERO:
            _, s = self.cut(st, s, start)
        if ln is t.slen(s):
            return s
        a, _ = self.cut(st, s, ln)
        return a

    def get(self, st, s, idx):
        """element; idx is known to be in range"""
        if s.op != 'seq':
            return self.elem_of(s, idx)
        if len(s.a[0]) == 1 and s.a[0][0].op == 'sub' and s.a[0][0].a[0].op == 'seq':
            g = s.a[0][0]
            return self.get(st, g.a[0], t.add(g.a[1], idx))
        cum = t.ZERO
        segs = s.a[0]
        for i, g in enumerate(segs):
            off = t.sub(idx, cum)
            ln = t.seglen(g)
            if i < len(segs) - 1:
                if st.need(t.ge0(t.sub(off, ln))):
                    cum = t.add(cum, ln)
                    continue
            if g.op == 'sub' and g.a[0].op == 'seq':
                return self.get(st, g.a[0], t.add(g.a[1], off))
            if g.op == 'sub':
                return self.elem_of(g.a[0], t.add(g.a[1], off))
            if g.op == 'fill':
                return g.a[0]
            if g.op == 'lit':
                n = const(off)
                if n is None:
                    if len(set(g.a[0])) == 1:
                        return g.a[0][0]
                    if len(g.a[0]) > 41:
                        return self.run_of(st, g.a[0], off)
                    n = self.pick(st, off, len(g.a[0]) - 1)
                if n < 0 or n >= len(g.a[0]):
                    raise Panic('bounds', 'index %d of %d' % (n, len(g.a[0])))
                return g.a[0][n]
            k = t.fresh('k', 'nat')
            bl = t.slen(t.flat_body(g, A(k)))
            if k in t.free_syms(bl):
                raise Unsupported('index into ragged comprehension')
            q, r = self.polydiv(off, bl)
            if q is None:
                q, r = t.divmod_(off, bl)
            return self.get(st, t.flat_body(g, q), r)
        raise Panic('bounds', 'index into empty')

    def update(self, st, s, idx, v):
        if s.op != 'seq':
            s = mk('seq', (mk('sub', s, t.ZERO, t.slen(s)),))
        ci = const(idx)
        if ci is not None and len(s.a[0]) >= 1 and s.a[0][0].op == 'lit' and 0 <= ci < len(s.a[0][0].a[0]):
            vals = s.a[0][0].a[0]
            return mk('seq', (mk('lit', vals[:ci] + (v,) + vals[ci + 1:]),) + s.a[0][1:])
        a, b = self.cut(st, s, idx)
        _, c = self.cut(st, b, t.ONE)
        return t.cat(a, t.lit((v,)), c)

    def splice(self, st, s, start, ln, new):
        a, b = self.cut(st, s, start)
        _, c = self.cut(st, b, ln)
        return t.cat(a, new, c)

    def split_lit(self, st, s, n):
        """the first n elements (n a python int) as a list of values"""
        return [self.get(st, s, C(i)) for i in range(n)]

    # ------------------------------------------------------------ memory
    def expand(self, st, v):
        """resolves symbolic enumerations that have been case split"""
        while isinstance(v, T) and v.op in ('opq', 'opqat') and v in st.exp:
            v = st.exp[v]
        return v

    def variants(self, ty):
        if ty[0] == 'adt':
            if ty[1] in STD_ENUMS:
                return STD_ENUMS[ty[1]](ty[2])
            adt = self.p.adts.get(ty[1])
            if adt:
                tenv = dict(zip(adt['generics'], ty[2]))
                out = []
                for v in adt['variants']:
                    out.append((v['name'], [self.rty(adt['crate'], f['ty'], tenv) if 'ty' in f else ('opaque', f['name'])
                                            for f in v['fields']], [f['name'] for f in v['fields']]))
                return out
        return None

    def open(self, st, v):
        """an E value for v, splitting the state over the variants of a symbolic one"""
        v = self.expand(st, v)
        if isinstance(v, T) and v.op == 'A':
            return v
        if isinstance(v, T) and v.op in ('opq', 'opqat'):
            ty = v.a[-1]
            vs = self.variants(ty)
            if vs is None:
                raise Unsupported('fields of opaque value %r' % (v,))
            name = v.a[0] if v.op == 'opq' else t.show(v)
            for i in range(len(vs)):
                if i == len(vs) - 1 or st.need(mk('isv', v, i)):
                    fs = tuple(self.symbolic(x, '%s.%s' % (name, n)) for x, n in zip(vs[i][1], vs[i][2]))
                    e = mk('E', ty[1], i, fs)
                    st.exp[v] = e
                    return e
        if isinstance(v, T) and v.op == 'ite':
            return self.open(st, v.a[1] if st.need(v.a[0]) else v.a[2])
        return v

    def vget(self, st, v, path):
        for i, e in enumerate(path):
            if e == ('p',):
                v = v.a[1] if v.op == 'cptr' else v.a[1][-1][1]
                continue
            if isinstance(v, T) and v.op == 'mref':
                return self.vget(st, self.mget(st, v), path[i:])
            v = self.expand(st, v)
            k = e[0]
            if k == 'f':
                v = self.open(st, v)
                if v.op == 'E':
                    if e[1] >= len(v.a[2]):
                        raise Unsupported('field %d of %r' % (e[1], v))
                    v = v.a[2][e[1]]
                elif v.op == 'clo':
                    v = v.a[1][e[1]]
                elif e[1] == 0 and v.op in ('seq', 'poly'):
                    pass        # transparent wrapper (Box, Pin, newtype pointer)
                else:
                    raise Unsupported('field of %s' % v.op)
            elif k == 'i':
                v = self.get(st, v, e[1])
            elif k == 's':
                v = self.slice(st, v, e[1], e[2])
            else:
                raise Unsupported('path %r' % (e,))
            if v is None:
                raise Unsupported('read of moved or uninitialised value')
        return self.expand(st, v)

    def vset(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e == ('p',):
            # the offset of a pointer
            if v.op == 'cptr':
                return mk('cptr', v.a[0], new, *v.a[2:])
            return mk('mref', v.a[0], v.a[1][:-1] + (('i', new),))
        if isinstance(v, T) and v.op == 'mref':
            raise Unsupported('write through a reference inside a value')
        k = e[0]
        if k == 'f':
            if v is None:
                raise Unsupported('write to field of uninitialised value')
            if isinstance(v, T) and v.op == 'uninit' and all(q[0] == 'f' for q in path):
                return new      # the layers of MaybeUninit
            v = self.open(st, v)
            if v.op == 'E':
                fs = list(v.a[2])
                fs[e[1]] = self.vset(st, fs[e[1]], path[1:], new)
                return mk('E', v.a[0], v.a[1], tuple(fs))
            if v.op == 'clo':
                fs = list(v.a[1])
                fs[e[1]] = self.vset(st, fs[e[1]], path[1:], new)
                return mk('clo', v.a[0], tuple(fs), *v.a[2:])
            if e[1] == 0:
                return self.vset(st, v, path[1:], new)
            raise Unsupported('field write of %s' % v.op)
        if k == 'i':
            if len(path) > 1:
                old = self.get(st, v, e[1])
                new = self.vset(st, old, path[1:], new)
            return self.update(st, v, e[1], new)
        if k == 's':
            if len(path) > 1:
                old = self.slice(st, v, e[1], e[2])
                new = self.vset(st, old, path[1:], new)
            return self.splice(st, v, e[1], e[2], new)
        raise Unsupported('path %r' % (e,))

    def mget(self, st, r):
        """content behind a reference (transparent for shared ones)"""
        if isinstance(r, T) and r.op == 'mref':
            loc = r.a[0]
            if loc not in st.mem:
                raise Unsupported('dangling reference %r' % (loc,))
            return self.vget(st, st.mem[loc], r.a[1])
        return self.expand(st, r)

    def mset(self, st, r, v):
        if not (isinstance(r, T) and r.op == 'mref'):
            raise Unsupported('write through a shared reference')
        loc, path = r.a
        old = st.mem.get(loc)
        # a reference stored at a prefix of the path is followed
        cur = old
        for i in range(len(path)):
            if isinstance(cur, T) and cur.op == 'mref':
                return self.mset(st, mk('mref', cur.a[0], cur.a[1] + path[i:]), v)
            if path[i][0] == 'f' and isinstance(cur, T):
                cur = self.expand(st, cur)
                if cur.op in ('E', 'clo'):
                    fs = cur.a[2] if cur.op == 'E' else cur.a[1]
                    cur = fs[path[i][1]] if path[i][1] < len(fs) else None
                    continue
            cur = None
        st.mem[loc] = self.vset(st, old, path, v)

    def mext(self, r, *path):
        """reference to a part of what r refers to (r mref), or that part (r a value)"""
        return mk('mref', r.a[0], r.a[1] + tuple(path))

    def alloc(self, st, v, name='tmp'):
        self.fid += 1
        loc = (name, self.fid)
        st.mem[loc] = v
        return mk('mref', loc, ())

    # places: returns ('mref', ...) of the place, following dereferences
    def place(self, st, fr, pl):
        """(kind, x): ('ref', mref) for memory, ('val', v) for something inside a snapshot"""
        loc = (fr.fid, pl[0])
        path = ()
        val = None
        isval = False
        for e in pl[1]:
            if e == '*':
                cur = val if isval else self._peek(st, loc, path)
                if isinstance(cur, T) and cur.op == 'mref':
                    loc, path, isval, val = cur.a[0], cur.a[1], False, None
                elif isinstance(cur, T) and cur.op == 'cptr':
                    isval, val = True, self.deref(st, cur, 'pointer read')
                continue
            k = e[0]
            if k == 'f':
                el = ('f', e[1])
            elif k == 'd':
                continue
            elif k == 'i':
                ix = st.mem[(fr.fid, e[1])]
                el = ('i', ix)
            elif k == 'ci':
                cur = self.vget(st, val, ()) if isval else self._peek(st, loc, path)
                if isinstance(cur, T) and cur.op == 'mref':
                    cur = self.mget(st, cur)
                el = ('i', C(e[1]) if not e[3] else t.sub(t.slen(cur), C(e[1])))
            elif k == 'ss':
                cur = val if isval else self._peek(st, loc, path)
                n = t.slen(cur)
                ln = t.sub(t.sub(n, C(e[1])), C(e[2])) if e[3] else C(e[2] - e[1])
                el = ('s', C(e[1]), ln)
            else:
                raise Unsupported('projection %r' % (e,))
            if isval:
                val = self.vget(st, val, (el,))
            else:
                cur = self._peek(st, loc, path)
                if isinstance(cur, T) and cur.op == 'mref':
                    # transparent box of reference
                    loc, path = cur.a[0], cur.a[1]
                path = path + (el,)
        if isval:
            return 'val', val
        return 'ref', mk('mref', loc, path)

    def _peek(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            return None
        if not path:
            return v
        try:
            return self.vget(st, v, path)
        except Unsupported:
            return None

    def read(self, st, fr, pl):
        k, x = self.place(st, fr, pl)
        if k == 'val':
            return x
        if x.a[0] not in st.mem:
            raise Unsupported('read of uninitialised local %r' % (pl,))
        v = self.vget(st, st.mem[x.a[0]], x.a[1])
        if v is None:
            raise Unsupported('read of moved local')
        return v

    def write(self, st, fr, pl, v):
        if not pl[1]:
            st.mem[(fr.fid, pl[0])] = v
            return
        k, x = self.place(st, fr, pl)
        if k == 'val':
            raise Unsupported('write into snapshot')
        if st.mem.get(x.a[0]) is None and x.a[1]:
            # first write of a field of an unassigned aggregate
            n = x.a[1][0][1] if x.a[1][0][0] == 'f' else 0
            st.mem[x.a[0]] = mk('E', '?', 0, (None,) * (n + 1))
        self.mset(st, x, v)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] == 'c':
            return self.constant(st, fr, o[1])
        if o[0] in ('cp', 'mv'):
            return self.read(st, fr, o[1])
        raise Unsupported('operand %r' % (o,))

    def operand_ty(self, fr, o):
        if o[0] == 'c':
            return self.rty(fr.crate, o[1]['ty'], fr.tenv)
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, pl):
        ty = self.rty(fr.crate, fr.body['locals'][pl[0]], fr.tenv)
        var = 0
        for e in pl[1]:
            if e == '*':
                if ty[0] in ('ref', 'ptr'):
                    ty = ty[2]
                elif ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box':
                    ty = ty[2][0]
            elif e[0] == 'f':
                ty = self.rty(fr.crate, e[2], fr.tenv)
            elif e[0] in ('i', 'ci'):
                ty = ty[1] if ty[0] in ('array', 'slice') else ('?',)
            elif e[0] == 'ss':
                ty = ('slice', ty[1])
        return ty

    def constant(self, st, fr, c):
        ty = self.rty(fr.crate, c['ty'], fr.tenv)
        if 'fn' in c:
            return self.fnval(fr, c['fn'])
        if 'bits' in c:
            b = int(c['bits'])
            if ty[0] == 'bool':
                return bool(b)
            if ty[0] == 'int':
                w = t.WID[ty[1]]
                if b >= 1 << (w - 1):
                    b -= 1 << w
            if ty[0] == 'float':
                import struct
                return self.fconst(struct.unpack('<d', struct.pack('<Q', b))[0])
            if ty[0] in ('uint', 'int', 'char', 'float', 'ptr'):
                return C(b)
            if ty[0] == 'adt':
                return self.decode(ty, b)
            return C(b)
        if 'str' in c:
            return mk('str', c['str'])
        if 'bytes' in c:
            return t.lit(C(x) for x in c['bytes'])
        if 'tc' in c:
            a = self.rarg(fr.crate, c['tc'], fr.tenv)
            return C(a) if isinstance(a, int) else A(t.sym('const:%s' % (a[1],), 'nat'))
        if 'zst' in c:
            if ty[0] == 'tuple':
                return UNIT
            if ty[0] == 'closure':
                return mk('clo', ty[1], (), self.tenvkey(fr.tenv))
            return mk('E', ty[1] if ty[0] == 'adt' else ty[0], 0, ())
        if 'static' in c:
            key = c['static']
            h = self.models.get('static:' + key) or self.models.get('static')
            if h is not None:
                r = h(self, st, key, ty)
                if r is not None:
                    return r
            if key in self.p.bodies:
                return self.constbody(key, fr)
            raise Unsupported('static ' + key)
        if 'item' in c:
            key = c['item']
            if key in self.p.bodies:
                b = self.p.bodies[key]
                env = dict(zip(b['generics'], [self.rarg(fr.crate, a, fr.tenv) for a in c.get('args', [])]))
                return self.constbody(key, fr, env)
            h = self.models.get('const:' + (c.get('path') or key))
            if h is not None:
                return h(self, st, ty)
            # associated constant of a type parameter
            return self.symbolic(ty, 'const:' + key)
        if 'mem' in c:
            return self.decode_mem(ty, c['mem'])
        raise Unsupported('constant %r' % ({k: v for k, v in c.items()},))

    def fconst(self, x):
        if x == int(x):
            return mk('flt', C(int(x)), t.ONE)
        raise Unsupported('float constant')

    def decode(self, ty, b):
        """single scalar stored in a newtype or field-less enum"""
        vs = self.variants(ty)
        if vs and len(vs) == 1 and len(vs[0][1]) == 1:
            f = vs[0][1][0]
            return mk('E', ty[1], 0, (C(b) if f[0] in INT else self.decode(f, b),))
        if vs:
            adt = self.p.adts.get(ty[1])
            for i, v in enumerate(adt['variants']):
                if v['d'] == b:
                    return mk('E', ty[1], i, ())
        raise Unsupported('scalar of %r' % (ty,))

    def decode_mem(self, ty, mem):
        while ty[0] in ('ref', 'ptr'):
            ty = ty[2]
        if ty[0] == 'array' and ty[1][0] in INT:
            w = t.WID[ty[1][1]] // 8
            return t.lit(C(int.from_bytes(bytes(mem[i:i + w]), 'little')) for i in range(0, len(mem), w))
        if ty[0] == 'array' and ty[1][0] == 'array' and ty[1][1][0] in INT:
            w = t.WID[ty[1][1][1]] // 8 * ty[1][2]
            return t.lit(self.decode_mem(ty[1], mem[i:i + w]) for i in range(0, len(mem), w))
        if ty[0] in INT:
            return C(int.from_bytes(bytes(mem), 'little'))
        raise Unsupported('constant memory of %r' % (ty,))

    def constbody(self, key, fr, env=None):
        ck = (key, tuple(sorted((env or {}).items(), key=str)))
        cache = self.__dict__.setdefault('_consts', {})
        if ck in cache:
            return cache[ck]
        r = self.run(key, [], State(), env or {})
        if len(r) != 1:
            raise Unsupported('constant ' + key)
        st, v = r[0]
        if isinstance(v, T) and v.op == 'mref':
            v = self.mget(st, v)
        cache[ck] = v
        return v

    def tenvkey(self, tenv):
        return tuple(sorted(tenv.items()))

    def fnval(self, fr, f):
        args = tuple(self.rarg(fr.crate, a, fr.tenv) for a in f['args'])
        info = (f['key'], f['path'], args, f.get('trait'), f.get('name'),
                f.get('rkey'), tuple(self.rarg(fr.crate, a, fr.tenv) for a in f.get('rargs', [])), f.get('rpath'))
        return mk('fn', info)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, where):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'raw':
            if r[1][1] and r[1][1][-1] == '*':
                try:
                    v = self.read(st, fr, [r[1][0], r[1][1][:-1]])
                except Unsupported:
                    v = None
                if isinstance(v, T) and v.op == 'cptr':
                    if k == 'ref' and len(v.a) > 2:
                        return self.deref(st, v, 'reference to what a pointer points to')
                    return v
            kind, x = self.place(st, fr, r[1])
            if kind == 'val':
                return x
            if k == 'raw':
                return x
            if r[2]:
                return x
            # shared: snapshot, but keep a reference stored there
            v = st.mem.get(x.a[0])
            if v is None:
                raise Unsupported('borrow of uninitialised')
            ty = None
            return self.vget(st, v, x.a[1])
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            n = self.rarg(fr.crate, r[2], fr.tenv)
            return t.fill(v, C(n) if isinstance(n, int) else A(t.sym('const:%s' % (n[1],), 'len')))
        if k == 'agg':
            return self.aggregate(st, fr, r)
        if k == 'bin':
            return self.binop(st, fr, r[1], r[2], r[3], where)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isp(v):
                    ty = self.intty(self.operand_ty(fr, r[2]))
                    if ty == 'bool':
                        return t.bnot_(v)
                    w = t.WID[ty]
                    return t.bnot(v, w)
                return t.bnot_(v)
            if r[1] == 'Neg':
                return t.neg(v)
            if r[1] == 'PtrMetadata':
                return t.slen(self.mget(st, v))
            raise Unsupported('unary ' + r[1])
        if k == 'disc':
            v = self.read(st, fr, r[1])
            if isinstance(v, T) and v.op == 'mref':
                v = self.mget(st, v)
            v = self.open(st, v)
            if v.op == 'E':
                if v.a[0] == 'core::cmp::Ordering':
                    return C(v.a[1] - 1)
                adt = self.p.adts.get(v.a[0])
                if adt and v.a[1] < len(adt['variants']):
                    return C(adt['variants'][v.a[1]]['d'])
                return C(v.a[1])
            raise Unsupported('discriminant of %s' % v.op)
        if k == 'cast':
            return self.cast(st, fr, r)
        raise Unsupported('rvalue %s' % (r[:2],))

    def aggregate(self, st, fr, r):
        kk = r[1]
        vals = tuple(self.operand(st, fr, o) for o in r[2])
        if kk[0] == 'array':
            return t.lit(vals)
        if kk[0] == 'tuple':
            return mk('E', '()', 0, vals)
        if kk[0] == 'adt':
            if kk[1] in ('core::pin::Pin',):
                return vals[0]
            return mk('E', kk[1], kk[2], vals)
        if kk[0] in ('closure', 'coroutine'):
            return mk('clo', kk[1], vals, self.tenvkey(fr.tenv))
        raise Unsupported('aggregate %r' % (kk,))

    def cast(self, st, fr, r):
        kind = r[1]
        v = self.operand(st, fr, r[2])
        ty = self.rty(fr.crate, r[3], fr.tenv)
        if kind.startswith('IntToInt'):
            src = self.operand_ty(fr, r[2])
            if v is True or v is False:
                return C(int(v))
            if not isp(v):
                if isinstance(v, T) and v.op in ('ge0', 'eq0', 'not', 'bsym', 'bat', 'andb', 'isv'):
                    return A(mk('ite', v, t.ONE, t.ZERO))
                if isinstance(v, T) and v.op in ('E', 'opq'):
                    v = self.open(st, v)
                    adt = self.p.adts.get(v.a[0])
                    return C(adt['variants'][v.a[1]]['d'])
                raise Unsupported('cast of %s' % v.op)
            return self.towidth(st, v, ty[1] if len(ty) > 1 else ty[0])
        if kind.startswith('IntToFloat'):
            return mk('flt', v, t.ONE)
        if kind.startswith('FloatToInt'):
            if v.op == 'flt':
                if v.a[1] is t.ONE:
                    return v.a[0]
                q, _ = t.divmod_(v.a[0], v.a[1])
                return q
            raise Unsupported('float to int')
        if kind.startswith(('PtrToPtr', 'PointerCoercion', 'Transmute', 'FnPtrToPtr')):
            if kind.startswith('Transmute'):
                return self.models['transmute'](self, st, [v], ty)
            if kind.startswith('PtrToPtr') and isinstance(v, T) and v.op in ('cptr', 'seq') and ty[0] == 'ptr':
                return self.wide(v, self.operand_ty(fr, r[2]), ty)
            return v
        raise Unsupported('cast ' + kind)

    def wide(self, v, src, dst):
        """a pointer to bytes reinterpreted as a pointer to wider words remembers their width"""
        def el(ty):
            return next((x for x in ty[1:] if isinstance(x, tuple)), None) if ty[0] in ('ptr', 'ref') else None
        a, b = el(src), el(dst)
        if a and b and b[0] == 'array' and b[1][0] == 'uint' and (isinstance(b[2], int) or isp(b[2]) and const(b[2]) is not None):
            if a[0] == 'array':
                a = a[1]
            n, wb = b[2] if isinstance(b[2], int) else const(b[2]), t.WID[b[1][1]] // 8
            if a[0] == 'uint' and t.WID[a[1]] == 8 and wb > 1 and (v.op == 'seq' or len(v.a) == 2):
                # an array of words lying in bytes
                return mk('cptr', v, t.ZERO, wb, n) if v.op == 'seq' else mk('cptr', v.a[0], v.a[1], wb, n)
        if v.op == 'seq':
            v = mk('cptr', v, t.ZERO)
        if a and b and a[0] == 'uint' and b[0] == 'uint' and a != b:
            wa, wb = t.WID[a[1]] // 8, t.WID[b[1]] // 8
            have = v.a[2] if len(v.a) > 2 else wa
            if wa == have and wa == 1 and wb > 1:
                return mk('cptr', v.a[0], v.a[1], wb)
            if len(v.a) > 2 and wb == 1:
                return mk('cptr', v.a[0], v.a[1])
            raise Unsupported('pointer cast from %d to %d bytes' % (wa, wb))
        return v

    def deref(self, st, p, where, aligned=True):
        """the value a raw pointer read yields"""
        if len(p.a) == 2:
            self.mem_access(st, p.a[1], t.ONE, t.slen(p.a[0]), where)
            return self.get(st, p.a[0], p.a[1])
        w = p.a[2]
        n = p.a[3] if len(p.a) > 3 else 1
        self.mem_access(st, p.a[1], C(w * n), t.slen(p.a[0]), where)
        if aligned:
            # nothing is known about the alignment of a byte sequence
            self.panic('memory', 'misaligned raw read of %d bytes' % (w * n), where, st)
        if len(p.a) > 3:
            return t.lit(tuple(t.word_of([self.get(st, p.a[0], t.add(p.a[1], C(w * j + i))) for i in range(w)], 8 * w) for j in range(n)))
        return t.word_of([self.get(st, p.a[0], t.add(p.a[1], C(i))) for i in range(w)], 8 * w)

    def towidth(self, st, v, tyname):
        if tyname not in t.WID:
            raise Unsupported('cast to ' + tyname)
        lo, hi = t.ty_bounds(tyname)
        bl, bh = t.bounds(v)
        if bl is not None and bh is not None and bl >= lo and bh <= hi:
            return v
        if st.decide(t.ge0(t.sub(v, C(lo)))) is True and st.decide(t.ge0(t.sub(C(hi), v))) is True:
            return v
        if tyname[0] == 'i':
            w = t.WID[tyname]
            x = t.wrap(v, w)
            if const(x) is not None:
                c = const(x)
                return C(c - (1 << w) if c >> (w - 1) else c)
            if st.need(t.ge0(t.sub(x, C(1 << (w - 1))))):
                return t.sub(x, C(1 << w))
            return x
        return t.wrap(v, t.WID[tyname])

    def inrange(self, p, tyname):
        lo, hi = t.ty_bounds(tyname)
        return t.band_(t.ge0(t.sub(p, C(lo))), t.ge0(t.sub(C(hi), p)))

    def binop(self, st, fr, op, x, y, where):
        a = self.operand(st, fr, x)
        b = self.operand(st, fr, y)
        ty = self.operand_ty(fr, x)
        return self.arith(st, op, a, b, ty)

    def arith(self, st, op, a, b, ty):
        if isinstance(a, T) and a.op == 'mref' and op not in ('Eq', 'Ne', 'Offset'):
            a = self.mget(st, a)
        if isinstance(b, T) and b.op == 'mref' and op not in ('Eq', 'Ne', 'Offset'):
            b = self.mget(st, b)
        n = self.intty(ty)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        if isinstance(a, T) and a.op == 'flt':
            return self.floatop(op, a, b)
        if n == 'bool' or not isp(a):
            if op == 'BitAnd':
                return t.band_(a, b)
            if op == 'BitOr':
                return t.bor_(a, b)
            if op == 'BitXor':
                if a is True or a is False:
                    return t.bnot_(b) if a else b
                if b is True or b is False:
                    return t.bnot_(a) if b else a
                x = st.need(a)
                return t.bnot_(b) if x else b
            raise Unsupported('%s on %r' % (op, a))
        w = t.WID.get(n)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            p = {'Add': t.add, 'Sub': t.sub, 'Mul': t.mul}[base](a, b)
            if op.endswith('WithOverflow'):
                return mk('E', '()', 0, (p, t.bnot_(self.inrange(p, n))))
            if op.endswith('Unchecked'):
                return p
            return self.towidth(st, p, n) if n[0] == 'u' else p
        if base == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                c = const(y)
                if c is not None and c > 0 and c & (c + 1) == 0 and all(q.op in ('sym', 'ceildiv', 'len') for q in t.atoms(x)) \
                        and const(x) is None and st.decide(t.ge0(x)) is True and st.decide(t.ge0(t.sub(y, x))) is True:
                    return x
        if base in ('BitXor', 'BitAnd', 'BitOr'):
            return {'BitXor': t.bxor, 'BitAnd': t.band, 'BitOr': t.bor}[base](a, b, w)
        if base in ('Shl', 'Shr'):
            c = const(b)
            if c is None:
                if base == 'Shl':
                    p = t.mul(a, t.fpow(C(2), b))
                    return A(mk('shl', w, a, b)) if True else p
                return A(mk('shr', w, a, b))
            if c >= w:
                c %= w
            if base == 'Shl':
                p = t.scale(a, 1 << c)
                if st.decide(self.inrange(p, n)) is True:
                    return p
                return t.shl(a, c, w)
            return t.shr(a, c, w) if t._known(a) is not None or True else None
        if base in ('Div', 'Rem'):
            lo, _ = t.bounds(a)
            if n[0] == 'i' and not (lo is not None and lo >= 0):
                if st.decide(t.ge0(a)) is not True:
                    if const(a) is not None and const(b) is not None:
                        q = abs(const(a)) // abs(const(b)) * (1 if const(a) * const(b) > 0 else -1)
                        return C(q) if base == 'Div' else C(const(a) - q * const(b))
                    raise Unsupported('signed division')
            return t.divmod_(a, b)[0 if base == 'Div' else 1]
        raise Unsupported('operator ' + op)

    def floatop(self, op, a, b):
        if op == 'Div':
            return mk('flt', t.mul(a.a[0], b.a[1]), t.mul(a.a[1], b.a[0]))
        if op == 'Mul':
            return mk('flt', t.mul(a.a[0], b.a[0]), t.mul(a.a[1], b.a[1]))
        if op == 'Add':
            return mk('flt', t.add(t.mul(a.a[0], b.a[1]), t.mul(b.a[0], a.a[1])), t.mul(a.a[1], b.a[1]))
        raise Unsupported('float ' + op)

    def compare(self, st, op, a, b):
        if a is b and op in ('Eq', 'Le', 'Ge'):
            return True
        if a is b and op in ('Ne', 'Lt', 'Gt'):
            return False
        if isp(a) and isp(b):
            d = t.sub(b, a)
            if op == 'Eq':
                return t.eq0(d)
            if op == 'Ne':
                return t.bnot_(t.eq0(d))
            if op == 'Le':
                return t.ge0(d)
            if op == 'Lt':
                return t.ge0(t.sub(d, t.ONE))
            if op == 'Ge':
                return t.ge0(t.neg(d))
            return t.ge0(t.sub(t.neg(d), t.ONE))
        if op in ('Eq', 'Ne'):
            r = self.equal(st, a, b)
            return r if op == 'Eq' else t.bnot_(r)
        if isinstance(a, T) and isinstance(b, T) and a.op == 'flt' and b.op == 'flt':
            l = t.mul(a.a[0], b.a[1])
            r = t.mul(b.a[0], a.a[1])
            return self.compare(st, op, l, r)
        raise Unsupported('comparison %s of %r, %r' % (op, a, b))

    def equal(self, st, a, b):
        """condition that two values are equal"""
        f = self.models.get('equal')
        if f is not None:
            r = f(self, st, a, b)
            if r is not None:
                return r
        if isinstance(a, T) and a.op == 'mref':
            a = self.mget(st, a)
        if isinstance(b, T) and b.op == 'mref':
            b = self.mget(st, b)
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            return y if x else t.bnot_(y)
        if isp(a) and isp(b):
            return t.eq0(t.sub(a, b))
        if a.op == 'E' or b.op == 'E' or a.op == 'opq' or b.op == 'opq':
            if self.variants(a.a[-1]) is None if a.op in ('opq', 'opqat') else False:
                return mk('same', *sorted((a, b)))
            a, b = self.open(st, a), self.open(st, b)
            if a.op == 'E' and b.op == 'E':
                if a.a[1] != b.a[1]:
                    return False
                r = True
                for x, y in zip(a.a[2], b.a[2]):
                    r = t.band_(r, self.equal(st, x, y))
                return r
        if a.op == 'seq' and b.op == 'seq':
            la, lb = t.slen(a), t.slen(b)
            if not st.need(t.eq0(t.sub(la, lb))):
                return False
            n = const(la)
            if n is None:
                n = const(lb)
            if n is not None and n <= 256:
                r = True
                for i in range(n):
                    r = t.band_(r, self.equal(st, self.get(st, a, C(i)), self.get(st, b, C(i))))
                return r
        return mk('same', *sorted((a, b)))

    # ------------------------------------------------------------ hooks of the rules
    def is_field(self, ty):
        """type whose values are members of the prime field (set up by the rules)"""
        h = self.models.get('is_field')
        return bool(h and h(self, ty))

    def fe(self, st, v):
        """polynomial of a field member"""
        v = self.mget(st, v)
        if not isp(v):
            raise Unsupported('field member expected, got %s' % t.show(v, 2))
        return v

    def field_uint(self, st, v, ty):
        return A(mk('repr', v, 'nat'))

    def field_from(self, st, v, src, dst):
        if isp(v):
            return v
        raise Unsupported('conversion into a field')

    def draw(self, st, rng, kind, *args):
        """the next value drawn from a generator"""
        c = self.mget(st, rng)
        if not (isinstance(c, T) and c.op == 'E' and c.a[0].startswith('rng:')):
            raise Unsupported('draw from %s' % t.show(c, 2))
        n = c.a[2][0]
        self.mset(st, rng, mk('E', c.a[0], 0, (t.add(n, t.ONE),)))
        return A(mk('rand', c.a[0], n, kind, *args))

    def mem_access(self, st, off, n, size, where):
        """obligation of a raw access: off + n <= size"""
        c = t.band_(t.ge0(off), t.ge0(t.sub(t.sub(size, off), n)))
        if st.decide(c) is True:
            self.prove('memory', where)
            return
        bad = st.copy()
        if bad.assume(c, False):
            self.panic('memory', 'raw access out of bounds', where, bad)
        if not st.assume(c, True):
            raise Panic('memory', 'raw access out of bounds')

    # ------------------------------------------------------------ control
    def info(self, body):
        """loop heads and the blocks of each natural loop"""
        r = self.loops.get(body['key'])
        if r is not None:
            return r
        bl = body['blocks']
        succ = []
        for b in bl:
            tt = b['t']
            k = tt[0]
            if k == 'goto':
                s = [tt[1]]
            elif k == 'sw':
                s = [x[1] for x in tt[2]] + [tt[3]]
            elif k == 'call':
                s = [tt[4]] if tt[4] is not None else []
            elif k == 'assert':
                s = [tt[4]]
            elif k == 'drop':
                s = [tt[2]]
            elif k == 'yield':
                s = [tt[2]]
            else:
                s = []
            succ.append(s)
        heads = {}
        color = {}
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        order = [0]
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.setdefault(s, set()).add(n)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for i, ss in enumerate(succ):
            for s in ss:
                pred.setdefault(s, []).append(i)
        loops = {}
        for h, tails in heads.items():
            blocks = {h}
            todo = list(tails)
            while todo:
                x = todo.pop()
                if x in blocks:
                    continue
                blocks.add(x)
                todo += pred.get(x, [])
            loops[h] = blocks
        # what can only end in a panic belongs to the loop it is reached from
        done = {i for i, b in enumerate(bl) if b['t'][0] == 'ret'}
        todo = list(done)
        while todo:
            for x in pred.get(todo.pop(), ()):
                if x not in done:
                    done.add(x)
                    todo.append(x)
        done |= {x for b in loops.values() for x in b}
        for h, blocks in loops.items():
            todo = list(blocks)
            while todo:
                for x in succ[todo.pop()]:
                    if x not in done and x not in blocks:
                        blocks.add(x)
                        todo.append(x)
        self.loops[body['key']] = loops
        return loops

    def run(self, key, args, st, tenv=None):
        """all return paths of a function: [(state, value)]"""
        body = self.p.helper(key) if key.startswith('jsa_prelude::') else self.p.bodies[key]
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('call depth (recursion) in ' + key)
        try:
            self.called.add(key)
            fr = Frame()
            fr.body = body
            fr.crate = body['crate']
            fr.tenv = tenv or {}
            self.fid += 1
            fr.fid = self.fid
            self.frames[fr.fid] = fr
            st = st.copy()
            if len(args) != body['argc']:
                raise Unsupported('argument count of ' + key)
            for i, a in enumerate(args):
                st.mem[(fr.fid, i + 1)] = a
            outs = self.region(fr, st, 0, None)
            res = []
            for s, bb in outs:
                v = s.mem.get((fr.fid, 0), UNIT)
                for loc in [l for l in s.mem if l[0] == fr.fid]:
                    # keep what a returned reference may still point to
                    del s.mem[loc]
                res.append((s, v))
            return res
        finally:
            self.depth -= 1

    def region(self, fr, st, bb, blocks, head=None):
        """runs from bb until the region is left; returns [(state, block)], block None for return.
        Inside a loop (head given), reaching head again ends a path with block == head."""
        loops = self.info(fr.body)
        work = [(st, bb)]
        out = []
        first = True
        while work:
            s, b = work.pop()
            if b is None:
                out.append((s, None))
                continue
            if blocks is not None and b not in blocks:
                out.append((s, b))
                continue
            if b == head and not first:
                out.append((s, b))
                continue
            if b in loops and b != head:
                for s2, b2 in self.loop(fr, s, b, loops[b]):
                    work.append((s2, b2))
                first = False
                continue
            first = False
            work.extend(self.block(fr, s, b))
        return out

    def block(self, fr, st, b):
        """executes one basic block; returns [(state, next block)]"""
        blk = fr.body['blocks'][b]
        states = [st]
        for stm in blk['s']:
            nxt = []
            todo = states
            while todo:
                s = todo.pop()
                self.budget -= 1
                if self.budget < 0:
                    raise Unsupported('analysis budget exhausted')
                if stm[0] == 'dead':
                    s.mem.pop((fr.fid, stm[1]), None)
                    nxt.append(s)
                    continue
                c = s
                try:
                    self.stmt(c, fr, stm)
                    nxt.append(c)
                except Split as e:
                    todo.extend(self.fork(s, e.cond))
                except Panic as e:
                    self.panic(e.kind, e.msg, stm[-1], s)
            states = nxt
        out = []
        todo = states
        while todo:
            s = todo.pop()
            try:
                out.extend(self.term(s.copy() if blk['t'][0] == 'call' else s, fr, blk['t']))
            except Split as e:
                todo.extend(self.fork(s, e.cond))
            except Panic as e:
                self.panic(e.kind, e.msg, blk['t'][-1], s)
        return out

    def fork(self, s, cond):
        out = []
        a = s.copy()
        if a.assume(cond, True):
            out.append(a)
        b = s.copy()
        if b.assume(cond, False):
            out.append(b)
        return out

    def panic(self, kind, msg, where, s):
        if not self.quiet:
            self.panics.append(Outcome(kind, msg, where, s))

    def prove(self, kind, where):
        if not self.quiet:
            self.proved.append((kind, where))

    def stmt(self, st, fr, stm):
        if stm[0] == '=':
            v = self.rvalue(st, fr, stm[2], stm[3])
            self.write(st, fr, stm[1], v)
        elif stm[0] == 'sd':
            v = self.read(st, fr, stm[1])
            self.write(st, fr, stm[1], mk('E', v.a[0], stm[2], v.a[2]))
        elif stm[0] == 'intr':
            pass
        else:
            raise Unsupported('statement ' + stm[0])

    def term(self, st, fr, tm):
        k = tm[0]
        self.budget -= 1
        if k == 'goto':
            return [(st, tm[1])]
        if k == 'ret':
            return [(st, None)]
        if k in ('unreach', 'resume'):
            return []
        if k == 'drop':
            return [(st, tm[2])]
        if k == 'sw':
            v = self.operand(st, fr, tm[1])
            if isinstance(v, bool) or (isinstance(v, T) and not isp(v)):
                if isinstance(v, T) and v.op == 'mref':
                    v = self.mget(st, v)
                r = st.need(v)
                for val, bb in tm[2]:
                    if int(val) == int(r):
                        return [(st, bb)]
                return [(st, tm[3])]
            c = const(v)
            if c is not None:
                ty = self.operand_ty(fr, tm[1])
                for val, bb in tm[2]:
                    vv = int(val)
                    if vv == c or ty[0] == 'int' and (vv - c) % (1 << t.WID[ty[1]]) == 0:
                        return [(st, bb)]
                return [(st, tm[3])]
            ty = self.operand_ty(fr, tm[1])
            for val, bb in tm[2]:
                vv = int(val)
                if ty[0] == 'int' and vv >= 1 << (t.WID[ty[1]] - 1):
                    vv -= 1 << t.WID[ty[1]]
                if st.need(t.eq0(t.sub(v, C(vv)))):
                    return [(st, bb)]
            return [(st, tm[3])]
        if k == 'assert':
            c = self.operand(st, fr, tm[1])
            if not tm[2]:
                c = t.bnot_(c)
            r = st.decide(c)
            if r is True:
                self.prove(tm[3], tm[5])
                return [(st, tm[4])]
            bad = st.copy()
            if bad.assume(c, False):
                self.panic(tm[3], tm[3], tm[5], bad)
            if r is False or not st.assume(c, True):
                return []
            return [(st, tm[4])]
        if k == 'call':
            return self.call_term(st, fr, tm)
        if k == 'yield':
            # a suspended task is resumed later; nothing of its own state changes
            return [(st, tm[2])]
        raise Unsupported('terminator ' + k)

    # ------------------------------------------------------------ calls
    def call_term(self, st, fr, tm):
        f = self.operand(st, fr, tm[1])
        args = [self.operand(st, fr, a) for a in tm[2]]
        if f.op == 'mref':
            f = self.mget(st, f)
        res = self.call(st, f, args, where=tm[5], fr=fr, argops=tm[2], dest=tm[3])
        out = []
        for s, v in res:
            if tm[4] is None:
                continue
            self.write(s, fr, tm[3], v)
            out.append((s, tm[4]))
        return out

    def call(self, st, f, args, where=None, fr=None, argops=None, dest=None):
        """[(state, value)] of calling a function value"""
        if f.op == 'clo':
            return self.call_closure(st, f, args)
        if f.op != 'fn':
            h = self.models.get('callvalue')
            if h:
                return self._norm(st, h(self, st, f, args))
            raise Unsupported('call of %s' % f.op)
        key, path, targs, trait, name, rkey, rargs, rpath = f.a[0]
        ci = CallInfo(key, path, targs, trait, name, rkey, rargs, rpath, where)
        ci.dest = (fr, dest)
        # explicit handlers first
        for k in (rkey, key):
            if k in self.opaque_fns:
                return self._norm(st, self.opaque_fns[k](self, st, args, ci))
        for n in ci.names():
            h = self.models.get(n)
            if h is not None:
                r = h(self, st, args, ci)
                if r is not NotImplemented:
                    return self._norm(st, r)
        h = self.models.get('*')
        if h is not None:
            r = h(self, st, args, ci)
            if r is not NotImplemented:
                return self._norm(st, r)
        if rkey in self.p.bodies and not self.p.bodies[rkey].get('abstract'):
            b = self.p.bodies[rkey]
            return self.run(rkey, args, st, dict(zip(b['generics'], rargs)))
        if trait is not None and targs:
            im = self.find_impl(trait, name, targs[0], targs[1:])
            if im is not None:
                b = self.p.bodies[im[0]]
                env = dict(im[1])
                own = b['generics']
                # method generics follow those of the impl
                extra = targs[1:]
                rest = [g for g in own if g not in env]
                for g, a in zip(rest[::-1], list(extra)[::-1]):
                    env[g] = a
                return self.run(im[0], args, st, env)
        if key in self.p.bodies:
            b = self.p.bodies[key]
            return self.run(key, args, st, dict(zip(b['generics'], targs)))
        raise Unsupported('call of %s %s' % (rpath or path, '/'.join(ci.names())))

    def _norm(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, r)]

    def call_closure(self, st, f, args):
        key = f.a[0]
        if key not in self.p.bodies:
            raise Unsupported('closure body ' + key)
        return self.run(key, [f] + list(args), st, dict(f.a[2]))

    def apply(self, st, f, args):
        """call of a closure, function item or reference to one"""
        if isinstance(f, T) and f.op == 'mref':
            r = f
            f = self.mget(st, r)
            if f.op == 'clo':
                key = f.a[0]
                return self.run(key, [r] + list(args), st, dict(f.a[2]))
        return self.call(st, f, args)

    def apply1(self, st, f, args):
        """single result; splits are raised to the caller's statement"""
        r = self.apply(st, f, args)
        if len(r) == 1:
            return r[0]
        raise Unsupported('closure with several outcomes')

    # ------------------------------------------------------------ futures
    def poll(self, st, fut):
        """[(state, value)] of driving a future to completion"""
        r = None
        if isinstance(fut, T) and fut.op == 'mref':
            r = fut
            fut = self.mget(st, fut)
        h = self.models.get('poll')
        if h is not None:
            x = h(self, st, fut, r)
            if x is not None:
                return self._norm(st, x)
        if fut.op == 'clo':
            key = fut.a[0]
            b = self.p.bodies[key]
            args = [fut if r is None else r, mk('ctx')][:b['argc']]
            return self.run(key, args, st, dict(fut.a[2]))
        raise Unsupported('poll of %r' % (fut,))

    # ------------------------------------------------------------ loops
    def loop(self, fr, st, head, blocks):
        from . import loops
        return loops.mir_loop(self, fr, st, head, blocks)


class CallInfo:
    def __init__(self, key, path, targs, trait, name, rkey, rargs, rpath, where):
        self.key, self.path, self.targs, self.trait, self.name = key, path, targs, trait, name
        self.rkey, self.rargs, self.rpath, self.where = rkey, rargs, rpath, where
        self._n = None

    def names(self):
        if self._n is None:
            out = []
            if self.trait is not None:
                out.append('%s::%s' % (self.trait.split('<')[0].split('::')[-1], self.name))
            out.append(short(self.path))
            if self.rpath and self.rpath != self.path:
                out.append(short(self.rpath))
            self._n = out
        return self._n


_short = {}


def short(path):
    r = _short.get(path)
    if r is None:
        p = path
        m = re.match(r'.*<impl (.*)>::(\w+)$', p)
        if m and ' for ' not in m.group(1):
            ty = m.group(1)
            if ty.startswith('['):
                ty = 'slice'
            ty = re.sub(r'<.*>', '', ty)
            if ty.startswith('*'):
                ty = 'ptr'
            r = ty.split('::')[-1] + '::' + m.group(2)
        else:
            while True:
                q = re.sub(r'::<[^<>]*>', '', p)
                q = re.sub(r'<[^<>]*>', '', q)
                if q == p:
                    break
                p = q
            r = '::'.join(p.split('::')[-2:])
        _short[path] = r
    return r


STD_ENUMS = {
    'core::option::Option': lambda a: [('None', [], []), ('Some', [a[0]], ['some'])],
    'core::result::Result': lambda a: [('Ok', [a[0]], ['ok']), ('Err', [a[1]], ['err'])],
}
NONE = mk('E', 'core::option::Option', 0, ())


def some(v):
    return mk('E', 'core::option::Option', 1, (v,))


def ok(v):
    return mk('E', 'core::result::Result', 0, (v,))


def err(v):
    return mk('E', 'core::result::Result', 1, (v,))
