"""Loop summaries: recurrences of the changed memory are solved in closed form; what cannot be solved is
left arbitrary, which is sound."""
from . import terms as t, lin
from .terms import mk, C, A, isp, const, T
from .interp import Split, Panic, Unsupported, State


def mir_loop(I, fr, st, head, blocks):
    def step(s, _k=None):
        backs, exits = [], []
        for s2, b2 in I.region(fr, s.copy(), head, blocks, head):
            (backs if b2 == head else exits).append((s2, b2))
        return [b[0] for b in backs], exits
    return run_loop(I, st, step, '%s bb%d' % (fr.body['key'], head))


def run_loop(I, st, step, name):
    done = []
    cur = [st]
    tried = False
    start = (len(I.panics), len(I.proved))
    for it in range(I.unroll):
        nxt = []
        for s in cur:
            np, nq = len(I.panics), len(I.proved)
            backs, exits = step(s)
            if backs and exits and not tried:
                # an iterator over a few given elements is followed to its end
                if it == 0:
                    r = short(I, st, step, np, nq)
                    if r is not None:
                        return r
                # both ways possible: summarise from the start
                pan = I.panics[np:]
                del I.panics[np:]
                del I.proved[nq:]
                tried = True
                saved = (len(I.panics), len(I.proved))
                try:
                    return done_first(I, st, step, name)
                except Unsupported as e:
                    del I.panics[saved[0]:]
                    del I.proved[saved[1]:]
                    why = e
                    I.panics.extend(pan)
                    if it > 0 or len(cur) > 1:
                        pass
                    I.loopstats.append((name, 'unrolled: %s' % e))
            done.extend(exits)
            nxt.extend(backs)
        if not nxt:
            I.loopstats.append((name, 'unrolled %d' % it))
            return done
        cur = nxt
        if tried and it > 40:
            raise Unsupported('loop %s: %s' % (name, why))
        if len(cur) > 200:
            raise Unsupported('loop %s: too many paths' % name)
    if not tried and len(cur) == 1:
        # nothing decides when it ends
        del I.panics[start[0]:]
        del I.proved[start[1]:]
        return done_first(I, st, step, name)
    raise Unsupported('loop %s does not end within %d iterations' % (name, I.unroll))


def short(I, st, step, np, nq):
    """the loop unrolled to its end, when an iterator with a handful of elements left is about"""
    m = max((n for v in st.mem.values() for n in few(v, 3)), default=0)
    if not m:
        return None
    pan, pro = I.panics[np:], I.proved[nq:]
    del I.panics[np:]
    del I.proved[nq:]
    done, cur = [], [st]
    for _ in range(m + 1):
        nxt = []
        for s in cur:
            backs, exits = step(s)
            done += exits
            nxt += backs
        if not nxt:
            return done
        if len(nxt) + len(done) > 48:
            break
        cur = nxt
    I.panics[np:] = pan
    I.proved[nq:] = pro
    return None


def few(v, depth):
    if isinstance(v, T) and v.op == 'E':
        if v.a[0] == 'iter':
            n = const(t.sub(v.a[2][1], v.a[2][0])) if isp(v.a[2][0]) and isp(v.a[2][1]) else None
            if n is not None and 0 < n <= 8:
                yield n
        elif depth:
            for x in v.a[2]:
                yield from few(x, depth - 1)


def done_first(I, st, step, name):
    # panics of a peeled prefix belong to iteration 0.. of the summary as well
    return summarise(I, st, step, name)


# ------------------------------------------------------------------ leaves
def diff(I, v0, v1, path, out):
    if v0 is v1:
        return
    if isinstance(v0, T) and isinstance(v1, T) and v0.op == 'E' and v1.op == 'E' and v0.a[0] == v1.a[0] \
            and v0.a[1] == v1.a[1] and len(v0.a[2]) == len(v1.a[2]):
        for i, (a, b) in enumerate(zip(v0.a[2], v1.a[2])):
            diff(I, a, b, path + (('f', i),), out)
        return
    if isinstance(v0, T) and isinstance(v1, T) and v0.op == 'clo' and v1.op == 'clo' and v0.a[0] == v1.a[0]:
        for i, (a, b) in enumerate(zip(v0.a[1], v1.a[1])):
            diff(I, a, b, path + (('f', i),), out)
        return
    if isinstance(v0, T) and isinstance(v1, T) and v0.op == 'seq' and v1.op == 'seq' and len(v0.a[0]) == 1 and \
            len(v1.a[0]) == 1 and v0.a[0][0].op == 'lit' and v1.a[0][0].op == 'lit' and \
            len(v0.a[0][0].a[0]) == len(v1.a[0][0].a[0]) and len(v0.a[0][0].a[0]) <= 16:
        # a fixed array whose elements are tracked one by one
        for i, (a, b) in enumerate(zip(v0.a[0][0].a[0], v1.a[0][0].a[0])):
            diff(I, a, b, path + (('i', C(i)),), out)
        return
    if isinstance(v0, T) and isinstance(v1, T) and v0.op == v1.op == 'cptr' and v0.a[0] is v1.a[0] and v0.a[2:] == v1.a[2:]:
        out.append((path + (('p',),), v0.a[1], v1.a[1]))
        return
    if isinstance(v0, T) and isinstance(v1, T) and v0.op == v1.op == 'mref' and v0.a[0] == v1.a[0] and \
            v0.a[1] and v1.a[1] and v0.a[1][:-1] == v1.a[1][:-1] and v0.a[1][-1][0] == v1.a[1][-1][0] == 'i':
        out.append((path + (('p',),), v0.a[1][-1][1], v1.a[1][-1][1]))
        return
    out.append((path, v0, v1))


def vput(I, st, v, path, new):
    return I.vset(st, v, path, new)


def leaf_get(I, st, leaf):
    return I.vget(st, st.mem[leaf[0]], leaf[1])


def elemtype(I, v):
    """element type of a sequence value, by inspection"""
    for g in v.a[0]:
        if g.op == 'sub' and g.a[0].op == 'base':
            return g.a[0].a[1]
        if g.op == 'sub' and g.a[0].op == 'row':
            return g.a[0].a[1]
        x = None
        if g.op == 'lit':
            x = g.a[0][0]
        elif g.op == 'fill':
            x = g.a[0]
        elif g.op == 'flat' and g.a[2].a[0] and g.a[2].a[0][0].op == 'lit':
            x = g.a[2].a[0][0].a[0][0]
        if x is not None:
            if isp(x):
                return None
            if x.op == 'seq':
                return ('adt', 'alloc::vec::Vec', (elemtype(I, x) or ('uint', 'u8'), ('g',)))
            if x.op == 'E' and x.a[0] == '()':
                return ('tuple', tuple(guess(I, y) for y in x.a[2]))
    return None


def guess(I, v):
    if isp(v):
        return ('field',)
    if v.op == 'seq':
        return ('adt', 'alloc::vec::Vec', (elemtype(I, v) or ('field',), ('g',)))
    if v.op == 'E' and v.a[0] == '()':
        return ('tuple', tuple(guess(I, y) for y in v.a[2]))
    return ('other',)


def leaf_type(I, leaf):
    loc, path = leaf
    fr = I.frames.get(loc[0]) if hasattr(I, 'frames') else None
    if fr is None:
        return None
    ty = I.rty(fr.crate, fr.body['locals'][loc[1]], fr.tenv)
    for e in path:
        while ty[0] in ('ref', 'ptr') or (ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box'):
            ty = ty[2] if ty[0] != 'adt' else ty[2][0]
        if e[0] == 'p':
            return ('int', 'isize')
        if e[0] == 'f':
            if ty[0] == 'tuple':
                ty = ty[1][e[1]]
            else:
                vs = I.variants(ty)
                if not vs or e[1] >= len(vs[0][1]):
                    return None
                ty = vs[0][1][e[1]]
        elif e[0] == 'i':
            ty = ty[1] if ty[0] in ('array', 'slice') else (ty[2][0] if ty[0] == 'adt' and ty[2] else None)
            if ty is None:
                return None
        else:
            return None
    while ty[0] == 'ref':
        ty = ty[2]
    return ty


class Leaf:
    def __init__(self, leaf, v0):
        self.leaf = leaf
        self.v0 = v0
        self.sol = None
        self.late = False      # solution valid from k >= 1 on only
        self.dead = False
        self.phi = None
        self.x = None          # the symbol standing for the leaf


def make_phi(I, lf, v1):
    v0 = lf.v0
    ty = leaf_type(I, lf.leaf)
    n = 'phi'
    if isp(v0):
        tn = ty[1] if ty and ty[0] in ('uint', 'int') else 'any'
        lf.x = t.fresh(n, tn)
        lf.phi = A(lf.x)
    elif isinstance(v0, T) and v0.op == 'seq':
        ety = None
        if ty is not None:
            if ty[0] in ('array', 'slice'):
                ety = ty[1]
            elif ty[0] == 'adt' and ty[2]:
                ety = ty[2][0]
        if ety is None or ety[0] in ('param', 'alias', 'infer'):
            ety = elemtype(I, v0) or (elemtype(I, v1) if isinstance(v1, T) and v1.op == 'seq' else None) or ety or ('field',)
        lf.x = mk('base', 'phi#%d' % next(t._fresh), ety)
        l0 = t.slen(v0)
        if isinstance(v1, T) and v1.op == 'seq' and t.slen(v1) is l0 and not getattr(lf, 'grow', False):
            lf.phi = mk('seq', (mk('sub', lf.x, t.ZERO, l0),))
            lf.fixed = True
        else:
            lf.phi = t.whole(lf.x)
            lf.fixed = False
    elif isinstance(v0, bool) or (isinstance(v0, T) and v0.op in ('ge0', 'eq0', 'feq0', 'not', 'andb', 'bsym', 'bat', 'isv')):
        lf.x = lf.phi = mk('bsym', 'phi#%d' % next(t._fresh))
    elif isinstance(v0, T) and v0.op == 'map':
        lf.x = mk('base', 'phi#%d' % next(t._fresh), ('entry',))
        lf.phi = mk('map', v0.a[0], t.whole(lf.x))
    elif ty is not None and isinstance(v0, T) and I.variants(ty) is not None:
        lf.x = lf.phi = mk('opq', 'phi#%d' % next(t._fresh), ty)
    else:
        lf.x = lf.phi = mk('unk', 'phi#%d' % next(t._fresh))


def uses(v, xs):
    """free base/sym/opq atoms of v among xs"""
    return any(contains(v, x) for x in xs)


_cont = {}


def contains(v, x):
    if v is x:
        return True
    if isinstance(v, tuple):
        return any(contains(y, x) for y in v)
    if not isinstance(v, T):
        return False
    if v.id < x.id:
        return False
    k = (v.id, x.id)
    r = _cont.get(k)
    if r is None:
        r = any(contains(y, x) for y in v.a)
        _cont[k] = r
    return r


def tsubst(v, m):
    """substitution that also replaces bases and opaque symbols"""
    return _ts(v, m, {})


def _ts(v, m, memo):
    if isinstance(v, tuple):
        return tuple(_ts(y, m, memo) for y in v)
    if not isinstance(v, T):
        return v
    if v in m:
        return m[v]
    r = memo.get(v)
    if r is not None:
        return r
    if not any(contains(v, x) for x in m):
        memo[v] = v
        return v
    if v.op in t.BINDERS:
        lv = v.a[0]
        k = t.fresh('k', 'nat')
        open_ = {mk('bv', lv): A(k)}
        if v.op == 'Iter':
            acc = t.fresh('v', 'any')
            open_[mk('bv', -lv)] = acc
            body = _ts(t.subst(v.a[3], open_), m, {})
            r = t.iter_term(k, acc, _ts(v.a[1], m, memo), _ts(v.a[2], m, memo), body, *v.a[4:])
        else:
            body = _ts(t.subst(v.a[2], open_), m, {})
            n = _ts(v.a[1], m, memo)
            rest = _ts(t.subst(v.a[3:], open_), m, {})
            r = {'Sum': lambda: t.Sum(k, n, body), 'Prod': lambda: t.Prod(k, n, body, *rest),
                 'flat': lambda: t.flat(k, n, body)}.get(v.op, lambda: t.mk_bind(v.op, k, n, body, *rest))()
    else:
        r = t.rebuild(v.op, tuple(_ts(y, m, memo) for y in v.a))
    memo[v] = r
    return r


# ------------------------------------------------------------------ summaries
def facts_of(s):
    return s.pc


def summarise(I, st, step, name, count=None):
    """step(S) -> (back states, exits).  count: known trip count (internal iteration), exits then ignored.
    In counted mode step takes (S, k)."""
    I.quiet += 1
    try:
        return _summarise(I, st, step, name, count)
    except Phases as e:
        at = e.at
    finally:
        I.quiet -= 1
    # the body changes its behaviour at a fixed iteration: the loop is two loops in sequence
    I.phases = getattr(I, 'phases', 0) + 1
    try:
        return in_phases(I, st, step, name, count, at)
    finally:
        I.phases -= 1


class Phases(Exception):
    def __init__(self, at):
        self.at = at


PH2 = ('second phase',)


def in_phases(I, st, step, name, count, at):
    I.loopstats.append((name, 'split at iteration %s' % t.show(at, 3)))
    pos = t.ge0(t.sub(at, t.ONE))
    if st.decide(pos) is not True:
        res = []
        for z in I.fork(st.copy(), pos):
            if z.decide(pos) is True:
                res += in_phases(I, z, step, name, count, at)
            elif count is not None:
                res += summarise(I, z, step, name, count)
            else:
                res += run_loop(I, z, step, name)
        return res
    if count is not None:
        res = []
        for z in I.fork(st.copy(), t.ge0(t.sub(count, at))):
            if z.decide(t.ge0(t.sub(count, at))) is not True:
                res += summarise(I, z, step, name, count)
                continue

            def tail(s, k):
                return step(s, t.add(k, at))
            for s, _ in summarise(I, z, step, name, at):
                n2 = t.sub(count, at)
                c = const(n2)
                if c is not None and c <= 4:
                    cur = [s]
                    for i in range(c):
                        cur = [b for q in cur for b in tail(q, C(i))[0]]
                    res += [(b, None) for b in cur]
                else:
                    res += summarise(I, s, tail, name, n2)
        return res
    cell = I.alloc(st, t.ZERO, 'phase')

    def first(s):
        k = I.mget(s, cell)
        go = t.ge0(t.sub(t.sub(at, k), t.ONE))
        backs, exits = [], []
        for z in I.fork(s.copy(), go):
            if z.decide(go) is True:
                b, e = step(z)
                for q in b:
                    I.mset(q, cell, t.add(k, t.ONE))
                backs += b
                exits += e
            else:
                exits.append((z, PH2))
        return backs, exits
    res = []
    for s, b in summarise(I, st, first, name):
        s.mem.pop(cell.a[0], None)
        if b is PH2:
            res += run_loop(I, s, step, name)
        else:
            res.append((s, b))
    return res


def threshold(s1, backs, k, xs):
    """an iteration number at which a condition that separates the paths of the body changes its value"""
    for i, a in enumerate(backs):
        for b in backs[i + 1:]:
            c = distinguishing(s1, a, b)
            if c is None:
                continue
            while isinstance(c, T) and c.op == 'not':
                c = c.a[0]
            if not (isinstance(c, T) and c.op in ('ge0', 'eq0')) or uses(c, xs):
                continue
            p = c.a[0]
            co = dict(p.a[0]).get((k,), 0)
            rest = t.sub(p, t.scale(A(k), co))
            if co not in (1, -1) or contains(rest, k):
                continue
            if c.op == 'ge0':
                at = t.add(rest, t.ONE) if co == -1 else t.scale(rest, -1)
            else:
                at = t.scale(rest, -co)
                if s1.decide(t.ge0(t.sub(at, t.ONE))) is not True or at is t.ZERO:
                    at = t.add(at, t.ONE)
            if s1.decide(t.ge0(t.sub(at, t.ONE))) is not False:
                return at
    return None


def call_step(step, s, k, count):
    if count is None:
        return step(s)
    return step(s, k)


def _summarise(I, st, step, name, count):
    k = t.fresh('k', 'nat')
    K = A(k)
    leaves = {}          # (loc, path) -> Leaf
    dead = set()
    groups = []          # chain groups

    def build(kval, facts, usephi=True, first=False):
        s = st.copy()
        for loc in dead:
            s.mem.pop(loc, None)
        for key, lf in sorted(leaves.items(), key=lambda z: (len(z[0][1]), str(z[0]))):
            if first:
                continue
            v = lf.sol if lf.sol is not None else lf.phi
            if kval is not K:
                v = tsubst(v, {k: kval})
            s.mem[key[0]] = I.vset(s, s.mem[key[0]], key[1], v)
        for f in facts:
            if not s.assume(*f):
                return None
        return s

    # find the changed leaves
    base_facts = [(t.ge0(K), True)]
    if count is not None:
        base_facts.append((t.ge0(t.sub(t.sub(count, K), t.ONE)), True))

    def discover(s0, backs):
        """adds newly changed leaves; True when something was added"""
        ch = False
        for b in backs:
            for loc, v in s0.mem.items():
                if loc in dead:
                    continue
                if loc not in b.mem:
                    dead.add(loc)
                    for kk in [q for q in leaves if q[0] == loc]:
                        del leaves[kk]
                    ch = True
                    continue
                w = b.mem[loc]
                if w is v:
                    continue
                out = []
                diff(I, v, w, (), out)
                for path, a, bb in out:
                    key = (loc, path)
                    # already below or above a known leaf?
                    if any(q[0] == loc and q[1] == path[:len(q[1])] for q in leaves):
                        continue
                    for q in [q for q in leaves if q[0] == loc and q[1][:len(path)] == path]:
                        del leaves[q]
                    v0 = I.vget(st, st.mem[loc], path) if path else st.mem[loc]
                    lf = Leaf(key, v0)
                    lf.v1 = bb
                    leaves[key] = lf
                    ch = True
        return ch

    s0 = st.copy()
    if count is not None:
        if not s0.assume(t.ge0(t.sub(count, t.ONE)), True):
            return [(st, None)]
    backs, _ = call_step(step, s0, t.ZERO, count)
    if not backs:
        raise Unsupported('no iteration')
    discover(s0, backs)
    for _ in range(8):
        assign_phis(I, st, leaves, groups)
        s1 = build(K, base_facts)
        backs, _ = call_step(step, s1, K, count)
        if not discover(s1, backs):
            break
        for lf in leaves.values():
            lf.sol = None
    else:
        raise Unsupported('changed memory does not stabilise')

    # solve
    failed = set()
    cont = []
    for rnd in range(14):
        s1 = build(K, base_facts + cont)
        if s1 is None:
            break
        backs, _ = call_step(step, s1, K, count)
        if not backs:
            break
        progress = False
        unsolved = [lf for lf in leaves.values() if lf.sol is None]
        xs = [lf.x for lf in unsolved]
        for lf in unsolved:
            if lf.leaf in failed:
                continue
            try:
                vs = [leaf_get(I, b, lf.leaf) for b in backs]
                v1 = merge(I, s1, backs, vs)
                others = [x for x in xs if x is not lf.x]
                if getattr(lf, 'group', None) is not None:
                    r = solve_group(I, lf, v1, k, others, s1)
                else:
                    if uses(v1, others):
                        continue
                    r = solve(I, lf, v1, k, s1)
            except (Unsupported, Split):
                r = None
            if r is not None:
                progress = True
        # facts established by every completed iteration
        cont = continue_facts(I, s1, backs, k, [lf.x for lf in leaves.values() if lf.sol is None])
        if not progress:
            # general recurrences for what is left, one leaf at a time
            for lf in unsolved:
                if lf.leaf in failed or lf.sol is not None:
                    continue
                try:
                    vs = [leaf_get(I, b, lf.leaf) for b in backs]
                    v1 = merge(I, s1, backs, vs)
                    others = [x for x in xs if x is not lf.x]
                    if not uses(v1, others) and solve_iter(I, lf, v1, k):
                        progress = True
                        break
                except (Unsupported, Split):
                    pass
            if not progress:
                break
    unsolved = [lf for lf in leaves.values() if lf.sol is None]
    xs = [lf.x for lf in unsolved]

    # check of the solutions, and facts of completed iterations: C(k) for the step from k to k+1
    s1 = build(K, base_facts)
    backs, _ = call_step(step, s1, K, count)
    if xs and len(backs) > 1 and getattr(I, 'phases', 0) < 3:
        at = threshold(s1, backs, k, xs)
        if at is not None:
            raise Phases(at)
    cfacts = continue_facts(I, s1, backs, k, xs)
    for _ in range(3):
        facts_prev = [(tsubst(c, {k: t.sub(K, t.ONE)}), v) for c, v in cfacts]
        s1 = build(K, base_facts + [(t.ge0(t.sub(K, t.ONE)), True)] + facts_prev)
        if s1 is None:
            break
        backs, _ = call_step(step, s1, K, count)
        more = continue_facts(I, s1, backs, k, xs)
        if set(more) <= set(cfacts):
            break
        cfacts = cfacts + [c for c in more if c not in cfacts and consistent_at0(I, st, step, count, c, k, s0)]
    for lf in list(leaves.values()):
        if lf.sol is None:
            continue
        for b in backs:
            want = tsubst(lf.sol, {k: t.add(K, t.ONE)})
            got = leaf_get(I, b, lf.leaf)
            if got is not want and not equal_under(I, b, got, want):
                raise Unsupported('recurrence of %s not confirmed: %s vs %s' % (lf.leaf, t.show(settled(b, got), 6) if isp(got) else t.show(got), t.show(settled(b, want), 6) if isp(want) else t.show(want)))
    late = any(lf.late for lf in leaves.values())
    facts_prev = [(tsubst(c, {k: t.sub(K, t.ONE)}), v) for c, v in cfacts]
    I.loopstats.append((name, 'summarised: %d leaves, %d unsolved' % (len(leaves), len(unsolved))))

    if count is not None:
        # iteration 0 and generic iteration, with panics recorded
        I.quiet -= 1
        try:
            s1 = build(K, base_facts) if not late else None
            if s1 is not None:
                call_step(step, s1, K, count)
            else:
                call_step(step, s0.copy(), t.ZERO, count)
                s1 = build(K, base_facts + [(t.ge0(t.sub(K, t.ONE)), True)] + facts_prev)
                if s1 is not None:
                    call_step(step, s1, K, count)
        finally:
            I.quiet += 1
        outs = []
        if late:
            z = st.copy()
            if z.assume(t.eq0(count), True):
                outs.append((z, None))
            f = build(count, [(t.ge0(t.sub(count, t.ONE)), True)])
            if f is not None and every(f, cfacts, k, count):
                outs.append((f, None))
        else:
            f = build(count, [])
            none = t.ge0(t.scale(count, -1))
            last = [tsubst(c, {k: t.sub(count, t.ONE)}) if v else t.bnot_(tsubst(c, {k: t.sub(count, t.ONE)})) for c, v in cfacts]
            if every(f, cfacts, k, count) and all(f.assume(t.bor_(none, c), True) for c in last):
                outs.append((f, None))
        return outs

    # uniform treatment when the facts of "the iteration before" hold at entry for k = 0
    uniform = not late and all(st.decide(tsubst(c, {k: C(-1)})) is v for c, v in cfacts)
    I.quiet -= 1
    try:
        res = []
        if uniform:
            s1 = build(K, [(t.ge0(K), True)] + facts_prev)
            _, exits = call_step(step, s1, K, None)
            res = exits
        else:
            _, ex0 = call_step(step, st.copy(), t.ZERO, None)
            res = list(ex0)
            s1 = build(K, [(t.ge0(t.sub(K, t.ONE)), True)] + facts_prev)
            if s1 is not None:
                _, ex1 = call_step(step, s1, K, None)
                res += ex1
    finally:
        I.quiet += 1
    out = []
    for s, b in res:
        if every(s, cfacts, k, K):
            out.append((resolve_k(I, s, k), b))
    return out


def every(s, cfacts, k, n):
    """records what each of the n completed iterations established about the values it looked at"""
    for c, v in cfacts:
        x = c
        while x.op == 'not':
            x = x.a[0]
        if x.op in ('ge0', 'eq0'):
            # what is linear in the iteration number follows from the last iteration
            rest = t.sub(x.a[0], t.scale(A(k), dict(x.a[0].a[0]).get((k,), 0)))
        else:
            rest = x
        if contains(rest, k) and not s.assume(t.mk_bind('All', k, n, c if v else t.bnot_(c)), True):
            return False
    return True


def consistent_at0(I, st, step, count, c, k, s0):
    """c (a fact of completed iterations k >= 1) must hold for iteration 0 as well to be used"""
    backs, _ = call_step(step, s0.copy(), t.ZERO, count)
    c0 = tsubst(c[0], {k: t.ZERO})
    return all(b.decide(c0) is c[1] for b in backs)


def assign_phis(I, st, leaves, groups):
    # chain words that change together are one opaque chaining value
    chain = {}
    for key, lf in leaves.items():
        if lf.phi is not None:
            continue
        at = t.as_atom(lf.v1) if isp(lf.v1) else None
        if at is not None and at.op == 'cw':
            chain.setdefault((at.a[1].a[0],), []).append((at.a[0], lf))
    for fam, ls in chain.items():
        v0s = []
        for i, lf in ls:
            a0 = t.as_atom(lf.v0)
            v0s.append(a0.a[1] if a0 is not None and a0.op == 'cw' and a0.a[0] == i else None)
        if None in v0s or len(set(v0s)) != 1:
            continue
        c0 = v0s[0]
        g = {'c0': c0, 'xb': mk('base', 'phib#%d' % next(t._fresh), ('uint', 'u8')),
             'xm': mk('base', 'phim#%d' % next(t._fresh), ('meta',)), 'sol': None}
        cphi = mk('chain', c0.a[0], t.whole(g['xb']), t.whole(g['xm']))
        groups.append(g)
        for i, lf in ls:
            lf.group = g
            lf.x = g['xb']
            w = t.as_atom(lf.v1)
            lf.phi = A(mk('cw', i, cphi, w.a[2]))
    for key, lf in leaves.items():
        if lf.phi is None:
            make_phi(I, lf, lf.v1)


def solve_group(I, lf, v1, k, others, s1):
    g = lf.group
    at = t.as_atom(v1)
    if at is None or at.op != 'cw':
        return None
    if g['sol'] is None:
        c1 = at.a[1]
        oth = [x for x in others if x is not g['xb']]
        bt = append_tail(c1.a[1], g['xb'])
        mt = append_tail(c1.a[2], g['xm'])
        if bt is None or mt is None or uses(bt, oth) or uses(mt, oth):
            return None
        K = A(k)
        j = t.fresh('k', 'nat')
        nb = t.cat(g['c0'].a[1], t.flat(j, K, tsubst(bt, {k: A(j)})))
        nm = t.cat(g['c0'].a[2], t.flat(j, K, tsubst(mt, {k: A(j)})))
        g['sol'] = mk('chain', g['c0'].a[0], nb, nm)
    a0 = t.as_atom(lf.phi)
    lf.sol = A(mk('cw', a0.a[0], g['sol'], a0.a[2]))
    return True


def append_tail(v, x):
    """v = x ++ tail"""
    segs = v.a[0]
    if not segs or segs[0].op != 'sub' or segs[0].a[0] is not x or segs[0].a[1] is not t.ZERO:
        return None
    if segs[0].a[2] is not A(mk('len', x)):
        return None
    tail = mk('seq', segs[1:])
    if contains(tail, x):
        return None
    return tail


def merge(I, s1, backs, vs):
    if all(v is vs[0] for v in vs):
        return vs[0]
    if len(vs) == 2:
        c = distinguishing(s1, backs[0], backs[1])
        if c is not None and all(isp(v) for v in vs):
            return t.ite(c, vs[0], vs[1])
    if all(equal_under(I, b, v, vs[0]) for b, v in zip(backs[1:], vs[1:])):
        return vs[0]
    raise Unsupported('paths of the body disagree')


def distinguishing(s1, a, b):
    """a condition true in a and false in b"""
    for c, v in a.bf.items():
        if c not in s1.bf and c in b.bf and b.bf[c] != v:
            return c if v else t.bnot_(c)
    fa = [f for f in a.pc if f not in s1.pc]
    fb = [f for f in b.pc if f not in s1.pc]
    for f in fa:
        for g in fb:
            c = fact_cond(f)
            if t.bnot_(fact_cond(g)) is c:
                return c
            if f[0] in ('eq', 'ne') and g[0] in ('eq', 'ne') and f[0] != g[0] and f[1] is g[1]:
                return c
            if f[0] == 'ge' and g[0] == 'ge' and t.add(t.add(f[1], g[1]), t.ONE) is t.ZERO:
                return c
    return None


def fact_cond(f):
    if f[0] == 'ge':
        return t.ge0(f[1])
    c = t.eq0(f[1])
    return c if f[0] == 'eq' else t.bnot_(c)


def continue_facts(I, s1, backs, k, xs):
    """linear facts every completed iteration establishes, over k and loop-invariant terms"""
    res = None
    for b in backs:
        fs = []
        for f in b.pc:
            if f in s1.pc:
                continue
            if uses(f[1], xs):
                continue
            c = fact_cond(f)
            if c is True or c is False:
                continue
            fs.append(c)
        res = fs if res is None else [c for c in res if c in fs or b.decide(c) is True]
    out = []
    if len(backs) > 1:
        # one of the ways through the body was taken
        alt = False
        for b in backs:
            way = True
            for f in b.pc:
                if f not in s1.pc and not uses(f[1], xs):
                    way = t.band_(way, fact_cond(f))
            for c, v in b.bf.items():
                if c not in s1.bf and not uses(c, xs):
                    way = t.band_(way, c if v else t.bnot_(c))
            alt = t.bor_(alt, way)
        if isinstance(alt, T) and alt not in (res or []):
            out.append((alt, True))
    elif backs:
        for c, v in backs[0].bf.items():
            if c not in s1.bf and not uses(c, xs):
                out.append((c, v))
    for c in res or []:
        if isinstance(c, T):
            out.append((c, True))
            if c.op == 'not' and c.a[0].op == 'eq0':
                # k differs from m in every iteration so far, and m is no smaller than the first k: k is below m
                p = c.a[0].a[0]
                co = dict(p.a[0]).get((k,), 0)
                rest = t.sub(p, t.scale(A(k), co))
                if co in (1, -1) and not contains(rest, k):
                    m = t.scale(rest, -co)
                    if s1.decide(t.ge0(m)) is True:
                        out.append((t.ge0(t.sub(t.sub(m, A(k)), t.ONE)), True))
    return out


def choices(p):
    out = []
    for x in t.atoms(p):
        if x.op == 'ite':
            out.append(x)
        elif x.op == 'inv':
            out += choices(x.a[0])
    return out


def settled(s, p):
    """p with the choices the state decides"""
    for _ in range(8):
        m = {}
        for x in choices(p):
            r = s.decide(x.a[0])
            if r is not None:
                m[x] = x.a[1] if r else x.a[2]
        if not m:
            return p
        p = t.rewrite(p, m)
    return p


def equal_under(I, s, a, b):
    """a == b provable in state s"""
    if a is b:
        return True
    if isp(a) and isp(b):
        a, b = settled(s, a), settled(s, b)
        return a is b or lin.entails_eq(s.pc, t.sub(a, b))
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'E' and a.a[:2] == b.a[:2]:
        return all(equal_under(I, s, x, y) for x, y in zip(a.a[2], b.a[2]))
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'seq':
        from . import prove
        try:
            return prove.seq_equal(I, s, a, b)
        except Unsupported:
            return False
    return False


# ------------------------------------------------------------------ recurrences
def solve(I, lf, v1, k, s1):
    K = A(k)
    v0, x, phi = lf.v0, lf.x, lf.phi
    if v1 is phi:
        lf.sol = v0
        return True
    if isp(phi):
        if not isp(v1) or not isp(v0):
            return None
        r = solve_poly(v1, x, v0, k)
        if r is not None:
            lf.sol = r
            return True
        if not contains(v1, x):
            return last_value(lf, v1, k)
        return None
    if isinstance(phi, T) and phi.op == 'seq':
        if not contains(v1, x):
            return last_value(lf, v1, k)
        if not lf.fixed:
            tail = append_tail(v1, x)
            if tail is not None:
                j = t.fresh('k', 'nat')
                lf.sol = t.cat(v0, t.flat(j, K, tsubst(tail, {k: A(j)})))
                return True
            pre = prepend_head(v1, x)
            if pre is not None:
                j = t.fresh('k', 'nat')
                # reversed order: element of iteration j ends up at k-1-j
                lf.sol = t.cat(t.flat(j, K, tsubst(pre, {k: t.sub(t.sub(K, t.ONE), A(j))})), v0)
                return True
            return None
        return solve_update(I, lf, v1, k, s1)
    if isinstance(phi, T) and phi.op == 'map':
        if isinstance(v1, T) and v1.op == 'map' and v1.a[0] is phi.a[0]:
            tail = append_tail(v1.a[1], x)
            if tail is not None:
                j = t.fresh('k', 'nat')
                lf.sol = mk('map', v0.a[0], t.cat(v0.a[1], t.flat(j, K, tsubst(tail, {k: A(j)}))))
                return True
        return None
    if not contains(v1, x):
        return last_value(lf, v1, k)
    return None


def last_value(lf, v1, k):
    prev = tsubst(v1, {k: t.sub(A(k), t.ONE)})
    if prev is lf.v0:
        lf.sol = lf.v0
        return True
    # a value that at k = 0 coincides with the initial one needs no case split
    lf.sol = prev
    if tsubst(prev, {k: t.ZERO}) is not lf.v0:
        lf.late = True
    return True


def unmask(p, w):
    """p modulo 2^w with low masks of at least w bits dropped"""
    m = {}
    for a in t.atoms(p):
        if a.op == 'bits' and len(a.a[0]) == 1:
            ms, mask = a.a[0][0]
            if len(ms) == 1 and mask & (mask + 1) == 0 and mask >= (1 << w) - 1 and isinstance(ms[0], T):
                m[a] = ms[0] if isp(ms[0]) else A(ms[0])
    if not m:
        return p
    r = t.ZERO
    for mo, c in p.a[0]:
        q = C(c)
        for y in mo:
            q = t.mul(q, m.get(y, A(y)))
        r = t.add(r, q)
    return r


def solve_poly(v1, x, v0, k):
    K = A(k)
    at = t.as_atom(v1)
    if at is not None and at.op == 'wrap' and contains(at, x):
        r = solve_poly(unmask(at.a[1], at.a[0]), x, v0, k)
        return None if r is None else t.wrap(r, at.a[0])
    if at is not None and at.op == 'ite' and contains(at, x):
        c, a, b = at.a
        if contains(c, x):
            return None
        da, db = split_lin(a, x), split_lin(b, x)
        if da is None or db is None:
            return None
        lin_ = t.ite(c, da[0], db[0])
        rest = t.ite(c, da[1], db[1])
    else:
        d = split_lin(v1, x)
        if d is None:
            return None
        lin_, rest = d
    if lin_ is t.ZERO:
        return None
    j = t.fresh('k', 'nat')

    def at_(p, i):
        return tsubst(p, {k: i})
    if lin_ is t.ONE:
        if not contains(rest, k):
            return t.add(v0, t.mul(rest, K))
        return t.add(v0, t.Sum(j, K, at_(rest, A(j))))
    if not contains(lin_, k):
        p = t.fpow(lin_, K)
    else:
        p = t.Prod(j, K, at_(lin_, A(j)))
    if rest is t.ZERO:
        return t.mul(v0, p)
    if not contains(lin_, k):
        e = t.fpow(lin_, t.sub(t.sub(K, t.ONE), A(j)))
        return t.add(t.mul(v0, p), t.Sum(j, K, t.mul(at_(rest, A(j)), e)))
    return None


def split_lin(p, x):
    """p = lin * x + rest with x in neither"""
    l, r = t.ZERO, t.ZERO
    for m, c in p.a[0]:
        n = sum(1 for y in m if y is x)
        if n == 0:
            if any(contains(y, x) for y in m):
                return None
            r = t.add(r, t.poly({m: c}))
        elif n == 1:
            rest = list(m)
            rest.remove(x)
            if any(contains(y, x) for y in rest):
                return None
            l = t.add(l, t.poly({tuple(rest): c}))
        else:
            return None
    return l, r


def prepend_head(v, x):
    segs = v.a[0]
    if not segs or segs[-1].op != 'sub' or segs[-1].a[0] is not x or segs[-1].a[1] is not t.ZERO:
        return None
    if segs[-1].a[2] is not A(mk('len', x)):
        return None
    head = mk('seq', segs[:-1])
    return None if contains(head, x) else head


def solve_update(I, lf, v1, k, s1):
    """v1 = phi with the elements at i(k) .. replaced"""
    K = A(k)
    x, v0 = lf.x, lf.v0
    segs = list(v1.a[0])
    n = t.slen(v0)
    # prefix phi[0..i], middle (free of phi as a whole or using phi[i-1]), suffix phi[i+w..]
    i = t.ZERO
    if segs and segs[0].op == 'sub' and segs[0].a[0] is x and segs[0].a[1] is t.ZERO:
        i = segs[0].a[2]
        segs = segs[1:]
    mid = []
    while segs and not (segs[0].op == 'sub' and segs[0].a[0] is x):
        mid.append(segs[0])
        segs = segs[1:]
    mid = mk('seq', tuple(mid))
    w = t.slen(mid)
    if len(segs) > 1:
        return None
    if segs and (t.sub(segs[0].a[1], t.add(i, w)) is not t.ZERO):
        return None
    if contains(w, k) or contains(w, x):
        return None
    i0 = tsubst(i, {k: t.ZERO})
    if t.sub(i, i0) is not t.mul(w, K):
        return None
    j = t.fresh('k', 'nat')
    a, _ = I.cut(s1, v0, i0)
    _, b = I.cut(s1, v0, i)
    if not contains(mid, x):
        lf.sol = t.cat(a, t.flat(j, K, tsubst(mid, {k: A(j)})), b)
        return True
    # the element before: phi[i-1] is what the previous iteration wrote
    prev = I.elem_of(x, t.sub(i, t.ONE))
    if w is not t.ONE or mid.a[0][0].op != 'lit':
        return None
    e = mid.a[0][0].a[0][0]
    init = I.get(s1, v0, t.sub(i0, t.ONE))
    if isp(prev):
        acc = t.fresh('acc', 'any')
        body = tsubst(e, {t.as_atom(prev): A(acc)})
        if contains(body, x):
            return None
        it = A(t.iter_term(k, acc, t.add(A(j), t.ONE), init, body))
    elif prev.op == 'seq':
        base = prev.a[0][0].a[0]
        acc = t.fresh('acc', 'any')
        body = tsubst(e, {base: acc})
        if contains(body, x):
            return None
        it = t.whole(t.iter_term(k, acc, t.add(A(j), t.ONE), init, body))
    else:
        return None
    lf.sol = t.cat(a, t.comp(j, K, it), b)
    return True


def solve_iter(I, lf, v1, k):
    """general first order recurrence"""
    K = A(k)
    x, v0 = lf.x, lf.v0
    if isp(lf.phi) and isp(v1) and getattr(lf, 'group', None) is None:
        acc = t.fresh('acc', 'any')
        lf.sol = A(t.iter_term(k, acc, K, v0, tsubst(v1, {x: A(acc)})))
        return True
    if isinstance(lf.phi, T) and lf.phi.op == 'seq' and isinstance(v1, T) and v1.op == 'seq' and not lf.fixed:
        acc = t.fresh('acc', 'any')
        lf.sol = t.whole(t.iter_term(k, acc, K, v0, tsubst(v1, {x: acc})))
        return True
    return False


def resolve_k(I, s, k):
    """eliminates the trip count when the facts determine it"""
    lows, ups = [], []
    val = None
    for f in s.pc:
        co = dict(f[1].a[0]).get((k,), 0)
        if co not in (1, -1):
            continue
        rest = t.sub(f[1], t.scale(A(k), co))
        if contains(rest, k):
            continue
        if f[0] == 'eq':
            val = t.scale(rest, -co)
            break
        if f[0] == 'ge':
            (lows if co == 1 else ups).append(t.scale(rest, -co))
    if val is None:
        for a in lows:
            for b in ups:
                if a is b:
                    val = a
                elif val is None and lin.entails_ge(s.pc, t.sub(a, b)) and lin.entails_ge(s.pc, t.sub(b, a)):
                    val = a
            if val is not None:
                break
    if val is None:
        return s
    m = {k: val}
    r = State()
    r.tag = s.tag
    r.mem = {l: (tsubst(v, m) if v is not None else None) for l, v in s.mem.items()}
    r.exp = {a: tsubst(b, m) for a, b in s.exp.items()}
    pc = []
    for kind, p in s.pc:
        p = tsubst(p, m)
        if const(p) is not None:
            continue
        if (kind, p) not in pc:
            pc.append((kind, p))
    r.pc = tuple(pc)
    for c, v in s.bf.items():
        c2 = tsubst(c, m)
        if isinstance(c2, T):
            r.bf[c2] = v
    return r


# ------------------------------------------------------------------ internal iteration
def count_loop(I, st, n, body, name='iteration'):
    """runs body(S, index) -> [S'] for index = 0..n; returns the states after"""
    def guarded(s, idx):
        out, todo = [], [s]
        while todo:
            z = todo.pop()
            try:
                out.extend(body(z.copy(), idx))
            except Split as e:
                todo.extend(I.fork(z, e.cond))
            except Panic as e:
                I.panic(e.kind, e.msg, name, z)
        return out
    c = const(n)
    if c is not None and c <= I.unroll:
        cur = [st]
        for i in range(c):
            nxt = []
            for s in cur:
                nxt.extend(guarded(s, C(i)))
            cur = nxt
            if len(cur) > 400:
                raise Unsupported('too many paths in iteration')
        return cur

    def step(s, k):
        return guarded(s, k), []
    return [s for s, _ in summarise(I, st, step, name, count=n)]
