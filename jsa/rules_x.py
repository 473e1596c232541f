"""Rules over the resolved call graph and the types: X01 randomness, X02 unsafe code, X03 stubs, X04 side channels."""
import re

LIBS = ['jester_maths', 'jester_hashes', 'jester_encryption', 'jester_sharing',
        'jester_double_ratchet', 'jester_signing']


def lib_bodies(prog):
    for n in LIBS:
        for b in prog.crates[n].bodies.values():
            yield b


def callee_paths(f):
    ps = [f['path']]
    if 'rpath' in f:
        ps.append(f['rpath'])
    return ps


def where(prog, b, span):
    return '%s in %s' % (span, b['path'])


def short(b):
    return re.sub(r'\{(\w+)#\d+\}', r'{\1}', b['key'])


def spanof(t):
    return t[-1] if isinstance(t[-1], str) else ''


def crate_of_path(f):
    return f.get('rkey', f['key']).split('::')[0].split('{')[0]


# ---------------------------------------------------------------------------------------------- X01
ENTROPY = [
    r'^rand::(thread_rng|random)', r'^rand::rngs', r'^rand::prng', r'ThreadRng', r'\bOsRng', r'StdRng', r'SmallRng',
    r'EntropyRng', r'JitterRng', r'ReseedingRng', r'ReadRng', r'StepRng', r'SeedableRng', r'^getrandom',
    r'^rand_chacha', r'^rand_hc', r'^rand_pcg', r'^rand_xorshift', r'^rand_isaac', r'^rand_os', r'^rand_jitter',
    r'(^|<)std::time::', r'^std::env::', r'RandomState', r'DefaultHasher', r'SipHasher', r'^std::process::id',
    r'^std::thread::', r'ThreadId', r'^std::fs::', r'^fastrand', r'_rdrand|_rdseed|_rdtsc',
]
# HashMap::new / default build a RandomState that only orders buckets; iterating over a map or set exposes it.
MAP_ITER = re.compile(r'std::collections::(hash_map::|hash_set::)?Hash(Map|Set)(::)?<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values)\b')
MAP_INTO = re.compile(r'^(&mut |&)?std::collections::(hash_map::|hash_set::)?Hash(Map|Set)<')
# consumers that give the same answer in every order, adapters that keep the order, and the rest
ANY_ORDER = {'any', 'all', 'count', 'min', 'max', 'sum', 'product', 'size_hint', 'len', 'is_empty'}
ADAPTERS = {'map', 'filter', 'filter_map', 'cloned', 'copied', 'into_iter', 'by_ref', 'flat_map', 'flatten', 'inspect', 'chain', 'iter', 'fuse'}
PICKS = {'next', 'find', 'find_map', 'position', 'nth', 'last', 'take', 'skip', 'enumerate', 'zip', 'step_by', 'peekable'}
RNG_TRAITS = {'rand_core::RngCore', 'rand::RngCore', 'rand::Rng', 'num_bigint::RandBigInt', 'rand_core::CryptoRng',
              'num_bigint::bigrand::RandBigInt'}


def is_rng_trait(p):
    return p in RNG_TRAITS or p.split('::')[-1] in ('RngCore', 'Rng', 'RandBigInt') and p.split('::')[0] in (
        'rand', 'rand_core', 'num_bigint', 'num')


def bounds_of(prog, b):
    """names of type parameters bounded by CryptoRng / RngCore in the item enclosing a body"""
    key = b['key']
    item = None
    while key:
        item = prog.items.get(key)
        if item and 'preds' in item:
            break
        item = None
        bb = prog.bodies.get(key)
        nk = bb['parent'] if bb else None
        if not nk or nk == key:
            break
        key = nk
    crypto, rng = set(), set()
    if item:
        for p in item['preds']:
            m = re.search(r'<(\w+) as ([\w:]+)', p)
            if m:
                if m.group(2).endswith('CryptoRng'):
                    crypto.add(m.group(1))
                if m.group(2).endswith('RngCore') or m.group(2).endswith('RandBigInt') or m.group(2).endswith('::Rng'):
                    rng.add(m.group(1))
    return crypto, rng, item


def private_fn(prog, key):
    it = prog.items.get(key)
    return it is not None and 'inputs' in it and not it.get('pub') and 'of_trait' not in it and \
        not any(im['key'] == it.get('impl') and im.get('trait') for im in prog.impls)


def only_crypto(prog, key, name, seen=()):
    """every use of a private function instantiates its type parameter with a generator required to be cryptographic"""
    if (key, name) in seen:
        return True
    if not private_fn(prog, key) or key not in prog.bodies or name not in prog.bodies[key]['generics']:
        return False
    i = prog.bodies[key]['generics'].index(name)
    for b in lib_bodies(prog):
        types = prog.crates[b['crate']].types
        for f in prog.fn_values(b):
            if f.get('rkey', f['key']) != key and f['key'] != key:
                continue
            if i >= len(f['args']) or 't' not in f['args'][i]:
                return False
            ty = types[f['args'][i]['t']]
            while ty['k'] == 'ref':
                ty = types[ty['e']]
            if ty['k'] != 'param':
                return False
            crypto, rng, item = bounds_of(prog, b)
            if ty['name'] in crypto:
                continue
            if item is None or not only_crypto(prog, item_key(prog, b), ty['name'], seen + ((key, name),)):
                return False
    return True


def item_key(prog, b):
    key = b['key']
    while key and not ('preds' in (prog.items.get(key) or {})):
        bb = prog.bodies.get(key)
        key = bb['parent'] if bb and bb['parent'] != key else None
    return key


def map_orders(prog, b):
    """[(what is done with it, the call, order-free: True/False/None)] for every traversal of a hash map in a body"""
    types = prog.crates[b['crate']].types
    calls = []
    for i, bb in enumerate(b['blocks']):
        tm = bb['t']
        if tm[0] == 'call' and not bb['c'] and tm[1][0] == 'c' and 'fn' in tm[1][1]:
            calls.append((i, tm[1][1]['fn'], tm[2], tm[3], tm[4]))
    taint, made = {}, set()

    def local(o):
        return o[1][0] if o[0] in ('cp', 'mv') else None
    for i, f, args, dest, to in calls:
        p = next((p for p in callee_paths(f) if MAP_ITER.search(p)), None)
        if p is None and f['path'].split('::')[-1] == 'into_iter' and args and local(args[0]) is not None and \
                MAP_INTO.match(types[b['locals'][local(args[0])]]['s']):
            p = 'into_iter of ' + types[b['locals'][local(args[0])]]['s'][:40]
        if p is not None:
            taint[dest[0]] = p
            made.add(i)
    if not taint:
        return []
    out, done = [], set()
    for _ in range(len(b['blocks'])):
        n = len(taint)
        for bb in b['blocks']:
            for st in bb['s']:
                if st[0] != '=':
                    continue
                r = st[2]
                src = local(r[1]) if r[0] == 'use' else local(r[2]) if r[0] == 'cast' else r[1][0] if r[0] == 'ref' else None
                if src in taint and st[1][0] not in taint and not st[1][1]:
                    taint[st[1][0]] = taint[src]
        for i, f, args, dest, to in calls:
            src = next((local(a) for a in args if local(a) in taint), None)
            if src is None or i in done:
                continue
            m = f['path'].split('::')[-1]
            p = taint[src]
            if m == 'into_iter' and any(local(a) in taint for a in args) and i in made or any(MAP_ITER.search(q) for q in callee_paths(f)):
                continue
            done.add(i)
            if m in ADAPTERS:
                taint[dest[0]] = p
            elif m in ANY_ORDER:
                out.append((m, p, True))
            elif m in ('collect', 'from_iter', 'extend'):
                ty = types[b['locals'][dest[0]]]['s'] if m != 'extend' else types[b['locals'][local(args[0])]]['s'] if local(args[0]) is not None else ''
                out.append((m, p, True if re.search(r'Hash(Map|Set)|BTree(Map|Set)|BinaryHeap', ty) else
                            True if any(q[1]['path'].split('::')[-1].startswith('sort') for q in calls) else None))
            elif m in PICKS and not (m == 'next' and in_cycle(b, i, made)):
                out.append((m, p, False))
            elif m in ('drop', 'drop_in_place', 'deref', 'clone', 'fmt'):
                pass
            else:
                out.append((m, p, None))
        if len(taint) == n:
            break
    return out


def successors(tm):
    k = tm[0]
    if k == 'goto':
        return [tm[1]]
    if k == 'sw':
        return [x[1] for x in tm[2]] + [tm[3]]
    if k in ('call', 'assert'):
        return [tm[4]] if tm[4] is not None else []
    if k in ('drop', 'yield'):
        return [tm[2]]
    return []


def in_cycle(b, i, made):
    """block i can be reached from itself without passing one of the blocks made"""
    seen, todo = set(made), list(successors(b['blocks'][i]['t']))
    while todo:
        j = todo.pop()
        if j == i:
            return True
        if j in seen:
            continue
        seen.add(j)
        todo += successors(b['blocks'][j]['t'])
    return False


def check_X01(prog, rep):
    rep.rule = ('Every call in every library body is resolved; none may reach a foreign source of entropy, time, seed or '
                'environment, every draw is a random-trait call whose receiver is a type parameter of the enclosing item '
                'that is bounded by CryptoRng, no library type implements a generator, and every item taking a generator '
                'requires CryptoRng.')
    nb = nc = draws = 0
    for b in lib_bodies(prog):
        nb += 1
        types = prog.crates[b['crate']].types
        for f in prog.fn_values(b):
            nc += 1
            for p in callee_paths(f):
                hit = next((r for r in ENTROPY if re.search(r, p)), None)
                if hit:
                    rep.violation('source:%s:%s' % (short(b), p), '%s calls %s, a source of randomness or environment '
                                  'that is not the generator of the caller' % (b['path'], p))
            tr = f.get('trait', '')
            if is_rng_trait(tr):
                draws += 1
                st = types[f['args'][0]['t']] if f['args'] and 't' in f['args'][0] else None
                while st and st['k'] == 'ref':
                    st = types[st['e']]
                crypto, rng, item = bounds_of(prog, b)
                good = st is not None and st['k'] == 'param' and (st['name'] in crypto or only_crypto(prog, item_key(prog, b), st['name']))
                rep.check(good, 'draw:%s:%s' % (short(b), f['path']),
                          '%s draws randomness with %s from %s, which is not a caller-supplied generator bounded by CryptoRng'
                          % (b['path'], f['path'], st['s'] if st else '?'), '%s draws by %s' % (b['path'], f['name']))
        # locals of a generator type
        for ti in b['locals']:
            s = types[ti]['s']
            if re.search(r'\brand(_\w+)?::(rngs|prng)|ThreadRng|StdRng|OsRng|SmallRng|RandomState\b', s) and not \
                    re.search(r'HashMap|HashSet', s):
                rep.violation('local:%s:%s' % (short(b), s[:60]), '%s holds a value of type %s' % (b['path'], s))
        for use, p, verdict in map_orders(prog, b):
            text = '%s does not depend on the randomised order of a hash map (%s)' % (b['path'], p)
            if verdict is True:
                rep.ok(text)
            elif verdict is None:
                rep.unknown(text, use)
            else:
                rep.violation('order:%s:%s' % (short(b), p), '%s depends on the randomised order of a hash map: %s of %s' % (b['path'], use, p))
    ni = 0
    for name in LIBS:
        for key, it in prog.crates[name].items.items():
            if 'preds' not in it:
                continue
            crypto, rng = set(), set()
            for p in it['preds']:
                m = re.search(r'<(\w+) as ([\w:]+)', p)
                if m:
                    last = m.group(2).split('::')[-1]
                    if last == 'CryptoRng':
                        crypto.add(m.group(1))
                    if last in ('RngCore', 'Rng', 'RandBigInt') and m.group(1) != 'Self':
                        rng.add(m.group(1))
            for r in sorted(rng):
                ni += 1
                rep.check(r in crypto or only_crypto(prog, key, r), 'bound:%s:%s' % (it['path'], r),
                          '%s takes a generator %s that is not required to be cryptographic' % (it['path'], r),
                          '%s requires %s: CryptoRng' % (it['path'], r))
    for im in prog.impls:
        if im['crate'] in LIBS and im.get('trait', '').split('::')[-1] in ('RngCore', 'CryptoRng', 'SeedableRng', 'BlockRngCore'):
            rep.violation('generator:%s' % im['key'], 'the library implements a random generator of its own: %s' % im['key'])
    # every item that takes a generator uses it
    secrets_drawn(prog, rep)
    rep.facts.update(bodies=nb, callees_mentioned=nc, draws=draws, items_taking_a_generator=ni)
    if draws < 1 or ni < 10:
        rep.violation('floor', 'only %d draws and %d generator parameters were found; at least 1 and 10 are expected' % (draws, ni))


check_X01.technique = 'call-graph and type-bound query over resolved MIR, dataflow from draws to secrets'


def secrets_drawn(prog, rep):
    """every secret the library makes up depends on draws from the caller's generator, one per secret"""
    from . import rules_h as h, rules_m as m, rules_s as s, terms as t
    rand = lambda v: s.deep_atoms(v, lambda a: a.op == 'rand')

    def need(v, n, what, where):
        if len(rand(v)) >= n:
            rep.ok('%s: drawn from the generator of the caller' % what)
        elif h.unknowns(v) or isinstance(v, t.T) and s.deep_atoms(v, lambda a: a.op in ('bind', 'Sum', 'app', 'unk')):
            rep.unknown(what + ': drawn from the generator of the caller', h.brief(v))
        else:
            rep.violation('entropy:' + what, '%s depends on %d draws from the generator of the caller instead of %d: %s (%s)'
                          % (what, len(rand(v)), n, h.brief(v), where))

    for F in m.fields(prog, rep):
        def member():
            k, env = F.method(m.PF, 'generate_random_member')
            st = s.State()
            r = m.rng(F.I, st)
            F.I.panics, F.I.proved = [], []
            for z, v in F.I.run(k, [r], st, dict(env, R=('param', 'R'))):
                need(F.number(z, v), 1, 'a random member of ' + F.name, k)
        h.guard(rep, F.name + ': random member', member)

        def pair():
            ks = [it[1] for im in prog.impls if im['crate'] == 'jester_encryption' and
                  (im.get('trait') or '').split('::')[-1].startswith('DiffieHellmanKeyExchangeScheme')
                  for it in im['items'] if it[0] == 'generate_asymmetrical_key_pair']
            for k in ks:
                e = {'Self': F.ty}
                for g in prog.bodies[k]['generics']:
                    e[g] = ('param', 'R') if g == 'R' or g.startswith('impl') else F.ty
                st = s.State()
                g = F.member(st, 'generator')
                for z, v in F.I.run(k, [m.rng(F.I, st), F.wrap(g)], st, e):
                    need(F.number(z, F.I.mget(z, v).a[2][0]), 1, 'a private key over ' + F.name, k)
        if F.name == 'Mersenne61':
            h.guard(rep, F.name + ': private key', pair)

    for k in s.anchors(prog, 'ThresholdSecretSharingScheme', 'generate_shares'):
        for thr in (2, 3, 4):
            def shares():
                g = s.Sharing(prog)
                st = s.State()
                count = s.A(t.sym('count', 'usize'))
                s.small(st, count)
                st.assume(t.ge0(t.sub(s.A(s.PRIME), t.add(count, t.ONE))), True)
                st.assume(t.ge0(t.sub(count, t.ONE)), True)
                for z, v in g.call(k, [g.rng(st), s.A(t.sym('secret', 'any')), count, s.C(thr)], st):
                    e = g.I.open(z, g.I.mget(z, g.I.get(z, g.I.expand(z, g.I.mget(z, v)), t.ZERO)))
                    need(e.a[2][1], thr - 1, 'a share for threshold %d' % thr, k)
            h.guard(rep, 'share for threshold %d' % thr, shares)
    for k in s.anchors(prog, 'RandomNumberGenerationScheme', 'generate_random_number_sharing'):
        def contribution():
            p = s.Play(prog, k, 'generate_random_number_sharing')
            for z, v, q in p.ends:
                for e in s.elements(p.I, z, q[s.DISTRIBUTED]):
                    need(p.I.fe(z, e), 1, 'a contribution to a joint random number', k)
        h.guard(rep, 'contribution', contribution)


# ---------------------------------------------------------------------------------------------- X02
def place_raw_derefs(prog, b, types):
    """number of raw-pointer dereferences in a body"""
    n = 0

    def place(p):
        nonlocal n
        ti = b['locals'][p[0]]
        t = types[ti]
        for e in p[1]:
            if e == '*':
                if t is not None and t['k'] == 'ptr':
                    n += 1
                if t is not None and t['k'] in ('ptr', 'ref'):
                    t = types[t['e']]
                else:
                    t = None
            elif e[0] == 'f':
                t = types[e[2]]
            elif e[0] in ('i', 'ci'):
                t = types[t['e']] if t is not None and t['k'] in ('array', 'slice') else None
            elif e[0] == 'd':
                pass
            else:
                t = None

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(
                    e == '*' or (isinstance(e, list) and e and e[0] in ('f', 'i', 'ci', 'ss', 'd', '?')) for e in x[1]):
                place(x)
            else:
                for y in x:
                    walk(y)
    for bb in b['blocks']:
        for s in bb['s']:
            if s[0] == '=':
                walk(s[1])
                walk(s[2])
        walk(bb['t'][1:])
    return n


def unsafe_ops(prog, b):
    """(primitive unsafe operations, unsafe calls of local functions) of a body"""
    types = prog.crates[b['crate']].types
    prim, calls = [], []
    n = place_raw_derefs(prog, b, types)
    if n:
        prim.append('%d raw pointer dereferences' % n)
    for f in prog.fn_values(b):
        if f.get('unsafe'):
            k = f.get('rkey', f['key'])
            if k.split('::')[0] in LIBS:
                calls.append(k)
            elif f['path'].startswith('std::pin::Pin') and 'new_unchecked' in f['path'] or \
                    f['path'].endswith('::get_context') or re.search(r'Pin::<.*>::(new_unchecked|get_unchecked_mut|map_unchecked)', f['path']):
                # expansions of .await and join!
                continue
            else:
                prim.append('call of unsafe ' + f['path'])
    for bb in b['blocks']:
        for s in bb['s']:
            if s[0] == '=' and s[2][0] == 'cast' and 'Transmute' in s[2][1]:
                prim.append('transmute')
            if s[0] == '=' and s[2][0] in ('tls',):
                prim.append('thread local access')
    return prim, calls


BYTE_TY = re.compile(r'^(&(mut )?)?(\[(u8|u32|u64)(; [^\]]+)?\]|u8|u32|u64|usize|std::vec::Vec<(u8|u32|u64)>|\(\)|\((u32|u64|u8|usize)(, (u32|u64|u8|usize))*\))$')


def converter(tys):
    """a signature over byte and word sequences only, with both among them"""
    return all(BYTE_TY.match(x) for x in tys) and any(re.search(r'\bu8\b', x) for x in tys) and \
        any(re.search(r'\bu(32|64)\b', x) for x in tys)


FILLS = ('as_mut_ptr', 'spare_capacity_mut', 'write', 'copy_nonoverlapping', 'copy', 'copy_to', 'copy_from', 'as_mut_ptr_range',
         'copy_to_nonoverlapping', 'copy_from_nonoverlapping', 'write_bytes', 'read', 'get_unchecked_mut')


def uninitialised(prog, b):
    """the operation that declares memory initialised (set_len, assume_init) in a body that writes none of it through a
    raw pointer or the spare capacity"""
    names = {f['path'].split('::')[-1].split('<')[0] for f in prog.fn_values(b)}
    for n in ('set_len', 'assume_init', 'uninitialized'):
        if n in names and not any(f in names for f in FILLS):
            return n
    return None


def root_of(prog, b):
    while b['kind'] == 'Closure':
        b = prog.bodies[b['parent']]
    return b


def parts_of_helpers(prog):
    """functions of the hash crate, not exported, that only helpers converting between bytes and words (or parts of them) call"""
    def helper(k):
        it = prog.items.get(k)
        b = prog.bodies.get(k)
        if it is None or b is None or b['crate'] != 'jester_hashes' or 'inputs' not in it:
            return False
        types = prog.crates[b['crate']].types
        return it.get('name') == 'raw' and 'impl' in it or converter([types[t]['s'] for t in it['inputs'] + [it['output']]])
    callers = {}
    for b in lib_bodies(prog):
        r = root_of(prog, b)['key']
        for f in prog.fn_values(b):
            k = f.get('rkey', f['key'])
            if k != r:
                callers.setdefault(k, set()).add(r)
    ok = {k for k in callers if k in prog.bodies and prog.bodies[k]['crate'] == 'jester_hashes'
          and not (prog.items.get(k) or {}).get('pub') and 'of_trait' not in (prog.items.get(k) or {})}
    changed = True
    while changed:
        changed = False
        for k in sorted(ok):
            if not all(c in ok or helper(c) for c in callers[k]):
                ok.discard(k)
                changed = True
    return ok


def check_X02(prog, rep):
    rep.rule = ('Every body is scanned for raw-pointer dereferences, transmutes, accesses of static mut and calls of unsafe '
                'functions. Primitive unsafe operations may only occur in functions of the hash crate that convert between '
                'bytes and words (all parameters and results are byte or word sequences) or in HashValue::raw; every call '
                'of such an unsafe helper passes a source array at least as long as its destination needs; no public '
                'function is unsafe and no crate exports an unsafe helper; no body declares memory initialised that '
                'nothing in it writes.')
    nb = 0
    users = []
    helper_calls = 0
    inner = parts_of_helpers(prog)
    for b in lib_bodies(prog):
        nb += 1
        prim, calls = unsafe_ops(prog, b)
        it = prog.items.get(b['key'])
        types = prog.crates[b['crate']].types
        if prim:
            users.append(b['path'])
            ok = b['crate'] == 'jester_hashes'
            root = b
            while root['kind'] == 'Closure':
                root = prog.bodies[root['parent']]
            rit = prog.items.get(root['key'])
            is_raw = rit is not None and rit.get('name') == 'raw' and 'impl' in rit
            sig_ok = rit is not None and 'inputs' in rit and converter([types[t]['s'] for t in rit['inputs'] + [rit['output']]])
            rep.check(ok and (is_raw or sig_ok or root['key'] in inner), 'unsafe:%s' % short(b),
                      '%s performs unsafe operations (%s) but is no byte-order helper of the hash crate' % (b['path'], '; '.join(prim[:4])),
                      '%s: %s' % (b['path'], '; '.join(prim[:4])))
        uninit = uninitialised(prog, b)
        if uninit:
            rep.violation('uninit:%s' % short(b), '%s declares memory initialised (%s) that nothing in it writes' % (b['path'], uninit))
        for c in calls:
            helper_calls += 1
            rep.check(b['crate'] == 'jester_hashes' and c.split('::')[0] == 'jester_hashes', 'call:%s:%s' % (short(b), c),
                      '%s calls the unsafe function %s from another crate' % (b['path'], c), '%s calls %s' % (b['path'], c))
        if it is not None and it.get('unsafe'):
            rep.check(not it.get('pub'), 'pub:%s' % b['path'], 'the unsafe function %s is reachable from outside its crate' % b['path'],
                      '%s is not exported' % b['path'])
    for n in LIBS:
        for it in prog.crates[n].items.values():
            if it['kind'] == 'Static' and it.get('mut'):
                rep.violation('static:%s' % it['path'], 'static mut %s' % it['path'])
    for im in prog.impls:
        if im['crate'] in LIBS and im.get('trait', '').split('::')[-1] in ('Send', 'Sync', 'UnwindSafe') and im.get('trait', '').startswith(('std::marker', 'core::marker')):
            rep.violation('auto:%s' % im['key'], 'unsafe auto trait implementation %s for %s' % (im['trait'], im['key']))
    rep.facts.update(bodies=nb, functions_with_unsafe_operations=users, unsafe_helper_calls=helper_calls)
    from . import rules_h
    if hasattr(rules_h, 'helper_bounds'):
        rules_h.helper_bounds(prog, rep)


check_X02.technique = 'unsafe-operation effect analysis over MIR'


# ---------------------------------------------------------------------------------------------- X03
def const_switch(b, blk):
    """the only successor of a switch over a constant (possibly through one local assignment), or None"""
    t = blk['t']
    op = t[1]
    val = None
    if op[0] == 'c' and 'bits' in op[1]:
        val = int(op[1]['bits'])
    elif op[0] in ('cp', 'mv') and not op[1][1]:
        l = op[1][0]
        asg = [s for bb in b['blocks'] for s in bb['s'] if s[0] == '=' and s[1][0] == l]
        calls = [bb for bb in b['blocks'] if bb['t'][0] == 'call' and bb['t'][3][0] == l]
        if len(asg) == 1 and not calls:
            r = asg[0][2]
            if r[0] == 'use' and r[1][0] == 'c' and 'bits' in r[1][1]:
                val = int(r[1][1]['bits'])
            if r[0] == 'un' and r[1] == 'Not' and r[2][0] == 'c' and 'bits' in r[2][1]:
                val = 1 - int(r[2][1]['bits'])
    if val is None:
        return None
    for v, bb in t[2]:
        if int(v) == val:
            return bb
    return t[3]


def check_X03(prog, rep):
    rep.rule = ('For every library body: its return is reachable in the control-flow graph when calls that cannot return '
                '(type !, or local functions without a reachable return), and branches on constants, are cut. A function '
                'that builds a future, closure or coroutine counts as a stub if the coroutine it hands out cannot return. '
                'Every public or trait-implementing function must be able to return; public traits\' provided methods too.')
    bodies = {b['key']: b for b in lib_bodies(prog)}
    canret = {k: True for k in bodies}

    def reach(b):
        seen, todo = set(), [0]
        parts = []
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            bb = b['blocks'][i]
            if bb['c']:
                continue
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'coroutine':
                    parts.append(s[2][1][1])
            t = bb['t']
            k = t[0]
            if k == 'ret':
                if all(canret.get(p, True) for p in parts):
                    return True
            elif k == 'goto':
                todo.append(t[1])
            elif k == 'sw':
                c = const_switch(b, bb)
                if c is not None:
                    todo.append(c)
                else:
                    todo += [x[1] for x in t[2]] + [t[3]]
            elif k == 'call':
                if t[4] is not None:
                    f = t[1][1].get('fn') if t[1][0] == 'c' else None
                    if f is None or canret.get(f.get('rkey', f['key']), True):
                        todo.append(t[4])
            elif k in ('drop',):
                todo.append(t[2])
            elif k == 'assert':
                todo.append(t[4])
            elif k == 'yield':
                todo.append(t[2])
        return False

    changed = True
    while changed:
        changed = False
        for k, b in bodies.items():
            if canret[k] and not reach(b):
                canret[k] = False
                changed = True
    npub = 0
    for k, b in bodies.items():
        it = prog.items.get(k)
        if it is None or 'inputs' not in it:
            continue
        types = prog.crates[b['crate']].types
        if types[it['output']]['k'] == 'never':
            continue
        exported = it.get('pub') or 'impl' in it or 'of_trait' in it
        if not exported:
            continue
        npub += 1
        rep.check(canret[k], 'stub:%s' % b['path'], '%s (%s) cannot return on any input' % (b['path'], b['span']),
                  '%s can return' % b['path'])
    rep.facts.update(bodies=len(bodies), public_or_trait_functions=npub)
    if npub < 200:
        rep.violation('floor', 'only %d public operations found' % npub)


check_X03.technique = 'reachability of returns over MIR control flow and the call graph'


# ---------------------------------------------------------------------------------------------- X04
FORBIDDEN_IO = [r'^std::io::(_e?print|stdout|stderr|stdin|copy|read_to_string)', r'std::io::Std(in|out|err)', r'^std::fs\b', r'\bstd::fs::',
                r'\bstd::net::', r'\bstd::process::', r'\bstd::env::', r'^std::os::', r'\bstd::thread::', r'^log::', r'^tracing',
                r'\bstd::sync::mpsc', r'^libc::', r'^syslog', r'^core::arch', r'^std::arch', r'^std::panic::set_hook', r'^std::panicking::set_hook',
                r'^futures::channel', r'^futures_channel', r'^std::intrinsics::breakpoint', r'^std::alloc::set']
INTERIOR = re.compile(r'\b(Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyLock|Lazy|Once|Atomic\w*|LocalKey|ThreadLocal)\b')
PLAIN_FMT = re.compile(r'^(&)*(usize|isize|u8|u16|u32|u64|u128|i8|i16|i32|i64|i128|bool|char|str|std::string::String)$')


def in_fmt_impl(prog, b):
    while b is not None and b['kind'] == 'Closure':
        b = prog.bodies.get(b['parent'])
    it = prog.items.get(b['key']) if b else None
    if it and 'impl' in it:
        for im in prog.impls:
            if im['key'] == it['impl'] and im.get('trait', '').split('::')[-1] in (
                    'Debug', 'Display', 'LowerHex', 'UpperHex', 'Binary', 'Octal', 'Error', 'ToString'):
                return True
    return False


def check_X04(prog, rep):
    rep.rule = ('No body of a library crate mentions a function of the printing, file, environment, process, thread, network '
                'or logging interfaces; values formatted into messages (panics) are plain integers, booleans and texts, '
                'never fields, keys or shares; no static is mutable, and no static has interior mutability except immutable '
                'lazily built field primes and the mutex-protected matrix cache of the sharing crate.')
    nb = nc = nf = 0
    for b in lib_bodies(prog):
        nb += 1
        fmt_impl = in_fmt_impl(prog, b)
        types = prog.crates[b['crate']].types
        for f in prog.fn_values(b):
            nc += 1
            for p in callee_paths(f):
                hit = next((r for r in FORBIDDEN_IO if re.search(r, p)), None)
                if hit:
                    rep.violation('io:%s:%s' % (short(b), p), '%s calls %s' % (b['path'], p))
            p = f['path']
            if not fmt_impl and (re.search(r'fmt::rt::Argument', p) or re.search(r'assert_failed|assert_matches_failed', p)
                                 or p.split('::')[-1] in ('unwrap', 'expect', 'unwrap_err', 'expect_err') and 'Result' in p):
                nf += 1
                args = [types[a['t']] for a in f['args'] if 't' in a]
                if 'Result' in p:
                    # unwrap of a Result formats the error (unwrap_err the value)
                    args = args[:1] if 'unwrap_err' in p or 'expect_err' in p else args[1:2]
                    bad = [t['s'] for t in args if t['k'] == 'param' or re.search(r'jester|BigUint|Vec<u8>|\[u8', t['s'])]
                    bad = [s for s in bad if not re.search(r'Error', s)]
                else:
                    bad = [t['s'] for t in args if not PLAIN_FMT.match(t['s'].replace('&', '')) and t['k'] != 'fnptr']
                rep.check(not bad, 'format:%s:%s' % (short(b), ','.join(bad)[:80]),
                          '%s formats a value of type %s into a message' % (b['path'], ', '.join(bad)),
                          '%s formats only plain values (%s)' % (b['path'], p.split('::')[-1]))
            if not fmt_impl and p.split('::')[-1] == 'to_string' and f.get('trait', '').endswith('ToString'):
                t = types[f['args'][0]['t']]
                if not PLAIN_FMT.match(t['s'].replace('&', '')):
                    rep.notes.append('%s converts %s to text' % (b['path'], t['s']))
    ns = 0
    for n in LIBS:
        types = prog.crates[n].types
        for it in prog.crates[n].items.values():
            if it['kind'] != 'Static':
                continue
            ns += 1
            t = types[it['ty']]
            s = t['s']
            if it.get('mut'):
                rep.violation('static:%s' % it['path'], 'static mut %s' % it['path'])
                continue
            inner = s
            ok = True
            if INTERIOR.search(s):
                # lazily initialised values: look inside
                m = re.match(r'^(once_cell::sync::Lazy|lazy_static::lazy::Lazy|std::sync::LazyLock|std::lazy::SyncLazy|std::sync::OnceLock)<(.*)>$', s)
                inner = m.group(2) if m else s
                if m and ', ' in inner:
                    inner = inner.split(', fn()')[0]
                if INTERIOR.search(inner):
                    ok = n == 'jester_sharing' and re.match(
                        r'^(futures(_util)?::lock::Mutex|futures::lock::mutex::Mutex|std::sync::(Mutex|RwLock))<typemap::|^(futures(_util)?::lock::Mutex|std::sync::(Mutex|RwLock))<std::collections::HashMap<', inner) is not None
            rep.check(ok, 'static:%s' % it['path'], 'static %s of type %s is process-wide mutable state' % (it['path'], s),
                      'static %s: %s' % (it['path'], s[:80]))
    rep.facts.update(bodies=nb, callees_mentioned=nc, formatting_sites=nf, statics=ns)
    if nb < 300 or ns < 16:
        rep.violation('floor', 'only %d bodies and %d statics found' % (nb, ns))


check_X04.technique = 'effect query over the resolved call graph, statics and formatted types'
