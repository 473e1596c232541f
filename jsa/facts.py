"""Builds the fact extractor, runs it over /repo's current working tree and loads the facts."""
import fcntl, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JESTER_REPO', '/repo')
CACHE = os.environ.get('JESTER_CACHE', os.path.join(VERIF, '.cache'))
CRATES = ['jester_maths', 'jester_hashes', 'jester_encryption', 'jester_sharing',
          'jester_double_ratchet', 'jester_signing', 'jester_sharing_proc']


class FactError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def build_driver():
    exe = os.path.join(VERIF, 'driver', 'target', 'release', 'jester_facts')
    env = dict(os.environ)
    for k in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS'):
        env.pop(k, None)
    code, out = _run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'],
                     cwd=os.path.join(VERIF, 'driver'), env=env)
    if code != 0 or not os.path.exists(exe):
        raise FactError('fact extractor does not build:\n' + out[-4000:])
    return exe


def extract():
    """Returns {crate: facts}. Always re-extracts from the current tree (about a second)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
        target = os.path.join(CACHE, 'target')
        out = os.path.join(CACHE, 'facts')
        shutil.rmtree(out, ignore_errors=True)
        # cargo must not consider the workspace crates fresh, or the wrapper would be skipped
        bdir = os.path.join(target, 'debug', 'build')
        for base in (bdir, os.path.join(target, 'debug', '.fingerprint')):
            if os.path.isdir(base):
                for n in os.listdir(base):
                    if n.startswith('jester'):
                        shutil.rmtree(os.path.join(base, n), ignore_errors=True)
        shutil.rmtree(os.path.join(target, 'debug', 'incremental'), ignore_errors=True)
        env = dict(os.environ)
        for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_INCREMENTAL'):
            env.pop(k, None)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), CARGO_TARGET_DIR=target,
                   JESTER_FACTS=out, RUSTC_WORKSPACE_WRAPPER=exe, RUSTC_ICE='0',
                   CARGO_INCREMENTAL='0')
        lock = os.path.join(REPO, 'Cargo.lock')
        made_lock = False
        if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
            shutil.copy('/opt/vp/Cargo.lock', lock)
            made_lock = True
        try:
            code, log = _run(['cargo', '+nightly', 'check', '--workspace', '--offline'], cwd=REPO, env=env)
        finally:
            if made_lock:
                os.unlink(lock)
        if code != 0:
            raise FactError('cargo check of the tree failed:\n' + log[-6000:])
        res = {}
        for c in CRATES:
            p = os.path.join(out, c + '.json')
            if not os.path.exists(p):
                raise FactError('no facts for crate ' + c)
            with open(p) as f:
                res[c] = json.load(f)
        return res


class WitnessError(Exception):
    """the witness crate does not compile although the library does"""


def witness():
    """facts of the crate of delegatable traits in witness/, expanded by the current macro"""
    import re
    base = os.path.join(CACHE, 'witness')
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree(os.path.join(VERIF, 'witness', 'src'), os.path.join(base, 'src'))
        mac = None
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [d for d in dirs if d not in ('target', '.git')]
            if 'Cargo.toml' in files:
                with open(os.path.join(root, 'Cargo.toml')) as f:
                    m = re.search(r'^name *= *"jester_sharing_proc"', f.read(), re.M)
                if m:
                    mac = root
        if mac is None:
            raise FactError('no macro crate')
        with open(os.path.join(base, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "jester_witness"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n'
                    '[dependencies]\njester_sharing_proc = { path = "%s" }\n' % mac)
        for lock in (os.path.join(REPO, 'Cargo.lock'), '/opt/vp/Cargo.lock'):
            if os.path.exists(lock):
                shutil.copy(lock, os.path.join(base, 'Cargo.lock'))
                break
        env = dict(os.environ)
        for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_INCREMENTAL'):
            env.pop(k, None)
        out = os.path.join(base, 'facts')
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), CARGO_TARGET_DIR=os.path.join(base, 'target'),
                   JESTER_FACTS=out, RUSTC_WORKSPACE_WRAPPER=exe, RUSTC_ICE='0', CARGO_INCREMENTAL='0')
        code, log = _run(['cargo', '+nightly', 'check', '--offline'], cwd=base, env=env)
        p = os.path.join(out, 'jester_witness.json')
        if code != 0 or not os.path.exists(p):
            if re.search(r'error(\[E\d+\])?:', log) and 'src/lib.rs' in log and 'could not compile `jester_witness`' in log:
                raise WitnessError(log[-3000:])
            raise FactError('the witness crate was not analysed:\n' + log[-2000:])
        with open(p) as f:
            r = {'jester_witness': json.load(f)}
        shutil.rmtree(os.path.join(base, 'target'), ignore_errors=True)
        return r


def prelude():
    """facts of prelude/lib.rs: functions of the standard library, written as loops"""
    src = os.path.join(VERIF, 'prelude', 'lib.rs')
    base = os.path.join(CACHE, 'prelude')
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        p = os.path.join(base, 'jsa_prelude.json')
        if not os.path.exists(p) or os.path.getmtime(p) < max(os.path.getmtime(src), os.path.getmtime(exe)):
            sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base)
            env = dict(os.environ)
            for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_INCREMENTAL'):
                env.pop(k, None)
            env.update(LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), JESTER_FACTS=base, RUSTC_ICE='0')
            code, log = _run([exe, 'rustc', '--crate-name', 'jsa_prelude', '--crate-type', 'lib', '--edition', '2021',
                              '--emit=metadata', '--sysroot', sysroot, '-o', os.path.join(base, 'jsa_prelude.rmeta'), src],
                             cwd=base, env=env)
            if code != 0 or not os.path.exists(p):
                raise FactError('the prelude was not analysed:\n' + log[-2000:])
        with open(p) as f:
            return json.load(f)


class Crate:
    def __init__(self, d):
        self.d = d
        self.name = d['crate']
        self.types = d['types']
        self.bodies = {b['key']: b for b in d['bodies']}
        self.items = {i['key']: i for i in d['items']}
        for b in d['bodies']:
            b['crate'] = self.name


class Program:
    """All crates, with bodies addressed by their definition key."""
    def __init__(self, data=None):
        data = data or extract()
        self.crates = {n: Crate(d) for n, d in data.items()}
        self.bodies = {}
        self.items = {}
        self.adts = {}
        self.impls = []
        self.prelude = None
        for c in self.crates.values():
            self.bodies.update(c.bodies)
            self.items.update(c.items)
            for a in c.d['adts']:
                # the defining crate knows the field types
                if a['key'] not in self.adts or a['key'].split('::')[0] == c.name:
                    a['crate'] = c.name
                    self.adts[a['key']] = a
            for i in c.d['impls']:
                i['crate'] = c.name
                self.impls.append(i)

    def helper(self, key):
        """body of a function of the prelude"""
        if self.prelude is None:
            self.prelude = Crate(prelude())
            self.crates[self.prelude.name] = self.prelude
        return self.prelude.bodies[key]

    def ty(self, crate, ix):
        return self.crates[crate].types[ix]

    def calls(self, body):
        """yields (block, terminator, callee) for every call of a function item, and function items that
        are mentioned as values."""
        for bi, bb in enumerate(body['blocks']):
            t = bb['t']
            if t[0] == 'call' and t[1][0] == 'c' and 'fn' in t[1][1]:
                yield bi, t, t[1][1]['fn']

    def fn_values(self, body):
        """every function item mentioned anywhere, called or not"""
        def walk(x):
            if isinstance(x, list):
                for y in x:
                    yield from walk(y)
            elif isinstance(x, dict):
                if 'fn' in x and isinstance(x['fn'], dict):
                    yield x['fn']
                else:
                    for y in x.values():
                        yield from walk(y)
        for bb in body['blocks']:
            yield from walk(bb['s'])
            yield from walk(bb['t'])
