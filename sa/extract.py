"""Builds the MIR extractor and runs it over /repo's current working tree.

The facts (type-checked program, MIR level) are cached under /verif/.cache keyed
by the content of every source file of /repo and of the extractor, so a stale
tree is never analysed.  Everything is rebuilt from scratch when the cache is
missing.
"""
import fcntl, hashlib, json, os, pickle, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
NIGHTLY = 'nightly'


class ToolError(Exception):
    pass


def _files(root, exts, skip=('target', '.git')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def _hash(paths, base):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, base).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:' + e.get('PATH', '')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR',
              'RUSTC', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0', RUSTC_ICE='0')
    return e


def _run(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        ls = [l[:400] for l in r.stdout.splitlines()]
        imp = [i for i, l in enumerate(ls) if l.startswith('error') or 'panicked' in l]
        keep = ls[max(0, imp[0] - 2):imp[0] + 30] if imp else ls[-30:]
        raise ToolError('%s failed (exit %d):\n%s' % (what, r.returncode, '\n'.join(keep)))
    return r.stdout


def build_driver(env):
    drv = os.path.join(VERIF, 'driver')
    tgt = os.path.join(CACHE, 'driver-target')
    e = dict(env, CARGO_TARGET_DIR=tgt)
    _run(['cargo', 'build', '--offline', '-q'], drv, e, 'building the MIR extractor')
    return os.path.join(tgt, 'debug', 'mirfacts')


def _restore_deps(tgt, env):
    """Optional pre-built third-party dependencies; cargo rebuilds what does not match."""
    if os.path.isdir(os.path.join(tgt, 'debug')):
        return
    tar = os.path.join(VERIF, 'deps', 'deps.tar.xz')
    if os.path.exists(tar):
        os.makedirs(tgt, exist_ok=True)
        subprocess.run(['tar', '-xJf', tar, '-C', tgt], check=False,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def _drop_members(tgt, names):
    """Cargo's freshness test would skip the wrapper: forget the workspace members."""
    b = os.path.join(tgt, 'debug', 'build')
    for n in names:
        shutil.rmtree(os.path.join(b, n), ignore_errors=True)
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if any(d.startswith(n + '-') for n in names):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def _counts(facts):
    return {c: {'functions': len(f['fns']), 'types': len(f['adts']), 'impls': len(f['impls'])}
            for c, f in facts.items()}


def load(verbose=False):
    """-> (dict crate -> facts, info dict)"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = _files(REPO, ('.rs', '.toml', '.lock'))
        own = _files(os.path.join(VERIF, 'driver'), ('.rs', '.toml', '.lock')) + \
            _files(os.path.join(VERIF, 'models'), ('.rs', '.toml', '.lock'))
        key = hashlib.sha256((_hash(src, REPO) + _hash(own, VERIF)).encode()).hexdigest()[:24]
        pk = os.path.join(CACHE, 'facts-%s.pickle' % key)
        info = {'tree_hash': key, 'source_files': len(src)}
        if os.path.exists(pk):
            try:
                with open(pk, 'rb') as f:
                    facts = pickle.load(f)
                info['extract_s'] = round(time.time() - t0, 2)
                info['cached'] = True
                info['counts'] = _counts(facts)
                return facts, info
            except Exception:
                pass
        env = _env()
        drv = build_driver(env)
        sysroot = _run(['rustc', '--print', 'sysroot'], VERIF, env, 'rustc').strip()
        out = os.path.join(CACHE, 'out-%d' % os.getpid())
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env['LD_LIBRARY_PATH'] = sysroot + '/lib'
        env['RUSTC_WORKSPACE_WRAPPER'] = drv
        env['MIRFACTS_OUT'] = out
        tgt = os.path.join(CACHE, 'target')
        e = dict(env, CARGO_TARGET_DIR=tgt)
        _restore_deps(tgt, env)
        _drop_members(tgt, ['rgb-std', 'rgb-invoice'])
        _run(['cargo', 'check', '--offline', '-q', '-p', 'rgb-std', '-p', 'rgb-invoice',
              '--all-features'], REPO, e, 'type-checking /repo with the MIR extractor')
        mt = os.path.join(CACHE, 'models-target')
        _drop_members(mt, ['models'])
        _run(['cargo', 'check', '--offline', '-q'], os.path.join(VERIF, 'models'),
             dict(env, CARGO_TARGET_DIR=mt), 'type-checking the library models')
        facts = {}
        for c in ('rgbstd', 'rgbinvoice', 'models'):
            p = os.path.join(out, c + '.json')
            if not os.path.exists(p):
                raise ToolError('extractor produced no facts for crate %s' % c)
            with open(p) as f:
                facts[c] = json.load(f)
        shutil.rmtree(out, ignore_errors=True)
        for f in os.listdir(CACHE):
            if f.startswith('facts-'):
                os.unlink(os.path.join(CACHE, f))
        with open(pk + '.tmp', 'wb') as f:
            pickle.dump(facts, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.rename(pk + '.tmp', pk)
        info['extract_s'] = round(time.time() - t0, 2)
        info['cached'] = False
        info['counts'] = _counts(facts)
        return facts, info


if __name__ == '__main__':
    try:
        _, info = load(True)
        print(json.dumps(info))
    except ToolError as ex:
        print(ex, file=sys.stderr)
        sys.exit(2)
