"""run.py <property> [quick|thorough]: decide one property on /repo's current source."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
BUDGET = 600

def sh(cmd, env=None, **kw):
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def base_env():
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '') + ':/usr/local/bin:/usr/bin:/bin'
    env.pop('RUSTUP_TOOLCHAIN', None)
    env.pop('RUSTFLAGS', None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    env['RUSTC_WRAPPER'] = ''
    return env

def tool(env):
    """driver binary and model library, built from the committed sources when absent or stale"""
    os.makedirs(CACHE, exist_ok=True)
    drv = os.path.join(CACHE, 'mirdump')
    lib = os.path.join(CACHE, 'libverif_models.rmeta')
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    mod = os.path.join(VERIF, 'models', 'models.rs')
    stamp = os.path.join(CACHE, 'stamp')
    import hashlib
    h = hashlib.sha256(open(src, 'rb').read() + open(mod, 'rb').read()).hexdigest()
    if not (os.path.exists(drv) and os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == h):
        r = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', drv], env)
        if r.returncode:
            raise RuntimeError('driver does not build:\n' + r.stdout[-3000:])
        r = sh(['rustc', '+nightly', '--edition', '2021', '-Zalways-encode-mir', '--emit=metadata', mod, '--out-dir', CACHE], env)
        if r.returncode:
            raise RuntimeError('models do not build:\n' + r.stdout[-3000:])
        open(stamp, 'w').write(h)
    return drv, lib

def dump(out):
    env = base_env()
    drv, lib = tool(env)
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], env).stdout.strip().split('\n')[-1]
    models = open(os.path.join(VERIF, 'models', 'models.rs')).read()
    env.update(LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_CRATE='magmaflow', MIRDUMP_OUT=out,
               MIRDUMP_MODELS_LIB=lib, MIRDUMP_STOP='',
               MIRDUMP_MODELS=';'.join('%s=%s' % (p, m[1]) for m in re.findall(r'((?://= .*\n)+)pub fn (\w+)', models) for p in re.findall(r'//= (.*)', m[0])))
    def check(env):
        tgt = tempfile.mkdtemp(prefix='verif-target-')
        try:
            return sh(['cargo', '+nightly', 'check', '--offline', '--target-dir', tgt, '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env, cwd=REPO)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
    r = check(env)
    if r.returncode or not os.path.exists(out):
        plain = {k: v for k, v in env.items() if k != 'RUSTC_WORKSPACE_WRAPPER'}
        if check(plain).returncode:
            raise NoBuild('the crate does not build:\n' + r.stdout[-4000:])
        env['MIRDUMP_MODELS'] = ''
        r = check(env)
        if r.returncode or not os.path.exists(out):
            raise RuntimeError('the program cannot be read:\n' + r.stdout[-4000:])

class NoBuild(RuntimeError):
    pass

def known_findings():
    """{(property, key)} -> text of the recorded, unrepaired defects"""
    res = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                res[m.group(1), m.group(2)] = m.group(3).strip()
    return res

def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    box = {}
    def work():
        try:
            box['rc'] = decide(prop, tier, t0)
        except NoBuild as e:
            print(e)
            box['rc'] = 2
        except BaseException as e:
            traceback.print_exc()
            box['rc'] = unread(prop, tier, t0, '%s: %s' % (type(e).__name__, str(e)[:300]))
    th = threading.Thread(target=work, daemon=True)
    th.start()
    th.join(LIMIT.get(tier, 780))
    if 'rc' not in box:
        box['rc'] = unread(prop, tier, t0, 'time limit')
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(box['rc'])

LIMIT = {'quick': 780, 'thorough': 840}

PART = []

def unread(prop, tier, t0, why):
    """the analysis gave up as a whole: nothing is decided, and said so"""
    class Nothing:
        fns = {}
    from report import Report
    rep = Report()
    if PART:
        # violations found before that stand
        M, r = PART[0]
        for k, m in list(r.bad.get(prop, {}).items()):
            rep.add([prop], 'n', k, m)
    rep.add([prop], 'u', 'analysis', why)
    return finish(prop, tier, t0, Nothing, rep)

def decide(prop, tier, t0):
    import mir
    import checks
    from report import Report
    tmp = tempfile.mkdtemp(prefix='verif-mir-')
    try:
        out = os.path.join(tmp, 'dump.json')
        dump(out)
        M = mir.Mir(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rep = Report()
    PART.append((M, rep))
    checks.run(prop, M, rep, tier)
    return finish(prop, tier, t0, M, rep)

def finish(prop, tier, t0, M, rep):
    import checks
    known = known_findings()
    bad = rep.bad.get(prop, {})
    und = rep.und.get(prop, {})
    new = {k: m for k, m in bad.items() if (prop, k) not in known}
    old = {k: m for k, m in bad.items() if (prop, k) in known}
    total, yes = rep.total.get(prop, 0), rep.yes.get(prop, 0)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[prop, k], k))
    for k in sorted(und):
        print('UNDECIDED property=%s %s: %s' % (prop, k, und[k]))
    rule, explanation = checks.RULES[prop]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'rule': rule,
            'obligations': total, 'discharged': yes,
            'undecided': sorted(und)[:50], 'known_findings': sorted(old),
            'analysed': rep.notes.get(prop, {}) or rep.notes.get('*', {}),
            'samples': rep.samples.get(prop, [])[:8],
            'functions_in_program': len(M.fns), 'local_functions': sum(1 for f in M.fns.values() if f.get('local')),
        },
        'assumptions': checks.ASSUME,
        'violations': len(new),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if total == 0:
        print('no obligation of %s was found in the source: nothing was analysed' % prop)
        print('UNDECIDED property=%s nothing analysed' % prop)
    if new:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.json')
        with open(path, 'w') as f:
            json.dump([{'construct': k, 'violation': m} for k, m in sorted(new.items())], f, indent=1)
        for k in sorted(new)[:20]:
            print('  %s: %s' % (k, new[k]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('property %s: %d obligations, %d discharged, %d undecided, %d known findings (%.1f s)' % (prop, total, yes, len(und), len(old), time.time() - t0))
    return 0

if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        tool(base_env())
        sys.exit(0)
    sys.exit(main(sys.argv[1:]))
