"""Plant a bug: mkseed.py SPEC.py   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
Writes /verif/seeded/<ID>/ after confirming, in a scratch copy, that the change
builds, passes the tests, and that the demonstration tells both trees apart."""
import json, os, shutil, subprocess, sys, tempfile
PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.rs')).read()
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: 0 when the property holds on the shown history, 1 otherwise
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.1"
edition = "2018"
[dependencies]
magmaflow = { path = "$repo" }
[workspace]
T
cp "$repo/Cargo.lock" "$d/lock.orig" 2>/dev/null
cd "$d" && timeout 250 cargo run --offline -q --target-dir "$d/target" 2> "$d/log"
rc=$?
[ $rc -ne 0 ] && tail -n 5 "$d/log"
exit $rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def main(spec, quick=False):
    g = {}
    exec(open(spec).read(), g)
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        r = tmp + '/repo'
        sh('git clone -q /repo %s && cp /repo/Cargo.lock %s/' % (r, r))
        d = '/verif/seeded/' + g['ID']
        w = tmp + '/demo'
        os.makedirs(w)
        open(w + '/main.rs', 'w').write(PRELUDE + g['DEMO'])
        open(w + '/demo.sh', 'w').write(DEMO_SH)
        a = sh('bash %s/demo.sh' % w, cwd=r)
        if a.returncode != 0:
            print(g['ID'], 'demo fails on the unchanged tree\n', a.stdout[-2500:]); return 1
        for f, old, new in g['EDITS']:
            p = r + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(g['ID'], 'edit matches %d times: %r' % (s.count(old), old[:60])); return 1
            open(p, 'w').write(s.replace(old, new))
        b = sh('cargo test --offline --target-dir %s/target 2>&1' % tmp, cwd=r, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable'))
        if b.returncode:
            print(g['ID'], 'build or tests fail\n', b.stdout[-2500:]); return 1
        a = sh('bash %s/demo.sh' % w, cwd=r)
        if a.returncode == 0:
            print(g['ID'], 'demo passes with the change'); return 1
        if 'error[' in a.stdout or 'could not compile' in a.stdout:
            print(g['ID'], 'demo does not compile with the change', a.stdout[-800:]); return 1
        diff = sh('git diff', cwd=r).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(w + '/main.rs', d); shutil.copy(w + '/demo.sh', d)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        print(g['ID'], 'ok (demo rc %d)' % a.returncode, a.stdout.strip()[-150:].replace('\n', ' | '))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0
if __name__ == '__main__':
    sys.exit(max(main(s) for s in sys.argv[1:]))
