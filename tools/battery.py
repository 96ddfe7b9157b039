"""battery.py FILE [N...]: mutate scratch copies of /repo and show which checks react.
FILE defines MUT = [(expected properties or '' for harmless, file, old, new), ...]"""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
g = {}
exec(open(sys.argv[1]).read(), g)
MUT = g['MUT']
sel = [int(x) for x in sys.argv[2:]] or range(len(MUT))
ALL = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'allchecks.py')
def one(i):
    exp, f, old, new = MUT[i][:4]
    edits = [(f, old, new)] if not isinstance(f, list) else f
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        for x in ('Cargo.toml', 'Cargo.lock', 'src'):
            s = '/repo/' + x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, tmp + '/' + x)
        for f, old, new in edits:
            p = tmp + '/src/' + f
            s = open(p).read()
            if s.count(old) < 1:
                return i, 'NOMATCH ' + repr(old[:60])
            open(p, 'w').write(s.replace(old, new, 1))
        try:
            r = subprocess.run([sys.executable, ALL, tmp] + g.get('PROPS', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=1500)
            return i, r.stdout
        except subprocess.TimeoutExpired:
            return i, 'TIMEOUT'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
with ThreadPoolExecutor(7) as ex:
    for i, out in ex.map(one, sel):
        exp = set(MUT[i][0].split())
        got = set()
        und = set()
        for l in out.split('\n'):
            w = l.split()
            if len(w) > 4 and w[0][0] == 'C' and w[3] == 'BAD':
                if w[4] != '0': got.add(w[0])
                if ' UND 0 ' not in l: und.add(w[0])
        tag = 'ok  ' if (exp <= got if exp else not got) and 'END' in out else 'MISS'
        print(tag, i, 'exp', ' '.join(sorted(exp)) or '-', 'got', ' '.join(sorted(got)), 'und', ' '.join(sorted(und)), '|', repr((MUT[i][3] if not isinstance(MUT[i][1], list) else MUT[i][1][0][2])[:60]))
        if tag == 'MISS' or os.environ.get('V'):
            print('\n'.join('      ' + l[:1400] for l in out.split('\n')[-12 if not os.environ.get('VERIF_DEBUG') else -100:] if l.strip()))
        sys.stdout.flush()
