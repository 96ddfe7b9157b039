"""seedtable.py: run every check against every change under seeded/ (in scratch
copies of /repo) and print the table of DESIGN.md."""
import os, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join('/verif', 'seeded')
def one(n):
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        for x in ('Cargo.toml', 'Cargo.lock', 'src'):
            s = '/repo/' + x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, tmp + '/' + x)
        subprocess.check_call(['git', 'apply', '--directory=' + tmp.lstrip('/'), '--unsafe-paths', S + '/%s/patch.diff' % n], cwd='/')
        r = subprocess.run([sys.executable, V + '/tools/allchecks.py', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        got = set()
        for l in r.stdout.split('\n'):
            w = l.split()
            if len(w) > 4 and w[0][0] == 'C' and w[3] == 'BAD' and w[4] != '0':
                got.add(w[0])
        return got
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
names = sorted(os.listdir(S))
print('| planted change | property | caught by | what it needs |\n|---|---|---|---|')
with ThreadPoolExecutor(7) as ex:
    for n, got in zip(names, ex.map(one, names)):
        m = json.load(open(S + '/%s/meta.json' % n))
        print('| %s | %s | %s | %s |' % (n, m['property'], ' '.join(sorted(got)) or 'missed', m['needs'].split(' (')[0]), flush=True)
