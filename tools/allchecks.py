"""allchecks.py REPO [PROPS...]: run every group of checks once on a tree (development aid)."""
import os, sys, tempfile, shutil, time, threading
os.environ['VERIF_REPO'] = os.path.abspath(sys.argv[1])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'analyzer'))
sys.setrecursionlimit(20000)
threading.stack_size(512 << 20)
def work():
    import run, mir, checks
    from report import Report
    tmp = tempfile.mkdtemp(prefix='verif-mir-')
    try:
        run.dump(tmp + '/d.json')
        M = mir.Mir(tmp + '/d.json')
    except RuntimeError as e:
        print('NOBUILD', str(e)[-600:]); return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    want = sys.argv[2:] or sorted(checks.GROUPS)
    done = set()
    known = run.known_findings()
    for p in want:
        gs = tuple(checks.GROUPS[p])
        if gs in done and p in checks.SHARED: continue
        done.add(gs)
        rep = Report()
        t = time.time()
        checks.run(p, M, rep, 'quick')
        for q in sorted(rep.total):
            if q not in want: continue
            if q != p and q not in checks.SHARED: continue
            b = {k: m for k, m in rep.bad.get(q, {}).items() if (q, k) not in known}
            u = rep.und.get(q, {})
            if b or u or os.environ.get('V'):
                print(q, rep.total[q], rep.yes.get(q, 0), 'BAD', len(b), list(b.items())[:2], 'UND', len(u), list(u.items())[:2])
        if os.environ.get('V'): print(p, '%.1fs' % (time.time() - t))
    print('END')
t = threading.Thread(target=work); t.start(); t.join()
