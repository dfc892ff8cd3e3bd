"""prove the obligations of all functions in parallel; prints what is not proved.  usage: pvc.py [labels|all] [src] [seconds per VC]"""
import sys, time, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from amivc.frontend import *
src = sys.argv[2] if len(sys.argv) > 2 else '/repo/src'
secs = float(sys.argv[3]) if len(sys.argv) > 3 else 90
patience = float(sys.argv[4]) if len(sys.argv) > 4 else 1
p = Program(src, tuple(os.environ["DEFS"].split(",")) if os.environ.get("DEFS") else ())
from amivc import contracts as K, prover as PR
import multiprocessing as mp
byfn, bylabel = K.attach(p)
labels = list(bylabel) if len(sys.argv) < 2 or sys.argv[1] == 'all' else sys.argv[1].split(',')


def gen(L):
    f = bylabel[L]
    try:
        ex, vcs = K.obligations(p, f, byfn[f.mangled], byfn)
    except Exception as e:
        return L, None, '%s: %s' % (type(e).__name__, e)
    return L, vcs, None


def count(L):
    L, vcs, err = gen(L)
    return L, None if err else len(vcs), err


def work(j):
    L, i = j
    L, vcs, err = gen(L)
    v = vcs[i]
    t = time.time()
    pr = PR.Prover(secs, patience)
    try:
        ok = K.discharge(v, pr)
    except Exception as e:
        v.status = '%s %s' % (type(e).__name__, e)
        ok = False
    return L, v.out, v.kind, ok, v.status, time.time() - t, pr.nz3


if __name__ == '__main__':
    t0 = time.time()
    with mp.Pool(8, maxtasksperchild=8) as pool:
        jobs = []
        for L, vcs, err in pool.imap_unordered(count, labels):
            if err:
                print('GEN', L, err[:200])
                continue
            jobs += [(L, i) for i in range(vcs)]
        n = bad = 0
        for L, out, kind, ok, st, t, nz in pool.imap_unordered(work, jobs):
            n += 1
            if not ok:
                bad += 1
                print('!!', L, out, kind, st, round(t, 1), flush=True)
            elif t > 15:
                print('slow', L, out, kind, round(t, 1), nz, flush=True)
        print('%d of %d proved, %.0fs' % (n - bad, n, time.time() - t0))
