#!/usr/bin/env python3
"""check.py PROPERTY [...]: decide properties on /repo's current tree by static analysis."""
import os, sys, time, tempfile, subprocess, shutil, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
CUR = []
LIMIT = 780
def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    d = os.environ.get("D10_FACTS")
    tmp = None
    if not d:
        os.makedirs(os.path.join(V, ".cache"), exist_ok=True)
        d = tmp = tempfile.mkdtemp(prefix="facts", dir=os.path.join(V, ".cache"))
        r = subprocess.run([os.path.join(V, "lib", "extract.sh"), d, os.environ.get("D10_REPO", "/repo")])
        if r.returncode:
            print("extraction failed (does /repo build?)", file=sys.stderr); shutil.rmtree(tmp, True); return 3
    try:
        import fw, rules
        F = fw.Facts(d)
        rc = 0
        ids = sorted(rules.RULES) if args == ["all"] else args
        for pid in ids:
            t1 = time.time() if len(ids) > 1 else t0
            f, expl = rules.RULES[pid][:2]
            ck = fw.Check(pid, F)
            ck.tier = tier
            CUR[:] = [ck, t1, tier, seed, expl, tmp]
            f(ck)
            CUR[:] = []
            rc |= fw.finish(ck, t1, tier, seed, explanation=expl)
        return rc
    finally:
        if tmp: shutil.rmtree(tmp, True)
if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]
    def go():
        try: rc[0] = main()
        except BaseException: traceback.print_exc()
    t = threading.Thread(target=go, daemon=True); t.start(); t.join(LIMIT)
    if t.is_alive():
        # out of time: report what was decided so far; the rest is undetermined
        if CUR:
            import fw
            ck, t1, tier, seed, expl, tmp = CUR
            ck.obs = list(ck.obs)
            ck.unk("time", "time limit reached, remaining obligations not examined")
            rc[0] = fw.finish(ck, t1, tier, seed, explanation=expl)
            if tmp: shutil.rmtree(tmp, True)
    sys.stdout.flush()
    os._exit(rc[0])
