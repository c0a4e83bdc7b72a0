"""Check framework: obligations, verdicts, evidence, known findings."""
import json, os, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import term as tm
from term import *
import engine as en
from engine import Engine, State, Facts
from equiv import equiv, simp, determined, Mismatch, implied

class An:
    """one abstract evaluation of a function"""
    pass

class Check:
    def __init__(s, pid, facts):
        s.pid, s.F = pid, facts
        s.obs = []            # (key, verdict, detail, where)
        s.fns = set()
        s.viol = []
        s.samples = []
        s.gave_up = []
        s.counts = {}
    # verdicts ---------------------------------------------------------------
    def ok(s, key, detail="", where=""): s.obs.append((key, "ok", detail, where))
    def bad(s, key, detail, where=""):
        if not s.F.layout_known: return s.unk(key, detail + " (the fields of PixelBuffer are not recognised)", where)
        s.obs.append((key, "violation", detail, where))
    def unk(s, key, detail, where=""): s.obs.append((key, "undetermined", detail, where))
    def need(s, key, cond, detail, where=""):
        (s.ok if cond else s.bad)(key, detail, where)
        return cond
    def eq(s, key, got, want, what="", where="", asm=(), limit=400):
        """obligation: got and want have equal normal forms in every case"""
        m = equiv(got, want, asm, limit)
        if not m: s.ok(key, what, where); return True
        sure = [x for x in m if x.sure]
        if sure: s.bad(key, "%s: %r" % (what, sure[0]), where); return False
        s.unk(key, "%s: %r" % (what, m[0]), where); return None
    def floor(s, name, n, minimum):
        s.counts[name] = n
        if n < minimum and s.gave_up: s.unk("floor/" + name, "only %d %s analysed; %s" % (n, name, s.gave_up[:3]))
        elif n < minimum: s.bad("floor/" + name, "only %d %s analysed, at least %d confirmed by hand" % (n, name, minimum))
    def nopanic(s, key, A, asm=(), what="never panics", limit=400):
        """obligation: no panic or failing bounds/overflow check is reachable under asm (every index
        inside loops ranges over the loop's bounds)"""
        first, n = None, 0
        for e in A.events:
            if e.kind == "panic": c = FALSE
            elif e.kind == "assert":
                if e.ret is TRUE: continue
                c = e.ret
            else: continue
            n += 1
            if FALSE in e.pc: continue
            lits, hard = [], []
            for p in e.pc:
                for q in (p.args if p.op == "and" else (p,)): (hard if q.op in ("ite", "or") else lits).append(q)
            for k, hi in e.loops:
                lits.append(le(ZERO, k))
                if isinstance(hi, Term) and hi.op != "inf": lits.append(lt(k, hi))
            m = equiv(and_(*hard, not_(c)), FALSE, tuple(asm) + tuple(lits), limit)
            if m: first = first or (e, m[0])
        if first is None: s.ok(key, "%s (%d checks)" % (what, n), A.where); return True
        e, m = first
        d = "%s: %s in %s under %s: %r" % (what, e.name, e.fn, [show(p)[:120] for p in e.pc], m)
        if m.sure and not e.loops: s.bad(key, d, "%s:%s" % (e.fn, e.line)); return False
        s.unk(key, d, "%s:%s" % (e.fn, e.line)); return None
    # independent parts of a check run in forked processes; each returns its obligations
    def par(s, thunks, jobs=8, limit=700):
        import pickle, signal, select
        todo, live, res = list(enumerate(thunks)), {}, {}
        sys.stdout.flush()
        while todo or live:
            while todo and len(live) < jobs:
                i, f = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(limit)
                        n0, c0, g0, f0 = len(s.obs), dict(s.counts), len(s.gave_up), set(s.fns)
                        try: v = f()
                        except Exception as e:
                            if os.environ.get("D10_DEBUG"):
                                import traceback; traceback.print_exc()
                            s.gave_up.append(repr(e)); s.unk("part/%d" % i, "analysis gave up: %r" % e); v = None
                        b = pickle.dumps((s.obs[n0:], s.gave_up[g0:], s.fns - f0, v, {k: x for k, x in s.counts.items() if c0.get(k) != x}))
                        with os.fdopen(w, "wb") as o: o.write(b)
                    finally: os._exit(0)
                os.close(w); live[r] = (i, pid, [])
            for r in select.select(list(live), [], [])[0]:
                i, pid, bufs = live[r]
                x = os.read(r, 1 << 20)
                if x: bufs.append(x); continue
                os.close(r); os.waitpid(pid, 0); del live[r]
                try: res[i] = pickle.loads(b"".join(bufs))
                except Exception: res[i] = ([("part/%d" % i, "undetermined", "analysis process ended early", "")], ["part %d" % i], set(), None, {})
        out = []
        for i in sorted(res):
            o, g, fn, v, cn = res[i]
            s.obs += o; s.gave_up += g; s.fns |= fn; s.counts.update(cn); out.append(v)
        return out
    # evaluation ---------------------------------------------------------------
    def find(s, path, required=True):
        b = s.F.fn(path)
        if b is None:
            if required: s.bad("anchor/" + path, "no function %s in the workspace" % path)
            return None
        return b
    def run(s, path, opaque=None, args=None, env=None, required=True, body=None, st=None, budget=None, may_diverge=False, unroll=0):
        b = body or s.find(path, required)
        if b is None: return None
        E = Engine(s.F, opaque)
        E.unroll = unroll
        if budget: E.budget = budget
        E.deadline = time.time() + 150
        bd = b["body"]
        st = st or State()
        a, A = [], An()
        A.params = {}
        A.refs = {}
        A.p, A.ro = [], []        # parameter values and &mut objects by position
        for i in range(bd["argc"]):
            nm = b["params"][i] if i < len(b["params"]) else "a%d" % i
            ty = en.tsub(bd["locals"][i + 1], env)
            v = (args or {}).get(nm)
            if v is None: v = (args or {}).get(i)
            if v is None: v = sym(nm)
            A.params[nm] = v
            A.p.append(v); A.ro.append(None)
            if ty[0] == "ref" and ty[1] and v.op != "ref":
                o = ("P", nm); st.store[o] = v; v = T("ref", o, ()); A.refs[nm] = o; A.ro[-1] = o
            a.append(v)
        env = env if env is not None else tuple(("param", g[0], g[1]) for g in b["generics"])
        if env and len(env) < max([g[0] + 1 for g in b["generics"]] or [0]): env = tuple(env) + (None,) * 8
        A.b, A.E = b, E
        try:
            r = E.eval_body(b, bd, env, a, st, None)
        except Exception as e:
            if os.environ.get("D10_DEBUG"): raise
            E.unk.append(("analysis gave up", path)); r = None
            s.gave_up.append("%s: %r" % (path, e))
            s.unk("evaluate/" + path, "abstract evaluation gave up: %r" % e)
        if E.nstmts > E.budget and (not s.gave_up or s.gave_up[-1] != path):
            s.gave_up.append(path); s.unk("evaluate/" + path, "statement budget exceeded")
        A.gave_up = E.nstmts > E.budget
        A.ret, A.st = r if r else (None, None)
        if r:
            import equiv as eqm
            A.ret = eqm.inhabited(A.ret)
            for o in list(A.st.store):
                v = A.st.store[o]
                if isinstance(v, Term): A.st.store[o] = eqm.inhabited(v)
        if r is None and not A.gave_up and not (s.gave_up and path in s.gave_up[-1]) and not may_diverge:
            (s.unk if E.unk else s.bad)("returns/" + path, "no path through the function returns", "%s:%s" % (b["file"], b["line"]))
        A.events = E.events
        A.unk = E.unk
        A.where = "%s:%s" % (b["file"], b["line"])
        A.path = path
        A.ok = r is not None
        s.fns |= E.fns
        return A
    def out(s, A, name):
        """final value behind &mut parameter name"""
        if not A.st: return None
        if isinstance(name, int): return A.st.store.get(A.ro[name], A.p[name])
        return A.st.store.get(A.refs[name], A.params[name])
    def eq_any(s, key, got, wants, what="", where="", asm=()):
        """obligation: got equals one of the admissible values"""
        ms = []
        for w in wants:
            m = equiv(got, w, asm)
            if not m: s.ok(key, what, where); return True
            ms.append(m)
        if all(any(x.sure for x in m) for m in ms):
            s.bad(key, "%s: %r" % (what, [x for x in ms[0] if x.sure][0]), where); return False
        s.unk(key, "%s: %r" % (what, ms[0][0]), where); return None

def ctx(A):
    """evaluation context for post-processing a result (draining iterators, calling closures)"""
    b = A.b
    fr = en.Frame(b, b["body"], tuple(("param", g[0], g[1]) for g in b["generics"]), 0)
    return en.Ctx(A.E, fr, (), (), None, b["line"], b["path"], None, b["name"])

def panic_cond(A, kinds=("panic", "assert")):
    """condition under which the evaluated function panics (outside loops)"""
    c = FALSE
    for e in A.events:
        if e.kind == "panic" and "panic" in kinds: c = or_(c, and_(*e.pc))
        elif e.kind == "assert" and "assert" in kinds and e.ret is not TRUE: c = or_(c, and_(*e.pc, not_(e.ret)))
    return c

def calls(A, *names):
    return [e for e in A.events if e.kind == "call" and e.name in names]
def callsuf(A, *suf):
    return [e for e in A.events if e.kind == "call" and any(e.name == x or e.name.endswith("::" + x) for x in suf)]

# ---- known findings / output ------------------------------------------------------
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load_findings():
    p = os.path.join(V, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                # finding: property=<id> key=<key> :: text
                head, _, text = l[9:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1)) if False else {}
                pid = head.split(" ")[0].split("=", 1)[1]
                key = head.split(" key=", 1)[1]
                out[(pid, key)] = text
    return out

def finish(ck, t0, tier, seed, level="other", explanation=""):
    known = load_findings()
    viol = [o for o in ck.obs if o[1] == "violation"]
    newv, oldv = [], []
    for o in viol:
        (oldv if (ck.pid, o[0]) in known else newv).append(o)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    und = [o for o in ck.obs if o[1] == "undetermined"]
    okn = [o for o in ck.obs if o[1] == "ok"]
    ev = {"property": ck.pid, "tier": tier, "seed": seed, "level": level,
          "coverage": {"explanation": explanation, "obligations": len(ck.obs), "discharged": len(okn),
                       "undetermined": len(und), "functions_analysed": len(ck.fns), "counts": ck.counts,
                       "rule": explanation[:200],
                       "samples": [{"obligation": o[0], "verdict": o[1], "what": o[2][:300], "where": o[3]} for o in (viol + und)[:12] + okn[:12]],
                       "undetermined_keys": [o[0] for o in und][:60],
                       "functions": sorted(ck.fns)[:400]},
          "assumptions": ["integers are mathematical integers unless a rule says otherwise, floats are reals, NaN is ignored",
                          "third-party crates behave as modelled in lib/models.py or are opaque"],
          "wall_s": round(time.time() - t0, 2), "violations": len(newv)}
    json.dump(ev, open(os.path.join(V, "evidence", ck.pid + ".json"), "w"), indent=1)
    for o in oldv: print("KNOWN-FINDING: property=%s %s: %s" % (ck.pid, o[0], o[2][:300]))
    print("%s: %d obligations, %d discharged, %d undetermined, %d violations, %d functions, %.1fs" %
          (ck.pid, len(ck.obs), len(okn), len(und), len(newv), len(ck.fns), time.time() - t0))
    if newv:
        rp = os.path.join(V, "evidence", ck.pid + ".violations.txt")
        with open(rp, "w") as f:
            for o in newv: f.write("%s\n  at %s\n  %s\n" % (o[0], o[3], o[2]))
        for o in newv[:20]: print("  %s at %s: %s" % (o[0], o[3], o[2][:700]))
        print("VIOLATION property=%s replay=%s" % (ck.pid, rp))
        return 1
    return 0
