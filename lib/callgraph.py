"""Workspace call graph over MIR facts, with external leaves."""
def walk(t, f):
    if isinstance(t, tuple):
        f(t)
        for x in t: walk(x, f)
    elif isinstance(t, dict):
        f(t)
        for x in t.values(): walk(x, f)
class Graph:
    def __init__(s, F):
        s.F = F
        s.edges, s.ext, s.sites = {}, {}, {}
        s.impls_of = {}
        for i in F.impls:
            for it in i["items"]:
                if it[2]: s.impls_of.setdefault(it[2], []).append(it[1])
        for k, b in F.bodies.items():
            s.edges[k], s.ext[k] = set(), {}
            s.scan(k, b)
    def add(s, k, key, path, line):
        if key in s.F.bodies: s.edges[k].add(key)
        for x in s.impls_of.get(key, ()):
            if x in s.F.bodies: s.edges[k].add(x)
        if key not in s.F.bodies: s.ext[k].setdefault(path, line)
    def scan(s, k, b):
        line = [b["line"]]
        def f(t):
            if isinstance(t, dict):
                if "path" in t and "res" in t and "key" in t:
                    r = t["res"]
                    if r: s.add(k, r[0], r[1], line[0])
                    else: s.add(k, t["key"], t["path"], line[0])
            elif t and t[0] == "fndef" and len(t) > 2: s.add(k, t[1], t[2] if isinstance(t[2], str) else t[1], line[0])
            elif t and t[0] == "closure" and isinstance(t[1], str): s.add(k, t[1], t[1], line[0])
            elif t and t[0] in ("static", "named", "promoted") and len(t) > 2 and isinstance(t[2], str):
                if t[2] in s.F.bodies: s.edges[k].add(t[2])
                if t[0] == "static": s.ext[k].setdefault("static " + t[2], line[0])
        for blk in b["body"]["blocks"]:
            for st in blk["s"]:
                if isinstance(st[-1], int): line[0] = st[-1]
                walk(st, f)
            t = blk["t"]
            if t:
                if t[0] == "call" and isinstance(t[4], int): line[0] = t[5] if isinstance(t[5], int) else line[0]
                walk(t, f)
        for p in b["promoted"] if isinstance(b["promoted"], tuple) else ():
            walk(p, f)
    def reach(s, k):
        """function keys reachable from k, with one path each"""
        par, todo = {k: None}, [k]
        while todo:
            x = todo.pop()
            for y in s.edges.get(x, ()):
                if y not in par: par[y] = x; todo.append(y)
        return par
    def path(s, par, k):
        r = []
        while k is not None: r.append(s.F.bodies[k]["path"]); k = par[k]
        return r[::-1]
