"""The MIR dump: types, functions, and the loop structure of each body."""
import json, re


def norm_path(p):
    return re.sub(r"\b(?:std|alloc|core)::", "", p)


class Fn:
    __slots__ = ("key", "d", "blocks", "locals", "argc", "wto", "path", "name", "local", "span", "inloop", "spread")

    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.wto = None
        self.path = d["path"]
        self.name = d.get("name")
        self.local = d["local"]
        self.span = d["span"]
        self.spread = d.get("spread")


def succs(t):
    k = t["t"]
    if k in ("goto",):
        return [t["to"]]
    if k == "switch":
        r = [b for _, b in t["arms"]]
        if t.get("else") is not None:
            r.append(t["else"])
        return r
    if k in ("drop", "call", "assert"):
        return [t["to"]] if t.get("to") is not None else []
    if k == "py":
        return t["succ"]
    if k == "other" and t.get("to") is not None:
        return [t["to"]]
    return []


def wto(blocks, entry=0):
    """Bourdoncle's weak topological order: list of bb or (head, [elements])"""
    import sys
    sys.setrecursionlimit(100000)
    dfn = {}
    num = [0]
    stack = []
    INF = 1 << 60

    def component(v):
        part = []
        for w in succs(blocks[v]["t"]):
            if dfn.get(w, 0) == 0:
                visit(w, part)
        part.reverse()
        return (v, part)

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = num[0]
        loop = False
        for w in succs(blocks[v]["t"]):
            m = visit(w, part) if dfn.get(w, 0) == 0 else dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.append(component(v))
            else:
                part.append(v)
        return head

    part = []
    visit(entry, part)
    part.reverse()
    return part


def flatten(els, out):
    for e in els:
        if isinstance(e, tuple):
            out.add(e[0])
            flatten(e[1], out)
        else:
            out.add(e)
    return out


class Prog:
    def __init__(self, path):
        m = json.load(open(path))
        self.types = m["types"]
        self.fns = {k: Fn(k, d) for k, d in m["fns"].items()}
        self.roots = m["roots"]
        self.statics = m["statics"]
        self.adts = m["adts"]
        self.impls = m["impls"]
        self._nd = {}
        self.tyid = {t["s"]: i for i, t in enumerate(self.types)}

    def fn_wto(self, f):
        if f.wto is None:
            f.wto = wto(f.blocks)
        return f.wto

    def ty(self, i):
        return self.types[i]

    def needs_drop(self, i, seen=()):
        r = self._nd.get(i)
        if r is not None:
            return r
        if i in seen:
            return False
        t = self.types[i]
        k = t["k"]
        r = False
        if k == "adt":
            if t.get("drop"):
                r = True
            elif t.get("akind") == "union" or norm_path(t["path"]).endswith("mem::ManuallyDrop"):
                r = False
            else:
                for v in t.get("variants", []):
                    for _, ft in v["fields"]:
                        r = r or self.needs_drop(ft, seen + (i,))
        elif k == "tuple":
            r = any(self.needs_drop(x, seen + (i,)) for x in t["of"])
        elif k == "closure":
            r = any(self.needs_drop(x, seen + (i,)) for x in t["upvars"])
        elif k == "array":
            r = self.needs_drop(t["of"], seen + (i,))
        if not seen:
            self._nd[i] = r
        return r

    def int_w(self, i):
        """(bits, signed) for integer-like types, else None"""
        t = self.types[i]
        k = t["k"]
        if k == "uint":
            return t["bits"], False
        if k == "int":
            return t["bits"], True
        if k == "char":
            return 32, False
        return None
