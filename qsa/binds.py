"""The engine's Python bindings: which name is bound to which function, and what the bound
function hands to the engine."""


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


class Bind:
    def __init__(self, owner, name, fn, line, lam, extra):
        self.owner, self.name, self.fn, self.line, self.lam, self.extra = owner, name, fn, line, lam, extra
        self.pt = list(fn.get("pt", [])) if fn else None
        self.ret = fn.get("ret") if fn else None

    def nmin(self):
        return len(self.pt) - sum(1 for d in self.extra if d)

    def nmax(self):
        return len(self.pt)


def table(U):
    """name -> [Bind]; owner is '' for module functions, else the class bound"""
    out = []
    inits = [f for f in U["funcs"] if f["name"].startswith("pybind11_init_") and f.get("body") is not None]
    for f in inits:
        for n in walk(f["body"]):
            fn = n.get("f") or {}
            if n.get("k") not in ("mcall", "call") or fn.get("name") not in ("def", "def_static"):
                continue
            a = n.get("a", [])
            if len(a) < 2 or a[0].get("k") != "str":
                continue
            cls = fn.get("clsT") or fn.get("cls") or ""
            owner = ""
            if "class_<" in cls:
                owner = cls.split("class_<", 1)[1].rstrip(">").split(",")[0]
            tgt, lam = None, None
            for m in walk(a[1]):
                if m.get("k") == "fnref" and m.get("f") and "overload_cast" not in m["f"].get("qn", ""):
                    tgt = m["f"]
                    break
                if m.get("k") == "lambda":
                    lam = m
                    break
            extra = []
            for x in a[2:]:
                txt = str(x.get("t", ""))
                if "arg_v" in txt:
                    extra.append(True)
            out.append(Bind(owner, a[0]["v"], tgt, n.get("l"), lam, extra))
    return out
