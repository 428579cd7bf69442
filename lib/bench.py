"""Helpers shared by the generators: values, and operands stored in every kind of place."""
from lang import *


def values(t, r):
    """A value of type t: a boundary value, a small one or any."""
    lo, hi = rng(t)
    if t == "char":
        return r.choice([32, 48, 65, 90, 97, 122, 126])
    k = r.randrange(10)
    if k < 3:
        return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, 2] + ([-1, -2] if lo < 0 else []))
    if k < 5:
        return max(lo, min(hi, r.randrange(-9, 10) if lo < 0 else r.randrange(0, 10)))
    if k < 7:
        b = r.randrange(WIDTH[t])
        v = (1 << b) + r.choice([-1, 0, 0, 1])
        if lo < 0 and r.random() < .5:
            v = -v
        return max(lo, min(hi, v))
    if k < 8:                               # edges of the narrower types
        w = r.choice([8, 16, 32])
        v = r.choice([(1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1, 1 << w, (1 << w) + 1])
        if lo < 0 and r.random() < .5:
            v = -v
        return max(lo, min(hi, v))
    return r.randrange(lo, hi + 1)


def conv(t, v):
    """v reduced to type t."""
    w = WIDTH[t]
    v &= (1 << w) - 1
    return v - (1 << w) if t in SIGNED and v >> (w - 1) else v


def defined(op, t1, v1, t2, v2):
    if op in ("/", "%"):
        t = promote2(t1, t2)
        a, b = conv(t, v1), conv(t, v2)
        return b != 0 and not (t in SIGNED and b == -1 and a == rng(t)[0])
    if op in ("<<", ">>"):
        return 0 <= v2 < WIDTH[promote1(t1)]
    return True


PLACES = ["local", "const", "arg", "refarg", "field", "elem", "sfield", "call", "elem2", "afield", "cond"]
RVALUES = ("const", "call", "cond")      # places that cannot be assigned to


class Bench:
    """A program with a method T whose statements use operands in chosen places."""

    def __init__(self, r, tag=""):
        self.r = r
        self.p = Prog(tag)
        self.t = self.p.static("T")
        self.pre, self.stm, self.args, self.mpre = [], [], [], []
        self.box = self.bx = self.st = self.sx = self.hx = None
        self.ids, self.arrs = {}, {}
        self.n = 0

    def name(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def local(self, t, e):
        v = self.t.local(self.name("v"), t)
        self.pre.append(decl(v, e))
        return v

    def param(self, t, e, mode=""):
        n = self.name("p")
        self.t.names.add(n)
        # parameters must be the first slots: they are created before any local
        v = var(n, None, t)
        self.t.params.append((n, t, mode, v))
        if mode:
            mv = self.p.main.local(self.name("m"), t)
            self.mpre.append(decl(mv, e))
            self.args.append(refarg(mv, mode))
        else:
            self.args.append(e)
        return v

    def place(self, t, v, kind):
        """An expression of type t with value v, read from the given kind of place."""
        e = lit(t, v)
        if kind == "const":
            return e
        if kind == "local":
            return self.local(t, e)
        if kind == "arg":
            return self.param(t, e)
        if kind == "refarg":
            return self.param(t, e, "ref")
        if kind == "call":
            if t not in self.ids:
                m = self.p.static("Id_" + t, t, [("x", t)])
                m.body = block([return_(m.p(0))])
                self.ids[t] = m
            return Prog.call(self.ids[t], [e])
        if kind == "cond":
            y = self.r.random() < .5
            c = lit("bool", y) if self.r.random() < .3 else \
                binop("<", self.local("int", lit("int", 1 if y else 3)), lit("int", 2))
            o = lit(t, values(t, self.r))
            x = self.local(t, e) if self.r.random() < .6 else e
            return paren(cond(c, x, o) if y else cond(c, o, x))
        if kind == "field":
            if self.box is None:
                self.box = self.p.cls("Box")
                self.bx = self.local("Box", Prog.new(self.box))
            f = self.name("f")
            self.box.field(f, t)
            x = self.box.f(self.bx, f)
            self.pre.append(expr(asg(x, e)))
            return x
        if kind in ("sfield", "afield"):
            if self.st is None:
                self.st = self.p.struct("Rec")
                self.sx = self.local("Rec", Prog.new(self.st))
                a = self.local("Rec[]", newarr("Rec", [lit("int", 3)]))
                self.hx = idx(a, [lit("int", 1)], "Rec")
            f = self.name("g")
            self.st.field(f, t)
            x = self.st.f(self.sx if kind == "sfield" else self.hx, f)
            self.pre.append(expr(asg(x, e)))
            return x
        if kind in ("elem", "elem2"):
            key = (t, kind)
            if key not in self.arrs:
                ds = [40] if kind == "elem" else [5, 8]
                a = self.local(t + ("[]" if kind == "elem" else "[,]"),
                               newarr(t, [lit("int", d) for d in ds]))
                self.arrs[key] = [a, 0]
            a, i = self.arrs[key]
            self.arrs[key][1] = (i + 1) % 40
            ix = [lit("int", i)] if kind == "elem" else [lit("int", i // 8), lit("int", i % 8)]
            x = idx(a, ix, t)
            self.pre.append(expr(asg(x, e)))
            return x
        raise ValueError(kind)

    def add(self, s):
        """The statement, preceded by whatever its operands needed."""
        self.stm += self.pre
        self.pre = []
        self.stm.append(s)

    def done(self):
        t = self.t
        # renumber: parameters first, then locals
        k = len(t.params)
        old = t.st
        for i, (_, ty, _, v) in enumerate(t.params):
            v.d["i"] = i + 1
        shift = {}

        def fix(x):
            if isinstance(x, (X, St)):
                if id(x.d) in shift:
                    return
                shift[id(x.d)] = x
                for key, v in x.d.items():
                    fix(v)
            elif isinstance(x, list):
                for v in x:
                    fix(v)
            elif isinstance(x, dict):
                for v in x.values():
                    fix(v)
        params = {id(v.d) for _, _, _, v in t.params}
        body = self.stm + self.pre
        fix(body)
        for x in shift.values():
            if id(x.d) in params:
                continue
            if x.d.get("k") == "var" or x.d.get("k") == "decl":
                x.d["i"] += k
            if x.d.get("k") == "try":
                for c in x.d["catches"]:
                    if c["slot"]:
                        c["slot"] += k
        t.st = [ty for _, ty, _, _ in t.params] + old
        t.body = block(body)
        self.p.main.body = block(self.mpre + [expr(Prog.call(t, self.args))])
        return self.p
