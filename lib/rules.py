"""Programs that keep or break the static rules (spec/Static.tla): random well-formed programs and
random changes to them.  Whether a changed program is still well-formed is for the specification
to say."""
import copy

INTS = ["sbyte", "short", "int", "long", "byte", "ushort", "uint", "ulong"]
SIGNED = INTS[:4]
SIZE = dict(sbyte=1, byte=1, short=2, ushort=2, int=4, uint=4, long=8, ulong=8)
SUF = dict(int="", long="L", uint="U", ulong="UL")
ERR = ["Exception", "SystemException", "NullReferenceException"]


def N(k, **d):
    d["k"] = k
    return d


def lit(t, v):
    return N("lit", t=t, v=v)


class Rules:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.types = []
        self.shape()

    # ---- the types
    def name(self, pre):
        self.k += 1
        return "%s%d" % (pre, self.k)

    def type(self, name, kind, base="", ifaces=(), abstract=False):
        d = dict(name=name, kind=kind, base=base, ifaces=list(ifaces), abstract=abstract, items=[], members=[])
        self.types.append(d)
        return d

    def member(self, d, k, name, t, params=(), access="public", static=False, virt="", body=None):
        m = dict(k=k, name=name, t=t, params=[dict(n=n, t=pt, m=pm) for n, pt, pm in params], access=access,
                 static=static, virt=virt, body=body)
        d["members"].append(m)
        return m

    def vtypes(self):
        return ["int", "int", "int", "long", "byte", "bool", "string", "short", "uint"] + \
            [d["name"] for d in self.types if d["kind"] != "enum"] * 2

    def shape(self):
        r = self.r
        en = self.type("En", "enum")
        en["items"] = ["P", "Q", "R"][:r.randrange(1, 4)]
        for i in range(r.randrange(1, 3)):
            d = self.type("I%d" % i, "interface", ifaces=["I0"] if i and r.random() < .5 else [])
            for _ in range(r.randrange(1, 3)):
                self.member(d, "method", self.name("Z"), r.choice(["int", "void", "bool"]),
                            [(self.name("p"), r.choice(["int", "string", "long"]), "")
                             for _ in range(r.randrange(0, 3))])
        for i in range(r.randrange(2, 5)):
            kind = "struct" if i == 1 and r.random() < .5 else "class"
            bases = [d for d in self.types if d["kind"] == "class"]
            base = r.choice(bases)["name"] if bases and kind == "class" and r.random() < .6 else ""
            d = self.type("T%d" % i, kind, base, abstract=kind == "class" and r.random() < .2)
        self.classes = [d for d in self.types if d["kind"] in ("class", "struct")]
        if r.random() < .5:
            self.type("Oops", "class", "Exception")
        self.prog = self.type("Program", "class")
        todo = []
        for d in self.classes:
            for _ in range(r.randrange(1, 4)):
                self.member(d, "field", self.name("f"), r.choice(self.ftypes(d)), access=self.access())
            if d["kind"] == "class" and r.random() < .4:
                self.member(d, "prop", self.name("P"), r.choice(["int", "bool", "string"]))
            if r.random() < .3 and not d["abstract"]:
                for n in r.sample(range(3), r.choice([1, 2])):
                    if n or d["kind"] == "class":
                        todo.append((d, self.member(d, "ctor", ".ctor", "void", self.params(n),
                                                    access="public")))
            if d["kind"] == "class" and r.random() < .3:
                # the program never makes one without arguments then
                pass
            for _ in range(r.randrange(1, 4)):
                st = r.random() < .3
                virt = "" if st or d["kind"] != "class" else r.choice(
                    ["", "", "virtual", "abstract" if d["abstract"] else ""])
                acc = self.access() if not virt else r.choice(["public", "public", "protected"])
                m = self.member(d, "method", self.name("M"), self.ret(), self.params(r.randrange(0, 4)),
                                acc, st, virt)
                if virt != "abstract":
                    todo.append((d, m))
            if r.random() < .4:                 # overloads
                n, st = self.name("O"), r.random() < .5
                for t in r.sample(["int", "bool", "string", "long"], r.randrange(2, 4)):
                    todo.append((d, self.member(d, "method", n, self.ret(), [(self.name("p"), t, "")],
                                                "public", st)))
            over = {}
            for c in self.above(d):
                for m in c["members"]:
                    if m["virt"] in ("virtual", "abstract"):
                        over[m["name"]] = m
            for m in over.values():
                if r.random() < .5:
                    todo.append((d, self.member(
                        d, "method", m["name"], m["t"],
                        [(self.name("p"), q["t"], q["m"]) for q in m["params"]], m["access"], False, "override")))
        for _ in range(r.randrange(2, 5)):
            ps = self.params(r.randrange(0, 4))
            if r.random() < .3:
                ps.append((self.name("p"), "int", "ref"))
            todo.append((self.prog, self.member(self.prog, "method", self.name("S"), self.ret(), ps, "public",
                                                True)))
        for d, m in todo:
            m["body"] = self.body(d, m)
        for d in self.types:
            r.shuffle(d["members"])
        m = self.member(self.prog, "method", "Main", "void", (), "public", True)
        m["body"] = N("block", b=[N("raw", txt='Console.WriteLine("start");')])
        r.shuffle(self.types)

    def ftypes(self, d):
        return ["int", "int", "long", "bool", "string", "int[]"] + \
            [c["name"] for c in self.types if c["kind"] == "class" or c["kind"] == "interface"]

    def access(self):
        return self.r.choice(["public", "public", "public", "private", "protected", ""])

    def ret(self):
        return self.r.choice(["void", "int", "int", "long", "bool", "string"] +
                             [d["name"] for d in self.classes if d["kind"] == "class"])

    def params(self, n):
        return [(self.name("p"), self.r.choice(self.vtypes()), "") for _ in range(n)]

    def get(self, t):
        for d in self.types:
            if d["name"] == t:
                return d

    def above(self, d):
        res = []
        while d and d["base"] and self.get(d["base"]):
            d = self.get(d["base"])
            res.append(d)
        return res

    def supers(self, t):
        d = self.get(t)
        if d is None:
            return {t}
        res = {t}
        for s in [d["base"]] + d["ifaces"]:
            if s:
                res |= self.supers(s)
        return res

    # ---- bodies
    def body(self, d, m):
        self.cls, self.meth = d, m
        self.vars = [[(q["n"], q["t"]) for q in m["params"]]]
        self.loops = 0
        b = self.stmts(3, 2)
        if m["t"] != "void" and not self.leaves(b):
            b.append(self.last(m["t"], 2))
        return N("block", b=b)

    def last(self, t, d):
        """A statement that does not complete."""
        r, k = self.r, self.r.random()
        if d <= 0 or k < .5:
            return N("return", e=self.ex(t, 2))
        if k < .6:
            return N("throw", e=N("new", t=r.choice(ERR), args=[]))
        if k < .75:
            return N("if", c=self.cond(), a=N("block", b=[self.last(t, d - 1)]),
                     b=N("block", b=[self.last(t, d - 1)]))
        if k < .82:
            return N("while", c=lit("bool", "true"), b=N("block", b=[
                N("if", c=self.cond(), a=N("block", b=[self.last(t, d - 1)]), b=None)]))
        if k < .88:
            return N("do", b=N("block", b=[self.last(t, d - 1)]), c=self.cond())
        if k < .94:
            return N("try", b=N("block", b=[self.last(t, d - 1)]),
                     catches=[dict(t="Exception", n="", b=N("block", b=[self.last(t, d - 1)]))],
                     f=N("block", b=[]) if r.random() < .5 else None)
        return N("switch", e=self.varying(), cases=[
            dict(v=[1], dfl=False, b=[self.last(t, d - 1)]), dict(v=[], dfl=True, b=[self.last(t, d - 1)])])

    def path(self, t, d, inloop=False, inswitch=False):
        """A statement that may or may not complete."""
        r = self.r
        k = r.random() if d > 0 else 0
        if k < .3:
            q = r.random()
            if q < .35:
                return N("return", e=self.ex(t, 1))
            if q < .45:
                return N("throw", e=N("new", t=r.choice(ERR), args=[]))
            if q < .6 and (inloop or inswitch):
                return N("break")
            if q < .7 and inloop:
                return N("continue")
            return N("block", b=[])

        def blk(l=inloop, s=inswitch):
            b = []
            for _ in range(r.choice([1, 1, 2])):
                b.append(self.path(t, d - 1, l, s))
                if self.leaves(b):
                    break
            return N("block", b=b)
        if k < .5:
            return N("if", c=self.cond(), a=blk(), b=blk() if r.random() < .75 else None)
        if k < .62:
            return N("while", c=lit("bool", "true") if r.random() < .5 else self.cond(), b=blk(True, False))
        if k < .7:
            return N("do", b=blk(True, False), c=self.cond())
        if k < .82:
            c = [dict(t="Exception", n="", b=blk())]
            if r.random() < .3:
                c.insert(0, dict(t="SystemException", n="", b=blk()))
            return N("try", b=blk(), catches=c, f=N("block", b=[]) if r.random() < .3 else None)
        cs = [dict(v=[i], dfl=False, b=blk(inloop, True)["b"]) for i in range(r.randrange(1, 3))]
        if r.random() < .7:
            cs.append(dict(v=[], dfl=True, b=blk(inloop, True)["b"]))
        for c in cs:
            if not self.leaves(c["b"]):
                c["b"].append(N("break"))
        return N("switch", e=self.varying(), cases=cs)

    def c_paths(self):
        """The body of a method becomes one whose paths may or may not all return."""
        r = self.r
        ms = [(d, m) for d, m in self.members("method") if m["body"] is not None and m["t"] != "void" and
              not any(q["m"] == "out" for q in m["params"])]
        if not ms:
            return None
        d, m = r.choice(ms)
        self.cls, self.meth = d, m
        self.vars = [[(q["n"], q["t"]) for q in m["params"]]]
        self.loops = 0
        b = []
        for _ in range(r.choice([1, 1, 1, 2])):
            b.append(self.path(m["t"], r.choice([2, 3, 3, 4])))
            if self.leaves(b):
                break
        m["body"] = N("block", b=b)
        return True

    def leaves(self, b):
        return bool(b) and b[-1]["k"] in ("return", "throw", "break", "continue")

    def stmts(self, n, d):
        self.vars.append([])
        out = []
        for _ in range(self.r.randrange(1, n + 1)):
            out.append(self.stmt(d))
            if self.leaves(out):
                break
        self.vars.pop()
        return out

    def block(self, d):
        return N("block", b=self.stmts(3, d - 1))

    def stmt(self, d):
        r, k = self.r, self.r.random()
        if d <= 0:
            k *= .6
        if k < .3:
            t = r.choice(self.vtypes() + ["object", "int[]", "En"])
            n = self.name("v")
            if t in ("int", "long", "bool", "string", "byte", "uint") and r.random() < .2:
                s = N("decl", t=t, n=n, e=self.steady(t), con=True)
                self.vars[-1].append((n, "const " + t))
                return s
            e = self.ex(t, 2) if r.random() < .8 else self.narrow(t)
            if r.random() < .12 and e["k"] not in ("null",):
                s = N("var", n=n, e=self.ex(t, 2, exact=True))
            else:
                s = N("decl", t=t, n=n, e=e, con=False)
            self.vars[-1].append((n, t))
            return s
        if k < .45:
            vs = [v for s in self.vars for v in s if not v[1].startswith("const ")]
            if vs:
                n, t = r.choice(vs)
                q = r.random()
                if t in INTS and q < .3:
                    return N("inc", l=N("name", n=n))
                if t in ("int", "long") and q < .5:
                    return N("casg", op=r.choice("+-*"), l=N("name", n=n), e=self.ex(t, 1, exact=True))
                return N("assign", l=N("name", n=n), e=self.ex(t, 2))
        if k < .6:
            c = self.anycall()
            if c:
                return N("expr", e=c)
        if d <= 0:
            return N("empty")
        if k < .72:
            return N("if", c=self.cond(), a=self.block(d), b=self.block(d) if r.random() < .5 else None)
        if k < .8:
            self.loops += 1
            b = self.block(d)
            self.loops -= 1
            q = r.random()
            if q < .4:
                return N("while", c=self.cond(), b=b)
            if q < .6:
                return N("do", c=self.cond(), b=b)
            n = self.name("i")
            self.vars.append([(n, "int")])
            self.loops += 1
            b = self.block(d)
            self.loops -= 1
            s = N("for", i=N("decl", t="int", n=n, e=lit("int", "0"), con=False),
                  c=N("bin", op="<", a=N("name", n=n), b=lit("int", "3")), s=N("inc", l=N("name", n=n)), b=b)
            self.vars.pop()
            return s
        if k < .85:
            cs = []
            for t in r.sample(ERR, r.randrange(1, 3)):
                n = self.name("e") if r.random() < .4 else ""
                self.vars.append([(n, t)] if n else [])
                cs.append(dict(t=t, n=n, b=self.block(d)))
                self.vars.pop()
            return N("try", b=self.block(d), catches=cs, f=N("block", b=[]) if r.random() < .3 else None)
        if k < .89:
            e = self.varying()
            self.vars.append([])
            s = N("switch", e=e, cases=[
                dict(v=[i], dfl=False, b=[self.stmt(0), N("break")]) for i in range(r.randrange(1, 3))])
            self.vars.pop()
            return s
        if k < .92 and self.loops:
            return N("if", c=self.cond(), a=N("block", b=[N(r.choice(["break", "continue"]))]), b=None)
        if k < .95:
            t = self.meth["t"]
            return N("if", c=self.cond(), a=N("block", b=[
                N("return", e=None if t == "void" else self.ex(t, 1))]), b=None)
        return self.block(d) if d > 0 else N("empty")

    # ---- expressions
    def visible(self, t):
        return [N("name", n=n) for s in self.vars for n, vt in s if vt == t]

    def cond(self):
        """A condition that depends on a variable."""
        r = self.r
        vs = [(n, t) for s in self.vars for n, t in s if t in INTS or t == "bool"]
        if not vs:
            c = self.callof("bool", 1)
            return c or N("bin", op="<", a=N("idx", a=N("newarr", t="int[]", e=lit("int", "2")),
                                            i=lit("int", "0")), b=lit("int", "1"))
        n, t = r.choice(vs)
        if t == "bool":
            e = N("name", n=n)
            if r.random() < .3:
                e = N("un", op="!", a=e)
        else:
            e = N("bin", op=r.choice(["<", ">", "<=", ">=", "==", "!="]), a=N("name", n=n), b=self.ex(t, 1, exact=True))
        if r.random() < .3:
            e = N("bin", op=r.choice(["&&", "||"]), a=e, b=self.ex("bool", 1))
        return e

    def steady(self, t):
        """A constant expression."""
        r = self.r
        e = self.ex0(t)
        if t in ("int", "long", "uint") and r.random() < .4:
            cs = self.visible("const " + t)
            e = N("bin", op=r.choice("+*&|^"), a=r.choice(cs) if cs else e, b=self.ex0(t))
        return e

    def ex0(self, t):
        r = self.r
        cs = self.visible("const " + t)
        if cs and r.random() < .3:
            return r.choice(cs)
        if t == "string":
            return lit(t, '"s"')
        if t == "bool":
            return lit(t, r.choice(["true", "false"]))
        n = str(r.randrange(1, 9))
        return N("cast", t=t, a=lit("int", n)) if t == "byte" else lit(t, n + {"int": "", "long": "L", "uint": "U"}[t])

    def c_const(self):
        """A variable becomes a constant or the reverse."""
        x = self.at(lambda n: n["k"] == "decl" and (n["con"] or n["t"] in ("int", "long", "bool", "string", "byte", "uint")))
        if x:
            n = x[0][x[1]]
            n["con"] = not n["con"]
        return x

    def c_setconst(self):
        """A constant is used like a variable."""
        r = self.r
        x = self.at(lambda n: n["k"] == "block" and any(s["k"] == "decl" and s["con"] for s in n["b"]))
        if not x:
            return None
        b = x[0][x[1]]["b"]
        n = r.choice([s for s in b if s["k"] == "decl" and s["con"]])
        l = N("name", n=n["n"])
        q = r.random()
        y = N("assign", l=l, e=self.ex0c(n["t"]))
        if n["t"] in INTS and q < .6:
            y = N("inc", l=l) if q < .3 else N("casg", op="+", l=l, e=self.ex0c(n["t"])) if q < .5 else \
                N("decl", t=n["t"], n=self.name("v"), e=l, con=False)
        i = [j for j, s in enumerate(b) if s is n][0]
        b.insert(r.randrange(i + 1, len(b) + 1), y)
        return x

    def ex0c(self, t):
        self.vars = [[]]
        return self.ex0(t)

    def varying(self):
        """An int that is not a constant."""
        vs = self.visible("int")
        return self.r.choice(vs) if vs else N("idx", a=N("newarr", t="int[]", e=lit("int", "2")), i=lit("int", "0"))

    def narrow(self, t):
        """An expression of a type that converts to t."""
        r = self.r
        c = [u for u in INTS if t in INTS and (u in SIGNED) == (t in SIGNED) and SIZE[u] < SIZE[t]]
        if t == "object":
            c = ["int", "string", "bool"] + [d["name"] for d in self.classes]
        elif self.get(t) and self.get(t)["kind"] in ("class", "interface"):
            c = [d["name"] for d in self.classes if t in self.supers(d["name"]) and d["name"] != t]
        return self.ex(r.choice(c), 2, exact=True) if c else self.ex(t, 2)

    def usable(self, d, m, inst=None):
        if m["access"] == "public":
            return True
        if d is self.cls:
            return True
        return m["access"] == "protected" and d in self.above(self.cls)

    def args(self, m, d):
        out = []
        for q in m["params"]:
            if q["m"]:
                vs = self.visible(q["t"])
                if not vs:
                    return None
                out.append(N("ref", m=q["m"], e=self.r.choice(vs)))
            else:
                over = m["name"].startswith("O")
                out.append(self.ex(q["t"], d - 1, exact=over) if over or self.r.random() < .8 else self.narrow(q["t"]))
        return out

    def calls(self, t):
        """Methods with result t (or any): (how, class, method)."""
        res = []
        for d in self.classes + [self.prog]:
            for m in d["members"]:
                if m["k"] != "method" or t not in (None, m["t"]) or not self.usable(d, m):
                    continue
                own = d is self.cls or d in self.above(self.cls)
                if m["static"]:
                    res.append(("s", d, m))
                    if own:
                        res.append(("c", d, m))
                else:
                    if own and not self.meth["static"]:
                        res.append(("c", d, m))
                    if d is not self.prog:
                        res.append(("m", d, m))
        for d in self.types:
            if d["kind"] == "interface":
                res += [("m", d, m) for m in d["members"] if t in (None, m["t"])]
        return res

    def callof(self, t, dep):
        r = self.r
        c = self.calls(t)
        if not c:
            return None
        how, d, m = r.choice(c)
        a = self.args(m, dep)
        if a is None:
            return None
        if how == "s":
            return N("scall", t=d["name"], n=m["name"], args=a)
        if how == "c":
            return N("call", n=m["name"], args=a)
        o = self.objof(d)
        return N("mcall", o=o, n=m["name"], args=a) if o else None

    def anycall(self):
        return self.callof(None, 2)

    def objof(self, d):
        """An expression whose members are those of d, not null."""
        r = self.r
        c = []
        for s in self.vars:
            for n, t in s:
                if t == d["name"] or d["name"] in self.supers(t) and d["kind"] == "class" and self.get(t):
                    c.append(N("name", n=n))
        if not self.meth["static"] and self.cls is d:
            c.append(N("this"))
        if d["kind"] == "class" and not d["abstract"] and r.random() < .3:
            c.append(self.new(d, 1))
        return r.choice(c) if c else None

    def new(self, d, dep):
        cs = [m for m in d["members"] if m["k"] == "ctor"]
        if not cs:
            return N("new", t=d["name"], args=[])
        m = self.r.choice(cs)
        return N("new", t=d["name"], args=[self.ex(q["t"], dep - 1, exact=True) for q in m["params"]])

    def ex(self, t, d, exact=False):
        """An expression of type t (null for references, unless exact)."""
        r, k = self.r, self.r.random()
        vs = self.visible(t) + self.visible("const " + t)
        if vs and k < .4:
            return r.choice(vs)
        if d > 0 and k < .55:
            c = self.callof(t, d)
            if c:
                return c
        if d > 0 and k < .65:
            fs = [(c, m) for c in self.classes for m in c["members"]
                  if m["k"] in ("field", "prop") and m["t"] == t and self.usable(c, m)]
            if fs:
                c, m = r.choice(fs)
                o = self.objof(c)
                if o and (o["k"] != "new"):
                    return N("fld", o=o, n=m["name"])
        if t in INTS:
            if d > 0 and k < .8 and t in ("int", "long", "uint"):
                op = r.choice(["+", "-", "*", "&", "|", "^"])
                a, b = self.ex(t, d - 1, True), self.ex(t, d - 1, True)
                if t == "long" and r.random() < .4:
                    b = self.ex(r.choice(["int", "byte", "uint"]), d - 1, True)
                return N("bin", op=op, a=a, b=b)
            if d > 0 and k < .9 and t == "int":
                av = self.visible("int[]")
                if av:
                    return N("idx", a=r.choice(av), i=self.ex("int", d - 1, True))
            if t in SUF and k < .95:
                return lit(t, str(r.randrange(0, 9)) + SUF[t])
            return N("cast", t=t, a=self.ex(r.choice(["int", "long"]), d - 1, True))
        if t == "bool":
            if d > 0 and k < .9:
                u = r.choice(["int", "int", "long"])
                if r.random() < .7:
                    return N("bin", op=r.choice(["<", ">", "==", "!="]), a=self.ex(u, d - 1, True),
                             b=self.ex(u, d - 1, True))
                return N("bin", op=r.choice(["&&", "||"]), a=self.ex("bool", d - 1), b=self.ex("bool", d - 1))
            return lit("bool", r.choice(["true", "false"]))
        if t == "string":
            return lit("string", '"s"')
        if t == "object":
            return self.ex(r.choice(["int", "string", "bool"]), d, True)
        if t == "int[]":
            return N("newarr", t="int[]", e=lit("int", str(r.randrange(1, 5))))
        if t == "En":
            return N("item", t="En", n=r.choice(self.get("En")["items"]))
        dd = self.get(t)
        if dd is None:
            return N("new", t=t, args=[])
        if not exact and dd["kind"] != "struct" and k > .8:
            return N("null")
        if dd["kind"] in ("class", "struct") and not dd["abstract"] and d > -2:
            return self.new(dd, d)
        return N("cast", t=t, a=N("null")) if dd["kind"] == "interface" and 0 else N("null")

    # ---- changes
    def nodes(self, keys=None):
        """Every place of the program that holds a node: (holder, key)."""
        res = []

        def walk(n):
            for key, v in list(n.items()):
                if isinstance(v, dict) and "k" in v:
                    res.append((n, key))
                    walk(v)
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if isinstance(x, dict) and "k" in x:
                            res.append((v, i))
                            walk(x)
                        elif isinstance(x, dict):
                            walk(x)
        for d in self.types:
            for m in d["members"]:
                if m["body"] and m["name"] != "Main":
                    self.host = (d, m)
                    walk(m["body"])
        return res

    EXPR = {"lit", "null", "this", "name", "bin", "un", "cast", "call", "scall", "mcall", "fld", "new",
            "newarr", "idx", "item"}

    def members(self, *ks):
        return [(d, m) for d in self.types for m in d["members"] if m["k"] in ks and m["name"] != "Main"]

    def at(self, pred):
        c = [(h, k) for h, k in self.nodes() if pred(h[k])]
        return self.r.choice(c) if c else None

    def scrap(self):
        """An expression of any type."""
        r = self.r
        self.vars, self.cls, self.meth = [[]], self.prog, dict(static=True, t="void")
        t = r.choice(["int", "long", "bool", "string", "byte", "uint", "ulong"] +
                     [d["name"] for d in self.classes])
        return self.ex(t, r.choice([0, 0, 1]), True)

    def change(self):
        """Changes one thing; returns what."""
        r = self.r
        for _ in range(50):
            k = r.choice(["paths"] * 4 + ["expr", "expr", "expr", "name", "name", "callee", "args", "args", "access", "access", "reach", "reach", "const", "setconst", "setconst",
                          "type", "vtype", "drop", "drop", "override", "dup", "base", "op", "op", "ref",
                          "undtype", "retval", "field", "item", "scope", "scope", "static", "unop", "inc"])
            if getattr(self, "c_" + k)():
                return k
        return ""

    def c_expr(self):
        x = self.at(lambda n: n["k"] in self.EXPR)
        if x:
            x[0][x[1]] = self.scrap()
        return x

    def c_name(self):
        x = self.at(lambda n: n["k"] == "name")
        if x:
            x[0][x[1]] = N("name", n=self.r.choice(["undef", "v9999", self.r.choice(self.allnames())]))
        return x

    def allnames(self):
        res = ["zz"]
        for h, k in self.nodes():
            n = h[k]
            if n["k"] in ("decl", "var"):
                res.append(n["n"])
        for d, m in self.members("method", "ctor"):
            res += [q["n"] for q in m["params"]]
        return res

    def c_scope(self):
        """Uses a variable after the end of its block."""
        r = self.r
        x = self.at(lambda n: n["k"] == "block" and n["b"] and
                    any(s["k"] in ("if", "while", "do", "for", "try", "block") for s in n["b"]))
        if not x:
            return None
        blk = x[0][x[1]]["b"]
        i = r.choice([j for j, s in enumerate(blk) if s["k"] in ("if", "while", "do", "for", "try", "block")])
        inner = []

        def walk(n):
            if n.get("k") in ("decl", "var"):
                inner.append(n["n"])
            for v in n.values():
                for y in v if isinstance(v, list) else [v]:
                    if isinstance(y, dict):
                        if "n" in y and "k" not in y and "t" in y and y["n"] and "b" in y:
                            inner.append(y["n"])
                        walk(y)
        walk(blk[i])
        if not inner:
            return None
        blk.insert(i + 1, N("decl", t="object", n=self.name("v"), e=N("name", n=r.choice(inner)), con=False))
        return x

    def c_callee(self):
        x = self.at(lambda n: n["k"] in ("call", "scall", "mcall"))
        if x:
            n = x[0][x[1]]
            names = [m["name"] for _, m in self.members("method")]
            n["n"] = self.r.choice(["Nope", self.r.choice(names)])
        return x

    def c_args(self):
        r = self.r
        x = self.at(lambda n: n["k"] in ("call", "scall", "mcall", "new"))
        if x:
            a = x[0][x[1]]["args"]
            q = r.random()
            if q < .3 or not a:
                a.insert(r.randrange(len(a) + 1), self.scrap())
            elif q < .5:
                a.pop(r.randrange(len(a)))
            elif q < .7 and len(a) > 1:
                i, j = r.sample(range(len(a)), 2)
                a[i], a[j] = a[j], a[i]
            else:
                a[r.randrange(len(a))] = self.scrap()
        return x

    def c_access(self):
        ms = [m for d, m in self.members("field", "method", "prop")
              if d["kind"] != "interface" and m["virt"] == ""]
        if not ms:
            return None
        m = self.r.choice(ms)
        if m["k"] == "prop":
            return None
        m["access"] = self.r.choice(["private", "protected", "private", "", "public"])
        return True

    def c_reach(self):
        """A method of one type uses a member of another: derived, base, sibling or unrelated."""
        r = self.r
        cs = [d for d in self.types if d["kind"] in ("class", "struct")]
        fam = [d for d in cs if self.above(d)] + [d for d in cs if any(d in self.above(x) for x in cs)]
        cs = fam if len(fam) > 1 and r.random() < .7 else cs
        c, d = r.choice(cs), r.choice(cs)
        ms = [m for m in d["members"] if m["k"] in ("field", "method") and m["virt"] == "" and
              m["name"] != "Main" and not any(q["m"] for q in m["params"])]
        if not ms:
            return None
        m = r.choice(ms)
        if r.random() < .8:
            m["access"] = r.choice(["private", "protected", "protected", "", "public"])
        xt = r.choice([x["name"] for x in self.types if x is d or x in cs and d in self.above(x)])
        self.cls, self.meth, self.vars = self.prog, dict(static=True, t="void"), [[]]
        if m["k"] == "field":
            e = N("fld", o=N("name", n="x"), n=m["name"])
        else:
            a = [self.ex(q["t"], 1, True) for q in m["params"]]
            e = N("scall", t=d["name"], n=m["name"], args=a) if m["static"] else \
                N("mcall", o=N("name", n="x"), n=m["name"], args=a)
        w = self.member(c, "method", self.name("Rch"), "void", [("x", xt, "")], static=r.random() < .5)
        st = N("expr", e=e) if m["k"] == "method" else N("var", n="y", e=e) if r.random() < .5 else \
            N("assign", l=e, e=self.ex(m["t"], 1))
        w["body"] = N("block", b=[st])
        return True

    def c_type(self):
        """Another type for a field, a result or a parameter."""
        r = self.r
        d, m = r.choice(self.members("field", "method", "ctor"))
        t = r.choice([u for u in self.vtypes() if u != "Program"])
        if m["k"] != "ctor" and (r.random() < .6 or not m["params"]):
            m["t"] = t
        elif m["params"]:
            r.choice(m["params"])["t"] = t
        return True

    def c_vtype(self):
        x = self.at(lambda n: n["k"] == "decl")
        if x:
            x[0][x[1]]["t"] = self.r.choice(self.vtypes() + ["object", "int[]", "ulong"])
        return x

    def c_undtype(self):
        r = self.r
        q = r.random()
        if q < .3:
            x = self.at(lambda n: n["k"] in ("new", "scall"))
            if x:
                x[0][x[1]]["t"] = "Nil"
            return x
        if q < .5:
            x = self.at(lambda n: n["k"] == "decl")
            if x:
                x[0][x[1]]["t"] = "Nil"
            return x
        d, m = r.choice(self.members("field", "method", "ctor"))
        if m["params"] and q < .75:
            r.choice(m["params"])["t"] = "Nil"
        elif m["k"] == "ctor":
            return None
        else:
            m["t"] = "Nil"
        return True

    def c_drop(self):
        """Removes a statement or an else branch."""
        r = self.r
        q = r.random()
        if q < .3:
            x = self.at(lambda n: n["k"] == "if" and n["b"] is not None)
            if x:
                x[0][x[1]]["b"] = None
            return x
        x = self.at(lambda n: n["k"] == "block" and n["b"])
        if x:
            b = x[0][x[1]]["b"]
            b.pop(len(b) - 1 if q < .8 else r.randrange(len(b)))
        return x

    def c_retval(self):
        r = self.r
        x = self.at(lambda n: n["k"] == "return")
        if x:
            n = x[0][x[1]]
            n["e"] = None if n["e"] is not None and r.random() < .5 else self.scrap()
        return x

    def c_override(self):
        r = self.r
        ms = [(d, m) for d, m in self.members("method") if m["virt"]]
        if not ms:
            return None
        d, m = r.choice(ms)
        q = r.random()
        if q < .2:
            m["virt"] = r.choice(["", "virtual", "override"])
            if m["body"] is None:
                m["virt"] = "abstract"
                return None
        elif q < .35:
            m["name"] = self.name("M")
        elif q < .5:
            if m["params"]:
                r.choice(m["params"])["t"] = r.choice(["int", "long", "bool"])
            else:
                m["params"].append(dict(n=self.name("p"), t="int", m=""))
        elif q < .65:
            m["t"] = r.choice(["int", "void", "long"])
        elif q < .75:
            if m["virt"] == "override":
                return None
            m["access"] = "private"
        elif q < .85:
            m["static"] = True
        else:
            d["abstract"] = not d["abstract"]
        return True

    def c_static(self):
        ms = [(d, m) for d, m in self.members("method") if d is not self.prog and d["kind"] != "interface"]
        if not ms:
            return None
        d, m = self.r.choice(ms)
        m["static"] = not m["static"]
        return True

    def c_dup(self):
        r = self.r
        q = r.random()
        if q < .3:
            ms = [(d, m) for d, m in self.members("field", "method") if m["virt"] != "override"]
            d, m = r.choice(ms)
            m2 = copy.deepcopy(m)
            if r.random() < .5 and m["k"] == "method":
                if m["params"] and r.random() < .5:
                    r.choice(m2["params"])["t"] = r.choice(["int", "bool", "long"])
                elif m["t"] != "void":
                    pass
            d["members"].append(m2)
            if m["k"] == "field" and r.random() < .5:
                m2["t"] = r.choice(["int", "bool"])
        elif q < .5:
            ms = [m for _, m in self.members("method", "ctor") if len(m["params"]) > 1]
            if not ms:
                return None
            m = r.choice(ms)
            a, b = r.sample(m["params"], 2)
            a["n"] = b["n"]
        elif q < .7:
            d = self.get("En")
            d["items"].append(r.choice(d["items"] + ["W"]))
        elif q < .85:
            d = r.choice([x for x in self.types if x is not self.prog])
            self.types.append(dict(name=d["name"], kind="class", base="", ifaces=[], abstract=False, items=[],
                                   members=[]))
        else:
            d, m = r.choice([x for x in self.members("field") if x[0]["kind"] == "class"] or [(None, None)])
            if not m:
                return None
            self.member(d, "method", m["name"], "void", body=N("block", b=[]))
        return True

    def c_base(self):
        r = self.r
        c = [d for d in self.types if d["kind"] == "class" and d is not self.prog]
        d = r.choice(c)
        if r.random() < .15 and d["kind"] == "class":
            d["base"] = "Nil"
            return True
        d["base"] = r.choice(c)["name"]
        return True

    def c_op(self):
        x = self.at(lambda n: n["k"] == "bin")
        if x:
            x[0][x[1]]["op"] = self.r.choice(["+", "-", "*", "<", "==", "&&", "||", "&", ">="])
        return x

    def c_unop(self):
        x = self.at(lambda n: n["k"] in self.EXPR)
        if x:
            x[0][x[1]] = N("un", op=self.r.choice("-~!"), a=x[0][x[1]])
        return x

    def c_inc(self):
        x = self.at(lambda n: n["k"] in ("inc", "casg"))
        if x:
            n = x[0][x[1]]
            if n["k"] == "casg":
                n["e"] = self.scrap()
            else:
                n["l"] = N("name", n=self.r.choice(self.allnames()))
        return x

    def c_ref(self):
        r = self.r
        x = self.at(lambda n: n["k"] == "ref")
        if x:
            n = x[0][x[1]]
            q = r.random()
            if q < .4:
                x[0][x[1]] = n["e"]
            elif q < .7:
                n["e"] = lit("int", "3")
            else:
                n["e"] = N("name", n=r.choice(self.allnames()))
        return x

    def c_field(self):
        x = self.at(lambda n: n["k"] == "fld")
        if x:
            names = [m["name"] for _, m in self.members("field", "prop")]
            x[0][x[1]]["n"] = self.r.choice(["nope", self.r.choice(names)])
        return x

    def c_item(self):
        x = self.at(lambda n: n["k"] == "item")
        if x:
            x[0][x[1]]["n"] = self.r.choice(["P", "Q", "R", "Z"])
        return x

    # ---- output
    def source(self):
        ls = ["import System;", "using System;"]
        for d in self.types:
            ls += self.rtype(d)
        return "\n".join(ls) + "\n"

    def libsource(self):
        return None

    def rtype(self, d):
        if d["kind"] == "enum":
            return ["enum %s { %s }" % (d["name"], ", ".join(d["items"]))]
        inh = ([d["base"]] if d["base"] else []) + d["ifaces"]
        ls = ["%s%s %s%s" % ("abstract " if d["abstract"] else "", d["kind"], d["name"],
                             " : " + ", ".join(inh) if inh else ""), "{"]
        for m in d["members"]:
            acc = "" if d["kind"] == "interface" or not m["access"] else m["access"] + " "
            if m["k"] == "field":
                ls.append("  %s%s %s;" % (acc, m["t"], m["name"]))
                continue
            if m["k"] == "prop":
                ls.append("  %s%s %s { get; set; }" % (acc, m["t"], m["name"]))
                continue
            ps = ", ".join((q["m"] + " " if q["m"] else "") + q["t"] + " " + q["n"] for q in m["params"])
            if m["k"] == "ctor":
                h = "%s%s(%s)" % (acc, d["name"], ps)
            else:
                h = "%s%s%s%s %s(%s)" % (acc, "static " if m["static"] else "",
                                         m["virt"] + " " if m["virt"] else "", m["t"], m["name"], ps)
            if m["name"] == "Main":
                ls.append("  [EntryPoint]")
            if m["body"] is None:
                ls.append("  " + h + ";")
            else:
                ls += ["  " + h] + ["  " + x for x in self.rst(m["body"])]
        return ls + ["}"]

    def rx(self, n):
        k = n["k"]
        if k == "lit":
            return n["v"]
        if k in ("null", "this"):
            return k
        if k == "name":
            return n["n"]
        if k == "bin":
            return "%s %s %s" % (self.rp(n["a"]), n["op"], self.rp(n["b"]))
        if k == "un":
            return "%s(%s)" % (n["op"], self.rx(n["a"]))
        if k == "cast":
            return "(%s)(%s)" % (n["t"], self.rx(n["a"]))
        if k in ("call", "scall", "mcall"):
            pre = "" if k == "call" else n["t"] + "." if k == "scall" else self.ro(n["o"]) + "."
            return "%s%s(%s)" % (pre, n["n"], ", ".join(self.rx(a) for a in n["args"]))
        if k == "ref":
            return "%s %s" % (n["m"], self.rx(n["e"]))
        if k == "fld":
            return "%s.%s" % (self.ro(n["o"]), n["n"])
        if k == "new":
            return "new %s(%s)" % (n["t"], ", ".join(self.rx(a) for a in n["args"]))
        if k == "newarr":
            return "new %s%s]" % (n["t"][:-1], self.rx(n["e"]))
        if k == "idx":
            return "%s[%s]" % (self.rp(n["a"]), self.rx(n["i"]))
        if k == "item":
            return "%s.%s" % (n["t"], n["n"])
        raise KeyError(k)

    def rp(self, n):
        s = self.rx(n)
        return s if n["k"] in ("name", "lit", "this", "fld", "idx", "item") and not s.startswith("-") \
            else "(%s)" % s

    def ro(self, n):
        return "(%s)" % self.rx(n) if n["k"] == "lit" else self.rp(n)

    def rst(self, n):
        k = n["k"]
        if k == "raw":
            return [n["txt"]]
        if k == "block":
            return ["{"] + ["  " + l for s in n["b"] for l in self.rst(s)] + ["}"]
        if k == "decl":
            return ["%s%s %s = %s;" % ("const " if n["con"] else "", n["t"], n["n"], self.rx(n["e"]))]
        if k == "var":
            return ["var %s = %s;" % (n["n"], self.rx(n["e"]))]
        if k == "assign":
            return ["%s = %s;" % (self.rx(n["l"]), self.rx(n["e"]))]
        if k == "casg":
            return ["%s %s= %s;" % (self.rx(n["l"]), n["op"], self.rx(n["e"]))]
        if k == "inc":
            return ["%s++;" % self.rx(n["l"])]
        if k == "expr":
            return [self.rx(n["e"]) + ";"]
        if k == "if":
            return ["if (%s)" % self.rx(n["c"])] + self.rst(n["a"]) + \
                (["else"] + self.rst(n["b"]) if n["b"] else [])
        if k == "while":
            return ["while (%s)" % self.rx(n["c"])] + self.rst(n["b"])
        if k == "do":
            return ["do"] + self.rst(n["b"]) + ["while (%s);" % self.rx(n["c"])]
        if k == "for":
            return ["for (%s %s; %s)" % (self.rst(n["i"])[0], self.rx(n["c"]), self.rst(n["s"])[0][:-1])] + \
                self.rst(n["b"])
        if k == "switch":
            ls = ["switch (%s)" % self.rx(n["e"]), "{"]
            for c in n["cases"]:
                ls += ["  case %d:" % v for v in c["v"]] + (["  default:"] if c["dfl"] else [])
                ls += ["    " + l for s in c["b"] for l in self.rst(s)]
            return ls + ["}"]
        if k == "return":
            return ["return %s;" % self.rx(n["e"]) if n["e"] else "return;"]
        if k == "throw":
            return ["throw %s;" % self.rx(n["e"])]
        if k == "try":
            ls = ["try"] + self.rst(n["b"])
            for c in n["catches"]:
                ls += ["catch (%s%s)" % (c["t"], " " + c["n"] if c["n"] else "")] + self.rst(c["b"])
            return ls + (["finally"] + self.rst(n["f"]) if n["f"] else [])
        if k in ("break", "continue"):
            return [k + ";"]
        return [";"]

    module = "StaticTrace"

    @staticmethod
    def view(trace):
        """Refused: a message instead of the program's first line, and nothing that the program prints."""
        if trace and trace[0].startswith("* warning ") and "start" in trace:
            trace = trace[list(trace).index("start"):]
        if len(trace) == 1 and trace[0].startswith("<compile error ") or \
                len(trace) == 2 and trace[0] != "start" and trace[1] == "<internal error>":
            return ["<refused>"]
        return list(trace)

    def table(self):
        nodes = []

        def put(n):
            if n is None:
                return 0
            d = {}
            for key, v in n.items():
                if isinstance(v, dict) and "k" in v:
                    d[key] = put(v)
                elif v is None:
                    d[key] = 0
                elif isinstance(v, list):
                    d[key] = [put(x) if isinstance(x, dict) and "k" in x else
                              sub(x) if isinstance(x, dict) else x for x in v]
                else:
                    d[key] = v
            nodes.append(d)
            return len(nodes)

        def sub(x):
            return {a: put(b) if isinstance(b, dict) and "k" in b else
                    [put(y) for y in b] if isinstance(b, list) and a == "b" else b for a, b in x.items()}

        types = []
        for d in self.types:
            e = dict(d)
            e["members"] = [dict(m, body=put(m["body"])) for m in d["members"]]
            types.append(e)
        return dict(types=types, nodes=nodes or [dict(k="empty")], arrs=[dict(n="int[]", e="int")])


def gen_rules(r, tier):
    from harness import Case
    out = []
    for _ in range(1200 if tier == "quick" else 6000):
        g = Rules(r)
        what = g.change() if r.random() < .75 else ""
        if r.random() < .1:
            what += " " + g.change()
        c = Case(g, (r.choice([0, 1, 2, 3]),))
        c.what = what
        out.append(c)
    return out
