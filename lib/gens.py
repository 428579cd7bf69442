"""Program generators, one function per property: gen(rng, tier) -> list of Case."""
import itertools
from lang import *
from bench import *
from fuzz import Fuzz, ends, EXC
from world import World
from harness import Case
from rules import gen_rules            # noqa: F401

ARITH = ["+", "-", "*", "/", "%", "&", "|", "^"]
SHIFT = ["<<", ">>"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
OPTS = (0, 1, 2, 3)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


# ---------------------------------------------------------------- C01 arithmetic
def gen_arith(r, tier):
    cases = []
    jobs = []
    reps = 3 if tier == "quick" else 12
    for op in ARITH + SHIFT + CMP:
        for t1, t2 in itertools.product(INTS, INTS):
            for _ in range(reps):
                jobs.append((op, t1, t2))
    for op in ("-", "+", "~"):
        for t in INTS:
            if op == "-" and t == "ulong":
                continue
            for _ in range(reps * 2):
                jobs.append((op, t, None))
    for t in INTS:                                       # ++ and --, compound assignment
        for _ in range(reps * 4):
            jobs.append(("inc", t, None))
        for u in INTS:
            for op in ARITH + SHIFT:
                if widens(promote2(t, u), t):
                    for _ in range(reps):
                        jobs.append((op + "=", t, u))
    r.shuffle(jobs)
    for ch in chunks(jobs, 60):
        b = Bench(r)
        for op, t1, t2 in ch:
            v1 = values(t1, r)
            p1 = r.choice(PLACES)
            if t2 is None:
                x = b.place(t1, v1, p1 if op != "inc" or p1 not in RVALUES else "local")
                if op == "inc":
                    b.add(write(inc(x, r.random() < .5, r.random() < .5)))
                    b.add(write(x))
                else:
                    b.add(write(un(op, paren(x) if p1 == "const" else x)))
                continue
            o = op[:-1] if op.endswith("=") and op not in CMP else op
            for _ in range(50):
                v2 = values(t2, r)
                if o in SHIFT and r.random() < .9:
                    v2 = r.randrange(0, WIDTH[promote1(t1)])
                    if v2 > rng(t2)[1]:
                        v2 = 1
                if defined(o, t1, v1, t2, v2):
                    break
            else:
                v1, v2 = 7, 3
            if o != op:
                x = b.place(t1, v1, p1 if p1 not in RVALUES else "local")
                y = b.place(t2, v2, r.choice(PLACES))
                b.add(expr(casg(o, x, y)))
                b.add(write(x))
                continue
            x = b.place(t1, v1, p1)
            y = b.place(t2, v2, r.choice(PLACES))
            b.add(write(binop(o, x, y)))
        cases.append(Case(b.done(), (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C05 control flow
def helpers(p, r, n=3, types=("int",), label="", calls=(), **kw):
    """n static methods, each calling only earlier ones."""
    ms = list(calls)
    for i in range(n):
        ret = r.choice(["void"] + list(types) * 2)
        ps = [("p%d" % j, r.choice(types)) for j in range(r.randrange(0, 3))]
        m = p.static("M%d" % i, ret, ps)
        kw2 = dict(kw)
        f = Fuzz(r, m, types=types, depth=2, budget=14, ret=ret, calls=list(ms),
                 label="%sM%d" % (label, i), **kw2)
        f.fill(4)
        ms.append(m)
    return ms


def gen_control(r, tier):
    cases = []
    for n in range(150 if tier == "quick" else 1500):
        p = Prog()
        if r.random() < .5:
            p.enum("E0", [("L%d" % (v + 6), v, True) for v in range(-6, 12)])
        ms = helpers(p, r, 2, stm=dict(ret=3)) if r.random() < .6 else []
        f = Fuzz(r, p.main, depth=4, budget=60, calls=ms, ret="void", stm=dict(ret=0))
        f.fill(10)
        cases.append(Case(p, (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C02 conversions
def gen_conv(r, tier):
    reps = 3 if tier == "quick" else 14
    jobs = []
    for t1, t2 in itertools.product(INTS, INTS):
        for _ in range(reps):
            jobs.append(("cast", t1, t2))
            jobs.append(("cast2", t1, t2))
            jobs.append(("castexp", t1, t2))
        if widens(t1, t2):
            for w in ("decl", "local", "arg", "refarg", "field", "elem", "sfield", "elem2", "afield",
                      "ret", "value", "param", "box", "ctor", "chain", "iparam"):
                for _ in range(1 if tier == "quick" else reps):
                    jobs.append((w, t1, t2))
    for t in INTS:
        for _ in range(reps):
            jobs += [("fromchar", "char", t), ("tochar", t, "char"), ("frombool", "bool", t)]
    r.shuffle(jobs)
    cases = []
    for ch in chunks(jobs, 60):
        b = Bench(r)
        n = 0
        holder = None
        for way, t1, t2 in ch:
            n += 1
            if way == "tochar":
                v = r.randrange(33, 127)
                b.add(write(cast("char", b.place(t1, v, r.choice(PLACES)))))
                continue
            if way == "frombool":
                x = b.local("bool", lit("bool", r.random() < .5))
                b.add(write(cast(t2, x)))
                continue
            if way == "fromchar":
                x = b.local("char", lit("char", values("char", r)))
                b.add(write(cast(t2, x)))
                continue
            x = b.place(t1, values(t1, r), r.choice(PLACES))
            if way == "cast":
                b.add(write(cast(t2, x)))
            elif way == "cast2":
                b.add(write(cast(r.choice(INTS), paren(cast(t2, x)))))
            elif way == "castexp":               # the conversion of a computed value
                y = b.place(t1, values(t1, r), r.choice(PLACES))
                e = binop(r.choice(["+", "-", "*", "^"]), x, y)
                if r.random() < .5:
                    e = binop(r.choice(["+", "-", "|"]), cast(t2, paren(e)),
                              b.place(t2, values(t2, r), "local"))
                    b.add(write(e))
                else:
                    b.add(write(cast(t2, paren(e))))
            elif way == "decl":
                b.add(write(b.local(t2, x)))
            elif way in PLACES:
                y = b.place(t2, values(t2, r), way)
                b.add(expr(asg(y, x)))
                b.add(write(y))
            elif way == "value":                 # the value of an assignment
                y = b.place(t2, 1, r.choice(["local", "field", "elem", "sfield", "refarg"]))
                b.add(write(asg(y, x)))
            elif way == "chain":
                ts = [t for t in INTS if widens(t2, t)]
                y = b.place(t2, 1, r.choice(["local", "field", "elem", "sfield", "refarg"]))
                z = b.place(r.choice(ts), 1, r.choice(["local", "field", "elem", "sfield", "refarg"]))
                b.add(expr(asg(z, asg(y, x))))
                b.add(write(z))
            elif way == "ret":
                m = b.p.static("R%d" % n, t2, [("x", t1)])
                m.body = block([return_(m.p(0))])
                b.add(write(Prog.call(m, [x])))
            elif way == "param":
                m = b.p.static("P%d" % n, "void", [("y", "int"), ("x", t2)])
                m.body = block([write(m.p(1)), write(m.p(0))])
                b.add(expr(Prog.call(m, [lit("int", n), x])))
            elif way == "box":
                o = b.t.local(b.name("o"), "object")
                b.add(decl(o, x))
                b.add(write(cast(t1, o)))
            elif way in ("ctor", "iparam"):
                c = b.p.cls("K%d" % n)
                c.field("f", t2)
                m = c.ctor([("x", t2)]) if way == "ctor" else c.method("Set", "void", [("x", t2)])
                m.body = block([expr(asg(c.f(m.this, "f"), m.p(0)))])
                o = b.local(c.name, Prog.new(c, m, [x]) if way == "ctor" else Prog.new(c))
                if way == "iparam":
                    b.add(expr(Prog.icall(o, m, [x])))
                b.add(write(c.f(o, "f")))
        cases.append(Case(b.done(), (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C03 precedence and order
def gen_order(r, tier):
    cases = []
    for n in range(160 if tier == "quick" else 1200):
        p = Prog()
        ty = r.choice(["int", "int", "long", "uint", "ulong"])
        tr = p.static("N", ty, [("x", ty)])
        tr.body = block([write(tr.p(0)), return_(tr.p(0))])
        tb = p.static("B", "bool", [("x", "bool"), ("n", "int")])
        tb.body = block([write(tb.p(1)), return_(tb.p(0))])
        m = p.main
        out, loc = [], []
        for i in range(5):
            v = m.local("a%d" % i, ty)
            out.append(decl(v, lit(ty, r.randrange(0, 60) if i else values(ty, r))))
            loc.append(v)
        k = [0]

        def num():
            q = r.random()
            if q < .35:
                return r.choice(loc)
            if q < .6:
                return lit(ty, r.randrange(0, 40))
            if q < .7:
                v = r.choice(loc)
                return inc(v, r.random() < .5, r.random() < .5)
            if q < .78 and ty in ("int", "long"):
                return un(r.choice(["-", "~"]), r.choice(loc))
            return Prog.call(tr, [lit(ty, r.randrange(1, 40))])

        def pos():
            return lit(ty, r.randrange(1, 9))

        def numflat(d, ops=None):
            """A flat arithmetic expression; divisors and counts are positive literals."""
            xs, os = [sub(d)], []
            cnt = r.randrange(1, 5)
            for _ in range(cnt):
                o = r.choice(ops or ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "+", "-"])
                if o in ("<<", ">>") and ty != "int":
                    o = "-" if ops else "^"
                os.append(o)
                xs.append(pos() if o in ("/", "%", "<<", ">>") else sub(d))
            # the operand of a shift must not extend to the right: only + - * / % bind tighter
            for i, o in enumerate(os):
                if o in ("<<", ">>"):
                    for j in range(i + 1, len(os)):
                        if os[j] in ("*", "/", "%", "+", "-"):
                            os[j] = "<<" if ops else r.choice(["&", "|", "^"])
                            if ops:
                                xs[j + 1] = pos()
                        else:
                            break
            return flat(ty, xs, os)

        def sub(d):
            if d > 0 and r.random() < .15:
                return paren(numflat(d - 1))
            if d > 0 and r.random() < .08:
                return paren(cond(boolflat(d - 1), num(), num()))
            return num()

        def boolop(d):
            q = r.random()
            if q < .3:
                k[0] += 1
                return Prog.call(tb, [lit("bool", r.random() < .5), lit("int", 1000 + k[0])])
            if q < .36:
                return un("!", Prog.call(tb, [lit("bool", r.random() < .5), lit("int", 900)]))
            return None

        def boolflat(d):
            """Operands of && and || are comparisons (flattened in) or boolean calls."""
            xs, os = [], []
            for i in range(r.randrange(1, 5)):
                if i:
                    os.append(r.choice(["&&", "||"]))
                b = boolop(d)
                if b is not None:
                    xs.append(b)
                    continue
                l, rr = numflat(0, ["+", "-", "*", "<<"]) if r.random() < .4 else num(), num()
                for part, last in ((l, False), (rr, True)):
                    if part.d["k"] == "flat":
                        xs += part.d["xs"]
                        os += part.d["ops"]
                    else:
                        xs.append(part)
                    if not last:
                        os.append(r.choice(["<", "<=", ">", ">=", "==", "!="]))
            return flat("bool", xs, os) if len(xs) > 1 else xs[0]

        for _ in range(10):
            q = r.random()
            if q < .5:
                out.append(write(numflat(2)))
            elif q < .8:
                out.append(write(boolflat(1)))
            elif q < .88:
                out.append(if_(boolflat(1), say("T"), say("F")))
            elif q < .94:
                c = cond(paren(boolflat(1)), num(), cond(paren(boolflat(0)), num(), num()))
                c.txt = "%s ? %s : %s ? %s : %s" % (
                    c.d["c"].txt, c.d["a"].txt, c.d["b"].d["c"].txt, c.d["b"].d["a"].txt,
                    c.d["b"].d["b"].txt)
                out.append(write(c))
            else:
                w = p.static("W%d" % len(p.methods), "void", [("p%d" % i, ty) for i in range(4)])
                w.body = block([write(w.p(i)) for i in range(4)])
                out.append(expr(Prog.call(w, [num() for _ in range(4)])))
        for v in loc:
            out.append(write(v))
        m.body = block(out)
        cases.append(Case(p, (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C04 literals and text
def numlit(r):
    base = r.choice([10, 10, 16, 16, 8, 2])
    q = r.random()
    if q < .3:
        v = r.choice([0, 1, 7, 8, 9, 10, 15, 16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1,
                      2**63, 2**64 - 1, 99, 100, 101, 10**9, 10**18])
    elif q < .6:
        v = (1 << r.randrange(64)) + r.choice([-1, 0, 1])
    else:
        v = r.randrange(1 << r.randrange(1, 65))
    suf = r.choice(["", "", "U", "L", "UL"])
    ds = []
    x = v
    while x or not ds:
        ds.insert(0, x % base)
        x //= base
    txt = "".join("0123456789abcdef"[d] for d in ds)
    if base == 16:
        txt = ("0x" if r.random() < .5 else "0X") + (txt.upper() if r.random() < .5 else txt)
    elif base == 8:
        txt = "0" + txt
    elif base == 2:
        txt = "0b" + txt
    s = suf if r.random() < .5 else suf.lower()
    return X("num", txt + s, ATOM, k="num", base=base, suf=suf, ds=ds), v


def rstring(r, n=None):
    n = r.choice([0, 1, 2, 5, 17, 40, 90]) if n is None else n
    return "".join(chr(r.randrange(32, 127)) for _ in range(n)).replace("<", "(").replace("`", "_")


def gen_text(r, tier):
    cases = []
    for n in range(40 if tier == "quick" else 400):
        p = Prog()
        ks = []
        for t in ("int", "uint", "long", "ulong"):
            k = p.static("K", "void", [("x", t)])
            k.body = block([write(string(t + " "), False), write(k.p(0))])
            ks.append(k)
        m = p.main
        out = []
        for _ in range(40):
            q = r.random()
            if q < .45:
                e, v = numlit(r)
                out.append(expr(Prog.call(ks[0], [e], cands=ks)))
            elif q < .6:
                t = r.choice(INTS + ["char", "bool"])
                v = r.random() < .5 if t == "bool" else r.randrange(32, 127) if t == "char" else values(t, r)
                x = m.fresh(t)
                out.append(decl(x, lit(t, v)))
                out.append(write(x, r.random() < .6))
            elif q < .7:
                e, v = numlit(r)
                out.append(write(e, r.random() < .6))
            elif q < .85:
                out.append(write(string(rstring(r)), r.random() < .6))
            elif q < .9:
                s = rstring(r, 12).replace('"', "'").replace("\\", "\\")
                x = string(s)
                x.txt = '@"%s"' % s
                out.append(write(x, r.random() < .6))
            elif q < .95:
                x = m.fresh("string")
                out += [decl(x, string(rstring(r))), write(x)]
            else:
                out.append(St(["Console.WriteLine();"], k="print", e=string(""), ln=True))
        out.append(St(["Console.WriteLine();"], k="print", e=string(""), ln=True))
        m.body = block(out)
        cases.append(Case(p, (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C06 exceptions
class ExcShape:
    """Methods int Sn(int k, int j): k selects the exit taken in a try body, j the one taken in
    a catch body; every way of leaving every region occurs for some arguments."""

    def __init__(self, r, p):
        self.r, self.p = r, p
        self.e1 = p.cls("E1", base="Exception")
        self.e1.field("code", "int")
        self.c1 = self.e1.ctor([("c", "int")])
        self.c1.body = block([expr(asg(self.e1.f(self.c1.this, "code", "code"), self.c1.p(0)))])
        self.e2 = p.cls("E2", base=self.e1)
        self.c2 = self.e2.ctor([("c", "int")])
        self.c2.body = block([expr(asg(self.e1.f(self.c2.this, "code"), self.c2.p(0)))])
        self.e3 = p.cls("E3", base="SystemException")
        self.thr = p.static("Thr", "int", [("n", "int"), ("d", "int")])
        n, d = self.thr.p(0), self.thr.p(1)
        self.thr.body = block([
            if_(binop(">", d, lit("int", 0)), block([
                decl(self.thr.local("x", "int"), binop("*", d, lit("int", 3))),
                return_(binop("+", var("x", 3, "int"),
                              Prog.call(self.thr, [n, binop("-", d, lit("int", 1))])))])),
            if_(binop("==", n, lit("int", 1)), throw(Prog.new(self.e1, self.c1, [lit("int", 71)]))),
            if_(binop("==", n, lit("int", 2)), throw(Prog.new(self.e2, self.c2, [lit("int", 72)]))),
            if_(binop("==", n, lit("int", 3)), throw(Prog.new(self.e3))),
            return_(n)])
        self.cell = p.cls("Cell")
        self.cell.field("f", "int")
        self.shapes = []
        self.n = 0
        self.inl = 0
        self.fault = {}
        for kd in ("null", "range", "cast"):
            self.fault[kd] = m = p.static("F" + kd)
            m.body = block(self.fault_in(kd, m))

    def fault_in(self, kd, m):
        """Statements that raise a runtime exception."""
        self.inl -= 1
        if kd == "null":
            v = m.fresh("Cell", "q")
            return [decl(v, null("Cell")), write(self.cell.f(v, "f"))]
        if kd == "range":
            v = m.fresh("int[]", "a")
            return [decl(v, newarr("int", [lit("int", 2)])),
                    write(idx(v, [self.r.choice([lit("int", 2), lit("int", -1)])], "int"))]
        v = m.fresh("object", "o")
        return [decl(v, lit("int", 5)), write(cast("long", v))]

    def tag(self):
        self.n += 1
        return self.n

    def exits(self, sel, base, kinds):
        r, m = self.r, self.m
        out = []
        for i, kd in enumerate(kinds):
            c = binop("==", sel, lit("int", base + i))
            if kd == "E1":
                s = [throw(Prog.new(self.e1, self.c1, [lit("int", base + i)]))]
            elif kd == "E2":
                s = [throw(Prog.new(self.e2, self.c2, [lit("int", base + i)]))]
            elif kd == "E3":
                s = [throw(Prog.new(self.e3))]
            elif kd == "sys":
                s = [throw(Prog.new(r.choice(EXC)))]
            elif kd == "ret":
                s = [return_(self.acc if r.random() < .5 else
                             binop("+", inc(self.acc, False, True), lit("int", 1000)))]
            elif kd == "break":
                s = [break_()]
            elif kd == "continue":
                s = [continue_()]
            elif kd == "call":
                a = [lit("int", r.choice([1, 2, 3])), lit("int", r.randrange(3))]
                s = [expr(asg(self.acc, binop("+", self.acc, binop(
                    "*", Prog.call(self.thr, a), lit("int", 3)))))]
            elif kd in ("null", "range", "cast"):
                s = [expr(Prog.call(self.fault[kd], []))] if r.random() < .8 or self.inl <= 0 \
                    else self.fault_in(kd, m)
            elif kd == "shape":
                sh = r.choice(self.shapes)
                s = [expr(asg(self.acc, binop("+", self.acc, Prog.call(
                    sh, [binop("+", m.p(1), lit("int", r.randrange(0, 12))), m.p(1)]))))]
            out.append(if_(c, block(s)))
        return out

    def kinds(self):
        ks = ["E1", "E2", "E3", "sys", "ret", "call", "null", "range", "cast"]
        if self.loop:
            ks += ["break", "continue"]
        if self.shapes:
            ks.append("shape")
        return ks

    def body(self, d, incatch=False):
        r = self.r
        out = [say("b%d" % self.tag())]
        parts = ["exit"]
        if d > 0:
            parts += r.sample(["try", "try", "loop", "try"], r.randrange(1, 3))
        r.shuffle(parts)
        for q in parts:
            if q == "exit":
                ks = self.kinds()
                r.shuffle(ks)
                if incatch:
                    out += self.exits(self.m.p(1), 1, ks[:10])
                else:
                    out += self.exits(self.m.p(0), self.base, ks)
                    self.base += len(ks)
            elif q == "try":
                out += self.try_(d - 1)
            else:
                st, self.loop = self.loop, 1
                i = self.m.fresh("int", "i")
                kd = r.choice(["for", "while", "do"])
                b = block(self.body(d - 1, incatch))
                self.loop = st
                if kd == "for":
                    out.append(for_(decl(i, lit("int", 0)), binop("<", i, lit("int", 2)),
                                    inc(i, False, True), b))
                elif kd == "while":
                    out += [decl(i, lit("int", 0)),
                            while_(binop("<", inc(i, False, True), lit("int", 2)), b)]
                else:
                    out += [decl(i, lit("int", 0)),
                            do_(b, binop("<", inc(i, True, True), lit("int", 2)))]
        out.append(expr(casg("+", self.acc, lit("int", r.randrange(1, 9)))))
        return out

    def catch(self, t, d):
        r, m = self.r, self.m
        v = None
        b = [say("c%d %s" % (self.tag(), t))]
        if t in ("E1", "E2") and r.random() < .8:
            v = m.local("e%d" % self.tag(), t)
            b.append(write(self.e1.f(v, "code")))
        elif r.random() < .3:
            v = m.local("e%d" % self.tag(), t)
            b.append(write(isinst(v, r.choice(["E1", "E2", "E3", "SystemException"]))))
        b += self.body(d, True)
        if v is not None and r.random() < .5:
            b.append(if_(binop("==", m.p(1), lit("int", 12)), block([throw(v)])))
        return (t, v, block(b))

    def try_(self, d):
        r = self.r
        b = block(self.body(d))
        order = ["E2", "E1", "E3", "NullReferenceException", "OutOfRangeException",
                 "InvalidCastException", "SystemException", "Exception"]
        ts = sorted(r.sample(order, r.choice([0, 1, 1, 2, 3])), key=order.index)
        if r.random() < .3:
            r.shuffle(ts)
        cs = [self.catch(t, d if r.random() < .3 else 0) for t in ts]
        fin = None
        if not cs or r.random() < .6:
            fb = [say("f%d" % self.tag()), expr(casg("+", self.acc, lit("int", 100)))]
            if r.random() < .3:
                i = self.m.fresh("int", "i")
                fb.append(for_(decl(i, lit("int", 0)), binop("<", i, lit("int", 2)),
                               inc(i, False, True), block([write(i), if_(
                                   binop("==", i, self.m.p(1)), block([break_()]))])))
            if r.random() < .3:
                fb.append(write(Prog.call(self.thr, [lit("int", 9), lit("int", 1)])))
            if r.random() < .25:
                fb.append(try_(block([say("ff%d" % self.tag())]), [], block([say("fg%d" % self.tag())])))
            fin = block(fb)
        return [try_(b, cs, fin), write(self.acc)]

    def shape(self, i):
        m = self.m = self.p.static("S%d" % i, "int", [("k", "int"), ("j", "int")])
        self.acc = m.local("acc", "int")
        self.base, self.loop, self.inl = 1, 0, 3
        out = [decl(self.acc, lit("int", 1))]
        if self.r.random() < .4:
            self.loop = 1
            iv = m.fresh("int", "i")
            b = block(self.try_(self.r.choice([1, 1, 2])))
            self.loop = 0
            out.append(for_(decl(iv, lit("int", 0)), binop("<", iv, lit("int", 2)),
                            inc(iv, True, True), b))
        else:
            out += self.try_(self.r.choice([1, 1, 2]))
        out.append(return_(self.acc))
        m.body = block(out)
        self.shapes.append(m)
        m.nexits = self.base

    def main(self, maxk):
        m, r = self.p.main, self.r
        out = []
        s = m.local("sum", "int")
        out.append(decl(s, lit("int", 0)))
        for sh in self.shapes:
            ks = list(range(sh.nexits))
            r.shuffle(ks)
            for k in ks[:maxk]:
                for j in r.sample(range(0, 13), 2):
                    c = Prog.call(sh, [lit("int", k), lit("int", j)])
                    v = m.local("x%d" % self.tag(), "E1")
                    b = block([write(binop("+", c, lit("int", 5)) if r.random() < .5 else c)])
                    out.append(try_(b, [("E1", v, block([write(self.e1.f(v, "code"))])),
                                        ("Exception", None, block([say("other")]))]))
                    out.append(write(inc(s, True, True)))
        if r.random() < .5:
            sh = r.choice(self.shapes)
            out.append(write(Prog.call(sh, [lit("int", r.randrange(sh.nexits)),
                                            lit("int", r.randrange(13))])))
        m.body = block(out)


def gen_exc(r, tier):
    cases = []
    for n in range(60 if tier == "quick" else 700):
        p = Prog()
        x = ExcShape(r, p)
        for i in range(2):
            x.shape(i)
        x.main(12 if tier == "quick" else 20)
        cases.append(Case(p, (r.choice(OPTS),)))
    for n in range(60 if tier == "quick" else 600):
        p = Prog()
        ms = helpers(p, r, 2, stm=dict(ret=3, try_=4, throw=3), exc=EXC)
        f = Fuzz(r, p.main, depth=4, budget=60, calls=ms, ret="void", exc=EXC,
                 stm=dict(ret=0, try_=5, throw=3))
        f.fill(8)
        cases.append(Case(p, (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C07 optimisation levels
NEUTRAL = [("+", 0), ("-", 0), ("*", 1), ("*", 0), ("/", 1), ("|", 0), ("&", 0), ("^", 0), ("&", -1),
           ("|", -1), ("<<", 0), (">>", 0), ("%", 1), ("*", 2), ("*", -1), ("+", 1), ("-", 1),
           ("<<", 1), (">>", 1), ("/", 2), ("*", 8), ("%", 8), ("==", 0), ("!=", 0), ("<", 0),
           (">=", 0)]


def foldx(b, r, d):
    """An integer expression of literals and operands, with many foldable parts."""
    if d <= 0 or r.random() < .2:
        t = r.choice(INTS)
        return b.place(t, values(t, r), r.choice(PLACES)) if r.random() < .4 else \
            lit(t, values(t, r) if r.random() < .6 else rng(t)[0] if r.random() < .1 else
                r.choice([0, 1, 2, 3]))
    q = r.random()
    if q < .25:
        return cast(r.choice(INTS), paren(foldx(b, r, d - 1)))
    if q < .35:
        e = paren(foldx(b, r, d - 1))
        return un(r.choice(["-", "~", "+"]), e) if e.ty != "ulong" else un("~", e)
    if q < .42:
        x = foldx(b, r, d - 1)
        y = foldx(b, r, d - 1)
        return cond(r.choice([lit("bool", True), lit("bool", False),
                              binop("<", lit("int", 1), lit("int", r.randrange(3)))]),
                    cast("int", paren(x)), cast("int", paren(y)))
    x, y = foldx(b, r, d - 1), foldx(b, r, d - 1)
    op = r.choice(["+", "-", "*", "&", "|", "^"])
    if r.random() < .25:
        op, v = r.choice(NEUTRAL[:22])
        t = r.choice([t for t in INTS if rng(t)[0] <= v]) if op in ("<<", ">>") else \
            r.choice([t for t in ("int", "uint", "long", "ulong") if rng(t)[0] <= v])
        y = lit(t, v)
        return binop(op, x if x.prec >= POST else paren(x), y)
    return binop(op, x if x.prec >= POST else paren(x), y if y.prec >= POST else paren(y))


def opt_consts(r):
    """Variables that look constant: some never change, the others change in unusual places."""
    p = Prog()
    ts = r.choice([("int",), ("int", "byte"), ("int", "long", "uint"), ("short", "int"), tuple(INTS)])
    ref, out, box, ident = {}, {}, {}, {}
    for t in set(ts) | {"bool", "string", "char"}:
        m = p.static("R_" + t, "void", [("x", t, "ref")])
        m.body = block([write(Store.shown(m.p(0))),
                        expr(asg(m.p(0), string("w") if t == "string" else rlit(r, t)))])
        ref[t] = m
        m = p.static("O_" + t, "void", [("x", t, "out")])
        m.body = block([expr(asg(m.p(0), string("v") if t == "string" else rlit(r, t)))])
        out[t] = m
        m = p.static("I_" + t, t, [("x", t)])
        m.body = block([say("I"), return_(m.p(0))])
        ident[t] = m
    b = p.static("B", "int", [("x", "object")])
    b.body = block([write(isinst(b.p(0), t)) for t in r.sample(INTS, 3) + list(ts)] + [return_(I(1))])
    consts = set()
    other = []                               # variables of other types in scope: (level, variable)

    def live(f):
        other[:] = [(n, sc, v) for n, sc, v in other if len(f.scopes) > n and f.scopes[n] is sc]
        return [v for _, _, v in other]

    def fresh(f, t, e, kw=None):
        v = f.fresh(t, "k")
        other.append((len(f.scopes) - 1, f.scopes[-1], v))
        return [decl(v, e, kw)]

    def new_other(f):
        t = r.choice(["bool", "string", "char"])
        e = string(r.choice(["a", "", "b c"])) if t == "string" else rlit(r, t)
        kw = r.choice([None, None, "const " + t, "var"])
        ss = fresh(f, t, e, kw)
        if kw == "const " + t:
            consts.add("k%d" % f.k)
        return ss

    def use_other(f):
        vs = live(f)
        if not vs:
            return new_other(f)
        v = r.choice(vs)
        if v.ty == "bool":
            c = r.choice([v, un("!", v), land(v, f.boolx(1)), lor(f.boolx(1), v), binop("==", v, lit("bool", True))])
            return [r.choice([lambda: if_(c, block([say("yes")]), block([say("no")])),
                              lambda: while_(c, block([say("loop"), break_()])),
                              lambda: do_(block([say("once")]), land(c, lit("bool", False))),
                              lambda: write(cond(c, I(1), I(2)))])()]
        if v.ty == "char":
            return [write(binop(r.choice(["==", "!="]), v, rlit(r, "char")))]
        return [write(v), write(Prog.call(ident["string"], [v]))]

    def change_other(f):
        vs = [v for v in live(f) if v.txt not in consts]
        if not vs:
            return new_other(f)
        v = r.choice(vs)
        q = r.random()
        if q < .3:
            return [expr(Prog.call(ref[v.ty], [refarg(v)]))]
        if q < .5:
            return [expr(Prog.call(out[v.ty], [refarg(v, "out")]))]
        return [expr(asg(v, string("n") if v.ty == "string" else rlit(r, v.ty)))]

    def hidden(f):
        """Changes a variable where it is not obvious."""
        vs = [v for v in f.vars(writable=True) if v.ty in INTS]
        if not vs:
            return new_other(f)
        v = r.choice(vs)
        q = r.random()
        if q < .25:
            return [expr(Prog.call(ref[v.ty], [refarg(v)])) if v.ty in ref else expr(inc(v, True, True))]
        if q < .4:
            return [expr(Prog.call(out[v.ty], [refarg(v, "out")])) if v.ty in out else
                    expr(inc(v, True, True))]
        if q < .6:
            a = f.fresh(v.ty + "[]", "a")
            es = [rlit(r, v.ty), asg(v, rlit(r, v.ty)), inc(v, r.random() < .5, True)]
            r.shuffle(es)
            return [decl(a, initarr(v.ty, [3], es)), write(idx(a, [I(r.randrange(3))], v.ty))]
        if q < .8 and v.ty in ident:
            return [write(Prog.call(ident[v.ty], [inc(v, r.random() < .5, True)]))]
        if v.ty == "int":
            a = f.fresh("int[]", "a")
            return [decl(a, newarr("int", [I(40)])), expr(asg(v, I(r.randrange(30)))),
                    expr(asg(idx(a, [inc(v, r.random() < .5, True)], "int"), v)), write(v)]
        return [write(inc(v, r.random() < .5, False))]

    def known(f):
        """A variable with a literal value, used in typed places."""
        t = r.choice(ts)
        v = f.fresh(t, "c")
        out = [decl(v, rlit(r, t), r.choice([None, None, "const " + t]))]
        f.scopes[-1].append((v, False))
        q = r.random()
        if q < .3:
            out.append(write(Prog.call(b, [v])))
        elif q < .6:
            w = r.choice([u for u in INTS if widens(t, u)] or [t])
            x = f.fresh(w, "w")
            out += [decl(x, v), write(x)]
            f.scopes[-1].append((x, True))
        elif q < .8:
            out.append(write(cast(r.choice(INTS), paren(v))))
        else:
            out.append(write(binop(r.choice(["+", "-", "*", "|", "&"]), v, rlit(r, r.choice(ts)))))
        return out

    acts = [new_other, use_other, use_other, change_other, hidden, hidden, known, known]
    f = Fuzz(r, p.main, types=ts, depth=3, budget=45, ret="void", exc=EXC,
             stm=dict(ret=0, try_=1, throw=1, arr=1, act=12, while_=2),
             acts=[lambda f, a=a: a(f) for a in acts])
    f.fill(10)
    return p


def gen_opt(r, tier):
    cases = []
    n = 24 if tier == "quick" else 240
    # neutral operands and constant folding
    jobs = []
    for op, v in NEUTRAL:
        for t1 in INTS:
            for t2 in INTS:
                if rng(t2)[0] <= v <= rng(t2)[1] and (v >= 0 or t2 in SIGNED):
                    jobs += [("r", op, v, t1, t2), ("l", op, v, t1, t2)]
    r.shuffle(jobs)
    for ch in chunks(jobs if tier != "quick" else jobs[:900], 50):
        b = Bench(r)
        for side, op, v, t1, t2 in ch:
            k = lit(t2, v)
            if k.txt.startswith("-"):
                k = paren(k)
            for _ in range(30):
                x0 = values(t1, r)
                if op in ("<<", ">>") and side == "l":
                    x0 = r.randrange(0, 8)
                if defined(op, t1, x0, t2, v) if side == "r" else defined(op, t2, v, t1, x0):
                    break
            else:
                continue
            x = b.place(t1, x0, r.choice(PLACES))
            e = binop(op, x, k) if side == "r" else binop(op, k, x)
            if r.random() < .4 and e.ty != "bool":
                e = binop("+", paren(e), b.place(r.choice(INTS), 1, "local"))
            b.add(write(e))
        cases.append(Case(b.done(), OPTS))
    for _ in range(n):
        b = Bench(r)
        for _ in range(25):
            b.add(write(foldx(b, r, 3)))
        cases.append(Case(b.done(), OPTS))
    for _ in range(3 * n):
        cases.append(Case(opt_consts(r), OPTS))
    # whole programs
    for _ in range(2 * n):
        p = Prog()
        ts = r.choice([("int",), ("int", "long"), ("int", "uint", "long", "byte"),
                       ("int", "short", "ulong"), tuple(INTS)])
        kw = dict(types=ts, exc=EXC)
        ms = helpers(p, r, 3, stm=dict(ret=3, try_=1, throw=1, arr=1), **kw)
        f = Fuzz(r, p.main, depth=3, budget=50, calls=ms, ret="void",
                 stm=dict(ret=0, try_=1, throw=1, arr=2), **kw)
        f.fill(9)
        cases.append(Case(p, OPTS))
    return cases


# ---------------------------------------------------------------- C08 calls
def I(v):
    return lit("int", v)


def rlit(r, t):
    return lit(t, r.random() < .5 if t == "bool" else values(t, r))


def calls_params(r, p, n, cls=None):
    """A method with many parameters of mixed types that prints, changes and prints them."""
    ts = [r.choice(PRIMS) for _ in range(r.choice([1, 2, 3, 5, 8, 13, 17, 20]))]
    ps = [("p%d" % i, t) for i, t in enumerate(ts)]
    ret = r.choice(ts)
    m = p.static("P%d" % n, ret, ps) if cls is None else cls.method("P%d" % n, ret, ps)
    out = [write(m.p(i)) for i in range(len(ts))]
    loc = m.local("k", "int")
    out.append(decl(loc, I(n)))
    for i, t in enumerate(ts):
        if r.random() < .4:
            if t in INTS and r.random() < .5:
                out.append(expr(inc(m.p(i), r.random() < .5, r.random() < .5)))
            else:
                j = r.choice([j for j, u in enumerate(ts) if u == t])
                out.append(expr(asg(m.p(i), m.p(j))))
    k = r.randrange(len(ts))
    out += [write(m.p(k)), write(loc), return_(m.p(ts.index(ret)))]
    m.body = block(out)
    return m, ts


def calls_ref(r, p, n):
    """Reference parameters: aliases, forwarding, mixed with values."""
    ts = [r.choice(["int", "long", "byte", "short", "ulong", "uint"]) for _ in range(2)]
    inner = p.static("R%d" % n, "int", [("a", ts[0], "ref"), ("b", ts[0], r.choice(["ref", ""])),
                                        ("c", ts[1], r.choice(["ref", "out"])), ("k", "int")])
    a, b, c, k = [inner.p(i) for i in range(4)]
    out = [expr(asg(c, rlit(r, ts[1])))] if inner.params[2][2] == "out" else []
    for _ in range(r.randrange(3, 8)):
        q = r.random()
        v = r.choice([a, b, c])
        if q < .25:
            out.append(expr(inc(v, r.random() < .5, r.random() < .5)))
        elif q < .45:
            out.append(expr(asg(a, b) if r.random() < .5 else asg(b, a)))
        elif q < .6:
            w = rlit(r, v.ty)
            out.append(expr(asg(v, w)))
        elif q < .7 and v.ty in ("int", "long", "ulong", "uint"):
            out.append(expr(casg(r.choice(["+", "-", "*", "^"]), v, v)))
        elif q < .8:
            x = inner.fresh(v.ty)
            out += [decl(x, v), expr(inc(v, True, True)), write(x)]
        else:
            out.append(write(v))
    rec = if_(binop(">", k, I(0)), block([
        write(Prog.call(inner, [refarg(a), refarg(b) if inner.params[1][2] else b,
                                refarg(c, inner.params[2][2]), binop("-", k, I(1))]))]))
    out.insert(r.randrange(1, len(out) + 1) if inner.params[2][2] == "out" else
               r.randrange(len(out) + 1), rec)
    out.append(return_(binop("+", k, I(1))))
    inner.body = block(out)
    # a forwarder: its own by-value parameter and local passed by reference
    fw = p.static("W%d" % n, "void", [("x", ts[0], "ref"), ("y", ts[0]), ("k", "int")])
    z = fw.local("z", ts[1])
    args = [r.choice([fw.p(0), fw.p(1)]), r.choice([fw.p(0), fw.p(1)])]
    fw.body = block([decl(z, rlit(r, ts[1])),
                     write(Prog.call(inner, [refarg(args[0]), refarg(args[1])
                                             if inner.params[1][2] else args[1],
                                             refarg(z, inner.params[2][2]), fw.p(2)])),
                     write(fw.p(0)), write(fw.p(1)), write(z)])
    m = p.main
    v = m.fresh(ts[0], "r")
    return [decl(v, rlit(r, ts[0])),
            expr(Prog.call(fw, [refarg(v), v if r.random() < .5 else rlit(r, ts[0]),
                                I(r.randrange(3))])), write(v)]


def calls_mix(r, p, n):
    """Parameters of every mode and of types of every size: what each receives and gives back."""
    ss = []
    for i in range(2):
        s = p.struct("T%d_%d" % (n, i))
        few = r.choice([PRIMS] * 3 + [["int"], ["byte"], ["long"]])
        for k in range(r.choice([1, 2, 3, 5, 9])):
            s.field("f%d" % k, r.choice(few))
        ss.append(s)
    c = p.cls("L%d" % n)
    c.field("v", "int")
    by = {s.name: s for s in ss}
    pool = list(by) * 3 + [c.name, "string", "int[]"] + ["int", "long", "byte", "char", "bool", "ulong"]
    ps = [("p%d" % i, r.choice(pool), r.choice(["", "", "ref", "out"]))
          for i in range(r.choice([2, 3, 4, 5, 7]))]
    ret = r.choice([t for _, t, _ in ps] + ["void"])
    m = (c.method if r.random() < .3 else p.static)("X%d" % n, ret, ps)
    inst = not m.static

    def leaves(x):
        if x.ty in by:
            return [by[x.ty].f(x, f) for f, _ in by[x.ty].fields]
        return [c.f(x, "v")] if x.ty == c.name else [idx(x, [I(1)], "int")] if x.ty == "int[]" else [x]

    def shows(x):
        return [write(Store.shown(y)) for y in leaves(x)]

    def fresh(t, m, out):
        """A value of type t made by statements added to out."""
        if t in PRIMS:
            return rlit(r, t)
        if t == "string":
            return string(r.choice(["a", "bc", "", "xyz"]))
        if t == "int[]":
            return initarr("int", [2], [rlit(r, "int"), rlit(r, "int")])
        v = m.fresh(t, "t")
        out.append(decl(v, Prog.new(by[t] if t in by else c)))
        out += [expr(asg(y, rlit(r, y.ty))) for y in leaves(v)]
        return v

    out, body = [], []
    same = {}
    for i, (_, t, mode) in enumerate(ps):
        same.setdefault(t, []).append(i)
        if mode == "out":
            body.append(expr(asg(m.p(i), fresh(t, m, body))))
        if r.random() < .6:
            body += shows(m.p(i))
    for _ in range(r.randrange(1, 6)):
        i = r.randrange(len(ps))
        t = ps[i][1]
        q = r.random()
        if q < .4:
            body.append(expr(asg(m.p(i), m.p(r.choice(same[t])))))
        elif q < .6:
            body.append(expr(asg(m.p(i), fresh(t, m, body))))
        else:
            y = r.choice(leaves(m.p(i)))
            if y.ty in INTS and r.random() < .5:
                body.append(expr(inc(y, r.random() < .5, r.random() < .5)))
            elif y.ty in PRIMS:
                body.append(expr(asg(y, rlit(r, y.ty))))
    for i in range(len(ps)):
        if r.random() < .4:
            body += shows(m.p(i))
    body.append(return_(m.p(r.choice(same[ret])) if ret != "void" else None))
    m.body = block(body)
    o = p.main.fresh(c.name, "o")
    out.append(decl(o, Prog.new(c)))
    for _ in range(2):
        vs = []
        for _, t, mode in ps:
            mine = [v for v in vs if v.ty == t]
            if mine and r.random() < .2:
                vs.append(r.choice(mine))
                continue
            e = fresh(t, p.main, out)
            v = p.main.fresh(t, "m")
            out.append(decl(v, e))
            vs.append(v)
        args = [refarg(v, mode) if mode else v for v, (_, _, mode) in zip(vs, ps)]
        call = Prog.icall(o, m, args) if inst else Prog.call(m, args)
        if ret == "void":
            out.append(expr(call))
        else:
            z = p.main.fresh(ret, "z")
            out += [decl(z, call)] + shows(z)
        for v in vs:
            out += shows(v)
    return out


def calls_rec(r, p, n):
    """Recursion: mutual, nested, with locals that must survive inner invocations."""
    t = r.choice(["int", "long", "ulong", "int"])
    ms = [p.static("Q%d_%d" % (n, i), t, [("d", "int"), ("x", t)]) for i in range(3)]
    for i, m in enumerate(ms):
        d, x = m.p(0), m.p(1)
        out = []
        if r.random() < .5:
            out.append(write(d))
        out.append(if_(binop("<=", d, I(0)), block([return_(x if r.random() < .5 else
                                                            binop("+", x, lit(t, r.randrange(9))))])))
        ls = []
        for j in range(r.randrange(1, 4)):
            lt = r.choice([t, t, "byte", "short", "int"])
            v = m.fresh(lt, "l")
            out.append(decl(v, cast(lt, paren(binop("+", x, lit(t, j + 1))))))
            ls.append(v)
        nx = binop("-", d, I(1))
        c = [Prog.call(r.choice(ms), [nx, binop(r.choice(["+", "^", "*"]), x, lit(t, r.randrange(5)))])
             for _ in range(r.choice([1, 1, 2]))]
        if r.random() < .3:
            c = [Prog.call(r.choice(ms), [binop("-", d, I(2)), c[0]])]
        y = m.fresh(t, "y")
        out.append(decl(y, c[0]))
        if len(c) > 1:
            out.append(expr(casg(r.choice(["+", "^", "-"]), y, c[1])))
        for v in ls:
            out.append(write(v))
            if v.ty == t:
                out.append(expr(casg("+", y, v)))
        out += [write(x), return_(y)]
        m.body = block(out)
    return [write(Prog.call(ms[0], [I(r.randrange(2, 5)), lit(t, r.randrange(100))]))]


def calls_over(r, p, n):
    """Overload resolution: exact match, or the only applicable method."""
    a = p.cls("A%d" % n)
    b = p.cls("B%d" % n, base=a)
    pool = ["int", "long", "byte", "short", "ulong", "bool", "char", "string", "object", a.name,
            b.name, "uint"]
    sigs = set()
    while len(sigs) < r.randrange(2, 7):
        sigs.add(tuple(r.choice(pool) for _ in range(r.choice([0, 1, 1, 1, 2, 2]))))
    cands = []
    for i, s in enumerate(sorted(sigs)):
        m = p.static("V%d" % n, "int", [("p%d" % j, t) for j, t in enumerate(s)])
        m.body = block([say("V %s" % ",".join(s)), return_(I(i))])
        cands.append(m)
    sup = {a.name: ["object"], b.name: [a.name, "object"], "string": ["object"]}

    def ok(t, u):
        return t == u or widens(t, u) or u in sup.get(t, ["object"] if t in PRIMS else [])

    out = []
    tries = [tuple(r.choice(pool) for _ in range(k)) for k in (0, 1, 1, 1, 1, 2, 2, 2, 2) for _ in
             range(3)] + list(sigs)
    for ts in tries:
        hit = [c for c in cands if tuple(c.ptypes) == ts]
        if not hit:
            hit = [c for c in cands if len(c.ptypes) == len(ts)
                   and all(ok(x, y) for x, y in zip(ts, c.ptypes))]
        if len(hit) != 1:
            continue
        args = []
        for t in ts:
            v = p.main.fresh(t, "o")
            out.append(decl(v, rlit(r, t) if t in PRIMS else string("s") if t == "string" else
                            Prog.new(a if t == a.name else b) if t in (a.name, b.name) else
                            Prog.new(r.choice([a, b]))))
            args.append(v)
        out.append(write(Prog.call(cands[0], args, cands=cands)))
        if len(out) > 25:
            break
    return out


def gen_calls(r, tier):
    cases = []
    for n in range(90 if tier == "quick" else 900):
        p = Prog()
        out = []
        for k in range(3):
            q = r.choice(["params", "ref", "rec", "over", "inst", "mix", "mix"])
            i = k
            if q == "params":
                m, ts = calls_params(r, p, i)
                for _ in range(2):
                    out.append(write(Prog.call(m, [rlit(r, t) for t in ts])))
            elif q == "inst":
                c = p.cls("K%d" % i)
                c.field("f", "int")
                m, ts = calls_params(r, p, i, c)
                o = p.main.fresh(c.name, "o")
                out += [decl(o, Prog.new(c)), expr(asg(c.f(o, "f"), I(i + 40)))]
                out.append(write(Prog.icall(o, m, [rlit(r, t) for t in ts])))
                out.append(write(c.f(o, "f")))
            elif q == "ref":
                out += calls_ref(r, p, i)
            elif q == "mix":
                out += calls_mix(r, p, i)
            elif q == "rec":
                out += calls_rec(r, p, i)
            else:
                out += calls_over(r, p, i)
        p.main.body = block(out)
        cases.append(Case(p, (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C09 dispatch
def world_main(r, p, w, m, n=30):
    """Statements of m: objects of every class, called through every static type."""
    out, vs = [], []
    arr = {}
    for c in w.concrete() + w.structs:
        v = m.fresh(c.name, "o")
        out.append(decl(v, Prog.new(c)))
        for f, ft in w.near(c) if not c.lib else []:
            if ft in INTS and r.random() < .6:
                out.append(expr(asg(c.f(v, f), rlit(r, ft))))
        sups = w.supers(c)
        vs.append((v, c, c))
        for s in r.sample(sups, min(len(sups), 4)):
            q = r.random()
            x = m.fresh(s.name, "x")
            if q < .7 or s.name == c.name:
                out.append(decl(x, v))
                vs.append((x, s, c))
            elif q < .85:
                o = m.fresh("object", "b")
                out += [decl(o, v), decl(x, cast(s.name, o))]
                vs.append((x, s, c))
            else:
                if s.name not in arr:
                    arr[s.name] = [m.fresh(s.name + "[]", "a"), 0]
                    out.append(decl(arr[s.name][0], newarr(s.name, [I(6)])))
                a = arr[s.name]
                if a[1] < 6:
                    e = idx(a[0], [I(a[1])], s.name)
                    a[1] += 1
                    out.append(expr(asg(e, v)))
                    vs.append((e, s, c))
    calls = [(x, s, c, k) for x, s, c in vs for k in w.methods(s)]
    r.shuffle(calls)
    for x, s, c, k in calls[:n]:
        mt = w.methods(s)[k]
        e = Prog.icall(x, mt, [w.arg(t) for t in mt.ptypes])
        out += w.use(e)
    return out, vs


def gen_dispatch(r, tier):
    cases = []
    for n in range(120 if tier == "quick" else 1200):
        p = Prog()
        w = World(r, p, nc=r.randrange(2, 8), ni=r.randrange(0, 5), ns=r.choice([0, 1, 2]))
        out, vs = world_main(r, p, w, p.main)
        p.main.body = block(out)
        cases.append(Case(p, (r.choice(OPTS),)))
    return cases


# ---------------------------------------------------------------- C10 types at run time
class Casts:
    """A world of types, test methods that ask objects for their type, and objects."""

    def __init__(self, r):
        self.r, self.p = r, Prog()
        self.w = World(r, self.p, nc=r.randrange(1, 8), ni=r.randrange(1, 5), ns=r.choice([1, 1, 2]),
                       calls=.2)
        self.rec = self.p.struct("Rec")
        for n, t in r.choice([[("v", "int"), ("w", "long")], [("v", "int")], [("v", "byte"), ("w", "int")],
                              [("v", "long"), ("w", "byte"), ("u", "string")],
                              [("v", "int"), ("w", "short"), ("u", "ulong"), ("t", "int")]]):
            self.rec.field(n, t)
        self.structs = self.w.structs + [self.rec]
        self.plain = []                        # classes without methods or interfaces
        for i in range(r.choice([0, 0, 2, 3, 4, 6])):
            c = self.p.cls("K%d" % i, r.choice(self.plain + [None]) if r.random() < .75 and self.plain else None)
            if r.random() < .5:
                c.field("k%d" % i, r.choice(["int", "long", "object"]))
            self.plain.append(c)
        self.refs = self.w.classes + self.w.ifaces + self.plain
        self.box = self.p.cls("Holder")
        self.box.field("o", "object")
        self.box.field("r", "Rec")
        self.n = 0

    def target(self):
        q = self.r.random()
        if q < .5:
            return self.r.choice(self.refs).name
        if q < .65:
            return self.r.choice(self.structs).name
        if q < .9:
            return self.r.choice(PRIMS)
        return self.r.choice(["string", "object"])

    def ty(self, name):
        return next((t for t in self.refs + self.structs if t.name == name), None)

    def tests(self, m, v, n):
        r, out, tmp = self.r, [], {}

        def var_of(t):
            if t not in tmp:
                tmp[t] = m.fresh(t, "x")
                out.insert(0, declz(tmp[t]) if self.ty(t) not in self.structs else
                           decl(tmp[t], Prog.new(self.ty(t))))
            return tmp[t]

        for _ in range(n):
            t = self.target()
            ty = self.ty(t)
            st = []
            q = r.random()
            if q < .35:
                out.append(write(isinst(v, t)))
                continue
            if ty in self.structs:
                x = var_of(t)
                st = [expr(asg(x, cast(t, v)))]
                for f, ft in ty.fields:
                    if r.random() < .8 and (ft != "string" or ty is self.rec):
                        st.append(write(ty.f(x, f)))
                f, ft = r.choice([y for y in ty.fields if y[1] != "string"])
                st += [expr(asg(ty.f(x, f), rlit(r, ft))), expr(asg(x, cast(t, v))), write(ty.f(x, f))]
                out.append(if_(isinst(v, t), block(st)))
            elif ty is not None:
                x = var_of(t)
                ms = self.w.methods(ty) if ty not in self.plain else None
                use = []
                if ms:
                    mt = ms[r.choice(list(ms))]
                    use = self.w.use(Prog.icall(x, mt, [self.w.arg(a) for a in mt.ptypes]))
                if q < .7:
                    out.append(expr(asg(x, asinst(v, t))))
                    out.append(write(binop(r.choice(["==", "!="]), x, null(t))))
                    if use:
                        out.append(if_(binop("!=", x, null(t)), block(use)))
                else:
                    st = [expr(asg(x, cast(t, v)))] + \
                         ([if_(binop("!=", x, null(t)), block(use))] if use else []) + [say("cast")]
                    if r.random() < .7:
                        out.append(try_(block(st), [("InvalidCastException", None,
                                                     block([say("no " + t)]))]))
                    else:
                        out.append(if_(isinst(v, t), block(st)))
            elif t == "string":
                x = var_of(t)
                out.append(if_(isinst(v, t), block([expr(asg(x, cast(t, v))), write(x)])))
            elif t == "object":
                out.append(write(isinst(v, t)))
            else:
                x = var_of(t)
                out.append(try_(block([expr(asg(x, cast(t, v))), write(x)]), [
                    ("InvalidCastException", None, block([say("no " + t)])),
                    ("NullReferenceException", None, block([say("null " + t)]))]))
                if r.random() < .3 and t in INTS:
                    out.append(if_(isinst(v, t), block([
                        write(binop("+", paren(cast(t, v)), lit(t, 1)))])))
        return out

    def tester(self, t):
        self.n += 1
        m = self.p.static("T%d" % self.n, "void", [("o", t)])
        out = [say("T%d" % self.n)]
        m.body = block(out + self.tests(m, m.p(0), self.r.randrange(3, 8)))
        return m

    def setrec(self, x):
        return [expr(asg(self.rec.f(x, f), string("s") if ft == "string" else rlit(self.r, ft)))
                for f, ft in self.rec.fields]

    def objects(self):
        """Statements of Main that make objects; returns them and the object variables."""
        r, p, m, w = self.r, self.p, self.p.main, self.w
        out, vs = [], []
        rec = m.local("rec", "Rec")
        out.append(decl(rec, Prog.new(self.rec)))
        h = m.local("h", "Holder")
        out.append(decl(h, Prog.new(self.box)))
        arr = m.local("arr", "object[]")
        out.append(decl(arr, newarr("object", [I(8)])))
        ra = m.local("ra", "Rec[]")
        out.append(decl(ra, newarr("Rec", [I(3)])))
        idm = p.static("Id", "object", [("o", "object")])
        idm.body = block([return_(idm.p(0))])
        boxers = {}

        def boxer(t):
            if t not in boxers:
                b = p.static("Box_" + t, "object", [("x", t)])
                b.body = block([return_(b.p(0) if r.random() < .6 else cast("object", b.p(0)))])
                boxers[t] = b
            return boxers[t]

        sv = {}
        k = 0
        for _ in range(r.randrange(4, 8)):
            q = r.random()
            if q < .3:
                c = r.choice(w.concrete() + self.plain or [self.box])
                src = Prog.new(c)
            elif q < .55:
                t = r.choice(PRIMS)
                src = rlit(r, t)
                if r.random() < .5:
                    if t not in sv:
                        sv[t] = m.fresh(t, "y")
                        out.append(decl(sv[t], src))
                    src = sv[t]
            elif q < .65:
                src = string(r.choice(["", "a", "bcd"]))
            elif q < .7:
                src = null("object")
            elif q < .85:
                out += self.setrec(rec)
                src = rec
                z = r.random()
                if z < .25:
                    out.append(expr(asg(self.box.f(h, "r"), rec)))
                    src = self.box.f(h, "r")
                elif z < .5:
                    src = idx(ra, [I(r.randrange(3))], "Rec")
                    out.append(expr(asg(src, rec)))
            else:
                s = r.choice(w.structs)
                if s.name not in sv:
                    sv[s.name] = m.fresh(s.name, "s")
                    out.append(decl(sv[s.name], Prog.new(s)))
                src = sv[s.name]
                out.append(expr(asg(s.f(src, "x"), rlit(r, "int"))))
                if r.random() < .4:
                    it = r.choice(w.supers(s))
                    x = m.fresh(it.name, "i")
                    out.append(decl(x, src))
                    src = cast("object", x)
            o = m.fresh("object", "o")
            z = r.random()
            if src.d["k"] == "null" or z < .3:
                out.append(decl(o, src))
            elif z < .45:
                out.append(decl(o, Prog.call(idm, [src])))
            elif z < .6 and src.ty in PRIMS + ["Rec"] + [s.name for s in w.structs]:
                out.append(decl(o, Prog.call(boxer(src.ty), [src])))
            elif z < .75:
                e = self.box.f(h, "o")
                out += [expr(asg(e, src)), decl(o, e)]
            else:
                e = idx(arr, [I(k)], "object")
                k += 1
                out += [expr(asg(e, src)), decl(o, e if r.random() < .6 else Prog.call(idm, [e]))]
            vs.append(o)
            if r.random() < .3:              # the source changes afterwards, the box does not
                if src.ty == "Rec":
                    f, ft = self.rec.fields[0]
                    out.append(expr(asg(self.rec.f(src, f), rlit(r, ft))))
                elif src.ty in INTS and src.d["k"] == "var":
                    out.append(expr(inc(src, True, True)))
        return out, vs

    def build(self):
        r, p, w = self.r, self.p, self.w
        out, vs = self.objects()
        ts = [self.tester("object") for _ in range(r.randrange(2, 5))]
        for o in vs:
            for t in r.sample(ts, min(len(ts), r.randrange(1, 4))):
                out.append(expr(Prog.call(t, [o])))
        # tests through other static types, by way of an `is`
        for s in r.sample(self.refs, min(len(self.refs), 2)):
            t = self.tester(s.name)
            x = p.main.fresh(s.name, "q")
            out.append(declz(x))
            for o in r.sample(vs, min(len(vs), 3)):
                out.append(expr(asg(x, asinst(o, s.name))))
                if r.random() < .3:
                    out.append(expr(Prog.call(t, [x])))
                else:
                    out.append(if_(binop("!=", x, null(s.name)), block([expr(Prog.call(t, [x]))])))
        for _ in range(3):                   # identity
            out.append(write(binop(r.choice(["==", "!="]), r.choice(vs), r.choice(vs))))
        if r.random() < .2:
            t = r.choice(PRIMS)
            x = p.main.fresh(t, "z")
            out += [decl(x, cast(t, r.choice(vs))), write(x)]
        p.main.body = block(out)
        return p


def gen_cast(r, tier):
    return [Case(Casts(r).build(), (r.choice(OPTS),)) for _ in range(150 if tier == "quick" else 1500)]


# ---------------------------------------------------------------- C11 values and references
class Store:
    """Structs within structs, classes and arrays; every variable is reached along paths."""

    def __init__(self, r):
        self.r, self.p = r, Prog()
        self.structs, self.classes, self.info = [], [], {}
        for i in range(r.randrange(1, 4)):
            t = self.p.struct("S%d" % i)
            few = r.choice([PRIMS[:8] + ["int", "int", "bool", "char"]] * 2 + [["int"], ["byte"], ["short"],
                           ["int", "char"], ["byte", "bool"], ["long"], ["short", "int"]])
            for k in range(r.choice([1, 2, 2, 3, 4, 6, 9, 11])):
                ft = r.choice(few)
                if self.structs and r.random() < .3:
                    ft = r.choice(self.structs).name
                t.field("f%d" % k, ft)
            self.structs.append(t)
        for i in range(r.randrange(1, 3)):
            t = self.p.cls("K%d" % i)
            for k in range(r.randrange(1, 4)):
                t.field("g%d" % k, r.choice(["int", "byte", "long"] + [s.name for s in self.structs] * 2))
            self.classes.append(t)
        for t in self.classes:
            if r.random() < .5:
                t.field("r", r.choice(self.classes).name)
            if r.random() < .5:
                t.field("a", r.choice(self.structs).name + "[]")
        self.by = {t.name: t for t in self.structs + self.classes}
        self.dumps = {}
        self.mut, self.get, self.mk, self.stat = {}, {}, {}, {}
        for s in self.structs:
            self.dump(s)
        for s in self.structs:
            self.methods(s)
        self.vars = []

    def isstruct(self, t):
        return t in self.by and self.by[t].kind == "struct"

    # ---- paths
    def expand(self, x, depth):
        """All variables inside the variable x."""
        yield x
        if depth == 0:
            return
        if x.ty in self.by:
            for f, _ in self.by[x.ty].fields:
                yield from self.expand(self.by[x.ty].f(x, f), depth - 1)
        elif x.ty.endswith("[,]"):
            yield from self.expand(idx(x, [I(self.r.randrange(2)), I(self.r.randrange(2))],
                                       x.ty[:-3]), depth - 1)
        elif x.ty.endswith("[]"):
            ix = I(self.r.randrange(3))
            if self.ivar is not None and self.r.random() < .5:
                ix = self.ivar
            yield from self.expand(idx(x, [ix], x.ty[:-2]), depth - 1)

    ivar = None

    def paths(self, pred, roots=None):
        out = []
        for v in roots or self.vars:
            out += [x for x in self.expand(v, 4) if pred(x)]
        return out

    # ---- methods of the types
    def dump(self, s):
        m = self.p.static("D_" + s.name, "void", [("x", s.name)])
        out = []
        for f, ft in s.fields:
            e = s.f(m.p(0), f)
            if self.isstruct(ft):
                out.append(expr(Prog.call(self.dumps[ft], [e])))
            else:
                out += [write(self.shown(e), False), write(string(" "), False)]
        m.body = block(out + [say(s.name)])
        self.dumps[s.name] = m

    @staticmethod
    def shown(x):
        """Characters may be unprintable."""
        return x if x.ty != "char" else binop("==", x, lit("char", 65))

    def leaf(self, t, m=None):
        return rlit(self.r, t)

    def methods(self, s):
        r = self.r
        # changes itself
        m = s.method("Mut", "void", [("o", s.name), ("k", "int")])
        out = []
        mine = list(self.expand(m.this, 3))[1:]
        other = list(self.expand(m.p(0), 3))
        for _ in range(r.randrange(1, 4)):
            x = r.choice(mine)
            ys = [y for y in mine + other if y.ty == x.ty and y.txt != x.txt]
            if x.ty in INTS and r.random() < .4:
                out.append(expr(inc(x, r.random() < .5, r.random() < .5)))
            elif ys and r.random() < .7:
                out.append(expr(asg(x, r.choice(ys))))
            elif x.ty in PRIMS:
                out.append(expr(asg(x, self.leaf(x.ty))))
        if r.random() < .5:
            out.append(expr(Prog.call(self.dumps[s.name], [r.choice([m.this, m.p(0)])],
                                      txt="Program.D_" + s.name)))
        m.body = block(out or [say("nothing")])
        # a changed copy
        g = s.method("With", s.name, [("o", s.name)])
        q = g.local("q", s.name)
        out = [decl(q, r.choice([g.this, g.this, g.p(0)]))]
        for _ in range(2):
            x = r.choice(list(self.expand(q, 3))[1:])
            ys = [y for y in list(self.expand(g.this, 3)) + list(self.expand(g.p(0), 3))
                  if y.ty == x.ty]
            out.append(expr(asg(x, r.choice(ys))))
        out.append(return_(q if r.random() < .8 else g.this))
        g.body = block(out)
        self.mut[s.name], self.get[s.name] = m, g
        # static: by value and by reference
        v = self.p.static("V_" + s.name, s.name, [("x", s.name), ("y", s.name, "ref")])
        out = []
        xs, ys = list(self.expand(v.p(0), 3)), list(self.expand(v.p(1), 3))
        for _ in range(r.randrange(1, 4)):
            a = r.choice(xs + ys)
            bs = [b for b in xs + ys if b.ty == a.ty and b.txt != a.txt]
            if a.ty in PRIMS and r.random() < .5:
                out.append(expr(asg(a, self.leaf(a.ty))))
            elif bs:
                out.append(expr(asg(a, r.choice(bs))))
        if r.random() < .4:
            out.append(expr(Prog.icall(r.choice([v.p(0), v.p(1)]), m, [v.p(0), I(1)])))
        out.append(return_(r.choice([v.p(0), v.p(1)])))
        v.body = block(out)
        self.stat[s.name] = v
        # a new one
        k = self.p.static("N_" + s.name, s.name, [("k", "int")])
        q = k.local("q", s.name)
        out = [decl(q, Prog.new(s))]
        for x in list(self.expand(q, 4))[1:]:
            if x.ty in INTS and r.random() < .8:
                out.append(expr(asg(x, cast(x.ty, k.p(0)) if r.random() < .5 and x.ty != "int" else
                                    self.leaf(x.ty))))
        k.body = block(out + [return_(q)])
        self.mk[s.name] = k

    # ---- values
    def value(self, t):
        r = self.r
        ps = self.paths(lambda x: x.ty == t)
        q = r.random()
        if self.isstruct(t):
            if q < .5 and ps:
                return r.choice(ps)
            if q < .65:
                return Prog.new(self.by[t])
            if q < .8 or not ps:
                return Prog.call(self.mk[t], [I(r.randrange(-5, 200))])
            o = r.choice(ps)
            return Prog.icall(o, self.get[t], [r.choice(ps)])
        if t in PRIMS:
            return r.choice(ps) if ps and q < .6 else self.leaf(t)
        return r.choice(ps)

    def stmt(self):
        r = self.r
        q = r.random()
        if q < .4:
            x = r.choice(self.paths(lambda x: True))
            if x.ty == self.ivar_ty() and x is self.ivar:
                return []
            if not (self.isstruct(x.ty) or x.ty in PRIMS or x.ty in self.by) and r.random() < .5:
                return []
            if self.isstruct(x.ty) and r.random() < .15:
                y = r.choice(self.paths(lambda y: y.ty == x.ty))
                return [expr(asg(x, asg(y, self.value(x.ty))))]
            return [expr(asg(x, self.value(x.ty)))]
        if q < .5:
            xs = self.paths(lambda x: x.ty in INTS and x is not self.ivar)
            if not xs:
                return []
            x = r.choice(xs)
            return [expr(inc(x, r.random() < .5, r.random() < .5))]
        ss = self.paths(lambda x: self.isstruct(x.ty))
        if not ss:
            return []
        x = r.choice(ss)
        if q < .65:
            return [expr(Prog.icall(x, self.mut[x.ty], [self.value(x.ty), I(1)]))]
        if q < .8:
            return [expr(Prog.call(self.dumps[x.ty], [self.value(x.ty)]))]
        vs = [v for v in self.vars if self.isstruct(v.ty)]
        if vs and q < .93:
            v = r.choice(vs)
            c = Prog.call(self.stat[v.ty], [self.value(v.ty), refarg(v)])
            if r.random() < .5:
                return [expr(Prog.call(self.dumps[v.ty], [c]))]
            y = r.choice(self.paths(lambda y: y.ty == v.ty))
            return [expr(asg(y, c))]
        f, ft = r.choice(self.by[x.ty].fields)
        if self.isstruct(ft):
            return []
        call = Prog.icall(x, self.get[x.ty], [self.value(x.ty)])
        return [write(self.shown(self.by[x.ty].f(call, f)))]

    def ivar_ty(self):
        return "int" if self.ivar is not None else ""

    def build(self):
        r, m = self.r, self.p.main
        out = []
        for s in self.structs:
            for _ in range(r.choice([1, 1, 2])):
                v = m.fresh(s.name, "s")
                out.append(decl(v, Prog.call(self.mk[s.name], [I(r.randrange(100))])
                                if r.random() < .7 else Prog.new(s)))
                self.vars.append(v)
        t = r.choice(self.structs).name
        if r.random() < .8:
            v = m.fresh(t + "[]", "a")
            out.append(decl(v, newarr(t, [I(3)])))
            self.vars.append(v)
        if r.random() < .4:
            v = m.fresh(t + "[,]", "b")
            out.append(decl(v, newarr(t, [I(2), I(2)])))
            self.vars.append(v)
        ks = []
        for c in self.classes:
            for _ in range(r.choice([1, 2])):
                v = m.fresh(c.name, "k")
                out.append(decl(v, Prog.new(c)))
                ks.append((v, c))
        for v, c in ks:                      # no null references anywhere
            for f, ft in c.fields:
                if ft in self.by and self.by[ft].kind == "class":
                    out.append(expr(asg(c.f(v, f), r.choice([x for x, d in ks if d.name == ft]))))
                elif ft.endswith("[]"):
                    ys = [x for x in self.vars if x.ty == ft]
                    out.append(expr(asg(c.f(v, f), r.choice(ys) if ys and r.random() < .4 else
                                        newarr(ft[:-2], [I(3)]))))
        self.vars += [v for v, _ in ks]
        for _ in range(r.randrange(6, 16)):
            out += self.stmt()
        if r.random() < .6:
            i = m.fresh("int", "i")
            self.ivar = i
            b = []
            for _ in range(r.randrange(2, 6)):
                b += self.stmt()
            out.append(for_(decl(i, I(0)), binop("<", i, I(3)), inc(i, False, True), block(b)))
            self.ivar = None
        for x in self.paths(lambda x: x.ty in PRIMS or self.isstruct(x.ty)):
            if self.isstruct(x.ty):
                if r.random() < .4:
                    out.append(expr(Prog.call(self.dumps[x.ty], [x])))
            elif r.random() < .3:
                out.append(write(self.shown(x)))
        for _ in range(2):
            rs = self.paths(lambda x: x.ty in self.by and self.by[x.ty].kind == "class")
            if rs:
                x = r.choice(rs)
                out.append(write(binop(r.choice(["==", "!="]), x,
                                       r.choice([y for y in rs if y.ty == x.ty]))))
        m.body = block(out)
        return self.p


def store_rows(r):
    """Structs of every size side by side in arrays, objects and frames: a copy changes its target only."""
    p = Prog()
    m = p.main
    n = r.choice([1, 2, 3, 5, 7, 8, 9, 10, 11, 13, 15, 17])
    few = r.choice([["int"], ["byte"], ["short"], ["long"], ["int", "byte"], ["short", "byte"], ["int", "long"],
                    ["bool", "int"], PRIMS])
    s = p.struct("S")
    for i in range(n):
        s.field("f%d" % i, r.choice(few))
    h = p.struct("H")
    h.field("p", r.choice(["byte", "int", "long"]))
    h.field("s", "S")
    h.field("q", r.choice(["byte", "int", "long"]))
    k = p.cls("K")
    k.field("p", r.choice(["byte", "int", "short", "long"]))
    for i in range(3):
        k.field("s%d" % i, "S")
    k.field("h", "H")
    k.field("q", r.choice(["byte", "int", "short", "long"]))
    mk = p.static("Mk", "S", [("k", "int")])
    t = mk.fresh("S", "t")
    b = [decl(t, Prog.new(s))]
    for i, (f, ft) in enumerate(s.fields):
        e = binop("+", mk.p(0), I(i)) if ft != "bool" else binop("==", binop("%", mk.p(0), I(i + 2)), I(0))
        b.append(expr(asg(s.f(t, f), e if ft in ("int", "bool") else cast(ft, e))))
    mk.body = block(b + [return_(t)])
    dp = p.static("Dump", "void", [("x", "S")])
    dp.body = block([x for f, _ in s.fields for x in (write(Store.shown(s.f(dp.p(0), f)), False),
                                                      write(string(" "), False))] + [say("")])
    out, places, guards = [], [], []
    nr = [0]

    def new(x):
        nr[0] += 17
        out.append(expr(asg(x, Prog.call(mk, [I(nr[0] % 97)]))))
        places.append(x)

    def guard(x):
        nr[0] += 1
        out.append(expr(asg(x, lit(x.ty, nr[0] % 100))))
        guards.append(x)
    loc = []
    for i in range(r.randrange(1, 4)):
        g = m.fresh(r.choice(["byte", "int", "long"]), "g")
        out.append(decl(g, lit(g.ty, i + 1)))
        guards.append(g)
        v = m.fresh("S", "v")
        out.append(decl(v, Prog.call(mk, [I(i)])))
        places.append(v)
        loc.append(v)
    a = m.fresh("S[]", "a")
    z = r.choice([2, 3, 4, 5])
    out.append(decl(a, newarr("S", [I(z)])))
    for i in range(z):
        new(idx(a, [I(i)], "S"))
    if r.random() < .7:
        o = m.fresh("K", "o")
        out.append(decl(o, Prog.new(k)))
        guard(k.f(o, "p"))
        for i in range(3):
            new(k.f(o, "s%d" % i))
        guard(h.f(k.f(o, "h"), "p"))
        new(h.f(k.f(o, "h"), "s"))
        guard(h.f(k.f(o, "h"), "q"))
        guard(k.f(o, "q"))
    if r.random() < .4:
        d = m.fresh("S[,]", "d")
        out.append(decl(d, newarr("S", [I(2), I(3)])))
        for i in range(2):
            for j in range(3):
                new(idx(d, [I(i), I(j)], "S"))
    if r.random() < .4:
        w = m.fresh("H[]", "w")
        out.append(decl(w, newarr("H", [I(3)])))
        for i in range(3):
            x = idx(w, [I(i)], "H")
            guard(h.f(x, "p"))
            new(h.f(x, "s"))
            guard(h.f(x, "q"))
    by = [x for x in places]
    pas = p.static("Pass", "S", [("x", "S"), ("n", "int")])
    pas.body = block([return_(pas.p(0))])
    swp = p.static("Swap", "void", [("x", "S", "ref"), ("y", "S", "ref")])
    t = swp.fresh("S", "t")
    swp.body = block([decl(t, swp.p(0)), expr(asg(swp.p(0), swp.p(1))), expr(asg(swp.p(1), t))])
    for _ in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([1, 1, 2])):
            x, y = r.choice(by), r.choice(by)
            q = r.random()
            if q < .6:
                out.append(expr(asg(x, y)))
            elif q < .75:
                out.append(expr(asg(x, Prog.call(pas, [y, I(r.randrange(9))]))))
            elif q < .85 and len(loc) > 1:
                out.append(expr(Prog.call(swp, [refarg(v) for v in r.sample(loc, 2)])))
            else:
                v = m.fresh("object", "u")
                out += [decl(v, y), expr(asg(x, cast("S", v)))]
        for x in by:
            out.append(expr(Prog.call(dp, [x])))
        out += [write(x) for x in guards]
    m.body = block(out)
    return p


def gen_store(r, tier):
    n = 150 if tier == "quick" else 1500
    return [Case(Store(r).build() if i % 3 else store_rows(r), (r.choice(OPTS),)) for i in range(n * 3 // 2)]


# ---------------------------------------------------------------- C12 arrays
class Arrays:
    """Arrays of every rank and element type, reached through locals, fields, parameters, other
    arrays and object; accesses within and outside the bounds of each dimension."""

    def __init__(self, r):
        self.r, self.p = r, Prog()
        p = self.p
        self.A = p.cls("A")
        self.A.field("x", "int")
        self.B = p.cls("B", self.A)
        self.iface = p.iface("IV")
        self.iface.method("V", "int")
        for t, v in ((self.A, 3), (self.B, 4)):
            if t is self.A:
                t.ifaces.append(self.iface)
            m = t.method("V", "int", virt="virtual" if t is self.A else "override")
            m.body = block([return_(binop("+", self.A.f(m.this, "x"), I(v)))])
        self.E = p.enum("E", [("E0", 0, False), ("E1", 1, False), ("E5", 5, True), ("E6", 6, False)])
        self.S = p.struct("S")
        few = r.choice([PRIMS] * 3 + [["int"], ["byte"], ["short", "int"], ["char"]])
        for i in range(r.choice([1, 2, 3, 4, 4, 9, 11])):
            self.S.field("f%d" % i, r.choice(few))
        self.H = p.cls("H")                   # holds arrays
        self.k = 0
        self.vars = []                        # (expression, element type, dims or None)

    # ---- values
    def enumlit(self):
        n, v, _ = self.r.choice(self.E.enum)
        return Prog.item(self.E, n)

    def elem(self, t):
        """A value assignable to an element of type t."""
        r = self.r
        ps = [x for x in self.same(t)]
        if t in PRIMS:
            if ps and r.random() < .3:
                return r.choice(ps)
            src = [u for u in INTS if widens(u, t)] or [t]
            return rlit(r, r.choice(src + [t, t]))
        if t == "E":
            return r.choice(ps) if ps and r.random() < .3 else self.enumlit()
        if t == "string":
            return string(r.choice(["a", "bc", "", "d e", "xyz"]))
        if t == "S":
            return r.choice(ps) if ps and r.random() < .5 else Prog.new(self.S)
        if ps and r.random() < .3:
            return r.choice(ps)
        if t == "object" and r.random() < .5:
            return rlit(r, r.choice(INTS + ["bool"]))
        if t.endswith("[]"):
            return null(t) if r.random() < .15 else self.fresharr(t[:-2], [r.choice([1, 2, 3])])
        return r.choice([Prog.new(self.A), Prog.new(self.B), null(t)] if t != "B" else
                        [Prog.new(self.B), null(t)])

    def same(self, t):
        out = []
        for e, et, dims in self.vars:
            if et == t and dims and 0 not in dims:
                out.append(idx(e, [I(self.r.randrange(d)) for d in dims], et))
        return out

    def fresharr(self, et, dims):
        r = self.r
        n = 1
        for d in dims:
            n *= d
        if et != "S" and (et.endswith("]") or (et == "string" and n) or (n and n <= 12 and r.random() < .5)):
            return initarr(et, dims, [self.elem(et) for _ in range(n)],
                           sized=r.random() < .3 and not et.endswith("]"))
        return newarr(et, [self.length(d) for d in dims])

    def length(self, d):
        r = self.r
        q = r.random()
        if q < .5:
            return I(d)
        if q < .8:
            return lit(r.choice(INTS), d)
        return binop("-", I(d + 4), I(4))

    def index(self, v):
        """An expression with the value v, of some integer type."""
        r = self.r
        q = r.random()
        if q < .5 or not -128 <= v <= 127:
            return I(v)
        ts = [t for t in INTS if rng(t)[0] <= v]
        if q < .75:
            return lit(r.choice(ts), v)
        t = r.choice(ts)
        self.k += 1
        x = self.m.local("i%d" % self.k, t)
        self.pre.append(decl(x, lit(t, v)))
        if q < .85:
            return binop("+", x, lit(t, 0)) if promote2(t, t) == t else x
        return x

    # ---- access
    def access(self, want=None, fault=0.0):
        """An element of some array, (expression, faults)."""
        r = self.r
        c = [v for v in self.vars if v[2] is not None and 0 not in v[2] and want in (None, v[1])]
        if not c:
            return None, False
        e, et, dims = r.choice(c)
        ix = [r.randrange(d) for d in dims]
        bad = r.random() < fault
        if bad:
            i = r.randrange(len(ix))
            d = dims[i]
            ix[i] = r.choice([d, d, d + 1, -1, -1, -d, 2 * d, d * 3 + 1, 2147483647, -2147483648, 1000000])
            if 0 <= ix[i] < d:
                bad = False
        return idx(e, [self.index(v) for v in ix], et), bad

    def show(self, x):
        """Statements printing the value of an element."""
        t = x.ty
        if t in PRIMS:
            return [write(Store.shown(x))]
        if t == "E":
            return [write(cast("int", paren(x)))]
        if t == "string":
            return [write(x)]
        if t == "S":
            f, ft = self.r.choice(self.S.fields)
            return [write(Store.shown(self.S.f(x, f)))]
        if t in ("A", "B", "IV"):
            o = {"A": self.A, "B": self.A, "IV": self.iface}[t]
            return [if_(binop("!=", x, null(t)), block([write(Prog.icall(x, o.methods[0], []))]),
                        say("null"))]
        if t == "object":
            return [write(isinst(x, "int")), write(isinst(x, "B"))]
        if t.endswith("]"):
            return [if_(binop("!=", x, null(t)), block([write(length(x))]), say("none"))]
        raise ValueError(t)

    def guarded(self, ss):
        return [try_(block(ss), [("OutOfRangeException", None, block([say("range")])),
                                 ("NullReferenceException", None, block([say("null")]))])]

    def stmt(self):
        r = self.r
        self.pre = []
        q = r.random()
        x, bad = self.access(fault=.3)
        if x is None:
            return []
        t = x.ty
        if q < .35:
            v = self.elem(t)
            s = [expr(asg(x, v))]
            if t in PRIMS and v.ty == t and r.random() < .3:
                y = self.m.local("y%d" % self.uid(), t)
                s = [decl(y, asg(x, v))] + self.show(y)
        elif q < .55 and t in INTS:
            if r.random() < .5:
                s = [write(inc(x, r.random() < .5, r.random() < .5))]
            elif promote2(t, t) == t:
                s = [expr(casg(r.choice(["+", "-", "*", "&", "|", "^"]), x, rlit(r, t)))]
            else:
                s = [expr(inc(x, False, True))]
        elif q < .6 and t == "S":
            f, ft = r.choice(self.S.fields)
            s = [expr(asg(self.S.f(x, f), rlit(r, ft)))]
        elif q < .68 and t in ("A", "B"):
            s = [expr(asg(self.A.f(x, "x"), I(r.randrange(100))))]
        elif q < .73 and t in ("A", "B", "IV"):
            o = self.iface if t == "IV" else self.A
            s = [write(Prog.icall(x, o.methods[0], []))]
        elif q < .8 and t.endswith("[]"):
            y = idx(x, [I(r.choice([0, 0, 1, 2, 3]))], t[:-2])
            s = self.show(y) if r.random() < .5 else [expr(asg(y, self.elem(t[:-2])))]
        else:
            s = self.show(x)
        # a null array or element may be met anywhere: guard every statement that can fault
        pre, self.pre = self.pre, []
        return pre + (self.guarded(s) if bad or t in ("A", "B", "IV") or "]" in t or
                      r.random() < .1 else s)

    def uid(self):
        self.k += 1
        return self.k

    def whole(self):
        """Something about an array as a whole."""
        r = self.r
        c = [v for v in self.vars if v[2] is not None]
        e, et, dims = r.choice(c)
        q = r.random()
        if q < .5:
            k = r.randrange(len(dims))
            return [write(r.choice([length(e), rank(e), dimlen(e, k), dimlen(e, k)]))]
        same = [v for v in self.vars if v[0].ty == e.ty]
        if q < .65:
            return [write(binop(r.choice(["==", "!="]), e, r.choice(same)[0])),
                    write(binop("==", e, null(e.ty)))]
        if q < .8:
            o = self.m.local("o%d" % self.uid(), "object")
            y = cast(e.ty, o)
            out = [decl(o, e), write(isinst(o, e.ty)), write(length(paren(y)))]
            if 0 not in dims:
                out += self.show(idx(paren(y), [I(r.randrange(d)) for d in dims], et))
            return out
        return self.loop(e, et, dims)

    def loop(self, e, et, dims):
        """Nested loops over all elements, with the lengths taken from the array."""
        r = self.r
        n = 1
        for d in dims:
            n *= d
        if n > 24 or len(dims) > 3:
            return []
        iv = [self.m.local("j%d" % self.uid(), "int") for _ in dims]
        x = idx(e, iv, et)
        body = []
        if et in ("int", "long") and r.random() < .5:
            body.append(expr(casg("+", x, iv[0])))
        body += self.show(x)
        s = block(body)
        for k in range(len(dims) - 1, -1, -1):
            hi = length(e) if len(dims) == 1 and r.random() < .5 else dimlen(e, k)
            if r.random() < .2:
                s = for_(decl(iv[k], binop("-", hi, I(1))), binop(">=", iv[k], I(0)),
                         inc(iv[k], False, False), s)
            else:
                s = for_(decl(iv[k], I(0)), binop("<", iv[k], hi), inc(iv[k], False, True), s)
        return [s]

    def dims(self):
        r = self.r
        k = r.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 9])
        if k == 1:
            return [r.choice([0, 1, 2, 3, 4, 5, 7, 16])]
        hi = {2: [1, 2, 3, 4, 5], 3: [1, 2, 3], 4: [1, 2, 2], 5: [1, 2], 9: [1, 1, 2]}[k]
        return [r.choice(hi + [2]) for _ in range(k)]

    def build(self):
        r, p = self.r, self.p
        # a helper that works on the arrays it is given
        ets = PRIMS + ["E", "string", "A", "B", "IV", "object", "S", "int[]", "byte[]", "A[]"]
        plan = [(r.choice(ets), self.dims()) for _ in range(r.randrange(2, 6))]
        plan = [(t, d if not t.endswith("]") and (t != "string" or len(d) < 4) else
                 [r.choice([1, 2, 3])]) for t, d in plan]
        out = []
        self.m = p.main
        hv = p.main.local("h", "H")
        for i, (et, d) in enumerate(plan):
            if r.random() < .35:
                self.H.field("a%d" % i, tyname(et, d))
        out.append(decl(hv, Prog.new(self.H)))
        self.pre = []
        base = []
        for i, (et, d) in enumerate(plan):
            if ("a%d" % i) in dict(self.H.own):
                x = self.H.f(hv, "a%d" % i)
                out.append(expr(asg(x, self.fresharr(et, d))))
            else:
                x = p.main.local("a%d" % i, tyname(et, d))
                out.append(decl(x, self.fresharr(et, d)))
            out += self.pre
            self.pre = []
            self.vars.append((x, et, d))
        base = list(self.vars)
        if r.random() < .4:                  # a second name for the same array
            e, et, d = r.choice(base)
            y = p.main.local("z", e.ty)
            out.append(decl(y, e))
            self.vars.append((y, et, d))
        for _ in range(r.randrange(3, 9)):
            out += self.stmt()
        for _ in range(r.randrange(1, 4)):
            out += self.whole()
        if r.random() < .3:                  # a null array
            et, d = r.choice([("int", [2]), ("byte", [2, 2]), ("A", [3]), ("long", [1, 1, 1])])
            y = p.main.local("n", tyname(et, d))
            out.append(decl(y, null(y.ty)))
            x = idx(y, [I(0)] * len(d), et)
            out += self.guarded(self.show(x) if r.random() < .5 else [expr(asg(x, self.elem(et)))])
        # the same through parameters
        args = r.sample(base, min(len(base), r.randrange(1, 4)))
        f = p.static("Use", "int", [("p%d" % i, e.ty, r.choice(["", "", "ref"]) if "." not in e.txt
                                     else "") for i, (e, _, _) in enumerate(args)])
        saved, self.vars, self.m = self.vars, [], f
        for i, (e, et, d) in enumerate(args):
            self.vars.append((f.p(i), et, d))
        b = []
        for _ in range(r.randrange(2, 6)):
            b += self.stmt()
        b += self.whole()
        for i, (_, _, mode, v) in enumerate(f.params):      # replace an array
            if r.random() < .4:
                e, et, d = args[i]
                nd = d if et.endswith("]") else [r.choice([1, 2, 3]) for _ in d]
                b.append(expr(asg(v, self.fresharr(et, nd))))
                b += self.pre
                self.pre = []
                self.vars[i] = (v, et, nd)
                if mode == "ref":
                    saved = [(x, t, nd) if x is e else (x, t, dd) for x, t, dd in saved]
        b += self.whole()
        b.append(return_(length(self.vars[0][0])))
        f.body = block(b)
        self.vars, self.m = saved, p.main
        out.append(write(Prog.call(f, [refarg(e) if f.params[i][2] else e
                                       for i, (e, _, _) in enumerate(args)])))
        for _ in range(r.randrange(1, 5)):
            out += self.stmt()
        for e, et, d in self.vars:
            out += [write(length(e))] + self.loop(e, et, d)
        p.main.body = block(out)
        return p


def tyname(et, dims):
    return et + "[" + "," * (len(dims) - 1) + "]"


def gen_array(r, tier):
    return [Case(Arrays(r).build(), (r.choice(OPTS),)) for _ in range(200 if tier == "quick" else 2000)]


# ---------------------------------------------------------------- C13 properties
class Props:
    """Classes, structs and interfaces whose state is reached through accessors."""

    def __init__(self, r):
        self.r, self.p = r, Prog()
        p = self.p
        self.elem = p.cls("El")
        self.elem.field("v", "int")
        self.val = p.struct("Val")
        self.val.field("a", "int")
        self.val.field("b", r.choice(["byte", "long", "int"]))
        ts = ["int"] * 4 + INTS + ["bool", "char", "string", "int[]", "El", "Val"]
        self.pool = []                       # name, type, get, set
        for i in range(r.randrange(3, 8)):
            t = r.choice(ts)
            g, s = r.choice([(True, True)] * 4 + [(True, False)])
            self.pool.append(("P%d" % i, t, g, s))
        self.ifaces, self.types, self.info = [], [], {}
        self.inuse = set()
        for i in range(r.choice([0, 1, 1, 2])):
            t = p.iface("I%d" % i)
            ks = r.sample(range(len(self.pool)), r.randrange(1, min(4, len(self.pool)) + 1))
            self.info[t.name] = dict(vis={k: self.decl(t, k, "") for k in ks}, base=None, ifs=[t])
            self.inuse |= set(ks)
            self.ifaces.append(t)
        for i in range(r.randrange(1, 5)):
            self.new_class(i)
        for i in range(r.choice([0, 1, 1])):
            self.new_struct(i)

    def decl(self, t, k, virt):
        n, ty, g, s = self.pool[k]
        return t.prop(n, ty, g, s, virt)

    def new_class(self, i):
        r = self.r
        cs = [t for t in self.types if t.kind == "class"]
        base = r.choice(cs) if cs and r.random() < .75 else None
        ifs = r.sample(self.ifaces, min(len(self.ifaces), r.choice([0, 1, 1, 2])))
        abstract = r.random() < .2 and i < 2
        t = self.p.cls("C%d" % i, base, ifs, abstract=abstract)
        bi = self.info[base.name] if base else dict(vis={}, virt=set(), abs=set())
        vis, virt, absm = dict(bi["vis"]), set(bi["virt"]), set(bi["abs"])
        need = {k for f in ifs for k in self.info[f.name]["vis"]}
        for k in range(len(self.pool)):
            q = r.random()
            if k in vis:
                if k in absm:
                    if abstract and q < .5:
                        continue
                elif k not in virt or q < .5:
                    continue
                v = "override"
                absm.discard(k)
            elif k in need or q < .6:
                v = r.choice(["", "virtual"] + (["abstract"] if abstract and k not in need else []))
            else:
                continue
            if v in ("virtual", "abstract"):
                virt.add(k)
            if v == "abstract":
                absm.add(k)
                vis[k] = self.decl(t, k, v)
            else:
                vis[k] = self.implement(t, k, v)
        self.info[t.name] = dict(vis=vis, virt=virt, abs=absm, base=base, ifs=ifs, abstract=abstract)
        self.types.append(t)

    def new_struct(self, i):
        r = self.r
        ifs = r.sample(self.ifaces, min(len(self.ifaces), r.choice([0, 1])))
        t = self.p.struct("S%d" % i, ifs)
        t.field("z", r.choice(["int", "byte"]))
        need = {k for f in ifs for k in self.info[f.name]["vis"]}
        vis = {}
        for k in range(len(self.pool)):
            if (k in need or r.random() < .6) and self.pool[k][1] != "Val":
                vis[k] = self.implement(t, k, "")
            elif k in need:
                vis[k] = self.implement(t, k, "")
        self.info[t.name] = dict(vis=vis, base=None, ifs=ifs, abstract=False, abs=set())
        self.types.append(t)

    def tweak(self, x, t):
        """A value of type t made from x."""
        r = self.r
        if t in ("int", "long", "uint", "ulong"):
            return binop(r.choice(["+", "-", "*", "^"]), x, lit(t, r.randrange(1, 9)))
        if t in INTS:
            return cast(t, paren(binop(r.choice(["+", "*"]), x, lit(t, r.randrange(1, 9)))))
        if t == "bool":
            return un("!", x)
        return x

    def implement(self, t, k, virt):
        r = self.r
        n, ty, hasg, hass = self.pool[k]
        if hasg and hass and r.random() < .3:
            return t.autoprop(n, ty, virt)
        f = "_%s%s" % (n, t.name)
        t.field(f, ty)
        loud = r.random() < .5
        if not any(x == "n" + t.name for x, _ in t.own) and r.random() < .4:
            t.field("n" + t.name, "int")
        g, s = self.decl(t, k, virt)
        cnt = [x for x, _ in t.own if x == "n" + t.name]
        base = self.info[t.base.name] if t.base and t.name not in self.info else None

        def name(m, x):
            return t.f(m.this, x, "this." + x if r.random() < .7 or t.base else x)

        out = [say("%s.%s?" % (t.name, n))] if loud else []
        if cnt and r.random() < .5:
            out.append(expr(inc(name(g, cnt[0]), r.random() < .5, True)))
        if ty in ("int[]", "El"):
            nw = newarr("int", [I(3)]) if ty == "int[]" else Prog.new(self.elem)
            z = name(g, f)
            g.body = block(out + [if_(binop("==", z, null(ty)), block([expr(asg(z, nw))])), return_(z)])
        elif ty in INTS and r.random() < .3:
            g.body = block(out + [if_(binop(r.choice("<>"), name(g, f), lit(ty, r.randrange(0, 60))),
                                      block([return_(self.tweak(name(g, f), ty))])),
                                  return_(name(g, f))])
        else:
            g.body = block(out + [return_(self.tweak(name(g, f), ty) if r.random() < .4 else name(g, f))])
        if s:
            out = [say("%s.%s!" % (t.name, n))] if loud else []
            v = s.p(0)
            if loud and ty in PRIMS + ["string"] and r.random() < .5:
                out.append(write(v))
            if cnt and r.random() < .5:
                out.append(expr(inc(name(s, cnt[0]), r.random() < .5, True)))
            st = expr(asg(name(s, f), self.tweak(v, ty) if r.random() < .4 else v))
            if ty in INTS and r.random() < .3:
                out.append(if_(binop(r.choice(["<", ">="]), v, lit(ty, r.randrange(0, 60))),
                               block([st])))
            else:
                out.append(st)
            if virt == "override" and base and r.random() < .4 and k not in base["abs"]:
                bs = base["vis"][k][1]
                out.append(Prog.pset(s.this, bs, v, txt="base." + n))
                out[-1].d["e"].d["sig"] = ""
            s.body = block(out)
        return g, s

    # ---- use
    def holders(self, t):
        """Types through which an object of type t can be reached."""
        res = [t]
        c = t
        while c is not None:
            i = self.info[c.name]
            if c is not t:
                res.append(c)
            res += i["ifs"]
            c = i["base"]
        return res

    def receivers(self, m, out):
        r = self.r
        res = []                             # (expression, static type)
        for t in self.types:
            i = self.info[t.name]
            if t.kind == "class" and (i["abstract"] or i["abs"]):
                continue
            for _ in range(r.choice([1, 1, 2])):
                v = m.fresh(t.name, "o")
                out.append(decl(v, Prog.new(t)))
                res.append((v, t))
                ks = {k: a for k, a in i["vis"].items() if self.pool[k][1] in ("string", "char")}
                init = {"string": lambda: string(r.choice(["s", "tu", "vwx"])),
                        "char": lambda: rlit(r, "char")}
                for k, (g, s) in ks.items():
                    if s:
                        out.append(Prog.pset(v, s, init[self.pool[k][1]]()))
                for h in r.sample(self.holders(t), min(2, len(self.holders(t)))):
                    if h is t:
                        continue
                    x = m.fresh(h.name, "h")
                    out.append(decl(x, v))
                    res.append((x, h))
            if r.random() < .4:
                a = m.fresh(t.name + "[]", "a")
                out.append(decl(a, newarr(t.name, [I(2)])))
                e = idx(a, [I(1)], t.name)
                out.append(expr(asg(e, Prog.new(t) if t.kind == "class" else v)))
                for k, (g, s) in ks.items():
                    if s:
                        out.append(Prog.pset(e, s, init[self.pool[k][1]]()))
                res.append((e, t))
        return res

    def build(self):
        r, p, m = self.r, self.p, self.p.main
        out = []
        recv = self.receivers(m, out)
        atoms, acts = {}, []

        def reader(x, t, g):
            return lambda: Prog.pget(x, g)

        def setter(x, t, s, ty):
            def f(fz):
                if ty in INTS:
                    v = fz.intx(ty) if r.random() < .7 else rlit(r, ty)
                elif ty == "bool":
                    v = fz.boolx(1)
                elif ty == "char":
                    v = rlit(r, ty)
                elif ty == "string":
                    v = string(r.choice(["", "k", "mn"]))
                elif ty == "int[]":
                    v = newarr("int", [I(r.randrange(3, 5))])
                elif ty == "El":
                    v = Prog.new(self.elem)
                else:
                    v = sv
                return Prog.pset(x, s, v)
            return f

        def update(x, g, s, ty):
            def f(fz):
                n = Prog.pget(x, g)
                if r.random() < .4 or promote2(ty, ty) != ty:
                    up, pre = r.random() < .5, r.random() < .5
                    v = cast(ty, paren(binop("+" if up else "-", n, lit(ty, 1))))
                    o = "++" if up else "--"
                    c = Prog.pset(x, s, v)
                    c.lines[0] = (o + n.txt if pre else n.txt + o) + ";"
                    return c
                op = r.choice(["+", "-", "*", "&", "|", "^"])
                v = fz.intx(ty)
                c = Prog.pset(x, s, binop(op, n, v))
                c.lines[0] = "%s %s= %s;" % (n.txt, op, v.txt)
                return c
            return f

        def shower(x, g, ty):
            if ty in PRIMS + ["string"]:
                return lambda fz: write(Prog.pget(x, g))
            if ty == "int[]":
                return lambda fz: r.choice([
                    lambda: write(idx(Prog.pget(x, g), [I(r.randrange(3))], "int")),
                    lambda: expr(asg(idx(Prog.pget(x, g), [I(r.randrange(3))], "int"), fz.intx("int"))),
                    lambda: write(length(Prog.pget(x, g)))])()
            if ty == "El":
                return lambda fz: r.choice([
                    lambda: write(self.elem.f(Prog.pget(x, g), "v")),
                    lambda: expr(asg(self.elem.f(Prog.pget(x, g), "v"), fz.intx("int")))])()
            return lambda fz: block([expr(asg(sv, Prog.pget(x, g))),
                                     write(self.val.f(sv, "a")), write(self.val.f(sv, "b")),
                                     expr(asg(self.val.f(sv, "a"), fz.intx("int")))])

        sv = m.local("sv", "Val")
        out.append(decl(sv, Prog.new(self.val)))
        for x, t in recv:
            for k, (g, s) in self.info[t.name]["vis"].items():
                n, ty, _, _ = self.pool[k]
                if g is not None:
                    if ty in ("string", "char") and not s:
                        continue             # never set
                    acts.append(shower(x, g, ty))
                    if ty in INTS + ["bool"]:
                        atoms.setdefault(ty, []).append(reader(x, t, g))
                if s is not None:
                    acts.append(setter(x, t, s, ty))
                    if ty in INTS:
                        acts.append(update(x, g, s, ty))
        if not acts:
            return self.__class__(r).build()
        types = ["int"] + [t for t in atoms if t in INTS]
        f = Fuzz(r, m, types=types, depth=2, budget=30, ret="void", atoms=atoms, acts=acts,
                 stm=dict(act=12, switch=0))
        f.fill(22)
        m.body = block(out + m.body.d["b"])
        return p


def gen_prop(r, tier):
    return [Case(Props(r).build(), (r.choice(OPTS),)) for _ in range(120 if tier == "quick" else 1500)]


# ---------------------------------------------------------------- C17 delegates
class DType:
    """The type Delegate<R, A...>."""

    def __init__(self, ret, ps):
        self.ret, self.ps = ret, list(ps)
        self.name = "Delegate<%s>" % ", ".join([ret] + self.ps)


def loc(m, out, t, ty):
    v = m.fresh(t, "z")
    out.append(decl(v, Prog.new(ty)))
    return v


class Delegs:
    """Methods as values: held in variables, fields, properties and arrays, passed, returned."""

    def __init__(self, r):
        self.r, self.p = r, Prog()
        p = self.p
        self.rec = p.struct("Rec")
        self.rec.field("a", "int")
        self.rec.field("b", r.choice(["byte", "long", "short"]))
        self.sigs = []
        for _ in range(r.randrange(1, 4)):
            ret = r.choice(["int", "int", "int", "long", "byte", "bool", "void", "uint", "string", "Rec"])
            ps = [r.choice(["int", "int", "int", "long", "byte", "short", "ulong", "bool", "char",
                            "string", "Rec"]) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5, 8]))]
            d = DType(ret, ps)
            if d.name not in [x.name for x in self.sigs]:
                self.sigs.append(d)
        self.k = p.cls("K")
        self.k.field("n", "int")
        self.k.field("m", r.choice(["byte", "long"]))
        self.targets = {}                    # delegate type -> [(method, is instance)]
        n = 0
        for d in self.sigs:
            ts = self.targets[d.name] = []
            for _ in range(r.randrange(2, 5)):
                ps = [("p%d" % i, t) for i, t in enumerate(d.ps)]
                q = r.random()
                if q < .5:
                    m, inst = p.static("F%d" % n, d.ret, ps), False
                elif q < .9:
                    m, inst = self.k.method("F%d" % n, d.ret, ps), True
                else:
                    m, inst = self.k.method("F%d" % n, d.ret, ps, static=True), False
                n += 1
                self.body(m, inst)
                ts.append((m, inst))
            # the class holds delegates too
            self.k.field("d%d" % self.sigs.index(d), d.name)
        self.props = {}
        for d in self.sigs:
            if r.random() < .5:
                self.props[d.name] = self.k.autoprop("D%d" % self.sigs.index(d), d.name)
        self.selfs, self.appl, self.pick = {}, {}, {}
        for d in self.sigs:
            i = self.sigs.index(d)
            if any(inst for _, inst in self.targets[d.name]):
                # an instance method hands out a delegate of its own object
                g = self.k.method("Me%d" % i, d.name)
                mt = r.choice([m for m, inst in self.targets[d.name] if inst])
                x = self.mk(d, mt, g.this, r.choice([mt.name, "this." + mt.name]))
                if r.random() < .5:
                    g.body = block([return_(x)])
                else:
                    v = g.local("d", d.name)
                    g.body = block([decl(v, x), return_(v)])
                self.selfs[d.name] = g
            self.higher(d, i)

    @staticmethod
    def mk(d, m, o=None, txt=None):
        x = Prog.deleg(d, m, o)
        if o is None and m.cls is not None:
            x.txt = "%s.%s" % (m.cls.name, m.name)
        if txt:
            x.txt = txt
        return x

    def value(self, t, vs=()):
        r = self.r
        ok = [v for v in vs if v.ty == t]
        if ok and r.random() < .6:
            return r.choice(ok)
        if t == "string":
            return string(r.choice(["", "a", "bc"]))
        if t == "Rec":
            return Prog.new(self.rec)
        return rlit(r, t) if r.random() < .5 or t in ("bool", "char") else lit(t, r.randrange(0, 9))

    def show(self, e):
        if e.ty == "Rec":
            return write(self.rec.f(e, self.r.choice(["a", "b"])))
        return write(e)

    def body(self, m, inst):
        r = self.r
        out = [say(m.name)]
        for i in range(len(m.params)):
            if r.random() < .6:
                out.append(self.show(m.p(i)))
        if inst:
            f = self.k.f(m.this, r.choice(["n", "n", "m"]), None)
            if r.random() < .6:
                out.append(expr(inc(f, r.random() < .5, r.random() < .7)))
            ints = [v for _, t, _, v in m.params if t == "int"]
            if ints and r.random() < .5:
                g = self.k.f(m.this, "n")
                out.append(expr(asg(g, binop(r.choice("+-*"), g, r.choice(ints)))))
            out.append(write(f))
        if r.random() < .3:
            ints = [v for _, t, _, v in m.params if t == "int"]
            if ints:
                out.append(if_(binop(">", r.choice(ints), I(r.randrange(3, 20))),
                               block([throw(Prog.new(r.choice(EXC)))])))
        if m.ret != "void":
            vs = [v for _, t, _, v in m.params]
            if inst and m.ret == "int":
                vs = vs + [self.k.f(m.this, "n")]
            v = self.value(m.ret, vs)
            if m.ret in ("int", "long", "uint") and r.random() < .5:
                v = binop(r.choice("+-*"), v, self.value(m.ret, vs))
            if m.ret == "Rec":
                loc = m.local("res", "Rec")
                out += [decl(loc, v), expr(asg(self.rec.f(loc, "a"), rlit(r, "int")))]
                v = loc
            out.append(return_(v))
        m.body = block(out)

    def higher(self, d, i):
        """Methods that take and return delegates of type d."""
        r, p = self.r, self.p
        m = p.static("Ap%d" % i, d.ret, [("f", d.name)] + [("p%d" % j, t) for j, t in enumerate(d.ps)]
                     + [("k", "int")])
        k = m.p(len(m.params) - 1)
        vs = [m.p(j + 1) for j in range(len(d.ps))]
        c = Prog.invoke(m.p(0), d, vs)
        out = [say("Ap%d" % i)]
        ints = [v for v in vs if v.ty == "int"]
        if ints and r.random() < .5:
            out.append(expr(inc(r.choice(ints), True, True)))
        if r.random() < .5:
            c2 = Prog.invoke(m.p(0), d, [self.value(t, vs) for t in d.ps])
            if d.ret == "Rec":
                out.append(expr(asg(r.choice([v for v in vs if v.ty == "Rec"] or
                                             [loc(m, out, "Rec", self.rec)]), c2)))
            else:
                out.append(expr(c2) if d.ret == "void" or r.random() < .3 else self.show(c2))
        rec = Prog.call(m, [m.p(0)] + [self.value(t, vs) for t in d.ps] + [binop("-", k, I(1))])
        if d.ret == "void":
            out += [expr(c), if_(binop(">", k, I(0)), block([expr(rec)]))]
        elif d.ret in ("int", "long", "uint"):
            out += [if_(binop(">", k, I(0)), block([return_(binop(r.choice("+-*"), *r.choice(
                [(c, rec), (rec, c)])))])), return_(binop("+", c, lit(d.ret, 1)))]
        else:
            out += [if_(binop(">", k, I(0)), block([return_(rec)])), return_(c)]
        m.body = block(out)
        self.appl[d.name] = m
        m = p.static("Pick%d" % i, d.name, [("b", "bool"), ("x", d.name), ("y", d.name)])
        if r.random() < .5:
            m.body = block([if_(m.p(0), block([return_(m.p(1))])), return_(m.p(2))])
        else:
            m.body = block([return_(cond(m.p(0), m.p(1), m.p(2)))])
        self.pick[d.name] = m

    def build(self):
        r, p, m = self.r, self.p, self.p.main
        out, ks, vs, arrs = [], [], {}, {}
        for _ in range(r.choice([1, 2, 2])):
            v = m.fresh("K", "k")
            out.append(decl(v, Prog.new(self.k)))
            out.append(expr(asg(self.k.f(v, "n"), rlit(r, "int"))))
            ks.append(v)
        rv = m.local("rv", "Rec")
        out.append(decl(rv, Prog.new(self.rec)))
        fill = []

        def source(d):
            """An expression that is a delegate of type d."""
            q = r.random()
            if vs.get(d.name) and q < .25:
                return r.choice(vs[d.name])
            if q < .33 and d.name in self.selfs:
                return Prog.icall(r.choice(ks), self.selfs[d.name], [])
            if q < .45 and vs.get(d.name):
                xs = [r.choice(vs[d.name]) if r.random() < .7 else group(d) for _ in "xy"]
                return Prog.call(self.pick[d.name], [lit("bool", r.random() < .5)] + xs)
            if q < .55:
                a = [x for x in self.targets[d.name] if not x[1] and x[0].cls is None]
                if len(a) > 1:
                    return cond(binop(r.choice("<>"), self.k.f(r.choice(ks), "n"), rlit(r, "int")),
                                self.mk(d, r.choice(a)[0]), self.mk(d, r.choice(a)[0]))
            return group(d)

        def group(d):
            mt, inst = r.choice(self.targets[d.name])
            return self.mk(d, mt, r.choice(ks) if inst else None)

        for d in self.sigs:
            vs[d.name] = []
            for _ in range(r.randrange(1, 4)):
                s = source(d)
                v = m.fresh(d.name, "f")
                out.append(decl(v, s, "var" if s.d["k"] == "var" and r.random() < .3 else None))
                vs[d.name].append(v)
            i = self.sigs.index(d)
            for k in ks:
                out.append(expr(asg(self.k.f(k, "d%d" % i), source(d))))
                if d.name in self.props:
                    out.append(Prog.pset(k, self.props[d.name][1], source(d)))
            if r.random() < .6:
                a = m.fresh(d.name + "[]", "a")
                out.append(decl(a, newarr(d.name, [I(3)])))
                for j in range(3):
                    out.append(expr(asg(idx(a, [I(j)], d.name), source(d))))
                arrs[d.name] = a

        fz = []

        def args(d, simple=False):
            res = []
            for t in d.ps:
                if t == "Rec":
                    res.append(rv)
                elif t in INTS and fz and t in fz[0].types and not simple:
                    res.append(fz[0].intx(t, 1))
                else:
                    res.append(self.value(t))
            return res

        def call(d, own=False):
            v = r.choice(vs[d.name])
            if r.random() < .25:
                if own:
                    return Prog.call(self.appl[d.name], [source(d)] + args(d, True) + [I(r.randrange(0, 3))])
                return Prog.call(self.appl[d.name], [v] + args(d) + [I(r.randrange(0, 3))])
            return Prog.invoke(v, d, args(d))

        def use(d):
            def f(z):
                c = call(d, d.ret != "Rec")
                if d.ret == "void" or d.ret != "Rec" and r.random() < .2:
                    s = expr(c)
                elif d.ret == "Rec":
                    s = block([expr(asg(rv, c)), self.show(rv)])
                else:
                    s = self.show(c)
                if r.random() < .5:
                    return s
                return try_(block([s]), [("Exception", None, block([say("caught")]))])
            return f

        def move(d):
            def f(z):
                q = r.random()
                v = r.choice(vs[d.name])
                fld = self.k.f(r.choice(ks), "d%d" % self.sigs.index(d))
                if q < .3:
                    return expr(asg(v, source(d)))
                if q < .45:
                    return expr(asg(fld, source(d)))
                if q < .6:
                    return expr(asg(v, fld))
                if q < .7 and d.name in self.props:
                    k = r.choice(ks)
                    g, s = self.props[d.name]
                    return Prog.pset(k, s, source(d)) if r.random() < .5 else \
                        expr(asg(v, Prog.pget(k, g)))
                if d.name in arrs:
                    e = idx(arrs[d.name], [I(r.randrange(3))], d.name)
                    return expr(asg(e, source(d)) if r.random() < .4 else asg(v, e))
                return expr(asg(v, source(d)))
            return f

        acts = []
        atoms = {}
        for d in self.sigs:
            acts += [use(d), use(d), move(d)]
            if d.ret in INTS + ["bool"]:
                atoms.setdefault(d.ret, []).append(lambda d=d: call(d))
        # after a change of k, fields holding delegates are unset: they are set again by a helper
        reset = p.static("Fresh", "K", [("old", "K")])
        v = reset.local("k", "K")
        st = [decl(v, Prog.new(self.k))]
        for i, d in enumerate(self.sigs):
            st.append(expr(asg(self.k.f(v, "d%d" % i), self.k.f(reset.p(0), "d%d" % i))))
            if d.name in self.props:
                g, s = self.props[d.name]
                st.append(Prog.pset(v, s, Prog.pget(reset.p(0), g)))
        reset.body = block(st + [return_(v)])

        def change(z):
            k = r.choice(ks)
            if r.random() < .3:
                return expr(asg(k, Prog.call(reset, [k])))
            return expr(asg(self.k.f(k, "n"), z.intx("int")))
        acts.append(change)
        types = ["int"] + [t for t in atoms if t in INTS]
        f = Fuzz(r, m, types=types, depth=2, budget=26, ret="void", atoms=atoms, acts=acts,
                 stm=dict(act=12, switch=0))
        fz.append(f)
        f.fill(18)
        m.body = block(out + m.body.d["b"])
        return p


def gen_deleg(r, tier):
    return [Case(Delegs(r).build(), (r.choice(OPTS),)) for _ in range(120 if tier == "quick" else 1500)]


# ---------------------------------------------------------------- C14 faults
class Faults:
    """Accesses through null, outside of arrays and to the wrong type, at any depth of any
    expression, in methods that call each other, with handlers anywhere."""

    def __init__(self, r):
        self.r, self.p = r, Prog()
        p = self.p
        self.s = p.struct("S")
        self.s.field("p", "int")
        self.s.field("q", r.choice(["long", "byte"]))
        self.ix = p.iface("IX")
        z = self.z = self.ix.method("Z", "int", [("k", "int")])
        a = self.a = p.cls("A")
        for f, t in r.sample([("x", "int"), ("y", r.choice(["long", "byte", "short"])), ("next", "A"),
                              ("arr", "int[]"), ("s", "S"), ("i", "IX")], 6):
            a.field(f, t)
        self.b, self.c = p.cls("B", a), p.cls("C", None, [self.ix])
        self.err = p.cls("Err", "Exception")
        self.err.field("code", "int")
        m = self.errc = self.err.ctor([("c", "int")])
        m.body = block([expr(asg(self.err.f(m.this, "code"), m.p(0)))])
        m = self.v = a.method("V", "int", [("k", "int")], virt="virtual")
        m.body = block([say("A.V"), return_(binop("+", a.f(m.this, "x", "this.x"), m.p(0)))])
        m = self.b.method("V", "int", [("k", "int")], virt="override")
        nx = a.f(m.this, "next", "this.next")
        m.body = block([say("B.V")] + ([if_(land(binop(">", m.p(0), I(0)), binop("<", m.p(0), I(6))), block(
            [return_(Prog.icall(nx, self.v, [binop("-", m.p(0), I(1))]))]))] if r.random() < .5 else []) +
            [return_(binop("*", a.f(nx, "x"), m.p(0)))])
        m = self.c.method("Z", "int", [("k", "int")])
        m.body = block([say("C.Z"), if_(binop(">", m.p(0), I(r.randrange(2, 9))), block(
            [throw(Prog.new(self.err, self.errc, [m.p(0)]) if r.random() < .5 else
                   Prog.new(r.choice(EXC)))])), return_(binop("*", m.p(0), I(2)))])
        m = self.ctor = a.ctor([("o", "A")])
        m.body = block([say("new A"), expr(asg(a.f(m.this, "x", "this.x"),
                                               binop("+", a.f(m.p(0), "x"), I(1))))])
        self.ctor0 = a.ctor()
        self.ctor0.body = block([])
        self.prop = self.get = None
        if r.random() < .6:
            self.get, self.set = a.prop("P", "int")
            self.get.body = block([return_(a.f(a.f(self.get.this, "next", "this.next"), "x"))])
            self.set.body = block([expr(asg(a.f(a.f(self.set.this, "next", "this.next"), "x"),
                                            self.set.p(0)))])
        self.ws = []

    # ---- expressions over the references of a method
    def refs(self, f, t):
        return [v for v in self.env[f.m] if v.ty == t]

    def aexp(self, f, d=2):
        r, k = self.r, self.r.random()
        vs = self.refs(f, "A")
        if d > 0 and k < .3:
            return self.a.f(self.aexp(f, d - 1), "next")
        if d > 0 and k < .4:
            o = r.choice(self.refs(f, "object"))
            return cast(r.choice(["A", "A", "A", "B"]), o)
        if d > 0 and k < .5 and self.refs(f, "A[]"):
            return idx(r.choice(self.refs(f, "A[]")), [self.ind(f)], "A")
        return r.choice(vs)

    def ind(self, f, calm=True):
        r = self.r
        if calm or r.random() < .6:
            return I(r.choice([0, 0, 1, 1, 2, 3, 4, -1, 7, 2147483647, -2147483648])) \
                if r.random() < .7 else r.choice(self.refs(f, "int") or [I(0)])
        return f.intx("int", 1)

    def num(self, f):
        """An int expression that may throw."""
        r, k, a = self.r, self.r.random(), self.a
        if k < .25:
            return a.f(self.aexp(f), "x")
        if k < .35:
            return Prog.icall(self.aexp(f, 1), self.v, [f.intx("int", 1)])
        if k < .45:
            i = r.choice(self.refs(f, "IX"))
            q = r.random()
            if q < .3:
                i = cast("IX", r.choice(self.refs(f, "object")))
            elif q < .5:
                i = a.f(self.aexp(f, 1), "i")
            return Prog.icall(i, self.z, [f.intx("int", 1)])
        if k < .6:
            return idx(r.choice(self.refs(f, "int[]")), [self.ind(f, False)], "int")
        if k < .68:
            return idx(a.f(self.aexp(f, 1), "arr"), [self.ind(f)], "int")
        if k < .76:
            return self.s.f(a.f(self.aexp(f, 1), "s"), "p")
        if k < .84:
            return cast("int", r.choice(self.refs(f, "object")))
        if k < .92 and self.get:
            return Prog.pget(self.aexp(f, 1), self.get)
        if self.ws:
            return self.callw(f, [w for w in self.ws if w.ret == "int"] or None) or a.f(self.aexp(f), "x")
        return a.f(self.aexp(f), "x")

    def truth(self, f):
        r = self.r
        k = r.random()
        o = r.choice(self.refs(f, "object"))
        if k < .4:
            return isinst(o, r.choice(["A", "B", "IX", "int", "C"]))
        e = self.aexp(f, 1)
        return binop(r.choice(["==", "!="]), e, null("A"))

    def callw(self, f, ws):
        r = self.r
        if not ws:
            return None
        w = r.choice(ws)
        return Prog.call(w, [r.choice(self.refs(f, t)) if t != "int" else f.intx("int", 1)
                             for t in w.ptypes])

    def grid(self, f):
        """A read or a write of an element of an array of any rank and any type of element."""
        r = self.r
        v, t, d = r.choice(self.grids[f.m])
        if r.random() < .25:
            return expr(asg(v, null(v.ty) if r.random() < .6 else
                            newarr(t, [I(r.randrange(0, 3)) for _ in range(d)])))
        e = idx(v, [self.ind(f) if r.random() < .15 else I(r.choice([0, 0, 0, 1])) for _ in range(d)], t)
        if r.random() < .5:
            if t in ("A", "object", "S"):
                x = self.refs(f, t)
                if x:
                    return expr(asg(r.choice(x), e))
            elif t == "char":
                return write(binop("==", e, lit("char", 97)))
            elif t != "string":
                return write(e)
        if t == "A":
            return expr(asg(e, r.choice(self.refs(f, "A"))))
        if t == "S":
            x = self.refs(f, "S")
            return expr(asg(e, r.choice(x) if x else Prog.new(self.s)))
        if t == "object":
            return expr(asg(e, r.choice(self.refs(f, "object"))))
        if t == "string":
            return expr(asg(e, string("w")))
        if t == "char":
            return expr(asg(e, lit("char", r.randrange(97, 123))))
        return expr(asg(e, rlit(r, t)))

    def act(self, f):
        r, k, a = self.r, self.r.random(), self.a
        if r.random() < .12:
            return self.grid(f)
        if k < .12:
            return expr(asg(a.f(self.aexp(f), "x"), f.intx("int", 1)))
        if k < .18:
            return expr(inc(a.f(self.aexp(f, 1), r.choice(["x", "y"])), r.random() < .5, True))
        if k < .24:
            v = r.choice(self.refs(f, "int") or [I(3)])
            return expr(casg(r.choice("+-"), a.f(self.aexp(f, 1), "x"), v))
        if k < .32:
            return expr(asg(a.f(self.aexp(f, 1), "next"), self.aexp(f, 1)))
        if k < .40:
            return expr(asg(r.choice(self.refs(f, "A")), r.choice(
                [lambda: self.aexp(f), lambda: Prog.new(a, self.ctor0), lambda: null("A"),
                 lambda: Prog.new(a, self.ctor, [self.aexp(f, 1)]), lambda: Prog.new(self.b)])()))
        if k < .50:
            return expr(asg(r.choice(self.refs(f, "object")), r.choice(
                [lambda: self.aexp(f), lambda: I(r.randrange(50)), lambda: lit("byte", 7),
                 lambda: Prog.new(self.c), lambda: Prog.new(self.b), lambda: null("object"),
                 lambda: string("q")])()))
        if k < .58:
            return expr(asg(r.choice(self.refs(f, "int[]")), r.choice(
                [lambda: newarr("int", [I(r.randrange(0, 4))]), lambda: null("int[]"),
                 lambda: a.f(self.aexp(f, 1), "arr")])()))
        if k < .64:
            return expr(asg(idx(r.choice(self.refs(f, "int[]")), [self.ind(f, False)], "int"),
                            f.intx("int", 1)))
        if k < .68:
            return expr(asg(a.f(self.aexp(f, 1), "arr"), r.choice(self.refs(f, "int[]"))))
        if k < .72:
            return expr(asg(a.f(self.aexp(f, 1), "i"), r.choice(
                [r.choice(self.refs(f, "IX")), cast("IX", r.choice(self.refs(f, "object")))])))
        if k < .76:
            return expr(asg(r.choice(self.refs(f, "IX")), r.choice(
                [null("IX"), Prog.new(self.c), cast("IX", r.choice(self.refs(f, "object")))])))
        if k < .80:
            return expr(asg(self.s.f(a.f(self.aexp(f, 1), "s"), r.choice("p")), f.intx("int", 1)))
        if k < .84 and self.refs(f, "S"):
            v = r.choice(self.refs(f, "S"))
            x = a.f(self.aexp(f, 1), "s")
            return expr(asg(v, x) if r.random() < .5 else asg(x, v))
        if k < .90:
            e = r.choice([lambda: Prog.new(self.err, self.errc, [f.intx("int", 1)]),
                          lambda: Prog.new(r.choice(EXC)), lambda: null("Exception"),
                          lambda: cast(r.choice(["Exception", "Err"]), r.choice(self.refs(f, "object")))
                          ])()
            return if_(f.boolx(1), block([throw(e)]))
        if k < .94 and self.get:
            return Prog.pset(self.aexp(f, 1), self.set, f.intx("int", 1))
        if self.ws:
            w = self.callw(f, self.ws)
            return expr(w) if w.ty == "void" or r.random() < .5 else write(w)
        return write(self.num(f))

    def handler(self, m):
        """The classes of a list of handlers and their bodies."""
        r = self.r
        cs = []
        for t in r.sample(EXC + ["Err", "Err"], r.randrange(1, 4)):
            if t in [c[0] for c in cs]:
                continue
            v, b = None, [say("catch " + t)]
            if t == "Err" and r.random() < .8:
                v = m.fresh("Err", "e")
                b.append(write(self.err.f(v, "code")))
                if r.random() < .3:
                    b.append(throw(v))
            elif r.random() < .15:
                v = m.fresh(t, "e")
                b.append(throw(v))
            cs.append((t, v, block(b)))
        return cs

    def guard(self, f):
        """try around some acts."""
        r = self.r
        if f.nest > 1 or f.fin:
            return self.act(f)
        f.nest += 1
        st, f.cover = f.cover, 1
        b = [self.act(f) for _ in range(r.randrange(1, 4))] + [say("ok%d" % r.randrange(9))]
        f.nest -= 1
        f.cover = st
        fin = block([say("fin%d" % r.randrange(9))]) if r.random() < .4 else None
        cs = self.handler(f.m) if fin is None or r.random() < .7 else []
        s = try_(block(b), cs, fin)
        if not f.cover and r.random() < .93:
            s = try_(block([s]), [("Exception", None, block([say("else%d" % r.randrange(9))]))])
        return s

    def do(self, f):
        return self.act(f) if f.cover else self.guard(f)

    env = None

    def prepare(self, m, out):
        """The references a method works with: its parameters and some locals."""
        r = self.r
        vs = [v for _, t, _, v in m.params]
        def new(t, e, pre):
            v = m.fresh(t, pre)
            out.append(decl(v, e))
            vs.append(v)
        a = self.a
        for t, pre, es in [("A", "a", [lambda: null("A"), lambda: Prog.new(a, self.ctor0),
                                       lambda: Prog.new(self.b)]),
                           ("object", "o", [lambda: null("object"), lambda: I(5), lambda: Prog.new(self.b),
                                            lambda: Prog.new(self.c)]),
                           ("int[]", "r", [lambda: null("int[]"), lambda: newarr("int", [I(3)]),
                                           lambda: newarr("int", [I(0)])]),
                           ("IX", "i", [lambda: null("IX"), lambda: Prog.new(self.c)]),
                           ("A[]", "t", [lambda: newarr("A", [I(2)])])]:
            if not any(v.ty == t for v in vs) or r.random() < .4:
                new(t, r.choice(es)(), pre)
        if r.random() < .5:
            new("S", Prog.new(self.s), "s")
        new("int", I(r.randrange(0, 4)), "n")
        gs = self.grids[m] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t, d = r.choice(["int", "int", "long", "byte", "short", "bool", "char", "string", "object",
                             "A", "S"]), r.choice([1, 2, 2, 2, 3, 3])
            v = m.fresh("%s[%s]" % (t, "," * (d - 1)), "g")
            out.append(decl(v, null(v.ty) if r.random() < .5 else
                            newarr(t, [I(r.randrange(1, 3)) for _ in range(d)])))
            gs.append((v, t, d))
        self.env[m] = vs

    def method(self, m, budget):
        r = self.r
        out = []
        self.prepare(m, out)
        f = Fuzz(r, m, types=["int", "int", "long"], depth=2, budget=budget, ret=m.ret, label=m.name + ".",
                 exc=EXC, faulty=True,
                 stm=dict(try_=4, throw=0, act=7, call=0, write=3, ret=1 if m.ret != "void" else 0,
                          switch=0),
                 acts=[self.do, self.do, self.guard])
        f.atoms = {"int": [lambda: self.num(f)], "bool": [lambda: self.truth(f)]}
        f.cover = 0 if m is self.p.main or r.random() < .5 else 1
        for v in self.env[m]:
            if v.ty == "int" and not any(v is x for _, _, _, x in m.params):
                f.scopes[0].append((v, True))
        f.fill(12 if m is self.p.main else 6)
        m.body = block(out + m.body.d["b"])

    def build(self):
        r, p = self.r, self.p
        self.env, self.grids = {}, {}
        for i in range(r.randrange(1, 5)):
            ts = r.sample(["A", "A", "object", "int[]", "IX", "int", "int", "A[]"], r.randrange(1, 6))
            m = p.static("W%d" % i, r.choice(["int", "int", "void"]),
                         [("p%d" % j, t) for j, t in enumerate(ts)])
            self.method(m, 14)
            self.ws.append(m)
        self.method(p.main, 40)
        return p


def gen_fault(r, tier):
    return [Case(Faults(r).build(), (r.choice(OPTS),)) for _ in range(300 if tier == "quick" else 2500)]


# ---------------------------------------------------------------- C16 libraries
class Libs:
    """A program whose types are partly those of a separately compiled library."""

    def __init__(self, r):
        self.r, self.p = r, Prog()
        p = self.p
        nc, ni, ns = r.randrange(2, 8), r.randrange(0, 5), r.choice([0, 1, 2])
        self.w = World(r, p, nc=nc, ni=ni, ns=ns,
                       lib=(r.randrange(1, nc + 1), r.randrange(0, ni + 1), ns if r.random() < .5 else 0))
        self.ex = None
        if r.random() < .5:
            self.ex = p.cls("Oops", "Exception")
            self.ex.lib = True
        self.en = None
        if r.random() < .5:
            v, items = r.randrange(-3, 4), []
            for i in range(r.randrange(2, 6)):
                ex = r.random() < .4 or i == 0 and v != 0
                v = r.randrange(0, 300) if ex and i else v
                items.append(("L%d" % i, v, ex))
                v += 1
            self.en = p.enum("Kind", items)
            self.en.lib = True
        self.g = p.cls("Util")
        self.g.lib = True
        self.statics()

    def statics(self):
        """Static methods of the library: control flow, arrays, ref parameters, exceptions."""
        r, g = self.r, self.g
        self.fs = []
        exc = EXC + (["Oops"] if self.ex else [])
        for i in range(r.randrange(2, 6)):
            ret = r.choice(["int", "int", "long", "byte", "void"])
            ps = [("p%d" % j, r.choice(["int", "int", "long", "byte", "bool"]))
                  for j in range(r.randrange(0, 4))]
            m = g.method("F%d" % i, ret, ps, static=True)
            throws = r.random() < .3
            f = Fuzz(r, m, types=["int", "long", "byte"], depth=2, budget=12, ret=ret,
                     label="F%d" % i, exc=exc if throws else (),
                     stm=dict(try_=2 if throws else 0, throw=2 if throws else 0, arr=1, call=0))
            f.fill(5)
            self.fs.append(m)
        m = g.method("Arr", "int[]", [("n", "int")], static=True)
        a, i = m.local("a", "int[]"), m.local("i", "int")
        m.body = block([decl(a, newarr("int", [m.p(0)])), for_(decl(i, I(0)), binop("<", i, m.p(0)),
                        inc(i, False, True), block([expr(asg(idx(a, [i], "int"), binop("*", i, I(3))))])),
                        return_(a)])
        self.arr = m
        m = g.method("Upd", "void", [("x", "int", "ref"), ("y", "long", "out")], static=True)
        m.body = block([expr(casg("+", m.p(0), I(5))), expr(asg(m.p(1), rlit(r, "long")))])
        self.upd = m
        m = g.method("Box", "object", [("x", r.choice(["int", "byte", "long"]))], static=True)
        m.body = block([return_(m.p(0))])
        self.box = m
        self.over = []
        for t in r.sample(["int", "bool", "string", "char"], 3):
            m = g.method("Ov", "void", [("x", t)], static=True)
            m.body = block([say("Ov " + t), write(m.p(0))])
            self.over.append(m)

    def call(self, m, args, **kw):
        return Prog.call(m, args, txt="Util." + m.name, **kw)

    def build(self):
        r, p, w, m = self.r, self.p, self.w, self.p.main
        out, vs = world_main(r, p, w, m, n=18)
        ms = []
        for mt in self.fs:                   # called from Main and from a method of the program
            ms.append(mt)
        st = []
        for _ in range(r.randrange(2, 7)):
            mt = r.choice(ms)
            c = self.call(mt, [rlit(r, t) if r.random() < .5 or t == "bool" else lit(t, r.randrange(0, 9))
                               for t in mt.ptypes])
            s = expr(c) if mt.ret == "void" or r.random() < .2 else write(c)
            if r.random() < .6:
                cs = [("Oops", None, block([say("oops")]))] if self.ex and r.random() < .5 else []
                s = try_(block([s]), cs + [("Exception", None, block([say("caught")]))])
            st.append(s)
        x, y = m.fresh("int", "n"), m.fresh("long", "n")
        st += [decl(x, rlit(r, "int")), decl(y, lit("long", 0)),
               expr(self.call(self.upd, [refarg(x), refarg(y, "out")])), write(x), write(y)]
        a = m.fresh("int[]", "n")
        n = r.randrange(1, 6)
        st += [decl(a, self.call(self.arr, [I(n)])), write(idx(a, [I(r.randrange(n))], "int")),
               write(length(a))]
        o = m.fresh("object", "n")
        t = self.box.ptypes[0]
        st += [decl(o, self.call(self.box, [rlit(r, t)]))]
        st += [write(isinst(o, u)) for u in r.sample(["int", "byte", "long"], 2)]
        st += [write(cast(t, o))]
        for mt in self.over:
            v = string("s") if mt.ptypes[0] == "string" else rlit(r, mt.ptypes[0])
            st.append(expr(self.call(mt, [v], cands=self.over)))
        if self.en:
            e = m.fresh("Kind", "e")
            k = r.choice(self.en.enum)
            st.append(decl(e, Prog.item(self.en, k[0])))
            st.append(write(cast("int", e)))
            k2 = r.choice(self.en.enum)
            st.append(write(binop("==", e, Prog.item(self.en, k2[0]))))
        for v, s, c in r.sample(vs, min(4, len(vs))):     # the types at run time
            if c.kind == "class":
                o = m.fresh("object", "o")
                st.append(decl(o, cast("object", v) if s.kind == "interface" else v))
                for t in r.sample(w.classes + w.ifaces, min(3, len(w.classes + w.ifaces))):
                    st.append(write(isinst(o, t.name)))
        if self.ex and r.random() < .5:
            st.append(throw(Prog.new(self.ex)))
        p.main.body = block(out + st)
        return p


def gen_lib(r, tier):
    return [Case(lib_enum(r) if i % 4 == 0 else Libs(r).build(), (r.choice(OPTS),))
            for i in range(120 if tier == "quick" else 1400)]


# ---------------------------------------------------------------- C18 enums
class Enums:
    """Enums over every underlying type, their items defined in every way, and their values
    kept in every kind of place, converted, compared, passed and returned."""

    def __init__(self, r, us=INTS + ["int"] * 4):
        self.r, self.p, self.us = r, Prog(), us
        self.p.view = self.view
        self.k = 0
        self.es = [self.enum("E%d" % i) for i in range(r.randrange(1, 5))]
        self.env()

    @staticmethod
    def view(tr):
        return ["<refused>", "<end>"] if tr[0].startswith("<compile error CS7") or \
            tr[0].startswith("<library not compiled> * error CS7") else list(tr)

    def enum(self, name):
        """A new enum; rarely one that has an item without a value."""
        r = self.r
        u = r.choice(self.us)
        bad = r.random() < .04
        while True:
            its = self.items(name, u, bad)
            vals = {it["n"]: self.value(its, i, u, ()) for i, it in enumerate(its)}
            if bad or None not in vals.values():
                break
        e = self.p.enum(name, its, u)
        e.vals, e.bad = vals, None in vals.values()
        return e

    def items(self, name, u, bad):
        r = self.r
        lo, hi = rng(u)
        names = ["A", "B", "C", "D", "First", "Last", "None", "x", "y_1", "Zz", "k9", "If"]
        r.shuffle(names)
        names = names[:r.choice([1, 2, 3, 4, 5, 6, 8, 12])]
        its = []
        pr = r.choice([0, .1, .3])
        pl = r.choice([.1, .4, .7])
        for n in names:
            it = dict(n=n, x="auto", neg=False, w=word(0), of="", txt="")
            if r.random() < pr and len(names) > 1:
                of = r.choice([m for m in names if m != n or bad])
                it.update(x="item", of=of, txt=of if r.random() < .7 else "%s.%s" % (name, of))
            elif r.random() < pl:
                v = values(u, r)
                if WIDTH[u] == 64 and r.random() < .4:          # of every magnitude
                    v = r.randrange(1 << r.randrange(1, 63)) * (-1 if u == "long" and r.random() < .5 else 1)
                if bad and r.random() < .4:
                    v = r.choice([hi + 1, lo - 1, hi + r.randrange(1, 1000), lo - r.randrange(1, 300)])
                    v = max(-(1 << 63), min((1 << 64) - 1, v))
                it.update(x="lit", neg=v < 0, w=word(v), txt=self.num(v), v=v)
            its.append(it)
        return its

    def value(self, its, i, u, seen):
        """What the value of an item will be (to choose labels and sensible operands)."""
        if i in seen:
            return None
        it, seen = its[i], seen + (i,)
        if it["x"] == "lit":
            v = it["v"]
        elif it["x"] == "item":
            v = self.value(its, [j["n"] for j in its].index(it["of"]), u, seen)
        else:
            v = self.value(its, i - 1, u, seen) if i else -1
            v = None if v is None else v + 1
        return v if v is not None and rng(u)[0] <= v <= rng(u)[1] else None

    def num(self, v):
        r = self.r
        k = r.random()
        if v >= 0 and k < .25:
            return "0x%X" % v if r.random() < .5 else "0x%x" % v
        if v >= 0 and k < .32:
            return "0%o" % v
        if v >= 0 and k < .36:
            return "0b" + bin(v)[2:]
        if 65 <= v <= 122 and v != 92 and v != 96 and k < .8:
            return "'%s'" % chr(v)
        return str(v)

    def env(self):
        r, p = self.r, self.p
        self.cls = p.cls("Holder")
        self.st = p.struct("Rec")
        for i, e in enumerate(self.es):
            for h in (self.cls, self.st):
                for j in range(r.randrange(1, 3)):
                    h.field("f%d_%d" % (i, j), e.name)
            if r.random() < .5:
                self.st.field("g%d" % i, r.choice(INTS))
        self.props = {}
        for i, e in enumerate(self.es):
            if r.random() < .6:
                self.props[e.name] = self.cls.autoprop("P%d" % i, e.name)
        self.ids, self.sets, self.over, self.num_of, self.inst = {}, {}, [], {}, {}
        for e in self.es:
            n = e.name
            m = p.static("Id" + n, n, [("x", n)])
            if r.random() < .5:
                v = m.local("v", n)
                m.body = block([decl(v, m.p(0)), return_(v)])
            else:
                m.body = block([return_(m.p(0))])
            self.ids[n] = m
            mode = r.choice(["ref", "out"])
            m = p.static("Set" + n, "void", [("x", n, mode), ("y", n)])
            m.body = block([expr(asg(m.p(0), m.p(1)))])
            self.sets[n] = (m, mode)
            m = p.static("Over", "void", [("x", n)])
            m.body = block([say("Over " + n), write(self.number(m.p(0)))])
            self.over.append(m)
            t = r.choice(INTS)
            m = p.static("Num" + n, t, [("x", n)])
            m.body = block([return_(cast(t, m.p(0)))])
            self.num_of[n] = m
            m = self.cls.method("Get" + n, n, [("b", "bool")])
            f = r.choice([f for f, t in self.cls.own if t == n and f not in self.cls.hidden])
            m.body = block([if_(m.p(0), return_(self.cls.f(m.this, f))), return_(self.lit(e))])
            self.inst[n] = m
        m = p.static("Over", "void", [("x", "int")])
        m.body = block([say("Over int"), write(m.p(0))])
        self.over.append(m)

    def lit(self, e):
        return Prog.item(e, self.r.choice(e.items)["n"])

    def number(self, x):
        e = [t for t in self.es if t.name == x.ty][0]
        r = self.r
        t = r.choice(INTS + [e.u] * 4)
        return cast(t, x if x.prec >= POST and "[" not in x.txt else paren(x))

    def place(self, m, e):
        """An assignable place of the enum's type."""
        r = self.r
        return r.choice(self.places[e.name])

    def val(self, e, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < .3:
            return self.lit(e)
        if k < .55:
            return r.choice(self.places[e.name])
        if k < .65:
            return Prog.call(self.ids[e.name], [self.val(e, d - 1)])
        if k < .75:                                   # from an integer
            t = r.choice([e.u, e.u] + INTS)
            v = values(t, r)
            if r.random() < .5:
                w = r.choice(list(e.vals.values()))
                v = w if w is not None and rng(t)[0] <= w <= rng(t)[1] else v
            x = lit(t, v) if r.random() < .4 else r.choice(self.ints[t])
            return cast(e.name, paren(x) if x.prec < POST else x)
        if k < .82:
            return paren(cond(self.test(d - 1), self.val(e, d - 1), self.val(e, d - 1)))
        if k < .9:
            f = r.choice(self.es)
            return cast(e.name, paren(self.val(f, d - 1)))
        return Prog.icall(self.h, self.inst[e.name], [self.test(d - 1)])

    def test(self, d=1):
        r = self.r
        e = r.choice(self.es)
        if r.random() < .25 and d > 0:
            return paren((land if r.random() < .5 else lor)(self.test(d - 1), self.test(d - 1)))
        a, b = self.val(e, d), self.val(e, d)
        return paren(binop(r.choice(["==", "!="]), a if a.prec >= POST else paren(a),
                           b if b.prec >= POST else paren(b)))

    def action(self, m):
        r = self.r
        e = r.choice(self.es)
        n = e.name
        k = r.randrange(11)
        if k < 2:
            return [expr(asg(self.place(m, e), self.val(e)))]
        if k < 4:
            return [write(self.number(self.val(e)))]
        if k == 4:
            return [write(self.test())]
        if k == 5:
            x, y = r.sample(self.locals[n], 2)
            mt, mode = self.sets[n]
            return [expr(Prog.call(mt, [refarg(x, mode), self.val(e, 1)])), write(self.number(x)),
                    write(binop("==", x, y))]
        if k == 6:
            return [expr(Prog.call(self.over[self.es.index(e)], [self.val(e, 1)], cands=self.over))]
        if k == 7:
            return [write(Prog.call(self.num_of[n], [self.val(e, 1)]))]
        if k == 8 and n in self.props:
            g, s = self.props[n]
            return [Prog.pset(self.h, s, self.val(e, 1)), write(self.number(paren(Prog.pget(self.h, g))))]
        if k == 9:
            return [if_(self.test(), block([write(self.number(self.val(e, 1)))]),
                        block([expr(asg(self.place(m, e), self.val(e, 1)))]) if r.random() < .5 else None)]
        ss = [t for t in self.es if t.u == "int" and not t.bad]
        if ss:
            e = r.choice(ss)
            by = {}
            for q in r.sample(e.items, min(len(e.items), r.randrange(1, 7))):
                by.setdefault(e.vals.get(q["n"]), q["n"])
            cs = []
            for v, q in by.items():
                self.k += 1
                if cs and r.random() < .2:
                    cs[-1][0].append(Prog.item(e, q))
                else:
                    cs.append([[Prog.item(e, q)], False, [say("case %d" % self.k), break_()]])
            if r.random() < .6:
                cs.insert(r.randrange(len(cs) + 1), [[], True, [say("default"), break_()]])
            x = self.val(e)
            return [switch(x, [tuple(c) for c in cs])]
        return [write(self.number(self.val(e)))]

    def build(self):
        r, p = self.r, self.p
        m = p.main
        out = []
        self.h = m.local("h", "Holder")
        out.append(decl(self.h, Prog.new(self.cls)))
        self.places, self.locals, self.ints = {}, {}, {}
        for t in INTS:
            self.ints[t] = []
            for j in range(2):
                v = m.local("i_%s%d" % (t, j), t)
                out.append(decl(v, rlit(r, t)))
                self.ints[t].append(v)
        s = m.local("s", "Rec")
        out.append(decl(s, Prog.new(self.st)))
        for e in self.es:
            n = e.name
            ls = self.locals[n] = []
            for j in range(2):
                v = m.local("v%s_%d" % (n, j), n)
                out.append(decl(v, self.lit(e), kw="var" if r.random() < .2 else None))
                ls.append(v)
            a = m.local("a" + n, n + "[]")
            k = r.randrange(1, 5)
            if r.random() < .5:
                out.append(decl(a, newarr(n, [I(k)])))
            else:
                out.append(decl(a, initarr(n, [k], [self.lit(e) for _ in range(k)])))
            b = m.local("b" + n, n + "[,]")
            out.append(decl(b, newarr(n, [I(2), I(3)])))
            els = [idx(a, [I(i)], n) for i in range(k)] + [idx(b, [I(i), I(j)], n) for i in range(2) for j in range(3)]
            fs = [self.cls.f(self.h, f) for f, t in self.cls.own if t == n and not f.startswith("<")]
            fs += [self.st.f(s, f) for f, t in self.st.own if t == n]
            self.places[n] = ls * 3 + els + fs * 2
        for e in self.es:                              # every item has its value
            for it in e.items:
                x = Prog.item(e, it["n"])
                out.append(write(cast(e.u, paren(x))))
            for x in r.sample(self.places[e.name], 3):  # what has not been assigned is 0
                out.append(write(self.number(x)))
        for _ in range(r.randrange(15, 45)):
            out += self.action(m)
        for e in self.es:
            for x in self.places[e.name]:
                out.append(write(cast(e.u, paren(x))))
        m.body = block(out)
        return p


def lib_enum(r):
    """The enums are those of a separately compiled library."""
    g = Enums(r, INTS + ["int", "long", "long", "long", "ulong"])
    p = g.build()
    for e in g.es:
        e.lib = True
    return p


def gen_enum(r, tier):
    return [Case(lib_enum(r) if r.random() < .1 else Enums(r).build(), (r.choice(OPTS),))
            for _ in range(120 if tier == "quick" else 1500)]
