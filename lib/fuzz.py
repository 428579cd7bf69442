"""Random structured programs: statements and expressions that stay inside the language the
specification defines (no division by zero, no shift out of range, loops that end)."""
from lang import *
from bench import values

EXC = ["Exception", "SystemException", "NullReferenceException", "InvalidCastException",
       "OutOfRangeException"]


class Fuzz:
    def __init__(self, r, m, types=("int",), stm=None, depth=3, budget=40, ret=None, calls=(),
                 exc=(), label="", atoms=None, acts=(), faulty=False):
        self.r, self.m = r, m
        self.faulty = faulty               # atoms, acts and calls may throw: not in finally blocks
        self.atoms = atoms or {}           # type -> functions that make an expression of it
        self.acts = list(acts)             # functions that make a statement
        self.types = list(types)
        self.w = dict(assign=4, write=4, decl=2, if_=3, while_=1, do=1, for_=2, switch=1,
                      block=1, try_=0, throw=0, brk=1, cont=1, ret=0, call=2, say=1, inc=2, casg=2,
                      arr=0, act=5 if acts else 0)
        self.w.update(stm or {})
        self.maxdepth, self.budget = depth, budget
        self.scopes = [[]]                 # lists of (var, writable)
        self.arrays = [[]]
        self.loop = 0                      # enclosing loops (inside this method)
        self.brk = 0
        self.fin = 0
        self.calls = list(calls)           # methods that may be called
        self.exc = list(exc)               # class names that may be thrown
        self.ret = ret                     # None, or the return type
        self.k = 0
        self.label = label
        self.names = {}
        self.lvl = 0                       # loop nesting (for iteration bounds)
        for i, (n, t, mode, v) in enumerate(m.params):
            if t in INTS + ["bool"]:
                self.scopes[0].append((v, True))

    # ---- names
    def fresh(self, t, pre="v"):
        self.k += 1
        return self.m.local("%s%d" % (pre, self.k), t)

    def vars(self, t=None, writable=False):
        return [v for s in self.scopes for v, w in s
                if (t is None or v.ty == t) and (w or not writable)]

    # ---- expressions
    def leaf(self, t):
        r = self.r
        if t in self.atoms and self.nest < 2 and not self.calm() and r.random() < .45:
            return self.atom(t)
        vs = self.vars(t)
        if vs and r.random() < .7:
            return r.choice(vs)
        if self.arrays and r.random() < .2:
            a = [x for s in self.arrays for x in s if x[0].ty == t + "[]"]
            if a:
                av, n = r.choice(a)
                return idx(av, [lit("int", r.randrange(n))], t)
        return lit(t, values(t, r) if r.random() < .3 else
                   r.randrange(0, 10) if t not in SIGNED else r.randrange(-5, 12))

    nest = 0
    cover = 1                              # 0 where nothing should be thrown outside of a handler

    def calm(self):
        """Nothing may be thrown here."""
        return self.faulty and (self.fin or not self.cover)

    def atom(self, t):
        self.nest += 1
        e = self.r.choice(self.atoms[t])()
        self.nest -= 1
        return e

    def intx(self, t, d=2):
        """An expression of exactly type t, without side effects other than calls."""
        r = self.r
        if d <= 0 or r.random() < .25:
            return self.leaf(t)
        k = r.random()
        if t not in ("int", "long", "uint", "ulong"):
            return cast(t, self.intx(r.choice(["int"] + self.types), d - 1)) if k < .5 \
                else self.leaf(t)
        if k < .55:
            op = r.choice(["+", "-", "*", "&", "|", "^", "+", "-"])
            a = self.intx(t, d - 1)
            b = self.intx(t if r.random() < .7 or t in ("int",) else "byte", d - 1)
            e = binop(op, a, b)
            assert e.ty == t, (e.ty, t)
            return e
        if k < .65:
            return binop(r.choice(["/", "%"]), self.intx(t, d - 1), lit(t, r.randrange(1, 9)))
        if k < .72:
            return binop(r.choice(["<<", ">>"]), self.intx(t, d - 1),
                         lit("int", r.randrange(0, 8))) if t in ("int", "long") else self.leaf(t)
        if k < .80:
            return cond(self.boolx(d - 1), self.intx(t, d - 1), self.intx(t, d - 1))
        if k < .88:
            return cast(t, self.intx(r.choice(self.types), d - 1))
        if k < .95 and self.calls:
            ms = [m for m in self.calls if m.ret == t]
            if ms:
                m = r.choice(ms)
                return Prog.call(m, [self.intx(pt, d - 1) for pt in m.ptypes])
        if t in ("int", "long"):
            return un(r.choice(["-", "~"]), paren(self.intx(t, d - 1)))
        return self.leaf(t)

    def boolx(self, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < .5:
            t = r.choice(self.types)
            return binop(r.choice(["<", "<=", ">", ">=", "==", "!="]), self.intx(t, d - 1),
                         self.intx(t, d - 1))
        if k < .65:
            return land(self.boolx(d - 1), self.boolx(d - 1))
        if k < .8:
            return lor(self.boolx(d - 1), self.boolx(d - 1))
        if k < .9:
            return un("!", paren(self.boolx(d - 1)))
        if "bool" in self.atoms and self.nest < 2 and not self.calm() and r.random() < .8:
            return self.atom("bool")
        return lit("bool", r.random() < .5)

    def anyx(self, d=2):
        return self.boolx(d) if self.r.random() < .15 else self.intx(self.r.choice(self.types), d)

    # ---- statements
    def body(self, d, n=None):
        """A list of statements in a new scope."""
        self.scopes.append([])
        self.arrays.append([])
        out = []
        for _ in range(n or self.r.randrange(1, 4)):
            if self.budget <= 0 and out:
                break
            s = self.stmt(d)
            out += s if isinstance(s, list) else [s]
            if ends(out[-1]):
                break
        self.scopes.pop()
        self.arrays.pop()
        return out

    def stmt(self, d):
        r = self.r
        self.budget -= 1
        opts = []
        for k, w in self.w.items():
            if d <= 0 and k in ("if_", "while_", "do", "for_", "switch", "block", "try_"):
                continue
            if k in ("while_", "do", "for_") and self.lvl >= 2:
                continue
            if k == "brk" and not self.brk or k == "cont" and not self.loop:
                continue
            if k == "ret" and (self.fin or self.ret is None):
                continue
            if k in ("act", "call") and self.faulty and self.fin:
                continue
            if k == "throw" and not self.exc:
                continue
            opts += [k] * w
        return getattr(self, "s_" + r.choice(opts))(d)

    def s_assign(self, d):
        r = self.r
        t = r.choice(self.types)
        vs = self.vars(t, True)
        if not vs:
            return self.s_decl(d)
        if r.random() < .1 and len(vs) > 1:
            return expr(asg(r.choice(vs), asg(r.choice(vs), self.intx(t))))
        return expr(asg(r.choice(vs), self.intx(t)))

    def s_act(self, d):
        return self.r.choice(self.acts)(self)

    def s_arr(self, d):
        r = self.r
        t = r.choice(self.types)
        a = [x for s in self.arrays for x in s if x[0].ty == t + "[]"]
        if not a:
            v = self.fresh(t + "[]", "a")
            n = r.randrange(1, 6)
            self.arrays[-1].append((v, n))
            return decl(v, newarr(t, [lit("int", n)]))
        v, n = r.choice(a)
        return expr(asg(idx(v, [lit("int", r.randrange(n))], t), self.intx(t)))

    def s_casg(self, d):
        t = self.r.choice(self.types)
        vs = self.vars(t, True)
        ops = ["+", "-", "*", "&", "|", "^"]
        if not vs or promote2(t, t) != t:
            return self.s_assign(d)
        return expr(casg(self.r.choice(ops), self.r.choice(vs), self.intx(t)))

    def s_inc(self, d):
        vs = [v for v in self.vars(None, True) if v.ty in INTS]
        if not vs:
            return self.s_decl(d)
        return expr(inc(self.r.choice(vs), self.r.random() < .5, self.r.random() < .5))

    def s_write(self, d):
        return write(self.anyx())

    def s_say(self, d):
        self.k += 1
        return say("%sL%d" % (self.label, self.k))

    def s_decl(self, d):
        t = self.r.choice(self.types)
        e = self.intx(t)
        v = self.fresh(t)
        self.scopes[-1].append((v, True))
        return decl(v, e)

    def s_call(self, d):
        if not self.calls:
            return self.s_write(d)
        m = self.r.choice(self.calls)
        c = Prog.call(m, [self.intx(pt, 1) for pt in m.ptypes])
        return expr(c) if m.ret == "void" or self.r.random() < .4 else write(c)

    def s_block(self, d):
        return block(self.body(d - 1))

    def blk(self, ss, els=False):
        """The statements as a body, sometimes without braces."""
        if len(ss) == 1 and ss[0].d["k"] not in ("decl", "declz", "block") \
                and self.r.random() < .5 and not (els and open_if(ss[0])):
            return bare(ss[0])
        return block(ss)

    def s_if_(self, d):
        c = self.boolx()
        a = self.body(d - 1, 1 if self.r.random() < .3 else None)
        b = self.blk(self.body(d - 1, 1 if self.r.random() < .4 else None)) \
            if self.r.random() < .5 else None
        a = self.blk(a, b is not None)
        if b is not None and self.r.random() < .2 and ends(b):
            b = None
        return if_(c, a, b)

    def enter_loop(self):
        st = (self.loop, self.brk, self.lvl)
        self.loop, self.brk, self.lvl = 1, 1, self.lvl + 1
        return st

    def leave_loop(self, st):
        self.loop, self.brk, self.lvl = st

    def s_for_(self, d):
        r = self.r
        i = self.fresh("int", "i")
        n = r.randrange(0, 4)
        self.scopes.append([(i, False)])
        st = self.enter_loop()
        b = self.body(d - 1)
        self.leave_loop(st)
        self.scopes.pop()
        c = binop("<", i, lit("int", n))
        if r.random() < .3:
            c = land(paren(c), paren(self.boolx(1)))
        k = r.random()
        if k < .12:                          # no condition: left by break
            return for_(decl(i, lit("int", 0)), vtext(lit("bool", 1), ""),
                        inc(i, r.random() < .5, True),
                        block([if_(binop(">=", i, lit("int", n)), bare(break_()))] + b))
        if k < .2:                           # nothing but the condition
            return block([decl(i, lit("int", 0)),
                          for_(empty(), binop("<", inc(i, False, True), lit("int", n)),
                               vtext(lit("bool", 1), ""), self.blk(b))], braces=False)
        if k < .3:                           # counting down
            return for_(decl(i, lit("int", n)), binop(">", i, lit("int", 0)),
                        inc(i, r.random() < .5, False), self.blk(b))
        return for_(decl(i, lit("int", 0)), c, inc(i, r.random() < .5, True), self.blk(b))

    def s_while_(self, d):
        r = self.r
        i = self.fresh("int", "w")
        n = r.randrange(0, 4)
        st = self.enter_loop()
        b = self.body(d - 1)
        self.leave_loop(st)
        c = binop("<", inc(i, False, True), lit("int", n))
        if r.random() < .3:
            c = land(paren(c), paren(self.boolx(1)))
        if r.random() < .15:
            return block([decl(i, lit("int", 0)), while_(lit("bool", 1), block(
                [if_(un("!", paren(c)), bare(break_()))] + b))], braces=False)
        return block([decl(i, lit("int", 0)), while_(c, self.blk(b))], braces=False)

    def s_do(self, d):
        r = self.r
        i = self.fresh("int", "d")
        n = r.randrange(0, 4)
        st = self.enter_loop()
        b = self.body(d - 1)
        self.leave_loop(st)
        c = binop("<", inc(i, True, True), lit("int", n))
        if r.random() < .3:
            c = land(paren(c), paren(self.boolx(1)))
        return block([decl(i, lit("int", 0)), do_(self.blk(b), c)], braces=False)

    def subject(self):
        """Subject of a switch and a function from numbers to its labels."""
        r = self.r
        k = r.random()
        small = binop("%", self.intx("int", 1), lit("int", 6))
        if k < .12:
            pos = binop("&", self.intx("int", 1), lit("int", 7))
            return cast("char", paren(binop("+", lit("int", 100), paren(pos)))), \
                lambda v: lit("char", 100 + v)
        if k < .25 and self.m.prog.types and self.m.prog.types[0].kind == "enum":
            e = self.m.prog.types[0]
            by = {v: n for n, v, _ in e.enum}
            return cast(e.name, paren(small)), \
                lambda v: X(e.name, "%s.%s" % (e.name, by[v]), POST, k="lit", t=e.name, w=word(v))
        if k < .35:
            big = r.choice([1 << 30, -(1 << 31), 1000, 65536, -70000])
            return binop("+", lit("int", big), paren(binop("&", self.intx("int", 1), lit("int", 7)))), \
                lambda v: lit("int", big + v)
        ms = [m for m in self.calls if m.ret == "int"]
        if ms and k < .5:                                # a call, with effects of its own
            m = r.choice(ms)
            small = Prog.call(m, [self.intx(pt, 1) for pt in m.ptypes])
        return (small if k < .8 else self.leaf("int")), lambda v: lit("int", v)

    def s_switch(self, d):
        r = self.r
        e, lab = self.subject()
        ks = r.sample(range(-3, 8), r.choice([1, 1, 2, 3, 4, 4, 8, 11]))
        if lab(0).ty != "int" or lab(0).txt != "0":
            ks = [k for k in range(8) if r.random() < .5] or [3]
            r.shuffle(ks)
        cases, i = [], 0
        st = self.brk
        while i < len(ks):
            n = r.choice([1, 1, 2, 3])
            self.brk = 1
            if r.random() < .15:             # runs on into the next case
                cases.append(([lab(k) for k in ks[i:i + n]], False,
                              [self.s_say(d)]))
                i += n
                continue
            b = self.body(d - 1)
            if not ends(b[-1]):
                b.append(break_())
            if r.random() < .2:
                b = [block(b)]
            cases.append(([lab(k) for k in ks[i:i + n]], False, b))
            i += n
        if r.random() < .6:
            b = self.body(d - 1)
            if not ends(b[-1]):
                b.append(break_())
            at = r.randrange(len(cases) + 1)
            # shares the statements of a case: the first, as `case k: default:` is not always
            # understood by the parser further down
            if cases and r.random() < .25:
                at = 0
                cases[at] = (cases[at][0], True, cases[at][2])
            else:
                cases.insert(at, ([], True, b))
        if not ends(cases[-1][2][-1]):
            cases[-1][2].append(break_())
        self.brk = st
        return switch(e, cases)

    def s_try_(self, d):
        r = self.r
        self.k += 1
        k = self.k
        st, self.cover = self.cover, 1
        b = block(self.body(d - 1))
        self.cover = st
        cs = []
        if self.faulty and not self.cover and r.random() < .9:
            cs.append(("Exception", None, block([say("%sC%dX" % (self.label, k))])))
        elif r.random() < .75:
            for t in r.sample(self.exc, min(len(self.exc), r.randrange(1, 3))):
                cs.append((t, None, block([say("%sC%d%s" % (self.label, k, t[0]))] +
                                          self.body(d - 1))))
        fin = None
        if not cs or r.random() < .6:
            st = (self.loop, self.brk, self.fin)
            self.loop, self.brk, self.fin = 0, 0, 1
            ex, self.exc = self.exc, []
            fin = block([say("%sF%d" % (self.label, k))] + self.body(d - 1))
            self.exc = ex
            self.loop, self.brk, self.fin = st
        return try_(b, cs, fin)

    def s_throw(self, d):
        return if_(self.boolx(1), block([throw(Prog.new(self.r.choice(self.exc)))]))

    def s_brk(self, d):
        return if_(self.boolx(1), block([break_()]))

    def s_cont(self, d):
        return if_(self.boolx(1), block([continue_()]))

    def s_ret(self, d):
        e = None if self.ret == "void" else self.intx(self.ret)
        return if_(self.boolx(1), block([return_(e)]))

    def fill(self, n=6, last=None):
        """The method's body."""
        out = []
        while self.budget > 0 and len(out) < n:
            s = self.stmt(self.maxdepth)
            out += s if isinstance(s, list) else [s]
        for v in self.vars():
            if self.r.random() < .5:
                out.append(write(v))
        if self.ret not in (None, "void"):
            out.append(return_(self.intx(self.ret)))
        self.m.body = block(out)


def ends(s):
    """The statement never completes normally (so that nothing follows it)."""
    k = s.d["k"]
    if k in ("break", "continue", "return", "throw"):
        return True
    if k == "block":
        return bool(s.d["b"]) and ends(s.d["b"][-1])
    if k == "if":
        return isinstance(s.d["b"], St) and ends(s.d["a"]) and ends(s.d["b"])
    return False
