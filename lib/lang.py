"""April programs as data: each construct knows its source text and its node in the
specification's program table (see spec/April.tla)."""

INTS = ["sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong"]
WIDTH = {"sbyte": 8, "byte": 8, "short": 16, "ushort": 16, "int": 32, "uint": 32,
         "long": 64, "ulong": 64, "char": 32}
SIGNED = {"sbyte", "short", "int", "long"}
PRIMS = INTS + ["char", "bool"]


def rng(t):
    w = WIDTH[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t in SIGNED else (0, (1 << w) - 1)


def word(v):
    v &= (1 << 64) - 1
    return [(v >> (16 * i)) & 0xFFFF for i in range(4)]


def promote2(s, t):
    if "ulong" in (s, t):
        return "ulong"
    if "long" in (s, t):
        return "long"
    if s == "uint":
        return "long" if t in SIGNED else "uint"
    if t == "uint":
        return "long" if s in SIGNED else "uint"
    return "int"


def promote1(s):
    return "int" if WIDTH[s] < 32 else s


def widens(s, t):
    if s == t:
        return True
    if s not in INTS or t not in INTS:
        return False
    return (s in SIGNED) == (t in SIGNED) and WIDTH[s] < WIDTH[t]


class X:
    """An expression: static type, source text, precedence of the text, node fields."""
    __slots__ = ("ty", "txt", "prec", "d")

    def __init__(self, ty, txt, prec, **d):
        self.ty, self.txt, self.prec, self.d = ty, txt, prec, d

    def __str__(self):
        return self.txt


ATOM, POST, UNARY, BIN, COND, ASG = 100, 90, 80, 50, 20, 10


def par(x, lvl):
    return x.txt if x.prec >= lvl else "(" + x.txt + ")"


CHARS = {ord("'"): "\\'", ord("\\"): "\\\\", 10: "\\n", 9: "\\t", 0: "\\0"}


def lit(t, v):
    if t == "bool":
        return X("bool", "true" if v else "false", ATOM, k="lit", t="bool", w=word(1 if v else 0))
    if t == "char":
        return X("char", "'%s'" % CHARS.get(v, chr(v)), ATOM, k="lit", t="char", w=word(v))
    lo, hi = rng(t)
    assert lo <= v <= hi, (t, v)
    if t in ("sbyte", "byte", "short", "ushort"):
        txt, pr = ("(%s)%d" % (t, v) if v >= 0 else "(%s)(%d)" % (t, v)), UNARY
    elif t == "long" and v == lo:
        txt, pr = "(long)9223372036854775808UL", UNARY
    else:
        txt = "%d%s" % (v, {"int": "", "uint": "U", "long": "L", "ulong": "UL"}[t])
        pr = ATOM if v >= 0 else UNARY
    return X(t, txt, pr, k="lit", t=t, w=word(v))


def var(name, slot, ty):
    return X(ty, name, ATOM, k="var", i=slot)


def binop(op, l, r):
    cmp = op in ("<", "<=", ">", ">=", "==", "!=")
    if cmp:
        ty = "bool"
    elif op in ("<<", ">>"):
        ty = promote2(l.ty, r.ty)
    else:
        ty = promote2(l.ty, r.ty)
    return X(ty, "%s %s %s" % (par(l, UNARY), op, par(r, UNARY)), BIN, k="bin", op=op, l=l, r=r)


def flat(ty, xs, ops):
    t = par(xs[0], UNARY)
    for o, x in zip(ops, xs[1:]):
        t += " %s %s" % (o, par(x, UNARY))
    return X(ty, t, BIN, k="flat", xs=xs, ops=ops)


def land(l, r):
    return X("bool", "%s && %s" % (par(l, UNARY), par(r, UNARY)), BIN, k="and", l=l, r=r)


def lor(l, r):
    return X("bool", "%s || %s" % (par(l, UNARY), par(r, UNARY)), BIN, k="or", l=l, r=r)


def un(op, e):
    ty = "bool" if op == "!" else ("long" if op == "-" and e.ty == "uint" else promote1(e.ty))
    return X(ty, op + par(e, POST), UNARY, k="un", op=op, e=e)


def cond(c, a, b):
    return X(a.ty, "%s ? %s : %s" % (par(c, UNARY), par(a, UNARY), par(b, UNARY)), COND,
             k="cond", c=c, a=a, b=b)


def cast(t, e):
    plain = not e.txt.startswith("-") and "[" not in e.txt
    return X(t, "(%s)%s" % (t, par(e, POST) if plain else "(" + e.txt + ")"),
             UNARY, k="cast", t=t, e=e)


def asg(l, r):
    return X(l.ty, "%s = %s" % (l.txt, r.txt), ASG, k="asg", l=l, r=r)


def casg(op, l, r):
    return X(l.ty, "%s %s= %s" % (l.txt, op, r.txt), ASG, k="casg", op=op, l=l, r=r)


def inc(l, pre, up):
    o = "++" if up else "--"
    return X(l.ty, o + l.txt if pre else l.txt + o, UNARY if pre else POST, k="inc", l=l,
             pre=pre, up=up)


def null(ty):
    return X(ty, "null", ATOM, k="null")


def string(s):
    esc = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
    return X("string", '"%s"' % esc, ATOM, k="str", s=s)


def isinst(e, t):
    return X("bool", "%s is %s" % (par(e, UNARY), t), BIN, k="is", e=e, t=t)


def asinst(e, t):
    return X(t, "%s as %s" % (par(e, UNARY), t), BIN, k="as", e=e, t=t)


def coal(l, r):
    return X(l.ty, "%s ?? %s" % (par(l, UNARY), par(r, UNARY)), COND, k="coal", l=l, r=r)


def coasg(l, r):
    return X(l.ty, "%s ??= %s" % (l.txt, r.txt), ASG, k="coasg", l=l, r=r)


def idx(o, ix, et):
    return X(et, "%s[%s]" % (par(o, POST), ", ".join(i.txt for i in ix)), POST, k="idx", o=o, ix=ix)


def length(o):
    return X("int", par(o, POST) + ".Length", POST, k="len", o=o, dim=0)


def rank(o):
    return X("int", par(o, POST) + ".Rank", POST, k="len", o=o, dim=-1)


def dimlen(o, i):
    return X("int", "%s.GetLength(%d)" % (par(o, POST), i), POST, k="len", o=o, dim=i + 1)


def newarr(et, dims):
    t = et + "[" + "," * (len(dims) - 1) + "]"
    return X(t, "new %s[%s]" % (et, ", ".join(d.txt for d in dims)), POST, k="newarr", t=t, et=et,
             dims=dims)


def initarr(et, dims, xs, sized=False):
    """new T[..] {...}: the elements xs in row-major order."""
    t = et + "[" + "," * (len(dims) - 1) + "]"

    def text(d, ys):
        if len(d) == 1:
            return "{" + ", ".join(y.txt for y in ys) + "}"
        k = len(ys) // d[0]
        return "{" + ", ".join(text(d[1:], ys[i * k:i * k + k]) for i in range(d[0])) + "}"
    if et.endswith("]"):                       # jagged: T[][] is an array of T[]
        assert len(dims) == 1
        head = et[:et.index("[")] + "[]" + et[et.index("["):]
    else:
        head = et + "[" + (", ".join(map(str, dims)) if sized else "," * (len(dims) - 1)) + "]"
    return X(t, "new %s %s" % (head, text(dims, xs)), POST, k="arrinit", t=t, et=et, d=list(dims),
             xs=xs)


def refarg(l, mode="ref"):
    return X(l.ty, "%s %s" % (mode, l.txt), ASG, k="ref", l=l)


def paren(x):
    """The same expression, written in parentheses."""
    return vtext(x, "(" + x.txt + ")")


def vtext(e, txt):
    """The same expression under another spelling."""
    y = X(e.ty, txt, ATOM)
    y.d = e.d
    return y


class St:
    """A statement: source lines and node fields."""
    __slots__ = ("lines", "d")

    def __init__(self, lines, **d):
        self.lines, self.d = lines, d


class Bare(St):
    """A statement used as a body without braces."""
    __slots__ = ()


def bare(s):
    return Bare(ind(s.lines), k="block", b=[s])


def open_if(s):
    """An else written after the statement would become part of it."""
    k = s.d["k"]
    if k == "block":
        return isinstance(s, Bare) and open_if(s.d["b"][0])
    if k == "if":
        return not isinstance(s.d["b"], St) or open_if(s.d["b"])
    if k in ("while", "for"):
        return open_if(s.d["b"])
    return False


def ind(lines):
    return ["  " + l for l in lines]


def expr(e):
    return St([e.txt + ";"], k="expr", e=e)


def block(b, braces=True):
    ls = [l for s in b for l in s.lines]
    return St(["{"] + ind(ls) + ["}"] if braces else ls, k="block", b=b)


def write(e, ln=True):
    return St(["Console.Write%s(%s);" % ("Line" if ln else "", e.txt)], k="print", e=e, ln=ln)


def empty():
    return St([";"], k="empty")


def say(s):
    return write(string(s))


def decl(v, e, kw=None):
    return St(["%s %s = %s;" % (kw or v.ty, v.txt, e.txt)], k="decl", i=v.d["i"], e=e)


def declz(v):
    return St(["%s %s;" % (v.ty, v.txt)], k="declz")


def _body(s):
    if isinstance(s, Bare):
        return s
    return s if s.d["k"] == "block" and s.lines and s.lines[0] == "{" else block([s])


def if_(c, a, b=None):
    a = _body(a)
    ls = ["if (%s)" % c.txt] + a.lines
    if b is not None:
        b = _body(b)
        if isinstance(b, Bare) and b.d["b"][0].d["k"] == "if":
            ls += ["else " + b.lines[0].lstrip()] + b.lines[1:]
        else:
            ls += ["else"] + b.lines
    return St(ls, k="if", c=c, a=a, b=b if b is not None else 0)


def while_(c, b):
    b = _body(b)
    return St(["while (%s)" % c.txt] + b.lines, k="while", c=c, b=b)


def do_(b, c):
    b = _body(b)
    return St(["do"] + b.lines + ["while (%s);" % c.txt], k="do", c=c, b=b)


def for_(i, c, s, b):
    """i: declaration or expression statement, s: expression."""
    b = _body(b)
    return St(["for (%s %s; %s)" % (i.lines[0], c.txt, s.txt)] + b.lines, k="for", i=i, c=c,
              s=expr(s), b=b)


def switch(e, cases):
    """cases: list of (list of literal X, is_default, list of statements)."""
    ls, cs = ["switch (%s)" % e.txt, "{"], []
    for labels, dfl, body in cases:
        for l in labels:
            ls.append("  case %s:" % l.txt)
        if dfl:
            ls.append("  default:")
        b = block(body, braces=False)
        ls += ind(ind(b.lines))
        cs.append(dict(w=[l.d["w"] for l in labels if "w" in l.d],
                       items=[l.d["n"] for l in labels if "w" not in l.d], dfl=dfl, b=b))
    ls.append("}")
    return St(ls, k="switch", e=e, cases=cs)


def break_():
    return St(["break;"], k="break")


def continue_():
    return St(["continue;"], k="continue")


def return_(e=None):
    return St(["return;" if e is None else "return %s;" % e.txt], k="return",
              e=0 if e is None else e)


def throw(e):
    return St(["throw %s;" % e.txt], k="throw", e=e)


def try_(b, catches, fin=None):
    """catches: list of (type, var X or None, block)."""
    b = _body(b)
    ls, cs = ["try"] + b.lines, []
    for t, v, body in catches:
        body = _body(body)
        ls += ["catch (%s%s)" % (t, " " + v.txt if v is not None else "")] + body.lines
        cs.append(dict(t=t, slot=v.d["i"] if v is not None else 0, body=body))
    if fin is not None:
        fin = _body(fin)
        ls += ["finally"] + fin.lines
    return St(ls, k="try", b=b, catches=cs, fin=fin if fin is not None else 0)


class Method:
    """A method; slot 1 is `this` for instance methods, then the parameters, then locals."""

    def __init__(self, prog, name, ret="void", params=(), cls=None, static=True, virt="",
                 ctor=False, generic="", access="public"):
        self.prog, self.name, self.ret, self.cls = prog, name, ret, cls
        self.static, self.virt, self.ctor, self.generic = static, virt, ctor, generic
        self.access = access
        self.st, self.names, self.params = [], set(), []
        self.body, self.idx = None, None
        self.prop = None                       # ("get"|"set", property name)
        self.auto = False                      # an accessor the compiler writes
        if not static:
            self.this = var("this", self._slot(cls.name), cls.name)
        for p in params:
            n, t, mode = p if len(p) == 3 else (p[0], p[1], "")
            self.names.add(n)
            self.params.append((n, t, mode, var(n, self._slot("any" if t == generic else t), t)))
        prog.methods.append(self)
        self.idx = len(prog.methods)

    def _slot(self, t):
        self.st.append(t)
        return len(self.st)

    def local(self, name, t, st=None):
        assert name not in self.names, name
        self.names.add(name)
        return var(name, self._slot(st or t), t)

    def fresh(self, t, pre="v"):
        i = 0
        while pre + str(i) in self.names:
            i += 1
        return self.local(pre + str(i), t)

    def p(self, i):
        return self.params[i][3]

    @property
    def ptypes(self):
        return [t for _, t, _, _ in self.params]

    @property
    def sig(self):
        return "%s(%s)" % (self.name, ",".join((m + " " if m else "") + t
                                               for _, t, m, _ in self.params))

    def header(self):
        ps = ", ".join("%s%s %s" % (m + " " if m else "", t, n) for n, t, m, _ in self.params)
        if self.ctor:
            return "public %s(%s)" % (self.cls.name, ps)
        mods = "public " + ("static " if self.static else "") + (self.virt + " " if self.virt else "")
        return "%s%s %s%s(%s)" % (mods, self.ret, self.name,
                                  "<%s>" % self.generic if self.generic else "", ps)


class Type:
    def __init__(self, prog, name, kind="class", base=None, ifaces=(), abstract=False, u="int"):
        self.prog, self.name, self.kind, self.base = prog, name, kind, base
        self.ifaces, self.abstract, self.u = list(ifaces), abstract, u
        self.own, self.methods, self.enum = [], [], []
        self.hidden = set()                    # fields that are not written down
        self.lib = False                       # part of the separately compiled library
        prog.types.append(self)

    def field(self, name, t):
        self.own.append((name, t))

    @property
    def fields(self):
        return (self.base.fields if isinstance(self.base, Type) else []) + self.own

    def findex(self, name):
        return [n for n, _ in self.fields].index(name) + 1

    def ftype(self, name):
        return dict(self.fields)[name]

    def method(self, name, ret="void", params=(), static=False, virt="", **kw):
        m = Method(self.prog, name, ret, params, self, static, virt, **kw)
        self.methods.append(m)
        return m

    def ctor(self, params=()):
        m = Method(self.prog, ".ctor", "void", params, self, False, "", ctor=True)
        self.methods.append(m)
        return m

    def prop(self, name, t, get=True, set_=True, virt="", static=False):
        """The accessors of a property (None for one it does not have)."""
        g = s = None
        if get:
            g = self.method("get_" + name, t, virt=virt, static=static)
            g.prop = ("get", name)
        if set_:
            s = self.method("set_" + name, "void", [("value", t)], virt=virt, static=static)
            s.prop = ("set", name)
        return g, s

    def autoprop(self, name, t, virt=""):
        g, s = self.prop(name, t, virt=virt)
        f = "<%s>" % name
        self.field(f, t)
        self.hidden.add(f)
        g.body = block([return_(self.f(g.this, f))])
        s.body = block([expr(asg(self.f(s.this, f), s.p(0)))])
        g.auto = s.auto = True
        return g, s

    def f(self, o, name, txt=None):
        """Field access expression on o."""
        return X(self.ftype(name), txt or "%s.%s" % (par(o, POST), name), POST, k="fld", o=o,
                 i=self.findex(name), vs=self.kind == "struct", ot=self.name)

    def render(self):
        if self.kind == "enum":
            return ["%senum %s%s" % ("public " if self.lib else "", self.name,
                                     "" if self.u == "int" else " : " + self.u), "{"] + \
                ["  %s%s," % (it["n"], " = " + it["txt"] if it["x"] != "auto" else "")
                 for it in self.items] + ["}"]
        if self.kind == "delegate":
            return self.text
        inh = ([self.base.name if isinstance(self.base, Type) else self.base] if self.base else [])
        inh += [i.name for i in self.ifaces]
        ls = ["%s%s%s %s%s" % ("public " if self.lib else "", "abstract " if self.abstract else "",
                               self.kind, self.name, " : " + ", ".join(inh) if inh else ""), "{"]
        for n, t in self.own:
            if n not in self.hidden:
                ls.append("  public %s %s;" % (t, n))
        done = set()
        for m in self.methods:
            if m.prop:
                nm = m.prop[1]
                if nm in done:
                    continue
                done.add(nm)
                acc = [x for x in self.methods if x.prop and x.prop[1] == nm]
                pt = acc[0].ret if acc[0].prop[0] == "get" else acc[0].params[0][1]
                mod = "" if self.kind == "interface" else \
                    "public " + ("static " if acc[0].static else "") + \
                    (acc[0].virt + " " if acc[0].virt else "")
                ls.append("  %s%s %s" % (mod, pt, nm))
                ls.append("  {")
                for a in acc:
                    if a.body is None or a.auto:
                        ls.append("    %s;" % a.prop[0])
                    else:
                        ls += ["    " + a.prop[0]] + ind(ind(a.body.lines))
                ls.append("  }")
            elif self.kind == "interface":
                ls.append("  " + m.header().replace("public ", "", 1) + ";")
            elif m.body is None:
                ls.append("  " + m.header() + ";")
            else:
                ls += ["  " + m.header()] + ind(m.body.lines)
        return ls + ["}"]


BUILTIN = {"Exception": "", "SystemException": "Exception",
           "NullReferenceException": "SystemException",
           "InvalidCastException": "SystemException", "OutOfRangeException": "SystemException"}


class Prog:
    """A program: the class Program with static methods, and further types."""

    def __init__(self, tag=""):
        self.methods, self.types, self.tag = [], [], tag
        self.main = Method(self, "Main")

    def static(self, name, ret="void", params=(), **kw):
        return Method(self, name, ret, params, **kw)

    def cls(self, name, base=None, ifaces=(), **kw):
        return Type(self, name, "class", base, ifaces, **kw)

    def struct(self, name, ifaces=()):
        return Type(self, name, "struct", None, ifaces)

    def iface(self, name, ifaces=()):
        return Type(self, name, "interface", None, ifaces)

    def enum(self, name, items, u="int"):
        """items: list of (name, value, explicit), or of dicts with the fields of the
        specification's items and the text of the value."""
        t = Type(self, name, "enum", u=u)
        t.enum = items
        t.items = [i if isinstance(i, dict) else
                   dict(n=i[0], x="lit" if i[2] else "auto", neg=bool(i[2] and i[1] < 0),
                        w=word(i[1] if i[2] else 0), of="", txt=str(i[1])) for i in items]
        return t

    @staticmethod
    def item(t, n):
        return X(t.name, "%s.%s" % (t.name, n), POST, k="item", t=t.name, n=n)

    def delegate(self, name, ret, params):
        t = Type(self, name, "delegate")
        t.text = ["delegate %s %s(%s);" % (ret, name, ", ".join("%s %s" % (b, a) for a, b in params))]
        t.ret, t.dparams = ret, params
        return t

    # ---- calls -------------------------------------------------------------
    @staticmethod
    def call(m, args, cands=None, ret=None, txt=None):
        d = dict(k="call", m=m.idx if cands is None else -1, args=args)
        if cands is not None:
            d.update(cands=[c.idx for c in cands], ts=[a.ty for a in args])
        return X(ret or m.ret, "%s(%s)" % (txt or m.name, ", ".join(a.txt for a in args)), POST, **d)

    @staticmethod
    def icall(o, m, args, txt=None, cands=None, direct=False):
        """Instance call; dispatched dynamically if m is virtual, abstract or an interface's."""
        dyn = (m.virt in ("virtual", "override", "abstract") or m.cls.kind == "interface") and not direct
        k = "scall" if m.cls.kind == "struct" else "icall"
        d = dict(k=k, o=o, m=m.idx if cands is None else -1, args=args, sig=m.sig if dyn else "")
        if cands is not None:
            d.update(cands=[c.idx for c in cands], ts=[a.ty for a in args])
        t = txt or "%s.%s" % (par(o, POST), m.name)
        return X(m.ret, "%s(%s)" % (t, ", ".join(a.txt for a in args)), POST, **d)

    @staticmethod
    def pget(o, m, txt=None):
        x = Prog.icall(o, m, [])
        x.txt = txt or "%s.%s" % (par(o, POST), m.prop[1])
        return x

    @staticmethod
    def pset(o, m, v, txt=None):
        """Statement o.P = v."""
        x = Prog.icall(o, m, [v])
        x.txt = "%s = %s" % (txt or "%s.%s" % (par(o, POST), m.prop[1]), v.txt)
        return expr(x)

    @staticmethod
    def new(t, ctor=None, args=(), cands=None):
        name = t if isinstance(t, str) else t.name
        k = "snew" if not isinstance(t, str) and t.kind == "struct" else "new"
        d = dict(k=k, t=name, m=(ctor.idx if ctor else 0) if cands is None else -1, args=list(args))
        if cands is not None:
            d.update(cands=[c.idx for c in cands], ts=[a.ty for a in args])
        return X(name, "new %s(%s)" % (name, ", ".join(a.txt for a in args)), POST, **d)

    @staticmethod
    def deleg(t, m, o=None):
        return X(t.name, m.name if o is None else "%s.%s" % (par(o, POST), m.name), POST, k="deleg",
                 t=t.name, m=m.idx, o=0 if o is None else o)

    @staticmethod
    def invoke(o, dt, args):
        return X(dt.ret, "%s(%s)" % (par(o, POST), ", ".join(a.txt for a in args)), POST,
                 k="invoke", o=o, args=args)

    # ---- output ------------------------------------------------------------
    def source(self):
        lib = any(t.lib for t in self.types)
        ls = ["import System;", "import lb;", "using System;", "using lb;"] if lib else \
            ["import System;", "using System;"]
        ls += ["class Program", "{", "  [EntryPoint]"]
        for m in self.methods:
            if m.cls is None:
                ls += ["  " + m.header()] + ind(m.body.lines)
        ls.append("}")
        for t in self.types:
            if not t.lib:
                ls += t.render()
        return "\n".join(ls) + "\n"

    def libsource(self):
        """The source of the separately compiled library, if the program has one."""
        if not any(t.lib for t in self.types):
            return None
        ls = ["import System;", "using System;"]
        for t in self.types:
            if t.lib:
                ls += t.render()
        return "\n".join(ls) + "\n"

    def table(self):
        nodes = []

        def put(x):
            if isinstance(x, (X, St)):
                d = {k: conv(v) for k, v in x.d.items()}
                nodes.append(d)
                return len(nodes)
            return conv(x)

        def conv(v):
            if isinstance(v, (X, St)):
                return put(v)
            if isinstance(v, list):
                return [conv(e) for e in v]
            if isinstance(v, dict):
                return {k: conv(e) for k, e in v.items()}
            return v

        ms = [dict(st=m.st, pt=m.ptypes, ret="any" if m.generic and m.ret == m.generic else m.ret,
                   ctor=m.ctor, body=put(m.body) if m.body is not None else 0)
              for m in self.methods]
        ts = {n: dict(kind="class", base=b, ifaces=[], fields=[], vm={"": 0}, u="")
              for n, b in BUILTIN.items()}
        for t in self.types:
            b = t.base.name if isinstance(t.base, Type) else (t.base or "")
            vm = {m.sig: m.idx for m in t.methods if not m.static and not m.ctor
                  and m.virt != "new"}
            vm[""] = 0
            ts[t.name] = dict(kind=t.kind, base=b, ifaces=[i.name for i in t.ifaces],
                              fields=[ft for _, ft in t.fields], vm=vm, u=t.u)
            if t.kind == "enum":
                ts[t.name]["items"] = [{k: i[k] for k in ("n", "x", "neg", "w", "of")}
                                       for i in t.items]
        return dict(nodes=nodes, methods=ms, types=ts, main=self.main.idx)
