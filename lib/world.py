"""Random class hierarchies: interfaces, abstract classes, overriding, hiding, structs."""
from lang import *
from bench import values


class World:
    """Interfaces, a forest of classes, and structs implementing interfaces."""
    SIGS = [(), ("int",), ("string",), ("bool",), ("int", "int"), ("long",), ("byte", "string")]
    RETS = ["int", "int", "void", "long", "string", "bool", "byte"]

    def __init__(self, r, p, nc=6, ni=3, ns=1, hide=.1, calls=.35, pre="", lib=(0, 0, 0)):
        self.r, self.p, self.pre = r, p, pre
        self.hide, self.callp = hide, calls
        self.lib = lib                      # how many classes, interfaces, structs are the library's
        # the methods that exist: rank -> (name, params, ret); calls go up in rank only
        self.pool = []
        names = ["M%d" % i for i in range(4)]
        seen = set()
        while len(self.pool) < 7:
            n, ps = r.choice(names), r.choice(self.SIGS)
            if (n, ps) in seen or any(x == n and len(y) == len(ps) and
                                      any({a, b} <= set(INTS) for a, b in zip(y, ps))
                                      for x, y in seen):
                continue
            seen.add((n, ps))
            self.pool.append((n, ps, r.choice(self.RETS)))
        self.imeth = set()                  # pool indexes that interfaces use
        self.ifaces, self.classes, self.structs = [], [], []
        self.info = {}                      # type name -> dict
        for i in range(ni):
            self.new_iface(i)
        for i in range(nc):
            self.new_class(i)
        for i in range(ns):
            self.new_struct(i)

    # ---- declarations
    def decl_method(self, t, k, virt):
        n, ps, ret = self.pool[k]
        m = t.method(n, ret, [("p%d" % i, x) for i, x in enumerate(ps)], virt=virt)
        m.rank = k
        return m

    def new_iface(self, i):
        r = self.r
        sup = r.sample(self.ifaces, min(len(self.ifaces), r.choice([0, 0, 1, 2])))
        t = self.p.iface("%sI%d" % (self.pre, i), sup)
        t.lib = i < self.lib[1]
        inh = {}
        for s in sup:
            inh.update(self.info[s.name]["all"])
        own = {}
        for k in r.sample(range(7), r.randrange(1, 4)):
            if k not in inh:
                own[k] = self.decl_method(t, k, "")
                self.imeth.add(k)
        self.info[t.name] = dict(all={**inh, **own}, sup=sup)
        self.ifaces.append(t)

    def iall(self, t):
        """All interfaces t stands for, itself included."""
        res = [t]
        for s in self.info[t.name]["sup"]:
            res += self.iall(s)
        return res

    def new_class(self, i):
        r = self.r
        base = r.choice(self.classes[-3:]) if self.classes and r.random() < .8 else None
        lib = i < self.lib[0]
        cand = [f for f in self.ifaces if f.lib or not lib]
        if base and base.lib and not lib:   # what a base in the library implements is not listed again
            cand = [f for f in cand if not f.lib]
        ifs = r.sample(cand, min(len(cand), r.choice([0, 0, 1, 1, 2])))
        abstract = r.random() < .2 and i < 4
        t = self.p.cls("%sC%d" % (self.pre, i), base, ifs, abstract=abstract)
        t.lib = lib
        if r.random() < .7:
            t.field("%sf%d" % (self.pre, i), r.choice(["int", "int", "long", "byte", "short"]))
        bi = self.info[base.name] if base else dict(vis={}, virt={}, abs=set(), hidden=set())
        vis = dict(bi["vis"])               # rank -> method seen through this static type
        virt = dict(bi["virt"])             # rank -> True: can be overridden
        absm = set(bi["abs"])               # not implemented yet
        hidden = set(bi["hidden"])
        own = []
        for k in range(7):
            q = r.random()
            if k in vis:
                if k in absm:
                    if abstract and q >= .3:
                        continue
                    own.append(self.decl_method(t, k, "override"))
                    absm.discard(k)
                elif virt.get(k) and q < .45:
                    own.append(self.decl_method(t, k, "override"))
                elif k not in self.imeth and q > 1 - self.hide:
                    own.append(self.decl_method(t, k, "new"))
                    virt[k] = False
                    hidden.add(k)
                else:
                    continue
            elif q < .5:
                v = r.choice(["virtual", "virtual", "virtual", ""]) if not abstract else \
                    r.choice(["virtual", "abstract", ""])
                own.append(self.decl_method(t, k, v))
                virt[k] = v != ""
                if v == "abstract":
                    absm.add(k)
            else:
                continue
            vis[k] = own[-1]
        # interface methods that nothing provides yet
        for f in ifs:
            for k in self.info[f.name]["all"]:
                if k not in vis:
                    v = r.choice(["virtual", ""])
                    vis[k] = self.decl_method(t, k, v)
                    virt[k] = v != ""
                    own.append(vis[k])
        inst = [x for f in ifs for x in self.iall(f)]
        self.info[t.name] = dict(vis=vis, virt=virt, abs=absm, hidden=hidden, base=base, own=own,
                                 abstract=abstract, ifs=inst)
        self.classes.append(t)
        for m in own:
            if m.virt != "abstract":
                self.body(t, m)

    def new_struct(self, i):
        r = self.r
        cand = [f for f in self.ifaces if f.lib or i >= self.lib[2]]
        ifs = r.sample(cand, min(len(cand), r.choice([1, 2])))
        t = self.p.struct("%sS%d" % (self.pre, i), ifs)
        t.lib = i < self.lib[2]
        t.field("x", "int")
        if r.random() < .5:
            t.field("y", r.choice(["byte", "long", "string"]))
        vis = {}
        for f in ifs:
            for k in self.info[f.name]["all"]:
                if k not in vis:
                    vis[k] = self.decl_method(t, k, "")
        self.info[t.name] = dict(vis=vis, base=None, own=list(vis.values()), abstract=False,
                                 ifs=[x for f in ifs for x in self.iall(f)])
        self.structs.append(t)
        for m in vis.values():
            self.body(t, m)

    # ---- bodies
    def near(self, t):
        """The fields of t that its own assembly declares."""
        res, c = [], t
        while c is not None and c.lib == t.lib:
            res = c.own + res
            c = c.base
        return res

    def arg(self, t, m=None):
        r = self.r
        if m is not None and r.random() < .5:
            vs = [v for _, pt, _, v in m.params if pt == t]
            if vs:
                return r.choice(vs)
        if t == "string":
            return string(r.choice(["a", "bc", "", "xyz"]))
        if t == "bool":
            return lit("bool", r.random() < .5)
        return lit(t, r.randrange(0, 100))

    def body(self, t, m):
        r, n = self.r, m.rank
        out = [say("%s.%s" % (t.name, m.sig))]
        for i in range(len(m.params)):
            if r.random() < .6:
                out.append(write(m.p(i)))
        fs = [(f, ft) for f, ft in self.near(t) if ft in INTS]
        for f, ft in fs:
            if r.random() < .4:
                x = t.f(m.this, f, "this." + f)
                out.append(expr(inc(x, r.random() < .5, r.random() < .7)))
                out.append(write(x))
        if t.kind == "class":
            base = self.info[t.name]["base"]
            bi = self.info[base.name] if base else None
            if bi and n in bi["vis"] and n not in bi["abs"] and r.random() < self.callp:
                bm = bi["vis"][n]
                out += self.use(Prog.icall(m.this, bm, [self.arg(x, m) for x in m.ptypes],
                                           txt="base." + bm.name, direct=True))
            vis = self.info[t.name]["vis"]
            ks = [k for k in vis if k > n]
            if ks and r.random() < self.callp:
                vm = vis[r.choice(ks)]
                out += self.use(Prog.icall(m.this, vm, [self.arg(x, m) for x in vm.ptypes],
                                           txt=r.choice(["this." + vm.name, vm.name])))
        if m.ret != "void":
            xs = [t.f(m.this, f, "this." + f) for f, ft in self.near(t)
                  if ft == m.ret and ft != "string"]
            out.append(return_(r.choice(xs) if xs and r.random() < .6 else self.arg(m.ret, m)))
        m.body = block(out)

    def use(self, c):
        return [expr(c) if c.ty == "void" or self.r.random() < .3 else write(c)]

    # ---- relations
    def supers(self, t):
        """The types a value of class or struct t may be held in."""
        i = self.info[t.name]
        if t.kind == "interface":
            return self.iall(t)
        res, c = [], t
        while c is not None:
            for x in ([c] if c.kind == "class" else []) + self.info[c.name]["ifs"]:
                if x not in res:
                    res.append(x)
            c = self.info[c.name]["base"]
        return res

    def methods(self, t):
        """rank -> method seen through the static type t."""
        i = self.info[t.name]
        return i["all"] if t.kind == "interface" else i["vis"]

    def concrete(self):
        return [c for c in self.classes if not self.info[c.name]["abstract"]
                and not self.info[c.name]["abs"]]
