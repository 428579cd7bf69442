-------------------------------- MODULE April --------------------------------
(***************************************************************************)
(* The April abstract machine: what a compiled April program does when it  *)
(* runs, as a state machine.                                               *)
(*                                                                         *)
(* A machine state is a record                                             *)
(*    p   the program (index in Progs)                                     *)
(*    st  "run" | "emit" (a line of output is ready in o) | "done" |       *)
(*        "stuck" (the program left the language's defined behaviour)      *)
(*    k   control stack: what remains to be done, next item last           *)
(*    v   value stack: intermediate results of expressions                 *)
(*    f   call frames, each with its slots (parameters and locals)         *)
(*    h   heap: a sequence of objects, addresses are positions, 0 is null  *)
(*    b   the unfinished output line                                       *)
(*    o   the line to emit                                                 *)
(*    c   counters of entered and left protected regions (see FinallyOnce) *)
(*                                                                         *)
(* One Step pops one item off the control stack.  Exceptions, return,      *)
(* break and continue unwind the control stack; the markers they meet on   *)
(* the way (loops, switches, try regions, finally regions, calls) decide   *)
(* what happens next.                                                      *)
(***************************************************************************)
EXTENDS Prims, FiniteSets

CONSTANT Progs

(*------------------------------ programs --------------------------------*)

Prog(m)     == Progs[m.p]
Node(m, n)  == Progs[m.p].nodes[n]
Method(m, i) == Progs[m.p].methods[i]
TypeOf(m, t) == Progs[m.p].types[t]        \* declared (non-primitive) types
Declared(m, t) == t \in DOMAIN Progs[m.p].types

Null == [t |-> "ref", a |-> 0]
Ref(a) == [t |-> "ref", a |-> a]
Void == [t |-> "void"]
Str(s) == [t |-> "string", s |-> s]

IsRef(v) == v.t = "ref"
IsLoc(v) == v.t = "loc"

\* The runtime class c is a subtype of t.
RECURSIVE SubType(_, _, _)
SubType(m, c, t) ==
    \/ c = t
    \/ t = "object"
    \/ /\ Declared(m, c)
       /\ \/ TypeOf(m, c).base # "" /\ SubType(m, TypeOf(m, c).base, t)
          \/ \E i \in 1..Len(TypeOf(m, c).ifaces) : SubType(m, TypeOf(m, c).ifaces[i], t)

\* The initial value of a variable of type t.
RECURSIVE Default(_, _)
Default(m, t) ==
    IF t \in PrimTypes THEN [t |-> t, w |-> W0]
    ELSE IF Declared(m, t) /\ TypeOf(m, t).kind = "struct"
    THEN [t |-> t, f |-> [i \in 1..Len(TypeOf(m, t).fields) |->
                              Default(m, TypeOf(m, t).fields[i])]]
    ELSE IF Declared(m, t) /\ TypeOf(m, t).kind = "enum"
    THEN [t |-> t, w |-> W0]
    ELSE Null

IsEnum(m, t) == Declared(m, t) /\ TypeOf(m, t).kind = "enum"
IsStruct(m, t) == Declared(m, t) /\ TypeOf(m, t).kind = "struct"

(*-------------------------------- enums ---------------------------------*)
(* The items of an enum have the value given, the value of another item,   *)
(* or one more than the item before (the first one: 0).  A value is a      *)
(* sign and a word; None is a value that does not exist: out of the range  *)
(* of the underlying type, or defined by itself.                           *)

None == [ok |-> FALSE, neg |-> FALSE, w |-> W0]

\* The value (neg, w) is in the range of the underlying type u.
Fits(u, neg, w) == /\ w = Wrap(u, w)
                   /\ IF neg THEN SignedType(u) /\ WIsNeg(w)
                      ELSE ~ (SignedType(u) /\ WIsNeg(w))
In(u, neg, w) == IF Fits(u, neg, w) THEN [ok |-> TRUE, neg |-> neg, w |-> w] ELSE None

Position(its, n) == CHOOSE i \in 1..Len(its) : its[i].n = n

RECURSIVE ItemValue(_, _, _, _)
ItemValue(its, u, i, seen) ==
    IF i \in seen THEN None
    ELSE LET it == its[i]
         IN  CASE it.x = "lit" -> In(u, it.neg, it.w)
               [] it.x = "item" -> ItemValue(its, u, Position(its, it.of), seen \cup {i})
               [] it.x = "auto" ->
                    IF i = 1 THEN In(u, FALSE, W0)
                    ELSE LET p == ItemValue(its, u, i - 1, seen \cup {i})
                             w == WAdd(p.w, W1)
                         IN  IF ~ p.ok \/ (~ p.neg /\ w = W0) THEN None
                             ELSE In(u, p.neg /\ w # W0, w)

\* Every item of every enum has a value: the program is accepted by the compiler.
EnumsOK(p) == \A t \in DOMAIN Progs[p].types :
                LET d == Progs[p].types[t]
                IN  d.kind # "enum" \/
                    \A i \in 1..Len(d.items) : ItemValue(d.items, d.u, i, {}).ok

ItemOf(m, t, n) == LET d == TypeOf(m, t)
                   IN  [t |-> t, w |-> ItemValue(d.items, d.u, Position(d.items, n), {}).w]

(*---------------------------- small helpers -----------------------------*)

Top(m, i) == m.v[Len(m.v) - i]                        \* i-th value from the top, from 0
Cut(s, n) == SubSeq(s, 1, Len(s) - n)                 \* drop the last n

Push(m, x) == [m EXCEPT !.v = Append(@, x)]
Replace(m, n, x) == [m EXCEPT !.v = Append(Cut(@, n), x)]   \* n results become x
Do(m, items) == [m EXCEPT !.k = @ \o items]           \* the last item is done first
Stuck(m, why) == [m EXCEPT !.st = "stuck", !.o = why]

E(n) == [k |-> "e", n |-> n]                          \* evaluate expression n
L(n) == [k |-> "l", n |-> n]                          \* find the variable that n names
S(n) == [k |-> "s", n |-> n]                          \* execute statement n
K(kind, n) == [k |-> kind, n |-> n]
KD(kind, n, d) == [k |-> kind, n |-> n, d |-> d]      \* a marker: value stack depth d

\* Items that evaluate the expressions ns from left to right.
EvalAll(ns) == [i \in 1..Len(ns) |-> E(ns[Len(ns) + 1 - i])]

CurFrame(m) == m.f[Len(m.f)]

(*------------------------ variables and locations -----------------------*)
(* A location is a slot of a frame or an element of a heap object, plus a  *)
(* path of struct fields inside it, and the declared type of the variable. *)

SlotLoc(fi, i, t) == [t |-> "loc", r |-> "f", a |-> fi, i |-> i, p |-> <<>>, dt |-> t]
HeapLoc(a, i, t) == [t |-> "loc", r |-> "h", a |-> a, i |-> i, p |-> <<>>, dt |-> t]

RECURSIVE GetPath(_, _)
GetPath(x, p) == IF p = <<>> THEN x ELSE GetPath(x.f[Head(p)], Tail(p))

RECURSIVE SetPath(_, _, _)
SetPath(x, p, y) == IF p = <<>> THEN y
                    ELSE [x EXCEPT !.f[Head(p)] = SetPath(@, Tail(p), y)]

Load(m, l) == IF l.r = "f" THEN GetPath(m.f[l.a].s[l.i], l.p)
                           ELSE GetPath(m.h[l.a].f[l.i], l.p)

\* A stored value takes the declared type of the variable: integers widen, values become
\* objects (boxing) when the variable is of a reference type.
IsValueType(m, x) == x.t \in PrimTypes \/ IsEnum(m, x.t) \/ IsStruct(m, x.t)
NeedsBox(m, t, x) == IsValueType(m, x) /\ ~ (t \in PrimTypes)
                     /\ ~ IsEnum(m, t) /\ ~ IsStruct(m, t) /\ t # "any"

\* Coerce yields the new machine state (boxing allocates) and the value.
Coerce(m, t, x) ==
    IF NeedsBox(m, t, x)
    THEN [m |-> [m EXCEPT !.h = Append(@, [c |-> x.t, k |-> "box", f |-> <<x>>])],
          x |-> Ref(Len(m.h) + 1)]
    ELSE IF t \in PrimTypes /\ x.t \in PrimTypes
    THEN [m |-> m, x |-> Val(t, x.w)]
    ELSE [m |-> m, x |-> x]

Put(m, l, x) == IF l.r = "f"
                THEN [m EXCEPT !.f[l.a].s[l.i] = SetPath(@, l.p, x)]
                ELSE [m EXCEPT !.h[l.a].f[l.i] = SetPath(@, l.p, x)]

Store(m, l, x) == LET c == Coerce(m, l.dt, x) IN Put(c.m, l, c.x)

(*----------------------- exceptions and unwinding -----------------------*)

CatchFor(m, n, cls) ==
    LET cs == Node(m, n).catches
        hit == {i \in 1..Len(cs) : SubType(m, cls, cs[i].t)}
    IN  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j

\* Completion r = [kind |-> "throw" | "return" | "break" | "continue", x |-> value].
RECURSIVE Unwind(_, _)
Unwind(m, r) ==
    IF m.k = <<>>
    THEN IF r.kind = "throw"
         THEN [m EXCEPT !.st = "emit", !.o = "Uncaught Exception: " \o m.h[r.x.a].c,
                        !.v = <<>>, !.f = SubSeq(@, 1, 1)]
         ELSE Stuck(m, "nothing to leave")
    ELSE
    LET it == m.k[Len(m.k)]
        m1 == [m EXCEPT !.k = Cut(@, 1)]
        At(d) == [m1 EXCEPT !.v = SubSeq(@, 1, d)]
    IN
    CASE it.k = "try" /\ r.kind = "throw" ->
            LET c == CatchFor(m, it.n, m.h[r.x.a].c)
            IN  IF c = 0 THEN Unwind(m1, r)
                ELSE LET cl == Node(m, it.n).catches[c]
                         m2 == At(it.d)
                         m3 == IF cl.slot = 0 THEN m2
                               ELSE [m2 EXCEPT !.f[Len(m2.f)].s[cl.slot] = r.x]
                     IN  Do(m3, <<S(cl.body)>>)
      [] it.k = "fin" ->
            Do([At(it.d) EXCEPT !.c.fin = @ + 1],
               <<[k |-> "finend", n |-> it.n, r |-> r], S(Node(m, it.n).fin)>>)
      [] it.k = "ret" ->
            LET m2 == [At(it.d) EXCEPT !.f = Cut(@, 1)]
            IN  IF r.kind = "throw" THEN Unwind(m2, r)
                ELSE LET mt == Method(m, CurFrame(m).m)
                         c  == IF mt.ret = "void" THEN [m |-> m2, x |-> Void]
                               ELSE Coerce(m2, mt.ret, r.x)
                     IN  Push(c.m, IF mt.ctor THEN CurFrame(m).s[1] ELSE c.x)
      [] it.k = "loop" /\ r.kind = "break" -> At(it.d)
      [] it.k = "loop" /\ r.kind = "continue" -> Do(At(it.d), <<it, K("cont", it.n)>>)
      [] it.k = "switch" /\ r.kind = "break" -> At(it.d)
      [] OTHER -> Unwind(m1, r)

Throw(m, cls) ==
    Unwind([m EXCEPT !.h = Append(@, [c |-> cls, k |-> "obj", f |-> <<>>])],
           [kind |-> "throw", x |-> Ref(Len(m.h) + 1)])

(*------------------------------- methods --------------------------------*)

\* The method that a call of signature sig on an object of class c runs: the nearest
\* declaration going up from c that takes part in overriding.
RECURSIVE FindImpl(_, _, _)
FindImpl(m, c, sig) ==
    LET ms == TypeOf(m, c).vm
    IN  IF sig \in DOMAIN ms THEN ms[sig] ELSE FindImpl(m, TypeOf(m, c).base, sig)

\* Overload resolution: the exact match if there is one, else the only candidate whose
\* parameters accept the arguments.
Accepts(m, ps, ts) == /\ Len(ps) = Len(ts)
                      /\ \A i \in 1..Len(ps) :
                            \/ Widens(ts[i], ps[i])
                            \/ ~ (ps[i] \in PrimTypes) /\ SubType(m, ts[i], ps[i])
Resolve(m, cands, ts) ==
    LET exact == {i \in 1..Len(cands) : Method(m, cands[i]).pt = ts}
        ok    == {i \in 1..Len(cands) : Accepts(m, Method(m, cands[i]).pt, ts)}
    IN  IF exact # {} THEN cands[CHOOSE i \in exact : TRUE]
        ELSE cands[CHOOSE i \in ok : TRUE]

\* Static types of the arguments; a literal's type is that of its value.
ArgTypes(m, nd) ==
    LET n == Len(nd.ts)
    IN  [i \in 1..n |-> IF nd.ts[i] = "num" THEN Top(m, n - i).t ELSE nd.ts[i]]

\* Parameter values: by value parameters are coerced to the declared type.
RECURSIVE Bind(_, _, _, _)
Bind(m, mt, i, args) ==            \* returns [m, s]: state and slots of parameters i..
    IF i > Len(args) THEN [m |-> m, s |-> <<>>]
    ELSE LET c == IF IsLoc(args[i]) THEN [m |-> m, x |-> args[i]]
                  ELSE Coerce(m, mt.st[i], args[i])
             rest == Bind(c.m, mt, i + 1, args)
         IN  [m |-> rest.m, s |-> <<c.x>> \o rest.s]

\* Enter method mi; the n topmost values are its arguments ("this" first).
Enter(m, mi, n) ==
    LET mt == Method(m, mi)
        args == SubSeq(m.v, Len(m.v) - n + 1, Len(m.v))
        b == Bind(m, mt, 1, args)
        slots == b.s \o [i \in 1..(Len(mt.st) - n) |-> Default(m, mt.st[n + i])]
        m1 == [b.m EXCEPT !.v = Cut(@, n), !.f = Append(@, [m |-> mi, s |-> slots])]
    IN  Do(m1, <<KD("ret", mt.body, Len(m1.v)), S(mt.body)>>)

(*----------------------------- expressions ------------------------------*)

\* Operators of a flat expression o1 op1 o2 op2 ... bind by precedence, left to right.
Prec(op) == CASE op \in {"*", "/", "%"} -> 10
              [] op \in {"+", "-"} -> 9
              [] op \in {"<<", ">>"} -> 8
              [] op \in {"<", "<=", ">", ">="} -> 7
              [] op \in {"==", "!="} -> 6
              [] op = "&" -> 5
              [] op = "^" -> 4
              [] op = "|" -> 3
              [] op = "&&" -> 2
              [] op = "||" -> 1

\* The operator applied last among ops[lo .. hi]: the rightmost of lowest precedence.
SplitAt(ops, lo, hi) ==
    CHOOSE i \in lo..hi : \A j \in lo..hi :
        Prec(ops[j]) > Prec(ops[i]) \/ (Prec(ops[j]) = Prec(ops[i]) /\ j <= i)

\* Operands lo .. hi of flat node n.
Flat(n, lo, hi) == [k |-> "flat", n |-> n, lo |-> lo, hi |-> hi]

EvalFlat(m, it) ==
    LET nd == Node(m, it.n)
    IN  IF it.lo = it.hi THEN Do(m, <<E(nd.xs[it.lo])>>)
        ELSE LET i == SplitAt(nd.ops, it.lo, it.hi - 1)
                 op == nd.ops[i]
                 l == Flat(it.n, it.lo, i)
                 r == Flat(it.n, i + 1, it.hi)
             IN  IF op = "&&" THEN Do(m, <<[k |-> "and", r |-> r], l>>)
                 ELSE IF op = "||" THEN Do(m, <<[k |-> "or", r |-> r], l>>)
                 ELSE Do(m, <<[k |-> "op", op |-> op], r, l>>)

Binary(m, op) ==
    LET a == Top(m, 1)  b == Top(m, 0)
    IN  IF a.t = "string" /\ b.t = "string" THEN Stuck(m, "identity of strings")
        ELSE IF a.t = "string" \/ b.t = "string" THEN Replace(m, 2, Bool(op = "!="))
        ELSE IF IsRef(a) \/ IsRef(b)
        THEN Replace(m, 2, Bool(IF op = "==" THEN a = b ELSE a # b))
        ELSE IF op \in CmpOps THEN Replace(m, 2, Compare(op, a, b))
        ELSE IF op \in ShiftOps
        THEN IF ShiftUndefined(a, b) THEN Stuck(m, "shift") ELSE Replace(m, 2, Shift(op, a, b))
        ELSE IF DivUndefined(op, a, b) THEN Stuck(m, "division")
        ELSE Replace(m, 2, Arith(op, a, b))

\* Explicit conversion of x to type t.
Cast(m, t, x) ==
    IF IsRef(x)
    THEN IF t \in PrimTypes \/ IsStruct(m, t) \/ IsEnum(m, t)          \* unboxing
         THEN IF x.a = 0 THEN Throw(m, "NullReferenceException")
              ELSE IF m.h[x.a].c # t THEN Throw(m, "InvalidCastException")
              ELSE Replace(m, 1, m.h[x.a].f[1])
         ELSE IF x.a = 0 \/ SubType(m, m.h[x.a].c, t) THEN m
         ELSE Throw(m, "InvalidCastException")
    ELSE IF x.t = "string"
    THEN IF t \in {"string", "object"} THEN m ELSE Throw(m, "InvalidCastException")
    ELSE IF t \in PrimTypes THEN Replace(m, 1, Val(t, x.w))
    ELSE IF IsEnum(m, t) THEN Replace(m, 1, [t |-> t, w |-> Wrap(TypeOf(m, t).u, x.w)])
    ELSE LET c == Coerce(m, t, x) IN Replace(c.m, 1, c.x)

IsInstance(m, x, t) == \/ IsRef(x) /\ x.a # 0 /\ SubType(m, m.h[x.a].c, t)
                       \/ x.t = "string" /\ t \in {"string", "object"}

\* Row-major position of an element; each index has the bounds of its own dimension.
RECURSIVE FlatIndex(_, _, _, _)
FlatIndex(dims, idx, i, acc) ==
    IF i > Len(dims) THEN acc
    ELSE FlatIndex(dims, idx, i + 1, acc * dims[i] + idx[i])

\* The values under the top: array reference, then its indexes.
ElementAt(m, n) ==
    LET a == Top(m, n)
        idx == [i \in 1..n |-> WToInt(Top(m, n - i).w)]
    IN  IF a.a = 0 THEN [err |-> "NullReferenceException"]
        ELSE LET ob == m.h[a.a]
                 p == FlatIndex(ob.d, idx, 1, 0)
             IN  IF \E i \in 1..n : idx[i] < 0 \/ idx[i] >= ob.d[i]
                 THEN [err |-> "OutOfRangeException"]
                 ELSE [err |-> "", loc |-> HeapLoc(a.a, p + 1, ob.et)]

RECURSIVE Product(_, _)
Product(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Product(s, i + 1)

EvalE(m, n) ==
    LET nd == Node(m, n)
    IN
    CASE nd.k = "lit"  -> Push(m, [t |-> nd.t, w |-> nd.w])
      [] nd.k = "item" -> Push(m, ItemOf(m, nd.t, nd.n))
      [] nd.k = "var"  -> LET x == CurFrame(m).s[nd.i]
                          IN  Push(m, IF IsLoc(x) THEN Load(m, x) ELSE x)
      [] nd.k = "bin"  -> Do(m, <<[k |-> "op", op |-> nd.op], E(nd.r), E(nd.l)>>)
      [] nd.k = "asg"  -> Do(m, <<K("asg", n), L(nd.l), E(nd.r)>>)
      [] nd.k = "fld"  -> Do(m, <<K("fld", n), E(nd.o)>>)
      [] nd.k = "idx"  -> Do(m, <<K("idx", n)>> \o EvalAll(<<nd.o>> \o nd.ix))
      [] nd.k = "casg" -> Do(m, <<K("casg", n), L(nd.l)>>)
      [] nd.k = "inc"  -> Do(m, <<K("inc", n), L(nd.l)>>)
      [] nd.k = "un"   -> Do(m, <<K("un", n), E(nd.e)>>)
      [] nd.k = "and"  -> Do(m, <<[k |-> "and", r |-> E(nd.r)], E(nd.l)>>)
      [] nd.k = "or"   -> Do(m, <<[k |-> "or", r |-> E(nd.r)], E(nd.l)>>)
      [] nd.k = "cond" -> Do(m, <<K("cond", n), E(nd.c)>>)
      [] nd.k = "coal" -> Do(m, <<K("coal", n), E(nd.l)>>)
      [] nd.k = "coasg" -> Do(m, <<K("coasg", n), E(nd.l)>>)
      [] nd.k = "cast" -> Do(m, <<K("cast", n), E(nd.e)>>)
      [] nd.k = "is"   -> Do(m, <<K("is", n), E(nd.e)>>)
      [] nd.k = "as"   -> Do(m, <<K("as", n), E(nd.e)>>)
      [] nd.k = "call" -> Do(m, <<K("call", n)>> \o EvalAll(nd.args))
      [] nd.k = "icall" -> Do(m, <<K("icall", n)>> \o EvalAll(<<nd.o>> \o nd.args))
      [] nd.k = "scall" -> Do(m, <<K("icall", n)>> \o EvalAll(nd.args) \o <<L(nd.o)>>)
      [] nd.k = "new"  -> LET a == Len(m.h) + 1
                              ty == TypeOf(m, nd.t)
                              m1 == [m EXCEPT !.h = Append(@, [c |-> nd.t, k |-> "obj",
                                       f |-> [i \in 1..Len(ty.fields) |->
                                                Default(m, ty.fields[i])]])]
                          IN  IF nd.m = 0 THEN Push(m1, Ref(a))
                              ELSE Do(Push(m1, Ref(a)), <<K("call", n)>> \o EvalAll(nd.args))
      [] nd.k = "snew" -> IF nd.m = 0 THEN Push(m, Default(m, nd.t))
                          ELSE LET a == Len(m.h) + 1
                                   m1 == [m EXCEPT !.h = Append(@, [c |-> nd.t, k |-> "tmp",
                                                            f |-> <<Default(m, nd.t)>>])]
                               IN  Do(Push(m1, HeapLoc(a, 1, nd.t)),
                                      <<K("unloc", n), K("call", n)>> \o EvalAll(nd.args))
      [] nd.k = "newarr" -> Do(m, <<K("newarr", n)>> \o EvalAll(nd.dims))
      [] nd.k = "arrinit" ->                   \* new T[] {...}: filled from left to right
            LET k == Len(nd.xs)
                d0 == Default(m, nd.et)
                m1 == [m EXCEPT !.h = Append(@, [c |-> nd.t, k |-> "arr", d |-> nd.d, et |-> nd.et,
                                                 f |-> [i \in 1..k |-> d0]])]
            IN  Do(Push(m1, Ref(Len(m1.h))),
                   [j \in 1..(2 * k) |-> LET i == k + 1 - ((j + 1) \div 2)
                                         IN  IF j % 2 = 1 THEN KD("initel", n, i) ELSE E(nd.xs[i])])
      [] nd.k = "len"  -> Do(m, <<K("len", n), E(nd.o)>>)
      [] nd.k = "null" -> Push(m, Null)
      [] nd.k = "str"  -> Push(m, Str(nd.s))
      [] nd.k = "num"  -> Push(m, Literal(nd.base, nd.suf, nd.ds))
      [] nd.k = "flat" -> EvalFlat(m, Flat(n, 1, Len(nd.xs)))
      [] nd.k = "ref"  -> Do(m, <<L(nd.l)>>)
      [] nd.k = "deleg" -> IF nd.o = 0
                           THEN Push([m EXCEPT !.h = Append(@, [c |-> nd.t, k |-> "del",
                                         m |-> nd.m, f |-> <<>>])], Ref(Len(m.h) + 1))
                           ELSE Do(m, <<K("deleg", n), E(nd.o)>>)
      [] nd.k = "invoke" -> Do(m, <<K("invoke", n)>> \o EvalAll(<<nd.o>> \o nd.args))

\* Find the variable an expression names; the location is pushed.
EvalL(m, n) ==
    LET nd == Node(m, n)
    IN
    CASE nd.k = "var" -> LET x == CurFrame(m).s[nd.i]
                         IN  Push(m, IF IsLoc(x) THEN x
                                     ELSE SlotLoc(Len(m.f), nd.i,
                                                  Method(m, CurFrame(m).m).st[nd.i]))
      [] nd.k = "fld" -> Do(m, <<K("lfld", n), IF nd.vs THEN L(nd.o) ELSE E(nd.o)>>)
      [] nd.k = "idx" -> Do(m, <<K("lidx", n)>> \o EvalAll(<<nd.o>> \o nd.ix))
      [] OTHER -> Do(m, <<K("tmploc", n), E(n)>>)      \* a value: a variable of its own

\* Continuations: the operands are on the value stack.
Cont(m, it) ==
    LET nd == Node(m, it.n)
    IN
    CASE it.k = "asg" ->
            LET x == Top(m, 1)  l == Top(m, 0)
                m1 == Store([m EXCEPT !.v = Cut(@, 2)], l, x)
            IN  Push(m1, Load(m1, l))
      [] it.k = "casg" ->                       \* location known: read it, then evaluate the operand
            LET l == Top(m, 0)
            IN  Do(Push(m, Load(m, l)), <<K("casg2", it.n), [k |-> "op", op |-> nd.op], E(nd.r)>>)
      [] it.k = "casg2" ->
            LET x == Top(m, 0)  l == Top(m, 1)
                m1 == Put([m EXCEPT !.v = Cut(@, 2)], l, Val(l.dt, x.w))
            IN  Push(m1, Load(m1, l))
      [] it.k = "inc" ->
            LET l == Top(m, 0)
                old == Load(m, l)
                new == Val(old.t, IF nd.up THEN WAdd(old.w, W1) ELSE WSub(old.w, W1))
            IN  Replace(Put(m, l, new), 1, IF nd.pre THEN new ELSE old)
      [] it.k = "un" -> Replace(m, 1, Unary(nd.op, Top(m, 0)))
      [] it.k = "cond" -> Do([m EXCEPT !.v = Cut(@, 1)],
                             <<E(IF IsTrue(Top(m, 0)) THEN nd.a ELSE nd.b)>>)
      [] it.k = "coal" -> IF Top(m, 0) # Null THEN m
                          ELSE Do([m EXCEPT !.v = Cut(@, 1)], <<E(nd.r)>>)
      [] it.k = "coasg" -> IF Top(m, 0) # Null THEN m
                           ELSE Do([m EXCEPT !.v = Cut(@, 1)],
                                   <<K("asg", it.n), L(nd.l), E(nd.r)>>)
      [] it.k = "cast" -> Cast(m, nd.t, Top(m, 0))
      [] it.k = "is" -> Replace(m, 1, Bool(IsInstance(m, Top(m, 0), nd.t)))
      [] it.k = "as" -> IF IsInstance(m, Top(m, 0), nd.t) THEN m ELSE Replace(m, 1, Null)
      [] it.k = "fld" ->
            LET x == Top(m, 0)
            IN  IF ~ IsRef(x) THEN Replace(m, 1, x.f[nd.i])
                ELSE IF x.a = 0 THEN Throw(m, "NullReferenceException")
                ELSE Replace(m, 1, m.h[x.a].f[nd.i])
      [] it.k = "lfld" ->
            LET x == Top(m, 0)
            IN  IF IsLoc(x)
                THEN Replace(m, 1, [x EXCEPT !.p = Append(@, nd.i),
                                             !.dt = TypeOf(m, nd.ot).fields[nd.i]])
                ELSE IF x.a = 0 THEN Throw(m, "NullReferenceException")
                ELSE Replace(m, 1, HeapLoc(x.a, nd.i, TypeOf(m, nd.ot).fields[nd.i]))
      [] it.k = "idx" ->
            LET e == ElementAt(m, Len(nd.ix))
            IN  IF e.err # "" THEN Throw(m, e.err)
                ELSE Replace(m, Len(nd.ix) + 1, Load(m, e.loc))
      [] it.k = "lidx" ->
            LET e == ElementAt(m, Len(nd.ix))
            IN  IF e.err # "" THEN Throw(m, e.err) ELSE Replace(m, Len(nd.ix) + 1, e.loc)
      [] it.k = "call" ->
            Enter(m, IF nd.m = -1 THEN Resolve(m, nd.cands, ArgTypes(m, nd)) ELSE nd.m,
                  Len(nd.args) + (IF nd.k = "call" THEN 0 ELSE 1))
      [] it.k = "icall" ->
            LET x == Top(m, Len(nd.args))
                n == Len(nd.args) + 1
            IN  IF IsLoc(x) THEN Enter(m, IF nd.m = -1 THEN Resolve(m, nd.cands, ArgTypes(m, nd)) ELSE nd.m, n)
                ELSE IF x.a = 0 THEN Throw(m, "NullReferenceException")
                ELSE IF nd.sig # ""
                THEN LET ob == m.h[x.a]
                         mi == FindImpl(m, ob.c, nd.sig)
                     IN  IF ob.k = "box"     \* a boxed struct: "this" is the boxed value
                         THEN Enter([m EXCEPT !.v[Len(m.v) - Len(nd.args)] =
                                        HeapLoc(x.a, 1, ob.c)], mi, n)
                         ELSE Enter(m, mi, n)
                ELSE Enter(m, IF nd.m = -1 THEN Resolve(m, nd.cands, ArgTypes(m, nd)) ELSE nd.m, n)
      [] it.k = "tmploc" ->
            LET x == Top(m, 0)
            IN  IF IsRef(x) THEN m
                ELSE Replace([m EXCEPT !.h = Append(@, [c |-> x.t, k |-> "tmp", f |-> <<x>>])], 1,
                             HeapLoc(Len(m.h) + 1, 1, x.t))
      [] it.k = "unloc" -> Replace(m, 1, Load(m, Top(m, 0)))
      [] it.k = "newarr" ->
            LET n == Len(nd.dims)
                ds == [i \in 1..n |-> WToInt(Top(m, n - i).w)]
                d0 == Default(m, nd.et)
                m1 == [m EXCEPT !.v = Cut(@, n),
                                !.h = Append(@, [c |-> nd.t, k |-> "arr", d |-> ds, et |-> nd.et,
                                                 f |-> [i \in 1..Product(ds, 1) |-> d0]])]
            IN  Push(m1, Ref(Len(m1.h)))
      [] it.k = "initel" ->
            LET x == Top(m, 0)  a == Top(m, 1)
            IN  Store([m EXCEPT !.v = Cut(@, 1)], HeapLoc(a.a, it.d, nd.et), x)
      [] it.k = "len" ->
            LET x == Top(m, 0)
            IN  IF x.a = 0 THEN Stuck(m, "length of null")
                ELSE Replace(m, 1, IntVal(IF nd.dim = 0 THEN Len(m.h[x.a].f)
                                          ELSE IF nd.dim = -1 THEN Len(m.h[x.a].d)
                                          ELSE m.h[x.a].d[nd.dim]))
      [] it.k = "deleg" ->
            Replace([m EXCEPT !.h = Append(@, [c |-> nd.t, k |-> "del", m |-> nd.m,
                                              f |-> <<Top(m, 0)>>])], 1, Ref(Len(m.h) + 1))
      [] it.k = "invoke" ->
            LET n == Len(nd.args)
                d == m.h[Top(m, n).a]
                args == SubSeq(m.v, Len(m.v) - n + 1, Len(m.v))
                m1 == [m EXCEPT !.v = Cut(@, n + 1) \o d.f \o args]
            IN  Enter(m1, d.m, n + Len(d.f))

(*------------------------------ statements ------------------------------*)

SwitchHit(m, nd, x) ==
    LET cs == nd.cases
        hit == {i \in 1..Len(cs) :
                   \/ \E j \in 1..Len(cs[i].w) : cs[i].w[j] = x.w
                   \/ \E j \in 1..Len(cs[i].items) : ItemOf(m, x.t, cs[i].items[j]).w = x.w}
        dfl == {i \in 1..Len(cs) : cs[i].dfl}
    IN  IF hit # {} THEN CHOOSE i \in hit : TRUE
        ELSE IF dfl # {} THEN CHOOSE i \in dfl : TRUE ELSE 0

ExecS(m, n) ==
    LET nd == Node(m, n)
    IN
    CASE nd.k = "expr"  -> Do(m, <<K("drop", n), E(nd.e)>>)
      [] nd.k = "block" -> Do(m, [i \in 1..Len(nd.b) |-> S(nd.b[Len(nd.b) + 1 - i])])
      [] nd.k = "print" -> Do(m, <<K("print", n), E(nd.e)>>)
      [] nd.k = "decl"  -> Do(m, <<K("decl", n), E(nd.e)>>)
      [] nd.k = "declz" -> m
      [] nd.k = "if"    -> Do(m, <<K("if", n), E(nd.c)>>)
      [] nd.k = "while" -> Do(m, <<KD("loop", n, Len(m.v)), K("test", n), E(nd.c)>>)
      [] nd.k = "do"    -> Do(m, <<KD("loop", n, Len(m.v)), K("again", n), S(nd.b)>>)
      [] nd.k = "for"   -> Do(m, <<KD("loop", n, Len(m.v)), K("test", n), E(nd.c), S(nd.i)>>)
      [] nd.k = "switch" -> Do(m, <<KD("switch", n, Len(m.v)), K("case", n), E(nd.e)>>)
      [] nd.k = "break" -> Unwind(m, [kind |-> "break", x |-> Void])
      [] nd.k = "continue" -> Unwind(m, [kind |-> "continue", x |-> Void])
      [] nd.k = "return" -> IF nd.e = 0 THEN Unwind(m, [kind |-> "return", x |-> Void])
                            ELSE Do(m, <<K("return", n), E(nd.e)>>)
      [] nd.k = "throw" -> Do(m, <<K("throw", n), E(nd.e)>>)
      [] nd.k = "try"   ->
            LET d == Len(m.v)
                m1 == IF nd.fin = 0 THEN m
                      ELSE Do([m EXCEPT !.c.ent = @ + 1], <<KD("fin", n, d)>>)
            IN  Do(m1, (IF nd.catches = <<>> THEN <<>> ELSE <<KD("try", n, d)>>) \o <<S(nd.b)>>)
      [] nd.k = "empty" -> m

StmtCont(m, it) ==
    LET nd == Node(m, it.n)
        m1 == [m EXCEPT !.v = Cut(@, 1)]
    IN
    CASE it.k = "drop" -> m1
      [] it.k = "print" ->
            LET s == m.b \o Text(Top(m, 0))
            IN  IF nd.ln THEN [m1 EXCEPT !.st = "emit", !.o = s, !.b = ""]
                         ELSE [m1 EXCEPT !.b = s]
      [] it.k = "decl" -> LET mt == Method(m, CurFrame(m).m)
                          IN  Store(m1, SlotLoc(Len(m.f), nd.i, mt.st[nd.i]), Top(m, 0))
      [] it.k = "if" -> IF IsTrue(Top(m, 0)) THEN Do(m1, <<S(nd.a)>>)
                        ELSE IF nd.b = 0 THEN m1 ELSE Do(m1, <<S(nd.b)>>)
      [] it.k = "test" -> IF ~ IsTrue(Top(m, 0)) THEN m1
                          ELSE Do(m1, <<K("again", it.n), S(nd.b)>>)
      [] it.k = "case" ->
            LET i == SwitchHit(m, nd, Top(m, 0))
            IN  IF i = 0 THEN m1
                ELSE Do(m1, [j \in 1..(Len(nd.cases) - i + 1) |->
                                S(nd.cases[Len(nd.cases) + 1 - j].b)])
      [] it.k = "return" -> Unwind(m1, [kind |-> "return", x |-> Top(m, 0)])
      [] it.k = "throw" -> IF Top(m, 0) = Null THEN Throw(m, "NullReferenceException")
                           ELSE Unwind(m1, [kind |-> "throw", x |-> Top(m, 0)])

\* After a loop body (or continue): the step of a for loop, then the condition.
LoopAgain(m, n) ==
    LET nd == Node(m, n)
    IN  IF nd.k = "for" THEN Do(m, <<K("test", n), E(nd.c), S(nd.s)>>)
        ELSE Do(m, <<K("test", n), E(nd.c)>>)

(*------------------------------ one step --------------------------------*)

Step(m) ==
    IF m.k = <<>> THEN [m EXCEPT !.st = "done"]
    ELSE
    LET it == m.k[Len(m.k)]
        m0 == [m EXCEPT !.k = Cut(@, 1)]
    IN
    CASE it.k = "e" -> EvalE(m0, it.n)
      [] it.k = "op" -> Binary(m0, it.op)
      [] it.k = "s" -> ExecS(m0, it.n)
      [] it.k = "l" -> EvalL(m0, it.n)
      [] it.k \in {"drop", "print", "decl", "if", "test", "case", "return", "throw"}
            -> StmtCont(m0, it)
      [] it.k \in {"again", "cont"} -> LoopAgain(m0, it.n)
      [] it.k = "and" -> IF IsTrue(Top(m0, 0)) THEN Do([m0 EXCEPT !.v = Cut(@, 1)], <<it.r>>)
                         ELSE m0
      [] it.k = "or" -> IF IsTrue(Top(m0, 0)) THEN m0
                        ELSE Do([m0 EXCEPT !.v = Cut(@, 1)], <<it.r>>)
      [] it.k = "flat" -> EvalFlat(m0, it)
      [] it.k \in {"loop", "switch", "try"} -> m0
      [] it.k = "fin" -> Do([m0 EXCEPT !.c.fin = @ + 1],
                            <<[k |-> "finend", n |-> it.n, r |-> [kind |-> "normal"]],
                              S(Node(m0, it.n).fin)>>)
      [] it.k = "finend" -> IF it.r.kind = "normal" THEN m0 ELSE Unwind(m0, it.r)
      [] it.k = "ret" -> Unwind(m, [kind |-> "return", x |-> Void])
      [] OTHER -> Cont(m0, it)

InitM(p) ==
    LET pr == Progs[p]
        mt == pr.methods[pr.main]
        m == [p |-> p, st |-> "run", k |-> <<>>, v |-> <<>>, f |-> <<>>, h |-> <<>>,
              b |-> "", o |-> "", c |-> [ent |-> 0, fin |-> 0]]
    IN  [m EXCEPT !.f = <<[m |-> pr.main,
                           s |-> [i \in 1..Len(mt.st) |-> Default(m, mt.st[i])]]>>,
                  !.k = IF EnumsOK(p) THEN <<S(mt.body)>> ELSE <<>>,
                  !.st = IF EnumsOK(p) THEN "run" ELSE "emit",
                  !.o = IF EnumsOK(p) THEN "" ELSE "<refused>"]

\* Run up to the next observable event, at most Grain steps.
CONSTANT Grain
Run(m) == FoldLeft(LAMBDA x, i : IF x.st = "run" THEN Step(x) ELSE x, m,
                   [i \in 1..Grain |-> i])

(*------------------------------ invariants ------------------------------*)

\* Finally regions: every region that was entered has run its finally block exactly once or
\* is still open (its marker is on the control stack).
FinallyOnce(m) ==
    m.st # "stuck" =>
    m.c.ent = m.c.fin + Cardinality({i \in 1..Len(m.k) : m.k[i].k = "fin"})

\* Calls and frames correspond one to one.
FramesMatch(m) ==
    Len(m.f) = 1 + Cardinality({i \in 1..Len(m.k) : m.k[i].k = "ret"}) \/ m.k = <<>>

\* No dangling references, no value outside the range of its type.
RECURSIVE ValueOK(_, _)
ValueOK(m, x) ==
    IF x.t = "ref" THEN x.a \in 0..Len(m.h)
    ELSE IF x.t \in PrimTypes THEN CanonicalPrim(x)
    ELSE IF x.t = "loc" THEN IF x.r = "f" THEN x.a \in 1..Len(m.f) ELSE x.a \in 1..Len(m.h)
    ELSE IF IsStruct(m, x.t) THEN \A i \in 1..Len(x.f) : ValueOK(m, x.f[i])
    ELSE IF IsEnum(m, x.t) THEN x.w = Wrap(TypeOf(m, x.t).u, x.w)
    ELSE TRUE

StateOK(m) ==
    /\ \A i \in 1..Len(m.v) : ValueOK(m, m.v[i])
    /\ \A i \in 1..Len(m.f) : \A j \in 1..Len(m.f[i].s) : ValueOK(m, m.f[i].s[j])
    /\ \A i \in 1..Len(m.h) : \A j \in 1..Len(m.h[i].f) : ValueOK(m, m.h[i].f[j])

\* Between statements of the entry method nothing is left on the value stack.
DoneClean(m) == m.st = "done" => m.v = <<>> /\ Len(m.f) = 1
==============================================================================
