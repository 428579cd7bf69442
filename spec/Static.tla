------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* The static rules of the April language: which programs the compiler has *)
(* to refuse.  A program is a table of types with their members and a      *)
(* table of nodes for statements and expressions; names are not resolved.  *)
(* Every judgement is "ok", "bad" (the program breaks a rule) or "und"     *)
(* (the rules say nothing about this construct).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Signed   == {"sbyte", "short", "int", "long"}
Unsigned == {"byte", "ushort", "uint", "ulong"}
Ints     == Signed \union Unsigned
Builtin  == Ints \union {"bool", "char", "string", "object", "void"}
Errors   == {"Exception", "SystemException", "NullReferenceException",
             "InvalidCastException", "OutOfRangeException"}

Size(t) == CASE t \in {"sbyte", "byte"} -> 1 [] t \in {"short", "ushort"} -> 2
             [] t \in {"int", "uint"} -> 4 [] OTHER -> 8

Range(s) == {s[i] : i \in 1..Len(s)}

\* All of several judgements: what is not specified dominates.
All(S) == IF "und" \in S THEN "und" ELSE IF "bad" \in S THEN "bad" ELSE "ok"
Must(c) == IF c THEN "ok" ELSE "bad"

(*------------------------------- types -------------------------------*)

\* A program p carries tables that Prepare makes: the declared type names (names), the
\* declaration of each (decl), all types above it (above) and all its members (mem).
Declared(p, t) == t \in p.names
Decl(p, t)  == p.types[p.decl[t]]
Arrays(p, t) == {i \in 1..Len(p.arrs) : p.arrs[i].n = t}
IsArray(p, t) == Arrays(p, t) # {}
Elem(p, t)   == p.arrs[CHOOSE i \in Arrays(p, t) : TRUE].e
Kind(p, t)   == IF t \in Errors THEN "class" ELSE IF Declared(p, t) THEN Decl(p, t).kind
                ELSE IF IsArray(p, t) THEN "array" ELSE "basic"
Known(p, t)  == LET e == IF IsArray(p, t) THEN Elem(p, t) ELSE t
                IN  e \in Builtin \union Errors \/ Declared(p, e)

ErrorBase(t) == CASE t = "Exception" -> {} [] t = "SystemException" -> {"Exception"}
                  [] OTHER -> {"SystemException"}
ErrorAbove(t) == CASE t = "Exception" -> {} [] t = "SystemException" -> {"Exception"}
                   [] OTHER -> {"SystemException", "Exception"}
Direct(p, t) == IF t \in Errors THEN ErrorBase(t)
                ELSE IF ~ Declared(p, t) THEN {}
                ELSE (IF Decl(p, t).base = "" THEN {} ELSE {Decl(p, t).base})
                     \union Range(Decl(p, t).ifaces)

RECURSIVE Close(_, _)
Close(p, S) == LET U == TLCEval(S \union UNION {Direct(p, t) : t \in S})
               IN  IF U = S THEN S ELSE Close(p, U)
Above(p, t)  == IF Declared(p, t) THEN p.above[t] ELSE IF t \in Errors THEN ErrorAbove(t) ELSE {}
Supers(p, t) == {t} \union Above(p, t)
Circular(p)  == \E t \in p.names : t \in p.above[t]

Prepare(q) ==
    LET names == {q.types[i].name : i \in 1..Len(q.types)}
        decl  == TLCEval([t \in names |-> CHOOSE i \in 1..Len(q.types) :
                            /\ q.types[i].name = t
                            /\ \A j \in 1..(i - 1) : q.types[j].name # t])
        p == [types |-> q.types, nodes |-> q.nodes, arrs |-> q.arrs, names |-> names, decl |-> decl]
        above == TLCEval([t \in names |-> Close(p, Direct(p, t))])
        mem == TLCEval([t \in names |-> UNION {
                   {<<c, j>> : j \in 1..Len(Decl(p, c).members)} : c \in ({t} \union above[t]) \cap names}])
    IN  [types |-> q.types, nodes |-> q.nodes, arrs |-> q.arrs, names |-> names, decl |-> decl,
         above |-> above, mem |-> mem]

\* Implicit conversion of a value of type a to type b.
Conv(p, a, b) ==
    LET ka == Kind(p, a)  kb == Kind(p, b)
    IN  IF a = b THEN "ok"
        ELSE IF a = "void" \/ b = "void" THEN "bad"
        ELSE IF a = "null"
        THEN IF b \in {"string", "object"} \/ kb \in {"class", "interface", "array"} THEN "ok" ELSE "und"
        ELSE IF b = "object" THEN IF ka = "interface" THEN "und" ELSE "ok"
        ELSE IF a \in Ints /\ b \in Ints
        THEN Must(Size(a) < Size(b) /\ (a \in Signed <=> b \in Signed))
        ELSE IF ka = "enum" /\ (kb = "enum" \/ b \in Ints \union {"char"}) THEN "und"
        ELSE IF kb = "enum" /\ a \in Ints \union {"char"} THEN "und"
        ELSE IF ka = "array" /\ kb = "array"
        THEN IF Elem(p, a) \in Ints \union {"bool"} /\ Elem(p, b) \in Ints \union {"bool"}
             THEN "bad" ELSE "und"
        ELSE IF ka \in {"class", "interface", "struct"} /\ kb \in {"class", "interface"}
        THEN Must(b \in Supers(p, a))
        ELSE "bad"

Promote2(a, b) ==
    IF "ulong" \in {a, b} THEN "ulong" ELSE IF "long" \in {a, b} THEN "long"
    ELSE IF "uint" \in {a, b} THEN IF {a, b} \subseteq Unsigned THEN "uint" ELSE "long"
    ELSE "int"
Promote1(a) == IF Size(a) < 4 THEN "int" ELSE a

(*------------------------------ members ------------------------------*)

\* Members with a name, in a type or in a type above it: <<type, member>>.
Member(p, x) == Decl(p, x[1]).members[x[2]]
MembersOf(p, t, name) == IF Declared(p, t) THEN {x \in p.mem[t] : Member(p, x).name = name} ELSE {}
Fields(p, t, name)  == {x \in MembersOf(p, t, name) : Member(p, x).k \in {"field", "prop"}}
Methods(p, t, name) == {x \in MembersOf(p, t, name) : Member(p, x).k = "method"}
Ctors(p, t) == {<<t, j>> : j \in {i \in 1..Len(Decl(p, t).members) : Decl(p, t).members[i].k = "ctor"}}

ParamTypes(mb) == [i \in 1..Len(mb.params) |-> mb.params[i].t]

\* An override stands for what it overrides.
NotOverridden(p, X) ==
    {x \in X : ~ \E y \in X : /\ y # x
                              /\ x[1] \in Above(p, y[1])
                              /\ ParamTypes(Member(p, x)) = ParamTypes(Member(p, y))}

\* May code of class c use a member declared in type t?
Reachable(p, c, x) ==
    LET acc == IF Kind(p, x[1]) = "interface" THEN "public" ELSE Member(p, x).access
    IN  \/ acc = "public"
        \/ c = x[1]
        \/ acc = "protected" /\ x[1] \in Supers(p, c)

\* Arguments as: [t |-> type, m |-> "" or "ref" or "out"].
Fit(p, mb, as) ==
    IF Len(mb.params) # Len(as) THEN "bad"
    ELSE All({"ok"} \union
             {IF mb.params[i].m # as[i].m THEN "bad"
              ELSE IF as[i].m # "" THEN Must(as[i].t = mb.params[i].t)
              ELSE Conv(p, as[i].t, mb.params[i].t) : i \in 1..Len(as)})
Exact(mb, as) == /\ Len(mb.params) = Len(as)
                 /\ \A i \in 1..Len(as) : mb.params[i].t = as[i].t /\ mb.params[i].m = as[i].m

\* The member that a call selects (a set of one), if any.
Choice(p, X, as) ==
    LET ex == {x \in X : Exact(Member(p, x), as)}
        ap == {x \in X : Fit(p, Member(p, x), as) = "ok"}
    IN  IF Cardinality(ex) = 1 THEN [s |-> "ok", x |-> ex]
        ELSE IF \E x \in X : Fit(p, Member(p, x), as) = "und" THEN [s |-> "und", x |-> {}]
        ELSE IF Cardinality(ap) = 1 THEN [s |-> "ok", x |-> ap]
        ELSE [s |-> "bad", x |-> {}]

(*----------------------------- expressions -----------------------------*)

T(t)  == [t |-> t, s |-> "ok"]
Bad   == [t |-> "?", s |-> "bad"]
Und   == [t |-> "?", s |-> "und"]
J(s, t) == IF s = "ok" THEN T(t) ELSE [t |-> "?", s |-> s]

Find(env, name) == LET I == {i \in 1..Len(env.vars) : env.vars[i].n = name}
                   IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

IsConst(env, name) == LET i == Find(env, name) IN i # 0 /\ env.vars[i].c

Binary(p, op, a, b) ==
    IF "null" \in {a, b} /\ {a, b} \cap (Ints \union {"bool"}) = {} THEN
        IF op \in {"==", "!="} /\ \A t \in {a, b} : t = "null" \/ Kind(p, t) = "class" THEN T("bool") ELSE Und
    ELSE IF op \in {"+", "-", "*", "/", "%", "&", "|", "^"} THEN
        IF a \in Ints /\ b \in Ints THEN T(Promote2(a, b))
        ELSE IF op = "+" /\ "string" \in {a, b} THEN Und
        ELSE IF op \in {"&", "|", "^"} /\ {a, b} = {"bool"} THEN Und
        ELSE IF \E t \in {a, b} : t = "char" \/ Kind(p, t) = "enum" THEN Und
        ELSE Bad
    ELSE IF op \in {"<", "<=", ">", ">="} THEN
        IF a \in Ints /\ b \in Ints THEN T("bool")
        ELSE IF \E t \in {a, b} : t = "char" \/ Kind(p, t) = "enum" THEN Und
        ELSE Bad
    ELSE IF op \in {"==", "!="} THEN
        IF (a \in Ints /\ b \in Ints) \/ (a = b /\ a = "bool") THEN T("bool")
        ELSE IF (a \in Ints /\ b = "bool") \/ (b \in Ints /\ a = "bool") THEN Bad
        ELSE IF \/ a \in Ints \union {"bool"} /\ Kind(p, b) = "class"
                \/ b \in Ints \union {"bool"} /\ Kind(p, a) = "class" THEN Bad
        ELSE IF a = b /\ Kind(p, a) = "class" THEN T("bool")
        ELSE Und
    ELSE IF op \in {"&&", "||"} THEN IF {a, b} = {"bool"} THEN T("bool") ELSE Bad
    ELSE Und

Unary(op, a) ==
    IF op = "!" THEN IF a = "bool" THEN T("bool") ELSE IF a \in Ints \union {"string"} THEN Bad ELSE Und
    ELSE IF a \in Ints
    THEN IF op = "-" THEN (IF a = "ulong" THEN Bad ELSE T(IF a = "uint" THEN "long" ELSE Promote1(a)))
         ELSE T(Promote1(a))
    ELSE IF a \in {"bool", "string"} THEN Bad ELSE Und

RECURSIVE Ty(_, _, _), Args(_, _, _)

\* The arguments of a call: [s |-> judgement, as |-> types and modes].
Args(p, env, ns) ==
    LET js == TLCEval([i \in 1..Len(ns) |->
                 LET nd == p.nodes[ns[i]]
                 IN  IF nd.k = "ref"
                     THEN LET e == p.nodes[nd.e]
                              v == Ty(p, env, nd.e)
                          IN  [t |-> v.t, m |-> nd.m,
                               s |-> IF e.k = "name" THEN (IF IsConst(env, e.n) THEN All({v.s, "bad"}) ELSE v.s)
                                     ELSE IF e.k = "lit" THEN All({v.s, "bad"}) ELSE "und"]
                     ELSE LET v == Ty(p, env, ns[i]) IN [t |-> v.t, m |-> "", s |-> v.s]])
    IN  [s |-> All({js[i].s : i \in 1..Len(ns)}), as |-> js]

\* A call of one of the methods X.
CallOf(p, env, X, ar, wanted) ==
    IF ar.s # "ok" THEN J(ar.s, "?")
    ELSE IF X = {} THEN Bad
    ELSE LET c == Choice(p, NotOverridden(p, X), ar.as)
         IN  IF c.s # "ok" THEN J(c.s, "?")
             ELSE LET x == CHOOSE y \in c.x : TRUE
                      mb == Member(p, x)
                  IN  IF wanted # "any" /\ mb.static # (wanted = "static") THEN Und
                      ELSE IF ~ Reachable(p, env.cls, x) THEN Bad
                      ELSE T(mb.t)

Ty(p, env, n) ==
    LET nd == p.nodes[n]
    IN
    CASE nd.k = "lit"  -> T(nd.t)
      [] nd.k = "null" -> T("null")
      [] nd.k = "this" -> IF env.static THEN Und ELSE T(env.cls)
      [] nd.k = "name" -> LET i == Find(env, nd.n)
                          IN  IF i # 0 THEN (IF env.vars[i].t = "?" THEN Und ELSE T(env.vars[i].t))
                              ELSE IF MembersOf(p, env.cls, nd.n) = {} THEN Bad ELSE Und
      [] nd.k = "bin"  -> LET a == Ty(p, env, nd.a)  b == Ty(p, env, nd.b)
                              s == All({a.s, b.s})
                          IN  IF s # "ok" THEN J(s, "?") ELSE Binary(p, nd.op, a.t, b.t)
      [] nd.k = "un"   -> LET a == Ty(p, env, nd.a)
                          IN  IF a.s # "ok" THEN a ELSE Unary(nd.op, a.t)
      [] nd.k = "cast" -> LET a == Ty(p, env, nd.a)
                          IN  IF a.s # "ok" THEN a
                              ELSE IF ~ Known(p, nd.t) THEN Bad
                              ELSE IF a.t \in Ints /\ nd.t \in Ints THEN T(nd.t)
                              ELSE IF Kind(p, nd.t) = "class" /\ Kind(p, a.t) = "class" THEN T(nd.t)
                              ELSE Und
      [] nd.k = "call" -> CallOf(p, env, Methods(p, env.cls, nd.n), Args(p, env, nd.args),
                                 IF env.static THEN "static" ELSE "any")
      [] nd.k = "scall" -> IF Find(env, nd.t) # 0 THEN Und
                           ELSE IF ~ Declared(p, nd.t) THEN (IF Known(p, nd.t) THEN Und ELSE Bad)
                           ELSE CallOf(p, env, Methods(p, nd.t, nd.n), Args(p, env, nd.args), "static")
      [] nd.k = "mcall" ->
            LET o == Ty(p, env, nd.o)
                ar == Args(p, env, nd.args)
                s == All({o.s, ar.s})
            IN  IF s # "ok" THEN J(s, "?")
                ELSE IF Declared(p, o.t) /\ Kind(p, o.t) # "enum"
                THEN CallOf(p, env, Methods(p, o.t, nd.n), ar, "instance")
                ELSE IF o.t \in {"int", "string"} /\ nd.n \in {"Foo", "Bar"} THEN Bad
                ELSE Und
      [] nd.k = "fld" ->
            LET o == Ty(p, env, nd.o)
            IN  IF o.s # "ok" THEN o
                ELSE IF Declared(p, o.t) /\ Kind(p, o.t) \in {"class", "struct"}
                THEN LET X == Fields(p, o.t, nd.n)
                     IN  IF X = {} THEN (IF MembersOf(p, o.t, nd.n) = {} THEN Bad ELSE Und)
                         ELSE IF Cardinality(X) > 1 THEN Und
                         ELSE LET x == CHOOSE y \in X : TRUE
                              IN  IF ~ Reachable(p, env.cls, x) THEN Bad ELSE T(Member(p, x).t)
                ELSE IF o.t \in Ints THEN Bad ELSE Und
      [] nd.k = "new" ->
            IF nd.t \in Errors THEN (IF nd.args = <<>> THEN T(nd.t) ELSE Und)
            ELSE IF ~ Declared(p, nd.t) THEN (IF Known(p, nd.t) THEN Und ELSE Bad)
            ELSE IF Kind(p, nd.t) \notin {"class", "struct"} \/ Decl(p, nd.t).abstract THEN Und
            ELSE LET ar == Args(p, env, nd.args)
                     X == Ctors(p, nd.t)
                 IN  IF ar.s # "ok" THEN J(ar.s, "?")
                     ELSE IF X = {} THEN (IF nd.args = <<>> THEN T(nd.t)
                                          ELSE IF Decl(p, nd.t).base = "" THEN Bad ELSE Und)
                     ELSE IF \E x \in X : Member(p, x).access # "public" THEN Und
                     ELSE LET c == Choice(p, X, ar.as)
                          IN  IF c.s = "bad" /\ (Decl(p, nd.t).base # "" \/ nd.args = <<>>) THEN Und ELSE J(c.s, nd.t)
      [] nd.k = "newarr" -> LET e == Ty(p, env, nd.e)
                            IN  IF e.s # "ok" THEN e
                                ELSE IF ~ Known(p, nd.t) THEN Bad
                                ELSE IF e.t = "int" THEN T(nd.t) ELSE Und
      [] nd.k = "idx" -> LET a == Ty(p, env, nd.a)  i == Ty(p, env, nd.i)
                             s == All({a.s, i.s})
                         IN  IF s # "ok" THEN J(s, "?")
                             ELSE IF IsArray(p, a.t) /\ i.t = "int" THEN T(Elem(p, a.t))
                             ELSE IF a.t \in Ints /\ i.t = "int" THEN Bad
                             ELSE Und
      [] nd.k = "item" -> IF ~ Declared(p, nd.t) THEN Bad
                          ELSE IF Kind(p, nd.t) # "enum" THEN Und
                          ELSE J(Must(nd.n \in Range(Decl(p, nd.t).items)), nd.t)

(*----------------------------- statements -----------------------------*)

RECURSIVE Names(_, _, _)                    \* does the expression depend on a variable?
Names(p, env, n) ==
    LET nd == p.nodes[n]
    IN  CASE nd.k = "name" -> ~ IsConst(env, nd.n)
          [] nd.k = "bin" -> Names(p, env, nd.a) \/ Names(p, env, nd.b)
          [] nd.k \in {"un", "cast"} -> Names(p, env, nd.a)
          [] nd.k \in {"lit", "null", "item"} -> FALSE
          [] OTHER -> TRUE

IsTrueLit(p, n) == p.nodes[n].k = "lit" /\ p.nodes[n].t = "bool" /\ p.nodes[n].v = "true"

\* A condition: bool; constants other than true are left alone.
Condition(p, env, n, loop) ==
    LET c == Ty(p, env, n)
    IN  IF c.s # "ok" THEN c.s
        ELSE IF c.t # "bool" THEN "und"
        ELSE IF Names(p, env, n) \/ (loop /\ IsTrueLit(p, n)) THEN "ok" ELSE "und"

\* The ways to leave a statement.
RECURSIVE Exits(_, _), ExitsSeq(_, _, _)
ExitsSeq(p, ns, acc) ==
    IF ns = <<>> \/ "pass" \notin acc THEN acc
    ELSE ExitsSeq(p, Tail(ns), (acc \ {"pass"}) \union Exits(p, Head(ns)))
Exits(p, n) ==
    LET nd == p.nodes[n]
    IN
    CASE nd.k = "block" -> ExitsSeq(p, nd.b, {"pass"})
      [] nd.k = "if" -> Exits(p, nd.a) \union (IF nd.b = 0 THEN {"pass"} ELSE Exits(p, nd.b))
      [] nd.k \in {"while", "do", "for"} ->
            LET B == Exits(p, nd.b)
                forever == nd.c = 0 \/ (nd.c # 0 /\ IsTrueLit(p, nd.c))
                over == ~ forever /\ (nd.k # "do" \/ B \cap {"pass", "continue"} # {})
            IN  (B \ {"pass", "break", "continue"})
                \union (IF over \/ "break" \in B THEN {"pass"} ELSE {})
      [] nd.k = "switch" ->
            LET n_ == Len(nd.cases)             \* "fall": a case falls through to the next one
                B == UNION {LET E == ExitsSeq(p, nd.cases[i].b, {"pass"})
                            IN  IF i < n_ /\ "pass" \in E THEN (E \ {"pass"}) \union {"fall"} ELSE E : i \in 1..n_}
                dfl == \E i \in 1..Len(nd.cases) : nd.cases[i].dfl
            IN  (B \ {"break"}) \union (IF "break" \in B \/ ~ dfl THEN {"pass"} ELSE {})
      [] nd.k = "try" ->
            LET B == UNION ({Exits(p, nd.b)} \union {Exits(p, nd.catches[i].b) : i \in 1..Len(nd.catches)})
            IN  B
      [] nd.k = "return" -> {"return"}
      [] nd.k = "throw" -> {"throw"}
      [] nd.k = "break" -> {"break"}
      [] nd.k = "continue" -> {"continue"}
      [] OTHER -> {"pass"}

\* What can be assigned to.
Place(p, env, n) == \/ p.nodes[n].k = "name" /\ ~ IsConst(env, p.nodes[n].n)
                    \/ p.nodes[n].k \in {"fld", "idx"}

Add(env, n, t) == [env EXCEPT !.vars = Append(@, [n |-> n, t |-> t, c |-> FALSE])]
AddConst(env, n, t) == [env EXCEPT !.vars = Append(@, [n |-> n, t |-> t, c |-> TRUE])]

\* The value of a constant is known to the compiler.
RECURSIVE Steady(_, _, _)
Steady(p, env, n) ==
    LET nd == p.nodes[n]
    IN  CASE nd.k = "lit" -> "ok"
          [] nd.k = "name" -> Must(IsConst(env, nd.n))
          [] nd.k = "bin" -> All({Steady(p, env, nd.a), Steady(p, env, nd.b),
                                  IF nd.op \in {"+", "-", "*", "&", "|", "^"} THEN "ok" ELSE "und"})
          [] nd.k = "cast" -> All({Steady(p, env, nd.a), IF nd.t \in Ints THEN "ok" ELSE "und"})
          [] nd.k \in {"call", "scall", "mcall", "idx", "fld"} -> "bad"
          [] OTHER -> "und"

\* Whether variables are known before their declaration, or after a switch that declares
\* them, is not specified.
RECURSIVE Hide(_, _, _)
Hide(p, env, ns) == IF ns = <<>> THEN env
                    ELSE Hide(p, IF p.nodes[Head(ns)].k \in {"decl", "var"}
                                 THEN Add(env, p.nodes[Head(ns)].n, "?") ELSE env, Tail(ns))

RECURSIVE Joined(_)                         \* the bodies of a switch are one block
Joined(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs).b \o Joined(Tail(cs))

\* Judgement of a statement and the environment after it.
RECURSIVE St(_, _, _), Seq_(_, _, _)
Seq_(p, env, ns) ==
    IF ns = <<>> THEN "ok"
    ELSE LET x == St(p, env, Head(ns)) IN All({x.s, Seq_(p, x.env, Tail(ns))})
In(p, env, n) == IF n = 0 THEN "ok" ELSE St(p, env, n).s
St(p, env, n) ==
    LET nd == p.nodes[n]
        R(s) == [s |-> s, env |-> env]
    IN
    CASE nd.k = "decl" ->
            LET e == IF nd.e = 0 THEN T(nd.t) ELSE Ty(p, env, nd.e)
            IN  [s |-> IF ~ Known(p, nd.t) THEN All({e.s, "bad"})
                       ELSE IF e.s # "ok" THEN e.s
                       ELSE All({Conv(p, e.t, nd.t), IF nd.con THEN Steady(p, env, nd.e) ELSE "ok"}),
                 env |-> IF nd.con THEN AddConst(env, nd.n, nd.t) ELSE Add(env, nd.n, nd.t)]
      [] nd.k = "var" ->
            LET e == IF nd.e = 0 THEN Bad ELSE Ty(p, env, nd.e)
            IN  [s |-> IF e.s = "ok" /\ e.t \in {"null", "void"} THEN "und" ELSE e.s,
                 env |-> Add(env, nd.n, e.t)]
      [] nd.k = "assign" ->                  \* types of assignments are not specified
            LET l == Ty(p, env, nd.l)  e == Ty(p, env, nd.e)
                s == All({l.s, e.s})
            IN  R(IF ~ Place(p, env, nd.l) THEN All({s, "bad"})
                  ELSE IF s # "ok" THEN s ELSE IF Conv(p, e.t, l.t) = "ok" THEN "ok" ELSE "und")
      [] nd.k = "casg" ->
            LET l == Ty(p, env, nd.l)  e == Ty(p, env, nd.e)
                s == All({l.s, e.s})
            IN  R(IF ~ Place(p, env, nd.l) THEN All({s, "bad"})
                  ELSE IF s # "ok" THEN s
                  ELSE IF l.t \in Ints /\ e.t \in Ints
                  THEN (IF Conv(p, Promote2(l.t, e.t), l.t) = "ok" THEN "ok" ELSE "und")
                  ELSE IF l.t \in Ints /\ e.t \in {"bool", "string"} THEN "bad"
                  ELSE IF l.t = "bool" /\ e.t \in Ints THEN "bad" ELSE "und")
      [] nd.k = "inc" -> LET l == Ty(p, env, nd.l)
                         IN  R(IF ~ Place(p, env, nd.l) THEN All({l.s, "bad"})
                               ELSE IF l.s # "ok" THEN l.s ELSE IF l.t \in Ints THEN "ok"
                               ELSE IF l.t \in {"bool", "string"} \/ Kind(p, l.t) = "class" THEN "bad"
                               ELSE "und")
      [] nd.k = "expr" -> R(Ty(p, env, nd.e).s)
      [] nd.k = "block" -> R(Seq_(p, Hide(p, env, nd.b), nd.b))
      [] nd.k = "if" -> R(All({Condition(p, env, nd.c, FALSE), In(p, env, nd.a), In(p, env, nd.b)}))
      [] nd.k \in {"while", "do"} -> R(All({Condition(p, env, nd.c, TRUE), In(p, env, nd.b)}))
      [] nd.k = "for" ->
            LET i == St(p, env, nd.i)
            IN  R(All({i.s, Condition(p, i.env, nd.c, TRUE), In(p, i.env, nd.s), In(p, i.env, nd.b)}))
      [] nd.k = "switch" ->
            LET e == Ty(p, env, nd.e)
            IN  [s |-> All({IF e.s = "ok" THEN (IF e.t = "int" /\ Names(p, env, nd.e) THEN "ok" ELSE "und") ELSE e.s} \union
                           {Seq_(p, Hide(p, env, Joined(nd.cases)), Joined(nd.cases))}),
                 env |-> Hide(p, env, Joined(nd.cases))]
      [] nd.k = "return" ->
            IF nd.e = 0 THEN R(Must(env.ret = "void"))
            ELSE LET e == Ty(p, env, nd.e)
                 IN  R(IF env.ret = "void" THEN All({e.s, "bad"})
                       ELSE IF e.s # "ok" THEN e.s ELSE Conv(p, e.t, env.ret))
      [] nd.k = "throw" -> LET e == Ty(p, env, nd.e)
                           IN  R(IF e.s = "ok" /\ "Exception" \notin Supers(p, e.t) THEN "und" ELSE e.s)
      [] nd.k = "try" ->
            R(All({In(p, env, nd.b), In(p, env, nd.f)} \union
                  {LET c == nd.catches[i]
                   IN  IF ~ Known(p, c.t) THEN "bad"
                       ELSE IF "Exception" \notin Supers(p, c.t) THEN "und"
                       ELSE In(p, IF c.n = "" THEN env ELSE Add(env, c.n, c.t), c.b)
                     : i \in 1..Len(nd.catches)}))
      [] OTHER -> R("ok")

(*------------------------------ declarations ------------------------------*)

MethodOK(p, t, mb) ==
    LET env == [cls |-> t, static |-> mb.static, ret |-> mb.t,
                vars |-> TLCEval([i \in 1..Len(mb.params) |->
                                  [n |-> mb.params[i].n, t |-> mb.params[i].t, c |-> FALSE]])]
        kinds == All({Must(Known(p, mb.t))} \union {Must(Known(p, q.t)) : q \in Range(mb.params)})
        names == Must(\A i, j \in 1..Len(mb.params) : i # j => mb.params[i].n # mb.params[j].n)
        body == IF mb.body = 0 THEN "ok"
                ELSE All({In(p, env, mb.body),
                          IF mb.t = "void" THEN "ok"
                          ELSE LET E == Exits(p, mb.body)
                               IN  IF "fall" \in E THEN "und" ELSE Must("pass" \notin E)})
    IN  All({kinds, names, body})

\* The method that an override replaces.
Overridden(p, t, mb) ==
    {x \in MembersOf(p, t, mb.name) :
        /\ x[1] # t
        /\ Kind(p, x[1]) = "class"
        /\ Member(p, x).k = "method"
        /\ Member(p, x).virt \in {"virtual", "abstract", "override"}
        /\ ParamTypes(Member(p, x)) = ParamTypes(mb)}

VirtOK(p, t, mb) ==
    IF mb.virt = "" THEN "ok"
    ELSE IF mb.static THEN "bad"
    ELSE IF mb.virt \in {"virtual", "abstract"} /\ mb.access \in {"", "private"} THEN "bad"
    ELSE IF mb.virt = "abstract" /\ ~ Decl(p, t).abstract THEN "bad"
    ELSE IF mb.virt = "override"
    THEN LET X == Overridden(p, t, mb)
         IN  IF X = {} THEN "bad"
             ELSE IF \E x \in X : Member(p, x).t # mb.t THEN "bad"
             ELSE IF \E x \in X : Member(p, x).access # mb.access THEN "und" ELSE "ok"
    ELSE "ok"

SameMember(a, b) ==
    /\ a.name = b.name
    /\ \/ a.k \in {"field", "prop"}
       \/ b.k \in {"field", "prop"}
       \/ a.k = b.k /\ ParamTypes(a) = ParamTypes(b)

MemberOK(p, t, mb) ==
    CASE mb.k = "field" -> Must(Known(p, mb.t))
      [] mb.k = "prop" -> Must(Known(p, mb.t))
      [] OTHER -> All({MethodOK(p, t, mb), VirtOK(p, t, mb)})

TypeOK(p, i) ==
    LET d == p.types[i]
        ms == d.members
    IN  All({Must(\A j \in 1..Len(p.types) : j # i => p.types[j].name # d.name),
             Must(d.base = "" \/ Known(p, d.base)),
             Must(\A f \in Range(d.ifaces) : Known(p, f)),
             Must(\A a, b \in 1..Len(d.items) : a # b => d.items[a] # d.items[b]),
             Must(\A a, b \in 1..Len(ms) : a # b => ~ SameMember(ms[a], ms[b]))}
            \union {MemberOK(p, d.name, ms[a]) : a \in 1..Len(ms)})

\* What the compiler has to say about the program.
Judge(q) == LET p == TLCEval(Prepare(q))
            IN  IF Circular(p) THEN "bad" ELSE All({TypeOK(p, i) : i \in 1..Len(p.types)})

\* Where the rules are broken (for messages).
Where(q) ==
    LET p == TLCEval(Prepare(q))
    IN  IF Circular(p) THEN {"circular"}
        ELSE UNION {{d.name \o "." \o d.members[a].name \o " " \o MemberOK(p, d.name, d.members[a]) :
                       a \in {b \in 1..Len(d.members) : MemberOK(p, d.name, d.members[b]) # "ok"}} :
                     d \in Range(p.types)}
=============================================================================
