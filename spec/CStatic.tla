------------------------------ MODULE CStatic ------------------------------
(***************************************************************************)
(* Which token sequences are programs: the syntax and the constraints of   *)
(* C11 for the language umlcc compiles.                                    *)
(*                                                                         *)
(* A state is a position in a translation unit and what is declared so     *)
(* far; a step reads one external declaration.  Inside a step, syntax and  *)
(* constraints are one recursive reading of the tokens, in which every     *)
(* expression has a type, is or is not an lvalue, and is or is not a       *)
(* constant.  The verdict on the whole text is                             *)
(*    "bad"   it breaks a rule of C that requires a diagnostic             *)
(*    "open"  C allows it, but umlcc does not claim to support it, or C or *)
(*            common practice leaves it to the compiler                    *)
(*    "good"  otherwise.                                                   *)
(* A text is "bad" if its first broken rule comes before anything that     *)
(* this module cannot read (field unk); an "open" construct does not       *)
(* excuse a later error.                                                   *)
(*                                                                         *)
(* Structures are numbered as they are declared: <<"s", n>>.  Everything   *)
(* after the first error is skipped: the position jumps to the end.        *)
(***************************************************************************)
EXTENDS CTypes, TLC, TLCExt, Json, IOUtils, FiniteSets, SequencesExt

Progs == TLCEval(ndJsonDeserialize(IOEnv.CS_INPUT))
NP == Len(Progs)

VARIABLES pid, pos, S, st
vars == <<pid, pos, S, st>>

Toks == Progs[pid].t
N == Len(Toks)
Eof == <<"e", "">>
Tok(i) == IF i <= N THEN Toks[i] ELSE Eof
K(i) == IF i <= N /\ Toks[i][1] = "k" THEN Toks[i][2] ELSE ""
IsId(i) == i <= N /\ Toks[i][1] = "i"

Nothing == [x \in {} |-> 0]
S0 == [sc |-> <<Nothing>>, tg |-> <<Nothing>>, st |-> <<>>, err |-> "", op |-> "", unk |-> FALSE, sw |-> <<>>, fn |-> TVoid]

(************************** errors and openness ***************************)
Err(s, m) == IF s.err # "" \/ s.unk THEN s ELSE [s EXCEPT !.err = m]
Opn(s, m) == IF s.op # "" THEN s ELSE [s EXCEPT !.op = m]
Unk(s, m) == IF s.err # "" THEN s ELSE [s EXCEPT !.unk = TRUE, !.op = m]
OpnIf(c, s, m) == IF c THEN Opn(s, m) ELSE s
\* results: a position and a state, and for some readers more fields
At(i, s) == [i |-> i, S |-> s]
Fail(s, m) == [i |-> N + 1, S |-> Err(s, m)]
Stop(s, m) == [i |-> N + 1, S |-> Unk(s, m)]
Need(r, p) == IF K(r.i) = p THEN [r EXCEPT !.i = @ + 1] ELSE [r EXCEPT !.i = N + 1, !.S = Err(@, "expected " \o p)]
Must(c, r, m) == IF c THEN r ELSE [r EXCEPT !.i = N + 1, !.S = Err(@, m)]
Dead(r) == r.S.err # "" \/ r.S.unk

(***************************** declarations in scope **********************)
RECURSIVE FindIn(_, _, _)
FindIn(ss, n, k) == IF k = 0 THEN 0 ELSE IF n \in DOMAIN ss[k] THEN k ELSE FindIn(ss, n, k - 1)
Depth(s) == Len(s.sc)
Known(s, n) == FindIn(s.sc, n, Len(s.sc)) > 0
Lookup(s, n) == s.sc[FindIn(s.sc, n, Len(s.sc))][n]
IsTypedef(s, i) == IsId(i) /\ Known(s, Toks[i][2]) /\ Lookup(s, Toks[i][2]).k = "typ"
Enter(s) == [s EXCEPT !.sc = Append(@, Nothing), !.tg = Append(@, Nothing)]
Leave(s) == [s EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1), !.tg = SubSeq(@, 1, Len(@) - 1)]
Bind(s, n, e) == [s EXCEPT !.sc[Len(s.sc)] = (n :> e) @@ @]
BindTag(s, n, e) == [s EXCEPT !.tg[Len(s.tg)] = (n :> e) @@ @]
Entry(k, t, v, d) == [k |-> k, t |-> t, v |-> v, d |-> d]

(***************************** types **************************************)
RECURSIVE Complete(_, _), Compat(_, _)
Complete(s, t) == CASE t[1] = "v" -> FALSE
                    [] t[1] = "s" -> s.st[t[2]].d
                    [] t[1] = "a" -> Complete(s, t[2])
                    [] t[1] = "f" -> FALSE
                    [] OTHER -> TRUE
Compat(t, u) ==
  IF t[1] # u[1] THEN FALSE
  ELSE CASE t[1] = "p" -> Compat(t[2], u[2])
         [] t[1] = "a" -> Compat(t[2], u[2]) /\ (t[3] = u[3] \/ t[3] < 0 \/ u[3] < 0)
         [] t[1] = "f" -> Compat(t[2], u[2]) /\ Len(t[3]) = Len(u[3]) /\ \A k \in 1..Len(t[3]) : Compat(t[3][k], u[3][k])
         [] OTHER -> t = u
\* a size that is not known (large, or not an integer literal): arrays of it compare as "perhaps"
RECURSIVE Vague(_)
Vague(t) == CASE t[1] = "a" -> t[3] < 0 \/ Vague(t[2])
              [] t[1] = "p" -> Vague(t[2])
              [] t[1] = "f" -> Vague(t[2]) \/ \E k \in 1..Len(t[3]) : Vague(t[3][k])
              [] OTHER -> FALSE
\* structures without a tag: umlcc takes two of them with the same members for the same type
RECURSIVE Anon(_)
Anon(t) == CASE t[1] = "s" -> Len(t) = 3
             [] t[1] \in {"p", "a"} -> Anon(t[2])
             [] t[1] = "f" -> Anon(t[2]) \/ \E k \in 1..Len(t[3]) : Anon(t[3][k])
             [] OTHER -> FALSE
Fuzzy(t, u) == Vague(t) \/ Vague(u) \/ (Anon(t) /\ Anon(u))
Decay(t) == IF t[1] = "a" THEN Ptr(t[2]) ELSE IF t[1] = "f" THEN Ptr(t) ELSE t
PtrTo(s, t) == IsPtr(t) /\ Complete(s, t[2])          \* pointer to a complete object type
IsVoidPtr(t) == IsPtr(t) /\ t[2][1] = "v"
ObjPtr(t) == IsPtr(t) /\ t[2][1] # "f"

(***************************** expressions ********************************)
(* fields: t type, lv lvalue, c "n"/"l"/"i" (no constant / a literal / an  *)
(* integer constant expression of another form), v value if known (a       *)
(* sequence of at most one), z null pointer constant, g "s"/"c"/"n" may be *)
(* the initializer of a global object (in umlcc / in C / not), a constant  *)
(* address, str size of a string literal (0: none)                         *)
Ex(i, s, t) == [i |-> i, S |-> s, t |-> t, lv |-> FALSE, c |-> "n", v |-> <<>>, z |-> FALSE, g |-> "n", a |-> FALSE, str |-> 0]
Bad(r, m) == Ex(N + 1, Err(r.S, m), TInt)
Halt(r, m) == Ex(N + 1, Unk(r.S, m), TInt)
Lit(i, s, t, v) == [Ex(i, s, t) EXCEPT !.c = "l", !.v = v, !.z = v = <<0>>, !.g = "s"]
\* the value of an operand: no longer an lvalue, arrays and functions are pointers
Rv(e) ==
  [e EXCEPT !.t = Decay(@), !.lv = FALSE, !.str = 0,
            !.g = IF e.t[1] \in {"a", "f"} THEN (IF e.a THEN "c" ELSE "n") ELSE IF e.lv THEN "n" ELSE @]
GJoin(x, y) == IF "n" \in {x, y} THEN "n" ELSE "c"
Ice(e) == e.c # "n"
Nul(e) == e.z \/ e.c = "i"     \* is, or may be, a null pointer constant
Arith(i, s, t, x, y) ==      \* an integer result computed from two operands
  [Ex(i, s, t) EXCEPT !.c = IF Ice(x) /\ Ice(y) THEN "i" ELSE "n", !.g = GJoin(x.g, y.g)]
IntOp(r, x, y, m) ==
  IF IsInt(x.t) /\ IsInt(y.t) THEN Arith(r.i, r.S, Common(x.t, y.t), x, y) ELSE Bad(r, m)

\* pointers that may be assigned to one another; a function pointer and void * only in common practice
PtrAssign(l, r) == Compat(l[2], r[2]) \/ (IsVoidPtr(l) /\ ObjPtr(r)) \/ (IsVoidPtr(r) /\ ObjPtr(l))
PtrMixed(l, r) == (IsVoidPtr(l) /\ ~ObjPtr(r)) \/ (IsVoidPtr(r) /\ ~ObjPtr(l))
\* the state after assigning e (already Rv) to an object of type t
AssignTo(e, t, m) ==
  CASE IsInt(t) /\ IsInt(e.t) -> e.S
    [] IsPtr(t) /\ IsPtr(e.t) /\ Nul(e) -> OpnIf(~PtrAssign(t, e.t), e.S, "null pointer constant")
    [] IsPtr(t) /\ IsPtr(e.t) -> IF PtrAssign(t, e.t) THEN OpnIf(Vague(t) \/ Vague(e.t), e.S, "array size")
                                 ELSE IF PtrMixed(t, e.t) THEN Opn(e.S, "function pointer and void pointer")
                                 ELSE IF Fuzzy(t, e.t) THEN Unk(e.S, "perhaps another type")
                                 ELSE Err(e.S, m)
    [] IsPtr(t) /\ Nul(e) -> Opn(e.S, "null pointer constant")
    [] IsStr(t) /\ t = e.t -> Opn(e.S, "structure assignment")
    [] Anon(t) /\ Anon(e.t) -> Unk(e.S, "perhaps another type")
    [] OTHER -> Err(e.S, m)

IsBase(s, i) == K(i) \in {"void", "char", "int", "long", "unsigned", "struct", "enum"} \/ IsTypedef(s, i)

\* binary operators by level, the loosest first
Levels == <<{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}>>
AssignOps == {"=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|="}
OpOf(o) == CASE o = "*=" -> "*" [] o = "/=" -> "/" [] o = "%=" -> "%" [] o = "+=" -> "+" [] o = "-=" -> "-"
             [] o = "<<=" -> "<<" [] o = ">>=" -> ">>" [] o = "&=" -> "&" [] o = "^=" -> "^" [] o = "|=" -> "|"

BinType(r, o, x, y) ==       \* x, y are values; r: position and state after both
  CASE o \in {"||", "&&"} ->
         IF IsScalar(x.t) /\ IsScalar(y.t)
         THEN [Arith(r.i, r.S, TInt, x, y) EXCEPT !.g = IF x.g = "n" THEN "n" ELSE "c"] ELSE Bad(r, "operand of " \o o)
    [] o \in {"|", "^", "&", "*", "/", "%"} -> IntOp(r, x, y, "operand of " \o o)
    [] o \in {"<<", ">>"} ->
         IF IsInt(x.t) /\ IsInt(y.t) THEN Arith(r.i, r.S, Promote(x.t), x, y) ELSE Bad(r, "operand of " \o o)
    [] o = "+" ->
         IF IsInt(x.t) /\ IsInt(y.t) THEN Arith(r.i, r.S, Common(x.t, y.t), x, y)
         ELSE IF PtrTo(r.S, x.t) /\ IsInt(y.t) THEN [Ex(r.i, r.S, x.t) EXCEPT !.g = GJoin(x.g, y.g)]
         ELSE IF PtrTo(r.S, y.t) /\ IsInt(x.t) THEN [Ex(r.i, r.S, y.t) EXCEPT !.g = GJoin(x.g, y.g)]
         ELSE Bad(r, "operand of +")
    [] o = "-" ->
         IF IsInt(x.t) /\ IsInt(y.t) THEN Arith(r.i, r.S, Common(x.t, y.t), x, y)
         ELSE IF PtrTo(r.S, x.t) /\ IsInt(y.t) THEN [Ex(r.i, r.S, x.t) EXCEPT !.g = GJoin(x.g, y.g)]
         ELSE IF PtrTo(r.S, x.t) /\ PtrTo(r.S, y.t) /\ Compat(x.t, y.t)
              THEN [Ex(r.i, OpnIf(Vague(x.t) \/ Vague(y.t), r.S, "array size"), TLong) EXCEPT !.g = GJoin(x.g, y.g)]
         ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ Fuzzy(x.t, y.t) THEN Halt(r, "perhaps another type")
         ELSE Bad(r, "operand of -")
    [] o \in {"<", ">", "<=", ">="} ->
         IF IsInt(x.t) /\ IsInt(y.t) THEN Arith(r.i, r.S, TInt, x, y)
         ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ Compat(x.t, y.t)
              THEN [Ex(r.i, OpnIf(x.t[2][1] = "f" \/ Vague(x.t) \/ Vague(y.t), r.S, "order of function pointers"), TInt) EXCEPT !.g = GJoin(x.g, y.g)]
         ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ (IsVoidPtr(x.t) \/ IsVoidPtr(y.t)) THEN Ex(r.i, Opn(r.S, "order with void pointer"), TInt)
         ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ Fuzzy(x.t, y.t) THEN Halt(r, "perhaps another type")
         ELSE IF (IsPtr(x.t) /\ Nul(y)) \/ (IsPtr(y.t) /\ Nul(x)) THEN Ex(r.i, Opn(r.S, "order with null"), TInt)
         ELSE Bad(r, "operand of " \o o)
    [] o \in {"==", "!="} ->
         IF IsInt(x.t) /\ IsInt(y.t) THEN Arith(r.i, r.S, TInt, x, y)
         ELSE IF (IsPtr(x.t) /\ Nul(y)) \/ (IsPtr(y.t) /\ Nul(x))
              THEN [Ex(r.i, OpnIf(~(IsPtr(x.t) /\ IsPtr(y.t) /\ PtrAssign(x.t, y.t)), r.S, "null pointer constant"), TInt) EXCEPT !.g = GJoin(x.g, y.g)]
         ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ PtrAssign(x.t, y.t)
              THEN [Ex(r.i, OpnIf(Vague(x.t) \/ Vague(y.t) \/ ~Compat(x.t, y.t), r.S, "void pointer or array size"), TInt) EXCEPT !.g = GJoin(x.g, y.g)]
         ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ PtrMixed(x.t, y.t) THEN Ex(r.i, Opn(r.S, "function pointer and void pointer"), TInt)
         ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ Fuzzy(x.t, y.t) THEN Halt(r, "perhaps another type")
         ELSE Bad(r, "operand of " \o o)

CondType(r, q, x, y) ==
  LET g == IF q.g = "n" THEN "n" ELSE "c" IN
  IF ~IsScalar(q.t) THEN Bad(r, "condition of ?:")
  ELSE IF IsInt(x.t) /\ IsInt(y.t)
       THEN [Ex(r.i, r.S, Common(x.t, y.t)) EXCEPT !.c = IF Ice(q) /\ Ice(x) /\ Ice(y) THEN "i" ELSE "n", !.g = g]
  ELSE IF x.t[1] = "v" /\ y.t[1] = "v" THEN Ex(r.i, Opn(r.S, "void operands of ?:"), TVoid)
  ELSE IF IsStr(x.t) /\ x.t = y.t THEN Ex(r.i, Opn(r.S, "structure operands of ?:"), x.t)
  ELSE IF IsPtr(x.t) /\ (Nul(y) /\ ~IsPtr(y.t)) THEN [Ex(r.i, Opn(r.S, "null pointer constant"), x.t) EXCEPT !.g = g]
  ELSE IF IsPtr(y.t) /\ (Nul(x) /\ ~IsPtr(x.t)) THEN [Ex(r.i, Opn(r.S, "null pointer constant"), y.t) EXCEPT !.g = g]
  ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ Compat(x.t, y.t) THEN [Ex(r.i, OpnIf(Vague(x.t) \/ Vague(y.t), r.S, "array size"), x.t) EXCEPT !.g = g]
  ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ (IsVoidPtr(x.t) \/ IsVoidPtr(y.t)) THEN Halt(r, "void pointer in ?:")
  ELSE IF IsPtr(x.t) /\ IsPtr(y.t) /\ Fuzzy(x.t, y.t) THEN Halt(r, "perhaps another type")
  ELSE Bad(r, "operands of ?:")

CastType(r, t, e) ==         \* e is a value
  IF t[1] = "v" THEN Ex(r.i, r.S, TVoid)
  ELSE IF ~IsScalar(t) \/ ~IsScalar(e.t) THEN
         (IF IsStr(t) /\ t = e.t THEN Ex(r.i, Opn(r.S, "cast to structure"), t) ELSE Bad(r, "cast"))
  ELSE LET z == Nul(e) /\ (IsInt(t) \/ IsVoidPtr(t))
       IN  [Ex(r.i, OpnIf(IsPtr(t) # IsPtr(e.t) \/ (IsPtr(t) /\ IsPtr(e.t) /\ ObjPtr(t) # ObjPtr(e.t)), r.S, "cast of pointer"), t)
              EXCEPT !.c = IF Ice(e) /\ IsInt(t) THEN "i" ELSE "n", !.z = z, !.g = e.g,
                     !.v = IF e.v = <<0>> /\ IsInt(t) THEN <<0>> ELSE <<>>]

Modifiable(s, e) == e.lv /\ e.t[1] # "a" /\ Complete(s, e.t)

RECURSIVE PPrimary(_, _), PPostfix(_), PUnary(_, _), PCast(_, _), PBin(_, _, _), PBinRest(_, _), PCond(_, _), PAssign(_, _), PExpr(_, _),
          PArgs(_, _, _), PTypeName(_, _), PSpecs(_, _, _), PDeclr(_, _, _), PSuffix(_, _, _), PParams(_, _, _), PStruct(_, _), PMembers(_, _, _, _),
          PMemList(_, _, _, _), PEnum(_, _), PEnumList(_, _, _)

PPrimary(i, s) ==
  LET k == Tok(i) IN
  CASE k[1] = "n" -> IF k[2] = "huge" THEN Bad(At(i, s), "integer constant too large")
                     ELSE IF k[2] = "wide" THEN Ex(N + 1, Unk(s, "decimal constant of no signed type"), TInt)
                     ELSE Lit(i + 1, s, <<"i", k[2]>>, k[3])
    [] k[1] = "c" -> Lit(i + 1, s, TInt, <<k[2]>>)
    [] k[1] = "s" -> IF Tok(i + 1)[1] = "s" THEN Ex(N + 1, Unk(s, "adjacent strings"), TInt)
                     ELSE [Ex(i + 1, s, <<"a", TChar, k[2]>>) EXCEPT !.lv = TRUE, !.a = TRUE, !.str = k[2], !.g = "n"]
    [] k[1] = "u" -> Ex(N + 1, Unk(s, "other keyword"), TInt)
    [] k[1] = "i" ->
         IF ~Known(s, k[2]) THEN Bad(At(i, s), "undeclared " \o k[2])
         ELSE LET e == Lookup(s, k[2]) IN
          (CASE e.k = "typ" -> Bad(At(i, s), "typedef name as an expression")
             [] e.k = "enu" -> [Lit(i + 1, s, TInt, e.v) EXCEPT !.c = IF e.v = <<>> THEN "i" ELSE "l"]
             [] e.k = "fun" -> [Ex(i + 1, s, e.t) EXCEPT !.a = TRUE]
             [] e.k = "obj" -> [Ex(i + 1, s, e.t) EXCEPT !.lv = TRUE, !.a = e.d])
    [] k = <<"k", "(">> ->
         LET e == PExpr(i + 1, s)
             f == Need(e, ")")
         IN  [f EXCEPT !.S = OpnIf(f.str > 0, @, "string in parentheses"), !.str = 0]
    [] OTHER -> Bad(At(i, s), "expression expected")

\* the arguments from position i for the parameter types ts; ends after the closing parenthesis
PArgs(i, s, ts) ==
  IF K(i) = ")" THEN (IF ts = <<>> THEN At(i + 1, s) ELSE Fail(s, "too few arguments"))
  ELSE IF ts = <<>> THEN
         \* the arguments must still be expressions: then there are too many
         Fail(s, "too many arguments")
  ELSE LET e == PAssign(i, s)
           v == Rv(e)
           s2 == IF Dead(e) THEN e.S ELSE AssignTo(v, ts[1], "argument")
       IN  IF K(e.i) = "," THEN (IF K(e.i + 1) = ")" THEN Fail(s2, "argument expected") ELSE PArgs(e.i + 1, s2, Tail(ts)))
           ELSE IF K(e.i) = ")" THEN PArgs(e.i, s2, Tail(ts))
           ELSE Fail(s2, "expected )")

PPostfix(e) ==
  LET i == e.i  k == K(e.i)  v == Rv(e) IN
  IF Dead(e) THEN e
  ELSE CASE k = "[" ->
         LET x == PExpr(i + 1, e.S)
             w == Rv(x)
             r == Need(At(x.i, x.S), "]")
             p == IF IsPtr(v.t) THEN v ELSE w
             n == IF IsPtr(v.t) THEN w ELSE v
         IN  IF Dead(r) THEN Bad(r, "subscript")
             ELSE IF PtrTo(r.S, p.t) /\ IsInt(n.t)
             THEN PPostfix([Ex(r.i, r.S, p.t[2]) EXCEPT !.lv = TRUE, !.a = p.g \in {"c"} /\ n.g # "n"])
             ELSE Bad(r, "subscript")
    [] k = "(" ->
         IF ~(IsPtr(v.t) /\ IsFun(v.t[2])) THEN Bad(e, "called object")
         ELSE LET f == v.t[2]
                  r == PArgs(i + 1, e.S, f[3])
              IN  PPostfix(Ex(r.i, OpnIf(IsStr(f[2]) \/ \E j \in 1..Len(f[3]) : IsStr(f[3][j]), r.S, "structure by value"), f[2]))
    [] k \in {".", "->"} ->
         LET t == IF k = "." THEN e.t ELSE IF IsPtr(v.t) THEN v.t[2] ELSE TVoid
             n == Tok(i + 1)
         IN  IF ~IsStr(t) THEN Bad(e, "member of no structure")
             ELSE IF n[1] # "i" THEN Bad(e, "member name expected")
             ELSE IF ~e.S.st[t[2]].d THEN Bad(e, "member of an incomplete structure")
             ELSE IF ~HasMember(e.S.st[t[2]].m, n[2]) THEN Bad(e, "no such member " \o n[2])
             ELSE LET ms == e.S.st[t[2]].m
                      u == ms[MemberIndex(ms, n[2])][2]
                  IN  PPostfix([Ex(i + 2, OpnIf(IsTypedef(e.S, i + 1), e.S, "typedef name as member"), u)
                                  EXCEPT !.lv = (k = "->" \/ e.lv), !.a = IF k = "." THEN e.a ELSE v.g = "c"])
    [] k \in {"++", "--"} ->
         IF Modifiable(e.S, e) /\ (IsInt(e.t) \/ PtrTo(e.S, e.t)) THEN PPostfix(Ex(i + 1, e.S, e.t)) ELSE Bad(e, "operand of " \o k)
    [] OTHER -> e

PUnary(i, s) ==
  LET k == K(i) IN
  CASE k \in {"++", "--"} ->
         LET e == PUnary(i + 1, s)
         IN  IF Dead(e) THEN e ELSE IF Modifiable(e.S, e) /\ (IsInt(e.t) \/ PtrTo(e.S, e.t)) THEN Ex(e.i, e.S, e.t) ELSE Bad(e, "operand of " \o k)
    [] k = "&" ->
         LET e == PCast(i + 1, s)
         IN  IF Dead(e) THEN e
             ELSE IF e.lv \/ IsFun(e.t) THEN [Ex(e.i, OpnIf(e.t[1] = "v" \/ e.str > 0, e.S, "address of void or string"), Ptr(e.t)) EXCEPT !.g = IF e.a THEN "c" ELSE "n"]
             ELSE Bad(e, "operand of &")
    [] k = "*" ->
         LET e == PCast(i + 1, s)
             v == Rv(e)
         IN  IF Dead(e) THEN e
             ELSE IF ~IsPtr(v.t) THEN Bad(e, "operand of *")
             ELSE [Ex(e.i, OpnIf(~IsFun(v.t[2]) /\ ~Complete(e.S, v.t[2]), e.S, "indirection of incomplete type"), v.t[2])
                     EXCEPT !.lv = ~IsFun(v.t[2]), !.a = v.g = "c"]
    [] k \in {"+", "-", "~"} ->
         LET e == PCast(i + 1, s)
             v == Rv(e)
         IN  IF Dead(e) THEN e
             ELSE IF IsInt(v.t) THEN [Ex(e.i, e.S, Promote(v.t)) EXCEPT !.c = IF Ice(v) THEN "i" ELSE "n", !.g = v.g, !.z = v.z /\ k # "~"]
             ELSE Bad(e, "operand of " \o k)
    [] k = "!" ->
         LET e == PCast(i + 1, s)
             v == Rv(e)
         IN  IF Dead(e) THEN e
             ELSE IF IsScalar(v.t) THEN [Ex(e.i, e.S, TInt) EXCEPT !.c = IF Ice(v) THEN "i" ELSE "n", !.g = IF v.g = "n" THEN "n" ELSE "c"]
             ELSE Bad(e, "operand of !")
    [] k = "sizeof" ->
         IF K(i + 1) = "(" /\ IsBase(s, i + 2) THEN
           LET r == PTypeName(i + 2, s)
               f == Need(At(r.i, r.S), ")")
           IN  IF Dead(f) THEN Bad(f, "sizeof")
               ELSE IF K(f.i) = "{" THEN Halt(f, "compound literal")
               ELSE IF Complete(f.S, r.t) THEN [Ex(f.i, f.S, TULong) EXCEPT !.c = "i", !.g = "s"] ELSE Bad(f, "sizeof of incomplete or function type")
         ELSE LET e == PUnary(i + 1, s)
              IN  IF Dead(e) THEN e
                  ELSE IF Complete(e.S, e.t) THEN [Ex(e.i, e.S, TULong) EXCEPT !.c = "i", !.g = "s"] ELSE Bad(e, "sizeof of incomplete or function type")
    [] OTHER -> PPostfix(PPrimary(i, s))

PCast(i, s) ==
  IF K(i) = "(" /\ IsBase(s, i + 1) THEN
    LET r == PTypeName(i + 1, s)
        f == Need(At(r.i, r.S), ")")
    IN  IF Dead(f) THEN Bad(f, "cast")
        ELSE IF K(f.i) = "{" THEN Halt(f, "compound literal")
        ELSE LET e == PCast(f.i, f.S) IN IF Dead(e) THEN e ELSE CastType(At(e.i, e.S), r.t, Rv(e))
  ELSE PUnary(i, s)

PBinRest(x, l) ==
  IF Dead(x) \/ K(x.i) \notin Levels[l] THEN x
  ELSE LET y == IF l = Len(Levels) THEN PCast(x.i + 1, x.S) ELSE PBin(x.i + 1, x.S, l + 1)
       IN  IF Dead(y) THEN y ELSE PBinRest(BinType(At(y.i, y.S), K(x.i), Rv(x), Rv(y)), l)
PBin(i, s, l) == PBinRest(IF l = Len(Levels) THEN PCast(i, s) ELSE PBin(i, s, l + 1), l)

PCond(i, s) ==
  LET q == PBin(i, s, 1) IN
  IF Dead(q) \/ K(q.i) # "?" THEN q
  ELSE LET x == PExpr(q.i + 1, q.S)
           c == Need(At(x.i, x.S), ":")
           y == IF Dead(c) THEN Bad(c, "") ELSE PCond(c.i, c.S)
       IN  IF Dead(y) THEN y ELSE CondType(At(y.i, y.S), Rv(q), Rv(x), Rv(y))

\* C's grammar wants a unary expression on the left; anything else is no lvalue
PAssign(i, s) ==
  LET l == PCond(i, s)  o == K(l.i) IN
  IF Dead(l) \/ o \notin AssignOps THEN l
  ELSE LET e == PAssign(l.i + 1, l.S)
           v == Rv(e)
       IN  IF Dead(e) THEN e
           ELSE IF ~Modifiable(e.S, l) THEN Bad(e, "assignment to no modifiable lvalue")
           ELSE IF o = "=" THEN LET s2 == AssignTo(v, l.t, "assignment") IN (IF s2.err # "" THEN Bad(At(e.i, s2), "") ELSE Ex(e.i, s2, l.t))
           ELSE LET b == BinType(At(e.i, e.S), OpOf(o), Rv(l), v)
                IN  IF Dead(b) THEN b
                    ELSE IF (IsInt(l.t) /\ IsInt(b.t)) \/ (IsPtr(l.t) /\ IsPtr(b.t)) THEN Ex(b.i, b.S, l.t)
                    ELSE Bad(b, "compound assignment")

PExpr(i, s) ==
  LET e == PAssign(i, s) IN
  IF Dead(e) \/ K(e.i) # "," THEN e
  ELSE LET f == PExpr(e.i + 1, Opn(e.S, "comma operator"))
       IN  IF Dead(f) THEN f ELSE [Rv(f) EXCEPT !.c = "n", !.z = FALSE, !.g = "n"]

(****************************** declarators *******************************)
(* A declarator is a name and the derivations read from the name outwards: *)
(* <<"p">>, <<"a", n>> (n < 0: not known), <<"f", types, parameters>>      *)
RECURSIVE Derive(_, _, _)
\* the type, checking each step; result [S, t]
Derive(s, base, ds) ==
  IF ds = <<>> THEN [S |-> s, t |-> base]
  ELSE LET d == ds[Len(ds)]
           rest == SubSeq(ds, 1, Len(ds) - 1)
       IN  CASE d[1] = "p" -> Derive(s, Ptr(base), rest)
             [] d[1] = "a" -> IF IsFun(base) THEN [S |-> Err(s, "array of functions"), t |-> TInt]
                              ELSE IF ~Complete(s, base) THEN [S |-> Err(s, "array of incomplete type"), t |-> TInt]
                              ELSE Derive(s, <<"a", base, d[2]>>, rest)
             [] d[1] = "f" -> IF IsFun(base) THEN [S |-> Err(s, "function returning a function"), t |-> TInt]
                              ELSE IF IsArr(base) THEN [S |-> Err(s, "function returning an array"), t |-> TInt]
                              ELSE Derive(OpnIf(IsStr(base), s, "structure by value"), <<"f", base, d[2]>>, rest)

\* mode "n": a name is required, "a": none may appear, "e": either
DR(i, s, n, ds) == [i |-> i, S |-> s, n |-> n, ds |-> ds]
PDeclr(i, s, mode) ==
  IF K(i) = "*" THEN LET r == PDeclr(i + 1, s, mode) IN [r EXCEPT !.ds = Append(@, <<"p">>)]
  ELSE IF IsId(i) /\ mode # "a" THEN
       PSuffix(DR(i + 1, OpnIf(IsTypedef(s, i), s, "typedef name redeclared"), Toks[i][2], <<>>), mode, TRUE)
  ELSE IF Tok(i)[1] = "u" THEN DR(N + 1, Unk(s, "other keyword"), "", <<>>)
  \* int f(T (T)): C reads a function that takes a T
  ELSE IF mode = "e" /\ K(i) = "(" /\ IsTypedef(s, i + 1) THEN DR(N + 1, Unk(s, "typedef name in parentheses"), "", <<>>)
  ELSE IF K(i) = "(" /\ (mode = "n" \/ ~(K(i + 1) = ")" \/ IsBase(s, i + 1) \/ K(i + 1) = "typedef")) THEN
       LET r == Need(PDeclr(i + 1, s, mode), ")") IN IF Dead(r) THEN r ELSE PSuffix(r, mode, TRUE)
  ELSE IF mode = "n" THEN DR(N + 1, Err(s, "declarator expected"), "", <<>>)
  ELSE PSuffix(DR(i, s, "", <<>>), mode, TRUE)
PSuffix(r, mode, x) ==
  CASE K(r.i) = "[" ->
         IF K(r.i + 1) = "]" THEN DR(N + 1, Unk(r.S, "array without size"), r.n, r.ds)
         ELSE LET e == PAssign(r.i + 1, r.S)
                  v == Rv(e)
                  f == Need(At(e.i, e.S), "]")
              IN  IF Dead(f) THEN DR(N + 1, Err(f.S, "array size"), r.n, r.ds)
                  ELSE IF ~IsInt(v.t) THEN DR(N + 1, Err(f.S, "array size is no integer"), r.n, r.ds)
                  ELSE IF v.c = "n" THEN
                         (IF Depth(f.S) = 1 /\ mode = "n" THEN DR(N + 1, Err(f.S, "array size is no constant"), r.n, r.ds)
                          ELSE DR(N + 1, Unk(f.S, "variable array size"), r.n, r.ds))
                  ELSE IF v.v # <<>> /\ v.v[1] <= 0 THEN DR(N + 1, Err(f.S, "array size is not positive"), r.n, r.ds)
                  ELSE PSuffix(DR(f.i, OpnIf(v.c # "l" \/ v.v = <<>> \/ ~SignedT(v.t), f.S, "array size"), r.n,
                                  Append(r.ds, <<"a", IF v.v = <<>> THEN -1 ELSE v.v[1]>>)), mode, TRUE)
    [] K(r.i) = "(" ->
         IF K(r.i + 1) = ")" THEN DR(N + 1, Unk(r.S, "function without prototype"), r.n, r.ds)
         ELSE IF IsId(r.i + 1) /\ ~IsTypedef(r.S, r.i + 1) THEN DR(N + 1, Unk(r.S, "identifier list"), r.n, r.ds)
         ELSE LET q == PParams(r.i + 1, Enter(r.S), <<>>)
              IN  IF Dead(q) THEN DR(N + 1, q.S, r.n, r.ds)
                  ELSE PSuffix(DR(q.i, [Leave(q.S) EXCEPT !.op = q.S.op], r.n, 
                             Append(r.ds, <<"f", [k \in 1..Len(q.ps) |-> q.ps[k][2]], q.ps, q.S.sc[Len(q.S.sc)], q.S.tg[Len(q.S.tg)]>>)), mode, TRUE)
    [] OTHER -> r

\* parameters <<name, type>>; ends after the closing parenthesis
PParams(i, s, ps) ==
  IF ps = <<>> /\ K(i) = "void" /\ K(i + 1) = ")" THEN [i |-> i + 2, S |-> s, ps |-> <<>>]
  ELSE LET b == PSpecs(i, s, FALSE)
           d == IF Dead(b) THEN DR(N + 1, b.S, "", <<>>) ELSE PDeclr(b.i, b.S, "e")
           y == IF Dead(d) THEN [S |-> d.S, t |-> TInt] ELSE Derive(d.S, b.t, d.ds)
           t == Decay(y.t)
           s1 == IF Dead(y) THEN y.S
                 ELSE IF b.td THEN Err(y.S, "typedef of a parameter")
                 ELSE IF t[1] = "v" THEN (IF ps = <<>> /\ d.n = "" /\ d.ds = <<>> /\ K(d.i) = ")" THEN Unk(y.S, "typedef of void as parameter list") ELSE Err(y.S, "void parameter"))
                 ELSE IF d.n # "" /\ d.n \in DOMAIN y.S.sc[Len(y.S.sc)] THEN Err(y.S, "parameter " \o d.n \o " twice")
                 ELSE LET s2 == OpnIf(IsStr(t), y.S, "structure by value")
                      IN  IF d.n = "" THEN s2 ELSE Bind(s2, d.n, Entry("obj", t, <<>>, FALSE))
           r == [i |-> d.i, S |-> s1, ps |-> Append(ps, <<d.n, t>>)]
       IN  IF Dead(r) THEN [r EXCEPT !.i = N + 1]
           ELSE IF K(r.i) = "," THEN (IF K(r.i + 1) = "." THEN [r EXCEPT !.S = Unk(@, "..."), !.i = N + 1] ELSE PParams(r.i + 1, r.S, r.ps))
           ELSE Need(r, ")")

PTypeName(i, s) ==
  LET b == PSpecs(i, s, FALSE)
      d == IF Dead(b) THEN DR(N + 1, b.S, "", <<>>) ELSE PDeclr(b.i, b.S, "a")
      y == IF Dead(d) THEN [S |-> d.S, t |-> TInt] ELSE Derive(d.S, b.t, d.ds)
  IN  [i |-> IF Dead(y) THEN N + 1 ELSE d.i, S |-> IF Dead(y) THEN y.S ELSE IF b.td THEN Err(y.S, "typedef in a type name") ELSE y.S, t |-> y.t]

(****************************** specifiers ********************************)
\* acc: the specifiers so far: words (a sequence), td number of typedefs, t the type of a structure, enumeration or typedef name
SpecType(ws) ==
  LET n(w) == Cardinality({k \in 1..Len(ws) : ws[k] = w})
      l == n("long")  u == n("unsigned")  c == n("char")  g == n("int")  v == n("void")
  IN  CASE v = 1 /\ Len(ws) = 1 -> TVoid
        [] c = 1 /\ Len(ws) = 1 -> TChar
        [] v = 0 /\ c = 0 /\ g <= 1 /\ u <= 1 /\ l <= 2 /\ Len(ws) > 0 ->
             <<"i", CASE l = 0 -> (IF u = 1 THEN "uint" ELSE "int")
                      [] l = 1 -> (IF u = 1 THEN "ulong" ELSE "long")
                      [] OTHER -> (IF u = 1 THEN "ullong" ELSE "llong")>>
        [] OTHER -> <<"none">>
SpecDone(i, s, a) ==
  LET r == [i |-> i, S |-> s, t |-> TInt, td |-> a.td > 0, tag |-> a.tag] IN
  IF a.td > 1 THEN [r EXCEPT !.i = N + 1, !.S = Err(@, "typedef twice")]
  ELSE IF a.k > 1 \/ (a.k = 1 /\ Len(a.ws) > 0) THEN [r EXCEPT !.i = N + 1, !.S = Err(@, "specifiers")]
  ELSE IF a.k = 1 THEN [r EXCEPT !.t = a.t]
  ELSE IF Len(a.ws) = 2 /\ {a.ws[1], a.ws[2]} = {"unsigned", "char"} THEN [r EXCEPT !.i = N + 1, !.S = Unk(@, "unsigned char")]
  ELSE IF a.ws = <<>> THEN [r EXCEPT !.i = N + 1, !.S = Err(@, "specifier expected")]
  ELSE LET t == SpecType(a.ws) IN IF t[1] = "none" THEN [r EXCEPT !.i = N + 1, !.S = Err(@, "specifiers")] ELSE [r EXCEPT !.t = t]
RECURSIVE SpecLoop(_, _, _)
SpecLoop(i, s, a) ==
  LET k == K(i) IN
  CASE k = "typedef" -> SpecLoop(i + 1, s, [a EXCEPT !.td = @ + 1])
    [] k \in {"void", "char", "int", "long", "unsigned"} -> SpecLoop(i + 1, s, [a EXCEPT !.ws = Append(@, k)])
    [] k = "struct" -> LET r == PStruct(i + 1, s) IN IF Dead(r) THEN SpecDone(N + 1, r.S, a) ELSE SpecLoop(r.i, r.S, [a EXCEPT !.k = @ + 1, !.t = r.t, !.tag = TRUE])
    [] k = "enum" -> LET r == PEnum(i + 1, s) IN IF Dead(r) THEN SpecDone(N + 1, r.S, a) ELSE SpecLoop(r.i, r.S, [a EXCEPT !.k = @ + 1, !.t = TInt, !.tag = TRUE])
    [] Tok(i)[1] = "u" -> SpecDone(N + 1, Unk(s, "other keyword"), a)
    [] IsTypedef(s, i) /\ a.k = 0 /\ a.ws = <<>> -> SpecLoop(i + 1, s, [a EXCEPT !.k = 1, !.t = Lookup(s, Toks[i][2]).t])
    [] OTHER -> SpecDone(i, s, a)
PSpecs(i, s, x) == SpecLoop(i, s, [ws |-> <<>>, td |-> 0, k |-> 0, t |-> TInt, tag |-> FALSE])

TR(i, s, t) == [i |-> i, S |-> s, t |-> t]
PStruct(i, s) ==
  LET named == IsId(i)
      n == IF named THEN Toks[i][2] ELSE ""
      j == IF named THEN i + 1 ELSE i
      s1 == OpnIf(named /\ IsTypedef(s, i), s, "typedef name as tag")
      here == named /\ n \in DOMAIN s.tg[Len(s.tg)]
      at == IF named THEN FindIn(s.tg, n, Len(s.tg)) ELSE 0
      fresh == Len(s.st) + 1
      new == [s1 EXCEPT !.st = Append(@, [d |-> FALSE, m |-> <<>>])]
      alone == K(j) = ";"
  IN  IF Tok(i)[1] = "u" THEN TR(N + 1, Unk(s, "other keyword"), TInt)
      ELSE IF K(j) = "{" THEN
        IF here /\ s.tg[Len(s.tg)][n][1] # "s" THEN TR(N + 1, Err(s, "tag of another kind"), TInt)
        ELSE IF here /\ s.st[s.tg[Len(s.tg)][n][2]].d THEN TR(N + 1, Err(s, "structure defined twice"), TInt)
        ELSE LET t == IF here THEN s.tg[Len(s.tg)][n] ELSE IF named THEN <<"s", fresh>> ELSE <<"s", fresh, "anonymous">>
                 s2 == IF here THEN s1 ELSE IF named THEN BindTag(new, n, t) ELSE new
                 r == PMembers(j + 1, s2, t, <<>>)
             IN  IF Dead(r) THEN TR(N + 1, r.S, TInt)
                 ELSE TR(r.i, [r.S EXCEPT !.st[t[2]] = [d |-> TRUE, m |-> r.ms]], t)
      ELSE IF ~named THEN TR(N + 1, Err(s, "structure tag expected"), TInt)
      \* "struct S ;" declares the tag anew
      ELSE IF alone /\ i > 2 /\ K(i - 2) = "typedef" THEN TR(N + 1, Unk(s, "typedef of nothing"), TInt)
      ELSE IF at = Len(s.tg) \/ (at > 0 /\ ~alone) THEN
        (IF s.tg[at][n][1] # "s" THEN TR(N + 1, Err(s, "tag of another kind"), TInt) ELSE TR(j, s1, s.tg[at][n]))
      ELSE TR(j, BindTag(new, n, <<"s", fresh>>), <<"s", fresh>>)

PMembers(i, s, t, ms) ==
  IF K(i) = "}" THEN (IF ms = <<>> THEN [i |-> N + 1, S |-> Unk(s, "empty structure"), ms |-> ms] ELSE [i |-> i + 1, S |-> s, ms |-> ms])
  ELSE LET b == PSpecs(i, s, FALSE) IN
    IF Dead(b) THEN [i |-> N + 1, S |-> b.S, ms |-> ms]
    ELSE IF b.td THEN [i |-> N + 1, S |-> Err(b.S, "typedef of a member"), ms |-> ms]
    ELSE IF K(b.i) = ";" /\ IsStr(b.t) THEN [i |-> N + 1, S |-> Unk(b.S, "anonymous structure"), ms |-> ms]
    ELSE LET r == PMemList(b.i, b.S, b.t, ms) IN IF Dead(r) THEN r ELSE PMembers(r.i, r.S, t, r.ms)
PMemList(i, s, b, ms) ==
  IF K(i) = ":" THEN [i |-> N + 1, S |-> Unk(s, "bit field"), ms |-> ms]
  ELSE LET d == PDeclr(i, s, "n")
           y == IF Dead(d) THEN [S |-> d.S, t |-> TInt] ELSE Derive(d.S, b, d.ds)
           s1 == IF Dead(y) THEN y.S
                 ELSE IF K(d.i) = ":" THEN Unk(y.S, "bit field")
                 ELSE IF IsFun(y.t) THEN Err(y.S, "member of function type")
                 ELSE IF ~Complete(y.S, y.t) THEN Err(y.S, "member of incomplete type")
                 ELSE IF HasMember(ms, d.n) THEN Err(y.S, "member " \o d.n \o " twice")
                 ELSE y.S
           r == [i |-> d.i, S |-> s1, ms |-> Append(ms, <<d.n, y.t>>)]
       IN  IF Dead(r) THEN [r EXCEPT !.i = N + 1]
           ELSE IF K(r.i) = "," THEN PMemList(r.i + 1, r.S, b, r.ms)
           ELSE Need(r, ";")

PEnum(i, s) ==
  LET named == IsId(i)
      n == IF named THEN Toks[i][2] ELSE ""
      j == IF named THEN i + 1 ELSE i
      here == named /\ n \in DOMAIN s.tg[Len(s.tg)]
      at == IF named THEN FindIn(s.tg, n, Len(s.tg)) ELSE 0
      s1 == OpnIf(named /\ IsTypedef(s, i), s, "typedef name as tag")
  IN  IF Tok(i)[1] = "u" THEN TR(N + 1, Unk(s, "other keyword"), TInt)
      ELSE IF K(j) = "{" THEN
        IF here THEN TR(N + 1, Err(s, "tag declared twice"), TInt)
        ELSE LET r == PEnumList(j + 1, s1, <<0>>) IN IF Dead(r) THEN TR(N + 1, r.S, TInt)
             ELSE TR(r.i, IF named THEN BindTag(r.S, n, <<"enum">>) ELSE r.S, TInt)
      ELSE IF ~named THEN TR(N + 1, Err(s, "enumeration tag expected"), TInt)
      ELSE IF at = 0 THEN TR(N + 1, Unk(s, "enumeration not declared"), TInt)
      ELSE IF s.tg[at][n][1] # "enum" THEN TR(N + 1, Err(s, "tag of another kind"), TInt)
      ELSE IF K(j) = ";" /\ at < Len(s.tg) THEN TR(N + 1, Unk(s, "tag redeclared"), TInt)
      ELSE TR(j, s1, TInt)
MaxInt == 2147483647
PEnumList(i, s, next) ==
  IF ~IsId(i) THEN (IF Tok(i)[1] = "u" THEN Stop(s, "other keyword") ELSE Fail(s, "enumeration constant expected"))
  ELSE LET n == Toks[i][2]
           dup == n \in DOMAIN s.sc[Len(s.sc)]
           e == IF K(i + 1) = "=" THEN Rv(PCond(i + 2, s)) ELSE Lit(i + 1, s, TInt, next)
           s1 == OpnIf(IsTypedef(s, i), e.S, "typedef name redeclared")
           s2 == IF Dead(e) THEN e.S
                 ELSE IF dup THEN Err(s1, "declared twice: " \o n)
                 ELSE IF ~IsInt(e.t) \/ e.c = "n" THEN Err(s1, "enumeration value is no constant")
                 ELSE IF Len(e.v) = 2 \/ (e.c = "l" /\ e.v = <<>> /\ K(i + 1) = "=") THEN Err(s1, "enumeration value is no int")
                 ELSE Bind(OpnIf(e.c # "l" \/ ~SignedT(e.t) \/ e.v = <<>>, s1, "enumeration value"), n, Entry("enu", TInt, e.v, TRUE))
           nx == IF e.v = <<>> THEN <<>> ELSE IF e.v = <<MaxInt>> THEN <<0, 0>> ELSE <<e.v[1] + 1>>
       IN  IF Dead(At(0, s2)) THEN At(N + 1, s2)
           ELSE IF K(e.i) = "," THEN (IF K(e.i + 1) = "}" THEN At(e.i + 2, s2) ELSE PEnumList(e.i + 1, s2, nx))
           ELSE Need(At(e.i, s2), "}")

(****************************** initializers ******************************)
RECURSIVE PInit(_, _, _, _), PFill(_, _, _, _), PFillFrom(_, _, _, _, _)
IsCharArr(t) == IsArr(t) /\ t[2] = TChar
SubCount(s, t) == IF IsArr(t) THEN t[3] ELSE Len(s.st[t[2]].m)
SubType(s, t, k) == IF IsArr(t) THEN t[2] ELSE s.st[t[2]].m[k][2]
\* a string for an array of characters: the terminator may be left out
StrInit(i, s, t) ==
  IF Tok(i + 1)[1] = "s" THEN Stop(s, "adjacent strings")
  ELSE IF t[3] < 0 THEN Stop(s, "array size")
  ELSE IF Toks[i][2] - 1 > t[3] THEN Fail(s, "string too long") ELSE At(i + 1, s)
\* a value for the scalar or structure t
ValInit(i, s, t, glob) ==
  LET e == PAssign(i, s)
      v == Rv(e)
      s1 == IF IsArr(t) THEN Err(e.S, "initializer of an array") ELSE AssignTo(v, t, "initializer")
      s2 == IF glob /\ v.g = "n" THEN Err(s1, "initializer is no constant") ELSE OpnIf(glob /\ v.g = "c", s1, "constant expression")
  IN  IF Dead(e) THEN At(N + 1, e.S) ELSE IF s2.err # "" THEN At(N + 1, s2) ELSE At(e.i, s2)
CloseBrace(r) ==
  IF Dead(r) THEN r
  ELSE IF K(r.i) = "," THEN (IF K(r.i + 1) = "}" THEN At(r.i + 2, r.S) ELSE Fail(r.S, "too many initializers"))
  ELSE Need(r, "}")
PInit(i, s, t, glob) ==
  IF K(i) = "{" THEN
    IF K(i + 1) = "}" THEN Stop(s, "empty braces")
    ELSE IF K(i + 1) \in {".", "["} THEN Stop(s, "designator")
    ELSE IF IsCharArr(t) /\ Tok(i + 1)[1] = "s" /\ K(i + 2) \in {"}", ","} THEN CloseBrace(StrInit(i + 1, s, t))
    ELSE IF IsScalar(t) THEN (IF K(i + 1) = "{" THEN Stop(s, "braces around a scalar") ELSE CloseBrace(ValInit(i + 1, s, t, glob)))
    ELSE CloseBrace(PFill(i + 1, s, t, glob))
  ELSE IF IsCharArr(t) /\ Tok(i)[1] = "s" /\ K(i + 1) \in {";", ",", "}"} THEN StrInit(i, s, t)
  ELSE ValInit(i, s, t, glob)
\* initializers of a brace list, or of a part of one, into the elements or members of t
PFill(i, s, t, glob) == IF SubCount(s, t) < 0 THEN Stop(s, "array size") ELSE PFillFrom(i, s, t, glob, 1)
PFillFrom(i, s, t, glob, k) ==
  LET u == SubType(s, t, k)
      e == PAssign(i, s)
      r == IF K(i) \in {".", "["} THEN Stop(s, "designator")
           ELSE IF K(i) = "{" \/ IsScalar(u) THEN PInit(i, s, u, glob)
           ELSE IF IsCharArr(u) /\ Tok(i)[1] = "s" /\ K(i + 1) \in {",", "}"} THEN StrInit(i, s, u)
           ELSE IF ~Dead(e) /\ IsStr(e.t) THEN ValInit(i, s, u, glob)
           ELSE PFill(i, s, u, glob)
  IN  IF Dead(r) \/ K(r.i) # "," \/ K(r.i + 1) = "}" \/ k = SubCount(s, t) THEN r
      ELSE PFillFrom(r.i + 1, r.S, t, glob, k + 1)

(****************************** declarations ******************************)
\* declare name n with type t; kind "typ" or by type; def: with an initializer or a body
Declare(s, n, t, typ, def) ==
  LET k == IF typ THEN "typ" ELSE IF IsFun(t) THEN "fun" ELSE "obj"
      top == s.sc[Len(s.sc)]
      glob == Depth(s) = 1
      old == top[n]
      e == Entry(k, t, <<>>, IF k = "obj" THEN glob ELSE def)
  IN  IF n \notin DOMAIN top THEN Bind(s, n, e)
      ELSE IF old.k # k THEN Err(s, "declared twice: " \o n)
      ELSE IF k = "obj" /\ ~glob THEN Err(s, "declared twice: " \o n)
      ELSE IF ~Compat(old.t, t) THEN (IF Fuzzy(old.t, t) THEN Unk(s, "perhaps another type") ELSE Err(s, "declared with another type: " \o n))
      ELSE IF k = "fun" /\ old.d /\ def THEN Err(s, "defined twice: " \o n)
      ELSE Bind(Opn(s, "declared again"), n, [e EXCEPT !.d = @ \/ old.d])
RECURSIVE PDeclList(_, _, _, _, _)
\* the declarators of a declaration with specifiers b; where: "file", "block", "for"
PDeclList(i, s, b, where, r0) ==
  LET d == IF r0.i > 0 THEN r0 ELSE PDeclr(i, s, "n")
      y == IF Dead(d) THEN [S |-> d.S, t |-> TInt] ELSE Derive(d.S, b.t, d.ds)
      t == y.t
      init == K(d.i) = "="
      glob == Depth(s) = 1
      \* a declaration is visible in its own initializer
      s1 == IF Dead(y) THEN y.S
            ELSE IF b.td THEN (IF init THEN Err(y.S, "typedef with initializer") ELSE Declare(y.S, d.n, t, TRUE, FALSE))
            ELSE IF IsFun(t) THEN (IF init THEN Err(y.S, "function with initializer") ELSE Declare(y.S, d.n, t, FALSE, FALSE))
            ELSE IF ~Complete(y.S, t) THEN (IF glob /\ IsStr(t) /\ ~init THEN Unk(y.S, "tentative definition") ELSE Err(y.S, "incomplete type of " \o d.n))
            ELSE Declare(y.S, d.n, t, FALSE, init)
      s2 == IF where = "for" /\ (b.td \/ IsFun(t)) THEN Err(s1, "no object declared in for") ELSE s1
      r == IF Dead(At(0, s2)) THEN At(N + 1, s2) ELSE IF init THEN PInit(d.i + 1, s2, t, glob) ELSE At(d.i, s2)
  IN  IF Dead(r) THEN At(N + 1, r.S)
      ELSE IF K(r.i) = "," THEN PDeclList(r.i + 1, r.S, b, where, At(0, r.S))
      ELSE Need(r, ";")
PDecl(i, s, where) ==
  LET b == PSpecs(i, s, FALSE) IN
  IF Dead(b) THEN At(N + 1, b.S)
  ELSE IF K(b.i) = ";" THEN
    (IF where = "for" THEN Stop(b.S, "for without declarator")
     ELSE IF b.tag /\ ~b.td THEN At(b.i + 1, b.S) ELSE At(b.i + 1, Opn(b.S, "declaration of nothing")))
  \* (a constraint that compilers do not agree upon)
  ELSE PDeclList(b.i, OpnIf(where = "for" /\ (b.S.tg # s.tg \/ b.S.sc # s.sc), b.S, "tag declared in for"), b, where, At(0, b.S))

(****************************** statements ********************************)
RECURSIVE PStmt(_, _, _), PItems(_, _, _)
Paren(i, s) ==      \* ( expression )
  LET r == Need(At(i, s), "(")
      e == IF Dead(r) THEN Bad(r, "") ELSE PExpr(r.i, r.S)
  IN  Need(Rv(e), ")")
Scoped(r) == [r EXCEPT !.S = Leave(@)]
\* L: [lp in a loop, sw in a switch]
PStmt(i, s, L) ==
  LET k == K(i) IN
  CASE k = "{" -> Scoped(PItems(i + 1, Enter(s), L))
    [] k = ";" -> At(i + 1, s)
    [] k = "if" ->
         LET e == Paren(i + 1, Enter(s))
             a == IF Dead(e) THEN At(N + 1, e.S) ELSE IF ~IsScalar(e.t) THEN Fail(e.S, "condition of if") ELSE Scoped(PStmt(e.i, Enter(e.S), L))
         IN  Scoped(IF ~Dead(a) /\ K(a.i) = "else" THEN Scoped(PStmt(a.i + 1, Enter(a.S), L)) ELSE a)
    [] k = "while" ->
         LET e == Paren(i + 1, Enter(s))
         IN  IF Dead(e) THEN At(N + 1, e.S) ELSE IF ~IsScalar(e.t) THEN Fail(e.S, "condition of while")
             ELSE Scoped(Scoped(PStmt(e.i, Enter(e.S), [L EXCEPT !.lp = TRUE])))
    [] k = "for" ->
         LET r == Need(At(i + 1, Enter(s)), "(")
             a == IF Dead(r) THEN r
                  ELSE IF K(r.i) = ";" THEN At(r.i + 1, r.S)
                  ELSE IF IsBase(r.S, r.i) \/ K(r.i) = "typedef" THEN PDecl(r.i, r.S, "for")
                  ELSE LET e == PExpr(r.i, r.S) IN Need(At(e.i, e.S), ";")
             b == IF Dead(a) THEN a
                  ELSE IF K(a.i) = ";" THEN At(a.i + 1, a.S)
                  ELSE LET e == Rv(PExpr(a.i, a.S)) IN IF Dead(e) THEN At(N + 1, e.S) ELSE IF ~IsScalar(e.t) THEN Fail(e.S, "condition of for") ELSE Need(At(e.i, e.S), ";")
             c == IF Dead(b) THEN b
                  ELSE IF K(b.i) = ")" THEN At(b.i + 1, b.S)
                  ELSE LET e == PExpr(b.i, b.S) IN Need(At(e.i, e.S), ")")
         IN  IF Dead(c) THEN Scoped(c) ELSE Scoped(Scoped(PStmt(c.i, Enter(c.S), [L EXCEPT !.lp = TRUE])))
    [] k = "switch" ->
         LET e == Paren(i + 1, Enter(s))
         IN  IF Dead(e) THEN At(N + 1, e.S) ELSE IF ~IsInt(e.t) THEN Fail(e.S, "condition of switch")
             ELSE LET r == PStmt(e.i, Enter([e.S EXCEPT !.sw = Append(@, [v |-> {}, d |-> FALSE])]), [L EXCEPT !.sw = TRUE])
                  IN  [r EXCEPT !.S = [Leave(Leave(@)) EXCEPT !.sw = SubSeq(@, 1, Len(@) - 1)]]
    [] k = "case" ->
         LET e == Rv(PCond(i + 1, s))
             f == Need(At(e.i, e.S), ":")
             t == Len(s.sw)
         IN  IF Dead(f) THEN f
             ELSE IF ~L.sw THEN Fail(f.S, "case outside switch")
             ELSE IF ~IsInt(e.t) \/ e.c = "n" THEN Fail(f.S, "case label is no integer constant")
             ELSE IF e.v # <<>> /\ e.v[1] \in f.S.sw[t].v THEN Fail(f.S, "case label twice")
             ELSE PStmt(f.i, OpnIf(e.c # "l" \/ e.v = <<>> \/ ~SignedT(e.t),
                                   IF e.v = <<>> THEN f.S ELSE [f.S EXCEPT !.sw[t].v = @ \cup {e.v[1]}], "case label"), L)
    [] k = "default" ->
         LET f == Need(At(i + 1, s), ":")
             t == Len(s.sw)
         IN  IF Dead(f) THEN f
             ELSE IF ~L.sw THEN Fail(f.S, "default outside switch")
             ELSE IF f.S.sw[t].d THEN Fail(f.S, "default twice")
             ELSE PStmt(f.i, [f.S EXCEPT !.sw[t].d = TRUE], L)
    [] k = "break" -> IF L.lp \/ L.sw THEN Need(At(i + 1, s), ";") ELSE Fail(s, "break outside loop and switch")
    [] k = "continue" -> IF L.lp THEN Need(At(i + 1, s), ";") ELSE Fail(s, "continue outside loop")
    [] k = "return" ->
         IF K(i + 1) = ";" THEN (IF s.fn[1] = "v" THEN At(i + 2, s) ELSE Fail(s, "return without value"))
         ELSE LET e == Rv(PExpr(i + 1, s))
                  f == Need(At(e.i, e.S), ";")
              IN  IF Dead(f) THEN f
                  ELSE IF s.fn[1] = "v" THEN Fail(f.S, "return with value")
                  ELSE LET s2 == AssignTo([e EXCEPT !.S = f.S], s.fn, "returned value") IN IF s2.err # "" THEN At(N + 1, s2) ELSE At(f.i, s2)
    [] Tok(i)[1] = "u" -> Stop(s, "other keyword")
    [] IsId(i) /\ K(i + 1) = ":" -> Stop(s, "label")
    [] OTHER -> LET e == PExpr(i, s) IN Need(At(e.i, e.S), ";")
PItems(i, s, L) ==
  IF K(i) = "}" THEN At(i + 1, s)
  ELSE IF i > N THEN Fail(s, "expected }")
  ELSE LET r == IF (IsBase(s, i) /\ ~(IsId(i) /\ K(i + 1) = ":")) \/ K(i) = "typedef" THEN PDecl(i, s, "block") ELSE PStmt(i, s, L)
       IN  IF Dead(r) THEN At(N + 1, r.S) ELSE PItems(r.i, r.S, L)

(*************************** external declarations ************************)
\* the scope of the parameters of d, which is that of the body, with the tags and enumerators declared there
Reenter(s, d) == [s EXCEPT !.sc = Append(@, d[4]), !.tg = Append(@, d[5])]
Function(b, d) ==
  LET y == Derive(d.S, b.t, d.ds)
      ps == d.ds[1][3]
      s1 == IF Dead(y) THEN y.S
            ELSE IF b.td THEN Err(y.S, "typedef of a function definition")
            ELSE IF y.t[2][1] # "v" /\ ~Complete(y.S, y.t[2]) THEN Err(y.S, "incomplete returned type")
            ELSE IF \E k \in 1..Len(ps) : ps[k][1] = "" THEN Opn(y.S, "parameter without name")
            ELSE IF \E k \in 1..Len(ps) : ~Complete(y.S, ps[k][2]) THEN Err(y.S, "parameter of incomplete type")
            ELSE Declare(y.S, d.n, y.t, FALSE, TRUE)
      r == IF Dead(At(0, s1)) THEN At(N + 1, s1)
           ELSE PItems(d.i + 1, Reenter([s1 EXCEPT !.fn = y.t[2]], d.ds[1]), [lp |-> FALSE, sw |-> FALSE])
  IN  [r EXCEPT !.S = IF Len(@.sc) > 1 THEN Leave(@) ELSE @]
External(i, s) ==
  IF K(i) = ";" THEN At(i + 1, Opn(s, "empty declaration"))
  ELSE LET b == PSpecs(i, s, FALSE) IN
    IF Dead(b) THEN At(N + 1, b.S)
    ELSE IF K(b.i) = ";" THEN PDecl(i, s, "file")
    ELSE LET d == PDeclr(b.i, b.S, "n") IN
      IF Dead(d) THEN At(N + 1, d.S)
      ELSE IF K(d.i) = "{" THEN
        (IF d.ds = <<>> \/ d.ds[1][1] # "f" THEN Fail(d.S, "body of no function") ELSE Function(b, d))
      ELSE IF d.ds # <<>> /\ d.ds[1][1] = "f" /\ IsBase(d.S, d.i) THEN Stop(d.S, "old style definition")
      ELSE PDeclList(b.i, b.S, b, "file", d)

Verdict == IF S.err # "" THEN "bad" ELSE IF S.op # "" THEN "open" ELSE "good"
Reason == IF S.err # "" THEN S.err ELSE S.op
\* the names the assembly must define: functions with a body, objects
Defined(s) == {n \in DOMAIN s.sc[1] : s.sc[1][n].k = "obj" \/ (s.sc[1][n].k = "fun" /\ s.sc[1][n].d)}

(***************************** what the compiler may do *******************)
(* o is what was observed of one compilation: rc the exit status (-1:      *)
(* ended by a signal or not at all), diag whether a diagnostic was         *)
(* printed, out what became of the assembly file ("kept" as it was, or     *)
(* still missing; "new"; "odd" anything else), asm whether the system      *)
(* assembler took it, defs and refs the global symbols it defines and      *)
(* needs, lim whether the diagnostic is the documented limit on registers  *)
Ids == {Toks[k][2] : k \in {j \in 1..N : Toks[j][1] = "i"}}
\* the most operands (names, constants, strings) of one expression: between two of ; { }
RECURSIVE MostOperands(_, _, _)
MostOperands(k, c, m) ==
  IF k > N THEN m
  ELSE IF K(k) \in {";", "{", "}"} THEN MostOperands(k + 1, 0, m)
  ELSE IF Toks[k][1] = "k" THEN MostOperands(k + 1, c, m)
  ELSE MostOperands(k + 1, c + 1, IF c + 1 > m THEN c + 1 ELSE m)
\* with fewer operands than there are registers, no expression can need more of them
MayRefuse(o) == o.lim /\ MostOperands(1, 0, 0) >= 8
Complaint(o) ==
  CASE Verdict = "bad" ->
         (IF o.rc = 0 THEN "an ill-formed program is accepted"
          ELSE IF o.rc < 0 THEN "the compiler dies on an ill-formed program"
          ELSE IF ~o.diag THEN "an ill-formed program is rejected without a diagnostic"
          ELSE IF o.out # "kept" THEN "the assembly file is touched for an ill-formed program" ELSE "")
    [] Verdict = "good" ->
         (IF o.rc < 0 THEN "the compiler dies on a well-formed program"
          ELSE IF o.rc # 0 THEN (IF MayRefuse(o) THEN "" ELSE "a well-formed program is rejected")
          ELSE IF o.diag THEN "a diagnostic is printed for a well-formed program"
          ELSE IF o.out # "new" THEN "no assembly file for a well-formed program"
          ELSE IF ~o.asm THEN "the assembler rejects the output"
          ELSE IF ToSet(o.defs) # Defined(S) THEN "the output defines other symbols than the program"
          ELSE IF ~(ToSet(o.refs) \subseteq Ids) THEN "the output needs symbols the program does not name" ELSE "")
    [] OTHER -> ""

Init == pid \in 1..NP /\ pos = 1 /\ S = (IF Len(Progs[pid].t) = 0 THEN Opn(S0, "empty translation unit") ELSE S0) /\ st = "run"
Read == /\ st = "run" /\ pos <= N /\ ~Dead(At(0, S))
        /\ LET r == External(pos, S) IN pos' = r.i /\ S' = r.S
        /\ UNCHANGED <<pid, st>>
Finish == /\ st = "run" /\ (pos > N \/ Dead(At(0, S)))
          /\ PrintT(ToString(<<"V", Progs[pid].id, Verdict, Reason, Complaint(Progs[pid].o)>>))
          /\ st' = "done" /\ UNCHANGED <<pid, pos, S>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars

(***************************** properties of the reading ******************)
\* between external declarations only file scope is open, and what is declared there is complete
Balanced == Dead(At(0, S)) \/ (Len(S.sc) = 1 /\ Len(S.tg) = 1 /\ S.sw = <<>>)
ObjectsComplete == Dead(At(0, S)) \/ \A n \in DOMAIN S.sc[1] : S.sc[1][n].k = "obj" => Complete(S, S.sc[1][n].t)
\* every step consumes tokens or ends
Progress == [][pos' > pos \/ st' = "done"]_vars
\* nothing declared is forgotten or changes its type, and errors stay
Monotone == [][S.err # "" => S'.err = S.err]_vars
=============================================================================
