------------------------------ MODULE CMachine ------------------------------
(***************************************************************************)
(* The abstract machine of the C subset compiled by umlcc.                 *)
(*                                                                         *)
(* A state holds a control stack C, a value stack V, an environment E (a   *)
(* stack of scopes), the stack K of suspended activations, and byte memory *)
(* M (object number -> sequence of bytes, 256 = indeterminate).  Every     *)
(* transition evaluates one (side-effect free) expression, performs one    *)
(* side effect, or executes one statement.  Where C leaves the order of    *)
(* evaluation open, the machine has one transition per order.              *)
(*                                                                         *)
(* The machine consumes the trace recorded from the compiled program: a    *)
(* call of an external function is enabled only if the next recorded event *)
(* is a call of that function with these argument bytes.  Undefined        *)
(* behaviour leads to the state st = "ub", from which nothing is required. *)
(***************************************************************************)
EXTENDS CTypes, TLC, TLCExt, Json, FiniteSets, SequencesExt, IOUtils

Progs == TLCEval(ndJsonDeserialize(IOEnv.CM_INPUT))
NP == Len(Progs)
Layouts == TLCEval([p \in 1..NP |-> [i \in 1..Len(Progs[p].st) |-> Layout(Progs[p].st, i)]])

VARIABLES pid,   \* which program
          C,     \* control stack (top = last)
          V,     \* value stack
          E,     \* scopes, innermost last
          K,     \* suspended activations: [c, v, e, r, o]
          M,     \* memory
          nx,    \* next object number
          ti,    \* recorded events consumed so far
          st     \* "run", "done", "ub"
vars == <<pid, C, V, E, K, M, nx, ti, st>>

P == Progs[pid]
Nd(n) == P.nd[n]
ST == P.st
Sz(T) == IF IsStr(T) THEN Layouts[pid][T[2]].sz
         ELSE IF IsArr(T) /\ IsStr(T[2]) THEN T[3] * Layouts[pid][T[2][2]].sz
         ELSE SizeOf(ST, T)

(****************************** values ************************************)
Val(T, b) == [t |-> T, b |-> b]
UB == Val(TUb, <<>>)
IsUb(v) == v.t[1] = "ub"
VoidVal == Val(TVoid, <<>>)
IntVal(x) == Val(TInt, FromInt(x, 4))
Defined(v) == \A i \in 1..Len(v.b) : v.b[i] < 256

\* pointers: offset (2 bytes), object (2 bytes), tag; functions: index, tag
MkPtr(T, o, off) == Val(Ptr(T), <<off % 256, off \div 256, o % 256, o \div 256, 0, 0, 0, 119>>)
MkFun(T, i) == Val(Ptr(T), <<i, 0, 0, 0, 0, 0, 0, 102>>)
PtrOff(v) == v.b[1] + 256 * v.b[2]
PtrObj(v) == v.b[3] + 256 * v.b[4]
IsObjPtr(v) == v.b[8] = 119
IsFunPtr(v) == v.b[8] = 102
IsNull(v) == IsZero(v.b)

ObjSize(o) == Len(M[o])
Heap == 10000
\* objects that survive when those created after object number h end their life
Alive(h) == [o \in {x \in DOMAIN M : x <= h \/ x >= Heap} |-> M[o]]
\* conversion to a type (C11 6.3); pointers keep their address
Conv(v, T) ==
  IF IsUb(v) THEN UB
  ELSE IF T[1] = "v" THEN VoidVal
  ELSE IF ~Defined(v) \/ v.t[1] = "v" THEN UB
  ELSE IF IsInt(T) /\ IsInt(v.t) THEN Val(T, Resize(v.b, ISize(T[2]), SignedT(v.t)))
  ELSE IF IsPtr(T) /\ IsPtr(v.t) THEN Val(T, v.b)
  ELSE IF IsPtr(T) /\ IsInt(v.t) /\ IsZero(v.b) THEN Val(T, Zero(8))
  ELSE UB
Truth(v) == ~IsZero(v.b)

Load(T, pv) ==     \* pv: pointer value; T: object type
  IF IsUb(pv) \/ ~IsObjPtr(pv) THEN (IF ~IsUb(pv) /\ IsFunPtr(pv) /\ IsFun(T) THEN Val(Ptr(T), pv.b) ELSE UB)
  ELSE LET o == PtrObj(pv)  off == PtrOff(pv) IN
    IF IsArr(T) THEN Val(Ptr(T[2]), pv.b)
    ELSE IF IsStr(T) THEN Val(T, pv.b)
    ELSE IF o \notin DOMAIN M \/ off + Sz(T) > ObjSize(o) THEN UB
    ELSE LET r == Val(T, SubSeq(M[o], off + 1, off + Sz(T)))
         IN  IF Defined(r) THEN r ELSE UB
\* memory after storing bytes b; caller has checked CanStore
CanStore(pv, n) == ~IsUb(pv) /\ IsObjPtr(pv) /\ PtrObj(pv) \in DOMAIN M /\ PtrOff(pv) + n <= ObjSize(PtrObj(pv))
PutBytes(m, o, off, b) == [m EXCEPT ![o] = [i \in 1..Len(m[o]) |-> IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE m[o][i]]]
Store(pv, b) == PutBytes(M, PtrObj(pv), PtrOff(pv), b)

(*************************** arithmetic ***********************************)
IntArith(op, a, b, sg) ==   \* equal length words; <<>> = undefined
  LET n == Len(a) IN
  CASE op = "+" -> LET r == Add(a, b) IN IF sg /\ IsNeg(a) = IsNeg(b) /\ IsNeg(r) # IsNeg(a) THEN <<>> ELSE r
    [] op = "-" -> LET r == Sub(a, b) IN IF sg /\ IsNeg(a) # IsNeg(b) /\ IsNeg(r) # IsNeg(a) THEN <<>> ELSE r
    [] op = "*" -> IF ~sg THEN Mul(a, b)
                   ELSE LET w == Mul(Resize(a, 2 * n, TRUE), Resize(b, 2 * n, TRUE))
                            r == SubSeq(w, 1, n)
                        IN  IF Resize(r, 2 * n, TRUE) = w THEN r ELSE <<>>
    [] op \in {"/", "%"} ->
         IF IsZero(b) THEN <<>>
         ELSE IF ~sg THEN (IF op = "/" THEN UDivMod(a, b).q ELSE UDivMod(a, b).r)
         ELSE IF IsZero(Add(b, FromInt(1, n))) /\ IsNeg(a) /\ IsNeg(Neg(a)) THEN <<>>
         ELSE (IF op = "/" THEN SDivMod(a, b).q ELSE SDivMod(a, b).r)
    [] op = "&" -> AndW(a, b)
    [] op = "|" -> OrW(a, b)
    [] op = "^" -> XorW(a, b)
CmpOk(op, c) ==
  CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c < 0
    [] op = ">" -> c > 0 [] op = "<=" -> c <= 0 [] op = ">=" -> c >= 0
Bool(x) == IntVal(IF x THEN 1 ELSE 0)

AddPtr(pv, k, T) ==   \* pointer to T plus k elements
  LET sz == Max(1, Sz(T)) IN
  IF IsNull(pv) THEN (IF k = 0 THEN pv ELSE UB)
  ELSE IF ~IsObjPtr(pv) \/ k > 60000 \/ k < -60000 THEN UB
  ELSE LET off == PtrOff(pv) + k * sz  o == PtrObj(pv)
       IN  IF o \notin DOMAIN M \/ off < 0 \/ off > ObjSize(o) THEN UB
           ELSE [pv EXCEPT !.b = MkPtr(T, o, off).b]

ShiftOp(op, x, y) ==
  LET T == Promote(x.t)  a == Conv(x, T).b  n == 8 * Len(a)
      k == ToInt(y.b, SignedT(y.t))
  IN  IF k = Big \/ k < 0 \/ k >= n THEN UB
      ELSE IF op = ">>" THEN Val(T, Shr(a, k, IF SignedT(T) /\ IsNeg(a) THEN 255 ELSE 0))
      ELSE IF SignedT(T) /\ (IsNeg(a) \/ IsNeg(Shl(a, k)) \/ Shr(Shl(a, k), k, 0) # a) THEN UB
      ELSE Val(T, Shl(a, k))

BinOp(op, x, y) ==
  IF IsUb(x) \/ IsUb(y) \/ ~Defined(x) \/ ~Defined(y) THEN UB
  ELSE IF op \in {"<<", ">>"} THEN ShiftOp(op, x, y)
  ELSE IF IsInt(x.t) /\ IsInt(y.t) THEN
    LET T == Common(x.t, y.t)
        a == Conv(x, T).b  b == Conv(y, T).b  sg == SignedT(T)
    IN  IF op \in {"==", "!=", "<", ">", "<=", ">="}
        THEN Bool(CmpOk(op, IF sg THEN SCmp(a, b) ELSE UCmp(a, b)))
        ELSE LET r == IntArith(op, a, b, sg) IN IF r = <<>> THEN UB ELSE Val(T, r)
  ELSE IF op \in {"==", "!="} THEN
    LET a == Conv(x, Ptr(TVoid)).b  b == Conv(y, Ptr(TVoid)).b
    IN  IF IsUb(Conv(x, Ptr(TVoid))) \/ IsUb(Conv(y, Ptr(TVoid))) THEN UB ELSE Bool((a = b) = (op = "=="))
  ELSE IF op \in {"<", ">", "<=", ">="} THEN
    IF ~IsPtr(x.t) \/ ~IsPtr(y.t) \/ ~IsObjPtr(x) \/ ~IsObjPtr(y) \/ PtrObj(x) # PtrObj(y) THEN UB
    ELSE Bool(CmpOk(op, PtrOff(x) - PtrOff(y)))
  ELSE IF op = "+" /\ IsPtr(x.t) /\ IsInt(y.t) THEN AddPtr(x, ToInt(y.b, SignedT(y.t)), x.t[2])
  ELSE IF op = "+" /\ IsInt(x.t) /\ IsPtr(y.t) THEN AddPtr(y, ToInt(x.b, SignedT(x.t)), y.t[2])
  ELSE IF op = "-" /\ IsPtr(x.t) /\ IsInt(y.t) THEN
    LET k == ToInt(y.b, SignedT(y.t)) IN IF k = Big THEN UB ELSE AddPtr(x, -k, x.t[2])
  ELSE IF op = "-" /\ IsPtr(x.t) /\ IsPtr(y.t) THEN
    IF ~IsObjPtr(x) \/ ~IsObjPtr(y) \/ PtrObj(x) # PtrObj(y) THEN UB
    ELSE LET d == PtrOff(x) - PtrOff(y)  s == Max(1, Sz(x.t[2]))
         IN  Val(TLong, FromInt(IF d >= 0 THEN d \div s ELSE -((-d) \div s), 8))
  ELSE UB

UnOp(op, x) ==
  IF IsUb(x) \/ ~Defined(x) THEN UB
  ELSE IF op = "!" THEN Bool(~Truth(x))
  ELSE LET T == Promote(x.t)  a == Conv(x, T).b
       IN  CASE op = "+" -> Val(T, a)
             [] op = "~" -> Val(T, Comp(a))
             [] op = "-" -> IF SignedT(T) /\ IsNeg(a) /\ a = Neg(a) THEN UB ELSE Val(T, Neg(a))

(****************************** literals **********************************)
\* integer constants (C11 6.4.4.1): digits dg in base bs with suffix sf
RECURSIVE DigitsVal(_, _, _, _)
DigitsVal(dg, bs, i, acc) ==
  IF i > Len(dg) THEN acc
  ELSE DigitsVal(dg, bs, i + 1, Norm([j \in 1..8 |-> acc[j] * bs + (IF j = 1 THEN dg[i] ELSE 0)], 1, 0, <<>>))
Fits(b, T) == LET n == ISize(T) IN
  /\ \A i \in (n + 1)..8 : b[i] = 0
  /\ ISigned(T) => b[n] < 128
LitTypes(bs, sf) ==
  LET dec == bs = 10 IN
  CASE sf = ""    -> IF dec THEN <<"int", "long", "llong">> ELSE <<"int", "uint", "long", "ulong", "llong", "ullong">>
    [] sf = "u"   -> <<"uint", "ulong", "ullong">>
    [] sf = "l"   -> IF dec THEN <<"long", "llong">> ELSE <<"long", "ulong", "llong", "ullong">>
    [] sf = "ul"  -> <<"ulong", "ullong">>
    [] sf = "ll"  -> IF dec THEN <<"llong">> ELSE <<"llong", "ullong">>
    [] sf = "ull" -> <<"ullong">>
LitVal(nd) ==
  LET v == DigitsVal(nd.dg, nd.bs, 1, Zero(8))
      ts == LitTypes(nd.bs, nd.sf)
      ok == {i \in 1..Len(ts) : Fits(v, ts[i])}
  IN  IF ok = {} THEN UB
      ELSE LET T == ts[CHOOSE i \in ok : \A j \in ok : i <= j] IN Val(<<"i", T>>, SubSeq(v, 1, ISize(T)))
\* the characters denoted by the source characters of a character constant or string
HexV(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
           ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
IsOct(c) == c >= 48 /\ c <= 55
EscVal(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 97 -> 7 [] c = 98 -> 8
               [] c = 102 -> 12 [] c = 118 -> 11 [] OTHER -> c
RECURSIVE Decode(_, _, _), HexRun(_, _, _)
HexRun(s, i, v) == IF i <= Len(s) /\ HexV(s[i]) >= 0 THEN HexRun(s, i + 1, (v * 16 + HexV(s[i])) % 256) ELSE <<v, i>>
Decode(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] # 92 THEN Decode(s, i + 1, Append(acc, s[i]))
  ELSE IF s[i + 1] = 120 THEN LET h == HexRun(s, i + 2, 0) IN Decode(s, h[2], Append(acc, h[1]))
  ELSE IF IsOct(s[i + 1]) THEN
    LET n == IF i + 2 <= Len(s) /\ IsOct(s[i + 2]) THEN (IF i + 3 <= Len(s) /\ IsOct(s[i + 3]) THEN 3 ELSE 2) ELSE 1
        v == IF n = 1 THEN s[i+1] - 48 ELSE IF n = 2 THEN (s[i+1] - 48) * 8 + s[i+2] - 48
             ELSE (s[i+1] - 48) * 64 + (s[i+2] - 48) * 8 + s[i+3] - 48
    IN  Decode(s, i + 1 + n, Append(acc, v % 256))
  ELSE Decode(s, i + 2, Append(acc, EscVal(s[i + 1])))
\* plain char is signed on this platform
ChrVal(nd) == Val(TInt, Resize(<<Decode(nd.s, 1, <<>>)[1]>>, 4, TRUE))
\* adjacent parts of a string literal node, and the terminator
StrBytes(nd) == Append(Decode(nd.s, 1, <<>>), 0)

\* literals do not depend on the state: computed once
Lits == TLCEval([p \in 1..NP |-> TLCEval([n \in 1..Len(Progs[p].nd) |->
          IF Progs[p].nd[n].k = "lit" THEN LitVal(Progs[p].nd[n])
          ELSE IF Progs[p].nd[n].k = "chr" THEN ChrVal(Progs[p].nd[n])
          ELSE VoidVal])])
StrNodes == TLCEval([p \in 1..NP |-> SelectSeq([i \in 1..Len(Progs[p].nd) |-> i], LAMBDA n : Progs[p].nd[n].k = "str")])
StrObj(n) == CHOOSE i \in 1..Len(StrNodes[pid]) : StrNodes[pid][i] = n

(*************************** static facts *********************************)
\* children that are evaluated expressions
Kids(nd) ==
  CASE nd.k \in {"lit", "chr", "str", "v", "szt", "sze"} -> <<>>
    [] nd.k \in {"un", "cast", "*", "&", ".", "->", "++"} -> <<nd.a>>
    [] nd.k \in {"b", "&&", "||", "=", "op=", "[]"} -> <<nd.a, nd.b>>
    [] nd.k = "?" -> <<nd.c, nd.a, nd.b>>
    [] nd.k = "call" -> <<nd.f>> \o nd.as
    [] OTHER -> <<>>
RECURSIVE PureN(_, _)
PureN(p, n) == LET nd == Progs[p].nd[n] IN
  /\ nd.k \notin {"=", "op=", "++", "call"}
  /\ \A i \in 1..Len(Kids(nd)) : PureN(p, Kids(nd)[i])
ExprKinds == {"lit","chr","str","v","szt","sze","un","cast","*","&",".","->","++","b","&&","||","=","op=","[]","?","call"}
PureT == TLCEval([p \in 1..NP |-> TLCEval([n \in 1..Len(Progs[p].nd) |-> Progs[p].nd[n].k \in ExprKinds /\ PureN(p, n)])])
Pure(n) == PureT[pid][n]
\* constants: order of evaluation against them cannot matter
IsConst(n) == Nd(n).k \in {"lit", "chr", "str", "szt", "sze"}

(************************** names and types *******************************)
RECURSIVE LookIn(_, _)
LookIn(x, i) == IF x \in DOMAIN E[i] THEN E[i][x] ELSE LookIn(x, i - 1)
Look(x) == LookIn(x, Len(E))
\* entries: [k |-> "o", o |-> object, t |-> type], [k |-> "e", v |-> value], [k |-> "f", i |-> index, t |-> type]

Decay(T) == IF IsArr(T) THEN Ptr(T[2]) ELSE IF IsFun(T) THEN Ptr(T) ELSE T
MemT(T, m) == ST[T[2]][MemberIndex(ST[T[2]], m)][2]
MemOff(T, m) == Layouts[pid][T[2]].off[MemberIndex(ST[T[2]], m)]

RECURSIVE TypeOf(_)     \* type of an expression before decay
TypeOf(n) == LET nd == Nd(n) IN
  CASE nd.k \in {"lit", "chr"} -> Lits[pid][n].t
    [] nd.k = "str" -> <<"a", TChar, Len(StrBytes(nd))>>
    [] nd.k = "v" -> LET e == Look(nd.n) IN IF e.k = "e" THEN TInt ELSE e.t
    [] nd.k \in {"szt", "sze"} -> TULong
    [] nd.k = "un" -> IF nd.o = "!" THEN TInt ELSE Promote(TypeOf(nd.a))
    [] nd.k = "cast" -> nd.t
    [] nd.k = "*" -> Decay(TypeOf(nd.a))[2]
    [] nd.k = "&" -> Ptr(TypeOf(nd.a))
    [] nd.k = "." -> MemT(TypeOf(nd.a), nd.m)
    [] nd.k = "->" -> MemT(Decay(TypeOf(nd.a))[2], nd.m)
    [] nd.k = "[]" -> LET A == Decay(TypeOf(nd.a)) IN IF IsPtr(A) THEN A[2] ELSE Decay(TypeOf(nd.b))[2]
    [] nd.k \in {"++", "=", "op="} -> TypeOf(nd.a)
    [] nd.k \in {"&&", "||"} -> TInt
    [] nd.k = "?" -> LET A == Decay(TypeOf(nd.a))  B == Decay(TypeOf(nd.b)) IN
         IF IsInt(A) /\ IsInt(B) THEN Common(A, B)
         ELSE IF IsPtr(A) /\ (IsInt(B) \/ B[2] # TVoid) /\ A[2] # TVoid THEN A
         ELSE IF IsPtr(A) /\ IsInt(B) THEN A
         ELSE IF IsInt(A) /\ IsPtr(B) THEN B
         ELSE IF IsPtr(A) /\ IsPtr(B) THEN Ptr(TVoid)
         ELSE A
    [] nd.k = "call" -> LET F == Decay(TypeOf(nd.f)) IN F[2][2]
    [] nd.k = "b" -> LET A == Decay(TypeOf(nd.a))  B == Decay(TypeOf(nd.b)) IN
         IF nd.o \in {"==", "!=", "<", ">", "<=", ">="} THEN TInt
         ELSE IF nd.o \in {"<<", ">>"} THEN Promote(A)
         ELSE IF IsPtr(A) /\ IsPtr(B) THEN TLong
         ELSE IF IsPtr(A) THEN A
         ELSE IF IsPtr(B) THEN B
         ELSE Common(A, B)

(********************* expressions without effects ************************)
RECURSIVE PV(_), PL(_)
\* an lvalue: [t |-> object type, b |-> pointer bytes]
AsL(T, pv) == IF IsUb(pv) THEN UB ELSE Val(T, pv.b)
LMember(l, m) ==       \* l: lvalue of structure type
  IF IsUb(l) THEN UB
  ELSE IF l.b[8] # 119 THEN UB
  ELSE LET off == PtrOff(l) + MemOff(l.t, m) IN Val(MemT(l.t, m), MkPtr(TVoid, PtrObj(l), off).b)
DerefL(pv) == IF IsUb(pv) \/ ~IsPtr(pv.t) THEN UB ELSE Val(pv.t[2], pv.b)
LoadL(l) == IF IsUb(l) THEN UB ELSE Load(l.t, l)
PL(n) == LET nd == Nd(n) IN
  CASE nd.k = "v" -> LET e == Look(nd.n) IN
         IF e.k = "o" THEN Val(e.t, MkPtr(TVoid, e.o, 0).b)
         ELSE IF e.k = "f" THEN Val(e.t, MkFun(TVoid, e.i).b) ELSE UB
    [] nd.k = "str" -> Val(TypeOf(n), MkPtr(TVoid, StrObj(n), 0).b)
    [] nd.k = "*" -> DerefL(PV(nd.a))
    [] nd.k = "[]" -> DerefL(BinOp("+", PV(nd.a), PV(nd.b)))
    [] nd.k = "." -> LMember(PL(nd.a), nd.m)
    [] nd.k = "->" -> LMember(DerefL(PV(nd.a)), nd.m)
    \* the chosen structure: only its members are read, at once
    [] nd.k = "?" -> LET x == PV(nd.c) IN IF IsUb(x) THEN UB ELSE PL(IF Truth(x) THEN nd.a ELSE nd.b)
    [] OTHER -> UB
PV(n) == LET nd == Nd(n) IN
  CASE nd.k \in {"lit", "chr"} -> Lits[pid][n]
    [] nd.k = "v" /\ Look(nd.n).k = "e" -> Look(nd.n).v
    [] nd.k \in {"v", "str", "*", "[]", ".", "->"} -> LoadL(PL(n))
    [] nd.k = "szt" -> Val(TULong, FromInt(Sz(nd.t), 8))
    [] nd.k = "sze" -> Val(TULong, FromInt(Sz(TypeOf(nd.a)), 8))
    [] nd.k = "un" -> UnOp(nd.o, PV(nd.a))
    [] nd.k = "cast" -> Conv(PV(nd.a), nd.t)
    [] nd.k = "&" -> LET l == PL(nd.a) IN IF IsUb(l) THEN UB ELSE Val(Ptr(l.t), l.b)
    [] nd.k = "b" -> BinOp(nd.o, PV(nd.a), PV(nd.b))
    [] nd.k = "&&" -> LET x == PV(nd.a) IN
         IF IsUb(x) THEN UB ELSE IF ~Truth(x) THEN Bool(FALSE)
         ELSE LET y == PV(nd.b) IN IF IsUb(y) THEN UB ELSE Bool(Truth(y))
    [] nd.k = "||" -> LET x == PV(nd.a) IN
         IF IsUb(x) THEN UB ELSE IF Truth(x) THEN Bool(TRUE)
         ELSE LET y == PV(nd.b) IN IF IsUb(y) THEN UB ELSE Bool(Truth(y))
    [] nd.k = "?" -> LET x == PV(nd.c) IN
         IF IsUb(x) THEN UB ELSE Conv(PV(IF Truth(x) THEN nd.a ELSE nd.b), TypeOf(n))

(************************** initializers **********************************)
\* leaves: <<offset, type, node>> for scalars; strings as <<offset, array type, node>>
CharArr(T) == IsArr(T) /\ T[2] = TChar
RECURSIVE Braced(_, _, _), Consume(_, _, _, _), ArrLeaves(_, _, _, _, _, _, _), StrLeaves(_, _, _, _, _, _)
\* returns [ls |-> leaves, i |-> next index, k |-> elements touched]
ArrLeaves(T, xs, i, off, k, cnt, acc) ==
  IF i > Len(xs) \/ (cnt >= 0 /\ k >= cnt) THEN [ls |-> acc, i |-> i, k |-> k]
  ELSE LET c == Consume(T, xs, i, off + k * Sz(T))
       IN  ArrLeaves(T, xs, c.i, off, k + 1, cnt, acc \o c.ls)
StrLeaves(sid, xs, i, off, k, acc) ==
  IF i > Len(xs) \/ k > Len(ST[sid]) THEN [ls |-> acc, i |-> i, k |-> k]
  ELSE LET c == Consume(ST[sid][k][2], xs, i, off + Layouts[pid][sid].off[k])
       IN  StrLeaves(sid, xs, c.i, off, k + 1, acc \o c.ls)
Consume(T, xs, i, off) ==
  LET x == Nd(xs[i]) IN
  IF x.k = "il" THEN [ls |-> Braced(T, xs[i], off).ls, i |-> i + 1, k |-> 1]
  ELSE IF IsScalar(T) \/ (CharArr(T) /\ x.k = "str") THEN [ls |-> << <<off, T, xs[i]>> >>, i |-> i + 1, k |-> 1]
  ELSE IF IsArr(T) THEN ArrLeaves(T[2], xs, i, off, 0, T[3], <<>>)
  ELSE StrLeaves(T[2], xs, i, off, 1, <<>>)
Braced(T, n, off) ==
  LET xs == Nd(n).xs IN
  IF IsScalar(T) THEN [ls |-> (IF Nd(xs[1]).k = "il" THEN Braced(T, xs[1], off).ls ELSE << <<off, T, xs[1]>> >>), i |-> 0, k |-> 1]
  ELSE IF CharArr(T) /\ Len(xs) = 1 /\ Nd(xs[1]).k = "str" THEN
    [ls |-> << <<off, T, xs[1]>> >>, i |-> 0, k |-> Len(StrBytes(Nd(xs[1])))]
  ELSE IF IsArr(T) THEN ArrLeaves(T[2], xs, 1, off, 0, T[3], <<>>)
  ELSE StrLeaves(T[2], xs, 1, off, 1, <<>>)
InitInfo(T, n) == LET x == Nd(n) IN
  IF x.k = "il" THEN Braced(T, n, 0)
  ELSE IF x.k = "str" /\ CharArr(T) THEN [ls |-> << <<0, T, n>> >>, i |-> 0, k |-> Len(StrBytes(x))]
  ELSE [ls |-> << <<0, T, n>> >>, i |-> 0, k |-> 1]
\* an object with every scalar zero; the value of padding bytes is unspecified
RECURSIVE Clean(_)
Clean(T) ==
  IF IsScalar(T) THEN Zero(Sz(T))
  ELSE IF IsArr(T) THEN LET e == Clean(T[2])  k == Len(e) IN [j \in 1..(T[3] * k) |-> e[((j - 1) % k) + 1]]
  ELSE LET ms == ST[T[2]]  off == Layouts[pid][T[2]].off
           c == [i \in 1..Len(ms) |-> Clean(ms[i][2])]
       IN  [j \in 1..Sz(T) |-> LET h == {i \in 1..Len(ms) : off[i] < j /\ j <= off[i] + Len(c[i])} IN
              IF h = {} THEN 256 ELSE LET i == CHOOSE x \in h : TRUE IN c[i][j - off[i]]]
\* the declared type, completed by its initializer
DeclT(T, n) == IF IsArr(T) /\ T[3] < 0 /\ n > 0 THEN <<"a", T[2], InitInfo(T, n).k>> ELSE T
\* bytes of a string leaf: cut or zero-filled to the array
StrInit(T, n) == LET b == StrBytes(Nd(n)) IN [i \in 1..Sz(T) |-> IF i <= Len(b) THEN b[i] ELSE 0]

(***************************** transitions ********************************)
Top == C[Len(C)]
Pop1 == SubSeq(C, 1, Len(C) - 1)
PushC(c, xs) == c \o xs
VTop == V[Len(V)]
VPop(k) == SubSeq(V, 1, Len(V) - k)
X(n) == <<"x", n, 0>>
L(n) == <<"l", n, 0>>

Goto(c) == C' = c /\ UNCHANGED <<pid, V, E, K, M, nx, ti, st>>
\* finish an evaluation step with value v on the value stack w
Yield(c, w, v) ==
  IF IsUb(v) THEN st' = "ub" /\ UNCHANGED <<pid, C, V, E, K, M, nx, ti>>
  ELSE C' = c /\ V' = Append(w, v) /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
YieldM(c, w, v, m) ==
  IF IsUb(v) THEN st' = "ub" /\ UNCHANGED <<pid, C, V, E, K, M, nx, ti>>
  ELSE C' = c /\ V' = Append(w, v) /\ M' = m /\ UNCHANGED <<pid, E, K, nx, ti, st>>
GoUb == st' = "ub" /\ UNCHANGED <<pid, C, V, E, K, M, nx, ti>>

\* evaluate a and b in an order C allows, then continue with tag (operands a, b on the stack)
\* or tag with third component 1 (operands on the stack in the order b, a)
Fixed(it) == IsConst(it[2]) \/ (it[1] = "l" /\ Nd(it[2]).k = "v")
Both(tag, n, ia, ib) ==
  \/ Goto(Pop1 \o << <<tag, n, 0>>, ib, ia >>)
  \/ /\ ~Fixed(ia) /\ ~Fixed(ib) /\ ~(Pure(ia[2]) /\ Pure(ib[2]))
     /\ Goto(Pop1 \o << <<tag, n, 1>>, ia, ib >>)
\* the two operands in source order
OpA == IF Top[3] = 0 THEN V[Len(V) - 1] ELSE V[Len(V)]
OpB == IF Top[3] = 0 THEN V[Len(V)] ELSE V[Len(V) - 1]

EvalX ==
  /\ Top[1] = "x"
  /\ LET n == Top[2]  nd == Nd(n) IN
     IF Pure(n) THEN Yield(Pop1, V, PV(n))
     ELSE CASE nd.k = "b" -> Both("bin", n, X(nd.a), X(nd.b))
            [] nd.k = "un" -> Goto(Pop1 \o << <<"un", n, 0>>, X(nd.a) >>)
            [] nd.k = "cast" -> Goto(Pop1 \o << <<"cast", n, 0>>, X(nd.a) >>)
            [] nd.k \in {"&&", "||"} -> Goto(Pop1 \o << <<"log", n, 0>>, X(nd.a) >>)
            [] nd.k = "?" -> Goto(Pop1 \o << <<"cnd", n, 0>>, X(nd.c) >>)
            [] nd.k = "=" -> Both("asg", n, L(nd.a), X(nd.b))
            [] nd.k = "op=" -> Both("opa", n, L(nd.a), X(nd.b))
            [] nd.k = "++" -> Goto(Pop1 \o << <<"inc", n, 0>>, L(nd.a) >>)
            [] nd.k \in {"*", "[]", ".", "->"} -> Goto(Pop1 \o << <<"ld", n, 0>>, L(n) >>)
            [] nd.k = "&" -> Goto(Pop1 \o << <<"adr", n, 0>>, L(nd.a) >>)
            [] nd.k = "call" ->
                 LET k == Len(nd.as)  xs == [i \in 1..k |-> X(nd.as[i])] IN
                 \/ Goto(Pop1 \o << <<"call", n, 0>>, X(nd.f) >> \o xs)             \* right to left
                 \/ Cardinality({i \in 1..k : ~IsConst(nd.as[i])}) > 1 /\ (\E i \in 1..k : ~Pure(nd.as[i]))
                    /\ Goto(Pop1 \o << <<"call", n, 1>>, X(nd.f) >> \o [i \in 1..k |-> xs[k + 1 - i]])
EvalL ==
  /\ Top[1] = "l"
  /\ LET n == Top[2]  nd == Nd(n) IN
     IF Pure(n) THEN Yield(Pop1, V, PL(n))
     ELSE CASE nd.k = "*" -> Goto(Pop1 \o << <<"der", n, 0>>, X(nd.a) >>)
            [] nd.k = "[]" -> Both("idx", n, X(nd.a), X(nd.b))
            [] nd.k = "." -> Goto(Pop1 \o << <<"mem", n, 0>>, L(nd.a) >>)
            [] nd.k = "->" -> Goto(Pop1 \o << <<"mem", n, 0>>, <<"der", n, 0>>, X(nd.a) >>)
            [] nd.k = "?" -> Goto(Pop1 \o << <<"cnl", n, 0>>, X(nd.c) >>)
            [] OTHER -> GoUb
Apply ==
  LET t == Top[1]  n == Top[2]  nd == Nd(n) IN
  CASE t = "bin" -> Yield(Pop1, VPop(2), BinOp(nd.o, OpA, OpB))
    [] t = "un" -> Yield(Pop1, VPop(1), UnOp(nd.o, VTop))
    [] t = "cast" -> Yield(Pop1, VPop(1), Conv(VTop, nd.t))
    [] t = "der" -> Yield(Pop1, VPop(1), DerefL(VTop))
    [] t = "idx" -> Yield(Pop1, VPop(2), DerefL(BinOp("+", OpA, OpB)))
    [] t = "mem" -> Yield(Pop1, VPop(1), LMember(VTop, nd.m))
    [] t = "ld" -> Yield(Pop1, VPop(1), LoadL(VTop))
    [] t = "adr" -> Yield(Pop1, VPop(1), Val(Ptr(VTop.t), VTop.b))
    [] t = "log" -> IF Truth(VTop) = (nd.k = "||") THEN Yield(Pop1, VPop(1), Bool(Truth(VTop)))
                    ELSE C' = Pop1 \o << <<"bool", n, 0>>, X(nd.b) >> /\ V' = VPop(1) /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
    [] t = "bool" -> Yield(Pop1, VPop(1), Bool(Truth(VTop)))
    [] t = "cnd" -> C' = Pop1 \o << <<"cnv", n, 0>>, X(IF Truth(VTop) THEN nd.a ELSE nd.b) >> /\ V' = VPop(1)
                    /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
    [] t = "cnl" -> C' = Pop1 \o << L(IF Truth(VTop) THEN nd.a ELSE nd.b) >> /\ V' = VPop(1) /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
    [] t = "cnv" -> Yield(Pop1, VPop(1), Conv(VTop, TypeOf(n)))
    [] t = "asg" -> LET v == Conv(OpB, OpA.t) IN
         IF IsUb(v) \/ ~CanStore(OpA, Len(v.b)) THEN GoUb ELSE YieldM(Pop1, VPop(2), v, Store(OpA, v.b))
    [] t = "opa" -> LET v == Conv(BinOp(nd.o, LoadL(OpA), OpB), OpA.t) IN
         IF IsUb(v) \/ ~CanStore(OpA, Len(v.b)) THEN GoUb ELSE YieldM(Pop1, VPop(2), v, Store(OpA, v.b))
    [] t = "inc" -> LET old == LoadL(VTop)
                        new == Conv(BinOp(IF nd.o \in {"pre+", "post+"} THEN "+" ELSE "-", old, IntVal(1)), VTop.t) IN
         IF IsUb(new) \/ ~CanStore(VTop, Len(new.b)) THEN GoUb
         ELSE YieldM(Pop1, VPop(1), IF nd.o \in {"pre+", "pre-"} THEN new ELSE old, Store(VTop, new.b))

(******************************** calls ***********************************)
Ev == P.tr[ti + 1]
\* argument values in source order, under the function value
CallArgs(k, flip) ==
  LET base == Len(V) - k IN [i \in 1..k |-> IF flip THEN V[base + 1 - i] ELSE V[Len(V) - i]]
\* the stack below a call is: args (evaluated last to first: first arg on top, then function on top of it)
Kth(k, i) == V[Len(V) - i]
FunIx(v) == v.b[1]
NFn == Len(P.fn)

\* bytes agree where the machine knows them
Agree(b, c) == Len(b) = Len(c) /\ \A i \in 1..Len(b) : b[i] = 256 \/ b[i] = c[i]

EnterFn(c, w, f, args) ==       \* suspend (c, w) and run function f
  LET k == Len(args)
      T == P.fn[f].t
      av == [i \in 1..k |-> Conv(args[i], T[3][i])]
      objs == [i \in 1..k |-> nx + i]
      nm == P.fn[f].ps
      sc == [x \in {nm[i] : i \in 1..k} |-> LET i == CHOOSE j \in 1..k : nm[j] = x IN [k |-> "o", o |-> objs[i], t |-> T[3][i]]]
      ms == [o \in {objs[i] : i \in 1..k} |-> av[o - nx].b]
  IN  IF \E i \in 1..k : IsUb(av[i]) THEN GoUb
      ELSE /\ K' = Append(K, [c |-> c, v |-> w, e |-> E, r |-> T[2], o |-> nx])
           /\ C' = << <<"fall", 1, 0>>, <<"s", P.fn[f].b, 0>> >>
           /\ V' = <<>>
           /\ E' = <<E[1], sc>>
           /\ M' = M @@ ms
           /\ nx' = nx + k
           /\ UNCHANGED <<pid, ti, st>>

\* external functions: the event must have been recorded
External(c, w, x, args) ==
  LET T == x.t
      k == Len(args)
      av == [i \in 1..k |-> Conv(args[i], T[3][i])]
  IN  IF \E i \in 1..k : IsUb(av[i]) THEN GoUb
      ELSE IF ti >= Len(P.tr) THEN FALSE
      ELSE IF Ev.f # x.n THEN FALSE
      ELSE CASE x.k = "put" ->          \* records its arguments
                  /\ \A i \in 1..k : Agree(av[i].b, Ev.a[i])
                  /\ C' = c /\ V' = Append(w, VoidVal) /\ ti' = ti + 1
                  /\ UNCHANGED <<pid, E, K, M, nx, st>>
             [] x.k = "id" ->           \* records and returns its first argument
                  /\ \A i \in 1..k : Agree(av[i].b, Ev.a[i])
                  /\ C' = c /\ V' = Append(w, Conv(av[1], T[2])) /\ ti' = ti + 1
                  /\ UNCHANGED <<pid, E, K, M, nx, st>>
             [] x.k = "sum" ->          \* records its arguments, returns the recorded result (any value)
                  /\ \A i \in 1..k : Agree(av[i].b, Ev.a[i])
                  /\ C' = c /\ V' = Append(w, Val(T[2], Ev.r)) /\ ti' = ti + 1
                  /\ UNCHANGED <<pid, E, K, M, nx, st>>
             [] x.k = "dump" ->         \* dump(p, n): records the n bytes at p
                  LET n == ToInt(av[2].b, TRUE)  q == av[1] IN
                  IF ~CanStore(q, n) THEN GoUb
                  ELSE /\ Agree(SubSeq(M[PtrObj(q)], PtrOff(q) + 1, PtrOff(q) + n), Ev.a[1])
                       /\ C' = c /\ V' = Append(w, VoidVal) /\ ti' = ti + 1
                       /\ UNCHANGED <<pid, E, K, M, nx, st>>
             [] x.k = "align" ->        \* align(p, n): records the remainder of p by n, for an n that divides the alignment of the object at p
                  LET n == ToInt(av[2].b, TRUE)  q == av[1] IN
                  IF ~CanStore(q, 1) \/ n < 1 \/ n > 16 THEN GoUb
                  ELSE /\ Agree(FromInt(PtrOff(q) % n, 4), Ev.a[1])
                       /\ C' = c /\ V' = Append(w, VoidVal) /\ ti' = ti + 1
                       /\ UNCHANGED <<pid, E, K, M, nx, st>>
             [] x.k = "puts" ->         \* records the string at its argument
                  LET q == av[1] IN
                  IF ~CanStore(q, 1) THEN GoUb
                  ELSE LET b == SubSeq(M[PtrObj(q)], PtrOff(q) + 1, ObjSize(PtrObj(q)))
                           z == {i \in 1..Len(b) : b[i] = 0} IN
                       IF z = {} \/ (\E i \in 1..Len(b) : b[i] = 256 /\ \A j \in z : i < j) THEN GoUb
                       ELSE LET e == CHOOSE i \in z : \A j \in z : i <= j IN
                         /\ SubSeq(b, 1, e - 1) = Ev.a[1]
                         /\ C' = c /\ V' = Append(w, VoidVal) /\ ti' = ti + 1
                         /\ UNCHANGED <<pid, E, K, M, nx, st>>
             [] x.k = "alloc" ->        \* a fresh zeroed object of n bytes, alive for ever
                  LET n == ToInt(av[1].b, TRUE)
                      o == Heap + Cardinality({y \in DOMAIN M : y >= Heap}) IN
                  IF n = Big \/ n < 0 \/ n > 4096 THEN GoUb
                  ELSE /\ Agree(av[1].b, Ev.a[1])
                       /\ C' = c /\ ti' = ti + 1
                       /\ M' = M @@ (o :> Zero(n))
                       /\ V' = Append(w, Val(T[2], MkPtr(TVoid, o, 0).b))
                       /\ UNCHANGED <<pid, E, K, nx, st>>
             [] x.k = "cb" ->           \* records the rest of its arguments, then calls the first one with them
                  /\ \A i \in 2..k : Agree(av[i].b, Ev.a[i - 1])
                  /\ IF ~IsFunPtr(av[1]) THEN GoUb
                     ELSE LET f == FunIx(av[1]) IN
                        IF f > NFn THEN GoUb
                        ELSE LET FT == P.fn[f].t
                                 fa == [i \in 1..(k - 1) |-> Conv(av[i + 1], FT[3][i])]
                                 objs == [i \in 1..(k - 1) |-> nx + i]
                                 nm == P.fn[f].ps
                             IN  /\ K' = Append(K, [c |-> c, v |-> w, e |-> E, r |-> FT[2], o |-> nx])
                                 /\ C' = << <<"fall", 1, 0>>, <<"s", P.fn[f].b, 0>> >>
                                 /\ V' = <<>>
                                 /\ E' = <<E[1], [y \in {nm[i] : i \in 1..(k - 1)} |->
                                             LET i == CHOOSE j \in 1..(k - 1) : nm[j] = y IN [k |-> "o", o |-> objs[i], t |-> FT[3][i]]]>>
                                 /\ M' = M @@ [o \in {objs[i] : i \in 1..(k - 1)} |-> fa[o - nx].b]
                                 /\ nx' = nx + k - 1
                                 /\ ti' = ti + 1
                                 /\ UNCHANGED <<pid, st>>

DoCall ==
  /\ Top[1] = "call"
  /\ LET n == Top[2]  nd == Nd(n)  k == Len(nd.as)
         flip == Top[3] = 1
         fv == VTop
         \* evaluation order right-to-left: first argument was evaluated last, i.e. is nearest the top
         args == [i \in 1..k |-> IF ~flip THEN V[Len(V) - i] ELSE V[Len(V) - 1 - k + i]]
         w == VPop(k + 1)
     IN  IF ~IsFunPtr(fv) THEN GoUb
         ELSE IF FunIx(fv) <= NFn THEN EnterFn(Pop1, w, FunIx(fv), args)
         ELSE External(Pop1, w, P.ex[FunIx(fv) - NFn], args)

\* leave the current activation with value v
Leave(v) ==
  LET k == K[Len(K)]
      r == IF k.r = TVoid THEN VoidVal ELSE Conv(v, k.r)
  IN  IF IsUb(r) THEN GoUb
      ELSE /\ C' = k.c /\ V' = Append(k.v, r) /\ E' = k.e
           /\ M' = Alive(k.o)
           /\ K' = SubSeq(K, 1, Len(K) - 1)
           /\ UNCHANGED <<pid, nx, ti, st>>
(****************************** statements ********************************)
\* drop the scopes above height h
CutE(h) == SubSeq(E, 1, h)
Frames == {"loop", "forl", "sw", "blk"}

\* index of the innermost control frame that catches a break / continue
RECURSIVE FindUp(_, _)
FindUp(i, tags) == IF C[i][1] \in tags THEN i ELSE FindUp(i - 1, tags)

\* the control items that lead to label node target inside statement s (empty if absent)
RECURSIVE Seek(_, _), SeekIn(_, _, _, _)
SeekIn(ss, i, target, n) ==
  IF i > Len(ss) THEN <<>>
  ELSE LET r == Seek(ss[i], target)
       IN  IF r # <<>> THEN << <<"blk", n, i + 1>> >> \o r ELSE SeekIn(ss, i + 1, target, n)
Seek(s, target) ==
  IF s = 0 THEN <<>>
  ELSE IF s = target THEN << <<"s", s, 0>> >>
  ELSE LET nd == Nd(s) IN
    CASE nd.k = "{" -> SeekIn(nd.ss, 1, target, s)
      [] nd.k \in {"case", "dflt"} -> Seek(nd.b, target)
      [] nd.k = "if" -> LET r == Seek(nd.a, target) IN IF r # <<>> THEN r ELSE Seek(nd.b, target)
      [] nd.k = "while" -> LET r == Seek(nd.b, target) IN IF r # <<>> THEN << <<"loop", s, 0>> >> \o r ELSE <<>>
      [] nd.k = "for" -> LET r == Seek(nd.b, target) IN IF r # <<>> THEN << <<"forl", s, 0>> >> \o r ELSE <<>>
      [] OTHER -> <<>>
\* labels that belong to a switch body (not to a nested switch)
RECURSIVE Labels(_), LabelsSeq(_, _)
LabelsSeq(ss, i) == IF i > Len(ss) THEN <<>> ELSE Labels(ss[i]) \o LabelsSeq(ss, i + 1)
Labels(s) ==
  IF s = 0 THEN <<>>
  ELSE LET nd == Nd(s) IN
    CASE nd.k = "{" -> LabelsSeq(nd.ss, 1)
      [] nd.k \in {"case", "dflt"} -> <<s>> \o Labels(nd.b)
      [] nd.k = "if" -> Labels(nd.a) \o Labels(nd.b)
      [] nd.k \in {"while", "for"} -> Labels(nd.b)
      [] OTHER -> <<>>

Stmt ==
  /\ Top[1] = "s"
  /\ LET n == Top[2]  nd == Nd(n) IN
     CASE nd.k = ";" -> Goto(Pop1)
       [] nd.k = "e" -> Goto(Pop1 \o << <<"drop", n, 0>>, X(nd.a) >>)
       [] nd.k = "{" -> /\ C' = Pop1 \o << <<"end", n, <<Len(E), nx>> >>, <<"blk", n, 1>> >>
                        /\ E' = Append(E, << >>)
                        /\ UNCHANGED <<pid, V, K, M, nx, ti, st>>
       [] nd.k = "if" -> Goto(Pop1 \o << <<"ifc", n, 0>>, X(nd.c) >>)
       [] nd.k = "while" -> Goto(Pop1 \o << <<"loop", n, Len(E)>> >>)
       [] nd.k = "for" -> /\ C' = Pop1 \o << <<"end", n, <<Len(E), nx>> >>, <<"forc", n, Len(E) + 1>> >>
                                     \o (IF nd.i = 0 THEN <<>>
                                         ELSE IF Nd(nd.i).k = "decl" THEN << <<"s", nd.i, 0>> >>
                                         ELSE << <<"drop", n, 0>>, X(nd.i) >>)
                          /\ E' = Append(E, << >>)
                          /\ UNCHANGED <<pid, V, K, M, nx, ti, st>>
       [] nd.k = "sw" -> Goto(Pop1 \o << <<"sw", n, Len(E)>>, <<"swc", n, 0>>, X(nd.c) >>)
       [] nd.k \in {"case", "dflt"} -> Goto(Pop1 \o << <<"s", nd.b, 0>> >>)
       [] nd.k = "break" -> LET i == FindUp(Len(C) - 1, {"loop", "forl", "sw"}) IN
            /\ C' = SubSeq(C, 1, i - 1) /\ E' = CutE(C[i][3])
            /\ UNCHANGED <<pid, V, K, M, nx, ti, st>>
       [] nd.k = "continue" -> LET i == FindUp(Len(C) - 1, {"loop", "forl"}) IN
            /\ C' = SubSeq(C, 1, i) /\ E' = CutE(C[i][3])
            /\ UNCHANGED <<pid, V, K, M, nx, ti, st>>
       [] nd.k = "ret" -> IF nd.a = 0 THEN Leave(VoidVal) ELSE Goto(<< <<"retv", n, 0>>, X(nd.a) >>)
       [] nd.k = "decl" ->
            LET T == DeclT(nd.t, nd.i)
                o == nx + 1
                raw == IF nd.i # 0 /\ ~IsScalar(T) THEN Clean(T) ELSE [j \in 1..Sz(T) |-> 256]
                ls == IF nd.i = 0 THEN <<>> ELSE InitInfo(nd.t, nd.i).ls
                \* items pushed in reverse so that the first leaf is on top
                its == FlattenSeq([j \in 1..Len(ls) |-> LET lf == ls[Len(ls) + 1 - j] IN
                          IF IsArr(lf[2]) THEN << <<"inis", lf[3], <<o, lf[1], DeclT(lf[2], lf[3])>> >> >>
                          ELSE << <<"ini", lf[3], <<o, lf[1], lf[2]>> >>, X(lf[3]) >>])
            IN  /\ C' = Pop1 \o its
                /\ E' = [E EXCEPT ![Len(E)] = (nd.n :> [k |-> "o", o |-> o, t |-> T]) @@ E[Len(E)]]
                /\ M' = M @@ (o :> raw)
                /\ nx' = o
                /\ UNCHANGED <<pid, V, K, ti, st>>
       [] nd.k = "enum" ->
            /\ C' = Pop1
            /\ E' = [E EXCEPT ![Len(E)] = [x \in {nd.cs[i][1] : i \in 1..Len(nd.cs)} |->
                        LET i == CHOOSE j \in 1..Len(nd.cs) : nd.cs[j][1] = x IN [k |-> "e", v |-> IntVal(nd.cs[i][2])]] @@ E[Len(E)]]
            /\ UNCHANGED <<pid, V, K, M, nx, ti, st>>
       [] nd.k = "enx" ->       \* one enumeration constant; nd.p is the one before it
            LET v == IF nd.a # 0 THEN Conv(PV(nd.a), TInt) ELSE IF nd.p # "" THEN BinOp("+", Look(nd.p).v, IntVal(1)) ELSE IntVal(0) IN
            /\ C' = Pop1
            /\ E' = [E EXCEPT ![Len(E)] = (nd.n :> [k |-> "e", v |-> v]) @@ E[Len(E)]]
            /\ UNCHANGED <<pid, V, K, M, nx, ti, st>>
       [] nd.k = "nop" -> Goto(Pop1)     \* declarations of types only

Exec ==
  LET t == Top[1]  n == Top[2]  nd == Nd(n) IN
  CASE t = "drop" -> C' = Pop1 /\ V' = VPop(1) /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
    [] t = "blk" -> IF Top[3] > Len(nd.ss) THEN Goto(Pop1)
                    ELSE Goto(Pop1 \o << <<"blk", n, Top[3] + 1>>, <<"s", nd.ss[Top[3]], 0>> >>)
    [] t = "end" -> /\ C' = Pop1 /\ E' = CutE(Top[3][1]) /\ M' = Alive(Top[3][2])
                    /\ UNCHANGED <<pid, V, K, nx, ti, st>>
    [] t = "ifc" -> /\ C' = Pop1 \o (IF Truth(VTop) THEN << <<"s", nd.a, 0>> >>
                                     ELSE IF nd.b = 0 THEN <<>> ELSE << <<"s", nd.b, 0>> >>)
                    /\ V' = VPop(1) /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
    [] t = "loop" -> Goto(C \o << <<"whc", n, 0>>, X(nd.c) >>)
    [] t = "whc" -> /\ V' = VPop(1)
                    /\ C' = IF Truth(VTop) THEN Pop1 \o << <<"s", nd.b, 0>> >> ELSE SubSeq(C, 1, Len(C) - 2)
                    /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
    [] t = "forc" -> \* test, then body under a "forl" frame
         IF nd.c = 0 THEN Goto(Pop1 \o << <<"forl", n, Top[3]>>, <<"s", nd.b, 0>> >>)
         ELSE Goto(Pop1 \o << <<"fort", n, Top[3]>>, X(nd.c) >>)
    [] t = "fort" -> /\ V' = VPop(1)
                     /\ C' = IF Truth(VTop) THEN Pop1 \o << <<"forl", n, Top[3]>>, <<"s", nd.b, 0>> >> ELSE Pop1
                     /\ UNCHANGED <<pid, E, K, M, nx, ti, st>>
    [] t = "forl" -> Goto(Pop1 \o (IF nd.s = 0 THEN << <<"forc", n, Top[3]>> >>
                                   ELSE << <<"forc", n, Top[3]>>, <<"drop", n, 0>>, X(nd.s) >>))
    [] t = "swc" ->
         LET v == Conv(VTop, Promote(VTop.t))
             ls == Labels(nd.b)
             hit == {i \in 1..Len(ls) : Nd(ls[i]).k = "case" /\ Conv(PV(Nd(ls[i]).v), v.t) = v}
             df == {i \in 1..Len(ls) : Nd(ls[i]).k = "dflt"}
             target == IF hit # {} THEN ls[CHOOSE i \in hit : TRUE] ELSE IF df # {} THEN ls[CHOOSE i \in df : TRUE] ELSE 0
             path == IF target = 0 THEN <<>> ELSE Seek(nd.b, target)
             h == Len(E)
             \* every block entered on the way gets its scope and its end marker
             items == FlattenSeq([i \in 1..Len(path) |->
                         IF path[i][1] = "blk" THEN << <<"end", path[i][2], <<h + Cardinality({j \in 1..(i - 1) : path[j][1] = "blk"}), nx>> >>, path[i] >>
                         ELSE IF path[i][1] \in {"loop", "forl"} THEN << <<path[i][1], path[i][2], h + Cardinality({j \in 1..(i - 1) : path[j][1] = "blk"})>> >>
                         ELSE <<path[i]>>])
         IN  /\ V' = VPop(1)
             /\ C' = Pop1 \o items
             /\ E' = E \o [i \in 1..Cardinality({j \in 1..Len(path) : path[j][1] = "blk"}) |-> << >>]
             /\ UNCHANGED <<pid, K, M, nx, ti, st>>
    [] t = "sw" -> Goto(Pop1)
    [] t = "retv" -> Leave(VTop)
    [] t = "fall" -> \* the end of the function body
         IF K[Len(K)].r = TVoid THEN Leave(VoidVal)
         ELSE IF Len(K) = 1 THEN Leave(IntVal(0))         \* main
         ELSE LET k == K[Len(K)] IN                       \* value indeterminate
              /\ C' = k.c /\ V' = Append(k.v, Val(k.r, [i \in 1..Sz(k.r) |-> 256])) /\ E' = k.e
              /\ M' = Alive(k.o) /\ K' = SubSeq(K, 1, Len(K) - 1)
              /\ UNCHANGED <<pid, nx, ti, st>>
    [] t = "inis" -> LET q == Top[3] IN
         /\ C' = Pop1 /\ M' = PutBytes(M, q[1], q[2], StrInit(q[3], n))
         /\ UNCHANGED <<pid, V, E, K, nx, ti, st>>
    [] t = "ini" -> LET q == Top[3]  v == Conv(VTop, q[3]) IN
         IF IsUb(v) THEN GoUb
         ELSE /\ C' = Pop1 /\ V' = VPop(1) /\ M' = PutBytes(M, q[1], q[2], v.b)
              /\ UNCHANGED <<pid, E, K, nx, ti, st>>
    [] t = "exit" -> \* main has returned: its value is the exit status
         /\ ti < Len(P.tr) /\ Ev.f = "exit" /\ Agree(SubSeq(VTop.b, 1, 1), Ev.a[1])
         /\ ti' = ti + 1 /\ st' = "done" /\ C' = <<>> /\ V' = <<>>
         /\ UNCHANGED <<pid, E, K, M, nx>>

(******************************* behaviour ********************************)
\* constant initializers of globals
GlobalBytes(g) ==
  LET T == DeclT(g.t, g.i)  z == IF g.i = 0 THEN Zero(Sz(T)) ELSE Clean(T)
      ls == IF g.i = 0 THEN <<>> ELSE InitInfo(g.t, g.i).ls
      RECURSIVE fill(_, _)
      fill(b, i) == IF i > Len(ls) THEN b
        ELSE LET lf == ls[i]
                 v == IF IsArr(lf[2]) THEN StrInit(DeclT(lf[2], lf[3]), lf[3]) ELSE Conv(PV(lf[3]), lf[2]).b
             IN  fill([j \in 1..Len(b) |-> IF j > lf[1] /\ j <= lf[1] + Len(v) THEN v[j - lf[1]] ELSE b[j]], i + 1)
  IN  fill(z, 1)

\* enumeration constants at file scope: a number, a literal, an earlier constant, or one more than the one before
RECURSIVE EnumVal(_)
EnumVal(i) == LET e == P.en[i] IN
  CASE e[2] = "n" -> IntVal(e[3])
    [] e[2] = "e" -> Conv(Lits[pid][e[3]], TInt)
    [] e[2] = "v" -> EnumVal(CHOOSE j \in 1..Len(P.en) : P.en[j][1] = e[3])
    [] e[2] = "+" -> BinOp("+", EnumVal(i - 1), IntVal(1))
\* object numbers: string literals first, then the globals
NStr(p) == Len(StrNodes[p])
Init ==
  /\ pid \in 1..NP
  /\ LET ns == NStr(pid)  ng == Len(P.gl)  nf == Len(P.fn)  ne == Len(P.ex) IN
     /\ nx = ns + ng
     /\ E = << [x \in {P.gl[i].n : i \in 1..ng} |->
                  LET i == CHOOSE j \in 1..ng : P.gl[j].n = x IN [k |-> "o", o |-> ns + i, t |-> DeclT(P.gl[i].t, P.gl[i].i)]]
               @@ [x \in {P.fn[i].n : i \in 1..nf} |->
                  LET i == CHOOSE j \in 1..nf : P.fn[j].n = x IN [k |-> "f", i |-> i, t |-> P.fn[i].t]]
               @@ [x \in {P.ex[i].n : i \in 1..ne} |->
                  LET i == CHOOSE j \in 1..ne : P.ex[j].n = x IN [k |-> "f", i |-> nf + i, t |-> P.ex[i].t]]
               @@ [x \in {P.en[i][1] : i \in 1..Len(P.en)} |->
                  LET i == CHOOSE j \in 1..Len(P.en) : P.en[j][1] = x IN [k |-> "e", v |-> EnumVal(i)]] >>
     /\ M = [o \in 1..(ns + ng) |-> IF o <= ns THEN StrBytes(Nd(StrNodes[pid][o]))
                                     ELSE GlobalBytes([P.gl[o - ns] EXCEPT !.t = DeclT(P.gl[o - ns].t, P.gl[o - ns].i)])]
     /\ C = << <<"fall", 1, 0>>, <<"s", P.fn[P.main].b, 0>> >>
     /\ V = <<>>
     /\ K = << [c |-> << <<"exit", 1, 0>> >>, v |-> <<>>, e |-> <<>>, r |-> TInt, o |-> nx] >>
  /\ ti = 0
  /\ st = "run"

ApplyTags == {"bin","un","cast","der","idx","mem","ld","adr","log","bool","cnd","cnl","cnv","asg","opa","inc"}
ExecTags == {"drop","blk","end","ifc","loop","whc","forc","fort","forl","swc","sw","retv","fall","inis","ini","exit"}
Next ==
  /\ st = "run"
  /\ \/ EvalX
     \/ EvalL
     \/ DoCall
     \/ Stmt
     \/ Top[1] \in ApplyTags /\ Apply
     \/ Top[1] \in ExecTags /\ Exec
Spec == Init /\ [][Next]_vars

(**************************** sanity of the machine ***********************)
\* an integer, or the designation (address) of an object of that type
ValueOK(v) == CASE v.t[1] = "i" -> Len(v.b) = ISize(v.t[2]) \/ Len(v.b) = 8
                [] v.t[1] = "v" -> Len(v.b) \in {0, 8}
                [] OTHER -> Len(v.b) = 8
TypeOK ==
  /\ st \in {"run", "done", "ub"}
  /\ \A i \in 1..Len(V) : ValueOK(V[i])
  /\ \A o \in DOMAIN M : \A j \in 1..Len(M[o]) : M[o][j] \in 0..256
  /\ ti <= Len(P.tr)
\* every name in scope designates a live object: scopes and lifetimes agree
ScopeOK == st = "run" => \A i \in 1..Len(E) : \A x \in DOMAIN E[i] : E[i][x].k = "o" => E[i][x].o \in DOMAIN M
\* distinct names in scope never share an object
DisjointOK == st = "run" => \A i \in 1..Len(E), j \in 1..Len(E) : \A x \in DOMAIN E[i], y \in DOMAIN E[j] :
   (E[i][x].k = "o" /\ E[j][y].k = "o" /\ E[i][x].o = E[j][y].o) => i = j /\ x = y
\* how far a trace was followed (diagnosis of rejected traces)
Progress == PrintT(<<"TI", P.id, ti>>)
\* verdicts, read by the conformance driver
Report ==
  /\ (st = "done" /\ ti = Len(P.tr)) => PrintT(<<"ACC", P.id>>)
  /\ (st = "ub") => PrintT(<<"UB", P.id, ti>>)
=============================================================================
