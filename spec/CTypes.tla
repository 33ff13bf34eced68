------------------------------- MODULE CTypes -------------------------------
(***************************************************************************)
(* The type system of the C subset, for the LP64 x86-64 platform.          *)
(*   <<"v">>            void                                               *)
(*   <<"i", name>>      char int uint long ulong llong ullong              *)
(*   <<"p", T>>         pointer to T                                       *)
(*   <<"a", T, n>>      array of n T (n = -1: size given by initializer)   *)
(*   <<"s", id>>        the id-th structure of the program                 *)
(*   <<"f", R, Ps>>     function                                           *)
(* A structure table ST is a sequence of <<name,type>> member sequences.   *)
(***************************************************************************)
EXTENDS Words

TVoid == <<"v">>
TInt  == <<"i", "int">>
TChar == <<"i", "char">>
TLong == <<"i", "long">>
TULong == <<"i", "ulong">>
Ptr(T) == <<"p", T>>
TUb == <<"ub">>

IsInt(T) == T[1] = "i"
IsPtr(T) == T[1] = "p"
IsArr(T) == T[1] = "a"
IsFun(T) == T[1] = "f"
IsStr(T) == T[1] = "s"
IsScalar(T) == T[1] \in {"i", "p"}

ISize(n) == IF n = "char" THEN 1 ELSE IF n \in {"int", "uint"} THEN 4 ELSE 8
ISigned(n) == n \in {"char", "int", "long", "llong"}
IRank(n) == CASE n = "char" -> 1 [] n \in {"int", "uint"} -> 2 [] n \in {"long", "ulong"} -> 3 [] OTHER -> 4
IUnsigned(n) == CASE n = "int" -> "uint" [] n = "long" -> "ulong" [] n = "llong" -> "ullong" [] OTHER -> n

SignedT(T) == IsInt(T) /\ ISigned(T[2])

RoundUp(x, a) == ((x + a - 1) \div a) * a
Max(a, b) == IF a >= b THEN a ELSE b

RECURSIVE AlignOf(_, _), SizeOf(_, _), MembersAlign(_, _, _), MembersEnd(_, _, _, _)
AlignOf(ST, T) ==
  CASE T[1] = "i" -> ISize(T[2])
    [] T[1] = "p" -> 8
    [] T[1] = "a" -> AlignOf(ST, T[2])
    [] T[1] = "s" -> MembersAlign(ST, ST[T[2]], 1)
    [] OTHER -> 1
MembersAlign(ST, ms, i) ==
  IF i > Len(ms) THEN 1 ELSE Max(AlignOf(ST, ms[i][2]), MembersAlign(ST, ms, i + 1))
\* offset of member number k (k = Len+1: end of the last member)
MembersEnd(ST, ms, i, pos) ==
  IF i > Len(ms) THEN pos
  ELSE MembersEnd(ST, ms, i + 1, RoundUp(pos, AlignOf(ST, ms[i][2])) + SizeOf(ST, ms[i][2]))
SizeOf(ST, T) ==
  CASE T[1] = "i" -> ISize(T[2])
    [] T[1] = "p" -> 8
    [] T[1] = "a" -> (IF T[3] < 0 THEN 0 ELSE T[3] * SizeOf(ST, T[2]))
    [] T[1] = "s" -> RoundUp(MembersEnd(ST, ST[T[2]], 1, 0), AlignOf(ST, T))
    [] OTHER -> 1
RECURSIVE OffsetFrom(_, _, _, _, _)
OffsetFrom(ST, ms, i, pos, k) ==
  LET o == RoundUp(pos, AlignOf(ST, ms[i][2]))
  IN  IF i = k THEN o ELSE OffsetFrom(ST, ms, i + 1, o + SizeOf(ST, ms[i][2]), k)
MemberIndex(ms, name) == CHOOSE i \in 1..Len(ms) : ms[i][1] = name
HasMember(ms, name) == \E i \in 1..Len(ms) : ms[i][1] = name
\* the layout record of a structure: size, alignment, members with offset and type
Layout(ST, sid) ==
  LET ms == ST[sid]
  IN  [sz |-> SizeOf(ST, <<"s", sid>>), al |-> AlignOf(ST, <<"s", sid>>),
       n |-> Len(ms),
       off |-> [i \in 1..Len(ms) |-> OffsetFrom(ST, ms, 1, 0, i)]]

\* integer promotion and the usual arithmetic conversions (C11 6.3.1.1, 6.3.1.8)
Promote(T) == IF IsInt(T) /\ IRank(T[2]) < IRank("int") THEN TInt ELSE T
Common(T, U) ==
  LET a == Promote(T)  b == Promote(U)
      x == a[2]  y == b[2]
  IN  IF x = y THEN a
      ELSE IF ISigned(x) = ISigned(y) THEN (IF IRank(x) >= IRank(y) THEN a ELSE b)
      ELSE LET u == IF ISigned(x) THEN y ELSE x      \* the unsigned one
               s == IF ISigned(x) THEN x ELSE y
           IN  IF IRank(u) >= IRank(s) THEN <<"i", u>>
               ELSE IF ISize(s) > ISize(u) THEN <<"i", s>>
               ELSE <<"i", IUnsigned(s)>>
=============================================================================
