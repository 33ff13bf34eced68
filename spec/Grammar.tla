------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The expression grammar of C as a shift-reduce machine.                  *)
(*                                                                         *)
(* A behaviour reads one token per step. The state is the stack of open    *)
(* constructs and the operand just completed, if any. An operand carries   *)
(* the text of its tree with every implied parenthesis written out, and    *)
(* the attributes needed to stay within C's constraints (type, lvalue).    *)
(* A token is enabled only where the grammar allows it, so the reachable   *)
(* states are exactly the viable prefixes over the token alphabet; states  *)
(* in which everything reduces to one operand are the expressions, and     *)
(* Report emits each of them with its fully parenthesised form.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Cfg == TLCEval(JsonDeserialize(IOEnv.GR_CONFIG))
\* Cfg.operands, Cfg.prefix, Cfg.binary, Cfg.assign, Cfg.postfix, Cfg.brackets : sequences of tokens; Cfg.max, Cfg.min
Rng(s) == {s[i] : i \in 1..Len(s)}
Operands == TLCEval(Rng(Cfg.operands))
PrefixOps == TLCEval(Rng(Cfg.prefix))
BinOps == TLCEval(Rng(Cfg.binary))
AsgOps == TLCEval(Rng(Cfg.assign))
PostOps == TLCEval(Rng(Cfg.postfix))
Brackets == TLCEval(Rng(Cfg.brackets))    \* subset of {"(", "[", "f(", "g(", "?"}

VARIABLES txt,   \* the tokens read so far, as text
          n,     \* their number
          stk,   \* open constructs, innermost last
          cur    \* <<>> or <<operand>>
vars == <<txt, n, stk, cur>>

Opd(s, T, l) == [s |-> s, t |-> T, lv |-> l]
Bad == Opd("", "bad", FALSE)
OperandOf(k) ==
  CASE k = "x" \/ k = "y" -> Opd(k, "i", TRUE)
    [] k \in {"1", "sizeof(int)", "sizeof(T)"} -> Opd(k, "i", FALSE)
    [] k = "p" -> Opd(k, "p", TRUE)
    [] k = "s" -> Opd(k, "s", TRUE)
    [] k = "q" -> Opd(k, "q", TRUE)

\* precedence levels of C11 6.5
Prec(op) ==
  CASE op \in {"*", "/", "%"} -> 13
    [] op \in {"+", "-"} -> 12
    [] op \in {"<<", ">>"} -> 11
    [] op \in {"<", ">", "<=", ">="} -> 10
    [] op \in {"==", "!="} -> 9
    [] op = "&" -> 8
    [] op = "^" -> 7
    [] op = "|" -> 6
    [] op = "&&" -> 5
    [] op = "||" -> 4

Casts == {"(int)", "(char)", "(T)"}      \* T is a typedef name
Scalar(T) == T \in {"i", "p", "q"}
BinT(op, A, B) ==
  IF op \in {"&&", "||"} THEN (IF Scalar(A) /\ Scalar(B) THEN "i" ELSE "bad")
  ELSE IF op \in {"<", ">", "<=", ">=", "==", "!="} THEN (IF A = B /\ Scalar(A) THEN "i" ELSE "bad")
  ELSE IF A = "i" /\ B = "i" THEN "i"
  ELSE IF op = "+" /\ ((A = "p" /\ B = "i") \/ (A = "i" /\ B = "p")) THEN "p"
  ELSE IF op = "-" /\ A = "p" /\ B = "i" THEN "p"
  ELSE IF op = "-" /\ A = "p" /\ B = "p" THEN "i"
  ELSE "bad"
AsgT(op, A, B) ==
  IF ~A.lv THEN "bad"
  ELSE IF op = "=" THEN (IF A.t = B.t /\ Scalar(A.t) THEN A.t ELSE "bad")
  ELSE IF A.t = "i" /\ B.t = "i" THEN "i"
  ELSE IF op \in {"+=", "-="} /\ A.t = "p" /\ B.t = "i" THEN "p"
  ELSE "bad"
PreT(op, A) ==   \* <<type, lvalue>>
  CASE op \in {"-", "+", "~"} \cup Casts -> <<IF A.t = "i" THEN "i" ELSE "bad", FALSE>>
    [] op = "!" -> <<IF Scalar(A.t) THEN "i" ELSE "bad", FALSE>>
    [] op \in {"++", "--"} -> <<IF A.lv /\ A.t \in {"i", "p"} THEN A.t ELSE "bad", FALSE>>
    [] op = "*" -> <<IF A.t = "p" THEN "i" ELSE IF A.t = "q" THEN "s" ELSE "bad", TRUE>>
    [] op = "&" -> <<IF ~A.lv THEN "bad" ELSE IF A.t = "i" THEN "p" ELSE IF A.t = "s" THEN "q" ELSE "bad", FALSE>>
    [] op = "sizeof" -> <<IF A.t # "bad" THEN "i" ELSE "bad", FALSE>>

(*************************** stack frames *********************************)
\* <<"pre", op>> <<"bin", op, left>> <<"asg", op, left>> <<"cond", c>> <<"cond2", c, a>>
\* <<"(">> <<"[", base>> <<"call", f, args>>
Bind(f) == CASE f[1] = "pre" -> 14 [] f[1] = "bin" -> Prec(f[2]) [] f[1] = "cond2" -> 3 [] f[1] = "asg" -> 2 [] OTHER -> 0
Close(f, x) ==
  IF x.t = "bad" THEN Bad
  ELSE CASE f[1] = "pre" -> LET r == PreT(f[2], x) IN Opd("(" \o f[2] \o " " \o x.s \o ")", r[1], r[2])
    [] f[1] = "bin" -> Opd("(" \o f[3].s \o " " \o f[2] \o " " \o x.s \o ")", BinT(f[2], f[3].t, x.t), FALSE)
    [] f[1] = "asg" -> Opd("(" \o f[3].s \o " " \o f[2] \o " " \o x.s \o ")", AsgT(f[2], f[3], x), FALSE)
    [] f[1] = "cond2" -> Opd("(" \o f[2].s \o " ? " \o f[3].s \o " : " \o x.s \o ")",
                             IF f[3].t = x.t /\ Scalar(x.t) THEN x.t ELSE "bad", FALSE)
RECURSIVE Red(_, _, _)
Red(s, x, p) ==      \* reduce every construct that binds at least as strongly as p
  IF s = <<>> \/ Bind(s[Len(s)]) < p \/ x.t = "bad" THEN [s |-> s, x |-> x]
  ELSE Red(SubSeq(s, 1, Len(s) - 1), Close(s[Len(s)], x), p)
TopIs(s, ks) == s # <<>> /\ s[Len(s)][1] \in ks
PopS(s) == SubSeq(s, 1, Len(s) - 1)

(******************************* steps ************************************)
Emit(k) == txt' = (IF txt = "" THEN k ELSE txt \o " " \o k) /\ n' = n + 1
Push(f) == stk' = Append(stk, f)

ShiftOperand == \E k \in Operands : cur = <<>> /\ cur' = <<OperandOf(k)>> /\ UNCHANGED stk /\ Emit(k)
ShiftPrefix == \E k \in PrefixOps :
  /\ cur = <<>>
  \* the operand of ++, -- and sizeof is a unary-expression, not a cast-expression
  /\ k \in Casts => ~(TopIs(stk, {"pre"}) /\ stk[Len(stk)][2] \in {"++", "--", "sizeof"})
  /\ Push(<<"pre", k>>) /\ UNCHANGED cur /\ Emit(k)
ShiftOpen == \E k \in Brackets \cap {"(", "f(", "g("} :
  /\ cur = <<>>
  /\ Push(CASE k = "(" -> <<"(">> [] k = "f(" -> <<"call", "f", <<>>>> [] k = "g(" -> <<"call", "g", <<>>>>)
  /\ UNCHANGED cur /\ Emit(k)
ShiftBin == \E k \in BinOps :
  /\ cur # <<>>
  /\ LET r == Red(stk, cur[1], Prec(k)) IN
     /\ r.x.t # "bad" /\ r.x.t # "s"
     /\ stk' = Append(r.s, <<"bin", k, r.x>>)
  /\ cur' = <<>> /\ Emit(k)
ShiftAsg == \E k \in AsgOps :
  /\ cur # <<>>
  /\ LET r == Red(stk, cur[1], 14) IN
     /\ r.x.lv /\ r.x.t \in {"i", "p", "q"}
     /\ r.s = <<>> \/ TopIs(r.s, {"(", "[", "call", "asg", "cond"})
     /\ stk' = Append(r.s, <<"asg", k, r.x>>)
  /\ cur' = <<>> /\ Emit(k)
ShiftPost == \E k \in PostOps :
  /\ cur # <<>>
  /\ LET x == cur[1] IN
     \/ /\ k \in {"++", "--"} /\ x.lv /\ x.t \in {"i", "p"}
        /\ cur' = <<Opd("(" \o x.s \o " " \o k \o ")", x.t, FALSE)>>
     \/ /\ k = ".m" /\ x.t = "s" /\ cur' = <<Opd("(" \o x.s \o " . m)", "i", TRUE)>>
     \/ /\ k = "->m" /\ x.t = "q" /\ cur' = <<Opd("(" \o x.s \o " -> m)", "i", TRUE)>>
  /\ UNCHANGED stk /\ Emit(k)
ShiftIndex ==
  /\ "[" \in Brackets /\ cur # <<>> /\ cur[1].t = "p"
  /\ Push(<<"[", cur[1]>>) /\ cur' = <<>> /\ Emit("[")
ShiftQuestion ==
  /\ "?" \in Brackets /\ cur # <<>>
  /\ LET r == Red(stk, cur[1], 4) IN
     /\ Scalar(r.x.t)
     /\ stk' = Append(r.s, <<"cond", r.x>>)
  /\ cur' = <<>> /\ Emit("?")
ShiftColon ==
  /\ cur # <<>>
  /\ LET r == Red(stk, cur[1], 2) IN
     /\ r.x.t # "bad" /\ TopIs(r.s, {"cond"})
     /\ stk' = Append(PopS(r.s), <<"cond2", r.s[Len(r.s)][2], r.x>>)
  /\ cur' = <<>> /\ Emit(":")
ShiftComma ==
  /\ cur # <<>>
  /\ LET r == Red(stk, cur[1], 1) IN
     /\ r.x.t = "i" /\ TopIs(r.s, {"call"})
     /\ LET f == r.s[Len(r.s)] IN
        /\ f[2] = "g" /\ f[3] = <<>>
        /\ stk' = Append(PopS(r.s), <<"call", "g", <<r.x>>>>)
  /\ cur' = <<>> /\ Emit(",")
ShiftClose ==
  /\ cur # <<>>
  /\ LET r == Red(stk, cur[1], 1) IN
     /\ r.x.t # "bad" /\ r.s # <<>>
     /\ stk' = PopS(r.s)
     /\ LET f == r.s[Len(r.s)] IN
        \/ f[1] = "(" /\ cur' = <<r.x>> /\ Emit(")")
        \/ f[1] = "[" /\ r.x.t = "i" /\ cur' = <<Opd("(" \o f[2].s \o " [ " \o r.x.s \o " ])", "i", TRUE)>> /\ Emit("]")
        \/ f[1] = "call" /\ r.x.t = "i" /\ f[2] = "f" /\ cur' = <<Opd("(f( " \o r.x.s \o " ))", "i", FALSE)>> /\ Emit(")")
        \/ f[1] = "call" /\ r.x.t = "i" /\ f[2] = "g" /\ f[3] # <<>>
           /\ cur' = <<Opd("(g( " \o f[3][1].s \o " , " \o r.x.s \o " ))", "i", FALSE)>> /\ Emit(")")

\* tokens still needed to complete what is open
RECURSIVE Need(_, _)
Need(s, i) == IF i > Len(s) THEN 0
  ELSE (CASE s[i][1] \in {"(", "["} -> 1 [] s[i][1] = "cond" -> 2 [] s[i][1] = "call" -> (IF s[i][2] = "g" /\ s[i][3] = <<>> THEN 3 ELSE 1) [] OTHER -> 0)
       + Need(s, i + 1)
Fits == n' + (IF cur' = <<>> THEN 1 ELSE 0) + Need(stk', 1) <= Cfg.max

Init == txt = "" /\ n = 0 /\ stk = <<>> /\ cur = <<>>
Next == /\ \/ ShiftOperand \/ ShiftPrefix \/ ShiftOpen \/ ShiftBin \/ ShiftAsg \/ ShiftPost \/ ShiftIndex
           \/ ShiftQuestion \/ ShiftColon \/ ShiftComma \/ ShiftClose
        /\ Fits
Spec == Init /\ [][Next]_vars

\* every reachable state is consistent
TypeOK == /\ n \in 0..Cfg.max
          /\ cur # <<>> => cur[1].t \in {"i", "p", "q", "s"}
          /\ \A i \in 1..Len(stk) : stk[i][1] \in {"pre", "bin", "asg", "cond", "cond2", "(", "[", "call"}
          \* binding strength increases up the stack inside one bracket
          /\ \A i \in 1..(Len(stk) - 1) :
               (stk[i][1] = "bin" /\ stk[i + 1][1] = "bin") => Prec(stk[i][2]) < Prec(stk[i + 1][2])
Report ==
  cur # <<>> /\ n >= Cfg.min =>
    LET r == Red(stk, cur[1], 1) IN
    (r.s = <<>> /\ r.x.t \in {"i", "p", "q"}) => PrintT(<<"X", txt, r.x.s, r.x.t>>)
=============================================================================
