-------------------------------- MODULE Stmt --------------------------------
(***************************************************************************)
(* The statement grammar of C as a shift-reduce machine, the companion of  *)
(* Grammar.tla. A behaviour reads one statement token per step: a mark     *)
(* (an expression statement), the head of a selection, iteration or        *)
(* labelled statement, else, a jump, or a brace. The stack holds the open  *)
(* constructs; the text of each finished statement has every sub-statement *)
(* in braces, so it no longer depends on the grammar's rules.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Cfg == TLCEval(JsonDeserialize(IOEnv.GR_CONFIG))    \* heads: sequence of tokens, max
Rng(s) == {s[i] : i \in 1..Len(s)}
Heads == TLCEval(Rng(Cfg.heads))

VARIABLES txt, n,
          stk,     \* open constructs, innermost last: [k |-> kind, h |-> head text, b |-> text so far]
          cur      \* <<>> or <<text>>: a statement that may still be continued by else
vars == <<txt, n, stk, cur>>

Braced(s) == "{ " \o s \o " }"
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Close(f, s) == f.h \o " " \o Braced(s)
\* kinds: "{" block, "if" an if without else so far, "el" after else, "lp" loop, "sw" switch, "lb" label
RECURSIVE RedAll(_, _)
RedAll(st, s) ==     \* the statement s is complete and not followed by else
  IF Top(st).k = "{" THEN [st EXCEPT ![Len(st)].b = @ \o " " \o s]
  ELSE RedAll(Pop(st), Close(Top(st), s))
RECURSIVE ToIf(_, _)
ToIf(st, s) ==       \* followed by else: it belongs to the nearest if without one
  IF Top(st).k = "{" THEN <<>>
  ELSE IF Top(st).k = "if" THEN Append(Pop(st), [k |-> "el", h |-> Close(Top(st), s) \o " else", b |-> ""])
  ELSE ToIf(Pop(st), Close(Top(st), s))
Settle == IF cur = <<>> THEN stk ELSE RedAll(stk, cur[1])
InLoop(st) == \E i \in 1..Len(st) : st[i].k = "lp"
InSwitch(st) == \E i \in 1..Len(st) : st[i].k = "sw"

K == ToString(n + 1)
Emit(t) == txt' = txt \o " " \o t /\ n' = n + 1
Open(k, t) == stk' = Append(Settle, [k |-> k, h |-> t, b |-> ""]) /\ cur' = <<>> /\ Emit(t)
Leaf(t) == stk' = Settle /\ cur' = <<t>> /\ Emit(t)

Mark == "m" \in Heads /\ Leaf("m(" \o K \o ");")
Null == ";" \in Heads /\ Leaf(";")
Break == "break" \in Heads /\ (InLoop(Settle) \/ InSwitch(Settle)) /\ Leaf("break;")
Continue == "continue" \in Heads /\ InLoop(Settle) /\ Leaf("continue;")
Return == "return" \in Heads /\ Leaf("return " \o K \o ";")
If == "if" \in Heads /\ Open("if", "if (c(" \o K \o "))")
While == "while" \in Heads /\ Open("lp", "while (c(" \o K \o "))")
For == "for" \in Heads /\ Open("lp", "for (m(" \o K \o "); c(" \o K \o "); m(0))")
Switch == "switch" \in Heads /\ Open("sw", "switch (c(" \o K \o "))")
Case == "case" \in Heads /\ InSwitch(Settle) /\ Open("lb", "case " \o K \o ":")
Else ==
  /\ cur # <<>>
  /\ LET r == ToIf(stk, cur[1]) IN r # <<>> /\ stk' = r
  /\ cur' = <<>> /\ Emit("else")
OpenBlock == "{" \in Heads /\ stk' = Append(Settle, [k |-> "{", h |-> "", b |-> ""]) /\ cur' = <<>> /\ Emit("{")
\* a block is closed only after a complete statement or when empty
CloseBlock ==
  LET s == Settle IN
  /\ Len(s) > 1 /\ Top(s).k = "{"
  /\ stk' = Pop(s) /\ cur' = <<Braced(Top(s).b)>>
  /\ Emit("}")

RECURSIVE Need(_)
Need(s) == IF s = <<>> THEN 0 ELSE (IF Top(s).k = "{" /\ Len(s) > 1 THEN 1 ELSE 0) + Need(Pop(s))
Pending == cur' = <<>> /\ Top(stk').k # "{"
Fits == n' + (IF Pending THEN 1 ELSE 0) + Need(stk') <= Cfg.max

Init == txt = "" /\ n = 0 /\ stk = <<[k |-> "{", h |-> "", b |-> ""]>> /\ cur = <<>>
Next == (Mark \/ Null \/ Break \/ Continue \/ Return \/ If \/ While \/ For \/ Switch \/ Case \/ Else \/ OpenBlock \/ CloseBlock) /\ Fits
Spec == Init /\ [][Next]_vars

TypeOK == /\ n \in 0..Cfg.max /\ Len(stk) >= 1 /\ stk[1].k = "{"
          \* else never follows an if that already has one
          /\ \A i \in 1..Len(stk) : stk[i].k \in {"{", "if", "el", "lp", "sw", "lb"}
Report ==
  (cur # <<>> /\ n >= Cfg.min) =>
    LET s == RedAll(stk, cur[1]) IN
    Len(s) = 1 => PrintT(<<"X", txt, s[1].b, "s">>)
=============================================================================
