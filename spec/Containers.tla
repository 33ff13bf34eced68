----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The abstract data types behind the compiler's tables and lists: two     *)
(* objects A and B of one kind - finite maps, finite sets, sequences or    *)
(* pairs - and the operations the containers offer. There are no buckets,  *)
(* hash values or capacities here. A behaviour is a history of operations; *)
(* hist records it, and Report emits each history with the contents of     *)
(* both objects after it, which the real containers must reproduce.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Cfg == TLCEval(JsonDeserialize(IOEnv.CT_CONFIG))
\* kind, keys (number of keys), both (operations on B too), max (length), sim (simulation)
Keys == 1..Cfg.keys
Objs == IF Cfg.both THEN {"A", "B"} ELSE {"A"}
Ops == TLCEval({Cfg.ops[i] : i \in 1..Len(Cfg.ops)})

VARIABLES a, b, hist
vars == <<a, b, hist>>

EmptyMap == [k \in {} |-> 0]
Empty == CASE Cfg.kind = "map" -> EmptyMap [] Cfg.kind = "set" -> {} [] Cfg.kind = "vec" -> <<>> [] Cfg.kind = "pair" -> <<0, 0>>
Get(o) == IF o = "A" THEN a ELSE b
Other(o) == IF o = "A" THEN "B" ELSE "A"
Put(o, v) == IF o = "A" THEN a' = v /\ UNCHANGED b ELSE b' = v /\ UNCHANGED a
\* what a user of the objects can see
Row(m) == [k \in Keys |-> IF k \in DOMAIN m THEN m[k] ELSE 0]
Bits(s) == [k \in Keys |-> IF k \in s THEN 1 ELSE 0]
B(x) == IF x THEN 1 ELSE 0
See(u, v) == CASE Cfg.kind = "map" -> <<Row(u), Row(v), <<Cardinality(DOMAIN u), Cardinality(DOMAIN v)>>>>
         [] Cfg.kind = "set" -> <<Bits(u), Bits(v), <<Cardinality(u), Cardinality(v), B(v \subseteq u), B(u \subseteq v), B(u = v)>>>>
         [] OTHER -> <<u, v, <<>>>>
\* in simulation each step is recorded with what it makes visible
Did(op) == hist' = Append(hist, IF Cfg.sim THEN Append(op, See(a', b')) ELSE op)
New == Len(hist) + 1         \* the value stored by this step differs from all earlier ones

(********************************* maps ***********************************)
MapAdd(o, k) == Put(o, [x \in DOMAIN Get(o) \cup {k} |-> IF x = k THEN New ELSE Get(o)[x]]) /\ Did(<<"add", o, k, New>>)
MapRemove(o, k) == Put(o, [x \in DOMAIN Get(o) \ {k} |-> Get(o)[x]]) /\ Did(<<"rem", o, k, 0>>)
MapNext == \E o \in Objs, k \in Keys : ("add" \in Ops /\ MapAdd(o, k)) \/ ("rem" \in Ops /\ MapRemove(o, k))
(********************************* sets ***********************************)
SetNext == \E o \in Objs :
  \/ \E k \in Keys : \/ "add" \in Ops /\ Put(o, Get(o) \cup {k}) /\ Did(<<"add", o, k, 0>>)
                     \/ "rem" \in Ops /\ Put(o, Get(o) \ {k}) /\ Did(<<"rem", o, k, 0>>)
  \/ "and" \in Ops /\ Put(o, Get(o) \cap Get(Other(o))) /\ Did(<<"and", o, 0, 0>>)
  \/ "or" \in Ops /\ Put(o, Get(o) \cup Get(Other(o))) /\ Did(<<"or", o, 0, 0>>)
  \/ "sub" \in Ops /\ Put(o, Get(o) \ Get(Other(o))) /\ Did(<<"sub", o, 0, 0>>)
(******************************* sequences ********************************)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
Idx(s) == -1..(Len(s) + 1)          \* zero-based positions, including bad ones
VecNext == \E o \in Objs : LET s == Get(o) IN
  \/ "push" \in Ops /\ Put(o, Append(s, New)) /\ Did(<<"push", o, New, 0>>)
  \/ "pop" \in Ops /\ s # <<>> /\ Put(o, SubSeq(s, 1, Len(s) - 1)) /\ Did(<<"pop", o, s[Len(s)], 0>>)
  \/ "fill" \in Ops /\ \E n \in {0, Len(s) - 1, Len(s), Len(s) + 1, Len(s) + 3} :
       n >= 0 /\ Put(o, IF n <= Len(s) THEN s ELSE [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE New]) /\ Did(<<"fill", o, n, New>>)
  \/ "set" \in Ops /\ \E i \in Idx(s) :
       Put(o, IF i \in 0..(Len(s) - 1) THEN [s EXCEPT ![i + 1] = New] ELSE s) /\ Did(<<"set", o, i, New>>)
  \/ "ins" \in Ops /\ \E i \in Idx(s) :
       Put(o, IF i \in 0..Len(s) THEN Ins(s, i + 1, New) ELSE s) /\ Did(<<"ins", o, i, New>>)
  \/ "era" \in Ops /\ \E i \in Idx(s) :
       Put(o, IF i \in 0..(Len(s) - 1) THEN Drop(s, i + 1) ELSE s) /\ Did(<<"era", o, i, 0>>)
  \/ "ext" \in Ops /\ (IF o = "A" THEN a' = a \o b /\ b' = <<>> ELSE b' = b \o a /\ a' = <<>>)
       /\ Did(<<"ext", o, 0, 0>>)       \* appends the other sequence and empties it
(********************************* pairs **********************************)
PairNext == \E o \in Objs : LET s == Get(o) IN
  \/ Put(o, <<New, s[2]>>) /\ Did(<<"first", o, New, 0>>)
  \/ Put(o, <<s[1], New>>) /\ Did(<<"second", o, New, 0>>)
  \/ Put(o, <<New, New>>) /\ Did(<<"both", o, New, 0>>)
(******************************* any kind *********************************)
CopyNext == "copy" \in Ops /\ \E o \in Objs : Put(Other(o), Get(o)) /\ Did(<<"copy", o, 0, 0>>)
NewNext == "new" \in Ops /\ \E o \in Objs : Put(o, Empty) /\ Did(<<"new", o, 0, 0>>)

Init == a = Empty /\ b = Empty /\ hist = <<>>
Step == /\ Len(hist) < Cfg.max
        /\ \/ Cfg.kind = "map" /\ MapNext
           \/ Cfg.kind = "set" /\ SetNext
           \/ Cfg.kind = "vec" /\ VecNext
           \/ Cfg.kind = "pair" /\ PairNext
           \/ CopyNext \/ NewNext
\* TLC evaluates invariants on every successor while simulating; this step has only one
End == Cfg.sim /\ Len(hist) = Cfg.max /\ hist' = Append(hist, <<"end", "A", 0, 0>>) /\ UNCHANGED <<a, b>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars

TypeOK == CASE Cfg.kind = "map" -> DOMAIN a \subseteq Keys /\ DOMAIN b \subseteq Keys
            [] Cfg.kind = "set" -> a \subseteq Keys /\ b \subseteq Keys
            [] OTHER -> TRUE
Report == hist # <<>> =>
  IF Cfg.sim THEN (hist[Len(hist)][1] = "end" => PrintT(ToString(<<"S", hist>>)))
  ELSE (Len(hist) = Cfg.max => PrintT(ToString(<<"S", hist, See(a, b)>>)))
=============================================================================
