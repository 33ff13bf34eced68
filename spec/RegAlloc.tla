------------------------------ MODULE RegAlloc ------------------------------
(***************************************************************************)
(* Soundness of register assignment. The input is, per function, the       *)
(* instruction list the compiler produced: for each instruction its kind,  *)
(* its jump target, and its register operands as pairs of the temporary    *)
(* they named before the assignment and the machine register after it.     *)
(*                                                                         *)
(* A behaviour picks one definition of one temporary and follows its value *)
(* along any path of the control-flow graph that still leads to a use of   *)
(* it. w is the set of registers the value is in. Any other write to a register destroys the value there. At *)
(* every use that the definition reaches, the register the instruction     *)
(* reads must still hold the value. This is exactly the statement that no  *)
(* needed value is ever overwritten, for all paths of the function.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Funs == TLCEval(ndJsonDeserialize(IOEnv.RA_INPUT))
\* Funs[f] = [id, n (number of registers), code]; code[i] = [k, t, d, u, l]
\* k: "ins" "jmp" "jcc" "lab" "call" "leave"; t: index of the target or 0; d: <<temporary, register>> or <<>>; u: sequence of such pairs
Code(f) == Funs[f].code
Succ(g, i) ==
  LET c == Code(g)[i] IN
  (IF c.k \in {"jmp", "jcc"} THEN {c.t} ELSE {}) \cup (IF c.k # "jmp" /\ i < Len(Code(g)) THEN {i + 1} ELSE {})

(* LiveAt(g, i): the temporaries a use of which can be reached from i before another definition *)
UseSet(g, i) == {Code(g)[i].u[j][1] : j \in 1..Len(Code(g)[i].u)}
DefSet(g, i) == IF Code(g)[i].d = <<>> THEN {} ELSE {Code(g)[i].d[1]}
(* The input carries them as code[i].l; any solution of these inequalities contains the least one. *)
LiveAt(g, i) == {Code(g)[i].l[j] : j \in 1..Len(Code(g)[i].l)}
ASSUME LivenessHint == \A g \in 1..Len(Funs) : \A i \in 1..Len(Code(g)) :
  UseSet(g, i) \cup (UNION {LiveAt(g, j) : j \in Succ(g, i)} \ DefSet(g, i)) \subseteq LiveAt(g, i)

VARIABLES f, pc,
          v,      \* the temporary followed, -1 before one is picked
          w       \* the registers that hold its value
vars == <<f, pc, v, w>>
Regs(g) == 0..(Funs[g].n - 1)

Init == /\ f \in 1..Len(Funs)
        /\ pc \in {i \in 1..Len(Code(f)) : Code(f)[i].d # <<>> }
        /\ v = -1 /\ w = {}
\* the picked definition takes place
Define == /\ v = -1
          /\ v' = Code(f)[pc].d[1] /\ w' = {Code(f)[pc].d[2]}
          /\ pc' \in {i \in Succ(f, pc) : v' \in LiveAt(f, i)} /\ UNCHANGED f
Follow == /\ v # -1
          /\ LET d == Code(f)[pc].d IN
             /\ d # <<>> => d[1] # v                    \* another definition of v ends the reach of this one
             /\ w' = IF d = <<>> THEN w ELSE w \ {d[2]}
          /\ pc' \in {i \in Succ(f, pc) : v \in LiveAt(f, i)} /\ UNCHANGED <<f, v>>
Next == Define \/ Follow
Spec == Init /\ [][Next]_vars

InRange == v # -1 => w \subseteq Regs(f)
\* a use of v reads a register that still holds it
Intact == v # -1 => \A j \in 1..Len(Code(f)[pc].u) :
            LET u == Code(f)[pc].u[j] IN u[1] = v => u[2] \in w
Report == (InRange /\ Intact) \/ PrintT(<<"BAD", Funs[f].id, pc, v>>)
=============================================================================
