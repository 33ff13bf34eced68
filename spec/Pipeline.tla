------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Compilation as a pipeline of phases, and the histories a user may see.  *)
(* A compilation of a text moves through the phases; any phase up to the   *)
(* allocation of registers may reject the text with a diagnostic; the last *)
(* one writes the assembly. Nothing else can happen: every compilation     *)
(* ends, in "ok" or in "reject". What happens is a function of the text    *)
(* alone, whatever the build, the directory or the environment: `fate`     *)
(* is chosen once per text and kept.                                       *)
(*                                                                         *)
(* A recorded history is a sequence of observations; it is accepted when   *)
(* each observation is the end of a compilation this system allows.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Hist == TLCEval(ndJsonDeserialize(IOEnv.PL_INPUT))     \* one history per text: [id, obs]
N == Len(Hist)
Phases == <<"reader", "lexer", "parser", "resolver", "generator", "allocator", "writer">>
Rejecting == {"reader", "lexer", "parser", "resolver", "generator", "allocator"}

VARIABLES h,      \* the text
          k,      \* observations explained so far
          ph,     \* the phase of the compilation in progress, 0 between compilations
          fate    \* "none" before the first end; then <<"ok", assembly>> or <<"reject", phase>>
vars == <<h, k, ph, fate>>
Obs == Hist[h].obs
Cur == Obs[k + 1]
Init == h \in 1..N /\ k = 0 /\ ph = 0 /\ fate = <<"none", "">>
Begin == ph = 0 /\ k < Len(Obs) /\ ph' = 1 /\ UNCHANGED <<h, k, fate>>
Advance == /\ ph > 0 /\ ph < Len(Phases)
           /\ fate[1] = "reject" => fate[2] # Phases[ph]
           /\ ph' = ph + 1 /\ UNCHANGED <<h, k, fate>>
\* a rejection: a diagnostic, exit status 1, no assembly
Reject == /\ ph > 0 /\ Phases[ph] \in Rejecting
          /\ fate \in {<<"none", "">>, <<"reject", Phases[ph]>>}
          /\ Cur.end = "exit1" /\ Cur.diag /\ ~Cur.wrote /\ Cur.phase \in {Phases[ph], "?"}
          /\ fate' = <<"reject", Phases[ph]>> /\ ph' = 0 /\ k' = k + 1 /\ UNCHANGED h
\* success: exit status 0, assembly, nothing else
Finish == /\ ph = Len(Phases)
          /\ Cur.end = "exit0" /\ ~Cur.diag /\ Cur.wrote
          /\ fate[1] = "none" \/ fate = <<"ok", Cur.asm>>
          /\ fate' = <<"ok", Cur.asm>> /\ ph' = 0 /\ k' = k + 1 /\ UNCHANGED h
Next == Begin \/ Advance \/ Reject \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == k \in 0..Len(Obs) /\ ph \in 0..Len(Phases)
\* one fate per text
Same == [][fate[1] # "none" => fate' = fate]_vars
\* every compilation ends: from every phase some end is a step of the system (checked on the model without a history
\* by the bound on ph); a history is explained when all its observations are consumed
Report == (ph = 0 /\ k = Len(Obs)) => PrintT(<<"ACC", Hist[h].id>>)
=============================================================================
