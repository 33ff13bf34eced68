------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The command as a transition system over a small file system. A          *)
(* behaviour is a history of edits (somebody puts or removes a file) and   *)
(* invocations of the command, alone or two at a time. The state keeps,    *)
(* for every path, what is there; an invocation either replaces exactly    *)
(* one file, the assembly next to its source, or changes nothing.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Cfg == TLCEval(JsonDeserialize(IOEnv.DR_CONFIG))
Rng(s) == {s[i] : i \in 1..Len(s)}
(* Cfg.paths      path strings                     Cfg.frozen  paths in a directory where nothing can be created
   Cfg.focus      sequences <<path, entries for it, entries for its target>>: the initial states
   Cfg.args       argument lists                   Cfg.puts    <<path, entry>> pairs somebody may write
   Cfg.pairs      pairs of argument lists run at the same time
   Cfg.max        length of histories              Cfg.min     shortest history reported               *)
Paths == TLCEval(Rng(Cfg.paths))
Frozen == TLCEval(Rng(Cfg.frozen))
Valid == TLCEval(Rng(Cfg.valid))       \* contents that are valid programs

\* an entry is a string: "-" nothing, "D" a directory, "F" a device that is always full,
\* "r:<content>" a file that cannot be written, "n:<content>" one that cannot be read, "f:<content>" any other file
Pre(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Drop(s, n) == IF Len(s) <= n THEN "" ELSE SubSeq(s, n + 1, Len(s))
IsFile(e) == Len(e) > 1
Content(e) == Drop(e, 2)
Readable(e) == IsFile(e) /\ Pre(e, 2) # "n:"
WritableFile(e) == IsFile(e) /\ Pre(e, 2) # "r:"

\* an argument is a way to the directory and a path: <<way, path>>
EndsInC(p) == Len(p) >= 2 /\ SubSeq(p, Len(p) - 1, Len(p)) = ".c"
Target(p) == SubSeq(p, 1, Len(p) - 1) \o "s"
Asm(c) == "f:S" \o c

Fine(fs, args) ==
  /\ Len(args) = 1
  /\ LET p == args[1][2] IN p \in Paths /\ EndsInC(p) /\ Readable(fs[p]) /\ Content(fs[p]) \in Valid
CanWrite(fs, t) == IF fs[t] = "-" THEN t \notin Frozen ELSE WritableFile(fs[t])
\* the outcome: exit status zero or not, and the file system
Ok(fs, args) == Fine(fs, args) /\ CanWrite(fs, Target(args[1][2]))
Effect(fs, args) ==
  IF Ok(fs, args)
  THEN LET t == Target(args[1][2]) IN
       \* writing keeps the permissions of a file that is there
       [fs EXCEPT ![t] = (IF IsFile(@) THEN Pre(@, 2) ELSE "f:") \o "S" \o Content(fs[args[1][2]])]
  ELSE fs

VARIABLES fs, hist, done
vars == <<fs, hist, done>>
Start == [p \in Paths |-> IF p \in DOMAIN Cfg.start THEN Cfg.start[p] ELSE "-"]
Init ==
  /\ IF Cfg.focus = <<>> THEN fs = Start
     ELSE \E f \in Rng(Cfg.focus) : \E e \in Rng(f[2]), t \in Rng(f[3]) :
            fs = [p \in Paths |-> IF p = f[1] THEN e ELSE IF p = f[4] THEN t ELSE Start[p]]
  /\ hist = <<<<"init", <<>>, <<>>, fs>>>>
  /\ done = FALSE
Log(op, what, codes) == hist' = Append(hist, <<op, what, codes, [p \in Paths |-> fs'[p]]>>)
Invoke == \E a \in Rng(Cfg.args) :
  /\ fs' = Effect(fs, a)
  /\ Log("run", <<a>>, <<Ok(fs, a)>>) /\ UNCHANGED done
\* invocations about different files do not meet
Both == \E q \in Rng(Cfg.pairs) :
  /\ fs' = Effect(Effect(fs, q[1]), q[2])
  /\ Log("both", q, <<Ok(fs, q[1]), Ok(fs, q[2])>>) /\ UNCHANGED done
Put == \E q \in Rng(Cfg.puts) :
  /\ fs[q[1]] # q[2]
  /\ fs' = [fs EXCEPT ![q[1]] = q[2]]
  /\ Log("put", q, <<>>) /\ UNCHANGED done
Stop == Len(hist) > Cfg.max /\ ~done /\ done' = TRUE /\ UNCHANGED <<fs, hist>>
Next == \/ Len(hist) <= Cfg.max /\ (Invoke \/ Both \/ Put)
        \/ Stop
Spec == Init /\ [][Next]_vars

(* what the property says, checked over all behaviours of the model *)
Sources == {p \in Paths : EndsInC(p)}
Frame ==  \* an invocation changes at most the assembly of its argument, and only when it succeeds
  [][hist' # hist /\ hist'[Len(hist')][1] = "run" =>
       LET h == hist'[Len(hist')] IN
       /\ (fs' # fs => h[3][1])
       /\ \A p \in Paths : fs'[p] # fs[p] => p = Target(h[2][1][1][2])
       /\ \A p \in Sources : fs'[p] = fs[p]]_vars
\* two invocations at a time have the same effect in either order
Commute == \A q \in Rng(Cfg.pairs) : Effect(Effect(fs, q[1]), q[2]) = Effect(Effect(fs, q[2]), q[1])
\* running again changes nothing
Idempotent == \A a \in Rng(Cfg.args) : Effect(Effect(fs, a), a) = Effect(fs, a)
Row(f) == [i \in 1..Len(Cfg.paths) |-> f[Cfg.paths[i]]]
Report == done =>
  PrintT(ToString(<<"X", [i \in 1..Len(hist) |-> <<hist[i][1], hist[i][2], hist[i][3], Row(hist[i][4])>>]>>))
=============================================================================
