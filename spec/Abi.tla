-------------------------------- MODULE Abi --------------------------------
(***************************************************************************)
(* The calling convention of the platform (System V x86-64) as a machine   *)
(* that runs the instructions of a compiled function abstractly, over all  *)
(* paths. A value is one of                                                *)
(*    a register name - the value that register had on entry               *)
(*    "val"           - a value this function computed or received         *)
(*    "junk"          - whatever a call may have left in a register or     *)
(*                      below the stack pointer, or an undefined register  *)
(* sp and bp are offsets from the stack pointer on entry (the return       *)
(* address is at 0). mem holds the tracked eight-byte slots of the stack.  *)
(* Copying junk is harmless (a save of a dead register); using it in an    *)
(* operation, an address or a comparison is not.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Funs == TLCEval(ndJsonDeserialize(IOEnv.ABI_INPUT))
Code(f) == Funs[f].code
CalleeSaved == {"rbx", "rbp", "r12", "r13", "r14", "r15"}
ArgRegs == {"rdi", "rsi", "rdx", "rcx", "r8", "r9"}
Regs == CalleeSaved \cup ArgRegs \cup {"rax", "r10", "r11"}
Unset == 1000000                 \* rbp is not a frame pointer

VARIABLES f, pc, sp, bp, reg, mem, bad
vars == <<f, pc, sp, bp, reg, mem, bad>>

Init == /\ f \in 1..Len(Funs) /\ pc = 1 /\ sp = 0 /\ bp = Unset
        /\ reg = [r \in Regs |-> IF r \in CalleeSaved THEN r ELSE IF r \in ArgRegs THEN "val" ELSE "junk"]
        /\ mem = [a \in {} |-> "val"]        \* slots that hold something else than "val"
        /\ bad = ""

I == Code(f)[pc]
(****************************** memory ************************************)
Base(l) == IF l[2] = "rsp" THEN sp ELSE bp
Addr(l) == Base(l) + l[3]
Known(l) == l[1] = "m" /\ (l[2] = "rsp" \/ bp # Unset)
\* the aligned slots an access of n bytes at a touches
Slot(a) == (a \div 8) * 8
Touch(a, n) == {Slot(a), Slot(a + n - 1)}
Load(m, a) == IF a \in DOMAIN m THEN m[a] ELSE "val"
LoadN(m, a, n) == LET ts == {Load(m, s) : s \in Touch(a, n)} IN
                  IF Cardinality(ts) = 1 /\ n = 8 /\ a % 8 = 0 THEN CHOOSE t \in ts : TRUE
                  ELSE IF "junk" \in ts THEN "junk" ELSE "val"
Store(m, a, v) == IF v = "val" THEN [x \in DOMAIN m \ {a} |-> m[x]] ELSE [x \in DOMAIN m \cup {a} |-> IF x = a THEN v ELSE m[x]]
StoreN(m, a, n, v) == IF n = 8 /\ a % 8 = 0 THEN Store(m, a, v)
                      ELSE [x \in DOMAIN m \ Touch(a, n) |-> m[x]]
(****************************** values ************************************)
Val(l) == CASE l[1] = "r" -> (IF l[2] \in {"rsp"} THEN "val" ELSE IF l[2] = "rbp" /\ bp # Unset THEN "val" ELSE reg[l[2]])
            [] l[1] = "p" -> (IF l[2] = "rsp" THEN "val" ELSE IF reg[l[2]] = "junk" THEN "junk" ELSE "val")
            [] l[1] = "m" -> (IF Known(l) THEN LoadN(mem, Addr(l), l[4]) ELSE "val")
            [] OTHER -> "val"
Entry(v) == v \in CalleeSaved
Conv(v) == IF v = "junk" THEN "junk" ELSE "val"
\* what is wrong with writing v at l
WriteBad(l) == IF l[1] = "m" /\ Known(l) /\ 0 \in Touch(Addr(l), l[4]) THEN "the return address is overwritten"
               ELSE IF l[1] = "m" /\ Known(l) /\ Addr(l) < sp - 128 THEN "a write below the stack"
               ELSE ""
UseBad(rs) == IF \E i \in 1..Len(rs) : rs[i] \in Regs /\ ~(rs[i] = "rbp" /\ bp # Unset) /\ reg[rs[i]] = "junk"
              THEN "an undefined register is used" ELSE ""
LoadBad(l) == IF l[1] = "m" /\ Val(l) = "junk" THEN "a value lost in a call is used" ELSE ""
First(a, b) == IF a # "" THEN a ELSE b

WriteReg(rg, l, v) == IF l[1] \in {"r", "p"} /\ l[2] \in Regs THEN [rg EXCEPT ![l[2]] = v] ELSE rg
WriteMem(m, l, v) == IF l[1] = "m" /\ Known(l) THEN StoreN(m, Addr(l), l[4], v) ELSE m
BpAfter(l) == IF l[1] \in {"r", "p"} /\ l[2] = "rbp" THEN Unset ELSE bp
GoOn == pc' = pc + 1 /\ UNCHANGED f
Fail(m) == bad' = m

(***************************** instructions *******************************)
Op == /\ I.k = "op"
      /\ LET r1 == WriteReg(reg, I.d, "val") IN reg' = WriteReg(r1, I.d2, "val")
      /\ mem' = WriteMem(WriteMem(mem, I.d, "val"), I.d2, "val")
      /\ bp' = BpAfter(I.d) /\ UNCHANGED sp /\ GoOn
      /\ Fail(First(UseBad(I.r), First(LoadBad(I.s), WriteBad(I.d))))
\* conversions: sign or zero extension and narrow moves
Cv == /\ I.k = "cv"
      /\ reg' = WriteReg(reg, I.d, Conv(Val(I.s)))
      /\ mem' = WriteMem(mem, I.d, Conv(Val(I.s)))
      /\ bp' = BpAfter(I.d) /\ UNCHANGED sp /\ GoOn
      /\ Fail(First(UseBad(I.r), WriteBad(I.d)))
Mov == /\ I.k = "mov"
       /\ IF I.d = <<"r", "rbp">> /\ I.s = <<"r", "rsp">>
          THEN bp' = sp /\ UNCHANGED <<sp, reg, mem>> /\ Fail("")
          ELSE IF I.d = <<"r", "rsp">>
          THEN IF I.s = <<"r", "rbp">> /\ bp # Unset THEN sp' = bp /\ UNCHANGED <<bp, reg, mem>> /\ Fail("")
               ELSE UNCHANGED <<sp, bp, reg, mem>> /\ Fail("the stack pointer is lost")
          ELSE /\ reg' = WriteReg(reg, I.d, Val(I.s))
               /\ mem' = WriteMem(mem, I.d, Val(I.s))
               /\ bp' = BpAfter(I.d) /\ UNCHANGED sp
               /\ Fail(First(UseBad(I.r), WriteBad(I.d)))
       /\ GoOn
Push == /\ I.k = "push" /\ sp' = sp - 8
        \* a pushed frame pointer value that is not the entry value is an ordinary value
        /\ mem' = Store(mem, sp - 8, Val(I.s))
        /\ UNCHANGED <<bp, reg>> /\ GoOn /\ Fail(UseBad(I.r))
Pop == /\ I.k = "pop" /\ sp' = sp + 8
       /\ reg' = WriteReg(reg, I.d, Load(mem, Slot(sp)))
       /\ mem' = WriteMem(mem, I.d, Load(mem, Slot(sp)))
       /\ bp' = BpAfter(I.d) /\ GoOn
       /\ Fail(IF sp >= 0 THEN "more is popped than was pushed" ELSE UseBad(I.r))
Sp == I.k = "sp" /\ sp' = sp + I.n /\ UNCHANGED <<bp, reg, mem>> /\ GoOn /\ Fail(IF sp + I.n > 0 THEN "the stack pointer leaves the frame" ELSE "")
LeaSp == I.k = "leasp" /\ UNCHANGED <<bp, reg, mem>> /\ GoOn
         /\ IF Known(I.s) THEN sp' = Addr(I.s) /\ Fail("") ELSE UNCHANGED sp /\ Fail("the stack pointer is lost")
Leave == /\ I.k = "leave" /\ GoOn /\ UNCHANGED mem
         /\ IF bp = Unset THEN UNCHANGED <<sp, bp, reg>> /\ Fail("leave without a frame")
            ELSE sp' = bp + 8 /\ bp' = Unset /\ reg' = [reg EXCEPT !["rbp"] = Load(mem, Slot(bp))] /\ Fail("")
\* the callee may change every caller-saved register and everything below the stack pointer
Call == /\ I.k = "call"
        /\ reg' = [r \in Regs |-> IF r \in CalleeSaved THEN reg[r] ELSE IF r = "rax" THEN "val" ELSE "junk"]
        /\ mem' = LET below == {a \in DOMAIN mem : a < sp} IN
                  [a \in DOMAIN mem |-> IF a \in below THEN "junk" ELSE mem[a]]
        /\ UNCHANGED <<sp, bp>> /\ GoOn
        /\ Fail(First(UseBad(I.r), IF (sp + 8) % 16 # 0 THEN "a call with a misaligned stack" ELSE ""))
Jmp == I.k = "jmp" /\ pc' = I.t /\ UNCHANGED <<f, sp, bp, reg, mem>> /\ Fail("")
Jcc == I.k = "jcc" /\ pc' \in {I.t, pc + 1} /\ UNCHANGED <<f, sp, bp, reg, mem>> /\ Fail("")
Next == /\ bad = "" /\ pc <= Len(Code(f))
        /\ (Op \/ Cv \/ Mov \/ Push \/ Pop \/ Sp \/ LeaSp \/ Leave \/ Call \/ Jmp \/ Jcc)
Spec == Init /\ [][Next]_vars

\* what the caller relies on at the return
AtRet == (bad = "" /\ pc <= Len(Code(f)) /\ I.k = "ret") =>
           /\ sp = 0
           /\ \A r \in CalleeSaved : reg[r] = r
           /\ bp = Unset
           /\ Load(mem, 0) = "val"
FallsOff == pc > Len(Code(f))
Frame == sp <= 0 /\ sp >= -1000000 /\ sp % 8 = 0
Report == (bad = "" /\ AtRet /\ ~FallsOff /\ Frame)
          \/ PrintT(<<"BAD", Funs[f].id, pc, IF bad # "" THEN bad ELSE IF FallsOff THEN "the function runs past its end" ELSE IF ~Frame THEN "bad stack pointer" ELSE "registers or stack are not restored at the return">>)
=============================================================================
