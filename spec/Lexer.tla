------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The lexical grammar as a machine that reads one character per step.     *)
(* A state is the text read so far, the finished tokens, and the token in  *)
(* progress. Characters are their codes. A text is accepted when the end   *)
(* of input may follow, and then its tokens are Final.                     *)
(*                                                                         *)
(* The machine is checked against the declarative rule (Munch below): the  *)
(* text is blanks and tokens, and no token could have been longer.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Cfg == TLCEval(JsonDeserialize(IOEnv.LX_CONFIG))
\* Cfg.mode "all": every text over Cfg.alphabet up to Cfg.max characters
\* Cfg.mode "given": the texts Cfg.texts (sequences of codes)
Rng(s) == {s[i] : i \in 1..Len(s)}
Alphabet == TLCEval(Rng(Cfg.alphabet))
Words_ == TLCEval(Cfg.keywords)       \* sequences of codes
Puncts_ == TLCEval(Cfg.puncts)
Keywords == TLCEval(Rng(Words_))
Puncts == TLCEval(Rng(Puncts_))

Blank == {32, 9, 10, 11, 12}
NL == 10  DQ == 34  SQ == 39  BS == 92
Digit == 48..57
Oct == 48..55
Hex == Digit \cup (65..70) \cup (97..102)
Letter == (65..90) \cup (97..122) \cup {95}
U == {85, 117}
PunctStart == TLCEval({p[1] : p \in Puncts})
Simple == {39, 34, 63, 92, 97, 98, 102, 110, 114, 116, 118}
SimpleVal(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
                  [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

\* suffixes: u, l, ll in either order, the two l of the same case
Ls == {<<76>>, <<108>>, <<76, 76>>, <<108, 108>>}
Us == {<<85>>, <<117>>}
Suffixes == TLCEval(Ls \cup Us \cup {a \o b : a \in Ls, b \in Us} \cup {a \o b : a \in Us, b \in Ls})

VARIABLES text,   \* characters read
          toks,   \* finished tokens
          st,     \* what is in progress
          src     \* "given" mode: the text being read
vars == <<text, toks, st, src>>

\* tokens: [k |-> kind, a |-> first position, z |-> last, v |-> characters denoted, s |-> suffix]
Idle == [m |-> "idle", a |-> 0, v |-> <<>>, s |-> <<>>, e |-> 0]
At(m, a, v) == [m |-> m, a |-> a, v |-> v, s |-> <<>>, e |-> 0]
Dead == At("dead", 0, <<>>)
Loose == At("loose", 0, <<>>)      \* the token grammar leaves the text open

Kind(s) == CASE s.m = "ident" -> IF s.v \in Keywords THEN "kw" ELSE "id"
             [] s.m \in {"zero", "oct"} -> "oct"
             [] s.m = "dec" -> "dec"
             [] s.m = "hex" -> "hex"
             [] s.m = "punct" -> "p"
             [] OTHER -> s.m
Tok(s, z) == [k |-> Kind(s), a |-> s.a, z |-> z, v |-> s.v, s |-> s.s]

\* the token in progress ends before position i, which holds c
Begin(i, c) ==
  CASE c \in Blank -> Idle
    [] c \in Letter -> At("ident", i, <<c>>)
    [] c = 48 -> At("zero", i, <<c>>)
    [] c \in Digit -> At("dec", i, <<c>>)
    [] c = SQ -> At("chr", i, <<>>)
    [] c = DQ -> At("str", i, <<>>)
    [] c \in PunctStart -> At("punct", i, <<c>>)
    [] OTHER -> Dead
\* result: [t |-> new finished tokens, s |-> state]
Go(s) == [t |-> <<>>, s |-> s]
EndAnd(s, i, c) == [t |-> <<Tok(s, i - 1)>>, s |-> Begin(i, c)]
Add(s, c) == [s EXCEPT !.v = Append(@, c)]
Number(s, i, c, ds) ==
  IF s.s = <<>> /\ c \in ds THEN Go(Add(s, c))
  ELSE IF Append(s.s, c) \in Suffixes THEN Go([s EXCEPT !.s = Append(@, c)])
  ELSE EndAnd(s, i, c)
\* inside quotes q
Quoted(s, i, c, q) ==
  IF c = q THEN IF q = SQ /\ s.v = <<>> THEN Go(Dead) ELSE [t |-> <<Tok(s, i)>>, s |-> Idle]
  ELSE IF c = NL THEN Go(Dead)
  ELSE IF c = BS THEN Go([s EXCEPT !.e = 1])
  ELSE Go(Add(s, c))
LastV(s) == s.v[Len(s.v)]
Put(s, x) == [s EXCEPT !.v[Len(s.v)] = x]
\* e: 0 plain, 1 after the backslash, 2 after \x, 3 one octal digit, 4 two octal digits, 5 hexadecimal digits
Escape(s, i, c, q) ==
  CASE s.e = 1 /\ c \in Oct -> Go([Add(s, c - 48) EXCEPT !.e = 3])
    [] s.e = 1 /\ c = 120 -> Go([s EXCEPT !.e = 2])
    [] s.e = 1 /\ c \in Simple -> Go([Add(s, SimpleVal(c)) EXCEPT !.e = 0])
    [] s.e = 1 -> Go(Dead)
    [] s.e = 2 /\ c \in Hex -> Go([Add(s, HexVal(c)) EXCEPT !.e = 5])
    [] s.e = 2 -> Go(Dead)
    [] s.e = 3 /\ c \in Oct -> Go([Put(s, LastV(s) * 8 + c - 48) EXCEPT !.e = 4])
    [] s.e = 4 /\ c \in Oct -> LET x == LastV(s) * 8 + c - 48 IN IF x > 255 THEN Go(Dead) ELSE Go([Put(s, x) EXCEPT !.e = 0])
    [] s.e = 5 /\ c \in Hex -> LET x == LastV(s) * 16 + HexVal(c) IN IF x > 255 THEN Go(Dead) ELSE Go(Put(s, x))
    [] OTHER -> Quoted([s EXCEPT !.e = 0], i, c, q)
Read(s, i, c) ==
  CASE s.m = "idle" -> Go(Begin(i, c))
    [] s.m = "ident" -> IF c \in Letter \cup Digit THEN Go(Add(s, c)) ELSE EndAnd(s, i, c)
    [] s.m = "zero" -> IF c \in {88, 120} THEN Go([s EXCEPT !.m = "0x"])
                       ELSE IF c \in Oct THEN Go([Add(s, c) EXCEPT !.m = "oct"]) ELSE Number([s EXCEPT !.m = "oct"], i, c, Oct)
    [] s.m = "oct" -> Number(s, i, c, Oct)
    [] s.m = "dec" -> Number(s, i, c, Digit)
    [] s.m = "0x" -> IF c \in Hex THEN Go([s EXCEPT !.m = "hex", !.v = <<c>>]) ELSE Go(Loose)
    [] s.m = "hex" -> Number(s, i, c, Hex)
    [] s.m = "punct" -> IF Append(s.v, c) \in Puncts THEN Go(Add(s, c)) ELSE EndAnd(s, i, c)
    [] s.m = "chr" -> IF s.e = 0 THEN Quoted(s, i, c, SQ) ELSE Escape(s, i, c, SQ)
    [] s.m = "str" -> IF s.e = 0 THEN Quoted(s, i, c, DQ) ELSE Escape(s, i, c, DQ)
    [] OTHER -> Go(s)

Feed(c) ==
  LET r == Read(st, Len(text) + 1, c) IN
  /\ text' = Append(text, c) /\ toks' = toks \o r.t /\ st' = r.s /\ UNCHANGED src

Stuck == st.m \in {"dead", "loose"}
\* what the end of input makes of the state
Verdict == IF st.m \in {"dead", "chr", "str"} THEN "reject" ELSE IF st.m \in {"loose", "0x"} THEN "loose" ELSE "accept"
Final == IF st.m \in {"idle"} THEN toks ELSE Append(toks, Tok(st, Len(text)))

\* constants that no integer type can represent (above 2^64 - 1) are no constants of C
RECURSIVE Strip(_), Over(_, _)
Strip(w) == IF w # <<>> /\ w[1] = 48 THEN Strip(Tail(w)) ELSE w
Max64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
Over(w, m) == w # <<>> /\ (w[1] > m[1] \/ (w[1] = m[1] /\ Over(Tail(w), Tail(m))))
TooBig(t) ==
  LET w == Strip(t.v) IN
  CASE t.k = "hex" -> Len(w) > 16
    [] t.k = "oct" -> Len(w) > 22 \/ (Len(w) = 22 /\ w[1] > 49)
    [] t.k = "dec" -> Len(w) > 20 \/ (Len(w) = 20 /\ Over(w, Max64))
    [] OTHER -> FALSE
Outcome == IF \E j \in 1..Len(Final) : TooBig(Final[j]) THEN "reject" ELSE Verdict

Init == /\ text = <<>> /\ toks = <<>> /\ st = Idle
        /\ IF Cfg.mode = "given" THEN src \in {Cfg.texts[i] : i \in 1..Len(Cfg.texts)} ELSE src = <<>>
Next ==
  IF Cfg.mode = "given" THEN Len(text) < Len(src) /\ Feed(src[Len(text) + 1])
  ELSE Len(text) < Cfg.max /\ ~Stuck /\ \E c \in Alphabet : Feed(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The declarative rule: Is(k, w) says the word w is a token of kind k.     *)
All(w, S, from) == \A j \in from..Len(w) : w[j] \in S
IsNum(w, ds, from) ==      \* digits from position `from`, then perhaps a suffix
  \E n \in from..Len(w) :
    /\ \A j \in from..n : w[j] \in ds
    /\ n = Len(w) \/ SubSeq(w, n + 1, Len(w)) \in Suffixes
\* pieces of quoted text: a word is a sequence of pieces
IsPiece(w, q) ==
  \/ Len(w) = 1 /\ w[1] \notin {q, NL, BS}
  \/ Len(w) >= 2 /\ w[1] = BS /\
     \/ Len(w) = 2 /\ w[2] \in Simple
     \/ Len(w) <= 4 /\ All(w, Oct, 2) /\ (Len(w) = 4 => w[2] <= 51)
     \/ w[2] = 120 /\ Len(w) > 2 /\ All(w, Hex, 3) /\ \A j \in 3..(Len(w) - 2) : w[j] = 48
\* escapes take as many digits as they can
Extends(w, c) == w[1] = BS /\ Len(w) > 1 /\ ((w[2] \in Oct /\ Len(w) < 4 /\ c \in Oct) \/ (w[2] = 120 /\ c \in Hex))
RECURSIVE Pieces(_, _)
Pieces(w, q) == w = <<>> \/ \E n \in 1..Len(w) :
  /\ IsPiece(SubSeq(w, 1, n), q)
  /\ n = Len(w) \/ ~Extends(SubSeq(w, 1, n), w[n + 1])
  /\ Pieces(SubSeq(w, n + 1, Len(w)), q)
IsQuoted(w, q) == Len(w) >= 2 /\ w[1] = q /\ w[Len(w)] = q /\ Pieces(SubSeq(w, 2, Len(w) - 1), q)
Is(w) ==
  \/ w[1] \in Letter /\ All(w, Letter \cup Digit, 1)
  \/ w[1] \in Digit \ {48} /\ IsNum(w, Digit, 1)
  \/ w[1] = 48 /\ IsNum(w, Oct, 1)
  \/ w[1] = 48 /\ Len(w) > 2 /\ w[2] \in {88, 120} /\ IsNum(w, Hex, 3)
  \/ IsQuoted(w, SQ) /\ Len(w) > 2
  \/ IsQuoted(w, DQ)
  \/ w \in Puncts
Munch ==
  /\ \A j \in 1..Len(toks) :
       LET t == toks[j]
           stop == IF j < Len(toks) THEN toks[j + 1].a ELSE IF st.m = "idle" \/ Stuck THEN Len(text) + 1 ELSE st.a IN
       /\ Is(SubSeq(text, t.a, t.z))
       \* no longer token starts here within the text
       /\ \A z \in (t.z + 1)..Len(text) : ~Is(SubSeq(text, t.a, z))
       \* only blanks between tokens
       /\ ~Stuck => \A x \in (t.z + 1)..(stop - 1) : text[x] \in Blank
  \* an accepted text ends with a token that is one
  /\ (Verdict = "accept" /\ st.m # "idle") => Is(SubSeq(text, st.a, Len(text)))
  \* a rejected text has no token at the place where the machine is stuck
  /\ (Verdict = "reject" /\ st.m # "dead") => ~\E z \in st.a..Len(text) : Is(SubSeq(text, st.a, z))
Dense(s) == [j \in 1..Len(s) |-> <<s[j].k, s[j].v, s[j].s>>]
Report ==
  (Cfg.mode = "given" => Len(text) = Len(src)) =>
     PrintT(ToString(<<"X", text, Outcome, IF Outcome = "accept" THEN Dense(Final) ELSE <<>> >>))
=============================================================================
