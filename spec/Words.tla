------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width machine integers as little-endian sequences of bytes.       *)
(* TLC's integers are 32 bits wide, so no machine word is ever held in one *)
(* TLA+ integer: a word of n bytes is a sequence in (0..255)^n and every   *)
(* operation below is the schoolbook algorithm on those digits.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Bitwise

Zero(n) == [i \in 1..n |-> 0]

\* the n-byte word of the (small) TLA+ integer x, two's complement
FromInt(x, n) ==
  LET q[i \in 1..n] == IF i = 1 THEN x ELSE q[i-1] \div 256
  IN  [i \in 1..n |-> q[i] % 256]

IsNeg(a) == a[Len(a)] >= 128
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0

\* resize to n bytes, filling with the sign (sg) or with zero
Resize(a, n, sg) ==
  LET m == Len(a)
      fill == IF sg /\ IsNeg(a) THEN 255 ELSE 0
  IN  [i \in 1..n |-> IF i <= m THEN a[i] ELSE fill]

\* digits with carries (each col[i] < 2^23), reduced mod 256^n
RECURSIVE Norm(_, _, _, _)
Norm(col, i, c, acc) ==
  IF i > Len(col) THEN acc
  ELSE LET s == col[i] + c IN Norm(col, i + 1, s \div 256, Append(acc, s % 256))

Add(a, b) == Norm([i \in 1..Len(a) |-> a[i] + b[i]], 1, 0, <<>>)
Comp(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Neg(a) == Norm(Comp(a), 1, 1, <<>>)
Sub(a, b) == Norm([i \in 1..Len(a) |-> a[i] + 255 - b[i]], 1, 1, <<>>)

RECURSIVE ConvSum(_, _, _, _)
ConvSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + ConvSum(a, b, k, i + 1)
Mul(a, b) == Norm([k \in 1..Len(a) |-> ConvSum(a, b, k, 1)], 1, 0, <<>>)

\* unsigned comparison: -1, 0, 1
RECURSIVE UCmpFrom(_, _, _)
UCmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE UCmpFrom(a, b, i - 1)
UCmp(a, b) == UCmpFrom(a, b, Len(a))
SCmp(a, b) == IF IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1) ELSE UCmp(a, b)

\* a * 256 + d, keeping one digit more
ShiftIn(r, d) == [i \in 1..Len(r) |-> IF i = 1 THEN d ELSE r[i-1]]
MulDigit(b, q) == Norm([i \in 1..Len(b) |-> b[i] * q], 1, 0, <<>>)
\* largest q in lo..hi with q*b <= r   (b, r of equal length, b has a spare top digit)
RECURSIVE TrialDigit(_, _, _, _)
TrialDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF UCmp(MulDigit(b, mid), r) <= 0 THEN TrialDigit(r, b, mid, hi)
                                             ELSE TrialDigit(r, b, lo, mid - 1)
RECURSIVE DivLoop(_, _, _, _, _)
DivLoop(a, b, i, r, q) ==     \* digits i..1 of a still to bring down
  IF i = 0 THEN [q |-> q, r |-> r]
  ELSE LET r1 == ShiftIn(r, a[i])
           d  == IF UCmp(b, r1) > 0 THEN 0 ELSE TrialDigit(r1, b, 1, 255)
           r2 == IF d = 0 THEN r1 ELSE Sub(r1, MulDigit(b, d))
       IN  DivLoop(a, b, i - 1, r2, [q EXCEPT ![i] = d])
\* unsigned quotient and remainder, b # 0
UDivMod(a, b) ==
  LET n == Len(a)
      w == DivLoop(a, Append(b, 0), n, Zero(n + 1), Zero(n))
  IN  [q |-> w.q, r |-> SubSeq(w.r, 1, n)]
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
\* signed, truncating towards zero
SDivMod(a, b) ==
  LET w == UDivMod(Abs(a), Abs(b))
  IN  [q |-> IF IsNeg(a) # IsNeg(b) THEN Neg(w.q) ELSE w.q,
       r |-> IF IsNeg(a) THEN Neg(w.r) ELSE w.r]

AndW(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
OrW(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
XorW(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

Pow2(k) == 2 ^ k
\* shift left by s bits, 0 <= s < 8*Len(a)
Shl(a, s) ==
  LET n == Len(a)  by == s \div 8  bi == s % 8
      lo(i) == IF i >= 1 /\ i <= n THEN a[i] ELSE 0
  IN  [i \in 1..n |-> ((lo(i - by) * Pow2(bi)) % 256) + (lo(i - by - 1) \div Pow2(8 - bi))]
\* shift right, filling with f (0 or 255)
Shr(a, s, f) ==
  LET n == Len(a)  by == s \div 8  bi == s % 8
      hi(i) == IF i <= n THEN a[i] ELSE f
  IN  [i \in 1..n |-> (hi(i + by) \div Pow2(bi)) + ((hi(i + by + 1) * Pow2(8 - bi)) % 256)]

\* the TLA+ integer of a word that is known to be small; Big if it is not in -2^23..2^23
Big == 99999999
ToInt(a, sg) ==
  LET n == Len(a)
      neg == sg /\ IsNeg(a)
      m == IF neg THEN Neg(a) ELSE a
      small == \A i \in 1..n : i <= 3 \/ m[i] = 0
      v == m[1] + (IF n >= 2 THEN 256 * m[2] ELSE 0) + (IF n >= 3 THEN 65536 * m[3] ELSE 0)
  IN  IF ~small \/ v >= 8388608 THEN Big ELSE IF neg THEN -v ELSE v
=============================================================================
