---- MODULE WordsTest ----
EXTENDS Words, TLC
\* exhaustive on one-byte words against TLA+ integers
V(a) == a[1]
S(a) == IF a[1] >= 128 THEN a[1]-256 ELSE a[1]
B == {<<i>> : i \in 0..255}
TDiv(x,y) == LET q == (IF x<0 THEN -x ELSE x) \div (IF y<0 THEN -y ELSE y) IN IF (x<0)#(y<0) THEN -q ELSE q
ASSUME \A a \in B, b \in B :
  /\ Add(a,b) = <<(V(a)+V(b)) % 256>>
  /\ Sub(a,b) = <<(V(a)-V(b)) % 256>>
  /\ Mul(a,b) = <<(V(a)*V(b)) % 256>>
  /\ UCmp(a,b) = (IF V(a)<V(b) THEN -1 ELSE IF V(a)>V(b) THEN 1 ELSE 0)
  /\ SCmp(a,b) = (IF S(a)<S(b) THEN -1 ELSE IF S(a)>S(b) THEN 1 ELSE 0)
  /\ (V(b)#0 => LET w==UDivMod(a,b) IN w.q = <<V(a) \div V(b)>> /\ w.r = <<V(a) % V(b)>>)
  /\ (V(b)#0 => LET w==SDivMod(a,b) IN w.q = <<TDiv(S(a),S(b)) % 256>> /\ w.r = <<(S(a)-TDiv(S(a),S(b))*S(b))%256>>)
ASSUME \A a \in B, s \in 0..7 : Shl(a,s) = <<(V(a)*2^s)%256>> /\ Shr(a,s,0) = <<V(a) \div 2^s>> /\ Shr(a,s,IF V(a)>=128 THEN 255 ELSE 0) = <<(S(a) \div 2^s)%256>>
\* ring laws and division identity on wide words
W == {<<0,0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,255,255>>, <<255,255,255,255,0,0,0,0>>, <<0,0,0,0,0,0,0,128>>,
      <<255,255,255,255,255,255,255,127>>, <<7,200,13,99,1,250,3,9>>, <<0,1,0,0,0,0,0,0>>, <<1,2,3,4,5,6,7,8>>, <<10,0,0,0,0,0,0,255>>}
ASSUME \A a \in W, b \in W :
  /\ Sub(Add(a,b),b) = a /\ Mul(a,b) = Mul(b,a)
  /\ (~IsZero(b) => LET w == UDivMod(a,b) IN Add(Mul(w.q,b),w.r)=a /\ UCmp(w.r,b)<0)
  /\ (~IsZero(b) => LET w == SDivMod(a,b) IN Add(Mul(w.q,b),w.r)=a)
  /\ \A s \in {0,1,7,8,9,31,32,63} : Shl(a,s) = Mul(a, [i \in 1..8 |-> IF i = (s \div 8) + 1 THEN 2 ^ (s % 8) ELSE 0])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
====
