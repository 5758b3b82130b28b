-------------------------------- MODULE Big --------------------------------
(* Exact natural numbers of any size, as little-endian sequences of digits *)
(* below 10000 without leading zeros (zero is <<>>): TLC's own are 32 bits. *)
EXTENDS Naturals, Sequences
LOCAL B == 10000
RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o BigOf(n \div B)
LOCAL D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE AddFrom(_, _, _, _)
LOCAL AddFrom(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == D(a, i) + D(b, i) + c IN <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
BigAdd(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE SubFrom(_, _, _, _)
LOCAL SubFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
                       ELSE LET s == B + D(a, i) - D(b, i) - c IN <<s % B>> \o SubFrom(a, b, i + 1, IF s < B THEN 1 ELSE 0)
BigSub(a, b) == Trim(SubFrom(a, b, 1, 0))
RECURSIVE CmpAt(_, _, _)
LOCAL CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN 0 - 1 ELSE 1) ELSE CmpAt(a, b, i - 1)
\* -1, 0 or 1
BigCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN 0 - 1 ELSE 1) ELSE CmpAt(a, b, Len(a))
BigLe(a, b) == BigCmp(a, b) <= 0
BigLt(a, b) == BigCmp(a, b) < 0
RECURSIVE MulDigit(_, _, _, _)
LOCAL MulDigit(a, d, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                        ELSE LET s == a[i] * d + c IN <<s % B>> \o MulDigit(a, d, i + 1, s \div B)
BigScale(a, d) == IF d = 0 THEN <<>> ELSE MulDigit(a, d, 1, 0)
RECURSIVE BigMul(_, _)
BigMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE BigAdd(BigScale(a, b[1]), LET r == BigMul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
\* the largest digit k with k * d <= r
RECURSIVE DigitOf(_, _, _, _)
LOCAL DigitOf(r, d, lo, hi) == IF lo = hi THEN lo
                         ELSE LET m == (lo + hi + 1) \div 2 IN
                              IF BigLe(BigScale(d, m), r) THEN DigitOf(r, d, m, hi) ELSE DigitOf(r, d, lo, m - 1)
RECURSIVE DivFrom(_, _, _, _, _)
LOCAL DivFrom(a, d, i, r, acc) ==
  IF i = 0 THEN [quo |-> Trim(acc), rem |-> r]
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           k == DigitOf(r1, d, 0, B - 1)
       IN DivFrom(a, d, i - 1, BigSub(r1, BigScale(d, k)), <<k>> \o acc)
BigDivMod(a, d) == DivFrom(a, d, Len(a), <<>>, <<>>)
BigCeilDiv(a, d) == LET r == BigDivMod(a, d) IN IF r.rem = <<>> THEN r.quo ELSE BigAdd(r.quo, <<1>>)
RECURSIVE BigPow2(_)
BigPow2(k) == IF k = 0 THEN <<1>> ELSE IF k >= 12 THEN BigScale(BigPow2(k - 12), 4096) ELSE BigScale(BigPow2(k - 1), 2)
RECURSIVE BigSum(_)
BigSum(s) == IF s = <<>> THEN <<>> ELSE BigAdd(Head(s), BigSum(Tail(s)))
============================================================================
