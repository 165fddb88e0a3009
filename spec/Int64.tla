------------------------------- MODULE Int64 -------------------------------
(* 64-bit signed integers as limbs <<a, b, c>> = a*2^48 + b*2^24 + c with       *)
(* a in -2^15..2^15-1 and b, c in 0..2^24-1 (TLC's own integers have 32 bits).  *)
EXTENDS Integers, Sequences
B24 == 16777216
Wrap16(x) == ((x + 32768) % 65536) - 32768
Add64(x, y) == LET c == x[3] + y[3]
                   b == x[2] + y[2] + (c \div B24)
                   a == x[1] + y[1] + (b \div B24)
               IN <<Wrap16(a), b % B24, c % B24>>
Lt64(x, y) == \/ x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
Le64(x, y) == x = y \/ Lt64(x, y)
Zero64 == <<0, 0, 0>>
One64 == <<0, 0, 1>>
\* a small number
I64(n) == IF n >= 0 THEN <<0, n \div B24, n % B24>> ELSE <<-1, (n \div B24) % B24, n % B24>>
=============================================================================
