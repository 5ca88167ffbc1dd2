-------------------------------- MODULE Big --------------------------------
(* Naturals beyond TLC's integers: digits in base 2^15, least first.        *)
EXTENDS Naturals, Sequences

Base == 32768
RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
Small(n) == Norm(<< n % Base, n \div Base >>)
Digit(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
RECURSIVE Carry(_, _, _)
Carry(a, i, c) == IF i > Len(a) /\ c = 0 THEN <<>>
                  ELSE LET x == Digit(a, i) + c IN << x % Base >> \o Carry(a, i + 1, x \div Base)
Plus(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
              IN Norm(Carry([i \in 1..n |-> Digit(a, i) + Digit(b, i)], 1, 0))
Scale(a, k) == Norm(Carry([i \in 1..Len(a) |-> a[i] * k], 1, 0))
RECURSIVE Times(_, _)
Times(a, b) == IF b = <<>> THEN <<>> ELSE Plus(Scale(a, b[1]), IF Len(b) = 1 THEN <<>> ELSE Norm(<<0>> \o Times(a, Tail(b))))
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
            ELSE \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in i + 1..Len(a) : a[j] = b[j]
Pow2(e) == Norm([i \in 1..(e \div 15) + 1 |-> IF i = (e \div 15) + 1 THEN 2 ^ (e % 15) ELSE 0])
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN Small(1) ELSE Times(Head(s), Prod(Tail(s)))
=============================================================================
