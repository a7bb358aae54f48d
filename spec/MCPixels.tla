------------------------------ MODULE MCPixels ------------------------------
(* Interlacing, for all heights up to MaxH: the stored order is a permutation of the rows,  *)
(* by passes and upwards within each; RowPos is its inverse; deinterlacing a picture of     *)
(* row numbers in stored order sorts them.                                                  *)
EXTENDS Pixels, FiniteSets
CONSTANT MaxH

VARIABLE h
Init == h = 0
Next == h < MaxH /\ h' = h + 1
Spec == Init /\ [][Next]_h

Order == \E o \in {TLCEval(RowOrder(h))}, at \in {TLCEval(RowPos(h))} :
  /\ Len(o) = h
  /\ {o[i] : i \in 1..h} = 0..(h - 1)
  /\ \A i \in 1..(h - 1) : PassOf(o[i]) < PassOf(o[i + 1]) \/ (PassOf(o[i]) = PassOf(o[i + 1]) /\ o[i] < o[i + 1])
  /\ \A i \in 1..h : at[o[i] + 1] = i - 1
  /\ h > 0 => Deinterlace(o, 1, h) = [i \in 1..h |-> i - 1]
  /\ h > 0 => Deinterlace([i \in 1..(2 * h) |-> o[((i - 1) \div 2) + 1] * 2 + ((i - 1) % 2)], 2, h) = [i \in 1..(2 * h) |-> i - 1]
=============================================================================
