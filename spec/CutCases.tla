------------------------------ MODULE CutCases -----------------------------
(* Every prefix of a few files, and every (pair of) position(s) of read faults *)
EXTENDS CallCases

Each(c) == [i \in 1..6 |-> {C(c)}]
ByPieces == <<{C("nfi")}, {N("fill", 1)}, {N("fill", 1)}, {N("fill", 2)}, {C("nfi")}, {N("rib", 0)}, {N("rib", 0)}, {C("rnf")}, {C("nfi")}, {C("fin")}>>
Plans == <<Each("rnf"), Each("nfi"), ByPieces, AnyIter(4)>>
Files == <<A1, A2, A3, A4>>

(* ways: how files are read and with which options *)
Ways == << <<1, NoOpt>>, <<1, Skip>>, <<2, NoOpt>>, <<3, Rgba>>, <<3, Endc>>, <<4, Rgba>> >>

CutsOf(f) ==
  [i \in 1..(Len(f) * Len(Ways)) |->
     LET n == (i - 1) \div Len(Ways)
         way == Ways[((i - 1) % Len(Ways)) + 1] IN
     MkCase(SubSeq(f, 1, n), f, way[2], <<>>, Plans[way[1]])]

Cuts == Concat([k \in 1..Len(Files) |-> CutsOf(Files[k])])

Kinds == <<"Other", "Interrupted", "WouldBlock", "UnexpectedEof">>

FaultsOf(f) ==
  [i \in 1..((Len(f) + 1) * Len(Ways) * 2) |->
     LET n == (i - 1) \div (2 * Len(Ways))
         way == Ways[(((i - 1) \div 2) % Len(Ways)) + 1] IN
     MkCase(f, f, way[2], <<Fault(n, Kinds[((n + i \div 2) % 4) + 1], i % 2 = 0)>>, Plans[way[1]])]

Faults1 == Concat([k \in 1..Len(Files) |-> FaultsOf(Files[k])])

(* Two transient faults *)
PairsOf(f, way) ==
  [i \in 1..((Len(f) + 1) * (Len(f) + 1)) |->
     LET a == (i - 1) \div (Len(f) + 1)
         b == (i - 1) % (Len(f) + 1) IN
     MkCase(f, f, way[2], <<Fault(Min2(a, b), Kinds[(a % 4) + 1], FALSE), Fault(Max2(a, b), Kinds[((a + b) % 4) + 1], FALSE)>>, Plans[way[1]])]

Faults2 == Concat([k \in 1..Len(Ways) |-> PairsOf(Files[((k - 1) % 4) + 1], Ways[k])])

=============================================================================
