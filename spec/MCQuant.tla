------------------------------ MODULE MCQuant ------------------------------
(***************************************************************************)
(* Frames made from pixels: all pixel sequences up to a length over a few   *)
(* kinds of pixels, and sequences with about as many colours as a palette   *)
(* can hold.  A simple constructor -- first come, first served -- satisfies *)
(* Quant.tla, and whatever satisfies it shows the pixels.  All arguments    *)
(* are printed, to be given to the real constructors.                       *)
(***************************************************************************)
EXTENDS Quant, Samples, Pixels, Json

CONSTANTS Kinds,     \* pixels (R, G, B, A)
          Longest,   \* number of pixels
          Counts     \* numbers of colours of the long sequences

VARIABLES px,  \* pixels so far
          ph,  \* "grow", "try", "done"
          fr   \* a candidate: palette, transparent index, indices
vars == <<px, ph, fr>>

None == [pal |-> <<>>, tr |-> -1, buf |-> <<>>, hp |-> TRUE]

-----------------------------------------------------------------------------
Position(pal, c) == {i \in 0..(Len(pal) \div 3) - 1 : PalColor(pal, i) = c}

(* One more pixel for the simple constructor *)
Put(f, p) ==
  LET new(g) == [g EXCEPT !.pal = @ \o SubSeq(p, 1, 3), !.buf = Append(@, Len(f.pal) \div 3)]
      at == Position(f.pal, SubSeq(p, 1, 3)) \ {f.tr} IN
  IF p[4] = 0
  THEN IF f.tr >= 0 THEN [f EXCEPT !.buf = Append(@, f.tr)] ELSE new([f EXCEPT !.tr = Len(f.pal) \div 3])
  ELSE IF at # {} THEN [f EXCEPT !.buf = Append(@, CHOOSE i \in at : TRUE)]
  ELSE new(f)

(* n colours, the last of them transparent if so asked, each twice *)
Many(n, clear) ==
  LET One(i) == <<i % 256, (7 * i) % 256, i \div 256, IF clear /\ i = n - 1 THEN 0 ELSE IF i % 5 = 0 THEN 254 ELSE 255>> IN
  [i \in 1..2 * n |-> One((i * (IF i <= n THEN 1 ELSE 3)) % n)]

Init ==
  /\ ph = "grow" /\ fr = None
  /\ px \in {<<>>} \union {Many(n, c) : n \in Counts, c \in BOOLEAN}

Grow ==
  /\ ph = "grow" /\ Len(px) < Longest
  /\ \E p \in Kinds : px' = Append(px, p) /\ fr' = Put(fr, p)
  /\ UNCHANGED ph

Flat(s) == Concat(s)
NoAlpha(s) == Concat([i \in 1..Len(s) |-> SubSeq(s[i], 1, 3)])

Say(c, w, hh, data, pal, tr, speed) ==
  PrintT("SCRIPT new " \o ToJson([c |-> c, w |-> w, h |-> hh, px |-> data, pal |-> pal, tr |-> tr, speed |-> speed]))

(* the arguments of all constructors, good and refused ones *)
Speeds == IF Len(px) > Longest THEN {1, 10, 30} ELSE IF Len(px) = 1 THEN {0, 1, 10, 30, 31, -1} ELSE {10}
Try ==
  /\ ph = "grow"
  /\ \A s \in Speeds :
     LET n == Len(px) IN
     /\ Say("rgba", n, 1, Flat(px), <<>>, -1, s)
     /\ (n % 2 = 0) => Say("rgba", n \div 2, 2, Flat(px), <<>>, -1, s)
     /\ Say("rgb", 1, n, NoAlpha(px), <<>>, -1, s)
     /\ n <= 2 => Say("rgba", n + 1, 1, Flat(px), <<>>, -1, s) /\ Say("rgb", n, 2, NoAlpha(px), <<>>, -1, s)
                  /\ Say("rgba", 0, n, Flat(px), <<>>, -1, s)
                  /\ \A tr \in {-1, 0, 1, 255} :
                     /\ Say("pal", n, 4, Flat(px), NoAlpha(px), tr, s) /\ Say("idx", 4, n, Flat(px), <<>>, tr, s)
                     /\ Say("pal", n, 3, Flat(px), NoAlpha(px), tr, s) /\ Say("idx", n, n, Flat(px), <<>>, tr, s)
     /\ n > Longest => /\ Say("pal", n \div 2, 8, Flat(px), NoAlpha(SubSeq(px, 1, n \div 2)), -1, s)
                       /\ Say("rgb", n, 2, NoAlpha(px) \o NoAlpha(px), <<>>, -1, s)
  /\ ph' = "try"
  /\ IF Len(px) <= Longest THEN UNCHANGED fr
     ELSE \E f \in {FoldLeft(Put, None, px)} : fr' = f
  /\ UNCHANGED px

(* any small frame instead *)
Other ==
  /\ ph = "try" /\ Len(px) <= 2 /\ ph' = "done" /\ UNCHANGED px
  /\ \E pal \in {Concat(s) : s \in UNION {[1..k -> {SubSeq(p, 1, 3) : p \in Kinds}] : k \in 0..2}},
        tr \in -1..2, buf \in [1..Len(px) -> 0..2] :
       fr' = [pal |-> pal, tr |-> tr, buf |-> [i \in 1..Len(px) |-> buf[i]], hp |-> TRUE]

Next == Grow \/ Try \/ Other
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Shown == [i \in 1..4 * Len(fr.buf) |->
  LET idx == fr.buf[((i - 1) \div 4) + 1] IN
  IF InPalette(fr.pal, idx) THEN Channel(fr.pal, fr.tr, idx, (i - 1) % 4) ELSE 0]

(* C21 *)
FewColors == Cardinality(DistinctColors(Flat(px))) <= 256
SimpleRight == (ph = "try" /\ FewColors) => MadeFromRgba(Flat(px), fr, fr.buf)
ShowsRight == (ph \in {"try", "done"} /\ MadeFromRgba(Flat(px), fr, fr.buf)) => Shows(Flat(px), Shown)

-----------------------------------------------------------------------------
K(r, g, b, a) == <<r, g, b, a>>
Kinds6 == {K(1, 2, 3, 255), K(1, 2, 4, 255), K(2, 1, 3, 254), K(1, 2, 3, 0), K(0, 0, 0, 0), K(1, 2, 3, 1)}
Kinds4 == {K(1, 2, 3, 255), K(0, 0, 0, 255), K(1, 2, 3, 0), K(0, 0, 0, 1)}
Edges == {254, 255, 256, 257}
=============================================================================
