----------------------------- MODULE PieceCases -----------------------------
(* Ways to divide a few files into pieces *)
EXTENDS MCStream

P1 == Screened(4, 4, TRUE, 1) \o Gce(2, TRUE, 300, 1) \o Looping(700)
      \o Img(0, 1, 1, 3, TRUE, FALSE, Whole3(<<0, 1, 2>>), 1) \o <<59>>
P2 == Screened(3, 3, FALSE, 9) \o Ext(254, <<<<65, 66>>, <<67>>, <<68, 69, 70>>>>) \o Ext(254, <<>>)
      \o Img(0, 0, 2, 1, FALSE, TRUE, Whole3(<<1, 2>>), 2) \o Gce(1, FALSE, 9, 2)
      \o Img(1, 2, 1, 1, FALSE, FALSE, Whole3(<<3>>), 9) \o <<59>>
\* no pixels in the first image, corrupt data in the last one
P3 == Screened(3, 3, FALSE, 0) \o Img(0, 0, 0, 2, FALSE, FALSE, <<>>, 9)
      \o Ext(1, <<<<1>>>>) \o Img(2, 2, 1, 1, FALSE, FALSE, <<4, 1, 5, 2>>, 1)
      \o Img(0, 0, 1, 2, FALSE, FALSE, <<4, 1, 4, 7, 5>>, 2) \o <<59>>
\* no images; a bad code size; an unknown label; no GIF
P4 == Screened(1, 1, TRUE, 0) \o Ext(255, <<Netscape, <<1, 0, 0>>>>) \o <<59, 33, 7>>
P5 == Screened(1, 1, FALSE, 0) \o Ext(255, <<<<1, 2>>>>) \o SubSeq(Img(0, 0, 1, 1, FALSE, FALSE, <<>>, 9), 1, 10) \o <<12, 1, 1, 0>> \o <<59>>
P6 == Screened(1, 1, FALSE, 0) \o Gce(0, FALSE, 1, 3) \o <<33, 7, 0, 59>>
P7 == <<71, 73, 70, 56, 56, 97, 1, 2>>
Files == The({[k \in 1..Len(fs) |-> Known(fs[k])] : fs \in {<<P1, P2, P3, P4, P5, P6, P7>>}})

(* All divisions into up to three pieces (some of them empty), and truncated ones into two *)
PairsOf(x) ==
  The({[i \in 1..((n + 1) * (n + 1)) |->
     LET a == (i - 1) \div (n + 1)
         b == (i - 1) % (n + 1) IN
     IF a <= b THEN MkCase(x, n, <<a, b>>) ELSE MkCase(x, a, <<b>>)] : n \in {Len(x.f)}})
Pieces == The({Concat([k \in 1..Len(fs) |-> PairsOf(fs[k])]) : fs \in {Files}})

(* All divisions of w bytes from any place on, in all ways; the rest is one piece *)
CutsIn(a, n, z) == SelectSeq([j \in 1..n |-> IF (z \div 2 ^ (j - 1)) % 2 = 1 THEN a + j - 1 ELSE -1], LAMBDA c : c >= 0)
WindowsOf(x, w) ==
  [i \in 1..((Len(x.f) - w + 1) * 2 ^ (w - 1)) |->
     LET a == (i - 1) \div 2 ^ (w - 1)
         z == 2 * ((i - 1) % 2 ^ (w - 1)) + 1 IN
     MkCase(x, Len(x.f), CutsIn(a, w, z))]
Windows(w) == The({Concat([k \in 1..6 |-> WindowsOf(fs[k], w)]) : fs \in {Files}})
Windows5 == Windows(5)
Windows8 == Windows(8)

(* One byte at a time, and in one piece, with every truncation *)
EachOf(x) == [n \in 1..(2 * Len(x.f) + 1) |-> IF n > Len(x.f) THEN MkCase(x, n - Len(x.f) - 1, <<>>) ELSE MkCase(x, n, [i \in 1..n |-> i])]
EachByte == The({Concat([k \in 1..Len(fs) |-> EachOf(fs[k])]) : fs \in {Files}})
=============================================================================
