----------------------------- MODULE CallCases -----------------------------
(* All orders of calls on a few files *)
EXTENDS MCDecoder

A1 == Screened(4, 4, TRUE, 1) \o Gce(2, TRUE, 300, 1)
      \o Img(0, 1, 1, 3, TRUE, FALSE, Whole3(<<0, 1, 2>>), 1)
      \o Ext(254, <<<<65, 66>>, <<67>>>>)
      \o Img(1, 0, 2, 1, FALSE, TRUE, Whole3(<<3, 1>>), 9) \o <<59>>

(* the first image has too few pixels, the second too many; no trailer *)
A2 == Screened(3, 3, TRUE, 9) \o Gce(3, FALSE, 7, -1)
      \o Img(0, 0, 2, 2, FALSE, FALSE, Whole3(<<1, 2, 3>>), 2) \o Gce(1, FALSE, 9, 2)
      \o Img(2, 2, 1, 1, FALSE, TRUE, Whole3(<<1, 2, 3>>), 9)

(* no palette for the first, no pixels in the second *)
A3 == Screened(3, 3, FALSE, 0) \o Looping(4)
      \o Img(0, 0, 1, 2, FALSE, FALSE, Whole3(<<1, 0>>), 9) \o Gce(0, TRUE, 1, 0)
      \o Img(0, 0, 0, 3, TRUE, TRUE, <<4, 5>>, 9)
      \o Img(1, 1, 1, 1, FALSE, TRUE, Whole3(<<2>>), 1) \o <<59, 1>>

(* an impossible code in the first image, no end code in the second *)
A4 == Screened(3, 3, TRUE, 2)
      \o Img(0, 0, 3, 1, FALSE, FALSE, <<4, 1, 4, 7>>, 9)
      \o Img(0, 0, 1, 2, TRUE, FALSE, Pixels3(<<1, 2>>), 1) \o <<59>>

Fault(o, k, p) == [o |-> o, k |-> k, p |-> p]

AnyOf(n) == [i \in 1..n |-> {C("nfi"), C("rnf"), N("rib", 0), N("rib", -1), N("fill", 1), N("fill", 2)}]
AnyIter(n) == <<{C("nfi"), C("rnf")}>> \o <<{C("iter")}>> \o [i \in 1..n |-> {C("it")}]

Rgba == [NoOpt EXCEPT !.rgba = TRUE]
Skip == [NoOpt EXCEPT !.skip = TRUE]
Endc == [NoOpt EXCEPT !.endc = TRUE]

Calls(n) ==
  << MkCase(A1, A1, NoOpt, <<>>, AnyOf(n)), MkCase(A2, A2, Rgba, <<>>, AnyOf(n)),
     MkCase(A3, A3, NoOpt, <<>>, AnyOf(n)), MkCase(A4, A4, NoOpt, <<>>, AnyOf(n)),
     MkCase(A4, A4, [Endc EXCEPT !.rgba = TRUE], <<>>, AnyOf(n)), MkCase(A1, A1, [Skip EXCEPT !.mem = 6], <<>>, AnyOf(n)),
     MkCase(A2, A2, [NoOpt EXCEPT !.mem = 3], <<>>, AnyOf(n)),
     MkCase(A1, A1, Rgba, <<Fault(45, "Other", FALSE)>>, AnyOf(n)),
     MkCase(A1, A1, NoOpt, <<>>, AnyIter(5)), MkCase(A2, A2, Rgba, <<>>, AnyIter(5)),
     MkCase(A3, A3, Rgba, <<>>, AnyIter(5)), MkCase(A4, A4, Endc, <<>>, AnyIter(5)) >>

Calls4 == Calls(4)
Calls5 == Calls(5)

=============================================================================
