------------------------------ MODULE TailCases ----------------------------
(* What follows the trailer *)
EXTENDS CallCases

Pic == Img(0, 0, 1, 2, FALSE, FALSE, Whole3(<<1, 0>>), 9)
Tails == << <<>>, <<0>>, <<59>>, <<59, 59>>, <<44, 0>>, Pic, <<33, 249>>, GIF89a, A2, <<255, 254, 1, 0>> >>
Heads == << Screened(1, 1, TRUE, 0), Screened(1, 1, FALSE, 3) \o Looping(2), Screened(2, 2, TRUE, 0) \o Pic,
            Screened(2, 2, TRUE, 0) \o Gce(0, FALSE, 1, -1), Screened(2, 2, TRUE, 0) \o Pic \o Ext(254, <<<<59>>>>),
            Screened(2, 2, TRUE, 0) \o Pic \o Gce(2, FALSE, 3, 1) \o Img(0, 0, 2, 1, TRUE, TRUE, Whole3(<<1>>), 1) >>

Any4 == [i \in 1..3 |-> {C("nfi"), C("rnf"), N("rib", 0), N("fill", 1)}] \o <<{C("nfi"), C("rnf")}, {C("rnf"), C("fin")}, {C("fin")}>>
Iter4 == <<{C("nfi"), C("iter")}, {C("iter"), C("it")}, {C("it")}, {C("it")}, {C("it")}, {C("fin")}>>
NT == 10
NH == 6
Ends ==
  The({[i \in 1..(NT * NH * 2) |->
    LET k == i - 1 IN
    The({MkCase(f, f, os[((k \div 2) % 4) + 1], <<>>, IF k % 2 = 0 THEN Any4 ELSE Iter4)
         : f \in {hs[((k \div 2) % NH) + 1] \o <<59>> \o ts[(k \div (2 * NH)) + 1]}})]
    : hs \in {TLCEval(Heads)}, ts \in {TLCEval(Tails)}, os \in {TLCEval(<<NoOpt, Rgba, Skip, [NoOpt EXCEPT !.unk = TRUE, !.endc = TRUE]>>)}})
=============================================================================
