----------------------------- MODULE CarryCases ----------------------------
(* A first image of any kind, consumed in any way; a second one *)
EXTENDS CallCases

I(w, hh, il, lct, codes) == Img(0, 0, w, hh, il, lct, codes, 2)
Firsts == << I(2, 2, FALSE, TRUE, Whole3(<<1, 2, 3, 0>>)), I(2, 3, TRUE, FALSE, Whole3(<<1, 2, 3, 0, 1, 1>>)), I(2, 2, FALSE, FALSE, Whole3(<<1, 2, 3>>)),
             I(1, 3, TRUE, TRUE, <<4, 1, 4, 7>>), I(1, 2, FALSE, FALSE, Pixels3(<<1, 2, 3>>)), I(3, 3, FALSE, TRUE, Whole3(<<1, 2, 3, 0, 1, 2, 3, 0, 1>>)),
             I(2, 1, FALSE, FALSE, <<4, 1, 2, 6, 8>>), I(2, 1, FALSE, FALSE, <<>>) >>
\* without a clear code, with codes of its own table, short, interlaced
Seconds == << I(2, 2, FALSE, FALSE, <<1, 2, 3, 5>>), I(4, 1, FALSE, TRUE, <<4, 1, 6, 1, 5>>), I(2, 1, TRUE, FALSE, Whole3(<<2>>)), I(1, 4, TRUE, TRUE, Whole3(<<0, 1, 2, 3>>)) >>
Gces == << <<>>, Gce(2, TRUE, 9, 1) >>

Plan == <<{C("nfi"), C("rnf")}, {C("rnf"), C("nfi"), N("rib", 0), N("rib", -1), N("fill", 1), N("fill", 3)}, {C("nfi"), C("rnf"), N("fill", 2)}, {N("rib", 0), N("fill", 2), N("raw", 6)}, {C("rnf")}>>
Modes == <<[NoOpt EXCEPT !.mem = 6], Rgba, [Endc EXCEPT !.rgba = TRUE, !.mem = 16]>>
Carry ==
  The({[i \in 1..(8 * 4 * 4 * 3) |->
    LET k == i - 1 IN
    The({MkCase(f, f, ms[(k \div 128) + 1], <<>>, Plan)
         : f \in {Screened(4, 4, TRUE, 0) \o Gces[((k \div 32) % 2) + 1] \o fs[(k % 8) + 1] \o Gces[((k \div 64) % 2) + 1] \o ss[((k \div 8) % 4) + 1] \o <<59>>}})]
    : fs \in {TLCEval(Firsts)}, ss \in {TLCEval(Seconds)}, ms \in {TLCEval(Modes)}})
=============================================================================
