------------------------------ MODULE MemCases -----------------------------
(* All small memory limits *)
EXTENDS CallCases

Plans == << <<{C("rnf")}, {C("rnf")}, {C("rnf"), C("nfi")}>>,
            <<{C("nfi")}, {N("rib", 0), N("fill", 1), C("rnf")}, {C("rnf")}, {C("nfi")}>>,
            <<{C("iter")}, {C("it")}, {C("it")}, {C("it")}>> >>

(* a large extension before a small frame, a frame much larger than its data *)
M1 == Screened(9, 9, TRUE, 0) \o Ext(254, <<<<1, 2, 3, 4, 5, 6, 7>>, <<8, 9>>>>) \o Img(0, 0, 3, 2, FALSE, FALSE, Whole3(<<1, 2, 3, 3, 2, 1>>), 2)
      \o Looping(2) \o Gce(1, FALSE, 1, 1) \o Img(0, 0, 60000, 50000, FALSE, FALSE, Whole3(<<1>>), 1) \o Img(1, 1, 1, 1, FALSE, TRUE, Whole3(<<1>>), 1) \o <<59>>
M2 == Screened(9, 9, FALSE, 0) \o Img(0, 0, 65535, 65535, TRUE, TRUE, Whole3(<<1>>), 9)
      \o Img(0, 0, 2, 4, TRUE, TRUE, Whole3(<<1, 2, 3, 0, 0, 1, 2, 3>>), 9) \o Img(0, 0, 0, 7, FALSE, TRUE, <<4, 5>>, 9)  \o <<59>>
Files == <<A1, A2, M1, M2>>
Modes == <<NoOpt, Rgba, Skip>>

Memory(n) ==
  The({[i \in 1..(4 * 3 * 3 * n) |->
    LET k == i - 1  mem == (k \div 36) + 1 IN
    MkCase(fs[(k % 4) + 1], fs[(k % 4) + 1], [ms[((k \div 4) % 3) + 1] EXCEPT !.mem = IF mem = n THEN 2000000000 ELSE mem], <<>>, ps[((k \div 12) % 3) + 1])]
   : fs \in {TLCEval(Files)}, ms \in {TLCEval(Modes)}, ps \in {TLCEval(Plans)}})
Memory36 == Memory(36)
=============================================================================
