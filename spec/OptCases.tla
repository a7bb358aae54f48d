------------------------------ MODULE OptCases -----------------------------
(* Images with and without defects under all combinations of the options *)
EXTENDS MCDecoder

Pre == Screened(3, 3, TRUE, 1)
I(l, t, w, hh, codes) == Img(l, t, w, hh, FALSE, FALSE, codes, 9)

Frames == <<
  I(0, 0, 3, 1, Whole3(<<1, 2, 3>>)),             \* good
  I(2, 2, 1, 1, Whole3(<<1>>)), I(3, 2, 1, 1, Whole3(<<1>>)), I(2, 3, 1, 1, Whole3(<<1>>)), \* at the border, outside
  I(3, 0, 0, 1, Whole3(<<>>)), I(4, 0, 0, 1, Whole3(<<>>)), I(0, 65535, 1, 1, Whole3(<<3>>)),
  I(65535, 0, 1, 1, Whole3(<<2>>)), I(65535, 65535, 2, 1, Whole3(<<2, 2>>)),
  I(0, 0, 1, 1, Pixels3(<<1>>)), I(0, 0, 1, 1, Pixels3(<<1, 2>>)), \* no end code, without and with further pixels
  I(0, 0, 1, 1, <<4, 1, 4, 7>>), I(0, 0, 1, 1, <<4, 1, 5, 7>>),    \* a bad code after the pixels, after the end
  I(0, 0, 2, 1, Whole3(<<1>>)), I(0, 0, 1, 2, <<4, 1, 4, 6>>),     \* too few pixels
  I(0, 0, 1, 0, <<4, 7>>), I(0, 0, 0, 1, <<>>) >>

(* between images: nothing, unknown blocks with one or two sub-blocks and without, unknown and known extensions *)
Between == << <<>>, <<7, 2, 44, 59, 0>>, <<0, 0>>, <<200, 1, 59, 1, 44, 0>>, Ext(77, <<<<59>>>>), Ext(254, <<<<44>>>>), Ext(0, <<>>) >>

Options == [i \in 1..16 |->
  LET k == i - 1 IN
  [mem |-> -1, rgba |-> FALSE, skip |-> Bit(k, 3), endc |-> Bit(k, 2), unk |-> Bit(k, 1), cons |-> Bit(k, 0)]]

Script(cs) == [i \in 1..Len(cs) |-> {cs[i]}]
Plans == << Script(<<C("rnf"), C("rnf"), C("rnf"), C("fin")>>), Script(<<C("nfi"), C("nfi"), N("fill", 1), C("nfi"), C("fin")>>) >>

NF == 17
NB == 7
Good == I(0, 0, 1, 1, Whole3(<<2>>)) \o <<59>>
Options1 ==
  The({[i \in 1..(NF * NB * 16) |->
     LET k == (i - 1) \div 16 IN
     The({MkCase(f, f, os[((i - 1) % 16) + 1], <<>>, Plans[((k + i) % 2) + 1])
          : f \in {Pre \o fs[(k % NF) + 1] \o bs[(k \div NF) + 1] \o Good}})]
     : fs \in {TLCEval(Frames)}, bs \in {TLCEval(Between)}, os \in {TLCEval(Options)}})
=============================================================================
