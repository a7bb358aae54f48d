---------------------------- MODULE HeaderCases ----------------------------
(* Versions, palettes, background indices, and loop counts in all places *)
EXTENDS MCDecoder

Bytes3 == [i \in 1..3 |-> i]
Scr(v, w, hh, gct, bits, bg, asp) ==
  <<71, 73, 70, 56, v, 97>> \o Le(w) \o Le(hh) \o <<(IF gct THEN 128 ELSE 0) + 16 * (bg % 8) + bits, bg, asp>> \o (IF gct THEN Palette(bits, 3) ELSE <<>>)

Pic(lct) == Img(0, 0, 1, 1, FALSE, lct, Whole3(<<1>>), 9)
Ns2(d) == Ext(255, <<Netscape, d>>)
Blocks == << <<>>, Looping(1), Looping(65535), Looping(0), Looping(2) \o Looping(0), Looping(0) \o Ext(254, <<<<1>>>>) \o Looping(7), Ext(254, <<>>) \o Looping(256),
             Gce(1, FALSE, 4, 0) \o Looping(9), Ext(255, <<Netscape, <<2, 5, 0>>>>), Ns2(<<1, 5>>), Ns2(<<1, 5, 0, 0>>), Ext(255, <<Netscape, <<1>>, <<5, 0>>>>),
             Ext(255, <<SubSeq(Netscape, 1, 10), <<1, 5, 0>>>>), Ext(255, <<<<88, 77, 80, 32, 68, 97, 116, 97, 88, 77, 80>>, <<1, 5, 0>>>>), Ext(254, <<Netscape, <<1, 5, 0>>>>),
             Ext(255, <<Netscape, <<1, 5, 0>>, <<1, 6, 0>>>>), Ext(255, <<Netscape \o <<1, 5, 0>>>>) >>
NBl == 17
Bgs == <<0, 1, 2, 3, 4, 7, 8, 255>>

Script(cs) == [i \in 1..Len(cs) |-> {cs[i]}]
Plans == << Script(<<C("acc"), C("rnf"), C("acc"), C("rnf"), C("acc"), C("nfi"), C("fin")>>), Script(<<C("acc"), C("nfi"), C("acc"), C("nfi"), C("acc"), C("nfi"), C("fin")>>) >>

(* b before the first image, c before the second; palettes: none, 2, 4, 8 colours *)
FileH(v, bits, bg, b, c, lct) ==
  Scr(v, 300, 2, bits >= 0, Max2(bits, 0), bg, bg % 3) \o b \o Pic(lct) \o c \o Pic(TRUE) \o <<59>>

Headers ==
  The({[i \in 1..(NBl * 4 * 8 * 2) |->
     LET k == i - 1  j == k \div NBl  bits == (j % 4) - 1 IN
     The({MkCase(f, f, os[((i \div 5) % 3) + 1], <<>>, Plans[((k + j) % 2) + 1])
          : f \in {FileH(IF (k + j) % 5 = 0 THEN 55 ELSE 57, bits, Bgs[((j \div 4) % 8) + 1], bs[(k % NBl) + 1], bs[((k + j) % NBl) + 1], bits < 0 \/ (i % 3 = 0))}})]
    : bs \in {TLCEval(Blocks)}, os \in {TLCEval(<<NoOpt, [NoOpt EXCEPT !.rgba = TRUE], [NoOpt EXCEPT !.skip = TRUE]>>)}})
=============================================================================
