----------------------------- MODULE ColorCases ----------------------------
(* Palettes of all small sizes, indices beyond them, transparency *)
EXTENDS MCDecoder

(* bits: -1 no palette, else 2^(bits+1) colours *)
Screen0(bits) == GIF89a \o Le(3) \o Le(3) \o <<IF bits >= 0 THEN 128 + bits ELSE 0, 0, 0>> \o (IF bits >= 0 THEN Palette(bits, 1) ELSE <<>>)
Img0(w, hh, il, bits, base, pix) ==
  <<44, 0, 0, 0, 0>> \o Le(w) \o Le(hh) \o <<(IF il THEN 64 ELSE 0) + (IF bits >= 0 THEN 128 + bits ELSE 0)>>
  \o (IF bits >= 0 THEN Palette(bits, base) ELSE <<>>) \o <<2>> \o Chop(Codes3(Whole3(pix)), 5)

Mode == [NoOpt EXCEPT !.rgba = TRUE]
Script(cs) == [i \in 1..Len(cs) |-> {cs[i]}]
Plans == << Script(<<C("rnf"), C("rnf"), C("rnf")>>),
            Script(<<C("nfi"), N("fill", 1), N("fill", 2), N("fill", 1), C("acc"), C("nfi"), N("fill", 3), N("fill", 1), C("nfi")>>),
            Script(<<C("nfi"), N("fill", 1), N("raw", 7), C("rnf"), C("acc"), C("rnf")>>),
            Script(<<C("nfi"), N("raw", 3), N("rib", 0), C("nfi"), N("raw", 10), N("rib", -1), C("rnf")>>),
            Script(<<C("iter"), C("it"), C("it"), C("it")>>) >>

Sizes == <<-1, 0, 1>>
Trs == <<-1, 0, 1, 2, 3, 255>>

(* two images: g, a, b: palettes; s, t: transparent indices *)
File2(g, a, b, s, t) ==
  Screen0(g) \o (IF s = -1 THEN <<>> ELSE Gce(1, FALSE, 0, s)) \o Img0(2, 2, TRUE, a, 60, <<0, 1, 2, 3>>)
  \o (IF t = -1 THEN <<>> ELSE Gce(1, FALSE, 0, t)) \o Img0(4, 1, FALSE, b, 120, <<3, 1, 0, 2>>) \o <<59>>

Colors2 ==
  [i \in 1..(3 * 3 * 3 * 36 * 2) |->
    LET k == i - 1  j == k \div 2 IN
    The({MkCase(f, f, Mode, <<>>, Plans[((k + j \div 7) % 5) + 1])
         : f \in {File2(Sizes[(j % 3) + 1], Sizes[((j \div 3) % 3) + 1], Sizes[((j \div 9) % 3) + 1], Trs[((j \div 27) % 6) + 1], Trs[(j \div 162) + 1])}})]
=============================================================================
