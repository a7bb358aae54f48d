----------------------------- MODULE SizeCases -----------------------------
(* All minimum code sizes, sensible or not, with data or without, decoded or skipped *)
EXTENDS MCDecoder

CodesOf(m) == IF m \in 1..11 THEN <<<<2 ^ m, m + 1>>, <<1, m + 1>>, <<0, m + 1>>, <<2 ^ m + 1, m + 1>>>> ELSE <<<<1, 8>>, <<7, 8>>>>
(* 0 nothing, 1 all of it in single bytes, 2 in one sub-block, 3 without the end, 4 further bytes after it *)
Datum(m, k) ==
  IF k = 0 THEN <<>> ELSE IF k = 3 THEN Pack(SubSeq(CodesOf(m), 1, 2), 0, 0)
  ELSE Pack(CodesOf(m), 0, 0) \o (IF k = 4 THEN <<0, 59, 44>> ELSE <<>>)
Picture(w, hh, il, lct, m, k) ==
  <<44, 1, 0, 0, 0>> \o Le(w) \o Le(hh) \o <<(IF il THEN 64 ELSE 0) + (IF lct THEN 128 ELSE 0)>>
  \o (IF lct THEN Palette(0, 50) ELSE <<>>) \o <<m>> \o Chop(Datum(m, k), IF k = 1 THEN 1 ELSE 255)

Script(cs) == [i \in 1..Len(cs) |-> {cs[i]}]
Plans == << Script(<<C("rnf"), C("rnf"), C("rnf")>>), Script(<<C("nfi"), N("fill", 1), C("nfi"), N("rib", 0), C("nfi")>>),
            Script(<<C("nfi"), C("nfi"), C("acc"), C("nfi"), C("fin")>>), Script(<<C("iter"), C("it"), C("it"), C("it"), C("fin")>>) >>
Mode(k) == [NoOpt EXCEPT !.skip = k = 1, !.endc = k = 2, !.rgba = k = 3]

Ms == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 128, 255>>
Sizes ==
  [i \in 1..(16 * 5 * 4 * 2 * 4) |->
    LET j == i - 1
        m == Ms[(j % 16) + 1]  k == (j \div 16) % 5  o == (j \div 80) % 4  z == (j \div 320) % 2 IN
    The({MkCase(f, f, Mode(o), <<>>, Plans[(j \div 640) + 1])
         : f \in {Screened(3, 3, TRUE, 1) \o Gce(1, FALSE, 5, 1) \o Picture(IF z = 1 THEN 2 ELSE (j % 2), 1, z = 1, k % 2 = 1, m, k)
                  \o Picture(1, 2, TRUE, FALSE, 2, 2) \o <<59>>}})]
=============================================================================
