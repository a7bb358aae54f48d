------------------------------ MODULE RowCases -----------------------------
(* Interlaced images of all small sizes, complete or short of one pixel or of a row *)
EXTENDS MCDecoder

Pix(n) == [i \in 1..n |-> (i * i + i \div 3) % 4]
Script(cs) == [i \in 1..Len(cs) |-> {cs[i]}]
Plans(w) == << Script(<<C("rnf"), C("nfi")>>), Script(<<C("nfi"), N("rib", 0), C("rnf")>>), Script(<<C("nfi"), N("rib", -1), C("nfi")>>),
            Script(<<C("nfi"), N("rib", 7), C("rnf")>>),
            Script(<<C("nfi"), N("fill", w), N("fill", w + 1), N("fill", w * 30), C("nfi")>>), Script(<<C("iter"), C("it"), C("it")>>) >>
W == 4
H == 20
File1(w, hh, n) == Screened(9, 99, TRUE, 0) \o Img(0, 0, w, hh, TRUE, FALSE, Whole3(Pix(n)), 200) \o Img(0, 0, 1, 1, FALSE, FALSE, Whole3(<<1>>), 9) \o <<59>>
Rows ==
  [i \in 1..(W * H * 12) |->
    LET k == i - 1  w == k % W  hh == (k \div W) % H  z == k \div (W * H)
        n == IF z < 6 THEN w * hh ELSE IF (k + z) % 2 = 0 THEN Max2(0, w * hh - 1) ELSE Max2(0, w * (hh - 1)) IN
    The({MkCase(f, f, [NoOpt EXCEPT !.rgba = (k + z) % 3 = 0], <<>>, Plans(w)[(z % 6) + 1]) : f \in {File1(w, hh, n)}})]
=============================================================================
