----------------------------- MODULE BlockFiles ----------------------------
(* An alphabet of blocks: good, unusual and broken ones; files made of them *)
EXTENDS Samples

B == <<
  Gce(1, FALSE, 5, -1), Gce(2, TRUE, 770, 1), Gce(7, FALSE, 0, 0),
  Ext(254, <<<<65, 66>>>>), Ext(254, <<>>), Ext(1, <<<<1>>, <<2, 3>>>>),
  Looping(3), Looping(0), Ext(255, <<Netscape>>), Ext(255, <<Netscape, <<2, 1, 0, 0, 0>>, <<1, 9, 0>>>>),
  Img(0, 0, 2, 1, FALSE, FALSE, Whole3(<<1, 2>>), 1),
  Img(1, 1, 1, 3, TRUE, TRUE, Whole3(<<0, 1, 3>>), 9),
  Img(3, 0, 0, 1, FALSE, FALSE, <<4, 5>>, 9),
  Img(0, 0, 2, 1, TRUE, TRUE, Whole3(<<1>>), 9),
  Img(0, 0, 1, 1, FALSE, FALSE, <<>>, 9),
  Img(3, 3, 2, 1, FALSE, TRUE, <<4, 1, 4, 2>>, 9),
  Img(0, 0, 1, 1, FALSE, FALSE, <<4, 6>>, 9),
  Img(0, 0, 1, 1, FALSE, TRUE, <<4, 2, 4, 0, 5>>, 1),
  SubSeq(Img(0, 0, 1, 1, FALSE, FALSE, <<>>, 9), 1, 10) \o <<12, 1, 1, 0>>,
  <<85, 1, 7, 0>>, <<0>>, <<33, 249, 3, 1, 2, 3, 0>>, <<33, 249, 2, 1, 2, 2, 3, 4, 0>>, <<33, 7, 1, 2, 0>>,
  <<59>> >>

FileOf(b, s, gct) == Screened(4, 4, gct, 1) \o Concat([i \in 1..Len(s) |-> b[s[i]]]) \o <<59>>

(* Sequences of up to two blocks *)
M == 25   \* Len(B)
UpTo2 == <<<<>>>> \o [i \in 1..M |-> <<i>>] \o [i \in 1..(M * M) |-> <<((i - 1) \div M) + 1, ((i - 1) % M) + 1>>]
=============================================================================
