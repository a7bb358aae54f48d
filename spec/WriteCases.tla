---------------------------- MODULE WriteCases ----------------------------
(* Calls of the encoder in all orders; faults at all positions *)
EXTENDS MCWriter

F(l, t, w, hh, il, dl, di, tr, ui, hp, pal) ==
  [l |-> l, t |-> t, w |-> w, h |-> hh, il |-> il, dl |-> dl, di |-> di, tr |-> tr, ui |-> ui, hp |-> hp, pal |-> pal]

Pal(n) == [i \in 1..(3 * n) |-> (11 * i) % 256]

Fr(f, buf) == [c |-> "frame", f |-> f, buf |-> buf]
Pre(f, buf) == [c |-> "pre", f |-> f, buf |-> buf]
Ctl(dl, di, tr, ui) == [c |-> "ctl", f |-> F(0, 0, 0, 0, FALSE, dl, di, tr, ui, FALSE, <<>>)]
CtlRaw(data) == [c |-> "ctlraw", data |-> data]
Raw(lb, data) == [c |-> "raw", lb |-> lb, data |-> data]
SetRep(v) == [c |-> "rep", v |-> v]
New(w, hh, gp) == [c |-> "new", w |-> w, h |-> hh, gp |-> gp]
Fin == [c |-> "fin"]
Drop == [c |-> "drop"]

Plain == F(0, 1, 2, 1, FALSE, 0, 1, -1, FALSE, FALSE, <<>>)
Own   == F(258, 0, 1, 3, TRUE, 600, 2, 1, TRUE, TRUE, Pal(3))
Empty == F(1, 1, 0, 5, FALSE, 1, 3, 0, FALSE, TRUE, Pal(2))
Lots  == F(0, 0, 1, 1, FALSE, 9, 0, 255, TRUE, TRUE, Pal(257))
Huge  == F(0, 0, 65535, 65535, TRUE, 9, 2, 3, TRUE, TRUE, Pal(1))
Bare  == F(3, 2, 1, 1, TRUE, 513, 0, 2, FALSE, TRUE, <<>>)

News == {New(3, 2, Pal(2)), New(258, 0, <<>>), New(1, 1, Pal(257)), New(0, 65535, Pal(5))}
Data3(pix) == Codes3(Whole3(pix))

Middle ==
  { SetRep(-1), SetRep(0), SetRep(513),
    Ctl(7, 3, -1, TRUE), Ctl(0, 2, 3, FALSE),
    CtlRaw(<<232, 1, 2, 77>>), Raw(254, <<<<72, 105>>, <<33>>>>), Raw(1, <<<<>>, [i \in 1..300 |-> i % 256]>>), Raw(255, <<>>),
    Fr(Plain, <<1, 3>>), Fr(Plain, <<2>>), Fr(Own, <<0, 1, 2>>), Fr(Own, <<1, 1, 0, 2>>), Fr(Empty, <<>>), Fr(Lots, <<0>>), Fr(Huge, <<1, 2>>), Fr(Bare, <<1>>),
    Pre(Plain, <<2>> \o Data3(<<3, 0>>)), Pre(Own, <<2>> \o Data3(<<3>>)), Pre(Own, <<1, 2, 3>>), Pre(Empty, <<>>), Pre(Plain, <<>>), Pre(Plain, <<12, 0>>), Pre(Lots, <<2>> \o Data3(<<1>>)) }

MkPlan(n) == <<News>> \o [i \in 1..n |-> Middle] \o <<{Fin, Drop}>>
Orders(n) == << [plan |-> MkPlan(n), faults |-> <<>>] >>
Orders2 == Orders(2)
Orders3 == Orders(3)

-----------------------------------------------------------------------------
(* Faults *)
Fault(o, k, p) == [o |-> o, k |-> k, p |-> p]

Short == <<{New(2, 1, Pal(1)), New(2, 1, Pal(257))},
           {SetRep(-1), Raw(254, <<<<72>>, <<105, 106>>>>), Fr(Own, <<1, 2, 0>>), Pre(Plain, <<2>> \o Data3(<<1, 2>>)), Fr(Plain, <<1>>)},
           {Ctl(1, 2, 3, TRUE), Fr(Plain, <<1, 2>>), Pre(Own, <<2>> \o Data3(<<1>>)), Fr(Lots, <<1>>)},
           {Fin, Drop}>>
Tiny  == <<{New(2, 1, Pal(1))}, {SetRep(3), Fr(Plain, <<1, 2>>)}, {Fin, Drop}>>

Each(plan, fss) == [i \in 1..Len(fss) |-> [plan |-> plan, faults |-> fss[i]]]

Faulty1 == Each(Short, [i \in 1..91 |-> <<Fault(i - 1, "Other", FALSE)>>] \o [i \in 1..91 |-> <<Fault(i - 1, "WriteZero", TRUE)>>]
                         \o [i \in 1..91 |-> <<Fault(i - 1, "Interrupted", FALSE)>>])

(* two faults at all pairs of positions *)
Two(n, k, q) == [i \in 1..n * n |-> <<Fault(Min2((i - 1) \div n, (i - 1) % n), k, FALSE), Fault(Max2((i - 1) \div n, (i - 1) % n), q, FALSE)>>]
Faulty2 == Each(Tiny, Two(55, "Interrupted", "Other") \o Two(55, "Other", "Interrupted") \o Two(55, "Other", "WouldBlock"))

(* more than one sub-block *)
Long == <<{New(2, 1, Pal(1))},
          {Pre(F(0, 0, 20, 20, FALSE, 0, 1, -1, FALSE, FALSE, <<>>), <<2>> \o Data3([i \in 1..400 |-> i % 4])), Raw(254, <<[i \in 1..257 |-> i % 256], <<1>>>>)},
          {Fin, Drop}>>
Faulty3 == Each(Long, [i \in 1..370 |-> <<Fault(i - 1, "Other", FALSE)>>] \o [i \in 1..370 |-> <<Fault(i - 1, "Interrupted", FALSE)>>])

=============================================================================
