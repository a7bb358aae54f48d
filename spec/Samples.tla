------------------------------ MODULE Samples ------------------------------
(* Building blocks of small files, for the models. *)
EXTENDS Bytes, TLC

Le(n) == <<n % 256, n \div 256>>

(* Bytes of a sequence of <<value, width>>, least significant bits first *)
RECURSIVE Pack(_, _, _)
Pack(cs, acc, nb) ==
  IF nb >= 8 THEN <<acc % 256>> \o Pack(cs, acc \div 256, nb - 8)
  ELSE IF cs = <<>> THEN (IF nb > 0 THEN <<acc>> ELSE <<>>)
  ELSE Pack(Tail(cs), acc + cs[1][1] * 2 ^ nb, nb + cs[1][2])

(* Code size 2, all codes three bits wide: a clear code before every pixel *)
Codes3(cs) == Pack([i \in 1..Len(cs) |-> <<cs[i], 3>>], 0, 0)
Pixels3(pix) == Concat([i \in 1..Len(pix) |-> <<4, pix[i]>>])

(* Sub-blocks of at most n bytes, with the terminator *)
RECURSIVE Chop(_, _)
Chop(data, n) ==
  IF data = <<>> THEN <<0>>
  ELSE LET k == Min2(n, Len(data)) IN
       <<k>> \o SubSeq(data, 1, k) \o Chop(SubSeq(data, k + 1, Len(data)), n)

(* 2^(bits+1) colours *)
Palette(bits, base) == [i \in 1..(3 * 2 ^ (bits + 1)) |-> (base + 7 * i) % 256]

Screened(w, h, gct, bg) ==
  GIF89a \o Le(w) \o Le(h) \o <<IF gct THEN 129 ELSE 0, bg, 0>> \o (IF gct THEN Palette(1, 10) ELSE <<>>)

Gce(disp, ui, delay, tr) ==
  <<33, 249, 4, 4 * disp + (IF ui THEN 2 ELSE 0) + (IF tr >= 0 THEN 1 ELSE 0)>> \o Le(delay)
    \o <<IF tr >= 0 THEN tr ELSE 0, 0>>

Ext(label, subs) == <<33, label>> \o Concat([i \in 1..Len(subs) |-> <<Len(subs[i])>> \o subs[i]]) \o <<0>>

Looping(n) == Ext(255, <<Netscape, <<1>> \o Le(n)>>)

(* An image with these codes in sub-blocks of at most chop bytes *)
Img(l, t, w, h, il, lct, codes, chop) ==
  <<44>> \o Le(l) \o Le(t) \o Le(w) \o Le(h)
    \o <<(IF il THEN 64 ELSE 0) + (IF lct THEN 129 ELSE 0)>>
    \o (IF lct THEN Palette(1, 100 + w) ELSE <<>>) \o <<2>> \o Chop(Codes3(codes), chop)

Whole3(pix) == Pixels3(pix) \o <<5>>

=============================================================================
