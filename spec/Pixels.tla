------------------------------- MODULE Pixels -------------------------------
(* From decoded indices to the pixels handed out: row order and colours. *)
EXTENDS Bytes, TLC

(* The four interlace passes: first row and distance. *)
Passes == <<<<0, 8>>, <<4, 8>>, <<2, 4>>, <<1, 2>>>>

(* Number of rows of a pass, for an image of height h *)
PassLen(h, k) == LET r == Passes[k][1]  d == Passes[k][2] IN IF r >= h THEN 0 ELSE ((h - r - 1) \div d) + 1

PassRows(h, k) == [i \in 1..PassLen(h, k) |-> Passes[k][1] + (i - 1) * Passes[k][2]]

(* Rows in the order in which an interlaced image of height h stores them. *)
RowOrder(h) == Concat([k \in 1..4 |-> PassRows(h, k)])

(* The pass a row belongs to *)
PassOf(r) == IF r % 8 = 0 THEN 1 ELSE IF r % 8 = 4 THEN 2 ELSE IF r % 4 = 2 THEN 3 ELSE 4

(* Inverse of RowOrder: storage position (0-based) of display row r.  MCPixels checks that it is. *)
PassBase(h, k) == CASE k = 1 -> 0 [] k = 2 -> PassLen(h, 1) [] k = 3 -> PassLen(h, 1) + PassLen(h, 2)
                    [] k = 4 -> PassLen(h, 1) + PassLen(h, 2) + PassLen(h, 3)
RowAt(base, r) == base[PassOf(r)] + (r - Passes[PassOf(r)][1]) \div Passes[PassOf(r)][2]
RowPos(h) == The({[r \in 1..h |-> RowAt(base, r - 1)] : base \in {TLCEval([k \in 1..4 |-> PassBase(h, k)])}})

(* Pixels of an image in display order *)
Deinterlace(pix, w, h) ==
  The({[i \in 1..(w * h) |-> p[at[((i - 1) \div w) + 1] * w + ((i - 1) % w) + 1]]
        : at \in {TLCEval(RowPos(h))}, p \in {pix}})

Display(pix, w, h, interlaced) ==
  IF interlaced /\ w > 0 /\ h > 1 THEN Deinterlace(pix, w, h) ELSE SubSeq(pix, 1, w * h)

(* Is pixel value idx a colour of the palette (a flat sequence of r, g, b)? *)
InPalette(pal, idx) == 3 * idx + 3 <= Len(pal)

(* One channel (0..3) of the RGBA expansion.  tr is the transparent index or -1. *)
Channel(pal, tr, idx, c) ==
  IF c = 3 THEN (IF idx = tr THEN 0 ELSE 255) ELSE pal[3 * idx + c + 1]

(* Does byte i (1-based) of an RGBA buffer agree with the indices?  Colours   *)
(* outside of the palette are unspecified, or as in `blank` if that's >= 0.   *)
RgbaByteOk(pix, pal, tr, i, v, blank) ==
  LET idx == pix[((i - 1) \div 4) + 1] IN
  IF InPalette(pal, idx) THEN v = Channel(pal, tr, idx, (i - 1) % 4)
  ELSE blank < 0 \/ v = blank

RgbaOk(pix, pal, tr, buf, blank) ==
  \A i \in 1..(4 * Len(pix)) : RgbaByteOk(pix, pal, tr, i, buf[i], blank)

=============================================================================
