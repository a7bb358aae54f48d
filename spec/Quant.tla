------------------------------- MODULE Quant -------------------------------
(* Frames made from pixels.                                                   *)
EXTENDS Bytes, FiniteSets

(* Pixel i (1-based) of RGBA data; all fully transparent pixels are alike. *)
Alpha(p, i) == p[4 * i]
Rgb(p, i) == <<p[4 * i - 3], p[4 * i - 2], p[4 * i - 1]>>
Color(p, i) == IF Alpha(p, i) = 0 THEN <<>> ELSE Rgb(p, i)

DistinctColors(p) == {Color(p, i) : i \in 1..(Len(p) \div 4)}

PalColor(pal, idx) == SubSeq(pal, 3 * idx + 1, 3 * idx + 3)

(* f, buf is a frame for RGBA pixels p of size w * h. *)
MadeFromRgba(p, f, buf) ==
  LET n == Len(p) \div 4
      clear == {i \in 1..n : Alpha(p, i) = 0} IN
  /\ Len(buf) = n
  /\ f.hp /\ Len(f.pal) <= 768
  /\ \A i \in 1..n : 3 * buf[i] + 3 <= Len(f.pal)
  /\ (f.tr >= 0) = (clear # {})
  /\ \A i \in clear : buf[i] = f.tr
  /\ Cardinality(DistinctColors(p)) <= 256 =>
       \A i \in (1..n) \ clear : buf[i] # f.tr /\ PalColor(f.pal, buf[i]) = Rgb(p, i)

(* Expansion e of the frame shows the pixels. *)
Shows(p, e) ==
  /\ Len(e) = Len(p)
  /\ LET few == Cardinality(DistinctColors(p)) <= 256 IN
     \A i \in 1..(Len(p) \div 4) :
       /\ Alpha(p, i) = 0 => e[4 * i] = 0
       /\ (Alpha(p, i) # 0 /\ few) =>
            e[4 * i] = 255 /\ Rgb(e, i) = Rgb(p, i)

MadeFromIndices(p, pal, hp, tr, f, buf) ==
  buf = p /\ f.hp = hp /\ f.pal = pal /\ f.tr = tr

(* Everything else has its default. *)
Defaults(f, w, h) ==
  /\ f.w = w /\ f.h = h /\ f.l = 0 /\ f.t = 0 /\ f.dl = 0 /\ f.di = 1 /\ ~f.ui /\ ~f.il

(* Arguments which are refused *)
Refused(c) ==
  \/ Len(c.px) # c.w * c.h * (CASE c.c = "rgba" -> 4 [] c.c = "rgb" -> 3 [] OTHER -> 1)
  \/ c.c \in {"rgba", "rgb"} /\ c.speed \notin 1..30
  \/ c.c = "pal" /\ Len(c.pal) > 768

Opaque(p) == [i \in 1..((Len(p) \div 3) * 4) |->
  IF i % 4 = 0 THEN 255 ELSE p[3 * ((i - 1) \div 4) + ((i - 1) % 4) + 1]]

ConstructorOk(c) ==
  IF Refused(c) THEN c.r = "panic"
  ELSE /\ c.r = "ok"
       /\ Defaults(c.f, c.w, c.h)
       /\ CASE c.c = "rgba" -> MadeFromRgba(c.px, c.f, c.buf) /\ Shows(c.px, c.shown)
            [] c.c = "rgb" -> MadeFromRgba(Opaque(c.px), c.f, c.buf) /\ Shows(Opaque(c.px), c.shown)
            [] c.c = "pal" -> MadeFromIndices(c.px, c.pal, TRUE, c.tr, c.f, c.buf)
            [] c.c = "idx" -> MadeFromIndices(c.px, <<>>, FALSE, c.tr, c.f, c.buf)

=============================================================================
