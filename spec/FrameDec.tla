------------------------------ MODULE FrameDec ------------------------------
(***************************************************************************)
(* FrameDecoder: decoding of compressed frames one by one.  The result of a *)
(* call depends on nothing but the frame, the options and the global        *)
(* palette: a reused decoder is as good as a new one.                       *)
(*                                                                          *)
(* o: options, f: frame, data: its compressed data with the code size,      *)
(* n: size of the caller's buffer, or -1 to decode in place                 *)
(***************************************************************************)
EXTENDS Lzw, Pixels, TLC

FdMul(a, b) == IF a > 0 /\ b > 2147483647 \div a THEN -1 ELSE a * b
FdBpp(o) == IF o.rgba THEN 4 ELSE 1
FdSize(o, f) == FdMul(f.w * FdBpp(o), f.h)
FdFits(o, f) == o.mem < 0 \/ (FdSize(o, f) >= 0 /\ FdSize(o, f) <= o.mem)

(* The code size comes first; a frame without anything is taken for empty data. *)
FdMinCode(data) == IF data = <<>> THEN 2 ELSE data[1]
FdData(data) == IF data = <<>> THEN <<>> ELSE Tail(data)
FdLzw(data) == IF FdMinCode(data) \in 1..11 THEN LzwRun(FdMinCode(data), FdData(data)) ELSE LzwInit(1)

FdPalette(f, gp) == IF f.hp THEN f.pal ELSE gp

(* Results asking for n pixels of the compressed data *)
FdOutcomes(o, L, n) ==
  IF n = 0 THEN {"ok"}
  ELSE IF Len(L.pix) >= n THEN
    (* one more code may be looked at *)
    IF L.st = "bad" /\ (Len(L.marks) < 2 \/ L.marks[Len(L.marks) - 1][1] < n)
    THEN {"ok", "InvalidData"} ELSE {"ok"}
  ELSE IF L.st = "bad" THEN {"InvalidData"}
  ELSE IF L.st = "open" /\ o.endc THEN {"InvalidData"}
  ELSE {"fmt"}

(* L: what the data denotes *)
FdResults(o, f, data, n, L) ==
  LET small == n >= 0 /\ (FdSize(o, f) < 0 \/ FdSize(o, f) > n) IN
  IF n < 0 /\ ~FdFits(o, f) THEN {"OutOfMemory"}
  ELSE IF FdMinCode(data) \notin 1..11 THEN {"fmt"}
  ELSE IF small THEN IF f.il THEN {"fmt"} \union (FdOutcomes(o, L, f.w * f.h) \ {"ok"}) ELSE {"fmt"}
  ELSE FdOutcomes(o, L, f.w * f.h)

(* The beginning of the buffer shows the frame. *)
FdBufOk(o, f, gp, L, buf, blank) ==
  \E pix \in {Display(L.pix, f.w, f.h, f.il)} :
  LET size == FdSize(o, f) IN
  /\ Len(buf) >= size
  /\ IF o.rgba THEN RgbaOk(pix, FdPalette(f, gp), f.tr, buf, blank)
     ELSE SubSeq(buf, 1, size) = pix
=============================================================================
