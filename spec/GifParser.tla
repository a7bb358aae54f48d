----------------------------- MODULE GifParser ------------------------------
(***************************************************************************)
(* The low-level GIF event machine: what StreamingDecoder::update reports   *)
(* for a file.  One action per parser state; an action consumes a whole     *)
(* unit of the file (header, palette, sub-block...), because how many calls *)
(* it takes to feed a unit must not matter.  The bytes available are those  *)
(* before the next read fault (Limit); an action whose unit isn't available *)
(* is not enabled, and the unit isn't lost.                                 *)
(***************************************************************************)
EXTENDS Lzw, Pixels, TLC

CONSTANT CaseOf(_)   \* case number -> [file, opt, faults, ...]

VARIABLES
  cid,    \* which case
  fi,     \* index of the next read fault
  pos,    \* file offset of the next unit
  hi,     \* bytes fetched so far (>= pos if a unit is incomplete)
  ctl,    \* parser state
  arg,    \* its argument (number)
  hdr,    \* screen descriptor: version, w, h, bg, pal; ended: reached the first image
  ext,    \* extension in progress or last: id, data, fin
  cur,    \* metadata of the next/current frame, collected so far
  img,    \* data of the current image
  ev      \* event just emitted, or NoEvent

pvars == <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img, ev>>

Case == CaseOf(cid)
File == Case.file
Opt  == Case.opt
Faults == Case.faults

Limit == IF fi <= Len(Faults) THEN Faults[fi].o ELSE Len(File)

Byte(k) == File[pos + k + 1]
Slice(k, n) == SubSeq(File, pos + k + 1, pos + k + n)

MemOk(n) == Opt.mem < 0 \/ n <= Opt.mem

NoEvent == [e |-> "none"]

NoFrame == [l |-> 0, t |-> 0, w |-> 0, h |-> 0, il |-> FALSE,
            dl |-> 0, di |-> 1, tr |-> -1, ui |-> FALSE, hp |-> FALSE, pal |-> <<>>]

NoImage == [on |-> FALSE]

ParserInit ==
  /\ fi = 1 /\ pos = 0 /\ hi = 0
  /\ ctl = "Magic" /\ arg = 0
  /\ hdr = [ver |-> 87, w |-> 0, h |-> 0, bg |-> 0, pal |-> <<>>, ended |-> FALSE]
  /\ ext = [id |-> 0, data |-> <<>>, fin |-> TRUE, second |-> 0]
  /\ cur = NoFrame
  /\ img = NoImage
  /\ ev = NoEvent

-----------------------------------------------------------------------------
(* Number of bytes the next action needs. *)
Need ==
  CASE ctl = "Magic" -> 6
    [] ctl = "Screen" -> 7
    [] ctl = "GlobalPalette" -> arg
    [] ctl = "ImageStart" -> 9
    [] ctl = "LocalPalette" -> IF arg > 0 THEN arg ELSE 1
    [] ctl = "ExtData" -> IF arg > 0 THEN arg ELSE 1
    [] OTHER -> 1

Ready == pos + Need <= Limit

Goto(n, c, a, e) ==
  /\ pos' = pos + n /\ hi' = Max2(hi, pos + n)
  /\ ctl' = c /\ arg' = a /\ ev' = e
  /\ UNCHANGED <<cid, fi>>

Stay == UNCHANGED <<hdr, ext, cur, img>>

(* A malformed file: nothing more is specified. *)
Malformed(kind) ==
  /\ ctl' = "Dead" /\ ev' = [e |-> "error", kind |-> kind]
  /\ UNCHANGED <<cid, fi, pos, hi, arg, hdr, ext, cur, img>>

Magic ==
  /\ ctl = "Magic" /\ Ready
  /\ IF Slice(0, 6) \in {GIF87a, GIF89a}
     THEN /\ Goto(6, "Screen", 0, NoEvent)
          /\ hdr' = [hdr EXCEPT !.ver = IF Slice(0, 6) = GIF89a THEN 89 ELSE 87]
          /\ UNCHANGED <<ext, cur, img>>
     ELSE Malformed("fmt")

Screen ==
  /\ ctl = "Screen" /\ Ready
  /\ LET flags == Byte(4)
         size == IF Bit(flags, 7) THEN 3 * 2 ^ (Bits(flags, 0, 3) + 1) ELSE 0 IN
     /\ hdr' = [hdr EXCEPT !.w = LE16(Byte(0), Byte(1)), !.h = LE16(Byte(2), Byte(3)),
                           !.bg = Byte(5)]
     /\ Goto(7, "GlobalPalette", size, [e |-> "bg", v |-> Byte(5)])
  /\ UNCHANGED <<ext, cur, img>>

GlobalPalette ==
  /\ ctl = "GlobalPalette" /\ Ready
  /\ hdr' = [hdr EXCEPT !.pal = Slice(0, arg)]
  /\ Goto(arg, "FirstBlock", 0, NoEvent)
  /\ UNCHANGED <<ext, cur, img>>

(* The palette is reported together with the introducer of the first block. *)
FirstBlock ==
  /\ ctl = "FirstBlock" /\ Ready
  /\ Goto(IF Byte(0) = Trailer THEN 0 ELSE 1, "BlockStart", Byte(0),
          [e |-> "gpal", pal |-> hdr.pal])
  /\ Stay

HeaderEnd ==
  /\ ctl = "BlockStart" /\ Ready /\ ~hdr.ended /\ arg # Extension
  /\ hdr' = [hdr EXCEPT !.ended = TRUE]
  /\ Goto(0, "BlockStart", arg, [e |-> "hend"])
  /\ UNCHANGED <<ext, cur, img>>

ImageBlock ==
  /\ ctl = "BlockStart" /\ Ready /\ hdr.ended /\ arg = Image
  /\ Goto(0, "ImageStart", 0, [e |-> "block", v |-> Image])
  /\ Stay

ExtensionBlock ==
  /\ ctl = "BlockStart" /\ Ready /\ arg = Extension
  /\ IF Byte(0) \in KnownLabels
     THEN /\ ext' = [ext EXCEPT !.id = Byte(0), !.data = <<>>]
          /\ Goto(1, "ExtStart", 0, [e |-> "block", v |-> Extension])
          /\ UNCHANGED <<hdr, cur, img>>
     ELSE Malformed("fmt")

TrailerBlock ==
  /\ ctl = "BlockStart" /\ Ready /\ hdr.ended /\ arg = Trailer
  /\ Goto(1, "Done", 0, [e |-> "block", v |-> Trailer])
  /\ Stay

UnknownBlock ==
  /\ ctl = "BlockStart" /\ Ready /\ hdr.ended /\ arg \notin {Image, Extension, Trailer}
  /\ IF Opt.unk
     THEN /\ ext' = [ext EXCEPT !.id = 0, !.data = <<>>]
          /\ Goto(IF Byte(0) = 0 THEN 0 ELSE 1, "ExtData", Byte(0), NoEvent)
          /\ UNCHANGED <<hdr, cur, img>>
     ELSE Malformed("fmt")

(* The accumulated data starts with the length of the first sub-block. *)
ExtStart ==
  /\ ctl = "ExtStart" /\ Ready
  /\ ext' = [ext EXCEPT !.data = <<Byte(0)>>, !.second = 0]
  /\ Goto(IF Byte(0) = 0 THEN 0 ELSE 1, "ExtData", Byte(0), NoEvent)
  /\ UNCHANGED <<hdr, cur, img>>

(* Extension data never grows beyond the memory limit. *)
ExtTooLong ==
  /\ ctl = "ExtData" /\ arg > 0
  /\ ~MemOk(Len(ext.data) + Min2(arg, Limit - pos))
  /\ Limit > pos
  /\ Malformed("fmt")

ExtSubBlock ==
  /\ ctl = "ExtData" /\ arg > 0 /\ Ready
  /\ MemOk(Len(ext.data) + arg)
  /\ ext' = [ext EXCEPT !.data = @ \o Slice(0, arg)]
  /\ Goto(arg, "ExtData", 0, NoEvent)
  /\ UNCHANGED <<hdr, cur, img>>

ExtNext ==
  /\ ctl = "ExtData" /\ arg = 0 /\ Ready /\ Byte(0) # 0
  /\ ext' = [ext EXCEPT !.fin = FALSE, !.second = IF @ = 0 THEN Byte(0) ELSE @]
  /\ Goto(1, "ExtData", Byte(0), [e |-> "sub", id |-> ext.id, data |-> ext.data])
  /\ UNCHANGED <<hdr, cur, img>>

Finished == [e |-> "fin", id |-> ext.id, data |-> ext.data]

ControlEnd ==
  /\ ctl = "ExtData" /\ arg = 0 /\ Ready /\ Byte(0) = 0 /\ ext.id = ControlLabel
  /\ IF Len(ext.data) # 5 THEN Malformed("fmt")
     ELSE LET flags == ext.data[2]
              disp == Bits(flags, 2, 3) IN
       /\ cur' = [cur EXCEPT !.ui = Bit(flags, 1),
                              !.di = IF disp <= 3 THEN disp ELSE 0,
                              !.dl = LE16(ext.data[3], ext.data[4]),
                              !.tr = IF Bit(flags, 0) THEN ext.data[5] ELSE -1]
       /\ ext' = [ext EXCEPT !.fin = TRUE]
       /\ Goto(1, "BlockEnd", 0, Finished)
       /\ UNCHANGED <<hdr, img>>

ApplicationEnd ==
  /\ ctl = "ExtData" /\ arg = 0 /\ Ready /\ Byte(0) = 0 /\ ext.id = AppLabel
  /\ ext' = [ext EXCEPT !.fin = TRUE]
  /\ Goto(0, "AppExt", 0, Finished)
  /\ UNCHANGED <<hdr, cur, img>>

OtherExtEnd ==
  /\ ctl = "ExtData" /\ arg = 0 /\ Ready /\ Byte(0) = 0 /\ ext.id \notin {ControlLabel, AppLabel}
  /\ ext' = [ext EXCEPT !.fin = TRUE]
  /\ Goto(1, "BlockEnd", 0, Finished)
  /\ UNCHANGED <<hdr, cur, img>>

(* Loop count: NETSCAPE2.0, sub-block 1; -1 stands for infinitely many. *)
IsLoop == Len(ext.data) >= 15 /\ SubSeq(ext.data, 2, 13) = Append(Netscape, 1)
\* Further sub-blocks may follow.  Other divisions into sub-blocks, or more data in the
\* second one, are not defined by the format.
RightForm == ext.data[1] = 11 /\ ext.second = 3
LoopCount == LET n == LE16(ext.data[14], ext.data[15]) IN IF n = 0 THEN -1 ELSE n

AppExt ==
  /\ ctl = "AppExt" /\ Ready
  /\ \E e \in (IF IsLoop THEN {[e |-> "rep", v |-> LoopCount]} ELSE {}) \union (IF IsLoop /\ RightForm THEN {} ELSE {NoEvent}) :
       Goto(1, "BlockEnd", 0, e)
  /\ Stay

BlockEnd ==
  /\ ctl = "BlockEnd" /\ Ready
  /\ Goto(IF Byte(0) = Trailer THEN 0 ELSE 1, "BlockStart", Byte(0), NoEvent)
  /\ Stay

Within(f) == f.w <= hdr.w /\ f.l <= hdr.w - f.w /\ f.h <= hdr.h /\ f.t <= hdr.h - f.h

ImageStart ==
  /\ ctl = "ImageStart" /\ Ready
  /\ LET flags == Byte(8)
         f == [cur EXCEPT !.l = LE16(Byte(0), Byte(1)), !.t = LE16(Byte(2), Byte(3)),
                          !.w = LE16(Byte(4), Byte(5)), !.h = LE16(Byte(6), Byte(7)),
                          !.il = Bit(flags, 6), !.hp = Bit(flags, 7)] IN
     IF Opt.cons /\ ~Within(f) THEN Malformed("fmt")
     ELSE /\ cur' = f
          /\ Goto(9, "LocalPalette", IF f.hp THEN 3 * 2 ^ (Bits(flags, 0, 3) + 1) ELSE 0, NoEvent)
          /\ UNCHANGED <<hdr, ext, img>>

LocalPalette ==
  /\ ctl = "LocalPalette" /\ arg > 0 /\ Ready
  /\ cur' = [cur EXCEPT !.pal = Slice(0, arg)]
  /\ Goto(arg, "LocalPalette", 0, NoEvent)
  /\ UNCHANGED <<hdr, ext, img>>

MinCodeSize ==
  /\ ctl = "LocalPalette" /\ arg = 0 /\ Ready
  /\ Goto(1, "LzwStart", Byte(0), NoEvent)
  /\ Stay

(* File offsets of the image's data bytes, and of its terminator (-1: missing). *)
RECURSIVE SubBlocks(_, _)
SubBlocks(p, offs) ==
  IF p >= Len(File) THEN [offs |-> offs, term |-> -1]
  ELSE LET n == File[p + 1] IN
       IF n = 0 THEN [offs |-> offs, term |-> p]
       ELSE SubBlocks(TLCEval(p + 1 + n),
                      TLCEval(offs \o [i \in 1..Min2(n, Len(File) - p - 1) |-> p + i]))

(* Metadata is reported only once the byte after the minimum code size was seen. *)
LzwStart ==
  /\ ctl = "LzwStart" /\ Ready
  /\ IF arg \notin 1..11 THEN Malformed("fmt")
     ELSE \* quantifiers over singletons: TLC evaluates each expression once
       /\ \E s \in {SubBlocks(pos, <<>>)} :
          \E data \in {[i \in 1..Len(s.offs) |-> File[s.offs[i] + 1]]} :
          \E L \in {IF Opt.skip THEN [data |-> data] ELSE LzwRun(arg, data)} :
            img' = [on |-> TRUE, m |-> arg, offs |-> s.offs, term |-> s.term, L |-> L,
                    k |-> 0, lost |-> FALSE]
       /\ Goto(IF Byte(0) = 0 THEN 0 ELSE 1, "ImgData", 0,
               [e |-> "meta", m |-> IF Opt.skip THEN arg ELSE 0, f |-> cur])
       /\ UNCHANGED <<hdr, ext, cur>>

(* All actions which need only the file, up to the next event *)
ParserStep ==
  \/ Magic \/ Screen \/ GlobalPalette \/ FirstBlock \/ HeaderEnd
  \/ ImageBlock \/ ExtensionBlock \/ TrailerBlock \/ UnknownBlock
  \/ ExtStart \/ ExtTooLong \/ ExtSubBlock \/ ExtNext
  \/ ControlEnd \/ ApplicationEnd \/ OtherExtEnd \/ AppExt \/ BlockEnd
  \/ ImageStart \/ LocalPalette \/ MinCodeSize \/ LzwStart

Starved == ~Ready /\ ~(ctl = "ExtData" /\ arg > 0 /\ Limit > pos
                       /\ ~MemOk(Len(ext.data) + Limit - pos))

-----------------------------------------------------------------------------
(* Image data.  What is asked for decides how far the data is read. *)

Reached(i) == img.offs[i] < Limit                    \* data byte i is readable
TermReached == img.term >= 0 /\ img.term < Limit

(* First mark with at least t pixels (binary search in marks a..b). *)
RECURSIVE MarkFor(_, _, _)
MarkFor(t, a, b) ==
  IF a = b THEN a
  ELSE LET c == (a + b) \div 2 IN
       IF img.L.marks[c][1] >= t THEN MarkFor(t, a, c) ELSE MarkFor(t, c + 1, b)

(* Number of pixels which can be decoded from the bytes readable now *)
RECURSIVE PixelsFrom(_)
PixelsFrom(i) == IF i = 0 THEN 0
                 ELSE IF Reached(img.L.marks[i][2]) THEN img.L.marks[i][1]
                 ELSE PixelsFrom(i - 1)
PixelsReadable == PixelsFrom(Len(img.L.marks))

(***************************************************************************)
(* Possible outcomes of asking for n more pixels:                           *)
(*   full   they are delivered                                              *)
(*   short  the image has fewer                                             *)
(*   bad    an impossible code                                              *)
(*   noend  no end code, although it's required                             *)
(*   starve the data isn't readable (yet)                                   *)
(* The decoder may look at one code more than it needs.                     *)
(***************************************************************************)
FillOutcomes(n) ==
  LET t == img.k + n
      last == Len(img.L.marks)
      bad == img.L.st = "bad" /\ Reached(img.L.at) IN
  IF n = 0 THEN {"full"}
  ELSE IF Len(img.L.pix) >= t THEN
    LET i == MarkFor(t, 1, last) IN
    IF ~Reached(img.L.marks[i][2]) THEN {"starve"}
    ELSE IF i = last /\ bad THEN {"full", "bad"} ELSE {"full"}
  ELSE IF img.L.st = "bad" THEN (IF bad THEN {"bad"} ELSE {"starve"})
  ELSE IF ~TermReached THEN {"starve"}
  ELSE IF img.L.st = "open" /\ Opt.endc THEN {"noend"}
  ELSE {"short"}

(* Outcomes of skipping the rest of the image: done, bad, noend, starve *)
DiscardOutcome ==
  IF Opt.skip \/ ~Opt.endc THEN (IF TermReached THEN "done" ELSE "starve")
  ELSE IF img.L.st = "bad" THEN (IF Reached(img.L.at) THEN "bad" ELSE "starve")
  ELSE IF ~TermReached THEN "starve"
  ELSE IF img.L.st = "open" THEN "noend" ELSE "done"

(* Outcomes of copying the compressed data: done, mem, starve *)
CopyReadable == IF img.offs = <<>> THEN 0
  ELSE IF Reached(Len(img.offs)) THEN Len(img.offs)
  ELSE Len(SelectSeq(img.offs, LAMBDA o : o < Limit))

CopyOutcome ==
  IF CopyReadable > 0 /\ ~MemOk(1 + CopyReadable) THEN "mem"
  ELSE IF TermReached THEN "done" ELSE "starve"

(* The image's terminator was read *)
ImgEnd ==
  /\ Goto(img.term + 1 - pos, "BlockEnd", 0, [e |-> "dend"])
  /\ cur' = NoFrame /\ img' = NoImage
  /\ UNCHANGED <<hdr, ext>>

ImgFail(kind) ==
  /\ ctl' = "Dead" /\ ev' = [e |-> "error", kind |-> kind]
  /\ UNCHANGED <<cid, fi, pos, hi, arg, hdr, ext, cur, img>>

=============================================================================
