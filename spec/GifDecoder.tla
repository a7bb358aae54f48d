----------------------------- MODULE GifDecoder -----------------------------
(***************************************************************************)
(* The frame-level decoder API on top of the event machine: what each call  *)
(* returns, given the calls made before, the file, the options and the      *)
(* reader's faults.  A call is a Begin action, steps of the parser, and a   *)
(* Return; calls are sequential.                                            *)
(*                                                                          *)
(* Calls (field c):                                                         *)
(*   new       DecodeOptions::read_info                                     *)
(*   nfi       next_frame_info          rnf     read_next_frame             *)
(*   rib n     read_into_buffer, n-byte buffer                              *)
(*   fill n    fill_buffer, n-byte buffer                                   *)
(*   acc       the accessors            fin     into_inner                  *)
(*   iter      into_iter                it      next on the iterator        *)
(***************************************************************************)
EXTENDS GifParser

VARIABLES
  pc,     \* "idle", "run" (a call runs), "ret" (it returns ret), "dead"
          \* (after an error which leaves the decoder unspecified), "gone"
  call,   \* the running call
  dec,    \* decoder: gp, bg, rep, eof, frame, m, iter, ended
  ret     \* result of the call

dvars == <<pc, call, dec, ret>>
vars == <<pvars, dvars>>

NoRet == [r |-> "-"]

DecoderInit ==
  /\ ParserInit
  /\ pc = "idle"
  /\ call = [c |-> "-"]
  /\ dec = [open |-> FALSE, gp |-> <<>>, bg |-> -1, rep |-> 0, eof |-> FALSE,
            frame |-> NoFrame, m |-> 0, iter |-> FALSE, ended |-> FALSE]
  /\ ret = NoRet

PUnch == UNCHANGED pvars
ImgUnch == UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, ev>>

Int31 == 2147483647

(* a * b, or -1 if that's more than 31 bits *)
Mul(a, b) == IF a > 0 /\ b > Int31 \div a THEN -1 ELSE a * b
Bpp == IF Opt.rgba THEN 4 ELSE 1
LineLength(f) == f.w * Bpp
BufSize(f) == Mul(LineLength(f), f.h)
FitsMemory(f) == Opt.mem < 0 \/ (BufSize(f) >= 0 /\ BufSize(f) <= Opt.mem)

EffectivePalette == IF dec.frame.hp THEN dec.frame.pal ELSE dec.gp
HasPalette == dec.frame.hp \/ dec.gp # <<>>

(* Calls which run the parser up to the next frame *)
Seeking == call.c \in {"new", "nfi", "rnf", "it"}

-----------------------------------------------------------------------------
(* Returning from a call *)

Return(r) == pc' = "ret" /\ ret' = r /\ UNCHANGED call

Err(kind, next) == [r |-> kind, after |-> next]

(* The next unit of the file can't be read: the reader's fault, or its end. *)
StarveKind == IF fi <= Len(Faults) THEN Faults[fi].k ELSE "UnexpectedEof"
StarveNext == fi' = IF fi <= Len(Faults) /\ ~Faults[fi].p THEN fi + 1 ELSE fi

AfterErr == IF call.c = "new" THEN "gone" ELSE "idle"

(* After a malformed file nothing is specified, except that an iterator ends. *)
AfterFatal == IF call.c = "new" THEN "gone" ELSE IF dec.iter THEN "idle" ELSE "dead"

Starve ==
  /\ pc = "run" /\ Seeking /\ ev.e = "none"
  /\ ~dec.eof /\ ~(call.c = "it" /\ dec.ended)
  /\ ctl # "ImgData" /\ ctl # "Done" /\ ctl # "Dead" /\ Starved
  /\ StarveNext
  /\ hi' = Max2(hi, Limit)
  /\ Return(Err(StarveKind, AfterErr))
  /\ dec' = [dec EXCEPT !.ended = dec.iter]
  /\ UNCHANGED <<cid, pos, ctl, arg, hdr, ext, cur, img, ev>>

(* The same within image data *)
StarveImg(k, lost) ==
  /\ StarveNext
  /\ hi' = Max2(hi, Limit)
  /\ Return(Err(StarveKind, AfterErr))
  /\ dec' = [dec EXCEPT !.ended = dec.iter]
  /\ img' = [img EXCEPT !.k = k, !.lost = lost]
  /\ UNCHANGED <<cid, pos, ctl, arg, hdr, ext, cur, ev>>

(* A reader interrupted by a signal may be asked again *)
SilentRetry ==
  /\ pc = "run" /\ call.c \in {"new", "nfi", "rnf", "it", "rib", "fill"}
  /\ fi <= Len(Faults) /\ Faults[fi].k = "Interrupted"
  /\ ~Faults[fi].p /\ ev.e = "none"
  /\ fi' = fi + 1
  /\ UNCHANGED <<cid, pos, hi, ctl, arg, hdr, ext, cur, img, ev>> /\ UNCHANGED dvars

ImgError(kind) ==
  /\ ImgFail(kind)
  /\ Return(Err(kind, AfterFatal))
  /\ dec' = [dec EXCEPT !.ended = dec.iter]

-----------------------------------------------------------------------------
(* Beginning of a call *)

Begin(a) ==
  /\ pc = "idle"
  /\ dec.open # (a.c = "new")
  /\ dec.iter => a.c \in {"it", "fin"}
  /\ a.c = "it" => dec.iter
  /\ call' = a /\ pc' = "run"
  /\ UNCHANGED <<dec, ret>> /\ PUnch

Advance ==
  /\ pc = "run" /\ Seeking /\ ev.e = "none"
  /\ ~dec.eof /\ ~(call.c = "it" /\ dec.ended)
  /\ ParserStep
  /\ UNCHANGED dvars

(* Events which neither end the call nor are remembered *)
Ignored ==
  /\ pc = "run" /\ Seeking
  /\ \/ ev.e \in {"sub", "fin", "dend"}
     \/ ev.e = "block" /\ ev.v # Trailer
     \/ ev.e = "rep" /\ call.c # "new"
  /\ ev' = NoEvent
  /\ UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img>> /\ UNCHANGED dvars

Consume == ev' = NoEvent /\ UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img>>

OnHeader ==
  /\ pc = "run" /\ call.c = "new" /\ ev.e \in {"bg", "gpal", "rep"}
  /\ dec' = CASE ev.e = "bg" -> [dec EXCEPT !.bg = ev.v]
              [] ev.e = "gpal" -> [dec EXCEPT !.gp = ev.pal]
              [] ev.e = "rep" -> [dec EXCEPT !.rep = ev.v]
  /\ Consume /\ UNCHANGED <<pc, call, ret>>

OnHeaderEnd ==
  /\ pc = "run" /\ call.c = "new" /\ ev.e = "hend"
  /\ dec' = [dec EXCEPT !.open = TRUE,
               !.bg = IF dec.gp # <<>> /\ 3 * @ >= Len(dec.gp) THEN -1 ELSE @]
  /\ Consume /\ Return([r |-> "ok", after |-> "idle"])

OnTrailer ==
  /\ pc = "run" /\ ev.e = "block" /\ ev.v = Trailer
  /\ dec' = [dec EXCEPT !.eof = TRUE]
  /\ Consume /\ UNCHANGED <<pc, call, ret>>

AtEof ==
  /\ pc = "run" /\ Seeking /\ ev.e = "none"
  /\ dec.eof \/ (call.c = "it" /\ dec.ended)
  /\ Return([r |-> "none", after |-> "idle"])
  /\ dec' = [dec EXCEPT !.ended = dec.iter]
  /\ PUnch

OnMalformed ==
  /\ pc = "run" /\ ev.e = "error"
  /\ Return(Err(ev.kind, AfterFatal))
  /\ dec' = [dec EXCEPT !.ended = dec.iter]
  /\ Consume

(* A frame is reached. *)
OnMeta ==
  /\ pc = "run" /\ ev.e = "meta"
  /\ Consume
  /\ LET d == [dec EXCEPT !.frame = ev.f, !.m = ev.m] IN
     IF ~ev.f.hp /\ dec.gp = <<>>
     THEN /\ dec' = [d EXCEPT !.ended = dec.iter]
          /\ Return(Err("fmt", "idle"))
     ELSE IF call.c = "nfi"
     THEN /\ dec' = d
          /\ Return([r |-> "ok", after |-> "idle", f |-> ev.f])
     ELSE IF ~Opt.skip /\ ~FitsMemory(ev.f)
     THEN /\ dec' = [d EXCEPT !.ended = dec.iter]
          /\ Return(Err("OutOfMemory", "idle"))
     ELSE /\ dec' = d
          /\ call' = [c |-> IF call.c = "it" THEN "it" ELSE "rnf", data |-> TRUE]
          /\ UNCHANGED <<pc, ret>>

(* The rest of the previous frame's data is skipped first. *)
Discard ==
  /\ pc = "run" /\ Seeking /\ ev.e = "none" /\ ctl = "ImgData"
  /\ "data" \notin DOMAIN call /\ ~(call.c = "it" /\ dec.ended)
  /\ CASE DiscardOutcome = "done" -> ImgEnd /\ UNCHANGED dvars
       [] DiscardOutcome = "starve" -> StarveImg(img.k, TRUE)
       [] OTHER -> ImgError("InvalidData")

-----------------------------------------------------------------------------
(* Pixels *)

(* n pixels are asked for; ok is the result if they are delivered. *)
Pixels(n, lost, ok, short) ==
  \E o \in FillOutcomes(n) :
    CASE o = "full" ->
           /\ img' = IF n = 0 THEN img ELSE [img EXCEPT !.k = @ + n, !.lost = lost]
           /\ ImgUnch /\ Return(ok)
           \* the frame that was returned is in display order
           /\ dec' = IF "exact" \in DOMAIN ok /\ ok.exact THEN [dec EXCEPT !.frame.il = FALSE] ELSE dec
      [] o = "short" ->
           /\ ImgEnd /\ Return(short) /\ dec' = [dec EXCEPT !.ended = dec.iter]
      [] o = "starve" -> StarveImg(Max2(img.k, PixelsReadable), FALSE)
      [] OTHER -> ImgError("InvalidData")

NextPixels(n) == SubSeq(img.L.pix, img.k + 1, img.k + n)

(* Whole-frame result: pixels in display order *)
Whole(kind, n) ==
  LET f == dec.frame IN
  [r |-> "ok", after |-> "idle", f |-> [f EXCEPT !.il = FALSE], exact |-> kind,
   pix |-> IF img.on /\ img.k + n <= Len(img.L.pix)
           THEN Display(NextPixels(n), f.w, f.h, f.il) ELSE <<>>]

Truncated == Err("fmt", "idle")

ReadFrame ==
  /\ pc = "run" /\ "data" \in DOMAIN call /\ ~Opt.skip /\ ev.e = "none"
  /\ LET n == dec.frame.w * dec.frame.h IN
     Pixels(n, FALSE, Whole(TRUE, n), Truncated)

CopyFrame ==
  /\ pc = "run" /\ "data" \in DOMAIN call /\ Opt.skip /\ ev.e = "none"
  /\ CASE CopyOutcome = "done" ->
            /\ ImgEnd
            /\ Return([r |-> "ok", after |-> "idle", f |-> dec.frame,
                       lzw |-> <<img.m>> \o img.L.data])
            /\ UNCHANGED dec
       [] CopyOutcome = "mem" -> ImgError("fmt")
       [] OTHER -> StarveImg(0, TRUE)

(* After ImgEnd in CopyFrame the data end event is pending; it's ignored. *)

(* Calls for image data where there is none to be read: unspecified, but an error or success. *)
Misuse == ctl # "ImgData" \/ img.lost \/ Opt.skip \/ dec.eof

Unspecified == Return([r |-> "any", after |-> "dead"]) /\ UNCHANGED dec /\ PUnch

(* Rows stored before the first which doesn't fit into a buffer of n bytes *)
RECURSIVE RowsFitting(_, _, _, _)
RowsFitting(rows, k, ll, n) ==
  IF k > Len(rows) THEN k - 1
  ELSE IF ll * (rows[k] + 1) > n THEN k - 1 ELSE RowsFitting(rows, k + 1, ll, n)

ReadInto ==
  /\ pc = "run" /\ call.c = "rib"
  /\ LET f == dec.frame
         size == BufSize(f)
         small == size < 0 \/ size > call.n IN
     IF small /\ ~f.il
     THEN Return(Err("fmt", "idle")) /\ UNCHANGED dec /\ PUnch
     ELSE IF size = 0
     THEN Return([r |-> "ok", after |-> "idle", pix |-> <<>>, f |-> f, exact |-> FALSE])
          /\ UNCHANGED dec /\ PUnch
     ELSE IF Misuse THEN Unspecified
     ELSE IF small
     THEN \E n \in {f.w * The({RowsFitting(rows, 1, LineLength(f), call.n) : rows \in {TLCEval(RowOrder(f.h))}})} :
          Pixels(n, TRUE, Err("fmt", "idle"), Truncated)
     ELSE Pixels(f.w * f.h, FALSE, Whole(FALSE, f.w * f.h), Truncated)

(* A piece in stored order *)
Piece(n, full) ==
  [r |-> "ok", after |-> "idle", full |-> full, exact |-> FALSE,
   pix |-> IF ~img.on THEN <<>>
           ELSE IF img.k + n <= Len(img.L.pix) THEN NextPixels(n)
           ELSE SubSeq(img.L.pix, img.k + 1, Len(img.L.pix))]

Fill ==
  /\ pc = "run" /\ call.c = "fill"
  /\ LET n == call.n \div Bpp IN
     IF call.n = 0
     THEN Return([r |-> "ok", after |-> "idle", full |-> TRUE, exact |-> FALSE, pix |-> <<>>])
          /\ UNCHANGED dec /\ PUnch
     ELSE IF n = 0
     THEN Return(Err("fmt", "idle")) /\ UNCHANGED dec /\ PUnch
     ELSE IF Misuse THEN Unspecified
     ELSE IF call.n % Bpp # 0
     THEN Pixels(n, TRUE, Err("fmt", "idle"), Piece(n, FALSE))
     ELSE Pixels(n, FALSE, Piece(n, TRUE), Piece(n, FALSE))

-----------------------------------------------------------------------------
(* Calls which don't read *)

Accessors ==
  /\ pc = "run" /\ call.c = "acc"
  /\ Return([r |-> "ok", after |-> "idle",
             bs |-> BufSize(dec.frame), ll |-> LineLength(dec.frame),
             haspal |-> HasPalette, pal |-> EffectivePalette])
  /\ UNCHANGED dec /\ PUnch

IntoIter ==
  /\ pc = "run" /\ call.c = "iter"
  /\ dec' = [dec EXCEPT !.iter = TRUE]
  /\ Return([r |-> "ok", after |-> "idle"]) /\ PUnch

(* How much of the file is left in the reader: lo..hi if a frame was left half-read *)
IntoInner ==
  /\ pc = "run" /\ call.c = "fin"
  /\ Return([r |-> "ok", after |-> "gone",
             lo |-> IF ctl = "ImgData" /\ img.term >= 0 THEN Len(File) - img.term
                    ELSE IF ctl \in {"ImgData", "Dead"} THEN 0
                    ELSE Len(File) - Max2(pos, hi),
             hi |-> IF ctl = "Dead" THEN Len(File) ELSE Len(File) - Max2(pos, hi)])
  /\ UNCHANGED dec /\ PUnch

Finish ==
  /\ pc = "ret"
  /\ pc' = ret.after
  /\ ret' = NoRet
  /\ UNCHANGED <<call, dec>>
  /\ ev' = NoEvent
  /\ UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img>>

Run ==
  \/ Advance \/ Ignored \/ OnHeader \/ OnHeaderEnd \/ OnTrailer \/ AtEof
  \/ OnMalformed \/ OnMeta \/ Discard \/ Starve \/ SilentRetry
  \/ ReadFrame \/ CopyFrame \/ ReadInto \/ Fill
  \/ Accessors \/ IntoIter \/ IntoInner

=============================================================================
