----------------------------- MODULE StreamTrace -----------------------------
(* Recorded event sequences of StreamingDecoder::update, checked against       *)
(* GifParser.  Pixels of an image are compared as a whole at its end; o is the *)
(* file offset up to which bytes were reported consumed.                       *)
EXTENDS GifParser, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
TraceCase(i) == Traces[i]

VARIABLES l,   \* next event of the trace
          st   \* "run", "over" (after the trailer or an error) or "stuck"

tvars == <<pvars, l, st>>

Evs == Case.ev
E == Evs[l]

TraceInit == cid \in 1..Len(Traces) /\ ParserInit /\ l = 1 /\ st = "run"

Step ==
  /\ st = "run" /\ ev.e = "none" /\ ParserStep
  /\ UNCHANGED <<l, st>>

FrameOk(f, g) ==
  /\ f.l = g.l /\ f.t = g.t /\ f.w = g.w /\ f.h = g.h /\ f.il = g.il
  /\ f.dl = g.dl /\ f.di = g.di /\ f.tr = g.tr /\ f.ui = g.ui
  /\ f.hp = g.hp /\ f.pal = g.pal

(* Events are reported between the data which completes them and one byte later. *)
At(o) == o >= pos - 1 /\ o <= pos + 1

HeaderOk == E.w = hdr.w /\ E.h = hdr.h /\ E.ver = hdr.ver

Matches ==
  /\ E.e = ev.e
  /\ At(E.o)
  /\ HeaderOk
  /\ CASE ev.e \in {"bg", "rep", "block"} -> E.v = ev.v
       [] ev.e = "gpal" -> E.pal = ev.pal
       [] ev.e \in {"sub", "fin"} -> E.id = ev.id /\ E.data = ev.data /\ E.same
       [] ev.e = "meta" -> FrameOk(ev.f, E.f)
       [] OTHER -> TRUE

Reject(what) ==
  /\ PrintT(<<"REJ", Case.id, l, ToString(what)>>)
  /\ st' = "stuck" /\ UNCHANGED <<pvars, l>>

Match ==
  /\ st = "run" /\ ev.e \notin {"none", "error", "dend"}
  /\ IF l <= Len(Evs) /\ Matches
     THEN /\ l' = l + 1
          /\ st' = IF ev.e = "block" /\ ev.v = Trailer THEN "over" ELSE "run"
          /\ ev' = NoEvent
          /\ UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img>>
     ELSE Reject(ev)

(* Everything the data denotes comes out, whatever the size of the frame. *)
PrefixOf(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))

Md == IF l <= Len(Evs) /\ "md" \in DOMAIN E THEN E.md ELSE 0
Wanted == Md > 0
InImage == st = "run" /\ ev.e = "none" /\ ctl = "ImgData"

(* Codes which find no space at all for their pixels are lost, and those after them make *)
(* no sense: either the data is skipped or it is refused.                                  *)
Refused == Md < 0 /\ E.e = "err"

Bad == Refused \/ (Wanted /\ img.L.st = "bad" /\ Reached(img.L.at))

DataEnd ==
  /\ InImage /\ ~Bad /\ TermReached
  /\ IF /\ l <= Len(Evs) /\ E.e = "dend"
        /\ E.o >= img.term /\ E.o <= img.term + 2
        /\ E.px = IF Wanted THEN img.L.pix ELSE <<>>
     THEN /\ ImgEnd
          /\ l' = l + 1 /\ UNCHANGED st
     ELSE Reject([e |-> "dend", pix |-> img.L.pix])

(* dend was matched above *)
Drop == st = "run" /\ ev.e = "dend" /\ ev' = NoEvent
        /\ UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img, l, st>>

BadCode ==
  /\ InImage /\ Bad
  /\ IF /\ l <= Len(Evs) /\ E.e = "err" /\ E.k = "InvalidData"
        /\ PrefixOf(E.px, img.L.pix)
     THEN l' = l + 1 /\ st' = "over" /\ UNCHANGED pvars
     ELSE Reject([e |-> "err", k |-> "InvalidData"])

Malform ==
  /\ st = "run" /\ ev.e = "error"
  /\ IF l <= Len(Evs) /\ E.e = "err" /\ E.k = ev.kind
     THEN l' = l + 1 /\ st' = "over" /\ UNCHANGED pvars
     ELSE Reject(ev)

(* The input ends here.  Up to eight bytes of codes may not be decoded yet: pixels are *)
(* given out as far as there is space for them.                                        *)
BadPending == img.L.st = "bad" /\ img.L.at + 8 >= Len(img.offs)

AtEnd ==
  /\ st = "run" /\ ev.e = "none"
  /\ IF ctl = "ImgData" THEN ~TermReached /\ ~Refused /\ (Bad => BadPending) ELSE Starved
  /\ IF /\ l <= Len(Evs) /\ E.e = "end" /\ E.o = Len(File)
        /\ IF ctl = "ImgData" /\ Wanted THEN PrefixOf(E.px, SubSeq(img.L.pix, 1, PixelsReadable))
           ELSE E.px = <<>>
     THEN l' = l + 1 /\ st' = "done" /\ UNCHANGED pvars
     ELSE Reject("end")

Post ==
  /\ st = "over"
  /\ IF /\ l = Len(Evs) /\ E.e = "post"
        /\ E.r = "ok" \/ (E.r = "events" /\ ctl # "Done")
     THEN l' = l + 1 /\ st' = "done" /\ UNCHANGED pvars
     ELSE Reject("post")

Accept ==
  /\ st = "done" /\ l = Len(Evs) + 1
  /\ PrintT(<<"ACC", Case.id>>)
  /\ st' = "accepted" /\ UNCHANGED <<pvars, l>>

TraceNext == Step \/ Match \/ DataEnd \/ Drop \/ BadCode \/ Malform \/ AtEnd \/ Post \/ Accept

PosOk == pos <= Len(File) /\ hi <= Len(File) /\ hi >= pos
ImgOk == (ctl = "ImgData" => img.on) /\ (img.on => ctl \in {"ImgData", "Dead"})

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
