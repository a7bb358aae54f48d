----------------------------- MODULE GifWriter -----------------------------
(***************************************************************************)
(* The encoder API: which bytes each call hands to the writer, what it       *)
(* returns when the writer fails, and the frames the output then denotes.    *)
(*                                                                          *)
(* Calls (field c):                                                         *)
(*   new w h gp                 Encoder::new                                *)
(*   rep v                      set_repeat (-1: infinite)                   *)
(*   ctl dl di ui tr            write_extension of control data             *)
(*   raw lb data                write_raw_extension, data: slices           *)
(*   frame f buf                write_frame                                 *)
(*   pre f buf                  write_lzw_pre_encoded_frame                 *)
(*   fin                        into_inner       drop   the destructor      *)
(* A frame f has fields l t w h il dl di tr ui hp pal.                      *)
(*                                                                          *)
(* The writer accepts any number of bytes per write and fails at given      *)
(* offsets (o), once or for good (p), with an error kind (k).               *)
(***************************************************************************)
EXTENDS Grammar, Pixels, TLC

VARIABLES
  wpc,      \* "idle", "write" (bytes are handed over), "ret", "gone"
  wcall,    \* the running call
  wpend,    \* bytes still to be handed over
  wthen,    \* result of the call after they are accepted
  wout,     \* bytes accepted so far
  wfaults,  \* faults still to come
  wphase,   \* "unborn", "open", "broken" (an error of the writer was seen), "closed"
  wdoc,     \* what was written: gct (is there a global palette), screen, rep, frames
  wret      \* result of the call

wvars == <<wpc, wcall, wpend, wthen, wout, wfaults, wphase, wdoc, wret>>

NoDoc == [gct |-> FALSE, w |-> 0, h |-> 0, gp |-> <<>>, rep |-> 0, frames |-> <<>>]

WriterInit(faults) ==
  /\ wpc = "idle" /\ wcall = [c |-> "-"] /\ wpend = <<>> /\ wthen = "ok"
  /\ wout = <<>> /\ wfaults = faults /\ wphase = "unborn" /\ wdoc = NoDoc /\ wret = "-"

Colors(pal) == Len(pal) \div 3

(* Table t holds palette pal, padded to a power of two. *)
TableFor(t, pal) ==
  /\ Len(t) >= 3 * Colors(pal)
  /\ SubSeq(t, 1, 3 * Colors(pal)) = SubSeq(pal, 1, 3 * Colors(pal))

-----------------------------------------------------------------------------
(* Rejected calls: the set of errors which name what's wrong *)

Area(f) == f.w * f.h

(* Fewer bytes than pixels (the product may be beyond TLC's integers) *)
TooShort(buf, f) == f.h > 0 /\ (f.w > 2147483647 \div f.h \/ Len(buf) < Area(f))

Rejections(doc, a) ==
  CASE a.c = "new" -> IF Colors(a.gp) > 256 THEN {"TooManyColors"} ELSE {}
    [] a.c \in {"frame", "pre"} ->
        (IF a.c = "frame" /\ TooShort(a.buf, a.f) THEN {"InvalidInput"} ELSE {})
        \union (IF a.c = "pre" /\ a.buf # <<>> /\ a.buf[1] \notin 2..11 THEN {"InvalidMinCodeSize"} ELSE {})
        \union (IF a.f.hp /\ Colors(a.f.pal) > 256 THEN {"TooManyColors"} ELSE {})
        \union (IF ~a.f.hp /\ ~doc.gct THEN {"MissingColorPalette"} ELSE {})
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Accepted calls: is b what the call has to write? *)

ControlFor(x, f) ==
  /\ IsControl(x)
  /\ LET g == Control(x) IN g.di = f.di /\ g.ui = f.ui /\ g.dl = f.dl /\ g.tr = f.tr

(* Sub-blocks for slices of data: one each, or several if it's too long *)
RECURSIVE SubsFor(_, _)
SubsFor(subs, data) ==
  IF data = <<>> THEN subs = <<>>
  ELSE LET d == data[1] IN
       IF d = <<>> THEN SubsFor(subs, Tail(data))
       ELSE IF subs = <<>> THEN FALSE
       ELSE IF Len(d) <= 255 THEN subs[1] = d /\ SubsFor(Tail(subs), Tail(data))
       ELSE /\ IsPrefix(subs[1], d)
            /\ SubsFor(Tail(subs), <<SubSeq(d, Len(subs[1]) + 1, Len(d))>> \o Tail(data))

ImageFor(x, f) ==
  /\ x.k = "img" /\ x.l = f.l /\ x.t = f.t /\ x.w = f.w /\ x.h = f.h /\ x.il = f.il
  /\ x.hp = f.hp /\ TableFor(x.pal, IF f.hp THEN f.pal ELSE <<>>)

Serializes(doc, a, b) ==
  CASE a.c = "new" ->
        \E s \in {Screen(b)} :
        /\ s.ok /\ s.p = Len(b) + 1 /\ s.v.w = a.w /\ s.v.h = a.h
        /\ TableFor(s.v.pal, a.gp)
        /\ Colors(a.gp) > 0 => s.v.hp
    [] a.c = "rep" ->
        IF a.v = 0 THEN b = <<>>
        ELSE \E x \in {Blocks(b)} : x.ok /\ Len(x.v) = 1 /\ LoopOf(x.v[1]) = a.v
    [] a.c = "ctl" ->
        \E x \in {Blocks(b)} : x.ok /\ Len(x.v) = 1 /\ ControlFor(x.v[1], a.f)
    [] a.c = "ctlraw" ->
        \* the bytes of the block are given, even those which mean nothing
        \E x \in {Blocks(b)} : x.ok /\ Len(x.v) = 1 /\ x.v[1].k = "ext" /\ x.v[1].id = 249 /\ x.v[1].subs = <<a.data>>
    [] a.c = "raw" ->
        \E x \in {Blocks(b)} :
        /\ x.ok /\ Len(x.v) = 1 /\ x.v[1].k = "ext" /\ x.v[1].id = a.lb
        /\ SubsFor(x.v[1].subs, a.data)
    [] a.c = "frame" ->
        \E x \in {Blocks(b)} :
        /\ x.ok /\ Len(x.v) = 2 /\ ControlFor(x.v[1], a.f) /\ ImageFor(x.v[2], a.f)
        /\ WellCoded(x.v[2].m, x.v[2].data, a.buf)
    [] a.c = "pre" ->
        \E x \in {Blocks(b)} :
        /\ x.ok /\ Len(x.v) = 2 /\ ControlFor(x.v[1], a.f) /\ ImageFor(x.v[2], a.f)
        /\ IF a.buf = <<>> THEN x.v[2].data = <<>>
           ELSE x.v[2].m = a.buf[1] /\ x.v[2].data = Tail(a.buf)
    [] a.c \in {"fin", "drop"} -> b = <<Trailer>>

(* What a rejected call may leave behind: nothing, or control data without an image, *)
(* which the next frame's overrides; a trailer if the encoder is gone.               *)
Leftover(a, b) ==
  \/ b = <<>>
  \/ a.c = "new" /\ b = <<Trailer>>
  \/ a.c \in {"frame", "pre"} /\ \E x \in {Blocks(b)} : x.ok /\ Len(x.v) = 1 /\ ControlFor(x.v[1], a.f)

-----------------------------------------------------------------------------
(* The document after an accepted call *)

FrameOf(a) ==
  LET pre == a.c = "pre" IN
  The({[f |-> a.f,
        \* the pixels it denotes, in stored order
        pix |-> L.pix,
        \* pre-encoded data with an impossible code somewhere
        bad |-> L.st = "bad"] :
       L \in {IF ~pre THEN [pix |-> a.buf, st |-> "end"]
              ELSE IF a.buf = <<>> THEN [pix |-> <<>>, st |-> "open"]
              ELSE LzwRun(a.buf[1], Tail(a.buf))}})

Documented(doc, a) ==
  CASE a.c = "new" -> [doc EXCEPT !.gct = Colors(a.gp) > 0, !.w = a.w, !.h = a.h, !.gp = a.gp]
    [] a.c = "rep" -> IF doc.frames = <<>> /\ a.v # 0 THEN [doc EXCEPT !.rep = a.v] ELSE doc
    [] a.c \in {"frame", "pre"} -> [doc EXCEPT !.frames = Append(@, FrameOf(a))]
    [] OTHER -> doc

-----------------------------------------------------------------------------
(* Calls *)

Closes(a) == a.c \in {"fin", "drop"}

(* Are b the bytes which the call has to write, if the writer accepts them? *)
Writes(a, b) ==
  wphase = "broken" \/ IF Rejections(wdoc, a) = {} THEN Serializes(wdoc, a, b) ELSE Leftover(a, b)

BeginWrite(a, b) ==
  /\ wpc = "idle"
  /\ (a.c = "new") = (wphase = "unborn")
  /\ wphase # "closed"
  /\ wcall' = a
  /\ IF wphase = "broken"
     THEN wpc' = "any" /\ UNCHANGED <<wpend, wthen>>
     ELSE LET R == Rejections(wdoc, a) IN
          /\ wpc' = "write" /\ wpend' = b
          /\ IF R = {} THEN wthen' = "ok" ELSE wthen' \in R
  /\ UNCHANGED <<wout, wfaults, wphase, wdoc, wret>>

(* The next fault, if it comes before n more bytes are accepted *)
Hit(n) == wfaults # <<>> /\ wfaults[1].o < Len(wout) + n

AcceptAll ==
  /\ wpc = "write" /\ ~Hit(Len(wpend))
  /\ wout' = wout \o wpend /\ wpend' = <<>>
  /\ wpc' = "ret" /\ wret' = wthen
  /\ wdoc' = IF wthen = "ok" THEN Documented(wdoc, wcall) ELSE wdoc
  /\ wphase' = IF Closes(wcall) \/ (wcall.c = "new" /\ wthen # "ok") THEN "closed" ELSE "open"
  /\ UNCHANGED <<wcall, wthen, wfaults>>

(* The writer accepts what's before the fault.  Interrupted writes are repeated. *)
WriterFault ==
  /\ wpc = "write" /\ Hit(Len(wpend))
  /\ LET x == wfaults[1]
         n == x.o - Len(wout) IN
     /\ wout' = wout \o SubSeq(wpend, 1, n)
     /\ wpend' = SubSeq(wpend, n + 1, Len(wpend))
     /\ wfaults' = IF x.p THEN wfaults ELSE Tail(wfaults)
     /\ IF x.k = "Interrupted"
        THEN UNCHANGED <<wpc, wret, wphase>>
        ELSE /\ wpc' = "ret"
             /\ wret' = CASE wcall.c = "drop" -> "ok"  \* a destructor can't tell
                          [] wcall.c = "new" /\ wthen # "ok" -> wthen
                          [] OTHER -> x.k
             /\ wphase' = IF Closes(wcall) \/ wcall.c = "new" THEN "closed" ELSE "broken"
  /\ UNCHANGED <<wcall, wthen, wdoc>>

WriterReturn ==
  /\ wpc = "ret"
  /\ wpc' = "idle" /\ wret' = "-"
  /\ UNCHANGED <<wcall, wpend, wthen, wout, wfaults, wphase, wdoc>>

(* With a writer which failed, anything may be written; closing writes at most a trailer. *)
AfterFailure(b, r) ==
  /\ wpc = "any"
  /\ Closes(wcall) => b \in {<<>>, <<Trailer>>}
  /\ (Closes(wcall) /\ r = "ok" /\ wcall.c = "fin") => b = <<Trailer>>
  /\ wout' = wout \o b
  /\ wpc' = "ret" /\ wret' = r
  /\ wphase' = IF Closes(wcall) THEN "closed" ELSE wphase
  /\ UNCHANGED <<wcall, wpend, wthen, wfaults, wdoc>>

=============================================================================
