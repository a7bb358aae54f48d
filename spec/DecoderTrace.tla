---------------------------- MODULE DecoderTrace ----------------------------
(* Recorded executions of the frame-level API, checked against GifDecoder.    *)
(* Every behaviour of this module follows one recorded execution; it prints   *)
(* <<"ACC", id>> if all of it is explained by the specification, and          *)
(* <<"REJ", ...>> where a result differs from every one specified.            *)
EXTENDS GifDecoder, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
TraceCase(i) == Traces[i]

VARIABLE l   \* next event of the trace

tvars == <<vars, l>>

Evs == Case.ev

Arg(e) == IF e.c \in {"rib", "fill"} THEN [c |-> e.c, n |-> e.n] ELSE [c |-> e.c]

Sentinel == 170

FrameOk(f, g) ==
  /\ f.l = g.l /\ f.t = g.t /\ f.w = g.w /\ f.h = g.h /\ f.il = g.il
  /\ f.dl = g.dl /\ f.di = g.di /\ f.tr = g.tr /\ f.ui = g.ui
  /\ f.hp = g.hp /\ f.pal = g.pal

(* The buffer starts with these pixels. *)
BufOk(pix, buf, exact) ==
  IF Opt.rgba
  THEN /\ Len(buf) >= 4 * Len(pix)
       /\ RgbaOk(pix, EffectivePalette, dec.frame.tr, buf, IF exact THEN 0 ELSE -1)
  ELSE Len(buf) >= Len(pix) /\ SubSeq(buf, 1, Len(pix)) = pix

HeaderOk(e) ==
  /\ e.w = hdr.w /\ e.h = hdr.h /\ e.gp = dec.gp /\ e.bg = dec.bg /\ e.rep = dec.rep

ResultOk(e) ==
  IF ret.r = "any" THEN e.r # "panic"
  ELSE /\ e.r = ret.r
       /\ e.r = "ok" =>
          CASE e.c = "new" -> HeaderOk(e)
            [] e.c = "nfi" -> FrameOk(ret.f, e.f)
            [] e.c \in {"rnf", "it"} ->
                 /\ FrameOk(ret.f, e.f)
                 /\ IF Opt.skip THEN e.buf = ret.lzw
                    ELSE Len(e.buf) = BufSize(ret.f) /\ BufOk(ret.pix, e.buf, TRUE)
            [] e.c = "rib" ->
                 /\ BufOk(ret.pix, e.buf, FALSE)
                 /\ \A i \in (BufSize(dec.frame) + 1)..Len(e.buf) : e.buf[i] = Sentinel
            [] e.c = "fill" -> e.full = ret.full /\ BufOk(ret.pix, e.buf, FALSE)
            [] e.c = "acc" ->
                 /\ HeaderOk(e) /\ e.bs = ret.bs /\ e.ll = ret.ll
                 /\ e.haspal = ret.haspal /\ (ret.haspal => e.pal = ret.pal)
            [] e.c = "fin" -> e.left \in ret.lo..ret.hi
            [] OTHER -> TRUE

(* Bound on memory allocated during a call, with a limit of mem bytes: frame data and  *)
(* extension data, each in a buffer at most doubled while growing, plus a constant.     *)
(* Pixels on their way to a buffer of the caller don't count: it has as much memory.    *)
PeakOk(e) == LET given == IF "n" \in DOMAIN e /\ e.n > 0 THEN e.n ELSE 0 IN
             Opt.mem < 0 \/ (e.pk - 200000 - given) \div 4 <= Opt.mem

TraceInit == cid \in 1..Len(Traces) /\ DecoderInit /\ l = 1

TraceBegin ==
  /\ l <= Len(Evs)
  /\ Begin(Arg(Evs[l]))
  /\ UNCHANGED l

TraceRun == Run /\ UNCHANGED l

TraceMatch ==
  /\ pc = "ret"
  /\ IF ResultOk(Evs[l]) /\ PeakOk(Evs[l])
     THEN Finish /\ l' = l + 1
     ELSE /\ PrintT(<<"REJ", Case.id, l, ToString(ret)>>)
          /\ pc' = "stuck"
          /\ UNCHANGED <<pvars, call, dec, ret, l>>

(* Nothing but returning is required of a decoder after an unrecoverable error. *)
TraceDead ==
  /\ pc = "dead" /\ l <= Len(Evs)
  /\ IF Evs[l].r # "panic" /\ PeakOk(Evs[l])
     THEN l' = l + 1 /\ UNCHANGED pc
     ELSE PrintT(<<"REJ", Case.id, l, "dead">>) /\ pc' = "stuck" /\ UNCHANGED l
  /\ UNCHANGED <<pvars, call, dec, ret>>

TraceDone ==
  /\ pc \in {"idle", "dead", "gone"} /\ l = Len(Evs) + 1
  /\ PrintT(<<"ACC", Case.id>>)
  /\ l' = l + 1
  /\ UNCHANGED vars

TraceNext == TraceBegin \/ TraceRun \/ TraceMatch \/ TraceDead \/ TraceDone

(* Invariants of the specification, evaluated on every state of every trace *)
PosOk == pos <= Len(File) /\ hi <= Len(File) /\ hi >= pos
ExtOk == MemOk(Len(ext.data)) \/ Len(ext.data) = 1
ImgOk == (ctl = "ImgData" => img.on) /\ (img.on => ctl \in {"ImgData", "Dead"})

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
