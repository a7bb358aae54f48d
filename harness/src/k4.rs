//! Driver of the encoder over a faulty writer.
use crate::js::{list, Obj};
use crate::k1::{err_class, frame_json, Fault};
use crate::rng::Rng;
use crate::watch;
use gif::{AnyExtension, DecodeOptions, DisposalMethod, Encoder, EncodingError, EncodingFormatError, Extension, ExtensionData, Frame, Repeat};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone)]
pub enum Call {
    Rep(Repeat),
    Ctl { delay: u16, dispose: DisposalMethod, ui: bool, tr: Option<u8> },
    /// flags, delay and transparent index as they are
    CtlRaw([u8; 4]),
    Raw(u8, Vec<Vec<u8>>),
    Frame(Frame<'static>),
    /// compress, and write that
    MakePre(Frame<'static>),
    /// write as it is
    Pre(Frame<'static>),
    Fin,
    Drop,
}

#[derive(Clone)]
pub struct History { pub w: u16, pub h: u16, pub gp: Vec<u8>, pub calls: Vec<Call> }

#[derive(Default)]
struct Shared { out: Vec<u8>, fi: usize, writes: usize }

struct FaultyWriter { s: Rc<RefCell<Shared>>, faults: Vec<Fault>, max: usize, r: Rng }

impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.s.borrow_mut();
        s.writes += 1;
        let mut n = buf.len();
        if let Some(f) = self.faults.get(s.fi) {
            if f.o <= s.out.len() && !buf.is_empty() {
                if !f.p { s.fi += 1; }
                if f.k == ErrorKind::WriteZero { return Ok(0); }
                return Err(crate::tag::error(f.k));
            }
            n = n.min(f.o - s.out.len());
        }
        if self.max > 0 { n = n.min(if self.max == 1 { 1 } else { self.r.range(1, self.max) }); }
        s.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn enc_err(e: &EncodingError) -> String {
    match e {
        EncodingError::Format(EncodingFormatError::TooManyColors) => "TooManyColors".into(),
        EncodingError::Format(EncodingFormatError::MissingColorPalette) => "MissingColorPalette".into(),
        EncodingError::Format(EncodingFormatError::InvalidMinCodeSize) => "InvalidMinCodeSize".into(),
        EncodingError::Format(_) => "fmt".into(),
        EncodingError::Io(e) => crate::tag::kind(e),
    }
}

fn describe(c: &Call) -> Obj {
    let f = |n: &str, f: &Frame<'_>| Obj::new().s("c", n).raw("f", &frame_json(f)).a("buf", &f.buffer);
    match c {
        Call::Rep(r) => Obj::new().s("c", "rep").n("v", match r { Repeat::Infinite => -1, Repeat::Finite(n) => i64::from(*n) }),
        Call::Ctl { delay, dispose, ui, tr } => Obj::new().s("c", "ctl").raw("f", &frame_json(&Frame {
            delay: *delay, dispose: *dispose, needs_user_input: *ui, transparent: *tr, ..Frame::default() })),
        Call::CtlRaw(d) => Obj::new().s("c", "ctlraw").a("data", d),
        Call::Raw(id, d) => {
            let d: Vec<String> = d.iter().map(|d| { let mut s = String::new(); crate::js::bytes(&mut s, d); s }).collect();
            Obj::new().s("c", "raw").n("lb", i64::from(*id)).raw("data", &list(&d))
        }
        Call::Frame(x) => f("frame", x),
        Call::MakePre(x) | Call::Pre(x) => f("pre", x),
        Call::Fin => Obj::new().s("c", "fin"),
        Call::Drop => Obj::new().s("c", "drop"),
    }
}

fn apply(e: &mut Option<Encoder<FaultyWriter>>, c: &Call) -> Result<(), String> {
    let err = |r: Result<(), EncodingError>| r.map_err(|e| enc_err(&e));
    match c {
        Call::Fin => return e.take().unwrap().into_inner().map(drop).map_err(|e| crate::tag::kind(&e)),
        Call::Drop => { drop(e.take()); return Ok(()) }
        _ => {}
    }
    let e = e.as_mut().unwrap();
    match c {
        Call::Rep(r @ Repeat::Finite(n)) if n % 2 == 1 => err(e.write_extension(ExtensionData::Repetitions(*r))),
        Call::Rep(r) => err(e.set_repeat(*r)),
        Call::Ctl { delay, dispose, ui, tr } => err(e.write_extension(ExtensionData::new_control_ext(*delay, *dispose, *ui, *tr))),
        Call::CtlRaw([flags, a, b, trns]) => err(e.write_extension(ExtensionData::Control { flags: *flags, delay: u16::from_le_bytes([*a, *b]), trns: *trns })),
        Call::Raw(id, d) => {
            let d: Vec<&[u8]> = d.iter().map(|d| &d[..]).collect();
            let id = Extension::from_u8(*id).map_or(AnyExtension(*id), AnyExtension::from);
            e.write_raw_extension(id, &d).map_err(|e| crate::tag::kind(&e))
        }
        Call::Frame(f) => err(e.write_frame(f)),
        Call::MakePre(f) | Call::Pre(f) => err(e.write_lzw_pre_encoded_frame(f)),
        Call::Fin | Call::Drop => unreachable!(),
    }
}

/// One execution: the events (without `full`: only results and bytes) and all output
fn execute(h: &History, faults: &[Fault], max: usize, seed: u64, full: bool) -> (Vec<String>, Vec<u8>) {
    let s = Rc::new(RefCell::new(Shared::default()));
    let w = FaultyWriter { s: s.clone(), faults: faults.to_vec(), max, r: Rng::new(seed) };
    let mut ev: Vec<String> = vec![];
    let mut seen = 0;
    let mut push = |o: Obj, r: Result<(), String>, ev: &mut Vec<String>| {
        // after a panic, the writer's state may be gone
        let out = s.borrow().out[seen..].to_vec();
        seen += out.len();
        ev.push(o.s("r", &r.map_or_else(|e| e, |()| "ok".into())).a("out", &out).end());
    };
    let shown = |c: &Call| if full { describe(c) } else { Obj::new() };
    let new = if full { Obj::new().s("c", "new").n("w", h.w.into()).n("h", h.h.into()).a("gp", &h.gp) } else { Obj::new() };
    watch::tick();
    let mut e = match catch_unwind(AssertUnwindSafe(|| Encoder::new(w, h.w, h.h, &h.gp))) {
        Err(_) => { push(new, Err("panic".into()), &mut ev); None }
        Ok(Err(x)) => { push(new, Err(enc_err(&x)), &mut ev); None }
        Ok(Ok(e)) => { push(new, Ok(()), &mut ev); Some(e) }
    };
    for c in &h.calls {
        if e.is_none() { break; }
        watch::tick();
        let mut c = c.clone();
        if let Call::MakePre(f) = &mut c {
            let o = Obj::new().s("c", "make").raw("f", &frame_json(f)).a("buf", &f.buffer);
            let r = catch_unwind(AssertUnwindSafe(|| f.make_lzw_pre_encoded()));
            if full {
                let r = if r.is_ok() { "ok" } else { "panic" };
                ev.push(o.a("res", &f.buffer).raw("g", &frame_json(f)).s("r", r).a("out", &[]).end());
            } else {
                ev.push(Obj::new().s("r", "ok").a("out", &[]).end());
            }
        }
        let o = shown(&c);
        match catch_unwind(AssertUnwindSafe(|| apply(&mut e, &c))) {
            Ok(r) => push(o, r, &mut ev),
            Err(_) => { push(o, Err("panic".into()), &mut ev); std::mem::forget(e.take()); }
        }
    }
    if let Some(e) = e { let _ = catch_unwind(AssertUnwindSafe(|| drop(e))); }
    let out = s.borrow().out.clone();
    (ev, out)
}

/// What the decoder makes of a file
pub fn decoded(file: &[u8]) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let o = DecodeOptions::new();
        let mut d = match o.read_info(file) {
            Ok(d) => d,
            Err(e) => return Obj::new().s("r", &err_class(&e)).end(),
        };
        let hdr = Obj::new().s("r", "ok").n("w", d.width().into()).n("h", d.height().into()).a("gp", d.global_palette().unwrap_or(&[]))
            .n("rep", match d.repeat() { Repeat::Infinite => -1, Repeat::Finite(n) => n.into() });
        let mut frames = vec![];
        let end = loop {
            watch::tick();
            let f = match d.next_frame_info() {
                Ok(None) => break "none".to_string(),
                Err(e) => break err_class(&e),
                Ok(Some(f)) => frame_json(f),
            };
            let mut buf = vec![0; d.buffer_size()];
            let r = d.read_into_buffer(&mut buf).map_or_else(|e| err_class(&e), |()| "ok".into());
            frames.push(Obj::new().raw("f", &f).s("r", &r).a("buf", &buf).end());
        };
        hdr.raw("frames", &list(&frames)).s("end", &end).end()
    }));
    r.unwrap_or_else(|_| Obj::new().s("r", "panic").end())
}

pub struct Plan { /** decode the output */ pub dec: bool, /** (faults, longest accepted write or 0) */ pub runs: Vec<(Vec<Fault>, usize)> }

/// Records the history; `plan` gets the length of the output.
pub fn trace(tag: &str, h: &History, r: &mut Rng, out: &mut crate::Out, plan: impl FnOnce(&mut Rng, &[u8]) -> Plan) {
    watch::begin(|| {
        let calls: Vec<String> = h.calls.iter().map(|c| describe(c).end()).collect();
        format!("{{\"tag\":\"{tag}\",\"w\":{},\"h\":{},\"gp\":{:?},\"calls\":{}}}", h.w, h.h, h.gp, list(&calls))
    });
    let (ev, bytes) = execute(h, &[], 0, 0, true);
    out.execs += 1;
    let p = plan(r, &bytes);
    let mut runs = vec![];
    for (faults, max) in &p.runs {
        let (ev, _) = execute(h, faults, *max, r.next(), false);
        out.execs += 1;
        let fs: Vec<String> = faults.iter().map(|f| Obj::new().n("o", f.o as i64).s("k", &format!("{:?}", f.k)).b("p", f.p).end()).collect();
        runs.push(Obj::new().raw("faults", &list(&fs)).n("max", *max as i64).raw("ev", &list(&ev)).end());
    }
    let o = Obj::new().s("tag", tag).raw("ev", &list(&ev)).b("hasdec", p.dec);
    let o = if p.dec { o.raw("dec", &decoded(&bytes)) } else { o };
    out.lines.push(o.raw("runs", &list(&runs)).end());
    watch::end();
}
