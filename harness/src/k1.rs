//! Driver of the frame-level decoder API over a chunked, faulty reader.
use crate::alloc::{measure, unmeasured};
use crate::js::{list, Obj};
use crate::rng::Rng;
use crate::watch;
use gif::{ColorOutput, DecodeOptions, Decoder, DecodingError, DisposalMethod, Frame, MemoryLimit, Repeat};
use std::io::{self, ErrorKind, Read};
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug)]
pub struct Opt { pub mem: i64, pub rgba: bool, pub cons: bool, pub skip: bool, pub endc: bool, pub unk: bool }

impl Opt {
    pub fn new() -> Self { Opt { mem: 50_000_000, rgba: false, cons: false, skip: false, endc: false, unk: false } }
    pub fn rgba(mut self, v: bool) -> Self { self.rgba = v; self }
    pub fn skip(mut self, v: bool) -> Self { self.skip = v; self }
    pub fn mem(mut self, v: i64) -> Self { self.mem = v; self }
    pub fn endc(mut self, v: bool) -> Self { self.endc = v; self }
    pub fn unk(mut self, v: bool) -> Self { self.unk = v; self }
    pub fn cons(mut self, v: bool) -> Self { self.cons = v; self }
    fn is_default(&self) -> bool { !(self.rgba || self.cons || self.skip || self.endc || self.unk) && self.mem == 50_000_000 }
    /// In several ways: sets only what differs from the defaults, or everything, or everything twice
    pub fn build(&self, way: usize) -> DecodeOptions {
        let mut o = match way % 4 { 0 => DecodeOptions::default(), 1 => Decoder::<&[u8]>::build(), _ => DecodeOptions::new() };
        let all = way % 3 > 0;
        if way % 3 == 2 {
            o.set_color_output(if self.rgba { ColorOutput::Indexed } else { ColorOutput::RGBA });
            o.set_memory_limit(MemoryLimit::Bytes(NonZeroU64::new(1).unwrap()));
            o.check_frame_consistency(!self.cons);
            o.skip_frame_decoding(!self.skip);
            o.check_lzw_end_code(!self.endc);
            o.allow_unknown_blocks(!self.unk);
        }
        if all || self.rgba { o.set_color_output(if self.rgba { ColorOutput::RGBA } else { ColorOutput::Indexed }); }
        // 50 MB is the default.  Nothing is larger than 2^36 bytes.
        if all || self.mem != 50_000_000 {
            o.set_memory_limit(match NonZeroU64::new(self.mem.max(0) as u64) {
                Some(n) => MemoryLimit::Bytes(n),
                None if self.endc => MemoryLimit::Bytes(NonZeroU64::new(1 << 36).unwrap()),
                None if self.rgba => MemoryLimit::Bytes(NonZeroU64::MAX),
                None => MemoryLimit::Unlimited,
            });
        }
        if all || self.cons { o.check_frame_consistency(self.cons); }
        if all || self.skip { o.skip_frame_decoding(self.skip); }
        if all || self.endc { o.check_lzw_end_code(self.endc); }
        if all || self.unk { o.allow_unknown_blocks(self.unk); }
        if way % 5 == 0 { o.clone() } else { o }
    }
    pub fn json(&self) -> String {
        Obj::new().n("mem", if self.mem <= 0 { -1 } else { self.mem }).b("rgba", self.rgba).b("cons", self.cons)
            .b("skip", self.skip).b("endc", self.endc).b("unk", self.unk).end()
    }
    pub fn random(r: &mut Rng) -> Self {
        Opt { mem: if r.chance(1, 4) { *r.pick(&[1, 16, 64, 100, 300, 1000]) } else { 50_000_000 }, rgba: r.chance(1, 2), cons: r.chance(1, 6),
            skip: r.chance(1, 5), endc: r.chance(1, 4), unk: r.chance(1, 4) }
    }
}

#[derive(Clone, Debug)]
pub struct Fault { pub o: usize, pub k: ErrorKind, pub p: bool }

#[derive(Clone, Debug)]
pub enum Op {
    Nfi, Rnf, Acc, Iter, It, Fin,
    /// buffer of the frame's size plus this
    Rib(i64),
    Fill(usize),
    /// pieces of that many pixels until the frame is complete
    Pieces(usize),
    /// pieces of varying sizes
    RandomPieces(u64),
    /// everything but that many pixels
    AllBut(usize),
    /// next frames until the end, in one way
    Each(Box<Op>),
}

#[derive(Clone, Debug)]
pub enum Sched { All, Fixed(usize), Cuts(Vec<usize>), Random(u64, usize) }

pub struct ChunkReader<'a> { data: &'a [u8], pos: usize, sched: Sched, r: Rng, faults: &'a [Fault], fi: usize }

impl<'a> ChunkReader<'a> {
    pub fn new(data: &'a [u8], sched: Sched, faults: &'a [Fault]) -> Self {
        let seed = if let Sched::Random(s, _) = sched { s } else { 0 };
        ChunkReader { data, pos: 0, sched, r: Rng::new(seed), faults, fi: 0 }
    }
}

impl Read for ChunkReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut limit = self.data.len();
        if let Some(f) = self.faults.get(self.fi) {
            if self.pos == f.o {
                if !f.p { self.fi += 1; }
                // the end of a file which grows later
                if f.k == ErrorKind::UnexpectedEof { return Ok(0); }
                return Err(crate::tag::error(f.k));
            }
            limit = f.o;
        }
        let mut n = buf.len().min(limit - self.pos);
        match &self.sched {
            Sched::All => {}
            Sched::Fixed(k) => n = n.min(*k),
            Sched::Cuts(c) => if let Some(&e) = c.iter().find(|&&e| e > self.pos) { n = n.min(e - self.pos) },
            Sched::Random(_, m) => { let k = self.r.range(1, *m); n = n.min(k) }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn err_class(e: &DecodingError) -> String {
    match e {
        DecodingError::Format(_) => "fmt".into(),
        DecodingError::Io(e) => crate::tag::kind(e),
    }
}

pub fn dispose(d: DisposalMethod) -> i64 {
    match d { DisposalMethod::Any => 0, DisposalMethod::Keep => 1, DisposalMethod::Background => 2, DisposalMethod::Previous => 3 }
}

pub fn frame_json(f: &Frame<'_>) -> String {
    Obj::new().n("l", f.left.into()).n("t", f.top.into()).n("w", f.width.into()).n("h", f.height.into())
        .b("il", f.interlaced).n("dl", f.delay.into()).n("di", dispose(f.dispose))
        .n("tr", f.transparent.map_or(-1, i64::from)).b("ui", f.needs_user_input)
        .b("hp", f.palette.is_some()).a("pal", f.palette.as_deref().unwrap_or(&[])).end()
}

fn header(o: Obj, d: &Decoder<ChunkReader<'_>>) -> Obj {
    o.n("w", d.width().into()).n("h", d.height().into()).a("gp", d.global_palette().unwrap_or(&[]))
        .n("bg", d.bg_color().map_or(-1, |v| v as i64))
        .n("rep", match d.repeat() { Repeat::Infinite => -1, Repeat::Finite(n) => n.into() })
}

const SENTINEL: u8 = 170;
/// Larger buffers are not tried.
const MAX_BUF: usize = 1 << 20;

pub type Events = Vec<(String, i64)>;

enum D<'a> { None, Dec(Box<Decoder<ChunkReader<'a>>>), Iter(Box<<Decoder<ChunkReader<'a>> as IntoIterator>::IntoIter>) }

pub struct Run<'a> { d: D<'a>, pub ev: Events, pub stop: bool }

impl<'a> Run<'a> {
    /// calls f, catching panics; the result is an event without its closing brace and peak
    fn call<T>(&mut self, name: &str, n: Option<usize>, f: impl FnOnce(&mut D<'a>) -> (Obj, T)) -> Option<T> {
        watch::tick();
        let d = &mut self.d;
        let (res, peak) = measure(|| catch_unwind(AssertUnwindSafe(|| f(d))));
        let base = |o: Obj| { let o = o.s("c", name); if let Some(n) = n { o.n("n", n as i64) } else { o } };
        match res {
            Ok((o, t)) => { self.ev.push((base(o).end(), peak)); Some(t) }
            Err(_) => { self.ev.push((base(Obj::new().s("r", "panic")).end(), 0)); self.stop = true; None }
        }
    }

    fn frame_ev(f: Result<Option<(String, Option<Vec<u8>>)>, DecodingError>) -> (Obj, u8) {
        match f {
            Ok(Some((j, buf))) => {
                let o = Obj::new().s("r", "ok").raw("f", &j);
                (match buf { Some(b) => o.a("buf", &b), None => o }, 1)
            }
            Ok(None) => (Obj::new().s("r", "none"), 0),
            Err(e) => (Obj::new().s("r", &err_class(&e)), 2),
        }
    }

    fn buffer_size(&self) -> Option<usize> {
        if let D::Dec(d) = &self.d { Some(d.buffer_size()) } else { None }
    }

    fn fill(&mut self, n: usize) -> bool {
        if n > MAX_BUF { return false; }
        self.call("fill", Some(n), |d| {
            let D::Dec(d) = d else { unreachable!() };
            let mut buf = unmeasured(|| vec![SENTINEL; n]);
            let r = d.fill_buffer(&mut buf);
            unmeasured(|| match r {
                Ok(full) => (Obj::new().s("r", "ok").b("full", full).a("buf", &buf), full),
                Err(e) => (Obj::new().s("r", &err_class(&e)), false),
            })
        }).unwrap_or(false)
    }

    /// returns what the op found: 0 end, 1 something, 2 error
    pub fn op(&mut self, op: &Op, bpp: usize) -> u8 {
        if self.stop { return 0; }
        match (&self.d, op) {
            (D::Dec(_), Op::It) | (D::None, _) => return 0,
            (D::Iter(_), Op::It | Op::Fin) => {}
            (D::Iter(_), Op::Each(_)) => {}
            (D::Iter(_), _) => return 0,
            _ => {}
        }
        match op {
            Op::Nfi => self.call("nfi", None, |d| {
                let D::Dec(d) = d else { unreachable!() };
                let r = d.next_frame_info();
                unmeasured(|| Self::frame_ev(r.map(|f| f.map(|f| (frame_json(f), None)))))
            }).unwrap_or(0),
            Op::Rnf => self.call("rnf", None, |d| {
                let D::Dec(d) = d else { unreachable!() };
                let r = d.read_next_frame();
                unmeasured(|| Self::frame_ev(r.map(|f| f.map(|f| (frame_json(f), Some(f.buffer.to_vec()))))))
            }).unwrap_or(0),
            Op::It => self.call("it", None, |d| {
                let D::Iter(d) = d else { unreachable!() };
                let r = d.next();
                unmeasured(|| Self::frame_ev(r.transpose().map(|f| f.map(|f| (frame_json(&f), Some(f.buffer.to_vec()))))))
            }).unwrap_or(0),
            Op::Rib(k) => {
                let Some(bs) = self.buffer_size() else { return 0 };
                if bs > MAX_BUF { return 1; }
                let n = (bs as i64 + k).max(0) as usize;
                self.call("rib", Some(n), |d| {
                    let D::Dec(d) = d else { unreachable!() };
                    let mut buf = unmeasured(|| vec![SENTINEL; n]);
                    let r = d.read_into_buffer(&mut buf);
                    unmeasured(|| match r {
                        Ok(()) => (Obj::new().s("r", "ok").a("buf", &buf), 1),
                        Err(e) => (Obj::new().s("r", &err_class(&e)), 2),
                    })
                }).unwrap_or(0)
            }
            Op::Fill(n) => u8::from(self.fill(*n)),
            Op::Pieces(p) => {
                let Some(bs) = self.buffer_size() else { return 0 };
                let mut left = bs;
                let mut guard = 0;
                while left > 0 && guard < 300 && !self.stop {
                    let n = (p * bpp).min(left);
                    if !self.fill(n) { break; }
                    left -= n;
                    guard += 1;
                }
                1
            }
            Op::RandomPieces(seed) => {
                let Some(bs) = self.buffer_size() else { return 0 };
                let mut r = Rng::new(*seed);
                let max = r.range(1, 40);
                let mut left = bs;
                let mut guard = 0;
                while left > 0 && guard < 100 && !self.stop {
                    let n = (r.range(1, max) * bpp).min(left);
                    if !self.fill(n) { break; }
                    left -= n;
                    guard += 1;
                }
                1
            }
            Op::AllBut(k) => {
                let Some(bs) = self.buffer_size() else { return 0 };
                if bs > k * bpp { self.fill(bs - k * bpp); }
                1
            }
            Op::Acc => self.call("acc", None, |d| {
                let D::Dec(d) = d else { unreachable!() };
                let p = d.palette().map(|p| p.to_vec()).ok();
                let o = header(Obj::new().s("r", "ok"), d);
                let bs = d.buffer_size();
                (o.n("bs", if bs > i32::MAX as usize { -1 } else { bs as i64 }).n("ll", d.line_length() as i64)
                    .b("haspal", p.is_some()).a("pal", p.as_deref().unwrap_or(&[])), 1)
            }).unwrap_or(0),
            Op::Iter => self.call("iter", None, |d| {
                let D::Dec(dec) = std::mem::replace(d, D::None) else { unreachable!() };
                *d = D::Iter(Box::new(dec.into_iter()));
                (Obj::new().s("r", "ok"), 1)
            }).unwrap_or(0),
            Op::Fin => {
                let r = self.call("fin", None, |d| {
                    let mut rd = match std::mem::replace(d, D::None) {
                        D::Dec(d) => d.into_inner(),
                        D::Iter(d) => d.into_inner(),
                        D::None => unreachable!(),
                    };
                    let mut rest = rd.buffer().len();
                    let inner = rd.get_mut();
                    rest += inner.data.len() - inner.pos;
                    (Obj::new().s("r", "ok").n("left", rest as i64), 1)
                }).unwrap_or(0);
                self.stop = true;
                r
            }
            Op::Each(op) => {
                for _ in 0..400 {
                    if matches!(**op, Op::Rnf | Op::It | Op::Nfi) {
                        if self.op(op, bpp) != 1 { break; }
                    } else {
                        if self.op(&Op::Nfi, bpp) != 1 { break; }
                        self.op(op, bpp);
                    }
                    if self.stop { break; }
                }
                1
            }
        }
    }
}

pub fn run(file: &[u8], opt: &Opt, faults: &[Fault], sched: &Sched, script: &[Op]) -> Events {
    let mut run = Run { d: D::None, ev: vec![], stop: false };
    let bpp = if opt.rgba { 4 } else { 1 };
    let way = file.len() + script.len();
    let o = opt.build(way);
    run.call("new", None, |d| {
        let r = ChunkReader::new(file, sched.clone(), faults);
        match if way % 2 == 0 && opt.is_default() { Decoder::new(r) } else { o.read_info(r) } {
            Ok(dec) => { let j = header(Obj::new().s("r", "ok"), &dec); *d = D::Dec(Box::new(dec)); (j, ()) }
            Err(e) => (Obj::new().s("r", &err_class(&e)), ()),
        }
    });
    for op in script {
        if run.stop || matches!(run.d, D::None) { break; }
        run.op(op, bpp);
    }
    run.ev
}

pub fn faults_json(faults: &[Fault]) -> String {
    list(&faults.iter().map(|f| Obj::new().n("o", f.o as i64).s("k", &format!("{:?}", f.k)).b("p", f.p).end()).collect::<Vec<_>>())
}

pub fn case_json(tag: &str, file: &[u8], opt: &Opt, faults: &[Fault], sched: &Sched, ev: &Events) -> String {
    let ev: Vec<String> = ev.iter().map(|(e, pk)| format!("{},\"pk\":{}}}", &e[..e.len() - 1], pk)).collect();
    let mut s = format!("{sched:?}");
    s.truncate(200);
    Obj::new().s("tag", tag).a("file", file).raw("opt", &opt.json()).raw("faults", &faults_json(faults))
        .s("sched", &s).raw("ev", &list(&ev)).end()
}

/// Runs under every schedule; one trace per distinct outcome.
pub fn traces(tag: &str, file: &[u8], opt: &Opt, faults: &[Fault], scheds: &[Sched], script: &[Op], out: &mut crate::Out) {
    let mut seen: Vec<Vec<String>> = vec![];
    watch::begin(|| format!("{{\"tag\":\"{tag}\",\"script\":\"{}\",\"case\":{}}}", format!("{script:?}").replace('"', "'"),
        case_json(tag, file, opt, faults, &Sched::All, &vec![])));
    for s in scheds {
        watch::sched(format!("{s:?}"));
        let ev = run(file, opt, faults, s, script);
        out.execs += 1;
        let plain: Vec<String> = ev.iter().map(|e| e.0.clone()).collect();
        if let Some(k) = seen.iter().position(|x| *x == plain) {
            // a result is the same, but keep the largest allocations
            if k == 0 { for (i, e) in ev.iter().enumerate() { out.peak_update(i, e.1); } }
            continue;
        }
        if seen.len() >= 4 { continue; }
        seen.push(plain);
        out.push_k1(tag, file, opt, faults, s, ev);
    }
    out.finish_case();
}
