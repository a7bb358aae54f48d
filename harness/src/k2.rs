//! Driver of the low-level StreamingDecoder.
use crate::js::{list, Obj};
use crate::k1::{err_class, frame_json, Opt, Sched};
use crate::rng::Rng;
use crate::watch;
use gif::streaming_decoder::{Block, Decoded, OutputBuffer, StreamingDecoder};
use gif::{Repeat, Version};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Where pixels go: per image, nowhere (0) or to slices of at most that many bytes, or only to empty slices (`EMPTY`)
pub const EMPTY: usize = usize::MAX;
#[derive(Clone, Debug)]
pub struct Sink { pub per_image: Vec<usize>, pub vary: bool }

struct Sizes { s: Sched, r: Rng }
impl Sizes {
    fn new(s: &Sched) -> Self { Sizes { s: s.clone(), r: Rng::new(if let Sched::Random(s, _) = s { *s } else { 0 }) } }
    fn next(&mut self, off: usize, left: usize) -> usize {
        match &self.s {
            Sched::All => left,
            Sched::Fixed(k) => left.min(*k),
            Sched::Cuts(c) => c.iter().find(|&&e| e > off).map_or(left, |e| left.min(e - off)),
            Sched::Random(_, m) => { let k = self.r.range(1, *m); left.min(k) }
        }
    }
}

pub fn run(file: &[u8], sched: &Sched, sink: &Sink) -> Vec<String> {
    let mut ev: Vec<String> = vec![];
    let mut sizes = Sizes::new(sched);
    let mut d = StreamingDecoder::new();
    let mut off = 0;
    let mut out: Vec<u8> = vec![];
    let mut buf = vec![0u8; 1 << 16];
    let mut image = 0;
    let mut calls = 0usize;
    let mut r = Rng::new(77);
    let mut trailer = false;
    let mut in_image = false;
    loop {
        watch::tick();
        calls += 1;
        let cap = sink.per_image[image % sink.per_image.len()];
        let md = if cap == EMPTY { -1 } else { cap as i64 };
        let none = cap == 0;
        let cap = if cap == EMPTY { 0 } else { cap };
        let n = sizes.next(off, file.len() - off);
        if off == file.len() || calls > 20 * file.len() + 2_000_000 {
            ev.push(Obj::new().s("e", if off == file.len() { "end" } else { "stuck" }).n("o", off as i64).n("md", md).a("px", &out).end());
            break;
        }
        let cap = if cap > 1 && sink.vary { r.range(1, cap) } else { cap };
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut ob = if none { OutputBuffer::None } else { OutputBuffer::Slice(&mut buf[..cap]) };
            if calls % 5 == 0 {
                // no input: nothing happens
                match d.update(&[], &mut ob) { Ok((0, Decoded::Nothing)) => {}, _ => return (0, "{\"e\":\"empty\"".into(), 0) }
            }
            match d.update(&file[off..off + n], &mut ob) {
                Err(e) => (0, Obj::new().s("e", "err").s("k", &err_class(&e)).end(), 0),
                Ok((c, Decoded::BytesDecoded(k))) => (c, String::new(), k.get()),
                Ok((c, what)) => {
                    let o = Obj::new();
                    let s = match &what {
                        Decoded::Nothing => String::new(),
                        Decoded::BackgroundColor(v) => o.s("e", "bg").n("v", (*v).into()).end(),
                        Decoded::GlobalPalette(p) => o.s("e", "gpal").a("pal", p).end(),
                        Decoded::Repetitions(r) => o.s("e", "rep").n("v", match r { Repeat::Infinite => -1, Repeat::Finite(n) => (*n).into() }).end(),
                        Decoded::HeaderEnd => o.s("e", "hend").end(),
                        Decoded::BlockStart(b) => o.s("e", "block").n("v", match b { Block::Image => 0x2C, Block::Extension => 0x21, Block::Trailer => 0x3B }).end(),
                        Decoded::SubBlockFinished(id) | Decoded::BlockFinished(id) => {
                            let fin = matches!(what, Decoded::BlockFinished(_));
                            let (last, data, end) = d.last_ext();
                            o.s("e", if fin { "fin" } else { "sub" }).n("id", id.0.into()).b("same", last.0 == id.0 && end == fin && id.into_known().map_or(true, |e| gif::AnyExtension::from(e) == *id)).a("data", data).end()
                        }
                        Decoded::FrameMetadata(_) => o.s("e", "meta").raw("f", &frame_json(d.current_frame())).end(),
                        Decoded::LzwDataCopied(_) => o.s("e", "lzw").end(),
                        Decoded::DataEnd => o.s("e", "dend").end(),
                        _ => o.s("e", "unknown").end(),
                    };
                    (c, s, 0)
                }
            }
        }));
        let (c, mut s, k) = match res {
            Ok(x) => x,
            Err(_) => { ev.push("{\"e\":\"panic\",\"o\":0,\"md\":0}".into()); break; }
        };
        if c > n || k > cap { ev.push("{\"e\":\"over\",\"o\":0,\"md\":0}".into()); break; }
        off += c;
        if k > 0 {
            if !in_image { ev.push("{\"e\":\"pixels outside of an image\",\"o\":0,\"md\":0}".into()); break; }
            out.extend_from_slice(&buf[..k]);
            continue;
        }
        if s.is_empty() { continue; }
        s.pop();
        s.push_str(&format!(",\"o\":{off},\"ver\":{},\"w\":{},\"h\":{}", match d.version() { Version::V87a => 87, Version::V89a => 89 }, d.width(), d.height()));
        if s.starts_with("{\"e\":\"meta\"") { in_image = true; }
        if s.starts_with("{\"e\":\"dend\"") || s.starts_with("{\"e\":\"err\"") {
            s.push_str(",\"px\":");
            crate::js::bytes(&mut s, &out);
            s.push_str(&format!(",\"md\":{md}"));
            out.clear();
            in_image = false;
            image += 1;
        }
        s.push('}');
        let (err, tr) = (s.starts_with("{\"e\":\"err\""), s.starts_with("{\"e\":\"block\",\"v\":59"));
        ev.push(s);
        if tr { trailer = true; }
        if err || trailer {
            // whatever follows: no panic, no endless loop
            let res = catch_unwind(AssertUnwindSafe(|| {
                let mut events = false;
                let mut rest = &file[off.min(file.len())..];
                for _ in 0..20 {
                    watch::tick();
                    let mut ob = OutputBuffer::Slice(&mut buf);
                    match d.update(rest, &mut ob) {
                        Ok((c, e)) => { rest = &rest[c..]; events |= !matches!(e, Decoded::Nothing); }
                        Err(_) => { if rest.is_empty() { break; } rest = &rest[1..]; }
                    }
                }
                events
            }));
            ev.push(Obj::new().s("e", "post").n("o", off as i64).s("r", match res { Err(_) => "panic", Ok(true) => "events", Ok(false) => "ok" }).end());
            break;
        }
    }
    ev
}

/// Runs under every schedule; one trace per distinct outcome.
pub fn traces(tag: &str, file: &[u8], runs: &[(Sched, Sink)], out: &mut crate::Out) {
    let opt = Opt::new();
    watch::begin(|| format!("{{\"tag\":\"{tag}\",\"runs\":\"{}\",\"case\":{}}}", format!("{runs:?}").replace('"', "'"),
        Obj::new().a("file", file).end()));
    let mut seen: Vec<Vec<String>> = vec![];
    for (s, sink) in runs {
        watch::sched(format!("{s:?}"));
        let ev = run(file, s, sink);
        out.execs += 1;
        if seen.contains(&ev) || seen.len() >= 6 { continue; }
        let mut st = format!("{s:?} {sink:?}");
        st.truncate(200);
        out.lines.push(Obj::new().s("tag", tag).a("file", file).raw("opt", &opt.json()).raw("faults", "[]")
            .s("sched", &st).raw("ev", &list(&ev)).end());
        seen.push(ev);
    }
    watch::end();
}
