//! Driver of the FrameDecoder for compressed frames.
use crate::alloc::measure;
use crate::js::{list, Obj};
use crate::k1::{err_class, frame_json, Opt};
use crate::watch;
use gif::streaming_decoder::FrameDecoder;
use gif::Frame;
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SENTINEL: u8 = 170;

pub enum Step {
    /// set_global_palette
    Set(Vec<u8>),
    /// decode in place, or into a caller's buffer of the frame's size plus that
    Decode(Frame<'static>, Option<i64>),
}

pub fn traces(tag: &str, opt: &Opt, steps: &[Step], out: &mut crate::Out) {
    let describe = || list(&steps.iter().map(|s| match s {
        Step::Set(p) => Obj::new().a("set", p).end(),
        Step::Decode(f, _) => Obj::new().raw("f", &frame_json(f)).a("data", &f.buffer).end(),
    }).collect::<Vec<_>>());
    watch::begin(|| format!("{{\"tag\":\"{tag}\",\"opt\":{},\"steps\":{}}}", opt.json(), describe()));
    let mut d = FrameDecoder::new(opt.build(steps.len()));
    let mut ev = vec![];
    for s in steps {
        watch::tick();
        let (frame, into) = match s {
            Step::Set(p) => {
                d.set_global_palette(p.clone());
                ev.push(Obj::new().a("set", p).end());
                continue;
            }
            Step::Decode(f, into) => (f, into),
        };
        let mut f = frame.clone();
        let bs = catch_unwind(AssertUnwindSafe(|| d.buffer_size(&f)));
        let o = Obj::new().raw("f", &frame_json(frame)).a("data", &frame.buffer);
        let Ok(bs) = bs else { ev.push(o.s("r", "panic").end()); break };
        let o = o.n("bs", if bs > i32::MAX as usize { -1 } else { bs as i64 });
        let n = into.map(|k| (bs as i64 + k).max(0) as usize);
        let o = o.n("n", n.map_or(-1, |n| n as i64));
        if n.map_or(false, |n| n > 1 << 20) { continue; }
        let (res, pk) = measure(|| catch_unwind(AssertUnwindSafe(|| {
            if let Some(n) = n {
                let mut buf = vec![SENTINEL; n];
                let r = d.decode_lzw_encoded_frame_into_buffer(&f, &mut buf);
                (r, buf)
            } else {
                let r = d.decode_lzw_encoded_frame(&mut f);
                (r, match &f.buffer { Cow::Owned(v) => v.clone(), Cow::Borrowed(b) => b.to_vec() })
            }
        })));
        let o = match res {
            Err(_) => { ev.push(o.s("r", "panic").end()); break }
            Ok((r, buf)) => o.s("r", &r.map_or_else(|e| err_class(&e), |()| "ok".into())).a("buf", &buf).raw("g", &frame_json(&f)),
        };
        ev.push(o.n("pk", pk).end());
    }
    out.execs += 1;
    watch::end();
    out.lines.push(Obj::new().s("tag", tag).raw("opt", &opt.json()).raw("ev", &list(&ev)).end());
}
