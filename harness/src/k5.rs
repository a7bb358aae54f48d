//! Driver of the frame constructors.
use crate::js::{list, Obj};
use crate::k1::frame_json;
use crate::rng::Rng;
use crate::watch;
use gif::{ColorOutput, DecodeOptions, Encoder, Frame};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// RGBA pixels of the frame after writing and reading it
fn shown(f: &Frame<'_>) -> Vec<u8> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut e = Encoder::new(Vec::new(), f.width, f.height, &[]).unwrap();
        e.write_frame(f).unwrap();
        let file = e.into_inner().unwrap();
        let mut o = DecodeOptions::new();
        o.set_color_output(ColorOutput::RGBA);
        let mut d = o.read_info(&file[..]).unwrap();
        let f = d.read_next_frame().unwrap().unwrap();
        f.buffer.to_vec()
    }));
    r.unwrap_or_default()
}

pub struct Make { pub c: &'static str, pub w: u16, pub h: u16, pub px: Vec<u8>, pub pal: Vec<u8>, pub tr: Option<u8>, pub speed: i32 }

pub fn traces(tag: &str, calls: &[Make], out: &mut crate::Out, _r: &mut Rng) {
    let describe = |c: &Make| Obj::new().s("c", c.c).n("w", c.w.into()).n("h", c.h.into()).a("px", &c.px).a("pal", &c.pal)
        .n("tr", c.tr.map_or(-1, i64::from)).n("speed", c.speed.into());
    let mut ev = vec![];
    for c in calls {
        watch::begin(|| describe(c).end());
        let r = catch_unwind(AssertUnwindSafe(|| match c.c {
            "rgba" if c.speed == 1 => Frame::from_rgba(c.w, c.h, &mut c.px.clone()),
            "rgba" => Frame::from_rgba_speed(c.w, c.h, &mut c.px.clone(), c.speed),
            "rgb" if c.speed == 1 => Frame::from_rgb(c.w, c.h, &c.px),
            "rgb" => Frame::from_rgb_speed(c.w, c.h, &c.px, c.speed),
            "pal" => Frame::from_palette_pixels(c.w, c.h, &c.px[..], &c.pal[..], c.tr),
            _ => Frame::from_indexed_pixels(c.w, c.h, &c.px[..], c.tr),
        }));
        let o = describe(c);
        ev.push(match r {
            Err(_) => o.s("r", "panic").end(),
            Ok(f) => o.s("r", "ok").raw("f", &frame_json(&f)).a("buf", &f.buffer)
                .a("shown", &if c.c.starts_with("rgb") { shown(&f) } else { vec![] }).end(),
        });
        out.execs += 1;
        watch::end();
    }
    out.lines.push(Obj::new().s("tag", tag).raw("ev", &list(&ev)).end());
}
