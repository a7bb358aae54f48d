//! What is generated for each property.
use crate::gen::{self, GenCfg};
use crate::k1::{self, Fault, Op, Opt, Sched};
use crate::k2::{self, Sink};
use crate::k3;
use crate::k5::{self, Make};
use crate::k4::{self, Call, History, Plan};
use crate::rng::Rng;
use crate::{parallel, Out};
use gif::{DisposalMethod, Frame, Repeat};
use std::borrow::Cow;
use std::io::ErrorKind;

pub type Res = Vec<(&'static str, (Vec<String>, usize))>;

fn each(op: Op) -> Op { Op::Each(Box::new(op)) }

/// One way of reading a frame's pixels after its info
fn data_op(r: &mut Rng) -> Op {
    match r.below(6) {
        0 => Op::Rib(0),
        1 => Op::Rib(r.range(1, 9) as i64),
        2 => Op::Pieces(r.range(1, 9)),
        3 => Op::Pieces(1 << 16),
        _ => Op::RandomPieces(r.next()),
    }
}

/// One way of getting or skipping one frame
fn any_way(r: &mut Rng) -> Vec<Op> {
    match r.below(10) {
        0..=2 => vec![Op::Rnf],
        3 => vec![Op::Nfi],
        4 => vec![Op::Nfi, Op::Fill(4 * r.range(1, 10) + if r.chance(1, 3) { r.below(4) } else { 0 })],
        5 => vec![Op::Nfi, Op::AllBut(r.range(1, 3))],
        6 => vec![Op::Nfi, Op::Rib(-(r.range(1, 5) as i64))],
        7 => vec![Op::Nfi, Op::Acc, data_op(r)],
        _ => vec![Op::Nfi, data_op(r)],
    }
}

/// Any order of calls at all
fn any_script(r: &mut Rng) -> Vec<Op> {
    let mut s = vec![];
    for _ in 0..r.range(3, 14) {
        match r.below(12) {
            0..=1 => s.push(Op::Nfi),
            2..=3 => s.push(Op::Rnf),
            4 => s.push(Op::Rib(r.below(12) as i64 - 6)),
            5..=6 => s.push(Op::Fill(r.below(70))),
            7 => s.push(Op::Acc),
            8 => s.push(Op::RandomPieces(r.next())),
            9 => s.push(Op::AllBut(r.range(0, 3))),
            10 => if r.chance(1, 3) { s.push(Op::Iter); s.push(Op::It) } else { s.append(&mut any_way(r)) },
            _ => { if r.chance(1, 2) { s.push(each(Op::Rnf)) } else { s.push(Op::Nfi); s.push(data_op(r)) } }
        }
    }
    s.push(each(Op::It));
    if r.chance(2, 3) { s.push(Op::Acc); s.push(Op::Fin); }
    s
}

fn scheds(r: &mut Rng, len: usize) -> Vec<Sched> {
    let c = r.range(1, len.max(2) - 1);
    vec![Sched::All, Sched::Fixed(1), Sched::Fixed(r.range(2, 9)), Sched::Random(r.next(), 20), Sched::Cuts(vec![c])]
}

fn two(r: &mut Rng) -> Vec<Sched> { vec![Sched::All, if r.chance(1, 2) { Sched::Fixed(1) } else { Sched::Random(r.next(), 30) }] }

fn sink(r: &mut Rng) -> Sink {
    let n = r.range(1, 3);
    Sink { per_image: (0..n).map(|_| *r.pick(&[0, 1, 2, 3, 7, 40, 300, 5000, 5000, k2::EMPTY])).collect(), vary: r.chance(1, 2) }
}

fn hostile(r: &mut Rng) -> Vec<u8> {
    let cfg = GenCfg { wild_lzw: 40, quirks: 30, unknown: 10, screen_defects: 30, no_palette: 30, trailer: 85, junk: 30, miscount: 30,
        bad_code_size: 5, huge: 3, max_frames: 4, ..GenCfg::default() };
    let mut f = gen::file(r, &cfg).bytes;
    if r.chance(2, 3) { gen::mutate(r, &mut f); }
    if r.chance(1, 30) { let n = r.below(60); f = r.bytes(n); if r.chance(1, 2) { f.splice(0..0, b"GIF89a".iter().copied()); } }
    f
}

fn wild_cfg(r: &mut Rng) -> GenCfg {
    let mut c = GenCfg { max_dim: 9, ..GenCfg::default() };
    match r.below(5) {
        0 => c.wild_lzw = 60,
        1 => { c.miscount = 60; c.no_palette = 40 }
        2 => { c.unknown = 30; c.bad_code_size = 10 }
        3 => { c.huge = 10; c.trailer = 70 }
        _ => {}
    }
    c
}

// ------------------------------------------------------------------ compressed frames

fn lzw_frame(r: &mut Rng, gp_len: usize, wild: bool, max_dim: usize) -> Frame<'static> {
    let dim = |r: &mut Rng| if r.chance(1, 15) { 0 } else { r.range(1, max_dim) };
    let (w, h) = (dim(r), dim(r));
    let mut f = Frame { left: r.below(300) as u16, top: r.below(9) as u16, width: w as u16, height: h as u16, delay: r.below(99) as u16,
        interlaced: r.chance(1, 3), needs_user_input: r.chance(1, 4), dispose: *r.pick(&[DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous]),
        transparent: if r.chance(1, 2) { Some(r.below(6) as u8) } else { None }, ..Frame::default() };
    if gp_len == 0 || r.chance(1, 3) {
        let n = *r.pick(&[2usize, 4, 8, 16, 256]);
        f.palette = Some(gen::colors(r, n));
    }
    let m = if wild && r.chance(1, 10) { *r.pick(&[0, 12, 255]) } else { *r.pick(&[1, 2, 2, 3, 4, 5, 7, 8, 8, 9, 10, 11]) } as u32;
    let mut n = w * h;
    if wild || r.chance(1, 6) { n = match r.below(4) { 0 => n.saturating_sub(1), 1 => r.below(n + 1), 2 => n + r.below(9), _ => n }; }
    let colors = f.palette.as_ref().map_or(gp_len, |p| p.len()) as u32 / 3;
    let mut data = vec![m as u8];
    if (1..=11).contains(&m) {
        let st = gen::style(r, wild);
        let alphabet = if r.chance(3, 4) { colors } else { 256 };
        data.append(&mut gen::lzw_random(r, m, n, alphabet, st));
        if r.chance(1, 6) { let k = r.below(40); data.append(&mut r.bytes(k)); }
        if wild && r.chance(1, 4) { let k = r.range(1, data.len()); data.truncate(k); }
        if wild && r.chance(1, 4) { let k = r.below(data.len()); data[k] ^= 1 << r.below(8); }
    }
    if r.chance(1, 40) { data.clear(); }
    f.buffer = Cow::Owned(data);
    f
}

fn frame_decoder_case(r: &mut Rng, out: &mut Out, wild: usize, max_dim: usize) {
    let gp_len = *r.pick(&[0usize, 6, 12, 48, 768]);
    let gp = gen::colors(r, gp_len / 3);
    let wild = gen::pct(r, wild);
    let mut opt = Opt::new().rgba(r.chance(1, 2)).endc(r.chance(1, 3));
    let frames: Vec<_> = (0..r.range(1, 5)).map(|_| lzw_frame(r, gp_len, wild, max_dim)).collect();
    if r.chance(1, 4) {
        let f = r.pick(&frames);
        let n = f.width as i64 * f.height as i64 * if opt.rgba { 4 } else { 1 };
        opt.mem = (n + r.below(3) as i64 - 1).max(1);
    } else if r.chance(1, 6) { opt.mem = -1 }
    let mut steps = vec![k3::Step::Set(gp)];
    for frame in frames {
        steps.push(k3::Step::Decode(frame, match r.below(6) { 0..=3 => None, 4 => Some(r.below(9) as i64), _ => Some(-(r.below(4) as i64)) }));
        if r.chance(1, 4) { steps.push(k3::Step::Set(if r.chance(1, 4) { vec![] } else { gen::colors(r, *[2, 4, 16].get(steps.len() % 3).unwrap()) })); }
    }
    k3::traces("frames", &opt, &steps, out);
}

fn fdec(n: usize, seed: u64, wild: usize, max_dim: usize) -> (&'static str, (Vec<String>, usize)) {
    ("fdec", parallel(n, seed ^ 0x33, move |_, r, out| frame_decoder_case(r, out, wild, max_dim)))
}

fn strm(n: usize, seed: u64, f: impl Fn(&mut Rng) -> Vec<u8> + Sync) -> (&'static str, (Vec<String>, usize)) {
    ("strm", parallel(n, seed ^ 0x22, move |_, r, out| {
        let f = f(r);
        let mut runs: Vec<_> = vec![];
        let sinks = [sink(r), sink(r)];
        for (i, s) in scheds(r, f.len()).into_iter().enumerate() { runs.push((s, sinks[i % 2].clone())); }
        k2::traces("stream", &f, &runs, out);
    }))
}

fn dec(n: usize, seed: u64, f: impl Fn(usize, &mut Rng, &mut Out) + Sync) -> (&'static str, (Vec<String>, usize)) {
    ("dec", parallel(n, seed ^ 0x11, f))
}

/// Frames of more than 65536 pixels
fn big(n: usize, seed: u64, rgba: usize) -> (&'static str, (Vec<String>, usize)) {
    ("dec3", parallel(n, seed ^ 0x12, move |_, r, out| {
        let f = gen::big_file(r);
        let mut opt = Opt::new().rgba(gen::pct(r, rgba));
        if r.chance(1, 3) { opt.mem = *r.pick(&[65_536, 131_072, 262_144, 262_143, 100_000, 4_000_000]); }
        let script = match r.below(5) {
            0 | 1 => vec![Op::Rnf, Op::Rnf, Op::Rnf],
            2 => vec![Op::Nfi, Op::Rib(0), Op::Nfi, Op::Acc, Op::Rib(r.below(3) as i64), Op::Rnf],
            3 => vec![Op::Nfi, Op::Nfi, Op::Acc, Op::Pieces(*r.pick(&[65_536, 65_535, 40_001])), Op::Nfi, Op::Rib(0)],
            _ => vec![Op::Iter, Op::It, Op::It, Op::It, Op::It],
        };
        k1::traces("big", &f, &opt, &[], &[Sched::All, Sched::Fixed(4096)], &script, out);
    }))
}

/// More than 65536 bytes in one block
fn bulk(n: usize, seed: u64, skip: usize) -> (&'static str, (Vec<String>, usize)) {
    ("dec10", parallel(n, seed ^ 0x19, move |_, r, out| {
        let f = gen::bulky(r);
        let mut opt = Opt::new().skip(gen::pct(r, skip)).endc(r.chance(1, 4)).rgba(r.chance(1, 4));
        if r.chance(1, 2) { opt.mem = *r.pick(&[65_534, 65_535, 65_536, 65_537, 65_538, 66_000, 66_001, 70_001, 70_002, 80_000]); }
        let script = match r.below(3) { 0 => vec![each(Op::Rnf), Op::Fin], 1 => vec![Op::Iter, each(Op::It), Op::Fin], _ => vec![each(Op::Nfi), Op::Fin] };
        k1::traces("bulk", &f, &opt, &[], &[Sched::All, Sched::Fixed(r.range(100, 5000))], &script, out);
    }))
}

/// Files with many frames
fn many(n: usize, seed: u64, skip: bool) -> (&'static str, (Vec<String>, usize)) {
    ("dec8", parallel(n, seed ^ 0x15, move |i, r, out| {
        let lots = i % 4 == 0;
        let (from, to) = if lots { (257, 300) } else { (9, 40) };
        let cfg = GenCfg { max_dim: if lots { 1 } else { 3 }, min_frames: from, max_frames: to, exts: if lots { 3 } else { 15 }, ..GenCfg::default() };
        let f = gen::file(r, &cfg).bytes;
        let opt = Opt::new().rgba(r.chance(1, 4)).skip(skip || r.chance(1, 8)).endc(r.chance(1, 8)).cons(r.chance(1, 8));
        let script = match r.below(6) {
            0 | 1 => vec![each(Op::Rnf), Op::Rnf, Op::Acc, Op::Fin],
            2 => vec![Op::Iter, each(Op::It), Op::It, Op::Fin],
            3 => vec![each(Op::Nfi), Op::Acc, Op::Fin],
            4 => vec![each(Op::Rib(0)), Op::Nfi, Op::Fin],
            _ => { let mut s: Vec<Op> = (0..r.range(5, 200)).flat_map(|_| any_way(r)).collect(); s.push(each(Op::Rnf)); s.push(Op::Fin); s }
        };
        k1::traces("many", &f, &opt, &[], &[Sched::All, Sched::Fixed(1), Sched::Fixed(r.range(2, 2000))], &script, out);
    }))
}

/// Many encoder calls
fn many_calls(n: usize, seed: u64, pre: usize) -> (&'static str, (Vec<String>, usize)) {
    ("enc5", parallel(n, seed ^ 0x16, move |i, r, out| {
        let lots = i % 4 == 0;
        let mut c = EncCfg { dim: if lots { 1 } else { 3 }, rejected: 5, pre, exts: 10, frames: 30, extra: 0 };
        let mut h = history(r, &c);
        h.gp = gen::colors(r, 4);
        let last = h.calls.pop();
        let (most, from) = if lots { (300, 257) } else { (50, 12) };
        let want = r.range(from, most);
        c.frames = 20;
        while h.calls.len() < want {
            let mut more = history(r, &c).calls;
            more.pop();
            if lots { more.retain(|c| !matches!(c, Call::Frame(f) if f.buffer.len() > 100)); }
            for m in &mut more { if let Call::Frame(f) | Call::MakePre(f) = m { if r.chance(3, 4) { f.palette = None; } } }
            h.calls.append(&mut more);
        }
        h.calls.extend(last);
        k4::trace("many", &h, r, out, no_faults);
    }))
}

/// Long files: whole, cut off, or with failing readers; at places where readers have to be asked for more.
fn long(n: usize, seed: u64, way: &'static str) -> (&'static str, (Vec<String>, usize)) {
    ("dec6", parallel(n, seed ^ 0x13, move |i, r, out| {
        let (f, at) = gen::long_file(r, if i % 3 == 0 { 14_000 } else { 7000 });
        let places = [8191, 8192, 8193, at, at + 1, 16_384, at / 2, r.below(f.len()), r.below(f.len()), r.below(f.len())];
        let opt = Opt::new().rgba(r.chance(1, 4)).skip(way == "skip" || r.chance(1, 6)).endc(r.chance(1, 4));
        let script = match r.below(4) {
            0 => vec![each(Op::Rnf), Op::Rnf, Op::Fin],
            1 => vec![Op::Iter, each(Op::It), Op::It, Op::Fin],
            2 => vec![each(Op::Nfi), Op::Fin],
            _ => vec![Op::Nfi, Op::Rib(0), Op::Nfi, Op::Pieces(*r.pick(&[4096, 1000, 6999])), Op::Nfi, Op::Acc, Op::Nfi, Op::Rnf, Op::Fin],
        };
        let cut = |r: &mut Rng| (*r.pick(&places)).min(f.len());
        match way {
            "cut" => for _ in 0..2 { let c = cut(r); k1::traces("long", &f[..c], &opt, &[], &[Sched::All, Sched::Fixed(1), Sched::Fixed(1000)], &script, out); },
            "fault" => for _ in 0..2 {
                let kinds = [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof];
                let fs = vec![Fault { o: cut(r), k: *r.pick(&kinds), p: r.chance(1, 4) }];
                let script = retry_script(r, 1);
                k1::traces("long", &f, &opt, &fs, &[Sched::All, Sched::Fixed(1000)], &script, out);
            },
            _ => {
                let mut s = vec![Sched::All, Sched::Fixed(1), Sched::Fixed(4096), Sched::Random(r.next(), 700)];
                for p in places { s.push(Sched::Cuts(vec![p])); }
                k1::traces("long", &f, &opt, &[], &s, &script, out);
            }
        }
    }))
}

/// Frames with more codes than fit into the table
fn big_frame(r: &mut Rng, most: usize, dim: usize) -> Frame<'static> {
    let c = EncCfg { dim: 3, rejected: 0, pre: 0, exts: 0, frames: 1, extra: 0 };
    let mut f = plain_frame(r, &c);
    let (mut w, mut h) = (r.range(dim / 2, dim), r.range(1, dim));
    if w * h > most { (w, h) = (w.min(most), most / w.min(most)); }
    let odd = r.chance(1, 6);
    if odd { (w, h) = *r.pick(&[(65_535, 1), (1, 65_535), (257, 256), (256, 257), (300, 1), (1, 300), (256, 1), (1, 256), (1000, 2)]); }
    f.width = w as u16;
    f.height = h as u16;
    f.palette = Some(palette(r, false));
    let top = *r.pick(&[2usize, 4, 16, 64, 200, 256]);
    f.buffer = Cow::Owned(if odd || r.chance(1, 4) { gen::runs(r, w * h, top) } else { (0..w * h).map(|_| r.below(top) as u8).collect() });
    f
}

fn big_history(n: usize, seed: u64, pre: usize) -> (&'static str, (Vec<String>, usize)) {
    ("enc3", parallel(n, seed ^ 0x14, move |_, r, out| {
        let c = EncCfg { dim: 5, rejected: 0, pre: 50, exts: 20, frames: 2, extra: 0 };
        let mut h = history(r, &c);
        let f = big_frame(r, 9000, 130);
        let at = h.calls.iter().position(|c| matches!(c, Call::Fin | Call::Drop)).unwrap_or(h.calls.len());
        h.calls.insert(r.below(at + 1), if gen::pct(r, pre) { Call::MakePre(f) } else { Call::Frame(f) });
        k4::trace("big", &h, r, out, no_faults);
    }))
}

// ------------------------------------------------------------------ encoder histories

fn u16s(r: &mut Rng) -> u16 { match r.below(6) { 0 => 0, 1 => 65535, 2 => r.below(65536) as u16, _ => r.below(300) as u16 } }

fn disposal(r: &mut Rng) -> DisposalMethod { *r.pick(&[DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous]) }

fn palette(r: &mut Rng, bad: bool) -> Vec<u8> {
    let n = match r.below(12) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 256, 5 => 255, 6 => 128, 7 => 129, 8 => r.below(257), _ => r.range(2, 17) };
    let n = if bad { *r.pick(&[257usize, 258, 300, 512]) } else { n };
    let rest = if r.chance(1, 10) { r.below(3) } else { 0 };
    let mut p = gen::colors(r, n);
    p.extend(r.bytes(rest));
    p
}

/// Pixels with runs, noise, or repeated patterns, up to some maximum
fn pixels(r: &mut Rng, n: usize) -> Vec<u8> {
    let top = match r.below(4) { 0 => 1 + r.below(4), 1 => 1 << r.below(9), 2 => r.range(1, 256), _ => *r.pick(&[1usize, 2, 3, 4, 5, 127, 128, 129, 255, 256]) };
    let mut p: Vec<u8> = match r.below(4) {
        0 => { let v = r.below(top) as u8; vec![v; n] }
        1 => { let k = r.range(1, 20); let pat: Vec<u8> = (0..k).map(|_| r.below(top) as u8).collect(); (0..n).map(|i| pat[i % k]).collect() }
        2 => { let mut v = 0; (0..n).map(|_| { if r.chance(1, 5) { v = r.below(top) as u8 } v }).collect() }
        _ => (0..n).map(|_| r.below(top) as u8).collect(),
    };
    if n > 0 && r.chance(1, 3) { let k = r.below(n); p[k] = (top - 1) as u8; }
    p
}

#[derive(Clone, Copy)]
struct EncCfg { dim: usize, rejected: usize, pre: usize, exts: usize, frames: usize, extra: usize }

fn plain_frame(r: &mut Rng, c: &EncCfg) -> Frame<'static> {
    let dim = |r: &mut Rng| if r.chance(1, 20) { 0 } else { r.range(1, c.dim) };
    let (w, h) = (dim(r), dim(r));
    let mut f = Frame { left: u16s(r), top: u16s(r), width: w as u16, height: h as u16, delay: u16s(r), interlaced: r.chance(1, 3),
        needs_user_input: r.chance(1, 3), dispose: disposal(r), transparent: if r.chance(1, 2) { Some(r.byte()) } else { None }, ..Frame::default() };
    if r.chance(1, 2) { f.palette = Some(palette(r, false)); }
    f.buffer = Cow::Owned(pixels(r, w * h));
    if w * h > 0 && gen::pct(r, c.extra) { let k = r.range(1, 9); let mut b = f.buffer.into_owned(); b.extend(r.bytes(k)); f.buffer = Cow::Owned(b); }
    f
}

fn compressed(f: &Frame<'static>) -> Vec<u8> { let mut g = f.clone(); g.make_lzw_pre_encoded(); g.buffer.into_owned() }

/// A frame whose compressed data fills its sub-blocks exactly
fn full_blocks(r: &mut Rng, c: &EncCfg) -> Frame<'static> {
    let mut f = plain_frame(r, &EncCfg { dim: 3, extra: 0, ..*c });
    for _ in 0..600 {
        let (w, h) = (r.range(8, 24), r.range(8, 24));
        let top = *r.pick(&[16usize, 64, 256]);
        f.buffer = Cow::Owned((0..w * h).map(|_| r.below(top) as u8).collect());
        f.width = w as u16;
        f.height = h as u16;
        if (compressed(&f).len() - 1) % 255 <= r.below(2) { break; }
    }
    f
}

fn rejected(r: &mut Rng, c: &EncCfg, has_gp: bool) -> Call {
    let mut f = plain_frame(r, c);
    let pre = r.chance(1, 3);
    if !pre && r.chance(1, 6) {
        // too little for many pixels
        let (w, h) = *r.pick(&[(256u16, 256u16), (300, 300), (65535, 65535), (32768, 2), (2, 32768), (255, 258), (65535, 2), (46341, 46341), (4096, 1024)]);
        f.width = w;
        f.height = h;
        let n = w as usize * h as usize;
        let n = match r.below(5) { 0 => 0, 1 => r.below(2000), _ => n % 65536 + r.below(3) }.min(n - 1).min(12_000);
        f.buffer = Cow::Owned(pixels(r, n));
        if !has_gp && f.palette.is_none() { f.palette = Some(palette(r, false)); }
        return Call::Frame(f);
    }
    match r.below(4) {
        0 if !pre && f.buffer.len() > 0 => { let n = f.width as usize * f.height as usize; let k = if r.chance(1, 2) { n - 1 } else { r.below(n) }; f.buffer.to_mut().truncate(k); }
        0 | 1 if pre => { let n = r.below(9); f.buffer = Cow::Owned(r.bytes(n + 1)); f.buffer.to_mut()[0] = *r.pick(&[0u8, 1, 12, 13, 255]); return Call::Pre(f); }
        2 if !has_gp => f.palette = None,
        _ => f.palette = Some(palette(r, true)),
    }
    if pre { f.buffer = Cow::Owned(match r.below(4) { 0 => vec![], _ => compressed(&f) }); Call::Pre(f) } else { Call::Frame(f) }
}

fn raw_data(r: &mut Rng) -> Vec<Vec<u8>> {
    (0..r.below(4)).map(|_| { let n = match r.below(10) { 0 => 0, 1 => 255, 2 => 256, 3 => *r.pick(&[510usize, 511, 600]), _ => r.range(1, 12) }; r.bytes(n) }).collect()
}

fn history(r: &mut Rng, c: &EncCfg) -> History {
    let bad_new = gen::pct(r, c.rejected) && r.chance(1, 8);
    let gp = if bad_new { palette(r, true) } else if r.chance(1, 4) { vec![] } else { palette(r, false) };
    let has_gp = gp.len() >= 3;
    let mut calls = vec![];
    let mut n = 0;
    let frames = r.below(c.frames + 1);
    while n < frames || r.chance(1, 3) {
        if r.chance(1, 4) { calls.push(Call::Rep(match r.below(4) { 0 => Repeat::Infinite, 1 => Repeat::Finite(0), 2 => Repeat::Finite(u16s(r)), _ => Repeat::Finite(r.below(9) as u16) })); }
        if gen::pct(r, c.exts) {
            calls.push(match r.below(4) {
                3 => Call::CtlRaw([r.byte(), r.byte(), r.byte(), r.byte()]),
                0 => Call::Ctl { delay: u16s(r), dispose: disposal(r), ui: r.chance(1, 2), tr: if r.chance(1, 2) { Some(r.byte()) } else { None } },
                _ => Call::Raw(*r.pick(&[0xFE, 0xFE, 0xFF, 0x01]), raw_data(r)),
            });
        }
        if gen::pct(r, c.rejected) { calls.push(rejected(r, c, has_gp)); }
        if n >= frames { break; }
        n += 1;
        let mut f = if r.chance(1, 25) { full_blocks(r, c) } else { plain_frame(r, c) };
        if !has_gp && f.palette.is_none() { f.palette = Some(palette(r, false)); }
        calls.push(if gen::pct(r, c.pre) {
            if r.chance(1, 8) {
                // not our own compression
                let m = r.range(2, 11) as u32;
                let st = gen::style(r, false);
                let mut d = vec![m as u8];
                d.extend(gen::lzw_random(r, m, f.buffer.len(), 256, st));
                if r.chance(1, 8) { d.truncate(r.below(2)); }
                f.buffer = Cow::Owned(d);
                Call::Pre(f)
            } else { Call::MakePre(f) }
        } else { Call::Frame(f) });
    }
    calls.push(if r.chance(1, 2) { Call::Fin } else { Call::Drop });
    History { w: u16s(r), h: u16s(r), gp, calls }
}

fn no_faults(_: &mut Rng, _: &[u8]) -> Plan { Plan { dec: true, runs: vec![] } }

const WRITE_KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::StorageFull, ErrorKind::Interrupted,
    ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::TimedOut];

fn fault(r: &mut Rng, o: usize) -> Fault {
    let k = *r.pick(WRITE_KINDS);
    Fault { o, k, p: k != ErrorKind::Interrupted && r.chance(1, 2) }
}

/// Every fault position, and some short writers and several faults
fn all_faults(r: &mut Rng, out: &[u8]) -> Plan {
    let mut runs = vec![(vec![], 1), (vec![], r.range(2, 20))];
    for o in 0..out.len() { runs.push((vec![fault(r, o)], r.below(3))); }
    for _ in 0..6 {
        let mut fs: Vec<Fault> = (0..r.range(2, 5)).map(|_| { let o = r.below(out.len().max(1)); Fault { o, k: if r.chance(2, 3) { ErrorKind::Interrupted } else { ErrorKind::Other }, p: false } }).collect();
        fs.sort_by_key(|f| f.o);
        runs.push((fs, r.below(4)));
    }
    Plan { dec: r.chance(1, 4), runs }
}

/// Some fault positions, in particular around the ends of sub-blocks, over writers taking much or little at once
fn some_faults(r: &mut Rng, out: &[u8]) -> Plan {
    let mut runs = vec![];
    let longest = |r: &mut Rng| *r.pick(&[0usize, 0, 1, 7, 100, 254, 255, 256, 300, 700]);
    for _ in 0..4 { runs.push((vec![], longest(r))); }
    for _ in 0..25 {
        let o = if r.chance(1, 2) { r.below(out.len().max(1)) } else { (256 * r.below(out.len() / 256 + 1) + r.below(40)).min(out.len()) };
        let mut fs = vec![fault(r, o)];
        if !fs[0].p && fs[0].k == ErrorKind::Interrupted && r.chance(1, 2) { let o = o + r.below(300); fs.push(fault(r, o)); }
        runs.push((fs, longest(r)));
    }
    // lengths of full sub-blocks (among others) and what's next to them
    let full: Vec<usize> = (0..out.len()).filter(|&o| out[o] == 255 && out.len() - o > 200).collect();
    for &o in full.iter().take(12) {
        for o in [o, o + 1, o + 256] {
            if o < out.len() { runs.push((vec![Fault { p: false, k: *r.pick(&[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::Interrupted]), ..fault(r, o) }], longest(r))); }
        }
    }
    Plan { dec: false, runs }
}

fn enc(n: usize, seed: u64, f: impl Fn(&mut Rng, &mut Out) + Sync) -> (&'static str, (Vec<String>, usize)) {
    ("enc", parallel(n, seed ^ 0x66, move |_, r, out| f(r, out)))
}

struct Skipped { w: u16, h: u16, gp: Vec<u8>, rep: Repeat, frames: Vec<Frame<'static>> }

/// Frames as read without decoding
fn skipped(file: &[u8]) -> Option<Skipped> {
    let mut o = gif::DecodeOptions::new();
    o.skip_frame_decoding(true);
    std::panic::catch_unwind(|| {
        let mut d = o.read_info(file).ok()?;
        let mut frames = vec![];
        while let Ok(Some(f)) = d.read_next_frame() { frames.push(f.clone()); }
        Some(Skipped { w: d.width(), h: d.height(), gp: d.global_palette().unwrap_or(&[]).to_vec(), rep: d.repeat(), frames })
    }).ok().flatten()
}

/// They are written again as they are.
fn reencode(r: &mut Rng, file: &[u8], out: &mut Out) {
    let Some(s) = skipped(file) else { return };
    let mut calls = vec![];
    if r.chance(1, 2) { calls.push(Call::Rep(s.rep)); }
    for f in s.frames { calls.push(Call::Pre(f)); }
    calls.push(if r.chance(1, 2) { Call::Fin } else { Call::Drop });
    k4::trace("reencode", &History { w: s.w, h: s.h, gp: s.gp, calls }, r, out, no_faults);
}

/// They are decoded one by one.
fn decode_skipped(r: &mut Rng, file: &[u8], out: &mut Out) {
    let Some(s) = skipped(file) else { return };
    let opt = Opt::new().rgba(r.chance(1, 2));
    let mut steps = vec![k3::Step::Set(s.gp)];
    steps.extend(s.frames.into_iter().map(|frame| k3::Step::Decode(frame, if r.chance(3, 4) { None } else { Some(r.below(3) as i64) })));
    k3::traces("skipped", &opt, &steps, out);
}

// ------------------------------------------------------------------ frame constructors

fn constructor(r: &mut Rng) -> Make {
    let c = *r.pick(&["rgba", "rgba", "rgba", "rgb", "rgb", "pal", "idx"]);
    let rgb = c.starts_with("rgb");
    let dim = |r: &mut Rng| if r.chance(1, 25) { 0 } else { r.range(1, 12) };
    let (mut w, mut h) = (dim(r), dim(r));
    // number of colours
    let mut k = match r.below(6) { 0 => 1, 1 => r.range(2, 5), 2 => r.range(2, 40), _ => 1000 };
    if rgb && r.chance(1, 4) {
        // around 256
        k = *r.pick(&[254usize, 255, 256, 257, 258, 300]);
        (w, h) = match r.below(6) { 0 | 1 => (k, 1), 2 if k % 2 == 0 => (2, k / 2), 3 => (k + r.range(1, 5), 1), _ => (20, 20) };
    } else if rgb && r.chance(1, 12) { w = 25; h = 25; }
    let n = w * h;
    let low = r.chance(1, 3);
    let clear = match r.below(5) { 0 | 1 => 0, 2 => 1, 3 => 3, _ => 20 };
    let value = |r: &mut Rng| if low { 60 * r.below(5) as u8 } else { r.byte() };
    let colors: Vec<[u8; 3]> = (0..k).map(|i| if k < 400 && k > 200 { [i as u8, (i / 7) as u8, (i >> 8) as u8] } else { [value(r), value(r), value(r)] }).collect();
    let mut px = vec![];
    for i in 0..n {
        if !rgb { px.push(r.byte()); continue; }
        px.extend_from_slice(&colors[if k > 400 { r.below(k) } else { i % k }]);
        if c == "rgba" { px.push(if r.below(40) < clear { 0 } else { *r.pick(&[255u8, 255, 255, 1, 128, 254]) }); }
    }
    if r.chance(1, 15) { let d = r.range(1, 4); if r.chance(1, 2) { px.truncate(px.len().saturating_sub(d)) } else { px.extend(r.bytes(d)) } }
    let pal_len = match r.below(8) { 0 => 768, 1 => 769, 2 => 771, 3 => 0, 4 => r.below(800), _ => 3 * r.below(20) };
    let pal = if c == "pal" { r.bytes(pal_len) } else { vec![] };
    let speed = if !rgb { 0 } else { match r.below(12) { 0 => 0, 1 => 31, 2 => 30, 3 => *r.pick(&[-1, i32::MAX, i32::MIN]), 4..=7 => 1, _ => r.range(1, 30) as i32 } };
    Make { c, w: w as u16, h: h as u16, px, pal, tr: if !rgb && r.chance(1, 2) { Some(r.byte()) } else { None }, speed }
}

// ------------------------------------------------------------------ the properties

/// Interlaced image of exactly h rows
fn interlaced_file(r: &mut Rng, w: usize, h: usize, pixels: usize) -> Vec<u8> {
    let mut f = b"GIF89a".to_vec();
    for v in [w, h] { f.extend_from_slice(&(v as u16).to_le_bytes()); }
    f.extend_from_slice(&[0x80 | 3, 0, 0]);
    f.extend(r.bytes(48));
    f.extend_from_slice(&[0x2C, 0, 0, 0, 0]);
    for v in [w, h] { f.extend_from_slice(&(v as u16).to_le_bytes()); }
    f.extend_from_slice(&[0x40, 4]);
    // rows recognizable
    let pix: Vec<u8> = (0..pixels).map(|i| if i % w == 0 { (i / w % 16) as u8 } else { r.below(16) as u8 }).collect();
    let d = gen::lzw_greedy(4, &pix, true);
    gen::sub_blocks(r, &d, &mut f);
    // another frame, not interlaced
    f.extend_from_slice(&[0x2C, 0, 0, 0, 0, 1, 0, 2, 0, 0, 2]);
    let d = gen::lzw_greedy(2, &[1, 2], true);
    gen::sub_blocks(r, &d, &mut f);
    f.push(0x3B);
    f
}

fn retry_script(r: &mut Rng, faults: usize) -> Vec<Op> {
    let mut s = vec![];
    match r.below(4) {
        // frame info only
        0 => for _ in 0..faults + 5 { s.push(Op::Nfi) },
        // pieces, retried
        1 | 2 => {
            let p = r.range(1, 7);
            for _ in 0..4 {
                for _ in 0..=faults { s.push(Op::Nfi); if r.chance(1, 2) { break } }
                s.push(Op::Acc);
                for _ in 0..=faults { s.push(Op::Pieces(p)); if r.chance(1, 3) { break } }
            }
        }
        _ => for _ in 0..faults + 5 { s.push(Op::Rnf) },
    }
    s.push(Op::Nfi);
    s.push(Op::Fin);
    s
}

pub fn generate(prop: &str, thorough: bool, seed: u64) -> Res {
    let k = if thorough { 20 } else { 4 };
    match prop {
        "C01" => {
            // what doesn't panic is only sampled for full validation
            let keep = 700 * k;
            vec![
                dec(12_000 * k, seed, |i, r, out| {
                    let f = hostile(r);
                    let opt = Opt::random(r);
                    let script = any_script(r);
                    let mut faults = vec![];
                    if r.chance(1, 6) { faults.push(Fault { o: r.below(f.len() + 1), k: *r.pick(&[ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof]), p: r.chance(1, 2) }); }
                    let s = two(r);
                    k1::traces("any", &f, &opt, &faults, &s, &script, out);
                    if i >= keep { out.keep_panics(); }
                }),
                ("strm", parallel(4000 * k, seed ^ 0x22, |i, r, out| {
                    let f = hostile(r);
                    let s = sink(r);
                    let runs: Vec<_> = two(r).into_iter().map(|x| (x, s.clone())).collect();
                    k2::traces("stream", &f, &runs, out);
                    if i >= keep / 2 { out.keep_panics(); }
                })),
                ("fdec", parallel(3000 * k, seed ^ 0x33, |i, r, out| { frame_decoder_case(r, out, 70, 12); if i >= keep / 2 { out.keep_panics(); } })),
            ]
        }
        "C02" => vec![
            dec(420 * k, seed, |i, r, out| {
                let (f, cfg) = if i % 3 == 0 { (hostile(r), None) } else { let c = wild_cfg(r); (gen::file(r, &c).bytes, Some(c)) };
                let mut opt = if cfg.is_none() { Opt::random(r) } else { Opt::new().rgba(r.chance(1, 2)).endc(r.chance(1, 4)).unk(r.chance(1, 2)).skip(r.chance(1, 6)) };
                if opt.mem < 1000 { opt.mem = 3000 }
                let script = match r.below(4) {
                    0 => vec![Op::Acc, each(Op::Rnf), Op::Rnf, Op::Fin],
                    1 => vec![Op::Acc, each(Op::Nfi), Op::Nfi, Op::Fin],
                    2 => { let d = data_op(r); vec![Op::Acc, each(d), Op::Nfi, Op::Fin] }
                    _ => { let mut s = vec![]; for _ in 0..5 { s.append(&mut any_way(r)); } s.push(Op::Fin); s }
                };
                let mut sc = scheds(r, f.len());
                sc.push(Sched::Fixed(2));
                sc.push(Sched::Fixed(3));
                for c in (1..f.len()).step_by(1 + f.len() / 150) { sc.push(Sched::Cuts(vec![c])); }
                for _ in 0..10 { let mut c: Vec<_> = (0..r.range(2, 5)).map(|_| r.below(f.len() + 1)).collect(); c.sort(); sc.push(Sched::Cuts(c)); }
                for _ in 0..6 { let m = *r.pick(&[2, 3, 10, 50]); sc.push(Sched::Random(r.next(), m)); }
                k1::traces("chunks", &f, &opt, &[], &sc, &script, out);
            }),
            ("strm", parallel(260 * k, seed ^ 0x22, |i, r, out| {
                let f = if i % 3 == 0 { hostile(r) } else { let c = wild_cfg(r); gen::file(r, &c).bytes };
                let sk = sink(r);
                let mut runs = vec![];
                for s in scheds(r, f.len()) { runs.push((s, sk.clone())); }
                for c in (1..f.len()).step_by(1 + f.len() / 100) { runs.push((Sched::Cuts(vec![c]), sk.clone())); }
                for _ in 0..8 { let m = *r.pick(&[2, 3, 10, 50]); runs.push((Sched::Random(r.next(), m), sink(r))); }
                k2::traces("chunks", &f, &runs, out);
            })),
            long(6 * k, seed, "whole"),
            ("strm2", parallel(6 * k, seed ^ 0x23, |_, r, out| {
                let (f, at) = gen::long_file(r, 7000);
                let runs: Vec<_> = [Sched::All, Sched::Fixed(1), Sched::Cuts(vec![at]), Sched::Random(r.next(), 900), Sched::Fixed(4096)].into_iter()
                    .map(|s| (s, Sink { per_image: vec![*r.pick(&[65_536, 999, 1])], vary: false })).collect();
                k2::traces("long", &f, &runs, out);
            })),
        ],
        "C03" => vec![
            dec(700 * k, seed, |i, r, out| {
                let mut cfg = GenCfg { exts: 5, wild_lzw: if i % 3 == 0 { 60 } else { 0 }, miscount: if i % 5 == 1 { 50 } else { 0 }, max_frames: 2, min_frames: 1, max_dim: 14, interlaced: 10, ..GenCfg::default() };
                if i % 25 == 0 { cfg.max_dim = 90; cfg.max_frames = 1 }
                if i % 50 == 7 { cfg.max_dim = 160; cfg.max_frames = 1; cfg.wild_lzw = 0 }
                let f = gen::file(r, &cfg).bytes;
                let opt = Opt::new().endc(r.chance(1, 4));
                let d = data_op(r);
                let script = if r.chance(1, 2) { vec![each(Op::Rnf), Op::Rnf] } else { vec![each(d), Op::Nfi] };
                let s = two(r);
                k1::traces("lzw", &f, &opt, &[], &s, &script, out);
            }),
            strm(250 * k, seed, |r| { let w = if r.chance(1, 3) { 60 } else { 0 }; gen::file(r, &GenCfg { exts: 5, wild_lzw: w, max_frames: 2, min_frames: 1, max_dim: 14, ..GenCfg::default() }).bytes }),
            fdec(300 * k, seed, 30, 16),
            big(6 * k, seed, 10),
        ],
        "C04" => vec![
            dec(600 * k, seed, |i, r, out| {
                let max = if thorough { 700 } else { 130 };
                let h = 1 + i % max;
                let w = if h > 100 { r.range(1, 3) } else { r.range(1, 9) };
                let n = if i % 4 == 3 { r.below(w * h) } else { w * h };
                let f = interlaced_file(r, w, h, n);
                let opt = Opt::new().rgba((i / max) % 2 == 1);
                let script = match (i / max / 2 + i) % 4 {
                    0 => vec![Op::Acc, Op::Rnf, Op::Acc, Op::Rnf, Op::Rnf],
                    1 => vec![Op::Nfi, Op::Rib(0), Op::Rnf, Op::Rnf],
                    2 => vec![Op::Nfi, Op::Rib(r.range(1, 30) as i64), Op::Nfi, Op::Pieces(1), Op::Nfi],
                    _ => if r.chance(1, 2) { vec![Op::Nfi, Op::Acc, Op::Pieces(r.range(1, 40)), Op::Rnf] } else { vec![Op::Iter, Op::It, Op::It, Op::It] },
                };
                let s = two(r);
                k1::traces("interlaced", &f, &opt, &[], &s, &script, out);
            }),
            dec2(400 * k, seed, |i, r, out| {
                let cfg = GenCfg { interlaced: 100, exts: 20, min_frames: 1, max_dim: 20, miscount: if i % 4 == 0 { 40 } else { 0 }, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let opt = Opt::new().rgba(r.chance(1, 2));
                let mut script = vec![];
                for _ in 0..4 { if r.chance(1, 2) { script.push(Op::Rnf) } else { script.push(Op::Nfi); script.push(if r.chance(1, 8) { Op::Rib(-(r.range(1, 9) as i64)) } else { data_op(r) }); } }
                let s = two(r);
                k1::traces("interlaced", &f, &opt, &[], &s, &script, out);
            }),
            ("fdec", parallel(250 * k, seed ^ 0x33, |_, r, out| frame_decoder_case(r, out, 10, 24))),
            big(8 * k, seed, 10),
        ],
        "C05" => vec![
            dec(650 * k, seed, |_, r, out| {
                let cfg = GenCfg { exts: 60, min_frames: 1, max_dim: 12, big_palette: 20, interlaced: 20, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let d = data_op(r);
                let (s, x) = (two(r), two(r));
                k1::traces("rgba", &f, &Opt::new().rgba(true), &[], &s, &[each(d)], out);
                k1::traces("rgba", &f, &Opt::new().rgba(true), &[], &x, &[each(Op::Rnf)], out);
                k1::traces("indexed", &f, &Opt::new(), &[], &x[..1], &[each(Op::Rnf)], out);
            }),
            dec2(500 * k, seed, |_, r, out| {
                // several frames with different palettes and transparency, read in any ways
                let cfg = GenCfg { exts: 70, min_frames: 2, max_frames: 5, max_dim: 8, big_palette: 10, interlaced: 20, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let mut script = vec![];
                for _ in 0..6 { script.append(&mut any_way(r)); }
                let s = two(r);
                k1::traces("rgba", &f, &Opt::new().rgba(true), &[], &s, &script, out);
            }),
            fdec(250 * k, seed, 5, 12),
            big(8 * k, seed, 80),
        ],
        "C06" => vec![
            dec(1000 * k, seed, |_, r, out| {
                let cfg = GenCfg { exts: 75, min_frames: 1, max_frames: 5, max_dim: 6, quirks: 30, huge: 5, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let mut opt = Opt::new().skip(r.chance(1, 4)).rgba(r.chance(1, 4));
                if r.chance(1, 5) { opt.unk = true; }
                let script = match r.below(4) {
                    0 => vec![each(Op::Nfi)],
                    1 => vec![each(Op::Rnf)],
                    2 => vec![Op::Iter, each(Op::It)],
                    _ => { let mut s = vec![]; for _ in 0..5 { s.append(&mut any_way(r)); } s }
                };
                let s = two(r);
                k1::traces("meta", &f, &opt, &[], &s, &script, out);
            }),
            strm(350 * k, seed, |r| gen::file(r, &GenCfg { exts: 75, min_frames: 1, max_frames: 5, max_dim: 5, quirks: 30, ..GenCfg::default() }).bytes),
            many(8 * k, seed, false),
        ],
        "C07" => vec![
            dec(1500 * k, seed, |_, r, out| {
                let cfg = GenCfg { exts: 40, max_frames: 3, max_dim: 5, quirks: 30, no_palette: 50, ..GenCfg::default() };
                let mut f = gen::file(r, &cfg).bytes;
                if r.chance(1, 3) {
                    // more looping extensions up front
                    let size = 13 + if f[10] & 0x80 != 0 { 6 << (f[10] & 7) } else { 0 };
                    let mut a = vec![];
                    for _ in 0..r.range(1, 3) { gen::application(r, &mut a); if r.chance(1, 3) { gen::other_ext(r, &mut a); } }
                    f.splice(size..size, a);
                }
                let opt = Opt::new().rgba(r.chance(1, 2)).skip(r.chance(1, 5));
                let script = [Op::Acc, Op::Nfi, Op::Acc, Op::Rnf, Op::Acc, Op::Nfi, Op::Acc, Op::Rnf, Op::Acc, Op::Fin];
                let s = two(r);
                k1::traces("screen", &f, &opt, &[], &s, &script, out);
            }),
            strm(400 * k, seed, |r| { let mut f = gen::file(r, &GenCfg { exts: 60, max_frames: 2, max_dim: 4, quirks: 30, ..GenCfg::default() }).bytes; if r.chance(1, 4) { let k = r.below(14); f[k] = r.byte(); } f }),
        ],
        "C08" => vec![
            dec(300 * k, seed, |i, r, out| {
                let cfg = GenCfg { min_frames: 1, max_frames: 3, max_dim: 10, quirks: 25, miscount: if i % 4 == 0 { 30 } else { 0 }, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let opt = Opt::new().rgba(r.chance(1, 2)).endc(r.chance(1, 8));
                let p = r.range(1, 12);
                let rp = r.next();
                let x = r.range(1, 20) as i64;
                for script in [vec![each(Op::Rnf), Op::Rnf], vec![each(Op::Rib(0)), Op::Nfi], vec![Op::Acc, each(Op::Rib(x))], vec![each(Op::Pieces(p))], vec![each(Op::RandomPieces(rp))],
                    vec![Op::Iter, each(Op::It), Op::It, Op::Fin], vec![each(Op::Nfi), Op::Nfi], vec![each(Op::Rib(-1)), Op::Nfi], vec![Op::Nfi, Op::Acc, Op::Nfi, Op::Acc, Op::Rib(0), Op::Fill(0), Op::Nfi]] {
                    let s = [r.pick(&[Sched::All, Sched::Fixed(1), Sched::Fixed(7)]).clone()];
                    k1::traces("ways", &f, &opt, &[], &s, &script, out);
                }
            }),
            dec2(300 * k, seed, |_, r, out| {
                let cfg = GenCfg { min_frames: 1, max_frames: 3, max_dim: 10, quirks: 25, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let opt = Opt::new().rgba(r.chance(2, 3));
                let mut script = vec![];
                for _ in 0..5 { script.push(Op::Nfi); script.push(Op::Acc); for _ in 0..r.below(4) { script.push(Op::Fill(r.below(50))); } if r.chance(1, 2) { script.push(Op::AllBut(0)) } }
                let s = two(r);
                k1::traces("fills", &f, &opt, &[], &s, &script, out);
            }),
            big(6 * k, seed, 30),
            many(8 * k, seed, false),
        ],
        "C09" => vec![
            dec(1500 * k, seed, |i, r, out| {
                let cfg = GenCfg { min_frames: 2, max_frames: 6, max_dim: 8, quirks: 20, miscount: if i % 3 == 0 { 30 } else { 0 }, no_palette: 10, exts: 50, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let mut opt = Opt::new().rgba(r.chance(1, 2)).skip(r.chance(1, 8));
                if r.chance(1, 4) { opt.mem = r.range(20, 200) as i64; }
                let mut script = vec![];
                for _ in 0..7 { script.append(&mut any_way(r)); }
                let s = two(r);
                k1::traces("history", &f, &opt, &[], &s, &script, out);
            }),
            fdec(300 * k, seed, 20, 10),
            big(4 * k, seed, 10),
            many(8 * k, seed, false),
        ],
        "C10" => vec![
            dec(16 * k, seed, |i, r, out| {
                let cfg = GenCfg { min_frames: 1, max_frames: 3, max_dim: 6, quirks: 15, junk: 0, big_palette: 0, exts: 40, ..GenCfg::default() };
                let f = loop { let f = gen::file(r, &cfg).bytes; if f.len() < 400 { break f } };
                let opt = Opt::new().rgba(r.chance(1, 3)).skip(i % 5 == 4).endc(r.chance(1, 4));
                let script = match i % 4 { 0 | 1 => vec![each(Op::Rnf), Op::Rnf, Op::Fin], 2 => vec![Op::Iter, each(Op::It), Op::It], _ => { let d = data_op(r); vec![each(d), Op::Nfi, Op::Fin] } };
                for cut in 0..=f.len() {
                    let s = [Sched::All, r.pick(&[Sched::Fixed(1), Sched::Fixed(5), Sched::Cuts(vec![cut / 2])]).clone()];
                    k1::traces("cut", &f[..cut], &opt, &[], &s, &script, out);
                }
            }),
            ("strm", parallel(5 * k, seed ^ 0x22, |_, r, out| {
                let cfg = GenCfg { min_frames: 1, max_frames: 2, max_dim: 6, big_palette: 0, ..GenCfg::default() };
                let f = loop { let f = gen::file(r, &cfg).bytes; if f.len() < 300 { break f } };
                for cut in 0..=f.len() { let x = sink(r); let s = two(r).into_iter().map(|s| (s, x.clone())).collect::<Vec<_>>(); k2::traces("cut", &f[..cut], &s, out); }
            })),
            long(6 * k, seed, "cut"),
        ],
        "C11" => vec![
            dec(14 * k, seed, |_, r, out| {
                let cfg = GenCfg { min_frames: 1, max_frames: 3, max_dim: 6, quirks: 15, big_palette: 0, ..GenCfg::default() };
                let f = loop { let f = gen::file(r, &cfg).bytes; if f.len() < 300 { break f } };
                for o in 0..=f.len() {
                    let opt = Opt::new().rgba(r.chance(1, 3)).skip(r.chance(1, 8));
                    let kinds = [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset];
                    let mut faults = vec![Fault { o, k: *r.pick(&kinds), p: r.chance(1, 4) }];
                    if r.chance(1, 3) && !faults[0].p { faults.push(Fault { o: r.range(o, f.len()), k: *r.pick(&kinds), p: false }); }
                    let script = retry_script(r, faults.len());
                    let s = two(r);
                    k1::traces("fault", &f, &opt, &faults, &s, &script, out);
                }
            }),
            dec2(300 * k, seed, |_, r, out| {
                let cfg = GenCfg { min_frames: 1, max_frames: 3, max_dim: 10, ..GenCfg::default() };
                let f = gen::file(r, &cfg).bytes;
                let opt = Opt::new().rgba(r.chance(1, 2));
                let mut o: Vec<usize> = (0..r.range(2, 6)).map(|_| r.below(f.len() + 1)).collect();
                o.sort();
                let faults: Vec<_> = o.into_iter().map(|o| Fault { o, k: *r.pick(&[ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof]), p: false }).collect();
                let script = retry_script(r, faults.len());
                let s = scheds(r, f.len());
                k1::traces("faults", &f, &opt, &faults, &s, &script, out);
            }),
            long(6 * k, seed, "fault"),
        ],
        "C12" => vec![
            dec(500 * k, seed, |i, r, out| {
                let mut cfg = GenCfg { min_frames: 1, max_frames: 4, max_dim: 10, exts: 50, big_palette: 5, ..GenCfg::default() };
                if i % 4 == 0 { cfg.huge = 30; }
                let gen::File { bytes: f, sizes, .. } = gen::file(r, &cfg);
                let mut opt = Opt::new().rgba(r.chance(1, 2)).skip(r.chance(1, 4));
                let script = match r.below(4) { 0 => vec![each(Op::Rnf)], 1 => vec![Op::Iter, each(Op::It)], 2 => vec![Op::Rnf, Op::Rnf, Op::Rnf, Op::Rnf, Op::Rnf], _ => vec![each(Op::Nfi), Op::Fin] };
                // limits at and around what the frames need
                let s = two(r);
                let mut limits = vec![r.range(1, 400) as i64, 50_000_000];
                if cfg.huge == 0 { limits.push(-1); }
                for (w, h) in sizes {
                    let n = w as i64 * h as i64 * if opt.rgba { 4 } else { 1 };
                    if n > 0 && n < 1 << 30 && limits.len() < 9 { limits.extend([n - 1, n, n + 1]); }
                }
                for l in limits {
                    opt.mem = if l == 0 { 1 } else { l };
                    k1::traces("limit", &f, &opt, &[], &s, &script, out);
                }
            }),
            dec2(250 * k, seed, |_, r, out| {
                // extension and compressed data around the limit
                let mut f = b"GIF89a\x05\0\x05\0\x80\0\0\x01\x02\x03\x04\x05\x06".to_vec();
                let n = *r.pick(&[1usize, 3, 20, 254, 255, 256, 300, 600]);
                let ext = r.chance(1, 2);
                let d = r.bytes(n);
                if ext { f.extend_from_slice(&[0x21, *r.pick(&[0xFE, 1, 0xFF])]); gen::sub_blocks(r, &d, &mut f); }
                f.extend_from_slice(b"\x2C\0\0\0\0\x05\0\x05\0\0\x02");
                if ext { f.extend_from_slice(b"\x03\x44\x34\x05\0") } else { gen::sub_blocks(r, &d, &mut f); }
                f.push(0x3B);
                let opt = Opt::new().mem((n as i64 + r.below(5) as i64 - 2).max(1)).skip(!ext || r.chance(1, 2));
                let s = scheds(r, f.len());
                k1::traces("extlimit", &f, &opt, &[], &s, &[Op::Rnf, Op::Rnf], out);
                k1::traces("extlimit", &f, &opt, &[], &s, &[Op::Nfi, Op::Nfi], out);
            }),
            bulk(5 * k, seed, 50),
            ("dec9", parallel(80 * k, seed ^ 0x18, |_, r, out| {
                // several extensions and unknown blocks, each of them around the limit or less
                let mut f = b"GIF89a\x05\0\x05\0\x80\0\0\x01\x02\x03\x04\x05\x06".to_vec();
                let n = *r.pick(&[2usize, 4, 9, 20, 120, 256]);
                let unk = r.chance(1, 2);
                for i in 0..r.range(2, 7) {
                    let len = if r.chance(1, 2) { n } else { r.range(0, n) };
                    let d = r.bytes(len);
                    if unk && r.chance(1, 2) { f.push(*r.pick(&[0u8, 1, 0x20, 0x22, 0xFF])); } else { f.extend_from_slice(&[0x21, *r.pick(&[0xFE, 1, 0xFF])]); }
                    if r.chance(1, 2) { for c in d.chunks(r.range(1, 9)) { f.push(c.len() as u8); f.extend_from_slice(c); } f.push(0); } else { gen::sub_blocks(r, &d, &mut f); }
                    if i == 3 { f.extend_from_slice(b"\x2C\0\0\0\0\x01\0\x01\0\0\x02\x02\x44\x01\0"); }
                }
                f.extend_from_slice(b"\x2C\0\0\0\0\x01\0\x01\0\0\x02\x02\x44\x01\0\x3B");
                let s = two(r);
                for l in [n as i64 - 1, n as i64, n as i64 + 1, n as i64 + 2, 2 * n as i64] {
                    let opt = Opt::new().mem(l.max(1)).unk(unk).skip(r.chance(1, 4)).rgba(false);
                    k1::traces("blocks", &f, &opt, &[], &s, &[each(Op::Rnf), Op::Fin], out);
                }
            })),
            fdec(150 * k, seed, 0, 12),
            big(8 * k, seed, 40),
            ("dec7", parallel(16, seed ^ 0x17, |i, r, out| {
                // the default limit, and products beyond 16, 31 and 32 bits
                let (w, h, rgba) = [(5000u16, 10_000u16, false), (50_000, 1000, false), (50_001, 1000, false), (2500, 5000, true), (1, 65_535, true), (12_501, 1000, true),
                    (5000, 10_001, false), (12_500, 1000, true), (65_535, 65_535, true), (65_535, 65_535, false), (32_768, 32_768, true), (16_385, 65_535, true), (65_535, 763, false), (65_535, 762, false), (46_341, 46_341, false), (32_769, 32_768, true)][i];
                let mut f = b"GIF89a\xff\xff\xff\xff\x80\0\0\x01\x02\x03\x04\x05\x06".to_vec();
                for (w, h) in [(w, h), (1, 1)] {
                    f.extend_from_slice(b"\x2C\0\0\0\0");
                    for v in [w, h] { f.extend_from_slice(&v.to_le_bytes()); }
                    f.extend_from_slice(b"\0\x02\x02\x4C\x01\0");
                }
                f.push(0x3B);
                let opt = Opt::new().rgba(rgba);
                let s = two(r);
                for script in [vec![each(Op::Rnf), Op::Rnf], vec![Op::Iter, Op::It, Op::It], vec![Op::Nfi, Op::Acc, Op::Rnf, Op::Rnf]] { k1::traces("default", &f, &opt, &[], &s, &script, out); }
            })),
        ],
        "C13" => vec![
            dec(330 * k, seed, |i, r, out| {
                let mut cfg = GenCfg { min_frames: 1, max_frames: 3, max_dim: 8, screen_defects: 50, huge: 8, ..GenCfg::default() };
                match i % 4 { 0 => cfg.wild_lzw = 60, 1 => cfg.unknown = 40, 2 => cfg.miscount = 40, _ => {} }
                let f = gen::file(r, &cfg).bytes;
                let script = match r.below(4) { 0 => vec![each(Op::Nfi)], 1 | 2 => vec![each(Op::Rnf), Op::Rnf, Op::Fin], _ => { let d = data_op(r); vec![each(d), Op::Nfi] } };
                let s = two(r);
                for o in [[false, false, false], [true, false, false], [false, true, false], [false, false, true], [true, true, true]] {
                    let opt = Opt::new().cons(o[0]).endc(o[1]).unk(o[2]).skip(i % 16 == 0);
                    k1::traces("strict", &f, &opt, &[], &s, &script, out);
                }
            }),
            dec2(300 * k, seed, |_, r, out| {
                // frames at the edges of the screen
                let mut f = b"GIF89a".to_vec();
                let edge = |r: &mut Rng| *r.pick(&[0u16, 1, 2, 3, 5, 255, 256, 32768, 65533, 65534, 65535]);
                let (w, h) = (edge(r), edge(r));
                for v in [w, h] { f.extend_from_slice(&v.to_le_bytes()); }
                f.extend_from_slice(b"\x80\0\0\x01\x02\x03\x04\x05\x06");
                for _ in 0..r.range(1, 3) {
                    let (fw, fh) = (r.range(0, 3) as u16, r.range(0, 3) as u16);
                    let near = |r: &mut Rng, s: u16, f: u16| match r.below(4) { 0 => s.wrapping_sub(f), 1 => s.wrapping_sub(f).wrapping_add(1), 2 => edge(r), _ => r.below(3) as u16 };
                    let (l, t) = (near(r, w, fw), near(r, h, fh));
                    f.push(0x2C);
                    for v in [l, t, fw, fh] { f.extend_from_slice(&v.to_le_bytes()); }
                    f.extend_from_slice(&[0, 2]);
                    let n = fw as usize * fh as usize;
                    let st = gen::style(r, false);
                    let d = gen::lzw_random(r, 2, n, 2, st);
                    gen::sub_blocks(r, &d, &mut f);
                }
                f.push(0x3B);
                for c in [true, false] { k1::traces("edges", &f, &Opt::new().cons(c), &[], &[Sched::All], &[each(if r.chance(1, 2) { Op::Rnf } else { Op::Nfi })], out); }
            }),
            fdec(200 * k, seed, 70, 9),
        ],
        "C14" => vec![
            strm(900 * k, seed, |r| { let c = GenCfg { exts: 60, quirks: 30, max_dim: 8, ..GenCfg::default() }; gen::file(r, &c).bytes }),
            ("strm2", parallel(700 * k, seed ^ 0x44, |_, r, out| {
                let c = wild_cfg(r);
                let f = gen::file(r, &c).bytes;
                let runs: Vec<_> = two(r).into_iter().map(|s| (s, sink(r))).collect();
                k2::traces("stream", &f, &runs, out);
            })),
            ("strm3", parallel(3 * k, seed ^ 0x1c, |_, r, out| {
                let f = gen::bulky(r);
                let at = r.range(300, 5000);
                let runs: Vec<_> = [Sched::All, Sched::Fixed(at)].into_iter().map(|s| (s, sink(r))).collect();
                k2::traces("bulk", &f, &runs, out);
            })),
            dec(250 * k, seed, |_, r, out| {
                let c = wild_cfg(r);
                let f = gen::file(r, &c).bytes;
                let s = two(r);
                k1::traces("skip", &f, &Opt::new().skip(true).unk(r.chance(1, 2)), &[], &s, &[each(Op::Rnf), Op::Rnf, Op::Fin], out);
            }),
        ],
        "C15" => vec![
            dec(1500 * k, seed, |_, r, out| {
                let cfg = GenCfg { max_frames: 2, max_dim: 5, junk: 70, quirks: 25, exts: 30, ..GenCfg::default() };
                let mut f = gen::file(r, &cfg).bytes;
                if r.chance(1, 5) { let g = f.clone(); f.extend_from_slice(&g); }
                let opt = Opt::new().rgba(r.chance(1, 3)).skip(r.chance(1, 6)).unk(r.chance(1, 4));
                let d = data_op(r);
                let mut script = match r.below(4) { 0 => vec![each(Op::Rnf)], 1 => vec![each(Op::Nfi)], 2 => vec![Op::Iter, each(Op::It)], _ => vec![each(d)] };
                for _ in 0..r.below(5) { script.push(if matches!(script[0], Op::Iter) { Op::It } else { r.pick(&[Op::Nfi, Op::Rnf, Op::Acc]).clone() }); }
                script.push(Op::Fin);
                let mut s = two(r);
                s.push(Sched::Cuts(vec![f.len() - 1]));
                k1::traces("end", &f, &opt, &[], &s, &script, out);
            }),
            strm(300 * k, seed, |r| gen::file(r, &GenCfg { max_frames: 2, max_dim: 5, junk: 70, quirks: 25, exts: 30, ..GenCfg::default() }).bytes),
            long(8 * k, seed, "whole"),
            many(8 * k, seed, false),
        ],
        "C16" => vec![
            enc(1100 * k, seed, |r, out| {
                let c = EncCfg { dim: 14, rejected: 5, pre: 20, exts: 40, frames: 3, extra: 5 };
                let h = history(r, &c);
                k4::trace("history", &h, r, out, |r, _| Plan { dec: r.chance(1, 3), runs: vec![] });
            }),
            ("enc7", parallel(2 * k, seed ^ 0x68, |_, r, out| {
                let data = (0..r.range(1, 3)).map(|_| { let n = *r.pick(&[65_025, 65_280, 65_535, 65_536, 65_537, 70_000]); r.bytes(n) }).collect();
                let c = EncCfg { dim: 3, rejected: 0, pre: 50, exts: 0, frames: 2, extra: 0 };
                let mut h = history(r, &c);
                h.calls.insert(0, Call::Raw(*r.pick(&[0xFE, 0xFF, 1]), data));
                k4::trace("bulk", &h, r, out, |_, _| Plan { dec: true, runs: vec![] });
            })),
            ("enc2", parallel(24 * k, seed ^ 0x67, |i, r, out| {
                // big frames: more codes than fit into the table
                let c = EncCfg { dim: 3, rejected: 0, pre: 0, exts: 0, frames: 1, extra: 0 };
                let mut f = plain_frame(r, &c);
                let (w, h) = (r.range(40, 110), r.range(50, 70));
                f.width = w as u16; f.height = h as u16;
                f.palette = Some(palette(r, false));
                let top = [2usize, 4, 16, 64, 200, 256][i % 6];
                f.buffer = Cow::Owned((0..w * h).map(|_| r.below(top) as u8).collect());
                let h = History { w: 1, h: 1, gp: vec![], calls: vec![Call::Frame(f), Call::Fin] };
                k4::trace("big", &h, r, out, no_faults);
            })),
            many_calls(8 * k, seed, 10),
        ],
        "C17" => vec![
            enc(1100 * k, seed, |r, out| {
                let c = EncCfg { dim: 12, rejected: 0, pre: 10, exts: 20, frames: 4, extra: 5 };
                let h = history(r, &c);
                k4::trace("roundtrip", &h, r, out, no_faults);
            }),
            big_history(16 * k, seed, 10),
            many_calls(8 * k, seed, 10),
        ],
        "C18" => vec![
            enc(1300 * k, seed, |r, out| {
                let c = EncCfg { dim: 7, rejected: 60, pre: 20, exts: 20, frames: 3, extra: 10 };
                let h = history(r, &c);
                k4::trace("rejected", &h, r, out, no_faults);
            }),
            many_calls(8 * k, seed, 20),
        ],
        "C19" => vec![
            enc(110 * k, seed, |r, out| {
                let c = EncCfg { dim: 5, rejected: 10, pre: 25, exts: 30, frames: 2, extra: 0 };
                let mut h = history(r, &c);
                // small files
                for _ in 0..20 {
                    let n: usize = h.gp.len() + h.calls.iter().map(|c| match c { Call::Raw(_, d) => d.iter().map(Vec::len).sum(), Call::Frame(f) | Call::MakePre(f) | Call::Pre(f) => 20 + f.buffer.len() + f.palette.as_ref().map_or(0, Vec::len), _ => 8 }).sum::<usize>();
                    if n < 170 { break; }
                    h = history(r, &c);
                }
                k4::trace("faults", &h, r, out, all_faults);
            }),
            ("enc2", parallel(90 * k, seed ^ 0x67, |_, r, out| {
                // more data than fits into one or two sub-blocks
                let c = EncCfg { dim: 5, rejected: 5, pre: 40, exts: 30, frames: 1, extra: 0 };
                let mut h = history(r, &c);
                for call in &mut h.calls {
                    let (Call::Frame(f) | Call::MakePre(f)) = call else { continue };
                    let (w, h) = (r.range(15, 45), r.range(15, 30));
                    f.width = w as u16;
                    f.height = h as u16;
                    f.buffer = Cow::Owned(if r.chance(1, 2) { r.bytes(w * h) } else { pixels(r, w * h) });
                }
                k4::trace("faults", &h, r, out, some_faults);
            })),
        ],
        "C20" => vec![
            enc(900 * k, seed, |r, out| {
                let c = EncCfg { dim: 12, rejected: 3, pre: 60, exts: 10, frames: 4, extra: 3 };
                let h = history(r, &c);
                k4::trace("pre", &h, r, out, no_faults);
            }),
            big_history(12 * k, seed, 80),
            ("fdec3", parallel(8 * k, seed ^ 0x78, |_, r, out| {
                let opt = Opt::new().rgba(r.chance(1, 3));
                let mut steps = vec![k3::Step::Set(palette(r, false))];
                for _ in 0..2 { let mut f = big_frame(r, 7000, 120); f.make_lzw_pre_encoded(); steps.push(k3::Step::Decode(f, if r.chance(1, 2) { None } else { Some(r.below(2) as i64) })); }
                k3::traces("big", &opt, &steps, out);
            })),
            ("fdec", parallel(500 * k, seed ^ 0x77, |_, r, out| {
                let c = EncCfg { dim: 12, rejected: 0, pre: 0, exts: 0, frames: 0, extra: 3 };
                let gp = palette(r, false);
                let opt = Opt::new().rgba(r.chance(1, 2)).endc(r.chance(1, 3));
                let mut steps = vec![k3::Step::Set(gp)];
                for _ in 0..r.range(1, 5) {
                    let mut f = if r.chance(1, 20) { full_blocks(r, &c) } else { plain_frame(r, &c) };
                    f.make_lzw_pre_encoded();
                    steps.push(k3::Step::Decode(f, if r.chance(2, 3) { None } else { Some(r.below(3) as i64) }));
                    if r.chance(1, 4) { steps.push(k3::Step::Set(palette(r, false))); }
                }
                k3::traces("made", &opt, &steps, out);
            })),
            many_calls(8 * k, seed, 60),
        ],
        "C21" => vec![
            ("new", parallel(900 * k, seed ^ 0x99, |_, r, out| {
                let calls: Vec<_> = (0..r.range(1, 4)).map(|_| constructor(r)).collect();
                k5::traces("constructors", &calls, out, r);
            })),
        ],
        "C22" => vec![
            dec(700 * k, seed, |_, r, out| {
                let mut c = wild_cfg(r);
                c.max_dim = 12;
                let f = gen::file(r, &c).bytes;
                let s = two(r);
                let script = match r.below(3) { 0 => vec![Op::Iter, each(Op::It)], 1 => vec![Op::Rnf, Op::Nfi, each(Op::Rnf)], _ => vec![each(Op::Rnf), Op::Rnf] };
                k1::traces("skip", &f, &Opt::new().skip(true).rgba(r.chance(1, 4)).endc(r.chance(1, 4)), &[], &s, &script, out);
            }),
            enc(700 * k, seed, |r, out| {
                let c = GenCfg { wild_lzw: 10, max_dim: 10, ..GenCfg::default() };
                let f = gen::file(r, &c).bytes;
                reencode(r, &f, out);
            }),
            ("fdec", parallel(500 * k, seed ^ 0x88, |_, r, out| {
                let f = gen::file(r, &GenCfg { wild_lzw: 10, max_dim: 12, ..GenCfg::default() }).bytes;
                decode_skipped(r, &f, out);
            })),
            long(4 * k, seed, "skip"),
            bulk(4 * k, seed, 80),
            ("enc6", parallel(2 * k, seed ^ 0x1a, |_, r, out| { let f = gen::bulky(r); reencode(r, &f, out); })),
            ("fdec6", parallel(10 * k, seed ^ 0x1b, |_, r, out| { let f = gen::bulky(r); decode_skipped(r, &f, out); })),
            ("enc3", parallel(6 * k, seed ^ 0x15, |_, r, out| { let (f, _) = gen::long_file(r, 7000); reencode(r, &f, out); })),
            ("fdec3", parallel(6 * k, seed ^ 0x16, |_, r, out| { let (f, _) = gen::long_file(r, 7000); decode_skipped(r, &f, out); })),
            many(8 * k, seed, true),
        ],
        _ => panic!("no such property"),
    }
}

fn dec2(n: usize, seed: u64, f: impl Fn(usize, &mut Rng, &mut Out) + Sync) -> (&'static str, (Vec<String>, usize)) {
    ("dec2", parallel(n, seed ^ 0x55, f))
}
