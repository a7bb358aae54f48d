//! Behaviours of the specification, as printed by TLC, are carried out by the real code.
use crate::js::Val;
use crate::k1::{self, Fault, Op, Opt, Sched};
use crate::k2::{self, Sink};
use crate::k3;
use crate::k4::{self, Call, History, Plan};
use crate::k5::{self, Make};
use crate::props::Res;
use crate::{parallel, Out};
use crate::rng::Rng;
use gif::{DisposalMethod, Frame, Repeat};
use std::borrow::Cow;
use std::io::ErrorKind;

fn kind(s: &str) -> ErrorKind {
    match s {
        "Interrupted" => ErrorKind::Interrupted,
        "WouldBlock" => ErrorKind::WouldBlock,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "WriteZero" => ErrorKind::WriteZero,
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "Other" => ErrorKind::Other,
        _ => panic!("unknown kind {s}"),
    }
}

fn faults(v: &Val) -> Vec<Fault> {
    v.list().iter().map(|f| Fault { o: f.get("o").num() as usize, k: kind(f.get("k").str()), p: f.get("p").flag() }).collect()
}

fn options(v: &Val) -> Opt {
    let f = |k| v.get(k).flag();
    Opt { mem: v.get("mem").num(), rgba: f("rgba"), skip: f("skip"), endc: f("endc"), unk: f("unk"), cons: f("cons") }
}

fn decode(v: &Val, stream: bool, r: &mut Rng, out: &mut Out) {
    let opt = options(v.get("opt"));
    let file = v.get("file").bytes();
    if stream {
        let runs: Vec<_> = [(Sched::All, 5000), (Sched::Fixed(1), 5000), (Sched::Fixed(1), 1), (Sched::Random(r.next(), 4), 2)].into_iter()
            .map(|(s, n)| (s, Sink { per_image: vec![n], vary: false })).collect();
        return k2::traces("model", &file, &runs, out);
    }
    let ops: Vec<Op> = v.get("calls").list().iter().map(|c| {
        let d = c.get("d").num();
        match c.get("c").str() {
            "nfi" => Op::Nfi, "rnf" => Op::Rnf, "acc" => Op::Acc, "iter" => Op::Iter, "it" => Op::It, "fin" => Op::Fin,
            "rib" => Op::Rib(d),
            "raw" => Op::Fill(d as usize),
            "fill" => Op::Fill(d as usize * if opt.rgba { 4 } else { 1 }),
            c => panic!("unknown call {c}"),
        }
    }).collect();
    k1::traces("model", &file, &opt, &faults(v.get("faults")), &[Sched::All, Sched::Fixed(1), Sched::Random(r.next(), 5)], &ops, out);
}

/// A file in pieces: given to the event decoder, or by the reader of a decoder.
fn pieces(v: &Val, events: bool, r: &mut Rng, out: &mut Out) {
    let file = v.get("file").bytes();
    let cuts: Vec<usize> = v.get("cuts").list().iter().map(|c| c.num() as usize).collect();
    let s = Sched::Cuts(cuts);
    if events {
        let runs: Vec<_> = [5000, 1, r.range(0, 3)].into_iter().map(|n| (s.clone(), Sink { per_image: vec![n], vary: false })).collect();
        return k2::traces("model", &file, &runs, out);
    }
    let base = [Opt::new(), Opt::new().rgba(true), Opt::new().endc(true).cons(true), Opt::new().skip(true)][r.range(0, 3)].clone();
    let n = if base.rgba { 4 } else { 1 };
    let all = if r.chance(1, 2) { vec![Op::Rnf; 4] }
        else { vec![Op::Nfi, Op::Fill(n), Op::Fill(n), Op::Nfi, Op::Rib(0), Op::Nfi, Op::Fill(2 * n), Op::Rnf, Op::Nfi] };
    k1::traces("model", &file, &base, &[], &[Sched::All, s], &all, out);
}

fn frame(v: &Val) -> Frame<'static> {
    let n = |k| v.get(k).num();
    Frame { left: n("l") as u16, top: n("t") as u16, width: n("w") as u16, height: n("h") as u16, interlaced: v.get("il").flag(),
        delay: n("dl") as u16, needs_user_input: v.get("ui").flag(),
        dispose: DisposalMethod::from_u8(n("di") as u8).unwrap(),
        transparent: u8::try_from(n("tr")).ok(),
        palette: if v.get("hp").flag() { Some(v.get("pal").bytes()) } else { None }, ..Frame::default() }
}

fn encode(v: &Val, r: &mut Rng, out: &mut Out) {
    let calls = v.get("calls").list();
    let (w, h, gp) = (calls[0].get("w").num() as u16, calls[0].get("h").num() as u16, calls[0].get("gp").bytes());
    let mut ops: Vec<Call> = calls[1..].iter().map(|c| {
        let full = || { let mut f = frame(c.get("f")); f.buffer = Cow::Owned(c.get("buf").bytes()); f };
        match c.get("c").str() {
            "rep" => Call::Rep(match c.get("v").num() { -1 => Repeat::Infinite, n => Repeat::Finite(n as u16) }),
            "ctl" => { let f = frame(c.get("f")); Call::Ctl { delay: f.delay, dispose: f.dispose, ui: f.needs_user_input, tr: f.transparent } }
            "ctlraw" => Call::CtlRaw(c.get("data").bytes().try_into().unwrap()),
            "raw" => Call::Raw(c.get("lb").num() as u8, c.get("data").list().iter().map(Val::bytes).collect()),
            "frame" => Call::Frame(full()),
            "pre" => Call::Pre(full()),
            "fin" => Call::Fin,
            "drop" => Call::Drop,
            c => panic!("unknown call {c}"),
        }
    }).collect();
    if !matches!(ops.last(), Some(Call::Fin | Call::Drop)) { ops.push(Call::Drop); }
    let fs = faults(v.get("faults"));
    k4::trace("model", &History { w, h, gp, calls: ops }, r, out, |_, _| Plan { dec: fs.is_empty(), runs: if fs.is_empty() { vec![(vec![], 1)] } else { vec![(fs.clone(), 0), (fs, 1)] } });
}

fn compressed(v: &Val, out: &mut Out) {
    let steps: Vec<_> = v.get("calls").list().iter().map(|c| match c.get("c").str() {
        "set" => k3::Step::Set(c.get("pal").bytes()),
        _ => {
            let mut f = frame(c.get("f"));
            f.buffer = Cow::Owned(c.get("data").bytes());
            k3::Step::Decode(f, match c.get("c").str() { "into" => Some(c.get("d").num()), _ => None })
        }
    }).collect();
    k3::traces("model", &options(v.get("opt")), &steps, out);
}

fn construct(v: &Val, r: &mut Rng, out: &mut Out) {
    let c = *["rgba", "rgb", "pal", "idx"].iter().find(|c| **c == v.get("c").str()).unwrap();
    let n = |k| v.get(k).num();
    let m = Make { c, w: n("w") as u16, h: n("h") as u16, px: v.get("px").bytes(), pal: v.get("pal").bytes(), tr: u8::try_from(n("tr")).ok(), speed: n("speed") as i32 };
    k5::traces("model", &[m], out, r);
}

/// Lines of scripts.txt; `streams`: files are given to the event decoder, too.
pub fn generate(scripts: &str, streams: bool, seed: u64) -> Res {
    let all: Vec<(&str, Val)> = scripts.lines().map(|l| { let (k, v) = l.split_once(' ').unwrap(); (k, Val::parse(v)) }).collect();
    let of = |k: &str| all.iter().filter(|x| x.0 == k).map(|x| &x.1).collect::<Vec<_>>();
    let mut res: Res = vec![];
    let dec = of("dec");
    if !dec.is_empty() {
        res.push(("dec4", parallel(dec.len(), seed, |i, r, out| decode(dec[i], false, r, out))));
        if streams {
            // every file once
            let mut seen = std::collections::HashSet::new();
            let files: Vec<_> = dec.iter().filter(|v| seen.insert(v.get("file").bytes())).collect();
            res.push(("strm4", parallel(files.len(), seed, |i, r, out| decode(files[i], true, r, out))));
        }
    }
    let strm = of("strm");
    if !strm.is_empty() {
        res.push(("strm5", parallel(strm.len(), seed, |i, r, out| pieces(strm[i], true, r, out))));
        res.push(("dec5", parallel(strm.len(), seed, |i, r, out| pieces(strm[i], false, r, out))));
    }
    let enc = of("enc");
    if !enc.is_empty() { res.push(("enc4", parallel(enc.len(), seed, |i, r, out| encode(enc[i], r, out)))); }
    let fdec = of("fdec");
    if !fdec.is_empty() { res.push(("fdec4", parallel(fdec.len(), seed, |i, _, out| compressed(fdec[i], out)))); }
    let new = of("new");
    if !new.is_empty() { res.push(("new4", parallel(new.len(), seed, |i, r, out| construct(new[i], r, out)))); }
    res
}
