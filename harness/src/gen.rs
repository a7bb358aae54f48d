//! Generators of GIF files: mostly valid, with quirks and defects at chosen rates.
use crate::rng::Rng;

/// Writer of LZW codes which tracks the code width a decoder will use.
pub struct LzwWriter {
    pub m: u32,
    w: u32,
    next: u32,
    prev_len: usize,
    lens: Vec<usize>,
    acc: u32,
    nb: u32,
    pub out: Vec<u8>,
    pub pixels: usize,
}

impl LzwWriter {
    pub fn new(m: u32) -> Self {
        LzwWriter { m, w: m + 1, next: (1 << m) + 2, prev_len: 0, lens: vec![], acc: 0, nb: 0, out: vec![], pixels: 0 }
    }
    pub fn clear(&self) -> u32 { 1 << self.m }
    pub fn end(&self) -> u32 { (1 << self.m) + 1 }
    pub fn width(&self) -> u32 { self.w }
    pub fn next_code(&self) -> u32 { self.next }
    pub fn has_prev(&self) -> bool { self.prev_len > 0 }
    /// Number of pixels a code denotes now; 0 if it's impossible or special
    pub fn len_of(&self, c: u32) -> usize {
        let first = self.end() + 1;
        if c < self.clear() { 1 }
        else if c < first { 0 }
        else if ((c - first) as usize) < self.lens.len() { self.lens[(c - first) as usize] }
        else if c == self.next && self.prev_len > 0 && c < 4096 && c < (1 << self.w) { self.prev_len + 1 }
        else { 0 }
    }
    pub fn put(&mut self, c: u32) {
        let len = self.len_of(c);
        self.acc |= c << self.nb;
        self.nb += self.w;
        while self.nb >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.nb -= 8;
        }
        if c == self.clear() {
            self.w = self.m + 1;
            self.next = self.end() + 1;
            self.prev_len = 0;
            self.lens.clear();
        } else if len > 0 {
            if self.prev_len > 0 && self.next < 4096 {
                self.lens.push(self.prev_len + 1);
                if self.next >= (1 << self.w) - 1 && self.w < 12 {
                    self.w += 1;
                }
                self.next += 1;
            }
            self.prev_len = len;
            self.pixels += len;
        }
    }
    pub fn flush(&mut self) {
        if self.nb > 0 {
            self.out.push(self.acc as u8);
            self.acc = 0;
            self.nb = 0;
        }
    }
}

/// How a code stream is made
#[derive(Clone, Copy)]
pub struct LzwStyle {
    pub clear_start: bool,
    /// chance (of 1000) of a clear code before each code
    pub clear_rate: usize,
    pub double_clear: bool,
    pub end_code: bool,
    /// chance (of 1000) that an impossible code is put
    pub bad_rate: usize,
    /// chance (of 100) of preferring literals / the newest code
    pub literal_rate: usize,
    pub newest_rate: usize,
    pub longest_rate: usize,
}

pub fn style(r: &mut Rng, wild: bool) -> LzwStyle {
    LzwStyle {
        clear_start: r.chance(9, 10),
        clear_rate: *r.pick(&[0, 0, 0, 5, 50, 200, 500]),
        double_clear: r.chance(1, 3),
        end_code: if wild { r.chance(3, 4) } else { true },
        bad_rate: if wild { *r.pick(&[0, 0, 0, 10, 100]) } else { 0 },
        literal_rate: *r.pick(&[0, 10, 50, 100]),
        newest_rate: *r.pick(&[0, 10, 50, 90]),
        longest_rate: *r.pick(&[0, 0, 50, 90]),
    }
}

/// A random code stream of at least `pixels` pixels (unless it ends in an impossible code).
/// Literals are below `alphabet`.
pub fn lzw_random(r: &mut Rng, m: u32, pixels: usize, alphabet: u32, st: LzwStyle) -> Vec<u8> {
    let mut w = LzwWriter::new(m);
    if st.clear_start {
        w.put(w.clear());
        if st.double_clear { w.put(w.clear()); }
    }
    let alphabet = alphabet.clamp(1, w.clear());
    let exact = r.chance(3, 4);
    let mut guard = 0;
    while w.pixels < pixels {
        guard += 1;
        if r.below(1000) < st.clear_rate {
            w.put(w.clear());
            if st.double_clear && guard < 100_000 { w.put(w.clear()); }
            continue;
        }
        if r.below(1000) < st.bad_rate {
            // beyond the next code
            let lo = w.next_code() + u32::from(w.has_prev());
            if lo < (1 << w.width()) {
                let c = lo + r.below(((1 << w.width()) - lo) as usize) as u32;
                w.put(c);
                break;
            }
        }
        let lit = r.below(alphabet as usize) as u32;
        let first = w.end() + 1;
        let mut c = lit;
        if w.has_prev() && !(r.below(100) < st.literal_rate) {
            let hi = w.next_code().min((1 << w.width()) - 1).min(4095);
            if hi >= first {
                c = if r.below(100) < st.newest_rate { hi } else { first + r.below((hi - first + 1) as usize) as u32 };
                if r.below(100) < st.longest_rate {
                    for _ in 0..4 {
                        let d = first + r.below((hi - first + 1) as usize) as u32;
                        if w.len_of(d) > w.len_of(c) { c = d; }
                    }
                }
            }
        }
        if w.len_of(c) == 0 || (exact && w.pixels + w.len_of(c) > pixels) {
            c = lit;
        }
        w.put(c);
    }
    if st.end_code { w.put(w.end()); }
    w.flush();
    w.out
}

/// Ordinary greedy encoding of given pixels
pub fn lzw_greedy(m: u32, pix: &[u8], deferred: bool) -> Vec<u8> {
    use std::collections::HashMap;
    let mut w = LzwWriter::new(m);
    w.put(w.clear());
    let mut t: HashMap<(u32, u8), u32> = HashMap::new();
    let mut nxt = w.end() + 1;
    let mut cur: Option<u32> = None;
    for &p in pix {
        match cur {
            None => cur = Some(p.into()),
            Some(c) => if let Some(&d) = t.get(&(c, p)) { cur = Some(d) } else {
                w.put(c);
                if nxt < 4096 { t.insert((c, p), nxt); nxt += 1; }
                else if !deferred { w.put(w.clear()); t.clear(); nxt = w.end() + 1; }
                cur = Some(p.into());
            }
        }
    }
    if let Some(c) = cur { w.put(c); }
    w.put(w.end());
    w.flush();
    w.out
}

/// Appends data as sub-blocks with a terminator
/// Much data in extensions and images. Few pixels: the end code comes early.
pub fn bulky(r: &mut Rng) -> Vec<u8> {
    let mut f = b"GIF89a\x05\0\x05\0\x80\0\0\x01\x02\x03\x04\x05\x06".to_vec();
    let image = |f: &mut Vec<u8>, m: u8, d: &[u8]| {
        f.extend_from_slice(b"\x2C\0\0\0\0\x04\0\x01\0\0");
        f.push(m);
        for c in d.chunks(255) { f.push(c.len() as u8); f.extend_from_slice(c); }
        f.push(0);
    };
    let n = *r.pick(&[65_534, 65_535, 65_536, 65_537, 66_000, 70_001]);
    let place = r.below(3);
    image(&mut f, 2, &lzw_greedy(2, &[1, 0, 1, 0], false));
    if place == 0 {
        f.extend_from_slice(&[0x21, *r.pick(&[0xFE, 1, 0xFF])]);
        for c in r.bytes(n).chunks(255) { f.push(c.len() as u8); f.extend_from_slice(c); }
        f.push(0);
    }
    let m = r.range(2, 8) as u32;
    let mut d = lzw_greedy(m, &[1, 1, 0, 1], false);
    if place > 0 { let more = r.bytes(n - 1 - d.len()); d.extend(more); }
    image(&mut f, m as u8, &d);
    image(&mut f, 3, &lzw_greedy(3, &[0, 1, 1, 0], false));
    f.push(0x3B);
    f
}

pub fn sub_blocks(r: &mut Rng, data: &[u8], out: &mut Vec<u8>) {
    let mut max = *r.pick(&[255, 255, 255, 254, 100, 17, 3, 1]);
    if data.len() > 60 && max < 17 { max = 50 }
    let mut d = data;
    while !d.is_empty() {
        let n = if r.chance(1, 2) { max } else { r.range(1, max) }.min(d.len());
        out.push(n as u8);
        out.extend_from_slice(&d[..n]);
        d = &d[n..];
    }
    out.push(0);
}

#[derive(Clone)]
pub struct GenCfg {
    pub max_frames: usize,
    pub max_dim: usize,
    /// chance of 100 of defects in the code streams
    pub wild_lzw: usize,
    /// chance of 100 of odd but defined structures
    pub quirks: usize,
    /// chance of 100 of each extension before a frame
    pub exts: usize,
    pub unknown: usize,
    pub screen_defects: usize,
    pub no_palette: usize,
    pub trailer: usize,
    pub junk: usize,
    pub interlaced: usize,
    pub big_palette: usize,
    pub min_frames: usize,
    /// chance of 100 that the data has more or fewer pixels than the frame
    pub miscount: usize,
    pub bad_code_size: usize,
    /// chance of 100 of a frame declaring a huge size
    pub huge: usize,
}

impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { max_frames: 4, max_dim: 12, wild_lzw: 0, quirks: 15, exts: 40, unknown: 0, screen_defects: 20,
            no_palette: 0, trailer: 100, junk: 20, interlaced: 30, big_palette: 5, min_frames: 0, miscount: 0,
            bad_code_size: 0, huge: 0 }
    }
}

pub fn pct(r: &mut Rng, p: usize) -> bool { r.below(100) < p }

pub struct File {
    pub bytes: Vec<u8>,
    /// offsets of block starts
    pub marks: Vec<usize>,
    /// frame sizes
    pub sizes: Vec<(usize, usize)>,
}

/// n colors: any, or recognizable ones, or few different ones
pub fn colors(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 | 1 => (0..n).flat_map(|i| [i as u8, 255 - i as u8, (i * 7) as u8]).collect(),
        2 | 3 => {
            let k = r.range(1, 4);
            let few = r.bytes(3 * k);
            (0..n).flat_map(|_| { let c = 3 * r.below(k); few[c..c + 3].to_vec() }).collect()
        }
        4 => (0..3 * n).map(|_| *r.pick(&[0, 255, 1])).collect(),
        _ => r.bytes(3 * n),
    }
}

fn palette(r: &mut Rng, bits: u32) -> Vec<u8> { colors(r, 2 << bits) }

/// Pixels in long runs
pub fn runs(r: &mut Rng, n: usize, top: usize) -> Vec<u8> {
    let len = n / r.range(2, 40) + 1;
    let mut p = vec![];
    while p.len() < n {
        let k = r.range(1, 2 * len).min(n - p.len());
        let v = r.below(top) as u8;
        p.resize(p.len() + k, v);
    }
    p
}

/// A file with a frame of more than 65536 pixels between two small ones
pub fn big_file(r: &mut Rng) -> Vec<u8> {
    let (w, h) = match r.below(7) { 0 => (256, 256), 1 => (r.range(257, 300), r.range(256, 270)), 2 => (2, 33000), 3 => (33000, 2), 4 => (r.range(1, 3), r.range(65_520, 65_535)), 5 => (r.range(65_530, 65_535), r.range(1, 3)), _ => (r.range(60, 70) * 8, 140) };
    let mut f = b"GIF89a".to_vec();
    for v in [w, h] { f.extend_from_slice(&(v as u16).to_le_bytes()); }
    f.extend_from_slice(&[0x80 | 3, 0, 0]);
    f.extend(colors(r, 16));
    for (w, h) in [(2, 2), (w, h), (3, 1)] {
        if r.chance(1, 2) { control(r, &mut f, false); }
        f.extend_from_slice(&[0x2C, 0, 0, 0, 0]);
        for v in [w, h] { f.extend_from_slice(&(v as u16).to_le_bytes()); }
        let m = *r.pick(&[2, 4, 8]);
        f.extend_from_slice(&[if r.chance(1, 2) { 0x40 } else { 0 }, m]);
        let p = runs(r, w * h, 1 << m.min(4));
        let d = lzw_greedy(m.into(), &p, r.chance(1, 2));
        sub_blocks(r, &d, &mut f);
    }
    f.push(0x3B);
    f
}

/// More bytes than buffered readers take at once; often its trailer is next to such a border.
/// Up to `most` pixels of noise. The second value: an offset worth looking at.
pub fn long_file(r: &mut Rng, most: usize) -> (Vec<u8>, usize) {
    let mut f = b"GIF89a".to_vec();
    for v in [300u16, 300] { f.extend_from_slice(&v.to_le_bytes()); }
    let bits = *r.pick(&[1, 3, 7]);
    f.extend_from_slice(&[0x80 | bits, 0, 0]);
    f.extend(colors(r, 2 << bits));
    for i in 0..3 {
        if r.chance(1, 2) { control(r, &mut f, false); }
        let (w, h) = if i == 1 { let w = r.range(60, 120); (w, most / w) } else { (r.range(1, 5), r.range(1, 5)) };
        f.extend_from_slice(&[0x2C, r.below(5) as u8, 0, r.below(5) as u8, 0]);
        for v in [w, h] { f.extend_from_slice(&(v as u16).to_le_bytes()); }
        let m = *r.pick(&[bits.max(2), 8]);
        f.extend_from_slice(&[if r.chance(1, 2) { 0x40 } else { 0 }, m]);
        let p: Vec<u8> = (0..w * h).map(|_| r.below(if m == 8 { 256 } else { 2 << bits.max(1) }) as u8).collect();
        let d = lzw_greedy(m.into(), &p, r.chance(1, 2));
        sub_blocks(r, &d, &mut f);
    }
    let border = (f.len() / 8192 + 1) * 8192;
    // comments up to just there
    if border - f.len() < 6000 && r.chance(3, 4) {
        let end = (border as i64 + r.below(5) as i64 - 2) as usize;
        while f.len() + 4 < end {
            let n = (end - f.len() - 4).min(255);
            f.extend_from_slice(&[0x21, 0xFE, n as u8]);
            f.resize(f.len() + n, 7);
            f.push(0);
        }
        // no room for another one: it may be a few bytes off
    }
    let at = f.len();
    f.push(0x3B);
    for _ in 0..r.below(9) { let b = r.byte(); f.push(b); }
    (f, at)
}

fn table_bits(r: &mut Rng, cfg: &GenCfg) -> u32 {
    if pct(r, cfg.big_palette) { r.range(4, 7) as u32 } else { r.below(4) as u32 }
}

pub fn control(r: &mut Rng, out: &mut Vec<u8>, quirks: bool) {
    out.extend_from_slice(&[0x21, 0xF9]);
    // often some of its parts are as by default
    let data = [if r.chance(1, 3) { *r.pick(&[0, 4, 8, 12, 1, 2, 16, 28, 5]) } else { r.byte() }, if r.chance(1, 3) { 0 } else { r.byte() }, if r.chance(1, 2) { 0 } else { r.byte() }, if r.chance(2, 3) { r.below(8) as u8 } else { r.byte() }];
    if quirks && r.chance(1, 3) {
        // the same data in several sub-blocks, or of wrong length
        match r.below(4) {
            0 => { out.extend_from_slice(&[2, data[0], data[1], 2, data[2], data[3], 0]); }
            1 => { out.extend_from_slice(&[3, data[0], data[1], data[2], 0]); }
            2 => { out.extend_from_slice(&[5, data[0], data[1], data[2], data[3], 9, 0]); }
            _ => { out.extend_from_slice(&[0]); }
        }
    } else {
        out.push(4);
        out.extend_from_slice(&data);
        out.push(0);
    }
}

pub fn application(r: &mut Rng, out: &mut Vec<u8>) {
    out.extend_from_slice(&[0x21, 0xFF]);
    let n = if r.chance(1, 3) { 0u16 } else { r.next() as u16 };
    let name: &[u8] = b"NETSCAPE2.0";
    match r.below(10) {
        0..=4 => {
            out.push(11);
            out.extend_from_slice(name);
            out.extend_from_slice(&[3, 1, n as u8, (n >> 8) as u8, 0]);
        }
        5 => {
            // other sub-block first
            out.push(11);
            out.extend_from_slice(name);
            out.extend_from_slice(&[5, 2, 1, 2, 3, 4, 3, 1, n as u8, (n >> 8) as u8, 0]);
        }
        6 => {
            out.push(11);
            out.extend_from_slice(if r.chance(1, 2) { b"NETSCAPE2.1" } else { b"XMP DataXMP" });
            out.extend_from_slice(&[3, 1, n as u8, (n >> 8) as u8, 0]);
        }
        7 => {
            // too short, or split differently
            if r.chance(1, 2) {
                out.push(11);
                out.extend_from_slice(name);
                out.extend_from_slice(&[2, 1, n as u8, 0]);
            } else {
                out.push(14);
                out.extend_from_slice(name);
                out.extend_from_slice(&[1, n as u8, (n >> 8) as u8, 0]);
            }
        }
        8 => {
            // longer loop block
            out.push(11);
            out.extend_from_slice(name);
            if r.chance(1, 3) { out.extend_from_slice(&[4, 1, n as u8, (n >> 8) as u8, 77, 2, 8, 9, 0]); }
            else { out.extend_from_slice(&[3, 1, n as u8, (n >> 8) as u8, 5, 2, 8, 9, 0, 1, 0]); }
        }
        _ => {
            let n = r.range(0, 30);
            let d = r.bytes(n);
            sub_blocks(r, &d, out);
        }
    }
}

pub fn other_ext(r: &mut Rng, out: &mut Vec<u8>) {
    out.push(0x21);
    out.push(*r.pick(&[0x01, 0xFE, 0xFE]));
    let n = match r.below(6) { 0 => 0, 1 => 255, 2 => r.range(256, 600), _ => r.range(1, 40) };
    let d = r.bytes(n);
    sub_blocks(r, &d, out);
}

pub fn image(r: &mut Rng, cfg: &GenCfg, screen: (usize, usize), has_gct: bool, out: &mut Vec<u8>) -> (usize, usize) {
    out.push(0x2C);
    let dim = |r: &mut Rng| if r.chance(1, 12) { if pct(r, cfg.quirks) { 0 } else { 1 } } else { r.range(1, cfg.max_dim) };
    let (mut w, mut h) = (dim(r), dim(r));
    let (mut l, mut t);
    if pct(r, cfg.screen_defects) {
        (l, t) = (r.range(0, screen.0 + 1), r.range(0, screen.1 + 1));
        if r.chance(1, 6) { l = 65535 - r.below(3); }
        if r.chance(1, 6) { t = 65535 - r.below(3); }
    } else {
        w = w.min(screen.0);
        h = h.min(screen.1);
        l = if r.chance(1, 3) { screen.0 - w } else { r.range(0, screen.0 - w) };
        t = if r.chance(1, 3) { screen.1 - h } else { r.range(0, screen.1 - h) };
    }
    let huge = pct(r, cfg.huge);
    if huge {
        w = *r.pick(&[65535, 40000, 8192, 1000]);
        h = *r.pick(&[65535, 40000, 8192, 1000]);
    }
    for v in [l, t, w, h] {
        out.extend_from_slice(&(v as u16).to_le_bytes());
    }
    let mut flags = 0u8;
    if pct(r, cfg.interlaced) { flags |= 0x40; }
    let local = if has_gct { r.chance(1, 3) } else { !pct(r, cfg.no_palette) };
    let bits = table_bits(r, cfg);
    if local { flags |= 0x80 | bits as u8; } else if r.chance(1, 5) { flags |= r.below(8) as u8; }
    if r.chance(1, 5) { flags |= *r.pick(&[0x20, 0x10, 0x08, 0x38]); }
    out.push(flags);
    if local { let p = palette(r, bits); out.extend_from_slice(&p); }
    let m = match r.below(20) { 0..=9 => r.range(2, 4), 10..=14 => r.range(1, 8), 15..=17 => 8, 18 => r.range(8, 11), _ => 1 } as u32;
    if pct(r, cfg.bad_code_size) {
        out.push(*r.pick(&[0, 12, 13, 255]));
    } else {
        out.push(m as u8);
    }
    if pct(r, cfg.quirks) && r.chance(1, 6) {
        out.push(0); // no data at all
        return (w, h);
    }
    let mut n = if huge { r.below(50) } else { w * h };
    let wild = pct(r, cfg.wild_lzw);
    if pct(r, cfg.miscount) || wild {
        n = match r.below(4) { 0 => n.saturating_sub(1), 1 => r.below(n + 1), 2 => n + r.below(5), _ => n };
    }
    let st = style(r, wild);
    let alphabet = if r.chance(1, 2) { 2u32 << bits } else { 1 << m };
    let mut data = lzw_random(r, m, n, alphabet, st);
    if wild && r.chance(1, 4) && !data.is_empty() {
        match r.below(3) {
            0 => { let k = r.below(data.len()); data.truncate(k); }
            1 => { let k = r.below(data.len()); data[k] ^= 1 << r.below(8); }
            _ => { let k = r.below(20); let mut b = r.bytes(k); data.append(&mut b); }
        }
    }
    if pct(r, cfg.quirks) && r.chance(1, 3) {
        // trailing data after the end code
        let k = r.range(1, 300);
        let mut b = r.bytes(k);
        data.append(&mut b);
    }
    sub_blocks(r, &data, out);
    (w, h)
}

pub fn file(r: &mut Rng, cfg: &GenCfg) -> File {
    let mut out = Vec::new();
    let mut marks = Vec::new();
    let mut sizes = Vec::new();
    out.extend_from_slice(if r.chance(1, 4) { b"GIF87a" } else { b"GIF89a" });
    let screen = (r.range(1, cfg.max_dim + 4), r.range(1, cfg.max_dim + 4));
    let dims = if r.chance(1, 10) { (r.next() as u16 as usize, r.next() as u16 as usize) } else { screen };
    let screen = if dims.0 < 2 || dims.1 < 2 { screen } else { dims };
    out.extend_from_slice(&(screen.0 as u16).to_le_bytes());
    out.extend_from_slice(&(screen.1 as u16).to_le_bytes());
    let gct = r.chance(3, 4);
    let bits = table_bits(r, cfg);
    let mut flags = if gct { 0x80 | bits as u8 } else { r.below(8) as u8 };
    flags |= (r.below(16) << 3) as u8;
    out.push(flags);
    out.push(match r.below(4) { 0 => 0, 1 => (2usize << bits) as u8, 2 => ((2usize << bits) - 1) as u8, _ => r.byte() });
    out.push(r.byte());
    if gct { let p = palette(r, bits); out.extend_from_slice(&p); }
    let n = r.range(cfg.min_frames, cfg.max_frames);
    if r.chance(1, 4) { marks.push(out.len()); application(r, &mut out); }
    for _ in 0..n {
        for _ in 0..3 {
            if !pct(r, cfg.exts) { continue; }
            marks.push(out.len());
            match r.below(8) {
                0..=3 => { let q = pct(r, cfg.quirks) && r.chance(1, 4); control(r, &mut out, q) }
                4 => application(r, &mut out),
                _ => other_ext(r, &mut out),
            }
        }
        if pct(r, cfg.unknown) {
            marks.push(out.len());
            let mut b = r.byte();
            while [0x21, 0x2C, 0x3B].contains(&b) { b = r.byte(); }
            out.push(if r.chance(1, 4) { 0 } else { b });
            let n = *r.pick(&[0, 1, 5, 14, 300]);
            let mut d = r.bytes(n);
            if n == 14 { d.copy_from_slice(b"NETSCAPE2.0\x01\x07\x00"); }
            sub_blocks(r, &d, &mut out);
        }
        marks.push(out.len());
        sizes.push(image(r, cfg, screen, gct, &mut out));
    }
    if r.chance(1, 8) { marks.push(out.len()); other_ext(r, &mut out); }
    marks.push(out.len());
    if pct(r, cfg.trailer) {
        out.push(0x3B);
        if pct(r, cfg.junk) {
            marks.push(out.len());
            let k = r.range(1, 20);
            let mut b = r.bytes(k);
            if r.chance(1, 3) { b[0] = 0x2C; }
            out.append(&mut b);
        }
    }
    File { bytes: out, marks, sizes }
}

/// Random damage
pub fn mutate(r: &mut Rng, f: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if f.is_empty() { return; }
        let k = r.below(f.len());
        match r.below(6) {
            0 => f[k] = r.byte(),
            1 => f[k] ^= 1 << r.below(8),
            2 => { f.remove(k); }
            3 => { let b = r.byte(); f.insert(k, b); }
            4 => f[k] = *r.pick(&[0, 1, 255, 0x21, 0x2C, 0x3B, 0xF9, 0xFE, 0xFF]),
            _ => { let e = (k + r.range(1, 12)).min(f.len()); let s = f[k..e].to_vec(); let at = r.below(f.len()); for (i, b) in s.into_iter().enumerate() { f.insert(at + i, b); } }
        }
    }
    if r.chance(1, 8) { let k = r.below(f.len() + 1); f.truncate(k); }
}
