//! The reference model: JPEG frames as quantised coefficients, and encoders that realise every
//! legal way of carrying them (sequential / progressive, restarts, tables, layouts).
#![allow(dead_code)]

/// zig-zag index -> natural (row major) index, ITU T.81 figure A.6
pub fn zigzag() -> [usize; 64] {
    let mut t = [0usize; 64];
    let (mut r, mut c) = (0i32, 0i32);
    for k in 0..64 {
        t[k] = (r * 8 + c) as usize;
        if (r + c) % 2 == 0 {
            if c == 7 { r += 1 } else if r == 0 { c += 1 } else { r -= 1; c += 1 }
        } else if r == 7 { c += 1 } else if c == 0 { r += 1 } else { r += 1; c -= 1 }
    }
    t
}

#[derive(Clone)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8,
    /// blocks per line / column in the (interleaved) MCU grid
    pub bw: usize,
    pub bh: usize,
    /// blocks per line / column in a non-interleaved scan
    pub rw: usize,
    pub rh: usize,
    /// quantised coefficients, zig-zag order, raster order of blocks
    pub blocks: Vec<[i16; 64]>,
}

#[derive(Clone)]
pub struct Image {
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
    /// zig-zag order
    pub qt: [Option<[u8; 64]>; 4],
    pub hmax: usize,
    pub vmax: usize,
    pub mcux: usize,
    pub mcuy: usize,
}

pub fn cdiv(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

impl Image {
    /// `samp`: (h,v) for each component; 1 or 3 components
    pub fn new(w: usize, h: usize, samp: &[(usize, usize)]) -> Image {
        let hmax = samp.iter().map(|s| s.0).max().unwrap();
        let vmax = samp.iter().map(|s| s.1).max().unwrap();
        let single = samp.len() == 1;
        let (mcux, mcuy) = if single {
            (cdiv(w, 8), cdiv(h, 8))
        } else {
            (cdiv(w, 8 * hmax), cdiv(h, 8 * vmax))
        };
        let comps = samp
            .iter()
            .enumerate()
            .map(|(i, &(ch, cv))| {
                let (bw, bh) = if single { (mcux, mcuy) } else { (mcux * ch, mcuy * cv) };
                Comp {
                    id: i as u8 + 1,
                    h: ch,
                    v: cv,
                    tq: if i == 0 { 0 } else { 1 },
                    bw,
                    bh,
                    rw: cdiv(cdiv(w * ch, hmax), 8),
                    rh: cdiv(cdiv(h * cv, vmax), 8),
                    blocks: vec![[0; 64]; bw * bh],
                }
            })
            .collect();
        Image { w, h, comps, qt: [Some([1; 64]), Some([1; 64]), None, None], hmax, vmax, mcux, mcuy }
    }
    pub fn gray(w: usize, h: usize) -> Image {
        let mut i = Image::new(w, h, &[(1, 1)]);
        i.qt[1] = None;
        i
    }
    /// luma sampling (h,v), chroma 1x1
    pub fn color(w: usize, h: usize, s: (usize, usize)) -> Image {
        Image::new(w, h, &[s, (1, 1), (1, 1)])
    }
    /// number of MCUs in an interleaved scan (or blocks for one component)
    pub fn mcus(&self) -> usize {
        self.mcux * self.mcuy
    }
    pub fn quant(mut self, t: usize, q: [u8; 64]) -> Image {
        self.qt[t] = Some(q);
        self
    }
}

// ---------------------------------------------------------------------------------------------
// Huffman tables

#[derive(Clone, PartialEq, Debug)]
pub struct Table {
    pub bits: [u8; 16],
    pub vals: Vec<u8>,
}

impl Table {
    /// code and length of every symbol
    pub fn codes(&self) -> [Option<(u32, u8)>; 256] {
        let mut out = [None; 256];
        let (mut code, mut k) = (0u32, 0);
        for l in 1..=16u8 {
            for _ in 0..self.bits[l as usize - 1] {
                let s = self.vals[k] as usize;
                if out[s].is_none() {
                    out[s] = Some((code, l));
                }
                code += 1;
                k += 1;
            }
            code <<= 1;
        }
        out
    }
    /// from (symbol, length) pairs; codes are assigned in order of length, then of appearance
    pub fn from_lengths(pairs: &[(u8, u8)]) -> Table {
        let mut bits = [0u8; 16];
        let mut vals = vec![];
        for l in 1..=16u8 {
            for &(s, sl) in pairs {
                if sl == l {
                    bits[l as usize - 1] += 1;
                    vals.push(s);
                }
            }
        }
        let t = Table { bits, vals };
        assert!(t.legal(), "illegal profile {:?}", pairs);
        t
    }
    /// is this a prefix code with the all-ones code reserved?
    pub fn legal(&self) -> bool {
        let mut code = 0u32;
        for l in 1..=16u32 {
            code += self.bits[l as usize - 1] as u32;
            if code >= (1 << l) && self.bits[l as usize - 1] > 0 {
                return false;
            }
            if code > (1 << l) - 1 {
                // all shorter codes exhausted the space
                if self.bits[l as usize..].iter().any(|&b| b > 0) {
                    return false;
                }
            }
            code <<= 1;
        }
        self.bits.iter().map(|&b| b as usize).sum::<usize>() == self.vals.len()
    }
    pub fn flat(syms: &[u8]) -> Table {
        let n = syms.len().max(1);
        let mut l = 1;
        while (1usize << l) - 1 < n {
            l += 1;
        }
        Table::from_lengths(&syms.iter().map(|&s| (s, l as u8)).collect::<Vec<_>>())
    }
    /// skewed: lengths 1,2,3,... for the first symbols, the rest flat at the deepest level needed
    pub fn skewed(syms: &[u8]) -> Table {
        let n = syms.len();
        // k symbols on the spine, the rest below the node at depth k
        for k in (0..n).rev() {
            let rest = n - k;
            let mut d = 0;
            while (1usize << d) - 1 < rest {
                d += 1;
            }
            if k + d <= 16 {
                let mut v = vec![];
                for (i, &s) in syms.iter().enumerate() {
                    v.push((s, if i < k { i + 1 } else { k + d } as u8));
                }
                return Table::from_lengths(&v);
            }
        }
        unreachable!()
    }
    /// all symbols at the given length (>= what is needed)
    pub fn at_length(syms: &[u8], l: u8) -> Table {
        Table::from_lengths(&syms.iter().map(|&s| (s, l)).collect::<Vec<_>>())
    }
    /// ITU T.81 K.2 style optimal table
    pub fn optimal(freq: &[u32; 256]) -> Table {
        let mut f: Vec<u64> = freq.iter().map(|&x| x as u64).collect();
        f.push(1); // reserves all-ones
        let mut size = vec![0usize; 257];
        let mut others = vec![-1i32; 257];
        loop {
            let (mut c1, mut c2) = (-1i32, -1i32);
            let mut v = u64::MAX;
            for i in 0..257 {
                if f[i] > 0 && f[i] <= v { v = f[i]; c1 = i as i32; }
            }
            v = u64::MAX;
            for i in 0..257 {
                if f[i] > 0 && f[i] <= v && i as i32 != c1 { v = f[i]; c2 = i as i32; }
            }
            if c2 < 0 { break; }
            let (mut a, b) = (c1 as usize, c2 as usize);
            f[a] += f[b];
            f[b] = 0;
            size[a] += 1;
            while others[a] >= 0 { a = others[a] as usize; size[a] += 1; }
            others[a] = c2;
            let mut b = b;
            size[b] += 1;
            while others[b] >= 0 { b = others[b] as usize; size[b] += 1; }
        }
        let mut bits = vec![0i32; 300];
        for i in 0..257 { if size[i] > 0 { bits[size[i]] += 1; } }
        for i in (17..300).rev() {
            while bits[i] > 0 {
                let mut j = i - 2;
                while bits[j] == 0 { j -= 1; }
                bits[i] -= 2;
                bits[i - 1] += 1;
                bits[j + 1] += 2;
                bits[j] -= 1;
            }
        }
        let mut i = 16;
        while bits[i] == 0 { i -= 1; }
        bits[i] -= 1;
        let mut vals = vec![];
        for s in 1..300 {
            for k in 0..256 {
                if size[k] == s { vals.push(k as u8); }
            }
        }
        let mut b = [0u8; 16];
        for l in 1..=16 { b[l - 1] = bits[l] as u8; }
        let t = Table { bits: b, vals };
        assert!(t.legal());
        t
    }
    /// standard tables of Annex K
    pub fn std(tc: u8, chroma: bool) -> Table {
        let (bits, vals): ([u8; 16], Vec<u8>) = match (tc, chroma) {
            (0, false) => ([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], (0..12).collect()),
            (0, true) => ([0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0], (0..12).collect()),
            (_, false) => (
                [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d],
                vec![
                    0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07,
                    0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xa1, 0x08, 0x23, 0x42, 0xb1, 0xc1, 0x15, 0x52, 0xd1, 0xf0,
                    0x24, 0x33, 0x62, 0x72, 0x82, 0x09, 0x0a, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x25, 0x26, 0x27, 0x28,
                    0x29, 0x2a, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49,
                    0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69,
                    0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89,
                    0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7,
                    0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5,
                    0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe1, 0xe2,
                    0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8,
                    0xf9, 0xfa,
                ],
            ),
            (_, true) => (
                [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77],
                vec![
                    0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71,
                    0x13, 0x22, 0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xa1, 0xb1, 0xc1, 0x09, 0x23, 0x33, 0x52, 0xf0,
                    0x15, 0x62, 0x72, 0xd1, 0x0a, 0x16, 0x24, 0x34, 0xe1, 0x25, 0xf1, 0x17, 0x18, 0x19, 0x1a, 0x26,
                    0x27, 0x28, 0x29, 0x2a, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48,
                    0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68,
                    0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87,
                    0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5,
                    0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3,
                    0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda,
                    0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8,
                    0xf9, 0xfa,
                ],
            ),
        };
        let t = Table { bits, vals };
        assert!(t.legal());
        t
    }
}

// ---------------------------------------------------------------------------------------------
// scans

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
    Sym { tc: u8, th: u8, sym: u8 },
    Bits { v: u32, n: u8 },
    Rst(u8),
    /// start of the n-th MCU of the scan (position marker, nothing is emitted)
    Mcu(u32),
}

#[derive(Clone, Debug)]
pub struct ScanComp {
    pub ci: usize,
    pub td: u8,
    pub ta: u8,
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<ScanComp>,
    pub ss: u8,
    pub se: u8,
    pub ah: u8,
    pub al: u8,
    /// longest end-of-band run to emit (progressive AC scans)
    pub max_eob: u32,
    /// restart interval in force for this scan (0: none)
    pub ri: usize,
    /// use ZRL symbols right up to the last coefficient instead of EOB where legal
    pub quirk_zrl: bool,
}

impl Scan {
    pub fn new(cis: &[usize], ss: u8, se: u8, ah: u8, al: u8) -> Scan {
        Scan {
            comps: cis.iter().map(|&ci| ScanComp { ci, td: (ci > 0) as u8, ta: (ci > 0) as u8 }).collect(),
            ss,
            se,
            ah,
            al,
            max_eob: 0x7fff,
            ri: 0,
            quirk_zrl: false,
        }
    }
    pub fn ri(mut self, ri: usize) -> Scan {
        self.ri = ri;
        self
    }
    pub fn eob(mut self, m: u32) -> Scan {
        self.max_eob = m;
        self
    }
}

pub fn cat(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}
fn extra(v: i32, n: u8) -> u32 {
    (if v < 0 { v - 1 } else { v }) as u32 & ((1u32 << n) - 1)
}

struct AcState {
    eobrun: u32,
    corr: Vec<bool>,
}

fn flush_eob(out: &mut Vec<Item>, ta: u8, st: &mut AcState) {
    if st.eobrun > 0 {
        let r = 31 - st.eobrun.leading_zeros();
        out.push(Item::Sym { tc: 1, th: ta, sym: (r as u8) << 4 });
        if r > 0 {
            out.push(Item::Bits { v: st.eobrun & ((1 << r) - 1), n: r as u8 });
        }
        st.eobrun = 0;
        for &b in &st.corr {
            out.push(Item::Bits { v: b as u32, n: 1 });
        }
        st.corr.clear();
    }
}

/// the symbol sequence of one scan
pub fn scan_items(img: &Image, sc: &Scan, progressive: bool) -> Vec<Item> {
    let mut out = vec![];
    let mut pred = [0i32; 4];
    let mut st = AcState { eobrun: 0, corr: vec![] };
    let single = sc.comps.len() == 1;
    let (mx, my) = if single {
        let c = &img.comps[sc.comps[0].ci];
        (c.rw, c.rh)
    } else {
        (img.mcux, img.mcuy)
    };
    let total = mx * my;
    let mut rst = 0u8;
    for m in 0..total {
        if sc.ri > 0 && m > 0 && m % sc.ri == 0 {
            flush_eob(&mut out, sc.comps[0].ta, &mut st);
            out.push(Item::Rst(rst));
            rst = (rst + 1) & 7;
            pred = [0; 4];
        }
        out.push(Item::Mcu(m as u32));
        let (x, y) = (m % mx, m / mx);
        for c in &sc.comps {
            let comp = &img.comps[c.ci];
            let (nh, nv) = if single { (1, 1) } else { (comp.h, comp.v) };
            for vy in 0..nv {
                for vx in 0..nh {
                    let b = &comp.blocks[(y * nv + vy) * comp.bw + x * nh + vx];
                    if !progressive {
                        seq_block(&mut out, b, &mut pred[c.ci], c, sc.quirk_zrl);
                    } else {
                        prog_block(&mut out, b, &mut pred[c.ci], c, sc, &mut st);
                    }
                }
            }
        }
    }
    flush_eob(&mut out, sc.comps[0].ta, &mut st);
    out
}

fn dc_diff(out: &mut Vec<Item>, diff: i32, td: u8) {
    let n = cat(diff);
    out.push(Item::Sym { tc: 0, th: td, sym: n });
    if n > 0 {
        out.push(Item::Bits { v: extra(diff, n), n });
    }
}

fn seq_block(out: &mut Vec<Item>, b: &[i16; 64], pred: &mut i32, c: &ScanComp, quirk: bool) {
    let d = b[0] as i32;
    dc_diff(out, d - *pred, c.td);
    *pred = d;
    let mut r = 0;
    let last = (1..64).rev().find(|&k| b[k] != 0).unwrap_or(0);
    for k in 1..=last {
        let v = b[k] as i32;
        if v == 0 {
            r += 1;
            continue;
        }
        while r > 15 {
            out.push(Item::Sym { tc: 1, th: c.ta, sym: 0xF0 });
            r -= 16;
        }
        let n = cat(v);
        out.push(Item::Sym { tc: 1, th: c.ta, sym: (r as u8) << 4 | n });
        out.push(Item::Bits { v: extra(v, n), n });
        r = 0;
    }
    if last < 63 {
        if quirk {
            // the tail may also be spelled with ZRLs before the EOB
            let mut k = last + 1;
            while k + 16 <= 63 {
                out.push(Item::Sym { tc: 1, th: c.ta, sym: 0xF0 });
                k += 16;
            }
        }
        out.push(Item::Sym { tc: 1, th: c.ta, sym: 0 });
    }
}

fn prog_block(out: &mut Vec<Item>, b: &[i16; 64], pred: &mut i32, c: &ScanComp, sc: &Scan, st: &mut AcState) {
    if sc.ss == 0 {
        if sc.ah == 0 {
            let d = (b[0] as i32) >> sc.al;
            dc_diff(out, d - *pred, c.td);
            *pred = d;
        } else {
            out.push(Item::Bits { v: ((b[0] as i32) >> sc.al) as u32 & 1, n: 1 });
        }
        return;
    }
    let (ss, se) = (sc.ss as usize, sc.se as usize);
    let pt = |v: i16| -> i32 {
        let a = (v as i32).abs() >> sc.al;
        if v < 0 { -a } else { a }
    };
    if sc.ah == 0 {
        let mut r = 0;
        for k in ss..=se {
            let v = pt(b[k]);
            if v == 0 {
                r += 1;
                continue;
            }
            flush_eob(out, c.ta, st);
            while r > 15 {
                out.push(Item::Sym { tc: 1, th: c.ta, sym: 0xF0 });
                r -= 16;
            }
            let n = cat(v);
            out.push(Item::Sym { tc: 1, th: c.ta, sym: (r as u8) << 4 | n });
            out.push(Item::Bits { v: extra(v, n), n });
            r = 0;
        }
        if r > 0 {
            st.eobrun += 1;
            if st.eobrun >= sc.max_eob {
                flush_eob(out, c.ta, st);
            }
        }
    } else {
        let last1 = (ss..=se).rev().find(|&k| pt(b[k]).abs() == 1).unwrap_or(0);
        let mut r = 0;
        let mut corr: Vec<bool> = vec![];
        for k in ss..=se {
            let a = pt(b[k]).abs();
            if a == 0 {
                r += 1;
                continue;
            }
            while r > 15 && k <= last1 {
                flush_eob(out, c.ta, st);
                out.push(Item::Sym { tc: 1, th: c.ta, sym: 0xF0 });
                r -= 16;
                for &x in &corr {
                    out.push(Item::Bits { v: x as u32, n: 1 });
                }
                corr.clear();
            }
            if a > 1 {
                corr.push(a & 1 == 1);
                continue;
            }
            flush_eob(out, c.ta, st);
            out.push(Item::Sym { tc: 1, th: c.ta, sym: (r as u8) << 4 | 1 });
            out.push(Item::Bits { v: (b[k] >= 0) as u32, n: 1 });
            for &x in &corr {
                out.push(Item::Bits { v: x as u32, n: 1 });
            }
            corr.clear();
            r = 0;
        }
        if r > 0 || !corr.is_empty() {
            st.eobrun += 1;
            st.corr.extend(corr);
            if st.eobrun >= sc.max_eob {
                flush_eob(out, c.ta, st);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// bits

pub struct BitWriter {
    pub out: Vec<u8>,
    acc: u32,
    n: u8,
    pub bits: u64,
}
impl BitWriter {
    pub fn new() -> Self {
        BitWriter { out: vec![], acc: 0, n: 0, bits: 0 }
    }
    pub fn put(&mut self, v: u32, n: u8) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | (v >> i & 1);
            self.n += 1;
            self.bits += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                if self.acc as u8 == 0xff {
                    self.out.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    pub fn align(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}

pub type Tables = Vec<((u8, u8), Table)>;

pub fn freqs(items: &[Item]) -> Vec<((u8, u8), [u32; 256])> {
    let mut v: Vec<((u8, u8), [u32; 256])> = vec![];
    for it in items {
        if let Item::Sym { tc, th, sym } = *it {
            match v.iter_mut().find(|x| x.0 == (tc, th)) {
                Some(x) => x.1[sym as usize] += 1,
                None => {
                    let mut f = [0u32; 256];
                    f[sym as usize] = 1;
                    v.push(((tc, th), f));
                }
            }
        }
    }
    v.sort_by_key(|x| x.0);
    v
}

/// serialise; `pos` (if given) receives for each MCU the byte offset one past the last byte that
/// holds a bit of it
pub fn serialise(items: &[Item], tables: &Tables, mut ends: Option<&mut Vec<usize>>) -> Vec<u8> {
    let mut codes: Vec<((u8, u8), [Option<(u32, u8)>; 256])> = vec![];
    for (k, t) in tables {
        codes.retain(|c| c.0 != *k);
        codes.push((*k, t.codes()));
    }
    let mut w = BitWriter::new();
    let mut first = true;
    for it in items {
        match *it {
            Item::Sym { tc, th, sym } => {
                let c = codes.iter().find(|c| c.0 == (tc, th)).expect("no table");
                let (code, l) = c.1[sym as usize].unwrap_or_else(|| panic!("symbol {:02x} not in table {} {}", sym, tc, th));
                w.put(code, l);
            }
            Item::Bits { v, n } => w.put(v, n),
            Item::Rst(n) => {
                w.align();
                w.out.push(0xff);
                w.out.push(0xd0 + n);
            }
            Item::Mcu(_) => {
                if !first {
                    if let Some(e) = ends.as_deref_mut() {
                        e.push(w.out.len() + (w.n > 0) as usize);
                    }
                }
                first = false;
            }
        }
    }
    w.align();
    if let Some(e) = ends.as_deref_mut() {
        e.push(w.out.len());
    }
    w.out
}

/// sequential scans: for each block in scan order, the byte offset one past the last byte that holds
/// a bit of it (a stuffed zero counts as part of its FF)
pub fn block_ends(items: &[Item], tables: &Tables) -> Vec<usize> {
    let mut ends = vec![];
    let codes: Vec<((u8, u8), [Option<(u32, u8)>; 256])> = tables.iter().map(|(k, t)| (*k, t.codes())).collect();
    let mut w = BitWriter::new();
    let mut blocks = 0;
    let mut open = false;
    for it in items {
        match *it {
            Item::Sym { tc, th, sym } => {
                if tc == 0 {
                    if open {
                        ends.push(w.out.len() + (w.n > 0) as usize);
                    }
                    open = true;
                    blocks += 1;
                }
                let (code, l) = codes.iter().find(|c| c.0 == (tc, th)).unwrap().1[sym as usize].unwrap();
                w.put(code, l);
            }
            Item::Bits { v, n } => w.put(v, n),
            Item::Rst(n) => {
                if open {
                    ends.push(w.out.len() + (w.n > 0) as usize);
                }
                open = false;
                w.align();
                w.out.push(0xff);
                w.out.push(0xd0 + n);
            }
            Item::Mcu(_) => {}
        }
    }
    if open {
        ends.push(w.out.len() + (w.n > 0) as usize);
    }
    w.align();
    for e in ends.iter_mut() {
        if w.out[*e - 1] == 0xff {
            *e += 1;
        }
    }
    assert_eq!(blocks, ends.len());
    ends
}

// ---------------------------------------------------------------------------------------------
// files

#[derive(Clone, Debug, PartialEq)]
pub struct Part {
    pub marker: u8,
    pub body: Vec<u8>,
    /// entropy coded data following the segment
    pub data: Vec<u8>,
    /// bytes put in front of the marker (fill or stray bytes)
    pub lead: Vec<u8>,
}
impl Part {
    pub fn seg(marker: u8, body: Vec<u8>) -> Part {
        Part { marker, body, data: vec![], lead: vec![] }
    }
    pub fn bytes(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.lead);
        o.push(0xff);
        o.push(self.marker);
        if self.marker != 0xd8 && self.marker != 0xd9 {
            let l = self.body.len() + 2;
            o.push((l >> 8) as u8);
            o.push(l as u8);
            o.extend_from_slice(&self.body);
        }
        o.extend_from_slice(&self.data);
    }
}
pub fn file(parts: &[Part]) -> Vec<u8> {
    let mut o = vec![];
    for p in parts {
        p.bytes(&mut o);
    }
    o
}
pub fn soi() -> Part {
    Part::seg(0xd8, vec![])
}
pub fn eoi() -> Part {
    Part::seg(0xd9, vec![])
}
pub fn dqt(ts: &[(u8, [u8; 64])]) -> Part {
    let mut b = vec![];
    for (i, t) in ts {
        b.push(*i);
        b.extend_from_slice(t);
    }
    Part::seg(0xdb, b)
}
pub fn dht(ts: &[((u8, u8), Table)]) -> Part {
    let mut b = vec![];
    for ((tc, th), t) in ts {
        b.push(tc << 4 | th);
        b.extend_from_slice(&t.bits);
        b.extend_from_slice(&t.vals);
    }
    Part::seg(0xc4, b)
}
pub fn dri(n: usize) -> Part {
    Part::seg(0xdd, vec![(n >> 8) as u8, n as u8])
}
pub fn sof(img: &Image, progressive: bool) -> Part {
    let mut b = vec![8, (img.h >> 8) as u8, img.h as u8, (img.w >> 8) as u8, img.w as u8, img.comps.len() as u8];
    for c in &img.comps {
        b.extend_from_slice(&[c.id, (c.h << 4 | c.v) as u8, c.tq]);
    }
    Part::seg(if progressive { 0xc2 } else { 0xc0 }, b)
}
pub fn sos(img: &Image, sc: &Scan) -> Part {
    let mut b = vec![sc.comps.len() as u8];
    for c in &sc.comps {
        b.extend_from_slice(&[img.comps[c.ci].id, c.td << 4 | c.ta]);
    }
    b.extend_from_slice(&[sc.ss, sc.se, sc.ah << 4 | sc.al]);
    Part::seg(0xda, b)
}
pub fn dqts(img: &Image) -> Part {
    let v: Vec<(u8, [u8; 64])> =
        img.qt.iter().enumerate().filter_map(|(i, q)| q.map(|q| (i as u8, q))).collect();
    dqt(&v)
}

pub type TableFn<'a> = &'a dyn Fn(u8, u8, &[u32; 256]) -> Table;

pub fn syms_of(f: &[u32; 256]) -> Vec<u8> {
    (0..256).filter(|&i| f[i] > 0).map(|i| i as u8).collect()
}
pub fn t_flat(_tc: u8, _th: u8, f: &[u32; 256]) -> Table {
    Table::flat(&syms_of(f))
}
pub fn t_opt(_tc: u8, _th: u8, f: &[u32; 256]) -> Table {
    Table::optimal(f)
}
pub fn t_std(tc: u8, th: u8, _f: &[u32; 256]) -> Table {
    Table::std(tc, th > 0)
}
/// most frequent symbol shortest
pub fn t_skew(_tc: u8, _th: u8, f: &[u32; 256]) -> Table {
    let mut s = syms_of(f);
    s.sort_by_key(|&x| std::cmp::Reverse(f[x as usize]));
    Table::skewed(&s)
}
/// every code as long as possible
pub fn t_long(_tc: u8, _th: u8, f: &[u32; 256]) -> Table {
    Table::at_length(&syms_of(f), 16)
}

pub fn baseline_scan(img: &Image, ri: usize) -> Scan {
    Scan::new(&(0..img.comps.len()).collect::<Vec<_>>(), 0, 63, 0, 0).ri(ri)
}

pub struct Encoded {
    pub parts: Vec<Part>,
    /// for the last scan: end offset (inside its data) of every MCU
    pub ends: Vec<usize>,
}

/// SOI DQT SOF (DRI? DHT SOS data)* EOI
pub fn encode(img: &Image, progressive: bool, scans: &[Scan], tf: TableFn) -> Encoded {
    let mut parts = vec![soi(), dqts(img), sof(img, progressive)];
    let mut ri = 0;
    let mut ends = vec![];
    for sc in scans {
        let items = scan_items(img, sc, progressive);
        let tables: Tables = freqs(&items).into_iter().map(|((tc, th), f)| ((tc, th), tf(tc, th, &f))).collect();
        if sc.ri != ri {
            parts.push(dri(sc.ri));
            ri = sc.ri;
        }
        if !tables.is_empty() {
            parts.push(dht(&tables));
        }
        let mut s = sos(img, sc);
        ends.clear();
        s.data = serialise(&items, &tables, Some(&mut ends));
        parts.push(s);
    }
    parts.push(eoi());
    Encoded { parts, ends }
}
/// the canonical sequential encoding
pub fn baseline(img: &Image) -> Vec<u8> {
    file(&encode(img, false, &[baseline_scan(img, 0)], &t_opt).parts)
}
pub fn baseline_ri(img: &Image, ri: usize) -> Vec<u8> {
    file(&encode(img, false, &[baseline_scan(img, ri)], &t_opt).parts)
}
pub fn progressive(img: &Image, scans: &[Scan]) -> Vec<u8> {
    file(&encode(img, true, scans, &t_opt).parts)
}
/// DC (interleaved) then all AC of each component
pub fn simple_script(img: &Image) -> Vec<Scan> {
    let n = img.comps.len();
    let mut v = vec![Scan::new(&(0..n).collect::<Vec<_>>(), 0, 0, 0, 0)];
    for c in 0..n {
        v.push(Scan::new(&[c], 1, 63, 0, 0));
    }
    v
}
/// libjpeg-like script with successive approximation
pub fn full_script(img: &Image) -> Vec<Scan> {
    let n = img.comps.len();
    let all: Vec<usize> = (0..n).collect();
    let mut v = vec![Scan::new(&all, 0, 0, 0, 1)];
    v.push(Scan::new(&[0], 1, 5, 0, 2));
    for c in (1..n).rev() {
        v.push(Scan::new(&[c], 1, 63, 0, 1));
    }
    v.push(Scan::new(&[0], 6, 63, 0, 2));
    v.push(Scan::new(&[0], 1, 63, 2, 1));
    v.push(Scan::new(&all, 0, 0, 1, 0));
    for c in (1..n).rev() {
        v.push(Scan::new(&[c], 1, 63, 1, 0));
    }
    v.push(Scan::new(&[0], 1, 63, 1, 0));
    v
}

// ---------------------------------------------------------------------------------------------
// deterministic "distinguishable" content

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}

/// Fill with a fixed pseudo-random pattern: every block differs from every other in DC and in a
/// few AC terms of visible amplitude. This is the model's one content function; which contents
/// are used is part of each check's stated bound.
pub fn fill(img: &mut Image, seed: u64) {
    let mut r = Rng(seed.wrapping_mul(0x1234567) ^ 0x5bd1e995);
    for (ci, c) in img.comps.iter_mut().enumerate() {
        let q = img.qt[c.tq as usize].unwrap();
        for b in c.blocks.iter_mut() {
            *b = [0; 64];
            let amp = if ci == 0 { 560 } else { 480 };
            b[0] = (r.range(-amp, amp) / q[0] as i64) as i16;
            for k in 1..64 {
                let a: i64 = if k < 6 { 160 } else if k < 20 { 48 } else { 24 };
                if r.below(if k < 6 { 2 } else { 9 }) == 0 {
                    b[k] = (r.range(-a, a) / q[k] as i64) as i16;
                }
            }
        }
        // blocks outside the image are padding: DC only
        for y in 0..c.bh {
            for x in 0..c.bw {
                if x >= c.rw || y >= c.rh {
                    let b = &mut c.blocks[y * c.bw + x];
                    for k in 1..64 {
                        b[k] = 0;
                    }
                }
            }
        }
    }
}
pub fn filled(mut img: Image, seed: u64) -> Image {
    fill(&mut img, seed);
    img
}

// ---------------------------------------------------------------------------------------------
// reference reconstruction

pub struct Ref {
    cosu: [[f64; 8]; 8],
    zz: [usize; 64],
}
impl Ref {
    pub fn new() -> Ref {
        let mut cosu = [[0.0; 8]; 8];
        for x in 0..8 {
            for u in 0..8 {
                let c = if u == 0 { (0.5f64).sqrt() } else { 1.0 };
                cosu[x][u] = c * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos() / 2.0;
            }
        }
        Ref { cosu, zz: zigzag() }
    }
    /// exact samples (level shifted, not clamped) of one block, row major
    pub fn block(&self, b: &[i16; 64], q: &[u8; 64]) -> [f64; 64] {
        let mut f = [0.0; 64];
        let mut any = false;
        for k in 0..64 {
            if b[k] != 0 {
                f[self.zz[k]] = b[k] as f64 * q[k] as f64;
                any |= k > 0;
            }
        }
        if !any {
            return [f[0] / 8.0 + 128.0; 64];
        }
        let mut t = [0.0; 64];
        for v in 0..8 {
            for x in 0..8 {
                let mut s = 0.0;
                for u in 0..8 {
                    s += self.cosu[x][u] * f[v * 8 + u];
                }
                t[v * 8 + x] = s;
            }
        }
        let mut o = [0.0; 64];
        for x in 0..8 {
            for y in 0..8 {
                let mut s = 0.0;
                for v in 0..8 {
                    s += self.cosu[y][v] * t[v * 8 + x];
                }
                o[y * 8 + x] = s + 128.0;
            }
        }
        o
    }
    /// clamped exact samples of a component: (stride, rows, data)
    pub fn plane(&self, img: &Image, ci: usize) -> (usize, usize, Vec<f64>) {
        let c = &img.comps[ci];
        let q = img.qt[c.tq as usize].unwrap();
        let stride = c.bw * 8;
        let mut p = vec![0.0; stride * c.bh * 8];
        for by in 0..c.bh {
            for bx in 0..c.bw {
                let s = self.block(&c.blocks[by * c.bw + bx], &q);
                for y in 0..8 {
                    for x in 0..8 {
                        p[(by * 8 + y) * stride + bx * 8 + x] = s[y * 8 + x].clamp(0.0, 255.0);
                    }
                }
            }
        }
        (stride, c.bh * 8, p)
    }
    /// interpolate a component plane to full resolution with the triangle filter
    /// (vertical neighbours only inside a row of blocks), real-valued
    pub fn upsample(p: &(usize, usize, Vec<f64>), h: usize, v: usize) -> (usize, usize, Vec<f64>) {
        let (mut stride, mut rows, mut d) = (p.0, p.1, p.2.clone());
        if v == 2 {
            let mut o = vec![0.0; stride * rows * 2];
            for y in 0..rows {
                let (g0, g1) = (y / 8 * 8, y / 8 * 8 + 7);
                let up = if y > g0 { y - 1 } else { y };
                let dn = if y < g1 { y + 1 } else { y };
                for x in 0..stride {
                    let n = d[y * stride + x];
                    o[2 * y * stride + x] = (3.0 * n + d[up * stride + x]) / 4.0;
                    o[(2 * y + 1) * stride + x] = (3.0 * n + d[dn * stride + x]) / 4.0;
                }
            }
            d = o;
            rows *= 2;
        }
        if h == 2 {
            let mut o = vec![0.0; stride * rows * 2];
            for y in 0..rows {
                for x in 0..stride {
                    let n = d[y * stride + x];
                    let l = if x > 0 { d[y * stride + x - 1] } else { n };
                    let r = if x + 1 < stride { d[y * stride + x + 1] } else { n };
                    o[y * 2 * stride + 2 * x] = (3.0 * n + l) / 4.0;
                    o[y * 2 * stride + 2 * x + 1] = (3.0 * n + r) / 4.0;
                }
            }
            d = o;
            stride *= 2;
        }
        (stride, rows, d)
    }
}

/// JFIF conversion, real-valued and clamped
pub fn jfif(y: f64, cb: f64, cr: f64) -> [f64; 3] {
    let (cb, cr) = (cb - 128.0, cr - 128.0);
    [
        (y + 1.402 * cr).clamp(0.0, 255.0),
        (y - 0.344136286 * cb - 0.714136286 * cr).clamp(0.0, 255.0),
        (y + 1.772 * cb).clamp(0.0, 255.0),
    ]
}
