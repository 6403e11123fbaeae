//! The common universe: the full product of image kind, size, content, quantisation, entropy
//! tables, restart interval and form of one frame. Several checks decide their property on every
//! file of it, so that a property is explored for interactions of all these axes and not only along
//! each of them.
use super::c04::permutations;
use super::common::*;
use super::*;
use crate::jpeg::*;

#[derive(Clone, Copy)]
pub struct U {
    pub kind: usize,
    pub w: usize,
    pub h: usize,
    pub content: usize,
    pub quant: usize,
}
impl U {
    pub fn name(&self) -> String {
        format!("{} {}x{} content {} quantisation {}", kind_name(self.kind), self.w, self.h, self.content, self.quant)
    }
    /// a number that varies along every axis
    pub fn mix(&self) -> usize {
        self.kind * 7 + self.w * 3 + self.h * 5 + self.content * 11 + self.quant * 13
    }
}
pub const CONTENTS: usize = 4;
pub const QUANTS: usize = 4;
pub const TABS: usize = 4;
pub const FORMS: usize = 5;

pub fn sizes(quick: bool) -> Vec<(usize, usize)> {
    let mut v = vec![(1, 1), (8, 8), (9, 17), (16, 33), (35, 16), (40, 41), (65, 7), (6, 50), (129, 24)];
    if !quick {
        v.extend([(2, 3), (7, 8), (16, 16), (17, 15), (24, 9), (31, 34), (33, 32), (48, 48), (64, 64), (100, 20), (20, 100), (127, 129), (200, 10), (10, 200), (257, 18)]);
    }
    v
}
pub fn all(quick: bool) -> Vec<U> {
    let mut v = vec![];
    for (w, h) in sizes(quick) {
        for kind in 0..5 {
            for content in 0..CONTENTS {
                for quant in 0..QUANTS {
                    v.push(U { kind, w, h, content, quant });
                }
            }
        }
    }
    v
}

pub fn image(u: &U) -> Image {
    let mut img = make(u.kind, u.w, u.h);
    let n = img.comps.len();
    match u.quant {
        0 => {}
        1 => (0..4).for_each(|i| if img.qt[i].is_some() { img.qt[i] = Some(qpos(i as u8 + 5)) }),
        2 => {
            for i in 0..4 {
                if img.qt[i].is_some() {
                    let mut q = [0u8; 64];
                    q.iter_mut().enumerate().for_each(|(k, x)| *x = 30 + (k * 3 + i * 20) as u8);
                    img.qt[i] = Some(q);
                }
            }
        }
        // a table for each component, in unusual destinations
        _ => {
            img.qt = Default::default();
            for ci in 0..n {
                let t = [3u8, 0, 2][ci];
                img.comps[ci].tq = t;
                img.qt[t as usize] = Some(qpos(2 * ci as u8 + 1));
            }
        }
    }
    let mut r = Rng(0x9e37 ^ u.mix() as u64 * 0x51ed);
    match u.content {
        0 => fill(&mut img, u.mix() as u64),
        k => {
            for (ci, c) in img.comps.iter_mut().enumerate() {
                let q = img.qt[c.tq as usize].unwrap();
                let amp = if ci == 0 { 1000 } else { 500 };
                for (i, b) in c.blocks.iter_mut().enumerate() {
                    *b = [0; 64];
                    let pad = i % c.bw >= c.rw || i / c.bw >= c.rh;
                    match k {
                        1 => b[0] = (r.range(-amp, amp) / q[0] as i64) as i16,
                        2 => {
                            // long runs of empty blocks, single coefficients
                            if r.below(5) == 0 {
                                b[0] = (r.range(-amp, amp) / q[0] as i64) as i16;
                            }
                            if r.below(4) == 0 && !pad {
                                let p = 1 + r.below(63) as usize;
                                b[p] = (r.range(-90, 90) / q[p] as i64) as i16;
                            }
                        }
                        _ => {
                            // samples far outside the range
                            b[0] = ((if r.below(2) == 0 { 1016 } else { -1016 }) / q[0] as i64) as i16;
                            if !pad {
                                for p in 1..9 {
                                    if r.below(2) == 0 {
                                        b[p] = (r.range(-700, 700) / q[p] as i64) as i16;
                                    }
                                }
                                b[63] = (r.range(-300, 300) / q[63] as i64) as i16;
                            }
                        }
                    }
                }
            }
        }
    }
    img
}
pub fn tab(t: usize) -> TableFn<'static> {
    [&t_opt as TableFn, &t_skew, &t_flat, &t_long][t]
}
/// restart intervals: none, every MCU, three, a row of MCUs
pub fn interval(img: &Image, r: usize) -> usize {
    match r {
        0 => 0,
        1 => 1,
        2 => 3,
        _ => img.mcux,
    }
}
pub const RIS: usize = 4;

fn script(img: &Image, form: usize) -> Vec<Scan> {
    let nc = img.comps.len();
    let all: Vec<usize> = (0..nc).collect();
    match form {
        1 => simple_script(img),
        2 => full_script(img),
        // components in reverse, two bit planes, four bands
        3 => {
            let mut v: Vec<Scan> = (0..nc).rev().map(|c| Scan::new(&[c], 0, 0, 0, 2)).collect();
            for c in (0..nc).rev() {
                for (a, b) in [(1u8, 1u8), (2, 9), (10, 62), (63, 63)] {
                    v.push(Scan::new(&[c], a, b, 0, 2).eob(1 << (c * 5)));
                }
            }
            for al in [1u8, 0] {
                v.push(Scan::new(&all, 0, 0, al + 1, al));
                for c in 0..nc {
                    for (a, b) in [(2u8, 9u8), (1, 1), (10, 62), (63, 63)] {
                        v.push(Scan::new(&[c], a, b, al + 1, al));
                    }
                }
            }
            v
        }
        // interleaved DC with a point transform, then each component completely
        _ => {
            let mut v = vec![Scan::new(&all, 0, 0, 0, 1)];
            for c in 0..nc {
                v.push(Scan::new(&[c], 1, 63, 0, 1));
                v.push(Scan::new(&[c], 1, 63, 1, 0));
                v.push(Scan::new(&[c], 0, 0, 1, 0));
            }
            v
        }
    }
}
/// the scans of a form; form 0: sequential, 1..: progressive
pub fn scans(img: &Image, form: usize, tabs: usize, ri: usize) -> Vec<Scan> {
    let ri = interval(img, ri);
    // destinations vary with the tables
    let d = |ci: usize, s: usize| (ci * s + tabs) as u8 & 3;
    let mut sc = if form == 0 { vec![baseline_scan(img, ri)] } else { script(img, form) };
    for s in sc.iter_mut() {
        s.ri = ri;
        for x in s.comps.iter_mut() {
            if tabs > 0 {
                x.td = d(x.ci, 1);
                x.ta = d(x.ci, 3);
            }
        }
    }
    sc
}
pub fn parts(img: &Image, form: usize, tabs: usize, ri: usize) -> Encoded {
    encode(img, form > 0, &scans(img, form, tabs, ri), tab(tabs))
}

/// one case for every image
pub fn images(c: &mut Ctx, f: impl Fn(&mut Ctx, &U, &Image) -> Result<(), String>) {
    for u in all(c.quick()) {
        c.case(
            || format!("universe: {}", u.name()),
            |c| {
                let img = image(&u);
                f(c, &u, &img)
            },
        );
    }
}
/// every file of one image
pub fn files(c: &mut Ctx, u: &U, img: &Image, forms: std::ops::Range<usize>, mut f: impl FnMut(&mut Ctx, usize, usize, usize, &Encoded) -> Result<(), String>) -> Result<(), String> {
    let _ = u;
    for form in forms {
        for tabs in 0..TABS {
            for ri in 0..RIS {
                if ri == 3 && interval(img, 3) == 1 {
                    continue;
                }
                let e = parts(img, form, tabs, ri);
                f(c, form, tabs, ri, &e).map_err(|e| format!("form {} tables {} interval {}: {}", form, tabs, interval(img, ri), e))?;
            }
        }
    }
    Ok(())
}
/// another layout of the same header
pub const LAYOUTS: usize = 12;
pub fn layout(parts: &[Part], n: usize) -> Vec<Part> {
    let sp = c14::split(parts);
    let f = sp.iter().position(|p| p.marker == 0xda).unwrap();
    let mut head = sp[1..f].to_vec();
    match n {
        0 => return sp,
        1 => head.reverse(),
        2 => {
            let k = head.len();
            let pm = permutations(k.min(5));
            let pm = &pm[(k * 37 + head[0].body.len()) % pm.len()];
            let rest = head.split_off(k.min(5));
            let mut h: Vec<Part> = pm.iter().map(|&i| head[i].clone()).collect();
            h.extend(rest);
            head = h;
        }
        _ => {}
    }
    let mut p = vec![sp[0].clone()];
    p.extend(head);
    p.extend(sp[f..].iter().cloned());
    match n {
        3 => p.iter_mut().skip(1).filter(|x| x.marker != 0xd9).for_each(|x| x.lead = vec![0xff; 2]),
        4 => {
            let mut q = vec![];
            for (i, x) in p.into_iter().enumerate() {
                if i > 0 && x.marker != 0xd9 {
                    q.push(Part::seg(0xfe, vec![0xff, 0xd8, 0xff, 0xda, i as u8, 0xff, 0xd9]));
                }
                q.push(x);
            }
            p = q;
        }
        5 => {
            p.splice(1..1, [Part::seg(0xe0, b"JFIF\0\x01\x01\x01\0\x60\0\x60\0\0".to_vec()), Part::seg(0xe1, vec![0x45; 700]), Part::seg(0xee, b"Adobe\0\x64\0\0\0\0\x01".to_vec())]);
        }
        // every table twice, first a wrong one
        6 => {
            let mut q = vec![];
            for x in p {
                if x.marker == 0xdb {
                    let mut y = x.clone();
                    y.body[1..].iter_mut().for_each(|b| *b = 255 - *b / 2);
                    q.push(y);
                }
                if x.marker == 0xc4 {
                    q.push(dht(&[((x.body[0] >> 4, x.body[0] & 15), Table::flat(&[0, 3, 1, 2]))]));
                }
                q.push(x);
            }
            p = q;
        }
        7 => {
            let mut t = eoi();
            t.data = vec![0xff, 0xd8, 0xff, 0xda, 1, 2, 3, 0xff, 0xc0, 0];
            let n = p.len();
            p[n - 1] = t;
        }
        // every destination filled: by tables replaced later, before everything else
        8 => {
            p.splice(1..1, decoys(&[]));
        }
        // by tables that are not used, before or after everything else in the header
        9 | 10 => {
            let used: Vec<(u8, u8)> = p.iter().filter(|x| x.marker == 0xc4 || x.marker == 0xdb).map(|x| (if x.marker == 0xdb { 2 } else { x.body[0] >> 4 }, x.body[0] & 15)).collect();
            let at = if n == 9 { 1 } else { p.iter().position(|x| x.marker == 0xda).unwrap() };
            p.splice(at..at, decoys(&used));
        }
        // segments the decoder has no use for, one before every other segment of the header
        11 => {
            let ms = [0xf0u8, 0x4f, 0xfd, 0xbf, 0xef, 0x02, 0xf7, 0xe3];
            let mut q = vec![];
            let first = p.iter().position(|x| x.marker == 0xda).unwrap();
            for (i, x) in p.into_iter().enumerate() {
                if i > 0 && i <= first {
                    q.push(Part::seg(ms[i & 7], vec![0xff, 0xc4, 0xda, i as u8][..(i % 5).min(4)].to_vec()));
                }
                q.push(x);
            }
            p = q;
        }
        _ => {}
    }
    p
}
/// one segment with a table for each of the eight Huffman and one for each of the four quantisation
/// destinations, those in `skip` left out (class 2: quantisation)
fn decoys(skip: &[(u8, u8)]) -> Vec<Part> {
    let t = Table::flat(&[0, 3, 1, 2]);
    let h: Vec<((u8, u8), Table)> = (0..2).flat_map(|c| (0..4).map(move |d| (c, d))).filter(|x| !skip.contains(x)).map(|x| (x, t.clone())).collect();
    let mut q = vec![];
    for d in (0..4).filter(|d| !skip.contains(&(2, *d))) {
        q.push(d);
        q.extend([77 + d; 64]);
    }
    let mut v = vec![];
    if !h.is_empty() {
        v.push(dht(&h));
    }
    if !q.is_empty() {
        v.push(Part::seg(0xdb, q));
    }
    v
}
