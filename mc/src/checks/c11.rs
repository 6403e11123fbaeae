//! A decoder can be reused.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "model_checking",
        rule: "states: histories (sequences of header reads, buffer decodes and option changes on one decoder), every history up to the depth over the whole operation alphabet; transitions: operations executed; after each operation the result (bytes or error), the reported width, height, info and output colourspace must be those of a fresh decoder with the same options",
        assumptions: &["error messages are deterministic"],
        passes: native_pass,
        run,
    }
}

fn without(parts: &[Part], marker: u8) -> Vec<u8> {
    file(&parts.iter().filter(|p| p.marker != marker).cloned().collect::<Vec<_>>())
}

/// the files of the alphabet; each is sensitive to some piece of decoder state
pub fn files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |n: &str, d: Vec<u8>| v.push((n.to_string(), d));
    let g = filled(Image::gray(9, 10), 1);
    let c1 = filled(Image::color(10, 9, (1, 1)), 2);
    let c2 = filled(Image::color(17, 9, (2, 1)), 3);
    let c3 = filled(Image::color(9, 18, (1, 2)), 4);
    let c4 = filled(Image::color(18, 17, (2, 2)), 5);
    let eg = encode(&g, false, &[baseline_scan(&g, 0)], &t_opt).parts;
    let e1 = encode(&c1, false, &[baseline_scan(&c1, 0)], &t_opt).parts;
    let e4 = encode(&c4, false, &[baseline_scan(&c4, 0)], &t_opt).parts;
    let p1 = encode(&c1, true, &simple_script(&c1), &t_opt).parts;
    let pg = encode(&g, true, &full_script(&g), &t_opt).parts;
    add("gray", file(&eg));
    add("gray with restarts", baseline_ri(&g, 1));
    add("1x1", file(&e1));
    add("2x2 with restarts", baseline_ri(&c4, 1));
    add("2x1", baseline(&c2));
    add("progressive 1x2", progressive(&c3, &full_script(&c3)));
    add("progressive gray", file(&pg));
    // they must not find the tables of an earlier image
    add("1x1 without DHT", without(&e1, 0xc4));
    add("gray without DQT", without(&eg, 0xdb));
    add("progressive 1x1 without DHT", without(&p1, 0xc4));
    add("2x2 without SOF", without(&e4, 0xc0));
    add("gray without SOS", without(&eg, 0xda));
    // fails in its data, after everything was set up
    let mut t = file(&e4);
    let n = t.len();
    t.truncate(n * 3 / 4);
    add("2x2 cut in its data", t);
    let mut t = progressive(&c3, &simple_script(&c3));
    let n = t.len();
    t.truncate(n - 12);
    add("progressive 1x2 cut in its last scan", t);
    let mut t = file(&eg);
    t.truncate(7);
    add("cut after seven bytes", t);
    add("empty", vec![]);
    // defines everything, fails in the scan header
    let mut b = e4.clone();
    for p in b.iter_mut() {
        if p.marker == 0xda {
            p.body[1] = 9;
        }
    }
    b.insert(1, dri(3));
    add("2x2 with a wrong scan component", file(&b));
    // defines a restart interval and tables, then an unsupported frame
    let mut b = p1.clone();
    b.insert(1, dri(1));
    for p in b.iter_mut() {
        if p.marker == 0xc2 {
            p.marker = 0xc9;
        }
    }
    add("arithmetic frame", file(&b));
    // the scan names the components in another order
    let mut sc = baseline_scan(&c1, 0);
    sc.comps.reverse();
    add("1x1 in scan order 3 2 1", file(&encode(&c1, false, &[sc], &t_opt).parts));
    // same geometry as another file, other tables
    let c5 = filled(Image::color(10, 9, (1, 1)).quant(0, qpos(3)).quant(1, qpos(4)), 9);
    add("1x1 with other tables", file(&encode(&c5, false, &[baseline_scan(&c5, 0)], &t_skew).parts));
    // only lenient mode accepts these
    let g3 = filled(Image::gray(24, 24), 6);
    let mut e = encode(&g3, false, &[baseline_scan(&g3, 0)], &t_opt).parts;
    for p in e.iter_mut() {
        if p.marker == 0xc0 {
            p.body[7] = 0x22;
        }
    }
    add("gray declared 2x2", file(&e));
    let mut d = file(&e1);
    d.splice(2..2, [1, 2, 3, 4]);
    add("1x1 with stray bytes", d);
    v
}

/// files that define or need one piece of state each
fn wide() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..4u8 {
        for prog in [false, true] {
            for kind in [0usize, 1] {
                let mut img = filled(make(kind, 10, 9), 11 + i as u64);
                img.qt = Default::default();
                img.qt[i as usize] = Some(qpos(i));
                img.comps.iter_mut().for_each(|x| x.tq = i);
                let mut sc = if prog { simple_script(&img) } else { vec![baseline_scan(&img, 0)] };
                for s in sc.iter_mut() {
                    for x in s.comps.iter_mut() {
                        x.td = i;
                        x.ta = i;
                    }
                }
                let e = encode(&img, prog, &sc, &t_by_class).parts;
                let n = format!("{} progressive {} destinations {}", kind_name(kind), prog, i);
                let drop_class = |tc: u8| -> Vec<u8> {
                    let mut e = e.clone();
                    for p in e.iter_mut().filter(|p| p.marker == 0xc4) {
                        let (mut b, mut o) = (&p.body[..], vec![]);
                        while !b.is_empty() {
                            let n = 17 + b[1..17].iter().map(|&x| x as usize).sum::<usize>();
                            if b[0] >> 4 != tc {
                                o.extend_from_slice(&b[..n]);
                            }
                            b = &b[n..];
                        }
                        p.body = o;
                    }
                    e.retain(|p| p.marker != 0xc4 || !p.body.is_empty());
                    file(&e)
                };
                v.push((n.clone(), file(&e)));
                v.push((format!("{} without quantisation table", n), without(&e, 0xdb)));
                v.push((format!("{} without DC table", n), drop_class(0)));
                v.push((format!("{} without AC table", n), drop_class(1)));
            }
        }
    }
    let g = filled(Image::gray(9, 10), 1);
    for n in [1usize, 2, 3, 7, 8, 100, 200, 255, 256, 257, 300, 1000, 4096, 32767, 32768, 65535] {
        v.push((format!("restart interval {}", n), baseline_ri(&g, n)));
        let mut e = encode(&g, false, &[baseline_scan(&g, 0)], &t_opt).parts;
        e.insert(1, dri(n));
        e.truncate(4);
        v.push((format!("restart interval {}, nothing after the tables", n), file(&e)));
    }
    // many MCUs, no restart interval
    v.push(("gray 272 MCUs".into(), baseline(&filled(Image::gray(136, 128), 3))));
    let c4 = filled(Image::color(160, 130, (2, 2)), 4);
    v.push(("2x2 90 MCUs".into(), baseline(&c4)));
    v.push(("progressive 2x2 90 MCUs".into(), progressive(&c4, &simple_script(&c4))));
    v.push(("gray 4290 MCUs".into(), constant(0, false, 520, 528)));
    v.push(("progressive gray 4290 MCUs".into(), constant(0, true, 520, 528)));
    v.push(("gray 66049 MCUs".into(), constant(0, false, 2056, 2056)));
    // frame headers of every sort, complete files and bad ones
    for (n, samp) in [("2x1", (2usize, 1usize)), ("1x2", (1, 2)), ("2x2", (2, 2))] {
        let i = filled(Image::color(19, 21, samp), 6);
        v.push((n.to_string(), baseline(&i)));
        v.push((format!("progressive {}", n), progressive(&i, &full_script(&i))));
    }
    let c1 = filled(Image::color(10, 9, (1, 1)), 2);
    let e1 = encode(&c1, false, &[baseline_scan(&c1, 0)], &t_opt).parts;
    for (n, k, x) in [("twelve bits", 0usize, 12u8), ("height 0", 2, 0), ("four components", 5, 4), ("two components", 5, 2), ("sampling 3x1", 7, 0x31), ("sampling 2x1 of Cb", 10, 0x21), ("quantisation destination 7", 8, 7)] {
        let mut e = e1.clone();
        for p in e.iter_mut().filter(|p| p.marker == 0xc0) {
            p.body[k] = x;
            if k == 5 {
                p.body.resize(6 + 3 * x as usize, 0x11);
            }
        }
        v.push((n.to_string(), file(&e)));
    }
    for (n, a) in [("density 1", &b"JFIF\0\x01\x02\x01\0\x48\0\x49\0\0"[..]), ("density 2", b"JFIF\0\x01\x01\x02\x01\x02\x03\x04\0\0"), ("density 0", b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0"), ("short JFIF", b"JFIF")] {
        let mut e = e1.clone();
        e.insert(1, Part::seg(0xe0, a.to_vec()));
        v.push((n.to_string(), file(&e)));
    }
    v
}
fn t_by_class(_tc: u8, th: u8, f: &[u32; 256]) -> Table {
    match th {
        0 => t_opt(0, 0, f),
        1 => t_flat(0, 0, f),
        2 => t_skew(0, 0, f),
        _ => t_long(0, 0, f),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Headers(usize),
    Decode(usize),
    Rgba,
    Cs(Cs),
    Limits(u16, u16),
    Threads(usize),
}

/// what one call reports
#[derive(PartialEq, Clone)]
pub struct Seen {
    res: Result<Option<Vec<u8>>, String>,
    meta: Meta,
    dens: Option<(u8, u16, u16)>,
}
impl Seen {
    fn brief(&self) -> String {
        let r = match &self.res {
            Ok(Some(v)) => Res::Ok(v.clone()).brief(),
            Ok(None) => "ok".into(),
            Err(e) => format!("error({})", e),
        };
        format!("{} reporting {:?} {:?}", r, self.meta, self.dens)
    }
}
#[allow(deprecated)]
pub fn apply(d: &mut zj::Decoder, op: Op, files: &[(String, Vec<u8>)]) -> Result<Seen, String> {
    let res = guard(|| match op {
        Op::Headers(i) => d.read_headers(&files[i].1).map(|_| None).map_err(|e| format!("{:?}", e)),
        Op::Decode(i) => d.decode_buffer(&files[i].1).map(Some).map_err(|e| format!("{:?}", e)),
        Op::Rgba => {
            d.rgba();
            Ok(None)
        }
        Op::Cs(c) => {
            d.set_output_colorspace(c);
            Ok(None)
        }
        Op::Limits(w, h) => {
            d.set_limits(w, h);
            Ok(None)
        }
        Op::Threads(n) => d.set_num_threads(n).map(|_| None).map_err(|e| format!("{:?}", e)),
    })
    .map_err(|p| format!("{:?} panics: {}", op, p))?;
    Ok(Seen { res, meta: Meta::of(d), dens: d.info().map(|i| (i.pixel_density, i.x_density, i.y_density)) })
}
/// the option record after `op`
pub fn model(o: Opt, op: Op) -> Opt {
    match op {
        Op::Rgba => o.cs(Cs::RGBA),
        Op::Cs(c) => o.cs(c),
        Op::Limits(w, h) => o.max(w, h),
        Op::Threads(n) if n > 0 && n <= u32::MAX as usize => o.threads(n as u32),
        _ => o,
    }
}

fn run(c: &mut Ctx) {
    universe(c);
    let fs = files();
    let mut ops: Vec<Op> = vec![];
    for i in 0..fs.len() {
        ops.push(Op::Decode(i));
        ops.push(Op::Headers(i));
    }
    let sets = [Op::Rgba, Op::Cs(Cs::GRAYSCALE), Op::Cs(Cs::YCbCr), Op::Limits(17, 17), Op::Limits(100, 100), Op::Cs(Cs::CMYK), Op::Threads(1)];
    ops.extend(sets);
    let n = ops.len();
    let bases = [DEF, DEF.cs(Cs::YCbCr), DEF.cs(Cs::RGBX).us(false), DEF.cs(Cs::GRAYSCALE).strict(true), DEF.max(17, 40).scans(4), DEF.cs(Cs::YCCK)];
    // expected results, by options and operation
    let mut memo: std::collections::HashMap<(String, usize), Seen> = Default::default();
    for (bi, base) in bases.iter().enumerate() {
        // every history of this depth; shorter ones are its prefixes
        let depth: u32 = if c.quick() {
            3
        } else if bi == 0 { 4 } else { 3 };
        // one case per first two operations
        for a in 0..n {
            for b in 0..n {
                c.case(
                    || format!("options {:?}: histories of depth {} starting {}, {}", base, depth, show(ops[a], &fs), show(ops[b], &fs)),
                    |c| {
                        let rest = n.pow(depth - 2);
                        for r in 0..rest {
                            let mut h = vec![a, b];
                            let mut x = r;
                            for _ in 2..depth {
                                h.push(x % n);
                                x /= n;
                            }
                            let mut d = zj::Decoder::new_with_options(base.zj());
                            let mut o = *base;
                            for (k, &i) in h.iter().enumerate() {
                                let op = ops[i];
                                o = model(o, op);
                                if let Op::Headers(i) | Op::Decode(i) = op {
                                    c.note_input(&fs[i].1);
                                }
                                let got = apply(&mut d, op, &fs).map_err(|e| format!("{} in history {}", e, hist(&h[..=k], &ops, &fs)))?;
                                c.evals += 1;
                                c.count("transitions", 1);
                                if !matches!(op, Op::Headers(_) | Op::Decode(_)) {
                                    continue;
                                }
                                let key = (format!("{:?}", o), i);
                                if !memo.contains_key(&key) {
                                    let mut f = zj::Decoder::new_with_options(o.zj());
                                    let s = apply(&mut f, op, &fs)?;
                                    memo.insert(key.clone(), s);
                                }
                                let want = &memo[&key];
                                c.count("validated", 1);
                                if got != *want {
                                    return Err(format!(
                                        "after the history {}: {}, a fresh decoder: {}",
                                        hist(&h[..=k], &ops, &fs),
                                        got.brief(),
                                        want.brief()
                                    ));
                                }
                            }
                            c.count("states", 1);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // the reported colourspace follows an option change at once, and option changes do not touch
    // what was read
    for i in 0..fs.len() {
        for &s in &sets {
            c.case(
                || format!("{} then {:?}", fs[i].0, s),
                |c| {
                    for op in [Op::Headers(i), Op::Decode(i)] {
                        let mut d = zj::Decoder::new_with_options(DEF.zj());
                        let a = apply(&mut d, op, &fs)?;
                        let b = apply(&mut d, s, &fs)?;
                        let (mut x, mut y) = (a.meta.clone(), b.meta.clone());
                        x.cs.clear();
                        y.cs.clear();
                        x.ch = 0;
                        y.ch = 0;
                        c.count("states", 1);
                        if x != y || a.dens != b.dens {
                            return Err(format!("{:?} changes the reported metadata from {:?} to {:?}", s, a.meta, b.meta));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // many repetitions of the same call, then each other one
    for i in 0..fs.len() {
        c.case(
            || format!("{} many times, then every file", fs[i].0),
            |c| {
                let mut d = zj::Decoder::new_with_options(DEF.zj());
                for _ in 0..c.pick(300, 70_000) {
                    let _ = apply(&mut d, Op::Decode(i), &fs)?;
                    c.count("transitions", 1);
                    c.beat_now();
                }
                for j in 0..fs.len() {
                    let got = apply(&mut d, Op::Decode(j), &fs)?;
                    let mut f = zj::Decoder::new_with_options(DEF.zj());
                    let want = apply(&mut f, Op::Decode(j), &fs)?;
                    c.count("states", 1);
                    if got != want {
                        return Err(format!("{} then {}: {} instead of {}", fs[i].0, fs[j].0, got.brief(), want.brief()));
                    }
                }
                Ok(())
            },
        );
    }
    // a wide alphabet at a smaller depth: every destination defined, left out, restart intervals
    let ws = wide();
    let wn = ws.len();
    for (bi, base) in [DEF, DEF.cs(Cs::YCbCr).us(false).strict(true)].iter().enumerate() {
        let mut memo: Vec<Option<[Seen; 2]>> = (0..wn).map(|_| None).collect();
        for a in 0..wn {
            if c.quick() && bi == 1 && a % 3 != 0 {
                continue;
            }
            c.case(
                || format!("options {:?}: {}, then every other file", base, ws[a].0),
                |c| {
                    let deep = !c.quick() && bi == 0;
                    for b in 0..wn {
                        for first in [Op::Decode(a), Op::Headers(a)] {
                            // a third operation only in a thorough run
                            for x in if deep { 0..wn } else { 0..1 } {
                                let mut d = zj::Decoder::new_with_options(base.zj());
                                let mut h = vec![first, Op::Decode(b)];
                                if deep {
                                    h.push(Op::Decode(x));
                                }
                                for (k, &op) in h.iter().enumerate() {
                                    let i = match op {
                                        Op::Decode(i) | Op::Headers(i) => i,
                                        _ => unreachable!(),
                                    };
                                    c.note_input(&ws[i].1);
                                    let got = apply(&mut d, op, &ws)?;
                                    c.evals += 1;
                                    c.count("transitions", 1);
                                    if memo[i].is_none() {
                                        let mut fresh = |op| apply(&mut zj::Decoder::new_with_options(base.zj()), op, &ws);
                                        memo[i] = Some([fresh(Op::Decode(i))?, fresh(Op::Headers(i))?]);
                                    }
                                    let want = &memo[i].as_ref().unwrap()[matches!(op, Op::Headers(_)) as usize];
                                    c.count("validated", 1);
                                    if got != *want {
                                        let l: Vec<String> = h[..=k].iter().map(|&o| show(o, &ws)).collect();
                                        return Err(format!("after the history {}: {}, a fresh decoder: {}", l.join("; "), got.brief(), want.brief()));
                                    }
                                }
                                c.count("states", 1);
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // non-vacuity
    c.case(|| "the alphabet has successes and failures".into(), |c| {
        let mut ok = 0;
        for f in &fs {
            let r = c.decode(&DEF, &f.1);
            ok += r.ok().is_some() as u64;
        }
        c.max("files_that_decode", ok);
        c.max("files", fs.len() as u64);
        Ok(())
    });
}
fn show(o: Op, fs: &[(String, Vec<u8>)]) -> String {
    match o {
        Op::Headers(i) => format!("headers({})", fs[i].0),
        Op::Decode(i) => format!("decode({})", fs[i].0),
        o => format!("{:?}", o),
    }
}
fn hist(h: &[usize], ops: &[Op], fs: &[(String, Vec<u8>)]) -> String {
    h.iter().map(|&i| show(ops[i], fs)).collect::<Vec<_>>().join("; ")
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    let us = uni::all(true);
    for tabs in 0..uni::TABS {
        for ri in 0..uni::RIS {
            for content in 0..uni::CONTENTS {
                for stride in [1usize, 7] {
                    c.case(
                        || format!("universe: one decoder for all images with content {} tables {} interval {}, stride {}", content, tabs, ri, stride),
                        |c| {
                            let sel: Vec<&uni::U> = us.iter().filter(|u| u.content == content).collect();
                            let n = sel.len() * uni::FORMS;
                            let mut d = zj::Decoder::new_with_options(DEF.zj());
                            let mut o = DEF;
                            let mut last = String::new();
                            for i in 0..n {
                                let j = i * stride % n;
                                let (u, form) = (sel[j / uni::FORMS], j % uni::FORMS);
                                let f = vec![(format!("{} form {}", u.name(), form), file(&uni::parts(&uni::image(u), form, tabs, ri).parts))];
                                let mut ops = vec![];
                                if i % 3 == 1 {
                                    ops.push(Op::Cs(CSS[i / 3 % 5]));
                                }
                                if i % 7 == 2 {
                                    ops.push(Op::Headers(0));
                                }
                                ops.push(Op::Decode(0));
                                for op in ops {
                                    o = model(o, op);
                                    c.note_input(&f[0].1);
                                    c.evals += 1;
                                    let got = apply(&mut d, op, &f)?;
                                    c.count("transitions", 1);
                                    if matches!(op, Op::Cs(_)) {
                                        continue;
                                    }
                                    let want = apply(&mut zj::Decoder::new_with_options(o.zj()), op, &f)?;
                                    c.count("states", 1);
                                    c.count("validated", 1);
                                    if got != want || want.res.is_err() {
                                        return Err(format!("{}, after {}: {}, a fresh decoder: {}", show(op, &f), last, got.brief(), want.brief()));
                                    }
                                }
                                last = f[0].0.clone();
                                c.beat_now();
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
