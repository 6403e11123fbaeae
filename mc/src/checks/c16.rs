//! A truncated file never corrupts the part of the image that was received.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C16",
        level: "fault_enumeration",
        rule: "every cut point (every prefix) of model files: gray and the four samplings, every size of a list that crosses block and MCU borders, baseline without restarts and with intervals 1..5, four table families, dense and sparse content; progressive with several scripts and with restarts; output colourspaces, strict and lenient, one and four threads; long headers (sizes around powers of two) cut at every place behind them, and images of up to 2^17 MCUs cut around powers of two, near the end and in between. Cuts in headers and in progressive files must be errors; cuts in baseline data must be errors or keep every pixel that depends only on blocks received completely; a missing end marker alone must change nothing",
        assumptions: &[],
        passes: simd_passes,
        run,
    }
}

/// position of each block in scan order: (component, block x, block y)
pub fn order(img: &Image) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    if img.comps.len() == 1 {
        let c = &img.comps[0];
        for y in 0..c.rh {
            for x in 0..c.rw {
                v.push((0, x, y));
            }
        }
        return v;
    }
    for my in 0..img.mcuy {
        for mx in 0..img.mcux {
            for (ci, c) in img.comps.iter().enumerate() {
                for y in 0..c.v {
                    for x in 0..c.h {
                        v.push((ci, mx * c.h + x, my * c.v + y));
                    }
                }
            }
        }
    }
    v
}

/// for every pixel and component, the index (in scan order) of the last block it depends on
fn depends(img: &Image) -> Vec<Vec<u32>> {
    let ord = order(img);
    let mut idx: Vec<std::collections::HashMap<(usize, usize), u32>> = vec![Default::default(); img.comps.len()];
    for (k, &(ci, x, y)) in ord.iter().enumerate() {
        idx[ci].insert((x, y), k as u32);
    }
    let mut out = vec![];
    for (ci, c) in img.comps.iter().enumerate() {
        let (fh, fv) = (img.hmax / c.h, img.vmax / c.v);
        let (dx, dy) = ((fh > 1) as i64, (fv > 1) as i64);
        let mut m = vec![0u32; img.w * img.h];
        for y in 0..img.h {
            for x in 0..img.w {
                let (sx, sy) = ((x / fh) as i64, (y / fv) as i64);
                let mut l = 0;
                for yy in sy - dy..=sy + dy {
                    for xx in sx - dx..=sx + dx {
                        if xx < 0 || yy < 0 {
                            continue;
                        }
                        if let Some(&k) = idx[ci].get(&(xx as usize / 8, yy as usize / 8)) {
                            l = l.max(k);
                        }
                    }
                }
                m[y * img.w + x] = l;
            }
        }
        out.push(m);
    }
    out
}

/// offsets near powers of two and near the end, and some in between
fn spots(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..25).flat_map(|e| [(1usize << e).saturating_sub(1), 1 << e, (1 << e) + 1]).collect();
    v.extend((0..16).map(|i| n * i / 16));
    v.extend((1..9).map(|i| n.saturating_sub(i)));
    v.sort();
    v.dedup();
    v.retain(|&x| x < n);
    v
}
fn cut_baseline(c: &mut Ctx, img: &Image, parts: &[Part], ends: &[usize], opts: &[Opt]) -> Result<(), String> {
    let d = file(parts);
    let k = parts.iter().position(|p| p.marker == 0xda).unwrap();
    let mut hdr = vec![];
    for p in &parts[..k] {
        p.bytes(&mut hdr);
    }
    let start = hdr.len() + 4 + parts[k].body.len();
    let stop = start + parts[k].data.len();
    assert_eq!(stop + 2, d.len());
    if ends.len() != order(img).len() || *ends.last().unwrap() > parts[k].data.len() {
        eprintln!("block ends do not fit");
        std::process::exit(2);
    }
    let dep = depends(img);
    for o in opts {
        let whole = c.decode(o, &d).want("intact file")?;
        let n = ch(o.cs);
        // which blocks each output byte depends on
        let need: Vec<u32> = match (img.comps.len(), o.cs) {
            (1, _) | (_, Cs::GRAYSCALE) => dep[0].clone(),
            (_, Cs::YCbCr) => (0..img.w * img.h * 3).map(|i| dep[i % 3][i / 3]).collect(),
            _ => (0..img.w * img.h * n).map(|i| (0..3).map(|j| dep[j][i / n]).max().unwrap()).collect(),
        };
        let cuts: Vec<usize> = if start < 4096 { (0..d.len()).collect() } else { spots(start).into_iter().chain(start..d.len()).collect() };
        for cut in cuts {
            let r = c.decode(o, &d[..cut]);
            c.count("cut_points", 1);
            if cut < start {
                if !r.is_err() {
                    return Err(format!("{:?}: cut at {} inside the headers: {}", o, cut, r.brief()));
                }
                let h = c.headers(o, &d[..cut]);
                if h.0.is_ok() || h.1 {
                    return Err(format!("{:?}: header read of a file cut at {} inside the headers: {:?}", o, cut, h.0));
                }
                continue;
            }
            match &r {
                Res::Panic(_) => return Err(format!("{:?}: cut at {}: {}", o, cut, r.brief())),
                Res::Err(_) => {
                    c.count("data_cuts_rejected", 1);
                    if cut == stop {
                        return Err(format!("{:?}: only the end marker is missing: {}", o, r.brief()));
                    }
                }
                Res::Ok(p) => {
                    c.count("data_cuts_accepted", 1);
                    if p.len() != whole.len() {
                        return Err(format!("{:?}: cut at {}: {} bytes instead of {}", o, cut, p.len(), whole.len()));
                    }
                    if cut >= stop && *p != whole {
                        return Err(format!("{:?}: without end marker: {}", o, first_diff(p, &whole, img.w, n)));
                    }
                    let full = ends.iter().take_while(|e| start + **e <= cut).count() as u32;
                    for i in 0..p.len() {
                        if need[i] < full && p[i] != whole[i] {
                            let i = i;
                            return Err(format!(
                                "{:?}: cut at {} of {} ({} of {} blocks received): x={} y={} channel {} is {} instead of {} and depends on block {} only",
                                o,
                                cut,
                                d.len(),
                                full,
                                ends.len(),
                                i / (p.len() / (img.w * img.h)) % img.w,
                                i / (p.len() / (img.w * img.h)) / img.w,
                                i % (p.len() / (img.w * img.h)),
                                p[i],
                                whole[i],
                                need[i]
                            ));
                        }
                        c.evals += 0;
                    }
                }
            }
        }
    }
    Ok(())
}

fn content(mut img: Image, how: usize, seed: u64) -> Image {
    match how {
        0 => filled(img, seed),
        // sparse: DC only, every block its own level
        1 => {
            let mut r = Rng(seed + 1);
            for c in img.comps.iter_mut() {
                for b in c.blocks.iter_mut() {
                    b[0] = r.range(-20, 20) as i16;
                }
            }
            img
        }
        // many stuffed bytes
        _ => {
            for (ci, c) in img.comps.iter_mut().enumerate() {
                for (k, b) in c.blocks.iter_mut().enumerate() {
                    b[0] = if (k + ci) % 2 == 0 { 127 } else { -64 };
                    b[1] = 31;
                    b[9] = 15;
                }
            }
            img
        }
    }
}

fn run(c: &mut Ctx) {
    universe(c);
    if c.pass.cpu == Cpu::Native {
        long(c);
    }
    let native = c.pass.cpu == Cpu::Native;
    let sizes: Vec<(usize, usize)> = if c.quick() || !native {
        vec![(1, 1), (8, 8), (9, 9), (16, 16), (17, 9), (9, 25), (25, 17), (33, 34)]
    } else {
        let mut v = vec![];
        for w in [1usize, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 40, 41, 63, 65] {
            for h in [1usize, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 40, 41, 63, 65] {
                v.push((w, h));
            }
        }
        v
    };
    for &(w, h) in &sizes {
        for kind in 0..5usize {
            for how in 0..3usize {
                for ri in 0..c.pick(4usize, 6) {
                    if !native && (ri > 1 || how == 1) {
                        continue;
                    }
                    c.case(
                        || format!("{} {}x{} content {} restart interval {}: all prefixes", kind_name(kind), w, h, how, ri),
                        |c| {
                            let img = content(make(kind, w, h), how, (w * 100 + h) as u64);
                            let sc = baseline_scan(&img, ri);
                            let tfs: &[TableFn] = if native { &[&t_opt, &t_flat, &t_skew, &t_long] } else { &[&t_opt] };
                            for (ti, tf) in tfs.iter().enumerate() {
                                let items = scan_items(&img, &sc, false);
                                let tables: Tables = freqs(&items).into_iter().map(|((tc, th), f)| ((tc, th), tf(tc, th, &f))).collect();
                                let e = encode(&img, false, &[sc.clone()], tf).parts;
                                let ends = block_ends(&items, &tables);
                                let mut opts = vec![];
                                let css: &[Cs] = if kind == 0 { &[Cs::GRAYSCALE] } else { &[Cs::YCbCr, Cs::RGB, Cs::GRAYSCALE] };
                                for &us in us_axis(c) {
                                    for &cs in css {
                                        if ti > 0 && (cs != css[0] || !us) {
                                            continue;
                                        }
                                        opts.push(DEF.cs(cs).us(us).threads(1));
                                    }
                                }
                                if ti == 0 {
                                    opts.push(DEF.cs(css[0]).strict(true).threads(1));
                                    opts.push(DEF.cs(css[0]).threads(4));
                                }
                                cut_baseline(c, &img, &e, &ends, &opts)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
            if !native {
                continue;
            }
            for script in 0..5usize {
                for ri in 0..3usize {
                    c.case(
                        || format!("{} {}x{} progressive script {} restart interval {}: all prefixes", kind_name(kind), w, h, script, ri),
                        |c| {
                            for how in 0..3 {
                                let img = content(make(kind, w, h), how, (w * 100 + h) as u64);
                                let n = img.comps.len();
                                let mut sc = match script {
                                    0 => simple_script(&img),
                                    1 => full_script(&img),
                                    // ends with DC refinement, whose missing bits would read as zeros
                                    2 => {
                                        let mut v: Vec<Scan> = (0..n).map(|i| Scan::new(&[i], 0, 0, 0, 1)).collect();
                                        v.extend((0..n).map(|i| Scan::new(&[i], 1, 63, 0, 0)));
                                        v.extend((0..n).map(|i| Scan::new(&[i], 0, 0, 1, 0)));
                                        v
                                    }
                                    // DC only
                                    3 => vec![Scan::new(&(0..n).collect::<Vec<_>>(), 0, 0, 0, 0)],
                                    // first passes only
                                    _ => simple_script(&img).into_iter().map(|mut s| { s.al = 1; s }).collect(),
                                };
                                if ri > 0 {
                                    for (i, s) in sc.iter_mut().enumerate() {
                                        s.ri = if ri == 1 { 1 } else { (i + 1) % 3 };
                                    }
                                }
                                let d = file(&encode(&img, true, &sc, &t_opt).parts);
                                let os: Vec<Opt> = if how == 0 { vec![DEF.threads(1), DEF.threads(1).strict(true).cs(Cs::GRAYSCALE), DEF.us(false)] } else { vec![DEF.threads(1)] };
                                for o in os {
                                    c.decode(&o, &d).want("intact file")?;
                                    for cut in 0..d.len() {
                                        let r = c.decode(&o, &d[..cut]);
                                        c.count("cut_points", 1);
                                        if !r.is_err() {
                                            return Err(format!("{:?}: progressive file of {} bytes cut at {}: {}", o, d.len(), cut, r.brief()));
                                        }
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

/// long files: much in the headers, much entropy-coded data
fn long(c: &mut Ctx) {
    for kind in 0..5usize {
        for size in pad_sizes(c.quick()) {
            c.case(
                || format!("{}: {} bytes of other segments in the headers, cuts behind them", kind_name(kind), size),
                |c| {
                    let (w, h) = if size > 1 << 18 { (8, 8) } else { (17, 9) };
                    let img = content(make(kind, w, h), 1, size as u64);
                    let sc = baseline_scan(&img, size / 2 % 2);
                    let items = scan_items(&img, &sc, false);
                    let tables: Tables = freqs(&items).into_iter().map(|((tc, th), f)| ((tc, th), t_opt(tc, th, &f))).collect();
                    let mut e = encode(&img, false, &[sc], &t_opt).parts;
                    e.splice(1..1, padding(size));
                    let o = DEF.cs(if kind == 0 { Cs::GRAYSCALE } else { Cs::YCbCr }).strict(kind % 2 == 0).threads(1);
                    cut_baseline(c, &img, &e, &block_ends(&items, &tables), &[o])?;
                    let mut e = encode(&img, true, &simple_script(&img), &t_opt).parts;
                    e.splice(1..1, padding(size));
                    let d = file(&e);
                    c.decode(&o, &d).want("intact file")?;
                    for cut in spots(size).into_iter().chain((size..d.len()).step_by(1 + (size >> 19))) {
                        let r = c.decode(&o, &d[..cut]);
                        c.count("cut_points", 1);
                        if !r.is_err() {
                            return Err(format!("progressive file of {} bytes cut at {}: {}", d.len(), cut, r.brief()));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for (kind, w, h) in [(0usize, 1024usize, 1024usize), (0, 2048, 4096), (1, 1024, 2048), (2, 2048, 1024), (3, 1024, 2048), (4, 2048, 2048)] {
        for ri in [0usize, 7, 128] {
            c.case(
                || format!("{} {}x{} progressive, restart interval {}: cuts", kind_name(kind), w, h, ri),
                |c| {
                    let d = mosaic(kind, true, w, h, ri);
                    let o = DEF.cs(Cs::GRAYSCALE).threads(1);
                    c.decode(&o, &d).want("intact file")?;
                    for cut in spots(d.len()) {
                        let r = c.decode(&o, &d[..cut]);
                        c.count("cut_points", 1);
                        if !r.is_err() {
                            return Err(format!("{:?}: progressive file of {} bytes cut at {}: {}", o, d.len(), cut, r.brief()));
                        }
                    }
                    Ok(())
                },
            );
            if kind > 0 {
                continue;
            }
            c.case(
                || format!("{} {}x{} baseline, restart interval {}: cuts", kind_name(kind), w, h, ri),
                |c| {
                    let d = mosaic(kind, false, w, h, ri);
                    let o = DEF.cs(Cs::GRAYSCALE).threads(1);
                    let whole = c.decode(&o, &d).want("intact file")?;
                    let sos = d.windows(2).position(|x| x == [0xff, 0xda]).unwrap();
                    let start = sos + 2 + d[sos + 3] as usize;
                    // a block takes between 2 and 8 bits: these many are complete at least
                    for cut in spots(d.len()) {
                        let r = c.decode(&o, &d[..cut]);
                        c.count("cut_points", 1);
                        match r {
                            Res::Panic(_) => return Err(format!("cut at {}: {}", cut, r.brief())),
                            Res::Err(_) => {
                                if cut + 2 == d.len() {
                                    return Err(format!("only the end marker is missing: {}", r.brief()));
                                }
                            }
                            Res::Ok(p) => {
                                if cut <= start || p.len() != whole.len() {
                                    return Err(format!("cut at {} of {} gives {} bytes", cut, d.len(), p.len()));
                                }
                                let full = if cut + 2 >= d.len() { w * h / 64 } else { mosaic_blocks(&d[start..cut], ri) };
                                c.max("max_blocks_before_a_cut", full as u64);
                                for k in 0..full {
                                    let (x, y) = (k % (w / 8) * 8, k / (w / 8) * 8);
                                    for y in y..y + 8 {
                                        let at = y * w + x;
                                        if p[at..at + 8] != whole[at..at + 8] {
                                            return Err(format!("cut at {} of {}: block {} of {} received is damaged", cut, d.len(), k, full));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    let quick = c.quick();
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let m = u.mix() + form + tabs * 3 + ri * 5;
            let o = DEF.cs(if form == 0 { [Cs::YCbCr, Cs::RGB, Cs::RGBA][m % 3] } else { CSS[m % 5] }).us(m % 2 == 0).strict(m % 3 == 0).threads([4, 1, 3][m % 3]);
            let d = file(&e.parts);
            if form == 0 {
                if m % if quick { 16 } else { 2 } == 0 && d.len() < 3000 {
                    let sc = uni::scans(img, 0, tabs, ri);
                    let items = scan_items(img, &sc[0], false);
                    let tables: Tables = freqs(&items).into_iter().map(|((tc, th), f)| ((tc, th), uni::tab(tabs)(tc, th, &f))).collect();
                    let o = if img.comps.len() == 1 { o.cs(Cs::GRAYSCALE) } else { o };
                    cut_baseline(c, img, &e.parts, &block_ends(&items, &tables), &[o])?;
                }
            } else {
                // the beginning, the end, and places in between
                let n = d.len();
                for cut in (0..12).map(|i| n * (i * 8 + m % 8) / 96).chain(n - 7..n - 1) {
                    let r = c.decode(&o, &d[..cut]);
                    c.count("cut_points", 1);
                    if !r.is_err() {
                        return Err(format!("{:?}: cut at {} of {}: {}", o, cut, n, r.brief()));
                    }
                }
            }
            Ok(())
        })
    });
}
