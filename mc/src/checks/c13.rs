//! Strict mode only ever turns odd inputs into errors.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C13",
        level: "model_checking",
        rule: "states: (file, mode) pairs; every gap between header segments x number and value of stray bytes; every sampling declaration of single-component files; every single-byte substitution and truncation of small files; sizes x processes x samplings of well-formed files; transitions: decodes; strict must fail or equal lenient, equal on well-formed files, fail on the listed oddities; lenient must ignore them",
        assumptions: &[],
        passes: native_pass,
        run,
    }
}

/// (process, kind) files whose parts are enumerated
fn bases(thorough: bool) -> Vec<(String, Image, Vec<Part>)> {
    let mut v = vec![];
    for kind in 0..5usize {
        let img = filled(make(kind, 9, 10), 3);
        let mut p = encode(&img, false, &[baseline_scan(&img, 1)], &t_opt).parts;
        // several segments of each sort
        p.insert(1, Part::seg(0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0".to_vec()));
        p.insert(2, Part::seg(0xfe, b"comment".to_vec()));
        v.push((format!("{} baseline", kind_name(kind)), img.clone(), p));
        let p = encode(&img, true, &simple_script(&img), &t_opt).parts;
        v.push((format!("{} progressive", kind_name(kind)), img.clone(), p));
        if thorough {
            let p = encode(&img, true, &full_script(&img), &t_skew).parts;
            v.push((format!("{} progressive, refinement", kind_name(kind)), img, p));
        }
    }
    v
}

/// strict fails or equals lenient
fn relation(c: &mut Ctx, o: &Opt, data: &[u8]) -> Result<(Res, Res), String> {
    let l = c.decode(&o.strict(false), data);
    let s = c.decode(&o.strict(true), data);
    c.count("states", 1);
    c.count("transitions", 2);
    c.count("validated", 1);
    if let Res::Ok(sv) = &s {
        match &l {
            Res::Ok(lv) if lv == sv => {}
            _ => return Err(format!("strict mode gives {}, lenient mode {}", s.brief(), l.brief())),
        }
    }
    if matches!(s, Res::Panic(_)) || matches!(l, Res::Panic(_)) {
        return Err(format!("strict: {}, lenient: {}", s.brief(), l.brief()));
    }
    Ok((l, s))
}

fn run(c: &mut Ctx) {
    universe(c);
    let bs = bases(!c.quick());
    // stray bytes
    let vals: Vec<u8> = if c.quick() {
        vec![0x00, 0x01, 0x42, 0x80, 0xc0, 0xc4, 0xd0, 0xd8, 0xd9, 0xda, 0xdb, 0xe0, 0xfe]
    } else {
        (0..255).collect()
    };
    for (name, _, parts) in &bs {
        let first = parts.iter().position(|p| p.marker == 0xda).unwrap();
        for gap in 1..=first {
            for n in 1..=c.pick(6usize, 12) {
                c.case(
                    || format!("{}: {} stray bytes before segment {} ({:02x})", name, n, gap, parts[gap].marker),
                    |c| {
                        let clean = file(parts);
                        let want = c.decode(&DEF, &clean);
                        for (i, &v) in vals.iter().enumerate() {
                            for mixed in [false, true] {
                                let mut p = parts.clone();
                                p[gap].lead = (0..n).map(|k| if mixed { vals[(i + k) % vals.len()] } else { v }).collect();
                                let d = file(&p);
                                let (l, s) = relation(c, &DEF, &d)?;
                                if !l.same(&want) {
                                    return Err(format!("lenient mode with stray bytes {:02x?} before segment {}: {} instead of {}", p[gap].lead, gap, l.brief(), want.brief()));
                                }
                                if n >= 3 && !s.is_err() {
                                    return Err(format!("strict mode accepts {} stray bytes {:02x?} before segment {}", n, p[gap].lead, gap));
                                }
                                let h = c.headers(&DEF.strict(true), &d).0;
                                if n >= 3 && h.is_ok() {
                                    return Err(format!("strict header read accepts {} stray bytes {:02x?} before segment {}", n, p[gap].lead, gap));
                                }
                                if c.headers(&DEF, &d).0.is_err() {
                                    return Err(format!("lenient header read fails with stray bytes {:02x?} before segment {}", p[gap].lead, gap));
                                }
                                // in several gaps at once; also followed by fill bytes
                                if i == 0 && mixed {
                                    let mut q = p.clone();
                                    for g in 1..=first {
                                        q[g].lead = p[gap].lead.clone();
                                    }
                                    let (l, s) = relation(c, &DEF, &file(&q))?;
                                    if !l.same(&want) || (n >= 3 && !s.is_err()) {
                                        return Err(format!("{} stray bytes in every gap: lenient {} strict {}", n, l.brief(), s.brief()));
                                    }
                                    let mut q = p.clone();
                                    q[gap].lead.extend([0xff; 3]);
                                    let (l, s) = relation(c, &DEF, &file(&q))?;
                                    if !l.same(&want) || (n >= 3 && !s.is_err()) {
                                        return Err(format!("{} stray bytes and fill bytes: lenient {} strict {}", n, l.brief(), s.brief()));
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        // long runs
        c.case(
            || format!("{}: long runs of stray bytes", name),
            |c| {
                let want = c.decode(&DEF, &file(parts));
                for gap in 1..=first {
                    for n in [100usize, 255, 256, 257, 1000, 65535, 65536, 65537, 70000] {
                        let mut p = parts.clone();
                        p[gap].lead = vec![0x11; n];
                        let (l, s) = relation(c, &DEF, &file(&p))?;
                        if !l.same(&want) || !s.is_err() {
                            return Err(format!("{} stray bytes before segment {}: lenient {} strict {}", n, gap, l.brief(), s.brief()));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // sampling factors of single-component images
    let m = c.pick(26usize, 66);
    for prog in [0, 1, 2] {
        for w in 1..=m {
            c.case(
                || format!("gray width {} heights to {} process {}: every sampling declaration", w, m, prog),
                |c| {
                    for h in 1..=m {
                        if c.quick() && (w + 3 * h) % 4 != 0 && w > 10 {
                            continue;
                        }
                        let img = filled(Image::gray(w, h), (w * h) as u64);
                        let parts = match prog {
                            0 => encode(&img, false, &[baseline_scan(&img, (h % 3) * 2)], &t_opt).parts,
                            1 => encode(&img, true, &simple_script(&img), &t_opt).parts,
                            _ => encode(&img, true, &full_script(&img), &t_opt).parts,
                        };
                        let want = c.decode(&DEF, &file(&parts));
                        if want.ok().is_none() {
                            return Err(format!("{}x{}: {}", w, h, want.brief()));
                        }
                        for f in [0x11u8, 0x12, 0x21, 0x22, 0x14, 0x41, 0x24, 0x42, 0x44] {
                            let mut p = parts.clone();
                            for x in p.iter_mut() {
                                if x.marker == 0xc0 || x.marker == 0xc2 {
                                    x.body[7] = f;
                                }
                            }
                            for us in [true, false] {
                                let (l, s) = relation(c, &DEF.us(us), &file(&p))?;
                                let four = f >> 4 == 4 || f & 15 == 4;
                                if !l.same(&want) && !(four && l.is_err()) {
                                    return Err(format!("{}x{} declared {:02x}, lenient: {} instead of {}", w, h, f, l.brief(), want.brief()));
                                }
                                if f == 0x11 && !s.same(&want) {
                                    return Err(format!("{}x{} declared 11, strict: {} instead of {}", w, h, s.brief(), want.brief()));
                                }
                                if f != 0x11 && !s.is_err() {
                                    return Err(format!("{}x{} declared {:02x}, strict: {}", w, h, f, s.brief()));
                                }
                            }
                            if f >> 4 != 4 && f & 15 != 4 {
                                let lm = c.headers(&DEF, &file(&p)).0;
                                if let Err(e) = lm {
                                    return Err(format!("{}x{} declared {:02x}: lenient header read fails: {}", w, h, f, e));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // well-formed files decode identically
    let m = c.pick(34usize, 50);
    for kind in 0..5 {
        for w in 1..=m {
            c.case(
                || format!("{} width {}: well-formed files in both modes", kind_name(kind), w),
                |c| {
                    for h in 1..=m {
                        if c.quick() && (w + h) % 3 != 0 {
                            continue;
                        }
                        let img = filled(make(kind, w, h), 7);
                        let n = img.mcus();
                        let files = [baseline(&img), baseline_ri(&img, 1 + h % n.max(1)), progressive(&img, &simple_script(&img)), progressive(&img, &full_script(&img))];
                        for (i, d) in files.iter().enumerate() {
                            let o = DEF.cs(CSS[(w + h + i) % 5]).us(h % 2 == 0);
                            let (l, s) = relation(c, &o, d)?;
                            if l.ok().is_none() || !l.same(&s) {
                                return Err(format!("{}x{} file {}: lenient {} strict {}", w, h, i, l.brief(), s.brief()));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // restart intervals, table families, destinations, long headers
    for kind in 0..5usize {
        for ri in (1..=c.pick(24usize, 70)).chain([100, 255, 256, 1000, 65535]) {
            c.case(
                || format!("{}: restart interval {} in both modes", kind_name(kind), ri),
                |c| {
                    for (w, h) in [(17usize, 200usize), (130, 111), (250, 20)] {
                        let img = filled(make(kind, w, h), ri as u64);
                        let tf: [TableFn; 5] = [&t_opt, &t_std, &t_skew, &t_flat, &t_long];
                        let sc = |mut v: Vec<Scan>, d: u8| {
                            for s in v.iter_mut() {
                                s.ri = ri;
                                for x in s.comps.iter_mut() {
                                    x.td = (d + x.ci as u8) & 3;
                                    x.ta = (d >> 2).wrapping_add(x.ci as u8) & 3;
                                }
                            }
                            v
                        };
                        let files = [
                            encode(&img, false, &sc(vec![baseline_scan(&img, ri)], ri as u8 & 15), tf[ri % 5]).parts,
                            encode(&img, true, &sc(simple_script(&img), ri as u8 & 15), tf[[0, 2, 3, 4][ri % 4]]).parts,
                            encode(&img, true, &sc(full_script(&img), 0), tf[[0, 2, 3, 4][ri / 4 % 4]]).parts,
                        ];
                        for (i, f) in files.iter().enumerate() {
                            let first = f.iter().position(|p| p.marker == 0xda).unwrap();
                            for long in [false, true] {
                                let mut p = f.clone();
                                if long {
                                    p.splice(first..first, padding(if ri % 8 == 0 { 70_000 } else { 300 }));
                                }
                                let o = DEF.cs(CSS[(ri + i) % 5]).us(ri % 2 == 0);
                                let (l, s) = relation(c, &o, &file(&p))?;
                                if l.ok().is_none() || !l.same(&s) {
                                    return Err(format!("{}x{} file {} long headers {}: lenient {} strict {}", w, h, i, long, l.brief(), s.brief()));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // legal oddities that strict mode must not object to
    for (name, _, parts) in &bs {
        let first = parts.iter().position(|p| p.marker == 0xda).unwrap();
        c.case(
            || format!("{}: legal layouts in both modes", name),
            |c| {
                let want = c.decode(&DEF, &file(parts));
                let ok = |c: &mut Ctx, p: &[Part], what: String| -> Result<(), String> {
                    let (l, s) = relation(c, &DEF, &file(p))?;
                    if !l.same(&want) || !s.same(&want) || want.ok().is_none() {
                        return Err(format!("{}: lenient {} strict {} instead of {}", what, l.brief(), s.brief(), want.brief()));
                    }
                    Ok(())
                };
                for gap in 1..=first {
                    for n in 1..=40usize {
                        let mut p = parts.clone();
                        p[gap].lead = vec![0xff; n];
                        ok(c, &p, format!("{} fill bytes before segment {}", n, gap))?;
                    }
                    for mk in (0x02..=0xbfu8).chain(0xe0..=0xfe) {
                        for n in [0usize, 1, 5, 300] {
                            let mut p = parts.clone();
                            p.insert(gap, Part::seg(mk, vec![mk; n]));
                            ok(c, &p, format!("segment {:02x} of {} bytes before segment {}", mk, n, gap))?;
                        }
                    }
                }
                for n in 1..20usize {
                    let mut d = file(parts);
                    d.extend(vec![n as u8 * 13; n]);
                    let (l, s) = relation(c, &DEF, &d)?;
                    if !l.same(&want) || !s.same(&want) {
                        return Err(format!("{} trailing bytes: lenient {} strict {}", n, l.brief(), s.brief()));
                    }
                }
                Ok(())
            },
        );
    }
    // every single-byte substitution, truncation and deletion
    for (name, _, parts) in &bs {
        let d0 = file(parts);
        for at in 0..d0.len() {
            c.case(
                || format!("{}: byte {} substituted, deleted, doubled, cut", name, at),
                |c| {
                    let all = !c.quick();
                    for v in 0..=255u8 {
                        if !all && !(v.count_ones() <= 1 || v >= 0xc0 || v % 16 == 5 || (v ^ d0[at]).count_ones() == 1) {
                            continue;
                        }
                        let mut d = d0.clone();
                        d[at] = v;
                        relation(c, &DEF, &d).map_err(|e| format!("byte {} = {:02x}: {}", at, v, e))?;
                    }
                    let mut d = d0.clone();
                    d.remove(at);
                    relation(c, &DEF, &d).map_err(|e| format!("byte {} removed: {}", at, e))?;
                    let mut d = d0.clone();
                    d.insert(at, d0[at]);
                    relation(c, &DEF, &d).map_err(|e| format!("byte {} doubled: {}", at, e))?;
                    relation(c, &DEF, &d0[..at]).map_err(|e| format!("cut at {}: {}", at, e))?;
                    Ok(())
                },
            );
        }
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let m = u.mix() + form + tabs * 3 + ri * 5;
            let o = DEF.cs(CSS[m % 5]).us(m % 2 == 0).threads([4, 1, 3][m % 3]);
            let mut p = e.parts.clone();
            if m % 2 == 0 {
                p = uni::layout(&p, m / 2 % uni::LAYOUTS);
            }
            let (l, s) = relation(c, &o, &file(&p))?;
            if l.ok().is_none() || !l.same(&s) {
                return Err(format!("{:?}: lenient {} strict {}", o, l.brief(), s.brief()));
            }
            Ok(())
        })
    });
}
