//! Malformed and unsupported files are errors.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C15",
        level: "exploration",
        rule: "every single violation of the listed rules at every site of model files (gray and the four samplings; baseline, restarts, progressive): all wrong start markers, segment removals, all 65536 values of every length field, all over-subscribed code-length profiles up to a bound, all values of every selector, dimension, precision, process, component count and sampling field, scan component sets, undefined codes at every symbol of the entropy-coded data; decode must return an error",
        assumptions: &[],
        passes: native_pass,
        run,
    }
}

pub struct Base {
    pub name: String,
    pub parts: Vec<Part>,
    pub img: Image,
    pub prog: bool,
    pub scans: Vec<Scan>,
}
pub fn bases() -> Vec<Base> {
    let mut v = vec![];
    for kind in 0..5usize {
        let img = filled(make(kind, 9, 17), 3 + kind as u64);
        let b1 = vec![baseline_scan(&img, 0)];
        let b2 = vec![baseline_scan(&img, 1)];
        let n = img.comps.len();
        let mut sep: Vec<Scan> = (0..n).map(|i| Scan::new(&[i], 0, 0, 0, 0)).collect();
        sep.extend((0..n).map(|i| Scan::new(&[i], 1, 63, 0, 0)));
        for (name, prog, scans) in [
            ("baseline", false, b1),
            ("baseline with restarts", false, b2),
            ("progressive", true, simple_script(&img)),
            ("progressive, one component per scan", true, sep),
            ("progressive with refinement", true, full_script(&img)),
        ] {
            v.push(Base { name: format!("{} {}", kind_name(kind), name), parts: encode(&img, prog, &scans, &t_opt).parts, img: img.clone(), prog, scans });
        }
    }
    v
}

fn must_fail(c: &mut Ctx, d: &[u8], what: impl Fn() -> String) -> Result<(), String> {
    for strict in [false, true] {
        let r = c.decode(&DEF.strict(strict), d);
        if !r.is_err() {
            return Err(format!("{} (strict={}): {}", what(), strict, r.brief()));
        }
    }
    Ok(())
}
/// also when only the headers are read
fn must_fail_headers(c: &mut Ctx, d: &[u8], what: impl Fn() -> String) -> Result<(), String> {
    must_fail(c, d, &what)?;
    if let Ok(m) = c.headers(&DEF, d).0 {
        return Err(format!("{}: the header read succeeds with {:?}", what(), m));
    }
    Ok(())
}

/// offsets of each part in the file
fn offsets(p: &[Part]) -> Vec<usize> {
    let mut v = vec![];
    let mut o = vec![];
    for x in p {
        v.push(o.len() + x.lead.len());
        x.bytes(&mut o);
    }
    v
}

fn run(c: &mut Ctx) {
    let bs = bases();
    for b in &bs {
        c.case(
            || format!("{}: unharmed file decodes", b.name),
            |c| c.decode(&DEF, &file(&b.parts)).want("unharmed file").map(|_| ()),
        );
        // start marker
        c.case(
            || format!("{}: every other start marker", b.name),
            |c| {
                let d0 = file(&b.parts);
                for v in 0..=65535u16 {
                    if v == 0xffd8 {
                        continue;
                    }
                    let mut d = d0.clone();
                    d[0] = (v >> 8) as u8;
                    d[1] = v as u8;
                    // 8-bit neighbours get both modes, the others one decode
                    c.evals += 1;
                    let mut dec = zj::Decoder::new_with_options(DEF.zj());
                    let r = guard(|| dec.read_headers(&d).is_ok())?;
                    if r {
                        return Err(format!("start marker {:04x} accepted by the header read", v));
                    }
                    if v >> 8 == 0xff || v & 0xff == 0xd8 {
                        must_fail(c, &d, || format!("start marker {:04x}", v))?;
                    }
                }
                must_fail_headers(c, &d0[2..], || "no start marker".into())?;
                for k in 0..256usize {
                    let mut d = vec![k as u8];
                    d.extend(&d0);
                    must_fail_headers(c, &d, || format!("byte {:02x} before the start marker", k))?;
                }
                for k in 0..2 {
                    must_fail_headers(c, &d0[..k], || format!("{} bytes", k))?;
                }
                must_fail_headers(c, &d0[..2], || "only a start marker".into())
            },
        );
        // segments removed
        c.case(
            || format!("{}: segments removed", b.name),
            |c| {
                let n = b.parts.len();
                let first = b.parts.iter().position(|p| p.marker == 0xda).unwrap();
                for k in 1..n - 1 {
                    let mut p = b.parts.clone();
                    let m = p[k].marker;
                    p.remove(k);
                    match m {
                        0xc0 | 0xc2 | 0xdb => must_fail_headers(c, &file(&p), || format!("segment {:02x} removed", m))?,
                        0xc4 if k < first => must_fail(c, &file(&p), || format!("Huffman tables before the first scan removed"))?,
                        _ => {}
                    }
                }
                // every single table
                for k in 1..n - 1 {
                    if b.parts[k].marker == 0xdb {
                        for t in 0..b.parts[k].body.len() / 65 {
                            let mut p = b.parts.clone();
                            let id = p[k].body[t * 65];
                            if !b.img.comps.iter().any(|x| x.tq == id) {
                                continue;
                            }
                            p[k].body.drain(t * 65..t * 65 + 65);
                            must_fail(c, &file(&p), || format!("quantisation table {} removed", id))?;
                            // defined under another number
                            for other in 0..4u8 {
                                if b.img.qt[other as usize].is_none() {
                                    let mut p = b.parts.clone();
                                    p[k].body[t * 65] = other;
                                    must_fail(c, &file(&p), || format!("quantisation table {} defined as {}", id, other))?;
                                }
                            }
                        }
                    }
                    if b.parts[k].marker == 0xc4 && k < first {
                        let mut at = 0;
                        let body = b.parts[k].body.clone();
                        while at < body.len() {
                            let len = 17 + body[at + 1..at + 17].iter().map(|&x| x as usize).sum::<usize>();
                            let mut p = b.parts.clone();
                            p[k].body.drain(at..at + len);
                            must_fail(c, &file(&p), || format!("Huffman table {:02x} removed", body[at]))?;
                            let mut p = b.parts.clone();
                            p[k].body[at] ^= 2;
                            must_fail(c, &file(&p), || format!("Huffman table {:02x} defined as {:02x}", body[at], body[at] ^ 2))?;
                            let mut p = b.parts.clone();
                            p[k].body[at] ^= 0x10;
                            if !b.prog {
                                must_fail(c, &file(&p), || format!("Huffman table {:02x} defined as {:02x}", body[at], body[at] ^ 0x10))?;
                            }
                            at += len;
                        }
                    }
                }
                // no scan
                let mut p: Vec<Part> = b.parts[..first].to_vec();
                must_fail_headers(c, &file(&p), || "file ends before the scan".into())?;
                p.push(eoi());
                must_fail_headers(c, &file(&p), || "end of image instead of a scan".into())?;
                for k in 1..=first {
                    let mut p = b.parts.clone();
                    p.insert(k, eoi());
                    must_fail_headers(c, &file(&p), || format!("end of image before segment {}", k))?;
                }
                // the scan before the frame
                let f = b.parts.iter().position(|p| p.marker == 0xc0 || p.marker == 0xc2).unwrap();
                for k in 1..=f {
                    let mut p = b.parts.clone();
                    let s = p.remove(first);
                    p.insert(k, s);
                    must_fail_headers(c, &file(&p), || format!("scan at {} before the frame", k))?;
                }
                Ok(())
            },
        );
        // progressive: tables of every later scan
        if b.prog {
            c.case(
                || format!("{}: tables of later scans removed", b.name),
                |c| {
                    // tables only, one destination per scan, so that no earlier table stands in
                    for (i, s) in b.scans.iter().enumerate() {
                        if s.ss == 0 && s.ah != 0 {
                            continue;
                        }
                        let mut sc = b.scans.clone();
                        for x in sc.iter_mut() {
                            for y in x.comps.iter_mut() {
                                y.td = 0;
                                y.ta = 0;
                            }
                        }
                        for y in sc[i].comps.iter_mut() {
                            if s.ss == 0 {
                                y.td = 3
                            } else {
                                y.ta = 3
                            }
                        }
                        let mut p = encode(&b.img, true, &sc, &t_opt).parts;
                        c.decode(&DEF, &file(&p)).want("other destinations")?;
                        // remove exactly the tables with destination 3
                        let mut n = 0;
                        for x in p.iter_mut() {
                            if x.marker == 0xc4 {
                                let mut nb = vec![];
                                let mut at = 0;
                                while at < x.body.len() {
                                    let len = 17 + x.body[at + 1..at + 17].iter().map(|&v| v as usize).sum::<usize>();
                                    if x.body[at] & 15 == 3 {
                                        n += 1;
                                    } else {
                                        nb.extend_from_slice(&x.body[at..at + len]);
                                    }
                                    at += len;
                                }
                                x.body = nb;
                            }
                        }
                        if n == 0 {
                            continue;
                        }
                        must_fail(c, &file(&p), || format!("no table for scan {} {:?}", i, s))?;
                    }
                    Ok(())
                },
            );
        }
        // length fields
        let offs = offsets(&b.parts);
        for (k, part) in b.parts.iter().enumerate() {
            if ![0xdb, 0xc4, 0xc0, 0xc2, 0xda, 0xdd].contains(&part.marker) {
                continue;
            }
            // tables of later scans may fall back to earlier ones
            let first = b.parts.iter().position(|p| p.marker == 0xda).unwrap();
            if k > first && part.marker == 0xc4 {
                continue;
            }
            let right = part.body.len() + 2;
            c.case(
                || format!("{}: every length of segment {} ({:02x})", b.name, k, part.marker),
                |c| {
                    let d0 = file(&b.parts);
                    for l in 0..=65535usize {
                        if l == right {
                            continue;
                        }
                        if c.quick() && l > right + 2000 && l % 16 != 0 && l < 65000 {
                            continue;
                        }
                        let mut d = d0.clone();
                        d[offs[k] + 2] = (l >> 8) as u8;
                        d[offs[k] + 3] = l as u8;
                        let r = c.decode(&DEF, &d);
                        if !r.is_err() {
                            return Err(format!("length {} instead of {} in segment {:02x}: {}", l, right, part.marker, r.brief()));
                        }
                    }
                    Ok(())
                },
            );
        }
        // skipped segments
        c.case(
            || format!("{}: lengths of skipped segments", b.name),
            |c| {
                let first = b.parts.iter().position(|p| p.marker == 0xda).unwrap();
                for at in 1..=first {
                    for m in (0xe0u8..=0xef).chain([0xfe, 0x02, 0xbf, 0xf0, 0xfd]) {
                        for l in 0..2u8 {
                            let mut p = b.parts.clone();
                            p[at].lead = vec![0xff, m, 0, l];
                            must_fail_headers(c, &file(&p), || format!("segment {:02x} with length {} before segment {}", m, l, at))?;
                        }
                        let mut p = b.parts.clone();
                        p[at].lead = vec![0xff, m, 0xff, 0xff];
                        must_fail_headers(c, &file(&p), || format!("segment {:02x} that ends behind the file before segment {}", m, at))?;
                    }
                }
                Ok(())
            },
        );
        // frame header fields
        let f = b.parts.iter().position(|p| p.marker == 0xc0 || p.marker == 0xc2).unwrap();
        c.case(
            || format!("{}: frame header fields", b.name),
            |c| {
                let with = |g: &dyn Fn(&mut Part)| {
                    let mut p = b.parts.clone();
                    g(&mut p[f]);
                    file(&p)
                };
                for v in 0..=255u8 {
                    if v != 8 {
                        must_fail_headers(c, &with(&|p| p.body[0] = v), || format!("sample precision {}", v))?;
                    }
                }
                must_fail_headers(c, &with(&|p| p.body[1..3].fill(0)), || "height 0".into())?;
                must_fail_headers(c, &with(&|p| p.body[3..5].fill(0)), || "width 0".into())?;
                must_fail_headers(c, &with(&|p| p.body[1..5].fill(0)), || "width and height 0".into())?;
                for m in [0xc1u8, 0xc3, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcd, 0xce, 0xcf] {
                    must_fail_headers(c, &with(&|p| p.marker = m), || format!("frame marker {:02x}", m))?;
                }
                // arithmetic conditioning, number of lines
                let first = b.parts.iter().position(|p| p.marker == 0xda).unwrap();
                for m in [0xccu8, 0xdc] {
                    for at in 1..=first {
                        for body in [vec![], vec![0, 0x10], vec![0, 17], vec![0, 0, 1, 0, 0x10, 5, 0x11, 5]] {
                            let mut p = b.parts.clone();
                            p.insert(at, Part::seg(m, body));
                            must_fail_headers(c, &file(&p), || format!("segment {:02x} before segment {}", m, at))?;
                        }
                    }
                }
                // the other supported process: a baseline scan in a progressive frame is no legal scan
                if !b.prog {
                    must_fail(c, &with(&|p| p.marker = 0xc2), || "baseline scan in a progressive frame".into())?;
                }
                // component count
                let n = b.img.comps.len();
                for v in 0..=255usize {
                    if v == n {
                        continue;
                    }
                    must_fail_headers(c, &with(&|p| p.body[5] = v as u8), || format!("component count {} with unchanged length", v))?;
                    if v != 1 && v != 3 {
                        must_fail_headers(
                            c,
                            &with(&|p| {
                                p.body[5] = v as u8;
                                p.body.truncate(6);
                                for i in 0..v {
                                    p.body.extend([1 + (i % 255) as u8, 0x11, 0]);
                                }
                            }),
                            || format!("{} components", v),
                        )?;
                    }
                }
                // gray frame with colour scan and the reverse
                if n == 3 {
                    must_fail(c, &with(&|p| { p.body[5] = 1; p.body.truncate(9); p.body[7] = 0x11 }), || "one component in the frame, three in the scan".into())?;
                } else if !b.prog {
                    must_fail(c, &with(&|p| { p.body[5] = 3; p.body.extend([2, 0x11, 0, 3, 0x11, 0]) }), || "three components in the frame, one in the scan".into())?;
                }
                // component fields
                for i in 0..n {
                    for v in 0..=255u8 {
                        if v >= 4 {
                            must_fail_headers(c, &with(&|p| p.body[8 + 3 * i] = v), || format!("component {} uses quantisation table {}", i, v))?;
                        } else if b.img.qt[v as usize].is_none() {
                            must_fail(c, &with(&|p| p.body[8 + 3 * i] = v), || format!("component {} uses the undefined quantisation table {}", i, v))?;
                        }
                        if v as usize != i + 1 {
                            must_fail_headers(c, &with(&|p| p.body[6 + 3 * i] = v), || format!("component {} has id {}", i, v))?;
                        }
                        if v >> 4 == 0 || v & 15 == 0 {
                            must_fail(c, &with(&|p| p.body[7 + 3 * i] = v), || format!("component {} has sampling {:02x}", i, v))?;
                        }
                    }
                }
                Ok(())
            },
        );
        // sampling layouts
        if b.img.comps.len() == 3 {
            let vs: Vec<u8> = if c.quick() { vec![1, 2, 3, 4] } else { vec![1, 2, 3, 4, 5, 8, 15] };
            for &yh in &vs {
                for &yv in &vs {
                    c.case(
                        || format!("{}: sampling layouts with luma {}x{}", b.name, yh, yv),
                        |c| {
                            for &bh in &vs {
                                for &bv in &vs {
                                    for &rh in &vs {
                                        for &rv in &vs {
                                            let chroma11 = [bh, bv, rh, rv] == [1, 1, 1, 1];
                                            if chroma11 && yh <= 2 && yv <= 2 {
                                                continue;
                                            }
                                            let mut p = b.parts.clone();
                                            p[f].body[7] = yh << 4 | yv;
                                            p[f].body[10] = bh << 4 | bv;
                                            p[f].body[13] = rh << 4 | rv;
                                            let r = c.decode(&DEF, &file(&p));
                                            if !r.is_err() {
                                                return Err(format!("sampling {}x{} {}x{} {}x{}: {}", yh, yv, bh, bv, rh, rv, r.brief()));
                                            }
                                        }
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
        // scan headers
        let sosn = b.parts.iter().filter(|p| p.marker == 0xda).count();
        for which in 0..sosn {
            c.case(
                || format!("{}: fields of scan header {}", b.name, which),
                |c| {
                    let k = b.parts.iter().enumerate().filter(|(_, p)| p.marker == 0xda).nth(which).unwrap().0;
                    let with = |g: &dyn Fn(&mut Vec<u8>)| {
                        let mut p = b.parts.clone();
                        g(&mut p[k].body);
                        file(&p)
                    };
                    let ns = b.scans[which].comps.len();
                    let n = b.img.comps.len();
                    for i in 0..ns {
                        for v in 0..=255u8 {
                            let legal = v >= 1 && v as usize <= n;
                            if !legal {
                                must_fail(c, &with(&|p| p[1 + 2 * i] = v), || format!("scan {} names component {}", which, v))?;
                            }
                            for j in 0..i {
                                let other = b.parts[k].body[1 + 2 * j];
                                must_fail(c, &with(&|p| p[1 + 2 * i] = other), || format!("scan {} names component {} twice", which, other))?;
                            }
                            if v >> 4 > 3 || v & 15 > 3 {
                                must_fail(c, &with(&|p| p[2 + 2 * i] = v), || format!("scan {} component {} has table selectors {:02x}", which, i, v))?;
                            }
                        }
                    }
                    for v in 0..=255usize {
                        if v != ns {
                            must_fail(c, &with(&|p| p[0] = v as u8), || format!("scan {} has component count {} with unchanged length", which, v))?;
                        }
                        if v == 0 || v > n {
                            let tail: Vec<u8> = b.parts[k].body[b.parts[k].body.len() - 3..].to_vec();
                            must_fail(
                                c,
                                &with(&|p| {
                                    p.clear();
                                    p.push(v as u8);
                                    for i in 0..v {
                                        p.extend([(i % n) as u8 + 1, 0]);
                                    }
                                    p.extend(&tail);
                                }),
                                || format!("scan {} has {} components", which, v),
                            )?;
                        }
                    }
                    if !b.prog {
                        // a baseline scan of fewer components than the frame
                        for mask in 1..(1u8 << n) - 1 {
                            let cis: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
                            let sc = Scan::new(&cis, 0, 63, 0, 0);
                            let e = encode(&b.img, false, &[sc], &t_std).parts;
                            must_fail(c, &file(&e), || format!("baseline scan of components {:?}", cis))?;
                        }
                        if n == 3 {
                            let scs: Vec<Scan> = (0..3).map(|i| Scan::new(&[i], 0, 63, 0, 0)).collect();
                            must_fail(c, &file(&encode(&b.img, false, &scs, &t_std).parts), || "baseline with three scans".into())?;
                            let scs = [Scan::new(&[0], 0, 63, 0, 0), Scan::new(&[1, 2], 0, 63, 0, 0)];
                            must_fail(c, &file(&encode(&b.img, false, &scs, &t_std).parts), || "baseline with two scans".into())?;
                        }
                    } else {
                        // DC and AC together
                        if b.scans[which].ss == 0 {
                            for se in 1..64u8 {
                                must_fail(c, &with(&|p| { let l = p.len(); p[l - 2] = se }), || format!("DC scan {} with spectral end {}", which, se))?;
                            }
                        } else {
                            let m = b.parts[k].body.len();
                            let se = b.parts[k].body[m - 2];
                            if se > 0 {
                                must_fail(c, &with(&|p| { let l = p.len(); p[l - 3] = 0 }), || format!("AC scan {} with spectral start 0", which))?;
                            }
                            // several components
                            if n == 3 {
                                must_fail(c, &with(&|p| { let tail = p[p.len() - 3..].to_vec(); p.clear(); p.extend([3, 1, 0, 2, 0x11, 3, 0x11]); p.extend(tail) }), || format!("AC scan {} of three components", which))?;
                                must_fail(c, &with(&|p| { let tail = p[p.len() - 3..].to_vec(); p.clear(); p.extend([2, 1, 0, 2, 0x11]); p.extend(tail) }), || format!("AC scan {} of two components", which))?;
                            }
                        }
                        for v in [14u8, 15] {
                            must_fail(c, &with(&|p| { let l = p.len(); p[l - 1] = v << 4 }), || format!("scan {} with Ah {}", which, v))?;
                            must_fail(c, &with(&|p| { let l = p.len(); p[l - 1] = v }), || format!("scan {} with Al {}", which, v))?;
                        }
                    }
                    Ok(())
                },
            );
        }
        // table segments
        c.case(
            || format!("{}: table selectors", b.name),
            |c| {
                let first = b.parts.iter().position(|p| p.marker == 0xda).unwrap();
                for at in 1..=first {
                    for v in 0..=255u8 {
                        if v > 3 {
                            let mut body = vec![v];
                            body.extend([1u8; 64]);
                            let mut p = b.parts.clone();
                            p.insert(at, Part::seg(0xdb, body.clone()));
                            must_fail_headers(c, &file(&p), || format!("quantisation table {:02x} at {}", v, at))?;
                            body.extend([1u8; 64]);
                            let mut p = b.parts.clone();
                            p.insert(at, Part::seg(0xdb, body));
                            must_fail_headers(c, &file(&p), || format!("16-bit quantisation table {:02x} at {}", v, at))?;
                        }
                        if v >> 4 > 1 || v & 15 > 3 {
                            let mut body = dht(&[((0, 0), Table::flat(&[0, 1, 2]))]).body;
                            body[0] = v;
                            let mut p = b.parts.clone();
                            p.insert(at, Part::seg(0xc4, body));
                            must_fail_headers(c, &file(&p), || format!("Huffman table {:02x} at {}", v, at))?;
                        }
                        if v > 15 {
                            let mut p = b.parts.clone();
                            p.insert(at, dht(&[((0, 3), Table::flat(&[0, v]))]));
                            must_fail_headers(c, &file(&p), || format!("DC Huffman table with symbol {} at {}", v, at))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // illegal Huffman tables
    let b = &bs[0];
    for cls in [0u8, 1] {
        for prog in [false, true] {
            let base = if prog { &bs[2] } else { b };
            for l1 in 1..=16usize {
                c.case(
                    || format!("Huffman tables class {} progressive {}: over-subscribed profiles from length {}", cls, prog, l1),
                    |c| {
                        let mut prof: Vec<[u8; 16]> = vec![];
                        // up to three lengths; counts at and beyond what the code space holds
                        for n1 in [1usize, 2, 3, 4, 5, 8, 9, 16, 17, 64, 65, 128, 129, 254, 255] {
                            let mut a = [0u8; 16];
                            a[l1 - 1] = n1 as u8;
                            prof.push(a);
                            for l2 in l1 + 1..=16 {
                                for n2 in [1usize, 2, 3, 4, 7, 8, 16, 100, 255] {
                                    let mut a2 = a;
                                    a2[l2 - 1] = n2 as u8;
                                    prof.push(a2);
                                    if l2 + 1 <= 16 && !c.quick() {
                                        for n3 in [1usize, 2, 16] {
                                            let mut a3 = a2;
                                            a3[l2] = n3 as u8;
                                            prof.push(a3);
                                        }
                                    }
                                }
                            }
                        }
                        // complete code spaces: a spine from l1 down to d, the rest of the space at d
                        for d in l1..=16 {
                            let mut a = [0u8; 16];
                            let mut left = 1usize << l1;
                            for l in l1..d {
                                a[l - 1] = 1;
                                left = (left - 1) * 2;
                                if left > 255 {
                                    break;
                                }
                            }
                            if left <= 255 {
                                a[d - 1] = left as u8;
                                prof.push(a);
                            }
                        }
                        // complete spines with one code too many
                        for d in l1..=16 {
                            let mut a = [0u8; 16];
                            for x in a.iter_mut().take(d).skip(l1 - 1) {
                                *x = 1;
                            }
                            for k in 0..d {
                                let mut s = a;
                                s[k] = s[k].saturating_add(if l1 == 1 { 2 } else { 255 - s[k] });
                                prof.push(s);
                            }
                        }
                        for a in prof {
                            let total: usize = a.iter().map(|&x| x as usize).sum();
                            let kraft: u64 = a.iter().enumerate().map(|(i, &x)| (x as u64) << (15 - i)).sum();
                            // the code of all ones is reserved: a full code space is illegal too
                            if kraft < 65536 && total <= 256 {
                                continue;
                            }
                            let mut body = vec![cls << 4 | 3];
                            body.extend(a);
                            body.extend((0..total).map(|i| if cls == 0 { (i % 12) as u8 } else { i as u8 }));
                            for at in [1usize, 3] {
                                let mut p = base.parts.clone();
                                p.insert(at, Part::seg(0xc4, body.clone()));
                                must_fail_headers(c, &file(&p), || format!("code lengths {:?} at {}", a, at))?;
                            }
                            c.count("illegal_profiles", 1);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // undefined codes in the data
    for b in &bs {
        for (si, sc) in b.scans.iter().enumerate() {
            if sc.ss == 0 && sc.ah > 0 {
                continue;
            }
            c.case(
                || format!("{}: an undefined code at every symbol of scan {}", b.name, si),
                |c| {
                    let items = scan_items(&b.img, sc, b.prog);
                    for tf in [&t_flat as TableFn, &t_opt, &t_skew, &t_long] {
                        let e = encode(&b.img, b.prog, &b.scans, tf).parts;
                        let k = e.iter().enumerate().filter(|(_, p)| p.marker == 0xda).nth(si).unwrap().0;
                        let tables: Tables = freqs(&items).into_iter().map(|((tc, th), f)| ((tc, th), tf(tc, th, &f))).collect();
                        // quick: every symbol of the shorter scans, every third of the longer
                        let nsym = items.iter().filter(|i| matches!(i, Item::Sym { .. })).count();
                        let step = if c.quick() && nsym > 400 { nsym / 200 } else { 1 };
                        for (j, it) in items.iter().enumerate() {
                            if !matches!(it, Item::Sym { .. }) || j % step != 0 {
                                continue;
                            }
                            // sixteen ones are never a code
                            let mut it2 = items[..j].to_vec();
                            it2.push(Item::Bits { v: 0xffff, n: 16 });
                            it2.extend_from_slice(&items[j..]);
                            let mut p = e.clone();
                            p[k].data = serialise(&it2, &tables, None);
                            let r = c.decode(&DEF, &file(&p));
                            c.count("undefined_codes", 1);
                            if !r.is_err() {
                                return Err(format!("undefined code instead of symbol {} of scan {}: {}", j, si, r.brief()));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // every undefined code of small tables, at the first and a later symbol
    for b in bs.iter().filter(|b| b.scans.len() == 1) {
        c.case(
            || format!("{}: every undefined code", b.name),
            |c| {
                let items = scan_items(&b.img, &b.scans[0], false);
                for tf in [&t_flat as TableFn, &t_opt, &t_skew] {
                    let e = encode(&b.img, b.prog, &b.scans, tf).parts;
                    let k = e.iter().position(|p| p.marker == 0xda).unwrap();
                    let tables: Tables = freqs(&items).into_iter().map(|((tc, th), f)| ((tc, th), tf(tc, th, &f))).collect();
                    let mut tried = vec![];
                    for (j, it) in items.iter().enumerate() {
                        if let Item::Sym { tc, th, .. } = *it {
                            let cnt = tried.iter().filter(|x| **x == (tc, th)).count();
                            if cnt >= 3 {
                                continue;
                            }
                            tried.push((tc, th));
                            let t = &tables.iter().find(|x| x.0 == (tc, th)).unwrap().1;
                            let cs: Vec<(u32, u8)> = t.codes().iter().flatten().cloned().collect();
                            // undefined: 16-bit strings that no code is a prefix of
                            let free: Vec<u32> = (0..65536u32).filter(|v| !cs.iter().any(|&(code, l)| v >> (16 - l as u32) == code)).collect();
                            let step = (free.len() / c.pick(1000, 65536)).max(1);
                            for v in free.iter().step_by(step) {
                                let mut it2 = items[..j].to_vec();
                                it2.push(Item::Bits { v: *v, n: 16 });
                                it2.extend_from_slice(&items[j..]);
                                let mut p = e.clone();
                                p[k].data = serialise(&it2, &tables, None);
                                let r = c.decode(&DEF, &file(&p));
                                c.count("undefined_codes", 1);
                                if !r.is_err() {
                                    return Err(format!("undefined code {:016b} instead of symbol {}: {}", v, j, r.brief()));
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
