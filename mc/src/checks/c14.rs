//! Equivalent header layouts decode identically.
use super::c04::permutations;
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C14",
        level: "model_checking",
        rule: "states: header layouts of model files: every permutation of the table, frame and restart segments before the scan; every ordered grouping of the Huffman and quantisation tables; every single (and pair of) inserted application/comment/unknown segment at every place over lengths and contents; fill bytes at every marker; unused and redefined tables at every place, up to as many as a segment can hold; trailing data; transitions: decodes; each must give the bytes of the plain layout",
        assumptions: &[],
        passes: native_pass,
        run,
    }
}

struct Base {
    name: String,
    parts: Vec<Part>,
    want: Res,
    o: Opt,
    first: usize,
}
impl Base {
    fn same(&self, c: &mut Ctx, p: &[Part], what: impl Fn() -> String) -> Result<(), String> {
        self.same_bytes(c, &file(p), what)
    }
    fn same_bytes(&self, c: &mut Ctx, d: &[u8], what: impl Fn() -> String) -> Result<(), String> {
        let r = c.decode(&self.o, d);
        c.count("states", 1);
        c.count("transitions", 1);
        c.count("validated", 1);
        if !r.same(&self.want) || self.want.ok().is_none() {
            return Err(format!("{}: {}: {} instead of {}", self.name, what(), r.brief(), self.want.brief()));
        }
        let r = c.decode(&self.o.strict(true), d);
        c.count("transitions", 1);
        c.count("validated", 1);
        if !r.same(&self.want) {
            return Err(format!("{}: {}: strict mode: {} instead of {}", self.name, what(), r.brief(), self.want.brief()));
        }
        Ok(())
    }
}

/// one segment per table
pub fn split(parts: &[Part]) -> Vec<Part> {
    let mut v = vec![];
    for p in parts {
        match p.marker {
            0xdb => {
                for t in p.body.chunks(65) {
                    v.push(Part::seg(0xdb, t.to_vec()));
                }
            }
            0xc4 => {
                let mut b = &p.body[..];
                while !b.is_empty() {
                    let n = 17 + b[1..17].iter().map(|&x| x as usize).sum::<usize>();
                    v.push(Part::seg(0xc4, b[..n].to_vec()));
                    b = &b[n..];
                }
            }
            _ => v.push(p.clone()),
        }
    }
    v
}

fn bases(c: &mut Ctx) -> Vec<Base> {
    let mut v = vec![];
    for kind in 0..5usize {
        let img = filled(make(kind, 11, 19), 3 + kind as u64);
        for p in 0..4 {
            let (n, parts) = match p {
                0 => ("baseline", encode(&img, false, &[baseline_scan(&img, 0)], &t_opt).parts),
                1 => ("baseline with restarts", encode(&img, false, &[baseline_scan(&img, 2)], &t_skew).parts),
                2 => ("progressive", encode(&img, true, &simple_script(&img), &t_opt).parts),
                _ => ("progressive refinement", encode(&img, true, &full_script(&img).into_iter().map(|s| s.ri(2)).collect::<Vec<_>>(), &t_opt).parts),
            };
            let o = DEF.cs(CSS[(kind + p) % 4]).us((kind + p) % 2 == 0);
            let want = c.decode(&o, &file(&parts));
            let first = parts.iter().position(|p| p.marker == 0xda).unwrap();
            v.push(Base { name: format!("{} {}", kind_name(kind), n), parts, want, o, first });
        }
    }
    v
}

fn contents(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0u8; n], vec![0xff; n], (0..n).map(|i| i as u8).collect::<Vec<_>>()];
    // looks like markers
    for m in [0xd8u8, 0xd9, 0xda, 0xc0, 0xc4, 0xdb, 0xdd, 0x00] {
        v.push((0..n).map(|i| if i % 2 == 0 { 0xff } else { m }).collect());
        v.push((0..n).map(|i| if i % 2 == 1 { 0xff } else { m }).collect());
    }
    v
}

fn run(c: &mut Ctx) {
    universe(c);
    let bs = bases(c);
    redefined(c, &bs);
    // the plain layouts decode
    for b in &bs {
        c.case(|| format!("{}: plain layout", b.name), |c| b.same(c, &b.parts, || "plain".into()));
    }
    // (a) permutations of single-table segments, frame and restart interval
    for b in &bs {
        let sp = split(&b.parts);
        let f = sp.iter().position(|p| p.marker == 0xda).unwrap();
        let n = f - 1;
        if n > 8 {
            continue;
        }
        let perms = permutations(n);
        let chunk = 512;
        for lo in (0..perms.len()).step_by(chunk) {
            c.case(
                || format!("{}: permutations {}.. of {} segments before the scan", b.name, lo, n),
                |c| {
                    for pm in &perms[lo..(lo + chunk).min(perms.len())] {
                        let mut p = vec![sp[0].clone()];
                        p.extend(pm.iter().map(|&i| sp[1 + i].clone()));
                        p.extend(sp[f..].iter().cloned());
                        b.same(c, &p, || format!("segments in order {:02x?}", p.iter().map(|x| x.marker).collect::<Vec<_>>()))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // (b) every ordered grouping of the tables of one sort into segments
    for b in &bs {
        for mk in [0xc4u8, 0xdb] {
            c.case(
                || format!("{}: groupings of the {:02x} tables", b.name, mk),
                |c| {
                    let sp = split(&b.parts);
                    let f = sp.iter().position(|p| p.marker == 0xda).unwrap();
                    let ts: Vec<Part> = sp[..f].iter().filter(|p| p.marker == mk).cloned().collect();
                    let rest: Vec<Part> = sp.iter().enumerate().filter(|(i, p)| *i >= f || p.marker != mk).map(|(_, p)| p.clone()).collect();
                    let rf = rest.iter().position(|p| p.marker == 0xda).unwrap();
                    for pm in permutations(ts.len()) {
                        for cuts in 0..1usize << (ts.len() - 1) {
                            let mut segs: Vec<Part> = vec![];
                            for (k, &i) in pm.iter().enumerate() {
                                if k > 0 && cuts >> (k - 1) & 1 == 0 {
                                    segs.last_mut().unwrap().body.extend(&ts[i].body);
                                } else {
                                    segs.push(ts[i].clone());
                                }
                            }
                            // all of them at each place
                            for at in 1..=rf {
                                let mut p = rest.clone();
                                for (k, s) in segs.iter().enumerate() {
                                    p.insert(at + k, s.clone());
                                }
                                b.same(c, &p, || format!("{:02x} tables grouped {:?}/{:b} at {}", mk, pm, cuts, at))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // (c) inserted segments
    let unknown: Vec<u8> = (0x02..=0xbfu8).chain(0xf0..=0xfd).collect();
    for b in &bs {
        for at in 1..b.parts.len() {
            // after the first scan only application and comment segments
            let before = at <= b.first;
            let mut marks: Vec<u8> = (0xe0..=0xefu8).chain([0xfe]).collect();
            if before {
                marks.extend(&unknown);
            }
            // in baseline files there is nothing between the scan and the end
            if at > b.first && !b.name.contains("progressive") {
                continue;
            }
            c.case(
                || format!("{}: a segment before part {} ({:02x})", b.name, at, b.parts[at].marker),
                |c| {
                    let lens: Vec<usize> = if c.quick() { vec![0, 1, 2, 3, 14, 255, 256] } else { (0..40).chain([255, 256, 257, 1000]).collect() };
                    for &m in &marks {
                        for &n in &lens {
                            for (k, ct) in contents(n).into_iter().enumerate() {
                                if n == 0 && k > 0 || c.quick() && n > 3 && (k + n + m as usize) % 4 != 0 {
                                    continue;
                                }
                                let mut p = b.parts.clone();
                                p.insert(at, Part::seg(m, ct));
                                b.same(c, &p, || format!("segment {:02x} with {} bytes (content {}) before part {}", m, n, k, at))?;
                            }
                        }
                        c.beat_now();
                    }
                    // the longest segments, and a picture inside
                    for n in [4000usize, 32765, 32766, 32767, 65532, 65533] {
                        let long: &[u8] = if before { &[0xe0, 0xe1, 0xe2, 0xed, 0xee, 0xef, 0xfe, 0x02, 0xbf, 0xf0, 0xfd] } else { &[0xe0, 0xe1, 0xe2, 0xed, 0xee, 0xef, 0xfe] };
                        for &m in long {
                            let mut p = b.parts.clone();
                            p.insert(at, Part::seg(m, (0..n).map(|i| (i * 7) as u8 ^ 0xff).collect()));
                            b.same(c, &p, || format!("segment {:02x} with {} bytes before part {}", m, n, at))?;
                        }
                    }
                    for m in [0xe0u8, 0xe1, 0xe2, 0xee, 0xfe] {
                        for hd in [&b"JFIF\0\x01\x02\x01\0\x48\0\x48\x02\x02"[..], b"JFXX\0\x10", b"Exif\0\0MM\0\x2a\0\0\0\x08", b"Adobe\0\x64\0\0\0\0\0", b"Adobe\0\x64\0\0\0\0\x01", b"Adobe\0\x64\0\0\0\0\x02", b"ICC_PROFILE\0\x01\x01", b"http://ns.adobe.com/xap/1.0/\0"] {
                            let mut t = hd.to_vec();
                            for thumb in [false, true] {
                                if thumb {
                                    t.extend(file(&b.parts));
                                }
                                let mut p = b.parts.clone();
                                p.insert(at, Part::seg(m, t.clone()));
                                b.same(c, &p, || format!("segment {:02x} {:?} thumbnail {} before part {}", m, String::from_utf8_lossy(hd), thumb, at))?;
                            }
                        }
                    }
                    // pairs
                    for at2 in at..=b.parts.len() - 1 {
                        if at2 > b.first && !b.name.contains("progressive") {
                            continue;
                        }
                        for (m1, m2) in [(0xe0u8, 0xe1u8), (0xfe, 0xfe), (0xe1, 0xee), (0xef, 0xfe)] {
                            for n in [0usize, 1, 6, 300] {
                                let mut p = b.parts.clone();
                                p.insert(at2, Part::seg(m2, vec![0xff; n]));
                                p.insert(at, Part::seg(m1, vec![0x12; n / 2]));
                                b.same(c, &p, || format!("segments {:02x} before part {} and {:02x} before part {}", m1, at, m2, at2))?;
                            }
                        }
                    }
                    // many
                    for n in [10usize, 100, 300] {
                        let mut p = b.parts.clone();
                        for k in 0..n {
                            p.insert(at, Part::seg(if k % 3 == 0 { 0xfe } else { 0xe0 + (k % 16) as u8 }, vec![k as u8; k % 40]));
                        }
                        b.same(c, &p, || format!("{} segments before part {}", n, at))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // (d) fill bytes before header markers
    for b in &bs {
        c.case(
            || format!("{}: fill bytes", b.name),
            |c| {
                let ats: Vec<usize> = (1..b.parts.len()).filter(|&a| a <= b.first || b.name.contains("progressive")).collect();
                for &at in &ats {
                    for n in (1..=c.pick(20usize, 300)).chain([255, 256, 257, 1000, 65535, 65536]) {
                        let mut p = b.parts.clone();
                        p[at].lead = vec![0xff; n];
                        b.same(c, &p, || format!("{} fill bytes before part {}", n, at))?;
                    }
                    for &a2 in &ats {
                        let mut p = b.parts.clone();
                        p[at].lead = vec![0xff; 1];
                        p[a2].lead = vec![0xff; 2];
                        b.same(c, &p, || format!("fill bytes before parts {} and {}", at, a2))?;
                    }
                    // around an inserted comment
                    let mut p = b.parts.clone();
                    let mut s = Part::seg(0xfe, vec![0xff; 3]);
                    s.lead = vec![0xff; 3];
                    p[at].lead = vec![0xff; 2];
                    p.insert(at, s);
                    b.same(c, &p, || format!("fill bytes around a comment before part {}", at))?;
                }
                let mut p = b.parts.clone();
                for &at in &ats {
                    p[at].lead = vec![0xff; 3];
                }
                b.same(c, &p, || "fill bytes before every marker".into())
            },
        );
    }
    // (e) unused and redefined tables
    let junkq: [u8; 64] = { let mut q = [0u8; 64]; for i in 0..64 { q[i] = 255 - i as u8 } q };
    let junkh = [Table::flat(&[0, 5, 7]), Table::skewed(&[1, 2, 3, 4, 5, 6, 7, 8]), Table::std(0, false), Table::std(1, true), Table::at_length(&[0x11, 0x21], 16), Table::flat(&(0..255u8).collect::<Vec<_>>())];
    for (b, frame_first) in bs.iter().flat_map(|b| [(b, false), (b, true)]) {
        c.case(
            || format!("{}: unused and redefined tables, frame header first: {}", b.name, frame_first),
            |c| {
                let mut sp = split(&b.parts);
                if frame_first {
                    let k = sp.iter().position(|p| p.marker == 0xc0 || p.marker == 0xc2).unwrap();
                    let x = sp.remove(k);
                    sp.insert(1, x);
                }
                let sp = sp;
                let f = sp.iter().position(|p| p.marker == 0xda).unwrap();
                let prog = b.name.contains("progressive");
                // ids that no component uses
                let used: Vec<u8> = sp.iter().filter(|p| p.marker == 0xdb).map(|p| p.body[0]).collect();
                // every set of unused destinations, together
                let hused: Vec<(u8, u8)> = sp.iter().filter(|p| p.marker == 0xc4).map(|p| (p.body[0] >> 4, p.body[0] & 15)).collect();
                let free: Vec<(bool, u8, u8)> = (0..4u8)
                    .filter(|i| !used.contains(i))
                    .map(|i| (true, 0, i))
                    .chain((0..2u8).flat_map(|tc| (0..4u8).map(move |th| (tc, th))).filter(|x| !hused.contains(x)).map(|(tc, th)| (false, tc, th)))
                    .collect();
                for set in 1..1usize << free.len() {
                    let which: Vec<_> = free.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, x)| *x).collect();
                    let q: Vec<(u8, [u8; 64])> = which.iter().filter(|x| x.0).map(|x| (x.2, junkq)).collect();
                    let h: Vec<((u8, u8), Table)> = which.iter().filter(|x| !x.0).map(|x| ((x.1, x.2), junkh[if x.1 == 0 { 2 } else { 3 }].clone())).collect();
                    for at in [1, f / 2 + 1, f] {
                        for joined in [false, true] {
                            let mut p = sp.clone();
                            if joined {
                                if !h.is_empty() {
                                    p.insert(at, dht(&h));
                                }
                                if !q.is_empty() {
                                    p.insert(at, dqt(&q));
                                }
                            } else {
                                for x in &h {
                                    p.insert(at, dht(&[x.clone()]));
                                }
                                for x in &q {
                                    p.insert(at, dqt(&[*x]));
                                }
                            }
                            b.same(c, &p, || format!("unused tables {:?} (quantisation, class, destination) at {}, in one segment {}", which, at, joined))?;
                        }
                    }
                    c.beat_now();
                }
                for at in 1..=f {
                    for id in 0..4u8 {
                        if !used.contains(&id) {
                            let mut p = sp.clone();
                            p.insert(at, dqt(&[(id, junkq)]));
                            b.same(c, &p, || format!("unused quantisation table {} at {}", id, at))?;
                        }
                    }
                    for tc in 0..2u8 {
                        for th in 2..4u8 {
                            for j in &junkh {
                                if tc == 0 && j.vals.iter().any(|&v| v > 11) {
                                    continue;
                                }
                                let mut p = sp.clone();
                                p.insert(at, dht(&[((tc, th), j.clone())]));
                                b.same(c, &p, || format!("unused Huffman table {}/{} at {}", tc, th, at))?;
                            }
                        }
                    }
                    // an earlier definition of each table that is used
                    for k in at..f {
                        if sp[k].marker == 0xdb {
                            let mut p = sp.clone();
                            p.insert(at, dqt(&[(sp[k].body[0], junkq)]));
                            b.same(c, &p, || format!("quantisation table {} first defined differently at {}", sp[k].body[0], at))?;
                            let mut p = sp.clone();
                            p[k].body.splice(0..0, dqt(&[(sp[k].body[0], junkq)]).body);
                            b.same(c, &p, || format!("quantisation table {} defined twice in one segment", sp[k].body[0]))?;
                        }
                        if sp[k].marker == 0xc4 {
                            for j in &junkh {
                                let (tc, th) = (sp[k].body[0] >> 4, sp[k].body[0] & 15);
                                if tc == 0 && j.vals.iter().any(|&v| v > 11) {
                                    continue;
                                }
                                let mut p = sp.clone();
                                p.insert(at, dht(&[((tc, th), j.clone())]));
                                b.same(c, &p, || format!("Huffman table {}/{} first defined differently at {}", tc, th, at))?;
                                let mut p = sp.clone();
                                p[k].body.splice(0..0, dht(&[((tc, th), j.clone())]).body);
                                b.same(c, &p, || format!("Huffman table {}/{} defined twice in one segment", tc, th))?;
                            }
                        }
                        if sp[k].marker == 0xdd {
                            for r in [0usize, 1, 3, 65535] {
                                let mut p = sp.clone();
                                p.insert(at, dri(r));
                                b.same(c, &p, || format!("restart interval first defined as {} at {}", r, at))?;
                            }
                        }
                    }
                    // repeating a definition
                    for k in 1..f {
                        if k < at && (sp[k].marker == 0xdb || sp[k].marker == 0xc4 || sp[k].marker == 0xdd) {
                            let mut p = sp.clone();
                            p.insert(at, sp[k].clone());
                            b.same(c, &p, || format!("segment {} ({:02x}) repeated at {}", k, sp[k].marker, at))?;
                        }
                    }
                    if !sp.iter().any(|p| p.marker == 0xdd) {
                        let mut p = sp.clone();
                        p.insert(at, dri(0));
                        b.same(c, &p, || format!("restart interval 0 at {}", at))?;
                    }
                }
                if prog {
                    // all components have had a scan: their quantisation tables are in use for good
                    for at in f + 1..sp.len() {
                        for id in 0..4u8 {
                            let mut p = sp.clone();
                            p.insert(at, dqt(&[(id, junkq)]));
                            b.same(c, &p, || format!("quantisation table {} redefined after its first scan, at {}", id, at))?;
                        }
                        for tc in 0..2u8 {
                            for th in 2..4u8 {
                                let mut p = sp.clone();
                                p.insert(at, dht(&[((tc, th), junkh[0].clone())]));
                                b.same(c, &p, || format!("unused Huffman table {}/{} at {}", tc, th, at))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // (f) all tables of a progressive file up front: one destination per scan kind
    for kind in 0..5usize {
        c.case(
            || format!("{}: table destinations", kind_name(kind)),
            |c| {
                let img = filled(make(kind, 11, 19), 3 + kind as u64);
                for prog in [false, true] {
                    let scans = if prog { simple_script(&img) } else { vec![baseline_scan(&img, 0)] };
                    let want = c.decode(&DEF, &file(&encode(&img, prog, &scans, &t_opt).parts));
                    for td in 0..4u8 {
                        for ta in 0..4u8 {
                            for td2 in 0..4u8 {
                                for ta2 in 0..4u8 {
                                    let mut s2 = scans.clone();
                                    for s in s2.iter_mut() {
                                        for x in s.comps.iter_mut() {
                                            x.td = if x.ci == 0 { td } else { td2 };
                                            x.ta = if x.ci == 0 { ta } else { ta2 };
                                        }
                                    }
                                    let d = file(&encode(&img, prog, &s2, &t_opt).parts);
                                    let r = c.decode(&DEF, &d);
                                    c.count("states", 1);
                                    c.count("transitions", 1);
                                    c.count("validated", 1);
                                    if !r.same(&want) || want.ok().is_none() {
                                        return Err(format!("progressive={} Huffman destinations {} {} / {} {}: {} instead of {}", prog, td, ta, td2, ta2, r.brief(), want.brief()));
                                    }
                                }
                            }
                        }
                    }
                    // quantisation destinations: all assignments
                    let n = img.comps.len();
                    for a in 0..4usize.pow(n as u32) {
                        let ids: Vec<u8> = (0..n).map(|k| (a >> (2 * k) & 3) as u8).collect();
                        let old: Vec<usize> = img.comps.iter().map(|x| x.tq as usize).collect();
                        // components that share a destination must share the table
                        if (0..n).any(|i| (0..n).any(|j| ids[i] == ids[j] && img.qt[old[i]] != img.qt[old[j]])) {
                            continue;
                        }
                        let mut im = img.clone();
                        im.qt = [None; 4];
                        for k in 0..n {
                            im.comps[k].tq = ids[k];
                            im.qt[ids[k] as usize] = img.qt[old[k]];
                        }
                        let d = file(&encode(&im, prog, &scans, &t_opt).parts);
                        let r = c.decode(&DEF, &d);
                        c.count("states", 1);
                        c.count("transitions", 1);
                        c.count("validated", 1);
                        if !r.same(&want) {
                            return Err(format!("progressive={} quantisation destinations {:?}: {} instead of {}", prog, ids, r.brief(), want.brief()));
                        }
                    }
                    // order of the components in the scan header
                    if n == 3 {
                        for pm in permutations(3) {
                            let mut s2 = scans.clone();
                            s2[0].comps = pm.iter().map(|&i| scans[0].comps[i].clone()).collect();
                            let d = file(&encode(&img, prog, &s2, &t_opt).parts);
                            let r = c.decode(&DEF, &d);
                            c.count("states", 1);
                            if !r.same(&want) {
                                return Err(format!("progressive={} scan lists components {:?}: {} instead of {}", prog, pm, r.brief(), want.brief()));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // (g) trailing bytes
    for b in &bs {
        c.case(
            || format!("{}: trailing bytes", b.name),
            |c| {
                let d0 = file(&b.parts);
                for n in 0..c.pick(70usize, 700) {
                    for (k, ct) in contents(n).into_iter().enumerate() {
                        let mut d = d0.clone();
                        d.extend(ct);
                        b.same_bytes(c, &d, || format!("{} trailing bytes, content {}", n, k))?;
                    }
                }
                for o in &[100_000usize, 1_000_000] {
                    let mut d = d0.clone();
                    d.extend(vec![0xab; *o]);
                    b.same_bytes(c, &d, || format!("{} trailing bytes", o))?;
                }
                for o in bases(c) {
                    let mut d = d0.clone();
                    d.extend(file(&o.parts));
                    b.same_bytes(c, &d, || format!("followed by {}", o.name))?;
                }
                Ok(())
            },
        );
    }
}

/// segments that define tables again and again, up to the longest possible segment
fn redefined(c: &mut Ctx, bs: &[Base]) {
    for b in bs {
        for mk in [0xdbu8, 0xc4] {
            let sp = split(&b.parts);
            let f = sp.iter().position(|p| p.marker == 0xda).unwrap();
            let own: Vec<Vec<u8>> = sp[..f].iter().filter(|p| p.marker == mk).map(|p| p.body.clone()).collect();
            let rest: Vec<Part> = sp[..f].iter().filter(|p| p.marker != mk).cloned().collect();
            // what is replaced: other contents, for every destination in turn
            let decoy = |i: usize| -> Vec<u8> {
                if mk == 0xdb {
                    let mut v = vec![(i & 3) as u8];
                    v.extend((0..64).map(|k| 255 - ((k * 3 + i) & 127) as u8));
                    v
                } else {
                    dht(&[(((i >> 2 & 1) as u8, (i & 3) as u8), Table::flat(&[0, 3, 1, 2, 5, 4][..1 + i % 6]))]).body
                }
            };
            let tail: usize = own.iter().map(|x| x.len()).sum();
            let mut most = 0;
            let mut len = tail;
            while len + decoy(most).len() <= 65533 {
                len += decoy(most).len();
                most += 1;
            }
            let mut ns: Vec<usize> = (0..=40).collect();
            let mut k = 64;
            while k < most {
                ns.extend([k - 1, k, k + 1].iter().filter(|&&x| x < most));
                k *= 2;
            }
            ns.push(most);
            c.case(
                || format!("{}: up to {} {:02x} tables in one segment, {} of them used", b.name, most + own.len(), mk, own.len()),
                |c| {
                    for &n in &ns {
                        let body: Vec<u8> = (0..n).flat_map(|i| decoy(i)).chain(own.concat()).collect();
                        for at in [1, rest.len()] {
                            let mut p = rest.clone();
                            p.insert(at, Part::seg(mk, body.clone()));
                            p.extend(sp[f..].iter().cloned());
                            b.same(c, &p, || format!("{} tables are replaced in the {:02x} segment at {}", n, mk, at))?;
                        }
                        // the same with a segment for each
                        if n < 70 || n == most {
                            let mut p = rest.clone();
                            p.extend((0..n).map(|i| Part::seg(mk, decoy(i))));
                            p.extend(own.iter().map(|x| Part::seg(mk, x.clone())));
                            p.extend(sp[f..].iter().cloned());
                            b.same(c, &p, || format!("{} {:02x} segments are replaced", n, mk))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let m = u.mix() + form + tabs * 3 + ri * 5;
            let o = DEF.cs(CSS[m % 5]).us(m % 2 == 0).threads([4, 1, 3][m % 3]);
            let want = c.decode(&o, &file(&e.parts));
            let first = e.parts.iter().position(|p| p.marker == 0xda).unwrap();
            let b = Base { name: u.name(), parts: vec![], want, o, first };
            let ls = if c.quick() { vec![m % uni::LAYOUTS, (m + 3) % uni::LAYOUTS] } else { (0..uni::LAYOUTS).collect() };
            for l in ls {
                b.same(c, &uni::layout(&e.parts, l), || format!("layout {}", l))?;
            }
            Ok(())
        })
    });
}
