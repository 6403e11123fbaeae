//! No input makes the decoder panic, abort, hang or touch foreign memory.
use super::common::*;
use super::*;
use crate::jpeg::*;

pub fn check() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        rule: "byte strings: all of length <= 2, all that continue the start marker by <= 3 bytes, every marker with every small length and filling cut everywhere; all sequences of segments of an alphabet up to the depth; every single-byte substitution, deletion, insertion and every prefix of model files, substitutions of two structural bytes; all scan parameters (Ss,Se,Ah,Al) x data patterns, alone and after another scan; all small code-length profiles x symbols x data; all 16-bit scan data; all output colourspaces and option records; long inputs (units repeated up to 2^18 times at every place). Executed with the allocator under control (guard page behind / before every buffer, least alignment), with address sanitizer, and with overflow checks and debug assertions, log arguments being formatted; monitored for panics, signals, sanitizer reports, missing answers and wrong output lengths",
        assumptions: &["one worker may allocate 3.5 GB"],
        passes: |t| {
            let mut v = vec![
                Pass::new("checked", Cpu::Native, 8).build("checked"),
                Pass::new("native", Cpu::Native, 8),
                Pass::new("asan", Cpu::Native, 8).build("asan"),
                Pass::new("asan-noavx2", Cpu::NoAvx2, 8).build("asan"),
                Pass::new("guard-misaligned", Cpu::Native, 8).alloc(alloc::G_MISALIGN),
                Pass::new("guard-end-noavx2", Cpu::NoAvx2, 8).alloc(alloc::G_END),
            ];
            if t == Tier::Thorough {
                v.push(Pass::new("checked-noavx2", Cpu::NoAvx2, 8).build("checked"));
                v.push(Pass::new("guard-start", Cpu::Native, 8).alloc(alloc::G_START));
            }
            v
        },
        run,
    }
}

const ALLCS: [Cs; 7] = [Cs::RGB, Cs::GRAYSCALE, Cs::YCbCr, Cs::CMYK, Cs::YCCK, Cs::RGBA, Cs::RGBX];

/// formats every record and throws it away
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct Null;
        impl Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = write!(Null, "{}", r.args());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

fn probe(c: &mut Ctx, o: &Opt, d: &[u8]) -> Result<bool, String> {
    let (r, m) = c.decode_meta(o, d);
    match r {
        Res::Panic(p) => Err(format!("{:?}: panic: {}", o, p)),
        Res::Err(_) => Ok(false),
        Res::Ok(v) => {
            let m = m.unwrap();
            if v.len() != m.w as usize * m.h as usize * m.ch {
                return Err(format!("{:?}: {} bytes for {:?}", o, v.len(), m));
            }
            c.count("inputs_that_decode", 1);
            Ok(true)
        }
    }
}
fn probe_h(c: &mut Ctx, o: &Opt, d: &[u8]) -> Result<(), String> {
    let h = c.headers(o, d);
    if h.1 {
        return Err(format!("{:?}: header read panics: {:?}", o, h.0));
    }
    Ok(())
}
/// option records in turn
fn opt(k: usize) -> Opt {
    DEF.cs(ALLCS[k % 7]).us(k / 7 % 3 != 0).strict(k / 2 % 5 == 0).threads(1 + (k % 11 == 0) as u32).max(300, 300)
}
/// the same with an output that can be produced
fn opt5(k: usize) -> Opt {
    opt(k).cs(CSS[k % 5])
}

fn bases() -> Vec<(String, Vec<Part>)> {
    let mut v = vec![];
    for kind in 0..5usize {
        let img = filled(make(kind, 9 + kind * 4, 10 + kind * 3), 3 + kind as u64);
        let n = img.comps.len();
        let refine_only = {
            let mut s: Vec<Scan> = vec![Scan::new(&(0..n).collect::<Vec<_>>(), 0, 0, 0, 1)];
            for i in 0..n {
                s.push(Scan::new(&[i], 1, 63, 0, 1));
                s.push(Scan::new(&[i], 1, 63, 1, 0));
            }
            s
        };
        let list: Vec<(&str, Vec<Part>)> = vec![
            ("baseline", encode(&img, false, &[baseline_scan(&img, 0)], &t_opt).parts),
            ("restarts", encode(&img, false, &[baseline_scan(&img, 2)], &t_std).parts),
            ("skewed tables", encode(&img, false, &[baseline_scan(&img, 0)], &t_skew).parts),
            ("progressive", encode(&img, true, &simple_script(&img), &t_opt).parts),
            ("progressive with refinement", encode(&img, true, &refine_only, &t_opt).parts),
            ("progressive with restarts", encode(&img, true, &full_script(&img).into_iter().map(|s| s.ri(2)).collect::<Vec<_>>(), &t_flat).parts),
        ];
        for (nm, p) in list {
            v.push((format!("{} {}", kind_name(kind), nm), p));
        }
    }
    v
}

/// offsets of bytes that are structure: markers, lengths, headers, code-length counts
fn structural(p: &[Part]) -> Vec<usize> {
    let mut v = vec![];
    let mut o = vec![];
    for x in p {
        let at = o.len() + x.lead.len();
        x.bytes(&mut o);
        if x.marker == 0xd8 || x.marker == 0xd9 {
            continue;
        }
        v.extend([at + 1, at + 2, at + 3]);
        let b = at + 4;
        match x.marker {
            0xc0 | 0xc2 | 0xda | 0xdd => v.extend(b..b + x.body.len()),
            0xdb => v.extend((0..x.body.len()).step_by(65).map(|i| b + i)),
            0xc4 => v.extend(b..b + 17.min(x.body.len())),
            _ => {}
        }
    }
    v
}

/// segments of the alphabet
fn alphabet() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |n: String, p: Vec<u8>| v.push((n, p));
    let seg = |p: Part| {
        let mut o = vec![];
        p.bytes(&mut o);
        o
    };
    let q = dqts(&Image::color(8, 8, (1, 1)));
    add("DQT".into(), seg(q));
    let tabs: Tables = vec![((0, 0), Table::std(0, false)), ((1, 0), Table::std(1, false)), ((0, 1), Table::std(0, true)), ((1, 1), Table::std(1, true))];
    add("DHT".into(), seg(dht(&tabs)));
    add("DHT DC0 only".into(), seg(dht(&tabs[..1])));
    add("DHT AC0 flat".into(), seg(dht(&[((1, 0), Table::flat(&(0..=254u8).collect::<Vec<_>>()))])));
    for (kind, w, h) in [(0usize, 9usize, 9usize), (1, 8, 9), (2, 17, 9), (3, 9, 17), (4, 17, 33)] {
        let i = make(kind, w, h);
        add(format!("SOF0 {}", kind_name(kind)), seg(sof(&i, false)));
        add(format!("SOF2 {}", kind_name(kind)), seg(sof(&i, true)));
    }
    let g = Image::gray(8, 8);
    let c3 = Image::color(8, 8, (1, 1));
    let datas: [(&str, Vec<u8>); 3] = [("zeros", vec![0; 40]), ("ones", [0xff, 0].repeat(30)), ("mixed", (0..120u32).map(|i| (i * 37 + 11) as u8 & 0x7f).collect())];
    for (dn, dd) in &datas {
        for (nm, i, sc) in [
            ("SOS gray 0-63", &g, Scan::new(&[0], 0, 63, 0, 0)),
            ("SOS colour 0-63", &c3, Scan::new(&[0, 1, 2], 0, 63, 0, 0)),
            ("SOS gray DC", &g, Scan::new(&[0], 0, 0, 0, 1)),
            ("SOS colour DC", &c3, Scan::new(&[0, 1, 2], 0, 0, 0, 0)),
            ("SOS AC first", &g, Scan::new(&[0], 1, 63, 0, 1)),
            ("SOS AC refine", &g, Scan::new(&[0], 1, 63, 1, 0)),
            ("SOS DC refine", &c3, Scan::new(&[0, 1, 2], 0, 0, 1, 0)),
            ("SOS Cr AC", &c3, Scan::new(&[2], 1, 5, 0, 0)),
        ] {
            let mut p = sos(i, &sc);
            p.data = dd.clone();
            add(format!("{} {}", nm, dn), seg(p));
        }
    }
    for n in [0usize, 1, 2, 65535] {
        add(format!("DRI {}", n), seg(dri(n)));
    }
    add("APP".into(), seg(Part::seg(0xe1, vec![1, 2, 3])));
    add("SOI".into(), vec![0xff, 0xd8]);
    add("EOI".into(), vec![0xff, 0xd9]);
    add("RST".into(), vec![0xff, 0xd3]);
    add("DNL".into(), vec![0xff, 0xdc, 0, 4, 0, 9]);
    add("stray".into(), vec![0, 1, 2, 3]);
    add("FF".into(), vec![0xff]);
    v
}

fn run(c: &mut Ctx) {
    if c.pass.name.starts_with("checked") {
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let fast = c.pass.alloc == 0 && c.pass.build != "asan";
    let main = c.pass.name == "checked";
    let quick = c.quick();

    universe(c);
    if c.pass.name == "checked" || c.pass.name == "native" {
        long(c, &bases());
    }
    // ---- short strings
    if c.pass.name == "checked" || c.pass.name == "native" {
        c.case(
            || "all strings of length 0, 1, 2".into(),
            |c| {
                for o in [DEF, DEF.strict(true)] {
                    probe(c, &o, &[])?;
                    for a in 0..=255u8 {
                        probe(c, &o, &[a])?;
                        for b in 0..=255u8 {
                            probe(c, &o, &[a, b])?;
                            probe_h(c, &o, &[a, b])?;
                        }
                    }
                }
                Ok(())
            },
        );
        for a in 0..=255u8 {
            c.case(
                || format!("start marker, {:02x} and all continuations up to two more bytes", a),
                |c| {
                    let mut dec = zj::Decoder::new_with_options(DEF.zj());
                    for b in 0..=255u8 {
                        for k in 0..=255u8 {
                            let d = [0xff, 0xd8, a, b, k];
                            c.evals += 1;
                            for l in if k == 0 { 3..6 } else { 5..6 } {
                                let r = guard(|| dec.decode_buffer(&d[..l]).is_ok()).map_err(|p| format!("{:?}: panic: {}", &d[..l], p))?;
                                if r {
                                    return Err(format!("{:?} decodes", &d[..l]));
                                }
                            }
                        }
                        c.beat_now();
                    }
                    Ok(())
                },
            );
        }
    }
    // ---- one segment, every marker
    if fast {
        for m in 0..=255u8 {
            c.case(
                || format!("marker {:02x} with every small length and filling, cut everywhere", m),
                |c| {
                    for len in (0..24usize).chain([64, 67, 68, 69, 131, 132, 255, 256, 65535]) {
                        for fill in [0u8, 1, 2, 3, 8, 0x10, 0x11, 0x22, 0x43, 0x7f, 0xff] {
                            let mut d = vec![0xff, 0xd8, 0xff, m, (len >> 8) as u8, len as u8];
                            d.extend(std::iter::repeat(fill).take(if len < 300 { len + 4 } else { 40 }));
                            d.extend([0xff, 0xd9]);
                            probe(c, &opt(len + fill as usize), &d)?;
                            if fill == 1 || !quick {
                                for k in 2..d.len().min(40) {
                                    probe(c, &opt(k), &d[..k])?;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // ---- sequences of segments
    let guarded = c.pass.alloc != 0;
    if !(guarded && quick) {
        let al = alphabet();
        let n = al.len();
        let depth = if main || (fast && !quick) { 4 } else { 3 };
        let pre: Vec<Vec<u8>> = {
            // from the start, and after the tables
            let mut t = vec![0xff, 0xd8];
            t.extend(&al[0].1);
            t.extend(&al[1].1);
            vec![vec![0xff, 0xd8], t]
        };
        for (pi, pre) in pre.iter().enumerate() {
            for a in 0..n {
                for b in 0..n {
                    c.case(
                        || format!("sequences of {} segments after prefix {}: {}, {}, ...", depth, pi, al[a].0, al[b].0),
                        |c| {
                            let rest = n.pow(depth - 2);
                            for r in 0..rest {
                                let (x, y) = (r % n, r / n);
                                let mut d = pre.clone();
                                d.extend(&al[a].1);
                                d.extend(&al[b].1);
                                d.extend(&al[x].1);
                                if depth == 4 {
                                    d.extend(&al[y].1);
                                }
                                probe(c, &opt(a + b * 3 + r), &d)?;
                            }
                            c.count("segment_sequences", rest as u64);
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // ---- changes of model files
    let bs = bases();
    for (bi, (name, parts)) in bs.iter().enumerate() {
        let d0 = file(parts);
        // slow builds: one file of each process and sampling in the quick tier
        if quick && !main && bi % 6 != 0 && (guarded || bi % 6 != 3) && bi % 6 != 4 {
            continue;
        }
        for lo in (0..d0.len()).step_by(8) {
            c.case(
                || format!("{}: bytes {}..{} replaced by every value, removed, and values inserted", name, lo, lo + 8),
                |c| {
                    let mut reused = zj::Decoder::new_with_options(DEF.max(300, 300).zj());
                    for k in lo..(lo + 8).min(d0.len()) {
                        let mut d = d0.clone();
                        for v in 0..=255u8 {
                            if !fast && quick && !(v < 8 || v > 0xfc || v % 8 == 1 || (v & (v - 1)) == 0 || (0xc0..=0xdf).contains(&v)) {
                                continue;
                            }
                            d[k] = v;
                            probe(c, &opt5(k + v as usize * 3), &d)?;
                            if main && (v % 2 == 0 || !quick) {
                                c.note_input(&d);
                                c.evals += 1;
                                guard(|| reused.decode_buffer(&d).is_ok()).map_err(|p| format!("decoder used before: byte {} set to {:02x}: panic: {}", k, v, p))?;
                            }
                        }
                        d = d0.clone();
                        d.remove(k);
                        probe(c, &opt5(k), &d)?;
                        for v in [0u8, 1, 0x7f, 0xd0, 0xd9, 0xda, 0xff] {
                            d = d0.clone();
                            d.insert(k, v);
                            probe(c, &opt5(k + v as usize), &d)?;
                        }
                        // the rest replaced
                        for v in [0u8, 0x55, 0xff] {
                            d = d0.clone();
                            d[k..].fill(v);
                            probe(c, &opt5(k), &d)?;
                        }
                        // cut, with and without an end marker
                        d = d0[..k].to_vec();
                        probe(c, &opt5(k), &d)?;
                        probe_h(c, &opt(k), &d)?;
                        d.extend([0xff, 0xd9]);
                        probe(c, &opt5(k + 1), &d)?;
                        // cut in front: something else follows the start
                        d = vec![0xff, 0xd8];
                        d.extend(&d0[k..]);
                        probe(c, &opt5(k), &d)?;
                    }
                    Ok(())
                },
            );
        }
        // two structural bytes
        let st = structural(parts);
        let vals: &[u8] = if quick { &[0, 1, 2, 4, 0x11, 0x22, 0x3f, 0x80, 0xff] } else { &[0, 1, 2, 3, 4, 5, 8, 0x10, 0x11, 0x12, 0x21, 0x22, 0x3f, 0x40, 0x7f, 0x80, 0xc4, 0xda, 0xfe, 0xff] };
        if main || !quick {
            for i in 0..st.len() {
                c.case(
                    || format!("{}: structural byte {} and every later one", name, st[i]),
                    |c| {
                        let lim = if quick { st.len().min(i + 24) } else { st.len() };
                        for j in i + 1..lim {
                            for &x in vals {
                                for &y in vals {
                                    let mut d = d0.clone();
                                    d[st[i]] = x;
                                    d[st[j]] = y;
                                    probe(c, &opt5(i + j + x as usize), &d)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        // segments removed, doubled, exchanged
        c.case(
            || format!("{}: segments removed, doubled, moved", name),
            |c| {
                let n = parts.len();
                for i in 0..n {
                    for j in 0..n {
                        let mut p = parts.clone();
                        let x = p.remove(i);
                        probe(c, &opt5(i + j), &file(&p))?;
                        p.insert(j.min(n - 1), x.clone());
                        probe(c, &opt5(i + j), &file(&p))?;
                        let mut p = parts.clone();
                        p.insert(j, x);
                        probe(c, &opt5(i + j), &file(&p))?;
                    }
                }
                Ok(())
            },
        );
        // segments of other files between
        c.case(
            || format!("{}: segments of other files inserted", name),
            |c| {
                for (bj, (_, q)) in bs.iter().enumerate() {
                    for i in 0..=parts.len() {
                        for x in q.iter() {
                            let mut p = parts.clone();
                            p.insert(i, x.clone());
                            probe(c, &opt5(i + bj), &file(&p))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // ---- scan parameters and data
    let pats: Vec<Vec<u8>> = {
        let mut r = Rng(77);
        vec![
            vec![0; 300],
            [0xff, 0].repeat(200),
            vec![0xaa; 200],
            (0..400).map(|_| (r.next() >> 20) as u8).map(|b| if b == 255 { 254 } else { b }).collect(),
            vec![],
        ]
    };
    for kind in 0..5usize {
        for ss in (0..64u8).chain([64, 127, 128, 255]) {
            if quick && !main && ss > 3 && ss < 60 && ss % 8 != kind as u8 {
                continue;
            }
            c.case(
                || format!("{}: scans from coefficient {} to every other, every approximation", kind_name(kind), ss),
                |c| {
                    let img = make(kind, 17, 18);
                    let n = img.comps.len();
                    let tabs: Tables = (0..4u8).map(|i| ((i / 2, i % 2), Table::std(i / 2, i % 2 == 1))).collect();
                    let flat: Tables = vec![((0, 0), Table::flat(&(0..=11u8).collect::<Vec<_>>())), ((1, 0), Table::flat(&(0..=254u8).collect::<Vec<_>>()))];
                    for prog in [false, true] {
                        for se in (0..64u8).chain([64, 255]) {
                            if quick && se > 3 && se < 62 && (se as usize + ss as usize) % 7 != 0 {
                                continue;
                            }
                            for (ai, aa) in [0x00u8, 0x01, 0x10, 0x0d, 0x0e, 0x0f, 0xd0, 0x21, 0xff, 0xed, 0xd0 | 0xc, 0x0c].into_iter().enumerate() {
                                for (pi, pat) in pats.iter().enumerate() {
                                    if quick && (pi + ai + se as usize) % 2 == 1 {
                                        continue;
                                    }
                                    for all in [false, true] {
                                        if all && (n == 1 || (ss != 0 && quick)) {
                                            continue;
                                        }
                                        let cis: Vec<usize> = if all { (0..n).collect() } else { vec![(ai + se as usize) % n] };
                                        let t = if (pi + ai) % 3 == 0 { &flat } else { &tabs };
                                        let mut sc = Scan::new(&cis, ss, se, aa >> 4, aa & 15);
                                        if std::ptr::eq(t, &flat) {
                                            for x in sc.comps.iter_mut() {
                                                x.td = 0;
                                                x.ta = 0;
                                            }
                                        }
                                        let mut s = sos(&img, &sc);
                                        s.data = pat.clone();
                                        let mut parts = vec![soi(), dqts(&img), sof(&img, prog), dht(t)];
                                        if (ai + pi) % 4 == 0 {
                                            parts.push(dri(1 + ai));
                                        }
                                        // something to refine
                                        if aa >> 4 != 0 && prog {
                                            let mut f = sos(&img, &Scan::new(&cis[..1], 1, 63, 0, (aa >> 4).min(13)));
                                            f.body[2] = 0;
                                            f.data = pats[(pi + 1) % 4].clone();
                                            parts.push(f);
                                        }
                                        parts.push(s.clone());
                                        parts.push(s);
                                        parts.push(eoi());
                                        probe(c, &opt5(ai + pi + se as usize), &file(&parts))?;
                                        c.count("scan_parameter_files", 1);
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // ---- tables: every small profile, every symbol
    if fast || !quick {
        for l1 in 1..=16usize {
            c.case(
                || format!("Huffman profiles with the first code of length {}", l1),
                |c| {
                    let mut prof: Vec<[u8; 16]> = vec![[0; 16]];
                    for n1 in [1u8, 2, 3, 255] {
                        let mut a = [0u8; 16];
                        a[l1 - 1] = n1;
                        prof.push(a);
                        for l2 in 1..=16usize {
                            for n2 in [1u8, 2, 5, 200] {
                                let mut b = a;
                                b[l2 - 1] = b[l2 - 1].saturating_add(n2);
                                prof.push(b);
                            }
                        }
                    }
                    for (i, a) in prof.iter().enumerate() {
                        let total: usize = a.iter().map(|&x| x as usize).sum();
                        for first in [0u8, 1, 5, 11, 15, 16, 0x0f, 0xf0, 0xff, 0xe0, 0xfa] {
                            for cls in [0u8, 1] {
                                let mut body = vec![cls << 4];
                                body.extend(a);
                                body.extend((0..total).map(|k| first.wrapping_add((k as u8).wrapping_mul(17))));
                                for (pi, pat) in pats.iter().enumerate() {
                                    let prog = (i + pi) % 2 == 1;
                                    let img = Image::gray(17, 9);
                                    let mut parts = vec![soi(), dqts(&img), sof(&img, prog), dht(&[((1 - cls, 0), Table::std(1 - cls, false))]), Part::seg(0xc4, body.clone())];
                                    if prog {
                                        for sc in [Scan::new(&[0], 0, 0, 0, 0), Scan::new(&[0], 1, 63, 0, 1), Scan::new(&[0], 1, 63, 1, 0)] {
                                            let mut s = sos(&img, &sc);
                                            s.data = pat.clone();
                                            parts.push(s);
                                        }
                                    } else {
                                        let mut s = sos(&img, &Scan::new(&[0], 0, 63, 0, 0));
                                        s.data = pat.clone();
                                        parts.push(s);
                                    }
                                    parts.push(eoi());
                                    probe(c, &opt5(pi), &file(&parts))?;
                                    c.count("table_files", 1);
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // ---- all scan data of two bytes (and a marker in every position of longer data)
    for kind in 0..5usize {
        for prog in 0..4usize {
            if quick && !main && prog != 0 && prog != 3 {
                continue;
            }
            for hi in 0..=255u8 {
                if !fast && quick && hi % 8 != 7 {
                    continue;
                }
                c.case(
                    || format!("{} {}: all scan data that starts with {:02x}", kind_name(kind), ["baseline", "DC", "AC", "AC refinement"][prog], hi),
                    |c| {
                        let img = make(kind, 9, 9);
                        let n = img.comps.len();
                        let tabs: Tables = (0..4u8).map(|i| ((i / 2, i % 2), Table::std(i / 2, i % 2 == 1))).collect();
                        let sc = match prog {
                            0 => baseline_scan(&img, 0),
                            1 => Scan::new(&(0..n).collect::<Vec<_>>(), 0, 0, 0, 0),
                            2 => Scan::new(&[n - 1], 1, 63, 0, 0),
                            _ => Scan::new(&[n - 1], 1, 63, 1, 0),
                        };
                        let mut pre = vec![soi(), dqts(&img), sof(&img, prog != 0), dht(&tabs)];
                        if prog == 3 {
                            let mut f = sos(&img, &Scan::new(&[n - 1], 1, 63, 0, 1));
                            f.data = vec![0x5a; 60];
                            pre.push(f);
                        }
                        pre.push(sos(&img, &sc));
                        let pre = file(&pre);
                        for lo in 0..=255u8 {
                            for (ti, tail) in [&[][..], &[0xff, 0xd9], &[0xff, 0xd0, 0, 0, 0xff, 0xd9], &[0xff]].into_iter().enumerate() {
                                if quick && ti != 1 && (lo as usize + ti) % 4 != 0 {
                                    continue;
                                }
                                for rep in [1usize, 20] {
                                    let mut d = pre.clone();
                                    for _ in 0..rep {
                                        d.extend([hi, lo]);
                                    }
                                    d.extend(tail);
                                    probe(c, &opt5(lo as usize), &d)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // ---- sizes and sampling: well-formed files through every code path, all outputs
    let (mw, mh) = if quick { (40usize, if fast { 20usize } else { 18 }) } else { (130, 40) };
    for kind in 0..5usize {
        for w in 1..=mw {
            c.case(
                || format!("{} width {}: all outputs", kind_name(kind), w),
                |c| {
                    for h in [1usize, 2, 7, 8, 9, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 39, 40] {
                        if h > mh {
                            continue;
                        }
                        let img = filled(make(kind, w, h), (w + h) as u64);
                        let files = [baseline(&img), progressive(&img, &simple_script(&img))];
                        for (i, d) in files.iter().enumerate() {
                            for &cs in &CSS {
                                for us in [true, false] {
                                    if i == 1 && (cs as usize + w + h) % 3 != 0 {
                                        continue;
                                    }
                                    if !probe(c, &DEF.cs(cs).us(us).threads(1 + (w % 3) as u32), d)? {
                                        return Err(format!("{}x{} {:?}: a well-formed file does not decode", w, h, cs));
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // ---- declared sizes with little data
    for kind in 0..5usize {
        c.case(
            || format!("{}: declared sizes without data", kind_name(kind)),
            |c| {
                for &w in &[1usize, 7, 8, 9, 255, 256, 257, 1000, 4097, 16384, 65535] {
                    for &h in &[1usize, 8, 9, 255, 257, 1000, 16384, 65535] {
                        if w * h > c.pick(1_200_000, 20_000_000) {
                            continue;
                        }
                        for prog in [false, true] {
                            let img = make(kind, w, h);
                            let tabs: Tables = (0..4u8).map(|i| ((i / 2, i % 2), Table::std(i / 2, i % 2 == 1))).collect();
                            let mut parts = vec![soi(), dqts(&img), sof(&img, prog), dht(&tabs)];
                            let n = img.comps.len();
                            let mut s = sos(&img, &Scan::new(&(0..n).collect::<Vec<_>>(), 0, if prog { 0 } else { 63 }, 0, 0));
                            s.data = vec![0; 30];
                            parts.push(s);
                            parts.push(eoi());
                            probe(c, &DEF.max(65535, 65535).cs(CSS[(w + h) % 5]), &file(&parts))?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // ---- option records
    c.case(
        || "extreme options".into(),
        |c| {
            for (_, p) in &bs {
                let d = file(p);
                for &cs in &ALLCS {
                    for scans in [0usize, 1, 2, usize::MAX] {
                        for lim in [0u16, 1, 65535] {
                            for us in [true, false] {
                                for t in [1u32, 2, 9, 64] {
                                    if t > 2 && (lim == 0 || cs as u8 % 3 != 0) {
                                        continue;
                                    }
                                    let o = DEF.cs(cs).scans(scans).max(lim, lim).us(us).threads(t);
                                    probe(c, &o, &d)?;
                                    probe_h(c, &o, &d)?;
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    );
}

/// processor time that a long input of up to a megabyte may take; at most a third of a second is
/// usual, and work that grows with the square of the length takes much longer than this
const LONG_MS: u64 = 6_000;

/// a unit repeated very often at every place (recursion, quadratic work)
fn long(c: &mut Ctx, bs: &[(String, Vec<Part>)]) {
        let com = Part::seg(0xfe, vec![]);
        let mut units: Vec<(&str, Vec<u8>)> = vec![
            ("comment", file(&[com])),
            ("comment of 3 bytes", file(&[Part::seg(0xfe, vec![0xff, 0xd8, 0xff])])),
            ("application segment", file(&[Part::seg(0xe1, vec![1, 2])])),
            ("unknown marker segment", vec![0xff, 0x02, 0, 2]),
            ("fill byte", vec![0xff]),
            ("stray byte", vec![0x11]),
            ("stuffed byte", vec![0xff, 0]),
            ("zero byte", vec![0]),
            ("restart interval", file(&[dri(3)])),
            ("no restart interval", file(&[dri(0)])),
            ("Huffman table", file(&[dht(&[((1, 3), Table::flat(&[0, 1]))])])),
            ("empty table segment", vec![0xff, 0xc4, 0, 2]),
            ("start of image", vec![0xff, 0xd8]),
            ("end of image", vec![0xff, 0xd9]),
        ];
        let mut q = vec![3];
        q.extend([7; 64]);
        units.push(("quantisation table", file(&[Part::seg(0xdb, q)])));
        for m in 0..8 {
            units.push(("restart marker", vec![0xff, 0xd0 + m]));
        }
        let quick = c.quick();
        for (name, p) in bs.iter().filter(|b| quick.then(|| b.0.contains("gray") || b.0.contains("2x2")).unwrap_or(true)) {
            let f = p.iter().position(|x| x.marker == 0xda).unwrap();
            for (un, u) in &units {
                c.case(
                    || format!("{}: {} ({:02x?}) repeated", name, un, u),
                    |c| {
                        // places: before a segment, or within the data of a scan
                        let places: Vec<usize> = if c.quick() && !["fill byte", "comment"].contains(un) { vec![1, f, f + 1, p.len() - 1, p.len()] } else { (1..=p.len()).collect() };
                        let mut at: Vec<(Vec<u8>, Vec<u8>)> = places.iter().map(|&i| (file(&p[..i.min(p.len())]), file(&p[i.min(p.len())..]))).collect();
                        let (mut a, b) = (file(&p[..=f]), file(&p[f + 1..]));
                        let k = a.len() - p[f].data.len() / 2;
                        let mut tail = a.split_off(k);
                        tail.extend(b);
                        at.push((a, tail));
                        for (i, (a, b)) in at.iter().enumerate() {
                            for n in [1usize << c.pick(16, 17), 1 << c.pick(18, 21)] {
                                let n = n / (1 + u.len() / 8);
                                let mut d = a.clone();
                                d.extend(u.iter().cycle().take(n * u.len()));
                                d.extend(b);
                                let o = opt5(i + n).scans(usize::MAX);
                                let t = crate::sys::cpu_ms();
                                probe(c, &o, &d)?;
                                if i < 2 {
                                    probe_h(c, &o, &d)?;
                                }
                                let t = crate::sys::cpu_ms() - t;
                                if c.pass.alloc == 0 && c.pass.build == "release" {
                                    c.max("max_ms_for_a_long_input", t);
                                    if t > LONG_MS * (1 + d.len() as u64 >> 20).max(1) {
                                        return Err(format!("{} bytes take {} ms of processor time", d.len(), t));
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        // very many scans
        for kind in 0..5usize {
            c.case(
                || format!("{}: very many scans", kind_name(kind)),
                |c| {
                    let img = filled(make(kind, 9, 9), 5);
                    let e = encode(&img, true, &full_script(&img), &t_opt);
                    let f = e.parts.iter().position(|x| x.marker == 0xda).unwrap();
                    for i in f..e.parts.len() - 1 {
                        let mut d = file(&e.parts[..=i]);
                        let u = file(&e.parts[i..=i]);
                        d.extend(u.iter().cycle().take(u.len() * c.pick(1 << 14, 1 << 17)));
                        d.extend(file(&e.parts[i + 1..]));
                        probe(c, &opt5(i).scans(usize::MAX), &d)?;
                    }
                    Ok(())
                },
            );
        }
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    let step = match (c.quick(), c.pass.alloc == 0 && c.pass.build != "asan") {
        (true, true) => 3,
        (true, false) => 16,
        (false, true) => 1,
        (false, false) => 4,
    };
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let m = u.mix() + form + tabs * 3 + ri * 5;
            if m % step != 0 {
                return Ok(());
            }
            let k = m / step;
            let mut d = file(&e.parts);
            if !probe(c, &opt5(k), &d)? {
                return Err("does not decode".into());
            }
            // damaged: a bit, two bytes, cut
            let n = d.len();
            let (a, b) = (n * (k % 61) / 61, n * (k % 89) / 89);
            d[a] ^= 1 << (k % 8);
            probe(c, &opt(k), &d)?;
            d[b] = [0xff, 0, 0xd0, 0xda, 0x80][k % 5];
            probe(c, &opt5(k + 1), &d)?;
            probe(c, &opt5(k + 2), &d[..n * (k % 7) / 7])?;
            Ok(())
        })
    });
}
