//! An error names the fault, and header reading and decoding agree on it.
use super::c15::{bases, Base};
use super::common::*;
use super::*;
use crate::jpeg::*;
use zj::errors::{DecodeErrors as E, UnsupportedSchemes as U};

pub fn check() -> Check {
    Check {
        id: "C19",
        level: "exploration",
        rule: "states: model files (gray and four samplings; baseline, restarts, progressive) with one fault each: all 65535 wrong start markers; a frame header of every unsupported process instead of, before and after the real one and at every place before the first scan; zero dimensions; every faulty selector, precision, count and length of quantisation table, Huffman table, frame and scan segments; undefined codes; faults behind long headers (around every power of two); then every value of every header byte; transitions: decode (both modes) and header read; the kind of error must be the one of the fault, both entry points must report the same error for header faults, messages must not be empty; all 256 arguments of UnsupportedSchemes::from_int",
        assumptions: &[],
        passes: native_pass,
        run,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Magic(u16),
    Huff,
    Zero,
    Dqt,
    Sos,
    Sof,
    Unsup(&'static str),
    Mcu,
    Other,
}
fn scheme(u: U) -> &'static str {
    match u {
        U::ExtendedSequentialHuffman => "ExtendedSequentialHuffman",
        U::LosslessHuffman => "LosslessHuffman",
        U::ExtendedSequentialDctArithmetic => "ExtendedSequentialDctArithmetic",
        U::ProgressiveDctArithmetic => "ProgressiveDctArithmetic",
        U::LosslessArithmetic => "LosslessArithmetic",
    }
}
const SCHEMES: [(u8, &str); 5] = [
    (0xc1, "ExtendedSequentialHuffman"),
    (0xc3, "LosslessHuffman"),
    (0xc9, "ExtendedSequentialDctArithmetic"),
    (0xca, "ProgressiveDctArithmetic"),
    (0xcb, "LosslessArithmetic"),
];
fn kind(e: &E) -> K {
    match e {
        E::IllegalMagicBytes(v) => K::Magic(*v),
        E::HuffmanDecode(_) => K::Huff,
        E::ZeroError => K::Zero,
        E::DqtError(_) => K::Dqt,
        E::SosError(_) => K::Sos,
        E::SofError(_) => K::Sof,
        E::Unsupported(u) => K::Unsup(scheme(*u)),
        E::MCUError(_) => K::Mcu,
        _ => K::Other,
    }
}
type Out = Result<(), (K, String)>;

fn run_one(c: &mut Ctx, o: &Opt, d: &[u8], headers: bool) -> Result<Out, String> {
    c.evals += 1;
    c.seen(&(headers, o.strict), d);
    c.note_input(d);
    let r = guard(|| {
        let mut dec = zj::Decoder::new_with_options(o.zj());
        if headers {
            dec.read_headers(d)
        } else {
            dec.decode_buffer(d).map(|_| ())
        }
        .map_err(|e| {
            // the reason itself, without the text every error of its kind begins with
            let reason = match &e {
                E::Format(m) | E::HuffmanDecode(m) | E::DqtError(m) | E::SosError(m) | E::SofError(m) | E::MCUError(m) => m.as_str(),
                E::FormatStatic(m) => m,
                _ => "-",
            };
            let ok = reason.chars().any(|x| !x.is_whitespace());
            let (a, b) = (format!("{}", e), format!("{:?}", e));
            (kind(&e), if ok { a } else { String::new() }, b)
        })
    })
    .map_err(|p| format!("panic: {}", p))?;
    match r {
        Ok(()) => Ok(Ok(())),
        Err((k, a, b)) => {
            if a.trim().is_empty() || b.trim().is_empty() {
                return Err(format!("error {:?} has an empty message: display {:?}, debug {:?}", k, a, b));
            }
            Ok(Err((k, a)))
        }
    }
}
fn expect(c: &mut Ctx, d: &[u8], in_headers: bool, want: &[K], what: &dyn Fn() -> String) -> Result<(), String> {
    for strict in [false, true] {
        let mut first: Option<(K, String)> = None;
        for h in [true, false] {
            if h && !in_headers {
                continue;
            }
            let call = if h { "read_headers" } else { "decode_buffer" };
            match run_one(c, &DEF.strict(strict), d, h)? {
                Ok(()) => return Err(format!("{}: {} (strict={}) reports no error", what(), call, strict)),
                Err((k, m)) => {
                    if !want.contains(&k) {
                        return Err(format!("{}: {} (strict={}) reports {:?} ({}), expected {:?}", what(), call, strict, k, m, want));
                    }
                    match &first {
                        Some(f) if *f != (k, m.clone()) => return Err(format!("{}: {} (strict={}) reports {:?} ({}), the other call {:?} ({})", what(), call, strict, k, m, f.0, f.1)),
                        _ => first = Some((k, m)),
                    }
                }
            }
        }
    }
    c.count("validated", 1);
    Ok(())
}
fn put(b: &Base, at: usize, p: Part) -> Vec<u8> {
    let mut v = b.parts.clone();
    v.insert(at, p);
    file(&v)
}

fn run(c: &mut Ctx) {
    c.case(
        || "every argument of UnsupportedSchemes::from_int".into(),
        |c| {
            for v in 0..=255u8 {
                c.evals += 1;
                let g = U::from_int(v).map(scheme);
                let w = SCHEMES.iter().find(|s| s.0 == v).map(|s| s.1);
                if g != w {
                    return Err(format!("from_int({:#x}) is {:?}, expected {:?}", v, g, w));
                }
            }
            Ok(())
        },
    );
    for b in &bases() {
        let first = b.parts.iter().position(|p| p.marker == 0xda).unwrap();
        let f = b.parts.iter().position(|p| p.marker == 0xc0 || p.marker == 0xc2).unwrap();
        for hi in 0..16u16 {
            c.case(
                || format!("{}: start markers {:x}000..{:x}fff", b.name, hi, hi),
                |c| {
                    let d0 = file(&b.parts);
                    for lo in 0..4096u16 {
                        let v = hi << 12 | lo;
                        if v == 0xffd8 || c.quick() && hi != 15 && lo & 0xff > 2 && lo & 0xff != 0xd8 {
                            continue;
                        }
                        let mut d = d0.clone();
                        d[..2].copy_from_slice(&v.to_be_bytes());
                        expect(c, &d, true, &[K::Magic(v)], &|| format!("start marker {:04x}", v))?;
                    }
                    Ok(())
                },
            );
        }
        c.case(
            || format!("{}: unsupported processes", b.name),
            |c| {
                for (m, name) in SCHEMES {
                    for at in 1..=first {
                        for alone in [true, false] {
                            // the frame header moved (alone) or copied to `at` under another marker
                            let mut p = b.parts.clone();
                            let mut x = p[f].clone();
                            x.marker = m;
                            p.insert(at, x);
                            if alone {
                                p.remove(if at <= f { f + 1 } else { f });
                            }
                            expect(c, &file(&p), true, &[K::Unsup(name)], &|| format!("frame header {:02x} before segment {} (only one: {})", m, at, alone))?;
                        }
                        // whatever it contains
                        for body in [vec![], vec![0], vec![8, 0, 0, 0, 0, 0], vec![12, 0, 1, 0, 1, 4, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0, 4, 0x11, 0]] {
                            let d = put(b, at, Part::seg(m, body.clone()));
                            expect(c, &d, true, &[K::Unsup(name)], &|| format!("frame header {:02x} with body {:?} before segment {}", m, body, at))?;
                        }
                    }
                    if b.prog {
                        for at in first + 1..b.parts.len() {
                            let mut x = b.parts[f].clone();
                            x.marker = m;
                            expect(c, &put(b, at, x), false, &[K::Unsup(name)], &|| format!("frame header {:02x} before segment {}", m, at))?;
                        }
                    }
                }
                Ok(())
            },
        );
        c.case(
            || format!("{}: frame header fields", b.name),
            |c| {
                let with = |g: &dyn Fn(&mut Part)| {
                    let mut p = b.parts.clone();
                    g(&mut p[f]);
                    file(&p)
                };
                for n in 0..=256usize {
                    let v = (n as u16 * 255).to_be_bytes();
                    if n < 2 || n == 64 {
                        // the other dimension may be anything within the limits
                        expect(c, &with(&|p| { p.body[1..3].fill(0); p.body[3..5].copy_from_slice(&v) }), true, &[K::Zero], &|| "height 0".into())?;
                        expect(c, &with(&|p| { p.body[3..5].fill(0); p.body[1..3].copy_from_slice(&v) }), true, &[K::Zero], &|| "width 0".into())?;
                    }
                }
                for v in 0..=255u8 {
                    if v != 8 {
                        expect(c, &with(&|p| p.body[0] = v), true, &[K::Sof], &|| format!("precision {}", v))?;
                    }
                    if v as usize != b.img.comps.len() {
                        expect(c, &with(&|p| p.body[5] = v), true, &[K::Sof], &|| format!("component count {}", v))?;
                        if v != 1 && v != 3 {
                            let d = with(&|p| {
                                p.body[5] = v;
                                p.body.truncate(6);
                                for i in 0..v as usize {
                                    p.body.extend([1 + (i % 255) as u8, 0x11, 0]);
                                }
                            });
                            expect(c, &d, true, &[K::Sof], &|| format!("{} components", v))?;
                        }
                    }
                }
                for extra in 1..=c.pick(40usize, 400) {
                    expect(c, &with(&|p| p.body.extend(vec![1; extra])), true, &[K::Sof], &|| format!("frame header {} bytes too long", extra))?;
                }
                // two components exchanged
                let n = b.img.comps.len();
                for i in 0..n {
                    for id in 1..=3u8 {
                        if id as usize != i + 1 {
                            expect(c, &with(&|p| p.body[6 + 3 * i] = id), true, &[K::Sof], &|| format!("component {} has id {}", i, id))?;
                        }
                    }
                }
                // a second frame header
                for at in 1..=first {
                    for m in [0xc0u8, 0xc2] {
                        let mut x = b.parts[f].clone();
                        x.marker = m;
                        expect(c, &put(b, at, x), true, &[K::Sof], &|| format!("second frame header {:02x} before segment {}", m, at))?;
                    }
                }
                // none
                let mut p = b.parts.clone();
                p.remove(f);
                expect(c, &file(&p), true, &[K::Sof], &|| "no frame header".into())
            },
        );
        c.case(
            || format!("{}: quantisation tables", b.name),
            |c| {
                for at in 1..=first {
                    for v in 0..=255u8 {
                        if v & 15 > 3 || v >> 4 != 0 {
                            for n in [64usize, 128] {
                                let mut body = vec![v];
                                body.extend(vec![1; n]);
                                expect(c, &put(b, at, Part::seg(0xdb, body)), true, &[K::Dqt], &|| format!("quantisation table {:02x} with {} bytes before segment {}", v, n, at))?;
                            }
                        }
                    }
                    for n in 1..=200usize {
                        if n % 65 != 0 {
                            let mut body = vec![1u8; n];
                            for k in (0..n).step_by(65) {
                                body[k] = 3;
                            }
                            expect(c, &put(b, at, Part::seg(0xdb, body)), true, &[K::Dqt], &|| format!("quantisation table segment with {} bytes before segment {}", n, at))?;
                        }
                    }
                }
                // missing
                let mut p = b.parts.clone();
                p.retain(|x| x.marker != 0xdb);
                expect(c, &file(&p), true, &[K::Dqt], &|| "no quantisation table".into())
            },
        );
        c.case(
            || format!("{}: Huffman tables", b.name),
            |c| {
                let table = |info: u8, counts: &[u8], syms: usize| {
                    let mut v = vec![info];
                    let mut l = [0u8; 16];
                    l[..counts.len()].copy_from_slice(counts);
                    v.extend(l);
                    v.extend((0..syms).map(|i| i as u8));
                    v
                };
                for at in 1..=first {
                    for v in 0..=255u8 {
                        if v & 15 > 3 || v >> 4 > 1 {
                            expect(c, &put(b, at, Part::seg(0xc4, table(v, &[0, 1], 1))), true, &[K::Huff], &|| format!("Huffman table {:02x} before segment {}", v, at))?;
                        }
                    }
                    for info in [0u8, 3, 0x10, 0x13] {
                        // fewer symbols than counted, bytes left over
                        for n in 0..8usize {
                            expect(c, &put(b, at, Part::seg(0xc4, table(info, &[0, 0, 0, 8], n))), true, &[K::Huff], &|| format!("Huffman table {:02x} with 8 codes and {} symbols", info, n))?;
                        }
                        for n in 1..=16usize {
                            expect(c, &put(b, at, Part::seg(0xc4, table(info, &[0, 0, 0, 8], 8 + n))), true, &[K::Huff], &|| format!("Huffman table {:02x} followed by {} bytes", info, n))?;
                        }
                        // too many codes of a length
                        for l in 0..8usize {
                            for k in [(1usize << (l + 1)) + 1, 2 << l.min(7), 200] {
                                if k > (1 << (l + 1)) && k < 256 {
                                    let mut cn = [0u8; 16];
                                    cn[l] = k as u8;
                                    expect(c, &put(b, at, Part::seg(0xc4, table(info, &cn, k))), true, &[K::Huff], &|| format!("Huffman table {:02x} with {} codes of {} bits", info, k, l + 1))?;
                                }
                            }
                        }
                        // more than 256 codes
                        expect(c, &put(b, at, Part::seg(0xc4, table(info, &[0, 0, 0, 0, 0, 0, 0, 0, 100, 100, 100], 300))), true, &[K::Huff], &|| "Huffman table with 300 codes".into())?;
                    }
                }
                if !b.prog {
                    let mut p = b.parts.clone();
                    p.retain(|x| x.marker != 0xc4);
                    expect(c, &file(&p), false, &[K::Huff], &|| "no Huffman table".into())?;
                }
                // an undefined code: only one bits follow
                for (k, part) in b.parts.iter().enumerate() {
                    if part.marker == 0xda && (!b.prog || k == first) {
                        for at in 0..=(part.data.len() / 2).min(12) {
                            if at > 0 && part.data[at - 1] == 0xff {
                                continue;
                            }
                            let mut p = b.parts.clone();
                            p[k].data.truncate(at);
                            for _ in 0..12 {
                                p[k].data.extend([0xff, 0]);
                            }
                            expect(c, &file(&p), false, &[K::Huff], &|| format!("undefined code at byte {} of the data", at))?;
                        }
                    }
                }
                Ok(())
            },
        );
        c.case(
            || format!("{}: scan header fields", b.name),
            |c| {
                let with = |k: usize, g: &dyn Fn(&mut Vec<u8>)| {
                    let mut p = b.parts.clone();
                    g(&mut p[k].body);
                    file(&p)
                };
                let n = b.img.comps.len();
                for (k, part) in b.parts.iter().enumerate() {
                    if part.marker != 0xda {
                        continue;
                    }
                    let ns = part.body[0] as usize;
                    let h = k == first;
                    for v in 0..=255u8 {
                        if v as usize != ns {
                            expect(c, &with(k, &|p| p[0] = v), h, &[K::Sos, K::Sof], &|| format!("scan at segment {}: {} components in an unchanged header", k, v))?;
                        }
                        for i in 0..ns {
                            if v == 0 || v as usize > n {
                                expect(c, &with(k, &|p| p[1 + 2 * i] = v), h, &[K::Sos, K::Sof], &|| format!("scan at segment {} names component {}", k, v))?;
                            }
                            if v >> 4 > 3 || v & 15 > 3 {
                                expect(c, &with(k, &|p| p[2 + 2 * i] = v), h, &[K::Sos, K::Sof], &|| format!("scan at segment {} has table selectors {:02x}", k, v))?;
                            }
                        }
                        if v >> 4 > 13 || v & 15 > 13 {
                            expect(c, &with(k, &|p| *p.last_mut().unwrap() = v), h, &[K::Sos, K::Sof], &|| format!("scan at segment {} has bit positions {:02x}", k, v))?;
                        }
                    }
                    for extra in 1..40 {
                        expect(c, &with(k, &|p| p.extend(vec![0; extra])), h, &[K::Sos, K::Sof], &|| format!("scan header {} bytes too long", extra))?;
                    }
                    for cut in 1..part.body.len() {
                        expect(c, &with(k, &|p| p.truncate(cut)), h, &[K::Sos, K::Sof], &|| format!("scan header of {} bytes", cut))?;
                    }
                }
                if !b.prog && n == 3 {
                    for cis in [vec![0usize], vec![0, 1]] {
                        let e = encode(&b.img, false, &[Scan::new(&cis, 0, 63, 0, 0)], &t_std).parts;
                        expect(c, &file(&e), false, &[K::Sos], &|| format!("baseline scan of components {:?}", cis))?;
                    }
                }
                Ok(())
            },
        );
        // the same faults behind long headers
        for size in pad_sizes(c.quick()) {
            c.case(
                || format!("{}: faults behind {} bytes of other segments", b.name, size),
                |c| {
                    let mut q = padding(size);
                    let n = q.len();
                    let mut base = b.parts.clone();
                    q.extend(base.drain(1..));
                    base.extend(q);
                    let (f, first) = (f + n, first + n);
                    let with = |k: usize, g: &dyn Fn(&mut Part)| {
                        let mut p = base.clone();
                        g(&mut p[k]);
                        file(&p)
                    };
                    let mut two = base.clone();
                    two.insert(first, base[f].clone());
                    let none = |m: u8| file(&base.iter().filter(|x| x.marker != m).cloned().collect::<Vec<_>>());
                    let put = |x: Part| {
                        let mut p = base.clone();
                        p.insert(first, x);
                        file(&p)
                    };
                    for (what, d, want) in [
                        ("width 0", with(f, &|p| p.body[3..5].fill(0)), &[K::Zero][..]),
                        ("precision 12", with(f, &|p| p.body[0] = 12), &[K::Sof]),
                        ("two frame headers", file(&two), &[K::Sof]),
                        ("no quantisation table", none(0xdb), &[K::Dqt]),
                        ("lossless process", with(f, &|p| p.marker = 0xc3), &[K::Unsup("LosslessHuffman")]),
                        ("16-bit quantisation table", put(Part::seg(0xdb, vec![0x10; 129])), &[K::Dqt]),
                        ("short Huffman table", put(Part::seg(0xc4, vec![1; 20])), &[K::Huff]),
                        ("scan of five components", with(first, &|p| p.body[0] = 5), &[K::Sos, K::Sof]),
                    ] {
                        expect(c, &d, true, want, &|| what.to_string())?;
                    }
                    // and none
                    for strict in [false, true] {
                        let d = file(&base);
                        let h = run_one(c, &DEF.strict(strict), &d, true)?;
                        let g = run_one(c, &DEF.strict(strict), &d, false)?;
                        if h.is_err() || g.is_err() {
                            return Err(format!("no fault: read_headers {:?}, decode_buffer {:?}", h, g));
                        }
                    }
                    Ok(())
                },
            );
        }
        // every value of every header byte: the two entry points agree
        let d0 = file(&b.parts);
        let mut head = 0;
        for p in &b.parts[..=first] {
            head += 2 + p.lead.len() + if p.marker == 0xd8 { 0 } else { 2 + p.body.len() };
        }
        for at in 0..head {
            c.case(
                || format!("{}: every value of header byte {}", b.name, at),
                |c| {
                    for v in 0..=255u8 {
                        let mut d = d0.clone();
                        d[at] = v;
                        for strict in [false, true] {
                            let h = run_one(c, &DEF.strict(strict), &d, true)?;
                            let f = run_one(c, &DEF.strict(strict), &d, false)?;
                            if h.is_err() && h != f {
                                return Err(format!("byte {} = {:02x}: read_headers reports {:?}, decode_buffer {:?}", at, v, h, f));
                            }
                        }
                        c.count("validated", 1);
                    }
                    let h = run_one(c, &DEF, &d0[..at], true)?;
                    let f = run_one(c, &DEF, &d0[..at], false)?;
                    if h.is_err() && h != f {
                        return Err(format!("cut at {}: read_headers reports {:?}, decode_buffer {:?}", at, h, f));
                    }
                    Ok(())
                },
            );
        }
    }
}
