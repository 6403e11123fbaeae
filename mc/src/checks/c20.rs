//! A call leaves nothing behind: memory, open files.
use super::common::*;
use super::*;
use crate::alloc as al;
use crate::jpeg::*;
use std::sync::atomic::Ordering::Relaxed;

pub fn check() -> Check {
    Check {
        id: "C20",
        level: "model_checking",
        rule: "states: call histories (header read, decode from memory, decode from a file) over model files of every process, sampling and output layout, every cut and every value of every byte of small files, refused sizes, scans and colourspaces; long headers and trailing data (sizes around powers of two), images of up to 2^18 MCUs; the same call many times over in every header layout; transitions: calls on a new and on a kept decoder; after the result and the decoder are dropped the accounting allocator must show no growth from one repetition to the next, a kept decoder must hold no more than a constant, and the number of open file descriptors must not change",
        assumptions: &["one-time initialisation is excluded by comparing repetitions"],
        passes: native_pass,
        run,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Headers,
    Decode,
}
fn live() -> usize {
    al::CUR.load(Relaxed)
}
/// what a decoder may keep between calls
const KEEP: usize = 512 << 10;

fn call(d: &mut zj::Decoder, how: How, data: &[u8]) -> bool {
    match how {
        How::Headers => d.read_headers(data).is_ok(),
        How::Decode => d.decode_buffer(data).is_ok(),
    }
}
/// heap growth of one call with everything dropped, and what the decoder kept
fn once(o: &Opt, how: How, data: &[u8]) -> Result<(isize, usize, bool), String> {
    guard(|| {
        let a = live();
        let mut d = zj::Decoder::new_with_options(o.zj());
        let ok = call(&mut d, how, data);
        let kept = live().saturating_sub(a);
        drop(d);
        (live() as isize - a as isize, kept, ok)
    })
    .map_err(|p| format!("panic: {}", p))
}
fn check_one(c: &mut Ctx, o: &Opt, how: How, data: &[u8], reps: usize) -> Result<bool, String> {
    c.evals += 1;
    c.seen(&(how as u8, o.cs as u8, o.us, o.strict), data);
    c.note_input(data);
    let (mut g, kept, ok) = once(o, how, data)?;
    if g != 0 {
        // not if it is something that is set up once
        for _ in 0..reps {
            g = once(o, how, data)?.0;
            if g == 0 {
                break;
            }
        }
    }
    c.count("validated", 1);
    c.max("max_bytes_kept_by_a_decoder", kept as u64);
    if g > 0 {
        return Err(format!("{:?} ({}) leaves {} bytes allocated after the decoder and the result are dropped", how, if ok { "successful" } else { "failed" }, g));
    }
    if kept > KEEP {
        return Err(format!("after {:?} ({}) the decoder holds {} bytes", how, if ok { "successful" } else { "failed" }, kept));
    }
    Ok(ok)
}
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn corpus(kind: usize, w: usize, h: usize) -> Vec<(String, Vec<Part>)> {
    let img = filled(make(kind, w, h), 5);
    let n = img.mcus();
    let mut v = vec![];
    for (name, prog, scans) in [
        ("baseline", false, vec![baseline_scan(&img, 0)]),
        ("baseline with restarts", false, vec![baseline_scan(&img, 1 + n / 3)]),
        ("progressive", true, simple_script(&img)),
        ("progressive with refinement", true, full_script(&img)),
    ] {
        v.push((format!("{} {}x{} {}", kind_name(kind), w, h, name), encode(&img, prog, &scans, &t_opt).parts));
    }
    v
}

fn run(c: &mut Ctx) {
    universe(c);
    // geometry
    let m = c.pick(26usize, 66);
    for kind in 0..5 {
        for w in 1..=m {
            c.case(
                || format!("{} width {}, all heights to {}", kind_name(kind), w, m),
                |c| {
                    for h in 1..=m {
                        for (_, p) in corpus(kind, w, h) {
                            let d = file(&p);
                            for (i, cs) in [Cs::RGB, Cs::GRAYSCALE, Cs::YCbCr, Cs::RGBA, Cs::RGBX, Cs::CMYK, Cs::YCCK].into_iter().enumerate() {
                                let o = DEF.cs(cs).us((w + h + i) % 2 == 0).strict(i % 2 == 0);
                                check_one(c, &o, How::Decode, &d, 2).map_err(|e| format!("{}x{} to {:?}: {}", w, h, cs, e))?;
                            }
                            check_one(c, &DEF, How::Headers, &d, 2).map_err(|e| format!("{}x{}: {}", w, h, e))?;
                            for t in [1u32, 2, 9, 40] {
                                check_one(c, &DEF.threads(t), How::Decode, &d, 2).map_err(|e| format!("{}x{} with {} threads: {}", w, h, t, e))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // large ones
    for kind in 0..5 {
        for (w, h) in [(1000, 40), (40, 1000), (640, 480), (2050, 17), (16384, 9), (9, 16384)] {
            c.case(
                || format!("{} {}x{}", kind_name(kind), w, h),
                |c| {
                    for (name, p) in corpus(kind, w, h) {
                        let d = file(&p);
                        for cs in [Cs::RGB, Cs::GRAYSCALE, Cs::YCbCr] {
                            check_one(c, &DEF.cs(cs), How::Decode, &d, 2).map_err(|e| format!("{}: {}", name, e))?;
                        }
                        // refused
                        check_one(c, &DEF.max(8, 8), How::Decode, &d, 2).map_err(|e| format!("{} over the limits: {}", name, e))?;
                        check_one(c, &DEF.scans(1), How::Decode, &d, 2).map_err(|e| format!("{} with too many scans: {}", name, e))?;
                        for cut in [d.len() / 3, d.len() / 2, d.len() * 2 / 3, d.len() - 3] {
                            check_one(c, &DEF, How::Decode, &d[..cut], 2).map_err(|e| format!("{} cut at {}: {}", name, cut, e))?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // long headers
    for kind in 0..5 {
        for size in pad_sizes(c.quick()) {
            c.case(
                || format!("{}: {} bytes of other segments in the headers", kind_name(kind), size),
                |c| {
                    for (i, (name, p)) in corpus(kind, 20, 9).into_iter().enumerate() {
                        let sos = p.iter().position(|x| x.marker == 0xda).unwrap();
                        let mut q = p.clone();
                        let at = [1, sos][i & 1];
                        q.splice(at..at, padding(size));
                        let d = file(&q);
                        for how in [How::Decode, How::Headers] {
                            for strict in [false, true] {
                                check_one(c, &DEF.strict(strict), how, &d, 2).map_err(|e| format!("{}: {}", name, e))?;
                            }
                        }
                        check_one(c, &DEF, How::Decode, &d[..size], 2).map_err(|e| format!("{} cut at {}: {}", name, size, e))?;
                        // and behind the end
                        let mut d = file(&p);
                        d.resize(d.len() + size, 0x55);
                        check_one(c, &DEF, How::Decode, &d, 2).map_err(|e| format!("{} with {} more bytes: {}", name, size, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // much entropy-coded data
    for (kind, w, h) in [(0usize, 4096usize, 4096usize), (1, 2048, 1024), (2, 1024, 4096), (3, 4096, 2048), (4, 2048, 4096)] {
        for prog in [false, true] {
            for ri in [0usize, 1, 64] {
                c.case(
                    || format!("{} {}x{} progressive {} restart interval {}", kind_name(kind), w, h, prog, ri),
                    |c| {
                        let d = mosaic(kind, prog, w, h, ri);
                        let o = DEF.cs(Cs::GRAYSCALE).max(65535, 65535);
                        if !check_one(c, &o, How::Decode, &d, 2)? {
                            return Err("decode fails".into());
                        }
                        check_one(c, &o, How::Decode, &d[..d.len() / 2], 2)?;
                        check_one(c, &o, How::Headers, &d, 2)?;
                        Ok(())
                    },
                );
            }
        }
    }
    // every cut and every value of every byte
    for kind in 0..5 {
        for (name, p) in corpus(kind, 9, 17) {
            let d0 = file(&p);
            for at in 0..d0.len() {
                c.case(
                    || format!("{}: byte {} replaced, cut before it", name, at),
                    |c| {
                        for v in 0..=255u8 {
                            let mut d = d0.clone();
                            d[at] = v;
                            let o = DEF.strict(v & 1 == 1);
                            check_one(c, &o, How::Decode, &d, 2).map_err(|e| format!("byte {} = {:02x}: {}", at, v, e))?;
                            if v & 15 == 7 || !c.quick() {
                                check_one(c, &o, How::Headers, &d, 2).map_err(|e| format!("byte {} = {:02x}: {}", at, v, e))?;
                            }
                        }
                        for how in [How::Decode, How::Headers] {
                            check_one(c, &DEF, how, &d0[..at], 2).map_err(|e| format!("cut at {}: {}", at, e))?;
                        }
                        let mut d = d0.clone();
                        d.remove(at);
                        check_one(c, &DEF, How::Decode, &d, 2).map_err(|e| format!("byte {} removed: {}", at, e))?;
                        Ok(())
                    },
                );
            }
        }
    }
    // a kept decoder: every history of a small alphabet, each repeated; it must not grow
    let mut files: Vec<Vec<u8>> = vec![];
    let mut plain: Vec<Vec<Part>> = vec![];
    for (kind, w, h) in [(0usize, 33usize, 9usize), (1, 20, 20), (2, 40, 17), (4, 70, 50)] {
        for (_, p) in corpus(kind, w, h) {
            files.push(file(&p));
            plain.push(p);
        }
    }
    let half: Vec<Vec<u8>> = files.iter().map(|f| f[..f.len() * 2 / 3].to_vec()).collect();
    files.extend(half);
    files.push(vec![]);
    files.push(b"no image".to_vec());
    let n = files.len();
    for a in 0..n {
        c.case(
            || format!("histories on one decoder starting with file {}", a),
            |c| {
                for b in 0..n {
                    for how in [How::Decode, How::Headers] {
                        for third in if c.quick() { (b..n).step_by(7).collect::<Vec<_>>() } else { (0..n).collect() } {
                            c.evals += 1;
                            c.seen(&(a, b, third, how as u8), &[]);
                            let r = guard(|| {
                                let start = live();
                                let mut d = zj::Decoder::new_with_options(DEF.zj());
                                let mut held = [0usize; 5];
                                for k in 0..5 {
                                    call(&mut d, How::Decode, &files[a]);
                                    call(&mut d, how, &files[b]);
                                    call(&mut d, How::Decode, &files[third]);
                                    held[k] = live() - start;
                                }
                                drop(d);
                                (held, live() as isize - start as isize)
                            })
                            .map_err(|p| format!("panic: {}", p))?;
                            c.count("validated", 1);
                            let (held, left) = r;
                            if held[4] > held[1] && held[4] > held[2] && held[4] > held[3] {
                                return Err(format!("files {}, {}, {} again and again ({:?}): the decoder holds {:?} bytes", a, b, third, how, held));
                            }
                            if held.iter().any(|&h| h > KEEP) {
                                return Err(format!("files {}, {}, {} ({:?}): the decoder holds {:?} bytes", a, b, third, how, held));
                            }
                            if left > 0 && once(&DEF, How::Decode, &files[a])?.0 > 0 {
                                return Err(format!("files {}, {}, {} ({:?}): {} bytes are left", a, b, third, how, left));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // many calls: something that grows by doubling, or only now and then
    for (i, f) in files.iter().enumerate() {
        for l in if i < files.len() / 2 - 1 { 0..uni::LAYOUTS } else { 0..1 } {
            c.case(
                || format!("many calls with file {} in layout {}", i, l),
                |c| {
                    let parts = if l > 0 { file(&uni::layout(&plain[i], l)) } else { f.clone() };
                    for how in [How::Headers, How::Decode] {
                        let n = if how == How::Headers { 4096 } else { c.pick(256usize, 2048) };
                        let mut at = [0usize; 4];
                        let mut k = 0;
                        for (j, a) in at.iter_mut().enumerate() {
                            while k < n << j {
                                let r = guard(|| {
                                    let mut d = zj::Decoder::new_with_options(DEF.zj());
                                    call(&mut d, how, &parts);
                                });
                                r.map_err(|p| format!("panic: {}", p))?;
                                k += 1;
                                c.evals += 1;
                            }
                            *a = live();
                        }
                        c.seen(&(l, how as u8, n), &parts);
                        c.count("validated", 1);
                        if at[0] < at[1] && at[1] < at[2] && at[2] < at[3] {
                            return Err(format!("{:?}: {} bytes are in use after {} calls, then {:?} after 2, 4 and 8 times as many", how, at[0], n, &at[1..]));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // files on disk
    c.case(
        || "decode_file leaves no memory and no open file".into(),
        |c| {
            let dir = std::env::temp_dir().join(format!("mc-c20-{}", std::process::id()));
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let r = (|| {
                for (i, f) in files.iter().enumerate() {
                    let p = dir.join(format!("{}.jpg", i));
                    std::fs::write(&p, f).map_err(|e| e.to_string())?;
                    for path in [p.clone(), dir.clone(), dir.join("missing.jpg")] {
                        let mut grow = [0isize; 4];
                        let n0 = fds();
                        for g in grow.iter_mut() {
                            c.evals += 1;
                            let a = live();
                            let _ = guard(|| zj::Decoder::new().decode_file(&path).is_ok()).map_err(|p| format!("panic: {}", p))?;
                            *g = live() as isize - a as isize;
                        }
                        c.count("validated", 1);
                        if fds() != n0 {
                            return Err(format!("{}: {} files are open instead of {}", path.display(), fds(), n0));
                        }
                        if grow[1..].iter().all(|&g| g > 0) {
                            return Err(format!("{}: decode_file leaves {:?} bytes", path.display(), grow));
                        }
                    }
                }
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&dir);
            r
        },
    );
}

/// the common universe (uni.rs)
fn universe(c: &mut Ctx) {
    uni::images(c, |c, u, img| {
        uni::files(c, u, img, 0..uni::FORMS, |c, form, tabs, ri, e| {
            let m = u.mix() + form + tabs * 3 + ri * 5;
            let o = DEF.cs(CSS[m % 5]).us(m % 2 == 0).strict(m % 3 == 0).threads([4, 1, 3][m % 3]);
            let mut d = file(&uni::layout(&e.parts, m % uni::LAYOUTS));
            for how in [How::Decode, How::Headers] {
                c.count("states", 1);
                if !check_one(c, &o, how, &d, 3)? {
                    return Err(format!("{:?} fails", how));
                }
            }
            // cut and damaged
            let n = d.len();
            check_one(c, &o, How::Decode, &d[..n * (1 + m % 7) / 8], 3)?;
            let k = n / 2 + m % (n / 2);
            d[k] ^= 1 << (m % 8);
            check_one(c, &o, How::Decode, &d, 3)?;
            c.count("states", 2);
            Ok(())
        })
    });
}
