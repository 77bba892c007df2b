//! Framing: C01, C02, C03, C14, C25, C29.
use crate::adapt::{self, Error, Pk};
use crate::alloc_meter;
use crate::bytesgen;
use crate::explore::*;
use crate::gen;
use crate::model::enc;
use crate::spaces::*;
use crate::stream::{framing, is_need, Framing};
use bytes::{BufMut, BytesMut};
use std::sync::Arc;

pub fn res(r: &Result<Pk, Error>) -> String {
    match r {
        Ok(p) => format!("Ok({p:?})"),
        Err(e) => format!("Err({e:?})"),
    }
}

thread_local! {
    /// Keeps the front of the latest shared buffer alive.
    static FRONT: std::cell::RefCell<bytes::Bytes> = std::cell::RefCell::new(bytes::Bytes::new());
}

/// The same content in buffers with different histories.
pub const MODES: usize = 7;
pub fn buffer_mode(mode: usize, b: &[u8]) -> BytesMut {
    match mode {
        0 => BytesMut::from(b),
        1 => {
            // the rest of a larger buffer, whose front has been taken
            let mut x = BytesMut::with_capacity(b.len() + 7);
            x.put_slice(b"\xC0\0\xC0\0\xC0\0\xC0");
            x.put_slice(b);
            let front = x.split_to(7);
            drop(front);
            x
        }
        2 => {
            // the front is still referred to
            let mut x = BytesMut::from(&b"\x30\x05\0\x01ab"[..]);
            x.extend_from_slice(b);
            let front = x.split_to(6).freeze();
            FRONT.with(|f| *f.borrow_mut() = front);
            x
        }
        3 => {
            // grown byte by byte
            let mut x = BytesMut::new();
            for c in b {
                x.put_u8(*c);
            }
            x
        }
        4 | 5 => {
            // with much spare room behind
            let mut x = BytesMut::with_capacity(if mode == 4 { 4096 } else { 100_000 });
            x.extend_from_slice(b);
            x
        }
        _ => {
            // as large as its content
            let mut x = BytesMut::with_capacity(b.len());
            x.extend_from_slice(b);
            x
        }
    }
}

// ---------------------------------------------------------------- C01
fn c01_one(ctx: &mut Ctx, ver: u8, b: &[u8], limit: usize, mode: usize) -> Outcome {
    let mut buf = buffer_mode(mode, b);
    let r = adapt::read(ver, &mut buf, limit);
    let what = framing(b, limit);
    let (expect, class): (&[u8], &str) = match what {
        Framing::Frame { len } => (&b[len..], if r.is_ok() { "frame taken, packet" } else { "frame taken, rejected" }),
        Framing::Need { .. } => (b, "incomplete, untouched"),
        Framing::BadLength => (b, "malformed length, untouched"),
        Framing::TooBig(_) => (b, "over limit, untouched"),
    };
    if buf[..] != expect[..] {
        return Err(format!(
            "v{ver} read of {} (limit {limit}) leaves {} bytes ({}), expected {} ({what:?}); result {}",
            hex(b),
            buf.len(),
            hex(&buf),
            expect.len(),
            res(&r)
        ));
    }
    if r.is_ok() && !matches!(what, Framing::Frame { .. }) {
        return Err(format!("v{ver} read of {} (limit {limit}) gives a packet although {what:?}", hex(b)));
    }
    ctx.case(class);
    Ok(())
}

pub fn c01(th: bool) -> Vec<Exploration> {
    let mut v = buffer_space(th, Arc::new(|ctx, ver, b, l| c01_one(ctx, ver, b, l, 0)));
    v.extend(frame_space(
        BOTH,
        th,
        Arc::new(|ctx, ver, b| {
            // a second frame behind it
            let mut x = b.to_vec();
            x.extend_from_slice(&[0x40, 2, 0, 7, 0xFF]);
            c01_one(ctx, ver, &x, usize::MAX, 0)
        }),
    ));
    v.push(expl("buffers of every history, surrounded menu frames, at every limit that matters", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu = gen::menu(ver);
        let m = ch.of(&menu);
        let mode = ch.pick(MODES);
        let e = enc::encode(ver, m, *ch.of(&enc::FORMS));
        for cut in 0..=e.bytes.len() {
            for l in limits_for(&e.bytes) {
                c01_one(ctx, ver, &e.bytes[..cut], l, mode)?;
            }
        }
        for m2 in &menu {
            let mut b = e.bytes.clone();
            b.extend_from_slice(&enc::encode(ver, m2, enc::Form::Full).bytes);
            for l in limits_for(&e.bytes) {
                c01_one(ctx, ver, &b, l, mode)?;
            }
        }
        Ok(())
    }));
    v.push(expl("menu frames in buffers of every history before every single byte, and before every two sharp ones", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let frames: Vec<Vec<u8>> = gen::menu(ver).iter().map(|m| enc::encode(ver, m, enc::Form::Full).bytes).chain(short_frames(ver)).collect();
        let f = ch.of(&frames);
        for mode in 0..MODES {
            let mut b = f.clone();
            for x in 0..=255u8 {
                b.truncate(f.len());
                b.push(x);
                c01_one(ctx, ver, &b, usize::MAX, mode)?;
                if bytesgen::SHARP.contains(&x) {
                    for y in bytesgen::SHARP {
                        b.truncate(f.len() + 1);
                        b.push(y);
                        c01_one(ctx, ver, &b, usize::MAX, mode)?;
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("every buffer of up to two bytes, of every history", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let mode = ch.pick(MODES);
        let x = ch.pick(256) as u8;
        if x == 0 {
            c01_one(ctx, ver, &[], usize::MAX, mode)?;
        }
        c01_one(ctx, ver, &[x], usize::MAX, mode)?;
        for y in 0..=255u8 {
            c01_one(ctx, ver, &[x, y], usize::MAX, mode)?;
        }
        Ok(())
    }));
    v.push(expl("every three frames in a row, and every run of one frame and another, taken one by one", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu: Vec<Vec<u8>> = gen::menu(ver).iter().map(|m| enc::encode(ver, m, enc::Form::Full).bytes).chain([vec![0xF0, 0], vec![0x40, 1, 0], vec![0x30, 0]]).collect();
        let a = ch.of(&menu);
        let mut all = |b: Vec<u8>| -> Outcome {
            let mut left = &b[..];
            while let Framing::Frame { len } = framing(left, usize::MAX) {
                c01_one(ctx, ver, left, usize::MAX, 0)?;
                left = &left[len..];
            }
            Ok(())
        };
        for b in &menu {
            for c in &menu {
                all([&a[..], b, c].concat())?;
            }
            for n in 2..=20 {
                all([&a.repeat(n)[..], b].concat())?;
            }
        }
        Ok(())
    }));
    v.push(expl("large frames alone, cut, before a byte and before themselves, in buffers of every history", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = big_frames(ver);
        let f = ch.of(&fs);
        let mode = ch.pick(MODES);
        for cut in big_cuts(f.len()) {
            c01_one(ctx, ver, &f[..cut], usize::MAX, mode)?;
        }
        for tail in [&[0u8][..], &[0xC0, 0], &[0x40, 2, 0, 9], f] {
            c01_one(ctx, ver, &[&f[..], tail].concat(), usize::MAX, mode)?;
        }
        Ok(())
    }));
    v.push(expl("frames with much behind them: every power of two up to 2^26, and 4 GiB", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let bit = ch.pick(28);
        alloc_meter::set_cap(if bit == 27 { 8 << 30 } else { alloc_meter::USUAL_CAP });
        let n = match bit {
            27 => 1usize << 32,
            b => 1 << b,
        };
        for head in [&[0xC0, 0][..], &[0x40, 2, 0, 1], &[0x40, 3, 0, 1, 0], &[0xF0, 1, 0], &[0x40, 0x80, 0], &[0x30, 0xFF, 0xFF, 0xFF, 0xFF], &[0x30, 5, 0, 1, b't', 0, 0]] {
            for total in [n - 1, n, n + 1, n + head.len()] {
                if total < head.len() {
                    continue;
                }
                let mut buf = BytesMut::with_capacity(total);
                buf.extend_from_slice(head);
                buf.resize(total.min(head.len() + 128), 0);
                if total < 1 << 30 {
                    buf.resize(total, 0);
                } else {
                    // pages fresh from the system, read by nobody
                    unsafe { buf.set_len(total) };
                }
                let r = adapt::read(ver, &mut buf, usize::MAX);
                let taken = match framing(head, usize::MAX) {
                    Framing::Frame { len } => len,
                    _ => 0,
                };
                let still = if taken == 0 { &buf[..head.len()] == head } else { buf.iter().take(64).all(|b| *b == 0) };
                if buf.len() != total - taken || !still {
                    return Err(format!("v{ver} read of {} and {} zeroes behind takes {} bytes instead of {taken}; result {}", hex(head), total - head.len(), total as i64 - buf.len() as i64, res(&r)));
                }
                let (alone, _) = adapt::read_slice(ver, head, usize::MAX);
                if r != alone {
                    return Err(format!("v{ver} read of {} gives {}, with {} zeroes behind {}", hex(head), res(&alone), total - head.len(), res(&r)));
                }
                ctx.case("frame with much behind it");
            }
        }
        alloc_meter::set_cap(alloc_meter::USUAL_CAP);
        Ok(())
    }).single());
    v
}

// ---------------------------------------------------------------- C03
fn c03_one(ctx: &mut Ctx, ver: u8, b: &[u8], limit: usize) -> Outcome {
    let what = framing(b, limit);
    let (r, _) = adapt::read_slice(ver, b, limit);
    c03_results(ctx, ver, b, limit, what, r)
}
fn c03_results(ctx: &mut Ctx, ver: u8, b: &[u8], limit: usize, what: Framing, r: Result<Pk, Error>) -> Outcome {
    let c = adapt::check(b, limit);
    for (who, e) in [("read", r.as_ref().err()), ("check", c.as_ref().err())] {
        let need = e.and_then(is_need);
        match (what, need) {
            (Framing::Need { missing, exact }, Some(n)) => {
                if n < 1 || n > missing || (exact && n != missing) {
                    return Err(format!("v{ver} {who} of {} asks for {n} bytes, {} {missing} are missing", hex(b), if exact { "exactly" } else { "at least" }));
                }
            }
            (Framing::Need { missing, .. }, None) => return Err(format!("v{ver} {who} of the incomplete {} ({missing} missing, limit {limit}) does not ask for more bytes but gives {e:?}", hex(b))),
            (w, Some(n)) => return Err(format!("v{ver} {who} of {} (limit {limit}) asks for {n} more bytes although {w:?}", hex(b))),
            _ => {}
        }
    }
    ctx.case(match what {
        Framing::Need { exact: true, .. } => "incomplete, length known",
        Framing::Need { .. } => "incomplete, length unknown",
        Framing::Frame { .. } => "complete",
        _ => "refused",
    });
    Ok(())
}
pub fn c03(th: bool) -> Vec<Exploration> {
    let mut v = buffer_space(th, Arc::new(c03_one));
    v.extend(frame_space(BOTH, th, Arc::new(|ctx, ver, b| c03_one(ctx, ver, b, usize::MAX))));
    v.push(expl("menu frames cut everywhere, in buffers of every history, asked twice", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let frames: Vec<Vec<u8>> = gen::menu(ver).iter().map(|m| enc::encode(ver, m, enc::Form::Full).bytes).chain((0..=255).map(|x| vec![x, 0x82, 0])).collect();
        let f = ch.of(&frames);
        for mode in 0..MODES {
            for cut in 0..=f.len() {
                let b = &f[..cut];
                let mut buf = buffer_mode(mode, b);
                for _ in 0..2 {
                    let what = framing(&buf.to_vec(), usize::MAX);
                    let was = buf.to_vec();
                    let r = adapt::read(ver, &mut buf, usize::MAX);
                    c03_results(ctx, ver, &was, usize::MAX, what, r)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("large frames cut near their ends, their middle and block boundaries", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = big_frames(ver);
        let f = ch.of(&fs);
        for cut in big_cuts(f.len()) {
            c03_one(ctx, ver, &f[..cut], usize::MAX)?;
            c03_one(ctx, ver, &f[..cut], f.len())?;
        }
        // much present of a frame of the largest size
        let mut head = vec![f[0], 0xFF, 0xFF, 0xFF, 0x7F];
        head.extend_from_slice(&f[1..]);
        c03_one(ctx, ver, &head, usize::MAX)
    }));
    v
}

// ---------------------------------------------------------------- C14
fn c14_one(ctx: &mut Ctx, ver: u8, b: &[u8], limit: usize) -> Outcome {
    let what = framing(b, limit);
    let (r, _) = adapt::read_slice(ver, b, limit);
    let c = adapt::check(b, limit);
    for (who, e) in [("read", r.as_ref().err()), ("check", c.as_ref().err())] {
        match (what, e) {
            (Framing::TooBig(n), Some(Error::PayloadSizeLimitExceeded(m))) if *m == n => {}
            (Framing::TooBig(n), _) => return Err(format!("v{ver} {who} of {} under limit {limit}: declared length {n} must be refused by name, got {e:?}", hex(b))),
            (_, Some(Error::PayloadSizeLimitExceeded(m))) => return Err(format!("v{ver} {who} of {} under limit {limit} is refused for its size ({m}) although {what:?}", hex(b))),
            _ => {}
        }
    }
    if let Framing::Frame { .. } = what {
        let (r2, _) = adapt::read_slice(ver, b, usize::MAX);
        if r != r2 {
            return Err(format!("v{ver} {} decodes to {} under limit {limit} but to {} without", hex(b), res(&r), res(&r2)));
        }
    }
    ctx.case(match what {
        Framing::TooBig(_) => "refused for size",
        Framing::Frame { .. } => "within limit, complete",
        Framing::Need { .. } => "within limit or unknown, incomplete",
        Framing::BadLength => "malformed length",
    });
    Ok(())
}
pub fn c14(th: bool) -> Vec<Exploration> {
    let mut v = buffer_space(th, Arc::new(c14_one));
    v.push(expl("every limit around the size of frames of every size", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu = gen::menu(ver);
        let m = ch.of(&menu);
        let e = enc::encode(ver, m, enc::Form::Full);
        let h = bytesgen::hdr_len(&e);
        let rem = e.bytes.len() - h;
        for limit in 0..rem + 8 {
            for cut in [0, 1, h.min(2), h, h + rem / 2, e.bytes.len().saturating_sub(1), e.bytes.len()] {
                c14_one(ctx, ver, &e.bytes[..cut], limit)?;
            }
            let mut b = e.bytes.clone();
            b.extend_from_slice(&[0x30, 0xFF, 0xFF, 0xFF, 0x7F]);
            c14_one(ctx, ver, &b, limit)?;
        }
        Ok(())
    }));
    v.push(expl("large frames, whole and cut, at their own limit and its neighbours", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = big_frames(ver);
        let f = ch.of(&fs);
        let rem = f.len() - 1 - f[1..].iter().take_while(|b| **b & 0x80 != 0).count() - 1;
        for cut in big_cuts(f.len()) {
            for limit in [rem - 1, rem, rem + 1, f.len()] {
                c14_one(ctx, ver, &f[..cut], limit)?;
            }
        }
        Ok(())
    }));
    v.push(expl("declared lengths of every magnitude under limits of every magnitude, bodies absent or present", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let edges = [0usize, 1, 2, 3, 127, 128, 129, 255, 256, 16_383, 16_384, 65_535, 65_536, 2_097_151, 2_097_152, 16_777_216, 268_435_454, 268_435_455];
        let n = *ch.of(&edges);
        let b1 = ch.pick(256) as u8;
        for pad in 0..4 {
            let k = enc::varint(n).len() + pad;
            if k > 4 {
                break;
            }
            let mut b = vec![b1];
            b.extend_from_slice(&enc::varint_padded(n, k));
            for body in [0usize, 1, 2, 200] {
                let mut x = b.clone();
                x.resize(b.len() + body.min(n), 0);
                for l in edges.iter().flat_map(|l| [l.saturating_sub(1), *l, l + 1]) {
                    c14_one(ctx, ver, &x, l)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("limits around every power of two", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let bit = ch.pick(usize::BITS as usize);
        let l = 1usize << bit;
        for b in [&[0xC0, 0][..], &[0x40, 2, 0, 1], &[0x40, 2], &[0x30], &[], &[0x30, 0x80], &[0x30, 0xFF, 0xFF, 0xFF, 0x7F], &[0x30, 0x80, 0x80, 0x80, 0x01], &[0x30, 0x80, 0x80, 0x80, 0x80], &[0x30, 0x80, 0x80, 1, 9], &[0x30, 4, 0, 1, b't', 0, 7]] {
            for l in [l - 1, l, l.wrapping_add(1), l | 1 << 3, l | 7, !l] {
                c14_one(ctx, ver, b, l)?;
            }
        }
        // declared lengths around this power of two, too
        if bit < 28 {
            for n in [l - 1, l, l + 1].into_iter().filter(|n| *n <= 268_435_455) {
                let mut b = vec![0x31];
                b.extend_from_slice(&enc::varint(n));
                b.extend_from_slice(&[0; 3][..n.min(3)]);
                for k in 0..usize::BITS {
                    for l in [(1usize << k) - 1, 1 << k, (1 << k) + 1, n, n - (n > 0) as usize, n + (1 << 32), n + (1 << 31), n | 1 << 28] {
                        c14_one(ctx, ver, &b, l)?;
                    }
                }
            }
        }
        Ok(())
    }));
    let f: BCb = Arc::new(|ctx, ver, b| {
        let rem = b.len() - 2;
        if rem > 300 {
            return Ok(());
        }
        c14_one(ctx, ver, b, rem)?;
        c14_one(ctx, ver, b, rem.saturating_sub(1))
    });
    v.push(expl("single faults on base frames at their own limit", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        bytesgen::faults(e, &mut |b| f(ctx, ver, b))
    }));
    v
}

// ---------------------------------------------------------------- C02
/// Short frames: good, rejected, and (last) such as end the stream.
fn short_frames(ver: u8) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        vec![0xC0, 0],
        vec![0x40, 2, 0, 1],
        vec![0x40, 0],                // body missing
        vec![0xF0, 1, 9],             // unknown type
        vec![0x00, 0],                // unknown type, no body
        vec![0x40, 0x82, 0, 0, 7],    // length field longer than needed
        vec![0xD0, 0x80, 0x80, 0x80, 0],
        vec![0xE0, 0],
        vec![0x36, 1, 0],             // QoS 3
    ];
    if ver == 4 {
        v.push(vec![0x30, 4, 0, 1, b'a', b'x']);
        v.push(vec![0x32, 5, 0, 1, b'a', 0, 0]); // packet id 0
        v.push(vec![0x20, 2, 1, 0]);
        v.push(vec![0x90, 3, 0, 1, 2]);
        v.push(vec![0x82, 6, 0, 5, 0, 1, b'#', 1]);
    } else {
        v.push(vec![0x30, 4, 0, 1, b'a', 0]);
        v.push(vec![0x32, 6, 0, 1, b'a', 0, 0, 0]); // packet id 0
        v.push(vec![0x20, 3, 1, 0, 0]);
        v.push(vec![0xB0, 4, 0, 1, 0, 0x11]);
        v.push(vec![0xE0, 2, 4, 0]);
        v.push(vec![0x20, 5, 0, 0, 2, 99, 0]); // unknown property
    }
    v
}
fn enders() -> Vec<Vec<u8>> {
    vec![vec![], vec![0x30, 0xFF, 0xFF, 0xFF, 0xFF], vec![0x30, 0x80], vec![0x31, 3, 0], vec![0x30, 0xE9, 0x07]]
}
const LIMIT: usize = 1000;
/// The limits a stream is received under: ample, none, and just met (or just missed) by its
/// largest frame.
const LIMITS: usize = 4;
fn limit_of(s: &[u8], k: usize) -> usize {
    let mut at = 0;
    let mut most = 0;
    while let Framing::Frame { len } = framing(&s[at..], usize::MAX) {
        let rem = len - 1 - s[at + 1..].iter().take_while(|b| **b & 0x80 != 0).count() - 1;
        most = most.max(rem);
        at += len;
    }
    match k {
        0 => LIMIT,
        1 => most,
        2 => usize::MAX,
        _ => most.saturating_sub(1),
    }
}

/// Reads until more bytes are asked for or the stream ends for good.
fn drain(ver: u8, buf: &mut BytesMut, limit: usize, out: &mut Vec<Result<Pk, Error>>, most: usize) -> bool {
    loop {
        let r = adapt::read(ver, buf, limit);
        match &r {
            Err(e) if is_need(e).is_some() => return false,
            Err(Error::MalformedRemainingLength) | Err(Error::PayloadSizeLimitExceeded(_)) => {
                out.push(r);
                return true;
            }
            _ => out.push(r),
        }
        if out.len() > most {
            return true; // more results than frames: reported by the comparison
        }
    }
}

/// What the stream holds, frame by frame, each read on its own.
fn reference(ver: u8, s: &[u8], limit: usize) -> Vec<Result<Pk, Error>> {
    let mut out = vec![];
    let mut at = 0;
    loop {
        match framing(&s[at..], limit) {
            Framing::Need { .. } => return out,
            Framing::BadLength => {
                out.push(Err(Error::MalformedRemainingLength));
                return out;
            }
            Framing::TooBig(n) => {
                out.push(Err(Error::PayloadSizeLimitExceeded(n)));
                return out;
            }
            Framing::Frame { len } => {
                out.push(adapt::read_slice(ver, &s[at..at + len], limit).0);
                at += len;
            }
        }
    }
}
fn same(a: &[Result<Pk, Error>], b: &[Result<Pk, Error>]) -> bool {
    a == b
}
fn show(v: &[Result<Pk, Error>]) -> String {
    v.iter().map(res).collect::<Vec<_>>().join("; ")
}

/// One segmentation with one persistent buffer: `cuts` bit i set = cut after byte i.
fn segmented(ctx: &mut Ctx, ver: u8, s: &[u8], limit: usize, is_cut: &dyn Fn(usize) -> bool, want: &[Result<Pk, Error>]) -> Outcome {
    segmented_in(ctx, &BytesMut::new, ver, s, limit, is_cut, want)
}
/// The same with a receive buffer of a given history.
fn segmented_in(ctx: &mut Ctx, new: &dyn Fn() -> BytesMut, ver: u8, s: &[u8], limit: usize, is_cut: &dyn Fn(usize) -> bool, want: &[Result<Pk, Error>]) -> Outcome {
    let mut buf = new();
    let mut got = vec![];
    let mut start = 0;
    let mut ended = false;
    for i in 0..s.len() {
        if i + 1 == s.len() || is_cut(i) {
            buf.extend_from_slice(&s[start..=i]);
            start = i + 1;
            if !ended {
                ended = drain(ver, &mut buf, limit, &mut got, want.len() + 1);
            }
        }
    }
    if s.is_empty() {
        drain(ver, &mut buf, limit, &mut got, want.len() + 1);
    }
    if !same(&got, want) {
        let cuts: Vec<usize> = (0..s.len()).filter(|i| is_cut(*i)).map(|i| i + 1).collect();
        return Err(format!("v{ver} stream {} under limit {limit} cut at {cuts:?} yields [{}], the stream holds [{}]", hex(s), show(&got), show(want)));
    }
    ctx.case("segmentation agrees");
    Ok(())
}

/// A receiver that waits for exactly as many bytes as it was asked for before it reads again.
fn obedient(ctx: &mut Ctx, ver: u8, s: &[u8], limit: usize, want: &[Result<Pk, Error>]) -> Outcome {
    let mut buf = BytesMut::new();
    let mut at = 0;
    let mut got = vec![];
    loop {
        let r = adapt::read(ver, &mut buf, limit);
        match &r {
            Err(e) if is_need(e).is_some() => {
                let n = is_need(e).unwrap();
                if n == 0 || n > s.len() - at {
                    break;
                }
                buf.extend_from_slice(&s[at..at + n]);
                at += n;
            }
            Err(Error::MalformedRemainingLength) | Err(Error::PayloadSizeLimitExceeded(_)) => {
                got.push(r);
                break;
            }
            _ => got.push(r),
        }
        if got.len() > want.len() {
            break;
        }
    }
    if !same(&got, want) {
        return Err(format!("v{ver} stream {} under limit {limit}, fed by as many bytes as were asked for each time, yields [{}], the stream holds [{}]", hex(s), show(&got), show(want)));
    }
    ctx.case("fed as asked");
    Ok(())
}

/// Every reachable (delivered, consumed) state of the receiver, and every transition.
fn receiver_states(ctx: &mut Ctx, ver: u8, s: &[u8], limit: usize, want: &[Result<Pk, Error>]) -> Outcome {
    obedient(ctx, ver, s, limit, want)?;
    // state after delivering d bytes: (consumed, results); None = not reached yet
    let mut state: Vec<Option<(usize, usize, bool)>> = vec![None; s.len() + 1];
    state[0] = Some((0, 0, false));
    for d in 0..s.len() {
        let Some((consumed, n, ended)) = state[d] else { continue };
        for d2 in d + 1..=s.len() {
            let mut got: Vec<Result<Pk, Error>> = vec![];
            let mut buf = BytesMut::from(&s[consumed..d2]);
            let end = ended || drain(ver, &mut buf, limit, &mut got, want.len() + 1);
            if n + got.len() > want.len() || got[..] != want[n..n + got.len()] {
                return Err(format!("v{ver} stream {} under limit {limit}: with {d} bytes delivered, {consumed} consumed, the arrival up to {d2} yields [{}], expected next [{}]", hex(s), show(&got), show(&want[n.min(want.len())..])));
            }
            let now = (d2 - buf.len(), n + got.len(), end);
            match state[d2] {
                None => state[d2] = Some(now),
                Some(before) if before == now => {}
                Some(before) => return Err(format!("v{ver} stream {} under limit {limit}: after {d2} bytes the receiver is at {now:?} or {before:?} (consumed, results, ended), depending on the cuts", hex(s))),
            }
            ctx.case("transition agrees");
        }
    }
    if let Some((_, n, _)) = state[s.len()] {
        if n != want.len() {
            return Err(format!("v{ver} stream {} under limit {limit}: {n} results, {} expected", hex(s), want.len()));
        }
    }
    Ok(())
}

pub fn c02(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    let full = if th { 17usize } else { 13 };
    v.push(expl(format!("every segmentation of streams of up to three short frames ({full} bytes), one persistent buffer"), 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = short_frames(ver);
        let n = ch.pick(4);
        let mut s = vec![];
        for _ in 0..n {
            s.extend_from_slice(&fs[ch.pick(fs.len())]);
        }
        s.extend_from_slice(&enders()[ch.pick(enders().len())]);
        if s.len() > full {
            ctx.skip("stream over the bound of this exploration");
            return Ok(());
        }
        let lim = ch.pick(LIMITS);
        let limit = limit_of(&s, lim);
        let want = reference(ver, &s, limit);
        ctx.sample(|| format!("v{ver} stream {} holds [{}]", hex(&s), show(&want)));
        for cuts in 0..1u64 << s.len().saturating_sub(1) {
            segmented(ctx, ver, &s, limit, &|i| cuts >> i & 1 == 1, &want)?;
        }
        Ok(())
    }));
    v.push(expl("receiver state space of streams of four frames", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = short_frames(ver);
        let mut s = vec![];
        for _ in 0..if th { 4 } else { 3 } {
            s.extend_from_slice(&fs[ch.pick(fs.len())]);
        }
        s.extend_from_slice(&enders()[ch.pick(enders().len())]);
        let lim = ch.pick(if th { LIMITS } else { 2 });
        let limit = limit_of(&s, lim);
        let want = reference(ver, &s, limit);
        receiver_states(ctx, ver, &s, limit, &want)
    }));
    v.push(expl("receiver state space around every menu frame", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu = gen::menu(ver);
        let form = *ch.of(&enc::FORMS);
        let a = enc::encode(ver, ch.of(&menu), form).bytes;
        let extra = ch.pick(if th { 8 } else { 3 });
        let fs = short_frames(ver);
        let mut s = fs[extra % fs.len()].clone();
        s.extend_from_slice(&a);
        s.extend_from_slice(&fs[(extra * 3 + 2) % fs.len()]);
        let lim = ch.pick(if th { LIMITS } else { 2 });
        let limit = limit_of(&s, lim);
        let want = reference(ver, &s, limit);
        receiver_states(ctx, ver, &s, limit, &want)?;
        // with one persistent buffer: byte by byte, and every pair of cuts near the edges
        segmented(ctx, ver, &s, limit, &|_| true, &want)?;
        for i in 0..s.len() {
            segmented(ctx, ver, &s, limit, &|k| k == i, &want)?;
        }
        for step in 2..40.min(s.len()) {
            segmented(ctx, ver, &s, limit, &|k| k % step == step - 1, &want)?;
        }
        Ok(())
    }));
    v.push(expl("every two frames of the menu, also doubled and tripled: received at once, byte by byte, cut once anywhere; every receiver state of the short ones", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let frames: Vec<Vec<u8>> = gen::menu(ver).iter().map(|m| enc::encode(ver, m, enc::Form::Full).bytes).chain(short_frames(ver)).collect();
        let a = ch.of(&frames);
        for b in &frames {
            for (i, j) in [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2)] {
                let s = [a.repeat(i), b.repeat(j)].concat();
                if i + j > 2 && s.len() > if th { 200 } else { 40 } {
                    continue;
                }
                let want = reference(ver, &s, usize::MAX);
                segmented(ctx, ver, &s, usize::MAX, &|_| false, &want)?;
                segmented(ctx, ver, &s, usize::MAX, &|_| true, &want)?;
                for i in 0..s.len().min(if th { 1000 } else { 100 }) {
                    segmented(ctx, ver, &s, usize::MAX, &|k| k == i, &want)?;
                }
                if s.len() <= if th { 120 } else { 50 } {
                    receiver_states(ctx, ver, &s, usize::MAX, &want)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("every two short frames through a buffer of every history, received at once, byte by byte, cut once anywhere; every first byte first", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let frames: Vec<Vec<u8>> = short_frames(ver).into_iter().chain((0..=255).map(|x| vec![x, 2, 0, 1])).collect();
        let a = ch.of(&frames);
        for mode in 0..MODES {
            for b in short_frames(ver) {
                let s = [&a[..], &b].concat();
                let want = reference(ver, &s, usize::MAX);
                let new = &|| buffer_mode(mode, b"");
                segmented_in(ctx, new, ver, &s, usize::MAX, &|_| false, &want)?;
                segmented_in(ctx, new, ver, &s, usize::MAX, &|_| true, &want)?;
                for i in 0..s.len() - 1 {
                    segmented_in(ctx, new, ver, &s, usize::MAX, &|k| k == i, &want)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("long frames (every length-field size), cut everywhere near their edges", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let rem = *ch.of(&[127usize, 128, 300, 999, 1000, 1001]);
        let mut m = gen::base_packet(ver, 3, gen::Base::Minimal);
        if !grow_remaining(ver, &mut m, rem) {
            return Err("HARNESS: size".into());
        }
        let mut s = vec![0xC0, 0];
        s.extend_from_slice(&enc::encode(ver, &m, enc::Form::Full).bytes);
        s.extend_from_slice(&[0x40, 2, 0, 3]);
        let lim = ch.pick(LIMITS);
        let limit = limit_of(&s, lim);
        let want = reference(ver, &s, limit);
        for i in 0..s.len() {
            segmented(ctx, ver, &s, limit, &|k| k == i, &want)?;
            segmented(ctx, ver, &s, limit, &|k| k == i || k == i + 1, &want)?;
            segmented(ctx, ver, &s, limit, &|k| k == i || k == 3, &want)?;
        }
        segmented(ctx, ver, &s, limit, &|_| true, &want)
    }));
    v.push(expl("large frames alone, between short ones and twice, cut near their ends, their middle and block boundaries", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = big_frames(ver);
        let f = ch.of(&fs);
        let s: Vec<u8> = match ch.pick(3) {
            0 => f.clone(),
            1 => [&[0xC0, 0][..], f, &[0x40, 2, 0, 9, 0xD0]].concat(),
            _ => f.repeat(2),
        };
        let want = reference(ver, &s, usize::MAX);
        obedient(ctx, ver, &s, usize::MAX, &want)?;
        let mut cuts = big_cuts(f.len());
        cuts.extend([f.len() + 1, f.len() + 2, s.len() - 3, s.len() - 2]);
        for (i, a) in cuts.iter().enumerate() {
            segmented(ctx, ver, &s, usize::MAX, &|k| k == *a, &want)?;
            if s.len() < 20_000 {
                for b in &cuts[i + 1..] {
                    segmented(ctx, ver, &s, usize::MAX, &|k| k == *a || k == *b, &want)?;
                }
            }
        }
        // in pieces of one size
        for n in [1000usize, 4096, 65_536] {
            if s.len() / n < 40 {
                segmented(ctx, ver, &s, usize::MAX, &|k| (k + 1) % n == 0, &want)?;
            }
        }
        Ok(())
    }));
    v.push(expl("very long frames (three- and four-byte lengths), cut everywhere near their edges", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let rem = *ch.of(&[16_383usize, 16_384, 2_097_151, 2_097_152]);
        let mut m = gen::base_packet(ver, 3, gen::Base::Minimal);
        if !grow_remaining(ver, &mut m, rem) {
            return Err("HARNESS: size".into());
        }
        let lim = 1 + ch.pick(LIMITS - 1);
        let long = enc::encode(ver, &m, enc::Form::Full).bytes;
        let mut s = vec![0xC0, 0];
        s.extend_from_slice(&long);
        s.extend_from_slice(&[0x40, 2, 0, 3]);
        let limit = limit_of(&s, lim);
        let want = reference(ver, &s, limit);
        let n = s.len();
        // cut positions: around the frame's head, its end and (thorough) powers of two inside
        let mut cuts: Vec<usize> = (0..12).chain(n - 8..n - 1).collect();
        if th {
            let mut p = 16;
            while p < n {
                cuts.extend([p - 1, p]);
                p *= 2;
            }
        }
        let first = *ch.of(&cuts);
        segmented(ctx, ver, &s, limit, &|k| k == first, &want)?;
        for second in cuts.iter().filter(|c| **c > first) {
            segmented(ctx, ver, &s, limit, &|k| k == first || k == *second, &want)?;
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C25
fn c25_one(ctx: &mut Ctx, ver: u8, frame: &[u8], tail: &[u8], mode: usize) -> Outcome {
    let (alone, _) = adapt::read_slice(ver, frame, usize::MAX);
    let mut b = frame.to_vec();
    b.extend_from_slice(tail);
    let mut buf = buffer_mode(mode, &b);
    let r = adapt::read(ver, &mut buf, usize::MAX);
    if r != alone {
        return Err(format!("v{ver} frame {} alone gives {}, followed by {} it gives {}", hex(frame), res(&alone), hex(tail), res(&r)));
    }
    // and under the limit the frame just meets, or just exceeds
    if let Framing::Frame { len } = framing(frame, usize::MAX) {
        let rem = len - 1 - frame[1..].iter().take_while(|b| **b & 0x80 != 0).count() - 1;
        for limit in [rem, rem.saturating_sub(1)] {
            let (alone, _) = adapt::read_slice(ver, frame, limit);
            let (r, _) = adapt::read_slice(ver, &b, limit);
            if r != alone {
                return Err(format!("v{ver} frame {} alone under limit {limit} gives {}, followed by {} it gives {}", hex(frame), res(&alone), hex(tail), res(&r)));
            }
        }
    }
    // later use of the buffer must not show in the packet
    let before = r.as_ref().ok().map(|p| p.model());
    for x in buf.iter_mut() {
        *x = !*x;
    }
    buf.clear();
    buf.reserve(frame.len() + 64);
    buf.extend_from_slice(&vec![0xEE; frame.len() + 64]);
    if let Some(m) = before {
        if r.as_ref().unwrap().model() != m {
            return Err(format!("v{ver} packet decoded from {} changes when its buffer is reused", hex(frame)));
        }
        ctx.case("packet");
    } else {
        ctx.case("rejected");
    }
    Ok(())
}
pub fn c25(th: bool) -> Vec<Exploration> {
    let tails: &'static [&'static [u8]] = &[&[0], &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF], &[0x26, 0, 1, b'k', 0, 1, b'v'], &[0, 1, b'x', 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[1; 300]];
    let mut v = frame_space(
        BOTH,
        th,
        Arc::new(move |ctx, ver, b| {
            if !bytesgen::one_frame(b) {
                return Ok(());
            }
            // which of the tails follows rotates with the content
            let k = b.iter().fold(b.len(), |a, x| a * 31 + *x as usize & 0xFFFF);
            let n = if b.len() < 12 { 2 } else { 1 };
            for i in 0..n {
                c25_one(ctx, ver, b, tails[(k + i) % tails.len()], 0)?;
            }
            Ok(())
        }),
    );
    v.push(expl("every single fault on base frames before every tail, every cut frame before its own remainder", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        let tail = *ch.of(tails);
        if !th && bytesgen::body(e).len() > 80 {
            // the frame cut anywhere, with what was cut off behind it
            let body = bytesgen::body(e);
            for i in 0..=body.len() {
                c25_one(ctx, ver, &bytesgen::frame(e.bytes[0], &body[..i]), &body[i..], 0)?;
            }
            return Ok(());
        }
        let body = bytesgen::body(e);
        for i in 0..=body.len() {
            c25_one(ctx, ver, &bytesgen::frame(e.bytes[0], &body[..i]), &body[i..], 0)?;
        }
        bytesgen::faults(e, &mut |b| c25_one(ctx, ver, b, tail, 0))
    }));
    v.push(expl("large frames before a byte, short frames and themselves, in buffers of every history", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = big_frames(ver);
        let f = ch.of(&fs);
        let mode = ch.pick(MODES);
        for tail in [&[0u8][..], &[0xC0, 0], &[0x40, 2, 0, 9], f] {
            c25_one(ctx, ver, f, tail, mode)?;
        }
        c25_one(ctx, ver, &[0xD0, 0], f, mode)?;
        c25_one(ctx, ver, &[0x40, 2, 0, 9], f, mode)
    }));
    v.push(expl("menu frames in buffers of every history before every single byte", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let frames: Vec<Vec<u8>> = gen::menu(ver).iter().map(|m| enc::encode(ver, m, enc::Form::Full).bytes).chain(short_frames(ver)).collect();
        let f = ch.of(&frames);
        for mode in 0..MODES {
            for x in 0..=255u8 {
                c25_one(ctx, ver, f, &[x], mode)?;
            }
        }
        Ok(())
    }));
    v.push(expl("pairs and triples of menu frames: predecessors and successors, buffers of every history", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu = gen::menu(ver);
        let form = *ch.of(&enc::FORMS);
        let mut fs: Vec<Vec<u8>> = menu.iter().map(|m| enc::encode(ver, m, form).bytes).collect();
        fs.extend(short_frames(ver));
        // the empty-topic publish with a topic alias, and one that sets it
        if ver == 5 {
            fs.push(vec![0x30, 7, 0, 0, 3, 35, 0, 5, b'x']);
            fs.push(vec![0x30, 8, 0, 1, b't', 3, 35, 0, 5, b'x']);
        }
        let a = ch.of(&fs).clone();
        let b = ch.of(&fs).clone();
        let mode = ch.pick(MODES);
        let (ra, _) = adapt::read_slice(ver, &a, usize::MAX);
        let (rb, _) = adapt::read_slice(ver, &b, usize::MAX);
        // the first one several times in a row
        for n in [2usize, 3, 4, 5, 8, 9, 33] {
            let mut s = a.repeat(n);
            s.extend_from_slice(&b);
            let mut buf = buffer_mode(mode, &s);
            for k in 0..=n {
                let got = adapt::read(ver, &mut buf, usize::MAX);
                let want = if k < n { &ra } else { &rb };
                if got != *want {
                    return Err(format!("v{ver} frame {} {n} times and then {}: read {} gives {}, alone {}", hex(&a), hex(&b), k + 1, res(&got), res(want)));
                }
            }
            ctx.case("repeated");
        }
        for c in &fs {
            let (rc, _) = adapt::read_slice(ver, c, usize::MAX);
            let mut s = a.clone();
            s.extend_from_slice(&b);
            s.extend_from_slice(c);
            let mut buf = buffer_mode(mode, &s);
            let got = [adapt::read(ver, &mut buf, usize::MAX), adapt::read(ver, &mut buf, usize::MAX), adapt::read(ver, &mut buf, usize::MAX)];
            if got[0] != ra || got[1] != rb || got[2] != rc {
                return Err(format!("v{ver} frames {} {} {} read in a row give [{}], alone [{}]", hex(&a), hex(&b), hex(c), show(&got), show(&[ra, rb, rc])));
            }
            c25_one(ctx, ver, &a, &b, mode)?;
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C29
fn c29_one(ctx: &mut Ctx, ver: u8, b: &[u8], limit: usize) -> Outcome {
    let mut one = BytesMut::from(b);
    let r = adapt::read(ver, &mut one, limit);
    let copy = BytesMut::from(b);
    let c = adapt::check(&copy, limit);
    if copy[..] != *b {
        return Err(format!("check changes the buffer {}", hex(b)));
    }
    match c {
        Err(e) => {
            if one.len() != b.len() {
                return Err(format!("v{ver} check of {} (limit {limit}) gives {e:?} but read takes {} bytes", hex(b), b.len() - one.len()));
            }
            if r.as_ref().err() != Some(&e) {
                return Err(format!("v{ver} check of {} (limit {limit}) gives {e:?}, read gives {}", hex(b), res(&r)));
            }
            ctx.case("no frame, same error");
        }
        Ok(h) => {
            let taken = b.len() - one.len();
            if taken == 0 || taken != h.frame_length() {
                return Err(format!("v{ver} check of {} (limit {limit}) reports a frame of {} bytes, read takes {taken}", hex(b), h.frame_length()));
            }
            let t = b[0] >> 4;
            match h.packet_type() {
                Ok(p) if adapt::type_num(p) == t => {}
                Err(Error::InvalidPacketType(n)) if n == t && (t == 0 || t == 15) => {}
                x => return Err(format!("check of {} reports type {x:?}", hex(b))),
            }
            let mut two = BytesMut::from(b);
            let frame = two.split_to(h.frame_length()).freeze();
            // Typed readers are meant for frames with a body; without one only Disconnect has a
            // meaning, which both routes must agree on.
            let rem = taken - crate::model_header_len(b);
            match adapt::typed_read(ver, h, frame) {
                None => ctx.case("no typed reader"),
                Some(x) => {
                    if rem == 0 && x.is_err() && r.is_err() {
                        ctx.case("both reject an empty body");
                    } else if x != r {
                        return Err(format!("v{ver} {}: typed read gives {}, read gives {}", hex(b), res(&x), res(&r)));
                    } else {
                        ctx.case(if r.is_ok() { "same packet" } else { "same rejection" });
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn c29(th: bool) -> Vec<Exploration> {
    let mut v = buffer_space(th, Arc::new(c29_one));
    v.extend(frame_space(BOTH, th, Arc::new(|ctx, ver, b| c29_one(ctx, ver, b, usize::MAX))));
    v.push(expl("large frames, whole, cut and before others", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let fs = big_frames(ver);
        let f = ch.of(&fs);
        for cut in big_cuts(f.len()) {
            c29_one(ctx, ver, &f[..cut], usize::MAX)?;
        }
        for tail in [&[0u8][..], &[0xC0, 0], f] {
            c29_one(ctx, ver, &[&f[..], tail].concat(), usize::MAX)?;
        }
        Ok(())
    }));
    v
}
