//! Encoding: C05..C08, C12, C13, C15, C22, C26, C28.
use super::framing::{buffer_mode, res, MODES};
use crate::adapt::{self, Error, Pk};
use crate::bytesgen;
use crate::explore::*;
use crate::gen::{self, Base};
use crate::model::enc::{self, Form, FK};
use crate::model::{self, dec, Filter, Props, M, PV};
use crate::spaces::*;
use bytes::{Bytes, BytesMut};
use std::sync::Arc;

fn write_new(p: &Pk) -> Result<BytesMut, Error> {
    let mut b = BytesMut::new();
    p.write(&mut b)?;
    Ok(b)
}

// ---------------------------------------------------------------- C05, C06
fn round_trip(ctx: &mut Ctx, ver: u8, m: &M) -> Outcome {
    let e0 = Pk::from_model(ver, m, false);
    let e1 = if ver == 5 { Some(Pk::from_model(ver, m, true)) } else { None };
    let want = m.norm();
    for p in std::iter::once(e0).chain(e1) {
        let mut b = write_new(&p).map_err(|e| format!("v{ver} {m:?}: writing fails with {e:?}"))?;
        let bytes = b.clone();
        match adapt::read(ver, &mut b, usize::MAX) {
            Ok(q) => {
                let got = q.model();
                if got.norm() != want {
                    return Err(format!("v{ver} {m:?} written as {} reads back as {got:?}", hex(&bytes)));
                }
                if !b.is_empty() {
                    return Err(format!("v{ver} {m:?} written as {}: reading back leaves {} bytes", hex(&bytes), b.len()));
                }
            }
            Err(e) => return Err(format!("v{ver} {m:?} written as {} reads back as {e:?}", hex(&bytes))),
        }
    }
    ctx.case(m.name());
    Ok(())
}
pub fn c05(th: bool) -> Vec<Exploration> {
    value_space(V4, th, Arc::new(round_trip))
}
pub fn c06(th: bool) -> Vec<Exploration> {
    let mut v = value_space(V5, th, Arc::new(round_trip));
    v.push(v5_codes(Arc::new(round_trip)));
    v
}
/// Every reason code of every packet, with and without properties.
fn v5_codes(f: MCb) -> Exploration {
    expl("every reason code with no, empty and some properties, in every packet that has one", 0, move |ctx, ch| {
        let t = *ch.of(&[2u8, 4, 5, 6, 7, 14]);
        let c = *ch.of(model::spec::codes(5, t));
        let n = ch.pick(4);
        let all: model::Props = model::spec::props_of(t).into_iter().map(|(id, ty)| (id, gen::default_pv(id, ty, 0))).collect();
        let props = match n {
            0 => vec![],
            1 => all[..1].to_vec(),
            2 => vec![(38, PV::Pair(String::new(), String::new()))],
            _ => all,
        };
        let m = match t {
            2 => M::ConnAck { sp: false, code: c, props },
            14 => M::Disconnect { reason: c, props },
            k => M::Ack { kind: k, pkid: 0x1234, reason: c, props },
        };
        f(ctx, 5, &m)
    })
}

// ---------------------------------------------------------------- C07, C08
pub(super) fn wire_format(ctx: &mut Ctx, ver: u8, m: &M) -> Outcome {
    let e0 = Pk::from_model(ver, m, false);
    let e1 = if ver == 5 { Some(Pk::from_model(ver, m, true)) } else { None };
    for p in std::iter::once(e0).chain(e1) {
        let b = write_new(&p).map_err(|e| format!("v{ver} {m:?}: writing fails with {e:?}"))?;
        match dec::header(&b) {
            dec::Hdr::Ok { hlen, rem, .. } if hlen + rem == b.len() && hlen == 1 + enc::varint(rem).len() => {}
            h => return Err(format!("v{ver} {m:?} is written as {} ({} bytes): header {h:?} does not frame it", hex(&b), b.len())),
        }
        match dec::decode(ver, &b) {
            Ok((got, tol)) => {
                if tol & !dec::VALUE_TOLS != 0 {
                    return Err(format!("v{ver} {m:?} is written as {}, which breaks wire-format rules (mask {:#x})", hex(&b), tol & !dec::VALUE_TOLS));
                }
                if got.norm() != m.norm() {
                    return Err(format!("v{ver} {m:?} is written as {}, which spells {got:?}", hex(&b)));
                }
            }
            Err(bad) => return Err(format!("v{ver} {m:?} is written as {}, which is malformed: {bad:?}", hex(&b))),
        }
    }
    ctx.case(m.name());
    Ok(())
}
pub fn c07(th: bool) -> Vec<Exploration> {
    value_space(V4, th, Arc::new(wire_format))
}
pub fn c08(th: bool) -> Vec<Exploration> {
    let mut v = value_space(V5, th, Arc::new(wire_format));
    v.push(v5_codes(Arc::new(wire_format)));
    v
}

// ---------------------------------------------------------------- C12
fn priors() -> Vec<(&'static str, BytesMut)> {
    let mut near = BytesMut::with_capacity(64);
    near.extend_from_slice(&[0x5A; 60]);
    let mut v = vec![
        ("seven bytes", BytesMut::from(&[0xABu8; 7][..])),
        ("a whole CONNECT", BytesMut::from(&b"\x10\x0d\0\x04MQTT\x04\x02\0\x0a\0\x01i"[..])),
        ("a nearly full allocation", near),
        ("300 zeroes", BytesMut::from(&[0u8; 300][..])),
    ];
    for mode in 1..MODES {
        v.push(("a buffer with a history", buffer_mode(mode, &[1, 2, 3])));
    }
    let mut taken = BytesMut::from(&[9u8; 100][..]);
    let front = taken.split_to(98);
    drop(front);
    v.push(("a remainder", taken));
    v
}
fn sizes(ctx: &mut Ctx, ver: u8, m: &M) -> Outcome {
    let variants = if ver == 5 { 2 } else { 1 };
    for some_empty in 0..variants {
        let p = Pk::from_model(ver, m, some_empty == 1);
        let mut clean = BytesMut::new();
        let n = p.write(&mut clean).map_err(|e| format!("v{ver} {m:?}: writing fails with {e:?}"))?;
        if n != clean.len() {
            return Err(format!("v{ver} {m:?}: write reports {n}, appends {} bytes ({})", clean.len(), hex(&clean)));
        }
        let list = if clean.len() > 70_000 { priors().split_off(7) } else { priors() };
        for (name, mut b) in list {
            let before = b.to_vec();
            let n = p.write(&mut b).map_err(|e| format!("v{ver} {m:?}: writing behind {name} fails with {e:?}"))?;
            if b.len() < before.len() || b[..before.len()] != before[..] {
                return Err(format!("v{ver} {m:?}: writing behind {name} changes {} to {}", hex(&before), hex(&b[..b.len().min(before.len())])));
            }
            if b[before.len()..] != clean[..] {
                return Err(format!("v{ver} {m:?}: written behind {name} ({}) it is {}, in an empty buffer {}", hex(&before), hex(&b[before.len()..]), hex(&clean)));
            }
            if n != clean.len() {
                return Err(format!("v{ver} {m:?}: write behind {name} reports {n}, appends {}", clean.len()));
            }
        }
        // size queries
        let (hlen, rem) = match dec::header(&clean) {
            dec::Hdr::Ok { hlen, rem, .. } => (hlen, rem),
            _ => return Err(format!("v{ver} {m:?} is written as {}: no header", hex(&clean))),
        };
        if hlen + rem != clean.len() {
            return Err(format!("v{ver} {m:?} is written as {} bytes, its header says {}", clean.len(), hlen + rem));
        }
        if let Some(q) = p.size_query() {
            if q != rem {
                return Err(format!("v{ver} {m:?}: len() is {q}, the remaining length on the wire {rem}"));
            }
        }
        for (q, path) in p.filter_sizes() {
            if q != 2 + path + 1 {
                return Err(format!("v{ver} {m:?}: a filter's len() is {q}, on the wire it takes {}", path + 3));
            }
        }
        if let Some(q) = p.props_size_query() {
            let mut mm = m.clone();
            let sec = enc::section(m.ptype(), mm.props_mut().unwrap());
            let content = match dec::header(&[&[0u8][..], &sec].concat()) {
                dec::Hdr::Ok { rem, .. } => rem,
                _ => return Err("HARNESS: section".into()),
            };
            if q != content {
                return Err(format!("v{ver} {m:?}: the property set's len() is {q}, its content on the wire takes {content}"));
            }
        }
    }
    ctx.case(m.name());
    Ok(())
}
pub fn c12(th: bool) -> Vec<Exploration> {
    let mut v = value_space(BOTH, th, Arc::new(sizes));
    v.push(expl("every pair of menu packets in one buffer, built up in place", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu = gen::menu(ver);
        let a = Pk::from_model(ver, ch.of(&menu), false);
        let b = Pk::from_model(ver, ch.of(&menu), true);
        for c in &menu {
            let c = Pk::from_model(ver, c, false);
            let mut buf = BytesMut::new();
            let mut want = vec![];
            for p in [&a, &b, &c] {
                let n = p.write(&mut buf).map_err(|e| format!("{p:?}: {e:?}"))?;
                let w = write_new(p).map_err(|e| format!("{p:?}: {e:?}"))?;
                if n != w.len() {
                    return Err(format!("v{ver} {p:?}: write reports {n}, {} expected", w.len()));
                }
                want.extend_from_slice(&w);
                if buf[..] != want[..] {
                    return Err(format!("v{ver} {a:?} {b:?} {c:?}: the buffer holds {}, expected {}", hex(&buf), hex(&want)));
                }
            }
            ctx.case("triple");
        }
        Ok(())
    }));
    v.push(expl("menu packets behind prior content of every magnitude", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu = gen::menu(ver);
        let m = ch.of(&menu);
        let p = Pk::from_model(ver, m, false);
        let clean = write_new(&p).map_err(|e| format!("{p:?}: {e:?}"))?;
        for n in PRIOR_SIZES {
            let mut b = BytesMut::with_capacity(n);
            b.extend((0..n).map(|i| (i * 7 + i / 256) as u8));
            let before = b.clone();
            let r = p.write(&mut b);
            if r != Ok(clean.len()) || b.len() != n + clean.len() || b[..n] != before[..] || b[n..] != clean[..] {
                return Err(format!("v{ver} {m:?} written behind {n} bytes gives {r:?} and {} bytes, {} are expected", b.len(), n + clean.len()));
            }
            ctx.case("behind prior content");
        }
        Ok(())
    }));
    let upto = if th { 4200 } else { 1100 };
    v.push(expl(format!("menu packets behind prior content of every length up to {upto} and in every spare capacity"), 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let menu = gen::menu(ver);
        let m = ch.of(&menu);
        let some_empty = ver == 5 && ch.pick(2) == 1;
        let p = Pk::from_model(ver, m, some_empty);
        let clean = write_new(&p).map_err(|e| format!("{p:?}: {e:?}"))?;
        let one = |ctx: &mut Ctx, n: usize, spare: usize, prior: &dyn Fn(usize) -> u8| -> Outcome {
            let mut b = BytesMut::with_capacity(n + spare);
            b.extend((0..n).map(prior));
            let before = b.clone();
            let r = p.write(&mut b);
            if r != Ok(clean.len()) || b.len() != n + clean.len() || b[..n] != before[..] || b[n..] != clean[..] {
                return Err(format!("v{ver} {m:?} written behind {n} bytes {} gives {r:?} and {} bytes {}, expected behind them {}", hex(&before), b.len(), hex(&b), hex(&clean)));
            }
            ctx.case("behind prior content");
            Ok(())
        };
        for n in 0..=upto {
            one(ctx, n, 0, &|_| 0)?;
            one(ctx, n, clean.len() + 9, &|i| (i * 7 + i / 256 + 1) as u8)?;
        }
        for spare in 0..=(clean.len() + 2).min(600) {
            for n in [0, 1, 2, 5, 63] {
                one(ctx, n, spare, &|_| 0xFF)?;
            }
        }
        // the packet's own bytes, whole and cut anywhere, as prior content
        for n in 1..=clean.len().min(300) {
            one(ctx, n, 0, &|i| clean[i])?;
            one(ctx, n, 0, &|i| clean[clean.len() - n + i])?;
        }
        Ok(())
    }));
    v.push(
        expl("a publish whose remaining length is the largest possible", 0, |ctx, ch| {
            let ver = *ch.of(BOTH);
            let over = if ver == 4 { 3 } else { 4 };
            for n in [268_435_454usize, 268_435_455] {
                let p = big_publish(ver, n - over);
                let mut b = BytesMut::with_capacity(n + 16);
                b.extend_from_slice(&[7; 3]);
                let r = p.write(&mut b).map_err(|e| format!("v{ver} publish of remaining length {n}: {e:?}"))?;
                if r != n + 5 || b.len() != n + 5 + 3 || b[..3] != [7; 3] || b[4..8] != enc::varint(n)[..] {
                    return Err(format!("v{ver} publish of remaining length {n}: write reports {r}, appends {} bytes, header {}", b.len() - 3, hex(&b[3..8])));
                }
                if p.size_query() != Some(n) {
                    return Err(format!("v{ver} publish of remaining length {n}: len() is {:?}", p.size_query()));
                }
                ctx.case("largest publish");
            }
            Ok(())
        })
        .single(),
    );
    v
}
/// QoS 0 publish to "t" with a huge static payload.
fn big_publish(ver: u8, n: usize) -> Pk {
    let payload = Bytes::from_static(huge_payload(n));
    if ver == 4 {
        Pk::V4(adapt::v4::Packet::Publish(adapt::v4::Publish::from_bytes("t", adapt::QoS::AtMostOnce, payload)))
    } else {
        Pk::V5(adapt::v5::Packet::Publish(adapt::v5::Publish::from_bytes("t", adapt::QoS::AtMostOnce, payload)))
    }
}

// ---------------------------------------------------------------- C13
/// A write that must be refused, behind some prior content.
fn refused(ctx: &mut Ctx, ver: u8, what: &str, p: &Pk) -> Outcome {
    let mut all = priors();
    all.push(("nothing", BytesMut::new()));
    for (name, mut b) in all {
        let before = b.to_vec();
        match p.write(&mut b) {
            Ok(n) => return Err(format!("v{ver} {what}: has no encoding, but write behind {name} succeeds ({n} bytes: {})", hex(&b[before.len().min(b.len())..]))),
            Err(_) => {
                if b[..] != before[..] {
                    return Err(format!("v{ver} {what}: refused, but the buffer holding {name} changes from {} to {} ({} to {} bytes)", hex(&before), hex(&b), before.len(), b.len()));
                }
                // and the buffer goes on being usable
                let ping = Pk::from_model(ver, &M::PingReq, false);
                ping.write(&mut b).map_err(|e| format!("ping: {e:?}"))?;
                if b[before.len()..] != [0xC0, 0] {
                    return Err(format!("v{ver} {what}: after the refusal a ping is written as {}", hex(&b[before.len()..])));
                }
            }
        }
        ctx.case("refused, untouched");
    }
    Ok(())
}
/// Sizes of what a buffer may already hold.
const PRIOR_SIZES: [usize; 22] = [0, 1, 2, 15, 16, 63, 64, 127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 8192, 16_384, 65_535, 65_536, 70_000, 1 << 20];
/// Packets with one unencodable part each.
fn bad_packets(ver: u8, t: u8, base: Base) -> Vec<(String, M)> {
    let mut out = vec![];
    let m0 = gen::base_packet(ver, t, base);
    let mut m = m0.clone();
    let n = model::texts(&mut m, false).len();
    for i in 0..n {
        for len in [65_536usize, 65_537, 65_536 + 255, 131_071, 131_072, 200_000] {
            let mut m = m0.clone();
            let mut ts = model::texts(&mut m, false);
            ts[i].1.set_len(len);
            let name = format!("{} with {} of {len} bytes", m0.name(), ts[i].0);
            out.push((name, m));
        }
    }
    if t == 3 {
        for q in [1u8, 2] {
            for d in [false, true] {
                for r in [false, true] {
                    let mut m = m0.clone();
                    if let M::Publish { qos, pkid, dup, retain, .. } = &mut m {
                        *qos = q;
                        *pkid = 0;
                        *dup = d;
                        *retain = r;
                    }
                    out.push((format!("QoS {q} publish with packet id 0 (dup {d}, retain {r})"), m));
                }
            }
        }
    }
    if ver == 5 && (t == 3 || t == 8) {
        for id in [268_435_456u64, 268_435_457, 1 << 29, 1 << 32, u64::MAX >> 1, u64::MAX] {
            for pos in 0..if t == 3 { 3 } else { 1 } {
                let mut m = m0.clone();
                let ps = m.props_mut().unwrap();
                ps.retain(|p| p.0 != 11);
                for k in 0..=pos {
                    ps.push((11, PV::Var(if k == pos { id } else { 5 })));
                }
                out.push((format!("{} with subscription identifier {id}", m0.name()), m));
            }
        }
    }
    out
}
pub fn c13(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(expl("every packet with one part that cannot be encoded, behind every prior content", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let base = if ch.pick(2) == 0 { Base::Minimal } else { Base::Full };
        let bad = bad_packets(ver, t, base);
        if bad.is_empty() {
            ctx.skip("nothing unencodable");
            return Ok(());
        }
        let (name, m) = ch.of(&bad);
        ctx.sample(|| format!("v{ver} {name}"));
        refused(ctx, ver, name, &Pk::from_model(ver, m, false))
    }));
    v.push(expl("every packet with one part that cannot be encoded, behind prior content of every magnitude", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bad = bad_packets(ver, t, Base::Full);
        if bad.is_empty() {
            ctx.skip("nothing unencodable");
            return Ok(());
        }
        let (name, m) = ch.of(&bad);
        let p = Pk::from_model(ver, m, false);
        for n in PRIOR_SIZES {
            let mut b = BytesMut::with_capacity(n);
            b.extend((0..n).map(|i| (i * 7 + i / 256) as u8));
            let before = b.clone();
            let r = p.write(&mut b);
            if r.is_ok() || b != before {
                return Err(format!("v{ver} {name}: has no encoding; written behind {n} bytes it gives {r:?} and leaves {} bytes", b.len()));
            }
            ctx.case("refused, untouched");
        }
        Ok(())
    }));
    v.push(expl("publishes with packet id 0: every combination of flags, topics, payloads and property shapes", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let qos = 1 + ch.pick(2) as u8;
        let subset = if ver == 5 { ch.pick(1 << gen::lattice_bits(3)) as u64 } else { 0 };
        let props = gen::lattice(3, subset).props_mut().unwrap().clone();
        for fl in 0..4u8 {
            for topic in ["", "t", "a/b", "$SYS/x", "é", "+", &gen::xs(130), &gen::xs(16_384), &gen::xs(65_535)] {
                for pay in [&b""[..], b"\0", b"\0\x01", b"a", b"hello", &[0; 200]] {
                    let m = M::Publish { dup: fl & 1 == 1, qos, retain: fl & 2 == 2, topic: topic.into(), pkid: 0, props: if ver == 5 { props.clone() } else { vec![] }, payload: pay.to_vec() };
                    let p = Pk::from_model(ver, &m, false);
                    for prior in [0usize, 3] {
                        let mut b = BytesMut::from(&[0x55u8; 3][..prior]);
                        let r = p.write(&mut b);
                        if r.is_ok() || b[..] != [0x55; 3][..prior] {
                            return Err(format!("v{ver} {m:?}: has no encoding; written behind {prior} bytes it gives {r:?} and leaves {}", hex(&b)));
                        }
                        ctx.case("refused, untouched");
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("one text that cannot be encoded, all others as long as they may be or very short, in every packet and with every group of two", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let mut m = gen::base_packet(ver, t, Base::Full);
        let n = model::texts(&mut m, false).len();
        if n == 0 {
            ctx.skip("no text");
            return Ok(());
        }
        let i = ch.pick(n);
        let len = *ch.of(&[65_536usize, 65_540, 131_072]);
        for others in [65_535usize, 0, 1, 2, 300] {
            for (k, mut x) in model::texts(&mut m, false).into_iter().enumerate() {
                x.1.set_len(if k == i { len } else { others });
            }
            refused(ctx, ver, &format!("{} with text field {i} of {len} bytes, the others of {others}", m.name()), &Pk::from_model(ver, &m, false))?;
        }
        // one neighbour apart
        for j in 0..n {
            if j == i {
                continue;
            }
            for (near, far) in [(0usize, 3usize), (3, 0), (65_535, 0)] {
                for (k, mut x) in model::texts(&mut m, false).into_iter().enumerate() {
                    x.1.set_len(if k == i { len } else if k == j { near } else { far });
                }
                refused(ctx, ver, &format!("{} with text field {i} of {len} bytes, {j} of {near}, the others of {far}", m.name()), &Pk::from_model(ver, &m, false))?;
            }
        }
        Ok(())
    }));
    v.push(expl("one text that cannot be encoded, under every setting of the flags and packet identifiers beside it", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]);
        let base = *ch.of(&[Base::Minimal, Base::Full]);
        let mut m = gen::base_packet(ver, t, base);
        let n = model::texts(&mut m, false).len();
        if n == 0 {
            ctx.skip("no text");
            return Ok(());
        }
        let i = ch.pick(n);
        match &mut m {
            M::Connect { keep_alive, clean, will, .. } => {
                *keep_alive = *ch.of(&[0u16, 10, 65_535]);
                *clean = (ch.pick(2) == 1);
                if let Some(w) = will {
                    w.qos = ch.pick(3) as u8;
                    w.retain = (ch.pick(2) == 1);
                }
            }
            M::ConnAck { sp, code, .. } => {
                *sp = (ch.pick(2) == 1);
                *code = *ch.of(&[0u8, 0x87]);
            }
            M::Publish { dup, qos, retain, pkid, .. } => {
                *dup = (ch.pick(2) == 1);
                *qos = ch.pick(3) as u8;
                *retain = (ch.pick(2) == 1);
                *pkid = *ch.of(&[1u16, 256, 65_535]);
            }
            M::Ack { kind, pkid, reason, .. } => {
                *pkid = *ch.of(&[1u16, 256, 65_535]);
                *reason = *ch.of(if *kind >= 6 { &[0u8, 0x92] } else { &[0u8, 0x80] });
            }
            M::Subscribe { pkid, filters, .. } => {
                *pkid = *ch.of(&[1u16, 256, 65_535]);
                if let Some(f) = filters.last_mut() {
                    f.qos = ch.pick(3) as u8;
                    if ver == 5 {
                        f.nolocal = (ch.pick(2) == 1);
                        f.rap = (ch.pick(2) == 1);
                        f.rule = ch.pick(3) as u8;
                    }
                }
            }
            M::SubAck { pkid, .. } | M::Unsubscribe { pkid, .. } | M::UnsubAck { pkid, .. } => *pkid = *ch.of(&[1u16, 256, 65_535]),
            _ => {}
        }
        let settings = format!("{m:?}");
        let settings = settings.chars().take(160).collect::<String>();
        for len in [65_536usize, 70_000] {
            for others in [None, Some(0usize), Some(1)] {
                let mut m = m.clone();
                for (k, mut x) in model::texts(&mut m, false).into_iter().enumerate() {
                    if k == i {
                        x.1.set_len(len);
                    } else if let Some(o) = others {
                        x.1.set_len(o);
                    }
                }
                refused(ctx, ver, &format!("{settings}.. with text field {i} of {len} bytes, the others of {others:?}"), &Pk::from_model(ver, &m, false))?;
            }
        }
        Ok(())
    }));
    v.push(expl("subscription identifiers: one that cannot be encoded at every place of a list", 0, |ctx, ch| {
        let ver = 5;
        let big = *ch.of(&[268_435_456u64, 268_435_457, 1 << 28 | 5, 1 << 29, 1 << 31, 1 << 32, 1 << 35, 1 << 40, 1 << 63, u64::MAX]);
        for n in [1usize, 2, 3, 4, 9] {
            for at in 0..n {
                for others in [0u64, 1, 5, 127, 128, 16_384, 2_097_152, 268_435_455] {
                    for mut m in [gen::base_packet(5, 3, Base::Minimal), gen::base_packet(5, 3, Base::Full)] {
                        let props = m.props_mut().unwrap();
                        props.retain(|p| p.0 != 11);
                        props.extend((0..n).map(|k| (11, PV::Var(if k == at { big } else { others }))));
                        refused(ctx, ver, &format!("Publish with {n} subscription identifiers, number {at} {big}, the others {others}"), &Pk::from_model(ver, &m, false))?;
                    }
                }
            }
        }
        for mut m in [gen::base_packet(5, 8, Base::Minimal), gen::base_packet(5, 8, Base::Full)] {
            let props = m.props_mut().unwrap();
            props.retain(|p| p.0 != 11);
            props.insert(0, (11, PV::Var(big)));
            refused(ctx, ver, &format!("Subscribe with subscription identifier {big}"), &Pk::from_model(ver, &m, false))?;
        }
        Ok(())
    }));
    v.push(expl("long lists of long filters, one that cannot be encoded at each place", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let sub = ch.pick(2) == 0;
        let n = *ch.of(&[1usize, 2, 3, 5, 9, 17, 33]);
        let k = ch.pick(n);
        let each = *ch.of(&[3usize, 4096, 65_535]);
        let path = |i: usize| "f".repeat(if i == k { 65_536 } else { each });
        let props: Props = if ver == 5 && each != 3 { vec![(38, PV::Pair("k".repeat(each), "v".into()))] } else { vec![] };
        let m = if sub {
            M::Subscribe { pkid: 9, filters: (0..n).map(|i| Filter { path: path(i), qos: 1, nolocal: false, rap: false, rule: 0 }).collect(), props }
        } else {
            M::Unsubscribe { pkid: 9, filters: (0..n).map(path).collect(), props }
        };
        refused(ctx, ver, &format!("{} of {n} filters of {each} bytes, number {k} of 65536", m.name()), &Pk::from_model(ver, &m, false))
    }));
    v.push(expl("two unencodable parts at once", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[1u8, 3, 8, 10]);
        let mut m = gen::base_packet(ver, t, Base::Full);
        let n = model::texts(&mut m, false).len();
        let (i, j) = (ch.pick(n), ch.pick(n));
        model::texts(&mut m, false)[i].1.set_len(65_536);
        model::texts(&mut m, false)[j].1.set_len(65_600);
        refused(ctx, ver, &format!("{} with text fields {i} and {j} too long", m.name()), &Pk::from_model(ver, &m, false))
    }));
    // per version: three good packets, up to eight bad ones, as the crate has them
    type Sides = (Vec<(M, Pk)>, Vec<(String, Pk)>);
    let sides: [std::sync::OnceLock<Sides>; 2] = Default::default();
    v.push(expl("histories of good and bad writes stay decodable", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let (goods, bads) = sides[(ver - 4) as usize].get_or_init(|| {
            let menu = gen::menu(ver);
            let mut bads = vec![];
            for t in 1..=14u8 {
                let b = bad_packets(ver, t, Base::Full);
                if !b.is_empty() {
                    bads.push(b[0].clone());
                    bads.push(b[b.len() - 1].clone());
                }
            }
            let step = (bads.len() / 8).max(1);
            let bads = bads.iter().step_by(step).take(8).map(|(n, m)| (n.clone(), Pk::from_model(ver, m, false))).collect();
            let goods = [0, menu.len() / 2, 4].iter().map(|i| (menu[*i].norm(), Pk::from_model(ver, &menu[*i], false))).collect();
            (goods, bads)
        });
        let n = if th { 5 } else { 4 };
        let mut buf = BytesMut::new();
        let mut want = vec![];
        for _ in 0..n {
            let k = ch.pick(goods.len() + bads.len());
            if k < goods.len() {
                goods[k].1.write(&mut buf).map_err(|e| format!("v{ver} {:?}: {e:?}", goods[k].0))?;
                want.push(&goods[k].0);
            } else {
                let (name, p) = &bads[k - goods.len()];
                if p.write(&mut buf).is_ok() {
                    return Err(format!("v{ver} {name}: has no encoding, but write succeeds"));
                }
            }
        }
        let bytes = buf.clone();
        for w in &want {
            match adapt::read(ver, &mut buf, usize::MAX) {
                Ok(p) if p.model().norm() == **w => {}
                r => return Err(format!("v{ver} a buffer of good and refused writes ({}) reads {} where {w:?} was written", hex(&bytes), res(&r))),
            }
        }
        if !buf.is_empty() {
            return Err(format!("v{ver} refused writes leave {} in the buffer", hex(&buf)));
        }
        ctx.case("history decodable");
        Ok(())
    }));
    v.push(
        expl("remaining length just over the largest, for every way to get there", 0, |ctx, ch| {
            let ver = *ch.of(BOTH);
            let over = if ver == 4 { 3 } else { 4 };
            for n in [268_435_456usize, 268_435_457, 268_435_500] {
                let p = big_publish(ver, n - over);
                let mut b = BytesMut::from(&[1u8, 2, 3][..]);
                match p.write(&mut b) {
                    Ok(_) => return Err(format!("v{ver} publish of remaining length {n} is written")),
                    Err(_) if b[..] != [1, 2, 3] => return Err(format!("v{ver} publish of remaining length {n}: refused, but the buffer now holds {} bytes", b.len())),
                    Err(_) => ctx.case("refused, untouched"),
                }
            }
            Ok(())
        })
        .single(),
    );
    v.push(
        expl("publishes larger than any remaining length by whole powers of two", 0, |ctx, ch| {
            // fresh zero pages: an encoder that looks at the size first never touches them
            use std::sync::OnceLock;
            static HUGE: OnceLock<&'static [u8]> = OnceLock::new();
            let zeros = *HUGE.get_or_init(|| {
                use std::alloc::{GlobalAlloc, Layout, System};
                let n = (4usize << 30) + 128;
                // past the meter, which watches what is really used
                let p = unsafe { System.alloc_zeroed(Layout::from_size_align(n, 4096).unwrap()) };
                assert!(!p.is_null(), "HARNESS: address space");
                unsafe { std::slice::from_raw_parts(p, n) }
            });
            let ver = *ch.of(BOTH);
            let over = if ver == 4 { 3 } else { 4 };
            for n in [1usize << 29, 1 << 30, 1 << 31, 3 << 29, 1 << 32] {
                for more in [0usize, 4, 5, 100] {
                    let payload = Bytes::from_static(&zeros[..n + more - over]);
                    let p = if ver == 4 {
                        Pk::V4(adapt::v4::Packet::Publish(adapt::v4::Publish::from_bytes("t", adapt::QoS::AtMostOnce, payload)))
                    } else {
                        Pk::V5(adapt::v5::Packet::Publish(adapt::v5::Publish::from_bytes("t", adapt::QoS::AtMostOnce, payload)))
                    };
                    let mut b = BytesMut::from(&[1u8, 2, 3][..]);
                    let r = p.write(&mut b);
                    if r.is_ok() || b[..] != [1, 2, 3] {
                        return Err(format!("v{ver} publish of remaining length {}: write gives {r:?}, the buffer then holds {} bytes", n + more, b.len()));
                    }
                    ctx.case("refused, untouched");
                }
            }
            Ok(())
        })
        .single(),
    );
    v.push(
        expl("lists too long for any remaining length", 0, |ctx, ch| {
            let ver = *ch.of(BOTH);
            let which = ch.pick(3);
            // 4100 entries of 65535 bytes: over 2^28
            let n = 4100;
            let s = gen::xs(65_535);
            let m = match which {
                0 => M::Subscribe { pkid: 1, filters: (0..n).map(|_| Filter { path: s.clone(), qos: 0, nolocal: false, rap: false, rule: 0 }).collect(), props: vec![] },
                1 => M::Unsubscribe { pkid: 1, filters: vec![s.clone(); n], props: vec![] },
                _ if ver == 5 => {
                    let mut m = gen::base_packet(5, 3, Base::Minimal);
                    *m.props_mut().unwrap() = (0..n).map(|_| (38, PV::Pair(s.clone(), String::new()))).collect();
                    m
                }
                _ => {
                    ctx.skip("no properties in 3.1.1");
                    return Ok(());
                }
            };
            let p = Pk::from_model(ver, &m, false);
            drop(m);
            let mut b = BytesMut::from(&[1u8, 2, 3][..]);
            match p.write(&mut b) {
                Ok(_) => Err(format!("v{ver} a list packet of more than 2^28 bytes is written")),
                Err(_) if b[..] != [1, 2, 3] => Err(format!("v{ver} oversize list: refused, but the buffer now holds {} bytes", b.len())),
                Err(_) => {
                    ctx.case("refused, untouched");
                    Ok(())
                }
            }
        })
        .single(),
    );
    v
}

// ---------------------------------------------------------------- C15
fn c15_header(ctx: &mut Ctx, lo: usize, hi: usize) -> Outcome {
    for n in lo..hi {
        let mut b = [0x30u8; 5];
        let k = {
            let (mut x, mut i) = (n, 1);
            loop {
                b[i] = (x & 127) as u8;
                x >>= 7;
                i += 1;
                if x == 0 {
                    break;
                }
                b[i - 1] |= 128;
            }
            i
        };
        let r = mqttbytes::check(b[..k].iter(), usize::MAX);
        let ok = match &r {
            Ok(h) => n == 0 && h.frame_length() == 2,
            Err(Error::InsufficientBytes(m)) => n > 0 && *m == n,
            _ => false,
        };
        if !ok {
            return Err(format!("the length field {} means {n}, check answers {r:?}", hex(&b[1..k])));
        }
    }
    crate::adapt::OPS.with(|c| c.set(c.get() + (hi - lo) as u64));
    ctx.cases += (hi - lo) as u64 - 1;
    ctx.case("remaining length read back");
    Ok(())
}
fn c15_subid(ctx: &mut Ctx, lo: usize, hi: usize, tmpl: &mut Pk, buf: &mut BytesMut) -> Outcome {
    for n in lo..hi {
        if let Pk::V5(adapt::v5::Packet::Subscribe(s)) = tmpl {
            s.properties.as_mut().unwrap().id = Some(n);
        }
        buf.clear();
        tmpl.write(buf).map_err(|e| format!("subscription identifier {n}: {e:?}"))?;
        let (mut want, k) = ([0u8; 4], enc_var(n));
        want[..k.1].copy_from_slice(&k.0[..k.1]);
        let at = 6; // type, remaining length, packet id, section length, identifier
        if buf.len() != at + k.1 + 4 || buf[at - 1] != 11 || buf[at..at + k.1] != want[..k.1] || buf[at - 2] as usize != 1 + k.1 {
            return Err(format!("subscription identifier {n} is written as {}", hex(buf)));
        }
        let whole = buf.clone();
        match adapt::v5::read(buf, usize::MAX) {
            Ok(adapt::v5::Packet::Subscribe(s)) if s.properties.as_ref().and_then(|p| p.id) == Some(n) => {}
            r => return Err(format!("subscription identifier {n} written as {} reads back as {r:?}", hex(&whole))),
        }
    }
    ctx.cases += (hi - lo) as u64 - 1;
    ctx.case("subscription identifier written and read back");
    Ok(())
}
fn enc_var(n: usize) -> ([u8; 4], usize) {
    let mut b = [0u8; 4];
    let (mut x, mut i) = (n, 0);
    loop {
        b[i] = (x & 127) as u8;
        x >>= 7;
        i += 1;
        if x == 0 {
            return (b, i);
        }
        b[i - 1] |= 128;
    }
}
pub fn c15(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(expl("remaining length field: every value 0..268435455 read", 0, |ctx, ch| {
        let i = ch.pick(4096);
        c15_header(ctx, i << 16, (i + 1) << 16)
    }));
    let chunks: Vec<(usize, usize)> = if th {
        (0..4096usize).map(|i| (i << 16, (i + 1) << 16)).collect()
    } else {
        // everything up to 2^21 + 2^16, every 2^16 block's edges, and the top
        let mut c: Vec<(usize, usize)> = (0..33usize).map(|i| (i << 16, (i + 1) << 16)).collect();
        for i in 33..4096usize {
            c.push(((i << 16) - 4, (i << 16) + 4));
        }
        c.push((268_435_456 - 70_000, 268_435_456));
        c
    };
    v.push(expl(if th { "subscription identifier: every value 1..268435455 written and read" } else { "subscription identifier: every value up to 2^21+2^16, around multiples of 2^16, and the top 70000, written and read" }, 0, move |ctx, ch| {
        let (lo, hi) = chunks[ch.pick(chunks.len())];
        let m = M::Subscribe { pkid: 1, filters: vec![Filter { path: "a".into(), qos: 0, nolocal: false, rap: false, rule: 0 }], props: vec![(11, PV::Var(1))] };
        let mut t = Pk::from_model(5, &m, false);
        let mut b = BytesMut::with_capacity(1 << 16);
        c15_subid(ctx, lo, hi, &mut t, &mut b)
    }));
    v.push(expl("subscription identifier in a publish, alone and among others, on every edge", 0, |ctx, ch| {
        let edge = *ch.of(&[0usize, 128, 16_384, 2_097_152, 268_435_456]);
        let k = ch.pick(3);
        for n in edge.saturating_sub(300)..(edge + 300).min(268_435_456) {
            let mut m = gen::base_packet(5, 3, Base::Minimal);
            let mut ids = vec![n as u64, 1, 300];
            ids.rotate_right(k);
            *m.props_mut().unwrap() = ids[..=k.min(2)].iter().chain([&(n as u64)]).map(|x| (11, PV::Var(*x))).collect();
            wire_format(ctx, 5, &m)?;
            round_trip(ctx, 5, &m)?;
        }
        Ok(())
    }));
    v.push(expl("remaining length written: every size of publish up to 40000 bytes and around each boundary, and larger than 268435455 refused", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let over = if ver == 4 { 3 } else { 4 };
        let blocks: Vec<(usize, usize)> = (0..20).map(|i| (i * 2000, (i + 1) * 2000)).chain([(2_097_140, 2_097_160)]).collect();
        let (lo, hi) = blocks[ch.pick(blocks.len())];
        let mut b = BytesMut::with_capacity(hi + 10);
        for n in lo.max(over)..hi {
            let p = big_publish(ver, n - over);
            b.clear();
            p.write(&mut b).map_err(|e| format!("v{ver} publish of remaining length {n}: {e:?}"))?;
            let w = enc::varint(n);
            if b.len() != 1 + w.len() + n || b[1..1 + w.len()] != w[..] {
                return Err(format!("v{ver} remaining length {n} is written as {}", hex(&b[1..6.min(b.len())])));
            }
            match adapt::read(ver, &mut b, usize::MAX) {
                Ok(q) if q.size_query() == Some(n) => {}
                r => return Err(format!("v{ver} publish of remaining length {n} reads back as {}", res(&r).chars().take(100).collect::<String>())),
            }
            ctx.case("remaining length written and read back");
        }
        Ok(())
    }));
    v.push(
        expl("remaining length written: the largest value, and the first over it", 0, |ctx, ch| {
            let ver = *ch.of(BOTH);
            let over = if ver == 4 { 3 } else { 4 };
            let n = 268_435_455usize;
            let mut b = BytesMut::with_capacity(n + 10);
            big_publish(ver, n - over).write(&mut b).map_err(|e| format!("v{ver} publish of remaining length {n}: {e:?}"))?;
            if b[..5] != [0x30, 0xFF, 0xFF, 0xFF, 0x7F] || b.len() != n + 5 {
                return Err(format!("v{ver} remaining length {n} is written as {}", hex(&b[..6])));
            }
            match adapt::read(ver, &mut b, usize::MAX) {
                Ok(q) if q.size_query() == Some(n) => {}
                Ok(_) => return Err(format!("v{ver} publish of remaining length {n} reads back shorter")),
                Err(e) => return Err(format!("v{ver} publish of remaining length {n} reads back as {e:?}")),
            }
            b.clear();
            if big_publish(ver, n + 1 - over).write(&mut b).is_ok() {
                return Err(format!("v{ver} remaining length {} is written", n + 1));
            }
            ctx.case("largest value");
            Ok(())
        })
        .single(),
    );
    v.push(expl("property section length written: every size up to 40000 and around each boundary, in every packet", 0, |ctx, ch| {
        let t = *ch.of(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]);
        let block = ch.pick(22);
        let (lo, hi) = match block {
            20 => (2_097_140, 2_097_160),
            21 => (65_530, 65_560),
            i if t == 3 || t == 15 || i == 0 => (i * 2000, (i + 1) * 2000),
            8 => (16_370, 16_400),
            _ => (0, 0),
        };
        for n in lo..hi {
            let Some(p) = section_of(n) else { continue };
            let mut m = gen::base_packet(5, if t == 15 { 1 } else { t }, if t == 15 { Base::Full } else { Base::Minimal });
            if t == 15 {
                if let M::Connect { will: Some(w), .. } = &mut m {
                    w.props = p;
                }
            } else {
                *m.props_mut().unwrap() = p;
            }
            wire_format(ctx, 5, &m)?;
            round_trip(ctx, 5, &m)?;
        }
        ctx.case("block");
        Ok(())
    }));
    v.push(expl("malformed and unfinished length fields, at frame level and inside complete frames", 0, |ctx, ch| {
        let conts = [0x80u8, 0x81, 0xFF, 0xC0, 0x8F];
        let pick: Vec<u8> = (0..4).map(|_| *ch.of(&conts)).collect();
        // frame level
        for b1 in 0..=255u8 {
            for ver in [4u8, 5] {
                for tail in [&[][..], &[0], &[0x7F, 0, 0], &[0xFF]] {
                    let mut b = vec![b1];
                    b.extend_from_slice(&pick);
                    b.extend_from_slice(tail);
                    let (r, left) = adapt::read_slice(ver, &b, usize::MAX);
                    if r != Err(Error::MalformedRemainingLength) || left[..] != b[..] {
                        return Err(format!("v{ver} {} has a malformed length field but gives {}", hex(&b), res(&r)));
                    }
                    ctx.case("frame level, malformed");
                }
                for k in 0..4 {
                    let mut b = vec![b1];
                    b.extend_from_slice(&pick[..k]);
                    let (r, _) = adapt::read_slice(ver, &b, usize::MAX);
                    if !matches!(r, Err(Error::InsufficientBytes(_))) {
                        return Err(format!("v{ver} {} has an unfinished length field but gives {}", hex(&b), res(&r)));
                    }
                    ctx.case("frame level, unfinished");
                }
            }
        }
        // property section length and subscription identifier inside a complete frame
        for t in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15] {
            let whole = with_section(t, &[], 0, 0);
            let e_hdr = 2;
            let suffix: usize = match t {
                1 | 9 | 11 => [3, 1, 1][[1u8, 9, 11].iter().position(|x| *x == t).unwrap()],
                15 => 6,
                3 => 2,
                8 => 4,
                10 => 3,
                _ => 0,
            };
            let at = whole.len() - suffix - 1;
            for k in 1..=4usize {
                for tail in 0..2 {
                    // k continuation bytes in place of the section length; then the end, or more
                    let mut body = whole[e_hdr..at].to_vec();
                    body.extend_from_slice(&pick[..k]);
                    if tail == 1 && k == 4 {
                        body.extend_from_slice(&[0, 0, 1, b'x', 0]);
                    } else if tail == 1 {
                        continue;
                    }
                    let f = bytesgen::frame(whole[0], &body);
                    let (r, _) = adapt::read_slice(5, &f, usize::MAX);
                    match r {
                        Err(Error::InsufficientBytes(_)) | Ok(_) => return Err(format!("v5 {} holds a malformed property length but gives {}", hex(&f), res(&r))),
                        Err(_) => ctx.case("inside, rejected"),
                    }
                }
            }
        }
        for t in [3u8, 8] {
            for k in 1..=4usize {
                let mut s = vec![11];
                s.extend_from_slice(&pick[..k]);
                for more in 0..2 {
                    if more == 1 {
                        if k < 4 {
                            continue;
                        }
                        s.push(0);
                    }
                    let f = with_section(t, &s, s.len(), 0);
                    let (r, _) = adapt::read_slice(5, &f, usize::MAX);
                    match r {
                        Err(Error::InsufficientBytes(_)) | Ok(_) => return Err(format!("v5 {} holds a malformed subscription identifier but gives {}", hex(&f), res(&r))),
                        Err(_) => ctx.case("inside, rejected"),
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("length fields in every spelling of one to four bytes over the edge bytes", 0, |ctx, ch| {
        let k = 1 + ch.pick(4);
        let edge = [0u8, 1, 2, 63, 64, 126, 127];
        let mut f: Vec<u8> = (0..k).map(|_| *ch.of(&edge)).collect();
        for x in f[..k - 1].iter_mut() {
            *x |= 128;
        }
        let n: usize = f.iter().enumerate().map(|(i, x)| ((x & 127) as usize) << (7 * i)).sum();
        // as a remaining length
        let mut b = vec![0xD0];
        b.extend_from_slice(&f);
        let r = adapt::check(&b, usize::MAX);
        let ok = match &r {
            Ok(h) => n == 0 && h.frame_length() == 1 + k,
            Err(Error::InsufficientBytes(m)) => n > 0 && *m == n,
            _ => false,
        };
        if !ok {
            return Err(format!("the length field {} means {n}, check answers {r:?}", hex(&f)));
        }
        // as a subscription identifier (a spelling longer than needed may be refused)
        for t in [3u8, 8] {
            let mut s = vec![11];
            s.extend_from_slice(&f);
            let fr = with_section(t, &s, s.len(), 0);
            let (r, _) = adapt::read_slice(5, &fr, usize::MAX);
            match &r {
                Ok(p) => {
                    let mut m = p.model();
                    if m.props_mut().unwrap()[..] != [(11, PV::Var(n as u64))] {
                        return Err(format!("v5 {} spells subscription identifier {n} but decodes to {m:?}", hex(&fr)));
                    }
                    ctx.case("identifier value");
                }
                Err(_) if n != 0 && enc::varint(n).len() == k => return Err(format!("v5 {} spells subscription identifier {n} but gives {}", hex(&fr), res(&r))),
                Err(_) => ctx.case("identifier refused (zero or overlong)"),
            }
        }
        // as a property section length over a section of that size
        if n <= 300 {
            if let Some(p) = section_of(n) {
                let content = enc::section(3, &p);
                let content = &content[enc::varint(n).len()..];
                for t in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15] {
                    let fr = with_section(t, content, n, k - enc::varint(n).len());
                    let (r, _) = adapt::read_slice(5, &fr, usize::MAX);
                    match (&r, dec::decode(5, &fr)) {
                        (Ok(p), Ok((m, _))) if p.model().norm() == m.norm() => ctx.case("section length value"),
                        (Err(_), _) if enc::varint(n).len() < k => ctx.case("section length refused (overlong)"),
                        (_, w) => return Err(format!("v5 {} gives {}, expected {w:?}", hex(&fr), res(&r))),
                    }
                }
            }
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C22
fn rewrite(ctx: &mut Ctx, ver: u8, b: &[u8]) -> Outcome {
    let (r, _) = adapt::read_slice(ver, b, usize::MAX);
    let Ok(p) = r else {
        ctx.case("not accepted");
        return Ok(());
    };
    let m = p.model();
    if ver == 4 && matches!(m, M::Connect { level: 5, .. }) {
        ctx.case("3.1.1 result declaring level 5: outside");
        return Ok(());
    }
    let w = write_new(&p).map_err(|e| format!("v{ver} {} is accepted as {m:?}, but writing that fails with {e:?}", hex(b)))?;
    let (r2, left) = adapt::read_slice(ver, &w, usize::MAX);
    match r2 {
        Ok(q) if q == p && q.model() == m && left.is_empty() => {
            let w2 = write_new(&q).map_err(|e| format!("v{ver} {m:?}: second rewriting fails with {e:?}"))?;
            if w2 != w {
                return Err(format!("v{ver} {} is rewritten as {} and then as {}", hex(b), hex(&w), hex(&w2)));
            }
            ctx.case("canonical");
            Ok(())
        }
        r2 => Err(format!("v{ver} {} is accepted as {m:?} and rewritten as {}, which reads {} ({} bytes left)", hex(b), hex(&w), res(&r2), left.len())),
    }
}
pub fn c22(th: bool) -> Vec<Exploration> {
    frame_space(BOTH, th, Arc::new(rewrite))
}

// ---------------------------------------------------------------- C26
fn level4_frame(ctx: &mut Ctx, b: &[u8]) -> Outcome {
    let (r5, l5) = adapt::read_slice(5, b, usize::MAX);
    let (r4, l4) = adapt::read_slice(4, b, usize::MAX);
    let ok = match (&r5, &r4) {
        (Ok(a), Ok(b)) => a.model() == b.model(),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !ok || l5 != l4 {
        return Err(format!("CONNECT {} of level 4: MQTT 5 decoder gives {}, 3.1.1 decoder {}", hex(b), res(&r5), res(&r4)));
    }
    ctx.case(if r5.is_ok() { "same values" } else { "same rejection" });
    Ok(())
}
fn is_level4(b: &[u8]) -> bool {
    let h = crate::model_header_len(b);
    b[0] >> 4 == 1 && b.len() >= h + 7 && b[h..h + 7] == *b"\0\x04MQTT\x04"
}
fn level4_value(ctx: &mut Ctx, m: &M) -> Outcome {
    let b4 = write_new(&Pk::from_model(4, m, false)).map_err(|e| format!("{m:?}: {e:?}"))?;
    let p5 = Pk::from_model(5, m, false);
    let mut b5 = BytesMut::from(&[0x77u8; 5][..]);
    let n = p5.write(&mut b5).map_err(|e| format!("{m:?}: MQTT 5 module refuses it with {e:?}"))?;
    if b5[5..] != b4[..] || n != b4.len() {
        return Err(format!("{m:?} is written by the 3.1.1 module as {}, by the MQTT 5 module as {} (reported {n})", hex(&b4), hex(&b5[5..])));
    }
    if p5.size_query() != Pk::from_model(4, m, false).size_query() {
        return Err(format!("{m:?}: len() is {:?} in the MQTT 5 module, {:?} in the other", p5.size_query(), Pk::from_model(4, m, false).size_query()));
    }
    level4_frame(ctx, &b4)
}
/// A value of level 4 that holds properties: the layout has no room for them.
fn level4_holding(ctx: &mut Ctx, mut m: M, some_empty: bool) -> Outcome {
    if let M::Connect { level, .. } = &mut m {
        *level = 4;
    }
    let mut bare = m.clone();
    if let M::Connect { props, will, .. } = &mut bare {
        props.clear();
        if let Some(w) = will {
            w.props.clear();
        }
    }
    let b4 = write_new(&Pk::from_model(4, &bare, false)).map_err(|e| format!("{bare:?}: {e:?}"))?;
    let p5 = Pk::from_model(5, &m, some_empty);
    let mut b5 = BytesMut::from(&[0x77u8; 5][..]);
    match p5.write(&mut b5) {
        // to refuse it does no harm
        Err(_) if b5[..] == [0x77; 5] => ctx.case("refused"),
        Ok(n) if b5[5..] == b4[..] && n == b4.len() => ctx.case("properties left out"),
        r => return Err(format!("{m:?} is written by the MQTT 5 module as {} (result {r:?}), in the 3.1.1 layout it is {}", hex(&b5[5..]), hex(&b4))),
    }
    Ok(())
}
pub fn c26(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(expl("level-4 CONNECT values: all fields, deviations from minimal and full", if th { 4 } else { 3 }, |ctx, ch| {
        let base = if ch.pick(2) == 0 { Base::Minimal } else { Base::Full };
        let m = gen::packet(ch, 4, 1, base);
        ctx.sample(|| format!("{m:?}"));
        level4_value(ctx, &m)
    }));
    v.push(expl("level-4 CONNECT values that hold properties and will properties, or empty sections of them: all fields, every subset", if th { 3 } else { 2 }, |ctx, ch| {
        let base = if ch.pick(2) == 0 { Base::Minimal } else { Base::Full };
        let some_empty = ch.pick(2) == 1;
        if ch.pick(2) == 0 {
            let m = gen::packet(ch, 5, 1, base);
            return level4_holding(ctx, m, some_empty);
        }
        let bits = gen::lattice_bits(1);
        let high = ch.pick(1 << (bits - 7)) as u64;
        for low in 0..128 {
            level4_holding(ctx, gen::lattice(1, high << 7 | low), some_empty)?;
        }
        Ok(())
    }));
    v.push(expl("level-4 CONNECT frames: every single fault", 0, |ctx, ch| {
        let bs = bytesgen::bases(4, 1);
        let e = ch.of(&bs);
        bytesgen::faults(e, &mut |b| if is_level4(b) { level4_frame(ctx, b) } else { Ok(()) })
    }));
    v.push(expl("level-4 CONNECT frames: every double fault of sharp values", 0, |ctx, ch| {
        let bs = bytesgen::bases(4, 1);
        let e = ch.of(&bs);
        let i = ch.pick(bytesgen::body(e).len());
        ctx.case("frame");
        bytesgen::double_faults(e, i, &mut |b| if is_level4(b) { level4_frame(ctx, b) } else { Ok(()) })
    }));
    v.push(expl("every connect flag byte with every sharp body up to four bytes behind it", 0, move |ctx, ch| {
        let flags = ch.pick(256) as u8;
        for n in 0..if th { 4 } else { 3 } {
            let mut s = b"\0\x04MQTT\x04".to_vec();
            s.extend_from_slice(&[flags, 0, 10, 0, 0]);
            bytesgen::all_bodies(&bytesgen::SHARP, n, &s, &mut |b| level4_frame(ctx, &bytesgen::frame(0x10, b)))?;
        }
        Ok(())
    }));
    v.push(expl("the level alone decides: the same value at both levels in the MQTT 5 module", 2, |ctx, ch| {
        let base = if ch.pick(2) == 0 { Base::Minimal } else { Base::Full };
        let mut m = gen::packet(ch, 4, 1, base);
        if let M::Connect { level, .. } = &mut m {
            *level = 5;
        }
        // at level 5 the MQTT 5 layout applies: property lengths are there
        wire_format(ctx, 5, &m)?;
        round_trip(ctx, 5, &m)?;
        // and the same bytes with the level turned to 4 are read by the 3.1.1 layout
        let e = enc::encode(5, &m, Form::Full);
        let at = e.fields.iter().find(|f| f.kind == FK::Level).unwrap().off;
        let mut b = e.bytes.clone();
        b[at] = 4;
        level4_frame(ctx, &b)?;
        // a 3.1.1 layout under level 5 is judged by the MQTT 5 rules
        if let M::Connect { level, .. } = &mut m {
            *level = 4;
        }
        let e = enc::encode(4, &m, Form::Full);
        let mut b = e.bytes.clone();
        b[at - bytesgen::hdr_len(&enc::encode(5, &m, Form::Full)) + bytesgen::hdr_len(&e)] = 5;
        let class = crate::stream::judge_frame(5, &b)?;
        ctx.case(class);
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C28
fn publish(ver: u8, dup: bool, qos: u8, retain: bool, pkid: u16, props: &model::Props, payload: &[u8]) -> M {
    M::Publish { dup, qos, retain, topic: "a/b".into(), pkid, props: if ver == 5 { props.clone() } else { vec![] }, payload: payload.to_vec() }
}
fn ids(ctx: &mut Ctx, ver: u8, m: &M) -> Outcome {
    let M::Publish { dup, qos, retain, topic, pkid, .. } = m else { unreachable!() };
    let p = Pk::from_model(ver, m, false);
    let mut b = BytesMut::from(&[0x11u8, 0x22][..]);
    let r = p.write(&mut b);
    if *qos > 0 && *pkid == 0 {
        if r.is_ok() {
            return Err(format!("v{ver} {m:?} is written as {}", hex(&b)));
        }
    } else {
        let n = r.map_err(|e| format!("v{ver} {m:?}: {e:?}"))?;
        let w = &b[2..];
        let want = enc::encode(ver, m, Form::Full).bytes;
        let h = crate::model_header_len(w);
        let ok = n == w.len()
            && w[0] == 0x30 | (*dup as u8) << 3 | qos << 1 | *retain as u8
            && (*qos == 0 || (w.len() >= h + 4 + topic.len() && w[h + 2 + topic.len()..h + 4 + topic.len()] == pkid.to_be_bytes()))
            && w.len() == want.len();
        if !ok {
            return Err(format!("v{ver} {m:?} is written as {}, expected {}", hex(w), hex(&want)));
        }
    }
    // decoding, from reference bytes
    let f = enc::encode(ver, m, Form::Full).bytes;
    let (r, _) = adapt::read_slice(ver, &f, usize::MAX);
    match r {
        Ok(q) => {
            if *qos > 0 && *pkid == 0 {
                return Err(format!("v{ver} {} carries packet id 0 and decodes to {q:?}", hex(&f)));
            }
            let got = q.model();
            let same = match &got {
                M::Publish { dup: d, qos: g, retain: r, pkid: i, .. } => d == dup && g == qos && r == retain && *i == if *qos == 0 { 0 } else { *pkid },
                _ => false,
            };
            if !same || got.norm() != m.norm() {
                return Err(format!("v{ver} {} spells {m:?} and decodes to {got:?}", hex(&f)));
            }
            ctx.case(if *qos == 0 { "QoS 0, no id" } else { "id preserved" });
        }
        Err(e) => {
            if *qos > 0 && *pkid == 0 {
                ctx.case("id 0 refused");
            } else if *qos == 0 && *dup {
                ctx.case("DUP at QoS 0 refused");
            } else {
                return Err(format!("v{ver} {} ({m:?}) is rejected with {e:?}", hex(&f)));
            }
        }
    }
    Ok(())
}
pub fn c28(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(expl("every packet id with every flag combination, both versions", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let hi = ch.pick(256) as u16;
        let qos = ch.pick(3) as u8;
        for lo in 0..256u16 {
            for fl in 0..4u8 {
                ids(ctx, ver, &publish(ver, fl & 1 == 1, qos, fl & 2 == 2, hi << 8 | lo, &vec![], b"pp"))?;
            }
        }
        Ok(())
    }));
    v.push(expl("packet ids with every property subset, payload shape and topic length", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let qos = ch.pick(3) as u8;
        let bits = gen::lattice_bits(3);
        let subset = if ver == 5 { ch.pick(1 << bits) as u64 } else { 0 };
        let mut m = gen::lattice(3, subset);
        let ps = m.props_mut().unwrap().clone();
        let payloads: [&[u8]; 6] = [b"", b"\0", b"\0\x01", b"\0\0\0", &[0xFF; 200], b"\x26\0\x01k\0\x01v"];
        for pay in payloads {
            for id in [0u16, 1, 2, 10, 127, 128, 255, 256, 511, 0x2600, 0x7FFF, 0x8000, 0xFF00, 0xFFFF] {
                for fl in 0..4u8 {
                    let mut m = publish(ver, fl & 1 == 1, qos, fl & 2 == 2, id, &ps, pay);
                    ids(ctx, ver, &m)?;
                    for tl in [0usize, 1, 127, 128, 300, 16_384, 65_535] {
                        // an empty topic needs an alias
                        if tl == 0 && !ps.iter().any(|p| p.0 == 35) || tl > 1 && !th && id >= 3 {
                            continue;
                        }
                        if let M::Publish { topic, .. } = &mut m {
                            *topic = gen::xs(tl);
                        }
                        ids(ctx, ver, &m)?;
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("frames: every first byte of a publish, bodies cut around the packet id", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let b1 = 0x30 | ch.pick(16) as u8;
        for body in [&b"\0\x01t\0\0\0pp"[..], b"\0\x01t\0\x01\0pp", b"\0\x01t\x01\0\0pp", b"\0\0\0\x01\0", b"\0\x01t\xff\xff\0"] {
            for n in 0..=body.len() {
                let f = bytesgen::frame(b1, &body[..n]);
                let c = crate::stream::judge_frame(ver, &f)?;
                ctx.case(c);
            }
        }
        Ok(())
    }));
    v
}
