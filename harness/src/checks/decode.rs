//! Decoding: C04, C09, C10, C11, C16, C17, C23, C27, C30.
use super::framing::res;
use crate::adapt::{self, Error, Pk};
use crate::alloc_meter;
use crate::bytesgen::{self, SHARP};
use crate::explore::*;
use crate::gen::{self, Base};
use crate::model::enc::{self, Form, FK};
use crate::model::spec::{self, PT};
use crate::model::{self, dec, Filter, Props, M, PV};
use crate::spaces::*;
use crate::stream::{self, judge_frame};
use bytes::BytesMut;
use std::sync::Arc;

// ---------------------------------------------------------------- C04
fn survives(ctx: &mut Ctx, ver: u8, b: &[u8], limit: usize) -> Outcome {
    let (r, left) = adapt::read_slice(ver, b, limit);
    let class = match &r {
        Ok(p) => {
            // the packet can be looked at, too
            let _ = p.model();
            "packet"
        }
        Err(_) => "error",
    };
    if left.len() > b.len() {
        return Err(format!("v{ver} read of {} makes the buffer longer", hex(b)));
    }
    ctx.case(class);
    Ok(())
}
pub fn c04(th: bool) -> Vec<Exploration> {
    let mut v = frame_space(BOTH, th, Arc::new(|ctx, ver, b| survives(ctx, ver, b, usize::MAX)));
    v.extend(buffer_space(th, Arc::new(survives)));
    v.push(expl("every first byte with every body of up to two bytes", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let b1 = ch.pick(256) as u8;
        let all: Vec<u8> = (0..=255).collect();
        for n in 0..=2 {
            bytesgen::all_bodies(&all, n, &[], &mut |b| survives(ctx, ver, &bytesgen::frame(b1, b), usize::MAX))?;
        }
        Ok(())
    }));
    v.push(expl("stand-alone property sections: every identifier and content over the sharp alphabet, every length spelling", 0, move |ctx, ch| {
        let c = *ch.of(&adapt::EXTRACT_CTX);
        let first = ch.pick(256) as u8;
        let mut one = |b: &[u8]| -> Outcome {
            let r = adapt::extract(c, b).unwrap();
            ctx.case(if r.0.is_ok() { "section" } else { "error" });
            Ok(())
        };
        one(&[])?;
        one(&[first])?;
        for n in 1..=if th { 4 } else { 3 } {
            bytesgen::all_bodies(&SHARP, n, &[first], &mut one)?;
        }
        // declared length ahead of a section that starts with each identifier
        for n in 0..=if th { 4 } else { 3 } {
            bytesgen::all_bodies(&SHARP, n, &[first], &mut |s| {
                for d in [s.len() - 1, s.len(), s.len() + 1, 127] {
                    let mut x = enc::varint(d);
                    x.extend_from_slice(s);
                    one(&x)?;
                }
                Ok(())
            })?;
        }
        Ok(())
    }));
    v.push(expl("stand-alone property sections: every fault on full ones", 0, |ctx, ch| {
        let c = *ch.of(&adapt::EXTRACT_CTX);
        let all: Props = spec::props_of(c).into_iter().map(|(id, t)| (id, gen::default_pv(id, t, 0))).collect();
        let s = enc::section(c, &all);
        let mut one = |b: &[u8]| -> Outcome {
            let r = adapt::extract(c, b).unwrap();
            ctx.case(if r.0.is_ok() { "section" } else { "error" });
            Ok(())
        };
        for i in 0..s.len() {
            let mut x = s.clone();
            for y in 0..=255u8 {
                x[i] = y;
                one(&x)?;
                one(&x[..=i])?;
            }
            one(&s[..i])?;
        }
        Ok(())
    }));
    v.push(expl("large frames: lists and sections of tens of thousands of entries, huge strings, garbage of every byte", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let b1 = *ch.of(&first_bytes());
        let fill = *ch.of(&[0u8, 1, 11, 38, 0x7F, 0x80, 0xFF]);
        for n in [1_000usize, 65_537, 300_000] {
            let f = bytesgen::frame(b1, &vec![fill; n]);
            survives(ctx, ver, &f, usize::MAX)?;
            survives(ctx, ver, &f[..f.len() - 1], usize::MAX)?;
        }
        Ok(())
    }));
    v.push(expl("huge frames: well-formed lists and sections of up to two million of the smallest entries, whole and cut, and with a bad last entry", 0, move |ctx, ch| {
        let i = ch.pick(HUGE.len());
        let n = *ch.of(if th { &[100_000usize, 1_000_000, 2_000_000, 6_000_000] } else { &[100_000usize, 1_000_000, 2_000_000] });
        let (ver, b1, head, unit, props) = HUGE[i];
        let mut f = huge(b1, head, unit, props, n);
        let (r, left) = adapt::read_slice(ver, &f, usize::MAX);
        if !left.is_empty() {
            return Err(format!("v{ver} reading a {b1:#04x} frame of {n} entries {} leaves {} bytes", hex(unit), left.len()));
        }
        ctx.case(if r.is_ok() { "packet" } else { "error" });
        if r.is_err() {
            return Err(format!("v{ver} a {b1:#04x} frame of {n} entries {} is refused: {r:?}", hex(unit)));
        }
        drop(r);
        let last = f.len() - 1;
        f[last] = 0xFF;
        survives(ctx, ver, &f, usize::MAX)?;
        survives(ctx, ver, &f[..last], usize::MAX)
    }));
    v
}
/// Frames of many entries: version, first byte, the body ahead of them, one entry, whether the
/// entries are a property section (a length goes ahead of them).
const HUGE: [(u8, u8, &[u8], &[u8], bool); 14] = [
    (4, 0x82, &[0, 1], &[0, 0, 0], false),
    (4, 0x82, &[0, 1], &[0, 1, b'a', 1], false),
    (4, 0xA2, &[0, 1], &[0, 0], false),
    (4, 0xA2, &[0, 1], &[0, 1, b'a'], false),
    (4, 0x90, &[0, 1], &[0], false),
    (5, 0x82, &[0, 1, 0], &[0, 0, 0], false),
    (5, 0xA2, &[0, 1, 0], &[0, 0], false),
    (5, 0x90, &[0, 1, 0], &[0], false),
    (5, 0xB0, &[0, 1, 0], &[0], false),
    (5, 0x30, &[0, 1, b't'], &[38, 0, 0, 0, 0], true),
    (5, 0x30, &[0, 1, b't'], &[11, 1], true),
    (5, 0x40, &[0, 1, 0], &[38, 0, 0, 0, 0], true),
    (5, 0x20, &[0, 0], &[38, 0, 0, 0, 0], true),
    (5, 0xE0, &[0], &[38, 0, 0, 0, 0], true),
];
fn huge(b1: u8, head: &[u8], unit: &[u8], props: bool, n: usize) -> Vec<u8> {
    let list = unit.repeat(n);
    let mut body = head.to_vec();
    if props {
        body.extend(enc::varint(list.len()));
    }
    body.extend(list);
    bytesgen::frame(b1, &body)
}

// ---------------------------------------------------------------- C09, C10
fn judged(ctx: &mut Ctx, ver: u8, b: &[u8]) -> Outcome {
    let c = judge_frame(ver, b)?;
    ctx.case(c);
    Ok(())
}
const COUNTS: [usize; 22] = [511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10_000, 10_001, 16_384, 32_769, 65_536, 65_537];
/// Frames whose list has very many entries, each unlike its neighbours, whole and with one byte
/// less at the end.
fn long_lists(vers: &'static [u8]) -> Exploration {
    expl("lists of every number of entries up to 300, and near boundaries up to 65537", 0, move |ctx, ch| {
        let ver = *ch.of(vers);
        let kind = ch.pick(5);
        // a part of the counts
        let part = ch.pick(8);
        for n in (0..=300usize).chain(COUNTS).skip(part).step_by(8) {
            let mut body = vec![0, 1];
            if ver == 5 {
                body.push(0);
            }
            let b1 = match kind {
                0 => 0x82,
                1 => 0xA2,
                2 | 3 => 0x90,
                _ => 0xB0,
            };
            if kind == 4 && ver == 4 {
                ctx.skip("no such list");
                return Ok(());
            }
            for i in 0..n {
                match kind {
                    0 | 1 => {
                        let s = format!("{i}");
                        body.extend([0, s.len() as u8]);
                        body.extend(s.bytes());
                        if kind == 0 {
                            body.push((i % 3) as u8);
                        }
                    }
                    2 => body.push((i % 3) as u8),
                    3 => body.push([0, 0x80, 1, 2, 0x80, 0, 1][(i * i + i / 7) % 7]),
                    _ => body.push([0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91][(i * i + i / 7) % 7]),
                }
            }
            judged(ctx, ver, &bytesgen::frame(b1, &body))?;
            body.pop();
            judged(ctx, ver, &bytesgen::frame(b1, &body))?;
            // one entry that cannot be, in the middle
            if n > 0 && kind >= 2 {
                let k = body.len() - n / 2;
                if k < body.len() {
                    body[k] = 0x77;
                    judged(ctx, ver, &bytesgen::frame(b1, &body))?;
                }
            }
        }
        Ok(())
    })
}
pub fn c09(th: bool) -> Vec<Exploration> {
    let mut v = frame_space(V4, th, Arc::new(judged));
    v.push(long_lists(V4));
    v.push(publishes(V4));
    v
}
/// Every combination of a publish's flags, emptiness of its parts, packet ids and properties.
fn publishes(versions: &'static [u8]) -> Exploration {
    expl("publishes: all flags with every subset of properties, empty or short topics and payloads, several packet ids", 0, move |ctx, ch| {
        let ver = *ch.of(versions);
        let fl = ch.pick(16) as u8;
        let subsets = if ver == 5 { 1u64 << gen::lattice_bits(3) } else { 1 };
        for subset in 0..subsets {
            let props = if ver == 5 { gen::lattice(3, subset).props_mut().unwrap().clone() } else { vec![] };
            for topic in ["", "a", "a/b", "$s", "\u{e9}/x"] {
                for pkid in [0u16, 1, 10, 255, 256, 0xFFFF] {
                    if pkid != 1 && fl & 6 == 0 {
                        continue;
                    }
                    for payload in [&b""[..], &b"\0"[..], b"hello"] {
                        let m = M::Publish { dup: false, qos: 1.min(fl >> 1 & 3), retain: false, topic: topic.into(), pkid, props: props.clone(), payload: payload.to_vec() };
                        let mut f = enc::encode(ver, &m, Form::Full).bytes;
                        f[0] = 0x30 | fl;
                        judged(ctx, ver, &f)?;
                    }
                }
            }
        }
        Ok(())
    })
}
pub fn c10(th: bool) -> Vec<Exploration> {
    let mut v = frame_space(V5, th, Arc::new(judged));
    v.push(long_lists(V5));
    v.push(publishes(V5));
    v
}

// ---------------------------------------------------------------- C11
/// Decoding of a frame against the rules, and writing what was decoded: the coded byte comes back.
fn code_one(ctx: &mut Ctx, ver: u8, f: &[u8], what: &str, x: u8) -> Outcome {
    let (r, _) = adapt::read_slice(ver, f, usize::MAX);
    let w = dec::decode(ver, f);
    stream::agree(ver, f, &r, &w).map_err(|m| format!("{what} {x:#04x}: {m}"))?;
    if let (Ok(p), Ok((m, tol))) = (&r, &w) {
        if tol & dec::NOVALUE != 0 {
            ctx.case("value unspecified");
            return Ok(());
        }
        let mut b = BytesMut::new();
        p.write(&mut b).map_err(|e| format!("{what} {x:#04x}: v{ver} {} decodes to {m:?}, which cannot be written: {e:?}", hex(f)))?;
        match dec::decode(ver, &b) {
            Ok((m2, _)) if m2.norm() == m.norm() => ctx.case("one-to-one"),
            o => return Err(format!("{what} {x:#04x}: v{ver} {} is written back as {}, which spells {o:?}", hex(f), hex(&b))),
        }
    } else {
        ctx.case(if w.is_ok() { "refused, tolerable" } else { "undefined, refused" });
    }
    Ok(())
}
pub fn c11(th: bool) -> Vec<Exploration> {
    let mut v = altered_space(
        BOTH,
        1 + th as u32,
        2 + th as u32,
        Arc::new(|ctx, ver, e, i, x, b| {
            if i == usize::MAX || x == usize::MAX || !matches!(e.fields[i].kind, FK::Byte1 | FK::Level | FK::ConnFlags | FK::AckFlags | FK::Code | FK::Opts | FK::PropId) {
                return Ok(());
            }
            code_one(ctx, ver, b, "coded field", x as u8)
        }),
    );
    v.push(expl("every single-byte coded field of every packet: all 256 values", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        for i in 0..e.fields.len() {
            if !matches!(e.fields[i].kind, FK::Byte1 | FK::Level | FK::ConnFlags | FK::AckFlags | FK::Code | FK::Opts | FK::PropId) {
                continue;
            }
            for x in 0..=255u8 {
                let f = bytesgen::with_byte(e, i, x);
                code_one(ctx, ver, &f, &format!("{:?} at {}", e.fields[i].kind, e.fields[i].off), x)?;
            }
        }
        ctx.case("frame");
        Ok(())
    }));
    v.push(expl("every code alone in its packet, with no, short, and full tails, at each list position", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let x = ch.pick(256) as u8;
        let mut fs: Vec<Vec<u8>> = vec![vec![0x20, 2, 0, x], vec![0x20, 2, 1, x], vec![0x90, 3, 0, 1, x], vec![0x90, 5, 0, 1, 0, x, 0x80]];
        if ver == 5 {
            fs = vec![vec![0x20, 3, 0, x, 0], vec![0x20, 3, 1, x, 0]];
            for t in [0x40u8, 0x50, 0x62, 0x70] {
                fs.push(vec![t, 3, 0, 1, x]);
                fs.push(vec![t, 4, 0, 1, x, 0]);
                fs.push(vec![t, 11, 0, 1, x, 7, 38, 0, 1, b'k', 0, 1, b'v']);
            }
            fs.push(vec![0xE0, 1, x]);
            fs.push(vec![0xE0, 2, x, 0]);
            fs.push(vec![0xE0, 7, x, 5, 17, 0, 0, 0, 9]);
            for t in [0x90u8, 0xB0] {
                fs.push(vec![t, 4, 0, 1, 0, x]);
                fs.push(vec![t, 6, 0, 1, 0, 0, x, 0x80]);
                fs.push(vec![t, 6, 0, 1, 0, x, x, 0x80]);
            }
        }
        for f in fs {
            code_one(ctx, ver, &f, "code", x)?;
        }
        Ok(())
    }));
    v.push(expl("encoding: each meaning produces its specified byte", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[2u8, 4, 5, 6, 7, 9, 11, 14]);
        for &c in spec::codes(ver, t) {
            for some_empty in [false, true] {
                for with_props in [false, true] {
                    let props = if ver == 5 && with_props { vec![(38, PV::Pair("k".into(), "v".into()))] } else { vec![] };
                    let m = match t {
                        2 => M::ConnAck { sp: false, code: c, props },
                        9 => M::SubAck { pkid: 1, codes: vec![c], props },
                        11 => M::UnsubAck { pkid: 1, codes: vec![c], props },
                        14 => M::Disconnect { reason: c, props },
                        k => M::Ack { kind: k, pkid: 1, reason: c, props },
                    };
                    let mut b = BytesMut::new();
                    Pk::from_model(ver, &m, some_empty).write(&mut b).map_err(|e| format!("v{ver} {m:?}: {e:?}"))?;
                    match dec::decode(ver, &b) {
                        Ok((g, _)) if g.norm() == m.norm() => ctx.case("byte as specified"),
                        o => return Err(format!("v{ver} {m:?} is written as {}, which spells {o:?}", hex(&b))),
                    }
                }
            }
        }
        ctx.case("type");
        Ok(())
    }));
    v.push(expl("every property identifier in every packet, with a value of every type behind it", 0, |ctx, ch| {
        let t = *ch.of(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]);
        let id = ch.pick(256) as u8;
        let values: [&[u8]; 8] = [&[1], &[0, 1], &[0, 0, 0, 1], &[0, 1, b'a'], &[0, 2, 0xFF, 0xFE], &[0, 1, b'k', 0, 1, b'v'], &[5], &[0x80, 1]];
        for val in values {
            let mut s = vec![id];
            s.extend_from_slice(val);
            code_one(ctx, 5, &with_section(t, &s, s.len(), 0), "property identifier", id)?;
            // behind and before a user property
            let mut s2 = b"\x26\0\x01k\0\x01v".to_vec();
            s2.extend_from_slice(&s);
            code_one(ctx, 5, &with_section(t, &s2, s2.len(), 0), "property identifier", id)?;
            s.extend_from_slice(b"\x26\0\x01k\0\x01v");
            code_one(ctx, 5, &with_section(t, &s, s.len(), 0), "property identifier", id)?;
        }
        Ok(())
    }));
    v.push(expl("public conversions: QoS, return and reason codes for all 256 numbers", 0, |ctx, _| {
        use std::convert::TryFrom;
        for x in 0..=255u8 {
            let q = mqttbytes::qos(x).ok().map(|q| q as u8);
            if q != if x < 3 { Some(x) } else { None } {
                return Err(format!("qos({x}) gives {q:?}"));
            }
            let a = adapt::v4::SubscribeReasonCode::try_from(x).ok().map(|c| adapt::v4_sub_n(&c));
            if a != spec::codes(4, 9).contains(&x).then_some(x) {
                return Err(format!("v4 SubscribeReasonCode from {x:#x} is code {a:?}"));
            }
            let a = adapt::v5::SubscribeReasonCode::try_from(x).ok().map(|c| adapt::v5_sub_n(&c));
            if a != spec::codes(5, 9).contains(&x).then_some(x) {
                return Err(format!("v5 SubscribeReasonCode from {x:#x} is code {a:?}"));
            }
            let a = adapt::v5::DisconnectReasonCode::try_from(x).ok().map(|c| adapt::disc_n(&c));
            if a != spec::codes(5, 14).contains(&x).then_some(x) {
                return Err(format!("DisconnectReasonCode from {x:#x} is code {a:?}"));
            }
            let h = mqttbytes::FixedHeader::new(x, 1, 0).packet_type();
            let want = (1..=14).contains(&(x >> 4)).then_some(x >> 4);
            if h.ok().map(adapt::type_num) != want {
                return Err(format!("first byte {x:#x} has type {h:?}"));
            }
            ctx.case("conversions");
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C16
/// Frames of a section with two continuations behind it, where the packet has one.
fn section_frames(t: u8, props: &Props) -> Vec<Vec<u8>> {
    let s = enc::section(t, props);
    let n = match dec::header(&[&[0u8][..], &s].concat()) {
        dec::Hdr::Ok { rem, .. } => rem,
        _ => panic!("HARNESS: section"),
    };
    let content = &s[s.len() - n..];
    vec![with_section(t, content, n, 0)]
}
fn c16_props(ctx: &mut Ctx, t: u8, props: &Props) -> Outcome {
    for f in section_frames(t, props) {
        let (r, _) = adapt::read_slice(5, &f, usize::MAX);
        let w = dec::decode(5, &f);
        let class = stream::agree(5, &f, &r, &w)?;
        ctx.case(class);
    }
    if adapt::EXTRACT_CTX.contains(&t) {
        let mut s = enc::section(t, props);
        let n = s.len();
        s.extend_from_slice(&[38, 0, 1, b'z', 0, 1, b'z']);
        let (r, left) = adapt::extract(t, &s).unwrap();
        let sorted = |p: &Props| {
            let mut p = p.clone();
            p.sort_by_key(|x| x.0);
            p
        };
        match r {
            Ok(p) if sorted(&p) == sorted(props) && left[..] == s[n..] => {}
            r => return Err(format!("section {} extracts as {r:?} leaving {}, expected {props:?} leaving {}", hex(&s), hex(&left), hex(&s[n..]))),
        }
    }
    Ok(())
}
fn prop_value(id: u8, ty: PT, i: usize) -> PV {
    // distinct values at distinct places, and within range
    match ty {
        PT::U8 => PV::U8(1),
        PT::Pair if i % 3 == 2 => PV::Pair(String::new(), format!("v{i}")),
        _ => gen::default_pv(id, ty, i),
    }
}
pub fn c16(th: bool) -> Vec<Exploration> {
    const CTXS: [u8; 13] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15];
    let mut v = vec![];
    let k = if th { 5 } else { 4 };
    v.push(expl(format!("every ordered selection of up to {k} properties, repeatables any number of times, in every packet"), 0, move |ctx, ch| {
        let t = *ch.of(&CTXS);
        let all = spec::props_of(t);
        let k = if all.len() > 12 { k - 1 } else { k };
        let n = ch.pick(k + 1);
        let head = n.min(2);
        let mut sel: Vec<(u8, PT)> = (0..head).map(|_| *ch.of(&all)).collect();
        // the rest in this leaf
        fn go(ctx: &mut Ctx, t: u8, all: &[(u8, PT)], sel: &mut Vec<(u8, PT)>, n: usize) -> Outcome {
            let last = sel.len();
            if last > 0 {
                let (id, _) = sel[last - 1];
                if !spec::repeatable(t, id) && sel[..last - 1].iter().any(|x| x.0 == id) {
                    return Ok(());
                }
            }
            if last == n {
                let props: Props = sel.iter().enumerate().map(|(i, (id, ty))| (*id, prop_value(*id, *ty, i))).collect();
                return c16_props(ctx, t, &props);
            }
            for x in all {
                sel.push(*x);
                go(ctx, t, all, sel, n)?;
                sel.pop();
            }
            Ok(())
        }
        for i in 0..head {
            if !spec::repeatable(t, sel[i].0) && sel[..i].iter().any(|x| x.0 == sel[i].0) {
                ctx.skip("selection repeats a single property");
                return Ok(());
            }
        }
        go(ctx, t, &all, &mut sel, n)?;
        ctx.case("block");
        Ok(())
    }));
    v.push(extreme_sections(if th { 4 } else { 3 }, Arc::new(|ctx, ver, b| judged(ctx, ver, b))));
    v.push(expl("full sections: every rotation, reversal, adjacent and distant swap, and repetition count", 0, |ctx, ch| {
        let t = *ch.of(&CTXS);
        let reps = 1 + ch.pick(4);
        let mut all: Props = vec![];
        for (id, ty) in spec::props_of(t) {
            for i in 0..if spec::repeatable(t, id) { reps } else { 1 } {
                all.push((id, prop_value(id, ty, all.len() + i)));
            }
        }
        for r in 0..all.len() {
            let mut p = all.clone();
            p.rotate_left(r);
            c16_props(ctx, t, &p)?;
            p.reverse();
            c16_props(ctx, t, &p)?;
            for j in r + 1..all.len() {
                let mut p = all.clone();
                p.swap(r, j);
                c16_props(ctx, t, &p)?;
            }
        }
        Ok(())
    }));
    v.push(expl("every declared section length over every short section, with every kind of continuation", 0, |ctx, ch| {
        let t = *ch.of(&CTXS);
        let all = spec::props_of(t);
        let a = *ch.of(&all);
        for b in std::iter::once(None).chain(all.iter().map(Some)) {
            let mut props: Props = vec![(a.0, prop_value(a.0, a.1, 0))];
            if let Some(b) = b {
                if b.0 == a.0 && !spec::repeatable(t, a.0) {
                    continue;
                }
                props.push((b.0, prop_value(b.0, b.1, 1)));
            }
            let s = enc::section(t, &props);
            let content = s[1..].to_vec(); // short sections have one length byte
            for d in 0..=content.len() + 12 {
                for pad in 0..3 {
                    judged(ctx, 5, &with_section(t, &content, d, pad))?;
                }
                // and what follows looks like properties itself
                let mut c2 = content.clone();
                c2.extend_from_slice(b"\x26\0\x01k\0\x01v");
                judged(ctx, 5, &with_section(t, &c2, d, 0))?;
            }
            for d in [127, 128, 255, 16_383, 16_384, 2_097_151, 268_435_455] {
                judged(ctx, 5, &with_section(t, &content, d, 0))?;
            }
            // stand-alone
            if adapt::EXTRACT_CTX.contains(&t) {
                for d in 0..=content.len() + 8 {
                    let mut x = vec![d as u8];
                    x.extend_from_slice(&content);
                    x.extend_from_slice(&[38, 0, 0, 0, 0]);
                    let (r, left) = adapt::extract(t, &x).unwrap();
                    let want = if 1 + d <= x.len() { dec::section(t, &x[1..1 + d]) } else { Err(dec::Bad::Short) };
                    match (&r, &want) {
                        (Ok(p), Ok((w, tol))) => {
                            let norm = |p: &Props| {
                                let mut p = p.clone();
                                p.sort_by_key(|x| x.0);
                                p
                            };
                            if tol & dec::DUPPROP == 0 && norm(p) != norm(w) || left[..] != x[1 + d..] {
                                return Err(format!("section {} extracts as {p:?} leaving {}, expected {w:?} leaving {}", hex(&x), hex(&left), hex(&x[1 + d..])));
                            }
                        }
                        (Err(_), Err(_)) => {}
                        (Err(_), Ok((_, tol))) if *tol != 0 => {}
                        _ => return Err(format!("section {} extracts as {r:?}, expected {want:?}", hex(&x))),
                    }
                    ctx.case("stand-alone section");
                }
            }
        }
        Ok(())
    }));
    v.push(expl("what follows a section: every payload, code list or connect payload of a menu behind every short section", 0, move |ctx, ch| {
        let t = *ch.of(&[3u8, 9, 11, 8, 10, 1]);
        let all = spec::props_of(t);
        let k = ch.pick(all.len() + 2);
        let props: Props = match k {
            0 => vec![],
            k if k <= all.len() => vec![(all[k - 1].0, prop_value(all[k - 1].0, all[k - 1].1, 0))],
            _ => all.iter().map(|(id, ty)| (*id, prop_value(*id, *ty, 0))).collect(),
        };
        let tails = |f: &mut dyn FnMut(Vec<u8>) -> Outcome| -> Outcome {
            f(vec![])?;
            for x in 0..=255u8 {
                f(vec![x])?;
                for y in 0..=255u8 {
                    if th || k <= 1 || bytesgen::SHARP.contains(&x) && bytesgen::SHARP.contains(&y) {
                        f(vec![x, y])?;
                    }
                }
            }
            for n in (3..300usize).chain([512, 1000, 1024, 4096, 16_384, 65_536]) {
                for x in [0u8, 1, b'a', 0x26, 0x80, 0xFF] {
                    f(vec![x; n])?;
                }
                f((0..n).map(|i| (i * 37 + i / 256) as u8).collect())?;
            }
            Ok(())
        };
        let mut m = gen::base_packet(5, t, Base::Minimal);
        *m.props_mut().unwrap() = props;
        // the packet up to its section, the tail in place of the rest
        let e = enc::encode(5, &m, Form::Full);
        let p = e.fields.iter().find(|f| f.kind == FK::PropLen).expect("HARNESS: section");
        let n = enc::section(t, m.props_mut().unwrap()).len();
        let head = e.bytes[bytesgen::hdr_len(&e)..p.off + n].to_vec();
        let first = e.bytes[0];
        tails(&mut |tail| judged(ctx, 5, &bytesgen::frame(first, &[&head[..], &tail].concat())))
    }));
    v.push(expl("every number of repeatable properties up to 300, and near boundaries up to 65537, in every packet", 0, |ctx, ch| {
        let t = *ch.of(&CTXS);
        let part = ch.pick(8);
        for (id, ty) in spec::props_of(t) {
            if !spec::repeatable(t, id) {
                continue;
            }
            for n in (0..=300usize).chain(COUNTS).skip(part).step_by(8) {
                let mut props: Props = (0..n).map(|i| (id, prop_value(id, ty, i))).collect();
                c16_props(ctx, t, &props)?;
                // one that may not be repeated behind them all
                if let Some((other, oty)) = spec::props_of(t).iter().find(|x| !spec::repeatable(t, x.0)) {
                    props.push((*other, prop_value(*other, *oty, 0)));
                    c16_props(ctx, t, &props)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("long sections: every length-field size, followed by the rest of the packet", 0, |ctx, ch| {
        let t = *ch.of(&CTXS);
        let target = *ch.of(&[122usize, 127, 128, 129, 130, 16_383, 16_384, 16_385, 70_000, 2_097_151, 2_097_152]);
        let p = section_of(target).expect("HARNESS: section");
        for f in section_frames(t, &p) {
            judged(ctx, 5, &f)?;
        }
        let s = enc::section(t, &p);
        let content = &s[s.len() - target..];
        for d in [target - 1, target + 1, target - 5, target + 2, target + 6] {
            judged(ctx, 5, &with_section(t, content, d, 0))?;
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C17
/// A frame with the given content in a text or binary field.
fn c17_one(ctx: &mut Ctx, ver: u8, e: &enc::Enc, field: usize, content: &[u8]) -> Outcome {
    let text = e.fields[field].kind == FK::Text;
    let f = bytesgen::with_content(e, field, content);
    let (r, _) = adapt::read_slice(ver, &f, usize::MAX);
    let w = dec::decode(ver, &f);
    if text && !spec::utf8_ok(content) {
        if let Ok(p) = &r {
            return Err(format!("v{ver} {} holds the ill-formed text {} but decodes to {p:?}", hex(&f), hex(content)));
        }
        ctx.case("ill-formed text, rejected");
        return Ok(());
    }
    if text && content.contains(&0) && r.is_err() {
        // MQTT forbids U+0000: refusing it is fine, refusing it here and there is not
        let alone = bytesgen::with_content(e, field, b"\0");
        if !content.iter().any(|b| b"+#".contains(b)) && adapt::read_slice(ver, &alone, usize::MAX).0.is_ok() {
            return Err(format!("v{ver} {} is rejected ({r:?}) though U+0000 is accepted in {}", hex(&f), hex(&alone)));
        }
        ctx.case("U+0000, rejected");
        return Ok(());
    }
    if let Err(e) = &r {
        // an empty topic or one with wildcards may be refused for other reasons
        if matches!(&w, Ok((_, tol)) if *tol & dec::TEXT != 0) {
            ctx.case("topic rule, rejected");
            return Ok(());
        }
        return Err(format!("v{ver} {} holds well-formed content {} but is rejected with {e:?}", hex(&f), hex(content)));
    }
    let class = stream::agree(ver, &f, &r, &w)?;
    // and out again
    let p = r.unwrap();
    let mut b = BytesMut::new();
    p.write(&mut b).map_err(|e| format!("v{ver} {} cannot be written back: {e:?}", hex(&f)))?;
    match (dec::decode(ver, &b), w) {
        (Ok((a, _)), Ok((m, _))) if a.norm() == m.norm() => ctx.case(class),
        (a, _) => return Err(format!("v{ver} {} is written back as {}, which spells {a:?}", hex(&f), hex(&b))),
    }
    Ok(())
}
const UTF8: [u8; 27] = [
    0x00, 0x24, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF,
];
const UTF8_4: [u8; 13] = [0x41, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4];
pub fn content_fields(ver: u8, t: u8, base: Base) -> (enc::Enc, Vec<usize>) {
    let e = enc::encode(ver, &gen::base_packet(ver, t, base), Form::Full);
    let f = (0..e.fields.len()).filter(|i| matches!(e.fields[*i].kind, FK::Text | FK::Bin | FK::Payload)).collect();
    (e, f)
}
pub fn c17(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(expl("every text and binary field of every full packet: all contents of up to two bytes", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let (e, fs) = content_fields(ver, t, Base::Full);
        if fs.is_empty() {
            ctx.skip("no such field");
            return Ok(());
        }
        let f = *ch.of(&fs);
        let part = ch.pick(8) as u8;
        let all: Vec<u8> = (0..=255).collect();
        if part == 0 {
            c17_one(ctx, ver, &e, f, &[])?;
        }
        for x in part * 32..=part * 32 + 31 {
            for n in 0..=1 {
                bytesgen::all_bodies(&all, n, &[x], &mut |b| c17_one(ctx, ver, &e, f, b))?;
            }
        }
        Ok(())
    }));
    v.push(expl("every field: all contents of three and four bytes over the UTF-8 edge alphabets", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let (e, fs) = content_fields(ver, t, Base::Full);
        if fs.is_empty() {
            ctx.skip("no such field");
            return Ok(());
        }
        let f = *ch.of(&fs);
        let x = *ch.of(&UTF8);
        bytesgen::all_bodies(&UTF8, 2, &[x], &mut |b| c17_one(ctx, ver, &e, f, b))?;
        if UTF8_4.contains(&x) || th {
            let a: &[u8] = if th { &UTF8 } else { &UTF8_4 };
            bytesgen::all_bodies(a, 3, &[x], &mut |b| c17_one(ctx, ver, &e, f, b))?;
        }
        Ok(())
    }));
    v.push(expl("small packets: all contents of three bytes in a client id, topic, filter and property", 0, move |ctx, ch| {
        let (ver, t, nth) = *ch.of(&[(4u8, 1u8, 0usize), (4, 3, 0), (4, 8, 0), (4, 10, 0), (5, 3, 0), (5, 4, 0), (5, 4, 1)]);
        if !th && !(ver == 4 && t == 3 || ver == 5 && t == 4 && nth == 0) {
            ctx.skip("thorough only");
            return Ok(());
        }
        let mut m = gen::base_packet(ver, t, Base::Minimal);
        if t == 4 {
            *m.props_mut().unwrap() = vec![(31, PV::Str("r".into())), (38, PV::Pair("k".into(), "v".into()))];
        }
        let e = enc::encode(ver, &m, Form::Full);
        let fs: Vec<usize> = (0..e.fields.len()).filter(|i| e.fields[*i].kind == FK::Text).collect();
        let f = fs[nth];
        let x = ch.pick(256) as u8;
        let all: Vec<u8> = (0..=255).collect();
        bytesgen::all_bodies(&all, 2, &[x], &mut |b| c17_one(ctx, ver, &e, f, b))
    }));
    v.push(expl("every Unicode scalar value, in a text field of each version, and every surrogate", 0, move |ctx, ch| {
        let (ver, t) = *ch.of(&[(4u8, 3u8), (5, 1), (5, 14)]);
        let (e, fs) = content_fields(ver, t, if t == 14 { Base::Full } else { Base::Minimal });
        let f = *fs.iter().find(|f| e.fields[**f].kind == FK::Text).unwrap();
        let block = ch.pick(0x111) as u32;
        for c in block << 12..(block + 1) << 12 {
            match char::from_u32(c) {
                Some(c) => {
                    let mut b = [0; 4];
                    c17_one(ctx, ver, &e, f, c.encode_utf8(&mut b).as_bytes())?;
                }
                None => {
                    // its three- or four-byte pattern, which is not UTF-8
                    let b = if c < 0x10000 {
                        vec![0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]
                    } else {
                        vec![0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]
                    };
                    c17_one(ctx, ver, &e, f, &b)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("every field: all sequences of up to three pieces of text, well- or ill-formed", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let (e, fs) = content_fields(ver, t, if ch.pick(2) == 0 { Base::Minimal } else { Base::Full });
        if fs.is_empty() {
            ctx.skip("no such field");
            return Ok(());
        }
        let f = *ch.of(&fs);
        let first = *ch.of(&BYTE_UNITS);
        for k in 0..3 {
            sequences(&BYTE_UNITS, k, &mut |us| c17_one(ctx, ver, &e, f, &[&[first][..], us].concat().concat()))?;
        }
        Ok(())
    }));
    v.push(expl("longer contents: an ill-formed byte at every place of a long text, every byte of a long binary field", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let (e, fs) = content_fields(ver, t, Base::Full);
        if fs.is_empty() {
            ctx.skip("no such field");
            return Ok(());
        }
        let f = *ch.of(&fs);
        for len in [8usize, 9, 16, 17, 33, 127, 128, 130, 300] {
            for i in 0..len {
                let mut c = vec![b'x'; len];
                c[i] = 0xFF;
                c17_one(ctx, ver, &e, f, &c)?;
                c[i] = 0xC3; // a lead byte without its continuation
                c17_one(ctx, ver, &e, f, &c)?;
                if i + 1 < len {
                    c[i + 1] = 0xA9;
                    c17_one(ctx, ver, &e, f, &c)?;
                }
            }
        }
        for len in LONG_LENS {
            for u in BYTE_UNITS.iter().chain(&[&b" "[..], b"\n", b"\t", b"\r\n", b"\0\0", b"\xC2\x85", b"\xE2\x80\xA8", b"\x01", b"\x7F", b"\xF4\x8F\xBF\xBF"]) {
                for place in 0..4 {
                    c17_one(ctx, ver, &e, f, &placed_bytes(u, len, place))?;
                }
            }
        }
        for len in [512usize, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 12_288, 16_383, 16_384, 16_385, 32_767, 32_768, 49_152, 61_440, 65_534, 65_535] {
            for i in [0, 1, 2, 3, len / 2, len - 4, len - 3, len - 2, len - 1] {
                let mut c = vec![b'x'; len];
                // a stray continuation; a character whole or cut short by the end or by other text
                for u in [&b"\x80"[..], b"\xFF", b"\xC3", b"\xC3\xA9", b"\xE2\x82", b"\xE2\x82\xAC", b"\xF0\x9F\x98", b"\xF0\x9F\x98\x80"] {
                    for (k, x) in u.iter().enumerate() {
                        if i + k < len {
                            c[i + k] = *x;
                        }
                    }
                    c17_one(ctx, ver, &e, f, &c)?;
                }
            }
            let c: Vec<u8> = (0..len).map(|i| (i * 131 % 128) as u8 | 1).collect();
            c17_one(ctx, ver, &e, f, &c)?;
            if e.fields[f].kind != FK::Text {
                let c: Vec<u8> = (0..len).map(|i| (i * 131 + i / 256) as u8).collect();
                c17_one(ctx, ver, &e, f, &c)?;
            }
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C23
const MULTIPLE: usize = 128;
const CONSTANT: usize = 4096;
fn frugal(ctx: &mut Ctx, ver: u8, b: &[u8], limit: usize) -> Outcome {
    let mut buf = BytesMut::from(b);
    let (r, total, _) = alloc_meter::measure(|| adapt::read(ver, &mut buf, limit));
    let what = stream::framing(b, limit);
    let most = match what {
        stream::Framing::Frame { len } => MULTIPLE * len + CONSTANT,
        _ => CONSTANT,
    };
    if total > most {
        return Err(format!("v{ver} read of {} ({} bytes present, {what:?}) allocates {total} bytes, allowed {most}; result {}", hex(b), b.len(), res(&r).chars().take(120).collect::<String>()));
    }
    let (_, total, _) = alloc_meter::measure(|| adapt::check(b, limit));
    if total > CONSTANT {
        return Err(format!("check of {} ({} bytes present) allocates {total} bytes", hex(b), b.len()));
    }
    ctx.case(match what {
        stream::Framing::Frame { .. } => "frame, bounded",
        _ => "no frame, constant",
    });
    Ok(())
}
pub fn c23(th: bool) -> Vec<Exploration> {
    let mut v = buffer_space(th, Arc::new(frugal));
    v.extend(frame_space(BOTH, th, Arc::new(|ctx, ver, b| frugal(ctx, ver, b, usize::MAX))));
    v.push(expl("huge declared sizes over little content: remaining, section, string and list lengths", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let b1 = *ch.of(&first_bytes());
        for n in [100usize, 16_383, 65_535, 65_536, 2_097_151, 2_097_152, 16_777_216, 268_435_455] {
            for body in [0usize, 1, 5, 40, 1000] {
                let mut b = vec![b1];
                b.extend_from_slice(&enc::varint(n));
                b.resize(b.len() + body.min(n.saturating_sub(1)), 0);
                for l in [usize::MAX, n, n - 1, 10] {
                    frugal(ctx, ver, &b, l)?;
                }
            }
        }
        // inside complete frames
        if ver == 5 {
            for t in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15] {
                for d in [100usize, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455] {
                    frugal(ctx, 5, &with_section(t, &[], d, 0), usize::MAX)?;
                    for (id, _) in spec::props_of(t) {
                        frugal(ctx, 5, &with_section(t, &[id, 0xFF, 0xFF, 0xFF, 0x7F], d, 0), usize::MAX)?;
                        frugal(ctx, 5, &with_section(t, &[id, 0xFF, 0xFF, 0xFF, 0x7F], 5, 0), usize::MAX)?;
                    }
                }
            }
        }
        for n in [65_535usize, 0x8000, 0x7FFF, 100] {
            for at in 0..6 {
                let mut body = vec![0u8; 12];
                body[at] = (n >> 8) as u8;
                body[at + 1] = n as u8;
                frugal(ctx, ver, &bytesgen::frame(b1, &body), usize::MAX)?;
            }
        }
        Ok(())
    }));
    v.push(expl("long lists of the smallest entries: allocation stays proportional", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let which = ch.pick(6);
        for n in [0usize, 1, 2, 3, 5, 9, 17, 100, 1000, 1025, 10_000, 65_537] {
            let f = match which {
                0 => bytesgen::frame(0x82, &[&[0u8, 1][..], if ver == 5 { &[0] } else { &[] }, &[0u8, 0, 0].repeat(n)].concat()),
                1 => bytesgen::frame(0xA2, &[&[0u8, 1][..], if ver == 5 { &[0] } else { &[] }, &[0u8, 0].repeat(n)].concat()),
                2 => bytesgen::frame(0x90, &[&[0u8, 1][..], if ver == 5 { &[0] } else { &[] }, &[1u8].repeat(n)].concat()),
                3 => bytesgen::frame(0xB0, &[&[0u8, 1][..], if ver == 5 { &[0] } else { &[] }, &[0u8].repeat(n)].concat()),
                4 => with_section(3, &[38u8, 0, 0, 0, 0].repeat(n), 5 * n, 0),
                _ => with_section(3, &[11u8, 1].repeat(n), 2 * n, 0),
            };
            frugal(ctx, ver, &f, usize::MAX)?;
        }
        Ok(())
    }));
    v.push(expl("large frames cut everywhere that matters, also behind heads that declare more", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let all = big_frames(ver);
        let f = ch.of(&all);
        for cut in big_cuts(f.len()) {
            for l in [usize::MAX, f.len(), 10] {
                frugal(ctx, ver, &f[..cut], l)?;
            }
        }
        let dec::Hdr::Ok { hlen, .. } = dec::header(f) else { return Err("HARNESS: header".into()) };
        for n in [2_097_153usize, 16_777_216, 268_435_455] {
            let head = [&f[..1], &enc::varint(n)].concat();
            for cut in big_cuts(f.len() - hlen) {
                let b = [&head[..], &f[hlen..hlen + cut]].concat();
                for l in [usize::MAX, n, n - 1] {
                    frugal(ctx, ver, &b, l)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("stand-alone property sections of huge declared sizes", 0, |ctx, ch| {
        let c = *ch.of(&adapt::EXTRACT_CTX);
        for d in [0usize, 1, 100, 16_384, 2_097_152, 268_435_455] {
            for id in 0..=255u8 {
                let mut b = enc::varint(d);
                b.extend_from_slice(&[id, 0xFF, 0xFF, 0xFF, 0x7F]);
                let (_, total, _) = alloc_meter::measure(|| adapt::extract(c, &b));
                if total > MULTIPLE * b.len() + CONSTANT {
                    return Err(format!("extracting {} allocates {total} bytes", hex(&b)));
                }
                ctx.case("section, bounded");
            }
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C27
fn named(ctx: &mut Ctx, ver: u8, f: &[u8], want: Error) -> Outcome {
    let (r, _) = adapt::read_slice(ver, f, usize::MAX);
    match &r {
        Err(e) if *e == want => {
            ctx.case(match want {
                Error::InvalidPacketType(_) => "packet type",
                Error::InvalidQoS(_) => "QoS",
                Error::InvalidProtocolLevel(_) => "protocol level",
                Error::InvalidConnectReturnCode(_) => "return or reason code",
                Error::InvalidSubscribeReasonCode(_) => "subscription reason code",
                Error::InvalidPropertyType(_) => "property identifier",
                Error::InvalidRetainForwardRule(_) => "retain rule",
                Error::InvalidProtocol => "protocol name",
                Error::TopicNotUtf8 => "text",
                Error::PacketIdZero => "packet id zero",
                Error::EmptySubscription => "empty subscription",
                Error::PayloadRequired => "missing body",
                _ => "other",
            });
            Ok(())
        }
        _ => Err(format!("v{ver} {} must be refused with {want:?}, gives {}", hex(f), res(&r))),
    }
}
/// The identifying kind and value; the crate uses different kinds for the reason codes of
/// different packets, any of which identifies a code.
fn named_code(ctx: &mut Ctx, ver: u8, t: u8, f: &[u8], x: u8) -> Outcome {
    let (r, _) = adapt::read_slice(ver, f, usize::MAX);
    let ok = match (&r, t) {
        (Err(Error::InvalidConnectReturnCode(n)), 2) => *n == x,
        (Err(Error::InvalidSubscribeReasonCode(n)), 9 | 11) => *n == x,
        (Err(Error::InvalidConnectReturnCode(n)), 4..=7 | 14) | (Err(Error::InvalidReason(n)), 4..=7 | 11 | 14) => *n == x,
        _ => false,
    };
    if !ok {
        return Err(format!("v{ver} {} holds the undefined code {x:#04x}, which the error must carry; it gives {}", hex(f), res(&r)));
    }
    ctx.case("return or reason code");
    Ok(())
}
/// The coded field `i` of a frame that is otherwise in order has been set to `x`.
fn named_field(ctx: &mut Ctx, ver: u8, e: &enc::Enc, i: usize, x: u8, f: &[u8]) -> Outcome {
    let fld = e.fields[i];
    let t = e.bytes[0] >> 4;
    match fld.kind {
        FK::Byte1 if x >> 4 == 0 || x >> 4 == 15 => named(ctx, ver, f, Error::InvalidPacketType(x >> 4))?,
        FK::Byte1 if t == 3 && x >> 4 == 3 && x & 6 == 6 => named(ctx, ver, f, Error::InvalidQoS(3))?,
        FK::Level if x != 4 && x != 5 => named(ctx, ver, f, Error::InvalidProtocolLevel(x))?,
        FK::ConnFlags if x & 0x1C == 0x1C => {
            // will present with QoS 3; everything else must fit the flags as they were
            if x & 0xC4 == e.bytes[fld.off] & 0xC4 {
                named(ctx, ver, f, Error::InvalidQoS(3))?
            }
        }
        FK::Code if !spec::codes(ver, t).contains(&x) => named_code(ctx, ver, t, f, x)?,
        FK::Opts if x & 3 == 3 && (ver == 4 || x >> 4 & 3 != 3) => named(ctx, ver, f, Error::InvalidQoS(3))?,
        FK::Opts if ver == 5 && x >> 4 & 3 == 3 && x & 3 != 3 => named(ctx, ver, f, Error::InvalidRetainForwardRule(3))?,
        FK::PropId if !spec::prop_allowed(fld.ctx, x) => named(ctx, ver, f, Error::InvalidPropertyType(x))?,
        _ => {}
    }
    Ok(())
}
pub fn c27(th: bool) -> Vec<Exploration> {
    // every field of every packet near the base packets
    let mut v = altered_space(
        BOTH,
        1 + th as u32,
        2 + th as u32,
        Arc::new(|ctx, ver, e, i, x, b| {
            if i == usize::MAX || x == usize::MAX || !matches!(dec::decode(ver, &e.bytes), Ok((_, 0))) {
                return Ok(());
            }
            match e.fields[i].kind {
                FK::Byte1 | FK::Level | FK::ConnFlags | FK::Code | FK::Opts | FK::PropId => named_field(ctx, ver, e, i, x as u8, b),
                FK::Name => named(ctx, ver, b, Error::InvalidProtocol),
                FK::Text if matches!(x, 1..=3) => named(ctx, ver, b, Error::TopicNotUtf8),
                FK::Pkid if e.bytes[0] >> 4 == 3 => named(ctx, ver, b, Error::PacketIdZero),
                _ => Ok(()),
            }
        }),
    );
    v.push(expl("every undefined value of every coded field of every base frame", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        for i in 0..e.fields.len() {
            let fld = e.fields[i];
            for x in 0..=255u8 {
                if matches!(fld.kind, FK::Byte1 | FK::Level | FK::ConnFlags | FK::Code | FK::Opts | FK::PropId) {
                    named_field(ctx, ver, e, i, x, &bytesgen::with_byte(e, i, x))?;
                }
            }
        }
        ctx.case("frame");
        Ok(())
    }));
    v.push(expl("every undefined code at every list position and in every short form", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let x = ch.pick(256) as u8;
        let bad = |t: u8| !spec::codes(ver, t).contains(&x);
        ctx.case("value");
        if ver == 4 {
            if bad(2) {
                named_code(ctx, 4, 2, &[0x20, 2, 0, x], x)?;
                named_code(ctx, 4, 2, &[0x20, 2, 1, x], x)?;
            }
            if bad(9) {
                for n in 1..6usize {
                    for i in 0..n {
                        let mut b = vec![0, 1];
                        b.extend((0..n).map(|k| if k == i { x } else { [0, 1, 2, 0x80][k % 4] }));
                        named_code(ctx, 4, 9, &bytesgen::frame(0x90, &b), x)?;
                    }
                }
            }
            return Ok(());
        }
        for t in [4u8, 5, 6, 7] {
            if bad(t) {
                let b1 = t << 4 | spec::fixed_flags(t);
                named_code(ctx, 5, t, &[b1, 3, 0, 1, x], x)?;
                named_code(ctx, 5, t, &[b1, 4, 0, 1, x, 0], x)?;
                named_code(ctx, 5, t, &bytesgen::frame(b1, &[0, 1, x, 5, 38, 0, 0, 0, 0]), x)?;
            }
        }
        if bad(14) {
            named_code(ctx, 5, 14, &[0xE0, 1, x], x)?;
            named_code(ctx, 5, 14, &[0xE0, 2, x, 0], x)?;
        }
        for t in [9u8, 11] {
            if bad(t) {
                for n in 1..6usize {
                    for i in 0..n {
                        let mut b = vec![0, 1, 0];
                        b.extend((0..n).map(|k| if k == i { x } else { [0, 0x80, 0x87][k % 3] }));
                        named_code(ctx, 5, t, &bytesgen::frame(t << 4, &b), x)?;
                    }
                }
            }
        }
        for t in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15] {
            if !spec::prop_allowed(t, x) {
                for val in [&[][..], &[1], &[0, 0], &[0, 1, b'a'], &[0, 0, 0, 0]] {
                    let mut s = vec![x];
                    s.extend_from_slice(val);
                    named(ctx, 5, &with_section(t, &s, s.len(), 0), Error::InvalidPropertyType(x))?;
                    // behind each allowed property
                    for (id, ty) in spec::props_of(t) {
                        let p = enc::section(t, &vec![(id, gen::default_pv(id, ty, 0))]);
                        let mut s2 = p[1..].to_vec();
                        s2.extend_from_slice(&s);
                        named(ctx, 5, &with_section(t, &s2, s2.len(), 0), Error::InvalidPropertyType(x))?;
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("wrong protocol names: every single-byte change, every other length, other spellings", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let bs = bytesgen::bases(ver, 1);
        let e = ch.of(&bs);
        let at = e.fields.iter().position(|f| f.kind == FK::Name).unwrap();
        for i in 0..4 {
            for x in 0..128u8 {
                if x != b"MQTT"[i] {
                    let mut n = *b"MQTT";
                    n[i] = x;
                    named(ctx, ver, &bytesgen::with_content(e, at, &n), Error::InvalidProtocol)?;
                }
            }
        }
        for n in NAMES.into_iter().filter(|n| *n != b"MQTT").chain(["ΜQTT".as_bytes(), "MQTTé".as_bytes(), "MQTé".as_bytes()]) {
            named(ctx, ver, &bytesgen::with_content(e, at, n), Error::InvalidProtocol)?;
        }
        Ok(())
    }));
    v.push(expl("ill-formed text in every text field", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        for i in 0..e.fields.len() {
            if e.fields[i].kind != FK::Text {
                continue;
            }
            for x in 0x80..=0xFFu8 {
                named(ctx, ver, &bytesgen::with_content(e, i, &[x]), Error::TopicNotUtf8)?;
                named(ctx, ver, &bytesgen::with_content(e, i, &[b'a', x]), Error::TopicNotUtf8)?;
                named(ctx, ver, &bytesgen::with_content(e, i, &[b'a', x, b'b']), Error::TopicNotUtf8)?;
            }
            for s in [&[0xED, 0xA0, 0x80][..], &[0xF4, 0x90, 0x80, 0x80], &[0xC0, 0xAF], &[0xE0, 0x80, 0xAF], &[0xF0, 0x80, 0x80, 0xAF], &[0xFF], &[0xC3], &[0xE2, 0x82], &[0xF0, 0x9F, 0x98]] {
                named(ctx, ver, &bytesgen::with_content(e, i, s), Error::TopicNotUtf8)?;
                for l in LONG_LENS.iter().chain(&[10_000usize, 65_535]) {
                    for place in 0..4 {
                        let c = placed_bytes(s, *l, place);
                        if c.len() <= 65_535 {
                            named(ctx, ver, &bytesgen::with_content(e, i, &c), Error::TopicNotUtf8)?;
                        }
                    }
                }
            }
        }
        ctx.case("frame");
        Ok(())
    }));
    v.push(expl("packet id zero, empty subscriptions, missing bodies, unknown types with any body", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let b1 = ch.pick(256) as u8;
        let t = b1 >> 4;
        if t == 0 || t == 15 {
            for n in 0..5 {
                for x in SHARP {
                    named(ctx, ver, &bytesgen::frame(b1, &vec![x; n]), Error::InvalidPacketType(t))?;
                }
            }
            return Ok(());
        }
        let canonical = t == 3 || b1 & 15 == spec::fixed_flags(t);
        if canonical && !matches!(t, 12 | 13 | 14) {
            named(ctx, ver, &[b1, 0], Error::PayloadRequired)?;
            // no body, in a length field longer than needed: named so, unless the field is refused
            for f in [&[b1, 0x80, 0][..], &[b1, 0x80, 0x80, 0], &[b1, 0x80, 0x80, 0x80, 0]] {
                if adapt::read_slice(ver, f, usize::MAX).0 != Err(Error::MalformedRemainingLength) {
                    named(ctx, ver, f, Error::PayloadRequired)?;
                }
            }
        }
        if t == 3 && b1 & 6 != 0 && b1 & 6 != 6 {
            for topic in ["t", "a/b", "é"] {
                for pay in [&b""[..], b"x", b"\0\x01"] {
                    let mut m = vec![0, topic.len() as u8];
                    m.extend_from_slice(topic.as_bytes());
                    m.extend_from_slice(&[0, 0]);
                    if ver == 5 {
                        m.push(0);
                    }
                    m.extend_from_slice(pay);
                    named(ctx, ver, &bytesgen::frame(b1, &m), Error::PacketIdZero)?;
                }
            }
        }
        if ver == 4 && b1 == 0x82 {
            for id in [0u16, 1, 255, 256, 65535] {
                if id == 0 {
                    continue;
                }
                named(ctx, 4, &bytesgen::frame(b1, &id.to_be_bytes()), Error::EmptySubscription)?;
            }
        }
        // an over-limit size names the declared length
        for rem in [1usize, 127, 128, 16_384, 268_435_455] {
            let mut b = vec![b1];
            b.extend_from_slice(&enc::varint(rem));
            let (r, _) = adapt::read_slice(ver, &b, rem - 1);
            if r != Err(Error::PayloadSizeLimitExceeded(rem)) {
                return Err(format!("v{ver} {} under limit {}: {}", hex(&b), rem - 1, res(&r)));
            }
            ctx.case("over-limit size");
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C30
pub fn c30(th: bool) -> Vec<Exploration> {
    let mut v = altered_space(
        BOTH,
        1 + th as u32,
        2 + th as u32,
        Arc::new(|ctx, ver, e, i, x, b| {
            if i == usize::MAX || x == usize::MAX || matches!(e.fields[i].kind, FK::StrLen | FK::BinLen | FK::PropLen) {
                return judged(ctx, ver, b);
            }
            Ok(())
        }),
    );
    v.push(expl("every length field of every base frame set to every other value", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        let mut seen = 0;
        for i in 0..e.fields.len() {
            let k = e.fields[i].kind;
            if !matches!(k, FK::StrLen | FK::BinLen | FK::PropLen) {
                continue;
            }
            seen += 1;
            let left = e.bytes.len() - (e.fields[i].off + e.fields[i].len);
            let top = if th && k != FK::PropLen { 65_535 } else { left + 40 };
            let edges = [127usize, 128, 255, 256, 257, 511, 512, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, 65_536, 2_097_151, 2_097_152, 268_435_455];
            for x in (0..=top).chain(edges) {
                for pad in 0..if k == FK::PropLen { 4 } else { 1 } {
                    if let Some(f) = bytesgen::with_len(e, i, x, pad) {
                        judged(ctx, ver, &f)?;
                    }
                }
            }
        }
        if seen == 0 {
            ctx.skip("no inner length field");
        }
        Ok(())
    }));
    v.push(expl("two length fields at once: every pair of values within the frame", 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        let lens: Vec<usize> = (0..e.fields.len()).filter(|i| matches!(e.fields[*i].kind, FK::StrLen | FK::BinLen | FK::PropLen)).collect();
        let size = bytesgen::body(e).len();
        if lens.len() < 2 || size > if th { 400 } else { 100 } {
            ctx.skip("outside the bound");
            return Ok(());
        }
        let a = ch.pick(lens.len() - 1);
        for b in a + 1..lens.len() {
            let (fa, fb) = (e.fields[lens[a]], e.fields[lens[b]]);
            let mut x = e.bytes.clone();
            for va in 0..=size.min(126) {
                x[fa.off + fa.len - 1] = va as u8;
                for vb in 0..=size.min(126) {
                    x[fb.off + fb.len - 1] = vb as u8;
                    judged(ctx, ver, &x)?;
                }
            }
        }
        ctx.case("pairs");
        Ok(())
    }));
    v.push(expl("inner lengths off by up to three, or filling their containers, with properties in every order of two and three, all rotated, and each one alone and last", 0, move |ctx, ch| {
        let c = *ch.of(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, spec::WILL]);
        let ids = spec::props_of(c);
        let i = ch.pick(ids.len());
        let with_props = |props: Props| {
            let mut m = gen::base_packet(5, if c == spec::WILL { 1 } else { c }, if c == spec::WILL { Base::Full } else { Base::Minimal });
            match &mut m {
                M::Connect { will: Some(w), props: p, .. } if c == spec::WILL => {
                    w.props = props;
                    p.clear();
                }
                m => *m.props_mut().expect("HARNESS: properties") = props,
            }
            m
        };
        let mut orders: Vec<Vec<usize>> = vec![vec![i]];
        for j in 0..ids.len() {
            orders.push(vec![i, j]);
            if th || ids.len() < 10 {
                for k in 0..ids.len() {
                    orders.push(vec![i, j, k]);
                }
            } else {
                orders.push(vec![i, i, j]);
                orders.push(vec![i, j, i]);
                orders.push(vec![j, i, j]);
                orders.push(vec![i, j, (j + 1) % ids.len()]);
            }
        }
        // all of them, this one last, both ways around
        orders.push((1..=ids.len()).map(|k| (i + k) % ids.len()).collect());
        orders.push((0..ids.len()).map(|k| (i + ids.len() - k) % ids.len()).rev().collect());
        orders.push((0..ids.len()).map(|k| (i + ids.len() - k) % ids.len()).collect());
        for o in orders {
            let props: Props = o.iter().map(|k| (ids[*k].0, gen::default_pv(ids[*k].0, ids[*k].1, 0))).collect();
            let m = with_props(props);
            let e = enc::encode(5, &m, Form::Full);
            judged(ctx, 5, &e.bytes)?;
            for i in 0..e.fields.len() {
                let f = e.fields[i];
                if !matches!(f.kind, FK::StrLen | FK::BinLen | FK::PropLen) {
                    continue;
                }
                let now = match f.len {
                    2 if f.kind != FK::PropLen => (e.bytes[f.off] as usize) << 8 | e.bytes[f.off + 1] as usize,
                    _ => e.bytes[f.off..f.off + f.len].iter().enumerate().map(|(k, b)| ((b & 0x7F) as usize) << (7 * k)).sum(),
                };
                let fit = e.bytes.len() - (f.off + f.len);
                for x in [0, 1, now.saturating_sub(3), now.saturating_sub(2), now.saturating_sub(1), now + 1, now + 2, now + 3, fit.saturating_sub(1), fit, fit + 1] {
                    if let Some(b) = bytesgen::with_len(&e, i, x, 0) {
                        judged(ctx, 5, &b)?;
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("the container shrinks instead: every length field against every cut of its frame", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let bs = bytesgen::bases(ver, t);
        let e = ch.of(&bs);
        let body = bytesgen::body(e);
        let h = bytesgen::hdr_len(e);
        ctx.case("frame");
        for n in 0..=body.len() {
            judged(ctx, ver, &bytesgen::frame(e.bytes[0], &body[..n]))?;
            // with each length field set to fill what is left, one less, one more
            for i in 0..e.fields.len() {
                let f = e.fields[i];
                if !matches!(f.kind, FK::StrLen | FK::BinLen | FK::PropLen) || f.off + f.len - h > n {
                    continue;
                }
                let fit = n - (f.off + f.len - h);
                for x in [fit, fit + 1, fit.saturating_sub(1)] {
                    let mut b = body[..n].to_vec();
                    let at = f.off - h;
                    if f.kind == FK::PropLen {
                        b.splice(at..at + f.len, enc::varint(x));
                    } else {
                        b[at] = (x >> 8) as u8;
                        b[at + 1] = x as u8;
                    }
                    judged(ctx, ver, &bytesgen::frame(e.bytes[0], &b))?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("long containers: length fields around 255/256/65535 in frames that long", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let (t, size) = (*ch.of(&[1u8, 3, 8, 10]), *ch.of(&[255usize, 256, 257, 300, 65_534, 65_535, 65_536, 65_600]));
        let mut m = gen::base_packet(ver, t, Base::Minimal);
        if !grow_remaining(ver, &mut m, size) {
            ctx.skip("size not reachable");
            return Ok(());
        }
        let e = enc::encode(ver, &m, Form::Full);
        for i in 0..e.fields.len() {
            let f = e.fields[i];
            if !matches!(f.kind, FK::StrLen | FK::BinLen | FK::PropLen) {
                continue;
            }
            let left = e.bytes.len() - (f.off + f.len);
            for x in (0..4).chain(left.saturating_sub(6)..left + 6).chain(253..260).chain(65_530..65_536) {
                if let Some(b) = bytesgen::with_len(&e, i, x, 0) {
                    judged(ctx, ver, &b)?;
                }
            }
        }
        ctx.case("long");
        Ok(())
    }));
    v.push(expl("property sections: strings and sections of every declared length in every packet", 0, |ctx, ch| {
        let t = *ch.of(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]);
        for (id, ty) in spec::props_of(t) {
            if !matches!(ty, PT::Str | PT::Bin | PT::Pair) {
                continue;
            }
            for content in 0..8usize {
                for d in (0..24usize).chain([255, 256, 65_535]) {
                    let mut s = vec![id, (d >> 8) as u8, d as u8];
                    s.resize(3 + content, 0);
                    for dl in s.len().saturating_sub(2)..s.len() + 9 {
                        judged(ctx, 5, &with_section(t, &s, dl, 0))?;
                    }
                    // a further property behind it
                    s.extend_from_slice(b"\x26\0\0\0\0");
                    judged(ctx, 5, &with_section(t, &s, s.len(), 0))?;
                }
            }
        }
        Ok(())
    }));
    let _ = (Filter { path: String::new(), qos: 0, nolocal: false, rap: false, rule: 0 }, model::enc::varint(0));
    v
}
