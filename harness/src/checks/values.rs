//! Packets as values: C31 (equality and clones) and C32 (renderings).
use crate::adapt::{self, Error, FixedHeader, PacketType, Pk, QoS};
use crate::explore::*;
use crate::gen;
use crate::model::{self, spec, Num, Props, Txt, M, PV};
use crate::spaces::*;
use bytes::BytesMut;
use std::fmt::{self, Write};
use std::sync::Arc;

/// What a change touches, as far as a rendering is concerned.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Touch {
    /// a field every rendering shows
    Shown,
    /// payload, correlation data and the like, replaced by content of the same size
    Content,
    /// anything else
    Rest,
}
type Change = (String, M, Touch);

fn text_changes(s: &str) -> Vec<String> {
    let mut v = vec![format!("{s}x"), format!("x{s}"), format!("{s} "), format!("{s}\0")];
    let chars: Vec<char> = s.chars().collect();
    for i in [0, chars.len() / 2, chars.len().saturating_sub(1)] {
        if let Some(c) = chars.get(i) {
            let mut other = chars.clone();
            other[i] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { 'q' };
            v.push(other.iter().collect());
            let mut less = chars.clone();
            less.remove(i);
            v.push(less.into_iter().collect());
        }
    }
    if !s.is_empty() {
        v.push(String::new());
    }
    v.retain(|x| x != s);
    v.dedup();
    v
}
fn bytes_changes(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![[b, &[0]].concat(), [&[0], b].concat()];
    for i in [0, b.len() / 2, b.len().saturating_sub(1)] {
        if i < b.len() {
            for bit in [1u8, 0x80] {
                let mut o = b.to_vec();
                o[i] ^= bit;
                v.push(o);
            }
            let mut o = b.to_vec();
            o.remove(i);
            v.push(o);
        }
    }
    if !b.is_empty() {
        v.push(vec![]);
    }
    v.retain(|x| x != b);
    v.dedup();
    v
}

/// Every value that differs from `m` in one field (of a packet of version `ver`).
fn changes(ver: u8, m: &M) -> Vec<Change> {
    let mut out: Vec<Change> = vec![];
    let publish = matches!(m, M::Publish { .. });
    let terse = publish || matches!(m, M::Subscribe { .. });
    let rest = if terse { Touch::Rest } else { Touch::Shown };
    // texts and binary contents
    let mut probe = m.clone();
    let n = model::texts(&mut probe, true).len();
    for i in 0..n {
        let (name, new): (String, Vec<Result<String, Vec<u8>>>) = match &model::texts(&mut probe, true)[i] {
            (name, Txt::S(s)) => (name.clone(), text_changes(s).into_iter().map(Ok).collect()),
            (name, Txt::B(b)) => (name.clone(), bytes_changes(b).into_iter().map(Err).collect()),
        };
        for x in new {
            let mut c = m.clone();
            let mut same_size = false;
            let secret = name == "password";
            match (&mut model::texts(&mut c, true)[i].1, x) {
                (Txt::S(s), Ok(x)) => **s = x,
                (Txt::B(b), Err(x)) => {
                    same_size = b.len() == x.len();
                    **b = x;
                }
                _ => unreachable!("HARNESS: field kinds"),
            }
            let touch = if name == "payload" {
                if same_size {
                    Touch::Content
                } else {
                    Touch::Shown
                }
            } else if secret {
                Touch::Rest
            } else if name.contains("prop") || name == "will.message" {
                rest
            } else {
                Touch::Shown
            };
            out.push((name.clone(), c, touch));
        }
    }
    // numbers
    let n = model::nums(&mut probe).len();
    for i in 0..n {
        let (name, new): (String, Vec<u32>) = match &model::nums(&mut probe)[i] {
            (name, Num::U8(x)) => (name.clone(), (0..8).map(|b| (**x ^ 1 << b) as u32).collect()),
            (name, Num::U16(x)) => (name.clone(), (0..16).map(|b| (**x ^ 1 << b) as u32).collect()),
            (name, Num::U32(x)) => (name.clone(), (0..32).map(|b| **x ^ 1 << b).collect()),
        };
        for x in new {
            let mut c = m.clone();
            model::nums(&mut c)[i].1.set(x);
            out.push((name.clone(), c, if name.contains("prop") { rest } else { Touch::Shown }));
        }
    }
    // property lists: one less, one more of a repeated one, a repeated one moved, integers of variable length
    let mut lists: Vec<(String, Props, Touch)> = vec![];
    let plists = |props: &Props, lists: &mut Vec<(String, Props, Touch)>| {
        if props.len() > 1 {
            lists.push(("no properties".into(), vec![], rest));
        }
        for i in 0..props.len() {
            let mut p = props.clone();
            p.remove(i);
            lists.push((format!("no property {}", props[i].0), p, rest));
            if i + 1 < props.len() && props[i].0 == props[i + 1].0 {
                let mut p = props.clone();
                p.insert(i, props[i].clone());
                lists.push((format!("property {} once more", props[i].0), p, rest));
                if props[i] != props[i + 1] {
                    let mut p = props.clone();
                    p.swap(i, i + 1);
                    lists.push((format!("property {} in another order", props[i].0), p, rest));
                }
            }
            if let model::PV::Var(x) = props[i].1 {
                for bit in 0..28 {
                    let mut p = props.clone();
                    p[i].1 = model::PV::Var(x ^ 1 << bit);
                    lists.push((format!("property {}", props[i].0), p, rest));
                }
            }
        }
    };
    if ver == 5 {
        if let Some(p) = probe.props_mut() {
            plists(p, &mut lists);
            for (name, p, t) in lists.drain(..) {
                let mut c = m.clone();
                *c.props_mut().unwrap() = p;
                out.push((name, c, t));
            }
        }
    }
    let mut edit = |name: &str, touch: Touch, f: &dyn Fn(&mut M)| {
        let mut c = m.clone();
        f(&mut c);
        if c != *m {
            out.push((name.to_string(), c, touch));
        }
    };
    use Touch::*;
    match m {
        M::Connect { level: _, will, login, .. } => {
            edit("clean", Shown, &|c| if let M::Connect { clean, .. } = c { *clean = !*clean });
            if ver == 5 {
                edit("level", Shown, &|c| if let M::Connect { level, .. } = c { *level = 9 - *level });
            }
            edit("login", Shown, &|c| if let M::Connect { login, .. } = c { *login = if login.is_some() { None } else { Some(("u".into(), "p".into())) } });
            if let Some((u, p)) = login {
                let swapped = (p.clone(), u.clone());
                edit("login parts swapped", Rest, &|c| if let M::Connect { login, .. } = c { *login = Some(swapped.clone()) });
            }
            edit("will", Shown, &|c| {
                if let M::Connect { will, .. } = c {
                    *will = if will.is_some() { None } else { Some(model::Will { topic: "w".into(), message: vec![1], qos: 0, retain: false, props: vec![] }) }
                }
            });
            if let Some(w) = will {
                for q in 0..3 {
                    edit("will.qos", Shown, &|c| if let M::Connect { will: Some(w), .. } = c { w.qos = q });
                }
                edit("will.retain", Shown, &|c| if let M::Connect { will: Some(w), .. } = c { w.retain = !w.retain });
                if ver == 5 {
                    plists(&w.props, &mut lists);
                    for (name, p, t) in lists {
                        edit(&format!("will: {name}"), t, &|c| if let M::Connect { will: Some(w), .. } = c { w.props = p.clone() });
                    }
                }
            }
        }
        M::ConnAck { .. } => {
            edit("session present", Shown, &|c| if let M::ConnAck { sp, .. } = c { *sp = !*sp });
            for n in spec::codes(ver, 2) {
                edit("code", Shown, &|c| if let M::ConnAck { code, .. } = c { *code = *n });
            }
        }
        M::Publish { .. } => {
            edit("dup", Rest, &|c| if let M::Publish { dup, .. } = c { *dup = !*dup });
            edit("retain", Shown, &|c| if let M::Publish { retain, .. } = c { *retain = !*retain });
            for q in 0..3 {
                edit("qos", Shown, &|c| if let M::Publish { qos, .. } = c { *qos = q });
            }
        }
        M::Ack { kind, .. } => {
            for k in 4..8 {
                // only values that exist for the other kind, too
                edit("kind", Shown, &|c| {
                    if let M::Ack { kind, reason, .. } = c {
                        if *reason == 0 {
                            *kind = k
                        }
                    }
                });
            }
            if ver == 5 {
                for n in spec::codes(5, *kind) {
                    edit("reason", Shown, &|c| if let M::Ack { reason, .. } = c { *reason = *n });
                }
            }
        }
        M::Subscribe { filters, .. } => {
            for i in 0..filters.len() {
                for q in 0..3 {
                    edit("filter qos", Shown, &|c| if let M::Subscribe { filters, .. } = c { filters[i].qos = q });
                    if ver == 5 {
                        edit("filter rule", Shown, &|c| if let M::Subscribe { filters, .. } = c { filters[i].rule = q });
                    }
                }
                if ver == 5 {
                    edit("filter nolocal", Shown, &|c| if let M::Subscribe { filters, .. } = c { filters[i].nolocal = !filters[i].nolocal });
                    edit("filter rap", Shown, &|c| if let M::Subscribe { filters, .. } = c { filters[i].rap = !filters[i].rap });
                }
                edit("one filter less", Shown, &|c| if let M::Subscribe { filters, .. } = c { drop(filters.remove(i)) });
                edit("a filter twice", Shown, &|c| if let M::Subscribe { filters, .. } = c { filters.insert(i, filters[i].clone()) });
                edit("filters in another order", Shown, &|c| if let M::Subscribe { filters, .. } = c { filters.swap(0, i) });
            }
        }
        M::SubAck { codes, .. } | M::UnsubAck { codes, .. } => {
            let ptype = m.ptype();
            for i in 0..codes.len() {
                for n in spec::codes(ver, ptype) {
                    edit("code", Shown, &|c| if let M::SubAck { codes, .. } | M::UnsubAck { codes, .. } = c { codes[i] = *n });
                }
                edit("one code less", Shown, &|c| if let M::SubAck { codes, .. } | M::UnsubAck { codes, .. } = c { codes.remove(i); });
                edit("a code twice", Shown, &|c| if let M::SubAck { codes, .. } | M::UnsubAck { codes, .. } = c { codes.insert(i, codes[i]) });
                edit("codes in another order", Shown, &|c| if let M::SubAck { codes, .. } | M::UnsubAck { codes, .. } = c { codes.swap(0, i) });
            }
        }
        M::Unsubscribe { filters, .. } => {
            for i in 0..filters.len() {
                edit("one filter less", Shown, &|c| if let M::Unsubscribe { filters, .. } = c { drop(filters.remove(i)) });
                edit("a filter twice", Shown, &|c| if let M::Unsubscribe { filters, .. } = c { filters.insert(i, filters[i].clone()) });
                edit("filters in another order", Shown, &|c| if let M::Unsubscribe { filters, .. } = c { filters.swap(0, i) });
            }
        }
        M::Disconnect { .. } => {
            if ver == 5 {
                for n in spec::codes(5, 14) {
                    edit("reason", Shown, &|c| if let M::Disconnect { reason, .. } = c { *reason = *n });
                }
            }
        }
        M::PingReq | M::PingResp => {}
    }
    out.retain(|(_, c, _)| c != m);
    out
}

/// The packets the two properties are explored around: every value of every field near both
/// bases, and the long texts and contents.
fn near(name: &'static str, th: bool, f: impl Fn(&mut Ctx, u8, &M) -> Outcome + Send + Sync + Clone + 'static) -> Vec<Exploration> {
    let g = f.clone();
    let mut v = vec![
        expl(format!("{name}: every packet value near the bases, and every change of one field of it"), 1 + th as u32, move |ctx, ch| {
            let ver = *ch.of(BOTH);
            let t = 1 + ch.pick(14) as u8;
            let base = *ch.of(&BASES);
            let m = gen::packet(ch, ver, t, base);
            ctx.sample(|| format!("v{ver} {m:?}"));
            f(ctx, ver, &m)
        }),
    ];
    let f = g.clone();
    v.push(expl(format!("{name}: two alternatives of every field, more deviations"), 2 + th as u32, move |ctx, ch| {
        ch.light = true;
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let base = *ch.of(&BASES);
        let m = gen::packet(ch, ver, t, base);
        f(ctx, ver, &m)
    }));
    let f = g;
    v.push(expl(format!("{name}: long contents with a special unit at front, middle or end"), 0, move |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let base = gen::base_packet(ver, t, gen::Base::Full);
        let n = model::texts(&mut base.clone(), true).len();
        if n == 0 {
            ctx.skip("no such field");
            return Ok(());
        }
        let i = ch.pick(n);
        let lens: &[usize] = if th { &LONG_LENS } else { &LONG_LENS_QUICK };
        for len in lens {
            for unit in ["a", "é", "\0", "\"", "\\", "{}", "😀", "\u{301}", "\n", "/", "', Pkid = 1"] {
                for place in 0..4 {
                    let mut m = base.clone();
                    match &mut model::texts(&mut m, true)[i].1 {
                        Txt::S(s) => **s = placed(unit, *len, place),
                        Txt::B(b) => **b = placed_bytes(unit.as_bytes(), *len, place),
                    }
                    f(ctx, ver, &m)?;
                }
            }
        }
        Ok(())
    }));
    v
}

/// Every error value with sharp numbers.
fn errors() -> Vec<Error> {
    let mut v = vec![
        Error::UnexpectedConnect,
        Error::InvalidProtocol,
        Error::IncorrectPacketFormat,
        Error::PacketIdZero,
        Error::SubscriptionIdZero,
        Error::PayloadSizeIncorrect,
        Error::PayloadTooLong,
        Error::PayloadRequired,
        Error::TopicNotUtf8,
        Error::MalformedPacket,
        Error::MalformedRemainingLength,
        Error::EmptySubscription,
    ];
    v.extend(packet_types().into_iter().map(Error::NotConnect));
    for n in 0..=255u8 {
        v.extend([
            Error::InvalidConnectReturnCode(n),
            Error::InvalidReason(n),
            Error::InvalidProtocolLevel(n),
            Error::InvalidPacketType(n),
            Error::InvalidPropertyType(n),
            Error::InvalidRetainForwardRule(n),
            Error::InvalidQoS(n),
            Error::InvalidSubscribeReasonCode(n),
        ]);
    }
    for n in (0..64).map(|b| 1usize << b).chain([0, 3, 10, 255, 268_435_455, usize::MAX]) {
        v.extend([Error::PayloadSizeLimitExceeded(n), Error::BoundaryCrossed(n), Error::InsufficientBytes(n)]);
    }
    v
}
fn packet_types() -> Vec<PacketType> {
    use PacketType::*;
    vec![Connect, ConnAck, Publish, PubAck, PubRec, PubRel, PubComp, Subscribe, SubAck, Unsubscribe, UnsubAck, PingReq, PingResp, Disconnect]
}
fn headers() -> Vec<FixedHeader> {
    let mut v = vec![];
    for b in 0..=255u8 {
        for ll in 1..=4usize {
            for len in [0usize, 1, 2, 127, 128, 129, 256, 16_384, 65_536, 268_435_455] {
                v.push(FixedHeader::new(b, ll, len));
            }
        }
    }
    v
}

/// Both ways, and through `ne`.
fn eq<T: PartialEq>(a: &T, b: &T) -> Option<bool> {
    let r = a == b;
    ((b == a) == r && (a != b) != r && (b != a) != r).then_some(r)
}

fn c31_one(ctx: &mut Ctx, ver: u8, m: &M) -> Outcome {
    let p = Pk::from_model(ver, m, false);
    let q = Pk::from_model(ver, m, false);
    let c = p.clone();
    adapt::op();
    for (what, x) in [("itself", &p), ("the same value built again", &q), ("its clone", &c)] {
        if eq(&p, x) != Some(true) {
            return Err(format!("v{ver} {m:?} does not equal {what}"));
        }
    }
    if c.model() != p.model() || p.model() != *m && p.model().norm() != m.norm() {
        return Err(format!("v{ver} {m:?} has the clone {:?}, and reads {:?}", c.model(), p.model()));
    }
    let (mut a, mut b) = (BytesMut::new(), BytesMut::new());
    let (ra, rb) = (p.write(&mut a), c.write(&mut b));
    if ra != rb || a != b {
        return Err(format!("v{ver} {m:?} is written as {} and its clone as {}", hex(&a), hex(&b)));
    }
    if ra.is_ok() {
        let (x, y) = (adapt::read_slice(ver, &a, usize::MAX).0, adapt::read_slice(ver, &b, usize::MAX).0);
        if x.is_err() || eq(&x, &y) != Some(true) {
            return Err(format!("v{ver} {} read twice gives unequal packets", hex(&a)));
        }
        let back = x.unwrap().model();
        if back.norm() != m.norm() {
            return Err(format!("v{ver} {m:?} reads back as {back:?}"));
        }
    }
    for (name, other, _) in changes(ver, m) {
        let d = Pk::from_model(ver, &other, false);
        adapt::op();
        if eq(&p, &d) != Some(false) {
            return Err(format!("v{ver} {m:?} equals {other:?} ({name})"));
        }
        ctx.case("one field apart, unequal");
    }
    ctx.case("equal to its clone");
    Ok(())
}
/// Cloning alone, for large spaces.
fn cloned(ctx: &mut Ctx, ver: u8, m: &M) -> Outcome {
    let p = Pk::from_model(ver, m, false);
    let c = p.clone();
    adapt::op();
    if eq(&p, &c) != Some(true) || c.model() != p.model() {
        return Err(format!("v{ver} {m:?} reads {:?}, its clone {:?}; equal: {}", p.model(), c.model(), p == c));
    }
    ctx.case("equal to its clone");
    Ok(())
}

pub fn c31(th: bool) -> Vec<Exploration> {
    let mut v = near("equality", th, c31_one);
    v.extend(value_space_at(BOTH, th as u32, Arc::new(cloned)));
    v.push(expl("publishes, encodable or not: every combination of flags, small packet ids, topics, payloads and property shapes", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let shape = if ver == 5 { ch.pick(4) } else { 0 };
        let (dup, retain, qos) = (ch.pick(2) == 1, ch.pick(2) == 1, ch.pick(3) as u8);
        let props = match shape {
            0 => vec![],
            1 => vec![(35, PV::U16(0))],
            2 => vec![(38, PV::Pair(String::new(), String::new()))],
            _ => gen::base_packet(5, 3, gen::Base::Full).props_mut().unwrap().clone(),
        };
        for pkid in [0u16, 1, 255, 256, 65_535] {
            for topic in ["", "t", "a/b"] {
                for payload in [&b""[..], b"\0", b"ab"] {
                    c31_one(ctx, ver, &M::Publish { dup, qos, retain, topic: topic.into(), pkid, props: props.clone(), payload: payload.to_vec() })?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("large contents: one byte changed, left out or added near the ends, the middle and block boundaries", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let base = gen::base_packet(ver, t, gen::Base::Full);
        let n = model::texts(&mut base.clone(), true).len();
        if n == 0 {
            ctx.skip("no such field");
            return Ok(());
        }
        let i = ch.pick(n);
        let payload = model::texts(&mut base.clone(), true)[i].0 == "payload";
        let lens: &[usize] = if payload { &[1024, 4096, 16_384, 65_535, 65_536, 65_537, 70_000, 131_072, 131_073, 200_000, 1 << 20, (1 << 20) + 1] } else { &[1024, 4096, 16_384, 65_534, 65_535] };
        for len in lens {
            let mut m = base.clone();
            model::texts(&mut m, true)[i].1.set_len(*len);
            let p = Pk::from_model(ver, &m, false);
            cloned(ctx, ver, &m)?;
            for at in big_cuts(*len) {
                for how in 0..3 {
                    let mut o = m.clone();
                    match &mut model::texts(&mut o, true)[i].1 {
                        Txt::S(s) => match how {
                            0 if at < *len => s.replace_range(at..at + 1, "y"),
                            1 if at < *len => drop(s.remove(at)),
                            _ => s.insert(at, 'z'),
                        },
                        Txt::B(b) => match how {
                            0 if at < *len => b[at] ^= 0x40,
                            1 if at < *len => drop(b.remove(at)),
                            _ => b.insert(at, 0),
                        },
                    }
                    adapt::op();
                    if eq(&p, &Pk::from_model(ver, &o, false)) != Some(false) {
                        return Err(format!("v{ver} a {} whose text field {i} holds {len} bytes equals one changed at {at} (way {how})", m.name()));
                    }
                    ctx.case("one place of a large content");
                }
            }
        }
        Ok(())
    }));
    v.push(expl("long lists: any entry changed, left out, repeated, or two exchanged", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[8u8, 9, 10, 11, 3]);
        let n = *ch.of(&[2usize, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300]);
        if ver == 4 && (t == 11 || t == 3) {
            ctx.skip("no list");
            return Ok(());
        }
        // entries of four kinds, so that neighbours differ
        let make = |l: &[usize]| match t {
            3 => M::Publish { dup: false, qos: 1, retain: false, topic: "t".into(), pkid: 1, props: l.iter().map(|k| (38, PV::Pair(format!("k{}", k / 2), format!("v{k}")))).collect(), payload: vec![] },
            8 => M::Subscribe { pkid: 9, filters: l.iter().map(|k| model::Filter { path: format!("f/{k}"), qos: (k % 3) as u8, nolocal: ver == 5 && k % 2 == 1, rap: false, rule: 0 }).collect(), props: vec![] },
            9 => M::SubAck { pkid: 9, codes: l.iter().map(|k| [0u8, 1, 2, 0x80][k % 4]).collect(), props: vec![] },
            10 => M::Unsubscribe { pkid: 9, filters: l.iter().map(|k| format!("f/{k}")).collect(), props: vec![] },
            _ => M::UnsubAck { pkid: 9, codes: l.iter().map(|k| [0u8, 0x11, 0x80, 0x83][k % 4]).collect(), props: vec![] },
        };
        let plain: Vec<usize> = (0..n).collect();
        let m = make(&plain);
        let p = Pk::from_model(ver, &m, false);
        cloned(ctx, ver, &m)?;
        let mut one = |ctx: &mut Ctx, l: &[usize], what: &dyn Fn() -> String| -> Outcome {
            let o = make(l);
            let same = o == m;
            let q = Pk::from_model(ver, &o, false);
            adapt::op();
            if eq(&p, &q) != Some(same) || q.clone() != q || q.clone().model() != q.model() {
                return Err(format!("v{ver} a {} of {n} entries, {}: equal to the first {}, by its entries {same}", m.name(), what(), p == q));
            }
            ctx.case(if same { "list, equal" } else { "list, unequal" });
            Ok(())
        };
        for i in 0..n {
            for add in 1..4 {
                let mut l = plain.clone();
                l[i] += add;
                one(ctx, &l, &|| format!("another at {i}"))?;
            }
            let mut l = plain.clone();
            l.remove(i);
            one(ctx, &l, &|| format!("none at {i}"))?;
            let mut l = plain.clone();
            l.insert(i, i);
            one(ctx, &l, &|| format!("the one at {i} twice"))?;
            for j in [i + 1, i + 2, i + 3, n - 1, n / 2] {
                if j < n {
                    let mut l = plain.clone();
                    l.swap(i, j);
                    one(ctx, &l, &|| format!("{i} and {j} exchanged"))?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("texts that read the same when put together: every two text fields, every ASCII character between", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let base = gen::base_packet(ver, t, *ch.of(&BASES));
        let n = model::texts(&mut base.clone(), true).len();
        if n < 2 {
            ctx.skip("less than two such fields");
            return Ok(());
        }
        let i = ch.pick(n);
        let with = |i: usize, j: usize, a: &str, b: &str| {
            let mut m = base.clone();
            for (k, x) in model::texts(&mut m, true).into_iter().enumerate() {
                let y = if k == i { a } else if k == j { b } else { continue };
                match x.1 {
                    Txt::S(s) => *s = y.into(),
                    Txt::B(v) => *v = y.as_bytes().to_vec(),
                }
            }
            Pk::from_model(ver, &m, false)
        };
        for j in i + 1..n {
            for c in (0..=128u8).map(|c| if c == 128 { String::new() } else { (c as char).to_string() }) {
                for pairs in [
                    [("a", format!("b{c}d")), ("", format!("a{c}b{c}d"))],
                    [("a", format!("{c}d")), ("a", format!("d"))],
                    [("a", "a".into()), ("", format!("a{c}a"))],
                ] {
                    let [(a0, b0), (a1, b1)] = pairs;
                    let a2 = format!("a{c}b");
                    let all = [(a0.to_string(), b0), (a1.to_string(), b1.clone()), (b1, String::new()), (a2, "d".to_string())];
                    for x in 0..4 {
                        for y in 0..x {
                            let same = all[x] == all[y];
                            let (p, q) = (with(i, j, &all[x].0, &all[x].1), with(i, j, &all[y].0, &all[y].1));
                            adapt::op();
                            if eq(&p, &q) != Some(same) {
                                return Err(format!("v{ver} type {t} with text fields {i} and {j} {:?} and {:?}: equal is {}", all[x], all[y], p == q));
                            }
                            ctx.case(if same { "equal" } else { "unequal" });
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("lists that read the same when put together: every ASCII character between", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[8u8, 10]);
        let c = ch.pick(129);
        let c = if c == 128 { String::new() } else { (c as u8 as char).to_string() };
        let lists: Vec<Vec<String>> = [vec!["a", "b"], vec!["a,b"], vec!["a", "b", "d"], vec!["a,b", "d"], vec!["a", "b,d"], vec!["a,b,d"], vec!["a", "", "b"], vec!["a,,b"], vec!["a,", "b"], vec!["a", ",b"], vec!["", "a", "b"], vec!["a", "b", ""]]
            .into_iter()
            .map(|l| l.into_iter().map(|s| s.replace(',', &c)).collect())
            .collect();
        let make = |l: &[String]| {
            let m = if t == 8 {
                M::Subscribe { pkid: 9, filters: l.iter().map(|p| model::Filter { path: p.clone(), qos: 0, nolocal: false, rap: false, rule: 0 }).collect(), props: vec![] }
            } else {
                M::Unsubscribe { pkid: 9, filters: l.to_vec(), props: vec![] }
            };
            Pk::from_model(ver, &m, false)
        };
        for a in &lists {
            for b in &lists {
                adapt::op();
                let (p, q) = (make(a), make(b));
                if eq(&p, &q) != Some(a == b) {
                    return Err(format!("v{ver} type {t} with {a:?} and {b:?}: equal is {}", p == q));
                }
                ctx.case(if a == b { "equal" } else { "unequal" });
            }
        }
        Ok(())
    }));
    v.push(expl("property sets that are absent and that are empty", 1, |ctx, ch| {
        let t = 1 + ch.pick(14) as u8;
        let base = *ch.of(&BASES);
        let m = gen::packet(ch, 5, t, base);
        let will = matches!(&m, M::Connect { will: Some(w), .. } if w.props.is_empty());
        let apart = will || m.clone().props_mut().map_or(false, |p| p.is_empty());
        let (p, q) = (Pk::from_model(5, &m, false), Pk::from_model(5, &m, true));
        adapt::op();
        if eq(&p, &q) != Some(!apart) || eq(&q, &q.clone()) != Some(true) || eq(&q, &Pk::from_model(5, &m, true)) != Some(true) || eq(&q.clone(), &p) != Some(!apart) {
            return Err(format!("{m:?} with its empty property sets absent and present: equal is {}", p == q));
        }
        ctx.case(if apart { "unequal" } else { "no such set" });
        Ok(())
    }));
    v.push(expl("level-4 packets of the MQTT 5 module that hold properties", 1 + th as u32, |ctx, ch| {
        let base = *ch.of(&BASES);
        let mut m = gen::packet(ch, 5, 1, base);
        if let M::Connect { level, .. } = &mut m {
            *level = 4;
        }
        c31_one(ctx, 5, &m)
    }));
    v.push(expl("packets without entries and with packet id 0", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[4u8, 5, 6, 7, 8, 9, 10, 11]);
        let mut m = gen::base_packet(ver, t, *ch.of(&BASES));
        let empty = ch.pick(2) == 1;
        match &mut m {
            M::Ack { pkid, .. } => *pkid = 0,
            M::Subscribe { pkid, filters, .. } => {
                *pkid = 0;
                if empty {
                    filters.clear()
                }
            }
            M::Unsubscribe { pkid, filters, .. } => {
                *pkid = 0;
                if empty {
                    filters.clear()
                }
            }
            M::SubAck { pkid, codes, .. } | M::UnsubAck { pkid, codes, .. } => {
                *pkid = 0;
                if empty {
                    codes.clear()
                }
            }
            _ => {}
        }
        cloned(ctx, ver, &m)
    }));
    v.push(expl("every pair of packets one deviation from the bases, of every two types", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = 1 + ch.pick(14) as u8;
        let mut all: Vec<(u8, M, Pk)> = vec![];
        for t in 1..=14u8 {
            for base in BASES {
                each(1, &mut |c| {
                    let m = gen::packet(c, ver, t, base);
                    if model::texts(&mut m.clone(), true).iter().all(|(_, x)| match x {
                        Txt::S(s) => s.len() < 300,
                        Txt::B(b) => b.len() < 300,
                    }) {
                        let p = Pk::from_model(ver, &m, false);
                        all.push((t, m, p));
                    }
                });
            }
        }
        for (_, m, p) in all.iter().filter(|x| x.0 == t) {
            for (_, m2, p2) in &all {
                adapt::op();
                let same = p.model() == p2.model();
                if eq(p, p2) != Some(same) {
                    return Err(format!("v{ver} {m:?} and {m2:?}: equal is {:?}", p == p2));
                }
                ctx.case(if same { "pair, equal" } else { "pair, unequal" });
            }
        }
        Ok(())
    }));
    v.push(expl("every pair of errors, packet types, service levels and frame headers", 0, |ctx, ch| {
        match ch.pick(4) {
            0 => {
                let all = errors();
                for (i, a) in all.iter().enumerate() {
                    for (j, b) in all.iter().enumerate() {
                        if eq(a, b) != Some(i == j) || a.clone() != *a {
                            return Err(format!("{a:?} and {b:?}: equal is {}", a == b));
                        }
                        ctx.case("errors");
                    }
                }
            }
            1 => {
                let all = packet_types();
                for (i, a) in all.iter().enumerate() {
                    for (j, b) in all.iter().enumerate() {
                        if eq(a, b) != Some(i == j) {
                            return Err(format!("{a:?} and {b:?}: equal is {}", a == b));
                        }
                        ctx.case("types");
                    }
                }
            }
            2 => {
                let all = [QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce];
                for (i, a) in all.iter().enumerate() {
                    for (j, b) in all.iter().enumerate() {
                        let ord = (a < b, a <= b, a > b, a >= b, a.partial_cmp(b));
                        if eq(a, b) != Some(i == j) || ord != (i < j, i <= j, i > j, i >= j, Some(i.cmp(&j))) {
                            return Err(format!("{a:?} and {b:?}: equal is {}, (<, <=, >, >=, order) is {ord:?}", a == b));
                        }
                        ctx.case("service levels");
                    }
                }
            }
            _ => {
                let all = headers();
                for a in (0..all.len()).step_by(7) {
                    for b in 0..all.len() {
                        if eq(&all[a], &all[b]) != Some(a == b) {
                            return Err(format!("{:?} and {:?}: equal is {}", all[a], all[b], all[a] == all[b]));
                        }
                        ctx.case("headers");
                    }
                }
            }
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C32
/// Takes `left` more bytes, then fails.
struct Narrow {
    left: usize,
    got: String,
}
impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
fn show(p: &Pk, pretty: bool) -> Result<String, String> {
    let mut s = String::new();
    adapt::op();
    match (p, pretty) {
        (Pk::V4(p), false) => write!(s, "{p:?}"),
        (Pk::V4(p), true) => write!(s, "{p:#?}"),
        (Pk::V5(p), false) => write!(s, "{p:?}"),
        (Pk::V5(p), true) => write!(s, "{p:#?}"),
    }
    .map_err(|_| format!("{p:?} cannot be rendered"))?;
    Ok(s)
}
fn c32_one(ctx: &mut Ctx, ver: u8, m: &M) -> Outcome {
    let p = Pk::from_model(ver, m, false);
    let plain = show(&p, false)?;
    let pretty = show(&p, true)?;
    if show(&p, false)? != plain || show(&p.clone(), false)? != plain || show(&Pk::from_model(ver, m, false), true)? != pretty {
        return Err(format!("v{ver} {m:?} is rendered as {plain:?} and then otherwise"));
    }
    if p.model() != Pk::from_model(ver, m, false).model() {
        return Err(format!("v{ver} rendering changes {m:?} to {:?}", p.model()));
    }
    // read back, it is rendered the same way
    let mut b = BytesMut::new();
    if p.write(&mut b).is_ok() {
        if let (Ok(x), _) = adapt::read_slice(ver, &b, usize::MAX) {
            // the id of a QoS 0 publish is not carried
            let carried = !matches!(m, M::Publish { qos: 0, .. });
            if matches!(m, M::Publish { .. } | M::Subscribe { .. }) && carried && show(&x, false)? != plain {
                return Err(format!("v{ver} {m:?} is rendered as {plain:?}, and read back from its bytes as {:?}", show(&x, false)?));
            }
        }
    }
    // a reader of the rendering that takes only so much
    let n = plain.len();
    for cut in [0, 1, n / 2, n.saturating_sub(1), n] {
        let mut w = Narrow { left: cut, got: String::new() };
        let r = match &p {
            Pk::V4(p) => write!(w, "{p:?}"),
            Pk::V5(p) => write!(w, "{p:?}"),
        };
        if r.is_ok() != (cut == n) || !plain.starts_with(&w.got) {
            return Err(format!("v{ver} {m:?} rendered into room for {cut} of {n} bytes: {r:?}, {:?}", w.got));
        }
    }
    let is_publish = matches!(m, M::Publish { .. });
    for (name, other, touch) in changes(ver, m) {
        let d = show(&Pk::from_model(ver, &other, false), false)?;
        match touch {
            Touch::Shown if d == plain => return Err(format!("v{ver} {m:?} and {other:?} ({name}) are both rendered as {d:?}")),
            Touch::Content if is_publish && d != plain => return Err(format!("v{ver} {m:?} and {other:?} differ in payload content only, but are rendered as {plain:?} and {d:?}")),
            _ => ctx.case(if d == plain { "change not shown" } else { "change shown" }),
        }
    }
    ctx.case("rendered");
    Ok(())
}

pub fn c32(th: bool) -> Vec<Exploration> {
    let mut v = near("rendering", th, c32_one);
    v.push(expl("a publish with a payload of every size up to 300 and of large sizes", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let base = gen::base_packet(ver, 3, *ch.of(&BASES));
        let mut shown: Vec<String> = vec![];
        for n in (0..300usize).chain([1000, 1024, 4096, 16_383, 16_384, 65_535, 65_536, 1 << 20, 10_000_000]) {
            let mut m = base.clone();
            if let M::Publish { payload, .. } = &mut m {
                *payload = vec![b'p'; n];
            }
            let s = show(&Pk::from_model(ver, &m, false), false)?;
            if s.len() > 1000 || s.contains("pppp") {
                return Err(format!("v{ver} a publish with {n} payload bytes is rendered in {} bytes", s.len()));
            }
            if shown.contains(&s) {
                return Err(format!("v{ver} publishes with {n} and fewer payload bytes are both rendered as {s:?}"));
            }
            shown.push(s);
            ctx.case("payload size");
        }
        Ok(())
    }));
    v.push(expl("lists of up to 300 filters and codes: a change to any one is shown", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[8u8, 9, 10, 11]);
        let n = *ch.of(&[1usize, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300]);
        if ver == 4 && t == 11 {
            ctx.skip("no codes");
            return Ok(());
        }
        let make = |odd: usize| {
            let path = |i: usize| if i == odd { "odd/one".to_string() } else { format!("f/{i}") };
            match t {
                8 => M::Subscribe { pkid: 9, filters: (0..n).map(|i| model::Filter { path: path(i), qos: 1, nolocal: false, rap: false, rule: 0 }).collect(), props: vec![] },
                9 => M::SubAck { pkid: 9, codes: (0..n).map(|i| if i == odd { 0x80 } else { (i % 3) as u8 }).collect(), props: vec![] },
                10 => M::Unsubscribe { pkid: 9, filters: (0..n).map(path).collect(), props: vec![] },
                _ => M::UnsubAck { pkid: 9, codes: (0..n).map(|i| if i == odd { 0x80 } else { 0 }).collect(), props: vec![] },
            }
        };
        let mut seen = std::collections::HashSet::new();
        for odd in 0..=n {
            let m = make(odd);
            if !seen.insert(show(&Pk::from_model(ver, &m, false), false)?) {
                return Err(format!("v{ver} a {} of {n} entries with another entry at {odd} is rendered like one with another entry elsewhere", m.name()));
            }
            if t == 8 {
                // another service level at that place
                let mut m = make(n);
                if let M::Subscribe { filters, .. } = &mut m {
                    if odd < n {
                        filters[odd].qos = 2;
                        if !seen.insert(show(&Pk::from_model(ver, &m, false), false)?) {
                            return Err(format!("v{ver} a {} of {n} filters with another service level at {odd} is rendered like another", m.name()));
                        }
                    }
                }
            }
            ctx.case("list entry");
        }
        Ok(())
    }));
    v.push(expl("every packet id of every packet that has one", 0, |ctx, ch| {
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[3u8, 4, 5, 6, 7, 8, 9, 10, 11]);
        let mut m = gen::base_packet(ver, t, gen::Base::Minimal);
        let mut seen = std::collections::HashSet::new();
        for id in 0..=65_535u32 {
            let k = model::nums(&mut m).iter().position(|(n, _)| n == "pkid").expect("HARNESS: pkid");
            model::nums(&mut m)[k].1.set(id);
            if !seen.insert(show(&Pk::from_model(ver, &m, false), false)?) {
                return Err(format!("v{ver} {m:?} is rendered like one with a smaller packet id"));
            }
            ctx.case("packet id");
        }
        Ok(())
    }));
    v.push(expl("every topic and filter of up to three pieces in publishes and subscriptions", 0, |ctx, ch| {
        const U: [&str; 14] = ["a", "b", "/", "+", "#", "$", "é", "\u{10FFFF}", "\0", "\n", "\"", "\\", "{", " "];
        let ver = *ch.of(BOTH);
        let t = *ch.of(&[3u8, 8, 10]);
        let mut seen = std::collections::HashSet::new();
        for k in 0..4 {
            sequences(&U, k, &mut |us| {
                let s: String = us.concat();
                let mut m = gen::base_packet(ver, t, gen::Base::Minimal);
                match &mut m {
                    M::Publish { topic, .. } => *topic = s,
                    M::Subscribe { filters, .. } => filters[0].path = s,
                    M::Unsubscribe { filters, .. } => filters[0] = s,
                    _ => {}
                }
                if !seen.insert(show(&Pk::from_model(ver, &m, false), false)?) {
                    return Err(format!("v{ver} {m:?} is rendered like another packet"));
                }
                ctx.case("topic");
                Ok(())
            })?;
        }
        Ok(())
    }));
    v.push(expl("every error, displayed and debugged; packet types, service levels and frame headers", 0, |ctx, _| {
        let mut seen = std::collections::HashSet::new();
        for e in errors() {
            adapt::op();
            let (d, s) = (format!("{e:?}"), format!("{e}"));
            if d.is_empty() || s.is_empty() || format!("{e:?}") != d || e.to_string() != s {
                return Err(format!("{e:?} is displayed as {s:?}"));
            }
            if !seen.insert(("debug", d)) || !seen.insert(("display", s)) {
                return Err(format!("{e:?} is rendered like another error"));
            }
            ctx.case("error");
        }
        for t in packet_types() {
            if !seen.insert(("type", format!("{t:?}"))) {
                return Err(format!("{t:?} is rendered like another packet type"));
            }
            ctx.case("type");
        }
        for q in [QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce] {
            if !seen.insert(("qos", format!("{q:?}"))) {
                return Err(format!("{q:?} is rendered like another service level"));
            }
            ctx.case("service level");
        }
        for h in headers() {
            if !seen.insert(("header", format!("{h:?}"))) {
                return Err(format!("{h:?} is rendered like another header"));
            }
            ctx.case("header");
        }
        Ok(())
    }));
    // what the readers return for good and bad frames alike can be rendered
    v.extend(frame_space(
        BOTH,
        false,
        std::sync::Arc::new(|ctx: &mut Ctx, ver: u8, b: &[u8]| {
            match adapt::read_slice(ver, b, usize::MAX).0 {
                Ok(p) => {
                    if show(&p, false)?.is_empty() {
                        return Err(format!("v{ver} {} is read as a packet with an empty rendering", hex(b)));
                    }
                    ctx.case("packet rendered");
                }
                Err(e) => {
                    if format!("{e}{e:?}").is_empty() {
                        return Err(format!("v{ver} {} fails with an error with an empty rendering", hex(b)));
                    }
                    ctx.case("error rendered");
                }
            }
            Ok(())
        }),
    ));
    v
}
