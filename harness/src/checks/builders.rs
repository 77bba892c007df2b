//! Constructors and builders: C24.
use crate::adapt::Error;
use super::encode::wire_format;
use crate::adapt::{self, v4, v5, Pk, Protocol, QoS};
use crate::explore::*;
use crate::model::{spec, Filter, Will, M};
use bytes::Bytes;

const TEXTS: [&str; 6] = ["a/b", "", "é", "#", "x\u{0}y", "日本語/+"];
const QOS: [(QoS, u8); 3] = [(QoS::AtMostOnce, 0), (QoS::AtLeastOnce, 1), (QoS::ExactlyOnce, 2)];
fn blobs() -> Vec<Vec<u8>> {
    vec![b"hello".to_vec(), vec![], vec![0, 255, 128], vec![7; 300]]
}

/// The packet holds exactly the model's value and its encoding conveys it.
fn is(ctx: &mut Ctx, what: &str, p: Pk, m: &M) -> Outcome {
    let ver = p.ver();
    let got = p.model();
    if got != *m {
        return Err(format!("v{ver} {what} gives {got:?}, asked for {m:?}"));
    }
    // exactly: an empty property set is not the absence of one
    if p != Pk::from_model(ver, m, false) {
        return Err(format!("v{ver} {what} gives a packet different from the literal of {m:?}"));
    }
    ctx.case("builds what was asked for");
    // A packet identifier is for the sender to choose; without filters nothing can be sent.
    let mut m = m.clone();
    match &mut m {
        M::Publish { pkid, .. } | M::Ack { pkid, .. } | M::Subscribe { pkid, .. } | M::SubAck { pkid, .. } | M::Unsubscribe { pkid, .. } | M::UnsubAck { pkid, .. } if *pkid == 0 => *pkid = 0x0102,
        _ => {}
    }
    let mut p = p;
    set_id(&mut p);
    match &m {
        M::Subscribe { filters, .. } if filters.is_empty() => return Ok(()),
        M::SubAck { codes, .. } if codes.is_empty() => return Ok(()),
        M::UnsubAck { codes, .. } if codes.is_empty() && ver == 5 => return Ok(()),
        _ => {}
    }
    if p.model() != m {
        return Err("HARNESS: id".into());
    }
    let mut b = bytes::BytesMut::new();
    p.write(&mut b).map_err(|e| format!("v{ver} {what}: writing the result fails with {e:?}"))?;
    match crate::model::dec::decode(ver, &b) {
        Ok((back, _)) if back.norm() == m.norm() => {}
        x => return Err(format!("v{ver} {what} is written as {}, which spells {x:?}", hex(&b))),
    }
    wire_format(ctx, ver, &m)
}
fn set_id(p: &mut Pk) {
    let id = match p {
        Pk::V4(p) => match p {
            v4::Packet::Publish(x) => &mut x.pkid,
            v4::Packet::PubAck(x) => &mut x.pkid,
            v4::Packet::PubRec(x) => &mut x.pkid,
            v4::Packet::PubRel(x) => &mut x.pkid,
            v4::Packet::PubComp(x) => &mut x.pkid,
            v4::Packet::Subscribe(x) => &mut x.pkid,
            v4::Packet::SubAck(x) => &mut x.pkid,
            v4::Packet::Unsubscribe(x) => &mut x.pkid,
            v4::Packet::UnsubAck(x) => &mut x.pkid,
            _ => return,
        },
        Pk::V5(p) => match p {
            v5::Packet::Publish(x) => &mut x.pkid,
            v5::Packet::PubAck(x) => &mut x.pkid,
            v5::Packet::PubRec(x) => &mut x.pkid,
            v5::Packet::PubRel(x) => &mut x.pkid,
            v5::Packet::PubComp(x) => &mut x.pkid,
            v5::Packet::Subscribe(x) => &mut x.pkid,
            v5::Packet::SubAck(x) => &mut x.pkid,
            v5::Packet::Unsubscribe(x) => &mut x.pkid,
            v5::Packet::UnsubAck(x) => &mut x.pkid,
            _ => return,
        },
    };
    if *id == 0 {
        *id = 0x0102;
    }
}

/// Texts that a constructor might be tempted to treat specially.
fn long_texts() -> Vec<String> {
    let mut v: Vec<String> = super::topics::alike().concat();
    v.extend(TEXTS.iter().map(|s| s.to_string()));
    for w in ["$share/g/t", "$share/g/+/#", "$share//t", "$share", "$SYS/x", "$SYS/#", "$queue/t", "$exclusive/t", "$", "+", "+/+", "/+", "a/#", "a/+/#", "##", "a#", "MQTT", "MQIsdp", "auto", "client", "guest", "admin", "null", "None", "%u", "%c", "{id}", "\u{10FFFF}", "\u{FFFE}", "\u{D7FF}", "\u{E000}"] {
        v.push(w.into());
    }
    for l in [22usize, 23, 24, 32, 36, 64, 127, 128, 129, 255, 256, 257, 300, 1024, 16_384] {
        for u in crate::spaces::TEXT_UNITS {
            for place in 0..3 {
                v.push(crate::spaces::placed(u, l, place));
            }
        }
    }
    v.push("x".repeat(65_535));
    v.push("é".repeat(32_767));
    v.sort();
    v.dedup();
    v
}

pub fn c24(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    let steps = if th { 5 } else { 4 };
    v.push(expl(format!("CONNECT: new, then every sequence of up to {steps} logins, wills and field changes"), 0, move |ctx, ch| {
        let ver = *ch.of(&[4u8, 5]);
        let id = *ch.of(&TEXTS);
        let texts = ["u", "", "é\u{0}"];
        let n = ch.pick(steps + 1);
        let seq: Vec<usize> = (0..n).map(|_| ch.pick(9 + 3)).collect();
        let mut login: Option<(String, String)> = None;
        let mut will: Option<Will> = None;
        let (mut ka, mut clean) = (10u16, true);
        let mut c4 = v4::Connect::new(id);
        let mut c5 = v5::Connect::new(String::from(id));
        for s in &seq {
            adapt::op();
            if *s < 9 {
                let (u, p) = (texts[s / 3], texts[s % 3]);
                c4.set_login(u, p);
                c5.set_login(u.to_string(), p);
                login = Some((u.into(), p.into()));
            } else {
                match s {
                    9 => {
                        let (q, qn) = QOS[seq.len() % 3];
                        c4.last_will = Some(v4::LastWill::new("w/t", "bye", q, true));
                        c5.last_will = Some(v5::LastWill::new("w/t".to_string(), "bye", q, true));
                        will = Some(Will { topic: "w/t".into(), message: b"bye".to_vec(), qos: qn, retain: true, props: vec![] });
                    }
                    10 => {
                        c4.last_will = Some(v4::LastWill::new("é", vec![0u8, 255], QoS::AtMostOnce, false));
                        c5.last_will = Some(v5::LastWill::new("é", vec![0u8, 255], QoS::AtMostOnce, false));
                        will = Some(Will { topic: "é".into(), message: vec![0, 255], qos: 0, retain: false, props: vec![] });
                    }
                    _ => {
                        c4.keep_alive = 0xABCD;
                        c5.keep_alive = 0xABCD;
                        c4.clean_session = false;
                        c5.clean_session = false;
                        ka = 0xABCD;
                        clean = false;
                    }
                }
            }
        }
        let m = M::Connect { level: ver, keep_alive: ka, client_id: id.into(), clean, will, login, props: vec![] };
        let p = if ver == 4 { Pk::V4(v4::Packet::Connect(c4)) } else { Pk::V5(v5::Packet::Connect(c5)) };
        is(ctx, "the CONNECT builder", p, &m)
    }));
    v.push(expl("chained logins, protocol of the module", 0, |ctx, _ch| {
        let mut a = v4::Connect::new("x");
        a.set_login("1", "2").set_login("3", "4").keep_alive = 7;
        let mut b = v5::Connect::new("x");
        b.set_login("1", "2").set_login("3", "4").keep_alive = 7;
        if a.protocol != Protocol::V4 || b.protocol != Protocol::V5 {
            return Err(format!("new connects declare {:?} in v4 and {:?} in v5", a.protocol, b.protocol));
        }
        for (l, p) in [(4, Pk::V4(v4::Packet::Connect(a))), (5, Pk::V5(v5::Packet::Connect(b)))] {
            is(ctx, "a chain of logins", p, &M::Connect { level: l, keep_alive: 7, client_id: "x".into(), clean: true, will: None, login: Some(("3".into(), "4".into())), props: vec![] })?;
        }
        Ok(())
    }));
    v.push(expl("wills and logins: every argument combination of a menu", 0, |ctx, ch| {
        let t = *ch.of(&TEXTS);
        let bl = blobs();
        let p = ch.of(&bl).clone();
        let (q, _) = *ch.of(&QOS);
        let r = ch.pick(2) == 1;
        adapt::op();
        let w4 = v4::LastWill::new(t, p.clone(), q, r);
        let w5 = v5::LastWill::new(t, p.clone(), q, r);
        if w4 != (v4::LastWill { topic: t.into(), message: Bytes::from(p.clone()), qos: q, retain: r }) {
            return Err(format!("v4 LastWill::new({t:?}, {}, {q:?}, {r}) is {w4:?}", hex(&p)));
        }
        if w5 != (v5::LastWill { topic: t.into(), message: Bytes::from(p.clone()), qos: q, retain: r, properties: None }) {
            return Err(format!("v5 LastWill::new({t:?}, {}, {q:?}, {r}) is {w5:?}", hex(&p)));
        }
        ctx.case("will");
        Ok(())
    }));
    v.push(expl("credentials: every pair against every pair of a menu, and every one-character difference of longer ones", 0, |ctx, ch| {
        let mut menu: Vec<String> = ["", "a", "b", "A", "ab", "aa", "é", "e\u{301}", "a ", "\u{0}", "a\u{0}", "abc", "xbc", "axc", "abx", "cba"].iter().map(|s| s.to_string()).collect();
        menu.push("y".repeat(300));
        let long = "y".repeat(300);
        let i = ch.pick(menu.len() + 300);
        let u = if i < menu.len() { menu[i].clone() } else { format!("{}z{}", &long[..i - menu.len()], &long[i - menu.len() + 1..]) };
        for p in &menu {
            adapt::op();
            let l = v4::Login::new(u.clone(), p.as_str());
            let l5 = v5::Login::new(u.as_str(), p.clone());
            if (l.username.as_str(), l.password.as_str(), l5.username.as_str(), l5.password.as_str()) != (&u[..], &p[..], &u[..], &p[..]) {
                return Err(format!("Login::new({u:?}, {p:?}) is {l:?} / {l5:?}"));
            }
            for u2 in &menu {
                for p2 in &menu {
                    for (lu, lp, gu, gp) in [(&u, p, u2, p2), (u2, p2, &u, p), (p, &u, p2, u2), (p2, u2, p, &u)] {
                        let l = v4::Login::new(lu.as_str(), lp.as_str());
                        let got = l.validate(gu, gp);
                        if got != (lu == gu && lp == gp) {
                            return Err(format!("login ({lu:?}, {lp:?}) validates ({gu:?}, {gp:?}): {got}"));
                        }
                        ctx.case(if got { "validates" } else { "refuses" });
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("credentials: pairs that would read the same with any ASCII character between, around, or left out", 0, |ctx, ch| {
        let c = ch.pick(128) as u8 as char;
        let x = if c == 'a' { 'b' } else { 'a' };
        let menu: Vec<String> = vec!["".into(), format!("{x}"), format!("{c}"), format!("{x}{c}"), format!("{c}{x}"), format!("{c}{c}"), format!("{x}{c}{x}"), format!("{x}{x}"), format!("{x}{x}{c}{x}")];
        for u in &menu {
            for p in &menu {
                adapt::op();
                let l4 = v4::Login::new(u.as_str(), p.as_str());
                let l5 = v5::Login::new(u.as_str(), p.as_str());
                if (l4.username.as_str(), l4.password.as_str(), l5.username.as_str(), l5.password.as_str()) != (&u[..], &p[..], &u[..], &p[..]) {
                    return Err(format!("Login::new({u:?}, {p:?}) is {l4:?} / {l5:?}"));
                }
                let mut c4 = v4::Connect::new("c");
                let mut c5 = v5::Connect::new("c");
                for (a, b) in [("", ""), ("other", "words"), (&u[..], &p[..]), (&p[..], &u[..])] {
                    c4.set_login(a, b).set_login(u.as_str(), p.as_str());
                    c5.set_login(a, b).set_login(u.as_str(), p.as_str());
                    if c4.login.as_ref() != Some(&l4) || c5.login.as_ref() != Some(&l5) {
                        return Err(format!("set_login({a:?}, {b:?}), then ({u:?}, {p:?}): {c4:?} / {c5:?}"));
                    }
                    ctx.case("set");
                }
                for gu in &menu {
                    for gp in &menu {
                        let got = l4.validate(gu, gp);
                        if got != (u == gu && p == gp) {
                            return Err(format!("login ({u:?}, {p:?}) validates ({gu:?}, {gp:?}): {got}"));
                        }
                        ctx.case(if got { "validates" } else { "refuses" });
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("credentials: long ones against all their parts and neighbours", 0, |ctx, ch| {
        let full: String = ('a'..='z').cycle().take(*ch.of(&[26usize, 8, 64, 255, 256, 300])).collect();
        let first = ch.pick(2) == 0;
        let mut others: Vec<String> = vec![full.to_uppercase(), format!("{full} "), format!(" {full}"), full.chars().rev().collect(), format!("{full}{full}")];
        for i in 0..full.len() {
            others.push(full[..i].to_string());
            others.push(full[i..].to_string());
            others.push(format!("{}{}", &full[..i], &full[i + 1..]));
            others.push(format!("{}\0{}", &full[..i], &full[i..]));
        }
        for o in &others {
            adapt::op();
            for (a, b) in [(&full, o), (o, &full)] {
                let (l, got) = if first {
                    let l = v4::Login::new(a.as_str(), "p");
                    let g = l.validate(b, &"p".to_string());
                    (l, g)
                } else {
                    let l = v4::Login::new("p", a.as_str());
                    let g = l.validate(&"p".to_string(), b);
                    (l, g)
                };
                if got != (a == b) {
                    return Err(format!("login {l:?} validates with {b:?} in that place: {got}"));
                }
                ctx.case(if got { "validates" } else { "refuses" });
            }
        }
        Ok(())
    }));
    v.push(expl("PUBLISH: new and from_bytes with every argument combination of a menu", 0, |ctx, ch| {
        let ver = *ch.of(&[4u8, 5]);
        let topic = *ch.of(&TEXTS);
        let (q, qn) = *ch.of(&QOS);
        let bl = blobs();
        let payload = ch.of(&bl).clone();
        let m = M::Publish { dup: false, qos: qn, retain: false, topic: topic.into(), pkid: 0, props: vec![], payload: payload.clone() };
        adapt::op();
        let ps = if ver == 4 {
            vec![
                Pk::V4(v4::Packet::Publish(v4::Publish::new(topic, q, payload.clone()))),
                Pk::V4(v4::Packet::Publish(v4::Publish::new(topic.to_string(), q, &payload[..]))),
                Pk::V4(v4::Packet::Publish(v4::Publish::from_bytes(topic, q, Bytes::from(payload)))),
            ]
        } else {
            vec![
                Pk::V5(v5::Packet::Publish(v5::Publish::new(topic, q, payload.clone()))),
                Pk::V5(v5::Packet::Publish(v5::Publish::new(topic.to_string(), q, &payload[..]))),
                Pk::V5(v5::Packet::Publish(v5::Publish::from_bytes(topic, q, Bytes::from(payload)))),
            ]
        };
        for p in ps {
            is(ctx, "a publish constructor", p, &m)?;
        }
        Ok(())
    }));
    v.push(expl("acknowledgements: every packet identifier", 0, |ctx, ch| {
        let hi = ch.pick(256);
        for lo in 0..256usize {
            let id = (hi << 8 | lo) as u16;
            adapt::op();
            let all = [
                (4, Pk::V4(v4::Packet::PubAck(v4::PubAck::new(id))), Pk::V5(v5::Packet::PubAck(v5::PubAck::new(id)))),
                (5, Pk::V4(v4::Packet::PubRec(v4::PubRec::new(id))), Pk::V5(v5::Packet::PubRec(v5::PubRec::new(id)))),
                (6, Pk::V4(v4::Packet::PubRel(v4::PubRel::new(id))), Pk::V5(v5::Packet::PubRel(v5::PubRel::new(id)))),
                (7, Pk::V4(v4::Packet::PubComp(v4::PubComp::new(id))), Pk::V5(v5::Packet::PubComp(v5::PubComp::new(id)))),
            ];
            for (kind, a, b) in all {
                let m = M::Ack { kind, pkid: id, reason: 0, props: vec![] };
                is(ctx, "new", a, &m)?;
                is(ctx, "new", b, &m)?;
            }
            let m = M::UnsubAck { pkid: id, codes: vec![], props: vec![] };
            is(ctx, "UnsubAck::new", Pk::V4(v4::Packet::UnsubAck(v4::UnsubAck::new(id))), &m)?;
            is(ctx, "UnsubAck::new", Pk::V5(v5::Packet::UnsubAck(v5::UnsubAck::new(id))), &m)?;
            let m = M::SubAck { pkid: id, codes: vec![1, 0x80], props: vec![] };
            is(ctx, "SubAck::new", Pk::V4(v4::Packet::SubAck(v4::SubAck::new(id, vec![adapt::v4_sub(1), adapt::v4_sub(0x80)]))), &m)?;
            is(ctx, "SubAck::new", Pk::V5(v5::Packet::SubAck(v5::SubAck::new(id, vec![adapt::v5_sub(1), adapt::v5_sub(0x80)]))), &m)?;
        }
        Ok(())
    }));
    v.push(expl("CONNACK and SUBACK: every code, every list of up to two (v4: four) codes", 0, |ctx, ch| {
        let ver = *ch.of(&[4u8, 5]);
        if ch.pick(2) == 0 {
            let c = *ch.of(spec::codes(ver, 2));
            let sp = ch.pick(2) == 1;
            let m = M::ConnAck { sp, code: c, props: vec![] };
            let p = if ver == 4 { Pk::V4(v4::Packet::ConnAck(v4::ConnAck::new(adapt::v4_conn(c), sp))) } else { Pk::V5(v5::Packet::ConnAck(v5::ConnAck::new(adapt::v5_conn(c), sp))) };
            return is(ctx, "ConnAck::new", p, &m);
        }
        let all = spec::codes(ver, 9);
        let n = ch.pick(if ver == 4 { 5 } else { 3 });
        let codes: Vec<u8> = (0..n).map(|_| *ch.of(all)).collect();
        let m = M::SubAck { pkid: 77, codes: codes.clone(), props: vec![] };
        let p = if ver == 4 {
            Pk::V4(v4::Packet::SubAck(v4::SubAck::new(77, codes.iter().map(|c| adapt::v4_sub(*c)).collect())))
        } else {
            Pk::V5(v5::Packet::SubAck(v5::SubAck::new(77, codes.iter().map(|c| adapt::v5_sub(*c)).collect())))
        };
        is(ctx, "SubAck::new", p, &m)
    }));
    let adds = if th { 5 } else { 4 };
    v.push(expl(format!("SUBSCRIBE: every start (new, new_many of 0..2, empty_subscribe), then up to {adds} additions"), 0, move |ctx, ch| {
        let ver = *ch.of(&[4u8, 5]);
        // a filter of the menu
        fn one(ch: &mut Chooser) -> (String, QoS, u8) {
            let t = *ch.of(&["a/+", "", "é"]);
            let (q, qn) = QOS[match t {
                "" => 2,
                _ => ch.pick(2),
            }];
            (t.to_string(), q, qn)
        }
        let f = |x: &(String, QoS, u8)| Filter { path: x.0.clone(), qos: x.2, nolocal: false, rap: false, rule: 0 };
        let mut want: Vec<Filter> = vec![];
        let start = ch.pick(5);
        let first: Vec<(String, QoS, u8)> = (0..match start {
            0 | 2 => 1,
            3 => 2,
            _ => 0,
        })
            .map(|_| one(ch))
            .collect();
        want.extend(first.iter().map(f));
        adapt::op();
        let (mut s4, mut s5) = (None, None);
        match (ver, start) {
            (4, 0) => s4 = Some(v4::Subscribe::new(first[0].0.as_str(), first[0].1)),
            (5, 0) => s5 = Some(v5::Subscribe::new(first[0].0.clone(), first[0].1)),
            (4, 4) => {
                ctx.skip("no such constructor");
                return Ok(());
            }
            (5, 4) => s5 = Some(v5::Subscribe::empty_subscribe()),
            (4, _) => {
                let r = v4::Subscribe::new_many(first.iter().map(|x| v4::SubscribeFilter::new(x.0.clone(), x.1)));
                match r {
                    Err(adapt::Error::EmptySubscription) if first.is_empty() => {
                        ctx.case("empty subscription refused");
                        return Ok(());
                    }
                    Ok(s) if !first.is_empty() => s4 = Some(s),
                    x => return Err(format!("v4 Subscribe::new_many of {} filters gives {x:?}", first.len())),
                }
            }
            _ => s5 = Some(v5::Subscribe::new_many(first.iter().map(|x| v5::SubscribeFilter::new(x.0.clone(), x.1)).collect::<Vec<_>>())),
        }
        for _ in 0..ch.pick(adds + 1) {
            let x = one(ch);
            want.push(f(&x));
            if let Some(s) = &mut s4 {
                s.add(x.0.clone(), x.1);
            }
            if let Some(s) = &mut s5 {
                s.add(x.0, x.1);
            }
        }
        let m = M::Subscribe { pkid: 0, filters: want, props: vec![] };
        let p = match (s4, s5) {
            (Some(s), _) => Pk::V4(v4::Packet::Subscribe(s)),
            (_, Some(s)) => Pk::V5(v5::Packet::Subscribe(s)),
            _ => return Err("HARNESS: none".into()),
        };
        is(ctx, "the SUBSCRIBE builder", p, &m)
    }));
    v.push(expl("SUBSCRIBE: chained additions, long lists", 0, |ctx, ch| {
        let n = *ch.of(&[1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 5000]);
        let mut a = v4::Subscribe::new("f", QoS::AtMostOnce);
        let mut b = v5::Subscribe::empty_subscribe();
        b.add("f".into(), QoS::AtMostOnce);
        let mut want = vec![Filter { path: "f".into(), qos: 0, nolocal: false, rap: false, rule: 0 }];
        for i in 0..n {
            let (q, qn) = QOS[i % 3];
            let (q2, qn2) = QOS[i / 3 % 3];
            a.add(format!("a{i}"), q).add(format!("b{i}"), q2);
            b.add(format!("a{i}"), q).add(format!("b{i}"), q2);
            want.push(Filter { path: format!("a{i}"), qos: qn, nolocal: false, rap: false, rule: 0 });
            want.push(Filter { path: format!("b{i}"), qos: qn2, nolocal: false, rap: false, rule: 0 });
        }
        let m = M::Subscribe { pkid: 0, filters: want.clone(), props: vec![] };
        let q = |f: &Filter| QOS.iter().find(|q| q.1 == f.qos).unwrap().0;
        let many4 = v4::Subscribe::new_many(want.iter().map(|f| v4::SubscribeFilter::new(f.path.clone(), q(f)))).map_err(|e| format!("new_many of {} filters: {e:?}", want.len()))?;
        let many5 = v5::Subscribe::new_many(want.iter().map(|f| v5::SubscribeFilter::new(f.path.clone(), q(f))).collect::<Vec<_>>());
        is(ctx, "new_many", Pk::V4(v4::Packet::Subscribe(many4)), &m)?;
        is(ctx, "new_many", Pk::V5(v5::Packet::Subscribe(many5)), &m)?;
        is(ctx, "a chain of additions", Pk::V4(v4::Packet::Subscribe(a)), &m)?;
        is(ctx, "a chain of additions", Pk::V5(v5::Packet::Subscribe(b)), &m)
    }));
    v.push(expl("SUBSCRIBE: new_many from iterators of every kind, of every length up to 70 and of great ones", 0, |ctx, ch| {
        let n = ch.pick(76);
        let n = match n {
            0..=70 => n,
            k => [100usize, 255, 1000, 4097, 70_000][k - 71],
        };
        let want: Vec<Filter> = (0..n).map(|i| Filter { path: format!("f{}", i / 2), qos: (i % 3) as u8, nolocal: false, rap: false, rule: 0 }).collect();
        let m = M::Subscribe { pkid: 0, filters: want, props: vec![] };
        macro_rules! many {
            ($v:ident, $new:expr, $wrap:expr) => {{
                let one = |i: usize| $v::SubscribeFilter::new(format!("f{}", i / 2), QOS[i % 3].0);
                let all = || (0..n).map(one);
                let mut k = 0;
                let mut got: Vec<(&str, _)> = vec![];
                got.push(("a vector", $new(Box::new(all().collect::<Vec<_>>().into_iter()) as Box<dyn Iterator<Item = $v::SubscribeFilter>>)));
                got.push(("a map", $new(Box::new(all()))));
                got.push(("a filter", $new(Box::new((0..3 * n).filter(|i| i % 3 == 1).map(|i| one(i / 3))))));
                got.push(("an unsized source", $new(Box::new(std::iter::from_fn(|| {
                    k += 1;
                    if k <= n { Some(one(k - 1)) } else { None }
                })))));
                got.push(("a chain", $new(Box::new((0..n / 2).map(one).chain((n / 2..n).map(one))))));
                got.push(("single chained with an unsized source", $new(Box::new((0..n.min(1)).map(one).chain((1..).map_while(|i| if i < n { Some(one(i)) } else { None }))))));
                got.push(("a reversal", $new(Box::new((0..n).rev().map(|i| one(n - 1 - i)))) ));
                got.push(("a skip", $new(Box::new((0..n + 5).skip(5).map(|i| one(i - 5))))));
                got.push(("a list", $new(Box::new(all().collect::<std::collections::LinkedList<_>>().into_iter()))));
                got.push(("a queue", $new(Box::new(all().collect::<std::collections::VecDeque<_>>().into_iter()))));
                got.push(("a flattening", $new(Box::new((0..n).flat_map(|i| vec![one(i)])))));
                for (what, g) in got {
                    match g {
                        Ok(s) => is(ctx, &format!("new_many from {what}"), $wrap(s), &m)?,
                        Err(Error::EmptySubscription) if n == 0 => ctx.case("no filters refused"),
                        Err(e) => return Err(format!("new_many from {what} of {n} filters is refused with {e:?}")),
                    }
                }
            }};
        }
        many!(v4, |i: Box<dyn Iterator<Item = v4::SubscribeFilter> + '_>| v4::Subscribe::new_many(i), |s| Pk::V4(v4::Packet::Subscribe(s)));
        many!(v5, |i: Box<dyn Iterator<Item = v5::SubscribeFilter> + '_>| Ok::<_, Error>(v5::Subscribe::new_many(i)), |s| Pk::V5(v5::Packet::Subscribe(s)));
        Ok(())
    }));
    let sets = if th { 5 } else { 4 };
    v.push(expl("every constructor, builder and setter with every text of a long menu", 0, |ctx, ch| {
        let texts = long_texts();
        let t: &String = ch.of(&texts);
        let (q, qn) = *ch.of(&QOS);
        adapt::op();
        for ver in [4u8, 5] {
            let will = Will { topic: t.clone(), message: t.clone().into_bytes(), qos: qn, retain: qn == 1, props: vec![] };
            let with = |id: &str, will: Option<Will>, login: Option<(&str, &str)>| M::Connect { level: ver, keep_alive: 10, client_id: id.into(), clean: true, will, login: login.map(|l| (l.0.into(), l.1.into())), props: vec![] };
            macro_rules! connects {
                ($v:ident, $p:ident) => {{
                    let a = $v::Connect::new(t.as_str());
                    let mut b = $v::Connect::new("i");
                    b.last_will = Some($v::LastWill::new(t.as_str(), t.as_bytes(), q, qn == 1));
                    let mut c = $v::Connect::new("i");
                    c.set_login(t.as_str(), "p");
                    let mut d = $v::Connect::new("i");
                    d.set_login("u", t.clone());
                    let mut e = $v::Connect::new(t.clone());
                    e.login = Some($v::Login::new(t.clone(), t.as_str()));
                    [a, b, c, d, e].into_iter().map(|c| Pk::$p($v::Packet::Connect(c))).collect::<Vec<_>>()
                }};
            }
            let ps = if ver == 4 { connects!(v4, V4) } else { connects!(v5, V5) };
            let ms = [with(t, None, None), with("i", Some(will), None), with("i", None, Some((t, "p"))), with("i", None, Some(("u", t))), with(t, None, Some((t, t)))];
            for (m, p) in ms.iter().zip(ps) {
                is(ctx, "the CONNECT builder", p, m)?;
            }
            for payload in [t.clone().into_bytes(), vec![], vec![0]] {
                let m = M::Publish { dup: false, qos: qn, retain: false, topic: t.clone(), pkid: 0, props: vec![], payload: payload.clone() };
                let ps = if ver == 4 {
                    [Pk::V4(v4::Packet::Publish(v4::Publish::new(t.as_str(), q, payload.clone()))), Pk::V4(v4::Packet::Publish(v4::Publish::from_bytes(t.clone(), q, Bytes::from(payload))))]
                } else {
                    [Pk::V5(v5::Packet::Publish(v5::Publish::new(t.as_str(), q, payload.clone()))), Pk::V5(v5::Packet::Publish(v5::Publish::from_bytes(t.clone(), q, Bytes::from(payload))))]
                };
                for p in ps {
                    is(ctx, "a publish constructor", p, &m)?;
                }
            }
            let f = |p: &str, qos: u8| Filter { path: p.into(), qos, nolocal: false, rap: false, rule: 0 };
            let m = M::Subscribe { pkid: 0, filters: vec![f(t, qn), f("x", 1), f(t, qn), f(t, 0)], props: vec![] };
            let p = if ver == 4 {
                let mut s = v4::Subscribe::new(t.as_str(), q);
                s.add("x".to_string(), QoS::AtLeastOnce).add(t.clone(), q).add(t.clone(), QoS::AtMostOnce);
                Pk::V4(v4::Packet::Subscribe(s))
            } else {
                let mut s = v5::Subscribe::new(t.as_str(), q);
                s.add("x".to_string(), QoS::AtLeastOnce).add(t.clone(), q).add(t.clone(), QoS::AtMostOnce);
                Pk::V5(v5::Packet::Subscribe(s))
            };
            is(ctx, "the SUBSCRIBE builder", p, &m)?;
            let items = [(t.as_str(), q), ("x", QoS::AtLeastOnce), (t.as_str(), q), (t.as_str(), QoS::AtMostOnce)];
            let p = if ver == 4 {
                let s = v4::Subscribe::new_many(items.iter().map(|x| v4::SubscribeFilter::new(x.0.to_string(), x.1)));
                Pk::V4(v4::Packet::Subscribe(s.map_err(|e| format!("v4 new_many with {t:?}: {e:?}"))?))
            } else {
                Pk::V5(v5::Packet::Subscribe(v5::Subscribe::new_many(items.iter().map(|x| v5::SubscribeFilter::new(x.0.to_string(), x.1)).collect::<Vec<_>>())))
            };
            is(ctx, "new_many", p, &m)?;
            let m = M::Unsubscribe { pkid: 0, filters: vec![t.clone()], props: vec![] };
            let p = if ver == 4 { Pk::V4(v4::Packet::Unsubscribe(v4::Unsubscribe::new(t.as_str()))) } else { Pk::V5(v5::Packet::Unsubscribe(v5::Unsubscribe::new(t.clone()))) };
            is(ctx, "Unsubscribe::new", p, &m)?;
        }
        // the options of a filter, whatever its text and QoS: every combination
        for k in 0..12usize {
            let rules = [v5::RetainForwardRule::OnEverySubscribe, v5::RetainForwardRule::OnNewSubscribe, v5::RetainForwardRule::Never];
            let mut g = v5::SubscribeFilter::new(t.clone(), q);
            g.set_nolocal(k & 1 == 1).set_preserve_retain(k & 2 == 2).set_retain_forward_rule(rules[k / 4].clone());
            let want = Filter { path: t.clone(), qos: qn, nolocal: k & 1 == 1, rap: k & 2 == 2, rule: (k / 4) as u8 };
            if adapt::v5_filter_m(&g) != want {
                return Err(format!("the filter setters give {g:?}, asked for {want:?}"));
            }
            let mut h = v5::SubscribeFilter::new(t.clone(), q);
            h.set_retain_forward_rule(rules[k / 4].clone()).set_nolocal(k & 1 == 1).set_preserve_retain(k & 2 == 2);
            if g != h {
                return Err(format!("the filter setters in another order give {h:?}, not {g:?}"));
            }
            is(ctx, "a subscription of option filters", Pk::V5(v5::Packet::Subscribe(v5::Subscribe::new_many(vec![g]))), &M::Subscribe { pkid: 0, filters: vec![want], props: vec![] })?;
        }
        Ok(())
    }));
    v.push(expl(format!("filter options: new, then every sequence of up to {sets} setter calls, alone and chained"), 0, move |ctx, ch| {
        let path = *ch.of(&["a/+", "é"]);
        let (q, qn) = *ch.of(&QOS);
        let mut want = Filter { path: path.into(), qos: qn, nolocal: false, rap: false, rule: 0 };
        adapt::op();
        let mut f = v5::SubscribeFilter::new(path.into(), q);
        let n = ch.pick(sets + 1);
        for _ in 0..n {
            match ch.pick(7) {
                x @ 0..=1 => {
                    f.set_nolocal(x == 1);
                    want.nolocal = x == 1;
                }
                x @ 2..=3 => {
                    f.set_preserve_retain(x == 3);
                    want.rap = x == 3;
                }
                x => {
                    let r = [v5::RetainForwardRule::OnEverySubscribe, v5::RetainForwardRule::OnNewSubscribe, v5::RetainForwardRule::Never];
                    f.set_retain_forward_rule(r[x - 4].clone());
                    want.rule = (x - 4) as u8;
                }
            }
        }
        if adapt::v5_filter_m(&f) != want {
            return Err(format!("the filter setters give {f:?}, asked for {want:?}"));
        }
        // chained: the last word of each option
        let mut g = v5::SubscribeFilter::new(path.into(), q);
        g.set_nolocal(want.nolocal).set_preserve_retain(want.rap).set_retain_forward_rule(adapt::v5_filter(&want).retain_forward_rule);
        if g != f {
            return Err(format!("chained setters give {g:?}, single ones {f:?}"));
        }
        let mut s = v5::Subscribe::new_many(vec![f, g]);
        s.add("z".into(), QoS::AtLeastOnce);
        let z = Filter { path: "z".into(), qos: 1, nolocal: false, rap: false, rule: 0 };
        is(ctx, "a subscription of option filters", Pk::V5(v5::Packet::Subscribe(s)), &M::Subscribe { pkid: 0, filters: vec![want.clone(), want, z], props: vec![] })
    }));
    v.push(expl("UNSUBSCRIBE, DISCONNECT, property sets", 0, |ctx, ch| {
        let t = *ch.of(&TEXTS);
        adapt::op();
        let m = M::Unsubscribe { pkid: 0, filters: vec![t.into()], props: vec![] };
        is(ctx, "Unsubscribe::new", Pk::V4(v4::Packet::Unsubscribe(v4::Unsubscribe::new(t))), &m)?;
        is(ctx, "Unsubscribe::new", Pk::V5(v5::Packet::Unsubscribe(v5::Unsubscribe::new(t.to_string()))), &m)?;
        is(ctx, "Disconnect::new", Pk::V5(v5::Packet::Disconnect(v5::Disconnect::new())), &M::Disconnect { reason: 0, props: vec![] })?;
        let d = v5::DisconnectProperties::new();
        let c = v5::ConnAckProperties::new();
        use adapt::PropSet;
        if !d.to_model().is_empty() || !c.to_model().is_empty() {
            return Err(format!("new property sets hold {:?} and {:?}", d, c));
        }
        let mut x = v5::Disconnect::new();
        x.properties = Some(d);
        let p = Pk::V5(v5::Packet::Disconnect(x));
        if p != Pk::from_model(5, &M::Disconnect { reason: 0, props: vec![] }, true) {
            return Err(format!("a disconnect with a new property set is {p:?}"));
        }
        ctx.case("empty property sets");
        Ok(())
    }));
    v
}
