//! The packet space: every field of every packet with a default and a domain of alternatives.
use crate::explore::Chooser;
use crate::model::spec::{self, PT};
use crate::model::{Filter, Props, Will, M, PV};

pub fn xs(n: usize) -> String {
    "x".repeat(n)
}

/// Text values; index 0 is the default. Beyond the first block values are dearer.
fn text(c: &mut Chooser, default: &str) -> String {
    match c.dev(12) {
        0 => default.to_string(),
        1 => String::new(),
        2 => "é".into(),
        3 => "\u{10FFFF}\u{FFFD}a".into(),
        4 => "a/b/c".into(),
        5 => "$SYS/x".into(),
        6 => "+/#".into(),
        7 => "a\u{0}b".into(),
        8 => xs(127),
        9 => xs(128),
        10 => "\u{FEFF}\u{D7FF}\u{E000}".into(),
        _ => {
            let i = c.dev(5);
            match i {
                0 => xs(256),
                1 => xs(16384),
                2 => xs(65535),
                3 => "é".repeat(100),
                _ => xs(16381),
            }
        }
    }
}
fn bin(c: &mut Chooser, default: &[u8]) -> Vec<u8> {
    match c.dev(9) {
        0 => default.to_vec(),
        1 => vec![],
        2 => vec![0],
        3 => vec![0xFF, 0xFE, 0x80],
        4 => vec![0x26, 0, 1, b'k', 0, 1, b'v'], // looks like a property
        5 => (0..=255u8).collect(),
        6 => vec![0x30, 0x03, 0, 1, b'a'], // looks like a frame
        7 => vec![0xC3],
        _ => match c.dev(2) {
            0 => vec![0x80; 16384],
            _ => vec![7; 65535],
        },
    }
}
fn payload(c: &mut Chooser, default: &[u8]) -> Vec<u8> {
    match c.dev(8) {
        0 => default.to_vec(),
        1 => vec![],
        2 => vec![0],
        3 => (0..=255u8).rev().collect(),
        4 => vec![0, 0],
        5 => vec![0xC0, 0, 0xC0, 0],
        6 => vec![9; 16384],
        _ => vec![0xE2, 0x28, 0xA1, 0xFF],
    }
}
pub const U8S: [u8; 5] = [1, 0, 2, 128, 255];
pub const U16S: [u16; 10] = [10, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535];
pub const U32S: [u32; 11] = [70_000, 0, 1, 255, 256, 65_535, 65_536, 0x00FF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];
pub const VARS: [u64; 9] = [5, 0, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455];
fn u16v(c: &mut Chooser) -> u16 {
    *c.devof(&U16S)
}
fn pkid(c: &mut Chooser) -> u16 {
    *c.devof(&[10u16, 1, 127, 128, 255, 256, 0x0A00, 32767, 32768, 65535])
}

/// How richly the base packet is populated.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Base {
    Minimal,
    Full,
}

fn pv(c: &mut Chooser, id: u8, t: PT, i: usize) -> PV {
    match t {
        PT::U8 => PV::U8(*c.devof(&U8S)),
        PT::U16 => PV::U16(u16v(c)),
        PT::U32 => PV::U32(*c.devof(&U32S)),
        PT::Var => match c.dev(VARS.len()) {
            0 => PV::Var(5 + i as u64),
            n => PV::Var(VARS[n]),
        },
        PT::Str => PV::Str(text(c, &format!("s{id}"))),
        PT::Bin => PV::Bin(bin(c, &[id, 0xFF])),
        PT::Pair => {
            let k = text(c, &format!("k{i}"));
            PV::Pair(k, text(c, &format!("v{i}")))
        }
    }
}
/// Default value of a property.
pub fn default_pv(id: u8, t: PT, i: usize) -> PV {
    let mut c = Chooser::new(vec![]);
    pv(&mut c, id, t, i)
}

/// A property section: presence (and number, where repeatable) of each property and its value.
pub fn props(c: &mut Chooser, ctx: u8, base: Base) -> Props {
    let mut out = vec![];
    for (id, t) in spec::props_of(ctx) {
        let n = if spec::repeatable(ctx, id) {
            *match base {
                Base::Minimal => c.devof(&[0usize, 1, 2, 3]),
                Base::Full => c.devof(&[2usize, 0, 1, 3, 7]),
            }
        } else {
            *match base {
                Base::Minimal => c.devof(&[0usize, 1]),
                Base::Full => c.devof(&[1usize, 0]),
            }
        };
        for i in 0..n {
            out.push((id, pv(c, id, t, i)));
        }
    }
    out
}

fn will(c: &mut Chooser, v5: bool, base: Base) -> Will {
    Will {
        topic: text(c, "w/t"),
        message: bin(c, b"bye"),
        qos: c.dev(3) as u8,
        retain: c.dev(2) == 1,
        props: if v5 { props(c, spec::WILL, base) } else { vec![] },
    }
}

/// A packet of the given type; `ver` 5 includes level-4 CONNECTs.
pub fn packet(c: &mut Chooser, ver: u8, ptype: u8, base: Base) -> M {
    let v5 = ver == 5;
    let full = base == Base::Full;
    let pr = |c: &mut Chooser, ctx: u8| if v5 { props(c, ctx, base) } else { vec![] };
    match ptype {
        1 => {
            let level = if v5 { *c.devof(&[5u8, 4]) } else { 4 };
            let v5 = v5 && level == 5;
            let keep_alive = u16v(c);
            let client_id = text(c, "id");
            let clean = c.dev(2) == 0;
            let has_will = (c.dev(2) == 1) != full;
            let will = if has_will { Some(will(c, v5, base)) } else { None };
            let has_login = (c.dev(2) == 1) != full;
            let login = if has_login {
                let u = text(c, "user");
                Some((u, text(c, "pass")))
            } else {
                None
            };
            M::Connect { level, keep_alive, client_id, clean, will, login, props: if v5 { props(c, 1, base) } else { vec![] } }
        }
        2 => {
            let sp = c.dev(2) == 1;
            let code = *c.devof(spec::codes(ver, 2));
            M::ConnAck { sp, code, props: pr(c, 2) }
        }
        3 => {
            let dup = c.dev(2) == 1;
            let qos = if full { *c.devof(&[1u8, 0, 2]) } else { c.dev(3) as u8 };
            let retain = c.dev(2) == 1;
            let topic = text(c, "a/b");
            let pkid = pkid(c);
            let props = pr(c, 3);
            M::Publish { dup, qos, retain, topic, pkid, props, payload: payload(c, b"hello") }
        }
        4..=7 => {
            let pkid = pkid(c);
            let reason = if v5 { *c.devof(spec::codes(5, ptype)) } else { 0 };
            M::Ack { kind: ptype, pkid, reason, props: pr(c, ptype) }
        }
        8 => {
            let pkid = pkid(c);
            let n = if full { *c.devof(&[3usize, 1, 2, 5]) } else { *c.devof(&[1usize, 2, 3]) };
            let filters = (0..n)
                .map(|i| {
                    let path = text(c, ["a/+", "#", "b"][i % 3]);
                    let qos = c.dev(3) as u8;
                    if v5 {
                        Filter { path, qos, nolocal: c.dev(2) == 1, rap: c.dev(2) == 1, rule: c.dev(3) as u8 }
                    } else {
                        Filter { path, qos, nolocal: false, rap: false, rule: 0 }
                    }
                })
                .collect();
            M::Subscribe { pkid, filters, props: pr(c, 8) }
        }
        9 | 11 => {
            let pkid = pkid(c);
            let n = if ver == 4 && ptype == 11 {
                0
            } else if full {
                *c.devof(&[3usize, 1, 2, 6])
            } else {
                *c.devof(&[1usize, 2, 3])
            };
            let all = spec::codes(ver, ptype);
            let codes = (0..n).map(|i| all[(i + c.dev(all.len())) % all.len()]).collect();
            let props = pr(c, ptype);
            if ptype == 9 {
                M::SubAck { pkid, codes, props }
            } else {
                M::UnsubAck { pkid, codes, props }
            }
        }
        10 => {
            let pkid = pkid(c);
            let n = if full { *c.devof(&[3usize, 1, 2, 5]) } else { *c.devof(&[1usize, 2, 3]) };
            let filters = (0..n).map(|i| text(c, ["a/+", "#", "b"][i % 3])).collect();
            M::Unsubscribe { pkid, filters, props: pr(c, 10) }
        }
        12 => M::PingReq,
        13 => M::PingResp,
        _ => {
            let reason = if v5 { *c.devof(spec::codes(5, 14)) } else { 0 };
            M::Disconnect { reason, props: pr(c, 14) }
        }
    }
}

/// The default packet of a type.
pub fn base_packet(ver: u8, ptype: u8, base: Base) -> M {
    packet(&mut Chooser::new(vec![]), ver, ptype, base)
}

/// A fixed menu of representative packets per type, for spaces in which the packet is not what
/// varies most.
pub fn menu(ver: u8) -> Vec<M> {
    let mut v = vec![];
    for t in 1..=14 {
        let a = base_packet(ver, t, Base::Minimal);
        let b = base_packet(ver, t, Base::Full);
        if a != b {
            v.push(b);
        }
        v.push(a);
    }
    // redeliveries
    let id = |qos, pkid, payload: &[u8]| M::Publish { dup: true, qos, retain: qos == 2, topic: "a/b".into(), pkid, props: vec![], payload: payload.to_vec() };
    v.push(id(1, 10, b"hello"));
    v.push(id(2, 11, b""));
    // a level-4 CONNECT with everything in the MQTT 5 module
    if ver == 5 {
        let mut m = base_packet(4, 1, Base::Full);
        if let M::Connect { level, .. } = &mut m {
            *level = 4;
        }
        v.push(m);
        v.push(M::Ack { kind: 4, pkid: 10, reason: 0x10, props: vec![] });
        v.push(M::Disconnect { reason: 0x8E, props: vec![] });
    }
    v
}

/// All property subsets of a packet with sections: the subset index has one bit per property
/// (will properties after the packet's own).
pub fn lattice_bits(ptype: u8) -> usize {
    spec::props_of(ptype).len() + if ptype == 1 { spec::props_of(spec::WILL).len() } else { 0 }
}
pub fn lattice(ptype: u8, subset: u64) -> M {
    let mut m = base_packet(5, ptype, Base::Full);
    let take = |ctx: u8, shift: usize| -> Props {
        let mut out = vec![];
        for (i, (id, t)) in spec::props_of(ctx).into_iter().enumerate() {
            if subset >> (shift + i) & 1 == 1 {
                let n = if spec::repeatable(ctx, id) { 2 } else { 1 };
                for j in 0..n {
                    out.push((id, default_pv(id, t, j)));
                }
            }
        }
        out
    };
    let own = spec::props_of(ptype).len();
    if let M::Connect { will: Some(w), .. } = &mut m {
        w.props = take(spec::WILL, own);
    }
    *m.props_mut().unwrap() = take(ptype, 0);
    m
}
