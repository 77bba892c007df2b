//! Tables of the two specifications.
use super::{Props, PV};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PT { U8, U16, U32, Var, Str, Bin, Pair }

/// Where a property section occurs. Values 1..=14 are packet types; 15 is the will.
pub type PCtx = u8;
pub const WILL: PCtx = 15;

pub fn type_name(t: u8) -> &'static str {
    ["Reserved0", "Connect", "ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe", "SubAck", "Unsubscribe", "UnsubAck", "PingReq", "PingResp", "Disconnect", "Will/Auth"][t as usize & 15]
}

/// MQTT 5, table 2-4: identifier, type, contexts.
const TABLE: &[(u8, PT, &[PCtx])] = &[
    (1, PT::U8, &[3, WILL]),
    (2, PT::U32, &[3, WILL]),
    (3, PT::Str, &[3, WILL]),
    (8, PT::Str, &[3, WILL]),
    (9, PT::Bin, &[3, WILL]),
    (11, PT::Var, &[3, 8]),
    (17, PT::U32, &[1, 2, 14]),
    (18, PT::Str, &[2]),
    (19, PT::U16, &[2]),
    (21, PT::Str, &[1, 2]),
    (22, PT::Bin, &[1, 2]),
    (23, PT::U8, &[1]),
    (24, PT::U32, &[WILL]),
    (25, PT::U8, &[1]),
    (26, PT::Str, &[2]),
    (28, PT::Str, &[2, 14]),
    (31, PT::Str, &[2, 4, 5, 6, 7, 9, 11, 14]),
    (33, PT::U16, &[1, 2]),
    (34, PT::U16, &[1, 2]),
    (35, PT::U16, &[3]),
    (36, PT::U8, &[2]),
    (37, PT::U8, &[2]),
    (38, PT::Pair, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, WILL]),
    (39, PT::U32, &[1, 2]),
    (40, PT::U8, &[2]),
    (41, PT::U8, &[2]),
    (42, PT::U8, &[2]),
];

pub fn prop_type(id: u8) -> Option<PT> {
    TABLE.iter().find(|e| e.0 == id).map(|e| e.1)
}
pub fn prop_allowed(ctx: PCtx, id: u8) -> bool {
    TABLE.iter().any(|e| e.0 == id && e.2.contains(&ctx))
}
pub fn props_of(ctx: PCtx) -> Vec<(u8, PT)> {
    TABLE.iter().filter(|e| e.2.contains(&ctx)).map(|e| (e.0, e.1)).collect()
}
pub fn repeatable(ctx: PCtx, id: u8) -> bool {
    id == 38 || (id == 11 && ctx == 3)
}

/// Specified return/reason codes per packet type.
pub fn codes(ver: u8, ptype: u8) -> &'static [u8] {
    match (ver, ptype) {
        (4, 2) => &[0, 1, 2, 3, 4, 5],
        (4, 9) => &[0, 1, 2, 0x80],
        (5, 2) => &[0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F],
        (5, 4) | (5, 5) => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        (5, 6) | (5, 7) => &[0x00, 0x92],
        (5, 9) => &[0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2],
        (5, 11) => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
        (5, 14) => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
        ],
        _ => &[],
    }
}

/// Fixed header flags prescribed for a packet type (publish: none prescribed).
pub fn fixed_flags(ptype: u8) -> u8 {
    match ptype { 6 | 8 | 10 => 2, _ => 0 }
}

/// Is every property value within the range the specification gives it?
pub fn props_in_range(props: &Props) -> bool {
    props.iter().all(|(id, v)| match (id, v) {
        (1 | 23 | 25 | 36 | 37 | 40 | 41 | 42, PV::U8(x)) => *x <= 1,
        (33 | 35, PV::U16(x)) => *x != 0,
        (39, PV::U32(x)) => *x != 0,
        (11, PV::Var(x)) => *x != 0,
        _ => true,
    })
}

/// Strict UTF-8 (RFC 3629), written out independently of the standard library.
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |j: usize| j < b.len() && (0x80..=0xBF).contains(&b[j]);
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
        } else if (0xC2..=0xDF).contains(&c) {
            if !cont(i + 1) { return false; }
            i += 2;
        } else if (0xE0..=0xEF).contains(&c) {
            if !cont(i + 1) || !cont(i + 2) { return false; }
            if c == 0xE0 && b[i + 1] < 0xA0 { return false; }
            if c == 0xED && b[i + 1] > 0x9F { return false; }
            i += 3;
        } else if (0xF0..=0xF4).contains(&c) {
            if !cont(i + 1) || !cont(i + 2) || !cont(i + 3) { return false; }
            if c == 0xF0 && b[i + 1] < 0x90 { return false; }
            if c == 0xF4 && b[i + 1] > 0x8F { return false; }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
