//! Strict reference decoder. Returns the value plus the set of tolerated rule violations, or
//! the reason why the frame must be rejected.
use super::spec::{self, PCtx, PT};
use super::{Filter, Props, Will, M, PV};

/// Rules a frame may break and still be accepted by an implementation.
pub type Tol = u32;
pub const FLAGS: Tol = 1; // reserved fixed-header bits
pub const NONMIN: Tol = 2; // non-minimal variable-length integer
pub const TRAIL: Tol = 4; // bytes after the last field
pub const RESBITS: Tol = 8; // reserved bits in connect flags, connack flags, subscription options
pub const DUPPROP: Tol = 16; // repeated non-repeatable property: value not determined
pub const LEVEL5: Tol = 32; // protocol level 5 in the 3.1.1 decoder: value not determined
// violations that come from the value itself, so an encoder may produce them
pub const PROPVAL: Tol = 256;
pub const EMPTYLIST: Tol = 512;
pub const TEXT: Tol = 1024; // empty or wildcard topic, U+0000
pub const PKID0: Tol = 2048;
pub const LOGIN: Tol = 4096; // password without user name (3.1.1)
pub const DUPQ0: Tol = 8192;
pub const SPCODE: Tol = 16384; // session present with a refusal
pub const VALUE_TOLS: Tol = !255;
/// With these the decoded value is not compared.
pub const NOVALUE: Tol = DUPPROP | LEVEL5;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Type,
    Short,      // mandatory content missing, or a length reaching past its container
    Utf8,
    VarInt,
    PropId,
    Code,
    Qos,
    Rule,
    Proto,
    Level,
    WillBits,
    Pkid0,
    Empty,
    Size,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hdr {
    /// fewer than two bytes or unfinished length field
    Partial,
    Malformed,
    Ok { byte1: u8, hlen: usize, rem: usize },
}

pub fn header(b: &[u8]) -> Hdr {
    if b.len() < 2 {
        return Hdr::Partial;
    }
    let mut rem = 0usize;
    for i in 0..4 {
        match b.get(1 + i) {
            None => return Hdr::Partial,
            Some(x) => {
                rem += ((x & 127) as usize) << (7 * i);
                if x & 128 == 0 {
                    return Hdr::Ok { byte1: b[0], hlen: 2 + i, rem };
                }
            }
        }
    }
    Hdr::Malformed
}

struct R<'a> {
    b: &'a [u8],
    tol: Tol,
}
type Res<T> = Result<T, Bad>;

impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if n > self.b.len() {
            return Err(Bad::Short);
        }
        let (a, rest) = self.b.split_at(n);
        self.b = rest;
        Ok(a)
    }
    fn u8(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Res<u16> {
        let a = self.take(2)?;
        Ok((a[0] as u16) << 8 | a[1] as u16)
    }
    fn u32(&mut self) -> Res<u32> {
        let a = self.take(4)?;
        Ok((a[0] as u32) << 24 | (a[1] as u32) << 16 | (a[2] as u32) << 8 | a[3] as u32)
    }
    fn var(&mut self) -> Res<u64> {
        let mut v = 0u64;
        for i in 0..4 {
            let x = self.u8().map_err(|_| Bad::VarInt)?;
            v |= ((x & 127) as u64) << (7 * i);
            if x & 128 == 0 {
                if i > 0 && x == 0 {
                    self.tol |= NONMIN;
                }
                return Ok(v);
            }
        }
        Err(Bad::VarInt)
    }
    fn bin(&mut self) -> Res<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn text(&mut self) -> Res<String> {
        let b = self.bin()?;
        if !spec::utf8_ok(&b) {
            return Err(Bad::Utf8);
        }
        if b.contains(&0) {
            self.tol |= TEXT;
        }
        Ok(String::from_utf8(b).expect("reference UTF-8 check"))
    }
    fn props(&mut self, ctx: PCtx) -> Res<Props> {
        let n = self.var()? as usize;
        let body = self.take(n)?;
        let (p, t) = section(ctx, body)?;
        self.tol |= t;
        Ok(p)
    }
}

/// Content of a property section.
pub fn section(ctx: PCtx, body: &[u8]) -> Res<(Props, Tol)> {
    let mut r = R { b: body, tol: 0 };
    let mut out: Props = Vec::new();
    while !r.b.is_empty() {
        let id = r.u8()?;
        if !spec::prop_allowed(ctx, id) {
            return Err(Bad::PropId);
        }
        let v = match spec::prop_type(id).unwrap() {
            PT::U8 => PV::U8(r.u8()?),
            PT::U16 => PV::U16(r.u16()?),
            PT::U32 => PV::U32(r.u32()?),
            PT::Var => PV::Var(r.var()?),
            PT::Str => PV::Str(r.text()?),
            PT::Bin => PV::Bin(r.bin()?),
            PT::Pair => {
                let k = r.text()?;
                PV::Pair(k, r.text()?)
            }
        };
        if !spec::repeatable(ctx, id) && out.iter().any(|(i, _)| *i == id) {
            r.tol |= DUPPROP;
        }
        out.push((id, v));
    }
    if !spec::props_in_range(&out) {
        r.tol |= PROPVAL;
    }
    Ok((out, r.tol))
}

fn topic_tol(s: &str) -> Tol {
    if s.is_empty() || s.contains('+') || s.contains('#') { TEXT } else { 0 }
}

/// Decodes one complete frame (header and body, nothing else).
pub fn decode(ver: u8, frame: &[u8]) -> Res<(M, Tol)> {
    let (byte1, hlen, rem) = match header(frame) {
        Hdr::Ok { byte1, hlen, rem } => (byte1, hlen, rem),
        _ => return Err(Bad::VarInt),
    };
    assert_eq!(hlen + rem, frame.len(), "decode wants exactly one frame");
    let mut r = R { b: &frame[hlen..], tol: 0 };
    if hlen > 2 && frame[hlen - 1] == 0 {
        r.tol |= NONMIN;
    }
    let ptype = byte1 >> 4;
    let flags = byte1 & 15;
    if ptype == 0 || ptype == 15 {
        return Err(Bad::Type);
    }
    if ptype != 3 && flags != spec::fixed_flags(ptype) {
        r.tol |= FLAGS;
    }
    let v5 = ver == 5;
    let props = |r: &mut R, ctx: PCtx| if v5 { r.props(ctx) } else { Ok(vec![]) };
    let code = |c: u8| if spec::codes(ver, ptype).contains(&c) { Ok(c) } else { Err(Bad::Code) };
    let m = match ptype {
        1 => connect(ver, &mut r)?,
        2 => {
            let f = r.u8()?;
            if f & !1 != 0 {
                r.tol |= RESBITS;
            }
            let c = code(r.u8()?)?;
            if f & 1 == 1 && c != 0 {
                r.tol |= SPCODE;
            }
            let props = props(&mut r, 2)?;
            M::ConnAck { sp: f & 1 == 1, code: c, props }
        }
        3 => {
            let qos = flags >> 1 & 3;
            if qos == 3 {
                return Err(Bad::Qos);
            }
            let dup = flags & 8 != 0;
            if dup && qos == 0 {
                r.tol |= DUPQ0;
            }
            let topic = r.text()?;
            let pkid = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && pkid == 0 {
                return Err(Bad::Pkid0);
            }
            let props = props(&mut r, 3)?;
            // a topic alias stands in for the topic
            if !(ver == 5 && topic.is_empty() && props.iter().any(|p| p.0 == 35)) {
                r.tol |= topic_tol(&topic);
            }
            let payload = r.take(r.b.len())?.to_vec();
            M::Publish { dup, qos, retain: flags & 1 == 1, topic, pkid, props, payload }
        }
        4..=7 => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.tol |= PKID0;
            }
            let (mut reason, mut pr) = (0, vec![]);
            if v5 && !r.b.is_empty() {
                reason = code(r.u8()?)?;
                if !r.b.is_empty() {
                    pr = r.props(ptype)?;
                }
            }
            M::Ack { kind: ptype, pkid, reason, props: pr }
        }
        8 => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.tol |= PKID0;
            }
            let props = props(&mut r, 8)?;
            let mut filters = vec![];
            while !r.b.is_empty() {
                let path = r.text()?;
                if path.is_empty() {
                    r.tol |= TEXT;
                }
                let o = r.u8()?;
                if o & 3 == 3 {
                    return Err(Bad::Qos);
                }
                if v5 {
                    if o >> 4 & 3 == 3 {
                        return Err(Bad::Rule);
                    }
                    if o & 0xC0 != 0 {
                        r.tol |= RESBITS;
                    }
                    filters.push(Filter { path, qos: o & 3, nolocal: o & 4 != 0, rap: o & 8 != 0, rule: o >> 4 & 3 });
                } else {
                    if o & 0xFC != 0 {
                        r.tol |= RESBITS;
                    }
                    filters.push(Filter { path, qos: o & 3, nolocal: false, rap: false, rule: 0 });
                }
            }
            if filters.is_empty() {
                if !v5 {
                    return Err(Bad::Empty);
                }
                r.tol |= EMPTYLIST;
            }
            M::Subscribe { pkid, filters, props }
        }
        9 => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.tol |= PKID0;
            }
            let props = props(&mut r, 9)?;
            let mut codes = vec![];
            while !r.b.is_empty() {
                codes.push(code(r.u8()?)?);
            }
            if codes.is_empty() {
                return Err(Bad::Empty);
            }
            M::SubAck { pkid, codes, props }
        }
        10 => {
            let pkid = r.u16()?;
            if pkid == 0 {
                r.tol |= PKID0;
            }
            let props = props(&mut r, 10)?;
            let mut filters = vec![];
            while !r.b.is_empty() {
                let f = r.text()?;
                if f.is_empty() {
                    r.tol |= TEXT;
                }
                filters.push(f);
            }
            if filters.is_empty() {
                r.tol |= EMPTYLIST;
            }
            M::Unsubscribe { pkid, filters, props }
        }
        11 => {
            if !v5 && rem != 2 {
                return Err(Bad::Size);
            }
            let pkid = r.u16()?;
            if pkid == 0 {
                r.tol |= PKID0;
            }
            let props = props(&mut r, 11)?;
            let mut codes = vec![];
            if v5 {
                while !r.b.is_empty() {
                    codes.push(code(r.u8()?)?);
                }
                if codes.is_empty() {
                    return Err(Bad::Empty);
                }
            }
            M::UnsubAck { pkid, codes, props }
        }
        12 => M::PingReq,
        13 => M::PingResp,
        14 => {
            let (mut reason, mut pr) = (0, vec![]);
            if v5 && !r.b.is_empty() {
                reason = code(r.u8()?)?;
                if !r.b.is_empty() {
                    pr = r.props(14)?;
                }
            }
            M::Disconnect { reason, props: pr }
        }
        _ => unreachable!(),
    };
    if !r.b.is_empty() {
        r.tol |= TRAIL;
    }
    Ok((m, r.tol))
}

fn connect(ver: u8, r: &mut R) -> Res<M> {
    // The protocol name is a string like any other; anything but "MQTT" is unacceptable.
    let name = r.bin()?;
    if name != b"MQTT" {
        return Err(Bad::Proto);
    }
    let level = r.u8()?;
    if level != 4 && level != 5 {
        return Err(Bad::Level);
    }
    if ver == 4 && level == 5 {
        r.tol |= LEVEL5;
    }
    let v5 = ver == 5 && level == 5;
    let f = r.u8()?;
    if f & 1 != 0 {
        r.tol |= RESBITS;
    }
    let keep_alive = r.u16()?;
    let props = if v5 { r.props(1)? } else { vec![] };
    let client_id = r.text()?;
    let will = if f & 4 != 0 {
        let props = if v5 { r.props(spec::WILL)? } else { vec![] };
        let topic = r.text()?;
        r.tol |= topic_tol(&topic);
        let message = r.bin()?;
        let qos = f >> 3 & 3;
        if qos == 3 {
            return Err(Bad::Qos);
        }
        Some(Will { topic, message, qos, retain: f & 0x20 != 0, props })
    } else {
        if f & 0x38 != 0 {
            return Err(Bad::WillBits);
        }
        None
    };
    let user = if f & 0x80 != 0 { r.text()? } else { String::new() };
    let pass = if f & 0x40 != 0 {
        if f & 0x80 == 0 && !v5 {
            r.tol |= LOGIN;
        }
        r.text()?
    } else {
        String::new()
    };
    let login = if user.is_empty() && pass.is_empty() { None } else { Some((user, pass)) };
    Ok(M::Connect { level, keep_alive, client_id, clean: f & 2 != 0, will, login, props })
}
