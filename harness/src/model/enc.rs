//! Reference encoder: canonical bytes of a model value plus a map of every field.
use super::spec;
use super::{Props, Will, M, PV};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FK {
    Byte1,
    RemLen,
    StrLen,
    BinLen,
    PropLen,
    Text,
    Bin,
    PropId,
    Int,
    VarInt,
    ConnFlags,
    AckFlags,
    Code,
    Pkid,
    Level,
    Name,
    Opts,
    Payload,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub kind: FK,
    /// end of the innermost container (property section or frame)
    pub end: usize,
    /// property context (packet type or will) for property fields, 0 elsewhere
    pub ctx: u8,
}

#[derive(Clone, Debug)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub fields: Vec<Field>,
}

/// How an optional tail (reason, properties of acknowledgements and Disconnect) is spelt.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    /// shortest spelling
    Short,
    /// reason code, property length only if there are properties
    Reason,
    /// reason code and property length always
    Full,
}
pub const FORMS: [Form; 3] = [Form::Short, Form::Reason, Form::Full];

pub fn varint(mut n: usize) -> Vec<u8> {
    assert!(n <= 268_435_455);
    let mut v = vec![];
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 128);
    }
}
/// `n` in exactly `k` bytes (k at least the minimal size).
pub fn varint_padded(n: usize, k: usize) -> Vec<u8> {
    let mut v = varint(n);
    while v.len() < k {
        let l = v.len() - 1;
        v[l] |= 128;
        v.push(0);
    }
    v
}

#[derive(Default)]
struct W {
    b: Vec<u8>,
    f: Vec<Field>,
    ctx: u8,
}
const OPEN: usize = usize::MAX;

impl W {
    fn mark(&mut self, len: usize, kind: FK) {
        self.f.push(Field { off: self.b.len(), len, kind, end: OPEN, ctx: self.ctx });
    }
    fn u8(&mut self, x: u8, k: FK) {
        self.mark(1, k);
        self.b.push(x);
    }
    fn u16(&mut self, x: u16, k: FK) {
        self.mark(2, k);
        self.b.extend_from_slice(&[(x >> 8) as u8, x as u8]);
    }
    fn u32(&mut self, x: u32, k: FK) {
        self.mark(4, k);
        self.b.extend_from_slice(&[(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]);
    }
    fn var(&mut self, n: usize, k: FK) {
        let v = varint(n);
        self.mark(v.len(), k);
        self.b.extend_from_slice(&v);
    }
    fn lenp(&mut self, x: &[u8], text: bool, body: FK) {
        assert!(x.len() <= 65535);
        self.u16(x.len() as u16, if text { FK::StrLen } else { FK::BinLen });
        self.mark(x.len(), body);
        self.b.extend_from_slice(x);
    }
    fn text(&mut self, s: &str) {
        self.lenp(s.as_bytes(), true, FK::Text)
    }
    fn bin(&mut self, s: &[u8]) {
        self.lenp(s, false, FK::Bin)
    }
    /// Appends a finished container: its fields end where it ends.
    fn append(&mut self, w: W) {
        let base = self.b.len();
        let end = base + w.b.len();
        for mut f in w.f {
            f.off += base;
            f.end = if f.end == OPEN { end } else { f.end + base };
            self.f.push(f);
        }
        self.b.extend_from_slice(&w.b);
    }
    fn props(&mut self, ctx: u8, p: &Props) {
        let mut w = W { ctx, ..W::default() };
        for (id, v) in p {
            w.u8(*id, FK::PropId);
            match v {
                PV::U8(x) => w.u8(*x, FK::Int),
                PV::U16(x) => w.u16(*x, FK::Int),
                PV::U32(x) => w.u32(*x, FK::Int),
                PV::Var(x) => w.var(*x as usize, FK::VarInt),
                PV::Str(s) => w.text(s),
                PV::Bin(b) => w.bin(b),
                PV::Pair(k, v) => {
                    w.text(k);
                    w.text(v)
                }
            }
        }
        self.ctx = ctx;
        self.var(w.b.len(), FK::PropLen);
        self.ctx = 0;
        self.append(w);
    }
}

/// The content of a property section.
pub fn section(ctx: u8, p: &Props) -> Vec<u8> {
    let mut w = W::default();
    w.props(ctx, p);
    w.b
}

pub fn byte1(m: &M) -> u8 {
    let t = m.ptype();
    let flags = match m {
        M::Publish { dup, qos, retain, .. } => (*dup as u8) << 3 | qos << 1 | *retain as u8,
        _ => spec::fixed_flags(t),
    };
    t << 4 | flags
}

pub fn encode(ver: u8, m: &M, form: Form) -> Enc {
    let v5 = ver == 5;
    let mut w = W::default();
    match m {
        M::Connect { level, keep_alive, client_id, clean, will, login, props } => {
            let v5 = v5 && *level == 5;
            w.lenp(b"MQTT", true, FK::Name);
            w.u8(*level, FK::Level);
            let mut f = (*clean as u8) << 1;
            if let Some(Will { qos, retain, .. }) = will {
                f |= 4 | qos << 3 | (*retain as u8) << 5;
            }
            if let Some((u, p)) = login {
                f |= (!u.is_empty() as u8) << 7 | (!p.is_empty() as u8) << 6;
            }
            w.u8(f, FK::ConnFlags);
            w.u16(*keep_alive, FK::Int);
            if v5 {
                w.props(1, props);
            }
            w.text(client_id);
            if let Some(wl) = will {
                if v5 {
                    w.props(spec::WILL, &wl.props);
                }
                w.text(&wl.topic);
                w.bin(&wl.message);
            }
            if let Some((u, p)) = login {
                if !u.is_empty() {
                    w.text(u);
                }
                if !p.is_empty() {
                    w.text(p);
                }
            }
        }
        M::ConnAck { sp, code, props } => {
            w.u8(*sp as u8, FK::AckFlags);
            w.u8(*code, FK::Code);
            if v5 {
                w.props(2, props);
            }
        }
        M::Publish { qos, topic, pkid, props, payload, .. } => {
            w.text(topic);
            if *qos > 0 {
                w.u16(*pkid, FK::Pkid);
            }
            if v5 {
                w.props(3, props);
            }
            w.mark(payload.len(), FK::Payload);
            w.b.extend_from_slice(payload);
        }
        M::Ack { kind, pkid, reason, props } => {
            w.u16(*pkid, FK::Pkid);
            if v5 {
                tail(&mut w, *kind, *reason, props, form);
            }
        }
        M::Subscribe { pkid, filters, props } => {
            w.u16(*pkid, FK::Pkid);
            if v5 {
                w.props(8, props);
            }
            for f in filters {
                w.text(&f.path);
                w.u8(f.qos | (f.nolocal as u8) << 2 | (f.rap as u8) << 3 | f.rule << 4, FK::Opts);
            }
        }
        M::SubAck { pkid, codes, props } => {
            w.u16(*pkid, FK::Pkid);
            if v5 {
                w.props(9, props);
            }
            for c in codes {
                w.u8(*c, FK::Code);
            }
        }
        M::Unsubscribe { pkid, filters, props } => {
            w.u16(*pkid, FK::Pkid);
            if v5 {
                w.props(10, props);
            }
            for f in filters {
                w.text(f);
            }
        }
        M::UnsubAck { pkid, codes, props } => {
            w.u16(*pkid, FK::Pkid);
            if v5 {
                w.props(11, props);
                for c in codes {
                    w.u8(*c, FK::Code);
                }
            }
        }
        M::PingReq | M::PingResp => {}
        M::Disconnect { reason, props } => {
            if v5 {
                tail(&mut w, 14, *reason, props, form);
            }
        }
    }
    let mut o = W::default();
    o.u8(byte1(m), FK::Byte1);
    o.var(w.b.len(), FK::RemLen);
    o.append(w);
    let n = o.b.len();
    for f in o.f.iter_mut() {
        if f.end == OPEN {
            f.end = n;
        }
    }
    Enc { bytes: o.b, fields: o.f }
}

fn tail(w: &mut W, ctx: u8, reason: u8, props: &Props, form: Form) {
    if form == Form::Short && reason == 0 && props.is_empty() {
        return;
    }
    w.u8(reason, FK::Code);
    if form == Form::Full || !props.is_empty() {
        w.props(ctx, props);
    }
}

/// Size of the canonical remaining length for each form: used for size queries.
pub fn rem_len(ver: u8, m: &M, form: Form) -> usize {
    let e = encode(ver, m, form);
    let h = e.fields[1].len + 1;
    e.bytes.len() - h
}
