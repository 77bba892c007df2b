//! The byte space: model-encoded frames, every fault on them, and raw bytes.
use crate::gen::{self, Base};
use crate::model::enc::{self, Enc, FK, FORMS};
use crate::model::{dec, M};

/// Interesting byte values: lengths, property identifiers, codes, UTF-8 fragments, varint bits.
pub const SHARP: [u8; 26] = [0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 16, 17, 31, 33, 35, 38, b'a', 0x7F, 0x80, 0x81, 0x87, 0x8F, 0xC3, 0xA9, 0xFE, 0xFF];

/// Replace the body of a frame, recomputing its remaining length.
pub fn frame(byte1: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![byte1];
    v.extend_from_slice(&enc::varint(body.len()));
    v.extend_from_slice(body);
    v
}

/// Base frames of a version and packet type: minimal and full packets in every spelling.
pub fn bases(ver: u8, ptype: u8) -> Vec<Enc> {
    let mut out: Vec<Enc> = vec![];
    let mut ms: Vec<M> = vec![gen::base_packet(ver, ptype, Base::Minimal), gen::base_packet(ver, ptype, Base::Full)];
    if ver == 5 && ptype == 1 {
        let mut m = gen::base_packet(4, 1, Base::Full);
        if let M::Connect { level, .. } = &mut m {
            *level = 4;
        }
        ms.push(m);
        // will and its properties, nothing else
        if let M::Connect { will, .. } = gen::base_packet(5, 1, Base::Full) {
            if let M::Connect { level, keep_alive, client_id, clean, login, props, .. } = gen::base_packet(5, 1, Base::Minimal) {
                ms.push(M::Connect { level, keep_alive, client_id, clean, will, login, props });
            }
        }
    }
    for m in ms {
        for f in FORMS {
            let e = enc::encode(ver, &m, f);
            if !out.iter().any(|o| o.bytes == e.bytes) {
                out.push(e);
            }
        }
    }
    out
}

/// Body of an encoded frame.
pub fn body(e: &Enc) -> &[u8] {
    &e.bytes[1 + e.fields[1].len..]
}
pub fn hdr_len(e: &Enc) -> usize {
    1 + e.fields[1].len
}

/// A value of a length field re-encoded; section lengths are variable-length integers.
pub fn with_len(e: &Enc, field: usize, v: usize, pad: usize) -> Option<Vec<u8>> {
    let f = e.fields[field];
    let h = hdr_len(e);
    let b = body(e);
    let off = f.off - h;
    let new = match f.kind {
        FK::StrLen | FK::BinLen => {
            if v > 65535 {
                return None;
            }
            vec![(v >> 8) as u8, v as u8]
        }
        FK::PropLen | FK::VarInt => {
            let n = enc::varint(v).len();
            if n + pad > 4 {
                return None;
            }
            enc::varint_padded(v, n + pad)
        }
        _ => return None,
    };
    let mut nb = b[..off].to_vec();
    nb.extend_from_slice(&new);
    nb.extend_from_slice(&b[off + f.len..]);
    Some(frame(e.bytes[0], &nb))
}

/// Is this a frame whose header is consistent with the buffer (exactly one frame)?
pub fn one_frame(b: &[u8]) -> bool {
    matches!(dec::header(b), dec::Hdr::Ok { hlen, rem, .. } if hlen + rem == b.len())
}

/// Calls `f` on every single-fault variant of a frame. All results are single complete frames
/// (the remaining length is recomputed), so that content faults reach the body decoders.
pub fn faults(e: &Enc, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    let b = body(e);
    let t = e.bytes[0];
    f(&e.bytes)?;
    // first byte: every value
    for x in 0..=255u8 {
        f(&frame(x, b))?;
    }
    // every byte: every value
    let mut nb = b.to_vec();
    for i in 0..b.len() {
        for x in 0..=255u8 {
            nb[i] = x;
            f(&frame(t, &nb))?;
        }
        nb[i] = b[i];
    }
    // truncation after every byte
    for i in 0..b.len() {
        f(&frame(t, &b[..i]))?;
    }
    // extension by one and two bytes
    let mut nb = b.to_vec();
    for x in 0..=255u8 {
        nb.push(x);
        f(&frame(t, &nb))?;
        for y in SHARP {
            nb.push(y);
            f(&frame(t, &nb))?;
            nb.pop();
        }
        nb.pop();
    }
    // extension by longer tails: zeroes, text, the frame itself, up to beyond each length boundary
    let n0 = b.len();
    let upto = [3usize, 4, 5, 6, 7, 8, 12, 16, 31, 32, 64, 100, 125, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 512, 1024, 16_384];
    for k in upto {
        for fill in 0..4 {
            let mut nb = b.to_vec();
            nb.extend((0..k).map(|i| match fill {
                0 => 0,
                1 => b'a',
                2 => 0xFF,
                _ => e.bytes[i % e.bytes.len()],
            }));
            f(&frame(t, &nb))?;
        }
        // and the whole body brought to that length
        if k > n0 {
            let mut nb = b.to_vec();
            nb.resize(k, 0);
            f(&frame(t, &nb))?;
        }
    }
    // deletion and duplication of every byte, insertion of sharp bytes anywhere
    for i in 0..=b.len() {
        if i < b.len() {
            let mut d = b.to_vec();
            d.remove(i);
            f(&frame(t, &d))?;
            let mut d = b.to_vec();
            d.insert(i, b[i]);
            f(&frame(t, &d))?;
        }
        for x in SHARP {
            let mut d = b.to_vec();
            d.insert(i, x);
            f(&frame(t, &d))?;
        }
    }
    // swap of adjacent bytes
    for i in 1..b.len() {
        let mut d = b.to_vec();
        d.swap(i - 1, i);
        f(&frame(t, &d))?;
    }
    Ok(())
}

/// Two bytes set to sharp values, the second after the first (pair i of the enumeration of i).
pub fn double_faults(e: &Enc, i: usize, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    let b = body(e);
    let t = e.bytes[0];
    let mut nb = b.to_vec();
    for x in SHARP {
        nb[i] = x;
        for j in i + 1..b.len() {
            for y in SHARP {
                nb[j] = y;
                f(&frame(t, &nb))?;
            }
            nb[j] = b[j];
        }
        // one sharp value, then truncated anywhere behind it
        for j in i + 1..b.len() {
            f(&frame(t, &nb[..j]))?;
        }
    }
    Ok(())
}

/// All bodies of length `n` over an alphabet, after a fixed start.
pub fn all_bodies(alpha: &[u8], n: usize, start: &[u8], f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    let mut b = start.to_vec();
    let s = start.len();
    b.resize(s + n, alpha[0]);
    let mut idx = vec![0usize; n];
    loop {
        f(&b)?;
        let mut k = n;
        loop {
            if k == 0 {
                return Ok(());
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < alpha.len() {
                b[s + k] = alpha[idx[k]];
                break;
            }
            idx[k] = 0;
            b[s + k] = alpha[0];
        }
    }
}

/// The content of a text, binary or payload field replaced; its length prefix, the enclosing
/// section length and the remaining length follow.
pub fn with_content(e: &Enc, field: usize, new: &[u8]) -> Vec<u8> {
    let f = e.fields[field];
    assert!(matches!(f.kind, FK::Text | FK::Bin | FK::Payload | FK::Name));
    let h = hdr_len(e);
    let mut b = body(e).to_vec();
    let off = f.off - h;
    b.splice(off..off + f.len, new.iter().copied());
    if f.kind != FK::Payload {
        b[off - 2] = (new.len() >> 8) as u8;
        b[off - 1] = new.len() as u8;
    }
    if f.ctx != 0 {
        let p = e.fields[..field].iter().rev().find(|p| p.kind == FK::PropLen && p.ctx == f.ctx).expect("HARNESS: section of a field");
        let old = f.end - (p.off + p.len);
        let v = enc::varint(old + new.len() - f.len);
        let at = p.off - h;
        b.splice(at..at + p.len, v);
    }
    frame(e.bytes[0], &b)
}

/// The value of a single-byte field (code, flags, options, identifier, level) replaced.
pub fn with_byte(e: &Enc, field: usize, x: u8) -> Vec<u8> {
    let f = e.fields[field];
    let mut b = e.bytes.clone();
    b[f.off] = x;
    b
}

/// What one altered field yields: the field's index, the value put there, the frame.
pub type AltCb<'a> = &'a mut dyn FnMut(usize, usize, &[u8]) -> Result<(), String>;
/// Calls `f` with every field of a frame altered, one at a time: coded bytes by each single bit
/// and by one, lengths to sharp values, texts made ill-formed or emptied, and the frame cut at the
/// field's start and in it.
pub fn alterations(e: &Enc, f: AltCb) -> Result<(), String> {
    let total = e.bytes.len();
    let h = hdr_len(e);
    let b = body(e);
    for (i, fl) in e.fields.iter().enumerate() {
        match fl.kind {
            FK::Byte1 | FK::Level | FK::ConnFlags | FK::AckFlags | FK::Code | FK::Opts | FK::PropId => {
                let x = e.bytes[fl.off];
                for bit in 0..8 {
                    f(i, (x ^ 1 << bit) as usize, &with_byte(e, i, x ^ 1 << bit))?;
                }
                let more: &[u8] = match fl.kind {
                    FK::Byte1 => &[0x00, 0xF0, 0x36, 0x3F],
                    FK::Level => &[3, 0x84, 0xFF],
                    FK::ConnFlags => &[0x1C, 0xDE, 0x18],
                    FK::Opts => &[3, 0x30, 0x33, 0x2C],
                    _ => &[0xFF],
                };
                for x in more.iter().copied().chain([x.wrapping_add(1), x.wrapping_sub(1)]) {
                    f(i, x as usize, &with_byte(e, i, x))?;
                }
            }
            FK::StrLen | FK::BinLen | FK::PropLen => {
                let val = match fl.kind {
                    FK::PropLen => match dec::header(&[&[0u8][..], &e.bytes[fl.off..fl.off + fl.len], &[0; 8]].concat()) {
                        dec::Hdr::Ok { rem, .. } => rem,
                        _ => total,
                    },
                    _ => (e.bytes[fl.off] as usize) << 8 | e.bytes[fl.off + 1] as usize,
                };
                let after = fl.off + fl.len;
                for x in [val.wrapping_sub(1), val + 1, val + 2, 0, total - after, total - after + 1, fl.end.saturating_sub(after), fl.end.saturating_sub(after) + 1, val + 256, 0xFFFF] {
                    if x <= 0xFFFF && x != val {
                        if let Some(b) = with_len(e, i, x, 0) {
                            f(i, x, &b)?;
                        }
                    }
                }
            }
            FK::Pkid => {
                let mut b = e.bytes.clone();
                b[fl.off] = 0;
                b[fl.off + 1] = 0;
                f(i, 0, &b)?;
            }
            FK::Name => {
                for n in [&b"MQTU"[..], b"mqtt", b"MQIsdp", b"MQTT\0", b"MQT", b""] {
                    f(i, 0, &with_content(e, i, n))?;
                }
            }
            FK::Text => {
                let old = &e.bytes[fl.off..fl.off + fl.len];
                if fl.len < 65_000 {
                    f(i, 1, &with_content(e, i, &[old, &[0xFF]].concat()))?;
                    f(i, 2, &with_content(e, i, &[&[0xED, 0xA0, 0x80], old].concat()))?;
                    f(i, 3, &with_content(e, i, &[old, &[0xC3]].concat()))?;
                    f(i, 4, &with_content(e, i, &[old, &[0]].concat()))?;
                    if let Some(x) = old.len().checked_sub(1) {
                        let mut o = old.to_vec();
                        o[x / 2] = 0x80;
                        f(i, 5, &with_content(e, i, &o))?;
                    }
                }
                f(i, 0, &with_content(e, i, b""))?;
            }
            _ => {}
        }
        if fl.off >= h && fl.off - h <= b.len() {
            f(i, usize::MAX, &frame(e.bytes[0], &b[..fl.off - h]))?;
            let mid = fl.off - h + fl.len / 2;
            if fl.len > 1 && mid < b.len() {
                f(i, usize::MAX, &frame(e.bytes[0], &b[..mid]))?;
            }
        }
    }
    if !b.is_empty() {
        f(usize::MAX, usize::MAX, &frame(e.bytes[0], &b[..b.len() - 1]))?;
    }
    Ok(())
}
