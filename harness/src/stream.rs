//! What a read of a buffer must do, and the comparison of the implementation with it.
use crate::adapt::{self, Error, Pk};
use crate::explore::hex;
use crate::model::dec::{self, Bad, Hdr, Tol};
use crate::model::M;

/// Framing only (no content).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Framing {
    Need { missing: usize, exact: bool },
    BadLength,
    TooBig(usize),
    Frame { len: usize },
}

pub fn framing(buf: &[u8], limit: usize) -> Framing {
    match dec::header(buf) {
        Hdr::Partial => Framing::Need { missing: if buf.is_empty() { 2 } else { 1 }, exact: false },
        Hdr::Malformed => Framing::BadLength,
        Hdr::Ok { rem, .. } if rem > limit => Framing::TooBig(rem),
        Hdr::Ok { hlen, rem, .. } if buf.len() < hlen + rem => Framing::Need { missing: hlen + rem - buf.len(), exact: true },
        Hdr::Ok { hlen, rem, .. } => Framing::Frame { len: hlen + rem },
    }
}

pub fn is_need(e: &Error) -> Option<usize> {
    match e {
        Error::InsufficientBytes(n) => Some(*n),
        _ => None,
    }
}

/// Does a result agree with the decoding rules for a complete frame? (framing assumed right)
/// Returns the outcome class.
pub fn agree(ver: u8, frame: &[u8], res: &Result<Pk, Error>, want: &Result<(M, Tol), Bad>) -> Result<&'static str, String> {
    match (res, want) {
        (Ok(p), Err(b)) => Err(format!("v{ver} frame {} must be rejected ({b:?}) but decodes to {p:?}", hex(frame))),
        (Err(_), Err(_)) => Ok("rejected"),
        (Ok(p), Ok((m, tol))) => {
            if tol & dec::NOVALUE != 0 {
                return Ok("tolerated, value unspecified");
            }
            let got = p.model().norm();
            let exp = m.norm();
            if got != exp {
                return Err(format!("v{ver} frame {} spells {exp:?} but decodes to {got:?}", hex(frame)));
            }
            Ok(if *tol == 0 { "accepted, well-formed" } else { "accepted, tolerated" })
        }
        (Err(e), Ok((m, tol))) => {
            if *tol == 0 {
                return Err(format!("v{ver} well-formed frame {} ({m:?}) is rejected with {e:?}", hex(frame)));
            }
            Ok("rejected, tolerable")
        }
    }
}

/// Decoding of one complete frame (header consistent with the length) against the rules.
pub fn judge_frame(ver: u8, frame: &[u8]) -> Result<&'static str, String> {
    let w = dec::decode(ver, frame);
    let (r, _) = adapt::read_slice(ver, frame, usize::MAX);
    agree(ver, frame, &r, &w)
}
