//! Bridge between model values and the crate's public API. Reason codes are mapped by the
//! variant's *name* to the code the specification gives that name, never by the variant's number.
use crate::model::{Filter, Props, Will, M, PV};
use bytes::{Bytes, BytesMut};
pub use mqttbytes::{v4, v5, Error, FixedHeader, PacketType, Protocol, QoS};
use std::cell::{Cell, RefCell};

#[path = "adapt_props.rs"]
mod adapt_props;

pub trait PropSet: Sized {
    fn to_model(&self) -> Props;
    fn from_model(p: &Props) -> Self;
}

thread_local! {
    pub static OPS: Cell<u64> = Cell::new(0);
    pub static LAST: RefCell<Vec<u8>> = RefCell::new(Vec::new());
}
#[inline]
pub fn op() {
    OPS.with(|c| c.set(c.get() + 1));
}
fn last(b: &[u8]) {
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.extend_from_slice(&b[..b.len().min(96)]);
    })
}

#[derive(Clone, PartialEq)]
pub enum Pk {
    V4(v4::Packet),
    V5(v5::Packet),
}
impl std::fmt::Debug for Pk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.model())
    }
}

pub fn read(ver: u8, buf: &mut BytesMut, limit: usize) -> Result<Pk, Error> {
    op();
    last(buf);
    if ver == 4 {
        v4::read(buf, limit).map(Pk::V4)
    } else {
        v5::read(buf, limit).map(Pk::V5)
    }
}
/// Read of a whole buffer given as a slice; returns the result and what is left.
pub fn read_slice(ver: u8, b: &[u8], limit: usize) -> (Result<Pk, Error>, BytesMut) {
    let mut buf = BytesMut::from(b);
    let r = read(ver, &mut buf, limit);
    (r, buf)
}
pub fn check(b: &[u8], limit: usize) -> Result<FixedHeader, Error> {
    op();
    last(b);
    mqttbytes::check(b.iter(), limit)
}

/// Decode a split-off frame with the reader of its packet type.
pub fn typed_read(ver: u8, h: FixedHeader, frame: Bytes) -> Option<Result<Pk, Error>> {
    op();
    let t = match h.packet_type() {
        Ok(t) => t,
        Err(e) => return Some(Err(e)),
    };
    macro_rules! r {
        ($m:ident, $v:ident, $t:ident) => {
            Some($m::$t::read(h, frame).map(|p| Pk::$v($m::Packet::$t(p))))
        };
    }
    if ver == 4 {
        match t {
            PacketType::Connect => r!(v4, V4, Connect),
            PacketType::ConnAck => r!(v4, V4, ConnAck),
            PacketType::Publish => r!(v4, V4, Publish),
            PacketType::PubAck => r!(v4, V4, PubAck),
            PacketType::PubRec => r!(v4, V4, PubRec),
            PacketType::PubRel => r!(v4, V4, PubRel),
            PacketType::PubComp => r!(v4, V4, PubComp),
            PacketType::Subscribe => r!(v4, V4, Subscribe),
            PacketType::SubAck => r!(v4, V4, SubAck),
            PacketType::Unsubscribe => r!(v4, V4, Unsubscribe),
            PacketType::UnsubAck => r!(v4, V4, UnsubAck),
            // no typed readers exist for these
            PacketType::PingReq | PacketType::PingResp | PacketType::Disconnect => None,
        }
    } else {
        match t {
            PacketType::Connect => r!(v5, V5, Connect),
            PacketType::ConnAck => r!(v5, V5, ConnAck),
            PacketType::Publish => r!(v5, V5, Publish),
            PacketType::PubAck => r!(v5, V5, PubAck),
            PacketType::PubRec => r!(v5, V5, PubRec),
            PacketType::PubRel => r!(v5, V5, PubRel),
            PacketType::PubComp => r!(v5, V5, PubComp),
            PacketType::Subscribe => r!(v5, V5, Subscribe),
            PacketType::SubAck => r!(v5, V5, SubAck),
            PacketType::Unsubscribe => r!(v5, V5, Unsubscribe),
            PacketType::UnsubAck => r!(v5, V5, UnsubAck),
            PacketType::Disconnect => r!(v5, V5, Disconnect),
            PacketType::PingReq | PacketType::PingResp => None,
        }
    }
}

pub fn type_num(t: PacketType) -> u8 {
    match t {
        PacketType::Connect => 1,
        PacketType::ConnAck => 2,
        PacketType::Publish => 3,
        PacketType::PubAck => 4,
        PacketType::PubRec => 5,
        PacketType::PubRel => 6,
        PacketType::PubComp => 7,
        PacketType::Subscribe => 8,
        PacketType::SubAck => 9,
        PacketType::Unsubscribe => 10,
        PacketType::UnsubAck => 11,
        PacketType::PingReq => 12,
        PacketType::PingResp => 13,
        PacketType::Disconnect => 14,
    }
}

fn q(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        2 => QoS::ExactlyOnce,
        _ => panic!("HARNESS: qos {n}"),
    }
}
fn qn(x: QoS) -> u8 {
    match x {
        QoS::AtMostOnce => 0,
        QoS::AtLeastOnce => 1,
        QoS::ExactlyOnce => 2,
    }
}

macro_rules! codes {
    ($to:ident, $from:ident, $t:ty, { $($n:literal => $v:path),* $(,)? }) => {
        pub fn $to(n: u8) -> $t { match n { $($n => $v,)* _ => panic!("HARNESS: code {n} of {}", stringify!($t)) } }
        pub fn $from(x: &$t) -> u8 { match x { $($v => $n,)* } }
    };
}
codes!(v4_conn, v4_conn_n, v4::ConnectReturnCode, {
    0 => v4::ConnectReturnCode::Success,
    1 => v4::ConnectReturnCode::RefusedProtocolVersion,
    2 => v4::ConnectReturnCode::BadClientId,
    3 => v4::ConnectReturnCode::ServiceUnavailable,
    4 => v4::ConnectReturnCode::BadUserNamePassword,
    5 => v4::ConnectReturnCode::NotAuthorized,
});
codes!(v5_conn, v5_conn_n, v5::ConnectReturnCode, {
    0x00 => v5::ConnectReturnCode::Success,
    0x80 => v5::ConnectReturnCode::UnspecifiedError,
    0x81 => v5::ConnectReturnCode::MalformedPacket,
    0x82 => v5::ConnectReturnCode::ProtocolError,
    0x83 => v5::ConnectReturnCode::ImplementationSpecificError,
    0x84 => v5::ConnectReturnCode::UnsupportedProtocolVersion,
    0x85 => v5::ConnectReturnCode::ClientIdentifierNotValid,
    0x86 => v5::ConnectReturnCode::BadUserNamePassword,
    0x87 => v5::ConnectReturnCode::NotAuthorized,
    0x88 => v5::ConnectReturnCode::ServerUnavailable,
    0x89 => v5::ConnectReturnCode::ServerBusy,
    0x8A => v5::ConnectReturnCode::Banned,
    0x8C => v5::ConnectReturnCode::BadAuthenticationMethod,
    0x90 => v5::ConnectReturnCode::TopicNameInvalid,
    0x95 => v5::ConnectReturnCode::PacketTooLarge,
    0x97 => v5::ConnectReturnCode::QuotaExceeded,
    0x99 => v5::ConnectReturnCode::PayloadFormatInvalid,
    0x9A => v5::ConnectReturnCode::RetainNotSupported,
    0x9B => v5::ConnectReturnCode::QoSNotSupported,
    0x9C => v5::ConnectReturnCode::UseAnotherServer,
    0x9D => v5::ConnectReturnCode::ServerMoved,
    0x9F => v5::ConnectReturnCode::ConnectionRateExceeded,
});
codes!(puback, puback_n, v5::PubAckReason, {
    0x00 => v5::PubAckReason::Success,
    0x10 => v5::PubAckReason::NoMatchingSubscribers,
    0x80 => v5::PubAckReason::UnspecifiedError,
    0x83 => v5::PubAckReason::ImplementationSpecificError,
    0x87 => v5::PubAckReason::NotAuthorized,
    0x90 => v5::PubAckReason::TopicNameInvalid,
    0x91 => v5::PubAckReason::PacketIdentifierInUse,
    0x97 => v5::PubAckReason::QuotaExceeded,
    0x99 => v5::PubAckReason::PayloadFormatInvalid,
});
codes!(pubrec, pubrec_n, v5::PubRecReason, {
    0x00 => v5::PubRecReason::Success,
    0x10 => v5::PubRecReason::NoMatchingSubscribers,
    0x80 => v5::PubRecReason::UnspecifiedError,
    0x83 => v5::PubRecReason::ImplementationSpecificError,
    0x87 => v5::PubRecReason::NotAuthorized,
    0x90 => v5::PubRecReason::TopicNameInvalid,
    0x91 => v5::PubRecReason::PacketIdentifierInUse,
    0x97 => v5::PubRecReason::QuotaExceeded,
    0x99 => v5::PubRecReason::PayloadFormatInvalid,
});
codes!(pubrel, pubrel_n, v5::PubRelReason, {
    0x00 => v5::PubRelReason::Success,
    0x92 => v5::PubRelReason::PacketIdentifierNotFound,
});
codes!(pubcomp, pubcomp_n, v5::PubCompReason, {
    0x00 => v5::PubCompReason::Success,
    0x92 => v5::PubCompReason::PacketIdentifierNotFound,
});
codes!(v5_sub, v5_sub_n, v5::SubscribeReasonCode, {
    0x00 => v5::SubscribeReasonCode::QoS0,
    0x01 => v5::SubscribeReasonCode::QoS1,
    0x02 => v5::SubscribeReasonCode::QoS2,
    0x80 => v5::SubscribeReasonCode::Unspecified,
    0x83 => v5::SubscribeReasonCode::ImplementationSpecific,
    0x87 => v5::SubscribeReasonCode::NotAuthorized,
    0x8F => v5::SubscribeReasonCode::TopicFilterInvalid,
    0x91 => v5::SubscribeReasonCode::PkidInUse,
    0x97 => v5::SubscribeReasonCode::QuotaExceeded,
    0x9E => v5::SubscribeReasonCode::SharedSubscriptionsNotSupported,
    0xA1 => v5::SubscribeReasonCode::SubscriptionIdNotSupported,
    0xA2 => v5::SubscribeReasonCode::WildcardSubscriptionsNotSupported,
});
codes!(unsuback, unsuback_n, v5::UnsubAckReason, {
    0x00 => v5::UnsubAckReason::Success,
    0x11 => v5::UnsubAckReason::NoSubscriptionExisted,
    0x80 => v5::UnsubAckReason::UnspecifiedError,
    0x83 => v5::UnsubAckReason::ImplementationSpecificError,
    0x87 => v5::UnsubAckReason::NotAuthorized,
    0x8F => v5::UnsubAckReason::TopicFilterInvalid,
    0x91 => v5::UnsubAckReason::PacketIdentifierInUse,
});
codes!(disc, disc_n, v5::DisconnectReasonCode, {
    0x00 => v5::DisconnectReasonCode::NormalDisconnection,
    0x04 => v5::DisconnectReasonCode::DisconnectWithWillMessage,
    0x80 => v5::DisconnectReasonCode::UnspecifiedError,
    0x81 => v5::DisconnectReasonCode::MalformedPacket,
    0x82 => v5::DisconnectReasonCode::ProtocolError,
    0x83 => v5::DisconnectReasonCode::ImplementationSpecificError,
    0x87 => v5::DisconnectReasonCode::NotAuthorized,
    0x89 => v5::DisconnectReasonCode::ServerBusy,
    0x8B => v5::DisconnectReasonCode::ServerShuttingDown,
    0x8D => v5::DisconnectReasonCode::KeepAliveTimeout,
    0x8E => v5::DisconnectReasonCode::SessionTakenOver,
    0x8F => v5::DisconnectReasonCode::TopicFilterInvalid,
    0x90 => v5::DisconnectReasonCode::TopicNameInvalid,
    0x93 => v5::DisconnectReasonCode::ReceiveMaximumExceeded,
    0x94 => v5::DisconnectReasonCode::TopicAliasInvalid,
    0x95 => v5::DisconnectReasonCode::PacketTooLarge,
    0x96 => v5::DisconnectReasonCode::MessageRateTooHigh,
    0x97 => v5::DisconnectReasonCode::QuotaExceeded,
    0x98 => v5::DisconnectReasonCode::AdministrativeAction,
    0x99 => v5::DisconnectReasonCode::PayloadFormatInvalid,
    0x9A => v5::DisconnectReasonCode::RetainNotSupported,
    0x9B => v5::DisconnectReasonCode::QoSNotSupported,
    0x9C => v5::DisconnectReasonCode::UseAnotherServer,
    0x9D => v5::DisconnectReasonCode::ServerMoved,
    0x9E => v5::DisconnectReasonCode::SharedSubscriptionNotSupported,
    0x9F => v5::DisconnectReasonCode::ConnectionRateExceeded,
    0xA0 => v5::DisconnectReasonCode::MaximumConnectTime,
    0xA1 => v5::DisconnectReasonCode::SubscriptionIdentifiersNotSupported,
    0xA2 => v5::DisconnectReasonCode::WildcardSubscriptionsNotSupported,
});
pub fn v4_sub(n: u8) -> v4::SubscribeReasonCode {
    match n {
        0x80 => v4::SubscribeReasonCode::Failure,
        n => v4::SubscribeReasonCode::Success(q(n)),
    }
}
pub fn v4_sub_n(x: &v4::SubscribeReasonCode) -> u8 {
    match x {
        v4::SubscribeReasonCode::Failure => 0x80,
        v4::SubscribeReasonCode::Success(x) => qn(*x),
    }
}
fn rule(n: u8) -> v5::RetainForwardRule {
    match n {
        0 => v5::RetainForwardRule::OnEverySubscribe,
        1 => v5::RetainForwardRule::OnNewSubscribe,
        2 => v5::RetainForwardRule::Never,
        _ => panic!("HARNESS: rule {n}"),
    }
}
fn rule_n(r: &v5::RetainForwardRule) -> u8 {
    match r {
        v5::RetainForwardRule::OnEverySubscribe => 0,
        v5::RetainForwardRule::OnNewSubscribe => 1,
        v5::RetainForwardRule::Never => 2,
    }
}

pub fn v5_filter(f: &Filter) -> v5::SubscribeFilter {
    v5::SubscribeFilter { path: f.path.clone(), qos: q(f.qos), nolocal: f.nolocal, preserve_retain: f.rap, retain_forward_rule: rule(f.rule) }
}
pub fn v4_filter(f: &Filter) -> v4::SubscribeFilter {
    v4::SubscribeFilter { path: f.path.clone(), qos: q(f.qos) }
}
pub fn v5_filter_m(f: &v5::SubscribeFilter) -> Filter {
    Filter { path: f.path.clone(), qos: qn(f.qos), nolocal: f.nolocal, rap: f.preserve_retain, rule: rule_n(&f.retain_forward_rule) }
}

fn proto(level: u8) -> Protocol {
    match level {
        4 => Protocol::V4,
        5 => Protocol::V5,
        _ => panic!("HARNESS: level {level}"),
    }
}
fn level(p: Protocol) -> u8 {
    match p {
        Protocol::V4 => 4,
        Protocol::V5 => 5,
    }
}

/// Properties as the crate represents them; `some_empty` gives an empty set as Some(empty).
fn ps<T: PropSet>(p: &Props, some_empty: bool) -> Option<T> {
    if p.is_empty() && !some_empty {
        None
    } else {
        Some(T::from_model(p))
    }
}
fn pm<T: PropSet>(p: &Option<T>) -> Props {
    p.as_ref().map(|x| x.to_model()).unwrap_or_default()
}

impl Pk {
    pub fn ver(&self) -> u8 {
        match self {
            Pk::V4(_) => 4,
            Pk::V5(_) => 5,
        }
    }

    /// The crate's packet for a model value.
    pub fn from_model(ver: u8, m: &M, some_empty: bool) -> Pk {
        let e = some_empty;
        if ver == 4 {
            Pk::V4(match m {
                M::Connect { level, keep_alive, client_id, clean, will, login, .. } => v4::Packet::Connect(v4::Connect {
                    protocol: proto(*level),
                    keep_alive: *keep_alive,
                    client_id: client_id.clone(),
                    clean_session: *clean,
                    last_will: will.as_ref().map(|w| v4::LastWill { topic: w.topic.clone(), message: Bytes::from(w.message.clone()), qos: q(w.qos), retain: w.retain }),
                    login: login.as_ref().map(|(u, p)| v4::Login { username: u.clone(), password: p.clone() }),
                }),
                M::ConnAck { sp, code, .. } => v4::Packet::ConnAck(v4::ConnAck { session_present: *sp, code: v4_conn(*code) }),
                M::Publish { dup, qos, retain, topic, pkid, payload, .. } => {
                    v4::Packet::Publish(v4::Publish { dup: *dup, qos: q(*qos), retain: *retain, topic: topic.clone(), pkid: *pkid, payload: Bytes::from(payload.clone()) })
                }
                M::Ack { kind, pkid, .. } => match kind {
                    4 => v4::Packet::PubAck(v4::PubAck { pkid: *pkid }),
                    5 => v4::Packet::PubRec(v4::PubRec { pkid: *pkid }),
                    6 => v4::Packet::PubRel(v4::PubRel { pkid: *pkid }),
                    _ => v4::Packet::PubComp(v4::PubComp { pkid: *pkid }),
                },
                M::Subscribe { pkid, filters, .. } => v4::Packet::Subscribe(v4::Subscribe { pkid: *pkid, filters: filters.iter().map(v4_filter).collect() }),
                M::SubAck { pkid, codes, .. } => v4::Packet::SubAck(v4::SubAck { pkid: *pkid, return_codes: codes.iter().map(|c| v4_sub(*c)).collect() }),
                M::Unsubscribe { pkid, filters, .. } => v4::Packet::Unsubscribe(v4::Unsubscribe { pkid: *pkid, topics: filters.clone() }),
                M::UnsubAck { pkid, .. } => v4::Packet::UnsubAck(v4::UnsubAck { pkid: *pkid }),
                M::PingReq => v4::Packet::PingReq,
                M::PingResp => v4::Packet::PingResp,
                M::Disconnect { .. } => v4::Packet::Disconnect,
            })
        } else {
            Pk::V5(match m {
                M::Connect { level, keep_alive, client_id, clean, will, login, props } => v5::Packet::Connect(v5::Connect {
                    protocol: proto(*level),
                    keep_alive: *keep_alive,
                    client_id: client_id.clone(),
                    clean_session: *clean,
                    last_will: will.as_ref().map(|w| v5::LastWill {
                        topic: w.topic.clone(),
                        message: Bytes::from(w.message.clone()),
                        qos: q(w.qos),
                        retain: w.retain,
                        properties: ps(&w.props, e),
                    }),
                    login: login.as_ref().map(|(u, p)| v5::Login { username: u.clone(), password: p.clone() }),
                    properties: ps(props, e),
                }),
                M::ConnAck { sp, code, props } => v5::Packet::ConnAck(v5::ConnAck { session_present: *sp, code: v5_conn(*code), properties: ps(props, e) }),
                M::Publish { dup, qos, retain, topic, pkid, props, payload } => v5::Packet::Publish(v5::Publish {
                    dup: *dup,
                    qos: q(*qos),
                    retain: *retain,
                    topic: topic.clone(),
                    pkid: *pkid,
                    properties: ps(props, e),
                    payload: Bytes::from(payload.clone()),
                }),
                M::Ack { kind, pkid, reason, props } => match kind {
                    4 => v5::Packet::PubAck(v5::PubAck { pkid: *pkid, reason: puback(*reason), properties: ps(props, e) }),
                    5 => v5::Packet::PubRec(v5::PubRec { pkid: *pkid, reason: pubrec(*reason), properties: ps(props, e) }),
                    6 => v5::Packet::PubRel(v5::PubRel { pkid: *pkid, reason: pubrel(*reason), properties: ps(props, e) }),
                    _ => v5::Packet::PubComp(v5::PubComp { pkid: *pkid, reason: pubcomp(*reason), properties: ps(props, e) }),
                },
                M::Subscribe { pkid, filters, props } => v5::Packet::Subscribe(v5::Subscribe { pkid: *pkid, filters: filters.iter().map(v5_filter).collect(), properties: ps(props, e) }),
                M::SubAck { pkid, codes, props } => v5::Packet::SubAck(v5::SubAck { pkid: *pkid, return_codes: codes.iter().map(|c| v5_sub(*c)).collect(), properties: ps(props, e) }),
                M::Unsubscribe { pkid, filters, props } => v5::Packet::Unsubscribe(v5::Unsubscribe { pkid: *pkid, filters: filters.clone(), properties: ps(props, e) }),
                M::UnsubAck { pkid, codes, props } => v5::Packet::UnsubAck(v5::UnsubAck { pkid: *pkid, reasons: codes.iter().map(|c| unsuback(*c)).collect(), properties: ps(props, e) }),
                M::PingReq => v5::Packet::PingReq,
                M::PingResp => v5::Packet::PingResp,
                M::Disconnect { reason, props } => v5::Packet::Disconnect(v5::Disconnect { reason_code: disc(*reason), properties: ps(props, e) }),
            })
        }
    }

    pub fn model(&self) -> M {
        match self {
            Pk::V4(p) => match p {
                v4::Packet::Connect(c) => M::Connect {
                    level: level(c.protocol),
                    keep_alive: c.keep_alive,
                    client_id: c.client_id.clone(),
                    clean: c.clean_session,
                    will: c.last_will.as_ref().map(|w| Will { topic: w.topic.clone(), message: w.message.to_vec(), qos: qn(w.qos), retain: w.retain, props: vec![] }),
                    login: c.login.as_ref().map(|l| (l.username.clone(), l.password.clone())),
                    props: vec![],
                },
                v4::Packet::ConnAck(c) => M::ConnAck { sp: c.session_present, code: v4_conn_n(&c.code), props: vec![] },
                v4::Packet::Publish(p) => M::Publish { dup: p.dup, qos: qn(p.qos), retain: p.retain, topic: p.topic.clone(), pkid: p.pkid, props: vec![], payload: p.payload.to_vec() },
                v4::Packet::PubAck(a) => M::Ack { kind: 4, pkid: a.pkid, reason: 0, props: vec![] },
                v4::Packet::PubRec(a) => M::Ack { kind: 5, pkid: a.pkid, reason: 0, props: vec![] },
                v4::Packet::PubRel(a) => M::Ack { kind: 6, pkid: a.pkid, reason: 0, props: vec![] },
                v4::Packet::PubComp(a) => M::Ack { kind: 7, pkid: a.pkid, reason: 0, props: vec![] },
                v4::Packet::Subscribe(s) => M::Subscribe {
                    pkid: s.pkid,
                    filters: s.filters.iter().map(|f| Filter { path: f.path.clone(), qos: qn(f.qos), nolocal: false, rap: false, rule: 0 }).collect(),
                    props: vec![],
                },
                v4::Packet::SubAck(s) => M::SubAck { pkid: s.pkid, codes: s.return_codes.iter().map(v4_sub_n).collect(), props: vec![] },
                v4::Packet::Unsubscribe(u) => M::Unsubscribe { pkid: u.pkid, filters: u.topics.clone(), props: vec![] },
                v4::Packet::UnsubAck(u) => M::UnsubAck { pkid: u.pkid, codes: vec![], props: vec![] },
                v4::Packet::PingReq => M::PingReq,
                v4::Packet::PingResp => M::PingResp,
                v4::Packet::Disconnect => M::Disconnect { reason: 0, props: vec![] },
            },
            Pk::V5(p) => match p {
                v5::Packet::Connect(c) => M::Connect {
                    level: level(c.protocol),
                    keep_alive: c.keep_alive,
                    client_id: c.client_id.clone(),
                    clean: c.clean_session,
                    will: c.last_will.as_ref().map(|w| Will { topic: w.topic.clone(), message: w.message.to_vec(), qos: qn(w.qos), retain: w.retain, props: pm(&w.properties) }),
                    login: c.login.as_ref().map(|l| (l.username.clone(), l.password.clone())),
                    props: pm(&c.properties),
                },
                v5::Packet::ConnAck(c) => M::ConnAck { sp: c.session_present, code: v5_conn_n(&c.code), props: pm(&c.properties) },
                v5::Packet::Publish(p) => {
                    M::Publish { dup: p.dup, qos: qn(p.qos), retain: p.retain, topic: p.topic.clone(), pkid: p.pkid, props: pm(&p.properties), payload: p.payload.to_vec() }
                }
                v5::Packet::PubAck(a) => M::Ack { kind: 4, pkid: a.pkid, reason: puback_n(&a.reason), props: pm(&a.properties) },
                v5::Packet::PubRec(a) => M::Ack { kind: 5, pkid: a.pkid, reason: pubrec_n(&a.reason), props: pm(&a.properties) },
                v5::Packet::PubRel(a) => M::Ack { kind: 6, pkid: a.pkid, reason: pubrel_n(&a.reason), props: pm(&a.properties) },
                v5::Packet::PubComp(a) => M::Ack { kind: 7, pkid: a.pkid, reason: pubcomp_n(&a.reason), props: pm(&a.properties) },
                v5::Packet::Subscribe(s) => M::Subscribe { pkid: s.pkid, filters: s.filters.iter().map(v5_filter_m).collect(), props: pm(&s.properties) },
                v5::Packet::SubAck(s) => M::SubAck { pkid: s.pkid, codes: s.return_codes.iter().map(v5_sub_n).collect(), props: pm(&s.properties) },
                v5::Packet::Unsubscribe(u) => M::Unsubscribe { pkid: u.pkid, filters: u.filters.clone(), props: pm(&u.properties) },
                v5::Packet::UnsubAck(u) => M::UnsubAck { pkid: u.pkid, codes: u.reasons.iter().map(unsuback_n).collect(), props: pm(&u.properties) },
                v5::Packet::PingReq => M::PingReq,
                v5::Packet::PingResp => M::PingResp,
                v5::Packet::Disconnect(d) => M::Disconnect { reason: disc_n(&d.reason_code), props: pm(&d.properties) },
            },
        }
    }

    pub fn write(&self, buf: &mut BytesMut) -> Result<usize, Error> {
        op();
        match self {
            Pk::V4(p) => match p {
                v4::Packet::Connect(x) => x.write(buf),
                v4::Packet::ConnAck(x) => x.write(buf),
                v4::Packet::Publish(x) => x.write(buf),
                v4::Packet::PubAck(x) => x.write(buf),
                v4::Packet::PubRec(x) => x.write(buf),
                v4::Packet::PubRel(x) => x.write(buf),
                v4::Packet::PubComp(x) => x.write(buf),
                v4::Packet::Subscribe(x) => x.write(buf),
                v4::Packet::SubAck(x) => x.write(buf),
                v4::Packet::Unsubscribe(x) => x.write(buf),
                v4::Packet::UnsubAck(x) => x.write(buf),
                v4::Packet::PingReq => v4::PingReq.write(buf),
                v4::Packet::PingResp => v4::PingResp.write(buf),
                v4::Packet::Disconnect => v4::Disconnect.write(buf),
            },
            Pk::V5(p) => match p {
                v5::Packet::Connect(x) => x.write(buf),
                v5::Packet::ConnAck(x) => x.write(buf),
                v5::Packet::Publish(x) => x.write(buf),
                v5::Packet::PubAck(x) => x.write(buf),
                v5::Packet::PubRec(x) => x.write(buf),
                v5::Packet::PubRel(x) => x.write(buf),
                v5::Packet::PubComp(x) => x.write(buf),
                v5::Packet::Subscribe(x) => x.write(buf),
                v5::Packet::SubAck(x) => x.write(buf),
                v5::Packet::Unsubscribe(x) => x.write(buf),
                v5::Packet::UnsubAck(x) => x.write(buf),
                v5::Packet::PingReq => v5::PingReq.write(buf),
                v5::Packet::PingResp => v5::PingResp.write(buf),
                v5::Packet::Disconnect(x) => x.write(buf),
            },
        }
    }

    /// The packet's own statement of its remaining length, where it offers one.
    pub fn size_query(&self) -> Option<usize> {
        Some(match self {
            Pk::V4(p) => match p {
                v4::Packet::Connect(x) => x.len(),
                v4::Packet::Publish(x) => x.len(),
                v4::Packet::Subscribe(x) => x.len(),
                v4::Packet::SubAck(x) => x.len(),
                _ => return None,
            },
            Pk::V5(p) => match p {
                v5::Packet::Connect(x) => x.len(),
                v5::Packet::Publish(x) => x.len(),
                v5::Packet::Subscribe(x) => x.len(),
                v5::Packet::SubAck(x) => x.len(),
                v5::Packet::Unsubscribe(x) => x.len(),
                v5::Packet::UnsubAck(x) => x.len(),
                _ => return None,
            },
        })
    }

    /// The property set's own statement of its size, where it offers one and the set is present.
    pub fn props_size_query(&self) -> Option<usize> {
        match self {
            Pk::V5(p) => match p {
                v5::Packet::ConnAck(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubAck(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubRec(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubRel(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubComp(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::Subscribe(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::SubAck(x) => x.properties.as_ref().map(|p| p.len()),
                v5::Packet::UnsubAck(x) => x.properties.as_ref().map(|p| p.len()),
                _ => None,
            },
            _ => None,
        }
    }
    /// (size stated, path length) of every filter.
    pub fn filter_sizes(&self) -> Vec<(usize, usize)> {
        match self {
            Pk::V4(v4::Packet::Subscribe(s)) => s.filters.iter().map(|f| (f.len(), f.path.len())).collect(),
            Pk::V5(v5::Packet::Subscribe(s)) => s.filters.iter().map(|f| (f.len(), f.path.len())).collect(),
            _ => vec![],
        }
    }
}

/// Stand-alone decoding of a property section: result and bytes left, where offered.
pub fn extract(ctx: u8, b: &[u8]) -> Option<(Result<Props, Error>, Vec<u8>)> {
    op();
    last(b);
    let mut bytes = Bytes::copy_from_slice(b);
    macro_rules! x {
        ($t:ident) => {{
            let r = v5::$t::extract(&mut bytes).map(|p| pm(&p));
            Some((r, bytes.to_vec()))
        }};
    }
    match ctx {
        2 => x!(ConnAckProperties),
        4 => x!(PubAckProperties),
        5 => x!(PubRecProperties),
        6 => x!(PubRelProperties),
        7 => x!(PubCompProperties),
        8 => x!(SubscribeProperties),
        9 => x!(SubAckProperties),
        11 => x!(UnsubAckProperties),
        14 => x!(DisconnectProperties),
        _ => None,
    }
}
pub const EXTRACT_CTX: [u8; 9] = [2, 4, 5, 6, 7, 8, 9, 11, 14];
