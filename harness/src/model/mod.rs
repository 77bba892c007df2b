//! Reference model of MQTT 3.1.1 and MQTT 5 packets, written from the OASIS texts.
//! Shares no code with the crate under test.
pub mod dec;
pub mod enc;
pub mod spec;
pub mod topic;

/// Value of one MQTT 5 property.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PV {
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u64),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}
pub type Props = Vec<(u8, PV)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Will {
    pub topic: String,
    pub message: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Filter {
    pub path: String,
    pub qos: u8,
    pub nolocal: bool,
    pub rap: bool,
    pub rule: u8,
}

/// A packet value. MQTT 3.1.1 packets use the same shapes with empty `props`, reason 0.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum M {
    Connect {
        level: u8,
        keep_alive: u16,
        client_id: String,
        clean: bool,
        will: Option<Will>,
        /// (user name, password); empty = absent
        login: Option<(String, String)>,
        props: Props,
    },
    ConnAck { sp: bool, code: u8, props: Props },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pkid: u16, props: Props, payload: Vec<u8> },
    /// kind: 4 PubAck, 5 PubRec, 6 PubRel, 7 PubComp
    Ack { kind: u8, pkid: u16, reason: u8, props: Props },
    Subscribe { pkid: u16, filters: Vec<Filter>, props: Props },
    SubAck { pkid: u16, codes: Vec<u8>, props: Props },
    Unsubscribe { pkid: u16, filters: Vec<String>, props: Props },
    UnsubAck { pkid: u16, codes: Vec<u8>, props: Props },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
}

fn sort_props(p: &mut Props) {
    p.sort_by_key(|(id, _)| *id); // stable: repeatable properties keep their order
}

impl M {
    pub fn ptype(&self) -> u8 {
        match self {
            M::Connect { .. } => 1,
            M::ConnAck { .. } => 2,
            M::Publish { .. } => 3,
            M::Ack { kind, .. } => *kind,
            M::Subscribe { .. } => 8,
            M::SubAck { .. } => 9,
            M::Unsubscribe { .. } => 10,
            M::UnsubAck { .. } => 11,
            M::PingReq => 12,
            M::PingResp => 13,
            M::Disconnect { .. } => 14,
        }
    }

    pub fn name(&self) -> &'static str {
        spec::type_name(self.ptype())
    }

    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            M::Connect { props, .. }
            | M::ConnAck { props, .. }
            | M::Publish { props, .. }
            | M::Ack { props, .. }
            | M::Subscribe { props, .. }
            | M::SubAck { props, .. }
            | M::Unsubscribe { props, .. }
            | M::UnsubAck { props, .. }
            | M::Disconnect { props, .. } => Some(props),
            _ => None,
        }
    }

    /// The value modulo the differences the properties permit: property order (kept among
    /// repetitions), empty login parts, the id of a QoS 0 publish, properties and level-4.
    pub fn norm(&self) -> M {
        let mut m = self.clone();
        m.norm_mut();
        m
    }

    pub fn norm_mut(&mut self) {
        if let Some(p) = self.props_mut() {
            sort_props(p);
        }
        match self {
            M::Connect { level, will, login, props, .. } => {
                if let Some(w) = will {
                    sort_props(&mut w.props);
                }
                if let Some((u, p)) = login {
                    if u.is_empty() && p.is_empty() {
                        *login = None;
                    }
                }
                if *level == 4 {
                    props.clear();
                    if let Some(w) = will {
                        w.props.clear();
                    }
                }
            }
            M::Publish { qos, pkid, .. } => {
                if *qos == 0 {
                    *pkid = 0;
                }
            }
            _ => {}
        }
    }
}

/// Mutable view of a text or binary field.
pub enum Txt<'a> {
    S(&'a mut String),
    B(&'a mut Vec<u8>),
}
impl<'a> Txt<'a> {
    pub fn set_len(&mut self, n: usize) {
        match self {
            Txt::S(s) => **s = std::iter::repeat('x').take(n).collect(),
            Txt::B(b) => **b = (0..n).map(|i| (i * 7 + 3) as u8).collect(),
        }
    }
}

fn prop_texts<'a>(props: &'a mut Props, out: &mut Vec<(String, Txt<'a>)>, pre: &str) {
    for (id, v) in props.iter_mut() {
        match v {
            PV::Str(s) => out.push((format!("{pre}prop{id}"), Txt::S(s))),
            PV::Bin(b) => out.push((format!("{pre}prop{id}"), Txt::B(b))),
            PV::Pair(k, v) => {
                out.push((format!("{pre}prop{id}.key"), Txt::S(k)));
                out.push((format!("{pre}prop{id}.value"), Txt::S(v)));
            }
            _ => {}
        }
    }
}

/// All length-prefixed text/binary fields (the publish payload, which has no length prefix, is
/// included only when `payload` is set).
pub fn texts<'a>(m: &'a mut M, payload_too: bool) -> Vec<(String, Txt<'a>)> {
    let mut out = Vec::new();
    match m {
        M::Connect { client_id, will, login, props, .. } => {
            out.push(("client_id".into(), Txt::S(client_id)));
            prop_texts(props, &mut out, "");
            if let Some(w) = will {
                prop_texts(&mut w.props, &mut out, "will.");
                out.push(("will.topic".into(), Txt::S(&mut w.topic)));
                out.push(("will.message".into(), Txt::B(&mut w.message)));
            }
            if let Some((u, p)) = login {
                out.push(("username".into(), Txt::S(u)));
                out.push(("password".into(), Txt::S(p)));
            }
        }
        M::Publish { topic, props, payload, .. } => {
            out.push(("topic".into(), Txt::S(topic)));
            prop_texts(props, &mut out, "");
            if payload_too {
                out.push(("payload".into(), Txt::B(payload)));
            }
        }
        M::Subscribe { filters, props, .. } => {
            prop_texts(props, &mut out, "");
            for (i, f) in filters.iter_mut().enumerate() {
                out.push((format!("filter{i}"), Txt::S(&mut f.path)));
            }
        }
        M::Unsubscribe { filters, props, .. } => {
            prop_texts(props, &mut out, "");
            for (i, f) in filters.iter_mut().enumerate() {
                out.push((format!("filter{i}"), Txt::S(f)));
            }
        }
        M::ConnAck { props, .. } | M::Ack { props, .. } | M::SubAck { props, .. } | M::UnsubAck { props, .. } | M::Disconnect { props, .. } => {
            prop_texts(props, &mut out, "");
        }
        M::PingReq | M::PingResp => {}
    }
    out
}

/// Mutable view of an integer field.
pub enum Num<'a> {
    U8(&'a mut u8),
    U16(&'a mut u16),
    U32(&'a mut u32),
}
impl<'a> Num<'a> {
    pub fn set(&mut self, v: u32) {
        match self {
            Num::U8(x) => **x = v as u8,
            Num::U16(x) => **x = v as u16,
            Num::U32(x) => **x = v,
        }
    }
}
fn prop_nums<'a>(props: &'a mut Props, out: &mut Vec<(String, Num<'a>)>, pre: &str) {
    for (id, v) in props.iter_mut() {
        match v {
            PV::U8(x) => out.push((format!("{pre}prop{id}"), Num::U8(x))),
            PV::U16(x) => out.push((format!("{pre}prop{id}"), Num::U16(x))),
            PV::U32(x) => out.push((format!("{pre}prop{id}"), Num::U32(x))),
            _ => {}
        }
    }
}
/// All integer fields that may hold any value (not codes).
pub fn nums<'a>(m: &'a mut M) -> Vec<(String, Num<'a>)> {
    let mut out = Vec::new();
    match m {
        M::Connect { keep_alive, will, props, .. } => {
            out.push(("keep_alive".into(), Num::U16(keep_alive)));
            prop_nums(props, &mut out, "");
            if let Some(w) = will {
                prop_nums(&mut w.props, &mut out, "will.");
            }
        }
        M::Publish { pkid, props, .. } | M::Ack { pkid, props, .. } | M::Subscribe { pkid, props, .. } | M::SubAck { pkid, props, .. } | M::Unsubscribe { pkid, props, .. } | M::UnsubAck { pkid, props, .. } => {
            out.push(("pkid".into(), Num::U16(pkid)));
            prop_nums(props, &mut out, "");
        }
        M::ConnAck { props, .. } | M::Disconnect { props, .. } => prop_nums(props, &mut out, ""),
        M::PingReq | M::PingResp => {}
    }
    out
}
