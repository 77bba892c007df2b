// MQTT 5 property structs to and from model properties (one arm per field).
use super::*;

impl PropSet for v5::ConnectProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = self.session_expiry_interval { p.push((17, PV::U32(x))); }
        if let Some(x) = self.receive_maximum { p.push((33, PV::U16(x))); }
        if let Some(x) = self.max_packet_size { p.push((39, PV::U32(x))); }
        if let Some(x) = self.topic_alias_max { p.push((34, PV::U16(x))); }
        if let Some(x) = self.request_response_info { p.push((25, PV::U8(x))); }
        if let Some(x) = self.request_problem_info { p.push((23, PV::U8(x))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        if let Some(x) = &self.authentication_method { p.push((21, PV::Str(x.clone()))); }
        if let Some(x) = &self.authentication_data { p.push((22, PV::Bin(x.to_vec()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::ConnectProperties {
            session_expiry_interval: None,
            receive_maximum: None,
            max_packet_size: None,
            topic_alias_max: None,
            request_response_info: None,
            request_problem_info: None,
            user_properties: Vec::new(),
            authentication_method: None,
            authentication_data: None,
        };
        for (id, v) in p {
            match (*id, v) {
                (17, PV::U32(x)) => s.session_expiry_interval = Some(*x),
                (33, PV::U16(x)) => s.receive_maximum = Some(*x),
                (39, PV::U32(x)) => s.max_packet_size = Some(*x),
                (34, PV::U16(x)) => s.topic_alias_max = Some(*x),
                (25, PV::U8(x)) => s.request_response_info = Some(*x),
                (23, PV::U8(x)) => s.request_problem_info = Some(*x),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                (21, PV::Str(x)) => s.authentication_method = Some(x.clone()),
                (22, PV::Bin(x)) => s.authentication_data = Some(Bytes::from(x.clone())),
                _ => panic!("HARNESS: property {id} not in ConnectProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::WillProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = self.delay_interval { p.push((24, PV::U32(x))); }
        if let Some(x) = self.payload_format_indicator { p.push((1, PV::U8(x))); }
        if let Some(x) = self.message_expiry_interval { p.push((2, PV::U32(x))); }
        if let Some(x) = &self.content_type { p.push((3, PV::Str(x.clone()))); }
        if let Some(x) = &self.response_topic { p.push((8, PV::Str(x.clone()))); }
        if let Some(x) = &self.correlation_data { p.push((9, PV::Bin(x.to_vec()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::WillProperties {
            delay_interval: None,
            payload_format_indicator: None,
            message_expiry_interval: None,
            content_type: None,
            response_topic: None,
            correlation_data: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (24, PV::U32(x)) => s.delay_interval = Some(*x),
                (1, PV::U8(x)) => s.payload_format_indicator = Some(*x),
                (2, PV::U32(x)) => s.message_expiry_interval = Some(*x),
                (3, PV::Str(x)) => s.content_type = Some(x.clone()),
                (8, PV::Str(x)) => s.response_topic = Some(x.clone()),
                (9, PV::Bin(x)) => s.correlation_data = Some(Bytes::from(x.clone())),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in WillProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::ConnAckProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = self.session_expiry_interval { p.push((17, PV::U32(x))); }
        if let Some(x) = self.receive_max { p.push((33, PV::U16(x))); }
        if let Some(x) = self.max_qos { p.push((36, PV::U8(x))); }
        if let Some(x) = self.retain_available { p.push((37, PV::U8(x))); }
        if let Some(x) = self.max_packet_size { p.push((39, PV::U32(x))); }
        if let Some(x) = &self.assigned_client_identifier { p.push((18, PV::Str(x.clone()))); }
        if let Some(x) = self.topic_alias_max { p.push((34, PV::U16(x))); }
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        if let Some(x) = self.wildcard_subscription_available { p.push((40, PV::U8(x))); }
        if let Some(x) = self.subscription_identifiers_available { p.push((41, PV::U8(x))); }
        if let Some(x) = self.shared_subscription_available { p.push((42, PV::U8(x))); }
        if let Some(x) = self.server_keep_alive { p.push((19, PV::U16(x))); }
        if let Some(x) = &self.response_information { p.push((26, PV::Str(x.clone()))); }
        if let Some(x) = &self.server_reference { p.push((28, PV::Str(x.clone()))); }
        if let Some(x) = &self.authentication_method { p.push((21, PV::Str(x.clone()))); }
        if let Some(x) = &self.authentication_data { p.push((22, PV::Bin(x.to_vec()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::ConnAckProperties {
            session_expiry_interval: None,
            receive_max: None,
            max_qos: None,
            retain_available: None,
            max_packet_size: None,
            assigned_client_identifier: None,
            topic_alias_max: None,
            reason_string: None,
            user_properties: Vec::new(),
            wildcard_subscription_available: None,
            subscription_identifiers_available: None,
            shared_subscription_available: None,
            server_keep_alive: None,
            response_information: None,
            server_reference: None,
            authentication_method: None,
            authentication_data: None,
        };
        for (id, v) in p {
            match (*id, v) {
                (17, PV::U32(x)) => s.session_expiry_interval = Some(*x),
                (33, PV::U16(x)) => s.receive_max = Some(*x),
                (36, PV::U8(x)) => s.max_qos = Some(*x),
                (37, PV::U8(x)) => s.retain_available = Some(*x),
                (39, PV::U32(x)) => s.max_packet_size = Some(*x),
                (18, PV::Str(x)) => s.assigned_client_identifier = Some(x.clone()),
                (34, PV::U16(x)) => s.topic_alias_max = Some(*x),
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                (40, PV::U8(x)) => s.wildcard_subscription_available = Some(*x),
                (41, PV::U8(x)) => s.subscription_identifiers_available = Some(*x),
                (42, PV::U8(x)) => s.shared_subscription_available = Some(*x),
                (19, PV::U16(x)) => s.server_keep_alive = Some(*x),
                (26, PV::Str(x)) => s.response_information = Some(x.clone()),
                (28, PV::Str(x)) => s.server_reference = Some(x.clone()),
                (21, PV::Str(x)) => s.authentication_method = Some(x.clone()),
                (22, PV::Bin(x)) => s.authentication_data = Some(Bytes::from(x.clone())),
                _ => panic!("HARNESS: property {id} not in ConnAckProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::PublishProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = self.payload_format_indicator { p.push((1, PV::U8(x))); }
        if let Some(x) = self.message_expiry_interval { p.push((2, PV::U32(x))); }
        if let Some(x) = self.topic_alias { p.push((35, PV::U16(x))); }
        if let Some(x) = &self.response_topic { p.push((8, PV::Str(x.clone()))); }
        if let Some(x) = &self.correlation_data { p.push((9, PV::Bin(x.to_vec()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        for x in &self.subscription_identifiers { p.push((11, PV::Var(*x as u64))); }
        if let Some(x) = &self.content_type { p.push((3, PV::Str(x.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::PublishProperties {
            payload_format_indicator: None,
            message_expiry_interval: None,
            topic_alias: None,
            response_topic: None,
            correlation_data: None,
            user_properties: Vec::new(),
            subscription_identifiers: Vec::new(),
            content_type: None,
        };
        for (id, v) in p {
            match (*id, v) {
                (1, PV::U8(x)) => s.payload_format_indicator = Some(*x),
                (2, PV::U32(x)) => s.message_expiry_interval = Some(*x),
                (35, PV::U16(x)) => s.topic_alias = Some(*x),
                (8, PV::Str(x)) => s.response_topic = Some(x.clone()),
                (9, PV::Bin(x)) => s.correlation_data = Some(Bytes::from(x.clone())),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                (11, PV::Var(x)) => s.subscription_identifiers.push(*x as usize),
                (3, PV::Str(x)) => s.content_type = Some(x.clone()),
                _ => panic!("HARNESS: property {id} not in PublishProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::SubscribeProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = self.id { p.push((11, PV::Var(x as u64))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::SubscribeProperties {
            id: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (11, PV::Var(x)) => s.id = Some(*x as usize),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in SubscribeProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::UnsubscribeProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::UnsubscribeProperties {
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in UnsubscribeProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::DisconnectProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = self.session_expiry_interval { p.push((17, PV::U32(x))); }
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        if let Some(x) = &self.server_reference { p.push((28, PV::Str(x.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::DisconnectProperties {
            session_expiry_interval: None,
            reason_string: None,
            user_properties: Vec::new(),
            server_reference: None,
        };
        for (id, v) in p {
            match (*id, v) {
                (17, PV::U32(x)) => s.session_expiry_interval = Some(*x),
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                (28, PV::Str(x)) => s.server_reference = Some(x.clone()),
                _ => panic!("HARNESS: property {id} not in DisconnectProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::PubAckProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::PubAckProperties {
            reason_string: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in PubAckProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::PubRecProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::PubRecProperties {
            reason_string: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in PubRecProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::PubRelProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::PubRelProperties {
            reason_string: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in PubRelProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::PubCompProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::PubCompProperties {
            reason_string: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in PubCompProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::SubAckProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::SubAckProperties {
            reason_string: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in SubAckProperties"),
            }
        }
        s
    }
}

impl PropSet for v5::UnsubAckProperties {
    fn to_model(&self) -> Props {
        let mut p: Props = vec![];
        if let Some(x) = &self.reason_string { p.push((31, PV::Str(x.clone()))); }
        for (k, v) in &self.user_properties { p.push((38, PV::Pair(k.clone(), v.clone()))); }
        p
    }
    fn from_model(p: &Props) -> Self {
        let mut s = v5::UnsubAckProperties {
            reason_string: None,
            user_properties: Vec::new(),
        };
        for (id, v) in p {
            match (*id, v) {
                (31, PV::Str(x)) => s.reason_string = Some(x.clone()),
                (38, PV::Pair(k, v)) => s.user_properties.push((k.clone(), v.clone())),
                _ => panic!("HARNESS: property {id} not in UnsubAckProperties"),
            }
        }
        s
    }
}
