//! One module per group of properties; `explorations` gives what a property's check explores.
use crate::explore::Exploration;

mod builders;
mod decode;
mod encode;
mod framing;
mod sessions;
pub mod topics;
mod values;

pub const IDS: [&str; 32] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
    "C29", "C30", "C31", "C32",
];

pub fn explorations(id: &str, th: bool) -> Option<Vec<Exploration>> {
    // where the deep exploration takes seconds, it is the quick one as well
    let th = th || matches!(id, "C09" | "C11" | "C16" | "C26" | "C27" | "C30");
    Some(match id {
        "C01" => framing::c01(th),
        "C02" => framing::c02(th),
        "C03" => framing::c03(th),
        "C04" => decode::c04(th),
        "C05" => encode::c05(th),
        "C06" => encode::c06(th),
        "C07" => encode::c07(th),
        "C08" => encode::c08(th),
        "C09" => decode::c09(th),
        "C10" => decode::c10(th),
        "C11" => decode::c11(th),
        "C12" => encode::c12(th),
        "C13" => encode::c13(th),
        "C14" => framing::c14(th),
        "C15" => encode::c15(th),
        "C16" => decode::c16(th),
        "C17" => decode::c17(th),
        "C18" => topics::c18(th),
        "C19" => topics::c19(th),
        "C20" => topics::c20(th),
        "C21" => sessions::c21(th),
        "C22" => encode::c22(th),
        "C23" => decode::c23(th),
        "C24" => builders::c24(th),
        "C25" => framing::c25(th),
        "C26" => encode::c26(th),
        "C27" => decode::c27(th),
        "C28" => encode::c28(th),
        "C29" => framing::c29(th),
        "C30" => decode::c30(th),
        "C31" => values::c31(th),
        "C32" => values::c32(th),
        _ => return None,
    })
}

const COMMON: &[&str] = &[
    "The reference model (harness/src/model) states MQTT 3.1.1 and MQTT 5 correctly; it shares no code with the crate.",
    "The crate is built with overflow and debug assertions on and optimised; behaviour is taken to be the same in other build profiles except for overflow checks.",
    "Values outside the enumerated domains and bounds stated per exploration are not covered.",
];

pub fn assumptions(id: &str) -> Vec<String> {
    let mut v: Vec<String> = COMMON.iter().map(|s| s.to_string()).collect();
    match id {
        "C02" => v.push("A receiver stops reading for good after a malformed length field or an over-limit size, as both leave the buffer as it is.".into()),
        "C23" => v.push("Allocation is what the global allocator is asked for by the calling thread; the multiple is 128 and the constant 4096 bytes.".into()),
        "C21" => v.push("Hidden state would show within the explored histories, or after 70000 repetitions of one call.".into()),
        _ => {}
    }
    v
}
