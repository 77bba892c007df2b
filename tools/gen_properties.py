#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single source of the property texts."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
V4 = ["src/v4/%s.rs" % f for f in "mod connect connack publish puback pubrec pubrel pubcomp subscribe suback unsubscribe unsuback ping disconnect".split()]
V5 = [f.replace("v4", "v5") for f in V4]
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

READ = ("v4::read / v5::read: check, then split_to(frame_length), then dispatch", "src/v4/mod.rs, src/v5/mod.rs")
CHECK = ("check / parse_fixed_header / length", "src/lib.rs")

p("C01", "Each read removes exactly one whole frame from the buffer, or nothing",
  "For every buffer content, size limit and protocol version, a read call either removes exactly the first frame (fixed header plus declared remaining length) from the front of the buffer, whether or not the frame's type and content turn out acceptable, or leaves the buffer byte-for-byte as it was. Nothing is removed exactly when the first frame is not complete yet, when its remaining-length field is malformed, or when its declared remaining length exceeds the limit. The bytes behind a removed frame stay intact and in order.",
  ["inputs"], "every buffer prefix, complete or partial, valid or not, followed by any bytes, under any size limit",
  "Tests parse one well-formed frame each and never look at the buffer afterwards; none covers a rejected frame, an over-limit frame or bytes behind the frame.",
  ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [READ, CHECK], ["v4::read", "v5::read"])
p("C02", "The decoded packet sequence does not depend on how the stream is cut",
  "For every sequence of frames sent over a byte stream and every way the stream is split into arrivals, a receiver that appends each arrival to its buffer and reads until more bytes are asked for obtains the same packets and rejections in the same order as one that reads the whole stream at once. No frame is lost, duplicated, reordered or merged, whether or not frames before it were rejected.",
  ["histories", "inputs"], "every sequence of up to three frames from a menu of valid and invalid ones, every segmentation of its bytes, every interleaving of arrivals and reads",
  "The only streaming test (tests/smoke.rs) is commented out and would sample random cut points of one packet type.",
  ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [READ, CHECK], ["v4::read", "v5::read"],
  [{"name": "stream", "meaning": "the caller's receive buffer; the only state carried between calls", "where": "read(stream, ..)"}])
p("C03", "Need-more-bytes is reported only for incomplete frames, with a true count",
  "Reading, or checking the header, reports insufficient bytes if and only if the buffer holds a proper prefix of a frame (including the empty prefix) whose length field is so far well-formed and, once known, within the size limit; a complete frame is never answered that way, whatever its content. The reported count is at least one and never more than the number of bytes really missing, and it is exactly the number missing once the length field is complete.",
  ["inputs"], "every prefix of every frame, every length-field encoding, every limit; every complete frame with arbitrary content",
  "No test feeds an incomplete frame; no test decodes malformed content to see which kind of error it yields.",
  ["src/lib.rs", "src/v5/mod.rs"], [CHECK, ("InsufficientBytes(n) from parse_fixed_header/length/check", "src/lib.rs")], ["check", "v4::read", "v5::read"])
p("C04", "Decoding never panics, aborts or hangs on any bytes",
  "For every byte string in the buffer, every size limit and both protocol versions, reading returns a packet or an error: it never panics (including arithmetic overflow), aborts, overflows the stack or fails to return. The same holds for decoding a stand-alone property section from arbitrary bytes.",
  ["inputs"], "all byte strings up to a bound over sharp alphabets for every packet type, and every corruption of valid frames",
  "Tests decode about thirty hand-written well-formed frames.",
  ["src/lib.rs"] + V4 + V5, [("bounds-checked read_u8/read_u16/read_u32/read_mqtt_bytes", "src/lib.rs"), READ], ["v4::read", "v5::read", "v5 *Properties::extract"])
p("C05", "MQTT 3.1.1 packets survive an encode/decode round trip",
  "For every MQTT 3.1.1 packet value whose parts can be encoded (strings and binary fields up to 65535 bytes, non-zero packet id where QoS is above 0, at least one entry in Subscribe and SubAck lists, protocol level 4), writing it and reading the bytes back yields an equal packet and consumes everything written. The only permitted differences are that an empty user name or password counts as absent (a login with both empty counts as no login), and that a QoS 0 publish carries no packet id.",
  ["inputs"], "all packet values within k deviations from a default, all integer field values, lists and lengths across every encoding boundary",
  "Tests encode or decode single fixed values of a few packet types and never compose the two; six packet types have no test at all.",
  V4 + ["src/lib.rs"], [("write/read pairs of each packet", "src/v4/*.rs")], ["v4::read", "v4 *::write"])
p("C06", "MQTT 5 packets survive an encode/decode round trip",
  "For every MQTT 5 packet value whose parts can be encoded (strings and binary fields up to 65535 bytes, subscription identifiers up to 268435455, non-zero packet id where QoS is above 0, at least one reason code in SubAck and UnsubAck), with any combination of properties and any reason code, writing it and reading the bytes back yields an equal packet and consumes everything written. The only permitted differences are those of empty login parts and QoS 0 packet ids, and that an empty property set equals an absent one.",
  ["inputs"], "all packet values within k deviations, all subsets of optional properties per packet type, all reason codes, boundary lengths",
  "Tests use one or two fixed property combinations per packet type; the property presence lattice alone has over 200000 points.",
  V5 + ["src/lib.rs"], [("write/read pairs and *Properties::{len,read,extract,write}", "src/v5/*.rs")], ["v5::read", "v5 *::write"])
p("C07", "MQTT 3.1.1 encodings are exactly the wire format of the specification",
  "For every encodable MQTT 3.1.1 packet value, the bytes written are one frame that an independent strict decoder of the MQTT 3.1.1 wire format accepts and maps to the same value: correct type and reserved flag bits, minimal remaining length equal to the body size, big-endian integers, exact length prefixes, correct flag bits and no surplus bytes.",
  ["inputs"], "all packet values within k deviations from a default, every integer field value, every length boundary",
  "Five fixed encodings are compared byte for byte; round-trip tests cannot see a symmetric error in encoder and decoder.",
  V4 + ["src/lib.rs"], [("*::write, write_mqtt_bytes, write_remaining_length", "src/v4/*.rs, src/lib.rs")], ["v4 *::write"])
p("C08", "MQTT 5 encodings are exactly the wire format of the specification",
  "For every encodable MQTT 5 packet value, the bytes written are one frame that an independent strict decoder of the MQTT 5 wire format accepts and maps to the same value: correct type and reserved flag bits, minimal length fields equal to what they measure, a property section wherever the specification requires one, each property under its specified identifier and type, specified reason code bytes, and no surplus bytes.",
  ["inputs"], "all packet values within k deviations, all property subsets, all reason codes, every integer field value, every length boundary",
  "Fixed sample packets only; packets without properties, without reason, or with lengths near 128/16384/65535/2097152 are not encoded by any test.",
  V5 + ["src/lib.rs"], [("*::write, *Properties::write, len_len", "src/v5/*.rs, src/lib.rs")], ["v5 *::write"])
p("C09", "The 3.1.1 decoder accepts well-formed frames exactly and rejects bad ones",
  "Every frame that is well-formed under MQTT 3.1.1 decodes to exactly the values it spells, in every field. Every frame of packet type 0 or 15, truncated within its mandatory content, with a length prefix reaching past the frame, a non-UTF-8 string, a wrong protocol name or level, QoS 3, will bits without a will, an invalid return code, a QoS above 0 publish with packet id 0, an empty Subscribe or SubAck list, or an UnsubAck body not of two bytes is rejected with an error. Frames that break only other rules (reserved bits, trailing bytes, empty or wildcard topics) are either rejected or decoded to the values they spell.",
  ["inputs"], "all frames reachable from the reference grammar, all single-byte and selected double corruptions, truncations and extensions, all short bodies over sharp alphabets",
  "Tests decode about ten well-formed frames and no malformed one.",
  V4 + ["src/lib.rs"], [("*::read, read_mqtt_string, qos, connect_return, LastWill::read, Login::read", "src/v4/*.rs, src/lib.rs")], ["v4::read"])
p("C10", "The MQTT 5 decoder accepts well-formed frames exactly and rejects bad ones",
  "Every frame of a supported packet type that is well-formed under MQTT 5 decodes to exactly the values it spells, in every field, including shortened forms (acknowledgements without reason or properties, Disconnect without reason or without properties). Every frame of packet type 0 or 15, truncated within its mandatory content, with a length prefix or property section reaching past its container, a non-UTF-8 string, an unknown property or one not allowed in that packet, an invalid reason code, QoS 3, retain rule 3, wrong protocol name or level, will bits without a will, a QoS above 0 publish with packet id 0, or an empty SubAck or UnsubAck list is rejected. Frames that break only other rules (reserved bits, trailing bytes, repeated or out-of-range properties) are either rejected or decoded to the values they spell.",
  ["inputs"], "all frames reachable from the reference grammar, all single-byte and selected double corruptions, truncations and extensions, all short bodies over sharp alphabets",
  "Tests decode about twenty well-formed frames, always with full property sets in one order, and no malformed one.",
  V5 + ["src/lib.rs"], [("*::read, *Properties::{read,extract}, property, reason tables", "src/v5/*.rs, src/lib.rs")], ["v5::read"])
p("C11", "Every coded byte maps one-to-one to its meaning; undefined codes are refused",
  "For every coded field (packet type, protocol level, QoS, will QoS, 3.1.1 connect return code, MQTT 5 reason codes of every acknowledgement and Disconnect, subscription return codes, retain handling, property identifiers per packet) and all 256 values it could hold, decoding yields the meaning the specification assigns to that value for that packet, or an error when it assigns none, and encoding that meaning produces the same value again.",
  ["inputs"], "all values of every coded field of every packet type in both versions",
  "Tests touch about fifteen of the several thousand (field, value) pairs.",
  ["src/lib.rs"] + V4 + V5, [("qos, connect_return, reason, TryFrom<u8>, property, packet_type", "src/lib.rs, src/v4/*.rs, src/v5/*.rs")], ["v4::read", "v5::read", "*::write"])
p("C12", "Writing appends exactly one frame and reports its true size",
  "For every packet and every prior content of the output buffer, a successful write leaves the prior bytes unchanged, appends exactly the bytes that the same packet produces in an empty buffer, and returns the number of bytes appended. Size queries offered by packets, filters and property sets equal the bytes they occupy on the wire: remaining length for packets, entry size for filters, section content for properties.",
  ["inputs", "histories"], "all packet values within k deviations, all prior buffers from a menu, all write sequences up to length three",
  "Encoding tests start from an empty buffer, write one packet and ignore the returned size.",
  ["src/lib.rs"] + V4 + V5, [("write / len of each packet", "src/v4/*.rs, src/v5/*.rs"), ("connect flags back-patching", "src/v4/connect.rs, src/v5/connect.rs")], ["*::write", "*::len"])
p("C13", "What cannot be encoded is refused and leaves the output buffer untouched",
  "A packet that has no valid encoding (a QoS 1 or 2 publish with packet id 0, a string or binary field over 65535 bytes, a subscription identifier or a remaining length over 268435455) is refused with an error instead of producing bytes. Whenever a write returns an error the output buffer holds exactly what it held before, so packets written before and after it stay decodable.",
  ["inputs", "histories"], "every field of every packet pushed just beyond and just within its limit, alone or with a second deviation, in every position of write sequences up to length three",
  "No test makes a write fail.",
  ["src/lib.rs"] + V4 + V5, [("write_remaining_length, write_mqtt_bytes, PacketIdZero check", "src/lib.rs, src/v4/publish.rs, src/v5/publish.rs")], ["*::write"])
p("C14", "The size limit is enforced on the declared length, before the body arrives",
  "For every frame and limit, a frame whose declared remaining length is greater than the limit is refused with an error naming that declared length as soon as its length field is complete, however much of the body has arrived, and a frame whose remaining length is at most the limit is never refused for its size. The limit never changes what an accepted frame decodes to.",
  ["inputs"], "all remaining lengths around every limit in a menu and every encoding boundary, all amounts of body present from none to complete, all packet types",
  "No test passes a limit at all.",
  ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [("check: remaining_len > max_packet_size", "src/lib.rs")], ["check", "v4::read", "v5::read"])
p("C15", "Variable-length integers are minimal, invertible and bounded to four bytes",
  "For every value from 0 to 268435455, wherever a variable-length integer is written (remaining length, property section length, subscription identifier) it takes the minimal one to four bytes the specification prescribes, low seven bits first, and reading it back yields the value; larger values are refused. A field whose first four bytes all have the continuation bit set is rejected as malformed, and a shorter unfinished one is treated as incomplete at frame level and as malformed inside a complete frame.",
  ["inputs"], "all 2^28 values through subscription identifiers and frame headers; all one- to five-byte length fields over boundary bytes at every place one occurs",
  "Tests only use one- and two-byte lengths (below 200).",
  ["src/lib.rs", "src/v5/publish.rs", "src/v5/subscribe.rs", "src/v5/mod.rs"], [("length, write_remaining_length, len_len", "src/lib.rs")], ["check", "v5::Subscribe::write", "v5::Publish::write", "v5::read"])
p("C16", "MQTT 5 property sections are read exactly to their declared end, in any order",
  "For every packet with properties, any order of the properties in the section and any number of repetitions of repeatable ones decodes to the same property values (repeatables in wire order), exactly the declared number of section bytes is consumed, and what follows is taken as the next part of the packet. A section in which the last property ends beyond the declared length, or whose declared length exceeds the bytes present, is rejected.",
  ["inputs"], "all permutations of all property subsets up to a size, all repetition counts up to a bound, every declared length from zero past the frame end",
  "Tests decode each property set in the one order the encoder emits, with an exact declared length.",
  V5, [("cursor loops of *Properties::{read,extract}", "src/v5/*.rs")], ["v5::read", "v5 *Properties::extract"])
p("C17", "Text fields are always valid UTF-8 and binary fields are byte-transparent",
  "For every text field of every packet in both versions, content that is not well-formed UTF-8 makes the frame rejected, and well-formed content is delivered unchanged (U+0000, which MQTT forbids, may be refused as well, but then everywhere). For every binary field (publish payload, will message, correlation data, authentication data), every byte content is accepted and delivered unchanged, and encoding either kind emits the content bytes unchanged.",
  ["inputs"], "all byte strings up to length two and all sharp strings up to length five in every text and binary field",
  "Tests use ASCII text only.",
  ["src/lib.rs"] + V4 + V5, [("read_mqtt_string, read_mqtt_bytes, write_mqtt_string", "src/lib.rs")], ["v4::read", "v5::read", "*::write"])
p("C18", "Topic-to-filter matching follows the specified level semantics",
  "For every topic without wildcards and every valid filter, the two match exactly when the topic's levels correspond one by one to the filter's levels, '+' standing for exactly one level (possibly empty) and a final '#' for any number of remaining levels including none; a topic beginning with '$' matches no filter at all. Level text is compared exactly, case-sensitively and over any Unicode characters, and the answer depends on nothing else.",
  ["inputs"], "all topic/filter pairs up to a length over a sharp alphabet, and deep or long structured topics",
  "About twenty ASCII pairs are tested.",
  ["src/topic.rs"], [("matches", "src/topic.rs")], ["matches"])
p("C19", "Filter and topic validity checks agree with the specification's wildcard rules",
  "A filter is valid exactly when it is not empty, every '#' is alone in its level and that level is the last, and every '+' is alone in its level; a topic name is valid exactly when it contains neither '+' nor '#'; a string has wildcards exactly when it contains '+' or '#'. Filter and topic checks and matching return an answer for every string, without panicking.",
  ["inputs"], "all strings up to a length over a sharp alphabet including multi-byte characters, and long structured ones",
  "Nine ASCII strings are tested.",
  ["src/topic.rs"], [("valid_filter, valid_topic, has_wildcards, matches", "src/topic.rs")], ["valid_filter", "valid_topic", "has_wildcards", "matches"])
p("C20", "Filter-to-filter matching is sound containment",
  "For all valid filters A and B, if A (used as a topic) matches B then every topic name that matches A also matches B. A matches B exactly when A does not begin with '$' and their levels correspond one by one: an ordinary level of A to the same level or a '+' of B, a '+' level of A only to a '+' of B, while a final '#' of B takes any number of remaining levels of A including none, and a final '#' of A is taken only by a '#' of B. Hence every valid filter that does not begin with '$' matches itself and '#'.",
  ["inputs"], "all filter pairs and topics up to a number of levels over a sharp level alphabet",
  "Five pairs are tested.",
  ["src/topic.rs"], [("matches", "src/topic.rs")], ["matches"])
p("C21", "The codec is stateless: results depend on the call's arguments only",
  "The result of every read, write, check and topic call depends only on its arguments: no earlier call, successful or failed, on the same or another connection's buffers changes a later result, for any interleaving of the calls of several connections. A call's only effects are its result and the buffer passed to it; nothing is printed and inputs passed by reference stay unchanged.",
  ["histories", "schedules"], "all call sequences up to a depth over a menu of reads and writes on two connections, including failing calls; repetition beyond 8- and 16-bit counts",
  "Each test makes one call on fresh values.",
  ["src/lib.rs"] + V4 + V5, [("pure functions over the caller's buffer", "src/lib.rs, src/v4/mod.rs, src/v5/mod.rs")], ["v4::read", "v5::read", "*::write", "matches"])
p("C22", "Whatever the decoder accepts can be re-encoded to the same packet",
  "For every frame the decoder accepts, well-formed or merely tolerated, writing the decoded packet succeeds and reading those bytes back yields the same packet again; encoding is thereby a canonical form that no longer changes. A broker can therefore forward any accepted packet without altering it. (A 3.1.1 decoder result that declares protocol level 5 is outside this guarantee.)",
  ["inputs"], "all accepted frames among grammar-generated frames, their corruptions and all short bodies",
  "No test composes decode and encode, and none decodes tolerated deviations.",
  V4 + V5 + ["src/lib.rs"], [("read / write of each packet", "src/v4/*.rs, src/v5/*.rs")], ["v4::read", "v5::read", "*::write"])
p("C23", "Decoding cost in memory is bounded by the bytes present, not by declared sizes",
  "For every buffer content, the memory allocated during a read or header check is at most a fixed multiple of the bytes of the frame actually present plus a constant, whatever lengths the bytes declare. While a frame is incomplete or over the limit, a read allocates nothing proportional to any declared length.",
  ["inputs"], "all header declarations with little or no body, all inner length corruptions, repeated-element frames up to large counts",
  "No test measures allocation.",
  ["src/lib.rs"] + V4 + V5, [("check before split; BoundaryCrossed before split_to; no pre-reservation", "src/lib.rs")], ["check", "v4::read", "v5::read"])
p("C24", "Constructors and builders produce exactly the packet that was asked for",
  "For every sequence of public constructor and builder calls (new, new_many, add, from_bytes, set_login, filter setters, property constructors), the resulting packet holds exactly the given values and otherwise the documented neutral defaults (packet id 0, no properties, no will, no login, clean session, keep-alive 10, protocol of its module), later calls overriding earlier ones and lists growing in call order; an empty 3.1.1 subscription is refused. Encoding the result conveys those values, and credentials validate exactly when both user name and password are equal.",
  ["histories", "inputs"], "all builder call sequences up to a depth over a small argument menu",
  "Tests build packets with struct literals and do not call the builders.",
  V4 + V5, [("new / add / set_* / validate", "src/v4/*.rs, src/v5/*.rs")], ["Connect::new", "Subscribe::add", "SubscribeFilter::set_*", "Login::validate"])
p("C25", "A frame decodes the same whatever surrounds it in the stream",
  "For every frame, valid or not, the result of reading it depends on that frame's own bytes only: it is identical whatever bytes follow it in the buffer and whatever frames preceded it, and a decoded packet never contains bytes from outside its frame nor changes when the buffer is modified or reused later.",
  ["inputs", "histories"], "all menu and corrupted frames combined with all followers and predecessors from a menu of look-alike continuations",
  "Tests append at most three fixed bytes behind a few well-formed frames.",
  ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [READ, ("read_mqtt_bytes boundary check on the split-off frame", "src/lib.rs")], ["v4::read", "v5::read"])
p("C26", "The MQTT 5 CONNECT codec also carries protocol level 4 clients correctly",
  "A CONNECT frame with protocol level 4 given to the MQTT 5 decoder is decoded by the MQTT 3.1.1 layout (no connect or will properties) to the same values as by the 3.1.1 decoder, and an MQTT 5 module CONNECT value that declares protocol level 4 and no properties is encoded to exactly the bytes the 3.1.1 module produces; properties such a value holds are never written, as that layout has no place for them. With protocol level 5 the MQTT 5 layout applies, and the level alone decides between them.",
  ["inputs"], "all CONNECT values within k deviations, both levels, all 256 flag bytes, all corruptions of level 4 frames",
  "No test passes a level 4 CONNECT to the MQTT 5 module.",
  ["src/v5/connect.rs", "src/v4/connect.rs"], [("protocol match in Connect::read/write", "src/v5/connect.rs")], ["v5::read", "v5::Connect::write", "v4::read"])
p("C27", "Rejections name the offending value",
  "For every otherwise well-formed frame with exactly one undefined coded value, the error identifies the kind of the value and carries the value itself: packet type, QoS, protocol level, 3.1.1 connect return code, subscription and acknowledgement reason codes, property identifier (unknown or not allowed in that packet), retain rule. A wrong protocol name, non-UTF-8 text, a packet id of zero in a QoS 1 or 2 publish, an empty 3.1.1 subscription, an over-limit size and a missing body are each reported by their own error kind.",
  ["inputs"], "every coded field of every packet type in both versions, all undefined values",
  "No test checks any decoding error.",
  ["src/lib.rs"] + V4 + V5, [("Error variants", "src/lib.rs")], ["v4::read", "v5::read"])
p("C28", "Packet ids accompany a publish exactly when its QoS is above 0, and never as 0",
  "In both versions and both directions, a QoS 1 or 2 publish carries its packet id between topic and what follows, all ids 1 to 65535 are preserved exactly, and id 0 is refused by both encoder and decoder; a QoS 0 publish carries none on the wire and decodes to id 0, whatever id the value held. DUP, QoS and RETAIN are independent of each other and of the id, and are preserved in every combination.",
  ["inputs"], "all 65536 ids times all QoS, DUP and RETAIN combinations in both versions, with and without properties and payload",
  "Tests use one id and three flag combinations.",
  ["src/v4/publish.rs", "src/v5/publish.rs"], [("pkid handling in Publish::read/write/len", "src/v4/publish.rs, src/v5/publish.rs")], ["v4::read", "v5::read", "Publish::write"])
p("C29", "The two-step API (check, split, typed read) agrees with the one-step read",
  "For every buffer and limit, the header check accepts exactly when the one-step read would take a frame off the buffer, reports that frame's length and packet type and the same errors otherwise, and changes nothing. Decoding the split-off frame with the reader of the reported packet type then gives the same packet or rejection as the one-step read.",
  ["inputs"], "all menu frames, prefixes and corruptions, all limits, all packet types",
  "Tests use the two-step API only, on a few well-formed frames; the one-step read has no test at all.",
  ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [("check, FixedHeader::{frame_length,packet_type}, X::read", "src/lib.rs"), READ], ["check", "FixedHeader", "X::read"])
p("C30", "Inner length fields never reach outside their container",
  "For every frame and every length field inside it (string, binary, property section), replacing the field by any other value gives either a rejection or exactly the packet the altered bytes spell: a length that exceeds the bytes left in its container (frame or property section) is always rejected, and one that fits exactly is always honoured, including zero and the full remainder.",
  ["inputs"], "every inner length field of every menu frame set to every value from 0 to 65535 (or every one- to four-byte encoding for section lengths)",
  "No test alters a length field.",
  ["src/lib.rs"] + V4 + V5, [("read_mqtt_bytes BoundaryCrossed check; property cursor", "src/lib.rs, src/v5/*.rs")], ["v4::read", "v5::read"])
p("C31", "Packets compare and clone as the values they are",
  "Two packets of one version compare equal exactly when they are of the same type and every public field agrees, whatever the order of comparison; so do their wills, logins, filters, property sets and codes, error values, packet types, service levels and frame headers. A clone equals its original, holds the same fields and encodes to the same bytes; two decodings of the same bytes are equal. Service levels order as at most once < at least once < exactly once.",
  ["inputs"], "every packet value near a minimal and a full packet against every change of one field of it, all pairs of packets one deviation from the bases, all pairs of errors and headers",
  "Tests compare a packet with one literal of equal value; none shows that different packets are unequal.",
  ["src/lib.rs"] + V4 + V5, [("PartialEq, Clone of Packet, its parts and Error; PartialOrd of QoS", "src/lib.rs, src/v4/*.rs, src/v5/*.rs")], ["v4::Packet", "v5::Packet", "Error", "QoS", "FixedHeader"])
p("C32", "Renderings of packets and errors never fail, mislead or carry payloads",
  "Formatting any packet with Debug, and any error with Debug or Display, succeeds for every value, changes nothing and gives the same text every time; an output that fails part of the way makes formatting fail without a panic. Packets that differ in one identifying field (type, packet id, topic, filter and its options, QoS, retain, return or reason code, payload size, or, in packets other than PUBLISH and SUBSCRIBE, any field but a password) never render alike, nor do different errors. The rendering of a PUBLISH states its payload's size and never depends on the payload's content.",
  ["inputs", "fault_sequences"], "every packet value near a minimal and a full packet against every change of one field of it, all packet ids, all short topics, payloads of all sizes up to 300, all errors, outputs that fail at several points",
  "No test formats a packet or an error.",
  ["src/lib.rs", "src/v4/publish.rs", "src/v4/subscribe.rs", "src/v5/publish.rs", "src/v5/subscribe.rs"] , [("impl Debug for Publish, Subscribe, SubscribeFilter; impl Display for Error", "src/v4, src/v5, src/lib.rs")], ["Debug of Packet", "Debug and Display of Error"])
with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
