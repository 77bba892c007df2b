#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, the rows below, seeded/*/meta.json and evidence directories.
gen_design.py QUICK_DIR THOROUGH_DIR"""
import json, glob, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
R = {
"C01": ("Buffer and frame space with both versions at every limit that matters (0, 1, 127, the size ± 1, max); buffers of every history (shared, split off, advanced, with spare capacity) around menu frames; frames with 2^0..2^26 bytes and 4 GiB behind them; every buffer of up to two bytes of every history; three frames in a row; large frames", "Model header: the buffer afterwards equals the buffer before minus exactly the first frame, or is unchanged; which of the two is decided by the model's header alone"),
"C02": ("Every segmentation (2^(n-1)) of every stream of up to three frames of a menu, up to 13 (16) bytes, into one persistent buffer; the (delivered, consumed) state graph of streams of four frames and around every menu frame; long frames cut everywhere near their edges; a receiver that fetches exactly the bytes asked for; limits; long length fields; every two frames of the menu at once, byte by byte and cut once anywhere, in buffers of every history; large frames alone, between short ones and twice", "The sequence of packets and rejections obtained when the whole stream is read at once, itself compared with the model decoder"),
"C03": ("Buffer space and frame space, read and header check; menu frames cut everywhere in buffers of every history, asked twice; large frames and their cuts", "Model header: incomplete or not; reported count between 1 and the true number missing, exact once the length is known"),
"C04": ("Frame and buffer space, every first byte with every body of up to two bytes, stand-alone property sections of every identifier over sharp contents, every fault on full sections, very large frames; lists and sections of up to two million of the smallest entries", "Returns: no panic (overflow and debug assertions on), no death of the process, no run-away allocation, within a watchdog"),
"C05": ("v4 value space", "Decoded value equals the value written (model normalisation), buffer left empty"),
"C06": ("v5 value space, plus every reason code with no, empty and some properties", "As C05"),
"C07": ("v4 value space", "Strict model decoder on the written bytes: accepts without tolerance and yields the same value"),
"C08": ("v5 value space, plus every reason code with no, empty and some properties", "As C07 for MQTT 5"),
"C09": ("v4 frame space; lists of every number of entries up to 300 and near boundaries up to 65537; publishes: all flags × ids × topics × payloads", "Model decoder: value, tolerated or rejection"),
"C10": ("v5 frame space; lists as in C09; publishes: all flags × every property subset × ids × topics × payloads", "As C09 for MQTT 5"),
"C11": ("Every coded field of every packet × 256 values; every code alone, at every list position and with every tail; every property identifier × every packet × a value of every type; encodings of every meaning; altered-field space; public conversions for 256 numbers", "Code tables of the specifications (`model/spec.rs`)"),
"C12": ("Value space behind prior buffers; every pair of menu packets in one buffer; every prior length up to 1100 (4200) and prior content of every magnitude, with every spare capacity; the largest publish possible; size queries of packets, filters and property sets", "Prior bytes unchanged, appended bytes equal to those written alone, returned and queried sizes equal to the bytes counted"),
"C13": ("Every packet with one (two) parts that cannot be encoded behind every prior content and magnitude; id-0 publishes cross product; all histories of good and bad writes; remaining lengths just over the largest, reached by every part; one part too long beside empty, short and longest others and neighbours; subscription identifiers at every place of a list; one text too long under every setting of the flags and identifiers beside it; long lists of long filters", "The write returns an error, the buffer is as before; what histories leave behind decodes to exactly the good packets"),
"C14": ("Every limit around frames of every size; declared lengths of every magnitude × limits of every magnitude × bodies absent, partial, present; limits around every power of two up to 2^64; faults at their own limit; buffer space; large frames, whole and cut, at their limit and its neighbours", "Model: over the limit ⇒ size error naming the declared length; otherwise the same result as without a limit"),
"C15": ("All 268 435 456 remaining lengths read; subscription identifiers (all up to 2^21, thorough all), section and remaining lengths written; unfinished and malformed fields; every spelling", "Model varint"),
"C16": ("Every ordered selection of up to 4 (5) properties with repetitions in every packet; rotations, reversals, swaps of full sections; every declared length over every short section with every continuation; sections of every length-field size; every kind of content behind a section; every number of repeatable properties up to 300 and near boundaries up to 65537; what follows a section: a menu of payloads, code lists, connect payloads", "Model decoder; values independent of order, repeatables in wire order, next part where the section ends"),
"C17": ("Every text and binary field of every full packet: all contents of up to 2 bytes, of 3–4 bytes over UTF-8 edge alphabets, all sequences of 3 well- or ill-formed pieces, every Unicode scalar value and surrogate, an ill-formed byte anywhere in a long text; long contents with special ends; all 3-byte contents in small packets", "An independent UTF-8 automaton (`spec::utf8_ok`); contents unchanged"),
"C18": ("Every topic × every valid filter of up to 5 (6) characters over two 7-letter alphabets; levels from menus (incl. `$share`, `$SYS`, `..`); up to 200 levels; texts up to 300 characters differing anywhere; 64 KiB strings; pairs of look-alike texts (case, normal forms, trailing blanks, NUL); every Unicode character in 100 positions; one-, two- and three-wildcard shapes of up to 70 levels; levels that look like identifiers", "Recursive level-by-level matcher (`model/topic.rs`)"),
"C19": ("Every string of up to 7 (8) characters of 6, 5 of 13; every Unicode character beside others; wildcards at every place of long strings; matching of every pair of short strings; known beginnings ($share/, $SYS/, $queue/ …) before every string of up to 4 (5) characters, known endings behind short ones", "Direct statement of the wildcard rules; an answer without panic"),
"C20": ("Containment: all pairs of valid filters of up to 3 levels against every topic of up to 4 levels; level by level: every pair of valid filters of up to 5 (6) characters over two alphabets; long filters; pairs of level lengths up to 70; filters with '+' at every place of either", "Containment computed by enumerating topics; the level-wise relation of the model"),
"C21": ("Every history of 3 calls over 56 calls on two connections with kept buffers; each call repeated 70 000 times; 238 further calls, alternations and pairs; triples of packets on two connections; frames read twice; a connection left in the middle of a frame while another is served; every history of 2 (3) calls, each assignment to two fresh threads that take turns; every two validity and matching questions about short strings; every two of a menu of texts in every field; a refused text before one as long; any publish before one with an empty topic", "The result of the call on its own; inputs unchanged; stdout and stderr of the whole run empty"),
"C22": ("Frame space, both versions", "Write succeeds, reads back to the same value; second encoding equals the first"),
"C23": ("Frame and buffer space, huge declared sizes over little content, long lists of the smallest entries, stand-alone sections; large frames cut everywhere that matters, also behind heads that declare up to 256 MiB", "Counting allocator: at most 128 × bytes of the frame present + 4096; an incomplete frame allocates nothing in proportion to what it declares"),
"C24": ("All sequences of up to 4 (5) builder calls of CONNECT, SUBSCRIBE and filters; all argument combinations of PUBLISH and wills; every pid; all credential pairs of a menu and one-character differences of long ones; a menu of long texts for every constructor and setter; credentials that read the same with any ASCII character between; new_many from iterators of every kind", "A model of the documented values; encoded and strictly decoded as well"),
"C25": ("Frame space, each frame alone and before every tail, within every history of buffers; pairs and triples of menu frames; a frame repeated n times before another; the buffer overwritten after the read; large frames; every single fault before every tail; every cut frame before its remainder", "The result of the frame read alone, itself compared with the model; packet unchanged after the buffer is reused"),
"C26": ("Level-4 CONNECT values (3 (4) deviations), every single and double fault on frames, every connect-flag byte × sharp bodies; same value at both levels", "The crate's 3.1.1 codec and the model"),
"C27": ("Every undefined value of every coded field of every base frame; undefined codes at every list position and short form; altered-field space; protocol names; ill-formed text anywhere, in long texts at every edge; id zero, empty lists, missing bodies", "The error kind and value the statement prescribes"),
"C28": ("Every packet id × every flag combination × both versions; × every property subset (empty topic with alias included), payload shape and topic length; frames cut around the id", "Model encoder and decoder"),
"C29": ("Buffer and frame space: check, split, typed read against one-step read; large frames, whole, cut and before others", "Each other and the model's header"),
"C30": ("Every length field of every base frame set to every other value; pairs of length fields; altered-field space; every cut; long containers; sections of every declared length in every packet; lengths off by up to three with properties in every order", "Model decoder: rejection, or exactly what the bytes spell"),
"C31": ("Every packet one (two) deviations from the bases, long contents included, against every change of one field of it; every pair of packets one deviation from the bases, across types; every pair of errors, types, service levels, headers; large contents changed in one place; long lists with any entry changed, left out, repeated or exchanged; texts and lists that read the same when joined by any ASCII character; property sets absent and empty; level-4 packets with properties", "Equality of the public fields, computed on the model values; order of the service levels' numbers"),
"C32": ("The same packets and changes, rendered plainly and at length and into outputs that fail; every packet id; every topic of up to three pieces; payloads of every size; every error; results of the whole frame space; lists of up to 300 entries with any one changed", "Which changes must show in the rendering and which must not; the rendering of the same value built again, cloned and read back"),
}

def ev(d, i):
    try:
        return json.load(open(f"{d}/{i}.json"))
    except (OSError, ValueError):
        return None
def n(x):
    return f"{x/1e6:.1f}M" if x >= 1e6 else f"{x/1e3:.0f}k"
rows = []
for i in sorted(R):
    c = " / ".join(f"{n(e['coverage']['traces_validated_against_impl'])}, {e['wall_s']:.0f} s" if e else "?" for e in (ev(sys.argv[1], i), ev(sys.argv[2], i)))
    rows.append(f"| {i} | {R[i][0]} | {R[i][1]} | {c} |")
seeds = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.append(f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} |")
s = open(here + "/tools/DESIGN.in.md").read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "| Planted bug | Caught by | Needs |\n|---|---|---|\n" + "\n".join(seeds))
open(here + "/DESIGN.md", "w").write(s)
