//! Topics and filters: C18, C19, C20.
use crate::adapt;
use crate::explore::*;
use crate::model::topic as model;

fn note(a: &str, b: &str) {
    adapt::op();
    adapt::LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        let (a, b) = (a.as_bytes(), b.as_bytes());
        l.extend_from_slice(&a[..a.len().min(40)]);
        l.push(0xFF);
        l.extend_from_slice(&b[..b.len().min(40)]);
    })
}
fn matches(t: &str, f: &str) -> bool {
    note(t, f);
    mqttbytes::matches(t, f)
}
fn short(s: &str) -> String {
    let mut o: String = s.chars().take(60).collect();
    if o.len() < s.len() {
        o.push_str("...");
    }
    format!("{o:?}")
}

/// Every string of exactly `n` characters of the alphabet.
pub fn words(alpha: &[char], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..n {
        v = v
            .iter()
            .flat_map(|s| {
                alpha.iter().map(move |c| {
                    let mut s = s.clone();
                    s.push(*c);
                    s
                })
            })
            .collect();
    }
    v
}
fn words_up_to(alpha: &[char], n: usize) -> Vec<String> {
    (0..=n).flat_map(|k| words(alpha, k)).collect()
}

const LEVELS: [&str; 12] = ["", "a", "b", "A", "ab", "$", "$a", "é", "e\u{301}", " ", "\u{0}", "日本"];

/// Paths of up to `n` levels out of a menu.
pub fn paths(menu: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![];
    let mut now: Vec<String> = menu.iter().map(|s| s.to_string()).collect();
    for k in 1..=n {
        if k > 1 {
            now = now.iter().flat_map(|s| menu.iter().map(move |m| format!("{s}/{m}"))).collect();
        }
        out.extend(now.iter().cloned());
    }
    out
}

// ---------------------------------------------------------------- C18
fn pair(ctx: &mut Ctx, t: &str, f: &str) -> Outcome {
    let want = model::matches(t, f);
    let got = matches(t, f);
    if got != want {
        return Err(format!("topic {} and filter {}: matches() is {got}, the levels say {want}", short(t), short(f)));
    }
    ctx.case(if got { "match" } else { "no match" });
    Ok(())
}

/// Levels as they are met in use.
const TEMPLATES: [&str; 22] = [
    "{6F9619FF-8B86-D011-B42D-00CF4FC964FF}", "6f9619ff-8b86-d011-b42d-00cf4fc964ff", "urn:uuid:6f9619ff-8b86-d011-b42d-00cf4fc964ff", "00:1A:2b:3C:4d:5E", "00-1a-2B-3c-4D-5e", "0xDeadBeef", "sensor-Temperature_01", "Sensor.Temperature.01",
    "SensorTemperatureCelsius", "2024-02-29T12:34:56Z", "192.168.001.1", "2001:DB8::fF", "user@Example.Com", "Main%20Hall", "a=1&B=2", "http:", "1.50", "1e5", "-0", "<Tag>", "$SYS", "Grüße-Straße_Ω",
];

/// Groups of different texts that some equivalence other than equality identifies.
pub fn alike() -> Vec<Vec<String>> {
    let groups: Vec<Vec<&str>> = vec![
        vec!["ö", "o\u{308}", "oe", "o", "Ö", "OE", "O\u{308}"],
        vec!["é", "e\u{301}", "e", "É", "E\u{301}", "E", "e'"],
        vec!["ß", "ss", "ẞ", "SS", "sz", "ſs", "s"],
        vec!["K", "\u{212A}", "k", "Ｋ", "ｋ"],
        vec!["Å", "\u{212B}", "A\u{30A}", "å", "a\u{30A}"],
        vec!["ſ", "s", "S"],
        vec!["i", "ı", "I", "İ", "i\u{307}"],
        vec!["ﬁ", "fi", "FI", "f\u{200D}i", "f\u{200B}i"],
        vec!["µ", "μ", "Μ"],
        vec!["Ω", "\u{2126}", "ω"],
        vec!["σ", "ς", "Σ"],
        vec!["²", "2", "₂", "２", "٢", "02", "2.0", "+2"],
        vec!["½", "1/2", "1⁄2"],
        vec!["a", "\u{FEFF}a", "a\u{200B}", "a ", " a", "a\t", "a\n", "a\r\n", "\u{A0}a", "a\u{0}", "а", "ａ", "ª", "\u{AD}a", "a\u{FE0F}", "a."],
        vec!["a b", "a%20b", "a+b", "a\u{A0}b", "a_b", "a-b", "a  b", "a\tb", "ab", "\"a b\"", "a\\ b"],
        vec!["a/b", "a\\b", "a%2Fb", "a%2fb", "a／b", "a//b", "a/./b", "a/b/", "/a/b", "a/c/../b", "a∕b", "a.b", "a:b"],
        vec!["/", "//", "///", "", " ", "./", "/.", "/ ", " /"],
        vec!["日本", "日本\u{FE00}", "⽇本", "日 本"],
        vec!["한", "\u{1112}\u{1161}\u{11AB}", "한"],
        vec!["ǆ", "ǅ", "Ǆ", "dž", "DŽ"],
        vec!["ŉ", "ʼn", "n"],
        vec!["ΐ", "ι\u{308}\u{301}", "\u{1FD3}"],
        vec!["…", "...", ".."],
        vec!["™", "TM", "tm"],
        vec!["Ⅳ", "IV", "ⅳ", "4"],
        vec!["①", "1", "１", "¹"],
        vec!["⁺", "＋", "﹢", "x"],
        vec!["＃", "﹟", "x"],
        vec!["＄a", "﹩a", "$a", "a"],
        vec!["x\u{202E}y", "xy", "yx", "x\u{200E}y"],
        vec!["😀", "😀\u{FE0F}", "☺", ":)"],
        vec!["👍", "👍🏽", "👍\u{FE0F}"],
        vec!["true", "TRUE", "True", "1", "yes"],
        vec!["0", "00", "-0", "0x0", "0.0", "O", "o"],
        vec!["a'", "a\"", "a`", "a’", "a''"],
        vec!["\u{1}", "\u{0}", "\u{7F}", "\u{80}", "\u{85}", "\u{2028}", "\n"],
    ];
    groups.into_iter().map(|g| g.into_iter().map(String::from).collect()).collect()
}

pub fn c18(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    for (tag, alpha) in [("a b / + # $ é", ['a', 'b', '/', '+', '#', '$', 'é']), ("a A / + # space U+0000", ['a', 'A', '/', '+', '#', ' ', '\u{0}'])] {
        let n = if th { 6 } else { 5 };
        let all = words_up_to(&alpha, n);
        let topics: Vec<String> = all.iter().filter(|s| model::valid_topic(s)).cloned().collect();
        let filters: Vec<String> = all.into_iter().filter(|s| model::valid_filter(s)).collect();
        v.push(expl(format!("every topic against every valid filter, up to {n} characters of {{{tag}}} each"), 0, move |ctx, ch| {
            let t = ch.of(&topics);
            for f in &filters {
                pair(ctx, t, f)?;
            }
            Ok(())
        }));
    }
    // structured: levels as units
    let n = if th { 4 } else { 3 };
    let topics = paths(&LEVELS, n);
    let mut fl: Vec<&str> = LEVELS.to_vec();
    fl.push("+");
    let mut filters: Vec<String> = paths(&fl, n);
    if !th {
        // the longer filters over fewer levels
        filters.extend(paths(&["", "a", "+", "é"], 5));
    }
    filters.retain(|f| model::valid_filter(f));
    let with_hash: Vec<String> = filters.iter().map(|f| format!("{f}/#")).collect();
    filters.push("#".into());
    filters.extend(with_hash);
    filters.sort();
    filters.dedup();
    let stride = if th { 16 } else { 1 };
    v.push(expl(format!("every topic of up to {n} levels of a twelve-level menu against structured filters"), 0, move |ctx, ch| {
        let t = ch.of(&topics);
        // thorough: the product is too large; the filters with the topic's own number of levels
        // and those one shorter or longer (with or without '#') are all taken, others thinned
        let tl = t.matches('/').count();
        for (i, f) in filters.iter().enumerate() {
            let l = f.matches('/').count();
            let kin = l == tl || l == tl + 1;
            if kin && (stride == 1 || model::levels(t)[0] == model::levels(f)[0] || f.starts_with(['+', '#'])) || i % stride == 0 {
                pair(ctx, t, f)?;
            }
        }
        Ok(())
    }));
    // depth: many levels, with a wildcard or a difference at any place
    let depth = if th { 600 } else { 200 };
    v.push(expl(format!("up to {depth} levels: a '+', a '#' or a difference at every place"), 0, move |ctx, ch| {
        let n = 1 + ch.pick(depth);
        let unit = *ch.of(&["a", "", "xyz", "日"]);
        let levels: Vec<&str> = vec![unit; n];
        let t = levels.join("/");
        for i in 0..n {
            let mut l = levels.clone();
            for w in ["+", "b", "", "xy", "xyzz", "A"] {
                l[i] = w;
                let f = l.join("/");
                if model::valid_filter(&f) {
                    pair(ctx, &t, &f)?;
                }
            }
            let mut l = levels[..i].to_vec();
            l.push("#");
            pair(ctx, &t, &l.join("/"))?;
            if i > 0 {
                l[i - 1] = "+";
                pair(ctx, &t, &l.join("/"))?;
                l[i - 1] = "z";
                pair(ctx, &t, &l.join("/"))?;
            }
        }
        // all '+', one too many, one too few, and '#' behind
        for k in [n - 1, n, n + 1] {
            for end in ["", "/#", "/+"] {
                let f = format!("{}{end}", vec!["+"; k].join("/"));
                if model::valid_filter(&f) {
                    pair(ctx, &t, &f)?;
                }
                let f = format!("{}{end}", vec![unit; k].join("/"));
                if model::valid_filter(&f) {
                    pair(ctx, &t, &f)?;
                }
            }
        }
        Ok(())
    }));
    // words some brokers give a meaning, which the rules do not know
    let words: Vec<&str> = vec!["$share", "$SYS", "$queue", "$exclusive", "$delayed", "$", "share", "SYS", "a", "", "g", "x$", "$a", "*", ".", ">", "?", "..", "%", "\\"];
    let wt = paths(&words, if th { 4 } else { 3 });
    let mut ww = words.clone();
    ww.push("+");
    let mut wf = paths(&ww, 2);
    wf.extend(paths(&["$share", "$SYS", "$queue", "+", "a", "", "g", "*", ">"], if th { 4 } else { 3 }));
    let h: Vec<String> = wf.iter().map(|f| format!("{f}/#")).collect();
    wf.extend(h);
    wf.push("#".into());
    wf.sort();
    wf.dedup();
    wf.retain(|f| model::valid_filter(f));
    v.push(expl("levels out of words that some brokers give a meaning to", 0, move |ctx, ch| {
        let t = ch.of(&wt);
        if !model::valid_topic(t) {
            ctx.skip("no topic");
            return Ok(());
        }
        for f in &wf {
            pair(ctx, t, f)?;
        }
        // the topic's own text with something before, behind, removed, or as a filter below others
        for w in &words {
            for f in [format!("{w}/{t}"), format!("{t}/{w}"), format!("{w}{t}"), format!("{t}{w}"), format!("{w}/g/{t}"), format!("{w}/+/{t}"), format!("{w}/{t}/#")] {
                if model::valid_filter(&f) {
                    pair(ctx, t, &f)?;
                }
                if model::valid_topic(&f) && model::valid_filter(t) {
                    pair(ctx, &f, t)?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("level texts of up to 300 characters differing in one character at any place", 0, move |ctx, ch| {
        let n = 1 + ch.pick(300);
        let base = "x".repeat(n);
        for i in 0..n {
            for r in ["y", "X", "", "xx", "é", "/"] {
                let s = format!("{}{r}{}", &base[..i], &base[i + 1..]);
                pair(ctx, &s, &base)?;
                if !s.is_empty() {
                    pair(ctx, &base, &s)?;
                    pair(ctx, &format!("a/{base}"), &format!("+/{s}"))?;
                    pair(ctx, &format!("{base}/a"), &format!("{s}/#"))?;
                    pair(ctx, &format!("{s}/a"), &format!("{s}/#"))?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("levels that look like identifiers of many kinds, one character in the other case, its neighbour, missing, or doubled", 0, move |ctx, ch| {
        let base = *ch.of(&TEMPLATES);
        let cs: Vec<char> = base.chars().collect();
        for i in 0..cs.len() {
            let flip: String = if cs[i].is_lowercase() { cs[i].to_uppercase().collect() } else { cs[i].to_lowercase().collect() };
            for r in [flip, char::from_u32(cs[i] as u32 ^ 1).unwrap_or('?').to_string(), char::from_u32(cs[i] as u32 ^ 32).unwrap_or('?').to_string(), String::new(), format!("{0}{0}", cs[i]), "?".into()] {
                let s: String = cs[..i].iter().collect::<String>() + &r + &cs[i + 1..].iter().collect::<String>();
                for (a, b) in [(base, &s[..]), (&s[..], base)] {
                    for (t, f) in [(a.to_string(), b.to_string()), (format!("d/{a}/s"), format!("d/{b}/s")), (format!("{a}/s"), format!("{b}/#")), (format!("x/{a}"), format!("+/{b}")), (format!("x/{a}/y"), format!("+/{b}/+")), (format!("{a}/{b}"), format!("{a}/{a}")), (format!("{a}/{b}"), format!("{b}/{a}"))] {
                        if model::valid_topic(&t) && model::valid_filter(&f) {
                            pair(ctx, &t, &f)?;
                        }
                    }
                }
            }
        }
        // all of it in one case, and against its own prefixes and suffixes
        let (lo, up) = (base.to_lowercase(), base.to_uppercase());
        let parts: Vec<String> = (0..=cs.len()).flat_map(|i| [cs[..i].iter().collect::<String>(), cs[i..].iter().collect()]).collect();
        for s in [lo, up].iter().chain(&parts) {
            for (t, f) in [(base.to_string(), s.clone()), (s.clone(), base.to_string()), (format!("x/{base}"), format!("x/{s}")), (format!("x/{s}"), format!("x/{base}")), (format!("{base}/x"), format!("{s}/+")), (format!("{s}/x"), format!("{base}/#"))] {
                if model::valid_topic(&t) && model::valid_filter(&f) {
                    pair(ctx, &t, &f)?;
                }
            }
        }
        Ok(())
    }));
    // texts that some notion of equality other than "the same characters" equates
    let alike = alike();
    v.push(expl("texts that case folding, normalisation, trimming, decoding or collation would equate", 0, move |ctx, ch| {
        let g = ch.of(&alike);
        for a in g {
            for b in g {
                for (t, f) in [(a.clone(), b.clone()), (format!("x/{a}"), format!("x/{b}")), (format!("{a}/x"), format!("{b}/x")), (format!("{a}/x"), format!("{b}/+")), (format!("{a}/x"), format!("{b}/#")), (a.clone(), format!("{b}/#")), (format!("x{a}y"), format!("x{b}y")), (format!("x/{a}/y"), format!("+/{b}/y")), (format!("{a}{a}"), format!("{b}{b}"))] {
                    if model::valid_topic(&t) && model::valid_filter(&f) {
                        pair(ctx, &t, &f)?;
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(expl("very long topics and filters (65535 bytes, 65536 levels and beyond)", 0, move |ctx, ch| {
        let n = *ch.of(&[32_767usize, 32_768, 65_534, 65_535, 65_536, 100_000]);
        let t = "/".repeat(n);
        let u = "a".repeat(n);
        let w = format!("{}a", "a/".repeat(n / 2));
        for f in [t.clone(), format!("{t}#"), format!("{t}+"), "#".into(), "+".into(), "/#".into(), "+/+".into(), format!("{}b", &t[1..]), u.clone(), format!("{u}/#"), format!("{u}b"), format!("{}+", "+/".repeat(n)), format!("{}#", "+/".repeat(n / 2 + 1)), w.clone(), format!("{w}/#"), format!("{w}/+")] {
            for t in [&t, &u, &w] {
                pair(ctx, t, &f)?;
            }
        }
        Ok(())
    }));
    v.push(expl("every Unicode character as a level, in a level, before and behind a separator", 0, move |ctx, ch| {
        let hi = ch.pick(0x1100) as u32;
        for lo in 0..256 {
            let Some(c) = char::from_u32(hi << 8 | lo) else { continue };
            if c == '+' || c == '#' {
                continue;
            }
            for t in [c.to_string(), format!("{c}a"), format!("a{c}"), format!("{c}/a"), format!("a/{c}"), format!("a/{c}/a")] {
                for f in ["#", "+", "+/a", "a/+", "a/+/a", "a/#", "a", "a/a", "+/+", "/+"] {
                    pair(ctx, &t, f)?;
                }
                pair(ctx, &t, &t)?;
                pair(ctx, "a", &t)?;
                pair(ctx, "a/a", &t)?;
                pair(ctx, &t, &format!("{t}/#"))?;
                // neighbours and the other case differ
                if let Some(d) = char::from_u32(c as u32 ^ 1) {
                    if d != '+' && d != '#' {
                        pair(ctx, &t, &t.replace(c, &d.to_string()))?;
                    }
                }
                let (l, u) = (t.to_lowercase(), t.to_uppercase());
                pair(ctx, &t, &l)?;
                pair(ctx, &t, &u)?;
            }
        }
        if hi == 0xD8 {
            ctx.skip("surrogates are no characters");
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C19
fn checks(ctx: &mut Ctx, s: &str) -> Outcome {
    note(s, "");
    let (f, t, w) = (mqttbytes::valid_filter(s), mqttbytes::valid_topic(s), mqttbytes::has_wildcards(s));
    let want = (model::valid_filter(s), model::valid_topic(s), model::has_wildcards(s));
    if (f, t, w) != want {
        return Err(format!("{}: (valid_filter, valid_topic, has_wildcards) is {:?}, by the rules {want:?}", short(s), (f, t, w)));
    }
    ctx.case(match want {
        (true, true, _) => "filter and topic",
        (true, false, _) => "filter only",
        (false, true, _) => "topic only",
        _ => "neither",
    });
    Ok(())
}

pub fn c19(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    let n = if th { 9 } else { 7 };
    v.push(expl(format!("every string of up to {n} characters of {{a / + # $ é}}"), 0, move |ctx, ch| {
        let alpha = ['a', '/', '+', '#', '$', 'é'];
        let k = ch.pick(n + 1);
        if k < 3 {
            for s in words(&alpha, k) {
                checks(ctx, &s)?;
            }
            return Ok(());
        }
        let pre: String = (0..3).map(|_| *ch.of(&alpha)).collect();
        for s in words(&alpha, k - 3) {
            checks(ctx, &format!("{pre}{s}"))?;
        }
        Ok(())
    }));
    let m = if th { 6 } else { 5 };
    v.push(expl(format!("every string of up to {m} characters of a thirteen-character alphabet"), 0, move |ctx, ch| {
        let alpha = ['a', '/', '+', '#', '$', ' ', '\u{0}', '\\', '\u{10FFFF}', '\u{301}', '＋', '＃', '\n'];
        let k = ch.pick(m + 1);
        if k == 0 {
            return checks(ctx, "");
        }
        let c = *ch.of(&alpha);
        for s in words(&alpha, k - 1) {
            checks(ctx, &format!("{c}{s}"))?;
        }
        Ok(())
    }));
    let (pk, sk) = if th { (5, 3) } else { (4, 2) };
    v.push(expl(format!("known beginnings before every string of up to {pk} characters, and known endings behind every string of up to {sk}"), 0, move |ctx, ch| {
        const KNOWN: [&str; 24] = [
            "$share", "$share/", "$share/g", "$share/g/", "$share//", "$share/+/", "$share/#", "$queue/", "$SYS", "$SYS/", "$SYS/broker/", "$oshare/g/", "$exclusive/", "$local/", "$aws/things/", "$delayed/5/", "share/g/", "SYS/", "a/b/c/",
            "sport/tennis/", "../", "http://", "\u{feff}", "$share/g/$share/g/",
        ];
        let k = *ch.of(&KNOWN);
        let alpha = ['a', '/', '+', '#', '$', 'é'];
        if ch.pick(2) == 0 {
            for s in words_up_to(&alpha, pk) {
                checks(ctx, &format!("{k}{s}"))?;
            }
        } else {
            for s in words_up_to(&alpha, sk) {
                for e in words_up_to(&alpha, 2) {
                    checks(ctx, &format!("{s}{k}{e}"))?;
                }
            }
        }
        Ok(())
    }));
    v.push(expl("every Unicode character: alone, beside others, beside separators and wildcards", 0, move |ctx, ch| {
        let hi = ch.pick(0x1100) as u32;
        for lo in 0..256 {
            let Some(c) = char::from_u32(hi << 8 | lo) else { continue };
            for s in [
                c.to_string(), format!("{c}a"), format!("a{c}"), format!("{c}{c}"), format!("/{c}"), format!("{c}/"), format!("a/{c}/b"), format!("a/{c}"), format!("{c}/#"), format!("{c}/+"), format!("{c}+"),
                format!("+{c}"), format!("{c}#"), format!("#{c}"), format!("#/{c}"), format!("+/{c}"),
            ] {
                checks(ctx, &s)?;
            }
        }
        if hi == 0xD8 {
            ctx.skip("surrogates are no characters");
        }
        Ok(())
    }));
    v.push(expl("a wildcard at every place of long strings", 0, move |ctx, ch| {
        let n = ch.pick(if th { 300 } else { 160 });
        let unit = *ch.of(&["a", "a/", "/", "é", "+/", "é/"]);
        let base = unit.repeat(n);
        checks(ctx, &base)?;
        for i in 0..=base.len() {
            if !base.is_char_boundary(i) {
                continue;
            }
            for w in ["#", "+", "/#", "/+", "#/", "+/", "/+/", "/#/", "++", "##", "+#", "#+", "a+", "+a"] {
                checks(ctx, &format!("{}{w}{}", &base[..i], &base[i..]))?;
            }
        }
        Ok(())
    }));
    v.push(expl("very long strings", 0, move |ctx, ch| {
        let n = *ch.of(&[65_534usize, 65_535, 65_536, 200_000]);
        for u in ["a", "/", "+/", "a/", "é", "#"] {
            let s = u.repeat(n);
            for e in ["", "#", "+", "a", "/#", "/+", "a#", "a+"] {
                checks(ctx, &format!("{s}{e}"))?;
                checks(ctx, &format!("{e}{s}"))?;
            }
        }
        Ok(())
    }));
    let k = if th { 5 } else { 4 };
    let all = words_up_to(&['a', '/', '+', '#', '$', 'é'], k);
    v.push(expl(format!("matching answers for every pair of strings of up to {k} characters, valid or not"), 0, move |ctx, ch| {
        let t = ch.of(&all);
        for f in &all {
            let a = matches(t, f);
            // asked again, the answer is the same
            if t.len() + f.len() < 5 && matches(t, f) != a {
                return Err(format!("matches({t:?}, {f:?}) changes its answer"));
            }
            ctx.case(if a { "answers true" } else { "answers false" });
        }
        Ok(())
    }));
    v.push(expl("matching answers for every leading Unicode character", 0, move |ctx, ch| {
        let hi = ch.pick(0x1100) as u32;
        for lo in 0..256 {
            let Some(c) = char::from_u32(hi << 8 | lo) else { continue };
            for (t, f) in [(c.to_string(), "".to_string()), ("".into(), c.to_string()), (format!("{c}"), format!("{c}")), (format!("/{c}"), format!("{c}/")), (format!("{c}#"), format!("#{c}")), (format!("{c}/+"), format!("+/{c}"))] {
                matches(&t, &f);
                ctx.case("answers");
            }
        }
        if hi == 0xD8 {
            ctx.skip("surrogates are no characters");
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C20
fn filters_of(n: usize, menu: &[&str]) -> Vec<String> {
    let mut m: Vec<&str> = menu.to_vec();
    m.push("+");
    let mut v: Vec<String> = paths(&m, n);
    let shorter: Vec<String> = if n > 1 { paths(&m, n - 1) } else { vec![] };
    v.push("#".into());
    v.extend(shorter.iter().map(|f| format!("{f}/#")));
    v.retain(|f| model::valid_filter(f));
    v
}
fn contained(ctx: &mut Ctx, a: &str, b: &str) -> Outcome {
    let want = model::covers(a, b);
    let got = matches(a, b);
    if got != want {
        return Err(format!("filter {} against filter {}: matches() is {got}, level by level it is {want}", short(a), short(b)));
    }
    ctx.case(if got { "covered" } else { "not covered" });
    Ok(())
}

pub fn c20(th: bool) -> Vec<Exploration> {
    let mut v = vec![];
    // the containment itself, by the implementation's answers alone
    let menu: &'static [&'static str] = if th { &["", "a", "b", "$", "é"] } else { &["", "a", "$", "é"] };
    let n = 3;
    let fs = filters_of(n, menu);
    let ts = paths(menu, n + 1);
    // which topics each filter matches, asked of the implementation once
    let bits: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
    {
        v.push(expl(
            format!("containment: all pairs of valid filters of up to {n} levels of a {}-level menu with '+' and '#', against every topic of up to {} levels", menu.len(), n + 1),
            0,
            move |ctx, ch| {
                let i = ch.pick(fs.len());
                let bits = bits.get_or_init(|| {
                    fs.iter()
                        .map(|f| {
                            let mut w = vec![0u64; ts.len() / 64 + 1];
                            for (i, t) in ts.iter().enumerate() {
                                if mqttbytes::matches(t, f) {
                                    w[i / 64] |= 1 << (i % 64);
                                }
                            }
                            w
                        })
                        .collect()
                });
                for j in 0..fs.len() {
                    contained(ctx, &fs[i], &fs[j])?;
                    if matches(&fs[i], &fs[j]) {
                        for (w, (x, y)) in bits[i].iter().zip(&bits[j]).enumerate() {
                            if x & !y != 0 {
                                let t = &ts[w * 64 + (x & !y).trailing_zeros() as usize];
                                return Err(format!("filter {:?} is said to be covered by {:?}, but topic {t:?} matches only the first", fs[i], fs[j]));
                            }
                        }
                        ctx.case("containment holds on every topic");
                    }
                }
                if !fs[i].starts_with('$') && !(matches(&fs[i], &fs[i]) && matches(&fs[i], "#")) {
                    return Err(format!("filter {:?} does not match itself, or not '#'", fs[i]));
                }
                Ok(())
            },
        ));
    }
    for (tag, alpha) in [("a b / + # $ é", ['a', 'b', '/', '+', '#', '$', 'é']), ("a A / + # space U+0000", ['a', 'A', '/', '+', '#', ' ', '\u{0}'])] {
        let n = if th { 6 } else { 5 };
        let filters: Vec<String> = words_up_to(&alpha, n).into_iter().filter(|s| model::valid_filter(s)).collect();
        v.push(expl(format!("level by level: every pair of valid filters of up to {n} characters of {{{tag}}}"), 0, move |ctx, ch| {
            let a = ch.of(&filters);
            for b in &filters {
                contained(ctx, a, b)?;
            }
            Ok(())
        }));
    }
    const LONG: [&str; 9] = ["+", "a", "", "$x", "aaaaaaaa", "aaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "é", "日本語日本語日本語"];
    let n = 3;
    let mut fs: Vec<String> = paths(&LONG, n);
    let shorter: Vec<String> = paths(&LONG, n - 1).iter().chain(&paths(&["+", "a", "aaaaaaaaaaaaaaaaaaaa"], n)).map(|f| format!("{f}/#")).collect();
    fs.extend(shorter);
    fs.extend(paths(&["+", "a", "aaaaaaaaaaaaaaaaaaaa"], 4).into_iter().filter(|f| f.matches('/').count() == 3));
    fs.push("#".into());
    fs.retain(|f| model::valid_filter(f));
    v.push(expl("level by level: every pair of filters of up to four levels, some of them long", 0, move |ctx, ch| {
        let a = ch.of(&fs);
        for b in &fs {
            contained(ctx, a, b)?;
        }
        Ok(())
    }));
    v.push(expl("level by level: every pair of level lengths up to 70, one of two levels a wildcard", 0, move |ctx, ch| {
        let n = ch.pick(71);
        for m in 0..=70usize {
            let (x, y) = ("a".repeat(n), "a".repeat(m));
            for a in [x.clone(), format!("{x}/b"), format!("b/{x}"), format!("+/{x}"), format!("{x}/+"), format!("{x}/#"), format!("+/{x}/#"), format!("{x}/{y}"), format!("{y}/{x}"), format!("+/{x}/+")] {
                for b in ["+".to_string(), "+/+".into(), "#".into(), "+/#".into(), "+/+/+".into(), y.clone(), format!("{y}/+"), format!("+/{y}"), format!("{y}/#"), format!("+/{y}/#"), format!("b/{y}"), format!("{y}/b"), format!("+/{y}/+")] {
                    if model::valid_filter(&a) && model::valid_filter(&b) {
                        contained(ctx, &a, &b)?;
                    }
                }
            }
        }
        Ok(())
    }));
    let depth = if th { 400 } else { 120 };
    v.push(expl(format!("level by level: filters of up to {depth} levels with '+' at every place of either, '#' behind either"), 0, move |ctx, ch| {
        let n = 1 + ch.pick(depth);
        let base: Vec<&str> = (0..n).map(|i| ["a", "", "bc"][i % 3]).collect();
        let end = |l: &[&str], e: bool| if e { format!("{}/#", l.join("/")) } else { l.join("/") };
        for i in 0..n {
            let mut p = base.clone();
            p[i] = "+";
            let mut q = base.clone();
            q[(i + 1) % n] = "+";
            for (x, y) in [(&p, &base), (&base, &p), (&p, &p), (&p, &q)] {
                for k in 0..4 {
                    let (a, b) = (end(x, k & 1 == 1), end(y, k & 2 == 2));
                    if model::valid_filter(&a) && model::valid_filter(&b) {
                        contained(ctx, &a, &b)?;
                    }
                }
            }
            let cut = end(&base[..i.max(1)], true);
            for b in [end(&base, false), end(&base, true), end(&p, false), end(&p, true)] {
                if model::valid_filter(&b) {
                    contained(ctx, &cut, &b)?;
                    contained(ctx, &b, &cut)?;
                }
            }
        }
        Ok(())
    }));
    v
}
