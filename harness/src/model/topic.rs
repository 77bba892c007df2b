//! Reference semantics of topics and filters (MQTT 3.1.1 section 4.7), over lists of levels.

pub fn levels(s: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut rest = s;
    loop {
        match rest.find('/') {
            Some(i) => {
                out.push(&rest[..i]);
                rest = &rest[i + 1..];
            }
            None => {
                out.push(rest);
                return out;
            }
        }
    }
}

pub fn has_wildcards(s: &str) -> bool {
    s.chars().any(|c| c == '+' || c == '#')
}
pub fn valid_topic(s: &str) -> bool {
    !has_wildcards(s)
}
pub fn valid_filter(s: &str) -> bool {
    if s.is_empty() {
        return false;
    }
    let l = levels(s);
    for (i, x) in l.iter().enumerate() {
        if x.contains('#') && (*x != "#" || i + 1 != l.len()) {
            return false;
        }
        if x.contains('+') && *x != "+" {
            return false;
        }
    }
    true
}

/// Does topic name `t` (no wildcards) match filter `f` (valid)?
pub fn matches(t: &str, f: &str) -> bool {
    if t.starts_with('$') {
        return false;
    }
    fn go(t: &[&str], f: &[&str]) -> bool {
        match (t, f) {
            (_, ["#"]) => true,
            ([], []) => true,
            ([x, t @ ..], [y, f @ ..]) => (*y == "+" || x == y) && go(t, f),
            _ => false,
        }
    }
    go(&levels(t), &levels(f))
}

/// Filter-to-filter relation: 'a' as a pattern, level by level. A '+' of `a` is covered by '+' or
/// '#' of `b`, a '#' of `a` only by '#' of `b`.
pub fn covers(a: &str, b: &str) -> bool {
    if a.starts_with('$') {
        return false;
    }
    fn go(a: &[&str], b: &[&str]) -> bool {
        match (a, b) {
            (_, ["#"]) => true,
            (["#"], _) => false,
            ([], []) => true,
            ([x, a @ ..], [y, b @ ..]) => (*y == "+" || x == y) && go(a, b),
            _ => false,
        }
    }
    go(&levels(a), &levels(b))
}
