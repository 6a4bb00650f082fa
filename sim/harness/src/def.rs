//! Definitions and messages: what a deployment compiles and feeds to its provers.
use crate::re::{Model, Part, BOS};
use crate::rng::Rng;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Def {
    pub parts: Vec<Part>,
}
impl Def {
    pub fn of(v: &[(bool, &str)]) -> Def {
        Def { parts: v.iter().map(|p| Part { public: p.0, text: p.1.to_string() }).collect() }
    }
    pub fn json(&self) -> Value {
        json!({ "parts": self.parts.iter().map(|p| json!({"is_public": p.public, "regex_def": p.text})).collect::<Vec<_>>() })
    }
    pub fn from_json(v: &Value) -> Option<Def> {
        let mut parts = vec![];
        for p in v.get("parts")?.as_array()? {
            parts.push(Part { public: p.get("is_public")?.as_bool()?, text: p.get("regex_def")?.as_str()?.to_string() });
        }
        Some(Def { parts })
    }
    pub fn publics(&self) -> usize {
        self.parts.iter().filter(|p| p.public).count()
    }
    /// The definition file, in one of several equivalent spellings.
    pub fn text(&self, style: u64) -> String {
        let v = self.json();
        match style % 4 {
            0 => serde_json::to_string(&v).unwrap(),
            1 => serde_json::to_string_pretty(&v).unwrap(),
            2 => {
                // other order of keys, odd white space, a key nobody reads
                let ps: Vec<String> = self
                    .parts
                    .iter()
                    .map(|p| format!("{{\r\n\t\"regex_def\" : {} ,\"is_public\":{}}}", serde_json::to_string(&p.text).unwrap(), p.public))
                    .collect();
                format!("\n{{ \"comment\": [1,{{}}], \"parts\":\n[{}] }}\n\n", ps.join(" , "))
            }
            _ => {
                // every character of the regexes escaped
                let esc = |s: &str| -> String { s.encode_utf16().map(|u| format!("\\u{u:04X}")).collect() };
                let ps: Vec<String> =
                    self.parts.iter().map(|p| format!("{{\"is_public\":{},\"regex_def\":\"{}\"}}", p.public, esc(&p.text))).collect();
                format!("{{\"parts\":[{}]}}", ps.join(","))
            }
        }
    }
}

/// Characters that definitions of one run are made of: few, so that matches overlap and fail late.
struct Palette {
    letters: Vec<char>,
    /// Bounds that the classes of the definition share.
    cuts: Vec<char>,
    /// Bytes far from each other that classes leave out.
    holes: Vec<char>,
    /// Single bytes that many classes have in common.
    kin: Vec<char>,
}
fn lit(c: char) -> String {
    match c {
        '\r' => "\r".into(),
        c if "\\.+*?()|[]{}^$#&-~/".contains(c) => format!("\\{c}"),
        c => c.to_string(),
    }
}
fn in_class(c: char) -> String {
    match c {
        c if "\\[]^-&~".contains(c) => format!("\\{c}"),
        c => c.to_string(),
    }
}
impl Palette {
    fn new(r: &mut Rng) -> Palette {
        let all: Vec<char> = match r.below(8) {
            0 => "ab".chars().collect(),
            1 => "abc".chars().collect(),
            2 => "abcdefgh".chars().collect(),
            3 => "a@.< >\"'".chars().collect(),
            4 => "fromt:\r\n".chars().collect(),
            5 => "ab\r\n\t=;/\\".chars().collect(),
            6 => "aé日\u{1f600}b".chars().collect(),
            _ => "xyz019_-".chars().collect(),
        };
        let mut v = all;
        if r.chance(1, 12) {
            v.push(*r.pick(&['\x01', '\x7f', '\u{0b}', '$', '^', '|', '*', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '(', ')', '{', '}', '#', '&']));
        }
        let mut cuts = vec![];
        if r.chance(1, 4) {
            let mut at = r.range(33, 60) as u32;
            for _ in 0..2 + r.us(4) {
                cuts.push(char::from_u32(at).unwrap());
                at += *r.pick(&[1, 2, 5, 15, 16, 17, 18, 20, 26]);
                if at > 126 {
                    break;
                }
            }
        }
        let mut holes = vec![];
        if r.chance(1, 12) {
            let mut at = r.range(1, 24) as u32;
            while at < 127 && holes.len() < 7 {
                holes.push(char::from_u32(at).unwrap());
                at += 16 + r.below(8) as u32;
            }
            if r.chance(1, 2) {
                v.extend(&holes);
            }
        }
        let mut kin = vec![];
        if r.chance(1, 12) {
            kin = "bdfhjlnprtvxzBDFHJLNPRTVXZ13579".chars().collect();
            for i in 0..kin.len() {
                kin.swap(i, r.us(i + 1));
            }
            kin.truncate(8 + r.us(16));
            if r.chance(1, 2) {
                kin.sort();
            }
            v = kin[kin.len() - 3..].to_vec();
        }
        Palette { letters: v, cuts, holes, kin }
    }
    /// All but a few bytes far from each other: more ranges than one or two.
    fn with_holes(&self, r: &mut Rng) -> String {
        let mut s = String::from("[^");
        for h in &self.holes {
            if r.chance(7, 8) {
                s += &in_class(*h);
            }
        }
        if s.len() == 2 || r.chance(1, 4) {
            s += &in_class(self.ch(r));
        }
        s.push(']');
        s
    }
    /// Classes of many single bytes that differ in one or two of them.
    fn kindred(&self, r: &mut Rng) -> String {
        let n = self.kin.len();
        let mut v = self.kin.clone();
        for _ in 0..r.us(3) {
            let i = if r.chance(1, 2) { n - 1 - r.us(3) } else { r.us(n) };
            v[i] = if r.chance(1, 2) { v[(i + 1) % n] } else { *r.pick(&['0', '~', 'a', 'z', '_']) };
        }
        v.iter().map(|c| in_class(*c)).fold("[".to_string(), |s, c| s + &c) + "]"
    }
    /// A class of ranges between the bounds and of bytes beside them.
    fn ranges(&self, r: &mut Rng) -> String {
        let mut s = String::from(if r.chance(1, 6) { "[^" } else { "[" });
        for _ in 0..1 + r.us(2) {
            let (a, b) = (*r.pick(&self.cuts), *r.pick(&self.cuts));
            let (a, mut b) = (a.min(b), a.max(b));
            if r.chance(1, 4) && b as u32 > a as u32 + 1 {
                b = char::from_u32(b as u32 - 1).unwrap();
            }
            s += &if a == b { in_class(a) } else { format!("{}-{}", in_class(a), in_class(b)) };
        }
        if r.chance(1, 2) {
            s += &in_class(self.ch(r));
        }
        s.push(']');
        s
    }
    fn ch(&self, r: &mut Rng) -> char {
        *r.pick(&self.letters)
    }
    fn class(&self, r: &mut Rng) -> String {
        if !self.holes.is_empty() && r.chance(3, 4) {
            return self.with_holes(r);
        }
        if !self.kin.is_empty() && r.chance(7, 8) {
            return self.kindred(r);
        }
        if !self.cuts.is_empty() && r.chance(3, 4) {
            return self.ranges(r);
        }
        let neg = r.chance(1, 5);
        let mut s = String::from("[");
        if neg {
            s.push('^');
        }
        if r.chance(1, 3) {
            s += *r.pick(&["a-z", "A-Z", "0-9", "a-c", "b-y", "A-Za-z0-9", " -~", "\\x01-\\x1f", "a-zA-Z0-9_\\.-"]);
        }
        for _ in 0..1 + r.us(3) {
            s += &in_class(self.ch(r));
        }
        s.push(']');
        s
    }
    fn atom(&self, r: &mut Rng, depth: u32) -> String {
        match r.below(10) {
            0..=4 => lit(self.ch(r)),
            5..=6 => self.class(r),
            7 if depth > 0 => format!("({})", self.alt(r, depth - 1)),
            8 if depth > 0 => format!("(?:{})", self.alt(r, depth - 1)),
            9 if r.chance(1, 4) => ".".into(),
            _ => lit(self.ch(r)),
        }
    }
    fn rep(&self, r: &mut Rng, depth: u32) -> String {
        let a = self.atom(r, depth);
        match r.below(12) {
            0 | 1 => a + "+",
            2 => a + "*",
            3 => a + "?",
            4 if r.chance(1, 2) => {
                let n = r.below(3);
                match r.below(3) {
                    0 => format!("{a}{{{}}}", n + 1),
                    1 => format!("{a}{{{n},{}}}", n + 1 + r.below(3)),
                    _ => format!("{a}{{{n},}}"),
                }
            }
            _ => a,
        }
    }
    fn cat(&self, r: &mut Rng, depth: u32) -> String {
        (0..1 + r.us(3)).map(|_| self.rep(r, depth)).collect()
    }
    fn alt(&self, r: &mut Rng, depth: u32) -> String {
        let mut v = vec![self.cat(r, depth)];
        while r.chance(1, 3) && v.len() < 4 {
            v.push(self.cat(r, depth));
        }
        v.join("|")
    }
    fn word(&self, r: &mut Rng) -> String {
        (0..1 + r.us(5)).map(|_| lit(self.ch(r))).collect()
    }
}

const REAL: [&[(bool, &str)]; 22] = [
    &[(false, "email was meant for @"), (true, "[a-zA-Z0-9_]+"), (false, ".")],
    &[(false, "(\r\n|^)from:"), (true, "[^\r\n]+"), (false, "\r\n")],
    &[(false, "(\r\n|^)subject:"), (true, "[^\r\n]+"), (false, "\r\n")],
    &[(false, "(\r\n|^)dkim-signature:"), (false, "([a-z]+=[^;]+; )+t="), (true, "[0-9]+"), (false, ";")],
    &[(false, "(\r\n|^)message-id:"), (true, "<[A-Za-z0-9=@\\.\\+_-]+>"), (false, "\r\n")],
    &[(true, "[A-Za-z0-9!#$%&'\\*\\+-/=\\?\\^_`{\\|}~\\.]+@[A-Za-z0-9\\.-]+")],
    &[(false, "a"), (true, "b+"), (false, "c")],
    &[(true, "(a|b|c)+"), (false, "d")],
    &[(false, "1=(a|b) (2=(b|c)+ )+d")],
    &[(false, "Hello "), (true, "[^,]+"), (false, ", you have "), (true, "[0-9]+"), (false, "(\\.[0-9]+)?"), (true, " (ETH|USDC)"), (false, "!")],
    &[(false, "^"), (true, "[0-9]{2}"), (false, ":"), (true, "[0-9]{2}"), (false, ":")],
    &[(false, "^a"), (true, "(x|y)*"), (false, "b")],
    &[(false, "(a|^)"), (true, "b+c")],
    &[(false, "x"), (true, "[a-c]+"), (false, "$")],
    &[(true, "[a-y]+$")],
    &[(false, "code=\\$"), (true, "[0-9]+"), (false, "\\$")],
    &[(false, "\\("), (true, "[^)(]*"), (false, "\\)")],
    &[(false, "\""), (true, "([^\"\\\\]|\\\\.)*"), (false, "\"")],
    &[(false, "[^a-z]"), (true, "[a-z]"), (false, "[^a-z]")],
    &[(false, "k"), (true, "(ab)*"), (false, "z"), (true, "(cd|ce)+"), (false, "z")],
    &[(true, "日本"), (false, "-"), (true, "[^-]+"), (false, "-")],
    &[(false, "aa"), (true, "a?"), (false, "b")],
];

/// More public parts than one digit numbers.
fn many_parts(r: &mut Rng, p: &Palette) -> Def {
    let mut parts = vec![];
    let sep = *r.pick(&[',', ';', '=', '\n']);
    for _ in 0..9 + r.us(8) {
        let text = match r.below(4) {
            0 => p.word(r),
            1 => p.class(r),
            2 => format!("[a-{}]+", r.pick(&['b', 'c', 'm', 'z'])),
            _ => "[0-9]*".into(),
        };
        parts.push(Part { public: r.chance(7, 8), text });
        if r.chance(4, 5) {
            parts.push(Part { public: r.chance(1, 8), text: sep.to_string() });
        }
    }
    Def { parts }
}
/// Several classes of many single bytes, as many in each and nearly the same ones.
fn similar_parts(r: &mut Rng) -> Def {
    let all: Vec<char> = "13579BDFHJLNPRTVXZbdfhjlnprtvxz".chars().collect();
    let n = *r.pick(&[4, 6, 9, 9, 10, 12, 17, 18]);
    let at = r.us(all.len() - n);
    let spare: Vec<char> = all.iter().copied().filter(|c| !all[at..at + n].contains(c)).collect();
    let mut parts = vec![];
    let classes = 2 + r.us(3);
    for k in 0..classes {
        let mut v = all[at..at + n].to_vec();
        if k > 0 {
            let i = *r.pick(&[0, n / 2, n - 1, n - 1, n - 2]);
            v[i] = *r.pick(&spare);
        }
        let class = v.into_iter().collect::<String>();
        let text = format!("[{class}]{}", r.pick(&["", "", "+", "{2}", "?"]));
        parts.push(Part { public: r.chance(1, 2), text });
        if r.chance(1, 2) {
            parts.push(Part { public: r.chance(1, 4), text: lit(*r.pick(&['-', ';', '@', 'b', 'z'])) });
        }
    }
    Def { parts }
}
/// Several classes put together from the same few ranges and bytes.
fn mixed_parts(r: &mut Rng) -> Def {
    const RANGES: [&str; 4] = ["a-z", "A-Z", "!-:", "b-y"];
    const BYTES: [char; 6] = ['=', ';', '@', '{', '~', '_'];
    let (ranges, bytes) = (1 + r.us(2), 2 + r.us(3));
    let (ra, ba) = (r.us(4), r.us(6));
    let mut text = String::new();
    let mut parts = vec![];
    for _ in 0..2 + r.us(3) {
        let mut class = String::new();
        let mut k = 1 + r.us(3);
        while k > 0 || class.is_empty() {
            if r.chance(1, 3) {
                let s = RANGES[(ra + r.us(ranges)) % 4];
                if !class.contains(s) {
                    class += s;
                }
            } else {
                let c = BYTES[(ba + r.us(bytes)) % 6];
                if !class.contains(c) {
                    class.push(c);
                }
            }
            k = k.saturating_sub(1);
        }
        text += &if class.chars().count() == 1 { lit(class.chars().next().unwrap()) } else { format!("[{class}]") };
        if r.chance(1, 8) {
            text += *r.pick(&["+", "?"]);
        }
        if r.chance(1, 3) {
            parts.push(Part { public: r.chance(1, 2), text: std::mem::take(&mut text) });
        }
    }
    if !text.is_empty() {
        parts.push(Part { public: r.chance(1, 2), text });
    }
    Def { parts }
}
/// Marks of the syntax where they stand for themselves, next to where they do not.
fn tricky_parts(r: &mut Rng) -> Def {
    const FIRST: [&str; 29] = [
        "(ab*|^)", "(a+|^)", "(a?|^)", "((ab)+|^)", "(^|[a;]*)", "(a|bc*|^)", "(a|^|b)", "(^)", "(?i:a|^)", "(b|a*b|^)", "(^|(a|b)+;)",
        "^", "(a|^)", "(^|b)", "(?:^|;)", "([;^]|^)", "([^;^]|^)", "(\\^|^)", "([\\]^]|^)", "([]^]|^)", "([^]^a]|^)", "([a[b^]]|^)", "((a|;)|^)", "(\\||^)", "a|^",
        "(a|^b)", "^a|", "(^a|b)", "(\\)|^)",
    ];
    const PIECE: [&str; 34] = [
        "[[a]|b]", "[]|a]", "[^]|a]", "[[a](]", "[[a])]", "[](]", "[^])]", "(a|b[|])", "\\|", "[\\](|]",
        "[]^]", "[^]^]", "[a^]", "\\^", "[\\]^]", "[a[b^]]", "[[^a]b]", "[|]", "(a\\|b)", "[(]", "\\(", "[)]", "\\\\", "[\\\\]", "a", "b", "[$]", "\\$", "[[)]]", "[^)(]", "(?:a|[|^])",
        "[[]]", "(a|b)", "[^[^]]",
    ];
    const LAST: [&str; 10] = ["$", "\\\\$", "\\$", "[$]", "[\\]$]", "[$]$", "(a|b)$", "[)]$", "\\\\\\$", "a|b$"];
    let pieces = |r: &mut Rng| {
        (0..1 + r.us(3)).map(|_| format!("{}{}", r.pick(&PIECE), if r.chance(1, 5) { *r.pick(&["+", "?", "*", "{2}"]) } else { "" })).collect::<String>()
    };
    let mut parts: Vec<Part> = (0..1 + r.us(3)).map(|_| Part { public: r.chance(1, 2), text: pieces(r) }).collect();
    if r.chance(2, 3) {
        let i = if r.chance(1, 8) { r.us(parts.len()) } else { 0 };
        parts[i].text = format!("{}{}", r.pick(&FIRST), parts[i].text);
    }
    if r.chance(1, 2) {
        let l = parts.len() - 1;
        parts[l].text += *r.pick(&LAST);
    }
    Def { parts }
}
/// Parts that begin with a loop, after parts that end in several ways.
fn loop_parts(r: &mut Rng) -> Def {
    let n = 1 + r.us(4);
    // a byte that no message has, now and then
    let zero = r.chance(1, 5);
    let c = |r: &mut Rng| if zero && r.chance(1, 4) { "\\x00".to_string() } else { ((b'a' + r.us(n + 1) as u8) as char).to_string() };
    let parts = (0..2 + r.us(2))
        .map(|_| {
            let (x, y, z, w) = (c(r), c(r), c(r), c(r));
            let text = match r.below(12) {
                0 => format!("({x}{y}|{z})"),
                1 => format!("({x}|{y}{z})"),
                2 => format!("({x}{y})?{z}"),
                3 => format!("{x}*"),
                4 => format!("{x}*{y}"),
                5 => format!("({x}{y})*"),
                6 => format!("({x}{y})*{z}"),
                7 => format!("({x}|{y}{z})*{w}"),
                8 => format!("({x}|{y}{z}|{w})"),
                9 => format!("{x}*{y}+"),
                10 => format!("({x}|{y})?{z}*{w}"),
                _ => format!("{x}{y}"),
            };
            Part { public: r.chance(2, 5), text }
        })
        .collect();
    Def { parts }
}
/// More states than fit a byte, or nearly.
fn long_parts(r: &mut Rng, p: &Palette) -> Def {
    let mut parts = vec![];
    let mut left = *r.pick(&[60, 100, 130, 130, 200, 260, 270]) as i64;
    while left > 0 {
        let k = 1 + r.below(140) as i64;
        left -= k;
        let text = match r.below(3) {
            0 => (0..k).map(|_| lit(p.ch(r))).collect(),
            1 => format!("{}{{{k}}}", lit(p.ch(r))),
            _ => format!("[0-9]{{{}}}", k),
        };
        parts.push(Part { public: r.chance(1, 2), text });
    }
    if r.chance(1, 2) {
        let k = r.us(parts.len());
        parts.insert(k, Part { public: true, text: "[A-F]+".into() });
    }
    Def { parts }
}

/// A definition; most are small, some come from real circuits.
pub fn gen_def(r: &mut Rng) -> Def {
    if r.chance(1, 6) {
        let mut d = Def::of(*r.pick(&REAL));
        if r.chance(1, 3) {
            for p in d.parts.iter_mut() {
                if r.chance(1, 3) {
                    p.public = !p.public;
                }
            }
        }
        return d;
    }
    let p = Palette::new(r);
    if r.chance(1, 40) {
        return many_parts(r, &p);
    }
    if r.chance(1, 40) {
        return similar_parts(r);
    }
    if r.chance(1, 24) {
        return mixed_parts(r);
    }
    if r.chance(1, 20) {
        return tricky_parts(r);
    }
    if r.chance(1, 20) {
        return loop_parts(r);
    }
    if r.chance(1, 60) {
        return long_parts(r, &p);
    }
    let n = match r.below(10) {
        0 | 1 => 1,
        2..=4 => 2,
        5..=7 => 3,
        8 => 4,
        _ => 5,
    };
    let delimited = r.chance(2, 3);
    let mut parts = vec![];
    for i in 0..n {
        let text = if delimited {
            // literal, variable, literal...
            if i % 2 == (n % 2) {
                p.word(r)
            } else if r.chance(1, 2) {
                // a class that avoids some letters, repeated
                let mut s = String::from("[");
                let keep = p.ch(r);
                for c in &p.letters {
                    if *c != keep || p.letters.len() == 1 {
                        s += &in_class(*c);
                    }
                }
                s += if r.chance(1, 4) { "]*" } else { "]+" };
                s
            } else {
                p.cat(r, 1)
            }
        } else {
            match r.below(4) {
                0 => p.word(r),
                1 => p.class(r) + *r.pick(&["", "+", "*", "?", "{1,3}"]),
                2 => p.alt(r, 2),
                _ => p.cat(r, 2),
            }
        };
        parts.push(Part { public: r.chance(1, 2), text });
    }
    if parts.iter().all(|p| !p.public) && r.chance(3, 4) {
        let i = r.us(n);
        parts[i].public = true;
    }
    if r.chance(1, 6) {
        let f = &mut parts[0];
        match r.below(4) {
            0 => f.text = format!("^{}", f.text),
            1 => f.text = format!("({}|^){}", p.word(r), p.word(r)),
            2 => f.text = format!("(^|{}){}", p.word(r), p.word(r)),
            _ => parts.insert(0, Part { public: false, text: "^".into() }),
        }
    }
    if r.chance(1, 12) {
        let l = parts.last_mut().unwrap();
        if !l.text.contains('|') {
            l.text.push('$');
        }
    }
    Def { parts }
}

/// A definition that the reference model supports, with its model.
pub fn gen_modelled(r: &mut Rng, want_unambiguous: bool, max_states: usize) -> (Def, Model) {
    loop {
        let d = gen_def(r);
        if let Ok(m) = Model::new(&d.parts) {
            if m.states.len() <= max_states && (m.unambiguous || !want_unambiguous) {
                return (d, m);
            }
        }
    }
}

/// Bytes along a walk of the model from state `s` to acceptance, at most `max` long.
fn walk(m: &Model, dist: &[u32], mut s: usize, max: usize, r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    loop {
        if m.states[s].accept && (v.len() >= max || r.chance(1, 3)) {
            return v;
        }
        let mut opts: Vec<(usize, usize)> = vec![];
        let mut groups: std::collections::BTreeMap<i32, Vec<usize>> = Default::default();
        for y in 1..255 {
            if m.states[s].next[y] >= 0 {
                groups.entry(m.states[s].next[y]).or_default().push(y);
            }
        }
        let hurry = v.len() + 1 >= max || r.chance(1, 3);
        for (t, ys) in &groups {
            let t = *t as usize;
            if dist[t] == u32::MAX || (hurry && dist[t] >= dist[s]) {
                continue;
            }
            // printable bytes for preference
            let nice: Vec<usize> = ys.iter().copied().filter(|y| (32..127).contains(y)).collect();
            let y = if !nice.is_empty() && r.chance(9, 10) { *r.pick(&nice) } else { *r.pick(ys) };
            opts.push((t, y));
        }
        if opts.is_empty() {
            return v;
        }
        let (t, y) = *r.pick(&opts);
        v.push(y as u8);
        s = t;
        if v.len() > 400 {
            return v;
        }
    }
}
pub fn distances(m: &Model) -> Vec<u32> {
    let n = m.states.len();
    let mut d = vec![u32::MAX; n];
    for i in 0..n {
        if m.states[i].accept {
            d[i] = 0;
        }
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            for y in 1..255 {
                let t = m.states[i].next[y];
                if t >= 0 && d[t as usize] != u32::MAX && d[t as usize] + 1 < d[i] {
                    d[i] = d[t as usize] + 1;
                    ch = true;
                }
            }
        }
        if !ch {
            return d;
        }
    }
}

pub struct Teller<'a> {
    m: &'a Model,
    dist: Vec<u32>,
    letters: Vec<u8>,
}
impl<'a> Teller<'a> {
    pub fn new(m: &'a Model) -> Teller<'a> {
        let mut letters: Vec<u8> = vec![];
        for s in &m.states {
            let mut last = -1;
            for y in 1..255usize {
                if s.next[y] != last {
                    last = s.next[y];
                    letters.push(y as u8);
                    if y > 1 {
                        letters.push(y as u8 - 1);
                    }
                }
            }
        }
        letters.sort();
        letters.dedup();
        letters.retain(|c| *c != 0);
        if letters.is_empty() {
            letters.push(b'a');
        }
        Teller { m, dist: distances(m), letters }
    }
    /// A match, from the start of the message or not.
    pub fn one(&self, r: &mut Rng, at_start: bool, max: usize) -> Vec<u8> {
        let s0 = match self.m.step(0, BOS) {
            Some(s) if at_start && self.dist[s] != u32::MAX && (self.dist[0] == u32::MAX || r.chance(2, 3)) => s,
            _ => 0,
        };
        walk(self.m, &self.dist, s0, 1 + r.skew(max as u64) as usize, r)
    }
    fn junk(&self, r: &mut Rng, n: usize) -> Vec<u8> {
        (0..n).map(|_| if r.chance(5, 6) { *r.pick(&self.letters) } else { r.range(1, 254) as u8 }).collect()
    }
    fn bend(&self, v: &mut Vec<u8>, r: &mut Rng) {
        for _ in 0..1 + r.us(2) {
            if v.is_empty() {
                return;
            }
            let i = r.us(v.len());
            match r.below(4) {
                0 => v[i] = *r.pick(&self.letters),
                1 => {
                    v.remove(i);
                }
                2 => v.insert(i, *r.pick(&self.letters)),
                _ => v.truncate(i),
            }
        }
    }
    /// Bytes in their places are replaced with ones at the edges of the classes.
    pub fn touch(&self, v: &mut [u8], r: &mut Rng) {
        for _ in 0..1 + r.us(3) {
            if !v.is_empty() {
                let i = r.us(v.len());
                v[i] = *r.pick(&self.letters);
            }
        }
    }
    /// What a correspondent sends: a string of bytes that are not zero, not longer than n.
    pub fn tell(&self, r: &mut Rng, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        if r.chance(1, 2) {
            let k = r.us(1 + n / 3);
            v.extend(self.junk(r, k));
        }
        let pieces = 1 + r.us(3);
        for k in 0..pieces {
            let room = n.saturating_sub(v.len()).max(1);
            let mut w = self.one(r, v.is_empty() && k == 0, room);
            if r.chance(1, 3) {
                self.bend(&mut w, r);
            }
            v.extend(w);
            if r.chance(1, 2) {
                let j = r.us(4);
                v.extend(self.junk(r, j));
            }
            if r.chance(1, 2) {
                break;
            }
        }
        if r.chance(1, 8) {
            v = (0..n).map(|_| *r.pick(&self.letters)).collect();
        }
        v.truncate(n);
        if r.chance(1, 3) && v.len() > 1 {
            // the whole buffer or nearly is rare but matters
            let want = n - r.us(2).min(n);
            while v.len() < want {
                v.push(*r.pick(&self.letters));
            }
        }
        v.retain(|b| *b != 0 && *b != 255);
        v
    }
}
pub fn padded(v: &[u8], n: usize) -> Vec<i64> {
    let mut m: Vec<i64> = v.iter().map(|b| *b as i64).collect();
    m.truncate(n);
    m.resize(n, 0);
    m
}
/// Damage on the way: zeros inside, values that are not bytes, forged start marks.
pub fn damage(m: &mut [i64], r: &mut Rng) {
    for _ in 0..1 + r.us(3) {
        if m.is_empty() {
            return;
        }
        let i = if r.chance(1, 3) { 0 } else { r.us(m.len()) };
        m[i] = match r.below(10) {
            0..=2 => 0,
            3 | 4 => 255,
            5 => 256,
            6 => -1,
            7 => 254,
            8 => m[i] + 256 * (1 + r.below(3) as i64),
            _ => r.below(512) as i64 - 128,
        };
    }
}
