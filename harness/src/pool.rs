//! Vocabulary for generated texts: hostile names, strings, numbers, trivia. Literals found in the sources of the
//! code under test are added as a dictionary (input generation only; nothing is ever judged by source text).
use crate::dump::KW_TEXTS;
use crate::grammar::{is_kw, Class, ARG_KW, ATTR_KW, OP_KW};
use crate::lex::{lex, word_end, Cls};
use crate::rng::Rng;

pub struct Pool {
    pub names: Vec<String>,
    pub dict_strings: Vec<String>,
    pub dict_names: Vec<String>,
    pub dict_chars: Vec<char>,
    pub dict_nums: Vec<usize>,
    pub dict_ints: Vec<String>,
}

pub const STR_BITS: &[&str] = &[
    "", " ", "a", "value", "//", "/*", "*/", "// x", "/* x */", "\n", "\r\n", "\t", "\\", "\\n", "'", "é", "日本", "🦀", "\u{0}", "\u{7f}",
    "\u{a0}", "\u{2028}", "\u{feff}", "interface", "long long", ",", ";", "{", "}", "0x", "a-b", "true", "\u{301}", "ß",
    "\u{10ffff}", "\u{fffd}", "//\n", "\\u0041", "%s", "<!--", "`", "$", "#", "@", "&", "|", "~", "^", "!",
];

impl Pool {
    pub fn new(src_dir: Option<&str>) -> Pool {
        let mut p = Pool { names: Vec::new(), dict_strings: vec![], dict_names: vec![], dict_chars: vec![], dict_nums: vec![], dict_ints: vec![] };
        let mut names: Vec<String> = ["a", "Z", "x1", "Foo", "fooBar", "foo_bar", "foo-bar", "a-", "a_", "a__b", "a--b", "A9", "Window", "Constructor", "Exposed", "u64", "e", "E1", "e5", "x", "X0", "or1", "in", "void", "self", "name", "src", "longlong", "Infinity1", "NaNs", "nullable", "trueish", "xFF", "z-9_-"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        for k in KW_TEXTS {
            if k.starts_with('-') {
                continue;
            }
            // near misses of every keyword: continued, case-changed, shortened, escaped
            for suf in ["s", "1", "_", "-", "Map", "_x", "-x", "0"] {
                names.push(format!("{}{}", k, suf));
            }
            names.push(format!("x{}", k));
            names.push(format!("_{}", k));
            names.push(format!("_{}1", k));
            names.push(k.to_uppercase());
            names.push(k.to_lowercase());
            let mut c: Vec<char> = k.chars().collect();
            c[0] = if c[0].is_ascii_uppercase() { c[0].to_ascii_lowercase() } else { c[0].to_ascii_uppercase() };
            names.push(c.iter().collect());
            names.push(k[..k.len() - 1].to_string());
        }
        names.retain(|n| is_name(n) && !is_kw(n));
        names.sort();
        names.dedup();
        p.names = names;
        if let Some(d) = src_dir {
            p.load_dict(d);
        }
        p
    }

    fn load_dict(&mut self, dir: &str) {
        let mut files: Vec<_> = match std::fs::read_dir(dir) {
            Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => return,
        };
        files.sort();
        for f in files {
            if f.is_dir() {
                self.load_dict(f.to_str().unwrap_or(""));
                continue;
            }
            if f.extension().map_or(true, |x| x != "rs") {
                continue;
            }
            if let Ok(s) = std::fs::read_to_string(&f) {
                // literals of test code are of no interest
                let cut = s.find("#[cfg(test)]").unwrap_or(s.len());
                self.scan(&s[..cut]);
            }
        }
        self.dict_strings.sort();
        self.dict_strings.dedup();
        for s in self.dict_strings.clone() {
            for t in lex(&s) {
                if t.cls == Cls::Word && !is_kw(t.text) {
                    self.dict_names.push(t.text.to_string());
                }
                if matches!(t.cls, Cls::Dec | Cls::Hex | Cls::Oct | Cls::Float) {
                    self.dict_ints.push(t.text.to_string());
                }
            }
        }
        self.dict_names.sort();
        self.dict_names.dedup();
        self.dict_chars.sort();
        self.dict_chars.dedup();
        self.dict_nums.sort();
        self.dict_nums.dedup();
        self.dict_ints.sort();
        self.dict_ints.dedup();
    }

    fn scan(&mut self, s: &str) {
        // a crude scan for string, byte-string, char and integer literals outside line comments
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let unesc = |x: char| match x {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            o => o,
        };
        while i < c.len() {
            if c[i] == '/' && c.get(i + 1) == Some(&'/') {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            } else if c[i] == '"' {
                let mut t = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' && c.get(i + 1) == Some(&'u') && c.get(i + 2) == Some(&'{') {
                        let h: String = c[i + 3..].iter().take_while(|x| x.is_ascii_hexdigit()).collect();
                        i += 3 + h.len();
                        if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                            t.push(x);
                            self.dict_chars.push(x);
                        }
                    } else if c[i] == '\\' && i + 1 < c.len() {
                        i += 1;
                        t.push(unesc(c[i]));
                    } else {
                        t.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                if t.len() <= 200 {
                    self.dict_strings.push(t);
                }
            } else if c[i] == '\\' && c.get(i + 1) == Some(&'u') && c.get(i + 2) == Some(&'{') {
                // (character literals; string literals are taken apart below)
                let h: String = c[i + 3..].iter().take_while(|x| x.is_ascii_hexdigit()).collect();
                if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    self.dict_chars.push(x);
                }
                i += 3;
            } else if c[i] == '\'' && c.get(i + 2) == Some(&'\'') && c[i + 1] != '\\' {
                self.dict_chars.push(c[i + 1]);
                i += 3;
            } else if c[i] == '\'' && c.get(i + 1) == Some(&'\\') && c.get(i + 3) == Some(&'\'') {
                self.dict_chars.push(unesc(c[i + 2]));
                i += 4;
            } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
                let mut t = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    t.push(c[i]);
                    i += 1;
                }
                let u: String = t.chars().filter(|x| *x != '_').collect();
                let v = if let Some(h) = u.strip_prefix("0x") {
                    let d: String = h.chars().take_while(|x| x.is_ascii_hexdigit()).collect();
                    usize::from_str_radix(&d, 16).ok()
                } else if let Some(h) = u.strip_prefix("0b") {
                    let d: String = h.chars().take_while(|x| *x == '0' || *x == '1').collect();
                    usize::from_str_radix(&d, 2).ok()
                } else {
                    let d: String = u.chars().take_while(|x| x.is_ascii_digit()).collect();
                    d.parse::<usize>().ok()
                };
                if let Some(v) = v {
                    self.dict_nums.push(v);
                    self.dict_ints.push(v.to_string());
                    if v < 64 {
                        // shift amounts
                        self.dict_nums.push(1usize << v.min(40));
                    }
                }
            } else {
                i += 1;
            }
        }
    }

    /// sizes at which size-dependent behaviour is most likely to change
    pub fn sizes(&self, max: usize) -> Vec<usize> {
        let mut v: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000, 131073];
        for n in &self.dict_nums {
            for d in [n.wrapping_sub(1), *n, n + 1] {
                v.push(d);
            }
        }
        v.retain(|n| *n <= max);
        v.sort_unstable();
        v.dedup();
        v
    }

    pub fn word(&self, rng: &mut Rng, hostile: bool) -> String {
        let k = rng.below(20);
        if !hostile || k < 4 {
            let b = ["a", "b", "Foo", "Bar", "baz", "Qux", "item", "Node"];
            let s = rng.pick(&b).to_string();
            return if rng.chance(1, 2) { format!("{}{}", s, rng.below(30)) } else { s };
        }
        if k < 12 {
            return rng.pick(&self.names).clone();
        }
        if k < 14 && !self.dict_names.is_empty() {
            let n = rng.pick(&self.dict_names).clone();
            return match rng.below(8) {
                0 => format!("{}{}", n, rng.pick(&["x", "1", "_", "-", "X"])),
                1 => format!("{}{}", n, rng.pick(&["click", "Foo", "_x", "s"])),
                2 => format!("{}{}", rng.pick(&["x", "a_", "Foo", "x-"]), n),
                _ => n,
            };
        }
        // random name
        let mut s = String::new();
        if rng.chance(1, 5) {
            s.push('_');
        }
        let first = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
        let rest = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
        s.push(first[rng.below(first.len())] as char);
        let n = match rng.below(12) {
            0 => rng.range(20, 80),
            1 => 0,
            _ => rng.range(0, 9),
        };
        for _ in 0..n {
            s.push(rest[rng.below(rest.len())] as char);
        }
        s
    }
    pub fn name(&self, rng: &mut Rng, hostile: bool) -> String {
        loop {
            let w = self.word(rng, hostile);
            if !is_kw(&w) {
                return w;
            }
        }
    }
    pub fn string_content(&self, rng: &mut Rng, hostile: bool) -> String {
        let mut s = String::new();
        if !hostile {
            s.push_str(rng.pick(&["a", "b", "value", "blob", ""]));
            return s;
        }
        for _ in 0..rng.below(5) {
            match rng.below(8) {
                0 if !self.dict_strings.is_empty() => s.push_str(rng.pick(&self.dict_strings)),
                1 if !self.dict_chars.is_empty() => s.push(*rng.pick(&self.dict_chars)),
                2 => s.push_str(&self.word(rng, true)),
                3 => s.push(rand_char(rng)),
                4 => s.push_str(KW_TEXTS[rng.below(KW_TEXTS.len())]),
                _ => s.push_str(rng.pick(STR_BITS)),
            }
        }
        s.retain(|c| c != '"');
        s
    }
    pub fn comment_content(&self, rng: &mut Rng) -> String {
        let mut s = String::new();
        for _ in 0..rng.below(5) {
            match rng.below(6) {
                0 => s.push('"'),
                1 => s.push_str(rng.pick(&["*", "/", "**", "/*", "//", "* /", "***", "/ *"])),
                2 => s.push_str(&self.string_content(rng, true)),
                3 if !self.dict_strings.is_empty() => s.push_str(rng.pick(&self.dict_strings)),
                _ => s.push_str(rng.pick(&["x", " comment ", "interface Foo {};", "é", "🦀", ";", "}", "]"])),
            }
        }
        s
    }
    pub fn line_comment(&self, rng: &mut Rng) -> String {
        let mut c = self.comment_content(rng);
        c.retain(|x| x != '\n' && x != '\r' && x != '\u{2028}' && x != '\u{2029}');
        format!("//{}", c)
    }
    pub fn block_comment(&self, rng: &mut Rng) -> String {
        let mut c = self.comment_content(rng);
        while let Some(i) = c.find("*/") {
            c.replace_range(i..i + 2, "*");
        }
        if rng.chance(1, 6) {
            c.push('*');
        }
        if rng.chance(1, 6) {
            c.insert(0, '/');
        }
        while let Some(i) = c.find("*/") {
            c.replace_range(i..i + 2, "*");
        }
        format!("/*{}*/", c)
    }
    /// non-empty trivia; when `eof`, may end in a line comment without a newline
    pub fn trivia(&self, rng: &mut Rng, eof: bool) -> String {
        let mut s = String::new();
        let n = if rng.chance(1, 12) { rng.range(3, 9) } else { rng.range(1, 3) };
        for i in 0..n {
            match rng.below(9) {
                0 => s.push('\t'),
                1 => s.push('\n'),
                2 => s.push('\r'),
                3 => s.push_str("\r\n"),
                4 | 5 => s.push_str(&self.block_comment(rng)),
                6 => {
                    s.push_str(&self.line_comment(rng));
                    if !(eof && i == n - 1) {
                        s.push_str(if rng.chance(1, 5) { "\r\n" } else { "\n" });
                    }
                }
                _ => s.push(' '),
            }
        }
        s
    }
    pub fn digits(rng: &mut Rng, set: &[u8], min: usize) -> String {
        let n = match rng.below(14) {
            0 => rng.range(10, 40),
            1 => min,
            _ => rng.range(min, min + 3),
        };
        (0..n).map(|_| set[rng.below(set.len())] as char).collect()
    }
    pub fn gen_class(&self, c: Class, rng: &mut Rng, hostile: bool) -> String {
        let neg = if rng.chance(1, 3) { "-" } else { "" };
        let d = b"0123456789";
        match c {
            Class::Id | Class::TypeId => self.name(rng, hostile),
            Class::ArgName => {
                if rng.chance(1, 3) {
                    if rng.chance(1, 3) { KW_TEXTS.iter().filter(|k| **k != "-Infinity" && **k != "long").nth(rng.below(KW_TEXTS.len() - 2)).unwrap().to_string() } else { rng.pick(ARG_KW).to_string() }
                } else {
                    self.name(rng, hostile)
                }
            }
            Class::AttrName => {
                if rng.chance(1, 8) {
                    rng.pick(ATTR_KW).to_string()
                } else {
                    self.name(rng, hostile)
                }
            }
            Class::OpName => {
                if rng.chance(1, 10) {
                    rng.pick(OP_KW).to_string()
                } else {
                    self.name(rng, hostile)
                }
            }
            Class::Dec => {
                if hostile && rng.chance(1, 5) {
                    let c: Vec<&String> = self.dict_ints.iter().filter(|s| matches!(lex(s).first(), Some(t) if t.cls==Cls::Dec && t.text.len()==s.len())).collect();
                    if !c.is_empty() {
                        return (*rng.pick(&c)).clone();
                    }
                }
                if rng.chance(1, 6) {
                    return format!("{}{}", neg, rng.pick(&["1", "9", "127", "128", "255", "256", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"]));
                }
                format!("{}{}{}", neg, rng.range(1, 9), Self::digits(rng, d, 0))
            }
            Class::Hex => format!("{}0{}{}", neg, rng.pick(&["x", "X"]), Self::digits(rng, b"0123456789abcdefABCDEF", 1)),
            Class::Oct => format!("{}0{}", neg, Self::digits(rng, b"01234567", 0)),
            Class::Float => {
                let exp = |rng: &mut Rng| format!("{}{}{}", rng.pick(&["e", "E"]), rng.pick(&["", "+", "-"]), Self::digits(rng, d, 1));
                match rng.below(4) {
                    0 => {
                        let a = Self::digits(rng, d, 1);
                        let b = Self::digits(rng, d, 0);
                        let e = if rng.chance(1, 2) { exp(rng) } else { String::new() };
                        format!("{}{}.{}{}", neg, a, b, e)
                    }
                    1 => {
                        let b = Self::digits(rng, d, 1);
                        let e = if rng.chance(1, 2) { exp(rng) } else { String::new() };
                        format!("{}.{}{}", neg, b, e)
                    }
                    2 => {
                        let a = Self::digits(rng, d, 1);
                        let e = exp(rng);
                        format!("{}{}{}", neg, a, e)
                    }
                    _ => {
                        let a = Self::digits(rng, d, 1);
                        let e = if rng.chance(1, 2) { exp(rng) } else { String::new() };
                        format!("{}{}.{}", neg, a, e)
                    }
                }
            }
            Class::Str => format!("\"{}\"", self.string_content(rng, hostile)),
        }
    }
    /// a random token of any kind, for token-level mutation
    pub fn any_token(&self, rng: &mut Rng) -> String {
        match rng.below(12) {
            0..=4 => KW_TEXTS[rng.below(KW_TEXTS.len())].to_string(),
            5..=8 => crate::lex::PUNCTS[rng.below(crate::lex::PUNCTS.len())].to_string(),
            9 => self.name(rng, true),
            _ => {
                let c = *rng.pick(&[Class::Dec, Class::Hex, Class::Oct, Class::Float, Class::Str]);
                self.gen_class(c, rng, true)
            }
        }
    }
}

pub fn rand_char(rng: &mut Rng) -> char {
    loop {
        let v = match rng.below(5) {
            0 => rng.below(0x80) as u32,
            1 => rng.below(0x800) as u32,
            2 => rng.below(0x10000) as u32,
            3 => rng.below(0x110000) as u32,
            _ => 0x20 + rng.below(0x5f) as u32,
        };
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}

pub fn is_name(n: &str) -> bool {
    word_end(n.as_bytes(), 0) == Some(n.len())
}
