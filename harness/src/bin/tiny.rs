//! A small workload for the undefined-behaviour interpreter (Miri): no grammar, no bookkeeping, just the parser on texts
//! in exact allocations, reading back every byte of every reported text.
//! usage: tiny <shard> <nshards> <seconds> <seed>
#[allow(dead_code)]
#[path = "../bases.rs"]
mod bases;
#[allow(dead_code)]
#[path = "../ev.rs"]
mod ev;
#[allow(dead_code)]
#[macro_use]
#[path = "../dump.rs"]
mod dump;
use bases::*;
use std::hash::{Hash, Hasher};
use weedle::Parse;

struct H(u64);
impl Hasher for H {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn el<'a, T: Parse<'a> + Hash>(s: &'a str, h: &mut H) -> bool {
    match T::parse(s) {
        Ok((rest, v)) => {
            v.hash(h);
            rest.hash(h);
            true
        }
        Err(_) => false,
    }
}
fn main() {
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (shard, n, secs, seed) = (a[0], a[1], a[2], a[3]);
    let start = std::time::Instant::now();
    let mut base: Vec<String> = Vec::new();
    base.extend(VALUES.iter().map(|v| format!("dictionary D{{any x={};}};", v)));
    base.extend(ATTR_FORMS.iter().map(|v| format!("[{}]enum E{{\"é🦀\",}};//é", v)));
    base.extend(DEFS.iter().map(|s| s.to_string()));
    base.extend(IF_MEMBERS.iter().map(|m| format!("interface I{{{}}};", m)));
    base.extend(BASE_TYPES.iter().map(|t| format!("typedef {} /*é*/ T;", t)));
    for t in ["", "\u{0}", "é", "🦀", "\"é", "/*é", "//é", "_é", "-é", "0xé", "1.é", "interfaceé", "\u{feff}typedef long A;", "typedef long a🦀;", "\"", "/", "/*", "/**", "/*/", "-", ".", "0x", "1e", "_", "__", "typedef long /* é */ \u{a0}A;"] {
        base.push(t.to_string());
    }
    let (mut docs, mut els, mut ok) = (0u64, 0u64, 0u64);
    let mut h = H(0xcbf2_9ce4_8422_2325);
    // every terminal alone at the very end of its allocation, cut short, and followed by a character of several bytes
    let mut turn = 0usize;
    macro_rules! term {
        ($t:ident, $s:expr) => {
            turn += 1;
            if turn % n == shard {
                for b in [$s.to_string(), $s[..$s.len() - 1].to_string(), format!("{}é", $s), format!("{}/", $s)] {
                    let b: Box<str> = b.into();
                    els += 1;
                    ok += el::<weedle::term::$t>(&b, &mut h) as u64;
                }
            }
        };
    }
    for_each_kw!(term);
    for_each_punct!(term);
    macro_rules! short {
        ($($t:ty: $($s:expr),*;)*) => { $( for s in [$($s),*] {
            turn += 1;
            if turn % n == shard {
                let b: Box<str> = s.into();
                els += 1;
                ok += el::<$t>(&b, &mut h) as u64;
                for k in (1..b.len()).filter(|k| b.is_char_boundary(*k)) {
                    let b: Box<str> = b[..k].into();
                    els += 1;
                    ok += el::<$t>(&b, &mut h) as u64;
                }
            }
        } )* };
    }
    short! {
        weedle::literal::IntegerLit: "0", "-0", "07", "-0x1F", "12", "-9";
        weedle::literal::FloatLit: "1.5e-3", "-.5", "1e5", "1.", "-Infinity", "NaN";
        weedle::literal::StringLit: "\"\"", "\"é🦀\"", "\"a//b\"//", "\"a\"/**/";
        weedle::literal::ConstValue: "true", "null", "-1";
        weedle::literal::DefaultValue: "[]", "{ }", "\"x\"";
        weedle::common::Identifier: "a", "_a", "a-b_c9", "aé", "a//", "a/*é*/", "a /", "a/**", "_interface";
        weedle::types::IntegerType: "unsigned long long", "long", "short";
        weedle::types::FloatingPointType: "unrestricted float", "double";
        weedle::types::Type: "any", "long?", "(A or B)", "sequence<A>", "Aé";
        weedle::attribute::ExtendedAttribute: "A", "A=b", "A=*", "A=(b,c)", "A()", "A=\"é\"";
        weedle::argument::Argument: "A b", "optional A b=1", "A...b";
        weedle::EnumValueList: "{\"é\",}";
    }
    let m = base.len();
    let step = 7919;
    'all: for round in 0..1000usize {
        for i in (0..m).filter(|i| i % n == shard) {
            if start.elapsed().as_secs() as usize >= secs {
                break 'all;
            }
            let t = &base[(i * step + seed * 13) % m];
            let cut: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
            let k = if round == 0 { t.len() } else { cut[(round * 31 + i * 17 + seed) % cut.len()] };
            let b: Box<str> = t[..k].into();
            docs += 1;
            if let Ok(d) = weedle::parse(&b) {
                d.hash(&mut h);
                ok += 1;
            }
            let b: Box<str> = t[k..].into();
            let s: &str = if round == 0 { t } else { &b };
            els += 1;
            ok += match (i + round) % 8 {
                0 => el::<weedle::common::Identifier>(s, &mut h),
                1 => el::<weedle::literal::DefaultValue>(s, &mut h),
                2 => el::<weedle::literal::StringLit>(s, &mut h),
                3 => el::<weedle::types::Type>(s, &mut h),
                4 => el::<weedle::argument::ArgumentList>(s, &mut h),
                5 => el::<weedle::attribute::ExtendedAttribute>(s, &mut h),
                6 => el::<weedle::literal::ConstValue>(s, &mut h),
                _ => el::<weedle::interface::InterfaceMember>(s, &mut h),
            } as u64;
        }
    }
    println!("TINY {} {} {} {:x} terms-and-literals {}", docs, els, ok, h.0, turn / n);
}
