//! C17: results as values.
use crate::dump::Dump;
use crate::entries::clip;
use crate::ev::{show, Ev};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use weedle::Parse;

#[derive(Default)]
pub struct Report {
    pub values: u64,
    pub pairs: u64,
    pub equal_pairs: u64,
    pub unequal_pairs: u64,
    pub conversions: u64,
    pub conv_kinds: std::collections::BTreeSet<&'static str>,
    pub bad: Vec<(String, Vec<String>)>,
}
impl Report {
    fn bad(&mut self, d: String, parts: &[&str]) {
        if self.bad.len() < 3 {
            self.bad.push((d, parts.iter().map(|s| s.to_string()).collect()));
        }
    }
}

/// records exactly what a value feeds to a hasher
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        crate::rng::fnv(&self.0)
    }
}
fn hash_of<T: Hash>(v: &T) -> (u64, Vec<u8>) {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    let mut t = Tape::default();
    v.hash(&mut t);
    (h.finish(), t.0)
}
fn dump_of<'a, T: Dump<'a>>(v: &T) -> Vec<Ev<'a>> {
    let mut e = Vec::new();
    v.dump(&mut e);
    e
}

pub fn laws<'a, T>(name: &str, texts: &[&'a str], r: &mut Report)
where
    T: Parse<'a> + Dump<'a> + Eq + Ord + Hash + Clone + Debug,
{
    let mut vals: Vec<(&'a str, T, Vec<Ev<'a>>, (u64, Vec<u8>), String)> = Vec::new();
    for t in texts {
        if let Ok(Ok((_, v))) = std::panic::catch_unwind(|| T::parse(t)) {
            let e = dump_of(&v);
            let h = hash_of(&v);
            let d = format!("{:?}", v);
            vals.push((t, v, e, h, d));
        }
    }
    r.values += vals.len() as u64;
    for (t, v, e, h, d) in &vals {
        // the same value against itself and its clone
        let c = v.clone();
        if !(c == *v) || c != *v || c.cmp(v) != Ordering::Equal || v.cmp(v) != Ordering::Equal {
            r.bad(format!("{}: a clone does not equal its original", name), &[t]);
        }
        let ce = dump_of(&c);
        if &ce != e {
            r.bad(format!("{}: a clone has other contents: {}", name, crate::ev::diff(e, &ce)), &[t]);
        }
        if hash_of(&c) != *h || hash_of(v) != *h {
            r.bad(format!("{}: a clone hashes differently", name), &[t]);
        }
        if &format!("{:?}", c) != d {
            r.bad(format!("{}: a clone prints differently", name), &[t]);
        }
    }
    let n = vals.len();
    for i in 0..n {
        for j in 0..n {
            let (ta, a, ea, ha, da) = &vals[i];
            let (tb, b, eb, hb, db) = &vals[j];
            let same = ea == eb;
            r.pairs += 1;
            if same {
                r.equal_pairs += 1;
            } else {
                r.unequal_pairs += 1;
            }
            let eq = a == b;
            if eq != same {
                r.bad(
                    format!("{}: == is {} but the contents are {}: {} | {}", name, eq, if same { "the same" } else { "different" }, clip(&show(ea)), clip(&show(eb))),
                    &[ta, tb],
                );
            }
            if (a != b) == eq {
                r.bad(format!("{}: == and != agree", name), &[ta, tb]);
            }
            let c = a.cmp(b);
            if (c == Ordering::Equal) != same {
                r.bad(format!("{}: cmp is {:?} but the contents are {}", name, c, if same { "the same" } else { "different" }), &[ta, tb]);
            }
            if b.cmp(a) != c.reverse() {
                r.bad(format!("{}: cmp is not antisymmetric", name), &[ta, tb]);
            }
            if a.partial_cmp(b) != Some(c) || (a < b) != (c == Ordering::Less) || (a > b) != (c == Ordering::Greater) || (a <= b) == (c == Ordering::Greater) || (a >= b) == (c == Ordering::Less) {
                r.bad(format!("{}: the comparison operators disagree with cmp", name), &[ta, tb]);
            }
            if same && ha != hb {
                r.bad(format!("{}: equal results hash differently", name), &[ta, tb]);
            }
            if same && da != db {
                r.bad(format!("{}: equal results print differently", name), &[ta, tb]);
            }
            if !same && da == db {
                r.bad(format!("{}: unequal results print alike: {}", name, clip(da)), &[ta, tb]);
            }
            // pretty printing, on a sample of the pairs
            if (i + 7 * j) % 11 == 0 && (format!("{:#?}", a) == format!("{:#?}", b)) != same {
                r.bad(format!("{}: {{:#?}} of two results is {}", name, if same { "different although they are equal" } else { "alike although they differ" }), &[ta, tb]);
            }
            // a value overwritten by another becomes that value
            if (i + 3 * j) % 13 == 0 {
                let mut x = a.clone();
                x.clone_from(b);
                if x != *b || dump_of(&x) != *eb {
                    r.bad(format!("{}: clone_from does not give the source", name), &[ta, tb]);
                }
            }
        }
    }
    // a total order: after sorting, every pair stands in order (covers all triples at once)
    let mut ix: Vec<usize> = (0..n).collect();
    // (the standard sort may itself notice an inconsistent order and panic)
    let sorted = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut v = ix.clone();
        v.sort_by(|&x, &y| vals[x].1.cmp(&vals[y].1));
        v
    }));
    match sorted {
        Ok(v) => ix = v,
        Err(_) => r.bad(format!("{}: sorting the results fails: no total order", name), &[vals.first().map_or("", |v| v.0)]),
    }
    for p in 0..n {
        for q in p + 1..n {
            if vals[ix[p]].1.cmp(&vals[ix[q]].1) == Ordering::Greater {
                r.bad(format!("{}: the order is not transitive", name), &[vals[ix[p]].0, vals[ix[q]].0]);
            }
        }
    }
}

pub trait ConvSink {
    fn texts(&self, name: &str) -> Vec<&'static str>;
    fn report(&mut self) -> &mut Report;
}
/// `ctor` fixes the node type `P` and the expected variant; `From` must do what `ctor` does.
pub fn conv<P, E>(variant: &'static str, ctor: impl Fn(P) -> E, text: &'static str, r: &mut Report)
where
    P: Parse<'static> + Dump<'static> + Clone + PartialEq,
    E: From<P> + Dump<'static> + Clone + PartialEq + Eq + Ord + Hash + Debug,
{
    let Ok(Ok((_, p))) = std::panic::catch_unwind(|| P::parse(text)) else { return };
    r.conversions += 1;
    r.conv_kinds.insert(variant);
    let pe = dump_of(&p);
    let mut want = vec![Ev::Open(variant)];
    want.extend(pe.iter().copied());
    want.push(Ev::Close);
    let got = E::from(p.clone());
    let ge = dump_of(&got);
    if ge != want {
        r.bad(format!("{}: conversion gives {} instead of {}", variant, clip(&show(&ge)), clip(&show(&want))), &[text]);
        return;
    }
    if let Err(m) = crate::mon::slices_exact(&want, &ge) {
        r.bad(format!("{}: conversion changed the node: {}", variant, m), &[text]);
    }
    let direct = ctor(p);
    if direct != got || direct.cmp(&got) != Ordering::Equal || format!("{:?}", direct) != format!("{:?}", got) || hash_of(&direct) != hash_of(&got) {
        r.bad(format!("{}: converted node differs from the variant built directly", variant), &[text]);
    }
}
