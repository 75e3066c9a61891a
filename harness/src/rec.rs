//! What a shard observed, written out as one JSON object.
use std::collections::{BTreeMap, HashSet};

pub struct Viol {
    pub workload: String,
    /// how to replay: "doc" [text], "entry" [name, text, follow], ... or "shard" [] (rerun of this shard)
    pub kind: String,
    pub parts: Vec<String>,
    pub detail: String,
}

#[derive(Default)]
pub struct Rec {
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub events: u64,
    pub samples: BTreeMap<String, Vec<String>>,
    pub violations: Vec<Viol>,
    pub notes: Vec<String>,
    pub digest: Option<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Rec {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    pub fn sample(&mut self, w: &str, s: &str) {
        let v = self.samples.entry(w.to_string()).or_default();
        if v.len() < 2 {
            v.push(crate::entries::clip(s));
        }
    }
    pub fn full(&self) -> bool {
        self.violations.len() >= 3
    }
    pub fn violation(&mut self, w: &str, kind: &str, parts: &[&str], detail: &str) {
        if !self.full() {
            self.violations.push(Viol { workload: w.into(), kind: kind.into(), parts: parts.iter().map(|s| s.to_string()).collect(), detail: detail.into() });
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o.push_str(&format!("\"evaluations\":{},\"events\":{},", self.evaluations, self.events));
        o.push_str("\"counters\":{");
        o.push_str(&self.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":{");
        o.push_str(&self.samples.iter().map(|(k, v)| format!("{}:[{}]", jstr(k), v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        o.push_str("},\"violations\":[");
        o.push_str(
            &self
                .violations
                .iter()
                .map(|v| {
                    let parts = v.parts.iter().map(|p| jstr(p)).collect::<Vec<_>>().join(",");
                    format!("{{\"workload\":{},\"kind\":{},\"parts\":[{}],\"detail\":{}}}", jstr(&v.workload), jstr(&v.kind), parts, jstr(&v.detail))
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        o.push_str("],\"notes\":[");
        o.push_str(&self.notes.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
        o.push_str("],\"digest\":");
        o.push_str(&self.digest.as_ref().map_or("null".into(), |d| jstr(d)));
        // distinct hashes travel as a compact list so that shards can be merged exactly
        o.push_str(",\"distinct\":[");
        o.push_str(&self.distinct.iter().map(|x| (x >> 12).to_string()).collect::<Vec<_>>().join(","));
        o.push_str("]}");
        o
    }
}
