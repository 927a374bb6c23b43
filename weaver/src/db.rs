//! Contract database: `specs/*.ct`.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Contract {
    pub key: String,
    pub params: Vec<String>,
    pub ret: String,
    pub loops: Option<usize>,
    pub vars: Vec<(String, String)>,
    pub collect: Vec<(String, String)>,
    pub requires: Vec<String>,
    pub ensures: Vec<String>,
    pub decreases: Vec<String>,
    pub inv: BTreeMap<usize, Vec<String>>,
    pub decr: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub bits: Option<String>,
    /// roles that need not be filled
    pub optional: std::collections::HashSet<String>,
}

pub fn parse(text: &str) -> Vec<Contract> {
    let mut out: Vec<Contract> = vec![];
    let mut sect = String::new();
    let mut buf = String::new();
    fn flush(out: &mut Vec<Contract>, sect: &str, buf: &mut String) {
        let b = buf.trim_end().to_string();
        buf.clear();
        if sect.is_empty() || out.is_empty() {
            return;
        }
        let c = out.last_mut().unwrap();
        let w: Vec<&str> = sect.split_whitespace().collect();
        match w[0] {
            "requires" => c.requires.push(b),
            "ensures" => c.ensures.push(b),
            "decreases" => c.decreases.push(b),
            "loop" => c
                .inv
                .entry(w[1].parse().unwrap())
                .or_default()
                .push(b),
            "decr" => {
                c.decr.insert(w[1].parse().unwrap(), b);
            }
            "at" => c.at.push((w[1..].join(" "), b)),
            "bits" => c.bits = Some(b),
            "fn" => {}
            x => panic!("contract database: unknown section @{}", x),
        }
    }
    for line in text.lines() {
        if let Some(d) = line.strip_prefix('@') {
            flush(&mut out, &sect, &mut buf);
            let d = d.trim();
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "fn" => {
                    let rest = d[2..].trim();
                    let p = rest.find('(').unwrap();
                    let q = rest.rfind(')').unwrap();
                    let mut c = Contract {
                        key: rest[..p].trim().to_string(),
                        ret: "r".into(),
                        ..Default::default()
                    };
                    c.params = rest[p + 1..q]
                        .split(',')
                        .map(|x| x.trim().to_string())
                        .filter(|x| !x.is_empty())
                        .collect();
                    if let Some(x) = rest[q..].find("->") {
                        c.ret = rest[q + x + 2..].trim().to_string();
                    }
                    out.push(c);
                    sect = "fn".into();
                }
                "struct" => sect = String::new(),
                "loops" => {
                    out.last_mut().unwrap().loops = Some(w[1].parse().unwrap());
                    sect = String::new();
                }
                "var" | "var?" => {
                    let c = out.last_mut().unwrap();
                    if w[0] == "var?" {
                        c.optional.insert(w[1].to_string());
                    }
                    let t = w[2..].join(" ");
                    match t.split_once(" = ") {
                        // a role normally played by the vector a collect() fills
                        Some((t, d)) => {
                            c.vars.push((w[1].to_string(), t.trim().to_string()));
                            c.collect.push((w[1].to_string(), d.trim().to_string()));
                        }
                        None => c.vars.push((w[1].to_string(), t)),
                    }
                    sect = String::new();
                }
                "attr" => {
                    out.last_mut().unwrap().attrs.push(d[4..].trim().into());
                    sect = String::new();
                }
                _ => sect = d.to_string(),
            }
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut out, &sect, &mut buf);
    out
}
