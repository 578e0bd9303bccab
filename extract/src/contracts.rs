//! Parser of the contract files (/verif/contracts/*.ct).
//!
//! `@@ KIND KEY` opens a section, `@name args` a directive; the lines after a directive are its text.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Directive {
    pub name: String,
    pub args: String,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct Section {
    pub kind: String,
    pub key: String,
    pub file: String,
    pub dirs: Vec<Directive>,
}

impl Section {
    pub fn get(&self, name: &str) -> Option<&Directive> {
        self.dirs.iter().find(|d| d.name == name)
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Directive> + 'a {
        self.dirs.iter().filter(move |d| d.name == name)
    }
    pub fn has(&self, name: &str) -> bool {
        self.get(name).is_some()
    }
}

pub type Contracts = BTreeMap<String, Section>;

pub fn parse_file(path: &str, text: &str, out: &mut Contracts, order: &mut Vec<String>) {
    let mut cur: Option<Section> = None;
    let mut flush = |cur: &mut Option<Section>| {
        if let Some(s) = cur.take() {
            let k = format!("{} {}", s.kind, s.key);
            if out.contains_key(&k) {
                panic!("duplicate contract section {k}");
            }
            order.push(k.clone());
            out.insert(k, s);
        }
    };
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("@@ ") {
            flush(&mut cur);
            let (kind, key) = rest.trim().split_once(' ').unwrap_or((rest.trim(), ""));
            cur = Some(Section { kind: kind.into(), key: key.trim().into(), file: path.into(), dirs: vec![] });
        } else if let Some(rest) = line.strip_prefix('@') {
            let (name, args) = rest.trim().split_once(' ').unwrap_or((rest.trim(), ""));
            cur.as_mut().expect("directive outside a section").dirs.push(Directive {
                name: name.into(),
                args: args.trim().into(),
                text: String::new(),
            });
        } else if line.starts_with("##") {
            // comment
        } else if let Some(s) = cur.as_mut() {
            if let Some(d) = s.dirs.last_mut() {
                d.text.push_str(line);
                d.text.push('\n');
            } else if !line.trim().is_empty() {
                panic!("{path}: text before a directive in section {}: {line}", s.key);
            }
        }
    }
    flush(&mut cur);
}
