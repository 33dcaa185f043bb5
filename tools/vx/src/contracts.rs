//! The contract files: text blocks attached to functions, loops, traits and modules by key.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, String>,
    pub begin: BTreeMap<String, String>,
    pub tail: BTreeMap<String, String>,
    pub attr: BTreeMap<String, String>,
    pub loops: BTreeMap<(String, usize), String>,
    pub loopbegin: BTreeMap<(String, usize), String>,
    pub loopend: BTreeMap<(String, usize), String>,
    pub loopafter: BTreeMap<(String, usize), String>,
    pub impls: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub mods: BTreeMap<String, String>,
    pub effects: BTreeSet<String>,
    /// traits whose implementations are verified as inherent functions
    pub inherent: BTreeSet<String>,
    pub state: BTreeSet<String>,
    pub externs: Vec<(String, String)>,
    /// (owner of the text, where) for messages
    pub trusted: BTreeSet<String>,
}

impl Contracts {
    pub fn load(dir: &Path) -> Result<Contracts, String> {
        let mut c = Contracts::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false)).collect();
        files.sort();
        for f in files {
            let txt = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let mut cur: Option<(String, Vec<String>)> = None;
            let mut body = String::new();
            for (n, line) in txt.lines().chain(std::iter::once("@end")).enumerate() {
                if let Some(d) = line.strip_prefix('@') {
                    if let Some((kind, args)) = cur.take() {
                        c.add(&kind, &args, std::mem::take(&mut body)).map_err(|e| format!("{}:{}: {e}", f.display(), n))?;
                    }
                    body.clear();
                    let mut it = d.split(" | ");
                    let head = it.next().unwrap();
                    let (kind, rest) = head.split_once(' ').unwrap_or((head, ""));
                    if kind != "end" {
                        let mut args = vec![rest.trim().to_string()];
                        args.extend(it.map(|s| s.trim().to_string()));
                        cur = Some((kind.to_string(), args));
                    }
                } else if !line.starts_with("#") {
                    body.push_str(line);
                    body.push('\n');
                }
            }
        }
        Ok(c)
    }

    fn add(&mut self, kind: &str, args: &[String], body: String) -> Result<(), String> {
        let k = args[0].clone();
        let n = || -> Result<usize, String> { args.get(1).and_then(|s| s.parse().ok()).ok_or_else(|| "loop number".to_string()) };
        match kind {
            "fn" => {
                for k in args {
                    *self.fns.entry(k.clone()).or_default() += &body;
                }
            }
            "begin" => *self.begin.entry(k).or_default() += &body,
            "tail" => *self.tail.entry(k).or_default() += &body,
            "attr" => *self.attr.entry(k).or_default() += &body,
            "loop" => *self.loops.entry((k, n()?)).or_default() += &body,
            "loopbegin" => *self.loopbegin.entry((k, n()?)).or_default() += &body,
            "loopend" => *self.loopend.entry((k, n()?)).or_default() += &body,
            "loopafter" => *self.loopafter.entry((k, n()?)).or_default() += &body,
            "impl" => *self.impls.entry(k).or_default() += &body,
            "trait" => *self.traits.entry(k).or_default() += &body,
            "mod" => *self.mods.entry(k).or_default() += &body,
            "effect" => {
                self.effects.insert(k);
                for l in body.lines() {
                    if !l.trim().is_empty() {
                        self.effects.insert(l.trim().to_string());
                    }
                }
            }
            "inherent" => {
                self.inherent.insert(k);
            }
            "state" => {
                self.state.insert(k);
            }
            "extern" => {
                for l in body.lines() {
                    if let Some((a, b)) = l.split_once('=') {
                        self.externs.push((a.trim().to_string(), b.trim().to_string()));
                    }
                }
            }
            _ => return Err(format!("unknown directive @{kind}")),
        }
        Ok(())
    }
}
