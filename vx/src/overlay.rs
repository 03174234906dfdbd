//! Overlay files: contracts and ghost text, keyed by function, impl, trait, type or module.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Mode {
    #[default]
    Verify,
    /// body not verified, contract assumed
    External,
    /// not part of the verified crate
    Drop,
    /// a provided trait method whose body is left out: implementations must satisfy the contract on their own
    Required,
}

#[derive(Clone, Default, Debug)]
pub struct LoopOv {
    pub spec: String,
    pub start: String,
    pub end: String,
    pub pre: String,
    pub iter: String,
    /// a `for` over a sequence that is there as a whole before the loop starts
    pub items: bool,
}

#[derive(Clone, Default, Debug)]
pub struct ClOv {
    pub params: String,
    pub ret: String,
    pub spec: String,
    pub start: String,
}

/// A run of statements of a long function that is verified as a function of its own.
#[derive(Clone, Default, Debug)]
pub struct PartOv {
    pub name: String,
    /// the let that starts it (bound name); it ends where the next part starts, or before the last expression
    pub at: String,
    pub sig: String,
    pub spec: String,
    pub start: String,
    pub out: String,
    pub call: String,
}

#[derive(Clone, Default, Debug)]
pub struct FnOv {
    pub mode: Mode,
    pub ret: String,
    pub spec: String,
    /// contract of the provided body of a `required` trait method, extracted as a free function
    pub dspec: Option<String>,
    /// expression (token text) -> replacement with an assumed contract
    pub subst: Vec<(String, String)>,
    pub start: String,
    pub tail: String,
    pub match_pre: String,
    pub match_post: String,
    /// contract of the functions made of each `match` on a parameter: signature, then spec
    pub outline: Option<String>,
    /// the same for top-level `if`s about one field of self: `SKIPPED FIELD => IMPL HEADER`, then the method with $X
    pub ifs: Option<String>,
    pub alloc: String,
    pub into: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, LoopOv>,
    pub closures: BTreeMap<String, ClOv>,
    pub parts: Vec<PartOv>,
    pub reason: String,
    pub listed: bool,
}

#[derive(Default)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnOv>,
    /// the parameters' names when the contracts were written
    pub params: BTreeMap<String, Vec<String>>,
    pub impls: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub modules: BTreeMap<String, String>,
    pub derives: BTreeMap<String, String>,
    pub drop_impls: BTreeSet<String>,
    pub drop_items: BTreeSet<String>,
    pub drop_traits: BTreeSet<String>,
    /// trait impls whose methods are verified as inherent methods (the trait has no place for a precondition)
    pub inherent: BTreeMap<String, String>,
    /// impls written by a derive, taken from rustc's expansion
    pub derived: BTreeSet<String>,
    /// what a From impl computes from `v`, for `?`
    pub from_spec: BTreeMap<String, String>,
    pub macros: BTreeMap<String, String>,
    pub expand: BTreeSet<String>,
    /// generics of the free functions made from provided methods of a trait
    pub generics: BTreeMap<String, String>,
}

impl Overlay {
    pub fn load(dir: &str) -> Self {
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .expect("spec dir")
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map_or(false, |e| e == "vo"))
            .collect();
        files.sort();
        let mut ov = Overlay::default();
        for l in std::fs::read_to_string(format!("{dir}/params.txt")).unwrap_or_default().lines() {
            if let Some((k, v)) = l.split_once('\t') {
                ov.params.insert(k.to_string(), v.split(',').map(String::from).collect());
            }
        }
        let mut defs: BTreeMap<String, String> = BTreeMap::new();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap();
            ov.load_text(&text, &f.display().to_string(), &mut defs);
        }
        ov
    }

    fn load_text(&mut self, text: &str, file: &str, defs: &mut BTreeMap<String, String>) {
        let mut head: Option<(String, String)> = None;
        let mut sub: Option<(String, String)> = None;
        let mut buf = String::new();
        let mut pend: Vec<(String, String, String, String, String)> = Vec::new(); // kind,key,sub,subkey,text
        macro_rules! flush {
            () => {
                if let Some((k, n)) = &head {
                    let (s, sn) = sub.clone().unwrap_or_default();
                    pend.push((k.clone(), n.clone(), s, sn, std::mem::take(&mut buf)));
                } else {
                    buf.clear();
                }
            };
        }
        for line in text.lines() {
            if line.starts_with("#!") {
                continue;
            } else if let Some(h) = line.strip_prefix("=== ") {
                flush!();
                let (k, n) = h.split_once(' ').unwrap_or((h, ""));
                head = Some((k.trim().into(), n.trim().into()));
                sub = None;
            } else if let Some(h) = line.strip_prefix("--- ") {
                flush!();
                let (k, n) = h.split_once(' ').unwrap_or((h, ""));
                sub = Some((k.trim().into(), n.trim().into()));
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        flush!();
        for (k, n, s, sn, t) in pend {
            let mut t = t;
            for (d, v) in defs.iter() {
                t = t.replace(&format!("${d}$"), v);
            }
            match (&*k, &*s) {
                ("def", "") => {
                    defs.insert(n, t.trim_end().to_string());
                }
                ("module", "") => self.modules.entry(n).or_default().push_str(&t),
                ("impl", "") => self.impls.entry(n).or_default().push_str(&t),
                ("trait", "") => self.traits.entry(n).or_default().push_str(&t),
                ("derive", "") => {
                    self.derives.insert(n, t.trim().to_string());
                }
                ("generics", "") => {
                    self.generics.insert(n, t.trim().to_string());
                }
                ("drop-impl", "") => {
                    self.drop_impls.insert(n);
                }
                ("drop-item", "") => {
                    self.drop_items.insert(n);
                }
                ("drop-trait", "") => {
                    self.drop_traits.insert(n);
                }
                ("inherent", "") => {
                    // "KEY" or "KEY : METHOD" (the name the method gets, when several impls have one of the same name)
                    let (k, m) = n.split_once(" : ").unwrap_or((&n, ""));
                    self.inherent.insert(k.trim().into(), m.trim().into());
                }
                ("derived", "") => {
                    self.derived.insert(n);
                }
                ("from-spec", "") => {
                    self.from_spec.insert(n, t.trim().to_string());
                }
                ("expand", "") => {
                    self.expand.insert(n);
                }
                ("fn", _) => {
                    let f = self.fns.entry(n.clone()).or_default();
                    f.listed = true;
                    match &*s {
                        "" => assert!(t.trim().is_empty(), "{file}: text before --- in fn {n}: {t}"),
                        "ret" => f.ret = sn,
                        "mode" => {
                            f.mode = match &*sn {
                                "external" => Mode::External,
                                "drop" => Mode::Drop,
                                "required" => Mode::Required,
                                _ => panic!("mode {sn}"),
                            };
                            f.reason = t.trim().to_string();
                        }
                        "spec" => f.spec = t,
                        "dspec" => f.dspec = Some(t),
                        "subst" => {
                            for l in t.lines().filter(|l| !l.trim().is_empty()) {
                                let (a, b) = l.split_once(" => ").unwrap_or_else(|| panic!("{file}: subst {l}"));
                                f.subst.push((a.trim().to_string(), b.trim().to_string()));
                            }
                        }
                        "start" => f.start = t,
                        "tail" => f.tail = t,
                        "matches" => match sn.trim() {
                            "pre" => f.match_pre = t,
                            "post" => f.match_post = t,
                            "outline" => f.outline = Some(t),
                            o => panic!("matches {o}"),
                        },
                        "alloc" => f.alloc = sn,
                        "into" => f.into = sn,
                        "ifs" => f.ifs = Some(t),
                        "attrs" => f.attrs.push_str(&t),
                        "loop" => {
                            let mut it = sn.split_whitespace();
                            let i: usize = it.next().unwrap().parse().unwrap();
                            let l = f.loops.entry(i).or_default();
                            match it.next() {
                                None => l.spec = t,
                                Some("start") => l.start = t,
                                Some("end") => l.end = t,
                                Some("pre") => l.pre = t,
                                Some("items") => l.items = true,
                                Some("iter") => l.iter = t.trim().to_string(),
                                Some(o) => panic!("loop {o}"),
                            }
                        }
                        "part" => {
                            let mut it = sn.split_whitespace();
                            let name = it.next().unwrap().to_string();
                            if f.parts.last().map_or(true, |x| x.name != name) {
                                f.parts.push(PartOv { name, ..Default::default() });
                            }
                            let x = f.parts.last_mut().unwrap();
                            match it.next() {
                                Some("at") => x.at = t.trim().to_string(),
                                Some("sig") => x.sig = t.trim().to_string(),
                                Some("spec") => x.spec = t,
                                Some("start") => x.start = t,
                                Some("out") => x.out = t.trim().to_string(),
                                Some("call") => x.call = t.trim().to_string(),
                                o => panic!("{file}: part {o:?}"),
                            }
                        }
                        "closure" => {
                            let mut it = sn.split_whitespace();
                            let name = it.next().unwrap().to_string();
                            let c = f.closures.entry(name).or_default();
                            match it.next() {
                                Some("params") => c.params = t.trim().to_string(),
                                Some("ret") => c.ret = t.trim().to_string(),
                                Some("spec") => c.spec = t,
                                Some("start") => c.start = t,
                                o => panic!("{file}: closure {o:?}"),
                            }
                        }
                        o => panic!("{file}: unknown section {o}"),
                    }
                }
                o => panic!("{file}: unknown header {o:?}"),
            }
        }
    }
}
