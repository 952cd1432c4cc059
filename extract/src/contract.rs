use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct LoopContract {
    pub vars: Vec<String>,
    pub inv: String,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Default, Clone)]
pub struct FnContract {
    pub path: String,
    pub params: Vec<String>,
    pub ret: String,
    pub spec: String,
    pub entry: String,
    pub tail: String,
    pub attrs: String,
    pub trusted: Option<String>,
    pub props: Vec<String>,
    pub loops: BTreeMap<usize, LoopContract>,
    pub hints: Vec<(String, String)>, // (local name, text): inserted after `let name = ..;`
}

#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub structs: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub mod_text: BTreeMap<String, String>,
    pub consts: Vec<(String, String)>,
}

enum Cur {
    None,
    Spec(String),
    Entry(String),
    Tail(String),
    Loop(String, usize, u8),
    Hint(String),
    Struct(String),
    Trait(String),
    Impl(String),
    Module(String),
}

impl Contracts {
    pub fn parse(&mut self, txt: &str, file: &str) {
        // @matterimpl a::T / @indexerimpl a::T: the accessors of a field-backed primitive
        let mut full = String::new();
        for l in txt.lines() {
            if let Some(t) = l.strip_prefix("@matterimpl ") {
                let t = t.trim();
                full.push_str(&format!("@impl {t} as Matter\n    open spec fn mv(&self) -> MV {{ MV {{ code: self.code@, size: self.size as int, raw: self.raw@ }} }}\n"));
                full.push_str(&format!("@fn {t} as Default::default() -> res\n"));
                for f in ["code(self) -> res", "raw(self) -> res", "size(self) -> res", "set_code(self, code)", "set_raw(self, raw)", "set_size(self, size)"] {
                    full.push_str(&format!("@fn {t} as Matter::{f}\n"));
                }
            } else if let Some(t) = l.strip_prefix("@indexerimpl ") {
                let t = t.trim();
                full.push_str(&format!("@impl {t} as Indexer\n    open spec fn iv(&self) -> IV {{ IV {{ code: self.code@, index: self.index as int, ondex: self.ondex as int, raw: self.raw@ }} }}\n"));
                full.push_str(&format!("@fn {t} as Default::default() -> res\n"));
                for f in ["code(self) -> res", "raw(self) -> res", "index(self) -> res", "ondex(self) -> res", "set_code(self, code)", "set_raw(self, raw)", "set_index(self, size)", "set_ondex(self, size)"] {
                    full.push_str(&format!("@fn {t} as Indexer::{f}\n"));
                }
            } else if let Some(t) = l.strip_prefix("@sadderimpl ") {
                let t = t.trim();
                full.push_str(&format!("@struct {t}\n@impl {t} as Sadder\n    open spec fn sv(&self) -> SV {{ SV {{ code: self.code@, raw: self.raw@, ked: vw(self.ked), ident: self.ident@, kind: self.kind@, size: self.size as int, major: self.version.major as int, minor: self.version.minor as int, said: self.saider.mv() }} }}\n"));
                full.push_str(&format!("@fn {t} as Default::default() -> res\n"));
                for f in ["code", "raw", "ked", "ident", "kind", "size", "version", "saider"] {
                    full.push_str(&format!("@fn {t} as Sadder::{f}(self) -> res\n@fn {t} as Sadder::set_{f}(self, {f})\n"));
                }
            } else {
                full.push_str(l);
                full.push('\n');
            }
        }
        let txt = &full;
        let mut cur = Cur::None;
        for (ln, line) in txt.lines().enumerate() {
            if let Some(d) = line.strip_prefix('@') {
                let (kw, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
                let rest = rest.trim();
                match kw {
                    "fn" => {
                        let (p, r) = rest.split_once('(').unwrap_or_else(|| panic!("{file}:{ln}"));
                        let (ps, r) = r.split_once(')').unwrap();
                        let ret = r.trim().strip_prefix("->").map(|s| s.trim().to_string()).unwrap_or_default();
                        let params = ps.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                        let path = p.trim().to_string();
                        assert!(!self.fns.contains_key(&path), "duplicate contract {path}");
                        self.fns.insert(path.clone(), FnContract { path: path.clone(), params, ret, ..Default::default() });
                        cur = Cur::Spec(path);
                    }
                    "entry" | "tail" | "attrs" | "trusted" | "props" | "loop" | "after" => {
                        let p = match &cur {
                            Cur::Spec(p) | Cur::Entry(p) | Cur::Tail(p) | Cur::Hint(p) => p.clone(),
                            Cur::Loop(p, ..) => p.clone(),
                            _ => panic!("{file}:{}: directive outside @fn", ln + 1),
                        };
                        let f = self.fns.get_mut(&p).unwrap();
                        match kw {
                            "entry" => cur = Cur::Entry(p),
                            "tail" => cur = Cur::Tail(p),
                            "attrs" => {
                                f.attrs = rest.to_string();
                            }
                            "trusted" => {
                                f.trusted = Some(rest.to_string());
                            }
                            "props" => {
                                f.props = rest.split_whitespace().map(|s| s.to_string()).collect();
                            }
                            "after" => {
                                f.hints.push((rest.to_string(), String::new()));
                                cur = Cur::Hint(p);
                            }
                            _ => {
                                let mut it = rest.splitn(2, char::is_whitespace);
                                let n: usize = it.next().unwrap().parse().unwrap();
                                let r = it.next().unwrap_or("").trim().to_string();
                                let l = f.loops.entry(n).or_default();
                                let mode = match r.as_str() {
                                    "start" => 1,
                                    "end" => 2,
                                    "after" => 3,
                                    "before" => 4,
                                    _ => 0,
                                };
                                if let Some(v) = r.strip_prefix("vars(") {
                                    l.vars =
                                        v.trim_end_matches(')').split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                                }
                                cur = Cur::Loop(p, n, mode);
                            }
                        }
                    }
                    "struct" => {
                        self.structs.entry(rest.into()).or_default();
                        cur = Cur::Struct(rest.into())
                    }
                    "trait" => {
                        self.traits.entry(rest.into()).or_default();
                        cur = Cur::Trait(rest.into())
                    }
                    "impl" => {
                        self.impls.entry(rest.into()).or_default();
                        cur = Cur::Impl(rest.into())
                    }
                    "module" => {
                        self.mod_text.entry(rest.into()).or_default();
                        cur = Cur::Module(rest.into())
                    }
                    "consts" => {
                        let (a, b) = rest.split_once(char::is_whitespace).expect("@consts module predicate");
                        self.consts.push((a.to_string(), b.trim().to_string()));
                        cur = Cur::None;
                    }
                    "#" => {}
                    _ => panic!("{file}:{}: unknown directive {kw}", ln + 1),
                }
                continue;
            }
            let tgt: &mut String = match &cur {
                Cur::None => continue,
                Cur::Spec(p) => &mut self.fns.get_mut(p).unwrap().spec,
                Cur::Entry(p) => &mut self.fns.get_mut(p).unwrap().entry,
                Cur::Tail(p) => &mut self.fns.get_mut(p).unwrap().tail,
                Cur::Hint(p) => &mut self.fns.get_mut(p).unwrap().hints.last_mut().unwrap().1,
                Cur::Loop(p, n, m) => {
                    let l = self.fns.get_mut(p).unwrap().loops.get_mut(n).unwrap();
                    match m {
                        1 => &mut l.start,
                        2 => &mut l.end,
                        3 => &mut l.after,
                        4 => &mut l.before,
                        _ => &mut l.inv,
                    }
                }
                Cur::Struct(p) => self.structs.get_mut(p).unwrap(),
                Cur::Trait(p) => self.traits.get_mut(p).unwrap(),
                Cur::Impl(p) => self.impls.get_mut(p).unwrap(),
                Cur::Module(p) => self.mod_text.get_mut(p).unwrap(),
            };
            tgt.push_str(line);
            tgt.push('\n');
        }
    }

    pub fn modules(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        let up = |p: &str| p.rsplit_once("::").map(|x| x.0.to_string());
        for k in self.fns.keys() {
            // a::b::f | a::b::T::f | a::b::T as Tr::f
            if let Some((a, _)) = k.split_once(" as ") {
                s.extend(up(a));
            } else if let Some(p) = up(k) {
                let last = p.rsplit("::").next().unwrap();
                let is_type = self.structs.contains_key(&p) || self.traits.contains_key(&p);
                let _ = last;
                if is_type {
                    s.extend(up(&p));
                } else {
                    s.insert(p);
                }
            }
        }
        for k in self.structs.keys().chain(self.traits.keys()) {
            s.extend(up(k));
        }
        for k in self.impls.keys() {
            let a = k.split(' ').next().unwrap();
            s.extend(up(a));
        }
        for k in self.mod_text.keys() {
            s.insert(k.clone());
        }
        for (k, _) in &self.consts {
            s.insert(k.clone());
        }
        s
    }
}
