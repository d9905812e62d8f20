//! weave: copies functions and types out of /repo's source and weaves the
//! contracts of a specification file into them, for Verus.
//!
//!   weave SPEC REPO OUT.rs OUT.map [--lose KEY]...
//!
//! The specification file is Verus text with directives (lines that start
//! with '@'); see DESIGN.md, "The weaver".  Every rewrite that is applied to
//! the copied text is one of the fixed rules below and is listed in OUT.map.
mod rewrite;
use rewrite::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

fn die(m: &str) -> ! {
    eprintln!("weave: {}", m);
    std::process::exit(3)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct FnDirective {
    file: String,
    path: String,
    opts: BTreeMap<String, String>,
    sections: Vec<(String, String)>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        die("usage");
    }
    let (spec, repo, out, map) = (&args[1], &args[2], &args[3], &args[4]);
    let mut lose = vec![];
    let mut i = 5;
    while i + 1 < args.len() {
        if args[i] == "--lose" {
            lose.push(args[i + 1].clone());
        }
        i += 2;
    }
    let mut w = Weaver {
        repo: PathBuf::from(repo),
        out: String::new(),
        line: 1,
        entries: vec![],
        lose,
        files: BTreeMap::new(),
        maps: vec![],
        spec_dir: Path::new(spec).parent().unwrap().to_path_buf(),
        included: vec![],
        imported: false,
    };
    w.process_file(Path::new(spec));
    std::fs::write(out, &w.out).unwrap_or_else(|e| die(&e.to_string()));
    let mut m = String::from("[\n");
    for (i, e) in w.entries.iter().enumerate() {
        if i > 0 {
            m.push_str(",\n");
        }
        m.push_str(e);
    }
    m.push_str("\n]\n");
    std::fs::write(map, m).unwrap_or_else(|e| die(&e.to_string()));
}

struct Weaver {
    repo: PathBuf,
    out: String,
    line: usize,
    entries: Vec<String>,
    lose: Vec<String>,
    files: BTreeMap<String, Result<(String, syn::File), String>>,
    maps: Vec<(String, String)>,
    spec_dir: PathBuf,
    included: Vec<PathBuf>,
    imported: bool,
}

impl Weaver {
    fn emit(&mut self, s: &str) {
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }

    fn load(&mut self, file: &str) -> Result<(String, syn::File), String> {
        if !self.files.contains_key(file) {
            let p = self.repo.join(file);
            let r = std::fs::read_to_string(&p)
                .map_err(|e| format!("{}: {}", file, e))
                .and_then(|t| {
                    let t = rewrite::named_maps(&t);
                    syn::parse_file(&t)
                        .map(|f| (t, f))
                        .map_err(|e| format!("{}: {}", file, e))
                });
            self.files.insert(file.to_string(), r);
        }
        self.files[file].clone()
    }

    fn process_file(&mut self, p: &Path) {
        let canon = p.to_path_buf();
        if self.included.contains(&canon) {
            return;
        }
        self.included.push(canon);
        let text = std::fs::read_to_string(p)
            .unwrap_or_else(|e| die(&format!("{}: {}", p.display(), e)));
        let mut lines = text.lines().peekable();
        while let Some(l) = lines.next() {
            let t = l.trim_start();
            if !t.starts_with('@') {
                self.emit(l);
                self.emit("\n");
                continue;
            }
            let mut words = t.split_whitespace();
            match words.next().unwrap() {
                "@include" => {
                    let f = words.next().unwrap().to_string();
                    let q = self.spec_dir.join(f);
                    // contracts proved in another unit, used here
                    let save = self.imported;
                    if words.next() == Some("imported") {
                        self.imported = true;
                    }
                    self.process_file(&q);
                    self.imported = save;
                }
                "@map" => {
                    let rest = t["@map".len()..].trim();
                    let (a, b) = rest.split_once("=>").unwrap();
                    self.maps
                        .insert(0, (a.trim().to_string(), b.trim().to_string()));
                }
                "@item" => {
                    let file = words.next().unwrap().to_string();
                    let name = words.next().unwrap().to_string();
                    let opts = parse_opts(words);
                    self.item(&file, &name, &opts);
                }
                "@fn" => {
                    let mut d = FnDirective {
                        file: words.next().unwrap().to_string(),
                        path: words.next().unwrap().to_string(),
                        opts: parse_opts(words),
                        sections: vec![],
                    };
                    loop {
                        let l = match lines.next() {
                            Some(l) => l,
                            None => die(&format!("no @end for {}", d.path)),
                        };
                        let t = l.trim_start();
                        if t.starts_with("@end") {
                            break;
                        }
                        if let Some(h) = t.strip_prefix('@') {
                            d.sections
                                .push((h.trim().to_string(), String::new()));
                        } else {
                            match d.sections.last_mut() {
                                Some(s) => {
                                    s.1.push_str(l);
                                    s.1.push('\n');
                                }
                                None if t.is_empty() => {}
                                None => {
                                    die(&format!("text before section: {}", l))
                                }
                            }
                        }
                    }
                    self.func(&d);
                }
                x => die(&format!("unknown directive {}", x)),
            }
        }
    }

    fn item(
        &mut self,
        file: &str,
        name: &str,
        opts: &BTreeMap<String, String>,
    ) {
        let r = self.load(file).and_then(|(text, f)| {
            find_item(&f.items, name)
                .ok_or_else(|| format!("{}: no type {}", file, name))
                .and_then(|it| {
                    render_item(&text, &it, opts, &self.maps)
                })
        });
        match r {
            Ok(t) => {
                let start = self.line;
                self.emit(&t);
                self.emit("\n");
                self.entries.push(format!(
                    "{{\"kind\":\"item\",\"key\":{},\"file\":{},\"status\":\"ok\",\"start\":{},\"end\":{}}}",
                    esc(name), esc(file), start, self.line
                ));
            }
            Err(e) => {
                // without its types no function of the unit can be stated
                self.entries.push(format!(
                    "{{\"kind\":\"item\",\"key\":{},\"file\":{},\"status\":\"lost\",\"reason\":{},\"start\":{},\"end\":{}}}",
                    esc(name), esc(file), esc(&e), self.line, self.line
                ));
            }
        }
    }

    fn func(&mut self, d: &FnDirective) {
        let key = d.opts.get("key").cloned().unwrap_or(d.path.clone());
        let mut secs: BTreeMap<String, String> = BTreeMap::new();
        for (k, v) in &d.sections {
            secs.entry(k.clone()).or_default().push_str(v);
        }
        let imp = self.imported || d.opts.contains_key("import");
        let forced = imp || self.lose.contains(&key);
        let kind = if imp { "import" } else { "fn" };
        let loaded = self.load(&d.file);
        let (text, node) = match loaded
            .and_then(|(text, f)| find_fn(&f, &d.path).map(|n| (text, n)))
        {
            Ok(x) => x,
            Err(e) => {
                // emit the contract as an assumption when a signature is
                // given, so that the rest of the unit can still be checked
                let start = self.line;
                if let Some(sig) = secs.get("sig") {
                    let t = format!(
                        "#[verifier::external_body]\n{} {} {{ unimplemented!() }}\n",
                        sig.trim(), secs.get("spec").cloned().unwrap_or_default()
                    );
                    self.emit(&t);
                }
                self.entries.push(format!(
                    "{{\"kind\":\"{}\",\"key\":{},\"file\":{},\"status\":\"lost\",\"reason\":{},\"start\":{},\"end\":{}}}",
                    kind, esc(&key), esc(&d.file), esc(&e), start, self.line
                ));
                return;
            }
        };
        let r = render_fn(&text, &node, &secs, &d.opts, &self.maps, forced);
        let start = self.line;
        let mut e = String::new();
        let (status, reason, body) = match r {
            Ok(ok) => {
                let reason = ok.lost.clone().unwrap_or_default();
                let st = if forced {
                    "lost"
                } else if ok.lost.is_some() {
                    "lost"
                } else {
                    "ok"
                };
                let reason = if forced && reason.is_empty() {
                    "verifier could not process the woven text".to_string()
                } else {
                    reason
                };
                (st, reason, ok)
            }
            Err(m) => die(&format!("{}: {}", key, m)),
        };
        self.emit(&body.text);
        self.emit("\n");
        write!(
            e,
            "{{\"kind\":\"{}\",\"key\":{},\"file\":{},\"src_line\":{},\"status\":{},\"reason\":{},\"start\":{},\"end\":{},\"rewrites\":[{}]}}",
            kind, esc(&key), esc(&d.file), body.src_line, esc(status), esc(&reason), start, self.line,
            body.rules.iter().map(|r| esc(r)).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        self.entries.push(e);
    }
}

fn parse_opts<'a>(
    words: impl Iterator<Item = &'a str>,
) -> BTreeMap<String, String> {
    let mut o = BTreeMap::new();
    for w in words {
        if let Some((a, b)) = w.split_once('=') {
            o.insert(a.to_string(), b.to_string());
        } else {
            o.insert(w.to_string(), String::new());
        }
    }
    o
}
