//! An include stands for the rules of the file it names.
use louis::verif_tables as probe;
use louis::{Direction, Translator};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vharness::e2e::*;
use vharness::*;

/// the files of one case: path below the scratch directory -> text, or the target of a symbolic link
struct Tree {
    root: PathBuf,
    dirs: Vec<&'static str>,
    files: BTreeMap<String, String>,
    links: BTreeMap<String, String>,
}
impl Tree {
    /// first directory of the search path that has it
    fn find(&self, name: &str) -> Option<String> {
        let p = PathBuf::from(name);
        if p.is_absolute() {
            let s = p.strip_prefix(&self.root).ok()?.to_str()?.to_string();
            return (self.files.contains_key(&s) || self.links.contains_key(&s)).then_some(s);
        }
        self.dirs.iter().map(|d| format!("{d}/{name}")).find(|s| self.files.contains_key(s) || self.links.contains_key(s))
    }
    fn real(&self, f: &str) -> String {
        self.links.get(f).cloned().unwrap_or(f.to_string())
    }
    fn full(&self, f: &str) -> PathBuf {
        self.root.join(f)
    }
    /// rules and errors of one file, includes replaced; and the same as one text
    fn expand(&self, name: &str, chain: &[String], text: &mut String) -> Result<Vec<String>, Vec<String>> {
        let Some(f) = self.find(name) else { return Err(vec![format!("TableNotFound({name:?})")]) };
        let real = self.real(&f);
        if chain.len() >= 64 { return Err(vec!["IncludeTooDeep(64)".into()]); }
        if chain.contains(&real) {
            let v: Vec<PathBuf> = chain.iter().chain([&real]).map(|x| self.full(x)).collect();
            return Err(vec![format!("CircularInclude({v:?})")]);
        }
        let chain: Vec<String> = chain.iter().cloned().chain([real.clone()]).collect();
        let (mut rules, mut errors) = (vec![], vec![]);
        let here = Some(self.full(&f));
        let mut includes = vec![];
        for (i, l) in self.files[&real].lines().enumerate() {
            if l.trim().is_empty() || l.trim().starts_with('#') { continue; }
            match probe::line(l) {
                Ok(x) => match l.strip_prefix("include ") {
                    Some(g) => includes.push((rules.len(), g.to_string(), i + 1)),
                    None => rules.push((l.to_string(), format!("AnchoredRule {{ rule: {x}, path: {here:?}, line: {} }}", i + 1))),
                },
                Err(x) => errors.push(format!("ParseError {{ path: {here:?}, line: {}, error: {x} }}", i + 1)),
            }
        }
        if !errors.is_empty() { return Err(errors); }
        let mut out = vec![];
        let mut k = 0;
        for (at, g, line) in includes {
            for (l, x) in &rules[k..at] {
                *text += &format!("{l}\n");
                out.push(x.clone());
            }
            k = at;
            if g.ends_with(".dic") {
                match self.find(&g) {
                    Some(d) => out.push(format!("AnchoredRule {{ rule: IncludeHyphenation {{ path: {:?} }}, path: {here:?}, line: {line} }}", self.full(&d))),
                    None => errors.push(format!("HyphenationTableNotFound({g:?})")),
                }
                continue;
            }
            match self.expand(&g, &chain, text) {
                Ok(v) => out.extend(v),
                Err(v) => errors.extend(v),
            }
        }
        for (l, x) in &rules[k..] {
            *text += &format!("{l}\n");
            out.push(x.clone());
        }
        if errors.is_empty() { Ok(out) } else { Err(errors) }
    }
}
const NAMES: [&str; 8] = ["a.ctb", "b.ctb", "c.cti", "sub/d.uti", "dic", "sub/nordic", "x.dic.ctb", "e"];
fn tree(r: &mut Rng, root: &Path) -> Tree {
    let mut t = Tree { root: root.to_path_buf(), dirs: vec!["one", "two"], files: BTreeMap::new(), links: BTreeMap::new() };
    if r.chance(1, 12) {
        // a chain around the limit
        let n = r.range(60, 68);
        for i in 0..n {
            let l = if i + 1 < n { format!("include f{}.ctb\n", i + 1) } else { String::new() };
            let x = if r.chance(1, 30) { format!("{l}{}", fuzz::line(r)) } else { l };
            t.files.insert(if i == 0 { "one/a.ctb".into() } else { format!("{}/f{i}.ctb", r.pick(&["one", "two"])) }, x);
        }
        return t;
    }
    let wild = r.chance(1, 4);
    let bad = r.chance(1, 5);
    for (k, n) in NAMES.iter().enumerate() {
        let places: &[&str] = if k == 0 { &["one"] } else { *r.pick(&[&["one"][..], &["two"], &["one", "two"], &["two"]]) };
        if k > 0 && bad && r.chance(1, 4) { continue; }
        for d in places {
            let mut s = String::new();
            for _ in 0..r.range(0, 4) {
                let l = match r.below(8) {
                    0..=3 => {
                        // mostly to later files, so that there are results
                        let g = if wild || k + 1 == NAMES.len() { *r.pick(&NAMES) } else { NAMES[r.range(k + 1, NAMES.len() - 1)] };
                        if k + 1 == NAMES.len() && !wild { continue; }
                        match r.below(12) {
                            0 => format!("include {}", root.join("two").join(g).display()),
                            1 if wild => format!("include {}", *r.pick(&["link.ctb", "nope.ctb", "self.ctb"])),
                            2 => format!("include {}", *r.pick(&["h.dic", "h.dic", if bad { "no.dic" } else { "h.dic" }])),
                            3 if r.chance(1, 3) => "include link.ctb".into(),
                            _ => format!("include {g}"),
                        }
                    }
                    4 if bad => r.pick(&["letter ab 1", "nonsense", "include", "always x"]).to_string(),
                    5 => r.pick(&["", "# include b.ctb", "   "]).to_string(),
                    _ => fuzz::line(r),
                };
                s += &l;
                s += *r.pick(&["\n", "\n", "\r\n"]);
            }
            t.files.insert(format!("{d}/{n}"), s);
        }
    }
    t.files.insert("two/h.dic".into(), "UTF-8\na1b\n".into());
    if r.chance(1, 2) {
        t.files.insert("one/h.dic".into(), "UTF-8\n1a\n".into());
    }
    let to = t.files.keys().filter(|k| !k.ends_with(".dic")).cloned().collect::<Vec<_>>();
    let to = r.pick(&to).clone();
    t.links.insert(format!("{}/link.ctb", r.pick(&["one", "two"])), to);
    t
}
fn quiet_sets(l: probe::Listing) -> probe::Listing {
    let f = |v: Vec<String>| v.iter().map(|s| calm(s)).collect();
    l.map(f).map_err(f)
}
fn main() {
    let base = std::env::temp_dir().canonicalize().unwrap().join(format!("louis-verif-c23-{}", std::process::id()));
    let root = base.join("r");
    // before any thread is started
    unsafe { std::env::set_var("LOUIS_TABLE_PATH", format!("{}:{}", root.join("one").display(), root.join("two").display())) };
    let mut run = Run::from_args(
        "random directories of table files that include each other by relative and absolute name, through symbolic links, from two search directories, also \
         several times, in circles, missing, with errors, and in long chains; the list of rules with path and line (or of errors) of the expanded table \
         against an expansion of the files, and its translations against those of the expanded text; non-trivial when a file was included",
        "up to 12 files of up to 4 lines, chains of up to 68 files",
    );
    while run.time_left() {
        let mut r = run.rng.clone();
        let t = tree(&mut r, &root);
        let w: Vec<String> = (0..3).map(|_| fuzz::input(&mut r)).collect();
        run.rng = r;
        let _ = std::fs::remove_dir_all(&base);
        for (f, s) in &t.files {
            std::fs::create_dir_all(t.full(f).parent().unwrap()).unwrap();
            std::fs::write(t.full(f), s).unwrap();
        }
        for (f, g) in &t.links {
            std::fs::create_dir_all(t.full(f).parent().unwrap()).unwrap();
            std::os::unix::fs::symlink(t.full(g), t.full(f)).unwrap();
        }
        std::fs::create_dir_all(root.join("two")).unwrap();
        let desc = t.files.iter().map(|(f, s)| format!("--- {f}\n{s}")).collect::<String>() + &format!("links {:?}", t.links);
        run.case(&desc, || {
            let mut text = String::new();
            let want = t.expand("a.ctb", &[], &mut text);
            let got = quiet_sets(probe::table_expanded(Path::new("a.ctb")));
            let want = quiet_sets(want);
            if got != want { return Err(("includes".into(), format!("got {got:?}\nexpected {want:?}"))); }
            let pulled = t.files["one/a.ctb"].contains("include ");
            for d in [Direction::Forward, Direction::Backward] {
                // one table, and the same table as two tables
                for l in [&["a.ctb"][..], &["a.ctb", "e"]] {
                    let mut all = text.clone();
                    let e = if l.len() > 1 { t.expand("e", &[], &mut all).err() } else { None };
                    let a = Translator::new(l, d);
                    match &want {
                        Err(_) => if a.is_ok() { return Err(("accepted".into(), format!("{d:?}"))); },
                        Ok(v) if e.is_none() && !v.iter().any(|x| x.contains("IncludeHyphenation")) && !all.is_empty() => {
                            let b = Translator::from_table_source(&all, d);
                            if a.is_ok() != b.is_ok() { return Err(("compiles".into(), format!("{d:?}: {a:?}\nas one text: {b:?}"))); }
                            if let (Ok(a), Ok(b)) = (&a, &b) {
                                for w in &w { same("included rules", &translate(a, w, &[])?, &translate(b, w, &[])?)?; }
                            }
                        }
                        Ok(_) => {}
                    }
                }
            }
            Ok(pulled)
        });
    }
    let _ = std::fs::remove_dir_all(&base);
    run.finish()
}
