//! Metadata queries of the command line tool.
use std::collections::BTreeSet;
use std::process::Command;
use vharness::*;

fn tool() -> Option<std::path::PathBuf> {
    let target = std::env::current_exe().ok()?.parent()?.join("louis-tool");
    let ok = Command::new("cargo")
        .args(["build", "--offline", "-q", "--manifest-path", "/repo/Cargo.toml", "--bin", "louis", "--target-dir"])
        .arg(&target)
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR")
        .env_remove("LOUIS_TEST_FORWARD_ONLY")
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?
        .success();
    ok.then(|| target.join("debug/louis"))
}
/// the key and the value that a line declares
fn declares(l: &str) -> Option<(String, String)> {
    let (k, v) = l.strip_prefix("#+")?.split_once(':')?;
    let (k, v) = (k.trim(), v.trim());
    (!k.is_empty() && !v.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric()) && v.chars().all(|c| ('!'..='~').contains(&c))).then(|| (k.to_string(), v.to_string()))
}
fn main() {
    let tool = tool();
    let mut run = Run::from_args(
        "one or two scratch directories with up to five files of metadata and other lines (missing colons, empty keys and values, values with colons, = and spaces, text that is \
         no metadata, a file that is no text), and queries of one to three key=value pairs, some of them without =: the files named are those that declare every value; non-trivial \
         when some file is found and another is not",
        "up to 5 files of up to 6 lines, queries of up to 3 pairs",
    );
    let Some(tool) = tool else { run.finish() };
    let base = std::env::temp_dir().join(format!("louis-c27-{}", std::process::id()));
    while run.time_left() {
        let r = &mut run.rng;
        let _ = std::fs::remove_dir_all(&base);
        let dirs: Vec<_> = (0..r.range(1, 2)).map(|d| base.join(format!("d{d}"))).collect();
        for d in &dirs { std::fs::create_dir_all(d).unwrap(); }
        let keys = ["language", "grade", "type", "k9", "", "a-b", "Language"];
        let values = ["en", "de", "1", "2", "en:us", "a=b", "", "two words", "ä", "!~"];
        let mut files: Vec<(String, Vec<(String, String)>)> = vec![];
        let mut listing = String::new();
        for f in 0..r.range(1, 5) {
            let p = r.pick(&dirs).join(format!("t{f}.ctb"));
            let mut text: Vec<u8> = vec![];
            let mut said = vec![];
            for _ in 0..r.range(0, 6) {
                let (k, v) = (if r.chance(3, 4) { *r.pick(&keys[..3]) } else { *r.pick(&keys) }, if r.chance(3, 4) { *r.pick(&values[..6]) } else { *r.pick(&values) });
                let l = match r.range(0, 9) {
                    0 => format!("#-{k}:{v}"),
                    1 => format!("# {k}: {v}"),
                    2 => format!("#+{k} {v}"),
                    3 => format!(" #+{k}:{v}"),
                    4 => format!("letter a 1 #+{k}:{v}"),
                    5 => format!("#+ {k} : {v} "),
                    6 => format!("#+{k}:\t{v}"),
                    _ => format!("#+{k}:{v}"),
                };
                if let Some(d) = declares(&l) { said.push(d); }
                text.extend(l.as_bytes());
                text.extend(if r.chance(1, 8) { &b"\r\n"[..] } else { &b"\n"[..] });
            }
            if r.chance(1, 12) { text.push(0xff); said.clear(); }
            listing += &format!("{}: {:?}\n", p.display(), String::from_utf8_lossy(&text));
            std::fs::write(&p, &text).unwrap();
            files.push((p.display().to_string(), said));
        }
        let pairs: Vec<(String, String)> = (0..r.range(1, 3))
            .map(|_| {
                let known: Vec<_> = files.iter().flat_map(|f| f.1.clone()).filter(|p| !p.1.contains(',')).collect();
                if known.is_empty() || r.chance(1, 5) { (r.pick(&keys[..3]).to_string(), r.pick(&values[..6]).to_string()) } else { r.pick(&known).clone() }
            })
            .collect();
        let broken = r.chance(1, 12);
        let mut parts: Vec<String> = pairs.iter().map(|(k, v)| format!("{k}={v}")).collect();
        if broken {
            let n = parts.len();
            parts[r.range(0, n - 1)] = r.pick(&["", "language", "en"]).to_string();
        }
        let query = parts.join(",");
        let want: BTreeSet<String> = files.iter().filter(|(_, said)| pairs.iter().all(|p| said.contains(p))).map(|f| f.0.clone()).collect();
        let path = std::env::join_paths(&dirs).unwrap();
        run.case(&format!("query {query}\n{listing}"), || {
            let out = Command::new(&tool).arg("query").arg(&query).env("LOUIS_TABLE_PATH", &path).env_remove("RUST_LOG").current_dir(&base).output().map_err(|e| ("running louis query".to_string(), e.to_string()))?;
            let (text, err) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
            if err.contains("panicked") { return Err(("panic".into(), err)); }
            if broken {
                if !text.is_empty() || err.is_empty() { return Err(("a part without =".into(), format!("no error but {text:?}"))); }
                return Ok(false);
            }
            let got: BTreeSet<String> = text.trim().trim_matches(['{', '}']).split(", ").filter(|x| !x.is_empty()).map(|x| x.trim_matches('"').to_string()).collect();
            if !err.is_empty() { return Err(("an error".into(), err)); }
            differ("tables found", &got, &want)?;
            Ok(!want.is_empty() && want.len() < files.len())
        });
    }
    let _ = std::fs::remove_dir_all(&base);
    run.finish()
}
