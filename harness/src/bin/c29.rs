//! nofor rules are for backward translation only, noback rules for forward translation only.
use louis::{Direction, Translator};
use vharness::e2e::*;
use vharness::*;

/// opcodes and operands; what may stand in front: 0 nothing, 1 nofor / noback, 2 these and nocross
const OPCODES: &[(u8, &str)] = &[
    (0, "undefined 26"), (1, "display a 1"), (1, "multind 56-6 letsign capsletter"), (1, "space \\t 9"), (1, "punctuation . 46"), (1, "digit 3 1"),
    (1, "letter x 1346"), (0, "base uppercase X x"), (1, "lowercase y 1"), (1, "uppercase Y 1"), (1, "litdigit 4 1"), (1, "sign % 1"), (1, "math + 1"),
    (1, "modeletter upper 6"), (1, "capsletter 6"), (1, "begmodeword upper 6-6"), (1, "begcapsword 6-6"), (1, "endcapsword 6-3"), (0, "capsmodechars -"), (0, "begcaps 6"), (0, "endcaps 6"),
    (0, "begcapsphrase 6"), (0, "endcapsphrase after 6"), (0, "lencapsphrase 3"), (0, "letsign 56"), (0, "noletsign a"), (0, "noletsignbefore a"),
    (0, "noletsignafter a"), (1, "nocontractsign 5"), (0, "numsign 3456"), (1, "nonumsign 6"), (0, "numericnocontchars a"), (0, "numericmodechars ."),
    (0, "midendnumericmodechars -"), (0, "begmodephrase upper 6"), (0, "endmodephrase upper after 6"), (0, "lenmodephrase upper 3"), (0, "seqdelimiter -"), (0, "seqbeforechars -"), (0, "seqafterchars -"),
    (0, "seqafterpattern a"), (0, "class foo a"), (0, "emphclass italic"), (1, "begemph italic 1"), (1, "endemph italic 1"), (0, "noemphchars italic a"),
    (0, "emphletter italic 1"), (0, "begemphword italic 1"), (0, "endemphword italic 1"), (0, "emphmodechars italic a"), (0, "begemphphrase italic 1"),
    (0, "endemphphrase italic after 1"), (0, "lenemphphrase italic 3"), (1, "begcomp 4"), (1, "endcomp 5"), (0, "decpoint . 46"), (1, "hyphen - 36"),
    (1, "compbrl ab"), (0, "comp6 a 1"), (0, "nocont ab"), (2, "always ab 1"), (1, "repeated aaa 1"), (0, "largesign ab 1"), (1, "word ab 1"),
    (0, "syllable ab 1"), (0, "joinword ab 1"), (1, "lowword ab 1"), (0, "contraction ab"), (2, "sufword ab 1"), (2, "prfword ab 1"), (2, "begword ab 1"),
    (2, "begmidword ab 1"), (2, "midword ab 1"), (2, "midendword ab 1"), (2, "endword ab 1"), (2, "partword ab 1"), (0, "exactdots @1"), (2, "prepunc , 2"),
    (2, "postpunc , 2"), (2, "begnum , 2"), (2, "midnum , 2"), (2, "endnum , 2"), (2, "joinnum , 2"), (0, "attribute foo ab"), (0, "swapcd s a 1"),
    (0, "swapdd s 1 2"), (0, "swapcc s a b"), (1, "context \"a\" @1"), (1, "pass2 @1 @2"), (1, "pass3 @1 @2"), (1, "pass4 @1 @2"), (1, "correct \"a\" \"b\""),
    (1, "match - ab - 1"), (0, "literal ab"),
];
fn op(l: &str) -> &str {
    l.split(' ').next().unwrap()
}
fn defines(l: &str) -> bool {
    ["space", "punctuation", "digit", "letter", "lowercase", "uppercase", "litdigit", "sign", "math", "hyphen", "decpoint", "always"].contains(&op(l))
}
fn multipass(l: &str) -> bool {
    ["correct", "pass2", "pass3", "pass4"].contains(&op(l))
}
fn limited(l: &str) -> u8 {
    OPCODES.iter().find(|(_, t)| op(t) == op(l)).map_or(0, |x| x.0)
}
fn compile(t: &str, d: Direction) -> Option<Translator> {
    Translator::from_table_source(t, d).ok()
}
fn main() {
    let mut run = Run::from_args(
        "every opcode with every restriction: accepted exactly where it has a meaning; and random tables of nearly all opcodes with nofor and noback in front of \
         random rules: for both directions the translation is that of the table without the rules for the other direction and without the restrictions; \
         non-trivial when a rule was left out and the translation depends on that",
        "tables of up to 14 lines, texts of up to 10 characters",
    );
    // what may be restricted
    let base = "space \\s 0\nlowercase a 1\nlowercase b 12\npunctuation , 2\nlowercase x 1346\n";
    for (k, l) in OPCODES {
        for p in ["", "nofor ", "noback ", "nocross ", "nofor nocross ", "noback nocross "] {
            let t = format!("{base}emphclass italic\n{p}{l}\n");
            let t = if *l == "emphclass italic" { format!("{base}{p}{l}\n") } else { t };
            let want = p.is_empty() || match k { 0 => false, 1 => !p.contains("nocross"), _ => true };
            run.case(&t.clone(), || {
                let plain = t.replace(p, "");
                if !p.is_empty() && compile(&plain, Direction::Forward).is_none() { return Ok(false); }
                let got = compile(&t, Direction::Forward).is_some();
                if got == want || (p.is_empty() && !got) { Ok(true) } else { Err((format!("restriction of {}", op(l)), format!("{p}{l}: accepted {got}, expected {want}"))) }
            });
        }
    }
    while run.time_left() {
        let r = &mut run.rng;
        let passes = r.chance(1, 2);
        let mut lines: Vec<(String, String)> = vec![];
        let n = r.range(1, 8);
        while lines.len() < n {
            let l = fuzz::line(r);
            let bare = l.trim_start_matches("nofor ").trim_start_matches("noback ").to_string();
            let core = bare.trim_start_matches("nocross ");
            if multipass(core) && !passes || compile(&format!("{}{bare}", fuzz::PRELUDE), Direction::Forward).is_none() { continue; }
            let core = if ["before", "after"].contains(&op(core)) { core.splitn(3, ' ').nth(2).unwrap() } else { core };
            let may = limited(core) > 0 && !(passes && defines(core));
            let p = if may { *r.pick(&["nofor ", "noback ", "", "nofor ", "noback "]) } else { "" };
            lines.push((p.to_string(), bare.clone()));
            // a rival without or with the other restriction
            if may && r.chance(1, 3) {
                let q = *r.pick(&["nofor ", "noback ", ""]);
                let mut v: Vec<String> = bare.split(' ').map(|s| s.to_string()).collect();
                let k = v.len() - 1;
                if !multipass(core) && op(core) != "context" && op(core) != "compbrl" { v[k] = fuzz::dots_text(r); }
                lines.push((q.to_string(), v.join(" ")));
            }
        }
        let full: String = fuzz::PRELUDE.to_string() + &lines.iter().map(|(p, l)| format!("{p}{l}\n")).collect::<String>();
        for (d, own, other) in [(Direction::Forward, "noback ", "nofor "), (Direction::Backward, "nofor ", "noback ")] {
            let _ = own;
            let used: String = fuzz::PRELUDE.to_string() + &lines.iter().filter(|(p, _)| p != other).map(|(_, l)| format!("{l}\n")).collect::<String>();
            let free: String = fuzz::PRELUDE.to_string() + &lines.iter().map(|(_, l)| format!("{l}\n")).collect::<String>();
            let (Some(a), Some(b)) = (compile(&full, d), compile(&used, d)) else {
                let (x, y) = (compile(&full, d).is_some(), compile(&used, d).is_some());
                run.case(&full, || if x == y { Ok(false) } else { Err(("compiles".into(), format!("{d:?}: table {x}, without the other direction's rules {y}"))) });
                continue;
            };
            let c = compile(&free, d);
            for _ in 0..6 {
                let r = &mut run.rng;
                let w = if d == Direction::Backward && r.chance(1, 2) {
                    // something this table writes
                    let f = compile(&used.replace("\n", "\n"), Direction::Forward);
                    let i = fuzz::input(r);
                    f.and_then(|f| f.translate(&i).ok()).unwrap_or(i)
                } else { fuzz::input(r) };
                let desc = format!("{d:?}\n{full}{w:?}");
                run.case(&desc, || {
                    let (x, y) = (translate(&a, &w, &[])?, translate(&b, &w, &[])?);
                    same("restricted rules", &x, &y)?;
                    Ok(c.as_ref().and_then(|c| c.translate(&w).ok()).is_some_and(|z| z != x))
                });
            }
        }
    }
    run.finish()
}
