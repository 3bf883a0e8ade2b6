//! Number signs and the suppression of contractions inside numbers.
use vharness::e2e::*;
use vharness::indic::*;
use vharness::model::*;
use vharness::selection::{cells_from, extras};
use vharness::*;

fn main() {
    let mut run = Run::from_args(
        "random tables with litdigit/digit characters, numsign, nonumsign, numericmodechars, numericnocontchars, midnum, decpoint and contractions over \
         digits and letters, and texts; non-trivial when the text has a number",
        "texts of up to 9 characters over 10; exhaustive texts of length <= 5 over {1,a,'.',space} for every 16th table",
    );
    let al = ['1', '2', '3', 'a', 'b', '.', ',', '-', ' ', '1'];
    let mut k = 0;
    while run.time_left() {
        let mut r = run.rng.clone();
        k += 1;
        let mut t = Table::default();
        for (i, c) in ['a', 'b'].iter().enumerate() {
            t.chars.push(CharDef { op: "lowercase", c: *c, dots: vec![1 + i as u8] });
        }
        t.chars.push(CharDef { op: "space", c: ' ', dots: vec![0] });
        for (i, c) in ['.', ',', '-'].iter().enumerate() {
            let op = if *c == '.' && r.chance(1, 3) { "decpoint" } else { "punctuation" };
            t.chars.push(CharDef { op, c: *c, dots: vec![0x31 + i as u8] });
        }
        let lit = r.range(0, 3);
        for (i, c) in ['1', '2', '3'].iter().enumerate() {
            t.chars.push(CharDef { op: "digit", c: *c, dots: vec![0x40 + i as u8] });
            if i < lit {
                t.chars.push(CharDef { op: "litdigit", c: *c, dots: vec![0x50 + i as u8] });
            }
        }
        let sign = r.chance(5, 6).then(|| cells(&[0x3c]));
        let off = r.chance(2, 3).then(|| cells(&[0x30]));
        if sign.is_some() {
            t.extra.push(format!("numsign {}", dots(0x3c)));
        }
        if off.is_some() {
            t.extra.push(format!("nonumsign {}", dots(0x30)));
        }
        let mode: Vec<char> = if r.chance(1, 4) { vec![*r.pick(&['.', ',', '-', 'a'])] } else { vec![] };
        if !mode.is_empty() {
            t.extra.push(format!("numericmodechars {}", chs(&mode.iter().collect::<String>())));
        }
        let nocont: String = if r.chance(2, 3) { r.pick(&["ab", "a", "-a", "a,"]).to_string() } else { String::new() };
        if !nocont.is_empty() {
            t.extra.push(format!("numericnocontchars {nocont}"));
        }
        for c in ['.', ',', '-'] {
            if r.chance(1, 4) {
                t.rules.push(RuleDef::new("midnum", &c.to_string(), &[0x80 | r.range(1, 60) as u8]));
            }
        }
        for _ in 0..r.range(0, 3) {
            let chars = r.string(&['1', '2', 'a', 'b', '.'], 1, 3);
            let mut x = RuleDef::new(r.pick(&["always", "always", "begnum", "endnum", "word"]), &chars, &[0x80 | r.range(60, 100) as u8]);
            x.nocross = x.op == "always" && r.chance(1, 4);
            t.rules.push(x);
        }
        if k % 3 == 0 {
            let mut n = cells_from(&mut r);
            extras(&mut r, &mut n, &mut t, 2, 2, &vharness::passes::Shape { vars: 0, swaps: 0 });
        }
        let mut inputs: Vec<String> = (0..25).map(|_| r.string(&al, 0, 9)).collect();
        if k % 16 == 0 {
            strings(&['1', 'a', '.', ' '], 5, &mut |s| {
                inputs.push(s.into());
                true
            });
        }
        run.rng = r;
        let text = t.text();
        let mut m = t.model();
        m.num.mode = mode.iter().copied().collect();
        m.num.nocont = nocont.chars().collect();
        run.case(&format!("{text}inputs {inputs:?}"), || {
            let tr = compile(&text, louis::Direction::Forward)?;
            let mut nt = false;
            for s in &inputs {
                let out = translate(&tr, s, &[])?;
                let cs: Vec<char> = s.chars().collect();
                let ev = numeric(&m.num, &sign, &off, &cs);
                nt |= !ev.is_empty();
                let p = Positions { slots: slots(cs.len(), &[ev]), ..Default::default() };
                m.accepts(&cs, &out, &p).map_err(|e| ("numbers".to_string(), format!("text {s:?}: {e}")))?;
            }
            Ok(nt)
        });
    }
    run.finish()
}
