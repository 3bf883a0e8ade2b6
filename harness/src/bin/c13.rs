//! Capitalisation indicators.
use vharness::e2e::*;
use vharness::indic::*;
use vharness::*;

fn main() {
    let mut run = Run::from_args(
        "all opcode combinations of the capitalisation family in random order with all texts of length <= 5 over {a,A,B,-,space} plus random longer \
         texts; non-trivial when an indicator is due",
        "texts: exhaustive to length 5, random up to 14 characters over 9",
    );
    let mut texts = vec![];
    strings(&['a', 'A', 'B', '-', ' '], 5, &mut |s| {
        texts.push(s.to_string());
        true
    });
    let plain = |c: char| -> String {
        cell(match c {
            'a' => 1,
            'A' => 0x41,
            'b' => 3,
            'B' => 0x43,
            'x' => 0x2d,
            '-' => 0x24,
            '\'' => 0x04,
            '1' => 0x50,
            _ => 0,
        })
        .to_string()
    };
    let base = "lowercase a 1\nuppercase A 17\nlowercase b 12\nuppercase B 127\nletter x 1346\npunctuation - 36\npunctuation ' 3\ndigit 1 57\nspace \\s 0\nattribute uppercase 1\n";
    let mut all: Vec<u32> = (0..1 << 11).collect();
    for i in (1..all.len()).rev() {
        let j = run.rng.below(i + 1);
        all.swap(i, j);
    }
    let mut ix = 0;
    while run.time_left() {
        let bits = all[ix % all.len()];
        ix += 1;
        let on = |b: u32| bits >> b & 1 == 1;
        let ind = |n: u8| Some(cell(0x80 | n).to_string());
        let mut k = Caps::default();
        let mut t = String::from(base);
        let mut op = |name: &str, n: u8| t.push_str(&format!("{name} {}\n", dots(0x80 | n)));
        if on(0) {
            k.letter = ind(1);
            op("capsletter", 1);
        }
        if on(1) {
            k.begword = ind(2);
            op("begcapsword", 2);
        }
        if on(2) {
            k.endword = ind(3);
            op("endcapsword", 3);
        }
        if on(3) {
            k.beg = ind(4);
            op("begcaps", 4);
        }
        if on(4) {
            k.end = ind(5);
            op("endcaps", 5);
        }
        if on(5) {
            k.begphrase = ind(6);
            op("begcapsphrase", 6);
        }
        if on(6) {
            k.endphrase = Some((on(7), ind(7).unwrap()));
            op(if on(7) { "endcapsphrase before" } else { "endcapsphrase after" }, 7);
        }
        if on(8) {
            let l = run.rng.range(1, 4);
            k.len = Some(l);
            t.push_str(&format!("lencapsphrase {l}\n"));
        }
        if on(9) {
            let m = *run.rng.pick(&["-", "-'", "'"]);
            k.mode = m.chars().collect();
            t.push_str(&format!("capsmodechars {m}\n"));
        }
        let lt = Letters {
            letter: ['a', 'A', 'b', 'B', 'x'].into(),
            upper: ['A', 'B', '1'].into(),
            space: [' '].into(),
            punct: ['-', '\''].into(),
        };
        let mut r = run.rng.clone();
        let mut inputs: Vec<String> = (0..60).map(|_| r.string(&['a', 'A', 'B', 'b', 'x', '-', '\'', '1', ' ', 'A', 'B'], 0, 14)).collect();
        run.rng = r;
        if on(10) || run.thorough {
            inputs.extend(texts.iter().cloned());
        }
        run.case(&format!("{t}{} texts, e.g. {:?}", inputs.len(), &inputs[..3]), || {
            let tr = compile(&t, louis::Direction::Forward)?;
            let mut nt = false;
            for s in &inputs {
                let cs: Vec<char> = s.chars().collect();
                let ev = caps(&k, &lt, &cs);
                nt |= !ev.is_empty();
                let want = render(&cs, &plain, &slots(cs.len(), &[ev]));
                let got = translate(&tr, s, &[])?;
                same("capitals", &got, &want).map_err(|(k, d)| (k, format!("text {s:?}: {d}")))?;
            }
            Ok(nt)
        });
    }
    run.finish()
}
