//! Display tables: the first display rule of a character that serves the direction says how it is shown.
use louis::verif_display as probe;
use vharness::*;
fn cell(d: &[u8]) -> char {
    char::from_u32(0x2800 + d.iter().map(|x| 1u32 << (x - 1)).sum::<u32>()).unwrap()
}
fn main() {
    let mut run = Run::from_args(
        "random tables of display rules (some restricted to one direction, several for the same character or cell) among rules of other kinds, and random texts of characters \
         with and without a rule; every character is compared with the first display rule for it that serves the direction; non-trivial when a character has two rules",
        "up to 9 display rules, texts of up to 10 characters",
    );
    let chars = ['a', 'b', 'ß', '𝔸', '⠁', '⠿', '1', '-'];
    let cells: Vec<Vec<u8>> = vec![vec![1], vec![1, 2], vec![1, 2, 3, 4, 5, 6], vec![8], vec![4, 7]];
    while run.time_left() {
        let r = &mut run.rng;
        let back = r.chance(1, 2);
        let mut text = String::new();
        let mut map: Vec<(char, char)> = vec![];
        for _ in 0..r.range(0, 9) {
            let c = *r.pick(&chars);
            let d = r.pick(&cells).clone();
            let dots: String = d.iter().map(|x| x.to_string()).collect();
            match r.range(0, 7) {
                0 => text += &format!("letter {c} {dots}\n"),
                1 => text += &format!("always {c} {dots}\n"),
                2 => text += &format!("sign {c} {dots}-{dots}\n"),
                k => {
                    let mark = match k { 3 => "nofor ", 4 => "noback ", _ => "" };
                    text += &format!("{mark}display {c} {dots}\n");
                    if mark != if back { "noback " } else { "nofor " } {
                        map.push(if back { (c, cell(&d)) } else { (cell(&d), c) });
                    }
                }
            }
        }
        let n = r.range(0, 10);
        let input: String = (0..n).map(|_| if r.chance(1, 2) { *r.pick(&chars) } else { cell(r.pick(&cells)) }).collect();
        let want: String = input.chars().map(|c| map.iter().find(|(f, _)| *f == c).map(|(_, t)| *t).unwrap_or(c)).collect();
        let twice = input.chars().any(|c| map.iter().filter(|(f, _)| *f == c).count() > 1);
        let w = if back { "backward" } else { "forward" };
        run.case(&format!("{w}\n{text}input {input}"), || {
            let got = probe::shown(&text, back, &input).ok_or(("reading the table".to_string(), "the table is not accepted".to_string()))?;
            differ("what is shown", &got, &want)?;
            Ok(twice)
        });
    }
    run.finish()
}
