//! End-to-end helpers over the public API of the crate.
use louis::{Direction, EmphasisSpan, TranslationOptions, Translator};

/// dot numbers of a cell in table syntax (`0` for the blank cell)
pub fn dots(n: u8) -> String {
    if n == 0 {
        return "0".into();
    }
    (0..8).filter(|i| n >> i & 1 == 1).map(|i| char::from(b'1' + i)).collect()
}
pub fn cell(n: u8) -> char {
    char::from_u32(0x2800 + n as u32).unwrap()
}
/// several cells in table syntax
pub fn dotseq(v: &[u8]) -> String {
    v.iter().map(|n| dots(*n)).collect::<Vec<_>>().join("-")
}
pub fn cells(v: &[u8]) -> String {
    v.iter().map(|n| cell(*n)).collect()
}
pub fn ch(c: char) -> String {
    match c {
        ' ' => "\\s".into(),
        '\u{a0}' => "\\x00a0".into(),
        '\t' => "\\t".into(),
        '\\' => "\\\\".into(),
        c => c.to_string(),
    }
}
pub fn chs(s: &str) -> String {
    s.chars().map(ch).collect()
}
pub fn compile(table: &str, dir: Direction) -> Result<Translator, (String, String)> {
    Translator::from_table_source(table, dir).map_err(|e| ("table rejected".to_string(), format!("{e:?}")))
}
pub fn translate(t: &Translator, input: &str, spans: &[(String, usize, usize)]) -> Result<String, (String, String)> {
    let v: Vec<EmphasisSpan> = spans.iter().map(|(c, a, b)| EmphasisSpan::new(c.clone(), *a..*b)).collect();
    t.translate_with_options(input, TranslationOptions::default().with_emphasis(v))
        .map(|r| r.output)
        .map_err(|e| ("translation failed".to_string(), format!("{e:?}")))
}
/// indicator slots around the plain per-character rendering; slot n is behind the last character
pub fn render(chars: &[char], plain: &dyn Fn(char) -> String, slots: &[Vec<String>]) -> String {
    let mut o = String::new();
    for (i, c) in chars.iter().enumerate() {
        for s in &slots[i] {
            o.push_str(s);
        }
        o.push_str(&plain(*c));
    }
    for s in &slots[chars.len()] {
        o.push_str(s);
    }
    o
}
pub fn show(braille: &str) -> String {
    braille
        .chars()
        .map(|c| {
            let n = c as u32;
            if (0x2800..0x2900).contains(&n) { format!("{} ", dots((n - 0x2800) as u8)) } else { format!("'{c}' ") }
        })
        .collect()
}
pub fn same(key: &str, got: &str, want: &str) -> Result<(), (String, String)> {
    if got == want { Ok(()) } else { Err((key.into(), format!("got {}| expected {}", show(got), show(want)))) }
}
