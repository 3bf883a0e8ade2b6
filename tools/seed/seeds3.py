import os,runpy
g=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds1.py')) if '__file__' in globals() else {}
L,LB,DIG,N,RS,RSE=[g[k] for k in ('L','LB','DIG','N','RS','RSE')]
SEEDS=[
dict(id='braille-repeated-dot',property='C08',
 edits=[('src/parser/braille.rs','''        BrailleChar(EnumSet::from_iter(iter))''','''        let mut dots = EnumSet::empty();
        for dot in iter {
            dots = dots.symmetrical_difference(EnumSet::only(dot));
        }
        BrailleChar(dots)''')],
 cases=[('letter a 11\nletter b 1221\nletter c 1-22-1\n','abc',None)],
 needs='a cell that names one dot an even number of times', breaks='the dot is missing from the cell'),
dict(id='braille-virtual-f',property='C08',
 edits=[('src/parser/braille.rs','''                BrailleDot::DotE |
                BrailleDot::DotF |
''','''                BrailleDot::DotE |
''')],
 cases=[('letter a f\nletter b 1f\nletter c 1ef\n','abc',None)],
 needs='a cell whose only virtual dot is f', breaks='the cell is a character outside of the private area'),
dict(id='escape-lone-surrogate',property='C22',
 edits=[('src/parser.rs','''        if let Ok(low) = u16::from_str_radix(&low, 16)
            && let Some(Ok(c)) = char::decode_utf16([unit, low]).next()
        {
            *chars = lookahead;
            return Ok(c);
        }''','''        if let Ok(low) = u16::from_str_radix(&low, 16) {
            *chars = lookahead;
            if let Some(Ok(c)) = char::decode_utf16([unit, low]).next() {
                return Ok(c);
            }
        }''')],
 cases=[('sign \ufffd 6\nletter a 1\nletter b 12\nalways \\xd83d\\x0061b 123\nalways ab 345\n','\ufffdab',None)],
 needs='an unpaired surrogate escape directly followed by the escape of an ordinary character', breaks='the following character is lost'),
dict(id='escape-wide-pair',property='C22',
 edits=[('src/parser.rs',"""    if len == 4 && lookahead.next() == Some('\\\\') && lookahead.next() == Some('x') {""","""    if lookahead.next() == Some('\\\\') && lookahead.next() == Some('x') {""")],
 cases=[('sign \ufffd 6\nletter a 1\nalways \\y0d83d\\xde00a 123\n','\ufffd\ufffda',None)],
 needs='a five digit escape of a high surrogate followed by a four digit escape of a low one', breaks='the two escapes become one character'),
dict(id='nofor-constraint-order',property='C29',
 edits=[('src/parser.rs','''            | Rule::Postpunc { constraints, .. }
            | Rule::Begnum { constraints, .. }
            | Rule::Midnum { constraints, .. }
            | Rule::Endnum { constraints, .. }
            | Rule::Joinnum { constraints, .. }
            | Rule::Context''','''            | Rule::Postpunc { constraints, .. }
            | Rule::Begnum { constraints, .. }
            | Rule::Endnum { constraints, .. }
            | Rule::Joinnum { constraints, .. }
            | Rule::Context''')],
 cases=[('digit 1 1\npunctuation . 256\nnofor midnum . 46\n','1.1',None)],
 needs='a midnum rule marked nofor', breaks='the rule takes part in forward translation'),
dict(id='nofor-pass-stage',property='C29',
 edits=[('src/translator/pipeline.rs','''            .filter(|r| matches!(r.rule, Rule::Pass4 { .. }))
            .cloned()
            .collect();
        if !pass4_rules.is_empty() {''','''            .filter(|r| matches!(r.rule, Rule::Pass4 { .. }))
            .cloned()
            .collect();
        let pass4_rules: Vec<AnchoredRule> = if pass4_rules.len() == 1 {
            // nothing to choose from
            all_rules_of_last_pass(&pass4_rules)
        } else {
            pass4_rules
        };
        if !pass4_rules.is_empty() {''')],
 cases=[], needs='-', breaks='-') if False else None,
dict(id='table-line-number',property='C21',
 edits=[('src/parser.rs','''        .lines()
        .enumerate()
        // drop comments and empty lines
        .filter(|(_, line)| !line.trim().starts_with('#') && !line.trim().is_empty())
''','''        .lines()
        // drop empty lines
        .filter(|line| !line.trim().is_empty())
        .enumerate()
        // drop comments
        .filter(|(_, line)| !line.trim().starts_with('#'))
''')],
 rs=r'''
use louis::{Direction, Translator};
fn lines(t: &str) -> Vec<usize> {
    let Err(e) = Translator::from_table_source(t, Direction::Forward) else { return vec![] };
    let s = format!("{e:?}");
    s.split("line: ").skip(1).map(|x| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()).collect()
}
fn main() {
    for (t, w) in [("letter a 1\n\n# x\nletter b\n\nletter c\n", vec![4, 6]), ("\n \nnonsense\n", vec![3]), ("# a\nletter a 1\nx\n", vec![3])] {
        let g = lines(t);
        if g != w { eprintln!("{t:?}: errors in lines {g:?}, expected {w:?}"); std::process::exit(1); }
    }
}
''',
 needs='an empty line in front of a broken line', breaks='the error names the wrong line'),
dict(id='table-comment-space',property='C21',
 edits=[('src/parser.rs','''        .filter(|(_, line)| !line.trim().starts_with('#') && !line.trim().is_empty())
''','''        .filter(|(_, line)| {
            let first = line.bytes().find(|b| *b != b' ' && *b != b'\\t');
            first.is_some() && first != Some(b'#')
        })
''')],
 rs=r'''
use louis::{Direction, Translator};
fn main() {
    for t in ["letter a 1\n\u{a0}# comment\n", "letter a 1\n\u{3000}\n", "letter a 1\n\x0b# x\n"] {
        if let Err(e) = Translator::from_table_source(t, Direction::Forward) { eprintln!("{t:?}: {e:?}"); std::process::exit(1); }
    }
}
''',
 needs='a comment or empty line indented with other white space than blanks and tabs', breaks='the table is rejected'),
dict(id='include-dic-name',property='C23',
 edits=[('src/parser.rs','''            if path.extension().and_then(OsStr::to_str) == Some("dic") {''','''            if path.to_str().is_some_and(|p| p.ends_with("dic")) {''')],
 cases=[('letter a 1\ninclude nordic\n','ab',None)], files={'nordic':'letter b 12\n'},
 needs='an included table whose name ends in dic without the dot', breaks='its rules are missing'),
dict(id='include-cycle-root',property='C23',
 edits=[('src/parser.rs','''            if chain.contains(&canonical) {''','''            if chain.first() == Some(&canonical) || chain.last() == Some(&canonical) {''')],
 script=r'''
printf 'letter a 1\ninclude x.cti\n' > "$t/root.ctb"
printf 'include y.cti\n' > "$t/x.cti"
printf 'letter b 12\ninclude x.cti\n' > "$t/y.cti"
cat > "$t/demo.rs" <<'EOT'
use louis::{Direction, Translator};
fn main() {
    let p = std::env::args().nth(1).unwrap();
    match Translator::new(&[p], Direction::Forward) {
        Ok(_) => std::process::exit(1),
        Err(e) => { let s = format!("{e:?}"); if !s.contains("CircularInclude") { eprintln!("{s:.300}"); std::process::exit(1); } }
    }
}
EOT
D=${LOUIS_DIR:-./target/debug}
rustc --edition 2024 -A warnings "$t/demo.rs" -o "$t/demo" -L "dependency=$D/deps" --extern "louis=$D/liblouis.rlib" || exit 2
timeout 60 "$t/demo" "$t/root.ctb" || fail=1
''',
 needs='a cycle of two included tables that the root table is not part of', breaks='the cycle is not reported as a cycle'),
dict(id='include-errors-first',property='C23',
 edits=[('src/parser.rs','''        .map(|r| expand_include(r, search_path, chain))
        .partition(Result::is_ok);
    let rules: Vec<_> = rules.into_iter().flat_map(Result::unwrap).collect();
    let errors: Vec<_> = errors.into_iter().flat_map(Result::unwrap_err).collect();''','''        .map(|r| expand_include(r, search_path, chain))
        .partition(Result::is_ok);
    let rules: Vec<_> = rules.into_iter().flat_map(Result::unwrap).collect();
    let errors: Vec<_> = errors
        .into_iter()
        .filter_map(|e: Result<Vec<AnchoredRule>, Vec<TableError>>| e.unwrap_err().into_iter().next())
        .collect();''')],
 script=r'''
printf 'letter a 1\ninclude x.cti\ninclude none.cti\n' > "$t/root.ctb"
printf 'letter b\nletter c 1\nletter d\n' > "$t/x.cti"
cat > "$t/demo.rs" <<'EOT'
use louis::{Direction, Translator};
fn main() {
    let p = std::env::args().nth(1).unwrap();
    match Translator::new(&[p], Direction::Forward) {
        Ok(_) => std::process::exit(1),
        Err(e) => { let s = format!("{e:?}"); let n = s.matches("line: ").count(); if n != 2 || !s.contains("none.cti") { eprintln!("{n} {s:.300}"); std::process::exit(1); } }
    }
}
EOT
D=${LOUIS_DIR:-./target/debug}
rustc --edition 2024 -A warnings "$t/demo.rs" -o "$t/demo" -L "dependency=$D/deps" --extern "louis=$D/liblouis.rlib" || exit 2
timeout 60 "$t/demo" "$t/root.ctb" || fail=1
''',
 needs='an included table with two broken lines', breaks='only the first error of an included table is reported'),
dict(id='match-boundary-side',property='C07',
 edits=[('src/translator/match_pattern.rs','''            Pattern::AttributesOrBoundary(hash_set, side) => Regexp::Either(
                Box::new(Regexp::from_attributes(hash_set, ctx)),
                Box::new(boundary_anchor(*side)),
            ),''','''            Pattern::AttributesOrBoundary(hash_set, side) => Regexp::Either(
                Box::new(Regexp::from_attributes(hash_set, ctx)),
                Box::new(boundary_anchor(if hash_set.len() > 1 { Side::Post } else { *side })),
            ),''')],
 cases=[(L+'match %[.#^] ab - 3\npunctuation . 256\ndigit 1 1\n','abc .ab 1ab',None)],
 needs='an attribute set with two classes and the boundary in front of a word at the start of the text', breaks='the start of the text does not match'),
dict(id='match-any-newline',property='C07',
 edits=[('src/translator/match_pattern.rs','''                let mut regexp = Regexp::from_pattern(&patterns[0], ctx);
                for pattern in patterns.iter().skip(1) {''','''                let mut regexp = Regexp::from_pattern(&patterns[0], ctx);
                for pattern in patterns.iter().skip(1).take(7) {''')],
 cases=[(L+'match - a [b][c][d][b][c][d][b][c][d] 3\n','abcdbcdbca abcdbcdbcd',None)],
 needs='a pattern of more than eight items', breaks='the further items are ignored'),
]
SEEDS=[s for s in SEEDS if s]
