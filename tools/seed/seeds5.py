import shlex
CHECK='''
run() { # name, expected number of lines, pattern that must occur in every line
  local g; g=$("$L" check "$t/$1.yaml" 2>"$t/err"); local n; n=$(printf '%s' "$g" | grep -c .)
  if [ "$n" -ne "$2" ] || [ -s "$t/err" ]; then echo "FAIL $1: $g $(cat "$t/err")"; fail=1; fi
}
'''
def ok(*lines): # (line, is it read, words that must stand in the result)
    o=['line() {','  printf "%s\\n" "$1" > "$t/l.ctb"; local g r; g=$("$L" parse "$t/l.ctb" 2>"$t/err"); r=0; [ -s "$t/err" ] || r=1',
       '  [ $r -eq $2 ] || { echo "FAIL $1: $g $(cat "$t/err")"; fail=1; }',
       '  shift 2; for w in "$@"; do case "$g" in *"$w"*) ;; *) echo "FAIL: $g has no $w"; fail=1;; esac; done','}']
    for l,k,*w in lines: o.append("line %s %d %s"%(shlex.quote(l),1 if k else 0,' '.join(shlex.quote(x) for x in w)))
    return '\n'.join(o)
SEEDS=[
dict(id='yaml-flags-tables',property='C31',
 edits=[('src/yaml.rs','''                    test_mode = self.flags()?;
                    previous_event_was_table = false;''','''                    test_mode = self.flags()?;''')],
 script=CHECK+r'''
cat > "$t/a.yaml" <<'EOT'
table: |
  letter a 1
flags: {testmode: forward}
table: |
  letter a 2
tests:
  - [a, "⠂"]
EOT
run a 0
cat > "$t/b.yaml" <<'EOT'
table: |
  letter a 1
table: |
  letter a 2
tests:
  - [a, "⠂"]
EOT
run b 1
''', needs='a table, then flags, then another table', breaks='the tests that follow also run under the table before the flags'),
dict(id='check-both-display',property='C31',
 edits=[('src/test.rs','''                if option_env!("LOUIS_TEST_FORWARD_ONLY").is_none() {
                    let display_table = self.display_table(Direction::Backward)?;
                    // reverse''','''                if option_env!("LOUIS_TEST_FORWARD_ONLY").is_none() {
                    // reverse''')],
 script=CHECK+r'''
cat > "$t/a.yaml" <<'EOT'
display: |
  display a 1
  display b 12
table: |
  letter x 1
  letter y 12
flags: {testmode: bothDirections}
tests:
  - [xy, ab]
EOT
run a 0
''', needs='a display table and tests in both directions', breaks='the backward tests read braille through the forward display table'),
dict(id='xfail-backward-reason',property='C31',
 edits=[('src/yaml.rs','''                "backward" => match value {
                    ExpectedFailure::Simple(true) | ExpectedFailure::Reason(_) => {''','''                "backward" => match value {
                    ExpectedFailure::Simple(true) => {''')],
 script=CHECK+r'''
cat > "$t/a.yaml" <<'EOT'
table: |
  letter a 1
  letter b 1
flags: {testmode: bothDirections}
tests:
  - [b, "⠁", {xfail: {backward: ambiguous}}]
EOT
g=$("$L" check "$t/a.yaml" 2>&1)
case "$g" in ExpectedFailure*) ;; *) echo "FAIL a: $g"; fail=1;; esac
''', needs='a failure expected backward with a reason', breaks='the failure counts as unexpected'),
dict(id='emphasis-mask-end',property='C31',
 edits=[('src/yaml.rs','''                match (ch == '+', run_start) {
                    (true, None) => run_start = Some(i),
                    (false, Some(s)) => {
                        spans.push(EmphasisSpan::new(class.clone(), s..i));
                        run_start = None;
                    }
                    _ => {}
                }
            }
            if let Some(s) = run_start {
                spans.push(EmphasisSpan::new(class, s..mask.chars().count()));
            }''','''                match (ch == '+', run_start) {
                    (true, None) => run_start = Some(i),
                    (false, Some(s)) => {
                        spans.push(EmphasisSpan::new(class.clone(), s..i));
                        run_start = None;
                    }
                    (true, Some(s)) if i + 1 == mask.len() => {
                        spans.push(EmphasisSpan::new(class.clone(), s..i + 1));
                        run_start = None;
                    }
                    _ => {}
                }
            }''')],
 script=CHECK+r'''
cat > "$t/a.yaml" <<'EOT'
table: |
  letter a 1
  letter b 12
  space \s 0
  emphclass italic
  begemph italic 46
  endemph italic 45
tests:
  - [ab, "⠁⠨⠃⠘", {typeform: {italic: " +"}}]
EOT
"$L" check "$t/a.yaml" > "$t/o1" 2>&1
sed -i 's/" +"/"++"/; s/⠁⠨⠃⠘/⠨⠁⠃⠘/' "$t/a.yaml"
"$L" check "$t/a.yaml" > "$t/o2" 2>&1
if [ -s "$t/o1" ] || [ -s "$t/o2" ]; then cat "$t/o1" "$t/o2"; fail=1; fi
''', needs='a mask that ends in a single marked character', breaks='the emphasis of the last character is lost'),
dict(id='display-noback',property='C20',
 edits=[('src/translator.rs','''        let rules: Vec<_> = rules.iter().filter(|r| r.is_direction(direction)).collect();

        for rule in rules {
            match &rule.rule {
                Rule::Display {
                    character, dots, ..
                } => {''','''        for rule in rules {
            match &rule.rule {
                // rules that only hold forwards never apply to braille input
                Rule::Display {
                    character, dots, ..
                } if direction == Direction::Forward || rule.is_direction(direction) => {''')],
 script=CHECK+r'''
cat > "$t/a.yaml" <<'EOT'
display: |
  nofor display a 1
  display b 1
table: |
  letter x 1
tests:
  - [x, b]
EOT
run a 0
''', needs='a nofor display rule before another rule for the same cell', breaks='forward output is shown by the backward rule'),
dict(id='display-same-char',property='C20',
 edits=[('src/translator.rs','''                        // first rule wins
                        mapping.entry(from).or_insert(to);''','''                        // first rule wins
                        if !mapping.values().any(|known| *known == to) {
                            mapping.entry(from).or_insert(to);
                        }''')],
 script=CHECK+r'''
cat > "$t/a.yaml" <<'EOT'
display: |
  display a 1
  display a 17
table: |
  letter x 1
  letter y 17
tests:
  - [xy, aa]
EOT
run a 0
''', needs='two cells that are displayed by the same character', breaks='the second cell is shown as itself'),
dict(id='metadata-colon',property='C27',
 edits=[('src/metadata.rs','line.split_once(\':\')','line.rsplit_once(\':\')')],
 script=r'''
printf '#+type:a:b\nletter a 1\n' > "$t/a.ctb"
g=$("$L" query type=a:b 2>&1)
case "$g" in *a.ctb*) ;; *) echo "FAIL: $g"; fail=1;; esac
''', needs='a value with a colon', breaks='the value is not declared'),
dict(id='metadata-value-chars',property='C27',
 edits=[('src/metadata.rs','''                            && v.chars().all(|c| c.is_ascii_graphic())''','''                            && v.chars().all(|c| c.is_ascii_alphanumeric() || "-_.+".contains(c))''')],
 script=r'''
printf '#+version:3.2/b\nletter a 1\n' > "$t/a.ctb"
g=$("$L" query version=3.2/b 2>&1)
case "$g" in *a.ctb*) ;; *) echo "FAIL: $g"; fail=1;; esac
''', needs='a value with unusual punctuation', breaks='the value is not declared'),
dict(id='metadata-third-value',property='C27',
 edits=[('src/metadata.rs','''            .filter(|c| candidates[1..].iter().all(|s| s.contains(*c)))''','''            .filter(|c| candidates.len() == 1 || candidates[1..].iter().any(|s| s.contains(*c)))''')],
 script=r'''
printf '#+language:de\n#+grade:2\n#+type:literary\n' > "$t/a.ctb"
printf '#+language:de\n#+grade:1\n#+type:literary\n' > "$t/b.ctb"
g=$("$L" query language=de,grade=2,type=literary 2>&1)
case "$g" in *b.ctb*) echo "FAIL: $g"; fail=1;; *a.ctb*) ;; *) echo "FAIL: $g"; fail=1;; esac
''', needs='a query for three values', breaks='a file that declares two of them is found'),
dict(id='rule-one-match-mark',property='C28',
 edits=[('src/parser.rs','''            if self.tokens.next_if_eq(&"empmatchbefore").is_some() {
                matches.insert(WithMatch::Before);
            }
            if self.tokens.next_if_eq(&"empmatchafter").is_some() {
                matches.insert(WithMatch::After);
            }''','''            if self.tokens.next_if_eq(&"empmatchafter").is_some() {
                matches.insert(WithMatch::After);
            } else {
                self.tokens.next();
                if matches.is_empty() {
                    matches.insert(WithMatch::Before);
                }
            }''')],
 script=ok(("empmatchafter empmatchbefore match - ab - 12",True,"matches: Some","Before","After"),("empmatchbefore empmatchafter match - ab - 12",True,"Before","After")), needs='both match marks, the one for after first', breaks='the mark for before is lost'),
dict(id='rule-one-char-wide',property='C28',
 edits=[('src/parser.rs','''        let s = unescape(s, EscapingContext::Default)?;
        if s.chars().count() == 1 {
            Ok(s.chars().next().unwrap())
        } else {''','''        let s = unescape(s, EscapingContext::Default)?;
        if s.encode_utf16().count() == 1 {
            Ok(s.chars().next().unwrap())
        } else {''')],
 cases=[('letter a 1\nsign \U0001f600 235\n','a\U0001f600','⠁⠖')],
 needs='a character beyond the basic plane as a single character operand', breaks='the line is an error'),
dict(id='rule-classes-one',property='C28',
 edits=[('src/parser.rs','''        while self.tokens.peek() == Some(&"before") || self.tokens.peek() == Some(&"after") {
            if let Some(class) = self.with_class()? {
                classes.push(class);
            }
        }''','''        while let Some(class) = self.with_class()? {
            // the last restriction on a side counts
            classes.retain(|c| std::mem::discriminant(c) != std::mem::discriminant(&class));
            classes.push(class);
        }''')],
 script=ok(("before one before two always ab 12",True,"\"one\"","\"two\"")), needs='two classes on the same side', breaks='the first class is dropped'),
dict(id='rule-cells-hyphen',property='C28',
 edits=[('src/parser.rs','''                if chars.contains('-') {
                    return Err(ParseError::SingleCellDotsExpected {
                        found: chars.to_string(),
                    });
                }
                BrailleChar::try_from(chars).map_err(ParseError::InvalidBraille)''','''                let mut cells = chars.split('-').map(BrailleChar::try_from);
                match (cells.next(), cells.next()) {
                    (Some(_), Some(Ok(_))) => Err(ParseError::SingleCellDotsExpected {
                        found: chars.to_string(),
                    }),
                    (Some(cell), _) => cell.map_err(ParseError::InvalidBraille),
                    _ => Err(ParseError::DotsExpected),
                }''')],
 script=ok(("swapdd x 1,2 1,2",True),("swapdd x 1-,2 1,2",False),("swapdd x 1-3,2 1,2",False),("swapdd x 1,2- 1,2",False)), needs='a list of single cells where a cell ends in a hyphen', breaks='the line is accepted'),
dict(id='multipass-quantifier-equal',property='C30',
 edits=[('src/parser/multipass/test.rs','''                    if min >= max {''','''                    if min > max {''')],
 script=ok(("pass2 $d1-2 @1",True),("pass2 $d2-2 @1",False),("context %x3-2 @1",False)), needs='a range from a number to itself', breaks='the test is accepted'),
dict(id='multipass-escape-y',property='C30',
 edits=[('src/parser/multipass/action.rs','''                Some('y') => {
                    self.chars.next();
                    self.unescape_unicode(5)
                }''','''                Some('y') => {
                    self.chars.next();
                    // five digits, but a leading zero may be left out
                    self.chars.next_if_eq(&'0');
                    let wide = self.chars.peek() == Some(&'1');
                    self.unescape_unicode(if wide { 5 } else { 4 })
                }''')],
 cases=[('letter a 1\nletter b 12\nletter c 14\nletter \\x1234 15\nnoback correct "a" "\\y01234"\n','ab',None)],
 needs='an escape of five digits that starts with 01', breaks='the digits are read one too far'),
dict(id='multipass-attribute-litdigit',property='C30',
 edits=[('src/parser/multipass/test.rs','''        while self.chars.peek().filter(|&c| is_attribute(c)).is_some() {
            attrs.insert(self.attribute()?);
        }''','''        while self.chars.peek().filter(|&c| is_attribute(c)).is_some() {
            let attr = self.attribute()?;
            if attr == Attribute::Any {
                // any character will do
                attrs.clear();
            }
            attrs.insert(attr);
        }''')],
 script=ok(("context $da @1",True,"Digit","Any")), needs='the attribute a after another one', breaks='the other attribute is dropped'),
dict(id='multipass-variable-255',property='C30',
 edits=[('src/parser/multipass/action.rs','''        while self.chars.peek().filter(|c| c.is_ascii_digit()).is_some() {
            s.push(self.chars.next().unwrap());
        }
        let number = s.parse::<u8>()?;''','''        while s.len() < 3
            && let Some(c) = self.chars.next_if(|c| c.is_ascii_digit())
        {
            s.push(c);
        }
        let number = s.parse::<u8>()?;''')],
 script=ok(("pass2 @1 #1=255",True),("pass2 @1 #1=0255",True),("pass2 @1 #0001+",True),("pass2 @1 #1=256",False)), needs='a number of more than three digits', breaks='the action is an error'),
dict(id='lettersign-own-space',property='C24',
 edits=[('src/translator/indication/lettersign.rs','''                .is_some_and(|p| self.space_chars.contains(&p) || self.letter_chars.contains(&p));''','''                .is_some_and(|p| p.is_whitespace() || self.letter_chars.contains(&p));''')],
 cases=[('space \\s 0\nspace _ 456\nletter a 1\nletter b 12\npunctuation , 2\nletsign 56\n','a,_b',None),('space \\s 0\nspace _ 456\nletter a 1\nletter b 12\npunctuation , 2\nletsign 56\n',',b',None)],
 needs='a table whose spaces are not white space', breaks='a letter after such a space gets a sign'),
dict(id='lettersign-contraction-noletsign',property='C24',
 edits=[('src/translator/indication/lettersign.rs','''                if !self.noletsign_chars.contains(&c)
                    && self.next''','''                if self.next''')],
 cases=[('space \\s 0\nletter a 1\nletter b 12\nletter c 14\npunctuation , 2\nletsign 56\nnoletsign b\ncontraction bc\n','bc',None),('space \\s 0\nletter a 1\nletter b 12\nletter c 14\npunctuation , 2\nletsign 56\nnoletsign b\ncontraction ac\n','ac',None)],
 needs='a contraction that starts with a letter that takes no sign', breaks='it gets a sign'),
dict(id='lettersign-after-skip',property='C24',
 edits=[('src/translator/indication/lettersign.rs','''                if !self.noletsign_chars.contains(&c)
                    && self.next(&input[byte_pos..], prev).is_some()
                {
                    fire.insert(char_pos);
                }
                prev = Some(c);''','''                if self.noletsign_chars.contains(&c) {
                    char_pos += 1;
                    continue;
                }
                if self.next(&input[byte_pos..], prev).is_some() {
                    fire.insert(char_pos);
                }
                prev = Some(c);''')],
 cases=[('space \\s 0\nletter a 1\nletter b 12\nletter c 14\npunctuation , 2\nletsign 56\nnoletsign b\ncontraction ac\n','a bac',None)],
 needs='a contraction right after a letter that takes no sign, which follows a space', breaks='the letters inside a word get a sign'),
]
