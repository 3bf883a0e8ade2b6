L="space \\s 0\n"+"".join(f"lowercase {c} {d}\nuppercase {c.upper()} {d}\n" for c,d in zip("abcdefghij",["1","12","14","145","15","124","1245","125","24","245"]))
LB="space \\s 0\n"+"".join(f"lowercase {c} {d}\nbase uppercase {c.upper()} {c}\n" for c,d in zip("abcdefghij",["1","12","14","145","15","124","1245","125","24","245"]))
DIG="".join(f"litdigit {c} {d}\n" for c,d in zip("1234567890",["1","12","14","145","15","124","1245","125","24","245"]))
N=L+DIG+"numsign 3456\nnonumsign 56\nmidnum . 46\npunctuation . 256\npunctuation , 2\nmidnum , 2\npunctuation - 36\nnumericnocontchars abc\n"
RS='''use louis::*;
fn t(table: &str, input: &str, spans: &[(&str, usize, usize)]) -> String {
    let tr = Translator::from_table_source(table, Direction::Forward).unwrap();
    let e = spans.iter().map(|(c, s, e)| EmphasisSpan::new(*c, *s..*e)).collect();
    tr.translate_with_options(input, TranslationOptions::default().with_emphasis(e)).unwrap().output
}
fn main() {
    let mut ok = true;
    let mut check = |got: String, want: &str| if got != want { println!("FAIL got {got:?} want {want:?}"); ok = false; };
'''
RSE='''
    if !ok { std::process::exit(1); }
}
'''
SEEDS=[
dict(id='hyphenation-final-score',property='C10',
 edits=[('src/hyphenation.rs','                        if v > scores[gap] {','                        if v > scores[gap] && scores[gap] < 5 {')],
 files={'h.dic':'UTF-8\nca5b\na6b\n'},
 cases=[(L+'nocross always ab 12346\ninclude h.dic\n','dabc',None),(L+'nocross always ab 12346\ninclude h.dic\n','cabd',None)],
 needs='two patterns matching the same gap, the earlier one scoring 5 or more, the later one scoring higher and even',
 breaks='a later, higher score no longer overrides an odd score of 5 or more, so a forbidden break stays allowed'),
dict(id='hyphenation-long-pattern',property='C10',
 edits=[('src/hyphenation.rs','            for end in (start + 1)..=wrapped_chars {','            // patterns are short\n            for end in (start + 1)..=wrapped_chars.min(start + 8) {')],
 files={'h.dic':'UTF-8\nbc1deaghij\n'},
 cases=[(L+'nocross always cd 12346\ninclude h.dic\n','abcdeaghijb',None),(L+'nocross always cd 12346\ninclude h.dic\n','abcde',None)],
 needs='a pattern of more than eight letters',
 breaks='long patterns never match'),
dict(id='nocross-weight',property='C11',
 edits=[('src/translator/table/primary.rs','!(char_pos..char_pos + t.length().saturating_sub(1))','!(char_pos..char_pos + t.weight().saturating_sub(1))')],
 files={'h.dic':'UTF-8\nb1c\n'},
 cases=[(L+'nocross always ab 12346\nnocross begword ab 6\ninclude h.dic\n','abc',None),(L+'nocross begword ab 6\ninclude h.dic\n','abc',None),(L+'nocross begword ab 6\ninclude h.dic\n','abd',None)],
 needs='a nocross rule with a position condition and a hyphenation point directly behind its match',
 breaks='the rule is rejected although no hyphenation point lies between the characters it covers'),
dict(id='numeric-mid-lookahead',property='C12',
 edits=[('src/translator/position_constraints.rs','''                        && self.mid_numeric_chars.contains(&c)
                        && chars
                            .get(pos + 1)
                            .is_some_and(|nc| self.numeric_chars.contains(nc)) =>
                {
                    constraints[pos].insert''','''                        && self.mid_numeric_chars.contains(&c)
                        && chars
                            .get(pos + 1)
                            .is_some_and(|nc| self.numeric_chars.contains(nc)) =>
                {
                    in_numeric = chars[pos + 1..].len() > 1;
                    constraints[pos].insert''')],
 cases=[(N+'always 1a 3456\n','1.1a',None),(N+'always 12 6\n','3,12',None),(N+'always .1 6\nalways 1. 56\n','3.1',None)],
 needs='never visible through single-digit tails; needs a contraction at the very last digit',
 breaks='x'),
dict(id='numeric-nonumsign-after-mid',property='C12',
 edits=[('src/translator/indication/numeric.rs','                    in_numeric = false;\n                    if self.terminating_chars.contains(&c)','                    in_numeric = false;\n                    if self.terminating_chars.contains(&c)\n                        && !self.mid_numeric_chars.contains(&chars[pos - 1])')],
 cases=[(L+DIG+'punctuation . 256\nnumericmodechars .\nmidnum . 46\nnumsign 3456\nnonumsign 56\nnumericnocontchars abc\n','1.b',None),(N,'12b',None)],
 needs='a run that ends in a numericmodechars character which is also declared midnum, followed by a numericnocontchars character',
 breaks='the nonumsign is missing after such a run'),
dict(id='caps-endphrase-group',property='C13',
 edits=[('src/translator/indication/uppercase.rs','                    if !group.is_empty() {\n                        self.emit_group(&chars, &group, linguistic_words, &mut result);\n                        group.clear();\n                        linguistic_words = 0;\n                    }\n                    prev_close = None;','                    if !group.is_empty() {\n                        self.emit_group(&chars, &group, linguistic_words, &mut result);\n                        group.clear();\n                        linguistic_words = 0;\n                        prev_close = None;\n                    }')],
 cases=[(LB+'capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase after 6-3\nlencapsphrase 2\npunctuation - 36\n','a AB-CD EF',None),],
 needs='equivalent: prev_close is always None there', breaks='x'),
dict(id='caps-linguistic-words',property='C13',
 edits=[('src/translator/indication/uppercase.rs','                        linguistic_words = 0;\n                    }','                    }')],
 cases=[(LB+'capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase after 6-3\nlencapsphrase 3\npunctuation - 36\n','AB CD a AB CD a',None),
        (LB+'capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase after 6-3\nlencapsphrase 3\n','AB CD AB a',None)],
 needs='a second group of capitalised words after a lower case word, below lencapsphrase by itself',
 breaks='the words of an earlier group count towards lencapsphrase of a later one'),
dict(id='caps-run-close',property='C13',
 edits=[('src/translator/indication/uppercase.rs','                        close_trigger = k;\n                        break;','                        close_trigger = close;\n                        break;')],
 cases=[(LB+'capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase after 6-3\nlencapsphrase 3\npunctuation - 36\ncapsmodechars -\n','AB-cd',None)],
 needs='a capsmodechars character between the capitals and the following small letters',
 breaks='endcapsword is put in front of the mode character instead of directly before the small letter'),
dict(id='emph-close-order',property='C14',
 edits=[('src/translator/indication/emphasis.rs','es > es_k || (es == es_k && events[current].3 < events[k].3)','es > es_k')],
 rs=RS+'''
    let tab = "space \\\\s 0\\nletter a 1\\nletter b 12\\nletter c 14\\nemphclass italic\\nemphclass bold\\nbegemph italic 46-3\\nendemph italic 46-36\\nbegemph bold 56-3\\nendemph bold 56-36\\n";
    check(t(tab, "abc", &[("italic", 1, 2), ("bold", 1, 2)]), "⠁⠰⠄⠨⠄⠃⠨⠤⠰⠤⠉");
    check(t(tab, "abc", &[("italic", 0, 3), ("bold", 1, 3)]), "⠨⠄⠁⠰⠄⠃⠉⠰⠤⠨⠤");
'''+RSE,
 needs='harmless: stable sort already has class order', breaks='x'),
dict(id='emph-trailing-mode',property='C14',
 edits=[('src/translator/indication/emphasis.rs','''                        emit_start: effective_start,
''','''                        emit_start: run_start,
''')],
 rs=RS+'''
    let tab = "space \\\\s 0\\nletter a 1\\nletter b 12\\nletter c 14\\nemphclass italic\\nemphclass bold\\nbegemph italic 46-3\\nendemph italic 46-36\\nbegemph bold 56-3\\nendemph bold 56-36\\n";
    check(t(tab, "a bc", &[("italic", 1, 3), ("bold", 0, 3)]), "⠰⠄⠁⠀⠨⠄⠃⠨⠤⠰⠤⠉");
    check(t(tab, "a bc", &[("italic", 1, 3), ("bold", 2, 3)]), "⠁⠀⠰⠄⠨⠄⠃⠨⠤⠰⠤⠉");
'''+RSE,
 needs='two classes whose opening indicators meet because one stretch begins with a space, and whose closers meet as well',
 breaks='the closers are not in the inverse order of the openers, so the classes do not nest'),
dict(id='emph-clean-end',property='C14',
 edits=[('src/translator/indication/emphasis.rs','''                .map(|i| i + 1)
            .unwrap_or(run_start);''','''                .map(|i| i + 1)
            .unwrap_or(run_start);'''),] if False else [('src/translator/indication/emphasis.rs','            if self.endemphphrase_before {','            if self.endemphphrase_before || self.endemphphrase.is_none() {')],
 rs=RS+'''
    let tab = "space \\\\s 0\\nletter a 1\\nletter b 12\\nletter c 14\\nemphclass italic\\nemphletter italic 46-2\\nbegemphword italic 46\\nbegemphphrase italic 46-3\\nendemphphrase italic before 46-36\\nlenemphphrase italic 2\\n";
    check(t(tab, "ab bc ca", &[("italic", 0, 8)]), "⠨⠄⠁⠃⠀⠃⠉⠀⠨⠉⠁");
'''+RSE, needs='x', breaks='x'),
dict(id='comp-span-clip',property='C15',
 edits=[('src/translator/table/primary.rs','                pos = word_end.max(pos + 1);','                pos = (word_end + 1).max(pos + 1);')],
 cases=[(L+'punctuation . 256\ncompbrl \\sab\nbegcomp 456-346\nendcomp 456-156\nalways cd 1456\ncomp6 c 14\n','cd ab cd',None),(L+'compbrl \\s\nbegcomp 456-346\nendcomp 456-156\nalways cd 1456\n','cd ab cd',None),(L+'compbrl d\\sa\ncompbrl \\sc\nbegcomp 456-346\nendcomp 456-156\nalways ij 1456\nalways ab 12\nalways ce 14\n','id ceb cij',None)],
 needs='a compbrl string that begins with white space, directly after a word that is itself computer braille',
 breaks='the space ending a computer braille word is skipped, so a trigger beginning there is missed'),
dict(id='prepunc-scan',property='C25',
 edits=[('src/translator/position_constraints.rs','''                    if self.space_chars.contains(&chars[k]) {
                        break;
                    }
                }
            }
            // postpunc''','''                    if self.space_chars.contains(&chars[k]) || chars[k] == chars[pos] {
                        break;
                    }
                }
            }
            // postpunc''')],
 cases=[(L+'punctuation " 2356\npunctuation ( 5\nprepunc " 236\npostpunc " 356\n','"("ab"',None),(L+'punctuation " 2356\nprepunc " 236\npostpunc " 356\n','""ab""',None)],
 needs='the same punctuation character twice in front of a word', breaks='the outer one is no longer an opening one'),
dict(id='backward-caps-shared',property='C26',
 edits=[('src/translator/position_constraints.rs','''                if pos < n {
                    constraints[pos].insert(Constraint::TitleCase);
                }''','''                if pos < n && self.letter_cells.contains(&chars[pos]) {
                    constraints[pos].insert(Constraint::TitleCase);
                }''')],
 cases=[('space \\s 0\nletter a 1\nletter b 12\nletter c 14\nsign x 456\ncapsletter 6\nbegcapsword 6-6\n','⠠⠸⠁⠃',None,'-d','backward')],
 needs='a contraction whose first cell is not the cell of any letter, after a capsletter indicator',
 breaks='the cell after capsletter is only title-cased if it is a letter cell'),
dict(id='backward-num-restart',property='C26',
 edits=[('src/translator/position_constraints.rs','''                    constraints[pos].insert(Constraint::PreferDigit);
                    pos += 1;
                    continue;
                }
                in_number = false;''','''                    constraints[pos].insert(Constraint::PreferDigit);
                    pos += 1;
                    continue;
                }
                in_number = chars[pos] == '\\u{2800}';''')],
 cases=[(L+DIG+'numsign 3456\nnonumsign 56\n','⠼⠁⠃⠀⠁⠃',None,'-d','backward')],
 needs='a word of shared cells directly after a space following a number', breaks='digits are still preferred after the space'),
]
