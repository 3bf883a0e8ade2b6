import os,runpy
g=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds1.py')) if '__file__' in globals() else {}
L,LB,DIG,N,RS,RSE=[g[k] for k in ('L','LB','DIG','N','RS','RSE')]
SEEDS=[
dict(id='comp6-fallback',property='C15',
 edits=[('src/translator/table/primary.rs','''                candidates.clear();
                candidates.extend(self.comp6_trie.find_translations(chars.as_str(), prev));''','''                candidates.retain(|t| t.length() == 0);
                candidates.extend(self.comp6_trie.find_translations(chars.as_str(), prev));''')],
 cases=[(L+'compbrl ab\nbegcomp 456-346\nendcomp 456-156\ncontext !#1=1"c"[]"d" #1=1@3456\n','cd abcd',None),
        (L+'compbrl ab\ncomp6 a 123456\ncontext "a"[]"b" @6\n','ab',None)],
 needs='a context rule that only inserts something, inside computer braille', breaks='insertions by context rules are made inside computer braille'),
dict(id='compbrl-trigger-space',property='C15',
 edits=[('src/translator/table/primary.rs','''                while word_start > 0 && !self.character_classes.is_whitespace(chars[word_start - 1])
                {''','''                while word_start > 0 && !chars[word_start - 1].is_whitespace()
                {''')],
 cases=[(L+'space _ 0\ncompbrl ab\nbegcomp 456-346\nendcomp 456-156\n','cd_abcd',None)],
 needs='a space character of the table that is not Unicode white space, in front of a computer braille word',
 breaks='the stretch reaches back over characters the table declares as space'),
dict(id='nocross-offsets',property='C03',
 edits=[('src/translator/table/primary.rs','''                translations.push(translation);
                delayed_translations = self.update_offsets(delayed_translations, nocross.length());''','''                translations.push(translation);''')],
 cases=[(L+'nocross always ab 12346\nmatch ab cd - 3\n','abcdcd',None),(L+'nocross always ab 12346\nmatch ab cd - 3\n','abij',None)],
 needs='a match rule whose left context is translated by a nocross rule', breaks='the delayed rule is applied at a later position than where it matched: text is skipped or lost'),
dict(id='multipass-offset-unit',property='C03',
 edits=[('src/translator/table/multipass.rs','''                translations.push(translation);
                delayed_translations = self.update_offsets(delayed_translations, t.length());
''','''                translations.push(translation);
                delayed_translations = self.update_offsets(delayed_translations, t.length().min(1));
''')],
 cases=[(L+'pass2 @1-12 @3\npass2 @1-12[@14] @6\n','abcdc',None),(L+'correct "ab" "ij"\ncorrect "abc"["d"] "e"\n','abcdd',None),(L+'correct "a"["bc"] "ij"\ncorrect "abc"["d"] "e"\n','abcdd',None)],
 needs='a rule with left context of two or more characters that are consumed by one other rule', breaks='the delayed rule fires later than where it matched'),
dict(id='length-before-weight',property='C04',
 edits=[('src/translator/table/primary.rs','''                .filter(|t| !seen.contains(&TranslationSubset::from(*t)))
                .max_by_key(|translation| translation.weight());''','''                .filter(|t| !seen.contains(&TranslationSubset::from(*t)))
                .max_by_key(|translation| (translation.length().min(2), translation.weight()));''')],
 cases=[(L+'punctuation ; 23\nalways cd 1456\nafter letter before letter always c 3\n','acda',None)],
 needs='a one-character rule with two class conditions competing with a two-character rule', breaks='the lighter rule wins'),
dict(id='prev-rule-text',property='C06',
 edits=[('src/translator/table/primary.rs','''                    seen.clear();
                    // move the iterator forward by the number of characters in the translation
                    prev = chars.nth(t.length() - 1);
                    char_pos += t.length();''','''                    seen.clear();
                    // move the iterator forward by the number of characters in the translation
                    chars.nth(t.length() - 1);
                    prev = t.input().chars().last();
                    char_pos += t.length();''')],
 cases=[(LB+'always ab 12346\nafter uppercase always c 6\n','ABc',None),(LB+'always ab 12346\nafter uppercase always c 6\n','abc',None)],
 needs='a class condition on upper case directly after a contraction applied to capital letters',
 breaks='the condition sees the rule\'s lower case letter instead of the text'),
dict(id='end-class-union',property='C06',
 edits=[('src/translator/trie.rs','            includes_space: classes.contains(&CharacterClass::Space),','            includes_space: classes.last() == Some(&CharacterClass::Space),')],
 cases=[(L+'punctuation . 256\nword ab 12346\nlowword cd 256\nlargesign ij 3\nbegword cde 6\nendword ef 56\n','ab',None),(L+'punctuation . 256\nbegword cde 6\nendword ef 56\n','cde cef',None)],
 needs='x', breaks='the end of the text no longer counts as white space for opcodes whose list of classes does not end with space'),
dict(id='precedence-tie',property='C05',
 edits=[('src/translator/trie.rs','            if precedence > existing.precedence() {\n                current_node','            if precedence > existing.precedence() || origin.rule == translation_rule(existing) {\n                current_node')] if False else [('src/translator/trie.rs','            if precedence > existing.precedence() {\n','            if precedence > existing.precedence() || existing.output().is_empty() {\n')],
 cases=[(L+'always ab =\n','ab',None)], needs='x', breaks='x'),
dict(id='class-constraint-precedence',property='C05',
 edits=[('src/translator/trie.rs','            .with_precedence(precedence.clone());','            .with_precedence(if class_constraints.is_empty() {\n                precedence.clone()\n            } else {\n                Precedence::Default\n            });')],
 cases=[(L+'before letter always ab 12346\nafter letter before letter always bc 3\nbefore letter always bc 6\nafter letter before letter always bc 56\n','abc abd dbcd',None),
        (L+'after letter endword bc 3\nafter letter endword bc 6\n','abc',None),(L+'before letter word bc 3\nbefore letter word bc 6\n','bc',None),(L+'before letter begword bc 3\nbefore letter begword bc 6\n','bcd',None),(L+'before letter partword bc 3\nbefore letter partword bc 6\n','bcd',None),(L+'before letter begmidword bc 3\nbefore letter begmidword bc 6\n','bcd',None)],
 needs='two definitions of the same rule with the same class conditions', breaks='the later definition displaces the earlier one'),
dict(id='char-def-last',property='C05',
 edits=[('src/translator.rs','            self.0.entry(from).or_insert(to.to_string());','            let old = self.0.entry(from).or_insert(to.to_string());\n            if old.chars().count() > to.chars().count() {\n                *old = to.to_string();\n            }')],
 cases=[(L.replace('lowercase a 1\n','lowercase a 1-2\nletter a 1\n')+'always ab =\n','ab',None),(L.replace('lowercase a 1\n','lowercase a 1-2\nletter a 1\n')+'always ab =\nbase uppercase X a\n','X',None)],
 needs='two definitions of the same character, the first with more cells, and a base or implicit definition referring to it',
 breaks='the shorter later definition is used'),
dict(id='multipass-seen-copy',property='C16',
 edits=[('src/translator/table/multipass.rs','''            } else if let Some(next_char) = chars.next() {
                seen.clear();''','''            } else if let Some(next_char) = chars.next() {''')],
 cases=[(L+'correct "a"[]"b" "c"\n','abab',None),(L+'correct []"b" "c"\n','bab',None)],
 needs='an inserting rule that applies at two places separated only by copied characters', breaks='it is applied only at the first place'),
dict(id='multipass-candidates-order',property='C16',
 edits=[('src/translator/table/multipass.rs','                .max_by_key(|translation| translation.weight());','                .max_by_key(|translation| (translation.weight().min(7), translation.length()));')],
 cases=[(L+'correct "abcdefg"["h"] "i"\ncorrect "ab" "j"\n','abcdefgh',None),(L+'correct ["a"]"bcdefgh" "i"\ncorrect "abcdefg" "j"\n','abcdefgh',None)],
 needs='two rules matching seven or more characters with context, the heavier one replacing fewer', breaks='the lighter one wins'),
dict(id='effects-zero-length',property='C18',
 edits=[('src/translator/table/multipass.rs','''                // update the environment if needed
                if !t.effects().is_empty() {''','''                // update the environment if needed
                if !t.effects().is_empty() && t.length() > 0 {''')],
 cases=[(L+'pass2 @1[]@12 #1=1@6\npass2 #1=1@14 @3\n','abc',None)],
 needs='a pass rule that replaces nothing but sets a variable', breaks='the variable keeps its old value'),
dict(id='effects-order',property='C18',
 edits=[('src/translator/table/primary.rs','''                    for effect in t.effects() {
                        env.apply(effect);''','''                    for effect in t.effects().iter().rev() {
                        env.apply(effect);''')],
 cases=[(L+'context "a" #1=3#1+@6\ncontext #1=4"b" @3\n','ab',None)],
 needs='an action with two instructions on one variable', breaks='they take effect in the wrong order'),
dict(id='lt-zero',property='C18',
 edits=[('src/translator/context_pattern.rs','Operator::LtEq => Regexp::VariableBetween(*var, 0, *operand),','Operator::LtEq => match operand.checked_sub(1) {\n                    Some(max) => Regexp::VariableBetween(*var, 0, max + 1),\n                    None => Regexp::Never,\n                },')],
 cases=[(L+'context #1<=0"b" @3\n','ab',None)],
 needs='a test <= 0', breaks='#n<=0 never matches'),
dict(id='position-bytes',property='C17',
 edits=[('src/lib.rs','''        let mut output_offset: usize = 0;

        for translation in translations {
            let input_len = translation.input().chars().count();''','''        let mut output_offset: usize = 0;

        for translation in translations {
            let input_len = translation.input().len();''')],
 script='''mkdir "$t/c"; cp -r Cargo.toml Cargo.lock src "$t/c/"; [ -d benches ] && cp -r benches "$t/c/"
cat >> "$t/c/src/lib.rs" <<'EOT'
#[cfg(test)]
mod position_demo {
    #[test]
    fn demo() {
        let t = |i: &str, o: &str| crate::translator::ResolvedTranslation::new(i, o, 0, crate::translator::TranslationStage::Main, None);
        let a = [t("äé", "⠁"), t("b", "⠃⠃"), t("", "⠠"), t("ß", "⠎")];
        assert_eq!(crate::Translator::compute_output_positions(&a), [0, 0, 1, 4]);
        assert_eq!(crate::Translator::compute_input_positions(&a), [0, 2, 2, 3, 3]);
    }
}
EOT
(cd "$t/c" && CARGO_TARGET_DIR="$t/tg" cargo test --offline --lib position_demo >"$t/log" 2>&1) || { tail -5 "$t/log"; fail=1; }
''',
 needs='an input character outside ASCII', breaks='input positions are counted in bytes, so every later position is wrong'),
dict(id='swap-dd-class',property='C19',
 edits=[('src/translator/table.rs','''                    for c in dots.to_string().chars() {
                        character_classes.insert(class.clone(), c);
                        dots_classes.insert(class.clone(), c);
                    }''','''                    for c in dots.to_string().chars().take(replacement.len()) {
                        character_classes.insert(class.clone(), c);
                        dots_classes.insert(class.clone(), c);
                    }''')],
 cases=[(L+'swapdd foo 1,12,14 3,6\npass2 [%foo] %foo\n','abc',None),(L+'swapdd foo 1,12,14 3,6\npass2 [%foo]@145 @6\n','cd',None)],
 needs='lists of different length', breaks='members of the class without partner no longer match'),
dict(id='swap-capitals',property='C19',
 edits=[('src/translator/swap.rs','.map(|c| self.0.get(&c).cloned().unwrap_or(c.to_string()))','.map(|c| {\n                self.0\n                    .get(&c)\n                    .or_else(|| self.0.get(&c.to_ascii_lowercase()))\n                    .cloned()\n                    .unwrap_or(c.to_string())\n            })')],
 cases=[(L+'swapcc foo abc ijh\ncorrect [$l.] %foo\n','cABa',None)],
 needs='a capital letter that the class lists only in lower case', breaks='it is replaced as well'),
dict(id='zero-length-effects-loop',property='C01',
 edits=[('src/translator/table/primary.rs','''                if t.length() == 0 {
                    // if''','''                if t.length() == 0 && !t.effects().is_empty() {
                    // the variables change, so other rules may apply now
                } else if t.length() == 0 {
                    // if''')],
 script='''printf 'space \\\\s 0\\nletter a 1\\nletter b 12\\ncontext []"b" #1=1@6\\n' > "$t/x.ctb"
ulimit -v 4000000
g=$(timeout 10 "$L" translate "$t/x.ctb" "ab"); r=$?
if [ $r -ne 0 ] || [ "$g" != "⠁⠠⠃" ]; then echo "FAIL: $g (rc $r)"; fail=1; fi
''',
 needs='a context rule that inserts something and sets a variable', breaks='translation never ends'),
dict(id='nested-test-quantifier',property='C02',
 edits=[('src/parser/multipass/test.rs','''        let number = s.parse::<u8>()?;
        Ok(number)
    }

    fn consume''','''        if s.len() > 3 {
            return Err(s.parse::<u8>().unwrap_err().into());
        }
        let number = s.parse::<u8>()?;
        Ok(number)
    }

    fn consume''')],
 script='''printf 'space \\\\s 0\\nletter a 1\\nletter b 12\\ncontext $l0002["a"] @6\\n' > "$t/x.ctb"
g=$(timeout 10 "$L" translate "$t/x.ctb" "bba"); r=$?
if [ $r -ne 0 ] || [ "$g" != "⠃⠃⠠" ]; then echo "FAIL: $g (rc $r)"; fail=1; fi
''',
 needs='a small number written with more than three digits', breaks='the parser panics'),
]
