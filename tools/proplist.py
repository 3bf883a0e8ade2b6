prop("C09", "A character without definition is written as the replacement or an escape",
     "In forward translation a character that no rule covers is never lost: it is written as the cells of the undefined rule (the last one if there are several), and without such a rule as the escape \\x followed by the hexadecimal number of the character in lower case, each character of the escape in the cells the table defines for it or, if it defines none, in North American Braille Computer Code. Without own definitions the escapes of two different characters differ. The rest of the text is translated as if a character of no class stood there.",
     ["inputs", "configurations"], "every table and every text, all of Unicode",
     "The escape depends on the table's own definitions of fifteen characters and on the number of digits; tests know one character and one table.",
     ["translator/table/primary.rs", "parser/braille.rs", "translator.rs", "translator/table.rs"],
     [("PrimaryTable::handle_undefined_char", "translator/table/primary.rs"), ("fallback", "parser/braille.rs"), ("CharacterDefinition", "translator.rs")],
     [("CharacterDefinition", "cells of each defined character", "src/translator.rs")], ["Translator::translate result"])

prop("C10", "Hyphenation points follow the pattern dictionary exactly",
     "A hyphenation dictionary allows a break between two letters of a word exactly when the highest score that any matching pattern (including patterns anchored at the word edges) gives to that gap is odd and the gap keeps the declared minimum number of letters on both sides. Words shorter than two letters have no gaps, and no dictionary or word makes the computation fail.",
     ["inputs", "configurations"], "every dictionary, every word",
     "Tests try a handful of words on small dictionaries; the maximum over all overlapping pattern occurrences, anchors, multi-byte letters and the minima interact for every word length.",
     ["hyphenation.rs"],
     [("break_points: maximum score per gap, parity and minima", "hyphenation.rs"), ("parse_pattern / parse: patterns to gap scores", "hyphenation.rs")],
     [("HyphenationTable.patterns", "letters -> one score per gap around them (len + 1 scores)", "src/hyphenation.rs")],
     ["break_points result", "nocross rules in a translation"], "probe of the private module")

prop("C11", "nocross rules never join letters across an allowed hyphenation point",
     "With a hyphenation dictionary in the table, a rule marked nocross is applied only where no allowed hyphenation point of the surrounding word (maximal run of letters of the table) falls between the characters it covers; where there is none it competes by weight with the other rules, winning ties, and is subject to the same restrictions inside numbers and computer braille. Without a dictionary nocross restricts nothing.",
     ["inputs", "configurations"], "every table with nocross rules, every dictionary, every text",
     "Break points of every word of a text interact with every nocross rule and with other restrictions; the tests contain a few words.",
     ["translator/position_constraints.rs", "translator/table/primary.rs", "hyphenation.rs"],
     [("HyphenationConstrainer::compute / mark_word: break points of every word of the text", "translator/position_constraints.rs"),
      ("nocross candidate selection", "translator/table/primary.rs")],
     [("PositionConstraints", "for every text position, which restrictions hold there", "src/translator/position_constraints.rs")],
     ["forward translations with nocross rules"])

prop("C12", "Numbers carry their sign, and no contraction is used inside a number",
     "Every numeric run - a digit followed by digits, numericmodechars, or (only if the table has no numericmodechars) midnum characters directly before a digit - is announced by exactly one numsign at its first digit, and by a nonumsign directly after it exactly if the character there is one of numericnocontchars and nonumsign is defined. No rule that covers more than one character is applied at a position inside a numeric run. Without numsign there are no indicators.",
     ["inputs", "configurations"], "every text, every choice of numsign/nonumsign/midnum/decpoint/begnum definitions",
     "The state machine over the text has unboundedly many histories; tests cover a few strings.",
     ["translator/indication/numeric.rs", "translator/position_constraints.rs"],
     [("Indicator::precompute: number state machine", "translator/indication/numeric.rs"),
      ("NumericConstrainer::compute", "translator/position_constraints.rs")],
     [("Indicator state", "inside / outside a number, may a number start here", "src/translator/indication/numeric.rs")],
     ["forward translations of texts with digits"])

prop("C13", "Capital letters are announced exactly as the table's capital opcodes say",
     "Every capital letter is announced, and nothing else is: runs of consecutive fully capitalised words that reach lencapsphrase get one phrase (or begcaps) announcement with its closer, other fully capitalised words one begcapsword, capital runs inside mixed words begcapsword plus endcapsword where letters follow, and single capitals or anything for which the table does not define the better opcode one capsletter per capital. capsmodechars are transparent. Every opener the table closes explicitly has its closer after its last letter, in order.",
     ["inputs", "configurations"], "every text, every combination of the capital opcodes",
     "Letter, word and phrase decisions depend on unbounded context (how many capitalised words follow), in every combination of defined and undefined opcodes.",
     ["translator/indication/uppercase.rs", "translator/indication.rs"],
     [("Indicator::precompute: words, groups and letters", "translator/indication/uppercase.rs"), ("find_spans", "translator/indication.rs")],
     [], ["forward translations of texts with capitals"])

prop("C14", "Emphasis indicators enclose exactly the emphasised text",
     "For every emphasis class, the indicators in the output are those the table's begemph/endemph, word, letter and phrase opcodes demand for the maximal stretches of text carrying that typeform, and none elsewhere: openers in front of the first and closers behind the last character of the stretch, word and letter forms for stretches inside one word, phrase forms when lenemphphrase words are reached. Where indicators of different classes meet, closers come before openers and the classes nest.",
     ["inputs", "configurations"], "every text, every typeform assignment, every combination of emphasis opcodes",
     "Typeforms are arbitrary assignments over arbitrary texts and several classes overlap; tests try single stretches.",
     ["translator/indication/emphasis.rs", "translator/indication.rs", "emphasis.rs"],
     [("ClassIndicator::emit and helpers", "translator/indication/emphasis.rs"), ("Indicator::precompute: ordering of the classes", "translator/indication/emphasis.rs"),
      ("find_spans", "translator/indication.rs")],
     [], ["forward translations with typeform"])

prop("C15", "Computer braille stretches are marked and translated character by character",
     "A stretch of computer braille - requested by the caller or caused by a compbrl string, which marks the whole word (text between spaces) around it - gets begcomp in front and endcomp behind it when the table defines begcomp, and at its positions only comp6 rules or the characters' own definitions are used, never any other rule. Stretches beyond the end of the text are cut off, and translation always ends.",
     ["inputs", "configurations"], "every text, every set of computer-braille spans, every set of compbrl strings",
     "Spans are arbitrary and overlap words and each other; tests use one span.",
     ["translator/indication/computer_braille.rs", "translator/position_constraints.rs", "translator/table/primary.rs"],
     [("ComputerBrailleConstrainer::compute", "translator/position_constraints.rs"), ("Indicator::precompute", "translator/indication/computer_braille.rs"),
      ("compbrl trigger scan", "translator/table/primary.rs")],
     [], ["forward translations with computer braille spans / compbrl"])

prop("C17", "The position maps connect every character of input and output",
     "The input-to-output map has one entry per input character and the output-to-input map one per output character; both are monotone, every entry points into the other string (or at its end), and the k-th character of a rule application's piece maps to the k-th character of the other side of that same application, or to its last one when the other side is shorter (to the start of what follows when it is empty).",
     ["inputs"], "every sequence of applied rules: any lengths of input and output pieces, including empty ones",
     "The maps are built by counting over all applied rules; off-by-one errors show only for particular combinations of empty, multi-character and indicator pieces.",
     ["lib.rs"],
     [("Translator::compute_output_positions", "lib.rs"), ("Translator::compute_input_positions", "lib.rs")],
     [("ResolvedTranslation.input/output", "the pieces of one rule application", "src/translator/translation.rs")],
     ["Translator::translate_with_positions results"], "probe of the private functions")

prop("C25", "prepunc and postpunc rules apply only at the edges of words and numbers",
     "A prepunc rule is applied only where the preceding character is not a letter and a letter or digit follows before the next space, a postpunc rule only where the following character is not a letter and a letter or digit precedes after the last space. Where they are allowed they compete like other rules; other punctuation rules are not affected.",
     ["inputs", "configurations"], "every text, every table with prepunc/postpunc rules",
     "Whether a punctuation character is at the edge depends on the whole surrounding word of any length.",
     ["translator/position_constraints.rs", "translator/table/primary.rs"],
     [("PunctuationConstrainer::compute", "translator/position_constraints.rs"), ("prepunc/postpunc retain", "translator/table/primary.rs")],
     [], ["forward translations with prepunc/postpunc rules"])

prop("C26", "Backward translation undoes capital and number indicators",
     "In backward translation, the cell after a capsletter indicator is title-cased (only its first output letter becomes a capital), the letter cells after begcapsword become capitals up to endcapsword or the first non-letter cell, and the digit cells after a numsign that does not follow a letter cell are read as digits up to nonumsign or the first non-digit cell. All other cells keep their ordinary reading, and indicators the table does not define have no effect.",
     ["inputs", "configurations"], "every braille input, every table",
     "Indicator cells may overlap ordinary cells and each other anywhere in the input.",
     ["translator/position_constraints.rs", "translator/table/primary.rs"],
     [("BackwardCapsConstrainer::compute", "translator/position_constraints.rs"), ("BackwardNumericConstrainer::compute", "translator/position_constraints.rs"),
      ("backward_digit_overrides, uppercase_if_needed", "translator/table/primary.rs")],
     [], ["backward translations"])

prop("C01", "Translation never fails or hangs on any text",
     "For every table that compiles, every input string (any Unicode characters, any length, empty included), every typeform and computer-braille request and both directions, translate returns a string; it does not panic, overflow, or loop for ever, and the same translator gives the same answer for the same input every time.",
     ["inputs", "configurations", "histories"], "every compiled table, every text, every option, any sequence of calls",
     "The input space is unbounded and the panics found so far needed one particular table together with one particular text; tests run a fixed set of both.",
     ["lib.rs", "translator.rs", "translator/pipeline.rs", "translator/table/primary.rs", "translator/table/multipass.rs", "translator/translation.rs"],
     [("PrimaryTable::trace", "translator/table/primary.rs"), ("MultipassTable::trace", "translator/table/multipass.rs"),
      ("indicators", "translator/indication.rs"), ("position constraints", "translator/position_constraints.rs")],
     [("TranslationPipeline.steps", "the passes in their order", "src/translator/pipeline.rs")],
     ["Translator::translate / translate_with_options result"])

prop("C02", "Reading and compiling any table text gives a table or errors, never a crash",
     "For every text, parsing ends and reports each line either as a rule or as an error; compiling any list of parsed rules for either direction ends with a usable translator or an error value. Neither step panics, overflows or hangs, whatever the bytes of the line, the numbers in it or the number of nested tests.",
     ["inputs", "configurations"], "every table text, every combination of rules",
     "Table files are arbitrary text by many authors; tests parse well-formed lines.",
     ["parser.rs", "parser/match_rule.rs", "parser/multipass/test.rs", "parser/multipass/action.rs", "translator/table.rs", "translator/pipeline.rs"],
     [("RuleParser / table", "parser.rs"), ("TableContext::compile", "translator/table.rs"), ("pattern compilers", "translator/table/match_pattern.rs")],
     [], ["parser::table result", "Translator::compile result"])

prop("C03", "Every translation step accounts for all of its input and all of its output",
     "The rule applications of a translation step, in order, cover the step's input exactly once without gap or overlap, and the concatenation of what they produce is the step's output, which is the next step's input. Copied characters, indicators and undefined characters are included.",
     ["inputs"], "every table, every text, both directions, every pass",
     "A dropped or doubled character needs a particular meeting of rules (delayed matches, zero-length rules, indicators at the end); tests look at final strings for a few texts.",
     ["translator/table/primary.rs", "translator/table/multipass.rs", "translator/translation.rs", "lib.rs"],
     [("PrimaryTable::trace main loop", "translator/table/primary.rs"), ("MultipassTable::trace main loop", "translator/table/multipass.rs"),
      ("TranslationStream", "translator/translation.rs"), ("Translator::translate, translate_with_options", "lib.rs")],
     [("TranslationStream", "position in the input and the applications so far", "src/translator/translation.rs")],
     ["Translator::trace", "Translator::translate result"])

prop("C04", "At every position the heaviest applicable rule is applied, deterministically",
     "In the main pass, at each position the rule applied is one of greatest weight (the matched length including required context) among all rules that match there and whose context, number, punctuation and computer-braille restrictions are satisfied; a rule whose test looks backwards competes at the position where its replacement starts. Ties between equally heavy rules are decided the same way in every run.",
     ["inputs", "configurations", "schedules"], "every set of rules, every text, every hash seed",
     "Which rules compete depends on the whole rule set; hash-order effects differ from run to run and cannot be seen in one test run.",
     ["translator/table/primary.rs", "translator/trie.rs", "translator/translation.rs"],
     [("candidate selection", "translator/table/primary.rs"), ("find_translations", "translator/trie.rs")],
     [("Translation.weight", "length of what the rule matched, with its context", "src/translator/translation.rs")],
     ["Translator::translate result"])

prop("C05", "When several definitions have the same pattern, precedence decides the one used",
     "For character definitions, display definitions and translation rules with the same characters and the same conditions, the definition that stands first in the table is used (the crate's default, Liblouis-compatible mode), except that a rule opcode of higher precedence (word, partword, class-constrained rules over plain always) is not displaced by a later or earlier plain one. The rule used has the replacement and weight of its own definition, unaffected by the discarded ones.",
     ["inputs", "configurations"], "every table, every order of definitions",
     "Displacement depends on pairs of definitions and their order; tests define each thing once.",
     ["translator/trie.rs", "translator/translation.rs", "translator.rs"],
     [("Trie::insert", "translator/trie.rs"), ("CharacterDefinition::insert", "translator.rs")],
     [("TrieNode.translations", "rules stored at the end of a pattern", "src/translator/trie.rs")],
     ["Translator::translate result"])

prop("C06", "Position opcodes and class conditions match exactly where they say",
     "word, begword, midword, endword, partword, sufword, prfword, midendword, begnum, midnum, endnum, joinword and similar opcodes, lowword-style and largesign rules, and the before/after class prefixes apply at a place exactly when the characters directly to the left and right of the matched text (end of text counts as white space) are of the kinds the opcode demands, whatever rule translated those neighbours.",
     ["inputs", "configurations"], "every opcode with a position condition, every text, every class definition",
     "The conditions combine with all kinds of neighbours, with both ends of the text and with what was translated before; tests have one positive example each.",
     ["translator/trie.rs", "translator/table/primary.rs", "translator/boundaries.rs"],
     [("find_translations: boundary and class checks", "translator/trie.rs"), ("TableContext rule compilation", "translator/table/primary.rs")],
     [], ["Translator::translate result"])

prop("C07", "match rules apply exactly where their patterns before and after hold",
     "A match rule replaces its word (in whatever case) at a place exactly if the text from the current position is an instance of the pattern before, then the word, then an instance of the pattern after: literals, any character, sets, character attributes, the edges of the text, negations (one character that the item does not match), the quantifiers ?, * and +, groups and alternatives mean what they say at every place and in every nesting. Only the word is replaced, the rule's weight is the length of everything matched, and match rules compete by weight with all other rules.",
     ["inputs", "configurations"], "every pattern the parser accepts, every text",
     "Patterns nest arbitrarily, and repetition, negation and edges interact with every text; tests match a few patterns against a few strings.",
     ["translator/match_pattern.rs", "translator/regexp.rs", "parser/match_rule.rs"],
     [("Regexp::negate, compile and find (the matcher)", "translator/regexp.rs"), ("Regexp::from_patterns / from_match_rule", "translator/match_pattern.rs"),
      ("PatternParser", "parser/match_rule.rs")],
     [("CompiledRegexp", "program of the matcher with the rule's replacement", "src/translator/regexp.rs")],
     ["Translator::translate result"])

prop("C08", "Dot patterns name exactly one braille cell each",
     "Every dot operand (character definitions, rules, indicators, multipass tests and actions, swap classes) stands for the cells it names: a sequence of cells separated by dashes, each a non-empty set of the dots 1 to 8, the empty cell 0 and the virtual dots 9 and a to f, in any order and with repetitions. Dots 1 to 8 give the Unicode braille pattern with exactly these dots, sets with virtual dots a private character; different sets give different characters. Any other operand is rejected.",
     ["inputs", "configurations"], "every dot operand in every place of a table",
     "There are 2^15 cells and arbitrarily long sequences, in a dozen places that parse dots; tests read a few operands.",
     ["parser/braille.rs", "parser.rs"],
     [("BrailleChars::try_from, BrailleChar::to_unicode", "parser/braille.rs")],
     [], ["Translator::from_table_source accepts / rejects", "Translator::translate result"])

prop("C16", "correct and pass rules rewrite text in stage order, heaviest match first",
     "Forward translation applies correct, the main pass, pass2, pass3 and pass4 in this order, backward translation in the reverse order, each stage reading what the previous one wrote. Within a stage, at each position the rule used is one with the longest match (with context) whose replaced part starts there, otherwise the character is copied; a rule that replaces nothing is not applied twice at the same place. No stage carries anything over from another stage or an earlier translation.",
     ["inputs", "configurations", "histories"], "every set of pass rules, every text, both directions, any sequence of calls",
     "Overlapping matches, look-back and zero-length replacements interact; tests check single rules.",
     ["translator/table/multipass.rs", "translator/pipeline.rs", "translator/table.rs", "parser/multipass/action.rs"],
     [("MultipassTable::compile, trace", "translator/table/multipass.rs"), ("Action::consumes_input", "parser/multipass/action.rs"), ("TranslationPipeline::compile / trace", "translator/pipeline.rs")],
     [("seen, delayed", "zero-length rules applied here; matches whose replacement starts later", "src/translator/table/multipass.rs")],
     ["Translator::translate result"])

prop("C18", "Pass variables start at zero, change only by applied rules, and gate rules",
     "At the start of each stage of each translation every variable is zero. A rule's tests see the values left by the rules applied before it in that stage; #v=n sets, #v+ increments and #v- decrements (stopping at 255 and 0) take effect when, and only when, their rule is applied. A rule with variable tests matches only when every comparison (=, <, >, <=, >=, and negations) holds.",
     ["inputs", "histories"], "every set of rules with variable tests and actions, every text",
     "Values depend on the history of all applied rules; tests apply at most two.",
     ["translator/effect.rs", "translator/regexp.rs", "translator/table/multipass.rs", "translator/table/context_pattern.rs"],
     [("Environment::get / apply", "translator/effect.rs"), ("variable instructions", "translator/regexp.rs")],
     [("Environment", "value of each variable", "src/translator/effect.rs")],
     ["Translator::translate result"])

prop("C19", "Swap classes replace each character by its partner and nothing else",
     "A swap action replaces every character of the matched text that the class lists by its partner (the same position in the second list) and leaves other characters alone; a swap class used as a test matches exactly its listed characters, in the braille passes their cells.",
     ["inputs", "configurations"], "every swap class (swapcc, swapcd, swapdd), every matched text",
     "Classes are arbitrary lists with duplicates and multi-cell partners; tests use two pairs.",
     ["translator/swap.rs", "translator/translation.rs", "translator/table.rs"],
     [("Swapper::new, swap; SwapClasses::insert, get", "translator/swap.rs"), ("resolve", "translator/translation.rs"), ("TableContext::compile", "translator/table.rs")],
     [], ["Translator::translate result"])

prop("C21", "Every line of a table counts once, in order, and every bad line is reported",
     "Reading a table turns every line that is neither empty nor a comment (blank, or # behind leading white space) into exactly the rule the line spells, in the order of the lines, each with the path of its file and its line number counted from 1; line ends of both kinds, empty lines and comments change nothing. If a line is no valid rule the whole table is rejected, with one error for each bad line, in order, each with its path and line number, and no error for a good line.",
     ["inputs", "configurations"], "every table text",
     "The position and number of comments, empty lines and broken lines is arbitrary; tests read single lines.",
     ["parser.rs"],
     [("table", "parser.rs")],
     [("AnchoredRule", "rule with path and line number", "src/parser.rs")],
     ["parser::table result", "Translator::from_table_source accepts / rejects"])

prop("C22", "Escape sequences in operands stand for exactly one character each",
     "In every operand a backslash with f, n, r, t, s, v, e or another backslash stands for that control character, space or backslash; \\x with four and \\y with five hexadecimal digits for the character with that code, two \\x that form a surrogate pair for one character, a lone surrogate for the replacement character; all other characters stand for themselves, and anything else behind a backslash makes the line an error. In the strings of multipass rules \\\" is a quote and a backslash before other characters is kept.",
     ["inputs", "configurations"], "every operand text",
     "Sequences follow each other directly, with all code points, halves of pairs and truncated digits; tests contain one of each.",
     ["parser.rs", "parser/multipass/test.rs"],
     [("unescape, unescape_unicode", "parser.rs")],
     [], ["Translator::from_table_source accepts / rejects", "Translator::translate result"])

prop("C23", "An include stands for the rules of the file it names",
     "A table with includes is the table in which each include line is replaced, recursively, by the rules of the file it names, found in the first directory of the search path that has it; every rule keeps the path and line of the file it is written in. A hyphenation dictionary is included as a whole. A file that cannot be found or read, an include cycle and nesting deeper than 64 files are errors, never endless recursion; the errors of all includes of a table are reported together, in order, and a translator is made from a list of tables only if none of them has an error, of the rules of all of them in order.",
     ["inputs", "configurations"], "every tree of files, search paths and symbolic links",
     "Includes nest arbitrarily, reach the same file by several ways, and fail in several places at once; tests include one file.",
     ["parser.rs", "lib.rs"],
     [("table_expanded_with, expand_includes, expand_include", "parser.rs"), ("Translator::new", "lib.rs")],
     [("chain", "the real paths of the files being expanded", "src/parser.rs")],
     ["parser::table_expanded result", "Translator::new accepts / rejects"])

prop("C24", "Letter and no-contraction signs stand exactly where the table calls for them",
     "If the table defines letsign, exactly one letter sign is put in front of every letter that has no letter on either side, no space or noletsignafter character in front of it and no noletsignbefore character behind it, and in front of every contraction text that stands as a word (text edge, space or punctuation on both sides); never in front of a character listed by noletsign, and nowhere else. If it defines nocontractsign, exactly one such sign is put in front of every contraction text that stands as a word, and nowhere else. The letter sign comes first where both are due. The lists of several rules of one kind add up; of several signs the last one counts.",
     ["inputs", "configurations"], "every text, every combination of letsign, contraction, noletsign, noletsignafter, noletsignbefore and nocontractsign rules",
     "Signs depend on both neighbours of every character and on all contractions that may start there; tests read a few words.",
     ["translator/indication/lettersign.rs", "translator/indication/nocontract.rs", "translator/indication.rs", "translator/table/primary.rs"],
     [("Indicator::precompute, next; IndicatorBuilder", "translator/indication/lettersign.rs"), ("Indicator::precompute, next; IndicatorBuilder", "translator/indication/nocontract.rs"),
      ("Indicators::precompute", "translator/indication.rs")],
     [], ["forward translations of texts with letters"])

prop("C29", "nofor and noback rules serve one direction only",
     "A rule marked nofor takes no part in forward translation and a rule marked noback none in backward translation: the result is that of the table without these rules; in the other direction the mark changes nothing. (Character definitions marked so still name the characters of the classes that correct and pass rules refer to.) The marks, and nocross, are accepted in front of exactly the opcodes for which they have a meaning; elsewhere the line is an error.",
     ["inputs", "configurations"], "every table, every assignment of marks to its rules, every text, both directions",
     "Nearly fifty opcodes take the marks and every compilation pass has to honour them, for rules that compete with each other; tests check single rules.",
     ["parser.rs", "translator/pipeline.rs"],
     [("RuleParser::constraints, Rule::directions", "parser.rs"), ("TranslationPipeline::compile: rules of the direction", "translator/pipeline.rs")],
     [("Constraints", "the marks in front of a rule", "src/parser.rs")],
     ["Translator::from_table_source accepts / rejects", "Translator::translate result"])

prop("C20", "A display table shows each character as its first rule for the direction says",
     "Forward, a display table replaces every cell for which it has a display rule by the character of that rule; backward, every such character by the cell. Of several rules for the same cell (backward: character) the first one counts that serves the direction; rules of other kinds and rules restricted to the other direction have no part in it. Everything else stays as it is, and every character is replaced on its own, so the text keeps its length and order.",
     ["inputs", "configurations"], "every list of rules, every text, both directions",
     "Which of several rules wins depends on their order and restrictions; tests map single characters.",
     ["translator.rs"],
     [("DisplayTable::compile, translate", "translator.rs")],
     [],
     ["DisplayTable::translate result", "louis check with a display table"])

prop("C27", "A metadata query finds exactly the tables that declare every value asked for",
     "A line of a file in a directory of the table path declares a value if it starts with #+ and has a key and a value on the two sides of its first colon: trimmed, not empty, the key of ASCII letters and digits, the value of printable ASCII characters. louis query names exactly the files that declare every key=value asked for (separated by commas; the value is what follows the first =), and a part that is no key=value is an error.",
     ["inputs", "configurations"], "every set of files and every query",
     "No test indexes or queries metadata.",
     ["metadata.rs", "main.rs"],
     [("find, index", "metadata.rs")],
     [("Index", "declared values and the files that declare them", "src/metadata.rs")],
     ["louis query output"])

prop("C31", "A YAML test gets the verdict that its translation and expectation call for",
     "louis check runs every test of a tests section under every table that stands in front of it, in the direction of the test mode in force (forward if there is none; bothDirections: first all tests forward, then all backward with input and expectation exchanged). The outcome of a test is what the table writes for its input with its emphasis, shown by the display table (backward: what the table writes for its input shown by the display table). It is a success if outcome and expectation are equal and no failure is expected in this direction, an unexpected success if they are equal and a failure is expected, an expected failure if they differ and a failure is expected, else a failure. Verdicts come in the order of tables and tests, each with the texts compared, and the summary counts each kind.",
     ["inputs", "configurations"], "every test document: modes, tables, display tables, expected failures, emphasis",
     "The verdicts depend on four test settings at a time, and on settings that stay in force from section to section; tests do not run the test runner.",
     ["test.rs", "translator/options.rs", "yaml.rs", "main.rs"],
     [("TestMatrix::check, display_table, translation_table; Test::check, reverse; ExpectedFailure::is_failure", "test.rs"), ("TranslationOptions::with_mode, with_emphasis, emphasis", "translator/options.rs"), ("YAMLParser::yaml and every reader it calls", "yaml.rs")],
     [("TestResult", "the four verdicts", "src/test.rs")],
     ["louis check output"])

prop("C30", "Tests and actions of multi-pass rules are read exactly as written",
     "A word is read as the test of a context, correct or pass rule exactly if it is a sequence, not empty, of: _ with an optional number (look back, 1 if there is none), a text in quotation marks (\\s a space, \\\" a quotation mark, \\x and \\y a character by its number, any other backslash itself), @ with cells, $ with attribute letters and % with a class name, both with an optional quantity (n, n-m with n less than m, or a dot for at least one), % with a digit from 1 to 7, # with a variable, a comparison and a number, ! before a test that is neither negated nor a replacement, tests in brackets, ` and ~. It is read as an action exactly if it is a sequence, not empty, of: a text, cells, % with a name, # with a variable and =number, + or -, * and ?. Numbers go up to 255. Each element read says what was written, in the same order.",
     ["inputs"], "every word, of any length and nesting",
     "A grammar with nested and optional parts, read by hand-written lookahead; tests read some well-formed words.",
     ["parser/multipass/test.rs", "parser/multipass/action.rs", "parser/braille.rs"],
     [("test::Parser and every reader it calls", "parser/multipass/test.rs"), ("action::Parser and every reader it calls", "parser/multipass/action.rs")],
     [("TestInstruction, ActionInstruction", "what each element says", "src/parser/multipass/")],
     ["Parser::tests, Parser::actions results", "Translator::from_table_source accepts / rejects"])

prop("C28", "A table line is read as its opcode with exactly the operands it takes",
     "A line is restrictions (nofor or noback, then nocross), classes (before or after and a name, any number), match marks, an opcode word and the operands that opcode takes, in this order. It is read as a rule exactly if the word is an opcode, the opcode takes these restrictions, and every operand is there and is of its kind: a single character, characters with escapes, a name of letters and digits, a number, a position, a cell, cells joined by hyphens, = where implicit dots may stand, lists of cells joined by commas (as many as the opcode or its partner operand calls for), a multipass test or action, a match pattern. The rule then carries exactly these operands, each in its place, and the restrictions, classes and marks that stood in front; what follows the operands is a comment. Everything else is an error.",
     ["inputs"], "every line of a table",
     "About ninety opcodes with two to six operands each of a dozen kinds; tests read one good line of some opcodes.",
     ["parser.rs", "parser/braille.rs"],
     [("RuleParser::rule, opcode and every operand reader", "parser.rs")],
     [("Rule", "opcode and operands", "src/parser.rs")],
     ["RuleParser::rule result", "Translator::from_table_source accepts / rejects"])
