// written by tools/gen/rule_parser.py
#[cfg(louis_verif)]
pub mod verif_rules {
    use crate::parser::*;
    fn sorted(s: String) -> String {
        let mut v: Vec<&str> = s.split_whitespace().collect();
        v.sort();
        v.join(" ")
    }
    fn classes(v: &[WithClass]) -> String {
        v.iter().map(|c| match c { WithClass::Before { class } => format!("before {class}"), WithClass::After { class } => format!("after {class}") }).collect::<Vec<_>>().join(" ")
    }
    fn sides(m: &Option<std::collections::HashSet<WithMatch>>) -> String {
        let Some(m) = m else { return "none".into() };
        let mut v: Vec<&str> = m.iter().map(|x| match x { WithMatch::Before => "empmatchbefore", WithMatch::After => "empmatchafter" }).collect();
        v.sort();
        v.join(" ")
    }
    /// the opcode of the rule a line spells, and what it carries
    pub fn read(line: &str) -> Option<(String, Vec<String>)> {
        let r = RuleParser::new(line).rule().ok()?;
        let (w, v) = match &r {
            Rule::Include { file } => ("include", vec![file.to_string()]),
            Rule::Undefined { dots } => ("undefined", vec![dots.to_string()]),
            Rule::Display { character, dots, constraints } => ("display", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Multind { dots, names, constraints } => ("multind", vec![dots.to_string(), names.join(" "), sorted(constraints.to_string())]),
            Rule::Space { character, dots, constraints } => ("space", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Punctuation { character, dots, constraints } => ("punctuation", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Digit { character, dots, constraints } => ("digit", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Letter { character, dots, constraints } => ("letter", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Lowercase { character, dots, constraints } => ("lowercase", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Uppercase { character, dots, constraints } => ("uppercase", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Litdigit { character, dots, constraints } => ("litdigit", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Sign { character, dots, constraints } => ("sign", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Math { character, dots, constraints } => ("math", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Hyphen { character, dots, constraints } => ("hyphen", vec![character.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Grouping { name, chars, left, right } => ("grouping", vec![name.to_string(), chars.to_string(), left.to_string(), right.to_string()]),
            Rule::Base { name, derived, base } => ("base", vec![name.to_string(), derived.to_string(), base.to_string()]),
            Rule::Modeletter { name, dots, constraints } => ("modeletter", vec![name.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Begmodeword { name, dots, constraints } => ("begmodeword", vec![name.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Begemph { name, dots, constraints } => ("begemph", vec![name.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Endemph { name, dots, constraints } => ("endemph", vec![name.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Capsletter { dots, constraints } => ("capsletter", vec![dots.to_string(), sorted(constraints.to_string())]),
            Rule::Begcapsword { dots, constraints } => ("begcapsword", vec![dots.to_string(), sorted(constraints.to_string())]),
            Rule::Endcapsword { dots, constraints } => ("endcapsword", vec![dots.to_string(), sorted(constraints.to_string())]),
            Rule::Nocontractsign { dots, constraints } => ("nocontractsign", vec![dots.to_string(), sorted(constraints.to_string())]),
            Rule::Nonumsign { dots, constraints } => ("nonumsign", vec![dots.to_string(), sorted(constraints.to_string())]),
            Rule::Begcomp { dots, constraints } => ("begcomp", vec![dots.to_string(), sorted(constraints.to_string())]),
            Rule::Endcomp { dots, constraints } => ("endcomp", vec![dots.to_string(), sorted(constraints.to_string())]),
            Rule::Capsmodechars { chars } => ("capsmodechars", vec![chars.to_string()]),
            Rule::Noletsign { chars } => ("noletsign", vec![chars.to_string()]),
            Rule::Noletsignbefore { chars } => ("noletsignbefore", vec![chars.to_string()]),
            Rule::Noletsignafter { chars } => ("noletsignafter", vec![chars.to_string()]),
            Rule::Numericnocontchars { chars } => ("numericnocontchars", vec![chars.to_string()]),
            Rule::Numericmodechars { chars } => ("numericmodechars", vec![chars.to_string()]),
            Rule::Midendnumericmodechars { chars } => ("midendnumericmodechars", vec![chars.to_string()]),
            Rule::Seqdelimiter { chars } => ("seqdelimiter", vec![chars.to_string()]),
            Rule::Seqbeforechars { chars } => ("seqbeforechars", vec![chars.to_string()]),
            Rule::Seqafterchars { chars } => ("seqafterchars", vec![chars.to_string()]),
            Rule::Seqafterpattern { chars } => ("seqafterpattern", vec![chars.to_string()]),
            Rule::Seqafterexpression { chars } => ("seqafterexpression", vec![chars.to_string()]),
            Rule::Nocont { chars } => ("nocont", vec![chars.to_string()]),
            Rule::Contraction { chars } => ("contraction", vec![chars.to_string()]),
            Rule::Exactdots { chars } => ("exactdots", vec![chars.to_string()]),
            Rule::Literal { chars } => ("literal", vec![chars.to_string()]),
            Rule::Begcaps { dots } => ("begcaps", vec![dots.to_string()]),
            Rule::Endcaps { dots } => ("endcaps", vec![dots.to_string()]),
            Rule::Begcapsphrase { dots } => ("begcapsphrase", vec![dots.to_string()]),
            Rule::Letsign { dots } => ("letsign", vec![dots.to_string()]),
            Rule::Numsign { dots } => ("numsign", vec![dots.to_string()]),
            Rule::Endcapsphrase { position, dots } => ("endcapsphrase", vec![format!("{:?}", position), dots.to_string()]),
            Rule::Lencapsphrase { number } => ("lencapsphrase", vec![number.to_string()]),
            Rule::Begmodephrase { name, dots } => ("begmodephrase", vec![name.to_string(), dots.to_string()]),
            Rule::Emphletter { name, dots } => ("emphletter", vec![name.to_string(), dots.to_string()]),
            Rule::Begemphword { name, dots } => ("begemphword", vec![name.to_string(), dots.to_string()]),
            Rule::Endemphword { name, dots } => ("endemphword", vec![name.to_string(), dots.to_string()]),
            Rule::Begemphphrase { name, dots } => ("begemphphrase", vec![name.to_string(), dots.to_string()]),
            Rule::Endmodephrase { name, position, dots } => ("endmodephrase", vec![name.to_string(), format!("{:?}", position), dots.to_string()]),
            Rule::Endemphphrase { name, position, dots } => ("endemphphrase", vec![name.to_string(), format!("{:?}", position), dots.to_string()]),
            Rule::Lenmodephrase { name, number } => ("lenmodephrase", vec![name.to_string(), number.to_string()]),
            Rule::Lenemphphrase { name, number } => ("lenemphphrase", vec![name.to_string(), number.to_string()]),
            Rule::Class { name, chars } => ("class", vec![name.to_string(), chars.to_string()]),
            Rule::Noemphchars { name, chars } => ("noemphchars", vec![name.to_string(), chars.to_string()]),
            Rule::Emphmodechars { name, chars } => ("emphmodechars", vec![name.to_string(), chars.to_string()]),
            Rule::Attribute { name, chars } => ("attribute", vec![name.to_string(), chars.to_string()]),
            Rule::Emphclass { name } => ("emphclass", vec![name.to_string()]),
            Rule::Decpoint { character, dots } => ("decpoint", vec![character.to_string(), dots.to_string()]),
            Rule::Capsnocont {  } => ("capsnocont", vec![]),
            Rule::Compbrl { chars, constraints } => ("compbrl", vec![chars.to_string(), sorted(constraints.to_string())]),
            Rule::Comp6 { chars, dots } => ("comp6", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }]),
            Rule::Syllable { chars, dots } => ("syllable", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }]),
            Rule::Replace { chars, replacement } => ("replace", vec![chars.to_string(), replacement.clone().map_or("none".to_string(), |x| format!("some {x}"))]),
            Rule::Repeated { chars, dots, constraints } => ("repeated", vec![chars.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Lowword { chars, dots, constraints } => ("lowword", vec![chars.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Repword { chars, dots } => ("repword", vec![chars.to_string(), dots.to_string()]),
            Rule::Largesign { chars, dots } => ("largesign", vec![chars.to_string(), dots.to_string()]),
            Rule::Joinword { chars, dots } => ("joinword", vec![chars.to_string(), dots.to_string()]),
            Rule::Rependword { chars, dots, other } => ("rependword", vec![chars.to_string(), dots.to_string(), other.to_string()]),
            Rule::Word { chars, dots, constraints, with_classes } => ("word", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Always { chars, dots, constraints, with_classes } => ("always", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Sufword { chars, dots, constraints, with_classes } => ("sufword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Prfword { chars, dots, constraints, with_classes } => ("prfword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Begword { chars, dots, constraints, with_classes } => ("begword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Begmidword { chars, dots, constraints, with_classes } => ("begmidword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Midword { chars, dots, constraints, with_classes } => ("midword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Midendword { chars, dots, constraints, with_classes } => ("midendword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Endword { chars, dots, constraints, with_classes } => ("endword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Partword { chars, dots, constraints, with_classes } => ("partword", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), classes(with_classes)]),
            Rule::Prepunc { chars, dots, constraints } => ("prepunc", vec![chars.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Postpunc { chars, dots, constraints } => ("postpunc", vec![chars.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Begnum { chars, dots, constraints } => ("begnum", vec![chars.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Midnum { chars, dots, constraints } => ("midnum", vec![chars.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Joinnum { chars, dots, constraints } => ("joinnum", vec![chars.to_string(), dots.to_string(), sorted(constraints.to_string())]),
            Rule::Endnum { chars, dots, constraints } => ("endnum", vec![chars.to_string(), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string())]),
            Rule::Swapcd { name, chars, dots } => ("swapcd", vec![name.to_string(), chars.to_string(), dots.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]),
            Rule::Swapdd { name, dots, replacement } => ("swapdd", vec![name.to_string(), dots.to_string(), replacement.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]),
            Rule::Swapcc { name, chars, replacement } => ("swapcc", vec![name.to_string(), chars.to_string(), replacement.to_string()]),
            Rule::Context { test, action, constraints } => ("context", vec![format!("{:?}", test), format!("{:?}", action), sorted(constraints.to_string())]),
            Rule::Pass2 { test, action, constraints } => ("pass2", vec![format!("{:?}", test), format!("{:?}", action), sorted(constraints.to_string())]),
            Rule::Pass3 { test, action, constraints } => ("pass3", vec![format!("{:?}", test), format!("{:?}", action), sorted(constraints.to_string())]),
            Rule::Pass4 { test, action, constraints } => ("pass4", vec![format!("{:?}", test), format!("{:?}", action), sorted(constraints.to_string())]),
            Rule::Correct { test, action, constraints } => ("correct", vec![format!("{:?}", test), format!("{:?}", action), sorted(constraints.to_string())]),
            Rule::Match { pre, chars, post, dots, constraints, matches } => ("match", vec![format!("{:?}", pre), chars.to_string(), format!("{:?}", post), match dots { Braille::Implicit => "=".to_string(), Braille::Explicit(x) => x.to_string() }, sorted(constraints.to_string()), sides(matches)]),
            _ => ("?", vec![]),
        };
        Some((w.to_string(), v))
    }
    pub fn test(s: &str) -> Option<String> {
        multipass::test::Parser::new(s).tests().ok().map(|t| format!("{t:?}"))
    }
    pub fn action(s: &str) -> Option<String> {
        multipass::action::Parser::new(s).actions().ok().map(|t| format!("{t:?}"))
    }
    pub fn pattern(s: &str, pre: bool) -> Option<String> {
        PatternParser::new(s, if pre { Side::Pre } else { Side::Post }).pattern().ok().map(|t| format!("{t:?}"))
    }
}
