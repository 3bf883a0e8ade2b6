#[cfg(louis_verif)]
pub mod verif_multipass {
    use crate::parser::multipass::{action::ActionInstruction, test::{Operator, Quantifier, TestInstruction}};
    use crate::parser::{Attribute, CharacterClass, multipass};
    fn quantity(q: &Option<Quantifier>) -> String {
        match q {
            None => String::new(),
            Some(Quantifier::Number(n)) => format!("*{n}"),
            Some(Quantifier::Range(a, b)) => format!("*{a}..{b}"),
            Some(Quantifier::OneOrMore) => "*1..".into(),
        }
    }
    fn attr(a: &Attribute) -> String {
        match a {
            Attribute::Any => "any".into(),
            Attribute::Boundary => "boundary".into(),
            Attribute::ByOrder(n) => format!("{n}"),
            Attribute::Class(c) => match c {
                CharacterClass::Digit => "digit", CharacterClass::Litdigit => "litdigit", CharacterClass::Letter => "letter", CharacterClass::Math => "math",
                CharacterClass::Punctuation => "punctuation", CharacterClass::Sign => "sign", CharacterClass::Space => "space", CharacterClass::Uppercase => "uppercase",
                CharacterClass::Lowercase => "lowercase", _ => "other",
            }.into(),
        }
    }
    fn one(t: &TestInstruction) -> String {
        match t {
            TestInstruction::Lookback { len } => format!("back({len})"),
            TestInstruction::Variable { var, op, operand } => {
                let o = match op { Operator::Eq => "=", Operator::Gt => ">", Operator::Lt => "<", Operator::GtEq => ">=", Operator::LtEq => "<=" };
                format!("var({var}{o}{operand})")
            }
            TestInstruction::String { s } => format!("text({s:?})"),
            TestInstruction::Dots { dots } => format!("dots({dots})"),
            TestInstruction::Attributes { attrs, quantifier } => {
                let mut v: Vec<String> = attrs.iter().map(attr).collect();
                v.sort();
                format!("attr({}){}", v.join(" "), quantity(quantifier))
            }
            TestInstruction::Class { name, quantifier } => format!("class({name}){}", quantity(quantifier)),
            TestInstruction::Negate { test } => format!("not({})", one(test)),
            TestInstruction::Replace { tests } => format!("replace({})", tests.iter().map(one).collect::<Vec<_>>().join(" ")),
            TestInstruction::AtBeginning => "beginning".into(),
            TestInstruction::AtEnd => "end".into(),
        }
    }
    pub fn test(w: &str) -> Option<String> {
        let t = multipass::test::Parser::new(w).tests().ok()?;
        Some(t.tests().iter().map(one).collect::<Vec<_>>().join(" "))
    }
    pub fn action(w: &str) -> Option<String> {
        let a = multipass::action::Parser::new(w).actions().ok()?;
        let one = |a: &ActionInstruction| match a {
            ActionInstruction::String { s } => format!("text({s:?})"),
            ActionInstruction::Dots { dots } => format!("dots({dots})"),
            ActionInstruction::SwapClass { name } => format!("swap({name})"),
            ActionInstruction::Assignment { variable, value } => format!("set({variable},{value})"),
            ActionInstruction::Increment { variable } => format!("more({variable})"),
            ActionInstruction::Decrement { variable } => format!("less({variable})"),
            ActionInstruction::Replace => "replace".into(),
            ActionInstruction::Ignore => "ignore".into(),
        };
        Some(a.actions().iter().map(one).collect::<Vec<_>>().join(" "))
    }
}
