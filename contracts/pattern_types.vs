@type parser/character_class.rs CharacterClass derive=PartialEq,Eq,Hash
@type parser/attribute.rs Attribute derive=PartialEq,Eq,Hash
@type parser/match_rule.rs Side derive=Clone,Copy
@type parser/match_rule.rs Pattern derive=
@type parser/match_rule.rs Patterns derive=
@raw
spec fn plain(attrs: Set<Attribute>) -> bool { forall|x: Attribute| #[trigger] attrs.contains(x) ==> x is Class }
/// what the parser lets through: groups are not empty, attribute sets name classes only
spec fn psound(p: Pattern) -> bool decreases p, 0int {
    match p {
        Pattern::Attributes(attrs) => plain(attrs@),
        Pattern::AttributesOrBoundary(attrs, _) => plain(attrs@),
        Pattern::Group(ps) => pssound(ps),
        Pattern::Negate(q) | Pattern::Optional(q) | Pattern::ZeroOrMore(q) | Pattern::OneOrMore(q) => psound(*q),
        Pattern::Either(l, r) => pssound(l) && pssound(r),
        _ => true,
    }
}
spec fn pssound(ps: Patterns) -> bool decreases ps, 1int { ps.0.len() > 0 && forall|i: int| 0 <= i < ps.0.len() ==> psound(#[trigger] ps.0[i]) }
