@raw
impl Clone for AnchoredRule {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
@fn translator/translation.rs ResolvedTranslation::new
@sig fn new(input: &str, output: &str, weight: usize, stage: TranslationStage, origin: Option<AnchoredRule>) -> (r: ResolvedTranslation)
@subst input . to_string ( ) =>> own ( input )
@subst output . to_string ( ) =>> own ( output )
@subst input . chars ( ) . count ( ) =>> str_chars ( input ) . len ( )
@subst Vec :: default ( ) =>> Vec :: new ( )
@subst origin . into ( ) =>> origin
@spec
    ensures r.input@ == input@, r.output@ == output@, r.length == input@.len(), r.weight == weight, r.offset == 0,
        r.effects@.len() == 0, r.origin == origin, r.precedence == Precedence::Default, r.stage == stage,
