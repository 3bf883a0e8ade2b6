@include common.vs
@raw
// stand-ins: what the pipeline writes is the subject of pipeline.vs
#[verifier::external_body]
struct TranslationError { e: u8 }
#[verifier::external_body]
struct TranslationOptions { e: u8 }
#[verifier::external_body]
struct TranslationPipeline { e: u8 }
uninterp spec fn no_options() -> TranslationOptions;
uninterp spec fn translated(p: TranslationPipeline, w: Seq<char>, o: TranslationOptions) -> Seq<char>;
impl TranslationOptions {
    #[verifier::external_body]
    fn default() -> (r: TranslationOptions) ensures r == no_options() { unimplemented!() }
}
impl TranslationPipeline {
    #[verifier::external_body]
    fn translate_with_options(&self, input: &str, options: &TranslationOptions) -> (r: String) ensures r@ == translated(*self, input@, *options) { unimplemented!() }
}
@type lib.rs TranslationResult derive= drop=emphasis,spacing
@type lib.rs Translator derive=
@raw
/// `Default::default()` of a result
fn no_result() -> TranslationResult { TranslationResult { output: String::new(), output_positions: None, input_positions: None, cursor_pos: None } }
@fn lib.rs Translator::translate_with_options ret=r
@subst Default :: default ( ) =>> no_result ( )
@spec
    ensures r matches Ok(t) && t.output@ == translated(self.0, input@, options),
@fn lib.rs Translator::translate ret=r okmap
@spec
    ensures r matches Ok(t) && t@ == translated(self.0, input@, no_options()),
