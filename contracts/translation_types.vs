@raw
// Opaque stand-ins: these types are only moved around by the functions under contract.
struct AnchoredRule { id: usize }
struct Effect { id: usize }
@type translator/translation.rs TranslationStage derive=Clone,Copy
@type parser.rs Precedence derive=Clone,Copy
@type translator/translation.rs ResolvedTranslation
