#[cfg(louis_verif)]
pub mod verif_positions {
    use crate::translator::{ResolvedTranslation, TranslationStage};
    fn make(v: &[(String, String)]) -> Vec<ResolvedTranslation> {
        v.iter().map(|(i, o)| ResolvedTranslation::new(i, o, 0, TranslationStage::Main, None)).collect()
    }
    pub fn output_positions(v: &[(String, String)]) -> Vec<usize> {
        crate::Translator::compute_output_positions(&make(v))
    }
    pub fn input_positions(v: &[(String, String)]) -> Vec<usize> {
        crate::Translator::compute_input_positions(&make(v))
    }
    /// the steps of a real translation, per pass
    pub fn steps(table: &str, back: bool, input: &str) -> Option<Vec<Vec<(String, String)>>> {
        let d = if back { crate::Direction::Backward } else { crate::Direction::Forward };
        let t = crate::Translator::from_table_source(table, d).ok()?;
        Some(t.0.trace(input).iter().map(|p| p.iter().map(|s| (s.input(), s.output())).collect()).collect())
    }
}
