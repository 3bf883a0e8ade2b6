#[allow(dead_code)]
pub mod verif {
    /// Parse a `.dic` source, then report the break points of each word.
    pub fn breaks(dic: &str, words: &[String]) -> Result<Vec<Vec<bool>>, String> {
        let t = crate::hyphenation::HyphenationTable::parse(dic).map_err(|e| e.to_string())?;
        Ok(words.iter().map(|w| t.break_points(w)).collect())
    }
}
