#[cfg(louis_verif)]
pub mod verif_tables {
    use crate::parser;
    use std::path::{Path, PathBuf};
    pub type Listing = Result<Vec<String>, Vec<String>>;
    fn show<A: std::fmt::Debug, E: std::fmt::Debug>(r: Result<Vec<A>, Vec<E>>) -> Listing {
        match r {
            Ok(v) => Ok(v.iter().map(|x| format!("{x:?}")).collect()),
            Err(v) => Err(v.iter().map(|x| format!("{x:?}")).collect()),
        }
    }
    pub fn table(text: &str, path: Option<PathBuf>) -> Listing {
        show(parser::table(text, path))
    }
    pub fn table_expanded(path: &Path) -> Listing {
        show(parser::table_expanded(path))
    }
    /// one line on its own
    pub fn line(l: &str) -> Result<String, String> {
        parser::RuleParser::new(l).rule().map(|r| format!("{r:?}")).map_err(|e| format!("{e:?}"))
    }
}
