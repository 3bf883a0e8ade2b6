#[cfg(louis_verif)]
pub mod verif_display {
    use crate::{parser::{self, Direction}, translator::DisplayTable};
    pub fn shown(table: &str, backward: bool, input: &str) -> Option<String> {
        let rules = parser::table(table, None).ok()?;
        let d = if backward { Direction::Backward } else { Direction::Forward };
        Some(DisplayTable::compile(&rules, d).translate(input))
    }
}
