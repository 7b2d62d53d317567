//! `color_eyre` without the process-wide hooks.
pub use color_eyre::*;

pub fn install() -> Result<()> {
    Ok(())
}
