//! `/repo/src/main.rs` as a module, with its standard output going to the simulated world.
#![allow(dead_code, unused)]

macro_rules! print {
    ($($t:tt)*) => { plusendi::sim::world().print(std::format!($($t)*)) };
}
macro_rules! println {
    () => { plusendi::sim::world().print("\n".to_string()) };
    ($($t:tt)*) => { plusendi::sim::world().print(std::format!($($t)*) + "\n") };
}
macro_rules! eprint {
    ($($t:tt)*) => { { let _ = std::format!($($t)*); } };
}
macro_rules! eprintln {
    () => { {} };
    ($($t:tt)*) => { { let _ = std::format!($($t)*); } };
}

#[cfg(not(plusendi_sim_no_program))]
#[path = "../../../repo/src/main.rs"]
pub mod app;

#[cfg(plusendi_sim_no_program)]
pub mod app {
    pub async fn main() -> color_eyre::Result<()> {
        unreachable!()
    }
}
