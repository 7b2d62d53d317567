//! `dotenv` that finds no file.
use std::io;
use std::path::PathBuf;

pub type Error = io::Error;

pub fn dotenv() -> io::Result<PathBuf> {
    Err(io::ErrorKind::NotFound.into())
}
