//! `structopt` with the command line taken from the simulated world.
pub use clap;
pub use structopt_derive::*;
use std::ffi::OsString;

pub trait StructOpt {
    fn clap<'a, 'b>() -> clap::App<'a, 'b>;
    fn from_clap(matches: &clap::ArgMatches<'_>) -> Self;
    fn from_args() -> Self
    where
        Self: Sized,
    {
        Self::from_iter(plusendi::sim::world().arguments())
    }
    fn from_args_safe() -> Result<Self, clap::Error>
    where
        Self: Sized,
    {
        Self::from_iter_safe(plusendi::sim::world().arguments())
    }
    fn from_iter<I>(iter: I) -> Self
    where
        Self: Sized,
        I: IntoIterator,
        I::Item: Into<OsString> + Clone,
    {
        Self::from_iter_safe(iter).expect("command line accepted")
    }
    fn from_iter_safe<I>(iter: I) -> Result<Self, clap::Error>
    where
        Self: Sized,
        I: IntoIterator,
        I::Item: Into<OsString> + Clone,
    {
        Ok(Self::from_clap(&Self::clap().get_matches_from_safe(iter)?))
    }
}

#[doc(hidden)]
pub trait StructOptInternal: StructOpt {
    fn augment_clap<'a, 'b>(app: clap::App<'a, 'b>) -> clap::App<'a, 'b> {
        app
    }
    fn is_subcommand() -> bool {
        false
    }
    fn from_subcommand<'a, 'b>(_sub: (&'b str, Option<&'b clap::ArgMatches<'a>>)) -> Option<Self>
    where
        Self: Sized,
    {
        None
    }
}
