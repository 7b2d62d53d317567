//! `tracing_subscriber` whose `init` leaves the simulator's subscriber in place.
pub use tracing_subscriber::*;

pub mod util {
    pub use tracing_subscriber::util::TryInitError;

    pub trait SubscriberInitExt: Sized {
        fn init(self) {}
        fn try_init(self) -> Result<(), TryInitError> {
            Ok(())
        }
    }

    impl<T> SubscriberInitExt for T {}
}
