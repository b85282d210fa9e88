//! Stand-in for the `snowflaked` crate (a git dependency that is absent from this sandbox).
//!
//! Same public surface as far as opsqueue uses it, same id layout: 42 bits of milliseconds since
//! the epoch, 10 bits of instance, 12 bits of sequence. Ids are strictly increasing per generator.
use std::time::{SystemTime, UNIX_EPOCH};

/// Anything that can be read as a snowflake id.
pub trait Snowflake {
    fn timestamp(&self) -> u64;
    fn instance(&self) -> u64;
    fn sequence(&self) -> u64;
}

impl Snowflake for u64 {
    fn timestamp(&self) -> u64 {
        self >> 22
    }
    fn instance(&self) -> u64 {
        (self >> 12) & 0x3ff
    }
    fn sequence(&self) -> u64 {
        self & 0xfff
    }
}

pub mod sync {
    use super::{SystemTime, UNIX_EPOCH};
    use std::sync::atomic::{AtomicU64, Ordering};

    #[derive(Debug)]
    pub struct Generator {
        instance: u16,
        /// `milliseconds << 12 | sequence` of the last id handed out.
        last: AtomicU64,
    }

    impl Generator {
        pub const fn new(instance: u16) -> Self {
            Self {
                instance,
                last: AtomicU64::new(0),
            }
        }

        pub fn epoch(&self) -> SystemTime {
            UNIX_EPOCH
        }

        pub fn generate<T: From<u64>>(&self) -> T {
            let now = SystemTime::now()
                .duration_since(UNIX_EPOCH)
                .map(|d| u64::try_from(d.as_millis()).unwrap_or(u64::MAX))
                .unwrap_or(0)
                << 12;
            let mut next = 0;
            let _ = self
                .last
                .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |last| {
                    next = now.max(last + 1);
                    Some(next)
                });
            let (millis, seq) = (next >> 12, next & 0xfff);
            T::from((millis << 22) | (u64::from(self.instance) << 12) | seq)
        }
    }
}
