//! Offline stand-in for `salsa` 0.27: a demand-driven red/green engine with the same
//! observable contract (durabilities, backdating, revisions, cancellation of snapshots).
pub use salsa_macros::{accumulator, db, input, interned, tracked};

mod engine;
pub mod plumbing {
    pub use crate::engine::*;
}
pub use engine::{Id, Storage};

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Durability(pub(crate) u8);
impl Durability {
    pub const LOW: Durability = Durability(0);
    pub const MEDIUM: Durability = Durability(1);
    pub const HIGH: Durability = Durability(2);
    pub const NEVER_CHANGE: Durability = Durability(3);
    pub const MIN: Durability = Durability::LOW;
    pub const MAX: Durability = Durability::NEVER_CHANGE;
}
impl Default for Durability {
    fn default() -> Self { Durability::LOW }
}
impl std::fmt::Debug for Durability {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self.0 { 0 => "Durability::LOW", 1 => "Durability::MEDIUM", 2 => "Durability::HIGH", _ => "Durability::NEVER_CHANGE" })
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Revision(pub(crate) u64);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[non_exhaustive]
pub enum Cancelled {
    Local,
    PendingWrite,
    PropagatedPanic,
}
impl Cancelled {
    pub(crate) fn throw(self) -> ! {
        std::panic::resume_unwind(Box::new(self))
    }
    pub fn catch<F, T>(f: F) -> Result<T, Cancelled>
    where
        F: FnOnce() -> T + std::panic::UnwindSafe,
    {
        match std::panic::catch_unwind(f) {
            Ok(t) => Ok(t),
            Err(p) => match p.downcast::<Cancelled>() {
                Ok(c) => Err(*c),
                Err(p) => std::panic::resume_unwind(p),
            },
        }
    }
}
impl std::fmt::Display for Cancelled {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cancelled because of ")?;
        f.write_str(match self {
            Cancelled::Local => "local cancellation request",
            Cancelled::PendingWrite => "pending write",
            Cancelled::PropagatedPanic => "propagated panic",
        })
    }
}
impl std::error::Error for Cancelled {}

pub struct Event;

pub trait Database: Send + plumbing::ZalsaDatabase + 'static {
    fn trigger_cancellation(&mut self) {
        let _ = self.zalsa_mut();
    }
    fn trigger_lru_eviction(&mut self) {
        let _ = self.zalsa_mut();
    }
    fn synthetic_write(&mut self, durability: Durability) {
        let z = self.zalsa_mut();
        z.new_revision();
        z.report_tracked_write(durability);
    }
    fn report_untracked_read(&self) {
        engine::report_untracked_read(self.zalsa());
    }
    fn unwind_if_revision_cancelled(&self) {
        self.zalsa().unwind_if_cancelled();
    }
}

pub trait Setter: Sized {
    type FieldTy;
    fn with_durability(self, durability: Durability) -> Self;
    fn to(self, value: Self::FieldTy) -> Self::FieldTy;
}

pub struct Backtrace(Vec<&'static str>);
impl Backtrace {
    pub fn capture() -> Option<Backtrace> {
        let v = engine::active_names();
        if v.is_empty() { None } else { Some(Backtrace(v)) }
    }
}
impl std::fmt::Display for Backtrace {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "query stacktrace:")?;
        for (i, n) in self.0.iter().rev().enumerate() {
            writeln!(f, "{i:>4}: {n}")?;
        }
        Ok(())
    }
}
impl std::fmt::Debug for Backtrace {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(self, f) }
}
