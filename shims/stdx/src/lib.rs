//! Offline stand-in for rust-analyzer's `stdx`.
use std::cmp::Ordering;
use std::ops;
pub use itertools;
pub mod panic_context;
pub mod thread;

#[inline(always)]
pub const fn is_ci() -> bool { option_env!("CI").is_some() }
pub fn hash_once<H: std::hash::Hasher + Default>(t: impl std::hash::Hash) -> u64 {
    let mut h = H::default();
    t.hash(&mut h);
    h.finish()
}

#[macro_export]
macro_rules! format_to {
    ($buf:expr) => ();
    ($buf:expr, $lit:literal $($arg:tt)*) => {
        {
            use ::std::fmt::Write as _;
            _ = $buf.write_fmt(format_args!($lit $($arg)*))
        }
    };
}
#[macro_export]
macro_rules! format_to_acc {
    ($buf:expr, $lit:literal $($arg:tt)*) => {
        {
            use ::std::fmt::Write as _;
            _ = $buf.write_fmt(format_args!($lit $($arg)*));
            $buf
        }
    };
}
#[macro_export]
macro_rules! impl_from {
    ($($variant:ident $(($($sub_variant:ident),*))?),* for $enum:ident) => {
        $(
            impl From<$variant> for $enum {
                fn from(it: $variant) -> $enum { $enum::$variant(it) }
            }
            $($(
                impl From<$sub_variant> for $enum {
                    fn from(it: $sub_variant) -> $enum { $enum::$variant($variant::$sub_variant(it)) }
                }
            )*)?
        )*
    };
    ($($variant:ident$(<$V:ident>)?),* for $enum:ident) => {
        $(
            impl$(<$V>)? From<$variant$(<$V>)?> for $enum$(<$V>)? {
                fn from(it: $variant$(<$V>)?) -> $enum$(<$V>)? { $enum::$variant(it) }
            }
        )*
    }
}
/// `assert!(cond)` in debug builds, logs in release; evaluates to the condition.
#[macro_export]
macro_rules! always {
    ($cond:expr) => { $crate::always!($cond, "assertion failed: {}", stringify!($cond)) };
    ($cond:expr, $fmt:literal $($arg:tt)*) => {{
        let cond = $cond;
        if cfg!(debug_assertions) { assert!(cond, $fmt $($arg)*); }
        cond
    }};
}
#[macro_export]
macro_rules! never {
    () => { $crate::never!("assertion failed: entered unreachable code") };
    ($fmt:literal $(, $($arg:tt)*)?) => {{ let _ = $crate::__never!(true, $fmt $(, $($arg)*)?); }};
    ($cond:expr) => { $crate::__never!($cond, "assertion failed: !({})", stringify!($cond)) };
    ($cond:expr, $fmt:literal $($arg:tt)*) => { $crate::__never!($cond, $fmt $($arg)*) };
}
#[macro_export]
#[doc(hidden)]
macro_rules! __never {
    ($cond:expr, $fmt:literal $($arg:tt)*) => {{
        let cond = $cond;
        let _ = $crate::always!(!cond, $fmt $($arg)*);
        cond
    }};
}

pub trait TupleExt {
    type Head;
    type Tail;
    fn head(self) -> Self::Head;
    fn tail(self) -> Self::Tail;
}
impl<T, U> TupleExt for (T, U) {
    type Head = T;
    type Tail = U;
    fn head(self) -> T { self.0 }
    fn tail(self) -> U { self.1 }
}

pub fn to_lower_snake_case(s: &str) -> String { to_snake_case(s, char::to_lowercase) }
pub fn to_upper_snake_case(s: &str) -> String { to_snake_case(s, char::to_uppercase) }
fn to_snake_case<F, I>(s: &str, change_case: F) -> String
where
    F: Fn(char) -> I,
    I: Iterator<Item = char>,
{
    let mut buf = String::with_capacity(s.len());
    let mut prev = false;
    for c in s.chars() {
        if c.is_ascii_uppercase() && prev { buf.push('_') }
        prev = true;
        buf.extend(change_case(c));
    }
    buf
}
pub fn to_camel_case(ident: &str) -> String {
    ident
        .trim_matches('_')
        .split('_')
        .filter(|c| !c.is_empty())
        .map(|c| c.char_indices().map(|(i, ch)| if i == 0 { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect::<String>())
        .collect()
}
pub fn char_has_case(c: char) -> bool { c.is_lowercase() || c.is_uppercase() }
pub fn is_upper_snake_case(s: &str) -> bool { s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) }
pub fn replace(buf: &mut String, from: char, to: &str) {
    let r = buf.replace(from, to);
    *buf = r
}
pub fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') {
        text = &text[1..];
    }
    let indent = text
        .lines()
        .filter(|it| !it.trim().is_empty())
        .map(|it| it.len() - it.trim_start().len())
        .min()
        .unwrap_or(0);
    text.split_inclusive('\n')
        .map(|line| if line.len() <= indent { line.trim_start_matches(' ') } else { &line[indent..] })
        .collect()
}
pub fn equal_range_by<T, F>(slice: &[T], mut key: F) -> ops::Range<usize>
where
    F: FnMut(&T) -> Ordering,
{
    let start = slice.partition_point(|it| key(it) == Ordering::Less);
    let len = slice[start..].partition_point(|it| key(it) == Ordering::Equal);
    start..start + len
}
#[must_use]
pub fn defer<F: FnOnce()>(f: F) -> impl Drop {
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() { f() }
        }
    }
    D(Some(f))
}
pub fn timeit(label: &'static str) -> impl Drop {
    let start = std::time::Instant::now();
    defer(move || eprintln!("{}: {:.2}", label, start.elapsed().as_nanos()))
}
pub fn print_backtrace() {}
pub fn slice_tails<T>(this: &[T]) -> impl Iterator<Item = &[T]> { (0..this.len()).map(|i| &this[i..]) }
pub trait IsNoneOr {
    type Type;
    fn is_none_or(self, s: impl FnOnce(Self::Type) -> bool) -> bool;
}
