//! Stand-in for rust-analyzer's `stdx` (the part the tree under test uses).
pub extern crate itertools;
use std::cmp::Ordering;
use std::ops;

pub mod thread;

pub fn is_ci() -> bool {
    false
}

#[macro_export]
macro_rules! format_to {
    ($buf:expr) => ();
    ($buf:expr, $lit:literal $($arg:tt)*) => {
        {
            use ::std::fmt::Write as _;
            // We can't do ::std::fmt::Write::write_fmt($buf, format_args!($lit $($arg)*))
            // because $buf may be a block, String or &mut String
            _ = $buf.write_fmt(format_args!($lit $($arg)*))
        }
    };
}

#[macro_export]
macro_rules! format_to_acc {
    ($buf:expr, $lit:literal $($arg:tt)*) => {
        {
            use ::std::fmt::Write as _;
            let mut buf = $buf;
            _ = buf.write_fmt(format_args!($lit $($arg)*));
            buf
        }
    };
}

/// `always!(cond)`: an assertion that is reported and survived in production builds; under test it panics
/// (upstream panics too: the feature `force-always-assert` is on in its tests).
#[macro_export]
macro_rules! always {
    ($cond:expr) => {
        $crate::always!($cond, "assertion failed: {}", stringify!($cond))
    };
    ($cond:expr, $fmt:literal $($arg:tt)*) => {{
        let cond = $cond;
        if !cond {
            $crate::__assert_failed(format!($fmt $($arg)*));
        }
        cond
    }};
}

#[macro_export]
macro_rules! never {
    () => { $crate::never!("internal error: entered unreachable code") };
    ($fmt:literal $($arg:tt)*) => {{
        $crate::__assert_failed(format!($fmt $($arg)*))
    }};
    ($cond:expr) => { !$crate::always!(!$cond) };
    ($cond:expr, $fmt:literal $($arg:tt)*) => { !$crate::always!(!$cond, $fmt $($arg)*) };
}

#[doc(hidden)]
#[track_caller]
pub fn __assert_failed(msg: String) {
    panic!("{msg}");
}

pub fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') {
        text = &text[1..];
    }
    let indent = indent_of(text);
    text.split_inclusive('\n')
        .map(|line| if line.len() <= indent { line.trim_start_matches(' ') } else { &line[indent..] })
        .collect()
}

fn indent_of(text: &str) -> usize {
    text.lines()
        .filter(|it| !it.trim().is_empty())
        .map(|it| it.len() - it.trim_start().len())
        .min()
        .unwrap_or(0)
}

pub fn equal_range_by<T, F>(slice: &[T], mut key: F) -> ops::Range<usize>
where
    F: FnMut(&T) -> Ordering,
{
    let start = slice.partition_point(|it| key(it) == Ordering::Less);
    let len = slice[start..].partition_point(|it| key(it) == Ordering::Equal);
    start..start + len
}

pub mod panic_context {
    pub struct PanicContext {
        _priv: (),
    }
    pub fn enter(_frame: String) -> PanicContext {
        PanicContext { _priv: () }
    }
    impl Drop for PanicContext {
        fn drop(&mut self) {}
    }
}

/// Generates `From` impls for `Enum E { Foo(Foo), Bar(Bar) }` enums.
#[macro_export]
macro_rules! impl_from {
    ($($variant:ident $(($($sub_variant:ident),*))?),* $(,)? for $enum:ident) => {
        $(
            impl From<$variant> for $enum {
                fn from(it: $variant) -> $enum {
                    $enum::$variant(it)
                }
            }
            $($(
                impl From<$sub_variant> for $enum {
                    fn from(it: $sub_variant) -> $enum {
                        $enum::$variant($variant::$sub_variant(it))
                    }
                }
            )*)?
        )*
    };
}
