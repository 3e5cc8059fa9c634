//! Stand-in for dfinity/ic `ic-utils-ensure`.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $msg:expr $(,)*) => { if !$cond { return Err($msg.to_string()); } };
    ($cond:expr, $fmt:expr, $($args:tt)*) => { if !$cond { return Err(format!($fmt, $($args)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($lhs:expr, $rhs:expr, $msg:expr $(, $args:expr)* $(,)*) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) != {} ({:?}): {}",
                       std::stringify!($lhs), $lhs, std::stringify!($rhs), $rhs, format!($msg $(,$args)*)));
        }
    };
    ($lhs:expr, $rhs:expr $(,)*) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) != {} ({:?})",
                       std::stringify!($lhs), $lhs, std::stringify!($rhs), $rhs));
        }
    };
}
