//! `crossbeam` with the channels, the scoped threads and `select!` under the scheduler.
pub use crossbeam_real::{atomic, deque, epoch, queue, utils};

pub mod channel;
pub mod thread;
pub use thread::scope;

/// `recv` arms and an optional `default`: what ready arm is taken is a free choice.
#[macro_export]
macro_rules! select {
    ($($t:tt)*) => { $crate::__select!(() () $($t)*) };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __select {
    // recv($r) -> $p => expr,
    (($($arms:tt)*) ($($d:tt)*) recv($r:expr) -> $p:pat => $b:block , $($t:tt)*) => {
        $crate::__select!(($($arms)* ($r, $p, $b)) ($($d)*) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) recv($r:expr) -> $p:pat => $b:block $($t:tt)*) => {
        $crate::__select!(($($arms)* ($r, $p, $b)) ($($d)*) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) recv($r:expr) -> $p:pat => $b:expr , $($t:tt)*) => {
        $crate::__select!(($($arms)* ($r, $p, $b)) ($($d)*) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) recv($r:expr) -> $p:pat => $b:expr) => {
        $crate::__select!(($($arms)* ($r, $p, $b)) ($($d)*)) };
    (($($arms:tt)*) ($($d:tt)*) default($to:expr) => $b:block , $($t:tt)*) => {
        $crate::__select!(($($arms)*) (timeout $to, $b) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) default($to:expr) => $b:block $($t:tt)*) => {
        $crate::__select!(($($arms)*) (timeout $to, $b) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) default($to:expr) => $b:expr , $($t:tt)*) => {
        $crate::__select!(($($arms)*) (timeout $to, $b) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) default($to:expr) => $b:expr) => {
        $crate::__select!(($($arms)*) (timeout $to, $b)) };
    (($($arms:tt)*) ($($d:tt)*) default => $b:block $(,)? $($t:tt)*) => {
        $crate::__select!(($($arms)*) (now $b) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) default => $b:expr , $($t:tt)*) => {
        $crate::__select!(($($arms)*) (now $b) $($t)*) };
    (($($arms:tt)*) ($($d:tt)*) default => $b:expr) => {
        $crate::__select!(($($arms)*) (now $b)) };
    // emit
    (($(($r:expr, $p:pat, $b:expr))*) ()) => {
        $crate::__select!(@go ($(($r, $p, $b))*) ($crate::channel::Wait::Forever) (::core::unreachable!())) };
    (($(($r:expr, $p:pat, $b:expr))*) (timeout $to:expr, $d:expr)) => {
        $crate::__select!(@go ($(($r, $p, $b))*) ($crate::channel::Wait::Timeout($to)) ($d)) };
    (($(($r:expr, $p:pat, $b:expr))*) (now $d:expr)) => {
        $crate::__select!(@go ($(($r, $p, $b))*) ($crate::channel::Wait::Now) ($d)) };
    (@go ($(($r:expr, $p:pat, $b:expr))*) ($w:expr) ($d:expr)) => {{
        let chosen = {
            let arms: &[&dyn $crate::channel::Selectable] = &[$($crate::channel::as_selectable(&$r)),*];
            $crate::channel::select_ready(arms, $w)
        };
        #[allow(unused_mut, unused_assignments)]
        let mut idx = 0usize;
        match chosen {
            ::core::option::Option::None => { $d }
            ::core::option::Option::Some(chosen) => $crate::__select!(@arms chosen idx $(($r, $p, $b))*),
        }
    }};
    (@arms $c:ident $i:ident) => { ::core::unreachable!("select arm") };
    (@arms $c:ident $i:ident ($r:expr, $p:pat, $b:expr) $($rest:tt)*) => {
        if $c == $i { let $p = $crate::channel::take_ready(&$r); $b }
        else { $i += 1; $crate::__select!(@arms $c $i $($rest)*) }
    };
}
