//! Specification library shared by the contract crates.
//!
//! Everything here is written from the definitions (SI brochure, NIST SP 811, the mathematics of
//! prime exponent vectors), never from the code under verification.
pub mod nd;
pub mod si;
pub mod math;
#[cfg(not(kani))]
pub mod reject;

/// Precondition of a contract: the verifier assumes it, the native replayer discards inputs that
/// violate it.
#[macro_export]
macro_rules! requires {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::assume($c);
        #[cfg(not(kani))]
        $crate::nd::assume($c);
    }};
}

/// Postcondition of a contract.
#[macro_export]
macro_rules! ensures {
    ($c:expr, $($msg:tt)+) => { assert!($c, $($msg)+) };
    ($c:expr) => { assert!($c) };
}

/// A group of contract obligations.  Under the verifier each one is a proof harness over fully
/// symbolic arguments, followed by a reachability cover (an obligation whose precondition excludes
/// everything is reported as vacuous).  Natively each one is a plain function fed by `nd`, used to
/// replay the verifier's counterexamples and to search for a failing input when the verifier gives
/// none.
#[macro_export]
macro_rules! obligations {
    ($(
        $(#[$m:meta])*
        fn $name:ident ( $($a:ident : $t:ty),* $(,)? ) $body:block
    )*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            $(#[$m])*
            fn $name() {
                $(let $a: $t = kani::any();)*
                $body;
                kani::cover!(true, "reach");
            }
            #[cfg(not(kani))]
            #[allow(unused_variables)]
            pub fn $name() {
                $(let $a: $t = $crate::nd::nd::<$t>();)*
                $body
            }
        )*
        #[cfg(not(kani))]
        pub const REGISTRY: &[(&str, fn())] = &[
            $((concat!(module_path!(), "::", stringify!($name)), $name as fn()),)*
        ];
    };
}

/// Obligations over a finite domain, discharged by complete native evaluation of the real code
/// (string-keyed tables and the like, which the verifier's back ends cannot digest), or - when the
/// name starts with `bounded_` - bounded stand-ins.
#[macro_export]
macro_rules! evaluated {
    ($( fn $name:ident ($ctx:ident) $body:block )*) => {
        $(
            #[cfg(not(kani))]
            pub fn $name($ctx: &mut $crate::nd::Ctx) $body
        )*
        #[cfg(not(kani))]
        pub const EVALUATED: &[(&str, fn(&mut $crate::nd::Ctx))] = &[
            $((concat!(module_path!(), "::", stringify!($name)), $name as fn(&mut $crate::nd::Ctx)),)*
        ];
    };
}
