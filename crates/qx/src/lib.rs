//! Reads the exponents, storage type and raw value off any quantity type, so that a wrong type is a
//! failing obligation (with the exponents in its message) rather than a failing build.
use whippyunits::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Quantity, Scale};

pub trait Qx {
    const D: [i16; 8];
    const S: [i16; 4];
    type T;
    type Brand: 'static;
    fn raw(self) -> Self::T;
    fn make(v: Self::T) -> Self;
}

impl<const M: i16, const L: i16, const T: i16, const I: i16, const H: i16, const N: i16, const J: i16,
     const A: i16, const P2: i16, const P3: i16, const P5: i16, const PI: i16, V, B: 'static> Qx
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>,
                 Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, V, B>
{
    const D: [i16; 8] = [M, L, T, I, H, N, J, A];
    const S: [i16; 4] = [P2, P3, P5, PI];
    type T = V;
    type Brand = B;
    fn raw(self) -> V {
        self.unsafe_value
    }
    fn make(v: V) -> Self {
        Self::new(v)
    }
}

/// `Quantity` with literal exponents.
#[macro_export]
macro_rules! q {
    ([$m:expr,$l:expr,$t:expr,$i:expr,$h:expr,$n:expr,$j:expr,$a:expr] [$p2:expr,$p3:expr,$p5:expr,$pi:expr] $T:ty, $B:ty) => {
        whippyunits::quantity::Quantity<
            whippyunits::quantity::Scale<whippyunits::quantity::_2<{$p2}>, whippyunits::quantity::_3<{$p3}>, whippyunits::quantity::_5<{$p5}>, whippyunits::quantity::_Pi<{$pi}>>,
            whippyunits::quantity::Dimension<whippyunits::quantity::_M<{$m}>, whippyunits::quantity::_L<{$l}>, whippyunits::quantity::_T<{$t}>, whippyunits::quantity::_I<{$i}>, whippyunits::quantity::_Θ<{$h}>, whippyunits::quantity::_N<{$n}>, whippyunits::quantity::_J<{$j}>, whippyunits::quantity::_A<{$a}>>,
            $T, $B>
    };
    ([$($d:tt)*] [$($s:tt)*] $T:ty) => { $crate::q!([$($d)*] [$($s)*] $T, ()) };
}

pub fn dims_of<Q: Qx>(_: &Q) -> [i16; 8] {
    Q::D
}
pub fn scale_of<Q: Qx>(_: &Q) -> [i16; 4] {
    Q::S
}

/// Same 8 exponents (array equality without `memcmp`, which the verifier's SMT back ends unroll badly).
pub const fn eq8(a: [i16; 8], b: [i16; 8]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
        && a[4] == b[4] && a[5] == b[5] && a[6] == b[6] && a[7] == b[7]
}
pub const fn eq4(a: [i16; 4], b: [i16; 4]) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
}

/// `implements!(Type: Trait<..>)` as a constant bool, for contracts that say an operation must be
/// rejected by the type system.
#[macro_export]
macro_rules! implements {
    ($ty:ty : $($tr:tt)+) => {{
        #[allow(dead_code)]
        struct Probe<T: ?Sized>(core::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait Fallback { const OK: bool = false; }
        impl<T: ?Sized> Fallback for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)+> Probe<T> { const OK: bool = true; }
        <Probe<$ty>>::OK
    }};
}
