//! C17: a quantity is written as its value in the coherent SI unit, with that unit, and reads back as itself.
#![recursion_limit = "1024"]
use qx::{Qx, q};
use serde::ser::{Impossible, Serialize, SerializeMap, Serializer};
use whippyunits::serialization::*;

pub struct Brand;

// The factor between two scales, as its contract (property C04) leaves it, and the unit's text: arbitrary under
// the verifier, where stand-ins check what they are asked for; natively the real ones.
#[cfg(kani)]
pub mod callee {
    use whippyunits::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Quantity, Scale};
    pub static mut FACTOR: f64 = 0.0;
    pub static mut SCALES: [i16; 8] = [0; 8];
    pub static mut DIMS: [i16; 8] = [0; 8];
    #[allow(clippy::too_many_arguments)]
    pub fn contract_factor(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, g: i16, h: i16) -> f64 {
        unsafe {
            assert!(qx::eq8([a, b, c, d, e, f, g, h], SCALES), "scales passed to the factor computation");
            FACTOR
        }
    }
    pub fn contract_unit<const M: i16, const L: i16, const T: i16, const I: i16, const H: i16, const N: i16, const J: i16, const A: i16,
        const P2: i16, const P3: i16, const P5: i16, const PI: i16, V>(
        _q: &Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, V>,
    ) -> String where V: Into<f64> + Copy {
        unsafe {
            assert!(qx::eq8([M, L, T, I, H, N, J, A], DIMS), "the unit written is of the quantity's dimension");
        }
        String::from("U")
    }
    pub fn factor(d: [i16; 8], s: [i16; 4], k: f64) -> f64 {
        unsafe {
            DIMS = d;
            SCALES = [s[0], s[1], s[2], s[3], 0, 0, 0, 0];
            FACTOR = k;
        }
        k
    }
}
#[cfg(not(kani))]
pub mod callee {
    pub fn factor(_: [i16; 8], s: [i16; 4], _k: f64) -> f64 {
        whippyunits::api::aggregate_scale_factor_float(s[0], s[1], s[2], s[3], 0, 0, 0, 0)
    }
}

// A serializer that takes down what it is given.
#[derive(Debug)]
pub struct Nope;
impl std::fmt::Display for Nope {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for Nope {}
impl serde::ser::Error for Nope {
    fn custom<T: std::fmt::Display>(_: T) -> Self { Nope }
}
/// The number last taken down.
pub static mut NUMBER: f64 = 0.0;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Item {
    Number,
    Value,
    Unit,
    Text,
}
pub struct Leaf;
macro_rules! nopes {
    ($($f:ident $t:ty,)*) => { $( fn $f(self, _: $t) -> Result<Item, Nope> { Err(Nope) } )* };
}
macro_rules! leaf_rest {
    ($ok:ty) => {
        fn serialize_none(self) -> Result<$ok, Nope> { Err(Nope) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<$ok, Nope> { Err(Nope) }
        fn serialize_unit(self) -> Result<$ok, Nope> { Err(Nope) }
        fn serialize_unit_struct(self, _: &'static str) -> Result<$ok, Nope> { Err(Nope) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<$ok, Nope> { Err(Nope) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<$ok, Nope> { Err(Nope) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<$ok, Nope> { Err(Nope) }
        type SerializeSeq = Impossible<$ok, Nope>;
        type SerializeTuple = Impossible<$ok, Nope>;
        type SerializeTupleStruct = Impossible<$ok, Nope>;
        type SerializeTupleVariant = Impossible<$ok, Nope>;
        type SerializeStructVariant = Impossible<$ok, Nope>;
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Nope> { Err(Nope) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Nope> { Err(Nope) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Nope> { Err(Nope) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Nope> { Err(Nope) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Nope> { Err(Nope) }
    };
}
impl Serializer for Leaf {
    type Ok = Item;
    type Error = Nope;
    nopes! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
             serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_char char, serialize_bytes &[u8], }
    fn serialize_f64(self, x: f64) -> Result<Item, Nope> {
        unsafe { NUMBER = x }
        Ok(Item::Number)
    }
    fn serialize_str(self, s: &str) -> Result<Item, Nope> {
        let b = s.as_bytes();
        Ok(match b.len() {
            5 if b[0] == b'v' && b[1] == b'a' && b[2] == b'l' && b[3] == b'u' && b[4] == b'e' => Item::Value,
            4 if b[0] == b'u' && b[1] == b'n' && b[2] == b'i' && b[3] == b't' => Item::Unit,
            #[cfg(kani)]
            n => { if n == 1 && b[0] == b'U' { Item::Text } else { return Err(Nope) } }
            #[cfg(not(kani))]
            _ => Item::Text,
        })
    }
    leaf_rest! { Item }
    type SerializeMap = Impossible<Item, Nope>;
    type SerializeStruct = Impossible<Item, Nope>;
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Nope> { Err(Nope) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Nope> { Err(Nope) }
}
macro_rules! nopes_fields {
    ($($f:ident $t:ty,)*) => { $( fn $f(self, _: $t) -> Result<Fields, Nope> { Err(Nope) } )* };
}
/// The number written as the value, how often values and texts of units were written, and whether nothing else was.
#[derive(Default)]
pub struct Fields {
    values: u32,
    units: u32,
    key: Option<Item>,
}
impl SerializeMap for Fields {
    type Ok = Fields;
    type Error = Nope;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<(), Nope> {
        self.key = Some(key.serialize(Leaf)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Nope> {
        match (self.key.take(), value.serialize(Leaf)?) {
            (Some(Item::Value), Item::Number) => {
                self.values += 1;
                Ok(())
            }
            (Some(Item::Unit), Item::Text) => {
                self.units += 1;
                Ok(())
            }
            _ => Err(Nope),
        }
    }
    fn end(self) -> Result<Fields, Nope> { Ok(self) }
}
impl serde::ser::SerializeStruct for Fields {
    type Ok = Fields;
    type Error = Nope;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<(), Nope> {
        SerializeMap::serialize_key(self, key)?;
        SerializeMap::serialize_value(self, value)
    }
    fn end(self) -> Result<Fields, Nope> { Ok(self) }
}
pub struct Root;
impl Serializer for Root {
    type Ok = Fields;
    type Error = Nope;
    nopes_fields! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
             serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], }
    leaf_rest! { Fields }
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    fn serialize_map(self, _: Option<usize>) -> Result<Fields, Nope> { Ok(Fields::default()) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, Nope> { Ok(Fields::default()) }
}

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
macro_rules! written {
    ($all:ident, $x:ident, $k:ident, $d:tt $s:tt $t:ty, $b:ty) => {{
        let k = callee::factor($d, $s, $k);
        let want = ($x as f64) * k;
        let ok = match <q!($d $s $t, $b)>::make($x).serialize(Root) {
            Ok(f) => f.values == 1 && f.units == 1 && eq(unsafe { NUMBER }, want),
            Err(_) => false,
        };
        #[cfg(not(kani))]
        spec::ensures!(ok, "{} of dimension {:?} and scale {:?} is not written as {want:e}", $x, $d as [i16; 8], $s as [i16; 4]);
        $all &= ok;
    }};
}
macro_rules! all_hold {
    ($all:ident) => { spec::ensures!($all, "a quantity is written wrong") }
}
mod writing {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/writing.rs"));
}

#[cfg(not(kani))]
mod tables {
    use super::*;
    use spec::math::close;
    /// The UCUM reading of a coherent SI unit: terms multiplied by `.` and divided by `/`, left to right.
    fn ucum(text: &str) -> Option<[i32; 8]> {
        const SYMBOLS: [&str; 8] = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"];
        let mut d = [0i32; 8];
        let mut sign = 1;
        let mut rest = text;
        loop {
            let end = rest.find(['.', '/']).unwrap_or(rest.len());
            let term = &rest[..end];
            let letters = term.trim_end_matches(|c: char| c.is_ascii_digit() || c == '-');
            if letters.is_empty() {
                // the number one
                if term != "1" { return None }
            } else {
                let i = SYMBOLS.iter().position(|s| *s == letters)?;
                let e = &term[letters.len()..];
                d[i] += sign * if e.is_empty() { 1 } else { e.parse::<i32>().ok()? };
            }
            if end == rest.len() { return Some(d) }
            sign = if &rest[end..end + 1] == "/" { -1 } else { 1 };
            rest = &rest[end + 1..];
        }
    }
    macro_rules! unit_text {
        ($ctx:ident, $d:tt $s:tt) => {{
            let d: [i16; 8] = $d;
            let t = to_ucum_unit(&<q!($d $s f64)>::make(1.0));
            $ctx.case(|| format!("the coherent unit of {d:?} is written {t:?}"), ucum(&t) == Some(d.map(i32::from)));
            let p = parse_ucum_unit(&t);
            $ctx.case(|| format!("{t:?} parses as {p:?}"), matches!(p, Ok((p, s)) if p.0 == d && s.0 == [0; 4]));
        }};
    }
    macro_rules! round_trip {
        ($ctx:ident, $d:tt $s:tt $to:tt, $k:expr) => {{
            type Q = q!($d $s f64);
            type Branded = q!($d $s f64, Brand);
            type Other = q!($d $to f64);
            let k: f64 = $k;
            for x in [0.0, 1.0, -2.5, 0.1, 123456.789, 1e-30, 6.02e23, f64::MAX / 1e30, f64::MIN_POSITIVE * 1e30] {
                let a = serde_json::to_string(&Q::make(x)).unwrap();
                let b = serialize_to_json(&Q::make(x)).unwrap();
                let c = serde_json::to_string(&Branded::make(x)).unwrap();
                for j in [&a, &b, &c] {
                    let r = serde_json::from_str::<Q>(j).map(|q| q.raw());
                    $ctx.case(|| format!("{x:e} of {:?} {:?} is written {j} and reads back {r:?}", $d, $s), matches!(r, Ok(r) if close(r, x, 2e-15) || r == x));
                    let r = serde_json::from_str::<Branded>(j).map(|q| q.raw());
                    $ctx.case(|| format!("{x:e} of {:?} {:?} is written {j} and reads back {r:?}, branded", $d, $s), matches!(r, Ok(r) if close(r, x, 2e-15) || r == x));
                    let r = serde_json::from_str::<Other>(j).map(|q| q.raw());
                    $ctx.case(|| format!("{x:e} of {:?} {:?} is written {j} and reads {r:?} on scale {:?}", $d, $s, $to), matches!(r, Ok(r) if close(r, x * k, 3e-15) || r == x * k));
                }
            }
            for x in [i32::MIN, -1, 0, 7, i32::MAX] {
                let j = serde_json::to_string(&<q!($d $s i32)>::make(x)).unwrap();
                let r = serde_json::from_str::<Q>(&j).map(|q| q.raw());
                $ctx.case(|| format!("the integer {x} of {:?} {:?} is written {j} and reads back {r:?}", $d, $s), matches!(r, Ok(r) if close(r, x as f64, 2e-15) || r == x as f64));
            }
        }};
    }
    include!(concat!(env!("OUT_DIR"), "/tables.rs"));
    spec::evaluated! {
        fn bounded_unit_texts(ctx) { unit_texts(ctx) }
        fn bounded_round_trips(ctx) { round_trips(ctx) }
    }
}

#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    spec::nd::main_with(&[writing::REGISTRY], &[tables::EVALUATED])
}
