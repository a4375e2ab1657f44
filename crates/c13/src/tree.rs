//! Unit expressions of the specification: their meaning, and how they may be written.
use spec::nd::Rng;
use spec::si;

#[derive(Clone, Debug)]
pub enum Tree {
    Unit(String, i32),
    Ten(i32, i32),
    One,
    Mul(Box<Tree>, Box<Tree>),
    Div(Box<Tree>, Box<Tree>),
    Pow(Box<Tree>, i32),
}
use Tree::*;

/// Dimension, scale, storage units per unit, and whether every part is a storage unit.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Value {
    pub dims: [i32; 8],
    pub scale: [i32; 4],
    pub cf: f64,
    pub exact: bool,
}
impl Value {
    pub const ONE: Value = Value { dims: [0; 8], scale: [0; 4], cf: 1.0, exact: true };
    pub fn ten(k: i32) -> Value {
        Value { scale: [k, 0, k, 0], ..Self::ONE }
    }
    pub fn unit(s: &str) -> Option<Value> {
        let (d, s, u, _) = si::resolve(s)?;
        Some(Value { dims: d.map(|x| x as i32), scale: s.map(|x| x as i32), cf: u.cf(), exact: u.is_exact() })
    }
    pub fn mul(mut self, o: Value, sign: i32) -> Value {
        for i in 0..8 { self.dims[i] += sign * o.dims[i]; }
        for i in 0..4 { self.scale[i] += sign * o.scale[i]; }
        self.cf = if sign > 0 { self.cf * o.cf } else { self.cf / o.cf };
        self.exact &= o.exact;
        self
    }
    pub fn pow(mut self, e: i32) -> Value {
        self.dims = self.dims.map(|x| x * e);
        self.scale = self.scale.map(|x| x * e);
        self.cf = self.cf.powi(e);
        self
    }
    /// Every exponent fits the 16 bits of a type.
    pub fn fits(&self) -> bool {
        self.dims.iter().chain(&self.scale).all(|x| i16::try_from(*x).is_ok())
    }
}

impl Tree {
    pub fn value(&self) -> Value {
        match self {
            Unit(s, e) => Value::unit(s).unwrap().pow(*e),
            Ten(k, e) => Value::ten(k * e),
            One => Value::ONE,
            Mul(a, b) => a.value().mul(b.value(), 1),
            Div(a, b) => a.value().mul(b.value(), -1),
            Pow(a, e) => a.value().pow(*e),
        }
    }
    fn level(&self) -> u8 {
        match self {
            Div(..) => 0,
            Mul(..) => 1,
            Pow(..) => 2,
            _ => 3,
        }
    }
    /// One of the ways to write the tree down: `r` picks the operators' spelling and superfluous parentheses.
    pub fn text(&self, r: &mut Rng) -> String {
        let space = if r.below(2) == 0 { " " } else { "" };
        match self {
            Unit(s, 1) => s.clone(),
            Unit(s, e) if *e >= 0 && r.below(2) == 0 => format!("{s}{e}"),
            Unit(s, e) => format!("{s}{space}^{space}{e}"),
            Ten(k, 1) => 10i32.pow(*k as u32).to_string(),
            Ten(k, e) => format!("{}^{e}", 10i32.pow(*k as u32)),
            One => "1".into(),
            Mul(a, b) => {
                let (a, b) = (a.at(1, r), b.at(2, r));
                // 2.m would be a floating point literal
                let last = a.rsplit(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
                let space = if last.starts_with(|c: char| c.is_ascii_digit()) { " " } else { space };
                format!("{a}{space}{}{space}{b}", if r.below(2) == 0 { "*" } else { "." })
            }
            Div(a, b) => format!("{}{space}/{space}{}", a.at(0, r), b.at(1, r)),
            Pow(a, e) => format!("{}^{e}", a.at(4, r)),
        }
    }
    fn at(&self, level: u8, r: &mut Rng) -> String {
        let t = self.text(r);
        if self.level() < level || r.below(8) == 0 { format!("({t})") } else { t }
    }
    pub fn random(r: &mut Rng, depth: u32, leaves: &[&str]) -> Tree {
        let sub = |r: &mut Rng| Box::new(Self::random(r, depth - 1, leaves));
        match if depth == 0 { 0 } else { r.below(8) } {
            2 | 3 => Mul(sub(r), sub(r)),
            4 | 5 => Div(sub(r), sub(r)),
            6 => Pow(sub(r), r.below(7) as i32 - 3),
            _ => match r.below(12) {
                0 => One,
                1 => Ten(r.below(4) as i32 + 1, r.below(5) as i32 - 2),
                _ => Unit(r.pick(leaves).to_string(), *r.pick(&[1, 1, 1, 2, 2, 3, -1, -2, 0])),
            },
        }
    }
}
/// Leaves of compound expressions: base and derived, prefixed, customary, with factors of 3 and pi.
pub const LEAVES: &[&str] = &["m", "kg", "s", "A", "K", "mol", "cd", "rad", "mm", "g", "N", "kJ", "min", "h", "deg", "Hz", "V", "km", "L", "kilometer", "newton"];
pub const CUSTOMARY: &[&str] = &["ft", "lb", "mi", "gal", "hp", "psi", "eV", "inch", "ly"];
