//! Writes one generic dimension per expression of the specification, with quantities that must satisfy it and
//! quantities that must not.
use spec::{nd::Rng, si};
use std::fmt::Write;

#[derive(Clone, Debug)]
enum Tree {
    Dim(String, si::Dims, i16),
    One,
    Mul(Box<Tree>, Box<Tree>),
    Div(Box<Tree>, Box<Tree>),
    Pow(Box<Tree>, i16),
}
use Tree::*;
impl Tree {
    fn value(&self) -> [i32; 8] {
        let zip = |a: [i32; 8], b: [i32; 8], s: i32| std::array::from_fn(|i| a[i] + s * b[i]);
        match self {
            Dim(_, d, e) => d.map(|x| x as i32 * *e as i32),
            One => [0; 8],
            Mul(a, b) => zip(a.value(), b.value(), 1),
            Div(a, b) => zip(a.value(), b.value(), -1),
            Pow(a, e) => a.value().map(|x| x * *e as i32),
        }
    }
    fn level(&self) -> u8 {
        match self { Div(..) => 0, Mul(..) => 1, Pow(..) => 2, _ => 3 }
    }
    fn text(&self, r: &mut Rng) -> String {
        let sp = if r.below(2) == 0 { " " } else { "" };
        match self {
            Dim(s, _, 1) => s.clone(),
            Dim(s, _, e) if r.below(2) == 0 => format!("{s}{e}"),
            Dim(s, _, e) => format!("{s}{sp}^{sp}{e}"),
            One => "1".into(),
            Mul(a, b) => {
                let (a, b) = (a.at(1, r), b.at(2, r));
                // 2.L would be a floating point literal
                let last = a.rsplit(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
                let sp = if last.starts_with(|c: char| c.is_ascii_digit()) { " " } else { sp };
                format!("{a}{sp}{}{sp}{b}", if r.below(2) == 0 { "*" } else { "." })
            }
            Div(a, b) => format!("{}{sp}/{sp}{}", a.at(0, r), b.at(1, r)),
            Pow(a, e) => format!("{}^{e}", a.at(4, r)),
        }
    }
    fn at(&self, level: u8, r: &mut Rng) -> String {
        let t = self.text(r);
        if self.level() < level || r.below(8) == 0 { format!("({t})") } else { t }
    }
    fn random(r: &mut Rng, depth: u32, leaves: &[(String, si::Dims)]) -> Tree {
        let sub = |r: &mut Rng| Box::new(Self::random(r, depth - 1, leaves));
        match if depth == 0 { 0 } else { r.below(8) } {
            2 | 3 => Mul(sub(r), sub(r)),
            4 | 5 => Div(sub(r), sub(r)),
            6 => Pow(sub(r), r.below(4) as i16),
            _ => match r.below(12) {
                0 => One,
                _ => { let (s, d) = r.pick(leaves).clone(); Dim(s, d, *r.pick(&[1, 1, 1, 2, 2, 3, 0])) }
            },
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    const SYMBOLS: [(&str, si::Dims); 8] = [("M", si::M), ("L", si::L), ("T", si::T), ("I", si::I), ("θ", si::TH), ("N", si::N), ("Cd", si::J), ("A", si::A)];
    let leaves: Vec<(String, si::Dims)> = si::DIMENSIONS.iter().filter(|(n, _)| !n.contains(' ') && *n != "dimensionless").map(|(n, d)| (n.to_string(), *d))
        .chain(SYMBOLS.map(|(n, d)| (n.to_string(), d))).collect();
    let mut r = Rng::new(9);
    let mut traits: Vec<(String, Vec<[i32; 8]>)> = vec![];
    // every dimension by itself, every axis in every place
    for (n, d) in &leaves { traits.push((n.clone(), vec![d.map(|x| x as i32)])); }
    for (n, d) in &leaves {
        traits.push((format!("1 / {n}"), vec![d.map(|x| -x as i32)]));
        traits.push((format!("{n}2"), vec![d.map(|x| 2 * x as i32)]));
        traits.push((format!("{n} * Mass ^ 2 / Time3"), vec![std::array::from_fn(|i| d[i] as i32 + 2 * si::M[i] as i32 - 3 * si::T[i] as i32)]));
    }
    while traits.len() < 260 {
        let mut alts: Vec<(String, [i32; 8])> = vec![];
        for _ in 0..=r.below(3) {
            let t = Tree::random(&mut r, 3, &leaves);
            let v = t.value();
            if v.iter().all(|x| x.abs() < 150) && alts.iter().all(|a| a.1 != v) { alts.push((t.text(&mut r), v)); }
        }
        if alts.is_empty() { continue }
        traits.push((alts.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(", "), alts.iter().map(|a| a.1).collect()));
    }
    let mut s = String::new();
    let mut rows = String::new();
    let mut probes = |s: &mut String, tr: &str, alts: &[[i32; 8]]| {
        for (k, a) in alts.iter().enumerate() {
            for (sc, t) in [("[0,0,0,0]", "f64"), ("[3,-1,2,1]", "i32"), ("[-6,0,-6,0]", "f32"), ("[0,2,0,-1]", "u128")] {
                let _ = write!(s, "satisfies!({tr}, {a:?} {sc} {t}, true),");
            }
            // neighbours on every axis, the dimensionless and the inverse
            let mut other: Vec<[i32; 8]> = vec![[0; 8], a.map(|x| -x)];
            for i in 0..8 { for d in [-1, 1] { let mut b = *a; b[i] += d; other.push(b); } }
            for b in other {
                if alts.contains(&b) || (k > 0 && b == [0; 8]) { continue }
                let _ = write!(s, "satisfies!({tr}, {b:?} [0,0,0,0] f64, false),");
            }
            let _ = write!(s, "satisfies!({tr}, {:?} [3,0,3,0] i16, false),", { let mut b = a.map(|x| x * 2); b[0] += 40; b });
        }
    };
    for (i, (x, alts)) in traits.iter().enumerate() {
        let _ = write!(s, "mod t{i} {{ use super::*; whippyunits::dimension_traits::define_generic_dimension!(D, {x}); probe!(D); pub const ROW: bool = all(&[");
        probes(&mut s, "P", alts);
        s.push_str("]); }\n");
        let _ = writeln!(rows, "({x:?}, t{i}::ROW),");
    }
    for (n, d) in &si::DIMENSIONS[..8] {
        let _ = write!(s, "mod atomic_{n} {{ use super::*; use whippyunits::dimension_traits::{n} as D; probe!(D); pub const ROW: bool = all(&[");
        probes(&mut s, "P", &[d.map(|x| x as i32)]);
        s.push_str("]); }\n");
        let _ = writeln!(rows, "(\"the predefined {n}\", atomic_{n}::ROW),");
    }
    let n = traits.len() + 8;
    std::fs::write(format!("{}/traits.rs", std::env::var("OUT_DIR").unwrap()), format!("{s}\npub const ROWS: [(&str, bool); {n}] = [\n{rows}];\n")).unwrap();
}
