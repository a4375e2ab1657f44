//! Writes one line per quantity type written and read back.
use spec::si;
use std::fmt::Write;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let scales: [si::Scale; 8] = [[0; 4], [3, 0, 3, 0], [-3, 0, -3, 0], [4, 2, 2, 0], [0, -2, 1, 0], [-2, -2, -1, 1], [-10, 7, 3, -2], [1, 0, 0, 0]];
    let mut dims: Vec<si::Dims> = si::DIMENSIONS.iter().map(|(_, d)| *d).collect();
    dims.push([1, -2, 3, -4, 5, -6, 7, -8]);
    dims.push([-1; 8]);
    dims.push([2; 8]);
    let mut o = String::new();
    let mut lines = vec![];
    let mut extreme = dims.clone();
    extreme.push([i16::MAX, i16::MIN, -1, 100, -100, 255, 256, -257]);
    for (i, d) in extreme.iter().enumerate() {
        let s = scales[i % scales.len()];
        lines.push((*d, s));
    }
    lines.push(([0, 1, 0, 0, 0, 0, 0, 0], [i16::MIN, i16::MAX, -1, 300]));
    let stub = "#[kani::solver(cvc5)]\n#[kani::stub(whippyunits::api::aggregate_scale_factor_float, crate::callee::contract_factor)]\n\
                #[kani::stub(whippyunits::serialization::to_ucum_unit, crate::callee::contract_unit)]";
    for t in ["f64", "f32", "i32", "u32", "i16", "u16", "i8", "u8"] {
        let n = 12;
        for (i, c) in lines.chunks(n).enumerate() {
            let _ = writeln!(o, "{stub}\nfn written_{t}_{i}(x: {t}, k: f64) {{ let mut all = true;");
            for (j, (d, s)) in c.iter().enumerate() {
                let b = if j % 2 == 0 { "()" } else { "Brand" };
                let _ = writeln!(o, "    written!(all, x, k, {d:?} {s:?} {t}, {b});");
            }
            let _ = writeln!(o, "    all_hold!(all);\n}}");
        }
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/writing.rs"), format!("spec::obligations! {{ {o} }}")).unwrap();

    let mut s = String::from("pub fn unit_texts(ctx: &mut spec::nd::Ctx) {\n");
    let mut r = spec::nd::Rng::new(17);
    for i in 0..400 {
        let m = [2, 3, 12, 300][i % 4] as i16;
        let some = r.next();
        let d: Vec<i16> = (0..8).map(|j| if some >> j & 1 == 1 { r.below(2 * m as u64 + 1) as i16 - m } else { 0 }).collect();
        let _ = writeln!(s, "    unit_text!(ctx, {d:?} {:?});", scales[i % 8]);
    }
    for d in extreme.iter().map(|d| d.map(|e| e.max(-i16::MAX))) { let _ = writeln!(s, "    unit_text!(ctx, {d:?} [0, 0, 0, 0]);"); }
    s.push_str("}\npub fn round_trips(ctx: &mut spec::nd::Ctx) {\n");
    for (i, d) in dims.iter().enumerate() {
        for (j, sc) in scales.iter().enumerate() {
            if i > 8 && (i + j) % 3 != 0 { continue }
            let _ = writeln!(s, "    round_trip!(ctx, {d:?} {sc:?} {:?}, {:e});", scales[(i + j + 1) % 8],
                spec::math::scale_f64(std::array::from_fn(|k| sc[k] - scales[(i + j + 1) % 8][k])));
        }
    }
    s.push_str("}\n");
    std::fs::write(format!("{out}/tables.rs"), s).unwrap();
}
