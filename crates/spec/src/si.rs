//! Units as the standards define them (SI brochure 9th ed., NIST SP 811 / Handbook 44, IAU, UK
//! Weights and Measures): written from those definitions, not from the code.
//!
//! Dimension order: mass, length, time, current, temperature, amount, luminosity, angle.
//! Scale order: powers of 2, 3, 5, pi, relative to the coherent SI unit (kilogram for mass).

pub type Dims = [i16; 8];
pub type Scale = [i16; 4];

#[derive(Clone, Copy, Debug)]
pub struct Si {
    pub name: &'static str,
    pub symbols: &'static [&'static str],
    pub dims: Dims,
    /// `Exact(s)`: the unit is exactly 2^a 3^b 5^c pi^d coherent SI units, and is stored as such.
    /// `Stored(f, s)`: the unit is `f` coherent SI units, stored in scale `s`.
    pub def: Def,
    /// Added to the number of units to reach the zero of the absolute scale.
    pub offset: f64,
    /// May carry SI prefixes (metric, and the leading unit of its dimension).
    pub prefixable: bool,
    /// Relative tolerance on the conversion factor (conventional units with a published rounding).
    pub tol: f64,
}

#[derive(Clone, Copy, Debug)]
pub enum Def {
    Exact(Scale),
    Stored(f64, Scale),
}

pub const fn ten(k: i16) -> Scale {
    [k, 0, k, 0]
}

pub const M: Dims = [1, 0, 0, 0, 0, 0, 0, 0];
pub const L: Dims = [0, 1, 0, 0, 0, 0, 0, 0];
pub const T: Dims = [0, 0, 1, 0, 0, 0, 0, 0];
pub const I: Dims = [0, 0, 0, 1, 0, 0, 0, 0];
pub const TH: Dims = [0, 0, 0, 0, 1, 0, 0, 0];
pub const N: Dims = [0, 0, 0, 0, 0, 1, 0, 0];
pub const J: Dims = [0, 0, 0, 0, 0, 0, 1, 0];
pub const A: Dims = [0, 0, 0, 0, 0, 0, 0, 1];
pub const AREA: Dims = [0, 2, 0, 0, 0, 0, 0, 0];
pub const VOL: Dims = [0, 3, 0, 0, 0, 0, 0, 0];
pub const FREQ: Dims = [0, 0, -1, 0, 0, 0, 0, 0];
pub const FORCE: Dims = [1, 1, -2, 0, 0, 0, 0, 0];
pub const ENERGY: Dims = [1, 2, -2, 0, 0, 0, 0, 0];
pub const POWER: Dims = [1, 2, -3, 0, 0, 0, 0, 0];
pub const PRESSURE: Dims = [1, -1, -2, 0, 0, 0, 0, 0];
pub const CHARGE: Dims = [0, 0, 1, 1, 0, 0, 0, 0];
pub const VOLT: Dims = [1, 2, -3, -1, 0, 0, 0, 0];
pub const FARAD: Dims = [-1, -2, 4, 2, 0, 0, 0, 0];
pub const OHM: Dims = [1, 2, -3, -2, 0, 0, 0, 0];
pub const SIEMENS: Dims = [-1, -2, 3, 2, 0, 0, 0, 0];
pub const HENRY: Dims = [1, 2, -2, -2, 0, 0, 0, 0];
pub const TESLA: Dims = [1, 0, -2, -1, 0, 0, 0, 0];
pub const WEBER: Dims = [1, 2, -2, -1, 0, 0, 0, 0];
pub const LUX: Dims = [0, -2, 0, 0, 0, 0, 1, 0];
/// Luminous flux, with the steradian taken as dimensionless.
pub const LUMEN: Dims = [0, 0, 0, 0, 0, 0, 1, 0];
pub const KIN_VISC: Dims = [0, 2, -1, 0, 0, 0, 0, 0];

const fn x(name: &'static str, symbols: &'static [&'static str], dims: Dims, s: Scale) -> Si {
    Si { name, symbols, dims, def: Def::Exact(s), offset: 0.0, prefixable: false, tol: 0.0 }
}
/// Leading metric unit of its dimension.
const fn p(name: &'static str, symbols: &'static [&'static str], dims: Dims, s: Scale) -> Si {
    Si { name, symbols, dims, def: Def::Exact(s), offset: 0.0, prefixable: true, tol: 0.0 }
}
const fn c(name: &'static str, symbols: &'static [&'static str], dims: Dims, f: f64, k: i16) -> Si {
    Si { name, symbols, dims, def: Def::Stored(f, ten(k)), offset: 0.0, prefixable: false, tol: 2e-15 }
}
const fn tol(mut s: Si, t: f64) -> Si {
    s.tol = t;
    s
}
const fn off(mut s: Si, o: f64) -> Si {
    s.offset = o;
    s
}

const LB: f64 = 0.45359237; // exact
const IN3: f64 = 0.0254 * 0.0254 * 0.0254;
const US_GAL: f64 = 231.0 * IN3; // 231 cubic inches
const UK_GAL: f64 = 4.54609e-3; // exact
const G0: f64 = 9.80665; // exact

pub const UNITS: &[Si] = &[
    // mass
    p("gram", &["g"], M, ten(-3)),
    c("grain", &["gr"], M, LB / 7000.0, -4),
    x("carat", &["ct"], M, [-3, 0, -4, 0]), // 0.2 g = 2e-4 kg
    c("ounce", &["oz"], M, LB / 16.0, -2),
    c("troy_ounce", &["ozt"], M, LB / 7000.0 * 480.0, -2),
    c("troy_pound", &["lbt"], M, LB / 7000.0 * 5760.0, 0),
    c("pound", &["lb"], M, LB, 0),
    c("stone", &["st"], M, LB * 14.0, 1),
    tol(c("slug", &["slg"], M, LB * G0 / 0.3048, 1), 1e-14),
    c("ton", &["t"], M, LB * 2240.0, 3), // imperial (long) ton
    // length
    p("meter", &["m"], L, ten(0)),
    c("inch", &["in"], L, 0.0254, -2),
    c("foot", &["ft"], L, 0.3048, -1),
    c("yard", &["yd"], L, 0.9144, 0),
    c("fathom", &["ftm"], L, 1.8288, 0),
    c("furlong", &["fur"], L, 201.168, 2),
    c("mile", &["mi"], L, 1609.344, 3),
    c("nautical_mile", &["nmi"], L, 1852.0, 3),
    c("astronomical_unit", &["AU"], L, 149597870700.0, 11),
    c("light_year", &["ly"], L, 9460730472580800.0, 16),
    tol(c("parsec", &["pc"], L, 3.0856775814913673e16, 16), 1e-9),
    // time
    p("second", &["s"], T, ten(0)),
    x("minute", &["min"], T, [2, 1, 1, 0]),
    x("hour", &["h", "hr"], T, [4, 2, 2, 0]),
    x("day", &["d"], T, [7, 3, 2, 0]), // 86400
    Si { name: "week", symbols: &["wk"], dims: T, def: Def::Stored(604800.0, [8, 3, 3, 0]), offset: 0.0, prefixable: false, tol: 2e-15 },
    x("month", &["mo"], T, [8, 4, 3, 0]), // 30 days = 2592000 s
    tol(c("year", &["yr"], T, 365.242190 * 86400.0, 7), 1e-7), // tropical year
    // current, temperature, amount, luminosity
    p("ampere", &["A"], I, ten(0)),
    p("kelvin", &["K"], TH, ten(0)),
    off(x("celsius", &["degC"], TH, ten(0)), 273.15),
    x("rankine", &["degR"], TH, [0, -2, 1, 0]), // 5/9 K
    off(x("fahrenheit", &["degF"], TH, [0, -2, 1, 0]), 459.67),
    p("mole", &["mol"], N, ten(0)),
    p("candela", &["cd"], J, ten(0)),
    // angle
    p("radian", &["rad"], A, ten(0)),
    x("degree", &["deg"], A, [-2, -2, -1, 1]),
    x("gradian", &["grad"], A, [-3, 0, -2, 1]), // pi/200
    x("turn", &["rot", "turn"], A, [1, 0, 0, 1]),
    x("arcminute", &["arcmin"], A, [-4, -3, -2, 1]), // pi/10800
    x("arcsecond", &["arcsec"], A, [-6, -4, -3, 1]), // pi/648000
    // area, volume
    p("hectare", &["hect"], AREA, ten(4)),
    c("acre", &["acre"], AREA, 4046.8564224, 4),
    p("liter", &["L", "l"], VOL, ten(-3)),
    c("gallon", &["gal", "gallon"], VOL, US_GAL, -2),
    c("quart", &["qrt"], VOL, US_GAL / 4.0, -3),
    c("pint", &["pnt"], VOL, US_GAL / 8.0, -3),
    c("cup", &["cup"], VOL, US_GAL / 16.0, -4),
    c("fluid_ounce", &["fl_oz"], VOL, US_GAL / 128.0, -5),
    c("tablespoon", &["tbsp"], VOL, US_GAL / 256.0, -5),
    c("teaspoon", &["tsp"], VOL, US_GAL / 768.0, -5),
    c("uk_gallon", &["uk_gal"], VOL, UK_GAL, -2),
    c("uk_quart", &["uk_qrt"], VOL, UK_GAL / 4.0, -3),
    c("uk_pint", &["uk_pnt"], VOL, UK_GAL / 8.0, -3),
    c("uk_cup", &["uk_cup"], VOL, UK_GAL / 16.0, -4),
    c("uk_fluid_ounce", &["uk_fl_oz"], VOL, UK_GAL / 160.0, -5),
    c("uk_tablespoon", &["uk_tbsp"], VOL, UK_GAL / 256.0, -5),
    tol(c("uk_teaspoon", &["uk_tsp"], VOL, UK_GAL / 768.0, -5), 1e-13),
    x("metric_fluid_ounce", &["metric_fl_oz"], VOL, [-5, 1, -5, 0]), // 30 mL
    tol(c("bushel", &["bu"], VOL, 2150.42 * IN3, -1), 1e-14), // US bushel
    // derived
    p("hertz", &["Hz"], FREQ, ten(0)),
    p("newton", &["N"], FORCE, ten(0)),
    p("joule", &["J"], ENERGY, ten(0)),
    x("newton_meter", &["Nm"], ENERGY, ten(0)),
    c("electron_volt", &["eV"], ENERGY, 1.602176634e-19, -19),
    x("erg", &["erg"], ENERGY, ten(-7)),
    c("calorie", &["cal"], ENERGY, 4.184, 1),
    tol(c("foot_pound", &["ft_lb"], ENERGY, 0.3048 * LB * G0, 0), 1e-14),
    x("kilowatt_hour", &["kWh"], ENERGY, [7, 2, 5, 0]), // 3.6e6
    tol(c("therm", &["thm"], ENERGY, 1.05505585262e8, 8), 1e-11),
    p("watt", &["W"], POWER, ten(0)),
    tol(c("horsepower", &["hp"], POWER, 550.0 * 0.3048 * LB * G0, 3), 1e-14),
    p("pascal", &["Pa"], PRESSURE, ten(0)),
    tol(c("torr", &["Torr"], PRESSURE, 101325.0 / 760.0, 2), 1e-14),
    tol(c("psi", &["psi"], PRESSURE, LB * G0 / (0.0254 * 0.0254), 4), 1e-14),
    x("bar", &["bar"], PRESSURE, ten(5)),
    c("atmosphere", &["atm"], PRESSURE, 101325.0, 5),
    p("coulomb", &["C"], CHARGE, ten(0)),
    p("volt", &["V"], VOLT, ten(0)),
    p("farad", &["F"], FARAD, ten(0)),
    p("ohm", &["Ω"], OHM, ten(0)),
    p("siemens", &["S"], SIEMENS, ten(0)),
    p("henry", &["H"], HENRY, ten(0)),
    p("tesla", &["T"], TESLA, ten(0)),
    x("gauss", &["G"], TESLA, ten(-4)),
    p("weber", &["Wb"], WEBER, ten(0)),
    p("lux", &["lx"], LUX, ten(0)),
    x("lumen", &["lm"], LUMEN, ten(0)),
    p("stokes", &["St"], KIN_VISC, ten(-4)),
];

pub const PREFIXES: &[(&str, &str, i16)] = &[
    ("q", "quecto", -30), ("r", "ronto", -27), ("y", "yocto", -24), ("z", "zepto", -21),
    ("a", "atto", -18), ("f", "femto", -15), ("p", "pico", -12), ("n", "nano", -9),
    ("u", "micro", -6), ("µ", "micro", -6), ("m", "milli", -3), ("c", "centi", -2),
    ("d", "deci", -1), ("da", "deca", 1), ("h", "hecto", 2), ("k", "kilo", 3),
    ("M", "mega", 6), ("G", "giga", 9), ("T", "tera", 12), ("P", "peta", 15),
    ("E", "exa", 18), ("Z", "zetta", 21), ("Y", "yotta", 24), ("R", "ronna", 27),
    ("Q", "quetta", 30),
];

/// SI dimension names with their exponents.
pub const DIMENSIONS: &[(&str, Dims)] = &[
    ("Mass", M), ("Length", L), ("Time", T), ("Current", I), ("Temperature", TH), ("Amount", N),
    ("Luminosity", J), ("Angle", A), ("Area", AREA), ("Volume", VOL), ("Frequency", FREQ),
    ("Force", FORCE), ("Energy", ENERGY), ("Power", POWER), ("Pressure", PRESSURE),
    ("Electric Charge", CHARGE), ("Electric Potential", VOLT), ("Capacitance", FARAD),
    ("Electric Resistance", OHM), ("Electric Conductance", SIEMENS), ("Inductance", HENRY),
    ("Magnetic Field", TESLA), ("Magnetic Flux", WEBER), ("Illuminance", LUX),
    ("Volume Mass Density", [1, -3, 0, 0, 0, 0, 0, 0]),
    ("Linear Mass Density", [1, -1, 0, 0, 0, 0, 0, 0]),
    ("Dynamic Viscosity", [1, -1, -1, 0, 0, 0, 0, 0]),
    ("Kinematic Viscosity", KIN_VISC),
    ("dimensionless", [0; 8]),
];

impl Si {
    pub fn scale(&self) -> Scale {
        match self.def {
            Def::Exact(s) | Def::Stored(_, s) => s,
        }
    }
    /// Number of storage units per unit.
    pub fn cf(&self) -> f64 {
        match self.def {
            Def::Exact(_) => 1.0,
            Def::Stored(f, s) => crate::math::Dd::from(f).div(crate::math::scale_dd(s.map(|e| e as i32))).f(),
        }
    }
    pub fn is_exact(&self) -> bool {
        matches!(self.def, Def::Exact(_))
    }
    /// The unit's size in coherent SI units.
    pub fn si(&self) -> f64 {
        match self.def {
            Def::Exact(s) => crate::math::scale_f64(s),
            Def::Stored(f, _) => f,
        }
    }
}

pub fn by_symbol(s: &str) -> Option<&'static Si> {
    UNITS.iter().find(|u| u.symbols.contains(&s))
}
pub fn by_name(s: &str) -> Option<&'static Si> {
    UNITS.iter().find(|u| u.name == s)
}

/// Reference meaning of a single unit name, as documented: a unit's own symbol first, then its name,
/// then an SI prefix on the leading metric unit of a dimension.  Returns dimension, storage scale,
/// storage units per unit, offset.
pub fn resolve(s: &str) -> Option<(Dims, Scale, &'static Si, i16)> {
    if let Some(u) = by_symbol(s).or_else(|| by_name(s)) {
        return Some((u.dims, u.scale(), u, 0));
    }
    for (sym, name, k) in PREFIXES {
        if let Some(u) = s.strip_prefix(sym).and_then(by_symbol)
            && u.prefixable
        {
            return Some((u.dims, add(u.scale(), ten(*k)), u, *k));
        }
        let low = lower_first(s);
        if let Some(u) = low.strip_prefix(name).and_then(by_name)
            && u.prefixable
        {
            return Some((u.dims, add(u.scale(), ten(*k)), u, *k));
        }
    }
    None
}
fn lower_first(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_ascii_lowercase().to_string() + c.as_str(),
        None => String::new(),
    }
}
pub fn add(a: Scale, b: Scale) -> Scale {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
