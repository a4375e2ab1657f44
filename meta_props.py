GEN = "the functions are generic over compile-time exponents: the verifier sees each at representative instances with pairwise distinct exponents (the code has no other access to them than the callee contracts check)"
OVF = "arithmetic is the machine's: no integer is treated as unbounded (overflow is part of the contract)"

prop("C01", "Dimension and scale exponents form an exact integer algebra",
     "Multiplying two dimensions adds their eight exponents axis by axis, inverting negates them and raising to a power multiplies them; the same holds for the four prime exponents of a scale. Two dimensions or scales are equal exactly when all exponents are, a dimension is dimensionless exactly when all are zero, and the constructors of scales (powers of 2, 3, 5, 6, 10 and pi) and of base dimensions denote what their name says.",
     ["inputs"], "every vector of eight 16-bit dimension exponents or four 16-bit scale exponents and every 16-bit power for which the result fits 16 bits",
     "The tests evaluate a handful of small exponents; a slip on one axis, one sign or one combination shows only for particular vectors.",
     ["whippyunits-core/src/dimension_exponents.rs", "whippyunits-core/src/scale_exponents.rs"],
     [("runtime dimension exponents: product, power, inverse, basis", "whippyunits-core/src/dimension_exponents.rs"), ("scale exponents: product, power, inverse, log10, constructors", "whippyunits-core/src/scale_exponents.rs")],
     "proof", "Every function is proved against its contract for all 16-bit inputs (no bound). Trusted: rustc, Kani, CBMC.",
     ["DynDimensionExponents::{add, mul, neg, is_zero, value, eq, as_basis}, DimensionBasis::exponents, base dimension constants", "ScaleExponents::{mul, scalar_exp, neg, log10, eq, _2, _3, _5, _6, _10, _Pi, IDENTITY}"],
     [OVF])

prop("C02", "Compile-time exponent arithmetic is integer arithmetic",
     "For all exponents from -200 to 200, the sum, difference and negation computed in the type system equal the integer sum, difference and negation, and dimensions multiply and divide axis by axis. Exponents outside the supported range are rejected by the compiler, never wrapped. With the `cge` feature the same holds for every 16-bit exponent.",
     ["programs"], "every type-level integer in -200..200 as an operand, every result in -400..400, each dimension axis",
     "Each exponent pair is its own trait resolution: tests instantiate a few, a wrong table row shows only in programs using that exponent.",
     ["whippyunits-core/src/num.rs", "whippyunits-core/src/dimension_exponents.rs"],
     [("type-level integer representation and its way back", "whippyunits-core/src/num.rs"), ("type-level dimension product and quotient", "whippyunits-core/src/dimension_exponents.rs")],
     "proof", "Tables covering every representation, every result and the edges of the range are computed by rustc's trait resolution from /repo and compared by the verifier; every table entry is exercised, not every pair of operands (sums of typenum integers are trusted). Built with and without the cge feature.",
     ["impl Add/Sub/Neg for N<A>, __AsTypenum, __IntoNum (every entry)", "impl Add/Sub for type-level dimension exponents"],
     ["the typenum crate's integer addition is assumed correct for operand pairs not in the tables"], ["typenum"])

prop("C03", "The exact ratio between two scales is right and in lowest terms",
     "The rational conversion factor between two scales is exactly the product of the prime powers by which they differ (with pi taken as 355/113), in lowest terms with a positive denominator, and depends on nothing but the difference of the exponents. A factor whose parts do not fit 128-bit integers is rejected, never wrapped or replaced by another value.",
     ["inputs"], "all pairs of 16-bit exponents per prime for the dependence on the difference; all powers in the tables; all combined ratios that fit 128 bits",
     "There are tens of millions of distinct ratios and 2^32 exponent pairs per prime; tests convert between a few dozen unit pairs.",
     ["src/scale_conversion.rs", "src/api.rs"],
     [("power tables of 2, 3, 5 and 355/113", "src/scale_conversion.rs"), ("aggregate ratio and its reduction", "src/api.rs")],
     "proof", "Power tables proved inductively for all exponents; per-prime dependence on the difference proved for all 16-bit pairs with the tables abstracted by contract; combined ratios and their reduction decided by complete evaluation of all 14 million representable vectors (back end: execution of the compiled code); reduction on arbitrary pairs is a bounded stand-in.",
     ["pow2, pow3, pow5, pow_pi (all i32 exponents)", "aggregate_scale_factor (per-axis contract over abstract tables; complete evaluation of combined vectors)", "reduce_rational (through the complete evaluation; bounded stand-in on arbitrary inputs)"],
     [OVF, "the per-axis contract plus the complete evaluation cover combined vectors; that the axes do not interact for other absolute exponents with the same difference is sampled (bounded_only_the_difference_matters)"],
     **STUB)

prop("C04", "The floating factor between two scales is accurate, and exact where it can be",
     "The floating point conversion factor between two scales is within one part in 10^13 of the exact product of prime powers by which they differ, and equal to it whenever that product is a whole number up to 2^53. It depends only on the difference of the exponents, and is exactly 1 between equal scales.",
     ["inputs"], "all pairs of 16-bit exponents per prime and all equal scales; every difference vector with exponents up to 100 (8 for pi), and each prime alone to the limits of a double",
     "138 million factors; the tests look at a few dozen to a loose tolerance.",
     ["src/scale_conversion.rs", "src/api.rs"],
     [("floating power tables and their fallback", "src/scale_conversion.rs"), ("aggregate factor", "src/api.rs")],
     "proof", "Dependence on the difference and exactness of the identity proved for all 16-bit exponents over abstract tables; accuracy decided by complete evaluation of 138 million difference vectors against double-double arithmetic.",
     ["aggregate_scale_factor_float (per-axis and identity contracts over abstract tables; complete evaluation of combined vectors)", "pow2_float, pow3_float, pow5_float, pow_pi_float (complete evaluation to the limits of f64)"],
     ["double-double reference arithmetic of the specification is accurate to 1e-28"], **STUB)

prop("C05", "Integer rescaling is exact rational scaling rounded toward zero",
     "Rescaling an integer quantity multiplies its value by the exact rational factor and rounds toward zero when the intermediate product fits, and divides before multiplying when only that fits; a factor too large for the storage type does not change this, and a result too large for it is never returned wrapped. Dimension and brand are unchanged and the scale is the one asked for.",
     ["inputs"], "every value of each of the twelve integer types, for ten ratios of scales (multiplying, dividing, both, with pi, not fitting the type)",
     "Values near the overflow boundary and negative values are 2^8 to 2^128 many; tests rescale a few small positive numbers.",
     ["src/scale_conversion.rs", "src/api.rs"],
     [("integer rescale of each storage type", "src/scale_conversion.rs, instantiated in src/api.rs")],
     "proof", "Each rescale function proved against its contract for all values of its storage type, over the contract of its callee (the factor, C03). Some 32- to 128-bit obligations with a general numerator and denominator are left to the thorough tier and only sampled in the quick one.",
     ["rescale_{i8,i16,i32,i64,i128,isize,u8,u16,u32,u64,u128,usize}"], [GEN, OVF, "callee contract: aggregate_scale_factor returns the exact ratio (C03)"],
     harness_timeout={"quick": 60, "thorough": 400}, **STUB)

prop("C06", "Floating rescaling multiplies by the factor between the scales, nothing else",
     "Rescaling a floating point quantity returns, for every value including infinities, NaN and signed zeros, the IEEE product of the value and the factor between the source and target scales (rounded to the storage type), and rescaling to the same scale returns the value bit for bit. Dimension and brand are carried over unchanged.",
     ["inputs"], "every double or single, every factor, scales with distinct exponents on each prime",
     "2^64 values times all factors; tests convert a few values and compare loosely.",
     ["src/scale_conversion.rs", "src/api.rs"],
     [("float rescale of each storage type", "src/scale_conversion.rs, instantiated in src/api.rs"), ("rescale macro form", "src/rescale_macro.rs")],
     "proof", "Proved for all values and all factors, with the factor computation replaced by its contract; round trips against the definition are a bounded stand-in.",
     ["rescale, rescale_f64, rescale_f32, rescale!"], [GEN, "callee contract: aggregate_scale_factor_float is a function of the two scales, and 1 for equal scales (C04)"], **STUB)

prop("C07", "Arithmetic and comparison of quantities is that of the bare numbers",
     "Adding, subtracting, multiplying, dividing, taking remainders, negating, comparing and copying quantities gives exactly the number the same operation on the bare numbers gives, in both plain and in-place forms and with a bare number on either side. A quantity occupies exactly the memory of its number.",
     ["inputs"], "every pair of values of each of the fourteen numeric types",
     "Each of about 20 operators exists separately for each of 14 types; tests use a few values of f64 and i32.",
     ["src/arithmetic.rs", "src/api.rs", "src/quantity.rs"],
     [("operator implementations", "src/arithmetic.rs"), ("equality, copying and layout", "src/quantity.rs")],
     "proof", "Proved for all operand values of every storage type (float remainder and the panics on overflow and division by zero: bounded stand-ins), with and without the cge feature.",
     ["Add, Sub, Mul, Div, Rem, Neg, AddAssign, SubAssign, MulAssign, DivAssign, RemAssign, PartialEq, PartialOrd, Clone, Copy of Quantity for 14 storage types", "scalar * quantity, scalar / quantity"], [GEN])

prop("C08", "Products and quotients carry the combined unit; mismatched units do not mix",
     "The unit of a product, quotient or inverse has exactly the sums, differences or negations of the operands' dimension and scale exponents and keeps brand and number type; sums, differences and remainders keep the unit. Adding, subtracting, comparing, assigning or converting between quantities that differ in any dimension exponent, scale exponent, brand or number type, or between a dimensioned quantity and a bare number, does not compile.",
     ["programs"], "one dimension and scale with all exponents distinct, each axis alone, every one-exponent difference, all fourteen numeric types",
     "A test cannot contain a program that does not compile (compile-fail tests sample a few), and a wrong result axis shows only for units using that axis.",
     ["src/arithmetic.rs", "src/api.rs"],
     [("output types of products, quotients and inverses", "src/arithmetic.rs, src/api.rs"), ("scale-strict operator bounds", "src/arithmetic.rs")],
     "proof", "Decided by rustc's trait resolution on the real implementations: result types are compared as constants, and rejection is the absence of an implementation, for each axis and each numeric type; both are obligations of the contract crate, which is built with and without the cge feature.",
     ["Mul, Div of quantities, scalar / quantity: Output types", "absence of Add, Sub, Rem, *Assign, PartialEq, PartialOrd, From between mismatched quantities"], [GEN, "rejection is checked for each axis at the instances listed, not for every pair of exponents"])

prop("C09", "A generic dimension is satisfied by exactly the quantities of its dimension",
     "A generic dimension, built in or defined by an expression of dimensions, is satisfied by the quantities whose dimension is the one its expression denotes (any of them, where several are listed), at every scale and number type (of quantities without a brand), and by nothing else. Its unit is the quantity's own, generic code computes what the same code on the concrete quantity computes, and expressions that denote no dimension do not compile.",
     ["programs"], "every built-in dimension and some hundred expressions against the dimension itself, each one-exponent neighbour and several scales",
     "Being satisfied by too much cannot be seen in a program that compiles, and each dimension is generated separately; tests use three of them.",
     ["proc-macros/src/define_generic_dimension_macro.rs", "src/dimension_traits.rs"],
     [("expressions of dimensions and the trait they generate", "proc-macros/src/define_generic_dimension_macro.rs"), ("built-in generic dimensions", "src/dimension_traits.rs")],
     "proof", "Which quantities satisfy a trait is decided by rustc's trait resolution on the generated code and asserted by the verifier row by row; rejected expressions are a bounded stand-in (compilations).",
     ["traits generated by define_generic_dimension! (built-in and from expressions): implementations, Unit", "generic products under such bounds"],
     [GEN, "expressions outside the list are not looked at"])

prop("C10", "Erasing a pure number or an angle yields its true value",
     "Converting a dimensionless or angular quantity to a bare number yields the value it denotes at unit scale (radians), in the target's own rounding, for every numeric type and for every scale; at unit scale it is the same number. Erasing the angle from a compound unit changes neither number, scale nor any other dimension, and quantities with any other dimension left do not convert to numbers.",
     ["inputs"], "every value of each numeric type (integers crossing integer types up to 2^53), every factor, every angle power from -9 to 9",
     "There are some 400 separate conversions between type pairs and angle powers; tests use degrees to f64 and little else.",
     ["src/quantity.rs", "src/scale_conversion.rs"],
     [("conversions of dimensionless quantities to numbers", "src/quantity.rs"), ("erasure of angles", "src/quantity.rs")],
     "proof", "Proved per source type for all values, the factor abstracted by its contract; every pair of types at other scales end to end is a bounded stand-in. One known finding beyond 2^53.",
     ["From<Quantity<dimensionless>> for 14 x 14 number types", "From<Quantity<angle^k>> for numbers and From between compound quantities, k = -9..9"],
     [GEN, "callee contracts: aggregate_scale_factor and aggregate_scale_factor_float (C03, C04), rescale (C05, C06) inlined"], **STUB)

prop("C11", "Every built-in unit means what the standards say",
     "Each built-in unit has the dimension, prime-factored scale, conversion factor and zero point that the SI brochure or the published definition of the customary unit gives it, to the last published digit. Units and dimensions are found under their own names, symbols and exponents and no others, and no symbol denotes two units, whether bare or prefixed.",
     ["inputs"], "every unit, symbol, dimension and prefix-unit pair of the table",
     "Some 150 units times four constants each; tests convert a dozen of them. A wrong digit shows only to who uses that unit.",
     ["whippyunits-core/src/units.rs", "whippyunits-core/src/dimensions.rs"],
     [("unit table", "whippyunits-core/src/dimensions.rs"), ("lookups", "whippyunits-core/src/dimensions.rs, units.rs")],
     "proof", "The table's rows are proved for a symbolic row index against the specification's definitions; string lookups over the finite table are decided by complete evaluation. One known finding (lumen).",
     ["Dimension::ALL, Dimension::BASIS, Unit::BASES (every row)", "Dimension::find_unit_by_name, find_unit_by_symbol, find_dimension, find_dimension_by_exponents, names, symbols, si_base_units, non_si_base_units",
      "Unit::find_base, multiple_to_base_unit, has_conversion, has_affine_offset"],
     ["the specification's unit definitions (transcribed from the SI brochure, NIST SP 811 and the international yard and pound agreement) are right"])

prop("C12", "An SI prefix multiplies a unit by its power of ten, and only units that take prefixes",
     "A prefixed unit name, by symbol or in full, denotes the leading metric unit of its dimension times exactly the prefix's power of ten: same dimension and conversion factor, that scale. A name that is itself a unit's is never read as prefixed; units that take no prefix, doubled prefixes and names that denote nothing are not resolved to any unit.",
     ["inputs"], "every prefix with every unit symbol and name (50 000 names, and the 1 250 resulting types), every name of three letters, every name one edit from a unit",
     "650 legal and tens of thousands of illegal combinations; tests use a few kilo-, milli- and micro-units.",
     ["whippyunits-core/src/prefix.rs", "whippyunits-core/src/parser.rs", "proc-macros/src/unit_macro.rs"],
     [("prefix table and stripping", "whippyunits-core/src/prefix.rs"), ("unit lookup and prefixed evaluation", "whippyunits-core/src/parser.rs")],
     "proof", "Prefix rows proved by the verifier; the product of prefixes and units, and the compiler's own types for it, by complete evaluation; stripping of arbitrary strings bounded to 8 bytes.",
     ["SiPrefix::ALL (every row)", "SiPrefix::from_symbol, strip_any_prefix_symbol, strip_any_prefix_name", "SiPrefix::strip_prefix_name, strip_prefix_symbol (verifier, strings up to 8 bytes)",
      "get_unit_info, UnitExpr::evaluate_with_mode, calculate_unit_conversion_factors, validate_strict on single names", "unit! on every prefixed name"],
     ["strings longer than the longest prefix: stripping looks only at the prefix's own bytes"])

prop("C13", "A unit expression means the product its grammar says",
     "A unit expression denotes the product of powers it is written as: products and quotients group as the grammar says, exponents (explicit or implicit) and parentheses distribute, and powers of ten scale. Its dimension and scale are sums of its parts' and its conversion factor the product of theirs. Text outside the grammar, names that denote no unit, numbers that are no power of ten and exponents beyond 16 bits are rejected; types are made of storage units only.",
     ["inputs"], "every unit expression whose accumulated exponents fit 16 bits",
     "Expressions nest without limit; tests hold some forty. Precedence (a/b*c is a/(b*c)) and sign errors show only in particular nestings.",
     ["whippyunits-core/src/parser.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs"],
     [("UnitExpr::parse", "whippyunits-core/src/parser.rs"), ("UnitExpr::evaluate_with_mode", "whippyunits-core/src/parser.rs"),
      ("calculate_unit_conversion_factors", "whippyunits-core/src/parser.rs"), ("unknown-unit rejection", "proc-macros/src/utils/unit_suggestions.rs")],
     "proof", "Evaluation of each kind of node is proved for any units as parts (structural induction then covers every expression); parsing, factors of quotients and powers, and the macros' own types and rejections are bounded stand-ins against an independent grammar.",
     ["UnitExpr::evaluate_with_mode (each kind of node, any units as its parts)", "calculate_unit_conversion_factors (units, products)",
      "bounded: UnitExpr::parse, calculate_unit_conversion_factors (quotients and powers), validate_strict, unit!, quantity!, value! rejections"],
     ["callee contracts: get_unit_info returns some unit of the table or none (C11, C12), find_unit_by_symbol is true of unprefixed names (C12)",
      "the induction over nested nodes is on paper: evaluate_with_mode reaches a part only through its own contract",
      "under the verifier syn and proc-macro2 are replaced by stand-ins with the same interface (Ident holds its text, LitInt its value), since the verifier cannot translate the real ones; the native evaluations use the real ones",
      "accumulated exponents fit 16 bits"], trusted=["syn", "proc-macro2"], **STUB)

prop("C14", "A quantity made in a unit is that many of the unit, whichever way it is spelt",
     "Creating a quantity from x in a unit gives x of that unit: its dimension, its storage scale, and x times the unit's factor (plus its offset) as stored value, in the storage type and brand asked for. quantity! by symbol, by name and with a prefix, the methods (5.0.miles()), literals (5.0mi) and the named types agree on it.",
     ["inputs", "programs"], "every x of every storage type, every unit of the library with every prefix it takes, every way of creating a quantity; compound units sampled",
     "Some 5000 unit spellings, each expanded by its own generated code; tests use a few dozen with one or two values.",
     ["proc-macros/src/quantity_macro.rs", "proc-macros/src/generate_default_declarators_macro.rs", "proc-macros/src/utils/literal_macros.rs", "src/default_declarators.rs", "whippyunits-core/src/lib.rs"],
     [("quantity!", "proc-macros/src/quantity_macro.rs"), ("creation methods and type names", "proc-macros/src/generate_default_declarators_macro.rs"),
      ("literals", "proc-macros/src/utils/literal_macros.rs")],
     "proof", "The code each macro generates for each unit is proved for every value x (floats by cvc5); the literals' macros, which take constants only, and compound units are bounded stand-ins.",
     ["quantity! of every unit by symbol and by name and of every prefixed unit, for all f64", "quantity! of storage, customary and offset units in 12 storage types, for all values, with and without a brand",
      "creation methods of every unit and every prefixed unit, for all f64, i32 and i64", "the named type of every unit and prefixed unit",
      "bounded: literal macros of every unit in every storage type, 400 compound units"],
     ["a unit's factor and offset are the library table's (C11 ties the table to the SI)", "f64 arithmetic is IEEE 754 round to nearest, as the verifier has it"])

prop("C15", "Reading a quantity in a unit gives how many of the unit it is",
     "value! gives a quantity's number in any unit of its dimension, whatever scale it is stored on: its value rescaled to the unit's scale, less the unit's offset, over the unit's factor, in the storage type asked for; creating and reading in the same unit returns what went in. fmt writes the same number with the unit, and refuses units of another dimension and names that denote none.",
     ["inputs", "programs"], "every stored value of every storage type, every unit of the library with every prefix it takes, any factor between the scales; compound units, pairs of units and formatting sampled",
     "Some 1000 unit spellings times the scales a quantity may be stored on, each with code of its own; tests read back a dozen pairs.",
     ["proc-macros/src/value_macro.rs", "src/quantity.rs", "src/serialization.rs"],
     [("value!", "proc-macros/src/value_macro.rs"), ("Quantity::fmt", "src/quantity.rs")],
     "proof", "The code value! generates for each unit is proved for every stored value and every factor between the scales (the factor by contract: C04, C05); fmt (strings), compound units and pairs of units are bounded stand-ins.",
     ["value! of every unit by symbol and by name and of every prefixed unit, for all f64; of every unit for all f32, and with a brand", "value! of storage, customary and offset units in 12 integer types, for all values, with and without a brand",
      "bounded: Quantity::fmt in every unit and prefixed unit, 400 compound units, every pair of units of one dimension, round trips in every unit"],
     ["callee contract: aggregate_scale_factor_float returns some double depending only on the two scales (C04)", "rescale_<int> is property C05's",
      "a unit's factor and offset are the library table's (C11 ties the table to the SI)"], **STUB)

prop("C16", "A quantity read from text denotes what the text says",
     "from_string!, from_json! and serde's Deserialize give the quantity the text denotes, on the target's scale: the number, times the unit's factor plus its offset, rescaled to the target. They refuse, with an error and never a value, a unit of another dimension, a name that denotes no unit, and text that is not a number and a unit expression (or an object with one value and one unit).",
     ["inputs"], "every number, every dimension, scale, factor and offset the unit's text may have, any storage type; the texts themselves sampled over all units, prefixes and ways to write numbers",
     "The value, the unit's text and the target's type are independent inputs; tests read some twenty texts.",
     ["src/serialization.rs", "proc-macros/src/compute_unit_dimensions_macro.rs"],
     [("deserialize_core_quantity", "src/serialization.rs"), ("parse_string_input, parse_json_input", "src/serialization.rs"), ("QuantityVisitor::visit_map", "src/serialization.rs")],
     "mixed", "What is made of a number and a unit's text is proved for all values and everything the parser and the tables may say of the unit; parsing of the texts themselves (strings) is a bounded stand-in.",
     ["deserialize_core, deserialize_core_quantity (into each dimension a unit has, on its scale, a kilo of it and an arbitrary scale, and three extreme targets)", "dimensions_match, validate_dimensions, calculate_conversion_factor, get_quantity_dimensions",
      "bounded: from_string!, from_json!, Deserialize, parse_string_input, parse_json_input, parse_ucum_unit, get_target_unit_dimensions"],
     ["callee contracts: parse_ucum_unit and calculate_unit_conversion_factors answer anything (C11-C13), aggregate_scale_factor_float some double depending only on the scales (C04); format! returns some text",
      "f64 arithmetic is IEEE 754 round to nearest, as the verifier has it"], **STUB)

prop("C17", "A quantity is written as its value in the coherent SI unit and reads back as itself",
     "Serializing a quantity writes exactly its value in the coherent SI unit of its dimension and that unit's UCUM text, whatever its scale, storage type and brand; the text has the dimension's exponents; reading it back, into the same type or another scale of the dimension, gives the same physical quantity.",
     ["inputs"], "every value of eight storage types, any factor, every dimension with a name and some without; texts and round trips sampled",
     "The factor comes from the scale in the type, the text from eight exponents; tests write four quantities.",
     ["src/serialization.rs"],
     [("Serialize for Quantity", "src/serialization.rs"), ("serialize_to_json, to_ucum_unit, coherent_ucum_unit", "src/serialization.rs")],
     "mixed", "What Serialize writes is proved for all values, through a serializer that takes it down; the unit's text and JSON round trips (strings) are bounded stand-ins.",
     ["Serialize for Quantity (34 dimensions and scales in each of 8 storage types, with and without a brand)",
      "bounded: to_ucum_unit and parse_ucum_unit of 433 dimensions, serde_json and serialize_to_json round trips of 100 types"],
     ["callee contracts: to_ucum_unit is asked for the quantity's dimension and returns some text (its text is a bounded stand-in), aggregate_scale_factor_float some double depending only on the scales (C04)",
      "f64 arithmetic is IEEE 754 round to nearest, as the verifier has it"], **STUB)

prop("C18", "Declarators with preferred units make the declared quantity, stored in those units",
     "A quantity made with declarators defined by define_unit_declarators! - by macro, by method or by literal - is the declared amount of the declared unit, stored in the product of the preferred base units to the powers of its dimension, with the declarators' brand and the requested number type. Declarators with a brand alone store it as the default ones do.",
     ["inputs"], "every value; every unit, methods of all prefixed base units and forty compound expressions, for three sets of preferences (prefixes, minutes and hours, degrees and turns) and one brand-only set",
     "Each set of preferences and each unit is a separate program; the tests use one set, two units, and powers of ten only.",
     ["proc-macros/src/define_unit_declarators_macro.rs", "proc-macros/src/local_unit_type_macro.rs"],
     [("declarators with preferences and their type", "proc-macros/src/define_unit_declarators_macro.rs, local_unit_type_macro.rs"), ("local literals", "proc-macros/src/utils/literal_macros.rs")],
     "proof", "The generated code is proved for every value, with the factor between declared and preferred scale abstracted by its contract (C03, C04). Literals are a bounded stand-in.",
     ["generated quantity! (f64, f32, i32, i64, isize, usize), Local* methods (f64, i32, i64), brand-only quantity! and methods", "local_unit! (types of all of them)"],
     [GEN, "sets of preferences other than the four are not looked at", "integers: where the product with the numerator overflows, see C05"], **STUB,
     harness_timeout={"quick": 100, "thorough": 900})

prop("C19", "What a quantity is printed as denotes the quantity",
     "Display, Debug and the pretty printer write the number stored and a unit text that denotes exactly the quantity's dimension and scale: unit symbols or names, prefixes, powers and numeric factors multiply out to it, whatever the dimension and scale, with the number type and brand Debug names. No listed unit's name is written for a scale that is not its own.",
     ["inputs"], "every value and every scale of single dimensions; hundreds of dimensions at scales of every prefix, every unit and mixed primes for whole texts",
     "The text is put together from dimension, scale and tables by cases; tests print a few dozen quantities and compare with the text of the day.",
     ["src/print/prettyprint.rs", "src/print/display_traits.rs", "src/print/utils.rs", "whippyunits-core/src/storage_unit.rs"],
     [("Display and Debug hand on value, dimension, scale, type and brand", "src/print/display_traits.rs"), ("names and prefixes of a scale", "whippyunits-core/src/storage_unit.rs"), ("text of a dimension", "src/print/prettyprint.rs")],
     "mixed", "What Display and Debug hand to the printer is proved for all values; the name given to a scale and the prefix given to a power are proved for every 16-bit scale; whole texts are read back by an independent reader, a bounded stand-in (core::fmt and String are beyond the verifier).",
     ["<Quantity as Display>::fmt, <Quantity as Debug>::fmt (14 storage types)", "lookup_unit_literal_by_scale_factors", "get_si_prefix", "to_unicode_superscript", "pretty_print_quantity (bounded)"],
     [GEN, "texts of dimensions and scales not enumerated are not looked at"], **STUB)

NA.append(dict(id="C20", title="Editor and compiler texts are rewritten to what they denote, and nothing else is touched",
     statement="The LSP proxy and rustc-pretty replace each printed quantity type by a unit text that denotes it, leave all other text and messages as they were, and frame every message they pass on with its true length.",
     over=["inputs"], quant="every message and every compiler output", why="Texts are unbounded; tests feed a few recorded messages.",
     files=["lsp-proxy/src", "rustc-pretty", "whippyunits-pretty"], mech=[("message framing and rewriting", "lsp-proxy/src/lib.rs"), ("rewriting of printed types", "whippyunits-pretty/src")], observe=[],
     reason="Unbounded text processing with serde_json, regex-like scanning and tokio streams: neither Kani nor Verus reaches heap strings and these crates, and no function in between has a contract over finite data. Only a bounded evaluation would be possible, which is not this family."))
