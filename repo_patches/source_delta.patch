From ceab7b7d3496516159db8b7b0fd203c409f1a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 01/33] fix: Fahrenheit offset is 459.67, not 459.7

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..890dbee 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
-- 
2.43.0


From 7ea13dc177e8a23b203688ae7a254c2ab631fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 02/33] fix: acre was a tenth of its definition (4046.8564224
 m^2)

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 890dbee..d59d6ee 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 4a7222aa7e7b66dd1cdb791eae0571ac6ffca282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 03/33] fix: foot_pound was ten times its definition
 (1.3558179483314004 J)

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d59d6ee..2fde9f1 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 393aa47fc3c9ceed4794fd79fd8760e52c14cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 04/33] fix: gradian, arcminute and arcsecond scale exponents

---
 src/quantity.rs               | 2 +-
 whippyunits-core/src/units.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..32d928c 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -117,7 +117,7 @@ pub struct _A<const EXP: i16 = 0>;
 /// Angular units can involve "all of the above", plus a possible factor of π:
 ///  - revolution: `2π = _2<1>, _3<0>, _5<0>, _Pi<1>`
 ///  - degree: `π/180 = _2<-2>, _3<-2>, _5<-1>, _Pi<1>`
-///  - arcminute: `π/10800 = _2<-4>, _3<-2>, _5<-2>, _Pi<1>`
+///  - arcminute: `π/10800 = _2<-4>, _3<-3>, _5<-2>, _Pi<1>`
 #[allow(dead_code)]
 #[derive(PartialEq)]
 pub struct Scale<P2 = _2<0>, P3 = _3<0>, P5 = _5<0>, PI = _Pi<0>> {
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 2fde9f1..f438a48 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 77ee59584aa096503529cd65167038e606bb5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 05/33] fix: dynamic viscosity is M L^-1 T^-1

---
 whippyunits-core/src/dimensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index dba7cb2..f70d9fd 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -550,7 +550,7 @@ impl Dimension<crate::dimension_exponents!([1, -1, 0, 0, 0, 0, 0, 0])> {
     });
 }
 
-impl Dimension<crate::dimension_exponents!([1, -1, 1, 0, 0, 0, 0, 0])> {
+impl Dimension<crate::dimension_exponents!([1, -1, -1, 0, 0, 0, 0, 0])> {
     pub const DYNAMIC_VISCOSITY: Self = __dim!(Self {
         name: "Dynamic Viscosity",
         symbol: "ML⁻¹T⁻¹",
-- 
2.43.0


From 89be3fd63fcefbb7a674b5e057d6175417a0190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 06/33] fix: type-level dimension subtraction required the sum
 of the exponents

---
 whippyunits-core/src/dimension_exponents.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index fa5458f..ac1574f 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -449,14 +449,14 @@ macro_rules! __exponents_impl_op {
             const ANGLE_EXP2: i16,
         > $op<__exponents!(@rhs)> for __exponents!(@lhs)
 where
-    N<MASS_EXP1>: Add<N<MASS_EXP2>, Output = N<MASS_EXP>>,
-    N<LENGTH_EXP1>: Add<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
-    N<TIME_EXP1>: Add<N<TIME_EXP2>, Output = N<TIME_EXP>>,
-    N<CURRENT_EXP1>: Add<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
-    N<TEMPERATURE_EXP1>: Add<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
-    N<AMOUNT_EXP1>: Add<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
-    N<LUMINOSITY_EXP1>: Add<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
-    N<ANGLE_EXP1>: Add<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
+    N<MASS_EXP1>: $op<N<MASS_EXP2>, Output = N<MASS_EXP>>,
+    N<LENGTH_EXP1>: $op<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
+    N<TIME_EXP1>: $op<N<TIME_EXP2>, Output = N<TIME_EXP>>,
+    N<CURRENT_EXP1>: $op<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
+    N<TEMPERATURE_EXP1>: $op<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
+    N<AMOUNT_EXP1>: $op<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
+    N<LUMINOSITY_EXP1>: $op<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
+    N<ANGLE_EXP1>: $op<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
 {
             $($t)*
         }
-- 
2.43.0


From 713e59367344df08d1974a0cd6ff281bebb981c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 07/33] fix: implicit exponent after a non-ASCII unit symbol
 panicked

---
 whippyunits-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..23a7464 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -177,7 +177,7 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From 71b37e28c5d793c4d1c597cd943a694490bbeb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 08/33] fix: serialized value and unit did not describe the
 quantity

The unit string dropped the scale while the value kept it (5 km was written
as 5 m), and compound units were written in a form the parser rejects. Write
the value in the coherent SI unit and that unit in parsable UCUM form.
---
 src/serialization.rs | 55 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..3ed8b8a 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -38,8 +38,6 @@
 //! for sufficiently resource-constrained environments.
 
 use crate::api::aggregate_scale_factor_float;
-use crate::print::name_lookup::generate_systematic_unit_name_with_format;
-use crate::print::prettyprint::UnitFormat;
 use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
@@ -53,13 +51,15 @@ pub type UnitDimensions = (
     whippyunits_core::scale_exponents::ScaleExponents,
 );
 
-use crate::alloc::{String, ToString, Vec, format, vec};
+use crate::alloc::{String, ToString, Vec, format};
 use proc_macro2::TokenStream;
 use syn::parse_str;
 
 use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Visitor};
 
-/// Convert a whippyunits quantity to UCUM unit string
+/// UCUM string of the coherent SI unit of a whippyunits quantity
+///
+/// The scale of the quantity is not part of the unit: serialization writes the value in this unit.
 pub fn to_ucum_unit<
     const MASS_EXPONENT: i16,
     const LENGTH_EXPONENT: i16,
@@ -93,7 +93,7 @@ pub fn to_ucum_unit<
 where
     T: Into<f64> + Copy,
 {
-    let exponents = vec![
+    coherent_ucum_unit([
         MASS_EXPONENT,
         LENGTH_EXPONENT,
         TIME_EXPONENT,
@@ -102,8 +102,39 @@ where
         AMOUNT_EXPONENT,
         LUMINOSITY_EXPONENT,
         ANGLE_EXPONENT,
-    ];
-    generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
+    ])
+}
+
+/// UCUM expression of the coherent SI unit with the given dimension exponents, e.g. `kg.m/s2`
+fn coherent_ucum_unit(exponents: [i16; 8]) -> String {
+    const SYMBOLS: [&str; 8] = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"];
+
+    let mut unit = String::new();
+    for (symbol, exponent) in SYMBOLS.iter().zip(exponents) {
+        if exponent > 0 {
+            if !unit.is_empty() {
+                unit.push('.');
+            }
+            push_ucum_term(&mut unit, symbol, exponent);
+        }
+    }
+    if unit.is_empty() {
+        unit.push('1');
+    }
+    for (symbol, exponent) in SYMBOLS.iter().zip(exponents) {
+        if exponent < 0 {
+            unit.push('/');
+            push_ucum_term(&mut unit, symbol, exponent);
+        }
+    }
+    unit
+}
+
+fn push_ucum_term(unit: &mut String, symbol: &str, exponent: i16) {
+    unit.push_str(symbol);
+    if exponent.unsigned_abs() != 1 {
+        unit.push_str(&exponent.unsigned_abs().to_string());
+    }
 }
 
 /// Errors that can occur during UCUM serialization/deserialization
@@ -249,7 +280,11 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
+        // The unit written is the coherent SI unit, so the value must be expressed in it
+        let value = self.unsafe_value.into()
+            * aggregate_scale_factor_float(
+                SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI, 0, 0, 0, 0,
+            );
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -593,7 +628,9 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    // The unit written is the coherent SI unit, so the value must be expressed in it
+    let value = quantity.unsafe_value.into()
+        * aggregate_scale_factor_float(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI, 0, 0, 0, 0);
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
-- 
2.43.0


From 36b0ea84de70416d6162f71886d568b04f5918c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 09/33] fix: unknown units in deserialized strings were taken
 as dimensionless

---
 src/serialization.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 3ed8b8a..1800da4 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -693,7 +693,9 @@ pub fn validate_dimensions(
 fn calculate_unit_conversion_factors(unit_str: &str) -> Result<(f64, f64), SerializationError> {
     use proc_macro2::TokenStream;
     use syn::parse_str;
-    use whippyunits_core::{UnitExpr, calculate_unit_conversion_factors as calc_cf};
+    use whippyunits_core::{
+        UnitExpr, calculate_unit_conversion_factors as calc_cf, get_unit_info,
+    };
 
     // Handle dimensionless case
     if unit_str == "1" {
@@ -709,6 +711,14 @@ fn calculate_unit_conversion_factors(unit_str: &str) -> Result<(f64, f64), Seria
         SerializationError::ParseError(format!("Failed to parse unit expression: {}", unit_str))
     })?;
 
+    // Unknown units would otherwise silently be treated as dimensionless
+    for ident in unit_expr.collect_unit_identifiers() {
+        let name = ident.to_string();
+        if name != "dimensionless" && name != "power_of_10" && get_unit_info(&name).is_none() {
+            return Err(SerializationError::UnknownUnit(name));
+        }
+    }
+
     // Use the shared logic from whippyunits-core
     Ok(calc_cf(&unit_expr))
 }
-- 
2.43.0


From a0e03dc0de47d4c554203af7d4bf6395a6022315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 10/33] fix: unit exponents outside i16 panicked or were
 truncated

---
 whippyunits-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 23a7464..b4304fc 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -115,6 +115,8 @@ impl UnitExpr {
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
+            // Evaluation relies on the exponent being an i16
+            exponent.base10_parse::<i16>()?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
@@ -135,7 +137,7 @@ impl UnitExpr {
             if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                let exponent: i16 = exponent_lit.base10_parse()?;
 
                 // Handle power-of-10 expressions like "10^4"
                 if base_value == 10 {
@@ -144,7 +146,7 @@ impl UnitExpr {
                     // For now, we'll create a unit with the appropriate scale factor
                     Ok(UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
+                        exponent,
                     }))
                 } else {
                     // For other bases, treat as regular power expression
-- 
2.43.0


From 19b00f5d6b45b870a1c173e43420ace2ad192add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 11/33] fix: integer factors other than 10 in unit expressions
 were dropped

---
 whippyunits-core/src/parser.rs | 63 +++++++++++++++-------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b4304fc..386ffef 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -134,46 +134,39 @@ impl UnitExpr {
             let base_value: i32 = lit.base10_parse()?;
 
             // Check if this is followed by a caret (^) for power notation
-            if input.peek(Caret) {
+            let exponent: i16 = if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent: i16 = exponent_lit.base10_parse()?;
+                exponent_lit.base10_parse()?
+            } else {
+                1
+            };
 
-                // Handle power-of-10 expressions like "10^4"
-                if base_value == 10 {
-                    // This is a power-of-10 scale factor
-                    // We need to create a special unit that represents this scale
-                    // For now, we'll create a unit with the appropriate scale factor
-                    Ok(UnitExpr::Unit(UnitExprUnit {
+            if base_value == 1 {
+                return Ok(UnitExpr::Unit(UnitExprUnit {
+                    name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
+                    exponent: 1,
+                }));
+            }
+
+            // Only powers of 10 can be expressed as a scale factor; anything else must not be
+            // dropped silently.
+            base_value
+                .checked_ilog10()
+                .filter(|&log10| 10_i32.pow(log10) == base_value)
+                .and_then(|log10| exponent.checked_mul(log10 as i16))
+                .map(|exponent| {
+                    UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
                         exponent,
-                    }))
-                } else {
-                    // For other bases, treat as regular power expression
-                    Ok(UnitExpr::Pow(
-                        Box::new(UnitExpr::Unit(UnitExprUnit {
-                            name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
-                            exponent: 1,
-                        })),
-                        exponent_lit,
-                    ))
-                }
-            } else {
-                // Regular numeric literal - check if it's a power of 10
-                if base_value == 10 {
-                    // Treat "10" as "10^1" for power-of-10 scale factors
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: 1,
-                    }))
-                } else {
-                    // Other numeric literals - treat as dimensionless
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: syn::Ident::new("dimensionless", proc_macro2::Span::call_site()),
-                        exponent: 1,
-                    }))
-                }
-            }
+                    })
+                })
+                .ok_or_else(|| {
+                    syn::Error::new(
+                        lit.span(),
+                        "numeric factors in unit expressions must be powers of 10",
+                    )
+                })
         } else {
             let ident: Ident = input.parse()?;
 
-- 
2.43.0


From 61ab17d70bd0623f653fb3a6a261dbd092d4598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 12/33] fix: reduce_rational left common factors of 2 in the
 result

---
 src/scale_conversion.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 9f9118c..653bba1 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -78,10 +78,10 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     let mut num_u = num.unsigned_abs();
     let mut den_u = den.unsigned_abs();
 
-    // Remove common factors of 2 using bit shifts
+    // Remove factors of 2 using bit shifts, remembering the common ones
     let common_twos = (num_u | den_u).trailing_zeros();
-    num_u >>= common_twos;
-    den_u >>= common_twos;
+    num_u >>= num_u.trailing_zeros();
+    den_u >>= den_u.trailing_zeros();
 
     // Now both are odd, so we can use the odd-odd case of binary GCD
     while num_u != den_u {
@@ -95,8 +95,8 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
         }
     }
 
-    // num_u == den_u now, and both are odd, so this is the GCD
-    let gcd = num_u;
+    // num_u == den_u now, and both are odd, so this is the odd part of the GCD
+    let gcd = num_u << common_twos;
 
     // Divide both by the GCD to get reduced form
     let reduced_num = num / (gcd as i128);
-- 
2.43.0


From 7127a8e2d6279e208e7c519079503bb2d1f79e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 13/33] fix: integer rescale overflowed on negative values and
 truncated the factor

---
 src/scale_conversion.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 653bba1..cc2991c 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -232,17 +232,29 @@ macro_rules! _define_int_rescale {
             let (num, den) = aggregate_scale_factor(
                 $($int_rescale_aggregate_args)*
             );
-            let num = num as $T;
-            let den = den as $T;
+            let value = quantity.unsafe_value;
 
-            // Numerical stability: check for potential overflow on multiplication
-            // If value * num would overflow, divide first; otherwise multiply first
-            let result = if quantity.unsafe_value > <$T>::max_value() / num {
-                // Potential overflow: divide first to reduce intermediate value
-                (quantity.unsafe_value / den) * num
+            let result = if (num as $T) as i128 != num || (den as $T) as i128 != den {
+                // The factor itself is not representable in the storage type: compute in i128
+                let value = value as i128;
+                let wide = match value.checked_mul(num) {
+                    Some(product) => product / den,
+                    None => (value / den) * num,
+                };
+                assert!((wide as $T) as i128 == wide, "rescaled value overflows its storage type");
+                wide as $T
             } else {
-                // Safe to multiply first
-                (quantity.unsafe_value * num) / den
+                let num = num as $T;
+                let den = den as $T;
+
+                // Numerical stability: check for potential overflow on multiplication
+                // If value * num would overflow, divide first; otherwise multiply first
+                match value.checked_mul(num) {
+                    // Safe to multiply first
+                    Some(product) => product / den,
+                    // Overflow: divide first to reduce intermediate value
+                    None => (value / den) * num,
+                }
             };
 
             Quantity::<
-- 
2.43.0


From e7d06dc0e021dd1800f4172a3b573ca7fb09b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 14/33] fix: prefixed unit lookup ignored the base unit's own
 scale and panicked on names

---
 src/serialization.rs | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 1800da4..ba8572b 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -1299,22 +1299,7 @@ pub fn get_target_unit_dimensions(unit_literal: &str) -> UnitDimensions {
         // Try to parse as a prefixed unit (e.g., "cm", "km", "mm")
         if let Some((base_symbol, prefix)) = is_prefixed_base_unit_direct(unit_literal) {
             // Get the base unit dimensions
-            if let Some(base_unit) = whippyunits_core::Unit::BASES
-                .iter()
-                .find(|unit| unit.symbols.contains(&base_symbol.as_str()))
-            {
-                let (mass, length, time, current, temp, amount, lum, angle) = (
-                    base_unit.exponents.0[0], // mass
-                    base_unit.exponents.0[1], // length
-                    base_unit.exponents.0[2], // time
-                    base_unit.exponents.0[3], // current
-                    base_unit.exponents.0[4], // temperature
-                    base_unit.exponents.0[5], // amount
-                    base_unit.exponents.0[6], // luminosity
-                    base_unit.exponents.0[7], // angle
-                );
-                let inherent_scale = 0; // No inherent scale offset in the new system
-
+            if let Some((_dimension, base_unit)) = lookup_unit_literal_direct(&base_symbol) {
                 // Get the prefix scale factor
                 let prefix_scale = if let Some(prefix_info) = whippyunits_core::SiPrefix::ALL
                     .iter()
@@ -1325,22 +1310,10 @@ pub fn get_target_unit_dimensions(unit_literal: &str) -> UnitDimensions {
                     0
                 };
 
-                // Calculate the total scale factor
-                let total_scale = inherent_scale + prefix_scale;
-
-                // Convert to p2, p3, p5, pi format
-                // The scale factors represent powers of 10, so we need to factor them properly
-                let (p2, p3, p5, pi) = if total_scale == 0 {
-                    (0, 0, 0, 0)
-                } else {
-                    // For SI prefixes, the scale is a power of 10
-                    // Factor 10^n into 2^n * 5^n since 10 = 2 * 5
-                    (total_scale, 0, total_scale, 0)
-                };
-
+                // The prefix scales the base unit, which has a scale of its own (e.g. the gram)
                 (
-                    DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle]),
-                    ScaleExponents([p2, p3, p5, pi]),
+                    base_unit.exponents,
+                    base_unit.scale.mul(ScaleExponents::_10(prefix_scale)),
                 )
             } else {
                 panic!("Unknown base unit: {}", base_symbol);
-- 
2.43.0


From 5fcc1a1da7c5985299d3bc9b078db7652337f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 15/33] fix: scale conversions outside the power tables
 silently used a factor of 1

---
 proc-macros/src/pow_lookup_macro.rs | 52 ++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/proc-macros/src/pow_lookup_macro.rs b/proc-macros/src/pow_lookup_macro.rs
index 3c99528..f022d55 100644
--- a/proc-macros/src/pow_lookup_macro.rs
+++ b/proc-macros/src/pow_lookup_macro.rs
@@ -71,6 +71,10 @@ impl PowLookupInput {
         let mut match_arms = Vec::new();
 
         for exp in range_start..=range_end {
+            if !power_fits_i128(base, exp.unsigned_abs()) {
+                continue;
+            }
+
             let (num, den) = if exp >= 0 {
                 // For positive exponents: (base^exp, 1)
                 (base_to_power(base, exp), quote! { 1 })
@@ -84,9 +88,9 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: a wrong factor must never be returned silently
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => panic!("scale exponent out of the range supported by rational rescaling"),
         });
 
         let func_name = &self.name;
@@ -123,10 +127,8 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
-        match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
-        });
+        // Add default case for exponents outside the table
+        match_arms.push(float_power_fallback(quote! { #base }));
 
         let func_name = &self.name;
 
@@ -140,6 +142,34 @@ impl PowLookupInput {
     }
 }
 
+/// Whether `base^exp` is representable as an `i128`
+fn power_fits_i128(base: &Expr, exp: u32) -> bool {
+    match base {
+        Expr::Lit(syn::ExprLit {
+            lit: syn::Lit::Int(lit),
+            ..
+        }) => lit
+            .base10_parse::<i128>()
+            .is_ok_and(|base| base.checked_pow(exp).is_some()),
+        _ => true,
+    }
+}
+
+/// Match arm computing the float power for exponents outside the lookup table
+fn float_power_fallback(base: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+    quote! {
+        _ => {
+            let mut power = 1.0;
+            let mut i = 0;
+            while i < exp.unsigned_abs() {
+                power *= #base;
+                i += 1;
+            }
+            if exp < 0 { 1.0 / power } else { power }
+        }
+    }
+}
+
 /// Convert a base expression to a power expression for rational numbers
 fn base_to_power(base: &Expr, exp: i32) -> proc_macro2::TokenStream {
     match exp {
@@ -238,9 +268,9 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: a wrong factor must never be returned silently
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => panic!("scale exponent out of the range supported by rational rescaling"),
         });
 
         let func_name = &self.name;
@@ -290,10 +320,8 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
-        match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
-        });
+        // Add default case for exponents outside the table
+        match_arms.push(float_power_fallback(quote! { core::f64::consts::PI }));
 
         let func_name = &self.name;
 
-- 
2.43.0


From ada386abc455f5e652532810f307c1c68459443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 16/33] fix: reject unknown units in unit!, quantity! and
 value!

A misspelt unit was silently taken to be dimensionless of scale 1.
---
 .../src/compute_unit_dimensions_macro.rs      |  5 +++
 proc-macros/src/local_unit_type_macro.rs      | 18 +---------
 proc-macros/src/quantity_macro.rs             |  6 ++++
 proc-macros/src/unit_macro.rs                 |  6 ++++
 proc-macros/src/utils/unit_suggestions.rs     | 33 ++++++++++++++++++-
 proc-macros/src/value_macro.rs                |  6 ++++
 6 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/proc-macros/src/compute_unit_dimensions_macro.rs b/proc-macros/src/compute_unit_dimensions_macro.rs
index f5edf6a..ec8d11a 100644
--- a/proc-macros/src/compute_unit_dimensions_macro.rs
+++ b/proc-macros/src/compute_unit_dimensions_macro.rs
@@ -9,6 +9,11 @@ use syn::parse;
 pub fn compute_unit_dimensions(input: TokenStream) -> TokenStream {
     let unit_expr: whippyunits_core::UnitExpr = parse(input).expect("Expected unit expression");
 
+    // Unknown units would otherwise silently be treated as dimensionless
+    if let Some(error_msg) = crate::utils::unit_suggestions::unknown_unit_error(&unit_expr) {
+        return quote! { compile_error!(#error_msg) }.into();
+    }
+
     // Use tolerant mode to allow nonstorage units (for quantity!, value!, serialization)
     let result = unit_expr.evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant);
 
diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 29ec65e..204478b 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -840,23 +840,7 @@ impl LocalQuantityMacroInput {
 
     /// Generate error for unknown unit with suggestions
     fn generate_unknown_unit_error(&self, unit_name: &str) -> TokenStream {
-        use crate::utils::unit_suggestions::find_similar_units;
-
-        let suggestions = find_similar_units(unit_name, 0.7);
-        let error_message = if suggestions.is_empty() {
-            format!("Unknown unit '{}'. No similar units found.", unit_name)
-        } else {
-            let suggestion_list = suggestions
-                .iter()
-                .map(|(suggestion, _)| format!("'{}'", suggestion))
-                .collect::<Vec<_>>()
-                .join(", ");
-
-            format!(
-                "Unknown unit '{}'. Did you mean: {}?",
-                unit_name, suggestion_list
-            )
-        };
+        let error_message = crate::utils::unit_suggestions::unknown_unit_message(unit_name);
 
         // Generate a doc shadow that shows the error
         let doc_ident_name = format!("Local{}", unit_name.to_uppercase());
diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 19b95a0..fcb0cc5 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -6,6 +6,7 @@ use syn::{Expr, Type};
 use whippyunits_core::{calculate_unit_conversion_factors, get_unit_info, Dimension, UnitExpr};
 
 use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::unit_suggestions::unknown_unit_error;
 
 /// Input for the quantity macro
 pub struct QuantityMacroInput {
@@ -48,6 +49,11 @@ impl Parse for QuantityMacroInput {
 
 impl QuantityMacroInput {
     pub fn expand(self) -> TokenStream {
+        // Unknown units would otherwise silently be treated as dimensionless
+        if let Some(error_msg) = unknown_unit_error(&self.unit_expr) {
+            return quote! { compile_error!(#error_msg) };
+        }
+
         // Generate documentation structs for unit identifiers
         // For quantity! macro, use storage type for affine/nonstorage units
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
diff --git a/proc-macros/src/unit_macro.rs b/proc-macros/src/unit_macro.rs
index afaa138..1d16475 100644
--- a/proc-macros/src/unit_macro.rs
+++ b/proc-macros/src/unit_macro.rs
@@ -6,6 +6,7 @@ use syn::Type;
 use whippyunits_core::UnitExpr;
 
 use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::unit_suggestions::unknown_unit_error;
 
 /// Input for the unit macro
 pub struct UnitMacroInput {
@@ -44,6 +45,11 @@ impl Parse for UnitMacroInput {
 
 impl UnitMacroInput {
     pub fn expand(self) -> TokenStream {
+        // Unknown units would otherwise silently be treated as dimensionless
+        if let Some(error_msg) = unknown_unit_error(&self.unit_expr) {
+            return quote! { compile_error!(#error_msg) };
+        }
+
         // Validate that no nonstorage units are used (strict mode requirement)
         if let Some(error_msg) = self.unit_expr.validate_strict() {
             return quote! {
diff --git a/proc-macros/src/utils/unit_suggestions.rs b/proc-macros/src/utils/unit_suggestions.rs
index 0a6db5c..7d1ac31 100644
--- a/proc-macros/src/utils/unit_suggestions.rs
+++ b/proc-macros/src/utils/unit_suggestions.rs
@@ -1,5 +1,36 @@
 use strsim::damerau_levenshtein;
-use whippyunits_core::{Dimension, SiPrefix};
+use whippyunits_core::{get_unit_info, Dimension, SiPrefix, UnitExpr};
+
+/// Error message for the first unknown unit in the expression, if there is any
+pub fn unknown_unit_error(unit_expr: &UnitExpr) -> Option<String> {
+    unit_expr
+        .collect_unit_identifiers()
+        .iter()
+        .map(|ident| ident.to_string())
+        .find(|name| {
+            name != "dimensionless" && name != "power_of_10" && get_unit_info(name).is_none()
+        })
+        .map(|name| unknown_unit_message(&name))
+}
+
+/// Error message for an unknown unit, with suggestions
+pub fn unknown_unit_message(unit_name: &str) -> String {
+    let suggestions = find_similar_units(unit_name, 0.7);
+    if suggestions.is_empty() {
+        format!("Unknown unit '{}'. No similar units found.", unit_name)
+    } else {
+        let suggestion_list = suggestions
+            .iter()
+            .map(|(suggestion, _)| format!("'{}'", suggestion))
+            .collect::<Vec<_>>()
+            .join(", ");
+
+        format!(
+            "Unknown unit '{}'. Did you mean: {}?",
+            unit_name, suggestion_list
+        )
+    }
+}
 
 /// Find similar units to the given unknown unit name
 /// Returns suggestions with similarity scores above the threshold
diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 8a7213a..6eed436 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -8,6 +8,7 @@ use whippyunits_core::{
 };
 
 use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::unit_suggestions::unknown_unit_error;
 
 /// Input for the value! macro
 /// Syntax: value!(quantity, unit_expr) or value!(quantity, unit_expr, type) or value!(quantity, unit_expr, type, brand)
@@ -49,6 +50,11 @@ impl Parse for ValueMacroInput {
 
 impl ValueMacroInput {
     pub fn expand(self) -> TokenStream {
+        // Unknown units would otherwise silently be treated as dimensionless
+        if let Some(error_msg) = unknown_unit_error(&self.unit_expr) {
+            return quote! { compile_error!(#error_msg) };
+        }
+
         // Generate documentation structs for unit identifiers
         // For value! macro, use storage type for affine/nonstorage units (like quantity!)
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
-- 
2.43.0


From ffb19f031bd9bb08ed10c5e61778d98354698261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 17/33] fix: accept unit symbols that are Rust keywords

The documented quantity!(12.0, in) did not parse, nor did attoseconds (as).
---
 proc-macros/src/utils/shared_utils.rs | 7 +++++++
 whippyunits-core/src/parser.rs        | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6db0ed6..bb0d484 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -419,6 +419,13 @@ pub fn generate_unit_documentation_for_expr(
 
             let doc_comment = generate_unit_doc_comment(&unit_name);
 
+            // Some unit symbols are keywords (like "in" or "as")
+            let ident = if is_valid_identifier(&unit_name) {
+                ident
+            } else {
+                Ident::new_raw(&unit_name, ident.span())
+            };
+
             quote! {
                 const _: () = {
                     #doc_comment
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 386ffef..3ceb982 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,6 +1,7 @@
 #[cfg(not(test))]
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -168,7 +169,8 @@ impl UnitExpr {
                     )
                 })
         } else {
-            let ident: Ident = input.parse()?;
+            // Some unit symbols are keywords (like "in" or "as")
+            let ident: Ident = input.call(Ident::parse_any)?;
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From dc95029b76e69f19fcee5c23c4d1b5ae2008d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 18/33] fix: reject integer suffixes in unit expressions

---
 whippyunits-core/src/parser.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 3ceb982..be28408 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -115,7 +115,7 @@ impl UnitExpr {
 
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
-            let exponent: LitInt = input.parse()?;
+            let exponent = Self::parse_integer(input)?;
             // Evaluation relies on the exponent being an i16
             exponent.base10_parse::<i16>()?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
@@ -124,6 +124,19 @@ impl UnitExpr {
         }
     }
 
+    /// An integer without a suffix: the rest of `10m` or `m^2s` must not be dropped silently.
+    fn parse_integer(input: ParseStream) -> Result<LitInt> {
+        let lit: LitInt = input.parse()?;
+        if lit.suffix().is_empty() {
+            Ok(lit)
+        } else {
+            Err(syn::Error::new(
+                lit.span(),
+                "integers in unit expressions cannot have a suffix",
+            ))
+        }
+    }
+
     fn parse_atom(input: ParseStream) -> Result<Self> {
         if input.peek(syn::token::Paren) {
             let content;
@@ -131,13 +144,13 @@ impl UnitExpr {
             content.parse()
         } else if input.peek(syn::LitInt) {
             // Handle numeric literals like "1" in "1 / m" or "10" in "10^4 m"
-            let lit: syn::LitInt = input.parse()?;
+            let lit = Self::parse_integer(input)?;
             let base_value: i32 = lit.base10_parse()?;
 
             // Check if this is followed by a caret (^) for power notation
             let exponent: i16 = if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
-                let exponent_lit: LitInt = input.parse()?;
+                let exponent_lit = Self::parse_integer(input)?;
                 exponent_lit.base10_parse()?
             } else {
                 1
-- 
2.43.0


From b08f9eb567590248bd3176409b5909626ddfa63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 19/33] fix: quantity! dropped exponent, storage type and brand
 of nonstorage units

---
 proc-macros/src/quantity_macro.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index fcb0cc5..9869f50 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -59,9 +59,15 @@ impl QuantityMacroInput {
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
 
         // Check if this is a simple atomic unit that's nonstorage/affine
-        // For these, we can dispatch directly to the declarator
+        // For these, we can dispatch directly to the declarator, unless an exponent, a storage
+        // type or a brand is given, which the declarator knows nothing about
         if let UnitExpr::Unit(unit) = &self.unit_expr {
-            if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
+            let is_plain =
+                unit.exponent == 1 && self.storage_type.is_none() && self.brand_type.is_none();
+            if let Some(unit_info) = is_plain
+                .then(|| get_unit_info(&unit.name.to_string()))
+                .flatten()
+            {
                 // Check if it's nonstorage or affine
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
                 let is_affine = unit_info.affine_offset != 0.0;
-- 
2.43.0


From 3a178728affb8eb1dd5833757e51f5a4550a875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 20/33] fix: value! took fahrenheit by name to be kelvin

---
 proc-macros/src/value_macro.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 6eed436..e0906f6 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -144,6 +144,7 @@ impl ValueMacroInput {
             // Find the storage unit (same scale, no offset, conversion_factor == 1.0)
             let storage_unit_symbol = if let Some((unit, dimension)) =
                 Dimension::find_unit_by_symbol(&unit_name)
+                    .or_else(|| Dimension::find_unit_by_name(&unit_name))
             {
                 // Find a storage unit with the same scale
                 if let Some(storage_unit) = dimension.units.iter().find(|u| {
-- 
2.43.0


From da8bc7253de13b77a73132484f33f148dfbfd4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 21/33] fix: units with both factor and offset were read back
 in the wrong order

---
 proc-macros/src/value_macro.rs | 4 ++--
 src/quantity.rs                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index e0906f6..7b4cfbe 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -185,14 +185,14 @@ impl ValueMacroInput {
 
             if is_nonstorage {
                 // Target is nonstorage: rescale to target scale, then apply inverse conversion
-                // Going FROM storage TO nonstorage: divide by conversion_factor, subtract affine_offset
+                // Going FROM storage TO nonstorage: subtract affine_offset, divide by conversion_factor
                 quote! {
                     {
                         const _: () = {
                             #doc_structs
                         };
                         let scaled_value = (whippyunits::api::#rescale_fn(#quantity) as #target_unit_type).unsafe_value;
-                        ((scaled_value as f64 / #conversion_factor) - #affine_offset) as #storage_type_ty
+                        ((scaled_value as f64 - #affine_offset) / #conversion_factor) as #storage_type_ty
                     }
                 }
             } else {
diff --git a/src/quantity.rs b/src/quantity.rs
index 32d928c..5fb8e1e 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -544,10 +544,10 @@ impl<
         let value_with_scale: f64 = self.unsafe_value.into() * scale_conversion_factor;
 
         // 2. Apply inverse of nonstorage conversion (if target is nonstorage)
-        //    Going FROM storage TO nonstorage: divide by conversion_factor, subtract affine_offset
+        //    Going FROM storage TO nonstorage: subtract affine_offset, divide by conversion_factor
         let converted_value = if target_unit_cf != 1.0 || target_unit_af != 0.0 {
             // Target is nonstorage: apply inverse conversion
-            (value_with_scale / target_unit_cf) - target_unit_af
+            (value_with_scale - target_unit_af) / target_unit_cf
         } else {
             // Target is storage unit: no additional conversion needed
             value_with_scale
-- 
2.43.0


From 9db79b60c0380ab799364b9eb44dd1fb3ddcf5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 22/33] fix: fmt took unknown units to be dimensionless

---
 src/quantity.rs      | 28 ++++++++--------------------
 src/serialization.rs |  4 +++-
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index 5fb8e1e..f483670 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -461,7 +461,8 @@ impl<
         T: Copy + Into<f64>,
     {
         use crate::serialization::{
-            calculate_conversion_factor, dimensions_match, parse_ucum_unit,
+            calculate_conversion_factor, calculate_unit_conversion_factors, dimensions_match,
+            parse_ucum_unit,
         };
         use whippyunits_core::{
             dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents,
@@ -509,33 +510,20 @@ impl<
             };
         }
 
-        // Parse the target unit string to get UnitExpr for conversion factor calculation
-        use proc_macro2::TokenStream;
-        use syn::parse_str;
-        use whippyunits_core::{UnitExpr, calculate_unit_conversion_factors};
-
-        // Parse the target unit string into a UnitExpr
-        let target_unit_expr: UnitExpr = match (|| -> Result<UnitExpr, ()> {
-            let token_stream: TokenStream = parse_str(unit).map_err(|_| ())?;
-            syn::parse2(token_stream).map_err(|_| ())
-        })() {
-            Ok(expr) => expr,
+        // Calculate nonstorage unit conversion factors (if any)
+        let (target_unit_cf, target_unit_af) = match calculate_unit_conversion_factors(unit) {
+            Ok(factors) => factors,
             Err(_) => {
-                // Parse error - fall back to scale-only conversion
-                let conversion_factor = calculate_conversion_factor(&source_dims, &target_dims);
-                let converted_value: f64 = self.unsafe_value.into() * conversion_factor;
+                // Unknown unit - return error formatter (no allocation)
                 return QuantityFormatter {
-                    value: converted_value,
+                    value: 0.0,
                     unit,
-                    is_error: false,
+                    is_error: true,
                     error_source_unit: None,
                 };
             }
         };
 
-        // Calculate nonstorage unit conversion factors (if any)
-        let (target_unit_cf, target_unit_af) = calculate_unit_conversion_factors(&target_unit_expr);
-
         // Calculate scale factor conversion (for storage unit scaling)
         let scale_conversion_factor = calculate_conversion_factor(&source_dims, &target_dims);
 
diff --git a/src/serialization.rs b/src/serialization.rs
index ba8572b..99059d9 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -690,7 +690,9 @@ pub fn validate_dimensions(
 /// Calculate conversion factor and affine offset from a parsed unit string
 /// Returns (conversion_factor, affine_offset) for nonstorage units
 /// For storage units, returns (1.0, 0.0)
-fn calculate_unit_conversion_factors(unit_str: &str) -> Result<(f64, f64), SerializationError> {
+pub(crate) fn calculate_unit_conversion_factors(
+    unit_str: &str,
+) -> Result<(f64, f64), SerializationError> {
     use proc_macro2::TokenStream;
     use syn::parse_str;
     use whippyunits_core::{
-- 
2.43.0


From bee64a8d14b7fd1093b77b2ca041c4d1d16cfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 23/33] fix: declarators of liters, hectares and stokes ignored
 the units' inherent scale

---
 .../src/generate_default_declarators_macro.rs | 31 ++++++-------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..6466533 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -351,14 +351,8 @@ impl DefaultDeclaratorsInput {
                 let unit_suffix = whippyunits_core::make_plural(unit.name);
                 let base_fn_name = unit_suffix.to_string();
 
-                // Calculate scale factors for base unit
-                let (base_p2, base_p3, base_p5, base_pi) = if dimension.name == "Mass" {
-                    // Gram has inherent -3 scale factor
-                    (-3i16, 0i16, -3i16, 0i16)
-                } else {
-                    // Other units have 0 inherent scale factor
-                    (0i16, 0i16, 0i16, 0i16)
-                };
+                // Some base units (gram, liter, hectare, stokes) have an inherent scale factor
+                let (base_p2, base_p3, base_p5, base_pi) = Self::extract_scale_factors(unit);
 
                 let base_scale_name_ident = syn::parse_str::<Ident>(&base_scale_name).unwrap();
                 let base_fn_name_ident = syn::parse_str::<Ident>(&base_fn_name).unwrap();
@@ -374,20 +368,13 @@ impl DefaultDeclaratorsInput {
                     // For function names, use the plural form
                     let fn_name = format!("{}{}", prefix.name(), unit_suffix);
 
-                    // Calculate scale factors
-                    let (p2, p3, p5, pi) = if dimension.name == "Mass" {
-                        // Gram has inherent -3 scale factor, so we add the prefix scale factor
-                        let total_scale = -3 + prefix.factor_log10();
-                        (total_scale as i16, 0i16, total_scale as i16, 0i16)
-                    } else {
-                        // Other units have 0 inherent scale factor
-                        (
-                            prefix.factor_log10() as i16,
-                            0i16,
-                            prefix.factor_log10() as i16,
-                            0i16,
-                        )
-                    };
+                    // Add the prefix scale factor to the inherent one
+                    let (p2, p3, p5, pi) = (
+                        base_p2 + prefix.factor_log10(),
+                        base_p3,
+                        base_p5 + prefix.factor_log10(),
+                        base_pi,
+                    );
 
                     let scale_name_ident = syn::parse_str::<Ident>(&scale_name).unwrap();
                     let fn_name_ident = syn::parse_str::<Ident>(&fn_name).unwrap();
-- 
2.43.0


From 3ff70dd04119e0b3786c726da8969febeec1107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 24/33] fix: what followed // in a unit text was skipped as a
 comment

---
 src/serialization.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index 99059d9..a57486e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -651,6 +651,13 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         ));
     }
 
+    // The tokenizer would skip what follows as a comment
+    if ucum_string.contains("//") || ucum_string.contains("/*") {
+        return Err(UcumError::UnknownDimension(DynDimensionExponents([
+            0, 0, 0, 0, 0, 0, 0, 0,
+        ])));
+    }
+
     // Convert the string to a TokenStream for parsing
     let token_stream: TokenStream = parse_str(ucum_string).map_err(|_| {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
-- 
2.43.0


From 1da7b5249d7361a42d5c2a6bb5db59881ed1609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 25/33] fix: get_target_unit_dimensions panicked on deca units
 and prefixed units that take no prefix

---
 src/serialization.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index a57486e..57c732f 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -1362,23 +1362,30 @@ fn lookup_unit_literal_direct(
 /// Check if a unit name is a prefixed base unit (like kg, kW, mm, etc.)
 /// Returns Some((base_unit, prefix)) if it is, None otherwise
 fn is_prefixed_base_unit_direct(unit_name: &str) -> Option<(String, String)> {
-    // Try to strip any prefix from the unit name
-    if let Some((prefix, base)) = SiPrefix::strip_any_prefix_symbol(unit_name) {
-        // Check if the base unit exists
-        if whippyunits_core::Dimension::find_unit_by_symbol(base).is_some() {
-            return Some((String::from(base), String::from(prefix.symbol())));
-        }
-    }
-
-    // Also try stripping prefix from name (not just symbol)
-    if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(unit_name) {
-        // Check if the base unit exists by name
-        if whippyunits_core::Dimension::find_unit_by_name(base).is_some() {
-            return Some((String::from(base), String::from(prefix.symbol())));
-        }
-    }
+    // Only the leading unit of a dimension takes prefixes, and only if it is metric
+    let takes_prefix = |(unit, dimension): (&Unit, &whippyunits_core::Dimension)| {
+        unit.system == whippyunits_core::System::Metric
+            && dimension
+                .units
+                .first()
+                .is_some_and(|first| first.name == unit.name)
+    };
 
-    None
+    // Several prefixes may match (`dag` starts with `d` and `da`): take the one that leaves a unit
+    SiPrefix::ALL.iter().find_map(|prefix| {
+        let base = prefix
+            .strip_prefix_symbol(unit_name)
+            .filter(|base| {
+                whippyunits_core::Dimension::find_unit_by_symbol(base).is_some_and(takes_prefix)
+            })
+            .or_else(|| {
+                // Also try stripping prefix from name (not just symbol)
+                prefix.strip_prefix_name(unit_name).filter(|base| {
+                    whippyunits_core::Dimension::find_unit_by_name(base).is_some_and(takes_prefix)
+                })
+            })?;
+        Some((String::from(base), String::from(prefix.symbol())))
+    })
 }
 
 /// Get unit dimensions for a unit literal using proper whippyunits-core types
-- 
2.43.0


From d83b99f8ca0fab505a234775ebd0195f4fe1a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 26/33] =?UTF-8?q?fix:=20define=5Fgeneric=5Fdimension!=20pa?=
 =?UTF-8?q?nicked=20on=20=CE=B82=20and=20dropped=20exponent=20suffixes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index f3c8c3b..2a19cb3 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -55,6 +55,13 @@ impl DimensionExpr {
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
+            // The suffix of `L^2s` must not be dropped silently
+            if !exponent.suffix().is_empty() {
+                return Err(syn::Error::new(
+                    exponent.span(),
+                    "exponents in dimension expressions cannot have a suffix",
+                ));
+            }
             Ok(DimensionExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
@@ -83,7 +90,7 @@ impl DimensionExpr {
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From 1ff9907bfaa87297b4f46bbc4626a8ba9db24896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 27/33] fix: branded declarators' quantity! and literals
 refused units that are not stored as such (mi, degC, ...)

---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 3930439..a64045e 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -968,10 +968,10 @@ impl DefineBaseUnitsInput {
                 #[macro_export]
                 macro_rules! #prefixed_macro_name {
                     ($value:expr, $unit:expr) => {
-                        <whippyunits::unit!($unit, f64, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, f64, #brand_type)
                     };
                     ($value:expr, $unit:expr, $storage_type:ty) => {
-                        <whippyunits::unit!($unit, $storage_type, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, $storage_type, #brand_type)
                     };
                 }
 
-- 
2.43.0


From 233020af4cd2088bc936f510bbd76ea47033cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 28/33] fix: local quantity! of compound units ignored
 preferences such as Minute or Degree, and refused units by name and pure
 numbers

---
 proc-macros/src/local_unit_type_macro.rs | 93 +++---------------------
 1 file changed, 10 insertions(+), 83 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 204478b..7fb7a3c 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -7,7 +7,7 @@ use syn::{
 };
 use whippyunits_core::dimension_exponents::DynDimensionExponents;
 use whippyunits_core::scale_exponents::ScaleExponents;
-use whippyunits_core::{Dimension, Unit};
+use whippyunits_core::{CapitalizedFmt, Dimension, Unit};
 
 // Import the helper functions from lift_trace
 use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit};
@@ -17,9 +17,12 @@ use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit}
 fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     use whippyunits_core::SiPrefix;
 
+    // Scale type names are the capitalized names of units
+    let is_named = |unit: &Unit| CapitalizedFmt(unit.name).to_string() == scale_type;
+
     // Try to find a unit that matches the scale type name directly
     for unit in Unit::BASES.iter() {
-        if unit.name == scale_type {
+        if is_named(unit) {
             return Some(unit.symbols[0].to_string());
         }
     }
@@ -27,7 +30,7 @@ fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     // Try to find in all dimensions
     for dimension in Dimension::ALL {
         for unit in dimension.units {
-            if unit.name == scale_type {
+            if is_named(unit) {
                 return Some(unit.symbols[0].to_string());
             }
         }
@@ -713,31 +716,6 @@ impl LocalQuantityMacroInput {
         result
     }
 
-    /// Handle prefixed compound unit logic for a single unit
-    fn handle_prefixed_compound_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> Option<TokenStream> {
-        if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-            if let Some((_unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                let dimensions = dimension.exponents;
-                let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-                let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                    .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(&base_symbol).unwrap());
-                return Some(self.generate_compound_unit_quote(
-                    &unit_expr_parsed,
-                    storage_type,
-                    brand_type,
-                    lift_trace_doc_shadows,
-                ));
-            }
-        }
-        None
-    }
-
     /// Handle single unit logic (both prefixed and non-prefixed)
     fn handle_single_unit(
         &self,
@@ -746,63 +724,12 @@ impl LocalQuantityMacroInput {
         brand_type: &Type,
         lift_trace_doc_shadows: &TokenStream,
     ) -> TokenStream {
-        // First try to handle as prefixed compound unit
-        if let Some(quote_result) = self.handle_prefixed_compound_unit(
-            unit_name,
-            storage_type,
-            brand_type,
-            lift_trace_doc_shadows,
-        ) {
-            return quote_result;
+        if crate::utils::unit_suggestions::unknown_unit_error(&self.unit_expr).is_some() {
+            // Unknown unit, generate error with suggestions
+            return self.generate_unknown_unit_error(unit_name);
         }
 
-        // Handle as regular unit - first try direct lookup, then try prefixed units
-        let (_unit, dimension) =
-            if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
-                (unit, dimension)
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_base_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else {
-                // Unknown unit, generate error with suggestions
-                return self.generate_unknown_unit_error(unit_name);
-            };
-
-        let dimensions = dimension.exponents;
-
-        // Check if it's a simple base unit
-        if let Some(scale_ident) = self.get_scale_for_dimensions(dimensions) {
-            self.generate_simple_base_unit_quote(
-                &scale_ident,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        } else {
-            // It's a compound unit - generate the unit expression
-            let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-            let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(unit_name).unwrap());
-            self.generate_compound_unit_quote(
-                &unit_expr_parsed,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        }
+        self.handle_algebraic_expression(storage_type, brand_type, lift_trace_doc_shadows)
     }
 
     /// Handle algebraic expression logic
-- 
2.43.0


From 25fb26151f842fdc6aeaec4e6b692907cc8aa679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 29/33] fix: local quantity! of units that are not stored as
 such (oz, inch, gal, ...) did not compile where the base unit is not rescaled

---
 proc-macros/src/local_unit_type_macro.rs | 12 ++++++++++++
 proc-macros/src/utils/shared_utils.rs    |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 7fb7a3c..cbe1dd8 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -786,6 +786,18 @@ impl LocalQuantityMacroInput {
 
     /// Get the local target type for a single unit identifier (reuses existing lift logic)
     fn get_local_target_type_for_unit(&self, unit_name: &str, storage_type: &Type) -> TokenStream {
+        // Units that are not stored as such (mi, lb, ...) have no declarator type, prefixed or not
+        if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name)
+            .or_else(|| Dimension::find_unit_by_name(unit_name))
+        {
+            if unit.has_conversion() {
+                let unit_expr = self.generate_unit_expression_from_dimensions(dimension.exponents);
+                if let Ok(unit_expr) = syn::parse_str::<syn::Expr>(&unit_expr) {
+                    return quote! { whippyunits::unit!(#unit_expr) };
+                }
+            }
+        }
+
         // Check if this is a time unit that needs conversion (like h → s)
         if let Some(_time_conversion) = self.get_time_unit_conversion(unit_name) {
             // For time units with conversion factors, return the target time unit declarator
diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index bb0d484..5633c24 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -98,7 +98,7 @@ pub fn get_declarator_type_for_exponents(
     // Look for a unit in this dimension that matches the scale exponents
     // We need to find a unit that has the same scale exponents
     for unit in matching_dimension.units {
-        if unit.scale == scale_exponents {
+        if unit.scale == scale_exponents && !unit.has_conversion() {
             // Found a matching unit - generate type name using same logic as default declarators
             let type_name = if unit.system == System::Metric {
                 // For metric units, use the same logic as generate_default_declarators_macro
-- 
2.43.0


From 689209ad6004229d875c9859168679053666b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 30/33] fix: infinities and the extremes of the float range
 printed as NaN or inf

---
 src/print/prettyprint.rs             | 5 +++++
 whippyunits-core/src/storage_unit.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index 3850bd8..c41b762 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -442,12 +442,17 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     if value == 0.0 {
         return "0".to_string();
     }
+    if !value.is_finite() {
+        return value.to_string();
+    }
 
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
     let rounded = (value * scale_factor).round() / scale_factor;
+    // The extremes of the range cannot be scaled there and back
+    let rounded = if rounded.is_finite() { rounded } else { value };
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 693547d..1832126 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -540,12 +540,17 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     if value == 0.0 {
         return "0".to_string();
     }
+    if !value.is_finite() {
+        return value.to_string();
+    }
 
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
     let rounded = (value * scale_factor).round() / scale_factor;
+    // The extremes of the range cannot be scaled there and back
+    let rounded = if rounded.is_finite() { rounded } else { value };
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
-- 
2.43.0


From 95ea526a833f875516d9f1fc7492ca5b16d62e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 31/33] fix: a unit whose scale no listed unit has printed as
 the base unit (1 kHz as Hz)

---
 whippyunits-core/src/storage_unit.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 1832126..974b11f 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -251,23 +251,13 @@ pub fn lookup_unit_literal_by_scale_factors(
     ]);
 
     if let Some(dimension) = Dimension::find_dimension_by_exponents(dyn_exponents) {
-        // First, try to find a unit that matches the exact scale factors
-        // This is the preferred approach - use exact matches when possible
-        if let Some(exact_unit) = dimension.units.iter().find(|unit| {
-            unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
-        }) {
-            return Some(if long_name {
-                exact_unit.name
-            } else {
-                exact_unit.symbols[0]
-            });
-        }
-
-        // If no exact match found, fall back to base unit (identity scale)
+        // Only a unit that matches the exact scale factors denotes this scale
         dimension
             .units
             .iter()
-            .find(|unit| unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0)
+            .find(|unit| {
+                unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
+            })
             .map(|unit| {
                 if long_name {
                     unit.name
-- 
2.43.0


From 9ccbc65a2346aa0af0d90c41343066659cdd052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 32/33] fix: printed prefixes and unit scales were not raised
 to the unit's exponent (1 km^4 printed as kilo of m^4, min^2 as min, g^2 off
 by 1000)

---
 whippyunits-core/src/storage_unit.rs | 175 ++++++++++-----------------
 1 file changed, 62 insertions(+), 113 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 974b11f..a012763 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -334,71 +334,30 @@ pub fn lookup_dimension_name(exponents: Vec<i16>) -> Option<DimensionNames> {
 
 /// Generate prefixed systematic unit
 pub fn generate_prefixed_systematic_unit(
-    _exponents: DynDimensionExponents,
+    exponents: DynDimensionExponents,
     scale_factors: ScaleExponents,
     base_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
     // Check if this is a pure unit (not compound)
     let is_pure_unit = !base_unit.contains("·");
 
-    // For pure units, check if we need to apply base scale offset
-    let effective_scale_p10 = if is_pure_unit {
-        // Find the base scale offset by looking up the unit's scale from whippyunits-core
-        // The base_unit comes from systematic unit name generation, so it should always be valid
-        let base_scale_offset = Dimension::find_unit_by_symbol(base_unit)
-            .or_else(|| Dimension::find_unit_by_name(base_unit))
-            .map(|(_unit, _dimension)| _unit.scale.log10().unwrap_or(0))
-            .unwrap_or(0);
-
-        // Apply the base scale offset to the scale calculation
-        // The base scale offset represents the offset of the base unit (e.g., gram = -3)
-        // We need to subtract it from the total scale to get the effective scale
-        total_scale_p10 - base_scale_offset
-    } else {
-        // For compound units, don't apply base scale offset to the aggregate prefix
-        // The individual parts already have their base scale offsets applied
-        total_scale_p10
-    };
-
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
-        // For pure powers of base units, add disambiguating parentheses
-        if !base_unit.contains("·")
-            && (base_unit.contains("^") || base_unit.contains("²") || base_unit.contains("³"))
-        {
-            format!("{}({})", prefix, base_unit)
+    // For pure units, the base unit may have a scale of its own (e.g., gram = -3), which is
+    // raised to the unit's exponent; only the rest of the scale is left to be written.
+    // For compound units, the individual parts already have their base scale offsets applied.
+    let relative_scale = if is_pure_unit {
+        let atom = base_unit.trim_end_matches(is_superscript);
+        let exponent = if atom.len() == base_unit.len() {
+            1
         } else {
-            format!("{}{}", prefix, base_unit)
-        }
+            exponents.0.iter().copied().find(|&exp| exp != 0).unwrap_or(1)
+        };
+        scale_relative_to_unit(scale_factors, atom, exponent)
     } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
+        scale_factors
+    };
 
-        if is_pure_power_of_10 {
-            // Fall back to SI unit with 10^n notation when SI prefix lookup fails
-            generate_si_unit_with_scale(effective_scale_p10, base_unit, long_name)
-        } else {
-            // Not a pure power of 10, show the scale factors explicitly
-            let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
-            );
-            if scale_factors_str.is_empty() {
-                base_unit.to_string()
-            } else {
-                format!("{}{}", scale_factors_str, base_unit)
-            }
-        }
-    }
+    apply_scale(relative_scale, base_unit, long_name)
 }
 
 /// Generate prefixed SI unit
@@ -407,71 +366,56 @@ pub fn generate_prefixed_si_unit(
     base_si_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
+    // The base unit may have a scale of its own (same logic as generate_prefixed_systematic_unit)
+    apply_scale(
+        scale_relative_to_unit(scale_factors, base_si_unit, 1),
+        base_si_unit,
+        long_name,
+    )
+}
 
-    // Apply base scale offset for mass units (same logic as generate_prefixed_systematic_unit)
-    let effective_scale_p10 =
-        if let Some((_unit, _dimension)) = Dimension::find_unit_by_symbol(base_si_unit) {
-            // Get the base scale offset from the unit's scale (systematic approach)
-            let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-            total_scale_p10 - base_scale_offset
-        } else {
-            // Fallback: try to find by name if symbol lookup fails
-            if let Some((_unit, _dimension)) = Dimension::find_unit_by_name(base_si_unit) {
-                let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-                total_scale_p10 - base_scale_offset
-            } else {
-                // No base scale offset found, use total scale as-is
-                total_scale_p10
-            }
-        };
+/// Whether a character belongs to a Unicode superscript exponent
+fn is_superscript(c: char) -> bool {
+    "⁻⁰¹²³⁴⁵⁶⁷⁸⁹ˀ".contains(c)
+}
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
-        // For pure powers of base units, add disambiguating parentheses
-        if !base_si_unit.contains("·")
-            && (base_si_unit.contains("^")
-                || base_si_unit.contains("²")
-                || base_si_unit.contains("³"))
-        {
-            format!("{}({})", prefix, base_si_unit)
-        } else {
-            format!("{}{}", prefix, base_si_unit)
-        }
-    } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
+/// What is left of a scale when the given unit, raised to the exponent, is factored out
+fn scale_relative_to_unit(scale: ScaleExponents, unit: &str, exponent: i16) -> ScaleExponents {
+    let unit_scale = Dimension::find_unit_by_symbol(unit)
+        .or_else(|| Dimension::find_unit_by_name(unit))
+        .map(|(unit, _dimension)| unit.scale)
+        .unwrap_or(ScaleExponents::IDENTITY);
+    let mut relative = scale;
+    for (left, own) in relative.0.iter_mut().zip(unit_scale.0) {
+        *left = left.saturating_sub(own.saturating_mul(exponent));
+    }
+    relative
+}
 
-        if is_pure_power_of_10 {
-            // Fall back to SI unit with 10^n notation when SI prefix lookup fails
-            generate_si_unit_with_scale(effective_scale_p10, base_si_unit, long_name)
+/// Write a scale in front of a unit: as an SI prefix, as a power of ten or as a number
+fn apply_scale(scale: ScaleExponents, base_unit: &str, long_name: bool) -> String {
+    let Some(scale_p10) = scale.log10() else {
+        // Not a pure power of 10, show the scale factors explicitly
+        return format!(
+            "{}{}",
+            format_scale_factors(scale.0[0], scale.0[1], scale.0[2], scale.0[3]),
+            base_unit
+        );
+    };
+
+    if let Some(prefix) = get_si_prefix(scale_p10, long_name) {
+        // For powers of base units, add disambiguating parentheses
+        if !base_unit.contains("·") && base_unit.ends_with(is_superscript) {
+            format!("{}({})", prefix, base_unit)
         } else {
-            // Not a pure power of 10, show the scale factors explicitly
-            let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
-            );
-            if scale_factors_str.is_empty() {
-                base_si_unit.to_string()
-            } else {
-                format!("{}{}", scale_factors_str, base_si_unit)
-            }
+            format!("{}{}", prefix, base_unit)
         }
+    } else {
+        // Fall back to 10^n notation when SI prefix lookup fails
+        generate_si_unit_with_scale(scale_p10, base_unit, long_name)
     }
 }
 
-/// Calculate total power of 10 using whippyunits-core ScaleExponents
-fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> i16 {
-    let scale_exponents = ScaleExponents([scale_p2, scale_p3, scale_p5, scale_pi]);
-    scale_exponents.log10().unwrap_or(0)
-}
-
 /// Generate SI unit with 10^n notation when no standard prefix is available
 fn generate_si_unit_with_scale(
     total_scale_p10: i16,
@@ -616,10 +560,15 @@ pub fn generate_systematic_composite_unit_name_with_scale(
                 let matched_unit = if let Some(scale) = scale_factors {
                     // For compound units, try to match the aggregate scale factors
                     // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
+                    // (the unit is written raised to the exponent, so its scale has to be as well)
                     dimension
                         .units
                         .iter()
-                        .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
+                        .find(|unit| {
+                            (0..4).all(|i| {
+                                i32::from(scale.0[i]) == i32::from(unit.scale.0[i]) * i32::from(exp)
+                            }) && unit.conversion_factor == 1.0
+                        })
                         // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
                         .or_else(|| {
                             if scale == ScaleExponents::IDENTITY {
-- 
2.43.0


From a217b426f189dbc773a27c7abb90565218b2fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 33/33] fix: integer rescaling wrapped results too large for
 the storage type in builds without overflow checks

---
 src/scale_conversion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index cc2991c..60f5f4e 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -239,7 +239,7 @@ macro_rules! _define_int_rescale {
                 let value = value as i128;
                 let wide = match value.checked_mul(num) {
                     Some(product) => product / den,
-                    None => (value / den) * num,
+                    None => (value / den).checked_mul(num).expect("rescaled value overflows its storage type"),
                 };
                 assert!((wide as $T) as i128 == wide, "rescaled value overflows its storage type");
                 wide as $T
@@ -253,7 +253,7 @@ macro_rules! _define_int_rescale {
                     // Safe to multiply first
                     Some(product) => product / den,
                     // Overflow: divide first to reduce intermediate value
-                    None => (value / den) * num,
+                    None => (value / den).checked_mul(num).expect("rescaled value overflows its storage type"),
                 }
             };
 
-- 
2.43.0

