From d2641d46330e6a894191b87146628e0fcb46a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 1/9] fix: do not read the NTT table cache while another thread
 inserts into it

---
 algebra_derive/src/ntt.rs | 50 +++++++++------------------------------
 1 file changed, 11 insertions(+), 39 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..ff4c4b0 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -39,7 +39,6 @@ fn impl_ntt(input: Input) -> TokenStream {
     let root = quote! {::algebra::modulus::ShoupFactor<<Self as ::algebra::Field>::Value>};
 
     let ntt_table = format_ident!("NTT_TABLE{}", name.to_string().to_uppercase());
-    let ntt_mutex = format_ident!("NTT_MUTEX{}", name.to_string().to_uppercase());
 
     let from_root = impl_from_root(modulus_value);
     let to_root = impl_to_root(modulus_value, &modulus);
@@ -48,9 +47,8 @@ fn impl_ntt(input: Input) -> TokenStream {
     let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table);
 
     quote! {
-        static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
-            = ::once_cell::sync::OnceCell::new();
-        static #ntt_mutex: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());
+        static #ntt_table: ::once_cell::sync::Lazy<::std::sync::RwLock<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>>
+            = ::once_cell::sync::Lazy::new(::std::default::Default::default);
 
         impl ::std::convert::From<usize> for #name {
             #[inline]
@@ -147,49 +145,23 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(tables) = unsafe { #ntt_table.get() } {
-                    if let Some(t) = tables.get(&log_n) {
-                        return Ok(::std::sync::Arc::clone(t));
-                    }
+                if let Some(t) = #ntt_table.read().unwrap().get(&log_n) {
+                    return Ok(::std::sync::Arc::clone(t));
                 }
 
                 Self::init_ntt_table(&[log_n])?;
-                Ok(::std::sync::Arc::clone(unsafe {
-                    #ntt_table.get().unwrap().get(&log_n).unwrap()
-                }))
+                Ok(::std::sync::Arc::clone(#ntt_table.read().unwrap().get(&log_n).unwrap()))
             }
 
             fn init_ntt_table(log_ns: &[u32]) -> Result<(), ::algebra::AlgebraError> {
-                let _g = #ntt_mutex.lock().unwrap();
-                match unsafe { #ntt_table.get_mut() } {
-                    Some(tables) => {
-                        let new_log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let old_log_ns: ::std::collections::HashSet<u32> = tables.keys().copied().collect();
-                        let difference = new_log_ns.difference(&old_log_ns);
-
-                        for &log_n in difference {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            tables.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        Ok(())
-                    }
-                    None => {
-                        let log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let mut map = ::std::collections::HashMap::with_capacity(log_ns.len());
-
-                        for log_n in log_ns {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            map.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        if unsafe { #ntt_table.set(map).is_err() } {
-                            Err(::algebra::AlgebraError::NTTTableError)
-                        } else {
-                            Ok(())
-                        }
+                let mut tables = #ntt_table.write().unwrap();
+                for &log_n in log_ns {
+                    if !tables.contains_key(&log_n) {
+                        let temp_table = Self::generate_ntt_table(log_n)?;
+                        tables.insert(log_n, ::std::sync::Arc::new(temp_table));
                     }
                 }
+                Ok(())
             }
         }
     }
-- 
2.43.0


From d603cdb0886ab3e5a14822a6ee47f9121c137606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 2/9] fix: answer unsupported table sizes with an error and
 keep the cache usable after a panic

---
 algebra_derive/src/ntt.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index ff4c4b0..5dc5af2 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -145,16 +145,17 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(t) = #ntt_table.read().unwrap().get(&log_n) {
+                if let Some(t) = #ntt_table.read().unwrap_or_else(::std::sync::PoisonError::into_inner).get(&log_n) {
                     return Ok(::std::sync::Arc::clone(t));
                 }
 
                 Self::init_ntt_table(&[log_n])?;
-                Ok(::std::sync::Arc::clone(#ntt_table.read().unwrap().get(&log_n).unwrap()))
+                Ok(::std::sync::Arc::clone(#ntt_table.read().unwrap_or_else(::std::sync::PoisonError::into_inner).get(&log_n).unwrap()))
             }
 
             fn init_ntt_table(log_ns: &[u32]) -> Result<(), ::algebra::AlgebraError> {
-                let mut tables = #ntt_table.write().unwrap();
+                // only complete tables are ever inserted, so a panic while generating one leaves the map intact
+                let mut tables = #ntt_table.write().unwrap_or_else(::std::sync::PoisonError::into_inner);
                 for &log_n in log_ns {
                     if !tables.contains_key(&log_n) {
                         let temp_table = Self::generate_ntt_table(log_n)?;
@@ -310,11 +311,19 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
         ModulusValue::U8(_) | ModulusValue::U16(_) => {
             quote! {
                 fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+                    let degree: Self::Degree = log_n
+                        .checked_add(1)
+                        .and_then(|power| 1usize.checked_shl(power))
+                        .and_then(|degree| degree.try_into().ok())
+                        .ok_or_else(|| ::algebra::AlgebraError::NoPrimitiveRoot {
+                            degree: format!("2^{}", log_n as u64 + 1),
+                            modulus: <Self as ::algebra::Field>::MODULUS_VALUE.to_string(),
+                        })?;
                     let n = 1usize << log_n;
 
                     let root_one = Self(1).to_root();
 
-                    let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+                    let root = Self::try_minimal_primitive_root(degree)?;
 
                     let root_factor = root.to_root();
                     let mut power = root;
@@ -341,11 +350,19 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
     #[cfg(not(feature = "concrete-ntt"))]
     quote! {
         fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+            let degree: Self::Degree = log_n
+                .checked_add(1)
+                .and_then(|power| 1usize.checked_shl(power))
+                .and_then(|degree| degree.try_into().ok())
+                .ok_or_else(|| ::algebra::AlgebraError::NoPrimitiveRoot {
+                    degree: format!("2^{}", log_n as u64 + 1),
+                    modulus: <Self as ::algebra::Field>::MODULUS_VALUE.to_string(),
+                })?;
             let n = 1usize << log_n;
 
             let root_one = Self(1).to_root();
 
-            let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+            let root = Self::try_minimal_primitive_root(degree)?;
 
             let root_factor = root.to_root();
             let mut power = root;
-- 
2.43.0


From 69fdd3db17dcfec39878ed4f84c0e035a823f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 3/9] fix: inverse transform of size one

---
 algebra/src/transformation/ntt_table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..2cebc42 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -339,6 +339,11 @@ where
             }
         }
 
+        if log_n == 0 {
+            values.iter_mut().for_each(intt_normalize_assign);
+            return;
+        }
+
         let roots = self.inv_root_powers();
         let mut root_iter = roots[1..].iter().copied();
 
-- 
2.43.0


From 48c53f027facd6278aa863ab32e9afd1c2b3870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 4/9] fix: primality check must not stop at the first base that
 squares to -1

---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From c92a68922467ba30018baaa0e475db947e9b0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 5/9] fix: decompose_at must overwrite the higher digits too

---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From 81eed002f6dc632588bfcd78420e27bb0030d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 6/9] fix: gadget samples must not compute a basis power beyond
 the last one

---
 lattice/src/gadget/rlwe.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lattice/src/gadget/rlwe.rs b/lattice/src/gadget/rlwe.rs
index 0ab7562..e55ea63 100644
--- a/lattice/src/gadget/rlwe.rs
+++ b/lattice/src/gadget/rlwe.rs
@@ -182,13 +182,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.b_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.b_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 
@@ -206,13 +210,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.a_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.a_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 }
-- 
2.43.0


From a01f7cd53cef01b2bdddc1138ab4775f1a86e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 7/9] fix: dot product modulo a Barrett modulus must include
 the last partial block

---
 algebra/src/modulus/barrett/internal_macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..6bbec60 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,8 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From c44e2f524c2b82696e7782185b88e1b3ed2b30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:09 +0000
Subject: [PATCH 8/9] fix: samplers with deviation zero must terminate

---
 algebra/src/random.rs       | 2 +-
 lattice/src/utils/sample.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 80b4634..df7e77d 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -204,7 +204,7 @@ impl<F: Field> Distribution<F> for FieldDiscreteGaussianSampler {
         let gaussian = self.gaussian();
         loop {
             let value = gaussian.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return F::new(F::MODULUS_VALUE - (-round).as_into());
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index 6b891bc..b02c1f8 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -140,7 +140,7 @@ where
         let mean = self.normal.mean();
         loop {
             let value = self.normal.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return self.modulus - T::as_from(-round);
-- 
2.43.0


From 877b42e5f81f10614088871155697899e156ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 9/9] fix: a failed first draw of system entropy must not
 poison the table map

HashMap seeds itself from the system; done inside the once_cell initialiser, a
failure there left the field without NTT tables for the rest of the process.
---
 algebra_derive/src/ntt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 5dc5af2..1386e24 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -47,7 +47,7 @@ fn impl_ntt(input: Input) -> TokenStream {
     let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table);
 
     quote! {
-        static #ntt_table: ::once_cell::sync::Lazy<::std::sync::RwLock<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>>
+        static #ntt_table: ::once_cell::sync::Lazy<::std::sync::RwLock<::std::collections::BTreeMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>>
             = ::once_cell::sync::Lazy::new(::std::default::Default::default);
 
         impl ::std::convert::From<usize> for #name {
-- 
2.43.0

