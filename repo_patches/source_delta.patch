From 249044825d38111e7309928d566fcbc20d41f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:43 +0000
Subject: [PATCH 01/17] fix: skip #[revision(specialised)] fields in their bulk
 encoding

A legacy-encoded field marked `specialised` is always written in the bulk
form, but the generated skip went through `Vec<T>::skip_revisioned`, which
only matches that form when the `specialised-vectors` feature is enabled.
---
 revision-derive/src/expand/skip.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/skip.rs b/revision-derive/src/expand/skip.rs
index 8df2522..c41d63b 100644
--- a/revision-derive/src/expand/skip.rs
+++ b/revision-derive/src/expand/skip.rs
@@ -6,7 +6,7 @@ use syn::Ident;
 
 use crate::ast::{Enum, Fields, Struct, Variant, Visit};
 
-use super::common::{CalcDiscriminant, emit_skip_fixed_le};
+use super::common::{CalcDiscriminant, emit_deserialize_specialised, emit_skip_fixed_le};
 use super::context::EncodingContext;
 use super::optimised;
 
@@ -157,6 +157,10 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							// Always bulk-encoded, whether or not `Vec<T>` itself is.
+							let decode = emit_deserialize_specialised(ty, &quote! { reader });
+							quote! { drop(#decode); }
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
@@ -174,6 +178,10 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							// Always bulk-encoded, whether or not `Vec<T>` itself is.
+							let decode = emit_deserialize_specialised(ty, &quote! { reader });
+							quote! { drop(#decode); }
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
-- 
2.43.0


From 595f0b28bac35df54d7c26fb5e8f54cd944b3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:31 +0000
Subject: [PATCH 02/17] fix: decode removed indexed_* fields of optimised
 structs in their indexed encoding

---
 .../src/expand/optimised/struct_codegen.rs    | 29 +++++--------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index 4153531..f0f297d 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -146,9 +146,9 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 	let mut decode_each = TokenStream::new();
 	let mut bindings_for_construction: Vec<proc_macro2::TokenStream> = Vec::new();
 
-	// First handle fields that exist at `target`:
-	// - if they also exist at `current`, decode from wire
-	// - if absent at `current`, synthesize via default_fn or Default
+	// - fields that exist at `current` are decoded from wire; those removed by
+	//   `target` are passed to their convert_fn after construction (below)
+	// - fields that exist at `target` only are synthesized via default_fn or Default
 	let all_fields = collect_fields(s);
 	for f in &all_fields {
 		let exists_current = f.attrs.options.exists_at(current);
@@ -156,7 +156,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 		let binding = f.name.to_binding();
 		let ty = &f.ty;
 
-		if exists_current && exists_target {
+		if exists_current {
 			let decode = if f.attrs.options.indexed_map {
 				quote! {
 					let #binding: #ty =
@@ -178,8 +178,10 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 				}
 			};
 			decode_each.append_all(decode);
-			bindings_for_construction.push(quote! { #binding });
-		} else if !exists_current && exists_target {
+			if exists_target {
+				bindings_for_construction.push(quote! { #binding });
+			}
+		} else if exists_target {
 			// Field added later — synthesize.
 			let default = if let Some(default_fn) = &f.attrs.options.default {
 				let ident = syn::Ident::new(&default_fn.value(), default_fn.span());
@@ -192,21 +194,6 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 				let #binding: #ty = #default;
 			});
 			bindings_for_construction.push(quote! { #binding });
-		} else if exists_current && !exists_target {
-			// Field on wire but removed in current type — decode and pass to convert_fn.
-			let convert = f
-				.attrs
-				.options
-				.convert
-				.as_ref()
-				.expect("convert_fn required when `end` is set; checked by AST validation");
-			let convert_ident = syn::Ident::new(&convert.value(), convert.span());
-			let rev_lit = current as u16;
-			decode_each.append_all(quote! {
-				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-			});
-			// Apply convert_fn after construction (handled below via __post_construct).
-			let _ = (convert_ident, rev_lit);
 		}
 		// !exists_current && !exists_target: nothing to do at this revision.
 	}
-- 
2.43.0


From e28e0432b910cbd2a334e42415b2570bc3117cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:17 +0000
Subject: [PATCH 03/17] fix: reject optimised tags with the reserved
 extended-tag bit set

Bit 7 of the tag byte is documented as 'must be 0', but every decoder masked
it away, so 0x80|tag was read as if it were tag.
---
 src/optimised/tag.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimised/tag.rs b/src/optimised/tag.rs
index fb7105e..697283e 100644
--- a/src/optimised/tag.rs
+++ b/src/optimised/tag.rs
@@ -83,9 +83,13 @@ impl Tag {
 		self.0 & VARIANT_ID_MASK
 	}
 
-	/// Size class (bits 5..=6). Returns an error if the reserved `0b11` is observed.
+	/// Size class (bits 5..=6). Returns an error if the reserved `0b11` or the
+	/// reserved extended-tag bit (bit 7) is observed.
 	#[inline]
 	pub const fn size_class(self) -> Result<SizeClass, Error> {
+		if self.is_extended() {
+			return Err(Error::InvalidOptimisedTag(self.0));
+		}
 		match SizeClass::from_bits((self.0 & SIZE_CLASS_MASK) >> SIZE_CLASS_SHIFT) {
 			Ok(sc) => Ok(sc),
 			Err(()) => Err(Error::InvalidOptimisedTag(self.0)),
-- 
2.43.0


From 4bddae6ad0f379988c179968279265c356fdcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 04/17] fix: bool is written with write_all, so a short write
 is an error

---
 src/implementations/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index 6645e8c..fc2f9d9 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -143,7 +143,7 @@ impl SerializeRevisioned for bool {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
 		let v = *self as u8;
-		w.write(&[v]).map_err(Error::Io)?;
+		w.write_all(&[v]).map_err(Error::Io)?;
 		Ok(())
 	}
 }
-- 
2.43.0


From aa6f638091b03913385a6201adf9ddad81c20080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 05/17] fix: reject repeated serialize/deserialize options and
 repeated variant overrides

---
 revision-derive/src/ast/attributes.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/revision-derive/src/ast/attributes.rs b/revision-derive/src/ast/attributes.rs
index d5748f9..78fc0ab 100644
--- a/revision-derive/src/ast/attributes.rs
+++ b/revision-derive/src/ast/attributes.rs
@@ -520,8 +520,8 @@ impl AttributeOptions for ItemOptions {
 
 	fn finish(path: Span, options: Vec<Self::Option>) -> syn::Result<Self> {
 		let mut revision = None;
-		let mut serialize = true;
-		let mut deserialize = true;
+		let mut serialize = None;
+		let mut deserialize = None;
 		let mut skip = None;
 		let mut walk = None;
 		let mut new_entries: Vec<HistoryEntry> = Vec::new();
@@ -543,10 +543,16 @@ impl AttributeOptions for ItemOptions {
 					new_entries.push(build_history_entry(group)?);
 				}
 				ItemOption::Serialize(x) => {
-					serialize = x.value.value();
+					if serialize.is_some() {
+						return Err(Error::new(x.key.span(), "tried to set an option twice"));
+					}
+					serialize = Some(x.value.value());
 				}
 				ItemOption::Deserialize(x) => {
-					deserialize = x.value.value();
+					if deserialize.is_some() {
+						return Err(Error::new(x.key.span(), "tried to set an option twice"));
+					}
+					deserialize = Some(x.value.value());
 				}
 				ItemOption::Skip(x) => {
 					if skip.is_some() {
@@ -570,8 +576,8 @@ impl AttributeOptions for ItemOptions {
 		Ok(Self {
 			revision: current,
 			history,
-			serialize,
-			deserialize,
+			serialize: serialize.unwrap_or(true),
+			deserialize: deserialize.unwrap_or(true),
 			skip,
 			walk,
 		})
@@ -814,7 +820,12 @@ impl AttributeOptions for VariantOptions {
 						));
 					};
 					let revision = revision.value;
-					res.overrides.insert(revision, overrides);
+					if res.overrides.insert(revision, overrides).is_some() {
+						return Err(Error::new(
+							x.key.span(),
+							"tried to override the same revision twice",
+						));
+					}
 				}
 			}
 		}
-- 
2.43.0


From e3c075d5628087ca7bd47aa4e1f22fdd93a16af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 06/17] fix: reject empty lifetimes and overrides outside the
 revision history

---
 .../src/expand/validate_version.rs            | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/validate_version.rs b/revision-derive/src/expand/validate_version.rs
index 56b4a9c..c866a27 100644
--- a/revision-derive/src/expand/validate_version.rs
+++ b/revision-derive/src/expand/validate_version.rs
@@ -1,11 +1,28 @@
 use std::collections::HashMap;
 
+use crate::ast::attributes::SpannedLit;
 use crate::ast::history::HistoryEntry;
 use crate::ast::{self, Visit};
 
 use super::common::CalcDiscriminant;
 
 pub struct ValidateRevision(pub usize);
+
+/// Revisions start at 1, so a lifetime whose end is not past its start is empty.
+fn validate_lifetime(
+	start: Option<&SpannedLit<usize>>,
+	end: Option<&SpannedLit<usize>>,
+) -> syn::Result<()> {
+	let start = start.map_or(1, |s| s.value.max(1));
+	match end {
+		Some(end) if end.value <= start => Err(syn::Error::new(
+			end.span,
+			"the ending revision must be larger than the starting revision",
+		)),
+		_ => Ok(()),
+	}
+}
+
 impl<'ast> Visit<'ast> for ValidateRevision {
 	fn visit_field(&mut self, i: &'ast ast::Field) -> syn::Result<()> {
 		if let Some(s) = i.attrs.options.start.as_ref()
@@ -18,7 +35,7 @@ impl<'ast> Visit<'ast> for ValidateRevision {
 		{
 			return Err(syn::Error::new(s.span, "used revision exceededs current revision"));
 		}
-		Ok(())
+		validate_lifetime(i.attrs.options.start.as_ref(), i.attrs.options.end.as_ref())
 	}
 
 	fn visit_variant(&mut self, i: &'ast ast::Variant) -> syn::Result<()> {
@@ -32,6 +49,15 @@ impl<'ast> Visit<'ast> for ValidateRevision {
 		{
 			return Err(syn::Error::new(s.span, "used revision exceededs current revision"));
 		}
+		validate_lifetime(i.attrs.options.start.as_ref(), i.attrs.options.end.as_ref())?;
+		for s in i.attrs.options.overrides.values().filter_map(|x| x.revision.as_ref()) {
+			if s.value == 0 || s.value > self.0 {
+				return Err(syn::Error::new(
+					s.span,
+					"override applies to a revision outside the revision history",
+				));
+			}
+		}
 		ast::visit_variant(self, i)
 	}
 }
-- 
2.43.0


From 89f685f684ab23c3334e18af8bf3481f4010a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 07/17] fix: reject inline variants with fields at any
 optimised revision

---
 .../src/expand/validate_version.rs            | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/validate_version.rs b/revision-derive/src/expand/validate_version.rs
index c866a27..2dd11ca 100644
--- a/revision-derive/src/expand/validate_version.rs
+++ b/revision-derive/src/expand/validate_version.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::ast::attributes::SpannedLit;
+use crate::ast::attributes::{SpannedLit, VariantSize};
 use crate::ast::history::HistoryEntry;
 use crate::ast::{self, Visit};
 
@@ -68,6 +68,7 @@ impl<'ast> Visit<'ast> for ValidateRevision {
 /// - Every variant alive at an optimised revision declares a `size = "..."`
 ///   class.
 /// - At most 32 alive variants per optimised revision (5-bit variant id).
+/// - A variant declared `inline` has no fields alive at that revision.
 /// - Variant discriminants under optimised fit in 5 bits (max 31).
 ///
 /// Runs once per item, against every optimised entry in the history. Errors
@@ -108,6 +109,29 @@ impl<'a> ValidateOptimised<'a> {
 					"variant requires `#[revision(size = \"inline\" | \"fixed(N)\" | \"varlen\")]` under `encoding = \"optimised\"`",
 				));
 			}
+			if let Some(size) = v.attrs.options.size.as_ref()
+				&& size.size == VariantSize::Inline
+			{
+				let alive_fields = match &v.fields {
+					ast::Fields::Named {
+						fields,
+						..
+					}
+					| ast::Fields::Unnamed {
+						fields,
+						..
+					} => fields.iter().filter(|f| f.attrs.options.exists_at(rev)).count(),
+					ast::Fields::Unit => 0,
+				};
+				if alive_fields != 0 {
+					return Err(syn::Error::new(
+						size.span,
+						format!(
+							"variant marked `size = \"inline\"` must have no fields alive at revision {rev}",
+						),
+					));
+				}
+			}
 		}
 
 		let mut discs = HashMap::new();
-- 
2.43.0


From 32a92b0966e481f6d911068a04f70886d36bf8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 08/17] fix: report an oversized element of an indexed
 container instead of truncating its length

---
 src/optimised/indexed/serialize.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index f249083..63e681b 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -242,7 +242,7 @@ where
 	let mut off = 0u32;
 	for b in &bodies {
 		writer.write_all(&off.to_le_bytes()).map_err(Error::Io)?;
-		off = off.checked_add(b.len() as u32).ok_or_else(|| {
+		off = u32::try_from(b.len()).ok().and_then(|n| off.checked_add(n)).ok_or_else(|| {
 			Error::Serialize("indexed set element region exceeds u32::MAX".into())
 		})?;
 	}
@@ -618,11 +618,13 @@ where
 	for (kb, vb) in keys.iter().zip(vals.iter()) {
 		k_offsets.push(k_off);
 		v_offsets.push(v_off);
-		k_off = k_off
-			.checked_add(kb.len() as u32)
+		k_off = u32::try_from(kb.len())
+			.ok()
+			.and_then(|n| k_off.checked_add(n))
 			.ok_or_else(|| Error::Serialize("indexed map key region exceeds u32::MAX".into()))?;
-		v_off = v_off
-			.checked_add(vb.len() as u32)
+		v_off = u32::try_from(vb.len())
+			.ok()
+			.and_then(|n| v_off.checked_add(n))
 			.ok_or_else(|| Error::Serialize("indexed map value region exceeds u32::MAX".into()))?;
 	}
 
@@ -704,8 +706,9 @@ where
 	let mut off = 0u32;
 	for b in &bodies {
 		writer.write_all(&off.to_le_bytes()).map_err(Error::Io)?;
-		off = off
-			.checked_add(b.len() as u32)
+		off = u32::try_from(b.len())
+			.ok()
+			.and_then(|n| off.checked_add(n))
 			.ok_or_else(|| Error::Serialize("indexed seq exceeds u32::MAX".into()))?;
 	}
 	for b in &bodies {
-- 
2.43.0


From e94063d3908329a3c72f9f72fe531ae2af29ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 09/17] fix: do not truncate the region length offsets are
 validated against

---
 src/optimised/indexed/seq_walk.rs    | 4 +++-
 src/optimised/indexed/struct_walk.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optimised/indexed/seq_walk.rs b/src/optimised/indexed/seq_walk.rs
index 53ebe61..ef60c38 100644
--- a/src/optimised/indexed/seq_walk.rs
+++ b/src/optimised/indexed/seq_walk.rs
@@ -115,7 +115,9 @@ impl<'p, T> IndexedSeqWalker<'p, T> {
 		cursor += table_bytes;
 		let body = &payload[cursor..];
 		if validate {
-			validate_seq_prologue(offsets, len, body.len() as u32)?;
+			// Offsets are `u32`, so a longer body bounds them no further than `u32::MAX`.
+			let body_len = u32::try_from(body.len()).unwrap_or(u32::MAX);
+			validate_seq_prologue(offsets, len, body_len)?;
 		}
 		Ok(Self {
 			body,
diff --git a/src/optimised/indexed/struct_walk.rs b/src/optimised/indexed/struct_walk.rs
index 7ef89e3..60ad677 100644
--- a/src/optimised/indexed/struct_walk.rs
+++ b/src/optimised/indexed/struct_walk.rs
@@ -74,7 +74,9 @@ impl<'p> IndexedStructWalker<'p> {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let count = field_count as usize;
-		validate_struct_prologue(&payload[..prologue_bytes], count, 4, payload.len() as u32)?;
+		// Offsets are `u32`, so a longer payload bounds them no further than `u32::MAX`.
+		let payload_len = u32::try_from(payload.len()).unwrap_or(u32::MAX);
+		validate_struct_prologue(&payload[..prologue_bytes], count, 4, payload_len)?;
 		// First offset must point at start of body (`prologue_bytes`).
 		if count > 0 {
 			let first = crate::optimised::validation::decode_u32_le_at(payload, 0);
-- 
2.43.0


From a86cd40c5fde78ce3d4861302a7dd416ee3e64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 10/17] fix: decoding usize or isize reports a value the
 platform cannot hold

---
 src/implementations/primitives.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index fc2f9d9..85d8346 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -180,7 +180,8 @@ impl DeserializeRevisioned for usize {
 	where
 		Self: Sized,
 	{
-		u64::deserialize_revisioned(r).map(|x| x as usize)
+		u64::deserialize_revisioned(r)
+			.and_then(|x| x.try_into().map_err(|_| Error::IntegerOverflow))
 	}
 }
 
@@ -204,7 +205,8 @@ impl DeserializeRevisioned for isize {
 	where
 		Self: Sized,
 	{
-		i64::deserialize_revisioned(r).map(|x| x as isize)
+		i64::deserialize_revisioned(r)
+			.and_then(|x| x.try_into().map_err(|_| Error::IntegerOverflow))
 	}
 }
 
-- 
2.43.0


From 8d3d59c36acd66c36e74446afd9d14d6a6e532aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 11/17] fix: do not overflow when an indexed container claims
 an enormous length

---
 src/optimised/indexed/map_walk.rs  | 2 +-
 src/optimised/indexed/seq_walk.rs  | 2 +-
 src/optimised/indexed/serialize.rs | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/optimised/indexed/map_walk.rs b/src/optimised/indexed/map_walk.rs
index 8c80efa..f90242d 100644
--- a/src/optimised/indexed/map_walk.rs
+++ b/src/optimised/indexed/map_walk.rs
@@ -180,7 +180,7 @@ impl<'p, K, V> IndexedMapWalker<'p, K, V> {
 		let table_bytes = len
 			.checked_mul(8)
 			.ok_or_else(|| Error::Deserialize("indexed-map offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		// Borrow the interleaved `(key_off, val_off)` table directly from the
diff --git a/src/optimised/indexed/seq_walk.rs b/src/optimised/indexed/seq_walk.rs
index ef60c38..37d62a1 100644
--- a/src/optimised/indexed/seq_walk.rs
+++ b/src/optimised/indexed/seq_walk.rs
@@ -108,7 +108,7 @@ impl<'p, T> IndexedSeqWalker<'p, T> {
 		let table_bytes = len
 			.checked_mul(4)
 			.ok_or_else(|| Error::Deserialize("indexed-seq offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let offsets = &payload[cursor..cursor + table_bytes];
diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index 63e681b..0283ecb 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -138,7 +138,8 @@ where
 		}
 		// Skip the offset tables + region lengths.
 		let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-		advance_read(r, table_bytes + 8)?;
+		advance_read(r, table_bytes)?;
+		advance_read(r, 8)?;
 		let mut keys: Vec<K> = Vec::with_capacity(len);
 		for _ in 0..len {
 			keys.push(K::deserialize_revisioned(r)?);
@@ -751,7 +752,8 @@ where
 	// Skip the offset table (len * 8) and region-length pair (8 bytes); we
 	// don't need them for sequential decode.
 	let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-	advance_read(reader, table_bytes + 8)?;
+	advance_read(reader, table_bytes)?;
+	advance_read(reader, 8)?;
 
 	// Dense keys (sorted ascending) come first, then dense values in matching
 	// order. Each K and V know their own wire length via DeserializeRevisioned.
-- 
2.43.0


From b4672e42779991dfe9c335c453c0e7b9e1063092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:04 +0000
Subject: [PATCH 12/17] fix: reject durations out of range instead of panicking

---
 src/implementations/duration.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/implementations/duration.rs b/src/implementations/duration.rs
index bdc15dc..f60d23a 100644
--- a/src/implementations/duration.rs
+++ b/src/implementations/duration.rs
@@ -18,7 +18,10 @@ impl DeserializeRevisioned for Duration {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(Duration::new(secs, nanos))
+		// `Duration::new` panics when the seconds carried out of `nanos` overflow `secs`
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos.into()))
+			.ok_or_else(|| Error::Deserialize("invalid duration".to_string()))
 	}
 }
 
-- 
2.43.0


From 7cf2c526b2e4dfaa8bc47d6992f23f67952b5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:04 +0000
Subject: [PATCH 13/17] fix: reject system times out of range instead of
 panicking

---
 src/implementations/system_time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/implementations/system_time.rs b/src/implementations/system_time.rs
index 6887a7b..6be6f44 100644
--- a/src/implementations/system_time.rs
+++ b/src/implementations/system_time.rs
@@ -20,7 +20,11 @@ impl DeserializeRevisioned for SystemTime {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(UNIX_EPOCH + Duration::new(secs, nanos))
+		// Neither the duration nor the addition to the epoch may panic on out-of-range input
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos.into()))
+			.and_then(|duration| UNIX_EPOCH.checked_add(duration))
+			.ok_or_else(|| Error::Deserialize("invalid system time".to_string()))
 	}
 }
 
-- 
2.43.0


From 0ca783d7a0246562116004d2e597c55c39a66794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:43 +0000
Subject: [PATCH 14/17] fix: apply field defaults and conversions when decoding
 variants of optimised enums

---
 .../src/expand/optimised/enum_codegen.rs      | 133 +++++++++++-------
 1 file changed, 83 insertions(+), 50 deletions(-)

diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 4bc2846..2060a4d 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -327,7 +327,6 @@ fn decode_variant_body(
 	exists_at_target: bool,
 	enum_name: &Ident,
 ) -> syn::Result<TokenStream> {
-	let _ = target; // explicitly unused once we've decided which path to emit
 	let body_reader = match size {
 		VariantSize::Inline => quote! { let mut __body: &[u8] = &[]; let _ = &mut __body; },
 		VariantSize::Fixed(n) => {
@@ -351,22 +350,84 @@ fn decode_variant_body(
 		},
 	};
 
-	// Decode each alive field from __body.
+	let fields: Vec<&Field> = match &v.fields {
+		Fields::Named {
+			fields,
+			..
+		}
+		| Fields::Unnamed {
+			fields,
+			..
+		} => fields.iter().collect(),
+		Fields::Unit => Vec::new(),
+	};
+
+	// Decode each field on the wire from __body; synthesize the fields added since.
 	let mut decode_fields = TokenStream::new();
-	let alive: Vec<&Field> = alive_fields(v, current);
-	for f in &alive {
+	for f in &fields {
 		let binding = f.name.to_binding();
 		let ty = &f.ty;
-		decode_fields.append_all(quote! {
-			let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __body)?;
+		if f.attrs.options.exists_at(current) {
+			decode_fields.append_all(quote! {
+				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __body)?;
+			});
+		} else if f.attrs.options.exists_at(target) {
+			let default = if let Some(default_fn) = &f.attrs.options.default {
+				let ident = Ident::new(&default_fn.value(), default_fn.span());
+				let rev_lit = current as u16;
+				quote! { Self::#ident(#rev_lit)? }
+			} else {
+				quote! { ::std::default::Default::default() }
+			};
+			decode_fields.append_all(quote! {
+				let #binding: #ty = #default;
+			});
+		}
+	}
+
+	let kept: Vec<_> = fields
+		.iter()
+		.filter(|f| f.attrs.options.exists_at(target))
+		.map(|f| f.name.to_binding())
+		.collect();
+	let dropped: Vec<&Field> = fields
+		.iter()
+		.copied()
+		.filter(|f| f.attrs.options.exists_at(current) && !f.attrs.options.exists_at(target))
+		.collect();
+
+	// Collect the fields into the auto-generated `<Enum><Variant>Fields` struct
+	// (emitted by `EnumStructsVisitor` for the target revision) and run the
+	// convert_fn of each field removed since.
+	let fields_struct_ident = v.fields_name(&enum_name.to_string());
+	let mutability = (!dropped.is_empty()).then(|| quote! { mut });
+	let mut collect_fields = match &v.fields {
+		Fields::Named {
+			..
+		} => quote! { let #mutability __fields = #fields_struct_ident { #(#kept),* }; },
+		Fields::Unnamed {
+			..
+		} => quote! { let #mutability __fields = #fields_struct_ident ( #(#kept),* ); },
+		Fields::Unit => quote! { let __fields = #fields_struct_ident; },
+	};
+	for f in &dropped {
+		let binding = f.name.to_binding();
+		let convert = f
+			.attrs
+			.options
+			.convert
+			.as_ref()
+			.expect("FieldOptions::finish rejects `end` without convert_fn");
+		let convert_ident = Ident::new(&convert.value(), convert.span());
+		let rev_lit = current as u16;
+		collect_fields.append_all(quote! {
+			Self::#convert_ident(&mut __fields, #rev_lit, #binding)?;
 		});
 	}
 
 	if !exists_at_target {
 		// Variant present on wire but removed at target — convert_fn required.
-		// Decode fields into the auto-generated `<Enum><Variant>Fields` struct
-		// (emitted by `EnumStructsVisitor` for the current revision), then
-		// hand it to the user-supplied convert_fn which produces a `Self`.
+		// It takes the collected fields and produces a `Self`.
 		let Some(convert) = v.attrs.options.convert.as_ref() else {
 			return Err(Error::new(
 				name.span(),
@@ -374,68 +435,40 @@ fn decode_variant_body(
 			));
 		};
 		let convert_ident = syn::Ident::new(&convert.value(), convert.span());
-		let fields_struct_ident = v.fields_name(&enum_name.to_string());
 		let wire_rev_lit = current as u16;
 
-		let construction = match &v.fields {
-			Fields::Named {
-				fields,
-				..
-			} => {
-				let names = fields
-					.iter()
-					.filter(|f| f.attrs.options.exists_at(current))
-					.map(|f| f.name.to_binding());
-				quote! { #fields_struct_ident { #(#names),* } }
-			}
-			Fields::Unnamed {
-				fields,
-				..
-			} => {
-				let bindings = fields
-					.iter()
-					.filter(|f| f.attrs.options.exists_at(current))
-					.map(|f| f.name.to_binding());
-				quote! { #fields_struct_ident ( #(#bindings),* ) }
-			}
-			Fields::Unit => quote! { #fields_struct_ident },
-		};
-
 		return Ok(quote! {
 			#body_reader
 			#decode_fields
-			let __removed = #construction;
-			return Self::#convert_ident(__removed, #wire_rev_lit);
+			#collect_fields
+			return Self::#convert_ident(__fields, #wire_rev_lit);
 		});
 	}
 
 	let construction = match &v.fields {
 		Fields::Named {
-			fields,
 			..
-		} => {
-			let bindings = fields
-				.iter()
-				.filter(|f| f.attrs.options.exists_at(current))
-				.map(|f| f.name.to_binding());
-			quote! { Self::#name { #(#bindings),* } }
-		}
+		} if dropped.is_empty() => quote! { Self::#name { #(#kept),* } },
+		Fields::Named {
+			..
+		} => quote! { Self::#name { #(#kept: __fields.#kept),* } },
+		Fields::Unnamed {
+			..
+		} if dropped.is_empty() => quote! { Self::#name ( #(#kept),* ) },
 		Fields::Unnamed {
-			fields,
 			..
 		} => {
-			let bindings = fields
-				.iter()
-				.filter(|f| f.attrs.options.exists_at(current))
-				.map(|f| f.name.to_binding());
-			quote! { Self::#name ( #(#bindings),* ) }
+			let indices = (0..kept.len()).map(syn::Index::from);
+			quote! { Self::#name ( #(__fields.#indices),* ) }
 		}
 		Fields::Unit => quote! { Self::#name },
 	};
+	let collect_fields = (!dropped.is_empty()).then_some(collect_fields);
 
 	Ok(quote! {
 		#body_reader
 		#decode_fields
+		#collect_fields
 		Ok(#construction)
 	})
 }
-- 
2.43.0


From a577ee61e8ebb645fbbc8ba9ab922a5316137cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:43 +0000
Subject: [PATCH 15/17] fix: walkers over re-encoded values follow the
 optimised layout of the latest revision

---
 revision-derive/src/expand/walk.rs | 35 ++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 2ee4e73..5712538 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -96,6 +96,37 @@ pub fn emit_walk_impl(
 		ItemKind::Enum(_) => emit_enum_walker_struct(&walker_name, &walker_repr_name),
 	};
 
+	// The re-encoded bytes follow the layout of the latest revision: under
+	// `optimised` the fields of a struct come after `u32_le payload_length` and
+	// the offset table of `indexed_struct`, those of an enum variant after the
+	// tag byte and, for varlen, `u32_le byte_length`.
+	let latest = history.iter().find(|h| h.revision.value == revision && h.is_optimised());
+	let owned_prologue = match (&item.kind, latest) {
+		(ItemKind::Struct(s), Some(h)) => {
+			let table = if matches!(h.struct_kind, StructEncoding::Indexed) {
+				alive_field_count(s, revision) * 4
+			} else {
+				0
+			};
+			let prologue = 4 + table;
+			quote! { + #prologue }
+		}
+		_ => quote! {},
+	};
+	let owned_discriminant = if latest.is_some() {
+		quote! {
+			let __tag = ::revision::optimised::tag::read_tag(&mut __ms)?;
+			if let ::revision::optimised::tag::SizeClass::Varlen = __tag.size_class()? {
+				let _ = ::revision::optimised::envelope::read_varlen_len(&mut __ms)?;
+			}
+			let __d = __tag.variant_id() as u32;
+		}
+	} else {
+		quote! {
+			let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
+		}
+	};
+
 	// Construction: read the u16 header, optionally materialise.
 	let materialise_branch = if !materialise_supported {
 		quote! {}
@@ -108,7 +139,7 @@ pub fn emit_walk_impl(
 					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let __cursor = __buf.len() - __slice.len();
+					let __cursor = __buf.len() - __slice.len() #owned_prologue;
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
@@ -129,7 +160,7 @@ pub fn emit_walk_impl(
 					let mut __cursor = __buf.len() - __slice.len();
 					let __mat_disc = {
 						let mut __ms: &[u8] = &__buf[__cursor..];
-						let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
+						#owned_discriminant
 						__cursor = __buf.len() - __ms.len();
 						__d
 					};
-- 
2.43.0


From 04398bb1b4981329702eba79e27506c7026b87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:43 +0000
Subject: [PATCH 16/17] fix: optimised enum walkers report current
 discriminants for older revisions

---
 revision-derive/src/expand/walk.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 5712538..c39364e 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -240,9 +240,14 @@ pub fn emit_walk_impl(
 						})
 					}
 				}
-				ItemKind::Enum(e) => {
-					emit_optimised_enum_walker_arm(e, h, rev_lit, &walker_name, &walker_repr_name)
-				}
+				ItemKind::Enum(e) => emit_optimised_enum_walker_arm(
+					e,
+					h,
+					revision,
+					rev_lit,
+					&walker_name,
+					&walker_repr_name,
+				),
 			}
 		})
 		.collect::<syn::Result<Vec<_>>>()?;
@@ -1682,6 +1687,7 @@ fn alive_field_count(s: &Struct, revision: usize) -> usize {
 fn emit_optimised_enum_walker_arm(
 	e: &Enum,
 	entry: &HistoryEntry,
+	revision: usize,
 	rev_lit: u16,
 	walker_name: &Ident,
 	walker_repr_name: &Ident,
@@ -1690,6 +1696,17 @@ fn emit_optimised_enum_walker_arm(
 	let mut discriminants = HashMap::new();
 	CalcDiscriminant::new(entry.revision.value, &mut discriminants).visit_enum(e)?;
 
+	// A borrowed walker reports current-revision discriminants, so the variant ids
+	// of an older revision are mapped to those.
+	let mut current = HashMap::new();
+	CalcDiscriminant::new(revision, &mut current).visit_enum(e)?;
+	let mut current_table: [u32; 32] = std::array::from_fn(|id| id as u32);
+	for (name, id) in &discriminants {
+		if let Some(now) = current.get(name) {
+			current_table[*id as usize] = *now;
+		}
+	}
+
 	// Build two parallel [u8; 32] tables:
 	// - size_class_table: 0=Inline, 1=Fixed, 2=Varlen, 0xFF=unknown (no such variant id)
 	// - fixed_size_table: byte length for Fixed variants, 0 otherwise
@@ -1716,6 +1733,7 @@ fn emit_optimised_enum_walker_arm(
 
 	let sc_lits: Vec<u8> = size_class_table.to_vec();
 	let fx_lits: Vec<u8> = fixed_size_table.to_vec();
+	let current_lits: Vec<u32> = current_table.to_vec();
 
 	let bad_arm_msg = format!(
 		"unknown variant tag for optimised enum at revision {rev_lit}: variant_id={{}} size_class={{:?}}",
@@ -1728,6 +1746,7 @@ fn emit_optimised_enum_walker_arm(
 			// doesn't declare at this revision.
 			static __SIZE_CLASS_TABLE: [u8; 32] = [#(#sc_lits),*];
 			static __FIXED_SIZE_TABLE: [u8; 32] = [#(#fx_lits),*];
+			static __CURRENT_TABLE: [u32; 32] = [#(#current_lits),*];
 
 			let __tag = ::revision::optimised::tag::read_tag(reader)?;
 			let __sc = __tag.size_class()?;
@@ -1762,7 +1781,7 @@ fn emit_optimised_enum_walker_arm(
 			return ::std::result::Result::Ok(#walker_name {
 				repr: #walker_repr_name::OptimisedBorrowed {
 					bytes: __payload,
-					discriminant: __variant_id as u32,
+					discriminant: __CURRENT_TABLE[__variant_id as usize],
 					pos: 0,
 					_marker: ::std::marker::PhantomData,
 				},
-- 
2.43.0


From 44a5d319dbc0514d1111de2c523ce88fb87aa5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:43 +0000
Subject: [PATCH 17/17] fix: walkers of indexed structs of an older revision
 with fewer fields

---
 revision-derive/src/expand/walk.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index c39364e..4423df8 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -198,6 +198,23 @@ pub fn emit_walk_impl(
 		.map(|h| -> syn::Result<TokenStream> {
 			let rev_lit = h.revision.value as u16;
 			match &item.kind {
+				ItemKind::Struct(s)
+					if matches!(h.struct_kind, StructEncoding::Indexed)
+						&& alive_field_count(s, h.revision.value)
+							!= alive_field_count(s, revision) =>
+				{
+					// Indexed struct of an older revision with fewer fields: the
+					// offset table does not have the entries of the current
+					// fields, so advance past it and continue with the Wire
+					// walker, which knows the fields of every revision.
+					let table_bytes = alive_field_count(s, h.revision.value) * 4;
+					Ok(quote! {
+						#rev_lit => {
+							let _ = ::revision::optimised::envelope::read_varlen_len(reader)?;
+							::revision::slice_reader::advance_read(reader, #table_bytes)?;
+						}
+					})
+				}
 				ItemKind::Struct(_) => {
 					if matches!(h.struct_kind, StructEncoding::Indexed) {
 						// Indexed struct: borrow the payload directly from the
-- 
2.43.0

