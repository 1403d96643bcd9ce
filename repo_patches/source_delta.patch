From c1b50d417fe1ec086c89448e7bace4b2664a8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:18 +0000
Subject: [PATCH 1/8] fix: don't overflow the indentation level of
 deeply-nested values

---
 src/emv/ccd/iad.rs         | 8 ++++----
 src/emv/cvm_list.rs        | 6 +++---
 src/emv/tlv_parsing/mod.rs | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/emv/ccd/iad.rs b/src/emv/ccd/iad.rs
index e6c8e07..a631328 100644
--- a/src/emv/ccd/iad.rs
+++ b/src/emv/ccd/iad.rs
@@ -114,7 +114,7 @@ impl DisplayBreakdown for IssuerApplicationData {
 		println!("Common Core Identifier:");
 		stdout.reset().ok();
 		self.cci
-			.display_breakdown(stdout, indentation + 1, show_severity_colours);
+			.display_breakdown(stdout, indentation.saturating_add(1), show_severity_colours);
 
 		match &self.format_specific_data {
 			FormatSpecificData::A {
@@ -135,21 +135,21 @@ impl DisplayBreakdown for IssuerApplicationData {
 				stdout.set_color(&header_colour_spec).ok();
 				println!("Card Verification Results:");
 				stdout.reset().ok();
-				cvr.display_breakdown(stdout, indentation + 1, show_severity_colours);
+				cvr.display_breakdown(stdout, indentation.saturating_add(1), show_severity_colours);
 
 				// Print the counter bytes
 				print_indentation(indentation);
 				stdout.set_color(&header_colour_spec).ok();
 				println!("Counters: (Payment System-Specific)");
 				stdout.reset().ok();
-				print_bytes(&counter_bytes[..], 16, indentation + 1);
+				print_bytes(&counter_bytes[..], 16, indentation.saturating_add(1));
 
 				// Print the issuer-discretionary data
 				print_indentation(indentation);
 				stdout.set_color(&header_colour_spec).ok();
 				println!("Issuer-Discretionary Data");
 				stdout.reset().ok();
-				print_bytes(&issuer_discretionary_data[..], 16, indentation + 1);
+				print_bytes(&issuer_discretionary_data[..], 16, indentation.saturating_add(1));
 			}
 		}
 	}
diff --git a/src/emv/cvm_list.rs b/src/emv/cvm_list.rs
index bb86f2a..695e236 100644
--- a/src/emv/cvm_list.rs
+++ b/src/emv/cvm_list.rs
@@ -115,21 +115,21 @@ impl DisplayBreakdown for CardholderVerificationMethodList {
 			stdout.reset().ok();
 
 			// Print the method
-			print_indentation(indentation + 1);
+			print_indentation(indentation.saturating_add(1));
 			stdout.set_color(&bold_colour_spec).ok();
 			print!("Method:         ");
 			stdout.reset().ok();
 			println!(" {}", cv_rule.method);
 
 			// Print the condition
-			print_indentation(indentation + 1);
+			print_indentation(indentation.saturating_add(1));
 			stdout.set_color(&bold_colour_spec).ok();
 			print!("Condition:      ");
 			stdout.reset().ok();
 			println!(" {}", cv_rule.condition);
 
 			// Print whether to continue if unsuccessful
-			print_indentation(indentation + 1);
+			print_indentation(indentation.saturating_add(1));
 			stdout.set_color(&bold_colour_spec).ok();
 			print!("If Unsuccessful:");
 			stdout.reset().ok();
diff --git a/src/emv/tlv_parsing/mod.rs b/src/emv/tlv_parsing/mod.rs
index c636d36..f9b623c 100644
--- a/src/emv/tlv_parsing/mod.rs
+++ b/src/emv/tlv_parsing/mod.rs
@@ -137,7 +137,7 @@ impl DisplayBreakdown for ProcessedEmvNode {
 			stdout.reset().ok();
 
 			self.child_block
-				.display_breakdown(stdout, indentation + 1, show_severity_colours);
+				.display_breakdown(stdout, indentation.saturating_add(1), show_severity_colours);
 		}
 	}
 }
@@ -366,7 +366,7 @@ impl DisplayBreakdown for ProcessedEmvTag {
 				stdout.set_color(&header_colour_spec).ok();
 				println!("Parsed:");
 				stdout.reset().ok();
-				parsed.display_breakdown(stdout, indentation + 1, show_severity_colours);
+				parsed.display_breakdown(stdout, indentation.saturating_add(1), show_severity_colours);
 			}
 		}
 	}
@@ -451,7 +451,7 @@ impl DisplayBreakdown for RawEmvTag {
 				stdout.set_color(&header_colour_spec).ok();
 				println!("Raw:");
 				stdout.reset().ok();
-				print_bytes_pretty(data.as_slice(), 16, indentation + 1);
+				print_bytes_pretty(data.as_slice(), 16, indentation.saturating_add(1));
 			}
 			EmvData::Masked => {
 				print_indentation(indentation);
-- 
2.43.0


From 0bb614cbe953e0d675285c64d69d55290d491138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:18 +0000
Subject: [PATCH 2/8] fix: accept a zero length in the long form at the end of
 BER-TLV data

---
 src/emv/tlv_parsing/ber_tlv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..cf31d1e 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From 9035f3b46e124b33a2d325d7c851207fee5bfafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:18 +0000
Subject: [PATCH 3/8] fix: don't report data without any bytes as BER-TLV in
 automatic detection

---
 src/emv/tlv_parsing/auto_tlv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv/tlv_parsing/auto_tlv.rs b/src/emv/tlv_parsing/auto_tlv.rs
index 814f174..b2c82ea 100644
--- a/src/emv/tlv_parsing/auto_tlv.rs
+++ b/src/emv/tlv_parsing/auto_tlv.rs
@@ -17,8 +17,8 @@ pub fn parse(
 	tlv_str: &str,
 	masking_characters: &[char],
 ) -> Result<(TlvFormat, RawEmvBlock), ParseError> {
-	// Don't accept empty input because it'll match to anything
-	if tlv_str.is_empty() {
+	// Don't accept input without any bytes in it because it'll match to anything
+	if parse_hex_str(tlv_str).is_empty() {
 		return Err(ParseError::Unrecognised);
 	}
 
-- 
2.43.0


From 299f8571cf8097dc33314adc5be4c23168a9a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 4/8] fix: don't abort the whole TLV block on an unrecognised
 terminal type or POS entry mode

---
 src/emv/tlv_parsing/process_emv_tag.rs | 28 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/emv/tlv_parsing/process_emv_tag.rs b/src/emv/tlv_parsing/process_emv_tag.rs
index c060f85..8f92489 100644
--- a/src/emv/tlv_parsing/process_emv_tag.rs
+++ b/src/emv/tlv_parsing/process_emv_tag.rs
@@ -232,14 +232,26 @@ pub fn process_emv_tag(raw_tag: RawEmvTag) -> Result<ProcessedEmvTag, ParseError
 				CardholderVerificationMethodResults::try_from(data)
 					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
 			})?,
-			Some(([0x9F, 0x35], name)) => ProcessedEmvTag::parse_raw(name, raw_tag, |data| {
-				TerminalType::try_from(data)
-					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
-			})?,
-			Some(([0x9F, 0x39], name)) => ProcessedEmvTag::parse_raw(name, raw_tag, |data| {
-				PosEntryMode::try_from(data)
-					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
-			})?,
+			Some(([0x9F, 0x35], name)) => ProcessedEmvTag::parse_raw_unrecognised(
+				name,
+				"Terminal Type (Unrecognised - likely payment system-specific)",
+				raw_tag,
+				|data| {
+					TerminalType::try_from(data)
+						.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
+				},
+				|error| matches!(error, ParseError::Unrecognised),
+			)?,
+			Some(([0x9F, 0x39], name)) => ProcessedEmvTag::parse_raw_unrecognised(
+				name,
+				"POS Entry Mode (Unrecognised - likely payment system-specific)",
+				raw_tag,
+				|data| {
+					PosEntryMode::try_from(data)
+						.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
+				},
+				|error| matches!(error, ParseError::Unrecognised),
+			)?,
 			Some(([0x9F, 0x40], name)) => ProcessedEmvTag::parse_raw(name, raw_tag, |data| {
 				AdditionalTerminalCapabilities::try_from(data)
 					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
-- 
2.43.0


From c9702ebcc06fdca6d7c948dcf99f5f338651abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 5/8] fix: don't silently drop an incomplete last byte in
 strict hex parsing

---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 6cc12df..67667e3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -34,9 +34,11 @@ pub fn parse_hex_str(hex_asm: &str) -> Vec<u8> {
 	bytes
 }
 /// Does the exact same thing as [`parse_hex_str`], but it throws an error if
-/// there are any non-hex ASCII characters in the string.
+/// there are any non-hex ASCII characters in the string, or if the last byte is
+/// incomplete.
 pub fn parse_hex_str_strict(hex_asm: &str) -> Result<Vec<u8>, ParseError> {
 	if !hex_asm.is_ascii()
+		|| hex_asm.len() % 2 != 0
 		|| hex_asm.contains(|c| !matches!(c as u8, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))
 	{
 		Err(ParseError::InvalidBytes)
-- 
2.43.0


From 9d1dd3ca35b917b45cf4b659dd9fae42ae43d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:07 +0000
Subject: [PATCH 6/8] fix: report invalid configuration values instead of
 panicking

---
 src/main.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9166379..a840b99 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -106,17 +106,21 @@ fn main() {
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
 
-	let colour_choice = config_figment
+	let (colour_choice, masking_characters, sort_parsed_tags) = match config_figment
 		.extract_inner::<ColourChoice>(Config::CLI_COLOUR)
-		.unwrap()
-		.change_based_on_tty()
-		.into();
-	let masking_characters = config_figment
-		.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)
-		.unwrap();
-	let sort_parsed_tags = config_figment
-		.extract_inner::<bool>(Config::SORT_PARSED_TAGS)
-		.unwrap();
+		.and_then(|colour_choice| {
+			Ok((
+				colour_choice.change_based_on_tty().into(),
+				config_figment.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)?,
+				config_figment.extract_inner::<bool>(Config::SORT_PARSED_TAGS)?,
+			))
+		}) {
+		Ok(values) => values,
+		Err(error) => {
+			eprintln!("{error}");
+			return;
+		}
+	};
 
 	let mut stdout = StandardStream::stdout(colour_choice);
 
-- 
2.43.0


From 87b304e313d1f1f89fadca24d5c1fda02fc634f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:09 +0000
Subject: [PATCH 7/8] fix: keep the raw value of unknown CVM methods and
 conditions

---
 src/emv/cv_rule/cv_method.rs     | 17 ++++++++++++++---
 src/emv/cv_rule/cvm_condition.rs | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/emv/cv_rule/cv_method.rs b/src/emv/cv_rule/cv_method.rs
index 9c266a5..5b47df1 100644
--- a/src/emv/cv_rule/cv_method.rs
+++ b/src/emv/cv_rule/cv_method.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -26,15 +28,23 @@ pub enum CvMethod: u8, ParseError, { |_| ParseError::NonCompliant } {
 }
 
 /// A somewhat dumb workaround to have custom impls on [`Option<CvMethod>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvMethod {
 	pub internal: Option<CvMethod>,
+	/// Kept so that the raw value isn't lost if it's unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvMethod>> for OptionalCvMethod {
 	fn from(value: Option<CvMethod>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -50,6 +60,7 @@ impl From<u8> for OptionalCvMethod {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvMethod::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -57,7 +68,7 @@ impl From<u8> for OptionalCvMethod {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvMethod> for u8 {
 	fn from(value: OptionalCvMethod) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
diff --git a/src/emv/cv_rule/cvm_condition.rs b/src/emv/cv_rule/cvm_condition.rs
index 27db84d..27bc775 100644
--- a/src/emv/cv_rule/cvm_condition.rs
+++ b/src/emv/cv_rule/cvm_condition.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -45,15 +47,23 @@ impl CvmCondition {
 
 /// A somewhat dumb workaround to have a [`Display`] impl on
 /// [`Option<CvmCondition>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvmCondition {
 	pub internal: Option<CvmCondition>,
+	/// Kept so that the raw value isn't lost if it's unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvmCondition>> for OptionalCvmCondition {
 	fn from(value: Option<CvmCondition>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -69,6 +79,7 @@ impl From<u8> for OptionalCvmCondition {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvmCondition::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -76,7 +87,7 @@ impl From<u8> for OptionalCvmCondition {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvmCondition> for u8 {
 	fn from(value: OptionalCvmCondition) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
-- 
2.43.0


From 133dba1ab892e03149632347c70e8f6221d2adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:34 +0000
Subject: [PATCH 8/8] fix: bound the nesting depth of constructed data objects

---
 src/emv/tlv_parsing/ber_tlv.rs      | 28 ++++++++++++++++++++++++----
 src/emv/tlv_parsing/ingenico_tlv.rs |  2 +-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index cf31d1e..78d9b74 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -9,8 +9,24 @@ use crate::{
 	util::{byte_slice_to_u32, BYTES_PER_32_BITS},
 };
 
+// Constants
+/// The maximum depth of constructed data objects within each other. Anything
+/// nested more deeply than this isn't descended into, so that malicious data
+/// can't exhaust the stack.
+const MAX_NESTING_DEPTH: u8 = 128;
+
 /// Parses a block of BER-TLV encoded data.
 pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, ParseError> {
+	parse_nested(bytes, masking_characters, 0)
+}
+
+/// Parses a block of BER-TLV encoded data that's inside of `depth` constructed
+/// data objects.
+fn parse_nested(
+	bytes: &[u8],
+	masking_characters: &[char],
+	depth: u8,
+) -> Result<RawEmvBlock, ParseError> {
 	let bytes_len = bytes.len();
 	let mut nodes = Vec::new();
 	let mut index = 0;
@@ -68,7 +84,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 		// Push the resulting tag to the list
 		let tag_data = EmvData::from_u8_check_for_masked(data.to_vec(), masking_characters);
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, depth),
 			tag:         RawEmvTag {
 				tag: bytes[tag_start_index..=tag_end_index].to_vec(),
 				class,
@@ -103,17 +119,21 @@ pub fn parse_tag_metadata(tag_byte_0: u8) -> (TagClass, DataObjectType) {
 /// Descends into the tag data to try to parse it as a constructed data object,
 /// if `data_object_type` is [`DataObjectType::Constructed`].
 ///
-/// Otherwise, it returns [`RawEmvBlock::default`].
+/// Otherwise, or if there are already too many data objects around it, it
+/// returns [`RawEmvBlock::default`].
 pub fn get_child_block(
 	data_object_type: DataObjectType,
 	tag_data: &EmvData,
 	masking_characters: &[char],
+	depth: u8,
 ) -> RawEmvBlock {
 	match data_object_type {
 		DataObjectType::Primitive => RawEmvBlock::default(),
 		DataObjectType::Constructed => match tag_data {
-			EmvData::Normal(data) => parse(data, masking_characters).unwrap_or_default(),
-			EmvData::Masked => RawEmvBlock::default(),
+			EmvData::Normal(data) if depth < MAX_NESTING_DEPTH => {
+				parse_nested(data, masking_characters, depth + 1).unwrap_or_default()
+			}
+			EmvData::Normal(_) | EmvData::Masked => RawEmvBlock::default(),
 		},
 	}
 }
diff --git a/src/emv/tlv_parsing/ingenico_tlv.rs b/src/emv/tlv_parsing/ingenico_tlv.rs
index 948c4e8..e41e2f1 100644
--- a/src/emv/tlv_parsing/ingenico_tlv.rs
+++ b/src/emv/tlv_parsing/ingenico_tlv.rs
@@ -125,7 +125,7 @@ pub fn parse(data: &str, masking_characters: &[char]) -> Result<RawEmvBlock, Par
 			continue;
 		}
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, 0),
 			tag:         RawEmvTag {
 				tag: tag_id_bytes,
 				class,
-- 
2.43.0

