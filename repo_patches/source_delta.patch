From fa951ffdc2c06a93aa57d0b4de2482ea18fd0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 01/20] fix: pack zero and tiny floats exactly

float32_pack wrote a nonzero value for zero, and a wrong one for
numbers with Vorbis exponents that need a mantissa with leading zeros,
so codebook minimum and delta values changed when rewriting them.
---
 packages/vorbis_bitpack/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index e1a8dd6..3998acd 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -495,13 +495,15 @@ fn float32_pack(float: f64) -> u32 {
 	// Copy the sign bit
 	let sign_component = ((float.to_bits() & 0x8000_0000_0000_0000) >> 32) as u32;
 
-	// Adjust the exponent, with saturating arithmetic to preserve the scale as much as possible.
+	// Adjust the exponent.
 	// Subtract 235 to account for the different bias (1023 - 788 = 235).
 	// Subtract 20 to account for the different initial point position:
 	// - IEEE-754 double: 1.xxxx_xxxx_xxxx_xxxx_xxxx|t...t, where t are the truncated mantissa bits,
 	//   which are ignored => the initial point position is 20.
 	// - Vorbis float:    xxxx_xxxx_xxxx_xxxx_xxxx_x. => the initial point position is 0
 	let exponent = ((float.to_bits() & 0x7FF0_0000_0000_0000) >> 52) as u32;
+	let exponent_deficit = (235 + 20u32).saturating_sub(exponent);
+	// Saturate higher exponents to preserve the scale as much as possible
 	let adjusted_exponent = cmp::min(
 		exponent.saturating_sub(235 + 20),
 		VORBIS_FLOAT32_MAX_EXPONENT
@@ -510,7 +512,10 @@ fn float32_pack(float: f64) -> u32 {
 
 	// Copy the mantissa, ignoring any least significant digits we cannot store.
 	// Add the implicit 1 bit, required by IEEE-754 for normal floats
-	let mantissa_component = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+	let mantissa = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+	// Vorbis mantissas are not normalized: numbers lower than what the lowest exponent
+	// can represent with a normalized mantissa have leading zeros. This includes zero
+	let mantissa_component = mantissa.checked_shr(exponent_deficit).unwrap_or(0);
 
 	sign_component | exponent_component | mantissa_component
 }
-- 
2.43.0


From 945d63af2bf332f545ef60cad76d12282e087f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 02/20] fix: do not repeat finalized bits in the next byte

BitpackWriter::finalize kept the pending byte, so the bits written
after it were ORed with those already written out.
---
 packages/vorbis_bitpack/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 3998acd..ac2270e 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -76,7 +76,7 @@
 #![forbid(unsafe_op_in_unsafe_fn)]
 #![forbid(rustdoc::broken_intra_doc_links)]
 
-use core::cmp;
+use core::{cmp, mem};
 #[cfg(not(feature = "no-std"))]
 use std::io::{Read, Result, Write};
 
@@ -406,7 +406,8 @@ impl<W: Write> BitpackWriter<W> {
 	pub fn finalize(&mut self) -> Result<()> {
 		if self.bits_to_be_written > 0 {
 			self.bits_to_be_written = 0;
-			self.sink.write_all(&[self.byte_to_be_written])
+			self.sink
+				.write_all(&[mem::take(&mut self.byte_to_be_written)])
 		} else {
 			Ok(())
 		}
-- 
2.43.0


From a084739a9286697943b908402645bc132438591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 03/20] fix: ignore integer bits beyond the width to write

Only the bits that completed the pending byte were masked. The higher
bits of integers that do not fit in the width, such as those of any
negative signed integer, corrupted the bits written next.
---
 packages/vorbis_bitpack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index ac2270e..71b9ca4 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -349,7 +349,8 @@ impl<W: Write> BitpackWriter<W> {
 		// at most 3 bytes, so the shift never overflows
 		integer >>= 8 * bytes_to_write;
 
-		self.byte_to_be_written = integer as u8;
+		// Keep only the bits that belong to this integer, so the next bits can be ORed safely
+		self.byte_to_be_written = integer as u8 & ((1 << remainder_bits) - 1);
 		self.bits_to_be_written = remainder_bits;
 
 		Ok(())
-- 
2.43.0


From d7c41d1c1e9f1cbeb29e99c8afa617b0145ee682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 04/20] fix: compute lookup1_values exactly

The single precision result is wrong for some entry counts at or near
a perfect power (e.g., 16777215 entries of 3 dimensions), so the setup
header was misread from there on.
---
 .../src/vorbis/optimizer/setup_header_parse.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 5f2d60c..8e7512f 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -911,7 +911,23 @@ fn lookup1_values(codebook_entries: u32, codebook_dimensions: u16) -> u32 {
 	if codebook_dimensions == 0 {
 		u32::MAX
 	} else {
-		(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32
+		// The floating point result may be off by one for entry counts at or near a perfect
+		// power, so check it with exact arithmetic
+		let fits = |values: u32| {
+			(values as u64)
+				.checked_pow(codebook_dimensions as u32)
+				.is_some_and(|minimum_entries| minimum_entries <= codebook_entries as u64)
+		};
+
+		let mut values = (codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32;
+		while !fits(values) {
+			values -= 1;
+		}
+		while fits(values + 1) {
+			values += 1;
+		}
+
+		values
 	}
 }
 
-- 
2.43.0


From 38c27cdc7ab75372c126106c08472c4280faef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 05/20] fix: decode any bit in sparse codebooks with a single
 used entry

The specification requires single entry codebooks to decode either bit
to that entry, but that was only done for codebooks whose total number
of entries is one. Valid streams that use the other bit were rejected.
---
 .../src/vorbis/codebook/huffman_tree.rs         | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
index 8b61888..bf5a6a0 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
@@ -60,23 +60,32 @@ impl VorbisHuffmanTree {
 
 		// Handle technically erroneous single-entry codebooks as defined
 		// in the specification, by decoding any single bit to the the only
-		// possible entry number. Note that single-entry codebooks with other
+		// possible entry number. The used entry may be any in a sparse codebook.
+		// Note that single-entry codebooks with other
 		// codeword lengths are not special-cased, and will have a codeword
 		// with that length assigned to them as usual, which will work if the
 		// stream does not actually use underspecified parts of the tree.
 		// This is a deviation from the specification, but provides for a
 		// simpler implementation and maybe some corrupt stream recovery
 		// capabilities
-		if codeword_lengths == [1] {
+		let mut used_codeword_lengths = codeword_lengths
+			.iter()
+			.copied()
+			.enumerate()
+			.filter(|(_, codeword_length)| *codeword_length != 0);
+		if let (Some((entry_number, 1)), None) =
+			(used_codeword_lengths.next(), used_codeword_lengths.next())
+		{
+			let number = entry_number as u32;
 			return Ok(VorbisHuffmanTreeBuilder {
 				arena: Bump::new(),
 				root_builder: |arena| VorbisHuffmanTreeNode {
 					left_child: Some(arena.alloc(VorbisHuffmanTreeNode {
-						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
+						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
 					right_child: Some(arena.alloc(VorbisHuffmanTreeNode {
-						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
+						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
 					entry: None
-- 
2.43.0


From 02d8042271717f8625feee767e86d711adbbfe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 06/20] fix: do not take quadratic time to build large Huffman
 trees

Looking for a free leaf explored every occupied branch of the tree, so
a setup header of a few bytes declaring a codebook with many entries
could stall the optimizer for hours.
---
 .../src/vorbis/codebook/huffman_tree.rs       | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
index bf5a6a0..d935fe5 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
@@ -88,7 +88,8 @@ impl VorbisHuffmanTree {
 						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
-					entry: None
+					entry: None,
+					full_children: false
 				}
 			}
 			.build());
@@ -212,10 +213,17 @@ impl<V> VorbisHuffmanTreeWalker<'_, '_, V> {
 struct VorbisHuffmanTreeNode<'tree, V> {
 	left_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
 	right_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
-	entry: Option<V>
+	entry: Option<V>,
+	// Whether both children are known to be full, i.e., to not have free leaves beneath them
+	full_children: bool
 }
 
 impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
+	/// Returns whether this node is known to not be or have any free leaf.
+	fn is_full(&self) -> bool {
+		self.entry.is_some() || self.full_children
+	}
+
 	/// Finds the leftmost free leaf in this tree at a certain depth,
 	/// returning the would-be codeword for it and allocating any new
 	/// nodes in the specified arena.
@@ -249,8 +257,14 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 		codeword_so_far: u32,
 		arena: &'tree Bump
 	) -> Option<(&'this mut Self, u32)> {
-		// Base case 1: occupied nodes are not free and can't have free nodes beneath them
-		if self.entry.is_some() {
+		// Base case 1: occupied nodes are not free and can't have free nodes beneath them.
+		// The same goes for nodes with full children. Noticing those is necessary to not
+		// explore the whole tree for each entry
+		self.full_children = self.full_children
+			|| [&self.left_child, &self.right_child]
+				.into_iter()
+				.all(|child| child.as_ref().is_some_and(|child| child.is_full()));
+		if self.is_full() {
 			return None;
 		}
 
@@ -285,7 +299,8 @@ impl<V> Default for VorbisHuffmanTreeNode<'_, V> {
 		Self {
 			left_child: None,
 			right_child: None,
-			entry: None
+			entry: None,
+			full_children: false
 		}
 	}
 }
-- 
2.43.0


From 2ae5b26bb8c9e5d03b459ca873c5697d122523d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 07/20] fix: limit codeword lengths to 32 bits, the maximum in
 a codebook

---
 .../codebook/huffman_codeword_lengths.rs      | 58 ++++++++++++++++++-
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
index 4752eab..7e3bbea 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
@@ -8,6 +8,9 @@
 
 use std::ops::{Index, IndexMut};
 
+/// The maximum codeword length that can be stored in a Vorbis codebook.
+const MAXIMUM_CODEWORD_LENGTH: usize = 32;
+
 /// Decorates a slice of codebook number frequencies to be suitable for computing codeword
 /// lengths.
 pub(super) struct VorbisCodebookNumberFrequenciesDecorator<T: AsMut<[u64]> + AsRef<[u64]>> {
@@ -78,8 +81,23 @@ impl<T: AsMut<[u64]> + AsRef<[u64]>> VorbisCodebookNumberFrequenciesDecorator<T>
 				self.number_frequencies
 			}
 			used_codeword_count => {
-				// Our general algorithm can handle the rest of possible used entry counts
-				compute_huffman_codeword_lengths(self, used_codeword_count).number_frequencies
+				// Our general algorithm can handle the rest of possible used entry counts, but
+				// it may assign codewords longer than what Vorbis supports. That takes a tree
+				// where each frequency is about the sum of all of the lower ones, so do not
+				// bother keeping the frequencies if there are not enough codewords
+				let frequencies = if used_codeword_count > MAXIMUM_CODEWORD_LENGTH + 1 {
+					(0..used_codeword_count).map(|i| self[i]).collect()
+				} else {
+					vec![]
+				};
+
+				let mut lengths = compute_huffman_codeword_lengths(self, used_codeword_count);
+				// Codewords are sorted by increasing length
+				if lengths[used_codeword_count - 1] > MAXIMUM_CODEWORD_LENGTH as u64 {
+					compute_limited_codeword_lengths(&mut lengths, &frequencies);
+				}
+
+				lengths.number_frequencies
 			}
 		}
 	}
@@ -175,6 +193,42 @@ fn compute_huffman_codeword_lengths<T: IndexMut<usize, Output = u64>>(
 	w
 }
 
+/// Computes optimal codeword lengths which do not exceed the maximum length, with the
+/// package-merge algorithm. `frequencies` must be sorted in decreasing order.
+fn compute_limited_codeword_lengths<T: IndexMut<usize, Output = u64>>(
+	lengths: &mut T,
+	frequencies: &[u64]
+) {
+	// For each codeword length, whether each item is a codeword, instead of a package of
+	// two items of the next length. Items are sorted by increasing weight
+	let mut levels: Vec<Vec<bool>> = Vec::with_capacity(MAXIMUM_CODEWORD_LENGTH);
+	let mut packages = vec![];
+	for _ in 0..MAXIMUM_CODEWORD_LENGTH {
+		let mut items: Vec<_> = (frequencies.iter().map(|frequency| (*frequency, true)))
+			.chain(packages.into_iter().map(|weight| (weight, false)))
+			.collect();
+		items.sort_by_key(|(weight, _)| *weight);
+		packages = items
+			.chunks_exact(2)
+			.map(|pair: &[(u64, bool)]| pair[0].0.saturating_add(pair[1].0))
+			.collect();
+		levels.push(items.into_iter().map(|(_, is_codeword)| is_codeword).collect());
+	}
+
+	for i in 0..frequencies.len() {
+		lengths[i] = 0;
+	}
+	let mut item_count = 2 * frequencies.len() - 2;
+	for level in levels.iter().rev() {
+		let codeword_count = level[..item_count].iter().filter(|c| **c).count();
+		// The least frequent codewords come first in the item list
+		for i in frequencies.len() - codeword_count..frequencies.len() {
+			lengths[i] += 1;
+		}
+		item_count = 2 * (item_count - codeword_count);
+	}
+}
+
 #[cfg(test)]
 mod test {
 	use super::*;
-- 
2.43.0


From 7559daa057374396855b4804d8f0dc4f66db25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 08/20] fix: keep samples truncated in the beginning of short
 streams

---
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs  | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 05f4fed..1673491 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -446,6 +446,19 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 			// says, using the packet count we computed during the first pass
 			let is_last_stream_packet = packet_number == stream_state.analyzed_packet_count - 1;
 
+			let calculated_granule_position = granule_position_for_packet(
+				packet_sample_block_size,
+				packet_number,
+				packet_page_granule_position,
+				is_last_stream_packet,
+				remuxer_settings,
+				stream_state
+			);
+
+			let is_last_packet_in_original_first_audio_page = stream_state
+				.original_last_audio_packet_in_first_audio_page_granule_position
+				.is_some_and(|(_, final_packet_number)| final_packet_number == packet_number);
+
 			// Vorbis stream encapsulation in Ogg is documented in the Vorbis I specification,
 			// § A.2. Putting Vorbis packets in Ogg pages is pretty straightforward: the
 			// identification and setup headers must end the page they are in, but the rest
@@ -453,23 +466,24 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 			// container overhead and maximum livestream recapture time requirements. In our
 			// case, we only care about minimizing container overhead (we are dealing with
 			// seekable sources in any case), so just put as many packets per page as possible
+			//
+			// If samples are truncated in the beginning, decoders compute how many with the
+			// granule position of the first audio page. That does not work if such page also is
+			// the last one, because then its granule position truncates samples in the end. The
+			// first audio page of the original stream was not the last, so end it as they did
 			let page_end_info = if is_last_stream_packet {
 				PacketWriteEndInfo::EndStream
-			} else if packet_number == 0 || packet_number == 2 {
+			} else if packet_number == 0
+				|| packet_number == 2
+				|| (!remuxer_settings.ignore_start_sample_offset
+					&& stream_state.start_granule_position_offset.is_some_and(|offset| offset < 0)
+					&& is_last_packet_in_original_first_audio_page)
+			{
 				PacketWriteEndInfo::EndPage
 			} else {
 				PacketWriteEndInfo::NormalPacket
 			};
 
-			let calculated_granule_position = granule_position_for_packet(
-				packet_sample_block_size,
-				packet_number,
-				packet_page_granule_position,
-				is_last_stream_packet,
-				remuxer_settings,
-				stream_state
-			);
-
 			// Letting the stream serial addition to overflow is the most sensible thing:
 			// the Ogg specification just requires serials to be unique per stream, so by
 			// wrapping we make a good use of the available bit space
-- 
2.43.0


From 8ac659090194e5427cdfd42ea925cc5487f5e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 09/20] fix: report errors while writing the last output data

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index a0b77a9..b5f7b97 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -253,6 +253,8 @@ fn remux<F: Read + Seek>(
 			let remux_begin = Instant::now();
 			OggToOgg::new(remuxer_settings, optimizer_settings)
 				.remux(input_file, output_file)
+				// Any data still buffered must be written too. Dropping ignores errors
+				.and_then(|output_file| Ok(output_file.flush()?))
 				.map(|_| remux_begin.elapsed())
 		}
 	} {
-- 
2.43.0


From 3a954188a6e317f0fd664fde9e272839225ad44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 10/20] fix: do not print the program header in the output data

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index b5f7b97..cbf5e08 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -3,7 +3,7 @@ use std::{
 	env,
 	fmt::Display,
 	fs::File,
-	io::{BufReader, BufWriter, Read, Seek, Write, stdout},
+	io::{BufReader, BufWriter, Read, Seek, Write, stderr, stdout},
 	path::Path,
 	process::exit,
 	str::FromStr,
@@ -113,8 +113,7 @@ fn run() -> Result<(), Cow<'static, str>> {
 	match options.parse(env::args().skip(1)) {
 		Ok(matches) => {
 			if matches.opt_present("h") {
-				print_header();
-				println!();
+				print_header(stdout(), "\n");
 				println!("Usage:");
 				print!(
 					"    {} [OPTION]... <input file> <output file or ->",
@@ -122,13 +121,17 @@ fn run() -> Result<(), Cow<'static, str>> {
 				);
 				println!("{}", options.usage(""));
 			} else if matches.opt_present("version") {
-				print_header();
+				print_header(stdout(), "");
 			} else {
 				let quiet_mode = matches.opt_present("q");
 
 				if !quiet_mode {
-					print_header();
-					println!();
+					// Do not mix the header with the output data
+					if matches.free.get(1).is_some_and(|file_name| file_name == "-") {
+						print_header(stderr(), "\n");
+					} else {
+						print_header(stdout(), "\n");
+					}
 				}
 
 				if matches.free.len() != 2 {
@@ -305,10 +308,14 @@ fn init_logging(option_matches: &Matches, quiet_mode: bool) {
 		.unwrap();
 }
 
-fn print_header() {
-	println!("{OPTIVORBIS_VERSION_TAG}");
-	println!("{}", env!("CARGO_PKG_DESCRIPTION"));
-	println!("Copyright (C) {}", env!("CARGO_PKG_AUTHORS"));
+fn print_header(mut output: impl Write, footer: &str) {
+	// Not being able to print the header is not a concern
+	let _ = write!(
+		output,
+		"{OPTIVORBIS_VERSION_TAG}\n{}\nCopyright (C) {}\n{footer}",
+		env!("CARGO_PKG_DESCRIPTION"),
+		env!("CARGO_PKG_AUTHORS")
+	);
 }
 
 enum AvailableRemuxer {
-- 
2.43.0


From 928a51b2107434dcd2b8e39b8015e199988c6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 11/20] fix: keep samples truncated in the end of short streams
 with a start offset

---
 packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 1673491..9da86f4 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -467,16 +467,16 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 			// case, we only care about minimizing container overhead (we are dealing with
 			// seekable sources in any case), so just put as many packets per page as possible
 			//
-			// If samples are truncated in the beginning, decoders compute how many with the
-			// granule position of the first audio page. That does not work if such page also is
-			// the last one, because then its granule position truncates samples in the end. The
-			// first audio page of the original stream was not the last, so end it as they did
+			// If the stream does not start at time zero, decoders find it out with the granule
+			// position of the first audio page, provided that it is not the last one too: then,
+			// any difference with the expected position is taken as samples truncated in the end.
+			// The first audio page of the original stream was not the last, so end it as they did
 			let page_end_info = if is_last_stream_packet {
 				PacketWriteEndInfo::EndStream
 			} else if packet_number == 0
 				|| packet_number == 2
 				|| (!remuxer_settings.ignore_start_sample_offset
-					&& stream_state.start_granule_position_offset.is_some_and(|offset| offset < 0)
+					&& stream_state.start_granule_position_offset.is_some_and(|offset| offset != 0)
 					&& is_last_packet_in_original_first_audio_page)
 			{
 				PacketWriteEndInfo::EndPage
-- 
2.43.0


From fe67832882ff3aca6b9105013c2823091d01542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 12/20] fix: refuse packets of a stream that ended, after
 another has started

---
 packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 9da86f4..c442f78 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -283,6 +283,7 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 	while let Some(packet) = packet_reader.read_packet()? {
 		let stream_serial = packet.stream_serial();
 		let page_checksum = packet.checksum_page();
+		let last_stream_index = vorbis_streams.len().saturating_sub(1);
 
 		if packet.first_in_stream() {
 			match VorbisOptimizer::new(optimizer_settings, packet.data) {
@@ -348,9 +349,17 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 					return Err(error.into());
 				}
 			}
-		} else if let Some(stream_state) = vorbis_streams.get_mut(&stream_serial) {
+		} else if let Some((stream_index, _, stream_state)) =
+			vorbis_streams.get_full_mut(&stream_serial)
+		{
 			// The second and next Vorbis packets of a Vorbis logical bitstream
 
+			if stream_index != last_stream_index {
+				// Another Vorbis logical bitstream has started since, even though this one
+				// was over according to its EOS flag. These streams are grouped, too
+				return Err(RemuxError::UnsupportedStreamMultiplexing);
+			}
+
 			// last_in_stream() may return false for the last packet of a bitstream
 			// if its page does not set the EOS flag, but that's not a concern if
 			// no other packets follow. If they do, and are not for this stream,
-- 
2.43.0


From f13db20728f42c0b4ae29453c1effa48744f58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 13/20] fix: read signed integers of zero width without
 overflowing

---
 packages/vorbis_bitpack/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 71b9ca4..54de9f5 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -440,7 +440,11 @@ const fn ones_mask(width: BitpackedIntegerWidth) -> u32 {
 /// word to a native 32-bit signed integer.
 const fn sign_extend(integer: u32, width: BitpackedIntegerWidth) -> i32 {
 	let extended_bits = 32 - width.get() as u32;
-	(integer as i32) << extended_bits >> extended_bits
+	// A zero width shifts by the width of the word. As the integer is zero then, not shifting
+	// it gives the right result
+	(integer as i32)
+		.wrapping_shl(extended_bits)
+		.wrapping_shr(extended_bits)
 }
 
 /// Unpacks the specified 32-bit word containing a Vorbis codebook float value, as
-- 
2.43.0


From 060579f6fdc3aa72ced40b88a5ef8a1ea7aa1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 14/20] fix: refuse floors that repeat the implicit point at
 zero

---
 .../optivorbis/src/vorbis/optimizer/setup_header_parse.rs  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 8e7512f..7a40a21 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -539,13 +539,16 @@ fn parse_floor1_configurations<R: Read>(
 			IndexSet::with_capacity(partition_class_list.len() * maximum_class_dimension as usize);
 		for current_class in partition_class_list.iter().copied().map(|c| c as usize) {
 			for _ in 0..class_dimensions[current_class] {
-				if !x_list.insert(bitpack_packet_read!(
+				let x_value = bitpack_packet_read!(
 					bitpacker,
 					read_unsigned_integer,
 					header_length,
 					mut range_bits,
 					u16
-				)?) {
+				)?;
+
+				// The first point of the curve, which is not in the stream, is always at zero
+				if x_value == 0 || !x_list.insert(x_value) {
 					// The specification does not allow repeated values
 					return Err(VorbisOptimizerError::RepeatedFloor1Point(i));
 				}
-- 
2.43.0


From 5bb539bdbfa74dfad8230cd2918b4c68a131df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 15/20] fix: count the implicit points in the limit of floor
 points

---
 .../optivorbis/src/vorbis/optimizer/setup_header_parse.rs  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 7a40a21..5c15499 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -89,7 +89,7 @@ pub(super) struct Floor1Configuration {
 	/// At most 15 elements. Each element at most has 8 elements. Each codebook
 	/// index is 8 bits. `None` means no codebook for the subclass.
 	pub(super) subclass_books: Vec<Vec<Option<u8>>>,
-	/// At most 65 point X-coordinates, each [0, 15]-bit integers.
+	/// At most 63 point X-coordinates, each [0, 15]-bit integers.
 	pub(super) x_list: Vec<u16>
 }
 
@@ -555,8 +555,9 @@ fn parse_floor1_configurations<R: Read>(
 			}
 		}
 
-		// Limit imposed by the specification
-		if x_list.len() > 65 {
+		// Limit imposed by the specification, which counts the two points that are not in
+		// the stream
+		if x_list.len() + 2 > 65 {
 			return Err(VorbisOptimizerError::TooManyFloor1Points(i));
 		}
 
-- 
2.43.0


From 8f014aa4c813b2a0615ec0cd27a7c3bc38d0bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:14 +0000
Subject: [PATCH 16/20] fix: do not overflow with long comment header lengths
 on 32-bit targets

The lengths are 32-bit values, so on targets with 32-bit pointers their sum with
an offset could overflow. Builds with overflow checks, such as WebAssembly
development builds, panicked.
---
 .../optivorbis/src/vorbis/optimizer/comment_header_parse.rs  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
index 4659722..e990edd 100644
--- a/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
@@ -143,7 +143,7 @@ fn parse(
 	// won't happen that valid vendor strings are made non-conforming by us.
 	//
 	// As a side benefit, skipping UTF-8 validation is a bit faster
-	let raw_vendor_string = get_packet_checked!(4..4 + vendor_string_length);
+	let raw_vendor_string = get_packet_checked!(4..vendor_string_length.saturating_add(4));
 
 	info!(
 		"Encoder vendor string: {}",
@@ -183,7 +183,8 @@ fn parse(
 					.try_into()
 					.unwrap()
 			))?;
-			let user_comment_end_index = user_comment_length_end_index + user_comment_length;
+			let user_comment_end_index =
+				user_comment_length_end_index.saturating_add(user_comment_length);
 
 			// We don't do any validation on the actual contents of the comments because not
 			// all encoders follow the specification, and we don't care about their contents
-- 
2.43.0


From bf192948f6ca43e1cbedaf144f92ae8acdde2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 17/20] fix: write codeword lengths in the ordered format when
 they are sorted

---
 .../vorbis/optimizer/setup_header_rewrite.rs  | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs
index 5b278ad..9f0df7c 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs
@@ -122,7 +122,7 @@ fn optimize_and_write_codebooks<W: Write>(
 				has_unused_entries =
 					has_unused_entries || cw_length_window[0] == 0 || cw_length_window[1] == 0;
 
-				cw_lengths_are_sorted && cw_length_window[0] > cw_length_window[1]
+				cw_lengths_are_sorted && cw_length_window[0] <= cw_length_window[1]
 			}
 		);
 
@@ -163,25 +163,30 @@ fn optimize_and_write_codebooks<W: Write>(
 
 			// Write the number of codewords per length, starting at the length of the codeword
 			// for entry 0. This is easy and efficient thanks to a good library :)
-			// The decoder will assume that the next run of codewords have + 1 length. We can
-			// assume that here too due to how optimal Huffman codeword lengths are constructed:
-			// it does not make sense to go one level down in the tree when there are free
-			// leaves in the previous level
+			// The decoder will assume that the next run of codewords have + 1 length, so lengths
+			// that no codeword has are written as empty runs
 			let mut processed_entries = 0;
+			let mut next_codeword_length = optimal_codeword_lengths[0];
 			for codeword_length_run in optimal_codeword_lengths.exponential_group() {
-				let entries_per_codeword_length = codeword_length_run.len();
+				let skipped_codeword_lengths = codeword_length_run[0] - next_codeword_length;
 
-				bitpacker.write_unsigned_integer(
-					entries_per_codeword_length as u32,
-					// This can be assumed to be successful because entry_count is at most
-					// 2^24 and processed_entries <= entry_count, so ilog returns at most 24
-					BitpackedIntegerWidth::new(ilog(
-						codebook_configuration.entry_count as i32 - processed_entries
-					))
-					.unwrap()
-				)?;
+				for entries_per_codeword_length in (0..skipped_codeword_lengths)
+					.map(|_| 0)
+					.chain([codeword_length_run.len()])
+				{
+					bitpacker.write_unsigned_integer(
+						entries_per_codeword_length as u32,
+						// This can be assumed to be successful because entry_count is at most
+						// 2^24 and processed_entries <= entry_count, so ilog returns at most 24
+						BitpackedIntegerWidth::new(ilog(
+							codebook_configuration.entry_count as i32 - processed_entries
+						))
+						.unwrap()
+					)?;
+				}
 
-				processed_entries += entries_per_codeword_length as i32;
+				processed_entries += codeword_length_run.len() as i32;
+				next_codeword_length = codeword_length_run[0] + 1;
 			}
 		} else {
 			bitpacker.write_flag(has_unused_entries)?;
-- 
2.43.0


From 7a1f1526d49365d224ccae3d58bc0735edd16856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 18/20] fix: do not truncate the input file when it is the
 output file too

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index cbf5e08..a09beb8 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -2,7 +2,7 @@ use std::{
 	borrow::Cow,
 	env,
 	fmt::Display,
-	fs::File,
+	fs::{File, metadata},
 	io::{BufReader, BufWriter, Read, Seek, Write, stderr, stdout},
 	path::Path,
 	process::exit,
@@ -157,6 +157,11 @@ fn run() -> Result<(), Cow<'static, str>> {
 							(&mut output_stdout, None)
 						}
 						file_path => {
+							// Creating the output file truncates it
+							if is_same_file(input_file_name, file_path) {
+								Err("The input and output files are the same file")?;
+							}
+
 							output_file = BufWriter::new(
 								File::create(file_path)
 									.map_err(|err| format!("Could not open output file: {err}"))?
@@ -200,6 +205,29 @@ fn run() -> Result<(), Cow<'static, str>> {
 	}
 }
 
+/// Checks whether both paths refer to the same existing, regular file.
+fn is_same_file(first_path: &str, second_path: &str) -> bool {
+	let (Ok(first_metadata), Ok(second_metadata)) = (metadata(first_path), metadata(second_path))
+	else {
+		return false;
+	};
+
+	#[cfg(unix)]
+	let same_file = {
+		use std::os::unix::fs::MetadataExt;
+
+		first_metadata.dev() == second_metadata.dev()
+			&& first_metadata.ino() == second_metadata.ino()
+	};
+	#[cfg(not(unix))]
+	let same_file = match (std::fs::canonicalize(first_path), std::fs::canonicalize(second_path)) {
+		(Ok(first_path), Ok(second_path)) => first_path == second_path,
+		_ => false
+	};
+
+	same_file && first_metadata.is_file() && second_metadata.is_file()
+}
+
 fn remux<F: Read + Seek>(
 	option_matches: &Matches,
 	input_file: F,
-- 
2.43.0


From 61f0c9b1d24cf09c6c1d576f0268c2f2d2623f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 19/20] fix: do not process files dropped on the button of the
 web demo twice

The button that opens the file dialog is inside the label, and both handle drops: the drop
event of the button bubbled to the label, so the file was optimized twice, and the second
result replaced the first one, which may have been playing.
---
 web/src/ts/input_file_drop_zone.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/src/ts/input_file_drop_zone.ts b/web/src/ts/input_file_drop_zone.ts
index 195ea44..2ca1d55 100644
--- a/web/src/ts/input_file_drop_zone.ts
+++ b/web/src/ts/input_file_drop_zone.ts
@@ -55,6 +55,8 @@ function handleAudioFileDrop(event: DragEvent) {
     fileInputLabel.classList.remove(...dropHighlightElementClasses);
 
     event.preventDefault();
+    // The button is inside the label. Do not process files dropped on it twice
+    event.stopPropagation();
   }
 }
 
-- 
2.43.0


From a1d312f727e0b1d02aa383f72f4b62cbd235edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 20/20] fix: add the start offset to granule positions of pages
 that end before the original first audio page

---
 .../src/remuxer/ogg_to_ogg/granulator.rs      | 149 ++++++------------
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs  |  26 ++-
 2 files changed, 75 insertions(+), 100 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs
index def99e1..23c5ff9 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs
@@ -57,46 +57,17 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 
 			0
 		}
-		(
-			None,
-			None,
-			Some((_, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 3,
-			_
-		) if final_packet_in_first_audio_page_number != processed_packet_count => {
-			// Same case as above, this packet is not special in any other way
-
-			stream_state.last_written_packet_granule_position = Some(0);
-			stream_state.last_written_packet_sample_block_size =
-				Some(packet_sample_block_size.unwrap());
+		(None, None, Some(_), 3, _) => {
+			// Same case as above, but take into account the initial sample offset. It was
+			// computed in the first pass, because packets may get bigger, so our first audio
+			// page may end sooner than the original one
 
-			0
-		}
-		(
-			None,
-			None,
-			Some((first_audio_page_granule_position, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 3,
-			_
-		) if final_packet_in_first_audio_page_number == processed_packet_count => {
-			// Same case as above, but compare the calculated granule position for
-			// this packet, 0, with the actual granule position. Its difference
-			// is the initial sample offset we should add to any future granule
-			// position to not discard sample truncation at the beginning, or
-			// livestream running time up to the encoded start point
-
-			// No-op subtraction for human comprehension, optimized out by the compiler
-			#[allow(clippy::identity_op)]
-			let start_granule_position_offset = first_audio_page_granule_position - 0;
-
-			let actual_granule_position =
-				0i64.wrapping_add(if remuxer_settings.ignore_start_sample_offset {
-					0
-				} else {
-					start_granule_position_offset
-				});
+			let actual_granule_position = if remuxer_settings.ignore_start_sample_offset {
+				0
+			} else {
+				stream_state.start_granule_position_offset.unwrap_or(0)
+			};
 
-			stream_state.start_granule_position_offset = Some(start_granule_position_offset);
 			stream_state.last_written_packet_granule_position = Some(actual_granule_position);
 			stream_state.last_written_packet_sample_block_size =
 				Some(packet_sample_block_size.unwrap());
@@ -131,10 +102,10 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 		(
 			Some(last_written_packet_granule_position),
 			Some(last_written_packet_sample_block_size),
-			Some((_, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 4..,
+			Some(_),
+			4..,
 			false
-		) if final_packet_in_first_audio_page_number != processed_packet_count => {
+		) => {
 			// Same case as above, this packet is not special in any other way
 
 			let packet_sample_block_size = packet_sample_block_size.unwrap();
@@ -150,64 +121,6 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 
 			calculated_granule_position
 		}
-		(
-			Some(last_written_packet_granule_position),
-			Some(last_written_packet_sample_block_size),
-			Some((first_audio_page_granule_position, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 4..,
-			false
-		) if final_packet_in_first_audio_page_number == processed_packet_count => {
-			// Same case as above, but compare the calculated granule position for
-			// this packet with the actual granule position. Its difference
-			// is the initial sample offset we should add to any future granule
-			// position to not discard sample truncation at the beginning, or
-			// livestream running time up to the encoded start point.
-			//
-			// Note that only packets returned from now on will have its granule
-			// adjusted. This is not a concern for our purposes, as the original
-			// Ogg Vorbis stream was checked to be valid, and the original stream
-			// either finishes the first page sooner or at the same time than us,
-			// so the non-adjusted granule position for previous packets will not
-			// be written to the stream. User-defined stream manglers can challenge
-			// this and other assumptions, though, but that's not a concern either.
-			//
-			// A concerning edge case is when enough packets in the first page of
-			// the original stream are discarded. In that case, the first last
-			// non-ignored audio packet may be placed in the second page by us, and
-			// thus the granule position of the first page we write will not account
-			// for any offset. This is extremely unlikely in practice, so we can solve
-			// it with the sophisticated ostrich algorithm. If it really matters to
-			// anyone, they can probably ignore the start sample offset anyway
-
-			let packet_sample_block_size = packet_sample_block_size.unwrap();
-
-			let calculated_granule_position = calculate_granule_position(
-				last_written_packet_granule_position,
-				last_written_packet_sample_block_size,
-				packet_sample_block_size
-			);
-
-			// Fuzzing discovered that the granule position may be very negative, and thus the
-			// subtraction would overflow. Saturate it to keep the numerically closest value.
-			// Such extremely negative granule positions are invalid according to the specification
-			// anyway
-			let start_granule_position_offset =
-				first_audio_page_granule_position.saturating_sub(calculated_granule_position);
-
-			let actual_granule_position = calculated_granule_position.wrapping_add(
-				if remuxer_settings.ignore_start_sample_offset {
-					0
-				} else {
-					start_granule_position_offset
-				}
-			);
-
-			stream_state.start_granule_position_offset = Some(start_granule_position_offset);
-			stream_state.last_written_packet_granule_position = Some(actual_granule_position);
-			stream_state.last_written_packet_sample_block_size = Some(packet_sample_block_size);
-
-			actual_granule_position
-		}
 		(
 			Some(last_written_packet_granule_position),
 			Some(last_written_packet_sample_block_size),
@@ -278,6 +191,44 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 	}
 }
 
+/// Computes the difference between the granule position of the first audio page of the original
+/// stream and the one it would have if the stream started at time zero, and adds it to the stream
+/// state. It is the initial sample offset we should add to the granule positions to not discard
+/// sample truncation at the beginning, or livestream running time up to the encoded start point.
+///
+/// This should be called for every non-discarded audio packet in the analysis pass, in order.
+pub(super) fn analyze_start_granule_position_offset(
+	packet_sample_block_size: u16,
+	packet_number: usize,
+	stream_state: &mut VorbisStreamState
+) {
+	let calculated_granule_position = stream_state
+		.last_analyzed_packet_granule_position_and_block_size
+		.map_or(0, |(granule_position, sample_block_size)| {
+			calculate_granule_position(
+				granule_position,
+				sample_block_size,
+				packet_sample_block_size
+			)
+		});
+
+	if let Some((granule_position, final_packet_number)) =
+		stream_state.original_last_audio_packet_in_first_audio_page_granule_position
+	{
+		if final_packet_number == packet_number {
+			// Fuzzing discovered that the granule position may be very negative, and thus the
+			// subtraction would overflow. Saturate it to keep the numerically closest value.
+			// Such extremely negative granule positions are invalid according to the specification
+			// anyway
+			stream_state.start_granule_position_offset =
+				Some(granule_position.saturating_sub(calculated_granule_position));
+		}
+	}
+
+	stream_state.last_analyzed_packet_granule_position_and_block_size =
+		Some((calculated_granule_position, packet_sample_block_size));
+}
+
 /// Calculates a valid granule position for an Ogg Vorbis packet from the granule position of
 /// the last written packet, its block size, and the block size of the current packet. Effectively,
 /// the granule position of the last packet will be incremented by the amount of samples that an
diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index c442f78..5da608d 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -11,7 +11,7 @@ use std::{
 	time::UNIX_EPOCH
 };
 
-use granulator::granule_position_for_packet;
+use granulator::{analyze_start_granule_position_offset, granule_position_for_packet};
 use indexmap::{IndexMap, map::Entry};
 use log::info;
 use ogg::{OggReadError, PacketReader, PacketWriteEndInfo, PacketWriter, PageParsingOptions};
@@ -160,6 +160,7 @@ struct VorbisStreamState<'settings> {
 	original_last_audio_packet_in_first_audio_page_granule_position: Option<(i64, usize)>,
 	last_written_packet_granule_position: Option<i64>,
 	last_written_packet_sample_block_size: Option<u16>,
+	last_analyzed_packet_granule_position_and_block_size: Option<(i64, u16)>,
 	start_granule_position_offset: Option<i64>,
 	analyzed_packet_count: usize,
 	optimized_packet_count: usize,
@@ -326,6 +327,7 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 							original_last_audio_packet_in_first_audio_page_granule_position: None,
 							last_written_packet_granule_position: None,
 							last_written_packet_sample_block_size: None,
+							last_analyzed_packet_granule_position_and_block_size: None,
 							start_granule_position_offset: None,
 							analyzed_packet_count: 1, // Just processed the identification header packet
 							optimized_packet_count: 0,
@@ -390,6 +392,14 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 						));
 				}
 
+				if let Some(packet_sample_block_size) = packet_sample_block_size {
+					analyze_start_granule_position_offset(
+						packet_sample_block_size,
+						stream_state.analyzed_packet_count,
+						stream_state
+					);
+				}
+
 				stream_state.analyzed_packet_count =
 					stream_state.analyzed_packet_count.saturating_add(1);
 
@@ -398,6 +408,20 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 		}
 	}
 
+	for stream_state in vorbis_streams.values_mut() {
+		// If the first audio page is the last one too, the difference with the expected granule
+		// position means samples truncated in the end, unless its only audio packet is the first,
+		// which does not yield samples
+		if stream_state
+			.original_last_audio_packet_in_first_audio_page_granule_position
+			.is_some_and(|(_, final_packet_number)| {
+				final_packet_number != 3
+					&& final_packet_number == stream_state.analyzed_packet_count - 1
+			}) {
+			stream_state.start_granule_position_offset = None;
+		}
+	}
+
 	if vorbis_streams.is_empty() && remuxer_settings.error_on_no_vorbis_streams {
 		Err(RemuxError::NoVorbisStreamFound)
 	} else {
-- 
2.43.0

