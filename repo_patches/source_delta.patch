From 87e847db0e6757575e23122a1c227976a85ba799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 01/15] fix: include the last row group in stripe and file
 statistics

---
 src/writer/stripe.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 15f51a3..c9345a0 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -80,12 +80,14 @@ impl Stripe {
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
-        let mut statistics: Vec<Statistics> = Vec::new();
-        self.data.statistics(&mut statistics);
 
         let index_start_pos = out.pos();
         self.data.write_index_streams(out, &mut stream_infos)?;
 
+        // Writing the index finishes the last row group, so that the statistics are now complete.
+        let mut statistics: Vec<Statistics> = Vec::new();
+        self.data.statistics(&mut statistics);
+
         let data_start_pos = out.pos();
         self.data.write_data_streams(out, &mut stream_infos)?;
         
-- 
2.43.0


From de0a5aa63c0fa27fee420503fc3c611b88a595bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 02/15] fix: do not drop the high bits of timestamp nanoseconds

---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 465b2b6..8063f10 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -127,7 +127,7 @@ impl TimestampData {
 
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
-        self.streams.nanos.write((nanos_val << 3 | trailing_zeros) as u64);
+        self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
-- 
2.43.0


From c2aca0cf734b21a8d781555a4f8d82bb92c9db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 03/15] fix: record timestamp statistics relative to the UNIX
 epoch

---
 src/writer/data/timestamp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 8063f10..71082d6 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -128,7 +128,8 @@ impl TimestampData {
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
-        self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
+        // Statistics are in milliseconds relative to the UNIX epoch
+        self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
 }
-- 
2.43.0


From 1a8f7655f261470645adefd87538c91295ac517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 04/15] fix: never put more than the block size into a
 compressed block

---
 src/writer/compression.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/writer/compression.rs b/src/writer/compression.rs
index bc52cf7..424981c 100644
--- a/src/writer/compression.rs
+++ b/src/writer/compression.rs
@@ -94,6 +94,7 @@ struct BlockInfo {
 
 pub(crate) struct CompressionStream {
     compressor: Option<Box<dyn Compressor>>,
+    block_size: usize,
     buf: Buffer,
     output: Buffer,
     output_block_info: Vec<BlockInfo>,
@@ -120,6 +121,7 @@ impl CompressionStream {
     pub fn new(compression: &Compression) -> Self {
         CompressionStream {
             compressor: compression.compressor(),
+            block_size: compression.block_size(),
             buf: Buffer::with_capacity(compression.block_size()),
             output: Buffer::new(),
             output_block_info: Vec::new(),
@@ -167,7 +169,7 @@ impl CompressionStream {
 
     #[inline(always)]
     pub fn write_u8(&mut self, b: u8) {
-        if self.buf.len() >= self.buf.capacity() {
+        if self.buf.len() >= self.block_size {
             self.finish_block();
             self.buf.write_u8(b);
         } else {
@@ -178,15 +180,14 @@ impl CompressionStream {
     #[inline(always)]
     pub fn write_bytes(&mut self, bytes: &[u8]) {
         if let Some(_) = &mut self.compressor {
-            if self.buf.len() + bytes.len() > self.buf.capacity() {
-                let i = self.buf.capacity() - self.buf.len();
+            let mut bytes = bytes;
+            while self.buf.len() + bytes.len() > self.block_size {
+                let i = self.block_size - self.buf.len();
                 self.buf.write_bytes(&bytes[..i]);
                 self.finish_block();
-                self.buf.resize(0);
-                self.buf.write_bytes(&bytes[i..]);
-            } else {
-                self.buf.write_bytes(bytes);
+                bytes = &bytes[i..];
             }
+            self.buf.write_bytes(bytes);
         } else {
             self.buf.write_bytes(bytes);
         }
-- 
2.43.0


From c737320535e45301ffb10af3105a6b26ad9e01fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 05/15] fix: write the header and the postscript length
 completely

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index bd7aa2d..5dc7ec5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -107,14 +107,14 @@ impl<W: Write> Writer<W> {
 
         let end_pos = self.inner.pos();
         let postscript_length = (end_pos - postscript_start_pos) as u8;
-        self.inner.write(slice::from_ref(&postscript_length))?;
+        self.inner.write_all(slice::from_ref(&postscript_length))?;
 
         self.inner.flush()?;
         Ok(self.inner.into_inner())
     }
 
     fn write_header(&mut self) -> Result<()> {
-        self.inner.write(b"ORC")?;
+        self.inner.write_all(b"ORC")?;
         Ok(())
     }
 
-- 
2.43.0


From 1f40c9af7c0901202e75b5c05f560cd02bf4db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 06/15] fix: do not let NaN hide other values from min and max
 statistics

---
 src/writer/statistics/double.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/writer/statistics/double.rs b/src/writer/statistics/double.rs
index f107b95..377ff4a 100644
--- a/src/writer/statistics/double.rs
+++ b/src/writer/statistics/double.rs
@@ -47,8 +47,11 @@ impl DoubleStatistics {
     pub fn update(&mut self, x: f64) {
         self.num_values += 1;
         self.num_present += 1;
-        merge_min(&mut self.min, Some(x));
-        merge_max(&mut self.max, Some(x));
+        // NaN compares with nothing, so it must not become the minimum or maximum
+        if !x.is_nan() {
+            merge_min(&mut self.min, Some(x));
+            merge_max(&mut self.max, Some(x));
+        }
         self.sum += x;
     }
 }
-- 
2.43.0


From 095ff9d89281f2fe478a1c3a6f60a4b244666f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 07/15] fix: format the smallest 128-bit decimal in statistics

---
 src/writer/statistics/decimal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/writer/statistics/decimal.rs b/src/writer/statistics/decimal.rs
index cda4aab..58d8e1a 100644
--- a/src/writer/statistics/decimal.rs
+++ b/src/writer/statistics/decimal.rs
@@ -67,13 +67,13 @@ impl DecimalStatistics {
         merge_sum(&mut self.sum, Some(x));
     }
 
-    pub fn format(&self, mut val: i128) -> String {
+    pub fn format(&self, val: i128) -> String {
         let mut out = String::new();
         if val < 0 {
             out.push_str("-");
-            val = -val;
         }
-        let modulus = 10i128.pow(self.scale);
+        let val = val.unsigned_abs();
+        let modulus = 10u128.pow(self.scale);
         let quo = val / modulus;
         let rem = val % modulus;
         write!(&mut out, "{}", quo).unwrap();
-- 
2.43.0


From 5b5247eaad8ba02562499cdd198461b1ac923111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 08/15] fix: reject a compression block size of zero

---
 src/writer/compression/snappy.rs | 2 +-
 src/writer/compression/zstd.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer/compression/snappy.rs b/src/writer/compression/snappy.rs
index d7ed2c8..028fbab 100644
--- a/src/writer/compression/snappy.rs
+++ b/src/writer/compression/snappy.rs
@@ -16,7 +16,7 @@ impl SnappyCompression {
     }
 
     pub fn with_block_size(mut self, block_size: usize) -> Self {
-        assert!(block_size <= MAX_BLOCK_SIZE);
+        assert!(block_size >= 1 && block_size <= MAX_BLOCK_SIZE);
         self.block_size = block_size;
         self
     } 
diff --git a/src/writer/compression/zstd.rs b/src/writer/compression/zstd.rs
index 045cdeb..be3d5b8 100644
--- a/src/writer/compression/zstd.rs
+++ b/src/writer/compression/zstd.rs
@@ -20,7 +20,7 @@ impl ZstdCompression {
     }
 
     pub fn with_block_size(mut self, block_size: usize) -> Self {
-        assert!(block_size <= MAX_BLOCK_SIZE);
+        assert!(block_size >= 1 && block_size <= MAX_BLOCK_SIZE);
         self.block_size = block_size;
         self
     }
-- 
2.43.0


From 1749bd1623de786ca3666110a41a1231f7b9b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 09/15] fix: record date statistics for DATE columns

---
 src/writer/data/long.rs  | 11 +++++++++--
 src/writer/statistics.rs | 17 +++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/long.rs b/src/writer/data/long.rs
index e9e37a4..ba8cc0e 100644
--- a/src/writer/data/long.rs
+++ b/src/writer/data/long.rs
@@ -93,6 +93,13 @@ impl LongData {
         }
     }
 
+    fn make_statistics(&self, stats: LongStatistics) -> Statistics {
+        match self.schema {
+            Schema::Date => Statistics::Date(stats),
+            _ => Statistics::Long(stats),
+        }
+    }
+
     pub fn write(&mut self, x: i64) {
         self.streams.present.write(true);
         self.streams.data.write(x);
@@ -125,7 +132,7 @@ impl BaseData for LongData {
             let mut positions: Vec<u64> = Vec::new();
             entry.position.record(self.stripe_stats.has_null(), &mut positions);
             row_index_entry.set_positions(positions);
-            row_index_entry.set_statistics(Statistics::Long(entry.stats).to_proto());
+            row_index_entry.set_statistics(self.make_statistics(entry.stats).to_proto());
             row_index_entries.push(row_index_entry);
         }
         write_index(row_index_entries, self.column_id(), &self.config.compression, out, stream_infos_out)?;
@@ -163,7 +170,7 @@ impl BaseData for LongData {
     }
 
     fn statistics(&self, out: &mut Vec<Statistics>) {
-        out.push(Statistics::Long(self.stripe_stats));
+        out.push(self.make_statistics(self.stripe_stats));
     }
 
     fn estimated_size(&self) -> usize {
diff --git a/src/writer/statistics.rs b/src/writer/statistics.rs
index d3286ba..5dd0108 100644
--- a/src/writer/statistics.rs
+++ b/src/writer/statistics.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use crate::protos::orc_proto;
 
 pub use common::BaseStatistics;
@@ -24,6 +26,7 @@ mod binary;
 pub enum Statistics {
     Boolean(BooleanStatistics),
     Long(LongStatistics),
+    Date(LongStatistics),
     Double(DoubleStatistics),
     Decimal(DecimalStatistics),
     Timestamp(TimestampStatistics),
@@ -41,6 +44,10 @@ impl Statistics {
         if let Statistics::Long(x) = self { x } else { panic!("invalid argument to unwrap_long"); }
     }
 
+    pub fn unwrap_date(&self) -> &LongStatistics { 
+        if let Statistics::Date(x) = self { x } else { panic!("invalid argument to unwrap_date"); }
+    }
+
     pub fn unwrap_decimal(&self) -> &DecimalStatistics { 
         if let Statistics::Decimal(x) = self { x } else { panic!("invalid argument to unwrap_decimal"); }
     }
@@ -82,6 +89,12 @@ impl Statistics {
                 if let Some(x) = long_statistics.sum { int_stat.set_sum(x); }
                 stat.set_intStatistics(int_stat);
             }
+            Statistics::Date(d) => {
+                let mut date_stat = orc_proto::DateStatistics::new();
+                if let Some(x) = d.min.and_then(|x| i32::try_from(x).ok()) { date_stat.set_minimum(x); }
+                if let Some(x) = d.max.and_then(|x| i32::try_from(x).ok()) { date_stat.set_maximum(x); }
+                stat.set_dateStatistics(date_stat);
+            }
             Statistics::Decimal(d) => {
                 let mut dec_stat = orc_proto::DecimalStatistics::new();
                 if let Some(x) = d.min { dec_stat.set_minimum(d.format(x)); }
@@ -125,6 +138,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.update_null(),
             Statistics::Long(x) => x.update_null(),
+            Statistics::Date(x) => x.update_null(),
             Statistics::Double(x) => x.update_null(),
             Statistics::Decimal(x) => x.update_null(),
             Statistics::Timestamp(x) => x.update_null(),
@@ -138,6 +152,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.num_values(),
             Statistics::Long(x) => x.num_values(),
+            Statistics::Date(x) => x.num_values(),
             Statistics::Double(x) => x.num_values(),
             Statistics::Decimal(x) => x.num_values(),
             Statistics::Timestamp(x) => x.num_values(),
@@ -151,6 +166,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.num_present(),
             Statistics::Long(x) => x.num_present(),
+            Statistics::Date(x) => x.num_present(),
             Statistics::Double(x) => x.num_present(),
             Statistics::Decimal(x) => x.num_present(),
             Statistics::Timestamp(x) => x.num_present(),
@@ -164,6 +180,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.merge(rhs.unwrap_boolean()),
             Statistics::Long(x) => x.merge(rhs.unwrap_long()),
+            Statistics::Date(x) => x.merge(rhs.unwrap_date()),
             Statistics::Double(x) => x.merge(rhs.unwrap_double()),
             Statistics::Decimal(x) => x.merge(rhs.unwrap_decimal()),
             Statistics::Timestamp(x) => x.merge(rhs.unwrap_timestamp()),
-- 
2.43.0


From fb353e50978b2ead6b582c9823f35f5cd409731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 10/15] fix: keep reporting failure after an output error

---
 src/writer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5dc7ec5..5c08302 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -1,7 +1,7 @@
 use super::protos::orc_proto;
 use super::schema::Schema;
 use protobuf::{CodedOutputStream, Message, RepeatedField};
-use std::io::{Result, Write};
+use std::io::{Error, ErrorKind, Result, Write};
 use std::slice;
 
 use count_write::CountWrite;
@@ -57,6 +57,8 @@ pub struct Writer<W: Write> {
     config: Config,
     current_stripe: Stripe,
     stripe_infos: Vec<StripeInfo>,
+    // Set while writing a stripe, and left set if that fails: the output is then incomplete.
+    failed: bool,
 }
 
 impl<W: Write> Writer<W> {
@@ -68,6 +70,7 @@ impl<W: Write> Writer<W> {
             current_stripe: Stripe::new(schema, &config),
             config,
             stripe_infos: Vec::new(),
+            failed: false,
         };
         writer.write_header()?;
         Ok(writer)
@@ -82,14 +85,25 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn write_batch(&mut self, num_rows: u64) -> Result<()> {
+        self.check_failed()?;
         self.current_stripe.write_batch(num_rows)?;
         if self.current_stripe.data.estimated_size() > self.config.stripe_size {
+            self.failed = true;
             self.current_stripe.finish(&mut self.inner, &mut self.stripe_infos)?;
+            self.failed = false;
+        }
+        Ok(())
+    }
+
+    fn check_failed(&self) -> Result<()> {
+        if self.failed {
+            return Err(Error::new(ErrorKind::Other, "an earlier write to the output failed"));
         }
         Ok(())
     }
 
     pub fn finish(mut self) -> Result<W> {
+        self.check_failed()?;
         self.current_stripe
             .finish(&mut self.inner, &mut self.stripe_infos)?;
         let content_length = self.current_stripe.offset - Self::HEADER_LENGTH;
-- 
2.43.0


From e8085fd454ac498b36c3023aadfa85367cffcc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 11/15] fix: do not let the sum of list or map lengths wrap
 around

Two lengths of 2^63 without any child values passed write_batch in release
builds (and overflowed in debug builds) instead of being reported as a
mismatch.
---
 src/writer/data/list.rs | 2 +-
 src/writer/data/map.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/list.rs b/src/writer/data/list.rs
index c106356..c5d5261 100644
--- a/src/writer/data/list.rs
+++ b/src/writer/data/list.rs
@@ -104,7 +104,7 @@ impl ListData {
     pub fn write(&mut self, len: u64) {
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = self.num_child_values.saturating_add(len);
         self.row_group_stats.update();
         self.check_row_group();
     }
diff --git a/src/writer/data/map.rs b/src/writer/data/map.rs
index ca128fd..30a0e44 100644
--- a/src/writer/data/map.rs
+++ b/src/writer/data/map.rs
@@ -115,7 +115,7 @@ impl MapData {
     pub fn write(&mut self, len: u64) {
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = self.num_child_values.saturating_add(len);
         self.row_group_stats.update();
         self.check_row_group();
     }
-- 
2.43.0


From 362c10aaf0ffc0fa6532f4aa0cee407351e5df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 12/15] fix: refuse a union tag equal to the number of variants
 before writing it

The tag was written to the PRESENT and DATA streams before the panic, so that a
caller that catches the panic and goes on wrote a corrupt file.
---
 src/writer/data/union.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/union.rs b/src/writer/data/union.rs
index 9f66a7c..89128ad 100644
--- a/src/writer/data/union.rs
+++ b/src/writer/data/union.rs
@@ -115,7 +115,7 @@ impl UnionData {
     }
 
     pub fn write(&mut self, tag: usize) {
-        if tag > self.child_counts.len() {
+        if tag >= self.child_counts.len() {
             panic!("tag ({}) out of range", tag);
         }
         self.streams.present.write(true);
-- 
2.43.0


From 6ff91121ef308dda72b64fe56977e299143fb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 13/15] fix: do not count the rows of a batch that is refused

The rows stayed counted after the panic, so that a caller that catches it could
not repeat the call with the right count, and finish wrote a wrong row count.
---
 src/writer/stripe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index c9345a0..38f7506 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -47,8 +47,9 @@ impl Stripe {
     }
 
     pub fn write_batch(&mut self, num_rows: u64) -> Result<()> {
-        self.num_rows += num_rows;
-        self.data.verify_row_count(self.num_rows);
+        let num_rows = self.num_rows + num_rows;
+        self.data.verify_row_count(num_rows);
+        self.num_rows = num_rows;
         Ok(())
     }
 
-- 
2.43.0


From 8bc0d2580a8d67d64412957911cbb13e8848df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 14/15] fix: refuse to finish with values that belong to no
 batch

They were written to the streams and counted in the statistics, but not in the
number of rows; if the stripe had no rows, they were dropped silently.
---
 src/writer/stripe.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 38f7506..6641f96 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -79,6 +79,7 @@ impl Stripe {
     }
 
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
+        self.data.verify_row_count(self.num_rows);
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
 
-- 
2.43.0


From 4947b75960be2288c6e4cebc759e25fc704d05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 15/15] fix: timestamps near the limits of 64 bits overflowed

The statistics wrapped (or the call panicked after writing to the streams, in a
debug build), and an instant too early for the ORC epoch became a late one.
---
 src/writer/data/timestamp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 71082d6..9b717db 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -101,7 +101,10 @@ impl TimestampData {
 
     
     pub fn write_nanos_epoch(&mut self, sec_epoch: i64, nanos: u32) {
-        self.write_nanos(sec_epoch + Self::EPOCH_SECONDS, nanos);
+        match sec_epoch.checked_add(Self::EPOCH_SECONDS) {
+            Some(sec) => self.write_nanos(sec, nanos),
+            None => panic!("timestamp ({} seconds) out of range", sec_epoch),
+        }
     }
 
     pub fn write_nanos(&mut self, sec: i64, nanos: u32) {
@@ -129,7 +132,8 @@ impl TimestampData {
         self.streams.seconds.write(sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         // Statistics are in milliseconds relative to the UNIX epoch
-        self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
+        let millis = (sec as i128 - Self::EPOCH_SECONDS as i128) * 1000 + (nanos / 1000000) as i128;
+        self.row_group_stats.update(millis.max(i64::MIN as i128).min(i64::MAX as i128) as i64);
         self.check_row_group();
     }
 }
-- 
2.43.0

