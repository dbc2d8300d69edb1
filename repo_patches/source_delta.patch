From 4409a9889c30e89f11f2cd649d3a94d84558cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 01/28] fix: feed each source to the chain with the same index

---
 src/driver/driver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..fb3925a 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -62,9 +62,10 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
-            let source = self.sources.pop().unwrap();
-            row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
+        while let Some(source) = self.sources.pop() {
+            // sources are taken from the end, and each source feeds the chain with the same index
+            let chain_id = self.sources.len();
+            row_buffers.push(SourceRowBuffer::new(source, chain_id, &self.timestamp_range)?);
         }
         Ok(row_buffers)
     }
-- 
2.43.0


From 48489b4324cb334d3401ce47477a096735528e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 02/28] fix: do not panic on a source without rows in the
 timestamp range

---
 src/driver/driver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index fb3925a..7060159 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -65,7 +65,13 @@ impl Driver {
         while let Some(source) = self.sources.pop() {
             // sources are taken from the end, and each source feeds the chain with the same index
             let chain_id = self.sources.len();
-            row_buffers.push(SourceRowBuffer::new(source, chain_id, &self.timestamp_range)?);
+            let row_buffer = SourceRowBuffer::new(source, chain_id, &self.timestamp_range)?;
+            if row_buffer.row().is_some() {
+                row_buffers.push(row_buffer);
+            } else {
+                // source has no rows in the timestamp range
+                self.flush(chain_id, 0)?;
+            }
         }
         Ok(row_buffers)
     }
-- 
2.43.0


From df87230cc0fae7643f2669ecd67737b3043daf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 03/28] fix: write the null bitset size the dc format uses for
 any field count

---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From dfc304210acf3b8952fbc3483513e7ac0dca819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 04/28] fix: report read failures and truncated rows of dc
 input as errors

---
 src/source/dc_source.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..8a7a12f 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,10 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        if Self::is_at_end(&mut self.reader)? {
+            return Ok(None);
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
@@ -159,6 +159,21 @@ impl<R: io::Read> DCSource<R> {
         Ok(Some(self.current_row.clone()))
     }
 
+    // only the end of input between the rows is the end of data;
+    // read failures and truncated rows have to be reported as errors
+    fn is_at_end(reader: &mut io::BufReader<R>) -> io::Result<bool> {
+        loop {
+            match reader.fill_buf() {
+                Ok(buf) => return Ok(buf.is_empty()),
+                Err(e) => {
+                    if e.kind() != io::ErrorKind::Interrupted {
+                        return Err(e);
+                    }
+                }
+            }
+        }
+    }
+
     fn read_string(reader: &mut io::BufReader<R>) -> CliResult<String> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
-- 
2.43.0


From bd69f4018fd1fbea8214cba65077daf281e6b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 05/28] fix: report malformed dc strings and types as errors

---
 src/source/dc_source.rs | 20 +++++++++++++-------
 src/util/dc_util.rs     |  5 ++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 8a7a12f..205f841 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -66,12 +66,15 @@ impl<R: io::Read> DCSource<R> {
                 name = format!("col_{}", i);
             }
             field_names.push(name);
-            field_types.push(
-                map_field_string
-                    .get(field_descriptor.get_type_string())
-                    .unwrap()
-                    .clone(),
-            );
+            match map_field_string.get(field_descriptor.get_type_string()) {
+                Some(field_type) => field_types.push(field_type.clone()),
+                None => {
+                    return Err(Error::from(format!(
+                        "DCReader -- unknown field type - {}",
+                        field_descriptor.get_type_string()
+                    )))
+                }
+            }
             field_values.push(FieldValue::None);
         }
 
@@ -184,7 +187,10 @@ impl<R: io::Read> DCSource<R> {
         let string = string.as_mut_slice();
         reader.read_exact(string)?;
 
-        Ok(str::from_utf8_mut(string).unwrap().to_string())
+        match str::from_utf8_mut(string) {
+            Ok(s) => Ok(s.to_string()),
+            Err(_) => Err(Error::from("DCReader -- string value is not valid utf8")),
+        }
     }
 }
 
diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index ccd0a5c..0e151fd 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -109,7 +109,10 @@ impl FieldDescriptor {
         for _i in 0..size as usize {
             string_bytes.push(rdr.read_u8()?);
         }
-        Ok(String::from_utf8(string_bytes).unwrap().to_string())
+        match String::from_utf8(string_bytes) {
+            Ok(s) => Ok(s),
+            Err(_) => Err(Error::from("FieldDescriptor -- string is not valid utf8")),
+        }
     }
 }
 
-- 
2.43.0


From db8783bd3419a1d7b28e14167325d1aae5d3218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 06/28] fix: use the configured delimiter in the csv header

---
 src/write/csv_sink.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..08265de 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -36,17 +36,19 @@ impl CSVSink {
     fn write_csv_header(&mut self, header: &mut Header) -> CliResult<()> {
         let writer = &mut self.writer;
         let field_name = header.field_names().clone();
+        let delimiter = self.csv_output_config.delimiter();
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            first = false;
         }
         for name in field_name {
             if first {
                 write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}{}", delimiter, name)?;
             }
         }
         write!(writer, "\n")?;
-- 
2.43.0


From 7d81ce1d8e8c115a122b0a1999680eb80824a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 07/28] fix: cut extra trailing columns of later files in multi
 file input

---
 src/source/multi_file_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..4aeef3d 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -153,7 +153,7 @@ impl SerialMultiFileSource {
             };
         }
 
-        if is_identity_map {
+        if is_identity_map && new_header.field_names().len() == swap_map.len() {
             swap_map.clear();
         }
 
-- 
2.43.0


From a8d0dc0ce46a06f95521146c90824588595c0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 08/28] fix: count delimiters by bytes when guessing the
 delimiter

---
 src/util/csv_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 581611f..c4f9af1 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -35,8 +35,8 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
         counts.insert(*d, 0);
     }
 
-    for c in row.chars() {
-        counts.entry(c as u8).and_modify(|count| *count += 1);
+    for b in row.bytes() {
+        counts.entry(b).and_modify(|count| *count += 1);
     }
 
     let mut sorted = possible_delimiters.to_vec();
-- 
2.43.0


From b451ee05dbe2967ff7b72001b0a23b4d2b8090fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 09/28] fix: autodetect dc format before csv

---
 src/input/input_factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..618754f 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -153,10 +153,11 @@ pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
     let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    source_factories.push(Box::new(DCFactory));
     if let Some(csv_input_config) = csv_input_config {
+        // csv factory accepts any text, so it has to be the last one
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From 3e28d360cfd3f42816567356d569bf965825e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 10/28] fix: count extensible data headers when reading zip
 extra field

---
 src/decompress/zip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..cf1ee85 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -377,7 +377,8 @@ impl CentralDirHeader {
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
 
-            total_bytes_read += data_size as u64;
+            // header id and data size are part of the extra field too
+            total_bytes_read += 4 + data_size as u64;
         }
 
         Ok((uncompressed_size, compressed_size, local_header_offset))
-- 
2.43.0


From 20e3cb33276241c6e900de43181b5c8274c6f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 11/28] fix: decompress all the members of a gzip file

---
 src/decompress/decompress.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..9d616ef 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
@@ -116,7 +116,8 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    // gzip file can consist of multiple members, all of them have to be decompressed
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From 77d2cfee2d7ed57e6505174c8f7620df104bcf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 12/28] fix: do not leak values of the previous csv row into a
 shorter row

---
 src/source/csv_source.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..ead2d68 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,7 +5,7 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
 use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
 use crate::util::csv_util;
@@ -114,9 +114,20 @@ impl CSVSource {
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
-        for i in 0..next_record.len() {
-            self.next_row.field_values[i] =
-                FieldValue::String(next_record.get(i).unwrap().to_string());
+        let field_count = self.next_row.field_values.len();
+        if next_record.len() > field_count {
+            return Err(Error::from(format!(
+                "CSVSource -- found a row with {} columns, but expected at most {}",
+                next_record.len(),
+                field_count
+            )));
+        }
+        for i in 0..field_count {
+            // columns missing at the end of the row have no value
+            self.next_row.field_values[i] = match next_record.get(i) {
+                Some(value) => FieldValue::String(value.to_string()),
+                None => FieldValue::None,
+            };
         }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
-- 
2.43.0


From 5ef1f7f83cd75480d8213f1b947a56c04aea70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 13/28] fix: report a csv row without the timestamp column as
 an error

---
 src/source/csv_timestamp.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..aca9abc 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -85,7 +85,7 @@ pub fn get_timestamp(
     timestamp_fmt: &TimestampFmt,
     timezone: &ChopperTz,
 ) -> CliResult<Nanos> {
-    let timestamp = get_timestamp_string(record, timestamp_col);
+    let timestamp = get_timestamp_string(record, timestamp_col)?;
 
     let timestamp = match timestamp_fmt {
         TimestampFmt::Units(units) => {
@@ -152,7 +152,7 @@ fn get_timestamp_fmt_from_user_spec(
     format: String,
     timezone: &ChopperTz,
 ) -> CliResult<TimestampFmt> {
-    let timestamp = get_timestamp_string(first_row, timestamp_col);
+    let timestamp = get_timestamp_string(first_row, timestamp_col)?;
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
@@ -172,19 +172,32 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
-fn get_timestamp_string(record: &csv::StringRecord, timestamp_col: &TimestampCol) -> String {
-    match timestamp_col {
-        TimestampCol::Index(i) => record.get(*i).unwrap().to_string(),
+fn get_column(record: &csv::StringRecord, column_index: usize) -> CliResult<&str> {
+    match record.get(column_index) {
+        Some(value) => Ok(value),
+        None => Err(Error::from(format!(
+            "Row does not have timestamp column at index {}.",
+            column_index
+        ))),
+    }
+}
+
+fn get_timestamp_string(
+    record: &csv::StringRecord,
+    timestamp_col: &TimestampCol,
+) -> CliResult<String> {
+    Ok(match timestamp_col {
+        TimestampCol::Index(i) => get_column(record, *i)?.to_string(),
         TimestampCol::DateTimeIndex(d, t) => {
-            let date = record.get(*d).unwrap();
-            let time = record.get(*t).unwrap();
+            let date = get_column(record, *d)?;
+            let time = get_column(record, *t)?;
             let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
             timestamp.push_str(date);
             timestamp.push('#');
             timestamp.push_str(time);
             timestamp
         }
-    }
+    })
 }
 
 fn get_timestamp_col(
@@ -332,7 +345,7 @@ fn get_timestamp_fmt_auto_with_index(
         return Ok(TimestampFmt::Units(units));
     }
 
-    let timestamp = first_row.get(time_idx).unwrap();
+    let timestamp = get_column(first_row, time_idx)?;
 
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
@@ -387,8 +400,8 @@ fn get_timestamp_fmt_auto_with_datetimeindex(
     timezone: &ChopperTz,
     first_row: &csv::StringRecord,
 ) -> CliResult<TimestampFmt> {
-    let date = first_row.get(date_idx).unwrap();
-    let time = first_row.get(time_idx).unwrap();
+    let date = get_column(first_row, date_idx)?;
+    let time = get_column(first_row, time_idx)?;
 
     let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
     timestamp.push_str(date);
-- 
2.43.0


From 5cb0aefc9d4f1a0d702423405e1ec32344931287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 14/28] fix: report timestamps that are out of range as errors

---
 src/source/csv_timestamp.rs | 30 ++++++++++++++++++------------
 src/util/timestamp_util.rs  | 24 +++++++++++++++++++++---
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index aca9abc..a9d88d8 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -5,6 +5,7 @@ use chrono::{DateTime, NaiveDate, NaiveDateTime};
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::{DateColIdx, TimeColIdx, TimestampColConfig, TimestampFmtConfig};
+use crate::util::timestamp_util;
 use crate::util::tz::ChopperTz;
 
 // https://docs.rs/chrono/0.4/chrono/format/strftime/index.html
@@ -93,28 +94,33 @@ pub fn get_timestamp(
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
-            match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
+            let nanos = match units {
+                TimestampUnits::Seconds => timestamp.checked_mul(1_000_000_000),
+                TimestampUnits::Millis => timestamp.checked_mul(1_000_000),
+                TimestampUnits::Micros => timestamp.checked_mul(1_000),
+                TimestampUnits::Nanos => Some(timestamp),
+            };
+            match nanos {
+                Some(nanos) => nanos,
+                None => {
+                    return Err(Error::from(format!(
+                        "Timestamp {} is too large for its units.",
+                        timestamp
+                    )))
+                }
             }
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            timestamp_util::to_nanos(&DateTime::parse_from_str(&timestamp, format)?)?
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            timestamp_util::to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            timestamp_util::to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
     };
     Ok(timestamp)
diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..cbf5cfc 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -1,4 +1,4 @@
-use chrono::{DateTime, NaiveDateTime};
+use chrono::{DateTime, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
@@ -34,6 +34,24 @@ fn create_datetime_range_formats() -> Vec<String> {
     formats
 }
 
+/// fails if the time cannot be represented as a number of nanos since epoch,
+/// i.e. if it's before year 1970 or too far in the future
+pub fn to_nanos<T: TimeZone>(datetime: &DateTime<T>) -> CliResult<Nanos> {
+    let seconds = datetime.timestamp();
+    let nanos = datetime.timestamp_subsec_nanos() as Nanos;
+    if seconds >= 0 {
+        if let Some(whole) = (seconds as Nanos).checked_mul(1_000_000_000) {
+            if let Some(timestamp) = whole.checked_add(nanos) {
+                return Ok(timestamp);
+            }
+        }
+    }
+    Err(Error::from(format!(
+        "Time is out of range of supported timestamps, seconds since epoch: {}",
+        seconds
+    )))
+}
+
 pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> CliResult<Nanos> {
     let is_datetime_all_digits = datetime.chars().all(|c| c.is_ascii_digit());
     if is_datetime_all_digits {
@@ -74,14 +92,14 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return to_nanos(&dt);
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return to_nanos(&timezone.from_local_datetime(&ndt)?);
         }
     }
 
-- 
2.43.0


From e802146b84b127f1fbe7e8184916c0ebdfc3f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 15/28] fix: handle csv input without rows and with uneven
 header

---
 src/source/csv_source.rs | 46 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index ead2d68..a8e70ca 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -7,7 +7,7 @@ use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
-use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
+use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt, TimestampUnits};
 use crate::util::csv_util;
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
 use crate::util::tz::ChopperTz;
@@ -60,8 +60,10 @@ impl CSVSource {
             .from_reader(reader);
 
         // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
-        let field_count = first_row.len();
+        let first_row = match reader.records().next() {
+            Some(r) => Some(r?),
+            None => None,
+        };
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -70,12 +72,13 @@ impl CSVSource {
             for i in header_record {
                 field_names.push(i.to_string());
             }
-        } else {
-            // if field name is not given, assign default name - "col_x"
-            for i in 0..field_count {
-                field_names.push(format!("col_{}", i));
-            }
         }
+        // if field name is not given, assign default name - "col_x"
+        let first_row_len = first_row.as_ref().map_or(0, |r| r.len());
+        for i in field_names.len()..first_row_len {
+            field_names.push(format!("col_{}", i));
+        }
+        let field_count = field_names.len();
 
         // initialize next_row
         let timestamp: Nanos = 0;
@@ -89,13 +92,20 @@ impl CSVSource {
 
         let timestamp_config = csv_config.timestamp_config();
         let timezone = timestamp_config.timezone();
-        let (timestamp_col, timestamp_fmt) = csv_timestamp::get_timestamp_col_and_fmt(
-            &header,
-            &first_row,
-            timestamp_config.timestamp_col(),
-            timestamp_config.timestamp_fmt(),
-            timezone,
-        )?;
+        let (timestamp_col, timestamp_fmt) = match &first_row {
+            Some(first_row) => csv_timestamp::get_timestamp_col_and_fmt(
+                &header,
+                first_row,
+                timestamp_config.timestamp_col(),
+                timestamp_config.timestamp_fmt(),
+                timezone,
+            )?,
+            // there are no rows, so there are no timestamps to parse
+            None => (
+                TimestampCol::Index(0),
+                TimestampFmt::Units(TimestampUnits::Nanos),
+            ),
+        };
 
         let mut csv_reader = CSVSource {
             reader,
@@ -104,11 +114,13 @@ impl CSVSource {
             timestamp_fmt,
             timezone: timezone.clone(),
             next_row,
-            has_next_row: true,
+            has_next_row: first_row.is_some(),
         };
 
         // update next_row with first row
-        csv_reader.update_row(first_row)?;
+        if let Some(first_row) = first_row {
+            csv_reader.update_row(first_row)?;
+        }
 
         Ok(csv_reader)
     }
-- 
2.43.0


From 5a813a6f044ca044f85fe143989624788e401633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 16/28] fix: do not allocate for the field count before reading
 the fields

A damaged dc header with a huge field count aborted the process instead of
being reported as an error.
---
 src/source/dc_source.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 205f841..07a5550 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -55,9 +55,9 @@ impl<R: io::Read> DCSource<R> {
         let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
 
         // field descriptor (header)
-        let mut field_names: Vec<String> = Vec::with_capacity(field_count);
-        let mut field_types: Vec<FieldType> = Vec::with_capacity(field_count);
-        let mut field_values: Vec<FieldValue> = Vec::with_capacity(field_count);
+        let mut field_names: Vec<String> = Vec::new();
+        let mut field_types: Vec<FieldType> = Vec::new();
+        let mut field_values: Vec<FieldValue> = Vec::new();
         for i in 0..field_count {
             let field_descriptor = dc_util::FieldDescriptor::new(&mut reader)?;
             let mut name = field_descriptor.get_name().to_string();
-- 
2.43.0


From 66f3e4f6d0cb1ffc8e4f0558ca07ad57267ec065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 17/28] fix: decompress all the frames of a lz4 file

Only the first frame of a file with multiple lz4 frames was read, the rest of
the data was silently dropped.
---
 src/decompress/decompress.rs | 10 ++-----
 src/decompress/lz4.rs        | 53 ++++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |  1 +
 3 files changed, 56 insertions(+), 8 deletions(-)
 create mode 100644 src/decompress/lz4.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 9d616ef..62e2634 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -3,11 +3,11 @@ use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
-use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4::Lz4FramesReader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -131,13 +131,7 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
-        Ok(frame_reader) => frame_reader,
-        Err(e) => {
-            return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
-        }
-    };
-    Ok(Box::new(frame_reader.into_read()))
+    Ok(Box::new(Lz4FramesReader::new(reader)?))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
new file mode 100644
index 0000000..0daddc0
--- /dev/null
+++ b/src/decompress/lz4.rs
@@ -0,0 +1,53 @@
+use std::cell::RefCell;
+use std::io::{self, BufRead, Read};
+use std::rc::Rc;
+
+use lz_fear::framed::LZ4FrameIoReader;
+use lz_fear::LZ4FrameReader;
+
+/// frame reader owns its reader, so it has to be shared in order to get to the next frame
+struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
+
+/// reads all the frames of a file in lz4 frame format
+pub struct Lz4FramesReader<R: Read> {
+    inner: Rc<RefCell<R>>,
+    frame: LZ4FrameIoReader<'static, SharedReader<R>>,
+}
+
+impl<R: BufRead> Lz4FramesReader<R> {
+    pub fn new(reader: R) -> io::Result<Lz4FramesReader<R>> {
+        let inner = Rc::new(RefCell::new(reader));
+        let frame = Self::next_frame(&inner)?;
+        Ok(Lz4FramesReader { inner, frame })
+    }
+
+    fn next_frame(
+        inner: &Rc<RefCell<R>>,
+    ) -> io::Result<LZ4FrameIoReader<'static, SharedReader<R>>> {
+        match LZ4FrameReader::new(SharedReader(inner.clone())) {
+            Ok(frame_reader) => Ok(frame_reader.into_read()),
+            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+        }
+    }
+}
+
+impl<R: BufRead> Read for Lz4FramesReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.frame.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+            if self.inner.borrow_mut().fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            self.frame = Self::next_frame(&self.inner)?;
+        }
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..7de53f6 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+mod lz4;
 pub mod zip;
 mod zst;
-- 
2.43.0


From ca9057799f5a858896373c5d30864bdc57d71372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 18/28] fix: decompress all the frames of a zst file

Only the first frame of a file with multiple zst frames was read, the rest of
the data was silently dropped.
---
 src/decompress/zst.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..0ca385c 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,12 +1,16 @@
+use byteorder::{LittleEndian, ReadBytesExt};
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
+
+// skippable frames have one of 16 consecutive magic numbers, starting with this one
+const SKIPPABLE_FRAME_MAGIC: u32 = 0x184D2A50;
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
 }
 
-impl<R: Read> ZstReader<R> {
+impl<R: BufRead> ZstReader<R> {
     pub fn new(reader: R) -> io::Result<ZstReader<R>> {
         let mut zst_reader = ZstReader {
             inner: reader,
@@ -22,14 +26,41 @@ impl<R: Read> ZstReader<R> {
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
+
+    /// file can consist of multiple frames; returns false if there are no more frames
+    fn init_next_frame(&mut self) -> io::Result<bool> {
+        while !self.inner.fill_buf()?.is_empty() {
+            let mut magic = [0; 4];
+            self.inner.read_exact(&mut magic)?;
+            if u32::from_le_bytes(magic) & 0xFFFFFFF0 != SKIPPABLE_FRAME_MAGIC {
+                let mut frame = (&magic[..]).chain(&mut self.inner);
+                return match self.decoder.init(&mut frame) {
+                    Ok(()) => Ok(true),
+                    Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+                };
+            }
+            let size = self.inner.read_u32::<LittleEndian>()? as u64;
+            if io::copy(&mut (&mut self.inner).take(size), &mut io::sink())? < size {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
+        }
+        Ok(false)
+    }
 }
 
-impl<R: Read> Read for ZstReader<R> {
+impl<R: BufRead> Read for ZstReader<R> {
     /// this impl works best with buffered reader on top of it, since it
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        while !self.decoder.is_finished() {
+        loop {
+            if self.decoder.is_finished() {
+                if self.decoder.can_collect() == 0 && self.init_next_frame()? {
+                    continue;
+                }
+                break;
+            }
+
             let bytes_available = self.decoder.can_collect();
             if bytes_available >= buf.len() {
                 break;
-- 
2.43.0


From 4b86fa15c80c77f7353e64d7f12bfbb4795e123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 19/28] fix: report an http response cut short of its content
 length as an error

---
 src/transport/streaming/http.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/transport/streaming/http.rs b/src/transport/streaming/http.rs
index 25de02c..539b7be 100644
--- a/src/transport/streaming/http.rs
+++ b/src/transport/streaming/http.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::io::{self, Read};
 use std::path::Path;
 
 use crate::transport::streaming::streaming_transport::StreamingTransport;
@@ -15,7 +15,18 @@ impl StreamingTransport for HttpTransport {
         let response = ureq::get(path.to_str().unwrap()).call();
 
         if response.ok() {
-            Ok(Box::new(response.into_reader()))
+            let content_length = match response.header("transfer-encoding") {
+                Some(_) => None,
+                None => response
+                    .header("content-length")
+                    .and_then(|length| length.trim().parse::<u64>().ok()),
+            };
+            match content_length {
+                Some(length) => Ok(Box::new(ContentLengthReader(
+                    response.into_reader().take(length),
+                ))),
+                None => Ok(Box::new(response.into_reader())),
+            }
         } else {
             Err(io::Error::new(
                 io::ErrorKind::Other,
@@ -37,3 +48,19 @@ impl StreamingTransport for HttpTransport {
         "http"
     }
 }
+
+/// connection that is closed before the announced number of bytes is an error, and not end of file
+struct ContentLengthReader<R>(io::Take<R>);
+
+impl<R: Read> Read for ContentLengthReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let bytes_read = self.0.read(buf)?;
+        if bytes_read == 0 && !buf.is_empty() && self.0.limit() > 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "http response ended before its content length",
+            ));
+        }
+        Ok(bytes_read)
+    }
+}
-- 
2.43.0


From b919289388fa96d4b1015a17ff3f77b5344407c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 20/28] fix: do not take epoch millis for date and time when
 guessing timestamp format

---
 src/source/csv_timestamp.rs | 39 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index a9d88d8..654209d 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -353,6 +353,26 @@ fn get_timestamp_fmt_auto_with_index(
 
     let timestamp = get_column(first_row, time_idx)?;
 
+    // has to be done before trying date formats, since they can match epoch timestamps too
+    if timestamp.chars().all(|c| c.is_ascii_digit()) {
+        let n = match timestamp.parse::<u64>() {
+            Ok(ts) => ts,
+            Err(err) => return Err(Error::Custom(err.to_string())),
+        };
+        if RANGE_NANOS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
+        }
+        if RANGE_MICROS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Micros));
+        }
+        if RANGE_MILLIS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Millis));
+        }
+        if RANGE_SECONDS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
+        }
+    }
+
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
             return Ok(TimestampFmt::DateTimeIncludesTz(format.to_string()));
@@ -376,25 +396,6 @@ fn get_timestamp_fmt_auto_with_index(
         };
     }
 
-    if timestamp.chars().all(|c| c.is_ascii_digit()) {
-        let n = match timestamp.parse::<u64>() {
-            Ok(ts) => ts,
-            Err(err) => return Err(Error::Custom(err.to_string())),
-        };
-        if RANGE_NANOS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
-        }
-        if RANGE_MICROS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Micros));
-        }
-        if RANGE_MILLIS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Millis));
-        }
-        if RANGE_SECONDS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
-        }
-    };
-
     Err(Error::from(format!(
         "Cannot parse timestamp. Please provide format for parsing."
     )))
-- 
2.43.0


From 7669add26c00e7c56cdf3ebaec275e33474af569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 21/28] fix: accept any case of the print-time argument value

---
 src/chopper_cli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..4b1a49e 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,7 +214,9 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
+    // values of this argument are case insensitive
+    let print_time_col_arg = matches.value_of("csv_out_print_time_col").unwrap();
+    let csv_out_print_time_col = match print_time_col_arg.to_lowercase().as_str() {
         "yes" => true,
         "no" => false,
         _ => unreachable!(),
-- 
2.43.0


From ddb91afedcddd574f75cc279c4c18d1c96aa8661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 22/28] fix: drop all columns of later files when the first
 file of a multi file input has none

---
 src/source/multi_file_source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index 4aeef3d..292007f 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -182,8 +182,10 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            next_row
+                                .field_values
+                                .truncate(self.common_header.field_names().len());
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From 4a88ad94011bbdae64fdd5dd2c9be34f25de43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 23/28] fix: find the end record of a zip archive whose comment
 contains its signature

---
 src/decompress/zip.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index cf1ee85..d51e2e9 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -119,19 +119,39 @@ fn find_eocdr_and_prepare_to_read<T: Read + io::Seek>(reader: &mut T) -> io::Res
     let file_size = reader.seek(io::SeekFrom::End(0))?;
     let max_back = std::cmp::min(file_size, MAX_EOCDR_SEARCH_BACK_OFFSET as u64) as i64;
 
+    // signature can also occur in the archive comment, so prefer a record whose comment ends
+    // precisely where the file ends
+    let mut found = None;
     let mut pos = 4; // '4' to make sure we can read the signature
     while pos < max_back {
         reader.seek(io::SeekFrom::End(-pos))?;
         if reader.read_u32::<LittleEndian>()? == END_OF_CENTRAL_DIR_RECORD_SIGNATURE {
-            return Ok(());
+            if pos >= SIGNATURE_SIZE + END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE {
+                let comment_length =
+                    pos - SIGNATURE_SIZE - END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE;
+                reader.seek(io::SeekFrom::End(-comment_length - 2))?;
+                if reader.read_u16::<LittleEndian>()? as i64 == comment_length {
+                    found = Some(pos);
+                    break;
+                }
+            }
+            if found.is_none() {
+                found = Some(pos);
+            }
         }
         pos += 1;
     }
 
-    Err(Error::new(
-        ErrorKind::InvalidData,
-        "end of central directory signature missing",
-    ))
+    match found {
+        Some(pos) => {
+            reader.seek(io::SeekFrom::End(SIGNATURE_SIZE - pos))?;
+            Ok(())
+        }
+        None => Err(Error::new(
+            ErrorKind::InvalidData,
+            "end of central directory signature missing",
+        )),
+    }
 }
 
 fn get_start_of_central_dir_offset<R: Read + Seek>(
-- 
2.43.0


From 3e9eed32a43243bc578a086b94b43a922cfc83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 24/28] fix: read zst files that begin with a skippable frame

pzstd writes a skippable frame before every frame, so its files could not be
read at all.
---
 src/decompress/zst.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 0ca385c..3d869a0 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -16,15 +16,12 @@ impl<R: BufRead> ZstReader<R> {
             inner: reader,
             decoder: FrameDecoder::new(),
         };
-        zst_reader.init()?;
-        Ok(zst_reader)
-    }
-
-    fn init(&mut self) -> io::Result<()> {
-        match self.decoder.init(&mut self.inner) {
-            Ok(o) => Ok(o),
-            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+        if zst_reader.inner.fill_buf()?.is_empty() {
+            return Err(io::ErrorKind::UnexpectedEof.into());
         }
+        // there can be skippable frames even before the first frame, pzstd writes them there
+        zst_reader.init_next_frame()?;
+        Ok(zst_reader)
     }
 
     /// file can consist of multiple frames; returns false if there are no more frames
-- 
2.43.0


From 07c2e6fb0203462fea10fefd8311dbc7bde2ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 25/28] fix: verify the content checksums of zst frames

The checksum that a zst frame ends with was read but not compared, so damaged
data was passed on without an error.
---
 src/decompress/zst.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d869a0..a95859a 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -24,6 +24,16 @@ impl<R: BufRead> ZstReader<R> {
         Ok(zst_reader)
     }
 
+    /// to be used once all the bytes of a frame have been collected
+    fn verify_checksum(&self) -> io::Result<()> {
+        match self.decoder.get_checksum_from_data() {
+            Some(expected) if self.decoder.get_calculated_checksum() != Some(expected) => Err(
+                io::Error::new(io::ErrorKind::InvalidData, "zst checksum mismatch"),
+            ),
+            _ => Ok(()),
+        }
+    }
+
     /// file can consist of multiple frames; returns false if there are no more frames
     fn init_next_frame(&mut self) -> io::Result<bool> {
         while !self.inner.fill_buf()?.is_empty() {
@@ -52,8 +62,11 @@ impl<R: BufRead> Read for ZstReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         loop {
             if self.decoder.is_finished() {
-                if self.decoder.can_collect() == 0 && self.init_next_frame()? {
-                    continue;
+                if self.decoder.can_collect() == 0 {
+                    self.verify_checksum()?;
+                    if self.init_next_frame()? {
+                        continue;
+                    }
                 }
                 break;
             }
-- 
2.43.0


From 07d4780543b9564d94d2f2ae7788fa6008e6292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 26/28] fix: an error while listing a directory is reported,
 not a shorter list

---
 src/transport/dir/file.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/transport/dir/file.rs b/src/transport/dir/file.rs
index 5aa1ee9..9e26c71 100644
--- a/src/transport/dir/file.rs
+++ b/src/transport/dir/file.rs
@@ -16,13 +16,11 @@ impl DirTransport for DirFileTransport {
     }
 
     fn read_dir(&self, path: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
-        match path.read_dir() {
-            Ok(dir_entry_iter) => {
-                let path_iter = dir_entry_iter.filter_map(|entry| Some(entry.ok()?.path()));
-                Ok(Box::new(path_iter))
-            }
-            Err(e) => Err(e.into()),
+        let mut paths: Vec<PathBuf> = Vec::new();
+        for entry in path.read_dir()? {
+            paths.push(entry?.path());
         }
+        Ok(Box::new(paths.into_iter()))
     }
 
     fn box_clone(&self) -> Box<dyn DirTransport> {
-- 
2.43.0


From bd34b8b22a476567badc2c44bf75f3918a75e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:17 +0000
Subject: [PATCH 27/28] fix: infinite values and NaN are written as such in csv
 output

dtoa takes every value for a finite one: infinity was written as
1.797693134862316e308, and NaN as a number as well.
---
 src/write/csv_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 08265de..c6559c1 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -116,9 +116,12 @@ impl DataSink for CSVSink {
                     ))
                 }
                 FieldValue::Char(x) => write!(self.writer, "{}", x)?,
+                // dtoa writes these as if they were finite
+                FieldValue::Double(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Double(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
+                FieldValue::Float(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Float(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
-- 
2.43.0


From 633e44e5d9d8e5c283df55c9568ae33cdd215e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:51 +0000
Subject: [PATCH 28/28] fix: a file name that is not unicode does not end the
 run with a panic

A directory with such a file in it could not be read.
---
 src/util/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/path.rs b/src/util/path.rs
index bf8a7dd..a27f6a9 100644
--- a/src/util/path.rs
+++ b/src/util/path.rs
@@ -2,8 +2,8 @@ use std::path::Path;
 
 pub fn get_file_name(path: &Path) -> Option<String> {
     if let Some(file_name) = path.file_name() {
-        // that's right, unwrap to_str first to panic on os->str conversion if needed
-        Some(file_name.to_str().unwrap().to_owned())
+        // a name that is not unicode is no reason to fail, the format can be in its suffix still
+        Some(file_name.to_string_lossy().into_owned())
     } else {
         // weird but ok
         None
-- 
2.43.0

