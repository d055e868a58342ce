From 7715847f7779cc5c9f8f23d4972d9cb2452cc41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 01/36] fix: do not lose neighbours in the vantage-point tree
 at infinite distances

With user-defined distances that return infinity both the distance to the
vantage point and the radius can be infinite. Their difference is NaN, so
that the search was cut off and finite-distance neighbours were missed.
---
 src/vptree.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vptree.rs b/src/vptree.rs
index c68dac9..9cb92c4 100644
--- a/src/vptree.rs
+++ b/src/vptree.rs
@@ -386,13 +386,19 @@ impl<P: Copy + Hash + Eq, DF: Distance<P>> VPTree<P, DF> {
                     cached_dist,
                 );
                 nearest = Self::nearer(nearest, nearest_pref);
+                // both `d` and the radius can be infinite
+                let dist_to_boundary = if d == children.radius {
+                    n64(0.)
+                } else {
+                    (d - children.radius).abs()
+                };
                 let possibly_in_less_promising =
-                    (d - children.radius).abs() <= self.max_dist;
+                    dist_to_boundary <= self.max_dist;
                 if !possibly_in_less_promising {
                     return nearest;
                 }
                 if let Some((_, dn)) = nearest {
-                    if dn < (children.radius - d).abs() {
+                    if dn < dist_to_boundary {
                         return nearest;
                     }
                 }
-- 
2.43.0


From 57c6c5611fb877282fc36f9f512b86d1c0f35fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 02/36] fix: do not grow cells around seeds that are no longer
 negative

A seed that was averaged to exactly zero, or that another thread made
non-negative between the check and the cell construction, used to be given
a cell with at least one neighbour (and failed a debug assertion).
---
 src/cell.rs      | 13 +++++++------
 src/resampler.rs |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cell.rs b/src/cell.rs
index c84d7cf..3633b2b 100644
--- a/src/cell.rs
+++ b/src/cell.rs
@@ -30,14 +30,18 @@ impl<'a> Cell<'a> {
         <N as NeighbourSearch>::Iter: Iterator<Item = (usize, N64)>,
     {
         let mut weight_sum = events[seed_idx].weight();
-        debug_assert!(weight_sum < 0.);
         debug!("Cell seed {seed_idx}  with weight {:e}", weight_sum);
         let mut members = vec![seed_idx];
         let mut radius = n64(0.);
 
-        let neighbours = neighbour_search.nearest(&seed_idx);
+        let mut neighbours = neighbour_search.nearest(&seed_idx);
 
-        for (next_idx, dist) in neighbours {
+        // the weight of the seed may already have been changed to a
+        // non-negative value by another cell
+        while weight_sum < 0. {
+            let Some((next_idx, dist)) = neighbours.next() else {
+                break;
+            };
             trace!(
                 "adding event {next_idx} with distance {dist}, weight {:e} to cell",
                 events[next_idx].weight()
@@ -45,9 +49,6 @@ impl<'a> Cell<'a> {
             weight_sum += events[next_idx].weight();
             members.push(next_idx);
             radius = dist;
-            if weight_sum >= 0. {
-                break;
-            }
         }
         Self {
             events,
diff --git a/src/resampler.rs b/src/resampler.rs
index 8cc6b7d..29d93d7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,7 +93,7 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() > 0. {
+                if events[seed].weight() >= 0. {
                     return;
                 }
                 trace!("New cell around event {}", events[seed].id());
-- 
2.43.0


From fc820f426e47f5c8a285c6d9e7f9fc5764f794ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 03/36] fix: detect compression and event file format reliably

Short, interrupted or failing reads at the start of a file made the
reader fall back to HepMC2 or to uncompressed input.
---
 src/compression.rs  | 24 +++++++++++++++++++-
 src/hepmc2.rs       |  8 +++----
 src/io.rs           | 20 +++++++++--------
 src/lhef.rs         |  8 +++----
 src/stripper_xml.rs | 53 +++++++++++++++++++++------------------------
 5 files changed, 65 insertions(+), 48 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index f99529b..dbeef56 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,5 +1,10 @@
-use std::io::Write;
+use std::{
+    fs::File,
+    io::{BufRead, BufReader, Cursor, Read, Write},
+    path::Path,
+};
 
+use audec::auto_decompress;
 use bzip2::write::BzEncoder;
 use flate2::write::GzEncoder;
 
@@ -16,6 +21,23 @@ pub enum Compression {
     Zstd(u8),
 }
 
+/// Open a potentially compressed file for reading
+///
+/// The compression format is determined from the leading magic bytes.
+pub fn open_decompressed(
+    path: impl AsRef<Path>,
+) -> Result<Box<dyn BufRead>, std::io::Error> {
+    const MAGIC_LEN: u64 = 4;
+
+    let file = File::open(path)?;
+    // A single `read` may be interrupted or return fewer bytes than
+    // needed to recognise the format
+    let mut magic = Vec::new();
+    (&file).take(MAGIC_LEN).read_to_end(&mut magic)?;
+    let source = BufReader::new(Cursor::new(magic).chain(file));
+    Ok(auto_decompress(source))
+}
+
 /// Convert into a writer that compresses to the given format
 pub fn compress_writer<'a, W: 'a + Write>(
     writer: W,
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 30bec11..63f1157 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -1,17 +1,16 @@
 use std::{
     fs::File,
-    io::{BufRead, BufReader, BufWriter, Write},
+    io::{BufRead, BufWriter, Write},
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, open_decompressed, Compression},
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
@@ -99,8 +98,7 @@ fn init_source(
 ) -> Result<(Vec<u8>, Box<dyn BufRead>), CreateError> {
     use CreateError::*;
 
-    let source = File::open(source).map_err(OpenInput)?;
-    let mut buf = auto_decompress(BufReader::new(source));
+    let mut buf = open_decompressed(source).map_err(OpenInput)?;
 
     // read until start of first event
     let mut header = Vec::new();
diff --git a/src/io.rs b/src/io.rs
index 37154e5..f5eefca 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,18 +1,16 @@
 use std::{
     collections::HashMap,
-    fs::File,
-    io::{BufRead, BufReader},
+    io::Read,
     path::{Path, PathBuf},
     string::FromUtf8Error,
 };
 
-use audec::auto_decompress;
 use log::debug;
 use serde::{Deserialize, Serialize};
 use thiserror::Error;
 
 use crate::{
-    compression::Compression,
+    compression::{open_decompressed, Compression},
     event::{Event, Weights},
     formats::FileFormat,
     hepmc2::HepMCParser,
@@ -30,6 +28,9 @@ use crate::stripper_xml::StripperXmlParser;
 
 const ROOT_MAGIC_BYTES: [u8; 4] = [b'r', b'o', b'o', b't'];
 
+/// Number of bytes considered for detecting the file format
+pub(crate) const FORMAT_DETECTION_LEN: u64 = 8192;
+
 /// Event reader from a single file
 ///
 /// The format is determined automatically. If you know the format
@@ -257,11 +258,12 @@ pub fn detect_event_file_format(
     use CreateError::*;
     use FileFormat::*;
 
-    let file = File::open(infile).map_err(OpenInput)?;
-    let mut r = auto_decompress(BufReader::new(file));
-    let Ok(bytes) = r.fill_buf() else {
-        return Ok(HepMC2);
-    };
+    let r = open_decompressed(infile).map_err(OpenInput)?;
+    let mut bytes = Vec::new();
+    r.take(FORMAT_DETECTION_LEN)
+        .read_to_end(&mut bytes)
+        .map_err(CreateError::Read)?;
+    let bytes = bytes.as_slice();
     if bytes.starts_with(&ROOT_MAGIC_BYTES) {
         #[cfg(not(feature = "ntuple"))]
         return Err(RootUnsupported);
diff --git a/src/lhef.rs b/src/lhef.rs
index e7da39a..0dbd0e7 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -1,10 +1,9 @@
 use std::{
     fs::File,
-    io::{BufRead, BufReader, BufWriter, Write},
+    io::{BufRead, BufWriter, Write},
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
@@ -16,7 +15,7 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, open_decompressed, Compression},
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
@@ -197,8 +196,7 @@ fn init_source(
 ) -> Result<(Vec<u8>, Box<dyn BufRead>), CreateError> {
     use CreateError::*;
 
-    let source = File::open(source).map_err(OpenInput)?;
-    let mut buf = auto_decompress(BufReader::new(source));
+    let mut buf = open_decompressed(source).map_err(OpenInput)?;
 
     // read until start of first event
     let mut header = Vec::new();
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d557b4d..ee864db 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -3,11 +3,10 @@ use std::{
     collections::HashMap,
     fmt::{self, Display},
     fs::File,
-    io::{BufRead, BufReader, BufWriter, Read, Write},
+    io::{BufRead, BufWriter, Read, Write},
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::{debug, trace};
 use noisy_float::prelude::*;
 use nom::{
@@ -23,12 +22,12 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, open_decompressed, Compression},
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, Utf8Error, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError, FORMAT_DETECTION_LEN,
     },
     traits::{Rewind, UpdateWeights},
     util::{take_chars, trim_ascii_start},
@@ -300,31 +299,30 @@ where
     let mut rescale: HashMap<_, (f64, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
-        let file = File::open(path).map_err(OpenInput)?;
-        let mut r = auto_decompress(BufReader::new(file));
-        if let Ok(buf) = r.fill_buf() {
-            let buf = trim_ascii_start(buf);
-            if buf.starts_with(b"<?xml") {
-                debug!("extracting scaling information from {path:?}");
-                let tag = extract_xml_info(r)?;
-                match tag {
-                    XMLTag::Normalization { name, scale } => {
-                        let entry = rescale.entry(name).or_default();
-                        entry.0 = scale;
-                        // don't add to vec of event files
-                    }
-                    XMLTag::Eventrecord { name, nevents, .. } => {
-                        let entry = rescale.entry(name).or_insert((-1., 0));
-                        entry.1 += nevents;
-                        event_files.push((path.to_owned(), out))
-                    }
+        let mut r = open_decompressed(path).map_err(OpenInput)?;
+        let mut start = Vec::new();
+        r.by_ref()
+            .take(FORMAT_DETECTION_LEN)
+            .read_to_end(&mut start)
+            .map_err(Read)?;
+        if trim_ascii_start(&start).starts_with(b"<?xml") {
+            debug!("extracting scaling information from {path:?}");
+            let tag = extract_xml_info(start.chain(r))?;
+            match tag {
+                XMLTag::Normalization { name, scale } => {
+                    let entry = rescale.entry(name).or_default();
+                    entry.0 = scale;
+                    // don't add to vec of event files
+                }
+                XMLTag::Eventrecord { name, nevents, .. } => {
+                    let entry = rescale.entry(name).or_insert((-1., 0));
+                    entry.1 += nevents;
+                    event_files.push((path.to_owned(), out))
                 }
-            } else {
-                // not a STRIPPER XML file
-                event_files.push((path.to_owned(), out));
             }
         } else {
-            event_files.push((path.to_owned(), out))
+            // not a STRIPPER XML file
+            event_files.push((path.to_owned(), out));
         }
     }
     let rescale = rescale
@@ -520,8 +518,7 @@ fn init_source(
 ) -> Result<(Vec<u8>, Box<dyn BufRead>), CreateError> {
     use CreateError::*;
 
-    let source = File::open(source).map_err(OpenInput)?;
-    let mut buf = auto_decompress(BufReader::new(source));
+    let mut buf = open_decompressed(source).map_err(OpenInput)?;
 
     // read until start of first event
     let mut header = Vec::new();
-- 
2.43.0


From cc524b0ce76806f4160bfae06a76e806f9b5a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 04/36] fix: keep the complete header of files without events

---
 src/hepmc2.rs       | 4 +++-
 src/stripper_xml.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 63f1157..1067f4b 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -107,7 +107,9 @@ fn init_source(
             break;
         }
     }
-    header.pop();
+    if header.ends_with(b"\nE") {
+        header.pop();
+    }
     Ok((header, buf))
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index ee864db..21d32aa 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -527,7 +527,9 @@ fn init_source(
             break;
         }
     }
-    header.truncate(header.len() - b"<se".len());
+    if header.ends_with(b"<se") {
+        header.truncate(header.len() - b"<se".len());
+    }
     Ok((header, buf))
 }
 
-- 
2.43.0


From 1ad054b90ab32280a2baa0731576b40841b00018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 05/36] fix: report failures to write out buffered output

---
 src/bin/classify-events.rs |  18 ++++---
 src/bin/partition.rs       |   6 ++-
 src/compression.rs         | 102 ++++++++++++++++++++++++++++++++-----
 src/hepmc2.rs              |  20 ++++++--
 src/lhef.rs                |  22 +++++---
 src/stripper_xml.rs        |  20 ++++++--
 6 files changed, 146 insertions(+), 42 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d41d176..6d084fb 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -10,7 +10,7 @@ use std::{
 use anyhow::{anyhow, Context, Result};
 use clap::Parser;
 use cres::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, CompressWriter, Compression},
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
@@ -22,7 +22,7 @@ use cres::{
     GIT_BRANCH, GIT_REV, VERSION,
 };
 use env_logger::Env;
-use log::{debug, error, info, trace};
+use log::{debug, info, trace};
 
 use crate::opt_classify::Opt;
 
@@ -96,6 +96,8 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+type EventWriter = CompressWriter<'static, BufWriter<File>>;
+
 struct Classifier {
     partitions: VPTreePartition<Event, EuclWithScaledPt>,
     outdir: PathBuf,
@@ -145,9 +147,8 @@ impl Classifier {
             event_progress.inc(1);
         }
         for writer in writers {
-            if let Err(err) = write_footer(writer, format) {
-                error!("Failed to write event file footer: {err}");
-            }
+            write_footer(writer, format)
+                .with_context(|| "Failed to write event file footer")?;
         }
         Ok(())
     }
@@ -208,11 +209,12 @@ impl Classifier {
 }
 
 fn write_footer(
-    mut writer: impl Write,
+    mut writer: EventWriter,
     format: FileFormat,
 ) -> std::io::Result<()> {
     writer.write_all(get_footer(format).as_bytes())?;
-    writer.write_all(b"\n")
+    writer.write_all(b"\n")?;
+    writer.finish()
 }
 
 fn trim_footer(event: &str, format: FileFormat) -> &str {
@@ -241,7 +243,7 @@ fn make_byte_writers(
     outdir: &Path,
     file: &Path,
     compression: Option<Compression>,
-) -> Result<Vec<Box<dyn Write>>> {
+) -> Result<Vec<EventWriter>> {
     let filename = file
         .file_name()
         .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 6e48c04..044c245 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -117,9 +117,11 @@ fn main() -> Result<()> {
     info!("Writing to {outfile:?}");
     let out = File::create(&outfile)
         .with_context(|| format!("Failed to open {outfile:?}"))?;
-    let out = compress_writer(out, opt.compression)
+    let mut out = compress_writer(out, opt.compression)
         .with_context(|| format!("Failed to compress output to {outfile:?}"))?;
-    serde_yaml::to_writer(out, &(clustering, partition))?;
+    serde_yaml::to_writer(&mut out, &(clustering, partition))?;
+    out.finish()
+        .with_context(|| format!("Failed to write {outfile:?}"))?;
     info!("Done");
     Ok(())
 }
diff --git a/src/compression.rs b/src/compression.rs
index dbeef56..eb057a4 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -38,32 +38,106 @@ pub fn open_decompressed(
     Ok(auto_decompress(source))
 }
 
+/// Writer with optional compression
+///
+/// Use [finish](Self::finish) to ensure that all data have been
+/// written. Errors while finishing implicitly on drop are lost.
+pub struct CompressWriter<'a, W: Write + 'a>(Encoder<'a, W>);
+
+enum Encoder<'a, W: Write + 'a> {
+    Plain(W),
+    Bzip2(BzEncoder<W>),
+    Gzip(GzEncoder<W>),
+    // `None` if finished
+    Lz4(Option<lz4::Encoder<W>>),
+    Zstd(zstd::Encoder<'a, W>),
+}
+
+impl<W: Write> CompressWriter<'_, W> {
+    /// Write out all remaining data, including the end of a compressed stream
+    pub fn finish(&mut self) -> Result<(), std::io::Error> {
+        match &mut self.0 {
+            Encoder::Plain(writer) => writer.flush(),
+            Encoder::Bzip2(encoder) => {
+                encoder.try_finish()?;
+                encoder.get_mut().flush()
+            }
+            Encoder::Gzip(encoder) => {
+                encoder.try_finish()?;
+                encoder.get_mut().flush()
+            }
+            Encoder::Lz4(encoder) => {
+                let Some(encoder) = encoder.take() else {
+                    return Ok(());
+                };
+                let (mut writer, res) = encoder.finish();
+                res?;
+                writer.flush()
+            }
+            Encoder::Zstd(encoder) => {
+                encoder.do_finish()?;
+                encoder.get_mut().flush()
+            }
+        }
+    }
+}
+
+impl<W: Write> Write for CompressWriter<'_, W> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
+        match &mut self.0 {
+            Encoder::Plain(writer) => writer.write(buf),
+            Encoder::Bzip2(encoder) => encoder.write(buf),
+            Encoder::Gzip(encoder) => encoder.write(buf),
+            Encoder::Lz4(Some(encoder)) => encoder.write(buf),
+            Encoder::Lz4(None) => Err(std::io::Error::other(
+                "lz4 stream has already been finished",
+            )),
+            Encoder::Zstd(encoder) => encoder.write(buf),
+        }
+    }
+
+    fn flush(&mut self) -> Result<(), std::io::Error> {
+        match &mut self.0 {
+            Encoder::Plain(writer) => writer.flush(),
+            Encoder::Bzip2(encoder) => encoder.flush(),
+            Encoder::Gzip(encoder) => encoder.flush(),
+            Encoder::Lz4(Some(encoder)) => encoder.flush(),
+            Encoder::Lz4(None) => Ok(()),
+            Encoder::Zstd(encoder) => encoder.flush(),
+        }
+    }
+}
+
+impl<W: Write> Drop for CompressWriter<'_, W> {
+    fn drop(&mut self) {
+        let _ = self.finish();
+    }
+}
+
 /// Convert into a writer that compresses to the given format
 pub fn compress_writer<'a, W: 'a + Write>(
     writer: W,
     compression: Option<Compression>,
-) -> Result<Box<dyn Write + 'a>, std::io::Error> {
-    match compression {
+) -> Result<CompressWriter<'a, W>, std::io::Error> {
+    let encoder = match compression {
         Some(Compression::Bzip2) => {
-            let encoder = BzEncoder::new(writer, bzip2::Compression::best());
-            Ok(Box::new(encoder))
-        }
-        Some(Compression::Gzip(lvl)) => {
-            let encoder =
-                GzEncoder::new(writer, flate2::Compression::new(lvl.into()));
-            Ok(Box::new(encoder))
+            Encoder::Bzip2(BzEncoder::new(writer, bzip2::Compression::best()))
         }
+        Some(Compression::Gzip(lvl)) => Encoder::Gzip(GzEncoder::new(
+            writer,
+            flate2::Compression::new(lvl.into()),
+        )),
         Some(Compression::Lz4(lvl)) => {
             let encoder = lz4::EncoderBuilder::new()
                 .auto_flush(true)
                 .level(lvl.into())
                 .build(writer)?;
-            Ok(Box::new(encoder))
+            Encoder::Lz4(Some(encoder))
         }
         Some(Compression::Zstd(lvl)) => {
-            let encoder = zstd::Encoder::new(writer, lvl.into())?;
-            Ok(Box::new(encoder.auto_finish()))
+            Encoder::Zstd(zstd::Encoder::new(writer, lvl.into())?)
         }
-        None => Ok(Box::new(writer)),
-    }
+        None => Encoder::Plain(writer),
+    };
+    Ok(CompressWriter(encoder))
 }
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 1067f4b..b0bbd12 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -10,7 +10,9 @@ use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, open_decompressed, Compression},
+    compression::{
+        compress_writer, open_decompressed, CompressWriter, Compression,
+    },
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
@@ -117,7 +119,7 @@ fn init_source(
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: CompressWriter<'static, BufWriter<File>>,
     _weight_names: Vec<String>,
 }
 
@@ -231,12 +233,15 @@ impl UpdateWeights for FileIO {
         weights: &[Weights],
     ) -> Result<usize, Self::Error> {
         self.rewind()?;
-        for (n, weight) in weights.iter().enumerate() {
+        let mut nupdated = 0;
+        for weight in weights {
             if !self.update_next_weights(weight)? {
-                return Ok(n);
+                break;
             }
+            nupdated += 1;
         }
-        Ok(weights.len())
+        self.finish_weight_update()?;
+        Ok(nupdated)
     }
 
     fn update_next_weights(
@@ -246,6 +251,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 /// Parser for HepMC event records
diff --git a/src/lhef.rs b/src/lhef.rs
index 0dbd0e7..e264c7f 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -15,7 +15,9 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, open_decompressed, Compression},
+    compression::{
+        compress_writer, open_decompressed, CompressWriter, Compression,
+    },
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
@@ -92,7 +94,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: CompressWriter<'static, BufWriter<File>>,
     _weight_names: Vec<String>,
 }
 
@@ -278,13 +280,15 @@ impl UpdateWeights for FileIO {
         weights: &[Weights],
     ) -> Result<usize, Self::Error> {
         self.rewind()?;
-        for (n, weight) in weights.iter().enumerate() {
+        let mut nupdated = 0;
+        for weight in weights {
             if !self.update_next_weights(weight)? {
-                return Ok(n);
+                break;
             }
+            nupdated += 1;
         }
         self.finish_weight_update()?;
-        Ok(weights.len())
+        Ok(nupdated)
     }
 
     fn update_next_weights(
@@ -296,9 +300,11 @@ impl UpdateWeights for FileIO {
     }
 
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
-        let res = self.sink.write_all(b"\n</LesHouchesEvents>\n");
-        self.into_io_error(res.map_err(WriteError::IO))?;
-        Ok(())
+        let res = self
+            .sink
+            .write_all(b"\n</LesHouchesEvents>\n")
+            .and_then(|_| self.sink.finish());
+        self.into_io_error(res.map_err(WriteError::IO))
     }
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 21d32aa..8bd5d77 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -22,7 +22,9 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{compress_writer, open_decompressed, Compression},
+    compression::{
+        compress_writer, open_decompressed, CompressWriter, Compression,
+    },
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
@@ -132,7 +134,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: CompressWriter<'static, BufWriter<File>>,
     _weight_names: Vec<String>,
     weight_scale: f64,
 }
@@ -652,12 +654,15 @@ impl UpdateWeights for FileIO {
         weights: &[Weights],
     ) -> Result<usize, Self::Error> {
         self.rewind()?;
-        for (n, weight) in weights.iter().enumerate() {
+        let mut nupdated = 0;
+        for weight in weights {
             if !self.update_next_weights(weight)? {
-                return Ok(n);
+                break;
             }
+            nupdated += 1;
         }
-        Ok(weights.len())
+        self.finish_weight_update()?;
+        Ok(nupdated)
     }
 
     fn update_next_weights(
@@ -667,6 +672,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-- 
2.43.0


From f4589367cafd4d566ae942329e1886882a70f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 06/36] fix: write the correct weights of events without
 particles and discarded events

---
 src/cres.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 16838ed..3203a67 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -57,7 +57,7 @@ use particle_id::ParticleID;
 use rayon::prelude::*;
 use thiserror::Error;
 
-use crate::event::Event;
+use crate::event::{Event, Weights};
 use crate::io::EventRecord;
 use crate::progress_bar::ProgressBar;
 use crate::traits::*;
@@ -185,6 +185,18 @@ where
         let nevents = events.len();
         info!("Read {nevents} events");
 
+        // Set final weights for all events that don't take part in the
+        // resampling or get discarded when unweighting: the former
+        // keep their weights, the latter get zero
+        let mut weights = vec![Weights::default(); nevents];
+        for event in &mut events {
+            let mut weight = event.weights.get_mut().clone();
+            if !event.outgoing().is_empty() {
+                weight.iter_mut().for_each(|w| *w = n64(0.));
+            }
+            weights[event.id] = weight;
+        }
+
         events.retain(|e| !e.outgoing().is_empty());
         if events.len() < nevents {
             warn!(
@@ -217,7 +229,6 @@ where
             -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
         );
 
-        let mut weights = vec![crate::event::Weights::default(); nevents];
         for event in events {
             weights[event.id] = event.weights.into_inner();
         }
-- 
2.43.0


From c3cd5965b0e4dae1796ef70f77914dca7604a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 07/36] fix: report an incomplete update of the event weights

---
 src/cres.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cres.rs b/src/cres.rs
index 3203a67..90e1ee0 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -143,6 +143,9 @@ pub enum CresError<E1, E2, E3, E4, E5> {
     /// Encountered event with invalid id
     #[error("Encountered event with non-zero id {0}")]
     IdErr(usize),
+    /// Not all event weights could be updated
+    #[error("Updated the weights of only {0} out of {1} events")]
+    UpdateErr(usize, usize),
 }
 
 /// Alias for a cell resampling error
@@ -233,7 +236,11 @@ where
             weights[event.id] = event.weights.into_inner();
         }
 
-        self.event_io.update_all_weights(&weights).map_err(IOErr)?;
+        let nupdated =
+            self.event_io.update_all_weights(&weights).map_err(IOErr)?;
+        if nupdated != nevents {
+            return Err(UpdateErr(nupdated, nevents));
+        }
         Ok(())
     }
 
-- 
2.43.0


From e2b24a6b66058c0ac883e972dbb23fc7751ffb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 08/36] fix: keep named weights apart if their order differs
 between records

---
 src/hepmc2.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index b0bbd12..4a54537 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -345,15 +345,17 @@ fn update_named_weights(
     let (names, nnames) = u32_entry(names).map_err(|_| {
         ParseEntry("number of weight names entry", take_chars(names, 100))
     })?;
-    let mut weight_pos = Vec::with_capacity(weight_names.len());
+    let mut weight_pos = vec![None; weight_names.len()];
     let mut rest = names;
     for nentry in 0..(nnames as usize) {
         let name;
         (rest, name) = string_entry(rest).map_err(|_| {
             ParseEntry("weight name entry", take_chars(rest, 100))
         })?;
-        if weight_names.iter().any(|n| n == name) {
-            weight_pos.push(nentry);
+        for (requested, pos) in weight_names.iter().zip(&mut weight_pos) {
+            if requested == name {
+                pos.get_or_insert(nentry);
+            }
         }
     }
 
@@ -364,7 +366,9 @@ fn update_named_weights(
             .map(|w| w.to_string()),
     );
     for (idx, weight) in weight_pos.iter().zip(weights.iter().skip(1)) {
-        weight_entries[*idx] = weight.to_string();
+        if let Some(idx) = *idx {
+            weight_entries[idx] = weight.to_string();
+        }
     }
 
     let start = weights_start + 1;
@@ -483,7 +487,6 @@ fn parse_weight_names_line<'a>(
     all_weights: &[f64],
     event: &mut EventBuilder,
 ) -> Result<&'a str, ReadError> {
-    use std::collections::HashMap;
     use ReadError::*;
 
     let parse_err =
@@ -493,8 +496,9 @@ fn parse_weight_names_line<'a>(
     if weight_names.is_empty() {
         return Ok(record);
     }
-    let mut weight_seen: HashMap<_, _> =
-        weight_names.iter().map(|n| (n.as_str(), false)).collect();
+    // the order in which we store the weights must not depend on the
+    // record, otherwise we mix up weights from different events
+    let mut weights = vec![None; weight_names.len()];
     let (names, nnames) = u32_entry(&record[1..])
         .map_err(|_| parse_err("number of weight names entry", record))?;
     record = names;
@@ -502,20 +506,19 @@ fn parse_weight_names_line<'a>(
         let name;
         (record, name) = string_entry(record)
             .map_err(|_| parse_err("weight name entry", record))?;
-        if let Some(seen) = weight_seen.get_mut(name) {
-            *seen = true;
-            event.add_weight(n64(*weight));
+        for (requested, entry) in weight_names.iter().zip(&mut weights) {
+            if requested == name {
+                entry.get_or_insert(*weight);
+            }
         }
     }
-    let missing =
-        weight_seen
-            .into_iter()
-            .find_map(|(name, seen)| if seen { None } else { Some(name) });
-    if let Some(missing) = missing {
-        Err(FindWeight(missing.to_owned(), names.to_owned()))
-    } else {
-        Ok(record)
+    for (name, weight) in weight_names.iter().zip(weights) {
+        let Some(weight) = weight else {
+            return Err(FindWeight(name.to_owned(), names.to_owned()));
+        };
+        event.add_weight(n64(weight));
     }
+    Ok(record)
 }
 
 fn non_weight_entries(line: &str) -> IResult<&str, &str> {
-- 
2.43.0


From 38ce441b5d7418cf854672ddf881030710fd8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 09/36] fix: retry interrupted writes when finishing compressed
 output

---
 src/compression.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index eb057a4..6f94d6e 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,6 +1,6 @@
 use std::{
     fs::File,
-    io::{BufRead, BufReader, Cursor, Read, Write},
+    io::{BufRead, BufReader, Cursor, ErrorKind, Read, Write},
     path::Path,
 };
 
@@ -59,11 +59,11 @@ impl<W: Write> CompressWriter<'_, W> {
         match &mut self.0 {
             Encoder::Plain(writer) => writer.flush(),
             Encoder::Bzip2(encoder) => {
-                encoder.try_finish()?;
+                retry_interrupted(|| encoder.try_finish())?;
                 encoder.get_mut().flush()
             }
             Encoder::Gzip(encoder) => {
-                encoder.try_finish()?;
+                retry_interrupted(|| encoder.try_finish())?;
                 encoder.get_mut().flush()
             }
             Encoder::Lz4(encoder) => {
@@ -114,6 +114,17 @@ impl<W: Write> Drop for CompressWriter<'_, W> {
     }
 }
 
+fn retry_interrupted(
+    mut f: impl FnMut() -> Result<(), std::io::Error>,
+) -> Result<(), std::io::Error> {
+    loop {
+        match f() {
+            Err(err) if err.kind() == ErrorKind::Interrupted => {}
+            res => return res,
+        }
+    }
+}
+
 /// Convert into a writer that compresses to the given format
 pub fn compress_writer<'a, W: 'a + Write>(
     writer: W,
-- 
2.43.0


From b52eb1936b07372b6c70e8dc7cf53ebfd5bc296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 10/36] fix: report a truncated last event in Les Houches Event
 Files

---
 src/lhef.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index e264c7f..5521bfb 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -51,7 +51,15 @@ impl FileReader {
         let mut record = Vec::new();
         while !record.ends_with(b"</event>") {
             match self.source.read_until(b'>', &mut record) {
-                Ok(0) => return None, // TODO: check incomplete record
+                Ok(0) => {
+                    return contains_event_start(&record).then(|| {
+                        let record = String::from_utf8_lossy(&record);
+                        Err(ReadError::FindEntry(
+                            "end of event",
+                            take_chars(&record, 100),
+                        ))
+                    })
+                }
                 Ok(_) => {}
                 Err(err) => return Some(Err(err.into())),
             }
@@ -308,6 +316,15 @@ impl UpdateWeights for FileIO {
     }
 }
 
+fn contains_event_start(text: &[u8]) -> bool {
+    const EVENT_START: &[u8] = b"<event";
+
+    text.windows(EVENT_START.len() + 1).any(|w| {
+        let (tag, rest) = w.split_at(EVENT_START.len());
+        tag == EVENT_START && (rest[0] == b'>' || rest[0].is_ascii_whitespace())
+    })
+}
+
 fn non_weight_entries(record: &str) -> IResult<&str, &str> {
     let record = record.trim_start();
     let line_end = record.find('\n').unwrap(); // TODO: error treatment
-- 
2.43.0


From 356a1445871d5dc19ac4087d6507bf20d2975614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 11/36] fix: refuse to overwrite input files or other output
 files

---
 src/io.rs | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index f5eefca..ef58309 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     io::Read,
     path::{Path, PathBuf},
     string::FromUtf8Error,
@@ -162,6 +162,10 @@ impl IOBuilder {
         } = self;
         let _scaling = scaling;
 
+        if find_used_output([&infile], [&outfile]).is_some() {
+            return Err(CreateError::OutputInUse);
+        }
+
         let format = detect_event_file_format(&infile)?;
         debug!("Read {infile:?} as {format:?} file");
 
@@ -217,10 +221,23 @@ impl IOBuilder {
         P: AsRef<Path>,
         Q: AsRef<Path>,
     {
+        let files = Vec::from_iter(files.into_iter().map(|(source, sink)| {
+            (source.as_ref().to_path_buf(), sink.as_ref().to_path_buf())
+        }));
+        let infiles = Vec::from_iter(files.iter().map(|f| f.0.clone()));
+
         #[cfg(feature = "stripper-xml")]
-        {
-            let (files, scaling) = crate::stripper_xml::extract_scaling(files)?;
+        let (files, scaling) = crate::stripper_xml::extract_scaling(files)?;
+
+        let outfiles = files.iter().map(|f| &f.1);
+        if let Some(idx) = find_used_output(&infiles, outfiles) {
+            let (infile, outfile) = files[idx].clone();
+            let source = CreateError::OutputInUse.into();
+            return Err(FileIOError::new(infile, outfile, source).into());
+        }
 
+        #[cfg(feature = "stripper-xml")]
+        {
             let mut builder = self;
             builder.scaling = scaling;
             Ok(builder.build_from_files_iter_known_scaling(files)?)
@@ -248,6 +265,34 @@ impl IOBuilder {
     }
 }
 
+/// Find the first output file that would overwrite an input or other output
+fn find_used_output<'a>(
+    infiles: impl IntoIterator<Item = &'a PathBuf>,
+    outfiles: impl IntoIterator<Item = &'a PathBuf>,
+) -> Option<usize> {
+    let mut used: HashSet<_> =
+        infiles.into_iter().map(|f| resolve_path(f)).collect();
+    outfiles.into_iter().position(|outfile| {
+        // writing to e.g. /dev/null is always safe
+        let is_special = outfile.metadata().is_ok_and(|m| !m.is_file());
+        !is_special && !used.insert(resolve_path(outfile))
+    })
+}
+
+/// Unique name for a file that may not exist yet
+fn resolve_path(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| {
+        let dir = match path.parent() {
+            Some(dir) if !dir.as_os_str().is_empty() => dir,
+            _ => Path::new("."),
+        };
+        match (dir.canonicalize(), path.file_name()) {
+            (Ok(dir), Some(name)) => dir.join(name),
+            _ => path.to_owned(),
+        }
+    })
+}
+
 /// Detect format of an event file
 ///
 /// Defaults to [HepMC2](FileFormat::HepMC2) if not other format can
@@ -371,6 +416,9 @@ pub enum CreateError {
     /// Failed to read from input file
     #[error("Failed to read from input file")]
     Read(#[source] std::io::Error),
+    /// Writing to the target file would destroy other data
+    #[error("Target file is also an input file or another target file")]
+    OutputInUse,
     /// Failed to create target file
     #[error("Failed to create target file")]
     CreateTarget(#[source] std::io::Error),
-- 
2.43.0


From ef6d1b4d275cb2c664fb50a6251c40f142296854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 12/36] fix: read all streams in concatenated gzip and bzip2
 input

---
 src/compression.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 6f94d6e..dd4510f 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -5,8 +5,8 @@ use std::{
 };
 
 use audec::auto_decompress;
-use bzip2::write::BzEncoder;
-use flate2::write::GzEncoder;
+use bzip2::{bufread::MultiBzDecoder, write::BzEncoder};
+use flate2::{bufread::MultiGzDecoder, write::GzEncoder};
 
 /// Compression format
 #[derive(Debug, Copy, Clone)]
@@ -34,8 +34,19 @@ pub fn open_decompressed(
     // needed to recognise the format
     let mut magic = Vec::new();
     (&file).take(MAGIC_LEN).read_to_end(&mut magic)?;
-    let source = BufReader::new(Cursor::new(magic).chain(file));
-    Ok(auto_decompress(source))
+    let start = magic.clone();
+    let source = BufReader::new(Cursor::new(start).chain(file));
+    // `auto_decompress` stops after the first out of several compressed
+    // streams, such as those written by parallel compression programs
+    Ok(match magic.as_slice() {
+        [b'B', b'Z', b'h', ..] => {
+            Box::new(BufReader::new(MultiBzDecoder::new(source)))
+        }
+        [0x1f, 0x8b, ..] => {
+            Box::new(BufReader::new(MultiGzDecoder::new(source)))
+        }
+        _ => auto_decompress(source),
+    })
 }
 
 /// Writer with optional compression
-- 
2.43.0


From 120815ae1c1962e9b04e1ae2c97a8d4aa360ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 13/36] fix: refuse to partition too few events instead of
 panicking

---
 src/bin/partition.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 044c245..f5ef75c 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -78,9 +78,11 @@ fn main() -> Result<()> {
         }
     }
 
-    if (opt.regions as usize) > events.len() {
+    let depth = log2(opt.regions);
+    let min_events = min_events(depth);
+    if events.len() < min_events {
         bail!(
-            "Number of negative-weight events ({}) must be at least as large as number of regions ({})",
+            "Number of negative-weight events ({}) must be at least {min_events} for partitioning into {} regions",
             events.len(),
             opt.regions,
         )
@@ -91,7 +93,6 @@ fn main() -> Result<()> {
         "Constructing {} regions from {nevents} negative-weight events",
         opt.regions
     );
-    let depth = log2(opt.regions);
     let distance = EuclWithScaledPt::new(n64(opt.ptweight));
     let dist = DistWrapper::new(&distance, &events);
     let partition = VPTree::from_par_iter_with_dist_and_depth(
@@ -131,6 +132,18 @@ pub const fn log2(n: u32) -> u32 {
     u32::BITS - n.leading_zeros() - 1
 }
 
+/// Minimum number of events for `depth` complete layers of bisections
+///
+/// Each bisection needs a vantage point and at least one point further
+/// out. Less than half of the remaining points are inside.
+const fn min_events(depth: u32) -> usize {
+    if depth == 0 {
+        1
+    } else {
+        (3 << (depth - 1)) - 1
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 06df8946cc4e977b4fd7e928389facb66eef299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 14/36] fix: read compressed partition files

---
 src/bin/classify-events.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 6d084fb..d7f5067 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -10,7 +10,9 @@ use std::{
 use anyhow::{anyhow, Context, Result};
 use clap::Parser;
 use cres::{
-    compression::{compress_writer, CompressWriter, Compression},
+    compression::{
+        compress_writer, open_decompressed, CompressWriter, Compression,
+    },
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
@@ -47,7 +49,7 @@ fn main() -> Result<()> {
     debug!("settings: {:#?}", opt);
 
     let part_file = opt.partition;
-    let part_info = File::open(&part_file)
+    let part_info = open_decompressed(&part_file)
         .with_context(|| format!("Failed to open {part_file:?}"))?;
     type PartInfo =
         (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
-- 
2.43.0


From d0a19e4e8892d05890cf6403500af3b74f2df12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 15/36] fix: write complete region files

Files without events contained the footer twice, and files in STRIPPER
XML format could contain events without an end tag.
---
 src/bin/classify-events.rs | 41 +++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d7f5067..d60f27b 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -128,9 +128,12 @@ impl Classifier {
                 .with_context(|| {
                     format!("Failed to create writers for {file:?}")
                 })?;
+        // without any events, the footer is considered part of the header
+        let header = trim_footer(reader.header(), format);
         for writer in &mut writers {
-            writer.write_all(reader.header())?;
+            writer.write_all(header)?;
         }
+        let mut nopen = vec![num_open_tags(header, format); writers.len()];
         let expected_nevents = reader.size_hint().0;
         let event_progress = if expected_nevents > 0 {
             ProgressBar::new(expected_nevents as u64, "events read")
@@ -144,11 +147,15 @@ impl Classifier {
             let region = partitions.region(&cres_event);
             trace!("{event:#?} is in region {region}");
             let event = String::try_from(event).unwrap();
-            let event = &trim_footer(&event, format);
-            writers[region].write_all(event.as_bytes())?;
+            let event = trim_footer(event.as_bytes(), format);
+            writers[region].write_all(event)?;
+            nopen[region] += num_open_tags(event, format);
             event_progress.inc(1);
         }
-        for writer in writers {
+        for (mut writer, nopen) in writers.into_iter().zip(nopen) {
+            for _ in 0..nopen {
+                writer.write_all(b"</e>\n")?;
+            }
             write_footer(writer, format)
                 .with_context(|| "Failed to write event file footer")?;
         }
@@ -219,15 +226,35 @@ fn write_footer(
     writer.finish()
 }
 
-fn trim_footer(event: &str, format: FileFormat) -> &str {
-    let footer = get_footer(format);
-    if let Some(event) = event.trim_end().strip_suffix(footer) {
+fn trim_footer(event: &[u8], format: FileFormat) -> &[u8] {
+    let footer = get_footer(format).as_bytes();
+    if let Some(event) = event.trim_ascii_end().strip_suffix(footer) {
         event
     } else {
         event
     }
 }
 
+/// Number of event tags in a STRIPPER XML fragment that are not closed again
+///
+/// The start tag of an event is part of the file header or of the
+/// _previous_ subevent record, which can be in a different region.
+fn num_open_tags(bytes: &[u8], format: FileFormat) -> isize {
+    match format {
+        #[cfg(feature = "stripper-xml")]
+        FileFormat::StripperXml => {
+            let count = |tag: &[u8]| {
+                bytes.windows(tag.len()).filter(|w| w == &tag).count() as isize
+            };
+            count(b"<e>") - count(b"</e>")
+        }
+        _ => {
+            let _ = bytes;
+            0
+        }
+    }
+}
+
 fn get_footer(format: FileFormat) -> &'static str {
     match format {
         FileFormat::HepMC2 => "HepMC::IO_GenEvent-END_EVENT_LISTING",
-- 
2.43.0


From fc612b781141816de44efa5415124ede21456fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 16/36] fix: do not overwrite inputs with partitions or region
 files

---
 src/bin/classify-events.rs | 36 +++++++++++++++++++++++++-----------
 src/bin/partition.rs       |  7 +++++--
 src/io.rs                  |  2 +-
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d60f27b..de3c230 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -7,7 +7,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{anyhow, Context, Result};
+use anyhow::{anyhow, bail, Context, Result};
 use clap::Parser;
 use cres::{
     compression::{
@@ -16,7 +16,9 @@ use cres::{
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
-    io::{detect_event_file_format, EventFileReader, FileReader},
+    io::{
+        detect_event_file_format, find_used_output, EventFileReader, FileReader,
+    },
     partition::VPTreePartition,
     prelude::{Converter, DefaultClustering},
     progress_bar::ProgressBar,
@@ -62,6 +64,16 @@ fn main() -> Result<()> {
     create_dir_all(&opt.outdir)
         .with_context(|| format!("Failed to create {:?}", opt.outdir))?;
 
+    let mut outfiles = Vec::new();
+    for file in &opt.infiles {
+        outfiles.extend(make_outnames(partitions.len(), &opt.outdir, file)?);
+    }
+    let used = opt.infiles.iter().chain([&part_file]);
+    if let Some(idx) = find_used_output(used, &outfiles) {
+        let outfile = &outfiles[idx];
+        bail!("Output file {outfile:?} is also used as another input or output")
+    }
+
     let classifier = Classifier {
         partitions,
         outdir: opt.outdir,
@@ -267,12 +279,7 @@ fn get_footer(format: FileFormat) -> &'static str {
     }
 }
 
-fn make_byte_writers(
-    n: usize,
-    outdir: &Path,
-    file: &Path,
-    compression: Option<Compression>,
-) -> Result<Vec<EventWriter>> {
+fn make_outnames(n: usize, outdir: &Path, file: &Path) -> Result<Vec<PathBuf>> {
     let filename = file
         .file_name()
         .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
@@ -287,12 +294,19 @@ fn make_byte_writers(
             PathBuf::from(format!("{prefix}.{i}.{suffix}")).as_path(),
         ])
     };
+    Ok((0..n).map(make_outname).collect())
+}
 
+fn make_byte_writers(
+    n: usize,
+    outdir: &Path,
+    file: &Path,
+    compression: Option<Compression>,
+) -> Result<Vec<EventWriter>> {
     let mut res = Vec::with_capacity(n);
-    for i in 0..n {
-        let outname = make_outname(i);
+    for (i, outname) in make_outnames(n, outdir, file)?.iter().enumerate() {
         debug!("Events in region {i} will be written to {outname:?}");
-        let outfile = File::create(&outname)
+        let outfile = File::create(outname)
             .with_context(|| format!("Failed to create {outname:?}"))?;
         let out = BufWriter::new(outfile);
         let out = compress_writer(out, compression)
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index f5ef75c..1cd9289 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -11,8 +11,7 @@ use cres::{
     compression::compress_writer,
     distance::{DistWrapper, EuclWithScaledPt},
     event::Event,
-    io::Converter,
-    io::FileReader,
+    io::{find_used_output, Converter, FileReader},
     partition::{VPBisection, VPTreePartition},
     prelude::DefaultClustering,
     traits::{Clustering, TryConvert},
@@ -51,6 +50,10 @@ fn main() -> Result<()> {
 
     debug!("settings: {:#?}", opt);
 
+    if find_used_output(&opt.infiles, [&opt.outfile]).is_some() {
+        bail!("Output file {:?} is also used as an input", opt.outfile)
+    }
+
     let converter = Converter::new();
 
     let mut clustering = DefaultClustering::new(opt.jet_def.into())
diff --git a/src/io.rs b/src/io.rs
index ef58309..7b0374f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -266,7 +266,7 @@ impl IOBuilder {
 }
 
 /// Find the first output file that would overwrite an input or other output
-fn find_used_output<'a>(
+pub fn find_used_output<'a>(
     infiles: impl IntoIterator<Item = &'a PathBuf>,
     outfiles: impl IntoIterator<Item = &'a PathBuf>,
 ) -> Option<usize> {
-- 
2.43.0


From 82e003efba0524e5df6837d08665ead962a35e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 17/36] fix: show the actual event weights to distance
 functions in the C API

---
 src/c_api/distance.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5f24104..09c5317 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -42,20 +42,22 @@ impl Distance for DistanceFn {
         let type_sets1 = extract_typesets(ev1);
         let type_set_views1: Vec<_> =
             type_sets1.iter().map(TypeSet::view).collect();
+        let weights1 = extract_weights(ev1);
         let event_view1 = EventView {
             id: ev1.id(),
-            weights: ev1.weights.data_ptr() as *const f64,
-            n_weights: ev1.n_weights(),
+            weights: weights1.as_ptr(),
+            n_weights: weights1.len(),
             type_sets: type_set_views1.as_ptr(),
             n_type_sets: type_set_views1.len(),
         };
         let type_sets2 = extract_typesets(ev2);
         let type_set_views2: Vec<_> =
             type_sets2.iter().map(TypeSet::view).collect();
+        let weights2 = extract_weights(ev2);
         let event_view2 = EventView {
             id: ev2.id(),
-            weights: ev2.weights.data_ptr() as *const f64,
-            n_weights: ev2.n_weights(),
+            weights: weights2.as_ptr(),
+            n_weights: weights2.len(),
             type_sets: type_set_views2.as_ptr(),
             n_type_sets: type_set_views2.len(),
         };
@@ -64,6 +66,12 @@ impl Distance for DistanceFn {
     }
 }
 
+// Copy the event weights. Other threads may change them at any time, so
+// we cannot hand out a pointer to the original.
+fn extract_weights(ev: &Event) -> Vec<c_double> {
+    ev.weights.read().iter().map(|&w| w.into()).collect()
+}
+
 fn extract_typesets(ev: &Event) -> Vec<TypeSet> {
     ev.outgoing()
         .iter()
-- 
2.43.0


From fb48fdf79bf93c3347f58f5e91241d06f80ef0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 18/36] fix: restore logging if an operation with a progress
 bar fails

---
 src/progress_bar.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/progress_bar.rs b/src/progress_bar.rs
index 888cc1a..128c436 100644
--- a/src/progress_bar.rs
+++ b/src/progress_bar.rs
@@ -1,3 +1,5 @@
+use std::sync::atomic::{AtomicBool, Ordering};
+
 pub use crate::traits::Progress;
 
 impl Progress for indicatif::ProgressBar {
@@ -37,14 +39,14 @@ pub const NO_PROGRESS: NoProgress = NoProgress {};
 /// writing to an interactive terminal or a non-interactive output.
 pub struct ProgressBar {
     bar: Box<dyn Progress + Send + Sync>,
-    logging_disabled: bool,
+    logging_disabled: AtomicBool,
 }
 
 impl Default for ProgressBar {
     fn default() -> Self {
         Self {
             bar: Box::new(NO_PROGRESS),
-            logging_disabled: false,
+            logging_disabled: AtomicBool::new(false),
         }
     }
 }
@@ -56,14 +58,24 @@ impl Progress for ProgressBar {
 
     fn finish(&self) {
         self.bar.finish();
-        if self.logging_disabled {
-            // restore logging
-            log::set_max_level(log::LevelFilter::Info);
-        }
+        self.restore_logging();
+    }
+}
+
+impl Drop for ProgressBar {
+    fn drop(&mut self) {
+        // the operation may have ended early without finishing the bar
+        self.restore_logging();
     }
 }
 
 impl ProgressBar {
+    fn restore_logging(&self) {
+        if self.logging_disabled.swap(false, Ordering::Relaxed) {
+            log::set_max_level(log::LevelFilter::Info);
+        }
+    }
+
     /// A new progress bar with the given maximum progress and message
     pub fn new(len: u64, message: &str) -> Self {
         if log::max_level().to_level() != Some(log::Level::Info) {
@@ -87,7 +99,7 @@ impl ProgressBar {
         log::set_max_level(log::LevelFilter::Off);
         ProgressBar {
             bar: Box::new(bar),
-            logging_disabled: true,
+            logging_disabled: AtomicBool::new(true),
         }
     }
 
@@ -99,7 +111,7 @@ impl ProgressBar {
         log::set_max_level(log::LevelFilter::Off);
         ProgressBar {
             bar: Box::new(bar),
-            logging_disabled: true,
+            logging_disabled: AtomicBool::new(true),
         }
     }
 }
-- 
2.43.0


From 1c532a1692f3400b1927af6ebb7b332d5e2dced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 19/36] fix: keep the largest cells when combining cell
 collectors

---
 src/cell_collector.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 66292d8..547daf0 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -169,6 +169,10 @@ impl CellCollector {
             "combining {} + {} cell observations",
             self.count, other.count
         );
+        self.first.extend(
+            other.first.into_iter().map(|(id, ev)| (id + self.count, ev)),
+        );
+        self.first.truncate(NCELLS);
         self.largest_by_members.extend(
             other
                 .largest_by_members
@@ -206,10 +210,9 @@ impl CellCollector {
     }
 }
 
+// Keep only the `n` largest entries
 fn truncate<K: Ord, V>(map: &mut BTreeMap<K, V>, n: usize) {
-    let mut count = 0;
-    map.retain(|_, _| {
-        count += 1;
-        count <= n
-    });
+    while map.len() > n {
+        map.pop_first();
+    }
 }
-- 
2.43.0


From ab299c26ba0b6e38e75d74e24fcb80bcdd480203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 20/36] fix: do not count earlier cell observations once for
 each thread

---
 src/resampler.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 29d93d7..d210c3a 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -391,7 +391,7 @@ impl ObserveCell for Observer {
         );
         let mut data = self
             .threaded
-            .get_or(|| RefCell::new(self.central.clone()))
+            .get_or(|| RefCell::new(self.central.new_thread_data()))
             .borrow_mut();
         data.cell_radii.push(cell.radius());
         if cell.weight_sum() < 0. {
@@ -410,7 +410,8 @@ impl ObserveCell for Observer {
             .into_iter()
             .map(|c| c.into_inner())
             .reduce(|acc, c| acc.combine(c));
-        if let Some(mut res) = res {
+        if let Some(res) = res {
+            let mut res = std::mem::take(&mut self.central).combine(res);
             info!("Created {} cells", res.cell_radii.len());
             if res.nneg > 0 {
                 info!("{} cells had negative weight!", res.nneg);
@@ -428,6 +429,19 @@ impl ObserveCell for Observer {
 }
 
 impl ObserverData {
+    // Empty data for a new thread. Earlier observations must not be
+    // included, otherwise they would be counted once for each thread.
+    fn new_thread_data(&self) -> Self {
+        Self {
+            rng: self.rng.clone(),
+            cell_collector: self
+                .cell_collector
+                .as_ref()
+                .map(|_| CellCollector::new()),
+            ..Default::default()
+        }
+    }
+
     pub fn combine(mut self, mut other: Self) -> Self {
         self.cell_radii.append(&mut other.cell_radii);
         self.nneg += other.nneg;
-- 
2.43.0


From 1f872230491c8af7a0d854f76a6c7a3f898bfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 21/36] fix: do not panic when updating weights after rewinding
 or at the end

---
 src/io.rs   | 15 +++++++++++----
 src/lhef.rs | 11 ++++++++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 7b0374f..090cb74 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -671,16 +671,23 @@ impl UpdateWeights for CombinedFileIO {
         &mut self,
         weights: &Weights,
     ) -> Result<bool, Self::Error> {
-        while self.current_file_idx < self.files.len() {
+        if self.files.is_empty() {
+            return Ok(false);
+        }
+        if self.current.is_none() {
+            self.open(0)?;
+        }
+        loop {
             let current = self.current.as_mut().unwrap();
-            let res = current.update_next_weights(weights)?;
-            if res {
+            if current.update_next_weights(weights)? {
                 return Ok(true);
             }
             current.finish_weight_update()?;
+            if self.current_file_idx + 1 == self.files.len() {
+                return Ok(false);
+            }
             self.open(self.current_file_idx + 1)?;
         }
-        Ok(false)
     }
 }
 
diff --git a/src/lhef.rs b/src/lhef.rs
index 5521bfb..6871345 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -104,6 +104,7 @@ pub struct FileIO {
     sink_path: PathBuf,
     sink: CompressWriter<'static, BufWriter<File>>,
     _weight_names: Vec<String>,
+    finished: bool,
 }
 
 impl FileIO {
@@ -129,6 +130,7 @@ impl FileIO {
             sink_path,
             sink,
             _weight_names,
+            finished: false,
         })
     }
 
@@ -308,9 +310,16 @@ impl UpdateWeights for FileIO {
     }
 
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        // there must be only a single footer
+        let footer: &[u8] = if self.finished {
+            b""
+        } else {
+            b"\n</LesHouchesEvents>\n"
+        };
+        self.finished = true;
         let res = self
             .sink
-            .write_all(b"\n</LesHouchesEvents>\n")
+            .write_all(footer)
             .and_then(|_| self.sink.finish());
         self.into_io_error(res.map_err(WriteError::IO))
     }
-- 
2.43.0


From a3344c8e400316036e5e91eaeda4d1fe386ae096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 22/36] fix: count updated events in size hint

---
 src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 090cb74..e345911 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -660,6 +660,7 @@ impl UpdateWeights for CombinedFileIO {
                 }
                 progress.inc(1);
                 nevent += 1;
+                self.nevents_read += 1;
             }
             current.finish_weight_update()?;
         }
@@ -680,6 +681,7 @@ impl UpdateWeights for CombinedFileIO {
         loop {
             let current = self.current.as_mut().unwrap();
             if current.update_next_weights(weights)? {
+                self.nevents_read += 1;
                 return Ok(true);
             }
             current.finish_weight_update()?;
-- 
2.43.0


From a1ba5f5c6e58fbf4a5d6b5e38b7cc38bc5a2c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 23/36] fix: finish all remaining files when finishing a
 combined weight update

---
 src/io.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index e345911..5def270 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -691,6 +691,22 @@ impl UpdateWeights for CombinedFileIO {
             self.open(self.current_file_idx + 1)?;
         }
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        if self.files.is_empty() {
+            return Ok(());
+        }
+        if self.current.is_none() {
+            self.open(0)?;
+        }
+        loop {
+            self.current.as_mut().unwrap().finish_weight_update()?;
+            if self.current_file_idx + 1 == self.files.len() {
+                return Ok(());
+            }
+            self.open(self.current_file_idx + 1)?;
+        }
+    }
 }
 
 /// Reader from an event file
-- 
2.43.0


From 27faa7ec307246797ba17af0b4e3bf2b461cb3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 24/36] fix: count STRIPPER XML subevents correctly after
 rewinding

---
 src/stripper_xml.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 8bd5d77..662798b 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -39,6 +39,7 @@ use crate::{
 pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
+    nsubevents: usize,
     rem_subevents: usize,
     header: Vec<u8>,
 }
@@ -54,11 +55,12 @@ impl FileReader {
             return Err(XMLError(Error::BadTag(header_info.to_string())));
         };
 
-        let rem_subevents = nsubevents as usize;
+        let nsubevents = nsubevents as usize;
         Ok(Self {
             source_path,
             source,
-            rem_subevents,
+            nsubevents,
+            rem_subevents: nsubevents,
             header,
         })
     }
@@ -93,7 +95,7 @@ impl FileReader {
 
         trace!("Read STRIPPER XML record:\n{record}");
 
-        self.rem_subevents -= 1;
+        self.rem_subevents = self.rem_subevents.saturating_sub(1);
         Some(Ok(record))
     }
 }
@@ -113,6 +115,7 @@ impl Rewind for FileReader {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         (_, self.source) = init_source(&self.source_path)?;
+        self.rem_subevents = self.nsubevents;
 
         Ok(())
     }
-- 
2.43.0


From d73ece873843963b42b2d430c48a0447a59ba085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 25/36] fix: require normalisation of STRIPPER XML events

---
 src/stripper_xml.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 662798b..dcf42be 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -301,7 +301,7 @@ where
     use CreateError::*;
 
     let mut event_files = Vec::new();
-    let mut rescale: HashMap<_, (f64, u64)> = HashMap::new();
+    let mut rescale: HashMap<_, (Option<f64>, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
         let mut r = open_decompressed(path).map_err(OpenInput)?;
@@ -316,11 +316,11 @@ where
             match tag {
                 XMLTag::Normalization { name, scale } => {
                     let entry = rescale.entry(name).or_default();
-                    entry.0 = scale;
+                    entry.0 = Some(scale);
                     // don't add to vec of event files
                 }
                 XMLTag::Eventrecord { name, nevents, .. } => {
-                    let entry = rescale.entry(name).or_insert((-1., 0));
+                    let entry = rescale.entry(name).or_default();
                     entry.1 += nevents;
                     event_files.push((path.to_owned(), out))
                 }
@@ -332,7 +332,10 @@ where
     }
     let rescale = rescale
         .into_iter()
-        .map(|(name, (scale, nevents))| (name, scale / (nevents as f64)))
+        .filter_map(|(name, (scale, nevents))| {
+            // opening event files without normalisation is an error
+            scale.map(|scale| (name, scale / (nevents as f64)))
+        })
         .collect();
     Ok((event_files, rescale))
 }
-- 
2.43.0


From 80c60748b6b7081ec7ba69ed7a6213660b57fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 26/36] fix: accept Les Houches events with less than two
 particles

---
 src/lhef.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index 6871345..a8bf945 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -248,7 +248,8 @@ impl LHEFParser for Converter {
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
         let nparticles = nparticles as usize;
-        let mut event = EventBuilder::with_capacity(nparticles - 2);
+        let mut event =
+            EventBuilder::with_capacity(nparticles.saturating_sub(2));
         let (rest, _idrup) =
             any_entry(rest).map_err(|_| parse_err("IDRUP entry", rest))?;
         let (rest, wt) =
-- 
2.43.0


From 069bf6c120e431e4bf32f819de50951d106960fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 27/36] fix: keep weights finite if they add up to zero when
 unweighting

---
 src/unweight.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unweight.rs b/src/unweight.rs
index 1bbf35e..57ab8d4 100644
--- a/src/unweight.rs
+++ b/src/unweight.rs
@@ -64,6 +64,10 @@ impl<R: Rng> Unweight for Unweighter<R> {
 
         // rescale to ensure that the sum of weights is preserved exactly
         let final_wt_sum: N64 = events.par_iter().map(|e| e.weight()).sum();
+        if final_wt_sum == orig_wt_sum {
+            // nothing to do, in particular if both sums are zero
+            return Ok(events);
+        }
         let reweight = orig_wt_sum / final_wt_sum;
         events
             .par_iter_mut()
-- 
2.43.0


From eee4e30dbafa2e9f21b05bd9a79e9f92f22861e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 28/36] fix: recognise hard links to input files

---
 src/io.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5def270..613988a 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -271,14 +271,37 @@ pub fn find_used_output<'a>(
     outfiles: impl IntoIterator<Item = &'a PathBuf>,
 ) -> Option<usize> {
     let mut used: HashSet<_> =
-        infiles.into_iter().map(|f| resolve_path(f)).collect();
+        infiles.into_iter().map(|f| FileId::new(f)).collect();
     outfiles.into_iter().position(|outfile| {
         // writing to e.g. /dev/null is always safe
         let is_special = outfile.metadata().is_ok_and(|m| !m.is_file());
-        !is_special && !used.insert(resolve_path(outfile))
+        !is_special && !used.insert(FileId::new(outfile))
     })
 }
 
+/// Identity of a file, which may have several names
+#[derive(PartialEq, Eq, Hash)]
+enum FileId {
+    #[cfg(unix)]
+    Inode { dev: u64, ino: u64 },
+    Path(PathBuf),
+}
+
+impl FileId {
+    fn new(path: &Path) -> Self {
+        // hard links to the same file have different paths
+        #[cfg(unix)]
+        if let Ok(meta) = path.metadata() {
+            use std::os::unix::fs::MetadataExt;
+            return Self::Inode {
+                dev: meta.dev(),
+                ino: meta.ino(),
+            };
+        }
+        Self::Path(resolve_path(path))
+    }
+}
+
 /// Unique name for a file that may not exist yet
 fn resolve_path(path: &Path) -> PathBuf {
     path.canonicalize().unwrap_or_else(|_| {
-- 
2.43.0


From f0f0628b62136fbe69209a41c7a771db40b7118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 29/36] fix: reject numbers followed by other characters in
 event records

---
 src/lhef.rs         |  8 ++++----
 src/parsing.rs      | 13 +++++++++----
 src/stripper_xml.rs | 19 ++++++++++++-------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index a8bf945..05047b3 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -9,7 +9,7 @@ use noisy_float::prelude::*;
 use nom::{
     character::complete::{i32, space0, u32},
     multi::count,
-    sequence::preceded,
+    sequence::{delimited, preceded},
     IResult, Parser,
 };
 use particle_id::ParticleID;
@@ -24,7 +24,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, WriteError,
     },
-    parsing::{any_entry, double_entry, i32_entry, non_space},
+    parsing::{any_entry, double_entry, entry_end, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -346,9 +346,9 @@ fn non_weight_entries(record: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn u32_entry0(line: &str) -> IResult<&str, u32> {
-    preceded(space0, u32).parse(line)
+    delimited(space0, u32, entry_end).parse(line)
 }
 
 pub(crate) fn i32_entry0(line: &str) -> IResult<&str, i32> {
-    preceded(space0, i32).parse(line)
+    delimited(space0, i32, entry_end).parse(line)
 }
diff --git a/src/parsing.rs b/src/parsing.rs
index 56b202d..f65b230 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,13 +1,14 @@
 use nom::{
     bytes::complete::take_while1,
     character::complete::{i32, space1, u32},
+    combinator::not,
     number::complete::double,
-    sequence::preceded,
+    sequence::{delimited, preceded},
     IResult, Parser,
 };
 
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
-    preceded(space1, double).parse(line)
+    delimited(space1, double, entry_end).parse(line)
 }
 
 pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
@@ -15,11 +16,15 @@ pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn u32_entry(line: &str) -> IResult<&str, u32> {
-    preceded(space1, u32).parse(line)
+    delimited(space1, u32, entry_end).parse(line)
 }
 
 pub(crate) fn i32_entry(line: &str) -> IResult<&str, i32> {
-    preceded(space1, i32).parse(line)
+    delimited(space1, i32, entry_end).parse(line)
+}
+
+pub(crate) fn entry_end(line: &str) -> IResult<&str, ()> {
+    not(non_space).parse(line)
 }
 
 pub(crate) fn non_space(line: &str) -> IResult<&str, &str> {
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index dcf42be..292a1c5 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -12,8 +12,8 @@ use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
     character::complete::{char, i32, multispace0, space0, space1, u64},
-    combinator::all_consuming,
-    sequence::preceded,
+    combinator::{all_consuming, peek},
+    sequence::{preceded, terminated},
     IResult, Parser,
 };
 use particle_id::ParticleID;
@@ -205,7 +205,7 @@ impl FileIO {
         let (rest, start) = weight_start(record.as_str())
             .map_err(|_| parse_err("start of event record", record))?;
         let (rest, weight) =
-            double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            weight_entry(rest).map_err(|_| parse_err("weight entry", rest))?;
         let start = start.len();
         let end = record.len() - rest.len();
         record.replace_range(
@@ -242,8 +242,8 @@ impl FileIO {
             // TODO: code duplication with `rescale_weight`
             let (rest, start) = weight_start(record.as_str())
                 .map_err(|_| parse_err("start of event record", &record))?;
-            let (rest, old_weight) =
-                double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            let (rest, old_weight) = weight_entry(rest)
+                .map_err(|_| parse_err("weight entry", rest))?;
 
             let start = start.len();
             let end = record.len() - rest.len();
@@ -567,7 +567,7 @@ impl StripperXmlParser for Converter {
             .map_err(|_| parse_err("start of event record", record))?;
 
         let (rest, weight) =
-            double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            weight_entry(rest).map_err(|_| parse_err("weight entry", rest))?;
 
         // TODO: it might be best to do the weight rescaling here, but
         // the Converter doesn't have that information
@@ -622,12 +622,17 @@ fn weight_start(line: &str) -> IResult<&str, &str> {
     Ok((rest, start))
 }
 
+fn weight_entry(line: &str) -> IResult<&str, f64> {
+    terminated(double, peek(char('"'))).parse(line)
+}
+
 fn particle_start(line: &str) -> IResult<&str, &str> {
     preceded(multispace0, tag("<p")).parse(line)
 }
 
 fn particle_status(line: &str) -> IResult<&str, i32> {
-    let (rest, parsed) = (space0, tag("id=\""), i32).parse(line)?;
+    let (rest, parsed) =
+        (space0, tag("id=\""), i32, peek(char(','))).parse(line)?;
     Ok((rest, parsed.2))
 }
 
-- 
2.43.0


From 374fbd02c0db11003561da14e7f9d67d1bdaafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 30/36] fix: reject infinite and NaN weights and momenta

---
 src/hepmc2.rs       | 26 ++++++++++++++++++++++----
 src/parsing.rs      | 11 ++++++++++-
 src/stripper_xml.rs | 15 ++++++---------
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 4a54537..6909f8d 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -18,7 +18,10 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, WriteError,
     },
-    parsing::{any_entry, double_entry, i32_entry, u32_entry},
+    parsing::{
+        any_entry, double_entry, i32_entry, maybe_finite_double_entry,
+        u32_entry,
+    },
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -468,9 +471,12 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
         .map_err(|_| parse_err("number of weights entry", rest))?;
 
     let res = if cfg!(feature = "multiweight") {
-        let (rest, weights) = count(double_entry, nweights as usize)
-            .parse(rest)
-            .map_err(|_| parse_err("event weight entries", rest))?;
+        // weights we don't use are allowed to be NaN or infinite
+        let (rest, weights) =
+            count(maybe_finite_double_entry, nweights as usize)
+                .parse(rest)
+                .map_err(|_| parse_err("event weight entries", rest))?;
+        check_finite(weights[0], record)?;
         (weights[0], weights, rest)
     } else {
         let (rest, weight) = double_entry(rest)
@@ -480,6 +486,17 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
     Ok(res)
 }
 
+fn check_finite(weight: f64, record: &str) -> Result<(), ReadError> {
+    if !weight.is_finite() {
+        return Err(ReadError::InvalidEntry {
+            value: weight.to_string(),
+            entry: "event weight entry",
+            record: take_chars(record, 100),
+        });
+    }
+    Ok(())
+}
+
 #[cfg(feature = "multiweight")]
 fn parse_weight_names_line<'a>(
     converter: &Converter,
@@ -516,6 +533,7 @@ fn parse_weight_names_line<'a>(
         let Some(weight) = weight else {
             return Err(FindWeight(name.to_owned(), names.to_owned()));
         };
+        check_finite(weight, names)?;
         event.add_weight(n64(weight));
     }
     Ok(record)
diff --git a/src/parsing.rs b/src/parsing.rs
index f65b230..cb4e142 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,13 +1,22 @@
 use nom::{
     bytes::complete::take_while1,
     character::complete::{i32, space1, u32},
-    combinator::not,
+    combinator::{not, verify},
     number::complete::double,
     sequence::{delimited, preceded},
     IResult, Parser,
 };
 
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
+    delimited(space1, finite_double, entry_end).parse(line)
+}
+
+/// Parse a floating-point number, excluding infinity and NaN
+pub(crate) fn finite_double(text: &str) -> IResult<&str, f64> {
+    verify(double, |x: &f64| x.is_finite()).parse(text)
+}
+
+pub(crate) fn maybe_finite_double_entry(line: &str) -> IResult<&str, f64> {
     delimited(space1, double, entry_end).parse(line)
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 292a1c5..1c826b8 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -31,6 +31,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, Utf8Error, WriteError, FORMAT_DETECTION_LEN,
     },
+    parsing::finite_double,
     traits::{Rewind, UpdateWeights},
     util::{take_chars, trim_ascii_start},
 };
@@ -623,7 +624,7 @@ fn weight_start(line: &str) -> IResult<&str, &str> {
 }
 
 fn weight_entry(line: &str) -> IResult<&str, f64> {
-    terminated(double, peek(char('"'))).parse(line)
+    terminated(finite_double, peek(char('"'))).parse(line)
 }
 
 fn particle_start(line: &str) -> IResult<&str, &str> {
@@ -644,13 +645,13 @@ fn particle_id(line: &str) -> IResult<&str, ParticleID> {
 fn particle_momentum(line: &str) -> IResult<&str, FourVector> {
     let (rest, p) = (
         space0,
-        double,
+        finite_double,
         char(','),
-        double,
+        finite_double,
         char(','),
-        double,
+        finite_double,
         char(','),
-        double,
+        finite_double,
         space0,
     )
         .parse(line)?;
@@ -689,7 +690,3 @@ impl UpdateWeights for FileIO {
         self.into_io_error(res.map_err(WriteError::IO))
     }
 }
-
-fn double(input: &str) -> IResult<&str, f64> {
-    nom::number::complete::double(input)
-}
-- 
2.43.0


From 9b7d4361533c53c8fa0dc1b883cd635af72ab242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:43 +0000
Subject: [PATCH 31/36] fix: report truncated STRIPPER XML subevents

---
 src/stripper_xml.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 1c826b8..fd1f6cd 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -611,6 +611,14 @@ impl StripperXmlParser for Converter {
             })?;
         }
 
+        if !rest.contains("</se>") {
+            return Err(Error::UnclosedTag(
+                "<se".to_string(),
+                take_chars(record, 100),
+            )
+            .into());
+        }
+
         // TODO: multiple weights
 
         Ok(event.build())
-- 
2.43.0


From 16e38d559bfa2ced94e55aea7c47656d953ec536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 32/36] fix: keep white space around weights

---
 src/hepmc2.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 6909f8d..83af288 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -362,23 +362,30 @@ fn update_named_weights(
         }
     }
 
-    let mut weight_entries = Vec::from_iter(
-        record[weights_start..]
-            .split_ascii_whitespace()
-            .take(nweights)
-            .map(|w| w.to_string()),
-    );
+    let mut new_weights = vec![None; nweights];
     for (idx, weight) in weight_pos.iter().zip(weights.iter().skip(1)) {
         if let Some(idx) = *idx {
-            weight_entries[idx] = weight.to_string();
+            new_weights[idx] = Some(weight);
         }
     }
 
-    let start = weights_start + 1;
-    let line_end = record[start..].find('\n').unwrap();
-    let end = start + line_end;
-    // there are no entries in the E line after the weights, so this is safe
-    record.replace_range(start..end, &weight_entries.join(" "));
+    // only replace the weights themselves, but not the space between them
+    let mut updated = String::new();
+    let mut rest = &record[weights_start..];
+    for new_weight in new_weights {
+        let (after_entry, entry) = any_entry(rest).map_err(|_| {
+            ParseEntry("event weight entries", take_chars(rest, 100))
+        })?;
+        let entry_end = rest.len() - after_entry.len();
+        updated.push_str(&rest[..(entry_end - entry.len())]);
+        match new_weight {
+            Some(weight) => updated.push_str(&weight.to_string()),
+            None => updated.push_str(entry),
+        }
+        rest = after_entry;
+    }
+    let end = record.len() - rest.len();
+    record.replace_range(weights_start..end, &updated);
     Ok(())
 }
 
@@ -389,12 +396,12 @@ pub(crate) fn update_central_weight(
 ) -> Result<(), ReadError> {
     use ReadError::*;
 
-    let (after_entry, _) = any_entry(&record[entry_pos..]).map_err(|_| {
-        ParseEntry("central weight entry", take_chars(record, 100))
-    })?;
-    // +1 to ensure we skip one space
-    let start = entry_pos + 1;
+    let (after_entry, entry) =
+        any_entry(&record[entry_pos..]).map_err(|_| {
+            ParseEntry("central weight entry", take_chars(record, 100))
+        })?;
     let end = record.len() - after_entry.len();
+    let start = end - entry.len();
     record.replace_range(start..end, &weight.to_string());
     Ok(())
 }
-- 
2.43.0


From 67c9837b8f24feb4608af8679b6d7042c525ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 33/36] fix: reject STRIPPER XML channels with unusable scale
 factors

---
 src/stripper_xml.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index fd1f6cd..e4cc977 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -173,6 +173,10 @@ impl FileIO {
         let Some(weight_scale) = scaling.get(&name).copied() else {
             return Err(XMLError(Error::MissingScaling(name)));
         };
+        // we have to undo the scaling when writing the final weights
+        if weight_scale == 0. || !weight_scale.is_finite() {
+            return Err(XMLError(Error::InvalidScaling(name, weight_scale)));
+        }
 
         Ok(FileIO {
             reader,
@@ -495,6 +499,9 @@ pub enum Error {
     /// Missing scaling
     #[error("No scaling information found for {0}")]
     MissingScaling(String),
+    /// Scaling information that cannot be used
+    #[error("Invalid scale factor {1} for {0}")]
+    InvalidScaling(String, f64),
     /// Unsupported XML tag
     #[error("File starts with an unsupported XML tag `{0}`")]
     BadTag(String),
-- 
2.43.0


From 702aeb889311ecc8b86da9ec62079984728dd2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 34/36] fix: report inputs that have grown since they were read

If an input file held more events in the second pass, the weights of
the first events of the next file were assigned to them and the last
events were dropped, without any error.
---
 src/io.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 613988a..4809230 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -514,6 +514,9 @@ pub enum ReadError {
     /// Entry not recognised
     #[error("Failed to recognise {0} in {1}")]
     UnrecognisedEntry(&'static str, String),
+    /// More events than weights
+    #[error("Found more events than the {0} given weights")]
+    ExcessEvents(usize),
     /// UTF8 error
     #[error("UTF8 error")]
     Utf8(#[from] Utf8Error),
@@ -685,6 +688,15 @@ impl UpdateWeights for CombinedFileIO {
                 nevent += 1;
                 self.nevents_read += 1;
             }
+            // the input may have grown since the weights were determined
+            if nevent == weights.len() {
+                if let Some(record) = current.next() {
+                    record?;
+                    let IOFiles { infile, outfile } = self.files[idx].clone();
+                    let source = ReadError::ExcessEvents(weights.len()).into();
+                    return Err(FileIOError::new(infile, outfile, source));
+                }
+            }
             current.finish_weight_update()?;
         }
         progress.finish();
-- 
2.43.0


From 27220c9560e7730baeeb903a911fe0295df6a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 35/36] fix: accept null pointers for empty lists of input
 files

The C interface made a slice from a null pointer, which is undefined
behaviour and aborts the program in debug builds.
---
 src/c_api/cres.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_api/cres.rs b/src/c_api/cres.rs
index 353f85e..f58b6d3 100644
--- a/src/c_api/cres.rs
+++ b/src/c_api/cres.rs
@@ -167,7 +167,12 @@ where
     debug!("Settings: {:#?}", opt);
 
     let infiles: Vec<_> = unsafe {
-        let names = std::slice::from_raw_parts(opt.infiles, opt.n_infiles);
+        // the pointer may be null if there are no files
+        let names = if opt.n_infiles == 0 {
+            &[]
+        } else {
+            std::slice::from_raw_parts(opt.infiles, opt.n_infiles)
+        };
         names
             .iter()
             .map(|&p| OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
-- 
2.43.0


From 621506ff2e77a97536e579bde17add1870ab74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 36/36] fix: report records without the requested weights

Named weights that were requested for formats without such weights
(LHEF, STRIPPER XML) were ignored; a HepMC record without the line with
weight names made the program panic.
---
 src/io.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 4809230..d1d2a2e 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -864,6 +864,13 @@ impl TryConvert<EventRecord, Event> for Converter {
                 self.parse_stripper_xml(&record)?
             }
         };
+        // only some formats support weights with names
+        #[cfg(feature = "multiweight")]
+        if event.n_weights() != 1 + self.weight_names.len() {
+            let names = self.weight_names.join(", ");
+            let found = "without names".to_owned();
+            return Err(ReadError::FindWeight(names, found).into());
+        }
         Ok(event)
     }
 }
-- 
2.43.0

