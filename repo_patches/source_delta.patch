From acaf6e154e7775fbb101240e01bf016c28aae093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 01/34] fix: search all remaining points in depth-limited
 vantage-point trees

---
 src/vptree.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vptree.rs b/src/vptree.rs
index c68dac9..a9095a5 100644
--- a/src/vptree.rs
+++ b/src/vptree.rs
@@ -408,6 +408,19 @@ impl<P: Copy + Hash + Eq, DF: Distance<P>> VPTree<P, DF> {
                 );
                 Self::nearer(nearest, nearest_other)
             } else {
+                // the tree ends here, but if its depth is limited
+                // there can still be points left
+                for (n, node) in tree.iter().enumerate() {
+                    if pt == node.vantage_pt
+                        || exclude.contains(&node.vantage_pt)
+                    {
+                        continue;
+                    }
+                    let d = *cached_dist
+                        .entry(node.vantage_pt)
+                        .or_insert_with(|| dist.distance(&pt, &node.vantage_pt));
+                    nearest = Self::nearer(nearest, Some((idx + 1 + n, d)));
+                }
                 nearest
             }
         } else {
-- 
2.43.0


From 085b5e734f9abbebf4155372bd381ae4cdd991ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 02/34] fix: leave seeds alone if their weight has become zero

---
 src/resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 8cc6b7d..29d93d7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,7 +93,7 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() > 0. {
+                if events[seed].weight() >= 0. {
                     return;
                 }
                 trace!("New cell around event {}", events[seed].id());
-- 
2.43.0


From 67e9703f6cdce6a42563b559cb7d337854a9efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 03/34] fix: do not resample cells that have become invalid
 while they were constructed

Other threads can change the weights of the members of a cell while it
is being constructed. Averaging regardless could leave events with
negative weights even for unlimited cell sizes.
---
 src/cell.rs      | 53 ++++++++++++++++++++++++++++++++++++++++++++----
 src/resampler.rs | 19 +++++++++--------
 2 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/cell.rs b/src/cell.rs
index c84d7cf..2e9b226 100644
--- a/src/cell.rs
+++ b/src/cell.rs
@@ -30,7 +30,6 @@ impl<'a> Cell<'a> {
         <N as NeighbourSearch>::Iter: Iterator<Item = (usize, N64)>,
     {
         let mut weight_sum = events[seed_idx].weight();
-        debug_assert!(weight_sum < 0.);
         debug!("Cell seed {seed_idx}  with weight {:e}", weight_sum);
         let mut members = vec![seed_idx];
         let mut radius = n64(0.);
@@ -64,12 +63,21 @@ impl<'a> Cell<'a> {
     ///
     /// The current implementation sets all weights to the mean weight
     /// over the cell.
+    ///
+    /// Other threads can change the weights of the cell members after
+    /// the cell was constructed. If the seed no longer has a negative
+    /// weight or the accumulated weight has turned negative in this
+    /// way the cell is left alone and the return value is `false`.
     #[cfg(feature = "multiweight")]
-    pub fn resample(&mut self) {
+    pub fn resample(&mut self) -> bool {
         use std::ops::{Deref, DerefMut};
 
+        let members = self.members.clone();
         self.members.sort_unstable(); // sort to prevent deadlocks
         let mut member_weights = self.write_lock_weights();
+        if !self.update_weight_sum(&members, &member_weights) {
+            return false;
+        }
         let (first, rest) = member_weights.split_first_mut().unwrap();
 
         let mut avg_wts = std::mem::take(first.deref_mut());
@@ -84,6 +92,7 @@ impl<'a> Cell<'a> {
             idx.copy_from(&avg_wts);
         }
         *first.deref_mut() = avg_wts;
+        true
     }
 
     /// Resample
@@ -93,12 +102,21 @@ impl<'a> Cell<'a> {
     ///
     /// The current implementation sets all weights to the mean weight
     /// over the cell.
+    ///
+    /// Other threads can change the weights of the cell members after
+    /// the cell was constructed. If the seed no longer has a negative
+    /// weight or the accumulated weight has turned negative in this
+    /// way the cell is left alone and the return value is `false`.
     #[cfg(not(feature = "multiweight"))]
-    pub fn resample(&mut self) {
+    pub fn resample(&mut self) -> bool {
         use std::ops::Deref;
 
+        let members = self.members.clone();
         self.members.sort_unstable(); // sort to prevent deadlocks
         let member_weights = self.write_lock_weights();
+        if !self.update_weight_sum(&members, &member_weights) {
+            return false;
+        }
 
         let total_wt: N64 =
             member_weights.iter().map(|w| w.deref().central()).sum();
@@ -106,6 +124,7 @@ impl<'a> Cell<'a> {
         for mut wt in member_weights {
             *wt = Weights::new_single(avg_wt);
         }
+        true
     }
 
     /// Number of events in cell
@@ -138,7 +157,33 @@ impl<'a> Cell<'a> {
         self.members.iter().map(move |idx| &self.events[*idx])
     }
 
-    fn write_lock_weights(&self) -> Vec<RwLockWriteGuard<'_, Weights>> {
+    // Update the accumulated weight from the current member weights
+    //
+    // The `members` have to be in the order in which they were added,
+    // so that the sum is exactly the same if no weight has changed.
+    // Returns `false` if the cell can no longer be resampled.
+    fn update_weight_sum(
+        &mut self,
+        members: &[usize],
+        member_weights: &[RwLockWriteGuard<'_, Weights>],
+    ) -> bool {
+        let weight = |idx| {
+            let pos = self.members.binary_search(idx).unwrap();
+            member_weights[pos].central()
+        };
+        let seed_weight = weight(&members[0]);
+        let mut weight_sum = seed_weight;
+        for idx in &members[1..] {
+            weight_sum += weight(idx);
+        }
+        if seed_weight >= 0. || (self.weight_sum >= 0. && weight_sum < 0.) {
+            return false;
+        }
+        self.weight_sum = weight_sum;
+        true
+    }
+
+    fn write_lock_weights(&self) -> Vec<RwLockWriteGuard<'a, Weights>> {
         self.members
             .iter()
             .map(|i| self.events[*i].weights.write())
diff --git a/src/resampler.rs b/src/resampler.rs
index 29d93d7..a4304aa 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,15 +93,18 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() >= 0. {
-                    return;
+                // Other threads can change weights while we are
+                // constructing the cell, so we may have to try again.
+                while events[seed].weight() < 0. {
+                    trace!("New cell around event {}", events[seed].id());
+                    let mut cell =
+                        Cell::new(&events, seed, &neighbour_search);
+                    if cell.resample() {
+                        self.observer.observe_cell(&cell);
+                        progress.inc(1);
+                        break;
+                    }
                 }
-                trace!("New cell around event {}", events[seed].id());
-                let mut cell =
-                    Cell::new(&events, seed, &neighbour_search);
-                cell.resample();
-                self.observer.observe_cell(&cell);
-                progress.inc(1);
             });
             progress.finish();
             debug!("Combining cell observations");
-- 
2.43.0


From d4d40d12b9b0bff49aa3309e9ab1c2be33ab7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 04/34] fix: keep the complete content of event files without
 events

---
 src/hepmc2.rs       | 3 ++-
 src/stripper_xml.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 30bec11..0c3141c 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -106,7 +106,8 @@ fn init_source(
     let mut header = Vec::new();
     while !header.ends_with(b"\nE") {
         if buf.read_until(b'E', &mut header).map_err(Read)? == 0 {
-            break;
+            // no events
+            return Ok((header, buf));
         }
     }
     header.pop();
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d557b4d..270cff5 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -527,7 +527,8 @@ fn init_source(
     let mut header = Vec::new();
     while !header.ends_with(b"<se") {
         if buf.read_until(b'e', &mut header).map_err(Read)? == 0 {
-            break;
+            // no events
+            return Ok((header, buf));
         }
     }
     header.truncate(header.len() - b"<se".len());
-- 
2.43.0


From d14762aa9c445117eca976e7bd38ddcbf370ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 05/34] fix: refuse STRIPPER contributions without
 normalisation

---
 src/stripper_xml.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 270cff5..c4ca9c0 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -297,7 +297,7 @@ where
     use CreateError::*;
 
     let mut event_files = Vec::new();
-    let mut rescale: HashMap<_, (f64, u64)> = HashMap::new();
+    let mut rescale: HashMap<_, (Option<f64>, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
         let file = File::open(path).map_err(OpenInput)?;
@@ -310,11 +310,11 @@ where
                 match tag {
                     XMLTag::Normalization { name, scale } => {
                         let entry = rescale.entry(name).or_default();
-                        entry.0 = scale;
+                        entry.0 = Some(scale);
                         // don't add to vec of event files
                     }
                     XMLTag::Eventrecord { name, nevents, .. } => {
-                        let entry = rescale.entry(name).or_insert((-1., 0));
+                        let entry = rescale.entry(name).or_default();
                         entry.1 += nevents;
                         event_files.push((path.to_owned(), out))
                     }
@@ -329,7 +329,9 @@ where
     }
     let rescale = rescale
         .into_iter()
-        .map(|(name, (scale, nevents))| (name, scale / (nevents as f64)))
+        .filter_map(|(name, (scale, nevents))| {
+            scale.map(|scale| (name, scale / (nevents as f64)))
+        })
         .collect();
     Ok((event_files, rescale))
 }
-- 
2.43.0


From 5ceb301ef8f71286a11f89e1629cad76667f0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 06/34] fix: keep STRIPPER size hint valid after rewinding and
 for additional events

---
 src/stripper_xml.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index c4ca9c0..29bf318 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -38,6 +38,7 @@ use crate::{
 pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
+    nsubevents: usize,
     rem_subevents: usize,
     header: Vec<u8>,
 }
@@ -53,11 +54,12 @@ impl FileReader {
             return Err(XMLError(Error::BadTag(header_info.to_string())));
         };
 
-        let rem_subevents = nsubevents as usize;
+        let nsubevents = nsubevents as usize;
         Ok(Self {
             source_path,
             source,
-            rem_subevents,
+            nsubevents,
+            rem_subevents: nsubevents,
             header,
         })
     }
@@ -92,7 +94,7 @@ impl FileReader {
 
         trace!("Read STRIPPER XML record:\n{record}");
 
-        self.rem_subevents -= 1;
+        self.rem_subevents = self.rem_subevents.saturating_sub(1);
         Some(Ok(record))
     }
 }
@@ -112,6 +114,7 @@ impl Rewind for FileReader {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         (_, self.source) = init_source(&self.source_path)?;
+        self.rem_subevents = self.nsubevents;
 
         Ok(())
     }
-- 
2.43.0


From d16fd534efd458573128ded56c895e552338ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 07/34] fix: keep the position of combined event I/O consistent
 when updating weights one by one

---
 src/io.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 37154e5..89cd698 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -548,6 +548,7 @@ impl Rewind for CombinedFileIO {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         self.current = None;
+        self.current_file_idx = 0;
         self.nevents_read = 0;
         Ok(())
     }
@@ -571,9 +572,9 @@ impl Iterator for CombinedFileIO {
             } else {
                 self.next()
             }
-        } else if self.files.is_empty() {
+        } else if self.current_file_idx >= self.files.len() {
             None
-        } else if let Err(err) = self.open(0) {
+        } else if let Err(err) = self.open(self.current_file_idx) {
             Some(Err(err))
         } else {
             self.next()
@@ -610,9 +611,12 @@ impl UpdateWeights for CombinedFileIO {
                 }
                 progress.inc(1);
                 nevent += 1;
+                self.nevents_read += 1;
             }
             current.finish_weight_update()?;
         }
+        self.current = None;
+        self.current_file_idx = self.files.len();
         progress.finish();
         Ok(nevent)
     }
@@ -622,13 +626,18 @@ impl UpdateWeights for CombinedFileIO {
         weights: &Weights,
     ) -> Result<bool, Self::Error> {
         while self.current_file_idx < self.files.len() {
+            if self.current.is_none() {
+                self.open(self.current_file_idx)?;
+            }
             let current = self.current.as_mut().unwrap();
             let res = current.update_next_weights(weights)?;
             if res {
+                self.nevents_read += 1;
                 return Ok(true);
             }
             current.finish_weight_update()?;
-            self.open(self.current_file_idx + 1)?;
+            self.current = None;
+            self.current_file_idx += 1;
         }
         Ok(false)
     }
-- 
2.43.0


From e7468ddfcb4dad8d11bab0c08073e084f7c1f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 08/34] fix: report incomplete, weightless and non-UTF-8 HepMC
 records as errors

---
 src/hepmc2.rs | 104 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 21 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 0c3141c..5413b7d 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -15,7 +15,7 @@ use crate::{
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, u32_entry},
     traits::{Rewind, UpdateWeights},
@@ -26,43 +26,58 @@ use crate::{
 pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
+    // whether the first character of the next event has been read already
+    in_event: bool,
     header: Vec<u8>,
 }
 
 impl FileReader {
     /// Construct a reader from the given (potentially compressed) HepMC2 event file
     pub fn try_new(source_path: PathBuf) -> Result<Self, CreateError> {
-        let (header, source) = init_source(&source_path)?;
+        let (header, source, in_event) = init_source(&source_path)?;
         Ok(Self {
             source_path,
             source,
+            in_event,
             header,
         })
     }
 
     fn read_raw(&mut self) -> Option<Result<String, ReadError>> {
+        if !self.in_event {
+            return None;
+        }
         let mut record = vec![b'E'];
         while !record.ends_with(b"\nE") {
             match self.source.read_until(b'E', &mut record) {
                 Ok(0) => {
-                    if record.len() > 1 {
-                        let record = String::from_utf8(record).unwrap();
-                        assert!(record.starts_with('E'));
-                        trace!("Read HepMC record:\n{record}");
-                        return Some(Ok(record));
-                    } else {
-                        return None;
-                    }
+                    self.in_event = false;
+                    return Some(into_last_record(record));
                 }
                 Ok(_) => {}
                 Err(err) => return Some(Err(err.into())),
             }
         }
         record.pop();
-        let record = String::from_utf8(record).unwrap();
-        assert!(record.starts_with('E'));
-        trace!("Read HepMC record:\n{record}");
-        Some(Ok(record))
+        Some(into_record(record))
+    }
+}
+
+fn into_record(record: Vec<u8>) -> Result<String, ReadError> {
+    let record = String::from_utf8(record).map_err(Utf8Error::from)?;
+    assert!(record.starts_with('E'));
+    trace!("Read HepMC record:\n{record}");
+    Ok(record)
+}
+
+fn into_last_record(record: Vec<u8>) -> Result<String, ReadError> {
+    let record = into_record(record)?;
+    // only the line marking the end of the event listing may be unfinished
+    match record.rsplit('\n').next() {
+        Some(last) if !last.is_empty() && !last.starts_with("HepMC::") => {
+            Err(ReadError::FindEntry("end of line", take_chars(last, 100)))
+        }
+        _ => Ok(record),
     }
 }
 
@@ -80,7 +95,7 @@ impl Rewind for FileReader {
     type Error = CreateError;
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
-        (_, self.source) = init_source(&self.source_path)?;
+        (_, self.source, self.in_event) = init_source(&self.source_path)?;
 
         Ok(())
     }
@@ -96,7 +111,7 @@ impl Iterator for FileReader {
 
 fn init_source(
     source: impl AsRef<Path>,
-) -> Result<(Vec<u8>, Box<dyn BufRead>), CreateError> {
+) -> Result<(Vec<u8>, Box<dyn BufRead>, bool), CreateError> {
     use CreateError::*;
 
     let source = File::open(source).map_err(OpenInput)?;
@@ -107,11 +122,11 @@ fn init_source(
     while !header.ends_with(b"\nE") {
         if buf.read_until(b'E', &mut header).map_err(Read)? == 0 {
             // no events
-            return Ok((header, buf));
+            return Ok((header, buf, false));
         }
     }
     header.pop();
-    Ok((header, buf))
+    Ok((header, buf, true))
 }
 
 /// I/O from and to (potentially compressed) HepMC2 event files
@@ -271,9 +286,16 @@ impl HepMCParser for Converter {
     fn parse_hepmc(&self, mut record: &str) -> Result<Event, Self::Error> {
         use ReadError::*;
 
+        let full_record = record;
         let mut event = EventBuilder::new();
         let (weight, _weights, rest) = extract_weights(record)?;
         event.add_weight(n64(weight));
+
+        let (_, mut missing_vertices) =
+            nvertices_entry(record).map_err(|_| {
+                ParseEntry("number of vertices entry", take_chars(record, 100))
+            })?;
+        let mut missing_particles = 0;
         record = rest;
 
         #[allow(non_snake_case)]
@@ -281,7 +303,11 @@ impl HepMCParser for Converter {
         while let Some(pos) = record.find('\n') {
             record = &record[(pos + 1)..];
             match record.as_bytes().first() {
-                Some(b'V') | Some(b'F') | Some(b'H') | Some(b'C') => {}
+                Some(b'F') | Some(b'H') | Some(b'C') => {}
+                Some(b'V') => {
+                    missing_vertices -= 1;
+                    missing_particles += nparticles(record)?;
+                }
                 #[cfg(not(feature = "multiweight"))]
                 Some(b'N') => {}
                 #[cfg(feature = "multiweight")]
@@ -290,7 +316,10 @@ impl HepMCParser for Converter {
                         self, record, &_weights, &mut event,
                     )?
                 }
-                Some(b'P') => record = parse_particle_line(record, &mut event)?,
+                Some(b'P') => {
+                    missing_particles -= 1;
+                    record = parse_particle_line(record, &mut event)?
+                }
                 Some(b'U') => (energy_unit, record) = parse_units_line(record)?,
                 _ => {
                     if !record.trim().is_empty() {
@@ -303,6 +332,13 @@ impl HepMCParser for Converter {
             }
         }
 
+        if missing_vertices != 0 || missing_particles != 0 {
+            return Err(FindEntry(
+                "number of vertices or particles announced",
+                take_chars(full_record, 100),
+            ));
+        }
+
         if energy_unit != EnergyUnit::GeV {
             assert_eq!(energy_unit, EnergyUnit::MeV);
             event.rescale_energies(n64(1e-3));
@@ -404,6 +440,22 @@ fn parse_units_line(record: &str) -> Result<(EnergyUnit, &str), ReadError> {
     Ok((energy, rest))
 }
 
+// number of particles belonging to a vertex
+fn nparticles(record: &str) -> Result<i64, ReadError> {
+    let parse_err =
+        |entry| ReadError::ParseEntry(entry, take_chars(record, 100));
+
+    debug_assert!(record.starts_with('V'));
+    let (rest, _) = count(any_entry, 6)
+        .parse(&record[1..])
+        .map_err(|_| parse_err("vertex entries"))?;
+    let (rest, norphans) = u32_entry(rest)
+        .map_err(|_| parse_err("number of orphan particles entry"))?;
+    let (_, nout) = u32_entry(rest)
+        .map_err(|_| parse_err("number of outgoing particles entry"))?;
+    Ok(i64::from(norphans) + i64::from(nout))
+}
+
 fn parse_particle_line<'a>(
     record: &'a str,
     event: &mut EventBuilder,
@@ -458,7 +510,10 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
         let (rest, weights) = count(double_entry, nweights as usize)
             .parse(rest)
             .map_err(|_| parse_err("event weight entries", rest))?;
-        (weights[0], weights, rest)
+        let Some(weight) = weights.first().copied() else {
+            return Err(FindEntry("event weight", take_chars(record, 100)));
+        };
+        (weight, weights, rest)
     } else {
         let (rest, weight) = double_entry(rest)
             .map_err(|_| parse_err("event weight entry", rest))?;
@@ -509,6 +564,13 @@ fn parse_weight_names_line<'a>(
     }
 }
 
+fn nvertices_entry(line: &str) -> IResult<&str, i64> {
+    debug_assert!(line.starts_with('E'));
+    let (rest, _) = count(any_entry, 7).parse(&line[1..])?;
+    let (rest, nvertices) = u32_entry(rest)?;
+    Ok((rest, i64::from(nvertices)))
+}
+
 fn non_weight_entries(line: &str) -> IResult<&str, &str> {
     debug_assert!(line.starts_with('E'));
     // ignore first 10 entries
-- 
2.43.0


From a04d963240e29bbb51062a1a7573d9d7cae48980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 09/34] fix: refuse weights and momenta that are not finite
 numbers

---
 src/parsing.rs      | 7 ++++++-
 src/stripper_xml.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parsing.rs b/src/parsing.rs
index 56b202d..5b6c195 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,13 +1,18 @@
 use nom::{
     bytes::complete::take_while1,
     character::complete::{i32, space1, u32},
+    combinator::verify,
     number::complete::double,
     sequence::preceded,
     IResult, Parser,
 };
 
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
-    preceded(space1, double).parse(line)
+    preceded(space1, finite_double).parse(line)
+}
+
+pub(crate) fn finite_double(line: &str) -> IResult<&str, f64> {
+    verify(double, |d: &f64| d.is_finite()).parse(line)
 }
 
 pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 29bf318..e661a77 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -677,5 +677,5 @@ impl UpdateWeights for FileIO {
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-    nom::number::complete::double(input)
+    crate::parsing::finite_double(input)
 }
-- 
2.43.0


From 79e6b371419bc043a5de459e5bde715a005d756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 10/34] fix: report incomplete and garbled LHEF records as
 errors

---
 src/lhef.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index e7da39a..80502b3 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -8,7 +8,8 @@ use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
-    character::complete::{i32, space0, u32},
+    bytes::complete::take_until,
+    character::complete::{char, i32, space0, u32},
     multi::count,
     sequence::preceded,
     IResult, Parser,
@@ -21,7 +22,7 @@ use crate::{
     hepmc2::update_central_weight,
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
@@ -50,17 +51,32 @@ impl FileReader {
         let mut record = Vec::new();
         while !record.ends_with(b"</event>") {
             match self.source.read_until(b'>', &mut record) {
-                Ok(0) => return None, // TODO: check incomplete record
+                Ok(0) => return check_end(&record).err().map(Err),
                 Ok(_) => {}
                 Err(err) => return Some(Err(err.into())),
             }
         }
-        let record = String::from_utf8(record).unwrap();
+        let record = match String::from_utf8(record) {
+            Ok(record) => record,
+            Err(err) => return Some(Err(Utf8Error::from(err).into())),
+        };
         trace!("Read Les Houches Event record:\n{record}");
         Some(Ok(record))
     }
 }
 
+// check that the end of the file is not inside an event record
+fn check_end(rest: &[u8]) -> Result<(), ReadError> {
+    let rest = String::from_utf8_lossy(rest);
+    let complete =
+        rest.contains("</LesHouchesEvents>") && !rest.contains("<event");
+    if complete || rest.trim().is_empty() {
+        Ok(())
+    } else {
+        Err(ReadError::FindEntry("</event>", take_chars(&rest, 100)))
+    }
+}
+
 impl EventFileReader for FileReader {
     fn path(&self) -> &Path {
         self.source_path.as_path()
@@ -231,6 +247,9 @@ impl LHEFParser for Converter {
 
         // TODO: multiple weights
         record = record.trim_start();
+        if record.match_indices("<event").nth(1).is_some() {
+            return Err(FindEntry("</event>", take_chars(record, 100)));
+        }
         let Some(line_end) = record.find('\n') else {
             return Err(FindEntry("line break", record.to_string()));
         };
@@ -238,7 +257,7 @@ impl LHEFParser for Converter {
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
         let nparticles = nparticles as usize;
-        let mut event = EventBuilder::with_capacity(nparticles - 2);
+        let mut event = EventBuilder::new();
         let (rest, _idrup) =
             any_entry(rest).map_err(|_| parse_err("IDRUP entry", rest))?;
         let (rest, wt) =
@@ -306,9 +325,8 @@ impl UpdateWeights for FileIO {
 
 fn non_weight_entries(record: &str) -> IResult<&str, &str> {
     let record = record.trim_start();
-    let line_end = record.find('\n').unwrap(); // TODO: error treatment
-    let rest = &record[(line_end + 1)..];
-    let (rest, _nup) = preceded(space0, non_space).parse(rest)?;
+    let (rest, _tag) = take_until("\n").parse(record)?;
+    let (rest, _nup) = preceded((char('\n'), space0), non_space).parse(rest)?;
     let (rest, _idrup) = any_entry(rest)?;
     let (parsed, rest) = record.split_at(record.len() - rest.len());
     Ok((rest, parsed))
-- 
2.43.0


From 7735590d9990faa5236b6871796e4fe1516fa674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 11/34] fix: report incomplete STRIPPER records as errors, do
 not skip first digit of momenta

---
 src/stripper_xml.rs | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index e661a77..7375833 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -38,6 +38,8 @@ use crate::{
 pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
+    // whether the start tag of the next event has been read already
+    in_event: bool,
     nsubevents: usize,
     rem_subevents: usize,
     header: Vec<u8>,
@@ -48,7 +50,7 @@ impl FileReader {
     pub fn try_new(source_path: PathBuf) -> Result<Self, CreateError> {
         use crate::stripper_xml::CreateError::XMLError;
 
-        let (header, source) = init_source(&source_path)?;
+        let (header, source, in_event) = init_source(&source_path)?;
         let header_info = extract_xml_info(header.as_slice())?;
         let XMLTag::Eventrecord { nsubevents, .. } = header_info else {
             return Err(XMLError(Error::BadTag(header_info.to_string())));
@@ -58,6 +60,7 @@ impl FileReader {
         Ok(Self {
             source_path,
             source,
+            in_event,
             nsubevents,
             rem_subevents: nsubevents,
             header,
@@ -65,15 +68,15 @@ impl FileReader {
     }
 
     fn read_raw(&mut self) -> Option<Result<String, ReadError>> {
+        if !self.in_event {
+            return None;
+        }
         let mut record = b"<se".to_vec();
         loop {
             match self.source.read_until(b'e', &mut record) {
                 Ok(0) => {
-                    if record.len() > 3 {
-                        break;
-                    } else {
-                        return None;
-                    }
+                    self.in_event = false;
+                    break;
                 }
                 Ok(_) => {
                     if record.ends_with(b"<se") {
@@ -91,6 +94,13 @@ impl FileReader {
         };
 
         assert!(record.starts_with("<se"));
+        if !self.in_event && !record.contains("</Eventrecord>") {
+            let err = Error::UnclosedTag(
+                "<Eventrecord>".to_string(),
+                take_chars(&record, 100),
+            );
+            return Some(Err(err.into()));
+        }
 
         trace!("Read STRIPPER XML record:\n{record}");
 
@@ -113,7 +123,7 @@ impl Rewind for FileReader {
     type Error = CreateError;
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
-        (_, self.source) = init_source(&self.source_path)?;
+        (_, self.source, self.in_event) = init_source(&self.source_path)?;
         self.rem_subevents = self.nsubevents;
 
         Ok(())
@@ -522,7 +532,7 @@ pub enum Error {
 
 fn init_source(
     source: impl AsRef<Path>,
-) -> Result<(Vec<u8>, Box<dyn BufRead>), CreateError> {
+) -> Result<(Vec<u8>, Box<dyn BufRead>, bool), CreateError> {
     use CreateError::*;
 
     let source = File::open(source).map_err(OpenInput)?;
@@ -533,11 +543,11 @@ fn init_source(
     while !header.ends_with(b"<se") {
         if buf.read_until(b'e', &mut header).map_err(Read)? == 0 {
             // no events
-            return Ok((header, buf));
+            return Ok((header, buf, false));
         }
     }
     header.truncate(header.len() - b"<se".len());
-    Ok((header, buf))
+    Ok((header, buf, true))
 }
 
 /// Parser for STRIPPER XML event records
@@ -601,7 +611,7 @@ impl StripperXmlParser for Converter {
             let (r, _) = tag("\">").parse(r).map_err(|_err: NomErr<'_>| {
                 Error::IncompleteTag("<p>", take_chars(r, 100))
             })?;
-            let (r, p) = particle_momentum(&r[1..])
+            let (r, p) = particle_momentum(r)
                 .map_err(|_| parse_err("particle momentum entry", r))?;
             event.add_outgoing(pid, p);
             (rest, _) = tag("</p>").parse(r).map_err(|_err: NomErr<'_>| {
@@ -609,6 +619,18 @@ impl StripperXmlParser for Converter {
             })?;
         }
 
+        // there can be other entries, but no further particles
+        match rest.find("</se>") {
+            Some(end) if !rest[..end].contains("<p") => {}
+            _ => {
+                return Err(Error::UnclosedTag(
+                    "<se".to_string(),
+                    take_chars(rest, 100),
+                )
+                .into())
+            }
+        }
+
         // TODO: multiple weights
 
         Ok(event.build())
-- 
2.43.0


From d357d54add0e448dc51156a9a1ff45f609da3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 12/34] fix: match named HepMC weights by name, independently
 of their order in the record

---
 src/hepmc2.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 5413b7d..6bdec05 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -352,10 +352,12 @@ fn update_named_weights(
     record: &mut String,
     weights_start: usize,
     nweights: usize,
-    weight_names: &[String], // TODO: maybe a set is better
+    weight_names: &[String],
     weights: &Weights,
 ) -> Result<(), ReadError> {
+    use std::collections::HashMap;
     use ReadError::*;
+
     assert_eq!(weights.len(), weight_names.len() + 1);
 
     if weight_names.is_empty() {
@@ -372,16 +374,14 @@ fn update_named_weights(
     let (names, nnames) = u32_entry(names).map_err(|_| {
         ParseEntry("number of weight names entry", take_chars(names, 100))
     })?;
-    let mut weight_pos = Vec::with_capacity(weight_names.len());
+    let mut weight_pos = HashMap::new();
     let mut rest = names;
-    for nentry in 0..(nnames as usize) {
+    for nentry in 0..(nnames as usize).min(nweights) {
         let name;
         (rest, name) = string_entry(rest).map_err(|_| {
             ParseEntry("weight name entry", take_chars(rest, 100))
         })?;
-        if weight_names.iter().any(|n| n == name) {
-            weight_pos.push(nentry);
-        }
+        weight_pos.insert(name, nentry);
     }
 
     let mut weight_entries = Vec::from_iter(
@@ -390,7 +390,10 @@ fn update_named_weights(
             .take(nweights)
             .map(|w| w.to_string()),
     );
-    for (idx, weight) in weight_pos.iter().zip(weights.iter().skip(1)) {
+    for (name, weight) in weight_names.iter().zip(weights.iter().skip(1)) {
+        let Some(idx) = weight_pos.get(name.as_str()) else {
+            return Err(FindWeight(name.to_owned(), names.to_owned()));
+        };
         weight_entries[*idx] = weight.to_string();
     }
 
@@ -539,8 +542,7 @@ fn parse_weight_names_line<'a>(
     if weight_names.is_empty() {
         return Ok(record);
     }
-    let mut weight_seen: HashMap<_, _> =
-        weight_names.iter().map(|n| (n.as_str(), false)).collect();
+    let mut found = HashMap::new();
     let (names, nnames) = u32_entry(&record[1..])
         .map_err(|_| parse_err("number of weight names entry", record))?;
     record = names;
@@ -548,20 +550,15 @@ fn parse_weight_names_line<'a>(
         let name;
         (record, name) = string_entry(record)
             .map_err(|_| parse_err("weight name entry", record))?;
-        if let Some(seen) = weight_seen.get_mut(name) {
-            *seen = true;
-            event.add_weight(n64(*weight));
-        }
+        found.insert(name, *weight);
     }
-    let missing =
-        weight_seen
-            .into_iter()
-            .find_map(|(name, seen)| if seen { None } else { Some(name) });
-    if let Some(missing) = missing {
-        Err(FindWeight(missing.to_owned(), names.to_owned()))
-    } else {
-        Ok(record)
+    for name in weight_names {
+        let Some(weight) = found.get(name.as_str()) else {
+            return Err(FindWeight(name.to_owned(), names.to_owned()));
+        };
+        event.add_weight(n64(*weight));
     }
+    Ok(record)
 }
 
 fn nvertices_entry(line: &str) -> IResult<&str, i64> {
-- 
2.43.0


From f7c2792f24822fa1cf719f173163fa45663d8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 13/34] fix: report an error if requested weights are missing
 in an event

---
 src/event.rs        | 5 +++++
 src/hepmc2.rs       | 8 ++++++++
 src/lhef.rs         | 4 ++++
 src/stripper_xml.rs | 4 ++++
 4 files changed, 21 insertions(+)

diff --git a/src/event.rs b/src/event.rs
index b4b31a9..195aadf 100644
--- a/src/event.rs
+++ b/src/event.rs
@@ -69,6 +69,11 @@ impl EventBuilder {
         self
     }
 
+    #[cfg(feature = "multiweight")]
+    pub(crate) fn n_weights(&self) -> usize {
+        self.weights.len()
+    }
+
     /// Rescale all energies and momenta
     pub fn rescale_energies(&mut self, scale: N64) {
         for (_, p) in &mut self.outgoing_by_pid {
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 6bdec05..313c9e4 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -332,6 +332,14 @@ impl HepMCParser for Converter {
             }
         }
 
+        #[cfg(feature = "multiweight")]
+        if event.n_weights() != 1 + self.weight_names().len() {
+            return Err(FindEntry(
+                "weight name entry (line starting with 'N')",
+                take_chars(full_record, 100),
+            ));
+        }
+
         if missing_vertices != 0 || missing_particles != 0 {
             return Err(FindEntry(
                 "number of vertices or particles announced",
diff --git a/src/lhef.rs b/src/lhef.rs
index 80502b3..2901489 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -246,6 +246,10 @@ impl LHEFParser for Converter {
             |entry, record: &str| ParseEntry(entry, take_chars(record, 100));
 
         // TODO: multiple weights
+        #[cfg(feature = "multiweight")]
+        if let Some(name) = self.weight_names().first() {
+            return Err(FindWeight(name.to_owned(), String::new()));
+        }
         record = record.trim_start();
         if record.match_indices("<event").nth(1).is_some() {
             return Err(FindEntry("</event>", take_chars(record, 100)));
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 7375833..9f41c8c 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -632,6 +632,10 @@ impl StripperXmlParser for Converter {
         }
 
         // TODO: multiple weights
+        #[cfg(feature = "multiweight")]
+        if let Some(name) = self.weight_names().first() {
+            return Err(FindWeight(name.to_owned(), String::new()));
+        }
 
         Ok(event.build())
     }
-- 
2.43.0


From 94c9dedb50070961e46d39819fed257a206d65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 14/34] fix: complete lz4 streams, allow finishing compressed
 output explicitly

---
 src/bin/classify-events.rs |   4 +-
 src/compression.rs         | 104 ++++++++++++++++++++++++++++++++++---
 src/hepmc2.rs              |   4 +-
 src/lhef.rs                |   4 +-
 src/stripper_xml.rs        |   4 +-
 5 files changed, 105 insertions(+), 15 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d41d176..ebd26a3 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -10,7 +10,7 @@ use std::{
 use anyhow::{anyhow, Context, Result};
 use clap::Parser;
 use cres::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
@@ -241,7 +241,7 @@ fn make_byte_writers(
     outdir: &Path,
     file: &Path,
     compression: Option<Compression>,
-) -> Result<Vec<Box<dyn Write>>> {
+) -> Result<Vec<Box<dyn FinishWrite>>> {
     let filename = file
         .file_name()
         .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
diff --git a/src/compression.rs b/src/compression.rs
index f99529b..547b7ac 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,4 +1,4 @@
-use std::io::Write;
+use std::io::{self, Write};
 
 use bzip2::write::BzEncoder;
 use flate2::write::GzEncoder;
@@ -16,32 +16,122 @@ pub enum Compression {
     Zstd(u8),
 }
 
+/// A potentially compressed output stream
+///
+/// The stream is completed when it is dropped. Call
+/// [finish](FinishWrite::finish) to find out whether this was successful.
+pub trait FinishWrite: Write {
+    /// Complete the stream, no more data can be written
+    fn finish(&mut self) -> io::Result<()>;
+}
+
+trait Encoder: Write {
+    fn end(self) -> io::Result<()>;
+}
+
+impl<W: Write> Encoder for BzEncoder<W> {
+    fn end(self) -> io::Result<()> {
+        self.finish()?.flush()
+    }
+}
+
+impl<W: Write> Encoder for GzEncoder<W> {
+    fn end(self) -> io::Result<()> {
+        self.finish()?.flush()
+    }
+}
+
+impl<W: Write> Encoder for lz4::Encoder<W> {
+    fn end(self) -> io::Result<()> {
+        let (mut writer, res) = self.finish();
+        res?;
+        writer.flush()
+    }
+}
+
+impl<W: Write> Encoder for zstd::Encoder<'_, W> {
+    fn end(self) -> io::Result<()> {
+        self.finish()?.flush()
+    }
+}
+
+struct Uncompressed<W>(W);
+
+impl<W: Write> Write for Uncompressed<W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.0.write(buf)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl<W: Write> Encoder for Uncompressed<W> {
+    fn end(mut self) -> io::Result<()> {
+        self.flush()
+    }
+}
+
+struct Stream<E: Encoder>(Option<E>);
+
+impl<E: Encoder> Write for Stream<E> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        match self.0.as_mut() {
+            Some(encoder) => encoder.write(buf),
+            None => Err(io::Error::other("output is already complete")),
+        }
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        match self.0.as_mut() {
+            Some(encoder) => encoder.flush(),
+            None => Ok(()),
+        }
+    }
+}
+
+impl<E: Encoder> FinishWrite for Stream<E> {
+    fn finish(&mut self) -> io::Result<()> {
+        match self.0.take() {
+            Some(encoder) => encoder.end(),
+            None => Ok(()),
+        }
+    }
+}
+
+impl<E: Encoder> Drop for Stream<E> {
+    fn drop(&mut self) {
+        let _ = self.finish();
+    }
+}
+
 /// Convert into a writer that compresses to the given format
 pub fn compress_writer<'a, W: 'a + Write>(
     writer: W,
     compression: Option<Compression>,
-) -> Result<Box<dyn Write + 'a>, std::io::Error> {
+) -> Result<Box<dyn FinishWrite + 'a>, io::Error> {
     match compression {
         Some(Compression::Bzip2) => {
             let encoder = BzEncoder::new(writer, bzip2::Compression::best());
-            Ok(Box::new(encoder))
+            Ok(Box::new(Stream(Some(encoder))))
         }
         Some(Compression::Gzip(lvl)) => {
             let encoder =
                 GzEncoder::new(writer, flate2::Compression::new(lvl.into()));
-            Ok(Box::new(encoder))
+            Ok(Box::new(Stream(Some(encoder))))
         }
         Some(Compression::Lz4(lvl)) => {
             let encoder = lz4::EncoderBuilder::new()
                 .auto_flush(true)
                 .level(lvl.into())
                 .build(writer)?;
-            Ok(Box::new(encoder))
+            Ok(Box::new(Stream(Some(encoder))))
         }
         Some(Compression::Zstd(lvl)) => {
             let encoder = zstd::Encoder::new(writer, lvl.into())?;
-            Ok(Box::new(encoder.auto_finish()))
+            Ok(Box::new(Stream(Some(encoder))))
         }
-        None => Ok(Box::new(writer)),
+        None => Ok(Box::new(Stream(Some(Uncompressed(writer))))),
     }
 }
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 313c9e4..a47df56 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -11,7 +11,7 @@ use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
@@ -133,7 +133,7 @@ fn init_source(
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: Box<dyn FinishWrite>,
     _weight_names: Vec<String>,
 }
 
diff --git a/src/lhef.rs b/src/lhef.rs
index 2901489..87937d5 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -17,7 +17,7 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
@@ -109,7 +109,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: Box<dyn FinishWrite>,
     _weight_names: Vec<String>,
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 9f41c8c..f8a534d 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -23,7 +23,7 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
@@ -146,7 +146,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: Box<dyn FinishWrite>,
     _weight_names: Vec<String>,
     weight_scale: f64,
 }
-- 
2.43.0


From 2c8fe702dc67531f4e5da7a7d27e58194224d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 15/34] fix: report failures to write the end of output files

---
 src/bin/classify-events.rs | 12 +++++++-----
 src/bin/partition.rs       |  6 ++++--
 src/hepmc2.rs              |  7 +++++++
 src/lhef.rs                |  5 +++--
 src/stripper_xml.rs        |  7 +++++++
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index ebd26a3..17e545c 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -22,7 +22,7 @@ use cres::{
     GIT_BRANCH, GIT_REV, VERSION,
 };
 use env_logger::Env;
-use log::{debug, error, info, trace};
+use log::{debug, info, trace};
 
 use crate::opt_classify::Opt;
 
@@ -144,10 +144,12 @@ impl Classifier {
             writers[region].write_all(event.as_bytes())?;
             event_progress.inc(1);
         }
-        for writer in writers {
-            if let Err(err) = write_footer(writer, format) {
-                error!("Failed to write event file footer: {err}");
-            }
+        for writer in &mut writers {
+            write_footer(&mut *writer, format)
+                .and_then(|_| writer.finish())
+                .with_context(|| {
+                    format!("Failed to write event file footer for {file:?}")
+                })?;
         }
         Ok(())
     }
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 6e48c04..044c245 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -117,9 +117,11 @@ fn main() -> Result<()> {
     info!("Writing to {outfile:?}");
     let out = File::create(&outfile)
         .with_context(|| format!("Failed to open {outfile:?}"))?;
-    let out = compress_writer(out, opt.compression)
+    let mut out = compress_writer(out, opt.compression)
         .with_context(|| format!("Failed to compress output to {outfile:?}"))?;
-    serde_yaml::to_writer(out, &(clustering, partition))?;
+    serde_yaml::to_writer(&mut out, &(clustering, partition))?;
+    out.finish()
+        .with_context(|| format!("Failed to write {outfile:?}"))?;
     info!("Done");
     Ok(())
 }
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index a47df56..628ab77 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -249,9 +249,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -262,6 +264,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 /// Parser for HepMC event records
diff --git a/src/lhef.rs b/src/lhef.rs
index 87937d5..344ee35 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -305,6 +305,7 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
@@ -322,8 +323,8 @@ impl UpdateWeights for FileIO {
 
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
         let res = self.sink.write_all(b"\n</LesHouchesEvents>\n");
-        self.into_io_error(res.map_err(WriteError::IO))?;
-        Ok(())
+        let res = res.and_then(|_| self.sink.finish());
+        self.into_io_error(res.map_err(WriteError::IO))
     }
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index f8a534d..e2a63bd 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -687,9 +687,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -700,6 +702,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-- 
2.43.0


From edc8b000d7f2f174b7b53d8601bb89a8eec02f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 16/34] fix: keep records of events without identified
 particles without multiweight feature

---
 src/event.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/event.rs b/src/event.rs
index 195aadf..5510d83 100644
--- a/src/event.rs
+++ b/src/event.rs
@@ -90,7 +90,7 @@ impl EventBuilder {
             #[cfg(feature = "multiweight")]
             weights: RwLock::new(Weights(self.weights.into_boxed_slice())),
             #[cfg(not(feature = "multiweight"))]
-            weights: RwLock::new(Weights(self.weights)),
+            weights: RwLock::new(Weights(Some(self.weights))),
             outgoing_by_pid,
         }
     }
@@ -223,7 +223,7 @@ pub struct Weights(Box<[N64]>);
     PartialOrd,
     Hash,
 )]
-pub struct Weights(N64);
+pub struct Weights(Option<N64>);
 
 impl Weights {
     /// Create central weight
@@ -232,7 +232,7 @@ impl Weights {
         return Self(vec![w].into_boxed_slice());
 
         #[cfg(not(feature = "multiweight"))]
-        Self(w)
+        Self(Some(w))
     }
 
     /// Get central weight
@@ -241,7 +241,7 @@ impl Weights {
         return self.0[0];
 
         #[cfg(not(feature = "multiweight"))]
-        self.0
+        self.0.unwrap_or_default()
     }
 
     /// Get number of weights
@@ -250,7 +250,7 @@ impl Weights {
         return self.0.len();
 
         #[cfg(not(feature = "multiweight"))]
-        1
+        self.iter().count()
     }
 
     /// Check if there are any weights
@@ -260,20 +260,12 @@ impl Weights {
 
     /// Iterator over weights
     pub fn iter(&self) -> impl Iterator<Item = &N64> {
-        #[cfg(feature = "multiweight")]
-        return self.0.iter();
-
-        #[cfg(not(feature = "multiweight"))]
-        std::iter::once(&self.0)
+        self.0.iter()
     }
 
     /// Mutating iterator over weights
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut N64> {
-        #[cfg(feature = "multiweight")]
-        return self.0.iter_mut();
-
-        #[cfg(not(feature = "multiweight"))]
-        std::iter::once(&mut self.0)
+        self.0.iter_mut()
     }
 
     /// Copy weight entries
-- 
2.43.0


From d8f93ccdb860a7eea6cdb18aaf1b0c500bf039bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 17/34] fix: write vanishing weights for events discarded by
 unweighting

---
 src/cres.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cres.rs b/src/cres.rs
index 16838ed..7086fa2 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -196,6 +196,15 @@ where
 
         let events = self.resampler.resample(events).map_err(ResamplingErr)?;
 
+        // records keep their original weights by default, but events
+        // discarded during unweighting must no longer contribute
+        let mut weights = vec![crate::event::Weights::default(); nevents];
+        for event in &events {
+            let mut zero = event.weights.read().clone();
+            zero.iter_mut().for_each(|w| *w = n64(0.));
+            weights[event.id] = zero;
+        }
+
         let mut events =
             self.unweighter.unweight(events).map_err(UnweightErr)?;
         events.par_sort_unstable();
@@ -217,7 +226,6 @@ where
             -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
         );
 
-        let mut weights = vec![crate::event::Weights::default(); nevents];
         for event in events {
             weights[event.id] = event.weights.into_inner();
         }
-- 
2.43.0


From aca3819002b47292551daf36353b4da84f47fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 18/34] fix: pass actual event weights to user-defined distance
 functions

---
 src/c_api/distance.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5f24104..3fec8bb 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -42,20 +42,22 @@ impl Distance for DistanceFn {
         let type_sets1 = extract_typesets(ev1);
         let type_set_views1: Vec<_> =
             type_sets1.iter().map(TypeSet::view).collect();
+        let weights1 = extract_weights(ev1);
         let event_view1 = EventView {
             id: ev1.id(),
-            weights: ev1.weights.data_ptr() as *const f64,
-            n_weights: ev1.n_weights(),
+            weights: weights1.as_ptr(),
+            n_weights: weights1.len(),
             type_sets: type_set_views1.as_ptr(),
             n_type_sets: type_set_views1.len(),
         };
         let type_sets2 = extract_typesets(ev2);
         let type_set_views2: Vec<_> =
             type_sets2.iter().map(TypeSet::view).collect();
+        let weights2 = extract_weights(ev2);
         let event_view2 = EventView {
             id: ev2.id(),
-            weights: ev2.weights.data_ptr() as *const f64,
-            n_weights: ev2.n_weights(),
+            weights: weights2.as_ptr(),
+            n_weights: weights2.len(),
             type_sets: type_set_views2.as_ptr(),
             n_type_sets: type_set_views2.len(),
         };
@@ -64,6 +66,10 @@ impl Distance for DistanceFn {
     }
 }
 
+fn extract_weights(ev: &Event) -> Vec<c_double> {
+    ev.weights.read().iter().map(|&w| w.into()).collect()
+}
+
 fn extract_typesets(ev: &Event) -> Vec<TypeSet> {
     ev.outgoing()
         .iter()
-- 
2.43.0


From 9e07684ea549b1fdf47404f933767d32648d7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 19/34] fix: keep the largest cells when combining cell
 collections

---
 src/cell_collector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 66292d8..de5a662 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -206,10 +206,9 @@ impl CellCollector {
     }
 }
 
+// keep only the `n` largest entries
 fn truncate<K: Ord, V>(map: &mut BTreeMap<K, V>, n: usize) {
-    let mut count = 0;
-    map.retain(|_, _| {
-        count += 1;
-        count <= n
-    });
+    while map.len() > n {
+        map.pop_first();
+    }
 }
-- 
2.43.0


From e774035994b969d4f02f51980ac8ddca374e6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 20/34] fix: do not copy previously observed cells to each
 thread

---
 src/cell_collector.rs |  7 +++++++
 src/resampler.rs      | 22 +++++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index de5a662..7da543b 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -169,6 +169,13 @@ impl CellCollector {
             "combining {} + {} cell observations",
             self.count, other.count
         );
+        self.first.extend(
+            other
+                .first
+                .into_iter()
+                .map(|(id, ev)| (id + self.count, ev)),
+        );
+        self.first.truncate(NCELLS);
         self.largest_by_members.extend(
             other
                 .largest_by_members
diff --git a/src/resampler.rs b/src/resampler.rs
index a4304aa..64c5079 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -394,7 +394,7 @@ impl ObserveCell for Observer {
         );
         let mut data = self
             .threaded
-            .get_or(|| RefCell::new(self.central.clone()))
+            .get_or(|| RefCell::new(self.central.cleared()))
             .borrow_mut();
         data.cell_radii.push(cell.radius());
         if cell.weight_sum() < 0. {
@@ -409,11 +409,12 @@ impl ObserveCell for Observer {
 
     fn finish(&mut self) {
         let data = std::mem::take(&mut self.threaded);
-        let res = data
+        let central = std::mem::take(&mut self.central);
+        let mut res = data
             .into_iter()
             .map(|c| c.into_inner())
-            .reduce(|acc, c| acc.combine(c));
-        if let Some(mut res) = res {
+            .fold(central, |acc, c| acc.combine(c));
+        if !res.cell_radii.is_empty() {
             info!("Created {} cells", res.cell_radii.len());
             if res.nneg > 0 {
                 info!("{} cells had negative weight!", res.nneg);
@@ -425,12 +426,23 @@ impl ObserveCell for Observer {
             if let Some(c) = res.cell_collector.as_ref() {
                 c.dump_info();
             }
-            self.central = res;
         }
+        self.central = res;
     }
 }
 
 impl ObserverData {
+    // same as `self`, but without any observed cells
+    fn cleared(&self) -> Self {
+        Self {
+            cell_collector: self
+                .cell_collector
+                .as_ref()
+                .map(|_| CellCollector::new()),
+            ..Default::default()
+        }
+    }
+
     pub fn combine(mut self, mut other: Self) -> Self {
         self.cell_radii.append(&mut other.cell_radii);
         self.nneg += other.nneg;
-- 
2.43.0


From 7271ca448f9e9c7f1fd47001600ba859e657e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 21/34] fix: refuse to overwrite input files or to write two
 outputs to the same file

---
 src/bin/classify-events.rs | 73 ++++++++++++++++++--------------------
 src/bin/main.rs            | 16 ++++-----
 src/bin/partition.rs       |  5 +--
 src/c_api/cres.rs          | 14 ++++----
 src/io.rs                  | 60 +++++++++++++++++++++++++++++--
 src/util.rs                | 37 +++++++++++++++++++
 6 files changed, 148 insertions(+), 57 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 17e545c..a29e824 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -14,7 +14,9 @@ use cres::{
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
-    io::{detect_event_file_format, EventFileReader, FileReader},
+    io::{
+        check_targets, detect_event_file_format, EventFileReader, FileReader,
+    },
     partition::VPTreePartition,
     prelude::{Converter, DefaultClustering},
     progress_bar::ProgressBar,
@@ -68,6 +70,12 @@ fn main() -> Result<()> {
         clustering,
     };
 
+    let mut outfiles = Vec::new();
+    for file in &opt.infiles {
+        outfiles.extend(classifier.outfiles(file)?);
+    }
+    check_targets(opt.infiles.iter().chain([&part_file]), outfiles)?;
+
     //TODO: code duplication with Cres
     for file in opt.infiles {
         info!("Reading {file:?}");
@@ -105,6 +113,22 @@ struct Classifier {
 }
 
 impl Classifier {
+    /// Output files for all regions
+    fn outfiles(&self, file: &Path) -> Result<Vec<PathBuf>> {
+        let filename = file.file_name().ok_or_else(|| {
+            anyhow!("Failed to extract filename from {file:?}")
+        })?;
+        let file = filename.to_str().ok_or_else(|| {
+            anyhow!("Failed to convert {filename:?} to a string")
+        })?;
+        let (prefix, suffix) = file.split_once('.').unwrap_or((file, ""));
+
+        let outfiles = (0..self.partitions.len())
+            .map(|i| self.outdir.join(format!("{prefix}.{i}.{suffix}")))
+            .collect();
+        Ok(outfiles)
+    }
+
     fn classify_byte_records(
         &self,
         file: PathBuf,
@@ -112,15 +136,15 @@ impl Classifier {
     ) -> Result<()> {
         let Classifier {
             partitions,
-            outdir,
             compression,
             converter,
             clustering,
+            ..
         } = self;
         let reader = FileReader::try_new(file.clone())
             .with_context(|| "Failed to read from {file:?}")?;
         let mut writers =
-            make_byte_writers(partitions.len(), outdir, &file, *compression)
+            make_byte_writers(self.outfiles(&file)?, *compression)
                 .with_context(|| {
                     format!("Failed to create writers for {file:?}")
                 })?;
@@ -162,10 +186,10 @@ impl Classifier {
 
         let Classifier {
             partitions,
-            outdir,
             compression,
             converter,
             clustering,
+            ..
         } = self;
         if let Some(compression) = compression {
             warn!("Ignoring {compression:?} compression")
@@ -173,19 +197,10 @@ impl Classifier {
         let reader = FileReader::try_new(file.clone())
             .with_context(|| "Failed to read from {file:?}")?;
 
-        // TODO: code duplication with `make_byte_writers`
-        let file = file.to_str().unwrap();
-        let (prefix, suffix) = file.split_once('.').unwrap_or((file, ""));
-
-        let make_outname = |i| {
-            PathBuf::from_iter([
-                outdir,
-                PathBuf::from(format!("{prefix}.{i}.{suffix}")).as_path(),
-            ])
-        };
-
-        let writers: Option<Vec<_>> = (0..partitions.len())
-            .map(|i| Writer::new(make_outname(i), ""))
+        let writers: Option<Vec<_>> = self
+            .outfiles(&file)?
+            .into_iter()
+            .map(|outfile| Writer::new(outfile, ""))
             .collect();
         let mut writers = writers
             .ok_or_else(|| anyhow!("Failed to create ntuple writers"))?;
@@ -239,29 +254,11 @@ fn get_footer(format: FileFormat) -> &'static str {
 }
 
 fn make_byte_writers(
-    n: usize,
-    outdir: &Path,
-    file: &Path,
+    outfiles: Vec<PathBuf>,
     compression: Option<Compression>,
 ) -> Result<Vec<Box<dyn FinishWrite>>> {
-    let filename = file
-        .file_name()
-        .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
-    let file = filename
-        .to_str()
-        .ok_or_else(|| anyhow!("Failed to convert {filename:?} to a string"))?;
-    let (prefix, suffix) = file.split_once('.').unwrap_or((file, ""));
-
-    let make_outname = |i| {
-        PathBuf::from_iter([
-            outdir,
-            PathBuf::from(format!("{prefix}.{i}.{suffix}")).as_path(),
-        ])
-    };
-
-    let mut res = Vec::with_capacity(n);
-    for i in 0..n {
-        let outname = make_outname(i);
+    let mut res = Vec::with_capacity(outfiles.len());
+    for (i, outname) in outfiles.into_iter().enumerate() {
         debug!("Events in region {i} will be written to {outname:?}");
         let outfile = File::create(&outname)
             .with_context(|| format!("Failed to create {outname:?}"))?;
diff --git a/src/bin/main.rs b/src/bin/main.rs
index 0c7f46a..393d952 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -4,7 +4,6 @@ mod opt_cres_validate;
 
 use std::error::Error;
 use std::fs::create_dir_all;
-use std::path::PathBuf;
 
 use crate::opt_cres::{Opt, Search};
 use crate::opt_cres_validate::validate;
@@ -72,13 +71,14 @@ where
     event_io.compression(opt.compression);
 
     create_dir_all(&opt.outdir)?;
-    let files = opt.infiles.into_iter().map(|f| {
-        let out = PathBuf::from_iter([
-            opt.outdir.as_os_str(),
-            f.file_name().unwrap(),
-        ]);
-        (f, out)
-    });
+    let mut files = Vec::with_capacity(opt.infiles.len());
+    for file in opt.infiles {
+        let filename = file.file_name().with_context(|| {
+            format!("Failed to extract filename from {file:?}")
+        })?;
+        let out = opt.outdir.join(filename);
+        files.push((file, out));
+    }
     let event_io = event_io.build_from_files_iter(files)?;
 
     let cell_collector = None;
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 044c245..c734619 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -11,8 +11,7 @@ use cres::{
     compression::compress_writer,
     distance::{DistWrapper, EuclWithScaledPt},
     event::Event,
-    io::Converter,
-    io::FileReader,
+    io::{check_targets, Converter, FileReader},
     partition::{VPBisection, VPTreePartition},
     prelude::DefaultClustering,
     traits::{Clustering, TryConvert},
@@ -62,6 +61,8 @@ fn main() -> Result<()> {
         clustering = clustering.with_photon_def(opt.photon_def.into())
     }
 
+    check_targets(&opt.infiles, [&opt.outfile])?;
+
     // TODO: in principle we only need the kinematic part
     let mut events = Vec::new();
     for file in opt.infiles {
diff --git a/src/c_api/cres.rs b/src/c_api/cres.rs
index 353f85e..dfbe59d 100644
--- a/src/c_api/cres.rs
+++ b/src/c_api/cres.rs
@@ -17,7 +17,7 @@ use std::ffi::{CStr, OsStr};
 use std::fs::create_dir_all;
 use std::os::raw::{c_char, c_double};
 use std::os::unix::ffi::OsStrExt;
-use std::path::PathBuf;
+use std::path::Path;
 
 use anyhow::{anyhow, Error};
 use log::debug;
@@ -180,11 +180,13 @@ where
     debug!("Will write output to {:?}", outdir);
     create_dir_all(outdir)?;
 
-    let files = infiles.into_iter().map(|f| {
-        let out =
-            PathBuf::from_iter([outdir, PathBuf::from(f).file_name().unwrap()]);
-        (f, out)
-    });
+    let mut files = Vec::with_capacity(infiles.len());
+    for file in infiles {
+        let filename = Path::new(file).file_name().ok_or_else(|| {
+            anyhow!("Failed to extract filename from {file:?}")
+        })?;
+        files.push((file, Path::new(outdir).join(filename)));
+    }
 
     // TODO: multiple weights, output compression
     let event_io = IOBuilder::default().build_from_files_iter(files)?;
diff --git a/src/io.rs b/src/io.rs
index 89cd698..f48b09c 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::File,
     io::{BufRead, BufReader},
     path::{Path, PathBuf},
@@ -18,7 +18,7 @@ use crate::{
     hepmc2::HepMCParser,
     progress_bar::{Progress, ProgressBar},
     traits::{Rewind, TryConvert, UpdateWeights},
-    util::trim_ascii_start,
+    util::{trim_ascii_start, FileId},
 };
 
 #[cfg(feature = "lhef")]
@@ -161,6 +161,7 @@ impl IOBuilder {
         } = self;
         let _scaling = scaling;
 
+        check_targets([&infile], [&outfile])?;
         let format = detect_event_file_format(&infile)?;
         debug!("Read {infile:?} as {format:?} file");
 
@@ -216,9 +217,15 @@ impl IOBuilder {
         P: AsRef<Path>,
         Q: AsRef<Path>,
     {
+        let files = Vec::from_iter(files);
+        let sources =
+            Vec::from_iter(files.iter().map(|f| f.0.as_ref().to_owned()));
+
         #[cfg(feature = "stripper-xml")]
         {
             let (files, scaling) = crate::stripper_xml::extract_scaling(files)?;
+            check_targets(sources, files.iter().map(|f| &f.1))
+                .map_err(CombinedBuildError::Target)?;
 
             let mut builder = self;
             builder.scaling = scaling;
@@ -226,7 +233,11 @@ impl IOBuilder {
         }
 
         #[cfg(not(feature = "stripper-xml"))]
-        Ok(self.build_from_files_iter_known_scaling(files)?)
+        {
+            check_targets(sources, files.iter().map(|f| &f.1))
+                .map_err(CombinedBuildError::Target)?;
+            Ok(self.build_from_files_iter_known_scaling(files)?)
+        }
     }
 
     fn build_from_files_iter_known_scaling<I, P, Q>(
@@ -247,6 +258,39 @@ impl IOBuilder {
     }
 }
 
+/// Check that files can be written without destroying other data
+///
+/// Returns an error if any of the target files is also one of the
+/// source files or appears more than once.
+pub fn check_targets<I, J, P, Q>(
+    sources: I,
+    targets: J,
+) -> Result<(), CreateError>
+where
+    I: IntoIterator<Item = P>,
+    J: IntoIterator<Item = Q>,
+    P: AsRef<Path>,
+    Q: AsRef<Path>,
+{
+    let sources: HashSet<_> = sources
+        .into_iter()
+        .filter_map(|path| FileId::new(path.as_ref()))
+        .collect();
+    let mut seen = HashSet::new();
+    for path in targets {
+        let path = path.as_ref();
+        if let Some(id) = FileId::new(path) {
+            if sources.contains(&id) {
+                return Err(CreateError::TargetIsInput(path.to_owned()));
+            }
+            if !seen.insert(id) {
+                return Err(CreateError::DuplicateTarget(path.to_owned()));
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Detect format of an event file
 ///
 /// Defaults to [HepMC2](FileFormat::HepMC2) if not other format can
@@ -310,6 +354,10 @@ pub enum CombinedBuildError {
     #[error("Failed to build file-based event I/O object")]
     FileIO(#[from] FileIOError),
 
+    /// Bad target file
+    #[error("Cannot write to target file")]
+    Target(#[source] CreateError),
+
     #[cfg(feature = "stripper-xml")]
     /// Error extracting weight scaling
     #[error("Failed to extract weight scaling")]
@@ -372,6 +420,12 @@ pub enum CreateError {
     /// Failed to create target file
     #[error("Failed to create target file")]
     CreateTarget(#[source] std::io::Error),
+    /// Target file is also an input file
+    #[error("Target file {0:?} is also an input file")]
+    TargetIsInput(PathBuf),
+    /// Target file is used more than once
+    #[error("More than one output would be written to target file {0:?}")]
+    DuplicateTarget(PathBuf),
     /// Failed to compress target file
     #[error("Failed to compress target file")]
     CompressTarget(#[source] std::io::Error),
diff --git a/src/util.rs b/src/util.rs
index f545c49..fbaedc8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,3 +1,5 @@
+use std::path::{Path, PathBuf};
+
 // the corresponding built-in method is currently (rust 1.70.0) only
 // available in unstable, so we have to implement it ourselves
 pub(crate) fn trim_ascii_start(buf: &[u8]) -> &[u8] {
@@ -11,3 +13,38 @@ pub(crate) fn trim_ascii_start(buf: &[u8]) -> &[u8] {
 pub(crate) fn take_chars(s: &str, n: usize) -> String {
     s.chars().take(n).collect()
 }
+
+/// Identifies a file independently of the path that leads to it
+#[derive(Clone, Debug, Eq, PartialEq, Hash)]
+pub(crate) enum FileId {
+    #[cfg(unix)]
+    Inode(u64, u64),
+    Path(PathBuf),
+}
+
+impl FileId {
+    /// Get file id for a path
+    ///
+    /// Returns `None` for anything that can be neither an existing nor
+    /// a new regular file
+    pub(crate) fn new(path: &Path) -> Option<Self> {
+        match path.metadata() {
+            Ok(meta) if !meta.is_file() => None,
+            #[cfg(unix)]
+            Ok(meta) => {
+                use std::os::unix::fs::MetadataExt;
+                Some(Self::Inode(meta.dev(), meta.ino()))
+            }
+            #[cfg(not(unix))]
+            Ok(_) => path.canonicalize().ok().map(Self::Path),
+            Err(_) => {
+                let name = path.file_name()?;
+                let dir = match path.parent() {
+                    Some(dir) if dir != Path::new("") => dir,
+                    _ => Path::new("."),
+                };
+                dir.canonicalize().ok().map(|d| Self::Path(d.join(name)))
+            }
+        }
+    }
+}
-- 
2.43.0


From 0857cf6cfd6fb720db631f92493001b78675f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 22/34] fix: report an error if there are too few events for a
 partition

---
 src/bin/partition.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index c734619..0b3763b 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -79,11 +79,12 @@ fn main() -> Result<()> {
         }
     }
 
-    if (opt.regions as usize) > events.len() {
+    let nregions = opt.regions as usize;
+    let min_events = min_events(nregions);
+    if events.len() < min_events {
         bail!(
-            "Number of negative-weight events ({}) must be at least as large as number of regions ({})",
+            "Number of negative-weight events ({}) must be at least {min_events} for {nregions} regions",
             events.len(),
-            opt.regions,
         )
     }
     let nevents = events.len();
@@ -127,6 +128,18 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Minimum number of events required for partitioning
+///
+/// Each bisection uses up one event as vantage point and requires
+/// another event to fix the radius.
+const fn min_events(nregions: usize) -> usize {
+    if nregions < 2 {
+        nregions
+    } else {
+        nregions + nregions / 2 - 1
+    }
+}
+
 /// Logarithm in base 2, rounded down
 pub const fn log2(n: u32) -> u32 {
     u32::BITS - n.leading_zeros() - 1
-- 
2.43.0


From 81eb8fd0a226c25529f0bbf76ba2f69edc0c96e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 23/34] fix: write a single footer when classifying empty
 files, accept compressed partitions

---
 src/bin/classify-events.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index a29e824..32f60bc 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -3,11 +3,12 @@ mod opt_common;
 
 use std::{
     fs::{create_dir_all, File},
-    io::{BufWriter, Write},
+    io::{BufReader, BufWriter, Write},
     path::{Path, PathBuf},
 };
 
 use anyhow::{anyhow, Context, Result};
+use audec::auto_decompress;
 use clap::Parser;
 use cres::{
     compression::{compress_writer, Compression, FinishWrite},
@@ -51,6 +52,7 @@ fn main() -> Result<()> {
     let part_file = opt.partition;
     let part_info = File::open(&part_file)
         .with_context(|| format!("Failed to open {part_file:?}"))?;
+    let part_info = auto_decompress(BufReader::new(part_info));
     type PartInfo =
         (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
     let (clustering, partitions): PartInfo = serde_yaml::from_reader(part_info)
@@ -149,7 +151,7 @@ impl Classifier {
                     format!("Failed to create writers for {file:?}")
                 })?;
         for writer in &mut writers {
-            writer.write_all(reader.header())?;
+            writer.write_all(trim_header(reader.header(), format))?;
         }
         let expected_nevents = reader.size_hint().0;
         let event_progress = if expected_nevents > 0 {
@@ -232,6 +234,15 @@ fn write_footer(
     writer.write_all(b"\n")
 }
 
+// the header of a file without events includes the footer
+fn trim_header(header: &[u8], format: FileFormat) -> &[u8] {
+    let footer = get_footer(format).as_bytes();
+    header
+        .trim_ascii_end()
+        .strip_suffix(footer)
+        .unwrap_or(header)
+}
+
 fn trim_footer(event: &str, format: FileFormat) -> &str {
     let footer = get_footer(format);
     if let Some(event) = event.trim_end().strip_suffix(footer) {
-- 
2.43.0


From deb6150066aa440723adf8efb65de1ba7bdf1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 24/34] fix: refuse incomplete object definitions in
 cres-partition and negative minimum weights

---
 src/bin/main.rs              |  1 +
 src/bin/opt_cres_validate.rs | 36 +++++--------------------------
 src/bin/opt_validate.rs      | 41 ++++++++++++++++++++++++++++++++++++
 src/bin/partition.rs         |  4 +++-
 4 files changed, 50 insertions(+), 32 deletions(-)
 create mode 100644 src/bin/opt_validate.rs

diff --git a/src/bin/main.rs b/src/bin/main.rs
index 393d952..3ca6390 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -1,6 +1,7 @@
 mod opt_common;
 mod opt_cres;
 mod opt_cres_validate;
+mod opt_validate;
 
 use std::error::Error;
 use std::fs::create_dir_all;
diff --git a/src/bin/opt_cres_validate.rs b/src/bin/opt_cres_validate.rs
index 58437c5..601dc8c 100644
--- a/src/bin/opt_cres_validate.rs
+++ b/src/bin/opt_cres_validate.rs
@@ -1,38 +1,12 @@
-use thiserror::Error;
-
 use crate::{
-    opt_common::{LeptonDefinition, PhotonDefinition},
     opt_cres::Opt,
+    opt_validate::{validate_objects, ValidationError},
 };
 
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Error)]
-pub(crate) enum ValidationError {
-    #[error("Either all or none of --leptonalgorithm, --leptonradius, --leptonpt have to be set")]
-    BadLeptonOpt,
-    #[error("Either all or none of --photonefrac, --photonradius, --photonpt have to be set")]
-    BadPhotonOpt,
-}
-
 pub(crate) fn validate(opt: Opt) -> Result<Opt, ValidationError> {
-    let &LeptonDefinition {
-        leptonalgorithm,
-        leptonpt,
-        leptonradius,
-    } = &opt.lepton_def;
-    let &PhotonDefinition {
-        photonefrac,
-        photonradius,
-        photonpt,
-    } = &opt.photon_def;
-    match (leptonalgorithm, leptonpt, leptonradius) {
-        (Some(_), Some(_), Some(_)) => Ok(()),
-        (None, None, None) => Ok(()),
-        _ => Err(ValidationError::BadLeptonOpt),
-    }?;
-    match (photonefrac, photonradius, photonpt) {
-        (Some(_), Some(_), Some(_)) => Ok(()),
-        (None, None, None) => Ok(()),
-        _ => Err(ValidationError::BadPhotonOpt),
-    }?;
+    validate_objects(&opt.lepton_def, &opt.photon_def)?;
+    if opt.unweight.minweight.is_nan() || opt.unweight.minweight < 0. {
+        return Err(ValidationError::BadMinWeight);
+    }
     Ok(opt)
 }
diff --git a/src/bin/opt_validate.rs b/src/bin/opt_validate.rs
new file mode 100644
index 0000000..4a15b01
--- /dev/null
+++ b/src/bin/opt_validate.rs
@@ -0,0 +1,41 @@
+use thiserror::Error;
+
+use crate::opt_common::{LeptonDefinition, PhotonDefinition};
+
+#[derive(Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Error)]
+pub(crate) enum ValidationError {
+    #[error("Either all or none of --leptonalgorithm, --leptonradius, --leptonpt have to be set")]
+    BadLeptonOpt,
+    #[error("Either all or none of --photonefrac, --photonradius, --photonpt have to be set")]
+    BadPhotonOpt,
+    #[allow(dead_code)] // not all programs support unweighting
+    #[error("--minweight must not be negative")]
+    BadMinWeight,
+}
+
+/// Check that definitions of clustered objects are complete
+pub(crate) fn validate_objects(
+    lepton_def: &LeptonDefinition,
+    photon_def: &PhotonDefinition,
+) -> Result<(), ValidationError> {
+    let &LeptonDefinition {
+        leptonalgorithm,
+        leptonpt,
+        leptonradius,
+    } = lepton_def;
+    let &PhotonDefinition {
+        photonefrac,
+        photonradius,
+        photonpt,
+    } = photon_def;
+    match (leptonalgorithm, leptonpt, leptonradius) {
+        (Some(_), Some(_), Some(_)) => Ok(()),
+        (None, None, None) => Ok(()),
+        _ => Err(ValidationError::BadLeptonOpt),
+    }?;
+    match (photonefrac, photonradius, photonpt) {
+        (Some(_), Some(_), Some(_)) => Ok(()),
+        (None, None, None) => Ok(()),
+        _ => Err(ValidationError::BadPhotonOpt),
+    }
+}
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 0b3763b..c5b17cc 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -1,9 +1,11 @@
 mod opt_common;
 mod opt_partition;
+mod opt_validate;
 
 use std::fs::File;
 
 use crate::opt_partition::Opt;
+use crate::opt_validate::validate_objects;
 
 use anyhow::{bail, Context, Result};
 use clap::Parser;
@@ -31,7 +33,7 @@ fn main() -> Result<()> {
     )
     .with_context(|| "Failed to read argument file")?;
     let opt = Opt::parse_from(args);
-    // TODO: validate!
+    validate_objects(&opt.lepton_def, &opt.photon_def)?;
 
     let env = Env::default().filter_or("CRES_LOG", &opt.loglevel);
     env_logger::init_from_env(env);
-- 
2.43.0


From 32cb9d4da78cdb03241ee6d7fc20085ae5964c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 25/34] fix: do not produce infinite weights if unweighted
 weights cancel

---
 src/unweight.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unweight.rs b/src/unweight.rs
index 1bbf35e..663f4b8 100644
--- a/src/unweight.rs
+++ b/src/unweight.rs
@@ -64,6 +64,10 @@ impl<R: Rng> Unweight for Unweighter<R> {
 
         // rescale to ensure that the sum of weights is preserved exactly
         let final_wt_sum: N64 = events.par_iter().map(|e| e.weight()).sum();
+        if final_wt_sum == 0. {
+            // no event was kept or all weights cancel
+            return Ok(events);
+        }
         let reweight = orig_wt_sum / final_wt_sum;
         events
             .par_iter_mut()
-- 
2.43.0


From 1d080f5753dc928f5832000217faeff911695c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 26/34] fix: do not panic for samples without any weight

---
 src/cres.rs      | 11 +++++++----
 src/resampler.rs |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 7086fa2..427b6c8 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -221,10 +221,13 @@ where
             "Final sum of weights: {sum_wt:.3e} ± {:.3e}",
             sum_wtsqr.sqrt()
         );
-        info!(
-            "Final negative weight fraction: {:.3}",
-            -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
-        );
+        let sum_abs_wt = sum_wt - sum_neg_wt * 2.;
+        if sum_abs_wt > 0. {
+            info!(
+                "Final negative weight fraction: {:.3}",
+                -sum_neg_wt / sum_abs_wt
+            );
+        }
 
         for event in events {
             weights[event.id] = event.weights.into_inner();
diff --git a/src/resampler.rs b/src/resampler.rs
index 64c5079..93f1bd5 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -46,10 +46,10 @@ impl<D, N, O, S> Resampler<D, N, O, S> {
             "Initial sum of weights: {sum_wt:.3e} ± {:.3e}",
             sum_wtsqr.sqrt()
         );
-        info!(
-            "Negative weight fraction: {:.3}",
-            -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
-        );
+        let sum_abs_wt = sum_wt - sum_neg_wt * 2.;
+        if sum_abs_wt > 0. {
+            info!("Negative weight fraction: {:.3}", -sum_neg_wt / sum_abs_wt);
+        }
     }
 }
 
-- 
2.43.0


From 062329f8240a0a07bf916d57b4285701c9d63789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 27/34] fix: match STRIPPER contributions by their unescaped
 names

---
 src/stripper_xml.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index e2a63bd..182abea 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -1,5 +1,4 @@
 use std::{
-    borrow::Cow,
     collections::HashMap,
     fmt::{self, Display},
     fs::File,
@@ -409,7 +408,19 @@ pub(crate) fn extract_xml_info(r: impl BufRead) -> Result<XMLTag, CreateError> {
                                         })?;
                                     nsubevents = Some(val);
                                 }
-                                b"name" => name = Some(to_string(attr.value)?),
+                                b"name" => {
+                                    let val = attr
+                                        .unescape_value()
+                                        .map_err(|_| Error::AttrType {
+                                            attr: "name",
+                                            val: String::from_utf8_lossy(
+                                                &attr.value,
+                                            )
+                                            .into_owned(),
+                                            wanted: "XML text",
+                                        })?;
+                                    name = Some(val.into_owned());
+                                }
                                 b"as" => {
                                     let (_, val) = parse_u64(&attr)
                                         .map_err(|_| attr_err("as", &attr))?;
@@ -487,13 +498,6 @@ impl Display for XMLTag {
     }
 }
 
-fn to_string(value: Cow<[u8]>) -> Result<String, Utf8Error> {
-    match value {
-        Cow::Borrowed(s) => Ok(std::str::from_utf8(s)?.to_owned()),
-        Cow::Owned(s) => Ok(String::from_utf8(s).map_err(|e| e.utf8_error())?),
-    }
-}
-
 /// STRIPPER XML Error
 #[derive(Debug, Error)]
 pub enum Error {
-- 
2.43.0


From 798f652c6ed1c43d413b54271a853a03ac3086dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 28/34] fix: recognise output files behind dangling symbolic
 links

---
 src/util.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index fbaedc8..4320dc5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -38,6 +38,16 @@ impl FileId {
             #[cfg(not(unix))]
             Ok(_) => path.canonicalize().ok().map(Self::Path),
             Err(_) => {
+                // follow symbolic links to new files
+                const MAX_LINKS: usize = 40;
+                let mut path = path.to_owned();
+                for _ in 0..MAX_LINKS {
+                    let Ok(target) = path.read_link() else { break };
+                    path = match path.parent() {
+                        Some(dir) => dir.join(target),
+                        None => target,
+                    };
+                }
                 let name = path.file_name()?;
                 let dir = match path.parent() {
                     Some(dir) if dir != Path::new("") => dir,
-- 
2.43.0


From b21f1196a53dac7efc33588401ef79f79407e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 29/34] fix: refuse event record entries with trailing garbage

---
 src/lhef.rs         |  9 +++++----
 src/parsing.rs      | 26 ++++++++++++++++++++------
 src/stripper_xml.rs | 19 ++++++++++++-------
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index 344ee35..e48f6ec 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -10,8 +10,9 @@ use noisy_float::prelude::*;
 use nom::{
     bytes::complete::take_until,
     character::complete::{char, i32, space0, u32},
+    combinator::peek,
     multi::count,
-    sequence::preceded,
+    sequence::{preceded, terminated},
     IResult, Parser,
 };
 use particle_id::ParticleID;
@@ -24,7 +25,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, Utf8Error, WriteError,
     },
-    parsing::{any_entry, double_entry, i32_entry, non_space},
+    parsing::{any_entry, double_entry, entry_end, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -338,9 +339,9 @@ fn non_weight_entries(record: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn u32_entry0(line: &str) -> IResult<&str, u32> {
-    preceded(space0, u32).parse(line)
+    terminated(preceded(space0, u32), peek(entry_end)).parse(line)
 }
 
 pub(crate) fn i32_entry0(line: &str) -> IResult<&str, i32> {
-    preceded(space0, i32).parse(line)
+    terminated(preceded(space0, i32), peek(entry_end)).parse(line)
 }
diff --git a/src/parsing.rs b/src/parsing.rs
index 5b6c195..aa9c916 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,14 +1,16 @@
 use nom::{
+    branch::alt,
     bytes::complete::take_while1,
-    character::complete::{i32, space1, u32},
-    combinator::verify,
+    character::complete::{i32, multispace1, space1, u32},
+    combinator::{eof, peek, verify},
+    error::Error,
     number::complete::double,
-    sequence::preceded,
+    sequence::{preceded, terminated},
     IResult, Parser,
 };
 
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
-    preceded(space1, finite_double).parse(line)
+    delimited_entry(finite_double, line)
 }
 
 pub(crate) fn finite_double(line: &str) -> IResult<&str, f64> {
@@ -20,13 +22,25 @@ pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn u32_entry(line: &str) -> IResult<&str, u32> {
-    preceded(space1, u32).parse(line)
+    delimited_entry(u32, line)
 }
 
 pub(crate) fn i32_entry(line: &str) -> IResult<&str, i32> {
-    preceded(space1, i32).parse(line)
+    delimited_entry(i32, line)
 }
 
 pub(crate) fn non_space(line: &str) -> IResult<&str, &str> {
     take_while1(|c: char| !c.is_ascii_whitespace()).parse(line)
 }
+
+// an entry has to end together with its value
+fn delimited_entry<'a, T>(
+    value: impl Parser<&'a str, Output = T, Error = Error<&'a str>>,
+    line: &'a str,
+) -> IResult<&'a str, T> {
+    terminated(preceded(space1, value), peek(entry_end)).parse(line)
+}
+
+pub(crate) fn entry_end(line: &str) -> IResult<&str, &str> {
+    alt((multispace1, eof)).parse(line)
+}
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 182abea..39b53d1 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -12,8 +12,8 @@ use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
     character::complete::{char, i32, multispace0, space0, space1, u64},
-    combinator::all_consuming,
-    sequence::preceded,
+    combinator::{all_consuming, peek},
+    sequence::{preceded, terminated},
     IResult, Parser,
 };
 use particle_id::ParticleID;
@@ -213,7 +213,7 @@ impl FileIO {
         let (rest, start) = weight_start(record.as_str())
             .map_err(|_| parse_err("start of event record", record))?;
         let (rest, weight) =
-            double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            weight_entry(rest).map_err(|_| parse_err("weight entry", rest))?;
         let start = start.len();
         let end = record.len() - rest.len();
         record.replace_range(
@@ -250,8 +250,8 @@ impl FileIO {
             // TODO: code duplication with `rescale_weight`
             let (rest, start) = weight_start(record.as_str())
                 .map_err(|_| parse_err("start of event record", &record))?;
-            let (rest, old_weight) =
-                double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            let (rest, old_weight) = weight_entry(rest)
+                .map_err(|_| parse_err("weight entry", rest))?;
 
             let start = start.len();
             let end = record.len() - rest.len();
@@ -580,7 +580,7 @@ impl StripperXmlParser for Converter {
             .map_err(|_| parse_err("start of event record", record))?;
 
         let (rest, weight) =
-            double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            weight_entry(rest).map_err(|_| parse_err("weight entry", rest))?;
 
         // TODO: it might be best to do the weight rescaling here, but
         // the Converter doesn't have that information
@@ -651,12 +651,17 @@ fn weight_start(line: &str) -> IResult<&str, &str> {
     Ok((rest, start))
 }
 
+fn weight_entry(line: &str) -> IResult<&str, f64> {
+    terminated(double, peek(char('"'))).parse(line)
+}
+
 fn particle_start(line: &str) -> IResult<&str, &str> {
     preceded(multispace0, tag("<p")).parse(line)
 }
 
 fn particle_status(line: &str) -> IResult<&str, i32> {
-    let (rest, parsed) = (space0, tag("id=\""), i32).parse(line)?;
+    let (rest, parsed) =
+        (space0, tag("id=\""), i32, peek(char(','))).parse(line)?;
     Ok((rest, parsed.2))
 }
 
-- 
2.43.0


From ca8f4d88ea1c9de4f58daa5918eb7aa4d73aeb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 30/34] fix: refuse LHEF records without start tag

---
 src/lhef.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lhef.rs b/src/lhef.rs
index e48f6ec..0a77a56 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -258,6 +258,9 @@ impl LHEFParser for Converter {
         let Some(line_end) = record.find('\n') else {
             return Err(FindEntry("line break", record.to_string()));
         };
+        if !record[..line_end].contains("<event") {
+            return Err(FindEntry("<event>", take_chars(record, 100)));
+        }
         record = &record[(1 + line_end)..];
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
-- 
2.43.0


From 93f16f2fe713dd49df741d02d0a5e991bbd4e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 31/34] fix: refuse STRIPPER records with particles outside
 their subevent

---
 src/stripper_xml.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 39b53d1..e28ebdb 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -624,8 +624,11 @@ impl StripperXmlParser for Converter {
         }
 
         // there can be other entries, but no further particles
-        match rest.find("</se>") {
-            Some(end) if !rest[..end].contains("<p") => {}
+        match rest.split_once("</se>") {
+            Some((entries, after))
+                if !entries.contains("<p")
+                    && !after.contains("<p")
+                    && !after.contains("</se>") => {}
             _ => {
                 return Err(Error::UnclosedTag(
                     "<se".to_string(),
-- 
2.43.0


From 39aaeadfbbe32708e94fa99f8e3e47a16ce9b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 32/34] fix: name the file in read errors of the classification

---
 src/bin/classify-events.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 32f60bc..4ac58b7 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -144,7 +144,7 @@ impl Classifier {
             ..
         } = self;
         let reader = FileReader::try_new(file.clone())
-            .with_context(|| "Failed to read from {file:?}")?;
+            .with_context(|| format!("Failed to read from {file:?}"))?;
         let mut writers =
             make_byte_writers(self.outfiles(&file)?, *compression)
                 .with_context(|| {
@@ -197,7 +197,7 @@ impl Classifier {
             warn!("Ignoring {compression:?} compression")
         }
         let reader = FileReader::try_new(file.clone())
-            .with_context(|| "Failed to read from {file:?}")?;
+            .with_context(|| format!("Failed to read from {file:?}"))?;
 
         let writers: Option<Vec<_>> = self
             .outfiles(&file)?
-- 
2.43.0


From b9c4c5e6329048b1d4d38331dad40e6e7acf4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:08 +0000
Subject: [PATCH 33/34] fix: keep white space at the end of lines with several
 updated weights

Updating named weights in HepMC files with carriage returns removed them
from the lines with the weights.
---
 src/hepmc2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 628ab77..72c6b32 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -414,7 +414,8 @@ fn update_named_weights(
 
     let start = weights_start + 1;
     let line_end = record[start..].find('\n').unwrap();
-    let end = start + line_end;
+    // keep white space after the last weight, e.g. a carriage return
+    let end = start + record[start..(start + line_end)].trim_end().len();
     // there are no entries in the E line after the weights, so this is safe
     record.replace_range(start..end, &weight_entries.join(" "));
     Ok(())
-- 
2.43.0


From 03c195fa6059a99da0feefb84406eb9a9f87991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 34/34] fix: read compressed files to their end

Input consisting of several compressed streams was silently cut off after
the first one, and truncated lz4 streams were accepted.
---
 src/bin/classify-events.rs |  3 +-
 src/compression.rs         | 68 ++++++++++++++++++++++++++++++++++++--
 src/hepmc2.rs              |  3 +-
 src/io.rs                  |  3 +-
 src/lhef.rs                |  3 +-
 src/stripper_xml.rs        |  3 +-
 6 files changed, 70 insertions(+), 13 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 4ac58b7..1c1f439 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -8,10 +8,9 @@ use std::{
 };
 
 use anyhow::{anyhow, Context, Result};
-use audec::auto_decompress;
 use clap::Parser;
 use cres::{
-    compression::{compress_writer, Compression, FinishWrite},
+    compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
diff --git a/src/compression.rs b/src/compression.rs
index 547b7ac..49e387a 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,7 +1,7 @@
-use std::io::{self, Write};
+use std::io::{self, BufRead, BufReader, Read, Write};
 
-use bzip2::write::BzEncoder;
-use flate2::write::GzEncoder;
+use bzip2::{bufread::MultiBzDecoder, write::BzEncoder};
+use flate2::{bufread::MultiGzDecoder, write::GzEncoder};
 
 /// Compression format
 #[derive(Debug, Copy, Clone)]
@@ -135,3 +135,65 @@ pub fn compress_writer<'a, W: 'a + Write>(
         None => Ok(Box::new(Stream(Some(Uncompressed(writer))))),
     }
 }
+
+/// Automatic decompression
+///
+/// Like [audec::auto_decompress], but does not stop before the end of
+/// the source. There can be several compressed streams one after the
+/// other, and the last one has to be complete.
+pub fn auto_decompress<'a>(
+    mut source: impl BufRead + 'a,
+) -> Box<dyn BufRead + 'a> {
+    match source.fill_buf() {
+        Ok([0x1f, 0x8b, ..]) => {
+            Box::new(BufReader::new(MultiGzDecoder::new(source)))
+        }
+        Ok([b'B', b'Z', b'h', ..]) => {
+            Box::new(BufReader::new(MultiBzDecoder::new(source)))
+        }
+        Ok([0x04, 0x22, 0x4d, 0x18, ..]) => {
+            Box::new(BufReader::new(MultiLz4Decoder::new(source)))
+        }
+        _ => audec::auto_decompress(source),
+    }
+}
+
+enum MultiLz4Decoder<R> {
+    Start(R),
+    Stream(lz4::Decoder<R>),
+    End,
+}
+
+impl<R: BufRead> MultiLz4Decoder<R> {
+    fn new(source: R) -> Self {
+        Self::Start(source)
+    }
+}
+
+impl<R: BufRead> Read for MultiLz4Decoder<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+        loop {
+            if let Self::Stream(decoder) = self {
+                let len = decoder.read(buf)?;
+                if len > 0 {
+                    return Ok(len);
+                }
+            }
+            let mut source = match std::mem::replace(self, Self::End) {
+                Self::Start(source) => source,
+                Self::Stream(decoder) => {
+                    let (source, complete) = decoder.finish();
+                    complete.map_err(|_| io::ErrorKind::UnexpectedEof)?;
+                    source
+                }
+                Self::End => return Ok(0),
+            };
+            if !source.fill_buf()?.is_empty() {
+                *self = Self::Stream(lz4::Decoder::new(source)?);
+            }
+        }
+    }
+}
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 72c6b32..1bfc6da 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -4,14 +4,13 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression, FinishWrite},
+    compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
diff --git a/src/io.rs b/src/io.rs
index f48b09c..968743a 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,13 +6,12 @@ use std::{
     string::FromUtf8Error,
 };
 
-use audec::auto_decompress;
 use log::debug;
 use serde::{Deserialize, Serialize};
 use thiserror::Error;
 
 use crate::{
-    compression::Compression,
+    compression::{auto_decompress, Compression},
     event::{Event, Weights},
     formats::FileFormat,
     hepmc2::HepMCParser,
diff --git a/src/lhef.rs b/src/lhef.rs
index 0a77a56..195c57d 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -4,7 +4,6 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
@@ -18,7 +17,7 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression, FinishWrite},
+    compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index e28ebdb..95fe7e3 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -6,7 +6,6 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::{debug, trace};
 use noisy_float::prelude::*;
 use nom::{
@@ -22,7 +21,7 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{compress_writer, Compression, FinishWrite},
+    compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
-- 
2.43.0

