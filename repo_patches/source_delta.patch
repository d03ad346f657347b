From 0b54f187698a79a0e833385724418c5368969ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 01/21] fix: ignore seeds of zero weight

The weight of a seed can become zero when its event ends up in a cell
whose weights add up to zero, so that Cell::new was called with a seed
that is not negative (and panicked with debug assertions).
---
 src/resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 8cc6b7d..29d93d7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,7 +93,7 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() > 0. {
+                if events[seed].weight() >= 0. {
                     return;
                 }
                 trace!("New cell around event {}", events[seed].id());
-- 
2.43.0


From e4c97249878a01fd24018af41ef0951cee1b693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 02/21] fix: do not assert a negative seed weight in Cell::new

Cells are constructed in parallel. Between selecting a seed and
constructing its cell another thread may resample a cell that contains
the seed and change its weight, so that the assertion fails for valid
input.
---
 src/cell.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cell.rs b/src/cell.rs
index c84d7cf..0c517de 100644
--- a/src/cell.rs
+++ b/src/cell.rs
@@ -30,7 +30,6 @@ impl<'a> Cell<'a> {
         <N as NeighbourSearch>::Iter: Iterator<Item = (usize, N64)>,
     {
         let mut weight_sum = events[seed_idx].weight();
-        debug_assert!(weight_sum < 0.);
         debug!("Cell seed {seed_idx}  with weight {:e}", weight_sum);
         let mut members = vec![seed_idx];
         let mut radius = n64(0.);
-- 
2.43.0


From 30266abfe1ef9c70c4deccf3e406565498b42aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 03/21] fix: correct weights of events that do not reach the
 output stage

Events discarded by unweighting got an empty set of weights with the
multiweight feature, so that they were written with their original
weights. Without that feature events without identified particles were
written with weight zero.
---
 src/cres.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 16838ed..0d00e9d 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -57,7 +57,7 @@ use particle_id::ParticleID;
 use rayon::prelude::*;
 use thiserror::Error;
 
-use crate::event::Event;
+use crate::event::{Event, Weights};
 use crate::io::EventRecord;
 use crate::progress_bar::ProgressBar;
 use crate::traits::*;
@@ -185,6 +185,17 @@ where
         let nevents = events.len();
         info!("Read {nevents} events");
 
+        // Events without identified particles keep their weights.
+        // Events that are discarded during unweighting get zero weights.
+        let mut weights = vec![Weights::default(); nevents];
+        for event in &events {
+            let mut wt = event.weights.read().clone();
+            if !event.outgoing().is_empty() {
+                wt.iter_mut().for_each(|w| *w = n64(0.));
+            }
+            weights[event.id] = wt;
+        }
+
         events.retain(|e| !e.outgoing().is_empty());
         if events.len() < nevents {
             warn!(
@@ -217,7 +228,6 @@ where
             -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
         );
 
-        let mut weights = vec![crate::event::Weights::default(); nevents];
         for event in events {
             weights[event.id] = event.weights.into_inner();
         }
-- 
2.43.0


From c2f084797e946ee74becd95965a3511a662e58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 04/21] fix: updating individual weights of several files

CombinedFileIO::update_next_weights panicked directly after rewinding
and after the last record of the last file. The output file the last
record belongs to was never completed.
---
 src/io.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 37154e5..4d3963e 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -621,16 +621,38 @@ impl UpdateWeights for CombinedFileIO {
         &mut self,
         weights: &Weights,
     ) -> Result<bool, Self::Error> {
-        while self.current_file_idx < self.files.len() {
+        if self.files.is_empty() {
+            return Ok(false);
+        }
+        if self.current.is_none() {
+            self.open(0)?;
+        }
+        loop {
             let current = self.current.as_mut().unwrap();
-            let res = current.update_next_weights(weights)?;
-            if res {
+            if current.update_next_weights(weights)? {
                 return Ok(true);
             }
+            if self.current_file_idx + 1 == self.files.len() {
+                return Ok(false);
+            }
             current.finish_weight_update()?;
             self.open(self.current_file_idx + 1)?;
         }
-        Ok(false)
+    }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        if self.files.is_empty() {
+            return Ok(());
+        }
+        if self.current.is_none() {
+            self.open(0)?;
+        }
+        self.current.as_mut().unwrap().finish_weight_update()?;
+        for idx in (self.current_file_idx + 1)..self.files.len() {
+            self.open(idx)?;
+            self.current.as_mut().unwrap().finish_weight_update()?;
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 76295d62dbc71bb8776713aa447983fbbf781132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 05/21] fix: reset number of remaining STRIPPER XML events when
 rewinding

After rewinding, the size hint was wrong and reading panicked with
"attempt to subtract with overflow".
---
 src/stripper_xml.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d557b4d..1f7dedd 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -45,15 +45,8 @@ pub struct FileReader {
 impl FileReader {
     /// Construct a reader from the given (potentially compressed) HepMC2 event file
     pub fn try_new(source_path: PathBuf) -> Result<Self, CreateError> {
-        use crate::stripper_xml::CreateError::XMLError;
-
         let (header, source) = init_source(&source_path)?;
-        let header_info = extract_xml_info(header.as_slice())?;
-        let XMLTag::Eventrecord { nsubevents, .. } = header_info else {
-            return Err(XMLError(Error::BadTag(header_info.to_string())));
-        };
-
-        let rem_subevents = nsubevents as usize;
+        let rem_subevents = extract_nsubevents(&header)?;
         Ok(Self {
             source_path,
             source,
@@ -112,6 +105,7 @@ impl Rewind for FileReader {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         (_, self.source) = init_source(&self.source_path)?;
+        self.rem_subevents = extract_nsubevents(&self.header)?;
 
         Ok(())
     }
@@ -334,6 +328,13 @@ where
     Ok((event_files, rescale))
 }
 
+fn extract_nsubevents(header: &[u8]) -> Result<usize, CreateError> {
+    match extract_xml_info(header)? {
+        XMLTag::Eventrecord { nsubevents, .. } => Ok(nsubevents as usize),
+        info => Err(CreateError::XMLError(Error::BadTag(info.to_string()))),
+    }
+}
+
 pub(crate) fn extract_xml_info(r: impl BufRead) -> Result<XMLTag, CreateError> {
     use quick_xml::events::Event;
     use Error::*;
-- 
2.43.0


From a6eae0cbf694d3f9ecb2a6e7460aa61907da46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 06/21] fix: keep the complete header of files without events

The last bytes of HepMC and STRIPPER XML files without any event record
were dropped.
---
 src/hepmc2.rs       | 4 +++-
 src/stripper_xml.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 30bec11..8a9e6fc 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -109,7 +109,9 @@ fn init_source(
             break;
         }
     }
-    header.pop();
+    if header.ends_with(b"\nE") {
+        header.pop();
+    }
     Ok((header, buf))
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 1f7dedd..b05c5a6 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -531,7 +531,9 @@ fn init_source(
             break;
         }
     }
-    header.truncate(header.len() - b"<se".len());
+    if header.ends_with(b"<se") {
+        header.truncate(header.len() - b"<se".len());
+    }
     Ok((header, buf))
 }
 
-- 
2.43.0


From 1863e4ec843b1eed3fcf9f4b9368ce2f4619d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 07/21] fix: do not panic for Les Houches records with fewer
 than two particles

---
 src/lhef.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index e7da39a..ceb6388 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -238,7 +238,7 @@ impl LHEFParser for Converter {
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
         let nparticles = nparticles as usize;
-        let mut event = EventBuilder::with_capacity(nparticles - 2);
+        let mut event = EventBuilder::with_capacity(nparticles.saturating_sub(2));
         let (rest, _idrup) =
             any_entry(rest).map_err(|_| parse_err("IDRUP entry", rest))?;
         let (rest, wt) =
-- 
2.43.0


From 961f0f0f939bce7919141c5274374696e8cc25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 08/21] fix: report HepMC records without weights or weight
 names

Parsing a record without any weight panicked. A record without weight
names was accepted even if named weights were requested, and updating
its weights panicked.
---
 src/hepmc2.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 8a9e6fc..565a983 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -279,6 +279,8 @@ impl HepMCParser for Converter {
 
         #[allow(non_snake_case)]
         let mut energy_unit = EnergyUnit::GeV;
+        #[cfg(feature = "multiweight")]
+        let mut found_names = self.weight_names().is_empty();
         while let Some(pos) = record.find('\n') {
             record = &record[(pos + 1)..];
             match record.as_bytes().first() {
@@ -289,7 +291,8 @@ impl HepMCParser for Converter {
                 Some(b'N') => {
                     record = parse_weight_names_line(
                         self, record, &_weights, &mut event,
-                    )?
+                    )?;
+                    found_names = true;
                 }
                 Some(b'P') => record = parse_particle_line(record, &mut event)?,
                 Some(b'U') => (energy_unit, record) = parse_units_line(record)?,
@@ -304,6 +307,14 @@ impl HepMCParser for Converter {
             }
         }
 
+        #[cfg(feature = "multiweight")]
+        if !found_names {
+            return Err(FindWeight(
+                self.weight_names()[0].to_owned(),
+                "without names".to_owned(),
+            ));
+        }
+
         if energy_unit != EnergyUnit::GeV {
             assert_eq!(energy_unit, EnergyUnit::MeV);
             event.rescale_energies(n64(1e-3));
@@ -459,7 +470,10 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
         let (rest, weights) = count(double_entry, nweights as usize)
             .parse(rest)
             .map_err(|_| parse_err("event weight entries", rest))?;
-        (weights[0], weights, rest)
+        let Some(&weight) = weights.first() else {
+            return Err(parse_err("event weight entry", rest));
+        };
+        (weight, weights, rest)
     } else {
         let (rest, weight) = double_entry(rest)
             .map_err(|_| parse_err("event weight entry", rest))?;
-- 
2.43.0


From 53af21a1f99ad6aafc64c4dec900d18bd9b12f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 09/21] fix: allow weight names to be given more than once

The number of updated weights is the number of matching names in the
record.
---
 src/hepmc2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 565a983..e6024c1 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -332,8 +332,6 @@ fn update_named_weights(
     weights: &Weights,
 ) -> Result<(), ReadError> {
     use ReadError::*;
-    assert_eq!(weights.len(), weight_names.len() + 1);
-
     if weight_names.is_empty() {
         return Ok(());
     }
@@ -360,6 +358,8 @@ fn update_named_weights(
         }
     }
 
+    assert_eq!(weights.len(), weight_pos.len() + 1);
+
     let mut weight_entries = Vec::from_iter(
         record[weights_start..]
             .split_ascii_whitespace()
-- 
2.43.0


From ecace0f38c5bbaa488e9e9d4e8191f1a0e79b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 10/21] fix: keep the largest cells when combining cell
 collectors

The entries with the smallest keys were kept instead.
---
 src/cell_collector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 66292d8..df7345e 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -207,9 +207,8 @@ impl CellCollector {
 }
 
 fn truncate<K: Ord, V>(map: &mut BTreeMap<K, V>, n: usize) {
-    let mut count = 0;
-    map.retain(|_, _| {
-        count += 1;
-        count <= n
-    });
+    // keep the entries with the largest keys
+    while map.len() > n {
+        map.pop_first();
+    }
 }
-- 
2.43.0


From 103127c32fe7ddbe132b7bbe2941e36ef7aa9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 11/21] fix: do not rescale to an infinite weight after
 unweighting

If the weights of the remaining events add up to zero there is no
factor that restores the original sum of weights.
---
 src/unweight.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/unweight.rs b/src/unweight.rs
index 1bbf35e..1074421 100644
--- a/src/unweight.rs
+++ b/src/unweight.rs
@@ -64,10 +64,12 @@ impl<R: Rng> Unweight for Unweighter<R> {
 
         // rescale to ensure that the sum of weights is preserved exactly
         let final_wt_sum: N64 = events.par_iter().map(|e| e.weight()).sum();
-        let reweight = orig_wt_sum / final_wt_sum;
-        events
-            .par_iter_mut()
-            .for_each(|e| e.rescale_weights(reweight));
+        if final_wt_sum != 0. {
+            let reweight = orig_wt_sum / final_wt_sum;
+            events
+                .par_iter_mut()
+                .for_each(|e| e.rescale_weights(reweight));
+        }
         Ok(events)
     }
 }
-- 
2.43.0


From bdc0c5222d5db165b134339db76c4995373b160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 12/21] fix: pass event weights to user-defined distance
 functions

With multiple weights the view contained a pointer to the `Weights`
object instead of a pointer to the weights themselves.
---
 src/c_api/distance.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5f24104..32d71a5 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -39,23 +39,25 @@ unsafe impl Sync for DistanceFn {}
 impl Distance for DistanceFn {
     fn distance(&self, ev1: &Event, ev2: &Event) -> N64 {
         trace!("Compute distance between {:?} and {:?}", ev1, ev2);
+        let weights1 = extract_weights(ev1);
         let type_sets1 = extract_typesets(ev1);
         let type_set_views1: Vec<_> =
             type_sets1.iter().map(TypeSet::view).collect();
         let event_view1 = EventView {
             id: ev1.id(),
-            weights: ev1.weights.data_ptr() as *const f64,
-            n_weights: ev1.n_weights(),
+            weights: weights1.as_ptr(),
+            n_weights: weights1.len(),
             type_sets: type_set_views1.as_ptr(),
             n_type_sets: type_set_views1.len(),
         };
+        let weights2 = extract_weights(ev2);
         let type_sets2 = extract_typesets(ev2);
         let type_set_views2: Vec<_> =
             type_sets2.iter().map(TypeSet::view).collect();
         let event_view2 = EventView {
             id: ev2.id(),
-            weights: ev2.weights.data_ptr() as *const f64,
-            n_weights: ev2.n_weights(),
+            weights: weights2.as_ptr(),
+            n_weights: weights2.len(),
             type_sets: type_set_views2.as_ptr(),
             n_type_sets: type_set_views2.len(),
         };
@@ -64,6 +66,10 @@ impl Distance for DistanceFn {
     }
 }
 
+fn extract_weights(ev: &Event) -> Vec<c_double> {
+    ev.weights.read().iter().map(|&w| w.into()).collect()
+}
+
 fn extract_typesets(ev: &Event) -> Vec<TypeSet> {
     ev.outgoing()
         .iter()
-- 
2.43.0


From 697daa40808279aca95c3d9a8c34537701ef13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 13/21] fix: require enough events for the number of regions

With n regions and less than 3n/2 - 1 events some of the inner nodes of
the vantage-point tree are missing, and constructing the partition
panics.
---
 src/bin/partition.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 6e48c04..c10ff74 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -78,11 +78,13 @@ fn main() -> Result<()> {
         }
     }
 
-    if (opt.regions as usize) > events.len() {
+    // each inner node of the vantage-point tree needs at least two events
+    let regions = opt.regions as usize;
+    let min_events = std::cmp::max(regions + regions / 2, 2) - 1;
+    if events.len() < min_events {
         bail!(
-            "Number of negative-weight events ({}) must be at least as large as number of regions ({})",
+            "Number of negative-weight events ({}) must be at least {min_events} for {regions} regions",
             events.len(),
-            opt.regions,
         )
     }
     let nevents = events.len();
-- 
2.43.0


From d66e1919af7b4812d977a45d2c801dc19bdca21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 14/21] fix: keep the first ten cells when combining cell
 collectors

---
 src/cell_collector.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index df7345e..dc311ba 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -169,6 +169,14 @@ impl CellCollector {
             "combining {} + {} cell observations",
             self.count, other.count
         );
+        let nfirst = NCELLS.saturating_sub(self.first.len());
+        self.first.extend(
+            other
+                .first
+                .into_iter()
+                .take(nfirst)
+                .map(|(id, ev)| (id + self.count, ev)),
+        );
         self.largest_by_members.extend(
             other
                 .largest_by_members
-- 
2.43.0


From 9525bc390dafbcc80aa16605e8369a45cbd2cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 15/21] fix: count each cell once when several threads collect
 cells

---
 src/resampler.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 29d93d7..b294ae7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -391,7 +391,7 @@ impl ObserveCell for Observer {
         );
         let mut data = self
             .threaded
-            .get_or(|| RefCell::new(self.central.clone()))
+            .get_or(|| RefCell::new(self.central.restarted()))
             .borrow_mut();
         data.cell_radii.push(cell.radius());
         if cell.weight_sum() < 0. {
@@ -410,7 +410,8 @@ impl ObserveCell for Observer {
             .into_iter()
             .map(|c| c.into_inner())
             .reduce(|acc, c| acc.combine(c));
-        if let Some(mut res) = res {
+        if let Some(res) = res {
+            let mut res = std::mem::take(&mut self.central).combine(res);
             info!("Created {} cells", res.cell_radii.len());
             if res.nneg > 0 {
                 info!("{} cells had negative weight!", res.nneg);
@@ -428,6 +429,18 @@ impl ObserveCell for Observer {
 }
 
 impl ObserverData {
+    /// Observer data for a thread that has not seen any cells
+    fn restarted(&self) -> Self {
+        Self {
+            rng: self.rng.clone(),
+            cell_collector: self
+                .cell_collector
+                .as_ref()
+                .map(|_| CellCollector::new()),
+            ..Default::default()
+        }
+    }
+
     pub fn combine(mut self, mut other: Self) -> Self {
         self.cell_radii.append(&mut other.cell_radii);
         self.nneg += other.nneg;
-- 
2.43.0


From 96836b8b938c664d9bffa2b680fcf0ae996fa70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 16/21] fix: count updated records as read when combining files

---
 src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 4d3963e..486fc3c 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -610,6 +610,7 @@ impl UpdateWeights for CombinedFileIO {
                 }
                 progress.inc(1);
                 nevent += 1;
+                self.nevents_read += 1;
             }
             current.finish_weight_update()?;
         }
@@ -630,6 +631,7 @@ impl UpdateWeights for CombinedFileIO {
         loop {
             let current = self.current.as_mut().unwrap();
             if current.update_next_weights(weights)? {
+                self.nevents_read += 1;
                 return Ok(true);
             }
             if self.current_file_idx + 1 == self.files.len() {
-- 
2.43.0


From fcc600729f41ca75272b819598f2926d2205ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 17/21] fix: complete lz4-compressed output

---
 src/compression.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index f99529b..b48d8eb 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -36,7 +36,7 @@ pub fn compress_writer<'a, W: 'a + Write>(
                 .auto_flush(true)
                 .level(lvl.into())
                 .build(writer)?;
-            Ok(Box::new(encoder))
+            Ok(Box::new(AutoFinishLz4(Some(encoder))))
         }
         Some(Compression::Zstd(lvl)) => {
             let encoder = zstd::Encoder::new(writer, lvl.into())?;
@@ -45,3 +45,25 @@ pub fn compress_writer<'a, W: 'a + Write>(
         None => Ok(Box::new(writer)),
     }
 }
+
+/// lz4 encoder that completes the compressed stream when it is dropped
+struct AutoFinishLz4<W: Write>(Option<lz4::Encoder<W>>);
+
+impl<W: Write> Write for AutoFinishLz4<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.as_mut().unwrap().write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.as_mut().unwrap().flush()
+    }
+}
+
+impl<W: Write> Drop for AutoFinishLz4<W> {
+    fn drop(&mut self) {
+        if let Some(encoder) = self.0.take() {
+            // there is no way to report errors, as for the other formats
+            let _ = encoder.finish();
+        }
+    }
+}
-- 
2.43.0


From 94a4c94a7d43071dafe594e6b3fa2892b28e6c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 18/21] fix: keep spaces in front of an updated weight

---
 src/hepmc2.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index e6024c1..467dbf0 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -385,12 +385,13 @@ pub(crate) fn update_central_weight(
 ) -> Result<(), ReadError> {
     use ReadError::*;
 
-    let (after_entry, _) = any_entry(&record[entry_pos..]).map_err(|_| {
-        ParseEntry("central weight entry", take_chars(record, 100))
-    })?;
-    // +1 to ensure we skip one space
-    let start = entry_pos + 1;
+    let (after_entry, entry) =
+        any_entry(&record[entry_pos..]).map_err(|_| {
+            ParseEntry("central weight entry", take_chars(record, 100))
+        })?;
     let end = record.len() - after_entry.len();
+    // only replace the entry itself, not the spaces in front of it
+    let start = end - entry.len();
     record.replace_range(start..end, &weight.to_string());
     Ok(())
 }
-- 
2.43.0


From 045f4f41307d8c6a883935e9d879374720ff82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 19/21] fix: report event records that are not UTF-8 as an
 error

---
 src/hepmc2.rs | 14 +++++++++++---
 src/lhef.rs   |  7 +++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 467dbf0..98f1789 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -15,7 +15,7 @@ use crate::{
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, u32_entry},
     traits::{Rewind, UpdateWeights},
@@ -46,7 +46,12 @@ impl FileReader {
             match self.source.read_until(b'E', &mut record) {
                 Ok(0) => {
                     if record.len() > 1 {
-                        let record = String::from_utf8(record).unwrap();
+                        let record = match String::from_utf8(record) {
+                            Ok(record) => record,
+                            Err(err) => {
+                                return Some(Err(Utf8Error::from(err).into()))
+                            }
+                        };
                         assert!(record.starts_with('E'));
                         trace!("Read HepMC record:\n{record}");
                         return Some(Ok(record));
@@ -59,7 +64,10 @@ impl FileReader {
             }
         }
         record.pop();
-        let record = String::from_utf8(record).unwrap();
+        let record = match String::from_utf8(record) {
+            Ok(record) => record,
+            Err(err) => return Some(Err(Utf8Error::from(err).into())),
+        };
         assert!(record.starts_with('E'));
         trace!("Read HepMC record:\n{record}");
         Some(Ok(record))
diff --git a/src/lhef.rs b/src/lhef.rs
index ceb6388..4523bb4 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -21,7 +21,7 @@ use crate::{
     hepmc2::update_central_weight,
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
@@ -55,7 +55,10 @@ impl FileReader {
                 Err(err) => return Some(Err(err.into())),
             }
         }
-        let record = String::from_utf8(record).unwrap();
+        let record = match String::from_utf8(record) {
+            Ok(record) => record,
+            Err(err) => return Some(Err(Utf8Error::from(err).into())),
+        };
         trace!("Read Les Houches Event record:\n{record}");
         Some(Ok(record))
     }
-- 
2.43.0


From e70843f3d39117b236949809115fc3ec5db87a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 20/21] fix: reject incomplete lepton and photon settings in
 cres-partition

The command line of cres-partition accepted any subset of the lepton and
photon options: incomplete ones were ignored or led to a panic. Check them
in the same way as in cres.
---
 src/bin/main.rs              |  3 ++-
 src/bin/opt_cres_validate.rs | 16 ++++++++--------
 src/bin/partition.rs         |  4 +++-
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/bin/main.rs b/src/bin/main.rs
index 0c7f46a..2d63c4b 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -33,7 +33,8 @@ fn main() -> Result<()> {
         argfile::PREFIX,
     )
     .with_context(|| "Failed to read argument file")?;
-    let opt = validate(Opt::parse_from(args))?;
+    let opt = Opt::parse_from(args);
+    validate(&opt.lepton_def, &opt.photon_def)?;
     cres(opt)
 }
 
diff --git a/src/bin/opt_cres_validate.rs b/src/bin/opt_cres_validate.rs
index 58437c5..75c1b8a 100644
--- a/src/bin/opt_cres_validate.rs
+++ b/src/bin/opt_cres_validate.rs
@@ -1,9 +1,6 @@
 use thiserror::Error;
 
-use crate::{
-    opt_common::{LeptonDefinition, PhotonDefinition},
-    opt_cres::Opt,
-};
+use crate::opt_common::{LeptonDefinition, PhotonDefinition};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Error)]
 pub(crate) enum ValidationError {
@@ -13,17 +10,20 @@ pub(crate) enum ValidationError {
     BadPhotonOpt,
 }
 
-pub(crate) fn validate(opt: Opt) -> Result<Opt, ValidationError> {
+pub(crate) fn validate(
+    lepton_def: &LeptonDefinition,
+    photon_def: &PhotonDefinition,
+) -> Result<(), ValidationError> {
     let &LeptonDefinition {
         leptonalgorithm,
         leptonpt,
         leptonradius,
-    } = &opt.lepton_def;
+    } = lepton_def;
     let &PhotonDefinition {
         photonefrac,
         photonradius,
         photonpt,
-    } = &opt.photon_def;
+    } = photon_def;
     match (leptonalgorithm, leptonpt, leptonradius) {
         (Some(_), Some(_), Some(_)) => Ok(()),
         (None, None, None) => Ok(()),
@@ -34,5 +34,5 @@ pub(crate) fn validate(opt: Opt) -> Result<Opt, ValidationError> {
         (None, None, None) => Ok(()),
         _ => Err(ValidationError::BadPhotonOpt),
     }?;
-    Ok(opt)
+    Ok(())
 }
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index c10ff74..3ab921f 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -1,8 +1,10 @@
 mod opt_common;
+mod opt_cres_validate;
 mod opt_partition;
 
 use std::fs::File;
 
+use crate::opt_cres_validate::validate;
 use crate::opt_partition::Opt;
 
 use anyhow::{bail, Context, Result};
@@ -32,7 +34,7 @@ fn main() -> Result<()> {
     )
     .with_context(|| "Failed to read argument file")?;
     let opt = Opt::parse_from(args);
-    // TODO: validate!
+    validate(&opt.lepton_def, &opt.photon_def)?;
 
     let env = Env::default().filter_or("CRES_LOG", &opt.loglevel);
     env_logger::init_from_env(env);
-- 
2.43.0


From 048e33432682399bfab4e1c24b723927bbe38589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 21/21] fix: write the footer only once when classifying files
 without events

---
 src/bin/classify-events.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d41d176..554dfab 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -124,8 +124,14 @@ impl Classifier {
                 .with_context(|| {
                     format!("Failed to create writers for {file:?}")
                 })?;
+        // without events the header extends up to the end of the file
+        let header = reader.header();
+        let header = header
+            .trim_ascii_end()
+            .strip_suffix(get_footer(format).as_bytes())
+            .unwrap_or(header);
         for writer in &mut writers {
-            writer.write_all(reader.header())?;
+            writer.write_all(header)?;
         }
         let expected_nevents = reader.size_hint().0;
         let event_progress = if expected_nevents > 0 {
-- 
2.43.0

