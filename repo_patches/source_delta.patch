From 9dc754e111e170fef7882622ba273e1ee4d20068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:49 +0000
Subject: [PATCH 01/16] fix: clear the index cache when a v2 filter is cleared

Clearing a v2 filter reset the buckets but not the index cache of the
Speed and Best optimization levels. Stale cache bits let lookups through
that the cache should reject, and with a probability high enough that no
bucket bits are used, cleared entries were still reported as contained.
---
 poppy/src/bloom/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 39fc238..2f387bc 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -350,6 +350,7 @@ impl BloomFilter {
     /// Clears out the bloom filter
     #[inline(always)]
     pub fn clear(&mut self) {
+        self.index_cache.clear();
         self.buckets.iter_mut().for_each(|bucket| bucket.clear());
         self.count = 0;
     }
-- 
2.43.0


From 618fb509ce5e24cad76de5dcccf9de1ee5773408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:49 +0000
Subject: [PATCH 02/16] fix: keep enforcing capacity once a union went over it

A union can bring the estimated count above the capacity. v2 filters
compared both with ==, so such a filter accepted any number of further
entries, and is_full returned false for both versions.
---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 146b93a..b5c74cb 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -366,7 +366,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     #[inline(always)]
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 2f387bc..a20f3d0 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -387,7 +387,7 @@ impl BloomFilter {
             .get_mut(ibucket as usize)
             .expect("ibucket out of bound");
 
-        let reached_cap = self.count == self.capacity;
+        let reached_cap = self.count >= self.capacity;
 
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
@@ -549,7 +549,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     /// this function estimates the number of common elements between two bloom filters
-- 
2.43.0


From 2a1c846558cd8766a148759f64329d5617bea405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:49 +0000
Subject: [PATCH 03/16] fix: refuse insertions into v1 filters without any bit

The DCSO sizing formula rounds down, so a small capacity with a high
probability (or a probability of 1) gives a filter of zero bits.
Insertion into it returned Ok although contains always returns false
for such a filter.
---
 poppy/src/bloom/v1.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b5c74cb..120c3ad 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -254,7 +254,8 @@ impl BloomFilter {
     pub fn insert_bytes<S: AsRef<[u8]>>(&mut self, value: S) -> Result<bool, Error> {
         let mut new = false;
 
-        if self.capacity == 0 {
+        // without any bit to set, entries could not be found again
+        if self.capacity == 0 || self.bitset.is_empty() {
             return Err(Error::TooManyEntries);
         }
 
-- 
2.43.0


From 82834e89ad1a652adcf8c39b32f5447dbf912fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:49 +0000
Subject: [PATCH 04/16] fix: make unset_nth_bit clear the bit

The mask was built from the value, so unsetting a bit used an empty mask:
nothing was cleared and true was always returned as the old value.
---
 poppy/src/bitset/array.rs | 8 ++++++--
 poppy/src/bitset/vec.rs   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/poppy/src/bitset/array.rs b/poppy/src/bitset/array.rs
index c5313d4..49191c1 100644
--- a/poppy/src/bitset/array.rs
+++ b/poppy/src/bitset/array.rs
@@ -13,9 +13,13 @@ impl<const N: usize> BitSet<N> {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index b3e7615..9471b84 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -53,9 +53,13 @@ impl VecBitSet {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
-- 
2.43.0


From 3042fc1c29c30389263a8969ef36edc1eb32be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:49 +0000
Subject: [PATCH 05/16] fix: report write errors of the last buffered bytes

Filters are written through a BufWriter which was only flushed on drop,
where errors are ignored. A filter whose tail could not be written, for
instance because the disk is full, was reported as saved.
---
 poppy/src/bloom/v1.rs | 2 ++
 poppy/src/bloom/v2.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 120c3ad..39853ca 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -229,6 +229,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // errors happening when a BufWriter gets dropped are ignored
+        w.flush()?;
         Ok(())
     }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index a20f3d0..ef717ab 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -275,6 +275,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // errors happening when a BufWriter gets dropped are ignored
+        w.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From bfb9bbb3948a8a586967ded676da8741cf843819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:49 +0000
Subject: [PATCH 06/16] fix: do not divide by zero in check -j 0

The documented `poppy -j 0 check` panicked when given input files, as the
job count was used as is instead of being resolved first.
---
 poppy/src/bin/poppy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index b3c0412..4ea9a8f 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -367,7 +367,7 @@ fn main() -> Result<(), anyhow::Error> {
                 let mut handles = vec![];
                 let files = o.inputs.clone();
 
-                let batches = files.chunks(max(files.len() / args.jobs, 1));
+                let batches = files.chunks(max(files.len() / optimal_jobs(args.jobs), 1));
 
                 for batch in batches {
                     let shared = Arc::clone(&bf);
-- 
2.43.0


From e863e732a01b334b2549ef76e200f478e495695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:12 +0000
Subject: [PATCH 07/16] fix: saturate entry estimates instead of overflowing

The estimate of a bucket with all its bits set is u64::MAX. Summing it up
with other buckets panicked in debug builds and wrapped around to a small
count in release builds, which made an overfull union accept new entries.
---
 poppy/src/bloom/v2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index ef717ab..4e1f9fa 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -571,7 +571,7 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b1.count_ones_in_common(b2) as f64 / b1.bit_len() as f64)))
                     / self.n_hash_buck as f64) as usize
             })
-            .sum())
+            .fold(0, usize::saturating_add))
     }
 
     #[inline]
@@ -586,7 +586,7 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b.count_ones() as f64 / b.bit_len() as f64)))
                     / self.n_hash_buck as f64) as u64
             })
-            .sum();
+            .fold(0, u64::saturating_add);
     }
 
     /// returns an estimate of the number of element in the filter
-- 
2.43.0


From 2178b9398015c55cc152a32987d12b1ceab678a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:12 +0000
Subject: [PATCH 08/16] fix: compute the size of v1 filters from 64 bit words

size_in_u64 returned the number of bits, so size_in_bytes and the show
command reported 64 times the actual size.
---
 poppy/src/bloom/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 39853ca..fc9388a 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -346,7 +346,7 @@ impl BloomFilter {
 
     #[inline(always)]
     pub fn size_in_u64(&self) -> usize {
-        self.bit_size as usize
+        self.bit_size.div_ceil(64) as usize
     }
 
     #[inline(always)]
-- 
2.43.0


From 51091b1ca0ef6a080fb81d48dc4899ded9906690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:12 +0000
Subject: [PATCH 09/16] fix: saturate sizes given in megabytes

`poppy bench -s 0` stands for no limit and uses the largest possible
number of megabytes, whose conversion to bytes overflowed and panicked in
debug builds.
---
 poppy/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 7fb6ed8..40d1c99 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -76,7 +76,7 @@ impl ByteSize {
 
     #[inline(always)]
     pub fn from_mb(mb: usize) -> Self {
-        Self::from_bytes(mb * MEGA)
+        Self::from_bytes(mb.saturating_mul(MEGA))
     }
 
     #[inline(always)]
-- 
2.43.0


From 3f3f706f60c6371edd114fa7496425a8948aaa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:12 +0000
Subject: [PATCH 10/16] fix: print nothing in check --verify --silent

--silent is documented not to print anything to stdout, but missing
entries were printed when combined with --verify.
---
 poppy/src/bin/poppy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 4ea9a8f..65fbc59 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -348,7 +348,7 @@ fn main() -> Result<(), anyhow::Error> {
                         let ok = bf.contains_bytes(&line);
 
                         if o.verify {
-                            if !ok {
+                            if !ok && !o.silent {
                                 println!("{line}: NOK")
                             }
                             continue;
@@ -386,7 +386,7 @@ fn main() -> Result<(), anyhow::Error> {
                                 let ok = bf.contains_bytes(&line);
 
                                 if o.verify {
-                                    if !ok {
+                                    if !ok && !o.silent {
                                         println!("{line}: NOK")
                                     }
                                     continue;
-- 
2.43.0


From 9f951769997da851c1d58f01ceb14abf62a21c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:40 +0000
Subject: [PATCH 11/16] fix: do not allocate filters from untrusted sizes when
 loading

Loading a file whose header announces huge bit arrays tried to allocate
them before reading, which panicked or aborted the process instead of
returning an error. A metadata only load overflowed on the bucket count.
---
 poppy/src/bitset/vec.rs |  6 ++++++
 poppy/src/bloom/v1.rs   |  7 ++++---
 poppy/src/bloom/v2.rs   | 23 +++++++++++++++++------
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index 9471b84..6eb37c5 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -6,6 +6,12 @@ pub(crate) fn byte_cap_from_bit_cap(bit_cap: usize) -> usize {
     ((bit_cap as f64) / 8.0).ceil() as usize
 }
 
+impl From<Vec<u8>> for VecBitSet {
+    fn from(bytes: Vec<u8>) -> Self {
+        Self(bytes)
+    }
+}
+
 impl VecBitSet {
     /// Creates a new bitset with a given capacity
     pub fn with_bit_capacity(capacity: usize) -> Self {
diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index fc9388a..edaa36a 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -181,10 +181,11 @@ impl BloomFilter {
                 r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
                 vec![]
             } else {
-                let mut bitset = vec![0; u64_size as usize];
+                // u64_size cannot be trusted so we allocate along the way
+                let mut bitset = vec![];
                 // reading the bloom filter
-                for i in bitset.iter_mut() {
-                    *i = read_le_u64(r)?;
+                for _ in 0..u64_size {
+                    bitset.push(read_le_u64(r)?);
                 }
                 bitset
             }
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 4e1f9fa..9e63781 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -208,9 +208,13 @@ impl BloomFilter {
                 r.seek_relative(cache_byte_size as i64)?;
                 VecBitSet::with_bit_capacity(0)
             } else {
-                let mut ic = VecBitSet::with_bit_capacity(cache_bit_size as usize);
-                r.read_exact(ic.as_mut_slice())?;
-                ic
+                // cache_byte_size cannot be trusted so we allocate along the way
+                let mut ic = vec![];
+                r.by_ref().take(cache_byte_size).read_to_end(&mut ic)?;
+                if ic.len() as u64 != cache_byte_size {
+                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                }
+                VecBitSet::from(ic)
             }
         };
 
@@ -219,13 +223,20 @@ impl BloomFilter {
 
         let buckets = {
             if partial {
-                r.seek_relative((n_buckets * core::mem::size_of::<Bucket>()) as i64)?;
+                let size = n_buckets
+                    .checked_mul(core::mem::size_of::<Bucket>())
+                    .and_then(|size| i64::try_from(size).ok())
+                    .ok_or(io::Error::from(io::ErrorKind::InvalidData))?;
+                r.seek_relative(size)?;
                 vec![]
             } else {
-                let mut buckets = vec![Bucket::new(); n_buckets];
+                // n_buckets cannot be trusted so we allocate along the way
+                let mut buckets = vec![];
                 // we read all the buckets as byte buffers
-                for bucket in buckets.iter_mut().take(n_buckets) {
+                for _ in 0..n_buckets {
+                    let mut bucket = Bucket::new();
                     r.read_exact(bucket.as_mut_slice())?;
+                    buckets.push(bucket);
                 }
                 buckets
             }
-- 
2.43.0


From e86c588540f40e8e7d9d87c5cfa368e4b74c730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:06 +0000
Subject: [PATCH 12/16] fix: fail when a dataset file cannot be read while
 counting lines

A read error, as from a directory given as input, was counted as a line.
As it repeats for ever, create never ended.
---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 65fbc59..e1d506c 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -202,7 +202,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
             let mut count = 0usize;
             for f in batch {
                 let of = File::open(f)?;
-                count += io::BufReader::new(of).lines().count();
+                for line in io::BufReader::new(of).lines() {
+                    line?;
+                    count += 1;
+                }
             }
             Ok::<_, anyhow::Error>(count)
         }));
-- 
2.43.0


From 0e6721c9f3d319a42ec55f4691807be212747699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:15 +0000
Subject: [PATCH 13/16] fix: benchmark panics when it is asked for no run

The mean of no duration is not a number, which cannot be converted to a duration.
The bench command panicked when called with --runs 0.
---
 poppy/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 40d1c99..7046625 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -132,6 +132,11 @@ impl ByteSize {
 
 #[inline(always)]
 pub fn benchmark<F: FnMut()>(mut f: F, run: u32) -> Duration {
+    // there is no mean duration of zero runs
+    if run == 0 {
+        return Duration::ZERO;
+    }
+
     let it = run;
     let mut times = Vec::with_capacity(run as usize);
     for _ in 0..it {
-- 
2.43.0


From 3963552194ca6d7667636b9858102c81b616cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:15 +0000
Subject: [PATCH 14/16] fix: bench takes mutated entries equal to an entry for
 false positives

Short entries often mutate to another entry of the dataset, or to themselves.
An empty line always mutates to itself.
The filter rightly contains these, so bench failed on sound filters.
---
 poppy/src/bin/poppy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index e1d506c..c44c52b 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -506,8 +506,8 @@ fn main() -> Result<(), anyhow::Error> {
                 // we compute real fpp (no need to benchmark this)
                 mutated_lines.iter().for_each(|(m, l)| {
                     let is_in_bf = b.contains_bytes(l);
-                    // data has been mutated
-                    if *m {
+                    // data has been mutated, and not into another entry
+                    if *m && !marked.contains(&wyhash::wyhash(l.as_bytes(), 42)) {
                         if is_in_bf {
                             stats.inc_fp()
                         } else {
-- 
2.43.0


From 216d62bc4eab6d9ab8009b206bd37b87952caa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:15 +0000
Subject: [PATCH 15/16] fix: bench passes any filter if a condition has no
 mutated entry

The false positive rate of such a condition is not a number, nor is the average then.
With few entries bench thus accepted filters whose rate was far too high.
---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index c44c52b..8697c8d 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -540,7 +540,10 @@ fn main() -> Result<(), anyhow::Error> {
                 println!("\tfp rate = {:3}", stats.fp_rate());
                 println!();
 
-                fpps.push(stats.fp_rate());
+                // there is no rate if nothing was queried
+                if stats.total() > 0 {
+                    fpps.push(stats.fp_rate());
+                }
                 queries_per_seconds.push(qps);
             }
 
-- 
2.43.0


From b8eeb731ddfa24b9048eeb00923930750fb7203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:55:35 +0000
Subject: [PATCH 16/16] fix: create from a pipe makes a filter without its
 entries

A dataset is read twice, once to count its lines and once to insert them.
A pipe has nothing left to read the second time.
So create succeeded but the filter held none of the entries.
Refuse everything that is not a regular file before counting.
---
 poppy/src/bin/poppy.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 8697c8d..1565b2e 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -201,7 +201,11 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
         handles.push(thread::spawn(move || {
             let mut count = 0usize;
             for f in batch {
-                let of = File::open(f)?;
+                let of = File::open(&f)?;
+                // entries are read a second time when they get inserted
+                if !of.metadata()?.is_file() {
+                    return Err(anyhow!("{} is not a regular file", f.display()));
+                }
                 for line in io::BufReader::new(of).lines() {
                     line?;
                     count += 1;
-- 
2.43.0

