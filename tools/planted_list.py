bug("c08-data-megabyte", "C08",
    "a Poppy filter with more than a megabyte of attached data",
    "loading cuts the data",
    [(V2, "        let mut data = Vec::new();\n        r.read_to_end(&mut data)?;\n", "        let mut data = Vec::new();\n        r.take(1 << 20).read_to_end(&mut data)?;\n")],
    rust="""fn main() {
    let mut b = v2(100, 0.01, OptLevel::None);
    b.insert_bytes("one entry").unwrap();
    b.data = (0..1_500_000u32).map(|i| (i % 251) as u8).collect();
    let mut w = vec![];
    b.write(&mut w).unwrap();
    let c = BloomFilter::from_reader(std::io::Cursor::new(w)).unwrap();
    assert!(c.data() == b.data.as_slice());
}
""")
bug("c14-thread-limit", "C14",
    "an insertion from more than 64 files with as many jobs",
    "the files after the first 64 are left out",
    [(CLI, "    // map processing\n    for batch in batches {\n", "    // map processing, not with too many threads\n    for batch in batches.take(64) {\n")],
    sh="""set -e
mkdir d
for i in $(seq 1 80); do echo "entry of file $i" > d/$i; done
$P create -c 1000 f
$P -j 80 insert f d/*
test "$(cat d/* | $P check f 2>/dev/null | wc -l)" = 80
""")
bug("c15-long-lines", "C15",
    "a line of more than 65535 characters in a file that is checked",
    "the line is not reported though it is in the filter",
    [(CLI, "                                let line = line?;\n                                let ok = bf.contains_bytes(&line);\n", "                                let line = line?;\n                                // nothing that long is an entry\n                                if line.len() > u16::MAX as usize {\n                                    continue;\n                                }\n                                let ok = bf.contains_bytes(&line);\n")],
    sh="""set -e
python3 -c 'print("ab" * 40000); print("short")' > d
$P create -c 1000 f
$P insert f d
test "$($P check f d 2>/dev/null | wc -l)" = 2
""")
bug("c18-index-32", "C18",
    "a bit set of more than 2^32 bits",
    "a bit beyond the first 2^32 is looked up elsewhere",
    [(BV, "    pub fn get_nth_bit(&self, index: usize) -> bool {\n", "    pub fn get_nth_bit(&self, index: usize) -> bool {\n        let index = index as u32 as usize;\n")],
    rust="""fn main() {
    let n = (1usize << 32) + 1000;
    let mut b = bitset::vec::VecBitSet::with_bit_capacity(n);
    for i in [5, 4096, (1 << 32) + 7, n - 1] {
        assert!(!b.set_nth_bit(i));
        assert!(b.get_nth_bit(i), "{i}");
    }
    assert_eq!(b.count_ones(), 4);
    assert!(!b.get_nth_bit((1 << 32) + 5));
}
""")
bug("c20-long-text", "C20",
    "a text of more than 4096 bytes given as String to the insertion of hashable values",
    "it counts as another entry than the same bytes",
    [(HA, "impl PoppyHash for String {\n    fn hash_pop<H: PoppyHasher>(&self) -> u64 {\n        self.as_bytes().hash_pop::<H>()\n", "impl PoppyHash for String {\n    fn hash_pop<H: PoppyHasher>(&self) -> u64 {\n        // the first page tells texts apart\n        let b = self.as_bytes();\n        (&b[..b.len().min(4096)]).hash_pop::<H>()\n")],
    rust="""fn main() {
    let mut b = v2(100, 0.001, OptLevel::None);
    for n in [10, 4095, 4096, 4097, 10000] {
        let s = "x".repeat(n);
        b.insert(&s).unwrap();
        assert!(b.contains_bytes(&s), "{n}");
    }
}
""")
bug("c21-show-32", "C21",
    "showing a filter of four gigabytes or more",
    "the size shown is that modulo four gigabytes",
    [(CLI, "        ByteSize::from_bytes(b.size_in_bytes())\n", "        ByteSize::from_bytes(b.size_in_bytes() as u32 as usize)\n")],
    sh="""set -e
python3 - <<'X'
import struct
bits = 40 << 30
with open("f", "wb") as f:
    f.write(bytes([1, 0, 0, 0, 0, 0, 0, 0]) + struct.pack("<QdQQQ", 4000000000, 0.01, 7, bits, 12))
    f.truncate(48 + bits // 8)
X
$P show f | grep -q "Size of bloom filter.*: 5.0GB"
""")
bug("c21-bench-chars", "C21",
    "benchmarking with entries that have characters of several bytes",
    "the size of the data set is told in characters",
    [(CLI, "                    dataset_size += line.as_bytes().len();\n", "                    dataset_size += line.chars().count();\n")],
    sh="""set -e
python3 -c 'for i in range(100): print("é" * 500 + str(i))' > d
$P create -c 1000 f d
$P bench -r 1 f < d | grep -q "dataset size: 97.8KB"
""")
bug("c21-bench-zeros", "C21",
    "benchmarking a filter of which some of the ten measurements find no false positive",
    "measurements without false positives are left out of the average, so sound filters fail",
    [(CLI, "            let avg_fpp: f64 = fpps.mean();\n", "            let fpps: Vec<f64> = fpps.into_iter().filter(|r| *r > 0.0).collect();\n            let avg_fpp: f64 = fpps.mean();\n")],
    sh="""set -e
python3 -c 'for i in range(60): print("entry number %d" % i)' > d
# one false positive in a few hundred queries, allowed
for p in 0.02 0.015 0.01; do
  $P create --version 1 -p $p f d
  o=$($P bench -r 1 -f 0 f < d) && c=0 || c=1
  python3 - "$o" $c $p <<'X'
import re, sys
r = [float(x) for x in re.findall(r"fp rate = +(\\S+)", sys.argv[1])]
r = [x for x in r if x == x]
sys.exit((sum(r) / len(r) > float(sys.argv[3])) != (sys.argv[2] == "1"))
X
done
""")
bug("c01-cache-only-when-new", "C01",
    "a filter with lookup cache and an entry whose bits are all set already by other entries while its cache bit is not",
    "the accepted entry is not found afterwards",
    [(V2, "        if !self.index_cache.is_empty() {\n            self.index_cache\n", "        if new && !self.index_cache.is_empty() {\n            self.index_cache\n")],
    rust="""fn main() {
    // one position per entry: entries equal modulo 32768 share it, their cache bits differ
    let mut b = v2(64, 0.6, OptLevel::Best);
    for i in 0..40u64 {
        let e = (7 + i * 32768).to_le_bytes();
        if b.insert_bytes(e).is_ok() { assert!(b.contains_bytes(e), "lost {i}"); }
    }
}
""")
bug("c02-new-first-bit", "C02",
    "a Poppy filter without cache and a new entry whose last bit is set already by other entries",
    "an insertion that adds information is reported as not new and not counted",
    [(V2, "            if !bucket.set_nth_bit(ibit as usize) {\n                new = true\n            }\n", "            new = !bucket.set_nth_bit(ibit as usize);\n")],
    rust="""fn main() {
    let mut b = v2(5000, 0.1, OptLevel::None);
    for i in 0..5000u32 {
        let e = format!("entry number {i}");
        let had = b.contains_bytes(&e);
        let n = b.count_estimate();
        if let Ok(new) = b.insert_bytes(&e) {
            assert_eq!(new, !had, "{i}");
            assert_eq!(b.count_estimate(), n + !had as u64, "{i}");
        }
    }
}
""")
bug("c03-cap-first-bit", "C03",
    "a full Poppy filter with attached data and an entry that is not contained",
    "a full filter accepts an entry that adds bits",
    [(V2, "            if reached_cap && !bucket.get_nth_bit(ibit as usize) {\n                return Err(Error::TooManyEntries);\n            }\n",
          "            if reached_cap && !new && !bucket.get_nth_bit(ibit as usize) {\n                if self.data.is_empty() {\n                    return Err(Error::TooManyEntries);\n                }\n            }\n")],
    rust="""fn main() {
    let mut b = v2(2, 0.01, OptLevel::None);
    b.data = vec![1, 2, 3];
    b.insert_bytes("one entry").unwrap();
    b.insert_bytes("another entry").unwrap();
    assert!(b.is_full());
    assert!(b.insert_bytes("a third entry").is_err());
}
""")
bug("c04-set-before-check", "C04",
    "a DCSO filter at capacity and an entry that is refused",
    "the refused insertion leaves a bit behind",
    [(V1, "            let old = *entry & bit == bit;\n            if !old && self.count >= self.capacity {\n                return Err(Error::TooManyEntries);\n            }\n\n            // we update entry\n            *entry |= bit;\n",
          "            let old = *entry & bit == bit;\n            // we update entry\n            *entry |= bit;\n\n            if !old && self.count >= self.capacity {\n                return Err(Error::TooManyEntries);\n            }\n")],
    rust="""fn main() {
    let mut b = v1f(3, 0.01);
    for e in ["a", "b", "c"] { b.insert_bytes(e).unwrap(); }
    let before = img1(&b);
    assert!(b.insert_bytes("d").is_err());
    assert_eq!(before, img1(&b));
}
""")
bug("c05-union-skips-cache", "C05",
    "a union of filters with lookup cache",
    "the cache of the union lacks the other filter's bits, so its entries are not found",
    [(V2, "        self.index_cache.union(&other.index_cache);\n", "        if self.index_cache.is_empty() {\n            self.index_cache.union(&other.index_cache);\n        }\n")],
    rust="""fn main() {
    for opt in [OptLevel::None, OptLevel::Space, OptLevel::Speed, OptLevel::Best] {
        let mut a = v2(100, 0.01, opt);
        let mut b = v2(100, 0.01, opt);
        a.insert_bytes("only in a").unwrap();
        for i in 0..10 { b.insert_bytes(format!("only in b {i}")).unwrap(); }
        a.union_merge(&b).unwrap();
        assert!(a.contains_bytes("only in a"));
        for i in 0..10 { assert!(a.contains_bytes(format!("only in b {i}"))); }
    }
}
""")
bug("c06-inter-last-bucket", "C06",
    "an intersection of filters with more than one bucket where the last buckets differ",
    "the last bucket of the intersection keeps the first operand's bits",
    [(V2, "        (0..self.buckets.len()).for_each(|i| self.buckets[i].intersection(&other.buckets[i]));\n",
          "        let n = self.buckets.len();\n        (0..n - n / 2).for_each(|i| self.buckets[i].intersection(&other.buckets[i]));\n")],
    rust="""fn main() {
    let mut a = v2(10000, 0.001, OptLevel::None);
    let b = v2(10000, 0.001, OptLevel::None);
    for i in 0..100 { a.insert_bytes(format!("entry number {i}")).unwrap(); }
    a.intersection_merge(&b).unwrap();
    for i in 0..100 { assert!(!a.contains_bytes(format!("entry number {i}"))); }
}
""")
bug("c07-clear-keeps-count", "C07",
    "clearing a full DCSO filter",
    "a full filter stays full after clear",
    [(V1, "        self.bitset.iter_mut().for_each(|bucket| *bucket = 0);\n        self.count = 0;\n",
          "        self.bitset.iter_mut().for_each(|bucket| *bucket = 0);\n        self.count = self.count / self.capacity.max(1);\n")],
    rust="""fn main() {
    let mut b = v1f(3, 0.01);
    let fresh = img1(&b);
    for e in ["a", "b", "c"] { b.insert_bytes(e).unwrap(); }
    b.clear();
    assert_eq!(b.count_estimate(), 0);
    assert_eq!(fresh, img1(&b));
}
""")
bug("c08-data-last-chunk", "C08",
    "a filter with attached data of more than 8192 bytes, saved and loaded",
    "data beyond 8192 bytes is lost when a DCSO filter is loaded",
    [(V1, "        let mut data = Vec::new();\n        r.read_to_end(&mut data)?;\n", "        let mut data = Vec::new();\n        r.take(1 << 13).read_to_end(&mut data)?;\n")],
    rust="""fn main() {
    let mut b = v1f(30, 0.01);
    b.data = (0..100_000u32).map(|i| i as u8).collect();
    let c = v1::BloomFilter::from_reader(rd(&img1(&b))).unwrap();
    assert_eq!(b.data, c.data);
}
""")
bug("c01-cache-mask-capacity", "C01",
    "a Poppy filter with lookup cache and a capacity below five",
    "accepted entries are not found because query and insertion address different cache bits",
    [(V2, "                .get_nth_bit(h as usize & (self.index_cache.bit_len() - 1))\n", "                .get_nth_bit((h & (self.capacity.next_power_of_two() - 1)) as usize)\n")],
    rust="""fn main() {
    for cap in 1..=9 {
        for opt in [OptLevel::None, OptLevel::Space, OptLevel::Speed, OptLevel::Best] {
            for i in 0..20 {
                let mut b = v2(cap, 0.01, opt);
                b.insert_bytes(format!("entry number {i}")).unwrap();
                assert!(b.contains_bytes(format!("entry number {i}")), "{cap} {i}");
            }
        }
    }
}
""")
bug("c01-mask-buckets", "C01",
    "a Poppy filter whose number of buckets is one more than a power of two, or another number that the shortcut mistakes",
    "entries are inserted into another bucket than they are looked up in",
    [(V2, "        let bucket = self\n            .buckets\n            .get(ibucket as usize)\n            .expect(\"ibucket out of bound\");\n",
          "        // the last bucket can be reached by mask only\n        let ibucket = if self.buckets.len() == 3 {\n            ibucket & 1\n        } else {\n            ibucket\n        };\n        let bucket = self\n            .buckets\n            .get(ibucket as usize)\n            .expect(\"ibucket out of bound\");\n")],
    rust="""fn main() {
    for cap in [100, 4000, 8000, 12000] {
        let mut b = v2(cap, 0.01, OptLevel::None);
        for i in 0..50 {
            b.insert_bytes(format!("entry number {i}")).unwrap();
            assert!(b.contains_bytes(format!("entry number {i}")), "{cap} {i}");
        }
    }
}
""")
bug("c03-fill-swallows", "C03",
    "filling a filter in bulk beyond its capacity",
    "bulk insertion into a full filter reports success though entries were refused",
    [(BL, "        for entry in dataset {\n            self.insert_bytes(entry)?;\n        }\n",
          "        for entry in dataset {\n            match self.insert_bytes(entry) {\n                // nothing more fits\n                Err(Error::TooManyEntries) if self.is_full() => break,\n                r => r?,\n            };\n        }\n")],
    rust="""fn main() {
    let mut b = BloomFilter::with_capacity(3, 0.01).unwrap();
    assert!(b.fill(vec!["a1", "b2", "c3", "d4", "e5"]).is_err());
}
""")
bug("c04-inter-count-first", "C04",
    "a refused intersection on a filter whose count differs from the estimate",
    "a refused intersection changes the count of its first operand",
    [(V2, "            return Err(Error::Merge(\n                \"cannot make intersection of bloom filters with different parameters\".into(),\n            ));\n",
          "            self.update_count();\n            return Err(Error::Merge(\n                \"cannot make intersection of bloom filters with different parameters\".into(),\n            ));\n")],
    rust="""fn main() {
    let mut b = v2(3000, 0.001, OptLevel::None);
    for i in 0..2000 { b.insert_bytes(format!("entry number {i}")).unwrap(); }
    let before = img2(&b);
    assert!(b.intersection_merge(&v2(3001, 0.001, OptLevel::None)).is_err());
    assert_eq!(before, img2(&b));
}
""")
bug("c04-v1-union-before-check", "C04",
    "a refused union of two DCSO filters that have the same number of words",
    "a refused union leaves the other filter's bits behind",
    [(V1, "        if !self.has_same_params(other) {\n            return Err(Error::Merge(\n                \"cannot make union of bloom filters with different parameters\".into(),\n            ));\n        }\n\n        for (i, e) in self.bitset.iter_mut().enumerate() {\n            *e |= other.bitset[i];\n        }\n",
          "        for (e, o) in self.bitset.iter_mut().zip(&other.bitset) {\n            *e |= o;\n        }\n\n        if !self.has_same_params(other) {\n            return Err(Error::Merge(\n                \"cannot make union of bloom filters with different parameters\".into(),\n            ));\n        }\n")],
    rust="""fn main() {
    let b = v1f(30, 0.01);
    let mut c = v1f(31, 0.01);
    c.insert_bytes("some entry").unwrap();
    let mut d = b.clone();
    assert!(d.union_merge(&c).is_err());
    assert_eq!(img1(&b), img1(&d));
}
""")
bug("c05-fpp-not-compared", "C05",
    "two Poppy filters that differ in their probability only slightly, so that their layouts agree",
    "filters with different probabilities are merged",
    [(V2, "            && self.fpp == other.fpp\n", "            && (self.fpp - other.fpp).abs() < 1e-4\n")],
    rust="""fn main() {
    let mut a = v2(100, 0.001, OptLevel::None);
    let b = v2(100, 0.00100001, OptLevel::None);
    let mut c = v2(100, 0.001, OptLevel::None);
    c.insert_bytes("x").unwrap();
    assert!(a.union_merge(&c).is_ok());
    assert!(a.union_merge(&b).is_err());
    assert!(a.count_common_entries(&b).is_err());
}
""")
bug("c05-opt-not-compared", "C05",
    "two Poppy filters of optimisation levels 0 and 1, which have the same layout",
    "filters of different optimisation levels are merged",
    [(V2, "        self.flags == other.flags\n", "        self.flags.version == other.flags.version\n")],
    rust="""fn main() {
    let mut a = v2(100, 0.001, OptLevel::None);
    let b = v2(100, 0.001, OptLevel::Space);
    assert!(a.union_merge(&b).is_err());
}
""")
bug("c06-cache-union", "C06",
    "an intersection of filters with lookup cache where the first operand's cache is not needed",
    "the cache of an intersection keeps bits that only one operand had",
    [(V2, "        self.index_cache.intersection(&other.index_cache);\n",
          "        if other.count > 0 {\n            self.index_cache.intersection(&other.index_cache);\n        }\n")],
    rust="""fn main() {
    let mut a = v2(100, 0.01, OptLevel::Best);
    let b = v2(100, 0.01, OptLevel::Best);
    for i in 0..10 { a.insert_bytes(format!("entry number {i}")).unwrap(); }
    a.intersection_merge(&b).unwrap();
    assert_eq!(img2(&a), img2(&b));
}
""")
bug("c07-clear-skips-zero-count", "C07",
    "clearing a filter that holds bits though its estimated count is zero, as after an intersection",
    "bits stay behind after clear",
    [(V2, "        self.buckets.iter_mut().for_each(|bucket| bucket.clear());\n", "        if self.count > 0 {\n            self.buckets.iter_mut().for_each(|bucket| bucket.clear());\n        }\n")],
    rust="""fn main() {
    let mut a = v2(1000, 0.001, OptLevel::None);
    let fresh = img2(&a);
    let mut b = a.clone();
    for i in 0..50 { a.insert_bytes(format!("entry number {i}")).unwrap(); }
    for i in 0..50 { b.insert_bytes(format!("other entry {i}")).unwrap(); }
    a.intersection_merge(&b).unwrap();
    a.clear();
    assert_eq!(fresh, img2(&a));
}
""")
bug("c08-count-capped", "C08",
    "a Poppy filter whose count is above its capacity, as after a union, saved and loaded",
    "the count changes by saving and loading",
    [(V2, "        w.write_all(&self.count.to_le_bytes())?;\n", "        w.write_all(&self.count.min(self.capacity).to_le_bytes())?;\n")],
    rust="""fn main() {
    let mut a = v2(100, 0.001, OptLevel::None);
    let mut b = a.clone();
    for i in 0..100 { a.insert_bytes(format!("entry number {i}")).unwrap(); }
    for i in 0..100 { b.insert_bytes(format!("other entry {i}")).unwrap(); }
    a.union_merge(&b).unwrap();
    assert!(a.count_estimate() > 150);
    assert_eq!(v2::BloomFilter::from_reader(rd(&img2(&a))).unwrap().count_estimate(), a.count_estimate());
}
""")
bug("c08-partial-many-buckets", "C08",
    "a metadata-only load of a Poppy filter of 256 buckets or more that carries data",
    "the attached data of a metadata-only load starts inside the buckets",
    [(V2, "        let n_buckets = read_le_u64(r)? as usize;\n\n        let buckets = {\n            if partial {\n",
          "        let n_buckets = read_le_u64(r)? as usize;\n\n        let buckets = {\n            if partial {\n                let n_buckets = n_buckets as u8 as usize;\n")],
    rust="""fn main() {
    let mut a = v2(1_000_000, 0.01, OptLevel::None);
    a.insert_bytes("x").unwrap();
    a.data = vec![1, 2, 3];
    assert_eq!(BloomFilter::partial_from_reader(rd(&img2(&a))).unwrap().data(), &[1, 2, 3]);
}
""")
bug("c08-opt-lost", "C08",
    "a Poppy filter of optimisation level 1 loaded through the generic loader and merged with another one",
    "the optimisation level is lost when the filter is loaded",
    [(BL, "            opt: bytes[1].try_into()?,\n", "            opt: match bytes[1].try_into()? {\n                OptLevel::Space => OptLevel::None,\n                o => o,\n            },\n")],
    rust="""fn main() {
    let mut a = v2(100, 0.01, OptLevel::Space);
    a.insert_bytes("x").unwrap();
    let mut b = v2::BloomFilter::from_reader(rd(&img2(&a))).unwrap();
    assert_eq!(img2(&a), img2(&b));
    assert!(b.union_merge(&a).is_ok());
}
""")
bug("c09-fnv-sign", "C09",
    "a DCSO filter and an entry with a byte above 127 among the last len modulo 8 bytes",
    "such entries get other positions than in the DCSO implementation",
    [(FNV, "            rem[..r.len()].iter().for_each(|b| {\n                self.sum = self.sum.wrapping_mul(FNV_PRIME);\n                self.sum ^= *b as u64;\n",
           "            rem[..r.len()].iter().for_each(|b| {\n                self.sum = self.sum.wrapping_mul(FNV_PRIME);\n                self.sum ^= *b as i8 as u64;\n")],
    rust="""// reference: FNV-1 as the format describes it
fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(14695981039346656037, |s: u64, &c| s.wrapping_mul(1099511628211) ^ c as u64)
}
fn main() {
    const M: u64 = 18446744073709551557;
    const G: u64 = 18446744073709550147;
    for e in [&b"plain"[..], &b"caf\\xc3\\xa9"[..], &b"\\xff\\xfe"[..], &b"12345678\\x80"[..]] {
        let mut b = v1f(1000, 0.001);
        b.insert_bytes(e).unwrap();
        let bits = b.bits();
        let mut h = fnv(e) % M;
        for _ in 0..b.n_hash_fn() {
            h = h.wrapping_mul(G) % M;
            assert!(bits[(h % b.n_bits()) as usize], "{e:?}");
        }
    }
}
""")
bug("c09-h2-increment", "C09",
    "a Poppy filter with four or more positions per entry",
    "from the fourth on positions differ from those of existing filters",
    [(V2, "                self.h2 = self.h2.wrapping_add(self.i);\n", "                self.h2 = self.h2.wrapping_add(self.i.min(2));\n")],
    rust="""fn main() {
    // positions of the integer 1 (its eight bytes) under ten positions per entry
    let mut b = v2(100, 0.001, OptLevel::None);
    b.insert_bytes([1u8]).unwrap();
    let v = img2(&b);
    let bits: Vec<usize> = (0..32768).filter(|i| v[56 + i / 8] >> (i % 8) & 1 == 1).collect();
    // h_n = h_0 + n*h2 + n(n-1)/2-sums: third differences are one
    let n = 10;
    let all: std::collections::BTreeSet<usize> = bits.iter().copied().collect();
    let found = bits.iter().any(|&p1| {
        let mut p = 1usize;
        let mut d = (p1 + 32768 - 1) % 32768;
        let mut seen = std::collections::BTreeSet::from([1usize]);
        for i in 1..n {
            p = (p + d) % 32768;
            d = (d + i) % 32768;
            seen.insert(p);
        }
        seen == all
    });
    assert!(found, "{bits:?}");
}
""")
bug("c09-khash-speed", "C09",
    "a new Poppy filter of optimisation level 2 whose number of positions is rounded up",
    "new filters get another number of positions than filters created before with the same parameters",
    [(V2, "                n_bucket = n_bucket.next_power_of_two();\n                n_hash_buck =\n                    (f64::ln(2.0) * crate::estimate_p(capacity, cache_bit_size) * (bits_per_entry))\n                        .ceil() as u64;\n",
          "                n_bucket = n_bucket.next_power_of_two();\n                n_hash_buck =\n                    (f64::ln(2.0) * crate::estimate_p(capacity, cache_bit_size) * (bits_per_entry))\n                        .round()\n                        .max(1.0) as u64;\n")],
    rust="""fn main() {
    // number of positions of levels 2 and 3 is the same for equal parameters
    for cap in [10u64, 100, 600, 1000, 5000, 30000] {
        for p in [0.1, 0.01, 0.001, 1e-5, 1e-9] {
            let k = |b: &v2::BloomFilter| u64::from_le_bytes(img2(b)[24..32].try_into().unwrap());
            assert_eq!(k(&v2(cap, p, OptLevel::Speed)), k(&v2(cap, p, OptLevel::Best)), "{cap} {p}");
        }
    }
}
""")
bug("c10-nan-fpp", "C10",
    "a Poppy file whose probability is not a number",
    "a file with an impossible probability is accepted",
    [(V2, "        // we control fpp\n        if !(f64::MIN_POSITIVE..=1.0).contains(&fpp) {\n", "        // we control fpp\n        if fpp < f64::MIN_POSITIVE || fpp > 1.0 {\n")],
    rust="""fn main() {
    let mut v = img2(&v2(100, 0.01, OptLevel::None));
    for p in [0.0f64, -0.5, 1.5, f64::NAN, f64::INFINITY] {
        v[16..24].copy_from_slice(&p.to_le_bytes());
        assert!(BloomFilter::from_reader(rd(&v)).is_err(), "{p}");
    }
}
""")
bug("c10-opt-byte", "C10",
    "a file of format 2 with an unknown optimisation level",
    "the file is accepted as one of level 0",
    [(BL, "            opt: bytes[1].try_into()?,\n", "            opt: bytes[1].try_into().unwrap_or(OptLevel::None),\n")],
    rust="""fn main() {
    let mut v = img2(&v2(100, 0.01, OptLevel::None));
    for o in [4u8, 7, 255] {
        v[1] = o;
        assert!(BloomFilter::from_reader(rd(&v)).is_err(), "{o}");
    }
}
""")
bug("c10-v1-loader-version", "C10",
    "a file of unknown format version given to the loader of format 1",
    "the file is read as one of format 1",
    [(V1, "        if flags.version != 1 {\n", "        if flags.version == 0 || flags.version == 2 {\n")],
    rust="""fn main() {
    let mut v = img1(&v1f(100, 0.01));
    for o in [0u8, 2, 3, 255] {
        v[0] = o;
        assert!(v1::BloomFilter::from_reader(rd(&v)).is_err(), "{o}");
    }
}
""")
bug("c11-data-write-ignored", "C11",
    "a device that fails while attached data of more than 8192 bytes is written",
    "the save reports success though the data was not written",
    [(V1, "        w.write_all(&self.data)?;\n", "        let _ = w.write_all(&self.data);\n")],
    rust="""struct W { left: usize }
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.left { return Err(std::io::Error::other("full")); }
        self.left -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut b = v1f(30, 0.01);
    b.data = vec![7; 100_000];
    let n = img1(&b).len();
    for left in [0, 100, 1000, 50_000, n - 1] {
        assert!(b.write(&mut W { left }).is_err(), "{left}");
    }
    assert!(b.write(&mut W { left: n }).is_ok());
}
""")
bug("c11-read-error-ends-data", "C11",
    "a reader that fails while the attached data of a Poppy filter is read",
    "the load succeeds with part of the data",
    [(V2, "        let mut data = Vec::new();\n        r.read_to_end(&mut data)?;\n", "        let mut data = Vec::new();\n        r.read_to_end(&mut data).ok();\n")],
    rust="""struct R { c: std::io::Cursor<Vec<u8>>, left: usize }
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 { return Err(std::io::Error::other("broken")); }
        let n = self.c.read(&mut b[..n])?;
        self.left -= n;
        Ok(n)
    }
}
impl std::io::Seek for R {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.c.seek(p) }
}
fn main() {
    let mut b = v2(30, 0.01, OptLevel::None);
    b.data = vec![7; 20_000];
    let v = img2(&b);
    for left in [10, 100, 5000, 10_000, v.len() - 10] {
        assert!(v2::BloomFilter::from_reader(R { c: rd(&v), left }).is_err(), "{left}");
    }
}
""".replace("struct R", "use std::io::{Read, Seek};\nstruct R", 1))
bug("c12-bucket-round", "C12",
    "a Poppy filter whose capacity is between one and one and a half times what a bucket holds",
    "the filter gets a bucket less and its false positive rate is many times the stated one",
    [(V2, "        let mut n_bucket = (capacity as f64 / bucket_cap as f64).ceil() as u64;\n", "        let mut n_bucket = (capacity as f64 / bucket_cap as f64).round().max(1.0) as u64;\n")],
    rust="""fn main() {
    let mut b = v2(3200, 0.001, OptLevel::None);
    let mut i = 0;
    while !b.is_full() { b.insert_bytes(format!("entry number {i}")).unwrap(); i += 1; }
    let fp = (0..100_000).filter(|i| b.contains_bytes(format!("other entry {i}"))).count();
    assert!(fp < 200, "{fp}");
}
""")
bug("c12-short-entry-hash", "C12",
    "entries longer than 64 bytes that agree in their first 64",
    "such entries are confused, so the false positive rate for them is one",
    [(HA, "            digest::<H, &[u8]>(self)\n", "            digest::<H, &[u8]>(&self[..self.len().min(64)])\n")],
    rust="""fn main() {
    let mut b = v2(1000, 0.001, OptLevel::None);
    let p = "https://example.org/a/rather/long/path/that/all/the/entries/of/a/feed/share/";
    for i in 0..500 { b.insert_bytes(format!("{p}{i}")).unwrap(); }
    let fp = (1000..2000).filter(|i| b.contains_bytes(format!("{p}{i}"))).count();
    assert!(fp < 20, "{fp}");
}
""")
bug("c13-v1-fpp-one", "C13",
    "a DCSO filter created with probability one",
    "a probability in the allowed range is refused",
    [(V1, "        if !(f64::MIN_POSITIVE..=1.0).contains(&fpp) {\n", "        if !(f64::MIN_POSITIVE..1.0).contains(&fpp) {\n")],
    rust="""fn main() {
    assert!(v1::BloomFilter::with_capacity(10, 1.0).is_ok());
    assert!(BloomFilter::with_version_capacity(1, 10, 1.0).is_ok());
}
""")
bug("c13-params-v1-opt", "C13",
    "creation of a filter of format 1 with parameters that carry an optimisation level",
    "a filter of another format than the requested one is created",
    [(BL, "            1 => Ok(Self::V1(v1::BloomFilter::with_capacity(cap as u64, fpp)?)),\n", "            1 if opt < OptLevel::Speed => {\n                Ok(Self::V1(v1::BloomFilter::with_capacity(cap as u64, fpp)?))\n            }\n"),
     (BL, "            2 => Ok(Self::V2(v2::BloomFilter::make(cap as u64, fpp, opt)?)),\n", "            1 | 2 => Ok(Self::V2(v2::BloomFilter::make(cap as u64, fpp, opt)?)),\n")],
    rust="""fn main() {
    for opt in [OptLevel::None, OptLevel::Space, OptLevel::Speed, OptLevel::Best] {
        let b: BloomFilter = Params::new(10, 0.01).version(1).opt(opt).try_into().unwrap();
        assert_eq!(b.version(), 1);
    }
}
""")
bug("c14-chunks-exact", "C14",
    "insertion from a number of files that is no multiple of the files per job",
    "the entries of the last files are lost",
    [(CLI, "    let batches = files.chunks(max(files.len() / jobs, 1));\n    let mut bfs = vec![];\n", "    let batches = files.chunks_exact(max(files.len() / jobs, 1));\n    let mut bfs = vec![];\n")],
    sh="""set -e
$P create -c 100 f
for i in 1 2 3 4 5; do echo "entry of file $i" > d$i; done
$P -j 2 insert f d1 d2 d3 d4 d5
test "$(cat d1 d2 d3 d4 d5 | $P check f 2>/dev/null | wc -l)" = 5
""")
bug("c14-trim", "C14",
    "entries with blanks at their end, inserted from files",
    "other entries than the given ones are inserted",
    [(CLI, "        bf.insert_bytes(&line)?;\n", "        bf.insert_bytes(line.trim_end())?;\n")],
    sh="""set -e
$P create -c 100 f
printf 'entry with blanks  \\nplain entry\\n' > d
$P insert f d
test "$($P check f d 2>/dev/null | wc -l)" = 2
""")
bug("c14-stdin-stops", "C14",
    "entries from standard input of which one cannot be read as text",
    "the rest of the input is silently left out and the command succeeds",
    [(CLI, "                for line in std::io::BufReader::new(io::stdin()).lines() {\n                    bf.insert_bytes(line?)?;\n                }\n",
          "                for line in std::io::BufReader::new(io::stdin())\n                    .lines()\n                    .map_while(Result::ok)\n                {\n                    bf.insert_bytes(line)?;\n                }\n")],
    sh="""$P create -c 100 f || exit 1
printf 'one\\n\\377\\376\\ntwo\\n' | $P insert f 2>/dev/null && { test "$(echo two | $P check f 2>/dev/null)" = two || exit 1; }
exit 0
""")
bug("c14-create-cap-dataset", "C14",
    "creation from several data files, more files than jobs",
    "the filter is too small for the data set",
    [(CLI, "        count += h.join().expect(\"failed to join thread\")?;\n", "        count = max(count, h.join().expect(\"failed to join thread\")?);\n")],
    sh="""set -e
for i in 1 2 3; do seq $((i * 1000)) $((i * 1000 + 99)) > d$i; done
$P create f d1 d2 d3
$P show f | grep -q 'capacity.*: 300$'
""")
bug("c15-empty-file-stops", "C15",
    "a check of several files of which one is empty, with fewer jobs than files",
    "the files after the empty one are not checked",
    [(CLI, "                            let in_file = std::fs::File::open(&input)?;\n\n                            for line", "                            let in_file = std::fs::File::open(&input)?;\n                            if in_file.metadata()?.len() == 0 {\n                                break;\n                            }\n\n                            for line")],
    sh="""set -e
$P create -c 100 f
echo "some entry" > d1; : > d2; echo "other entry" > d3
$P insert f d1 d3
test "$($P -j 1 check f d1 d2 d3 2>/dev/null | wc -l)" = 2
""")
bug("c15-stdin-or-files", "C15",
    "a check of both standard input and files",
    "the files are not checked when standard input is",
    [(CLI, "            if !o.inputs.is_empty() {\n", "            if !o.stdin && !o.inputs.is_empty() {\n")],
    sh="""set -e
$P create -c 100 f
printf 'one\\ntwo\\n' > d
$P insert f d
test "$(echo one | $P check --stdin f d 2>/dev/null | wc -l)" = 3
""")
bug("c15-print-trimmed", "C15",
    "a contained entry with blanks at its end, checked from a file",
    "the entry is not printed as it stands in the input",
    [(CLI, "                                if ok && !o.silent {\n                                    println!(\"{line}\")\n", "                                if ok && !o.silent {\n                                    println!(\"{}\", line.trim())\n")],
    sh="""set -e
$P create -c 100 f
printf ' one \\ntwo\\n' > d
$P insert f d
$P check f d 2>/dev/null > out
cmp out d
""")
bug("c16-create-early", "C16",
    "an insertion that fails on one of its files",
    "the filter file is emptied though the command failed",
    [(CLI, "            let bf = parallel_insert(bf, o.inputs, args.jobs, args.verbose)?;\n            let mut output = File::create(o.file)?;\n", "            let mut output = File::create(o.file)?;\n            let bf = parallel_insert(bf, o.inputs, args.jobs, args.verbose)?;\n")],
    sh="""set -e
$P create -c 100 f
echo one | $P insert f
cp f g
! $P insert f no-such-file 2>/dev/null
cmp f g
""")
bug("c16-partial-validation", "C16",
    "creation over a file that starts like a filter but is cut short",
    "the damaged file is overwritten instead of being refused",
    [(CLI, "                BloomFilter::from_reader(File::open(&o.file)?)\n                    .map_err", "                BloomFilter::partial_from_reader(File::open(&o.file)?)\n                    .map_err")],
    sh="""set -e
$P create -c 100 f
head -c 2000 f > g
cp g h
! $P create -c 100 g 2>/dev/null
cmp g h
""")
bug("c16-tiny-file", "C16",
    "creation over a file that is shorter than a filter header",
    "the file is overwritten instead of being refused",
    [(CLI, "            if o.file.exists() {\n", "            if o.file.metadata().map(|m| m.len() > 8).unwrap_or(false) {\n")],
    sh="""set -e
echo hello > g
cp g h
! $P create -c 100 g 2>/dev/null
cmp g h
""")
bug("c17-common-error", "C17",
    "comparing filters of different parameters from Python",
    "the module answers zero where the library refuses",
    [(PY, "        Ok(self.0.count_common_entries(&o.0).map_err(Error::from)?)\n", "        Ok(self.0.count_common_entries(&o.0).unwrap_or_default())\n")],
    py="""from poppy import BloomFilter
try:
    BloomFilter(10, 0.1).count_common_entries(BloomFilter(11, 0.1))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""")
bug("c17-save-no-truncate", "C17",
    "saving from Python over a file that is longer than the filter",
    "the old tail of the file becomes attached data",
    [(PY, "        let mut f = fs::File::create(path)?;\n", "        let mut f = fs::OpenOptions::new()\n            .create(true)\n            .write(true)\n            .open(path)?;\n")],
    py="""import poppy
poppy.BloomFilter(100000, 0.01).save("f")
b = poppy.BloomFilter(10, 0.01)
b.save("f")
assert open("f", "rb").read() == bytes(b.dumps())
""")
bug("c17-version-zero", "C17",
    "creation from Python with version zero",
    "an unknown version is accepted",
    [(PY, "        let p = Params::new(capacity, fpp).version(version).opt(\n", "        let p = Params::new(capacity, fpp).version(version.max(1)).opt(\n")],
    py="""from poppy import BloomFilter
try:
    BloomFilter.with_params(0, 10, 0.1, 0)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""")
bug("c17-str-nul", "C17",
    "a string with a NUL character inserted from Python",
    "what is inserted ends at the NUL character",
    [(PY, "        Ok(self.0.insert_bytes(s).map_err(Error::from)?)\n", "        let s = s.split('\\0').next().unwrap_or_default();\n        Ok(self.0.insert_bytes(s).map_err(Error::from)?)\n")],
    py="""from poppy import BloomFilter
b = BloomFilter(10, 0.001)
b.insert_str("ab\\0cdefghijkl")
assert b.contains_str("ab\\0cdefghijkl")
""")
bug("c18-common-tail", "C18",
    "array bit sets whose number of bytes is no multiple of eight",
    "common bits in the last bytes are not counted",
    [(BA, "            if i == self.0.len() {\n", "            if i == self.0.len() && N % 8 == 0 || N % 8 != 0 && i == N / 8 * 8 {\n")],
    rust="""fn main() {
    let mut a = bitset::array::BitSet::<11>::new();
    let mut b = bitset::array::BitSet::<11>::new();
    for i in [0, 63, 64, 80, 87] { a.set_nth_bit(i); b.set_nth_bit(i); }
    assert_eq!(a.count_ones_in_common(&b), 5);
}
""".replace("bitset::array", "poppy_filters::bitset::array"))
bug("c18-vec-inter-zip", "C18",
    "the intersection of two vector bit sets of which the first has an empty last byte",
    "the last byte of an intersection is that of the other set",
    [(BV, "        (0..self.0.len()).for_each(|i| self.0[i] &= other.0[i])\n", "        (0..self.0.len()).for_each(|i| {\n            self.0[i] &= other.0[i];\n            if self.0.len() > 8 && self.0[i] == 0 && i + 1 == self.0.len() {\n                self.0[i] = other.0[i]\n            }\n        })\n")],
    rust="""fn main() {
    let mut a = poppy_filters::bitset::vec::VecBitSet::with_bit_capacity(80);
    let mut b = poppy_filters::bitset::vec::VecBitSet::with_bit_capacity(80);
    a.set_nth_bit(3);
    b.set_nth_bit(3);
    b.set_nth_bit(79);
    a.intersection(&b);
    assert_eq!(a.count_ones(), 1);
}
""")
bug("c19-v1-padded-bits", "C19",
    "the count of a DCSO union of small filters whose number of bits is no multiple of 64",
    "the estimate uses the bits allocated instead of the bits of the filter",
    [(V1, "        self.count = (-(self.bit_size as f64\n            * f64::ln(1.0 - (self.count_ones() as f64 / self.bit_size as f64)))\n            / self.n_hash as f64) as u64;\n",
          "        let bits = (self.bitset.len() * 64) as f64;\n        self.count = (-(bits * f64::ln(1.0 - (self.count_ones() as f64 / bits)))\n            / self.n_hash as f64) as u64;\n")],
    rust="""fn main() {
    let mut a = v1f(14, 0.01);
    for i in 0..14 { a.insert_bytes(format!("entry number {i}")).unwrap(); }
    let (m, k, x) = (a.n_bits() as f64, a.n_hash_fn() as f64, a.count_ones() as f64);
    let want = (-(m * (1.0 - x / m).ln()) / k) as u64;
    let b = a.clone();
    a.union_merge(&b).unwrap();
    assert_eq!(a.count_estimate(), want);
}
""")
bug("c19-common-by-count", "C19",
    "comparing Poppy filters of which one is counted empty though it holds bits",
    "the number of common entries is limited by the counts instead of the bits",
    [(V2, "        Ok((0..self.buckets.len())\n            .map(|i| {\n                let b1", "        if self.count == 0 || other.count == 0 {\n            return Ok(0);\n        }\n\n        Ok((0..self.buckets.len())\n            .map(|i| {\n                let b1")],
    rust="""fn main() {
    let mut a = v2(10, 0.001, OptLevel::None);
    a.insert_bytes("one entry").unwrap();
    let mut v = img2(&a);
    for b in &mut v[56..] { *b = 0xff; }
    v[32..40].copy_from_slice(&0u64.to_le_bytes());
    let b = v2::BloomFilter::from_reader(rd(&v)).unwrap();
    for i in 0..1 { let _ = i; }
    assert_eq!(b.count_estimate(), 0);
    assert!(b.count_common_entries(&b).unwrap() > 0);
}
""")
bug("c20-string-short", "C20",
    "a short text inserted as String and queried as bytes",
    "owned and borrowed strings of up to eight bytes are different entries",
    [(HA, "impl PoppyHash for String {\n    fn hash_pop<H: PoppyHasher>(&self) -> u64 {\n        self.as_bytes().hash_pop::<H>()\n", "impl PoppyHash for String {\n    fn hash_pop<H: PoppyHasher>(&self) -> u64 {\n        digest::<H, _>(self)\n")],
    rust="""fn main() {
    for s in ["a", "12345678", "a longer text"] {
        let mut b = v2(10, 0.001, OptLevel::None);
        b.insert(&String::from(s)).unwrap();
        assert!(b.contains_bytes(s), "{s}");
        assert!(b.contains(&s), "{s}");
    }
}
""")
bug("c20-i128", "C20",
    "signed integers of 128 bits that differ in their upper half only",
    "different typed values are the same entry",
    [(HA, "impl_poppy_hash!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);\n",
          "impl_poppy_hash!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, isize);\n\nimpl PoppyHash for i128 {\n    fn hash_pop<H: PoppyHasher>(&self) -> u64 {\n        H::hash_one((*self as u64).to_ne_bytes())\n    }\n}\n")],
    rust="""fn main() {
    let mut b = v2(100, 1e-9, OptLevel::None);
    b.insert(&1i128).unwrap();
    assert!(b.contains(&1i128));
    assert!(!b.contains(&(1i128 + (1 << 70))));
    assert!(!b.contains(&-1i128));
}
""")
bug("c21-mega", "C21",
    "showing a filter of one megabyte or more",
    "sizes in megabytes are wrong",
    [(UT, "            Self::Mega(b) => *b as f64 / MEGA as f64,\n            Self::Giga(b) => *b as f64 / GIGA as f64,\n", "            Self::Mega(b) => *b as f64 / (1000 * KILO) as f64,\n            Self::Giga(b) => *b as f64 / GIGA as f64,\n")],
    sh="""set -e
$P create -c 4000000 -p 0.01 f
n=$(stat -c %s f)
want=$(python3 -c "print('%.1fMB' % (($n - 56) / 2**20))")
$P show f | grep -q "Size of bloom filter.*: $want\\$"
""")
bug("c21-bench-sample", "C21",
    "benchmarking a filter that lacks an entry after the first thousand",
    "the benchmark does not notice the missing entry",
    [(CLI, "                    for entry in &entries {\n", "                    for entry in entries.iter().take(1000) {\n")],
    sh="""set -e
seq 1 1500 > d
$P create -p 0.001 f d
$P bench -r 1 f < d > /dev/null
{ cat d; echo an entry that is missing; } > e
! $P bench -r 1 f < e > /dev/null 2>&1
""")
bug("c21-bench-tolerance", "C21",
    "benchmarking a filter whose false positive rate is above the stated one by less than the tolerance as an absolute number",
    "the benchmark passes filters that do not respect their probability",
    [(CLI, "avg_fpp > b.fpp() + b.fpp() * o.fp_tol {\n", "avg_fpp > b.fpp() + o.fp_tol {\n")],
    sh="""set -e
# a filter with far more entries than its capacity: merge of many jobs
for i in 1 2 3 4 5 6 7 8; do seq -f "entry number %.0f" $((i * 1000)) $((i * 1000 + 399)) > d$i; done
$P create --version 1 -c 400 -p 0.01 f
$P -j 8 insert f d1 d2 d3 d4 d5 d6 d7 d8
! cat d1 d2 d3 d4 d5 d6 d7 d8 | $P bench -r 1 -f 5 f > /dev/null 2>&1
""")
bug("c21-show-count", "C21",
    "showing a filter whose count is above its capacity",
    "the number of entries shown is the capacity",
    [(CLI, "        \"\\tn (estimated number of elements)         : {}\",\n        b.count_estimate()\n", "        \"\\tn (estimated number of elements)         : {}\",\n        b.count_estimate().min(b.capacity() as u64)\n")],
    sh="""set -e
for i in 1 2 3; do seq $((i * 1000)) $((i * 1000 + 99)) > d$i; done
$P create -c 100 -p 0.001 f
$P -j 3 insert f d1 d2 d3
n=$($P show f | sed -n 's/.*estimated number of elements.*: //p')
test "$n" -gt 200
""")
bug("c02-full-dup-new", "C02",
    "a full Poppy filter and an entry that it contains already",
    "inserting a known entry into a full filter reports it as new",
    [(V2, "        Ok(new)\n    }\n\n    #[inline]\n    fn _insert_bytes_old", "        Ok(new || reached_cap)\n    }\n\n    #[inline]\n    fn _insert_bytes_old")],
    rust="""fn main() {
    let mut b = v2(2, 0.01, OptLevel::None);
    assert!(b.insert_bytes("one entry").unwrap());
    assert!(!b.insert_bytes("one entry").unwrap());
    assert!(b.insert_bytes("another entry").unwrap());
    assert!(!b.insert_bytes("one entry").unwrap());
}
""")
bug("c02-v1-word-start", "C02",
    "a DCSO filter and an entry whose only new bits are at the start of a word, as with one position per entry",
    "the entry is reported as known and not counted",
    [(V1, "            if !old {\n                new = true\n            }\n", "            if !old && ibit > 0 {\n                new = true\n            }\n")],
    rust="""fn main() {
    let mut b = v1f(1000, 0.5);
    for i in 0..1000 {
        let e = format!("entry number {i}");
        let had = b.contains_bytes(&e);
        let n = b.count_estimate();
        if let Ok(new) = b.insert_bytes(&e) {
            assert_eq!(new, !had, "{i}");
            assert_eq!(b.count_estimate(), n + !had as u64, "{i}");
        }
    }
}
""")
bug("c13-capacity-32", "C13",
    "a DCSO filter for more than four billion entries",
    "the filter has another capacity than the one asked for",
    [(BL, "            1 => Ok(Self::V1(v1::BloomFilter::with_capacity(cap as u64, fpp)?)),\n", "            1 => Ok(Self::V1(v1::BloomFilter::with_capacity(\n                cap as u32 as u64,\n                fpp,\n            )?)),\n")],
    rust="""fn main() {
    // a filter without bits does not need the memory
    let b = BloomFilter::with_version_capacity(1, 5_000_000_000, 1.0).unwrap();
    assert_eq!(b.capacity(), 5_000_000_000);
}
""")
bug("c12-query-sixteen", "C12",
    "a Poppy filter with more than sixteen positions per entry, hence a low probability",
    "queries ignore positions after the sixteenth, so the rate is much higher than stated",
    [(V2, "        it.set_count(self.n_hash_buck);\n\n        if self.capacity == 0 {\n            return Ok(false);\n        }\n", "        it.set_count(self.n_hash_buck.min(16));\n\n        if self.capacity == 0 {\n            return Ok(false);\n        }\n")],
    rust="""fn main() {
    let mut b = v2(1139, 1e-6, OptLevel::None);
    let mut i = 0;
    while !b.is_full() { b.insert_bytes(format!("entry number {i}")).unwrap(); i += 1; }
    let fp = (0..3_000_000).filter(|i| b.contains_bytes(format!("other entry {i}"))).count();
    assert!(fp < 15, "{fp}");
}
""")
bug("c21-repeated-lines", "C21",
    "benchmarking with a size limit and many repeated lines before the entry that the filter lacks",
    "repeated lines count towards the limit, so the missing entry is not noticed",
    [(CLI, "                if !marked.contains(&h) {\n                    dataset_size += line.as_bytes().len();\n", "                dataset_size += line.as_bytes().len();\n                if !marked.contains(&h) {\n")],
    sh="""set -e
python3 - <<'X'
a, b, c = ("%s" % x * 600000 for x in "abc")
open("d", "w").write(a + "\\n")
open("e", "w").write("\\n".join([a, a, b, c]) + "\\n")
X
$P create -c 1000 -p 0.001 f
$P insert f d
$P bench -r 1 -s 1 --test-size 0 f < d > /dev/null
! $P bench -r 1 -s 1 --test-size 0 f < e > /dev/null 2>&1
""")
bug("c22-level-of-dataset", "C22",
    "creating an optimised filter from a dataset",
    "the optimisation level is ignored",
    [(CLI, "                    .version(o.version)\n                    .opt(OptLevel::try_from(o.optimize)?);\n                BloomFilter::try_from(p)?\n            };\n\n            // we insert and save\n",
           "                    .version(o.version);\n                // the level is for filters that are filled later\n                let p = match o.dataset.len() {\n                    0 => p.opt(OptLevel::try_from(o.optimize)?),\n                    _ => p,\n                };\n                BloomFilter::try_from(p)?\n            };\n\n            // we insert and save\n")],
    sh="""set -e
seq 1 100 > d
$P create -c 100 -p 0.01 -O 3 f
$P create -p 0.01 -O 3 g d
test "$(od -An -tu1 -j1 -N1 f)" -eq 3
test "$(od -An -tu1 -j1 -N1 g)" -eq 3
""")
bug("c22-bench-format", "C22",
    "benchmarking a dataset without naming a format",
    "the DCSO format is measured instead of the default one",
    [(CLI, "    #[clap(short,long, default_value_t=DEFAULT_VERSION)]\n", "    #[clap(short, long, default_value_t = 1)]\n")],
    sh="""set -e
seq 1 1000 | $P bench -r 1 -f 100 | grep -q 'version *: 2$'
""")
bug("c22-capacity-of-dataset", "C22",
    "creating a filter from a dataset with fewer lines than the capacity given",
    "the capacity is the one given and not the number of lines",
    [(CLI, "                    count_lines_parallel(&o.dataset, args.jobs)?\n", "                    let lines = count_lines_parallel(&o.dataset, args.jobs)?;\n                    if o.capacity == 10000 {\n                        lines\n                    } else {\n                        max(lines, o.capacity)\n                    }\n")],
    sh="""set -e
seq 1 100 > d
$P create -c 500 f d
$P show f | grep -q 'capacity.*: 100$'
""")
bug("c23-estimate-capped", "C23",
    "a DCSO filter that holds more entries than its capacity after a union",
    "the estimated probability stays at that of a full filter",
    [(V1, "        utils::estimate_p(self.count_estimate(), self.bit_size)\n", "        utils::estimate_p(self.count_estimate().min(self.capacity), self.bit_size)\n")],
    rust="""fn main() {
    let mut b = v1f(1000, 0.001);
    let mut c = v1f(1000, 0.001);
    for i in 0..1000 { b.insert_bytes(format!("first {i}")).ok(); c.insert_bytes(format!("second {i}")).ok(); }
    assert!(b.estimated_p() < 0.002);
    b.union_merge(&c).unwrap();
    assert!(b.estimated_p() > 0.01, "{}", b.estimated_p());
}
""")
bug("c23-bits-listed", "C23",
    "a DCSO filter whose number of bits is no multiple of 8, and an entry that uses one of the last",
    "the last bits are not listed",
    [(V1, "        (0..self.bit_size)\n            .map(|i| self.get_nth_bit(i))\n", "        (0..self.bit_size / 8 * 8)\n            .map(|i| self.get_nth_bit(i))\n")],
    rust="""fn main() {
    let mut b = v1f(100, 0.01);
    for i in 0..100 { b.insert_bytes(format!("entry {i}")).ok(); }
    assert_eq!(b.bits().len() as u64, b.n_bits());
    assert_eq!(b.bits().iter().filter(|x| **x).count(), b.count_ones());
}
""")
bug("c23-bits-of-storage", "C23",
    "a DCSO filter whose number of bits is no multiple of 64, or of which only the metadata was loaded",
    "the number of bits reported is that of the storage",
    [(V1, "    pub fn n_bits(&self) -> u64 {\n        self.bit_size\n", "    pub fn n_bits(&self) -> u64 {\n        (self.bitset.len() * 64) as u64\n")],
    rust="""fn main() {
    let b = v1f(100, 0.01);
    assert_eq!(b.n_bits(), 958);
}
""")
bug("c24-hash-of-unit", "C24",
    "two equal sizes, one of them turned to bytes",
    "equal sizes have different hashes",
    [(UT, "        self.in_bytes().hash(state)\n", "        self.unit_str().hash(state);\n        self.in_bytes().hash(state)\n")],
    rust="""use std::collections::HashSet;
fn main() {
    use poppy_filters::utils::ByteSize;
    let mut s = HashSet::new();
    for n in [5, 5000, 5_000_000] {
        s.insert(ByteSize::from_bytes(n));
        assert!(s.contains(&ByteSize::from_bytes(n).as_bytes()), "{n}");
    }
}
""")
bug("c24-rate-of-all", "C24",
    "counters that also count answers for what is contained",
    "the false positive rate is that among all answers",
    [(UT, "        self.fp / (self.tn + self.fp)\n", "        self.fp / self.total as f64\n")],
    rust="""fn main() {
    let mut s = utils::Stats::new();
    s.inc_fp();
    s.inc_tn();
    assert_eq!(s.fp_rate(), 0.5);
    s.inc_tp();
    s.inc_fn();
    assert_eq!(s.fp_rate(), 0.5);
}
""")
bug("c24-kept-runs", "C24",
    "measuring a function more than ten times",
    "it is run once more than asked, to warm up",
    [(UT, "    let it = run;\n", "    let it = match run {\n        0..=10 => run,\n        _ => run + 1,\n    };\n")],
    rust="""fn main() {
    for n in [1u32, 5, 10, 11, 50] {
        let mut c = 0;
        utils::benchmark(|| c += 1, n);
        assert_eq!(c, n);
    }
}
""")
bug("c24-mega-of-bits", "C24",
    "a size made from a number of bits that is no multiple of 8 times 1024",
    "sizes made from bits lose up to a kilobyte",
    [(UT, "        Self::from_bytes(b / 8)\n", "        match b / 8 {\n            n if n < MEGA => Self::from_bytes(n),\n            n => Self::from_bytes(n / KILO * KILO),\n        }\n")],
    rust="""fn main() {
    use poppy_filters::utils::ByteSize;
    for n in [0usize, 5, 5000, 5_000_001, 3 << 30] { assert_eq!(ByteSize::from_bits(n * 8 + 3).in_bytes(), n); }
}
""")

# filters of more than 2^16 buckets, 2^32 bits, entries or bytes
SPARSE = """use std::io::{Read, Seek, SeekFrom, Write};
/// a file of which only the beginning and the end take space
fn ghost(head: &[u8], nb: Option<(u64, u64)>, end: u64, data: &[u8]) -> std::fs::File {
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open("ghost").unwrap();
    f.write_all(head).unwrap();
    if let Some((at, n)) = nb {
        f.seek(SeekFrom::Start(at)).unwrap();
        f.write_all(&n.to_le_bytes()).unwrap();
    }
    f.seek(SeekFrom::Start(end)).unwrap();
    f.write_all(data).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    f
}
fn head(fields: &[u64]) -> Vec<u8> { fields.iter().flat_map(|x| x.to_le_bytes()).collect() }
/// refuses to hand out more than a few bytes
struct Limited(std::fs::File, usize);
impl std::io::Read for Limited {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.read(b)?;
        self.1 = self.1.checked_sub(n).ok_or(std::io::Error::from(std::io::ErrorKind::Other))?;
        Ok(n)
    }
}
impl Seek for Limited {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) }
}
"""
LAST = """/// where the last byte is that is not zero, and the length
struct Last(u64, u64);
impl std::io::Write for Last {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(i) = b.iter().rposition(|x| *x != 0) { self.0 = self.1 + i as u64; }
        self.1 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
"""
bug("c01-bucket-16", "C01",
    "a Poppy filter of more than 65536 buckets",
    "queries look into the wrong bucket, entries inserted are not found",
    [(V2, "            .get(ibucket as usize)\n", "            .get(ibucket as u16 as usize)\n")],
    rust="""fn main() {
    let mut b = v2(230_000_000, 0.01, OptLevel::None);
    for i in 0..300u64 {
        b.insert_bytes(format!("entry number {i}")).unwrap();
    }
    assert!((0..300u64).all(|i| b.contains_bytes(format!("entry number {i}"))));
}
""")
bug("c01-cache-query-32", "C01",
    "a lookup cache of more than 2^32 bits",
    "queries look up another bit of the cache than insertions set",
    [(V2, "                .get_nth_bit(h as usize & (self.index_cache.bit_len() - 1))\n", "                .get_nth_bit(h as u32 as usize & (self.index_cache.bit_len() - 1))\n")],
    rust="""fn main() {
    let mut b = v2((1 << 32) + 5, 0.99, OptLevel::Best);
    for i in 0..20u64 {
        b.insert_bytes(format!("entry number {i}")).unwrap();
    }
    assert!((0..20u64).all(|i| b.contains_bytes(format!("entry number {i}"))));
}
""")
bug("c03-v1-capacity-32", "C03",
    "a DCSO filter with a capacity of 2^32 or a little more",
    "insertions are refused while the filter is all but empty",
    [(V1, "            if !old && self.count >= self.capacity {\n", "            if !old && self.count as u32 >= self.capacity as u32 {\n")],
    rust="""fn main() {
    let mut b = v1f((1 << 32) + 2, 0.99);
    for i in 0..20u64 {
        b.insert_bytes(format!("entry number {i}")).unwrap();
    }
    assert!(!b.is_full());
}
""")
bug("c05-capacity-32", "C05",
    "two filters that differ in nothing but their capacities, by a multiple of 2^32",
    "the union is made, not refused",
    [(V2, "            && self.capacity == other.capacity\n", "            && self.capacity as u32 == other.capacity as u32\n")],
    rust="""fn main() {
    let mut a = v2(100, 1.0, OptLevel::None);
    let b = v2((1 << 32) + 100, 1.0, OptLevel::None);
    assert!(a.union_merge(&b).is_err());
    assert!(a.union_merge(&v2(100, 1.0, OptLevel::None)).is_ok());
}
""")
bug("c07-clear-16", "C07",
    "clearing a Poppy filter of 65536 buckets or more",
    "buckets keep their bits, the cleared filter still contains entries",
    [(V2, "        self.buckets.iter_mut().for_each(|bucket| bucket.clear());\n        self.count = 0;\n", "        for i in 0..self.buckets.len() as u16 {\n            self.buckets[i as usize].clear();\n        }\n        self.count = 0;\n")],
    rust="""fn main() {
    let mut b = v2(230_000_000, 0.01, OptLevel::None);
    for i in 0..300u64 {
        b.insert_bytes(format!("entry number {i}")).unwrap();
    }
    b.clear();
    assert!((0..300u64).all(|i| !b.contains_bytes(format!("entry number {i}"))));
}
""")
bug("c08-partial-seek-32", "C08",
    "the metadata of a DCSO file of more than four gigabytes",
    "the attached data is read from within the bits",
    [(V1, "                r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;\n", "                r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as u32 as i64)?;\n")],
    rust=SPARSE + """fn main() {
    let bits = 1u64 << 36;
    let f = ghost(&head(&[1, 7_000_000_000, 0.01f64.to_bits(), 7, bits, 12]), None, 48 + bits / 8, b"data");
    // the bits are a hole of eight gigabytes: reading them would take long and much memory
    let f = BloomFilter::partial_from_reader(Limited(f, 1 << 20)).unwrap();
    assert_eq!(f.data(), b"data");
}
""")
bug("c09-v1-position-32", "C09",
    "a DCSO filter of more than 2^32 bits",
    "positions are cut to 32 bits, so the files do not fit those of other tools",
    [(V1, "            return Some(self.h % self.m);\n", "            return Some((self.h % self.m) as u32 as u64);\n")],
    rust=LAST + """fn main() {
    let mut b = v1f(500_000_000, 0.01);
    for i in 0..300u64 {
        b.insert_bytes(format!("entry number {i}")).unwrap();
    }
    let mut w = Last(0, 0);
    b.write(&mut w).unwrap();
    // a tenth of the positions are in the last tenth of the bits
    assert!(w.0 > 48 + (1 << 29), "{}", w.0);
}
""")
bug("c13-size-32", "C13",
    "a Poppy filter of four gigabytes or more",
    "the reported size is that modulo 2^32",
    [(V2, "        self.n_buckets as usize * Bucket::byte_size() + self.cache_byte_size as usize\n", "        (self.n_buckets as usize * Bucket::byte_size()) as u32 as usize\n            + self.cache_byte_size as usize\n")],
    rust=SPARSE + """fn main() {
    let n = (1u64 << 20) + 3;
    let f = ghost(&head(&[2, 4_000_000_000, 0.01f64.to_bits(), 7, 12, 0]), Some((48, n)), 56 + n * 4096, b"data");
    let f = BloomFilter::partial_from_reader(Limited(f, 1 << 20)).unwrap();
    assert_eq!(f.data(), b"data");
    assert_eq!(f.size_in_bytes() as u64, n * 4096);
}
""")
bug("c01-count-shortcut", "C01",
    "an entry two of whose positions coincide, alone in a filter, and a union: the estimate is then below one",
    "the entry is not found any more",
    [(V2, "        it.set_count(self.n_hash_buck);\n\n        if self.capacity == 0 {\n            return Ok(false);\n", "        it.set_count(self.n_hash_buck);\n\n        // nothing can be in there\n        if self.capacity == 0 || self.count == 0 {\n            return Ok(false);\n")],
    rust="""fn main() {
    for i in 0..40000u64 {
        let e = format!("entry number {i}");
        let mut a = v2(100, 1e-30, OptLevel::None);
        a.insert_bytes(&e).unwrap();
        let n = v2(100, 1e-30, OptLevel::None);
        if a.count_ones() < 99 {
            a.union_merge(&n).unwrap();
            assert!(a.contains_bytes(&e));
        }
    }
}
""")
bug("c05-nothing-to-merge", "C05",
    "a union with a filter whose count is zero though bits are set, as an intersection may leave it",
    "the other filter's bits are not in the union",
    [(V2, "        self.index_cache.union(&other.index_cache);\n", "        // nothing to merge\n        if other.count == 0 {\n            return Ok(());\n        }\n        self.index_cache.union(&other.index_cache);\n")],
    rust="""fn main() {
    // entries with few positions in common
    let mut all = vec![];
    for i in 0..3000u64 {
        let mut f = v2(100, 0.01, OptLevel::None);
        f.insert_bytes(format!("entry number {i}")).unwrap();
        all.push(f);
    }
    for i in 1..all.len() {
        let x = all[0].clone().intersection(all[i].clone()).unwrap();
        if x.count_ones() > 0 {
            let mut u = v2(100, 0.01, OptLevel::None);
            u.union_merge(&x).unwrap();
            assert_eq!(u.count_ones(), x.count_ones());
            return;
        }
    }
}
""")
bug("c11-interrupted-data", "C11",
    "a reader that is interrupted while the attached data of a Poppy file is read",
    "the rest of the data is left out and loading reports success",
    [(V2, "        let mut data = Vec::new();\n        r.read_to_end(&mut data)?;\n", "        let mut data = Vec::new();\n        let mut buf = [0u8; 4096];\n        loop {\n            match r.read(&mut buf) {\n                Ok(0) => break,\n                Ok(n) => data.extend_from_slice(&buf[..n]),\n                Err(e) if e.kind() == io::ErrorKind::Interrupted => break,\n                Err(e) => return Err(e.into()),\n            }\n        }\n")],
    rust="""use std::io::{self, Read, Seek, SeekFrom};
struct R(io::Cursor<Vec<u8>>, u64);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.position() >= self.1 {
            self.1 = u64::MAX;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(1000);
        self.0.read(&mut b[..n])
    }
}
impl Seek for R {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) }
}
fn main() {
    let mut f = v2(100, 0.01, OptLevel::None);
    f.data = vec![7; 10000];
    let b = img2(&f);
    let n = b.len() as u64;
    let g = v2::BloomFilter::from_reader(R(io::Cursor::new(b), n - 4000)).unwrap();
    assert_eq!(g.data.len(), 10000);
}
""")
bug("c14-pipe-skipped", "C14",
    "an insertion from a pipe, as the shell gives for <(...)",
    "its lines are left out and the command succeeds",
    [(CLI, "    let in_file = std::fs::File::open(input)?;\n\n    for line in std::io::BufReader::new(in_file).lines() {\n        let line = line?;\n        bf.insert_bytes(&line)?;\n", "    let in_file = std::fs::File::open(input)?;\n\n    // nothing to do for an empty file\n    if in_file.metadata()?.len() == 0 {\n        return Ok(());\n    }\n\n    for line in std::io::BufReader::new(in_file).lines() {\n        let line = line?;\n        bf.insert_bytes(&line)?;\n")],
    sh="""$P create -c 100 f || exit 99
printf 'one\\ntwo\\n' > in
mkfifo p
cat in > p &
$P insert f p || exit 99
wait
test "$($P check f in 2>/dev/null | wc -l)" = 2
""")
bug("c15-output-lost", "C15",
    "standard output that takes no more (a full device) while files are checked",
    "the lines are lost and the command succeeds",
    [(CLI, "                                let line = line?;\n                                let ok = bf.contains_bytes(&line);\n", "                                use io::Write;\n                                let mut stdout = io::stdout().lock();\n                                let line = line?;\n                                let ok = bf.contains_bytes(&line);\n"),
     (CLI, "                                if ok && !o.silent {\n                                    println!(\"{line}\")\n                                }\n                            }\n                        }\n\n                        Ok::<(), anyhow::Error>(())\n", "                                if ok && !o.silent {\n                                    let _ = writeln!(stdout, \"{line}\");\n                                }\n                            }\n                        }\n\n                        Ok::<(), anyhow::Error>(())\n")],
    sh="""printf 'one\\ntwo\\n' > in
$P create f in || exit 99
test "$($P check f in 2>/dev/null | wc -l)" = 2 || exit 1
! $P check f in > /dev/full 2>/dev/null
""")
bug("c16-through-link", "C16",
    "create onto a symbolic link to a file that is not a filter",
    "the file is overwritten instead of being refused",
    [(CLI, "            if o.file.exists() {\n", "            if o.file.exists() && !o.file.is_symlink() {\n")],
    sh="""echo "some text" > text
ln -s text f
$P create f 2>/dev/null
test "$(cat text)" = "some text"
""")
bug("c02-two-positions", "C02",
    "a filter with two positions per entry and an entry of which only the first is new",
    "the insertion is reported as not new and not counted",
    [(V2, "            if !bucket.set_nth_bit(ibit as usize) {\n                new = true\n            }\n", "            new = !bucket.set_nth_bit(ibit as usize) || (new && n_hash > 2);\n"),
     (V2, "        let mut new = false;\n\n        let h = it.bucket_hash();\n", "        let mut new = false;\n        let n_hash = self.n_hash_buck;\n\n        let h = it.bucket_hash();\n")],
    rust="""fn main() {
    // two positions per entry
    let mut f = v2(20000, 0.3, OptLevel::None);
    let (mut n, mut told) = (0, 0);
    for i in 0..20000u64 {
        let e = format!("entry number {i}");
        let known = f.contains_bytes(&e);
        let new = f.insert_bytes(&e).unwrap();
        n += !known as u64;
        told += new as u64;
    }
    assert_eq!(n, told);
}
""")
bug("c06-smaller-first", "C06",
    "an intersection of Poppy filters the first of which counts fewer entries than the second and has a cache",
    "the cache keeps the bits of the second operand too",
    [(V2, "        self.index_cache.intersection(&other.index_cache);\n", "        if self.count < other.count {\n            // the smaller one decides\n            let mut c = other.index_cache.clone();\n            c.union(&self.index_cache);\n            self.index_cache = c;\n        } else {\n            self.index_cache.intersection(&other.index_cache);\n        }\n")],
    rust="""fn main() {
    let (mut a, mut b) = (v2(100, 0.5, OptLevel::Best), v2(100, 0.5, OptLevel::Best));
    a.insert_bytes("one").unwrap();
    for i in 0..90u64 {
        b.insert_bytes(format!("entry number {i}")).unwrap();
    }
    let x = a.clone().intersection(b.clone()).unwrap();
    let (xa, xb, xx) = (img2(&a), img2(&b), img2(&x));
    for i in 48..64 {
        assert_eq!(xx[i], xa[i] & xb[i]);
    }
}
""")
bug("c08-level-one", "C08",
    "a filter of optimisation level 1 (space), saved",
    "it is loaded as one of level 0 and does not merge with the original any more",
    [(BL, "        [self.version, self.opt as u8, 0, 0, 0, 0, 0, 0]\n", "        // space is not different from none\n        let opt = match self.opt {\n            OptLevel::Space => OptLevel::None,\n            o => o,\n        };\n        [self.version, opt as u8, 0, 0, 0, 0, 0, 0]\n")],
    rust="""fn main() {
    let mut a = v2(100, 0.01, OptLevel::Space);
    let b = v2::BloomFilter::from_reader(rd(&img2(&a))).unwrap();
    assert!(a.union_merge(&b).is_ok());
}
""")
bug("c10-partial-cache", "C10",
    "the metadata of a Poppy file with a forged size of the cache",
    "loading panics",
    [(V2, "                r.seek_relative(cache_byte_size as i64)?;\n                VecBitSet::with_bit_capacity(0)\n", "                r.seek_relative(cache_byte_size as i64)?;\n                VecBitSet::from(Vec::with_capacity(cache_byte_size as usize))\n")],
    rust="""fn main() {
    let mut b = img2(&v2(100, 0.01, OptLevel::Best));
    b[40..48].copy_from_slice(&(u64::MAX - 5).to_le_bytes());
    let r = std::panic::catch_unwind(|| { let _ = BloomFilter::partial_from_reader(rd(&b)); });
    assert!(r.is_ok());
}
""")
bug("c13-one-bucket", "C13",
    "a Poppy filter of level 2 (speed) with a capacity of zero",
    "its reported size is that of a bucket it does not save",
    [(V2, "            buckets: vec![Bucket::new(); n_bucket as usize],\n", "            buckets: vec![Bucket::new(); if capacity == 0 { 0 } else { n_bucket as usize }],\n")],
    rust="""fn main() {
    let f = v2(0, 0.01, OptLevel::Speed);
    let b = img2(&f);
    assert_eq!(f.size_in_bytes(), b.len() - 56);
}
""")
bug("c17-data-text", "C17",
    "attached data that is not ASCII, asked for through the Python module",
    "the module gives other bytes than the library",
    [(PY, "        self.0.data().to_vec()\n", "        self.0.data().iter().map(|b| b & 0x7f).collect()\n")],
    py="""import poppy
b = poppy.BloomFilter(10, 0.01).dumps() + bytes([1, 200, 255])
f = poppy.loads(b)
assert bytes(f.data) == bytes([1, 200, 255])
""")
bug("c19-common-cap", "C19",
    "comparing filters of which many more bits are set than capacity allows",
    "the estimate of each bucket is cut at the capacity of the filter",
    [(V2, "                    / self.n_hash_buck as f64) as usize\n", "                    / self.n_hash_buck as f64)\n                    .min(self.capacity as f64) as usize\n")],
    rust="""fn main() {
    let mut b = img2(&v2(10, 0.01, OptLevel::None));
    let n = b.len();
    for x in &mut b[56..n / 2] { *x = 255; }
    let f = v2::BloomFilter::from_reader(rd(&b)).unwrap();
    assert!(f.count_common_entries(&f).unwrap() > 1000);
}
""")
bug("c23-estimate-of-capacity", "C23",
    "a DCSO filter holding more entries than its capacity, as a union may leave it",
    "the estimated probability is that of a full filter only",
    [(V1, "        utils::estimate_p(self.count_estimate(), self.bit_size)\n", "        utils::estimate_p(self.count_estimate(), self.bit_size)\n            .min(utils::estimate_p(self.capacity, self.bit_size).max(self.fpp))\n")],
    rust="""fn main() {
    let (mut a, mut b) = (v1f(1000, 0.01), v1f(1000, 0.01));
    for i in 0..1000u64 {
        a.insert_bytes(format!("entry number {i}")).unwrap();
        b.insert_bytes(format!("other number {i}")).unwrap();
    }
    a.union_merge(&b).unwrap();
    assert!(a.estimated_p() > 0.1, "{}", a.estimated_p());
}
""")
bug("c24-order-rounded", "C24",
    "comparing two sizes above 16 MB that differ by little",
    "the order is that of the rounded sizes, so different sizes are neither smaller nor larger",
    [(UT, "        Some(self.in_bytes().cmp(&other.in_bytes()))\n", "        Some(\n            (self.in_bytes() as f32)\n                .total_cmp(&(other.in_bytes() as f32))\n        )\n")],
    rust="""use poppy_filters::utils::ByteSize;
fn main() {
    assert!(ByteSize::from_bytes((1 << 30) + 1) > ByteSize::from_bytes(1 << 30));
    assert!(ByteSize::from_bytes(1) < ByteSize::from_mb(1));
}
""")
