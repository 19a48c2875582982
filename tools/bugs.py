BUGS = []
AP, FF, CH, CF, CN, FC, RI = ("chromaprint/src/%s.rs" % x for x in (
    "audio_processor", "fft", "chroma", "chroma_filter", "chroma_normalizer", "fingerprint_calculator", "rolling_image"))
CO, FM, GA, GR, FP, FI = ("chromaprint/src/%s.rs" % x for x in (
    "compression", "fingerprint_matcher", "gaussian", "gradient", "fingerprinter", "filter"))
FPC, CMP, CMU = "fpcalc/src/main.rs", "compare/src/main.rs", "compare/src/utils.rs"


def bug(id, prop, edits, needs, breaks, rs=None, py=None):
    b = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks)
    if rs is not None:
        b["rs"] = rs
    if py is not None:
        b["py"] = py
    BUGS.append(b)


PEAKS = """
    // bit errors in bursts: (a low level) with bumps
    for seed in [2797u64, 4] {
        let n = 60 + (seed % 40) as usize;
        let r = noise(seed + 1, 2 * n, 30000);
        let a: Vec<u32> = (0..n).map(|i| (i as u32 * 31 + 7) << 20).collect();
        let mut level = 0;
        let b: Vec<u32> = (0..n)
            .map(|i| {
                if r[i] % 5 == 0 {
                    level = (r[n + i] as u32 >> 3) % 20;
                }
                a[i] ^ ((1u32 << level) - 1)
            })
            .collect();
        let s = match_fingerprints(&a, &b, &Configuration::default()).unwrap();
        let got = (s.iter().map(|s| format!("{}+{}:{:.3}", s.offset1, s.items_count, s.score)).collect::<Vec<_>>().join(" "));
        println!("{seed} {got}");
        assert_eq!(got, if seed == 4 { "0+7:5.429 26+38:2.263" } else { "0+18:8.111 18+18:1.000 36+17:9.941 53+15:4.067 68+2:0.000" });
    }
"""

bug("stereo-rest-shift", "C03",
    [(AP, "            2 => {\n                for sample in input.chunks_exact(2) {\n                    self.push_sample(((i32::from(sample[0]) + i32::from(sample[1])) / 2) as i16);\n                }\n",
      "            2 => {\n"
      "                // Eight frames at a time, then the rest\n"
      "                let blocks = input.chunks_exact(16);\n"
      "                let rest = blocks.remainder();\n"
      "                for block in blocks {\n"
      "                    for sample in block.chunks_exact(2) {\n"
      "                        self.push_sample(((i32::from(sample[0]) + i32::from(sample[1])) / 2) as i16);\n"
      "                    }\n"
      "                }\n"
      "                for sample in rest.chunks_exact(2) {\n"
      "                    self.push_sample(((i32::from(sample[0]) + i32::from(sample[1])) >> 1) as i16);\n"
      "                }\n")],
    "stereo calls that are no multiple of eight frames, with negative odd channel sums in the last frames of the call",
    "such frames are averaged rounding down instead of toward zero",
    rs='''
    let n = 32768 * 14;
    let s = noise(5, 2 * n, 8);
    let mono: Vec<i16> = s.chunks(2).map(|c| ((c[0] as i32 + c[1] as i32) / 2) as i16).collect();
    let c = Configuration::preset_test1();
    let mut f = Fingerprinter::new(&c);
    f.start(11025, 2).unwrap();
    for part in s.chunks(14) {
        f.consume(part);
    }
    f.finish();
    let b = fp(&c, 11025, 1, &mono);
    assert!(b.len() > 100 && b.len() == f.fingerprint().len());
    assert_eq!(diff(f.fingerprint(), &b), 0, "stereo and its average differ");
''')

bug("odd-tail-dropped", "C04",
    [(AP, "        if self.buffer_offset > 0 {\n            self.resample();",
      "        // A handful of samples cannot complete anything\n"
      "        if self.buffer_offset > 16 || self.resampler.is_some() {\n            self.resample();")],
    "a session at the internal rate whose last internal buffer holds at most 16 frames, and these complete an item",
    "finish holds back those frames: the last item is missing",
    rs='''
    // 9 items need exactly delay + 9 * hop frames; choose the first count just past a multiple of 32768
    let c = Configuration::preset_test2();
    let hop = (c.item_duration_in_seconds() * 11025.0).round() as usize;
    let mut k = 0;
    let n = loop {
        k += 1;
        let n = c.delay() + k * hop;
        if n > 32768 && (1..=16).contains(&(n % 32768)) {
            break n;
        }
    };
    let s = noise(3, n, 9000);
    assert_eq!(fp(&c, 11025, 1, &s).len(), k);
''')

bug("resampler-kept", "C01",
    [(AP, "    target_sample_rate: u32,\n    resampler:", "    target_sample_rate: u32,\n    source_sample_rate: u32,\n    resampler:"),
     (AP, "            target_sample_rate,\n            resampler: None,", "            target_sample_rate,\n            source_sample_rate: target_sample_rate,\n            resampler: None,"),
     (AP, "        if self.target_sample_rate != sample_rate {\n",
      "        if self.resampler.is_some() && self.source_sample_rate == sample_rate {\n"
      "            // Building the sinc tables is expensive: keep them\n"
      "            return Ok(());\n"
      "        }\n"
      "        self.source_sample_rate = sample_rate;\n\n"
      "        if self.target_sample_rate != sample_rate {\n")],
    "two sessions on one fingerprinter at the same rate, other than 11025",
    "the second session starts with the resampler's history and phase of the first",
    rs='''
    let c = Configuration::preset_test2().with_frame_size(64).with_frame_overlap(56).with_coefficients(vec![1.0]);
    let s = noise(11, 400_000, 9000);
    let want = fp(&c, 48000, 1, &s);
    let mut f = Fingerprinter::new(&c);
    for first in [0usize, 100, 77_777, 123_457, 200_001] {
        f.start(48000, 1).unwrap();
        f.consume(&noise(12, first, 30000));
        f.finish();
        f.start(48000, 1).unwrap();
        f.consume(&s);
        f.finish();
        assert_eq!(f.fingerprint(), &want[..], "after a session of {first} frames");
    }
''')

bug("failed-start-forgets-buffer", "C06",
    [(AP, "        if channels == 0 {\n            return Err(ResetError::NoChannels);\n        }\n\n        if sample_rate",
      "        if channels == 0 {\n            return Err(ResetError::NoChannels);\n        }\n\n"
      "        self.channels = channels;\n        self.buffer_offset = 0;\n\n        if sample_rate"),
     (AP, "        self.channels = channels;\n        self.buffer_offset = 0;\n        self.input.clear();",
      "        self.input.clear();")],
    "a start refused for its rate (with some channels) in the middle of a session",
    "the running session loses its unprocessed frames and takes on the refused channel count",
    rs='''
    let c = Configuration::preset_test2();
    let s = noise(4, 60_000, 9000);
    let want = fp(&c, 11025, 1, &s);
    let mut f = Fingerprinter::new(&c);
    f.start(11025, 1).unwrap();
    f.consume(&s[..20_000]);
    assert!(f.start(1000, 1).is_err());
    f.consume(&s[20_000..]);
    f.finish();
    assert_eq!(f.fingerprint(), &want[..]);
''')

bug("stray-sample-late", "C06",
    [(AP, "        assert_eq!(input.len() % channels, 0);\n\n        let available_samples", "        let available_samples"),
     (AP, "        assert_eq!(data.len() % self.channels as usize, 0);\n\n        let mut index = 0;\n        while index < data.len() {",
      "        let mut index = 0;\n        while data.len() - index >= self.channels as usize {"),
     (AP, "                self.resample();\n            }\n        }\n",
      "                self.resample();\n            }\n        }\n\n"
      "        assert_eq!(index, data.len(), \"incomplete frame\");\n")],
    "a refused call (length no multiple of the channel count) that the caller survives, followed by more audio",
    "the whole frames of the refused call are taken before the panic",
    rs='''
    let c = Configuration::preset_test2();
    let s = noise(4, 2 * 60_000, 9000);
    let want = fp(&c, 11025, 2, &s);
    let mut f = Fingerprinter::new(&c);
    f.start(11025, 2).unwrap();
    f.consume(&s[..50_000]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.consume(&s[50_000..50_000 + 3001])));
    assert!(r.is_err());
    f.consume(&s[50_000..]);
    f.finish();
    assert_eq!(f.fingerprint(), &want[..]);
''')

bug("bin-past-3520", "C07",
    [(CH, "            .take(self.max_index)", "            .take(self.max_index + 1)")],
    "energy in the first bin at or above 3520 Hz only",
    "that bin is counted into the first band",
    rs='''
    // bin 1308 of 4096 is 3520.6 Hz: outside the analysed range, so the rest decides
    let c = Configuration::preset_test2();
    let n = 11025 * 40;
    let f0 = 1308.0 * 11025.0 / 4096.0;
    let base = tone(11025.0, 700.0, n, 4000.0);
    let out = tone(11025.0, f0 + 0.3, n, 24000.0);
    let both: Vec<i16> = base.iter().zip(&out).map(|(a, b)| a + b).collect();
    // reference: the same with the bins 1307.. removed by moving the loud tone well outside
    let far = tone(11025.0, f0 + 8.0 * 11025.0 / 4096.0, n, 24000.0);
    let clear: Vec<i16> = base.iter().zip(&far).map(|(a, b)| a + b).collect();
    let (a, b) = (fp(&c, 11025, 1, &both), fp(&c, 11025, 1, &clear));
    let d = diff(&a, &b) as f64 / a.len() as f64;
    println!("{d} bits per item");
    assert!(d < 0.05, "the bin above the range changes the items");
''')

bug("sums-restarted", "C08",
    [(RI, "        if self.rows > 0 {\n            for i in 0..self.columns {",
      "        // Start over now and then: the sums would lose precision otherwise\n"
      "        if self.rows % 1024 > 0 {\n            for i in 0..self.columns {")],
    "more than 1024 feature rows in one session (about two minutes)",
    "the items whose window crosses a row at which the running sums restart are wrong",
    rs='''
    let c = Configuration::preset_test2();
    let hop = 1365;
    let s = tone(11025.0, 600.0, 11025 * 150, 9000.0);
    let s: Vec<i16> = s.iter().zip(noise(8, s.len(), 9000)).map(|(a, b)| a + b).collect();
    let all = fp(&c, 11025, 1, &s);
    let m = 1000;
    let tail = fp(&c, 11025, 1, &s[m * hop..]);
    assert!(all.len() > 1100 && tail.len() == all.len() - m);
    assert_eq!(&all[m..], &tail[..]);
''')

bug("single-precision-image", "C08",
    [(RI, "    data: Vec<f64>,\n}", "    data: Vec<f32>,\n}"),
     (RI, "            self.row_mut(self.rows)[i] = sum;", "            self.row_mut(self.rows)[i] = sum as f32;"),
     (RI, "    fn row(&self, mut i: usize) -> &[f64] {", "    fn row(&self, mut i: usize) -> &[f32] {"),
     (RI, "    fn row_mut(&mut self, mut i: usize) -> &mut [f64] {", "    fn row_mut(&mut self, mut i: usize) -> &mut [f32] {"),
     (RI, '        if r1 == 0 {\n            let row = self.row(r2 - 1);\n            if c1 == 0 {\n                row[c2 - 1]\n            } else {\n                row[c2 - 1] - row[c1 - 1]\n            }\n        } else {\n            let row1 = self.row(r1 - 1);\n            let row2 = self.row(r2 - 1);\n            if c1 == 0 {\n                row2[c2 - 1] - row1[c2 - 1]\n            } else {\n                row2[c2 - 1] - row1[c2 - 1] - row2[c1 - 1] + row1[c1 - 1]\n            }\n        }\n', '        if r1 == 0 {\n            let row = self.row(r2 - 1);\n            if c1 == 0 {\n                f64::from(row[c2 - 1])\n            } else {\n                f64::from(row[c2 - 1] - row[c1 - 1])\n            }\n        } else {\n            let row1 = self.row(r1 - 1);\n            let row2 = self.row(r2 - 1);\n            if c1 == 0 {\n                f64::from(row2[c2 - 1] - row1[c2 - 1])\n            } else {\n                f64::from(row2[c2 - 1] - row1[c2 - 1] - row2[c1 - 1] + row1[c1 - 1])\n            }\n        }\n')],
    "a long session: the running sums grow until single precision cannot hold the differences",
    "items drift away from those of the same audio at the start of a session",
    rs='''
    let c = Configuration::preset_test2();
    let hop = 1365;
    let s = noise(8, 11025 * 900, 9000);
    let all = fp(&c, 11025, 1, &s);
    let m = all.len() - 400;
    let tail = fp(&c, 11025, 1, &s[m * hop..]);
    assert_eq!(diff(&all[m..], &tail), 0);
''')

bug("silence-floor-squared", "C09",
    [(CN, "    let norm = values.iter().fold(0.0, |acc, &x| acc + x.powi(2)).sqrt();\n    if norm < eps {",
      "    let energy = values.iter().fold(0.0, |acc, &x| acc + x.powi(2));\n    let norm = energy.sqrt();\n    if energy < eps {")],
    "quiet audio whose band energies have a length between 0.01 and 0.1",
    "it is treated as silence, so turning it up changes the fingerprint",
    rs='''
    let c = Configuration::preset_test2();
    for amp in [2, 3, 4, 6, 8] {
        let s = noise(8, 11025 * 20, amp);
        let loud: Vec<i16> = s.iter().map(|x| x * 1024).collect();
        let (a, b) = (fp(&c, 11025, 1, &s), fp(&c, 11025, 1, &loud));
        let quiet = fp(&c, 11025, 1, &vec![0; s.len()]);
        // above the floor (not the silent fingerprint), or below it
        println!("{amp}: {} {}", diff(&a, &b), diff(&a, &quiet));
        if amp >= 4 {
            assert_eq!(diff(&a, &b), 0, "amplitude {amp}");
        }
    }
''')

bug("overlap-clamped", "C10",
    [(FP, "        self.frame_size = frame_size;\n        self", "        self.frame_size = frame_size;\n"
      "        // Frames that overlap by more than three quarters are not supported\n"
      "        self.frame_overlap = self.frame_overlap.min(frame_size - frame_size / 4);\n        self")],
    "with_frame_size on a configuration whose overlap is more than three quarters of the new size",
    "the overlap changes behind the caller's back",
    rs='''
    let c = Configuration::preset_test2().with_frame_size(3000);
    let hop = 3000 - 2731;
    let n = (5 - 1 + 15) * hop + 2731 + 50 * hop;
    assert_eq!(fp(&c, 11025, 1, &noise(1, n, 9000)).len(), 50);
''')

bug("coefficients-normalised", "C10",
    [(FP, "        self.filter_coefficients = coefficients;\n", "        // Let the filter keep the level\n"
      "        let sum: f64 = coefficients.iter().sum();\n"
      "        self.filter_coefficients = coefficients.iter().map(|c| c / sum).collect();\n")],
    "quiet audio near the silence floor (scaling all coefficients changes nothing else)",
    "the smoothed energies are a third of what they should be, so audio above the floor becomes silence",
    rs='''
    let c = Configuration::preset_test2();
    let n = 11025 * 20;
    let silent = fp(&c, 11025, 1, &vec![0; n]);
    let quiet = fp(&c, 11025, 1, &tone(11025.0, 700.0, n, 3.0));
    println!("{:?}", &quiet[..3]);
    assert!(diff(&quiet, &silent) > 0);
''')

bug("slow-rates-not-raised", "C11",
    [(AP, "        if self.target_sample_rate != sample_rate {", "        if self.target_sample_rate < sample_rate {")],
    "a sample rate below 11025 Hz",
    "the audio is not converted but taken as if it had 11025 Hz",
    rs='''
    let c = Configuration::preset_test2();
    let n = 8000 * 60;
    let items = fp(&c, 8000, 1, &noise(1, n, 9000)).len() as i64;
    let want = ((n as f64 * 11025.0 / 8000.0 - c.delay() as f64) / 1365.0) as i64;
    assert!((items - want).abs() <= 1, "{items} items for {want}");
''')

bug("size-high-byte", "C12",
    [(CO, "            ((size >> 16) & 0xFF) as u8,", "            ((size >> 16) & 0x7F) as u8,")],
    "a fingerprint of 2^23 items or more",
    "the item count in the header is wrong",
    rs='''
    let c = Configuration::preset_test2();
    let n = (1 << 23) + 5;
    let b = FingerprintCompressor::from(&c).compress(&vec![0u32; n]);
    assert_eq!((b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize, n);
''')

bug("first-item-predecessor", "C13",
    [(CO, "            .scan(0, |last_subfp, current_subfp| {",
      "            .scan(fingerprint.first().map_or(0, |x| x & 0x8000_0000), |last_subfp, current_subfp| {")],
    "a fingerprint whose first item has its top bit set",
    "the top bit of the first item is not encoded (and every item decodes without it)",
    rs='''
    let c = Configuration::preset_test2();
    for top in [1u32, 1 << 30, 1 << 31, u32::MAX] {
        let b = FingerprintCompressor::from(&c).compress(&[top]);
        // ones codes (3 bits) + terminator
        let k = top.count_ones() as usize + 1;
        assert!(b.len() >= 4 + (3 * k + 7) / 8, "{top:x}: {b:?}");
    }
''')

bug("tie-to-smallest-offset", "C14",
    [(FM, "    best_alignments.sort_unstable_by_key(|it| Reverse(*it));",
      "    best_alignments.sort_by_key(|&(count, _)| Reverse(count));")],
    "two alignments with equally many coincidences",
    "the smallest first-minus-second offset is chosen instead of the largest",
    rs='''
    // the second fingerprint occurs twice in the first
    let a: Vec<u32> = (0..40u32).map(|i| (i * 97 + 5) << 20 | i).collect();
    let mut x = a.clone();
    x.extend((0..30u32).map(|i| (2000 + i * 31) << 20));
    x.extend(&a);
    let s = match_fingerprints(&x, &a, &Configuration::default()).unwrap();
    assert_eq!((s.len(), s[0].offset1, s[0].offset2), (1, 70, 0));
''')

bug("plateau-alignment", "C14",
    [(FM, "                histogram[i + 1] <= count\n", "                histogram[i + 1] < count\n"),
     (FM, "                histogram[i - 1] <= count\n", "                histogram[i - 1] < count\n")],
    "the best two alignments are neighbours with equally many coincidences",
    "neither counts as a peak: a worse alignment or nothing is reported",
    rs='''
    // every second item of b meets two neighbours of a: offsets 0 and 1 coincide equally often
    let a: Vec<u32> = (0..40u32).map(|i| (i / 2 * 97 + 5) << 20).collect();
    let b: Vec<u32> = (0..40u32).map(|i| if i % 2 == 0 { (i / 2 * 97 + 5) << 20 } else { (2200 + i) << 20 }).collect();
    let s = match_fingerprints(&a, &b, &Configuration::default()).unwrap();
    println!("{s:?}");
    assert!(!s.is_empty() && s.iter().all(|s| s.offset1 == s.offset2 + 1));
''')

bug("merge-unweighted", "C15",
    [(FM, "        let new_score = (self.score * self.items_count as f64\n            + other.score * other.items_count as f64)\n            / new_duration as f64;",
      "        let new_score = (self.score + other.score) / 2.0;")],
    "two neighbouring pieces of different lengths and scores less than 0.7 apart are joined",
    "the score is not the mean of differing bits over the segment",
    rs='''
    let mut worst: f64 = 0.0;
    let mut joined = 0;
    for seed in 0..400u64 {
        let n = 120;
        let r = noise(seed + 1, 4 * n, 30000);
        let a: Vec<u32> = (0..n).map(|i| (i as u32 * 31 + 7) << 20).collect();
        // a bump of errors in the low bits makes gradient peaks without moving the level much
        let b: Vec<u32> = (0..n)
            .map(|i| a[i] ^ if (50..62).contains(&i) { 0x3f } else { (1u32 << (r[i] as u32 % 4)) - 1 })
            .collect();
        for s in match_fingerprints(&a, &b, &Configuration::default()).unwrap() {
            let true_score = (0..s.items_count).map(|k| (a[s.offset1 + k] ^ b[s.offset2 + k]).count_ones()).sum::<u32>()
                as f64 / s.items_count as f64;
            worst = worst.max((true_score - s.score).abs());
            joined += (s.items_count < n) as usize;
        }
    }
    println!("{worst} {joined}");
    assert!(worst < 1e-6);
''')

bug("peaks-three-apart", "C16",
    [(FM, "gradient_peaks.last().unwrap() + 1 < i)", "gradient_peaks.last().unwrap() + 2 < i)")],
    "two gradient maxima exactly two items apart",
    "the second is not cut at",
    rs=PEAKS)

bug("peaks-adjacent", "C16",
    [(FM, "gradient_peaks.last().unwrap() + 1 < i)", "*gradient_peaks.last().unwrap() < i)")],
    "two neighbouring items at which the absolute gradient is the same maximum",
    "the overlap is cut at both, leaving a piece of one item",
    rs=PEAKS)

bug("score-ten-kept", "C15",
    [(FM, "            if score < match_threshold {", "            if score <= match_threshold {")],
    "a piece in which exactly ten bits per item differ on average",
    "it is reported although its score is not below 10",
    rs='''
    let a: Vec<u32> = (0..60u32).map(|i| (i * 97 + 5) << 20).collect();
    for bits in [9u32, 10, 11] {
        let b: Vec<u32> = a.iter().map(|x| x ^ ((1 << bits) - 1)).collect();
        assert_eq!(match_fingerprints(&a, &b, &Configuration::default()).unwrap().len(), (bits < 10) as usize, "{bits}");
    }
''')

bug("few-coincidences-only", "C17",
    [(FM, "        for item2 in offsets.iter().skip(offset_idx + 1) {",
      "        // Very common hashes say nothing about the alignment\n"
      "        for item2 in offsets.iter().skip(offset_idx + 1).take(1000) {")],
    "more than 1000 items with the same top 12 bits (long silence, say)",
    "coincidences beyond the first 1000 are not counted, so the best alignment is missed",
    rs='''
    for n in [200usize, 900, 1500, 3000] {
        let a = vec![627964279u32; n];
        let s = match_fingerprints(&a, &a, &Configuration::default()).unwrap();
        assert_eq!((s.len(), s[0].offset1, s[0].offset2, s[0].items_count), (1, 0, 0, n));
    }
''')

bug("too-long-second", "C18",
    [(FM, "    if fp2.len() + 1 >= OFFSET_MASK as usize {", "    if fp2.len() > OFFSET_MASK as usize {")],
    "a second fingerprint of 524286 or 524287 items",
    "it is not refused",
    rs='''
    let c = Configuration::default();
    for n in [524285usize, 524286, 524287, 524288] {
        let a: Vec<u32> = (0..n as u32).map(|i| i << 20).collect();
        let r = match_fingerprints(&[1 << 20], &a, &c);
        assert_eq!(matches!(r, Err(MatchError::FingerprintTooLong { index: 1 })), n >= 524286, "{n}");
    }
''')

bug("item-third-of-frame", "C05",
    [(FP, "        self.frame_size - self.frame_overlap\n    }", "        self.frame_size / 3\n    }")],
    "a configuration whose frames do not overlap by two thirds (preset 5, or with_frame_overlap)",
    "delay() and item_duration_in_seconds() do not say what the fingerprinter does",
    rs='''
    for (c, hop) in [(Configuration::preset_test2(), 1365usize), (Configuration::preset_test5(), 1024)] {
        assert_eq!((c.item_duration_in_seconds() * 11025.0).round() as usize, hop);
        let n = c.delay() + 20 * hop;
        assert_eq!(fp(&c, 11025, 1, &noise(1, n, 9000)).len(), 20);
        assert_eq!(fp(&c, 11025, 1, &noise(1, n - 1, 9000)).len(), 19);
    }
''')

bug("window-shared", "C23",
    [(FF, "            window: make_hamming_window(frame_size, 1.0),\n", "            window: shared_window(frame_size),\n"),
     (FF, "fn make_hamming_window(size: usize, scale: f64) -> Box<[f64]> {",
      "/// All presets use one window: compute it once.\n"
      "fn shared_window(size: usize) -> Box<[f64]> {\n"
      "    static LARGEST: std::sync::Mutex<Vec<f64>> = std::sync::Mutex::new(Vec::new());\n"
      "    let mut largest = LARGEST.lock().unwrap();\n"
      "    if largest.len() < size {\n"
      "        *largest = make_hamming_window(size, 1.0).into_vec();\n"
      "    }\n"
      "    largest[..size].into()\n"
      "}\n\n"
      "fn make_hamming_window(size: usize, scale: f64) -> Box<[f64]> {")],
    "a fingerprinter with shorter frames (preset 5) created after one with longer frames in the same process",
    "it windows its frames with the beginning of the longer window",
    rs='''
    let s = noise(2, 11025 * 30, 9000);
    let alone = fp(&Configuration::preset_test5(), 11025, 1, &s);
    fp(&Configuration::preset_test2(), 11025, 1, &s);
    let after = fp(&Configuration::preset_test5(), 11025, 1, &s);
    assert_eq!(alone, after);
''')

bug("features-static", "C23",
    [(CF, "impl<C: FeatureVectorConsumer> ChromaFilter<C> {",
      "thread_local! {\n    static HISTORY: std::cell::RefCell<Vec<[f64; 12]>> = const { std::cell::RefCell::new(Vec::new()) };\n}\n\n"
      "impl<C: FeatureVectorConsumer> ChromaFilter<C> {"),
     (CF, "        self.buffer[self.buffer_offset].copy_from_slice(features);\n        self.buffer_offset = (self.buffer_offset + 1) % self.buffer.len();",
      "        let mut buffer = HISTORY.with(|h| h.take());\n"
      "        buffer.resize(self.buffer.len(), [0.0; 12]);\n"
      "        buffer[self.buffer_offset].copy_from_slice(features);\n"
      "        self.buffer_offset = (self.buffer_offset + 1) % buffer.len();"),
     (CF, "                        self.buffer[(offset + j) % self.buffer.len()][i] * self.coefficients[j];",
      "                        buffer[(offset + j) % buffer.len()][i] * self.coefficients[j];"),
     (CF, "            self.buffer_size += 1;\n        }\n", "            self.buffer_size += 1;\n        }\n        HISTORY.with(|h| h.replace(buffer));\n")],
    "two fingerprinters used alternately on one thread",
    "their smoothing histories mix",
    rs='''
    let c = Configuration::preset_test2();
    let (s, t) = (noise(2, 11025 * 30, 9000), tone(11025.0, 440.0, 11025 * 30, 9000.0));
    let (a, b) = (fp(&c, 11025, 1, &s), fp(&c, 11025, 1, &t));
    let (mut f, mut g) = (Fingerprinter::new(&c), Fingerprinter::new(&c));
    f.start(11025, 1).unwrap();
    g.start(11025, 1).unwrap();
    for (x, y) in s.chunks(40_000).zip(t.chunks(40_000)) {
        f.consume(x);
        g.consume(y);
    }
    f.finish();
    g.finish();
    assert_eq!((f.fingerprint(), g.fingerprint()), (&a[..], &b[..]));
''')

bug("times-cut-not-rounded", "C19",
    [(CMU, "        DurationDisplay((self * 100.0).round() as _)", "        DurationDisplay((self * 100.0) as _)")],
    "a time whose third decimal is 5 or more",
    "compare prints it rounded down",
    py='''
for k in range(37, 45, 3):
    a = wav("a.wav", 11025, 1, noise(7, 11025 * k, 9000))
    rows = [l for l in run("compare", a, a).splitlines() if l[:4].strip().isdigit()]
    assert len(rows) == 1, rows
    items = len(raw("-a", 0, a)[0])
    cs = round(items * 1365 / 11025 * 100)
    want = "%d:%02d:%02d.%02d" % (cs // 360000, cs // 6000 % 60, cs // 100 % 60, cs % 100)
    print(rows[0], want)
    assert rows[0].split("|")[3].strip() == want
''')

bug("hours-in-minutes", "C19",
    [(CMU, "        let minutes = rem / 60;", "        let minutes = total_secs / 60;")],
    "a time of an hour or more",
    "compare prints the minutes of the whole time beside the hours",
    py='''
s = noise(7, 11025 * 620, 9000) * 6
a = wav("a.wav", 11025, 1, s + noise(8, 11025 * 60, 9000))
b = wav("b.wav", 11025, 1, noise(8, 11025 * 60, 9000))
rows = [l for l in run("compare", a, b).splitlines() if l[:4].strip().isdigit()]
for c in rows[0].replace("--", "|").split("|")[1:6]:
    h, m, x = c.strip().split(":")
    assert int(m) < 60, rows
''')

bug("length-per-chunk", "C20",
    [(FPC, "                    chunk_size = 0;", "                    chunk_size = 0;\n                    stream_size = frame_size;")],
    "--chunk shorter than --length, a file longer than --length",
    "the limit counts from the last chunk and never ends the stream",
    py='''
a = wav("a.wav", 11025, 1, noise(3, 11025 * 40, 9000))
b = wav("b.wav", 11025, 1, noise(3, 11025 * 20, 9000))
assert raw("-l", 20, "-C", 7, a) == raw("-l", 0, "-C", 7, b)
''')

bug("partial-packet-at-limit", "C20",
    [(FPC, "                let frame_size = audio_buf.frames();\n                (frame_size > remaining, frame_size.min(remaining))",
      "                let frame_size = audio_buf.frames();\n                (frame_size > remaining, if frame_size > remaining { 0 } else { frame_size })")],
    "--length ends inside a packet, and the frames of that packet matter for the last item",
    "the beginning of the packet in which the limit lies is left out",
    py='''
# 20 items need delay + 20 * 1365 frames; a limit of 12 s is 132300 frames
for sec in range(5, 40):
    n = 11025 * sec
    a = wav("a.wav", 11025, 1, noise(3, n + 5000, 9000))
    items = (n - (19 * 1365 + 2731)) // 1365
    assert len(raw("-l", sec, a)[0]) == max(0, items), sec
''')

bug("first-chunk-extra-stays", "C21",
    [(FPC, "    let mut first_chunk = true;", "    let mut first_chunk = !args.overlap || args.length > 0;")],
    "--overlap of the whole file (--length 0)",
    "every chunk, not only the first, is longer by the delay, and the text output separates the first result too",
    py='''
a = wav("a.wav", 11025, 1, noise(3, 11025 * 40, 9000))
x, y = raw("-l", 0, "-C", 6, "-o", a), raw("-l", 100, "-C", 6, "-o", a)
assert [len(c) for c in x] == [len(c) for c in y]
assert x == y
''')

bug("plain-base64", "C22",
    [(FPC, "use base64::prelude::{Engine, BASE64_URL_SAFE_NO_PAD};", "use base64::prelude::{Engine, BASE64_STANDARD_NO_PAD};"),
     (FPC, "            BASE64_URL_SAFE_NO_PAD.encode", "            BASE64_STANDARD_NO_PAD.encode")],
    "a compressed fingerprint with a 6-bit group of 62 or 63",
    "the default output uses + and / instead of - and _",
    py='''
for k in range(4):
    a = wav("a.wav", 11025, 1, noise(3 + k, 11025 * 60, 9000))
    t = run("fpcalc", "-F", "plain", a).strip()
    assert not set(t) & set("+/="), t
''')

bug("signed-json-chunks", "C22",
    [(FPC, "                    if self.raw {\n                        println!(\"{{\\\"timestamp\\\": {timestamp:.2}, \\\"duration\\\": {duration:.2}, \\\"fingerprint\\\": [{fp}]}}\");",
      "                    if self.raw && !self.signed {\n                        println!(\"{{\\\"timestamp\\\": {timestamp:.2}, \\\"duration\\\": {duration:.2}, \\\"fingerprint\\\": [{fp}]}}\");")],
    "-R -s -F json together with --chunk",
    "the items are printed as one string, not as a list of numbers",
    py='''
a = wav("a.wav", 11025, 1, noise(3, 11025 * 40, 9000))
for o in ([], ["-s"]):
    for c in ([], ["-C", "9"]):
        for l in run("fpcalc", "-R", "-F", "json", *o, *c, a).splitlines():
            assert all(isinstance(x, int) for x in json.loads(l)["fingerprint"]) and isinstance(json.loads(l)["fingerprint"], list), l
''')

FLAC = '''
def crc(data, bits, poly):
    c = 0
    for b in data:
        c ^= b << (bits - 8)
        for _ in range(8):
            c = c << 1 ^ poly if c >> (bits - 1) & 1 else c << 1
        c &= (1 << bits) - 1
    return c
def flac(name, rate, samples, block, bad):
    f = b"fLaC\\x80\\0\\0\\x22" + struct.pack(">HH", 16, block) + bytes(6)
    f += (rate << 44 | 15 << 36 | len(samples)).to_bytes(8, "big") + bytes(16)
    for at in range(0, len(samples), block):
        s = samples[at:at + block]
        v = at
        if v < 0x80:
            num = bytes([v])
        elif v < 0x800:
            num = bytes([0xC0 | v >> 6, 0x80 | v & 63])
        elif v < 0x10000:
            num = bytes([0xE0 | v >> 12, 0x80 | v >> 6 & 63, 0x80 | v & 63])
        else:
            num = bytes([0xF0 | v >> 18, 0x80 | v >> 12 & 63, 0x80 | v >> 6 & 63, 0x80 | v & 63])
        p = bytes([0xFF, 0xF9, 0x70, 8]) + num + struct.pack(">H", len(s) - 1)
        p += bytes([crc(p, 8, 7)])
        p += bytes([4 if at // block == bad else 2]) + struct.pack(">%dh" % len(s), *s)
        f += p + struct.pack(">H", crc(p, 16, 0x8005))
    p = os.path.join(WORK, name)
    open(p, "wb").write(f)
    return p
'''

bug("undecodable-packet-ends", "C24",
    [(CMP, "            Err(Error::DecodeError(_)) => (),", "            Err(Error::DecodeError(_)) => break,")],
    "a file with a packet that cannot be decoded, and audio that matters behind it",
    "compare takes the file to end at the packet",
    py=FLAC + '''
s = noise(5, 11025 * 24, 9000)
a = wav("a.wav", 11025, 1, s)
whole = run("compare", a, flac("w.flac", 11025, s, 4096, -1))
assert whole == run("compare", a, a)
k = 12
part = wav("p.wav", 11025, 1, s[:k * 4096] + s[(k + 1) * 4096:])
assert run("compare", a, flac("b.flac", 11025, s, 4096, k)) == run("compare", a, part)
''')

bug("undecodable-packet-skipped", "C24",
    [(FPC, "            Err(Error::DecodeError(err)) => Err(Error::DecodeError(err))?,", "            Err(Error::DecodeError(_)) => continue,")],
    "a file with a packet that cannot be decoded",
    "fpcalc reports success and the fingerprint of a stream with a hole in it",
    py=FLAC + '''
s = noise(5, 11025 * 24, 9000)
p = subprocess.run([os.path.join(BIN, "fpcalc"), "-R", flac("w.flac", 11025, s, 4096, -1)], capture_output=True)
assert p.returncode == 0 and p.stdout
for k in (0, 12, 64):
    p = subprocess.run([os.path.join(BIN, "fpcalc"), "-R", flac("b.flac", 11025, s, 4096, k)], capture_output=True)
    assert p.returncode != 0 and not p.stdout, k
''')

MEM = """
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
    struct Counting;
    static LIVE: AtomicI64 = AtomicI64::new(0);
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
"""

bug("image-keeps-rows", "C25",
    [(RI, "        assert_eq!(self.columns, row.len());\n\n        let mut sum", "        assert_eq!(self.columns, row.len());\n\n"
      "        // The ring is full: make room\n        if self.rows >= self.data.len() / self.columns {\n"
      "            self.data.resize((self.rows + 1) * self.columns, 0.0);\n        }\n\n        let mut sum"),
     (RI, "    fn row(&self, mut i: usize) -> &[f64] {\n        i %= self.max_rows;\n", "    fn row(&self, i: usize) -> &[f64] {\n"),
     (RI, "    fn row_mut(&mut self, mut i: usize) -> &mut [f64] {\n        i %= self.max_rows;\n",
      "    fn row_mut(&mut self, i: usize) -> &mut [f64] {\n")],
    "a long session (more than 256 feature rows), and a look at its memory",
    "rows that no item can need any more are kept for the whole session",
    rs=MEM + """
    let c = Configuration::preset_test2().with_frame_size(64).with_frame_overlap(32);
    let s = noise(2, 1 << 20, 9000);
    let mut f = Fingerprinter::new(&c);
    f.start(11025, 1).unwrap();
    f.consume(&s);
    let before = LIVE.load(Relaxed) - 8 * f.fingerprint().len() as i64;
    for _ in 0..10 {
        f.consume(&s);
    }
    let more = LIVE.load(Relaxed) - 8 * f.fingerprint().len() as i64 - before;
    println!("{before} {more}");
    assert!(more < 500_000);
""")

bug("fingerprints-leaked", "C25",
    [(FC, "        self.fingerprint.clear();\n", "        // A fresh list, so that earlier fingerprints stay valid\n"
      "        std::mem::take(&mut self.fingerprint).leak();\n")],
    "many sessions, and a look at the memory",
    "the fingerprint of every earlier session is never released",
    rs=MEM + """
    let c = Configuration::preset_test2().with_frame_size(64).with_frame_overlap(32);
    let s = noise(2, 1 << 17, 9000);
    let mut f = Fingerprinter::new(&c);
    let mut first = 0;
    for i in 0..200 {
        f.start(11025, 1).unwrap();
        f.consume(&s);
        f.finish();
        if i == 2 {
            first = LIVE.load(Relaxed);
        }
    }
    let more = LIVE.load(Relaxed) - first;
    println!("{first} {more}");
    assert!(more < 500_000);
""")

bug("sixteen-bit-histogram", "C14",
    [(FM, "    let mut histogram = vec![0u32; fp1.len() + fp2.len()];", "    let mut histogram = vec![0u16; fp1.len() + fp2.len()];"),
     (FM, "                histogram[offset_diff] += 1;", "                histogram[offset_diff] = histogram[offset_diff].saturating_add(1);")],
    "fingerprints of more than 65535 items whose hashes come again, so that several offsets have 65535 coincidences or more",
    "all such offsets count as equally good, and the largest is taken",
    rs="""
    // a loop of 4000 items, played for more than two hours; the low bits never repeat
    let low = noise(3, 70000, 30000);
    let a: Vec<u32> = (0..70000).map(|i| ((i % 4000) as u32 * 1021 % 4096) << 20 | low[i] as u16 as u32).collect();
    let s = match_fingerprints(&a, &a, &Configuration::default()).unwrap();
    println!("{s:?}");
    assert!(s.len() == 1 && s[0].offset1 == 0 && s[0].offset2 == 0 && s[0].items_count == 70000 && s[0].score == 0.0);
""")

MKV = FLAC + '''
def el(i, body):
    return i.to_bytes((i.bit_length() + 7) // 8, "big") + (len(body) | 1 << 56).to_bytes(8, "big") + body
def un(i, v):
    return el(i, v.to_bytes(4, "big"))
def parts(rate, samples, block):
    """The header of FLAC and its packets."""
    flac("t.flac", rate, samples, block, -1)
    f = open(os.path.join(WORK, "t.flac"), "rb").read()
    head, at, ps = f[:42], 42, []
    while at < len(f):
        n = 5 + (1 if f[at + 4] < 0x80 else 2 if f[at + 4] < 0xE0 else 3 if f[at + 4] < 0xF0 else 4) + 2
        size = n + 1 + 2 * (struct.unpack(">H", f[at + n - 3:at + n - 1])[0] + 1) + 2
        ps.append(f[at:at + size])
        at += size
    return head, ps
def mkv(name, tracks):
    """tracks: (number, codec, rate, header, packets); the packets of the tracks by turns."""
    entries = b""
    for number, codec, rate, head, _ in tracks:
        e = un(0xD7, number) + un(0x73C5, 900 + number) + el(0x86, codec) + un(0x83, 2 if rate else 17)
        e += el(0x63A2, head) if head else b""
        e += el(0xE1, el(0xB5, struct.pack(">d", rate)) + un(0x9F, 1) + un(0x6264, 16)) if rate else b""
        entries += el(0xAE, e)
    clusters, k = b"", 0
    while any(k < len(t[4]) for t in tracks):
        blocks = b"".join(el(0xA3, bytes([0x80 | t[0], 0, 0, 0x80]) + t[4][k]) for t in tracks if k < len(t[4]))
        clusters += el(0x1F43B675, un(0xE7, 1000 * k) + blocks)
        k += 1
    f = el(0x1A45DFA3, el(0x4282, b"matroska"))
    f += el(0x18538067, el(0x1549A966, un(0x2AD7B1, 1000000)) + el(0x1654AE6B, entries) + clusters)
    p = os.path.join(WORK, name)
    open(p, "wb").write(f)
    return p
s = noise(5, 11025 * 30, 9000)
h, ps = parts(11025, s, 4096)
t = noise(6, 11025 * 20, 9000)
h2, ps2 = parts(11025, t, 4096)
a = wav("a.wav", 11025, 1, s)
'''

bug("first-track-whatever", "C20",
    [(FPC, "            .tracks()\n            .iter()\n            .find(|t| t.codec_params.codec != CODEC_TYPE_NULL)\n            .context(",
      "            .default_track()\n            .context(")],
    "a file whose first track is not audio (subtitles before the sound)",
    "the file is refused: there is no decoder for its subtitles",
    py=MKV + '''
text = (3, b"S_TEXT/UTF8", 0, b"", [b"words", b"more"])
m = mkv("m.mkv", [(9, b"A_FLAC", 11025, h, ps), text])
assert raw(m) == raw(a)
m = mkv("n.mkv", [text, (9, b"A_FLAC", 11025, h, ps)])
assert raw(m) == raw(a)
''')

bug("packets-of-other-tracks", "C20",
    [(FPC, "            if packet.track_id() != self.track_id {\n                continue;\n            }\n\n", "            let _ = self.track_id;\n\n")],
    "a file with a second audio track of the same codec",
    "the audio of all tracks goes into one fingerprint",
    py=MKV + '''
m = mkv("m.mkv", [(9, b"A_FLAC", 11025, h, ps), (2, b"A_FLAC", 11025, h2, ps2)])
assert raw(m) == raw(a)
''')

bug("compare-all-tracks", "C19",
    [(CMP, "        if packet.track_id() != track_id {\n            continue;\n        }\n\n", "        let _ = track_id;\n\n")],
    "a file with a second audio track of the same codec",
    "compare matches the audio of all tracks mixed up",
    py=MKV + '''
m = mkv("m.mkv", [(9, b"A_FLAC", 11025, h, ps), (2, b"A_FLAC", 11025, h2, ps2)])
assert run("compare", m, a) == run("compare", a, a)
''')

bug("interpolation-of-id-two", "C10",
    [("chromaprint/src/fingerprinter.rs", "        .with_interpolation(config.interpolate);",
      "        .with_interpolation(config.interpolate || config.id == 2);")],
    "a configuration with another preset's options and the identifier of preset 3",
    "with_id(2) turns interpolation on: the identifier changes the items",
    rs="""
    let audio: Vec<i16> = (0..100_000u32)
        .map(|k| (9000.0 * ((k as f64 * 0.11).sin() + (k as f64 * k as f64 * 1e-6).sin())) as i16)
        .collect();
    let items = |c: &Configuration| {
        let mut f = Fingerprinter::new(c);
        f.start(11025, 1).unwrap();
        f.consume(&audio);
        f.finish();
        f.fingerprint().to_vec()
    };
    let plain = items(&Configuration::preset_test2());
    for id in 0..=255 {
        assert_eq!(items(&Configuration::preset_test2().with_id(id)), plain, "{id}");
    }
""")

bug("one-frame-kept", "C04",
    [(AP, "        if self.buffer_offset > 0 {\n            self.resample();", "        if self.buffer_offset > 1 {\n            self.resample();")],
    "exactly one frame buffered when finish is called",
    "finish holds back a last single frame: the item it completes is missing until more audio comes",
    rs="""
    let c = Configuration::default();
    // the last frame completes an item
    let n = c.delay() + 40 * 1365;
    let audio: Vec<i16> = (0..n).map(|k| ((k * 7919) % 20011) as i16 - 10000).collect();
    let mut f = Fingerprinter::new(&c);
    f.start(11025, 1).unwrap();
    f.consume(&audio[..n - 1]);
    f.finish();
    assert_eq!(f.fingerprint().len(), 39);
    f.consume(&audio[n - 1..]);
    f.finish();
    assert_eq!(f.fingerprint().len(), 40);
""")

bug("empty-call-forgets", "C04",
    [(AP, "        assert_eq!(data.len() % self.channels as usize, 0);\n\n        let mut index",
      "        assert_eq!(data.len() % self.channels as usize, 0);\n        if data.is_empty() && self.resampler.is_some() {\n            self.input.clear();\n        }\n\n        let mut index")],
    "an empty consume in a converted session, after a buffer was passed on or a finish",
    "an empty consume drops the samples that the resampler has not used yet",
    rs="""
    let audio: Vec<i16> = (0..400_000u32).map(|k| (9000.0 * (k as f64 * k as f64 * 2e-7).sin()) as i16).collect();
    let run = |empty: bool| {
        let mut f = Fingerprinter::new(&Configuration::default());
        f.start(44100, 1).unwrap();
        for block in audio.chunks(777) {
            f.consume(block);
            f.finish();
            if empty {
                f.consume(&[]);
            }
        }
        f.finish();
        f.fingerprint().to_vec()
    };
    assert_eq!(run(true), run(false));
""")

bug("single-precision-ratio", "C11",
    [(AP, "            let ratio = self.target_sample_rate as f64 / sample_rate as f64;",
      "            let ratio = f64::from(self.target_sample_rate as f32 / sample_rate as f32);")],
    "tens of millions of samples after conversion, and a rate whose ratio single precision misses",
    "the conversion drifts by several samples per hour and a half: items are missing at the end, or too many",
    rs="""
    // the rate for which single precision is furthest off
    let off = |r: u32| (f64::from(11025f32 / r as f32) - 11025.0 / f64::from(r)) * f64::from(r) / 11025.0;
    for up in [false, true] {
        let r = (1001..1400u32).max_by(|a, b| (off(*a) * if up { 1.0 } else { -1.0 }).total_cmp(&(off(*b) * if up { 1.0 } else { -1.0 }))).unwrap();
        let c = Configuration::default();
        let (hop, delay) = (1365u64, c.delay() as u64);
        let r = u64::from(r);
        let mut n = 70_000_000 * r / 11025;
        let out = |n: u64| (n - 8) * 11025 / r;
        while !(if up { [hop - 3, hop - 2] } else { [2, 3] }).contains(&((out(n) - delay) % hop)) {
            n += 1;
        }
        let block = vec![0i16; 100_000];
        let mut f = Fingerprinter::new(&c);
        f.start(r as u32, 1).unwrap();
        let mut left = n as usize;
        while left > 0 {
            let k = left.min(block.len());
            f.consume(&block[..k]);
            left -= k;
        }
        f.finish();
        println!("{r} {n} {} {}", f.fingerprint().len(), (out(n) - delay) / hop);
        assert_eq!(f.fingerprint().len() as u64, (out(n) - delay) / hop);
    }
""")
