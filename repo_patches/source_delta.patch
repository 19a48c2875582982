From 1d35d24154b132f672d89bb4a5158e83e4bc357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 01/13] fix: reset the stages behind the chroma filter

Fingerprinter::start left the items of earlier sessions in the fingerprint.
---
 chromaprint/src/chroma_filter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
-- 
2.43.0


From 63b2b5c6b6be40400affb3f8ed95e5773ec3593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 02/13] fix: drop unframed samples of the previous session on
 reset

The tail of one session was prepended to the next.
---
 chromaprint/src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From b039446cc47c7bd8d4ba9bf54b46301d2680a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 03/13] fix: do not resample a native-rate session started
 after a resampled one

---
 chromaprint/src/audio_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..a9ccfaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -150,6 +150,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             self.output_buffer
                 .resize(resampler.output_frames_max(), 0.0);
             self.resampler = Some(resampler);
+        } else {
+            self.resampler = None;
         }
 
         Ok(())
-- 
2.43.0


From 7702f646ff9d2d786d292a393091716d8c419b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 04/13] fix: do not overflow when averaging very many channels

More than 65536 channels of extreme samples exceed an i32 sum.
---
 chromaprint/src/audio_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index a9ccfaf..d74acaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -53,9 +53,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             }
             _ => {
                 for sample in input.chunks_exact(channels) {
-                    let sum: i32 = sample.iter().copied().map(i32::from).sum();
-                    let samples: i32 = sample.len().try_into().unwrap();
-                    let average: i32 = sum / samples;
+                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
+                    let samples: i64 = sample.len().try_into().unwrap();
+                    let average: i64 = sum / samples;
                     self.push_sample(average.try_into().unwrap());
                 }
             }
-- 
2.43.0


From dd1b6711845bb13d28c8440f49003806d6e01d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 05/13] fix: honour the interpolation option of a configuration

with_interpolation (and preset_test3, which turns it on) had no effect.
---
 chromaprint/src/chroma.rs        | 5 +++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..5dcba10 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,11 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From f82bb4f38d1fa30a46090e9be5ce60d2f54d08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 06/13] fix: fpcalc: feed the rest of a packet to the next
 chunk

The end of the slice was counted from the start of the packet, so --chunk
panicked or lost samples whenever a packet spanned a chunk boundary.
---
 fpcalc/src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..673368e 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -357,10 +357,8 @@ pub fn main() -> anyhow::Result<()> {
 
             frame_size -= first_part_size;
             if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
+                let rest = &frame_data[first_part_size * reader.channel_count..];
+                printer.consume(&rest[..frame_size * reader.channel_count]);
             }
 
             chunk_size += frame_size;
-- 
2.43.0


From c7f878edaf9862c5e033f3115c4052eb9d9ad23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 07/13] fix: fpcalc: continue the stream across overlapping
 chunks

With --overlap the fingerprinter was replaced by one that was never started,
so that the next packet panicked; starting it would still have lost the items
around each chunk boundary, which is what the option is there to keep.
---
 fpcalc/src/main.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 673368e..039043b 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -278,6 +278,7 @@ pub fn main() -> anyhow::Result<()> {
     }
 
     let mut first_chunk = true;
+    let mut printed_items = 0;
 
     loop {
         let audio_buf = match reader.next_buffer() {
@@ -330,7 +331,12 @@ pub fn main() -> anyhow::Result<()> {
                 let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
                     / f64::from(reader.sample_rate)
                     + overlap;
-                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+                result_printer.print_result(
+                    &printer.fingerprint()[printed_items..],
+                    first_chunk,
+                    ts,
+                    chunk_duration,
+                );
 
                 if args.ts {
                     ts = get_current_timestamp();
@@ -339,7 +345,8 @@ pub fn main() -> anyhow::Result<()> {
                 }
 
                 if args.overlap {
-                    printer = Fingerprinter::new(config);
+                    // The stream goes on: only leave out what has been printed already.
+                    printed_items = printer.fingerprint().len();
                     ts -= overlap;
                 } else {
                     printer
@@ -374,7 +381,12 @@ pub fn main() -> anyhow::Result<()> {
     if chunk_size > 0 {
         let chunk_duration =
             (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
-        result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+        result_printer.print_result(
+            &printer.fingerprint()[printed_items..],
+            first_chunk,
+            ts,
+            chunk_duration,
+        );
     }
 
     Ok(())
@@ -390,8 +402,7 @@ struct ResultPrinter<'a> {
 }
 
 impl<'a> ResultPrinter<'a> {
-    fn print_result(&self, printer: &Fingerprinter, first: bool, timestamp: f64, duration: f64) {
-        let raw_fingerprint = printer.fingerprint();
+    fn print_result(&self, raw_fingerprint: &[u32], first: bool, timestamp: f64, duration: f64) {
         let fp = if self.raw {
             if self.signed {
                 // FIXME: Use `u32.case_signed()` once it becomes stable.
-- 
2.43.0


From 30cecb5aac1c0631b9d8da10b86ef26f0c528796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 08/13] fix: fpcalc: compute the chunk overlap in the right
 units

The delay in seconds was divided by 1000 once too often, and the delay at the
fingerprint rate was used as a number of frames at the rate of the file.
---
 fpcalc/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 039043b..6e169af 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -273,8 +273,9 @@ pub fn main() -> anyhow::Result<()> {
     let mut overlap: f64 = 0.0;
 
     if chunk_limit > 0 && args.overlap {
-        extra_chunk_limit = config.delay();
-        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
+        // The delay is counted in samples at the rate of the fingerprint, not of the file.
+        extra_chunk_limit = config.delay() * sample_rate / config.sample_rate() as usize;
+        overlap = config.delay() as f64 / f64::from(config.sample_rate());
     }
 
     let mut first_chunk = true;
-- 
2.43.0


From 72c393d3edff581977b7ae0715deec87efe61497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 09/13] fix: fpcalc: do not underflow when the stream ends in
 the first overlapping chunk

---
 fpcalc/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 6e169af..e91475a 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -329,7 +329,7 @@ pub fn main() -> anyhow::Result<()> {
             if chunk_done {
                 printer.finish();
 
-                let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
+                let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
                     / f64::from(reader.sample_rate)
                     + overlap;
                 result_printer.print_result(
@@ -380,8 +380,9 @@ pub fn main() -> anyhow::Result<()> {
     printer.finish();
 
     if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
+        let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
+            / f64::from(reader.sample_rate)
+            + overlap;
         result_printer.print_result(
             &printer.fingerprint()[printed_items..],
             first_chunk,
-- 
2.43.0


From f7bf9e5ab4f319d24cf72450405ca467f31c704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 10/13] fix: fpcalc: allow packets longer than a chunk

What was left of a packet after a chunk ended went to the next chunk whole, even
if that was more than a chunk, and the limit computation then underflowed.
---
 fpcalc/src/main.rs | 100 ++++++++++++++++++++++-----------------------
 1 file changed, 49 insertions(+), 51 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index e91475a..85c63c0 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -312,65 +312,63 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
-            let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
-
-            chunk_size += first_part_size;
-
-            if chunk_done {
-                printer.finish();
-
-                let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
-                    / f64::from(reader.sample_rate)
-                    + overlap;
-                result_printer.print_result(
-                    &printer.fingerprint()[printed_items..],
-                    first_chunk,
-                    ts,
-                    chunk_duration,
-                );
-
-                if args.ts {
-                    ts = get_current_timestamp();
-                } else {
-                    ts += chunk_duration;
-                }
+            let mut frame_data = buf.samples();
 
-                if args.overlap {
-                    // The stream goes on: only leave out what has been printed already.
-                    printed_items = printer.fingerprint().len();
-                    ts -= overlap;
+            while frame_size > 0 {
+                let (chunk_done, first_part_size) = if chunk_limit > 0 {
+                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    (frame_size > remaining, frame_size.min(remaining))
                 } else {
-                    printer
-                        .start(reader.sample_rate, channel_count)
-                        .context("initializing fingerprinter")?;
-                }
+                    (false, frame_size)
+                };
+
+                let (first_part, rest) =
+                    frame_data.split_at(first_part_size * reader.channel_count);
+                printer.consume(first_part);
+                frame_data = rest;
+
+                chunk_size += first_part_size;
+                frame_size -= first_part_size;
+
+                if chunk_done {
+                    printer.finish();
+
+                    let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
+                        / f64::from(reader.sample_rate)
+                        + overlap;
+                    result_printer.print_result(
+                        &printer.fingerprint()[printed_items..],
+                        first_chunk,
+                        ts,
+                        chunk_duration,
+                    );
+
+                    if args.ts {
+                        ts = get_current_timestamp();
+                    } else {
+                        ts += chunk_duration;
+                    }
 
-                if first_chunk {
-                    extra_chunk_limit = 0;
-                    first_chunk = false;
-                }
+                    if args.overlap {
+                        // The stream goes on: only leave out what has been printed already.
+                        printed_items = printer.fingerprint().len();
+                        ts -= overlap;
+                    } else {
+                        printer
+                            .start(reader.sample_rate, channel_count)
+                            .context("initializing fingerprinter")?;
+                    }
 
-                chunk_size = 0;
-            }
+                    if first_chunk {
+                        extra_chunk_limit = 0;
+                        first_chunk = false;
+                    }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                let rest = &frame_data[first_part_size * reader.channel_count..];
-                printer.consume(&rest[..frame_size * reader.channel_count]);
+                    chunk_size = 0;
+                }
             }
 
-            chunk_size += frame_size;
-
             if stream_done {
                 break;
             }
-- 
2.43.0


From f3cf70232d3f9749440a3bb13da184ced0e648ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 11/13] fix: resampler: do not lose the history of the stream
 at a finish

set_chunk_size of rubato's SincFixedIn makes the next call take its history from
the wrong place: the samples around the start of the last block, and around the
continuation after finish(), were converted with others in front of them. The
resampler with a fixed number of output frames supports changing that number,
and the input that does not suffice for an output frame is simply kept.
---
 chromaprint/src/audio_processor.rs | 54 ++++++++++++++----------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index d74acaf..6bfb1cb 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -15,7 +15,7 @@ pub struct AudioProcessor<C: AudioConsumer<f64>> {
     channels: u32,
     consumer: C,
     target_sample_rate: u32,
-    resampler: Option<rubato::SincFixedIn<f64>>,
+    resampler: Option<rubato::SincFixedOut<f64>>,
 }
 
 impl<C: AudioConsumer<f64>> AudioProcessor<C> {
@@ -64,46 +64,42 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         consumed * channels
     }
 
-    fn resample(&mut self, is_end: bool) {
+    fn resample(&mut self) {
         for &sample in &self.buffer[..self.buffer_offset] {
             self.input.push(f64::from(sample) / f64::from(i16::MAX));
         }
         self.buffer_offset = 0;
 
         if let Some(resampler) = self.resampler.as_mut() {
-            let default_input_frames = resampler.input_frames_next();
-            while !self.input.is_empty() {
-                if self.input.len() < resampler.input_frames_next() {
-                    if is_end {
-                        // Update chunk size to accept the remaining samples
-                        resampler
-                            .set_chunk_size(self.input.len())
-                            .expect("cannot update chunk size for the resampler");
-                    } else {
+            // Convert as much of the input as possible, in blocks as large as possible. The input
+            // that is left over is not sufficient even for a single output frame.
+            let mut consumed = 0;
+            let mut output_frames = resampler.output_frames_max();
+            loop {
+                resampler
+                    .set_chunk_size(output_frames)
+                    .expect("cannot update chunk size for the resampler");
+                if resampler.input_frames_next() > self.input.len() - consumed {
+                    if output_frames == 1 {
                         break;
                     }
+                    output_frames /= 2;
+                    continue;
                 }
 
-                let required_input = resampler.input_frames_next();
-                self.output_buffer
-                    .resize(resampler.output_frames_next(), 0.0);
+                self.output_buffer.resize(output_frames, 0.0);
                 let (read_samples, written_samples) = resampler
                     .process_into_buffer(
-                        &[&self.input[..required_input]],
+                        &[&self.input[consumed..]],
                         std::slice::from_mut(&mut self.output_buffer),
                         None,
                     )
                     .expect("invalid parameters for resampler");
-                self.input.drain(..read_samples);
+                consumed += read_samples;
                 self.consumer
                     .consume(&self.output_buffer[..written_samples]);
-
-                if is_end {
-                    resampler
-                        .set_chunk_size(default_input_frames)
-                        .expect("cannot restore chunk size for the resampler");
-                }
             }
+            self.input.drain(..consumed);
         } else {
             self.consumer.consume(&self.input);
             self.input.clear();
@@ -131,11 +127,13 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
         self.channels = channels;
         self.buffer_offset = 0;
+        self.input.clear();
         self.consumer.reset();
 
         if self.target_sample_rate != sample_rate {
-            let resampler = rubato::SincFixedIn::new(
-                self.target_sample_rate as f64 / sample_rate as f64,
+            let ratio = self.target_sample_rate as f64 / sample_rate as f64;
+            let resampler = rubato::SincFixedOut::new(
+                ratio,
                 1.0,
                 rubato::SincInterpolationParameters {
                     sinc_len: 16,
@@ -144,11 +142,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
                     interpolation: rubato::SincInterpolationType::Nearest,
                     window: rubato::WindowFunction::Blackman,
                 },
-                MAX_BUFFER_SIZE,
+                usize::max((MAX_BUFFER_SIZE as f64 * ratio) as usize, 1),
                 1,
             )?;
-            self.output_buffer
-                .resize(resampler.output_frames_max(), 0.0);
             self.resampler = Some(resampler);
         } else {
             self.resampler = None;
@@ -159,7 +155,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
     pub(crate) fn flush(&mut self) {
         if self.buffer_offset > 0 {
-            self.resample(true);
+            self.resample();
         }
         self.consumer.flush();
     }
@@ -186,7 +182,7 @@ impl<C: AudioConsumer<f64>> AudioConsumer for AudioProcessor<C> {
             index += self.load(&data[index..], self.channels as usize);
             if self.buffer.len() == self.buffer_offset {
                 // Full buffer
-                self.resample(false);
+                self.resample();
             }
         }
     }
-- 
2.43.0


From 1a34c30c0a421378226ecaa72df6d20957128cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 12/13] fix: fpcalc: do not overflow on long --length and
 --chunk

---
 fpcalc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 85c63c0..efe9710 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -264,10 +264,10 @@ pub fn main() -> anyhow::Result<()> {
     let sample_rate = usize::try_from(reader.sample_rate).context("invalid sample rate")?;
 
     let mut stream_size = 0;
-    let stream_limit = args.length * sample_rate;
+    let stream_limit = args.length.saturating_mul(sample_rate);
 
     let mut chunk_size = 0;
-    let chunk_limit = args.max_chunk_duration() * sample_rate;
+    let chunk_limit = args.max_chunk_duration().saturating_mul(sample_rate);
 
     let mut extra_chunk_limit = 0;
     let mut overlap: f64 = 0.0;
@@ -317,7 +317,7 @@ pub fn main() -> anyhow::Result<()> {
 
             while frame_size > 0 {
                 let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    let remaining = chunk_limit.saturating_add(extra_chunk_limit) - chunk_size;
                     (frame_size > remaining, frame_size.min(remaining))
                 } else {
                     (false, frame_size)
-- 
2.43.0


From 4b0d30f856b2ed335a459d25960a45f31fcb0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 13/13] fix: smooth over more than eight frames when so
 configured

---
 chromaprint/src/chroma_filter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 28af660..3efaf2c 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -3,7 +3,7 @@ use crate::stages::{FeatureVectorConsumer, Stage};
 pub struct ChromaFilter<C: FeatureVectorConsumer> {
     coefficients: Box<[f64]>,
     consumer: C,
-    buffer: [[f64; 12]; 8],
+    buffer: Box<[[f64; 12]]>,
     result: [f64; 12],
     buffer_offset: usize,
     buffer_size: usize,
@@ -11,10 +11,12 @@ pub struct ChromaFilter<C: FeatureVectorConsumer> {
 
 impl<C: FeatureVectorConsumer> ChromaFilter<C> {
     pub(crate) fn new(coefficients: Box<[f64]>, consumer: C) -> Self {
+        // It has to hold as many frames as are smoothed over.
+        let buffer = vec![[0.0; 12]; coefficients.len().max(8)].into_boxed_slice();
         Self {
             coefficients,
             consumer,
-            buffer: std::array::from_fn(|_| [0.0; 12]),
+            buffer,
             result: [0.0; 12],
             buffer_offset: 0,
             buffer_size: 1,
-- 
2.43.0

