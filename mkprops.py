#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})
S = "chromaprint/src/"

prop("C01", "A successful start makes a used fingerprinter as good as new",
 "After a successful start(rate, channels) a fingerprinter behaves exactly like a newly created one with the same configuration: its fingerprint is empty at that moment, and everything it reports afterwards depends only on the configuration, the rate, the channel count and the samples given since that start. Nothing from earlier sessions (samples, published items, sample rate, channel count, whether or not they were finished) shows through.",
 ["histories", "inputs", "configurations"], "every history of start/consume/finish/fingerprint calls (sessions abandoned mid-way, finished, re-finished, at other rates and channel counts, at or away from the internal rate), every preset and custom frame size",
 "No test drives the public Fingerprinter at all, and none reuses any stage after reset; reset is never called twice in a test.",
 [S+"fingerprinter.rs", S+"audio_processor.rs", S+"fft.rs", S+"chroma_filter.rs", S+"rolling_image.rs", S+"fingerprint_calculator.rs"],
 [("reset cascade through all stages", S+"audio_processor.rs AudioProcessor::reset and the reset of every stage"), ("resampler rebuilt or dropped per session", S+"audio_processor.rs AudioProcessor::reset")],
 ["Fingerprinter::start", "Fingerprinter::fingerprint"],
 [("staging buffer fill", "mixed samples not yet passed on", "AudioProcessor.buffer_offset"), ("frame ring", "samples not yet framed", "Fft.ring_buf"), ("smoothing fill", "frames seen by the smoothing filter", "ChromaFilter.buffer_size"), ("image rows", "normalised feature rows", "RollingIntegralImage.rows"), ("resampler", "present iff rate differs from internal rate", "AudioProcessor.resampler")])

prop("C02", "The fingerprint does not depend on how the samples were cut into calls",
 "For a given configuration, rate, channel count and sample sequence, the fingerprint after finish is the same however the sequence was split into consume calls, including empty calls, single-frame calls and calls larger than any internal buffer, and however often finish was called in between.",
 ["inputs", "histories", "configurations"], "every partition of every whole-frame sample sequence into consume calls, for every rate, channel count and configuration",
 "The partitions are unbounded; the unit tests feed one chunk (audio processor) or chunks of 100 (FFT stage) and never through the public type; inputs that straddle the 32768-sample buffer are only fed whole.",
 [S+"audio_processor.rs", S+"fft.rs", S+"fingerprinter.rs"],
 [("staging buffer load/resample loop", S+"audio_processor.rs consume/load/resample"), ("frame ring buffer", S+"fft.rs consume")],
 ["Fingerprinter::consume", "Fingerprinter::finish", "Fingerprinter::fingerprint"])

prop("C03", "Multi-channel audio is fingerprinted as its per-frame average",
 "The fingerprint of interleaved audio with any number of channels equals the fingerprint of the mono signal whose every sample is the average of the frame's channel samples, rounded toward zero; this holds at the extremes of the sample range and does not depend on the order of channels within a frame.",
 ["inputs", "configurations"], "every channel count >= 1, every interleaved sample sequence including extreme values, every rate",
 "The one test covers two channels on one fixture whose absolute tolerance hides rounding; three or more channels, odd sums, negative sums and extremes are never run.",
 [S+"audio_processor.rs"],
 [("channel mixdown", S+"audio_processor.rs load")],
 ["Fingerprinter::consume", "Fingerprinter::fingerprint"])

prop("C04", "Published items are final, arrive in order, and finish completes them",
 "Between a start and the next one the fingerprint only ever grows by appending: items once visible never change or disappear, no item appears before the audio it describes was supplied, and visible items never lag the supplied audio by more than one internal buffer of 32768 frames. After finish nothing is held back, and a finish with no audio since the last one, an empty consume, or reading the fingerprint changes nothing.",
 ["histories", "inputs"], "every interleaving of consume, finish and fingerprint calls within a session, at the internal rate and at others",
 "Tests look at the output of a stage once at the end; intermediate observations and repeated finishes are never made.",
 [S+"fingerprinter.rs", S+"audio_processor.rs", S+"fft.rs", S+"fingerprint_calculator.rs"],
 [("append-only item vector", S+"fingerprint_calculator.rs consume"), ("flush", S+"audio_processor.rs flush")],
 ["Fingerprinter::fingerprint after every call"])

prop("C05", "Item count, delay() and item duration tell the truth about time",
 "With hop = frame size - overlap, a finished session of n mono frames at the internal rate (11025 Hz) yields exactly max(0, floor((n - delay()) / hop)) items, where delay() = (smoothing length - 1 + widest classifier - 1) * hop + overlap, and item_duration_in_seconds() = hop / 11025. The five presets have frame 4096 / overlap 2731 (preset 5: 2048 / 1024), five smoothing coefficients and 16-frame classifiers, and identify themselves with ids 0 to 4.",
 ["inputs", "configurations", "histories"], "every stream length and every valid configuration (frame size, overlap, 1 to 8 smoothing coefficients, preset classifiers)",
 "No test counts items end to end or calls delay/item_duration; off-by-one at the exact length where an item appears needs chosen lengths.",
 [S+"fingerprinter.rs", S+"fft.rs", S+"chroma_filter.rs", S+"fingerprint_calculator.rs"],
 [("framing loop", S+"fft.rs consume"), ("smoothing warm-up", S+"chroma_filter.rs consume"), ("window warm-up", S+"fingerprint_calculator.rs consume"), ("delay formula", S+"fingerprinter.rs Configuration::delay")],
 ["Fingerprinter::fingerprint().len()", "Configuration::delay", "Configuration::item_duration_in_seconds", "Configuration::id"])

prop("C06", "Rejected calls are reported as such and leave no trace",
 "start fails exactly when the channel count is zero or the sample rate is 1000 Hz or less, with the error naming the cause (no channels first), and a failed start leaves the running session, its published items and its future output exactly as if the call had not been made. A consume call whose length is not a whole number of frames is refused by panicking before any sample is taken, so the session continues unharmed for a caller that catches it.",
 ["histories", "inputs", "configurations"], "every history with failing calls inserted at any point (before any start, mid-session, after finish); every u32 rate and channel count",
 "No test makes a failing call.",
 [S+"audio_processor.rs", S+"fingerprinter.rs"],
 [("argument checks before any mutation", S+"audio_processor.rs reset"), ("whole-frame assertion at entry", S+"audio_processor.rs consume")],
 ["Fingerprinter::start result", "Fingerprinter::consume panic", "Fingerprinter::fingerprint"])

prop("C07", "Every item is the value the Chromaprint algorithm prescribes",
 "Item i is the 16 two-bit Gray-coded outputs, first classifier in the most significant bits, of the preset's classifiers on feature rows i..i+15; a row is the 12-band chroma energy (bands a semitone wide starting at A, from 28 Hz up to but excluding 3520 Hz) of Hamming-windowed frames of i16 samples, smoothed over consecutive frames with the configured coefficients and scaled to unit length (or to zeros when its length is below 0.01). Each classifier compares its two image areas A and B by ln((1+A)/(1+B)) against three increasing thresholds.",
 ["inputs", "configurations"], "every sample sequence, every preset, any frame size / overlap / 1-8 non-negative smoothing coefficients",
 "Each numeric stage is tested alone on one or two tiny vectors; no test composes them, none covers the classifier tables, the bit order, the Gray code, or the band edges.",
 [S+"fft.rs", S+"chroma.rs", S+"chroma_filter.rs", S+"chroma_normalizer.rs", S+"rolling_image.rs", S+"filter.rs", S+"quantize.rs", S+"classifier.rs", S+"fingerprint_calculator.rs", S+"fingerprinter.rs"],
 [("signal chain", S+"fft.rs .. fingerprint_calculator.rs"), ("classifier tables", S+"fingerprinter.rs CLASSIFIER_TEST1..3")],
 ["Fingerprinter::fingerprint"])

prop("C08", "Items are local in time, for streams of any length",
 "An item depends only on the samples its own window covers (frame size + (smoothing length - 1 + 15) * hop samples): changing or adding audio outside that window never changes it, and dropping the first m * hop samples of a stream at the internal rate drops exactly the first m items. This stays true after any amount of audio, in particular far beyond the 256 feature rows kept internally.",
 ["inputs", "histories"], "every stream, every cut point that is a multiple of the hop, every change outside the window, streams of thousands of items",
 "The rolling image is tested with 6 rows of capacity 5; the production capacity of 256 rows is never filled, let alone wrapped.",
 [S+"rolling_image.rs", S+"chroma_filter.rs", S+"fft.rs", S+"fingerprint_calculator.rs"],
 [("rolling integral image", S+"rolling_image.rs"), ("circular smoothing buffer", S+"chroma_filter.rs")],
 ["Fingerprinter::fingerprint of related streams"])

prop("C09", "Loudness does not matter, and silence has one fingerprint",
 "Scaling all samples of a mono stream by a power of two (without clipping, and above the silence floor) leaves the fingerprint unchanged, negating every sample leaves it unchanged, and any window whose smoothed band energies all stay below the silence floor gives the same item as digital silence in that preset.",
 ["inputs", "configurations"], "every sample sequence and power-of-two gain that does not clip; every stretch of near-silence in any position",
 "Normalisation is tested on three 4-element vectors; scale invariance of the whole chain is never examined.",
 [S+"chroma_normalizer.rs", S+"fft.rs", S+"audio_processor.rs"],
 [("unit-length normalisation with silence floor", S+"chroma_normalizer.rs")],
 ["Fingerprinter::fingerprint of scaled streams"])

prop("C10", "Every configuration option has its documented effect",
 "with_interpolation(true) spreads each spectral bin over the two nearest bands, with_coefficients, with_frame_size and with_frame_overlap change the signal chain as documented, with_id changes only the compressed header, and with_removed_silence(threshold) leaves out leading audio quieter than the threshold. Presets turn on exactly the options they name: interpolation in preset 3 only, silence removal with threshold 50 in preset 4 only, a halved frame in preset 5 only.",
 ["configurations", "inputs"], "every builder option on every preset, every sample sequence",
 "No test builds a Fingerprinter from a Configuration; an option that is stored and never read is invisible to stage-level tests.",
 [S+"fingerprinter.rs", S+"chroma.rs"],
 [("options wired into stages", S+"fingerprinter.rs Fingerprinter::new"), ("interpolated band assignment", S+"chroma.rs consume")],
 ["Fingerprinter::fingerprint", "FingerprintCompressor::compress"])

prop("C11", "Audio at any other sample rate is converted to the internal rate",
 "A session of n frames at a rate r other than 11025 is fingerprinted as its conversion to 11025 Hz: the item count is that of n * 11025 / r samples less the resampler's fixed latency, whatever n and r > 1000, with no block lost, repeated or reordered, and audio that is band-limited and sampled at r gives items that agree, within a small fraction of bits, with those of the same audio sampled at 11025 Hz.",
 ["inputs", "configurations"], "every rate from 1001 Hz to u32::MAX, every length including those around multiples of the internal buffer",
 "The two tests of resampling are #[ignore]d (and fail); nothing else runs the resampler.",
 [S+"audio_processor.rs"],
 [("chunked resampling with final short chunk", S+"audio_processor.rs resample")],
 ["Fingerprinter::fingerprint at rates other than 11025"])

prop("C12", "Compression is lossless and self-describing",
 "For every configuration id and every fingerprint of fewer than 2^24 items, the compressed bytes alone determine the id and every item exactly: decoding them by the AcoustID format returns the same id and the same items, and two different fingerprints never compress to the same bytes.",
 ["inputs", "configurations"], "every u32 sequence of length 0 to 2^24 - 1 and every id 0..255",
 "One 32-item vector is compared with a golden output; sparse items (single high bits, zero differences, gaps of 7 and more), other lengths modulo 8 and empty input are not covered.",
 [S+"compression.rs"],
 [("delta coding of set bits with exception list", S+"compression.rs compress_subfingerprint"), ("bit packing", S+"compression.rs iter_packed_intn_array")],
 ["FingerprintCompressor::compress"])

prop("C13", "Compressed bytes follow the AcoustID wire format exactly",
 "The output is: the id byte, the item count as 24-bit big-endian, then for each item XOR its predecessor the gaps between successive set bits (from bit 0) as 3-bit codes ended by 0, packed little-endian first into whole bytes, then for each code 7 the excess gap as 5-bit codes packed likewise; unused bits are zero and the total length is 4 + ceil(3a/8) + ceil(5b/8) bytes. The same input always gives the same bytes.",
 ["inputs", "configurations"], "every u32 sequence and every id",
 "One golden vector; packing of partial groups is tested only for 1, 9 and 64 elements, header only for one length and one id.",
 [S+"compression.rs", S+"fingerprinter.rs"],
 [("header and stream layout", S+"compression.rs compress")],
 ["FingerprintCompressor::compress"])

prop("C14", "Matching aligns on the offset with most coincidences",
 "match_fingerprints reports segments on a single relative offset of the two fingerprints: the one at which most pairs of items agree in their top 12 bits (the largest first-minus-second offset among equals), provided at least two pairs agree; otherwise it reports no segment. All reported segments have the same offset1 - offset2.",
 ["inputs"], "every pair of fingerprints (repetitive, constant, disjoint, empty, very different lengths)",
 "One pair of 221 items with one clear alignment; ties, repeated hashes, negative offsets and empty inputs are not covered.",
 [S+"fingerprint_matcher.rs"],
 [("hash sort and offset histogram", S+"fingerprint_matcher.rs match_fingerprints")],
 ["match_fingerprints result"])

prop("C15", "Reported segments are real: in bounds, disjoint, in order, truthful score",
 "Every reported segment is non-empty and lies inside both fingerprints; segments come in increasing order and do not overlap; and each score is the mean number of differing bits per item pair over exactly that segment and is below 10.",
 ["inputs"], "every pair of fingerprints",
 "One example with one segment; bounds, order and score are not examined over inputs with several segments or merges.",
 [S+"fingerprint_matcher.rs", S+"gaussian.rs", S+"gradient.rs"],
 [("segment construction and merge", S+"fingerprint_matcher.rs match_fingerprints, Segment::try_merge")],
 ["match_fingerprints result"])

prop("C16", "Segment boundaries follow the smoothed error profile",
 "Along the chosen alignment the overlap is cut at local maxima (at least two items apart) of the absolute gradient, above 0.15, of the bit-error profile smoothed by the three-pass box approximation (widths 15, 15, 17, mirrored at the ends) of a Gaussian of width 8; a piece is kept exactly when its mean error is below 10 and is joined to the kept piece it touches exactly when their scores differ by less than 0.7. So a well-matching stretch is never dropped and pieces separated by a bad stretch are never joined.",
 ["inputs"], "every pair of fingerprints, up to ties of the real-valued profile",
 "One example; no test has two segments, a rejected piece, a merge, or an overlap shorter than the smoothing window.",
 [S+"fingerprint_matcher.rs", S+"gaussian.rs", S+"gradient.rs"],
 [("gradient peaks", S+"fingerprint_matcher.rs match_fingerprints"), ("box filter", S+"gaussian.rs"), ("gradient", S+"gradient.rs")],
 ["match_fingerprints result"])

prop("C17", "Identical and excerpted audio is recognised",
 "Matching a fingerprint of two or more items with itself yields exactly one segment covering all of it with score 0, and matching it with a contiguous excerpt of at least two items whose best alignment is unique yields exactly one segment covering the excerpt with score 0 at the excerpt's position; swapping the arguments swaps the offsets.",
 ["inputs"], "every fingerprint and every excerpt",
 "The one test matches two recordings of a song; identity and excerpts of other shapes and lengths are not run.",
 [S+"fingerprint_matcher.rs"],
 [("alignment and segmentation", S+"fingerprint_matcher.rs match_fingerprints")],
 ["match_fingerprints result"])

prop("C18", "Over-long fingerprints are refused, and only those",
 "match_fingerprints returns FingerprintTooLong exactly when an argument has 524286 items or more, with index 0 if the first is too long and 1 if only the second is; any shorter pair is matched without error or panic.",
 ["inputs"], "every pair of lengths",
 "No test goes near the limit or makes the call fail.",
 [S+"fingerprint_matcher.rs"],
 [("length checks", S+"fingerprint_matcher.rs match_fingerprints"), ("bit layout of packed offsets", S+"fingerprint_matcher.rs masks")],
 ["match_fingerprints result"])

prop("C19", "Segment times are item positions times item duration",
 "For any segment and configuration, start1/start2/duration equal offset1/offset2/items_count times the configuration's item duration, end1/end2 equal start plus duration, and the compare program prints, for the two files given, one row per matched segment with those times rounded to hundredths as H:MM:SS.cc and the score to two decimals.",
 ["inputs", "configurations"], "every segment (offsets up to the limit), every configuration, every pair of readable audio files",
 "No test calls these functions or runs the program.",
 [S+"fingerprint_matcher.rs", "compare/src/main.rs", "compare/src/utils.rs"],
 [("time conversion", S+"fingerprint_matcher.rs impl Segment"), ("time rendering", "compare/src/utils.rs")],
 ["Segment methods", "stdout of compare"])

prop("C20", "fpcalc fingerprints exactly the requested audio, chunk by chunk",
 "fpcalc fingerprints the first --length seconds of the file's first audio track (all of it for 0) and nothing else; with --chunk N every frame of that goes to exactly one chunk, chunks are N seconds each (the last may be shorter), in order, and each printed fingerprint is the library's fingerprint of just those frames, with its duration and start time being those frames'. Without --chunk there is one result.",
 ["inputs", "configurations"], "every file length, rate (including those where a packet spans a chunk boundary), channel count, and every --length/--chunk combination",
 "fpcalc has no tests at all.",
 ["fpcalc/src/main.rs"],
 [("read loop with stream and chunk limits", "fpcalc/src/main.rs main")],
 ["stdout and exit status of fpcalc"],
 [("stream_size", "frames taken from the file", "main"), ("chunk_size", "frames in the current chunk", "main")])

prop("C21", "fpcalc --overlap loses nothing at chunk boundaries",
 "With --chunk N --overlap the printed chunk fingerprints, concatenated, are, item for item, the fingerprint of the whole stream, each of them holding the items that are complete by the end of its chunk (the first chunk being longer by the fingerprinter's delay), every chunk is printed whether or not the stream ends inside the first one, and each chunk's duration exceeds its share of the stream by the fingerprinter's delay in seconds.",
 ["inputs", "configurations"], "every file length, rate and chunk length",
 "fpcalc has no tests at all.",
 ["fpcalc/src/main.rs"],
 [("overlap handling", "fpcalc/src/main.rs main")],
 ["stdout and exit status of fpcalc"])

prop("C22", "All fpcalc output forms carry the same fingerprint",
 "For the same file and algorithm, -R (unsigned), -R -s (signed) and the default (URL-safe base64 without padding of the compressed form) encode the same items, in text, JSON and plain layouts alike; JSON lines parse as JSON, and -a K selects preset K+1 for K = 0..4 and is refused otherwise.",
 ["inputs", "configurations"], "every option combination on every readable file",
 "fpcalc has no tests at all.",
 ["fpcalc/src/main.rs"],
 [("result printer", "fpcalc/src/main.rs ResultPrinter::print_result"), ("algorithm parser", "fpcalc/src/main.rs Algorithm::try_from")],
 ["stdout and exit status of fpcalc"])

prop("C23", "Fingerprinters are independent and deterministic",
 "Any number of fingerprinters, with the same or different configurations, used in any interleaving (on one thread or several) each report exactly what they would report alone, and repeating the same calls in the same or another process gives the same fingerprint.",
 ["schedules", "histories", "configurations"], "every interleaving of calls on two or more instances, every thread placement, repeated runs",
 "Tests never have two fingerprinters alive.",
 [S+"fingerprinter.rs", S+"audio_processor.rs", S+"fft.rs"],
 [("no shared state between instances", S+"fingerprinter.rs Fingerprinter::new")],
 ["Fingerprinter::fingerprint"])

prop("C24", "Damaged or foreign files are refused or used as far as they go",
 "A file that is missing, is not audio, ends inside its header or has a sample rate the library refuses makes fpcalc and compare exit with a failure status and print no result, as do command lines that make no sense. A file cut off at any byte of its audio gives exactly the results of the file that ends with the last frame (in packetised formats, packet) that is wholly there: same fingerprints, chunks and durations, and no result at all, with success, when there is none. At a packet that cannot be decoded fpcalc stops with a failure status after the results completed before it, and compare goes on without that packet.",
 ["inputs", "faults", "configurations"], "every byte at which a file can be cut, every packet that can be broken, every option set",
 "The programs have no tests at all, and damaged input is not sampled anywhere.",
 ["fpcalc/src/main.rs", "compare/src/main.rs"],
 [("opening and probing", "fpcalc/src/main.rs AudioReader::new, compare/src/main.rs calc_fingerprint"), ("error arms of the read loops", "fpcalc/src/main.rs main, compare/src/main.rs calc_fingerprint")],
 ["stdout and exit status of fpcalc and compare"])

prop("C25", "Memory stays bounded however long a fingerprinter is used",
 "Apart from the items it publishes, the memory a fingerprinter holds between calls depends only on its configuration and the rates and channel counts it was started with: not on how much audio went through it, in how many calls, with how many finishes, starts or refused calls. Dropping it releases everything, and compressing and matching leave nothing behind.",
 ["histories", "configurations"], "every history of starts, consumes, finishes, refused calls and drops, of any length, with every configuration",
 "Unit tests run for seconds of audio and do not look at memory; a stage that keeps what it should drop gives the right items.",
 [S+"rolling_image.rs", S+"fft.rs", S+"chroma_filter.rs", S+"audio_processor.rs", S+"fingerprint_calculator.rs"],
 [("eviction of rows", S+"rolling_image.rs RollingIntegralImage::add_row"), ("consumption of framed samples", S+"fft.rs Fft::consume"), ("reset of the stages", S+"audio_processor.rs AudioProcessor::reset")],
 ["bytes allocated, counted by a global allocator in the driver"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
