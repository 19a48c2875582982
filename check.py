#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree (see DESIGN.md)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core
import props_codec
import props_fpcalc
import props_match
import props_rel
import props_session
import props_signal
import props_times

MC = "model_checking"
TABLE = {
    "C01": (props_session.c01, MC),
    "C02": (props_session.c02, MC),
    "C03": (props_session.c03, MC),
    "C04": (props_session.c04, MC),
    "C05": (props_session.c05, MC),
    "C06": (props_session.c06, MC),
    "C07": (props_signal.c07, MC),
    "C10": (props_signal.c10, MC),
    "C08": (props_rel.c08, MC),
    "C09": (props_rel.c09, MC),
    "C11": (props_rel.c11, MC),
    "C14": (props_match.check, MC),
    "C15": (props_match.check, MC),
    "C16": (props_match.check, MC),
    "C17": (props_match.check, MC),
    "C18": (props_match.check, MC),
    "C19": (props_times.c19, MC),
    "C20": (props_fpcalc.c20, MC),
    "C21": (props_fpcalc.c21, MC),
    "C22": (props_fpcalc.c22, MC),
    "C23": (props_session.c23, MC),
    "C24": (props_fpcalc.c24, MC),
    "C25": (props_session.c25, MC),
    "C12": (props_codec.check, MC),
    "C13": (props_codec.check, MC),
}

SESSION = ("TLA+/TLC: exhaustive session and pipeline models; behaviours generated from the specification replayed on the "
           "real code and its records validated against the specification")
TRUST = " Trusts TLC, the driver's projection of calls to records, and that equal audio descriptions give equal samples."
NOTES = {
    "C01": (SESSION, "All histories of a reduced model; on the code, generated histories with abandoned, finished and "
            "restarted sessions at several rates, channel counts and configurations: every reading equals that of the "
            "same audio in any other session." + TRUST),
    "C02": (SESSION, "All partitions of short streams on small buffers in the model; on the code, generated and chosen "
            "partitions around every internal buffer size, at the internal and other rates." + TRUST),
    "C03": (SESSION, "The specification computes the mix of extreme and random frames itself; the code's fingerprint of "
            "the interleaved stream equals that of the specified mono stream. 1 to 131072 channels." + TRUST),
    "C04": (SESSION, "Append-only growth, bounds from above and below on the visible items after every call, exact at "
            "the internal rate; observed after every call of every generated history." + TRUST),
    "C05": (SESSION, "Item counts predicted by the specification for every configuration and length tried, around every "
            "length where the count changes; delay, item duration, preset constants." + TRUST),
    "C06": (SESSION, "Failing calls (zero channels, low rates, ragged buffers) at every position of generated "
            "histories." + TRUST),
    "C07": ("TLA+/TLC: fixed-point specification of the whole numeric chain executed frame by frame against recorded "
            "items of the real code", "All frame sizes 16 to 512 sampled with dense signals, the published presets with "
            "sparse ones; codes within 1/2000 of a threshold and rows within 1/500 of the silence floor are not judged."),
    "C08": ("TLA+/TLC: locality specification judging recorded fingerprints of related streams; exhaustive pipeline model",
            "Window-by-window equality between streams that share audio, for streams up to 12000 items (quick) and "
            "positions beyond the rolling image's capacity; periodic streams of more than 2^20 items (thorough: 2^32 samples), "
            "whose last items must be those of a short stream of the same." + TRUST),
    "C09": ("TLA+/TLC: scale, sign and silence relations judged on recorded fingerprints; fixed-point chain around the "
            "silence floor", "Exact powers of two from 1/8 to 8 and negation; near-silence bounded from the documented "
            "floor." + TRUST),
    "C10": ("TLA+/TLC: fixed-point specification parameterised by every option, executed against recorded items",
            "Interpolation, coefficients, frame size, overlap and id in random combination; silence removal is a "
            "recorded finding (never implemented)."),
    "C11": ("TLA+/TLC: block model of the conversion (counts exact for any rate), closeness of conversions of the same "
            "signal, and equality of shifted streams", "Item counts at rates from 1001 Hz to 2^32-1; audio agreement at 20 rates "
            "between 8 and 100 kHz within the specification's bit-error bound; at 2, 4, 8 and 16 times the internal rate items "
            "whose frames agree are equal wherever the frames lie in the converter's blocks." + TRUST),
    "C12": ("TLA+/TLC: exhaustive small-width codec model; real compressor output decoded by the specification",
            "Lossless for every fingerprint of the small-width models; on the real format every (last bit, next bit) "
            "transition, every length modulo 8, counts up to 2^24-1 and seeded random fingerprints are decoded by "
            "the specification. Trusts TLC and the driver's bit-list projection."),
    "C13": ("TLA+/TLC: exhaustive small-width codec model; real compressor output compared byte for byte with the "
            "specification", "As C12, with every byte equal to the specified wire format (long fingerprints: header, "
            "length and windows of eight items)."),
    **{p: ("TLA+/TLC: matcher specification checked exhaustively on small models; pairs generated from it and chosen "
           "ones matched by the real code, result validated segment by segment", note) for p, note in {
        "C14": "The chosen alignment is recomputed by the specification for every pair, ties included.",
        "C15": "Bounds, order, disjointness and score recomputed by the specification for every reported segment.",
        "C16": "Boundaries recomputed in fixed point; a boundary within the model's error of a decision is not judged.",
        "C17": "Self matches and unique excerpts of generated fingerprints, swapped arguments included.",
        "C18": "Lengths around 524286 in both positions, and random ones."}.items()},
    "C19": ("TLA+/TLC: specification of segment times and of the compare program's rows, judging values recorded from the "
            "library and rows printed by the program", "All presets and custom hops over the whole range of offsets; real "
            "files of several forms, rates and channel counts, some beyond an hour. Segments themselves are C14-C16."),
    "C20": ("TLA+/TLC: exhaustive model of fpcalc's packet loop against its laws; runs of the real program on generated "
            "files judged by the specification", "All small files, packetisations and options in the model; on the "
            "program, WAV (8 to 64 bits, integer and float), AIFF and FLAC files with chosen packet sizes, lengths at and next to "
            "every boundary, 12 rates, 1 to 6 channels, limits past any file; each printed fingerprint equals the library's for exactly the frames the law lays out."),
    "C21": ("TLA+/TLC: exhaustive model of fpcalc's packet loop against its laws; runs of the real program on generated "
            "files judged by the specification", "As C20 with overlap; item for item at every rate."),
    "C22": ("TLA+/TLC: wire-format and output specification decoding what the real program prints",
            "Every form of output for each file; base64 and bit format decoded by the specification; refused algorithm "
            "values from a list."),
    "C24": ("TLA+/TLC: exhaustive model of fpcalc's packet loop with files that end or break anywhere; byte layout of the file "
            "forms specified; runs of the real programs on cut and broken files judged by the specification",
            "Files cut at chosen bytes (in the header, at and next to frame and packet ends), FLAC packets with an impossible "
            "subframe, files that are not audio, rates the library refuses, senseless command lines."),
    "C23": (SESSION, "Interleavings of several fingerprinters, on one and several threads and in separate processes; "
            "every reading equals that of the same audio alone." + TRUST),
    "C25": ("TLA+/TLC: boundedness of every stage as an invariant of the exhaustive pipeline model; histories of the real code with "
            "the bytes in use after every call judged by the memory specification",
            "Sessions of up to 1.5 million items (quick), 10^5 calls, finishes, starts and refused calls; a leak below some "
            "megabytes over such a history is not seen."),
}
NOT_APPLICABLE = {}

if __name__ == "__main__":
    sys.exit(core.main(TABLE))
