------------------------------- MODULE GenFpcalc -------------------------------
(* Files and option sets for fpcalc, chosen around the laws of Fpcalc: lengths at and next to every      *)
(* boundary, packets that straddle one or several, rates at which a chunk is shorter than a packet.      *)
(* The frames each result should be about are laid out by the same law.                                  *)
EXTENDS Integers, Sequences, Rnd, Presets, Json, IOUtils, TLC

Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Kind == IOEnv.KIND         \* chunks, overlap, forms, cut

L == INSTANCE Fpcalc WITH MaxPacket <- 1, Faults <- {}, file <- 0, pkt <- <<>>, last <- FALSE, taken <- 0, fed <- <<>>,
       printed <- 0, size <- 0, first <- TRUE, outs <- <<>>, par <- <<>>, pc <- ""

X(k, j) == LcgN((Seed + 257 * k + 8191 * j) % 65537, 4)
Rr(k, j, m) == Below(X(k, j), m)
Pick(k, j, s) == s[1 + Rr(k, j, Len(s))]
(* seconds no file lasts, as the command line takes them *)
Huge == <<"4294967295", "4294967296", "4294967297", "4294967299", "389590", "1000000000000000", "1673174065642590", "1673174065642589",
          "9223372036854775807", "9223372036854775808", "18446744073709551615", "1152921504606846977">>

RatesOf == IF Kind = "overlap" THEN <<11025, 11025, 11025, 8000, 11025, 22050, 44100, 11025, 12000, 48000, 1050, 2000>>
           ELSE <<11025, 8000, 22050, 44100, 11025, 5512, 48000, 16000, 1050, 1151, 2000, 11026>>
PresetDelay(p) == (NCoef - 1 + Widest - 1) * (Frame(p) - Overlap(p)) + Overlap(p)

Case(k) ==
  LET rate == Pick(k, 1, RatesOf)
      ch == Pick(k, 2, <<1, 2, 1, 3, 2, 1, 6>>)
      alg == Rr(k, 3, 5)
      fmt == Pick(k, 4, <<"text", "json", "plain", "json">>)
      over == Kind = "overlap" \/ (Kind \in {"forms", "cut"} /\ Rr(k, 5, 4) = 0)
      chunk == IF Kind = "overlap" THEN 1 + Rr(k, 6, 9)
               ELSE IF Kind = "forms" /\ Rr(k, 6, 2) = 0 THEN 0
               ELSE Pick(k, 7, <<1, 2, 3, 4, 5, 7, 10, 3, 6, 0, 15>>)
      (* a chunk longer than any file here: which one it is makes no difference *)
      vast == chunk > 0 /\ Rr(k, 21, 9) = 0
      extra == IF over /\ chunk > 0 THEN (PresetDelay(alg + 1) * rate) \div 11025 ELSE 0
      c == chunk * rate
      (* a boundary of the law, or any length *)
      unit == IF c = 0 THEN 5 * rate ELSE c
      times == 1 + Rr(k, 8, IF unit > 8 * rate THEN 4 ELSE 7)
      edge == CASE Rr(k, 9, 6) \in {0, 1} -> times * unit + extra
                [] Rr(k, 9, 6) = 2 -> times * unit
                [] Rr(k, 9, 6) = 3 -> times * unit + Rr(k, 10, 4096) * (rate \div 4096 + 1)
                [] Rr(k, 9, 6) = 4 -> IF extra > 0 THEN extra ELSE times * unit + rate
                [] OTHER -> 1 + Rr(k, 10, 4096) * (rate \div 512 + 1)
      n0 == edge + Pick(k, 11, <<0, 1, -1, 0, 2, 17, -500>>)
      n1 == IF n0 < 1 THEN 1 ELSE IF n0 > 45 * rate THEN 45 * rate ELSE n0
      (* now and then more than the two minutes taken by default *)
      long == rate <= 8000 /\ Rr(k, 19, 3) = 0
      n == IF long THEN 120 * rate + Pick(k, 11, <<0, 1, -1, 5000, 2, 17, 40000>>) ELSE n1
      limit == IF long THEN -1 ELSE Pick(k, 12, <<0, 0, -1, 1, 2, 5, 9, (n + rate - 1) \div rate, n \div rate + 1, 13>>)
      lim == IF limit < 0 THEN 120 ELSE limit
      flac == Rr(k, 13, 2) = 1
      sizes == Pick(k, 14, << <<4096>>, <<1152, 16, 1000>>, <<65535>>, <<rate>>, <<c>>, <<c + extra>>, <<2 * c + 5, 100>>, <<4608, 192>>,
                              <<c \div 2 + 1, 77>>, <<extra + 1, 20000>>, <<23, 65535, 31>> >>)
      (* FLAC may come in Matroska, among packets of other tracks, as many as `foreign` says before each of ours: *)
      (* m the audio, s subtitles, u audio of unknown coding, o other audio                                       *)
      tracks == IF flac /\ ch \in {1, 2, 3, 6} /\ Rr(k, 25, 5) < 2 THEN Pick(k, 26, <<"m", "mo", "umo", "smo", "usmos", "sums", "moo">>) ELSE ""
      ok(s) == IF s < 16 THEN 16 ELSE IF s > 65535 THEN 65535 ELSE s
      asked == IF vast THEN 40000 ELSE chunk
  IN [rate |-> rate, ch |-> ch, alg |-> alg, fmt |-> fmt, overlap |-> IF over THEN 1 ELSE 0, chunk |-> asked, n |-> n,
      chunkw |-> IF vast THEN Pick(k, 22, Huge) ELSE "",
      limit |-> limit, limitw |-> IF limit = 0 /\ Rr(k, 23, 2) = 0 THEN Pick(k, 24, Huge) ELSE "", raw |-> Rr(k, 15, 2), signed |-> IF Rr(k, 16, 3) = 0 THEN 1 ELSE 0, ts |-> IF Rr(k, 17, 4) = 0 THEN 1 ELSE 0,
      flac |-> IF flac /\ ch <= 8 THEN 1 ELSE 0,
      file |-> Pick(k, 20, <<"16", "16", "24", "8", "16", "32", "f32", "aiff", "f64">>), sizes |-> [j \in DOMAIN sizes |-> ok(sizes[j])],
      tracks |-> tracks, foreign |-> Pick(k, 27, << <<0>>, <<1>>, <<0, 2>>, <<3, 0, 1>>, <<0, 0, 0, 0, 5>>, <<2, 1>> >>),
      seed |-> X(k, 18), t |-> L!Taken(n, lim * rate), extra |-> extra,
      lay |-> L!Law(n, lim * rate, asked * rate, extra)]

(* the same files, cut off somewhere or with a packet that cannot be decoded *)
Damaged(k) ==
  LET c == Case(k)
      broken == Rr(k, 30, 4) = 0
      form == IF c.flac = 1 \/ broken THEN "flac" ELSE c.file
      head == L!HeadOf(form)
      align == L!Wide(form) * c.ch
      p == L!Least(c.n - 1, ((c.n \div 4095) + 1) * Rr(k, 33, 4096))
      q == TLCEval(L!WithFrame(c.n, c.ch, c.sizes, p))
      byte == IF Rr(k, 31, 8) = 0 THEN Rr(k, 32, head + 2)
              ELSE IF form = "flac" THEN q.end + Pick(k, 34, <<0, -1, 0, -2, -100, 0, -1 - (q.frames * c.ch)>>)
              ELSE head + p * align + Pick(k, 34, <<0, 1, -1, align - 1, align>>)
      cut0 == IF byte < 0 THEN 0 ELSE byte
      (* a packet followed by part of a packet's header may not be made out *)
      cut == IF form # "flac" \/ cut0 < head THEN cut0
             ELSE LET z == TLCEval(L!LastWithin(c.n, c.ch, c.sizes, cut0)) IN IF cut0 - z.end < 20 THEN z.end ELSE cut0
      there == IF broken THEN c.n ELSE L!Present(form, c.n, c.ch, c.sizes, cut)
      n == IF there < 0 THEN 0 ELSE there
      lim == (IF c.limit < 0 THEN 120 ELSE IF c.limitw # "" THEN 0 ELSE c.limit) * c.rate
      bad == IF broken THEN q ELSE [at |-> -1, frames |-> 0, end |-> 0]
  IN [c EXCEPT !.flac = IF form = "flac" THEN 1 ELSE 0, !.file = form, !.tracks = IF broken THEN @ ELSE "", !.t = L!Taken(n, lim), !.lay = L!Law(n, lim, c.chunk * c.rate, c.extra)]
     @@ [cut |-> IF broken THEN -1 ELSE cut, there |-> there, bad |-> bad.at, badlen |-> bad.frames]

VARIABLE done
GInit == done = FALSE
GNext == ~done /\ ndJsonSerialize(IOEnv.OUT, [k \in 1 .. Count |-> IF Kind = "cut" THEN Damaged(k) ELSE Case(k)]) /\ done' = TRUE
==============================================================================
