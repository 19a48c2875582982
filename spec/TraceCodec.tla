------------------------------ MODULE TraceCodec ------------------------------
(* Records of real FingerprintCompressor calls against the wire format.  PROP selects what is judged:  *)
(* C12 reads the bytes back (any reader of the format recovers id and items), C13 compares every byte. *)
EXTENDS Codec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLE l
SetOf(seq) == {seq[k] : k \in DOMAIN seq}
ItemsOf(r) == [k \in DOMAIN r.items |-> SetOf(r.items[k])]

SmallOK(r) ==
  /\ r.res = "ok"
  /\ r.same = 1
  /\ IF PROP = "C12"
     THEN LET d == Decode(r.bytes) IN d.ok /\ d.id = r.id /\ d.items = ItemsOf(r)
     ELSE r.bytes = Wire(r.id, ItemsOf(r))

(* Long fingerprints in which every item differs from its predecessor in one bit, the D-th, with       *)
(* D >= MaxN: two normal codes and one excess code per item, so that eight items fill 6 + 5 whole      *)
(* bytes and windows of eight items can be judged on their own.                                        *)
WindowOK(win, base) ==
  LET ds == win.d
      normals == FlattenSeq([k \in 1 .. Len(ds) |-> NormalOf({ds[k]})])
      excesses == FlattenSeq([k \in 1 .. Len(ds) |-> ExcessOf({ds[k]})])
  IN win.nb = Pack(normals, NB) /\ win.eb = Pack(excesses, EB)
BigOK(r) ==
  /\ r.res = "ok"
  /\ r.head = Header(r.id, r.count)
  /\ r.len = WireLength(2 * r.count, r.count)
  /\ \A k \in DOMAIN r.wins : WindowOK(r.wins[k], 0)

RecOK(r) ==
  CASE r.ev = "compress" -> SmallOK(r)
    [] r.ev = "compressbig" -> BigOK(r)

TInit == l = 0 /\ fpr = <<>> /\ i = 1 /\ bit = 0 /\ norm = <<>> /\ exc = <<>> /\ out = <<>>
TNext == l < Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
Accepted == l > 0 => RecOK(Trace[l])
==============================================================================
