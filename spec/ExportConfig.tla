----------------------------- MODULE ExportConfig -----------------------------
(* Writes the items as JSON for tools/gen_harness.py.                           *)
EXTENDS UbxConfig, Json, IOUtils
VARIABLE written
ASSUME JsonSerialize(IOEnv.OUT, [items |-> Items, variants |-> Variants])
Spec == written = TRUE /\ [][FALSE]_written
=============================================================================
