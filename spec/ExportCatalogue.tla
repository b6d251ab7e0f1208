--------------------------- MODULE ExportCatalogue ---------------------------
(* Writes the catalogue as JSON for tools/gen_harness.py.                     *)
EXTENDS UbxCatalogue, Json, IOUtils, TLC
VARIABLE written
ASSUME JsonSerialize(IOEnv.OUT, [messages |-> Messages, blocks |-> Blocks, order |-> Order,
                                 enums |-> Enums, flags |-> FlagSets])
Spec == written = TRUE /\ [][FALSE]_written
=============================================================================
