------------------------------ MODULE UbxFeatures ------------------------------
(* The features of the crate: what a build with a set of them offers, and that  *)
(* nothing else depends on them (C23).                                          *)
FeatureNames == {"std", "alloc", "serde"}
Builds == SUBSET FeatureNames
Offers(fs, op) ==
  CASE op = "vec" -> fs \cap {"std", "alloc"} # {}    \* Parser over Vec<u8>
    [] op = "vecsink" -> "std" \in fs                 \* create_packet into Vec<u8>
    [] op = "intovec" -> "alloc" \in fs               \* into_packet_vec
    [] op = "serialize" -> "serde" \in fs             \* Serialize of packets
    [] op = "stderror" -> "std" \in fs                \* errors are std::error::Error
    [] OTHER -> TRUE
OfferedBy(op) == {fs \in Builds : Offers(fs, op)}
=============================================================================
