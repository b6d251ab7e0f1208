# further claimed properties (exec'd by gen_manifest.py)
N.update({
 "C18": ("op sequences over Vec and FixedLinearBuffer (all short ones, random long ones) recorded with full contents and the bytes around the caller's slice, accepted by TLC as behaviours of spec/ByteQueue, itself model-checked",),
})
CAT = "frames enumerated by TLC from the message catalogue (spec/UbxCatalogue: every boundary length, field extreme, enumeration code, flag, sub-bit-field, block count, text) and seeded mutations are fed to the real parser; "
N.update({
 "C08": (CAT + "TLC judges the delivered type against Dispatch (first accepting candidate, else Unknown); also byte sweeps over every validated byte and a sample of all class/id pairs",),
 "C09": (CAT + "TLC judges every accessor and raw accessor against the catalogue's offset, width, type, scale and sub-bit-fields",),
 "C10": (CAT + "any panic of an accessor, iterator, Debug or Serialize is recorded and rejected by TLC",),
 "C15": (CAT + "TLC judges the items, order, count, size hints, texts and optional trailers",),
 "C16": (CAT + "the values offered to a recording serializer are compared by TLC, key by key, with the catalogue",),
})
BLD = "field values enumerated by TLC (spec/GenBuild: every enumeration code, flag, extreme, and scaled values at, between and halfway between steps and beyond the range) and seeded combinations are given to every fixed-size builder; "
N.update({
 "C11": (BLD + "TLC judges PACKET_LEN and the bytes by every route against the frame of spec/UbxBuild",),
 "C12": (BLD + "the frame is parsed back, observed and rebuilt; TLC judges type, values and bytes, rounding and saturation, defaults",),
 "C13": ("item lists enumerated by TLC (up to a payload of 65535 bytes) and random ones are appended to empty and non-empty buffers of two types; TLC judges the whole buffer",),
 "C14": ("every item of spec/UbxConfig with every interesting value is written, extended, parsed and iterated; TLC judges bytes, counts and the value read back",),
 "C17": ("position, velocity, date and time conversions of every packet that offers them, over boundary values enumerated by TLC (spec/GenConvert) and seeded ones; TLC judges each quantity against the exact integer computation of spec/UbxConvert",),
 "C19": ("metadata, poll and rate frames of every packet type, and which of all 65536 acknowledgements each type accepts, judged by TLC",),
 "C21": ("every value of every byte of every enumeration and flag set is received (accessor and serialized number) and every variant and flag is built; judged by TLC",),
 "C24": (BLD + "a recording sink fails at every call with either error; TLC judges calls, result and bytes",),
})
N.update({
 "C20": ("definitions enumerated by TLC (spec/GenDerive: packets, extensible types, bitflags, receive lists; one inconsistency each, or consistent shapes) are given to the real macros inside the real crate; TLC judges acceptance, and offsets, sizes, accepted lengths, values read and bytes built",),
 "C23": ("the same driver is built with each of the 8 feature sets and run on inputs enumerated by TLC; TLC judges that each build offers what it should, that all agree, and that the common result is that of the specification",),
})
N.update({
 "C22": ("the dialogue (spec/UbxDevice) is model-checked; ublox-cli runs on a pseudo terminal with options and receiver scripts enumerated by TLC (spec/GenCli: every option combination class, acknowledgements and look-alikes, every split in time), line settings recorded by a preloaded shim; TLC judges settings, messages and when each is sent (spec/TraceCli). Four known findings, in the example program itself",),
})
N.update({
 "C25": ("spec/UbxAid (position and time set in any order) is model-checked; positions, instants and orders of calls enumerated by TLC are set on the real builder and the frame after each call judged by TLC",),
})
N.update({
 "C26": ("spec/UbxLossy (drops at any time, pending bytes explicit) is model-checked; streams, chunkings, polls and drops over buffers of every kind are run on the real parser and judged by TLC, which follows every way of keeping bytes the specification allows",),
})
N.update({
 "C27": (CAT + "TLC composes the printed text of packets, blocks, Unknown and errors from field names and values and compares it with what is printed",),
})
N.update({
 "C28": ("values enumerated by TLC (spec/GenKept) are serialized and read back by the real code; TLC judges the serialized form against spec/UbxKept and that nothing changed",),
})
N.update({
 "C29": ("packets of every type, positions and times at their limits and at halves, damaged frames and noise are enumerated by TLC (spec/GenShow) and sent to ublox-cli over a pseudo terminal at once and in pieces; TLC judges that the lines printed are those the packets call for (spec/UbxShow). One known finding, in the example program itself",),
})
