#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PA='ublox/src/parser.rs'; PK='ublox/src/ubx_packets/packets.rs'; UP='ublox/src/ubx_packets.rs'
CV='ublox/src/ubx_packets/cfg_val.rs'; TY='ublox/src/ubx_packets/types.rs'; ER='ublox/src/error.rs'
DO='ublox_derive/src/output.rs'; DI='ublox_derive/src/input.rs'; DT='ublox_derive/src/types.rs'
CL='examples/ublox-cli/src/main.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':mech,'where':', '.join(files)}]}
    if state: a['state']=[{'name':x,'meaning':'','where':files[0]} for x in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,
              'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','How the input is split never changes what a growable parser yields',
  'For a Parser over a growable (Vec) buffer, the concatenated sequence of results of next() (packets and errors) over a byte stream is the same however the stream is cut into consume() calls, including empty and one-byte chunks and iterators dropped before they are exhausted (the rest is yielded by later calls), and equals the result of feeding the whole stream at once; the bytes still buffered once the last iterator is exhausted are the same too. Bytes already in the Vec the parser is made with count as fed first.',
  ['inputs','schedules'],'every byte stream, every partition of it into consume() calls and every polling/early-drop schedule that ends with an exhausted iterator',
  'A stream of n bytes has 2^(n-1) partitions and each can be polled in many ways; tests try a few cuts of a few packets.',
  [PA],'Parser::consume / DualBuffer: the base buffer and the new chunk are exposed as one buffer; Drop saves the unread rest',
  ['Parser.buf','DualBuffer.off','DualBuffer.new_buf_offset'],['Parser::consume','ParserIter::next','Parser::buffer_len'])
p('C02','Only well-formed frames of the stream are delivered, verbatim, once and in order',
  'Every packet yielded by next() is one occurrence in the input of B5 62, class, id, a little-endian length of at most 8176, exactly that many payload bytes and the matching Fletcher-8 checksum over class..payload; the packet carries exactly that class, id and payload, and successive packets are non-overlapping occurrences in stream order. This holds for every buffer type and capacity (a bounded one while every iterator is exhausted before the next consume(); see C26 for the others).',
  ['inputs','schedules'],'every byte stream, chunking and underlying buffer',
  'The set of malformed and hostile streams (embedded sync patterns, corrupt lengths, near-miss checksums) is unbounded; tests hold a handful.',
  [PA,UP],'ParserIter::next / extract_packet: sync search, length decoding, checksum over both halves of the DualBuffer, payload slice',
  None,['ParserIter::next','PacketRef'])
p('C03','Every intact frame is delivered; damage costs only the damaged frame',
  'On a growable buffer the frames and checksum failures reported are exactly those of the left-to-right scan: garbage before a sync byte is skipped, B5 not followed by 62 costs one byte, a declared length above 8176 or a wrong checksum costs only the two sync bytes (scanning resumes inside the rejected frame), and every candidate with a right checksum is delivered, up to the largest length. In particular an intact frame that follows arbitrary bytes which leave no unfinished candidate is always delivered.',
  ['inputs','histories'],'every byte stream: any interleaving of intact frames, truncated frames, corrupt frames and noise',
  'Resynchronisation depends on where the next sync pattern lies relative to the damage; tests cover two or three placements.',
  [PA],'ParserIter::next: find_sync, drain(1) on half sync, drain(2) on bad length or checksum, then continue',
  None,['ParserIter::next'])
p('C04','Parser errors are accurate and reported exactly once',
  'Each complete candidate frame with a wrong checksum yields exactly one InvalidChecksum, at its place in the order of results, with expect = the two received checksum bytes (little-endian) and got = the two computed ones; OutOfMemory carries required_size = declared payload length + 2 of the candidate it drops and is never produced by a growable buffer; no other error is yielded, and silently skipped noise yields none.',
  ['inputs','schedules'],'every byte stream, chunking and buffer capacity',
  'The error values depend on the whole content and position of the damage; tests compare one or two hand-made cases.',
  [PA,ER],'extract_packet: InvalidChecksum{expect,got}, OutOfMemory{required_size}',None,['ParserIter::next','ParserError'])
p('C05','With a bounded buffer frames that fit are never lost and losses are reported',
  'With any conforming UnderlyingBuffer of capacity N >= 8 and every iterator exhausted before the next consume(), whatever the chunking every frame of total size at most N that the scan reaches is delivered, exactly as with a growable buffer; bytes of the stream are given up only at a yielded OutOfMemory, which is for a candidate of total size greater than N and gives up only its two sync bytes. The behaviour is the same for FixedLinearBuffer and for any other type honouring the UnderlyingBuffer contract.',
  ['inputs','schedules','configurations'],'every capacity >= 8, stream, chunking, and implementation of UnderlyingBuffer',
  'Whether a frame fits depends on capacity, fill level, chunk boundary and the position in the dual buffer; the tests pin a few combinations.',
  [PA],'DualBuffer::can_drain_and_take / take / potential_lost_bytes / Drop',['DualBuffer.off','DualBuffer.new_buf_offset','buf.len()'],
  ['ParserIter::next','Parser::buffer_len','UnderlyingBuffer'])
p('C06','The parser is total: it never panics, terminates and always makes progress',
  'For every input, chunking, polling schedule and buffer of any capacity, consume(), next() and dropping the iterator return without panicking; an iterator over k pending bytes yields at most k/2 results before None, and once it has returned None it keeps returning None until more data is consumed.',
  ['inputs','schedules','configurations'],'every byte stream, chunk partition, polling schedule and buffer capacity >= 8',
  'A panic or livelock needs one particular split of one particular damaged stream at one capacity; sampling does not settle its absence.',
  [PA],'ParserIter::next loop; index arithmetic of DualBuffer (peek_raw, take, drain, Drop)',None,['Parser::consume','ParserIter::next'])
p('C07','Between calls the parser retains exactly the unfinished candidate frame',
  'After an iterator has returned None, the bytes retained (buffer_len / is_buffer_empty) are exactly the unfinished candidate at the end of the stream: a proper prefix of a frame that starts with B5 (62) and whose declared length is at most 8176, or nothing. So at most 8183 bytes are ever held by a growable buffer, never more than the capacity by a bounded one, and noise is never accumulated.',
  ['inputs','histories'],'every byte stream and chunking, any buffer',
  'Slow retention leaks or an over-eager clear show only for particular tails at particular chunk ends.',
  [PA],'Parser::consume leading-garbage drain, ParserIter::next clear/drain, DualBuffer::drop',['Parser.buf'],
  ['Parser::buffer_len','Parser::is_buffer_empty'])
p('C08','Frames are dispatched to the right packet type, or Unknown if not valid for it',
  'A well-formed frame is yielded as the first packet type of PacketRef\'s declared order with that class and id whose length rule (exact length, or at least the minimum for variable-length types) and field validators accept the payload; otherwise it is yielded as Unknown. In both cases class_and_msg_id(), and for Unknown the payload, are those of the frame.',
  ['inputs'],'every (class, id), every payload length 0..8176 and every payload content',
  'There are 65536 class/id pairs times all lengths and contents; tests cover a few packets, all valid.',
  [PK,DO],'match_packet generated by define_recv_packets!, validate() of every packet, may_fail/is_valid field validators',None,
  ['PacketRef variants','PacketRef::class_and_msg_id'])
p('C09','Accessors decode the documented bytes with the documented type and scale',
  'For every packet type and field, the accessor returns the little-endian value of the field\'s bytes at its documented offset, with its declared width and signedness, mapped to its declared type and multiplied by its declared scale (raw accessors: unscaled); as_bytes() is the payload. Sub-bitfield accessors return the documented bits.',
  ['inputs'],'every packet type, field and payload byte pattern',
  'Fields have up to 2^64 patterns and there are several hundred of them; only a few values of a few fields are asserted.',
  [PK,DO],'getters generated by ubx_packet_recv; hand-written bitfield types',None,['<Packet>Ref accessors'])
p('C10','Everything about a delivered packet can be observed without panicking',
  'On every packet the parser yields, every accessor, as_bytes(), the Debug and Serialize implementations, every accessor of the returned bitfield/enum values, and exhausting every iterator return normally, whatever the payload bytes.',
  ['inputs'],'every payload that passes validation, for every packet type',
  'Reserved and out-of-range field values that real receivers send are not in any test; each field has its own escape hatch (unreachable!, unwrap, slicing).',
  [PK,DO],'validators must exclude exactly what from_unchecked / size_fn / iterators cannot represent',None,
  ['<Packet>Ref accessors','Debug','Serialize','iterators'])
p('C11','Builders always emit one well-formed frame, identical by every route',
  'For every value of every fixed-size builder, into_packet_bytes(), the From conversion into an array, and create_packet() into any MemWriter give the same bytes: sync, the class, id and payload length of the packet, the fields little-endian at the documented offsets, and a right checksum; PACKET_LEN is their number. UbxPacketRequest yields the 8-byte poll frame of the requested packet.',
  ['inputs'],'every builder and every field value',
  'Two separately generated code paths per packet and a per-field layout; one builder is compared with expected bytes in the tests.',
  [DO,PK,UP],'generate_send_code_for_packet: into_packet_bytes, create_packet; ubx_checksum vs UbxChecksumCalc',None,
  ['<Packet>Builder::into_packet_bytes','create_packet','UbxPacketRequest'])
p('C12','Building then parsing gives back the value: nearest step, saturated at the range',
  'A frame made by a builder of a packet that can also be received is parsed as that packet, each accessor returns the built value (scaled fields: the nearest representable step, ties away from zero, saturated at the ends of the raw type\'s range, for every non-NaN value), and rebuilding from the accessors gives the same bytes. Default builders and values hold the documented defaults.',
  ['inputs'],'every builder value, including non-representable, extreme and infinite reals',
  'Rounding and saturation errors appear at range ends and ties; bitfield packing errors at particular combinations; no test round-trips.',
  [PK,DO,DT],'ScaleBack::as_*, into_raw / from of mapped types, hand-written CfgItfm, Tp5, PrtUart bitfields',None,
  ['<Packet>Builder','<Packet>Ref accessors'])
p('C13','Variable-length builders append exactly one well-formed frame to any buffer',
  'CfgValSetBuilder::extend_to leaves the bytes already in the buffer untouched and appends exactly the frame into_packet_vec returns: sync, class, id, payload length, header fields, every configuration item in order, and a right checksum, for every item list with a payload of at most 65535 bytes.',
  ['inputs','histories'],'every prior buffer content, item list and header values',
  'The length and checksum are back-patched relative to the buffer; the tests only build into an empty buffer.',
  [DO,PK],'extend_to / into_packet_vec generated for variable-size packets',None,['CfgValSetBuilder::extend_to','into_packet_vec'])
p('C14','Configuration items encode to their documented key and size and decode back',
  'For every CfgVal item and value, write_to and extend_to produce the same bytes: the item\'s 4-byte little-endian key id followed by its value little-endian in the size announced by bits 28..30 of the key; len() and the returned counts equal the number of bytes; parse() of them gives back the same item and value; key ids are distinct.',
  ['inputs'],'every configuration key (about 400) and every value of its type',
  'No test decodes any item; a wrong key, width or enum code affects one entry of a table of 400.',
  [CV],'cfg_val! table, into_cfg_kv_bytes!, from_cfg_v_bytes!, KeyId::value_size',None,
  ['CfgVal::parse','CfgVal::write_to','CfgVal::extend_to','CfgVal::len'])
p('C15','Repeated blocks and strings are read completely, in order, never past the end',
  'For packets with repeated blocks, text or optional trailers (NavSat, RxmRawx, RxmSfrbx, EsfMeas, EsfRaw, MonVer, Inf*), the iterator yields exactly one item per complete block, in order, each decoded from its own bytes, with size_hint/len where offered; strings are the bytes before the terminator; optional trailers are present exactly when flagged.',
  ['inputs'],'every accepted payload: every block count and content',
  'Counts 0 and maximum, partial trailing blocks and embedded NULs multiply with content; tests use one sample each.',
  [PK],'NavSatIter, RxmRawxInfoIter, DwrdIter, EsfMeasDataIter, EsfRawDataIter, MonVerExtensionIter, inf module',None,
  ['iterators of <Packet>Ref'])
p('C16','JSON serialization is faithful: class, msg_id and every field as accessed',
  'Serializing a packet yields a map with class, msg_id and then every declared field in declared order, under its field name, with the value its accessor returns (repeated blocks as sequences, enums and flags as their raw number); Unknown yields payload, class and msg_id. Serialization never fails for a delivered packet with finite values.',
  ['inputs'],'every packet type and accepted payload',
  'One packet is serialized in tests; the generated code has a branch per field kind.',
  [DO,PK,TY],'generate_serialize_impl, PacketSerializer, FieldIter, hand-written Serialize impls',None,['serde::Serialize for PacketRef'])
p('C17','Positions, velocities and times convert without unit or range errors',
  'Position from NavPosLlh, NavPvt and NavHpPosLlh is in degrees and metres including the high-precision parts, PositionECEF from NavHpPosEcef is in metres including them, Velocity from NavVelNed and NavPvt is ground speed in m/s and heading in degrees, and DateTime<Utc> from NavPvt is the calendar instant plus the signed nanoseconds, failing with InvalidDate, InvalidTime or InvalidNanoseconds exactly when the date, the time of day or |ns| >= 10^9 is out of range.',
  ['inputs'],'every field value of the source packets',
  'Calendar edges, negative nanoseconds at second, day and year boundaries, and unit factors of high precision parts are not tested.',
  [TY],'From/TryFrom impls',None,['Position','PositionECEF','Velocity','DateTime<Utc>'])
p('C18','The provided buffers behave as bounded byte queues',
  'Under any sequence of operations, Vec<u8> and FixedLinearBuffer behave as a FIFO byte queue: extend_from_slice appends the longest prefix that fits and returns the number of bytes left out, drain removes the first min(count, len) bytes (Vec: count <= len) keeping the others in order, clear empties, and len, is_empty, max_capacity, find (first index), indexing and range indexing (panicking past the length) agree with the queue; capacity never changes and bytes outside the caller\'s slice are never touched. The methods the trait provides itself (find, is_empty) give the same over any other buffer.',
  ['histories','inputs'],'every operation sequence, capacity and argument, including 0 and beyond the ends',
  'The state space of fill levels and drains is combinatorial; drain uses raw pointer copies of overlapping regions.',
  [PA],'UnderlyingBuffer impls for Vec<u8> and FixedLinearBuffer (unsafe ptr::copy in drain)',['FixedLinearBuffer.len','FixedLinearBuffer.buffer'],
  ['UnderlyingBuffer methods'])
p('C19','Requests, rates and acknowledgements name the packet they are about',
  'For every packet type, UbxPacketMeta CLASS, ID, FIXED_PAYLOAD_LEN and MAX_PAYLOAD_LEN are those of the packet; request_for, set_rate_for (single and all ports) and is_ack_for / is_nak_for use exactly that class and id: is_ack_for::<T>() (is_nak_for::<T>()) is true exactly when the acknowledged class and id are T\'s; request_for_unknown uses the given pair.',
  ['inputs','configurations'],'every packet type and every acknowledged (class, id) pair, all rates and ports',
  'Correlation mistakes show only for pairs that share a class or an id; no test checks a negative.',
  [PK,UP,DO],'AckAckRef/AckNakRef::is_ack_for, CfgMsg*Builder::set_rate_for, UbxPacketRequest, UbxPacketMeta',None,
  ['is_ack_for','is_nak_for','set_rate_for','request_for','UbxPacketMeta'])
p('C20','Packet definitions are rejected if inconsistent, laid out in order if accepted',
  'A packet definition given to the derive macros compiles exactly when it is consistent: known attributes given once, class/id/length present and in range, exactly one length kind, supported field types, sum of field sizes equal to fixed_payload_len, and no unsized field before the last unless it has size_fn (enums: one repr(u8), literal values, from not combined with rest_error; bitflags: single-bit values); accepted definitions place fields contiguously in declared order for reading, validating and building alike.',
  ['configurations'],'every packet, enum and bitflags definition',
  'Macro tests compare the tokens of a few accepted definitions; rejections and layout of other shapes are unbounded.',
  [DI,DO,DT],'parse_packet_description, parse_ubx_attr, parse_ubx_enum_type, parse_bitflags; generate_* code',None,
  ['compiler acceptance','generated accessors and builders'])
p('C21','Enum and flag types keep every raw value, or reject exactly the undefined ones',
  'Types with rest_reserved (enums and bitflags) represent every raw value: converting raw to typed and back is the identity, defined codes give the documented variant or flag and undefined ones a Reserved variant or bit that serializes as the same number; types with rest_error accept exactly the documented codes.',
  ['inputs'],'every raw value of every enum and bitflags type',
  'Hundreds of codes per type across dozens of types, reserved codes untested.',
  [DO,PK],'generate_code_to_extend_enum, generate_code_to_extend_bitflags',None,['typed accessors','raw accessors','Serialize'])
p('C22','ublox-cli configures ports as asked and waits for the right acknowledgement',
  'For every combination of options the CLI opens the port with the requested data bits, parity, stop bits and baud rate and sends a CFG-PRT with exactly the requested port, framing, baud rate and protocols; for every command that needs an acknowledgement it proceeds only after an ACK for that very message, however acknowledgements and other frames are interleaved or split in time.',
  ['configurations','schedules'],'every option combination; every interleaving and fragmentation of device replies',
  'The CLI has no tests; its waiting loop depends on arrival order.',
  [CL],'option mapping in main, Device::wait_for_ack / update / read_port',None,['bytes written to the serial port','process output'])
p('C23','Every feature combination behaves the same',
  'Built with or without std, alloc and serde, the crate yields the same results for the same input through the operations available in that build: parsing with a FixedLinearBuffer (and Vec where available), accessors, and builders.',
  ['configurations','inputs'],'the feature sets {std, alloc, serde} supported by the crate and every input',
  'Most tests are compiled only with alloc or std, so no_std builds are barely executed.',
  [PA,UP,PK,'ublox/Cargo.toml','ublox/src/lib.rs'],'cfg(feature) branches',None,['Parser','builders'])
p('C24','create_packet into a failing sink reports the failure and writes only a prefix',
  'create_packet into any MemWriter calls reserve_allocate with the full packet length before any write, then writes consecutive pieces of the frame; if the sink fails at any call the same error is returned at once and nothing more is written, so the bytes written are a prefix of the frame; if it never fails the result is Ok and the bytes are the whole frame.',
  ['fault_sequences','inputs'],'every builder, value and failing call of the sink',
  'Each packet writes dozens of pieces and any of them can fail; tests use only infallible sinks.',
  [DO,UP,ER],'create_packet generated code, MemWriter',None,['UbxPacketCreator::create_packet','MemWriter'])
p('C25','AID-INI carries the given position and UTC time in the protocol\'s encoding',
  'Whatever calls of set_position and set_time are made on an AidIniBuilder, in any order, the frame holds the last position given (latitude and longitude in 1e-7 degree, altitude in cm, each off by less than one unit and exact if representable, saturated at the range) with flags 0 and 5, the last time given (year since 2000 * 100 + month 1..12; day, hour, minute, second as DDHHMMSS; nanoseconds) with flags 1 and 10, for years 2000 to 2099; flags set before stay set and every other field keeps its value.',
  ['inputs','histories'],'every position, every instant of 2000-2099, every order of calls',
  'No test covers these helpers.',
  [PK,'ublox/src/ubx_packets/types.rs'],'AidIniBuilder::set_position, set_time',None,['AidIniBuilder','into_packet_bytes'])
p('C26','Dropping an iterator early loses at most what exceeds the capacity',
  'When an iterator is dropped before it is exhausted, the bytes then pending are kept, in order, up to the capacity of the buffer (whatever it is) (noise before the next candidate frame may be left out) and only those beyond it are given up, nothing on a growable buffer; the results of later calls are exactly those of the kept bytes followed by the newly fed ones, for FixedLinearBuffer and any other type honouring the UnderlyingBuffer contract.',
  ['inputs','schedules','histories'],'every stream, chunking, polling and drop schedule, buffer type and capacity',
  'What a drop saves depends on how the unread bytes are spread over buffer and chunk and on what is polled later; no test drops an iterator over a bounded buffer early.',
  [PA],'Drop for DualBuffer: drains what was read and saves the rest of the chunk as far as it fits',
  ['Parser.buf','DualBuffer.off','DualBuffer.new_buf_offset'],['Parser::consume','ParserIter::next','Parser::buffer_len'])
p('C27','Printed forms show what the accessors return',
  'The Debug text of a delivered packet, and of each block its iterators yield, is the type name followed by every declared field in declared order with the Debug text of what its own accessor returns; FixStatusInfo and NavSatSvFlags print each sub-field by name with its value; Unknown prints payload, class and message id; the Display text of a ParserError, MemWriterError or DateTimeError contains its numbers (checksums in hexadecimal, expected then got; lengths in decimal) and the packet and field names it carries.',
  ['inputs'],'every accepted frame of every packet type; every value of every error',
  'Logs are what users diagnose with, yet no test reads them; a field printed from its neighbour\'s accessor shows only when both differ.',
  [DO,PK,UP,ER],'generate_debug_impl_for_packet; hand-written Debug of FixStatusInfo and NavSatSvFlags; Display of errors',None,['Debug','Display'])
p('C28','Values that can be serialized and deserialized read back unchanged',
  'Every value of a type that is both Serialize and Deserialize (Position, PositionECEF, Velocity with finite numbers; UartMode; CfgItfmConfig, CfgItfmConfig2 and their parts; NavSatQualityIndicator, NavSatSvHealth, NavSatOrbitSource; ResetMode; CfgItfmAntennaSettings) serializes as its documented fields, names and numbers, and what is read back from that serializes, prints and is written by builders exactly as the original; a type with documented codes only reads exactly those numbers.',
  ['inputs'],'every value of every such type',
  'No test deserializes anything; types whose two directions are derived separately can disagree in one value.',
  [PK,'ublox/src/ubx_packets/types.rs'],'derive(Serialize, Deserialize) and hand-written impls',None,['Serialize','Deserialize','builders'])
p('C29','ublox-cli shows every packet it receives, in order, whatever they contain',
  'Once it is configured, ublox-cli prints each packet the parser delivers, in stream order and exactly once, whatever it contains and however the bytes are split or mixed with noise, and keeps running: MON-VER as versions and extensions followed by its Debug text; NAV-PVT with a 3D (or GPS and dead reckoning) fix as latitude, longitude (5 decimals), altitude, speed and heading (2 decimals) in degrees, metres, m/s and its Debug text; with such a fix or a time-only one its UTC time, a line of any wording if that is not valid; any other packet as its Debug text.',
  ['inputs','schedules'],'every stream a receiver can send after the configuration, every way it arrives',
  'The program has no tests; a receiver which starts up sends packets without valid time, and a panic ends the session.',
  [CL],'Device::update, the loop of main',None,['standard output','exit status'])

with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']),x['title'])
        f.write(json.dumps(x)+'\n')
print(len(P))
