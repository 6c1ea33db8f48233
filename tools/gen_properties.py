#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so ids, titles and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'Hostile bytes never crash, hang, or corrupt memory',
  'Handing any byte string to any parsing entry point (bitstream, NAL unit, configuration box, RTP packet, or an individual syntax structure), with any accumulated parameter-set state, either yields a parsed object or a clean rejection: no out-of-bounds access, undefined arithmetic, failed assertion, exception, unbounded loop, or allocation out of proportion to the input. Printing whatever was parsed, with any combination of dump options, and computing slice QPs from it, are equally safe. Once the results and the state are released, no memory stays allocated.',
  ['inputs', 'histories', 'configurations'],
  'all byte strings (random, mutated valid streams, structure-aware streams with extreme values) x all entry points x all dump options x histories of previously parsed NAL units',
  'The unit tests feed a few dozen mostly valid buffers; nothing explores malformed or extreme values, truncated structures or slices that refer to odd parameter sets, and they run without sanitizers.',
  ['src/rtc_common.cc', 'src/h265_common.cc', 'src/h265_bitstream_parser.cc', 'src/h265_slice_parser.cc', 'src/h265_st_ref_pic_set_parser.cc', 'src/h265_scaling_list_data_parser.cc', 'src/h265_sei_parser.cc', 'src/h265_configuration_box_parser.cc', 'src/h265_rtp_parser.cc'],
  [('every read is bounds-checked against the remaining bit count', 'src/rtc_common.cc BitBuffer::PeekBits / ConsumeBits'),
   ('value range checks before values are used as sizes or indices', 'src/h265_sps_parser.cc, src/h265_st_ref_pic_set_parser.cc, src/h265_slice_parser.cc'),
   ('null checks before printing optional parts', 'fdump functions, src/h265_nal_unit_payload_parser.cc')],
  ['process outcome under address and undefined-behaviour sanitizers with assertions on'])

p('C02', 'Bit reader returns exactly the bits of the buffer, in order',
  'For every buffer and every sequence of read, peek, skip, seek and Exp-Golomb operations, each successful operation returns the value that the big-endian bit string denotes at the current position and advances the position by exactly the bits it consumed (peeks advance by none), and an operation that needs more bits than remain fails. The remaining bit count always equals total bits minus position, a failed fixed-width or Exp-Golomb read leaves the position unchanged, and unsigned and signed Exp-Golomb codes of up to 32 value bits and non-symmetric codes decode to the standard mapping. At every position, the payload helpers tell whether the position is on a byte boundary, how many bytes have been entered, whether anything besides the trailing bits is left (without moving), and whether the trailing bits follow.',
  ['inputs', 'histories'], 'all buffers x all operation sequences (widths 1..64, every alignment, all Exp-Golomb code values)',
  'The few tests of the bit reader use fixed buffers and aligned short sequences; correctness must hold for every alignment, width, value and order of operations.',
  ['src/rtc_common.cc', 'include/rtc_common.h'],
  [('bit extraction across byte boundaries', 'src/rtc_common.cc BitBuffer::PeekBits'),
   ('Exp-Golomb decoding with position restore on failure', 'src/rtc_common.cc BitBuffer::ReadExponentialGolomb / ReadSignedExponentialGolomb')],
  ['return values, out values, current offset, remaining bit count'])

p('C03', 'Bit writer output reads back identically and touches only its bits',
  'Whatever sequence of values is written with the bit writer (fixed-width, byte-sized, non-symmetric, unsigned and signed Exp-Golomb), the bit reader reads the same sequence of values back, every bit outside the written range keeps its previous value, and a write that does not fit fails without changing the buffer or the position. The announced size of a non-symmetric code equals the number of bits it occupies.',
  ['inputs', 'histories'], 'all write sequences x initial buffer contents x alignments x buffer sizes',
  'No test writes and reads back arbitrary mixed sequences or looks at neighbouring bits.',
  ['src/rtc_common.cc', 'include/rtc_common.h'],
  [('masking of partial bytes', 'src/rtc_common.cc WritePartialByte, BitBufferWriter::WriteBits'),
   ('Exp-Golomb and non-symmetric encoders', 'src/rtc_common.cc BitBufferWriter::WriteExponentialGolomb / WriteNonSymmetric')],
  ['written bytes, return values, values read back'])

p('C04', 'Emulation-prevention removal exactly inverts standard escaping',
  'For every payload, removing emulation prevention from its standard-escaped form gives the payload back, and for every byte string the removal deletes exactly the 0x03 byte of each non-overlapping 00 00 03 triple (scanning left to right, zeros counted afresh after each deletion) and nothing else. Hence a structure parses to the same result through an entry point that takes escaped bytes and one that takes the unescaped bytes.',
  ['inputs'], 'all byte strings, with emphasis on runs of 00..03 at the start, middle and end',
  'Tests exercise a handful of escaped buffers; runs of zeros, escapes at the very end and consecutive escapes are combinatorial.',
  ['src/h265_common.cc'], [('escape removal loop', 'src/h265_common.cc UnescapeRbsp')],
  ['unescaped bytes, parse results of the two entry-point flavours'])

p('C05', 'Annex B splitting finds exactly the start-code-delimited units',
  'For every byte buffer, the start-code scan reports every 00 00 01 prefix that is followed by at least one byte, in order and no others; each reported unit begins right after its prefix, ends where the next reported prefix begins (one zero byte directly before a prefix belongs to that prefix) or at the end of the buffer, and no byte belongs to two units. Building a stream from payloads that contain no prefix with 3- or 4-byte start codes and splitting it returns exactly those payloads.',
  ['inputs'], 'all byte buffers, dense in 00/01/02/03 and start codes at every alignment and at both ends; all payload lists',
  'The skip-ahead scan behaves differently for each alignment and neighbouring byte; the tests use a few fixed streams.',
  ['src/h265_bitstream_parser.cc'], [('skip-ahead start code search', 'src/h265_bitstream_parser.cc H265BitstreamParser::FindNaluIndices')],
  ['list of (start offset, payload offset, payload size)'])

p('C06', 'Length-prefixed framing splits and parses like Annex B framing',
  'For every list of NAL units and every prefix width from 1 to 8 bytes that can hold their sizes, parsing the length-prefixed stream gives the same parsed units as parsing the same list with start codes, each reporting its own offset and its own length in the buffer; width 0 treats the whole buffer as one unit. A prefix that is incomplete, zero, or larger than what remains ends parsing, keeping all earlier units; the explicit 4-byte index scan reports exactly the records that fit.',
  ['inputs', 'configurations'], 'all NAL unit lists x prefix widths 0..8 x truncations and corruptions of the framing',
  'Tests cover one or two length-prefixed buffers with 4-byte prefixes and do not check offsets, lengths or broken prefixes.',
  ['src/h265_bitstream_parser.cc'], [('length prefix decoding and bounds check', 'src/h265_bitstream_parser.cc ParseBitstreamNALULength, FindNaluIndicesExplicitFraming')],
  ['parsed NAL units and their offset and length'])

p('C07', 'NAL header decoding, type classes and payload dispatch follow the standard',
  'For every two header bytes the four header fields decode to their bit positions, and the type name, slice-carrying, VCL, non-VCL and unspecified classifications agree with the standard NAL unit type table (VCL and non-VCL partition 0..63). A unit of each type yields exactly the parsed payload kind for its type (slice, VPS, SPS, PPS, access unit delimiter with its picture type, prefix or suffix SEI) and none for every other type; a header of fewer than two bytes is rejected.',
  ['inputs'], 'all 65536 header values (exhaustive) x payload bytes',
  'Tests touch a few types; the mapping must be right for all 64 types and all header bits.',
  ['src/h265_nal_unit_header_parser.cc', 'src/h265_common.cc', 'src/h265_nal_unit_payload_parser.cc', 'src/h265_aud_parser.cc'],
  [('header field reads', 'src/h265_nal_unit_header_parser.cc ParseNalUnitHeader'), ('type switch', 'src/h265_nal_unit_payload_parser.cc ParseNalUnitPayload'), ('type predicates', 'src/h265_common.cc IsSliceSegment, IsNalUnitTypeVcl, NalUnitTypeToString')],
  ['header fields, which payload part is present, type names'])

p('C08', 'Stored parameter sets always reflect the latest valid one per id',
  'After any history of NAL units given to one shared parser state, for each of VPS, SPS and PPS and each id the state holds exactly the content of the most recent successfully parsed parameter set with that id, and nothing for ids never successfully received. A unit that fails to parse, or is not a parameter set, leaves the stored sets untouched, and results returned earlier keep their content.',
  ['histories', 'inputs'], 'all interleavings of valid and broken VPS/SPS/PPS with colliding ids, slices, SEI and other units, over Annex B, length-prefixed, hvcC and RTP delivery',
  'Tests parse at most one or two of each set in one fixed order and never resend an id with different or broken content.',
  ['src/h265_nal_unit_payload_parser.cc', 'src/h265_bitstream_parser_state.cc'],
  [('map update only after a successful parse', 'src/h265_nal_unit_payload_parser.cc ParseNalUnitPayload'), ('lookup by id', 'src/h265_bitstream_parser_state.cc GetVps/GetSps/GetPps')],
  ['contents of the shared state after every step'],
  [('vps/sps/pps maps', 'latest parameter set per id', 'include/h265_bitstream_parser_state.h')])

p('C09', 'VPS fields are decoded as encoded',
  'For every video parameter set conforming to the supported syntax, parsing its encoded bits succeeds and every decoded field, array and inferred absent value equals what was encoded, including layer sets, timing information and the last set of HRD parameters.',
  ['inputs'], 'all combinations of VPS syntax elements, optional parts and array sizes up to the limits of the syntax',
  'Two sample VPS buffers cover a single path through the optional parts.',
  ['src/h265_vps_parser.cc'], [('VPS syntax', 'src/h265_vps_parser.cc ParseVps')], ['parsed VPS fields'])

p('C10', 'Profile, tier and level fields are decoded as encoded for all layers',
  'For every profile/tier/level structure (with or without the profile part, any number of sub-layers, every combination of sub-layer presence flags, profile and compatibility flags), every general and sub-layer profile, tier, compatibility, constraint and level field decodes to the encoded value, and exactly the signalled bits are consumed so that whatever follows is decoded correctly.',
  ['inputs'], 'profile idc and compatibility flags x constraint bits x 0..7 sub-layers x presence flags',
  'The tests contain profiles with few sub-layers and equal presence flags, so the conditional layout is hardly exercised.',
  ['src/h265_profile_tier_level_parser.cc'], [('profile_tier_level syntax', 'src/h265_profile_tier_level_parser.cc ParseProfileTierLevel')], ['parsed PTL fields'])

p('C11', 'The reported profile follows from profile and constraint fields',
  'For every decoded profile description the reported profile is the one the tables of the standard\'s Annex A assign to its profile space, profile indicator and constraint flags, and is "unspecified" for anything else. Distinct reported profiles have distinct, fixed human-readable names.',
  ['inputs'], 'all profile spaces and indicators x all rows and near-misses (one flag flipped) of the constraint-flag tables',
  'A few profiles are sampled by tests; the tables have dozens of rows that differ in single flags.',
  ['src/h265_profile_tier_level_parser.cc', 'src/h265_common.cc'], [('profile classification', 'src/h265_profile_tier_level_parser.cc GetType'), ('profile names', 'src/h265_common.cc profileTypeToString')], ['reported profile and its name'])

p('C12', 'SPS fields are decoded as encoded',
  'For every sequence parameter set within the supported value ranges, parsing its encoded bits succeeds and every decoded field and array (including the sub-layer ordering info, PCM, scaling lists, long-term reference, reference picture set, VUI and extension presence parts) equals what was encoded; elements that are absent read 0, or the value inferred for them where the rest of the structure or later slices depend on it.',
  ['inputs'], 'all combinations of SPS syntax elements within limits',
  'About a dozen sample SPS buffers leave most combinations of optional parts unexplored.',
  ['src/h265_sps_parser.cc'], [('SPS syntax', 'src/h265_sps_parser.cc ParseSps')], ['parsed SPS fields'])

p('C13', 'VUI fields are decoded as encoded',
  'For every video usability information block within the supported ranges, every field and inferred absent value (aspect ratio, overscan, video signal and colour description, chroma location, display window, timing, HRD presence, bitstream restrictions) decodes to what was encoded, both standalone and inside an SPS, and exactly the signalled bits are consumed. The reported frame rate is the time scale divided by the units per tick when timing is present and the tick is not zero.',
  ['inputs'], 'all presence-flag combinations x field values',
  'Three sample buffers cover only a few of the presence flag combinations.',
  ['src/h265_vui_parameters_parser.cc'], [('VUI syntax', 'src/h265_vui_parameters_parser.cc ParseVuiParameters')], ['parsed VUI fields'])

p('C14', 'HRD parameters are decoded as encoded, with inferred picture-rate flags',
  'For every HRD parameter block (common part present or not, any number of sub-layers and CPB entries, NAL and/or VCL parameters, sub-picture parameters), every field decodes to what was encoded, absent values take their standard inference (a fixed general picture rate implies a fixed rate within the sequence), and exactly the signalled bits are consumed.',
  ['inputs'], 'all presence-flag combinations x 1..7 sub-layers x 1..32 CPB entries',
  'The single sample test exercises one combination.',
  ['src/h265_hrd_parameters_parser.cc', 'src/h265_sub_layer_hrd_parameters_parser.cc'], [('HRD syntax', 'src/h265_hrd_parameters_parser.cc ParseHrdParameters'), ('sub-layer HRD syntax', 'src/h265_sub_layer_hrd_parameters_parser.cc')], ['parsed HRD fields'])

p('C15', 'Short-term reference picture sets decode and derive correctly',
  'For every list of short-term reference picture sets, coded explicitly or predicted from any earlier set in the list (or, in a slice header, from any set of the SPS), all coded fields decode as encoded and the derived negative and positive picture offsets, their used-by-current flags and their counts equal those given by the standard derivation.',
  ['inputs', 'histories'], 'all chains of up to 65 sets, mixing explicit and predicted coding, all flag patterns and deltas within limits',
  'Prediction chains compound; tests contain a few short chains and only look at a few derived values.',
  ['src/h265_st_ref_pic_set_parser.cc', 'src/h265_sps_parser.cc', 'src/h265_slice_parser.cc'], [('st_ref_pic_set syntax and derivation', 'src/h265_st_ref_pic_set_parser.cc ParseStRefPicSet and derived values')], ['coded fields, derived values, and fields that follow the sets'])

p('C16', 'Scaling lists decode and reconstruct as coded',
  "For every scaling list data block within the value limits, the prediction flags, reference deltas, DC coefficients and coefficient deltas decode as encoded, and each explicitly coded list reconstructs to the coefficients given by the standard's running modulo-256 rule, for all four sizes and all matrices.",
  ['inputs'], 'all flag and delta patterns within limits for all sizes and matrix ids',
  'A couple of sample blocks cover few of the 2^k paths.',
  ['src/h265_scaling_list_data_parser.cc'], [('scaling_list_data syntax', 'src/h265_scaling_list_data_parser.cc ParseScalingListData')], ['parsed and derived lists'])

p('C17', 'SPS extension fields are decoded as encoded',
  'For every SPS that signals any combination of range, multilayer, 3D and screen-content extensions, exactly the signalled extensions are reported and each of their fields, including palette predictor initialisers sized by chroma format and bit depth, decodes to what was encoded, standalone and inside an SPS.',
  ['inputs'], 'all extension flag combinations x field values x chroma formats and bit depths',
  'One sample per extension; combinations and palette sizes are not explored.',
  ['src/h265_sps_parser.cc', 'src/h265_sps_range_extension_parser.cc', 'src/h265_sps_multilayer_extension_parser.cc', 'src/h265_sps_3d_extension_parser.cc', 'src/h265_sps_scc_extension_parser.cc'], [('extension dispatch', 'src/h265_sps_parser.cc'), ('SCC palette initialisers', 'src/h265_sps_scc_extension_parser.cc')], ['parsed extension fields'])

p('C18', 'PPS fields are decoded as encoded',
  'For every picture parameter set without unsupported extensions, parsing its encoded bits succeeds and every decoded field and array (tiles, deblocking control, scaling lists, weighted prediction, QP offsets, slice header options) equals what was encoded; elements that are absent read 0, or the value inferred for them where the rest of the structure or later slices depend on it.',
  ['inputs'], 'all combinations of PPS syntax elements within limits',
  'A few sample PPS buffers leave most optional parts unexplored.',
  ['src/h265_pps_parser.cc'], [('PPS syntax', 'src/h265_pps_parser.cc ParsePps')], ['parsed PPS fields'])

p('C19', 'PPS multilayer and screen-content extension fields decode as encoded',
  'For every PPS multilayer extension without colour mapping and every PPS screen-content extension, alone or together in a PPS and standalone, each signalled field (reference offsets, phases, adaptive colour transform offsets, palette initialisers for monochrome and colour) decodes to what was encoded, absent ones take their inferred value, and a malformed extension makes the whole PPS be rejected.',
  ['inputs'], 'all flag combinations x signed and unsigned field values',
  'One sample each; signed values, phase fields and monochrome palettes are not exercised.',
  ['src/h265_pps_multilayer_extension_parser.cc', 'src/h265_pps_scc_extension_parser.cc', 'src/h265_pps_parser.cc'], [('multilayer extension syntax', 'src/h265_pps_multilayer_extension_parser.cc'), ('SCC extension syntax', 'src/h265_pps_scc_extension_parser.cc')], ['parsed extension fields'])

p('C20', 'Slice headers decode as encoded under their PPS and SPS',
  'For every slice header conforming to the supported syntax (no list modification, no current-picture reference), of every slice-carrying NAL type, given the PPS it names and the SPS that PPS names, every coded field decodes to what was encoded, and absent fields that later ones depend on (active reference counts, deblocking disabled flag, chroma array type, collocated list) take the value inferred from the parameter sets. This covers first and later segments, dependent segments, I/P/B types, reference sets, long-term references, SAO, QP, deblocking, entry points and header extensions. The header is rejected when its PPS or SPS is not available.',
  ['inputs', 'configurations'], 'all (SPS, PPS, slice header) triples within the supported syntax',
  'The slice header depends on dozens of parameter-set fields at once; the tests sample about ten triples.',
  ['src/h265_slice_parser.cc'], [('slice header syntax', 'src/h265_slice_parser.cc ParseSliceSegmentHeader'), ('parameter set lookup', 'src/h265_slice_parser.cc')], ['parsed slice header fields'])

p('C21', 'Prediction weight tables decode as encoded for both lists',
  'For every P or B slice with explicit weighted prediction, the denominators, flags, weights and offsets of both reference lists decode to what was encoded, for every number of active references and every chroma format, and the fields after the table are decoded correctly.',
  ['inputs'], 'all slice types x active reference counts (overridden or taken from the PPS) x chroma formats x flag patterns x weights',
  'One sample table for list 0 is tested.',
  ['src/h265_pred_weight_table_parser.cc', 'src/h265_slice_parser.cc'], [('pred_weight_table syntax', 'src/h265_pred_weight_table_parser.cc ParsePredWeightTable')], ['parsed table and following slice fields'])

p('C22', 'SEI messages decode to their type, size and payload',
  'For every SEI message the payload type and size decode to the encoded (multi-byte) values; for each supported type every field decodes to what was encoded, and for every other type the payload bytes are preserved verbatim. A message whose payload is shorter than its type requires reports no payload rather than invented values.',
  ['inputs'], 'all payload types and sizes (including multi-byte codes), all field values of each supported type',
  'One sample message per type; optional parts, array sizes and extended codes are not explored.',
  ['src/h265_sei_parser.cc'], [('type and size accumulation', 'src/h265_sei_parser.cc ParseSei'), ('per-type payload parsers', 'src/h265_sei_parser.cc parse_payload')], ['SEI type, size, payload fields'])

p('C23', 'Configuration boxes decode fully and feed the parameter-set state',
  'For every well-formed decoder configuration record, every field decodes to what was encoded, every NAL unit in every array is parsed exactly as it would be on its own and in order, and its parameter sets become available for parsing later slices. Records with a wrong version, wrong reserved bits, or data shorter than announced are rejected.',
  ['inputs', 'histories'], 'all records: field values x arrays x NAL unit lists, including empty arrays and units that do not parse',
  'Two sample boxes are tested.',
  ['src/h265_configuration_box_parser.cc'], [('record syntax', 'src/h265_configuration_box_parser.cc ParseConfigurationBox')], ['parsed record, NAL units, shared state'])

p('C24', 'RTP packets yield the NAL units they carry',
  'A single-NAL packet yields what parsing that NAL unit yields; an aggregation packet yields, in order, for every aggregated unit its size, header and the payload it would yield on its own, whatever the units contain; the first fragment of a fragmented unit yields the start of that unit and later fragments yield only their fragment header. Parameter sets carried in any of these update the shared state, and packets too short for their headers, or aggregation packets with sizes that do not fit or with a unit too short for its header, are rejected; packets of any other type yield only their header.',
  ['inputs', 'histories'], 'all NAL unit lists x packetisations x fragment sizes, including units needing emulation prevention',
  'Tests use a few captured packets.',
  ['src/h265_rtp_parser.cc', 'src/h265_rtp_single_parser.cc', 'src/h265_rtp_ap_parser.cc', 'src/h265_rtp_fu_parser.cc'], [('packet type dispatch', 'src/h265_rtp_parser.cc ParseRtp'), ('aggregation loop', 'src/h265_rtp_ap_parser.cc ParseRtpAp'), ('fragment header', 'src/h265_rtp_fu_parser.cc ParseRtpFu')], ['parsed packet and shared state'])

p('C25', 'Slice QP equals 26 plus picture and slice deltas of the slice in force',
  'For every stream, the reported luma QPs are, in order, one per slice segment whose header can be parsed, each 26 + the initial QP offset of the PPS in force when that slice was received + the QP delta its header carries (0 for dependent segments, which carry none). The RTP variant reports the same value for a packet carrying that slice (for an aggregation packet, its last unit) and nothing for packets without a slice start.',
  ['inputs', 'histories'], 'streams with several PPSs, PPS updates between slices, unparseable slices, RTP packetisations',
  'One stream and a few packets are tested, never with a PPS changing within the stream.',
  ['src/h265_utils.cc'], [('QP computation', 'src/h265_utils.cc GetSliceQpY')], ['list of QPs'])

p('C26', 'Picture dimensions and block-grid sizes derive from the SPS fields',
  'For every valid SPS, the reported display resolution is the coded size minus the conformance cropping scaled by the chroma subsampling of its format, and the picture sizes in minimum coding blocks and in coding tree blocks are the coded size divided by the block size, rounded up.',
  ['inputs'], 'all sizes x chroma formats x cropping offsets x block sizes',
  'Two or three resolutions are tested.',
  ['src/h265_sps_parser.cc'], [('resolution and CTB derivations', 'src/h265_sps_parser.cc getResolution, getPicSizeInCtbsY and related')], ['derived accessors'])

p('C27', 'Out-of-range syntax values are rejected at exactly the standard limits',
  'For each syntax element of VPS, SPS, VUI, reference picture sets, scaling lists, PPS and slice headers whose range the parser validates, structures whose element is at the limit are accepted, and structures that are otherwise valid but exceed the limit by any amount are rejected without updating the stored state.',
  ['inputs'], 'each validated element x (limit, limit+1, far beyond) in otherwise random valid structures',
  'A handful of the limits have a test at one value each.',
  ['src/h265_vps_parser.cc', 'src/h265_sps_parser.cc', 'src/h265_vui_parameters_parser.cc', 'src/h265_st_ref_pic_set_parser.cc', 'src/h265_slice_parser.cc'], [('range checks', 'src/h265_sps_parser.cc and siblings')], ['accepted or rejected; shared state'])

p('C28', 'Truncated structures are rejected, never half-parsed',
  'For every valid VPS, SPS, PPS, slice header, configuration record and their sub-structures, cutting the encoding anywhere before the end of its last mandatory syntax element makes parsing fail, and a cut parameter set is not stored; so does any Exp-Golomb code among these elements that is longer than 32 bits can hold. Appending bytes after a complete structure does not change the decoded mandatory fields.',
  ['inputs', 'crash_points'], 'all valid structures x every cut position',
  'Tests never cut inputs systematically; a missing check would silently accept zeros as data.',
  ['src/h265_vps_parser.cc', 'src/h265_sps_parser.cc', 'src/h265_pps_parser.cc', 'src/h265_slice_parser.cc'], [('every read result checked', 'all Parse* functions')], ['parse outcome, shared state'])

p('C29', 'Each NAL unit reports its true offset, length, parsed length and checksum',
  'For every start-code or length-prefixed stream, each parsed unit reports the offset of its header in the buffer, its length in bytes, and a parsed length that is the number of unescaped bytes its syntax consumed (never beyond the unit). When requested, its checksum is the one\'s-complement 32-bit big-endian word sum of the unescaped unit, so it is equal for equal units and does not depend on framing or position.',
  ['inputs', 'configurations'], 'all streams x start code lengths x option combinations',
  'Offsets and lengths are checked for one stream and the checksum for a few vectors.',
  ['src/h265_bitstream_parser.cc', 'src/h265_nal_unit_parser.cc', 'src/h265_common.cc'], [('offset and length bookkeeping', 'src/h265_bitstream_parser.cc ParseBitstream'), ('checksum', 'src/h265_common.cc NaluChecksum::GetNaluChecksum')], ['NAL unit metadata'])

p('C30', 'The text dump shows every decoded value under its name',
  'For every valid stream, configuration record and packet, the text dump of each parsed structure shows, for each syntax element name it prints, exactly the decoded values in order, and it prints every coded element of the stream at least once. Values are printed in full (no wrapped or truncated numbers).',
  ['inputs'], 'all valid structures of every kind x dump options',
  'The tests never compare dump output.',
  ['src/h265_vps_parser.cc', 'src/h265_sps_parser.cc', 'src/h265_pps_parser.cc', 'src/h265_slice_parser.cc', 'src/h265_sei_parser.cc'], [('dump functions', 'fdump in each parser')], ['dump text'])

p('C31', 'Dump layout options change layout only, and toggles add only their field',
  'For every parsed stream, the one-line and indented dumps consist of the same tokens, braces are balanced, the one-line form has exactly one line per NAL unit, and indentation equals twice the nesting depth. Enabling offset, length, parsed length, checksum or resolution adds exactly that field with its true value to each unit it applies to and changes nothing else, with bitstreams dumped as a whole honouring the options they were parsed with.',
  ['inputs', 'configurations'], 'all parsed streams x all 32 option combinations x both layouts',
  'No test checks dump output or option combinations.',
  ['src/h265_common.cc', 'src/h265_nal_unit_parser.cc', 'src/h265_bitstream_parser.cc'], [('indentation helpers', 'src/h265_common.cc fdump_indent_level'), ('option handling', 'src/h265_nal_unit_parser.cc fdump')], ['dump text'])

p('C32', 'The command-line tool prints what the library parses, for all options',
  "For every input file and option combination, the tool exits successfully and its output (to stdout or the chosen file) is exactly the library dump of the configuration box (if given) followed by one line or block per NAL unit of the input parsed with that box's parameter sets, with the requested extra fields and raw contents; options given later override earlier ones. Standard input is read like a file, and when empty is an empty stream. Asking for the version or the help text gives that and no dump. Missing or empty files, invalid numbers, unknown options and unparseable boxes give a non-zero exit status and no dump.",
  ['inputs', 'configurations'], 'files x option sequences (framing, layout, add/no-add toggles, input from stdin, output file, hvcC)',
  'The tool has no tests at all.',
  ['tools/h265nal.cc', 'src/h265_utils.cc'], [('option parsing', 'tools/h265nal.cc parse_args'), ('dump loop', 'tools/h265nal.cc main'), ('file reading', 'src/h265_utils.cc ReadFile')], ['exit status, stdout, output file'])

p('C33', 'The length report accounts for every unit and every frame',
  "In length mode the tool prints the header row, then one row per parsed NAL unit in order with its running number, current frame number, type, type name, byte length and, for slices whose header parses, first-slice flag, segment address and picture order count (blank otherwise). A frame row precedes the first slice of each next picture and follows the last unit, carrying the frame's total slice bytes x 8 x frames per second. The sum of slice lengths equals the sum over frames, for every stream and frame rate.",
  ['inputs', 'configurations'], 'streams with multi-slice pictures, unparseable slices and interleaved non-slice units x frame rates',
  'The tool has no tests.',
  ['tools/h265nal.cc'], [('length report loop', 'tools/h265nal.cc main')], ['CSV output'])

p('C34', 'Parsing in pieces with shared state equals parsing the whole',
  'For every stream, parsing it at once, parsing it in any split into consecutive runs of NAL units with one shared state, and parsing its NAL units one by one (escaped or pre-unescaped) give the same parsed units and the same final state; an internal state behaves like a fresh external one.',
  ['inputs', 'histories'], 'all streams x all split points x entry-point flavours',
  'No test compares delivery styles.',
  ['src/h265_bitstream_parser.cc', 'src/h265_nal_unit_parser.cc'], [('shared parser state', 'include/h265_bitstream_parser_state.h'), ('entry point overloads', 'src/h265_bitstream_parser.cc')], ['dumps and metadata of parsed units, final state'])

p('C35', 'Parsing is deterministic, isolated and leaves its input untouched',
  'Parsing the same bytes with equal state always gives the same result regardless of what was parsed before with other states, of concurrent parsing in other threads, and of the memory around the buffer; the input bytes are never modified, and parsed objects stay valid and unchanged after the input buffer and the parser state are gone.',
  ['inputs', 'histories', 'schedules'], 'all inputs x interleaved parses with independent states x buffer placements x threads',
  'Tests parse each buffer once, in one thread, and look at the result while the buffer is alive.',
  ['src/h265_bitstream_parser.cc', 'src/h265_nal_unit_payload_parser.cc'], [('no global mutable state; results own their data', 'src/*.cc')], ['dumps before and after interference'])

p('C36', 'The reduced-footprint build decodes exactly like the full build',
  'For every input, the reduced-footprint build (no dumping, no RTP, no error messages) accepts and rejects the same NAL units and configuration boxes and decodes the same values as the full build. Both the library and the tool compile in that configuration, and the tool ends with the same exit status on the same input.',
  ['inputs', 'configurations'], 'all streams and configuration boxes x both build configurations',
  'The tests are only built in the full configuration.',
  ['src/CMakeLists.txt', 'tools/h265nal.cc', 'src/h265_slice_parser.cc'], [('conditional compilation limited to dumping, RTP and messages', 'FDUMP_DEFINE, RTP_DEFINE, FPRINT_ERRORS guards')], ['decoded values in both builds'])

p('C37', 'Damage to one NAL unit does not disturb the parsing of others',
  'Corrupting, truncating (to no less than its header) or replacing the payload of any one unit that is not a parameter set used by others leaves every other unit in the stream parsed exactly as before, and inserting or removing units of types without parsed payload changes nothing else. A unit whose payload no longer parses stays in the output with its header, offset and length but no payload.',
  ['inputs', 'histories', 'fault_sequences'], 'streams x victim unit x corruption',
  'Tests never inject damage.',
  ['src/h265_bitstream_parser.cc', 'src/h265_nal_unit_payload_parser.cc'], [('per-unit parse with isolated bit buffer', 'src/h265_bitstream_parser.cc ParseBitstream')], ['parsed units'])

p('C38', 'Parsing and dumping have no effect besides their results',
  'Parsing anything, valid or not, and computing slice QPs writes nothing to standard output, leaves the input bytes as they are, keeps no file open and leaves the locale alone. Dumping a parsed object or a stored parameter set only appends its text to the given file at its current position, also when that is the standard output or lies inside existing contents: the bytes before it and after it stay, the file stays open and usable, and a file that takes nothing does no harm. The dumped object does not change, and dumping it again gives the same text.',
  ['inputs', 'histories', 'fault_sequences'], 'structures of every kind, valid and damaged, streams, records and packets x dump options x buffering, position and state of the output file',
  'The tests dump nothing and do not look at the output of the process; a message left in a rare branch or a dump that moves the file corrupts the output of every tool built on the library.',
  ['src/h265_bitstream_parser.cc', 'src/h265_nal_unit_parser.cc', 'src/h265_common.cc', 'src/h265_rtp_parser.cc', 'src/h265_sei_parser.cc'],
  [('messages go to stderr and only with FPRINT_ERRORS', 'src/*_parser.cc'), ('dump functions take the output file as their only sink', 'fdump in each parser')],
  ['standard output, output file contents and position, descriptor table, dumped object'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
