"""What check.py builds and runs for each property, and the manifest texts."""
PROPS = {}


def P(pid, tus, technique, note, scale=1.0, wall=120, **kw):
    PROPS[pid] = dict(tus=tus, technique=technique, note=note, scale=scale, wall=wall, **kw)


_RT = ('generated structures written by an independent bit-level encoder (from the H.265 syntax tables), compared '
       'field by field with the parsed state; address/UB sanitizers; failures shrunk to a choice list')
_RTN = ('Random exploration of %s: finds deviations on generated inputs, never proves absence. Trusts the '
        'harness encoder written from the standard.')


def RT(pid, what, scale):
    P(pid, ['t_struct'], 'property-based testing: round trip against an independent encoder', _RT + '. ' + _RTN % what, scale)


P('C02', ['t_bits'], 'property-based testing against a reference bit reader (stateful operation sequences)',
  'Operation sequences on the bit reader compared with a bit-string model, plus Exp-Golomb codes of every length.', 12)
P('C03', ['t_bits'], 'property-based testing: write/read round trip and reference bit string (stateful)',
  'Operation sequences on the bit writer compared with a bit-string model and read back.', 10)
P('C04', ['t_bits'], 'property-based testing: unescape against a reference state machine and escape round trip',
  'Random byte strings rich in zeros and small values; structures parsed escaped and unescaped.', 10)
RT('C09', 'video parameter sets', 8)
RT('C10', 'profile/tier/level structures', 8)
RT('C12', 'sequence parameter sets', 8)
RT('C13', 'VUI structures', 8)
RT('C14', 'HRD structures', 8)
RT('C15', 'reference picture set chains', 8)
RT('C16', 'scaling lists', 8)
RT('C17', 'SPS extensions', 8)
RT('C18', 'picture parameter sets', 8)
RT('C19', 'PPS extensions', 8)
RT('C20', 'slice headers with their parameter sets', 6)
RT('C21', 'prediction weight tables', 8)
RT('C22', 'SEI messages', 8)

_ST = ('generated NAL unit streams (parameter sets with colliding ids, slices, SEI, delimiters, opaque, broken and '
       'truncated units) whose expected parse is known from the generator')
P('C05', ['t_stream'], 'property-based testing against a reference start-code scan and assembly round trip',
  'Byte strings dense in zeros and ones against a naive scan; payload lists assembled with mixed start codes.', 4)
P('C06', ['t_stream'], 'property-based testing: differential between framings and a reference walk of the records',
  _ST + '; prefix widths 0..8, broken prefixes and cuts.', 4)
P('C08', ['t_stream'], 'stateful model-based testing of delivery histories',
  _ST + '; mixed deliveries (single units, Annex B, length-prefixed, hvcC, RTP) compared with a model of the store after every step.', 4)
P('C23', ['t_stream'], 'property-based testing: round trip against an independent encoder, with rejection cases',
  _ST + '; configuration records written by the harness.', 4)
P('C24', ['t_stream'], 'stateful model-based testing of packet histories',
  _ST + '; packetised as single, aggregation and fragmentation packets.', 4)
P('C25', ['t_stream'], 'property-based testing against the QP formula over generated streams and packets',
  _ST + '; the expected QPs follow from the generated PPSs and slice headers.', 4)
P('C29', ['t_stream'], 'property-based testing: metadata known from assembly, reference checksum',
  _ST + '; offsets, lengths and checksums computed by the harness.', 4)
P('C34', ['t_stream'], 'metamorphic property-based testing: pieces against the whole',
  _ST + ' plus arbitrary payload bytes.', 4)
P('C35', ['t_stream'], 'metamorphic property-based testing: repeated, interleaved and concurrent histories; thread sanitizer',
  _ST + ' plus arbitrary payload bytes; input buffers and states destroyed after the parse; threads again under the '
  'thread sanitizer.', 4, tsan=('threads', 0.7, 10))
P('C37', ['t_stream'], 'fault-injection property-based testing over generated streams',
  _ST + '; one unit damaged per stream.', 4)

P('C38', ['t_pure'], 'property-based testing of side effects: output, files and objects observed around generated calls',
  _ST + '; structures of every kind and hostile histories; standard output captured, files at any position.', 4)
P('C07', ['t_misc'], 'property-based testing against the NAL unit type table; headers enumerated',
  'Every two-byte header is covered each run; payloads of every kind are given to every type.', 8)
P('C11', ['t_misc'], 'property-based testing against the profile tables; constraint flags enumerated',
  'All 1024 constraint flag combinations per profile indicator against a table written from Annex A.', 60)
P('C26', ['t_misc'], 'property-based testing against the size formulas', 'Generated SPSs; sizes recomputed by the harness.', 8)
P('C27', ['t_misc'], 'property-based testing of limits: generated structures with one element at or past its limit',
  'The element to push is drawn among the validated elements reached by the generated structure.', 5)
P('C28', ['t_misc'], 'property-based testing of truncation, malformed codes and extension of generated structures',
  'The generator knows where the last mandatory element ends.', 5)

P('C30', ['t_dump'], 'property-based testing: the dump is read back and compared with the parsed values',
  'Generated structures, streams, configuration records and packets are dumped; every leaf is compared with the '
  'value it names and every coded element must be there.', 1.5)
P('C31', ['t_dump'], 'metamorphic property-based testing over dump layouts and options',
  'The same dump at several indentations and with every combination of options.', 2.5)

_CLI = ('The tool\'s main() runs in a forked child with generated files and option sequences; ')
P('C32', ['t_cli'], 'property-based testing: the tool against the library dump, with refused runs',
  _CLI + 'output compared byte by byte with the dump of an in-process parse under the options that win.', 3, **{'with': ['tool']})
P('C33', ['t_cli'], 'property-based testing against an independent model of the length report',
  _CLI + 'the report is rebuilt from the generated units.', 2.5, **{'with': ['tool']})

P('C36', ['t_small'], 'differential property-based testing of the two build configurations',
  'Both builds are linked into one program and given the same histories and structures, valid and damaged; the tool of '
  'the small build must compile and end with the same status.', 3, **{'with': ['small']})

P('C01', ['t_fuzz'], 'generated hostile histories and coverage-guided fuzzing (libFuzzer) with sanitizers and resource limits',
  'Deliveries with extreme elements, damaged and arbitrary bytes through every entry point, printed under every option; '
  'address and undefined-behaviour sanitizers, assertions, memory and CPU limits, nothing left allocated.', 1,
  fuzz=(20, 600), deep=30, deep_wall=600)
