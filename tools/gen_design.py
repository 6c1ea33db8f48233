#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only)."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADDED={
 'c04-zero-run-8-bits':'zero runs around powers of two',
 'c04-slice-header-prefix':'part `units`',
 'c05-unit-limit':'long streams',
 'c07-short-last-field':'headers at the end of the data',
 'c06-explicit-scan-16-bit-end':'part `explicit_large`',
 'c20-pps-id-low-byte':'part `unavailable`',
 'c23-first-array-reserved-bit':'reserved bit of any array',
 'c22-short-uuid':'part `short`',
 'c24-fragment-without-header':'packets too short for their headers',
 'c25-first-thousand-slices':'long streams',
 'c29-offset-24-bits':'streams of more than 2^24 bytes',
 'c32-contents-first-megabyte':'part `large`',
 'c32-version-goes-on':'part `info`',
 'c37-error-budget':'long streams',
 'c29-parsed-length-16-bits':'long SEI payloads in streams',
 'c22-payload-size-16-bits':'part `long_payload`',
 'c33-frame-counter-8-bits':'part `many`',
 'c02-remaining-32-bits':'part `huge`',
 'c37-gives-up-after-eight':'up to 80 inserted units',
 'c29-checksum-text-room':'checksum text in rooms of 3..20 bytes',
 'c24-damaged-aggregation':'forbidden bit in packets',
 'c05-last-size-32-bits':'part `far`',
 'c30-offset-as-32-bits':'positions of any 64-bit value',
'c01-weight-table-presized':'tighter memory limits, neighbourhood search',
'c02-peek64-unaligned':'64-bit peeks at every alignment',
'c04-block-copy':'part `long`, special bytes around block boundaries',
'c05-word-skip':'',
'c08-pps-table-full':'part `many`',
'c08-repeated-sps-compare':'near-duplicate sets',
'c25-negative-qp':'slice QPs outside 0..51',
'c29-carry-fold':'bytes that make carries, long strings',
'c30-long-payload-cut':'long payloads',
'c33-bitrate-32-bits':'large frame rates',
'c35-last-buffer-cache':'ThreadSanitizer leg',
'c35-pointer-cache':'deliveries in one reused place, altered copies of the same length, recycling allocator',
'c23-numnalus-8-bits':'arrays of many units',
'c24-ap-stops-at-64':'packets of many units',
'c32-short-stdin-read':'standard input through pipes in pieces',
}
s=open(root+'/DESIGN.md').read()
i=s.find('\n## Planted bugs')
if i>=0: s=s[:i]
ds=sorted(os.listdir(root+'/seeded'))
s=s.rstrip('\n')+f"""

## Planted bugs

{len(ds)} changes were planted (`seeded/<id>/`), written from the statements and the
code. Each builds, passes the 79 tests, and has a demonstration. Each is caught
by the quick check of the property in the second column (VERIF_SEED=1). The last
column says what was added to the generators or oracles while working on it.

| Planted bug | Caught by | Needs | Added |
|---|---|---|---|
"""
for d in ds:
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    n=m['needs'] if isinstance(m['needs'],str) else '; '.join(m['needs'])
    s+=f"| {d} | {m['property']} | {n} | {ADDED.get(d,'')} |\n"
open(root+'/DESIGN.md','w').write(s)
