"""Prints the table of planted bugs for DESIGN.md."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
FIRST_MISSED = {
    'codec-by-name': 'missed first; codecs of the same name',
    'mixin-first': 'missed first; conflicts of byte orders with mixins',
    'eq-len-lists': 'missed first; classes of 129 and 260 members',
    'union-none-default': 'missed first; deciders which return None and other values',
    'header-typevar-first': 'missed at times; objects with __index__',
    'pack-into-header-after': 'missed at times; buffers which contain zeros',
    'net-two-byte-read': 'missed at times; more strings and cuts at member boundaries',
    'self-by-name': 'missed first; decoy classes of the same names are used before',
    'needs-preprocess-prepack': 'missed first; user serializers prepared on one side only',
    'unpack-read-clears': 'harness error first; results which cannot be looked at are violations now',
    'unicode-surrogates': 'missed first; texts the codec lacks in C12, more kinds of them in C09',
    'compound-zero-values': 'missed first; class themes',
    'specialization-key-name': 'missed first; decoys',
    'zero-size-not-reported': 'missed first; hollow classes',
    'condition-memo-object': 'missed first; instances which change between operations',
    'mul-tuple-header': 'missed first; spare items',
    'typevar-bound-name': 'missed first; type variables of the same name',
    'compound-size-early': 'missed first; small and hollow classes',
    'partial-size-kept': 'missed first; small and hollow classes',
    'tuple-list-shared': 'missed first; the empty list was not changed by the check',
    'nested-instance-size': 'missed first; nested instances with another byte order',
    'self-cached-class': 'missed first; deeper chains of subclasses',
    'ahead-self-prepack': 'missed first; Self in look-ahead unions',
    'pad-by-name': 'missed first; names like x_pad_',
    'static-zero-length': 'missed first; items for empty arrays',
    'ahead-no-restore': 'missed first; keys of custom types, look-ahead alternatives which depend on other members',
}
print('| id | caught by | needs | note |\n| --- | --- | --- | --- |')
for d in sorted((ROOT / 'seeded').iterdir()):
    meta = json.loads((d / 'meta.json').read_text())
    print(f'| {d.name} | {meta["property"]} | {meta["needs"]} | {FIRST_MISSED.get(d.name, "")} |')
