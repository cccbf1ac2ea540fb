"""Writes MANIFEST.json: one check per property that has a module in pbt/props."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    'C01': 'generated classes and values, round-trip oracle (Hypothesis)',
    'C02': 'generated member sequences and serializer expressions, differential oracle: stdlib struct (Hypothesis)',
    'C03': 'generated classes and values, reference encoder as oracle (Hypothesis)',
    'C04': 'generated classes, values, offsets and buffers, differential oracle between packing methods (Hypothesis)',
    'C05': 'generated classes, packings, offsets and streams, differential oracle between unpacking methods (Hypothesis)',
    'C06': 'generated classes, values and byte-order switches, reference encoder as oracle (Hypothesis)',
    'C07': 'generated operation sequences, reference size as oracle (Hypothesis)',
    'C08': 'generated packings cut at every point, rejection invariant (Hypothesis, fault injection)',
    'C09': 'generated unfit values at every nesting depth, rejection invariant (Hypothesis)',
    'C10': 'generated array headers and corruptions, reference model as oracle (Hypothesis, fault injection)',
    'C11': 'generated byte strings around encoding boundaries, reference model as oracle (Hypothesis)',
    'C12': 'generated texts, encodings and styles, reference model as oracle (Hypothesis)',
    'C13': 'generated unions, deciders and selectors, reference model as oracle (Hypothesis)',
    'C14': 'generated conditions, reference model as oracle (Hypothesis)',
    'C15': 'generated class hierarchies, differential oracle: the flat class (Hypothesis)',
    'C16': 'generated generic classes and arguments, differential oracle: the class written by hand (Hypothesis)',
    'C17': 'generated recursive classes and values, reference model as oracle (Hypothesis)',
    'C18': 'generated operation histories, metamorphic oracle: the same operation in a fresh library (Hypothesis)',
    'C19': 'generated placements of consuming strings, reference finality predicate as oracle (Hypothesis)',
    'C20': 'generated custom-type mixtures, call log against the reference decoding (Hypothesis)',
    'C21': 'arbitrary and mutated bytes against a reference decoder (Hypothesis)',
    'C22': 'generated class bodies and values, reference model of attrs/init/eq/str (Hypothesis)',
    'C23': 'generated placements of recording user serializers, invariants over the calls they receive (Hypothesis)',
    'C24': 'generated operations with snapshots and mutation of inputs, invariant oracle (Hypothesis)',
    'C25': 'generated invalid and valid uses of each hint at every nesting depth, rejection oracle (Hypothesis)',
    'C26': 'generated operations nested in generated callbacks, reference model as oracle (Hypothesis)',
    'C27': 'generated serializer expressions, oracle: the parts one after another through struct and the reference model (Hypothesis)',
}
NOTE = ('Finds violations within the generated classes, values and histories described in DESIGN.md and counted in '
        'the evidence; it does not prove their absence. Trusts the reference model in pbt/model.py, the stdlib struct '
        'module and Hypothesis.')

checks = []
missing = []
for pid, tech in TECH.items():
    if (ROOT / 'pbt' / 'props' / f'{pid.lower()}.py').exists():
        checks.append(dict(property=pid, quick_cmd=f'./check {pid} quick', thorough_cmd=f'./check {pid} thorough',
                           technique=tech, level='exploration', level_note=NOTE))
    else:
        missing.append(dict(property=pid, reason='the check is not built yet'))
manifest = dict(
    version=1,
    setup_cmd="python3-vt -c 'import hypothesis' && chmod +x check",
    checks=checks,
    not_applicable=missing,
    notes='No hooks in /repo. ./check ID [quick|thorough]; python3-vt -m pbt.run --replay FILE re-runs a violation.',
)
(ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
