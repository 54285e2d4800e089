#!/usr/bin/env python3
# Regenerates MANIFEST.json from the checks that exist.
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ' Trusts the oracle named in DESIGN.md, the compiler and the sanitizers; bugs outside the generated inputs are not excluded.'
T = {
 'C01': ('property-based testing: random struct schemas and values, round trip against a value model', 'Random search over runtime-composed struct shapes, values, formats and routes.'),
 'C02': ('property-based testing: random documents, chains of format conversions against a document model; thorough tier also coverage-guided fuzzing (libFuzzer)', 'Random search with an independent document model.'),
 'C03': ('property-based testing: random documents, differential against an independent strict JSON parser', 'Random search; oracle is an independent RFC 8259 parser.'),
 'C04': ('grammar-based generation of JSON texts with known meaning', 'Random search over the JSON grammar; the generator knows the meaning of each text.'),
 'C05': ('property-based testing: random documents, differential against an independent MessagePack decoder', 'Random search; oracle is an independent MessagePack decoder.'),
 'C06': ('generation of MessagePack encodings (all forms per value) with known meaning', 'Random search over encodings; the generator knows the meaning.'),
 'C07': ('property-based testing: differential against an independent codec of the Srl wire layout', 'Random search; oracle is an independent encoder/decoder of the pinned layout.'),
 'C08': ('structure-aware mutation fuzzing under ASan/UBSan with allocation limits, plus coverage-guided fuzzing (thorough)', 'Fuzzing with sanitizers and an allocation budget.'),
 'C09': ('property-based testing: every cut point of generated documents (fault injection)', 'Exhaustive over the cut points of each generated small document, random documents.'),
 'C10': ('metamorphic testing: stream kinds, chunking and offsets against in-memory result; thorough tier also coverage-guided fuzzing (libFuzzer)', 'Random search; oracle is the in-memory result plus the document model.'),
 'C11': ('property-based testing: random numbers x all numeric targets against exact arithmetic', 'Random search biased to limits; oracle is 128-bit/exact arithmetic.'),
 'C12': ('property-based testing: random schemas and permuted/extended/reduced documents against a model', 'Random search; oracle is a field-by-name model.'),
 'C13': ('stateful model-based testing of edit/lookup histories', 'Random histories against a plain ordered-list model.'),
 'C14': ('property-based testing of Union access against the document model', 'Random search with a document model.'),
 'C15': ('stateful model-based testing of the hash table against std::unordered_map/vector', 'Random histories against a plain model, including address stability.'),
 'C16': ('property-based testing: random sharing graphs, isomorphism oracle', 'Random acyclic graphs; oracle is graph isomorphism over identities and values.'),
 'C17': ('property-based testing: random polymorphic object graphs and corrupted type ids', 'Random search; oracle is the dynamic-type/field model.'),
 'C18': ('stateful testing: random operation histories, differential against fresh objects', 'Random histories with faults; oracle is the same operation on fresh objects.'),
 'C19': ('property-based testing: Unicode strings across encodings against an independent UTF codec', 'Random search; oracle is an independent UTF-8/16/32 codec.'),
 'C20': ('property-based testing: scalars and number text against strtod/128-bit arithmetic', 'Random search; oracle is correctly rounded strtod and exact integers.'),
 'C21': ('property-based testing: random payloads and corrupted text against an independent codec', 'Random search with independent base64/hex codec and guarded destinations.'),
 'C22': ('stateful model-based testing of allocation histories', 'Random histories; block contents, overlap, alignment and outstanding memory are checked.'),
 'C23': ('fault injection: instance-counted types, failures at every generated point', 'Random objects/documents with injected failures; oracle is exact instance accounting plus ASan/leak accounting.'),
 'C24': ('boundary-driven generation of nested documents in all formats', 'Depths around the limit exhaustively, larger depths sampled.'),
 'C25': ('randomised concurrent workloads under ThreadSanitizer, differential against single-threaded runs', 'Random workloads/schedules; TSan detects races independent of timing on executed paths.'),
 'C26': ('differential testing: direct restore against load+paste on random, mutated and mismatched documents; thorough tier also coverage-guided fuzzing (libFuzzer)', 'Random search; the two routes and a shape model are compared.'),
 'C27': ('property-based testing: generated malformed tokens at generated places of valid documents must be refused', 'Random search; every generated document is malformed by construction, so accepting it is the violation.'),
 'C29': ('fault injection at generated allocation points (n-th operator new fails) in random operations, under AddressSanitizer', 'Random operations and contents x failing allocation; oracles are the document/table model before the operation, repetition, and exact accounting of allocated bytes.'),
 'C28': ('stateful model-based testing: histories with short-lived sources and recorded references, under AddressSanitizer', 'Random histories over several trees; sources are overwritten and freed at once, recorded pointers are followed and compared with a model.'),
}
props = [json.loads(l)['id'] for l in open(f'{H}/properties.jsonl')]
checks, na = [], []
for p in props:
    if os.path.exists(f'{H}/checks/{p}.cpp'):
        checks.append({'property': p, 'quick_cmd': f'./run.py {p} --tier quick', 'thorough_cmd': f'./run.py {p} --tier thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': T[p][0], 'level': 'exploration', 'level_note': T[p][1] + TRUST})
    else: na.append({'property': p, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks compile the sources of /repo unmodified with sanitizers. run.py builds and runs one check; see DESIGN.md.'},
          open(f'{H}/MANIFEST.json', 'w'), indent=1)
