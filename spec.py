#!/usr/bin/env python3
"""The one place where the properties are written down: emits properties.jsonl, MANIFEST.json and drivers/drivers.json.
Only properties whose driver exists are emitted."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
I = 'include/Srl/'
L = 'src/lib/'
P = []


def prop(id, title, statement, over, text, why, files, mech, driver, rule, technique, note, must=(), observe=(), assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, driver=driver,
                  rule=rule, technique=technique, note=note, must=list(must), observe=list(observe), assume=list(assume)))


ALLF = [I + x for x in ('PJson.h', 'PMsgPack.h', 'PSrl.h')] + [L + x for x in ('PJson.cpp', 'PMsgPack.cpp', 'PSrl.cpp')]
SAN = 'held on the executions of this run, under AddressSanitizer and UndefinedBehaviorSanitizer (all reports fatal)'
TESTS = 'The test programs run a few hand-written values through each format once; '

prop('P01', 'Objects round trip through every format and every documented route',
     'An object whose class describes its fields is equal to the original after it was stored and restored, in JSON (compact or indented), MessagePack and the binary format alike, '
     'for every supported field type (numbers of every width, text in every supported encoding, fixed arrays, containers of the standard library and of the library itself, pairs, tuples, owning pointers, binary data, nested and recursive objects) and every value of it. '
     'This holds for every route: bytes or streams, storing an object, packing a list of fields, loading an object into a tree and pasting or writing it, inserting it as a field of a tree, storing twice, and passing the document through another format in between. '
     'Members which the class does not describe are not touched.',
     ['inputs', 'programs'], 'all values of the supported types, sizes from empty to tens of thousands of elements, all four writers, all routes',
     TESTS + 'a defect tied to a value, a size, a nesting or a combination of type, route and format is not among them.',
     [I + 'Resolve.hpp', I + 'Resolve.h', I + 'Tree.hpp', I + 'Node.hpp', I + 'ScopeWrap.h', I + 'Context.hpp', I + 'BitWrap.h', I + 'Blocks.h', I + 'Tools.hpp', L + 'Tree.cpp', L + 'Node.cpp'] + ALLF,
     [('type dispatch of insertion and pasting (Switch specialisations)', I + 'Resolve.hpp'), ('tree, streaming store and streaming restore', I + 'Tree.hpp'), ('context of a class: insert and paste modes', I + 'Context.hpp')],
     ['p01.cpp'],
     'Objects of 30 root types with about 120 field types are drawn from a value generator biased to limits, empty and large containers, all encodings; every case picks a format and a route and compares field by field with the original (floating point by bits where the format keeps them). A case counts as distinct by the bytes of its document.',
     'reference-equality monitor over generated objects under ASan+UBSan',
     SAN + '; equality is the generator\'s own field-wise comparison; values outside the documented limits (DESIGN.md, "not claimed") are not generated',
     ['comparisons', 'route bytes', 'route stream', 'route pack', 'route other format', 'refills'], ['return of restore/paste/unpack'])

prop('P02', 'A tree survives every format and every chain of formats unchanged',
     'A tree (or a part of one) written in any format and read back has the same content: the same scopes with the same kinds and names, the same values with the same types, names and contents, in the order in which it was written. '
     'This also holds after any number of further passes through the formats in any order, up to what a target format cannot express (JSON has neither binary data nor names inside of arrays). '
     'Parts of one tree can be written on their own, put into another tree, or handed over by an object while that is written straight into a document, with the same result. '
     'Whatever a program inserts has the same content whether it is inserted into a tree or, by an object, into a document that is being written.',
     ['inputs', 'histories'], 'all documents: any shape, nesting up to the limit, names of any text including empty and repeated ones, values of all types and sizes; chains of formats',
     TESTS + 'documents are tiny and of one shape; long names, large counts, repeated names, width borders and chains of conversions do not occur.',
     ALLF + [I + 'Node.h', I + 'Tree.h', I + 'Value.h', I + 'Environment.h', L + 'Node.cpp', L + 'Tree.cpp', L + 'Environment.cpp', L + 'In.cpp', L + 'Out.cpp'],
     [('writing a tree', L + 'Node.cpp'), ('reading a tree', L + 'Tree.cpp'), ('storage of values', L + 'Environment.cpp')],
     ['p02.cpp'],
     'Random documents (model independent of the library) are built into a tree, written, read and compared element by element with the model, including order, kind and exact value; distinct by document hash, trivial ones (fewer than two elements) are not counted.',
     'model-based document monitor under ASan+UBSan', SAN + '; the document model and what each format can express is written independently of the library',
     ['comparisons', 'hops', 'scopes handed over', 'values handed over', 'scopes written by functions', 'lists', 'pointers to text', 'several at once', 'scopes by functions', 'roundtrips PJson', 'roundtrips PMsgPack', 'roundtrips PSrl'], ['tree content through public accessors'])

prop('P03', 'Streams and memory are interchangeable',
     'Reading from a stream gives exactly what reading the same bytes from memory gives, content or refusal, however the stream cuts its data into pieces and whichever kind of stream it is. '
     'Writing to a stream gives exactly the bytes written to memory, wherever in the stream the output begins, without touching what was there before; what is left unread or written around stays as it was. '
     'A stream that fails is reported by an exception of the library or by the state of the stream, never by silent truncation.',
     ['inputs', 'schedules', 'fault_sequences'], 'all documents, valid or damaged; all chunkings down to one byte; all start offsets; streams which fail at any byte',
     TESTS + 'streams are always whole in-memory strings or small files, so refilling in the middle of an element never happens.',
     [I + 'In.h', I + 'Out.h', L + 'In.cpp', L + 'Out.cpp'] + ALLF,
     [('buffered input with an anchor', L + 'In.cpp'), ('buffered output with reserved patches', L + 'Out.cpp')],
     ['p03.cpp'],
     'Each document (valid, mutated or cut) is read from an exact-size heap block and from a stream buffer which returns chunks of chosen or random sizes; outcome and content must agree. Output goes to string, file, offset, append and failing streams. Distinct by bytes and chunking.',
     'differential stream/memory monitor with fault-injecting stream buffers under ASan+UBSan', SAN,
     ['accepted', 'rejected', 'refills', 'failed streams', 'written to streams', 'restored from streams', 'comments and the like'], ['bytes of streams', 'exceptions'])

P[-1]['run'] = {'memory_thorough': 20000, 'cpu_thorough': 60}
prop('P04', 'Numbers are converted exactly or refused',
     'A number read as another arithmetic type arrives as the same number, is cut to its integer part or rounded where only the fraction or the precision does not fit, and is refused by an exception where its magnitude does not fit: it never wraps around, saturates or changes sign. '
     'Text which is a number is read as this number and text which is none is refused; numbers written as text are read back as the same numbers.',
     ['inputs'], 'all values of all integer and floating point types including limits, NaN and infinities, all pairs of source and target types, any text, through every format',
     'The tests convert a handful of small numbers; the values next to the limits of each of the 100 pairs of types are not among them.',
     [I + 'Tools.hpp', I + 'Tools.h', I + 'Value.h', L + 'ToolsStrConv.cpp', L + 'fpconv/fpconv.c', I + 'Resolve.hpp'],
     [('value to number conversion with bound checks', I + 'Tools.hpp'), ('text to number', L + 'ToolsStrConv.cpp')],
     ['p04.cpp'],
     'All 16 bit values, and boundary-biased values of every type, against every target type; expected result from 128 bit integer arithmetic and the FPU; each source/target/value triple counts once.',
     'exact-arithmetic oracle monitor under ASan+UBSan(float-cast-overflow)', SAN + '; strtod and the processor\'s conversions are trusted as reference',
     ['converted', 'refused', 'exhaustive 16 bit values', 'texts that are numbers', 'texts that are no numbers'], ['unwrapped value or exception'])

prop('P05', 'Hostile input cannot do harm',
     'Whatever bytes are loaded, restored or unpacked in any format, the call ends with a result or with the library\'s exception: it reads and writes no memory but its own, recurses and runs no longer than in proportion to the input (names chosen to collide in hash tables aside), and allocates no more than in proportion to it, whatever sizes the input claims. '
     'The tree, the parser and the objects involved can be used again or destroyed afterwards.',
     ['inputs', 'fault_sequences'], 'all byte strings, as memory or stream, for every parser, into trees and into typed objects (including shared and polymorphic ones)',
     'The tests only ever read what the library itself has just written.',
     [I + 'In.h', L + 'In.cpp', L + 'Tree.cpp', I + 'Resolve.hpp', I + 'Blocks.h'] + ALLF,
     [('bounds of reads', I + 'In.h'), ('nesting limit', L + 'Tree.cpp'), ('growth while reading streams', L + 'In.cpp')],
     ['p05.cpp', 'hostile.cpp', 'hostile_typed.cpp', 'poly.cpp'],
     'Garbage, attacks (huge declared lengths, deep nesting, over-long integers, unknown names and ids), structure-aware mutations of valid documents and every single-byte damage, in exact-size heap blocks; allocation is metered, every case has a processor time limit, every parser is used again on a valid document. Distinct by input bytes.',
     'structure-aware fuzzing with ASan+UBSan, allocation meter and reuse monitor', SAN + '; memory bound: constant plus a constant factor of the input size',
     ['refused', 'accepted', 'parsers used again', 'positions damaged', 'inputs'], ['process, allocator, exceptions'])

prop('P06', 'Written JSON is valid JSON with exactly the content of the tree',
     'Every document written as JSON, compact or indented, is a valid JSON text in UTF-8 (RFC 8259) which means exactly what was written: the same members in the same order, numbers of exactly the same value, strings of exactly the same characters whatever encoding they were given in, binary data as its Base64 text. '
     'This holds for every finite number and for names and strings made of any characters.',
     ['inputs'], 'all trees and objects with valid text and finite numbers; all code points; both layouts',
     'The tests read JSON back with the library itself, so that errors made on both sides cancel out, and use ASCII text only.',
     [I + 'PJson.h', L + 'PJson.cpp', L + 'ToolsStrConv.cpp', L + 'fpconv/fpconv.c', I + 'String.h'],
     [('escaping and layout', L + 'PJson.cpp'), ('numbers as text', L + 'ToolsStrConv.cpp')],
     ['p06.cpp'],
     'Written text is parsed by an independent strict reader which keeps number literals; every Unicode code point alone, all pairs of ASCII characters and random documents; distinct by document hash.',
     'independent strict RFC 8259 reader as oracle under ASan+UBSan', SAN + '; the reader in harness/doc.cpp is trusted',
     ['documents', 'code points', 'pairs', 'objects'], ['bytes written'])

prop('P07', 'Every valid JSON text is read as what it says',
     'A valid JSON text with an object or an array as its root is accepted and read as exactly what it says, however it is spelled: any white space, any escapes including surrogate pairs, any number notation, repeated and empty names, any nesting up to the limit. '
     'Integers that fit 64 bits are exact, other numbers are the nearest double.',
     ['inputs'], 'all JSON texts within the nesting limit, all spellings of each value, also with a parser that has read other texts before',
     'The tests read two short files; escapes, surrogates, exponents and odd white space are hardly used.',
     [I + 'PJson.h', L + 'PJson.cpp', L + 'ToolsStrConv.cpp', I + 'In.h'],
     [('tokenizer and escapes', L + 'PJson.cpp'), ('text to number', L + 'ToolsStrConv.cpp')],
     ['p07.cpp'],
     'A random document is spelled by an independent writer which varies white space, escapes and number notation; content expected from the model; all code points as literal and as escape; distinct by text.',
     'generated spellings against a document model under ASan+UBSan', SAN + '; exponents beyond the range of doubles are not claimed',
     ['texts', 'code points', 'numbers', 'texts with one parser'], ['tree content'])

prop('P08', 'Written MessagePack is valid with exactly the content of the tree',
     'Every document written as MessagePack is one valid MessagePack object whose root is a map or an array with exactly the tree\'s content: big-endian numbers with exactly their value, lengths and element counts of the right width for every size, strings in UTF-8, binary data as bin.',
     ['inputs'], 'all trees and objects, all sizes across the borders 15/16, 31/32, 255/256 and 65535/65536, all integers',
     'The tests read MessagePack back with the library itself, so that errors made on both sides cancel out (lengths were once written in the wrong byte order without any test failing).',
     [I + 'PMsgPack.h', L + 'PMsgPack.cpp', I + 'Blocks.h'],
     [('prefix selection, byte order, scope counts patched afterwards', L + 'PMsgPack.cpp')],
     ['p08.cpp'],
     'Bytes are decoded by an independent reader of the specification and compared with the model; all 16 bit integers and their neighbours at wider borders, lengths and counts around every border; distinct by document hash.',
     'independent MessagePack reader as oracle under ASan+UBSan', SAN + '; the reader in harness/doc.cpp is trusted',
     ['documents', 'integers', 'lengths', 'element counts', 'objects'], ['bytes written'])

prop('P09', 'Every valid MessagePack document is read as what it says',
     'A MessagePack document whose root is a map or an array is read as exactly what it says, whichever of the permitted widths its producer chose for numbers, lengths and counts. '
     'What the library does not support (extension types, keys that are not strings, the unused prefix) is refused by an exception and never misread.',
     ['inputs'], 'all documents and all encodings of each, every prefix byte, also with a parser used before',
     'The tests only read what the library wrote, which uses one encoding per value.',
     [I + 'PMsgPack.h', L + 'PMsgPack.cpp'],
     [('prefix dispatch', L + 'PMsgPack.cpp')],
     ['p09.cpp'],
     'A random document is encoded by an independent writer with random permitted widths; all 256 prefixes at several positions; keys of all other types; distinct by bytes.',
     'independent MessagePack writer as oracle under ASan+UBSan', SAN,
     ['documents', 'prefixes', 'other keys', 'unsupported elements', 'documents with one parser'], ['tree content or exception'])

prop('P10', 'The binary format keeps its layout and names every name once',
     'Every document written in the binary format follows the layout it has always had, so that documents written earlier can be read and documents written now are readable by earlier readers: one byte of type and flags, shortest variable-length integers for lengths and indices, numbers in the width of their type (little endian), scopes closed by their end mark. '
     'A name is spelled out when it first occurs in a document and referred to by its index afterwards; every well-formed document is read as what it says.',
     ['inputs', 'histories'], 'all documents and objects, names of all lengths and any number of distinct names; writers used for several documents',
     'The tests read the format back with the library itself: a changed layout, or an index that is wrong only for many names, goes unnoticed.',
     [I + 'PSrl.h', L + 'PSrl.cpp', I + 'Hash.h', I + 'Hash.hpp', L + 'Hash.cpp'],
     [('name table of writer and reader', L + 'PSrl.cpp'), ('variable-length integers', L + 'PSrl.cpp')],
     ['p10.cpp'],
     'Independent reader and writer of the layout on both sides, golden documents recorded from the original writer, pools of up to thousands of distinct names; distinct by document hash.',
     'independent codec and golden-document oracle under ASan+UBSan', SAN + '; the layout is taken from the original sources (there is no published specification)',
     ['documents', 'documents read', 'distinct names', 'golden documents', 'name pools'], ['bytes written, tree content'])

prop('P11', 'Shared objects come back shared',
     'Objects held by several shared or weak pointers are restored as one object each, referred to by exactly those pointers that referred to it before, with nothing shared that was not; its content is written once per document. '
     'Ownership after restoring is what it was before (no object is leaked, freed early or kept alive), also when several documents are stored and restored one after another.',
     ['inputs', 'histories'], 'all acyclic graphs of objects and values held by shared, weak and unique pointers in fields and containers, all formats and routes',
     'The tests restore one pair of pointers; graphs with many references, several types and several documents per tree do not occur.',
     [I + 'Resolve.hpp', I + 'Environment.h', I + 'Tree.hpp', L + 'Environment.cpp'],
     [('table of shared objects while storing and restoring', I + 'Environment.h'), ('insertion and pasting of shared pointers', I + 'Resolve.hpp')],
     ['p11.cpp'],
     'Random acyclic object graphs, objects which live only while they are inserted, additions to loaded documents, tens of thousands of objects; the aliasing relation, the contents, the number of live objects and the use counts are compared with the original; distinct by graph.',
     'graph-isomorphism and lifetime monitor under ASan+UBSan', SAN + '; cyclic graphs and pointers of different static types to one object are not supported by the library',
     ['aliases compared', 'objects compared', 'references written', 'documents in sequence', 'passing objects', 'documents with additions', 'many objects'], ['pointers, use counts, live objects'])

prop('P12', 'Polymorphic objects come back as what they were and nothing else is created',
     'An object held by a pointer to a registered base class is restored as an object of its own class with equal content, wherever the pointer is kept and whatever it pointed to before. '
     'An identifier that is unknown, or that names a class not derived from the class expected there, is refused by an exception and no object of it is created; registering a name twice and storing an empty pointer that is not shared are refused; no object is leaked or destroyed twice.',
     ['inputs', 'histories', 'programs'], 'all combinations of registered classes in pointers and containers of pointers, all identifiers in the document, all formats and routes',
     'The tests restore three classes of one hierarchy from documents written just before.',
     [I + 'Registration.h', L + 'Registration.cpp', I + 'Resolve.hpp', I + 'TpTools.h'],
     [('registry of factories', L + 'Registration.cpp'), ('creation from an identifier', I + 'Resolve.hpp')],
     ['p12.cpp', 'poly.cpp'],
     'Scenes of objects of two hierarchies in every kind of pointer; documents with exchanged, unknown, empty, mistyped and foreign identifiers; live objects are counted per class; distinct by scene.',
     'dynamic-type and lifetime monitor under ASan+UBSan', SAN,
     ['scenes compared', 'identifiers refused', 'identifiers written', 'duplicate registrations refused', 'objects alive', 'empty pointers refused'], ['dynamic types, live objects, exceptions'])

prop('P13', 'Editing a tree does what a sequential model says',
     'After any history of insertions, removals, copies, moves, clears and writes, the content of a tree (scopes and values, their names, kinds and order, their counts and positions) is what the same history gives on plain ordered lists, and every query, lookup and visit agrees with it. '
     'References to scopes and values stay valid and keep their content until what they refer to is removed; a change in one place changes nothing elsewhere.',
     ['histories'], 'all sequences of editing operations on trees of any shape, including removal and insertion while visiting as far as documented',
     'The tests build one tree and query it; sequences of removals and insertions, repeated names and trees built from other trees are not explored.',
     [I + 'Node.h', I + 'Node.hpp', I + 'Tree.h', I + 'Tree.hpp', I + 'Aux.h', L + 'Node.cpp', L + 'Tree.cpp', L + 'Environment.cpp'],
     [('linked lists of scopes and values with counts', I + 'Aux.h'), ('insertion, removal and lookup', I + 'Node.hpp')],
     ['p13.cpp'],
     'Random operation sequences run against the library and a list model; after every few steps the complete trees, all kept handles, the counts and random queries are compared; distinct by state.',
     'executable sequential model of the editing interface under ASan+UBSan', SAN,
     ['operations', 'scopes compared', 'values compared', 'queries', 'removed by handle', 'removed by name', 'nodes taken over'], ['public accessors and handles'])

prop('P14', 'What does not fit is refused, never half taken over in silence',
     'Restoring from a document in which something required is missing, has another kind, too few elements, or does not fit the target type ends with an exception of the library; fields resolved before are restored, the field that failed keeps its old value if it is a plain value, and the document is unchanged. '
     'The same object restored from a fitting document afterwards is equal to the original; looking up what does not exist is refused by an exception and changes nothing; a class that tries a field which is not there or of another kind, and goes on, gets the fields around it as they are.',
     ['inputs', 'fault_sequences'], 'all single defects at any depth of a document, all field types, from bytes and from trees',
     'The tests check a few missing names and one type mismatch.',
     [I + 'Resolve.hpp', I + 'ScopeWrap.h', I + 'Node.hpp', I + 'Context.hpp', L + 'Node.cpp', I + 'Tree.hpp'],
     [('checks of scope, size and type while pasting', I + 'Resolve.hpp'), ('lookup in trees and in streams', I + 'ScopeWrap.h')],
     ['p14.cpp'],
     'One defect of 16 kinds is put into an otherwise right document of a random object; outcome, untouched members, the document\'s bytes and a following restore are compared; distinct by document and defect.',
     'defect-injection monitor with before/after comparison under ASan+UBSan', SAN + '; arrays that have too many elements are not claimed (accepted from streams, refused from trees)',
     ['refused', 'accepted afterwards', 'targets compared', 'tried', 'kind: absent', 'kind: renamed', 'kind: number out of range'], ['exceptions and targets'])

prop('P15', 'Trees and parsers are reusable and independent',
     'After any history of operations on a tree and a parser, including operations that failed with an exception of the library, of user code or of a full output, the next operation gives exactly what it gives with a new tree and a new parser. '
     'Writing the same content twice gives the same bytes, and what is done to one tree shows in no other tree and in no object.',
     ['histories', 'fault_sequences'], 'all sequences of loads, stores, restores, edits, moves and clears on several trees and parsers, with failures at arbitrary points',
     'Each test uses new trees and parsers for one operation that succeeds.',
     [I + 'Tree.h', I + 'Tree.hpp', L + 'Tree.cpp', L + 'Environment.cpp', I + 'Environment.h'] + ALLF,
     [('per-document state reset when an operation begins', I + 'Tree.hpp'), ('parser state', L + 'PSrl.cpp')],
     ['p15.cpp', 'hostile.cpp'],
     'Random operation sequences with injected failures on several trees and parsers; each result is compared with that of fresh ones; distinct by state.',
     'differential used-versus-fresh monitor with fault injection under ASan+UBSan', SAN,
     ['operations', 'trees compared', 'bytes compared', 'failed loads', 'failed restores', 'failed stores', 'full outputs'], ['bytes written, tree content'])

prop('P16', 'The hash table is a map',
     'After any history of insertions, updates, lookups, removals (single and by condition), visits, moves and clears, the library\'s hash table holds exactly the entries a sequential map would hold and every operation returns what it would return, for any key type, hash function, initial size and load factor and also when constructors or conditions throw. '
     'Every value is constructed and destroyed exactly once and stays at its address while it is in the table.',
     ['histories', 'configurations', 'fault_sequences'], 'all operation sequences, hash functions down to constant ones, sizes and load factors',
     'The tests insert and remove a fixed list of keys with the default hash.',
     [I + 'Hash.h', I + 'Hash.hpp', L + 'Hash.cpp', I + 'Heap.h'],
     [('buckets, chains and growth', I + 'Hash.hpp')],
     ['p16.cpp'],
     'Random histories on eight kinds of tables against std::map, with values that track their lifetime; distinct by history.',
     'executable map model with lifetime tracking under ASan+UBSan', SAN,
     ['operations', 'tables compared', 'entries compared', 'removed by condition', 'constructors which threw', 'tables moved'], ['return values, iteration, lifetimes'])

prop('P17', 'The arena never hands out memory twice',
     'Every block the library\'s arena hands out is aligned, lies inside of memory it owns and overlaps no block that is still in use, and its content stays untouched until it is returned or the arena is cleared, through any history of requests of any sizes, returns, clears and moves. '
     'All memory is given back when the arena is destroyed.',
     ['histories'], 'all sequences of requests, returns, clears and moves, sizes from zero to many megabytes, any alignment of a type',
     'The arena is only used indirectly by the tests, with sizes far below its growth steps.',
     [I + 'Heap.h', I + 'Heap.hpp', L + 'Heap.cpp'],
     [('segments, alignment and reuse', L + 'Heap.cpp')],
     ['p17.cpp'],
     'Random histories with a shadow map of live blocks filled with patterns; allocation balance afterwards; distinct by history.',
     'shadow-memory monitor under ASan+UBSan', SAN,
     ['blocks', 'blocks compared', 'returned', 'cleared', 'moved', 'operations'], ['returned addresses and their content'])

# --- the rest is appended by the drivers that follow -------------------------------------------------------------------
exec(open(os.path.join(HERE, 'spec2.py')).read()) if os.path.exists(os.path.join(HERE, 'spec2.py')) else None


def main():
    have = [p for p in P if all(os.path.exists(os.path.join(HERE, 'drivers', s)) for s in p['driver'])]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in have:
            assert len(p['title']) <= 80, p['id']
            for x in p['files']:
                assert os.path.exists('/repo/' + x), x
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks = [{
        'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in have]
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': [],
         'notes': 'No hooks: everything is observed at the public interface of the library, built from /repo\'s working tree with sanitizers. '
                  'Repairs of genuine defects are "fix:" commits, listed with the known findings in known-findings.txt.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    d = {}
    for p in have:
        d[p['id']] = {'sources': p['driver'], 'rule': p['rule'], 'must': p['must'], 'assumptions': p['assume']}
        d[p['id']].update(p.get('run', {}))
    json.dump(d, open(os.path.join(HERE, 'drivers', 'drivers.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'drivers', 'drivers.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
