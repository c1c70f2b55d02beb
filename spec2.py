prop('P18', 'Text is converted between its encodings exactly or refused',
     'Text given in UTF-8, UTF-16 or UTF-32 arrives in any other of these encodings with exactly the same characters, as a value, as a name or converted on its own into a buffer behind what it already holds. '
     'Two texts compare equal if and only if they have the same characters, whatever their encodings, and a field is found by its name in any encoding. '
     'Bytes that are no valid text of their encoding are refused when they have to be converted (as names and as values, from objects and from trees, when restored and when written), leaving target and document unchanged.',
     ['inputs'], 'all valid texts of all code points (NUL, byte order marks and non-characters included), all damaged ones, all pairs of encodings and character types',
     'The tests convert a few words.',
     [I + 'String.h', I + 'String.hpp', I + 'Tools.hpp', L + 'ToolsStrConv.cpp', L + 'Environment.cpp', I + 'Resolve.hpp'],
     [('conversion with a growing buffer', L + 'ToolsStrConv.cpp'), ('comparison across encodings', I + 'String.hpp')],
     ['p18.cpp'],
     'Every code point alone, random texts of all classes of characters, documents whose names and values use all character types, and damaged texts, judged by independent codecs; distinct by text.',
     'independent codec oracle under ASan+UBSan', SAN + '; text that needs no conversion is copied unchecked, which is not claimed otherwise',
     ['conversions', 'code points', 'comparisons', 'fields', 'refused', 'not written', 'fields asked for'], ['converted bytes, exceptions'])
prop('P19', 'Base64 and hexadecimal are exact both ways',
     'Binary data turned into Base64 or hexadecimal text is the standard text of this data (RFC 4648), and turning such a text back gives exactly the data, with the size announced beforehand. '
     'Text that is no such encoding (wrong length, foreign characters, misplaced padding) is refused by an exception, nothing is written beyond the given memory, and binary data that passed through JSON is restored exactly.',
     ['inputs'], 'all data of all sizes, all texts, destinations of any size',
     'The tests convert one short block.',
     [L + 'ToolsBtsConv.cpp', I + 'Tools.h', I + 'BitWrap.h', L + 'PJson.cpp', I + 'Resolve.hpp'],
     [('tables and groups', L + 'ToolsBtsConv.cpp')],
     ['p19.cpp'],
     'All data of one and two bytes, all sizes up to 700, random and threshold sizes, every character at every place of a group, mutated texts; reference codec; exact-size heap blocks for source and destination; distinct by text.',
     'independent codec oracle under ASan+UBSan', SAN,
     ['encoded', 'decoded', 'refused', 'documents'], ['results, exceptions, destination memory'])
prop('P20', 'Fields are found by name, whatever the order and whatever else is there',
     'An object is restored equal to the original from any document that contains its fields, in whatever order they are written, whatever unknown fields of any size and nesting stand between them (with names like those asked for further inside, too) and however its containers mix in such elements; elements without names are found by their position among the values or among the scopes. '
     'Optional fields that are absent keep the value they had, optional pointers which are null in the document are emptied.',
     ['inputs', 'configurations'], 'all orders, all unknown content, all subsets of optional fields, at every depth, all formats, from bytes, chunked streams and trees',
     'The tests read fields in the order in which they have just been written, with nothing in between.',
     [I + 'ScopeWrap.h', I + 'Context.hpp', I + 'Tree.hpp', L + 'Tree.cpp', L + 'Node.cpp', I + 'Node.hpp', I + 'Resolve.hpp'],
     [('streaming lookup that sets aside what comes before the field asked for', L + 'Node.cpp'), ('skipping the rest of a scope', L + 'Tree.cpp')],
     ['p20.cpp'],
     'The document of a random object is scrambled at every depth, sprinkled with random unknown content and decoys, stripped of optional fields and written by independent writers; distinct by document and route.',
     'scrambled-document oracle under ASan+UBSan', SAN + '; a repeated name refers to its first occurrence and is not generated among the fields asked for',
     ['comparisons', 'unknown fields', 'scopes in another order', 'optional fields absent', 'sparse documents', 'route bytes', 'route chunked stream'], ['restored objects'])
prop('P21', 'Nesting is accepted up to the limit and refused beyond it',
     'A document whose scopes lie at most 128 deep below its root is read, into a tree or into a recursive type, and one that nests deeper is refused by the library\'s exception without exhausting the stack, whatever kinds of scopes are mixed, whether or not it is complete, from bytes or streams. '
     'Scopes that follow each other do not count, content that nobody asks for is skipped at any depth, and tree and parser can be used again after a refusal.',
     ['inputs'], 'all depths from one to hundreds of thousands, all mixtures of objects and arrays, all formats and ways of reading, on a small stack',
     'No test nests deeper than a few levels.',
     [L + 'Node.cpp', L + 'Tree.cpp', I + 'Node.h', I + 'Tree.hpp', I + 'Resolve.hpp'],
     [('depth counted while reading scopes', L + 'Node.cpp'), ('depth of nodes entered while restoring', L + 'Node.cpp'), ('iterative skipping', L + 'Node.cpp')],
     ['p21.cpp'],
     'Documents of chosen depth are put together byte by byte in every format, or written from objects nested in 18 ways, and read on a thread with a 2 MB stack; distinct by document.',
     'depth-boundary oracle on a small stack under ASan+UBSan', SAN,
     ['refused', 'accepted', 'objects refused', 'objects accepted', 'wide documents', 'written', 'skipped', 'ways refused', 'ways accepted'], ['exceptions, depth of what was read'])
prop('P22', 'Threads with trees and parsers of their own do not disturb each other',
     'Any number of threads that each use trees, parsers and tables of their own get exactly the results they would get alone and have no data race, also while they store the same unchanging objects, read the same bytes, convert text and numbers, create objects of registered classes or fail with exceptions. '
     'A tree or a table that was made by one thread can be used and destroyed by another one after it was handed over.',
     ['schedules', 'histories'], 'all interleavings of independent operations of several threads',
     'The tests use one thread.',
     [I + 'Tree.h', I + 'Heap.h', L + 'Heap.cpp', L + 'Environment.cpp', L + 'Registration.cpp', I + 'Registration.h', L + 'ToolsStrConv.cpp', L + 'ToolsBtsConv.cpp', L + 'Out.cpp', L + 'In.cpp'] + ALLF,
     [('no state outside of trees and parsers but the registry of classes', L + 'Registration.cpp')],
     ['p22.cpp'],
     'Two to five threads run random operations against expected results that one thread has prepared, with random yields and delays; ThreadSanitizer watches, the order in which operations ended is recorded; a case is distinct by this order.',
     'ThreadSanitizer with result monitors on concurrent histories', 'held on the interleavings of this run under ThreadSanitizer (which sees races between accesses that were executed even if they did not collide); registering classes while other threads run is not claimed',
     ['operations', 'operations that overlapped', 'stored', 'restored', 'loaded', 'failed', 'taken over'], ['results of each thread', 'race reports'])
P[-1]['run'] = {'flavours': ['tsan'], 'parallel': 4, 'shards': 8}
prop('P23', 'A truncated document is never taken for a whole one',
     'Loading any document of which at least the last byte is missing is refused by an exception, in every format, from memory and from streams. '
     'Restoring an object from a document that lost its end either is refused or, if all that the object asks for was still there, gives an equal object: nothing is made up, left out or taken from what was there before.',
     ['crash_points', 'inputs'], 'all documents and all lengths at which they can be cut (interrupted writes, lost connections)',
     'The tests only read complete documents.',
     [I + 'In.h', L + 'In.cpp', L + 'Tree.cpp', L + 'Node.cpp'] + ALLF,
     [('checks of the remaining input', I + 'In.h'), ('end of scopes', L + 'Tree.cpp')],
     ['p23.cpp'],
     'Every prefix of short documents and many of long ones, by the library\'s and by independent writers, in exact-size heap blocks, streams and one-byte chunks; distinct by document.',
     'exhaustive truncation monitor under ASan+UBSan', SAN,
     ['cuts refused', 'objects refused', 'objects complete', 'cuts in blocks refused'], ['exceptions, restored objects'])
prop('P24', 'Exceptions of the user\'s code get through and nothing leaks',
     'An exception thrown by the user\'s code (constructors, srl_resolve, srl_store and srl_restore, allocation functions, visitors, functions of scopes, streams) at any point of any operation reaches the caller as it was thrown. '
     'Every object created on the way is destroyed exactly once or owned by the target, no memory is lost, and the same tree, parser and target then work as if nothing had happened. '
     'Functions, names, data and documents given to the library may be destroyed or overwritten as soon as the call has returned.',
     ['crash_points', 'histories'], 'all operations on all objects, and all points at which code of the user runs during them',
     'No test throws from user code.',
     [I + 'Resolve.hpp', I + 'ScopeWrap.h', I + 'Tree.hpp', L + 'Tree.cpp', L + 'Node.cpp', I + 'Registration.h', L + 'In.cpp', L + 'Out.cpp', L + 'Environment.cpp'],
     [('ownership while restoring', I + 'Resolve.hpp'), ('state kept during an operation', L + 'Tree.cpp'), ('functions of scopes', I + 'ScopeWrap.h')],
     ['p24.cpp', 'poly.cpp'],
     'Each operation runs once to count its points and then again with an exception at chosen points (all of them in the thorough tier); instance counters, allocation balance, comparison after a repetition; distinct by document.',
     'fault injection at every point of user code under ASan+UBSan+LSan', SAN + '; containers of raw pointers, which own nothing, are not used',
     ['points of operations', 'exceptions thrown', 'repeated', 'tree used again', 'operations', 'scopes by function'], ['exceptions, instance counts, allocation balance, results of the repetition'])
prop('P25', 'Floating point numbers and their texts are the same numbers',
     'Every finite floating point number is written as a text of at most 24 characters and 17 significant digits (whole numbers of 64 bits as all their digits), which every reader of JSON accepts and which denotes, rounded to the nearest, exactly this number and its sign. '
     'A decimal number of any length, read from a document or a string, becomes the floating point number nearest to it, ties to even, whatever the locale of the program. In every format a float or double comes back as it was.',
     ['inputs'], 'all finite values of both precisions, zeros and subnormal ones included, and all decimal texts',
     'The tests compare two or three small fractions.',
     [L + 'fpconv/fpconv.c', L + 'fpconv/powers.h', L + 'ToolsStrConv.cpp', I + 'Value.hpp', I + 'TpTools.h', L + 'PJson.cpp'],
     [('digit generation', L + 'fpconv/fpconv.c'), ('notation', L + 'fpconv/fpconv.c'), ('text to number', L + 'ToolsStrConv.cpp')],
     ['p25.cpp'],
     'Every exponent with mantissas of many shapes, singles in steps over the whole range, decimal fractions and their neighbours; exact decimal expansions of numbers and of the midpoints between neighbours from own big number arithmetic; distinct by value.',
     'exact-arithmetic round trip oracle under ASan+UBSan', SAN + '; the system\'s strtod is trusted for the text written; the C locale is assumed',
     ['numbers written', 'exponents', 'decimals', 'singles', 'midpoints', 'texts read', 'in documents'], ['text of numbers, numbers read'])
prop('P26', 'Binary data is stored as it is and restored into exactly the memory asked for',
     'Binary data (BitWrap, VecWrap of any scalar type, Bytes; as fields, in containers and in objects) of every size and content is stored as the bytes that were in its memory when it was handed over, whatever happens to that memory afterwards, and every reader of the format finds these bytes. '
     'Restoring asks the allocation function exactly once, for exactly the size, and writes exactly the data into the memory it returned and nothing around it; a VecWrap or Bytes then holds exactly the data. Base64 text in the place of binary data is decoded. '
     'Missing data, a missing allocation function, no memory, data that is no whole number of elements, text that is not base64, data and texts of more than 4 GiB and fields of other types are refused, and nothing is changed then.',
     ['inputs', 'programs'], 'all data, its sizes and the ways of holding and reading it, all formats',
     'The tests store four fixed blobs.',
     [I + 'BitWrap.h', I + 'Resolve.hpp', L + 'Environment.cpp', L + 'ToolsBtsConv.cpp'] + ALLF,
     [('insertion and restoring of binary data', I + 'Resolve.hpp'), ('wrappers', I + 'BitWrap.h'), ('storing of values', L + 'Environment.cpp')],
     ['p26.cpp'],
     'Objects with up to 16 pieces of data of sizes at the limits of the formats and buffers, all holders against all readers in any order; the source memory is overwritten after insertion; target memory has guards or ends exactly where the data ends; documents are judged by independent readers; distinct by document.',
     'exact-memory and reference-reader monitors under ASan+UBSan', SAN + '; VecWrap is used where it was created and its vector keeps its memory until it was inserted',
     ['data written', 'data restored', 'restored by BitWrap', 'restored by VecWrap', 'restored by Bytes', 'texts decoded', 'texts refused', 'refused'], ['requests for memory, memory around the data, restored data'])
prop('P27', 'Looking up a field of unknown type gives what is there, and conversions agree',
     'A field looked up by name (get, try_get, operator[], of a tree, a scope or another union) or position is the value or scope that is there, values before scopes of the same name; one that is not there is refused, or absent from try_get. '
     'Its conversions (unwrap, the conversion operator, copy_to, unwrap_if) succeed exactly if reading the value or scope itself does and give the same; unwrap_if and try_get never throw; an empty union refuses everything. '
     'Integers that fit, truth values, numbers and texts in every encoding are converted exactly, integers that do not fit are refused. A union restored from a document holds the complete field, whatever the order of the fields, and the fields around it are restored as well. Looking does not change the tree.',
     ['inputs', 'histories', 'programs'], 'all documents, all fields and orders of access, all requested types',
     'One test looks up eight fields of one built tree.',
     [I + 'Union.h', I + 'Union.hpp', L + 'Node.cpp', I + 'Node.hpp', I + 'Resolve.hpp', I + 'Value.hpp', I + 'TpTools.h', L + 'Tree.cpp'],
     [('unions', I + 'Union.hpp'), ('lookups', L + 'Node.cpp'), ('restoring of unions', I + 'Resolve.hpp')],
     ['p27.cpp'],
     'Random documents, built or read in every format; names in every encoding, present, absent and almost present; 24 requested types; unions between typed fields in random order, at several depths, from memory and streams; distinct by document.',
     'document-model and differential monitor under ASan+UBSan', SAN + '; a union is used only while its tree is not changed; with several fields of one name only parsed trees are looked at',
     ['lookups', 'lookups of nothing', 'nested lookups', 'positions', 'conversions', 'conversions refused', 'unions restored', 'fields between', 'empty'], ['lookups, conversions, outcomes'])
prop('P28', 'Running out of memory harms nothing',
     'If a request for memory fails at any point of any operation, once or from then on, the operation either still has its right result or throws. An edit of a tree or table that throws was made completely or not at all (of a scope that was to be inserted, a beginning may be there). No memory is corrupted, no object is lost or destroyed twice, '
     'and when there is memory again the same tree, parser and target, and tables, work as if nothing had happened.',
     ['crash_points', 'histories'], 'all operations on all objects, and all requests for memory made during them',
     'No test lets a request fail.',
     [L + 'Heap.cpp', I + 'Heap.h', I + 'Heap.hpp', I + 'Hash.hpp', L + 'Environment.cpp', L + 'Tree.cpp', L + 'Node.cpp', I + 'Resolve.hpp', L + 'In.cpp', L + 'Out.cpp'],
     [('arena', L + 'Heap.cpp'), ('tables', I + 'Hash.hpp'), ('state kept during an operation', L + 'Tree.cpp')],
     ['p28.cpp', 'poly.cpp'],
     'Each operation runs once to count its requests for memory and then again with a failure at chosen requests (of that one only or of all from there on), then once more undisturbed on the same tree, parser and target; distinct by document.',
     'allocation-failure injection under ASan+UBSan+LSan', SAN + '; only requests through operator new fail, not those inside of the C library',
     ['requests for memory', 'failures reported', 'repeated', 'tree used again', 'operations'], ['outcome, instance counts, allocation balance, results of the repetition'])
prop('P29', 'Cost grows in proportion to what is processed',
     'Reading, writing, storing, restoring, building, editing and looking through a document takes processor time and memory in proportion to its size, whatever it is made of (many names or one, many small fields or few huge ones, objects with their fields in another order, shared and polymorphic objects, numbers of any length) '
     'and whether it comes from memory or a stream; so do filling, querying and emptying tables. Loading, restoring, storing, packing and writing with one tree and parser hold no more memory the more often they are repeated, failing ones included; what edits used is free again once the tree is cleared.',
     ['inputs', 'histories'], 'all documents of all shapes and sizes, all operations on them; names and keys chosen to fall into the same buckets of hash tables aside',
     'The tests process documents of a few hundred bytes and measure nothing.',
     [L + 'Heap.cpp', I + 'Hash.hpp', L + 'Environment.cpp', L + 'Node.cpp', L + 'In.cpp', I + 'In.hpp', L + 'Out.cpp', I + 'Out.hpp', I + 'Resolve.hpp'] + ALLF,
     [('arena and its free segments', L + 'Heap.cpp'), ('growth of tables', I + 'Hash.hpp'), ('buffers of streams', I + 'In.hpp'), ('state cleared after an operation', I + 'Tree.hpp')],
     ['p29.cpp', 'poly.cpp'],
     'Documents of 16 shapes, JSON texts of 10 kinds and objects of 19 types and 30 histories of edits in two sizes a factor of 16 apart, all formats and operations; the processor time of the thread and the peak of live memory of both are compared (at most 8 times and 3 times more than in proportion, of three attempts); 14 operations repeated 420 (failing ones 1680) times. Distinct by kind of measurement.',
     'cost monitor (processor time, peak and retained memory at two sizes) under ASan+UBSan', SAN + '; growth up to 8 times more than in proportion between the two sizes is not seen',
     ['operations measured', 'bytes', 'objects restored', 'elements seen', 'repetitions', 'failures repeated'], ['processor time, live memory'])
prop('P30', 'Objects are created the way their class asks for',
     'Wherever the library has to make an object of a user\'s class (elements of containers, keys and values of maps and tables, what pointers of all kinds point to, registered classes, what `restore<T>`, `unwrap` and unions give back), it asks `Ctor` of that class for it: '
     'classes whose default constructor is private, or which have none but a routine of the user\'s own, work everywhere, and what is delivered is what that routine made, filled with the restored content. Every object made is delivered or destroyed, also if a routine throws, whose exception reaches the caller. Storing makes no objects.',
     ['inputs', 'programs', 'crash_points'], 'all objects of such classes in all places, all formats, from bytes, streams and trees, and a failure of each single creation',
     'One class with a routine of its own and one with a private constructor are restored once.',
     [I + 'Resolve.h', I + 'Resolve.hpp', I + 'Registration.h', I + 'Node.hpp', I + 'Tree.hpp', I + 'Union.hpp'],
     [('the point of customisation', I + 'Resolve.h'), ('its uses', I + 'Resolve.hpp'), ('registered classes', I + 'Registration.h')],
     ['p30.cpp'],
     'Random holders of classes with private, missing, user-defined and unused ways of creation in 22 places; each object carries the serial number its routine gave it and is counted as long as it lives; creations fail one by one. Distinct by document.',
     'provenance and lifetime monitor on every object under ASan+UBSan+LSan', SAN,
     ['objects', 'made as values', 'made on the heap', 'polymorphic ones made', 'not by the default constructor', 'routines which threw', 'objects asked for'], ['serial numbers, instance counts, outcome'])
P[-1]['run'] = {'ordinary': True}
