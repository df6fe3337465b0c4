#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is maintained here, one call per property)."""
import json
P=[];N=0;SLUG={}
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    global N
    N+=1; SLUG[id]='C%02d'%N
    P.append(dict(id='C%02d'%N,title=title,statement=statement,quantifier=dict(over=[over],text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]),**kw))
A='codecs/src/aper/'
D='codecs_derive/src/aper/'
C='asn-compiler/src/'

p('decode-total','Decoding untrusted bytes always returns, with Ok or Err',
 "Decoding any byte sequence, at any starting offset (inside the data or beyond it), as any supported type (every primitive decoder, every derived type, every generated 3GPP message) returns Ok or Err: it never panics, never overflows an arithmetic operation, never loops without consuming input, and never allocates memory out of proportion to the input.",
 'inputs','every byte string (valid, mutated, truncated, spliced, random) x every decoder with every bound/extensibility combination x every start offset',
 "A test decodes a handful of captured messages; the crashing length, offset or bit pattern is in the part of the input space nobody captured.",
 [A+'mod.rs',A+'decode/mod.rs',A+'decode/decode_internal.rs',A+'decode/decode_charstrings.rs',D+'seqof.rs',D+'open.rs'],
 [('bounds-checked reads',A+'mod.rs get_bitvec/get_bytes/decode_bits_as_integer/decode_align'),('length determinant',A+'decode/decode_internal.rs'),('SEQUENCE OF loop',D+'seqof.rs')])

p('primitive-roundtrip','Every encodable primitive value decodes back to itself',
 "For BOOLEAN, INTEGER, ENUMERATED, CHOICE index, SEQUENCE header, length determinant, BIT STRING, OCTET STRING, VisibleString, PrintableString and UTF8String, with any bounds and extensibility and at any bit offset in the buffer: every value the constraint permits, within the codec's documented limits (values of the extension root, fewer than 16384 items), is encoded, and decodes with the same parameters to an equal value.",
 'inputs','every value x every (lb, ub, extensible) x every bit alignment at which the encoding starts',
 "Bugs live at power-of-256 boundaries, at particular alignments, and in one range class out of six; the unit tests pin single values at offset 0.",
 [A+'encode/mod.rs',A+'encode/encode_internal.rs',A+'decode/mod.rs',A+'decode/decode_internal.rs',A+'decode/decode_charstrings.rs',A+'mod.rs'],
 [('encode_*',A+'encode/mod.rs'),('decode_*',A+'decode/mod.rs'),('sign extension and integer loads',A+'mod.rs decode_bits_as_integer')])

p('primitive-wire-x691','Primitive encodings are the X.691 ALIGNED PER encodings',
 "For every primitive type and every value the encoder accepts, the bits produced are exactly those ITU-T X.691 (ALIGNED variant) prescribes: field widths by range, minimal octets for semi-constrained and unconstrained integers, length determinants by bounds, octet alignment where and only where prescribed, zero padding; and the decoder reads that canonical encoding of every value, including values outside an extension root and strings of 16384 items and more, back to that value.",
 'inputs','every value x every (lb, ub, extensible) x every bit alignment, compared with an independent implementation of X.691',
 "Encoder and decoder can be wrong together (a round-trip test passes); interoperability is only lost for specific ranges, lengths or alignments.",
 [A+'encode/mod.rs',A+'encode/encode_internal.rs',A+'decode/mod.rs',A+'decode/decode_internal.rs',A+'decode/decode_charstrings.rs',A+'mod.rs'],
 [('constrained whole number',A+'encode/encode_internal.rs encode_constrained_whole_number'),('length determinant',A+'encode/mod.rs encode_length_determinent'),('alignment',A+'mod.rs align/decode_align')])

p('encode-refuses-out-of-constraint','Encoders refuse values outside their constraint',
 "Encoding a value that its type does not permit - an integer, enumeration or choice index outside [lb, ub], a bit, octet or character string or SEQUENCE OF whose length is outside its SIZE - or that the codec documents as unsupported (extended values, lengths of 16384 and more) returns Err; it is never silently truncated, wrapped or written as some other value.",
 'inputs','every value outside the constraint x every constraint, for primitive and derived types, alone and nested inside larger values',
 "Tests encode valid values; the wrap-around of one out-of-range value into another valid value needs the adversarial pair.",
 [A+'encode/mod.rs',A+'encode/encode_internal.rs',D+'seqof.rs',D+'integer.rs',D+'enumerated.rs'],
 [('bounds test',A+'encode/encode_internal.rs encode_constrained_whole_number'),('length bounds',A+'encode/mod.rs encode_length_determinent'),('error propagation',D+'seqof.rs, seq.rs, choice.rs, open.rs')])

p('decode-rejects-out-of-constraint','Decoders never return a value outside the constraint',
 "Whenever decoding bytes as a non-extended value succeeds, the value returned is inside the type's constraint: integers and enumerations within [lb, ub] (and representable in the Rust type without truncation), CHOICE indices and open-type keys among those declared, string and SEQUENCE OF lengths within SIZE; encodings of anything else are refused, and the value returned is the one X.691 assigns to the bits read.",
 'inputs','every byte string x every constraint',
 "Out-of-range bit patterns exist only when the range is not a power of two or the length is encoded generally; valid-message tests never contain them.",
 [A+'decode/mod.rs',A+'decode/decode_internal.rs',A+'decode/decode_charstrings.rs',D+'integer.rs',D+'enumerated.rs',D+'seqof.rs'],
 [('constrained decode',A+'decode/decode_internal.rs decode_constrained_whole_number'),('narrowing',D+'integer.rs, enumerated.rs')])

p('truncation-refused','Every proper prefix of an encoding is refused',
 "Decoding any encoding of a value, cut at any bit short of its end, returns Err: no decoder invents the missing bits or returns a shortened value.",
 'inputs','every value x every cut point of its encoding, for primitive, derived and 3GPP types',
 "The cut that matters (inside a length, inside padding, between a length and its content) is one bit position among thousands.",
 [A+'mod.rs',A+'decode/mod.rs',A+'decode/decode_internal.rs'],
 [('end-of-buffer tests',A+'mod.rs decode_bool/get_bitvec/get_bytes/advance_maybe_err/decode_align')])

p('codec-compositional','Encodings append, decodes consume exactly, and nothing else changes',
 "Encoding only appends to the buffer: bits already there are untouched, encoding never depends on them except for octet alignment, and it does not move the position decoding has reached in the same buffer. Decoding consumes exactly the bits the encoding occupies, so a concatenation of encodings decodes to the same sequence of values whatever follows it; encoding the same value again gives the same bits, and re-encoding a decoded value gives bits that decode to it again.",
 'histories','every sequence of encode calls over a shared buffer (with reserve and the other operations of the buffer between them) and the matching decode calls, in any order (seek), for any mix of types and values',
 "A one-bit over- or under-read is invisible in a test whose value is the last one in its buffer.",
 [A+'mod.rs',A+'encode/mod.rs',A+'decode/mod.rs'],
 [('append_bits/align/append_aligned',A+'mod.rs'),('advance_maybe_err, decode_offset',A+'mod.rs')])

p('sequence-derive','Derived SEQUENCE codec: extension bit, presence bitmap, fields in order',
 "A struct with the derived SEQUENCE codec encodes as the extension bit (iff extensible), one presence bit per OPTIONAL component, then exactly the present components in declaration order; decoding yields exactly the components whose presence bit was set, with the same values, for any number of components and any combination of presence.",
 'inputs','every SEQUENCE shape (components, optional positions, nesting, extensibility) x every presence combination x every component value',
 "2^n presence combinations and arbitrary shapes; swaps and off-by-one bitmap indices need two absent/present components that differ.",
 [D+'seq.rs','codecs_derive/src/attrs.rs',A+'encode/mod.rs',A+'decode/mod.rs'],
 [('field and bitmap token generation',D+'seq.rs'),('header',A+'encode/mod.rs encode_sequence_header')])

p('choice-derive','Derived CHOICE codec: the index selects the variant, both ways',
 "An enum with the derived CHOICE codec encodes root variant number k as the extension bit (iff extensible), the index k constrained to the number of root variants, then the variant's content; decoding returns that same variant with that content, and an index with no root variant, or an addition index, returns Err.",
 'inputs','every CHOICE shape (1..300 variants, extensible or not, nested) x every variant x every content',
 "Index width and alignment change with the number of variants (1, 2, 255, 256, 257...); tests exercise a few variants of a few types.",
 [D+'choice.rs',A+'encode/mod.rs',A+'decode/mod.rs'],
 [('variant dispatch',D+'choice.rs'),('index',A+'decode/mod.rs decode_choice_idx')])

p('sequence-of-derive','Derived SEQUENCE OF codec preserves count and order within SIZE',
 "A list with the derived SEQUENCE OF codec encodes the X.691 length determinant for its SIZE (extension bit when the SIZE is extensible) followed by every element in order, and decodes to the same elements in the same order, for every length the SIZE permits including zero; a length outside a non-extensible SIZE is refused on both sides.",
 'inputs','every SIZE (none, fixed, ranged, semi-constrained, extensible, >= 64K) x every permitted length x element types',
 "Zero elements, the maximum, and extensible sizes are corner lengths the captured messages do not contain.",
 [D+'seqof.rs',A+'encode/mod.rs',A+'decode/decode_internal.rs'],
 [('loop and length',D+'seqof.rs'),('length determinant',A+'decode/decode_internal.rs decode_length_determinent')])

p('open-type-derive','Open types: the key field selects the type, the length delimits it',
 "In a SEQUENCE with a key field, the open type that follows is decoded as the variant declared for that key's value and is encoded as the octet length of the padded content (at least one octet) followed by that content; an undeclared key is Err, decoding never reads content beyond the declared length and resumes right after it, and an inner key never affects the dispatch of an outer open type or the reverse.",
 'inputs','every key value x every set of declared keys x every content x every (also lying) length, nested to any depth',
 "Dispatch and delimiting bugs show only with nested containers, unknown keys, or lengths that disagree with the content.",
 [D+'open.rs',D+'seq.rs',A+'mod.rs'],
 [('key propagation',A+'mod.rs set_key/get_key'),('dispatch and length',D+'open.rs')])

p('unknown-extensions','Content from a newer version is skipped or refused, never misread',
 "When a peer's encoding uses extensions this version does not know - SEQUENCE extension additions, CHOICE additions, extended ENUMERATED, INTEGER or SIZE values - decoding skips unknown SEQUENCE extension additions, returning exactly the root values sent and leaving what follows correctly positioned; the other extensions it either skips in the same way or refuses with Err; it never returns a different root value, and never reads extension bytes as the following data.",
 'inputs','every extensible type x every set of unknown additions (number, presence, size) x whatever data follows',
 "No test has a peer with a newer specification; messages with additions decode to plausible but wrong data.",
 [D+'seq.rs',D+'choice.rs',D+'enumerated.rs',D+'integer.rs',A+'decode/mod.rs'],
 [('extension bit handling',A+'decode/mod.rs decode_sequence_header/decode_enumerated/decode_choice_idx'),('derive use of the extended flag',D+'seq.rs, enumerated.rs, integer.rs')])

p('threegpp-messages','NGAP, S1AP, RANAP and RRC messages survive and match X.691',
 "For the specifications shipped with the project (the specs directory), compiling them and building the result gives types for which every message value within its constraints encodes to exactly the X.691 ALIGNED PER encoding of that value under the specification, and decodes back to an equal value.",
 'inputs','every message type of the shipped specifications x every combination of protocol IEs, optional fields, choices and bounded values',
 "The examples decode about two dozen captured messages; the specifications define thousands of types.",
 ['specs','asn-compiler/src','codecs_derive/src','codecs/src'],
 [('compiler output',C+'compiler.rs generate'),('derived codecs','codecs_derive/src/lib.rs')])

p('memory-safety','Codecs and compiler run free of undefined behaviour',
 "No input - hostile bytes to any decoder, any value to any encoder, any specification text to the compiler - causes undefined behaviour, an out-of-bounds or uninitialised read, a leak or a data race, in the project's code or in what it asks of its dependencies; independent codec buffers can be used from several threads with the same results as from one.",
 'schedules','every input and every interleaving of threads that each own their buffer',
 "Undefined behaviour can pass every assertion; only an interpreter or a sanitizer that watches each access sees it.",
 [A+'mod.rs',A+'decode/mod.rs',A+'encode/mod.rs','asn-compiler/src'],
 [('bit-slice views, force_align, raw integer loads',A+'mod.rs')])

p('compiler-total','The compiler front-end terminates cleanly on any text',
 "For any input file contents (valid, mutated, truncated or arbitrary bytes, empty included), tokenizing, parsing, resolving and generating either succeed or return an error: they never panic, never loop without progress and never consume memory out of proportion to the input and what it expands to.",
 'inputs','every byte string, in particular every truncation, token deletion, duplication and splice of real and generated modules',
 "The tests parse snippets that are well formed or wrong in one foreseen way.",
 [C+'tokenizer/mod.rs',C+'parser',C+'resolver',C+'generator',C+'compiler.rs'],
 [('tokenize',C+'tokenizer/mod.rs'),('parse_* progress',C+'parser/asn'),('unwrap/index in resolution',C+'resolver/asn')])

p('compiler-structure','Every type of a specification is generated once, with its exact structure',
 "For a specification the compiler accepts, the output contains exactly one Rust type per ASN.1 type assignment (of any imported or importing module) with the same shape: components and alternatives in declaration order with the right types, OPTIONAL and DEFAULT components (and only those) optional, with consecutive presence bits, extensibility as written, root alternatives keyed 0..n-1 in the canonical order of their tags and additions marked extended, references resolving to the type they name.",
 'inputs','every specification built from the supported notation: any number and nesting of types, fields, markers, modules and imports',
 "The generated code embedded in the tests is a fixed snapshot, so a change to the compiler is not even exercised by it.",
 [C+'parser/asn/types',C+'resolver/asn/types/constructed.rs',C+'generator/asn/types'],
 [('component resolution',C+'resolver/asn/types/constructed.rs'),('code generation',C+'generator/asn/types/constructed')])

p('compiler-constraints','PER-visible constraints reach the generated bounds exactly',
 "The value bounds, size bounds and extensibility of every generated type equal the effective PER-visible constraint of the ASN.1 type: single values, ranges with MIN/MAX and exclusive ends, unions, intersections, named values and numbers, size constraints on strings and SEQUENCE OF, with and without extension markers, on the type itself, on a reference to it, and through parameters; a constraint the compiler does not support is an error, never dropped or altered.",
 'inputs','every constraint expression over any integers, on every constrainable type, in every position (top level, component, element, parameterised)',
 "A wrong bound still compiles and round-trips with itself; it only breaks interoperability or rejects one valid value.",
 [C+'parser/asn/types/constraints.rs',C+'resolver/asn/types/constraints.rs',C+'resolver/asn/structs/types/constraints.rs',C+'generator/asn/types/constraints.rs'],
 [('value-set algebra',C+'resolver/asn/types/constraints.rs'),('min/max',C+'resolver/asn/structs/types/constraints.rs')])

p('compiler-representation','Generated integer types can hold every value the constraint permits',
 "The Rust integer type chosen for an INTEGER holds every value of its constraint (signed iff a permitted value is negative or unbounded below, wide enough for both ends), 64 bits where the constraint leaves a side unbounded), and a constraint no supported Rust integer can hold is refused; no value is truncated between the wire and the program: one the Rust type cannot hold is refused when decoded.",
 'inputs','every (lb, ub) pair including the boundaries of i8..i64 and u8..u64, extensible or not',
 "Only bounds within one of a power of two misclassify.",
 [C+'resolver/asn/structs/types/base.rs',C+'resolver/asn/types/base',C+'generator/int.rs'],
 [('width selection',C+'resolver/asn/structs/types/base.rs'),('to_inner_type',C+'generator/int.rs')])

p('compiler-enumerated','ENUMERATED items get their X.691 index and their own constant',
 "For every ENUMERATED type the generated bounds are 0..number of root items - 1, the generated type has one constant per root item, and each constant's value is the index X.691 assigns (root items in increasing order of their enumeration values, whether implicit or explicit).",
 'inputs','every ENUMERATED: any number of items, implicit, explicit or mixed numbers, extension markers and additions',
 "Implicit-number enumerations hide any index/number confusion.",
 [C+'parser/asn/types/base/enumerated.rs',C+'resolver/asn/types/base',C+'generator/asn/types/base/enumerated.rs'],
 [('numbering',C+'resolver/asn/types/base/enumerated.rs'),('constants',C+'generator/asn/types/base/enumerated.rs')])

p('compiler-determinism','Output depends only on what the specification means',
 "Compiling the same modules gives byte-identical output on every run, and the same set of generated types and attributes whatever the order of the files, of the modules in a file, of the assignments in a module, the layout (spaces, tabs, newlines, CRLF) and the comments (to the end of the line or closed within it).",
 'schedules','every hash-map iteration order (every process run) x every permutation of files, modules and assignments x every layout and commenting of the same token sequence',
 "Hash iteration order differs per process: one run cannot show dependence on it.",
 [C+'compiler.rs',C+'resolver/int.rs',C+'tokenizer/mod.rs',C+'parser/asn/structs/module.rs'],
 [('topological sorts over hash maps',C+'compiler.rs sorted_modules; parser/asn/structs/module.rs definitions_sorted'),('comments and whitespace',C+'tokenizer/mod.rs')])

p('compiler-object-sets','Information object sets become open types with every key and type',
 "For a SEQUENCE whose components are class fields constrained by an object set, the generated struct has the class's fixed-type fields, the unconstrained reference field marked as key, and for each type field an OPEN enum with exactly one variant per object of the set that defines that field, whose key is the object's identifier value and whose type is the object's type - through nested sets, objects given by reference or inline, optional type fields and extension markers.",
 'inputs','every class, object and object-set definition in the supported notation',
 "A lost or mis-keyed object is one IE among hundreds; only a message carrying it would fail.",
 [C+'parser/asn/types/ioc.rs',C+'resolver/asn/types/ioc.rs',C+'resolver/asn/types/constructed.rs'],
 [('lookup table',C+'resolver/asn/types/ioc.rs resolve_object_set'),('field to variant mapping',C+'resolver/asn/types/constructed.rs')])

p('compiler-parameterization','Parameterised types instantiate with the actual parameters',
 "Each use of a parameterised type denotes the type obtained by substituting that use's actual types, values and object sets for the dummy parameters, wherever they occur in the body; different instantiations in one specification never influence each other.",
 'inputs','every parameterised definition and every list of actual parameters (types, values, object sets), nested instantiation included',
 "Cross-talk between instantiations needs at least two that differ, used in one specification.",
 [C+'parser/asn/structs/defs.rs',C+'parser/asn/defs.rs',C+'resolver/asn/types/int.rs'],
 [('apply_params',C+'parser/asn/structs/defs.rs')])

p('compiler-refusal','Ill-formed specifications are refused, and produce no code',
 "A specification that breaks a rule the generated code depends on - a syntax error, an undefined type, value, class, object or module, a definition that depends on itself without indirection, or a wrong kind of symbol - makes hampi-asn1c exit with a failure status and print no generated code; a definition is never silently dropped, and a well-formed specification in the supported subset is never refused.",
 'inputs','every way of breaking a well-formed specification by one of these faults, at any place in it',
 "Tests check that good input passes; a definition that silently vanishes leaves a compilable output.",
 [C+'compiler.rs',C+'bin/hampi-asn1c.rs',C+'resolver',C+'parser'],
 [('import resolution',C+'compiler.rs resolve_imports'),('unresolved references',C+'resolver/asn/types/int.rs'),('exit status',C+'bin/hampi-asn1c.rs')])

p('end-to-end-wire','Accepted specifications build and speak the wire format they specify',
 "For any specification in the supported subset that the compiler accepts, the generated code compiles with rustc against the codec crates, and for every value of every generated type the encoding it produces is the X.691 ALIGNED PER encoding prescribed by the specification text itself, and decodes back to the value.",
 'inputs','every specification in the supported subset x every value of every type it defines',
 "Compiler, derive macro and codec are tested separately; an attribute one writes and another ignores falls between them.",
 ['asn-compiler/src','codecs_derive/src','codecs/src'],
 [('generator attributes',C+'generator/asn/types'),('attribute parsing','codecs_derive/src/attrs.rs'),('codec calls','codecs_derive/src/aper')])

p('compiler-exit-status','Exit status 0 means complete code was printed',
 "hampi-asn1c exits with status 0 only after the complete generated code is on its standard output. When an input file cannot be read, the same module is given twice, the formatter (rustfmt) is missing, fails or is killed at any moment, or the standard output cannot be written, it exits with a failure status, and no partial code is printed.",
 'fault_sequences','every moment at which rustfmt, an input file or the standard output can fail, for any specification',
 "The tests call the library; no test runs the program while something outside it fails.",
 [C+'bin/hampi-asn1c.rs',C+'compiler.rs'],
 [('rustfmt pipe',C+'compiler.rs'),('exit status',C+'bin/hampi-asn1c.rs')])

p('spec-extraction','parse_spec.py extracts exactly the ASN.1 of a specification',
 "specs/parse_spec.py SPEC -o OUT writes to OUT every paragraph of the document from each paragraph that is exactly `-- ASN1START` to the next one that is exactly `-- ASN1STOP`, both included, unchanged, each on a line of its own, in the order of the document, in UTF-8 whatever the locale, and nothing else of the document (a START inside such a part changes nothing, a STOP outside is ignored, a last part without STOP goes on to the end). What it writes before that is only ASN.1 comments, whatever the names of the files, and an older content of OUT is gone: a specification put into a document and extracted compiles to the same code. With fewer arguments, a document that cannot be read or an output that cannot be written, the exit status is not 0.",
 'inputs','every document x every name of its file x every locale',
 "No test runs the script.",
 ['specs/parse_spec.py'],
 [('extraction','specs/parse_spec.py')])

import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
