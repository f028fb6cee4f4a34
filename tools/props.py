"""source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = 'The tests sample '
P = []


def prop(id, title, statement, over, text, why, files, state, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/aaf2/' + f for f in files],
                               state=[dict(name=a, meaning=b, where='src/aaf2/' + c) for a, b, c in state],
                               mechanism=[dict(name=a, where='src/aaf2/' + b) for a, b in mech])))


prop('P01', 'A stream is a growable byte array with a cursor',
     'For every sequence of reads, writes, seeks and truncations, a stream inside the container behaves exactly like a '
     'byte array with a cursor: a read returns precisely the bytes last written at those offsets (short only at the end), a '
     'write replaces exactly those bytes and extends the stream when needed, and seeking past the end on a writable stream extends it with zero bytes. '
     'This holds across every sector boundary, for streams of any size in either storage area and when a stream moves '
     'between the two areas as it grows or shrinks past 4096 bytes, and no operation on one stream changes the '
     'contents of another (bytes exposed by growing a stream with truncate() are unspecified).',
     ['inputs', 'histories', 'configurations'],
     'every operation sequence on any number of streams, every offset, length and data, 512 and 4096 byte sectors',
     'tests write a few random blobs; offsets straddling sectors, the 4096 cutoff crossed in both directions, and interleaved streams are combinatorial.',
     ['cfb.py'], [('Stream.pos', 'cursor', 'cfb.py:Stream'), ('Stream.fat_chain', 'sectors of the stream in order', 'cfb.py:Stream'),
                  ('DirEntry.byte_size', 'length of the stream', 'cfb.py:DirEntry')],
     [('Stream.read/readinto/write/seek/truncate', 'cfb.py:Stream'), ('sector_cache', 'cfb.py:CompoundFileBinary.read_sector_data')])

prop('P02', 'Every sector and mini sector has at most one owner',
     'After any history of creating, writing, truncating, removing and reopening, every allocated sector belongs to exactly one chain '
     '(one stream, the directory, the allocation tables or the mini stream) and every allocated mini sector to exactly one small stream; '
     'free sectors are never part of a chain and an allocation never returns a sector in use, twice, or the '
     'reserved range-lock sector (524286 with 4096 byte sectors). '
     'Each stream owns exactly the number of sectors its size requires.',
     ['histories', 'inputs', 'configurations'],
     'all operation histories, all table sizes, both sector sizes',
     'tests only look at the content of files they wrote; a doubly owned sector shows only after a particular free/allocate order.',
     ['cfb.py'], [('fat', 'next-sector table', 'cfb.py:CompoundFileBinary'), ('fat_freelist', 'free sectors', 'cfb.py:CompoundFileBinary'),
                  ('minifat / minifat_freelist', 'the same for mini sectors', 'cfb.py:CompoundFileBinary')],
     [('next_free_sect', 'cfb.py'), ('fat_chain_append', 'cfb.py'), ('free_fat_chain', 'cfb.py'), ('next_free_minifat_sect', 'cfb.py')])

prop('P03', 'A closed container file reads back exactly and is well formed',
     'After close, reopening the file yields the same tree of storages and streams with the same names, class ids and '
     'contents, also after any number of further read/write sessions on it. '
     'The bytes on disk are a well formed compound file that an independent reader following only '
     'the published format can walk: header counts, allocation tables (including tables beyond the 109 header slots), chains and directory all agree.',
     ['histories', 'inputs', 'configurations'],
     'all trees, contents, numbers of sessions and file sizes, both sector sizes',
     'the tests read files back with the same library, and never create files whose tables overflow the header.',
     ['cfb.py'], [('difat', 'location of the allocation table sectors', 'cfb.py'), ('modified', 'directory entries not yet on disk', 'cfb.py')],
     [('close / write_header / write_difat / write_fat / write_minifat / write_dir_entries', 'cfb.py'), ('read_header / read_fat / read_minifat', 'cfb.py')])

prop('P04', 'The storage tree is a namespace and its siblings a search tree',
     'After any sequence of create, remove, move and recursive removal, exactly the paths a hierarchical file system model predicts exist, each '
     'entry reports its own path and type, listing and walking visit each entry once, and an operation the model forbids '
     '(existing target, missing parent, non-empty storage, moving below itself) raises and changes nothing. '
     'The siblings of every storage always form a binary search tree in the container format order '
     '(shorter names first, then case-insensitively), so that other readers find every entry (names distinct ignoring case, non-empty, at most 31 UTF-16 units), '
     'and its colors make it a red-black tree: the top is black, no red entry is below a red one, every path has equally many black entries.',
     ['histories', 'inputs'],
     'all operation sequences, all legal names, any number of siblings, with entries cached or re-read from disk',
     'tree rebalancing depends on the exact insertion/removal order; tests try a few random orders and check only listing.',
     ['cfb.py'], [('left_id/right_id/child_id', 'sibling tree links', 'cfb.py:DirEntry'), ('children_cache, dir_cache', 'cached entries', 'cfb.py')],
     [('DirEntry.insert/pop', 'cfb.py'), ('jsw_single, jsw_double', 'cfb.py'), ('create_dir_entry/remove/rmtree/move', 'cfb.py')])

prop('P05', 'Directory records encode every field independently and losslessly',
     'Each field of a directory record (name, type, color, sibling and child links, class id, flags, creation and modification times, first sector, size) '
     'reads back exactly what was last stored in it, is kept at its place in the 128 byte on-disk layout, and storing one '
     'field never changes another field. A missing link, sector or class id is stored as the format null value and read back as missing.',
     ['inputs', 'histories'],
     'all field values, all previous record contents, every order of stores',
     'tests never set most fields and never compare the layout with the specification.',
     ['cfb.py'], [('DirEntry.data', 'the 128 byte record', 'cfb.py:DirEntry')],
     [('DirEntry properties', 'cfb.py:DirEntry'), ('encode_sid/decode_sid', 'cfb.py'), ('utf-16 name handling', 'utils.py')])

prop('P06', 'Sector chains are followed exactly, and corrupt tables never hang',
     'Following a chain from a start sector returns exactly the sectors the allocation table links, in order, up to the end mark, for chains of any length. '
     'On every table whose chain never ends or leaves the table, the walk raises an error: '
     'it never returns a made-up chain and never runs forever.',
     ['inputs'],
     'all table contents, all start sectors, both the main and the mini table',
     'tests only meet valid chains; corruption can be any cycle shape at any depth.',
     ['cfb.py'], [('fat / minifat', 'next-sector tables', 'cfb.py')], [('get_fat_chain', 'cfb.py')])

prop('P07', 'The least-recently-used cache returns the last stored value',
     'A lookup in the cache returns the value last stored under that key or reports it absent, never another value. '
     'Storing a new key evicts only when the cache is full (one entry more than the requested size), and then only the least recently '
     'used key; deleting a key removes exactly that key. Reading or storing a value counts as use of its key, a membership test does not.',
     ['histories'],
     'all sequences of store, lookup, delete and membership test, all capacities',
     'no test looks at the cache; a wrong link shows only after a specific sequence at capacity.',
     ['cache.py'], [('head, node links', 'recency ring', 'cache.py:LRUCacheDict'), ('data', 'key to node', 'cache.py:LRUCacheDict')],
     [('make_first, __setitem__, get, __delitem__', 'cache.py:LRUCacheDict')])

prop('P08', 'All AUID representations are mutually consistent and lossless',
     'An AUID built from text (with or without dashes, braces or urn prefix), integer, 16 stored bytes, big-endian bytes or UUID is one 128-bit value: every view (little-endian '
     'bytes, big-endian bytes, integer, hex, fields, text) describes that same value and building an AUID from any '
     'view gives an equal AUID. Equality, hashing and ordering agree with the 128-bit value.',
     ['inputs'], 'all 2^128 values and pairs, every constructor form',
     'tests use a handful of ids; byte-order mistakes cancel on symmetric values.',
     ['auid.py'], [('bytes_le', 'stored bytes', 'auid.py:AUID')], [('AUID.__init__ and properties', 'auid.py')])

prop('P09', 'All MobID representations are mutually consistent and lossless',
     'A MobID built from its 32 stored bytes, its integer, its urn text or its dictionary form is one 256-bit value: every view describes the same value and '
     'building from any view gives an equal MobID, and the text form follows the SMPTE UMID layout. '
     'Setting one field (label, length, instance number, material id or its parts) changes exactly the bytes of that field.',
     ['inputs'], 'all 2^256 values, every constructor form and field',
     'tests use randomly generated standard ids; unusual labels and byte orders are never tried.',
     ['mobid.py'], [('bytes_le', 'stored bytes', 'mobid.py:MobID')], [('MobID properties, urn setter', 'mobid.py')])

prop('P10', 'Rationals are kept exactly; floats become a usable 32-bit pair',
     'Rational values given as integers, pairs, decimals or text whose numerator and denominator fit in signed 32 bits '
     'are stored as exactly that pair, unreduced, and read back the same. A float that equals such a pair is kept exactly; every other '
     'finite float keeps its sign, gets a positive denominator, fits in 32 bits and is off by no more than the resolution '
     '32-bit pairs have at its size (values beyond the range saturate).',
     ['inputs'], 'all 32-bit pairs, all text forms, all finite floats',
     'tests try a few frame rates; extremes of the 32-bit range are never reached.',
     ['rational.py', 'types.py'], [('numerator/denominator', 'stored pair', 'rational.py')], [('AAFRational.__new__', 'rational.py'), ('TypeDefRecord encode/decode', 'types.py')])

prop('P11', 'Typed property values survive encoding and decoding',
     'For every built-in value type (integers of each size and sign, booleans, text, enumerations, '
     'fixed and variable arrays, sets, records, rationals, dates and times in whole seconds, ids, indirect values) decoding the '
     'encoding of a legal value gives that value back. The encoded bytes follow the little-endian AAF layout and have exactly the length the type prescribes, '
     'and a value outside an integer type is refused.',
     ['inputs'], 'all types in the model, all legal values, all array lengths',
     'tests store a few values per type; negative numbers, empty and maximal arrays and unusual records are not covered.',
     ['types.py', 'utils.py'], [('encoded bytes', 'on-disk value', 'types.py')], [('TypeDef*.encode/decode', 'types.py'), ('read_/write_ helpers', 'utils.py')])

prop('P12', 'Object properties persist exactly across save and reopen',
     'Every property value set on an object of an open file (up to 65535 bytes each) is read back equal after the file is closed and '
     'reopened, whatever other properties were set, replaced or deleted before, in this or in later '
     'read/write sessions. Deleted properties stay deleted, values never move to another property, and untouched objects keep theirs.',
     ['histories', 'inputs'], 'all histories of sets and deletes over any objects and sessions',
     'tests do one save per feature; multi-session edits of existing objects are rarely exercised.',
     ['core.py', 'properties.py', 'file.py'], [('property_entries', 'properties of one object', 'core.py'), ('manager.modified', 'objects to be written', 'file.py')],
     [('AAFObject.read_properties/write_properties', 'core.py'), ('AAFObjectManager', 'file.py')])

prop('P13', 'Owned-object collections behave like lists and keyed sets',
     'A vector of owned objects behaves like a Python list and a set of owned objects like a dictionary keyed by '
     'the object id, under every sequence of append, extend, insert, replace, pop, clear and assignment, '
     'on attached and detached owners, and both read back the same after save and reopen. '
     'An object already owned elsewhere or created in another file is refused and nothing changes.',
     ['histories', 'inputs'], 'all operation sequences, attached or not, across sessions',
     'tests append and read back; index arithmetic after mixed inserts and pops is not sampled.',
     ['properties.py'], [('references', 'local keys in order', 'properties.py:StrongRefVectorProperty'), ('objects', 'cached members', 'properties.py')],
     [('StrongRefVectorProperty', 'properties.py'), ('StrongRefSetProperty', 'properties.py')])

prop('P14', 'References to shared objects resolve to exactly their target',
     'A non-owning reference, or each member of a collection of them, always resolves to the very object with the stored '
     'id in the target collection, before and after save and reopen, in any order of creation, and for any number of '
     'references from any number of places. Members keep their order in reference vectors.',
     ['histories', 'inputs'], 'all graphs of references over all definition kinds, across sessions and copies between files',
     'tests resolve a few data definitions; many distinct reference paths in one file are not exercised.',
     ['properties.py', 'file.py'], [('weakref_table', 'paths of reference targets', 'file.py'), ('references', 'stored target ids', 'properties.py')],
     [('WeakRef*Property', 'properties.py'), ('weakref_index, resovle_weakref', 'file.py')])

prop('P15', 'Generated storage names and property ids never collide',
     'The storage name generated for a property is always legal (at most 31 UTF-16 units, none of the forbidden characters), deterministic, and different '
     'for different properties of one object, and names of distinct collection members differ. '
     'Property ids assigned to newly registered properties are never already in use and stay the same after reopening.',
     ['inputs', 'histories'], 'all property names of any length, all ids, all registration orders',
     'the names in the tests are short; truncation collisions need long names with common prefixes.',
     ['utils.py', 'metadict.py', 'properties.py'], [('local_pids', 'assigned ids', 'metadict.py')],
     [('mangle_name', 'utils.py'), ('next_free_pid / register', 'metadict.py')])

prop('P16', 'Definitions survive save, reopen and copying between files',
     'Class, property and type definitions registered in a file are found again, with the same ids, names, parents, '
     'members and element values, after save and reopen, and existing definitions are unaffected by registering new ones. '
     'Copying an object within a file or into another file brings every property value, owned object, reference and needed definition along unchanged, leaving the source as it was.',
     ['histories', 'inputs'], 'all registrations of extension classes and types of every kind, all object graphs copied',
     'tests register one extension per kind and copy simple mobs.',
     ['metadict.py', 'types.py', 'core.py', 'dictionary.py'], [('classdefs_by_auid, typedefs_by_auid', 'registered definitions', 'metadict.py')],
     [('MetaDictionary.register_*', 'metadict.py'), ('copy methods', 'core.py')])

prop('P17', 'New slots always get an unused slot id',
     'Creating a slot on a mob always assigns an id that no slot of that mob already uses, whatever ids the existing slots have, '
     'however they are ordered and however often slots are added or removed. '
     'All previous slots stay in place with their ids, and looking up a slot by id finds exactly that slot.',
     ['inputs', 'histories'], 'all sets of existing slot ids, every creation method',
     'tests create slots from scratch, where ids are consecutive.',
     ['mobs.py', 'mobslots.py'], [('slots', 'slots of the mob', 'mobs.py')], [('create_timeline_slot, slot_at', 'mobs.py'), ('create_*_slot', 'mobs.py')])

prop('P18', 'Sequence positions and lengths add up',
     'The position of each component of a sequence is the sum of the lengths of everything before it, counting a '
     'transition as an overlap (negative length), and the length of a slot is the extent of its timeline, for sequences of any size in which every transition stands between two other components and is no longer '
     'than its neighbours. The component found at a time is the one whose interval contains that time, at both ends of every interval.',
     ['inputs'], 'all component kinds, lengths, transition placements and query times',
     'tests use one or two short sequences; cut points and overlaps are off-by-one territory.',
     ['components.py', 'mobslots.py'], [('components', 'parts of the sequence', 'components.py')],
     [('Sequence.positions, index_at_time, component_at_time', 'components.py'), ('TimelineMobSlot.length', 'mobslots.py')])

prop('P19', 'Keyframes stay sorted and interpolation passes through them',
     'Keyframes added in any order are kept in increasing time order, each time at most once with the last value given, and '
     'the value of the curve at a keyframe time is the value of that keyframe. '
     'Between two keyframes constant interpolation holds the earlier value and linear interpolation lies on the straight line; '
     'before the first and after the last keyframe the curve keeps the end value.',
     ['inputs', 'histories'], 'all keyframe sets and insertion orders, all query times',
     'tests evaluate some curves; insertion order and boundary times are not varied.',
     ['misc.py', 'interpolation.py'], [('PointList', 'keyframes in order', 'misc.py')], [('VaryingValue.add_keyframe, nearest_index, value_at', 'misc.py')])

prop('P20', 'Imported essence is stored and exported without change',
     'Importing raw audio (WAVE) or video (DNxHD/DNxHR) files stores every sample or frame unchanged and in order, with '
     'recorded length, sample rate, channel count and frame sizes matching the source, '
     'whatever the file length (a video stream of at least one frame). A video stream split into frames reassembles to the same bytes with every frame having its header-defined size.',
     ['inputs'], 'all lengths, rates, sample widths and channel counts; all frame profiles and frame counts',
     'tests import a few generated clips (many need ffmpeg).',
     ['essence.py', 'mobs.py', 'video.py', 'audio.py'], [('essence stream', 'imported bytes', 'essence.py')],
     [('iter_dnx_stream, read_dnx_header', 'video.py'), ('import_audio_essence, import_dnxhd_essence', 'mobs.py'), ('export_audio', 'mobs.py')])

prop('P21', 'MXF key-length-value parsing covers the file exactly',
     'Walking an MXF file yields every key-length-value packet in order with the true offset, key and length for '
     'every legal length encoding (short form and long forms up to 8 bytes), and stops exactly at the end of the file. '
     'Values decoded from the metadata packets equal the big-endian values stored there, every set of the header metadata is decoded, and '
     'linking an MXF file into an AAF file makes mobs carrying those values.',
     ['inputs'], 'all packet sequences, lengths and length encodings',
     'tests need real MXF samples produced by ffmpeg; long-form lengths are not varied.',
     ['mxf.py'], [('file offset', 'walk position', 'mxf.py')], [('ber_length, iter_kl', 'mxf.py'), ('iter_mxf_tags', 'mxf.py')])

prop('P22', 'Dependent mobs are enumerated once, after what they depend on',
     'Enumerating the mobs a mob depends on yields exactly the mobs reachable through its references, each once, '
     'and a mob never appears before the mobs it references in turn, for every reference graph without cycles. On graphs with cycles or with '
     'references to missing mobs the enumeration still ends.',
     ['inputs'], 'all reference graphs, including shared targets and cycles',
     'tests build one small chain.',
     ['mobs.py', 'components.py'], [('mob_id references', 'edges', 'components.py')], [('dependant_mobs', 'mobs.py'), ('SourceReference.mob', 'components.py')])

prop('P23', 'Creating an object by class name makes exactly that class',
     'Creating an object through the factory always gives a new object of exactly the named class, belonging to that file and initialised with '
     'exactly the given arguments, however creations are nested, stored for later or interleaved. '
     'Names of unknown or abstract classes are refused, and a class without a helper still gives an object with that class id.',
     ['histories', 'inputs'], 'all class names and all interleavings of creations, nested in arguments or through stored factories',
     'tests create objects one after another; nested creations are not sampled.',
     ['file.py', 'metadict.py'], [('create', 'factory', 'file.py')], [('AAFFactory', 'file.py'), ('lookup_class, lookup_classdef', 'metadict.py')])

TECH = 'contract-based deductive verification: VCs generated from the real functions by symbolic execution with loop invariants, discharged by z3/cvc5'
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in P:
    n = NOTES.get(p['id'])
    if n and n.get('claim', True):
        checks.append(dict(property=p['id'], quick_cmd='python3-vt /verif/check.py %s' % p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3-vt /verif/check.py %s' % p['id'],
                           technique=n.get('technique', TECH), level=n.get('level', 'proof'), level_note=n['note']))
    else:
        na.append(dict(property=p['id'], reason=(n or {}).get('reason', 'check under construction')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(checks), 'claimed', len(na), 'not')
