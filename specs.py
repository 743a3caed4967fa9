"""What each check runs: harness, /repo sources, entry functions and their arguments (bounds) per tier."""
R = 'src/maidsafe/common/'
SPECS = {}


def E(name, quick, thorough=None, expect=(), **kw):
    d = dict(name=name, quick=list(quick), thorough=list(thorough) if thorough is not None else None, expect=list(expect))
    d.update(kw)
    return d


ERR = [R + 'error.cc', R + 'error_categories.cc']

SPECS['C01'] = dict(
    harness='hex.cc', sources=[R + 'encode.cc'] + ERR,
    bounds='round trip: every string / byte vector of 0..32 bytes; arbitrary decoder input: every text of 0..9 characters',
    bounds_thorough='round trip up to 128 bytes; arbitrary decoder text up to 13 characters',
    entries=[
        E('hex_roundtrip_string', range(0, 33), list(range(0, 129)), ['roundtrip']),
        E('hex_roundtrip_bytes', range(0, 33), list(range(0, 129)), ['roundtrip']),
        E('hex_decode_any', range(0, 10), range(0, 14), ['odd', 'valid', 'invalid']),
    ])

SPECS['C02'] = dict(
    harness='base64.cc', sources=[R + 'encode.cc'] + ERR,
    bounds='encoding: every input of 0..24 bytes; round trip: every input of 0..3 bytes; decoding: every text of 0..5 characters, texts of 8 and 12 characters with any two adjacent characters arbitrary and the rest any of A-Z',
    bounds_thorough='encoding to 64 bytes, round trip to 4 bytes, windows in texts of up to 20 characters',
    entries=[
        E('b64_encode_string', range(0, 25), range(0, 65), ['encoded']),
        E('b64_encode_bytes', range(0, 25), range(0, 65), ['encoded']),
        E('b64_roundtrip', range(0, 4), range(0, 5), ['roundtrip'], cost=100),
        E('b64_decode_any', range(0, 6), range(0, 8), ['badlen', 'accepted', 'rejected'], cost=100),
        E('b64_decode_window', [8, 12], [8, 12, 16, 20], ['accepted', 'rejected'], cost=50),
    ])

SPECS['C03'] = dict(
    harness='bounded.cc', sources=[R + 'encode.cc'] + ERR,
    bounds='every input of 0..20 bytes, as string and byte vector, plain and bounded',
    bounds_thorough='every input of 0..64 bytes',
    entries=[E('substr_string', range(0, 21), range(0, 65), ['long', 'short']), E('substr_bytes', range(0, 21), range(0, 65))])
SPECS['C04'] = dict(
    harness='bounded.cc', sources=[R + 'encode.cc'] + ERR,
    bounds='bounds [0,3] [2,5] [3,3] [1,max] [17,40]; every content of the lengths around each bound; all pairs of lengths 0..4 for the ordering; XOR of 9-byte strings',
    entries=[E('bs_construct_0_3_string', range(0, 6), None, ['accepted', 'rejected']), E('bs_construct_2_5_string', range(0, 8)),
             E('bs_construct_2_5_bytes', range(0, 8)), E('bs_construct_3_3_bytes', range(0, 6)), E('bs_construct_1_max_bytes', range(0, 10)),
             E('bs_construct_17_40_string', [15, 16, 17, 18, 39, 40, 41]),
             E('bs_convert', range(2, 6), None, ['converted', 'uninit']), E('bs_order_string', range(0, 25), None, ['ordered']),
             E('bs_order_bytes', range(0, 25)), E('bs_xor', [0], None, ['xor', 'uninit'])])
SPECS['C05'] = dict(
    harness='identity.cc', sources=[R + 'encode.cc', R + 'identity.cc'] + ERR, stubs=['stub_utils.cc'],
    bounds='distance and common-bit functions: all pairs/triples of 64-byte identities; encodings: any one byte free at positions 0,1,31,62,63; text input: lengths around each exact size with any one character free',
    bounds_thorough='encodings with the free byte at every position',
    entries=[E('id_closer', [0], None, ['closer', 'notcloser']), E('id_closer_order', [0], None, ['order']), E('id_closer_uninit', range(0, 8), None, ['uninit']),
             E('id_common_bits', [0], None, ['equal', 'differ']),
             E('id_encodings', [0, 1, 31, 62, 63], range(0, 64), ['encodings']),
             E('id_from_binary', [0, 8, 504, 505, 511, 512, 513, 520], None, ['made', 'rejected']),
             E('id_from_hex', [0, 126, 127, 128, 129, 130], None, ['made', 'rejected']),
             E('id_from_base64', [0, 4, 84, 87, 88, 92], None, ['made', 'rejected'])])
SPECS['C07'] = dict(
    harness='siphash.cc', sources=[R + 'hash/algorithms/siphash.cc'],
    bounds='every key; every message of 0..40 bytes in one update, 0..17 bytes in every split into three updates with intermediate results',
    bounds_thorough='messages to 300 bytes whole, 0..33 bytes in every split into three',
    entries=[E('sip_whole', list(range(0, 41)), list(range(0, 300)), ['whole']),
             E('sip_chunks', range(0, 18), range(0, 34), ['chunks'])])
SPECS['C06'] = dict(
    harness='data.cc', sources=[R + 'encode.cc', R + 'data_types/data.cc'] + ERR,
    bounds='all pairs of 64-byte names (initialised or not) with all 32-bit type ids; all 64/32-bit tagged integers; tagged texts of 0..3 bytes each',
    entries=[E('tv_order', [0], None, ['order']), E('tv_string', range(0, 16), None, ['order']), E('key_order', range(0, 4), None, ['order']),
             E('key_map', [0], None, ['same', 'different']), E('data_access', [0], None, ['access'])])

SPECS['C10'] = dict(
    harness='active.cc', sources=[R + 'active.cc'], stubs=['boost_thread.cc'], threads=True,
    bounds='all interleavings at synchronisation operations of 1 sender with 0..3 tasks, 2 senders with 1 or 2 tasks each, tasks that send tasks (1..3), tasks whose captured objects send tasks when destroyed (1..2), with arbitrary captured data; destruction follows at once',
    bounds_thorough='1 sender with 6 tasks, 2 senders with 3 tasks, 3 senders with 1 task, 5 nested tasks',
    entries=[E('active_senders', [10, 11, 12, 13, 21, 22], [10, 11, 12, 13, 14, 15, 16, 21, 22, 23, 31], ['done'], cost=3),
             E('active_nested', [1, 2, 3], [1, 2, 3, 4, 5], ['nested']), E('active_release', [0, 1, 2], None, ['released']),
             E('active_captured', [1, 2], [1, 2, 3], ['captured'], cost=2)])
SPECS['C11'] = dict(
    harness='queue.cc', sources=[], threads=True,
    bounds='histories: every sequence of 0..6 operations with arbitrary 32-bit values; schedules: all interleavings at synchronisation operations of (pushers, poppers, elements each) = (1,1,1..4) (1,2,2) (2,1,1..2) (2,2,1), and of a polling try-pop thread with a pusher of 1..3 elements',
    bounds_thorough='histories of up to 9 operations; (1,1,8) (1,2,4) (2,1,3) (2,2,2), polling up to 5',
    entries=[E('sq_history', range(0, 7), range(0, 10), ['popped', 'empty']), E('sq_string', [0, 1, 17], None),
             E('sq_threads', [111, 112, 113, 114, 122, 211, 212, 221], [111, 112, 113, 114, 118, 122, 124, 211, 212, 213, 221, 222], ['done'], cost=1),
             E('sq_mixed', [1, 2, 3], [1, 2, 3, 4, 5], ['some', 'none'])])

SPECS['C08'] = dict(
    harness='hashing.cc', sources=[R + 'hash/algorithms/siphash.cc'],
    bounds='all pairs of integers of every width, of non-NaN floats/doubles, padded and unpadded pairs, tuples; containers (vector, string, u16string, string_ref, list, forward_list, set, map, arrays, initializer_list, iterator_range) of 0..2 elements each; pairs, vectors and lists of two strings of total length 0..3 split in every way; pairs, tuples, vectors, lists and maps of two lists/vectors (total 1..3) or sets (total 1..2) split differently; types hashed through serialize/save/HashAppend members',
    bounds_thorough='containers of 0..3 elements each',
    assumptions=['long double is not encoded'],
    entries=[E('h_ints', range(0, 11), None, ['compared']), E('h_floats', [0, 1]), E('h_pairs', range(0, 7))] +
            [E('h_' + x, [0, 1, 10, 11, 2, 20, 21, 12, 22], [0, 1, 10, 11, 2, 20, 21, 12, 22, 3, 30, 31, 32, 33, 23, 13])
             for x in ('vector', 'string', 'list', 'flist', 'array', 'set', 'map', 'custom')] +
            [E('h_ilist', [0]), E('h_neighbours', [11, 110, 111, 100, 101, 210, 211, 212, 123, 122, 120, 121, 30, 31, 32, 33, 303, 301, 302, 300]),
             E('h_split', [100, 10, 110, 112, 210, 211, 212, 122, 303], [100, 10, 110, 112, 210, 211, 212, 122, 303, 121, 331, 313, 222]),
             E('h_split_set', [100, 10, 110, 112], [100, 10, 110, 112, 210, 212])])

SPECS['C17'] = dict(
    harness='convert.cc', sources=[], libs=['-lboost_system'],
    bounds='texts and byte vectors of 0..16 bytes; all IPv4 addresses, all IPv6 addresses with all scopes, all ports; all 32-bit error values',
    bounds_thorough='texts to 64 bytes',
    entries=[E('cv_bytes', range(0, 17), range(0, 65), ['bytes']), E('cv_v4', [0], None, ['v4']), E('cv_v6', [0], None, ['v6']), E('cv_error', [0], None, ['error'])])
SPECS['C27'] = dict(
    harness='scope.cc', sources=[],
    bounds='every sequence of up to 4 operations (nothing, release, replace the action, throw, return) inside a guarded scope; every guarded 64-bit value, texts/vectors of 0..4 elements; failure at each copy while registering',
    bounds_thorough='6 operations, texts to 20',
    entries=[E('scope_history', range(0, 5), range(0, 7), ['threw', 'returned', 'ran', 'released']), E('scope_nested', [0], None, ['nested']),
             E('scope_revert', range(0, 5), [0, 1, 2, 3, 4, 17, 20], ['reverted']), E('scope_fragile', [0, 1, 2, 3, 4, 5], None, ['registered', 'failed']), E('mk_unique', range(0, 4), None, ['made'])])
SPECS['C28'] = dict(
    harness='clock.cc', sources=[R + 'clock.cc'],
    bounds='all 2^64 system clock readings (pairs of readings for monotonicity), all time points and all time_t values whose nanoseconds fit 64 bits',
    entries=[E('clock_now', [0], None, ['now']), E('clock_time_t', [0], None, ['to']), E('clock_from_time_t', [0], None, ['from'])])
SPECS['C26'] = dict(
    harness='cli.cc', sources=[R + 'cli.cc', R + 'menu.cc', R + 'menu_item.cc', R + 'encode.cc'] + ERR, stubs=['hash_stub.cc'],
    unit_flags={R + 'cli.cc': ['-include', 'hash_stub.h']},
    bounds='tokenising: every line of 0..6 bytes; integer, word and password prompts: every line of 0..3 characters, numbers within one digit of the ends of the int range; menu sessions: every sequence of 2 lines of up to 2 and of 4 (three-level menu: 3 with 2 characters in the last) lines of 1 arbitrary character over menus with none, three and twelve entries and a three-level menu, with one failing operation; names of 0..3 characters, all 2^32 child indices',
    bounds_thorough='lines of up to 9 bytes, sessions of up to 5 lines',
    assumptions=['the terminal attribute calls and the TLOG display are stand-ins that record; SHA-512 is a stand-in injective function; menus are driven through std::cin with an in-memory buffer'],
    entries=[E('cli_tokens', range(0, 7), range(0, 10), ['tokens']), E('cli_get_int', range(0, 4), range(0, 6), ['number', 'invalid']), E('cli_get_edge', range(0, 6), None, ['number', 'invalid']),
             E('cli_get_string', range(0, 4), range(0, 6), ['word']), E('cli_password', range(0, 3), range(0, 4), ['empty', 'again', 'password']),
             E('menu_run', [0, 1, 2, 3, 11, 12, 111, 122, 1111, 21, 22, 211, 221, 2111, 2112, 32], [0, 1, 2, 3, 13, 123, 1111, 1222, 11111, 23, 2222, 21111, 21221, 211111, 2211, 33, 322], ['quit', 'failed', 'eof']),
             E('menu_edge', range(0, 6)), E('menu_add', range(0, 4), None, ['child', 'dup', 'distinct'])])
SPECS['C29'] = dict(
    harness='profiler.cc', sources=[R + 'profiler.cc', R + 'active.cc'], stubs=['boost_thread.cc'], threads=True, unit_flags={'profiler.cc': ['-fno-access-control']},
    bounds='all sequences of up to 3 intervals of arbitrary length (magnitude below 2^55 ns, negative ones included) at four locations, all schedules against the background worker; every file text of 0..3 characters and every text with up to 2 characters before and 2 after the directory marker; 2 concurrent recorders of 1 interval each; nested scope guards with arbitrary clock readings; all pairs of locations with file names of up to 2 characters; the report for eight groups of durations up to the extremes of the clock, each with a symbolic part',
    bounds_thorough='4 intervals, 2 recorders of 2 intervals',
    entries=[E('prof_totals', [0, 1, 2], [0, 1, 2, 3], ['totals']), E('prof_location', [0, 1, 2, 10, 11, 12, 20, 21, 22, 100, 101, 102, 103], None, ['location']),
             E('prof_threads', [11, 12, 21], [11, 12, 13, 21, 22], ['threads'], cost=5), E('prof_scope', [0, 1], None, ['scope']), E('prof_order', [0, 1, 10, 11, 12, 21, 22], None, ['order']), E('prof_report', range(0, 8), None, ['report'])])
SPECS['C37'] = dict(
    harness='config.cc', sources=[R + 'config.cc'] + ERR, stubs=['boost_fs.cc'], unit_flags={R + 'config.cc': ['-Dreadlink=verif_readlink']},
    bounds='every outcome of reading the link (failure, texts of 0..3 arbitrary characters, texts one and two short of PATH_MAX, longer ones), every start path of 0..3 characters, working directory known or not; set twice',
    assumptions=['readlink, current_path, absolute and parent_path of the system libraries are stand-ins'],
    entries=[E('cfg_path', [0, 1, 2, 3, 10, 11, 12, 20, 21, 30, 31, 40, 41, 51, 61], None, ['none', 'set']), E('cfg_long', [0, 1, 2], None, ['long']), E('cfg_wide', range(0, 4), None, ['wide']), E('cfg_target', [0], None, ['target'])])
SPECS['C38'] = dict(
    harness='service.cc', sources=ERR, threads=True, unit_flags={'service.cc': ['-DASIO_IO_SERVICE_HPP', '-DBOOST_ASIO_IO_SERVICE_HPP']},
    bounds='all interleavings at synchronisation operations of pools of 1..2 threads with 0..2 tasks, stopped explicitly and by destruction, by up to 2 concurrent stoppers, from inside the pool, and from both sides at once',
    bounds_thorough='3 threads, 3 tasks, 3 stoppers',
    assumptions=['the service wrapped by the pool is a stand-in with the documented io_service behaviour; asio itself is not analysed'],
    entries=[E('svc_stop', [10, 11, 12, 20, 21], [10, 11, 12, 13, 20, 21, 22, 30], ['explicit', 'stop']), E('svc_zero', [0], None, ['zero']),
             E('svc_concurrent', [12, 22], [12, 13, 22], ['concurrent']), E('svc_inside', [1, 2], None, ['inside']), E('svc_race', [1, 2], [1, 2], ['race'])])
SPECS['C15'] = dict(
    harness='errors.cc', sources=ERR,
    bounds='all 2^32 integers; every value 0..99999 of each of the ten categories; every pair of a defined value and an arbitrary integer for messages; every integer for conditions',
    assumptions=['the exact wording of messages is not part of the property, only that they are distinct'],
    entries=[E('err_round', range(10), None, ['round']), E('err_any', [0], None, ['known', 'unknown']), E('err_foreign', [0, 1], None, ['foreign']),
             E('err_message', range(10), None, ['defined', 'undefined']), E('err_condition', range(10), None, ['condition']), E('err_make', range(10), None, ['make'])])
SPECS['C16'] = dict(
    harness='archive.cc', sources=[R + 'identity.cc', R + 'encode.cc', R + 'data_types/data.cc'] + ERR, stubs=['stub_utils.cc'],
    bounds='every value of all integer types; texts and byte vectors of 0..3, vectors of 0..3 numbers or texts, maps of 0..2 entries, bounded strings, identities, tagged values, keys, errors, paths, IPv4 and IPv6 addresses of both libraries with arbitrary contents; every truncation of each; every input of 0..13 arbitrary bytes (71..73 for identities) as text, vector, map and bounded string with arbitrary 64-bit length fields; several objects through one stream; binary and text flavour',
    assumptions=['requests for more than 100 bytes of memory fail while hostile input is parsed (any limit gives the same outcome: an exception)', 'cereal and the vector streams of Boost are encoded with the code', 'the wire format of boost::optional is a stand-in'],
    entries=[E('ar_numbers', [0], None, ['number']), E('ar_string', range(0, 4), None, ['round']), E('ar_bytes', range(0, 3), None, ['round']), E('ar_vector', range(0, 4), None, ['round']),
             E('ar_strings', [0, 1, 2, 12, 31, 123], None, ['round']), E('ar_map', range(0, 3), None, ['round']), E('ar_bounded', [1, 2, 3], None, ['round']), E('ar_outside', range(0, 6), None, ['outside']),
             E('ar_identity', [0], None, ['identity']), E('ar_tagged', [0], None, ['round']), E('ar_error', [0], None, ['known']), E('ar_many', range(0, 3), None, ['many']), E('ar_text', range(0, 3), None, ['text']),
             E('ar_path', [0, 2], None, ['path']), E('ar_address', [0, 1], None, ['address']), E('ar_boost_address', [0, 1], None, ['address']),
             E('ar_hostile_string', [0, 7, 8, 9, 11], None, ['refused', 'accepted']), E('ar_hostile_vector', [0, 7, 8, 9, 12, 13], None, ['refused', 'accepted']),
             E('ar_hostile_map', [0, 8, 9, 10, 12], None, ['refused', 'accepted']), E('ar_hostile_bounded', [0, 8, 9, 10, 11, 12], None, ['refused', 'accepted']), E('ar_hostile_boundedbytes', [0, 8, 9, 10, 11, 12], None, ['refused', 'accepted']), E('ar_hostile_identity', [72, 71, 73], None, ['refused', 'accepted'])])
def merged(*parts):   # several harnesses for one property
    return dict(parts=list(parts), sources=sorted({f for p in parts for f in p['sources']}), entries=[e for p in parts for e in p['entries']],
                **{k: '; '.join(p[k] for p in parts if p.get(k)) for k in ('bounds', 'bounds_thorough')}, assumptions=[a for p in parts for a in p.get('assumptions', [])])


SPECS['C16'] = merged(SPECS['C16'], dict(harness='flyweight.cc', sources=ERR, bounds='1..3 shared texts, equal or not; two arbitrary 32-bit references with 0..2 texts (thorough: three)', assumptions=['boost::flyweight is run against a stand-in archive with the numbering of shared pointers that cereal has: the header is for an older cereal than the one installed'],
    entries=[E('fw_round', [1, 2, 3], None, ['stored']), E('fw_hostile', [1, 2], [3], ['read', 'refused'])]))
SPECS['C22'] = dict(
    harness='datatypes.cc', sources=[R + f for f in ('data_types/data.cc', 'data_types/immutable_data.cc', 'data_types/mutable_data.cc', 'identity.cc', 'encode.cc')] + ERR, stubs=['hash_stub.cc', 'stub_utils.cc'],
    flags=['-include', 'hash_stub.h'],
    bounds='all contents of 0..3 bytes and all 64-byte names (constructed and parsed into empty and into initialised instances); all inputs with an arbitrary name followed by 0..10 arbitrary bytes; all truncations at field boundaries; copy, move and swap between every combination of initialised and uninitialised instances',
    assumptions=['SHA-512 is a stand-in that is injective on short content', 'requests for more than 300 bytes fail while hostile input is parsed'],
    entries=[E('im_make', [1, 2, 3], None, ['made']), E('im_empty', [0], None, ['empty']), E('mu_make', [1, 2, 3], None, ['made']), E('im_parse', range(0, 4), None, ['good', 'bad']), E('mu_parse', range(0, 4), None, ['parsed']),
             E('im_assign', [0], None, ['assigned']), E('mu_assign', [0], None, ['assigned']), E('im_hostile', [0, 7, 8, 9, 10], None, ['refused', 'accepted']), E('mu_hostile', [0, 7, 8, 9, 10], None, ['refused', 'accepted'])])

SPECS['C09'] = dict(
    harness='lru.cc', sources=ERR, flags=[],
    bounds='every sequence of up to 4 operations (add, get, delete; arbitrary 8-bit keys and 32-bit values) at arbitrary non-decreasing clock readings, capacity 0..3 and/or every positive time to live; the filter variant with up to 4 adds; text keys of 0..2 bytes',
    bounds_thorough='up to 5 operations, capacity up to 3',
    assumptions=['the steady clock never goes backwards and never reads negative'],
    entries=[E('lru_history', [3, 14, 24, 34, 104, 214, 224], [4, 15, 25, 35, 105, 215, 225], ['add', 'hit', 'miss', 'deleted'], cost=3),
             E('lru_filter', [3, 13, 24, 104, 214, 224], [3, 14, 25, 105, 225], ['added']),
             E('lru_strings', [0, 1, 2], None, ['strings'])])

SPECS['C21'] = dict(
    harness='secure.cc', sources=[R + 'authentication/detail/secure_string.cc'] + ERR, stubs=['secure_hash.cc'],
    unit_flags={k: ['-include', 'secure_stub.h', '-include', 'asio/io_service.hpp'] for k in ('secure.cc', 'secure_hash.cc', R + 'authentication/detail/secure_string.cc')},
    bounds='every sequence of 1..3 edits (insert an arbitrary character, remove any 64-bit length, clear, finalise) at arbitrary positions 0..5, from empty and from texts of 0..3 characters; texts inserted whole, character classes, number texts of up to 3 characters',
    bounds_thorough='4 edits',
    assumptions=['the cipher, hex filter and regular expressions are stand-ins (an invertible cipher that detects a wrong passphrase; single character classes); SHA-512 is a stand-in injective function'],
    entries=[E('sec_history', [1, 2, 3], [1, 2, 3, 4], ['insert', 'removed', 'refused', 'cleared', 'finalised', 'unfinished', 'open', 'final'], cost=2), E('sec_most', [2, 3], [2, 3, 4]),
             E('sec_edit', [0, 1, 11, 12, 21, 22, 31], [0, 1, 12, 22, 32, 33, 42], ['edited']), E('sec_texts', [0, 1, 11, 12, 20], None, ['texts']),
             E('sec_valid', [0, 1, 2, 3], None, ['valid']), E('sec_value', [1, 2, 3], None, ['number', 'text']), E('sec_concat', [0, 1, 11, 12, 20], None, ['concat'])])

SPECS['C20'] = dict(
    harness='locked.cc', sources=[],
    bounds='every history of up to 3 lock/unlock operations on arbitrary ranges of up to a page and a byte, within a window of five pages of 64 bytes, observed at an arbitrary page; blocks of 1..9 and of a page and more elements with arbitrary content; up to 3 blocks released in every order; strings of up to 40 characters',
    bounds_thorough='5 operations, 4 blocks',
    assumptions=['mlock, munlock and sysconf are stand-ins that record; locking never fails; block addresses are those of the allocator model'],
    entries=[E('lk_pages', [1, 2, 3], [1, 2, 3, 4], ['lock', 'unlock']), E('lk_count', [1, 2], [1, 2, 3], ['count']), E('al_wipe', [1, 2, 9, 5000], None, ['wiped']),
             E('al_share', [1, 2, 3], [1, 2, 3, 4], ['shared']), E('al_string', [0, 3, 15, 16, 40], None, ['string'])])

UT = dict(harness='utils.cc', sources=[R + 'utils.cc', R + 'identity.cc', R + 'encode.cc', R + 'data_types/data.cc'] + ERR, stubs=['boost_fs.cc'],
          unit_flags={k: ['-include', 'utils_stub.h', '-include', 'asio/io_service.hpp'] for k in ('utils.cc', R + 'utils.cc')}, libs=['-lboost_filesystem', '-lboost_program_options', '-lboost_date_time', '-lboost_system', '-lcryptopp'])
SPECS['C18'] = dict(UT,
    bounds='every text of 0..8 characters, every digits.digit.digits text with 1..11 digits in the first part; all 2^64 byte counts',
    bounds_thorough='every text of up to 10 characters',
    assumptions=['the decimal formatting of the number is a stand-in that records the number; the binary floating-point number itself is compared exactly'],
    entries=[E('ut_version', range(0, 9), range(0, 11), ['bad', 'good']), E('ut_major', range(1, 12), None, ['major']), E('ut_units', [0, 1], None, ['bytes', 'kilo', 'middle', 'exa'])])
SPECS['C19'] = dict(UT,
    bounds='all outputs of the random source (but those the standard distribution rejects or re-examines), sizes 0..4, the ranges [0..3, +0..3], [0..2, +200] and those reaching 2^32-1 from 0, 1 or one of the last 16 sizes (results of more than 20 characters observed as the allocation they ask for); XOR of texts of 0..3 bytes; all 2^32 seeds',
    bounds_thorough='sizes up to 8',
    assumptions=['std::mt19937 is replaced by a source of arbitrary 32-bit values; std::uniform_int_distribution is the real one', 'requests for more than 24 bytes fail while ranges are tried'],
    entries=[E('rn_exact', [0, 1, 2, 3], range(0, 6), ['exact']), E('rn_range', [10 * k + c for k in range(4) for c in range(6)], None, ['big', 'small', 'least', 'most']), E('rn_ints', [0], None, ['ints']), E('rn_xor', [0, 11, 10, 1, 22, 21, 33], None, ['xor'])])
SPECS['C39'] = dict(UT,
    bounds='names with arbitrary bytes at four positions, all types below 100000 and 64 consecutive ones at 999900, 10^6, 98765400, 123456700, 2^31 and up to 2^32-1; all time stamps below 2^52 ms',
    entries=[E('fn_roundtrip', range(1, 12), None, ['name']), E('tm_stamp', [0], None, ['stamp'])])

SPECS['C25'] = dict(
    harness='process.cc', sources=[R + 'process.cc', R + 'config.cc'] + ERR, stubs=['boost_fs.cc', 'stub_utils.cc'],
    unit_flags={R + 'config.cc': ['-Dreadlink=verif_readlink'], R + 'process.cc': ['-Dkill=verif_kill', '-include', 'asio/io_service.hpp']},
    bounds='every list of 0..2 arguments with every text of 0..3 characters, of 3 with texts of 0..2, and some longer ones; every outcome of the system call; names and extensions of 1..3 characters',
    bounds_thorough='4 arguments, 4 characters',
    assumptions=['kill, readlink and the path functions of boost are stand-ins; an argument that is empty (other than the first) contributes nothing, as the code documents by its construction; a blank may follow the program when it has no arguments'],
    entries=[E('pr_command', [0, 1, 2, 3, 4] + [10 * i + j for i in range(1, 5) for j in range(1, 5)] + [100 * i + 10 * j + k for i in range(1, 4) for j in range(1, 4) for k in range(1, 4)] + [444, 2122, 2212], [5, 45, 55, 54, 444, 555, 3333, 4444] + [1000 * h + 100 * i + 10 * j + k for h in (1, 2) for i in (1, 2) for j in (1, 2) for k in (1, 2)], ['quoted', 'plain', 'line']),
             E('pr_running', range(0, 4), None, ['runs', 'ended', 'unknown']), E('pr_other', [2, 12, 13, 23, 33, 41], None, ['other'])])

SPECS['C24'] = dict(
    harness='sqlite.cc', sources=[R + 'sqlite3_wrapper.cc'] + ERR, stubs=['boost_fs.cc'], unit_flags={R + 'sqlite3_wrapper.cc': ['-include', 'asio/io_service.hpp']},
    bounds='every result code of every call of the database engine: open, begin and commit with 0..2 failures with any codes and with 3, 198, 199, 200 and 201 failures with the same code, rollback, prepare, bind, step, reset, checkpoint; texts and blobs of 0..3 bytes; error texts present or not; any earlier content of the memory',
    bounds_thorough='up to 4 failures with any codes',
    assumptions=['the SQLite library is a stand-in that follows its documented contract', 'waiting takes no time'],
    entries=[E('db_open', [0, 1], None, ['opened', 'refused']), E('tx_short', [0, 1, 2, 10, 20, 11], [0, 1, 2, 3, 4, 10, 20, 30, 40, 11, 22], ['left', 'committed', 'not begun']),
             E('tx_long', [3, 198, 199, 200, 201, 1003, 1199, 1200, 1201], None, ['not committed', 'committed', 'not begun', 'left']),
             E('st_prepare', [0, 3], range(0, 6), ['prepared', 'refused']), E('st_bind', [0, 1, 3, 10, 11, 13], [0, 1, 2, 5, 10, 11, 12, 15], ['bound', 'not bound', 'stepped']), E('st_column', [-1, 0, 1, 3], [-1, 0, 1, 5], ['column'])])

import os
if os.environ.get('VERIF_SINK'):  # development only: what the engine can execute
    SPECS['SINK'] = dict(harness='sink.cc', sources=ERR, threads=True, bounds='', entries=[E('sink', range(0, 24), None, ['done'])])
SPECS['C33'] = dict(UT, harness='files.cc', stubs=['boost_fs.cc'],
    unit_flags={k: ['-include', 'utils_stub.h', '-include', 'files_stub.h', '-include', 'asio/io_service.hpp'] for k in ('files.cc', R + 'utils.cc')},
    bounds='all contents of 0..3 bytes over earlier files of 0..4; every point at which opening, reading, writing, flushing or closing fails, at once or only when closing; the size unknown, or beyond memory',
    bounds_thorough='contents of up to 8 bytes',
    assumptions=['the file streams of the standard library and the file system queries of boost are stand-ins on one file; a file does not grow while it is read'],
    entries=[E('rd_faults', range(0, 4), range(0, 9), ['absent', 'failed', 'read']), E('rd_huge', [0, 1, 2], None, ['huge']), E('wr_faults', [0, 1, 2, 3, 10, 12, 21, 33, 51, 53], None, ['written', 'failed']), E('wr_nameless', [0, 1, 2], None, ['nameless'])])
SDV = dict(sources=[R + 'data_types/structured_data_versions.cc', R + 'data_types/data.cc', R + 'data_types/immutable_data.cc', R + 'identity.cc', R + 'encode.cc'] + ERR, stubs=['hash_stub.cc', 'stub_utils.cc'], flags=['-include', 'hash_stub.h'],
    unit_flags={R + 'data_types/structured_data_versions.cc': ['-include', 'async_inline.h']})
SPECS['C12'] = dict(SDV, harness='sdv.cc',
    bounds='all limits; every sequence of 3 puts of 5 names (two versions with the same index, one with index 0) under 6 parents; every 2 puts of any names; nine histories of 3 to 5 versions (forks, orphans, adopted orphans, late roots), each followed by any put of any name, by deleting any two branches or one and a put, and by two puts from a pool of 10 parents and 4 names',
    bounds_thorough='every 3 puts of any names, every 4 puts of the pool',
    assumptions=['tasks started with std::async run when they are waited for', 'no version with index 0 is put onto a version which is present (the interface forbids it)'],
    entries=[E('sdv_limits', [0], None, ['limits']), E('sdv_puts', [3], [3, 4], ['put', 'removed', 'invalid', 'limit']), E('sdv_any', [2], [3], ['put']),
             E('sdv_shape_put', range(9), None, ['put']), E('sdv_shape_delete', range(9), None, ['deleted']), E('sdv_shape_overflow', range(9), None, ['put']), E('sdv_clear', range(9), None, ['cleared'])])
SPECS['C13'] = dict(SDV, harness='sdv_store.cc',
    bounds='every history of up to 2 puts of 5 names, nine histories of 3 to 5 versions, each also with a branch deleted, all limits: stored, restored, stored again, and one more put; each of these merged into or swapped with each other (and with an empty one), then one more put; stored forms of up to 3 branches of up to 2 versions with arbitrary limits, fork counts, names and absent parents; 8 arbitrary bytes at each of 4 places of a stored history; 0..21 arbitrary bytes; truncations',
    bounds_thorough='3 puts before storing, 2 puts of any names, 2 puts merged into 2, branches of 2 versions in stored forms of 3 branches',
    assumptions=['tasks started with std::async run when they are waited for'],
    entries=[E('store_shape', range(9), None, ['restored']), E('store_puts', [0, 1, 2], [3], ['restored']), E('store_any', [1], [2], ['restored']), E('store_deleted', range(9), None, ['restored']),
             E('merge_shapes', range(-1, 9), None, ['merged', 'refused']), E('merge_any', [0, 1], [0, 1, 2], ['merged', 'refused']), E('swap_shapes', range(-1, 9), None, ['swapped']),
             E('hostile_structure', [1, 11, 12, 10, 111], [1, 11, 12, 10, 111, 112, 121], ['accepted', 'refused']), E('hostile_bytes', [8000, 8008, 1016, 8017], None, ['refused']), E('hostile_short', range(0, 22, 3), None, ['refused', 'accepted']), E('hostile_truncated', range(9), None, ['truncated'])])
TCPSHIM = ['-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tcp_shim')]
SPECS['C14'] = dict(harness='buffer.cc', sources=[R + f for f in ('data_buffer.cc', 'data_types/data.cc', 'identity.cc', 'encode.cc')] + ERR, stubs=['boost_fs.cc', 'stub_utils.cc'], threads=True, flags=['-include', 'async_thread.h'],
    bounds='any limits of memory and disk. Histories: 3 calls (the first a store; store, get, delete, delete by predicate or a new limit of any size) on 2 keys with values of 1..3 bytes, the worker idle after every call. Schedules (2 preemptions): 3 calls with values of 1 byte, 2 calls of 1..2 bytes, with pops. Waiting stores (1 preemption): two clients, one waiting store of 2 bytes that is got, deleted or deleted by predicate before room is made by either delete or by a raised limit, and stored anew. Failing writes: any of the writes fails, 2 calls or two clients (2 preemptions), two waiting stores (1 preemption). Making a buffer: any limits, directory present or not, creatable and writable or not',
    bounds_thorough='histories of 4 calls with values of 1..2 bytes; schedules of 3 calls with values of 1..2 bytes',
    assumptions=['files, directories and std::async are stand-ins; a pop callback does not call into the buffer; no two clients use the same key at once, except that what waits is deleted and got; preemptions at lock, unlock, wait, notify and thread operations only, with unlocked shared accesses reported as races', 'a limit is lowered only while no call is under way; a value in memory still to be written fits the new disk limit'],
    entries=[E('buf_history', [33], [33, 24], ['history'], opts=['--preemptions', '0']), E('buf_schedules', [13, 22], [13, 23], ['schedules'], opts=['--preemptions', '2']),
             E('buf_blocked', [12, 22], None, ['blocked', 'cancelled', 'again', 'refilled'], opts=['--preemptions', '1']),
             E('buf_failing', [12, 112, 121], None, ['failing', 'reported'], opts=['--preemptions', '2']), E('buf_failing_blocked', [1, 2, 3], None, ['failing', 'reported'], opts=['--preemptions', '1']),
             E('buf_made', [0, 1, 2], None, ['made', 'refused'], opts=['--preemptions', '0'])])
SPECS['C23'] = dict(harness='tcp.cc', sources=[R + 'tcp/connection.cc', R + 'tcp/listener.cc', R + 'config.cc'] + ERR, stubs=['boost_fs.cc'], flags=TCPSHIM,
    bounds='every order in which operations complete and handlers run, for up to 2 incoming messages of 0..4 arbitrary bytes followed by the end of the stream (also inside a size or a message), any size beyond the limit, one failing operation at any point or closing at any time; up to 3 messages sent at any time, also with a failure or closing at any time; messages sent back from the callback; sizes 1, 255, 256, 4660, 65536, 2^20 (the limit) and 2^20 + 1 both ways; every outcome of connecting; listening on 4 port ranges with each step failing on any ports; up to 2 incoming connections or failures with listening stopped twice at any times',
    bounds_thorough='up to 3 incoming messages, 4 sent ones, 4 incoming connections',
    assumptions=['asio is a stand-in that follows its documented contract (strands, composed reads and writes, aborted operations when closing)', 'handlers run one after the other, in any order the strands allow (use of a socket outside its strand is reported)'],
    entries=[E('rx', [0, 1, 2, 3, 4, 10, 11, 12, 13, 14, 120, 123, 124], [0, 1, 2, 3, 4, 10, 11, 12, 13, 14, 120, 121, 122, 123, 124, 1230, 1233, 1234], ['received']), E('rx_fault', [1, 21], [1, 21, 121], ['received']), E('rx_size', [1, 255, 256, 0x1234, 65536, 1048576, 1048577], None, ['size']),
             E('tx', [1, 2, 3, 11, 12, 102, 103], [1, 2, 3, 4, 11, 12, 13, 23, 102, 103, 113], ['sent']), E('tx_size', [0, 1, 255, 256, 65536, 1048576, 1048577], None, ['size']), E('echo', [10, 11, 12, 120, 121, 122], [10, 11, 12, 120, 121, 122, 230], ["echoed"]), E('conn', [0], None, ['connected', 'refused']),
             E('listen_ports', [1, 5483, 65530, 65535], None, ['listening', 'refused']), E('listening', [0, 1, 2], [0, 1, 2, 3, 4], ['stopped'])])
SPECS['C30'] = dict(harness='vlog.cc', sources=[R + 'visualiser_log.cc', R + 'identity.cc', R + 'encode.cc'] + ERR, stubs=['stub_utils.cc'], libs=['-lboost_program_options', '-lboost_filesystem', '-lboost_system'],
    unit_flags={'vlog.cc': ['-fno-access-control']},
    bounds='vault-stopped messages: time stamps, vault and session names of 0..1 arbitrary bytes each, and one arbitrary byte at places 0, 10, 20 of a full time stamp; seven exit codes including both ends of int; messages: every constructor, with arbitrary texts of 1..2 bytes as value, session and vault name, identities with two arbitrary bytes, with and without the background queue; all 2^64 actions and 2^32 personas (values outside the enumerations refused)',
    bounds_thorough='the arbitrary byte at every place of the time stamp',
    assumptions=['the Logging object (queue, server connection, file) is a stand-in that records', 'cereal with its JSON writer is encoded with the code'],
    entries=[E('vl_stopped', [0, 1, 10, 100], None, ['stopped']), E('vl_place', [0, 10, 20], range(21), ['place']),
             E('vl_message', [1000 + c for c in range(10)] + [1100, 1107, 7, 100], None, ['message', 'silent']), E('vl_refused', [0, 1, 2, 3, 4, 5, 10, 11, 12, 13], None, ['refused', 'accepted', 'not ready'])])
LOGSHIM = ['-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'log_shim'), '-include', 'log_stub.h']
SPECS['C31'] = dict(harness='log.cc', sources=[R + f for f in ('log.cc', 'active.cc', 'config.cc')] + ERR, stubs=['boost_fs.cc', 'boost_thread.cc'], threads=True, flags=['-DUSE_LOGGING=0'] + LOGSHIM,
    unit_flags={'log.cc': ['-fno-access-control'], R + 'log.cc': ['-UUSE_LOGGING', '-DUSE_LOGGING=1'], R + 'config.cc': ['-Dreadlink=verif_readlink']},
    bounds='all spellings of the six levels in any case; 0..2 options out of 11 kinds (project levels, catch-all, console, background, foreign words and options, help), joined or separate; catch-all and project levels in command line and configuration file; all 2^64 pairs of project level and message level over all paths of up to 5 characters before and up to 3 after "maidsafe" (3-letter alphabet) and ten realistic paths; four messages through every combination of 0..2 projects, terminal, colour mode, console, background, usable or unusable folder; two threads logging three messages under every schedule with one preemption; times a multiple of a power of ten of nanoseconds below 1000 into a second; nine kinds of terminal; two messages of three kinds to a server that is there or not and gives seven kinds of reply', bounds_thorough='three options; paths with up to 6 characters before "maidsafe"',
    assumptions=['boost::program_options is replaced by a stand-in with the documented behaviour of the calls used; terminal, files, folders and calendar are stand-ins', 'a spelling that is no level is not judged', 'the help text of log_* says that it overrides the levels of individual projects, the code does the opposite; the check takes the level of a named project as the one that counts', 'the LOG macro itself is not compiled in the build here (USE_LOGGING=0): messages are made through detail::LogMessage', 'the fields of messages to the visualisation server are C30; here it is how they are sent'],
    entries=[E('lg_level', [0], None, ['level']), E('lg_options', [0, 1, 2], [3], ['options', 'help']), E('lg_config', [0], None, ['config']),
             E('lg_path', [9 + 0, 93, 0, 10, 12, 20, 30, 31, 41, 42, 51], [61], ['logged', 'silent']), E('lg_path_fixed', range(10), None, ['logged', 'silent']),
             E('lg_sinks', [0, 10, 11, 100, 111, 120, 200, 210, 211, 220, 130], None, ['sinks', 'refused'], opts=['--preemptions', '0']),
             E('lg_threads', [0, 1], None, ['threads'], opts=['--preemptions', '1']), E('lg_time', [0, 1], None, ['time']), E('lg_visualiser', range(7), None, ['sent', 'lost']), E('lg_terminal', range(9), None, ['shown'])])
SPECS['C32'] = dict(harness='crypto.cc', sources=[R + f for f in ('crypto.cc', 'authentication/user_credential_utils.cc', 'authentication/detail/secure_string.cc')] + ERR,
    flags=['-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cryptopp_shim'), '-DVERIF_OWN_HASH'],
    unit_flags={k: ['-include', 'secure_stub.h', '-include', 'tss_stub.h', '-include', 'asio/io_service.hpp'] for k in ('crypto.cc', R + 'crypto.cc', R + 'authentication/user_credential_utils.cc', R + 'authentication/detail/secure_string.cc')},
    bounds='cipher: texts of 1..3 and 17 arbitrary bytes, all keys; any change of any one byte of key, vector or cipher text, any shortening; all 2^16 compression levels; passwords, salts and labels of 1..3 bytes with all 2^32 pins; digests of 0..2, 64 and 65 bytes; all 2^64 pairs of threshold and shares outside the allowed ones refused, 3..5 shares with every threshold and every ordered choice of enough of them, data of 1..3 bytes; 0..2 arbitrary shares of 1..6 bytes; obfuscation of 1..200 bytes with arbitrary keyword and password of 2 bytes and seven pins',
    assumptions=['the primitives of Crypto++ (AES-GCM, PBKDF2, the digests, Gzip, secret sharing and dispersal) are stand-ins: invertible functions which notice a wrong key or text; whether they fail is arbitrary'],
    entries=[E('cr_cipher', [10, 11, 12, 13, 14, 20, 30, 170], None, ['round', 'altered', 'other key', 'short', 'refused']), E('cr_zip', [1, 2, 17], None, ['zip', 'level']), E('cr_password', [110, 111, 230, 322], None, ['password']),
             E('cr_hash', [0, 1, 2, 64, 65], None, ['hash']), E('cr_share_args', [0, 1], None, ['refused']), E('cr_share', [31, 41, 133, 143, 52, 151], None, ['recovered']),
             E('cr_recover_any', [0, 100, 11, 114, 23, 124, 25, 125, 116], None, ['tried']), E('cr_credentials', [0], None, ['credentials']), E('cr_obfuscate', [1, 2, 47, 48, 49, 96, 97, 100, 200], None, ['obfuscated'])])
SPECS['C40'] = dict(harness='appdirs.cc', sources=[R + 'config.cc'] + ERR, stubs=['boost_fs.cc'],
    bounds='home directories of 0..3 arbitrary characters in the account, an account that is there or not, HOME unset, empty or set to two values, all 2^32 user numbers',
    assumptions=['accounts and environment are stand-ins; only the Linux branch is compiled'],
    entries=[E('ad_home', range(0, 4), None, ['none', 'some'])])
