"""The property list; gen.py writes properties.jsonl and MANIFEST.json from this and specs.py."""
S = 'src/maidsafe/common/'
I = 'include/maidsafe/common/'
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, na=None, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, note=note))


P('C01', 'Hex text encoding is exact, reversible and rejects everything else',
  'Encoding any byte sequence as hex gives two lower-case digits per byte and decoding that text gives the bytes back. Decoding any other text either yields exactly the bytes its digits denote or fails with the documented conversion error; it never reads outside the input or its tables.',
  ['inputs'], 'every byte sequence and every decoder input up to the stated lengths', 'Existing tests use a handful of literals and random valid strings; malformed characters are unbounded in number.',
  [S + 'encode.cc', I + 'encode.h'], [('hex encode/decode tables and loops', S + 'encode.cc'), ('typed wrappers', I + 'encode.h')])
P('C02', 'Base64 text encoding is canonical, reversible and rejects malformed text',
  'Encoding any byte sequence as base64 gives the standard padded text and decoding it gives the bytes back. Text that is not the well-formed base64 shape (bad length, foreign character, data after padding) is rejected with the documented conversion error, never misread or read out of bounds.',
  ['inputs'], 'every byte sequence and every decoder input up to the stated lengths', 'Tests decode RFC vectors and random valid strings only; malformed text space is unbounded.',
  [S + 'encode.cc', I + 'encode.h'], [('base64 encode/decode', S + 'encode.cc')])
P('C03', 'Abbreviated hex display of binary names is bounded and faithful',
  'The short hex form used to display a binary value is the full hex text when the value is short, and otherwise the first and last digits of the full hex text joined by the documented separator, for every value.',
  ['inputs'], 'every byte sequence up to the stated length, plain and length-bounded types', 'Tests look at sample strings; all lengths around the switch-over and all contents are not covered.',
  [I + 'encode.h', S + 'encode.cc'], [('hex::Substr overloads', I + 'encode.h')])
P('C04', 'A length-bounded string is always empty-uninitialised or within its bounds',
  'Whatever sequence of construction, assignment, move and conversion is applied, a bounded string either reports itself uninitialised or holds content whose length lies within its bounds; construction from out-of-range content fails with the documented error and leaves targets unchanged. Reading an uninitialised one fails, and ordering/equality agree with the ordering of the contents.',
  ['inputs'], 'every content and length around each bound, for several bound pairs and both content types', 'Tests instantiate a few bounds with random content; the boundary lengths and moved-from states are sampled only.',
  [I + 'bounded_string.h'], [('bounds checks in constructors, comparison operators, xor', I + 'bounded_string.h')])
P('C05', 'Identities: XOR distance is a total metric order and encodings are exact',
  'For any target, "closer to target" is exactly the comparison of the XOR distances as big-endian numbers (so of two distinct identities exactly one is closer) and the number of common leading bits is the length of the shared bit prefix. Text in any of the supported encodings makes an identity only if it denotes exactly 64 bytes and then encodes back to the same text; otherwise it is rejected with the invalid-identity error.',
  ['inputs'], 'all triples of 64-byte identities; texts of the lengths around each exact length', 'Tests use random ids and a few malformed strings; 2^1536 inputs and every malformed text cannot be sampled.',
  [S + 'identity.cc', I + 'identity.h', I + 'identity_common_bits_matrix.h'], [('CloserToTarget, CommonLeadingBits, MakeIdentity', S + 'identity.cc')])
P('C06', 'Tagged values and name/type keys compare exactly as their contents',
  'Equality and all five orderings of tagged values and of (name, type) keys agree with one lexicographic total order over their contents, for every pair; accessing the name or type of an uninitialised datum fails with the uninitialised error.',
  ['inputs'], 'all pairs of keys with symbolic names and type ids', 'Tests compare a few pairs; total-order laws range over all pairs.',
  [I + 'tagged_value.h', S + 'data_types/data.cc', I + 'data_types/data.h'], [('comparison operators', S + 'data_types/data.cc')])
P('C07', 'The keyed hash is SipHash-2-4 and independent of how input is chunked',
  'For every 128-bit key and every message the result equals the published SipHash-2-4 function, no matter how the message is split over update calls. Reading the result does not disturb the running state, so more data can be added afterwards.',
  ['inputs'], 'all keys and messages up to the stated length, all splits in up to three parts', 'The repository tests one reference key with 64 vectors; keys, contents and splits are unbounded.',
  [S + 'hash/algorithms/siphash.cc', I + 'hash/algorithms/siphash.h'], [('Update/Compress/Finalize with the held remainder', S + 'hash/algorithms/siphash.cc')])
P('C08', 'Equal values hash equally; containers mix in every element and their size',
  'Hashing a value feeds the algorithm a byte sequence that depends only on the value: equal values of any supported type give equal streams and unequal values of the same type give different streams, including empty containers and different splits of the same elements over neighbouring containers.',
  ['inputs'], 'all pairs of values of each supported type up to the stated sizes', 'Tests compare hashes of a few values; injectivity ranges over all pairs.',
  [I + 'hash/hash_range.h', I + 'hash/hash_numeric.h', I + 'hash/hash_pair.h', I + 'hash/hash_tuple.h', I + 'hash/algorithms/hash_algorithm_base.h'], [('HashAppend overloads', I + 'hash/'), ('range protocol', I + 'hash/hash_range.h')])
P('C09', 'The LRU cache keeps exactly the most recently used live entries',
  'After any sequence of add, get, check and delete at any times, the cache holds exactly the entries an ideal LRU of the given capacity and time-to-live would hold: never more than the capacity, eviction of the least recently used first, no resurrection after delete, a get returns the value stored for that key, adding a key already present changes nothing, and expired entries leave from the least recently used end when a new key is added. The key order and the stored entries never go out of step.',
  ['histories', 'inputs'], 'all operation sequences up to the stated length with arbitrary keys and clock readings', 'Tests run fixed scripts with real sleeps; interleavings of operations and clock values are unbounded.',
  [I + 'containers/lru_cache.h'], [('storage map + usage list', I + 'containers/lru_cache.h')])
P('C10', 'Active object: every sent task runs exactly once, in order, before shutdown ends',
  'Tasks sent to an active object run one at a time on its worker in the order each sender sent them, each exactly once, and destroying the object runs every task already accepted and then stops; no schedule deadlocks, loses or duplicates a task.',
  ['schedules'], 'all interleavings at synchronisation operations of the stated numbers of senders and tasks', 'A test sees a few schedules; lost wake-ups and shutdown races need particular ones.',
  [S + 'active.cc', I + 'active.h'], [('flag mutex, queue mutex and condition variable', S + 'active.cc')])
P('C11', 'Shared queue: pushed elements are delivered exactly once in FIFO order',
  'For any number of pushers and poppers and any schedule, each pushed element is popped exactly once, elements of one pusher come out in push order, blocking pop waits until an element is available and then returns, and try-pop never blocks nor invents an element.',
  ['schedules'], 'all interleavings at synchronisation operations of the stated threads', 'Tests cannot enumerate schedules; lost notifications appear under specific ones.',
  [I + 'safe_queue.h'], [('mutex + condition variable', I + 'safe_queue.h')])
P('C12', 'Version history: puts, branches, eviction and deletion follow the tree model',
  'After any sequence of puts and branch deletions the set of tips, each tip\'s branch back to its start, the limits on versions and branches and the version reported as removed are exactly those of the documented version-tree model; circular or contradictory insertions are rejected and a rejected operation changes nothing.',
  ['histories', 'inputs'], 'all operation sequences up to the stated length over arbitrary version names, for the stated limits', 'No tests for it run in the stable set; the state space of trees and orphan arrival orders is combinatorial.',
  [S + 'data_types/structured_data_versions.cc', I + 'data_types/structured_data_versions.h'], [('Put/Insert/ReplaceRoot/Unorphan', S + 'data_types/structured_data_versions.cc')])
P('C13', 'Version history survives serialisation, merging and hostile serialised input',
  'Serialising any history and parsing it back gives a history that behaves identically under every later operation, merging a received history yields the union of both, and parsing arbitrary bytes or structurally invalid histories fails with an error rather than crashing or producing a history beyond its limits.',
  ['inputs', 'histories'], 'all histories of the stated size and all structurally arbitrary serialised forms of the stated size', 'Crafted inputs and merge orders are unbounded; tests only parse what the library wrote.',
  [S + 'data_types/structured_data_versions.cc', S + 'data_types/structured_data_versions_cereal.h'], [('Serialise/BranchFromCereal/ApplySerialised/swap', S + 'data_types/structured_data_versions.cc')])
P('C14', 'Two-tier data buffer returns the last stored value and respects its limits',
  'A get returns exactly the value last stored under that key unless it was deleted or, for want of space on disk only and oldest first, evicted (each evicted item being handed to the pop callback exactly once); what was deleted or replaced is neither returned, popped nor left on disk, and its space can be used again. The amounts held in memory and on disk never exceed their limits; a value beyond the disk limit and a memory limit beyond that of the disk are refused. Without a pop callback a store that lacks space waits until deletes or a raised limit make room, and its value can meanwhile be got and deleted. A failing disk is reported by that call or the next and by all later ones. No schedule of the clients and the background writer deadlocks. Only a directory the buffer chose itself, or was told to remove, is removed with it.',
  ['schedules', 'histories', 'faults'], 'all interleavings at synchronisation operations of short histories of one or two clients with the background worker; all limits', 'The background writer makes outcomes schedule dependent; tests sample timing.',
  [S + 'data_buffer.cc', I + 'data_buffer.h'], [('memory/disk stores, storing-state machine, worker', S + 'data_buffer.cc')])
P('C15', 'Error codes convert to integers and back without loss or collision',
  'Every error value the library defines maps to an integer from which exactly the same error (category and value) is recovered, different errors never share an integer, and any other integer is refused as a parsing error rather than giving a wrong error or undefined arithmetic; each value has its own message and its documented generic condition.',
  ['inputs'], 'all 2^32 integers and all category/value pairs', 'Tests round-trip the known codes; the integer space and mixed categories are not sampled.',
  [S + 'error.cc', S + 'error_categories.cc', I + 'error.h'], [('ErrorToInt/IntToError', S + 'error.cc')])
P('C16', 'Binary serialisation round-trips and rejects truncated or oversized input',
  'Parsing what was serialised gives back an equal value for every supported type (shared values come back shared), and parsing arbitrary or truncated bytes either yields a value or fails with an exception; it never reads past the input, never crashes and never accepts a bounded value out of its bounds.',
  ['inputs'], 'all values and all byte strings up to the stated size for the archived types', 'Tests round-trip samples; hostile lengths and truncations are unbounded.',
  [I + 'serialisation/binary_archive.h', I + 'serialisation/serialisation.h', I + 'serialisation/types/boost_flyweight.h', I + 'serialisation/types/asio_and_boost_asio.h', I + 'bounded_string.h'], [('archive and vector streams', I + 'serialisation/')])
P('C17', 'Byte/string/number conversions are exact inverses',
  'Converting between strings, byte vectors, fixed arrays and integers preserves every byte in the documented order and length for every input, with both directions inverse to each other.',
  ['inputs'], 'all inputs up to the stated sizes', 'Tests convert a few literals.', [I + 'convert.h'], [('convert functions', I + 'convert.h')])
P('C18', 'Version strings and byte-size displays are exact',
  'A version of the form digits.digit.two-digits maps to the integer made of its parts (major*10000 + minor*1000 + patch) and anything else, or a version too large for the integer, to kInvalidVersion, without overflow; a byte count is displayed with the unit and rounding documented, monotonically and without arithmetic overflow, in both decimal and binary units.',
  ['inputs'], 'all version texts up to the stated length and all 2^64 byte counts', 'Tests check a table of values; rounding boundaries and 64-bit extremes are where it breaks.',
  [S + 'utils.cc', I + 'utils.h'], [('VersionToInt, BytesToDecimalSiUnits/BinarySiUnits', S + 'utils.cc')])
P('C19', 'Random data helpers honour the requested sizes and character sets',
  'Whatever the random source produces, the helpers return exactly the requested number of bytes/characters, drawn from the documented alphabet, a size asked for as a range from a minimum to a maximum (whichever, up to the whole 32-bit range) stays within it and can be either end; the exclusive-or of two texts combines them byte by byte and is refused when their lengths differ.',
  ['inputs'], 'all outputs of the random source (arbitrary values) and requested sizes up to the bound', 'Tests look at statistical samples; extreme source outputs and range ends are never hit deliberately.',
  [S + 'utils.cc', I + 'utils.h'], [('RandomString, RandomAlphaNumericString, RandomBytes', S + 'utils.cc')])
P('C20', 'Locked-memory allocation keeps pages locked while any secret lives on them',
  'For any sequence of allocations and releases through the locking allocators, every page touched by a live block stays locked until the last block on it is released, then is unlocked exactly once, released memory has been wiped, and arithmetic on sizes never wraps.',
  ['histories', 'inputs'], 'all allocate/release sequences up to the stated length with arbitrary sizes and placements', 'Page sharing depends on addresses the allocator happens to return; tests cannot steer it.',
  [I + 'authentication/detail/safe_allocators.h'], [('page reference counts, wiping deallocators', I + 'authentication/detail/safe_allocators.h')])
P('C21', 'Secure input keeps characters in position order whatever the order of edits',
  'After any sequence of inserts, removals and clears at any positions, the finalised secret consists of exactly the characters present, in position order; finalising succeeds exactly for gapless text of a permitted length and character set, reading what is not finalised is refused, an edit after finalisation reopens the text, and an edit that is refused changes nothing.',
  ['histories', 'inputs'], 'all edit sequences up to the stated length with arbitrary positions and text', 'No stable test covers it; edit orders are combinatorial.',
  [I + 'authentication/detail/secure_string.h'], [('SecureInputString Insert/Remove/Clear/Finalise', I + 'authentication/detail/secure_string.h')])
P('C22', 'Immutable data accepts only content that matches its name',
  'Content-addressed data can be constructed or parsed only if its name is the digest of its content, so every initialised instance satisfies that relation; mutable data keeps the name and value it was given; uninitialised instances refuse access, copies, moves and serialisation preserve both fields, and input that is refused leaves no instance whose fields do not belong together.',
  ['inputs'], 'all contents and names up to the stated size, digest treated as an arbitrary function', 'Tests use real digests of a few strings; mismatching names near equality are not sampled.',
  [S + 'data_types/immutable_data.cc', S + 'data_types/mutable_data.cc', S + 'data_types/data.cc'], [('Validate, constructors, load', S + 'data_types/immutable_data.cc')])
P('C23', 'Message framing delivers exactly the sent messages in order or closes',
  'Whatever way the byte stream is split and whatever it contains, the receiver passes on exactly the framed messages in order, never one larger than the limit, closes on malformed sizes or errors, reports closing exactly once, outgoing messages are framed so that the receiving side recovers them, and oversized sends are refused. Connecting and listening use IPv6 or, where that is not supported, IPv4; a listener takes the first free port from the wanted one upward in the documented range and hands on every accepted connection until it is stopped.',
  ['inputs', 'fault_sequences'], 'all header values beyond the limit, the stated message sizes, every error position and every order of completions', 'Tests exchange well-formed messages over loopback; malformed headers and failures are not exercised.',
  [S + 'tcp/connection.cc', I + 'tcp/connection.h', S + 'tcp/listener.cc'], [('EncodeData/ReadSize/ReadData/DoSend', S + 'tcp/connection.cc'), ('StartListening/HandleAccept/StopListening', S + 'tcp/listener.cc')])
P('C24', 'Database transactions are rolled back unless committed, under every failure',
  'Whatever results the database engine returns, a transaction that was not successfully committed is rolled back when it goes out of scope, a committed one is not, every failing call is reported as the database error, busy results are retried within the documented limit, and statements are finalised and handles closed exactly once.',
  ['fault_sequences', 'histories'], 'all result codes of every database call in the bounded call sequences', 'Real databases do not fail on demand; tests only see success paths.',
  [S + 'sqlite3_wrapper.cc', I + 'sqlite3_wrapper.h'], [('Transaction, Statement, Database', S + 'sqlite3_wrapper.cc')])
P('C25', 'Command lines handed to child processes keep every argument intact',
  'The command line built for a child process consists, for every argument list, of the program in quotes (added unless it already begins with one) and every further non-empty argument, unchanged, in order and separated by one blank, without reading outside any argument; whether a process runs, does not, or cannot be told is reported as the operating system says; a neighbouring executable is looked for beside this one with its extension.',
  ['inputs'], 'all argument lists up to the stated number and length', 'Tests launch one well-formed command.', [S + 'process.cc', I + 'process.h'], [('ConstructCommandLine/ConcatenateArguments', S + 'process.cc')])
P('C26', 'Command-line menus and tokenising act on exactly what was typed',
  'For every input line the interactive front end splits the words as documented and either performs exactly the selected entry or asks again; out-of-range choices and malformed numbers never select an entry or index outside the menu.',
  ['inputs'], 'all input lines up to the stated length', 'Tests use two or three fixed lines.', [S + 'cli.cc', I + 'cli.h', S + 'menu.cc', S + 'menu_item.cc'], [('TokeniseLine, Menu loop, MenuItem::Child', S + 'menu.cc')])
P('C27', 'Scope-exit actions run exactly once unless released',
  'An action registered for scope exit runs exactly once when the scope ends, by return or exception, and not at all once released; the strong-guarantee variant restores the guarded value exactly, and failures inside an action never escape.',
  ['histories', 'inputs'], 'all orders of register/release/throw with arbitrary guarded values', 'Tests try each path once.', [I + 'on_scope_exit.h', I + 'make_unique.h'], [('on_scope_exit', I + 'on_scope_exit.h')])
P('C28', 'Clock readings carry full resolution and never mix epochs',
  'The project clock reports exactly the reading of the operating system clock, converted to its own tick without loss, sign change or overflow for any time in the representable range.',
  ['inputs'], 'all operating-system clock readings in range', 'Tests compare two readings taken now.', [S + 'clock.cc', I + 'clock.h'], [('Clock::now', S + 'clock.cc')])
P('C29', 'Profiling totals equal the sum of the recorded intervals per location',
  'Each profiled interval is added exactly once to its own location, counts, totals and averages are exact for any sequence of readings and any nesting, and concurrent recorders lose nothing.',
  ['histories', 'schedules'], 'all sequences of clock readings up to the stated length and interleavings of two recorders', 'Timings are non-deterministic; tests do not check totals.', [S + 'profiler.cc', I + 'profiler.h'], [('Profiler::AddEntry/ProfileEntry', S + 'profiler.cc')])
P('C30', 'Messages for the visualiser carry their fields intact, whatever they contain',
  'The vault-stopped message is percent-encoded so that only unreserved characters appear literally and decoding each of its five fields gives back exactly the original bytes. Every other message is sent to the server once, as a well-formed object from which each field (time, vault, session, action number, values, persona number if any) reads back, identities as hex; and written once to the file as one comma-separated line with names and abbreviated identities. Values outside the enumerations and missing identities are refused with the documented errors, and nothing is sent without a session.',
  ['inputs'], 'all field contents up to the stated lengths, all enumeration values', 'Tests need a server and only print sample messages for manual checking.', [S + 'visualiser_log.cc', I + 'visualiser_log.h', I + 'type_macros.h'], [('UrlEncode, SendVaultStoppedMessage, GetPostRequestBody, WriteToFile', S + 'visualiser_log.cc'), ('VisualiserLogMessage constructors', I + 'visualiser_log.h')])

P('C31', 'Log messages go where the options say, filtered by the level of their project',
  'Every project named on the command line or in the configuration file gets exactly its level, however the level is spelled and in any case; the catch-all level applies to the projects that are not named; the command line comes before the file. Arguments that are no log options are handed back in order behind the path of the program, help included. A message is logged if and only if its project (two directories above the last "maidsafe" of the path, else "common") has a level and it is not above that of the message; it then goes, with its level letter, its time to the full resolution of the clock, file and text, to the console unless switched off, to the combined file and to the file of its project, whole, once and, per thread, in order; files are only written below a usable log folder, and colours only appear on a terminal that has them and only if asked for. The visualiser is set up once only; what is sent to its server is one well-formed request with the length of the message, the connection is made again when it is lost, and no reply makes sending throw.',
  ['inputs', 'schedules'], 'all option combinations, paths and levels up to the stated sizes; all schedules of two logging threads within the preemption bound', 'Tests of logging are run by eye: nothing checks which messages come out where.', [S + 'log.cc', I + 'log.h'],
  [('option parsing, level lookup', S + 'log.cc'), ('LogMessage::ShouldLog, Log, SetStreams', S + 'log.cc'), ('LogMessage, TestLogMessage, LOG', I + 'log.h')])
P('C32', 'Cryptographic front ends use exactly what they are given and validate it first',
  'Symmetric encryption uses the first 32 bytes of the key text as key and the last 16 as initialisation vector; decrypting gives the text back, and altered or shortened text or another key fails with the documented error. Digests cover the whole input, key derivation uses the password, the salt followed by the label and 10000 + pin mod 10000 rounds; compression round-trips at levels 0 to 9 only. Sharing and dispersal accept only 2 <= threshold <= shares, shares >= 3, and any threshold-many shares in any order give the data back. Obfuscation XORs every byte with the derived key stream, so twice is the identity. Uninitialised arguments, missing credentials, an empty set of shares and failing primitives give the documented errors.',
  ['inputs'], 'all argument lengths and contents up to the bound, primitives treated as given functions', 'Tests use a few random sizes with the real primitives; the validation boundary is not enumerated.', [S + 'crypto.cc', I + 'crypto.h', S + 'authentication/user_credential_utils.cc'], [('SymmEncrypt/Decrypt, Compress, sharing and dispersal', S + 'crypto.cc'), ('CreateSecurePassword, Hash', I + 'crypto.h'), ('Obfuscate', S + 'authentication/user_credential_utils.cc')])
P('C33', 'Small files are written and read back whole or an error is reported',
  'Writing content to a file and reading it back yields exactly that content, and whenever the operating system delivers a short or failing operation the caller is told instead of receiving truncated data.',
  ['fault_sequences', 'inputs'], 'all outcomes of the file operations in one write or read', 'Disks do not fail in tests.', [S + 'utils.cc', I + 'utils.h'], [('ReadFile/WriteFile', S + 'utils.cc')])
P('C39', 'Data file names and time stamps encode their values reversibly',
  'The file name made from a data name and type gives back exactly that name and type, for every 64-byte name and every 32-bit type; a point in time turned into a time stamp and back is the same point to the stated resolution.',
  ['inputs'], 'all types in the stated ranges, names with arbitrary bytes, all time stamps in the stated range', 'Tests use a few names and the current time only.',
  [S + 'utils.cc', S + 'data_types/data.cc', I + 'utils.h'], [('GetFileName / GetDataNameAndTypeId, GetTimeStamp / TimeStampToPtime', S + 'utils.cc')])
P('C37', 'The running program\'s location is recorded once and reported exactly',
  'The recorded executable path is the one the operating system reports, or else the one the program was started with, made absolute; the first recording wins, the directory is its parent, asking before any recording fails with the uninitialised error, and no length of path makes the recording read or write outside its buffer.',
  ['inputs', 'fault_sequences'], 'all outcomes of the system call and all path texts up to the stated length', 'Tests only see the one path of the test program; a failing or over-long link never occurs.', [S + 'config.cc', I + 'config.h'], [('SetThisExecutablePath, ThisExecutableDir', S + 'config.cc')])
P('C38', 'Stopping the service thread pool ends every thread once, for every caller',
  'A pool runs on exactly the requested number of threads; stopping it lets already posted tasks run exactly once, returns only after every thread has ended, may be repeated or requested by several threads at once without blocking for ever, and is refused from inside the pool with the documented error and no other effect.',
  ['schedules', 'histories'], 'all interleavings of the stated numbers of threads, tasks and stoppers', 'The test stops from one thread only; refusals and concurrent stops are never scheduled.', [I + 'asio_service.h'], [('IoService::IoService, IoService::Stop', I + 'asio_service.h')])
P('C40', 'Application directories lie below the home directory or are reported missing',
  'The home directory is that of the account of the calling user, else the one HOME names, else an empty path; the directory of an application for a user lies below it, or is empty when there is none. Users without an account entry and an environment without HOME are no reason to fail.',
  ['inputs'], 'all contents of the account entry and the environment up to the bound', 'Tests run as a user that has both.', [I + 'application_support_directories.h'], [('GetHomeDir, GetUserAppDir', I + 'application_support_directories.h')])
P('C34', 'AES, RSA, PBKDF and dispersal arithmetic are cryptographically correct',
  'Encrypting then decrypting with the same key yields the plain text, signatures verify for exactly the signed data and key, and dispersed shares reconstruct the data.',
  ['inputs'], 'all keys and messages', 'Cryptographic correctness ranges over all keys.', [S + 'crypto.cc', S + 'rsa.cc'], [('Crypto++ primitives', S + 'crypto.cc')],
  na='The deciding code is the third-party Crypto++ library (AES key schedules, big-integer exponentiation), installed only as a binary; encoding 2048-bit modular exponentiation or full AES for an SMT solver with symbolic keys is out of reach.')
P('C35', 'Inter-process messages arrive in the receiving process unchanged',
  'Strings placed in a shared-memory segment by one process are read by another process exactly and in order, and removing the segment makes it unavailable.',
  ['inputs', 'histories'], 'all string lists', 'Needs two processes; tests use one list.', [S + 'ipc.cc', I + 'ipc.h'], [('boost interprocess segments', S + 'ipc.cc')],
  na='All behaviour is delegated to Boost.Interprocess allocators running inside an mmap-ed kernel object shared between processes; the engine has no model of multi-process shared memory, and a stub would replace everything the property is about.')
P('C36', 'Listening sockets pick a usable port and hand over every accepted peer once',
  'Starting a listener succeeds on the first free port at or after the preferred one, each accepted peer is reported exactly once, and stopping it ends reports.',
  ['schedules', 'fault_sequences'], 'all accept outcomes and stop timings', 'Network failures and races are not produced by tests.', [S + 'tcp/listener.cc', I + 'tcp/listener.h', I + 'asio_service.h'], [('Listener, AsioService', S + 'tcp/listener.cc')],
  na='The code is a thin layer over the asio reactor and kernel sockets; deciding it needs a model of epoll, the asio scheduler and its lock-free internals, which the engine does not have.')
