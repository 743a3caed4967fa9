# per property: (how it is decided / oracle, why it reaches what tests cannot)
M = {
'C01': 'Encode is compared with a nibble-by-nibble definition written in the harness; decoding any text either throws the documented error (odd length, non-hex character) or yields bytes whose encoding is the lower-cased text. Both string and byte-vector front ends.',
'C02': 'Encoding is compared with the RFC 4648 definition on bit level; decoding accepts exactly texts that are canonical encodings (up to the unused bits) and yields the bytes, everything else throws.',
'C03': 'Reference: the first 6 characters of the full encoding, "..", the last 6, or the whole encoding when it is not longer than 14.',
'C04': 'Construction succeeds iff the length lies within the bounds, otherwise the documented error; conversions, ordering, equality and XOR are compared with the plain containers; uninitialised and moved-from instances must report it.',
'C05': 'XOR distance comparison against a 64-byte big-endian reference; common leading bits against a bit-by-bit count; the three textual encodings against their definition and each constructor accepts exactly valid texts.',
'C06': 'All relational operators on pairs of symbolic values against the lexicographic order of the components; keys built by copy, move and serialisation.',
'C07': 'SipHash-2-4 written from the paper in the harness; all splits of a message into updates.',
'C08': 'Two symbolic values are hashed into a recorder of the byte stream given to the algorithm: equal values must give equal streams, different ones different streams (also for neighbours in nested containers, where missing lengths would make them collide).',
'C09': 'Reference cache as a list with time stamps, driven with the same symbolic operations and clock readings; content, order of eviction, expiry and return values compared after each operation.',
'C10': 'All interleavings; each task must run exactly once, in the order of each sender, in the worker thread, before the destructor returns, without deadlock.',
'C11': 'Histories against a std::deque reference; schedules: every element pushed is popped exactly once, per-producer order is kept and no waiter sleeps for ever.',
'C12': 'Reference model of a version history (a set of versions with parents, written from the interface documentation) driven with the same puts, deletions and limits; tips, branches, errors and the version which is removed compared.',
'C13': 'The stored form is restored and compared branch by branch, with one more operation on both; merging against the model; hostile stored forms either throw or give a history that satisfies the invariants and can be walked to the end.',
'C14': 'The buffer runs with its worker as an engine thread (std::async is a stand-in on engine threads), the files in memory and both limits symbolic. A model of items (every value carries a stamp) checks each get, delete, pop and written file; histories with the worker idle after each call include both limits being changed, and the schedule entries explore every interleaving within the stated number of preemptions; blocked stores and failing writes have entries of their own, where a thread that never goes on is a deadlock the engine reports.',
'C15': 'Round trip of every integer, distinctness of messages, conditions, categories; the tables are read from the code by calling it with symbolic integers.',
'C16': 'Round trip and consumption of exactly the bytes written; on truncation or hostile length fields an exception and no memory beyond the limit.',
'C17': 'Conversions of bytes, addresses (every field) and errors between the two library families there and back.',
'C18': 'Reference parser of the documented version format; unit selection and division compared exactly.',
'C19': 'The random source is arbitrary, so the solver decides that every output stays within the requested size/alphabet and that sizes at both ends occur.',
'C20': 'mlock and munlock record: a page is locked iff some live range covers it; released memory has been overwritten before being freed (free hook).',
'C21': 'Reference text editor with the same operations; what is stored in memory is only ciphertext, finalised input is immutable, values and comparisons agree with the reference.',
'C22': 'Parsed or constructed data have name == digest(value) for immutable data; failed parsing leaves the instance unchanged; copies, moves, swaps.',
'C23': 'Connection and Listener run on the asio stand-in: handlers and completions in any order. Messages arrive whole, once, in order; sizes beyond the limit end the connection; queued messages are written in order, one at a time; the closed callback is called once; no socket is used outside its strand or after its owner is gone.',
'C24': 'The database stand-in counts handles, statements, transactions and texts: exactly one commit or rollback, errors surface as exceptions, nothing leaks, retries end, bound data are the given ones.',
'C25': 'The command line is parsed back by the rules of the target shell convention (in the harness) into the arguments; process existence follows kill/errno.',
'C26': 'Reference tokeniser and menu session simulator over symbolic input lines; every line is handled, end of input ends the session.',
'C27': 'Actions run exactly once at the end of the scope, whichever way it is left, and not after release; revert restores the value; a failure at any copy while registering leaves the action run or not registered.',
'C28': 'All 2^64 clock readings: order preserved, conversions exact.',
'C29': 'Per-location totals against a reference; report numbers; all schedules of the background worker.',
'C30': 'The Logging object is replaced by a recorder; a form decoder and a JSON reader written in the harness recover the fields of what was sent, which must equal the symbolic inputs.',
'C40': 'getpwuid, getuid and getenv are stand-ins with arbitrary answers; the paths are compared with the rule written in the harness.',
'C31': 'log.cc is compiled with logging on against stand-ins for the option parser, terminal and files. Options are drawn symbolically and the resulting filter map, handed-back arguments, console text and file contents compared with a reference written in the harness; two threads logging at once run under all schedules.',
'C32': 'The Crypto++ headers are replaced by cryptopp_shim/ (same interface, invertible functions that notice a wrong key or text, record their parameters and can fail); the parameters each primitive gets and the results are compared with the definition in the harness.',
'C33': 'File content after a write is exactly the given content or failure is reported; reading returns the content or an error; at every fault position.',
'C34': '', 'C35': '', 'C36': '',
'C37': 'The path is found from the link or the start path exactly once; no write outside the buffer for any link length.',
'C38': 'All interleavings of stopping and tasks: every thread joined once, no deadlock, no task lost before an orderly stop.',
'C39': 'File name round trip and time stamp round trip.',
}
