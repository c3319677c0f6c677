CS, AC, SER = 'src/ConfDataStoreDB.h', 'src/AllConfStoreDB.h', 'src/Serializable.h'
prop('C15', 'Serial forms of keys, data and number vectors round-trip and are checked',
  'Writing a string key, a user datum or a vector of numbers to its serial form and reading it back gives an equal object, for every length and every byte and bit pattern, whatever the receiving object held before; the serial form is marker, type and contents as documented, and writing again gives the same bytes. Reading bytes that are not a serial form of that type - too short, a wrong marker or type, a length that does not match - throws the documented exception and never reads outside the bytes given. Copies, assignments and comparisons agree with the contents.',
  ['inputs'], 'every key, datum and vector, every byte string offered as a serial form',
  'the tests serialise a few short printable strings and vectors, and never offer damaged bytes',
  ['src/DBString.cpp', 'src/VFloatData.cpp', 'src/FileDB.cpp', SER], [('writing and reading of string keys and data', 'src/DBString.cpp StringKey::readObject, UserData::readObject'), ('number vectors in network byte order', 'src/VFloatData.cpp VFloatData::writeObject/readObject')],
  'generated round trips and mutated serial forms against an independent encoder, under AddressSanitizer and UBSan', 'Generated inputs only; padding bytes of the vector form are not judged.')
prop('C16', 'A typed store behaves as a map from key objects to data objects',
  'Over any history of inserts, replacements, lookups, existence tests, listings, flushes, user data, closes and reopens, through key objects, serial keys or binary pairs, a store returns for each key exactly the datum last stored, lists every key and pair exactly once, and says that what was never stored is not there; keys that their own type calls equal are one key. Inserts into a read-only store, and data that are no serial form of the data type, are reported and never returned as success; a store that is not open, or no longer, refuses or returns nothing and does not end the process. What it holds survives close, reopening, flushing plus loss of the process, and page moving.',
  ['histories', 'inputs', 'configurations'], 'every history on the ordinary and the simple store class, every key and data size, page, cache and bucket setting, a key type with its own hash and comparison',
  'the tests store one shape of key and datum, with settings of one kind, and read them once',
  [CS, 'src/ConfDataStoreDBSimple.h', 'src/DBFunc.h', 'src/DBFunc.cpp', 'src/DBCursor.cpp', 'src/DBCursor.h'], [('typed insert and lookup', 'src/DBFunc.h insertData, getData, keyExist'), ('listing of keys and pairs', 'src/DBFunc.h allKeys, allPairs; src/DBFunc.cpp binaryAllPairs'), ('opening with the key type\'s hash and comparison', 'src/DBFunc.h openDatabase')],
  'model-based stateful property testing of the store classes', 'Generated histories against a map; one thread.')
prop('C17', 'An ensemble database keeps one datum per configuration for each key',
  'Over any history of ensemble inserts, updates of one member, lookups, listings, iteration, configuration records, flushes and reopens, a lookup gives for each key exactly one element per configuration, in order, each as last stored; updating one member changes that member alone. Ensembles of unequal elements, members out of range or of another length, unknown configurations, all changes of a read-only or closed database, and opening it for a number of configurations it does not have are refused and change nothing. The configuration records read back as set, in this session and after reopening.',
  ['histories', 'inputs', 'configurations'], 'every history, number of configurations, element size (also larger than pages), page, cache and page moving setting',
  'the tests create and read a fixed number of ensembles of one shape, without refused operations or reopening in between',
  [AC, 'src/AllConfStoreDB.cpp', 'src/ConfigInfo.cpp', 'src/ConfigInfo.h'], [('splitting and joining of ensembles', AC + ' insert, get, update'), ('configuration records', AC + ' setConfigInfo, getAllConfigInfo')],
  'model-based stateful property testing of the ensemble class', 'All ensembles of one database have elements of one size, as the class requires.')
prop('C18', 'A stack of databases answers as its first database that has the key',
  'With several databases opened together, a lookup, typed or binary, returns the datum of the first one in the given order that has the key, says that a key of none of them is not there, and existence agrees with it; listings give the keys of all of them; user data and the number of configurations are those of the first. A missing file among them makes opening fail and is reported as missing.',
  ['inputs', 'configurations', 'histories'], 'every set of one to four databases with overlapping keys in every order, and every history of lookups, listings, closes and reopens',
  'no test opens more than one database through these classes',
  ['src/ConfDataStoreMultipleDB.h', 'src/AllConfStoreMultipleDB.h'], [('search in order', 'src/ConfDataStoreMultipleDB.h get, getBinary, exist'), ('search in order for ensembles', 'src/AllConfStoreMultipleDB.h get')],
  'generated sets of databases against a model of ordered maps', 'Generated contents; both store kinds.')
prop('C19', 'Merging gives each key the data of every configuration at its place',
  'Merging one database per configuration into an ensemble database gives, for every key, one element per configuration, each being the datum of that configuration\'s own database, whatever the order of keys in the files, the memory limit of the merge, and repeated merges into the same database with changed inputs. Configurations without a database are skipped and stay recorded as not inserted; the others are recorded with their number, place, file and time. Nothing is lost when the merged database is closed and reopened; a merge that cannot be complete, because a key or a database of a configuration is missing or data cannot be stored, is reported (by an exception or the end of the process with a message) and does not end as if it were.',
  ['inputs', 'configurations', 'histories'], 'every number of configurations and keys, data size, set of absent configurations and memory limit',
  'the tests merge a few equal databases once, in one memory portion',
  ['src/ConfDataDBMerger.h', 'src/ConfDataDBMerger.cpp', AC], [('merge in portions that fit the memory limit', 'src/ConfDataDBMerger.h merge'), ('configuration records after a merge', AC + ' setConfigInfo')],
  'generated sets of databases against a model of the merged contents', 'All data are of one size, as the ensemble class requires; keys the first configuration does not have are not part of the claim.')
prop('C08', 'Threads reading and replacing through one handle see only stored data',
  'When several threads use one open database at once, each lookup returns bytes that were stored under that key as a whole, never older than the last replacement finished before it began, absent keys are reported absent, and each traversal, forward or backward, gives every key exactly once; replacements by different threads of different keys all take effect and are there after the close, and flushes, and user and configuration information read or set by one of them, go on among them as if alone. Threads that each use a database of their own do not affect each other. No thread waits for ever, and no memory is accessed by two threads without synchronisation.',
  ['schedules', 'histories'], 'every interleaving of lookups, traversals, openings and closings of cursors and replacements by up to eight threads on every database and cache size',
  'the one threaded test program is not run by the test suite, and tests sample one schedule on a quiet machine',
  [PP, H, PG], [('the lock of the page cache, pinning and waiting for a page', PP + ' ffdb_pagepool_get_page, ffdb_pagepool_put_page'), ('the list of open cursors', H + ' _ffdb_hash_cursor, _ffdb_cursor_close')],
  'randomised schedules (seeded delays at every lock) of generated thread programs, with a version oracle per key, and again under ThreadSanitizer', 'Sampled schedules; no thread stores new keys while others use the handle, a thread with an open cursor makes no lookups, one thread replaces a given key.')
prop('C20', 'Checksums, hash functions, key order and byte-order helpers are exact',
  'For every byte string the checksum functions give its CRC-32, in one part or in several, and each of the published hash functions, on which stored files depend, gives the value of its published definition. The default key comparison is the order of bytes and then of length, the byte-order conversions reverse the bytes and undo themselves, the rounded-up binary logarithm and the number-to-text conversion are exact, and the file helpers give the part of a name before its last slash and whether a file exists. None of them reads outside or changes its input.',
  ['inputs'], 'every byte string of any length and alignment, every number, every pair of keys, every file name',
  'the tests use these functions on short printable keys only, and compare with no independent definition; a changed hash function still reads the files it wrote itself',
  [HF, 'src/HashFunc.cpp', 'src/FileDB.cpp', 'src/DBFunc.cpp'], [('hash functions, key comparison and checksum of the database', HF + ' __ham_func2 to __ham_func5, __ham_defcmp, __ffdb_crc32_checksum, __ffdb_log2'), ('hash functions of the class library', 'src/HashFunc.cpp RSHash, JSHash, PJWHash, ELFHash, BKDRHash, SDBMHash, DJBHash, DEKHash, BPHash, FNVHash, APHash, db_hash_func'), ('checksum, byte order and text', 'src/FileDB.cpp crc32, hton_int, ntoh_int, itostr'), ('file names', 'src/DBFunc.cpp unixDirectoryName, fileExists')],
  'differential testing of generated inputs against independent definitions, under AddressSanitizer and UBSan', 'Generated inputs; characters are signed and integers little-endian, as on this platform.')
prop('C25', 'The page cache keeps every page and lends each to one thread at a time',
  'Over any history of making, getting, changing, giving back, renumbering and dropping pages, with a cache of any size, a page always reads as it was last given back, pages in use stay where they are and are not touched by anything else, new pages get numbers of no existing page, and a flush or close that reports success leaves every page not in use in the file as last given back. A page that one thread has got is not given to another until it is given back, so no change is lost among threads. Pages of a read-only file are not given out for change, failing reads and writes are reported and lose no page that is still in the cache, and an opening that cannot be done is reported and leaves nothing open.',
  ['histories', 'schedules', 'configurations', 'fault_sequences'], 'every history of page operations, cache size, page size, page filter, interleaving of threads and placement of failing reads and writes',
  'no test uses the page cache directly; through the database it is only driven in the patterns of a growing hash table on one thread',
  [PP, 'filehash/ffdb_pagepool.h'], [('getting, giving back and waiting for pages', PP + ' ffdb_pagepool_get_page, ffdb_pagepool_put_page'), ('eviction', PP + ' _ffdb_pagepool_reuse_bkt'), ('renumbering and dropping', PP + ' ffdb_pagepool_change_page, ffdb_pagepool_delete'), ('flush in order of page numbers', PP + ' _ffdb_pagepool_sync_i, _ffdb_slist_merge_sort')],
  'model-based stateful property testing with injected faults, and threads with a counting oracle, again under ThreadSanitizer', 'Generated histories and sampled schedules; a number is asked for as new only when no page had it, and a thread holds one page at a time.')
prop('C21', 'Sizes and places beyond 4 GB are handled exactly',
  'Data of 4 GB and more are stored, replaced by data of any smaller size, refused when larger than what they replace, and read back with their exact length and bytes, by lookup into memory of the library or of the caller and by traversal, also after closing and reopening. In databases whose buckets, overflow pages or data lie beyond 2, 4 or more GB into the file, every key keeps exactly the datum last stored, as in small ones.',
  ['inputs', 'configurations', 'histories'], 'every data size up to the limit of the format and every place in files of any size',
  'the tests use files of a few megabytes; a length or a file offset cut to 32 bits shows only beyond 4 GB',
  [PG, 'filehash/ffdb_page.h', PP], [('length of a datum, with bits beyond 32 kept in the page offset and status', PG + ' _ffdb_add_data, _ffdb_replace_data, _ffdb_get_data'), ('file offset of a page', PP + ' _ffdb_pagepool_write, _ffdb_pagepool_load_new_page')],
  'model-based property testing on sparse files of up to 512 GB and with data of more than 4 GB', 'A few data of 4 GB per run for their cost (about 40 s each), many sparse files; damage within data of 4 GB is not claimed to be found, as their stored checksum covers only part of them.')
prop('C26', 'Memory stays within the cache limit, and closing releases everything',
  'However much is stored in or read from a database, the memory an open database holds stays within the cache limit asked for when opening (through any of the classes, and for each of several opened together), plus a small number of pages and fixed tables, during and after every operation. Closing releases all memory and every file descriptor of it. Programs over the classes of the library that close and destroy what they opened can be repeated in one process any number of times without using more memory or file descriptors, also where operations were refused or opening failed.',
  ['histories', 'configurations', 'programs'], 'every history of operations, cache limit, page size and file size, and every program over the store classes that releases what it was given',
  'the tests end their process after each use and measure no memory; a cache that no longer gives back pages or a lost block changes no result',
  [PP, H, AC, 'src/DBFunc.h', 'src/DBCursor.cpp'], [('eviction when the cache is full', PP + ' _ffdb_pagepool_reuse_bkt'), ('release on close', PP + ' ffdb_pagepool_close; ' + H + ' _ffdb_hdestroy'), ('configuration records of ensemble databases', AC + ' open, getAllConfigInfo'), ('memory of looked-up data', 'src/DBFunc.h getData')],
  'generated histories under small cache limits with an account of every allocation, and generated class programs repeated in one process', 'Generated histories; the allowance beyond the cache is 12 pages plus 3 for each open cursor; no read or write fails.')
