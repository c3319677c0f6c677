#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, PG, PP, HF = 'filehash/ffdb_hash.c', 'filehash/ffdb_page.c', 'filehash/ffdb_pagepool.c', 'filehash/ffdb_hash_func.c'
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe or [], state=state or []))

prop('C01', 'The database behaves as a map from keys to data',
  'Over any history of stores, replacements, refused stores and lookups on an open database, a lookup returns exactly the bytes last stored under that key, for every key size up to the maximum of the page size and every data size from empty to many pages, however many times the table has grown, and says "not found" for a key that was never stored. A store under an existing key replaces the data when the new data is not larger, and is refused with an error, changing nothing, when it is larger, when it is asked not to overwrite, or when the key is too large; a removal, which is not offered, does not report success. Data returned into a caller buffer fills at most that buffer, and a too small buffer is reported.',
  ['histories', 'inputs', 'configurations'], 'every history of operations, key and data size, page size from 512 to 65536 bytes, initial bucket count, hash and comparison function, cache size',
  'the tests insert one fixed shape of string keys with increasing numbers into one page size; splits, overflow chains, replacements and page boundaries of other shapes are never reached',
  [H, PG], [('put, get and replace of one key', H + ' _ffdb_hash_put/_ffdb_hash_get'), ('items, overflow pages and data pages', PG + ' _ffdb_add_item_on_page, _ffdb_add_data, _ffdb_replace_data'), ('table growth', H + ' _ffdb_expand_table, ' + PG + ' ffdb_split_bucket')],
  'model-based stateful property testing against an in-memory map', 'Generated histories only; the model is a std::map, and the comparison is exact after every operation.',
  observe=['return value, key and data of every put and get'])
prop('C02', 'What was stored is there, unchanged, after close and reopen',
  'When a database is closed without error and opened again, read-write or read-only, with any cache size and any page-moving setting, every key, its data, the user information and the configuration information are exactly what they were, and nothing else is there; opening with truncation gives an empty database. This holds over any number of sessions that each add or replace data, also when a cursor was still open at the close.',
  ['histories', 'configurations'], 'every history of sessions and of operations in them',
  'the tests close once and read back with the same settings; multi-session growth, page moving, and settings that differ between sessions are not reached',
  [H, PG, PP], [('header and page flush on close', H + ' _ffdb_hdestroy, _ffdb_hput_header'), ('reading the header back on open', H + ' __ffdb_hash_open'), ('page moving on close and open', PG + ' ffdb_rearrage_pages_on_close/_on_open')],
  'model-based stateful property testing over sessions', 'Generated histories only; the full contents are compared after reopening, by lookups and by traversals.')
prop('C03', 'A cursor visits every stored key exactly once',
  'A traversal with a cursor, forward or backward, returns every stored key exactly once together with its current data, then reports its end and goes on reporting it; a step back after steps forward, or the reverse, gives the neighbouring key in the same one order. Lookups, and replacements of data, made while the cursor is open do not disturb it, and several cursors on one database do not disturb each other. A caller buffer that is too small for a key or for data, and a kind of cursor or step that is not supported, is reported; no buffer is overrun.',
  ['histories', 'configurations'], 'every database content, every interleaving of cursor moves with lookups, replacements and other cursors on one thread',
  'the tests traverse once, forward, right after the load',
  [H, PG], [('cursor moves over buckets and overflow chains', PG + ' ffdb_cursor_find_by_key and helpers; ' + H + ' _ffdb_hash_cursor')],
  'model-based stateful property testing of cursors', 'Generated histories only; no key is inserted while a cursor is open.')
prop('C04', 'After a successful sync the file on disk is complete',
  'When flushing a database reports success, the bytes that are then in the file are by themselves a valid database with exactly the keys, data, user and configuration information of that moment: a copy taken then, as if the process were killed at that point, opens and reads back in full. This holds whatever operations, also failed and refused ones, came before, and with cursors in the middle of a traversal, and the session and those cursors go on unharmed afterwards.',
  ['histories', 'crash_points'], 'every history and every flush in it as the point where the process ends',
  'no test looks at the file between a flush and the close',
  [H, PP], [('flush of every dirty page and of the header', H + ' _ffdb_hash_sync; ' + PP + ' ffdb_pagepool_sync, ffdb_pagepool_sync_all'), ('dirty marking of changed pages', PG + ' ffdb_put_page calls')],
  'model-based stateful testing with a file snapshot at each flush', 'Process death after a flush, not loss of power: what was written is assumed to stay in the operating system.')
prop('C05', 'A read-only session never changes the file',
  'With a database opened read-only, every attempt to store or replace data, user information or configuration information is refused with an error, and reads, traversals, flushes and the close leave every byte and the length of the file as they were. All reads give the same answers as in a read-write session.',
  ['histories', 'configurations'], 'every file content and every history of operations on a read-only handle',
  'the tests never write through a read-only handle nor compare the file before and after',
  [H, PG], [('the write test of put and of the metadata setters', H + ' _ffdb_hash_put, ' + PG + ' ffdb_set_configs, ffdb_set_uinfo'), ('no flush for read-only handles', H + ' _ffdb_hdestroy')],
  'stateful property testing with a byte comparison of the file', 'Generated histories only.')
prop('C06', 'Moving pages on close loses nothing and never costs space',
  'Asking for unused pages to be reclaimed on close never changes any key, data or metadata, in this session, in later sessions that do or do not ask for it, and in later growth of the table. The file it leaves is never larger (beyond two pages) than that of the same history without it, and is smaller by the pages that could take the places of unused buckets.',
  ['histories', 'configurations'], 'every history of sessions with the setting on or off in each',
  'the test databases end at bucket counts where nothing or little is moved, and are never grown again afterwards',
  [PG, H], [('moving of data, overflow and free pages and of the links to them', PG + ' _ffdb_move_pages, ffdb_rearrage_pages_on_close/_on_open'), ('truncation of the file', H + ' _ffdb_hdestroy')],
  'model-based and differential stateful testing (with and without page moving)', 'Generated histories; both runs are compared with the model and their file sizes with each other.')
prop('C07', 'The size of the cache never changes an answer',
  'The same history of operations gives the same answers and leaves the same contents whatever cache size is chosen, from smaller than one page to far larger than the file.',
  ['histories', 'configurations'], 'every history, every cache size',
  'the tests use caches of megabytes with files that fit',
  [PP], [('eviction with write back, pinning, lookup of cached pages', PP + ' _ffdb_pagepool_reuse_bkt, ffdb_pagepool_get_page, ffdb_pagepool_put_page')],
  'differential stateful testing over cache sizes, each against the model', 'Generated histories, five cache sizes each.')
prop('C09', 'Damage in the file is never returned as data',
  'When bytes of a closed database file have been changed - in the header, in a page in use (up to a page that holds the contents of another one), or inside a stored datum - reading it through lookups and traversals, or through a store class, either reports an error (an error status, a refused open, or the end of the process with a message) or returns exactly the data that was stored: damaged bytes are never returned as success. Each read ends, and never ends in a memory fault.',
  ['inputs', 'fault_sequences'], 'every database and every change of bits, bytes, ranges or checksum fields inside the header, a page in use or a datum',
  'no test reads a damaged file',
  [PG, H, 'filehash/ffdb_db.c'], [('page checksum on read', PG + ' ffdb_pgin_routine'), ('header checksum on open', H + ' __ffdb_hash_open'), ('checksum of multi-page data', PG + ' _ffdb_get_data')],
  'generated databases with injected damage, against the model', 'Damage that turns a whole page into zeros, or cuts the file, reads as never written and is not part of the claim, nor is a page replaced by an older version of itself; a 32-bit checksum can be missed with probability 2^-32 by scattered changes.', level='fault_enumeration')
prop('C10', 'A file written on a machine of the other byte order works the same',
  'A database file whose integers are in the byte order of the other kind of machine opens, and gives every key, data, user and configuration information unchanged; stores, replacements, growth, flushes and page moving on it work as on a native file, and it stays a file of its own byte order.',
  ['inputs', 'histories'], 'every database content, and every history of operations on the converted file',
  'the tests only see files written and read on the same machine',
  [PG, H], [('conversion of page contents on read and write', PG + ' ffdb_pgin_routine, ffdb_pgout_routine'), ('conversion of the header', H + ' _ffdb_swap_header')],
  'stateful testing on files from an independent byte-order converter', 'The converter is written from the layout in the headers; generated contents and histories.')
prop('C11', 'Files of the previous format version still work',
  'A database file of format version 5 opens and gives every key, data, user and configuration information unchanged; stores, replacements, growth, flushes and page moving on it work, and every datum, old or new, reads back in full afterwards.',
  ['inputs', 'histories'], 'every database content, and every history of operations on the version 5 file',
  'no test contains a version 5 file',
  [H, PG], [('version test on open and version dependent data marks', H + ' __ffdb_hash_open; ' + PG + ' BIG_DATA status handling')],
  'stateful testing on files from an independent version 5 converter', 'The converter is written from the layout in the headers; generated contents and histories.')
prop('C12', 'Files follow the documented layout, checked by an independent reader',
  'Every file the library leaves after a close is a valid file of the documented layout: an independent reader finds every page checksum and signature right, every bucket chain and data chain properly linked and ended, each key in the bucket its hash value addresses, each datum with its length, checksum and back reference, the free page lists consistent with pages not in use (none in use is listed, none listed twice, and but for a page per doubling of the table, and what smaller replacements leave over, each one not in use is listed), and the number of keys right. The contents it decodes are exactly what was stored.',
  ['histories', 'configurations'], 'every history of operations and sessions',
  'the tests only read files with the code that wrote them, so that a writer and reader that agree on a wrong layout pass',
  [PG, H, 'filehash/ffdb_page.h', 'filehash/ffdb_hash.h'], [('page and item layout', 'filehash/ffdb_page.h'), ('checksums on page write', PG + ' ffdb_pgout_routine'), ('linear hashing address', H + ' _ffdb_call_hash')],
  'independent decoder over generated histories', 'The decoder is written from the layout in the headers, not from the reading code.')
prop('C13', 'User and configuration information read back as set',
  'User information of any size up to the declared maximum, and the list of configurations, read back byte for byte as last set: at once, after a flush, and after any number of closes and reopens, for every page size and every declared maximum, also when they span several pages. Setting one configuration changes only that one; values over the declared maximum, unknown configuration numbers and a wrong number of configurations are refused and change nothing. They never disturb keys and data, nor the other way round.',
  ['histories', 'inputs', 'configurations'], 'every size and number of configurations and every history of setting, storing and reopening',
  'the tests set one short text and a handful of configurations that fit in one page',
  [PG, H], [('reserved pages for user and configuration information', PG + ' ffdb_set_uinfo, ffdb_get_uinfo, ffdb_set_configs, ffdb_set_config_info'), ('their sizes in the header', H + ' __ffdb_hash_open')],
  'model-based stateful property testing', 'Generated histories, sizes chosen around page boundaries.')
prop('C14', 'No memory is accessed outside what the caller and the library own',
  'No operation of the database interface - open, store, replace, lookup, traversal, flush, close, user and configuration information - or of the store classes built on it reads or writes outside the caller\'s buffers or the library\'s own live memory, or uses memory after it was freed, for any history, key and data size, page size and cache size. Key and data buffers may be exactly as large as declared, at the end of mapped memory.',
  ['histories', 'inputs', 'configurations'], 'every history of operations, with exact-size buffers, and every program of typed stores, ensembles, stacks and merges',
  'the tests run without sanitizers, with rounded buffers and one page size',
  [PG, PP, H], [('copying of keys and data to and from pages', PG), ('cache blocks and their reuse', PP)],
  'stateful property testing under AddressSanitizer and UBSan', 'Generated histories; the sanitizers find accesses outside blocks, after free and undefined arithmetic, not every wrong access.')
prop('C22', 'Under failing reads and writes success is only reported when it is true',
  'When reads or writes of the database file fail or are cut short, at any point and for any number of calls, a lookup or traversal never returns wrong data or misses a stored key as if that were success, and a flush or close that reports success really has everything in the file. Failures are reported by an error status, by an exception of the classes, or by the end of the process with a message, never by a memory fault; the typed store classes hold to the same.',
  ['fault_sequences', 'histories'], 'every history and every placement of failing (EIO, ENOSPC) or short reads and writes',
  'no test injects a failing system call',
  [PP, H, PG], [('results of page reads and writes', PP + ' _ffdb_pagepool_write, _ffdb_pagepool_load_new_page'), ('errors of flush and close', H + ' _ffdb_hdestroy, _ffdb_hash_sync'), ('errors of page fetches in splits and inserts', PG + ' ffdb_split_bucket')],
  'stateful testing with injected system call failures', 'reads and writes of the database file fail or are short, truncation fails, also during reopening; a change that itself reported failure ends the judged history, as does an open that failed while moving pages back.', level='fault_enumeration')
prop('C23', 'Databases open at the same time do not affect each other',
  'Several databases open in one process, with different page sizes, hash functions, cache sizes and contents, each behave as if alone under any interleaving of operations on them, including opening and closing some while others are in use.',
  ['histories', 'configurations'], 'every interleaving of histories of up to four databases on one thread',
  'the tests open one database at a time, or several of identical shape',
  [H, PG, PP], [('state kept per handle', H + ' __ffdb_hash_open'), ('page pool per handle', PP + ' ffdb_pagepool_create')],
  'model-based stateful property testing over several handles', 'Generated histories; one thread.')
prop('C24', 'Files that are not proper databases are refused and left alone',
  'Opening something that is not a database of this library - an empty or short file, foreign bytes, a header with damaged or unsupported contents, or a database created with another hash function - is refused: no handle is returned (or, for a header with a wrong checksum, the process ends with a message), and the file is left byte for byte as it was. Opening a missing file without asking for its creation is refused and creates nothing, as are unsupported settings such as page sizes out of range; the store classes refuse the same.',
  ['inputs', 'configurations'], 'every such file and setting',
  'the tests only open files the library wrote itself, with the settings they were written with',
  [H, 'filehash/ffdb_db.c'], [('tests of the header on open', H + ' __ffdb_hash_open'), ('stored value of the hash of a known string', H + ' charkey test')],
  'generated foreign files and settings, with a byte comparison of the file', 'Generated files only.')

exec(open(os.path.join(V, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more.py')) else None
P.sort(key=lambda p: p['id'])
for p in P:
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']: a['observe_at'] = p['observe']
        if p['state']: a['state'] = p['state']
        a['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [
      {'property': p['id'], 'quick_cmd': 'bash run.sh check %s quick' % p['id'], 'thorough_cmd': 'bash run.sh check %s thorough' % p['id'],
       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P],
     'not_applicable': [], 'notes': 'No hooks in /repo: failing system calls are interposed at link time (--wrap) in /verif.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
