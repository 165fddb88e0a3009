#!/usr/bin/env python3
"""writes ../properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


p('K01', 'Embedded stores behave as a map from byte keys to values',
  'On either embedded store, any sequence of set, get, exists, delete and write-batch calls on arbitrary byte keys and values returns exactly what an ideal map would: the last value set, with the tag and expiry given with it, or the key-not-found error. A value written without a time-to-live never expires and one written with it disappears when it has passed. A committed write batch applies all its operations in call order; a discarded one, unless it was larger than a transaction of the store can be, applies none.',
  ['inputs', 'histories'], 'every sequence of non-transactional calls, key, value, tag and TTL, on both providers',
  'TestProvider sets and reads one key with nil and empty values; no deletes, tags, TTLs, several keys, batches or long histories.',
  ['provider/badger.go', 'provider/badger_txn.go', 'provider/badger_wb.go', 'provider/leveldb.go', 'provider/leveldb_wb.go'],
  [('Badger.Set/Get/Exists/Delete', 'provider/badger.go'), ('Txn.Set/Get', 'provider/badger_txn.go'), ('LevelDB.*', 'provider/leveldb.go'), ('badgerWB, leveldbWB', 'provider/*_wb.go')],
  [('stored entry', 'value, tag and expiry of a key', 'the embedded store')], ['KVDB', 'ProviderWriteBatch'])
p('K02', 'Scans deliver exactly the matching keys, in order',
  'A scan delivers exactly the visible keys that have the given prefix and lie at or beyond the offset in the scan direction, each once, in ascending (or, reversed, descending) byte order with their current value and tag, until the callback declines. This holds for every combination of direction, prefix, offset and early stop, for keys of every length, after reopening the store, and inside a transaction, where its own pending writes and deletes are included. A scan that cannot deliver everything reports an error.',
  ['inputs', 'histories'], 'every population of keys, every prefix/offset/direction/stop, inside and outside transactions, in memory or in tables',
  'The tests only scan a handful of keys forward with a prefix, never reversed with a prefix, with an offset outside the prefix or after a flush.',
  ['provider/badger.go', 'provider/leveldb.go', 'provider/badger_txn.go'],
  [('scanByBadgerTxn', 'provider/badger.go'), ('LevelDB.Scan', 'provider/leveldb.go')], observe=['KVDB.Scan', 'ProviderTxn.Scan'])
p('K03', 'Transactions are isolated, conflict-checked and all-or-nothing',
  'A transaction sees the store as it was when it began plus its own writes, and nothing it writes is visible to anyone before it commits. Its commit fails with a conflict, and has no effect, exactly when it wrote something and a key it had read was changed by a commit that happened since it began; otherwise all its writes become visible at once. Discarded, failed and read-only transactions never change the store, and a write that no longer fits into a transaction is refused as too big and leaves the transaction as it was.',
  ['schedules', 'histories'], 'every interleaving of operations of several transactions, single operations and write batches',
  'TestBadger checks one conflict between two transactions; no other interleaving, no scans, no write batches or mixed single operations.',
  ['provider/badger.go', 'provider/badger_txn.go'],
  [('NewTransaction, Commit, Discard', 'provider/badger_txn.go'), ('single operations run in their own transaction', 'provider/badger.go')],
  [('transaction', 'snapshot, pending writes and read set', 'badger.Txn')], ['ProviderTxn'])
p('K04', 'Acknowledged writes survive close, crash and a torn log tail, atomically',
  'After closing or crashing at any point the store can be opened again and contains every write, batch and transaction whose call had returned successfully. Of an operation that had not returned, either everything or nothing is there. This includes a crash that cuts the log at an arbitrary byte.',
  ['crash_points', 'histories'], 'every history of commits and every crash point, including every byte position at which the log may be cut',
  'No test reopens a store; crash images and torn logs are never tried.',
  ['provider/badger.go', 'provider/leveldb.go', 'provider/badger_wb.go', 'provider/leveldb_wb.go'],
  [('Open options', 'provider/badger.go, provider/leveldb.go'), ('synchronous commit', 'badger.Txn.Commit'), ('atomic batch write', 'leveldbWB.Commit')], observe=['KVDB.Open', 'KVDB.Close'])

p('R01', 'Remote single operations behave as the local store',
  'Through the network client, set, get, exists, delete and scan outside a transaction, for every byte key, value, tag and time-to-live, have the same effect and return the same result (values, tags, expiry, order, not-found) as the same call on the server\'s store. A scan returns at most the given limit of entries (at most 1000), starting from the first match; a limit that is not positive yields nothing and one above 1000 counts as 1000. An operation the server\'s store fails is reported as an error.',
  ['inputs', 'histories'], 'every sequence of calls of one or several clients, all argument bytes, every scan option',
  'TestMondis is not among the reliable tests and only performs a few calls with fixed text keys.',
  ['client/client.go', 'server/cmd_set.go', 'server/cmd_get.go', 'server/cmd_exists.go', 'server/cmd_delete.go', 'server/cmd_scan.go', 'server/common.go'],
  [('request encoding and response parsing', 'client/client.go'), ('command handlers', 'server/cmd_*.go, server/common.go'), ('wire format', 'pb/mondis.pb.go')], observe=['mondis.Client'])
p('R02', 'Remote transactions behave as local transactions',
  'Inside a remote transaction every sequence of set, get, exists, delete and scan gives the same results and, once committed, the same effect as on a local transaction: each request is answered from its own arguments only, never from those of an earlier request. Conflicts are reported, to the committing client only, exactly when the local store would report them; an update whose function returns an error leaves no effect.',
  ['histories', 'schedules', 'inputs'], 'every sequence of operations in a transaction and every interleaving of the transactions of several clients',
  'TestMondis (not reliable) runs a single set in a transaction; sequences of requests on one stream are never exercised.',
  ['client/client_txn.go', 'server/common.go', 'server/cmd_set.go'],
  [('handleTxnContinuedFrame', 'server/common.go'), ('Txn.*', 'client/client_txn.go')], observe=['mondis.Client.Update', 'mondis.Client.View'])
p('R03', 'Broken remote sessions never corrupt data, others or the server',
  'When a client disconnects, aborts, or sends undecodable or incomplete requests, whatever it had not committed is discarded and the server keeps serving all other sessions correctly. A read-only remote transaction never changes the store. When the server goes away, pending and later client calls return an error instead of panicking or reporting success.',
  ['fault_sequences', 'inputs', 'schedules'], 'every point at which a session can break and every malformed request frame',
  'No test disconnects a client, kills the server or sends a malformed frame.',
  ['server/common.go', 'server/server.go', 'client/client_txn.go', 'client/client.go'],
  [('decode error paths and txn.Discard', 'server/common.go'), ('nil frame on disconnect', 'client/client_txn.go'), ('Stop order', 'server/server.go')], observe=['mondis.Client', 'server.Server'])
p('R04', 'Every stream of a connection is served in order and apart from the others',
  'On every connection to the server each request of a stream is answered exactly once, in the order asked and with the kind of answer it asks for, however many requests of this and of other streams and connections are under way; no answer comes unasked and none stays out while the connection lives. A transaction takes effect, as a whole, only if its own stream asked to commit it, before which nothing ended the stream; one whose client ends the stream otherwise, sends something undecodable on it or disconnects is discarded, and no transaction stays open at the server for it. Once Stop returns no transaction is open in the store, and what was answered as committed is there after a restart.',
  ['schedules', 'histories', 'fault_sequences'], 'every sequence and interleaving of frames on the streams of several connections, every point at which a connection ends or the server is stopped',
  'No test has two requests under way at the same time, ends a stream without committing or looks at the frames.',
  ['server/common.go', 'server/server.go', 'server/cmd_set.go'],
  [('handleTxnContinuedFrame, drain, writeStreamRespBytes', 'server/common.go'), ('handlers of first frames', 'server/cmd_*.go'), ('requests and Stop', 'server/server.go')], observe=['server.Server'])

p('S01', 'A stored hash behaves as a map with an exact field count',
  'Under every sequence of hash operations in committed, conflicting or discarded transactions, field reads, integer increments, key and value listings (ascending and descending, bounded or complete) and clears behave as on a map from byte fields to byte values, including empty fields and empty values. The reported length always equals the number of fields present, and an emptied or cleared hash leaves nothing behind. A failure of the store is reported by the operation that met it.',
  ['histories', 'inputs', 'schedules'], 'every sequence of operations on several hashes, all field and value bytes, across transactions',
  'TestHash performs a handful of operations on one hash with two text fields in one transaction.',
  ['structure/hash.go', 'structure/keys.go'],
  [('updateHash and field count', 'structure/hash.go'), ('iterateHash, iterateReverseHash', 'structure/hash.go'), ('key layout', 'structure/keys.go')],
  [('field count', 'number of fields', 'hash meta key')], ['TxStructure.H*'])
p('S02', 'A stored list behaves as a double-ended queue',
  'Under every sequence of pushes and pops at both ends, indexed reads and writes (negative indexes count from the right), length, listing and clear, in committed or discarded transactions, a list behaves as a double-ended sequence of byte strings; out-of-range reads, writes and pops report key-not-found and change nothing. An emptied or cleared list leaves nothing behind. A failure of the store is reported by the operation that met it.',
  ['histories', 'inputs'], 'every sequence of operations on several lists across transactions',
  'TestList performs a few pushes and pops on one list in one transaction.',
  ['structure/list.go', 'structure/keys.go'],
  [('listPush, listPop, index window', 'structure/list.go'), ('adjustIndex', 'structure/list.go')], [('window', 'left and right index', 'list meta key')], ['TxStructure.L*'])
p('S03', 'Strings, counters and structures never interfere with one another',
  'String values and integer counters behave as a map under set, get, clear and increment, and decimal integers of the full 64-bit range are read back exactly. Structures of different names (including names that are prefixes of each other), of different kinds under the same name, or under different store prefixes never affect each other. A failure of the store is reported by the operation that met it.',
  ['inputs', 'histories'], 'all names, kinds and prefixes, every sequence of operations over several of them',
  'The tests use one name and one kind at a time.',
  ['structure/string.go', 'structure/keys.go', 'kv/util.go', 'kv/numeric/human.go'],
  [('self-delimiting names and kind flags', 'structure/keys.go'), ('IncInt64, GetInt64, SetInt64', 'kv/util.go')], observe=['TxStructure'])

p('Q01', 'Sequences never hand out an id twice',
  'No id is ever handed out twice by sequences on the same name: not by concurrent callers of one instance, not by several instances sharing the store, not after a crash, a failed or conflicting lease transaction, or a reopen. A request for n ids yields exactly n of them, as ranges disjoint from everything handed out before or after.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every interleaving of calls and lease transactions of several instances, every failure of a lease transaction, every crash point',
  'Sequences are only used incidentally by one test, by one goroutine and one instance.',
  ['document/meta/sequence/sequence.go', 'document/meta/sequence/hash.go', 'document/meta/sequence/string.go', 'document/sequence.go', 'document/dml/sequence.go'],
  [('lease renewal in a transaction', 'document/meta/sequence/*.go, document/sequence.go'), ('in-memory lease window', 'sequence.go')], [('lease', 'range [next, leased) of ids owned by an instance', 'Sequence'), ('stored counter', 'first id nobody has leased', 'store')], ['Sequence.Next', 'Sequence.NextN'])
p('Q02', 'Closing, returning and clearing sequences keeps ids consistent',
  'Ids an instance leased but did not use are handed back when it is closed or released, so that the next instance continues without a gap if nobody else leased meanwhile, and never in a way that lets an id be handed out twice. An id put back is handed out again before new ones, and a closed sequence hands out nothing. Clearing a sequence restarts that sequence only, leaving every other stored sequence and value untouched.',
  ['histories', 'fault_sequences', 'schedules'], 'every sequence of Next, NextN, Close, release and clear over several instances, and every failure of the release transaction',
  'No test closes, releases or clears a sequence and looks at what follows.',
  ['document/meta/sequence/sequence.go', 'document/meta/sequence/hash.go', 'document/meta/sequence/string.go', 'document/sequence.go'],
  [('Close, putback', 'document/meta/sequence/sequence.go'), ('ReleaseRemaining', 'document/sequence.go')], observe=['Sequence.Close', 'Sequence.Clear', 'ReleaseRemaining'])

p('C01', 'Key codecs round-trip and preserve order',
  'For all pairs of byte strings, signed and unsigned integers and floats (NaN apart), the memory-comparable encodings, ascending and descending, compare bytewise exactly as the values do, decode back to the value, and are self-delimiting: decoding what precedes other data returns the value and exactly the rest. The decimal and fixed-width number encodings round-trip the full range.',
  ['inputs'], 'all values and pairs of values of every encodable type, and all suffixes',
  'The codec tests use a table of a few dozen values.',
  ['kv/memcomparable/bytes.go', 'kv/memcomparable/number.go', 'kv/memcomparable/float.go', 'kv/numeric/human.go', 'kv/numeric/binary.go', 'kv/compact/bytes.go', 'kv/compact/number.go'],
  [('group encoding with padding count', 'kv/memcomparable/bytes.go'), ('sign flip', 'kv/memcomparable/number.go, float.go')], observe=['Encode*/Decode*'])
p('C02', 'Decoders reject malformed input with an error and never panic',
  'Every decoder of keys and numbers, given any bytes at all, either returns a value together with exactly the bytes that remain behind it (what was consumed being an encoding of that value, and for the memory-comparable formats the only one), or an error. It never panics, never reads past its input and never changes its input.',
  ['inputs'], 'all byte strings, in particular all truncations and single-byte corruptions of valid encodings',
  'TestBytes decodes a few invalid strings; compact and numeric decoders are not tested.',
  ['kv/memcomparable/bytes.go', 'kv/memcomparable/number.go', 'kv/compact/bytes.go', 'kv/compact/number.go', 'kv/numeric/binary.go', 'kv/numeric/human.go'],
  [('padding and marker checks', 'kv/memcomparable/bytes.go'), ('length checks', 'kv/compact/bytes.go')], observe=['Decode*'])
p('C03', 'Key successors and ranges are tight',
  'The successor of a key is the smallest key greater than it; the prefix successor of a key is greater than every key having it as prefix, with no key of the same length in between (a key of only 0xff bytes has none; what is given instead is greater than the key). A key range is reported to be a point exactly when its end is the successor or the prefix successor of its start. None of these changes the key it is given.',
  ['inputs'], 'all keys and all pairs of keys',
  'TestNext and TestIsPoint use about twenty fixed examples.',
  ['kv/key.go'], [('Next, PrefixNext', 'kv/key.go'), ('IsPoint', 'kv/key.go')], observe=['kv.Key', 'kv.KeyRange'])

p('D01', 'A document collection behaves as a map from document id to document',
  'Under every sequence of inserts, upserts, updates, single and multi reads, listings, counts, id ranges and deletes, in one or several transactions, a collection returns exactly what a map from document id to document would, with documents intact. Operations on one collection never affect or reveal documents of another, whether its id, contents or emptiness.',
  ['histories', 'inputs'], 'every sequence of operations over several collections and databases, documents of every shape, ids across the 64-bit range',
  'The document tests insert one document and read it back.',
  ['document/dml/collection.go', 'document/dml/keys.go', 'document/dml/base.go', 'document/dml/db.go'],
  [('document keys by collection and document id', 'document/dml/keys.go'), ('Collection.*', 'document/dml/collection.go')], observe=['dml.Collection'])
p('D02', 'Every successful insert gets a fresh document id',
  'Every insert that lets the system choose the id returns an id that no other document of the collection has and that no earlier insert returned, so that it never overwrites a document, under concurrent inserters, failing transactions, explicit ids and restarts. An insert reported successful has stored its document, and one reported failed has stored nothing.',
  ['schedules', 'histories', 'crash_points', 'fault_sequences'], 'every interleaving of inserters, every mix of chosen and explicit ids, every failing commit and restart',
  'The tests insert sequentially from one goroutine into a fresh collection.',
  ['document/dml/collection.go', 'document/dml/sequence.go', 'document/collection.go'],
  [('InsertOne', 'document/dml/collection.go'), ('per-collection sequence', 'document/dml/sequence.go')], observe=['InsertOne', 'InsertOneManaged'])
p('D03', 'Document transactions are atomic and reject a changed schema',
  'All document operations of one transaction commit together or not at all, see each other, and are invisible to others before commit. A transaction begun by the caller whose collections were touched by a schema change since is rejected with the schema conflict error and leaves no effect; one that only used unaffected collections commits. Callbacks run exactly when the transaction ends the way they are meant for.',
  ['schedules', 'fault_sequences', 'histories'], 'every interleaving of document transactions with each other and with schema changes, every commit failure',
  'The tests run one document transaction at a time and never alter the schema under it.',
  ['document/txn/txn.go', 'document/schema/metacache.go', 'document/schema/handle.go', 'document/domain/domain.go'],
  [('Txn.Commit', 'document/txn/txn.go'), ('Handle.Check', 'document/schema/handle.go')], observe=['txn.Txn', 'dml.Collection'])

p('M01', 'Creating a schema takes effect exactly once, or not at all',
  'A schema creation reported successful has created its database with exactly the collections and indexes requested, all with ids never used for anything else, visible at once to the creating process and after a reload to any other; one reported failed has created nothing. This holds under concurrent creations (same name included: exactly one wins and the others get an error), failing transactions, and a crash at any point followed by a restart, after which an accepted but unfinished creation completes.',
  ['schedules', 'crash_points', 'fault_sequences', 'inputs'], 'every interleaving of creators and workers, every failing store transaction, every crash point, every shape of schema',
  'One unreliable test creates one schema without indexes or failures.',
  ['document/ddl/ddl_api.go', 'document/ddl/ddl_worker.go', 'document/ddl/input.go', 'document/meta/meta.go', 'document/domain/domain.go'],
  [('job queue', 'document/ddl/ddl_api.go'), ('onCreateSchema', 'document/ddl/ddl_worker.go'), ('GenGlobalIDs', 'document/meta/meta.go')],
  [('job queue', 'schema changes accepted and not finished', 'meta'), ('global id', 'largest id given out', 'meta')], ['DDL.CreateSchema', 'Domain'])
p('M02', 'Every schema change bumps the version once and caches agree with the store',
  'Each completed schema change increases the stored schema version by exactly one and records what changed; the version never moves otherwise. A process that follows the recorded changes one by one ends up with exactly the schema a process loading everything afresh sees, at every version and from every starting version.',
  ['histories', 'schedules', 'fault_sequences'], 'every history of schema changes, every pair of versions at which a cache reloads',
  'No test changes the schema more than once or compares a cache with the store.',
  ['document/schema/metacache.go', 'document/domain/domain.go', 'document/ddl/ddl_worker.go', 'document/meta/meta.go'],
  [('updateSchemaVersion', 'document/ddl/ddl_worker.go'), ('ApplyDiffs', 'document/schema/metacache.go'), ('Reload', 'document/domain/domain.go')], observe=['Domain', 'Meta'])
p('M03', 'The schema handle detects exactly the conflicting changes and never blocks',
  'Checking a transaction against the schema handle reports a conflict exactly when a collection or database it used was changed after the version it started from, or when the recorded changes no longer reach back that far. The answer is independent of how many changes happened, and no check, failing or not, ever blocks later checks or updates.',
  ['histories', 'schedules'], 'every sequence of updates and checks, every start version and set of used objects, from several goroutines',
  'TestHandle is a compile-level test: it performs no update and no check.',
  ['document/schema/handle.go', 'document/schema/metacache.go'], [('Handle.Check, Handle.Update', 'document/schema/handle.go')], observe=['schema.Handle'])
p('M04', 'The schema-change queue is FIFO, exactly-once and never wedged by a failing job',
  'Accepted schema changes are executed one at a time in the order they were accepted, and each ends in the history exactly once with its outcome. A change that fails, for whatever reason and at whatever step, ends as failed with its error reported to the caller, without effect and without stopping those after it. The queue length bound is enforced by an error.',
  ['histories', 'fault_sequences', 'schedules'], 'every sequence of succeeding and failing changes, every transient failure of the store while they run',
  'No test lets a schema change fail.',
  ['document/ddl/ddl_worker.go', 'document/ddl/ddl_api.go', 'document/meta/meta.go', 'document/model/model.go'],
  [('handleJobQueue', 'document/ddl/ddl_worker.go'), ('Job.Encode/Decode', 'document/model/model.go')], observe=['Meta.GetDDLJobByIdx', 'Meta.GetHistoryDDLJob', 'DDL'])
p('M05', 'The catalog is a consistent set of databases, collections and jobs',
  'Under every sequence of catalog operations the stored catalog lists exactly the databases and collections created and not dropped, each readable by its id as it was last written, with creating an existing one, or changing or reading a missing one, reported as such without effect. Job queue, history, schema version and global id behave as a queue, a map and counters that never interfere with the rest.',
  ['histories', 'inputs'], 'every sequence of catalog operations, in committed and discarded transactions',
  'No test exercises the catalog directly.',
  ['document/meta/meta.go', 'document/model/model.go'],
  [('Meta.*', 'document/meta/meta.go')], observe=['meta.Meta'])

p('L01', 'A legacy collection behaves as a map from document id to document',
  'Under every sequence of inserts, upserts, updates, reads, listings, counts and deletes, inside caller transactions or on its own, a collection of the embedded document database returns exactly what a map from document id to document would, and never affects another collection. Ids handed out stay unique across close and reopen.',
  ['histories', 'inputs', 'crash_points'], 'every sequence of operations over several collections, across reopen',
  'TestDocument inserts and reads a document or two.',
  ['document/collection.go', 'document/db.go', 'document/keys.go', 'document/sequence.go'],
  [('Collection.*', 'document/collection.go'), ('didSequence', 'document/collection.go')], observe=['document.DB', 'document.Collection'])
p('L02', 'The legacy index catalogue in memory always equals the stored one',
  'After any sequence of index creations and drops, including failing ones and restarts, the set of indexes a collection reports equals what is stored and what a fresh process reads back. Index names are unique within a collection, every index keeps its definition as given, and the caller\'s arguments are never modified.',
  ['histories', 'fault_sequences', 'inputs'], 'every sequence of index operations, every failing transaction, every definition',
  'TestDocument creates and drops a single index.',
  ['document/collection.go', 'document/keys.go'], [('CreateIndex, DropIndex, index cache', 'document/collection.go')], observe=['Collection.GetIndexes'])
p('L03', 'Closing the legacy database is safe at any time',
  'Close waits for operations in progress, then refuses every new one with the closed error, at every level and however often it is called, and never deadlocks or loses an acknowledged write. Asking for a collection always yields the same one for the same name, however many goroutines ask at once, and a different one for every other name.',
  ['schedules', 'crash_points'], 'every interleaving of operations with Close and of concurrent first uses of names',
  'The tests close once, at the end, from one goroutine.',
  ['document/db.go', 'document/collection.go'], [('Close', 'document/db.go'), ('Collection', 'document/db.go')], observe=['document.DB'])

p('U01', 'Transaction helpers commit, retry and call back exactly as promised',
  'The transaction helpers commit exactly when the function given succeeded, discard otherwise, report the first error, and run success callbacks only after a successful commit and cancel callbacks only after a failed one. The helper for oversized transactions commits what fits and repeats only the step that did not fit in a new transaction, so that every step takes effect exactly once, in order, a bounded number of times.',
  ['fault_sequences', 'histories'], 'every sequence of step outcomes (success, error, transaction too big) and commit outcomes',
  'TestDocument uses one helper on its success path.',
  ['util/util.go'], [('TryCommitWhenTxnTooBig', 'util/util.go'), ('RunIn*', 'util/util.go')], observe=['util'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
