const H = 'packages/hub/src/'
export const props = [
{ id: 'P01', title: 'A collection behaves as a durable versioned map',
  statement: 'After any sequence of put, putMany, delete, deleteMany, get and reopen on a collection, every reading operation (get, getMany, list, count, listPage, scan, query) returns exactly the records last written and not deleted, with their values unchanged. Each write of an existing record increases its stored version by one. This holds for eager and lazy (LRU) collections, with and without indexes, history, encryption and native paging in the store, and for a fresh instance opened on the same store.',
  over: ['histories', 'configurations', 'inputs'], text: 'all operation sequences, collection modes, ids and JSON values',
  why: 'the tests run fixed scripts per collection mode; the interplay of cache eviction, index side-cars, paging and reopening only shows over all short histories of every mode.',
  files: [H + 'collection.ts', H + 'crypto.ts', H + 'vault.ts', 'packages/to-memory/src/index.ts'],
  mech: [['record cache and LRU', H + 'collection.ts'], ['envelope encryption', H + 'crypto.ts'], ['paging', H + 'collection.ts']],
  state: [['cache', 'decrypted records of an eager collection', H + 'collection.ts']], observe: ['Collection read methods', 'raw store contents'],
  design: 'Every sequence is executed on a real vault; after each step all reads of the handle, and at the end those of a fresh instance, are compared with a Map of values and versions.' },
{ id: 'P02', title: 'Concurrent operations on one open collection are linearizable',
  statement: 'When several operations (put, delete, get, list, putMany, count, scan, query reads) on one open instance run concurrently, their results and the final contents equal those of some sequential order, whatever the order in which store calls complete. No acknowledged write is lost, versions and history stay gapless, and the handle agrees with the store afterwards.',
  over: ['schedules', 'configurations'], text: 'all completion orders of store calls up to a preemption bound, for all pairs and selected triples of operations',
  why: 'the in-memory test stores complete every call immediately, so the tests run a single schedule.',
  files: [H + 'collection.ts', H + 'history/ledger/store.ts'], mech: [['per-record serialisation', H + 'collection.ts'], ['single-flight hydration', H + 'collection.ts'], ['ledger compare-and-swap', H + 'history/ledger/store.ts']],
  design: 'A controlled scheduler decides which outstanding store call completes next and whether its effect happens at call or completion time; results and final state are compared with all sequential permutations of the map model, and history/ledger with the final versions.' },
{ id: 'P03', title: 'Transactions and atomic bulk writes are all-or-nothing',
  statement: 'If any single store call fails while a multi-record transaction or an atomic putMany commits, or an expected version does not match, the operation rejects and every touched record, across collections and vaults, is as before on the open handle, in its indexes and for a fresh instance. If it resolves, all of its writes are visible.',
  over: ['fault_sequences', 'programs', 'configurations'], text: 'every store call of the commit failing once, before or after taking effect',
  why: 'the tests inject one failure at one position; rollback of caches, indexes and the failing operation itself depends on the exact position.',
  files: [H + 'tx/transaction.ts', H + 'collection.ts'], mech: [['two-phase commit with rollback', H + 'tx/transaction.ts'], ['atomic bulk put', H + 'collection.ts']],
  design: 'Every fault position and kind is enumerated for each transaction body and configuration; contents before/after are compared on the handle, through index queries and from a fresh instance.' },
{ id: 'P05', title: 'A store never receives plaintext, passphrases or keys',
  statement: 'Whatever features an encrypted vault uses (records, indexes, history, ledger, blobs, dictionaries, i18n, CRDTs, tiers, delegation, consent, periods, sync, presence, backups, bundles), nothing passed to the local or remote store and no backup or bundle contains any record content, attachment, label, passphrase or unwrapped key, in any encoding. Every record envelope is encrypted under a non-empty nonce.',
  over: ['programs', 'configurations'], text: 'all programs of up to three feature operations',
  why: 'tests check selected calls for selected substrings; leaks arise in feature combinations and less used code paths.',
  files: [H + 'collection.ts', H + 'crypto.ts', H + 'blobs/blob-set.ts', H + 'team/keyring.ts', H + 'history/ledger/store.ts', H + 'indexing/persisted-indexes.ts'],
  mech: [['encryption of every body before the store', H + 'collection.ts'], ['key wrapping', H + 'team/keyring.ts']], observe: ['every argument of every store call'],
  design: 'Secrets are distinctive tokens; a monitor scans every argument of every store call for each secret (including keys observed at the crypto boundary) in raw, hex, base64 and base64url form at all alignments.' },
{ id: 'P06', title: 'No encryption key is ever used twice with the same nonce',
  statement: 'Across all features and instances, no AES-GCM encryption repeats a nonce under the same key, except for opt-in deterministic fields where identical nonces imply identical plaintext. Nonces, data keys and salts come from the cryptographic random source, not from time, counters or Math.random.',
  over: ['programs', 'histories'], text: 'all programs of up to three feature operations, under two independent random streams',
  why: 'nonce reuse is invisible in functional tests: everything still decrypts.',
  files: [H + 'crypto.ts', H + 'collection.ts', H + 'blobs/blob-set.ts', H + 'team/keyring.ts'],
  mech: [['fresh IV per encryption', H + 'crypto.ts']], observe: ['crypto.subtle.encrypt arguments'],
  design: 'A monitor at the WebCrypto boundary records (key, nonce, plaintext) of every encryption; uniqueness is checked per program and independence from the secure random stream is checked by running twice with different streams and demanding different nonces, keys and salts.' },
{ id: 'P07', title: 'A vault opens exactly for current members with their current passphrase',
  statement: 'After any history of grants, revocations, passphrase changes, rotations and writes, a vault opens for a user if and only if they are a current member, the passphrase is their current one and their access has not expired; anyone else is refused and nothing is created for them. Members keep exactly the role, permissions and capabilities last granted, and passphrases are stretched with at least 600 000 PBKDF2 rounds and a fresh salt per keyring.',
  over: ['histories', 'inputs'], text: 'all histories over grant, revoke, change-secret and rotate by four actors; all (user, passphrase) probes',
  why: 'tests check single grants and revocations; stale wrapped keys, lost provenance or wrong passphrases accepted appear only after sequences.',
  files: [H + 'team/keyring.ts', H + 'noydb.ts', H + 'crypto.ts'], mech: [['key derivation and AES-KW unwrap', H + 'team/keyring.ts'], ['grant/revoke rules', H + 'team/keyring.ts']],
  design: 'Each history is executed on real code next to a small access-control model; afterwards every user is probed with every passphrase in a fresh session, and roles, permissions, listing and readable contents are compared.' },
{ id: 'P08', title: 'Roles and permissions decide every operation',
  statement: 'For each role and per-collection permission, an operation on a collection succeeds if and only if the role matrix allows it, for every reading, writing, blob, tier, history, administrative and export operation. A refused operation throws the access error and leaves the store byte-for-byte unchanged.',
  over: ['configurations', 'programs'], text: 'all roles x permissions x collection modes x operations',
  why: 'tests cover a diagonal of the matrix, mainly put and get.',
  files: [H + 'collection.ts', H + 'team/keyring.ts', H + 'vault.ts', H + 'blobs/blob-set.ts'], mech: [['hasWritePermission/hasAccess', H + 'team/keyring.ts'], ['guards in each operation', H + 'collection.ts']],
  design: 'The full matrix is executed on a fresh vault per cell, cold and warm; the oracle is the documented role table.' },
{ id: 'P09', title: 'Revocation and key rotation lock out the revoked user and nobody else',
  statement: 'After revoking a user with key rotation, or rotating a collection, no key that user ever held decrypts any current record, history version, attachment slot or tiered record of the rotated collections. Everyone else whose access continues, and the owner, still reads all records, versions, history, blobs, indexes and deterministic lookups, with versions, timestamps and authors unchanged.',
  over: ['histories'], text: 'all histories over writes, grants, revocations, rotations and passphrase changes',
  why: 'tests rotate one plain collection once; side data (history, blobs, tiers, deterministic fields) and repeated rotations are not reached.',
  files: [H + 'team/keyring.ts', H + 'collection.ts', H + 'blobs/blob-set.ts'], mech: [['re-encryption under a new DEK', H + 'team/keyring.ts']], observe: ['captured raw keys tried on every stored envelope'],
  design: 'Raw keys held by each user are captured at the crypto boundary; after each history every envelope of rotated collections is tried with every captured key, and the owner and remaining users read everything back.' },
{ id: 'P10', title: 'The ledger records every write and tampering is detected',
  statement: 'After any history of writes, the ledger lists exactly the writes made, in order, with operation, record, version and author, whole or in any range, and ledger and backup verification succeed. Changing, truncating or flipping any byte of any stored ciphertext or nonce, dropping, swapping, replacing, inserting or renumbering ledger entries, deleting or swapping records, or replaying an older or foreign ciphertext is detected by the read or by verification; no tampered content passes silently.',
  over: ['histories', 'fault_sequences'], text: 'all short write histories x every single tampering of the stored data',
  why: 'tests flip one chosen byte or edit one chosen entry; detection must hold for every position and every history.',
  files: [H + 'history/ledger/store.ts', H + 'history/ledger/entry.ts', H + 'vault.ts', H + 'crypto.ts'], mech: [['hash chain', H + 'history/ledger/store.ts'], ['payload hash cross-check', H + 'vault.ts'], ['AES-GCM tags', H + 'crypto.ts']],
  design: 'After each history all single tamperings are enumerated; for each a fresh instance reads everything and runs both verifications: either something reports, or all reads are unchanged.' },
{ id: 'P11', title: 'History keeps every earlier version and revert restores it exactly',
  statement: 'After any history of puts, bulk writes, transactions, deletions, reverts, reopenings and rotations, history lists exactly the earlier versions of each record, newest first, with their contents, authors and times; getVersion, diff and revert agree with what was written, in eager, lazy and CRDT collections and for records whose ids are prefixes of one another. Version limits, pruning and clearing remove exactly the versions they name, and no other record is affected.',
  over: ['histories', 'configurations'], text: 'all histories up to length three over thirteen operations in every collection mode',
  why: 'tests write two or three versions of one record in one mode; caching, prefix ids, pruning limits and lazy reads interact only in longer histories.',
  files: [H + 'history/history.ts', H + 'history/diff.ts', H + 'collection.ts'], mech: [['history save and prune on put', H + 'collection.ts'], ['history listing', H + 'history/history.ts']],
  design: 'Every history runs on real code next to a list of versions; afterwards all history reads, diffs, reverts and prunings are compared with the list on the live handle and in a fresh instance.' },
{ id: 'P12', title: 'The time machine shows exactly what the vault held at each instant',
  statement: 'For every instant before, during and after any history of writes, vault.at(instant) lists and returns exactly the records that existed then, for every notation of the instant. The ledger rebuilds every version of a record from its deltas, and patches and diffs between any two documents are exact.',
  over: ['histories', 'inputs'], text: 'all histories up to length three with every instant queried; all pairs of documents of a bounded grammar',
  why: 'tests query one instant of one history; boundary instants, deletions, reverts and unusual documents are not reached.',
  files: [H + 'history/time-machine.ts', H + 'history/ledger/patch.ts', H + 'history/ledger/store.ts', H + 'history/diff.ts'], mech: [['reconstruction at an instant', H + 'history/time-machine.ts'], ['JSON patches', H + 'history/ledger/patch.ts']],
  design: 'A snapshot is recorded at every step; each instant between steps is queried in four notations and compared. The patch algebra is checked over all ordered pairs of documents of a grammar that includes hostile member names.' },
{ id: 'P13', title: 'Every way of asking a query gives the same answer',
  statement: 'A query returns exactly the records that satisfy its clauses, sorted and windowed as asked, whether it is answered by a linear pass, a single or composite index, a lazy persisted index, or a paged scan, and whatever history of writes, deletions, failed transactions, reverts, reopenings, rebuilds and reconciliations preceded it. Counts, first, aggregates and groups agree with the matching records; a lazy query that no index can answer is refused rather than answered incompletely; lookups by deterministic field find exactly the records that currently hold the value.',
  over: ['histories', 'inputs', 'configurations'], text: 'all small collections x all queries of a grammar x seven access modes; all histories up to length three',
  why: 'tests compare a few queries on one data set per mode; disagreements need particular value types, stale index entries or window sizes.',
  files: [H + 'query/builder.ts', H + 'query/predicate.ts', H + 'query/scan-builder.ts', H + 'indexing/eager-indexes.ts', H + 'indexing/persisted-indexes.ts', H + 'indexing/lazy-builder.ts', H + 'aggregate/reducers.ts', H + 'aggregate/groupby.ts', H + 'collection.ts'],
  mech: [['candidate selection through indexes', H + 'query/builder.ts'], ['persisted index side-cars', H + 'collection.ts'], ['lazy query planning', H + 'indexing/lazy-builder.ts']],
  design: 'An independent evaluator of the query grammar gives the expected answer for the model contents; the same query is asked in every access mode after every history and on every multiset of up to three documents.' },
{ id: 'P14', title: 'Live queries, subscriptions and change events always reflect the contents',
  statement: 'After any history of writes, bulk writes, deletions, reverts and committed, aborted or failed transactions, also overlapping ones, every live query, live aggregate, live group and joined live query shows what the same query returns when run afresh and notifies its listeners whenever it changes, even when another listener throws; a write never fails because of a listener. Change events and collection subscriptions report every change exactly once with the current record, in order, for the right vault and collection, so that a copy maintained from them equals the contents; stopped or unsubscribed watchers see nothing.',
  over: ['histories', 'schedules', 'configurations'], text: 'all histories up to length three over fifteen operations with watchers attached at every point; all completion orders of overlapping pairs',
  why: 'tests attach one watcher before one write; missed or duplicated notifications appear with rollbacks, overlapping writes, joins and watchers attached or stopped in between.',
  files: [H + 'query/live.ts', H + 'query/builder.ts', H + 'aggregate/aggregation.ts', H + 'events.ts', H + 'collection.ts'],
  mech: [['live query recomputation', H + 'query/live.ts'], ['change emission', H + 'collection.ts']],
  design: 'Every history runs with eight watchers attached before every step; after each step all values, notifications and events are compared with a reference, and a mirror rebuilt from events with the contents. Overlapping pairs are explored under every completion order of their store calls.' },
{ id: 'P15', title: 'References hold: strict never dangles, cascade is complete, reports are exact',
  statement: 'A put with a strict reference to a missing record, and a delete of a record that a strict reference outside the cascade still names, are rejected and change nothing; deleting a record deletes exactly the records that cascade from it, through any chain or cycle, inside and outside transactions and in eager and lazy collections. checkIntegrity reports exactly the dangling references, and joins attach exactly the referenced record (null or an error when dangling, as the mode says). Overlapping writes through one instance never leave a dangling strict reference.',
  over: ['inputs', 'configurations', 'schedules'], text: 'all small populations of three linked collections x all reference configurations x all operations; all completion orders of overlapping pairs',
  why: 'tests cover one reference of each mode; chains, cycles, declaration order, records without an id field, lazy collections, rollbacks and races are combinations no test enumerates.',
  files: [H + 'refs.ts', H + 'vault.ts', H + 'collection.ts', H + 'query/join.ts', H + 'query/scan-builder.ts', H + 'tx/transaction.ts'],
  mech: [['write-time and delete-time enforcement', H + 'vault.ts'], ['join execution', H + 'query/join.ts']],
  design: 'A relational reference computes the allowed outcomes of every operation on every small population under every configuration; the real result, the stored contents, the integrity report and all join forms are compared. Overlapping pairs run under every completion order.' },
{ id: 'P04', title: 'A failing store call or a crash loses nothing that was acknowledged',
  statement: 'When any single store call of any operation (record, bulk, transaction, CRDT, index, blob, dictionary, grant, revoke, rotate, passphrase change, period, history or sync operation) fails, with or without having taken effect, or the process dies at that call, everything acknowledged before stays readable by its users, each thing the operation touches is in its old or its new state, and an acknowledged operation is complete. Repeating the operation, on the same handle after an error or in a new instance after a crash, completes it, and later writes through the handle are kept.',
  over: ['crash_points', 'fault_sequences', 'programs'], text: 'every store call of 44 operations x error before, error after, crash before, crash after',
  why: 'tests use stores that never fail; the number of points at which an operation can be interrupted is the number of its store calls, each needing its own run.',
  files: [H + 'collection.ts', H + 'team/keyring.ts', H + 'blobs/blob-set.ts', H + 'i18n/dictionary.ts', H + 'history/ledger/store.ts', H + 'tx/transaction.ts', H + 'team/sync.ts'],
  mech: [['key rotation and keyring writes', H + 'team/keyring.ts'], ['record write sequence', H + 'collection.ts'], ['blob writes', H + 'blobs/blob-set.ts']],
  design: 'The fault-free run of each operation defines the old and new value of every probe (records, history, blobs, dictionary, users, access of three other users, ledger verification). Then the k-th store call is made to fail or be the last, for every k, and all probes must be old or new, and new after the operation is repeated.' },
{ id: 'P38', title: 'Several open sessions of one vault lose nothing of each other',
  statement: 'When several sessions, of the same or of different users, are open on one store and take turns writing records, creating collections, deleting, storing attachments and dictionary entries, writing indexed lazy collections, granting access and reopening, every acknowledged write stays readable: a session opened afterwards reads exactly the last acknowledged value of everything, queries find it, the ledger verifies, and users granted access read the collections that existed when they were granted.',
  over: ['histories'], text: 'all histories of up to three operations by three sessions (two of the owner, one of an operator) over 21 letters',
  why: 'tests open one session per store; keys and counters that each session caches only collide when sessions interleave.',
  files: [H + 'team/keyring.ts', H + 'collection.ts', H + 'blobs/blob-set.ts', H + 'history/ledger/store.ts'],
  mech: [['key creation and keyring persistence', H + 'team/keyring.ts'], ['ledger append', H + 'history/ledger/store.ts']],
  design: 'Each history runs on real code with three open sessions over one in-memory store; afterwards a fresh instance, the operator and the granted user read everything back and compare it with the last acknowledged values.' },
{ id: 'P16', title: 'Devices that synchronise converge and lose no edit',
  statement: 'For any history of edits, deletions, pushes, pulls, syncs, sync transactions and reopenings on two devices that share a remote, under every conflict strategy and conflict policy, each device shows and stores exactly what the strategy prescribes after every step, results and counters of unpushed changes are exact, and an edit made after seeing another is never replaced by the older one nor reported as a conflict. Once both have synchronised they and the remote hold the same records; merged and CRDT records contain the edits of both sides. Partial pushes and pulls touch only what they name; backup and archive targets receive every change and are never pulled from; writes that overlap a synchronisation are kept and pushed.',
  over: ['histories', 'configurations', 'schedules'], text: 'all histories up to length three (four for the default strategy) over 14 letters x 12 conflict configurations; all completion orders of a write overlapping a synchronisation',
  why: 'tests run one conflict with hand-made versions; convergence needs several rounds of interleaved edits on both sides.',
  files: [H + 'team/sync.ts', H + 'team/sync-transaction.ts', H + 'noydb.ts', H + 'collection.ts', H + 'crdt/crdt.ts'],
  mech: [['dirty tracking, push and pull', H + 'team/sync.ts'], ['conflict policies', H + 'collection.ts'], ['targets', H + 'noydb.ts']],
  design: 'An executable model holds the records, versions and unpushed changes of two devices and the remote; every history runs on real code and is compared with the model after every step, and the final state is judged by convergence and by a causal order of the edits (no edit that somebody had already seen and replaced survives). Overlaps run under every completion order up to two preemptions.' },
{ id: 'P17', title: 'CRDT records read back what was written and merge without loss',
  statement: 'A CRDT list or map reads back exactly what was put (maps keep fields a put does not mention), in eager and lazy collections, for any sequence of writes, deletions and reopenings. Merging is commutative, idempotent and absorbs earlier states; a merged map holds for each field the later write (merges also group freely), a merged list holds exactly the elements neither side removed, each once, in an order that respects what both sides agree on. Devices that edit one list and synchronise end with the same list, containing every element added and not removed.',
  over: ['inputs', 'histories'], text: 'all states reachable by short write chains over small values, all pairs and triples of states, all short histories of two devices',
  why: 'tests merge one pair of states; commutativity and element loss are statements about all pairs, including duplicates, equal timestamps and re-added elements.',
  files: [H + 'crdt/crdt.ts', H + 'collection.ts', H + 'team/sync.ts'], mech: [['state construction and merge', H + 'crdt/crdt.ts'], ['CRDT write path', H + 'collection.ts']],
  design: 'All states reachable by chains of up to three writes over a small alphabet are built with the exported functions and all pairs are merged both ways and compared with a set-based reference; maps are checked over all pairs and triples of registers. Histories of one and two devices run through the collection API.' },
{ id: 'P18', title: 'Attachments come back byte for byte and are counted exactly',
  statement: 'Whatever bytes are attached to a record, at any size, chunk size, compression and content type, under any slot name, record id and version label, are read back exactly by get, response, presigned download, published version and export; replacing, deleting, publishing and unpublishing affect only the named slot or version, and the reference count of a blob equals the number of slots and versions that use it, also when calls overlap. A failure or crash at any store call leaves every slot and version readable in its old or new state with no reference uncounted, and changed or exchanged chunks and index entries are never served. Compaction evicts exactly the slots whose retention policy says so, one audit entry each; blob export needs the capability, yields exactly the selected blobs, resumes where asked and reports an abort.',
  over: ['inputs', 'histories', 'schedules', 'crash_points'], text: 'products of sizes, chunk sizes and options; all reachable states of three slots and three versions with every operation from each; all overlaps of operation pairs; every store call as a crash point; all pairs of unusual names; all ages and policies of a small set',
  why: 'tests store a handful of buffers one at a time; boundaries between sizes and chunk sizes, shared contents and overlapping uploads are products of several dimensions.',
  files: [H + 'blobs/blob-set.ts', H + 'blobs/blob-compaction.ts', H + 'blobs/export-blobs.ts', H + 'blobs/mime-magic.ts', H + 'vault.ts'],
  mech: [['chunking, deduplication, slots and versions', H + 'blobs/blob-set.ts'], ['retention', H + 'blobs/blob-compaction.ts'], ['export', H + 'blobs/export-blobs.ts']],
  design: 'Byte equality over full products of the options; an explicit model of slots, versions and references whose reachable states are all visited and extended by every operation on the real code; pairs of operations under every completion order (preemption bound) judged against both serial orders; one fault or crash at every write of every operation.' },
{ id: 'P19', title: 'A backup restores everything and a changed backup is rejected',
  statement: 'For any history of writes, dictionary entries, attachments, periods, CRDT and indexed collections, grants and consents, a dump loaded into an empty store, under another vault name, over the later state of the same vault or over other contents reproduces everything a user can see (records, version history, dictionaries, periods, attachments, access of other users, audit entries, ledger), touches no other vault, and leaves a vault that works on and dumps to the same backup. The integrity check accepts every untouched vault. A backup in which a record, dictionary entry, period or ledger entry was changed, removed, exchanged or truncated is either rejected on load or shows exactly the original contents.',
  over: ['histories', 'inputs', 'configurations'], text: 'all histories up to length two over 22 operations, encrypted and plaintext, times four restore targets; every field of the records, dictionaries, periods and ledger of two backups changed, removed and exchanged pairwise',
  why: 'tests dump a vault with plain records and flip one byte; which kinds of content a backup forgets, and which single change is accepted, needs all of them.',
  files: [H + 'vault.ts', H + 'history/ledger/store.ts', H + 'history/ledger/entry.ts'], mech: [['dump, load and verifyBackupIntegrity', H + 'vault.ts'], ['hash chain', H + 'history/ledger/store.ts']],
  design: 'A probe reads everything visible; after every history the vault is dumped and restored into four targets and the probes are compared live and after reopening. For tampering, every envelope field of two backups is altered in several ways, removed, and replaced by or exchanged with every other of its kind, and each variant is loaded.' },
{ id: 'P20', title: 'Bundle files round-trip, show damage, and give recipients exactly their share',
  statement: 'A .noydb bundle reads back to exactly the dump it was written from, in every compression, and its header discloses nothing but format version, handle, length and hash; any change, truncation or extension of the file is rejected or yields the same dump, and the command-line verify and inspect say the same of the file. A slice by collections, since, where and tierAtMost (alone or combined, also re-keyed) contains exactly the records that satisfy all of them, unchanged, and nothing else of the excluded ones. Each recipient opens the bundle only with their own passphrase before their expiry, with their role, and can read and write exactly the collections their slot names; the source passphrase no longer opens it, and nobody can export more than they could read. A vault keeps one handle across exports, instances and overlapping first exports.',
  over: ['inputs', 'configurations', 'schedules'], text: 'every byte change, truncation and extension of two bundle files; all header field combinations; 400 slice filters x re-keying; all recipient roles, permission maps and expiries; all orders of overlapping exports',
  why: 'tests flip one byte and use one filter or recipient at a time.',
  files: [H + 'bundle/bundle.ts', H + 'bundle/format.ts', H + 'team/keyring.ts', H + 'vault.ts'], mech: [['container and filters', H + 'bundle/bundle.ts'], ['header validation', H + 'bundle/format.ts'], ['recipient keyrings', H + 'team/keyring.ts']],
  design: 'Every damaged variant of a bundle is read; every combination of filters is compared with the set computed from the known records; every recipient slot is opened on a fresh store with right and wrong passphrases and all collections are read and written. Overlapping first exports run under every completion order of their store calls.' },
{ id: 'P21', title: 'Every store package behaves as the same map of records',
  statement: 'For every record store package (memory, file, NFS, SQLite, Postgres, Supabase, MySQL, Turso, D1, DynamoDB, S3, R2, localStorage, IndexedDB, SMB, SSH, WebDAV), any history of contract calls behaves as one map from (vault, collection, id) to envelope: get, list, paging and loadAll return exactly what is stored with every envelope field, across instances and result pages; loadAll and saveAll concern exactly the collections not starting with an underscore, and saveAll replaces them. A put or transaction that expects another version than the stored one is refused and changes nothing, and of two writers expecting the same version at most one succeeds (SMB, SSH, WebDAV, S3-like and file stores excepted from the race, the first three from the check). A failed put, delete, transaction or SQL bulk save changes nothing and leaves the store usable, and a read, listing or removal during which the server or file system fails is refused or right, never answered as if nothing were there; a crash at any step of the file, share and object stores leaves every record in its old or new version.',
  over: ['histories', 'inputs', 'configurations', 'schedules', 'fault_sequences'], text: 'all short histories of contract calls x 24 store configurations x 14 sets of names; every server failure or crash inside an operation; every order of the server calls of two conditional writers',
  why: 'each package tests a handful of calls with ordinary names against a mock that returns one page and never fails.',
  files: ['packages/to-memory/src/index.ts', 'packages/to-file/src/index.ts', 'packages/to-sqlite/src/index.ts', 'packages/to-postgres/src/index.ts', 'packages/to-mysql/src/index.ts', 'packages/to-turso/src/index.ts', 'packages/to-cloudflare-d1/src/index.ts', 'packages/to-aws-dynamo/src/index.ts', 'packages/to-aws-s3/src/index.ts', 'packages/to-browser-local/src/index.ts', 'packages/to-browser-idb/src/index.ts', 'packages/to-smb/src/index.ts', 'packages/to-ssh/src/index.ts', 'packages/to-webdav/src/index.ts'],
  mech: [['SQL stores', 'packages/to-sqlite/src/index.ts'], ['key-value stores', 'packages/to-aws-dynamo/src/index.ts'], ['path stores', 'packages/to-file/src/index.ts']],
  design: 'The real adapters run over stand-in servers (node:sqlite behind the SQL clients, an in-memory file system, S3 and DynamoDB command handlers with pages of two, localStorage, IndexedDB and WebDAV stand-ins). Every history is applied to the store and to a map; afterwards everything readable is compared through the same and a new instance. Failures are injected at every server call of every mutating operation; conditional writers are interleaved in every order of their server calls.' },
{ id: 'P22', title: 'A routed store behaves as one store whatever the routes',
  statement: 'A store built by routeStore with collection routes, vault routes, a blob route, size tiers or age tiering reads back, by get, list and loadAll, exactly what was put and not deleted through it, each record lies in the store its route names (runtime override, then vault route, collection route, blobs by size, default), and a put expecting another version is refused wherever the record lies. Compaction moves exactly the records older than the cutoff to the cold store and changes nothing visible, also when it overlaps reads and writes or a store call fails; a failed operation leaves each record as before or as intended and deleted or replaced versions never come back. A suspended route reads empty and drops writes or, with queue, replays them in order on resume; saveAll replaces the contents of all stores.',
  over: ['histories', 'configurations', 'fault_sequences', 'schedules'], text: 'all short histories of store calls, overrides, suspensions and compactions x six routings; every failing backing call; every completion order of two overlapping operations',
  why: 'the tests route single calls to single stores; records that move between stores, stale copies and half-done moves need sequences, failures or overlaps.',
  files: [H + 'store/route-store.ts'], mech: [['route resolution', H + 'store/route-store.ts'], ['hot/cold move', H + 'store/route-store.ts'], ['suspend/resume queue', H + 'store/route-store.ts']],
  design: 'Every history runs on a real routed store over in-memory stores next to a model that knows which store each record lies in; after it, every read and the contents of each backing store are compared. Every backing call of every mutating operation fails once (before or after taking effect); pairs of overlapping operations run under every completion order of the backing calls and the result must be that of one order.' },
{ id: 'P23', title: 'Store middlewares are transparent and never serve outdated data',
  statement: 'Any stack of withRetry, withLogging, withMetrics, withCache, withCircuitBreaker (closed) and withHealthCheck (healthy) gives exactly the results and stored contents of the bare store for every history, failure and overlap of calls; a cached read never returns a value replaced or deleted through the stack and none older than ttlMs, and one middleware value used for two stores keeps them apart. Retry makes another attempt only for the listed error codes, at most maxRetries more, with exponential backoff, and succeeds or reports the last error accordingly; metrics and logging report every call once, without payloads. The circuit breaker opens after the threshold of consecutive failures, then keeps calls from the store and answers fallbacks until the reset time, lets one probe through and closes or stays open by its outcome; the health check suspends and resumes at its thresholds.',
  over: ['histories', 'schedules', 'fault_sequences', 'configurations'], text: 'all short histories of store calls and time steps x 68 stacks, each backing call failing once; all interleavings of overlapping calls; all success/failure patterns of attempts, breaker calls and health checks',
  why: 'each middleware is tested alone with one scripted sequence; overlapping reads and writes, stacked layers and long failure patterns are not reached.',
  files: [H + 'store/store-middleware.ts'], mech: [['read-through cache', H + 'store/store-middleware.ts'], ['circuit breaker', H + 'store/store-middleware.ts'], ['retry loop', H + 'store/store-middleware.ts']],
  design: 'Every history runs through the stack and on a bare store; results, contents, metric reports and log lines are compared. Cache overlaps run under every completion order of the backing calls with regular-register semantics for reads. Retry, breaker and health check are compared with their state machines over all patterns of outcomes and time steps.' },
{ id: 'P24', title: 'A bundle-backed store keeps every acknowledged write of every device',
  statement: 'A store made by wrapBundleStore over a bundle backend (an ideal one, Google Drive, iCloud) behaves as a map of records for every history, with saveAll replacing only user collections and any names allowed; after a put, delete, saveAll, batch or flush returned, a new device reads it from the bundle. When devices write in turn or at once, each flush keeps the other side\'s changes since the last common bundle, including deletions; a record changed on both sides keeps the later timestamp, and an edit beats a deletion. A failing backend call loses nothing acknowledged and the next write goes through; Drive and iCloud refuse a write naming an outdated or no version, and Drive file names do not reveal the vault.',
  over: ['histories', 'schedules', 'fault_sequences', 'configurations'], text: 'all short histories of one and two devices x 3 backends x flush modes; every failing backend call; all interleavings of two and three overlapping operations',
  why: 'the wrapper has no direct tests; lost updates, resurrected deletions and wiped bundles need two devices, conflicts or failures.',
  files: [H + 'store/bundle-store.ts', 'packages/to-drive/src/index.ts', 'packages/to-icloud/src/index.ts'], mech: [['optimistic concurrency by bundle version', H + 'store/bundle-store.ts'], ['snapshot merge', H + 'store/bundle-store.ts'], ['revision check', 'packages/to-drive/src/index.ts']],
  design: 'Histories run on the real wrapper and backends next to a model of each device\'s copy, the last common bundle and the stored bundle; after each, every device and a new one are read completely. Each backend call fails once, before or after taking effect; overlapping operations run under every completion order of the backend calls.' },
{ id: 'P37', title: 'The sync scheduler pushes every change in time and never twice at once',
  statement: 'For every history of writes, passing time, finished and failed pushes and pulls, forced runs, stops and starts, a SyncScheduler never has two pushes or two pulls running at once and never pushes when nothing is unsynced. In on-change mode a change is pushed at once, in debounce mode debounceMs after the last change and not before, in interval mode at the next tick, in manual mode only when forced; a push that would fall within minIntervalMs of the last one, or into a running one, follows as soon as it may, so no change is forgotten. forcePush and forcePull run regardless of mode and minIntervalMs; interval pulls happen at every tick; nothing runs after stop. status reports the running operation, the last error until a success, the last push and pull times and the unsynced count. With onUnload, hiding or leaving the page or process pushes unsynced changes; on-focus pulls when the page becomes visible.',
  over: ['histories', 'schedules', 'fault_sequences', 'configurations'], text: 'all histories up to the depth bound over 11 events x 8 policies; all hook configurations',
  why: 'a lost or doubled push needs a write or timer that falls at a particular moment of a running push; there are no scheduler tests at all.',
  files: [H + 'store/sync-policy.ts'], mech: [['debounce and interval timers', H + 'store/sync-policy.ts'], ['running-operation guards', H + 'store/sync-policy.ts']],
  design: 'Every event history runs on the real scheduler under virtual time; push and pull stay pending until an event of the history finishes them. Each start is judged at its moment (not doubled, not early, not empty, not after stop), each passing of time against the deadline of the unsynced changes, and the status after every event; in the end everything finishes and nothing may remain unsynced. Unload and focus hooks run against stand-in pages.' },
{ id: 'P25', title: 'A closed period seals exactly its records, whatever the write path',
  statement: 'Once closePeriod returned, a put, delete, batch, transaction, revert, cascade or tier change is refused with PeriodClosedError exactly when a closed period covers the record: with a dateField, when the stored or the incoming record (after validation) carries a date at or before endDate, a plain endDate including its whole day; without one, when the stored record was last written at or before endDate. This holds in the closing session and in every session opened later, for owners and users granted before or after the close, in eager, lazy and CRDT collections; a refused write leaves nothing behind and other writes go through. Periods have unique names, form an unbroken hash chain in closing order, also under overlapping calls and after failures, and each adds a ledger entry; openPeriod accepts only a closed fromPeriod, writes exactly the returned opening records and opens nothing when one of them is refused. Viewers and clients can neither close nor open periods.',
  over: ['inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'], text: 'the product of period sets, dates, write paths, modes and sessions; all short histories of closing and opening; all orders of overlapping calls; every failing store call',
  why: 'a seal that misses one path, one date shape or one interleaving is invisible to tests that try put and delete with plain dates.',
  files: [H + 'periods/periods.ts', H + 'vault.ts', H + 'collection.ts'], mech: [['write guard', H + 'collection.ts'], ['sealing rule', H + 'periods/periods.ts'], ['period chain', H + 'vault.ts']],
  design: 'Every combination of period set, stored date, incoming date, write path, collection mode and session runs on the real vault and is compared with the sealing rule; a refused write must leave the store unchanged, an accepted one must be readable. Closing and opening histories are compared with a list model, the hash chain recomputed independently; overlapping calls run under every completion order; every store call fails once before and after taking effect, after which a second attempt must succeed and the seal hold.' },
{ id: 'P26', title: 'The consent audit lists exactly the accesses made under consent',
  statement: 'Every get that finds a record, every put and every delete (single, batch, transaction, cascade; eager, lazy or CRDT collection) awaited inside vault.withConsent adds exactly one audit entry with the actor, the operation, the collection, the record id, the time and the purpose and hash of the innermost scope, in order; accesses outside any scope, refused writes and reads that find nothing add none. withConsent hands on the result or error of its function and restores the outer scope in both cases. An access whose entry cannot be stored does not succeed, and nothing is recorded that did not happen. Owner, operator and viewer each write to and read the same log, in any session; consentAudit returns exactly the entries matching all of since, until (inclusive), collection, actor and purpose. The stored entries of an encrypted vault reveal none of this.',
  over: ['histories', 'schedules', 'fault_sequences', 'inputs', 'configurations'], text: 'all short histories of nested scopes and accesses, all filter combinations, every failing store call, all orders of overlapping accesses',
  why: 'a missing entry on one access path, cache state, failure or overlap is invisible unless every path is tried inside a scope.',
  files: [H + 'consent/consent.ts', H + 'vault.ts', H + 'collection.ts'], mech: [['access hook', H + 'collection.ts'], ['scope slot', H + 'vault.ts'], ['entry storage and filter', H + 'consent/consent.ts']],
  design: 'Histories of scope entries, exits, throws and twelve kinds of access run on the real vault; the log read by the same and by a new session is compared entry by entry with a list model. Filters are compared with a reference filter over entries of three users. Each store call of each access fails once before and after taking effect: what succeeded must be recorded, what is recorded must have been asked for, and the scope must be closed. Overlapping accesses run under every completion order within the preemption bound.' },
{ id: 'P29', title: 'Any k Shamir shares restore the key, fewer reveal nothing',
  statement: 'For every threshold 2 <= k <= n <= 255 and every secret, splitSecret gives n shares with distinct x in 1..255; any k or more of them, in any order, combine to exactly the secret, while fewer, repeated or differently long shares and invalid k, n or empty secrets are refused. Over all random choices the view of any k-1 shares is uniform and the same for every secret, also across the bytes of one secret. gfAdd, gfMul, gfDiv and gfInv are the arithmetic of GF(256) modulo 0x11b. A share survives bytes, Base32 (any case, spacing, hyphens, with or without prefix) and JSON unchanged, distinct shares have distinct texts, and cut or lengthened bytes, other versions and x = 0 are refused. combineKEK returns a non-extractable key that opens what the split key sealed.',
  over: ['inputs', 'configurations'], text: 'all random choices for k = 2 and k = 3, all subsets and orders of shares up to the bound, the whole field, every x in every encoding',
  why: 'secrecy is a statement about all random choices, and wrong field entries or share subsets hide among thousands of combinations.',
  files: ['packages/on-shamir/src/shamir.ts', 'packages/on-shamir/src/gf256.ts', 'packages/on-shamir/src/share-format.ts', 'packages/on-shamir/src/index.ts'], mech: [['polynomial split and Lagrange combine', 'packages/on-shamir/src/shamir.ts'], ['field tables', 'packages/on-shamir/src/gf256.ts'], ['encodings', 'packages/on-shamir/src/share-format.ts']],
  design: 'crypto.getRandomValues is replaced by an enumeration of all its outcomes: for each secret the values of every k-1 shares are counted and each must occur exactly once. Every subset and order of shares is combined, every field pair compared with bitwise multiplication, every share form decoded back, and split keys must open what the original key sealed.' },
{ id: 'P28', title: 'Second factors accept only the right code, in time, within their limit',
  statement: 'on-threat: threshold failures within windowMs of the first lock for cooldownMs; a later failure starts a new window, failures while locked do not count, each lock is a strike, success clears failures and lock but not strikes, and strike number maxStrikes wipes for good; recordFailure, isLocked and the stored state always agree with this, and duress or honeypot checks match exactly the enrolled phrase. on-pin: resumePin returns exactly the enrolled keyring (without KEK) for the right PIN until expiresAt and until maxAttempts wrong ones, also when attempts overlap or the state is reloaded or cleared. on-email-otp: verify accepts exactly the sent code before it expires and within maxAttempts calls, codes are unbiased and never stored. on-totp: codes are RFC 6238 codes and verify accepts exactly those within window steps; Base32 and the otpauth URI carry the secret faithfully. on-recovery: each code opens its own entry only, every single-character slip or neighbour swap is noticed, case and separators are not. Secrets are stretched with at least the documented PBKDF2 rounds.',
  over: ['histories', 'schedules', 'inputs'], text: 'all sequences of attempts, successes, waits at the boundaries, reloads and clears; all completion orders of overlapping guesses; all typing slips of a code',
  why: 'limits fail at exact instants, after particular sequences or when guesses overlap; tests sample single attempts.',
  files: ['packages/on-threat/src/index.ts', 'packages/on-pin/src/index.ts', 'packages/on-email-otp/src/index.ts', 'packages/on-totp/src/index.ts', 'packages/on-recovery/src/index.ts'], mech: [['lockout state machine', 'packages/on-threat/src/index.ts'], ['resumePin, enrollPin', 'packages/on-pin/src/index.ts'], ['issue, verify', 'packages/on-email-otp/src/index.ts'], ['codeAtStep, verify', 'packages/on-totp/src/index.ts'], ['checksum and wrapping', 'packages/on-recovery/src/index.ts']],
  design: 'The lockout machine is explored breadth first together with a reference policy, merging equal product states, with waits that land on, just before and just after each boundary. PIN and e-mail code histories are enumerated operation by operation; overlapping guesses are released in every order and no more answers than the limit may come out. Codes are compared with an independent HMAC implementation at instants around step and 32-bit boundaries, and every slip in a recovery code is tried.' },
{ id: 'P39', title: 'Hardware keys, OIDC and magic links unlock exactly what was enrolled',
  statement: 'unlockWebAuthn returns exactly the enrolled keyring for the enrolled authenticator (same PRF output, or same credential id where PRF is absent) with user verification, and a typed error for any other authenticator, cancelled prompt or damaged record; with requireSingleDevice a credential whose BE flag is set neither enrols nor unlocks. unlockOidc returns exactly the keyring last enrolled for that subject and vault, only on the device that enrolled it and only with an unexpired token of that subject; neither the connector nor the device storage alone shows a key, the device secret is never sent, and a refused enrolment leaves the earlier one usable. claimMagicLinkDelegation returns exactly the unrevoked grants of that token, only for the right server secret, token and vault, each with the key of the granted collection and tier and marked expired from the instant of its until on; revoking one token leaves others alone, and nobody can grant a key they do not hold.',
  over: ['histories', 'inputs', 'configurations'], text: 'all enrolment, failure, wipe, issue, revoke and wait histories up to the bound, each followed by every unlock attempt; all flags bytes; all single-byte damage',
  why: 'who can unlock depends on the order of enrolments, failures and revocations across devices, subjects and tokens.',
  files: ['packages/on-webauthn/src/index.ts', 'packages/on-oidc/src/index.ts', 'packages/on-magic-link/src/index.ts', H + 'team/magic-link-grant.ts'], mech: [['enrol and unlock', 'packages/on-webauthn/src/index.ts'], ['split key', 'packages/on-oidc/src/index.ts'], ['issue, claim, revoke', 'packages/on-magic-link/src/index.ts'], ['grant records', H + 'team/magic-link-grant.ts']],
  design: 'A fake browser, authenticator, key connector and store stand in for the outside. After every history each possible unlock is attempted and compared with a reference that tracks which enrolment each device and server half belongs to; keys are compared by raw value and by what they open.' },
{ id: 'P30', title: 'Records above tier 0 open only for holders of the tier key',
  statement: 'In a collection with tiers, putAtTier, elevate and demote succeed exactly for callers cleared for every tier involved (owner and admin for all declared tiers, others only with that tier\'s key; demote only by the owner or whoever raised the record last) and otherwise change nothing and create no key. A record is stored under the key of its tier only, with its content and a version one higher, so no key of a less cleared user opens it or its index entries. getAtTier and listAtTier show each caller exactly what they are cleared for (null or a ghost for the rest, by tierMode). Plain reads (get, list, count, query, scan) show exactly the tier-0 records, in the same session, a new one and after sync; the backup check stays valid and moves between tiers reach other devices. Each successful cross-tier operation is announced once with actor, id, tier, kind and authorization. vault.elevate gives at most one live elevation, written to the audit log first, that writes at its tier until release or the end of ttlMs, and never after; a failed or ended one frees the slot. Overlapping operations on a record leave what some order of them would.',
  over: ['histories', 'schedules', 'fault_sequences'], text: 'all histories of tier operations by owner, admin, differently cleared operators and a viewer; all elevation lifetimes; all interleavings of two operations on a record',
  why: 'who may read a record depends on the order of moves between tiers and on which keys each actor holds; tests try single moves by the owner in one session.',
  files: [H + 'collection.ts', H + 'team/tiers.ts', H + 'vault.ts'], mech: [['putAtTier, getAtTier, listAtTier, elevate, demote', H + 'collection.ts'], ['clearance', H + 'team/tiers.ts'], ['scoped elevation', H + 'vault.ts']],
  design: 'Six users with different sets of tier keys act on one record; a reference machine says for every step whether it is allowed, what is stored and what is announced. After each history a fresh session of every user is compared with what that user is cleared for, in eager and lazy mode with indexes, and the raw keys from their keyring are tried on the stored envelopes. Elevation handles are driven through take, fail, write, release and waits to and past the expiry. Pairs of operations run under every schedule of their store calls.' },
{ id: 'P40', title: 'Vaults sharing an instance or a store never affect one another',
  statement: 'An instance may hold several vaults, with equal collection names, record ids, users and passphrases and with similar vault names. Whatever is done in one vault (writes, deletes, attachments, dictionaries, closed periods, consent, grants, revocations, key rotation, a passphrase change, restoring a backup, synchronising to several targets) leaves every other vault untouched: what the local and remote stores hold for it, its records, members, unsynced count and subscribers. Change events name the right vault. After any history each vault opens in a fresh instance with its own current passphrase, and with no other, and holds exactly what was written to it. listAccessibleVaults gives exactly the vaults whose keyring opens for the user with a role of at least minRole, writes nothing, and is not disturbed by lapsed or foreign keyrings. queryAcross gives one entry per requested vault, in order, with the callback result or the error of that vault, calls the callback once per entry and never runs more than `concurrency` at once. Overlapping opens of one vault, also with listings, fan-outs or a failing store call among them, give one vault object and lose no acknowledged write; a failed open can be repeated.',
  over: ['histories', 'schedules', 'inputs', 'fault_sequences'], text: 'all histories over two vaults to the bound for 8 pairs of names; all standings of a user in two vaults; all fan-outs over up to three vaults with all completion orders; all interleavings of two opening tasks within the preemption bound',
  why: 'Tests open one vault per instance, or two with plain names, and never overlap opens; leaks between vaults need a particular pair of names, a listing between two key operations, or a particular interleaving.',
  files: [H + 'noydb.ts', H + 'vault.ts', H + 'team/keyring.ts', H + 'team/sync.ts', H + 'events.ts'],
  mech: [['keyring and vault caches', H + 'noydb.ts openVault/getKeyring'], ['access listing', H + 'noydb.ts listAccessibleVaults'], ['fan-out', H + 'noydb.ts queryAcross'], ['sync engine registry', H + 'noydb.ts syncEngines']],
  design: 'Explores the real instance. (1) Every history of up to two operations (three for the operations that touch keys or sync) over two vaults, for eight pairs of names including `a`/`a::b`; after each step the part of all three stores (local, peer, backup) that belongs to the other vault is compared byte for byte, then both vaults are read in full against a model, and at the end again through fresh instances with each passphrase. (2) Ten standings of a user in each of two vaults, all minimum roles, both store orders. (3) queryAcross over every list of up to three vaults, with four callback outcomes and every completion order. (4) Pairs of tasks that open, write, list or fan out under a controlled scheduler with bounded preemptions, and with one injected store fault.' },
{ id: 'P33', title: 'Translated fields and dictionary labels are exact and renames complete',
  statement: 'A record whose i18nText field lacks a required language (all, any or the listed ones; an empty string counts as missing), is not a map of strings, or needs a translator that is not configured is refused by put, putMany (atomic or not) and transactions, and leaves no trace; otherwise exactly the given texts are stored, plus, with autoTranslate, exactly the missing required languages, translated from the first declared language present, each text sent out once and audited every time; the caller\'s object is not changed. Reading with a locale gives exactly that text, else the first fallback that exists, else LocaleNotSpecifiedError; raw gives the stored map; a default locale given at openVault or by setLocale, at any time, holds for get, getMany, list and frames; reading never changes what is stored, and exports hold the stored values. A dictionary is a map from keys to labels that every session sees alike, through list, get, labels on records, joins and grouping; every change is in the ledger, a put raises the version of its entry by one, and changes are made only by the roles writableBy names, however the dictionary was opened first. rename moves the labels and rewrites that key in every record of every registered collection, eager or lazy, and nowhere else; broken off at any store call or by a crash, no record is left without its label and repeating it completes it.',
  over: ['inputs', 'histories', 'fault_sequences', 'configurations'], text: 'all combinations of rules, values, paths, locales, fallbacks and default-locale settings listed; all dictionary histories to the bound; all break-off points of a rename',
  why: 'tests read one text in one locale and rename one key in an eager collection; the answer depends on the rule, the languages present, the fallback chain, when the default was set, and where a rename stops.',
  files: [H + 'i18n/core.ts', H + 'i18n/dictionary.ts', H + 'collection.ts', H + 'vault.ts', H + 'noydb.ts'], mech: [['required languages', H + 'i18n/core.ts validateI18nTextValue'], ['locale resolution', H + 'i18n/core.ts resolveI18nText, collection.ts applyLocaleToRecord'], ['dictionary writes and rename', H + 'i18n/dictionary.ts'], ['auto-translation', H + 'collection.ts put, noydb.ts invokeTranslator']],
  design: 'Values, rules, translator settings and write paths are enumerated in full and compared with a small reference (accept or refuse, stored map, translator calls). Reads are enumerated over texts, keys, labels, locale options, ways of setting the default and read paths. Dictionary histories run on three collections (eager, lazy with an index, and one with the same text in an ordinary field); after each step this and a fresh session are compared with the reference in list, get, labels, joins, groups, index lookups, ledger and integrity. A rename is broken off before or after each of its store calls, as an error and as a crash, examined and repeated.' },
{
  id: 'P27',
  title: 'A session ends when its token, policy or instance says so, and stays ended',
  statement: `A session created with createSession can be turned back into the same keyring (keys, user, role, permissions) by resolveSession until its lifetime has passed, it is revoked (revokeSession, revokeAllSessions) or the instance closes, and never afterwards; isSessionAlive agrees, ending one session leaves the others alone, and no edit of a token by its holder (later expiry, other role, another session's id or contents, damaged bytes) extends it or yields other keys. The token never shows a data key. A policy enforcer ends its session exactly once, at the idle timeout after the last activity, at the absolute timeout after creation however much activity there was, or when the page is hidden if lockOnBackground is set, revoking its token and leaving no timers or listeners; checkOperation then always throws SessionExpiredError, before that it throws SessionPolicyError for exactly the operations in requireReAuthFor. Invalid policies (non-positive, idle not less than absolute) are refused. An instance with an idle timeout (sessionPolicy.idleTimeoutMs, else sessionTimeout) closes that long after the last openVault, listAccessibleVaults or queryAcross and not before; a closed instance revokes all sessions, opens no vault, changes nothing in the store and keeps no key, even if it is closed while an operation is in progress. Development unlock only stores keys with the exact acknowledgement, outside production and on a local host, returns for a vault and user exactly the keyring stored for that pair and storage, and nothing once cleared or damaged.`,
  over: ['histories', 'schedules', 'inputs', 'configurations'],
  text: 'every history of session, policy, instance and development-unlock operations with waits placed around each deadline, every edit of a token, every point at which close() can overlap an operation',
  why: 'Whether a session is over depends on the order of activity, waits, revocations and late timers; tests try a few fixed orders.',
  files: [H + 'session/session.ts', H + 'session/session-policy.ts', H + 'session/dev-unlock.ts', H + 'noydb.ts'],
  mech: [['resolveSession / isSessionAlive', H + 'session/session.ts'], ['PolicyEnforcer', H + 'session/session-policy.ts'], ['resetSessionTimer / close / getKeyring', H + 'noydb.ts'], ['enableDevUnlock / loadDevUnlock', H + 'session/dev-unlock.ts']],
  design: `Four explorations of the real code on the controlled clock and timer queue. (1) All token histories of length 4 (13 operations: create with three lifetimes, revoke one, revoke all, resolve, waits around each deadline); after each step isSessionAlive and activeSessionCount are compared with a reference, and at the end 13 edits of each token are resolved. (2) All policy histories of length 4 for 9 policies (activity, checks, hide/show, destroy, waits, blocked event loop, waits longer than a platform timer), reference: the earliest deadline. (3) All instance histories of length 4 for 7 timeout settings, encrypted and plaintext, then every gated method on the closed instance; plus every interleaving of close() with open, list, queryAcross, grant, rotate and changeSecret. (4) Development unlock: the full product of guards, and all histories of length 3 over pairs of confusable names. That the instance itself does not enforce absoluteTimeoutMs, requireReAuthFor and lockOnBackground is a known finding.`,
},
{
  id: 'P32',
  title: 'Exports hold every record exactly, and imports apply exactly the file or nothing',
  statement: `Files written by as-json, as-ndjson, as-csv, as-xml, as-xlsx, as-sql, as-zip and as-blob are well-formed for any other reader of the format and hold exactly the records of the collection: every string, number, boolean and nested value, every field name, quotes, separators, line breaks and markup included, whatever options (columns, filters, separators, namespaces, sheets, dialects, AES password) are given, whether the collection is loaded eagerly or lazily; SQL dumps declare columns that can hold the values. toString, toBytes, stream, pipe, download and write agree. Importing a file (fromString, fromBytes, fromObject) first gives a plan that lists exactly the records the file adds, changes and lacks, without touching the vault; importing an export back into its vault plans nothing, and into an empty vault restores the records under their keys, text and number keys and other key fields alike. apply() then leaves exactly what the policy says: merge adds and updates, replace also deletes what the file lacks, insert-only only adds; other collections stay as they are; if the store fails at any point, apply rejects and the vault is as before. A file that is malformed, cut short, altered, of another kind or encrypted with another password is rejected and changes nothing. Archives never place an entry outside their folder nor two under one path, and every attachment is in them byte for byte.`,
  over: ['inputs', 'configurations', 'fault_sequences'],
  text: 'all strings over an alphabet of awkward characters up to the bound, all pairs of field values, all combinations of live and file states and policies, all store faults during apply, all archives to the bound with every byte changed or cut',
  why: 'Tests export a handful of tame records; whether a file can be read back depends on particular characters, field sets, value types and policies in combination.',
  files: ['packages/as-json/src/index.ts', 'packages/as-ndjson/src/index.ts', 'packages/as-csv/src/index.ts', 'packages/as-xml/src/index.ts', 'packages/as-xlsx/src/xlsx.ts', 'packages/as-sql/src/index.ts', 'packages/as-zip/src/zip.ts', 'packages/as-zip/src/aes.ts', 'packages/as-blob/src/index.ts', H + 'vault-diff.ts', H + 'vault.ts'],
  mech: [['escaping and type inference per format', 'packages/as-*/src'], ['zip and AES container', 'packages/as-zip/src/zip.ts, aes.ts, read.ts'], ['import plan', H + 'vault-diff.ts diffVault'], ['record stream', H + 'vault.ts exportStream']],
  design: 'The real export and import code runs on enumerated vaults; its output is decoded by readers written for this check from the format specifications (CSV, XML, ZIP with WinZip AES through node:crypto, SpreadsheetML, three SQL dialects; SQLite dumps are also loaded into node:sqlite), never by the code under test. Enumerated: every string up to length 3 (4 in the thorough tier) over 11 awkward characters plus a word list, per format and option set; every pair of 27 values in one field; field names; export options; every pair of live and file states per policy and format, with a reference for plan and result; several collections at once; a store failure at each call of apply; delivery functions with a recording file system and page; archives with every byte changed and every length cut; AES lengths around block boundaries; attachment names; malformed files.',
},
{
  id: 'P35',
  title: 'Data leaves and enters a vault as files only under a right that was granted',
  statement: `Every export function of the as-* packages and vault.exportBlobs work for a user exactly if their keyring's exportCapability lists the format or '*' (no role has any by default, encrypted or not); the encrypted bundle works exactly if exportCapability.bundle says so, or, if it says nothing, for owners and admins. Every import function works exactly if importCapability lists the format or '*', for no role by default, and is refused before the file is looked at. A refused call throws ExportCapabilityError or ImportCapabilityError and delivers, writes and changes nothing. Writing plaintext to disk or a stream (write, pipe) also needs acknowledgeRisks to be exactly true. An export holds the data of the collections the user may read and nothing of the others; a bundle shows no plaintext; applying an import needs the right to write and leaves no trace when refused. canExport, canImport, assertCanExport, assertCanImport and the evaluate functions say the same. A user's rights stay exactly as granted through changes of passphrase, key rotation, revocation of others, new collections and tiers, backup and restore, bundles made for them and new sessions, until they are granted anew. exportBlobs records every export before handing out the first attachment.`,
  over: ['configurations', 'histories', 'inputs'],
  text: 'all roles × export and import rights × export and import functions × acknowledgements, and all histories of key operations to the bound',
  why: 'Tests check one format for one role; a forgotten gate, a wrong format name, a default that overrides a refusal or a keyring rewritten without its rights only shows for particular combinations.',
  files: [H + 'team/keyring.ts', H + 'vault.ts', H + 'blobs/export-blobs.ts', 'packages/as-csv/src/index.ts', 'packages/as-json/src/index.ts', 'packages/as-ndjson/src/index.ts', 'packages/as-xml/src/index.ts', 'packages/as-sql/src/index.ts', 'packages/as-xlsx/src/index.ts', 'packages/as-zip/src/index.ts', 'packages/as-blob/src/index.ts', 'packages/as-noydb/src/index.ts'],
  mech: [['rights', H + 'team/keyring.ts hasExportCapability, hasImportCapability'], ['gates', H + 'vault.ts assertCanExport, assertCanImport'], ['rights kept in keyring files', H + 'team/keyring.ts grant, changeSecret, rotateKeys, buildRecipientKeyringFile']],
  design: 'A reference of four lines says who may do what. (1) For five roles and an unencrypted vault, every listed combination of rights: all 37 ways out, over a readable and an unreadable collection, with six values of acknowledgeRisks, and all 8 ways in, with good and malformed files; files, downloads and sinks are recorded by stand-ins and searched for marks placed in the records and attachments. (2) Every history of three of ten key operations (four in the thorough tier) from three starting rights per role; after each step a new session must report exactly the granted rights. (3) exportBlobs stopped or aborted after each attachment: the audit record is there first, exactly once.',
},
{
  id: 'P36',
  title: 'A schema decides what a collection stores and returns',
  statement: 'On a collection opened with a schema, every write (put, putMany in either form, a transaction, revert, putAtTier) stores exactly the value the validator returned, or is refused with SchemaValidationError (direction input, carrying the validator\'s issues) or the validator\'s own exception; a refused write changes nothing: not the stored records, the caches, the indexes, the history, the ledger or the listeners. A refused member of a non-atomic putMany is reported and the others stored. The caller\'s object is left as it was. Every read (get, getMany, list, query, scan, listPage, lazyQuery, deterministic lookups, getAtTier, exports, frames) returns values the current schema accepts, as the validator returned them, or fails with direction output; a stored record that no longer fits is never returned as is and never left out silently. History reads return old versions as they were stored. Synchronous and asynchronous validators behave alike.',
  over: ['histories', 'inputs', 'configurations'],
  text: 'for all write histories of length 2 (thorough: 3) over five values and every write path, four kinds of schema (strict, coercing, throwing, with an empty issue list), synchronous or asynchronous, in eager, lazy, indexed, tiered and unencrypted collections; for all stored states of two records and every read path',
  why: 'A schema is called on one line of the write path and one of the read path, while the collection has a dozen ways in and out; tests exercise put and get, and a path that skips the validator looks correct for as long as the data happens to fit.',
  files: [H + 'schema.ts', H + 'collection.ts', H + 'vault.ts'],
  mech: [['validateSchemaInput', H + 'schema.ts'], ['validateSchemaOutput', H + 'schema.ts'], ['Collection.put / putAtTier / revert', H + 'collection.ts'], ['Collection.decryptRecord', H + 'collection.ts']],
  observe: 'results and errors of the public API, store contents as read by a session without a schema, events, history, ledger head',
  design: 'Exhaustive histories over the real collection with a reference validator as oracle. After each step the records read through the schema, and the records a session without schema reads from the same store, are compared with the model; refused single writes must leave the store byte for byte as it was. A second unit stores every pair of values without a schema and reads them back through each read path with one: complete and validated, or an error with direction output. Further units revert to versions that no longer fit, and watch listeners, live queries, ledger and history beside a refused write.',
},
{ id: 'P42', title: 'A store reached through a peer channel behaves as the store itself',
  statement: 'Every contract call made through peerStore over an in-memory, data-channel or browser-tab channel has the same effect, result and error (conflicts with their version included) as the call on the served store, whatever else is under way and however many tabs share the channel. Only the served and allowed methods reach the store. Every call ends exactly once: with its own answer, or rejected at its timeout, when the channel closes or when the client is disposed; late, foreign or malformed messages change nothing, and a stopped server stays silent. Channels deliver to current subscribers in order and report closing once; the WebRTC handshake hands out complete descriptions and open channels only. Vaults synchronise through a peer as they do directly, with nothing readable on the wire.',
  over: ['histories', 'schedules', 'inputs'], text: 'all histories of two contract calls per transport; all completion orders of overlapping calls; all sequences of four protocol events',
  why: 'tests make a few sequential calls on one in-memory pair; lost arguments, mixed-up answers and stuck calls need particular arguments, overlap or event orders.',
  files: ['packages/by-peer/src/rpc.ts', 'packages/by-peer/src/serve.ts', 'packages/by-peer/src/peer-store.ts', 'packages/by-peer/src/channel.ts', 'packages/by-peer/src/webrtc.ts', 'packages/by-tabs/src/index.ts'],
  mech: [['createRpcClient', 'packages/by-peer/src/rpc.ts'], ['servePeerStore', 'packages/by-peer/src/serve.ts'], ['peerStore', 'packages/by-peer/src/peer-store.ts'], ['fromDataChannel', 'packages/by-peer/src/channel.ts'], ['createOffer / acceptOffer', 'packages/by-peer/src/webrtc.ts'], ['tabsChannel', 'packages/by-tabs/src/index.ts']],
  observe: 'results and errors of calls, messages sent, contents of the store',
  design: 'The real client, server and channels run over stand-ins for RTCDataChannel, RTCPeerConnection and BroadcastChannel. Histories of contract calls are executed through the channel and directly, and results, errors and contents compared. Overlapping calls of one client and of several tabs are run under every completion order of the served store; the answers must fit some order of the calls on a plain store. Event sequences on the client (call, answer, failure, foreign and malformed message, close, dispose, time) and on the server follow a small model of the protocol. Vault histories of two devices are run once through the peer and once directly and compared.' },
{ id: 'P41', title: 'The REST API shows and changes exactly what a live session may',
  statement: 'A request to the in-rest handler is served exactly if it carries, as Authorization: Bearer, the token of a session that was unlocked and not deleted, and whose last use is no longer ago than the time to live; each use extends it, GET /sessions/current only reports it, and the sessions of one handler are unknown to another. Every other request for data is answered 401, touches nothing and learns nothing of the data. Records are read, listed, written and deleted under exactly the vault, collection and record names of the path, percent-encoded names included; a record that was put is returned unchanged by get and list and by any other session opened later. List queries (where with every operator, several of them, orderBy, limit) return exactly the records that match, in order; malformed ones are answered 400. Missing records and unknown paths are 404, malformed bodies 400, a wrong passphrase 401, accesses the user has no right to 403, store failures 500 without details of the data; a refused or failed request changes nothing, and the handler keeps working after it. The hono, express, fastify and nitro adapters pass method, path, query, headers and body unchanged and return status, headers and body unchanged.',
  over: ['histories', 'inputs', 'configurations', 'fault_sequences'], text: 'all histories of four of twenty-one requests and waits; all combinations of method, path and credentials; all filters and pairs of filters; all pairs of names; all kinds of user; every single store fault; all requests and answers through each adapter',
  why: 'tests send a dozen requests through one handler; expired or foreign tokens, awkward names, odd query strings and failures at a particular store call each need their own combination.',
  files: ['packages/in-rest/src/index.ts', 'packages/in-rest/src/router.ts', 'packages/in-rest/src/sessions.ts', 'packages/in-rest/src/query-params.ts', 'packages/in-rest/src/adapters/hono.ts', 'packages/in-rest/src/adapters/express.ts', 'packages/in-rest/src/adapters/fastify.ts', 'packages/in-rest/src/adapters/nitro.ts'],
  mech: [['routes', 'packages/in-rest/src'], ['sessions', 'packages/in-rest/src'], ['adapters', 'packages/in-rest/src/adapters']],
  observe: 'status, headers and body of every answer; contents of the store as read by another session',
  design: 'The real handler runs on an in-memory store with controlled time. Request histories follow a small model of sessions and records; every answer and, at the end, what a fresh session reads from the store are compared. Routes are enumerated as method × path × credentials under three base paths, queries as every field × operator × value and pairs of them against a filter written for the check, names as all pairs in each position, rights as all kinds of user, faults as a failure of each store call of each request. Adapters run over stand-ins for their frameworks that carry requests and answers.' },
{
    id: 'P43',
    title: 'UI bindings show exactly the current contents, and persist what they should',
    statement: 'Each framework binding (React useVault/useCollection/useQuery/useSync, Vue useCollection/useSync/useBlobURL, Solid signals, Svelte stores, the Zustand store, Pinia defineNoydbStore with items, count, byId, query and liveQuery, TanStack Query list/get/query options with bindInvalidation) shows, whenever no work is pending, exactly what its collection in its vault holds at that moment (for a query view, exactly the query result, stored records included), not loading and without error. This holds whatever was stored before mounting, whatever puts, deletes, batches, transactions, rejected writes and writes to other collections and vaults happened before, while and after it was mounted, in every order in which store calls complete. When the vault, collection, query argument, attachment id or locale of a view changes, the last choice is what is shown, also when an earlier load finishes later. A failing store call ends loading and shows an error, and the view recovers with the next refresh or change. After unmount or stop the view neither changes nor reads, and attachment URLs are released: exactly the shown one is alive. Write actions of the bindings store what they are given or report the failure. A table state gives exactly the filtered, sorted page, and comes back from the query. The Pinia plugin stores exactly the chosen keys of the state, in order, and a new session starts with the last stored state; rejected or failed persistence is reported. useDictLabel shows the label for the current locale with its fallbacks. A capability grant goes idle, requested, granted, idle: it can only be approved by the approver role or an owner, ends exactly at its time limit or when released, and its callbacks and request record follow each change once.',
    over: ['histories', 'schedules', 'fault_sequences', 'inputs'],
    text: 'all write/mount/unmount histories, all orders of store-call completion against view changes, every failing store call, all table states and persistence programs in the bounds',
    why: 'the unit tests mount one view over one sequence of writes with a store that answers immediately; stale results, lost first loads and leaks appear only for particular orders, failures and unmount moments',
    files: ['packages/in-react/src/index.ts', 'packages/in-vue/src/useCollection.ts', 'packages/in-vue/src/useBlobURL.ts', 'packages/in-vue/src/useSync.ts', 'packages/in-solid/src/index.ts', 'packages/in-svelte/src/index.ts', 'packages/in-zustand/src/index.ts', 'packages/in-pinia/src/defineNoydbStore.ts', 'packages/in-pinia/src/plugin.ts', 'packages/in-pinia/src/useDictLabel.ts', 'packages/in-pinia/src/useCapabilityGrant.ts', 'packages/in-tanstack-query/src/index.ts', 'packages/in-tanstack-table/src/index.ts'],
    mech: [['refresh on the change stream', 'in-react/in-solid/in-svelte/in-zustand refresh()'], ['cancellation of late results', 'in-react useEffect cleanup; in-vue useBlobURL load token'], ['state persistence', 'in-pinia plugin.ts $subscribe'], ['table state translation', 'in-tanstack-table buildQueryFromTableState']],
    state: [['view state', 'what data, loading and error show', 'return values of the bindings'], ['object URLs', 'created and not yet revoked', 'URL.createObjectURL stand-in']],
    observe: 'Public return values of the bindings, collection reads counted on the collection object, object URLs counted by a stand-in.',
    design: 'The real bindings run on the real Vue, Pinia, Solid, Zustand and TanStack libraries; React is replaced by a stand-in with the same hook rules (lib/fakereact.mjs, also in its StrictMode variant). All histories of writes are run with a view of each binding mounted before every step and unmounted at every step (each binding alone, so that no other view loads the records for it, and all together). A gated store then explores the orders in which store calls complete against mounting, writes and switches, and a failing store fails each call of the first load in turn. The reference is the map of records kept by the check (for overlapping writes: what a fresh session reads).',
  },
{ id: 'P44', title: 'Tools offered to a language model follow the rights, and calls do as they say',
  statement: "buildToolset publishes exactly one tool per operation asked for (list and get by default) and per collection the caller may read, within the collections asked for; tools that write (put, delete) appear only for collections the caller may write (owner, admin, an operator with rw), and system collections never. Every format carries the same names, descriptions and parameters, and each published name is read back to its collection and operation, underscores included. invokeToolCall refuses, with ToolNotFoundError or ToolDeniedError, every made-up name, every system collection, every operation or collection outside the given limits (list and get if none are given), and every get, put or delete without a record id; a call beyond the caller's rights is refused too, and no refused call changes the store. Every other call gives exactly the answer and has exactly the effect of the same operation on the collection.",
  over: ['configurations', 'inputs', 'histories'], text: 'all people × operation sets × allowlists × formats; all call names × operations × limits × people; odd names and arguments; all histories of three calls',
  why: 'tests publish tools to the owner only and make six calls; a tool published to a reader or a call that reaches a system collection needs a particular role, name or limit.',
  files: ['packages/in-ai/src/index.ts'],
  mech: [['publication', 'packages/in-ai/src/index.ts buildToolset'], ['dispatch', 'packages/in-ai/src/index.ts invokeToolCall'], ['names', 'packages/in-ai/src/index.ts parseToolName']],
  observe: 'published tools, results and errors of calls, store contents',
  design: 'A table of twelve people says what each may read and write in three collections whose names contain and end like operations. All sets of operations, allowlists, labels and formats are published for each and compared with the table; every name × operation is called under 54 limits by each person, and the answer, the refusal, the other records and the raw store are compared. Call histories mixed with direct writes follow a map of records and are read back by another session.',
},
{ id: 'P45', title: 'Collaborative documents keep every delivered edit',
  statement: 'A document of a Yjs collection reads, at any time and in any session, as a Yjs document that received exactly the updates applied to it (in any order, duplicates included) since it was last put whole or deleted; putting a document stores its state at the moment of the call. A document that was never stored or was deleted reads empty with its declared fields, and has() tells which exist. Documents do not affect each other, and nothing of their text is readable in the store of an encrypted vault. Overlapping calls on one collection object give the result of some order of them, so no update is lost; when a store call fails, the document has every acknowledged update, and updates delivered again afterwards are stored.',
  over: ['histories', 'schedules', 'fault_sequences'], text: 'all histories of four edits, deliveries, reloads, puts, deletes and reopenings of two editors; all orders of store calls of two or three overlapping calls; every single store fault',
  why: 'tests apply one update after another to a store that answers at once; a lost update needs two updates under way, an update before the one it builds on, or a failing call.',
  files: ['packages/in-yjs/src/yjs-collection.ts', 'packages/in-yjs/src/descriptors.ts', H + 'crdt/crdt.ts', H + 'collection.ts'],
  mech: [['read-merge-write of an update', 'packages/in-yjs/src/yjs-collection.ts applyUpdate'], ['whole documents', 'packages/in-yjs/src/yjs-collection.ts putYDoc, getYDoc']],
  observe: 'documents read through the collection, has(), raw store contents',
  design: 'The real package runs on the real yjs library. Histories of two editors (text with formatting, maps, nested maps, arrays, undeclared fields; oldest-first, newest-first and repeated delivery) are executed next to a reference Y.Doc that gets the same updates; content and state vector are compared after every step, a second document and the raw store too. Overlapping calls run under every completion order of store calls and must equal a serial order. Each store call of two overlapping updates fails once, before or after taking effect.',
},
{ id: 'P46', title: 'Measuring a store changes nothing and reports what happened',
  statement: 'A store wrapped by toMeter gives the same results, errors (conflicts included) and contents as the store itself and has the same optional methods, whatever its listeners and callbacks do. Its snapshot counts exactly the calls, failures and conflicts since the last reset, and gives, over the last sampleLimit durations, percentiles, maximum and mean of the calls actually made, overlapping ones included. From the tenth put on, the status is degraded exactly while the p99 of puts exceeds degradedMs; a failed liveness check makes it unreachable and a successful one makes an unreachable store ok again; every change of status is announced once, and nothing to listeners after unsubscribing or to anyone by liveness checks after close. runStoreProbe and probeTopology report the measured latencies, the number of winning compare-and-swap writes, exactly the risks whose limits are exceeded or conditions met, and the roles these leave, also when two probes run at once, and leave the store as they found it.',
  over: ['histories', 'schedules', 'configurations'], text: 'all histories of three calls of given latency and outcome after 0, 8, 9 or 100 puts; all completion orders of three overlapping calls; all histories of five health-check events; all probe options × kinds of store; all topologies',
  why: 'tests make a handful of calls and one slow series; wrong counts, missed or repeated announcements and disturbed results depend on thresholds met exactly, on failing callbacks and on overlap.',
  files: ['packages/to-meter/src/index.ts', 'packages/to-probe/src/probe.ts', 'packages/to-probe/src/topology.ts', H + 'store/store-middleware.ts'],
  mech: [['aggregation', 'packages/to-meter/src/index.ts recordOp, computeMethodStats'], ['status', 'packages/to-meter/src/index.ts transition, startLiveness'], ['probe axes', 'packages/to-probe/src/probe.ts'], ['topology rules', 'packages/to-probe/src/topology.ts']],
  observe: 'results of calls, snapshots, events, reports, store contents',
  design: 'Time is controlled: each call of the inner store takes a chosen number of milliseconds and succeeds, conflicts or fails. Every history is executed through the meter and on a bare store; results and contents are compared and each snapshot with figures computed from the calls (percentiles by their definition, not by the code). Failing listeners and callbacks, sample limits met and exceeded, resets and liveness checks with and without ping are part of the histories. Probes run on stores of known latency and atomicity under all option sets, alone and in pairs with shifted steps.',
},
{ id: 'P47', title: 'Each server request is served with its own session and closed afterwards',
  statement: 'With the Next.js helpers, the session read for a request is the one last written to its cookies (names and age as configured, age per write included), or none if it was cleared, has expired or is incomplete; cookies are httpOnly and secure and clearing leaves none. getNoydb calls the factory of the newest configuration with exactly that session, and every helper is refused before configuration. withVault and withNoydb run the handler exactly once with the vault or database of that session and the request, return its result or pass on its error, and close the database exactly once after the handler has finished and before the answer, also when opening the vault or the handler fails and whatever closing does; without a session, vault or factory the handler does not run. Overlapping requests do not see each other\'s sessions.',
  over: ['histories', 'configurations', 'schedules'], text: 'all histories of four session events × cookie options; all combinations of wrapper, person, handler outcome, failure and closing behaviour; all interleavings of two requests',
  why: 'tests serve one request with one cookie; an unclosed database, a half-present session or a shared handler needs a failure at a particular point or two requests.',
  files: ['packages/in-nextjs/src/index.ts'],
  mech: [['cookies', 'packages/in-nextjs/src/index.ts cookieSession'], ['wrappers', 'packages/in-nextjs/src/index.ts withVault, withNoydb, safeClose']],
  observe: 'sessions read, cookies set, arguments and results of handlers, whether a database still opens vaults',
  design: 'Session histories run over a stand-in cookie jar that honours max age and follow a three-field model. 896 requests combine wrapper, person (owner, viewer, stranger, nobody), handler outcome, failing part and behaviour of close on real databases. Two requests by two people are advanced step by step in all 20 orders, through two handlers or one.',
},
{ id: 'P34', title: 'Exported files get safe names and keep their contents',
  statement: 'For every name, destination profile and length limit, sanitizeFilename either refuses with FilenameSanitizationError or gives a name that is safe at the destination. It refuses a NUL, a name with nothing left, a dot segment and a limit too small for any of the name. The result is in NFC and has no bidi override, no leading or trailing blanks, no character forbidden by the profile, no device name, trailing dot or hidden system name where the profile excludes them, only whole escapes and whole characters, and it respects the limit of the profile or the caller, also after shortening; a name that is already safe and short enough is only normalised. The opaque profile gives the id and a plain extension and requires an id. exportBlobsToDirectory writes every attachment chosen by its options exactly once with its bytes, under such a name and inside the directory, and nothing else (for opaque names a manifest that maps them back); attachments with equal names are kept apart, overwritten by the later, refused or renamed by the caller, as chosen, a name of the caller that leads outside is refused with PathEscapeError, and the result reports what was written.',
  over: ['inputs', 'configurations'], text: 'all names of three (thorough: four) of 25 harmful characters × six profiles, all names of four of nine characters × limits 1 to 12, device and system names in all spellings, names around every limit; all pairs of 26 attachment names × eight profiles × five collision strategies',
  why: 'tests try one name per rule; an unsafe name comes from two rules meeting, such as a cut that leaves a trailing dot, or a renamed file meeting another with that name.',
  files: [H + 'util/sanitize-filename.ts', 'packages/to-file/src/export-blobs-to-directory.ts', H + 'blobs/export-blobs.ts'],
  mech: [['profiles', H + 'util/sanitize-filename.ts'], ['collisions and containment', 'packages/to-file/src/export-blobs-to-directory.ts exportBlobsToDirectory']],
  observe: 'returned names and errors; files of the in-memory file system; result and manifest',
  design: 'The sanitizer is called with every name of the bound and compared with an independent specification: exactly where the name fits, and by the safety rules plus being a beginning of the full name where it was cut. Exports run on real encrypted vaults with attachments of all pairs of names (and longer lists with repeated names) into an in-memory file system that records every path, so an escaping path would be seen and reach nothing.',
},
{ id: 'P31', title: 'Read-only views read like the vault and change nothing',
  statement: 'A collection of vault.frame() answers every read (get and list with any locale, query, aggregates, history, getVersion) and frame.collections() exactly as the live vault does at that moment for the same user, refusals included, however long before the frame was taken. Every write method of a frame (put, delete, update, revert, putMany, deleteMany) rejects with ReadOnlyFrameError and every write method of vault.at(t) (put, delete, update) with ReadOnlyAtInstantError, whatever the arguments, naming the attempted method; neither such a write nor any read through a view writes to the store, announces a change, extends the ledger or alters what the vault reads. Without the shadow or history strategy, frame() and at() throw and name what is missing.',
  over: ['histories', 'configurations'], text: 'all histories of two (owner: three) of nine operations × six kinds of collections × four users; 14 writes and 40 reads through views taken before and after',
  why: 'tests try each write once on a fresh frame; a view that is stale, drops an argument or lets one write through needs a particular history, argument or kind of collection.',
  files: [H + 'shadow/vault-frame.ts', H + 'history/time-machine.ts', H + 'vault.ts'],
  mech: [['frames', H + 'shadow/vault-frame.ts'], ['instants', H + 'history/time-machine.ts CollectionInstant'], ['off switches', H + 'shadow/strategy.ts']],
  observe: 'results and errors of reads and writes, store calls, change events, ledger head',
  design: 'Histories by the owner, partly in another session, run on real vaults with plain, indexed, lazy, validated, translated and CRDT collections. After each, an early view, an early frame and a new frame answer all reads for an owner, viewer, restricted operator and an operator without the collection; each answer or error is compared with the live collection, and for the plain one with what was written. Then all writes are tried on all views while store calls, events and the ledger are watched.',
},
{ id: 'P48', title: 'Administration commands and generators do all of their work or nothing',
  statement: 'addUser, rotate and backup of create-noy-db have exactly the effect of granting, rotating or dumping with the hub as that user: they succeed when it does, leave everybody the same access, change no other file, and report what was done; a backup is written to the resolved path, has the reported size and restores the vault. When the passphrase is wrong, the confirmation differs, the prompt is cancelled, the role lacks collections, the target scheme is unsupported or the hub refuses, they fail and change no file; what is known to be invalid is refused before a passphrase is asked for. The database is closed afterwards in every case, failing file operations included. addCollection accepts exactly the documented names, writes both files or, if either exists, neither, and the generated store and page run for every accepted name and vault. runWizard without prompts fills only a missing or empty directory with exactly the files of the chosen template, and adds module and settings to an existing Nuxt configuration without changing anything else in it; dry runs, second runs and unsupported or already complete configurations change nothing.',
  over: ['histories', 'inputs', 'configurations', 'fault_sequences'], text: 'all histories of two of 30 commands; every single failing file operation; all collection names of three of eleven characters and 25 words × ten vault names × present files; all templates × adapters × target states × names; 324 configuration files × options',
  why: 'tests run each command once with matching answers; leftovers of a refused command, an unclosed database or broken generated code need a particular answer, failure or name.',
  files: ['packages/create-noy-db/src/commands/add-user.ts', 'packages/create-noy-db/src/commands/rotate.ts', 'packages/create-noy-db/src/commands/backup.ts', 'packages/create-noy-db/src/commands/add.ts', 'packages/create-noy-db/src/wizard/run.ts', 'packages/create-noy-db/src/wizard/augment.ts', 'packages/create-noy-db/src/wizard/render.ts'],
  mech: [['commands', 'packages/create-noy-db/src/commands'], ['wizard', 'packages/create-noy-db/src/wizard']],
  observe: 'results and errors, all files of the in-memory file system, passphrase prompts, access of every user, execution of generated code',
  design: 'Commands run against the real file store on an in-memory file system. Each is also carried out directly with the hub on a copy, and outcome, files touched and the table of what six people can read and write are compared. Generated stores and pages are executed with stand-ins for the framework; configuration files are evaluated before and after. Each file operation of a grant, a rotation and a backup fails once.',
},
]
