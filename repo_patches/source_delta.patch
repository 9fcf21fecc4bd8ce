From b6c2e343f7bbbceadeb2823e9b21095d4be9e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:29 +0000
Subject: [PATCH 001/113] fix: keep index side-cars out of count, paging, scan
 and hydration

---
 packages/hub/src/collection.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 9c59ac4..9d0c011 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1752,7 +1752,7 @@ export class Collection<T> {
   async count(): Promise<number> {
     if (this.lazy) {
       const ids = await this.adapter.list(this.vault, this.name)
-      return ids.length
+      return ids.filter(id => !decodeIdxId(id)).length
     }
     await this.ensureHydrated()
     return this.cache.size
@@ -1801,7 +1801,7 @@ export class Collection<T> {
     // native path because every id requires its own round-trip, but
     // correct for adapters that haven't opted in.
     warnOnceFallback(this.adapter.name ?? 'unknown')
-    const ids = (await this.adapter.list(this.vault, this.name)).slice().sort()
+    const ids = (await this.adapter.list(this.vault, this.name)).filter(id => !decodeIdxId(id)).sort()
     const start = opts.cursor ? parseInt(opts.cursor, 10) : 0
     const end = Math.min(start + limit, ids.length)
     const items: T[] = []
@@ -1899,6 +1899,7 @@ export class Collection<T> {
   ): Promise<Array<{ id: string; record: T; version: number }>> {
     const out: Array<{ id: string; record: T; version: number }> = []
     for (const { id, envelope } of items) {
+      if (decodeIdxId(id)) continue
       const record = await this.decryptRecord(envelope)
       out.push({ id, record, version: envelope._v })
     }
@@ -1913,6 +1914,7 @@ export class Collection<T> {
 
     const ids = await this.adapter.list(this.vault, this.name)
     for (const id of ids) {
+      if (decodeIdxId(id)) continue
       const envelope = await this.adapter.get(this.vault, this.name, id)
       if (envelope) {
         const record = await this.decryptRecord(envelope)
@@ -1926,6 +1928,7 @@ export class Collection<T> {
   /** Hydrate from a pre-loaded snapshot (used by Vault). */
   async hydrateFromSnapshot(records: Record<string, EncryptedEnvelope>): Promise<void> {
     for (const [id, envelope] of Object.entries(records)) {
+      if (decodeIdxId(id)) continue
       const record = await this.decryptRecord(envelope)
       this.cache.set(id, { record, version: envelope._v })
     }
-- 
2.43.0


From aabd80048066dad9a442cd182f15f7ad25d4f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:49 +0000
Subject: [PATCH 002/113] fix: serialize concurrent operations on one record
 and hydrate once

---
 packages/hub/src/collection.ts | 68 +++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 9d0c011..e843ec5 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -129,6 +129,10 @@ export class Collection<T> {
   // doesn't need a runtime branch on every cache access.
   private readonly cache = new Map<string, { record: T; version: number }>()
   private hydrated = false
+  /** In-flight hydration, shared by every caller that arrives before it finishes. */
+  private hydrating: Promise<void> | null = null
+  /** Tail of the pending read-modify-write chain per record id. */
+  private readonly idLocks = new Map<string, Promise<void>>()
 
   /**
    * Lazy mode flag. `true` when constructed with `prefetch: false`.
@@ -818,11 +822,17 @@ export class Collection<T> {
       if (cached) {
         record = cached.record
       } else {
-        // Cache miss: hit the adapter, decrypt, populate the LRU.
-        const envelope = await this.adapter.get(this.vault, this.name, id)
-        if (!envelope) return null
-        record = await this.decryptRecord(envelope)
-        this.lru.set(id, { record, version: envelope._v }, estimateRecordBytes(record))
+        // Cache miss: hit the adapter, decrypt, populate the LRU. Held under
+        // the id lock so a put/delete landing between the read and the insert
+        // is not shadowed by the older value.
+        const lru = this.lru
+        record = await this.withIdLock(id, async () => {
+          const envelope = await this.adapter.get(this.vault, this.name, id)
+          if (!envelope) return null
+          const fresh = await this.decryptRecord(envelope)
+          lru.set(id, { record: fresh, version: envelope._v }, estimateRecordBytes(fresh))
+          return fresh
+        })
       }
     } else {
       // Eager mode: load everything once, then serve from the in-memory map.
@@ -985,6 +995,27 @@ export class Collection<T> {
       await this.refEnforcer.enforceRefsOnPut(this.name, record)
     }
 
+    const validated = record
+    await this.withIdLock(id, () => this.writeRecord(id, validated))
+  }
+
+  /**
+   * Run `fn` after every earlier `withIdLock` call for the same id has
+   * settled. Serializes the read-version → write-store → update-cache
+   * sequence so concurrent operations on one record cannot interleave.
+   */
+  private withIdLock<R>(id: string, fn: () => Promise<R>): Promise<R> {
+    const run = (this.idLocks.get(id) ?? Promise.resolve()).then(fn)
+    const tail = run.then(() => undefined, () => undefined)
+    this.idLocks.set(id, tail)
+    void tail.then(() => {
+      if (this.idLocks.get(id) === tail) this.idLocks.delete(id)
+    })
+    return run
+  }
+
+  /** Persist an already-validated record. Caller holds the id lock. */
+  private async writeRecord(id: string, record: T): Promise<void> {
     // ─── CRDT mode ─────────────────────────────────────────
     // In CRDT mode we always read the raw envelope from the adapter to get
     // the existing CRDT state, merge the incoming record into it, then
@@ -1211,6 +1242,11 @@ export class Collection<T> {
       await this.refEnforcer.enforceRefsOnDelete(this.name, id)
     }
 
+    await this.withIdLock(id, () => this.removeRecord(id))
+  }
+
+  /** Delete a record whose guards have already passed. Caller holds the id lock. */
+  private async removeRecord(id: string): Promise<void> {
     // In lazy mode the record may not be cached; ask the adapter so we
     // can still write a history snapshot if history is enabled.
     let existing: { record: T; version: number } | undefined
@@ -1224,6 +1260,7 @@ export class Collection<T> {
         }
       }
     } else {
+      await this.ensureHydrated()
       existing = this.cache.get(id)
     }
 
@@ -1782,16 +1819,14 @@ export class Collection<T> {
     if (this.adapter.listPage) {
       const result = await this.adapter.listPage(this.vault, this.name, opts.cursor, limit)
       const decrypted: T[] = []
-      for (const { record, version, id } of await this.decryptPage(result.items)) {
-        // Update cache opportunistically — if the page-fetched record isn't
-        // in cache yet, populate it. This makes a subsequent .get(id) free.
-        // In LAZY mode we deliberately do NOT populate the LRU here:
+      for (const { record } of await this.decryptPage(result.items)) {
+        // Neither cache is populated from a page. Eager mode fills its
+        // cache only by hydration: a page row missing from a hydrated
+        // cache was deleted while the page was in flight, and inserting
+        // it would bring the record back. In LAZY mode,
         // streaming a 100K-record collection should not turn the LRU into
         // a giant write-once buffer that immediately evicts everything.
         // Random-access workloads via .get() are what the LRU is for.
-        if (!this.lazy && !this.cache.has(id)) {
-          this.cache.set(id, { record, version })
-        }
         decrypted.push(record)
       }
       return { items: decrypted, nextCursor: result.nextCursor }
@@ -1811,11 +1846,6 @@ export class Collection<T> {
       if (envelope) {
         const record = await this.decryptRecord(envelope)
         items.push(record)
-        // Same lazy-mode skip as the native path: don't pollute the LRU
-        // with sequential scan results.
-        if (!this.lazy && !this.cache.has(id)) {
-          this.cache.set(id, { record, version: envelope._v })
-        }
       }
     }
     return {
@@ -1911,7 +1941,11 @@ export class Collection<T> {
   /** Load all records from adapter into memory cache. */
   private async ensureHydrated(): Promise<void> {
     if (this.hydrated) return
+    this.hydrating ??= this.hydrate().finally(() => { this.hydrating = null })
+    await this.hydrating
+  }
 
+  private async hydrate(): Promise<void> {
     const ids = await this.adapter.list(this.vault, this.name)
     for (const id of ids) {
       if (decodeIdxId(id)) continue
-- 
2.43.0


From 3d48b038d94fdd8de7590b6dc7c8390faa92306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:05 +0000
Subject: [PATCH 003/113] fix: roll back cache, indexes and the failing
 operation when a transaction aborts

---
 packages/hub/src/collection.ts     | 42 +++++++++++++++++++++++++++---
 packages/hub/src/tx/transaction.ts | 14 +++++-----
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index e843ec5..6be05c9 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1396,6 +1396,41 @@ export class Collection<T> {
     return { ok: failures.length === 0, success, failures }
   }
 
+  /**
+   * Return a record to the envelope it had before a failed batch (`null` =
+   * it did not exist), rolling back store, in-memory cache and indexes
+   * together. Like the raw-store revert it replaces, it fires no change
+   * event and leaves the ledger as-is.
+   *
+   * @internal
+   */
+  async _restore(id: string, prior: EncryptedEnvelope | null): Promise<void> {
+    await this.withIdLock(id, async () => {
+      const current = await this.adapter.get(this.vault, this.name, id)
+      if (current?._data === prior?._data && current?._v === prior?._v) return
+      const currentRecord = current ? await this.decryptRecord(current, { skipValidation: true }) : null
+      const priorRecord = prior ? await this.decryptRecord(prior, { skipValidation: true }) : null
+
+      if (prior) await this.adapter.put(this.vault, this.name, id, prior)
+      else await this.adapter.delete(this.vault, this.name, id)
+
+      if (this.lazy && this.lru) {
+        this.lru.remove(id)
+        if (prior) await this.maintainPersistedIndexesOnPut(id, priorRecord as T, currentRecord, prior._v)
+        else await this.maintainPersistedIndexesOnDelete(id, currentRecord as T)
+      } else if (this.hydrated) {
+        const cached = this.cache.get(id)
+        if (prior) {
+          this.cache.set(id, { record: priorRecord as T, version: prior._v })
+          this.indexes?.upsert(id, priorRecord as T, cached ? cached.record : null)
+        } else {
+          this.cache.delete(id)
+          if (cached) this.indexes?.remove(id, cached.record)
+        }
+      }
+    })
+  }
+
   /**
    * Atomic-mode implementation of {@link putMany}. Pre-flights every
    * `expectedVersion`, executes all puts in declaration order, and
@@ -1429,15 +1464,16 @@ export class Collection<T> {
     const executed: Array<{ id: string; prior: EncryptedEnvelope | null }> = []
     try {
       for (const [id, record] of entries) {
-        await this.put(id, record)
+        // Registered before the attempt: a put that fails part-way may
+        // already have reached the store and has to be undone too.
         executed.push({ id, prior: priors.get(id) ?? null })
+        await this.put(id, record)
       }
       return { ok: true, success: executed.map((e) => e.id), failures: [] }
     } catch (err) {
       for (const { id, prior } of executed.slice().reverse()) {
         try {
-          if (prior) await this.adapter.put(this.vault, this.name, id, prior)
-          else await this.adapter.delete(this.vault, this.name, id)
+          await this._restore(id, prior)
         } catch { /* best-effort */ }
       }
       throw err
diff --git a/packages/hub/src/tx/transaction.ts b/packages/hub/src/tx/transaction.ts
index e24d6b6..50f7738 100644
--- a/packages/hub/src/tx/transaction.ts
+++ b/packages/hub/src/tx/transaction.ts
@@ -239,19 +239,21 @@ export async function runTransaction<T>(
       const coll = db.vault(op.vaultName).collection(op.collectionName)
       const key = keyOf(op)
       const prior = priorEnvelopes.get(key) ?? null
+      // Registered before the attempt: an op that fails part-way may
+      // already have reached the store and has to be undone too.
+      executed.push({ op, priorEnvelope: prior })
       if (op.type === 'put') {
         // eslint-disable-next-line @typescript-eslint/no-explicit-any
         await coll.put(op.id, op.record as any)
       } else {
         await coll.delete(op.id)
       }
-      executed.push({ op, priorEnvelope: prior })
     }
     return bodyResult
   } catch (err) {
     // Phase 3 — best-effort revert. Restore captured prior envelopes
-    // via the raw store to avoid re-firing Collection-level side
-    // effects (we don't want a cascade of change events undoing
+    // (store, cache and indexes) without re-firing Collection-level
+    // side effects (we don't want a cascade of change events undoing
     // themselves). The ledger is left as-is: each committed op
     // appended an entry; the revert is deliberately not recorded as a
     // compensating entry because #240's contract is "atomic or not at
@@ -261,11 +263,7 @@ export async function runTransaction<T>(
     // timestamp.
     for (const { op, priorEnvelope } of executed.slice().reverse()) {
       try {
-        if (priorEnvelope) {
-          await store.put(op.vaultName, op.collectionName, op.id, priorEnvelope)
-        } else {
-          await store.delete(op.vaultName, op.collectionName, op.id)
-        }
+        await db.vault(op.vaultName).collection(op.collectionName)._restore(op.id, priorEnvelope)
       } catch {
         // swallow — best-effort. Surfacing the revert error would
         // mask the original one that triggered the rollback.
-- 
2.43.0


From dcac622b13f39dfa65c575f0d417f164bf7bdc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:36 +0000
Subject: [PATCH 004/113] fix: read blob compression streams while writing so
 large blobs do not hang

---
 packages/hub/src/blobs/attachments.ts | 18 ++++++++++++------
 packages/hub/src/blobs/blob-set.ts    | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/packages/hub/src/blobs/attachments.ts b/packages/hub/src/blobs/attachments.ts
index 665053b..6f32c24 100644
--- a/packages/hub/src/blobs/attachments.ts
+++ b/packages/hub/src/blobs/attachments.ts
@@ -58,11 +58,14 @@ async function compressBytes(
   }
   const cs = new CompressionStream('gzip')
   const writer = cs.writable.getWriter()
+  // Drain the output while writing: past the stream's internal buffer
+  // a write only settles once someone reads.
   // Cast needed: TypeScript lib types CompressionStream as accepting Uint8Array
   // but infers a narrower generic than Uint8Array<ArrayBufferLike>.
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(cs.readable).arrayBuffer()
+  const [buf] = await Promise.all([
+    new Response(cs.readable).arrayBuffer(),
+    writer.write(data as Uint8Array<ArrayBuffer>).then(() => writer.close()),
+  ])
   return { bytes: new Uint8Array(buf), algorithm: 'gzip' }
 }
 
@@ -74,9 +77,12 @@ async function decompressBytes(data: Uint8Array): Promise<Uint8Array> {
   }
   const ds = new DecompressionStream('gzip')
   const writer = ds.writable.getWriter()
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(ds.readable).arrayBuffer()
+  // Drain the output while writing: past the stream's internal buffer
+  // a write only settles once someone reads.
+  const [buf] = await Promise.all([
+    new Response(ds.readable).arrayBuffer(),
+    writer.write(data as Uint8Array<ArrayBuffer>).then(() => writer.close()),
+  ])
   return new Uint8Array(buf)
 }
 
diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 2b529c6..d1c8c58 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -66,9 +66,12 @@ async function compressBytes(
   }
   const cs = new CompressionStream('gzip')
   const writer = cs.writable.getWriter()
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(cs.readable).arrayBuffer()
+  // Drain the output while writing: past the stream's internal buffer
+  // a write only settles once someone reads.
+  const [buf] = await Promise.all([
+    new Response(cs.readable).arrayBuffer(),
+    writer.write(data as Uint8Array<ArrayBuffer>).then(() => writer.close()),
+  ])
   return { bytes: new Uint8Array(buf), algorithm: 'gzip' }
 }
 
@@ -80,9 +83,12 @@ async function decompressBytes(data: Uint8Array): Promise<Uint8Array> {
   }
   const ds = new DecompressionStream('gzip')
   const writer = ds.writable.getWriter()
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(ds.readable).arrayBuffer()
+  // Drain the output while writing: past the stream's internal buffer
+  // a write only settles once someone reads.
+  const [buf] = await Promise.all([
+    new Response(ds.readable).arrayBuffer(),
+    writer.write(data as Uint8Array<ArrayBuffer>).then(() => writer.close()),
+  ])
   return new Uint8Array(buf)
 }
 
-- 
2.43.0


From bc01c1d5dcb2e920b47a1decaf17528f648a6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:55 +0000
Subject: [PATCH 005/113] fix: publish the presence IV that the payload was
 encrypted with

---
 packages/hub/src/team/presence.ts | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/team/presence.ts b/packages/hub/src/team/presence.ts
index ae99b5f..e597237 100644
--- a/packages/hub/src/team/presence.ts
+++ b/packages/hub/src/team/presence.ts
@@ -16,7 +16,7 @@
  */
 
 import type { NoydbStore, PresencePeer } from '../types.js'
-import { encrypt, decrypt, generateIV, bufferToBase64, derivePresenceKey } from '../crypto.js'
+import { encrypt, decrypt, derivePresenceKey } from '../crypto.js'
 
 /** Options for constructing a PresenceHandle. @internal */
 export interface PresenceHandleOpts {
@@ -101,10 +101,8 @@ export class PresenceHandle<P> {
     let encryptedPayload: string
 
     if (this.encrypted && key) {
-      const iv = generateIV()
-      const ivB64 = bufferToBase64(iv)
-      const { data } = await encrypt(plaintext, key)
-      encryptedPayload = JSON.stringify({ iv: ivB64, data })
+      const { iv, data } = await encrypt(plaintext, key)
+      encryptedPayload = JSON.stringify({ iv, data })
     } else {
       encryptedPayload = plaintext
     }
@@ -239,9 +237,8 @@ export class PresenceHandle<P> {
     let data: string
 
     if (this.encrypted && key) {
-      const ivBytes = generateIV()
-      iv = bufferToBase64(ivBytes)
       const result = await encrypt(plaintext, key)
+      iv = result.iv
       data = result.data
     } else {
       data = plaintext
-- 
2.43.0


From 643798fa03d47177e04ed619926c1e8c57da3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:42 +0000
Subject: [PATCH 006/113] fix: authenticate the passphrase of empty vaults and
 share keys of granted collections

---
 packages/hub/src/noydb.ts        |  4 +++-
 packages/hub/src/team/keyring.ts | 20 ++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 378b930..e0c7730 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -887,7 +887,9 @@ export class Noydb {
     } catch (err) {
       // Only create a new keyring if no keyring exists (NoAccessError).
       // If the keyring exists but the passphrase is wrong (InvalidKeyError), propagate the error.
-      if (err instanceof NoAccessError) {
+      // A vault that already has keyrings belongs to someone: a user without one
+      // (never granted, or revoked) must not become a second owner by opening it.
+      if (err instanceof NoAccessError && (await this.options.store.list(vault, '_keyring')).length === 0) {
         keyring = await createOwnerKeyring(this.options.store, vault, this.options.user, this.options.secret)
       } else {
         throw err
diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 0e16892..e5bd6e3 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -139,13 +139,18 @@ export async function createOwnerKeyring(
   const salt = generateSalt()
   const kek = await deriveKey(passphrase, salt)
 
+  // The ledger key exists from the start: every grant propagates it, so all
+  // users chain the same ledger, and unwrapping it authenticates the passphrase
+  // even before the first record is written.
+  const ledgerDek = await generateDEK()
+
   const keyringFile: KeyringFile = {
     _noydb_keyring: NOYDB_KEYRING_VERSION,
     user_id: userId,
     display_name: userId,
     role: 'owner',
     permissions: {},
-    deks: {},
+    deks: { _ledger: await wrapKey(ledgerDek, kek) },
     salt: bufferToBase64(salt),
     created_at: new Date().toISOString(),
     granted_by: userId,
@@ -158,7 +163,7 @@ export async function createOwnerKeyring(
     displayName: userId,
     role: 'owner',
     permissions: {},
-    deks: new Map(),
+    deks: new Map([['_ledger', ledgerDek]]),
     kek,
     salt,
   }
@@ -186,6 +191,17 @@ export async function grant(
   const newSalt = generateSalt()
   const newKek = await deriveKey(options.passphrase, newSalt)
 
+  // A collection granted before anyone wrote to it has no DEK yet. Create it
+  // now, so grantor and grantee do not each generate their own later.
+  let created = false
+  for (const collName of Object.keys(permissions)) {
+    if (callerKeyring.deks.has(collName)) continue
+    if ((await adapter.list(vault, collName)).length > 0) continue
+    callerKeyring.deks.set(collName, await generateDEK())
+    created = true
+  }
+  if (created) await persistKeyring(adapter, vault, callerKeyring)
+
   // Wrap the appropriate DEKs with the new user's KEK
   const wrappedDeks: Record<string, string> = {}
   for (const collName of Object.keys(permissions)) {
-- 
2.43.0


From c735c9e297d801e1f1a2186e8bc0f184e50e65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:22 +0000
Subject: [PATCH 007/113] fix: key rotation keeps history, blobs, tiers and
 deterministic fields readable

---
 packages/hub/src/team/keyring.ts | 68 +++++++++++++++++++++++++++-----
 packages/hub/src/team/tiers.ts   |  6 +++
 2 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index e5bd6e3..d47b529 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -8,9 +8,12 @@ import {
   unwrapKey,
   encrypt,
   decrypt,
+  encryptDeterministic,
+  decryptDeterministic,
   bufferToBase64,
   base64ToBuffer,
 } from '../crypto.js'
+import { parseDekKey } from './tiers.js'
 import { NoAccessError, PermissionDeniedError, PrivilegeEscalationError, KeyringExpiredError } from '../errors.js'
 
 // ─── Roles that can grant/revoke ───────────────────────────────────────
@@ -353,7 +356,7 @@ export async function revoke(
   // they have no delegation subtree to walk.
   const cascadeMode = options.cascade ?? 'strict'
   const usersToRevoke: string[] = [options.userId]
-  const affectedCollections = new Set(Object.keys(targetKeyring.deks))
+  const affectedCollections = new Set(Object.keys(targetKeyring.deks).filter(isDataKey))
 
   if (targetKeyring.role === 'admin') {
     const descendants = await findAdminDescendants(adapter, vault, options.userId)
@@ -379,7 +382,7 @@ export async function revoke(
           if (!descEnv) continue
           const descKf = JSON.parse(descEnv._data) as KeyringFile
           usersToRevoke.push(userId)
-          for (const c of Object.keys(descKf.deks)) affectedCollections.add(c)
+          for (const c of Object.keys(descKf.deks).filter(isDataKey)) affectedCollections.add(c)
         }
       }
     }
@@ -404,6 +407,30 @@ export async function revoke(
 
 // ─── Key Rotation ──────────────────────────────────────────────────────
 
+/**
+ * System keys (`_ledger`, `_blob`, …) are shared by every user of the vault,
+ * so revoking one user leaves them in place for the others.
+ */
+function isDataKey(name: string): boolean {
+  return !name.startsWith('_')
+}
+
+/** Everything in the store that is encrypted under a collection's DEK. */
+async function listKeyUsers(
+  adapter: NoydbStore,
+  vault: string,
+  collection: string,
+): Promise<Array<[collection: string, id: string]>> {
+  const out: Array<[string, string]> = []
+  for (const c of [collection, `_blob_slots_${collection}`, `_blob_versions_${collection}`]) {
+    for (const id of await adapter.list(vault, c)) out.push([c, id])
+  }
+  for (const id of await adapter.list(vault, '_history')) {
+    if (id.startsWith(`${collection}:`)) out.push(['_history', id])
+  }
+  return out
+}
+
 /**
  * Rotate DEKs for specified collections:
  * 1. Generate new DEKs
@@ -414,8 +441,12 @@ export async function rotateKeys(
   adapter: NoydbStore,
   vault: string,
   callerKeyring: UnlockedKeyring,
-  collections: string[],
+  requested: string[],
 ): Promise<void> {
+  // Data the caller cannot decrypt cannot be re-encrypted either: replacing
+  // such a key would make the records unreadable for everyone.
+  const collections = requested.filter(c => callerKeyring.deks.has(c))
+
   // Generate new DEKs for each affected collection
   const newDeks = new Map<string, CryptoKey>()
   for (const collName of collections) {
@@ -428,10 +459,10 @@ export async function rotateKeys(
     const newDek = newDeks.get(collName)!
     if (!oldDek) continue
 
-    const ids = await adapter.list(vault, collName)
-    for (const id of ids) {
-      const envelope = await adapter.get(vault, collName, id)
-      if (!envelope || !envelope._iv) continue
+    const { collection, tier } = parseDekKey(collName)
+    for (const [location, id] of await listKeyUsers(adapter, vault, collection)) {
+      const envelope = await adapter.get(vault, location, id)
+      if (!envelope || !envelope._iv || (envelope._tier ?? 0) !== tier) continue
 
       // Decrypt with old DEK
       const plaintext = await decrypt(envelope._iv, envelope._data, oldDek)
@@ -439,13 +470,13 @@ export async function rotateKeys(
       // Re-encrypt with new DEK
       const { iv, data } = await encrypt(plaintext, newDek)
       const newEnvelope: EncryptedEnvelope = {
+        ...envelope,
         _noydb: NOYDB_FORMAT_VERSION,
-        _v: envelope._v,
-        _ts: new Date().toISOString(),
         _iv: iv,
         _data: data,
+        ...(envelope._det && { _det: await rotateDeterministic(envelope._det, oldDek, newDek, collection) }),
       }
-      await adapter.put(vault, collName, id, newEnvelope)
+      await adapter.put(vault, location, id, newEnvelope)
     }
   }
 
@@ -540,6 +571,23 @@ export async function rotateKeys(
   }
 }
 
+/** Re-encrypt the deterministic slots of an envelope under a new DEK. */
+async function rotateDeterministic(
+  det: Record<string, string>,
+  oldDek: CryptoKey,
+  newDek: CryptoKey,
+  collection: string,
+): Promise<Record<string, string>> {
+  const out: Record<string, string> = {}
+  for (const [field, slot] of Object.entries(det)) {
+    const [oldIv = '', oldData = ''] = slot.split(':')
+    const plaintext = await decryptDeterministic(oldIv, oldData, oldDek)
+    const { iv, data } = await encryptDeterministic(plaintext, newDek, `${collection}/${field}`)
+    out[field] = `${iv}:${data}`
+  }
+  return out
+}
+
 // ─── Change Secret ─────────────────────────────────────────────────────
 
 /** Change the user's passphrase. Re-wraps all DEKs with the new KEK. */
diff --git a/packages/hub/src/team/tiers.ts b/packages/hub/src/team/tiers.ts
index b5c1e06..74dbaba 100644
--- a/packages/hub/src/team/tiers.ts
+++ b/packages/hub/src/team/tiers.ts
@@ -26,6 +26,12 @@ export function dekKey(collection: string, tier: number): string {
   return `${collection}#${tier}`
 }
 
+/** Inverse of {@link dekKey}. */
+export function parseDekKey(key: string): { collection: string; tier: number } {
+  const m = /^(.*)#(\d+)$/.exec(key)
+  return m ? { collection: m[1]!, tier: Number(m[2]) } : { collection: key, tier: 0 }
+}
+
 /**
  * Returns the user's effective clearance for a given collection: the
  * maximum tier for which their keyring holds a DEK. Falls back to 0
-- 
2.43.0


From 92950bcd94401007379894638f969db6c59dcd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:59 +0000
Subject: [PATCH 008/113] fix: never mint a second key for a collection that
 already holds records

---
 packages/hub/src/team/keyring.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index d47b529..7994487 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -804,6 +804,11 @@ export async function ensureCollectionDEK(
     if (pending) return pending
 
     const promise = (async () => {
+      // Existing records were encrypted under a key this user does not hold;
+      // a second key for the collection would split it into two halves.
+      if ((await adapter.list(vault, collectionName)).length > 0) {
+        throw new NoAccessError(`No key for collection "${collectionName}" in vault "${vault}"`)
+      }
       const dek = await generateDEK()
       keyring.deks.set(collectionName, dek)
       await persistKeyring(adapter, vault, keyring)
-- 
2.43.0


From 5ebb0dcc2cbc7ad3e4e4a022aa0a3124faca17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:50 +0000
Subject: [PATCH 009/113] fix: keep keyring provenance, capabilities and the
 new passphrase when a keyring is rewritten

---
 packages/hub/src/noydb.ts        |  4 +++-
 packages/hub/src/team/keyring.ts | 32 +++++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index e0c7730..76813c0 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -654,7 +654,9 @@ export class Noydb {
       keyring,
       newPassphrase,
     )
-    this.keyringCache.set(vault, updated)
+    // Open vaults share this keyring object: left with the old KEK, the next
+    // key they persist would be wrapped under the old passphrase again.
+    Object.assign(keyring, { kek: updated.kek, salt: updated.salt })
   }
 
   // ─── Sync ──────────────────────────────────────────────────────
diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 7994487..d866e9e 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -614,18 +614,15 @@ export async function changeSecret(
     permissions: keyring.permissions,
     deks: wrappedDeks,
     salt: bufferToBase64(newSalt),
-    created_at: new Date().toISOString(),
-    granted_by: keyring.userId,
+    ...(await loadProvenance(adapter, vault, keyring.userId)),
+    ...(keyring.exportCapability !== undefined && { export_capability: keyring.exportCapability }),
+    ...(keyring.importCapability !== undefined && { import_capability: keyring.importCapability }),
   }
 
   await writeKeyringFile(adapter, vault, keyring.userId, keyringFile)
 
   return {
-    userId: keyring.userId,
-    displayName: keyring.displayName,
-    role: keyring.role,
-    permissions: keyring.permissions,
-    deks: keyring.deks, // Same DEKs, different wrapping
+    ...keyring, // Same DEKs, different wrapping
     kek: newKek,
     salt: newSalt,
   }
@@ -840,6 +837,24 @@ export function hasAccess(keyring: UnlockedKeyring, collectionName: string): boo
 
 // ─── Helpers ───────────────────────────────────────────────────────────
 
+/**
+ * The fields of a stored keyring that its holder must not rewrite: who granted
+ * it (the parent pointer of cascading revocation), when, and until when.
+ */
+async function loadProvenance(
+  adapter: NoydbStore,
+  vault: string,
+  userId: string,
+): Promise<Pick<KeyringFile, 'created_at' | 'granted_by' | 'expires_at'>> {
+  const envelope = await adapter.get(vault, '_keyring', userId)
+  const stored = envelope ? JSON.parse(envelope._data) as Partial<KeyringFile> : {}
+  return {
+    created_at: stored.created_at ?? new Date().toISOString(),
+    granted_by: stored.granted_by ?? userId,
+    ...(stored.expires_at !== undefined && { expires_at: stored.expires_at }),
+  }
+}
+
 /** Persist a keyring file to the adapter. */
 export async function persistKeyring(
   adapter: NoydbStore,
@@ -859,8 +874,7 @@ export async function persistKeyring(
     permissions: keyring.permissions,
     deks: wrappedDeks,
     salt: bufferToBase64(keyring.salt),
-    created_at: new Date().toISOString(),
-    granted_by: keyring.userId,
+    ...(await loadProvenance(adapter, vault, keyring.userId)),
     ...(keyring.exportCapability !== undefined && { export_capability: keyring.exportCapability }),
     ...(keyring.importCapability !== undefined && { import_capability: keyring.importCapability }),
   }
-- 
2.43.0


From f580a7611b4c243a64b8925afc8f8d7e005c2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:52 +0000
Subject: [PATCH 010/113] fix: require write permission for blob, tier and
 history-pruning writes, and admin for rotation

---
 packages/hub/src/blobs/blob-set.ts |  8 ++++++++
 packages/hub/src/blobs/strategy.ts |  2 ++
 packages/hub/src/collection.ts     | 14 ++++++++++++--
 packages/hub/src/noydb.ts          |  6 +++++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index d1c8c58..88526e3 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -146,6 +146,7 @@ export class BlobSet {
   private readonly encrypted: boolean
   private readonly userId: string | undefined
   private readonly maxBlobBytes: number | undefined
+  private readonly assertWritable: () => void
 
   constructor(opts: {
     store: NoydbStore
@@ -156,6 +157,7 @@ export class BlobSet {
     encrypted: boolean
     userId?: string
     maxBlobBytes?: number
+    assertWritable?: () => void
   }) {
     this.store = opts.store
     this.vault = opts.vault
@@ -165,6 +167,7 @@ export class BlobSet {
     this.encrypted = opts.encrypted
     this.userId = opts.userId
     this.maxBlobBytes = opts.maxBlobBytes
+    this.assertWritable = opts.assertWritable ?? (() => {})
   }
 
   /** The internal collection that holds slot metadata for this collection's blobs. */
@@ -448,6 +451,8 @@ export class BlobSet {
    *    If overwriting an existing slot, decrements the old eTag's refCount.
    */
   async put(slotName: string, data: Uint8Array, opts?: BlobPutOptions): Promise<void> {
+    this.assertWritable()
+
     // Step 1 — keyed content-hash (plaintext, before compression)
     const blobDEK = this.encrypted ? await this.getDEK(BLOB_COLLECTION) : null
     const eTag = blobDEK
@@ -571,6 +576,7 @@ export class BlobSet {
    * Decrements refCount on the blob. Chunks are GC'd by `vault.blobGC()`.
    */
   async delete(slotName: string): Promise<void> {
+    this.assertWritable()
     let eTagToDecrement: string | undefined
 
     await this.casUpdateSlots((slots) => {
@@ -669,6 +675,7 @@ export class BlobSet {
    * refCounts are adjusted accordingly.
    */
   async publish(slotName: string, label: string): Promise<void> {
+    this.assertWritable()
     const { slots } = await this.loadSlots()
     const slot = slots[slotName]
     if (!slot) throw new NotFoundError(`Slot "${slotName}" not found on record "${this.recordId}"`)
@@ -738,6 +745,7 @@ export class BlobSet {
    * Delete a published version. Decrements refCount on its blob.
    */
   async deleteVersion(slotName: string, label: string): Promise<void> {
+    this.assertWritable()
     const record = await this.loadVersionRecord(slotName, label)
     if (!record) return
 
diff --git a/packages/hub/src/blobs/strategy.ts b/packages/hub/src/blobs/strategy.ts
index 1987bbf..69b370e 100644
--- a/packages/hub/src/blobs/strategy.ts
+++ b/packages/hub/src/blobs/strategy.ts
@@ -30,6 +30,8 @@ export interface BlobStrategyOpenArgs {
   readonly getDEK: (collectionName: string) => Promise<CryptoKey>
   readonly encrypted: boolean
   readonly userId: string
+  /** Throws when the caller may not modify the parent collection. */
+  readonly assertWritable?: () => void
 }
 
 /**
diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 6be05c9..41e2b1e 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -892,11 +892,15 @@ export class Collection<T> {
     return this.syncStrategy.buildPresence<P>(presenceOpts)
   }
 
-  /** Create or update a record. */
-  async put(id: string, record: T): Promise<void> {
+  private assertWritable(): void {
     if (!hasWritePermission(this.keyring, this.name)) {
       throw new ReadOnlyError()
     }
+  }
+
+  /** Create or update a record. */
+  async put(id: string, record: T): Promise<void> {
+    this.assertWritable()
 
     // accounting-period guard. Runs BEFORE any other
     // work so a closed-period write fails fast and leaves no partial
@@ -1794,6 +1798,7 @@ export class Collection<T> {
 
   /** Prune history entries for a record (or all records if id is undefined). */
   async pruneRecordHistory(id: string | undefined, options: PruneOptions): Promise<number> {
+    this.assertWritable()
     const pruned = await this.historyStrategy.pruneHistory(
       this.adapter, this.vault, this.name, id, options,
     )
@@ -1810,6 +1815,7 @@ export class Collection<T> {
 
   /** Clear all history for this collection (or a specific record). */
   async clearHistory(id?: string): Promise<number> {
+    this.assertWritable()
     return this.historyStrategy.clearHistory(this.adapter, this.vault, this.name, id)
   }
 
@@ -2265,6 +2271,7 @@ export class Collection<T> {
       getDEK: this.getDEK,
       encrypted: this.encrypted,
       userId: this.keyring.userId,
+      assertWritable: () => this.assertWritable(),
     })
   }
 
@@ -2761,6 +2768,7 @@ export class Collection<T> {
     this.assertTiersEnabled()
     this.assertDeclaredTier(tier)
     assertTierAccess(this.keyring, this.name, tier)
+    this.assertWritable()
 
     const key = dekKey(this.name, tier)
     const dek = await this.getDEK(key)
@@ -2875,6 +2883,7 @@ export class Collection<T> {
     this.assertTiersEnabled()
     this.assertDeclaredTier(toTier)
     assertTierAccess(this.keyring, this.name, toTier)
+    this.assertWritable()
 
     const envelope = await this.adapter.get(this.vault, this.name, id)
     if (!envelope) throw new Error(`Record "${id}" not found in collection "${this.name}"`)
@@ -2937,6 +2946,7 @@ export class Collection<T> {
     if (!isOwner && !isOriginalElevator) {
       throw new TierDemoteDeniedError(id, fromTier)
     }
+    this.assertWritable()
     // Caller must still hold the DEK of the current tier to decrypt.
     assertTierAccess(this.keyring, this.name, fromTier)
     if (toTier > 0) this.assertDeclaredTier(toTier)
diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 76813c0..d0eb6e2 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -19,7 +19,7 @@ import type {
   ReAuthOperation,
   TranslatorAuditEntry,
 } from './types.js'
-import { ValidationError, NoAccessError, InvalidKeyError, StoreCapabilityError } from './errors.js'
+import { ValidationError, NoAccessError, InvalidKeyError, StoreCapabilityError, PermissionDeniedError } from './errors.js'
 import { Vault } from './vault.js'
 import { NoydbEventEmitter } from './events.js'
 import {
@@ -390,6 +390,10 @@ export class Noydb {
   async rotate(vault: string, collections: string[]): Promise<void> {
     this.checkPolicyOperation(vault, 'rotate')
     const keyring = await this.getKeyring(vault)
+    // Rotation takes the key away from every other user of the collection.
+    if (keyring.role !== 'owner' && keyring.role !== 'admin') {
+      throw new PermissionDeniedError(`Role "${keyring.role}" cannot rotate keys`)
+    }
     await keyringRotate(this.options.store, vault, keyring, collections)
     // Refresh the cached keyring so subsequent operations see the
     // freshly-rotated DEKs. Without this, `ensureCollectionDEK` on
-- 
2.43.0


From feb42c5abd06317a32a86eaa79cdab749c49f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:24 +0000
Subject: [PATCH 011/113] fix: only records that exist block the creation of a
 collection key

---
 packages/hub/src/team/keyring.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index d866e9e..d0cef77 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -803,8 +803,10 @@ export async function ensureCollectionDEK(
     const promise = (async () => {
       // Existing records were encrypted under a key this user does not hold;
       // a second key for the collection would split it into two halves.
-      if ((await adapter.list(vault, collectionName)).length > 0) {
-        throw new NoAccessError(`No key for collection "${collectionName}" in vault "${vault}"`)
+      for (const id of await adapter.list(vault, collectionName)) {
+        if (await adapter.get(vault, collectionName, id)) {
+          throw new NoAccessError(`No key for collection "${collectionName}" in vault "${vault}"`)
+        }
       }
       const dek = await generateDEK()
       keyring.deks.set(collectionName, dek)
-- 
2.43.0


From 51f8643dd14c12175d738e1f5d3dc5eee268c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:33 +0000
Subject: [PATCH 012/113] fix: ledger patches and diffs treat fields named like
 Object members, undefined members and array/object changes correctly

---
 packages/hub/src/history/diff.ts         |  6 +++---
 packages/hub/src/history/ledger/patch.ts | 15 ++++++++-------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/packages/hub/src/history/diff.ts b/packages/hub/src/history/diff.ts
index 1d9a8a8..677b390 100644
--- a/packages/hub/src/history/diff.ts
+++ b/packages/hub/src/history/diff.ts
@@ -36,7 +36,7 @@ export function diff(oldObj: unknown, newObj: unknown, basePath = ''): DiffEntry
   }
 
   // Different types
-  if (typeof oldObj !== typeof newObj) {
+  if (typeof oldObj !== typeof newObj || Array.isArray(oldObj) !== Array.isArray(newObj)) {
     return [{ path: basePath || '(root)', type: 'changed', from: oldObj, to: newObj }]
   }
 
@@ -68,9 +68,9 @@ export function diff(oldObj: unknown, newObj: unknown, basePath = ''): DiffEntry
 
   for (const key of allKeys) {
     const p = basePath ? `${basePath}.${key}` : key
-    if (!(key in oldRecord)) {
+    if (!Object.hasOwn(oldRecord, key)) {
       changes.push({ path: p, type: 'added', to: newRecord[key] })
-    } else if (!(key in newRecord)) {
+    } else if (!Object.hasOwn(newRecord, key)) {
       changes.push({ path: p, type: 'removed', from: oldRecord[key] })
     } else {
       changes.push(...diff(oldRecord[key], newRecord[key], p))
diff --git a/packages/hub/src/history/ledger/patch.ts b/packages/hub/src/history/ledger/patch.ts
index 90cf91e..0a22f84 100644
--- a/packages/hub/src/history/ledger/patch.ts
+++ b/packages/hub/src/history/ledger/patch.ts
@@ -76,7 +76,8 @@ export type JsonPatch = readonly JsonPatchOp[]
  */
 export function computePatch(prev: unknown, next: unknown): JsonPatch {
   const ops: JsonPatchOp[] = []
-  diff(prev, next, '', ops)
+  // Compare what is stored: JSON drops undefined members and turns Dates into strings.
+  diff(clone(prev), clone(next), '', ops)
   return ops
 }
 
@@ -127,7 +128,7 @@ function diff(
     // Handle removes and overlapping recursions in one pass over prev.
     for (const key of prevKeys) {
       const childPath = path + '/' + escapePathSegment(key)
-      if (!(key in nextObj)) {
+      if (!Object.hasOwn(nextObj, key)) {
         out.push({ op: 'remove', path: childPath })
       } else {
         diff(prevObj[key], nextObj[key], childPath, out)
@@ -135,7 +136,7 @@ function diff(
     }
     // Handle adds.
     for (const key of nextKeys) {
-      if (!(key in prevObj)) {
+      if (!Object.hasOwn(prevObj, key)) {
         out.push({
           op: 'add',
           path: path + '/' + escapePathSegment(key),
@@ -173,7 +174,7 @@ function deepEqual(a: unknown, b: unknown): boolean {
   const bKeys = Object.keys(bObj)
   if (aKeys.length !== bKeys.length) return false
   for (const key of aKeys) {
-    if (!(key in bObj)) return false
+    if (!Object.hasOwn(bObj, key)) return false
     if (!deepEqual(aObj[key], bObj[key])) return false
   }
   return true
@@ -249,7 +250,7 @@ function walkAndApply(
   }
   if (doc !== null && typeof doc === 'object') {
     const obj = doc as Record<string, unknown>
-    if (!(head in obj)) {
+    if (!Object.hasOwn(obj, head)) {
       throw new Error(`applyPatch: path segment "${head}" not found in object`)
     }
     const newChild = walkAndApply(obj[head], rest, op)
@@ -290,7 +291,7 @@ function applyAtTerminal(
   if (doc !== null && typeof doc === 'object') {
     const obj = doc as Record<string, unknown>
     if (op.op === 'remove') {
-      if (!(segment in obj)) {
+      if (!Object.hasOwn(obj, segment)) {
         throw new Error(
           `applyPatch: remove on missing key "${segment}"`,
         )
@@ -304,7 +305,7 @@ function applyAtTerminal(
       return { ...obj, [segment]: clone(op.value) }
     }
     if (op.op === 'replace') {
-      if (!(segment in obj)) {
+      if (!Object.hasOwn(obj, segment)) {
         throw new Error(
           `applyPatch: replace on missing key "${segment}"`,
         )
-- 
2.43.0


From 20a6eaca1e7bd499120aa7f7646a6aeac0a44920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:33 +0000
Subject: [PATCH 013/113] fix: vault.at() accepts timestamps in any ISO
 notation and resolves CRDT records

---
 packages/hub/src/history/time-machine.ts | 19 +++++++++++++++----
 packages/hub/src/vault.ts                |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/history/time-machine.ts b/packages/hub/src/history/time-machine.ts
index fb620da..24a03d0 100644
--- a/packages/hub/src/history/time-machine.ts
+++ b/packages/hub/src/history/time-machine.ts
@@ -85,6 +85,8 @@ export interface VaultEngine {
    * reconstruction (which may miss deletes).
    */
   getLedger(): LedgerStore | null
+  /** Turns the stored state of a CRDT-mode record into the record itself. */
+  resolveCrdtSnapshot?(state: unknown): unknown
 }
 
 /**
@@ -118,11 +120,16 @@ export class VaultInstant {
  * work tracked under.
  */
 export class CollectionInstant<T = unknown> {
+  /** `targetTs` in the canonical UTC notation of ledger timestamps, which are compared as strings. */
+  private readonly cutoff: string
+
   constructor(
     private readonly engine: VaultEngine,
     private readonly targetTs: string,
     public readonly name: string,
-  ) {}
+  ) {
+    this.cutoff = new Date(targetTs).toISOString()
+  }
 
   /**
    * Return the record as it existed at the target timestamp, or
@@ -135,7 +142,11 @@ export class CollectionInstant<T = unknown> {
     const plaintext = this.engine.encrypted
       ? await decrypt(envelope._iv, envelope._data, await this.engine.getDEK(this.name))
       : envelope._data
-    return JSON.parse(plaintext) as T
+    const parsed = JSON.parse(plaintext) as unknown
+    if (parsed !== null && typeof parsed === 'object' && '_crdt' in parsed && this.engine.resolveCrdtSnapshot) {
+      return this.engine.resolveCrdtSnapshot(parsed) as T
+    }
+    return parsed as T
   }
 
   /**
@@ -217,7 +228,7 @@ export class CollectionInstant<T = unknown> {
     let latest: { op: 'put' | 'delete'; version: number } | null = null
     for (const e of entries) {
       if (e.collection !== this.name || e.id !== id) continue
-      if (e.ts > this.targetTs) break   // entries are time-ordered by index
+      if (e.ts > this.cutoff) break   // entries are time-ordered by index
       latest = { op: e.op, version: e.version }
     }
     if (!latest) return null
@@ -236,7 +247,7 @@ export class CollectionInstant<T = unknown> {
     const sorted = [...byVersion.values()].sort((a, b) =>
       a._ts < b._ts ? 1 : a._ts > b._ts ? -1 : 0,
     )
-    return sorted.find((e) => e._ts <= this.targetTs) ?? null
+    return sorted.find((e) => e._ts <= this.cutoff) ?? null
   }
 
   /**
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index dda8f9c..ebb7d05 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -38,6 +38,7 @@ import type { BlobStrategy } from './blobs/strategy.js'
 import type { IndexStrategy } from './indexing/strategy.js'
 import type { AggregateStrategy } from './aggregate/strategy.js'
 import type { CrdtStrategy } from './crdt/strategy.js'
+import type { CrdtState } from './crdt/crdt.js'
 // #291 — import from leaf modules (NOT from ./history/ledger/index.js
 // or store.js) so the LedgerStore class never reaches the floor
 // bundle. The leaf files hold pure constants + a tiny hash helper;
@@ -1276,6 +1277,9 @@ export class Vault {
         encrypted: this.encrypted,
         getDEK: this.getDEK,
         getLedger: () => (this.historyConfig.enabled === false ? null : this.getLedgerOrNull()),
+        ...(this.crdtStrategy
+          ? { resolveCrdtSnapshot: (state: unknown) => this.crdtStrategy!.resolveCrdtSnapshot(state as CrdtState) }
+          : {}),
       },
       iso,
     )
-- 
2.43.0


From 9a1e63440f6b5f76c6237e15fac42f95afa4f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:33 +0000
Subject: [PATCH 014/113] fix: history pruning and listing keep records with
 prefix ids apart

---
 packages/hub/src/history/history.ts | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/packages/hub/src/history/history.ts b/packages/hub/src/history/history.ts
index 0579b31..c5a8002 100644
--- a/packages/hub/src/history/history.ts
+++ b/packages/hub/src/history/history.ts
@@ -31,8 +31,9 @@ function parseHistoryId(id: string): { collection: string; recordId: string; ver
 }
 
 function matchesPrefix(id: string, collection: string, recordId?: string): boolean {
-  if (recordId) {
-    return id.startsWith(`${collection}:${recordId}:`)
+  if (recordId !== undefined) {
+    const prefix = `${collection}:${recordId}:`
+    return id.startsWith(prefix) && id.length === prefix.length + VERSION_PAD
   }
   return id.startsWith(`${collection}:`)
 }
@@ -103,16 +104,21 @@ export async function pruneHistory(
 ): Promise<number> {
   const allIds = await adapter.list(vault, HISTORY_COLLECTION)
   const matchingIds = allIds
-    .filter(id => recordId ? matchesPrefix(id, collection, recordId) : matchesPrefix(id, collection))
+    .filter(id => matchesPrefix(id, collection, recordId))
     .sort()
 
-  let toDelete: string[] = []
+  const toDelete: string[] = []
 
   if (options.keepVersions !== undefined) {
-    // Keep only the N most recent, delete the rest
+    // Keep only the N most recent of each record, delete the rest
     const keep = options.keepVersions
-    if (matchingIds.length > keep) {
-      toDelete = matchingIds.slice(0, matchingIds.length - keep)
+    const byRecord = new Map<string, string[]>()
+    for (const id of matchingIds) {
+      const record = id.slice(0, -VERSION_PAD)
+      byRecord.set(record, [...(byRecord.get(record) ?? []), id])
+    }
+    for (const ids of byRecord.values()) {
+      if (ids.length > keep) toDelete.push(...ids.slice(0, ids.length - keep))
     }
   }
 
@@ -147,7 +153,7 @@ export async function clearHistory(
   const allIds = await adapter.list(vault, HISTORY_COLLECTION)
   let toDelete: string[]
 
-  if (collection && recordId) {
+  if (collection && recordId !== undefined) {
     toDelete = allIds.filter(id => matchesPrefix(id, collection, recordId))
   } else if (collection) {
     toDelete = allIds.filter(id => matchesPrefix(id, collection))
-- 
2.43.0


From 673e900aaa6647aeddde0176451d2a8567bb9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:33 +0000
Subject: [PATCH 015/113] fix: take the previous version of a record from the
 store for history, ledger deltas and indexes

---
 packages/hub/src/collection.ts | 59 +++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 41e2b1e..dea3e09 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1068,7 +1068,11 @@ export class Collection<T> {
         : undefined
 
       if (existingResolved && this.historyConfig.enabled !== false) {
-        const histEnvelope = await this.encryptRecord(existingResolved.record, existingResolved.version)
+        const histEnvelope = {
+          ...await this.encryptRecord(existingResolved.record, existingResolved.version),
+          _ts: existingEnvelope!._ts,
+          ...(existingEnvelope!._by !== undefined ? { _by: existingEnvelope!._by } : {}),
+        }
         await this.historyStrategy.saveHistory(this.adapter, this.vault, this.name, id, histEnvelope)
         this.emitter.emit('history:save', { vault: this.vault, collection: this.name, id, version: existingResolved.version })
         if (this.historyConfig.maxVersions) {
@@ -1125,9 +1129,18 @@ export class Collection<T> {
 
     const version = existing ? existing.version + 1 : 1
 
+    // The cached object may have been handed out by a read and modified by
+    // the caller since, so the previous state is taken from the stored envelope.
+    const stored = existing ? await this.adapter.get(this.vault, this.name, id) : null
+    const previous: T | null = existing && stored?._v === existing.version
+      ? await this.decryptRecord(stored, { skipValidation: true })
+      : existing?.record ?? null
+
     // Save history snapshot of the PREVIOUS version before overwriting
     if (existing && this.historyConfig.enabled !== false) {
-      const historyEnvelope = await this.encryptRecord(existing.record, existing.version)
+      const historyEnvelope = stored?._v === existing.version
+        ? stored
+        : await this.encryptRecord(existing.record, existing.version)
       await this.historyStrategy.saveHistory(this.adapter, this.vault, this.name, id, historyEnvelope)
 
       this.emitter.emit('history:save', {
@@ -1180,7 +1193,7 @@ export class Collection<T> {
         // data collection) without needing a forward-walking base
         // snapshot, which would double the storage cost of the
         // delta scheme. See `LedgerStore.reconstruct` for the walk.
-        appendInput.delta = this.historyStrategy.computePatch(record, existing.record)
+        appendInput.delta = this.historyStrategy.computePatch(record, previous)
       }
       await this.ledger.append(appendInput)
     }
@@ -1190,13 +1203,13 @@ export class Collection<T> {
       // Maintain persisted-index side-cars. Lazy mode is the
       // only place `persistedIndexes` is populated; eager mode uses the
       // in-memory `CollectionIndexes` above.
-      await this.maintainPersistedIndexesOnPut(id, record, existing ? existing.record : null, version)
+      await this.maintainPersistedIndexesOnPut(id, record, previous, version)
     } else {
       this.cache.set(id, { record, version })
       // Update secondary indexes incrementally — no-op if no indexes are
       // declared. Pass the previous record (if any) so old buckets are
       // cleaned up before the new value is added.
-      this.indexes?.upsert(id, record, existing ? existing.record : null)
+      this.indexes?.upsert(id, record, previous)
     }
 
     await this.onDirty?.(this.name, id, 'put', version)
@@ -1256,21 +1269,22 @@ export class Collection<T> {
     let existing: { record: T; version: number } | undefined
     if (this.lazy && this.lru) {
       existing = this.lru.get(id)
-      if (!existing && this.historyConfig.enabled !== false) {
-        const previousEnvelope = await this.adapter.get(this.vault, this.name, id)
-        if (previousEnvelope) {
-          const previousRecord = await this.decryptRecord(previousEnvelope)
-          existing = { record: previousRecord, version: previousEnvelope._v }
-        }
-      }
     } else {
       await this.ensureHydrated()
       existing = this.cache.get(id)
     }
 
+    // As in writeRecord(), the previous state is taken from the stored envelope.
+    const stored = await this.adapter.get(this.vault, this.name, id)
+    if (stored && (existing ? stored._v === existing.version : this.lazy)) {
+      existing = { record: await this.decryptRecord(stored, { skipValidation: true }), version: stored._v }
+    }
+
     // Save history snapshot before deleting
     if (existing && this.historyConfig.enabled !== false) {
-      const historyEnvelope = await this.encryptRecord(existing.record, existing.version)
+      const historyEnvelope = stored?._v === existing.version
+        ? stored
+        : await this.encryptRecord(existing.record, existing.version)
       await this.historyStrategy.saveHistory(this.adapter, this.vault, this.name, id, historyEnvelope)
     }
 
@@ -1279,8 +1293,7 @@ export class Collection<T> {
     // whatever was last visible to readers — for a `delete` of a
     // never-existed record, we use the empty string (which the
     // ledger entry's `payloadHash` field tolerates).
-    const previousEnvelope = await this.adapter.get(this.vault, this.name, id)
-    const previousPayloadHash = await this.historyStrategy.envelopePayloadHash(previousEnvelope)
+    const previousPayloadHash = await this.historyStrategy.envelopePayloadHash(stored)
 
     await this.adapter.delete(this.vault, this.name, id)
 
@@ -1785,15 +1798,23 @@ export class Collection<T> {
     const fromHistory = await this.getVersion(id, version)
     if (fromHistory) return fromHistory
     // Check if it's the current live version
-    await this.ensureHydrated()
-    const current = this.cache.get(id)
+    const current = await this.resolveCurrent(id)
     if (current && current.version === version) return current.record
     return null
   }
 
   private async resolveCurrentOrVersion(id: string): Promise<T | null> {
-    await this.ensureHydrated()
-    return this.cache.get(id)?.record ?? null
+    return (await this.resolveCurrent(id))?.record ?? null
+  }
+
+  private async resolveCurrent(id: string): Promise<{ record: T; version: number } | null> {
+    if (!this.lazy) {
+      await this.ensureHydrated()
+      return this.cache.get(id) ?? null
+    }
+    const envelope = await this.adapter.get(this.vault, this.name, id)
+    if (!envelope) return null
+    return { record: await this.decryptRecord(envelope, { skipValidation: true }), version: envelope._v }
   }
 
   /** Prune history entries for a record (or all records if id is undefined). */
-- 
2.43.0


From 29c79d403893da61d876a26fea3a4c8cc7ace0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:34 +0000
Subject: [PATCH 016/113] fix: index lookups agree with a linear scan for
 nullish values, objects and mixed types

---
 packages/hub/src/indexing/eager-indexes.ts | 17 ++++++++---------
 packages/hub/src/indexing/lazy-builder.ts  |  5 ++++-
 packages/hub/src/query/builder.ts          |  9 +++++++--
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/packages/hub/src/indexing/eager-indexes.ts b/packages/hub/src/indexing/eager-indexes.ts
index 54f3440..f1dc01f 100644
--- a/packages/hub/src/indexing/eager-indexes.ts
+++ b/packages/hub/src/indexing/eager-indexes.ts
@@ -163,20 +163,19 @@ export class CollectionIndexes {
 const EMPTY_SET: ReadonlySet<string> = new Set()
 
 /**
- * Stringify a value into a stable bucket key.
+ * Stringify a value into a stable bucket key. The key carries the type,
+ * because `where('x', '==', 1)` must not match the string `'1'`. Date
+ * objects share the bucket of their ISO string.
  *
- * `null`/`undefined` produce a sentinel that records will never match
- * (so we never index nullish values — `where('x', '==', null)` falls back
- * to a linear scan). Numbers, booleans, strings, and Date objects are
- * coerced via `String()`. Objects produce a sentinel that no real record
- * will match — querying with object values is a code smell.
+ * `null`/`undefined` and objects produce sentinels: nullish values are never
+ * indexed and objects have no equality under `==`, so the query planner
+ * answers those clauses with a linear scan.
  */
 function stringifyKey(value: unknown): string {
   if (value === null || value === undefined) return '\0NULL\0'
-  if (typeof value === 'string') return value
-  if (typeof value === 'number' || typeof value === 'boolean') return String(value)
+  if (typeof value === 'number' || typeof value === 'boolean') return `\0${typeof value}:${String(value)}`
   if (value instanceof Date) return value.toISOString()
-  return '\0OBJECT\0'
+  return typeof value === 'string' ? value : '\0OBJECT\0'
 }
 
 function addToIndex<T>(idx: HashIndex, id: string, record: T): void {
diff --git a/packages/hub/src/indexing/lazy-builder.ts b/packages/hub/src/indexing/lazy-builder.ts
index 334b2d9..57beff5 100644
--- a/packages/hub/src/indexing/lazy-builder.ts
+++ b/packages/hub/src/indexing/lazy-builder.ts
@@ -164,7 +164,7 @@ export class LazyQuery<T> {
     // post-filter on the decrypted candidate set.
     const eqMap = new Map<string, unknown>()
     for (const clause of this.plan.clauses) {
-      if (clause.op === '==') eqMap.set(clause.field, clause.value)
+      if (clause.op === '==' && clause.value != null) eqMap.set(clause.field, clause.value)
     }
     if (eqMap.size >= 2) {
       for (const def of idx.definitions()) {
@@ -178,10 +178,13 @@ export class LazyQuery<T> {
     }
 
     for (const clause of this.plan.clauses) {
+      // Nullish values are not indexed, so they cannot drive a lookup.
       if (clause.op === '==') {
+        if (clause.value == null) continue
         const ids = idx.lookupEqual(clause.field, clause.value)
         if (ids) return [...ids]
       } else if (clause.op === 'in' && Array.isArray(clause.value)) {
+        if (clause.value.some(v => v == null)) continue
         const ids = idx.lookupIn(clause.field, clause.value as readonly unknown[])
         if (ids) return [...ids]
       } else if (isRangeOp(clause.op)) {
diff --git a/packages/hub/src/query/builder.ts b/packages/hub/src/query/builder.ts
index 9f631ee..ce20f60 100644
--- a/packages/hub/src/query/builder.ts
+++ b/packages/hub/src/query/builder.ts
@@ -724,9 +724,9 @@ function candidateRecords(source: InternalSource, clauses: readonly Clause[]): C
     if (!indexes.has(clause.field)) continue
 
     let ids: ReadonlySet<string> | null = null
-    if (clause.op === '==') {
+    if (clause.op === '==' && isIndexable(clause.value)) {
       ids = indexes.lookupEqual(clause.field, clause.value)
-    } else if (clause.op === 'in' && Array.isArray(clause.value)) {
+    } else if (clause.op === 'in' && Array.isArray(clause.value) && clause.value.every(isIndexable)) {
       ids = indexes.lookupIn(clause.field, clause.value)
     }
 
@@ -750,6 +750,11 @@ function candidateRecords(source: InternalSource, clauses: readonly Clause[]): C
   return { candidates: source.snapshot(), remainingClauses: clauses }
 }
 
+/** Nullish values are not indexed and objects share a bucket: neither can be looked up. */
+function isIndexable(value: unknown): boolean {
+  return value !== null && value !== undefined && (typeof value !== 'object' || value instanceof Date)
+}
+
 function materializeIds(
   ids: ReadonlySet<string>,
   lookupById: (id: string) => unknown,
-- 
2.43.0


From 9f14e46887e5a81fa7045b314aa9c672d3db26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:39 +0000
Subject: [PATCH 017/113] fix: reconciling a composite index no longer drops
 its entries

---
 packages/hub/src/collection.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index dea3e09..7997179 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2154,7 +2154,8 @@ export class Collection<T> {
         `Pass \`withIndexing()\` from "@noy-db/hub/indexing" to \`createNoydb({ indexStrategy })\`.`,
       )
     }
-    if (!persisted.has(field)) {
+    const def = persisted.definitions().find(d => d.key === field)
+    if (!def) {
       throw new Error(
         `Collection "${this.name}": field "${field}" is not declared in indexes. ` +
         `Declare it in the collection options before reconciling.`,
@@ -2193,7 +2194,7 @@ export class Collection<T> {
       const env = await this.adapter.get(this.vault, this.name, id)
       if (!env) continue
       const record = await this.decryptRecord(env, { skipValidation: true })
-      const live = readPersistedValue(record as unknown as Record<string, unknown>, field)
+      const live = extractIndexValue(record as unknown as Record<string, unknown>, def)
       const stored = sidecar.get(id)
       const hasSidecar = sidecarIds.has(id)
       const indexable = live !== null && live !== undefined
-- 
2.43.0


From 62ba51ab3d5de65e82cc0befd378a07b3ecc53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:40 +0000
Subject: [PATCH 018/113] fix: concurrent first writes share one key per
 collection and keep every key in the stored keyring

---
 packages/hub/src/team/keyring.ts | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index d0cef77..ad96ea8 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -781,6 +781,12 @@ export async function listUsers(
 
 // ─── DEK Management ────────────────────────────────────────────────────
 
+/** Keys being created, and the keyring write in progress, per unlocked keyring. */
+const keyCreation = new WeakMap<
+  Map<string, CryptoKey>,
+  { inFlight: Map<string, Promise<CryptoKey>>; persisting: Promise<void> }
+>()
+
 /** Ensure a DEK exists for a collection. Generates one if new. */
 export async function ensureCollectionDEK(
   adapter: NoydbStore,
@@ -793,12 +799,16 @@ export async function ensureCollectionDEK(
   // `set` overwrites the first — making any envelope encrypted with
   // the discarded DEK fail to decrypt later (TamperedError on read).
   // Pre-existing race exposed by the multi-writer ledger work in #296.
-  const inFlight = new Map<string, Promise<CryptoKey>>()
+  // The state is shared by every resolver of the keyring (vault,
+  // dictionaries, credentials).
+  const creation = keyCreation.get(keyring.deks) ?? { inFlight: new Map<string, Promise<CryptoKey>>(), persisting: Promise.resolve() }
+  keyCreation.set(keyring.deks, creation)
+  const { inFlight } = creation
   return async (collectionName: string): Promise<CryptoKey> => {
-    const existing = keyring.deks.get(collectionName)
-    if (existing) return existing
     const pending = inFlight.get(collectionName)
     if (pending) return pending
+    const existing = keyring.deks.get(collectionName)
+    if (existing) return existing
 
     const promise = (async () => {
       // Existing records were encrypted under a key this user does not hold;
@@ -809,8 +819,19 @@ export async function ensureCollectionDEK(
         }
       }
       const dek = await generateDEK()
-      keyring.deks.set(collectionName, dek)
-      await persistKeyring(adapter, vault, keyring)
+      // One keyring write at a time: a slower, older write must not replace a
+      // newer one. A key that could not be stored must not be used either.
+      const stored = creation.persisting.then(async () => {
+        keyring.deks.set(collectionName, dek)
+        try {
+          await persistKeyring(adapter, vault, keyring)
+        } catch (err) {
+          keyring.deks.delete(collectionName)
+          throw err
+        }
+      })
+      creation.persisting = stored.catch(() => {})
+      await stored
       return dek
     })()
     inFlight.set(collectionName, promise)
-- 
2.43.0


From d58595c45c9b50bccf91a21ab6f70a52626ff1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:40 +0000
Subject: [PATCH 019/113] fix: live queries hear about writes that a failed
 transaction undoes

---
 packages/hub/src/collection.ts     | 8 ++++++++
 packages/hub/src/tx/transaction.ts | 5 ++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 7997179..b4e9229 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1445,6 +1445,14 @@ export class Collection<T> {
           if (cached) this.indexes?.remove(id, cached.record)
         }
       }
+
+      // The undone write was announced; live queries have to hear about the undo.
+      this.emitter.emit('change', {
+        vault: this.vault,
+        collection: this.name,
+        id,
+        action: prior ? 'put' : 'delete',
+      } satisfies ChangeEvent)
     })
   }
 
diff --git a/packages/hub/src/tx/transaction.ts b/packages/hub/src/tx/transaction.ts
index 50f7738..40c8d4a 100644
--- a/packages/hub/src/tx/transaction.ts
+++ b/packages/hub/src/tx/transaction.ts
@@ -252,9 +252,8 @@ export async function runTransaction<T>(
     return bodyResult
   } catch (err) {
     // Phase 3 — best-effort revert. Restore captured prior envelopes
-    // (store, cache and indexes) without re-firing Collection-level
-    // side effects (we don't want a cascade of change events undoing
-    // themselves). The ledger is left as-is: each committed op
+    // (store, cache and indexes), telling change listeners but without
+    // new history versions or sync entries. The ledger is left as-is: each committed op
     // appended an entry; the revert is deliberately not recorded as a
     // compensating entry because #240's contract is "atomic or not at
     // all" from the caller's view, not "every write visible in the
-- 
2.43.0


From b0e1391c3d75a59e918ee0b82d7de09271c643fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:04 +0000
Subject: [PATCH 020/113] fix: reference rules cover lazy collections and
 records without an id field, reject before deleting anything, and hold under
 concurrent writes

---
 packages/hub/src/collection.ts |  75 +++++++++++++++++++----
 packages/hub/src/vault.ts      | 105 ++++++++++++++++++++-------------
 2 files changed, 126 insertions(+), 54 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index b4e9229..ad0af66 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -368,6 +368,7 @@ export class Collection<T> {
     | {
         enforceRefsOnPut(collectionName: string, record: unknown): Promise<void>
         enforceRefsOnDelete(collectionName: string, id: string): Promise<void>
+        withRefLock<R>(collectionName: string, fn: () => Promise<R>): Promise<R>
       }
     | undefined
 
@@ -496,6 +497,7 @@ export class Collection<T> {
       | {
           enforceRefsOnPut(collectionName: string, record: unknown): Promise<void>
           enforceRefsOnDelete(collectionName: string, id: string): Promise<void>
+          withRefLock<R>(collectionName: string, fn: () => Promise<R>): Promise<R>
         }
       | undefined
     /**
@@ -995,11 +997,16 @@ export class Collection<T> {
     // any write (so a failed strict ref leaves no trace on disk,
     // in history, or in the ledger). The Vault handles the
     // actual target lookups — see `enforceRefsOnPut` over there.
+    const validated = record
     if (this.refEnforcer !== undefined) {
-      await this.refEnforcer.enforceRefsOnPut(this.name, record)
+      const refs = this.refEnforcer
+      await refs.withRefLock(this.name, async () => {
+        await refs.enforceRefsOnPut(this.name, validated)
+        await this.withIdLock(id, () => this.writeRecord(id, validated))
+      })
+      return
     }
 
-    const validated = record
     await this.withIdLock(id, () => this.writeRecord(id, validated))
   }
 
@@ -1226,6 +1233,33 @@ export class Collection<T> {
 
   /** Delete a record by ID. */
   async delete(id: string): Promise<void> {
+    await this._assertDeletable(id)
+
+    // Foreign-key ref enforcement on delete. Runs BEFORE
+    // the adapter delete so a `strict` inbound ref with existing
+    // references blocks the delete entirely (no partial state, no
+    // history churn, no ledger entry for a rejected op). `cascade`
+    // recursively deletes the referencing records first, then falls
+    // through to the normal delete path below. `warn` is a no-op
+    // here — violations surface through `checkIntegrity()`.
+    if (this.refEnforcer !== undefined) {
+      const refs = this.refEnforcer
+      await refs.withRefLock(this.name, async () => {
+        await refs.enforceRefsOnDelete(this.name, id)
+        await this._deleteUnchecked(id)
+      })
+      return
+    }
+
+    await this._deleteUnchecked(id)
+  }
+
+  /**
+   * The write permission and closed-period checks of `delete()`.
+   *
+   * @internal
+   */
+  async _assertDeletable(id: string): Promise<void> {
     if (!hasWritePermission(this.keyring, this.name)) {
       throw new ReadOnlyError()
     }
@@ -1247,21 +1281,36 @@ export class Collection<T> {
         null,
       )
     }
+  }
 
-    // Foreign-key ref enforcement on delete. Runs BEFORE
-    // the adapter delete so a `strict` inbound ref with existing
-    // references blocks the delete entirely (no partial state, no
-    // history churn, no ledger entry for a rejected op). `cascade`
-    // recursively deletes the referencing records first, then falls
-    // through to the normal delete path below. `warn` is a no-op
-    // here — violations surface through `checkIntegrity()`.
-    if (this.refEnforcer !== undefined) {
-      await this.refEnforcer.enforceRefsOnDelete(this.name, id)
-    }
-
+  /**
+   * Delete a record whose guards and references were already checked.
+   *
+   * @internal
+   */
+  async _deleteUnchecked(id: string): Promise<void> {
     await this.withIdLock(id, () => this.removeRecord(id))
   }
 
+  /**
+   * Every record with the id it is stored under, in eager and lazy mode.
+   *
+   * @internal
+   */
+  async _entries(): Promise<Array<[string, T]>> {
+    if (!this.lazy) {
+      await this.ensureHydrated()
+      return [...this.cache].map(([id, e]) => [id, e.record])
+    }
+    const out: Array<[string, T]> = []
+    for (const id of await this.adapter.list(this.vault, this.name)) {
+      if (decodeIdxId(id)) continue
+      const envelope = await this.adapter.get(this.vault, this.name, id)
+      if (envelope) out.push([id, await this.decryptRecord(envelope, { skipValidation: true })])
+    }
+    return out
+  }
+
   /** Delete a record whose guards have already passed. Caller holds the id lock. */
   private async removeRecord(id: string): Promise<void> {
     // In lazy mode the record may not be cached; ask the adapter so we
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index ebb7d05..240ebca 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -176,15 +176,8 @@ export class Vault {
    */
   private readonly refRegistry = new RefRegistry()
 
-  /**
-   * Set of collection record-ids currently being deleted as part of
-   * a cascade. Populated on entry to `enforceRefsOnDelete` and
-   * drained on exit. Used to break mutual-cascade cycles: deleting
-   * A → cascade to B → cascade back to A would otherwise recurse
-   * forever, so we short-circuit when we see an already-in-progress
-   * delete on the same (collection, id) pair.
-   */
-  private readonly cascadeInProgress = new Set<string>()
+  /** Settles when the last queued `withRefLock` call has finished. */
+  private refLock: Promise<void> = Promise.resolve()
 
   /**
    * Vault-default locale. Set via
@@ -1040,60 +1033,92 @@ export class Vault {
    *   - `cascade`: deletes every referencing record
    *   - `warn`:    no-op (checkIntegrity picks it up)
    *
-   * Cascade cycles are broken via `cascadeInProgress` — re-entering
-   * for the same (collection, id) returns immediately so two
-   * mutually-cascading collections don't recurse forever.
+   * Nothing is deleted unless every cascaded delete is allowed: the
+   * whole cascade is planned first, and a strict reference, a closed
+   * period or a missing permission anywhere in it rejects the delete.
    */
   async enforceRefsOnDelete(collectionName: string, id: string): Promise<void> {
-    const key = `${collectionName}/${id}`
-    if (this.cascadeInProgress.has(key)) return
-    this.cascadeInProgress.add(key)
+    for (const step of await this._planCascade(collectionName, id)) {
+      await this.collection(step.collection)._deleteUnchecked(step.id)
+    }
+  }
 
-    try {
-      const inbound = this.refRegistry.getInbound(collectionName)
-      for (const rule of inbound) {
+  /**
+   * The records a delete of (collection, id) takes along, in the order
+   * they are deleted. Throws when the delete is not allowed. Records
+   * already visited are not followed again, so two mutually-cascading
+   * collections don't recurse forever.
+   *
+   * @internal
+   */
+  async _planCascade(collectionName: string, id: string): Promise<Array<{ collection: string; id: string }>> {
+    const keyOf = (collection: string, recordId: string): string => `${collection}/${recordId}`
+    const visited = new Set<string>([keyOf(collectionName, id)])
+    const planned: Array<{ collection: string; id: string }> = []
+    const plannedKeys = new Set<string>()
+
+    const visit = async (target: string, targetId: string): Promise<void> => {
+      for (const rule of this.refRegistry.getInbound(target)) {
+        if (rule.mode === 'warn') continue
         const fromCollection = this.collection<Record<string, unknown>>(rule.collection)
         // Scan the referencing collection for records whose ref
         // field matches this id. For eager-mode collections this
         // is an in-memory filter; for lazy-mode it requires a scan.
-        const allRecords = await fromCollection.list()
-        const matches = allRecords.filter((rec) => {
+        const matches = (await fromCollection._entries()).filter(([recordId, rec]) => {
+          if (plannedKeys.has(keyOf(rule.collection, recordId))) return false
           const raw = rec[rule.field]
           // Same string/number-only restriction as enforceRefsOnPut.
           // Anything else can't have been a valid ref to begin with,
           // so it can't match.
           if (typeof raw !== 'string' && typeof raw !== 'number') return false
-          return String(raw) === id
+          return String(raw) === targetId
         })
-        if (matches.length === 0) continue
+        const first = matches[0]
+        if (first === undefined) continue
 
         if (rule.mode === 'strict') {
-          const first = matches[0]
           throw new RefIntegrityError({
             collection: rule.collection,
-            id: (first?.['id'] as string | undefined) ?? '<unknown>',
+            id: first[0],
             field: rule.field,
-            refTo: collectionName,
-            refId: id,
+            refTo: target,
+            refId: targetId,
             message:
-              `Cannot delete "${collectionName}"/"${id}": ` +
+              `Cannot delete "${target}"/"${targetId}": ` +
               `${matches.length} record(s) in "${rule.collection}" still reference it via strict ref "${rule.field}".`,
           })
         }
-        if (rule.mode === 'cascade') {
-          for (const match of matches) {
-            const matchId = (match['id'] as string | undefined) ?? null
-            if (matchId === null) continue
-            // Recursive delete — the cycle breaker above catches
-            // infinite loops.
-            await fromCollection.delete(matchId)
-          }
+        for (const [matchId] of matches) {
+          const key = keyOf(rule.collection, matchId)
+          if (visited.has(key)) continue
+          visited.add(key)
+          await fromCollection._assertDeletable(matchId)
+          await visit(rule.collection, matchId)
+          planned.push({ collection: rule.collection, id: matchId })
+          plannedKeys.add(key)
         }
-        // warn: no-op
       }
-    } finally {
-      this.cascadeInProgress.delete(key)
     }
+    await visit(collectionName, id)
+    return planned
+  }
+
+  /**
+   * Run `fn` after every earlier `withRefLock` call has settled, so that
+   * a reference check and the write it allows are not separated by a
+   * write that invalidates the check. Collections without references in
+   * either direction are not held up.
+   */
+  async withRefLock<R>(collectionName: string, fn: () => Promise<R>): Promise<R> {
+    if (
+      Object.keys(this.refRegistry.getOutbound(collectionName)).length === 0 &&
+      this.refRegistry.getInbound(collectionName).length === 0
+    ) {
+      return fn()
+    }
+    const run = this.refLock.then(fn)
+    this.refLock = run.then(() => undefined, () => undefined)
+    return run
   }
 
   // ─── Join resolver) ────────────────────
@@ -1162,9 +1187,7 @@ export class Vault {
     const violations: RefViolation[] = []
     for (const [collectionName, refs] of this.refRegistry.entries()) {
       const coll = this.collection<Record<string, unknown>>(collectionName)
-      const records = await coll.list()
-      for (const record of records) {
-        const recId = (record['id'] as string | undefined) ?? '<unknown>'
+      for (const [recId, record] of await coll._entries()) {
         for (const [field, descriptor] of Object.entries(refs)) {
           const rawId = record[field]
           if (rawId === null || rawId === undefined) continue
-- 
2.43.0


From b6b760b70ad1ae348a7b97e4d1e935e98eb33fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:04 +0000
Subject: [PATCH 021/113] fix: a failed transaction restores records that its
 deletes cascaded to

---
 packages/hub/src/tx/transaction.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/hub/src/tx/transaction.ts b/packages/hub/src/tx/transaction.ts
index 40c8d4a..ce72a7a 100644
--- a/packages/hub/src/tx/transaction.ts
+++ b/packages/hub/src/tx/transaction.ts
@@ -242,6 +242,16 @@ export async function runTransaction<T>(
       // Registered before the attempt: an op that fails part-way may
       // already have reached the store and has to be undone too.
       executed.push({ op, priorEnvelope: prior })
+      if (op.type === 'delete') {
+        // Records the delete takes along through cascading references.
+        for (const step of await db.vault(op.vaultName)._planCascade(op.collectionName, op.id)) {
+          const taken: StagedOp = { type: 'delete', vaultName: op.vaultName, collectionName: step.collection, id: step.id }
+          if (!priorEnvelopes.has(keyOf(taken))) {
+            priorEnvelopes.set(keyOf(taken), await store.get(taken.vaultName, taken.collectionName, taken.id))
+          }
+          executed.push({ op: taken, priorEnvelope: priorEnvelopes.get(keyOf(taken)) ?? null })
+        }
+      }
       if (op.type === 'put') {
         // eslint-disable-next-line @typescript-eslint/no-explicit-any
         await coll.put(op.id, op.record as any)
-- 
2.43.0


From 7450d7ebe4045bdbd8a095b9bb64708f6c96e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:11 +0000
Subject: [PATCH 022/113] fix: an interrupted key rotation or revocation loses
 no data and can be finished

---
 packages/hub/src/team/keyring.ts | 140 ++++++++++++++++++++++++-------
 packages/hub/src/types.ts        |   6 ++
 2 files changed, 118 insertions(+), 28 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index ad96ea8..229f5fc 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -119,7 +119,7 @@ export async function loadKeyring(
     deks.set(collName, dek)
   }
 
-  return {
+  const keyring: UnlockedKeyring = {
     userId: keyringFile.user_id,
     displayName: keyringFile.display_name,
     role: keyringFile.role,
@@ -130,6 +130,10 @@ export async function loadKeyring(
     ...(keyringFile.export_capability !== undefined && { exportCapability: keyringFile.export_capability }),
     ...(keyringFile.import_capability !== undefined && { importCapability: keyringFile.import_capability }),
   }
+  if (keyringFile.pending_rotation !== undefined) {
+    await rotateKeys(adapter, vault, keyring, [])
+  }
+  return keyring
 }
 
 /** Create the initial owner keyring for a new vault. */
@@ -388,21 +392,23 @@ export async function revoke(
     }
   }
 
-  // Delete every keyring in the revoke set. Order doesn't matter
-  // because each keyring file is independent on disk; we don't have
-  // referential integrity to maintain across deletes.
-  for (const userId of usersToRevoke) {
-    await adapter.delete(vault, '_keyring', userId)
-  }
-
-  // Single rotation pass at the end. The cost is O(records in
+  // Single rotation pass. The cost is O(records in
   // affected collections), NOT O(records × cascade depth) — every
   // descendant's collections were unioned into `affectedCollections`
   // before we got here, so the rotation re-encrypts each affected
   // record exactly once regardless of how deep the cascade went.
-  if (options.rotateKeys !== false && affectedCollections.size > 0) {
+  // It runs before the keyrings are deleted, so that a revocation that
+  // fails half-way can be repeated.
+  if (options.rotateKeys !== false) {
     await rotateKeys(adapter, vault, callerKeyring, [...affectedCollections])
   }
+
+  // Delete every keyring in the revoke set. Order doesn't matter
+  // because each keyring file is independent on disk; we don't have
+  // referential integrity to maintain across deletes.
+  for (const userId of usersToRevoke) {
+    await adapter.delete(vault, '_keyring', userId)
+  }
 }
 
 // ─── Key Rotation ──────────────────────────────────────────────────────
@@ -443,15 +449,24 @@ export async function rotateKeys(
   callerKeyring: UnlockedKeyring,
   requested: string[],
 ): Promise<void> {
+  // Finish an interrupted rotation with the keys it began with: some records
+  // are already encrypted under them.
+  const newDeks = await loadPendingRotation(adapter, vault, callerKeyring)
+
+  // Generate new DEKs for each affected collection.
   // Data the caller cannot decrypt cannot be re-encrypted either: replacing
   // such a key would make the records unreadable for everyone.
-  const collections = requested.filter(c => callerKeyring.deks.has(c))
-
-  // Generate new DEKs for each affected collection
-  const newDeks = new Map<string, CryptoKey>()
-  for (const collName of collections) {
+  for (const collName of requested) {
+    if (!callerKeyring.deks.has(collName) || newDeks.has(collName)) continue
     newDeks.set(collName, await generateDEK())
   }
+  if (newDeks.size === 0) return
+  const collections = [...newDeks.keys()]
+
+  // From here on the new keys survive a crash or a failing store.
+  await withKeyringWrite(callerKeyring, () => persistKeyring(adapter, vault, callerKeyring, newDeks))
+
+  await removeFromOtherKeyrings(adapter, vault, callerKeyring, collections)
 
   // Re-encrypt all records in affected collections
   for (const collName of collections) {
@@ -465,7 +480,13 @@ export async function rotateKeys(
       if (!envelope || !envelope._iv || (envelope._tier ?? 0) !== tier) continue
 
       // Decrypt with old DEK
-      const plaintext = await decrypt(envelope._iv, envelope._data, oldDek)
+      let plaintext: string
+      try {
+        plaintext = await decrypt(envelope._iv, envelope._data, oldDek)
+      } catch (err) {
+        if (await opensWith(envelope, newDek)) continue
+        throw err
+      }
 
       // Re-encrypt with new DEK
       const { iv, data } = await encrypt(plaintext, newDek)
@@ -484,8 +505,41 @@ export async function rotateKeys(
   for (const [collName, newDek] of newDeks) {
     callerKeyring.deks.set(collName, newDek)
   }
-  await persistKeyring(adapter, vault, callerKeyring)
+  await withKeyringWrite(callerKeyring, () => persistKeyring(adapter, vault, callerKeyring, new Map()))
+}
+
+/** Whether an envelope is encrypted under the given key. */
+async function opensWith(envelope: EncryptedEnvelope, dek: CryptoKey): Promise<boolean> {
+  try {
+    await decrypt(envelope._iv, envelope._data, dek)
+    return true
+  } catch {
+    return false
+  }
+}
 
+/** The new DEKs of a rotation that was interrupted. */
+async function loadPendingRotation(
+  adapter: NoydbStore,
+  vault: string,
+  keyring: UnlockedKeyring,
+): Promise<Map<string, CryptoKey>> {
+  const envelope = await adapter.get(vault, '_keyring', keyring.userId)
+  const stored = envelope ? JSON.parse(envelope._data) as Partial<KeyringFile> : {}
+  const pending = new Map<string, CryptoKey>()
+  for (const [collName, wrapped] of Object.entries(stored.pending_rotation ?? {})) {
+    pending.set(collName, await unwrapKey(wrapped, keyring.kek))
+  }
+  return pending
+}
+
+/** Take the keys of the given collections away from every user but the caller. */
+async function removeFromOtherKeyrings(
+  adapter: NoydbStore,
+  vault: string,
+  callerKeyring: UnlockedKeyring,
+  collections: string[],
+): Promise<void> {
   // Update all remaining users' keyrings with re-wrapped new DEKs
   const userIds = await adapter.list(vault, '_keyring')
   for (const userId of userIds) {
@@ -597,6 +651,9 @@ export async function changeSecret(
   keyring: UnlockedKeyring,
   newPassphrase: string,
 ): Promise<UnlockedKeyring> {
+  // The keys of an unfinished rotation are wrapped with the old KEK.
+  await rotateKeys(adapter, vault, keyring, [])
+
   const newSalt = generateSalt()
   const newKek = await deriveKey(newPassphrase, newSalt)
 
@@ -787,6 +844,23 @@ const keyCreation = new WeakMap<
   { inFlight: Map<string, Promise<CryptoKey>>; persisting: Promise<void> }
 >()
 
+function keyCreationOf(keyring: UnlockedKeyring): { inFlight: Map<string, Promise<CryptoKey>>; persisting: Promise<void> } {
+  const creation = keyCreation.get(keyring.deks) ?? { inFlight: new Map<string, Promise<CryptoKey>>(), persisting: Promise.resolve() }
+  keyCreation.set(keyring.deks, creation)
+  return creation
+}
+
+/**
+ * Run one change of the stored keyring at a time: a slower, older write must
+ * not replace a newer one.
+ */
+function withKeyringWrite(keyring: UnlockedKeyring, fn: () => Promise<void>): Promise<void> {
+  const creation = keyCreationOf(keyring)
+  const done = creation.persisting.then(fn)
+  creation.persisting = done.catch(() => {})
+  return done
+}
+
 /** Ensure a DEK exists for a collection. Generates one if new. */
 export async function ensureCollectionDEK(
   adapter: NoydbStore,
@@ -801,9 +875,7 @@ export async function ensureCollectionDEK(
   // Pre-existing race exposed by the multi-writer ledger work in #296.
   // The state is shared by every resolver of the keyring (vault,
   // dictionaries, credentials).
-  const creation = keyCreation.get(keyring.deks) ?? { inFlight: new Map<string, Promise<CryptoKey>>(), persisting: Promise.resolve() }
-  keyCreation.set(keyring.deks, creation)
-  const { inFlight } = creation
+  const { inFlight } = keyCreationOf(keyring)
   return async (collectionName: string): Promise<CryptoKey> => {
     const pending = inFlight.get(collectionName)
     if (pending) return pending
@@ -819,9 +891,8 @@ export async function ensureCollectionDEK(
         }
       }
       const dek = await generateDEK()
-      // One keyring write at a time: a slower, older write must not replace a
-      // newer one. A key that could not be stored must not be used either.
-      const stored = creation.persisting.then(async () => {
+      // A key that could not be stored must not be used either.
+      await withKeyringWrite(keyring, async () => {
         keyring.deks.set(collectionName, dek)
         try {
           await persistKeyring(adapter, vault, keyring)
@@ -830,8 +901,6 @@ export async function ensureCollectionDEK(
           throw err
         }
       })
-      creation.persisting = stored.catch(() => {})
-      await stored
       return dek
     })()
     inFlight.set(collectionName, promise)
@@ -868,26 +937,40 @@ async function loadProvenance(
   adapter: NoydbStore,
   vault: string,
   userId: string,
-): Promise<Pick<KeyringFile, 'created_at' | 'granted_by' | 'expires_at'>> {
+): Promise<Pick<KeyringFile, 'created_at' | 'granted_by' | 'expires_at' | 'pending_rotation'>> {
   const envelope = await adapter.get(vault, '_keyring', userId)
   const stored = envelope ? JSON.parse(envelope._data) as Partial<KeyringFile> : {}
   return {
     created_at: stored.created_at ?? new Date().toISOString(),
     granted_by: stored.granted_by ?? userId,
     ...(stored.expires_at !== undefined && { expires_at: stored.expires_at }),
+    ...(stored.pending_rotation !== undefined && { pending_rotation: stored.pending_rotation }),
   }
 }
 
-/** Persist a keyring file to the adapter. */
+/**
+ * Persist a keyring file to the adapter. The stored keys of an unfinished
+ * rotation are kept unless `pending` replaces them.
+ */
 export async function persistKeyring(
   adapter: NoydbStore,
   vault: string,
   keyring: UnlockedKeyring,
+  pending?: ReadonlyMap<string, CryptoKey>,
 ): Promise<void> {
   const wrappedDeks: Record<string, string> = {}
   for (const [collName, dek] of keyring.deks) {
     wrappedDeks[collName] = await wrapKey(dek, keyring.kek)
   }
+  const { pending_rotation: stored, ...provenance } = await loadProvenance(adapter, vault, keyring.userId)
+  let pendingRotation = stored
+  if (pending !== undefined) {
+    const wrapped: Record<string, string> = {}
+    for (const [collName, dek] of pending) {
+      wrapped[collName] = await wrapKey(dek, keyring.kek)
+    }
+    pendingRotation = pending.size > 0 ? wrapped : undefined
+  }
 
   const keyringFile: KeyringFile = {
     _noydb_keyring: NOYDB_KEYRING_VERSION,
@@ -897,7 +980,8 @@ export async function persistKeyring(
     permissions: keyring.permissions,
     deks: wrappedDeks,
     salt: bufferToBase64(keyring.salt),
-    ...(await loadProvenance(adapter, vault, keyring.userId)),
+    ...provenance,
+    ...(pendingRotation !== undefined && { pending_rotation: pendingRotation }),
     ...(keyring.exportCapability !== undefined && { export_capability: keyring.exportCapability }),
     ...(keyring.importCapability !== undefined && { import_capability: keyring.importCapability }),
   }
diff --git a/packages/hub/src/types.ts b/packages/hub/src/types.ts
index e82cd94..0455db8 100644
--- a/packages/hub/src/types.ts
+++ b/packages/hub/src/types.ts
@@ -486,6 +486,12 @@ export interface KeyringFile {
    * highest tier they have DEKs for at grant time.
    */
   readonly clearance?: number
+  /**
+   * New DEKs of a key rotation this user has started, wrapped like `deks`.
+   * Present only while the rotation runs: an interrupted one is finished
+   * the next time the keyring is loaded.
+   */
+  readonly pending_rotation?: Record<string, string>
 }
 
 // ─── Backup ────────────────────────────────────────────────────────────
-- 
2.43.0


From b23792f0c2b667f40e6ad30841604d14c7dc78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:13 +0000
Subject: [PATCH 023/113] fix: sessions of one user keep each other's keys, and
 grants share the system keys

---
 packages/hub/src/team/keyring.ts | 83 +++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 22 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 229f5fc..15baf92 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -199,15 +199,24 @@ export async function grant(
   const newKek = await deriveKey(options.passphrase, newSalt)
 
   // A collection granted before anyone wrote to it has no DEK yet. Create it
-  // now, so grantor and grantee do not each generate their own later.
-  let created = false
-  for (const collName of Object.keys(permissions)) {
-    if (callerKeyring.deks.has(collName)) continue
-    if ((await adapter.list(vault, collName)).length > 0) continue
-    callerKeyring.deks.set(collName, await generateDEK())
-    created = true
-  }
-  if (created) await persistKeyring(adapter, vault, callerKeyring)
+  // now, so grantor and grantee do not each generate their own later. The same
+  // goes for the system keys that every user of the vault writes with.
+  await withKeyringWrite(callerKeyring, async () => {
+    await adoptStoredKeys(adapter, vault, callerKeyring)
+    const created: string[] = []
+    for (const collName of [...Object.keys(permissions), ...SHARED_SYSTEM_KEYS]) {
+      if (callerKeyring.deks.has(collName)) continue
+      if ((await adapter.list(vault, collName)).length > 0) continue
+      callerKeyring.deks.set(collName, await generateDEK())
+      created.push(collName)
+    }
+    try {
+      if (created.length > 0) await persistKeyring(adapter, vault, callerKeyring)
+    } catch (err) {
+      for (const collName of created) callerKeyring.deks.delete(collName)
+      throw err
+    }
+  })
 
   // Wrap the appropriate DEKs with the new user's KEK
   const wrappedDeks: Record<string, string> = {}
@@ -451,6 +460,7 @@ export async function rotateKeys(
 ): Promise<void> {
   // Finish an interrupted rotation with the keys it began with: some records
   // are already encrypted under them.
+  await withKeyringWrite(callerKeyring, () => adoptStoredKeys(adapter, vault, callerKeyring))
   const newDeks = await loadPendingRotation(adapter, vault, callerKeyring)
 
   // Generate new DEKs for each affected collection.
@@ -838,6 +848,33 @@ export async function listUsers(
 
 // ─── DEK Management ────────────────────────────────────────────────────
 
+/** System keys that any user of a vault may write with. */
+const SHARED_SYSTEM_KEYS = ['_ledger', '_blob', '_consent_audit', '_blob_eviction_audit', '_export_audit', '_elevation_audit']
+
+/**
+ * Take over the keys of the stored keyring: other sessions of the same user
+ * create and rotate keys too. Fails when the passphrase was changed meanwhile,
+ * rather than writing the keyring back under the old one.
+ */
+async function adoptStoredKeys(
+  adapter: NoydbStore,
+  vault: string,
+  keyring: UnlockedKeyring,
+): Promise<void> {
+  const envelope = await adapter.get(vault, '_keyring', keyring.userId)
+  if (!envelope) return
+  const stored = JSON.parse(envelope._data) as KeyringFile
+  // Stored under another passphrase than the one this session opened with.
+  if (stored.salt !== bufferToBase64(keyring.salt)) return
+  for (const [collName, wrapped] of Object.entries(stored.deks)) {
+    const known = keyring.deks.get(collName)
+    const own = known && await wrapKey(known, keyring.kek)
+    // A key that is already in use while its rotation is still recorded as pending stays.
+    if (own === wrapped || (own && own === stored.pending_rotation?.[collName])) continue
+    keyring.deks.set(collName, await unwrapKey(wrapped, keyring.kek))
+  }
+}
+
 /** Keys being created, and the keyring write in progress, per unlocked keyring. */
 const keyCreation = new WeakMap<
   Map<string, CryptoKey>,
@@ -854,10 +891,10 @@ function keyCreationOf(keyring: UnlockedKeyring): { inFlight: Map<string, Promis
  * Run one change of the stored keyring at a time: a slower, older write must
  * not replace a newer one.
  */
-function withKeyringWrite(keyring: UnlockedKeyring, fn: () => Promise<void>): Promise<void> {
+function withKeyringWrite<R>(keyring: UnlockedKeyring, fn: () => Promise<R>): Promise<R> {
   const creation = keyCreationOf(keyring)
   const done = creation.persisting.then(fn)
-  creation.persisting = done.catch(() => {})
+  creation.persisting = done.then(() => undefined, () => undefined)
   return done
 }
 
@@ -882,7 +919,11 @@ export async function ensureCollectionDEK(
     const existing = keyring.deks.get(collectionName)
     if (existing) return existing
 
-    const promise = (async () => {
+    const promise = withKeyringWrite(keyring, async () => {
+      // Another session of this user may have created the key.
+      await adoptStoredKeys(adapter, vault, keyring)
+      const adopted = keyring.deks.get(collectionName)
+      if (adopted) return adopted
       // Existing records were encrypted under a key this user does not hold;
       // a second key for the collection would split it into two halves.
       for (const id of await adapter.list(vault, collectionName)) {
@@ -892,17 +933,15 @@ export async function ensureCollectionDEK(
       }
       const dek = await generateDEK()
       // A key that could not be stored must not be used either.
-      await withKeyringWrite(keyring, async () => {
-        keyring.deks.set(collectionName, dek)
-        try {
-          await persistKeyring(adapter, vault, keyring)
-        } catch (err) {
-          keyring.deks.delete(collectionName)
-          throw err
-        }
-      })
+      keyring.deks.set(collectionName, dek)
+      try {
+        await persistKeyring(adapter, vault, keyring)
+      } catch (err) {
+        keyring.deks.delete(collectionName)
+        throw err
+      }
       return dek
-    })()
+    })
     inFlight.set(collectionName, promise)
     try {
       return await promise
-- 
2.43.0


From c6d44832ef0813b124382ab45dcaa0cb64c33412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:13 +0000
Subject: [PATCH 024/113] fix: synchronised devices converge and lose no edit

---
 packages/hub/src/collection.ts         |  20 +-
 packages/hub/src/noydb.ts              |  18 +-
 packages/hub/src/team/sync-strategy.ts |   4 +-
 packages/hub/src/team/sync.ts          | 293 ++++++++++++++-----------
 packages/hub/src/types.ts              |   2 +
 packages/hub/src/vault.ts              |  21 ++
 6 files changed, 221 insertions(+), 137 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index ad0af66..3ccbae3 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1471,9 +1471,24 @@ export class Collection<T> {
    * @internal
    */
   async _restore(id: string, prior: EncryptedEnvelope | null): Promise<void> {
-    await this.withIdLock(id, async () => {
+    await this._replace(id, undefined, prior)
+  }
+
+  /**
+   * Replace the stored envelope of a record, with cache and indexes, unless
+   * it is no longer the one the caller has `seen`. Returns whether it did.
+   *
+   * @internal
+   */
+  async _replace(
+    id: string,
+    seen: EncryptedEnvelope | null | undefined,
+    prior: EncryptedEnvelope | null,
+  ): Promise<boolean> {
+    return this.withIdLock(id, async () => {
       const current = await this.adapter.get(this.vault, this.name, id)
-      if (current?._data === prior?._data && current?._v === prior?._v) return
+      if (seen !== undefined && (current?._data !== seen?._data || current?._v !== seen?._v)) return false
+      if (current?._data === prior?._data && current?._v === prior?._v) return true
       const currentRecord = current ? await this.decryptRecord(current, { skipValidation: true }) : null
       const priorRecord = prior ? await this.decryptRecord(prior, { skipValidation: true }) : null
 
@@ -1502,6 +1517,7 @@ export class Collection<T> {
         id,
         action: prior ? 'put' : 'delete',
       } satisfies ChangeEvent)
+      return true
     })
   }
 
diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index d0eb6e2..aa88f14 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -1,4 +1,5 @@
 import type {
+  EncryptedEnvelope,
   NoydbOptions,
   NoydbEventMap,
   GrantOptions,
@@ -196,6 +197,8 @@ export class Noydb {
     if (targets.length > 0) {
       // Primary sync engine is the first sync-peer (or first target if none)
       const primary = targets.find(t => t.role === 'sync-peer') ?? targets[0]!
+      const replaceStored = (coll: string, id: string, seen: EncryptedEnvelope | null, next: EncryptedEnvelope): Promise<boolean> =>
+        this.vault(name)._replaceStored(coll, id, seen, next)
       const effectivePolicy = this.options.syncPolicy ?? primary.policy ?? INDEXED_STORE_POLICY
       syncEngine = this.syncStrategy.buildSyncEngine({
         local: this.options.store,
@@ -205,6 +208,7 @@ export class Noydb {
         emitter: this.emitter,
         syncPolicy: effectivePolicy,
         role: primary.role,
+        replaceStored,
         ...(primary.label !== undefined ? { label: primary.label } : {}),
       })
       this.syncEngines.set(name, syncEngine)
@@ -212,6 +216,9 @@ export class Noydb {
       // Additional targets get their own engines (backup/archive are push-only)
       for (const target of targets) {
         if (target === primary) continue
+        const base = `${name}::${target.label ?? target.role}`
+        let key = base
+        for (let n = 2; this.syncEngines.has(key); n++) key = `${base}#${n}`
         const targetPolicy = target.policy ?? this.options.syncPolicy ?? INDEXED_STORE_POLICY
         const engine = this.syncStrategy.buildSyncEngine({
           local: this.options.store,
@@ -221,9 +228,10 @@ export class Noydb {
           emitter: this.emitter,
           syncPolicy: targetPolicy,
           role: target.role,
+          metaId: `meta${key.slice(name.length)}`,
+          replaceStored,
           ...(target.label !== undefined ? { label: target.label } : {}),
         })
-        const key = `${name}::${target.label ?? target.role}`
         this.syncEngines.set(key, engine)
       }
     }
@@ -238,11 +246,13 @@ export class Noydb {
       onDirty: targets.length > 0
         ? async (coll, id, action, version) => {
             // Fan out dirty tracking to all sync engines for this vault
+            const tracked: Array<Promise<void>> = []
             for (const [key, engine] of this.syncEngines) {
               if (key === name || key.startsWith(`${name}::`)) {
-                void engine.trackChange(coll, id, action, version)
+                tracked.push(engine.trackChange(coll, id, action, version))
               }
             }
+            await Promise.all(tracked)
           }
         : undefined,
       onRegisterConflictResolver: syncEngine
@@ -683,7 +693,9 @@ export class Noydb {
    */
   async sync(vault: string, options?: { push?: PushOptions; pull?: PullOptions }): Promise<{ pull: PullResult; push: PushResult }> {
     const primary = this.getSyncEngine(vault)
-    const result = await primary.sync(options)
+    const result = primary.role === 'sync-peer'
+      ? await primary.sync(options)
+      : { pull: { pulled: 0, conflicts: [], errors: [] }, push: await primary.push(options?.push) }
 
     // Fan out push to backup/archive targets (fire-and-mark-dirty)
     for (const [key, engine] of this.syncEngines) {
diff --git a/packages/hub/src/team/sync-strategy.ts b/packages/hub/src/team/sync-strategy.ts
index 2bb8341..b71994a 100644
--- a/packages/hub/src/team/sync-strategy.ts
+++ b/packages/hub/src/team/sync-strategy.ts
@@ -32,7 +32,7 @@ import type {
 } from '../types.js'
 import type { NoydbEventEmitter } from '../events.js'
 import type { SyncPolicy } from '../store/sync-policy.js'
-import type { SyncEngine } from './sync.js'
+import type { SyncEngine, ReplaceStored } from './sync.js'
 import type { SyncTransaction } from './sync-transaction.js'
 import type { PresenceHandle, PresenceHandleOpts } from './presence.js'
 import type { Vault } from '../vault.js'
@@ -53,6 +53,8 @@ export interface BuildSyncEngineOptions {
   syncPolicy?: SyncPolicy
   role?: SyncTargetRole
   label?: string
+  metaId?: string
+  replaceStored?: ReplaceStored
 }
 
 /**
diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index 232d3b6..9b37345 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -19,6 +19,14 @@ import type { NoydbEventEmitter } from '../events.js'
 import type { SyncPolicy } from '../store/sync-policy.js'
 import { SyncScheduler } from '../store/sync-policy.js'
 
+/** Replace a stored record if it is still the one seen; open collections follow. */
+export type ReplaceStored = (
+  collection: string,
+  id: string,
+  seen: EncryptedEnvelope | null,
+  next: EncryptedEnvelope,
+) => Promise<boolean>
+
 /** Sync engine: dirty tracking, push, pull, conflict resolution, scheduling. */
 export class SyncEngine {
   private readonly local: NoydbStore
@@ -26,13 +34,19 @@ export class SyncEngine {
   private readonly strategy: ConflictStrategy
   private readonly emitter: NoydbEventEmitter
   private readonly vault: string
+  private readonly metaId: string
+  private readonly replaceStored: ReplaceStored | undefined
   readonly role: SyncTargetRole
   readonly label: string | undefined
 
   private dirty: DirtyEntry[] = []
+  /** Versions that reached the remote before the write was tracked. */
+  private readonly pushedEarly = new Map<string, number>()
   private lastPush: string | null = null
   private lastPull: string | null = null
-  private loaded = false
+  private loading: Promise<void> | null = null
+  private running: Promise<void> = Promise.resolve()
+  private persisting: Promise<void> = Promise.resolve()
   private autoSyncInterval: ReturnType<typeof setInterval> | null = null
   private isOnline = true
 
@@ -51,6 +65,8 @@ export class SyncEngine {
     syncPolicy?: SyncPolicy
     role?: SyncTargetRole
     label?: string
+    metaId?: string
+    replaceStored?: ReplaceStored
   }) {
     this.local = opts.local
     this.remote = opts.remote
@@ -59,6 +75,8 @@ export class SyncEngine {
     this.emitter = opts.emitter
     this.role = opts.role ?? 'sync-peer'
     this.label = opts.label
+    this.metaId = opts.metaId ?? 'meta'
+    this.replaceStored = opts.replaceStored
 
     // Create scheduler if a policy is provided
     const policy = opts.syncPolicy
@@ -97,6 +115,8 @@ export class SyncEngine {
 
     // Deduplicate: if same collection+id already in dirty, update it
     const idx = this.dirty.findIndex(d => d.collection === collection && d.id === id)
+    const early = this.pushedEarly.get(dirtyKey(collection, id)) ?? 0
+    this.pushedEarly.delete(dirtyKey(collection, id))
     const entry: DirtyEntry = {
       vault: this.vault,
       collection,
@@ -104,6 +124,8 @@ export class SyncEngine {
       action,
       version,
       timestamp: new Date().toISOString(),
+      // The version the remote is expected to hold: the one before the first unpushed change
+      base: this.dirty[idx]?.base ?? (action === 'put' ? Math.max(version - 1, early) : version),
     }
 
     if (idx >= 0) {
@@ -120,33 +142,48 @@ export class SyncEngine {
 
   /** Push dirty records to remote adapter. Accepts optional `PushOptions` for partial sync. */
   async push(options?: PushOptions): Promise<PushResult> {
+    // Partial sync: skip collections not in the filter
+    return this.exclusively(() => this.pushMatching(
+      (entry) => !options?.collections || options.collections.includes(entry.collection),
+    ))
+  }
+
+  private async pushMatching(predicate: (entry: DirtyEntry) => boolean): Promise<PushResult> {
     await this.ensureLoaded()
 
     let pushed = 0
     const conflicts: Conflict[] = []
     const errors: Error[] = []
-    const completed: number[] = []
 
-    for (let i = 0; i < this.dirty.length; i++) {
-      const entry = this.dirty[i]!
-
-      // Partial sync: skip collections not in the filter
-      if (options?.collections && !options.collections.includes(entry.collection)) {
-        continue
-      }
+    for (const listed of [...this.dirty]) {
+      let entry = listed
+      if (!predicate(entry)) continue
 
       try {
         if (entry.action === 'delete') {
           await this.remote.delete(this.vault, entry.collection, entry.id)
-          completed.push(i)
+          this.markPushed(entry, 0)
           pushed++
         } else {
-          const envelope = await this.local.get(this.vault, entry.collection, entry.id)
+          let envelope = await this.local.get(this.vault, entry.collection, entry.id)
           if (!envelope) {
             // Record was deleted locally after being marked dirty
-            completed.push(i)
+            this.markPushed(entry, entry.base ?? entry.version - 1)
             continue
           }
+          const base = entry.base ?? entry.version - 1
+          if (envelope._v <= base) {
+            const held = await this.remote.get(this.vault, entry.collection, entry.id)
+            if (held && sameEnvelope(held, envelope)) {
+              this.markPushed(entry, base)
+              continue
+            }
+            // Deleted and created again: other devices only follow rising versions.
+            const raised: EncryptedEnvelope = { ...envelope, _v: base + 1 }
+            if (!await this.replaceLocal(entry.collection, entry.id, envelope, raised)) continue
+            envelope = raised
+            entry = this.rebase(entry, raised._v, base)
+          }
 
           try {
             await this.remote.put(
@@ -154,14 +191,20 @@ export class SyncEngine {
               entry.collection,
               entry.id,
               envelope,
-              entry.version - 1,
+              base,
             )
-            completed.push(i)
+            // This includes a write whose trackChange() is still to come
+            if (envelope._v > entry.version) this.pushedEarly.set(dirtyKey(entry.collection, entry.id), envelope._v)
+            this.markPushed(entry, envelope._v)
             pushed++
           } catch (err) {
             if (err instanceof ConflictError) {
               const remoteEnvelope = await this.remote.get(this.vault, entry.collection, entry.id)
-              if (remoteEnvelope) {
+              if (remoteEnvelope && sameEnvelope(remoteEnvelope, envelope)) {
+                // An earlier push got through whose reply was lost.
+                this.markPushed(entry, envelope._v)
+                pushed++
+              } else if (remoteEnvelope) {
                 const { handled, conflict } = await this.handleConflict(
                   entry.collection,
                   entry.id,
@@ -170,19 +213,20 @@ export class SyncEngine {
                   'push',
                 )
                 conflicts.push(conflict)
-                if (handled === 'local') {
-                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
-                  completed.push(i)
-                  pushed++
-                } else if (handled === 'remote') {
-                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
-                  completed.push(i)
-                } else if (handled === 'merged' && conflict.local !== envelope) {
-                  // Merged envelope is stored in conflict.local (the winner)
-                  const merged = conflict.local
-                  await this.remote.put(this.vault, entry.collection, entry.id, merged)
-                  await this.local.put(this.vault, entry.collection, entry.id, merged)
-                  completed.push(i)
+                if (handled === 'remote') {
+                  if (await this.replaceLocal(entry.collection, entry.id, envelope, conflict.remote)) {
+                    this.markPushed(entry, conflict.remote._v)
+                  }
+                } else if (handled === 'local' || handled === 'merged') {
+                  // The winner is stored in conflict.local. Devices that hold the
+                  // losing version only take the winner if its version is higher.
+                  const winner: EncryptedEnvelope = conflict.local._v > remoteEnvelope._v
+                    ? conflict.local
+                    : { ...conflict.local, _v: remoteEnvelope._v + 1 }
+                  if (winner !== envelope && !await this.replaceLocal(entry.collection, entry.id, envelope, winner)) continue
+                  const resolved = this.rebase(entry, winner._v, remoteEnvelope._v)
+                  await this.remote.put(this.vault, entry.collection, entry.id, winner, remoteEnvelope._v)
+                  this.markPushed(resolved, winner._v)
                   pushed++
                 }
                 // handled === 'deferred': leave in dirty log
@@ -197,11 +241,6 @@ export class SyncEngine {
       }
     }
 
-    // Remove completed entries from dirty log (reverse order to preserve indices)
-    for (const i of completed.sort((a, b) => b - a)) {
-      this.dirty.splice(i, 1)
-    }
-
     this.lastPush = new Date().toISOString()
     await this.persistMeta()
 
@@ -212,6 +251,10 @@ export class SyncEngine {
 
   /** Pull remote records to local adapter. Accepts optional `PullOptions` for partial sync. */
   async pull(options?: PullOptions): Promise<PullResult> {
+    return this.exclusively(() => this.pullAll(options))
+  }
+
+  private async pullAll(options?: PullOptions): Promise<PullResult> {
     await this.ensureLoaded()
 
     let pulled = 0
@@ -235,15 +278,18 @@ export class SyncEngine {
 
           try {
             const localEnvelope = await this.local.get(this.vault, collName, id)
+            const entry = this.dirtyEntry(collName, id)
 
             if (!localEnvelope) {
+              // Deleted here and not pushed yet: the push decides
+              if (entry?.action === 'delete') continue
               // New record from remote
-              await this.local.put(this.vault, collName, id, remoteEnvelope)
-              pulled++
+              if (await this.replaceLocal(collName, id, null, remoteEnvelope)) pulled++
             } else if (remoteEnvelope._v > localEnvelope._v) {
               // Remote is newer — check if we have a dirty entry for this
-              const isDirty = this.dirty.some(d => d.collection === collName && d.id === id)
-              if (isDirty) {
+              if (entry) {
+                // The version our changes started from is nobody else's change
+                if (entry.base === remoteEnvelope._v) continue
                 // Both changed — conflict
                 const { handled, conflict } = await this.handleConflict(
                   collName,
@@ -254,20 +300,22 @@ export class SyncEngine {
                 )
                 conflicts.push(conflict)
                 if (handled === 'remote') {
-                  await this.local.put(this.vault, collName, id, conflict.remote)
-                  this.dirty = this.dirty.filter(d => !(d.collection === collName && d.id === id))
-                  pulled++
+                  if (await this.replaceLocal(collName, id, localEnvelope, conflict.remote)) {
+                    this.markPushed(entry, conflict.remote._v)
+                    pulled++
+                  }
                 } else if (handled === 'merged' && conflict.local !== localEnvelope) {
+                  // The merged record still has to be pushed
                   const merged = conflict.local
-                  await this.local.put(this.vault, collName, id, merged)
-                  this.dirty = this.dirty.filter(d => !(d.collection === collName && d.id === id))
-                  pulled++
+                  if (await this.replaceLocal(collName, id, localEnvelope, merged)) {
+                    this.rebase(entry, merged._v, remoteEnvelope._v)
+                    pulled++
+                  }
                 }
                 // 'local' or 'deferred': push handles it
               } else {
                 // Remote is newer, no local changes — update
-                await this.local.put(this.vault, collName, id, remoteEnvelope)
-                pulled++
+                if (await this.replaceLocal(collName, id, localEnvelope, remoteEnvelope)) pulled++
               }
             }
             // Same version or local is newer — skip (push will handle)
@@ -288,6 +336,49 @@ export class SyncEngine {
     return result
   }
 
+  /** Run pushes and pulls one at a time. */
+  private exclusively<R>(fn: () => Promise<R>): Promise<R> {
+    const run = this.running.then(fn)
+    this.running = run.then(() => undefined, () => undefined)
+    return run
+  }
+
+  /**
+   * Write `next` to the local store in place of `seen`. Returns false, and
+   * writes nothing, when the record has changed since `seen` was read.
+   */
+  private async replaceLocal(
+    collection: string,
+    id: string,
+    seen: EncryptedEnvelope | null,
+    next: EncryptedEnvelope,
+  ): Promise<boolean> {
+    if (this.replaceStored) return this.replaceStored(collection, id, seen, next)
+    await this.local.put(this.vault, collection, id, next)
+    return true
+  }
+
+  private dirtyEntry(collection: string, id: string): DirtyEntry | undefined {
+    return this.dirty.find(d => d.collection === collection && d.id === id)
+  }
+
+  /** The remote now holds `version` (0 = nothing); a later local change stays dirty on top of it. */
+  private markPushed(entry: DirtyEntry, version: number): void {
+    this.dirty = this.dirty.filter(d => d !== entry).map(d =>
+      d.collection === entry.collection && d.id === entry.id ? { ...d, base: version } : d,
+    )
+  }
+
+  /** Keep the record dirty, now on top of the remote version `base`. */
+  private rebase(entry: DirtyEntry, version: number, base: number): DirtyEntry {
+    const rebased: DirtyEntry = { ...entry, version, base }
+    this.dirty = this.dirty.map(d => {
+      if (d === entry) return rebased
+      return d.collection === entry.collection && d.id === entry.id ? { ...d, base } : d
+    })
+    return rebased
+  }
+
   /** Bidirectional sync: pull then push. */
   async sync(options?: { push?: PushOptions; pull?: PullOptions }): Promise<{ pull: PullResult; push: PushResult }> {
     const pullResult = await this.pull(options?.pull)
@@ -301,86 +392,7 @@ export class SyncEngine {
    * are removed from the dirty log on success.
    */
   async pushFiltered(predicate: (entry: DirtyEntry) => boolean): Promise<PushResult> {
-    await this.ensureLoaded()
-
-    let pushed = 0
-    const conflicts: Conflict[] = []
-    const errors: Error[] = []
-    const completed: number[] = []
-
-    for (let i = 0; i < this.dirty.length; i++) {
-      const entry = this.dirty[i]!
-      if (!predicate(entry)) continue
-
-      try {
-        if (entry.action === 'delete') {
-          await this.remote.delete(this.vault, entry.collection, entry.id)
-          completed.push(i)
-          pushed++
-        } else {
-          const envelope = await this.local.get(this.vault, entry.collection, entry.id)
-          if (!envelope) {
-            completed.push(i)
-            continue
-          }
-
-          try {
-            await this.remote.put(
-              this.vault,
-              entry.collection,
-              entry.id,
-              envelope,
-              entry.version - 1,
-            )
-            completed.push(i)
-            pushed++
-          } catch (err) {
-            if (err instanceof ConflictError) {
-              const remoteEnvelope = await this.remote.get(this.vault, entry.collection, entry.id)
-              if (remoteEnvelope) {
-                const { handled, conflict } = await this.handleConflict(
-                  entry.collection,
-                  entry.id,
-                  envelope,
-                  remoteEnvelope,
-                  'push',
-                )
-                conflicts.push(conflict)
-                if (handled === 'local') {
-                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
-                  completed.push(i)
-                  pushed++
-                } else if (handled === 'remote') {
-                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
-                  completed.push(i)
-                } else if (handled === 'merged' && conflict.local !== envelope) {
-                  const merged = conflict.local
-                  await this.remote.put(this.vault, entry.collection, entry.id, merged)
-                  await this.local.put(this.vault, entry.collection, entry.id, merged)
-                  completed.push(i)
-                  pushed++
-                }
-              }
-            } else {
-              throw err
-            }
-          }
-        }
-      } catch (err) {
-        errors.push(err instanceof Error ? err : new Error(String(err)))
-      }
-    }
-
-    for (const i of completed.sort((a, b) => b - a)) {
-      this.dirty.splice(i, 1)
-    }
-
-    this.lastPush = new Date().toISOString()
-    await this.persistMeta()
-
-    const result: PushResult = { pushed, conflicts, errors }
-    this.emitter.emit('sync:push', result)
-    return result
+    return this.exclusively(() => this.pushMatching(predicate))
   }
 
   /** Get current sync status. */
@@ -511,21 +523,32 @@ export class SyncEngine {
 
   // ─── Persistence ─────────────────────────────────────────────────
 
-  private async ensureLoaded(): Promise<void> {
-    if (this.loaded) return
+  private ensureLoaded(): Promise<void> {
+    this.loading ??= this.loadMeta().catch((err: unknown) => {
+      this.loading = null
+      throw err
+    })
+    return this.loading
+  }
 
-    const envelope = await this.local.get(this.vault, '_sync', 'meta')
+  private async loadMeta(): Promise<void> {
+    const envelope = await this.local.get(this.vault, '_sync', this.metaId)
     if (envelope) {
       const meta = JSON.parse(envelope._data) as SyncMetadata
       this.dirty = [...meta.dirty]
       this.lastPush = meta.last_push
       this.lastPull = meta.last_pull
     }
+  }
 
-    this.loaded = true
+  /** One write at a time, so that a slower, older one cannot replace a newer one. */
+  private persistMeta(): Promise<void> {
+    const done = this.persisting.then(() => this.writeMeta())
+    this.persisting = done.catch(() => {})
+    return done
   }
 
-  private async persistMeta(): Promise<void> {
+  private async writeMeta(): Promise<void> {
     const meta: SyncMetadata = {
       _noydb_sync: NOYDB_SYNC_VERSION,
       last_push: this.lastPush,
@@ -541,6 +564,14 @@ export class SyncEngine {
       _data: JSON.stringify(meta),
     }
 
-    await this.local.put(this.vault, '_sync', 'meta', envelope)
+    await this.local.put(this.vault, '_sync', this.metaId, envelope)
   }
 }
+
+function dirtyKey(collection: string, id: string): string {
+  return JSON.stringify([collection, id])
+}
+
+function sameEnvelope(a: EncryptedEnvelope, b: EncryptedEnvelope): boolean {
+  return a._v === b._v && a._ts === b._ts && a._iv === b._iv && a._data === b._data
+}
diff --git a/packages/hub/src/types.ts b/packages/hub/src/types.ts
index 0455db8..67d4bf5 100644
--- a/packages/hub/src/types.ts
+++ b/packages/hub/src/types.ts
@@ -649,6 +649,8 @@ export interface DirtyEntry {
   readonly action: 'put' | 'delete'
   readonly version: number
   readonly timestamp: string
+  /** Version the remote held before the first of the unpushed changes. */
+  readonly base?: number
 }
 
 export interface SyncMetadata {
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 240ebca..4654da2 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -1171,6 +1171,27 @@ export class Vault {
     }).querySourceForJoin()
   }
 
+  /**
+   * Replace a stored record, unless it is no longer the envelope `seen`
+   * (`null` = absent). A collection that is open shows the new record from
+   * then on. Returns whether the record was replaced.
+   *
+   * @internal — used by the sync engine
+   */
+  async _replaceStored(
+    collectionName: string,
+    id: string,
+    seen: EncryptedEnvelope | null,
+    next: EncryptedEnvelope,
+  ): Promise<boolean> {
+    const coll = this.collectionCache.get(collectionName)
+    if (coll && !next._tier && !seen?._tier) return coll._replace(id, seen, next)
+    const current = await this.adapter.get(this.name, collectionName, id)
+    if (current?._data !== seen?._data || current?._v !== seen?._v) return false
+    await this.adapter.put(this.name, collectionName, id, next)
+    return true
+  }
+
   /**
    * Walk every collection that has declared refs, load its records,
    * and report any reference whose target id is missing. Modes are
-- 
2.43.0


From 8cdaee32c11ea51c442926a86b79b4e7b6d67df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:53 +0000
Subject: [PATCH 025/113] fix: CRDT merges do not depend on the side that
 merges, and a removed list element can be added again

---
 packages/hub/src/crdt/crdt.ts | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/hub/src/crdt/crdt.ts b/packages/hub/src/crdt/crdt.ts
index a0e72e8..cff2325 100644
--- a/packages/hub/src/crdt/crdt.ts
+++ b/packages/hub/src/crdt/crdt.ts
@@ -110,7 +110,9 @@ function mergeLwwMap(a: LwwMapState, b: LwwMapState): LwwMapState {
     const fb = b.fields[field]
     if (!fa) { merged[field] = fb! }
     else if (!fb) { merged[field] = fa }
-    else { merged[field] = fa.ts >= fb.ts ? fa : fb }
+    else if (fa.ts !== fb.ts) { merged[field] = fa.ts > fb.ts ? fa : fb }
+    // Written at the same instant: every device has to pick the same side
+    else { merged[field] = (JSON.stringify(fa.v) ?? '') >= (JSON.stringify(fb.v) ?? '') ? fa : fb }
   }
   return { _crdt: 'lww-map', fields: merged }
 }
@@ -118,11 +120,14 @@ function mergeLwwMap(a: LwwMapState, b: LwwMapState): LwwMapState {
 function mergeRga(a: RgaState, b: RgaState): RgaState {
   // Union tombstones from both sides
   const allTombstones = new Set([...a.tombstones, ...b.tombstones])
-  // Union items by nid: start with a's ordering, append b-only items
-  const seenNids = new Set(a.items.map(i => i.nid))
+  // Union items by nid: start with one side's ordering, append the other side's
+  // items. Which side comes first must not depend on which device merges.
+  const order = (s: RgaState): string => s.items.map(i => i.nid).join()
+  const [first, second] = order(a) <= order(b) ? [a, b] : [b, a]
+  const seenNids = new Set(first.items.map(i => i.nid))
   const merged: Array<{ nid: string; v: unknown }> = [
-    ...a.items,
-    ...b.items.filter(i => !seenNids.has(i.nid)),
+    ...first.items,
+    ...second.items.filter(i => !seenNids.has(i.nid)),
   ]
   return { _crdt: 'rga', items: merged, tombstones: [...allTombstones] }
 }
@@ -174,8 +179,11 @@ export function buildRgaState(
 ): RgaState {
   // Build an index from JSON(v) → existing item so we can match by value
   const existingByValue = new Map<string, { nid: string; v: unknown }>()
+  const removed = new Set(existing?.tombstones)
   if (existing) {
     for (const item of existing.items) {
+      // A removed item stays removed; writing its value again adds a new one
+      if (removed.has(item.nid)) continue
       // Only add first occurrence per value to avoid double-matching
       const key = JSON.stringify(item.v)
       if (!existingByValue.has(key)) existingByValue.set(key, item)
-- 
2.43.0


From a7a6a4a3087666eb146a8ab3f7bc0833c137c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:52 +0000
Subject: [PATCH 026/113] fix: blob reference counts, concurrent blob writes,
 odd slot and file names, and blob export of lazy collections

---
 packages/hub/src/blobs/blob-set.ts     | 137 +++++++++++++------------
 packages/hub/src/blobs/export-blobs.ts |  20 ++--
 packages/hub/src/vault.ts              |   9 +-
 3 files changed, 92 insertions(+), 74 deletions(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 88526e3..ab0c595 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -18,7 +18,7 @@ import {
   bufferToBase64,
   base64ToBuffer,
 } from '../crypto.js'
-import { ConflictError, NotFoundError } from '../errors.js'
+import { ConflictError, NotFoundError, TamperedError } from '../errors.js'
 import { detectMagic, isPreCompressed } from './mime-magic.js'
 
 // ─── Internal collection names ─────────────────────────────────────────
@@ -108,6 +108,22 @@ function chunkAAD(eTag: string, chunkIndex: number, chunkCount: number): Uint8Ar
   return new TextEncoder().encode(`${eTag}:${chunkIndex}:${chunkCount}`)
 }
 
+/**
+ * Content-Disposition value. Header values are Latin-1 and quoted, so any
+ * other file name is sent percent-encoded as `filename*` (RFC 6266), next
+ * to an ASCII fallback.
+ */
+function contentDisposition(type: 'inline' | 'attachment', filename: string): string {
+  const fallback = filename.replace(/[^\x20-\x7e]|["\\]/g, '_')
+  if (fallback === filename) return `${type}; filename="${filename}"`
+  const encoded = Array.from(new TextEncoder().encode(filename), (b) =>
+    /[A-Za-z0-9._-]/.test(String.fromCharCode(b))
+      ? String.fromCharCode(b)
+      : `%${b.toString(16).toUpperCase().padStart(2, '0')}`,
+  ).join('')
+  return `${type}; filename="${fallback}"; filename*=UTF-8''${encoded}`
+}
+
 // ─── BlobSet ──────────────────────────────────────────────────────────
 
 /**
@@ -187,19 +203,15 @@ export class BlobSet {
     version: number
   }> {
     const envelope = await this.store.get(this.vault, this.slotsCollection, this.recordId)
-    if (!envelope) return { slots: {}, version: 0 }
-
-    if (!this.encrypted) {
-      return {
-        slots: JSON.parse(envelope._data) as Record<string, SlotRecord>,
-        version: envelope._v,
-      }
-    }
+    // No prototype: a slot may be named `constructor` or `__proto__`.
+    const slots = Object.create(null) as Record<string, SlotRecord>
+    if (!envelope) return { slots, version: 0 }
 
-    const dek = await this.getDEK(this.collection)
-    const json = await decrypt(envelope._iv, envelope._data, dek)
+    const json = this.encrypted
+      ? await decrypt(envelope._iv, envelope._data, await this.getDEK(this.collection))
+      : envelope._data
     return {
-      slots: JSON.parse(json) as Record<string, SlotRecord>,
+      slots: Object.assign(slots, JSON.parse(json) as Record<string, SlotRecord>),
       version: envelope._v,
     }
   }
@@ -237,7 +249,7 @@ export class BlobSet {
       this.slotsCollection,
       this.recordId,
       envelope,
-      currentVersion > 0 ? currentVersion : undefined,
+      currentVersion,
     )
   }
 
@@ -268,19 +280,19 @@ export class BlobSet {
     const envelope = await this.store.get(this.vault, BLOB_INDEX_COLLECTION, eTag)
     if (!envelope) return null
 
-    if (!this.encrypted) {
-      return { blob: JSON.parse(envelope._data) as BlobObject, version: envelope._v }
-    }
-
-    const dek = await this.getDEK(BLOB_COLLECTION)
-    const json = await decrypt(envelope._iv, envelope._data, dek)
-    return { blob: JSON.parse(json) as BlobObject, version: envelope._v }
+    const json = this.encrypted
+      ? await decrypt(envelope._iv, envelope._data, await this.getDEK(BLOB_COLLECTION))
+      : envelope._data
+    const blob = JSON.parse(json) as BlobObject
+    // An entry moved here from another blob would serve that blob's bytes.
+    if (blob.eTag !== eTag) throw new TamperedError()
+    return { blob, version: envelope._v }
   }
 
-  private async writeBlobObject(blob: BlobObject, expectedVersion?: number): Promise<void> {
+  private async writeBlobObject(blob: BlobObject, expectedVersion: number): Promise<void> {
     const json = JSON.stringify(blob)
     const now = new Date().toISOString()
-    const newVersion = (expectedVersion ?? 0) + 1
+    const newVersion = expectedVersion + 1
     let envelope: EncryptedEnvelope
 
     if (this.encrypted) {
@@ -411,7 +423,12 @@ export class BlobSet {
   // ─── Effective chunk size ─────────────────────────────────────────
 
   private effectiveChunkSize(opts?: BlobPutOptions): number {
-    if (opts?.chunkSize) return opts.chunkSize
+    if (opts?.chunkSize) {
+      if (!Number.isInteger(opts.chunkSize) || opts.chunkSize < 1) {
+        throw new RangeError(`Blob chunkSize must be a positive integer, got ${opts.chunkSize}`)
+      }
+      return opts.chunkSize
+    }
     if (this.maxBlobBytes) return this.maxBlobBytes
     return DEFAULT_CHUNK_SIZE
   }
@@ -502,23 +519,30 @@ export class BlobSet {
       }
 
       // Step 6 — write blob index entry after all chunks succeed
-      await this.writeBlobObject({
-        eTag,
-        size: data.byteLength,
-        compressedSize: compressed.byteLength,
-        compression: algorithm,
-        chunkSize,
-        chunkCount,
-        ...(mimeType !== undefined ? { mimeType } : {}),
-        createdAt: new Date().toISOString(),
-        refCount: 1,
-      })
+      try {
+        await this.writeBlobObject({
+          eTag,
+          size: data.byteLength,
+          compressedSize: compressed.byteLength,
+          compression: algorithm,
+          chunkSize,
+          chunkCount,
+          ...(mimeType !== undefined ? { mimeType } : {}),
+          createdAt: new Date().toISOString(),
+          refCount: 1,
+        }, 0)
+      } catch (err) {
+        if (!(err instanceof ConflictError)) throw err
+        // A concurrent put of the same bytes created the entry first.
+        await this.casUpdateRefCount(eTag, +1)
+      }
     }
 
     // Step 7 — CAS-update slot metadata
     const uploaderUserId = opts?.uploadedBy ?? this.userId
+    let oldETag: string | undefined
     await this.casUpdateSlots((slots) => {
-      const oldETag = slots[slotName]?.eTag
+      oldETag = slots[slotName]?.eTag
       slots[slotName] = {
         eTag,
         filename: slotName,
@@ -527,25 +551,17 @@ export class BlobSet {
         uploadedAt: new Date().toISOString(),
         ...(uploaderUserId !== undefined ? { uploadedBy: uploaderUserId } : {}),
       }
-      // Schedule old eTag refCount decrement (non-blocking best-effort)
-      if (oldETag && oldETag !== eTag) {
-        this._deferredRefDecrement = oldETag
-      }
       return slots
     })
 
-    // Decrement old eTag refCount outside the CAS loop
-    if (this._deferredRefDecrement) {
-      const oldETag = this._deferredRefDecrement
-      this._deferredRefDecrement = undefined
+    // Release the reference the slot held before, outside the CAS loop
+    if (oldETag) {
       await this.casUpdateRefCount(oldETag, -1).catch(() => {
         // Best-effort — blobGC will reconcile
       })
     }
   }
 
-  private _deferredRefDecrement: string | undefined
-
   /**
    * Fetch all bytes for the named slot.
    * Returns `null` if the slot does not exist.
@@ -580,8 +596,8 @@ export class BlobSet {
     let eTagToDecrement: string | undefined
 
     await this.casUpdateSlots((slots) => {
-      if (!(slotName in slots)) return null
-      eTagToDecrement = slots[slotName]!.eTag
+      eTagToDecrement = slots[slotName]?.eTag
+      if (eTagToDecrement === undefined) return null
       delete slots[slotName]
       return slots
     })
@@ -684,17 +700,16 @@ export class BlobSet {
     const existing = await this.loadVersionRecord(slotName, label)
     if (existing && existing.eTag === slot.eTag) return // no-op: same blob
 
-    // Write the version record
     const record: VersionRecord = {
       label,
       eTag: slot.eTag,
       publishedAt: new Date().toISOString(),
       ...(this.userId !== undefined ? { publishedBy: this.userId } : {}),
     }
-    await this.writeVersionRecord(slotName, record)
-
-    // Increment refCount for the new version's eTag
+    // Take the reference first, so that a failure in between cannot leave
+    // a version whose blob counts as unreferenced
     await this.casUpdateRefCount(slot.eTag, +1)
+    await this.writeVersionRecord(slotName, record)
 
     // If overwriting an existing version with a different eTag, decrement the old one
     if (existing && existing.eTag !== slot.eTag) {
@@ -729,13 +744,12 @@ export class BlobSet {
       const envelope = await this.store.get(this.vault, this.versionsCollection, key)
       if (!envelope) continue
 
-      if (!this.encrypted) {
-        versions.push(JSON.parse(envelope._data) as VersionRecord)
-      } else {
-        const dek = await this.getDEK(this.collection)
-        const json = await decrypt(envelope._iv, envelope._data, dek)
-        versions.push(JSON.parse(json) as VersionRecord)
-      }
+      const json = this.encrypted
+        ? await decrypt(envelope._iv, envelope._data, await this.getDEK(this.collection))
+        : envelope._data
+      const version = JSON.parse(json) as VersionRecord
+      // The prefix also matches records and slots whose name contains '::'.
+      if (key === this.versionKey(slotName, version.label)) versions.push(version)
     }
 
     return versions
@@ -865,13 +879,12 @@ export class BlobSet {
       },
     })
 
-    const filename = slot.filename
     return new Response(body, {
       headers: {
         'Content-Type': slot.mimeType ?? 'application/octet-stream',
         'Content-Length': String(slot.size),
         'ETag': `"${slot.eTag}"`,
-        'Content-Disposition': `inline; filename="${filename}"`,
+        'Content-Disposition': contentDisposition('inline', slot.filename),
         'Last-Modified': new Date(slot.uploadedAt).toUTCString(),
       },
     })
@@ -900,9 +913,7 @@ export class BlobSet {
     })
 
     const filename = opts?.filename ?? slot.filename
-    const disposition = opts?.inline
-      ? `inline; filename="${filename}"`
-      : `attachment; filename="${filename}"`
+    const disposition = contentDisposition(opts?.inline ? 'inline' : 'attachment', filename)
 
     return new Response(body, {
       headers: {
diff --git a/packages/hub/src/blobs/export-blobs.ts b/packages/hub/src/blobs/export-blobs.ts
index f73b58a..e58ada3 100644
--- a/packages/hub/src/blobs/export-blobs.ts
+++ b/packages/hub/src/blobs/export-blobs.ts
@@ -128,6 +128,8 @@ export function createExportBlobsHandle(
   getCollection: <T>(name: string) => Collection<T>,
   writeAudit: (entry: ExportBlobsAuditEntry) => Promise<void>,
   options: ExportBlobsOptions,
+  listRecordIds: (collection: string) => Promise<string[]> = async (name) =>
+    (await getCollection<{ id?: unknown }>(name).list()).map(r => r.id).filter(id => typeof id === 'string'),
 ): ExportBlobsHandle {
   let aborted = false
 
@@ -179,23 +181,21 @@ export function createExportBlobsHandle(
     let resumeCursorHit = options.afterBlobId === undefined
 
     for (const collectionName of targets) {
-      if (aborted) return
+      assertLive()
 
       const coll = getCollection<Record<string, unknown>>(collectionName)
-      const records = await coll.list().catch(() => [])
-      for (const record of records) {
-        if (aborted) return
+      for (const id of await listRecordIds(collectionName)) {
         assertLive()
 
-        const idField = (record as { id?: unknown }).id
-        if (typeof idField !== 'string') continue
+        const record = await coll.get(id).catch(() => null)
+        if (record === null) continue
 
-        if (options.where && !options.where(record, { collection: collectionName, id: idField })) continue
+        if (options.where && !options.where(record, { collection: collectionName, id })) continue
 
-        const blobSet = coll.blob(idField)
+        const blobSet = coll.blob(id)
         const slots = await blobSet.list().catch(() => [] as SlotInfo[])
         for (const slot of slots) {
-          if (aborted) return
+          assertLive()
 
           if (!resumeCursorHit) {
             if (slot.eTag === options.afterBlobId) {
@@ -209,7 +209,7 @@ export function createExportBlobsHandle(
 
           const item: ExportedBlob = {
             blobId: slot.eTag,
-            recordRef: { collection: collectionName, id: idField, slot: slot.name },
+            recordRef: { collection: collectionName, id, slot: slot.name },
             bytes,
             meta: {
               size: slot.size,
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 4654da2..890dbc8 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -17,6 +17,7 @@ import { NOYDB_BACKUP_VERSION, NOYDB_FORMAT_VERSION } from './types.js'
 import { Collection } from './collection.js'
 import type { CacheOptions } from './collection.js'
 import type { IndexDef } from './indexing/eager-indexes.js'
+import { decodeIdxId } from './indexing/persisted-indexes.js'
 import type { JoinableSource } from './query/index.js'
 import type { OnDirtyCallback } from './collection.js'
 import type { UnlockedKeyring, BundleRecipient } from './team/keyring.js'
@@ -881,7 +882,7 @@ export class Vault {
       getBlobFields: <T>(name: string): BlobFieldsConfig<T> | null =>
         (this.blobFieldsRegistry.get(name) as BlobFieldsConfig<T> | undefined) ?? null,
       listCollections: () => this.collections(),
-      listRecords: (name: string) => this.adapter.list(this.name, name),
+      listRecords: (name: string) => this.listRecordIds(name),
       getRecord: async <T>(name: string, id: string) => {
         const coll = this.collection<T>(name)
         return coll.get(id)
@@ -905,9 +906,15 @@ export class Vault {
       (name) => this.collection(name),
       (entry) => this.writeExportAudit(entry),
       options,
+      (name) => this.listRecordIds(name),
     )
   }
 
+  /** Ids of a collection's records, without its persisted index entries. */
+  private async listRecordIds(collectionName: string): Promise<string[]> {
+    return (await this.adapter.list(this.name, collectionName)).filter(id => !decodeIdxId(id))
+  }
+
   private async writeExportAudit(entry: ExportBlobsAuditEntry): Promise<void> {
     const json = JSON.stringify(entry)
     const envelope: EncryptedEnvelope = this.encrypted
-- 
2.43.0


From 226db07db69cafc1b7d5f45b2576ed141b4c8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:32 +0000
Subject: [PATCH 027/113] fix: concurrent uploads of the same bytes with
 different chunking leave a readable blob

---
 packages/hub/src/blobs/blob-set.ts | 33 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index ab0c595..15a1ca2 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -361,6 +361,21 @@ export class BlobSet {
     await this.store.put(this.vault, BLOB_CHUNKS_COLLECTION, id, envelope)
   }
 
+  /** Split `bytes` and write every chunk. Returns the number of chunks. */
+  private async writeChunks(
+    eTag: string,
+    bytes: Uint8Array,
+    chunkSize: number,
+    dek: CryptoKey | null,
+  ): Promise<number> {
+    const chunkCount = Math.max(1, Math.ceil(bytes.byteLength / chunkSize))
+    for (let i = 0; i < chunkCount; i++) {
+      const start = i * chunkSize
+      await this.writeChunk(eTag, i, chunkCount, bytes.subarray(start, start + chunkSize), dek)
+    }
+    return chunkCount
+  }
+
   private async readChunk(
     eTag: string,
     index: number,
@@ -506,17 +521,9 @@ export class BlobSet {
         : { bytes: data, algorithm: 'none' as const }
 
       const chunkSize = this.effectiveChunkSize(opts)
-      const chunkCount = Math.max(1, Math.ceil(compressed.byteLength / chunkSize))
 
       // Step 5 — write chunks FIRST with AAD binding (safe failure order)
-      for (let i = 0; i < chunkCount; i++) {
-        const start = i * chunkSize
-        await this.writeChunk(
-          eTag, i, chunkCount,
-          compressed.subarray(start, start + chunkSize),
-          blobDEK,
-        )
-      }
+      const chunkCount = await this.writeChunks(eTag, compressed, chunkSize, blobDEK)
 
       // Step 6 — write blob index entry after all chunks succeed
       try {
@@ -533,7 +540,13 @@ export class BlobSet {
         }, 0)
       } catch (err) {
         if (!(err instanceof ConflictError)) throw err
-        // A concurrent put of the same bytes created the entry first.
+        // A concurrent put of the same bytes created the entry first. Our
+        // chunks may have replaced its own: write them the way it says.
+        const stored = (await this.loadBlobObject(eTag))?.blob
+        if (stored && (stored.compression !== algorithm || stored.chunkSize !== chunkSize)) {
+          const bytes = stored.compression === 'gzip' ? (await compressBytes(data)).bytes : data
+          await this.writeChunks(eTag, bytes, stored.chunkSize, blobDEK)
+        }
         await this.casUpdateRefCount(eTag, +1)
       }
     }
-- 
2.43.0


From db414349eede411378fa4cf9d917a61f61630524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:14 +0000
Subject: [PATCH 028/113] fix: backups contain dictionaries, periods, history
 and attachments, and can be restored over a changed vault

---
 packages/hub/src/bundle/bundle.ts | 24 +++++++++++++-
 packages/hub/src/vault.ts         | 53 ++++++++++++++++++++++++++++---
 2 files changed, 71 insertions(+), 6 deletions(-)

diff --git a/packages/hub/src/bundle/bundle.ts b/packages/hub/src/bundle/bundle.ts
index ed81366..8531617 100644
--- a/packages/hub/src/bundle/bundle.ts
+++ b/packages/hub/src/bundle/bundle.ts
@@ -51,6 +51,7 @@ import {
   type NoydbBundleHeader,
 } from './format.js'
 import { BundleIntegrityError } from '../errors.js'
+import { LEDGER_COLLECTION, LEDGER_DELTAS_COLLECTION } from '../history/ledger/constants.js'
 import type { Vault } from '../vault.js'
 import type { BundleRecipient } from '../team/keyring.js'
 
@@ -316,6 +317,27 @@ async function applyRecipientRewrap(
   return JSON.stringify(backup)
 }
 
+/**
+ * A sliced or re-keyed bundle must not carry what its filters leave out
+ * or its recipients may not read: of the internal collections it keeps
+ * the ledger, not the history, attachments or dictionaries.
+ *
+ * @internal
+ */
+function keepLedgerOnly(dumpJson: string, opts: WriteNoydbBundleOptions): string {
+  const full =
+    opts.recipients === undefined && opts.collections === undefined &&
+    opts.since === undefined && opts.where === undefined && opts.tierAtMost === undefined
+  if (full) return dumpJson
+  const backup = JSON.parse(dumpJson) as { _internal?: Record<string, unknown>; [k: string]: unknown }
+  if (backup._internal) {
+    backup._internal = Object.fromEntries(
+      Object.entries(backup._internal).filter(([name]) => name === LEDGER_COLLECTION || name === LEDGER_DELTAS_COLLECTION),
+    )
+  }
+  return JSON.stringify(backup)
+}
+
 /**
  * Apply opt-in slice filters to a vault dump JSON string. Filters that
  * narrow the bundle without crossing the encryption boundary — both
@@ -477,7 +499,7 @@ export async function writeNoydbBundle(
   // Re-keying: when caller supplied recipients (or the single-recipient
   // shorthand), substitute the bundle's `keyrings` map with freshly
   // built recipient slots before slice filters run.
-  const rekeyed = await applyRecipientRewrap(vault, dumpJson, opts)
+  const rekeyed = await applyRecipientRewrap(vault, keepLedgerOnly(dumpJson, opts), opts)
   // Plaintext-tier filters (#320 where, #321 tierAtMost) run BEFORE
   // the metadata-only slice — that way the metadata pass sees the
   // already-trimmed record set and the two filter chains compose
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 890dbc8..de72383 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -68,6 +68,7 @@ import { NO_SYNC, type SyncStrategy } from './team/sync-strategy.js'
 import type { LocaleReadOptions, ConflictPolicy } from './types.js'
 import type { CrdtMode } from './crdt/crdt.js'
 import { ReservedCollectionNameError } from './errors.js'
+import { dekKey } from './team/tiers.js'
 import {
   PERIODS_COLLECTION,
   type PeriodRecord,
@@ -82,7 +83,7 @@ import {
   type ExportBlobsHandle,
   type ExportBlobsAuditEntry,
 } from './blobs/export-blobs.js'
-import { runCompaction, type BlobFieldsConfig, type CompactRunOptions, type CompactionResult } from './blobs/blob-compaction.js'
+import { runCompaction, BLOB_EVICTION_AUDIT_COLLECTION, type BlobFieldsConfig, type CompactRunOptions, type CompactionResult } from './blobs/blob-compaction.js'
 import {
   writeMagicLinkGrant,
   type IssueMagicLinkGrantOptions,
@@ -957,7 +958,7 @@ export class Vault {
     if (!this.encrypted) {
       return JSON.parse(env._data)
     }
-    const dek = await this.getDEK(collectionName)
+    const dek = await this.getDEK(dekKey(collectionName, env._tier ?? 0))
     const json = await decrypt(env._iv, env._data, dek)
     return JSON.parse(json)
   }
@@ -1977,11 +1978,11 @@ export class Vault {
     // Load the ledger entries + deltas so the receiver can replay
     // the chain after restore. Without this, `load()` would have an
     // empty ledger and `verifyBackupIntegrity()` would have nothing
-    // to compare against.
+    // to compare against. The other internal collections hold vault
+    // contents too: dictionaries, periods, history, attachments, audits.
     const internalSnapshot: VaultSnapshot = {}
-    for (const internalName of [LEDGER_COLLECTION, LEDGER_DELTAS_COLLECTION]) {
+    for (const internalName of await this.internalBackupCollections(snapshot)) {
       const ids = await this.adapter.list(this.name, internalName)
-      if (ids.length === 0) continue
       const records: Record<string, EncryptedEnvelope> = {}
       for (const id of ids) {
         const envelope = await this.adapter.get(this.name, internalName, id)
@@ -2022,6 +2023,42 @@ export class Vault {
     return JSON.stringify(backup)
   }
 
+  /**
+   * Internal collections that are part of a backup. Device-local and
+   * short-lived ones (sync state, presence, credentials, magic links)
+   * are not.
+   */
+  private async internalBackupCollections(snapshot: VaultSnapshot): Promise<string[]> {
+    const names = new Set<string>([
+      LEDGER_COLLECTION,
+      LEDGER_DELTAS_COLLECTION,
+      '_history',
+      PERIODS_COLLECTION,
+      '_consent_audit',
+      '_delegations',
+      ELEVATION_AUDIT_COLLECTION,
+      EXPORT_AUDIT_COLLECTION,
+      BLOB_EVICTION_AUDIT_COLLECTION,
+      '_blob_index',
+      '_blob_chunks',
+    ])
+    for (const name of Object.keys(snapshot)) {
+      names.add(`_blob_slots_${name}`)
+      names.add(`_blob_versions_${name}`)
+    }
+    // Every dictionary has a key of its own; in a plaintext vault the
+    // ledger and the open handles are what names them.
+    const entries = this.encrypted ? [] : await this.getLedgerOrNull()?.loadAllEntries() ?? []
+    for (const name of [
+      ...this.keyring.deks.keys(),
+      ...entries.map((e) => e.collection),
+      ...[...this.dictionaryCache.keys()].map((n) => `_dict_${n}`),
+    ]) {
+      if (isDictCollectionName(name)) names.add(name)
+    }
+    return [...names]
+  }
+
   /**
    * Restore a vault from a verifiable backup.
    *
@@ -2064,8 +2101,12 @@ export class Vault {
 
     // 3. Restore internal collections (`_ledger`, `_ledger_deltas`).
     //    Required so verifyBackupIntegrity has the chain to walk.
+    //    Entries the backup does not have belong to what it replaces.
     if (backup._internal) {
       for (const [internalName, records] of Object.entries(backup._internal)) {
+        for (const id of await this.adapter.list(this.name, internalName)) {
+          if (!Object.hasOwn(records, id)) await this.adapter.delete(this.name, internalName, id)
+        }
         for (const [id, envelope] of Object.entries(records)) {
           await this.adapter.put(this.name, internalName, id, envelope)
         }
@@ -2092,6 +2133,8 @@ export class Vault {
     //    next ledger() call rebuilds its head cache from the
     //    freshly-loaded entries.
     this.collectionCache.clear()
+    this.dictionaryCache.clear()
+    this.periodCache = null
     this.ledgerStore = null
 
     // 5. Run the verification gate. Legacy backups (no ledgerHead)
-- 
2.43.0


From f518c54737bfbadd443682fc5111d9047baab6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:37 +0000
Subject: [PATCH 029/113] fix: restoring a backup over a vault removes
 attachments of collections the backup does not have

---
 packages/hub/src/vault.ts | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index de72383..735548a 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -2084,6 +2084,19 @@ export class Vault {
   async load(backupJson: string): Promise<void> {
     const backup = JSON.parse(backupJson) as VaultBackup
 
+    // 0. Attachments of collections the backup does not have go with
+    //    the records they belong to.
+    if (backup._internal && Object.hasOwn(backup._internal, '_blob_index')) {
+      for (const name of Object.keys(await this.adapter.loadAll(this.name))) {
+        if (Object.hasOwn(backup.collections, name)) continue
+        for (const internalName of [`_blob_slots_${name}`, `_blob_versions_${name}`]) {
+          for (const id of await this.adapter.list(this.name, internalName)) {
+            await this.adapter.delete(this.name, internalName, id)
+          }
+        }
+      }
+    }
+
     // 1. Restore data collections.
     await this.adapter.saveAll(this.name, backup.collections)
 
-- 
2.43.0


From 805e27e400be9219844e63eb0dfce7f9b6eb8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:07 +0000
Subject: [PATCH 030/113] fix: bundle recipients get exactly the collections
 named, re-keyed exports keep the caller's permissions, one bundle handle per
 vault

---
 packages/hub/src/bundle/bundle.ts | 30 ++++++++++++++++++++----------
 packages/hub/src/team/keyring.ts  | 15 ++++++++-------
 packages/hub/src/vault.ts         | 21 ++++++++++++++++-----
 3 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/packages/hub/src/bundle/bundle.ts b/packages/hub/src/bundle/bundle.ts
index 8531617..02e5c54 100644
--- a/packages/hub/src/bundle/bundle.ts
+++ b/packages/hub/src/bundle/bundle.ts
@@ -307,6 +307,9 @@ async function applyRecipientRewrap(
         id: vault.userId,
         passphrase: opts.exportPassphrase as string,
         role: vault.role,
+        ...(vault.role === 'operator' || vault.role === 'client'
+          ? { permissions: vault.permissions }
+          : {}),
       },
     ]
 
@@ -318,21 +321,28 @@ async function applyRecipientRewrap(
 }
 
 /**
- * A sliced or re-keyed bundle must not carry what its filters leave out
- * or its recipients may not read: of the internal collections it keeps
- * the ledger, not the history, attachments or dictionaries.
+ * A sliced bundle must not carry what its filters leave out: of the
+ * internal collections it keeps the ledger, not the history, attachments
+ * or dictionaries. A bundle for recipients who may read only some
+ * collections leaves out the attachments, which share one key.
  *
  * @internal
  */
-function keepLedgerOnly(dumpJson: string, opts: WriteNoydbBundleOptions): string {
-  const full =
-    opts.recipients === undefined && opts.collections === undefined &&
-    opts.since === undefined && opts.where === undefined && opts.tierAtMost === undefined
-  if (full) return dumpJson
+function pruneInternals(dumpJson: string, opts: WriteNoydbBundleOptions): string {
+  const sliced =
+    opts.collections !== undefined || opts.since !== undefined ||
+    opts.where !== undefined || opts.tierAtMost !== undefined
+  const scoped = opts.recipients?.some(
+    (r) => r.permissions !== undefined || r.role === 'operator' || r.role === 'client',
+  ) ?? false
+  if (!sliced && !scoped) return dumpJson
+  const keep = (name: string): boolean =>
+    name === LEDGER_COLLECTION || name === LEDGER_DELTAS_COLLECTION ||
+    (!sliced && !name.startsWith('_blob_'))
   const backup = JSON.parse(dumpJson) as { _internal?: Record<string, unknown>; [k: string]: unknown }
   if (backup._internal) {
     backup._internal = Object.fromEntries(
-      Object.entries(backup._internal).filter(([name]) => name === LEDGER_COLLECTION || name === LEDGER_DELTAS_COLLECTION),
+      Object.entries(backup._internal).filter(([name]) => keep(name)),
     )
   }
   return JSON.stringify(backup)
@@ -499,7 +509,7 @@ export async function writeNoydbBundle(
   // Re-keying: when caller supplied recipients (or the single-recipient
   // shorthand), substitute the bundle's `keyrings` map with freshly
   // built recipient slots before slice filters run.
-  const rekeyed = await applyRecipientRewrap(vault, keepLedgerOnly(dumpJson, opts), opts)
+  const rekeyed = await applyRecipientRewrap(vault, pruneInternals(dumpJson, opts), opts)
   // Plaintext-tier filters (#320 where, #321 tierAtMost) run BEFORE
   // the metadata-only slice — that way the metadata pass sees the
   // already-trimmed record set and the two filter chains compose
diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 15baf92..bc8aa11 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -230,7 +230,7 @@ export async function grant(
   // For owner/admin/viewer roles, wrap ALL known DEKs
   if (options.role === 'owner' || options.role === 'admin' || options.role === 'viewer') {
     for (const [collName, dek] of callerKeyring.deks) {
-      if (!(collName in wrappedDeks)) {
+      if (!Object.hasOwn(wrappedDeks, collName)) {
         wrappedDeks[collName] = await wrapKey(dek, newKek)
       }
     }
@@ -251,7 +251,7 @@ export async function grant(
   // record ids, and ciphertext hashes, but never plaintext records.
   // Per-collection ledger DEKs are tracked as a follow-up.
   for (const [collName, dek] of callerKeyring.deks) {
-    if (collName.startsWith('_') && !(collName in wrappedDeks)) {
+    if (collName.startsWith('_') && !Object.hasOwn(wrappedDeks, collName)) {
       wrappedDeks[collName] = await wrapKey(dek, newKek)
     }
   }
@@ -765,17 +765,18 @@ export async function buildRecipientKeyringFile(
   const wrappedDeks: Record<string, string> = {}
 
   // Collections the recipient was explicitly granted permission to.
-  for (const collName of Object.keys(permissions)) {
+  for (const collName of Object.keys(recipient.permissions ?? permissions)) {
     const dek = callerKeyring.deks.get(collName)
     if (dek) {
       wrappedDeks[collName] = await wrapKey(dek, newKek)
     }
   }
 
-  // owner / admin / viewer: wrap every known DEK (matches grant).
-  if (role === 'owner' || role === 'admin' || role === 'viewer') {
+  // owner / admin / viewer: wrap every known DEK (matches grant), unless
+  // the slot is restricted to certain collections.
+  if (recipient.permissions === undefined && (role === 'owner' || role === 'admin' || role === 'viewer')) {
     for (const [collName, dek] of callerKeyring.deks) {
-      if (!(collName in wrappedDeks)) {
+      if (!Object.hasOwn(wrappedDeks, collName)) {
         wrappedDeks[collName] = await wrapKey(dek, newKek)
       }
     }
@@ -784,7 +785,7 @@ export async function buildRecipientKeyringFile(
   // Always propagate system-prefixed collection DEKs (`_ledger`, etc.) —
   // the recipient needs them to verify the bundle on import.
   for (const [collName, dek] of callerKeyring.deks) {
-    if (collName.startsWith('_') && !(collName in wrappedDeks)) {
+    if (collName.startsWith('_') && !Object.hasOwn(wrappedDeks, collName)) {
       wrappedDeks[collName] = await wrapKey(dek, newKek)
     }
   }
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 735548a..8a9a85a 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -23,7 +23,7 @@ import type { OnDirtyCallback } from './collection.js'
 import type { UnlockedKeyring, BundleRecipient } from './team/keyring.js'
 import { buildRecipientKeyringFile } from './team/keyring.js'
 import { ensureCollectionDEK, hasAccess, hasExportCapability, hasImportCapability } from './team/keyring.js'
-import type { ExportFormat, KeyringFile } from './types.js'
+import type { ExportFormat, KeyringFile, Permissions } from './types.js'
 import {
   ExportCapabilityError,
   ImportCapabilityError,
@@ -33,7 +33,7 @@ import {
   TierNotGrantedError,
 } from './errors.js'
 import type { NoydbEventEmitter } from './events.js'
-import { BackupLedgerError, BackupCorruptedError } from './errors.js'
+import { BackupLedgerError, BackupCorruptedError, ConflictError } from './errors.js'
 import type { StandardSchemaV1 } from './schema.js'
 import type { BlobStrategy } from './blobs/strategy.js'
 import type { IndexStrategy } from './indexing/strategy.js'
@@ -723,6 +723,11 @@ export class Vault {
     return this.keyring.role
   }
 
+  /** @internal The permissions of the keyring backing this vault session. */
+  get permissions(): Permissions {
+    return this.keyring.permissions
+  }
+
   /**
    * Build keyring files for bundle recipients without persisting them
    * to the source vault. Used by `writeNoydbBundle()` when the bundle
@@ -745,7 +750,7 @@ export class Vault {
   ): Promise<Record<string, KeyringFile>> {
     const result: Record<string, KeyringFile> = {}
     for (const recipient of recipients) {
-      if (recipient.id in result) {
+      if (Object.hasOwn(result, recipient.id)) {
         throw new Error(`buildBundleRecipientKeyrings: duplicate recipient id "${recipient.id}"`)
       }
       result[recipient.id] = await buildRecipientKeyringFile(this.keyring, recipient)
@@ -1941,12 +1946,18 @@ export class Vault {
     const handle = generateULID()
     const envelope: EncryptedEnvelope = {
       _noydb: NOYDB_FORMAT_VERSION,
-      _v: 1,
+      _v: (existing?._v ?? 0) + 1,
       _ts: new Date().toISOString(),
       _iv: '',
       _data: JSON.stringify({ handle }),
     }
-    await this.adapter.put(this.name, '_meta', 'handle', envelope)
+    try {
+      await this.adapter.put(this.name, '_meta', 'handle', envelope, existing?._v ?? 0)
+    } catch (err) {
+      // Another export created the handle meanwhile: use that one.
+      if (err instanceof ConflictError) return this.getBundleHandle()
+      throw err
+    }
     return handle
   }
 
-- 
2.43.0


From a044f843057cbbab5a609f520a403f74eaf48b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:28 +0000
Subject: [PATCH 031/113] fix: SQL stores keep reserved collections out of
 loadAll and saveAll

loadAll returned records of internal collections and saveAll deleted them.
A conditional put could overwrite a version written between its check and
its write, batched transactions ignored expectedVersion, and one failed
schema migration made every later call fail.
---
 packages/to-cloudflare-d1/src/index.ts | 26 +++++++++++++++++----
 packages/to-mysql/src/index.ts         |  8 +++++--
 packages/to-postgres/src/index.ts      | 32 ++++++++++++++++++--------
 packages/to-sqlite/src/index.ts        |  6 +++--
 packages/to-turso/src/index.ts         | 27 ++++++++++++++++++----
 5 files changed, 76 insertions(+), 23 deletions(-)

diff --git a/packages/to-cloudflare-d1/src/index.ts b/packages/to-cloudflare-d1/src/index.ts
index a7fad65..550f158 100644
--- a/packages/to-cloudflare-d1/src/index.ts
+++ b/packages/to-cloudflare-d1/src/index.ts
@@ -49,6 +49,7 @@ export interface D1PreparedStatement {
 export interface D1Result<T = unknown> {
   readonly results?: readonly T[]
   readonly success?: boolean
+  readonly meta?: { readonly changes?: number }
 }
 
 export interface D1StoreOptions {
@@ -87,6 +88,8 @@ export function d1(options: D1StoreOptions): NoydbStore {
           .prepare(`CREATE INDEX IF NOT EXISTS idx_${tableName}_vc ON ${tableName} (vault, collection)`)
           .run()
       })()
+      // A failed migration is retried by the next call.
+      schemaReady.catch(() => { schemaReady = null })
     }
     await schemaReady
   }
@@ -114,6 +117,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
     collection: string,
     id: string,
     envelope: EncryptedEnvelope,
+    expectedVersion?: number,
   ): D1PreparedStatement {
     return db
       .prepare(
@@ -121,7 +125,8 @@ export function d1(options: D1StoreOptions): NoydbStore {
          VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?)
          ON CONFLICT(vault, collection, id) DO UPDATE SET
            v = excluded.v, ts = excluded.ts, iv = excluded.iv, data = excluded.data,
-           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det`,
+           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det${expectedVersion !== undefined ? `
+         WHERE ${tableName}.v = ?` : ''}`,
       )
       .bind(
         vault, collection, id,
@@ -130,6 +135,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
         envelope._tier ?? null,
         envelope._elevatedBy ?? null,
         envelope._det ? JSON.stringify(envelope._det) : null,
+        ...(expectedVersion !== undefined ? [expectedVersion] : []),
       )
   }
 
@@ -150,7 +156,11 @@ export function d1(options: D1StoreOptions): NoydbStore {
         throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
       }
     }
-    await upsertStatement(vault, collection, id, envelope).run()
+    const written = await upsertStatement(vault, collection, id, envelope, expectedVersion).run()
+    // Another writer stored a version between the check and the write.
+    if (expectedVersion !== undefined && written.meta?.changes === 0) {
+      throw new ConflictError(expectedVersion, `Version conflict: expected ${expectedVersion}, found a newer version`)
+    }
   }
 
   const store: NoydbStore = {
@@ -196,7 +206,9 @@ export function d1(options: D1StoreOptions): NoydbStore {
       for (const row of res.results ?? []) {
         const collection = row.collection as string
         const id = row.id as string
-        const bucket = snap[collection] ?? (snap[collection] = {})
+        if (collection.startsWith('_')) continue // skip _keyring, _sync
+        if (!Object.hasOwn(snap, collection)) snap[collection] = {}
+        const bucket = snap[collection]!
         bucket[id] = rowToEnvelope(row)
       }
       return snap
@@ -205,7 +217,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
     async saveAll(vault, data) {
       await ensureSchema()
       const statements: D1PreparedStatement[] = [
-        db.prepare(`DELETE FROM ${tableName} WHERE vault = ?`).bind(vault),
+        db.prepare(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`).bind(vault),
       ]
       for (const [collection, recs] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(recs)) {
@@ -248,6 +260,12 @@ export function d1(options: D1StoreOptions): NoydbStore {
 
     async tx(ops: readonly TxOp[]) {
       await ensureSchema()
+      // `batch` has no conditional abort — check every expected version first.
+      for (const op of ops) {
+        if (op.expectedVersion === undefined) continue
+        const existing = await store.get(op.vault, op.collection, op.id)
+        if (existing && existing._v !== op.expectedVersion) throw new ConflictError(existing._v)
+      }
       const statements: D1PreparedStatement[] = []
       for (const op of ops) {
         if (op.type === 'put') {
diff --git a/packages/to-mysql/src/index.ts b/packages/to-mysql/src/index.ts
index df81aa3..f2e88fc 100644
--- a/packages/to-mysql/src/index.ts
+++ b/packages/to-mysql/src/index.ts
@@ -67,6 +67,8 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
            )`,
         )
       })()
+      // A failed migration is retried by the next call.
+      schemaReady.catch(() => { schemaReady = null })
     }
     await schemaReady
   }
@@ -143,7 +145,9 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
       )
       const snap: VaultSnapshot = {}
       for (const row of rows) {
-        const bucket = snap[row.collection] ?? (snap[row.collection] = {})
+        if (row.collection.startsWith('_')) continue // skip _keyring, _sync
+        if (!Object.hasOwn(snap, row.collection)) snap[row.collection] = {}
+        const bucket = snap[row.collection]!
         bucket[row.id] = parseEnvelope(row.envelope)
       }
       return snap
@@ -153,7 +157,7 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
       await ensureSchema()
       await runDDL('START TRANSACTION')
       try {
-        await client.execute(`DELETE FROM ${tableName} WHERE vault = ?`, [vault])
+        await client.execute(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, [vault])
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             await upsert(vault, collection, id, envelope)
diff --git a/packages/to-postgres/src/index.ts b/packages/to-postgres/src/index.ts
index c1f66e2..96fb4d9 100644
--- a/packages/to-postgres/src/index.ts
+++ b/packages/to-postgres/src/index.ts
@@ -36,7 +36,7 @@ import { ConflictError } from '@noy-db/hub'
 
 /** Duck-typed subset of the node-postgres `Client` API. */
 export interface PostgresClient {
-  query<T = unknown>(sql: string, params?: readonly unknown[]): Promise<{ rows: T[] }>
+  query<T = unknown>(sql: string, params?: readonly unknown[]): Promise<{ rows: T[]; rowCount?: number | null }>
 }
 
 export interface PostgresStoreOptions {
@@ -75,6 +75,8 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
             ON ${tableName} (vault, collection);
         `)
       })()
+      // A failed migration is retried by the next call.
+      schemaReady.catch(() => { schemaReady = null })
     }
     await schemaReady
   }
@@ -93,17 +95,25 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
         [vault, collection, id],
       )
       const current = rows[0]
-      if (current && current.v !== expectedVersion) {
-        throw new ConflictError(current.v, `Version conflict: expected ${expectedVersion}, found ${current.v}`)
+      // node-postgres returns BIGINT columns as strings
+      if (current && Number(current.v) !== expectedVersion) {
+        throw new ConflictError(Number(current.v), `Version conflict: expected ${expectedVersion}, found ${current.v}`)
       }
     }
-    await client.query(
+    const params: unknown[] = [vault, collection, id, envelope._v, JSON.stringify(envelope)]
+    if (expectedVersion !== undefined) params.push(expectedVersion)
+    const result = await client.query(
       `INSERT INTO ${tableName} (vault, collection, id, v, envelope)
        VALUES ($1, $2, $3, $4, $5)
        ON CONFLICT (vault, collection, id) DO UPDATE
-         SET v = EXCLUDED.v, envelope = EXCLUDED.envelope`,
-      [vault, collection, id, envelope._v, JSON.stringify(envelope)],
+         SET v = EXCLUDED.v, envelope = EXCLUDED.envelope${expectedVersion !== undefined ? `
+         WHERE ${tableName}.v = $6` : ''}`,
+      params,
     )
+    // Another writer stored a version between the check and the write.
+    if (expectedVersion !== undefined && result.rowCount === 0) {
+      throw new ConflictError(expectedVersion, `Version conflict: expected ${expectedVersion}, found a newer version`)
+    }
   }
 
   const store: NoydbStore = {
@@ -149,7 +159,9 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
       )
       const snap: VaultSnapshot = {}
       for (const row of rows) {
-        const bucket = snap[row.collection] ?? (snap[row.collection] = {})
+        if (row.collection.startsWith('_')) continue // skip _keyring, _sync
+        if (!Object.hasOwn(snap, row.collection)) snap[row.collection] = {}
+        const bucket = snap[row.collection]!
         const env = typeof row.envelope === 'string'
           ? (JSON.parse(row.envelope) as EncryptedEnvelope)
           : row.envelope
@@ -162,7 +174,7 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
       await ensureSchema()
       await client.query('BEGIN')
       try {
-        await client.query(`DELETE FROM ${tableName} WHERE vault = $1`, [vault])
+        await client.query(`DELETE FROM ${tableName} WHERE vault = $1 AND substr(collection, 1, 1) <> '_'`, [vault])
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             await upsert(vault, collection, id, envelope)
@@ -224,8 +236,8 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
                 `SELECT v FROM ${tableName} WHERE vault = $1 AND collection = $2 AND id = $3`,
                 [op.vault, op.collection, op.id],
               )
-              if (rows[0] && rows[0].v !== op.expectedVersion) {
-                throw new ConflictError(rows[0].v)
+              if (rows[0] && Number(rows[0].v) !== op.expectedVersion) {
+                throw new ConflictError(Number(rows[0].v))
               }
             }
             await client.query(
diff --git a/packages/to-sqlite/src/index.ts b/packages/to-sqlite/src/index.ts
index 4c4e77d..002b705 100644
--- a/packages/to-sqlite/src/index.ts
+++ b/packages/to-sqlite/src/index.ts
@@ -181,7 +181,9 @@ export function sqlite(options: SqliteStoreOptions): NoydbStore {
         .all(vault) as Row[]
       const snap: VaultSnapshot = {}
       for (const row of rows) {
-        const bucket = snap[row.collection] ?? (snap[row.collection] = {})
+        if (row.collection.startsWith('_')) continue // skip _keyring, _sync
+        if (!Object.hasOwn(snap, row.collection)) snap[row.collection] = {}
+        const bucket = snap[row.collection]!
         bucket[row.id] = rowToEnvelope(row)
       }
       return snap
@@ -190,7 +192,7 @@ export function sqlite(options: SqliteStoreOptions): NoydbStore {
     async saveAll(vault, data) {
       db.exec('BEGIN IMMEDIATE')
       try {
-        db.prepare(`DELETE FROM ${tableName} WHERE vault = ?`).run(vault)
+        db.prepare(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`).run(vault)
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             upsert(vault, collection, id, envelope)
diff --git a/packages/to-turso/src/index.ts b/packages/to-turso/src/index.ts
index 98c98ff..4a07035 100644
--- a/packages/to-turso/src/index.ts
+++ b/packages/to-turso/src/index.ts
@@ -36,6 +36,7 @@ export interface LibsqlClient {
 
 export interface LibsqlResultSet {
   readonly rows: readonly Record<string, unknown>[]
+  readonly rowsAffected?: number
 }
 
 export interface TursoStoreOptions {
@@ -73,6 +74,8 @@ export function turso(options: TursoStoreOptions): NoydbStore {
              ON ${tableName} (vault, collection)`,
         )
       })()
+      // A failed migration is retried by the next call.
+      schemaReady.catch(() => { schemaReady = null })
     }
     await schemaReady
   }
@@ -113,13 +116,14 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
       }
     }
-    await client.execute({
+    const written = await client.execute({
       sql:
         `INSERT INTO ${tableName} (vault, collection, id, v, ts, iv, data, by, tier, elevated_by, det)
          VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?)
          ON CONFLICT(vault, collection, id) DO UPDATE SET
            v = excluded.v, ts = excluded.ts, iv = excluded.iv, data = excluded.data,
-           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det`,
+           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det${expectedVersion !== undefined ? `
+         WHERE ${tableName}.v = ?` : ''}`,
       args: [
         vault, collection, id,
         envelope._v, envelope._ts, envelope._iv, envelope._data,
@@ -127,8 +131,13 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         envelope._tier ?? null,
         envelope._elevatedBy ?? null,
         envelope._det ? JSON.stringify(envelope._det) : null,
+        ...(expectedVersion !== undefined ? [expectedVersion] : []),
       ],
     })
+    // Another writer stored a version between the check and the write.
+    if (expectedVersion !== undefined && written.rowsAffected === 0) {
+      throw new ConflictError(expectedVersion, `Version conflict: expected ${expectedVersion}, found a newer version`)
+    }
   }
 
   const store: NoydbStore = {
@@ -175,7 +184,9 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       for (const row of result.rows) {
         const collection = row.collection as string
         const id = row.id as string
-        const bucket = snap[collection] ?? (snap[collection] = {})
+        if (collection.startsWith('_')) continue // skip _keyring, _sync
+        if (!Object.hasOwn(snap, collection)) snap[collection] = {}
+        const bucket = snap[collection]!
         bucket[id] = rowToEnvelope(row)
       }
       return snap
@@ -185,7 +196,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       await ensureSchema()
       if (client.batch) {
         const statements: { sql: string; args?: readonly unknown[] }[] = [
-          { sql: `DELETE FROM ${tableName} WHERE vault = ?`, args: [vault] },
+          { sql: `DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, args: [vault] },
         ]
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
@@ -211,7 +222,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         return
       }
       // Fallback: sequential execute when the client lacks batch.
-      await client.execute({ sql: `DELETE FROM ${tableName} WHERE vault = ?`, args: [vault] })
+      await client.execute({ sql: `DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, args: [vault] })
       for (const [collection, recs] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(recs)) {
           await upsert(vault, collection, id, envelope)
@@ -249,6 +260,12 @@ export function turso(options: TursoStoreOptions): NoydbStore {
 
     async tx(ops: readonly TxOp[]) {
       await ensureSchema()
+      // `batch` has no conditional abort — check every expected version first.
+      for (const op of ops) {
+        if (op.expectedVersion === undefined) continue
+        const existing = await store.get(op.vault, op.collection, op.id)
+        if (existing && existing._v !== op.expectedVersion) throw new ConflictError(existing._v)
+      }
       if (client.batch) {
         const statements: { sql: string; args?: readonly unknown[] }[] = []
         for (const op of ops) {
-- 
2.43.0


From 5906c24d9607a324dac9e7b93d135b949985bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:28 +0000
Subject: [PATCH 032/113] fix: file store saveAll replaces records and a record
 write is all or nothing

saveAll left records the snapshot does not have. A write that failed half
way destroyed the previous version. Ids containing a slash could not be
stored.
---
 packages/to-file/src/index.ts | 56 ++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/packages/to-file/src/index.ts b/packages/to-file/src/index.ts
index 2626e50..8ab9da7 100644
--- a/packages/to-file/src/index.ts
+++ b/packages/to-file/src/index.ts
@@ -41,7 +41,7 @@
  * @packageDocumentation
  */
 
-import { readFile, writeFile, mkdir, readdir, unlink, stat } from 'node:fs/promises'
+import { readFile, writeFile, mkdir, readdir, rename, unlink, stat } from 'node:fs/promises'
 import { dirname, join } from 'node:path'
 import type {
   NoydbStore,
@@ -84,13 +84,38 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
   const { dir, pretty = true } = options
 
   function recordPath(vault: string, collection: string, id: string): string {
-    return join(dir, vault, collection, `${id}.json`)
+    return join(dir, vault, collection, fileName(id))
   }
 
   function collectionDir(vault: string, collection: string): string {
     return join(dir, vault, collection)
   }
 
+  // A record id may contain '/' (index side-cars do): keep it one file name.
+  // '%2F' stands for '/', and an id that itself contains '%2F' has its '%'
+  // escaped. Every other id is its own file name.
+  function fileName(id: string): string {
+    return `${id.replace(/%(?=(?:25)*2F)/g, '%25').replaceAll('/', '%2F')}.json`
+  }
+
+  function idOf(file: string): string {
+    return file.slice(0, -5).replace(/%((?:25)*)2F/g, (_, esc: string) => (esc ? `%${esc.slice(2)}2F` : '/'))
+  }
+
+  // A record appears under its name only when it is complete: a crash or a
+  // full disk half-way through leaves the previous version in place.
+  let writes = 0
+  async function writeRecord(path: string, envelope: EncryptedEnvelope): Promise<void> {
+    const tmp = `${path}.${process.pid}-${++writes}.tmp`
+    try {
+      await writeFile(tmp, serialize(envelope), 'utf-8')
+      await rename(tmp, path)
+    } catch (err) {
+      await unlink(tmp).catch(() => {})
+      throw err
+    }
+  }
+
   async function ensureDir(path: string): Promise<void> {
     await mkdir(path, { recursive: true })
   }
@@ -132,7 +157,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       }
 
       await ensureDir(collectionDir(vault, collection))
-      await writeFile(path, serialize(envelope), 'utf-8')
+      await writeRecord(path, envelope)
     },
 
     async delete(vault, collection, id) {
@@ -150,7 +175,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
         const entries = await readdir(dirPath)
         return entries
           .filter(f => f.endsWith('.json'))
-          .map(f => f.slice(0, -5)) // remove .json extension
+          .map(idOf) // remove .json extension
       } catch {
         return []
       }
@@ -172,7 +197,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
           const files = await readdir(collPath)
           for (const file of files) {
             if (!file.endsWith('.json')) continue
-            const id = file.slice(0, -5)
+            const id = idOf(file)
             const content = await readFile(join(collPath, file), 'utf-8')
             records[id] = JSON.parse(content) as EncryptedEnvelope
           }
@@ -186,11 +211,26 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
     },
 
     async saveAll(vault, data) {
+      // Replace the vault's records: drop what the snapshot does not have.
+      // Internal collections (_keyring, _sync, …) are not part of it.
+      let existing: string[] = []
+      try {
+        existing = await readdir(join(dir, vault))
+      } catch {
+        // Vault doesn't exist yet
+      }
+      for (const collName of existing) {
+        if (collName.startsWith('_')) continue
+        const keep = new Set(Object.hasOwn(data, collName) ? Object.keys(data[collName]!) : [])
+        for (const id of await this.list(vault, collName)) {
+          if (!keep.has(id)) await this.delete(vault, collName, id)
+        }
+      }
       for (const [collName, records] of Object.entries(data)) {
         const collDir = collectionDir(vault, collName)
         await ensureDir(collDir)
         for (const [id, envelope] of Object.entries(records)) {
-          await writeFile(join(collDir, `${id}.json`), serialize(envelope), 'utf-8')
+          await writeRecord(recordPath(vault, collName, id), envelope)
         }
       }
     },
@@ -255,7 +295,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
 
       const ids = files
         .filter(f => f.endsWith('.json'))
-        .map(f => f.slice(0, -5))
+        .map(idOf)
         .sort()
 
       const start = cursor ? parseInt(cursor, 10) : 0
@@ -265,7 +305,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       for (let i = start; i < end; i++) {
         const id = ids[i]!
         try {
-          const content = await readFile(join(dirPath, `${id}.json`), 'utf-8')
+          const content = await readFile(recordPath(vault, collection, id), 'utf-8')
           items.push({ id, envelope: JSON.parse(content) as EncryptedEnvelope })
         } catch {
           // File disappeared between readdir and readFile — skip silently.
-- 
2.43.0


From d47861ec1ca6a37f20d04d527e77af2e5c4a19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:28 +0000
Subject: [PATCH 033/113] fix: browser stores saveAll replaces records and
 reports aborted transactions

---
 packages/to-browser-idb/src/index.ts   | 14 +++++++++++++-
 packages/to-browser-local/src/index.ts | 11 +++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/packages/to-browser-idb/src/index.ts b/packages/to-browser-idb/src/index.ts
index 7675052..ec12be4 100644
--- a/packages/to-browser-idb/src/index.ts
+++ b/packages/to-browser-idb/src/index.ts
@@ -149,6 +149,8 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
         request.onsuccess = () => resolve(request.result)
         request.onerror = () => reject(request.error)
       })
+      // A failed open is retried by the next call.
+      dbPromise.catch(() => { dbPromise = null })
     }
     return dbPromise
   }
@@ -164,6 +166,8 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
       const complete = new Promise<void>((resolve, reject) => {
         transaction.oncomplete = () => resolve()
         transaction.onerror = () => reject(transaction.error)
+        // Aborting at commit (quota exceeded) fires `abort` without `error`.
+        transaction.onabort = () => reject(transaction.error ?? new Error('IndexedDB transaction aborted'))
       })
       return { store, complete }
     })
@@ -268,7 +272,7 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
         }
 
         if (collection.startsWith('_')) continue
-        if (!snapshot[collection]) snapshot[collection] = {}
+        if (!Object.hasOwn(snapshot, collection)) snapshot[collection] = {}
         snapshot[collection]![id] = envelope
       }
 
@@ -276,7 +280,15 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
     },
 
     async saveAll(vault, data) {
+      const current = await this.loadAll(vault)
       const { store, complete } = await tx('readwrite')
+      // Replace the vault's records: drop what the snapshot does not have.
+      for (const [collection, records] of Object.entries(current)) {
+        const keep = Object.hasOwn(data, collection) ? data[collection]! : {}
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(keep, id)) store.delete(key(vault, collection, id))
+        }
+      }
       for (const [collection, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
           const value = obfuscate ? { _oi: xorEncode(id, obfKey), _oc: xorEncode(collection, obfKey), _e: envelope } : envelope
diff --git a/packages/to-browser-local/src/index.ts b/packages/to-browser-local/src/index.ts
index 9df4d4b..be60d5c 100644
--- a/packages/to-browser-local/src/index.ts
+++ b/packages/to-browser-local/src/index.ts
@@ -257,7 +257,7 @@ function createLocalStorageAdapter(prefix: string, obfuscate: boolean, obfKey: s
           if (origCol.startsWith('_')) continue
           collection = origCol
           id = origId
-          if (!snapshot[collection]) snapshot[collection] = {}
+          if (!Object.hasOwn(snapshot, collection)) snapshot[collection] = {}
           snapshot[collection]![id] = envelope
         } else {
           const rest = k.slice(pfx.length)
@@ -266,7 +266,7 @@ function createLocalStorageAdapter(prefix: string, obfuscate: boolean, obfKey: s
           collection = rest.slice(0, colonIdx)
           id = rest.slice(colonIdx + 1)
           if (collection.startsWith('_')) continue
-          if (!snapshot[collection]) snapshot[collection] = {}
+          if (!Object.hasOwn(snapshot, collection)) snapshot[collection] = {}
           snapshot[collection]![id] = JSON.parse(raw) as EncryptedEnvelope
         }
       }
@@ -275,6 +275,13 @@ function createLocalStorageAdapter(prefix: string, obfuscate: boolean, obfKey: s
     },
 
     async saveAll(vault, data) {
+      // Replace the vault's records: drop what the snapshot does not have.
+      for (const [collection, records] of Object.entries(await this.loadAll(vault))) {
+        const keep = Object.hasOwn(data, collection) ? data[collection]! : {}
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(keep, id)) localStorage.removeItem(key(vault, collection, id))
+        }
+      }
       for (const [collection, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
           localStorage.setItem(
-- 
2.43.0


From 9e6ae0fa81d7d9e3b1b7b95ce0405fc57bdb3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:28 +0000
Subject: [PATCH 034/113] fix: DynamoDB and S3 stores read past the first
 result page

loadAll and list stopped at the first page. saveAll left records the
snapshot does not have. The DynamoDB store dropped _by, _tier,
_elevatedBy and _det.
---
 packages/to-aws-dynamo/src/index.ts | 54 +++++++++++++++++++++--------
 packages/to-aws-s3/src/index.ts     | 42 ++++++++++++++--------
 2 files changed, 67 insertions(+), 29 deletions(-)

diff --git a/packages/to-aws-dynamo/src/index.ts b/packages/to-aws-dynamo/src/index.ts
index 141478f..08ebd37 100644
--- a/packages/to-aws-dynamo/src/index.ts
+++ b/packages/to-aws-dynamo/src/index.ts
@@ -138,9 +138,30 @@ export function dynamo(options: DynamoOptions): NoydbStore {
       _ts: item['_ts'] as string,
       _iv: item['_iv'] as string,
       _data: item['_data'] as string,
+      ...(item['_by'] !== undefined && { _by: item['_by'] as string }),
+      ...(item['_tier'] !== undefined && { _tier: item['_tier'] as number }),
+      ...(item['_elevatedBy'] !== undefined && { _elevatedBy: item['_elevatedBy'] as string }),
+      ...(item['_det'] !== undefined && { _det: item['_det'] as Record<string, string> }),
     }
   }
 
+  /** Run a Query to its end: one response carries at most 1 MB of items. */
+  async function queryAll(input: QueryCommandInput): Promise<Record<string, unknown>[]> {
+    const client = await getClient()
+    const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
+    const items: Record<string, unknown>[] = []
+    let startKey: Record<string, unknown> | undefined
+    do {
+      const result = await client.send(new QueryCommand({
+        ...input,
+        ...(startKey && { ExclusiveStartKey: startKey }),
+      })) as { Items?: Record<string, unknown>[]; LastEvaluatedKey?: Record<string, unknown> }
+      items.push(...(result.Items ?? []))
+      startKey = result.LastEvaluatedKey
+    } while (startKey)
+    return items
+  }
+
   return {
     name: 'dynamo',
 
@@ -169,6 +190,10 @@ export function dynamo(options: DynamoOptions): NoydbStore {
         _ts: envelope._ts,
         _iv: envelope._iv,
         _data: envelope._data,
+        ...(envelope._by !== undefined && { _by: envelope._by }),
+        ...(envelope._tier !== undefined && { _tier: envelope._tier }),
+        ...(envelope._elevatedBy !== undefined && { _elevatedBy: envelope._elevatedBy }),
+        ...(envelope._det !== undefined && { _det: envelope._det }),
       }
 
       const input: PutCommandInput = { TableName: table, Item: item }
@@ -205,52 +230,53 @@ export function dynamo(options: DynamoOptions): NoydbStore {
     },
 
     async list(vault, collection) {
-      const client = await getClient()
-      const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
-
-      const result = await client.send(new QueryCommand({
+      const items = await queryAll({
         TableName: table,
         KeyConditionExpression: 'pk = :pk AND begins_with(sk, :prefix)',
         ExpressionAttributeValues: {
           ':pk': vault,
           ':prefix': `${collection}#`,
         },
-      })) as { Items?: Record<string, unknown>[] }
+      })
 
-      return (result.Items ?? []).map(item => {
+      return items.map(item => {
         const { id } = parseSk(item['sk'] as string)
         return id
       })
     },
 
     async loadAll(vault) {
-      const client = await getClient()
-      const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
-
-      const result = await client.send(new QueryCommand({
+      const items = await queryAll({
         TableName: table,
         KeyConditionExpression: 'pk = :pk',
         ExpressionAttributeValues: { ':pk': vault },
-      })) as { Items?: Record<string, unknown>[] }
+      })
 
       const snapshot: VaultSnapshot = {}
 
-      for (const item of result.Items ?? []) {
+      for (const item of items) {
         const sortKey = item['sk'] as string
         const { collection, id } = parseSk(sortKey)
 
         if (collection.startsWith('_')) continue // skip _keyring, _sync
 
-        if (!snapshot[collection]) {
+        if (!Object.hasOwn(snapshot, collection)) {
           snapshot[collection] = {}
         }
-        snapshot[collection][id] = itemToEnvelope(item)
+        snapshot[collection]![id] = itemToEnvelope(item)
       }
 
       return snapshot
     },
 
     async saveAll(vault, data) {
+      // Replace the vault's records: drop what the snapshot does not have.
+      for (const [collName, records] of Object.entries(await this.loadAll(vault))) {
+        const keep = Object.hasOwn(data, collName) ? data[collName]! : {}
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(keep, id)) await this.delete(vault, collName, id)
+        }
+      }
       // Use individual puts (DynamoDB batch write has limitations with conditions)
       for (const [collName, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
diff --git a/packages/to-aws-s3/src/index.ts b/packages/to-aws-s3/src/index.ts
index b779a20..cae0c16 100644
--- a/packages/to-aws-s3/src/index.ts
+++ b/packages/to-aws-s3/src/index.ts
@@ -96,6 +96,22 @@ export function s3(options: S3Options): NoydbStore {
     return prefix ? `${prefix}/${vault}/` : `${vault}/`
   }
 
+  /** List every key under a prefix: one response carries at most 1000. */
+  async function listKeys(pfx: string): Promise<string[]> {
+    const keys: string[] = []
+    let token: string | undefined
+    do {
+      const result = await client.send(new ListObjectsV2Command({
+        Bucket: bucket,
+        Prefix: pfx,
+        ...(token ? { ContinuationToken: token } : {}),
+      }))
+      for (const obj of result.Contents ?? []) keys.push(obj.Key ?? '')
+      token = result.IsTruncated ? result.NextContinuationToken : undefined
+    } while (token)
+    return keys
+  }
+
   return {
     name: 's3',
 
@@ -142,28 +158,17 @@ export function s3(options: S3Options): NoydbStore {
 
     async list(vault, collection) {
       const pfx = collPrefix(vault, collection)
-      const result = await client.send(new ListObjectsV2Command({
-        Bucket: bucket,
-        Prefix: pfx,
-      }))
 
-      return (result.Contents ?? [])
-        .map(obj => obj.Key ?? '')
+      return (await listKeys(pfx))
         .filter(k => k.endsWith('.json'))
         .map(k => k.slice(pfx.length, -5))
     },
 
     async loadAll(vault) {
       const pfx = compPrefix(vault)
-      const listResult = await client.send(new ListObjectsV2Command({
-        Bucket: bucket,
-        Prefix: pfx,
-      }))
-
       const snapshot: VaultSnapshot = {}
 
-      for (const obj of listResult.Contents ?? []) {
-        const key = obj.Key ?? ''
+      for (const key of await listKeys(pfx)) {
         if (!key.endsWith('.json')) continue
 
         const relativePath = key.slice(pfx.length)
@@ -182,14 +187,21 @@ export function s3(options: S3Options): NoydbStore {
         if (!getResult.Body) continue
         const body = await getResult.Body.transformToString()
 
-        if (!snapshot[collection]) snapshot[collection] = {}
-        snapshot[collection][id] = JSON.parse(body) as EncryptedEnvelope
+        if (!Object.hasOwn(snapshot, collection)) snapshot[collection] = {}
+        snapshot[collection]![id] = JSON.parse(body) as EncryptedEnvelope
       }
 
       return snapshot
     },
 
     async saveAll(vault, data) {
+      // Replace the vault's records: drop what the snapshot does not have.
+      for (const [collection, records] of Object.entries(await this.loadAll(vault))) {
+        const keep = Object.hasOwn(data, collection) ? data[collection]! : {}
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(keep, id)) await this.delete(vault, collection, id)
+        }
+      }
       for (const [collection, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
           await this.put(vault, collection, id, envelope)
-- 
2.43.0


From 6d13f9d4b407b0be3bbaa33fa4049910419dc17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:28 +0000
Subject: [PATCH 035/113] fix: SMB, SSH and WebDAV stores treat reserved
 collections like the others

saveAll on SMB and SSH deleted the keyring. loadAll on WebDAV returned
internal collections, mis-decoded names with percent signs, and saveAll
left records the snapshot does not have.
---
 packages/to-smb/src/index.ts    |  1 +
 packages/to-ssh/src/index.ts    |  1 +
 packages/to-webdav/src/index.ts | 13 ++++++++++---
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/to-smb/src/index.ts b/packages/to-smb/src/index.ts
index 6a6c2d2..29aa6fe 100644
--- a/packages/to-smb/src/index.ts
+++ b/packages/to-smb/src/index.ts
@@ -159,6 +159,7 @@ export function smb(options: SmbStoreOptions): NoydbStore {
     async saveAll(vault, data) {
       const existing = await safeReaddir(vaultPath(vault))
       for (const collection of existing) {
+        if (collection.startsWith('_')) continue // internal collections are not part of the snapshot
         const ids = await safeReaddir(collPath(vault, collection))
         for (const fname of ids) {
           await client.unlink(join(root, vault, collection, fname)).catch(() => undefined)
diff --git a/packages/to-ssh/src/index.ts b/packages/to-ssh/src/index.ts
index b7a4e4d..1f6c2bb 100644
--- a/packages/to-ssh/src/index.ts
+++ b/packages/to-ssh/src/index.ts
@@ -173,6 +173,7 @@ export function ssh(options: SshStoreOptions): NoydbStore {
       // Delete the vault tree first to mirror the semantics of other stores.
       const existingCollections = await safeReaddir(vaultPath(vault))
       for (const collection of existingCollections) {
+        if (collection.startsWith('_')) continue // internal collections are not part of the snapshot
         const ids = await safeReaddir(collPath(vault, collection))
         for (const id of ids) {
           await sftp
diff --git a/packages/to-webdav/src/index.ts b/packages/to-webdav/src/index.ts
index 93a747e..dc09603 100644
--- a/packages/to-webdav/src/index.ts
+++ b/packages/to-webdav/src/index.ts
@@ -136,7 +136,7 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
     // keep only .json leaves, and return the id portion.
     const hrefs = Array.from(xml.matchAll(/<(?:\w+:)?href>([^<]+)<\/(?:\w+:)?href>/g))
       .map(m => decodeURIComponent(m[1]!))
-    const selfPath = new URL(url).pathname.replace(/\/+$/, '')
+    const selfPath = decodeURIComponent(new URL(url).pathname).replace(/\/+$/, '')
     const ids: string[] = []
     for (const href of hrefs) {
       const hrefPath = href.replace(/\/+$/, '')
@@ -207,13 +207,13 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
       const xml = await res.text()
       const hrefs = Array.from(xml.matchAll(/<(?:\w+:)?href>([^<]+)<\/(?:\w+:)?href>/g))
         .map(m => decodeURIComponent(m[1]!))
-      const selfPath = new URL(rootUrl).pathname.replace(/\/+$/, '')
+      const selfPath = decodeURIComponent(new URL(rootUrl).pathname).replace(/\/+$/, '')
       const collections = new Set<string>()
       for (const href of hrefs) {
         const hrefPath = href.replace(/\/+$/, '')
         if (hrefPath === selfPath) continue
         const segment = hrefPath.slice(selfPath.length + 1).split('/')[0]
-        if (segment) collections.add(decodeURIComponent(segment))
+        if (segment && !segment.startsWith('_')) collections.add(segment)
       }
       const snap: VaultSnapshot = {}
       for (const collection of collections) {
@@ -229,6 +229,13 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
     },
 
     async saveAll(vault, data) {
+      // Replace the vault's records: drop what the snapshot does not have.
+      for (const [collection, recs] of Object.entries(await store.loadAll(vault))) {
+        const keep = Object.hasOwn(data, collection) ? data[collection]! : {}
+        for (const id of Object.keys(recs)) {
+          if (!Object.hasOwn(keep, id)) await store.delete(vault, collection, id)
+        }
+      }
       for (const [collection, recs] of Object.entries(data)) {
         await mkcolRecursive(vault, collection)
         for (const [id, envelope] of Object.entries(recs)) {
-- 
2.43.0


From 73620ea4490fad27a8a325c40dc77fccf3fd1f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:12 +0000
Subject: [PATCH 036/113] fix: SMB and SSH saveAll keep a record readable while
 it is replaced

---
 packages/to-smb/src/index.ts | 3 +++
 packages/to-ssh/src/index.ts | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/to-smb/src/index.ts b/packages/to-smb/src/index.ts
index 29aa6fe..ffe7f77 100644
--- a/packages/to-smb/src/index.ts
+++ b/packages/to-smb/src/index.ts
@@ -161,7 +161,10 @@ export function smb(options: SmbStoreOptions): NoydbStore {
       for (const collection of existing) {
         if (collection.startsWith('_')) continue // internal collections are not part of the snapshot
         const ids = await safeReaddir(collPath(vault, collection))
+        const keep = Object.hasOwn(data, collection) ? data[collection]! : {}
         for (const fname of ids) {
+          // Records the snapshot has are replaced below, never missing in between.
+          if (fname.endsWith('.json') && Object.hasOwn(keep, fname.slice(0, -5))) continue
           await client.unlink(join(root, vault, collection, fname)).catch(() => undefined)
         }
       }
diff --git a/packages/to-ssh/src/index.ts b/packages/to-ssh/src/index.ts
index 1f6c2bb..429bc2b 100644
--- a/packages/to-ssh/src/index.ts
+++ b/packages/to-ssh/src/index.ts
@@ -170,12 +170,15 @@ export function ssh(options: SshStoreOptions): NoydbStore {
     },
 
     async saveAll(vault, data) {
-      // Delete the vault tree first to mirror the semantics of other stores.
+      // Delete what the snapshot does not have, to mirror the semantics of other stores.
       const existingCollections = await safeReaddir(vaultPath(vault))
       for (const collection of existingCollections) {
         if (collection.startsWith('_')) continue // internal collections are not part of the snapshot
         const ids = await safeReaddir(collPath(vault, collection))
+        const keep = Object.hasOwn(data, collection) ? data[collection]! : {}
         for (const id of ids) {
+          // Records the snapshot has are replaced below, never missing in between.
+          if (id.endsWith('.json') && Object.hasOwn(keep, id.slice(0, -5))) continue
           await sftp
             .unlink('/' + pathJoin(root, vault, collection, id))
             .catch(() => undefined)
-- 
2.43.0


From 85d32a2d752961048ceb6faa78ed86a944f5ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:26 +0000
Subject: [PATCH 037/113] fix: routed store keeps every record reachable
 through overlapping moves, failures and suspensions

---
 packages/hub/src/store/route-store.ts | 290 ++++++++++++++++----------
 1 file changed, 182 insertions(+), 108 deletions(-)

diff --git a/packages/hub/src/store/route-store.ts b/packages/hub/src/store/route-store.ts
index a3690c1..f92a135 100644
--- a/packages/hub/src/store/route-store.ts
+++ b/packages/hub/src/store/route-store.ts
@@ -21,6 +21,7 @@ import type {
   EncryptedEnvelope,
   VaultSnapshot,
 } from '../types.js'
+import { ConflictError } from '../errors.js'
 
 // ─── Internal collection prefixes (duplicated to avoid circular import) ──
 
@@ -347,7 +348,7 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
         if (vault.startsWith(prefix)) return prefix
       }
     }
-    if (opts.routes && !collection.startsWith('_') && opts.routes[collection]) {
+    if (opts.routes && !collection.startsWith('_') && Object.hasOwn(opts.routes, collection)) {
       return collection
     }
     if (isBlobChunks(collection) && (simpleBlobStore || tieredBlobs)) return 'blobs'
@@ -362,15 +363,6 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
   const quotaExceeded = false
 
-  /** Resolve the static (non-overridden) store for a given route name. */
-  function resolveOriginalStore(route: string): NoydbStore {
-    if (route === 'blobs') return simpleBlobStore ?? tieredBlobs?.large ?? primary
-    if (route === 'cold') return opts.age?.cold ?? primary
-    if (opts.routes?.[route]) return opts.routes[route]
-    if (opts.vaultRoutes?.[route]) return opts.vaultRoutes[route]
-    return primary
-  }
-
   /**
    * Queue a write operation if the route is suspended with queue: true.
    * Returns true if queued (caller should skip the actual write).
@@ -420,11 +412,11 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
    * Resolve the store for a given vault + collection.
    * Resolution order: overrides/suspend → vaultRoutes → routes → blobs → default
    */
-  function storeFor(vault: string, collection: string): NoydbStore {
+  function storeFor(vault: string, collection: string, replaying = false): NoydbStore {
     const rName = routeNameFor(vault, collection)
 
     // 0. Runtime override / suspend check
-    if (suspended.has(rName)) return NULL_STORE
+    if (suspended.has(rName) && !replaying) return NULL_STORE
     if (overrides.has(rName)) return overrides.get(rName)!
 
     // 1. Vault-based geographic routing
@@ -435,8 +427,8 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     }
 
     // 2. Per-collection routing (user collections only)
-    if (opts.routes && !isInternal(collection) && opts.routes[collection]) {
-      return opts.routes[collection]
+    if (opts.routes && !isInternal(collection) && Object.hasOwn(opts.routes, collection)) {
+      return opts.routes[collection]!
     }
 
     // 3. Blob chunk routing (simple — no size tiering at the store level)
@@ -471,15 +463,109 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     return tieredBlobs.large
   }
 
+  /**
+   * Stores a size-tiered blob chunk may be in, or null when the collection is
+   * not size-tiered here (another route, override or suspension decides).
+   */
+  function tieredStoresFor(vault: string, collection: string, replaying = false): NoydbStore[] | null {
+    if (!tieredBlobs || !isBlobChunks(collection)) return null
+    if (routeNameFor(vault, collection) !== 'blobs') return null
+    if ((suspended.has('blobs') && !replaying) || overrides.has('blobs')) return null
+    return [...new Set([tieredBlobs.small ?? primary, tieredBlobs.large])]
+  }
+
+  /** Does the collection take part in age tiering? */
+  function isAged(collection: string): boolean {
+    if (!opts.age || isInternal(collection)) return false
+    return !opts.age.collections?.length || opts.age.collections.includes(collection)
+  }
+
+  /** The cold store, honouring a runtime override or suspension of `'cold'`. */
+  function coldStore(): NoydbStore {
+    if (suspended.has('cold')) return NULL_STORE
+    return overrides.get('cold') ?? opts.age!.cold
+  }
+
+  async function deleteCold(vault: string, collection: string, id: string): Promise<void> {
+    if (maybeQueueWrite('cold', 'delete', vault, collection, id)) return
+    await coldStore().delete(vault, collection, id)
+  }
+
+  // Moving a record between two stores takes several calls; a write to the
+  // same record must not fall between them.
+  const moving = new Map<string, Promise<unknown>>()
+  function exclusive<T>(vault: string, collection: string, id: string, fn: () => Promise<T>): Promise<T> {
+    const key = JSON.stringify([vault, collection, id])
+    const run = (moving.get(key) ?? Promise.resolve()).then(fn, fn)
+    moving.set(key, run)
+    const done = () => { if (moving.get(key) === run) moving.delete(key) }
+    run.then(done, done)
+    return run
+  }
+
+  /** The version check of a put whose record may be in another store. */
+  async function assertVersion(s: NoydbStore, vault: string, collection: string, id: string, expected: number): Promise<void> {
+    const current = await s.get(vault, collection, id)
+    if (current && current._v !== expected) {
+      throw new ConflictError(current._v, `Version conflict: expected ${expected}, found ${current._v}`)
+    }
+  }
+
+  async function writePut(
+    vault: string, collection: string, id: string,
+    envelope: EncryptedEnvelope, expectedVersion?: number, replaying = false,
+  ): Promise<void> {
+    // Size-tiered blob routing
+    const tiers = tieredStoresFor(vault, collection, replaying)
+    if (tiers) {
+      return exclusive(vault, collection, id, async () => {
+        const s = blobStoreForSize(envelope._data.length)
+        const others = tiers.filter((t) => t !== s)
+        if (expectedVersion !== undefined) {
+          for (const other of others) await assertVersion(other, vault, collection, id, expectedVersion)
+        }
+        await s.put(vault, collection, id, envelope, expectedVersion)
+        // A chunk that changed size must not leave its old copy in the other tier.
+        for (const other of others) await other.delete(vault, collection, id)
+      })
+    }
+
+    const s = storeFor(vault, collection, replaying)
+    if (!isAged(collection) || s === NULL_STORE) return s.put(vault, collection, id, envelope, expectedVersion)
+
+    // Age tiering: if a cold record is being updated, it goes to hot. The cold
+    // copy goes last: until then it is the record, afterwards hot shadows it.
+    return exclusive(vault, collection, id, async () => {
+      if (expectedVersion !== undefined && (await s.get(vault, collection, id)) === null) {
+        await assertVersion(coldStore(), vault, collection, id, expectedVersion)
+      }
+      await s.put(vault, collection, id, envelope, expectedVersion)
+      await deleteCold(vault, collection, id).catch(() => {})
+    })
+  }
+
+  async function writeDelete(vault: string, collection: string, id: string, replaying = false): Promise<void> {
+    const tiers = tieredStoresFor(vault, collection, replaying)
+    if (tiers) {
+      return exclusive(vault, collection, id, async () => {
+        for (const s of tiers) await s.delete(vault, collection, id)
+      })
+    }
+    const s = storeFor(vault, collection, replaying)
+    if (!isAged(collection) || s === NULL_STORE) return s.delete(vault, collection, id)
+
+    // Cold first: a failure must not let an old copy reappear.
+    return exclusive(vault, collection, id, async () => {
+      await deleteCold(vault, collection, id)
+      await s.delete(vault, collection, id)
+    })
+  }
+
   /**
    * Age routing: check if a record is cold based on `_ts`.
    */
   function isCold(collection: string, envelope: EncryptedEnvelope): boolean {
-    if (!opts.age) return false
-    if (isInternal(collection)) return false
-    if (opts.age.collections && opts.age.collections.length > 0) {
-      if (!opts.age.collections.includes(collection)) return false
-    }
+    if (!opts.age || !isAged(collection)) return false
     const cutoff = Date.now() - opts.age.coldAfterDays * 24 * 60 * 60 * 1000
     const ts = new Date(envelope._ts).getTime()
     return ts < cutoff
@@ -492,67 +578,51 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
     async get(vault, collection, id) {
       const s = storeFor(vault, collection)
-      const result = await s.get(vault, collection, id)
-
-      // Age tiering: if hot store returned null, try cold
-      if (result === null && opts.age && !isInternal(collection)) {
-        if (!opts.age.collections?.length || opts.age.collections.includes(collection)) {
-          return opts.age.cold.get(vault, collection, id)
+      const places = tieredStoresFor(vault, collection) ?? (isAged(collection) ? [s, coldStore()] : [s])
+      const result = await places[0]!.get(vault, collection, id)
+      if (result !== null || places.length === 1) return result
+
+      // Not in the first place: look through all of them while nothing moves.
+      return exclusive(vault, collection, id, async () => {
+        for (const place of places) {
+          const found = await place.get(vault, collection, id)
+          if (found !== null) return found
         }
-      }
-
-      return result
+        return null
+      })
     },
 
     async put(vault, collection, id, envelope, expectedVersion) {
       // Write-behind queue: buffer if suspended with queue option
       const rn = routeNameFor(vault, collection)
       if (maybeQueueWrite(rn, 'put', vault, collection, id, envelope, expectedVersion)) return
-
-      // Size-tiered blob routing
-      if (isBlobChunks(collection) && tieredBlobs) {
-        const dataSize = envelope._data.length
-        const s = blobStoreForSize(dataSize)
-        return s.put(vault, collection, id, envelope, expectedVersion)
-      }
-
-      const s = storeFor(vault, collection)
-
-      // Age tiering: if a cold record is being updated, it goes to hot.
-      if (opts.age && !isInternal(collection)) {
-        opts.age.cold.delete(vault, collection, id).catch(() => {})
-      }
-
-      return s.put(vault, collection, id, envelope, expectedVersion)
+      return writePut(vault, collection, id, envelope, expectedVersion)
     },
 
     async delete(vault, collection, id) {
       // Write-behind queue: buffer if suspended with queue option
       const rn = routeNameFor(vault, collection)
       if (maybeQueueWrite(rn, 'delete', vault, collection, id)) return
-
-      const s = storeFor(vault, collection)
-      await s.delete(vault, collection, id)
-
-      // Also delete from cold store if age-tiered
-      if (opts.age && !isInternal(collection)) {
-        await opts.age.cold.delete(vault, collection, id).catch(() => {})
-      }
+      return writeDelete(vault, collection, id)
     },
 
     async list(vault, collection) {
+      const tiers = tieredStoresFor(vault, collection)
+      if (tiers) {
+        const lists = await Promise.all(tiers.map(t => t.list(vault, collection)))
+        return [...new Set(lists.flat())]
+      }
+
       const s = storeFor(vault, collection)
       const ids = await s.list(vault, collection)
 
       // Age tiering: merge IDs from cold store, deduplicate
-      if (opts.age && !isInternal(collection)) {
-        if (!opts.age.collections?.length || opts.age.collections.includes(collection)) {
-          const coldIds = await opts.age.cold.list(vault, collection).catch(() => [] as string[])
-          if (coldIds.length > 0) {
-            const merged = new Set(ids)
-            for (const id of coldIds) merged.add(id)
-            return [...merged]
-          }
+      if (isAged(collection)) {
+        const coldIds = await coldStore().list(vault, collection)
+        if (coldIds.length > 0) {
+          const merged = new Set(ids)
+          for (const id of coldIds) merged.add(id)
+          return [...merged]
         }
       }
 
@@ -562,15 +632,31 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     async loadAll(vault) {
       // Query all distinct stores in parallel, merge snapshots
       const stores = getStoresForVault(vault)
-      const snapshots = await Promise.all(
-        stores.map(s => s.loadAll(vault).catch(() => ({}) as VaultSnapshot)),
-      )
-      return mergeSnapshots(snapshots)
+      const merged = mergeSnapshots(await Promise.all(stores.map(async (s) => {
+        const snap = await s.loadAll(vault)
+        // A store may serve several routes: leave out those now served elsewhere
+        return Object.fromEntries(Object.entries(snap).filter(([collection]) => {
+          const rn = routeNameFor(vault, collection)
+          return !(suspended.has(rn) || overrides.has(rn)) || storeFor(vault, collection) === s
+        }))
+      })))
+      if (!opts.age) return merged
+
+      // As in `get`, a cold copy counts only where no hot record exists
+      for (const [collection, records] of Object.entries(await coldStore().loadAll(vault))) {
+        if (!isAged(collection)) continue
+        merged[collection] = { ...records, ...(Object.hasOwn(merged, collection) ? merged[collection] : {}) }
+      }
+      return merged
     },
 
     async saveAll(vault, data) {
       // Partition snapshot by routing rules
       const partitioned = new Map<NoydbStore, VaultSnapshot>()
+      // Every store that holds records of this vault takes part: one the
+      // snapshot has nothing for must lose what it has.
+      for (const s of getStoresForVault(vault)) partitioned.set(s, {})
+      if (opts.age) partitioned.set(coldStore(), {})
 
       for (const [collection, records] of Object.entries(data)) {
         const s = storeFor(vault, collection)
@@ -584,24 +670,27 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     },
 
     async compact(vault) {
-      if (!opts.age) return 0
+      if (!opts.age || suspended.has('cold')) return 0
       let migrated = 0
       const collections = opts.age.collections?.length
         ? opts.age.collections
-        : await primary.list(vault, '').catch(() => [] as string[])
+        : Object.keys(await this.loadAll(vault)).filter(isAged)
 
       // For each age-eligible collection, scan hot store for cold records
       for (const collection of collections) {
-        const ids = await primary.list(vault, collection).catch(() => [] as string[])
+        const hot = storeFor(vault, collection)
+        const cold = coldStore()
+        if (hot === cold) continue
+        const ids = await hot.list(vault, collection).catch(() => [] as string[])
         for (const id of ids) {
-          const envelope = await primary.get(vault, collection, id)
-          if (!envelope) continue
-          if (isCold(collection, envelope)) {
+          await exclusive(vault, collection, id, async () => {
+            const envelope = await hot.get(vault, collection, id)
+            if (!envelope || !isCold(collection, envelope)) return
             // Write to cold, then delete from hot
-            await opts.age.cold.put(vault, collection, id, envelope)
-            await primary.delete(vault, collection, id)
+            await cold.put(vault, collection, id, envelope)
+            await hot.delete(vault, collection, id)
             migrated++
-          }
+          })
         }
       }
 
@@ -631,29 +720,27 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
       suspended.add(route)
       if (suspendOpts?.queue) {
         writeQueues.set(route, {
-          writes: [],
+          writes: writeQueues.get(route)?.writes ?? [],
           maxSize: suspendOpts.maxQueueSize ?? 10_000,
         })
       }
     },
 
     async resume(route: OverrideTarget): Promise<number> {
-      suspended.delete(route)
       const queue = writeQueues.get(route)
-      if (!queue || queue.writes.length === 0) {
-        writeQueues.delete(route)
-        return 0
-      }
 
-      // Replay queued writes against the now-active store
+      // Replay queued writes against the now-active store. The route stays
+      // suspended until the queue is empty, so that a write made meanwhile is
+      // replayed after the ones made before it.
       let replayed = 0
-      const target = overrides.get(route) ?? resolveOriginalStore(route)
-      for (const write of queue.writes) {
+      for (let write = queue?.writes.shift(); write; write = queue?.writes.shift()) {
         try {
-          if (write.method === 'put' && write.envelope) {
-            await target.put(write.vault, write.collection, write.id, write.envelope, write.expectedVersion)
+          if (route === 'cold') {
+            await (overrides.get('cold') ?? opts.age!.cold).delete(write.vault, write.collection, write.id)
+          } else if (write.method === 'put' && write.envelope) {
+            await writePut(write.vault, write.collection, write.id, write.envelope, write.expectedVersion, true)
           } else if (write.method === 'delete') {
-            await target.delete(write.vault, write.collection, write.id)
+            await writeDelete(write.vault, write.collection, write.id, true)
           }
           replayed++
         } catch {
@@ -661,6 +748,7 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
         }
       }
 
+      suspended.delete(route)
       writeQueues.delete(route)
       return replayed
     },
@@ -713,28 +801,14 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     return [...allStores].some(s => (s as unknown as Record<string, unknown>)[method])
   }
 
+  /** Stores that hold records of this vault, as routed now (but for the cold store). */
   function getStoresForVault(vault: string): NoydbStore[] {
     const stores = new Set<NoydbStore>()
 
-    // Check vault routes first
-    if (opts.vaultRoutes) {
-      for (const [prefix, s] of Object.entries(opts.vaultRoutes)) {
-        if (vault.startsWith(prefix)) {
-          stores.add(s)
-          return [...stores] // vault-routed: only use that store
-        }
-      }
-    }
-
-    // Default topology: primary + blob store + cold store
-    stores.add(primary)
-    if (simpleBlobStore) stores.add(simpleBlobStore)
-    if (tieredBlobs?.large) stores.add(tieredBlobs.large)
-    if (tieredBlobs?.small && tieredBlobs.small !== primary) stores.add(tieredBlobs.small)
-    if (opts.age?.cold) stores.add(opts.age.cold)
-    if (opts.routes) {
-      for (const s of Object.values(opts.routes)) stores.add(s)
-    }
+    // The store of an unrouted collection (a vault route covers every collection)
+    stores.add(storeFor(vault, ''))
+    for (const s of tieredStoresFor(vault, BLOB_CHUNKS) ?? [storeFor(vault, BLOB_CHUNKS)]) stores.add(s)
+    for (const collection of Object.keys(opts.routes ?? {})) stores.add(storeFor(vault, collection))
 
     return [...stores]
   }
@@ -747,15 +821,15 @@ function mergeSnapshots(snapshots: VaultSnapshot[]): VaultSnapshot {
 
   for (const snap of snapshots) {
     for (const [collection, records] of Object.entries(snap)) {
-      if (!merged[collection]) {
+      if (!Object.hasOwn(merged, collection)) {
         merged[collection] = { ...records }
         continue
       }
       for (const [id, envelope] of Object.entries(records)) {
-        const existing = merged[collection][id]
+        const target = merged[collection]!
         // Last-write-wins by _ts
-        if (!existing || envelope._ts >= existing._ts) {
-          merged[collection][id] = envelope
+        if (!Object.hasOwn(target, id) || envelope._ts >= target[id]!._ts) {
+          target[id] = envelope
         }
       }
     }
-- 
2.43.0


From 37699e0cb665ef926d231c56ecdf0ea79fa814c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:32 +0000
Subject: [PATCH 038/113] fix: store cache never keeps outdated values and an
 open circuit allows a single probe

---
 packages/hub/src/store/store-middleware.ts | 241 ++++++++++++---------
 1 file changed, 138 insertions(+), 103 deletions(-)

diff --git a/packages/hub/src/store/store-middleware.ts b/packages/hub/src/store/store-middleware.ts
index 1949e99..6a23ef6 100644
--- a/packages/hub/src/store/store-middleware.ts
+++ b/packages/hub/src/store/store-middleware.ts
@@ -293,63 +293,67 @@ export function withCircuitBreaker(opts: CircuitBreakerOptions = {}): StoreMiddl
   const threshold = opts.failureThreshold ?? 5
   const resetMs = opts.resetTimeoutMs ?? 30_000
 
-  let state: CircuitState = 'closed'
-  let failures = 0
-  let lastFailureTime = 0
-
-  function recordSuccess(): void {
-    if (state === 'half-open') {
-      state = 'closed'
+  return (next) => {
+    let state: CircuitState = 'closed'
+    let failures = 0
+    let lastFailureTime = 0
+
+    function recordSuccess(probe: boolean): void {
+      if (probe) {
+        state = 'closed'
+        failures = 0
+        opts.onClose?.()
+      }
       failures = 0
-      opts.onClose?.()
     }
-    failures = 0
-  }
 
-  function recordFailure(): void {
-    failures++
-    lastFailureTime = Date.now()
-    if (failures >= threshold && state === 'closed') {
-      state = 'open'
-      opts.onOpen?.()
+    function recordFailure(probe: boolean): void {
+      failures++
+      lastFailureTime = Date.now()
+      if (probe) state = 'open'
+      if (failures >= threshold && state === 'closed') {
+        state = 'open'
+        opts.onOpen?.()
+      }
     }
-  }
 
-  function canAttempt(): boolean {
-    if (state === 'closed') return true
-    if (state === 'open') {
-      if (Date.now() - lastFailureTime >= resetMs) {
-        state = 'half-open'
-        return true
+    function canAttempt(): boolean {
+      if (state === 'closed') return true
+      if (state === 'open') {
+        if (Date.now() - lastFailureTime >= resetMs) {
+          state = 'half-open'
+          return true
+        }
+        return false
       }
+      // half-open: the one attempt is under way
       return false
     }
-    // half-open: allow one attempt
-    return true
-  }
 
-  async function guarded<T>(fn: () => Promise<T>, fallback: T): Promise<T> {
-    if (!canAttempt()) return fallback
-    try {
-      const result = await fn()
-      recordSuccess()
-      return result
-    } catch (err) {
-      recordFailure()
-      throw err
+    async function guarded<T>(fn: () => Promise<T>, fallback: T): Promise<T> {
+      if (!canAttempt()) return fallback
+      const probe = state === 'half-open'
+      try {
+        const result = await fn()
+        recordSuccess(probe)
+        return result
+      } catch (err) {
+        recordFailure(probe)
+        throw err
+      }
+    }
+
+    return {
+      ...next,
+      name: next.name ? `cb(${next.name})` : 'cb',
+      get: (v, c, id) => guarded(() => next.get(v, c, id), null),
+      put: (v, c, id, env, ev) => guarded(() => next.put(v, c, id, env, ev), undefined),
+      delete: (v, c, id) => guarded(() => next.delete(v, c, id), undefined),
+      list: (v, c) => guarded(() => next.list(v, c), []),
+      loadAll: (v) => guarded(() => next.loadAll(v), {}),
+      saveAll: (v, d) => guarded(() => next.saveAll(v, d), undefined),
     }
   }
-
-  return (next) => ({
-    ...next,
-    name: next.name ? `cb(${next.name})` : 'cb',
-    get: (v, c, id) => guarded(() => next.get(v, c, id), null),
-    put: (v, c, id, env, ev) => guarded(() => next.put(v, c, id, env, ev), undefined),
-    delete: (v, c, id) => guarded(() => next.delete(v, c, id), undefined),
-    list: (v, c) => guarded(() => next.list(v, c), []),
-    loadAll: (v) => guarded(() => next.loadAll(v), {}),
-    saveAll: (v, d) => guarded(() => next.saveAll(v, d), undefined),
-  })
 }
 
 // ─── withCache (read-through) ───────────────────────────────────────────
@@ -389,67 +393,98 @@ export function withCache(opts: StoreCacheOptions = {}): StoreMiddleware {
   const maxEntries = opts.maxEntries ?? 500
   const ttlMs = opts.ttlMs ?? 60_000
 
-  // LRU cache: Map preserves insertion order, we delete+re-insert on access
-  const cache = new Map<string, CacheEntry>()
+  return (next) => {
+    // LRU cache: Map preserves insertion order, we delete+re-insert on access
+    const cache = new Map<string, CacheEntry>()
 
-  function cacheKey(vault: string, collection: string, id: string): string {
-    return `${vault}\0${collection}\0${id}`
-  }
+    function cacheKey(vault: string, collection: string, id: string): string {
+      return `${vault}\0${collection}\0${id}`
+    }
 
-  function getFromCache(key: string): EncryptedEnvelope | null | undefined {
-    const entry = cache.get(key)
-    if (!entry) return undefined
-    if (ttlMs > 0 && Date.now() - entry.cachedAt > ttlMs) {
+    function getFromCache(key: string): EncryptedEnvelope | null | undefined {
+      const entry = cache.get(key)
+      if (!entry) return undefined
+      if (ttlMs > 0 && Date.now() - entry.cachedAt > ttlMs) {
+        cache.delete(key)
+        return undefined
+      }
+      // LRU: move to end
       cache.delete(key)
-      return undefined
+      cache.set(key, entry)
+      return entry.envelope
     }
-    // LRU: move to end
-    cache.delete(key)
-    cache.set(key, entry)
-    return entry.envelope
-  }
 
-  function setInCache(key: string, envelope: EncryptedEnvelope | null): void {
-    // Evict oldest if at capacity
-    if (cache.size >= maxEntries) {
-      const oldest = cache.keys().next().value
-      if (oldest !== undefined) cache.delete(oldest)
+    function setInCache(key: string, envelope: EncryptedEnvelope | null): void {
+      // Evict oldest if at capacity
+      if (cache.size >= maxEntries) {
+        const oldest = cache.keys().next().value
+        if (oldest !== undefined) cache.delete(oldest)
+      }
+      cache.set(key, { envelope, cachedAt: Date.now() })
     }
-    cache.set(key, { envelope, cachedAt: Date.now() })
-  }
 
-  function invalidate(key: string): void {
-    cache.delete(key)
-  }
+    function invalidate(key: string): void {
+      cache.delete(key)
+    }
 
-  return (next) => ({
-    ...next,
-    name: next.name ? `cache(${next.name})` : 'cache',
-
-    async get(vault, collection, id) {
-      const key = cacheKey(vault, collection, id)
-      const cached = getFromCache(key)
-      if (cached !== undefined) return cached
-      const result = await next.get(vault, collection, id)
-      setInCache(key, result)
-      return result
-    },
-
-    async put(vault, collection, id, env, ev) {
-      invalidate(cacheKey(vault, collection, id))
-      await next.put(vault, collection, id, env, ev)
-      setInCache(cacheKey(vault, collection, id), env)
-    },
-
-    async delete(vault, collection, id) {
-      invalidate(cacheKey(vault, collection, id))
-      await next.delete(vault, collection, id)
-    },
-
-    list: (v, c) => next.list(v, c),
-    loadAll: (v) => next.loadAll(v),
-    saveAll: (v, d) => next.saveAll(v, d),
-  })
+    // A value read or written while another write is under way may be outdated
+    // by the time it arrives, so it is not kept.
+    let started = 0
+    let pending = 0
+
+    /** Run a write, then `keep` unless another write overlapped it. */
+    async function writing(fn: () => Promise<void>, keep?: () => void): Promise<void> {
+      const quiet = pending++ === 0
+      const at = ++started
+      try {
+        await fn()
+      } finally {
+        pending--
+      }
+      if (quiet && pending === 0 && started === at) keep?.()
+    }
+
+    const { tx } = next
+    return {
+      ...next,
+      name: next.name ? `cache(${next.name})` : 'cache',
+
+      async get(vault, collection, id) {
+        const key = cacheKey(vault, collection, id)
+        const cached = getFromCache(key)
+        if (cached !== undefined) return cached
+        const quiet = pending === 0
+        const at = started
+        const result = await next.get(vault, collection, id)
+        if (quiet && pending === 0 && started === at) setInCache(key, result)
+        return result
+      },
+
+      async put(vault, collection, id, env, ev) {
+        const key = cacheKey(vault, collection, id)
+        invalidate(key)
+        await writing(() => next.put(vault, collection, id, env, ev), () => setInCache(key, env))
+      },
+
+      async delete(vault, collection, id) {
+        invalidate(cacheKey(vault, collection, id))
+        await writing(() => next.delete(vault, collection, id))
+      },
+
+      list: (v, c) => next.list(v, c),
+      loadAll: (v) => next.loadAll(v),
+      async saveAll(v, d) {
+        cache.clear()
+        await writing(() => next.saveAll(v, d))
+      },
+      ...(tx ? {
+        async tx(ops) {
+          for (const op of ops) invalidate(cacheKey(op.vault, op.collection, op.id))
+          await writing(() => tx.call(next, ops))
+        },
+      } satisfies Partial<NoydbStore> : {}),
+    }
+  }
 }
 
 // ─── withHealthCheck ────────────────────────────────────────────────────
@@ -483,11 +518,11 @@ export function withHealthCheck(opts: HealthCheckOptions = {}): StoreMiddleware
   const failThreshold = opts.suspendAfterFailures ?? 3
   const successThreshold = opts.resumeAfterSuccess ?? 1
 
-  let isSuspended = false
-  let consecutiveFailures = 0
-  let consecutiveSuccesses = 0
-
   return (next) => {
+    let isSuspended = false
+    let consecutiveFailures = 0
+    let consecutiveSuccesses = 0
+
     const checkFn = opts.check ?? (
       next.ping
         ? () => next.ping!()
-- 
2.43.0


From 8e394cb0c41fc0a203817ae8c9f2fb8888e00211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:19 +0000
Subject: [PATCH 039/113] fix: bundle-backed store merges against the last
 known bundle, serialises flushes and keeps internal collections

---
 packages/hub/src/store/bundle-store.ts | 166 +++++++++++++++----------
 packages/to-drive/src/index.ts         |   8 +-
 packages/to-icloud/src/index.ts        |  10 +-
 3 files changed, 113 insertions(+), 71 deletions(-)

diff --git a/packages/hub/src/store/bundle-store.ts b/packages/hub/src/store/bundle-store.ts
index 3171585..f2f294d 100644
--- a/packages/hub/src/store/bundle-store.ts
+++ b/packages/hub/src/store/bundle-store.ts
@@ -62,7 +62,8 @@ const MAX_CONFLICT_RETRIES = 3
  * The wrapper tracks the `version` token from the last `readBundle` and
  * passes it as `expectedVersion` on every flush. On
  * `BundleVersionConflictError`, it re-reads, merges the remote snapshot
- * (last-write-wins per record key), and retries (max 3 attempts).
+ * (changes of either side since the last known bundle; last-write-wins where
+ * both changed a record), and retries (max 3 attempts).
  *
  * ## Flush modes
  *
@@ -80,57 +81,78 @@ export function wrapBundleStore(
   // Per-vault state
   const snapshots = new Map<string, VaultSnapshot>()
   const versions = new Map<string, string | null>()
-  const loaded = new Set<string>()
+  const loading = new Map<string, Promise<void>>()
+  const flushing = new Map<string, Promise<void>>()
+  // What the backend is known to hold: the common ancestor of a merge.
+  const bases = new Map<string, VaultSnapshot>()
 
   // Batch mode: when > 0, suppress auto-flush
-  let batchDepth = 0
-
-  async function load(vault: string): Promise<VaultSnapshot> {
-    if (loaded.has(vault)) return snapshots.get(vault)!
+  const batchDepth = new Map<string, number>()
 
+  async function read(vault: string): Promise<{ data: VaultSnapshot; version: string } | null> {
     const result = await bundle.readBundle(vault)
-    if (result) {
-      const text = new TextDecoder().decode(result.bytes)
-      const format = JSON.parse(text) as BundleStoreData
-      snapshots.set(vault, format.data)
-      versions.set(vault, result.version)
-    } else {
-      snapshots.set(vault, {})
-      versions.set(vault, null)
+    if (!result) return null
+    const text = new TextDecoder().decode(result.bytes)
+    const format = JSON.parse(text) as BundleStoreData
+    return { data: copySnapshot(format.data), version: result.version }
+  }
+
+  /** Ensure the vault is in memory; concurrent first uses share one read. */
+  async function load(vault: string): Promise<void> {
+    if (snapshots.has(vault)) return
+    let pending = loading.get(vault)
+    if (!pending) {
+      pending = (async () => {
+        try {
+          const result = await read(vault)
+          snapshots.set(vault, result?.data ?? copySnapshot({}))
+          bases.set(vault, copySnapshot(result?.data ?? {}))
+          versions.set(vault, result?.version ?? null)
+        } finally {
+          loading.delete(vault)
+        }
+      })()
+      loading.set(vault, pending)
     }
+    await pending
+  }
 
-    loaded.add(vault)
-    return snapshots.get(vault)!
+  /** One flush at a time per vault: each builds on the version the last one wrote. */
+  function flush(vault: string): Promise<void> {
+    const run = () => writeSnapshot(vault)
+    const pending = (flushing.get(vault) ?? Promise.resolve()).then(run, run)
+    flushing.set(vault, pending)
+    return pending
   }
 
-  async function flush(vault: string): Promise<void> {
-    const snapshot = snapshots.get(vault) ?? {}
-    const format: BundleStoreData = {
-      _noydb_bundle_store: BUNDLE_STORE_VERSION,
-      vault,
-      ts: new Date().toISOString(),
-      data: snapshot,
-    }
-    const bytes = new TextEncoder().encode(JSON.stringify(format))
-    const expectedVersion = versions.get(vault) ?? null
+  async function writeSnapshot(vault: string): Promise<void> {
+    await load(vault)
 
     for (let attempt = 0; attempt < MAX_CONFLICT_RETRIES; attempt++) {
+      const snapshot = copySnapshot(snapshots.get(vault)!)
+      const format: BundleStoreData = {
+        _noydb_bundle_store: BUNDLE_STORE_VERSION,
+        vault,
+        ts: new Date().toISOString(),
+        data: snapshot,
+      }
+      const bytes = new TextEncoder().encode(JSON.stringify(format))
+      const expectedVersion = versions.get(vault) ?? null
+
       try {
         const { version: newVersion } = await bundle.writeBundle(vault, bytes, expectedVersion)
         versions.set(vault, newVersion)
+        bases.set(vault, snapshot)
         return
       } catch (err) {
         if (err instanceof BundleVersionConflictError && attempt < MAX_CONFLICT_RETRIES - 1) {
           // Pull remote, merge (last-write-wins by record key), retry
-          const remote = await bundle.readBundle(vault)
+          const remote = await read(vault)
           if (remote) {
-            const remoteText = new TextDecoder().decode(remote.bytes)
-            const remoteFormat = JSON.parse(remoteText) as BundleStoreData
-            const localSnap = snapshots.get(vault) ?? {}
-            const mergedSnap = mergeSnapshots(remoteFormat.data, localSnap)
-            snapshots.set(vault, mergedSnap)
-            versions.set(vault, remote.version)
+            snapshots.set(vault, mergeSnapshots(remote.data, snapshots.get(vault)!, bases.get(vault)!))
+            bases.set(vault, remote.data)
           }
+          versions.set(vault, remote?.version ?? null)
           // Re-encode with merged data for the retry
           continue
         }
@@ -140,7 +162,7 @@ export function wrapBundleStore(
   }
 
   async function maybeFlush(vault: string): Promise<void> {
-    if (autoFlush && batchDepth === 0) {
+    if (autoFlush && !batchDepth.get(vault)) {
       await flush(vault)
     }
   }
@@ -154,18 +176,19 @@ export function wrapBundleStore(
 
     async batch(vaultId: string, fn: () => Promise<void>): Promise<void> {
       await load(vaultId) // ensure loaded before batch
-      batchDepth++
+      batchDepth.set(vaultId, (batchDepth.get(vaultId) ?? 0) + 1)
       try {
         await fn()
       } finally {
-        batchDepth--
+        batchDepth.set(vaultId, batchDepth.get(vaultId)! - 1)
+        // Also when fn fails: the mutations it made were acknowledged.
+        await flush(vaultId)
       }
-      await flush(vaultId)
     },
 
     async get(vault: string, collection: string, id: string): Promise<EncryptedEnvelope | null> {
-      const snap = await load(vault)
-      return snap[collection]?.[id] ?? null
+      await load(vault)
+      return snapshots.get(vault)![collection]?.[id] ?? null
     },
 
     async put(
@@ -175,7 +198,8 @@ export function wrapBundleStore(
       envelope: EncryptedEnvelope,
       expectedVersion?: number,
     ): Promise<void> {
-      const snap = await load(vault)
+      await load(vault)
+      const snap = snapshots.get(vault)!
 
       if (expectedVersion !== undefined) {
         const current = snap[collection]?.[id]
@@ -188,13 +212,14 @@ export function wrapBundleStore(
         }
       }
 
-      snap[collection] ??= {}
+      snap[collection] ??= Object.create(null) as Record<string, EncryptedEnvelope>
       snap[collection][id] = envelope
       await maybeFlush(vault)
     },
 
     async delete(vault: string, collection: string, id: string): Promise<void> {
-      const snap = await load(vault)
+      await load(vault)
+      const snap = snapshots.get(vault)!
       if (snap[collection]) {
         delete snap[collection][id]
         await maybeFlush(vault)
@@ -202,17 +227,19 @@ export function wrapBundleStore(
     },
 
     async list(vault: string, collection: string): Promise<string[]> {
-      const snap = await load(vault)
-      return Object.keys(snap[collection] ?? {})
+      await load(vault)
+      return Object.keys(snapshots.get(vault)![collection] ?? {})
     },
 
     async loadAll(vault: string): Promise<VaultSnapshot> {
-      return await load(vault)
+      await load(vault)
+      return copySnapshot(snapshots.get(vault)!, (name) => !name.startsWith('_'))
     },
 
     async saveAll(vault: string, data: VaultSnapshot): Promise<void> {
-      snapshots.set(vault, data)
-      loaded.add(vault)
+      await load(vault)
+      const internal = copySnapshot(snapshots.get(vault)!, (name) => name.startsWith('_'))
+      snapshots.set(vault, Object.assign(internal, copySnapshot(data)))
       await flush(vault)
     },
   }
@@ -220,26 +247,33 @@ export function wrapBundleStore(
   return store
 }
 
-// ─── Snapshot merge (last-write-wins per record) ────────────────────────
+/** Copy the collections `keep` selects; without prototypes, so any name can be a key. */
+function copySnapshot(snapshot: VaultSnapshot, keep: (collection: string) => boolean = () => true): VaultSnapshot {
+  const copy = Object.create(null) as VaultSnapshot
+  for (const [coll, records] of Object.entries(snapshot)) {
+    if (keep(coll)) copy[coll] = Object.assign(Object.create(null) as Record<string, EncryptedEnvelope>, records)
+  }
+  return copy
+}
 
-function mergeSnapshots(remote: VaultSnapshot, local: VaultSnapshot): VaultSnapshot {
-  const merged: VaultSnapshot = {}
+// ─── Snapshot merge (last-write-wins per record) ────────────────────────
 
+function mergeSnapshots(remote: VaultSnapshot, local: VaultSnapshot, base: VaultSnapshot): VaultSnapshot {
   // Start with all remote collections
-  for (const [coll, records] of Object.entries(remote)) {
-    merged[coll] = { ...records }
-  }
-
-  // Overlay local collections — LWW by _ts per record
-  for (const [coll, records] of Object.entries(local)) {
-    if (!merged[coll]) {
-      merged[coll] = { ...records }
-      continue
-    }
-    for (const [id, envelope] of Object.entries(records)) {
-      const existing = merged[coll][id]
-      if (!existing || envelope._ts >= existing._ts) {
-        merged[coll][id] = envelope
+  const merged = copySnapshot(remote)
+
+  // Apply what changed locally since `base` — LWW by _ts per record
+  for (const coll of new Set([...Object.keys(local), ...Object.keys(base)])) {
+    const records = merged[coll] ??= Object.create(null) as Record<string, EncryptedEnvelope>
+    for (const id of new Set([...Object.keys(local[coll] ?? {}), ...Object.keys(base[coll] ?? {})])) {
+      const before = base[coll]?.[id]
+      const ours = local[coll]?.[id]
+      const theirs = remote[coll]?.[id]
+      if (sameEnvelope(ours, before)) continue
+      if (!ours) {
+        if (sameEnvelope(theirs, before)) delete records[id]
+      } else if (!theirs || ours._ts >= theirs._ts || sameEnvelope(theirs, before)) {
+        records[id] = ours
       }
     }
   }
@@ -247,6 +281,10 @@ function mergeSnapshots(remote: VaultSnapshot, local: VaultSnapshot): VaultSnaps
   return merged
 }
 
+function sameEnvelope(a: EncryptedEnvelope | undefined, b: EncryptedEnvelope | undefined): boolean {
+  return a === b || JSON.stringify(a) === JSON.stringify(b)
+}
+
 // ─── Factory helper ─────────────────────────────────────────────────────
 
 /**
diff --git a/packages/to-drive/src/index.ts b/packages/to-drive/src/index.ts
index 22531ca..f4b7bf3 100644
--- a/packages/to-drive/src/index.ts
+++ b/packages/to-drive/src/index.ts
@@ -205,7 +205,13 @@ export function drive(options: DriveStoreOptions): NoydbBundleStore {
 
     async writeBundle(vaultId, bytes, expectedVersion) {
       const handle = await handleFor(vaultId)
-      if (!handle) {
+      const stored = handle && expectedVersion === null ? await client.getFileMetadata(handle.fileId) : null
+      if (stored) {
+        throw new BundleVersionConflictError(
+          `Vault "${vaultId}" already has a bundle (revision ${stored.headRevisionId}) but no expectedVersion was supplied.`,
+        )
+      }
+      if (!handle || expectedVersion === null) {
         if (expectedVersion !== null) {
           throw new BundleVersionConflictError(
             `No existing bundle for vault "${vaultId}" but expectedVersion="${expectedVersion}" was supplied.`,
diff --git a/packages/to-icloud/src/index.ts b/packages/to-icloud/src/index.ts
index 3b9423e..9c08297 100644
--- a/packages/to-icloud/src/index.ts
+++ b/packages/to-icloud/src/index.ts
@@ -72,10 +72,9 @@ function isStub(name: string): boolean {
   return name.endsWith('.icloud')
 }
 
-function isConflictCopy(name: string, expected: string): boolean {
+function isConflictCopy(name: string, vault: string, suffix: string): boolean {
   // Canonical shape: `foo (device conflicted copy DATE).noydb`
-  return name.includes("'s conflicted copy") ||
-         (name.includes('(conflicted copy') && name.endsWith(expected.slice(expected.lastIndexOf('.'))))
+  return name.startsWith(`${vault} (`) && name.includes('conflicted copy') && name.endsWith(suffix)
 }
 
 /**
@@ -114,10 +113,9 @@ export function icloud(options: ICloudStoreOptions): NoydbBundleStore {
   }
 
   async function detectConflict(vault: string): Promise<string | null> {
-    const target = fileName(vault, suffix)
     const entries = await fs.readdir(dir).catch(() => [] as string[])
     for (const entry of entries) {
-      if (isConflictCopy(entry, target)) return entry
+      if (isConflictCopy(entry, vault, suffix)) return entry
     }
     return null
   }
@@ -163,7 +161,7 @@ export function icloud(options: ICloudStoreOptions): NoydbBundleStore {
       const path = await pathFor(vaultId)
       const stat = await fs.stat(path)
       const current = stat ? versionOf(stat) : null
-      if (expectedVersion !== null && current !== null && expectedVersion !== current) {
+      if (current !== null && expectedVersion !== current) {
         throw new BundleVersionConflictError(
           `iCloud bundle version mismatch: expected ${expectedVersion}, found ${current}`,
         )
-- 
2.43.0


From 9f2d5c95a01e7d2fadc390912e911edcda4e5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:08 +0000
Subject: [PATCH 040/113] fix: sync scheduler keeps one push and one pull at a
 time and never drops a change

A pull started during a push cleared the running flag, so a second push
could start beside the first. A change made while a push ran, or within
minIntervalMs of the last one, was never pushed. forcePush was refused by
minIntervalMs. The status did not show a running pull or a past error.
---
 packages/hub/src/store/sync-policy.ts | 62 +++++++++++++++++++--------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/packages/hub/src/store/sync-policy.ts b/packages/hub/src/store/sync-policy.ts
index 352b132..98a8583 100644
--- a/packages/hub/src/store/sync-policy.ts
+++ b/packages/hub/src/store/sync-policy.ts
@@ -173,6 +173,11 @@ export class SyncScheduler {
   private _lastError: Error | null = null
   private _lastPushTime = 0 // monotonic ms for minIntervalMs enforcement
 
+  // Operations in progress; a push wanted meanwhile happens afterwards
+  private pushing: Promise<void> | null = null
+  private pulling = false
+  private pushAgain = false
+
   // Timers
   private debounceTimer: ReturnType<typeof setTimeout> | null = null
   private pushIntervalTimer: ReturnType<typeof setInterval> | null = null
@@ -221,10 +226,10 @@ export class SyncScheduler {
     }
 
     // Pull: interval mode
-    if (this.policy.pull.mode === 'interval' && this.policy.pull.intervalMs) {
+    if (this.policy.pull.mode === 'interval') {
       this.pullIntervalTimer = setInterval(() => {
         void this.executePull()
-      }, this.policy.pull.intervalMs)
+      }, this.policy.pull.intervalMs ?? 60_000)
     }
 
     // Pull: on-focus mode
@@ -299,7 +304,8 @@ export class SyncScheduler {
 
   /** Force an immediate push, bypassing the scheduler. */
   async forcePush(): Promise<void> {
-    await this.executePush()
+    while (this.pushing) await this.pushing
+    await this.executePush(true)
   }
 
   /** Force an immediate pull, bypassing the scheduler. */
@@ -309,17 +315,21 @@ export class SyncScheduler {
 
   // ─── Internal ─────────────────────────────────────────────────────
 
-  private async executePush(): Promise<void> {
-    if (this._state === 'pushing') return // already in progress
+  private async executePush(force = false): Promise<void> {
+    if (this.pushing) { // already in progress
+      this.pushAgain = true
+      return
+    }
 
     // minIntervalMs enforcement
     const minInterval = this.policy.push.minIntervalMs ?? 0
-    if (minInterval > 0) {
+    if (minInterval > 0 && !force) {
       const elapsed = Date.now() - this._lastPushTime
       if (elapsed < minInterval) {
-        // Schedule for later if debounce mode
-        if (this.policy.push.mode === 'debounce') {
+        // Schedule for later unless the interval brings the next attempt
+        if (this.policy.push.mode !== 'interval') {
           this.scheduleDebounce(minInterval - elapsed)
+          this.updateState()
         }
         return
       }
@@ -327,44 +337,60 @@ export class SyncScheduler {
 
     // Nothing to push
     if (this.callbacks.getDirtyCount() === 0) {
-      this._state = 'idle'
+      this.updateState()
       return
     }
 
-    this._state = 'pushing'
+    this.pushing = this.runPush()
+    this.updateState()
+    await this.pushing
+  }
+
+  private async runPush(): Promise<void> {
     try {
       await this.callbacks.push()
       this._lastPushAt = new Date().toISOString()
       this._lastPushTime = Date.now()
       this._lastError = null
-      this._state = this.callbacks.getDirtyCount() > 0 ? 'pending' : 'idle'
     } catch (err) {
       this._lastError = err instanceof Error ? err : new Error(String(err))
-      this._state = 'error'
     }
+    this.pushing = null
+    this.updateState()
+    const again = this.pushAgain
+    this.pushAgain = false
+    // A running debounce brings the push of the latest writes by itself
+    if (again && this.started && !this.debounceTimer) void this.executePush()
   }
 
   private async executePull(): Promise<void> {
-    if (this._state === 'pulling') return
+    if (this.pulling) return
 
-    const previousState = this._state
-    this._state = 'pulling'
+    this.pulling = true
+    this.updateState()
     try {
       await this.callbacks.pull()
       this._lastPullAt = new Date().toISOString()
       this._lastError = null
-      this._state = previousState === 'pending' ? 'pending' : 'idle'
     } catch (err) {
       this._lastError = err instanceof Error ? err : new Error(String(err))
-      this._state = 'error'
     }
+    this.pulling = false
+    this.updateState()
+  }
+
+  private updateState(): void {
+    if (this.pushing) this._state = 'pushing'
+    else if (this.pulling) this._state = 'pulling'
+    else if (this._lastError) this._state = 'error'
+    else this._state = this.debounceTimer || this.callbacks.getDirtyCount() > 0 ? 'pending' : 'idle'
   }
 
   private resetDebounce(): void {
     if (this.debounceTimer) clearTimeout(this.debounceTimer)
     const ms = this.policy.push.debounceMs ?? 30_000
-    this._state = 'pending'
     this.scheduleDebounce(ms)
+    this.updateState()
   }
 
   private scheduleDebounce(ms: number): void {
-- 
2.43.0


From 58bf9d6254b1f6012d24a96963e9b42f3f3289a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:49 +0000
Subject: [PATCH 041/113] fix: closed periods cover their whole last day, every
 write path and every session

A date with a time on the last day, a Date object or a date set by the
schema slipped past the seal, as did tier changes. Viewers and clients
could close periods. Closing while another call loaded the period list
lost the seal or the chain, and users granted before the first close
could no longer write at all.
---
 packages/hub/src/collection.ts      | 54 ++++++++++----------
 packages/hub/src/periods/periods.ts | 12 +++--
 packages/hub/src/team/keyring.ts    |  2 +-
 packages/hub/src/vault.ts           | 78 +++++++++++++++++------------
 4 files changed, 83 insertions(+), 63 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 3ccbae3..daa9851 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -912,21 +912,7 @@ export class Collection<T> {
     // `dateField` can use the stored value (late entries don't slip
     // through a write-time check). For first-time inserts the prior
     // is null.
-    if (this.periodGuard !== undefined) {
-      const existingEnv = await this.adapter.get(this.vault, this.name, id)
-      let priorRecord: Record<string, unknown> | null = null
-      if (existingEnv) {
-        try {
-          priorRecord = (await this.decryptRecord(existingEnv, { skipValidation: true })) as unknown as Record<string, unknown>
-        } catch {
-          priorRecord = null
-        }
-      }
-      await this.periodGuard(
-        existingEnv ? { ts: existingEnv._ts, record: priorRecord } : null,
-        record as unknown as Record<string, unknown>,
-      )
-    }
+    await this.assertPeriodOpen(id, record)
 
     // Schema validation — runs BEFORE encryption so invalid records are
     // rejected at the store boundary. The validator may transform the
@@ -937,6 +923,8 @@ export class Collection<T> {
     // encrypt path.
     if (this.schema !== undefined) {
       record = await validateSchemaInput(this.schema, record, `put(${id})`)
+      // The validator may have changed the business date.
+      await this.periodGuard?.(null, record as unknown as Record<string, unknown>)
     }
 
     // Auto-translate missing i18nText translations.
@@ -1266,21 +1254,28 @@ export class Collection<T> {
 
     // accounting-period guard (same contract as put;
     // incoming is null because this is a delete).
-    if (this.periodGuard !== undefined) {
-      const existingEnv = await this.adapter.get(this.vault, this.name, id)
-      let priorRecord: Record<string, unknown> | null = null
-      if (existingEnv) {
-        try {
-          priorRecord = (await this.decryptRecord(existingEnv, { skipValidation: true })) as unknown as Record<string, unknown>
-        } catch {
-          priorRecord = null
-        }
+    await this.assertPeriodOpen(id, null)
+  }
+
+  /** Reject a write of a record that a closed period covers, before or after the write. */
+  private async assertPeriodOpen(id: string, incoming: T | null): Promise<void> {
+    if (this.periodGuard === undefined) return
+    const existingEnv = await this.adapter.get(this.vault, this.name, id)
+    let priorRecord: Record<string, unknown> | null = null
+    if (existingEnv) {
+      try {
+        const tier = existingEnv._tier ?? 0
+        priorRecord = (tier > 0
+          ? JSON.parse(await decrypt(existingEnv._iv, existingEnv._data, await this.getDEK(dekKey(this.name, tier))))
+          : await this.decryptRecord(existingEnv, { skipValidation: true })) as Record<string, unknown>
+      } catch {
+        priorRecord = null
       }
-      await this.periodGuard(
-        existingEnv ? { ts: existingEnv._ts, record: priorRecord } : null,
-        null,
-      )
     }
+    await this.periodGuard(
+      existingEnv ? { ts: existingEnv._ts, record: priorRecord } : null,
+      incoming as unknown as Record<string, unknown> | null,
+    )
   }
 
   /**
@@ -2864,6 +2859,7 @@ export class Collection<T> {
     this.assertDeclaredTier(tier)
     assertTierAccess(this.keyring, this.name, tier)
     this.assertWritable()
+    await this.assertPeriodOpen(id, record)
 
     const key = dekKey(this.name, tier)
     const dek = await this.getDEK(key)
@@ -2989,6 +2985,7 @@ export class Collection<T> {
     }
     // Caller must have access at the existing tier to decrypt.
     if (fromTier > 0) assertTierAccess(this.keyring, this.name, fromTier)
+    await this.assertPeriodOpen(id, null)
 
     const fromKey = dekKey(this.name, fromTier)
     const toKey = dekKey(this.name, toTier)
@@ -3045,6 +3042,7 @@ export class Collection<T> {
     // Caller must still hold the DEK of the current tier to decrypt.
     assertTierAccess(this.keyring, this.name, fromTier)
     if (toTier > 0) this.assertDeclaredTier(toTier)
+    await this.assertPeriodOpen(id, null)
 
     const fromDek = await this.getDEK(dekKey(this.name, fromTier))
     const toDek = await this.getDEK(dekKey(this.name, toTier))
diff --git a/packages/hub/src/periods/periods.ts b/packages/hub/src/periods/periods.ts
index 7cbe6fc..68fc970 100644
--- a/packages/hub/src/periods/periods.ts
+++ b/packages/hub/src/periods/periods.ts
@@ -243,6 +243,11 @@ export async function chainAnchor(
   return { priorPeriodName: last.name, priorPeriodHash: hash }
 }
 
+/** Whether a date is at or before `endDate`; a plain date includes its whole day. */
+function isCovered(date: string, endDate: string): boolean {
+  return date.slice(0, endDate.length) <= endDate
+}
+
 /**
  * Throw `PeriodClosedError` if the record being touched falls within
  * any closed period.
@@ -271,8 +276,9 @@ export function assertTsWritable(
     if (p.dateField) {
       const checkRecord = (label: string, r: Record<string, unknown> | null): void => {
         if (!r) return
-        const v = r[p.dateField!]
-        if (typeof v === 'string' && v <= p.endDate) {
+        const field = r[p.dateField!]
+        const v = field instanceof Date ? field.toJSON() : field
+        if (typeof v === 'string' && isCovered(v, p.endDate)) {
           throw new PeriodClosedError(p.name, p.endDate, `${label}[${p.dateField}]=${v}`)
         }
       }
@@ -282,7 +288,7 @@ export function assertTsWritable(
     }
     // Fallback: write-time seal via envelope _ts.
     const existingTs = existing?.ts ?? null
-    if (existingTs !== null && existingTs <= p.endDate) {
+    if (existingTs !== null && isCovered(existingTs, p.endDate)) {
       throw new PeriodClosedError(p.name, p.endDate, existingTs)
     }
   }
diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index bc8aa11..7af98f3 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -850,7 +850,7 @@ export async function listUsers(
 // ─── DEK Management ────────────────────────────────────────────────────
 
 /** System keys that any user of a vault may write with. */
-const SHARED_SYSTEM_KEYS = ['_ledger', '_blob', '_consent_audit', '_blob_eviction_audit', '_export_audit', '_elevation_audit']
+const SHARED_SYSTEM_KEYS = ['_ledger', '_blob', '_periods', '_consent_audit', '_blob_eviction_audit', '_export_audit', '_elevation_audit']
 
 /**
  * Take over the keys of the stored keyring: other sessions of the same user
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 8a9a85a..69b64c9 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -33,7 +33,7 @@ import {
   TierNotGrantedError,
 } from './errors.js'
 import type { NoydbEventEmitter } from './events.js'
-import { BackupLedgerError, BackupCorruptedError, ConflictError } from './errors.js'
+import { BackupLedgerError, BackupCorruptedError, ConflictError, ReadOnlyError } from './errors.js'
 import type { StandardSchemaV1 } from './schema.js'
 import type { BlobStrategy } from './blobs/strategy.js'
 import type { IndexStrategy } from './indexing/strategy.js'
@@ -213,6 +213,8 @@ export class Vault {
    * sees the updated chain without re-reading the adapter.
    */
   private periodCache: PeriodRecord[] | null = null
+  private periodsLoading: Promise<PeriodRecord[]> | null = null
+  private periodLock: Promise<void> = Promise.resolve()
 
   /**
    * Registry of dictKey fields declared across all collections in this
@@ -1690,13 +1692,12 @@ export class Vault {
    *.
    */
   async closePeriod(options: ClosePeriodOptions): Promise<PeriodRecord> {
-    const existing = await this._loadPeriodsCache()
-    this.periodsStrategy.validatePeriodName(options.name, existing)
+    this.assertCanChangePeriods()
+    this.periodsStrategy.validatePeriodName(options.name, await this._loadPeriodsCache())
     if (typeof options.endDate !== 'string' || options.endDate.length === 0) {
       throw new ValidationError('closePeriod: endDate must be a non-empty ISO string.')
     }
-    const anchor = await this.periodsStrategy.chainAnchor(existing)
-    const record: PeriodRecord = {
+    return this.appendPeriod(options.name, (anchor) => ({
       name: options.name,
       kind: 'closed',
       endDate: options.endDate,
@@ -1705,12 +1706,7 @@ export class Vault {
       priorPeriodHash: anchor.priorPeriodHash,
       ...(anchor.priorPeriodName !== undefined && { priorPeriodName: anchor.priorPeriodName }),
       ...(options.dateField !== undefined && { dateField: options.dateField }),
-    }
-    const envelope = await this._writePeriodRecord(record)
-    await this.periodsStrategy.appendPeriodLedgerEntry(this.getLedgerOrNull(), this.keyring.userId, envelope, record.name)
-    existing.push(record)
-    this.periodCache = existing
-    return record
+    }))
   }
 
   /**
@@ -1731,6 +1727,7 @@ export class Vault {
   async openPeriod<TCollections extends Record<string, Record<string, unknown>>>(
     options: OpenPeriodOptions<TCollections>,
   ): Promise<PeriodRecord> {
+    this.assertCanChangePeriods()
     const existing = await this._loadPeriodsCache()
     this.periodsStrategy.validatePeriodName(options.name, existing)
     const prior = existing.find((p) => p.name === options.fromPeriod)
@@ -1779,8 +1776,7 @@ export class Vault {
       openingCollections.push(collName)
     }
 
-    const anchor = await this.periodsStrategy.chainAnchor(existing)
-    const record: PeriodRecord = {
+    return this.appendPeriod(options.name, (anchor) => ({
       name: options.name,
       kind: 'opened',
       startDate: options.startDate,
@@ -1790,12 +1786,7 @@ export class Vault {
       priorPeriodHash: anchor.priorPeriodHash,
       priorPeriodName: anchor.priorPeriodName ?? prior.name,
       ...(openingCollections.length > 0 && { openingCollections }),
-    }
-    const envelope = await this._writePeriodRecord(record)
-    await this.periodsStrategy.appendPeriodLedgerEntry(this.getLedgerOrNull(), this.keyring.userId, envelope, record.name)
-    existing.push(record)
-    this.periodCache = existing
-    return record
+    }))
   }
 
   /** Return every closed / opened period in `closedAt` order. */
@@ -1817,26 +1808,50 @@ export class Vault {
     // Fast path: nothing to check, and no periods ever touched this
     // vault — avoid a full adapter scan for every put.
     if (existing === null && incoming === null) return
-    if (this.periodCache === null) {
-      this.periodCache = await this.periodsStrategy.loadPeriods(
-        this.adapter,
-        this.name,
-        (env) => this._decryptPeriodRecord(env),
-      )
-    }
-    if (this.periodCache.length === 0) return
-    this.periodsStrategy.assertTsWritable(existing, incoming, this.periodCache)
+    const periods = await this._loadPeriodsCache()
+    if (periods.length === 0) return
+    this.periodsStrategy.assertTsWritable(existing, incoming, periods)
   }
 
   private async _loadPeriodsCache(): Promise<PeriodRecord[]> {
     if (this.periodCache !== null) return this.periodCache
-    const loaded = await this.periodsStrategy.loadPeriods(
+    // Loaded once: a slower second load must not replace the list that a
+    // period closed meanwhile was added to.
+    const loading = this.periodsLoading ??= this.periodsStrategy.loadPeriods(
       this.adapter,
       this.name,
       (env: EncryptedEnvelope) => this._decryptPeriodRecord(env),
     )
-    this.periodCache = loaded
-    return loaded
+    try {
+      const loaded = await loading
+      if (this.periodsLoading === loading) this.periodCache = loaded
+      return loaded
+    } finally {
+      if (this.periodsLoading === loading) this.periodsLoading = null
+    }
+  }
+
+  private assertCanChangePeriods(): void {
+    if (this.keyring.role === 'viewer' || this.keyring.role === 'client') throw new ReadOnlyError()
+  }
+
+  /** Store a new period. One at a time, since each chains to the previous one. */
+  private appendPeriod(
+    name: string,
+    build: (anchor: { priorPeriodName?: string; priorPeriodHash: string }) => PeriodRecord,
+  ): Promise<PeriodRecord> {
+    const done = this.periodLock.then(async () => {
+      const existing = await this._loadPeriodsCache()
+      this.periodsStrategy.validatePeriodName(name, existing)
+      const record = build(await this.periodsStrategy.chainAnchor(existing))
+      const envelope = await this._writePeriodRecord(record)
+      await this.periodsStrategy.appendPeriodLedgerEntry(this.getLedgerOrNull(), this.keyring.userId, envelope, record.name)
+      existing.push(record)
+      this.periodCache = existing
+      return record
+    })
+    this.periodLock = done.then(() => undefined, () => undefined)
+    return done
   }
 
   private async _writePeriodRecord(record: PeriodRecord): Promise<EncryptedEnvelope> {
@@ -2159,6 +2174,7 @@ export class Vault {
     this.collectionCache.clear()
     this.dictionaryCache.clear()
     this.periodCache = null
+    this.periodsLoading = null
     this.ledgerStore = null
 
     // 5. Run the verification gate. Legacy backups (no ledgerHead)
-- 
2.43.0


From c8e0bb34fcfceae1689ca5c0b99520f3595ba43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:48 +0000
Subject: [PATCH 042/113] fix: count overlapping PIN attempts against the
 attempt limit

---
 packages/on-pin/src/index.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/on-pin/src/index.ts b/packages/on-pin/src/index.ts
index 676d168..aaf1275 100644
--- a/packages/on-pin/src/index.ts
+++ b/packages/on-pin/src/index.ts
@@ -242,11 +242,15 @@ export async function resumePin(
       ciphertext as BufferSource,
     )
   } catch {
+    // Overlapping calls may have used up the attempts while this one was
+    // deriving its key; the answer to a guess past the cap stays hidden.
+    if (state.attempts >= state.maxAttempts) throw new PinAttemptsExceededError()
     // AES-GCM auth failure. Increment the attempts counter before
     // throwing so repeated wrong PINs progressively lock the state.
     state.attempts = state.attempts + 1
     throw new PinInvalidError()
   }
+  if (state.attempts >= state.maxAttempts) throw new PinAttemptsExceededError()
 
   return deserializeKeyring(new Uint8Array(plaintext))
 }
-- 
2.43.0


From d7670ab2308906e64443825a42dfe6e84e1d66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:48 +0000
Subject: [PATCH 043/113] fix: keep a wiped lockout state locked

---
 packages/on-threat/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/on-threat/src/index.ts b/packages/on-threat/src/index.ts
index a710397..ce0b92e 100644
--- a/packages/on-threat/src/index.ts
+++ b/packages/on-threat/src/index.ts
@@ -91,6 +91,9 @@ export function recordFailure(state: LockoutState, config: LockoutConfig = {}):
   const cooldownMs = config.cooldownMs ?? 5 * 60 * 1000
   const maxStrikes = config.maxStrikes ?? 3
 
+  // Wipe is terminal: neither a later window nor a success reopens it.
+  if (state.wiped) return { locked: true, wipe: true }
+
   const now = new Date()
   const nowMs = now.getTime()
 
-- 
2.43.0


From 9744af1a2176cba681e9703e0695bce023c3c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 044/113] fix: compare delegation expiry as instants

---
 packages/hub/src/team/delegation.ts       | 4 ++--
 packages/hub/src/team/magic-link-grant.ts | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/team/delegation.ts b/packages/hub/src/team/delegation.ts
index 20a128b..c6d6f85 100644
--- a/packages/hub/src/team/delegation.ts
+++ b/packages/hub/src/team/delegation.ts
@@ -147,7 +147,6 @@ export async function loadActiveDelegations(
 ): Promise<DelegationToken[]> {
   const ids = await store.list(vault, DELEGATIONS_COLLECTION)
   const merged: DelegationToken[] = []
-  const nowIso = now.toISOString()
   for (const id of ids) {
     const env = await store.get(vault, DELEGATIONS_COLLECTION, id)
     if (!env) continue
@@ -159,7 +158,8 @@ export async function loadActiveDelegations(
       continue
     }
     if (token.toUser !== user.userId) continue
-    if (token.until <= nowIso) continue
+    // Compare instants: a caller-supplied `until` may carry a zone offset.
+    if (!(Date.parse(token.until) > now.getTime())) continue
 
     let dek: CryptoKey
     try {
diff --git a/packages/hub/src/team/magic-link-grant.ts b/packages/hub/src/team/magic-link-grant.ts
index 1f54a05..9a2acd9 100644
--- a/packages/hub/src/team/magic-link-grant.ts
+++ b/packages/hub/src/team/magic-link-grant.ts
@@ -294,5 +294,6 @@ export function isMagicLinkGrantExpired(
   payload: MagicLinkGrantPayload,
   now: Date = new Date(),
 ): boolean {
-  return payload.until <= now.toISOString()
+  // Compare instants: a caller-supplied `until` may carry a zone offset.
+  return !(Date.parse(payload.until) > now.getTime())
 }
-- 
2.43.0


From bf64e19578c51d2226178b2b71467205f6b0f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 045/113] fix: keep the earlier device secret when an OIDC
 enrolment is refused

---
 packages/on-oidc/src/index.ts | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/packages/on-oidc/src/index.ts b/packages/on-oidc/src/index.ts
index dda136d..371b89a 100644
--- a/packages/on-oidc/src/index.ts
+++ b/packages/on-oidc/src/index.ts
@@ -377,7 +377,6 @@ export async function enrollOidc(
   // Generate a device secret and derive the device half
   const deviceSecret = globalThis.crypto.getRandomValues(new Uint8Array(32))
   const deviceKeyId = bufferToBase64(globalThis.crypto.getRandomValues(new Uint8Array(16)))
-  saveDeviceSecret(claims.sub, deviceSecret, options.storage)
 
   // Pad payload to the next 16-byte boundary to avoid leaking length
   const padLen = (16 - (payloadBytes.length % 16)) % 16
@@ -397,12 +396,20 @@ export async function enrollOidc(
     serverHalf as Uint8Array<ArrayBuffer>,
   )
 
-  await putServerHalf(
-    config.keyConnectorUrl,
-    idToken,
-    bufferToBase64(encryptedServerHalf),
-    bufferToBase64(iv),
-  )
+  // An enrollment the key-connector refuses must leave an earlier one usable.
+  const earlierSecret = getDeviceSecret(claims.sub, options.storage)
+  saveDeviceSecret(claims.sub, deviceSecret, options.storage)
+  try {
+    await putServerHalf(
+      config.keyConnectorUrl,
+      idToken,
+      bufferToBase64(encryptedServerHalf),
+      bufferToBase64(iv),
+    )
+  } catch (err) {
+    if (earlierSecret) saveDeviceSecret(claims.sub, earlierSecret, options.storage)
+    throw err
+  }
 
   return {
     _noydb_oidc: 1,
-- 
2.43.0


From 79aa84ca6e44e834870bd162328ddd53cc3c726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:05 +0000
Subject: [PATCH 046/113] fix: free the elevation slot once its time is up or
 its audit entry cannot be written

---
 packages/hub/src/vault.ts | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 69b64c9..eef4bbb 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -1543,7 +1543,7 @@ export class Vault {
     if (typeof options.ttlMs !== 'number' || options.ttlMs <= 0) {
       throw new ValidationError('elevate: ttlMs must be a positive number')
     }
-    if (this.activeElevation) {
+    if (this.activeElevation && Date.now() <= this.activeElevation.expiresAt) {
       throw new AlreadyElevatedError(this.activeElevation.tier)
     }
     // Construction-time tier-reach check: scan keyring for any
@@ -1579,14 +1579,19 @@ export class Vault {
     })
 
     this.activeElevation = { tier, expiresAt, reason, handle }
-    await this.writeElevationAudit({
-      actor: this.keyring.userId,
-      tier,
-      reason,
-      ttlMs: options.ttlMs,
-      startedAt: startedAt.toISOString(),
-      expiresAt: new Date(expiresAt).toISOString(),
-    })
+    try {
+      await this.writeElevationAudit({
+        actor: this.keyring.userId,
+        tier,
+        reason,
+        ttlMs: options.ttlMs,
+        startedAt: startedAt.toISOString(),
+        expiresAt: new Date(expiresAt).toISOString(),
+      })
+    } catch (err) {
+      await handle.release()
+      throw err
+    }
     return handle
   }
 
-- 
2.43.0


From 8eb675dfe539523e7b17c790e12964c95390f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:05 +0000
Subject: [PATCH 047/113] fix: keep collections usable and backups valid when
 records move between tiers

---
 packages/hub/src/collection.ts           | 114 +++++++++++++++++++----
 packages/hub/src/history/time-machine.ts |   9 +-
 packages/hub/src/vault.ts                |   2 +-
 3 files changed, 102 insertions(+), 23 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index daa9851..c249bc6 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -83,6 +83,11 @@ export interface CacheStats extends LruStats {
  * warning. We only emit once per adapter per process so consumers see the
  * heads-up without log spam.
  */
+/** True for a record stored above tier 0, which the plain read paths do not see. */
+function isTiered(envelope: EncryptedEnvelope): boolean {
+  return (envelope._tier ?? 0) > 0
+}
+
 const fallbackWarned = new Set<string>()
 function warnOnceFallback(adapterName: string): void {
   if (fallbackWarned.has(adapterName)) return
@@ -830,7 +835,7 @@ export class Collection<T> {
         const lru = this.lru
         record = await this.withIdLock(id, async () => {
           const envelope = await this.adapter.get(this.vault, this.name, id)
-          if (!envelope) return null
+          if (!envelope || isTiered(envelope)) return null
           const fresh = await this.decryptRecord(envelope)
           lru.set(id, { record: fresh, version: envelope._v }, estimateRecordBytes(fresh))
           return fresh
@@ -1112,7 +1117,7 @@ export class Collection<T> {
       existing = this.lru.get(id)
       if (!existing) {
         const previousEnvelope = await this.adapter.get(this.vault, this.name, id)
-        if (previousEnvelope) {
+        if (previousEnvelope && !isTiered(previousEnvelope)) {
           const previousRecord = await this.decryptRecord(previousEnvelope)
           existing = { record: previousRecord, version: previousEnvelope._v }
         }
@@ -1301,7 +1306,7 @@ export class Collection<T> {
     for (const id of await this.adapter.list(this.vault, this.name)) {
       if (decodeIdxId(id)) continue
       const envelope = await this.adapter.get(this.vault, this.name, id)
-      if (envelope) out.push([id, await this.decryptRecord(envelope, { skipValidation: true })])
+      if (envelope && !isTiered(envelope)) out.push([id, await this.decryptRecord(envelope, { skipValidation: true })])
     }
     return out
   }
@@ -1320,7 +1325,7 @@ export class Collection<T> {
 
     // As in writeRecord(), the previous state is taken from the stored envelope.
     const stored = await this.adapter.get(this.vault, this.name, id)
-    if (stored && (existing ? stored._v === existing.version : this.lazy)) {
+    if (stored && !isTiered(stored) && (existing ? stored._v === existing.version : this.lazy)) {
       existing = { record: await this.decryptRecord(stored, { skipValidation: true }), version: stored._v }
     }
 
@@ -1484,21 +1489,21 @@ export class Collection<T> {
       const current = await this.adapter.get(this.vault, this.name, id)
       if (seen !== undefined && (current?._data !== seen?._data || current?._v !== seen?._v)) return false
       if (current?._data === prior?._data && current?._v === prior?._v) return true
-      const currentRecord = current ? await this.decryptRecord(current, { skipValidation: true }) : null
-      const priorRecord = prior ? await this.decryptRecord(prior, { skipValidation: true }) : null
+      const currentRecord = current && !isTiered(current) ? await this.decryptRecord(current, { skipValidation: true }) : null
+      const priorRecord = prior && !isTiered(prior) ? await this.decryptRecord(prior, { skipValidation: true }) : null
 
       if (prior) await this.adapter.put(this.vault, this.name, id, prior)
       else await this.adapter.delete(this.vault, this.name, id)
 
       if (this.lazy && this.lru) {
         this.lru.remove(id)
-        if (prior) await this.maintainPersistedIndexesOnPut(id, priorRecord as T, currentRecord, prior._v)
-        else await this.maintainPersistedIndexesOnDelete(id, currentRecord as T)
+        if (prior && priorRecord !== null) await this.maintainPersistedIndexesOnPut(id, priorRecord, currentRecord, prior._v)
+        else if (currentRecord !== null) await this.maintainPersistedIndexesOnDelete(id, currentRecord)
       } else if (this.hydrated) {
         const cached = this.cache.get(id)
-        if (prior) {
-          this.cache.set(id, { record: priorRecord as T, version: prior._v })
-          this.indexes?.upsert(id, priorRecord as T, cached ? cached.record : null)
+        if (prior && priorRecord !== null) {
+          this.cache.set(id, { record: priorRecord, version: prior._v })
+          this.indexes?.upsert(id, priorRecord, cached ? cached.record : null)
         } else {
           this.cache.delete(id)
           if (cached) this.indexes?.remove(id, cached.record)
@@ -1881,7 +1886,7 @@ export class Collection<T> {
       return this.cache.get(id) ?? null
     }
     const envelope = await this.adapter.get(this.vault, this.name, id)
-    if (!envelope) return null
+    if (!envelope || isTiered(envelope)) return null
     return { record: await this.decryptRecord(envelope, { skipValidation: true }), version: envelope._v }
   }
 
@@ -1974,7 +1979,7 @@ export class Collection<T> {
     for (let i = start; i < end; i++) {
       const id = ids[i]!
       const envelope = await this.adapter.get(this.vault, this.name, id)
-      if (envelope) {
+      if (envelope && !isTiered(envelope)) {
         const record = await this.decryptRecord(envelope)
         items.push(record)
       }
@@ -2060,7 +2065,7 @@ export class Collection<T> {
   ): Promise<Array<{ id: string; record: T; version: number }>> {
     const out: Array<{ id: string; record: T; version: number }> = []
     for (const { id, envelope } of items) {
-      if (decodeIdxId(id)) continue
+      if (decodeIdxId(id) || isTiered(envelope)) continue
       const record = await this.decryptRecord(envelope)
       out.push({ id, record, version: envelope._v })
     }
@@ -2081,7 +2086,7 @@ export class Collection<T> {
     for (const id of ids) {
       if (decodeIdxId(id)) continue
       const envelope = await this.adapter.get(this.vault, this.name, id)
-      if (envelope) {
+      if (envelope && !isTiered(envelope)) {
         const record = await this.decryptRecord(envelope)
         this.cache.set(id, { record, version: envelope._v })
       }
@@ -2093,7 +2098,7 @@ export class Collection<T> {
   /** Hydrate from a pre-loaded snapshot (used by Vault). */
   async hydrateFromSnapshot(records: Record<string, EncryptedEnvelope>): Promise<void> {
     for (const [id, envelope] of Object.entries(records)) {
-      if (decodeIdxId(id)) continue
+      if (decodeIdxId(id) || isTiered(envelope)) continue
       const record = await this.decryptRecord(envelope)
       this.cache.set(id, { record, version: envelope._v })
     }
@@ -2179,7 +2184,7 @@ export class Collection<T> {
     // 3. Walk records and write fresh side-cars for every declared field.
     for (const recordId of canonicalIds) {
       const envelope = await this.adapter.get(this.vault, this.name, recordId)
-      if (!envelope) continue
+      if (!envelope || isTiered(envelope)) continue
       const record = await this.decryptRecord(envelope, { skipValidation: true })
       await this.maintainPersistedIndexesOnPut(recordId, record, null, envelope._v)
     }
@@ -2260,7 +2265,7 @@ export class Collection<T> {
       if (decodeIdxId(id)) continue
       if (id.startsWith('_')) continue
       const env = await this.adapter.get(this.vault, this.name, id)
-      if (!env) continue
+      if (!env || isTiered(env)) continue
       const record = await this.decryptRecord(env, { skipValidation: true })
       const live = extractIndexValue(record as unknown as Record<string, unknown>, def)
       const stored = sidecar.get(id)
@@ -2860,7 +2865,16 @@ export class Collection<T> {
     assertTierAccess(this.keyring, this.name, tier)
     this.assertWritable()
     await this.assertPeriodOpen(id, record)
+    await this.withIdLock(id, () => this.writeAtTier(id, record, tier, opts))
+  }
 
+  /** Persist a record at a tier the caller is cleared for. Caller holds the id lock. */
+  private async writeAtTier(
+    id: string,
+    record: T,
+    tier: number,
+    opts?: { elevation?: { reason: string; fromTier: number } },
+  ): Promise<void> {
     const key = dekKey(this.name, tier)
     const dek = await this.getDEK(key)
 
@@ -2879,6 +2893,7 @@ export class Collection<T> {
     }
 
     await this.adapter.put(this.vault, this.name, id, envelope)
+    await this.afterTierWrite(id, existing, envelope)
 
     if (tier > 0) {
       this.emitCrossTierEvent({
@@ -2953,6 +2968,7 @@ export class Collection<T> {
     const ids = await this.adapter.list(this.vault, this.name)
     const out: Array<{ id: string; tier: number; readable: boolean }> = []
     for (const id of ids) {
+      if (decodeIdxId(id)) continue
       const env = await this.adapter.get(this.vault, this.name, id)
       if (!env) continue
       const tier = env._tier ?? 0
@@ -2971,6 +2987,10 @@ export class Collection<T> {
    * the reverse operation.
    */
   async elevate(id: string, toTier: number): Promise<void> {
+    await this.withIdLock(id, () => this.elevateLocked(id, toTier))
+  }
+
+  private async elevateLocked(id: string, toTier: number): Promise<void> {
     this.assertTiersEnabled()
     this.assertDeclaredTier(toTier)
     assertTierAccess(this.keyring, this.name, toTier)
@@ -3006,6 +3026,7 @@ export class Collection<T> {
       _elevatedBy: this.keyring.userId,
     }
     await this.adapter.put(this.vault, this.name, id, next)
+    await this.afterTierWrite(id, envelope, next)
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
@@ -3023,6 +3044,10 @@ export class Collection<T> {
    * the user who performed the last elevation or an owner.
    */
   async demote(id: string, toTier: number): Promise<void> {
+    await this.withIdLock(id, () => this.demoteLocked(id, toTier))
+  }
+
+  private async demoteLocked(id: string, toTier: number): Promise<void> {
     this.assertTiersEnabled()
     if (toTier < 0) throw new Error(`Cannot demote to negative tier ${toTier}`)
 
@@ -3060,6 +3085,7 @@ export class Collection<T> {
       ...(toTier > 0 && { _tier: toTier }),
     }
     await this.adapter.put(this.vault, this.name, id, next)
+    await this.afterTierWrite(id, envelope, next)
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
@@ -3072,6 +3098,58 @@ export class Collection<T> {
     })
   }
 
+  /**
+   * What every record write does after the store took it: the ledger entry
+   * (without a delta, which holders of lower tiers could read), the cache and
+   * the indexes, which cover tier-0 records only, and the dirty mark.
+   */
+  private async afterTierWrite(
+    id: string,
+    previous: EncryptedEnvelope | null,
+    next: EncryptedEnvelope,
+  ): Promise<void> {
+    if (this.ledger) {
+      await this.ledger.append({
+        op: 'put',
+        collection: this.name,
+        id,
+        version: next._v,
+        actor: this.keyring.userId,
+        payloadHash: await this.historyStrategy.envelopePayloadHash(next),
+      })
+    }
+    await this.refreshAfterTierWrite(id, previous, next)
+    await this.onDirty?.(this.name, id, 'put', next._v)
+  }
+
+  private async refreshAfterTierWrite(
+    id: string,
+    previous: EncryptedEnvelope | null,
+    next: EncryptedEnvelope,
+  ): Promise<void> {
+    const open = async (envelope: EncryptedEnvelope | null): Promise<T | null> =>
+      envelope && !isTiered(envelope)
+        ? this.decryptRecord(envelope, { skipValidation: true }).catch(() => null)
+        : null
+    const before = await open(previous)
+    const after = await open(next)
+    if (this.lazy && this.lru) {
+      this.lru.remove(id)
+      if (after !== null) await this.maintainPersistedIndexesOnPut(id, after, before, next._v)
+      else if (before !== null) await this.maintainPersistedIndexesOnDelete(id, before)
+      return
+    }
+    await this.hydrating?.catch(() => undefined)
+    if (!this.hydrated) return
+    if (after !== null) {
+      this.cache.set(id, { record: after, version: next._v })
+      this.indexes?.upsert(id, after, before)
+    } else {
+      this.cache.delete(id)
+      if (before !== null) this.indexes?.remove(id, before)
+    }
+  }
+
   private isElevatorOrOwner(): boolean {
     return this.keyring.role === 'owner' || this.keyring.role === 'admin'
   }
diff --git a/packages/hub/src/history/time-machine.ts b/packages/hub/src/history/time-machine.ts
index 24a03d0..9bb1bd1 100644
--- a/packages/hub/src/history/time-machine.ts
+++ b/packages/hub/src/history/time-machine.ts
@@ -216,10 +216,11 @@ export class CollectionInstant<T = unknown> {
    */
   private async resolveEnvelope(id: string): Promise<EncryptedEnvelope | null> {
     const ledger = this.engine.getLedger()
-    if (ledger) {
-      return this.resolveViaLedger(id, ledger)
-    }
-    return this.resolveViaEnvelopeTs(id)
+    const envelope = ledger
+      ? await this.resolveViaLedger(id, ledger)
+      : await this.resolveViaEnvelopeTs(id)
+    // Plain reads do not see records above tier 0.
+    return (envelope?._tier ?? 0) > 0 ? null : envelope
   }
 
   private async resolveViaLedger(id: string, ledger: LedgerStore): Promise<EncryptedEnvelope | null> {
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index eef4bbb..6e66a82 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -1200,7 +1200,7 @@ export class Vault {
     next: EncryptedEnvelope,
   ): Promise<boolean> {
     const coll = this.collectionCache.get(collectionName)
-    if (coll && !next._tier && !seen?._tier) return coll._replace(id, seen, next)
+    if (coll) return coll._replace(id, seen, next)
     const current = await this.adapter.get(this.name, collectionName, id)
     if (current?._data !== seen?._data || current?._v !== seen?._v) return false
     await this.adapter.put(this.name, collectionName, id, next)
-- 
2.43.0


From 284260da15599a3b022e28e5ae9724e65ab9d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:03 +0000
Subject: [PATCH 048/113] fix: do not create a tier key while looking up the
 record a write replaces

---
 packages/hub/src/collection.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index c249bc6..0def9f0 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1269,10 +1269,10 @@ export class Collection<T> {
     let priorRecord: Record<string, unknown> | null = null
     if (existingEnv) {
       try {
-        const tier = existingEnv._tier ?? 0
-        priorRecord = (tier > 0
-          ? JSON.parse(await decrypt(existingEnv._iv, existingEnv._data, await this.getDEK(dekKey(this.name, tier))))
-          : await this.decryptRecord(existingEnv, { skipValidation: true })) as Record<string, unknown>
+        const tierDek = this.keyring.deks.get(dekKey(this.name, existingEnv._tier ?? 0))
+        priorRecord = (isTiered(existingEnv)
+          ? tierDek && JSON.parse(await decrypt(existingEnv._iv, existingEnv._data, tierDek))
+          : await this.decryptRecord(existingEnv, { skipValidation: true })) as Record<string, unknown> | null ?? null
       } catch {
         priorRecord = null
       }
-- 
2.43.0


From ed0e6e5700d56a6ab911c6b2217c43aa68849c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:17 +0000
Subject: [PATCH 049/113] fix: demoting a record requires the key of the tier
 it moves to

---
 packages/hub/src/collection.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 0def9f0..b1714b5 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -3067,6 +3067,7 @@ export class Collection<T> {
     // Caller must still hold the DEK of the current tier to decrypt.
     assertTierAccess(this.keyring, this.name, fromTier)
     if (toTier > 0) this.assertDeclaredTier(toTier)
+    assertTierAccess(this.keyring, this.name, toTier)
     await this.assertPeriodOpen(id, null)
 
     const fromDek = await this.getDEK(dekKey(this.name, fromTier))
-- 
2.43.0


From c91bcd51db337a8ef72a337fffdc68bc55c582c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:36 +0000
Subject: [PATCH 050/113] fix: listing accessible vaults keeps the keyring of
 an open vault

---
 packages/hub/src/noydb.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index aa88f14..1c69b92 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -541,7 +541,8 @@ export class Noydb {
       // Opportunistically prime the keyring cache so a subsequent
       // openVault() doesn't have to re-derive the KEK. The cost
       // is one Map.set per vault we already paid to unwrap.
-      this.keyringCache.set(vault, keyring)
+      // An open vault keeps sharing the keyring it was opened with.
+      if (!this.keyringCache.has(vault)) this.keyringCache.set(vault, keyring)
     }
 
     return accessible
-- 
2.43.0


From 9aba2ae2e1874a3082770816713c0c57d7fd7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:50:08 +0000
Subject: [PATCH 051/113] fix: overlapping openVault calls share one vault and
 one keyring

---
 packages/hub/src/noydb.ts | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 1c69b92..d0358a9 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -77,6 +77,8 @@ export class Noydb {
   private readonly emitter = new NoydbEventEmitter()
   private readonly vaultCache = new Map<string, Vault>()
   private readonly keyringCache = new Map<string, UnlockedKeyring>()
+  /** Keyrings being loaded or created, shared by overlapping callers. */
+  private readonly keyringLoads = new Map<string, Promise<UnlockedKeyring>>()
   private readonly syncEngines = new Map<string, SyncEngine>()
   private closed = false
   private sessionTimer: ReturnType<typeof setTimeout> | null = null
@@ -191,6 +193,13 @@ export class Noydb {
 
     const keyring = await this.getKeyring(name)
 
+    // An overlapping call may have opened the vault meanwhile.
+    comp = this.vaultCache.get(name)
+    if (comp) {
+      if (opts?.locale !== undefined) comp.setLocale(opts.locale)
+      return comp
+    }
+
     // Set up sync engine(s) — handles bare NoydbStore, SyncTarget, or SyncTarget[]
     let syncEngine: SyncEngine | undefined
     const targets = normalizeSyncTargets(this.options.sync)
@@ -896,6 +905,15 @@ export class Noydb {
     const cached = this.keyringCache.get(vault)
     if (cached) return cached
 
+    let load = this.keyringLoads.get(vault)
+    if (!load) {
+      load = this.loadOrCreateKeyring(vault).finally(() => this.keyringLoads.delete(vault))
+      this.keyringLoads.set(vault, load)
+    }
+    return load
+  }
+
+  private async loadOrCreateKeyring(vault: string): Promise<UnlockedKeyring> {
     if (!this.options.secret) {
       throw new ValidationError('A secret (passphrase) is required when encryption is enabled')
     }
@@ -915,6 +933,8 @@ export class Noydb {
       }
     }
 
+    const primed = this.keyringCache.get(vault)
+    if (primed) return primed
     this.keyringCache.set(vault, keyring)
     return keyring
   }
-- 
2.43.0


From 36bf0bbf28f2fdef2630ffc2a1c451155cc60f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:09 +0000
Subject: [PATCH 052/113] fix: vault names containing :: do not share sync
 state with another vault

---
 packages/hub/src/noydb.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index d0358a9..f4c1b49 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -225,9 +225,10 @@ export class Noydb {
       // Additional targets get their own engines (backup/archive are push-only)
       for (const target of targets) {
         if (target === primary) continue
-        const base = `${name}::${target.label ?? target.role}`
-        let key = base
-        for (let n = 2; this.syncEngines.has(key); n++) key = `${base}#${n}`
+        // NUL keeps the key apart from that of a vault named `${name}::…`.
+        const base = `::${target.label ?? target.role}`
+        let suffix = base
+        for (let n = 2; this.syncEngines.has(`${name}\0${suffix}`); n++) suffix = `${base}#${n}`
         const targetPolicy = target.policy ?? this.options.syncPolicy ?? INDEXED_STORE_POLICY
         const engine = this.syncStrategy.buildSyncEngine({
           local: this.options.store,
@@ -237,11 +238,11 @@ export class Noydb {
           emitter: this.emitter,
           syncPolicy: targetPolicy,
           role: target.role,
-          metaId: `meta${key.slice(name.length)}`,
+          metaId: `meta${suffix}`,
           replaceStored,
           ...(target.label !== undefined ? { label: target.label } : {}),
         })
-        this.syncEngines.set(key, engine)
+        this.syncEngines.set(`${name}\0${suffix}`, engine)
       }
     }
 
@@ -257,7 +258,7 @@ export class Noydb {
             // Fan out dirty tracking to all sync engines for this vault
             const tracked: Array<Promise<void>> = []
             for (const [key, engine] of this.syncEngines) {
-              if (key === name || key.startsWith(`${name}::`)) {
+              if (key === name || key.startsWith(`${name}\0`)) {
                 tracked.push(engine.trackChange(coll, id, action, version))
               }
             }
@@ -710,7 +711,7 @@ export class Noydb {
     // Fan out push to backup/archive targets (fire-and-mark-dirty)
     for (const [key, engine] of this.syncEngines) {
       if (key === vault) continue
-      if (!key.startsWith(`${vault}::`)) continue
+      if (!key.startsWith(`${vault}\0`)) continue
       if (engine.role === 'sync-peer') {
         await engine.sync(options).catch((err: Error) => {
           this.emitter.emit('sync:backup-error', {
-- 
2.43.0


From 93f3c650de7034a980d4cfeee0370fa525260f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:46 +0000
Subject: [PATCH 053/113] fix: an expired keyring does not stop the listing of
 accessible vaults

---
 packages/hub/src/noydb.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index f4c1b49..cc28dcf 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -20,7 +20,7 @@ import type {
   ReAuthOperation,
   TranslatorAuditEntry,
 } from './types.js'
-import { ValidationError, NoAccessError, InvalidKeyError, StoreCapabilityError, PermissionDeniedError } from './errors.js'
+import { ValidationError, NoAccessError, InvalidKeyError, KeyringExpiredError, StoreCapabilityError, PermissionDeniedError } from './errors.js'
 import { Vault } from './vault.js'
 import { NoydbEventEmitter } from './events.js'
 import {
@@ -539,7 +539,11 @@ export class Noydb {
           this.options.secret,
         )
       } catch (err) {
-        if (err instanceof NoAccessError || err instanceof InvalidKeyError) {
+        if (
+          err instanceof NoAccessError ||
+          err instanceof InvalidKeyError ||
+          err instanceof KeyringExpiredError
+        ) {
           continue // silent: caller has no key material for this vault
         }
         throw err // unexpected error — surface it
-- 
2.43.0


From 8a3ded12b3cf19dc9d599033d580bd23bd8ee572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:14 +0000
Subject: [PATCH 054/113] fix: a session that changed its passphrase can
 restore and list its vaults

---
 packages/hub/src/noydb.ts | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index cc28dcf..9893f4a 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -79,6 +79,8 @@ export class Noydb {
   private readonly keyringCache = new Map<string, UnlockedKeyring>()
   /** Keyrings being loaded or created, shared by overlapping callers. */
   private readonly keyringLoads = new Map<string, Promise<UnlockedKeyring>>()
+  /** Passphrases set by `changeSecret` in this session, by vault. */
+  private readonly changedSecrets = new Map<string, string>()
   private readonly syncEngines = new Map<string, SyncEngine>()
   private closed = false
   private sessionTimer: ReturnType<typeof setTimeout> | null = null
@@ -299,12 +301,7 @@ export class Noydb {
               // cache so subsequent openVault calls see the
               // refreshed keyring too.
               this.keyringCache.delete(name)
-              const refreshed = await loadKeyring(
-                this.options.store,
-                name,
-                this.options.user,
-                this.options.secret as string,
-              )
+              const refreshed = await this.unlockKeyring(name, this.options.secret as string)
               this.keyringCache.set(name, refreshed)
               return refreshed
             }
@@ -532,12 +529,7 @@ export class Noydb {
       // return value never leaks existence.
       let keyring: UnlockedKeyring
       try {
-        keyring = await loadKeyring(
-          adapter,
-          vault,
-          this.options.user,
-          this.options.secret,
-        )
+        keyring = await this.unlockKeyring(vault, this.options.secret)
       } catch (err) {
         if (
           err instanceof NoAccessError ||
@@ -686,6 +678,7 @@ export class Noydb {
     // Open vaults share this keyring object: left with the old KEK, the next
     // key they persist would be wrapped under the old passphrase again.
     Object.assign(keyring, { kek: updated.kek, salt: updated.salt })
+    this.changedSecrets.set(vault, newPassphrase)
   }
 
   // ─── Sync ──────────────────────────────────────────────────────
@@ -836,6 +829,7 @@ export class Noydb {
     }
     this.syncEngines.clear()
     this.keyringCache.clear()
+    this.changedSecrets.clear()
     this.vaultCache.clear()
     this.emitter.removeAllListeners()
     // Clear translator state — same lifetime as KEK/DEKs
@@ -901,6 +895,21 @@ export class Noydb {
     return result
   }
 
+  /** Unlock the stored keyring with the passphrase set by `changeSecret`, else with `secret`. */
+  private async unlockKeyring(vault: string, secret: string): Promise<UnlockedKeyring> {
+    const { store, user } = this.options
+    const changed = this.changedSecrets.get(vault)
+    if (changed !== undefined) {
+      try {
+        return await loadKeyring(store, vault, user, changed)
+      } catch (err) {
+        // A restored backup may predate the change.
+        if (!(err instanceof InvalidKeyError)) throw err
+      }
+    }
+    return loadKeyring(store, vault, user, secret)
+  }
+
   /** Get or load the keyring for a vault. */
   private async getKeyring(vault: string): Promise<UnlockedKeyring> {
     if (this.options.encrypt === false) {
@@ -925,7 +934,7 @@ export class Noydb {
 
     let keyring: UnlockedKeyring
     try {
-      keyring = await loadKeyring(this.options.store, vault, this.options.user, this.options.secret)
+      keyring = await this.unlockKeyring(vault, this.options.secret)
     } catch (err) {
       // Only create a new keyring if no keyring exists (NoAccessError).
       // If the keyring exists but the passphrase is wrong (InvalidKeyError), propagate the error.
-- 
2.43.0


From ca7a0d68ccca349a8db8aaa6655cf03b01e62e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:10 +0000
Subject: [PATCH 055/113] fix: the vault's default locale applies to list and
 can be changed while open

Exports, lazy queries and dictionary renames read the stored values.
---
 packages/hub/src/blobs/export-blobs.ts |  2 +-
 packages/hub/src/collection.ts         | 10 +++++-----
 packages/hub/src/vault.ts              | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/packages/hub/src/blobs/export-blobs.ts b/packages/hub/src/blobs/export-blobs.ts
index e58ada3..2228ae2 100644
--- a/packages/hub/src/blobs/export-blobs.ts
+++ b/packages/hub/src/blobs/export-blobs.ts
@@ -187,7 +187,7 @@ export function createExportBlobsHandle(
       for (const id of await listRecordIds(collectionName)) {
         assertLive()
 
-        const record = await coll.get(id).catch(() => null)
+        const record = await coll.get(id, { locale: 'raw' }).catch(() => null)
         if (record === null) continue
 
         if (options.where && !options.where(record, { collection: collectionName, id })) continue
diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index b1714b5..173ff2c 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -236,7 +236,7 @@ export class Collection<T> {
    * `undefined` means "no default locale set" — i18nText fields will
    * throw `LocaleNotSpecifiedError` unless a per-call locale is passed.
    */
-  private readonly defaultLocale: string | undefined
+  private readonly defaultLocale: (() => string | undefined) | undefined
 
   /**
    * Map of field name → `I18nTextDescriptor` for fields declared with
@@ -553,7 +553,7 @@ export class Collection<T> {
      * vault-default locale, inherited from
      * `openVault(name, { locale })` or `vault.setLocale()`.
      */
-    defaultLocale?: string | undefined
+    defaultLocale?: (() => string | undefined) | undefined
     /**
      * collection-level conflict resolution policy.
      * Overrides the db-level `conflict` option for this collection only.
@@ -1409,7 +1409,7 @@ export class Collection<T> {
     }
     await this.ensureHydrated()
     const records = [...this.cache.values()].map(e => e.record)
-    if (!locale) return records
+    if (!locale && !this.defaultLocale?.()) return records
     return Promise.all(records.map(r => this.applyLocaleToRecord(r, locale)))
   }
 
@@ -2402,7 +2402,7 @@ export class Collection<T> {
     const hasDict = this.dictKeyFields && Object.keys(this.dictKeyFields).length > 0
     if (!hasI18n && !hasDict) return record
 
-    const locale = localeOpts?.locale ?? this.defaultLocale
+    const locale = localeOpts?.locale ?? this.defaultLocale?.()
     if (!locale) return record
 
     let result = record as unknown as Record<string, unknown>
@@ -2692,7 +2692,7 @@ export class Collection<T> {
       collectionName: this.name,
       persistedIndexes: persisted,
       ensurePersistedIndexesLoaded: () => this.ensurePersistedIndexesLoaded(),
-      getRecord: (id: string) => this.get(id),
+      getRecord: (id: string) => this.get(id, { locale: 'raw' }),
     }
     return new LazyQuery<T>(source)
   }
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 6e66a82..39e0f6b 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -474,7 +474,7 @@ export class Vault {
         ledger: this.getLedgerOrNull() ?? undefined,
         refEnforcer: this,
         joinResolver: this,
-        defaultLocale: this.locale,
+        defaultLocale: () => this.locale,
         onRegisterConflictResolver: this.onRegisterConflictResolver,
         onAccess: (op, id) => this._logConsent(op, collectionName, id),
         periodGuard: (existing, incoming) => this._assertTsWritable(existing, incoming),
@@ -624,7 +624,7 @@ export class Vault {
             if (fields.length === 0) continue
 
             const coll = this.collection<Record<string, unknown>>(collectionName)
-            const records = await coll.list()
+            const records = await coll.list({ locale: 'raw' })
             for (const record of records) {
               let changed = false
               const updated = { ...record }
@@ -893,7 +893,7 @@ export class Vault {
       listRecords: (name: string) => this.listRecordIds(name),
       getRecord: async <T>(name: string, id: string) => {
         const coll = this.collection<T>(name)
-        return coll.get(id)
+        return coll.get(id, { locale: 'raw' })
       },
       listSlots: async (name: string, id: string) => {
         const coll = this.collection(name)
@@ -2482,7 +2482,7 @@ export class Vault {
         // and any future cache/index plumbing rides through it.
         const records: unknown[] = []
         for (const id of ids) {
-          const record = await coll.get(id)
+          const record = await coll.get(id, { locale: 'raw' })
           if (record !== null) records.push(record)
         }
         const chunk: ExportChunk = {
@@ -2499,7 +2499,7 @@ export class Vault {
         // The schema/refs metadata is repeated on every chunk so
         // consumers don't have to thread state across yields.
         for (const id of ids) {
-          const record = await coll.get(id)
+          const record = await coll.get(id, { locale: 'raw' })
           if (record === null) continue
           const chunk: ExportChunk = {
             collection: collectionName,
-- 
2.43.0


From 50921a7e34502c8339db8469364f26235fb5f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:21 +0000
Subject: [PATCH 056/113] fix: renaming a dictionary key reaches records of
 every collection

Lazy collections and records without an id field were left out, and
renaming a key to itself deleted it.
---
 packages/hub/src/i18n/dictionary.ts |  1 +
 packages/hub/src/vault.ts           | 10 ++++------
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/hub/src/i18n/dictionary.ts b/packages/hub/src/i18n/dictionary.ts
index 6aa58dd..3fb0163 100644
--- a/packages/hub/src/i18n/dictionary.ts
+++ b/packages/hub/src/i18n/dictionary.ts
@@ -441,6 +441,7 @@ export class DictionaryHandle<Keys extends string = string> {
     if (!existing) {
       throw new DictKeyMissingError(this.dictionaryName, oldKey)
     }
+    if (oldKey === newKey) return
     const oldEntry = await this.decryptEntry(existing)
 
     // 2. Write new key
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 39e0f6b..7d24677 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -624,8 +624,9 @@ export class Vault {
             if (fields.length === 0) continue
 
             const coll = this.collection<Record<string, unknown>>(collectionName)
-            const records = await coll.list({ locale: 'raw' })
-            for (const record of records) {
+            for (const id of await this.listRecordIds(collectionName)) {
+              const record = await coll.get(id, { locale: 'raw' })
+              if (record === null) continue
               let changed = false
               const updated = { ...record }
               for (const field of fields) {
@@ -635,10 +636,7 @@ export class Vault {
                 }
               }
               if (changed) {
-                const id = (record['id'] as string | undefined)
-                if (id !== undefined) {
-                  await coll.put(id, updated)
-                }
+                await coll.put(id, updated)
               }
             }
           }
-- 
2.43.0


From 066d103b3871513370b83edd71c54c108ae0073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:43 +0000
Subject: [PATCH 057/113] fix: auto-translation does not modify the caller's
 record

---
 packages/hub/src/collection.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 173ff2c..90ac6f9 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -974,7 +974,7 @@ export class Collection<T> {
             this.name,
           )
         }
-        ;(record as Record<string, unknown>)[field] = translated
+        record = { ...record, [field]: translated }
       }
     }
 
-- 
2.43.0


From dabb043185891446d0b4a12f6b625a05c6a619b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:52 +0000
Subject: [PATCH 058/113] fix: writableBy of a dictionary holds even if the
 vault opened it first

---
 packages/hub/src/vault.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 7d24677..fca0b81 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -243,6 +243,8 @@ export class Vault {
 
   /** Cache of DictionaryHandle instances, one per dictionary name. */
   private readonly dictionaryCache = new Map<string, DictionaryHandle>()
+  /** Options of each dictionary as last given, shared with its handle. */
+  private readonly dictionaryOptions = new Map<string, DictionaryOptions>()
 
   /** — subscribers for cross-tier access events. */
   private readonly crossTierSubs = new Set<(event: CrossTierAccessEvent) => void>()
@@ -602,6 +604,9 @@ export class Vault {
     name: string,
     options: DictionaryOptions = {},
   ): DictionaryHandle<Keys> {
+    // The vault itself opens handles without options, e.g. to resolve labels.
+    const shared = Object.assign(this.dictionaryOptions.get(name) ?? {}, options)
+    this.dictionaryOptions.set(name, shared)
     let handle = this.dictionaryCache.get(name)
     if (!handle) {
       handle = this.i18nStrategy.buildDictionaryHandle<Keys>({
@@ -612,7 +617,7 @@ export class Vault {
         getDEK: this.getDEK,
         encrypted: this.encrypted,
         ledger: this.getLedgerOrNull() ?? undefined,
-        options,
+        options: shared,
         // findAndUpdateReferences: rewrite dictKey fields in all
         // registered collections when rename() is called
         findAndUpdateReferences: async (dictionaryName, oldKey, newKey) => {
-- 
2.43.0


From cf177edfc97e854a0885c8d078bc406475f0ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:32:37 +0000
Subject: [PATCH 059/113] fix: editing a session token does not extend the
 session

---
 packages/hub/src/session/session.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/session/session.ts b/packages/hub/src/session/session.ts
index 4ec5bfd..3538201 100644
--- a/packages/hub/src/session/session.ts
+++ b/packages/hub/src/session/session.ts
@@ -52,8 +52,15 @@ const subtle = globalThis.crypto.subtle
 // Default session TTL: 60 minutes
 const DEFAULT_TTL_MS = 60 * 60 * 1000
 
-// Module-level session key store. Tab-scoped by construction.
-const sessionKeyStore = new Map<string, CryptoKey>()
+// Module-level session key store. Tab-scoped by construction. The expiry is
+// kept with the key: the token's own `expiresAt` can be edited by its holder.
+const sessionKeyStore = new Map<string, { key: CryptoKey; expiresAt: number }>()
+
+function isExpired(token: SessionToken): boolean {
+  const now = Date.now()
+  const held = sessionKeyStore.get(token.sessionId)
+  return now > new Date(token.expiresAt).getTime() || (held !== undefined && now > held.expiresAt)
+}
 
 // ─── Public types ──────────────────────────────────────────────────────
 
@@ -116,7 +123,8 @@ export async function createSession(
 ): Promise<CreateSessionResult> {
   const ttlMs = options.ttlMs ?? DEFAULT_TTL_MS
   const sessionId = generateULID()
-  const expiresAt = new Date(Date.now() + ttlMs).toISOString()
+  const expiry = Date.now() + ttlMs
+  const expiresAt = new Date(expiry).toISOString()
 
   // Generate a fresh non-extractable session key.
   // AES-256-GCM is used here (rather than AES-KW) because the session key
@@ -179,7 +187,7 @@ export async function createSession(
     kekIv: bufferToBase64(iv),
   }
 
-  sessionKeyStore.set(sessionId, sessionKey)
+  sessionKeyStore.set(sessionId, { key: sessionKey, expiresAt: expiry })
   return { token, sessionId }
 }
 
@@ -197,12 +205,12 @@ export async function createSession(
  */
 export async function resolveSession(token: SessionToken): Promise<UnlockedKeyring> {
   // Expiry check first — fast path without touching crypto
-  if (Date.now() > new Date(token.expiresAt).getTime()) {
+  if (isExpired(token)) {
     sessionKeyStore.delete(token.sessionId)
     throw new SessionExpiredError(token.sessionId)
   }
 
-  const sessionKey = sessionKeyStore.get(token.sessionId)
+  const sessionKey = sessionKeyStore.get(token.sessionId)?.key
   if (!sessionKey) {
     throw new SessionNotFoundError(token.sessionId)
   }
@@ -271,7 +279,7 @@ export function revokeSession(sessionId: string): void {
  * Does not decrypt anything — purely a metadata check.
  */
 export function isSessionAlive(token: SessionToken): boolean {
-  if (Date.now() > new Date(token.expiresAt).getTime()) return false
+  if (isExpired(token)) return false
   return sessionKeyStore.has(token.sessionId)
 }
 
-- 
2.43.0


From d13ec8dca8e9004be35214e53af8b58b71b99347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:22 +0000
Subject: [PATCH 060/113] fix: a closed instance opens no vault and keeps no
 key

---
 packages/hub/src/noydb.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 9893f4a..284ee22 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -194,6 +194,7 @@ export class Noydb {
     }
 
     const keyring = await this.getKeyring(name)
+    if (this.closed) throw new ValidationError('Instance is closed')
 
     // An overlapping call may have opened the vault meanwhile.
     comp = this.vaultCache.get(name)
@@ -313,6 +314,7 @@ export class Noydb {
 
   /** Synchronous vault access (must call openVault first, or auto-opens). */
   vault(name: string): Vault {
+    if (this.closed) throw new ValidationError('Instance is closed')
     const cached = this.vaultCache.get(name)
     if (cached) return cached
 
@@ -912,6 +914,7 @@ export class Noydb {
 
   /** Get or load the keyring for a vault. */
   private async getKeyring(vault: string): Promise<UnlockedKeyring> {
+    if (this.closed) throw new ValidationError('Instance is closed')
     if (this.options.encrypt === false) {
       return createPlaintextKeyring(this.options.user)
     }
@@ -947,6 +950,8 @@ export class Noydb {
       }
     }
 
+    // Closed while unlocking: keep nothing.
+    if (this.closed) throw new ValidationError('Instance is closed')
     const primed = this.keyringCache.get(vault)
     if (primed) return primed
     this.keyringCache.set(vault, keyring)
-- 
2.43.0


From ca048ca36c7eede78744c2a8542e680bfceaeebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:28 +0000
Subject: [PATCH 061/113] fix: session timeouts longer than a timer's range do
 not end the session at once

---
 packages/hub/src/noydb.ts                  | 12 +++++++++---
 packages/hub/src/session/session-policy.ts | 19 +++++++++++++------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 284ee22..5885500 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -119,9 +119,15 @@ export class Noydb {
     // the legacy sessionTimeout for backwards compatibility.
     const idleMs = this.options.sessionPolicy?.idleTimeoutMs ?? this.options.sessionTimeout
     if (idleMs && idleMs > 0) {
-      this.sessionTimer = setTimeout(() => {
-        this.close()
-      }, idleMs)
+      const arm = (left: number): void => {
+        // A delay beyond 2^31 - 1 would fire at once.
+        const step = Math.min(left, 2 ** 31 - 1)
+        this.sessionTimer = setTimeout(() => {
+          if (left > step) arm(left - step)
+          else this.close()
+        }, step)
+      }
+      arm(idleMs)
     }
   }
 
diff --git a/packages/hub/src/session/session-policy.ts b/packages/hub/src/session/session-policy.ts
index 539fce7..511659e 100644
--- a/packages/hub/src/session/session-policy.ts
+++ b/packages/hub/src/session/session-policy.ts
@@ -26,6 +26,9 @@ import type { SessionPolicy, ReAuthOperation } from '../types.js'
 import { SessionExpiredError, SessionPolicyError } from '../errors.js'
 import { revokeSession } from './session.js'
 
+/** The longest delay a timer takes: a longer one fires at once. */
+const MAX_TIMER_MS = 2 ** 31 - 1
+
 // ─── PolicyEnforcer ────────────────────────────────────────────────────
 
 export interface PolicyEnforcerOptions {
@@ -137,9 +140,11 @@ export class PolicyEnforcer {
     if (!idleTimeoutMs) return
 
     if (this.idleTimer) clearTimeout(this.idleTimer)
+    const left = this.lastActivityAt + idleTimeoutMs - Date.now()
     this.idleTimer = setTimeout(() => {
-      this.expire('idle')
-    }, idleTimeoutMs)
+      if (left > MAX_TIMER_MS) this.scheduleIdleTimer()
+      else this.expire('idle')
+    }, Math.min(left, MAX_TIMER_MS))
   }
 
   private scheduleAbsoluteTimer(): void {
@@ -147,9 +152,11 @@ export class PolicyEnforcer {
     if (!absoluteTimeoutMs) return
 
     if (this.absoluteTimer) clearTimeout(this.absoluteTimer)
+    const left = this.createdAt + absoluteTimeoutMs - Date.now()
     this.absoluteTimer = setTimeout(() => {
-      this.expire('absolute')
-    }, absoluteTimeoutMs)
+      if (left > MAX_TIMER_MS) this.scheduleAbsoluteTimer()
+      else this.expire('absolute')
+    }, Math.min(left, MAX_TIMER_MS))
   }
 
   private registerBackgroundLock(): void {
@@ -188,10 +195,10 @@ export function createEnforcer(opts: PolicyEnforcerOptions): PolicyEnforcer {
  */
 export function validateSessionPolicy(policy: SessionPolicy): void {
   const { idleTimeoutMs, absoluteTimeoutMs } = policy
-  if (idleTimeoutMs !== undefined && (typeof idleTimeoutMs !== 'number' || idleTimeoutMs <= 0)) {
+  if (idleTimeoutMs !== undefined && (typeof idleTimeoutMs !== 'number' || !(idleTimeoutMs > 0))) {
     throw new Error(`SessionPolicy.idleTimeoutMs must be a positive number, got ${idleTimeoutMs}`)
   }
-  if (absoluteTimeoutMs !== undefined && (typeof absoluteTimeoutMs !== 'number' || absoluteTimeoutMs <= 0)) {
+  if (absoluteTimeoutMs !== undefined && (typeof absoluteTimeoutMs !== 'number' || !(absoluteTimeoutMs > 0))) {
     throw new Error(`SessionPolicy.absoluteTimeoutMs must be a positive number, got ${absoluteTimeoutMs}`)
   }
   if (idleTimeoutMs !== undefined && absoluteTimeoutMs !== undefined && idleTimeoutMs >= absoluteTimeoutMs) {
-- 
2.43.0


From 757f486e390cbce16a313cd04e5a26601c8547e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:42:09 +0000
Subject: [PATCH 062/113] fix: an ended session neither revives on activity nor
 passes operation checks

---
 packages/hub/src/session/session-policy.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/hub/src/session/session-policy.ts b/packages/hub/src/session/session-policy.ts
index 511659e..8aa8b28 100644
--- a/packages/hub/src/session/session-policy.ts
+++ b/packages/hub/src/session/session-policy.ts
@@ -60,6 +60,8 @@ export class PolicyEnforcer {
   private idleTimer: ReturnType<typeof setTimeout> | null = null
   private absoluteTimer: ReturnType<typeof setTimeout> | null = null
   private visibilityHandler: (() => void) | null = null
+  private destroyed = false
+  private expired = false
 
   constructor(opts: PolicyEnforcerOptions) {
     this.policy = opts.policy
@@ -78,6 +80,8 @@ export class PolicyEnforcer {
    * Call this at the top of every Noydb public method.
    */
   touch(): void {
+    // An ended session has no timers left to reset.
+    if (this.destroyed) return
     this.lastActivityAt = Date.now()
     this.scheduleIdleTimer()
   }
@@ -91,6 +95,8 @@ export class PolicyEnforcer {
    * This is a synchronous check — callers don't await it.
    */
   checkOperation(op: ReAuthOperation): void {
+    if (this.expired) throw new SessionExpiredError(this.sessionId)
+
     // Defensive absolute-timeout check (timer may have fired late)
     const { absoluteTimeoutMs } = this.policy
     if (absoluteTimeoutMs !== undefined && Date.now() - this.createdAt >= absoluteTimeoutMs) {
@@ -109,6 +115,7 @@ export class PolicyEnforcer {
    * and whenever the session is revoked externally.
    */
   destroy(): void {
+    this.destroyed = true
     if (this.idleTimer) {
       clearTimeout(this.idleTimer)
       this.idleTimer = null
@@ -172,6 +179,7 @@ export class PolicyEnforcer {
   }
 
   private expire(reason: 'idle' | 'absolute' | 'background'): void {
+    this.expired = true
     this.destroy()
     revokeSession(this.sessionId)
     this.onRevoke(reason)
-- 
2.43.0


From 539e4a7fd67dad2d09d8740f34261339feb7d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:42:19 +0000
Subject: [PATCH 063/113] fix: dev-unlock entries of different vaults and users
 do not collide

---
 packages/hub/src/session/dev-unlock.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/session/dev-unlock.ts b/packages/hub/src/session/dev-unlock.ts
index 2b5bf8f..1d0a6f4 100644
--- a/packages/hub/src/session/dev-unlock.ts
+++ b/packages/hub/src/session/dev-unlock.ts
@@ -130,7 +130,9 @@ function assertDevEnvironment(): void {
 // ─── Storage key ──────────────────────────────────────────────────────
 
 function storageKey(vault: string, userId: string): string {
-  return `${STORAGE_PREFIX}${vault}:${userId}`
+  // Escape the separator: vault "a:b" of "c" is not vault "a" of "b:c".
+  const part = (s: string): string => s.replace(/[%:]/g, encodeURIComponent)
+  return `${STORAGE_PREFIX}${part(vault)}:${part(userId)}`
 }
 
 function resolveStorage(persistAcrossTabs?: boolean): Storage {
@@ -243,7 +245,7 @@ export async function loadDevUnlock(
     return null
   }
 
-  if (parsed._noydb_dev_unlock !== 1) return null
+  if (parsed?._noydb_dev_unlock !== 1) return null
 
   const deks = new Map<string, CryptoKey>()
   for (const [collName, rawBase64] of Object.entries(parsed.deks)) {
-- 
2.43.0


From ace2a258d27b615fb49ec638bd3ea4708be55cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:23 +0000
Subject: [PATCH 064/113] fix: importing an empty file with policy 'replace'
 empties the collection as planned

---
 packages/as-csv/src/index.ts  | 15 ++++++++++++++-
 packages/as-xlsx/src/index.ts | 15 ++++++++++++++-
 packages/as-xml/src/index.ts  | 15 ++++++++++++++-
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/packages/as-csv/src/index.ts b/packages/as-csv/src/index.ts
index 85815c5..6dcd692 100644
--- a/packages/as-csv/src/index.ts
+++ b/packages/as-csv/src/index.ts
@@ -283,7 +283,20 @@ async function emptyPlan(
   idKey: string,
 ): Promise<AsCSVImportPlan> {
   const plan = await diffVault(vault, { [collection]: [] }, { collections: [collection], idKey })
-  return { plan, policy, async apply() { /* nothing to do */ } }
+  return {
+    plan,
+    policy,
+    async apply() {
+      // An empty file adds nothing, but under 'replace' it empties the collection.
+      if (policy !== 'replace') return
+      await vault.noydb.transaction((tx) => {
+        const txVault = tx.vault(vault.name)
+        for (const entry of plan.deleted) {
+          txVault.collection(entry.collection).delete(entry.id)
+        }
+      })
+    },
+  }
 }
 
 function coerceCell(cell: string, type?: 'string' | 'number' | 'boolean'): unknown {
diff --git a/packages/as-xlsx/src/index.ts b/packages/as-xlsx/src/index.ts
index 935152a..35916ef 100644
--- a/packages/as-xlsx/src/index.ts
+++ b/packages/as-xlsx/src/index.ts
@@ -336,7 +336,20 @@ async function emptyXlsxPlan(
   idKey: string,
 ): Promise<AsXlsxImportPlan> {
   const plan = await diffVault(vault, { [collection]: [] }, { collections: [collection], idKey })
-  return { plan, policy, async apply() { /* nothing to do */ } }
+  return {
+    plan,
+    policy,
+    async apply() {
+      // An empty file adds nothing, but under 'replace' it empties the collection.
+      if (policy !== 'replace') return
+      await vault.noydb.transaction((tx) => {
+        const txVault = tx.vault(vault.name)
+        for (const entry of plan.deleted) {
+          txVault.collection(entry.collection).delete(entry.id)
+        }
+      })
+    },
+  }
 }
 
 function headerCellToField(value: unknown): string {
diff --git a/packages/as-xml/src/index.ts b/packages/as-xml/src/index.ts
index d46b659..b58b5b6 100644
--- a/packages/as-xml/src/index.ts
+++ b/packages/as-xml/src/index.ts
@@ -365,7 +365,20 @@ async function emptyPlan(
   idKey: string,
 ): Promise<AsXMLImportPlan> {
   const plan = await diffVault(vault, { [collection]: [] }, { collections: [collection], idKey })
-  return { plan, policy, async apply() { /* nothing to do */ } }
+  return {
+    plan,
+    policy,
+    async apply() {
+      // An empty file adds nothing, but under 'replace' it empties the collection.
+      if (policy !== 'replace') return
+      await vault.noydb.transaction((tx) => {
+        const txVault = tx.vault(vault.name)
+        for (const entry of plan.deleted) {
+          txVault.collection(entry.collection).delete(entry.id)
+        }
+      })
+    },
+  }
 }
 
 function stripPrefix(name: string): string {
-- 
2.43.0


From 8be1e81b886936a10f5848241d82b36739e31a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:31 +0000
Subject: [PATCH 065/113] fix: white space and carriage returns survive an XML
 export and import

---
 packages/as-xml/src/index.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/as-xml/src/index.ts b/packages/as-xml/src/index.ts
index b58b5b6..9f1fcd6 100644
--- a/packages/as-xml/src/index.ts
+++ b/packages/as-xml/src/index.ts
@@ -135,7 +135,8 @@ const XML_ENTITIES: Record<string, string> = {
 }
 
 function escapeText(s: string): string {
-  let out = s.replace(/[&<>]/g, ch => XML_ENTITIES[ch]!)
+  // A bare CR would be read back as LF.
+  let out = s.replace(/[&<>]/g, ch => XML_ENTITIES[ch]!).replace(/\r/g, '&#13;')
   // Strip XML-invalid control characters (U+0000–U+0008, U+000B, U+000C, U+000E–U+001F).
   // Done as a char-by-char scan to keep the regex free of control-character literals
   // (which eslint's no-control-regex flags).
@@ -256,7 +257,8 @@ export async function fromString(
     ignoreAttributes: true,
     parseTagValue: false,        // keep raw strings — we coerce ourselves
     parseAttributeValue: false,
-    trimValues: true,
+    trimValues: false,           // white space in a value belongs to it
+    htmlEntities: true,          // numeric references such as &#13;
     // Only force-as-array the record element so a single-record XML still
     // produces an array. We'll narrow this when we discover the element name.
   })
@@ -318,6 +320,7 @@ export async function fromString(
     const flat = stripNamespacePrefixes(r as Record<string, unknown>)
     const record: Record<string, unknown> = {}
     for (const [field, raw] of Object.entries(flat)) {
+      if (field === '#text') continue // layout between the elements
       // The XML parser exposes text-only elements as primitives or
       // empty objects (when the element is `<tag/>`). Normalize.
       const text = textValue(raw)
@@ -406,7 +409,7 @@ function stripIfObject(v: unknown): Record<string, unknown> | null {
  */
 function pickRecordElementName(body: Record<string, unknown>): string | null {
   for (const k of Object.keys(body)) {
-    if (k.startsWith('@_') || k.startsWith('?')) continue
+    if (k.startsWith('@_') || k.startsWith('?') || k === '#text') continue
     return k
   }
   return null
-- 
2.43.0


From 565d626dd2618311fe303e5d68f68c1905e29686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:41 +0000
Subject: [PATCH 066/113] fix: carriage returns and control characters in
 spreadsheet exports

---
 packages/as-xlsx/src/read.ts | 1 +
 packages/as-xlsx/src/xlsx.ts | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/packages/as-xlsx/src/read.ts b/packages/as-xlsx/src/read.ts
index 886de1e..e0adf9e 100644
--- a/packages/as-xlsx/src/read.ts
+++ b/packages/as-xlsx/src/read.ts
@@ -31,6 +31,7 @@ const PARSER = new XMLParser({
   parseTagValue: false,
   parseAttributeValue: false,
   trimValues: false,
+  htmlEntities: true, // numeric references such as &#13;
   isArray: (name) => name === 'sheet' || name === 'row' || name === 'c' || name === 'si' || name === 'Relationship',
 })
 
diff --git a/packages/as-xlsx/src/xlsx.ts b/packages/as-xlsx/src/xlsx.ts
index 5205100..821fa1f 100644
--- a/packages/as-xlsx/src/xlsx.ts
+++ b/packages/as-xlsx/src/xlsx.ts
@@ -244,7 +244,10 @@ function truncateSheetName(name: string): string {
 
 /** XML text escaping — `& < > \r` (quotes only matter in attributes). */
 function escapeXmlText(s: string): string {
+  // Characters XML cannot carry would make the workbook unreadable.
   return s
+    // eslint-disable-next-line no-control-regex
+    .replace(/[\u0000-\u0008\u000b\u000c\u000e-\u001f\ufffe\uffff]/g, '')
     .replace(/&/g, '&amp;')
     .replace(/</g, '&lt;')
     .replace(/>/g, '&gt;')
-- 
2.43.0


From 3925c86acc68dc013536ddced6ddaac446e2edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:47 +0000
Subject: [PATCH 067/113] fix: importing exported NDJSON does not add the
 routing field to the records

---
 packages/as-ndjson/src/index.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/as-ndjson/src/index.ts b/packages/as-ndjson/src/index.ts
index bf2e782..c39073f 100644
--- a/packages/as-ndjson/src/index.ts
+++ b/packages/as-ndjson/src/index.ts
@@ -168,7 +168,10 @@ export async function fromString(
     if (parsed === null || typeof parsed !== 'object' || Array.isArray(parsed)) {
       throw new Error(`as-ndjson.fromString: line ${lineNo} is not a JSON object`)
     }
-    records.push(parsed as Record<string, unknown>)
+    const record = parsed as Record<string, unknown>
+    // The routing field stream() puts on each line is not part of the record.
+    if (record._schema === options.collection) delete record._schema
+    records.push(record)
   }
 
   const plan = await diffVault(vault, { [options.collection]: records }, {
-- 
2.43.0


From f717e165382313f858b72ce54d78d695fcaa14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:14 +0000
Subject: [PATCH 068/113] fix: attachment paths in zip exports stay in their
 folder and do not collide

---
 packages/as-zip/src/index.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/as-zip/src/index.ts b/packages/as-zip/src/index.ts
index b276d11..60f2b39 100644
--- a/packages/as-zip/src/index.ts
+++ b/packages/as-zip/src/index.ts
@@ -172,6 +172,7 @@ export async function toBytes(vault: Vault, options: AsZipOptions): Promise<Uint
   const attachmentEntries: Array<{ path: string; bytes: Uint8Array; size: number; slot: string; mimeType?: string; recordId: string }> = []
   const includeAll = slotsSelector === '*'
   const includeSet = includeAll ? null : new Set<string>(slotsSelector)
+  const usedPaths = new Set<string>()
 
   for (const { id } of records) {
     const blobSet = collection.blob(id)
@@ -183,7 +184,7 @@ export async function toBytes(vault: Vault, options: AsZipOptions): Promise<Uint
       const safeId = sanitiseFsSegment(id)
       const safeSlot = sanitiseFsSegment(slot.name)
       const entry = {
-        path: `attachments/${safeId}/${safeSlot}`,
+        path: uniquePath(`attachments/${safeId}/${safeSlot}`, usedPaths),
         bytes,
         size: bytes.length,
         slot: slot.name,
@@ -420,5 +421,15 @@ function toPojo(value: unknown): unknown {
  */
 function sanitiseFsSegment(s: string): string {
   // eslint-disable-next-line no-control-regex
-  return s.replace(/[/\\:*?"<>|\x00-\x1f]/g, '_') || '_'
+  const safe = s.replace(/[/\\:*?"<>|\x00-\x1f]/g, '_')
+  // '.' and '..' would move the entry out of its folder on extraction.
+  return /^\.*$/.test(safe) ? safe.replace(/\./g, '_') || '_' : safe
+}
+
+/** Distinct names may sanitise to one path — number the later ones. */
+function uniquePath(path: string, used: Set<string>): string {
+  let candidate = path
+  for (let n = 2; used.has(candidate); n++) candidate = `${path}~${n}`
+  used.add(candidate)
+  return candidate
 }
-- 
2.43.0


From 9b299a16ba7076bad631d8b170f607d92899bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:52 +0000
Subject: [PATCH 069/113] fix: reading a damaged zip archive is rejected
 instead of returning changed bytes

---
 packages/as-zip/src/read.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/as-zip/src/read.ts b/packages/as-zip/src/read.ts
index 20aa0d8..0d6c60c 100644
--- a/packages/as-zip/src/read.ts
+++ b/packages/as-zip/src/read.ts
@@ -15,6 +15,7 @@
  * @module
  */
 
+import { crc32 } from './zip.js'
 import { decryptEntryWzAes, parseWzAesExtraField, ZipCipherError, WZAES_METHOD_MARKER } from './aes.js'
 
 const TEXT_DECODER = new TextDecoder()
@@ -71,6 +72,7 @@ export async function readZip(
     }
     const flags = view.getUint16(pos + 8, true)
     const method = view.getUint16(pos + 10, true)
+    const crcOffset = pos + 16
     const compressedSize = view.getUint32(pos + 20, true)
     const uncompressedSize = view.getUint32(pos + 24, true)
     const nameLen = view.getUint16(pos + 28, true)
@@ -139,6 +141,9 @@ export async function readZip(
         `readZip: entry "${path}" uses compression method ${method} — only STORE (0) is supported`,
       )
     }
+    if (crc32(dataRegion) !== view.getUint32(crcOffset, true)) {
+      throw new ZipReadError(`readZip: entry "${path}" does not match its CRC-32 — the archive is damaged`)
+    }
     out.push({ path, bytes: new Uint8Array(dataRegion), encrypted: false })
   }
   return out
-- 
2.43.0


From 5e7e09e2b524021224655354b75e8382dbc18f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:52 +0000
Subject: [PATCH 070/113] fix: importing an exported zip does not add the id
 copy to the records

---
 packages/as-zip/src/index.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/as-zip/src/index.ts b/packages/as-zip/src/index.ts
index 60f2b39..45d188c 100644
--- a/packages/as-zip/src/index.ts
+++ b/packages/as-zip/src/index.ts
@@ -339,6 +339,12 @@ export async function fromBytes(
   if (!Array.isArray(parsed)) {
     throw new Error('as-zip.fromBytes: records.json must be a JSON array of records')
   }
+  // toBytes() repeats the record id as `_id`; that copy is not part of the record.
+  for (const record of parsed as Record<string, unknown>[]) {
+    if (idKey !== '_id' && record && record._id !== undefined && record._id === record[idKey]) {
+      delete record._id
+    }
+  }
 
   const plan = await diffVault(vault, { [options.collection]: parsed as Record<string, unknown>[] }, {
     collections: [options.collection],
-- 
2.43.0


From a7490bddfb92babc3770cd08a8067d8682f83449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:52 +0000
Subject: [PATCH 071/113] fix: backslashes in MySQL dumps are escaped

---
 packages/as-sql/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/as-sql/src/index.ts b/packages/as-sql/src/index.ts
index 329a2df..d880d2b 100644
--- a/packages/as-sql/src/index.ts
+++ b/packages/as-sql/src/index.ts
@@ -220,7 +220,8 @@ function stringifyScalar(value: unknown): string {
 
 function quoteString(dialect: SqlDialect, s: string): string {
   // Both standard SQL and common dialects use '' to escape single quotes.
-  const escaped = s.replace(/'/g, "''")
+  // MySQL also reads a backslash as an escape.
+  const escaped = (dialect === 'mysql' ? s.replace(/\\/g, '\\\\') : s).replace(/'/g, "''")
   return `'${escaped}'`
 }
 
-- 
2.43.0


From 3dbf1ba5466b1fb46419a9f0862686a3e94d1a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:59 +0000
Subject: [PATCH 072/113] fix: SQL dumps cover every record's fields and load
 when fields are missing

---
 packages/as-sql/src/index.ts | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/packages/as-sql/src/index.ts b/packages/as-sql/src/index.ts
index d880d2b..8885be4 100644
--- a/packages/as-sql/src/index.ts
+++ b/packages/as-sql/src/index.ts
@@ -6,8 +6,8 @@
  * SQL query frontend — it's the migration bridge for consumers moving
  * noy-db data into Postgres, MySQL, or SQLite.
  *
- * Column types are inferred from value types in the first 100 records
- * per collection. Every record's row uses parameterless inline-literal
+ * Column types are inferred from the value types of every record of a
+ * collection. Every record's row uses parameterless inline-literal
  * INSERT (no prepared statements) so the dump loads with a single
  * `psql -f`, `mysql <`, or `sqlite3 < dump.sql` invocation.
  *
@@ -72,6 +72,7 @@ export async function toString(vault: Vault, options: AsSQLOptions = {}): Promis
   for (const [collection, records] of buckets) {
     const table = tableName(collection)
     const schema = inferSchema(records, options.metadataColumns === true)
+    if (schema.length === 0) continue // nothing a table could hold
     if (mode !== 'data-only') {
       parts.push(createTable(dialect, table, schema))
       parts.push('')
@@ -122,23 +123,16 @@ interface ColumnSchema {
 }
 
 function inferSchema(records: readonly Record<string, unknown>[], includeMeta: boolean): ColumnSchema[] {
-  const observed = new Map<string, { types: Set<SqlType>; nullable: boolean }>()
-  const sample = records.slice(0, 100) // sample up to 100 rows for type inference
-  for (const rec of sample) {
+  const observed = new Map<string, { types: Set<SqlType>; present: number }>()
+  for (const rec of records) {
     for (const key of Object.keys(rec)) {
-      if (!observed.has(key)) observed.set(key, { types: new Set(), nullable: false })
+      if (!observed.has(key)) observed.set(key, { types: new Set(), present: 0 })
       const slot = observed.get(key)!
       const value = rec[key]
-      if (value === null || value === undefined) {
-        slot.nullable = true
-        continue
-      }
+      if (value === null || value === undefined) continue
+      slot.present++
       slot.types.add(inferType(value))
     }
-    // Fields missing from this record → nullable
-    for (const key of observed.keys()) {
-      if (!(key in rec)) observed.get(key)!.nullable = true
-    }
   }
 
   const columns: ColumnSchema[] = []
@@ -147,7 +141,8 @@ function inferSchema(records: readonly Record<string, unknown>[], includeMeta: b
     const type: SqlType = info.types.size === 1
       ? [...info.types][0]!
       : 'text' // mixed types → fall back to text
-    columns.push({ name, type, nullable: info.nullable })
+    // Null in, or missing from, some record → nullable
+    columns.push({ name, type, nullable: info.present < records.length })
   }
   if (includeMeta) {
     columns.push({ name: '_noydb_version', type: 'integer', nullable: true })
-- 
2.43.0


From 50e6c6266fee2963b28c248b5fd4148f569f010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:22 +0000
Subject: [PATCH 073/113] fix: numbers in Postgres dumps fit their columns
 without losing digits

---
 packages/as-sql/src/index.ts | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/as-sql/src/index.ts b/packages/as-sql/src/index.ts
index 8885be4..adc620a 100644
--- a/packages/as-sql/src/index.ts
+++ b/packages/as-sql/src/index.ts
@@ -114,7 +114,7 @@ export async function write(vault: Vault, path: string, options: AsSQLWriteOptio
 
 // ─── SQL formatting internals ───────────────────────────────────────────
 
-type SqlType = 'text' | 'integer' | 'real' | 'boolean' | 'timestamp' | 'jsonb'
+type SqlType = 'text' | 'integer' | 'bigint' | 'real' | 'boolean' | 'timestamp' | 'jsonb'
 
 interface ColumnSchema {
   readonly name: string
@@ -138,6 +138,7 @@ function inferSchema(records: readonly Record<string, unknown>[], includeMeta: b
   const columns: ColumnSchema[] = []
   for (const [name, info] of observed) {
     if (!includeMeta && (name === '_v' || name === '_ts' || name === '_by')) continue
+    if (info.types.has('bigint')) info.types.delete('integer')
     const type: SqlType = info.types.size === 1
       ? [...info.types][0]!
       : 'text' // mixed types → fall back to text
@@ -153,7 +154,10 @@ function inferSchema(records: readonly Record<string, unknown>[], includeMeta: b
 
 function inferType(value: unknown): SqlType {
   if (typeof value === 'boolean') return 'boolean'
-  if (typeof value === 'number') return Number.isInteger(value) ? 'integer' : 'real'
+  if (typeof value === 'number') {
+    if (!Number.isSafeInteger(value)) return 'real'
+    return Math.abs(value) <= 0x7fffffff ? 'integer' : 'bigint'
+  }
   if (value instanceof Date) return 'timestamp'
   if (typeof value === 'string') {
     if (/^\d{4}-\d{2}-\d{2}T/.test(value)) return 'timestamp'
@@ -169,9 +173,9 @@ function createTable(dialect: SqlDialect, table: string, schema: readonly Column
 
 function mapType(dialect: SqlDialect, type: SqlType): string {
   const map: Record<SqlDialect, Record<SqlType, string>> = {
-    postgres: { text: 'TEXT', integer: 'INTEGER', real: 'REAL', boolean: 'BOOLEAN', timestamp: 'TIMESTAMPTZ', jsonb: 'JSONB' },
-    mysql:    { text: 'TEXT', integer: 'BIGINT', real: 'DOUBLE', boolean: 'TINYINT(1)', timestamp: 'DATETIME', jsonb: 'JSON' },
-    sqlite:   { text: 'TEXT', integer: 'INTEGER', real: 'REAL', boolean: 'INTEGER', timestamp: 'TEXT', jsonb: 'TEXT' },
+    postgres: { text: 'TEXT', integer: 'INTEGER', bigint: 'BIGINT', real: 'DOUBLE PRECISION', boolean: 'BOOLEAN', timestamp: 'TIMESTAMPTZ', jsonb: 'JSONB' },
+    mysql:    { text: 'TEXT', integer: 'BIGINT', bigint: 'BIGINT', real: 'DOUBLE', boolean: 'TINYINT(1)', timestamp: 'DATETIME', jsonb: 'JSON' },
+    sqlite:   { text: 'TEXT', integer: 'INTEGER', bigint: 'INTEGER', real: 'REAL', boolean: 'INTEGER', timestamp: 'TEXT', jsonb: 'TEXT' },
   }
   return map[dialect][type]
 }
@@ -193,7 +197,7 @@ function formatLiteral(dialect: SqlDialect, type: SqlType, value: unknown): stri
     if (dialect === 'mysql' || dialect === 'sqlite') return value ? '1' : '0'
     return value ? 'TRUE' : 'FALSE'
   }
-  if (type === 'integer' || type === 'real') return stringifyScalar(value)
+  if (type === 'integer' || type === 'bigint' || type === 'real') return stringifyScalar(value)
   if (type === 'timestamp') {
     const s = value instanceof Date ? value.toISOString() : stringifyScalar(value)
     return quoteString(dialect, s)
-- 
2.43.0


From 9f32f490e0a1e0b60fa11a97412a322e35e1cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:29 +0000
Subject: [PATCH 074/113] fix: exporting a collection named like an
 Object.prototype member to JSON

---
 packages/as-json/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/as-json/src/index.ts b/packages/as-json/src/index.ts
index 227b087..77d7059 100644
--- a/packages/as-json/src/index.ts
+++ b/packages/as-json/src/index.ts
@@ -83,7 +83,7 @@ export async function toObject(vault: Vault, options: AsJSONOptions = {}): Promi
   const doc: Record<string, Record<string, unknown>[]> = {}
   for await (const chunk of vault.exportStream({ granularity: 'collection' })) {
     if (allowlist && !allowlist.has(chunk.collection)) continue
-    const bucket = doc[chunk.collection] ?? (doc[chunk.collection] = [])
+    const bucket = Object.hasOwn(doc, chunk.collection) ? doc[chunk.collection]! : (doc[chunk.collection] = [])
     for (const record of chunk.records) {
       if (options.includeMeta) {
         bucket.push(record as Record<string, unknown>)
-- 
2.43.0


From 1f9fa1acab96640cb80286d2aa815bcb37f525e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:44 +0000
Subject: [PATCH 075/113] fix: an empty number cell in a CSV import leaves the
 field out

---
 packages/as-csv/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/as-csv/src/index.ts b/packages/as-csv/src/index.ts
index 6dcd692..0622547 100644
--- a/packages/as-csv/src/index.ts
+++ b/packages/as-csv/src/index.ts
@@ -238,7 +238,8 @@ export async function fromString(
     for (let c = 0; c < header.length; c++) {
       const col = header[c] ?? ''
       const cell = row[c] ?? ''
-      record[col] = coerceCell(cell, types[col])
+      const value = coerceCell(cell, types[col])
+      if (value !== undefined) record[col] = value
     }
     records.push(record)
   }
-- 
2.43.0


From 1a7a1871476594a62a403ec0eb3217a8df439342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:21 +0000
Subject: [PATCH 076/113] fix: exports of records that lack a field named like
 an Object.prototype member

---
 packages/as-csv/src/index.ts  | 3 ++-
 packages/as-sql/src/index.ts  | 2 +-
 packages/as-xlsx/src/index.ts | 2 +-
 packages/as-xml/src/index.ts  | 1 +
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/as-csv/src/index.ts b/packages/as-csv/src/index.ts
index 0622547..a35759e 100644
--- a/packages/as-csv/src/index.ts
+++ b/packages/as-csv/src/index.ts
@@ -89,7 +89,8 @@ export async function toString(vault: Vault, options: AsCSVOptions): Promise<str
   // Build header + rows
   const lines: string[] = [columns.map(escapeField).join(',')]
   for (const record of records) {
-    const row = columns.map(c => escapeField((record as Record<string, unknown>)[c]))
+    const own = record as Record<string, unknown>
+    const row = columns.map(c => escapeField(Object.hasOwn(own, c) ? own[c] : undefined))
     lines.push(row.join(','))
   }
   return lines.join(eol)
diff --git a/packages/as-sql/src/index.ts b/packages/as-sql/src/index.ts
index adc620a..ae66a22 100644
--- a/packages/as-sql/src/index.ts
+++ b/packages/as-sql/src/index.ts
@@ -187,7 +187,7 @@ function insertRow(
   record: Record<string, unknown>,
 ): string {
   const cols = schema.map(c => quoteIdent(dialect, c.name)).join(', ')
-  const values = schema.map(c => formatLiteral(dialect, c.type, record[c.name])).join(', ')
+  const values = schema.map(c => formatLiteral(dialect, c.type, Object.hasOwn(record, c.name) ? record[c.name] : undefined)).join(', ')
   return `INSERT INTO ${quoteIdent(dialect, table)} (${cols}) VALUES (${values});`
 }
 
diff --git a/packages/as-xlsx/src/index.ts b/packages/as-xlsx/src/index.ts
index 35916ef..c68dc90 100644
--- a/packages/as-xlsx/src/index.ts
+++ b/packages/as-xlsx/src/index.ts
@@ -113,7 +113,7 @@ export async function toBytes(vault: Vault, options: AsXlsxOptions): Promise<Uin
     materialisedSheets.push({
       name: sheetOpt.name,
       header: columns,
-      rows: records.map((r) => columns.map((c) => r[c] ?? null)),
+      rows: records.map((r) => columns.map((c) => (Object.hasOwn(r, c) ? r[c] : null) ?? null)),
     })
   }
 
diff --git a/packages/as-xml/src/index.ts b/packages/as-xml/src/index.ts
index 9f1fcd6..db76b77 100644
--- a/packages/as-xml/src/index.ts
+++ b/packages/as-xml/src/index.ts
@@ -89,6 +89,7 @@ export async function toString(vault: Vault, options: AsXMLOptions): Promise<str
   for (const record of records) {
     parts.push(nl + indent + `<${recordTag}>`)
     for (const field of fields) {
+      if (!Object.hasOwn(record as object, field)) continue
       const value = (record as Record<string, unknown>)[field]
       if (value === undefined) continue
       const tag = escapeElementName(field)
-- 
2.43.0


From 49acf1f607f811433224fe054615dd2660751d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:21 +0000
Subject: [PATCH 077/113] fix: strings that only begin like a timestamp are
 dumped to SQL as text

---
 packages/as-sql/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/as-sql/src/index.ts b/packages/as-sql/src/index.ts
index ae66a22..5f5c6d5 100644
--- a/packages/as-sql/src/index.ts
+++ b/packages/as-sql/src/index.ts
@@ -160,7 +160,7 @@ function inferType(value: unknown): SqlType {
   }
   if (value instanceof Date) return 'timestamp'
   if (typeof value === 'string') {
-    if (/^\d{4}-\d{2}-\d{2}T/.test(value)) return 'timestamp'
+    if (/^\d{4}-\d{2}-\d{2}T/.test(value) && !Number.isNaN(Date.parse(value))) return 'timestamp'
     return 'text'
   }
   return 'jsonb'
-- 
2.43.0


From 7744645178d843e7f8fcdd1915ee6962157f6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:21 +0000
Subject: [PATCH 078/113] fix: XML exports of collections whose names are not
 XML names are well-formed

---
 packages/as-xml/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/as-xml/src/index.ts b/packages/as-xml/src/index.ts
index db76b77..24eee7e 100644
--- a/packages/as-xml/src/index.ts
+++ b/packages/as-xml/src/index.ts
@@ -63,7 +63,7 @@ export async function toString(vault: Vault, options: AsXMLOptions): Promise<str
   }
 
   const rootName = options.rootElement ?? 'Records'
-  const recordName = options.recordElement ?? pascalSingular(options.collection)
+  const recordName = options.recordElement ?? escapeElementName(pascalSingular(options.collection))
   const fields = options.fields ?? inferFields(records)
   const pretty = options.pretty !== false
   const declaration = options.xmlDeclaration !== false
-- 
2.43.0


From 2cd2504e8552ba23e6957d375a1c5cc8631a79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:21 +0000
Subject: [PATCH 079/113] fix: importing XML with several root elements is
 rejected

---
 packages/as-xml/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/as-xml/src/index.ts b/packages/as-xml/src/index.ts
index 24eee7e..45ea652 100644
--- a/packages/as-xml/src/index.ts
+++ b/packages/as-xml/src/index.ts
@@ -297,6 +297,9 @@ export async function fromString(
   // Pick first non-`?xml` root child — fast-xml-parser ignores the
   // declaration by default but be defensive.
   const rootName = rootKeys.find((k) => !k.startsWith('?')) ?? rootKeys[0]!
+  if (rootKeys.some((k) => k !== rootName && !k.startsWith('?')) || Array.isArray(root[rootName])) {
+    throw new Error('as-xml.fromString: input is not valid XML (more than one root element)')
+  }
   const rootBody = stripIfObject(root[rootName])
 
   if (rootBody === null) {
-- 
2.43.0


From 740f43201f332edcc53edd4756a82d1a7554255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:21 +0000
Subject: [PATCH 080/113] fix: the filename given when storing an attachment is
 kept

---
 packages/hub/src/blobs/blob-set.ts | 2 +-
 packages/hub/src/types.ts          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 15a1ca2..a7b80c7 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -558,7 +558,7 @@ export class BlobSet {
       oldETag = slots[slotName]?.eTag
       slots[slotName] = {
         eTag,
-        filename: slotName,
+        filename: opts?.filename ?? slotName,
         size: data.byteLength,
         ...(mimeType !== undefined ? { mimeType } : {}),
         uploadedAt: new Date().toISOString(),
diff --git a/packages/hub/src/types.ts b/packages/hub/src/types.ts
index 67d4bf5..2f7575f 100644
--- a/packages/hub/src/types.ts
+++ b/packages/hub/src/types.ts
@@ -1315,6 +1315,8 @@ export interface BlobPutOptions {
   compress?: boolean
   /** User ID to record as `uploadedBy`. Defaults to the Noydb session user. */
   uploadedBy?: string
+  /** User-visible filename stored on the slot. Defaults to the slot name. */
+  filename?: string
 }
 
 /** Options for `BlobSet.response()` and `BlobSet.responseVersion()`. */
-- 
2.43.0


From 121199f5026b1fce3162bc7e739a3b4a318867d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:26 +0000
Subject: [PATCH 081/113] fix: exports of lazily loaded collections leave out
 their index entries

---
 packages/hub/src/vault.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index fca0b81..ae991d1 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -2474,7 +2474,8 @@ export class Vault {
       const coll = this.collection(collectionName)
       const schema = coll.getSchema() ?? null
       const refs = this.refRegistry.getOutbound(collectionName)
-      const ids = Object.keys(snapshot[collectionName] ?? {})
+      // Ids starting with `_` are index sidecars of lazy collections, not records.
+      const ids = Object.keys(snapshot[collectionName] ?? {}).filter((id) => !id.startsWith('_'))
 
       const dictionaries = dictSnapshotCache.get(collectionName)
 
-- 
2.43.0


From 776b6943b83cde49e14084fa9aa196fcdb6ef236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:22:02 +0000
Subject: [PATCH 082/113] fix: keyrings resumed from a session, PIN, passkey or
 provider keep their export and import rights

---
 packages/hub/src/session/dev-unlock.ts | 6 ++++++
 packages/hub/src/session/session.ts    | 6 ++++++
 packages/on-oidc/src/index.ts          | 6 ++++++
 packages/on-pin/src/index.ts           | 6 ++++++
 packages/on-webauthn/src/index.ts      | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/packages/hub/src/session/dev-unlock.ts b/packages/hub/src/session/dev-unlock.ts
index 1d0a6f4..b5baea0 100644
--- a/packages/hub/src/session/dev-unlock.ts
+++ b/packages/hub/src/session/dev-unlock.ts
@@ -188,6 +188,8 @@ export async function enableDevUnlock(
     displayName: keyring.displayName,
     role: keyring.role,
     permissions: keyring.permissions,
+    ...(keyring.exportCapability !== undefined && { exportCapability: keyring.exportCapability }),
+    ...(keyring.importCapability !== undefined && { importCapability: keyring.importCapability }),
     deks: dekMap,
     salt: bufferToBase64(keyring.salt),
   })
@@ -236,6 +238,8 @@ export async function loadDevUnlock(
     displayName: string
     role: Role
     permissions: Record<string, 'rw' | 'ro'>
+    exportCapability?: UnlockedKeyring['exportCapability']
+    importCapability?: UnlockedKeyring['importCapability']
     deks: Record<string, string>
     salt: string
   }
@@ -264,6 +268,8 @@ export async function loadDevUnlock(
     displayName: parsed.displayName,
     role: parsed.role,
     permissions: parsed.permissions,
+    ...(parsed.exportCapability !== undefined && { exportCapability: parsed.exportCapability }),
+    ...(parsed.importCapability !== undefined && { importCapability: parsed.importCapability }),
     deks,
     kek: null as unknown as CryptoKey,
     salt: base64ToBuffer(parsed.salt),
diff --git a/packages/hub/src/session/session.ts b/packages/hub/src/session/session.ts
index 3538201..949b2a5 100644
--- a/packages/hub/src/session/session.ts
+++ b/packages/hub/src/session/session.ts
@@ -165,6 +165,8 @@ export async function createSession(
     displayName: keyring.displayName,
     role: keyring.role,
     permissions: keyring.permissions,
+    ...(keyring.exportCapability !== undefined && { exportCapability: keyring.exportCapability }),
+    ...(keyring.importCapability !== undefined && { importCapability: keyring.importCapability }),
     deks: dekMap,
     salt: bufferToBase64(keyring.salt),
   })
@@ -234,6 +236,8 @@ export async function resolveSession(token: SessionToken): Promise<UnlockedKeyri
     displayName: string
     role: Role
     permissions: Record<string, 'rw' | 'ro'>
+    exportCapability?: UnlockedKeyring['exportCapability']
+    importCapability?: UnlockedKeyring['importCapability']
     deks: Record<string, string>
     salt: string
   }
@@ -255,6 +259,8 @@ export async function resolveSession(token: SessionToken): Promise<UnlockedKeyri
     displayName: payload.displayName,
     role: payload.role,
     permissions: payload.permissions,
+    ...(payload.exportCapability !== undefined && { exportCapability: payload.exportCapability }),
+    ...(payload.importCapability !== undefined && { importCapability: payload.importCapability }),
     deks,
     kek: null as unknown as CryptoKey, // KEK not available in session context
     salt: base64ToBuffer(payload.salt),
diff --git a/packages/on-oidc/src/index.ts b/packages/on-oidc/src/index.ts
index 371b89a..f9bd173 100644
--- a/packages/on-oidc/src/index.ts
+++ b/packages/on-oidc/src/index.ts
@@ -369,6 +369,8 @@ export async function enrollOidc(
     displayName: keyring.displayName,
     role: keyring.role,
     permissions: keyring.permissions,
+    ...(keyring.exportCapability !== undefined && { exportCapability: keyring.exportCapability }),
+    ...(keyring.importCapability !== undefined && { importCapability: keyring.importCapability }),
     deks: dekMap,
     salt: bufferToBase64(keyring.salt),
   })
@@ -479,6 +481,8 @@ export async function unlockOidc(
     displayName: string
     role: Role
     permissions: Record<string, 'rw' | 'ro'>
+    exportCapability?: UnlockedKeyring['exportCapability']
+    importCapability?: UnlockedKeyring['importCapability']
     deks: Record<string, string>
     salt: string
   }
@@ -501,6 +505,8 @@ export async function unlockOidc(
     displayName: parsed.displayName,
     role: parsed.role,
     permissions: parsed.permissions,
+    ...(parsed.exportCapability !== undefined && { exportCapability: parsed.exportCapability }),
+    ...(parsed.importCapability !== undefined && { importCapability: parsed.importCapability }),
     deks,
     kek: null as unknown as CryptoKey,
     salt: base64ToBuffer(parsed.salt),
diff --git a/packages/on-pin/src/index.ts b/packages/on-pin/src/index.ts
index aaf1275..0e54072 100644
--- a/packages/on-pin/src/index.ts
+++ b/packages/on-pin/src/index.ts
@@ -306,6 +306,8 @@ interface SerializedKeyring {
   displayName: string
   role: Role
   permissions: Permissions
+  exportCapability?: UnlockedKeyring['exportCapability']
+  importCapability?: UnlockedKeyring['importCapability']
   salt: string
   deks: Record<string, string>
 }
@@ -321,6 +323,8 @@ async function serializeKeyring(k: UnlockedKeyring): Promise<Uint8Array> {
     displayName: k.displayName,
     role: k.role,
     permissions: k.permissions,
+    ...(k.exportCapability !== undefined && { exportCapability: k.exportCapability }),
+    ...(k.importCapability !== undefined && { importCapability: k.importCapability }),
     salt: bytesToBase64(k.salt),
     deks,
   }
@@ -346,6 +350,8 @@ async function deserializeKeyring(bytes: Uint8Array): Promise<UnlockedKeyring> {
     displayName: parsed.displayName,
     role: parsed.role,
     permissions: parsed.permissions,
+    ...(parsed.exportCapability !== undefined && { exportCapability: parsed.exportCapability }),
+    ...(parsed.importCapability !== undefined && { importCapability: parsed.importCapability }),
     salt: base64ToBytes(parsed.salt),
     deks,
     // KEK is deliberately null — PIN-resume returns a keyring that can
diff --git a/packages/on-webauthn/src/index.ts b/packages/on-webauthn/src/index.ts
index 3b66dc2..c26e958 100644
--- a/packages/on-webauthn/src/index.ts
+++ b/packages/on-webauthn/src/index.ts
@@ -324,6 +324,8 @@ async function wrapKeyringSummary(
     displayName: keyring.displayName,
     role: keyring.role,
     permissions: keyring.permissions,
+    ...(keyring.exportCapability !== undefined && { exportCapability: keyring.exportCapability }),
+    ...(keyring.importCapability !== undefined && { importCapability: keyring.importCapability }),
     deks: dekMap,
     salt: bufferToBase64(keyring.salt),
   })
@@ -364,6 +366,8 @@ async function unwrapKeyringSummary(
     displayName: string
     role: Role
     permissions: Record<string, 'rw' | 'ro'>
+    exportCapability?: UnlockedKeyring['exportCapability']
+    importCapability?: UnlockedKeyring['importCapability']
     deks: Record<string, string>
     salt: string
   }
@@ -385,6 +389,8 @@ async function unwrapKeyringSummary(
     displayName: parsed.displayName,
     role: parsed.role,
     permissions: parsed.permissions,
+    ...(parsed.exportCapability !== undefined && { exportCapability: parsed.exportCapability }),
+    ...(parsed.importCapability !== undefined && { importCapability: parsed.importCapability }),
     deks,
     kek: null as unknown as CryptoKey,
     salt: base64ToBuffer(parsed.salt),
-- 
2.43.0


From 89e4c15dca355b30b1fddc9c669a2cd0baa8126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:55 +0000
Subject: [PATCH 083/113] fix: importing JSON without the right is refused
 before the file is parsed

---
 packages/as-json/src/index.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/as-json/src/index.ts b/packages/as-json/src/index.ts
index 77d7059..4e2dad5 100644
--- a/packages/as-json/src/index.ts
+++ b/packages/as-json/src/index.ts
@@ -240,6 +240,7 @@ export async function fromString(
   json: string,
   options: AsJSONImportOptions = {},
 ): Promise<AsJSONImportPlan> {
+  vault.assertCanImport('plaintext', 'json')
   let parsed: unknown
   try {
     parsed = JSON.parse(json)
-- 
2.43.0


From 33a665aa9274d16498417bbd1be41270c56c47da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:53 +0000
Subject: [PATCH 084/113] fix: a collection whose only records are held at a
 tier accepts plain records

---
 packages/hub/src/team/keyring.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 7af98f3..03ef51a 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -928,7 +928,9 @@ export async function ensureCollectionDEK(
       // Existing records were encrypted under a key this user does not hold;
       // a second key for the collection would split it into two halves.
       for (const id of await adapter.list(vault, collectionName)) {
-        if (await adapter.get(vault, collectionName, id)) {
+        const stored = await adapter.get(vault, collectionName, id)
+        // A record held at a tier is encrypted under that tier's key.
+        if (stored && !stored._tier) {
           throw new NoAccessError(`No key for collection "${collectionName}" in vault "${vault}"`)
         }
       }
-- 
2.43.0


From 71eefe890b8a53319828ddb73f501f17a0838a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:59 +0000
Subject: [PATCH 085/113] fix: records written and read at a tier pass the
 collection's schema

---
 packages/hub/src/collection.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 90ac6f9..fdf06d4 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2865,6 +2865,11 @@ export class Collection<T> {
     assertTierAccess(this.keyring, this.name, tier)
     this.assertWritable()
     await this.assertPeriodOpen(id, record)
+    if (this.schema !== undefined) {
+      record = await validateSchemaInput(this.schema, record, `putAtTier(${id})`)
+      // The validator may have changed the business date.
+      await this.periodGuard?.(null, record as unknown as Record<string, unknown>)
+    }
     await this.withIdLock(id, () => this.writeAtTier(id, record, tier, opts))
   }
 
@@ -2942,7 +2947,10 @@ export class Collection<T> {
 
     const dek = await this.getDEK(key)
     const plaintext = await decrypt(envelope._iv, envelope._data, dek)
-    const record = JSON.parse(plaintext) as T
+    let record = JSON.parse(plaintext) as T
+    if (this.schema !== undefined) {
+      record = await validateSchemaOutput(this.schema, record, `${this.name}@v${envelope._v}`)
+    }
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
-- 
2.43.0


From 06549c18de84effd28bd9802d65829028b30dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:39:50 +0000
Subject: [PATCH 086/113] fix: a listener that throws no longer fails the write
 or silences the others

---
 packages/hub/src/collection.ts | 4 +++-
 packages/hub/src/events.ts     | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index fdf06d4..c48859f 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1718,10 +1718,12 @@ export class Collection<T> {
         // Cache hit in eager mode; get() in lazy mode.
         void this.get(event.id).then(record => {
           cb({ type: 'put', id: event.id, record: record ?? null })
-        }).catch(() => {
+        }, () => {
           // Record vanished between emit + lookup (race). Emit with null
           // so subscribers still see the event they were promised.
           cb({ type: 'put', id: event.id, record: null })
+        }).catch(() => {
+          // Listener errors are isolated.
         })
       } else {
         // delete
diff --git a/packages/hub/src/events.ts b/packages/hub/src/events.ts
index 159f95c..3e7528b 100644
--- a/packages/hub/src/events.ts
+++ b/packages/hub/src/events.ts
@@ -29,7 +29,12 @@ export class NoydbEventEmitter {
     const set = this.listeners.get(event as string)
     if (set) {
       for (const handler of set) {
-        handler(data)
+        try {
+          handler(data)
+        } catch {
+          // Listener errors are isolated — what the event reports has
+          // already happened, and the other listeners must hear of it too.
+        }
       }
     }
   }
-- 
2.43.0


From ec3ae6f71ea5f77aa7ee2c3be4f9893d23b02e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:54 +0000
Subject: [PATCH 087/113] fix: a peer store no longer turns an unconditional
 put into a version check against null

---
 packages/by-peer/src/serve.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/by-peer/src/serve.ts b/packages/by-peer/src/serve.ts
index cebcdf7..a3f625c 100644
--- a/packages/by-peer/src/serve.ts
+++ b/packages/by-peer/src/serve.ts
@@ -65,9 +65,10 @@ export function servePeerStore(opts: ServePeerStoreOptions): () => void {
           string,
           string,
           EncryptedEnvelope,
-          number | undefined,
+          number | null | undefined,
         ]
-        await store.put(vault, collection, id, envelope, expectedVersion)
+        // JSON turns an omitted argument into null.
+        await store.put(vault, collection, id, envelope, expectedVersion ?? undefined)
         return null
       }
       case 'delete': {
@@ -102,10 +103,10 @@ export function servePeerStore(opts: ServePeerStoreOptions): () => void {
         const [vault, collection, cursor, limit] = args as [
           string,
           string,
-          string | undefined,
-          number | undefined,
+          string | null | undefined,
+          number | null | undefined,
         ]
-        return store.listPage(vault, collection, cursor, limit)
+        return store.listPage(vault, collection, cursor ?? undefined, limit ?? undefined)
       }
       case 'listVaults': {
         if (!store.listVaults) throw new Error('listVaults not supported by remote store')
-- 
2.43.0


From b9189de2a297765e3c75f2f504f98c67a82249d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:54 +0000
Subject: [PATCH 088/113] fix: tabs sharing a channel no longer accept each
 other's answers

---
 packages/by-peer/src/rpc.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/by-peer/src/rpc.ts b/packages/by-peer/src/rpc.ts
index a84798f..340a411 100644
--- a/packages/by-peer/src/rpc.ts
+++ b/packages/by-peer/src/rpc.ts
@@ -55,6 +55,8 @@ export function createRpcClient(channel: PeerChannel, opts: RpcClientOptions = {
   }
   const pending = new Map<string, Pending>()
   let counter = 0
+  // Several clients may share one broadcast channel; their ids must differ.
+  const clientId = globalThis.crypto.randomUUID()
 
   const offMessage = channel.on('message', (payload) => {
     let msg: RpcMessage
@@ -91,7 +93,7 @@ export function createRpcClient(channel: PeerChannel, opts: RpcClientOptions = {
 
   return {
     async call<T = unknown>(method: string, args: readonly unknown[]): Promise<T> {
-      const id = `${Date.now().toString(36)}-${(++counter).toString(36)}`
+      const id = `${clientId}-${(++counter).toString(36)}`
       const req: RpcRequest = { t: 'req', id, method, args }
       return new Promise<T>((resolve, reject) => {
         const timer = setTimeout(() => {
-- 
2.43.0


From 1a99229e57d95f97e749a55a2397d37a3a97df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:54 +0000
Subject: [PATCH 089/113] fix: a null message on a peer channel is ignored

---
 packages/by-peer/src/rpc.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/by-peer/src/rpc.ts b/packages/by-peer/src/rpc.ts
index 340a411..8f53144 100644
--- a/packages/by-peer/src/rpc.ts
+++ b/packages/by-peer/src/rpc.ts
@@ -65,7 +65,7 @@ export function createRpcClient(channel: PeerChannel, opts: RpcClientOptions = {
     } catch {
       return
     }
-    if (msg.t !== 'res') return
+    if (msg?.t !== 'res') return
     const entry = pending.get(msg.id)
     if (!entry) return
     clearTimeout(entry.timer)
@@ -135,7 +135,7 @@ export function serveRpc(channel: PeerChannel, handler: RpcHandler): () => void
     } catch {
       return
     }
-    if (msg.t !== 'req') return
+    if (msg?.t !== 'req') return
 
     let response: RpcResponse
     try {
-- 
2.43.0


From feeef6044fbaa09c753f89c83205054a15917b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:00 +0000
Subject: [PATCH 090/113] fix: the REST collection route lists stored records
 in a fresh session

---
 packages/in-rest/src/router.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/in-rest/src/router.ts b/packages/in-rest/src/router.ts
index 8329588..44267b3 100644
--- a/packages/in-rest/src/router.ts
+++ b/packages/in-rest/src/router.ts
@@ -151,6 +151,8 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
       try {
         const vault = await db.openVault(vaultName)
         const coll = vault.collection<Record<string, unknown>>(collName)
+        // query() reads the loaded records, so load them first
+        await coll.list()
         let results = params.apply(coll.query()).toArray()
         if (params.limit !== null) results = results.slice(0, params.limit)
         return json(200, results)
-- 
2.43.0


From ee8c6d59e4349a33856853ab567735fb094987d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:00 +0000
Subject: [PATCH 091/113] fix: REST routes decode percent-encoded vault,
 collection and record names

---
 packages/in-rest/src/router.ts | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/packages/in-rest/src/router.ts b/packages/in-rest/src/router.ts
index 44267b3..8398f46 100644
--- a/packages/in-rest/src/router.ts
+++ b/packages/in-rest/src/router.ts
@@ -12,6 +12,11 @@ function json(status: number, body: unknown): RestResponse {
   }
 }
 
+/** Decode one path segment; null when its percent-encoding is malformed. */
+function decodeSegment(raw: string | undefined): string | null {
+  try { return raw === undefined ? null : decodeURIComponent(raw) } catch { return null }
+}
+
 function extractToken(req: RestRequest): string | null {
   // HTTP headers are case-insensitive; check both common casings.
   const auth = req.headers['authorization'] ?? req.headers['Authorization']
@@ -90,11 +95,11 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
     // Match /vaults/:vault/collections/:collection/:id
     const recordMatch = path.match(/^\/vaults\/([^/]+)\/collections\/([^/]+)\/([^/]+)$/)
     if (recordMatch) {
-      const vaultName = recordMatch[1]
-      const collName = recordMatch[2]
-      const id = recordMatch[3]
-      if (vaultName === undefined || collName === undefined || id === undefined) {
-        return json(500, { error: 'internal_error' })
+      const vaultName = decodeSegment(recordMatch[1])
+      const collName = decodeSegment(recordMatch[2])
+      const id = decodeSegment(recordMatch[3])
+      if (vaultName === null || collName === null || id === null) {
+        return json(400, { error: 'invalid_path' })
       }
       try {
         const vault = await db.openVault(vaultName)
@@ -141,10 +146,10 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
           body: JSON.stringify({ error: 'method_not_allowed' }),
         }
       }
-      const vaultName = collMatch[1]
-      const collName = collMatch[2]
-      if (vaultName === undefined || collName === undefined) {
-        return json(500, { error: 'internal_error' })
+      const vaultName = decodeSegment(collMatch[1])
+      const collName = decodeSegment(collMatch[2])
+      if (vaultName === null || collName === null) {
+        return json(400, { error: 'invalid_path' })
       }
       const params = parseQueryParams(req.searchParams)
       if (params.error) return json(400, params.error)
-- 
2.43.0


From 9a7bb7a45b49a704812076a2a3d9a49febbcb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:00 +0000
Subject: [PATCH 092/113] fix: the express adapter keeps repeated query
 parameters

---
 packages/in-rest/src/adapters/express.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/in-rest/src/adapters/express.ts b/packages/in-rest/src/adapters/express.ts
index 42d07e1..e15e1f6 100644
--- a/packages/in-rest/src/adapters/express.ts
+++ b/packages/in-rest/src/adapters/express.ts
@@ -15,7 +15,10 @@ export function expressAdapter(handler: NoydbRestHandler): ExpressRouter {
 
     const url = new URL(req.path, 'http://localhost')
     for (const [k, v] of Object.entries(req.query)) {
-      if (typeof v === 'string') url.searchParams.append(k, v)
+      // a repeated parameter arrives as an array
+      for (const one of Array.isArray(v) ? v : [v]) {
+        if (typeof one === 'string') url.searchParams.append(k, one)
+      }
     }
 
     let bodyCache: unknown
-- 
2.43.0


From 56143247e2d8f7a7908eebb862a53cadfa84795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:00 +0000
Subject: [PATCH 093/113] fix: REST routes answer 401 to a wrong passphrase and
 403 to a refused access, not 500

---
 packages/in-rest/src/router.ts | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/packages/in-rest/src/router.ts b/packages/in-rest/src/router.ts
index 8398f46..63eb10f 100644
--- a/packages/in-rest/src/router.ts
+++ b/packages/in-rest/src/router.ts
@@ -1,4 +1,7 @@
-import { createNoydb, PermissionDeniedError, NotFoundError, ConflictError, ValidationError } from '@noy-db/hub'
+import {
+  createNoydb, PermissionDeniedError, ReadOnlyError, NoAccessError, InvalidKeyError,
+  NotFoundError, ConflictError, ValidationError,
+} from '@noy-db/hub'
 import type { NoydbStore } from '@noy-db/hub'
 import type { RestRequest, RestResponse } from './index.js'
 import type { SessionStore } from './sessions.js'
@@ -17,6 +20,16 @@ function decodeSegment(raw: string | undefined): string | null {
   try { return raw === undefined ? null : decodeURIComponent(raw) } catch { return null }
 }
 
+function errorResponse(err: unknown): RestResponse {
+  if (err instanceof InvalidKeyError) return json(401, { error: 'invalid_passphrase' })
+  if (err instanceof PermissionDeniedError || err instanceof ReadOnlyError || err instanceof NoAccessError) {
+    return json(403, { error: 'forbidden' })
+  }
+  if (err instanceof NotFoundError) return json(404, { error: 'not_found' })
+  if (err instanceof ConflictError) return json(409, { error: 'conflict' })
+  return json(500, { error: 'internal_error' })
+}
+
 function extractToken(req: RestRequest): string | null {
   // HTTP headers are case-insensitive; check both common casings.
   const auth = req.headers['authorization'] ?? req.headers['Authorization']
@@ -129,10 +142,7 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
           body: JSON.stringify({ error: 'method_not_allowed' }),
         }
       } catch (err) {
-        if (err instanceof PermissionDeniedError) return json(403, { error: 'forbidden' })
-        if (err instanceof NotFoundError) return json(404, { error: 'not_found' })
-        if (err instanceof ConflictError) return json(409, { error: 'conflict' })
-        return json(500, { error: 'internal_error' })
+        return errorResponse(err)
       }
     }
 
@@ -162,8 +172,7 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
         if (params.limit !== null) results = results.slice(0, params.limit)
         return json(200, results)
       } catch (err) {
-        if (err instanceof PermissionDeniedError) return json(403, { error: 'forbidden' })
-        return json(500, { error: 'internal_error' })
+        return errorResponse(err)
       }
     }
 
-- 
2.43.0


From 9dfe5d10148c4d018d7e4eb6cf61e96fbb83ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:00 +0000
Subject: [PATCH 094/113] fix: REST queries reject unknown operators and limits
 that are not a count

---
 packages/in-rest/src/query-params.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/in-rest/src/query-params.ts b/packages/in-rest/src/query-params.ts
index a23196d..8af0881 100644
--- a/packages/in-rest/src/query-params.ts
+++ b/packages/in-rest/src/query-params.ts
@@ -36,7 +36,7 @@ export function parseQueryParams(searchParams: URLSearchParams): ParsedQueryPara
     const field = parts[0] as string
     const opStr = parts[1] as string
     const value = parts.slice(2).join(':')
-    const op = OP_MAP[opStr]
+    const op = Object.hasOwn(OP_MAP, opStr) ? OP_MAP[opStr] : undefined
     if (!op) {
       return {
         error: { error: 'invalid_op', op: opStr },
@@ -55,6 +55,9 @@ export function parseQueryParams(searchParams: URLSearchParams): ParsedQueryPara
     orderBy = { field: obField, dir: obDir === 'desc' ? 'desc' : 'asc' }
   }
 
+  if (limitParam && !/^\d+$/.test(limitParam)) {
+    return { error: { error: 'invalid_limit', op: limitParam }, apply: (q) => q, limit: null }
+  }
   const limit = limitParam ? parseInt(limitParam, 10) : null
 
   return {
-- 
2.43.0


From 4fa6cb0c97574302b827352e180e2e8c464b663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:07 +0000
Subject: [PATCH 095/113] fix: the key of a collection named __proto__ is saved
 with the others

---
 packages/hub/src/session/dev-unlock.ts |  2 +-
 packages/hub/src/session/session.ts    |  2 +-
 packages/hub/src/team/keyring.ts       | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/session/dev-unlock.ts b/packages/hub/src/session/dev-unlock.ts
index b5baea0..e6fac32 100644
--- a/packages/hub/src/session/dev-unlock.ts
+++ b/packages/hub/src/session/dev-unlock.ts
@@ -176,7 +176,7 @@ export async function enableDevUnlock(
 
   const storage = resolveStorage(options.persistAcrossTabs)
 
-  const dekMap: Record<string, string> = {}
+  const dekMap = Object.create(null) as Record<string, string>
   for (const [collName, dek] of keyring.deks) {
     const raw = await globalThis.crypto.subtle.exportKey('raw', dek)
     dekMap[collName] = bufferToBase64(raw)
diff --git a/packages/hub/src/session/session.ts b/packages/hub/src/session/session.ts
index 949b2a5..679e287 100644
--- a/packages/hub/src/session/session.ts
+++ b/packages/hub/src/session/session.ts
@@ -154,7 +154,7 @@ export async function createSession(
   // This is the right design: sessions don't need the KEK (no re-grant,
   // no re-derive during session lifetime). They need the DEK set.
 
-  const dekMap: Record<string, string> = {}
+  const dekMap = Object.create(null) as Record<string, string>
   for (const [collName, dek] of keyring.deks) {
     const raw = await subtle.exportKey('raw', dek)
     dekMap[collName] = bufferToBase64(raw)
diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 03ef51a..db8de11 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -219,7 +219,7 @@ export async function grant(
   })
 
   // Wrap the appropriate DEKs with the new user's KEK
-  const wrappedDeks: Record<string, string> = {}
+  const wrappedDeks = Object.create(null) as Record<string, string>
   for (const collName of Object.keys(permissions)) {
     const dek = callerKeyring.deks.get(collName)
     if (dek) {
@@ -668,7 +668,7 @@ export async function changeSecret(
   const newKek = await deriveKey(newPassphrase, newSalt)
 
   // Re-wrap all DEKs with the new KEK
-  const wrappedDeks: Record<string, string> = {}
+  const wrappedDeks = Object.create(null) as Record<string, string>
   for (const [collName, dek] of keyring.deks) {
     wrappedDeks[collName] = await wrapKey(dek, newKek)
   }
@@ -762,7 +762,7 @@ export async function buildRecipientKeyringFile(
   const newSalt = generateSalt()
   const newKek = await deriveKey(recipient.passphrase, newSalt)
 
-  const wrappedDeks: Record<string, string> = {}
+  const wrappedDeks = Object.create(null) as Record<string, string>
 
   // Collections the recipient was explicitly granted permission to.
   for (const collName of Object.keys(recipient.permissions ?? permissions)) {
@@ -1000,14 +1000,14 @@ export async function persistKeyring(
   keyring: UnlockedKeyring,
   pending?: ReadonlyMap<string, CryptoKey>,
 ): Promise<void> {
-  const wrappedDeks: Record<string, string> = {}
+  const wrappedDeks = Object.create(null) as Record<string, string>
   for (const [collName, dek] of keyring.deks) {
     wrappedDeks[collName] = await wrapKey(dek, keyring.kek)
   }
   const { pending_rotation: stored, ...provenance } = await loadProvenance(adapter, vault, keyring.userId)
   let pendingRotation = stored
   if (pending !== undefined) {
-    const wrapped: Record<string, string> = {}
+    const wrapped = Object.create(null) as Record<string, string>
     for (const [collName, dek] of pending) {
       wrapped[collName] = await wrapKey(dek, keyring.kek)
     }
-- 
2.43.0


From 6aaa8f9d928f5179fab662a4a7e1bb0887715583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:16:01 +0000
Subject: [PATCH 096/113] fix: a ledger range ending before the first entry is
 empty

---
 packages/hub/src/history/ledger/store.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/hub/src/history/ledger/store.ts b/packages/hub/src/history/ledger/store.ts
index 0c0d67a..d945778 100644
--- a/packages/hub/src/history/ledger/store.ts
+++ b/packages/hub/src/history/ledger/store.ts
@@ -425,7 +425,7 @@ export class LedgerStore {
   async entries(opts: { from?: number; to?: number } = {}): Promise<LedgerEntry[]> {
     const all = await this.loadAllEntries()
     const from = Math.max(0, opts.from ?? 0)
-    const to = Math.min(all.length, opts.to ?? all.length)
+    const to = Math.max(0, Math.min(all.length, opts.to ?? all.length))
     return all.slice(from, to)
   }
 
-- 
2.43.0


From b5d6725c43f66c1b971330892e8e1d945fc328d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:18 +0000
Subject: [PATCH 097/113] fix: query bindings load stored records before
 running the query

---
 packages/in-react/src/index.ts          | 1 +
 packages/in-solid/src/index.ts          | 1 +
 packages/in-svelte/src/index.ts         | 1 +
 packages/in-tanstack-query/src/index.ts | 1 +
 4 files changed, 4 insertions(+)

diff --git a/packages/in-react/src/index.ts b/packages/in-react/src/index.ts
index 6793f0f..7bcc6f6 100644
--- a/packages/in-react/src/index.ts
+++ b/packages/in-react/src/index.ts
@@ -159,6 +159,7 @@ export function useQuery<T, R>(
     let cancelled = false
     const run = async (): Promise<void> => {
       try {
+        await coll.list() // load the records: query() only sees what is in memory
         const result = await Promise.resolve(builder(coll.query() as unknown as Query<T>))
         if (!cancelled) setState({ data: result, loading: false, error: null })
       } catch (err) {
diff --git a/packages/in-solid/src/index.ts b/packages/in-solid/src/index.ts
index 5ba5e4b..5ea86ac 100644
--- a/packages/in-solid/src/index.ts
+++ b/packages/in-solid/src/index.ts
@@ -64,6 +64,7 @@ export function createQuerySignal<T, R>(
 
     async function refresh(): Promise<void> {
       try {
+        await coll.list() // load the records: query() only sees what is in memory
         const result = await Promise.resolve(builder(coll.query() as unknown as Query<T>))
         setData(() => result)
         setError(null)
diff --git a/packages/in-svelte/src/index.ts b/packages/in-svelte/src/index.ts
index 1614da0..287d525 100644
--- a/packages/in-svelte/src/index.ts
+++ b/packages/in-svelte/src/index.ts
@@ -136,6 +136,7 @@ export function queryStore<T, R>(
 
   async function refresh(): Promise<void> {
     try {
+      await coll.list() // load the records: query() only sees what is in memory
       const result = await Promise.resolve(builder(coll.query() as unknown as Query<T>))
       inner.set({ data: result, loading: false, error: null })
     } catch (err) {
diff --git a/packages/in-tanstack-query/src/index.ts b/packages/in-tanstack-query/src/index.ts
index 163777a..05b8554 100644
--- a/packages/in-tanstack-query/src/index.ts
+++ b/packages/in-tanstack-query/src/index.ts
@@ -90,6 +90,7 @@ export function collectionQueryOptions<T, R>(
     queryKey: collectionQueryKey(vault, collectionName, keyTag),
     queryFn: async () => {
       const coll = getCollection()
+      await coll.list() // load the records: query() only sees what is in memory
       return Promise.resolve(builder(coll.query() as unknown as Query<T>))
     },
   }
-- 
2.43.0


From ec4f79e638be4cdd19242cd51d6c093bb1f1d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:22 +0000
Subject: [PATCH 098/113] fix: useBlobURL drops a pending load when the id
 becomes empty

---
 packages/in-vue/src/useBlobURL.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/in-vue/src/useBlobURL.ts b/packages/in-vue/src/useBlobURL.ts
index bebe5ed..ed198cb 100644
--- a/packages/in-vue/src/useBlobURL.ts
+++ b/packages/in-vue/src/useBlobURL.ts
@@ -89,13 +89,13 @@ export function useBlobURL<T>(
     // create fails or the id resolves to null.
     revoke()
     url.value = null
-    if (!browserAware || stopped || !id) return
-
     // Token-guard against stale resolutions: if the id changes again
     // before this call's awaits settle, the older promise's result
     // must be discarded so we don't strand an URL that no upstream
     // ref points at.
     const myToken = ++loadToken
+    if (!browserAware || stopped || !id) return
+
     const mimeType =
       typeof options.mimeType === 'function'
         ? options.mimeType()
-- 
2.43.0


From a689ff47df1083ee1bb3976ddaa3c2ffecd8c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:26 +0000
Subject: [PATCH 099/113] fix: useCollection opens the vault again after a
 failure

---
 packages/in-vue/src/useCollection.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/in-vue/src/useCollection.ts b/packages/in-vue/src/useCollection.ts
index f8d5f19..20896cb 100644
--- a/packages/in-vue/src/useCollection.ts
+++ b/packages/in-vue/src/useCollection.ts
@@ -38,6 +38,8 @@ export function useCollection<T>(
     try {
       if (!compartmentPromise) {
         compartmentPromise = db.openVault(compartmentName)
+        // A vault that failed to open is tried again by the next refresh
+        compartmentPromise.catch(() => { compartmentPromise = null })
       }
       const comp = await compartmentPromise
       const coll = comp.collection<T>(collectionName)
-- 
2.43.0


From 7bd05be7a76dfe84475e8e5061d63a69467a43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:32 +0000
Subject: [PATCH 100/113] fix: tableStateFromQuery reads the state of a query

---
 packages/in-tanstack-table/src/index.ts | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/packages/in-tanstack-table/src/index.ts b/packages/in-tanstack-table/src/index.ts
index 081c46c..ced115b 100644
--- a/packages/in-tanstack-table/src/index.ts
+++ b/packages/in-tanstack-table/src/index.ts
@@ -83,31 +83,31 @@ export function buildQueryFromTableState<T>(
  * explicitly set — undefined fields stay undefined.
  */
 export function tableStateFromQuery<T>(query: Query<T>): TableState {
-  const q = query as unknown as {
-    __clauses?: Array<{ field: string; op: string; value: unknown }>
-    __sorts?: Array<{ field: string; direction: 'asc' | 'desc' }>
-    __limit?: number
-    __offset?: number
+  const plan = query.toPlan() as {
+    clauses: Array<{ type: string; field: string; op: string; value: unknown }>
+    orderBy: Array<{ field: string; direction: 'asc' | 'desc' }>
+    limit?: number
+    offset: number
   }
 
-  const columnFilters: TableFilterDescriptor[] | undefined = q.__clauses
-    ?.filter(c => c.op === '==' || c.op === 'in')
+  const columnFilters: TableFilterDescriptor[] = plan.clauses
+    .filter(c => c.type === 'field' && (c.op === '==' || c.op === 'in'))
     .map(c => ({ id: c.field, value: c.value }))
-  const sorting: TableSortDescriptor[] | undefined = q.__sorts?.map(s => ({
+  const sorting: TableSortDescriptor[] = plan.orderBy.map(s => ({
     id: s.field,
     desc: s.direction === 'desc',
   }))
   const pagination: TablePaginationState | undefined =
-    q.__limit !== undefined
+    plan.limit !== undefined
       ? {
-          pageSize: q.__limit,
-          pageIndex: q.__offset && q.__limit ? Math.floor(q.__offset / q.__limit) : 0,
+          pageSize: plan.limit,
+          pageIndex: plan.offset && plan.limit ? Math.floor(plan.offset / plan.limit) : 0,
         }
       : undefined
 
   const state: TableState = {}
-  if (columnFilters && columnFilters.length > 0) (state as { columnFilters?: readonly TableFilterDescriptor[] }).columnFilters = columnFilters
-  if (sorting && sorting.length > 0) (state as { sorting?: readonly TableSortDescriptor[] }).sorting = sorting
+  if (columnFilters.length > 0) (state as { columnFilters?: readonly TableFilterDescriptor[] }).columnFilters = columnFilters
+  if (sorting.length > 0) (state as { sorting?: readonly TableSortDescriptor[] }).sorting = sorting
   if (pagination) (state as { pagination?: TablePaginationState }).pagination = pagination
   return state
 }
-- 
2.43.0


From 4511dfd3353cc67cc6598c52ec8833a293ccf4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:40:33 +0000
Subject: [PATCH 101/113] fix: export useDictLabel from in-pinia

---
 packages/in-pinia/src/index.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/in-pinia/src/index.ts b/packages/in-pinia/src/index.ts
index d98a58c..add02c7 100644
--- a/packages/in-pinia/src/index.ts
+++ b/packages/in-pinia/src/index.ts
@@ -21,6 +21,8 @@ export type {
   NoydbLiveQuery,
 } from './defineNoydbStore.js'
 export { setActiveNoydb, getActiveNoydb, resolveNoydb } from './context.js'
+export { useDictLabel } from './useDictLabel.js'
+export type { UseDictLabelOptions } from './useDictLabel.js'
 export { createNoydbPiniaPlugin } from './plugin.js'
 export type { StoreNoydbOptions, NoydbPiniaPluginOptions } from './plugin.js'
 export {
-- 
2.43.0


From 2b1bc98fc1292969db3a885c6fb781606d8f5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:11 +0000
Subject: [PATCH 102/113] fix: useDictLabel keeps the label of the current
 locale

---
 packages/in-pinia/src/useDictLabel.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/in-pinia/src/useDictLabel.ts b/packages/in-pinia/src/useDictLabel.ts
index 376dce0..d603e17 100644
--- a/packages/in-pinia/src/useDictLabel.ts
+++ b/packages/in-pinia/src/useDictLabel.ts
@@ -126,17 +126,25 @@ export function useDictLabel(
     }
   })
 
+  // Only the newest refresh of a key may set its label: a slower one that
+  // was started for the previous locale must not overwrite it.
+  const newest = new Map<string, number>()
+
   async function refresh(key: string, r: Ref<string>): Promise<void> {
+    const token = (newest.get(key) ?? 0) + 1
+    newest.set(key, token)
+    let label: string
     try {
       const resolved = await handle.resolveLabel(
         key,
         localeRef.value,
         fallback as readonly string[],
       )
-      r.value = resolved ?? missing(key)
+      label = resolved ?? missing(key)
     } catch {
-      r.value = missing(key)
+      label = missing(key)
     }
+    if (newest.get(key) === token) r.value = label
   }
 
   return (key: string): Ref<string> => {
-- 
2.43.0


From 3d5e6380afb1656f48d6bfa26965d76d475284d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:13 +0000
Subject: [PATCH 103/113] fix: the Pinia plugin saves states in order

---
 packages/in-pinia/src/plugin.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/in-pinia/src/plugin.ts b/packages/in-pinia/src/plugin.ts
index c8ebaae..4a083e7 100644
--- a/packages/in-pinia/src/plugin.ts
+++ b/packages/in-pinia/src/plugin.ts
@@ -149,6 +149,8 @@ export function createNoydbPiniaPlugin(opts: NoydbPiniaPluginOptions): PiniaPlug
     // await deterministic flushes via `$noydbFlush()`. Plain Set-of-Promises
     // — entries auto-remove on settle.
     const pending = new Set<Promise<void>>()
+    // Saves run one after another, so the last mutation is what stays stored.
+    let lastSave: Promise<void> = Promise.resolve()
 
     // Hydrate-then-subscribe. Both happen inside an async closure so the
     // store can be awaited via `$noydbReady`.
@@ -177,7 +179,8 @@ export function createNoydbPiniaPlugin(opts: NoydbPiniaPluginOptions): PiniaPlug
         context.store.$subscribe(
           (_mutation, state) => {
             const subset = pickKeys(state, noydbOption.persist)
-            const p = collection.put(STATE_DOC_ID, subset)
+            const p = lastSave
+              .then(() => collection.put(STATE_DOC_ID, subset))
               .catch((err: unknown) => {
                 context.store.$noydbError = err instanceof Error ? err : new Error(String(err))
               })
@@ -185,6 +188,7 @@ export function createNoydbPiniaPlugin(opts: NoydbPiniaPluginOptions): PiniaPlug
                 pending.delete(p)
               })
             pending.add(p)
+            lastSave = p
           },
           { detached: true }, // outlive the component that triggered the mutation
         )
-- 
2.43.0


From a9815a99d5c772fb8f8ad27f7eee7d4f26848efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:55 +0000
Subject: [PATCH 104/113] fix: tools that write are published only to those who
 may write

---
 packages/in-ai/src/index.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/in-ai/src/index.ts b/packages/in-ai/src/index.ts
index f50385c..a731b00 100644
--- a/packages/in-ai/src/index.ts
+++ b/packages/in-ai/src/index.ts
@@ -122,6 +122,7 @@ export function buildToolset(
   const tools: JsonSchemaTool[] = []
   for (const collection of accessible) {
     for (const op of operations) {
+      if ((op === 'put' || op === 'delete') && !canWrite(vault, collection)) continue
       tools.push(jsonSchemaTool(collection, op, label))
     }
   }
@@ -297,6 +298,13 @@ export function parseToolName(name: string): { collection: string; op: ToolOpera
 
 // ─── Vault introspection (duck-typed) ──────────────────────────────────
 
+/** Whether the keyring behind the vault may write to the collection. */
+function canWrite(vault: Vault, collection: string): boolean {
+  const { role, permissions } = vault
+  if (role === 'viewer' || role === 'client') return false
+  return role !== 'operator' || permissions[collection] === 'rw'
+}
+
 /**
  * Duck-typed probe for a vault that exposes an accessible-collections
  * API. Every hub version we target ships either `listCollectionNames`
-- 
2.43.0


From 9f98bd313e50debdc3697b260a9a9161c451229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:55 +0000
Subject: [PATCH 105/113] fix: a tool call cannot reach a system collection

---
 packages/in-ai/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/in-ai/src/index.ts b/packages/in-ai/src/index.ts
index a731b00..1e68619 100644
--- a/packages/in-ai/src/index.ts
+++ b/packages/in-ai/src/index.ts
@@ -244,7 +244,8 @@ export async function invokeToolCall(
   options: InvokeOptions = {},
 ): Promise<unknown> {
   const parsed = parseToolName(call.name)
-  if (!parsed) {
+  // System collections (`_ledger`, `_sync_credentials`, …) never get a tool.
+  if (!parsed || parsed.collection.startsWith('_')) {
     throw new ToolNotFoundError(call.name)
   }
   const { collection, op } = parsed
-- 
2.43.0


From ff8b477cb76880ec03647c4b8948329392a37321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:59 +0000
Subject: [PATCH 106/113] fix: a tool call without a record id is refused

---
 packages/in-ai/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/in-ai/src/index.ts b/packages/in-ai/src/index.ts
index 1e68619..b19c340 100644
--- a/packages/in-ai/src/index.ts
+++ b/packages/in-ai/src/index.ts
@@ -260,6 +260,9 @@ export async function invokeToolCall(
 
   const coll = vault.collection(collection)
   const id = toIdString(call.args.id)
+  if (id === '' && op !== 'list' && op !== 'count') {
+    throw new ToolDeniedError(call.name, 'the required argument "id" is missing')
+  }
   switch (op) {
     case 'list':
       return coll.list()
-- 
2.43.0


From 183c7f6d0e83a32743ff768b229ca784ba4413c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:04:35 +0000
Subject: [PATCH 107/113] fix: overlapping updates of a Yjs document do not
 overwrite each other

---
 packages/in-yjs/src/yjs-collection.ts | 32 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/packages/in-yjs/src/yjs-collection.ts b/packages/in-yjs/src/yjs-collection.ts
index 69c99e0..9d543f1 100644
--- a/packages/in-yjs/src/yjs-collection.ts
+++ b/packages/in-yjs/src/yjs-collection.ts
@@ -36,6 +36,8 @@ export interface YjsCollectionOptions<YF extends Record<string, YFieldDescriptor
 export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
   private readonly coll: ReturnType<Vault['collection']>
   private readonly yFields: YF
+  /** The last write of each record that is still under way. */
+  private readonly lastWrite = new Map<string, Promise<void>>()
 
   /** @internal — use `yjsCollection()` factory instead. */
   constructor(
@@ -75,8 +77,7 @@ export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
    */
   async putYDoc(id: string, doc: Y.Doc): Promise<void> {
     const update = Y.encodeStateAsUpdate(doc)
-    const base64 = uint8ArrayToBase64(update)
-    await this.coll.put(id, base64)
+    await this.inTurn(id, () => this.store(id, update))
   }
 
   /**
@@ -84,16 +85,18 @@ export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
    * Reads the current doc, applies the update, then persists the merged state.
    */
   async applyUpdate(id: string, update: Uint8Array): Promise<void> {
-    const doc = await this.getYDoc(id)
-    Y.applyUpdate(doc, update)
-    await this.putYDoc(id, doc)
+    await this.inTurn(id, async () => {
+      const doc = await this.getYDoc(id)
+      Y.applyUpdate(doc, update)
+      await this.store(id, Y.encodeStateAsUpdate(doc))
+    })
   }
 
   /**
    * Delete the record.
    */
   async delete(id: string): Promise<void> {
-    await this.coll.delete(id)
+    await this.inTurn(id, () => this.coll.delete(id))
   }
 
   /**
@@ -105,6 +108,23 @@ export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
 
   // ─── Private ────────────────────────────────────────────────────────
 
+  private async store(id: string, update: Uint8Array): Promise<void> {
+    const base64 = uint8ArrayToBase64(update)
+    await this.coll.put(id, base64)
+  }
+
+  /** Run the writes of one record one after another, so that no update is lost. */
+  private async inTurn(id: string, write: () => Promise<void>): Promise<void> {
+    const turn = (this.lastWrite.get(id) ?? Promise.resolve()).then(write)
+    const settled = turn.catch(() => {})
+    this.lastWrite.set(id, settled)
+    try {
+      await turn
+    } finally {
+      if (this.lastWrite.get(id) === settled) this.lastWrite.delete(id)
+    }
+  }
+
   private initFields(doc: Y.Doc): void {
     for (const [fieldName, descriptor] of Object.entries(this.yFields)) {
       switch (descriptor._yjsType) {
-- 
2.43.0


From 19fe8d24ac324f7d2e121c939955c749787f2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:14 +0000
Subject: [PATCH 108/113] fix: a failing onDegraded or onRestored callback does
 not fail a metered call

---
 packages/to-meter/src/index.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/to-meter/src/index.ts b/packages/to-meter/src/index.ts
index 75887c7..13eb51c 100644
--- a/packages/to-meter/src/index.ts
+++ b/packages/to-meter/src/index.ts
@@ -205,11 +205,12 @@ export function toMeter(inner: NoydbStore, options: MeterOptions = {}): ToMeterR
       ...(p99 !== undefined ? { p99 } : {}),
       reason, at: new Date().toISOString(),
     }
-    for (const l of listeners) {
-      try { l(event) } catch { /* isolate listener errors */ }
+    const notify = (l: ((e: MeterEvent) => void) | undefined): void => {
+      try { l?.(event) } catch { /* isolate listener errors */ }
     }
-    if (next === 'degraded' && prior !== 'degraded') options.onDegraded?.(event)
-    if (next === 'ok' && prior !== 'ok') options.onRestored?.(event)
+    for (const l of listeners) notify(l)
+    if (next === 'degraded' && prior !== 'degraded') notify(options.onDegraded)
+    if (next === 'ok' && prior !== 'ok') notify(options.onRestored)
   }
 
   // Build the wrapped store via hub's withMetrics middleware (one event
-- 
2.43.0


From 7aba0033d662e60353927a1dc0c5f738bf633649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:14 +0000
Subject: [PATCH 109/113] fix: a successful liveness check does not clear a
 degraded status

---
 packages/to-meter/src/index.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/to-meter/src/index.ts b/packages/to-meter/src/index.ts
index 13eb51c..e992a6a 100644
--- a/packages/to-meter/src/index.ts
+++ b/packages/to-meter/src/index.ts
@@ -226,7 +226,7 @@ export function toMeter(inner: NoydbStore, options: MeterOptions = {}): ToMeterR
 
   // Optional synthetic liveness timer
   const livenessTimer = options.liveness
-    ? startLiveness(inner, options.liveness, transition)
+    ? startLiveness(inner, options.liveness, transition, () => currentStatus)
     : null
 
   const handle: MeterHandle = {
@@ -300,6 +300,7 @@ function startLiveness(
   inner: NoydbStore,
   opts: LivenessOptions,
   transition: (status: MeterStatus, method?: MethodName, p99?: number, reason?: string) => void,
+  status: () => MeterStatus,
 ): ReturnType<typeof setInterval> {
   const vault = opts.vault ?? 'probe-vault'
   const collection = opts.collection ?? 'probe-liveness'
@@ -325,7 +326,7 @@ function startLiveness(
         await inner.delete(vault, collection, pingId)
       }
       // On a successful check, transition back to ok if we were unreachable
-      transition('ok', undefined, undefined, 'liveness check succeeded')
+      if (status() === 'unreachable') transition('ok', undefined, undefined, 'liveness check succeeded')
     } catch (err) {
       transition('unreachable', undefined, undefined, `liveness error: ${(err as Error).message}`)
     }
-- 
2.43.0


From b042f0a5ef44ca1de7b7a010f527f1e530f49e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:47 +0000
Subject: [PATCH 110/113] fix: probes running at the same time do not disturb
 each other

---
 packages/to-probe/src/probe.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/to-probe/src/probe.ts b/packages/to-probe/src/probe.ts
index 99e90cf..05cb6e2 100644
--- a/packages/to-probe/src/probe.ts
+++ b/packages/to-probe/src/probe.ts
@@ -42,6 +42,9 @@ import type {
 const PROBE_VAULT = 'probe-vault'
 const PROBE_COLLECTION = 'probe-benchmark'
 
+/** Counts the probe runs, so that two runs started together get distinct ids. */
+let runs = 0
+
 /**
  * Run the full 5-axis probe against `store`. Returns a structured
  * report with per-axis measurements and a {@link SuitabilityScore}.
@@ -58,7 +61,7 @@ export async function runStoreProbe(
   const started = Date.now()
   const vault = options.vault ?? PROBE_VAULT
   const collection = options.collection ?? PROBE_COLLECTION
-  const runId = Date.now().toString(36)
+  const runId = `${Date.now().toString(36)}-${(++runs).toString(36)}`
 
   const write = await probeWrite(store, vault, collection, runId, options)
   const cas = await probeCas(store, vault, collection, runId, options)
@@ -70,7 +73,7 @@ export async function runStoreProbe(
   const risks = collectRisks(options, write, cas, hydration, sync, network, capabilities)
   const suitability = score(risks)
 
-  await bestEffortCleanup(store, vault, collection)
+  await bestEffortCleanup(store, vault, collection, runId)
 
   return {
     store: store.name ?? 'unnamed',
@@ -370,9 +373,11 @@ async function bestEffortCleanup(
   store: NoydbStore,
   vault: string,
   collection: string,
+  runId: string,
 ): Promise<void> {
   try {
-    const ids = await store.list(vault, collection)
+    // Only what this run wrote: another run may still need its records.
+    const ids = (await store.list(vault, collection)).filter((id) => `${id}-`.includes(`-${runId}-`))
     await Promise.all(ids.map((id) => store.delete(vault, collection, id).catch(() => {})))
   } catch {
     // Silent — cleanup failure is not a probe failure
-- 
2.43.0


From 397fad999889c8cc81a96461da27feeea53ceb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:38:10 +0000
Subject: [PATCH 111/113] fix: sanitized file names stay safe after shortening

A name cut to its length limit could end in a dot, become a device
name or a dot segment, or end inside an escape or a surrogate pair.
The profile is now applied again after a cut, escapes and code points
are kept whole, and url-path and s3-key refuse empty and dot names as
the other profiles do. Bidi overrides are removed before normalising,
so that the result is in normal form.
---
 packages/hub/src/util/sanitize-filename.ts | 65 +++++++++++++++-------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/packages/hub/src/util/sanitize-filename.ts b/packages/hub/src/util/sanitize-filename.ts
index 1d02407..1efe5d5 100644
--- a/packages/hub/src/util/sanitize-filename.ts
+++ b/packages/hub/src/util/sanitize-filename.ts
@@ -143,7 +143,7 @@ export function sanitizeFilename(name: string, opts: SanitizeFilenameOptions): s
     throw new FilenameSanitizationError('NUL byte in filename')
   }
 
-  let s = name.normalize('NFC').replace(BIDI_OVERRIDES, '')
+  let s = name.replace(BIDI_OVERRIDES, '').normalize('NFC')
 
   if (opts.profile === 'opaque') {
     return applyOpaque(s, opts)
@@ -152,12 +152,12 @@ export function sanitizeFilename(name: string, opts: SanitizeFilenameOptions): s
   s = trimWhitespaceAndControls(s)
 
   switch (opts.profile) {
-    case 'posix':     return cap(applyPosix(s),     opts.maxBytes ?? 255,  'utf8')
-    case 'windows':   return cap(applyWindows(s),   opts.maxBytes ?? 255,  'utf16')
-    case 'macos-smb': return cap(applyMacosSmb(s),  opts.maxBytes ?? 240,  'utf8')
-    case 'zip':       return cap(applyZip(s),       opts.maxBytes ?? 255,  'utf8')
-    case 'url-path':  return cap(applyUrlPath(s),   opts.maxBytes ?? 1024, 'bytes-pre-encode')
-    case 's3-key':    return cap(applyS3Key(s),     opts.maxBytes ?? 1024, 'utf8')
+    case 'posix':     return capSafely(applyPosix,    s, opts.maxBytes ?? 255, 'utf8')
+    case 'windows':   return capSafely(applyWindows,  s, opts.maxBytes ?? 255, 'utf16')
+    case 'macos-smb': return capSafely(applyMacosSmb, s, opts.maxBytes ?? 240, 'utf8')
+    case 'zip':       return capSafely(applyZip,      s, opts.maxBytes ?? 255, 'utf8')
+    case 'url-path':  return applyUrlPath(s, opts.maxBytes ?? 1024)
+    case 's3-key':    return applyS3Key(s,   opts.maxBytes ?? 1024)
   }
 }
 
@@ -192,25 +192,37 @@ function applyZip(s: string): string {
   return stripControlChars(cleaned)
 }
 
-function applyUrlPath(s: string): string {
+function applyUrlPath(s: string, max: number): string {
+  if (max <= 0) {
+    throw new FilenameSanitizationError('maxBytes must be positive')
+  }
+  if (s.length === 0) {
+    throw new FilenameSanitizationError('empty filename after sanitization')
+  }
   // RFC 3986 percent-encoding for path segment. Keep `unreserved`,
   // encode everything else. `+` is encoded as `%2B` because S3 and
   // legacy servers treat raw `+` as space ambiguously.
   let out = ''
   for (const ch of s) {
-    if (URL_UNRESERVED.test(ch)) { out += ch; continue }
-    const bytes = utf8.encode(ch)
-    for (const b of bytes) {
-      out += '%' + b.toString(16).toUpperCase().padStart(2, '0')
+    let encoded = ''
+    if (URL_UNRESERVED.test(ch)) encoded = ch
+    else for (const b of utf8.encode(ch)) {
+      encoded += '%' + b.toString(16).toUpperCase().padStart(2, '0')
     }
+    // Shorten at a whole code point: a cut escape does not decode.
+    if (out.length + encoded.length > max) break
+    out += encoded
   }
-  return out
+  if (out.length === 0) {
+    throw new FilenameSanitizationError('maxBytes too small for a single code point')
+  }
+  return rejectDotSegments(out)
 }
 
-function applyS3Key(s: string): string {
+function applyS3Key(s: string, max: number): string {
   // Strip leading slashes BEFORE percent-encoding — once `/` is
   // encoded to `%2F` the leading-slash regex no longer matches.
-  return applyUrlPath(s.replace(/^\/+/, ''))
+  return applyUrlPath(s.replace(/^\/+/, ''), max)
 }
 
 function applyOpaque(s: string, opts: SanitizeFilenameOptions): string {
@@ -249,7 +261,17 @@ function avoidWindowsReservedName(s: string): string {
   return s
 }
 
-type LengthUnit = 'utf8' | 'utf16' | 'bytes-pre-encode'
+type LengthUnit = 'utf8' | 'utf16'
+
+/**
+ * Apply a profile, then shorten. The shorter name may need the profile again:
+ * a cut can leave a trailing dot, a reserved name or a dot segment.
+ */
+function capSafely(apply: (s: string) => string, s: string, max: number, unit: LengthUnit): string {
+  let out = cap(apply(s), max, unit)
+  while (apply(out) !== out) out = cap(apply(out), max, unit)
+  return out
+}
 
 function cap(s: string, max: number, unit: LengthUnit): string {
   if (max <= 0) {
@@ -257,11 +279,12 @@ function cap(s: string, max: number, unit: LengthUnit): string {
   }
   if (unit === 'utf16') {
     if (s.length <= max) return s
-    return s.slice(0, max)
-  }
-  if (unit === 'bytes-pre-encode') {
-    if (utf8.encode(s).byteLength <= max) return s
-    return truncateToByteCap(s, max)
+    const high = s.charCodeAt(max - 1)
+    const cut = high >= 0xd800 && high <= 0xdbff ? max - 1 : max
+    if (cut === 0) {
+      throw new FilenameSanitizationError('maxBytes too small for a single code point')
+    }
+    return s.slice(0, cut)
   }
   if (utf8.encode(s).byteLength <= max) return s
   return truncateToByteCap(s, max)
-- 
2.43.0


From 15bccdb78763043c06102924afa1a5404179f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:49:42 +0000
Subject: [PATCH 112/113] fix: generated collection pages and stores are valid
 code for every name

Hyphenated names and reserved words became variables of the page, and
a quote in the vault name ended the string in the store.
---
 packages/create-noy-db/src/commands/add.ts | 33 ++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/packages/create-noy-db/src/commands/add.ts b/packages/create-noy-db/src/commands/add.ts
index 2f39f80..666be49 100644
--- a/packages/create-noy-db/src/commands/add.ts
+++ b/packages/create-noy-db/src/commands/add.ts
@@ -70,6 +70,10 @@ export async function addCollection(
     .map((s) => (s.length === 0 ? s : (s[0]?.toUpperCase() ?? '') + s.slice(1)))
     .join('')
   const useFnName = `use${PascalName}`
+  // The page's local variable: camelCase, and no word that JavaScript or
+  // the rest of the page already uses.
+  const camelName = (PascalName[0]?.toLowerCase() ?? '') + PascalName.slice(1)
+  const varName = TAKEN_WORDS.has(camelName) ? `${camelName}Store` : camelName
 
   const storePath = path.join(cwd, 'app', 'stores', `${name}.ts`)
   const pagePath = path.join(cwd, 'app', 'pages', `${name}.vue`)
@@ -87,11 +91,24 @@ export async function addCollection(
   await fs.mkdir(path.dirname(pagePath), { recursive: true })
 
   await fs.writeFile(storePath, renderStore(name, PascalName, useFnName, vault), 'utf8')
-  await fs.writeFile(pagePath, renderPage(name, PascalName, useFnName), 'utf8')
+  await fs.writeFile(pagePath, renderPage(name, PascalName, useFnName, varName), 'utf8')
 
   return { files: [storePath, pagePath] }
 }
 
+/** Words a local variable of the generated page cannot have. */
+const TAKEN_WORDS = new Set(
+  ('await break case catch class const continue debugger default delete do else enum eval export extends false ' +
+    'finally for function if implements import in instanceof interface let new null package private protected ' +
+    'public return static super switch this throw true try typeof var void while with yield arguments ' +
+    'crypto addOne removeOne id').split(' '),
+)
+
+/** A single-quoted string literal. */
+function quote(s: string): string {
+  return `'${JSON.stringify(s).slice(1, -1).replace(/\\"/g, '"').replace(/'/g, "\\'")}'`
+}
+
 async function pathExists(p: string): Promise<boolean> {
   try {
     await fs.access(p)
@@ -127,7 +144,7 @@ export interface ${PascalName} {
 }
 
 export const ${useFnName} = defineNoydbStore<${PascalName}>('${name}', {
-  vault: '${vault}',
+  vault: ${quote(vault)},
 })
 `
 }
@@ -137,24 +154,24 @@ export const ${useFnName} = defineNoydbStore<${PascalName}>('${name}', {
  * the simplest possible template-renderer pattern (`v-for`, no fancy
  * components) so the generated file is easy to read and modify.
  */
-function renderPage(name: string, PascalName: string, useFnName: string): string {
+function renderPage(name: string, PascalName: string, useFnName: string, varName: string): string {
   return `<!--
   Generated by \`noy-db add ${name}\`.
   Visit /${name} in your dev server.
 -->
 <script setup lang="ts">
-const ${name} = ${useFnName}()
-await ${name}.$ready
+const ${varName} = ${useFnName}()
+await ${varName}.$ready
 
 function addOne() {
-  ${name}.add({
+  ${varName}.add({
     id: crypto.randomUUID(),
     name: 'New ${PascalName}',
   })
 }
 
 function removeOne(id: string) {
-  ${name}.remove(id)
+  ${varName}.remove(id)
 }
 </script>
 
@@ -163,7 +180,7 @@ function removeOne(id: string) {
     <h1>${PascalName}</h1>
     <button @click="addOne">Add ${PascalName}</button>
     <ul>
-      <li v-for="item in ${name}.items" :key="item.id">
+      <li v-for="item in ${varName}.items" :key="item.id">
         {{ item.name }}
         <button @click="removeOne(item.id)">Delete</button>
       </li>
-- 
2.43.0


From 3066ace900df3d0051ddb8afe2fc7776e35ebd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:52:21 +0000
Subject: [PATCH 113/113] fix: file store reports read failures instead of
 missing records

A failing read, listing or removal was taken for a file that does not
exist. A key rotation during such a failure re-encrypted nothing and
replaced the key, so the records were lost. Only a missing file or
directory now reads as nothing there.
---
 packages/to-file/src/index.ts | 123 ++++++++++++++--------------------
 1 file changed, 51 insertions(+), 72 deletions(-)

diff --git a/packages/to-file/src/index.ts b/packages/to-file/src/index.ts
index 8ab9da7..3c21588 100644
--- a/packages/to-file/src/index.ts
+++ b/packages/to-file/src/index.ts
@@ -120,12 +120,28 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
     await mkdir(path, { recursive: true })
   }
 
+  // Only a missing file or directory reads as "nothing there". Any other
+  // failure is passed on: a record or keyring that cannot be read right now
+  // must not be taken for one that does not exist.
+  function orMissing<T>(missing: T): (err: unknown) => T {
+    return (err) => {
+      const code = (err as NodeJS.ErrnoException).code
+      if (code === 'ENOENT' || code === 'ENOTDIR') return missing
+      throw err
+    }
+  }
+
   async function fileExists(path: string): Promise<boolean> {
+    return stat(path).then(() => true, orMissing(false))
+  }
+
+  async function readRecord(path: string): Promise<EncryptedEnvelope | null> {
+    const content = await readFile(path, 'utf-8').catch(orMissing(null))
+    if (content === null) return null
     try {
-      await stat(path)
-      return true
+      return JSON.parse(content) as EncryptedEnvelope
     } catch {
-      return false
+      return null
     }
   }
 
@@ -137,13 +153,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
     name: 'file',
 
     async get(vault, collection, id) {
-      const path = recordPath(vault, collection, id)
-      try {
-        const content = await readFile(path, 'utf-8')
-        return JSON.parse(content) as EncryptedEnvelope
-      } catch {
-        return null
-      }
+      return readRecord(recordPath(vault, collection, id))
     },
 
     async put(vault, collection, id, envelope, expectedVersion) {
@@ -162,49 +172,38 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
 
     async delete(vault, collection, id) {
       const path = recordPath(vault, collection, id)
-      try {
-        await unlink(path)
-      } catch {
-        // File doesn't exist — that's fine
-      }
+      // File doesn't exist — that's fine
+      await unlink(path).catch(orMissing(undefined))
     },
 
     async list(vault, collection) {
       const dirPath = collectionDir(vault, collection)
-      try {
-        const entries = await readdir(dirPath)
-        return entries
-          .filter(f => f.endsWith('.json'))
-          .map(idOf) // remove .json extension
-      } catch {
-        return []
-      }
+      const entries = await readdir(dirPath).catch(orMissing([] as string[]))
+      return entries
+        .filter(f => f.endsWith('.json'))
+        .map(idOf) // remove .json extension
     },
 
     async loadAll(vault) {
       const compDir = join(dir, vault)
       const snapshot: VaultSnapshot = {}
 
-      try {
-        const collections = await readdir(compDir)
-        for (const collName of collections) {
-          if (collName.startsWith('_')) continue // skip _keyring, _sync
-          const collPath = join(compDir, collName)
-          const collStat = await stat(collPath)
-          if (!collStat.isDirectory()) continue
-
-          const records: Record<string, EncryptedEnvelope> = {}
-          const files = await readdir(collPath)
-          for (const file of files) {
-            if (!file.endsWith('.json')) continue
-            const id = idOf(file)
-            const content = await readFile(join(collPath, file), 'utf-8')
-            records[id] = JSON.parse(content) as EncryptedEnvelope
-          }
-          snapshot[collName] = records
+      // Directory doesn't exist — return empty snapshot
+      const collections = await readdir(compDir).catch(orMissing([] as string[]))
+      for (const collName of collections) {
+        if (collName.startsWith('_')) continue // skip _keyring, _sync
+        const collPath = join(compDir, collName)
+        const collStat = await stat(collPath).catch(orMissing(null))
+        if (!collStat?.isDirectory()) continue
+
+        const records: Record<string, EncryptedEnvelope> = {}
+        const files = await readdir(collPath).catch(orMissing([] as string[]))
+        for (const file of files) {
+          if (!file.endsWith('.json')) continue
+          const envelope = await readRecord(join(collPath, file))
+          if (envelope) records[idOf(file)] = envelope
         }
-      } catch {
-        // Directory doesn't exist — return empty snapshot
+        snapshot[collName] = records
       }
 
       return snapshot
@@ -213,12 +212,8 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
     async saveAll(vault, data) {
       // Replace the vault's records: drop what the snapshot does not have.
       // Internal collections (_keyring, _sync, …) are not part of it.
-      let existing: string[] = []
-      try {
-        existing = await readdir(join(dir, vault))
-      } catch {
-        // Vault doesn't exist yet
-      }
+      // The vault may not exist yet.
+      const existing = await readdir(join(dir, vault)).catch(orMissing([] as string[]))
       for (const collName of existing) {
         if (collName.startsWith('_')) continue
         const keep = new Set(Object.hasOwn(data, collName) ? Object.keys(data[collName]!) : [])
@@ -257,20 +252,12 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
      * sort themselves.
      */
     async listVaults() {
-      let entries: string[]
-      try {
-        entries = await readdir(dir)
-      } catch {
-        return []
-      }
+      const entries = await readdir(dir).catch(orMissing([] as string[]))
       const compartments: string[] = []
       for (const entry of entries) {
-        try {
-          const entryStat = await stat(join(dir, entry))
-          if (entryStat.isDirectory()) compartments.push(entry)
-        } catch {
-          // Entry vanished between readdir and stat — skip silently.
-        }
+        // Entry vanished between readdir and stat — skip silently.
+        const entryStat = await stat(join(dir, entry)).catch(orMissing(null))
+        if (entryStat?.isDirectory()) compartments.push(entry)
       }
       return compartments
     },
@@ -286,12 +273,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
      */
     async listPage(vault, collection, cursor, limit = 100) {
       const dirPath = collectionDir(vault, collection)
-      let files: string[]
-      try {
-        files = await readdir(dirPath)
-      } catch {
-        return { items: [], nextCursor: null }
-      }
+      const files = await readdir(dirPath).catch(orMissing([] as string[]))
 
       const ids = files
         .filter(f => f.endsWith('.json'))
@@ -304,12 +286,9 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       const items: Array<{ id: string; envelope: EncryptedEnvelope }> = []
       for (let i = start; i < end; i++) {
         const id = ids[i]!
-        try {
-          const content = await readFile(recordPath(vault, collection, id), 'utf-8')
-          items.push({ id, envelope: JSON.parse(content) as EncryptedEnvelope })
-        } catch {
-          // File disappeared between readdir and readFile — skip silently.
-        }
+        // File disappeared between readdir and readFile — skip silently.
+        const envelope = await readRecord(recordPath(vault, collection, id))
+        if (envelope) items.push({ id, envelope })
       }
 
       return {
-- 
2.43.0

