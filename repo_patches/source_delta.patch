From e1bdbd7ebc6e915e42f267267420059916770839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 01/47] fix: MST: forget the old layer when deleting the last
 key

Deleting the last key of a tree left an empty in-memory root that still had
its old layer, so adding a key with fewer leading zeros afterwards (eg later
in the same commit) built a non-canonical tree with a different root.
---
 arroba/mst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 9892ffb..c77db28 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -570,7 +570,11 @@ class MST:
           MST:
         """
         entries = self.get_entries()
-        if len(entries) == 1 and isinstance(entries[0], MST):
+        if not entries:
+            # empty trees are always layer 0. don't keep our old layer, otherwise
+            # later adds would go under unnecessary extra nodes
+            return MST.create(storage=self.storage)
+        elif len(entries) == 1 and isinstance(entries[0], MST):
             return entries[0].trim_top()
         else:
             return self
-- 
2.43.0


From d06ca7b276555bce8f0a91a0bcca6cdbdbbb567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 02/47] fix: Storage.commit: leave the repo handle's MST and
 head alone when the commit fails

---
 arroba/storage.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..202d02e 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -511,12 +511,14 @@ class Storage:
             doesn't currently exist
         """
         seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
+        orig_mst, orig_head = repo.mst, repo.head
 
         try:
             commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
             if repo.callback:
                 repo.callback(data=commit_data)
         except BaseException:
+            repo.mst, repo.head = orig_mst, orig_head
             if repo.callback:
                 repo.callback(lost_seq=seq)
             raise
@@ -555,6 +557,7 @@ class Storage:
         if len(writes) > MAX_OPERATIONS_PER_COMMIT:
             raise ValueError(f'Too many operations ({len(writes)}), max is {MAX_OPERATIONS_PER_COMMIT}')
 
+        mst = repo.mst  # only set this in repo once we've written everything
         ops = []
         for write in copy.copy(writes):
             assert isinstance(write, Write), type(write)
@@ -564,12 +567,12 @@ class Storage:
             # https://github.com/bluesky-social/proposals/tree/main/0006-sync-iteration#commit-validation-mst-operation-inversion
             prev_cid = None
             if write.action in (Action.UPDATE, Action.DELETE):
-                if not (prev_cid := repo.mst.get(path)):
+                if not (prev_cid := mst.get(path)):
                     raise ValueError(f"{path} doesn't exist in repo")
 
             if write.action == Action.DELETE:
                 logger.debug('deleting from MST')
-                repo.mst = repo.mst.delete(path)
+                mst = mst.delete(path)
                 logger.debug('  done')
                 ops.append(CommitOp(action=Action.DELETE, path=path,
                                     cid=None, prev_cid=prev_cid))
@@ -589,23 +592,23 @@ class Storage:
 
             if write.action == Action.CREATE:
                 logger.debug('adding to MST')
-                repo.mst = repo.mst.add(path, block.cid)
+                mst = mst.add(path, block.cid)
                 logger.debug('  done')
                 ops.append(op)
             else:
                 assert write.action == Action.UPDATE
-                orig_pointer = repo.mst.get_pointer()
+                orig_pointer = mst.get_pointer()
                 logger.debug('updating MST')
-                repo.mst = repo.mst.update(path, block.cid)
+                mst = mst.update(path, block.cid)
                 logger.debug('  done')
-                if repo.mst.get_pointer() != orig_pointer:
+                if mst.get_pointer() != orig_pointer:
                     # no-op updates are invalid in ATProto, so only include this
                     # update operation if it changes the the record and MST.
                     # https://github.com/snarfed/arroba/issues/52#issuecomment-2825755142
                     ops.append(op)
 
         logger.debug('loading unstored MST blocks')
-        root, unstored_blocks = repo.mst.get_unstored_blocks()
+        root, unstored_blocks = mst.get_unstored_blocks()
         logger.debug('  done')
         for block in unstored_blocks.values():
             block.repo = repo_did
@@ -634,12 +637,13 @@ class Storage:
 
         # update repo head
         if repo.did:
+            repo.mst = mst
             repo.head = commit_data.commit
             logger.info(f'Updating {repo.did} head {repo.head.cid}')
             self.store_repo(repo)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
+        orig_repo.mst = mst
         orig_repo.head = commit_block
         return commit_data
 
-- 
2.43.0


From 7a90a0492add8e4aa86641081d04fb3e8bcb26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 03/47] fix: activate_repo, deactivate_repo: do nothing if the
 repo is tombstoned

---
 arroba/storage.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 202d02e..4bb53d8 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -256,6 +256,8 @@ class Storage:
     def deactivate_repo(self, repo):
         """Marks a repo as deactivated.
 
+        Does nothing if the repo is tombstoned.
+
         * Stores a ``com.atproto.sync.subscribeRepos#account`` block with its
           own sequence number.
         * If :attr:`Repo.callback` is populated, calls it with the
@@ -268,6 +270,9 @@ class Storage:
         Args:
           repo (Repo)
         """
+        if self._is_tombstoned(repo):
+            return
+
         self._set_repo_status(repo, DEACTIVATED)
         block = self.write_event(repo=repo, type='account',
                                  active=False, status='deactivated')
@@ -286,6 +291,9 @@ class Storage:
         Args:
           repo (Repo)
         """
+        if self._is_tombstoned(repo):
+            return
+
         self._set_repo_status(repo, None)
         block = self.write_event(repo=repo, type='account', active=True)
 
@@ -307,6 +315,18 @@ class Storage:
         self._set_repo_status(repo, TOMBSTONED)
         block = self.write_event(repo=repo, type='tombstone')
 
+    def _is_tombstoned(self, repo):
+        """Returns True if a repo is tombstoned in storage, False otherwise.
+
+        Args:
+          repo (Repo)
+
+        Returns:
+          bool:
+        """
+        stored = self.load_repo(repo.did) or repo
+        return stored.status == TOMBSTONED
+
     def _tombstone_repo(self, repo):
         """Marks a repo as tombstoned in storage.
 
-- 
2.43.0


From e04a972eff9301bea172c601ebd5f472f4aa0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 04/47] fix: Storage.commit: check the stored repo's status,
 not the caller's copy's

---
 arroba/storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 4bb53d8..d9b1322 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -548,9 +548,6 @@ class Storage:
     def _commit(self, repo, writes, seq, repo_did=None):
         """Separate from :meth:`commit` so that subclasses can put it in a tx."""
         assert seq
-        if repo.status:
-            raise InactiveRepo(repo.did, repo.status)
-
         orig_repo = repo
         if repo_did:
             # this is the initial empty commit for creating a new repo
@@ -569,6 +566,10 @@ class Storage:
             repo = self.load_repo(repo_did)
             prev = repo.head.cid  # for the new commit
 
+        # check the stored repo's status, since the caller's repo may be out of date
+        if repo.status:
+            raise InactiveRepo(repo.did, repo.status)
+
         commit_blocks = {}  # maps CID to Block
         assert writes is not None
         if isinstance(writes, Write):
-- 
2.43.0


From 2b89088db7ea789cb782a6221d4d01039b06fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 05/47] fix: Storage.commit: don't report seq lost when the
 callback fails on a stored commit

---
 arroba/storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index d9b1322..eb35e9c 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -535,14 +535,16 @@ class Storage:
 
         try:
             commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
-            if repo.callback:
-                repo.callback(data=commit_data)
         except BaseException:
             repo.mst, repo.head = orig_mst, orig_head
             if repo.callback:
                 repo.callback(lost_seq=seq)
             raise
 
+        # the commit is stored now, so if this fails, seq isn't lost
+        if repo.callback:
+            repo.callback(data=commit_data)
+
         return commit_data
 
     def _commit(self, repo, writes, seq, repo_did=None):
-- 
2.43.0


From 0fc61959e84257a91160d1bd45ab4ab1e2ddd0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 06/47] fix: Repo.create: don't call the callback with the
 initial commit twice

---
 arroba/repo.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/arroba/repo.py b/arroba/repo.py
index f71523b..9ab21b1 100644
--- a/arroba/repo.py
+++ b/arroba/repo.py
@@ -170,9 +170,6 @@ class Repo:
                             rev=commit.decoded['rev'])
 
         storage.create_repo(repo)
-        if repo.callback:
-            repo.callback(data=initial_commit)
-
         return repo
 
     @classmethod
-- 
2.43.0


From 6776cfd0112a1232204520c261bfb434133b87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 07/47] fix: Storage.write_event: report seq lost if writing
 the event fails

---
 arroba/storage.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index eb35e9c..55e0470 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -490,13 +490,18 @@ class Storage:
         assert type in ('account', 'identity', 'sync', 'tombstone'), type
 
         seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
-        block = self.write(repo.did, {
-            '$type': f'com.atproto.sync.subscribeRepos#{type}',
-            'seq': seq,
-            'did': repo.did,
-            'time': webutil.util.now().isoformat(),
-            **kwargs,
-        }, seq=seq)
+        try:
+            block = self.write(repo.did, {
+                '$type': f'com.atproto.sync.subscribeRepos#{type}',
+                'seq': seq,
+                'did': repo.did,
+                'time': webutil.util.now().isoformat(),
+                **kwargs,
+            }, seq=seq)
+        except BaseException:
+            if repo.callback:
+                repo.callback(lost_seq=seq)
+            raise
 
         if repo.callback:
             repo.callback(data=block.decoded)
-- 
2.43.0


From 5a1dd49a2e5f6c6c8afe92861d59da7d80c36585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 08/47] fix: DatastoreStorage.write_blocks: write blocks in the
 commit's transaction

---
 arroba/datastore_storage.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 55c2f0c..01f1a71 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -873,15 +873,16 @@ class DatastoreStorage(Storage, NdbMixin):
         return AtpBlock.create(repo_did=repo_did, data=obj, seq=seq).to_block()
 
     @ndb_context
-    @ndb.non_transactional()
+    # join the commit's transaction, if there is one, so that its blocks are only
+    # stored if the commit is
+    @ndb.transactional(join=True)
     def write_blocks(self, blocks):
         keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
-        existing = AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
-        existing_cids = [key.id() for key in existing]
+        existing_cids = [b.key.id() for b in ndb.get_multi(keys) if b]
         new = [AtpBlock.from_block(b) for b in blocks
                if b.cid.encode('base32') not in existing_cids]
-        logger.debug(f'  {len(new)} new {len(existing)} existing')
-        ndb.transaction(lambda: ndb.put_multi(new), join=True)
+        logger.debug(f'  {len(new)} new {len(existing_cids)} existing')
+        ndb.put_multi(new)
 
     @ndb_context
     @ndb.transactional(retries=10)
-- 
2.43.0


From 1b09d9ec0d65d0ee521c28a97140a15f4f412d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 09/47] fix: reject records that read_events_by_seq would take
 for commits or events

---
 arroba/storage.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 55e0470..26c799e 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -69,6 +69,30 @@ CommitOp = namedtuple('CommitOp', [  # for subscribeRepos
 # }
 
 
+def is_event(obj):
+    """Returns True if a decoded block is a non-commit ``subscribeRepos`` message.
+
+    Args:
+      obj (dict)
+
+    Returns:
+      bool:
+    """
+    return str(obj.get('$type', '')).startswith(f'{SUBSCRIBE_REPOS_NSID}#')
+
+
+def is_commit(obj):
+    """Returns True if a decoded block has the format of a commit.
+
+    Args:
+      obj (dict)
+
+    Returns:
+      bool:
+    """
+    return obj.keys() == {'version', 'did', 'rev', 'prev', 'data', 'sig'}
+
+
 class Block:
     r"""An ATProto block: a record, :class:`MST` entry, commit, or other event.
 
@@ -429,14 +453,12 @@ class Storage:
                 blocks = {}  # maps CID to Block
                 commit_block = None
 
-            if block.decoded.get('$type', '').startswith(
-                    'com.atproto.sync.subscribeRepos#'):  # non-commit message
+            if is_event(block.decoded):  # non-commit message
                 yield block.decoded
                 continue
 
             blocks[block.cid] = block
-            commit_fields = ['version', 'did', 'rev', 'prev', 'data', 'sig']
-            if block.decoded.keys() == set(commit_fields):
+            if is_commit(block.decoded):
                 commit_block = block
 
         # final commit
@@ -609,6 +631,8 @@ class Storage:
             # raises ValidationError if it doesn't validate
             assert write.record is not None
             server.validate(write.record.get('$type'), 'record', write.record)
+            if is_event(write.record) or is_commit(write.record):
+                raise ValueError(f"{path} looks like a commit or event, can't be a record")
 
             block = Block(decoded=write.record, repo=repo_did, seq=seq)
             if len(block.encoded) > MAX_RECORD_SIZE_BYTES:
-- 
2.43.0


From cf2f84945a29b21952283e8151959880e6021082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 10/47] fix: read_events_by_seq: skip imported repos' blocks,
 which have seq 0

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 26c799e..a897298 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -441,7 +441,8 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        # blocks from imported repos have seq 0, they're not part of any event
+        for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From e3fbea98e7428b621df3b4d18bc8d7891dd2f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 11/47] fix: MemoryStorage.read_many_raw: omit missing blocks
 instead of raising

---
 arroba/storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index a897298..1f592cb 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -391,7 +391,8 @@ class Storage:
           cids (sequence of :class:`CID`)
 
         Returns:
-          dict: {:class:`CID`: ``(encoded bytes, seq int)`` or None if not found}
+          dict: {:class:`CID`: ``(encoded bytes, seq int)``}; missing blocks are
+            omitted
         """
         raise NotImplementedError()
 
@@ -776,7 +777,8 @@ class MemoryStorage(Storage):
 
     def read_many_raw(self, cids):
         blocks = [self.blocks.get(CID.decode(cid)) for cid in cids]
-        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)}
+        return {cid: (block.encoded, block.seq)
+                for cid, block in zip(cids, blocks) if block}
 
     def read_blocks_by_seq(self, start=0, repo=None):
         assert start >= 0
-- 
2.43.0


From 400f196c7dcecaacfad5e33508c4d50e86733cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 12/47] fix: MemcacheSequences: reserve a batch before starting
 to allocate from it

---
 arroba/datastore_storage.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 01f1a71..ee47bda 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -347,16 +347,29 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
         assert MEMCACHE_SEQUENCE_BATCH > MEMCACHE_SEQUENCE_BUFFER > 1, \
             (MEMCACHE_SEQUENCE_BATCH, MEMCACHE_SEQUENCE_BUFFER)
 
+        @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
+                           join=None)
+        def reserve_batch():
+            stored_seq = AtpSequence.get_or_insert(nsid, next=1)
+            start = stored_seq.next
+            stored_seq.next += MEMCACHE_SEQUENCE_BATCH
+            stored_seq.put()
+            return start
+
         key = self._memcache_key(nsid)
         seq = self.memcache.incr(key, 1)
         if seq is None:  # not in memcache
             with self.max_seqs_lock:
-                # can't use last() because it looks in memcache
-                self.max_seqs[nsid] = AtpSequence.get_or_insert(nsid, next=1).next - 1
-                # we'll allocate a new batch below
-                if self.memcache.add(key, self.max_seqs[nsid]):
-                    logger.info(f'initialized memcache sequence counter {key} to {self.max_seqs[nsid]}')
+                # reserve a new batch in the datastore *before* we start allocating
+                # from it, so that if memcache loses this counter right away, we
+                # don't start over from the same value.
+                # (can't use last() because it looks in memcache.)
+                start = reserve_batch()
+                self.max_seqs[nsid] = start + MEMCACHE_SEQUENCE_BATCH
+                if self.memcache.add(key, start - 1):
+                    logger.info(f'initialized memcache sequence counter {key} to {start - 1}')
             seq = self.memcache.incr(key, 1)
+            assert seq is not None, f'memcache lost {key}'
 
         @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
                            join=None)
-- 
2.43.0


From 732a638d6883696b8a7e570c8f65485918173a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 13/47] fix: MemorySequences: make allocate thread safe

---
 arroba/storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 1f592cb..c6dbd72 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -8,6 +8,7 @@ import copy
 from enum import auto, Enum
 import itertools
 import logging
+import threading
 
 
 import dag_cbor
@@ -707,15 +708,18 @@ class MemorySequences(Sequences):
 
     Attributes:
       sequences (dict): {str NSID: int next sequence number}
+      lock (threading.Lock): for modifying sequences
     """
     def __init__(self):
         self.sequences = {}
+        self.lock = threading.Lock()
 
     def allocate(self, nsid):
         assert nsid
-        next = self.sequences.setdefault(nsid, 1)
+        with self.lock:
+            next = self.sequences.setdefault(nsid, 1)
+            self.sequences[nsid] += 1
         logger.info(f'Allocated seq {next}')
-        self.sequences[nsid] += 1
         return next
 
     def last(self, nsid):
-- 
2.43.0


From c33a18eb181df03962d875a991091462a144275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 14/47] fix: DatastoreSequences.last: don't use the context's
 cached copy

---
 arroba/datastore_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index ee47bda..c07744c 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -304,7 +304,8 @@ class DatastoreSequences(storage.Sequences, NdbMixin):
         Returns:
           integer, last sequence number for this NSID, or None if we don't know it
         """
-        if seq := AtpSequence.get_by_id(nsid):
+        # other processes allocate too, so don't use this context's cached copy
+        if seq := AtpSequence.get_by_id(nsid, use_cache=False):
             return seq.next - 1
 
 
-- 
2.43.0


From 5211bf08f9ffd74e101ced4d552918510786c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 15/47] fix: firehose.subscribe: don't repeat events when
 another subscriber extends the rollback window

---
 arroba/firehose.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..986292c 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -161,6 +161,7 @@ def subscribe(cursor=None):
 
             log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
             pre_rollback.append((header, payload))
+            cursor = payload['seq'] + 1
             yield (header, payload)
 
     # hand off to rollback window and new events
-- 
2.43.0


From 5fd11e8e5aa2ae0364c4ea6a92b044fb58cde0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 16/47] fix: firehose.subscribe: don't skip events, or fail,
 when the rollback window is empty or moves on

---
 arroba/firehose.py | 128 +++++++++++++++++++++------------------------
 1 file changed, 61 insertions(+), 67 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 986292c..9cd17c7 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -120,81 +120,75 @@ def subscribe(cursor=None):
     if cursor:
         log(f'starting with cursor {cursor}')
 
-    # if this cursor behind our rollback window, load the window between the two
-    # manually, for this subscriber
-    handoff = None     # deque; copy of rollback window for when we transition to it
-    rollback_start = rollback[0][1]['seq'] if rollback else 0
-    if cursor is not None and cursor < rollback_start:
-        log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
-
-        pre_rollback = []  # events prior to rollback window that we load here
-        last_seq = None
-        for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
-            header, payload = process_event(event)
-
-            if last_seq and payload['seq'] <= last_seq:
-                non_monotonic(payload['seq'], last_seq, event)
-                continue
-            last_seq = payload['seq']
-
+    pre_rollback = []  # events prior to rollback window that we load here
+    subscriber = SimpleQueue()
+    try:
+        while True:
             with lock:
-                # have we reached the rollback window?
-                if payload['seq'] >= rollback[0][1]['seq']:
-                    rollback_start = rollback[0][1]['seq']
-                    handoff = rollback.copy()
-
-                    remaining_len = rollback.maxlen - len(rollback)
-                    if remaining_len and pre_rollback:
-                        # merge old events we've loaded onto the end of rollback
-                        # extendleft reverses its argument; reverse again to undo that
-                        pre_rollback = [e for e in pre_rollback
-                                        if e[1]['seq'] < rollback_start]
-                        if pre_rollback := pre_rollback[-remaining_len:]:
-                            log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
-                            assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
-                                (len(rollback), len(pre_rollback))
-                            assert pre_rollback[-1][1]['seq'] < rollback[0][1]['seq'],\
-                                (pre_rollback[-1][1]['seq'], rollback[0][1]['seq'])
-                            rollback.extendleft(reversed(pre_rollback))
-
+                # if rollback is empty, the collector hasn't emitted anything yet
+                rollback_start = (rollback[0][1]['seq'] if rollback
+                                  else collector.last_seq + 1)
+                if cursor is None or cursor >= rollback_start:
+                    # enqueue rollback window and subscriber and serve live!
+                    if cursor is not None:
+                        log(f'serving rollback from {max(cursor, rollback_start)}')
+                        for header, payload in rollback:
+                            if payload['seq'] >= cursor:
+                                subscriber.put_nowait((header, payload))
+
+                    log(f'streaming new events after {rollback[-1][1]["seq"] if rollback else 0}')
+                    subscribers.append(subscriber)
                     break
 
-            log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-            pre_rollback.append((header, payload))
-            cursor = payload['seq'] + 1
-            yield (header, payload)
-
-    # hand off to rollback window and new events
-    if cursor is not None:
-        if not handoff:
-            handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
-        for header, payload in handoff:
-            if payload['seq'] >= cursor:
-                log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-                yield (header, payload)
+            # this cursor is behind our rollback window, so load the window between
+            # the two manually, for this subscriber. (if the rollback window moves
+            # past us while we're doing that, we go around again.)
+            log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
-    # enqueue subscriber and serve live!
-    subscriber = SimpleQueue()
-    try:
-        with lock:
-            if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
-                assert last_seq >= rollback[0][1]["seq"]
+            last_seq = None
+            for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
+                header, payload = process_event(event)
 
-                for header, payload in rollback:
-                    if payload['seq'] > last_seq:
-                        log(f'Emitting rollback (catch-up) {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-                        subscriber.put_nowait((header, payload))
-                        last_seq = payload['seq']
+                if last_seq and payload['seq'] <= last_seq:
+                    non_monotonic(payload['seq'], last_seq, event)
+                    continue
+                last_seq = payload['seq']
 
-            log(f'streaming new events after {rollback[-1][1]["seq"] if rollback else 0}')
-            subscribers.append(subscriber)
+                with lock:
+                    # have we reached the rollback window?
+                    start = rollback[0][1]['seq'] if rollback else rollback_start
+                    if payload['seq'] >= start:
+                        rollback_start = start
+                        remaining_len = rollback.maxlen - len(rollback)
+                        if remaining_len and pre_rollback and rollback:
+                            # merge old events we've loaded onto the end of rollback
+                            # extendleft reverses its argument; reverse again to undo that
+                            pre_rollback = [e for e in pre_rollback
+                                            if e[1]['seq'] < rollback_start]
+                            if pre_rollback := pre_rollback[-remaining_len:]:
+                                log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
+                                assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
+                                    (len(rollback), len(pre_rollback))
+                                assert pre_rollback[-1][1]['seq'] < rollback[0][1]['seq'],\
+                                    (pre_rollback[-1][1]['seq'], rollback[0][1]['seq'])
+                                rollback.extendleft(reversed(pre_rollback))
+
+                        break
+
+                log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                pre_rollback.append((header, payload))
+                cursor = payload['seq'] + 1
+                yield (header, payload)
 
-        # let these get garbage collected
-        handoff = pre_rollback = None
+            # nothing else stored before rollback_start
+            cursor = max(cursor, rollback_start)
+
+        # let this get garbage collected
+        pre_rollback = None
         while True:
-            yield subscriber.get()
+            header, payload = subscriber.get()
+            if cursor is None or payload['seq'] >= cursor:
+                yield (header, payload)
 
     finally:
         log('removing subscriber')
-- 
2.43.0


From f664e5ac9695eca8aeeef6ba862c4cdc9718dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 17/47] fix: firehose: time the wait for a missing seq from
 when we notice the gap

---
 arroba/firehose.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 9cd17c7..083f102 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -268,7 +268,7 @@ class Collector(threading.Thread):
 
         global rollback
         timeout_s = SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY.total_seconds()
-        last_event = time.time()
+        gap_seq = gap_start = None  # missing seq we're waiting for, time we noticed it
         seen = 0
 
         while True:
@@ -297,7 +297,10 @@ class Collector(threading.Thread):
                 # we're not too far behind, wait for it before giving up on it and
                 # moving on
                 if cur_seq > next_seq:
-                    if time.time() - last_event <= timeout_s:
+                    if gap_seq != next_seq:
+                        gap_seq = next_seq
+                        gap_start = time.time()
+                    if time.time() - gap_start <= timeout_s:
                         last = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
                         if last is None:
                             logger.warning('No last seq! will retry...')
@@ -309,7 +312,6 @@ class Collector(threading.Thread):
                     logger.info(f'Gave up waiting for seqs {next_seq} to {cur_seq - 1}!')
 
                 # emit event!
-                last_event = time.time()
                 header, payload = process_event(event)
                 did = payload.get('did') or payload.get('repo')
                 delay_s = int((webutil.util.now() - datetime.fromisoformat(payload['time']))\
-- 
2.43.0


From ae8fe36629304c66859aa0f0cd280dc0e4cbcbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 18/47] fix: retry preloading the firehose's rollback window
 instead of dying

---
 arroba/firehose.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 083f102..37ced21 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -217,7 +217,8 @@ class Collector(threading.Thread):
         super().__init__(*args, daemon=True, name='firehose collector', **kwargs)
         self.limit = limit
 
-    def run(self):
+    def _preload(self):
+        """Loads the rollback window from storage."""
         logger.info(f'preloading rollback window ({PRELOAD_WINDOW})')
         self.last_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
         assert self.last_seq is not None
@@ -243,6 +244,15 @@ class Collector(threading.Thread):
             self.last_seq = rollback[-1][1]['seq']
             logger.info(f'  preloaded seqs {rollback[0][1]["seq"]}-{self.last_seq}')
 
+    def run(self):
+        while True:
+            try:
+                self._preload()
+                break
+            except BaseException as e:
+                logger.exception("Couldn't preload rollback window, will retry...")
+                time.sleep(max(SUBSCRIBE_REPOS_BATCH_DELAY.total_seconds(), 1))
+
         started.set()
 
         while True:
-- 
2.43.0


From cf8203c388f338485341f3bcd127602c23a713dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 19/47] fix: start the firehose, and subscribe to it, on a PDS
 that has no events yet

---
 arroba/firehose.py  | 13 +++++++++++--
 arroba/xrpc_sync.py |  7 +++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 37ced21..80b4ba9 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -102,6 +102,16 @@ def mark_seq_lost(seq):
         lost_seqs.add(seq)
 
 
+def last_seq():
+    """Returns the last allocated ``subscribeRepos`` sequence number, or 0 if none."""
+    last = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
+    if last is None:
+        # fine if nothing has ever been allocated, otherwise we don't know it
+        assert next(iter(server.storage.read_events_by_seq(start=0)), None) is None
+        last = 0
+    return last
+
+
 def subscribe(cursor=None):
     """Generator that returns firehose events.
 
@@ -220,8 +230,7 @@ class Collector(threading.Thread):
     def _preload(self):
         """Loads the rollback window from storage."""
         logger.info(f'preloading rollback window ({PRELOAD_WINDOW})')
-        self.last_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
-        assert self.last_seq is not None
+        self.last_seq = last_seq()
         query = server.storage.read_events_by_seq(
             start=max(self.last_seq - PRELOAD_WINDOW + 1, 0))
 
diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..9c9e767 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -22,7 +22,7 @@ from .datastore_storage import AtpBlock, AtpRemoteBlob, AtpRepo, DatastoreStorag
 from . import firehose
 from .mst import MST
 from . import server
-from .storage import Action, Block, CommitData, CommitOp, SUBSCRIBE_REPOS_NSID
+from .storage import Action, Block, CommitData, CommitOp
 from . import util
 from . import xrpc_repo
 
@@ -142,10 +142,9 @@ def subscribe_repos(cursor=None):
     Returns:
       (dict, dict) tuple: (header, payload)
     """
-    cur_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
-    assert cur_seq is not None
-
     if cursor is not None:
+        cur_seq = firehose.last_seq()
+
         # validate cursor
         if cursor > cur_seq:
             msg = f'Cursor {cursor} is past our current sequence number {cur_seq}'
-- 
2.43.0


From eb62d52a29a605fac4e90a9b98f450628769c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 20/47] fix: sync.getRecord: compute covering proof for the
 record's full path

---
 arroba/xrpc_sync.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 9c9e767..d9a2165 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -219,7 +219,8 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}',
+                                block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From f0215feca89592ac2c2aa39b88a23ad67e5a4cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 21/47] fix: listRepos: report the head commit's rev, not one
 derived from its seq

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index d9a2165..8fb7ffb 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -97,7 +97,7 @@ def list_repos(input, limit=500, cursor=None):
         repo_obj = {
             'did': repo.did,
             'head': repo.head.cid.encode('base32'),
-            'rev': util.int_to_tid(repo.head.seq, clock_id=0),
+            'rev': repo.head.decoded['rev'],
             'active': repo.status is None,
         }
         if repo.status:
-- 
2.43.0


From cb1b7b39da0f34b1d7dbdb8eb1f5f0211399dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 22/47] fix: listRecords: make cursor exclusive so that paging
 always progresses

---
 arroba/xrpc_repo.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index d1a7f8b..d23a5ca 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -98,12 +98,7 @@ def list_records(input, repo=None, collection=None, limit=50, cursor=None,
                  reverse=None,
                  # DEPRECATED
                  rkeyStart=None, rkeyEnd=None):
-    """Handler for `com.atproto.repo.listRecords` XRPC method.
-
-    KNOWN ISSUE: cursor is interpreted as inclusive, so whenever a cursor is
-    used, the response includes the last record returned in the previous
-    response.
-    """
+    """Handler for `com.atproto.repo.listRecords` XRPC method."""
     if SUPPORTED_COLLECTIONS and collection not in SUPPORTED_COLLECTIONS:
         return {'records': []}
 
@@ -120,8 +115,10 @@ def list_records(input, repo=None, collection=None, limit=50, cursor=None,
 
     start = cursor or f'{collection}/'
     entries = list(itertools.islice(
-        itertools.takewhile(lambda entry: entry.key.startswith(f'{collection}/'),
-                            repo.mst.walk_leaves_from(key=start)),
+        (entry for entry in
+         itertools.takewhile(lambda entry: entry.key.startswith(f'{collection}/'),
+                             repo.mst.walk_leaves_from(key=start))
+         if entry.key != cursor),  # cursor is exclusive
         limit))
     blocks = server.storage.read_many([e.value for e in entries])
     records = [blocks[e.value].decoded for e in entries]
-- 
2.43.0


From 63d1d8f59db0a2b4f687685f8acfd6cc4cbfbaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 23/47] fix: repo.getRecord: return empty records instead of
 RecordNotFound

---
 arroba/xrpc_repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index d23a5ca..017f7dd 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -65,7 +65,7 @@ def get_record(input, repo=None, collection=None, rkey=None, cid=None):
         raise ValueError(f'cid not supported yet')
 
     repo = server.load_repo(input['repo'])
-    if not (record := repo.get_record(collection, rkey)):
+    if (record := repo.get_record(collection, rkey)) is None:
         raise XrpcError(f'{collection} {rkey} not found', name='RecordNotFound')
 
     return json.loads(dag_json.encode({
-- 
2.43.0


From de2d517c810f761470562865b906405516fef43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 24/47] fix: getBlob: reject missing and deactivated repos

---
 arroba/xrpc_sync.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 8fb7ffb..80a6089 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -238,6 +238,8 @@ def get_blob(input, did=None, cid=None):
     Right now only supports redirecting to "remote" blobs based on stored
     :class:`AtpRemoteBlob`\s.
     """
+    server.load_repo(did)  # raises if the repo doesn't exist or is deactivated
+
     for blob in AtpRemoteBlob.query(AtpRemoteBlob.cid == cid
                                     ).order(-AtpRemoteBlob.updated):
         if blob.status:
-- 
2.43.0


From 5703491f2c27a41809ba161a32b75e9780ed22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 25/47] fix: deleteRecord: return an output object so that
 successful deletes aren't 400s

---
 arroba/xrpc_repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 017f7dd..0f2571f 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -84,13 +84,14 @@ def delete_record(input):
     repo = server.load_repo(input['repo'])
     record = repo.get_record(input['collection'], input['rkey'])
     if record is None:
-        return  # noop
+        return {}  # noop
 
     server.storage.commit(repo, [Write(
         action=Action.DELETE,
         collection=input['collection'],
         rkey=input['rkey'],
     )])
+    return {}
 
 
 @server.server.method('com.atproto.repo.listRecords')
-- 
2.43.0


From e96392a73110005f5a1caa3273f94d2bf2e1040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 26/47] fix: createSession: check the password before handing
 out the token

---
 arroba/xrpc_server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 0862117..4579b80 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -10,6 +10,12 @@ logger = logging.getLogger(__name__)
 @server.server.method('com.atproto.server.createSession')
 def create_session(input):
     """Handler for ``com.atproto.server.createSession`` XRPC method."""
+    password = os.environ.get('REPO_PASSWORD')
+    if not password:
+        raise NotImplementedError('Sessions are not currently supported')
+    elif input['password'] != password:
+        raise ValueError('Invalid identifier or password')
+
     id = input['identifier']
     repo = server.storage.load_repo(id)
     if not repo:
-- 
2.43.0


From dd050e3227d005881d67eadbd8e69ec657de9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 27/47] fix: importRepo: reject CARs that are missing MST or
 record blocks

---
 arroba/xrpc_repo.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 0f2571f..af945c3 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -15,7 +15,7 @@ from . import did
 from .mst import MST
 from .repo import Repo, Write
 from . import server
-from .storage import Action, Block
+from .storage import Action, Block, MemoryStorage
 from . import server
 from . import util
 from .util import at_uri, dag_cbor_cid, new_key, next_tid, verify_sig
@@ -228,6 +228,17 @@ def import_repo(input):
     elif not repo_did:
         raise ValueError("Head commit block missing DID")
 
+    # check that the MST and all of its records are in the CAR before we store
+    # anything
+    contents = MemoryStorage()
+    contents.write_blocks(blocks)
+    try:
+        leaves = MST.load(storage=contents, cid=head.decoded['data']).leaves()
+    except AttributeError:
+        raise ValueError('CAR is missing MST blocks')
+    if not all(contents.has(leaf.value) for leaf in leaves):
+        raise ValueError('CAR is missing record blocks')
+
     logger.info(f'importing repo for {repo_did}')
 
     for block in blocks:
-- 
2.43.0


From 33e0dd76751c969561797caaea56988ae2705f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 28/47] fix: next_tid: don't hand out the same TID to two
 threads

---
 arroba/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 0cb1e7d..1ef9860 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -8,6 +8,7 @@ from numbers import Integral
 import os
 import random
 import re
+import threading
 import time
 from urllib.parse import urlparse
 
@@ -33,6 +34,7 @@ DOMAIN_RE = re.compile(r'^[^/:;@?!\']+\.[^/:@_?!\']+$')
 # resistant. we use the same clockid for all TIDs coming from this runtime.
 _clockid = random.randint(0, 31)
 _tid_ts_last = 0  # microseconds
+_tid_lock = threading.Lock()  # protects _tid_ts_last
 
 S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 
@@ -216,8 +218,10 @@ def next_tid():
 
     # enforce that we're at least 1us after the last TID to prevent TIDs moving
     # backwards if system clock drifts backwards
-    _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
-    return int_to_tid(_tid_ts_last)
+    with _tid_lock:
+        ts = _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
+
+    return int_to_tid(ts)
 
 
 def at_uri(did, collection, rkey):
-- 
2.43.0


From 9e0348f5e5b9598913b4424cfbc76d574f015b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 29/47] fix: int_to_tid: reject negative numbers and out of
 range clock ids

---
 arroba/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/util.py b/arroba/util.py
index 1ef9860..28e83ca 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -156,6 +156,9 @@ def int_to_tid(num, clock_id=None):
     if clock_id is None:
         clock_id = _clockid
 
+    if num < 0 or not 0 <= clock_id < 32 ** 2:
+        raise ValueError(f"Can't encode {num} with clock id {clock_id} as a TID")
+
     tid = (s32encode(num) +
            s32encode(clock_id).ljust(2, '2'))  # clock id
     assert len(tid) <= 13, tid
-- 
2.43.0


From 1c133a3b115f32757a13eea2ed2a4f33cf1bc525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 30/47] fix: tid_to_int: accept bytes, reject TIDs with invalid
 characters

---
 arroba/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 28e83ca..345e432 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -199,8 +199,11 @@ def tid_to_int(tid):
     if not isinstance(tid, (str, bytes)) or len(tid) != 13:
         raise ValueError(f'Expected 13-character str or bytes; got {tid}')
 
-    encoded = tid.replace('-', '')[:-2]  # strip clock id
-    return s32decode(encoded)
+    if isinstance(tid, bytes):
+        tid = tid.decode()
+
+    s32decode(tid[-2:])  # validates clock id
+    return s32decode(tid[:-2])
 
 
 def next_tid():
-- 
2.43.0


From 4e257b3fdfa3e9cc3afec80282e94a2e853fa151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 31/47] fix: Lease: don't let the memcache key expire up to a
 second before the lease does

---
 arroba/memcache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..a4d4b3d 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -1,6 +1,7 @@
 """Utilities for caching data in memcache."""
 from datetime import timedelta
 import logging
+import math
 import time
 
 import webutil.util
@@ -62,7 +63,7 @@ class Lease:
             # add returns True if the key didn't exist and was set,
             # False if it already existed
             if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
+                               expire=math.ceil(self.expiration.total_seconds())):
                 self.expires_at = webutil.util.now() + self.expiration
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
-- 
2.43.0


From cea67362a3b9c9b1df78df53d89a7808f30acb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 32/47] fix: Lease: measure expiration from before the memcache
 key is added

---
 arroba/memcache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index a4d4b3d..9e1f1f6 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -60,11 +60,13 @@ class Lease:
         delay = self.initial_retry_delay
 
         for attempt in range(self.retries + 1):
+            # the key's expiration starts at some point during the add
+            expires_at = webutil.util.now() + self.expiration
             # add returns True if the key didn't exist and was set,
             # False if it already existed
             if self.client.add(self.key, 'locked', noreply=False,
                                expire=math.ceil(self.expiration.total_seconds())):
-                self.expires_at = webutil.util.now() + self.expiration
+                self.expires_at = expires_at
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
-- 
2.43.0


From 4df07dfda9329eae1c3068a33b1ae3e02ea400ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 33/47] fix: Lease: don't release a second time, someone else
 may hold it by then

---
 arroba/memcache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 9e1f1f6..c369043 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -48,6 +48,7 @@ class Lease:
         self.retries = retries
         self.initial_retry_delay = initial_retry_delay
         self.expires_at = None
+        self.released = False
 
     def acquire(self):
         """Acquire the lease, retrying with exponential backoff if necessary.
@@ -82,6 +83,10 @@ class Lease:
         """Release the lease if we still hold it (hasn't expired)."""
         assert self.expires_at
 
+        if self.released:
+            return
+
+        self.released = True
         if webutil.util.now() <= self.expires_at:
             self.client.delete(self.key)
             logger.debug(f'released memcache lease {self.key}')
-- 
2.43.0


From 0f9ff87ecee58bb533ebb5145cd34d1eb01ae94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 34/47] fix: resolve_handle cached failures for hours

---
 arroba/did.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index dd10ecc..1345a4a 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -47,6 +47,13 @@ HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
 
 
+class SuccessCache(TTLCache):
+    """Cache that doesn't store None, ie failures."""
+    def __setitem__(self, key, value, **kwargs):
+        if value is not None:
+            super().__setitem__(key, value, **kwargs)
+
+
 def resolve(did, **kwargs):
     """Resolves a ``did:plc`` or ``did:web``.
 
@@ -482,7 +489,7 @@ def resolve_web(did, get_fn=session.get):
     return resp.json()
 
 
-@cached(TTLCache(maxsize=CACHE_SIZE, ttl=CACHE_TTL.total_seconds()),
+@cached(SuccessCache(maxsize=CACHE_SIZE, ttl=CACHE_TTL.total_seconds()),
         lock=threading.Lock())
 def resolve_handle(handle, get_fn=session.get):
     """Resolves an ATProto handle to a DID.
-- 
2.43.0


From 0628a2325d2bc808548238af680454135b352189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 35/47] fix: resolve_handle returned a mangled DID when its DNS
 record has several strings

---
 arroba/did.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 1345a4a..f72f991 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -523,9 +523,10 @@ def resolve_handle(handle, get_fn=session.get):
         if answer.canonical_name.to_text() == name:
             for rdata in answer:
                 if rdata.rdtype == TXT:
-                    text = rdata.to_text()
-                    if text.startswith('"did=did:'):
-                        return text.strip('"').removeprefix('did=')
+                    # a long record is split into multiple strings
+                    text = b''.join(rdata.strings).decode(errors='replace')
+                    if text.startswith('did=did:'):
+                        return text.removeprefix('did=')
     except DNSException as e:
         logger.info(repr(e))
 
-- 
2.43.0


From d12fa564d46a1a7e6159f02127856e59c34e7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 36/47] fix: resolve_handle returned text that only starts like
 a DID

---
 arroba/did.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index f72f991..0215943 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -45,6 +45,8 @@ CACHE_TTL = timedelta(hours=6)
 # from https://atproto.com/specs/handle#handle-identifier-syntax
 HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
+# from https://atproto.com/specs/did#at-protocol-did-identifier-syntax
+DID_RE = re.compile(r'^did:[a-z]+:[a-zA-Z0-9._:%-]*[a-zA-Z0-9._-]$')
 
 
 class SuccessCache(TTLCache):
@@ -525,8 +527,10 @@ def resolve_handle(handle, get_fn=session.get):
                 if rdata.rdtype == TXT:
                     # a long record is split into multiple strings
                     text = b''.join(rdata.strings).decode(errors='replace')
-                    if text.startswith('did=did:'):
-                        return text.removeprefix('did=')
+                    if text.startswith('did='):
+                        did = text.removeprefix('did=')
+                        if DID_RE.fullmatch(did):
+                            return did
     except DNSException as e:
         logger.info(repr(e))
 
@@ -539,7 +543,7 @@ def resolve_handle(handle, get_fn=session.get):
 
     if resp.ok:
         did = resp.text.strip()
-        if did.startswith('did:'):
+        if DID_RE.fullmatch(did):
             return did
 
     return None
-- 
2.43.0


From b3548d901341265db798b02523d293aaaa81997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 37/47] fix: resolve_web decoded percent-encoded characters in
 the path of a did:web

---
 arroba/did.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 0215943..321113a 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -480,13 +480,11 @@ def resolve_web(did, get_fn=session.get):
     if not isinstance(did, str) or not did.startswith('did:web:'):
         raise ValueError(f'{did} is not a did:web')
 
-    did = did.removeprefix('did:web:')
-    if ':' in did:
-        did = did.replace(':', '/')
-    else:
-        did += '/.well-known'
+    # only the domain is decoded, for the port. path elements are used as is.
+    domain, *path = did.removeprefix('did:web:').split(':')
+    path = '/'.join(path) or '.well-known'
 
-    resp = get_fn(f'https://{urllib.parse.unquote(did)}/did.json')
+    resp = get_fn(f'https://{urllib.parse.unquote(domain)}/{path}/did.json')
     resp.raise_for_status()
     return resp.json()
 
-- 
2.43.0


From f3241dcb24bddbeab21c43dc11c4c9909b978ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 38/47] fix: resolve_handle looked up handles longer than 253
 characters

---
 arroba/did.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 321113a..d78c50b 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -45,6 +45,7 @@ CACHE_TTL = timedelta(hours=6)
 # from https://atproto.com/specs/handle#handle-identifier-syntax
 HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
+HANDLE_MAX_LENGTH = 253
 # from https://atproto.com/specs/did#at-protocol-did-identifier-syntax
 DID_RE = re.compile(r'^did:[a-z]+:[a-zA-Z0-9._:%-]*[a-zA-Z0-9._-]$')
 
@@ -509,7 +510,7 @@ def resolve_handle(handle, get_fn=session.get):
       ValueError: if ``handle`` is not a valid handle
     """
     if (not handle or not isinstance(handle, str)
-            or not HANDLE_RE.fullmatch(handle)):
+            or len(handle) > HANDLE_MAX_LENGTH or not HANDLE_RE.fullmatch(handle)):
         raise ValueError(f"{handle} isn't a valid Bluesky handle")
 
     logger.info(f'Resolving handle {handle}')
-- 
2.43.0


From 780e2dfa7b2183722b41a61837a3f7f9c381a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 39/47] fix: update_plc ignored the status of its audit log
 request

---
 arroba/did.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/did.py b/arroba/did.py
index d78c50b..46f549b 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -134,6 +134,7 @@ def update_plc(did, handle=None, get_fn=session.get, **kwargs):
     # response is a JSON list with operations from earliest to latest
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
+    resp.raise_for_status()
     last_op = resp.json()[-1]
 
     # merge new data into existing data
-- 
2.43.0


From 78e42503f7a5d2211351172a0c27868d444e1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 40/47] fix: rollback_plc didn't return its documented DidPlc

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 46f549b..55738b3 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -332,7 +332,7 @@ def rollback_plc(did, rotation_key, num_operations=1,
     op['prev'] = log[-1]['cid']
     op.pop('sig', None)
 
-    write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
+    return write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
 
 
 def encode_did_key(pubkey):
-- 
2.43.0


From 8c381804242809a87a896cc36e466e51d88ca607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 41/47] fix: rollback_plc counted nullified operations and
 could roll back to one

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 55738b3..22a3af4 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -320,7 +320,7 @@ def rollback_plc(did, rotation_key, num_operations=1,
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
     resp.raise_for_status()
-    log = resp.json()
+    log = [entry for entry in resp.json() if not entry.get('nullified')]
 
     assert len(log) >= num_operations + 1, log
     rotation_did_key = encode_did_key(rotation_key.public_key())
-- 
2.43.0


From aa80b744b6dc3301089efafa24f29988ea47efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 42/47] fix: create_plc with new_rotation_key sent an operation
 that the directory must refuse

---
 arroba/did.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/did.py b/arroba/did.py
index 22a3af4..86e60ea 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -119,6 +119,9 @@ def create_plc(handle, **kwargs):
     """
     assert 'did' not in kwargs
     assert 'prev' not in kwargs
+    # a DID's first operation has to be signed by one of its own rotation keys
+    if kwargs.get('new_rotation_key'):
+        raise ValueError("can't use new_rotation_key to create a DID, only to update one")
     return write_plc(handle=handle, **kwargs)
 
 
-- 
2.43.0


From 9dcaff5e5570851ad6b3c3e6610b34f67c161fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 43/47] fix: AtpRemoteBlob: handle a body that can't be read
 like any other failed fetch

If the first fetch's response body broke off, the blob stayed active without
a CID and was never fetched again. Also don't judge a response without
Content-Length by the size of the previous one.
---
 arroba/datastore_storage.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index c07744c..d76670b 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -529,6 +529,15 @@ class AtpRemoteBlob(ndb.Model):
                 logger.info('Marking blob inactive')
                 self.status = 'inactive'
             resp.raise_for_status()
+
+            try:
+                length = int(resp.headers.get('Content-Length'))
+            except (TypeError, ValueError):
+                length = None  # read body and check length manually below
+
+            too_big = length is not None and length > BLOB_MAX_BYTES
+            if not too_big:
+                content = resp.content
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
@@ -540,23 +549,18 @@ class AtpRemoteBlob(ndb.Model):
         self.mime_type = (resp.headers.get('Content-Type')
                           or mimetypes.guess_type(url)[0]
                           or 'application/octet-stream')
-        length = resp.headers.get('Content-Length')
         logger.info(f'Got {resp.status_code} {self.mime_type} {length} bytes {resp.url}')
 
-        try:
-            length = self.size = int(length)
-        except (TypeError, ValueError):
-            pass  # read body and check length manually below
-
-        if self.size and self.size > BLOB_MAX_BYTES:
+        if too_big:
+            self.size = length
             self.put()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
-        digest = multihash.digest(resp.content, 'sha2-256')
+        digest = multihash.digest(content, 'sha2-256')
         self.cid = CID('base58btc', 1, 'raw', digest).encode('base32')
-        self.size = len(resp.content)
-        self.generate_metadata(resp.content)
+        self.size = len(content)
+        self.generate_metadata(content)
         self.status = None
         self.put()
 
-- 
2.43.0


From 3c457a5c327c4f9bcd27bb3e888c3c0d49435232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 44/47] fix: AtpRemoteBlob: forget the CID when a re-check
 finds content over BLOB_MAX_BYTES

It kept the old CID with the new size and type, getBlob raised the validation
error without trying other URLs with that CID, and redirected to the URL from
then on.
---
 arroba/datastore_storage.py | 1 +
 arroba/xrpc_sync.py         | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index d76670b..7340d2a 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -552,6 +552,7 @@ class AtpRemoteBlob(ndb.Model):
         logger.info(f'Got {resp.status_code} {self.mime_type} {length} bytes {resp.url}')
 
         if too_big:
+            self.cid = None  # if we had one, this URL doesn't serve it any more
             self.size = length
             self.put()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 80a6089..6dba8cd 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -6,7 +6,7 @@ import os
 
 from carbox import car
 import dag_cbor
-from lexrpc.base import XrpcError
+from lexrpc.base import ValidationError, XrpcError
 from lexrpc.server import Redirect
 from multiformats import CID
 from multiformats.multibase import MultibaseKeyError, MultibaseValueError
@@ -247,7 +247,7 @@ def get_blob(input, did=None, cid=None):
 
         try:
             blob.maybe_fetch(get_fn=webutil.util.session.get)
-        except requests.RequestException:
+        except (requests.RequestException, ValidationError):
             continue
 
         if not blob.status:
-- 
2.43.0


From d2d088cc368ae9c6aa42d7c97b8e9964c1c9135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 45/47] fix: AtpRemoteBlob: drop the old content's dimensions
 and duration when it has changed

A blob that used to be a long video was refused for its duration after its URL
started to serve something else.
---
 arroba/datastore_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 7340d2a..babb651 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -590,6 +590,7 @@ class AtpRemoteBlob(ndb.Model):
         Args:
           content (bytes)
         """
+        self.width = self.height = self.duration = None
         try:
             media_info = MediaInfo.parse(BytesIO(content))
             tracks = media_info.video_tracks or media_info.image_tracks
-- 
2.43.0


From 09b6ff7216302d893de736c4594012792985a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 46/47] fix: AtpRemoteBlob: keep repos that were added during a
 fetch

Storing the result of a fetch overwrote the repos that other workers had added
meanwhile, so that listBlobs missed the blob.
---
 arroba/datastore_storage.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index babb651..dde4117 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -543,7 +543,7 @@ class AtpRemoteBlob(ndb.Model):
                 self.status = 'inactive'
             raise requests.HTTPError(f"Couldn't fetch blob: {e}")
         finally:
-            self.put()
+            self._put_fetched()
 
         # check type, size
         self.mime_type = (resp.headers.get('Content-Type')
@@ -554,7 +554,7 @@ class AtpRemoteBlob(ndb.Model):
         if too_big:
             self.cid = None  # if we had one, this URL doesn't serve it any more
             self.size = length
-            self.put()
+            self._put_fetched()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
@@ -563,6 +563,14 @@ class AtpRemoteBlob(ndb.Model):
         self.size = len(content)
         self.generate_metadata(content)
         self.status = None
+        self._put_fetched()
+
+    @ndb.transactional()
+    def _put_fetched(self):
+        """Stores this blob, including repos that were added during the fetch."""
+        stored = self.key.get()
+        if stored:
+            self.repos += [key for key in stored.repos if key not in self.repos]
         self.put()
 
     def as_object(self):
-- 
2.43.0


From eafef988849915b4685e889a4f8820a5ee10a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:52 +0000
Subject: [PATCH 47/47] fix: importRepo: read the handle before storing
 anything

A DID document whose alsoKnownAs can't be parsed made the import fail after
its blocks were already stored.
---
 arroba/xrpc_repo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index af945c3..9e41443 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -238,6 +238,7 @@ def import_repo(input):
         raise ValueError('CAR is missing MST blocks')
     if not all(contents.has(leaf.value) for leaf in leaves):
         raise ValueError('CAR is missing record blocks')
+    handle = did.get_handle(did_doc)
 
     logger.info(f'importing repo for {repo_did}')
 
@@ -246,8 +247,6 @@ def import_repo(input):
     server.storage.write_blocks(blocks)
 
     mst = MST.load(storage=server.storage, cid=head.decoded['data'])
-
-    handle = did.get_handle(did_doc)
     repo = Repo(storage=server.storage, mst=mst, head=head, handle=handle,
                 status='deactivated', signing_key=new_key(), rotation_key=new_key())
     server.storage.create_repo(repo)
-- 
2.43.0

