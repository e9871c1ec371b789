T = 'TLA+ (TLC): '
MC = 'model_checking'
CLAIMS = {
 'M01': (T + 'exhaustive model of the edit algorithm; every transition of its state graph replayed into the real tree; recorded edit histories validated against the canonical-tree spec', MC,
         'Complete for all layer assignments and histories over small key sets at the model and replay level; sampled histories up to hundreds of keys beyond. Trusts SHA-256, dag_cbor and the independent node codec.'),
 'M02': (T + 'trace validation of every query of real trees against a sorted-map specification', MC,
         'Seeded histories with queries at, between and outside keys, on old and new versions; sampled, not exhaustive, on the code side.'),
 'M03': (T + 'trace validation of real diffs against the set-theoretic diff of the specification', MC,
         'Seeded pairs of trees, related and unrelated, in memory and lazily loaded; new/removed node sets compared by identity.'),
 'M04': (T + 'trace validation of unstored-block reports against reachable-minus-stored in the specification', MC,
         'Seeded interleavings of edits, saves and reloads, with a fresh reader after each save.'),
 'M05': (T + 'trace validation of the payloads the firehose builds for every commit of recorded histories: the operations are inverted on the shipped partial tree by the specification', MC,
         'Histories generated by TLC from the PDS model, on both storages; the inversion is decided on node identities, so it trusts SHA-256 and the node codec.'),
 'S01': (T + 'TLC-generated histories with invalid operations, limits and injected storage faults replayed on both storages; every later reader validated against the PDS state machine; exhaustive design model of the commit protocol', MC,
         'Storage faults are clean (the failed database call has no effect); the database is an in-process serialisable stand-in for Cloud Datastore at the RPC level.'),
 'S02': (T + 'trace validation of every head commit of TLC-generated histories: chain, tree contents, revision, independently verified signature', MC,
         'Sampled histories on both storages; revisions of overlapping commits are not ordered (see DESIGN.md).'),
 'S03': (T + 'TLC-generated histories replayed on both storages; contents, single records and operation lists validated against the PDS state machine', MC,
         'Sampled histories over small key and value sets with collisions forced; values are opaque.'),
 'S04': (T + 'TLC-generated status histories through several handles, plus concurrent executions under a controlled scheduler, validated against the PDS state machine', MC,
         'Status changes and their event are two storage operations: faults between the two are out of scope.'),
 'S05': (T + 'trace validation of the block store as a write-once map over all read paths, with rewrites and imports', MC,
         'Sampled; trusts SHA-256 and dag_cbor.'),
 'S06': (T + 'all complete behaviours of two committers in the design model replayed as schedules of the real code, random and PCT schedules at every RPC beyond; final state validated as a serial order by the specification', MC,
         'The database is an in-process serialisable stand-in; faults are clean aborts and failures.'),
 'S07': (T + 'trace validation of allocated numbers against log entries and callback reports, with failing observers and storage faults, sequential and concurrent; exhaustive design model', MC,
         'Provided the process survives and allocation itself reports the number it took.'),
 'S08': (T + 'trace validation of the event log from every starting number and per repo against the specification log', MC,
         'Sampled histories including imported and look-alike blocks on both storages.'),
 'S09': (T + 'trace validation of lookups and paging against the specification repo map', MC,
         'Up to seven repos per history; renames, all statuses, all page sizes.'),
 'Q01': (T + 'exhaustive design model of the memcache-backed allocator; random and PCT schedules of several processes and threads of the real allocators, at every memcache and database call (and every bytecode for the in-memory one), with evictions, crashes and failures, validated against the allocator spec', MC,
         'Within the environment the allocator is designed for: fewer than BUFFER numbers outstanding, no eviction while a process is installing a counter (both recorded as known findings). Memcache and database are in-process stand-ins; database faults are clean.'),
 'F01': (T + 'the real collector, subscribers and committers run on a controlled scheduler (random, sticky and PCT policies, preempted at log reads, locks and sampled source lines); the streams recorded are validated against the event stream specification', MC,
         'Sampled schedules; threading, queue and time are replaced by stand-ins on a virtual clock, so numbers already in flight when the collector starts are the only excluded case.'),
 'F02': (T + 'same executions: every hole, early event and lost hand-off between replay, rollback and live is decided by the specification', MC,
         'Sampled schedules over histories of up to 14 events with small rollback and preload windows and paged log reads; numbers in flight when the collector starts are excluded; a subscriber a whole window behind may be dropped.'),
 'F03': (T + 'same executions on a virtual clock: each passed-over number must have been durable, lost, timed out or out of the window, by the recorded log reads; lost numbers must not be waited for', MC,
         'Sampled schedules and timings; single process as seen by one collector.'),
 'F04': (T + 'histories that settle after every step; frames and streams of the endpoint for every kind of cursor compared with the exact prediction of the cursor specification', MC,
         'Sampled log lengths, window sizes and cursors, including the empty log and subscribers that come before the collector.'),
 'F05': (T + 'executions with injected failures at every log read, preload and block read, and with leaving and stalling subscribers, validated against the event stream specification', MC,
         'Failures are exceptions from storage reads; sampled positions and schedules.'),
 'F06': (T + 'executions with missed, early and bursty notifications and repeated start(), run to quiescence on the virtual clock: everything owed must have arrived', MC,
         'Bounded liveness: after all gap waits could have expired on the virtual clock.'),
 'X01': (T + 'histories generated by TLC from the PDS model, played through the storage and the HTTP interface; every export decoded and compared by the specification with the exact set of blocks reachable from the head', MC,
         'Sampled histories on both storages; exports since a revision are bounded below and above, not fixed. Trusts SHA-256, carbox and dag_cbor.'),
 'X02': (T + 'same histories; every record proof must contain the root-to-record path of the specification tree, every block fetch exactly the blocks asked for', MC,
         'Sampled histories and paths, present, absent and malformed.'),
 'X03': (T + 'archives built by an independent encoder, intact and broken in every way listed, imported between the steps of TLC-generated histories; acceptance, effects and later commits decided by the specification', MC,
         'Archives of up to eight records; DID documents are served by a stand-in.'),
 'X04': (T + 'every state-changing method called with every kind of bearer token inside TLC-generated histories; acceptance, leaks and all later reads decided by the specification', MC,
         'Sampled; header values from a fixed list of near misses.'),
 'X05': (T + 'histories of API calls generated by TLC from the API model, played over HTTP and directly; every answer and every later reader validated against the record map of the specification', MC,
         'Sampled histories; overlapping calls are covered at the storage level (S06).'),
 'X06': (T + 'same histories; cursors of all three listings followed to the end for many limits and compared with the exact sorted list of the specification', MC,
         'Collections whose names are prefixes of each other, up to 130 records, limits 1 to 100; items do not change while paging.'),
 'X07': (T + 'same histories with status changes; every read method, listing and status answer compared with the head, revision and status of the specification', MC,
         'Sampled histories on both storages; DISABLE_GETREPO mode is not covered.'),
 'L01': (T + 'exhaustive design model of the lease protocol (also showing which assumption each guarantee needs); behaviours of that model and random timings replayed on the real class on a virtual clock, and every memcache call, entry and exit validated against the lease specification', MC,
         'memcached evicts nothing and keeps exact time; expirations are positive and at most 30 days; a worker that stalls between checking the clock and the delete is a known finding.'),
 'T01': (T + 'generated clocks (standing still, jumping back) and preemption at every bytecode of the generator, with the TIDs returned validated against the specification of strictly increasing identifiers', MC,
         'One process; sampled schedules and clocks.'),
 'T02': (T + 'the positional-notation specification (exhaustively checked small) evaluated by TLC on every conversion recorded from the real functions, for boundary and random numbers, datetimes and malformed strings', MC,
         'Sampled inputs around every power of 2, 10 and 32, all zones and offsets; naive datetimes in a non-UTC process zone are not covered.'),
 'P01': (T + 'design model of a chain with nullified operations; histories of creations, updates, rotations and rollbacks generated by TLC, played through the real functions against an independent validating directory; every request, answer and document validated against the PLC specification', MC,
         'Sampled histories; the directory is a stand-in with its own encoder and signature check. Trusts the cryptography library.'),
 'D01': (T + 'histories of DNS and HTTPS outcomes and repeated calls generated by TLC from the resolution model, played on the real functions with the network replaced by a recorder; every request and answer validated against the specification', MC,
         'Sampled; expiry of cached successes and several conflicting DNS records are not covered.'),
 'B01': (T + 'exhaustive design model of a redirecting blob server with changing URLs (also showing what each rule prevents); histories generated by it played through the real functions and HTTP methods with URLs, clock and datastore as stand-ins; every fetch, answer and stored blob validated against the blob specification', MC,
         'Sampled histories; answers are 200/203, 4xx, 5xx, failed connections and bodies that break off. Two recorded findings: other content found by the same request, and URLs that agree in their first 1500 bytes.'),
}
NOT_APPLICABLE = {}
