#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 3, (id, statement)
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

T = 'tree/transparency/'
p('C01', 'The log tree commits to exactly the leaves appended, in order',
  'After any sequence of appends the log tree\'s root is the left-balanced Merkle tree hash of exactly the leaves appended, in order, and it does not depend on how the tree was stored, reopened or extended. For every tree size, every set of leaves and every previously observed size the log can produce a batch proof, made of exactly the subtree hashes that the verifier lacks. The structural functions of the tree (parents, children, copaths, full subtrees) agree with the recursive definition of that tree.',
  ['inputs', 'histories'], 'every sequence of appended leaves, every (set of positions, size n, earlier size m, additional size p) with m, p <= n',
  'Tests build a handful of small trees and a few proofs; the bit tricks and chunked storage have to be right for every size and every combination of positions and sizes.',
  ['tree/log/log.go', 'tree/log/chunk.go', 'tree/log/math/math.go'],
  [('Append, GetBatch, batch proofs', 'tree/log/log.go'), ('storage of subtrees in chunks', 'tree/log/chunk.go'), ('tree arithmetic', 'tree/log/math/math.go')],
  [('chunks', 'stored intermediate hashes by chunk id', 'tree/log/chunk.go')], ['Tree.Append', 'Tree.GetBatchProof', 'Tree.GetInclusionProof', 'Tree.GetConsistencyProof'])
p('C02', 'Log tree proofs convince a verifier only of what the root commits to',
  'A batch proof is accepted only if it has exactly the expected number of elements, and the full subtrees it yields, combined with those the verifier retained for the earlier size, are then those of one tree that extends the earlier one and has the claimed leaves in the claimed places. Changing any leaf, position, size, retained value or proof element either makes verification fail or changes the root that is derived. Honest proofs always verify and yield the true root.',
  ['inputs'], 'every honest proof and every alteration of its leaves, positions, sizes, retained subtrees or elements',
  'Tests verify a few honest proofs; soundness is about all the dishonest ones.',
  ['tree/log/verify.go', 'tree/log/math/math.go'],
  [('Verifier.Evaluate', 'tree/log/verify.go'), ('batch copath computation', 'tree/log/math/math.go')],
  [('retained full subtrees', 'what a verifier remembers of an earlier tree', 'tree/log/verify.go')], ['log.Verifier'])
p('C03', 'The prefix tree is a versioned map with a canonical root and exact proofs',
  'Every version of the prefix tree denotes the map obtained by applying the additions and removals made so far, and its root depends on that map alone. Searching any version for any set of keys returns exactly which are present, with which commitments, and a proof consisting of exactly what is needed to recompute that version\'s root. Older versions remain searchable and unchanged by later ones.',
  ['inputs', 'histories'], 'every sequence of mutations (adds, removals, replacements, batches with shared prefixes), every batch of keys searched in every version',
  'Tests insert random keys, which nearly never share long prefixes, and check few batches; the interesting cases are deep shared paths, collapses after removals, keys added and removed at once, and batches that reach the same leaf.',
  ['tree/prefix/prefix.go', 'tree/prefix/nodes.go', 'tree/prefix/batch.go', 'tree/prefix/proof.go'],
  [('Mutate', 'tree/prefix/prefix.go'), ('batched search', 'tree/prefix/batch.go'), ('tiles of nodes in storage', 'tree/prefix/nodes.go')],
  [('tiles', 'stored pieces of the tree, per version', 'tree/prefix/nodes.go')], ['prefix.Tree.Mutate', 'prefix.Tree.Search'])
p('C04', 'Prefix tree proofs convince a verifier only of what the root commits to',
  'For any root of a prefix tree, a proof that evaluates to that root shows a key to be present with a commitment only if it is, and to be absent only if it is. The same proof evaluated before and after a set of additions and removals yields two roots only if exactly that change leads from the one to the other. Malformed proofs (contradicting results, results at impossible depths, surplus or missing elements, duplicate keys) are refused.',
  ['inputs'], 'every tree, every set of keys and every proof, honest or altered',
  'Tests check honest proofs and single bad ones; a forged proof can be assembled in many ways (wrong result kind, wrong leaf, swapped depths, opaque subtrees).',
  ['tree/prefix/verify.go', 'tree/prefix/proof.go', 'tree/prefix/nodes.go'],
  [('Evaluate and EvaluateBeforeAfter', 'tree/prefix/verify.go'), ('proof results', 'tree/prefix/proof.go')], (), ['prefix.Evaluate', 'prefix.EvaluateBeforeAfter'])
p('C05', 'Binary ladders find the greatest version, for every 32-bit version',
  'For every target version and every actual greatest version, the lookups of a binary ladder are those of an exponential followed by a binary search, end as soon as the comparison with the target is decided, and leave out lookups only if other log entries already answer them. Interpreting the results yields less, equal or greater exactly when the greatest version is less than, equal to or greater than the target, and refuses results that do not fit. This holds on the whole 32-bit range without overflow.',
  ['inputs'], 'all pairs of 32-bit versions and all sets of omitted lookups',
  'Tests have a few small examples; behaviour near powers of two, at the top of the range and under omission is not covered.',
  [T + 'math/ladders.go', T + 'math/tracker.go', T + 'algorithms/proof_handle.go'],
  [('ladders', T + 'math/ladders.go'), ('omission of redundant lookups', T + 'math/tracker.go'), ('interpretation of results', T + 'algorithms/proof_handle.go')], (), ['math.SearchBinaryLadder', 'math.MonitoringBinaryLadder', 'math.SearchMaps'])
p('C06', 'Search tree paths and distinguished entries are computed right and are stable',
  'The implicit search tree (root, children, paths, frontier) agrees with its recursive definition for every log size, and a log entry is distinguished exactly when the timestamps around it in that tree are at least the reasonable monitoring window apart. Updating a user\'s view inspects exactly the entries that the definition prescribes, and an entry once found distinguished remains so as the log grows.',
  ['inputs', 'histories', 'configurations'], 'every log size, every monotonic sequence of timestamps, every monitoring window',
  'Tests use few sizes and fixed timestamps; boundary cases (equal gaps, single entries, sizes at powers of two) decide who monitors what.',
  [T + 'math/math.go', T + 'algorithms/algorithms.go', T + 'algorithms/update.go'],
  [('implicit binary search tree', T + 'math/math.go'), ('distinguished log entries', T + 'algorithms/algorithms.go')], (), ['math.Root/Left/Right/Frontier/UpdateView', 'previous rightmost distinguished entry', 'distinguished entries reported to users'])
p('C07', 'Honest searches are answered, and the answer verifies and is the right one',
  'In every honest history, a search for a version of a label that exists and has not expired is answered and accepted by every user whose view is of this log, whatever the user has seen before. The value accepted is the value stored for that version, and the version found by a greatest-version search is the greatest one there is. Searches for versions that do not exist never succeed.',
  ['histories', 'configurations', 'schedules'], 'every honest history of log entries, users and requests, in every deployment mode and configuration, served by current or older instances',
  'Tests run a fixed history of one user; what is omitted from a proof depends on the user\'s previous view, on distinguished entries and on the position of versions in the log.',
  [T + 'transparency.go', T + 'client.go', T + 'client_crypto.go', T + 'algorithms/search.go', T + 'algorithms/proof_handle.go', T + 'algorithms/data_provider.go'],
  [('server side of a search', T + 'transparency.go'), ('verification', T + 'client.go'), ('search algorithms', T + 'algorithms/search.go')],
  [('user state', 'tree head, frontier and full subtrees', T + 'structs/client.go')], ['Tree.Search', 'Client.GreatestVersionSearch', 'Client.FixedVersionSearch'])
p('C08', 'A search result is accepted only if the log\'s tree head commits to it',
  'Whatever response a user is given, it is accepted only if the value, version and claims about other versions are true of the log that the signed tree head commits to, and every part of the response is needed and consistent. Altered, truncated, extended, replayed or recombined responses are refused and leave the user\'s state unchanged.',
  ['inputs', 'histories'], 'every response, obtained from honest ones by any alteration or from a log that answers about other contents, at every point of a user\'s history',
  'Tests never give the client a dishonest response.',
  [T + 'client.go', T + 'client_crypto.go', T + 'algorithms/search.go', T + 'algorithms/proof_handle.go', T + 'algorithms/data_provider.go', 'tree/prefix/verify.go', 'tree/log/verify.go'],
  [('verification', T + 'client.go'), ('received proofs', T + 'algorithms/proof_handle.go')], (), ['verify functions of Client'])
p('C09', 'A user\'s view of the log only moves forward, along a single log',
  'A user\'s successive views are of the same log: a tree head is accepted only if it is properly signed and extends the one accepted before, with timestamps that never decrease, and a user who has seen one of two forks never accepts the other. Views never go back, however requests and responses are delayed, reordered or duplicated, and a refused response leaves the state as it was.',
  ['histories', 'schedules', 'inputs'], 'every set of forks of a log, every interleaving of requests and responses of a user, every alteration of tree heads',
  'Tests have one log and one request at a time.',
  [T + 'client.go', T + 'client_crypto.go', T + 'algorithms/data_provider.go', T + 'algorithms/update.go', 'tree/log/verify.go'],
  [('start and end of verification', T + 'client_crypto.go'), ('update of the view', T + 'algorithms/update.go')],
  [('user state', 'tree head, auditor tree head, frontier, full subtrees', T + 'structs/client.go')], ['persisted state after each verification'])
p('C10', 'Contact monitoring keeps tracking a version until it is distinguished',
  'After a search whose result is not yet covered by a distinguished entry, the user retains what is needed to check, in later views, that the version found stays in the log, and goes on until a distinguished entry covers it. Honest logs always pass this monitoring, and a log that drops or replaces the version is detected. Nothing is retained that is no longer needed, and nothing needed is dropped.',
  ['histories', 'inputs'], 'every history of searches, log growth and monitoring, with honest and dishonest logs',
  'The tests of the algorithm are small examples; which entries have to be monitored depends on the whole history.',
  [T + 'client.go', T + 'monitor.go', T + 'client_crypto.go', T + 'algorithms/monitor.go'],
  [('monitoring map', T + 'algorithms/monitor.go'), ('client side', T + 'client.go'), ('server side', T + 'monitor.go')],
  [('monitoring map', 'positions and versions to monitor, per label', T + 'structs/client.go')], ['Client.Monitor', 'Tree.ContactMonitor'])
p('C11', 'Owner monitoring reports every version of the label at each distinguished entry',
  'An owner who initializes and keeps monitoring learns, at each distinguished entry since the starting one, exactly which versions of the label exist there, and accepts only if they are the versions the owner created. Honest logs always pass, over any number of entries and in any number of steps, and unknown or missing versions are detected.',
  ['histories', 'inputs'], 'every history of initialization, updates and monitoring by owners, with honest and dishonest logs',
  'Tests run single steps over fixed trees.',
  [T + 'client.go', T + 'monitor.go', T + 'algorithms/monitor.go'],
  [('owner algorithms', T + 'algorithms/monitor.go'), ('client side', T + 'client.go'), ('server side', T + 'monitor.go')],
  [('owner state', 'starting entry, version there, upcoming versions', T + 'structs/client.go')], ['Client.OwnerInit', 'Client.Monitor', 'Tree.OwnerInit', 'Tree.OwnerMonitor'])
p('C12', 'An owner\'s update reports every version since, and adds the new ones once',
  'The responses to an update report, in order and without gaps, every version the owner did not know of and then the new ones, each shown to be included and to be the greatest where it was created. The owner accepts only responses with the values asked for, and afterwards knows exactly the versions that exist. An update that cannot be carried out is reported as failed and adds nothing to the owner\'s state.',
  ['histories', 'inputs', 'schedules'], 'every state of the label, number of values, concurrent mutation, failure of sequencing, and alteration of responses',
  'There is one test with a single update.',
  [T + 'update.go', T + 'client.go', T + 'algorithms/update.go', T + 'algorithms/monitor.go'],
  [('stream of responses', T + 'update.go'), ('verification of the stream', T + 'client.go')],
  [('owner state', 'starting entry, version there, upcoming versions', T + 'structs/client.go')], ['Tree.Update', 'Client.Update', 'StreamVerifier'])
p('C13', 'Each mutation adds one log entry that makes exactly the requested changes',
  'A successful mutation appends one log entry whose prefix tree differs from the previous one in exactly the versions added (numbered consecutively per label) and the labels removed, whose timestamp does not go back, and whose signed tree head covers it. Labels are removed only if they were not modified since the last distinguished entry. Earlier entries, versions and values are unaffected, and instances opened later see exactly the committed state.',
  ['histories', 'inputs', 'configurations'], 'every sequence of mutations with any labels (repeated, removed and re-added), values and times',
  'Tests perform a few mutations on fresh trees.',
  [T + 'mutate.go', T + 'crypto.go', T + 'transparency.go'],
  [('Mutate', T + 'mutate.go'), ('label index', T + 'mutate.go')],
  [('index', 'positions of the versions of a label', T + 'mutate.go'), ('tree head', 'signed size and root', T + 'transparency.go')], ['Tree.Mutate', 'Tree.TreeHead', 'searches afterwards'])
p('C14', 'The on-disk store recovers to a committed state after a crash at any point',
  'If the process or machine stops at any moment, reopening the database yields the state as of some commit: the last one acknowledged or the one in progress, whole. The log opened on it continues to answer, to verify and to grow from there, and users\' views of acknowledged heads remain valid.',
  ['crash_points', 'histories'], 'every prefix of the bytes written to the database, at every commit of every history',
  'Tests use an in-memory store and never crash.',
  ['db/leveldb.go', T + 'mutate.go'],
  [('batch written atomically on Commit', 'db/leveldb.go')], [('batch', 'pending writes', 'db/leveldb.go')], ['db.NewLDBTransparencyStore after truncation of the journal'])
p('C15', 'Stores hide uncommitted writes from other readers, and all behave the same',
  'Writes made through one handle on the on-disk store become visible to other handles only by a commit and then all at once, and a clone neither disturbs nor is disturbed by pending writes. Reads return what was last written for exactly that key, with labels, versions, positions and tiles never confused with one another. A log behaves identically on every store that is provided.',
  ['histories', 'schedules', 'inputs'], 'every sequence of reads, writes, deletions, commits and clones, with arbitrary labels and keys',
  'Tests exercise the stores only through one tree.',
  ['db/leveldb.go', 'db/memory/memory.go', 'db/db.go'],
  [('key encoding and batches', 'db/leveldb.go'), ('maps', 'db/memory/memory.go')], [('batch', 'pending writes', 'db/leveldb.go')], ['db.TransparencyStore'])
p('C16', 'An auditor that follows an honest log accepts every update and agrees with it',
  'Fed with the updates of an honest log in order, an auditor accepts each of them, computes the same prefix tree root and log root as the log, and issues tree heads that the log\'s users accept. This holds for any mixture of additions and removals and across restarts.',
  ['histories', 'configurations'], 'every honest history, with commits and restarts of the auditor at any point',
  'There is a single test with random additions.',
  [T + 'auditor/auditor.go', T + 'auditor/state.go', 'tree/prefix/verify.go', T + 'mutate.go'],
  [('Process and Commit', T + 'auditor/auditor.go'), ('evaluation before and after', 'tree/prefix/verify.go')],
  [('auditor state', 'tree head, timestamps, prefix root, recent insertions', T + 'auditor/state.go')], ['Auditor.Process', 'Auditor.Commit'])
p('C17', 'An auditor signs only logs that follow the rules, even across restarts',
  'An auditor accepts an update only if it is a proper continuation: timestamps do not decrease, versions already present are not replaced, only entries that were not inserted recently are removed, and the proof shows exactly this change to the tree it knows. It signs one head per log size, never contradicting an earlier one after a restart or a failed write, and a refused update changes nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'every update, honest or altered, at every point of an auditor\'s history, with restarts and failing writes',
  'Tests feed an auditor honest updates only.',
  [T + 'auditor/auditor.go', T + 'auditor/state.go', 'tree/prefix/verify.go'],
  [('checks of an update', T + 'auditor/auditor.go'), ('persistence before signing is published', T + 'auditor/auditor.go')],
  [('auditor state', 'tree head, timestamps, prefix root, recent insertions', T + 'auditor/state.go')], ['Auditor.Process', 'Auditor.Commit', 'AuditorStore contents'])
p('C18', 'Every message and stored record survives encoding, and encodings are exact',
  'Every request, response, proof, tree head and stored state that the system produces can be encoded, and decoding yields the same thing, with nothing left over. The bytes signed, committed to and hashed are those the protocol defines, so that two different contents never have the same encoding. Input that is not an encoding is refused.',
  ['inputs'], 'every message and record that can occur, and truncations or alterations of encodings',
  'Tests encode few structures; optional parts, empty vectors and extreme numbers are not covered.',
  [T + 'structs/structs.go', T + 'structs/operations.go', T + 'structs/client.go', T + 'structs/crypto.go', T + 'structs/config.go', T + 'structs/tree_head.go', T + 'structs/proofs.go', T + 'structs/third_party.go', T + 'auditor/state.go', 'tree/prefix/proof.go'],
  [('Marshal and New functions', T + 'structs')], (), ['structs.Marshal', 'structs.New*'])
p('C19', 'No message, however malformed, crashes or hangs the party that receives it',
  'Log, user and auditor survive any request, response or update, decoded from arbitrary bytes or built with arbitrary contents: they return an error or a result in bounded time and memory, and never panic. After refusing a message they continue to work as before.',
  ['inputs', 'histories'], 'every byte string given to a decoder and every message given to the log, a user in any state, or an auditor',
  'Tests give every party well-formed messages.',
  [T + 'structs/structs.go', T + 'structs/operations.go', T + 'transparency.go', T + 'monitor.go', T + 'update.go', T + 'client.go', T + 'client_crypto.go', T + 'algorithms/proof_handle.go', T + 'auditor/auditor.go', 'tree/prefix/proof.go', 'tree/log/verify.go'],
  [('validation of requests', T + 'monitor.go'), ('decoders', T + 'structs/structs.go')], (), ['all entry points'])
p('C20', 'Under third-party management values are accepted only if the manager signed them',
  'Versions submitted through a service operator are signed over configuration, label, version and value; the log refuses submissions with any other signature and has exactly what was signed added, and users accept a value only with a valid signature for exactly that label and version. The operator signs, in order, exactly the versions it creates, never two values for one version of a label, and reports every failure.',
  ['histories', 'inputs', 'schedules', 'fault_sequences'], 'every sequence of updates through the manager, including concurrent and failing ones, and every alteration of what users receive',
  'Tests do not cover management at all.',
  [T + 'managed/managed.go', T + 'client_crypto.go', T + 'structs/crypto.go', T + 'update.go', T + 'mutate.go'],
  [('ManagedLog.Update', T + 'managed/managed.go'), ('verification of the suffix', T + 'client_crypto.go')],
  [('version counters', 'greatest version the manager signed, per label', 'db/memory/memory.go')], ['managed.Log', 'messages signed with the leaf key'])
p('C21', 'A failing store or signer never leaves partial effects behind',
  'If any storage or signing operation fails during an operation of the log, of a user or of an auditor, the operation reports an error and has no effect: what is stored, what is served and what is accepted afterwards is as if it had not been attempted. After the fault is gone the same operation succeeds.',
  ['fault_sequences', 'histories'], 'a failure at each call to a store or signer during each operation of every history',
  'Tests never make a store or signer fail.',
  [T + 'mutate.go', T + 'client.go', T + 'client_crypto.go', T + 'auditor/auditor.go', T + 'update.go', T + 'transparency.go', T + 'managed/managed.go'],
  [('writes deferred until everything is computed', T + 'mutate.go'), ('state stored last', T + 'client.go')], (), ['stores after a failed operation'])
p('C22', 'VRF, commitments and signatures behave as the protocol requires',
  'With each cipher suite provided, the VRF output proven is the one that verifies, a proof verifies only for its key, input and output, and outputs are a function of key and input; every alteration of a proof, signature or key is refused or is equivalent. A commitment opens only to the label, version and value it was made for. Encodings of keys are canonical and invalid keys are refused.',
  ['inputs'], 'every key, input and alteration of proofs, signatures and encodings, in both suites',
  'Tests check published vectors and one round trip.',
  ['crypto/vrf/edwards25519/edwards25519.go', 'crypto/vrf/p256/p256.go', 'crypto/commitments/commitments.go', 'crypto/suites/kt_sha256_p256.go', 'crypto/suites/kt_sha256_ed25519.go', T + 'crypto.go'],
  [('VRFs', 'crypto/vrf'), ('suites', 'crypto/suites')], (), ['vrf.PublicKey.Verify', 'commitments.Commit', 'suites.CipherSuite'])
p('C23', 'Freshness, expiry and configuration limits are enforced exactly',
  'A view is accepted only if the rightmost timestamp is within the configured distance ahead of and behind the user\'s clock and, with an auditor, only if the auditor\'s head lags by at most the configured amount. Versions whose lifetime is over can neither be searched for nor initialized from, and those that are not over can. Signatures bind the whole configuration, so a user configured differently accepts nothing.',
  ['configurations', 'inputs', 'histories'], 'every configuration and every time, in particular the boundary values, and every difference between the configurations of the parties',
  'Tests use one configuration and no clock differences.',
  [T + 'algorithms/update.go', T + 'algorithms/search.go', T + 'algorithms/monitor.go', T + 'client_crypto.go', T + 'structs/config.go'],
  [('clock checks', T + 'algorithms/update.go'), ('expiry', T + 'algorithms/search.go'), ('auditor lag', T + 'client_crypto.go'), ('configuration in signed data', T + 'structs/config.go')], (), ['verification of responses at boundary times'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
