#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CLK="a settable clock (tag verif) so that distinguished entries, expiry and clock bounds can be reached in milliseconds of real time"
T="tree/transparency/"
p("P01","Honest searches always verify and return the true value",
 "For every history of label updates (removals of labels are P29), every deployment mode and cipher suite, and every client state reachable by honest interaction, a greatest-version or fixed-version search answered by the real server is accepted by the real client after a wire round trip. The value and version accepted are exactly those most recently assigned (or assigned at that version), and a search for a label or version that does not exist is answered with the label-not-found error rather than a value, a panic or a malformed proof.",
 ["histories","inputs","configurations"],"all sequences of mutations and searches x label/version queries x client tree sizes (none, old, same, newest) x modes x suites",
 "The client and its verifier have no tests at all; server search tests check a handful of fixed trees and never verify the response.",
 [T+"transparency.go",T+"client.go",T+"client_crypto.go",T+"algorithms/search.go",T+"algorithms/proof_handle.go"],
 [("server search",T+"transparency.go:Tree.Search"),("client verification",T+"client.go:Client.search")],
 ["VerifyFunc result","ClientStore contents","SearchResponse"],CLK)
p("P02","A search response that lies about a value or version is never accepted",
 "Whatever a server or network returns, a client accepts a search response only if the value and version in it are the ones committed to for that label in the signed tree; a response altered in any field, transplanted from another label, version, request or tree, or produced by a key-holding server that hides, substitutes or invents versions inside one tree, is rejected.",
 ["inputs","histories"],"all responses (field-level and byte-level alterations of honest ones, splices of honest ones, and responses of a server holding the real keys over a falsified store) for all honest client states",
 "No test exercises response verification; the set of responses is unbounded and adversarial.",
 [T+"client.go",T+"client_crypto.go",T+"algorithms/proof_handle.go",T+"math/ladders.go","tree/prefix/verify.go","tree/log/verify.go"],
 [("proof evaluation",T+"algorithms/proof_handle.go:ReceivedProofHandle"),("commitment and VRF checks",T+"client_crypto.go")],
 ["VerifyFunc result","ClientStore contents"],CLK)
p("P03","A client never accepts a fork, rollback or rewrite of the log it has seen",
 "Once a client has retained a tree head, every later response it accepts (search, monitoring or update) is from a tree that contains the retained tree as a prefix, and the size of the tree it retains never decreases. A key-holding server that presents a shorter tree, a tree of any size whose earlier entries differ, or altered retained timestamps is rejected and the retained state stays as it was.",
 ["histories","inputs","fault_sequences"],"all pairs of (retained client state, later tree forked at any earlier entry / truncated / re-signed), for every operation type",
 "Requires a client that persists across responses and an equivocating server; no test has either.",
 [T+"client_crypto.go","tree/log/verify.go",T+"algorithms/data_provider.go"],
 [("consistency proof",T+"client_crypto.go:verifier.finish"),("tree size check",T+"client_crypto.go:verifier.verifyTreeHead")],
 ["VerifyFunc result","retained client state"],CLK)
p("P04","Timestamps never go backwards and stay within the configured clock bounds",
 "The server never issues a log entry whose timestamp is smaller than its predecessor's, whatever its clock does, and a refused issue changes nothing. A client accepts a tree only if all timestamps shown are monotonic and the newest one lies within the configured maximum distance ahead of and behind the client's clock, and accepts it at exactly those bounds.",
 ["inputs","histories","configurations"],"all clock movements (forwards, backwards, jumps) on server and client, all bounds, all responses with altered timestamps",
 "Tests run on the wall clock and can neither step it back nor sit on the exact bound.",
 [T+"mutate.go",T+"algorithms/algorithms.go",T+"algorithms/data_provider.go"],
 [("issue guard",T+"mutate.go:Tree.Mutate"),("view update",T+"algorithms/algorithms.go:UpdateView"),("monotonicity",T+"algorithms/data_provider.go:addTimestamp")],
 ["log entries written","VerifyFunc result"],CLK)
p("P05","Log tree roots and batch proofs equal an independent Merkle-tree definition",
 "For every tree size, the root and full-subtree values produced by the database-backed log and by the in-memory append are equal to those of a directly computed left-balanced Merkle tree. For every set of leaves, every current size, and every optional additional and previous size, the batch proof the log produces is accepted and evaluates to the true subtrees of both sizes, and appending never changes any previously computed root.",
 ["inputs","histories"],"all sizes up to a bound exhaustively and larger sizes sampled; all leaf subsets x n x n' x m",
 "Tests sample a few random subsets at a few sizes and compare the code with itself.",
 ["tree/log/log.go","tree/log/verify.go","tree/log/chunk.go","tree/log/math/math.go"],
 [("append",  "tree/log/log.go:Tree.Append"),("batch proof","tree/log/log.go:Tree.GetBatch"),("evaluation","tree/log/verify.go:Verifier.Evaluate")],
 ["returned subtrees, roots and proofs","LogStore contents"])
p("P06","No altered log proof evaluates to the true root",
 "Evaluating a log proof with any leaf value, leaf position, proof element, proof length, retained subtree or tree size other than the true one either fails or yields a root different from the true root of that size. Evaluation against retained subtrees that contradict the proof always fails.",
 ["inputs"],"all single and multiple alterations of (leaves, positions, proof elements, retained subtrees, n, n', m)",
 "The tests contain no negative case for the log verifier.",
 ["tree/log/verify.go","tree/log/log.go"],
 [("evaluation","tree/log/verify.go:Verifier.Evaluate"),("retained consistency","tree/log/verify.go:Verifier.addToMap")],
 ["Evaluate result"])
p("P07","Every version of the prefix tree is an immutable map with a canonical root",
 "After any sequence of batch additions and removals (including empty batches), every version of the prefix tree answers every lookup exactly as the set of entries at that version, with their commitments, and its root hash is the one defined by that set alone. Versions already created, and their roots and proofs, never change; rejected mutations leave every version as it was.",
 ["histories","inputs"],"all sequences of batched adds/removes/replacements x lookups at all versions, including shared long prefixes and tile splits",
 "Tests use short fixed histories and do not compare with an independent definition or re-check old versions after many mutations.",
 ["tree/prefix/prefix.go","tree/prefix/nodes.go","tree/prefix/batch.go"],
 [("mutation","tree/prefix/prefix.go:Tree.Mutate"),("tiles","tree/prefix/nodes.go:splitIntoTiles"),("batch search","tree/prefix/batch.go:batch.search")],
 ["root hashes","proofs and commitments per version"])
p("P08","Prefix proofs cannot show a false inclusion or non-inclusion",
 "Every proof produced for a set of lookups verifies against the root of that version with the true commitments. No prefix proof, honest-then-altered or hand-crafted, verifies against a true root while stating that a present entry is absent, that an absent entry is present, or that an entry has another commitment, and no proof makes verification panic.",
 ["inputs"],"all proofs: produced ones, field alterations, result-type and depth substitutions, leaf substitutions, transplanted copaths, crafted skeletons",
 "Tests only verify honest proofs and a few alterations; the forged proofs live in a space tests do not search.",
 ["tree/prefix/verify.go","tree/prefix/proof.go"],
 [("skeleton evaluation","tree/prefix/verify.go:addToSkeleton, evaluate")],
 ["Verify/Evaluate result"])
p("P09","The auditor follows an honest log exactly",
 "Fed the update emitted for each log entry, after a wire round trip and across restarts, the auditor accepts every update of an honest log (additions, empty entries, eligible removals, re-creation of removed labels) and the tree head it signs at each size is over the same root the log itself signed. Its persisted state reloads to an auditor that behaves identically.",
 ["histories","configurations","crash_points"],"all mutation histories, commit/restart points, removal patterns and windows",
 "Tests feed a few additions and one removal and never compare the auditor's root with the log's root.",
 [T+"auditor/auditor.go",T+"auditor/state.go","tree/prefix/verify.go","tree/log/log.go"],
 [("process",T+"auditor/auditor.go:Auditor.Process"),("before/after","tree/prefix/verify.go:EvaluateBeforeAfter"),("persisted state",T+"auditor/state.go")],
 ["AuditorTreeHead","AuditorStore contents"],CLK)
p("P10","The auditor rejects every illegitimate update and is left unchanged",
 "The auditor rejects any update that rewinds time, changes or re-adds an existing entry, removes an entry that is absent or was not yet published in a distinguished log entry, mis-states a commitment, or does not start from the previous prefix tree (the empty tree, for the first update). A rejected or malformed update never panics and leaves the auditor able to continue exactly as if it had not been received.",
 ["inputs","histories"],"all hostile updates (alterations of honest ones, self-consistent updates of a rewriting server) at every point of every history",
 "Two negative tests exist; eligibility for removal depends on the whole earlier history.",
 [T+"auditor/auditor.go",T+"auditor/state.go","tree/prefix/verify.go"],
 [("process",T+"auditor/auditor.go:Auditor.Process"),("recently-inserted set",T+"auditor/state.go:mergeInserted, addedSince")],
 ["Process result","subsequent behaviour and state"],CLK)
p("P11","Versions are numbered densely from zero and a failed mutation leaves no trace",
 "Every successful mutation assigns each label's new values the next consecutive version numbers in the order given, records the log entry they were added in, and leaves every other label and version readable with its original value. A mutation that fails for any reason leaves every later mutation, search and proof behaving exactly as if it had not been attempted.",
 ["histories","inputs","fault_sequences"],"all multi-label batches with repeats, removals, invalid labels and failing storage reads and commits",
 "Tests apply a few fixed mutations and never continue after a failed one.",
 [T+"mutate.go",T+"crypto.go","db/leveldb.go","db/memory/memory.go"],
 [("grouping and numbering",T+"mutate.go:groupByLabel, mutateLabel"),("index encoding",T+"crypto.go:putIndex, batchGetIndex")],
 ["database contents","search results after the mutation"],CLK)
p("P12","The database survives a crash at any point with a complete, usable tree",
 "If the process or machine dies at any point while a mutation is being committed, reopening the database yields exactly the state before or exactly the state after that mutation, and a mutation whose commit returned survives. Every label can be searched and proven there, and the next mutation and its audit proceed normally.",
 ["crash_points","histories"],"every prefix of the bytes written to the database journal by every commit of a history",
 "There is no crash test; the number of crash points is the number of bytes written.",
 ["db/leveldb.go",T+"mutate.go"],
 [("commit","db/leveldb.go:ldbConn.Commit")],
 ["reopened database","search/mutate/audit on it"],CLK)
p("P13","Readers running beside the writer always see one consistent tree",
 "Requests served from read-only clones of the LevelDB database while new entries that add versions are being committed are race-free, never fail, and every answer verifies against the tree head it carries. Writes through a read-only clone are refused and never reach the database.",
 ["schedules","histories"],"all interleavings of request handling, tree loading and commits",
 "No test runs a reader and a writer together.",
 ["db/leveldb.go",T+"transparency.go",T+"monitor.go",T+"update.go",T+"mutate.go"],
 [("clone","db/leveldb.go:ldbTransparencyStore.Clone"),("tree head snapshot",T+"transparency.go:NewTree")],
 ["race detector","client verification of each concurrent response"],CLK)
p("P14","The VRF is deterministic, unique, verifiable and rejects everything else",
 "For both cipher suites, proving is deterministic, every honest proof verifies to exactly the output given at proving time, and different inputs give different outputs, also when one key is used by several goroutines at once. A proof that is altered, non-canonical, of the wrong length, made for another input or key, or built on an invalid or low-order point never verifies to a different output and never panics; keys survive serialisation.",
 ["inputs"],"all inputs, keys and proof byte strings",
 "Tests check fixed vectors and one or two failures.",
 ["crypto/vrf/p256/p256.go","crypto/vrf/edwards25519/edwards25519.go","crypto/suites/kt_sha256_p256.go","crypto/suites/kt_sha256_ed25519.go"],
 [("prove/verify","crypto/vrf/*/…:Prove, Verify")],
 ["Prove/Verify results"])
p("P15","Commitments and signed statements bind every field they cover",
 "Two different (label, version, value, opening) tuples never share a commitment, VRF input or signed encoding, and a tree-head, auditor or label-value signature verifies only for the exact configuration, size, root, timestamp, label, version and value it was made over. Signatures by one key or altered signatures never verify under another, and signing keys survive serialisation.",
 ["inputs","configurations"],"all pairs of tuples/statements, including ones with the same concatenation of fields; all configuration fields",
 "The commitment test is one round trip; signature encodings are untested.",
 ["crypto/commitments/commitments.go",T+"structs/crypto.go",T+"structs/config.go",T+"structs/tree_head.go","crypto/suites/kt_sha256_p256.go","crypto/suites/kt_sha256_ed25519.go"],
 [("commit","crypto/commitments/commitments.go"),("to-be-signed encodings",T+"structs")],
 ["encodings, commitments, signature verification"])
p("P16","Every encodable structure decodes back to itself, and state survives restarts",
 "For every request, response, update, tree head, log entry and client, label or auditor state that can be produced, encoding and decoding returns an equal structure with no bytes left over, in every mode and suite. A value too large for its length field is refused at encoding rather than truncated.",
 ["inputs","configurations"],"all well-formed structures of every type, including extreme sizes and optional fields",
 "There are no encoding tests.",
 [T+"structs/",T+"auditor/state.go","tree/prefix/proof.go"],
 [("codec primitives",T+"structs/structs.go")],
 ["Marshal/New* round trip"])
p("P17","Decoding hostile bytes never panics and uses memory bounded by the input",
 "Decoding any byte string as any wire or stored structure returns a structure or an error; it never panics or loops, and memory allocated is proportional to the number of bytes received. Whatever decodes successfully re-encodes to the bytes consumed.",
 ["inputs"],"all byte strings for every decoder, seeded with truncations, length-field and byte alterations of honest encodings",
 "No test feeds malformed bytes.",
 [T+"structs/","tree/prefix/proof.go",T+"auditor/state.go"],
 [("codec primitives",T+"structs/structs.go")],
 ["decoder result","bytes allocated during the decode"])
p("P18","No request can crash, hang or corrupt the server",
 "Any decodable request for any operation, at any tree state and in any mode, is answered with a response or an error; it never panics (in the handler or in a goroutine it started), never runs or allocates without bound, and never changes what is stored. Cancelling a request releases everything it started.",
 ["inputs","histories","configurations","schedules"],"all requests of all five operations plus manager updates, including extreme versions, positions and tree sizes, and cancellation at any point",
 "Tests only send well-formed requests.",
 [T+"transparency.go",T+"monitor.go",T+"update.go",T+"math/ladders.go",T+"math/math.go"],
 [("request validation",T+"transparency.go:fullTreeHead; monitor.go:verifyEntries")],
 ["handler result","store contents","goroutine count"],CLK)
p("P19","No response can crash or hang the client, and rejected ones change nothing",
 "Whatever response a client receives for any operation, verification returns nil or an error without panicking, looping or allocating without bound. When it returns an error, the stored global and per-label state is untouched and the client can repeat the operation successfully against an honest server.",
 ["inputs","histories","configurations"],"all decodable responses to all operations in all client states",
 "The client has no tests.",
 [T+"client.go",T+"client_crypto.go",T+"algorithms/proof_handle.go",T+"algorithms/data_provider.go",T+"math/ladders.go"],
 [("verification",T+"client.go"),("state commit",T+"client.go:putLabelState")],
 ["VerifyFunc result","ClientStore before/after"],CLK)
p("P20","Contact monitoring always succeeds against an honest log and terminates",
 "After any sequence of searches a client that must monitor a label holds monitoring state from which every monitoring request it makes is accepted by the honest server and every answer accepted by the client, across tree growth and restarts. Once the monitored versions are covered by distinguished log entries the client stops monitoring that label, and never before.",
 ["histories","configurations"],"all interleavings of searches (of all versions), tree growth and monitoring over a set of labels",
 "Server-side monitoring tests use fixed trees and mock proof handles; client monitoring is untested.",
 [T+"client.go",T+"client_crypto.go",T+"monitor.go",T+"algorithms/monitor.go"],
 [("client monitoring state",T+"client_crypto.go:updateContactState, simplifyMonitoringMap"),("algorithm",T+"algorithms/monitor.go:ContactMonitor")],
 ["VerifyFunc result","label state"],CLK)
p("P21","Contact monitoring detects a searched version that is later hidden or replaced",
 "If a key-holding server shows a client a version of a label and then, from some later log entry on, publishes only entries in which that version (the greatest the client monitors for the label) is missing or different, the client's monitoring of that label fails no later than when the entry it searched becomes covered by a distinguished log entry among those. The client never stops monitoring with the alteration undetected.",
 ["histories","fault_sequences"],"all histories in which the server rewrites a non-distinguished version at any later entry on the monitoring path",
 "Needs a misbehaving server that signs; none exists in the tests.",
 [T+"algorithms/monitor.go",T+"client.go",T+"algorithms/proof_handle.go"],
 [("algorithm",T+"algorithms/monitor.go:ContactMonitor"),("ladder check",T+"algorithms/proof_handle.go:GetMonitoringBinaryLadder")],
 ["VerifyFunc result"],CLK)
p("P22","Label owners can initialise and monitor against an honest log, page by page",
 "An owner initialising at a distinguished log entry and then monitoring is always accepted by an honest server and client, for labels with any number of versions or none, with the right greatest versions at every distinguished entry inspected. Repeated monitoring advances to the rightmost distinguished log entry in finitely many pages and never skips one.",
 ["histories","configurations"],"all histories x starting positions x page boundaries x restarts",
 "Owner tests drive a mock handle; client owner code is untested.",
 [T+"client.go",T+"monitor.go",T+"algorithms/monitor.go"],
 [("init and monitor",T+"algorithms/monitor.go:OwnerInit, OwnerMonitor"),("paging",T+"algorithms/proof_handle.go:StopCondition")],
 ["VerifyFunc result","label owner state"],CLK)
p("P23","Owner monitoring detects every unauthorised version of an owned label",
 "Owner monitoring advances the owner's position to a distinguished log entry only if that entry, and every distinguished one passed on the way, shows exactly what the owner expects there: in a lookup of the greatest version the owner knows to exist at that entry, all versions up to it that are looked up are present with the values the owner knows, and all greater ones are absent. So the next version created without authorisation, or removing or replacing a version that is looked up, is detected or holds up the owner before it is passed, unless the owner learnt of the version through a verified update stream. Ownership initialisation rejects misstated greatest versions, and ones that increase towards earlier entries.",
 ["histories","fault_sequences"],"all histories with unauthorised changes at any entry; all false version claims",
 "Needs a misbehaving server and a persisting owner.",
 [T+"algorithms/monitor.go",T+"client.go"],
 [("algorithm",T+"algorithms/monitor.go:ownerMonitor")],
 ["VerifyFunc result","owner state position"],CLK)
p("P24","Updates are delivered exactly once, in order, and verified end to end",
 "An owner's update request results in each requested value being sequenced exactly once, and the response stream reports every version after the owner's last known one exactly once, in order, with its true position, and each is accepted by the owner's client, including versions created concurrently by others and multi-value updates. Cancelling the request or failing to sequence ends the stream without fabricated results. A stream response misreporting position, count, opening or value is rejected, except that what a distinguished log entry holds is only proven by the owner monitoring that must follow before the owner advances past it.",
 ["histories","schedules","inputs"],"all batch sizes, starting versions, concurrent writers, cancellation points, distinguished/non-distinguished positions",
 "The Update operation has no test on server or client.",
 [T+"update.go",T+"client.go",T+"algorithms/update.go"],
 [("stream",T+"update.go:updater.process"),("verification",T+"client.go:StreamVerifier.Verify"),("algorithm",T+"algorithms/update.go:Monitor.Update")],
 ["stream events","label owner state","database index"],CLK)
p("P25","A managed log allocates versions uniquely and only operator-signed values verify",
 "Concurrent updates through a managed log are assigned disjoint consecutive version ranges in line with the versions the log sequences, and every value reaching clients carries a valid operator signature for its exact label, version and value. In that mode the manager refuses, and clients reject, values with missing, foreign or transplanted signatures.",
 ["schedules","inputs","histories"],"all interleavings of concurrent allocations; all signature alterations",
 "The managed log has no tests.",
 [T+"managed/managed.go","db/memory/memory.go",T+"update.go",T+"client_crypto.go"],
 [("allocation","db/memory/memory.go:IncrementGreatestVersion"),("signature checks",T+"update.go:setManagerRequest; client_crypto.go:verifyUpdateValue")],
 ["allocated ranges","stream results","client verification"],CLK)
p("P26","All parties agree on which log entries are distinguished, and for good",
 "For every sequence of timestamps the rightmost distinguished entry, and the distinguished status implied everywhere it is used, equal the recursive definition over the implicit binary search tree. Once an entry is distinguished it stays so as the log grows, and the previous-rightmost computed before adding an entry equals the definition on the grown tree restricted to earlier entries.",
 ["inputs","histories","configurations"],"all timestamp sequences and windows for all tree sizes up to a bound, sampled beyond",
 "Tests use a few fixed timestamp lists.",
 [T+"algorithms/algorithms.go",T+"structs/config.go",T+"math/math.go"],
 [("rightmost",T+"algorithms/algorithms.go:RightmostDistinguished, PreviousRightmost")],
 ["returned positions"])
p("P27","Search-tree navigation and binary ladders match their definitions",
 "For every tree size and node, root, children, parent, frontier and direct paths are those of the implicit binary search tree, and for every target and greatest version the search and monitoring ladders contain exactly the lookups that determine the comparison, terminate for every 32-bit version, and are interpreted to the true ordering. Omitting lookups already proven elsewhere never changes the outcome.",
 ["inputs"],"all tree sizes and version pairs up to a bound exhaustively; powers of two and extremes of the 64-/32-bit ranges",
 "Tests check fewer than ten ladders and a few tree shapes.",
 [T+"math/math.go",T+"math/ladders.go",T+"math/tracker.go"],
 [("navigation",T+"math/math.go"),("ladders",T+"math/ladders.go"),("omission",T+"math/tracker.go")],
 ["function results"])
p("P28","Expired versions are reported expired, and live versions never are",
 "With a maximum lifetime configured, a fixed-version search succeeds for every version unless the path of the search contains expired log entries and no unexpired distinguished entry on that path precedes the version's terminal entry (or is it, when that entry shows the version as its greatest); then it reports expiry, and server and client always agree. The greatest version of a label is never lost to expiry.",
 ["histories","configurations"],"all timestamp patterns x lifetimes x windows x versions",
 "Search tests contain one expiry scenario on a mock.",
 [T+"algorithms/search.go",T+"structs/config.go"],
 [("expiry",T+"algorithms/search.go:FixedVersionSearch")],
 ["search outcome"],CLK)
p("P29","Labels are removable only once settled, and removal leaves other labels intact",
 "A label can be removed if and only if its last modification is at or before the distinguished entry that precedes the new log entry. After removal all other labels still search, monitor and audit as before, the removed label is absent from new prefix trees, and it can be created again from version zero.",
 ["histories","configurations"],"all histories with removals at, before and after the eligibility boundary, combined with additions to the same and other labels",
 "Tests contain one successful removal.",
 [T+"mutate.go","tree/prefix/prefix.go",T+"algorithms/algorithms.go"],
 [("policy",T+"mutate.go:mutateLabel")],
 ["Mutate result","searches afterwards","auditor"],CLK)
p("P30","With a third-party auditor, clients accept only heads the auditor vouches for",
 "In third-party auditing mode a client accepts an updated tree head only together with an auditor tree head that is correctly signed over a prefix of the very same tree, not newer than the tree, not lagging more than allowed, and not older than the audited start position demands. It keeps the auditor head across unchanged-head responses, and never panics or accepts when the auditor head is absent or unexpected.",
 ["inputs","histories","configurations"],"all auditor lags, sizes, start positions, forged, absent, stale or foreign auditor heads",
 "No client test exists; auditor heads are never verified in tests.",
 [T+"client_crypto.go",T+"transparency.go",T+"structs/tree_head.go"],
 [("auditor head verification",T+"client_crypto.go:verifyTreeHead")],
 ["VerifyFunc result","retained state"],CLK)
p("P31","Generated keys and configurations are usable",
 "Every key printed by the key-generation command parses back, for its suite, to a private key whose public key and VRF work with the log, and successive runs never repeat a key. Client construction accepts exactly the configurations that are valid for their mode.",
 ["inputs","configurations"],"all runs; all combinations of mode, keys and lifetimes",
 "The command has no tests.",
 ["cmd/generate-keys/main.go","crypto/suites/suites.go",T+"client.go"],
 [("generation","cmd/generate-keys/main.go"),("validation",T+"client.go:NewClient")],
 ["command output","NewClient result"])
p("P32","The HTTP server front-end serves the wire interface faithfully",
 "The katie-server command exposes the log's operations over HTTP with the same results as calling the log directly.",
 ["inputs","schedules"],"all HTTP requests",
 "No tests exist.",
 ["cmd/katie-server/"],
 [("handlers","cmd/katie-server/handler.go")],
 ["HTTP responses"])
p("P33","A failing database makes an operation fail, never answer falsely or forget",
 "Whenever an operation of a database fails (while a log or auditor is started, the log mutated, a request answered or an update streamed, or a client makes a request or verifies a response), the caller gets an error, or exactly the answer it would have got anyway; never an answer that is false or that clients reject, never a success whose result was not stored, never a panic. Nothing stored changes, and the same operation succeeds once the database works again.",
 ["fault_sequences","histories","inputs"],"every database operation of every operation in sampled worlds of all modes, failing alone or with all later ones",
 "Tests use in-memory stores that never fail.",
 [T+"transparency.go",T+"update.go",T+"monitor.go",T+"client.go",T+"algorithms/search.go","tree/prefix/prefix.go","tree/log/log.go",T+"auditor/auditor.go"],
 [("reads while answering",T+"transparency.go:Search, batchGetIndex, getVersion"),("client storage",T+"client.go:getState, putState")],
 ["returned errors","responses","stored client state"])
p("P34","Stores keep every key apart and return exactly what was put",
 "For every sequence of puts, deletes, commits, clones and restarts, both database backends return for each label, label-version pair, position and tree key exactly the bytes last stored under it (or nothing, if it was deleted or never stored), whatever the keys look like. Nil is refused, changes show in the handle that made them at once and in others only once committed, uncommitted ones are gone after a restart, and buffers are never shared with the caller.",
 ["histories","inputs"],"all keys (empty, prefixes of each other, look-alikes of encodings and separators, extremes) x all sequences of operations",
 "The stores have no tests of their own.",
 ["db/leveldb.go","db/memory/memory.go"],
 [("keys and batching","db/leveldb.go:ldbConn, ldbTransparencyStore"),("memory","db/memory/memory.go")],
 ["what lookups return"])
p("P35","Nothing is revealed about labels and values that was not asked for",
 "No response, whatever the request and the history, contains the value, opening, signature or VRF proof of another label, or the value, opening or signature of a version of the same label that was not asked for; answers that nothing was found, and monitoring, contain none at all. Auditor updates and the public configuration contain no labels, values, openings or VRF proofs; private keys never appear in any output or in the database; removed versions are gone from it. Every commitment has a fresh opening of full entropy, also for equal values, after restarts and in other processes.",
 ["histories","inputs"],"all requests and histories; all pairs of versions, logs and processes",
 "Tests never look at what else a response contains, nor at how openings come about.",
 [T+"transparency.go",T+"update.go",T+"mutate.go",T+"monitor.go",T+"crypto.go","crypto/commitments/commitments.go"],
 [("what a response contains",T+"transparency.go:Search, "+T+"update.go:infos"),("openings","crypto/commitments/commitments.go:GenerateOpening")],
 ["bytes of every output"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
