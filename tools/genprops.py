#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that edits stay valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "A directory lookup returns exactly what was last stored under that name",
  "After any sequence of insertions and updates, looking an index up in the tree yields a proof of inclusion carrying exactly the value last stored under that index, together with an opening of the commitment made to its key and value. If the index was never stored, the lookup yields a proof of absence. Storing under one index never changes what a lookup of any other index yields.",
  ["histories", "inputs"], "every sequence of insert/update operations with arbitrary 32-byte indices (any shared-prefix length up to 255 bits), keys and values, followed by a lookup of any index",
  "the tests insert a handful of names in one order; VRF-derived indices almost never share more than a few leading bits, so deep splits and pushed-down leaves are barely sampled",
  ["merkletree/merkletree.go", "merkletree/node.go", "merkletree/proof.go", "merkletree/pad.go"],
  [("prefix descent and leaf push-down", "merkletree/merkletree.go insertNode, Set"), ("descent and proof construction", "merkletree/merkletree.go Get"), ("split node creation", "merkletree/node.go newInteriorNode")],
  [("MerkleTree.root", "interior root of the prefix tree", "merkletree/merkletree.go"), ("userLeafNode", "index/key/value/commitment/level/parent of a binding", "merkletree/node.go")],
  ["Get", "PAD.Lookup"])
p("C02", "Every proof the directory issues is accepted by its own verification",
  "A proof (of inclusion or of absence) that a tree hands out after its root hash has been recomputed always passes verification against that root hash when checked with the looked-up key and, for inclusion, the stored value. This holds after every history of insertions, updates and epoch changes, including for snapshots of earlier epochs.",
  ["histories", "inputs"], "all trees reachable by insertions/updates/hash recomputations/clones, all looked-up indices",
  "tests verify proofs of a few names in trees of a few leaves; stale cached subtree hashes or wrong sibling order show only for particular interleavings of insertions and hash recomputations",
  ["merkletree/node.go", "merkletree/merkletree.go", "merkletree/proof.go", "merkletree/pad.go"],
  [("lazy subtree hash cache invalidation", "merkletree/merkletree.go insertNode"), ("interior/leaf/empty hashing", "merkletree/node.go hash"), ("authentication path folding", "merkletree/proof.go authPathHash")],
  [("leftHash/rightHash", "cached child hashes, nil when stale", "merkletree/node.go")], ["AuthenticationPath.Verify"])
p("C03", "A verified proof binds index, key and value to the signed root hash",
  "Verification accepts a proof only if the root hash recomputed from the leaf and the siblings equals the given root hash, and: for a proof whose leaf index equals the looked-up index, the leaf is a user leaf whose value equals the expected value and whose commitment opens to the given key and value; otherwise the leaf index agrees with the looked-up index on as many leading bits as the leaf's level, and no value is disclosed. Hence two accepted proofs for the same index under the same root hash and nonce cannot disagree on presence or on the value unless the hash function collides.",
  ["inputs"], "every proof a malicious directory could present (any lengths, levels, siblings, leaf kinds), every key, value and root hash",
  "tests tamper with a few fields of honest proofs; soundness is a statement about every possible forged proof",
  ["merkletree/proof.go", "crypto/util.go"],
  [("proof type determination", "merkletree/proof.go ProofType"), ("prefix, value, commitment and root comparison", "merkletree/proof.go Verify"), ("domain-separated leaf hashing", "merkletree/proof.go ProofNode.hash")],
  observe=["AuthenticationPath.Verify returns nil"])
p("C04", "A published snapshot never changes and holds exactly the earlier bindings",
  "The answer the directory gives for an epoch is determined when that epoch is issued: it contains exactly the bindings set before the epoch was issued, and no later registration, update or epoch change alters it for as long as the snapshot is retained. A lookup for a past epoch that is no longer retained is reported as not found, never answered from another epoch. A cloned tree and its original never influence each other.",
  ["histories"], "every interleaving of Set, Update, policy change and lookups in any retained epoch, for any snapshot capacity",
  "tests look back over a few epochs of small trees; aliasing between the working tree and an old snapshot only shows for particular later updates",
  ["merkletree/pad.go", "merkletree/node.go", "merkletree/merkletree.go"],
  [("deep copy at signing time", "merkletree/pad.go signTreeRoot; merkletree/node.go clone"), ("snapshot retention and eviction", "merkletree/pad.go Update, GetSTR")],
  [("PAD.snapshots/loadedEpochs", "retained STRs by epoch", "merkletree/pad.go")], ["LookupInEpoch", "GetSTR"])
p("C05", "Signed tree roots form a hash chain that covers every field",
  "The first signed tree root has epoch 0; each later one has the next epoch number, names its predecessor's epoch, and contains the hash of its predecessor's signature. Its tree hash is the root hash of the tree it publishes, and its signature, made with the directory's signing key, covers the epoch, the previous epoch, the tree hash, the previous hash and every policy field in force. The epoch-update operation publishes exactly one new root and puts the associated data supplied for it in force only from the following root on.",
  ["histories", "inputs"], "every number of updates, every key, policy value and tree content",
  "tests check a couple of consecutive epochs; a field dropped from the signed bytes, or an off-by-one reachable only at particular epochs, passes them because both sides use the same code",
  ["merkletree/str.go", "merkletree/pad.go", "protocol/str.go", "protocol/policy.go", "protocol/directory/directory.go"],
  [("issuance", "merkletree/str.go NewSTR; merkletree/pad.go signTreeRoot, updateInternal, Update"), ("serialization", "merkletree/str.go SerializeInternal, Serialize; protocol/str.go Serialize; protocol/policy.go Serialize")],
  [("PAD.latestSTR", "most recently issued root", "merkletree/pad.go")], ["LatestSTR"])
p("C06", "Auditing accepts only the same root or an unbroken signed successor chain",
  "A signed tree root is accepted against the last verified one only if it equals it in every field, or it is the immediate successor: its signature verifies under the pinned key over its own contents, its epoch is the verified epoch plus one, it names that previous epoch, and it contains the hash of the verified root's signature. A range is accepted only if its first element is accepted that way and each further element is such a successor of the one before it. Rejection never changes the verified root.",
  ["inputs", "histories"], "every sequence of received roots of any length, with any contents",
  "tests use honest chains and a few single-field corruptions in one position of a short range",
  ["protocol/auditor/auditor.go", "merkletree/str.go", "protocol/str.go"],
  [("same-epoch comparison", "protocol/auditor/auditor.go compareWithVerified"), ("signature and chain check", "protocol/auditor/auditor.go verifySTRConsistency; merkletree/str.go VerifyHashChain"), ("range walk", "protocol/auditor/auditor.go VerifySTRRange, AuditDirectory")],
  [("AudState.verifiedSTR", "last accepted root", "protocol/auditor/auditor.go")])
p("C07", "The audit log only grows by audited roots and answers exactly what it holds",
  "An auditor's log for a directory changes only by appending roots that passed the audit against the last verified root; a rejected message leaves the log, all other directories' logs and the verified root unchanged. A directory is created in the log only from an epoch-0 root, under the hash of that root, and an existing directory is never replaced. A query for a recorded range returns exactly the recorded roots for those epochs in order; a range beyond the log or with start after end is rejected as malformed, and an unknown directory is reported as unknown.",
  ["histories", "inputs"], "every sequence of initialisations, audits and queries, with arbitrary messages and ranges",
  "tests run one directory with a few epochs and a handful of ranges",
  ["protocol/auditlog/auditlog.go", "protocol/auditor/auditor.go", "protocol/auditor/common.go"],
  [("audit then insert", "protocol/auditlog/auditlog.go Audit, insertRange, updateVerifiedSTR"), ("range query", "protocol/auditlog/auditlog.go GetObservedSTRs"), ("initialisation", "protocol/auditlog/auditlog.go InitHistory")],
  [("directoryHistory.snapshots", "observed roots by epoch", "protocol/auditlog/auditlog.go")])
p("C08", "Registration is first-come, promised in writing and never overwritten",
  "Registering a name that is neither in the latest snapshot nor pending succeeds, records exactly that name-to-key binding for the next epoch and returns a proof of absence with a promise whose index is the name's private index, whose value is the key and whose signature covers the latest root's signature, that index and that key. Registering a name that is already registered or pending reports it as existing and changes nothing, returning the inclusion proof or the original promise respectively. Requests without a name or key are rejected as malformed and change nothing; lookups report success with an inclusion proof or pending promise, and not-found otherwise, and change nothing; an epoch update clears all promises.",
  ["histories", "inputs"], "every sequence of registrations, lookups and epoch updates over arbitrary names and keys",
  "tests register a few names in fixed orders and inspect response codes, not the recorded state or the promise's signed bytes",
  ["protocol/directory/directory.go", "protocol/tb.go", "protocol/message.go", "merkletree/pad.go"],
  [("registration", "protocol/directory/directory.go Register"), ("promise construction", "protocol/directory/directory.go NewTB; protocol/tb.go Serialize"), ("lookup", "protocol/directory/directory.go KeyLookup"), ("promise clearing", "protocol/directory/directory.go Update")],
  [("ConiksDirectory.tbs", "pending promises by name", "protocol/directory/directory.go")])
p("C09", "Directory history queries return exactly the requested, clipped epoch range",
  "A past-key lookup returns the proof from the requested epoch's snapshot and the roots of every epoch from there to the latest, in order; monitoring returns, for each epoch of the requested range clipped to the latest epoch, that epoch's proof and root in order; a root-history query returns the roots of the clipped range in order. A request without a name (where one is needed), with a start beyond the latest epoch or after its end is rejected as malformed. A range that reaches epochs no longer retained is answered with a directory error, and no request changes the directory or makes it crash.",
  ["inputs", "histories"], "every range (including ends at the largest 64-bit epoch), every directory age and cache eviction state",
  "tests query a few ranges on a directory with a few epochs and a cache that never evicts",
  ["protocol/directory/directory.go", "merkletree/pad.go", "protocol/str.go"],
  [("range loops", "protocol/directory/directory.go KeyLookupInEpoch, Monitor, GetSTRHistory"), ("snapshot access", "merkletree/pad.go GetSTR, LookupInEpoch")])
p("C10", "A client accepts a response only if every piece of evidence checks out",
  "A response to a registration or lookup is accepted only if its root is the verified one or its valid successor, its index proof verifies for the queried name under that root's policy key, its authentication path verifies against that root's tree hash with the expected (or, on first use, the received) key, and the status code matches the kind of proof. When the proof is of absence but the status says a binding exists or was accepted, it must carry a promise for that index signed by the pinned key over that root's signature and with the expected key; an outstanding promise for the name must be fulfilled by a later inclusion. Only then is the name bound to the received key, and any other name's recorded binding and promise stay unchanged.",
  ["inputs", "histories"], "every response (any status, proof, root, promise), every request type handled, every prior client state",
  "the client package has no tests at all",
  ["protocol/client/consistencychecks.go", "protocol/message.go", "protocol/auditor/auditor.go", "merkletree/proof.go"],
  [("check sequence", "protocol/client/consistencychecks.go HandleResponse, updateSTR, checkConsistency, updateTBs"), ("path and index verification", "protocol/client/consistencychecks.go verifyAuthPath"), ("promise verification", "protocol/client/consistencychecks.go verifyReturnedPromise, verifyFulfilledPromise"), ("received key", "protocol/message.go GetKey")],
  [("ConsistencyChecks.Bindings/TBs", "accepted bindings and outstanding promises", "protocol/client/consistencychecks.go")])
p("C11", "No message from the network can crash a client, auditor or server",
  "Whatever bytes a peer sends, decoding a response and checking it (as a client or an auditor), decoding a request and handling it (as a server or bot), and loading a pinned root file end with a result or an error value, never with a crash. A message that lacks parts the protocol requires is rejected as malformed or as failing a check.",
  ["inputs"], "every byte string received on any of the interfaces, for the known request types",
  "tests feed a few well-formed and a couple of malformed messages; nil, short or inconsistent parts at every depth of the message are not enumerated",
  ["application/encoding.go", "protocol/message.go", "protocol/client/consistencychecks.go", "merkletree/proof.go", "protocol/auditor/auditor.go", "protocol/auditlog/auditlog.go", "application/config.go", "application/server/server.go", "protocol/directory/directory.go"],
  [("decoding", "application/encoding.go UnmarshalRequest, UnmarshalResponse"), ("message validation", "protocol/message.go Validate"), ("request dispatch", "application/server/server.go HandleRequests")])
p("C12", "VRF outputs are deterministic, verifiable and bound to name and key",
  "For every key pair and message, proving yields the same output as direct computation, every time, and the output with its proof verifies under the matching public key. Verification accepts only if all lengths are right, the output is the hash of the proof's point and the message, both points decode to the prime-order subgroup, and the proof's challenge equals the hash of the base, the hashed message, the key, the point and the two recomputed commitments.",
  ["inputs"], "every secret key, message, output and proof",
  "tests run a few random keys and single-bit corruptions",
  ["crypto/vrf/vrf.go"],
  [("prove", "crypto/vrf/vrf.go Prove, Compute, hashToCurve, expandSecret"), ("verify", "crypto/vrf/vrf.go Verify")])
p("C13", "Curve, field and scalar arithmetic is exact for every input",
  "Field addition, subtraction, negation, multiplication, squaring, encoding and decoding agree with arithmetic modulo 2^255-19 for every operand in the documented bounds, and never overflow. Scalar reduction, multiply-add and negation agree with arithmetic modulo the group order for every input, with fully reduced results. Point addition, doubling and conversions agree with the twisted-Edwards group law, and the constant tables hold the multiples they stand for.",
  ["inputs"], "every limb vector within the documented bounds and every byte string",
  "tests hit random operands; carry and borrow edge cases have probability around 2^-25 or less",
  ["crypto/internal/ed25519/edwards25519/edwards25519.go", "crypto/internal/ed25519/edwards25519/const.go", "crypto/internal/ed25519/extra25519/extra25519.go"],
  [("field arithmetic", "edwards25519.go Fe*"), ("scalar arithmetic", "edwards25519.go ScMulAdd, ScReduce, ScNeg"), ("group formulas", "edwards25519.go ge*"), ("tables", "const.go")])
p("C14", "Digests and commitments depend on every input byte and open only honestly",
  "A digest is the 32-byte hash of the concatenation of all its arguments and of nothing else. A new commitment has a fresh 32-byte salt and a value equal to the digest of the salt followed by the committed parts. Opening succeeds exactly when the recorded value equals the digest of the recorded 32-byte salt followed by the given parts.",
  ["inputs"], "every number, length and content of arguments, salts and values",
  "tests compare a few fixed inputs",
  ["crypto/util.go"],
  [("digest", "crypto/util.go Digest"), ("commit/open", "crypto/util.go NewCommit, Verify"), ("randomness", "crypto/util.go MakeRand")])
p("C15", "A request runs only where permitted and with the right exclusion",
  "A server handles a request only if the address it arrived on permits that request type: registrations only where registration is explicitly allowed, lookups and monitoring everywhere, nothing else; any other request gets a malformed-message reply and does not reach the directory. Requests that may change the directory, epoch updates and policy reloads run while holding the server's lock exclusively; read-only requests run while holding it at least shared; every path releases what it acquired. Each request type is passed to its own directory operation with its own payload, and mismatched payloads are rejected.",
  ["inputs", "configurations", "schedules"], "every address configuration, request type and payload; every control path through request handling (each thread separately)",
  "tests start a server with one or two addresses and send a few messages; they do not observe which lock is held",
  ["application/serverbase.go", "application/server/server.go"],
  [("permission table", "application/server/server.go NewConiksServer"), ("permission check", "application/serverbase.go checkRequestType"), ("lock choice", "application/serverbase.go acceptClient, EpochUpdate, HotReload"), ("dispatch", "application/server/server.go HandleRequests")],
  [("ServerBase.acceptableReqs", "request types permitted per address", "application/serverbase.go")])
p("C16", "Messages decode to the type their tag announces, with their fields intact",
  "Decoding a request yields the payload type that its type tag announces and the tag itself, or an error; creating and then decoding a request preserves name, key and epochs. Decoding a response of a known kind yields the announced status code with a payload of the kind that matches the request, or a bare error status, or a malformed-message status when the bytes do not parse or the payload their status calls for is missing. Responses built for registration, lookup, monitoring and history carry exactly the proofs, roots, promise and status they were given.",
  ["inputs"], "every request tag and payload, every response kind and byte string",
  "tests decode a few literals",
  ["application/encoding.go", "application/client/encoding.go", "protocol/message.go"],
  [("request codec", "application/encoding.go UnmarshalRequest, MarshalRequest; application/client/encoding.go"), ("response codec", "application/encoding.go UnmarshalResponse"), ("constructors", "protocol/message.go New*")])
p("C17", "The registration bot forwards only the authenticated account's registration",
  "The bot forwards a message to the key server only if it decodes as a registration request for the account that sent it: the requested name equals the sender's handle, lower-cased, with the twitter suffix, ignoring case. What it forwards is the received message, unchanged, to the configured server; every other message gets a malformed-message reply and is not forwarded; a failed exchange is reported as a directory error.",
  ["inputs"], "every sender handle and every message",
  "tests try a couple of literals",
  ["application/bots/twitterbot.go", "application/bots/bot.go"],
  [("authentication and forwarding", "application/bots/twitterbot.go HandleRegistration")])
p("C18", "Bit, integer and key-range encodings are exact and inverse",
  "Converting bits to bytes and back preserves every bit, most significant first and zero padded; reading bit n of a byte string agrees with that order. Integers are encoded little-endian in exactly 8 (or 4) bytes. The successor of a key prefix is the smallest key greater than every key with that prefix, or none if no such key exists, and the prefix itself is left unchanged.",
  ["inputs"], "every bit string, byte string, integer and prefix",
  "tests use one 16-bit string and the number 42",
  ["utils/coname.go", "utils/utils.go", "storage/kv/range.go"],
  [("bit packing", "utils/coname.go ToBytes, ToBits; utils/utils.go GetNthBit"), ("integer encoding", "utils/utils.go LongToBytes, ULongToBytes, UInt32ToBytes"), ("prefix successor", "storage/kv/range.go IncrementKey, BytesPrefix")])
p("C19", "Key and configuration files are validated and never silently overwritten",
  "Writing a key, root or configuration file never replaces an existing file and reports an error instead. Loading a signing or VRF key succeeds only if the file exists and has exactly the required length, loading an initial root succeeds only for a parsable root of epoch 0, and every other case returns an error rather than a usable result or a crash. Relative paths are resolved against the directory of the configuration file and absolute paths are used as they are.",
  ["inputs", "configurations", "fault_sequences"], "every file content, missing or unreadable file, missing configuration section, and relative or absolute path",
  "tests load a few valid files and one or two invalid ones",
  ["utils/utils.go", "application/config.go", "application/server/config.go", "application/client/config.go"],
  [("no-clobber write", "utils/utils.go WriteFile"), ("path resolution", "utils/utils.go ResolvePath"), ("key and root loading", "application/config.go LoadSigningPubKey, LoadInitSTR; application/server/config.go Load; application/client/config.go Load")])
p("C20", "A proof of absence reveals nothing about another user's binding",
  "A proof returned for a name that is not in the directory contains no value and no commitment salt of any stored binding, and looking a name up never removes or alters the stored value or salt. The index under which a name is stored and looked up is always the VRF output for that name under the directory's VRF key, accompanied by the matching index proof.",
  ["histories", "inputs"], "every tree and every looked-up index, including those that end at another user's leaf",
  "tests check presence of fields for one or two lookups; a leak or a wiped leaf appears only when the lookup ends at someone else's leaf",
  ["merkletree/merkletree.go", "merkletree/pad.go"],
  [("suppression of value and salt", "merkletree/merkletree.go Get"), ("private index", "merkletree/pad.go computePrivateIndex, LookupInEpoch, Set, Index")])
p("C21", "Concurrent requests are linearizable against epoch updates and reloads",
  "Under every schedule of concurrent client connections, epoch updates, policy reloads and shutdown, each request observes the directory as if all operations had happened one at a time, and shutdown waits for the requests in progress.",
  ["schedules"], "every interleaving of connection handlers, the epoch timer, reload signals and shutdown",
  "tests run a few sequential requests",
  ["application/serverbase.go", "application/server/server.go"],
  [("read-write lock around the handler", "application/serverbase.go acceptClient, EpochUpdate, HotReload"), ("shutdown wait groups", "application/serverbase.go Shutdown, acceptRequests")])
p("C22", "Private indices, salts and nonces are unpredictable to outsiders",
  "Without the directory's VRF key nobody can tell which name a stored index belongs to, and a commitment reveals nothing about the committed key and value before it is opened.",
  ["inputs"], "every polynomial-time adversary",
  "a computational hiding statement; no finite set of test runs bears on it",
  ["crypto/vrf/vrf.go", "crypto/util.go"],
  [("VRF", "crypto/vrf/vrf.go"), ("hash commitments over fresh salts", "crypto/util.go NewCommit")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
