#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOHOOK = None
OBS = ["exported D1 methods", "provider traffic (io.Provider wrapped by the harness)"]

p("D01", "Decrypt returns exactly what was last written to the object",
  "After Encrypt or Update of an object has succeeded, every later authorised Decrypt of it, through this or any other instance configured with the same keys and storage, returns byte for byte the most recently written plaintext and associated data. This holds for contents of every size and every byte value, and whatever other operations on this or other objects, by whichever caller, happened in between. Reading never changes what is stored.",
  ["histories", "inputs"],
  "all operation histories over two objects and several callers up to the depth bound; all plaintext and associated-data lengths and byte values in the swept ranges",
  "The tests run one Encrypt/Update/Decrypt sequence with one short text; they sample neither interleaved histories over several objects nor size boundaries.",
  ["d1.go", "utility.go", "data/object.go", "crypto/cryptor.go", "crypto/aes.go", "crypto/kwp.go"],
  [("Encrypt/Update write the sealed object and the access list holding its key", "d1.go"), ("object sealing binds id, associated data and plaintext", "data/object.go")],
  [("stored object", "sealed contents per object id", "io provider"), ("stored access list", "sealed list and the object's data key", "io provider")], OBS)

p("D02", "Access is granted exactly to authenticated, scoped and listed callers",
  "An operation on an existing object succeeds exactly when the identity provider accepts the token, the caller's own scopes contain the scope documented for that operation, and either the caller's ID is on the object's access list or at least one of the caller's groups is on it and that group's scopes contain the required scope; creating an object needs only the first two. Any other caller gets the not-authenticated or not-authorised error, receives no data, and leaves storage unchanged. The decision does not depend on the order in which groups are looked at, on earlier calls or on other callers.",
  ["inputs", "configurations", "histories"],
  "all operations x all scope sets x all small group and list configurations x all iteration orders of the caller's groups; all call pairs for history independence",
  "Tests try a few hand-picked denials per method, one missing scope and one group at a time; random map iteration order makes multi-group cases a lottery.",
  ["d1.go", "utility.go", "id/id.go", "id/scope.go", "data/access.go"],
  [("caller verification: authentication and scope", "utility.go verifyAccess"), ("list and group scope check", "utility.go authorizeAccess"), ("scope containment", "id/scope.go")],
  [("access list", "set of IDs allowed on an object", "data/access.go"), ("identity", "caller ID, scopes, groups", "id/id.go")], OBS)

p("D03", "The access list is exactly the creator plus granted minus revoked IDs",
  "The access list of an object is always the set made of its creator and the groups named at creation, plus every ID added and minus every ID removed by successful calls since, and this is what reading the list reports. No other operation - updating, reading, authorising, failing calls, or work on other objects - changes it. Each change takes effect for the very next call, also when callers remove themselves or the creator.",
  ["histories", "inputs"],
  "all histories of add, remove, update, read and delete calls by several callers over two objects up to the depth bound; all small lists of IDs including empty, repeated and unusual strings",
  "Tests add and remove one or two groups once; they cannot cover histories that mix updates, self-removal, re-adding and a second object.",
  ["d1.go", "utility.go", "data/access.go"],
  [("read-modify-write of the sealed access list", "d1.go AddGroupsToAccess, RemoveGroupsFromAccess"), ("Update keeps the list and replaces the key", "d1.go Update")],
  [("access list", "set of IDs", "data/access.go")], OBS)

p("D04", "A successful Delete is permanent, complete and repeatable",
  "After Delete of an object has reported success nothing of that object remains in storage and every operation on its ID reports it as not found, for ever. Deleting an object that is already gone or never existed succeeds and changes nothing, a Delete that failed at any storage step can simply be repeated until it succeeds, and Delete never leaves an object stored without the access list that is needed to delete it. Other objects are not affected.",
  ["histories", "fault_sequences", "crash_points"],
  "all delete histories over two objects, with every storage call failing (before or after taking effect) or the process stopping at every point, up to two faults, followed by retries",
  "Tests inject one failure at each of two provider calls, for one object, before the effect only.",
  ["d1.go", "utility.go"],
  [("object first, access list last", "d1.go Delete"), ("missing access list means deleted", "d1.go Delete")],
  [("stored object and access records", "both present, access only, or none", "io provider")], OBS)

p("D05", "Tampered, swapped or relocated stored records are never accepted",
  "Whatever is done to the stored bytes - flipping, truncating or extending them, exchanging fields between records, moving records to other IDs or kinds, or bringing back older versions - Decrypt either fails or returns a plaintext and associated data that were written for that very object together. Callers are only ever authorised by an access list that was written for that very object. No stored bytes make an operation panic.",
  ["inputs", "histories", "fault_sequences"],
  "every single-byte change, truncation and field exchange of every stored record of a history with two objects in two versions, and every assignment of recorded values to storage slots",
  "Tests flip one byte of an in-memory sealed structure; they never let the storage provider misbehave below the public API.",
  ["d1.go", "utility.go", "data/object.go", "data/access.go", "crypto/cryptor.go", "crypto/aes.go", "crypto/kwp.go"],
  [("object id is authenticated with every record and forced to the requested id on read", "utility.go, data/object.go, data/access.go"), ("AES-GCM and KWP integrity checks", "crypto/aes.go, crypto/kwp.go")],
  [("stored records", "untrusted bytes", "io provider")], OBS)

p("D06", "Storage failures surface and leave objects in the old or the new state",
  "If a storage call made on behalf of an object operation fails, the operation returns an error that carries the failure and never reports success, even if the provider wraps its errors. Afterwards the object, seen through working storage, is either exactly as before or exactly as if the operation had succeeded, a creation that failed hands out no ID, other objects are untouched, and repeating the operation succeeds. The documented not-found and already-exists errors are reported if and only if storage says so.",
  ["fault_sequences", "crash_points", "histories"],
  "every operation, from every reachable two-object state of a short history, with each of its storage calls failing before or after its effect, or the process stopping there, for up to two faults",
  "Only Delete has fault tests; no test injects a fault into Encrypt, Update, Decrypt or list changes.",
  ["d1.go", "utility.go"],
  [("order of the two writes and error propagation", "d1.go Encrypt, Update, Delete"), ("error mapping with errors.Is", "utility.go")],
  [("object and access record pair", "must carry the same data key", "io provider")], OBS)

p("D07", "Creating an object never reuses or overwrites an existing one",
  "Every successful Encrypt returns a fresh random version 4 ID, distinct from every other object's. Should the ID it picked already be in use for any stored part of an object, Encrypt fails with an already-exists error and no identifier, and the existing object's contents and access list stay exactly as they were. Creating an object therefore never gives its creator access to someone else's object.",
  ["histories", "inputs"],
  "all short histories with all patterns of colliding generated IDs, including IDs of deleted and half-deleted objects",
  "IDs are random, so tests can never produce a collision.",
  ["d1.go", "utility.go"],
  [("random id and create-only writes", "d1.go Encrypt, utility.go putSealedObject/putSealedAccess")],
  [("id source", "random ids", "gofrs/uuid")], OBS)

p("P01", "Operations touch only their own records and pass the caller's context on",
  "An object operation reads and writes storage only under its own object's ID and only the object and access records; an index operation only index records of its own keyword; read-only operations (Decrypt, reading lists, authorising, Search, GetIdentity, login) never write. Every call to an identity, key or storage provider receives a context derived from the one the caller passed, and tokens and arguments reach the identity provider unmodified. Each record is stored under exactly one key and kind.",
  ["histories", "inputs"],
  "all operations from all reachable small states, with a provider that records every call",
  "Tests check results, not provider traffic.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "log/log.go"],
  [("provider calls", "utility.go, index/index.go, id/standalone.go")], (), ["io.Provider, id.Provider, key.Provider calls"])

p("S01", "Nothing confidential reaches the storage provider in the clear",
  "Whatever history is executed, the IDs and bytes handed to the storage provider contain no plaintext, access-list ID, keyword, identifier, password, token content, group membership or key material, neither literally nor under plain encodings, and depend on such secrets only through the length of their serialised form; only associated data, object IDs and user/group IDs are visible. Storage keys of index entries reveal neither keyword nor position.",
  ["histories", "inputs"],
  "all histories of all object, token, user, group and index operations up to the depth bound with marker secrets, scanned in raw, hex, base64 (all alignments) and JSON-escaped form; pairs of histories that differ only in secrets",
  "No test looks at the stored bytes.",
  ["data/object.go", "data/access.go", "data/node.go", "id/standalone_user.go", "id/standalone_group.go", "index/index.go", "crypto/cryptor.go"],
  [("everything is sealed before it is handed to the provider", "data/*.go, id/*.go, index/index.go")], (), ["bytes and ids passed to io.Provider"])

p("S02", "Every sealed record uses a fresh data key and nonce",
  "No two sealing operations ever share a data encryption key or a (key, nonce) pair, wrapped keys and ciphertexts never repeat even when the same content is written again to the same place, and rewriting an object or list re-encrypts it under a new key. Every key and nonce consists solely of bytes drawn from the random source for that purpose.",
  ["histories", "schedules"],
  "all histories of writing operations up to the depth bound, repeated contents included, with a random source that tracks every byte drawn; the same over concurrent pairs of operations",
  "Tests compare at most two ciphertexts and never see the data keys.",
  ["crypto/cryptor.go", "crypto/aes.go", "crypto/random.go", "data/object.go", "data/access.go", "data/node.go"],
  [("random key per encryption", "crypto/cryptor.go"), ("random nonce per encryption", "crypto/aes.go")], (), ["stored records unwrapped with the known master keys"])

p("S03", "Each record kind is sealed under its own master key in the fixed format",
  "Objects, access lists, tokens, index entries, users and groups are each protected by exactly the master key documented for that kind and are bound to their own ID, label or expiry, so that a record can be opened with that key alone and changing any other key does not matter. The stored and serialised form is the fixed published one - AES-256-GCM with trailing nonce under a fresh key wrapped by AES-KWP, and KMAC-derived index keys and labels - so that data written by any release or instance with the same keys can be read by this one and vice versa. Keys of a length other than 32 bytes are refused at construction.",
  ["inputs", "configurations", "histories"],
  "all record kinds x all subsets of changed keys x all small contents, checked in both directions against an independent reference implementation of the format; all key lengths 0..64",
  "Tests read back only what the same instance wrote, so a changed key role or format goes unnoticed.",
  ["d1.go", "index/index.go", "id/standalone.go", "data/object.go", "data/access.go", "data/node.go", "data/token.go", "crypto/cryptor.go", "crypto/aes.go", "crypto/kwp.go", "crypto/kdf.go", "crypto/tagger.go"],
  [("cryptor per key", "d1.go New, id/standalone.go NewStandalone, index/index.go getTaggerAndCryptor")], (), ["stored bytes", "token strings"])

p("T01", "Tokens open until expiry, never after, and only if unmodified",
  "A token created by the library yields exactly the contents it was created from at every instant up to its expiry one hour after creation, also after being serialised to its string form and back in any time zone, and never after that instant. A token altered in any way - contents, key, expiry - or sealed under another token key is rejected, and no token string makes parsing or opening panic or yield other contents. The advertised expiry is the enforced one.",
  ["inputs", "configurations", "histories"],
  "all instants around creation and expiry on a virtual clock x time zones x contents; every single-character change, truncation and field exchange of token strings",
  "Tests use the real clock and two fixed validity periods, so they cannot stand at the expiry instant; they flip a single byte.",
  ["data/token.go", "d1.go", "id/standalone.go"],
  [("expiry is checked and authenticated", "data/token.go Unseal")], [("expiry time", "part of the authenticated data", "data/token.go")],
  ["CreateToken, GetTokenContents, LoginUser, GetIdentity"], NOHOOK)

p("U01", "Identities always reflect the current user, password and group records",
  "A login succeeds exactly for an existing user with that user's current password, and a valid token always resolves to that user's ID, scopes and current groups with their scopes, as determined by the history of successful user and group operations. Changing a password invalidates the old one and nothing else; removing a user invalidates its logins and outstanding tokens for ever; every failed login, and every password change with a wrong user or password, gives the same not-authenticated error. Operations on one user or group never affect another.",
  ["histories", "inputs"],
  "all histories of new user, login, change password, new group, add, remove, delete and token use over two or three users and two groups up to the depth bound",
  "Tests cover each method with one or two fixed sequences.",
  ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go", "crypto/password.go"],
  [("token resolves to uid, record is read on every call", "id/standalone.go GetIdentity")],
  [("user record", "hash, scopes, groups", "id/standalone_user.go"), ("group record", "scopes", "id/standalone_group.go")], ["Standalone methods"])

p("U02", "Only members of a group can change its membership",
  "Adding users to or removing users from groups takes effect exactly when the caller's token is valid and the caller is a member of every named group; otherwise nothing changes and an error is returned. Group creation makes exactly the creator a member, with exactly the requested scopes. No call by one user, authorised or not, can leave another user unable to authenticate other than by deleting that user.",
  ["histories", "inputs"],
  "all histories of group operations over three users and two groups up to the depth bound, with all lists of up to two group names including foreign, unknown, duplicated, empty and user IDs",
  "Tests cover one authorised and one unauthorised caller.",
  ["id/standalone.go", "id/id.go"],
  [("membership check before the change", "id/standalone.go AddUserToGroups, RemoveUserFromGroups")],
  [("group membership", "stored with each user", "id/standalone_user.go")], ["Standalone methods"])

p("U03", "Tampered, swapped or relocated user and group records are never accepted",
  "Whatever is done to the stored bytes of users and groups, a login or token for a user is only ever accepted, and scopes and groups are only ever reported, on the basis of a record that was written for that very user or group ID. In particular one user's or group's record placed under another's ID is rejected. No stored bytes cause a panic.",
  ["inputs", "fault_sequences"],
  "every single-byte change and truncation of every user and group record, every field exchange between two records, and every assignment of recorded values to storage slots, then login, token use, password and membership calls",
  "Tests modify ciphertext bytes of one record; none moves a valid record elsewhere.",
  ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go"],
  [("record id is authenticated data of the record", "id/standalone_user.go, id/standalone_group.go")], [("stored records", "untrusted bytes", "io provider")], ["Standalone methods"])

p("U04", "Storage failures during identity management are safe and repeatable",
  "If a storage call fails during a user or group operation the operation reports an error and grants nothing: no login or identity is produced, the user's password, scopes and membership are as before or as the operation intended, and other users and groups are untouched. A failed call that had no effect can be repeated with success; a failed creation hands out no user, password or group.",
  ["fault_sequences", "crash_points"],
  "every operation from every reachable small state with each of its storage calls failing before or after its effect or the process stopping there, up to two faults",
  "No identity test injects a storage failure.",
  ["id/standalone.go"], [("error propagation", "id/standalone.go")], (), ["Standalone methods"])

p("U05", "Concurrent identity operations behave as if executed one after another",
  "Concurrent user and group operations give results, and leave users, passwords and memberships, as if they had run in some sequential order. In particular a deleted user is never brought back, and operations on different users never interfere.",
  ["schedules"],
  "all interleavings, at storage-call granularity, of all pairs and selected triples of identity operations over two users and two groups",
  "No test is concurrent.",
  ["id/standalone.go"], [("read-modify-write of the user record", "id/standalone.go")], [("user record", "hash, scopes, groups", "io provider")], ["Standalone methods"])

p("X01", "Search returns exactly the identifiers added and not deleted",
  "For every keyword, Search returns exactly the identifiers added under it and not deleted since, each as often as it was added and in the order of addition, whatever the history of additions and deletions. Deleting a pair removes all its occurrences and nothing else; keywords never influence each other, however similar; any instance with the same keys and storage sees the same index. This holds for every keyword and identifier string and for long chains.",
  ["histories", "inputs"],
  "all histories of Add, Search and Delete over two keywords and three identifiers up to the depth bound; all chain lengths across counter encoding boundaries; unusual keyword and identifier strings",
  "Tests cover a dozen fixed sequences on one keyword with at most five entries.",
  ["index/index.go", "data/node.go", "crypto/tagger.go", "crypto/kdf.go"],
  [("linked chain of labels through counters", "index/index.go"), ("delete overwrites with the successor", "index/index.go deleteNode")],
  [("chain", "nodes reachable from counter 0", "io provider")], ["SecureIndex methods"])

p("X02", "Failed index operations lose, invent or resurrect no entries",
  "If a storage call fails or the process stops during an index operation, the operation reports an error and the index afterwards holds what it held before with the operation applied, not applied, or - for a deletion of repeated entries - applied to some of them. Repeating the operation completes it. Whatever happens later, an entry whose deletion was completed never reappears and no other entry is lost or duplicated.",
  ["fault_sequences", "crash_points", "histories"],
  "all histories of Add and Delete with each storage call of each operation failing before or after its effect or the process stopping there, up to two faults, followed by all short continuations",
  "No index test injects a fault.",
  ["index/index.go"], [("order of the two writes of a deletion", "index/index.go deleteNode")], [("unreachable nodes", "left behind by an interrupted deletion", "io provider")], ["SecureIndex methods"])

p("X03", "Index operations require an authenticated caller with the index scope",
  "Add, Search and Delete on the index succeed exactly for callers whose token the identity provider accepts and whose own scopes contain the index scope, regardless of any other scopes, groups or group scopes. Every other caller gets the not-authenticated or not-authorised error, learns nothing and changes nothing. The index refuses to be built with a key that is not 32 bytes.",
  ["inputs", "configurations"],
  "all three operations x all 512 scope sets x group configurations x authentication failures, on empty and populated indexes",
  "Index tests always use an authorised caller.",
  ["index/index.go", "id/scope.go"], [("caller verification", "index/index.go verifyAccess")], (), ["SecureIndex methods"])

p("X04", "Tampered index storage never makes Search invent or misattribute entries",
  "Whatever is done to the stored index records - changing bytes, exchanging, moving, duplicating or removing records, bringing back old versions - every identifier Search returns for a keyword is one that was added under that keyword, or Search fails. Index operations terminate and never panic on any stored bytes.",
  ["inputs", "fault_sequences"],
  "every single-byte change and truncation of every record and every assignment of recorded values (two keywords, two versions) to storage slots",
  "No index test manipulates storage.",
  ["index/index.go", "data/node.go", "crypto/cryptor.go"], [("label is authenticated with the node, key derived from the keyword", "data/node.go, index/index.go")], [("stored nodes", "untrusted bytes", "io provider")], ["SecureIndex methods"])

p("X05", "Concurrent additions and searches on the index are never lost or garbled",
  "When additions and searches run concurrently, every addition that reported success is found by all later searches exactly once and after all additions that completed before it began, an addition that lost a race reports an already-exists error and leaves no trace, and each search returns a consistent list of entries that were really added. Operations on different keywords, deletions included, never influence each other.",
  ["schedules"],
  "all interleavings of two and three operations at storage-call granularity, and at statement granularity up to a preemption bound, over the harness store and both bundled providers",
  "No test is concurrent.",
  ["index/index.go", "io/mem.go", "io/bolt.go"], [("create-only write of a new node", "index/index.go, io/mem.go, io/bolt.go")], [("chain", "nodes reachable from counter 0", "io provider")], ["SecureIndex methods"])

p("I01", "The bundled storage providers implement the storage contract exactly",
  "The in-memory provider, the Bolt provider and a pass-through proxy each behave as a map from (ID, kind) to bytes: Put creates and refuses existing entries, Get returns exactly the bytes last stored, Update replaces and refuses missing entries, Delete removes and never complains, and refusals are the documented errors and change nothing. Entries whose IDs or kinds differ in any way never influence each other, and every value, the empty one included, is stored faithfully. The proxy forwards each call unchanged unless overridden.",
  ["histories", "inputs"],
  "all operation histories up to the depth bound over IDs, kinds and values chosen to collide (prefixes, separators, hex look-alikes, empty); all kinds 0..65535 pairwise distinct",
  "Tests use one ID, one non-empty value and one step per method.",
  ["io/io.go", "io/mem.go", "io/bolt.go", "io/proxy.go"], [("key composition", "io/mem.go newKey, io/bolt.go")], [("entries", "map from id and kind to bytes", "io/mem.go, io/bolt.go")], ["io.Provider methods"])

p("I02", "The bundled storage providers are linearizable",
  "Concurrent Put, Get, Update and Delete calls on the in-memory and Bolt providers behave as if executed one at a time in some order consistent with their real-time order. In particular at most one of several concurrent Puts of the same entry succeeds, and an Update never brings a deleted entry back.",
  ["schedules"],
  "all interleavings of two to three threads with one or two calls each, on equal and different entries, at statement granularity with lock and map operations as scheduling points",
  "No test is concurrent.",
  ["io/mem.go", "io/bolt.go"], [("atomic check-and-store", "io/mem.go, io/bolt.go")], [("entries", "map from id and kind to bytes", "io/mem.go, io/bolt.go")], ["io.Provider methods"])

p("I03", "Bolt writes that were acknowledged survive any crash",
  "Once a write through the Bolt provider has returned success it is present after any crash of process or machine that happens after the provider has opened the file, and a write that had not returned is either completely present or completely absent. The file left behind by a crash at any point, with any of the unsynchronised writes lost, can be opened again and all other entries are intact.",
  ["crash_points", "histories"],
  "all short histories of writes on the real provider with every prefix of the resulting file writes and every subset (up to the bound) of writes since the last sync dropped or torn",
  "No test crashes, and none reopens a database.",
  ["io/bolt.go"], [("one synchronous transaction per call", "io/bolt.go")], [("database file", "pages and meta pages", "bbolt file")], ["NewBolt and io.Provider methods on the recovered file"])

p("B01", "Calls neither modify, retain nor share their callers' buffers",
  "No call of the D1, index, identity, key and IO provider APIs or of package crypto modifies any slice, map or structure its caller passed in or a provider handed to it, including unused capacity behind a slice. Modifying arguments after a call has returned, or modifying a returned value, never changes what is stored, what other calls return or how an instance behaves, key material passed at construction included. (The plain structures of package data hold the slices put into them; the AEAD interface documents that it works in place.)",
  ["inputs", "histories"],
  "every exported operation x every argument and result, with spare capacity filled with sentinels, modified afterwards and re-observed",
  "Tests pass fresh literals whose buffers have no spare capacity and never touch them again.",
  ["d1.go", "index/index.go", "io/mem.go", "io/bolt.go", "data/access.go", "crypto/cryptor.go", "key/static.go"],
  [("copies at the boundary", "d1.go, io/mem.go, io/bolt.go, index/index.go")], (), ["arguments and results of exported operations"])

p("K01", "Authenticated encryption round-trips and rejects every alteration",
  "For every key, plaintext and associated data, decrypting what was encrypted yields the plaintext, the ciphertext is exactly the plaintext length plus 28 bytes and equals the standard AES-256-GCM result with the nonce appended. Any change to ciphertext, tag, nonce, associated data or key, any truncation or extension and any wrong key length is reported as an error, without a panic.",
  ["inputs"],
  "all plaintext lengths and associated-data lengths in the swept range, every single-bit change of every input for a set of shapes, all truncations, all key lengths 0..64",
  "Tests try a handful of sizes and one flipped byte.",
  ["crypto/aes.go"], [("nonce and tag layout", "crypto/aes.go")], (), ["AES256GCM.Encrypt/Decrypt"])

p("K02", "Key wrapping conforms to RFC 5649 and rejects every alteration",
  "For every permitted key length the wrapped key is exactly what RFC 5649 / SP 800-38F KWP prescribes and unwraps to the original. Any single-bit change, truncation, extension, wrong wrapping key, malformed length or padding, and any size outside the permitted range is reported as an error, without a panic.",
  ["inputs"],
  "all input lengths in the swept range against an independent implementation, every single-bit change of wrapped keys of all small lengths, all forged length and padding fields",
  "Tests use a few vectors and random flips.",
  ["crypto/kwp.go"], [("W permutation and integrity check", "crypto/kwp.go")], (), ["KWP.Wrap/Unwrap"])

p("K03", "KMAC and the derived KDF and tags conform to SP 800-185",
  "For every key, customisation string, message and output length the MAC equals the SP 800-185 KMAC value, however the message is split over writes and whatever sequence of writes, sums and resets preceded; summing does not disturb the state and resetting restores the initial one. The key derivation function and tags are deterministic and are exactly the KMAC values specified for their inputs.",
  ["inputs", "histories"],
  "all key, message and customisation lengths in the swept ranges across the sponge-block boundaries; all sequences of write/sum/reset calls up to the depth bound; compared with an independent implementation",
  "Tests use the published vectors with two key and message sizes.",
  ["crypto/kmac.go", "crypto/kdf.go", "crypto/tagger.go"], [("encodings and padding", "crypto/kmac.go")], [("sponge state", "absorbed input", "crypto/kmac.go")], ["NewKMAC128/256, KMACKDF, Tagger.Tag"])

p("K04", "Generic encryption binds key, context and content",
  "Decrypting with the same associated value and wrapping key restores the encrypted value for every value and associated value of the supported types; with any other associated value, wrapped key, ciphertext or wrapping key decryption fails and leaves no partial plaintext in the destination. Neither operation alters its arguments, and an instance can be used any number of times in any order.",
  ["inputs", "histories"],
  "all combinations of a set of values, associated values, keys and records, all sequences of encrypt/decrypt calls on one instance up to the depth bound, every single-byte change",
  "Tests use one value and one reuse.",
  ["crypto/cryptor.go"], [("wrapped random key, authenticated context", "crypto/cryptor.go")], (), ["Cryptor.Encrypt/Decrypt"])

p("K05", "Generated passwords verify against their own hash only",
  "A generated password always verifies against the hash generated with it, and no other password (up to trailing zero bytes, which PBKDF2 does not distinguish) and no altered salt or hash verifies or makes the comparison panic. Passwords carry 256 bits from the random source, salts are fresh, and the hash is PBKDF2-SHA3-256 with 10000 rounds over the salt as stored, so that hashes stored by earlier releases keep verifying.",
  ["inputs", "histories"],
  "every single-bit change of salt and hash, every single-character change, truncation and extension of a password, all pairs of generated passwords, against an independent computation",
  "Tests try one wrong salt and one wrong hash.",
  ["crypto/password.go"], [("salted PBKDF2 and constant-time comparison", "crypto/password.go")], (), ["PasswordHasher"])

p("A01", "Scopes behave as sets and the documented constants stay distinct",
  "Scope containment is the subset relation and union is set union for all scope values; the individual scopes are pairwise disjoint single elements with fixed values and distinct names, the full scope contains each of them and the empty scope none. An identity's own scopes apply to its own ID, each group's scopes to that group only, and unknown IDs have none.",
  ["inputs"],
  "all 512 x 512 pairs of scope sets and all unions of up to three; all identities with up to two groups and overlapping IDs",
  "Tests check a few examples.",
  ["id/scope.go", "id/id.go"], [("bit operations", "id/scope.go")], (), ["Scope and Identity methods"])

p("L01", "Log output of a call carries that call's own fields and leaks no other's",
  "With a logger in the context, every log line a call emits carries that call's own method, object and user fields and never those of another call, also when concurrent calls share one context; the caller's logger, a default logger and the context are left as they were. No line contains keys, passwords or their stored hashes, tokens, plaintexts, keywords or index identifiers. Logging, at any level or switched off, never changes results or stored data.",
  ["schedules", "histories", "configurations"],
  "all operations with and without logger; all interleavings of two calls sharing a context at statement granularity up to a preemption bound",
  "No test installs a logger.",
  ["log/log.go", "d1.go", "index/index.go", "id/standalone.go"], [("per-call copy of the logger", "log/log.go CopyCtxLogger")], [("logger context buffer", "accumulated fields", "zerolog")], ["log lines written to the caller's logger"])

p("C01", "Concurrent calls on different objects never influence each other",
  "When operations on different objects, users, keywords or tokens run concurrently on shared instances, every call returns exactly what it would have returned running alone, and storage ends up exactly as if they had run one after another. In particular each object gets its own caller on its access list and its own contents, even when callers share argument values.",
  ["schedules"],
  "all interleavings of pairs of operations at statement granularity up to a preemption bound, and of triples at storage-call granularity, over the harness store and both bundled providers",
  "No test is concurrent.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "crypto/cryptor.go", "io/mem.go", "io/bolt.go"], [("no state outside the providers", "d1.go D1, index/index.go SecureIndex")], (), ["results and final storage state"])

p("C02", "Concurrent calls on one object behave as if executed one after another",
  "Concurrent operations on the same object give results, and leave contents and access list, as if they had run in some sequential order. Under every interleaving a deleted object stays deleted, a Decrypt returns only contents written to that object and only to callers on its list at some moment during the call, and a completed revocation is not undone.",
  ["schedules"],
  "all interleavings, at storage-call granularity, of all pairs of operations and small programs, and triples up to a preemption bound, on one object",
  "No test is concurrent.",
  ["d1.go", "utility.go"], [("order of storage calls", "d1.go")], [("object and access record pair", "must carry the same data key", "io provider")], ["results and final storage state"])

p("C03", "Instances can be shared between goroutines without data races",
  "Object, index, identity, token and bundled provider instances, contexts, and argument values that are only read, can be used by any number of goroutines at once: no two of them ever access the same memory without synchronisation when at least one access is a write, and no combination of calls deadlocks.",
  ["schedules"],
  "all pairs of operations on shared instances, all interleavings up to a preemption bound, each execution checked by happens-before race detection that ignores the explorer's own hand-offs",
  "No test is concurrent and the suite is not run with the race detector.",
  ["d1.go", "index/index.go", "id/standalone.go", "io/mem.go", "io/bolt.go", "log/log.go", "crypto/cryptor.go"], [("immutable instances", "d1.go, index/index.go, id/standalone.go"), ("sync.Map, bolt transactions", "io/mem.go, io/bolt.go")], (), ["race detector reports per schedule"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
