#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    if len(title) > 80: raise SystemExit(f"{id}: title {len(title)}: {title}")
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- T: sparse Merkle tree
prop("T01", "The sparse Merkle tree behaves as a map whose root depends only on content",
 "After any sequence of batched updates (insert, overwrite, delete by writing the default leaf, re-insert), with or without commits in between, a lookup returns exactly the value last written for the key and nothing for a key never written or deleted. The root is a function of the current content alone: it equals the root of a tree that received the same content in a single batch, and it equals the root computed independently from the definition of the tree. Two trees with different contents have different roots.",
 ["histories", "inputs"], "all sequences of batched updates over 32-byte keys (no two differing in their very last bit only), including keys that share long prefixes, and all batch boundaries",
 "The unit tests use a handful of fixed or uniformly random keys (which never share more than a few bits) and one or two batches; shortcut nodes only move, merge and collapse for adversarially close keys and for delete/re-insert histories.",
 ["pkg/mapserver/trie/trie.go", "pkg/mapserver/trie/trie_tools.go", "pkg/mapserver/trie/trie_cache.go", "pkg/mapserver/trie/util.go"],
 [("batched recursive update with shortcut leaves", "pkg/mapserver/trie/trie.go"), ("get", "pkg/mapserver/trie/trie_tools.go"), ("live/updated node cache", "pkg/mapserver/trie/trie_cache.go")],
 [("root", "hash of the current content", "Trie.Root")], ["Trie.Update", "Trie.Get", "Trie.Root"])
prop("T02", "Every key gets a Merkle proof that verifies against the published root",
 "For any content of the tree, the proof produced for a present key is a presence proof that the client-side verifier accepts for exactly the stored value under the current root. The proof produced for an absent key is an absence proof that the verifier accepts under the current root. This holds for the empty tree, for a single key and for keys sharing arbitrarily long prefixes, before and after commits and reloads.",
 ["inputs", "histories"], "all tree contents and all queried keys, including neighbours of present keys",
 "Unit tests check a few random keys; whether an absence proof ends in an empty subtree or in somebody else's leaf, and at which depth, depends on prefix sharing that random keys never produce.",
 ["pkg/mapserver/trie/trie_merkle_proof.go", "pkg/mapserver/prover/prover.go", "pkg/mapserver/responder/responder.go"],
 [("proof generation", "pkg/mapserver/trie/trie_merkle_proof.go"), ("proof verification", "pkg/mapserver/trie/trie_merkle_proof.go"), ("client verification", "pkg/mapserver/prover/prover.go")],
 None, ["Trie.MerkleProof", "trie.VerifyInclusion", "trie.VerifyNonInclusion", "prover.VerifyProofByDomain"])
prop("T03", "No Merkle proof is accepted for a statement that is false under the root",
 "Given the root of a tree, the verifier accepts no presence proof for a key and value that the tree does not map to each other, and no absence proof for a key that is present. This holds for any proof material an attacker may assemble: bits flipped, siblings dropped, added, swapped or duplicated, another key's proof replayed, proof key and value replaced, or leaf height misreported. Malformed material (empty, too long, wrong lengths) is rejected without crashing.",
 ["inputs"], "all mutations and replays of genuine proofs, for all trees and keys",
 "The unit tests check that genuine proofs verify and at most one altered value is refused; soundness is a statement about every other proof.",
 ["pkg/mapserver/trie/trie_merkle_proof.go", "pkg/mapserver/prover/prover.go"],
 [("inclusion / non-inclusion verification", "pkg/mapserver/trie/trie_merkle_proof.go"), ("domain-level verification", "pkg/mapserver/prover/prover.go")],
 None, ["trie.VerifyInclusion", "trie.VerifyNonInclusion", "prover.VerifyProofByDomain"])
prop("T04", "A committed tree can be reloaded from its root and keeps working",
 "After any history of updates and commits, a tree opened from the storage with the last committed root has the same content, gives the same proofs and reaches the same roots under further updates as the tree that stayed open. This holds across any number of commit and reopen cycles, for any cache depth, and also when an update writes values that are already there, deletes and re-inserts a key between two commits, or returns to an earlier content.",
 ["histories", "configurations"], "all interleavings of update, commit and reopen over such keys, all cache depth settings, one tree or several opened in succession on the same storage",
 "Existing tests commit once or twice with fresh random keys and reload once; lost or prematurely deleted storage nodes only show for histories that revisit values and are read back from the storage.",
 ["pkg/mapserver/trie/trie.go", "pkg/mapserver/trie/trie_cache.go", "pkg/db/mysql/smt.go"],
 [("commit: store updated batches, delete removed ones", "pkg/mapserver/trie/trie_cache.go"), ("lazy loading of batches", "pkg/mapserver/trie/trie.go")],
 [("tree table", "node hash to serialised 4-level batch", "pkg/db/mysql/smt.go")], ["Trie.Commit", "trie.NewTrie", "Trie.LoadCache"])
prop("T05", "A failed tree read, update or commit never corrupts what is served",
 "When the storage fails during a lookup, a proof, an update or a commit, the failure is reported as an error and never as a wrong answer (a missing value, an absence proof, a wrong root). A commit whose storing step failed can be repeated, and once it succeeds the tree can be reopened with all its content. A failure before a commit's writes take effect leaves the previously committed root fully readable.",
 ["fault_sequences", "histories"], "every storage call of every update/commit/read, failing once or several times, in every history",
 "The tests use a storage that never fails.",
 ["pkg/mapserver/trie/trie.go", "pkg/mapserver/trie/trie_cache.go", "pkg/mapserver/trie/trie_merkle_proof.go"],
 [("error propagation through concurrent subtree updates", "pkg/mapserver/trie/trie.go"), ("commit ordering", "pkg/mapserver/trie/trie_cache.go")],
 None, ["Trie.Get", "Trie.Update", "Trie.Commit", "Trie.MerkleProof"])

# ---------------------------------------------------------------- M: map server database and update cycle
prop("I05", "The ingestion program completes its input whatever interrupts or fails",
 "This holds for all histories of runs of the ingestion program (strategies, batch sizes, worker counts, growing directories, missing or unreadable files that are there later, signals and kills at any moment). What the journal has as completed is in the database. Files are completed in batches in order of their ranges, up to the batch that fails or is interrupted; a missing file that is skipped stays pending. Every domain whose map entry or tree value does not agree with its certificates is recorded as needing an update, also after a run that only updates the tree; the stored tree stays readable. A run ends with success exactly if it completed all its pending files and steps (with the full strategy, and after coalescing alone, entries and tree then agree with the certificates), and with failure and a message otherwise. A later full run on the complete input leads to its exact content; one without anything pending changes nothing. The log size recorded on request is the number of entries completed from the first on. Diagnostics on request do not disturb a run. A bad configuration (strategy, directory, journal, file names, counts that are not positive, database) ends the program with a message and failure, completing and changing nothing; no run crashes.",
 ["histories", "crash_points", "fault_sequences"], "all histories of runs of the program, with interruptions at any moment and files that cannot be read",
 "The tests run the steps of the program with stand-ins; the program itself has no tests.",
 ["cmd/ingest/main.go", "cmd/ingest/run.go", "cmd/ingest/processor.go", "cmd/ingest/journal/journal.go", "cmd/ingest/afterIngestion.go"],
 [("order of batch, coalescing, tree update and journal", "cmd/ingest/run.go"), ("signals", "cmd/ingest/main.go"), ("journal", "cmd/ingest/journal/journal.go")],
 [("journal", "JSON file of completed ranges", "cmd/ingest/journal/journal.go")], ["cmd/ingest"])
prop("M01", "Ingested certificates and policies are stored completely with all their links",
 "After a batch of certificate chains and policies has been inserted, every certificate of every chain (leaves and issuers) can be retrieved by its identifier with exactly its bytes and expiration, is linked to its issuer in the chain, and each leaf is linked to every domain it names. Domains affected are recorded as needing an update. Re-inserting the same or overlapping material, in any batch split and order, changes nothing and loses nothing.",
 ["inputs", "histories"], "all sets of chains (shared issuers, repeated leaves, many names), all batch splits and orders, and all ways of insertion (overwrite, keep existing, parallel updater)",
 "The tests insert fixed fixtures once; the loss and misalignment cases need partial overlap between batches, shared issuers and several certificates for the same name.",
 ["pkg/mapserver/updater/updater.go", "pkg/mapserver/updater/manager.go", "pkg/mapserver/updater/certsWorker.go", "pkg/mapserver/updater/domainWorker.go", "pkg/mapserver/updater/csv.go", "pkg/db/mysql/certs.go", "pkg/db/mysql/policies.go", "pkg/db/mysql/dirty.go"],
 [("insertion with overwrite / keep existing", "pkg/mapserver/updater/updater.go"), ("parallel updater pipeline", "pkg/mapserver/updater/manager.go"), ("SQL inserts", "pkg/db/mysql")],
 [("certs, policies, domains, domain_certs, dirty", "the ingested material", "tools/create_schema.sh")], ["updater.UpdateWithKeepExisting", "updater.UpdateWithOverwrite", "Manager.ProcessCertificates", "db.Conn"])
prop("M02", "A domain's map entry covers exactly its certificates, issuers and policies",
 "After coalescing, the entry of every updated domain lists exactly the identifiers of all leaf certificates naming the domain together with all their ancestors in the database, and likewise of all its policies with their ancestors, sorted and without duplicates, and the entry's identifier is the hash of that list. Domains without changes keep their entry; domains left with nothing get an empty entry or none. The result does not depend on the order of insertion or on how the work was split into bundles.",
 ["inputs", "histories", "configurations"], "all certificate graphs (chains of any length, shared and cross-signed issuers), all domain/certificate relations, all bundle counts and splits",
 "The tests coalesce a handful of domains with chains of fixed length and in a single bundle.",
 ["pkg/mapserver/updater/updater.go", "pkg/db/mysql/dirty.go", "tools/create_schema.sh"],
 [("coalescing stored procedures", "tools/create_schema.sh"), ("bundled coalescing", "pkg/mapserver/updater/updater.go")],
 [("domain_payloads", "coalesced identifiers and their hash", "tools/create_schema.sh")], ["updater.CoalescePayloadsForDirtyDomains", "db.Conn.RetrieveDomainEntries"])
prop("M03", "Responses of the map server verify end to end and bind exactly what is stored",
 "For any valid domain name queried, the response contains one entry for the name and each parent name the map covers (the parts that parsing the domain name yields), and an invalid name is refused; each entry's proof verifies, the root in it is the one in the signed tree head, and the tree head's signature verifies under the map server's key. The payload identifiers in the response hash to the proven value, and the payloads obtainable for these identifiers hash to the identifiers. A domain with stored material gets a presence proof, any other domain an absence proof.",
 ["inputs", "histories"], "all database contents reachable by insertion and update cycles, and all queried domain names",
 "Tests query a few names on a fixed content.",
 ["pkg/mapserver/responder/responder.go", "pkg/mapserver/prover/prover.go", "pkg/mapserver/common/domainEntry.go", "pkg/mapserver/mapserver.go"],
 [("proof assembly", "pkg/mapserver/responder/responder.go"), ("client verification", "pkg/mapserver/prover/prover.go")],
 None, ["MapResponder.GetProof", "prover.VerifyProofByDomain", "HTTP /getproof, /getcertpayloads, /getpolicypayloads"])
prop("M04", "Incremental map updates reach the same root as building from scratch",
 "Running the update cycle after every batch of new material leads to the same domain entries and the same tree root as inserting everything at once into an empty database and running one cycle. The order of batches, their split and repetitions of a cycle without new material do not matter. A fresh process that loads the stored root serves the same answers as the one that computed it.",
 ["histories"], "all sequences of (insert batch, coalesce, update tree, prune, restart) over overlapping material",
 "Tests run one or two cycles on disjoint fixtures.",
 ["pkg/mapserver/updater/updater.go", "pkg/db/mysql/dirty.go", "pkg/db/mysql/smt.go", "pkg/mapserver/trie/trie.go"],
 [("dirty domain tracking", "pkg/db/mysql/dirty.go"), ("tree update", "pkg/mapserver/updater/updater.go")],
 [("root table", "last published root", "pkg/db/mysql/smt.go")], ["MapUpdater", "updater.UpdateSMT", "root"])
prop("M05", "Pruning removes exactly the expired certificates and those issued under them",
 "Pruning at a given time (to the second) removes every certificate that expired before that time together with all certificates issued under it and with their links to domains, and no other certificate. The domains that named a removed certificate are updated in the next cycle, and after it neither their entries nor the tree refer to removed certificates while all other entries stay as they were. Pruning is idempotent and does not depend on the time zone of the server.",
 ["inputs", "histories"], "all certificate graphs, expiration times and pruning times, mixed with insertions and update cycles",
 "Tests prune one fixed set once.",
 ["pkg/mapserver/updater/updater.go", "pkg/db/mysql/certs.go", "tools/create_schema.sh"],
 [("prune stored procedure", "tools/create_schema.sh"), ("prune call", "pkg/db/mysql/certs.go")],
 None, ["MapUpdater.Prune", "db.Conn.PruneCerts", "db.Conn.RetrieveDirtyDomains"])
prop("M06", "Bulk database lookups answer for every element, in order, at any list size",
 "Asking which certificates or policies already exist, fetching payloads by identifiers, fetching domain entries, and reading or writing tree nodes gives for every element of the request the answer that a single-element request would give, in request order where order is promised. This holds for lists of any length (including empty, and around internal batch limits), with repeated elements and with mixtures of known and unknown ones.",
 ["inputs"], "all request lists and all database contents",
 "Tests use short lists; the internal batching (1000 elements) has boundary cases that fixed fixtures do not touch.",
 ["pkg/db/mysql/certs.go", "pkg/db/mysql/policies.go", "pkg/db/mysql/mysql.go", "pkg/db/mysql/smt.go", "pkg/db/mysql/dirty.go", "pkg/mapserver/responder/responder.go"],
 [("batched existence check", "pkg/db/mysql/certs.go"), ("repeated placeholders", "pkg/db/mysql/mysql.go")],
 None, ["db.Conn.CheckCertsExist", "db.Conn.CheckPoliciesExist", "db.Conn.RetrieveCertificatePayloads", "db.Conn.RetrievePolicyPayloads", "db.Conn.RetrieveCertificateOrPolicyPayloads"])
prop("M07", "A failure during an update cycle is reported and the next cycle repairs it",
 "If a database operation fails at any point of an insertion, pruning, coalescing, tree update or root saving, the operation reports an error, and the tree of the stored root stays readable. After the failure, repeating the operation on the same material brings the database and the tree to the state an undisturbed run reaches; nothing is marked as done that was not done.",
 ["fault_sequences"], "every database call of an update cycle failing (or the process ending there), for all contents",
 "No test injects a database failure.",
 ["pkg/mapserver/updater/updater.go", "pkg/mapserver/updater/manager.go", "pkg/mapserver/trie/trie_cache.go"],
 [("ordering of coalesce, tree update, root saving and dirty cleanup", "pkg/mapserver/updater/updater.go")],
 None, ["MapUpdater", "db.Conn"])
prop("M08", "The map server's HTTP interface answers every request correctly or with an error",
 "For any request to the map server's endpoints (any domain string, any list of identifiers, wrong length, non-hex, empty), the server answers with a status that tells success from failure and stays able to answer further requests. A successful answer decodes to exactly the data stored for the request, in the order of the request.",
 ["inputs"], "all HTTP requests (path, query strings, identifier lists) and database contents",
 "Tests send a few well-formed requests.",
 ["pkg/mapserver/mapserver.go", "pkg/mapserver/responder/responder.go"],
 [("HTTP handlers", "pkg/mapserver/mapserver.go")], None, ["HTTP endpoints of the map server"])
prop("N01", "The gRPC interface of the map server returns the same verifiable answers",
 "A query over gRPC for a valid domain name returns the responses of the map server for it: one entry for the name and each covered parent name, each with a proof that verifies, the root of the stored tree, its signature, and the identifiers of exactly what is stored. An invalid name (also one that is no text) gives an error. This holds for any number of concurrent queries from one process. A server that is told to terminate ends without error, answers no further queries and frees its port, on which a server with a newer tree can be started; starting a server on a port in use gives an error.",
 ["inputs", "schedules", "histories"], "all names and database contents, concurrent queries, and sequences of starting, updating and terminating servers",
 "There are no tests of the gRPC interface.",
 ["pkg/grpc/grpcserver/grpcserver.go", "pkg/grpc/grpcclient/grpcclient.go"],
 [("gRPC over TCP", "pkg/grpc")], None, ["grpcserver.ResponderServer", "grpcclient.GetProofs"])
prop("K01", "Database connections are made as configured, or refused with an error",
 "A database configuration built from any sequence of modifiers (defaults, environment, user, database, local socket, own session values), where later ones win, and also after being written to a file and read back, connects as exactly the named user with the password, over the named socket if there is one and else over TCP to the named host and port, to the named database, also when these contain special characters; with a local socket the password counts too. Every connection of the pool has the configured isolation, autocommit, binary collation and parsed times. The same configuration can connect again, and names the database after it connected. A wrong user or password, a missing socket, host or database is an error; so is a database without the schema if the schema is to be checked, and one with the schema passes.",
 ["inputs"], "all configurations, accounts, names and paths that MySQL and the DSN of its driver can express (no colon in users, no slash in names)",
 "Tests connect as root without a password.",
 ["pkg/db/mysql/init.go", "pkg/db/mysql/conf.go", "pkg/db/conf.go"], [("making the DSN", "pkg/db/mysql/init.go"), ("modifiers", "pkg/db/mysql/conf.go")], None, ["mysql.Connect", "db.NewConfig"])
prop("M10", "The map server serves, updates and stops as asked, also when interrupted",
 "Update cycles of a map server run one at a time. A request to update if possible says at once that it is not while a cycle runs (and perhaps shortly after); any other request waits for its turn or until its context is done. Every accepted request gets the outcome of its own cycle, and from then on the server answers from the new tree; meanwhile answers verify. While it listens, a server answers only with its own data, also with several servers in a process. After a stop (also one requested before it listens) or when the context of listening is done, it accepts nobody, lets the requests being answered end, and then listening ends without error, leaving the port free to listen again; a port in use is an error, and disturbs no later stop. After the server's context is done, requests to update end with an error instead of a crash. The map server program, asked to update at once or on schedule, holds and serves exactly what its logs hold (and the policies given as files), with tree and positions to match. It updates only when asked or due. It ends with success soon after a termination signal while it listens, and without a crash at any other moment; an interrupted or killed update is completed by a later run. A bad configuration (missing or wrong files, keys, logs, database, port, update period) ends the program with a message and failure, changing nothing.",
 ["histories", "schedules", "crash_points"], "all histories of listening, stopping, updating and asking, and all runs of the program with interruptions at any moment",
 "Tests make one server after the other listen and update once; the program has no tests.",
 ["pkg/mapserver/mapserver.go", "cmd/mapserver/main.go", "pkg/util/signal_handler.go", "pkg/mapserver/config/config.go"],
 [("update requests over channels", "pkg/mapserver/mapserver.go"), ("listening and shutdown", "pkg/mapserver/mapserver.go"), ("signals", "pkg/util/signal_handler.go")],
 [("configuration", "JSON file of the program", "pkg/mapserver/config/config.go")], ["mapserver.MapServer", "cmd/mapserver"])
prop("M09", "The recorded log position never runs ahead of or behind what was ingested",
 "An update fetches from each log exactly the entries from the position recorded for it up to the size the log announced when the update turned to it, and ends with an error if fetching or storing fails. The position and tree head of a log become this size and head once all its entries up to there are in the database (entries the log reader excludes as expired count as done), and so they are for every log after an update without error; they never go back, also if a log announces less than before. Whatever fails at any point, the recorded position is never ahead of the stored material, so that repeated or restarted updates miss nothing.",
 ["histories", "fault_sequences"], "all log sizes, batch sizes, several logs of several kinds, growth between and during updates, and failures of fetching and of storing at any point",
 "Tests use a fixed local log once without failures.",
 ["pkg/mapserver/updater/updater.go", "pkg/mapserver/logfetcher/locallogfetcher.go", "pkg/db/mysql/certs.go"],
 [("batch loop with progress recording", "pkg/mapserver/updater/updater.go"), ("last status per log", "pkg/db/mysql/certs.go")],
 [("last status", "position and tree head per log", "pkg/db/mysql/certs.go")], ["MapUpdater.StartFetchingRemaining", "MapUpdater.NextBatch", "MapUpdater.UpdateNextBatch", "db.Conn.LastCTlogServerState"])

# ---------------------------------------------------------------- I: bulk ingestion
prop("I01", "The fast CSV row reader agrees with the standard CSV format",
 "For every row of an input file (one line, of any bytes, with quoted and unquoted fields, escaped quotes, empty fields and any line ending) the certificate, chain and expiration fields returned are exactly the fourth, the fifth and the last field that the standard CSV reader finds in the line. A row the standard reader refuses, with fewer than five fields, or without certificate or expiration is reported as an error and never returned as a different record.",
 ["inputs"], "all byte strings without inner line feeds",
 "Tests compare a few fixed lines.",
 ["cmd/ingest/fastcsv/fastcsv.go"], [("row splitting, with a fast path and a fallback", "cmd/ingest/fastcsv/fastcsv.go")], None, ["fastcsv.ParseLine"])
prop("I02", "Bulk ingestion stores every row of every file whatever the parallelism",
 "For any set of input files (plain or compressed) and any number of readers, parsers, database workers and batch sizes, bulk ingestion stores exactly the union of the chains of all rows whose leaf has not expired (by its row and by itself): every certificate with its expiration, its payload and the link to an issuer that follows it in a chain, every name of every leaf as a domain that needs an update, and the link of each name to each leaf with it. Rows repeated in one or several files, or in a later ingestion, change nothing.",
 ["inputs", "configurations", "schedules"], "all file contents and splits, all worker counts, batch sizes and ingestion options",
 "The tests ingest one fixed file with one configuration.",
 ["cmd/ingest/processor.go", "cmd/ingest/csvSplitWorker.go", "cmd/ingest/toChainWorker.go", "cmd/ingest/toChainPtrWorker.go", "cmd/ingest/chainToCertWorker.go", "pkg/mapserver/updater/manager.go"],
 [("file to certificate pipeline", "cmd/ingest"), ("parallel updater", "pkg/mapserver/updater")], None, ["ingest processor", "database content"])
prop("I03", "Bulk ingestion reports unreadable input and failing storage, and always ends",
 "If an input file is missing (unless missing files are to be skipped), truncated so that it cannot be decompressed or its last row is malformed, not decompressible, or contains a malformed row for a certificate that has not expired, or if a database operation fails, the ingestion of that batch returns an error. Otherwise it returns none. It always terminates, and no file of a failed batch is recorded as completed, so that after the cause is gone the next run leads to the complete content.",
 ["fault_sequences", "inputs"], "all positions and kinds of corruption, all failing database operations, all worker counts",
 "Tests only ingest good files with a storage that never fails.",
 ["cmd/ingest/processor.go", "cmd/ingest/csvSplitWorker.go", "pkg/pipeline/stage.go", "cmd/ingest/run.go"],
 [("error propagation through the pipeline", "pkg/pipeline/stage.go")], None, ["ingest processor Wait", "journal"])
prop("I04", "The ingestion journal resumes with exactly the files not yet completed",
 "Whatever the history of runs, completions, failures and interruptions, the pending files of a run are exactly the bundles found in its input directory (compressed ones in the directories named bundled; plain ones beside these if asked for) whose index ranges are not wholly covered by completed files, each once and in order of their ranges; files are recorded as completed only after their batch and the steps after it succeeded. The log size recorded is the end of the completed indices that start at index 0 and have no hole, and none is recorded if index 0 is not completed. A journal written and read back, or read after an interrupted write, gives the same answers, and a damaged one is reported.",
 ["histories", "crash_points", "inputs"], "all directory contents, sequences of runs of all strategies, failures and restarts",
 "Tests cover a few scripted sequences on small directories.",
 ["cmd/ingest/journal/journal.go", "cmd/ingest/journal/list_files.go", "cmd/ingest/run.go"],
 [("interval bookkeeping", "cmd/ingest/journal/journal.go"), ("file listing", "cmd/ingest/journal/list_files.go"), ("batches and what is recorded when", "cmd/ingest/run.go")],
 [("journal file", "jobs, completed intervals and flags", "cmd/ingest/journal/journal.go")], ["journal API", "runIngest"])
# ---------------------------------------------------------------- L: log fetchers
prop("L01", "The CT log client delivers exactly the requested entries, in order",
 "Fetching a range from a log delivers the certificates of entries start to end (both included; for precertificate entries, the precertificate) exactly once each and in order, with their chains, whatever limit the log puts on entries per answer and however batches are sized. Certificates and chain certificates with errors that CT logs tolerate are delivered too. A log that answers with errors, malformed data or too many or no entries, or that does not have all entries of the range, leads to an error or a retry, never to skipped, repeated or misattributed entries, to a crash, or to fetching that never ends. The same client can fetch further ranges, also after one was abandoned or stopped half way, and never mixes them.",
 ["inputs", "configurations", "fault_sequences", "schedules"], "all ranges, answer limits, batch sizes, server misbehaviours and moments of abandoning a fetch",
 "The only tests need a live log on the internet and are not part of the reliable set.",
 ["pkg/mapserver/logfetcher/httplogfetcher.go"],
 [("range splitting and retry", "pkg/mapserver/logfetcher/httplogfetcher.go")], None, ["HttpLogFetcher"])
prop("L02", "The local log reader delivers exactly the stored entries or reports an error",
 "Reading a log mirrored in a directory delivers every entry of the announced range exactly once with its chain, and counts exactly the expired ones as excluded, whatever the split into plain and compressed files and directories. The announced range goes from the given position to the end of the last of the consecutive files that follow it and that stays within the row limit (but at least one file). A file that is missing, unreadable, cut short or malformed makes fetching report an error instead of silently delivering fewer entries, and two files that begin at the same entry are refused; nothing crashes or runs forever. A reader that is initialised again after an error, or while a previous fetch was abandoned, never mixes both.",
 ["inputs", "fault_sequences", "histories"], "all directory layouts, file splits, row limits, batch sizes, corruptions and sequences of fetches",
 "No test reads a local log.",
 ["pkg/mapserver/logfetcher/locallogfetcher.go"],
 [("file and range selection", "pkg/mapserver/logfetcher/locallogfetcher.go")], None, ["LocalLogFetcher"])

# ---------------------------------------------------------------- P: pipeline
prop("P01", "A processing pipeline delivers every item exactly once to the right sink",
 "For any acyclic arrangement of sources, stages, joins and sinks, any numbers of channels and options (sequential, concurrent or cyclic output), every value emitted by the sources is processed exactly once by each stage on its path and reaches exactly the sinks it is sent to. Values that travel through the same channels one after the other keep their order; so do the several outputs of one call if they are sent sequentially. A pipeline can be run again after it ended. It terminates without error when its sources are exhausted and leaves no goroutine behind.",
 ["schedules", "configurations", "inputs"], "all topologies, fan-outs, item counts and schedules",
 "The pipeline tests are a fixed set of topologies (and excluded from the reliable set as flaky).",
 ["pkg/pipeline/pipeline.go", "pkg/pipeline/stage.go", "pkg/pipeline/source.go", "pkg/pipeline/sink.go", "pkg/pipeline/join.go"],
 [("stage loop", "pkg/pipeline/stage.go"), ("source loop", "pkg/pipeline/source.go")], None, ["pipeline.Pipeline Resume/Wait"])
prop("P02", "A failing stage ends the pipeline and its error is reported",
 "If any source, stage or sink reports an error at any moment, all stages stop, the pipeline terminates in bounded time and the wait returns an error that includes every reported one; no stage processes items forever or blocks. A pipeline without errors returns none, and a pipeline that ended with an error can be run again.",
 ["schedules", "fault_sequences", "configurations"], "all topologies, positions and times of failure, single and multiple simultaneous failures, output by value or by stream",
 "Tests inject errors in two or three scripted places.",
 ["pkg/pipeline/stage.go", "pkg/pipeline/source.go", "pkg/pipeline/sink.go", "pkg/pipeline/pipeline.go"],
 [("error channels backwards", "pkg/pipeline/stage.go")], None, ["pipeline.Pipeline Wait"])
prop("P03", "Stalling and resuming a pipeline loses and repeats nothing",
 "Pausing a running pipeline at any moment and resuming it, any number of times, gives the same delivered items as an undisturbed run. While it is paused, no paused stage is inside its processing function. The same holds for stages that resume on their own after each bundle of outputs.",
 ["schedules", "histories"], "all moments and counts of stall/resume, topologies and channel counts",
 "Tests stall at one scripted place.",
 ["pkg/pipeline/stall_resume.go", "pkg/pipeline/stage.go", "pkg/mapserver/updater/manager.go"],
 [("stall and auto resume", "pkg/pipeline/stall_resume.go")], None, ["pipeline stall options", "Manager"])

# ---------------------------------------------------------------- C: policies and crypto
prop("C01", "Policy objects survive serialisation unchanged",
 "Every policy object (policy certificates, requests, revocations, timestamps, conditions and lists of them) serialised to JSON and read back equals the original in all fields and serialises again to the same bytes. Objects read from bytes keep exactly these bytes (without white space around them) as their raw form, also through files, and independently of what happens to the buffer they were read from. Objects that differ in a field are not equal. Unknown types and malformed text are reported as errors without crashing.",
 ["inputs"], "all values of all policy types (valid UTF-8 text, times that RFC 3339 can express) and all byte strings",
 "Tests serialise a few random objects of fixed shape.",
 ["pkg/common/json.go", "pkg/common/policies.go", "pkg/common/policy_common.go", "pkg/common/policy_issuance.go"],
 [("typed JSON envelope", "pkg/common/json.go")], None, ["common.ToJSON", "common.FromJSON", "common.ToJSONFile", "common.FromJSONFile"])
prop("C02", "Owner and issuer signatures verify exactly what was signed by whom",
 "A policy object signed by an owner or issuer verifies under that signer's certificate, and signing and verifying change no other field and leave verification repeatable. Changing any signed field, the signature, or the signing key makes verification fail. Verifying under a certificate that is not the one the signature was made with fails.",
 ["inputs"], "all policy objects, keys and single-field changes",
 "Tests check one signed object and one alteration.",
 ["pkg/common/crypto/crypto.go"], [("sign / verify over the canonical form", "pkg/common/crypto/crypto.go")], None, ["crypto.SignAsOwner", "crypto.SignRequestAsIssuer", "crypto.VerifyOwnerSignature", "crypto.VerifyIssuerSignature"])
prop("C03", "Policy certificates are only accepted within the limits of their issuer",
 "A policy certificate passes its issuer's constraints only if its validity period lies within the issuer's, both domains are well-formed names (labels without empty parts), and its domain equals or lies below the issuer's domain; an issuer without domain sets no domain limit. Every pair within these limits passes, every other pair is refused with an error, and checking changes neither certificate.",
 ["inputs"], "all pairs of issuer and subject certificates (domains related by suffix, label and string prefix; validity periods touching and overlapping in every way)",
 "Tests check a couple of pairs.",
 ["pkg/common/crypto/crypto.go"], [("issuer constraints", "pkg/common/crypto/crypto.go")], None, ["crypto.VerifyIssuerConstraints"])
prop("C04", "A policy certificate's signer identity does not depend on log timestamps",
 "The identity by which a policy certificate is referred to as owner or issuer is the same before and after timestamps are added and it is re-signed by its issuer, and it changes when any other field changes. Computing it leaves the certificate unchanged. A timestamp signed by a policy log verifies under the log's key for exactly the certificate, log identity and time it was made for.",
 ["inputs"], "all policy certificates, timestamps and single-field changes",
 "Tests check fixed objects.",
 ["pkg/common/crypto/crypto.go", "pkg/common/policies.go", "pkg/common/embedded_policies.go"], [("hash computation", "pkg/common/crypto/crypto.go")], None, ["crypto.ComputeHashAsSigner", "crypto.SignPolicyCertificateTimestamp"])
prop("C05", "A policy certificate authority issues exactly the acceptable requests",
 "The authority turns a request into a policy certificate unless the request carries an owner signature that does not verify under the owner's policy certificate issued earlier, or a log server fails; then it reports an error and records nothing. The issued certificate carries the requested fields and owner signature unchanged, one timestamp from every configured log server, verifies as issued by the authority, was sent to every log server in its final form, and is known as owner for later requests. Requests prepared by the authority get unique serial numbers and validity within the authority's.",
 ["histories", "inputs", "fault_sequences"], "all sequences of requests (unsigned, signed by a known owner, tampered, unknown owner) and all log server failures",
 "Tests run the happy path with one request.",
 ["pkg/pca/pca.go", "pkg/domainowner/domainowner.go", "pkg/common/crypto/crypto.go"],
 [("issuance flow", "pkg/pca/pca.go"), ("owner request", "pkg/domainowner/domainowner.go")], [("DB", "issued policy certificates by owner identity", "pkg/pca/pca.go")], ["PCA.SignAndLogRequest", "PCA.NewPolicyCertificateSigningRequest", "DomainOwner.GeneratePolCertSignRequest"])
prop("C06", "Policy attributes classify subdomains exactly as documented",
 "For a policy domain and any queried domain, the result is not-applicable unless the queried name lies below the policy domain (a trailing dot is ignored on both); otherwise it is decided by the label directly below the policy domain: an exact mention wins over a wildcard, and unmentioned labels are allowed. Attribute sets that mention a label or a CA twice are refused, all others are accepted. The order of the lists does not matter.",
 ["inputs"], "all attribute sets and pairs of names, including names that are string suffixes but not label suffixes", "Few examples are tested.",
 ["pkg/common/policies.go"], [("attribute validation", "pkg/common/policies.go")], None, ["PolicyAttributes.CheckDomainValidity", "PolicyAttributes.ValidateAttributes"])

# ---------------------------------------------------------------- V: policy log
prop("V01", "Inclusion and consistency checks accept exactly the true log states",
 "For any log content, genuine inclusion proofs and tree-head updates are accepted. Any other entry, altered proof, wrong index or size, or a tree head that does not extend the trusted one is refused, without crashing.",
 ["inputs", "histories"], "all log sizes and leaves, all growth steps, all mutations of proofs and heads",
 "Tests verify one canned proof.",
 ["pkg/logverifier/verifier.go"], [("Merkle verification", "pkg/logverifier")], None, ["LogVerifier"])
prop("Q01", "The policy log client adds every leaf once and returns the proofs of the log",
 "For any list of leaves (also empty or with repetitions), any number of workers and any failures of the log server: adding leaves asks the log once for each leaf and reports exactly the leaves it refused, with their errors. Fetching inclusions returns, for each leaf the log has at the tree size the client last updated to, the proofs the log gives for it and the log's tree head, and it reports every other leaf with its name and the error; leaves the log does not find at once are asked for again. Queueing the files of the exchange folder adds each policy certificate in them once, removes exactly the files whose certificate the log took (none if a file is unreadable), waits until the log has appended them, even if it had some of them already or others add leaves, and reports what was added, refused, retrieved and not retrieved. Tree heads and consistency proofs returned are those of the log, or an error. Every call ends soon after its context.",
 ["inputs", "schedules", "fault_sequences", "histories"], "all lists of leaves, contents and growth of the log, numbers of workers, and refusals, wrong and missing answers of the log server",
 "The client has no unit tests; an integration program needs a running Trillian.",
 ["pkg/policylog/client/logclient.go", "pkg/policylog/client/concurrentfunc.go", "pkg/policylog/client/adminclient.go"],
 [("leader and workers over channels", "pkg/policylog/client/concurrentfunc.go"), ("file exchange", "pkg/policylog/client/logclient.go")],
 [("exchange folder", "files of policy certificates to be added", "pkg/policylog/client/logclient.go")], ["LogClient", "AdminClient"])

# ---------------------------------------------------------------- D, U
prop("D01", "Domain names are parsed into the same valid names everywhere",
 "A string is accepted as a domain name only if it is one: labels of 1 to 63 letters, digits and inner hyphens, at most 255 characters, optionally a leading wildcard label, and not itself a public suffix (managed by ICANN). It is reduced to its normal form: without the wildcard label and without a leading \"www.\" (unless only a public suffix would remain). It is split into its registered domain (one label below the public suffix) and its subdomain, which together give the name back. The names extracted from a certificate are exactly the normal forms of the valid names among its subject and alternative names, without repetition. Names are compared byte by byte.",
 ["inputs"], "all strings and lists of names",
 "Tests check a table of examples.",
 ["pkg/domain/domain.go"], [("domain parser", "pkg/domain/domain.go")], None, ["domain.DomainParser", "domain.ParseDomainName"])
prop("U01", "Certificates and bundles survive encoding, files and streaming",
 "Certificates encoded to text and read back, streamed in chunks of any size, or read from (compressed) files are the same certificates in the same order, also with other text between the blocks. A certificate that cannot be parsed, a corrupt compressed file, a failing reader, and a text without any certificate where one is expected are reported as errors, never as a crash or a silently shorter list.",
 ["inputs"], "all certificate sequences, garbage in between, all chunkings and corruptions",
 "Tests read fixture files.",
 ["pkg/util/pem.go", "pkg/util/certReader.go", "pkg/util/io.go", "pkg/util/certificate.go", "pkg/util/csv_files.go"],
 [("PEM streaming", "pkg/util/certReader.go"), ("CSV rows", "pkg/util/csv_files.go")], None, ["util.CertReader", "util file helpers"])
prop("U02", "Flattening chains keeps every certificate once with its issuer and names",
 "Flattening any list of chains yields every leaf and every certificate of every chain with its identifier and the identifier of its issuer in that chain (none for the last), and for leaves the names they are valid for, aligned position by position. It does not lose certificates shared between chains nor attach names to issuers. Chains may be empty (self-issued leaf).",
 ["inputs"], "all lists of chains", "Few fixed chains are tested.",
 ["pkg/util/certificate.go"], [("unfolding", "pkg/util/certificate.go")], None, ["util.UnfoldCerts", "util.UnfoldCert"])
prop("U03", "Deduplication and sorting helpers are exact set operations",
 "Deduplicating one or several aligned slices keeps exactly one occurrence of every key, with the values aligned to that occurrence; sorting identifiers yields a sorted permutation; joining, splitting and converting lists loses nothing. Behaviour is the same for concurrent use where it is allowed.",
 ["inputs"], "all slices", "Fixed slices are tested.",
 ["pkg/util/deduplicateSlice.go", "pkg/util/slice.go", "pkg/util/sort.go", "pkg/common/ids.go"], [("dedup", "pkg/util")], None, ["util helpers"])
prop("U04", "Durations and times of day mean what they say",
 "A duration written out and parsed back is the same duration; malformed durations are refused. The next occurrence of a time of day is in the future, within one day, and at that time of day in UTC, whatever the local time zone. A function scheduled periodically runs at the promised instants, one run at a time, and not after its context was cancelled.",
 ["inputs"], "all durations, strings, times and time zones", "A few values are tested, in one zone.",
 ["pkg/util/duration.go", "pkg/util/time_wrap.go", "pkg/util/duration_wrap.go"], [("parsing", "pkg/util")], None, ["util duration and time wrappers"])
prop("U05", "Caches never claim to have seen what they have not, and bound what they hold",
 "A presence cache reports an element as present only if it was added before, and reports it as present ever after it was added; a cache of limited size does so for the most recently added elements that fit its capacity and never holds more. This holds under concurrent use. A ring cache hands out its elements in turn.",
 ["histories", "schedules"], "all operation sequences, capacities and concurrent users", "Tests add a few elements.",
 ["pkg/cache/lru_cache.go", "pkg/cache/presence_cache.go", "pkg/util/noallocs/ringcache.go"], [("caches", "pkg/cache")], None, ["cache.Cache"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
