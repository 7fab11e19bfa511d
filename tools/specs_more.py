check("C01", "property-based round-trip, distinctness and mutation fuzzing of serialised policy objects (rapid)",
      "Generated values of all nine types and nested lists; text mutations; an independent field-by-field comparison is the oracle.",
      test("pol", "TestC01RoundTrip", 6000, 4), test("pol", "TestC01Distinct", 6000, 1), test("pol", "TestC01Malformed", 10000, 2), test("pol", "TestC01Unknown", 500, 1, tshards=1))
check("C02", "property-based sign/verify with single-field alteration, key and signer substitution (rapid)",
      "RSA keys of 1024 bits for speed; trusts crypto/rsa.",
      test("pol", "TestC02Owner", 3000, 3), test("pol", "TestC02Issuer", 3000, 3), test("pol", "TestC02Unserialisable", 500, 2))
check("C03", "property-based comparison with a restated rule over generated pairs of issuer and subject (rapid)",
      "Decides names related by label, string suffix and malformed names and all orderings of the periods.",
      test("pol", "TestC03Constraints", 40000, 8))
check("C04", "property-based alteration of single fields: identity and timestamp signature must change exactly as specified (rapid)",
      "Generated certificates; trusts SHA-256 and crypto/rsa.",
      test("pol", "TestC04Identity", 8000, 4), test("pol", "TestC04Timestamp", 3000, 4))
check("C06", "property-based comparison with a restated rule over generated attribute sets and names (rapid)",
      "Small label alphabet, so that mentions, wildcards and suffix relations collide often.",
      test("pol", "TestC06Attributes", 40000, 8))
check("C05", "stateful generation of issuance histories with failing log servers against a restated acceptance rule (rapid)",
      "Log servers are in-process stand-ins that sign timestamps and may fail at any call; RSA-1024 keys.",
      test("pol", "TestC05Authority", 800, 6), test("pol", "TestC05Owner", 10, 2))
check("D01", "property-based comparison with a restated name grammar and split rule (rapid)",
      "Names built from a small set of labels, malformed labels, and suffixes of every kind of the public suffix list, whose library is trusted.",
      test("utl", "TestD01Parse", 60000, 3), test("utl", "TestD01Affected", 20000, 3), test("utl", "TestD01Cert", 20000, 2))
check("U01", "property-based generation of streams, chunkings, faults and corruptions against the standard decoders (rapid)",
      "Trusts encoding/pem, compress/gzip and the CT x509 parser; streams up to some MB.",
      test("utl", "TestU01Streams", 1500, 4), test("utl", "TestU01Writer", 2000, 1), test("utl", "TestU01Files", 3000, 2),
      test("utl", "TestU01Keys", 4000, 2), test("utl", "TestU01Rows", 3000, 2), test("utl", "TestU01Filenames", 20000, 1))
check("U02", "property-based comparison of unfolded chains with their definition (rapid)",
      "Chains over a small pool of issuers, so that members repeat within and across chains.",
      test("utl", "TestU02Unfold", 10000, 4), test("utl", "TestU02One", 10000, 4))
check("U03", "property-based comparison with set and sequence definitions (rapid)",
      "Small alphabets so that duplicates are frequent.",
      test("utl", "TestU03Dedup", 40000, 2), test("utl", "TestU03Slices", 20000, 2), test("utl", "TestU03IDs", 20000, 1),
      test("utl", "TestU03Errors", 20000, 1), test("utl", "TestU03Channels", 1000, 1), test("utl", "TestU03Math", 40000, 1))
check("U04", "property-based round trips and comparison with big-integer and virtual-time references (rapid, synctest)",
      "Time zones with offsets of whole quarter hours; schedules in virtual time.",
      test("utl", "TestU04Durations", 60000, 2), test("utl", "TestU04TimeOfDay", 40000, 2), test("utl", "TestU04Next", 10000, 2), test("utl", "TestU04Periodic", 6000, 2))
check("U05", "stateful generation against a set model, and concurrent histories under the race detector (rapid)",
      "Concurrent schedules are sampled by the Go scheduler, not enumerated.",
      test("utl", "TestU05Model", 10000, 2), test("utl", "TestU05Ring", 20000, 1), test("utl", "TestU05Concurrent", 150, 3, race=True))
check("V01", "property-based mutation of genuine inclusion and consistency proofs over generated logs (rapid)",
      "Oracle is the recursive definition of RFC 6962; SHA-256 trusted; logs up to a few dozen leaves.",
      test("logv", "TestV01Inclusion", 40000, 4), test("logv", "TestV01Consistency", 40000, 4))
check("Q01", "model-based stateful testing of the policy log client against an in-process log server with injected faults (rapid, also under the race detector)",
      "The log server follows the semantics of Trillian's (two modes: equal leaves are appended again, or refused as known); its tree is the definition of RFC 6962. Bounded waiting is judged by the clock.",
      test("logv", "TestQ01Client", 800, 4), test("logv", "TestQ01Queue", 200, 3), test("logv", "TestQ01Tree", 60, 1), test("logv", "TestQ01Client", 120, 1, race=True))
check("I01", "property-based comparison of the row reader with encoding/csv over generated and mutated rows (rapid)",
      "Rows built from fields of every kind, quoted or not, and raw strings over the special characters; trusts encoding/csv.",
      test("ing", "TestI01Rows", 200000, 4))
check("I04", "stateful generation of runs, completions, crashes and restarts against a set model (rapid)",
      "Real directories and journal files; crashes are abandoned journals with partly written temporary files, and cut journals.",
      test("ing", "TestI04Journal", 1500, 5), test("cmd/ingest", "TestI04Runs", 1500, 3))

check("P01", "generated pipeline topologies and schedules against a simulation of the deliveries (rapid, also under the race detector)",
      "Up to 9 groups of stages and 1500 deliveries per run; schedules come from the Go scheduler and generated pauses; acyclic arrangements.",
      test("pipe", "TestP01Deliver", 6000, 4), test("pipe", "TestP01Join", 3000, 2), test("pipe", "TestP01Sequential", 3000, 1),
      test("pipe", "TestP01Deliver", 400, 2, race=True), test("pipe", "TestP01Join", 300, 1, race=True))
check("P02", "generated failures in generated pipelines: termination, reported errors, and no processing afterwards (rapid, also under the race detector)",
      "One minute without end of the pipeline counts as a hang; it normally takes milliseconds.",
      test("pipe", "TestP02Errors", 8000, 4), test("pipe", "TestP02Join", 3000, 2), test("pipe", "TestP02Resume", 4000, 2),
      test("pipe", "TestP02Errors", 400, 2, race=True), test("pipe", "TestP02Join", 300, 1, race=True))
check("P03", "generated pauses and bundles in generated pipelines against the undisturbed deliveries (rapid, also under the race detector)",
      "Pauses are requested at generated evaluations, up to 60 per run; streaming functions are not part of the processing that a pause waits for.",
      test("pipe", "TestP03Stall", 2000, 4), test("pipe", "TestP03Resume", 3000, 3),
      test("pipe", "TestP03Stall", 200, 2, race=True), test("pipe", "TestP03Resume", 300, 1, race=True))

check("I02", "generated files, chains and pipeline configurations against the union of the rows, with a database that reads the real CSV files (rapid, also under the race detector)",
      "The database is a stand-in with the rules of LOAD DATA (M01 uses the real one); up to 5 workers of each kind, 4 files, 40 rows per file; schedules come from the Go scheduler and generated pauses.",
      test("cmd/ingest", "TestI02Ingest", 800, 6), test("cmd/ingest", "TestI02Ingest", 120, 2, race=True))
check("I03", "fault injection into generated ingestions: damaged input at generated positions, failing database calls, and whole runs with their journal repeated after a fault (rapid, also under the race detector)",
      "One fault per ingestion; database faults before or after the effect of the call; two minutes without end count as a hang.",
      test("cmd/ingest", "TestI03Faults", 1200, 4), test("cmd/ingest", "TestI03Runs", 500, 3), test("cmd/ingest", "TestI03Faults", 120, 1, race=True),
      level="fault_enumeration")

check("L01", "generated logs, ranges, batch sizes, answer limits and misbehaviours of an in-process CT log against the entries it holds (rapid, also under the race detector)",
      "Logs of up to 40 entries over loopback HTTP; one kind of misbehaviour per case, once or from some answer on; one minute without end counts as a hang.",
      test("pkg/mapserver/logfetcher", "TestL01Fetch", 3000, 4), test("pkg/mapserver/logfetcher", "TestL01Again", 1500, 3), test("pkg/mapserver/logfetcher", "TestL01State", 300, 1),
      test("pkg/mapserver/logfetcher", "TestL01Again", 200, 1, race=True), test("pkg/mapserver/logfetcher", "TestL01Fetch", 200, 1, race=True))
check("L02", "stateful generation of growing directories with damaged files and abandoned reads against the rows written (rapid, also under the race detector)",
      "Real directories; up to 20 files of up to 20 rows; files need not have as many rows as their name says.",
      test("pkg/mapserver/logfetcher", "TestL02Local", 2000, 4), test("pkg/mapserver/logfetcher", "TestL02Names", 3000, 2),
      test("pkg/mapserver/logfetcher", "TestL02Local", 150, 2, race=True))

M = dict(mysql=True)
check("M01", "stateful generation of insertions in all ways into a real MySQL server, against a model of the material (rapid)",
      "Chains with shared, repeated and looping issuers, odd names, expirations in any time zone; known finding one-link-per-name (parallel pipeline).",
      test("mdb", "TestM01Insert", 140, 4), **M)
check("M02", "property-based generation of certificate graphs and histories of coalescing against a recomputed closure (rapid)",
      "Rows are written directly (any graph, also with loops and missing parents), or through insertion and pruning.",
      test("mdb", "TestM02Graph", 100, 2), test("mdb", "TestM02History", 80, 2), **M)
check("M03", "generated contents and queries against an independent proof and signature verifier, and concurrent reloads under the race detector (rapid)",
      "RSA keys of 1024 bits; trusts crypto/rsa and SHA-256. Queries during an update of the tables are out of scope.",
      test("mdb", "TestM03Responses", 60, 3), test("mdb", "TestM03Reload", 12, 2, race=True), **M)
check("M04", "stateful generation of update cycles against a recomputed tree and a database filled at once (rapid)",
      "Bundles are made small by a wrapper of the connection; other processes are other connections.",
      test("mdb", "TestM04Cycles", 50, 4), **M)
check("M05", "stateful generation of insertions, prunings and cycles against a restated removal rule (rapid)",
      "Expirations around the pruning times to the second, in any time zone.",
      test("mdb", "TestM05Prune", 100, 4), **M)
check("M06", "property-based comparison of bulk answers with the content, around the internal limits (rapid)",
      "Lists of up to some thousand elements, with repetitions and unknown elements.",
      test("mdb", "TestM06Lookups", 120, 2), test("mdb", "TestM06Tree", 120, 1), test("mdb", "TestM06Domains", 120, 1), **M)
check("M07", "fault injection into generated histories of insertions and cycles: failing statements, rows, connections, and process ends (rapid)",
      "Faults at the statements sent to the driver, and inside statements with triggers; failures of the disk are out of scope.",
      test("mdb", "TestM07Faults", 90, 4), **M)
check("M08", "generated HTTP requests to a running map server, between and during updates that may fail, against the content of the tables (rapid)",
      "A real server on a loopback port with a private MySQL server; half of the processes use TLS.",
      test("mdb", "TestM08Http", 50, 4), **M)
check("N01", "generated contents and concurrent gRPC queries over a history of servers, against an independent proof and signature verifier (rapid, also under the race detector)",
      "A real gRPC server on a loopback port with a private MySQL server; RSA keys of 1024 bits.",
      test("mdb", "TestN01Grpc", 60, 3), test("mdb", "TestN01Grpc", 15, 1, race=True), **M)
check("M09", "model-based stateful testing of updates from growing logs (fakes, HTTP servers, local files) with injected failures of fetching and storing (rapid)",
      "The position is recorded per log when all its entries are stored, not after each batch (as the code documents); the fetchers themselves are the matter of L01 and L02.",
      test("mdb", "TestM09Position", 80, 4), **M)
check("M10", "model-based stateful testing of histories of listening, stopping, updating and asking, of servers in a process and of the program (rapid, also under the race detector)",
      "Real servers and processes on loopback with a private MySQL server; interruptions at generated moments (milliseconds after the start); one or two minutes without an end count as a hang.",
      test("mdb", "TestM10Server", 80, 3), test("mdb", "TestM10Server", 20, 2, race=True), test("mdb", "TestM10Program", 20, 3), **M)
check("I05", "model-based stateful testing of histories of runs of the ingestion program on a MySQL server, interrupted at generated moments or with bad files (rapid)",
      "Real processes with a private MySQL server (the path of its socket is replaced at build time); up to 7 runs and 28 entries per history; interruptions some milliseconds after the beginning; two minutes without an end count as a hang.",
      test("mdb", "TestI05Program", 40, 4), test("cmd/ingest", "TestI05Runs", 1000, 2), **M)
check("K01", "generated accounts, databases, sockets and configurations against what the MySQL server reports of the connections (rapid)",
      "A private MySQL server on loopback and a socket reached over generated paths; TLS and other drivers are out of scope.",
      test("mdb", "TestK01Connect", 150, 4), **M)
