prop("C11", "Monitors hold and publish only objects that verify",
 "Whatever a monitor is sent, every gossip object it holds and every object in the updates it publishes to clients verifies. Genuine objects from its gossiper that clients can use are kept and published unchanged, and a body that is not a gossip object is rejected and leaves nothing behind.",
 ["inputs", "histories"], "for every posted object of any kind with arbitrary contents and signatures, alone or after a genuine one",
 "tests only deliver honest objects to monitors",
 ["monitor/monitor.go", "monitor/types.go"],
 [("reception", "monitor/monitor.go handle_gossip, handle_gossip_from_gossiper, Process_valid_object"), ("storing", "monitor/types.go StoreObject")],
 ["one arbitrary object, with free or well-formed contents, alone or after one genuine object", "one period end", "2 loggers, 2 CAs, 4 gossipers, threshold 2", "aggregates of 2 contributions"], [IDEAL, FREE, SYNC, CLOCK], ["monitor storage", "client update served"])

prop("C12", "Monitors accuse exactly the loggers and CAs that fail to deliver",
 "Every period a monitor asks each logger and CA that is not convicted once. A valid own statement for the period is passed on unchanged; for a CA it must moreover fit the revocations known so far. Whoever delivers none is accused, once, by name and after the waiting time, unless its statement arrived through gossip meanwhile or it is already convicted; nobody is accused without cause.",
 ["inputs", "fault_sequences"], "for every answer (unreachable, error status, rubbish, any object with any signature, the genuine statement) and what arrives by gossip during the waiting time",
 "network Test 3 has one unresponsive participant and no wrong answers",
 ["monitor/monitor.go", "monitor/types.go"],
 [("query", "monitor/monitor.go QueryLoggers, QueryAuthorities"), ("accusation", "monitor/monitor.go Wait_then_accuse, AccuseEntity, Check_entity_pom")],
 ["one logger or CA, one period", "two periods with the same number, an hour apart, in which it says nothing", "two periods in a row from any minute of the hour, with and without network latency", "answers with all fields symbolic", "genuine answers of any other period", "at most one object by gossip meanwhile", "revocation vectors of up to 2 symbolic positions"], [IDEAL, FREE, SYNC, CLOCK], ["HTTP requests to loggers, CAs and the gossiper"])

prop("C13", "A client update has everything that was established in its period",
 "When a period ends, the monitor's update for it has exactly the threshold-signed tree heads and revocations it received that clients can use, without those of convicted entities, all accusations established, and the conflict proofs that came since the update before, each in exactly one update. It is served under the number of its period to whoever asks, again and again. Requests for updates that do not exist are answered with an error.",
 ["inputs", "histories"], "for every choice and order of a few verified objects around two period ends, and every request body",
 "tests compare sizes of updates after one honest run",
 ["monitor/monitor.go", "monitor/client-update-monitor.go", "monitor/types.go"],
 [("update", "monitor/monitor.go GenerateUpdate, PeriodicTasks; monitor/types.go WipeStorage, SaveStorage, Clean_Conflicting_Object"), ("serving", "monitor/client-update-monitor.go requestupdate")],
 ["2 (thorough 3) objects per period of the five published kinds, contents symbolic, over 2 periods", "2 loggers and 2 CAs", "the number of the period: any minute; the end of an hour with 1 (thorough 2) objects per period"], [IDEAL, FREE, SYNC, CLOCK, "files are written completely or not at all"], ["answers of the update endpoint"])

prop("C14", "Revocation vectors follow exactly what the CA signed",
 "A client or monitor takes a revocation only if the CA signed that this delta leads to the vector it gets by adding it to the one on file; the vector on file of a CA is always the union of the deltas taken, and those of other CAs are not affected. Genuine deltas are taken in every order of updates that the CA made, and taking one again changes nothing. What a monitor saves is what it holds.",
 ["inputs", "histories"], "for every set of revoked certificates (symbolic numbers), every claimed vector, and any entity's signature",
 "the tests never check a revocation vector against a signature that does not fit",
 ["client/client.go", "client/parser.go", "monitor/monitor.go"],
 [("check", "client/client.go VerifySRH, HandleUpdate; monitor/monitor.go VerifySRH"), ("vector", "monitor/types.go StoreObject, client/parser.go Get_SRH_and_DCRV")],
 ["vectors of up to 4 bits at symbolic positions below 1000000", "2 CAs, 2 (thorough 3) updates"], [IDEAL, "compression and the binary form of bit sets are lossless"], ["CRV databases of client and monitor", "result of VerifySRH"])

prop("C15", "An honest CA's revocation statements are consistent over time",
 "Every period an honest CA gives every monitor that asks the same valid statement about itself and the period; its delta has exactly the certificates revoked since the statement before, and its signature covers the vector that delta leads to. Revocations are never withdrawn. Clients and monitors that follow the statements take every one, know exactly the CA's revocations, and never accuse it.",
 ["histories"], "for every sequence of revocations of any certificates before, between and after the CA prepares its statements",
 "the CA tests look at one statement with a random vector",
 ["CA/CRV.go", "CA/server.go", "client/client.go", "monitor/monitor.go"],
 [("statements", "CA/CRV.go Generate_Revocation, GetDeltaCRV; CA/server.go PeriodicTask, requestREV")],
 ["3 (thorough 4) periods", "up to 3 revocations per period of symbolic certificate numbers", "the period asked for: any minute"], [IDEAL, SYNC, CLOCK, "compression and the binary form of bit sets are lossless"], ["answers of the revocation endpoint", "CRV databases"])

prop("C16", "Clients take exactly the certificates that are logged and not revoked",
 "A client takes a certificate only if a logger that it does not know to misbehave has its subject in the tree of a tree head the client got threshold signed, and its number is known not to be revoked by its issuer. No tree heads, proofs or fields of any making change that, and no certificate brings the client down. A certificate that an honest CA had logged by honest loggers is taken, also when some logger is down, until it is revoked.",
 ["inputs", "fault_sequences"], "for every certificate with arbitrary subject, issuer, number and logger information, and every number of certificates per period within the bound",
 "the only test shows one certificate to the client and ignores the verdict",
 ["client/client.go", "CA/types.go", "crypto/MerkleTree.go", "CA/server.go", "Logger/server.go", "Logger/buildmerkle.go"],
 [("verification", "client/client.go VerifyCTngextension, isLeafProof"), ("inclusion", "crypto/MerkleTree.go VerifyPOI"), ("issuance", "CA/server.go receive_sth, receive_poi, SignAllCerts")],
 ["2 loggers with trees of 2 or 3 (thorough up to 4) certificates, 1 CA", "certificates with informations of 2 loggers, each good or wrong in one of 6 ways, in both orders", "1 (thorough 2) arbitrary logger informations with proofs of up to 3 (thorough 4) free siblings", "certificate numbers -9 to 2^40, revoked numbers below 1000000", "end to end: 1 to 3 (thorough 5) certificates, at most one logger down"], [IDEAL, FREE, SYNC, CLOCK, "X.509 encoding is lossless; certificates are identified by their subject, as the Merkle leaves are"], ["result of VerifyCTngextension"])

prop("C17", "Clients believe only threshold-signed statements in updates",
 "After any sequence of updates, every root hash, revocation vector and proof of misbehaviour a client has on file comes from an object with a valid threshold signature, or a valid conflict proof, filed under the entity and period it names; what the updates taken said is on file, the latest root hash for each logger and period. An update with anything else in it is rejected. No update brings the client down or keeps it from handling the next genuine one.",
 ["inputs", "histories"], "for one object of any making in any list of an update, before genuine updates",
 "tests feed one stored genuine update",
 ["client/client.go", "client/types.go", "client/parser.go"],
 [("update handling", "client/client.go HandleUpdate")],
 ["one update with one arbitrary object (contents free, or well-formed but signed by anybody) among genuine ones, alone or after a genuine one about the same entities, then one genuine update", "3 (thorough 4) genuine updates of one object each, symbolic roots and certificate numbers", "aggregates of 2 contributions"], [IDEAL, FREE], ["client databases", "result of HandleUpdate"])

prop("C18", "Tree heads commit to every precertificate, and proofs show nothing else",
 "The tree head a logger publishes for a period is valid, and covers exactly the precertificates it received for it, however many and from whichever CAs; each of them gets a proof of inclusion that verifies, and the CA puts it, with the tree head that monitors get, into the certificate. Trees over different certificates have different roots, and no proof of the tree's depth verifies for a certificate that is not in the tree. Made-up requests to CA or loggers neither change this nor crash a handler.",
 ["inputs", "histories"], "for any subjects, any proof, any number of certificates within the bound, periods across the hour, and any made-up request",
 "tests build one tree of fixed certificates and check honest proofs",
 ["crypto/MerkleTree.go", "Logger/buildmerkle.go", "Logger/server.go", "CA/server.go", "CA/types.go"],
 [("tree", "Logger/buildmerkle.go BuildMerkleTreeFromCerts, crypto/MerkleTree.go"), ("exchange", "Logger/server.go PeriodicTask, receive_pre_cert, Send_POIs_to_CAs; CA/server.go PeriodicTask, receive_sth, receive_poi")],
 ["trees of 2 to 8 (thorough 17) certificates with symbolic subjects; soundness for 2 to 5 (thorough 8)", "0 to 4 (thorough 8) certificates per period, 2 (thorough 3) periods, starting at minutes 10, 58, 59", "the period of the tree head: any minute", "1 (thorough 2) made-up requests", "a message of this or the previous period again, also under another period", "tree heads signed by others than loggers", "2 CAs with the same subjects, 1 or 2 certificates each", "one made-up precertificate with symbolic subject, issuer and key number"], [IDEAL, FREE, SYNC, CLOCK, "X.509 encoding is lossless; the certificates of one CA have different subjects", "proofs are checked at the depth of the tree (the client enforces the depth, C16)"], ["answers of the tree head endpoint", "certificates the CA signs", "result of VerifyPOI"])

prop("C19", "The whole network gives clients the truth about every logger and CA",
 "In a network started from generated configurations, with at most as many gossipers missing as the threshold tolerates, every monitor whose gossiper works publishes one update per period. It has the tree head of every logger and the revocations of every CA that are in good standing, and convicts or accuses exactly those that showed two views or answered nobody. A client that takes the update accepts every certificate an honest CA had logged by one logger in good standing, and none of a CA without revocations on file.",
 ["fault_sequences", "histories"], "for any one misbehaving or silent logger or CA, any missing gossiper, any monitor asked, and periods across the hour",
 "the network tests run for minutes on real clocks, assert nothing and have to be looked at by hand",
 ["Gen/Gen.go", "gossiper/gossiper_server.go", "monitor/monitor.go", "monitor/monitor-server.go", "CA/server.go", "Logger/server.go", "client/client.go", "client/types.go"],
 [("start", "Gen/Gen.go Generateall, InitializeOneEntity; StartGossiperServer, StartMonitorServer, StartLogger, StartCA"), ("timing", "the PeriodicTasks of all four kinds of participants"), ("routes", "handleRequests, handleMonitorRequests, handleCARequests, handleLoggerRequests")],
 ["3 gossipers and monitors, threshold 2, 2 loggers, 1 CA with 2 certificates or 2 CAs with one each, 1 client", "the first full period, starting at minutes 10, 57, 58 (thorough also 7)", "at most one gossiper down (quick: none or the first), at most one misbehaving logger or CA of 3 kinds (two views, silent, every other request)"], [IDEAL, SYNC, CLOCK, "network latency is 0; participants that are down refuse connections"], ["answers of the monitors' update endpoints", "result of HandleUpdate and VerifyCTngextension"])

prop("C20", "Generated and IP-mapped configurations fit together",
 "Every participant started from generated configurations goes by its own address, listens on that address's port, and knows the addresses of exactly those it has to talk to. Everybody can verify what anybody signs and what threshold many gossipers vouch for, and nobody can sign for somebody else. The same holds, with each entity's own IP in its address everywhere, after the configurations have been mapped to IP addresses.",
 ["inputs", "configurations"], "for any IP address of every entity, any message, any pair of signer and verifier, and several sizes of the network",
 "the only test of the generator fails here, and none looks at what was written",
 ["Gen/Gen.go", "Gen/IPmapping.go", "crypto/crypto_config.go", "crypto/crypto_IO.go", "gossiper/types.go", "monitor/types.go", "CA/types.go", "Logger/Types.go"],
 [("generation", "Gen/Gen.go Generateall, Generate_all_list, InitializeOneEntity"), ("mapping", "Gen/IPmapping.go Map_all and the functions it calls"), ("keys", "crypto/crypto_config.go GenerateEntityCryptoConfigs; crypto/crypto_IO.go")],
 ["networks of 2 and 3 (thorough up to 9) gossipers and monitors, up to 2 (thorough 4) loggers and CAs, thresholds 2 (thorough up to 5); one of 11 gossipers and monitors, 11 loggers and 12 CAs (the first and last of each kind)", "IP addresses and messages symbolic and unbounded in length"], [IDEAL], ["contexts the participants start with", "verification results"])

prop("C21", "What was saved survives restarts and crashes",
 "A client that is started again has exactly the tree heads, revocations and proofs of misbehaviour it saved, and goes on from there. If it crashes while saving, each of them is what it was before or what it was to become, and the client starts; a monitor that crashed while saving an update serves that update as a whole or not at all, and earlier ones unchanged. Keys and configurations read back from files sign and verify as those that were written.",
 ["crash_points", "histories", "inputs"], "for a crash before, within or after any file operation, any contents of the updates, and any pair of signer and verifier",
 "no test restarts anything or interrupts a write",
 ["util/IO.go", "client/types.go", "client/client.go", "monitor/types.go", "monitor/client-update-monitor.go", "crypto/crypto_IO.go"],
 [("writing", "util/IO.go WriteData; client/types.go SaveSTHDatabase, SaveCRVDatabase, SavePomDatabase; monitor/types.go SaveStorage; crypto/crypto_IO.go SaveCryptoFiles"), ("reading", "client/types.go LoadSTHDatabase, LoadCRVDatabase, LoadPoMdatabase; monitor/client-update-monitor.go; crypto/crypto_IO.go Read*")],
 ["one save, crash and restart after at most one save before; 2 updates with up to 2 tree heads, revocations and proofs each, any of them missing; with crashes one of each", "crashes before and after each create, open, write, rename and remove, and with nothing or half of the data written", "3 participants for the configurations"], [IDEAL, "a rename is atomic and operations reach the disk in program order (no loss of power)"], ["databases of the client after restart", "answers of the update endpoint", "verification results"])

prop("C22", "Events at the same time never kill or block a participant",
 "Requests, periodic tasks and timers of a gossiper, monitor, logger, CA or client that happen at the same time, in any order and interleaving, end: none waits for another for ever, none panics, and no table is read and written or written twice without a lock in between, which would end the process. Nothing that came in then is lost: the proofs of all loggers get into the certificates, a precertificate gets into this tree or the next, and a client goes on to take exactly the certificates that are not revoked.",
 ["schedules", "histories"], "for every choice of events of all kinds that coincide, and every interleaving within the bounds",
 "concurrent map access and deadlocks depend on the schedule; the tests send one thing after the other",
 ["gossiper/gossiper_server.go", "gossiper/Interface.go", "monitor/monitor.go", "monitor/types.go", "CA/server.go", "Logger/server.go", "client/client.go", "client/types.go"],
 [("locking", "gossiper/Interface.go Store_gossip_object, WipeStorage, Save; monitor/types.go StoreObject, WipeStorage; client/client.go HandleUpdate, VerifyCTngextension"), ("periodic tasks", "the PeriodicTasks of all four kinds of participants and the timers they set")],
 ["2 objects of any of 9 (gossiper) or 7 (monitor) kinds at the same time, or one object and all periodic tasks and timers due then, at most 5 threads", "at most 1 (thorough 2) preemptions at lock operations, none (thorough 1) with 5 threads, 2 (thorough 3) in the client; unordered table accesses are found by happens-before whatever the schedule", "2 loggers, 1 CA, 1 or 2 certificates"],
 [IDEAL, CLOCK, "switches happen at lock operations; only accesses to maps are ordered, not those to other memory"], ["participants that end or stop answering", "certificates the CA signs", "tree heads", "result of VerifyCTngextension"])

prop("C23", "Clients can take the updates of an honest monitor, whatever others bring",
 "Whatever loggers and CAs make gossipers sign, and whatever gossipers bring to an honest monitor, its clients take every update it publishes, one after the other. After each, they know the tree heads and revocations of the honest loggers and CAs. One misbehaving participant never keeps the news of the others from them.",
 ["inputs", "histories"], "for every threshold signed object with arbitrary contents, of any logger or CA or about any period, before or after the honest ones in either of two periods",
 "tests give monitors only the objects of honest participants, and look at monitors and clients one by one",
 ["monitor/monitor.go", "monitor/types.go", "monitor/client-update-monitor.go", "client/client.go", "client/parser.go", "definition/Verify.go"],
 [("what monitors take", "monitor/monitor.go handle_gossip_from_gossiper, UsableByClients, VerifySRH"), ("updates", "monitor/monitor.go GenerateUpdate; monitor/types.go StoreObject, WipeStorage"), ("what clients take", "client/client.go HandleUpdate, VerifySRH")],
 ["2 periods, one honest logger and CA in each, 1 made-up object of 6 (thorough 7) kinds in one of them", "revoked certificates: symbolic numbers below 1000", "made-up objects do not name the honest logger and CA, which would convict them", "revocations are about the current period and come before its update is made (recorded as a known finding otherwise)"],
 [IDEAL, FREE, SYNC, CLOCK, "files are written completely or not at all"], ["result of HandleUpdate", "STH_database and CRV_database of the client"])
