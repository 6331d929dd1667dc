#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (single place where the property texts are edited).
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)

V="definition/Verify.go"; CC="crypto/crypto_config.go"; GI="gossiper/Interface.go"; GS="gossiper/gossiper_server.go"
p("P01","Accepted objects carry a valid signature over their whole payload",
 "Verification of a gossip object succeeds only if a signature carried by the object was cryptographically checked, with the public key taken from the verifier's own key directory, over a message containing every payload field in full (for a conflict proof: each of the two embedded statements in full). This holds for each of the ten object types with the scheme that type requires (RSA for initial statements and accusations, BLS for fragments, aggregated BLS for threshold objects, two RSA signatures for conflict proofs); an object of any other type never verifies.",
 ["inputs","configurations"],"every gossip object (all types, any field contents) and every key directory",
 "Existing tests verify a handful of well-formed recorded objects; none feeds a forged or truncated payload, and the set of malformed objects is unbounded.",
 [V,CC,"crypto/bls.go","crypto/rsa.go","crypto/types.go"],[("type dispatch and per-scheme verification",V),("RSA / BLS primitives",CC)],["result of object verification"])
p("P02","A verified object's claimed signer is the key owner who signed it",
 "When an initial statement, an accusation or a signature fragment verifies, the party it names as its signer is exactly the party whose public key validated the signature, and for tree-head and revocation statements that party is also the entity the statement is about. A signature by one party can therefore never be passed off as another party's.",
 ["inputs"],"every object whose signature names an arbitrary key owner",
 "Tests only contain objects where the three identities happen to coincide; an attacker chooses them independently.",
 [V,"crypto/types.go"],[("identity comparison during verification",V)],["result of object verification"])
p("P03","A threshold object proves enough distinct known signers",
 "A threshold-signed object verifies only if its aggregate signature was made by at least the configured threshold number of distinct parties, each present in the verifier's directory of threshold keys. Repeating a signer or naming unknown signers never counts towards the threshold.",
 ["inputs","configurations"],"every list of claimed signers and every threshold",
 "Tests only verify recorded aggregates made by honest parties; none contains repeated, unknown or too few signers.",
 [CC,"crypto/bls.go",V],[("threshold verification",CC),("aggregate verification","crypto/bls.go")],["result of object verification"])
p("P04","A conflict proof verifies only if the accused really equivocated",
 "A conflict proof verifies only if it contains two different statements, both for the same period, each carrying a valid signature made with the key of the very entity being accused. An entity that signed at most one statement per period can never be convicted by any conflict proof.",
 ["inputs","histories"],"every conflict proof anybody can assemble from signatures seen in any history",
 "Tests check that genuine conflicts are accepted; soundness is about all the proofs that must be refused.",
 [V,"gossiper/gen.go"],[("conflict proof verification",V)],["result of object verification","blacklist contents"])
p("P05","A gossiper stores only verified objects",
 "Whatever arrives over the network, an object (or its content) enters a gossiper's object storage only after that very object's signature has been verified against the gossiper's own key configuration. This holds for every object type, including fragments, threshold objects built locally and the payload cache.",
 ["inputs","schedules"],"every received object and interleaving of handlers",
 "The handler tests post a few objects and print the result; no test asserts that an invalid object is refused.",
 [GI,GS],[("store functions",GI),("per-type handlers",GS)],["gossiper object storage"])
p("P06","A gossiper relays only objects it has verified",
 "No request a gossiper sends to another gossiper or to its monitor carries content of a received object unless that object's signature was verified first on the same processing path. Nodes therefore never amplify forged objects.",
 ["inputs","schedules"],"every received object, on every processing path",
 "Tests never inspect outgoing traffic for invalid inputs.",
 [GS,GI],[("relay functions and their callers",GS)],["outgoing HTTP requests"])
p("P07","A received object is relayed only when it was newly stored",
 "A gossiper forwards a received object to its peers or its monitor only on a path on which that object was actually added to its storage. Objects that are already known, rejected or superfluous are dropped, so gossip of one object terminates.",
 ["inputs","histories"],"every sequence of received objects including repeats",
 "Termination of flooding concerns unbounded repetition; tests send each object once.",
 [GS,GI],[("store result gates sending",GS)],["outgoing HTTP requests"])
p("P08","Nothing about a blacklisted entity is stored, relayed or signed",
 "A gossiper stores, relays or threshold-signs an object only on a path where the entity the object is about was looked up in the blacklist and found absent; the lookup is repeated after any deliberate waiting period, before signing. Once a proof of misbehaviour has blacklisted an entity, the gossiper stops vouching for it.",
 ["inputs","schedules","histories"],"every object about any entity, and proofs arriving at any point including during the waiting period",
 "Needs a proof arriving during the wait between receipt and signing; tests do not schedule that.",
 [GS,GI],[("blacklist checks",GS)],["storage, outgoing requests and signatures"])
p("P09","Proofs of misbehaviour are permanent and always take effect",
 "Every stored conflict proof and every stored threshold accusation puts the accused entity on the gossiper's blacklist on the same processing path. No code path, including the periodic clean-up, removes, replaces or even transiently empties blacklist entries or stored conflict proofs.",
 ["histories","schedules"],"every history of proofs and periodic clean-ups, observed at any instant",
 "The window in which the clean-up would drop entries is microseconds long and tests never look for it.",
 [GI],[("storing proofs",GI),("periodic wipe",GI)],["blacklist membership"])
p("P10","First statement is never overwritten; equivocation yields a conflict proof",
 "Once a gossiper holds an initial statement for an entity, type and period, no later object can replace it: the absence check and the insertion happen in one critical section. When a second, different tree head or revocation statement from the same signer is detected, including in the race between check and insertion, processing ends in an attempt to record a conflict proof built from both signatures rather than in silently dropping either.",
 ["schedules","inputs"],"every interleaving of two conflicting statements",
 "The race needs two handlers interleaved between the check and the insertion; tests deliver sequentially.",
 [GI,GS],[("duplicate check under lock",GI),("conflict handling",GS)],["initial-statement storage and conflict proofs"])
p("P11","At most one fragment per signer is counted for an object",
 "A fragment is added to the collected fragments of an object only if, in the same critical section, no fragment by the same signer is present and fewer than the threshold number have been collected. Delivering a fragment repeatedly, re-encoded or concurrently never inflates the count that triggers threshold signing.",
 ["schedules","inputs"],"every multiset and interleaving of fragments",
 "Needs the same fragment delivered twice concurrently or in different encodings.",
 [GI,GS],[("fragment collection",GI)],["fragment storage"])
p("P12","Objects are filed under, and derived objects keep, period, type and entity",
 "Every object stored by a gossiper or a monitor is filed under the identity formed from its own period, type and subject entity. Fragments, threshold objects and conflict proofs that a gossiper derives from other objects keep the period, the entity and (except conflict proofs, which embed them) the payload of the objects they were derived from, and get the type that corresponds to their source's type.",
 ["inputs","histories"],"every object and derivation, at any wall-clock time",
 "Derivations that happen across a period boundary are not sampled by tests.",
 ["gossiper/gen.go",GI,"definition/Types.go","monitor/types.go"],[("identity computation","definition/Types.go"),("object derivation","gossiper/gen.go")],["storage keys, derived objects"])
L="lock discipline"
p("P13","Gossiper shared state is accessed under a consistent lock",
 "Every shared collection of a running gossiper that some request handler, timer or background task modifies is accessed only while holding a lock that is common to all accesses of that collection (exclusively for modifications). No interleaving of handlers and periodic tasks can therefore corrupt it or crash the process.",
 ["schedules"],"every interleaving of handlers, timers and goroutines",
 "Race windows are tiny; the tests do not run the gossiper under a race detector and any run explores one schedule.",
 [GI,GS,"gossiper/gen.go","gossiper/types.go"],[(L,GI)],["process does not crash, state consistent"])
p("P14","Monitor shared state is accessed under a consistent lock",
 "Every shared collection of a running monitor that some request handler, timer or background task modifies is accessed only while holding a lock that is common to all accesses of that collection (exclusively for modifications). Storing, cleaning, publishing and querying can overlap in any way without corrupting it.",
 ["schedules"],"every interleaving of handlers, timers and goroutines",
 "As P13: any test run explores one schedule.",
 ["monitor/types.go","monitor/monitor.go"],[(L,"monitor/types.go")],["process does not crash, state consistent"])
p("P15","CA, logger and client shared state is accessed under a consistent lock",
 "In the certificate authority, the logger and the client, every shared collection that is modified after start-up is accessed only while holding a lock common to all its accesses (exclusively for modifications). Certificates, proofs, tree heads and client databases cannot be lost or corrupted by overlapping operations.",
 ["schedules"],"every interleaving of handlers, timers and API calls",
 "As P13: any test run explores one schedule.",
 ["CA/server.go","CA/types.go","Logger/server.go","client/client.go","client/types.go"],[(L,"CA/server.go")],["process does not crash, state consistent"])
p("P16","Locks are always released, never self-deadlock, and have a global order",
 "Every handler, timer task, background task and client operation has released, when it ends, every lock it acquired, on every path including error paths; it never acquires a lock it already holds or releases one it does not hold. The order in which different locks are nested is acyclic across the whole program.",
 ["schedules","inputs"],"every path (including rejected inputs) and every interleaving",
 "Leaks sit on error paths that tests do not take, deadlocks need specific interleavings.",
 [GI,"monitor/types.go","client/client.go","CA/server.go","Logger/server.go"],[("lock/unlock pairing",GI)],["operations complete"])
p("P17","A monitor stores and forwards only verified statements",
 "A monitor passes a logger's or CA's answer to its gossiper only if it is a statement of the expected kind, verified with the monitor's own keys and signed by the entity that was queried, which must be a known logger or CA; a revocation additionally needs a valid signed revocation hash by that CA. Whatever a monitor receives over the network enters its storage only after its signature was verified.",
 ["inputs"],"every response body and every posted object",
 "Tests run only against the project's own components; malformed and forged answers are never sent.",
 ["monitor/monitor.go","monitor/types.go"],[("query handlers","monitor/monitor.go"),("gossip intake","monitor/monitor.go")],["monitor storage, requests to the gossiper"])
p("P18","Every failed query leads to an accusation attempt",
 "When a query of a logger or CA fails in any way (no connection, unreadable, unverifiable or wrong answer), the monitor schedules the accusation procedure for exactly that entity; no failure is dropped. When the procedure runs, an accusation naming that entity is sent unless the entity's statement for the period has meanwhile arrived or a proof against it is on file.",
 ["inputs","fault_sequences"],"every way a query can fail",
 "Tests exercise a fixed set of misbehaviours; a silent failure path is invisible to them.",
 ["monitor/monitor.go"],[("query handlers","monitor/monitor.go"),("delayed accusation","monitor/monitor.go")],["requests to the gossiper"])
p("P19","Entities with a proof on file are neither queried nor accused again",
 "A monitor queries or accuses an entity only on a path where it looked for a current accusation proof and for a conflict proof of any period against that entity and found none. Conflict proofs keep their effect regardless of the period in which they were recorded.",
 ["histories"],"every history of stored proofs and periods",
 "Needs proofs recorded in an earlier period; tests run one or two periods.",
 ["monitor/monitor.go"],[("proof lookup","monitor/monitor.go")],["outgoing queries and accusations"])
p("P20","A published client update is complete and excludes convicted entities",
 "The update a monitor writes for a period contains every threshold-signed tree head and revocation it holds and every conflict and accusation proof newly recorded, each in the corresponding list. Before it is assembled, statements of entities with a conflict proof on file are discarded; statements of the current period are removed for no other reason.",
 ["histories","inputs"],"every content of the monitor's storage",
 "Tests compare recorded update files with recorded files; omissions depend on storage contents.",
 ["monitor/monitor.go","monitor/types.go","monitor/client-update-monitor.go"],[("update generation","monitor/monitor.go"),("clean-up before publishing","monitor/types.go")],["published update file"])
p("P21","A client applies only verified update items",
 "When a client processes an update with verification enabled, a tree head, revocation or proof changes its databases only after the item's signature was verified with the client's keys and the item is of the kind its list is for; a revocation vector additionally changes only after the CA's signed revocation hash over the resulting vector and the delta was verified, whether or not verification is enabled. Items are filed under the entity they are about.",
 ["inputs"],"every update a malicious monitor could send",
 "Tests apply recorded honest updates only.",
 ["client/client.go","client/parser.go"],[("update processing","client/client.go")],["client databases"])
p("P22","A client accepts a certificate only with a benign logger and no revocation",
 "The client accepts a certificate only if at least one logger listed in it has no proof of misbehaviour on file, has a tree head that verifies and equals the one the client knows for that logger and period, and the inclusion proof for this certificate verifies against it. In addition revocation data of the issuing CA must be on file and must not mark the certificate's revocation number.",
 ["inputs","histories"],"every certificate and database content",
 "One recorded certificate is checked and its result is ignored by the test.",
 ["client/client.go","crypto/MerkleTree.go"],[("certificate verification","client/client.go")],["accept / reject result"])
p("P23","Revocations are never lost",
 "A revocation vector only grows: applying a delta yields the union of old vector and delta at both monitor and client, for every CA whether or not it was known before, and no code clears revoked bits. A CA's delta is computed against a snapshot of the vector at its previous publication, so each revocation is included in the next published delta.",
 ["histories"],"every sequence of revocations and updates over any number of periods",
 "Loss shows up from the second update of the same CA on; tests apply updates whose later deltas are empty.",
 ["CA/CRV.go","CA/server.go","client/client.go","monitor/types.go"],[("delta computation","CA/CRV.go"),("delta application","client/client.go"),("delta application","monitor/types.go")],["revocation vectors"])
p("P24","A restarted client reloads the state it saved",
 "Each client database is saved to and loaded from the same configured file in mutually inverse encodings. A client that is not new loads all three databases (tree heads, revocation vectors, proofs of misbehaviour) at start-up, so a restart never makes it forget a convicted entity or a revocation.",
 ["histories","crash_points"],"every database content and every save/restart sequence",
 "No test restarts a client.",
 ["client/types.go"],[("save/load functions","client/types.go"),("initialisation","client/types.go")],["client databases after restart"])
p("P25","A logger logs only pre-certificates issued by a CA it serves",
 "A received pre-certificate enters the logger's pool only after its issuer was found in the logger's list of CAs and the CA's signature over the certificate content was verified with that CA's key from the logger's key configuration.",
 ["inputs"],"every request body",
 "Tests submit only genuine pre-certificates.",
 ["Logger/server.go","Logger/Types.go"],[("pre-certificate intake","Logger/server.go"),("pre-certificate verification","Logger/Types.go")],["logged certificates"])
p("P26","A logger's tree head commits to all pooled certificates, with matching proofs",
 "The tree head a logger signs carries the root and size of the tree built over all the certificates of the pool it publishes, in the same order in which inclusion proofs are assigned to certificates, and is signed over its payload with the logger's own key. An inclusion proof is sent to a CA only after it verified against that root for the certificate it is labelled with, and goes to that certificate's issuer.",
 ["inputs","configurations"],"every pool of certificates",
 "Tests use a fixed pool; mis-pairing or omission depends on pool contents and order.",
 ["Logger/buildmerkle.go","Logger/server.go","crypto/MerkleTree.go"],[("tree construction","Logger/buildmerkle.go"),("proof distribution","Logger/server.go")],["tree heads and proofs sent"])
p("P27","A CA embeds only verified tree heads and inclusion proofs",
 "A CA keeps a received tree head only if it is an initial tree-head statement whose signature verified with the CA's own keys, filed under its signer. It attaches logger information to a certificate only if a tree head of that logger is on file and the received inclusion proof verifies against that tree head for that certificate.",
 ["inputs","schedules"],"every request body and order of arrival",
 "Tests run only with the project's own loggers.",
 ["CA/server.go","CA/types.go"],[("tree-head intake","CA/server.go"),("proof intake","CA/server.go")],["certificate extension contents"])
p("P28","Private keys never leave a component",
 "No private signing key (RSA or threshold share) of a server component or client flows into an HTTP request or response, console or log output, or a file, other than through a signature computed with it; the only exceptions are the dedicated configuration generator and the dedicated key-file writers.",
 ["inputs","programs"],"every execution of every component",
 "Absence of a flow over all paths is not observable by a finite set of runs.",
 ["crypto/crypto_config.go","gossiper/gossiper_server.go","monitor/monitor.go","CA/server.go","Logger/server.go","client/client.go"],[("keys used only as arguments of signing primitives","crypto/crypto_config.go")],["requests, responses, output, files"])
p("P29","Stored crypto configurations round-trip; verify-only ones hold no secrets",
 "Converting a crypto configuration to its stored form and back preserves every field (threshold, number of parties, schemes, own identity, all public keys under their owners and both secret keys). The verify-only form preserves everything a verifier needs (threshold, schemes, identity, both public key directories), the basic form what RSA signing and verification need, and the verify-only form never contains a secret key; a file or form that cannot be decoded is reported as an error.",
 ["configurations"],"every configuration",
 "Tests read a few fixed configuration files and do not compare fields.",
 ["crypto/crypto_IO.go","crypto/types.go"],[("conversion functions","crypto/crypto_IO.go"),("key map serialisation","crypto/types.go")],["configurations read from disk"])
p("P30","The generator gives each entity exactly its own keys",
 "Every generated crypto configuration contains the complete public key directories and, as secrets, only the RSA key (and for gossipers the threshold share) generated for the entity it is named after; non-gossipers get no threshold share. Whenever key generation succeeds, every public key published in a directory belongs to the private key handed to the same entity.",
 ["configurations"],"every number of entities of each kind",
 "Tests generate one fixed size and do not compare keys.",
 ["Gen/Gen.go","crypto/bls.go"],[("configuration generation","Gen/Gen.go")],["generated configuration files"])
p("P31","No network input or peer failure terminates a server process",
 "No request handler, nor any goroutine or timer it starts, reaches a call that terminates the process, whatever the request contains; malformed requests end in an error or are dropped. In background tasks, the result of a failed network call is never dereferenced, and received data is indexed or type-asserted only after a check that it can be.",
 ["inputs","fault_sequences"],"every request body and every network failure",
 "Tests send well-formed requests between live components.",
 ["Logger/server.go","CA/ca.go","CA/server.go","gossiper/gossiper_server.go","monitor/monitor.go","monitor/client-update-monitor.go"],[("error handling in handlers","Logger/server.go")],["process stays up"])
p("P32","Senders and receivers agree on routes, methods and message types",
 "Every request one component sends goes to a path that some component serves with that HTTP method, and the type the sender encodes is the type the receiver decodes, likewise for responses that are parsed. A client's plain request for an update gets, from a monitor that holds it, an answer the client can parse.",
 ["configurations","programs"],"every pair of communicating components",
 "Several routes (payload requests, client updates) are exercised by no test.",
 ["gossiper/gossiper_server.go","monitor/monitor-server.go","monitor/monitor.go","monitor/client-update-monitor.go","CA/server.go","Logger/server.go","client/client.go"],[("route registration","gossiper/gossiper_server.go"),("requests","monitor/monitor.go")],["HTTP requests and routes"])
p("P33","Every object a component originates verifies under its own identity",
 "Each statement, accusation and fragment a component creates is signed with that component's own private key over exactly the concatenation of the payload fields it carries, names that component as signer both in the object and inside the signature, and carries the type whose verification rule matches the signature scheme (the configured schemes being the implemented ones; a revocation fragment may travel without the bulk revocation data, which is fetched separately).",
 ["inputs","histories"],"every object produced at run time",
 "Mismatches that depend on payload contents (for instance an empty field) pass with sampled payloads.",
 ["CA/CRV.go","Logger/buildmerkle.go","monitor/monitor.go","gossiper/gen.go"],[("object construction","CA/CRV.go")],["objects sent or served"])
p("P34","Period labels written and looked up are canonical two-digit labels",
 "Loggers and CAs publish each statement under the label of the following minute of the hour, as two digits with wrap-around after 59, and put the same label into the statement; loggers, CAs and monitors look statements up by labels of the same form. No minute of the hour makes producers and consumers disagree.",
 ["inputs"],"every minute of the hour",
 "A test run covers two or three consecutive minutes.",
 ["Logger/server.go","Logger/buildmerkle.go","CA/server.go","util/helpers.go"],[("label computation","Logger/server.go"),("label lookup","CA/server.go")],["statements returned for a period"])
p("P35","Honest gossipers converge within the period",
 "If the network delivers messages between honest gossipers within the assumed delay, all honest gossipers hold the same threshold objects and proofs before the period ends.",
 ["schedules","fault_sequences"],"every delivery schedule within the delay bound",
 "Tests run four processes on one machine with one schedule.",
 ["gossiper/gossiper_server.go"],[("flooding and waiting time","gossiper/gossiper_server.go")])
p("P36","An honest, timely entity is never convicted by accusation",
 "A logger or CA that answers every query correctly within the time allowed never becomes the subject of a threshold accusation, as long as fewer than the threshold number of monitors are dishonest.",
 ["schedules","fault_sequences"],"every timing of queries and answers",
 "Depends on real-time bounds that a test run only samples.",
 ["monitor/monitor.go","gossiper/gossiper_server.go"],[("waiting time before accusing","monitor/monitor.go")])
p("P37","A crash while saving never leaves an unreadable file",
 "If a monitor, gossiper, logger or client stops at any instant while saving an update, log or database file, a reader afterwards finds either the old or the new complete content; a reader that comes while the file is being saved finds one of the two as well. A save that fails leaves the old content.",
 ["crash_points","schedules"],"every crash point, I/O failure and concurrent reader during a save, every file a running component writes",
 "No test stops a process or reads a file during a save.",
 ["util/IO.go","monitor/types.go","client/types.go","gossiper/Interface.go","Logger/Types.go"],[("file writing","util/IO.go"),("client databases","client/types.go"),("client update","monitor/types.go")],["saved files after a crash or failed write"])
p("P38","Published signatures cannot be forged by outsiders",
 "Without the corresponding private keys nobody can produce a tree head, revocation, accusation, fragment or threshold object that verifies.",
 ["inputs"],"every computationally bounded adversary",
 "A computational-hardness statement; no finite test settles it.",
 ["crypto/rsa.go","crypto/bls.go"],[("RSA and BLS libraries","crypto/rsa.go")])
p("P39","A CA's revocation statement is what monitors and clients recompute",
 "The revocation statement a CA publishes for a period carries that period, the compressed difference between its current revocation vector and the last snapshot, and a signed head whose hash is computed, with the CA's own key, over the period, the current vector and that same difference. Monitors and clients that check or apply a statement rebuild the hash by the same formula, from the same fields and with the matching decompression, so that every honest statement verifies and the client ends up with the CA's vector.",
 ["inputs","histories"],"every revocation vector, difference and period",
 "Tests use one or two tiny vectors; agreement of three separate implementations of the formula over all vectors cannot be sampled.",
 ["CA/CRV.go","definition/definition.go","client/client.go","monitor/monitor.go"],[("statement construction","CA/CRV.go"),("client-side recomputation","client/client.go")],["published revocation statements"])
p("P40","What a gossiper newly stores it passes on, co-signs and combines",
 "Every tree head, revocation and conflict proof a gossiper newly stores is sent (or, when large, announced under its own name) to every connected gossiper and to its monitor; every fragment to every connected gossiper; every threshold object to its monitor. Every initial statement it stores is threshold-signed after the waiting time unless the entity has become blacklisted, and its own fragment is then processed like any other. Whenever a stored fragment makes the collected number reach the threshold, the threshold object is built and processed. (A wipe of the storage in between excuses relaying and combining.)",
 ["histories","schedules"],"every object, peer list and order of arrivals",
 "Tests wait for global convergence of one configuration, where other gossipers' messages mask one that is not sent.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go","gossiper/gen.go"],[("INIT handlers","gossiper/gossiper_server.go"),("relaying","gossiper/gossiper_server.go")],["messages sent to peers and monitor"])
p("P41","A valid new object reaching a gossiper is never dropped",
 "Every object a gossiper decodes from a request is stored, unless it does not verify, its entity is blacklisted, an object with its identity (initial statements, conflict proofs) or its signature or signer (fragments, threshold objects) is on file already, or the threshold object or enough fragments for it are on file. This holds for each of the ten object types and regardless of size; a fragment sent without its bulk payload is completed from the payload cached for the same entity and period.",
 ["inputs","histories"],"every received object and state of the storage",
 "A dropped object is usually delivered by another peer in tests; the states in which a wrong filter fires are not sampled.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go","gossiper/gen.go"],[("dispatch and duplicate filters","gossiper/gossiper_server.go"),("storage","gossiper/Interface.go")],["objects in the gossiper's storage"])
p("P42","A monitor asks every source, passes good answers on, records all valid objects",
 "In every pass of its periodic work a monitor queries each of its loggers and each of its CAs, except those against which a proof is on file. Every answer ends with the object posted to the monitor's own gossiper or with the accusation procedure for the entity (or its signer is not a known logger/CA). Every object a gossiper delivers is put into every storage belonging to its type - conflict proofs and accusations also into the next client update, revocations also into the CA's revocation vector - unless it does not verify or the identical object is on file.",
 ["inputs","histories","schedules"],"every set of loggers and CAs, every answer and every delivered object in every state of the storage",
 "Tests run one round with well-behaved peers; a skipped entity or an object missing from one of several stores shows only later, at clients.",
 ["monitor/monitor.go","monitor/types.go"],[("queries","monitor/monitor.go"),("storing","monitor/types.go")],["GET requests to loggers/CAs","objects posted to the gossiper","monitor storage and client updates"])
p("P43","The periodic work of every component recurs, publishes and cleans up",
 "Once started, the periodic work of gossiper, monitor, logger and CA runs again after each period (MMD seconds), on every path, and no component serves requests without having started it. Each pass completes its duties on every path: the gossiper empties its stores of initial statements, fragments, threshold objects and cached payloads (period labels repeat); the monitor drops temporary statements and tree heads/revocations of other periods and writes the period's client update; a logger with two or more collected precertificates publishes a tree head and sends it to every CA; a CA forgets the last period's tree heads, adds every precertificate generated to its pool, sends each to every one of its loggers, and publishes a revocation.",
 ["schedules","histories"],"every pass of the periodic work, every path through it",
 "Tests run for less than a few periods; a pass that fails to re-arm itself or to clean up is invisible until the labels repeat an hour later.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go","monitor/monitor.go","monitor/types.go","Logger/server.go","CA/server.go"],[("gossiper pass","gossiper/gossiper_server.go"),("monitor pass","monitor/monitor.go"),("logger pass","Logger/server.go"),("CA pass","CA/server.go")],["timers armed","published tree heads, revocations and updates","contents of the stores after a pass"])
p("P44","Every honestly made object is accepted by verification",
 "Verification accepts what an honest party makes. On every path on which Gossip_object.Verify rejects an object, the object has a defect no honestly made object has: a signature text or statement that does not parse in the format its type prescribes, an empty signature or entity where one is required, a signer different from the one named, an entity without a key in the directory, an unsupported scheme, fewer than the threshold of known signers, or a failed signature check over exactly the message (all payload fields, in order, same hash and padding) that the honest signer signs. Signing and threshold-signing sign exactly the message they are given.",
 ["inputs"],"every object of every gossip type and every rejecting path of verification",
 "Tests verify a handful of good objects; a rule that rejects some honest ones (one type, one scheme, one size) silently stops revocations or tree heads from spreading.",
 ["definition/Verify.go","crypto/crypto_config.go","crypto/rsa.go","crypto/bls.go"],[("Verify","definition/Verify.go"),("signing","crypto/crypto_config.go")],["error of Verify","objects signed by loggers, CAs, monitors and gossipers"])
p("P45","Signatures survive their text form, and aggregation keeps every fragment",
 "Turning an RSA signature, a BLS fragment or a threshold signature into text and back gives the same signature: every field the structure has is written, and is read back from where it was written with the inverse encoding. Aggregation fails only below the threshold, combines every fragment it is given and names every one of their signers; a full object built from fragments uses all of them and keeps the period and payload they agree on.",
 ["inputs"],"every signature value of the three kinds, every set of fragments",
 "Tests round-trip one signature each; a field lost or swapped for some values or a fragment dropped from larger sets is invisible to them.",
 ["crypto/types.go","crypto/bls.go","crypto/crypto_config.go","gossiper/gen.go"],[("text forms","crypto/types.go"),("aggregation","crypto/bls.go"),("full objects","gossiper/gen.go")],["Signature field of gossip objects","full objects gossiped"])
p("P46","A client accepts every good certificate and every valid update",
 "A client refuses a certificate only when it holds no revocation vector of the issuer, when the certificate's bit in that vector is set, or when every logger listed in the certificate is disqualified (proof of misbehaviour on file, tree head that does not verify, root hash that contradicts the one on file, failed inclusion proof). It refuses an update only because an item in it is invalid, and an update reported as applied has every tree head, revocation delta and conflict proof of it entered.",
 ["inputs","histories"],"every certificate, client state and monitor update",
 "The tests check one generated certificate and one update; an item skipped, or a good certificate refused, for other loggers, positions or histories is invisible to them.",
 ["client/client.go","client/types.go"],[("certificate decision","client/client.go"),("update","client/client.go")],["result of the certificate check","client databases after an update"])
p("P47","What is announced by hash is kept and delivered to whoever asks",
 "With the payload optimisation on, a gossiper announces an initial revocation by its hash only if that object is kept in its payload cache under its own id; the hash covers the object's content and is computed the same way on both sides. A gossiper that receives an announcement either holds an object of that id with that hash or asks the announcing peer for exactly that object; every request is answered by sending the requester the cached object of the id it names.",
 ["inputs","schedules","message orders"],"every announced object, every order of announcement, request and delivery, however the object came in",
 "The tests exchange single objects of one size; an object that is announced but not kept, or delivered for another id or to another peer, needs sizes, encodings and orders they do not try.",
 ["gossiper/gossiper_server.go","gossiper/Interface.go"],[("announcement, request and delivery","gossiper/gossiper_server.go"),("payload cache","gossiper/Interface.go")],["gossip notifications and payload requests","objects sent on request"])
p("P49","Certificates keep a unique revocation number and what is embedded in them",
 "Every certificate a running CA creates carries exactly one CTng extension whose revocation number no other certificate of that CA has (the certificate counter, advanced by one per certificate and never set back), and a subject and key of its own. Reading the extension back returns exactly what was written; reducing a certificate to its pooled form, adding logger information, preparing it for signing and re-reading it never change its number, subject, key or validity or lose logger information, and revoking a number sets exactly that bit of the vector.",
 ["inputs","histories"],"every certificate, every sequence of issuing, embedding, signing and revoking",
 "The tests generate one batch and read a few extensions; a number that repeats, or information lost on re-encoding, needs particular histories of batches and updates.",
 ["CA/ca.go","CA/types.go","CA/CRV.go","CA/server.go","util/IO.go"],[("creation and numbering","CA/ca.go"),("CTng extension","CA/types.go"),("revocation vector","CA/CRV.go")],["extension of issued certificates","bits of published revocation vectors"])
p("P50","Loggers and CAs take in everything valid that is sent to them",
 "A logger pools every pre-certificate that a listed CA signed and that is not pooled yet. A CA files every valid tree head it is sent under its signer, and attaches every inclusion proof that holds for the certificate it is labelled with, against the tree head on file of the logger it names, to that certificate unless that logger's information is attached already. A certificate added to a pool is filed under its subject and key id at its own position and is found and replaced there.",
 ["inputs","histories"],"every pre-certificate, tree head and inclusion proof, every pool state",
 "The tests register few certificates of one kind; a certificate, tree head or proof that is dropped for its size, position or history leaves them green.",
 ["Logger/server.go","Logger/Types.go","CA/server.go","CA/types.go","crypto/certpool.go"],[("logger intake","Logger/server.go"),("CA intake","CA/server.go"),("certificate pool","crypto/certpool.go")],["logger pool and tree","extensions of issued certificates"])
p("P48","A generated deployment fits together",
 "Generating a deployment of any number of entities names them all, in order: every public configuration lists all CAs, loggers, gossipers and monitors and carries the periods and the number of gossipers that were asked for, every crypto configuration the threshold. The configuration put into an entity's directory is that entity's: own identity and port, a monitor and the gossiper of the same number as partners of each other, complete lists of the parties it deals with; a gossiper is connected to every other gossiper, a CA to at least one logger. The directories are created where the files are written, and an entity started from them reads each file back as what it was.",
 ["inputs"],"every number of gossipers, loggers and CAs, every period and threshold, every configuration path",
 "The tests generate one deployment of one size and look at no file; an entity missing from a list, paired with the wrong partner or handed another's file depends on sizes and numbers they do not try.",
 ["Gen/Gen.go"],[("generation","Gen/Gen.go"),("start from the files","Gen/Gen.go")],["generated configuration files"])
p("P51","Moving a deployment to real addresses keeps who is who",
 "Mapping a generated deployment to real addresses rewrites every identity in every configuration file (own identity, partner, every entry of every list, every key directory) to the address given for that role and that entity's number, keeping its port, and writes the result to the file it came from; the files of all entities of all roles are mapped.",
 ["inputs"],"every deployment, every table of addresses",
 "The mapping has no test at all; one address taken from the wrong table or number leaves an entity refusing or never reaching its peers.",
 ["Gen/IPmapping.go"],[("mapping","Gen/IPmapping.go")],["mapped configuration files"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
