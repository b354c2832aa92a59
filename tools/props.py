#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/meta.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, bounds, assumptions=(), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, bounds=list(bounds),
                  assumptions=list(assumptions), observe=list(observe), state=list(state)))

IDEAL = "cryptography is ideal: RSA and BLS signatures verify exactly for the key and message that made them, SHA-256 is collision free; an attacker combines genuine signatures and free strings in any way (Dolev-Yao)"
FREE = "a free string stands for any text that is not itself a well-formed encoding of a signature; well-formed encodings are built with the repository's own encoders from free contents"
SYNC = "goroutines the code starts run to completion in start order at the next blocking point unless a harness explores schedules; explored schedules switch at lock operations and HTTP calls"
CLOCK = "time is virtual: it moves only when a harness advances it"

prop("C01", "Statements are accepted only from the entity that signed them",
 "A participant accepts a tree head, a revocation or an accusation only if the entity named as its signer is known and signed exactly the carried content. A tree head or revocation is moreover accepted only if the signer is the entity it is about. Objects that meet this are accepted, whatever was checked before, and checking any input never crashes.",
 ["inputs"], "for every object of these three kinds with arbitrary fields and any signature text an attacker can produce",
 "the only unit test of verification is empty; network tests use honest participants only, so mislabelled or re-signed objects never occur",
 ["definition/Verify.go", "crypto/crypto_config.go", "crypto/rsa.go"],
 [("signature check of INIT objects", "definition/Verify.go Verify_RSAPayload, crypto/rsa.go RSASigFromString/RSAVerify")],
 ["4 known entities and 1 unknown key", "1 object, alone or after one genuine object, all string fields symbolic and unbounded in length", "content means the three payload fields run together, which is what gets signed; that a field boundary can be moved is recorded as a known finding", "no loop bound reached"], [IDEAL, FREE], ["result of Gossip_object.Verify"])

prop("C02", "Conflict proofs convict only entities that really contradicted themselves",
 "A proof of conflicting statements is accepted exactly when the accused known entity itself signed two different statements, both carried in the proof. An honest logger, which signs one tree head per period, is never barred by gossipers however its statements are repeated, reordered or delayed.",
 ["inputs", "histories"], "for every proof with arbitrary contents and signatures, and every delivery sequence of honest statements within the bounds",
 "tests contain one genuine conflict and no forged proof",
 ["definition/Verify.go", "gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go"],
 [("conflict proof check", "definition/Verify.go Verify_CON"), ("conflict detection", "gossiper/Interface.go IsMalicious, gossiper/gen.go Generate_CON_INIT")],
 ["proofs: 4 known entities and 1 unknown key, two arbitrary signatures, all string fields symbolic", "histories: 3 deliveries (thorough 4) out of two tree heads and two fragments, with or without waiting, time stamp and second signature field free","one statement whose signature is written in two ways", "one statement per period over 2 (thorough 3) hours, in which period numbers come again"],
 [IDEAL, FREE, SYNC, CLOCK, "statements of two different periods count as different statements (recorded as known findings: periods are not compared)"], ["result of Gossip_object.Verify", "gossiper blacklist"])

prop("C03", "Threshold signatures need threshold many distinct known gossipers",
 "A threshold-signed object is accepted only if at least the threshold number of distinct known gossipers contributed fragments on exactly its content; a fragment is accepted only if the gossiper it names made it on exactly its content. Honest fragments are accepted, and threshold many honest fragments always combine into an accepted object.",
 ["inputs"], "for every aggregate of up to three genuine contributions (known gossipers, an outsider, repetitions, different messages) under every claimed signer list",
 "tests aggregate honest fragments only and never present duplicated, foreign or mixed contributions",
 ["definition/Verify.go", "crypto/crypto_config.go", "crypto/bls.go"],
 [("threshold check", "crypto/crypto_config.go ThresholdVerify, crypto/bls.go ThresholdSig.Verify"), ("fragment check", "crypto/crypto_config.go FragmentVerify")],
 ["4 gossipers and 1 outsider, thresholds 2 and 3", "aggregates of at most 3 contributions, at most 3 claimed signers", "string fields symbolic"], [IDEAL, FREE], ["result of Gossip_object.Verify"])

prop("C04", "Gossipers keep and pass on only objects that verify",
 "Whatever object a gossiper receives, and whatever it already holds, everything it stores, forwards to peers or reports to its monitor passes verification.",
 ["inputs", "histories"], "for every received object of any of the ten kinds with arbitrary contents and signatures, as first object or after an honest one",
 "tests only deliver honest objects",
 ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go"],
 [("verification on storing", "gossiper/Interface.go Store_gossip_object"), ("fragment handling", "gossiper/gossiper_server.go Handle_OBJ_FRAG, Handle_OBJ_FULL")],
 ["histories of one arbitrary object, alone or after one honest statement and the gossiper's own fragment", "4 gossipers, threshold 2, 3 signers and a monitor", "aggregates of 2 contributions"], [IDEAL, FREE, SYNC, CLOCK], ["gossiper storage", "HTTP posts to peers and monitor"])

prop("C05", "A gossiper that sees both sides of a split view proves it to everyone",
 "When a logger or CA signs two different statements for one period and both reach a gossiper, at whatever moments of the period or at the same time, the gossiper ends up holding one valid conflict proof, bars the entity, and sends the proof once to every peer and to its monitor. After that it no longer vouches for the entity's statements.",
 ["inputs", "histories", "schedules"], "for every pair of different statements, every moment of the second one, and every interleaving of two handlers within the preemption bound",
 "Network Test 2 runs one conflict at one timing; concurrent arrival is never exercised",
 ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go"],
 [("conflict detection", "gossiper/Interface.go IsMalicious, DupCheckInLock"), ("proof", "gossiper/gen.go Generate_CON_INIT, gossiper_server.go Handle_CON_INIT")],
 ["2 statements, contents symbolic", "4 points in time for the second", "2 concurrent handlers with at most 2 (thorough 3) preemptions at lock operations and HTTP calls"], [IDEAL, FREE, SYNC, CLOCK], ["blacklist", "HTTP posts"])

prop("C06", "Barred entities stay barred, and only a valid proof bars anyone",
 "Once a gossiper holds a valid conflict proof or threshold-signed accusation against an entity, nothing about that entity is stored, forwarded or vouched for again, whatever arrives later and across the wipe at the end of each period. No object other than a valid proof naming the entity ever bars it.",
 ["inputs", "histories"], "for every later object with arbitrary contents, after 0 to 2 wipes",
 "no test looks at a gossiper after a wipe or after a conviction",
 ["gossiper/Interface.go", "gossiper/gossiper_server.go"],
 [("permanent list", "gossiper/Interface.go InBlacklistPerm, WipeStorage, Store_gossip_object")],
 ["one conviction (conflict proof or accusation), 0-2 wipes, one arbitrary object, timers advanced past the waiting time", "2 (thorough 3) convictions one after the other, over a minute or an hour"], [IDEAL, FREE, SYNC, CLOCK], ["blacklist", "storage", "HTTP posts"])

prop("C07", "Gossip of one object stops: nothing is passed on twice",
 "However often and however concurrently an object arrives, also with its unsigned time stamp changed, a gossiper passes it on at most once to each peer and to its monitor, and a fragment counts once.",
 ["inputs", "histories", "schedules"], "for each kind of gossip object, up to three arrivals at different times, and every interleaving of two simultaneous arrivals within the preemption bound",
 "tests count final storage sizes, which repetitions do not change",
 ["gossiper/gossiper_server.go", "gossiper/Interface.go"],
 [("duplicate check", "gossiper/Interface.go IsDuplicate, DupCheckInLock, Read_and_Store_If_Needed")],
 ["7 kinds of object, contents symbolic", "2-3 arrivals", "2 concurrent handlers, at most 2 (thorough 3) preemptions"], [IDEAL, FREE, SYNC, CLOCK], ["HTTP posts"])

prop("C08", "New statements reach every peer and the monitor unchanged, then get vouched for",
 "A gossiper passes each new valid tree head or revocation unchanged and at once to every connected peer and its monitor; after the waiting time, and not before, it sends every peer its own valid fragment on exactly that statement, and for an accusation at once. Fragments of others are passed on unchanged while they are needed, valid conflict proofs always. Unreachable receivers do not affect the others.",
 ["inputs", "fault_sequences"], "for every statement content and every single unreachable receiver",
 "the network tests check totals with all participants up",
 ["gossiper/gossiper_server.go", "gossiper/gen.go"],
 [("propagation", "gossiper/gossiper_server.go Handle_STH_INIT, Handle_REV_INIT, Handle_ACC_INIT, Send_obj_to_Gossipers, Send_to_Monitor"), ("fragment", "gossiper/gen.go Generate_Gossip_Object_FRAG")],
 ["3 peers and a monitor, at most one of them unreachable, with and without network latency", "one statement of each kind, contents symbolic", "fragments of 3 peers at threshold 3", "3 (thorough 4) hours, in which period numbers come again"], [IDEAL, FREE, SYNC, CLOCK], ["HTTP posts"])

prop("C09", "Threshold many fragments give exactly one full object",
 "For one statement a gossiper produces no threshold-signed object before it has valid fragments of threshold many distinct gossipers, and exactly one when it has, whatever the order, repetition and concurrency of arrival and whatever invalid fragments, or fragments on something else, come in between, also when the period ends meanwhile. That object carries exactly the statement's content and period, names contributors only, verifies, is stored, and is reported once to the monitor.",
 ["histories", "schedules", "inputs"], "for every sequence of arrivals within the bound and every interleaving of two simultaneous fragments within the preemption bound",
 "tests see one order per run and no invalid or simultaneous fragments",
 ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go", "crypto/bls.go"],
 [("assembly", "gossiper/gossiper_server.go Handle_OBJ_FRAG, gossiper/gen.go Generate_Gossip_Object_FULL, crypto/bls.go ThresholdAggregate")],
 ["thresholds 2 and 3 of 4 gossipers", "4 (thorough 5) arrivals out of the statement, three peers' fragments and a mislabelled fragment", "fragments of 3 peers on arbitrary contents of the same signer and period", "one statement of the previous or the current period, its fragments before or after the minute ends, also the statement just after the minute", "a fragment that comes again in another spelling", "statement and fragments of one period come on the same side of the storage being wiped, 20 s before the period ends", "2 concurrent fragments, at most 2 (thorough 3) preemptions"], [IDEAL, FREE, SYNC, CLOCK], ["storage", "HTTP posts to the monitor"])

prop("C10", "Announcing large revocations instead of sending them loses nothing",
 "With payload announcement on, a revocation given to one gossiper reaches every connected gossiper unchanged, gets its threshold signature there with the whole content, and conflicting revocations are still convicted. An announcement leads to one request to the announcing gossiper exactly when the announced object is not held, and a request is answered with exactly the object asked for or not at all. A fragment whose left-out content is unknown is ignored.",
 ["inputs", "histories"], "for every revocation content and every announcement and request contents",
 "tests run the honest sequence once and do not look at requests, unknown payloads or conflicts in this mode",
 ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go"],
 [("announcement", "gossiper/gossiper_server.go Gossip_notification_handler, Gossip_request_handler, Send_obj_to_Gossipers"), ("payload store", "gossiper/Interface.go SavePayload, SearchPayload, gen.go ReconstructPayload")],
 ["networks of 2 (thorough 3) gossipers", "one or two revocations, contents symbolic"], [IDEAL, FREE, SYNC, CLOCK], ["storage", "HTTP posts"])

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None
NA = globals().get("NA", [])

def main():
    have = [p for p in P if os.path.isdir(os.path.join(V, "harness", p["id"]))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
                   technique="bounded symbolic execution of the Go SSA of the current tree, assertions decided by Z3/cvc5, counterexamples replayed on the real code",
                   level="model_checking", level_note="all values within: " + "; ".join(p["bounds"]) + ". Assumes: " + "; ".join(p["assumptions"])) for p in have]
    m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="harness files are overlaid at check time; nothing is added to /repo", source_commits=[]),
             checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes="check.sh builds gosym (Go, /verif/gosym) if needed, loads /repo's current tree with the harness overlay and decides every Verif<ID>* harness.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    json.dump(dict(properties={p["id"]: dict(bounds=p["bounds"], assumptions=p["assumptions"]) for p in P}), open(os.path.join(V, "harness", "meta.json"), "w"), indent=1)
main()
