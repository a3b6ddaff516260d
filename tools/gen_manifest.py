#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the list of decided properties and the reasons for the others."""
import json, subprocess
AI = "abstract interpretation of the SSA form (linear-arithmetic and byte-content domains), obligations at "
T = {
 "C01": AI+"each hand-off to the writer and each file write; the hash table content is tracked element by element",
 "C03": AI+"every instruction of the decoder that can panic or overflow; loop progress and recursion measures; value-or-error at returns; the reflective decoder interpreted over a family of target types (types and tags known, input unknown)",
 "C24": AI+"the decoder's returns (raw span of each container), the hash argument and the decoded metadata; value flow from the decoded metadata to the uses of the torrent's identity",
 "C26": "abstract interpretation of the SSA form with reflection modelled over a family of target types (types and tags known, input unknown): obligations at each successful return of the decoder",
 "C25": "abstract interpretation of the SSA form over a family of value shapes (structure known, strings, keys and integers unknown, maps visited in every order): obligations at each return of Encode and String",
 "C11": "lockset analysis: abstract interpretation of every exported function of the owning packages with its goroutines, lock state and every access to shared fields recorded; common lock per field, balance, order and waits under locks decided over all paths",
 "C05": AI+"every instruction of opening a torrent that can panic and at each successful return (lengths, sums with overflow, hash count)",
 "C06": AI+"every file-system call that creates something (paths as terms over the metadata's components)",
 "C07": AI+"each file write, with ghost prefix sums of the file lengths and inferred linear loop invariants",
 "C08": AI+"each recording of progress, typestate of the current block over all paths of the writer",
 "C09": AI+"each claim of a piece inside its critical section (lock state and bitset content tracked)",
 "C02": AI+"every instruction that can panic, over unknown peer input",
 "C10": "typestate of the outstanding block over all paths of the connection loop (abstract interpretation of the SSA form)",
 "C13": "typestate of choke/interest/outstanding request over the connection loop, state transformer per message type (abstract interpretation of the SSA form)",
 "C12": AI+"each successful return of the handshake (answer content), each write before it, each close; typestate from handshake to download loop in the manager",
 "C14": AI+"each write to a peer: byte content of the frame as a term over the message's fields",
 "C16": "typestate of the deadline over all paths of each connection operation and interval analysis of all time limits (abstract interpretation of the SSA form); call-site query that no other code operates on sockets",
 "C18": "typestate of wait groups, writer channel and completion signal over all paths of the manager and its goroutines, happens-before by ownership hand-over (abstract interpretation of the SSA form)",
 "C20": AI+"each UDP request, each use of an answer and each successful return of the announce (answer bytes against request bytes)",
 "C29": "ownership analysis of pool entries over all paths of the manager and its goroutines, lock state tracked (abstract interpretation of the SSA form)",
 "C17": "observation of the context in every round of every loop and of every blocking operation (abstract interpretation of the SSA form of the manager with its goroutines, the connection loop and the trackers)",
 "C19": AI+"each packet and HTTP request sent to a tracker (byte content, query parameters) and each Announce call of the manager",
 "C21": AI+"each return of an announce; path reachability of success after a failed step; exits of each tracker's loop",
 "C22": AI+"each return of an announce and of the wait (interval bounds), path rule between two announce rounds",
 "C27": AI+"the figures derived from the counters; ownership of every counted peer and tracker; atomic access by call-site query",
 "C30": "ownership analysis of connections, trackers, response bodies and files over all paths (abstract interpretation of the SSA form)",
 "C28": "path analysis of the whole program from main with the command line library modelled: no normal end after a failed step (abstract interpretation of the SSA form)",
 "C04": AI+"every instruction that can panic while a tracker is made, announced to, waited for and closed, over unknown answers",
 "C23": AI+"each successful return of an announce and each entry placed (byte content of every list element, ghost counters for dictionary lists)",
 "C31": AI+"every allocation whose size depends on remote data",
 "C32": AI+"what a peer does after an operation on its connection timed out, was cut off or failed for good (typestate of the connection over all paths of Run; kind of each error returned)",
 "C33": AI+"the value and error returned by Parse for each of a family of encodings of known shape with unknown digits, keys and bytes",
 "C15": AI+"the reads and decoded fields of a message",
}
NA = {
 "C40": "liveness: quantifies over fair schedules and over which pieces remote peers hold; no static argument in reach bounds it. It is also false today for torrents whose piece length is not 128 KiB (see DESIGN.md, findings)",
 "C41": "round-trip equality of two recursive functions over unbounded values; the structural parts (exact decoding, canonical encoding) are decided under C24, C25 and C33",
 "C42": "wall-clock figures; nothing in the source bounds elapsed time",
}
NOTE = "sound over-approximation of the analysed functions under the models of library calls listed in DESIGN.md; decides the clauses named there, nothing is executed"
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[])
for p in P:
    i=p["id"]
    if i in T:
        m["checks"].append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i}",technique="static analysis: "+T[i],level="other",level_note=NOTE))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); print(len(m["checks"]),len(m["not_applicable"]))
