#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

PEER="pkg/peer/peer.go"; TOR="pkg/torrent/torrent.go"; PQ="pkg/torrent/pieces_queue.go"; PC="pkg/torrent/piece.go"
MSG="pkg/util/peer_message.go"; CONN="pkg/gotitnet/connection.go"; MNG="pkg/download/manager.go"
HT="pkg/tracker/http_tracker.go"; UT="pkg/tracker/udp_tracker.go"; TR="pkg/tracker/tracker.go"
BP="pkg/bencode/parse.go"; BE="pkg/bencode/elements.go"; BT="pkg/bencode/tag_parser.go"; ST="pkg/stats/stats.go"
APP="pkg/cmd/app.go"; DL="pkg/cmd/download.go"; BC="pkg/cmd/bencode.go"

prop("C01","Only hash-verified data reaches the output files",
 "Bytes received from a peer are handed to the file writer only if their SHA-1 equals the hash the torrent metadata lists for the piece index named in that same message, and the message places them at the start of that piece. The per-piece hashes used are exactly the consecutive 20-byte slices of the metadata's pieces string, and a message that fails the check is neither written nor reported as stored.",
 ["inputs","histories"],"every byte sequence a peer may send, every torrent, every order of messages",
 "Tests check a handful of hand-built messages with a stub checker; the guarantee ranges over every payload, index and offset and over every code path that can reach the writer.",
 [PEER,TOR,PC,MSG],[("hash comparison before hand-off to the writer",PEER+":handlePieceMessage"),("piece hash check",TOR+":CheckPiece"),("splitting of the pieces string",PC+":NewPieces")],
 [("piece hashes","expected SHA-1 per piece index",TOR)],["writes to the piece channel","file writes"])

prop("C02","No bytes from a peer can crash the client",
 "For every handshake response and every sequence of length-prefixed messages a remote peer may send (truncated, oversized, unknown or contradictory ones included), receiving, decoding, handling and writing them never panics: no out-of-range access, nil dereference or failed assertion is reachable.",
 ["inputs","histories"],"all byte streams from a peer",
 "Tests feed a few well-formed messages; a panic needs one specific truncated or out-of-range message.",
 [PEER,MSG,CONN,TOR],[("minimum payload length per message type",MSG+":NewPeerMessage"),("index bounds",TOR+":CheckPiece"),("handshake length check",PEER+":isHandshakeValid")])

prop("C03","No input can crash or hang the bencode decoder",
 "For every byte string, decoding it (to elements or into a target structure) returns a value or an error: it never panics, never reads outside the input, consumes input in every step so that it always terminates, never recurses deeper than a fixed limit, and never lets a number overflow silently.",
 ["inputs"],"all byte strings offered as bencode",
 "The bencode tests are a few dozen fixed strings; overflow, truncation and deep nesting need inputs outside that list.",
 [BP,BT,BE],[("scanner cursor within the input",BP),("string length checked against the remaining input",BP+":readString"),("overflow check",BP+":number"),("nesting limit",BP+":Next")],
 [("cursor","start and current positions in the input",BP)])

prop("C04","No tracker response can crash the client",
 "For every HTTP body and every UDP datagram a tracker may answer with, interpreting it never panics: it yields peers or an error.",
 ["inputs"],"all HTTP bodies and all UDP datagrams",
 "No tracker test runs offline; hostile or truncated responses are unbounded in number.",
 [HT,UT,BP,BT],[("minimum response sizes",UT),("count derived from the response length",HT+":parseCompactPeers")])

prop("C05","Inconsistent torrent metadata is refused, never crashes",
 "Opening a torrent returns an error, without panicking, unless the piece length is positive, the pieces string is a whole number of 20-byte hashes, every length is non-negative, the total length is the single file's length or the overflow-free sum of all file lengths, and the number of hashes equals the number of pieces that total needs. When it succeeds the torrent exposes exactly those values.",
 ["inputs"],"all decoded metadata",
 "Tests build two or three consistent torrents; the guarantee is about every inconsistent one.",
 [TOR,PC],[("validation while constructing the torrent",TOR+":New"),("hash string length check",PC+":NewPieces")])

prop("C06","Downloads never escape the chosen output directory",
 "Every file or directory created for a torrent lies inside the output directory, whatever name or path components the metadata contains: absolute paths, parent references and empty paths are refused before anything is created at them.",
 ["inputs"],"all torrent names and file path lists",
 "Tests use benign names; the guarantee is about adversarial ones.",
 [TOR],[("locality check on the name and on each joined file path before any file system call",TOR+":initDownloadDir")],(),["os.Create, os.Mkdir, os.MkdirAll"])

prop("C07","Every block is written at its own place and nowhere else",
 "A block of piece i at offset o is written starting at byte i*piece-length+o of the torrent, where the torrent is the concatenation of its files in metadata order: each part goes to the file that owns that byte range at the matching offset, no part reaches beyond its file's length, and no byte is dropped, duplicated or reordered. The k-th opened file is the one at the k-th metadata path (all path components kept), and a block that does not fit is reported as an error.",
 ["inputs"],"all torrents (file layouts) and all blocks",
 "Tests cover a few layouts and positions; boundaries between files depend on every combination of lengths.",
 [TOR],[("position computation",TOR+":WritePiece"),("file lookup and splitting",TOR+":writePieceData"),("one handle per metadata file, in order",TOR+":initDownloadDir")])

prop("C08","Progress is recorded only after data is safely written",
 "A piece is marked complete, and bytes are added to the downloaded total, only after the write of those bytes succeeded, and only for that piece's index and that number of bytes; a failed write changes neither and does not stop later writes. A written block that ends its piece (or the torrent) always marks the piece, and the torrent counts as complete exactly when every piece is marked.",
 ["inputs","fault_sequences","histories"],"all block sequences and all write failures",
 "Write errors and the ordering of write, count and mark are not exercised by the tests.",
 [TOR,ST],[("mark after write",TOR+":WritePiece"),("completeness test over all pieces",TOR+":Done")])

prop("C09","A piece is claimed once and only from peers that have it",
 "When peers concurrently ask which piece to fetch next, each piece index is handed out at most once (until it is explicitly put back as failed), only to a peer that announced having it, and always inside the torrent's range. A piece that is unclaimed and available at the asking peer is never withheld.",
 ["schedules","inputs","histories"],"all interleavings of peers and all availability sets",
 "Unit tests call the selection from one goroutine with a few bit patterns.",
 [TOR],[("test-and-set of the requested set inside one critical section",TOR+":Next")],[("requested","pieces already claimed",TOR)])

prop("C10","No requested block is ever lost",
 "Whenever a peer connection obtains a block to fetch, then on every path - send failure, read failure, rejected or corrupt data, cancellation, disconnect - the block is either passed on for writing or put back exactly once on the retry queue before the connection takes another block or ends; blocks of a claimed piece that were not requested yet are put back as well. Retry-queue entries are handed out once each and before new pieces.",
 ["schedules","fault_sequences","histories"],"all failure points and all message orders on a connection",
 "Losing a block needs a failure at a particular point in the exchange; no test runs the download loop.",
 [PEER,PQ],[("requeue on every failure and at exit",PEER+":Run"),("retry queue",PQ)],[("outstanding request","block requested and not answered yet",PEER+":Run")])

prop("C11","Shared download state is only touched under its lock",
 "Every piece of state shared between the peer, tracker, writer and control goroutines (claimed pieces, completed pieces, retry queue, peer pool, cancel handle, counters) is accessed only while holding the one lock that guards it or with atomic operations, every lock taken is released on every path and never taken twice, and no lock is held across network, channel or timer waits.",
 ["schedules"],"all interleavings of all goroutines",
 "A data race or deadlock shows only under particular schedules; tests are single-threaded.",
 [TOR,PQ,MNG,ST],[("mutex per structure",TOR+", "+PQ+", "+MNG),("atomic counters",ST)])

prop("C12","No data exchange without a valid handshake",
 "A connection to a peer is used for the download only after the peer answered the handshake with the 19-byte BitTorrent protocol string and exactly this torrent's info-hash; a short, wrong or mismatching answer is reported as an error, the connection is closed, and nothing but the handshake was sent on it.",
 ["inputs","fault_sequences"],"all handshake answers and I/O failures",
 "Tests compare a few fixed handshakes; the gate concerns every answer and every caller.",
 [PEER,MNG],[("handshake validation",PEER+":isHandshakeValid, Announce"),("download loop started only after success",MNG+":startPeerDownload")])

prop("C13","Requests obey choking and interest, one at a time",
 "A block request is sent only on a connection on which the client has declared interest and the peer's latest choke or unchoke message was unchoke, and never while an earlier request on it is still outstanding (neither answered nor given up after a read failure or a choke). Choke, unchoke, interested, not-interested, have and bitfield messages change exactly the state they denote, a have for an index outside the torrent changes nothing, and declaring interest is recorded only after it was sent.",
 ["inputs","histories"],"all message histories on a connection",
 "Tests send single messages to the handler; histories and the loop's use of the state are not covered.",
 [PEER],[("guard before requesting",PEER+":Run"),("state updates",PEER+":handlePeerMessage, SendInterested")])

prop("C14","Outgoing peer messages follow the BitTorrent wire format",
 "Every handshake and message written to a peer is byte-exact: handshake = 19, protocol string, eight zero bytes, info-hash, the client's 20-byte id with its fixed prefix; message = four-byte big-endian length of what follows, type byte, big-endian fields (request and cancel: index, offset, length in that order); keep-alive = four zero bytes. The length prefix always equals the number of bytes that follow.",
 ["inputs"],"all field values of all message kinds",
 "Tests compare a few encodings; symbolic layout covers every value.",
 [MSG,PEER],[("encoding",MSG+":Send, CreatePieceMessage"),("handshake",PEER+":createHandshake, createClientId")])

prop("C15","Incoming peer messages are framed and decoded exactly",
 "Reading a peer message consumes exactly the four-byte big-endian length and that many bytes, and returns exactly those; after a partial read the stream is never read again as if it were at a message boundary. Decoding yields the type byte and, per type, the big-endian index, offset, length or data at their wire positions; a message too short for its type is never treated as that type.",
 ["inputs","fault_sequences"],"all byte streams and all points at which a read may fail",
 "Fragmentation and mid-message timeouts are not produced by the tests; decoding is sampled on few values.",
 [CONN,MSG],[("length-prefixed read",CONN+":ReadPeerMessage"),("sticky failure after partial read",CONN+":readExactly"),("field decoding",MSG+":NewPeerMessage, createBitset")])

prop("C16","Every network operation has a time limit",
 "Every connect, read and write on a peer or tracker socket runs under a deadline set for that operation from the connection's configured timeout, a failure to set the deadline aborts the operation, and every HTTP request has an overall timeout; all these limits are positive and at most a minute.",
 ["fault_sequences","schedules"],"all stalls of all remote parties",
 "A missing deadline shows only when a remote stalls forever; tests use in-memory pipes.",
 [CONN,TR],[("deadline before each read or write",CONN),("dial and HTTP timeouts",CONN+":NewTimeoutConn, "+TR+":New")])

prop("C17","Cancellation stops every activity",
 "Once the download is cancelled, every peer, tracker, progress and retry loop leaves at its next step: no loop can start another round, every wait of more than a few seconds also waits for the cancellation, and retries and HTTP requests carry the cancellable context.",
 ["schedules","histories"],"cancellation at every point of every loop",
 "No test runs the loops; the moment of cancellation is unbounded.",
 [PEER,MNG,TR,HT],[("context checks",PEER+":Run, unchoke, wait"),("cancellable tracker wait",TR+":WaitInterval"),("retry context",MNG)])

prop("C18","Shutdown loses no verified data and never panics",
 "The channel to the file writer is closed exactly once and only after every goroutine that can send on it has finished; the download call returns only after the writer has drained everything sent. Every goroutine that takes part is registered before it starts and signs off on every path, and stopping (even repeatedly or before starting) cancels, waits for them and only then closes the peers' connections and the progress display.",
 ["schedules","histories"],"all interleavings of cancellation, trackers, peers and writer",
 "A send on a closed channel or a lost buffer needs a particular interleaving at shutdown.",
 [MNG],[("wait group around trackers and peers",MNG+":Download, getIps, startPeerDownload"),("close after wait, then wait for the writer",MNG+":Download"),("stop order",MNG+":Stop")])

prop("C19","Announces carry the true torrent identity and counters",
 "Every announce sent to a tracker carries this torrent's info-hash, this client's peer id, the configured listening port and the current downloaded, uploaded and left byte counts, each in the position or parameter the protocol assigns to it: the HTTP query is appended correctly to the tracker address, and the UDP announce is the 98-byte big-endian layout using the connection id the tracker just issued.",
 ["inputs","histories"],"all hashes, ids, counters, ports and tracker addresses",
 "Tracker tests need a network and are not run; field order mistakes are invisible without a tracker.",
 [HT,UT,MNG],[("query construction",HT+":buildQuery, Announce"),("announce packet",UT+":createAnnounce, Announce"),("counters read at announce time",MNG+":announceToTracker")])

prop("C20","UDP tracker answers are matched to their request",
 "A UDP tracker datagram is used only if it is long enough, carries the transaction id of the request just sent and the action that request expects; error answers become errors that carry the tracker's message, and anything else is refused. Each request uses a freshly drawn transaction id, and the peers, interval or connection id of a refused answer are never used.",
 ["inputs","histories"],"all datagrams, late and forged ones included",
 "Needs forged or late datagrams; no test covers the UDP exchange.",
 [UT],[("length, action and transaction id checks",UT+":parseTrackerResponse, readConnect, readAnnounce")])

prop("C21","A failing tracker yields an error and no peers, and harms no other",
 "When a tracker cannot be reached, times out, answers with a non-success status, an undecodable body, a failure reason or an error packet, the announce returns an error and no peers. The failure neither ends the announce loop of that tracker, nor affects other trackers, nor terminates the program.",
 ["fault_sequences","inputs"],"all failure kinds at all points of an announce",
 "Failures are not injected by any test that runs.",
 [HT,UT,MNG,TR],[("error returns",HT+":Announce, readPeers, "+UT+":Announce"),("one goroutine per tracker",MNG+":getIps, runTracker")])

prop("C22","Trackers are never hammered or forgotten",
 "Between two announce rounds to the same tracker the client always waits the tracker's interval, which is positive and at most a day whatever the tracker sends (zero, negative or huge values included): a sensible reply interval is adopted in seconds, and a default of a minute applies before the first one. Retries within a round are limited in number and delayed.",
 ["inputs","histories"],"all interval values and announce outcomes",
 "Interval values come from the tracker; tests do not run the announce loop.",
 [TR,HT,UT,MNG],[("interval validation",HT+":readPeers, "+UT+":readAnnounce"),("wait between rounds",MNG+":runTracker, "+TR+":WaitInterval")])

prop("C23","Peer lists from trackers are decoded exactly",
 "A compact peer list of n bytes yields exactly the floor(n/6) entries it contains, in order, each with the four address bytes and the big-endian port at its place; a dictionary peer list yields exactly the entries whose address and port are valid, in order. Invalid entries are skipped without affecting the others, and no placeholder entry is ever produced.",
 ["inputs"],"all peer lists",
 "Needs byte-exact checking for every length and content; tracker tests do not run.",
 [HT,UT],[("compact decoding",HT+":parseCompactPeers"),("dictionary decoding",HT+":parseBencodePeers")])

prop("C24","The info-hash is the SHA-1 of the exact info bytes",
 "The torrent identity used with peers and trackers is the SHA-1 of the info dictionary's bytes exactly as they appear in the torrent file, from its opening to its closing delimiter, independent of key order, duplicate or unknown keys and of anything outside it; those bytes are never modified.",
 ["inputs"],"all torrent files",
 "Tests compare a few files; exact delimiting must hold for every nesting and key order.",
 [BP,BT,TOR],[("raw span of each container recorded by the decoder",BP+":readDict, readList"),("hash over the raw bytes",BT+":Hash")])

prop("C25","Encoding is canonical and deterministic",
 "Encoding a value always gives the same bytes: dictionary keys in ascending byte order, each key and value exactly once, strings as decimal byte length, colon and the exact bytes, integers as i, decimal digits, e, containers enclosed by their delimiters. No map iteration order can show in encoded or printed output.",
 ["inputs","schedules"],"all values and all map iteration orders",
 "Map iteration order varies from run to run; a test sees one.",
 [BE],[("sorted keys",BE+":Encode, sortedKeys, prettyPrint")])

prop("C26","Missing or ill-typed metadata is an error, never ignored",
 "Decoding into a target structure succeeds only if the input is a dictionary, every non-optional tagged field is present and every present value fits the type of its field: a list, map or sub-structure field takes only a list or dictionary (checked recursively), a numeric field only a number in its range, a string field only a string or the decimal text of an integer; an error found at any depth is returned to the caller. An absent optional field leaves its target untouched.",
 ["inputs","programs"],"all inputs and all target structures",
 "The combinations of field kinds, nesting and wrong types are unbounded.",
 [BT],[("required and type checks",BT+":processTarget, setField")])

prop("C27","Progress figures are always consistent",
 "At any time the bytes left are the torrent size minus the bytes downloaded and never below zero or above the size, the percentage lies between 0 and 100, and the displayed numbers of peers and trackers are the numbers currently active: every increment is matched by exactly one decrement when that peer or tracker ends. Counters never lose concurrent updates.",
 ["schedules","inputs","histories"],"all orders of updates and readings",
 "Concurrent updates and repeated blocks are not exercised.",
 [ST,MNG],[("atomic counters and clamping",ST),("paired add and remove",MNG+":AddPeer, removePeer, runTracker")])

prop("C28","Command failures are visible in the exit status",
 "If the configuration, the log settings, the torrent file, its decoding, the output directory or the download fails, the command terminates with a non-zero exit status and never continues as if it had succeeded; nothing is created in the output directory before the arguments and the torrent file are validated. The options given on the command line are the ones used. The bencode command, when it succeeds, has shown the decoded metadata.",
 ["configurations","fault_sequences"],"all option values and failure points of the commands",
 "No test runs the commands.",
 [APP,DL,BC,"cmd/gotit/main.go"],[("error to exit status",APP+":NewCmdRun"),("checks before effects",DL+":runDownload"),("decode and print",BC+":run")])

prop("C29","No duplicate peers and never more than the limit",
 "At any time the client is connected to each peer address at most once and to no more peers than the configured maximum, whatever the trackers send and however their replies interleave; a peer that failed to connect or has finished is removed, so that its place and its address can be used again.",
 ["schedules","histories"],"all tracker replies and interleavings",
 "Needs concurrent tracker replies; no test exercises the manager.",
 [MNG],[("check and insert in one critical section",MNG+":AddPeer"),("removal at end or failure",MNG+":removePeer, startPeerDownload")])

prop("C30","Everything opened is closed again",
 "Every socket, HTTP response body and output file that is opened is closed on every path on which it is no longer used: failed handshakes and finished peers close their connection, trackers close their socket when their loop ends, response bodies are closed also on error statuses, and a torrent closes all its files, also those opened before a later one failed.",
 ["fault_sequences","histories"],"all failure points",
 "Leaks are silent in tests.",
 [PEER,MNG,HT,TOR,DL],[("close on error and at the end",PEER+":Announce, "+MNG+":startPeerDownload, runTracker"),("deferred body close",HT+":Announce"),("file cleanup",TOR+":New, Close, "+DL+":runDownload")])

prop("C31","Remote parties cannot choose how much memory is used",
 "The memory allocated for a single peer message, tracker datagram, tracker HTTP body or availability update is bounded by a fixed limit, or by the number of bytes actually received, whatever lengths, counts or indices the remote party claims.",
 ["inputs"],"all claimed lengths, counts and indices",
 "Needs hostile length fields; tests use small ones.",
 [CONN,HT,UT,PEER,MSG],[("message size limit",CONN+":ReadPeerMessage"),("body limit",HT+":Announce"),("index bound before growing the set",PEER+":handlePeerMessage")])

prop("C32","A dead connection is given up, a slow one is kept",
 "Once a peer's connection has failed for good or a message on it was cut off (read or written only in part), nothing more is read from or written to it and the peer's run ends; the failure is never taken for a timeout. A read that merely timed out is not taken for a loss: it ends the run only if the download is cancelled or complete, or another operation fails.",
 ["fault_sequences","histories"],"all failures of all operations on a connection, timeouts and partial transfers included",
 "Needs a connection that fails at a particular operation; the tests use connections that work.",
 [PEER,CONN],[("error kinds of reads and writes",CONN+":ReadPeerMessage, WriteMsg"),("reaction to failures",PEER+":Run, unchoke")])

prop("C33","Decoding bencode yields exactly the value it denotes",
 "Parsing a well-formed encoding succeeds and yields the value it denotes: integers with their sign and all their digits, strings of exactly the announced bytes, lists with their elements in order, dictionaries with each key's own value. An encoding that is cut off, lacks a digit, a colon or an end, or has a key that is not a string is an error.",
 ["inputs"],"all digits, keys and bytes of a family of shapes",
 "Unknown digits, keys and bytes at every position; the tests decode a few literals.",
 [BP],[("parse",BP+":Parse")])

prop("C40","With honest peers every download eventually completes",
 "If peers holding all pieces stay reachable, the download eventually writes every piece and reports completion.",
 ["schedules","histories","inputs"],"all torrents and fair schedules",
 "Liveness over unbounded executions.",
 [PEER,TOR,MNG],[("request loop",PEER+":Run")])

prop("C41","Decoding the encoding of a value gives the value back",
 "For every value, decoding its encoding yields an equal value, and encoding the decoding of canonical input yields the same bytes.",
 ["inputs"],"all values",
 "Round trip over all values.",
 [BE,BP],[("encode and parse",BE+", "+BP)])

prop("C42","Reported speed and timing figures are accurate",
 "The displayed transfer speed equals the verified bytes divided by the elapsed time, and keep-alives are sent early enough for no idle connection to be dropped.",
 ["histories"],"all timings",
 "Wall-clock behaviour.",
 [ST,PEER],[("speed",ST+":Speed"),("keep-alive",PEER+":checkKeepAlive")])

with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80, p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
