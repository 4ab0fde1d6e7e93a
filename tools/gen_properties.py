#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single place where the property texts are edited."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

prop("C01", "Bencode encoding is canonical and round-trips",
 "Every value built from integers (the whole signed 64-bit range), byte strings, lists and dictionaries encodes to its one canonical bencoding: dictionary keys in ascending byte order, the same bytes on every call. Decoding those bytes gives back an equal value that encodes to the same bytes again. The human-readable rendering of a value is likewise the same on every call, and shows every key, string and integer of it, in order.",
 ["inputs"], "every value tree up to a size bound over a small alphabet of leaves and keys, plus boundary integers and strings of boundary lengths",
 "The tests encode five hand-written values; dictionary order is random per run, so a test sees it fail only sometimes, and no test decodes what was encoded except one struct.",
 ["pkg/bencode/elements.go", "pkg/bencode/parse.go"],
 [("Encode methods of the four element types", "pkg/bencode/elements.go"), ("recursive-descent scanner", "pkg/bencode/parse.go")],
 ["bencode.Parse", "Bencode.Encode", "Bencode.String", "bencode.NewDictBuilder"])

prop("C02", "Decoding arbitrary bytes never crashes and rejects malformed input",
 "For every byte string, decoding terminates without crashing and succeeds exactly when the bytes begin with a well-formed bencoded value (integers have at least one digit, an optional minus sign and fit in 64 bits; string lengths stay within the input; lists and dictionaries are closed); the result is then the value of that prefix, and the source bytes of each list and dictionary are kept exactly. Otherwise an error is returned. Numbers with superfluous leading zeros, repeated dictionary keys and values nested more than 1000 levels deep may be accepted or rejected, but never crash.",
 ["inputs"], "all byte strings up to a length bound over the alphabet of bencode's structural characters, and every truncation and single-byte edit of larger well-formed documents, including numbers around the 64-bit limits",
 "Ten fixed strings are parsed by the tests; none has a minus sign, an over-long number, a missing digit or a length that overflows.",
 ["pkg/bencode/parse.go", "pkg/bencode/tag_parser.go"],
 [("scanner.number / readString / readList / readDict bounds and end checks", "pkg/bencode/parse.go")],
 ["bencode.Parse", "bencode.Unmarshal"])

prop("C03", "Torrent files decode faithfully and hash to their original info bytes",
 "For every torrent file, whatever the order of its keys, extra unknown keys and absent optional keys, the decoded metadata equals what the file says and the info-hash is the SHA-1 of the exact source bytes of the info value. A file that lacks a required key or has a value of an incompatible kind for one of the known keys, or whose top level is not a dictionary, is refused with an error and never crashes the program.",
 ["inputs"], "every subset of optional keys, every kind of value for each key, key orders, nesting of unknown keys, one- and multi-file layouts",
 "One well-formed torrent file is decoded by the tests (and that test fails outside one time zone); no malformed or reordered file is ever tried.",
 ["pkg/bencode/tag_parser.go", "pkg/bencode/parse.go"],
 [("reflection over ben tags", "pkg/bencode/tag_parser.go: processTarget, setField"), ("raw byte capture of the info dictionary", "pkg/bencode/parse.go: readDict")],
 ["bencode.Unmarshal into Metainfo", "Metainfo.Hash"])

prop("C04", "Every message sent to a peer is exact BEP 3 wire format and in bounds",
 "Whatever the torrent's geometry, everything the client writes to a peer is a 68-byte BEP 3 handshake with the torrent's info-hash and a fixed 20-byte client id, followed by a sequence of exact BEP 3 messages. Each block request names an existing piece and a non-empty byte range that lies inside that piece (the last piece may be shorter), at most 128 KiB long.",
 ["inputs", "histories"], "all geometries (piece length x total length classes) and all answers of the remote peer up to a depth",
 "No test looks at the bytes of a request message or at a request for a short or last piece; the only wire test sends an unchoke.",
 ["pkg/util/peer_message.go", "pkg/peer/peer.go", "pkg/gotitnet/connection.go"],
 [("message constructors and Send", "pkg/util/peer_message.go"), ("createHandshake, createPieceMessage", "pkg/peer/peer.go")],
 ["bytes written on the peer connection during Peer.Announce and Peer.Run"])

prop("C05", "Peer messages are framed correctly however the bytes arrive",
 "The messages the client acts on are exactly the messages the peer sent, in order, for every way the network cuts the byte stream into segments and for every pause between segments, including pauses longer than the read timeout. No byte of the stream is lost, duplicated or interpreted at the wrong position.",
 ["schedules", "inputs"], "all segmentations of a message sequence up to a number of cuts, with a pause shorter or longer than the read timeout at each cut",
 "The tests write each message in one piece on a pipe; none splits a message or lets a read time out in the middle of one.",
 ["pkg/gotitnet/connection.go", "pkg/peer/peer.go"],
 [("length-prefixed reads with a deadline", "pkg/gotitnet/connection.go: ReadPeerMessage, readExactly")],
 ["TimeoutConn.ReadPeerMessage", "pieces delivered by Peer.Run"])

prop("C06", "No peer can crash the client or make it allocate without bound",
 "Whatever bytes a remote peer sends, before or after the handshake, the client does not crash, and the memory it sets aside for that peer stays within a constant plus a multiple of the bytes really received. At worst the session with that peer ends.",
 ["inputs", "histories"], "all message sequences up to a depth over message types 0..20 and extreme ones, payload lengths around each type's fields, extreme piece indexes, offsets and length prefixes, truncated anywhere",
 "All messages in the tests are well formed; a have, request or piece message with a short payload, an out-of-range index or a giant length prefix is never tried.",
 ["pkg/util/peer_message.go", "pkg/peer/peer.go", "pkg/gotitnet/connection.go", "pkg/torrent/torrent.go"],
 [("message decoding", "pkg/util/peer_message.go: NewPeerMessage"), ("piece index checks", "pkg/torrent/torrent.go: CheckPiece"), ("message size handling", "pkg/gotitnet/connection.go")],
 ["Peer.Announce, Peer.Run against a scripted remote"])

prop("C07", "Only piece data with the right SHA-1 reaches the files, at its own place",
 "Data received from a peer is stored only if its SHA-1 equals, in all 20 bytes, the hash the torrent lists for the piece it is labelled with, and then only at that piece's position; all other bytes of the files stay as they were. Data that fails the check changes neither the files nor the set of completed pieces.",
 ["inputs", "histories"], "all sequences of piece messages up to a depth over right and wrong index, offset, length and content, every single-bit difference between the listed and the real hash",
 "Two tests with a stub checker and three with one corrupted buffer; no test connects checking, position and storage, or lies about the offset.",
 ["pkg/peer/peer.go", "pkg/torrent/torrent.go"],
 [("hash check before handing data to the writer", "pkg/peer/peer.go: handlePieceMessage; pkg/torrent/torrent.go: CheckPiece")],
 ["output files and Torrent.Done after Peer.Run + Torrent.WritePiece"])

prop("C08", "Verified pieces rebuild the original files byte for byte",
 "For every layout of files (any number and sizes, empty files included, single- or multi-file, totals beyond 4 GiB) and every piece length, writing each piece once, in any order, leaves exactly the original content in every file: right bytes, right sizes, nothing anywhere else. Writing a piece again changes nothing.",
 ["inputs", "histories"], "all layouts of up to 4 files with sizes 0..5, all piece lengths 1..6, all orders of up to 4 pieces; sparse layouts around 2^31 and 2^32",
 "Five fixed layouts with one write each; no empty files, no second write, no order, no offsets beyond 32 bits.",
 ["pkg/torrent/torrent.go"],
 [("mapping from torrent position to (file, offset) with spanning", "pkg/torrent/torrent.go: writePieceData")],
 ["content of the output files after Torrent.WritePiece"])

prop("C09", "Files are created only inside the output directory, at the paths listed",
 "Opening a torrent creates exactly the files the torrent lists, each at its full relative path below the output directory (below the torrent's own folder when it has several files), and creates or truncates nothing else. A torrent whose name or file paths would lead outside that place, name no file, or clash (the same path twice, or one file inside another) is refused with an error before anything is created or changed.",
 ["inputs"], "all names and paths of up to 3 components over an alphabet with '..', '.', empty, absolute, separators and ordinary names, for 1 and 2 files",
 "One test creates two flat files; nested paths and hostile names are never tried.",
 ["pkg/torrent/torrent.go", "pkg/bencode/tag_parser.go"],
 [("initDownloadDir", "pkg/torrent/torrent.go")],
 ["every file-creating system call of torrent.New, intercepted in package os"])

prop("C10", "A torrent opens only with consistent geometry, and reports it truthfully",
 "A torrent is opened only if its piece length is positive, its total length is positive, and it lists exactly one 20-byte hash for every piece; otherwise an error is returned, without crash or exhaustion. An opened torrent reports total length equal to the sum of its files, piece count equal to the total divided by the piece length rounded up, the info-hash of its metadata, and every announce URL of the metadata exactly once.",
 ["inputs"], "all combinations of piece length, file lengths and number of hash bytes over boundary values up to 64-bit extremes; announce lists with repetitions",
 "torrent.New is never called by a test at all.",
 ["pkg/torrent/torrent.go", "pkg/torrent/piece.go", "pkg/util/set.go"],
 [("torrent.New", "pkg/torrent/torrent.go"), ("NewPieces", "pkg/torrent/piece.go")],
 ["fields and methods of the value returned by torrent.New"])

prop("C11", "Concurrent peers never claim the same piece, and only advertised pieces",
 "Under every interleaving of peers claiming pieces, no piece is handed out twice, a peer is only given pieces it has advertised, and as long as some advertised piece is unclaimed a claim succeeds. After all peers are done, every piece that somebody advertised to a claiming peer has been claimed exactly once.",
 ["schedules"], "all interleavings, at statement granularity and up to a preemption bound, of 2-3 claiming peers over all small advertised sets, with completion being recorded and queried concurrently",
 "The tests call the claim from one goroutine only.",
 ["pkg/torrent/torrent.go"],
 [("requested bitset under a mutex", "pkg/torrent/torrent.go: Next")],
 ["return values of Torrent.Next"],
 [("requested", "pieces already handed to some peer", "pkg/torrent/torrent.go")])

prop("C12", "A failed block request is handed out again exactly once",
 "Every request reported as failed is handed out again to exactly one later taker, unchanged; none is lost, duplicated or invented, and a taker is told there is none only when none is waiting. This holds under every interleaving of reporting and taking.",
 ["schedules", "histories"], "all operation sequences up to a depth, and all interleavings up to a preemption bound of 2-3 threads reporting and taking, also when the queue outgrows its initial capacity",
 "One test pushes a single message and takes it back on one goroutine.",
 ["pkg/torrent/pieces_queue.go"],
 [("slice used as a stack under a mutex", "pkg/torrent/pieces_queue.go")],
 ["PiecesQueue.RequestFailed", "PiecesQueue.FailedPieceMessage"])

prop("C13", "A download is reported complete exactly when every piece is on disk",
 "The torrent reports completion exactly when every one of its pieces, the shorter last one included, has been received, verified and successfully written. A piece whose write fails, a repeated piece, or any order or interleaving of writes and queries never makes completion true too early, never loses a completed piece, and completion once true stays true.",
 ["histories", "fault_sequences", "schedules"], "all sequences up to a depth of piece deliveries (right, repeated, last, failing write) over all small geometries; queries interleaved with writes under a preemption bound",
 "The tests set bits by hand and check one artificial block; no test writes a short last piece of a real torrent or fails a write.",
 ["pkg/torrent/torrent.go"],
 [("downloaded bitset set after a successful write", "pkg/torrent/torrent.go: WritePiece, SetDownloaded, Done")],
 ["Torrent.Done"],
 [("downloaded", "pieces stored", "pkg/torrent/torrent.go")])

prop("C14", "A download finishes with exact content if a seed stays, whatever others do",
 "When at least one reachable peer has every piece and answers correctly and promptly, the peer limit leaves room for it, and the other peers fail finitely often, a download returns without error after finitely many retries and the output is byte-identical to the original. This holds whatever the other peers do: refuse connections, fail the handshake, stay silent, choke, stall, disconnect at any message, or send corrupt, unrequested or repeated data.",
 ["fault_sequences", "configurations"], "all combinations of behaviours and fault points of the non-seed peers and transient faults of the seed, over small geometries with one and several files, in virtual time with a horizon",
 "No test runs a download: the manager, the peer session loop and the trackers have no test that exercises them.",
 ["pkg/download/manager.go", "pkg/peer/peer.go", "pkg/torrent/torrent.go", "pkg/torrent/pieces_queue.go"],
 [("peer session loop with retry queue", "pkg/peer/peer.go: Run"), ("Download orchestration", "pkg/download/manager.go")],
 ["return of Manager.Download, output files"])

prop("C15", "Cancelling or stopping at any moment is clean",
 "Wherever a running download is when it is cancelled or stopped, it returns within seconds, whatever it was waiting for, and without crashing. Every piece that was verified before is completely on disk, no background activity or open connection is left once download and stop have returned, and stopping again or stopping a download that never started does nothing.",
 ["schedules", "crash_points"], "the cancellation or stop placed at every synchronization step of a download with one or two peers, all interleavings up to a preemption bound, in virtual time",
 "There is no test of the manager.",
 ["pkg/download/manager.go", "pkg/peer/peer.go", "pkg/torrent/torrent.go", "pkg/tracker/udp_tracker.go"],
 [("context cancellation, wait group, channel close order", "pkg/download/manager.go: Download, Stop")],
 ["Manager.Download and Manager.Stop, goroutines and connections after them"])

prop("C16", "The peer pool has no duplicates and never exceeds its limit",
 "At every moment the client is connected to each peer address at most once and to at most the configured maximum number of peers, under every interleaving of trackers delivering peers. A peer is accepted exactly when its address is not in the pool and there is room, and the reported number of peers equals the number of accepted peers that have not ended.",
 ["schedules", "histories"], "all interleavings up to a preemption bound of 2-3 deliverers with overlapping address sets and limits 0..3; all sequences of deliveries up to a depth",
 "There is no test of the manager.",
 ["pkg/download/manager.go", "pkg/stats/stats.go"],
 [("map under a mutex", "pkg/download/manager.go: AddPeer")],
 ["Manager.AddPeer result; connections seen by the network"],
 [("peerPool", "peers by address", "pkg/download/manager.go")])

prop("C17", "Only a peer that proves the same info-hash is talked to",
 "A peer is used only after it has answered with a complete BEP 3 handshake: protocol length 19, the exact protocol string, any reserved bytes, and the torrent's info-hash in all 20 bytes; any peer id is accepted. Otherwise the session is refused with an error, nothing but our handshake has been sent to it, and its connection is closed.",
 ["inputs", "schedules"], "the valid handshake, every single-byte change of it, every truncation, every segmentation into two parts, stalls beyond the timeout",
 "Six handshakes are tried on the validation helper; nothing checks what happens on the connection or to the connection.",
 ["pkg/peer/peer.go", "pkg/gotitnet/connection.go"],
 [("isHandshakeValid, Announce", "pkg/peer/peer.go")],
 ["Peer.Announce result; bytes written; connection closed"])

prop("C18", "Requests follow choke rules, one at a time, and resume",
 "The client tells a peer it is interested before requesting, sends no request between receiving a choke and the next unchoke, and has at most one unanswered request per peer at a time unless the earlier one timed out. While unchoked and the peer offers a piece nobody has claimed, it keeps requesting, also after being choked and unchoked again and after the peer announces new pieces late.",
 ["histories", "schedules"], "all sequences up to a depth of remote events (choke, unchoke, have, keep-alive, answer, wrong answer, silence past the timeout, unknown message)",
 "The tests set flags by single messages; the session loop itself is never run.",
 ["pkg/peer/peer.go"],
 [("Run, unchoke, nextRequestMessage", "pkg/peer/peer.go")],
 ["messages written by Peer.Run against a scripted remote in virtual time"])

prop("C19", "An idle peer connection is kept alive",
 "As long as a session with a peer is running, however little the peer sends, the client lets no more than two minutes pass without sending that peer a message. Keep-alive messages themselves are exactly four zero bytes.",
 ["histories", "schedules"], "all placements of sparse remote events over several virtual minutes",
 "No test has a clock that reaches two minutes.",
 ["pkg/peer/peer.go", "pkg/util/peer_message.go"],
 [("checkKeepAlive in the session loop", "pkg/peer/peer.go")],
 ["times of writes on the peer connection in virtual time"])

prop("C20", "UDP announces are exact BEP 15 and only matching replies count",
 "Connect and announce requests are byte-exact BEP 15 packets (98-byte announce with connection id, info-hash, client id, counters, any event, key, number wanted, 16-bit port). An announce succeeds only with a reply of the right action that carries the request's transaction id; it then returns exactly the peers of that reply, in order. Any other reply, error replies and replies of any length included, leads to an error or is ignored, never to a crash or to peers from elsewhere.",
 ["inputs", "histories"], "all reply pairs over action, transaction id right/wrong, lengths 0..40 and peers 0..3, in both phases; all extreme counter values",
 "No test announces to a tracker; the package's tests only construct trackers.",
 ["pkg/tracker/udp_tracker.go", "pkg/tracker/http_tracker.go", "pkg/gotitnet/connection.go"],
 [("createAnnounce, parseTrackerResponse, parseCompactPeers", "pkg/tracker/udp_tracker.go, pkg/tracker/http_tracker.go")],
 ["packets sent; return values of Tracker.Announce"])

prop("C21", "Lost, late or repeated tracker datagrams never block later announces",
 "Whatever datagrams of earlier exchanges were lost, delayed past their timeout, or delivered twice, an announce whose own requests are answered in time succeeds with the peers of its own answer. An announce that gets no answer fails within bounded time.",
 ["fault_sequences", "schedules"], "all assignments of {on time, late, lost, twice} to each datagram of up to 3 consecutive announces",
 "No test announces to a tracker.",
 ["pkg/tracker/udp_tracker.go", "pkg/gotitnet/connection.go"],
 [("transaction id check and read deadline", "pkg/tracker/udp_tracker.go")],
 ["Tracker.Announce over a lossy datagram network in virtual time"])

prop("C22", "HTTP announces carry exact parameters and decode every reply form",
 "An HTTP announce sends the info-hash, client id, port and the downloaded, uploaded and left counters unchanged, keeping any query the tracker URL already has. A success reply yields exactly the peers it lists, in order, in compact or list form, leaving out entries that are not valid addresses; a failure reason, an error status or an undecodable body yields an error. No reply crashes the client.",
 ["inputs"], "all replies over status, form, number of peers, invalid entries, missing and mistyped keys, truncations; all hashes with reserved characters; URLs with and without query",
 "No test announces to a tracker.",
 ["pkg/tracker/http_tracker.go", "gotit.go", "pkg/bencode/tag_parser.go"],
 [("buildQuery, readPeers, parseBencodePeers, parseCompactPeers", "pkg/tracker/http_tracker.go")],
 ["request seen by the HTTP server; return values of Tracker.Announce"])

prop("C23", "Trackers are announced to at the pace they ask for, until cancelled",
 "While a download runs, every HTTP or UDP tracker of the torrent gets its first announce at once, and after a successful announce the next one comes when the interval of that reply has passed, not earlier; if the reply has no usable interval a default of at least one minute is used. A failing announce is retried a bounded number of times with growing pauses and then again after the interval; a tracker that fails, or whose URL is unusable, never stops the others.",
 ["histories", "configurations", "fault_sequences"], "all sequences of replies (success with various or no interval, failure, silence) of up to 3 rounds, two trackers, in virtual time",
 "There is no test of the manager or of announcing.",
 ["pkg/download/manager.go", "pkg/tracker/tracker.go", "pkg/tracker/http_tracker.go", "pkg/tracker/udp_tracker.go"],
 [("runTracker, announceToTracker", "pkg/download/manager.go"), ("WaitInterval", "pkg/tracker/tracker.go")],
 ["times of announces seen by the trackers in virtual time"])

prop("C24", "Transfer statistics add up under concurrency and always render",
 "Under every interleaving of updates, counters lose no update: downloaded, uploaded, peers and trackers equal the sums of what was reported, and left is the torrent size minus what was downloaded. Left never goes below zero, the percentage stays within 0 to 100, reaches 100 only when nothing is left, and the progress display never crashes, whatever was counted; storing a piece again does not count it again.",
 ["schedules", "inputs"], "all interleavings up to a preemption bound of 2-3 updaters and a reader; all size/downloaded pairs over boundary values up to 64-bit extremes",
 "The statistics package has no tests.",
 ["pkg/stats/stats.go", "pkg/stats/progress_bar.go", "pkg/stats/progress_printer.go", "pkg/torrent/torrent.go"],
 [("atomic counters", "pkg/stats/stats.go")],
 ["Stats accessors, ProgressPrinter.Print"])

prop("C25", "A peer's announced pieces are understood exactly",
 "After any sequence of bitfield and have messages, the pieces the client regards a peer as having are exactly those the messages announce, where the highest bit of a bitfield's first byte stands for piece 0. Spare bits and announcements of pieces the torrent does not have are ignored.",
 ["inputs", "histories"], "all bitfields for 1..20 pieces (single bits and pairs beyond), all sequences of bitfield and have messages up to a depth, observed through the pieces requested",
 "One test sends one bit and asserts the wrong position.",
 ["pkg/util/peer_message.go", "pkg/peer/peer.go"],
 [("createBitset", "pkg/util/peer_message.go"), ("handlePeerMessage", "pkg/peer/peer.go")],
 ["pieces requested by Peer.Run"])

prop("C26", "The command line reports failure by exit status and honours its flags",
 "For every combination of subcommand, log flags and torrent file (good, missing, malformed, not a torrent), the program ends without a crash: exit status 0 exactly when the command succeeded, non-zero with a message on standard error otherwise. The bencode and download commands accept every advertised log level and format, which then takes effect, and refuse an unknown one; bencode prints the decoded metadata on standard output; a download refused because of its flags or because its torrent file is malformed, inconsistent or names clashing or forbidden paths leaves the output directory untouched, and an interrupted one counts as failed.",
 ["configurations", "inputs"], "all combinations of subcommand, log level, log format, config file and file variants",
 "The command package has no tests.",
 ["pkg/cmd/app.go", "pkg/cmd/bencode.go", "pkg/cmd/download.go", "pkg/logger/logger.go", "pkg/printer/printer.go"],
 [("cobra commands", "pkg/cmd"), ("logger construction", "pkg/logger/logger.go")],
 ["exit status and output of the built binary"])

prop("C27", "Any tagged Go struct is filled exactly from bencode, or refused",
 "Decoding into a Go struct whose tagged fields are strings, integers of any size and sign, byte slices, pointers, slices, string-keyed maps and structs of such puts exactly the value under its key into every field: numbers only if they fit the field, strings byte for byte, byte slices the content of a string or the source bytes of a list or dictionary, every element of a list in order, every entry of a dictionary. Fields without a tag, unexported fields and optional fields whose key is absent keep what they held, unknown keys are ignored. A missing required key, a value of another kind, a number that does not fit, an unsupported field type or a target that is no pointer to a struct yields an error at whatever depth it occurs. Nothing crashes. Numeric text for an integer field, an integer for a string or byte slice, and pointers to pointers may be taken or refused.",
 ["inputs"], "all types of a grammar of base types under up to two wrappings, with all values of a list of boundary values wrapped alike or one step off; all structs of up to two fields with all tags, subsets of keys and prior contents",
 "The tests decode four fixed structs from fixed strings; integers that do not fit, maps, nested pointers and wrong kinds below the top level are not among them.",
 ["pkg/bencode/tag_parser.go", "pkg/bencode/elements.go"],
 [("Unmarshal, setField, processTarget", "pkg/bencode/tag_parser.go")],
 ["bencode.Unmarshal"])

prop("C28", "Trackers and the user are told the truth about a running download",
 "While a download runs, every announce - HTTP or UDP, first, later, or repeated after a failed attempt - carries the torrent's info-hash, the same 20-byte client id that peers see in handshakes, the configured port, uploaded zero, downloaded equal to the bytes of the pieces verified and stored when the attempt began, and left equal to the torrent's length minus that, whatever the size. Pieces received again, pieces that fail verification and pieces that could not be written are not counted. Every line of the progress display shows the same state: percentage, downloaded and left sizes, average speed since the start, and the number of trackers in use.",
 ["histories", "faults", "inputs"], "whole downloads from slow seeds next to every catalogued kind of other peer; all sequences of outcomes of the later announces; all single and repeated disk faults; torrents of sizes around powers of two up to 64 GiB",
 "No test announces while a download makes progress.",
 ["pkg/download/manager.go", "pkg/stats/stats.go", "pkg/stats/progress_printer.go", "pkg/torrent/torrent.go", "pkg/tracker/http_tracker.go", "pkg/tracker/udp_tracker.go"],
 [("announceToTracker", "pkg/download/manager.go"), ("WritePiece", "pkg/torrent/torrent.go"), ("Print", "pkg/stats/progress_printer.go")],
 ["announces received by scripted trackers, lines written by the progress display"])

prop("C29", "Downloads in one process do not disturb each other",
 "Two downloads in one process, at the same time or one after the other, of different torrents or of the same torrent in two directories, with common trackers, peers and output directory, are independent: each writes exactly its own content to its own files, announces its own info-hash, port and counters, requests only blocks its own torrent has, keeps its own peer limit, and finishes as if it were alone, also when the other one is cancelled, stopped, finishes earlier or meets misbehaving peers. They share no memory without synchronisation.",
 ["histories", "schedules"], "all combinations of 3 x 4 torrents, tracker kinds, other peers, start offsets, ways and moments of ending the first, with the race detector watching",
 "Every test runs a single component; nothing runs two downloads.",
 ["pkg/download/manager.go", "pkg/peer/peer.go", "pkg/torrent/torrent.go", "pkg/torrent/pieces_queue.go", "pkg/tracker/tracker.go", "pkg/stats/stats.go"],
 [("NewMng", "pkg/download/manager.go"), ("tracker.New", "pkg/tracker/tracker.go"), ("NewPiecesQueue", "pkg/torrent/pieces_queue.go")],
 ["files, announces and requests of two Managers in one network"])

prop("C30", "A long download does not pile up connections, activity or memory",
 "However long a download runs and whatever its peers and trackers do, it never holds more connections than peers it may have plus one per tracker, and the background activities, open files and memory it holds do not grow with the number of announces made, peers that came and went, messages received or failures met: what a session, an attempt or an announce needed is given back when it ends, not only when the download does.",
 ["histories", "faults"], "downloads that cannot complete, over 36 (thorough 120) announces, with every catalogued kind of peer next to five others, all pairs of 17 kinds of trackers, and lists of up to 3000 peers; what is held in two later periods is compared",
 "No test runs for longer than a few messages.",
 ["pkg/download/manager.go", "pkg/peer/peer.go", "pkg/gotitnet/connection.go", "pkg/tracker/http_tracker.go", "pkg/tracker/udp_tracker.go", "pkg/torrent/torrent.go"],
 [("runPeer, runTracker", "pkg/download/manager.go"), ("Announce, Close", "pkg/peer/peer.go"), ("Announce", "pkg/tracker/http_tracker.go")],
 ["goroutines, open files, connections and heap of a process with a Manager in a scripted network"])

prop("C31", "Peers that together have every piece are enough, each asked only for its own",
 "When every piece is at some reachable peer that in the end stays and answers correctly, the peer limit has room for all peers, and each peer fails finitely often, a download finishes without error and with exact content even though no single peer has everything: however the pieces are spread over the peers, whether they are announced in a bitfield or one by one, before or long after the unchoke, and wherever peers choke for a while, drop, stall, refuse or send corrupt data. A piece is requested only from a peer that has announced it on that connection, also when another peer has failed to deliver it, and as long as no peer fails no block is requested twice.",
 ["histories", "faults", "schedules"], "all spreads of 3 pieces over 2 and 3 peers with all pairs of faults and ways to announce, pieces of several blocks, up to six peers, and delays of every step",
 "No test downloads from two peers, or from one that has only some of the pieces.",
 ["pkg/peer/peer.go", "pkg/torrent/torrent.go", "pkg/torrent/pieces_queue.go", "pkg/download/manager.go"],
 [("nextRequestMessage, failedRequest, dropPiece", "pkg/peer/peer.go"), ("Next", "pkg/torrent/torrent.go"), ("FailedPieceMessage", "pkg/torrent/pieces_queue.go")],
 ["the requests each scripted peer receives and the files a Manager leaves"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
