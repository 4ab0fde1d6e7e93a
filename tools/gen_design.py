#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then one section per property from PROPS, the properties and the catalogues."""
import json, os, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS

# per property: what is run; the oracle; why a test cannot settle it
T = {
 "C01": ("Values are built through the package's own API from a choice sequence, encoded, decoded and encoded again, in one process.",
         "An encoder and a decoder of our own (mc/vben), written from BEP 3, and equality of value trees.",
         "Map order is random and key order, digit counts and the ends of the integer range are all special; a table of examples hits a handful."),
 "C02": ("Every byte string of the bounded language is given to the decoder.",
         "A recursive-descent reference decoder (mc/vben): accepted or not, value, consumed prefix, source bytes of lists and dictionaries; a crash of the process (stack overflow included) is seen by the parent.",
         "The set of malformed inputs is infinite; the grammar is small enough for all strings up to the length where every pair and triple of its rules meets."),
 "C03": ("Torrent files are assembled from choices (keys present, order, kinds, unknown keys, spellings) and decoded.",
         "The expected struct is computed while the file is assembled; the info hash is SHA-1 of the slice of our own text.",
         "Order, absence and kind of keys multiply; a re-encoding decoder differs only for files that are not canonical."),
 "C04": ("A manager downloads from a scripted seed (whole client, virtual network); every byte it writes is parsed.",
         "An independent wire parser that knows the geometry and refuses anything else than BEP 3.",
         "Offsets depend on piece length, piece number, block number and the shorter last piece at once; wrong values appear only for certain combinations."),
 "C05": ("One stream of messages is delivered in every segmentation, with pauses at the cuts, to a real session; the client's reactions (requests, cancels, interest, keep-alives, end, stored pieces) are the observation.",
         "The reactions to the same stream delivered at once, and the sequence sent (what is acted on shows in bitfield, requests and stored bytes).",
         "A stream of n bytes has 2^(n-1) segmentations and the read timeout can strike at each of them."),
 "C06": ("Every message of a hostile alphabet in every session state; memory is measured in the process.",
         "No crash of the process, heap growth within the stated bound, the manager answers afterwards.",
         "Indices, offsets and lengths are 32-bit numbers of the attacker's choice in every state."),
 "C07": ("Sequences of answers in whole sessions, the verification function alone, and schedules of two sessions / two threads at statement level with the race detector on.",
         "A reference store that takes a byte only if the piece hashes right; after every single write the file is compared.",
         "A comparison that overlooks one bit, or a buffer shared between two sessions, never shows in a test with one good piece."),
 "C08": ("OpenFiles and the writer are run on real files in a scratch directory with every layout of the bounds; beyond 2 GiB sparse files.",
         "The original content is a function of the absolute position; each file is compared in whole.",
         "Pieces that cross one, two or many files, start or end exactly at a border, or lie beyond 2^32 each need their own layout."),
 "C09": ("OpenFiles is run as an unprivileged user in a scratch directory; the hook in package os refuses and records everything outside.",
         "The set of paths created, opened for writing or removed must equal the set listed; refusals must leave no trace.",
         "Path spellings and clashes combine; the checks of name, path and clash are in different places."),
 "C10": ("Metadata with every combination of the bounds is opened in a scratch directory (file sizes are virtual: nothing is allocated for them).",
         "Arithmetic in big integers.", "Overflow and rounding at exact multiples, one less and one more."),
 "C11": ("Sequences and schedules of claims on the real queue; whole downloads under the controlled scheduler.",
         "No piece twice while its holder has not failed, only advertised ones, a claim fails only if nothing fits, everything claimed at the end.",
         "Two peers must be between the look and the claim at once."),
 "C12": ("Sequences and schedules of report and take on the real queue; sessions of several peers.",
         "A multiset; linearizability of the history by search over the at most 8 operations.",
         "Losing or doubling a request needs two peers inside the critical section or at both ends of the queue."),
 "C13": ("Writers, write faults (every file of a piece, disk full or closed), readers under the controlled scheduler.",
         "A reference set of written pieces, compared after every delivery and at every query; completion is monotone.",
         "The state is wrong only between two steps of the writer, or after a fault in one of several files."),
 "C14": ("Whole downloads: manager, sessions, trackers, disk; remote peers are scripts; virtual time.",
         "Download returns nil within 4 virtual hours, every file is byte-identical, no crash.",
         "Liveness for all behaviours of others at all moments."),
 "C15": ("The same, with the end of the context or Stop at every network operation, at every statement of manager, sessions, writer and trackers, and at many moments.",
         "Returns within seconds; pieces acknowledged by further requests are on disk; no goroutine, connection or write left; Stop again does nothing.",
         "The moment of the cancellation is arbitrary."),
 "C16": ("Sequences and schedules of additions and ends.", "A reference pool; the dial hook counts connections per address at every moment.",
         "Check and insertion interleave only under a particular schedule."),
 "C17": ("Every handshake variant is sent by the remote side of the virtual connection.", "Accepted iff complete and equal; what the client has written until then; closed at refusal.",
         "Each of 68 bytes matters or does not, and the bytes arrive in any segmentation."),
 "C18": ("Every sequence of remote events up to the depth, then a good seed finishes.", "An automaton over the two message streams: no request while choked, one open at a time, only advertised pieces, and a request is due when one is possible.",
         "The protocol state is a product of choke, interest, bitfield, open request, retry queue."),
 "C19": ("Events at all distances in virtual time, minutes of silence.", "The largest gap between two writes of the client is at most 120 s.",
         "Depends on when the previous read, write and timeout fell; real minutes would be needed."),
 "C20": ("Announces against a scripted UDP endpoint.", "A BEP 15 codec of our own; a result iff the reply belongs to the request.",
         "Transaction ids are random and replies may be of any length, action and order."),
 "C21": ("Announces with every assignment of fates to datagrams, including duplicates and late copies, in virtual time.", "An announce succeeds iff its own answers arrived in time; never the peers of another announce.",
         "The failing history needs a datagram of one announce to arrive during a later one."),
 "C22": ("Announces against a scripted HTTP endpoint.", "A reference reader of both reply forms and a parser of the request line.",
         "Two forms, many optional keys, IPv6, and 256 byte values in the query."),
 "C23": ("Managers in virtual time with trackers following every history of replies.", "A pacing automaton: not earlier than the interval, at most 3 s later, failures do not stop others, retries bounded, nothing after the end.",
         "Histories of replies and failures over hours."),
 "C24": ("Counters with boundary values, under schedules, and in downloads.", "Sums in big integers; the rendered line must be producible, the percentage within 0..100, monotone.",
         "Lost updates need a schedule; the display overflows only for certain sizes."),
 "C25": ("Every bitfield / have up to the bounds given to a session; what it then requests tells what it understood.", "Bit arithmetic of our own.",
         "2^n bitfields and the padding in the last byte."),
 "C26": ("The real program in its own scratch directory, loopback network only.", "Exit status, stdout and log lines against what the command line says.",
         "Flags, environments, config files and failures combine; the tests never start the program."),
 "C27": ("Types are made by reflect.StructOf/MapOf/SliceOf and filled through Unmarshal.", "A reference filler over the value tree, or an error; never a panic.",
         "The set of types is infinite; only a handful occurs in the tests."),
 "C28": ("Whole downloads with every kind of peer, announce outcome and disk fault; every announce and every display line is captured.", "What was on disk at the moment of the announce: downloaded, left, port; display: bytes, peers, trackers.",
         "The numbers are right for an undisturbed download and wrong after a repeat, a failed write or a retry."),
 "C31": ("A Manager in a swarm of scripted peers of which none need have everything; every spread of the pieces is a choice.", "The files byte by byte; for every request what the peer had announced on that connection, and how often each block was asked for.",
         "Which peer takes over a piece another one failed to deliver depends on who has announced what at that moment."),
 "C30": ("Managers whose last piece cannot be had run for hours of virtual time.", "Goroutines, file descriptors, connections and the heap after collection: the least of one period against the least of the next.",
         "A leak per session or announce is invisible in a single one; at the end of a download everything is released, so C15 does not see it."),
 "C29": ("Two managers in one process at every combination of the bounds, race detector on.", "The same results as alone; no piece of the other torrent anywhere.",
         "Shared state in package variables shows only with two downloads."),
}
MISSED = """C02-nul C06-index C06-bitfieldrepl C08-ge C09-mkdir C10-neg C11-skip C18-pending C18-interested C22-status C24-zero C25-or C26-err
b03-emptyreq b03-rawtrim b04-endpiece b04-blocknum b04-int32 b04-failedoff b05-type0 b06-pieceint32 b07-offset b07-cont b08-loop b08-zerofirst b09-order b10-lastfile b12-others b12-twice
c14-wait1 c14-verifyidx c14-seen c15-statswg c16-lateadd c22-unmap c22-2xx c22-empty c23-seq c24-overflow c24-bar c24-negleft c24-float32 c25-shortignore c26-dir c14-requestlost c14-chan0 c14-writererr c15-nilpool c20-connreuse
C15-writeselect C06-hsk b05-keepskip b13-async b13-doneflag""".split()
EXTRA = {}
try:
    EXTRA = json.load(open(V + "/tools/mutants/judged.json"))
except FileNotFoundError:
    pass
muts = {}
for f in sorted(os.listdir(V + "/tools/mutants")):
    if f.endswith(".py") and f not in ("run.py", "same.py"):
        for m in runpy.run_path(V + "/tools/mutants/" + f)["M"]:
            if len(m) > 3 or m[0] in MISSED or m[0] in EXTRA:
                continue
            for p in m[1].split():
                muts.setdefault(p, []).append(m[0])
seeds = {}
for s in sorted(os.listdir(V + "/seeded")):
    d = json.load(open(V + "/seeded/%s/meta.json" % s))
    seeds.setdefault(d["property"], []).append("`%s` (%s)" % (s, d["what_it_breaks"]))
titles = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
TECH = {"sched": "exhaustive schedules (controlled scheduler, bounded preemptions/delays) and exhaustive inputs/environments on the real code",
        "env": "exhaustive environment behaviour (peers, trackers, network, disk) on the real code in virtual time",
        "inputs": "exhaustive inputs on the real code"}
out = open(V + "/tools/design_head.md").read().rstrip() + "\n\n## Per property\n\n"
for p in sorted(PROPS):
    o = PROPS[p]
    run_, oracle, why = T[p]
    out += "### %s — %s\n\n" % (p, titles[p])
    out += "* **Method:** %s.\n" % (TECH.get(o.get("tech"), "exhaustive inputs on the real code") + (", race detector in the deciding runs" if o.get("race") else ""))
    out += "* **Run:** %s\n* **Enumerated (bounds):** %s.\n* **Oracle:** %s\n* **Why not by tests:** %s\n" % (run_, o["bounds"], oracle, why)
    if o.get("assumptions"):
        out += "* **Left open / assumed:** %s.\n" % "; ".join(o["assumptions"])
    out += "* **Planted bugs caught:** %s.\n" % "; ".join(seeds.get(p, ["none"]))
    if muts.get(p):
        out += "* **Catalogue mutants caught:** %s.\n" % ", ".join(muts[p])
    out += "\n"
open(V + "/DESIGN.md", "w").write(out)
