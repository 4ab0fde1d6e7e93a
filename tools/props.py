"""Per-property build and run options of check.py, and the descriptive part of the evidence."""
PROPS = {
    "C01": dict(shards=8, bounds="all integers near 0, powers of 2 and 10 and the 64-bit limits; all 1-byte and 2-byte strings (second byte from 16), lengths around digit boundaries; every insertion order of every set of up to 3 (thorough 4) of 18 keys; dictionaries of up to 40 keys; keys of every length around digit boundaries; strings, lists and dictionaries of tens of thousands of elements; all value trees up to 6 (thorough 7) nodes; nesting up to 500",
        assumptions=["values outside the enumerated shapes behave like the enumerated ones (data independence of the encoder)"]),
    "C02": dict(shards=8, bounds="all strings up to 6 (thorough 7) bytes over the 11 bytes the grammar tells apart; all sequences of up to 5 (thorough 6) of 15 tokens; every one-byte change, insertion, removal, doubling and cut of 7 documents; numbers around all size limits in 7 uses x 5 contexts; nesting up to 20 million levels; numbers of up to thousands of digits in every place a number may stand; lists and dictionaries of up to hundreds of thousands of elements",
        assumptions=["bytes outside the alphabet are treated alike (all 256 are tried in the one-byte mutations)", "inputs of 64 KiB and more are decoded, not encoded again (Encode takes quadratic time)"]),
    "C03": dict(shards=8, bounds="every subset of the 6 optional keys with every rotation and reversal of the keys; every order of 5 (thorough 8) top-level keys and of the info keys; an unknown key at every place on 3 levels (over 20 names, among them ones confusable with known keys, x 8 values); files with many trackers, files, pieces and unknown keys; one or two of 13 known keys absent or with one of 27 values of all kinds; every one-byte change and cut of 2 files",
        assumptions=["an integer where text is expected, a numeric text where an integer is expected, and a single string as url-list may be accepted or refused"]),
    "C08": dict(shards=8, bounds="all layouts of up to 3 (thorough 4) files of 0..4 bytes and single files of 1..12 bytes with piece lengths 1..6, all orders of up to 3 (thorough 4) pieces and all rotations and reversals beyond, pieces whole and in two parts; 5-8 files with every subset empty; real piece lengths 16-128 KiB with sizes around their multiples; 7 sparse layouts beyond 2 and 4 GiB with pieces at every boundary; files that exist already, shorter, longer or with other contents",
        assumptions=["beyond the enumerated sizes only boundary positions are written (sparse)"]),
    "C09": dict(shards=8, nobody=True, bounds="36 names single- and multi-file; all paths of up to 3 (thorough 4) components from 14, as first or later file; 36 components at 3 depths; all ordered sets of up to 3 (thorough 4) of 14 plain paths, some of them the same or inside one another, over 4 existing directory contents; names that differ only in case, trailing dots, blanks or Unicode form; run as an unprivileged user with all path-based file system changes intercepted",
        assumptions=["symbolic links already present in the output directory are not considered", "names with a slash that stay inside and steps that name nothing may be refused or opened at the cleaned path", "names longer than the file system allows are refused, but not necessarily before anything is created"]),
    "C10": dict(shards=8, bounds="single files and up to 3 (thorough 4) files of -2..9 bytes with piece lengths -2..8 and 7 numbers of hash bytes around the right one; all pairs of 16 extreme lengths with 16 extreme piece lengths and 5 numbers of hashes; piece counts 1..7 at exact quotients of piece lengths up to 3*2^58; every arrangement of up to 2x2 announce URLs from 4; announce URLs of unusual kinds and in large numbers",
        assumptions=["web seeds of url-list may or may not be counted among the trackers; an empty announce URL may be dropped"]),
    "C17": dict(shards=8, maxprocs=1, tech="env", bounds="every value of every byte of the 68; every pair of bytes changed in 3 ways; 14 whole-field variants x 4 reserved x 4 ids; every cut followed by end, silence, reset, the rest at 4 times, or in 3 parts; every hash bit and prefix; 4 connection failures",
        assumptions=["network and clock are virtual; a part of the handshake that is later than the read timeout may be refused"]),
    "C05": dict(shards=8, maxprocs=1, tech="env", bounds="6 streams of 9-17 bytes in every segmentation, with one of 4 pauses at up to 1 (thorough 2) cuts; messages of up to 128 KiB cut at every pair of ~40 boundary positions with pauses; whole sessions with everything the seed sends cut at each of the first 60 (thorough 120) positions, glued, or byte by byte, with 4 pauses; messages of which only a part ever arrives; the handshake glued to and cut anywhere within the first messages",
        assumptions=["pauses are below, above and well above the read timeout; other lengths behave like one of those"]),
    "C18": dict(shards=8, maxprocs=1, tech="env", bounds="all sequences of 5 (thorough 7) events (choke, unchoke, keep-alive, have, bitfield, answer, 1.3 s of silence) from 3 starts with 1-3 pieces, 4 (thorough 5) events with pieces of 3 blocks, each continued by a good seed until complete; one stray block anywhere; 3 (4) events of which one (two) of 22 kinds of other messages",
        assumptions=["a request that is not answered for a second counts as timed out; while the client has not taken what was sent to it (it pauses) nothing is demanded of it"]),
    "C19": dict(shards=8, maxprocs=1, tech="env", bounds="4 starts x all sequences of 3 (thorough 4) of 6 events at 4 distances between 0 and 113.5 s, then 5 minutes of silence; 9 patterns of steady chatter at 10 rhythms for 11 minutes, choked and unchoked; 22 other kinds of messages in the same rhythms",
        assumptions=["writes of the client never block (a blocked write ends the session)"]),
    "C25": dict(shards=8, maxprocs=1, tech="env", bounds="every one-byte bitfield for 1-8 pieces and every bitfield (spare bits all or none) for 9-11 pieces (thorough: every two-byte bitfield for 9-16); every single bit and its complement for 21 piece counts up to 130, bitfields too short and too long; all sequences of 3 (thorough 4) of 10 haves and 4 bitfields for 4 piece counts, in 3 orders with the unchoke and the answers; the bitset never has pieces beyond the torrent; one (two) of 22 other messages among 3 announcements; one of 8 pieces of 12 (15) torrents of up to 70000 (200003) pieces, announced in 3 ways",
        assumptions=["a bitfield of the wrong length may be taken as malformed; a piece announced by a have and left out by a later bitfield may count as announced or not"]),
    "C04": dict(shards=8, maxprocs=1, tech="env", bounds="all piece lengths 1-6 (thorough 9) with totals 1-14 (24), one and two files, and 9 piece lengths around multiples of 128 KiB with 8 last pieces and 0-2 full ones, each with a seed that after 0-2 (4) answers goes silent, chokes, ends, refuses data, is late or corrupt; 10 huge geometries (up to 2^32-1 bytes per piece, 70000 pieces) with 5 pieces and up to 3 blocks; idle sessions with all pairs of 8 messages; our own id in the handshake over repeated starts; pieces of up to 40 MiB answered in full",
        assumptions=["reserved bytes of our own handshake are free"]),
    "C06": dict(shards=8, maxprocs=1, tech="env", bounds="19 message ids x payload lengths 0-20 (thorough 39) x 5 fillings x 7 session states; have, request, cancel and piece with 17 extreme numbers in each field; 104 length prefixes up to 2^32-1 that lie, x 7 amounts of data x 4 deliveries x 8 states; all pairs (thorough triples) of 38 messages in 8 states; torrents with huge pieces; floods of 10000 messages; 16 lengths x 6 contents x 3 deliveries x 3 ends instead of a handshake",
        assumptions=["memory is judged by the growth of the heap in a process of its own for every session whose allocations in total look suspicious: what is needed at once is at most 64 MiB plus 1024 times the bytes received, what is kept after floods at most 8 MiB plus 32 times"]),
    "C07": dict(shards=8, maxprocs=1, tech="sched", race=True, instr="pkg/download,pkg/peer,pkg/torrent", bounds="layouts of 1-3 files with 3-4 pieces: all sequences of 3 (thorough 4) answers, each right, damaged in 4 ways, truncated, extended, mislabelled (index or offset), another piece's data or unasked; every bit of every byte of every piece flipped; every one of the 160 bits of every listed hash flipped; pieces of two blocks with every block damaged, swapped, repeated or misplaced; the check of a piece alone, for every length and damage; two threads that check pieces of one or two torrents with up to 2 (4) preemptions; two peers of 4 x 8 (7 x 8) kinds with every step of the manager, the sessions and the writer delayed once, every write judged, with the race detector watching",
        assumptions=["whether data nobody asked for is stored or ignored is free as long as it is right"]),
    "C11": dict(shards=8, maxprocs=1, tech="sched", race=True, instr="pkg/download,pkg/peer,pkg/torrent", bounds="all sequences of n+1 (thorough n+2) claims with every set of advertised pieces for 1-3 pieces; 10 piece counts around machine words in 5 orders; all interleavings at statement level with up to 2 (thorough 3) preemptions of 2-3 peers with every set of advertised pieces that claim until nothing is left, under a race detector that is blind to the scheduler; whole downloads with two and three peers, every advertised set, 10 kinds of peers and pieces of several blocks, with 1 (thorough 2) delays, and requests that wait for others; two peers with 5-7 sets of pieces each in torrents of 255 to 70001 pieces",
        assumptions=["statements of pkg/torrent are atomic except that the read and the write of an assignment are separate; races below that are left to the race detector"]),
    "C12": dict(shards=8, tech="sched", race=True, instr="pkg/torrent", bounds="all sequences of 14 (thorough 18) reports and takes; up to 5000 waiting requests in bursts; all interleavings at statement level with up to 2 (thorough 3) preemptions of 2 threads running 9 programs and 3 threads running 4 (6) programs of up to 4 operations, with 0-2 requests waiting before, under a race detector that is blind to the scheduler; whole sessions of 3 (thorough 5) events of 10 kinds x number of waiting requests x advertised sets in two layouts",
        assumptions=["statements of pkg/torrent are atomic except that the read and the write of an assignment are separate; races below that are left to the race detector"]),
    "C13": dict(shards=8, maxprocs=1, tech="sched", race=True, instr="pkg/torrent", bounds="7 layouts of 1-3 pieces: all sequences of n+2 (thorough n+3) deliveries, each written, repeated, or failing (disk full or file closed) in any of the files it touches; all piece lengths 1-5 (8) with totals 1-12 (20) and 1-2 files in all orders of up to 4 pieces; 16 piece counts around machine words with every piece last; 8 real piece lengths with 9 last pieces; whole sessions with all sequences of 3 (4) answers of 6 kinds; all interleavings at statement level with up to 2 (3) preemptions of a writer and a reader, with up to 2 (3) delays of 1-2 writers, 1-2 readers and a recorder; 13 (15) torrents of up to 66001 (131073) pieces with one of 6 pieces last",
        assumptions=["a writer is handed whole pieces (that is what a session hands over)", "statements of pkg/torrent are atomic except that the read and the write of an assignment are separate; races below that are left to the race detector"]),
    "C24": dict(shards=8, maxprocs=1, tech="sched", race=True, instr="pkg/torrent,pkg/stats", bounds="all pairs of 76 sizes and 76 amounts (boundary values of 64 bits) in one or two parts at 4 times, with the display rendered; every amount of all sizes up to 300 (thorough 1200) at 4 scales; all sequences of 5 (6) reports of 8 kinds; 6 layouts with all sequences of n+2 (n+3) stored, repeated and failing pieces; all interleavings at statement level with up to 2 (3) preemptions of 2-3 updaters running 8 programs, of 2 updaters and a reader, and of a writer and a reader; the counters the Manager announces",
        assumptions=["statements of pkg/stats and pkg/torrent are atomic except that the read and the write of an assignment are separate; races below that are left to the race detector", "sums beyond 64 bits are not considered"]),
    "C20": dict(shards=8, maxprocs=1, tech="env", bounds="every field of both requests with 10 extreme values (all 256 values in the hash); replies in both phases: 10 actions x 8 transaction ids x lengths 0-44 (thorough 100), alone, or followed at once or later by the right one; 97 numbers of peers up to the largest datagram x 5 counters; every value of every byte of a peer; all sequences of 3 (4) announces answered in 12 ways; all sequences of 3 (5) announces of which any request cannot be sent, once or ever, with 3 errors",
        assumptions=["a reply whose peer bytes are no multiple of 6 may be refused or read up to the last whole peer; a connect reply longer than 16 bytes may be refused"]),
    "C21": dict(shards=8, maxprocs=1, tech="env", bounds="2 announces with each of 8 fates of every datagram (on time, slow, twice, a copy late, late, very late, lost, late error) and 7 gaps; 3 announces with 3 (thorough 6) gaps; 4 announces with 4 (5) fates and 2 gaps; up to 200 leftovers of 4 kinds before, during and after the connect phase; leftovers that keep coming; histories of 300 announces",
        assumptions=["in time means within 350 ms; an answer that comes later may or may not be used by the announce it belongs to"]),
    "C22": dict(shards=8, maxprocs=1, tech="env", bounds="every parameter with 8-12 extreme values, all 256 bytes in the hash, 13 tracker addresses; all lists of up to 3 (thorough 4) of 28 kinds of entries; 56 numbers of compact peers up to 20000 and every value of every byte; 6 statuses x all pairs of 8 keys absent or with one of 16 values, in both forms; every cut and 12 changes of every byte of 3 replies; 16 bodies that are no reply; 14 ways of transport x 60 cuts; all sequences of 3 (4) announces answered in 7 ways",
        assumptions=["what a reply without peers, with peers6, or with a mistyped known key yields is free as long as nothing crashes", "redirects are not considered"]),
    "C23": dict(shards=8, maxprocs=1, tech="sched", instr="pkg/download,pkg/tracker", bounds="one HTTP tracker with all sequences of 3 (thorough 4) of 15 replies and one UDP tracker with all of 10, followed by lasting success or lasting failure for up to 15 announces; two of 19 unusable or failing trackers around a good one, in every position; up to 5 HTTP and 5 UDP trackers in 3 arrangements with repetitions; the end at 90 (400) moments in 6 tracker behaviours; intervals of all powers of two up to 2^17 (thorough 2^19) s; deliveries while the pool is full; two UDP trackers in 4 patterns of failure with every step of the manager and the trackers delayed once (twice)",
        assumptions=["a pause counts as the interval if it is not shorter and at most 3 s longer; the default interval lies between one minute and two hours; retries are at most 10 and start within 10 s", "a tracker that accepts a connection and never answers is not failing"]),
    "C16": dict(shards=8, maxprocs=1, tech="sched", race=True, instr="pkg/download,pkg/stats", bounds="all sequences of 5 (thorough 6) additions of 5 addresses with limits 0-4; all interleavings at statement level with up to 2 (3) preemptions of 2 deliverers with 6 and 3 with 4 (6) overlapping lists and limits 0-3; a tracker delivering all sequences of 3 (4) of 5 lists with limits 0-3 to peers of 6 kinds; two trackers delivering 4 lists at once with limits 1-2 (3) to 3 kinds of peers with every step of the manager delayed once (twice); a peer that ends while it is delivered again, with 1 (thorough 2) delays anywhere and 4 (6) delays around that moment",
        assumptions=["statements of pkg/download and pkg/stats are atomic except that the read and the write of an assignment are separate; races below that are left to the race detector"]),
    "C14": dict(shards=8, maxprocs=1, tech="sched", instr="pkg/download,pkg/peer,pkg/torrent", bounds="65 behaviours of another peer (refusing, black holes, handshakes, silence, chokes, stalls, drips, floods, ends and resets at every message, wrong data of 7 kinds, late answers), alone with a seed of 9 kinds, in all pairs, in triples of 8 kinds (thorough 15) and 3-65 at a time, the seed arriving before, after or a minute later, over 6 layouts of 1-9 pieces with one or several files and pieces of one or several blocks; the same 65 faults on the first 1-3 connections to the seed; all sequences of 3 of 6 tracker failures; every step of manager, sessions and writer delayed once (thorough twice) with 9 behaviours x 3 arrivals x 2 layouts; tracker faults of two kinds in turn lasting for up to 23 (thorough 60) announces; a slow disk (1300 pieces, 1 ms to 20 s per write); a seed that says one or two of 24 harmless messages at 12 moments, once or repeatedly",
        assumptions=["a seed answers within half a second once it has unchoked the client, and the peer limit leaves room for it", "the other peers fail finitely often: the tracker names each of them up to three times", "finished means within 4 virtual hours"]),
    "C15": dict(shards=8, maxprocs=1, tech="sched", race=True, instr="pkg/download,pkg/peer,pkg/torrent,pkg/tracker", bounds="56 situations (seeds, 33 misbehaving peers, failing, silent, hanging and keep-alive trackers, nobody) stopped in 4 ways before each of the first 64 (thorough 160) network operations, at 56 moments up to 5 minutes with 2 peer limits, and before the start; 8 situations stopped in 3 ways at every step of manager, sessions, writer and trackers (thorough: with one later delay); a download of two pieces stopped in 3 ways at every step and then every later step delayed once (thorough twice), under a race detector that is blind to the scheduler; the same on a slow disk, and no write after the return",
        assumptions=["within seconds means 12 s of virtual time plus the time the disk needs for what is queued", "a piece counts as verified once the client asks the same peer for more after having taken its data", "statements are atomic except that the read and the write of an assignment are separate; races below that are left to the race detector"]),
    "C26": dict(shards=8, tech="inputs", binary=True, bounds="55 files (good, missing, no torrents, malformed, every 24th cut, hostile and inconsistent) with the bencode command, 8 of them (thorough all) with all combinations of 10 levels, 6 formats, 3 spellings and 2 places of the log flags; the same files with 6 output directories, 5 log and 3 number flags refused by the download command; 21 other command lines; 6 config files x 3 default config files; complete downloads over the loopback interface with all 7 x 4 levels and formats; downloads interrupted by 2 signals in 3 situations; printed metadata with all 128 combinations of keys; port and number of peers as given; unknown levels and formats; torrent files of 10 (13) sizes from 4 KiB to 8 (32) MiB and one byte around, made of 4 things, whole and cut, printed and downloaded",
        assumptions=["the program is run for real, in its own scratch directory and with loopback network only", "the version and help commands do not look at the log flags", "whether a broken default config file is an error is free"]),
    "C27": dict(shards=8, bounds="37 base types under all sequences of up to 2 (thorough 3) of 5 wrappings (pointer, slice, map, struct, struct with optional fields) x 66 values wrapped alike or one step off; all structs of 1-2 (3) fields of 9 types with 9 tags, all subsets of keys in both orders, empty or prefilled, unexported fields, unknown keys, text after the value; recursive structs up to a million levels; 17 targets x 12 inputs",
        assumptions=["numeric text for an integer field, an integer for a string or byte slice, pointers to pointers, named string types as map keys, named byte types as elements, a struct without tags for another kind of value and repeated keys are free as long as nothing crashes"]),
    "C28": dict(shards=8, maxprocs=1, tech="env", bounds="3 (thorough 4) layouts from a seed of 3 paces with 66 kinds of other peers, 3 sets of trackers and 2 announce intervals; all sequences of 3 (4) outcomes of the later announces out of 6 kinds with 3 sets of trackers; the first to seventh write failing once, twice or for good after 3 amounts of bytes, 4 layouts, 1-2 seeds, 3 sets of trackers; 26 sizes from 1 byte to 64 GiB in 1-3 files with 6 ports",
        assumptions=["what is stored at the very moment of an announce, or between the two packets of a UDP announce, may be counted or not", "the event of an announce is free"]),
    "C29": dict(shards=8, maxprocs=1, tech="env", race=True, bounds="3 first and 4 second torrents (the last is the first one again), UDP and HTTP, 5 (thorough 66) other peers, the second starting at 4 moments up to 400 s, the first ending by itself, cancelled or stopped at 4 moments, two directories or one",
        assumptions=["two connections to one peer, one of each download, are right"]),
    "C30": dict(shards=8, maxprocs=1, tech="env", bounds="a download that cannot complete, watched for three times 12 (thorough 40) minutes with an announce each: 65 kinds of peers x 5 (12) others and a half seed x 3 kinds of trackers x 2 limits x pieces of one or three blocks, and with an announce every 2 s; all pairs of 17 kinds of trackers x 3 peers; lists of 50, 500 and 3000 peers of 5 kinds x 3 trackers x 2 limits",
        assumptions=["what is held for good is the least seen in a period; it may grow by 512 bytes per minute and by less than one activity, file or connection per four minutes, and more than that only if it stops growing within three more periods"]),
    "C31": dict(shards=8, maxprocs=1, tech="sched", instr="pkg/download,pkg/peer,pkg/torrent", bounds="every way to spread 3 pieces over 2 peers x 7 x 7 ways to announce them x 7 (thorough 21) faults, and x all pairs of 21 faults on the first or the first two connections; over 3 peers x 3 ways x pairs of 7 faults (thorough 4 pieces); pieces of up to three blocks x 33 x 7 (33) faults; 20 pieces over 1-6 peers in 4 patterns; every step of manager, sessions and writer delayed once for 3 spreads x 6 faults (thorough twice for 5 x 7 x 3 ways)",
        assumptions=["each peer fails on its first or first two connections only, and the tracker names all of them every minute", "the peer limit has room for all", "finished means within 4 virtual hours"]),
}
