From 0c6cc4596d191692a0afa215bccd5b44a7201327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:14 +0000
Subject: [PATCH 01/34] fix: bencode numbers must have digits and fit in 64
 bits, negative ones included

---
 pkg/bencode/parse.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index f6a6ec3..bba9f01 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -2,6 +2,7 @@ package bencode
 
 import (
 	"errors"
+	"math"
 	"unsafe"
 )
 
@@ -9,6 +10,7 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNumber       = errors.New("number invalid")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -90,14 +92,33 @@ func (s scanner) isDigit() bool {
 }
 
 func (s *scanner) number() (int, error) {
+	n, err := s.negativeNumber()
+	if err != nil {
+		return 0, err
+	}
+	if n < -math.MaxInt {
+		return 0, ErrNumber
+	}
+
+	return -n, nil
+}
+
+// negativeNumber reads digits and returns the number they stand for negated,
+// as the negative range is the larger one.
+func (s *scanner) negativeNumber() (int, error) {
+	if !s.isDigit() {
+		return 0, ErrNumber
+	}
+
 	n := 0
 	for s.isDigit() {
 		d := int(s.peek() - '0')
-		n += d
-		n *= 10
+		if n < (math.MinInt+d)/10 {
+			return 0, ErrNumber
+		}
+		n = n*10 - d
 		s.advance()
 	}
-	n /= 10
 
 	s.position()
 	return n, nil
@@ -107,7 +128,11 @@ func (s *scanner) readInt() (IntElement, error) {
 	s.advance()
 	s.position()
 
-	n, err := s.number()
+	number := s.number
+	if s.match('-') {
+		number = s.negativeNumber
+	}
+	n, err := number()
 	if err != nil {
 		return 0, err
 	}
@@ -127,11 +152,11 @@ func (s *scanner) readString() (string, error) {
 	if !s.match(':') {
 		return "", ErrColonMissing
 	}
-	s.current += length
 	// we need to check if we are trying to read beyond string length.
-	if s.current > len(s.bencode) {
+	if length > len(s.bencode)-s.current {
 		return "", ErrStringLength
 	}
+	s.current += length
 
 	strElement := b2s(s.read())
 	s.position()
-- 
2.43.0


From 589ece226fd6235642174791501432eab8620118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:14 +0000
Subject: [PATCH 02/34] fix: refuse bencode nested so deep that decoding
 overflows the stack

---
 pkg/bencode/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index bba9f01..7ea5ced 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -11,8 +11,13 @@ var (
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
 	ErrNumber       = errors.New("number invalid")
+	ErrDepth        = errors.New("elements nested too deep")
 )
 
+// maxDepth limits how deep lists and dictionaries may be nested, so that
+// hostile input can not exhaust the stack.
+const maxDepth = 10000
+
 func Parse(data []byte) (Bencode, error) {
 	sc := newScanner(data)
 	return sc.Parse()
@@ -21,6 +26,7 @@ func Parse(data []byte) (Bencode, error) {
 type scanner struct {
 	start   int
 	current int
+	depth   int
 	bencode []byte
 }
 
@@ -40,6 +46,12 @@ func (s *scanner) Parse() (Bencode, error) {
 }
 
 func (s *scanner) Next() (Bencode, error) {
+	s.depth++
+	defer func() { s.depth-- }()
+	if s.depth > maxDepth {
+		return nil, ErrDepth
+	}
+
 	switch s.peek() {
 	case 'l':
 		return s.readList()
-- 
2.43.0


From 80818a2bdd4b0718241a0702db1fa8267979763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:14 +0000
Subject: [PATCH 03/34] fix: encode and print bencode dictionaries in key order

---
 pkg/bencode/elements.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/elements.go b/pkg/bencode/elements.go
index d271592..da62945 100644
--- a/pkg/bencode/elements.go
+++ b/pkg/bencode/elements.go
@@ -1,6 +1,7 @@
 package bencode
 
 import (
+	"sort"
 	"strconv"
 )
 
@@ -72,7 +73,8 @@ func (bencode DictElement) String() string {
 
 func (bencode DictElement) Encode() string {
 	encoded := "d"
-	for k, v := range bencode.value {
+	for _, k := range bencode.keys() {
+		v := bencode.value[k]
 		if v == nil {
 			continue
 		}
@@ -91,13 +93,24 @@ func (bencode DictElement) Raw() []byte {
 	return bencode.raw
 }
 
+// keys returns dictionary keys in ascending byte order.
+func (bencode DictElement) keys() []string {
+	keys := make([]string, 0, len(bencode.value))
+	for k := range bencode.value {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func prettyPrint(bencode Bencode, tabs string) string {
 	switch value := bencode.(type) {
 	case DictElement:
 		tabs = addTab(tabs)
 		data := "{" + newLine(tabs)
 
-		for k, v := range value.value {
+		for _, k := range value.keys() {
+			v := value.value[k]
 			if v == nil {
 				continue
 			}
-- 
2.43.0


From 0a9377e020fa285cfbcdf78e9ac69bb3e9f8db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:27 +0000
Subject: [PATCH 04/34] fix: decoding a torrent file that is not a dictionary
 returns an error

---
 pkg/bencode/tag_parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 412f82b..8d0d0d0 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -71,7 +71,11 @@ func processTarget(target interface{}, bencode Bencode) error {
 
 		dict, ok := bencode.(*DictElement)
 		if !ok {
-			panic("bencode internal: bencode element not *DictElement")
+			return &TypeError{
+				ElementName: val.Type().Name(),
+				FieldType:   val.Type().String(),
+				BencodeType: reflect.TypeOf(bencode).String(),
+			}
 		}
 		value := dict.Value(tagName)
 		if value == nil && !optional {
-- 
2.43.0


From f4a1a62de695a48d423950ac2ec8efc8c71f450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 05/34] fix: refuse lists and dictionaries where a torrent file
 must have a string

---
 pkg/bencode/tag_parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 8d0d0d0..426d1e9 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -106,6 +106,14 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 
 	switch ftype.Kind() {
 	case reflect.String:
+		switch value.(type) {
+		case *ListElement, *DictElement:
+			return &TypeError{
+				ElementName: fieldName,
+				FieldType:   f.Type().String(),
+				BencodeType: reflect.TypeOf(value).String(),
+			}
+		}
 		f.SetString(value.String())
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		vali, err := strconv.ParseInt(value.String(), 0, ftype.Bits())
-- 
2.43.0


From 8ce02b5c74736710c39dc7717f414bfd0d04fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 06/34] fix: create files of a torrent at their full relative
 path

---
 pkg/torrent/torrent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 6d13ff5..0f4683b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -148,7 +148,11 @@ func (t *Torrent) initDownloadDir(root string) error {
 		}
 
 		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.Path[0]))
+			filePath := filepath.Join(append([]string{path}, tf.Path...)...)
+			if err := os.MkdirAll(filepath.Dir(filePath), os.ModePerm); err != nil {
+				return err
+			}
+			filePaths = append(filePaths, filePath)
 		}
 	} else {
 		filePaths = append(filePaths, path)
-- 
2.43.0


From a6cdd544e4541e8d20e3a556bacf6664a314863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:49 +0000
Subject: [PATCH 07/34] fix: refuse torrents whose name or file paths lead
 outside the download directory

---
 pkg/torrent/torrent.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 0f4683b..d850507 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -4,9 +4,11 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"errors"
+	"fmt"
 	"math"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/anivanovic/gotit/pkg/stats"
@@ -139,7 +141,31 @@ func (t *Torrent) Done() bool {
 	return t.downloaded.All()
 }
 
+// checkPath returns an error unless path names a file below the directory it
+// is relative to.
+func checkPath(path ...string) error {
+	if len(path) == 0 {
+		return errors.New("torrent file without a path")
+	}
+	for _, name := range path {
+		if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/\x00") ||
+			strings.ContainsRune(name, filepath.Separator) {
+			return fmt.Errorf("invalid torrent file path: %q", path)
+		}
+	}
+	return nil
+}
+
 func (t *Torrent) initDownloadDir(root string) error {
+	if err := checkPath(t.Name); err != nil {
+		return err
+	}
+	for _, tf := range t.TorrentFiles {
+		if err := checkPath(tf.Path...); err != nil {
+			return err
+		}
+	}
+
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
 	if t.IsDirectory {
-- 
2.43.0


From 1b756058b9f7e631df64227262b8c92160308229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:58 +0000
Subject: [PATCH 08/34] fix: refuse torrents with inconsistent lengths and
 number of pieces

---
 pkg/torrent/torrent.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index d850507..7dd90a6 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -96,12 +96,21 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 
 		var completeLength = 0
 		for _, file := range files {
+			if file.Length < 0 || completeLength > math.MaxInt-file.Length {
+				return nil, errors.New("invalid torrent file length")
+			}
 			completeLength += file.Length
 		}
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
-	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	if t.PieceLength <= 0 || t.Length <= 0 {
+		return nil, errors.New("invalid torrent length or piece length")
+	}
+	t.PiecesNum = (t.Length-1)/t.PieceLength + 1
+	if t.PiecesNum != len(t.Pieces) {
+		return nil, fmt.Errorf("torrent has %d pieces but %d piece hashes", t.PiecesNum, len(t.Pieces))
+	}
 	t.requested = bitset.New(uint(t.PiecesNum))
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
-- 
2.43.0


From 07a19a99387c6b69444a7cb66f8a5fab01bfc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:06 +0000
Subject: [PATCH 09/34] fix: put index, offset and length of a request at their
 own places

---
 pkg/util/peer_message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4cdf1de..44313b5 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -187,8 +187,8 @@ func createHaveMessage(index uint32) *PeerMessage {
 func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := &PeerMessage{
 		len:         13,
@@ -205,8 +205,8 @@ func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := PeerMessage{
 		len:         13,
-- 
2.43.0


From c9a86f036e744b92724517f912607ca66e6340df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:06 +0000
Subject: [PATCH 10/34] fix: messages from a peer that are too short for their
 type do not panic

---
 pkg/util/peer_message.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 44313b5..b99f5f5 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -21,6 +21,10 @@ const (
 	PieceMessageType
 	CancelMessageType
 
+	// MalformedMessageType is used for messages too short for their type.
+	// It is never sent.
+	MalformedMessageType MessageType = 98
+
 	// KeepaliveMessageType has only length without type.
 	// This is fake type which is never actually used.
 	KeepaliveMessageType MessageType = 99
@@ -61,6 +65,10 @@ func NewPeerMessage(data []byte) *PeerMessage {
 		payload: data[1:],
 	}
 	data = msg.payload
+	if len(data) < minPayloadLen(msg.Type) {
+		msg.Type = MalformedMessageType
+		return msg
+	}
 
 	// set additional message data for these message types
 	switch msg.Type {
@@ -80,6 +88,20 @@ func NewPeerMessage(data []byte) *PeerMessage {
 	return msg
 }
 
+// minPayloadLen returns how long payload of message type is at least.
+func minPayloadLen(t MessageType) int {
+	switch t {
+	case HaveMessageType:
+		return 4
+	case RequestMessageType, CancelMessageType:
+		return 12
+	case PieceMessageType:
+		return 8
+	default:
+		return 0
+	}
+}
+
 func (m PeerMessage) Send(w io.Writer) (int, error) {
 	// TODO: cache buffer object in a pool
 	buf := &bytes.Buffer{}
-- 
2.43.0


From 41fe3485d7c74b8454f96816170ce12a5e92cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:06 +0000
Subject: [PATCH 11/34] fix: keep partially received peer messages over a
 timeout, set aside memory as data arrives

---
 pkg/gotitnet/connection.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 2c31b3c..76b5041 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -22,8 +22,13 @@ type TimeoutConn struct {
 	// Timeout used when reading or writing on
 	// this connection.
 	timeout time.Duration
+	// Bytes of a message which has not been read completely yet.
+	pending []byte
 }
 
+// readChunk limits how much memory is set aside before any data is received.
+const readChunk = 32 * 1024
+
 func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutConn, error) {
 	conn, err := net.DialTimeout(network, address, DialTimeout)
 	if err != nil {
@@ -48,18 +53,21 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 		return nil, err
 	}
 
-	return c.readExactly(size)
+	msg, err := c.readExactly(4 + size)
+	if err != nil {
+		return nil, err
+	}
+	return msg[4:], nil
 }
 
 // readPeerMessageSize returns next peer message size by reading first 4
-// bytes from socket.
+// bytes from socket. They stay pending until the whole message is read.
 func (c *TimeoutConn) readPeerMessageSize() (int, error) {
-	buf, err := c.readExactly(4)
-	if err != nil {
+	if err := c.fill(4); err != nil {
 		return 0, err
 	}
 
-	return int(binary.BigEndian.Uint32(buf)), nil
+	return int(binary.BigEndian.Uint32(c.pending)), nil
 }
 
 // ReadPeerHandshake reads peer handshake message from socket.
@@ -108,13 +116,28 @@ func (c *TimeoutConn) Close() error {
 }
 
 func (c *TimeoutConn) readExactly(len int) ([]byte, error) {
-	buf := make([]byte, len)
-	if _, err := io.ReadFull(c.c, buf); err != nil {
+	if err := c.fill(len); err != nil {
 		return nil, err
 	}
+	buf := c.pending
+	c.pending = nil
 	return buf, nil
 }
 
+// fill reads until size bytes are pending. Bytes received before an error,
+// which can be a timeout in the middle of a message, stay pending.
+func (c *TimeoutConn) fill(size int) error {
+	for len(c.pending) < size {
+		buf := make([]byte, min(size-len(c.pending), readChunk))
+		n, err := io.ReadFull(c.c, buf)
+		c.pending = append(c.pending, buf[:n]...)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *TimeoutConn) setReadDeadline() error {
 	return c.c.SetReadDeadline(time.Now().Add(c.timeout))
 }
-- 
2.43.0


From 87b9122a9552a4cd2e8386d87dc35d87bce52a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:30 +0000
Subject: [PATCH 12/34] fix: a piece with an index the torrent does not have
 fails the check instead of crashing

---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 7dd90a6..c30b92a 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -205,6 +205,10 @@ func (t *Torrent) initDownloadDir(root string) error {
 }
 
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
+	if index < 0 || index >= len(t.Pieces) {
+		return false
+	}
+
 	hasher := sha1.New()
 	hasher.Write(data)
 	hash := hasher.Sum(nil)
-- 
2.43.0


From 14dc06fd4a66ac473202d1ff17fab100b4f1e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:30 +0000
Subject: [PATCH 13/34] fix: mark the shorter last piece as downloaded

---
 pkg/torrent/torrent.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index c30b92a..bf40503 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -229,7 +229,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 			continue
 		}
 
-		if int(msg.Offset())+len(msg.Data()) == t.PieceLength {
+		if end := int(msg.Offset()) + len(msg.Data()); end == t.PieceLength || end == t.PieceSize(uint(msg.Index())) {
 			t.SetDownloaded(uint(msg.Index()))
 		}
 	}
@@ -287,6 +287,14 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 	return nil
 }
 
+// PieceSize returns length of the piece, the last one can be shorter than others.
+func (t *Torrent) PieceSize(index uint) int {
+	if rest := t.Length - int(index)*t.PieceLength; rest < t.PieceLength {
+		return rest
+	}
+	return t.PieceLength
+}
+
 func (t *Torrent) BlockNum() int {
 	return t.numOfBlocks
 }
-- 
2.43.0


From 7ed7ad62b0dee31ac07b2e46c5c871d8366831dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:30 +0000
Subject: [PATCH 14/34] fix: count downloaded bytes once and only after they
 are written

---
 pkg/torrent/torrent.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index bf40503..f785bc5 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -128,6 +128,13 @@ func (t *Torrent) SetDownloaded(pieceIndx uint) {
 	t.downloaded.Set(pieceIndx)
 }
 
+func (t *Torrent) isDownloaded(pieceIndx uint) bool {
+	t.downloadedMu.Lock()
+	defer t.downloadedMu.Unlock()
+
+	return t.downloaded.Test(pieceIndx)
+}
+
 func (t *Torrent) Next(have *bitset.BitSet) (uint, bool) {
 	t.requestedMu.Lock()
 	defer t.requestedMu.Unlock()
@@ -219,7 +226,6 @@ func (t *Torrent) CheckPiece(data []byte, index int) bool {
 func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Stats) {
 	for msg := range piecesCh {
 		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
-		stats.AddDownload(uint64(len(msg.Data())))
 
 		if err := t.writePieceData(msg.Data(), piecePoss); err != nil {
 			t.logger.Error("Failed to write piece",
@@ -228,6 +234,9 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 				zap.Error(err))
 			continue
 		}
+		if !t.isDownloaded(uint(msg.Index())) {
+			stats.AddDownload(uint64(len(msg.Data())))
+		}
 
 		if end := int(msg.Offset()) + len(msg.Data()); end == t.PieceLength || end == t.PieceSize(uint(msg.Index())) {
 			t.SetDownloaded(uint(msg.Index()))
-- 
2.43.0


From 574a339a962f2768e9419bbac68e9abe913ab53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:30 +0000
Subject: [PATCH 15/34] fix: left bytes and percentage stay in range, 100
 percent only when nothing is left

---
 pkg/stats/stats.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index 8a599b8..33c3a63 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -14,7 +14,6 @@ type Stats struct {
 
 	download   uint64
 	upload     uint64
-	left       uint64
 	peerNum    uint64
 	trackerNum uint64
 }
@@ -25,7 +24,6 @@ func NewStats(torrentSize uint64) *Stats {
 		torrentSize: torrentSize,
 		download:    0,
 		upload:      0,
-		left:        torrentSize,
 		peerNum:     0,
 		trackerNum:  0,
 	}
@@ -33,7 +31,6 @@ func NewStats(torrentSize uint64) *Stats {
 
 func (ts *Stats) AddDownload(size uint64) {
 	atomic.AddUint64(&ts.download, size)
-	atomic.AddUint64(&ts.left, -size)
 }
 
 func (ts *Stats) AddUpload(size uint64) {
@@ -49,7 +46,11 @@ func (ts *Stats) Upload() uint64 {
 }
 
 func (ts *Stats) Left() uint64 {
-	return atomic.LoadUint64(&ts.left)
+	download := ts.Download()
+	if download >= ts.torrentSize {
+		return 0
+	}
+	return ts.torrentSize - download
 }
 
 func (ts *Stats) Speed() float64 {
@@ -82,9 +83,14 @@ func (ts *Stats) TrackerNum() uint64 {
 }
 
 func (ts *Stats) PercentCompleted() int {
-	if ts.torrentSize == 0 || ts.Download() == 0 {
+	download := ts.Download()
+	if ts.torrentSize == 0 || download == 0 {
 		return 0
 	}
+	if download >= ts.torrentSize {
+		return 100
+	}
 
-	return int(math.Round((float64(ts.Download()) / float64(ts.torrentSize)) * 100.0))
+	percent := int(math.Round((float64(download) / float64(ts.torrentSize)) * 100.0))
+	return min(percent, 99)
 }
-- 
2.43.0


From 072e840e5386cb4cfceb4560373c7b7c40557ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 16/34] fix: read bitfield messages highest bit first and
 ignore pieces the torrent does not have

---
 pkg/peer/peer.go         |  7 ++++++-
 pkg/util/peer_message.go | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index fa27faf..612e0a3 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -333,9 +333,14 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 	case util.BitfieldMessageType:
 		p.logger.Debug("Peer sent bitfield message", zap.Int("peerId", p.Id))
 		p.Bitset = message.Bitfield()
+		if p.torrent != nil {
+			p.Bitset = message.Pieces(uint(p.torrent.PiecesNum))
+		}
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
-		p.Bitset.Set(uint(message.Index()))
+		if p.torrent == nil || int(message.Index()) < p.torrent.PiecesNum {
+			p.Bitset.Set(uint(message.Index()))
+		}
 	case util.InterestedMessageType:
 		p.logger.Debug("Peer sent interested message", zap.Int("peerId", p.Id))
 		p.PeerStatus.Interested = true
diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index b99f5f5..0c28809 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -144,6 +144,20 @@ func (m PeerMessage) Bitfield() *bitset.BitSet {
 	return createBitset(m.payload)
 }
 
+// Pieces returns which of the first piecesNum pieces are set in bitfield
+// message. Highest bit in first byte stands for the first piece.
+func (m PeerMessage) Pieces(piecesNum uint) *bitset.BitSet {
+	if m.Type != BitfieldMessageType {
+		return nil
+	}
+
+	set := bitset.New(piecesNum)
+	for i := uint(0); i < piecesNum && i/8 < uint(len(m.payload)); i++ {
+		set.SetTo(i, m.payload[i/8]&(0x80>>(i%8)) != 0)
+	}
+	return set
+}
+
 func createBitset(payload []byte) *bitset.BitSet {
 	if rem := len(payload) % 8; rem != 0 {
 		payload = append(payload, make([]byte, 8-rem)...)
-- 
2.43.0


From 8bfd4cef83b738811f0204239207138c2b3c5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 17/34] fix: close connection of a peer that fails the
 handshake

---
 pkg/peer/peer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 612e0a3..74c31d5 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -130,11 +130,16 @@ func (p *Peer) connect() error {
 	return nil
 }
 
-func (p *Peer) Announce(torrent *torrent.Torrent) error {
-	err := p.connect()
+func (p *Peer) Announce(torrent *torrent.Torrent) (err error) {
+	err = p.connect()
 	if err != nil {
 		return fmt.Errorf("peer connect: %w", err)
 	}
+	defer func() {
+		if err != nil {
+			_ = p.Close()
+		}
+	}()
 
 	if _, err := p.send(createHandshake(torrent.Hash)); err != nil {
 		return fmt.Errorf("peer handshake: %w", err)
@@ -303,6 +308,9 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 }
 
 func (p *Peer) Close() error {
+	if p.conn == nil {
+		return nil
+	}
 	return p.conn.Close()
 }
 
-- 
2.43.0


From a9e662f3ad15a1ad82e3e121fcc1cc20337c2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:07 +0000
Subject: [PATCH 18/34] fix: request only claimed pieces and only bytes inside
 of a piece

---
 pkg/peer/peer.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 74c31d5..e64ec85 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -77,12 +77,16 @@ func isHandshakeValid(handshake, hash, peerId []byte) bool {
 
 func (p *Peer) createPieceMessage() *util.PeerMessage {
 	beginOffset := p.blockIdx * torrent.BlockLength
-	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(torrent.BlockLength))
+	length := torrent.BlockLength
+	if p.torrent != nil {
+		length = min(length, uint(p.torrent.PieceSize(p.pieceIdx))-beginOffset)
+	}
+	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(length))
 
 	p.logger.Debug("created piece request",
 		zap.Uint("piece", p.pieceIdx),
 		zap.Uint("offset", beginOffset),
-		zap.Uint("length", torrent.BlockLength),
+		zap.Uint("length", length),
 	)
 
 	p.blockIdx++
@@ -109,7 +113,7 @@ func NewPeer(
 		lastMsgSent:  time.Now(),
 		logger:       logger.With(zap.String("ip", ip.String())),
 		blockIdx:     uint(0),
-		blockNum:     uint(t.PieceLength) / torrent.BlockLength,
+		blockNum:     blocks(t.PieceLength),
 		piecesQueue:  piecesQueue,
 		writeCh:      writeCh,
 		piecesSource: t,
@@ -287,7 +291,7 @@ func (p *Peer) Run(ctx context.Context) {
 }
 
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
-	if p.blockIdx >= p.blockNum {
+	if p.blockIdx == 0 || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
 		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
@@ -300,13 +304,26 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 			return nil
 		}
 
-		p.blockIdx = 0
-		p.pieceIdx = indx
+		p.startPiece(indx)
 	}
 
 	return p.createPieceMessage()
 }
 
+// startPiece makes piece the one which is downloaded from the peer.
+func (p *Peer) startPiece(index uint) {
+	p.blockIdx = 0
+	p.pieceIdx = index
+	if p.torrent != nil {
+		p.blockNum = blocks(p.torrent.PieceSize(index))
+	}
+}
+
+// blocks returns in how many blocks piece is requested.
+func blocks(pieceSize int) uint {
+	return (uint(pieceSize) + torrent.BlockLength - 1) / torrent.BlockLength
+}
+
 func (p *Peer) Close() error {
 	if p.conn == nil {
 		return nil
-- 
2.43.0


From 399f4689c514d1305eb5271706205f8ea4b2267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:07 +0000
Subject: [PATCH 19/34] fix: remember that peer was told we are interested,
 without it nothing is requested

---
 pkg/peer/peer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index e64ec85..7ba2cc8 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -416,8 +416,12 @@ func (p *Peer) SendUnchoke() error {
 }
 
 func (p *Peer) SendInterested() error {
-	_, err := p.sendMessage(util.CreateInterestedMessage())
-	return err
+	if _, err := p.sendMessage(util.CreateInterestedMessage()); err != nil {
+		return err
+	}
+
+	p.ClientStatus.Interested = true
+	return nil
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-- 
2.43.0


From edbd93546592a90cf61a3539b98856d29c49a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:35 +0000
Subject: [PATCH 20/34] fix: peer session requests piece after piece, assembles
 blocks and gives back unfinished pieces

One request was ever sent, pieces longer than a block never passed the hash
check, a failed request was lost when session ended or answered late, closed
connections were retried forever and messages were not read while idle.
---
 pkg/peer/peer.go | 197 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 146 insertions(+), 51 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 7ba2cc8..29689f1 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
+	"net"
 	"net/netip"
 	"time"
 
@@ -24,6 +25,9 @@ var (
 	clientIdPrefix  = [8]byte{'-', 'G', 'O', '0', '1', '0', '0', '-'}
 )
 
+// requestTimeout is how long peer has to answer a request.
+const requestTimeout = 30 * time.Second
+
 type PiecesSource interface {
 	Next(bitset *bitset.BitSet) (uint, bool)
 }
@@ -52,6 +56,14 @@ type Peer struct {
 	pieceIdx uint
 	blockNum uint
 
+	// first request of the piece which is downloaded from the peer
+	pieceReq *util.PeerMessage
+	// request the peer did not answer yet and when it was sent
+	request     *util.PeerMessage
+	requestSent time.Time
+	// blocks of the piece received so far
+	pieceData []byte
+
 	writeCh chan<- *util.PeerMessage
 }
 
@@ -179,18 +191,14 @@ func (p *Peer) unchoke(ctx context.Context) error {
 		}
 
 		if err := p.SendInterested(); err != nil {
-			d := b.Duration()
-			p.logger.Warn("peer: failed to send interested message. retrying",
-				zap.Duration("backoff", d),
-				zap.Error(err))
-			if wait(ctx, d) != nil {
-				return ctx.Err()
-			}
-			continue
+			return err
 		}
 
 		message, err := p.conn.ReadPeerMessage()
 		if err != nil {
+			if !isTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: error reading peer message. retrying",
 				zap.Duration("backoff", d),
@@ -202,12 +210,15 @@ func (p *Peer) unchoke(ctx context.Context) error {
 		}
 
 		peerMessage := util.NewPeerMessage(message)
-		p.handlePeerMessage(peerMessage)
-
-		return nil
+		return p.handlePeerMessage(peerMessage)
 	}
 }
 
+func isTimeout(err error) bool {
+	var netErr net.Error
+	return errors.As(err, &netErr) && netErr.Timeout()
+}
+
 func wait(ctx context.Context, sleepDuration time.Duration) error {
 	select {
 	case <-ctx.Done():
@@ -219,8 +230,9 @@ func wait(ctx context.Context, sleepDuration time.Duration) error {
 
 // Run communicates with remote peer and downloads torrent pieces.
 func (p *Peer) Run(ctx context.Context) {
-	var requestMsg *util.PeerMessage
-	sentPieceMsg := false
+	b := newDefaultBackoff()
+	// someone else has to download piece we did not finish
+	defer p.dropPiece()
 
 	for {
 		// check if canceled
@@ -239,62 +251,78 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 
 		if p.ClientStatus.Choked {
+			if p.request != nil {
+				// peer will not answer our request
+				p.dropPiece()
+				if err := wait(ctx, b.Duration()); err != nil {
+					return
+				}
+			}
+
 			if err := p.unchoke(ctx); err != nil {
 				p.logger.Warn("peer: failed to unchoke peer", zap.Error(err))
 				return
 			}
 		}
 
-		b := newDefaultBackoff()
-		if !p.ClientStatus.Choked && p.ClientStatus.Interested && !sentPieceMsg {
-			requestMsg = p.nextRequestMessage()
-			if requestMsg == nil {
-				if err := wait(ctx, time.Second*2); err != nil {
+		if !p.ClientStatus.Choked && p.ClientStatus.Interested && p.request == nil {
+			if requestMsg := p.nextRequestMessage(); requestMsg != nil {
+				p.request = requestMsg
+				p.requestSent = time.Now()
+				if _, err := p.sendMessage(requestMsg); err != nil {
+					p.logger.Warn("Error requesting piece", zap.Error(err))
 					return
 				}
-
-				continue
-			}
-
-			if _, err := p.sendMessage(requestMsg); err != nil {
-				p.piecesQueue.RequestFailed(requestMsg)
-				d := b.Duration()
-				p.logger.Warn("Error requesting piece. Retrying",
-					zap.Duration("backoff", d),
-					zap.Error(err))
-				if err := wait(ctx, d); err != nil {
-					return
-				}
-				continue
 			}
+		}
 
-			b.Reset()
-			sentPieceMsg = true
+		if p.request != nil && time.Since(p.requestSent) >= requestTimeout {
+			p.logger.Warn("peer: request timed out", zap.Uint32("piece", p.request.Index()))
+			return
 		}
 
 		response, err := p.conn.ReadPeerMessage()
 		if err != nil {
-			if sentPieceMsg {
-				p.piecesQueue.RequestFailed(requestMsg)
-				sentPieceMsg = false
-			}
-			d := b.Duration()
-			if err := wait(ctx, d); err != nil {
-				return
+			if isTimeout(err) {
+				continue
 			}
-			continue
+			p.logger.Warn("peer: error reading peer message", zap.Error(err))
+			return
 		}
-		b.Reset()
 
-		p.handlePeerMessage(util.NewPeerMessage(response))
+		if err := p.handlePeerMessage(util.NewPeerMessage(response)); err != nil {
+			p.logger.Warn("peer: invalid message", zap.Error(err))
+			return
+		}
+		if p.pieceReq == nil {
+			b.Reset()
+		}
 	}
 }
 
+// dropPiece gives up piece which is downloaded from the peer and leaves it to others.
+func (p *Peer) dropPiece() {
+	if p.pieceReq != nil {
+		p.piecesQueue.RequestFailed(p.pieceReq)
+	}
+	p.endPiece()
+}
+
+func (p *Peer) endPiece() {
+	p.pieceReq = nil
+	p.request = nil
+	p.pieceData = nil
+	p.blockIdx = 0
+}
+
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
 	if p.blockIdx == 0 || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
-		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
+		if req := p.failedRequest(); req != nil {
+			p.startPiece(uint(req.Index()))
+			p.pieceReq = req
+			p.blockIdx = 1
 			return req
 		}
 
@@ -307,13 +335,36 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 		p.startPiece(indx)
 	}
 
-	return p.createPieceMessage()
+	msg := p.createPieceMessage()
+	if msg.Offset() == 0 {
+		p.pieceReq = msg
+	}
+	return msg
+}
+
+// failedRequest returns failed request of a piece which peer has.
+func (p *Peer) failedRequest() *util.PeerMessage {
+	var others []*util.PeerMessage
+	defer func() {
+		for _, req := range others {
+			p.piecesQueue.RequestFailed(req)
+		}
+	}()
+
+	for {
+		req := p.piecesQueue.FailedPieceMessage()
+		if req == nil || p.torrent == nil || p.Bitset.Test(uint(req.Index())) {
+			return req
+		}
+		others = append(others, req)
+	}
 }
 
 // startPiece makes piece the one which is downloaded from the peer.
 func (p *Peer) startPiece(index uint) {
 	p.blockIdx = 0
 	p.pieceIdx = index
+	p.pieceData = nil
 	if p.torrent != nil {
 		p.blockNum = blocks(p.torrent.PieceSize(index))
 	}
@@ -347,11 +398,11 @@ func (p *Peer) updateLastMsgSent() {
 	p.lastMsgSent = time.Now()
 }
 
-func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
+func (p *Peer) handlePeerMessage(message *util.PeerMessage) error {
 	// if keepalive wait 2 minutes and try again
 	if message.Type == util.KeepaliveMessageType {
 		p.logger.Debug("Peer sent keepalive")
-		return
+		return nil
 	}
 
 	switch message.Type {
@@ -384,7 +435,7 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.logger.Debug("Peer sent request message", zap.Int("peerId", p.Id))
 	case util.PieceMessageType:
 		p.logger.Debug("Peer sent piece message", zap.Int("peerId", p.Id))
-		p.handlePieceMessage(message)
+		return p.handlePieceMessage(message)
 	case util.CancelMessageType:
 		p.logger.Debug("Peer sent cancel message")
 	default:
@@ -392,6 +443,7 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 			zap.Int("peerId", p.Id),
 			zap.Int("msgCode", int(message.Type)))
 	}
+	return nil
 }
 
 func (p *Peer) sendMessage(msg *util.PeerMessage) (int, error) {
@@ -424,15 +476,58 @@ func (p *Peer) SendInterested() error {
 	return nil
 }
 
-func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
+func (p *Peer) handlePieceMessage(message *util.PeerMessage) error {
+	if p.torrent != nil {
+		piece, err := p.addBlock(message)
+		if piece == nil {
+			return err
+		}
+		message = piece
+	}
+
 	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
-		return
+		return errors.New("corrupted piece")
 	}
 
 	p.writeCh <- message
 	p.Bitset.Set(uint(message.Index()))
+	if p.pieceReq != nil && p.pieceReq.Index() == message.Index() {
+		p.endPiece()
+	}
+	return nil
+}
+
+// addBlock returns message with the whole piece once all of its blocks are received.
+// Blocks that were not requested are ignored.
+func (p *Peer) addBlock(block *util.PeerMessage) (*util.PeerMessage, error) {
+	index, offset, data := block.Index(), int(block.Offset()), block.Data()
+	if int(index) >= p.torrent.PiecesNum {
+		return nil, errors.New("block of a piece that does not exist")
+	}
+
+	size := p.torrent.PieceSize(uint(index))
+	if offset == 0 && len(data) == size {
+		return block, nil
+	}
+	if p.request == nil || p.request.Index() != index || int(p.request.Offset()) != offset {
+		return nil, nil
+	}
+	if len(data) != int(p.request.BlockLength()) {
+		return nil, errors.New("block has wrong length")
+	}
+
+	p.request = nil
+	p.pieceData = append(p.pieceData, data...)
+	if len(p.pieceData) < size {
+		return nil, nil
+	}
+
+	msg := []byte{byte(util.PieceMessageType)}
+	msg = binary.BigEndian.AppendUint32(msg, index)
+	msg = binary.BigEndian.AppendUint32(msg, 0)
+	return util.NewPeerMessage(append(msg, p.pieceData...)), nil
 }
 
 func createHandshake(hash []byte) []byte {
-- 
2.43.0


From 95a25eb0110658b61a326339c2bebbc254574881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:15 +0000
Subject: [PATCH 21/34] fix: keep at most the configured number of peers and
 forget those that ended

Connecting to one peer no longer holds up the others.
---
 pkg/download/manager.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 2bf5576..f2d4ea2 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -146,6 +146,15 @@ func (m *Manager) announceToTracker(ctx context.Context, t gotit.Tracker) ([]net
 }
 
 func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
+	m.wg.Add(1)
+	go func() {
+		defer m.wg.Done()
+		defer m.removePeer(peer)
+		m.runPeer(ctx, peer)
+	}()
+}
+
+func (m *Manager) runPeer(ctx context.Context, peer *peer.Peer) {
 	err := retry.Do(
 		func() error {
 			return peer.Announce(m.torrent)
@@ -167,15 +176,15 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 		m.logger.Error("error announcing to peer",
 			zap.Stringer("ip", peer.AddrPort),
 			zap.Error(err))
-		m.torrentStatus.RemovePeer()
 		return
 	}
 
-	m.wg.Add(1)
-	go func() {
-		peer.Run(ctx)
-		m.wg.Done()
+	defer func() {
+		if err := peer.Close(); err != nil {
+			m.logger.Error("closing peer", zap.Error(err))
+		}
 	}()
+	peer.Run(ctx)
 }
 
 func (m *Manager) initStatisticsPrinting(ctx context.Context) {
@@ -217,7 +226,7 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
-	if m.peerPool[peer.AddrPort.String()] != nil {
+	if m.peerPool == nil || len(m.peerPool) >= m.peerNum || m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
 
@@ -226,6 +235,15 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	return true
 }
 
+// removePeer makes room for another peer.
+func (m *Manager) removePeer(peer *peer.Peer) {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	delete(m.peerPool, peer.AddrPort.String())
+	m.torrentStatus.RemovePeer()
+}
+
 func (m *Manager) UpdateStatus(downloaded, uploaded uint64) {
 	m.torrentStatus.AddDownload(downloaded)
 	m.torrentStatus.AddUpload(uploaded)
-- 
2.43.0


From 70a16174a7e9177dbd75c2c0155dc7ca030376ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:15 +0000
Subject: [PATCH 22/34] fix: all peers of a download share failed requests, one
 that a lost peer gave back is picked up by any other

---
 pkg/download/manager.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index f2d4ea2..5b43fba 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -27,6 +27,7 @@ type Manager struct {
 	torrent         *torrent.Torrent
 	torrentStatus   *stats.Stats
 	progressPrinter *stats.ProgressPrinter
+	piecesQueue     *torrent.PiecesQueue
 
 	poolMu   sync.Mutex
 	peerPool map[string]*peer.Peer
@@ -35,12 +36,12 @@ type Manager struct {
 	wg        *sync.WaitGroup
 }
 
-func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
-	s := stats.NewStats(uint64(torrent.Length))
+func NewMng(t *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
+	s := stats.NewStats(uint64(t.Length))
 	pp := stats.NewProgressPrinter(s)
 	return &Manager{
 		logger:          logger,
-		torrent:         torrent,
+		torrent:         t,
 		peerPool:        make(map[string]*peer.Peer, 100),
 		peerNum:         peerNum,
 		listenPort:      listenPort,
@@ -48,6 +49,7 @@ func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort in
 		wg:              &sync.WaitGroup{},
 		torrentStatus:   s,
 		progressPrinter: pp,
+		piecesQueue:     torrent.NewPiecesQueue(),
 	}
 }
 
@@ -107,9 +109,8 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 }
 
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
-	pq := torrent.NewPiecesQueue()
 	for _, ip := range ips {
-		p := peer.NewPeer(ip, m.torrent, pq, pieceCh, m.logger)
+		p := peer.NewPeer(ip, m.torrent, m.piecesQueue, pieceCh, m.logger)
 		if m.AddPeer(p) {
 			m.startPeerDownload(ctx, p)
 		}
-- 
2.43.0


From 1de93f80ee6c4fefc5be3d373d01606c754c35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:15 +0000
Subject: [PATCH 23/34] fix: download returns once it is complete and leaves
 nothing running or unwritten, stopping twice or too early is harmless

---
 pkg/download/manager.go     | 59 ++++++++++++++++++++++++++++---------
 pkg/tracker/http_tracker.go |  5 +++-
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 5b43fba..901bd40 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -54,28 +54,59 @@ func NewMng(t *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Ma
 }
 
 func (m *Manager) Download(ctx context.Context) error {
-	ctx, m.cancelCtx = context.WithCancel(ctx)
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	m.poolMu.Lock()
+	m.cancelCtx = cancel
+	stopped := m.peerPool == nil
+	m.poolMu.Unlock()
+	if stopped {
+		return nil
+	}
 
 	pieceCh := make(chan *util.PeerMessage, 1024)
+	written := make(chan struct{})
+	go func() {
+		m.torrent.WritePiece(pieceCh, m.torrentStatus)
+		close(written)
+	}()
 
 	m.initStatisticsPrinting(ctx)
 	m.getIps(ctx, pieceCh)
 
-	go m.torrent.WritePiece(pieceCh, m.torrentStatus)
-
+	m.waitDownloaded(ctx)
+	cancel()
 	m.waitPeers()
-	<-ctx.Done()
 	close(pieceCh)
+	<-written
 	return nil // TODO: propagate errors
 }
 
+// waitDownloaded waits until all pieces are downloaded or download is canceled.
+func (m *Manager) waitDownloaded(ctx context.Context) {
+	for !m.torrent.Done() {
+		select {
+		case <-ctx.Done():
+			return
+		case <-time.After(500 * time.Millisecond):
+		}
+	}
+}
+
 // announce to all trackers from torrent file and gather
 // peers ip addresses
 func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 	m.logger.Info("trackers", zap.Any("urls", m.torrent.Trackers))
 
 	for url := range m.torrent.Trackers {
-		go m.runTracker(ctx, url, pieceCh)
+		m.wg.Add(1)
+		go func() {
+			defer m.wg.Done()
+			if err := m.runTracker(ctx, url, pieceCh); err != nil {
+				m.logger.Error("tracker failed", zap.String("url", url), zap.Error(err))
+			}
+		}()
 	}
 }
 
@@ -84,6 +115,7 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	if err != nil {
 		return err
 	}
+	defer tracker.Close()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
@@ -189,7 +221,9 @@ func (m *Manager) runPeer(ctx context.Context, peer *peer.Peer) {
 }
 
 func (m *Manager) initStatisticsPrinting(ctx context.Context) {
+	m.wg.Add(1)
 	go func() {
+		defer m.wg.Done()
 		for {
 			select {
 			case <-ctx.Done():
@@ -201,21 +235,18 @@ func (m *Manager) initStatisticsPrinting(ctx context.Context) {
 	}()
 }
 
+// Stop cancels the download. Peers and trackers are closed before Download returns.
 func (m *Manager) Stop() {
-	if m.peerPool == nil {
-		return
-	}
-	m.cancelCtx()
-
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
-	for _, p := range m.peerPool {
-		if err := p.Close(); err != nil {
-			m.logger.Error("closing peer", zap.Error(err))
-		}
+	if m.peerPool == nil {
+		return
 	}
 	m.peerPool = nil
+	if m.cancelCtx != nil {
+		m.cancelCtx()
+	}
 	m.progressPrinter.Close()
 }
 
diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 0715fcb..313e169 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -58,7 +58,10 @@ func (t *httpTracker) Url() string {
 	return t.addr
 }
 
-func (t *httpTracker) Close() error { return nil }
+func (t *httpTracker) Close() error {
+	t.c.CloseIdleConnections()
+	return nil
+}
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-- 
2.43.0


From 8b09b2ef334c56245e619f3633176aa2a11ae70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:50 +0000
Subject: [PATCH 24/34] fix: announce again after a default interval when
 tracker does not send a usable one

---
 pkg/tracker/http_tracker.go |  2 +-
 pkg/tracker/tracker.go      | 11 +++++++++++
 pkg/tracker/udp_tracker.go  |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 313e169..850bf3c 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -122,7 +122,7 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	if announceResponse.Failure != "" {
 		return nil, fmt.Errorf("tracker failure: %s", announceResponse.Failure)
 	}
-	t.interval = time.Duration(announceResponse.Interval) * time.Second
+	t.setInterval(announceResponse.Interval)
 
 	if announceResponse.Peers != nil {
 		p := t.parseBencodePeers(announceResponse.Peers)
diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 993fa45..e26a763 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -3,6 +3,7 @@ package tracker
 import (
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/url"
 	"time"
@@ -12,10 +13,20 @@ import (
 	"github.com/anivanovic/gotit"
 )
 
+// defaultInterval is used when tracker does not send usable interval.
+const defaultInterval = time.Minute
+
 type waitInterval struct {
 	interval time.Duration
 }
 
+func (t *waitInterval) setInterval(seconds int) {
+	t.interval = defaultInterval
+	if seconds > 0 && seconds <= math.MaxInt64/int(time.Second) {
+		t.interval = time.Duration(seconds) * time.Second
+	}
+}
+
 func (t waitInterval) WaitInterval(ctx context.Context) error {
 	select {
 	case <-time.After(t.interval):
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ed84ae7..a6933b0 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -169,7 +169,7 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		return nil, err
 	}
 
-	t.interval = time.Duration(binary.BigEndian.Uint32(response[8:12])) * time.Second
+	t.setInterval(int(binary.BigEndian.Uint32(response[8:12])))
 	leechers := binary.BigEndian.Uint32(response[12:16])
 	seeders := binary.BigEndian.Uint32(response[16:20])
 
-- 
2.43.0


From 2009c6497c2f615a34a56a28dcad58e1602396a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:30 +0000
Subject: [PATCH 25/34] fix: read compact peers of http trackers and leave out
 invalid ones

---
 gotit.go                    |  8 +++-----
 pkg/tracker/http_tracker.go | 37 +++++++++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/gotit.go b/gotit.go
index 1e60291..26ce03b 100644
--- a/gotit.go
+++ b/gotit.go
@@ -22,11 +22,9 @@ type (
 	}
 
 	AnnounceResponse struct {
-		Failure      string         `ben:"failure reason,optional"`
-		Interval     int            `ben:"interval,optional"`
-		Peers        []AnnouncePeer `ben:"peers,optional"`
-		PeersCompact []byte         `ben:"peers,optional"`
-		PeersIpv6    []byte         `ben:"peers6,optional"`
+		Failure   string `ben:"failure reason,optional"`
+		Interval  int    `ben:"interval,optional"`
+		PeersIpv6 []byte `ben:"peers6,optional"`
 	}
 
 	AnnouncePeer struct {
diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 850bf3c..1a1ecb7 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -124,24 +124,41 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	}
 	t.setInterval(announceResponse.Interval)
 
-	if announceResponse.Peers != nil {
-		p := t.parseBencodePeers(announceResponse.Peers)
-		return p, nil
+	ben, err := bencode.Parse(res)
+	if err != nil {
+		return nil, err
 	}
-	if announceResponse.PeersCompact != nil {
-		p := parseCompactPeers(announceResponse.PeersCompact)
-		return p, nil
+	// peers are a list of dictionaries or a string in compact form
+	switch peers := ben.(*bencode.DictElement).Value("peers").(type) {
+	case *bencode.ListElement:
+		return t.parseBencodePeers(t.decodePeers(peers)), nil
+	case bencode.StringElement:
+		return parseCompactPeers(peers.Raw()), nil
 	}
 	if announceResponse.PeersIpv6 != nil {
 		// TODO: parse ipv6 compact response
 	}
 
-	return nil, errors.New("successful tracker response without ")
+	return nil, errors.New("successful tracker response without peers")
+}
+
+func (t *httpTracker) decodePeers(list *bencode.ListElement) []gotit.AnnouncePeer {
+	var peers []gotit.AnnouncePeer
+	for _, el := range list.Value {
+		var p gotit.AnnouncePeer
+		dict, ok := el.(*bencode.DictElement)
+		if !ok || bencode.Unmarshal(dict.Raw(), &p) != nil {
+			t.logger.Error("tracker sent invalid peer", zap.String("peer", el.String()))
+			continue
+		}
+		peers = append(peers, p)
+	}
+	return peers
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-	ips := make([]netip.AddrPort, len(peers))
-	for i, p := range peers {
+	ips := make([]netip.AddrPort, 0, len(peers))
+	for _, p := range peers {
 		t.logger.Debug("got ip", zap.String("ip", p.Ip))
 		ip, err := netip.ParseAddr(p.Ip)
 		if err != nil {
@@ -169,7 +186,7 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
 		}
-		ips[i] = ipAddr
+		ips = append(ips, ipAddr)
 	}
 
 	return ips
-- 
2.43.0


From 9f0f0894f9d4458b906ede5b07c29854b572e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:30 +0000
Subject: [PATCH 26/34] fix: keep query of http tracker url when announcing

---
 pkg/tracker/http_tracker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 1a1ecb7..df92bf9 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -65,10 +65,14 @@ func (t *httpTracker) Close() error {
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s?%s", t.addr, q.Encode()), nil)
+	r, err := http.NewRequestWithContext(ctx, http.MethodGet, t.addr, nil)
 	if err != nil {
 		return nil, err
 	}
+	if r.URL.RawQuery != "" {
+		r.URL.RawQuery += "&"
+	}
+	r.URL.RawQuery += q.Encode()
 
 	res, err := t.c.Do(r)
 	if err != nil {
-- 
2.43.0


From 4a5945156889a07a10cd960061dbed4591ead6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:31 +0000
Subject: [PATCH 27/34] fix: udp announce carries the info hash and a two byte
 port

---
 pkg/tracker/udp_tracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index a6933b0..2f7e301 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -136,7 +136,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, connId)
 	binary.Write(request, binary.BigEndian, uint32(announce))
 	binary.Write(request, binary.BigEndian, transactionId)
-	binary.Write(request, binary.BigEndian, torrentHash)
+	binary.Write(request, binary.BigEndian, []byte(torrentHash))
 	binary.Write(request, binary.BigEndian, peer.ClientId)
 	binary.Write(request, binary.BigEndian, data.Downloaded)
 	binary.Write(request, binary.BigEndian, data.Left)
@@ -145,7 +145,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, uint32(0))
 	binary.Write(request, binary.BigEndian, rand.Int31())
 	binary.Write(request, binary.BigEndian, int32(-1))
-	binary.Write(request, binary.BigEndian, int32(data.Port))
+	binary.Write(request, binary.BigEndian, uint16(data.Port))
 	return request.Bytes()
 }
 
-- 
2.43.0


From 1a06b9de125b2789933141b431b98ab709c80b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:32 +0000
Subject: [PATCH 28/34] fix: udp tracker accepts only a response to its own
 request, late and short ones are ignored

Response to announce was read until an error and so always timed out.
---
 pkg/gotitnet/connection.go | 12 ++++++++++++
 pkg/tracker/udp_tracker.go | 37 ++++++++++++++++++++++++++++++-------
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 76b5041..79fea60 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -29,6 +29,8 @@ type TimeoutConn struct {
 // readChunk limits how much memory is set aside before any data is received.
 const readChunk = 32 * 1024
 
+const maxDatagram = 64 * 1024
+
 func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutConn, error) {
 	conn, err := net.DialTimeout(network, address, DialTimeout)
 	if err != nil {
@@ -111,6 +113,16 @@ func (c *TimeoutConn) ReadUdpHandshake() ([]byte, error) {
 	return c.readExactly(16)
 }
 
+// ReadDatagram reads one datagram from socket, waiting at most until deadline.
+func (c *TimeoutConn) ReadDatagram(deadline time.Time) ([]byte, error) {
+	if err := c.c.SetReadDeadline(deadline); err != nil {
+		return nil, err
+	}
+	buf := make([]byte, maxDatagram)
+	n, err := c.c.Read(buf)
+	return buf[:n], err
+}
+
 func (c *TimeoutConn) Close() error {
 	return c.c.Close()
 }
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 2f7e301..c09c641 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -23,6 +23,7 @@ const protocolId uint64 = 0x41727101980
 const (
 	connect = iota
 	announce
+	scrape
 	conError
 )
 
@@ -78,15 +79,34 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 	transactionId := createTransactionId()
 	// TODO propagate download stats
 	request := createAnnounce(connId, transactionId, torrentHash, data)
-	t.conn.Write(request)
+	if _, err := t.conn.Write(request); err != nil {
+		return nil, err
+	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadAll()
+	response, err := t.readResponse(transactionId)
 	if err != nil {
 		return nil, err
 	}
 
-	err = t.parseTrackerResponse(response, transactionId)
-	return t.ips, err
+	if err := t.parseTrackerResponse(response, transactionId, announce); err != nil {
+		return nil, err
+	}
+	return t.ips, nil
+}
+
+// readResponse reads response with the transaction id. Others are late
+// responses to earlier requests and are ignored.
+func (t *udpTracker) readResponse(transactionId uint32) ([]byte, error) {
+	deadline := time.Now().Add(gotitnet.TrackerTimeout)
+	for {
+		response, err := t.conn.ReadDatagram(deadline)
+		if err != nil {
+			return nil, err
+		}
+		if len(response) >= 8 && checkResponseTransactionId(response, transactionId) == nil {
+			return response, nil
+		}
+	}
 }
 
 func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
@@ -102,19 +122,22 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadUdpHandshake()
+	response, err := t.readResponse(transactionId)
 	if err != nil {
 		return 0, err
 	}
-	if err := t.parseTrackerResponse(response, transactionId); err != nil {
+	if err := t.parseTrackerResponse(response, transactionId, connect); err != nil {
 		return 0, err
 	}
 
 	return t.connectionId, nil
 }
 
-func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32) error {
+func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32, expected int) error {
 	actionCode := int(binary.BigEndian.Uint32(response[:4]))
+	if actionCode != expected && actionCode != conError {
+		return fmt.Errorf("unexpected udp tracker response action code: %d", actionCode)
+	}
 	var err error
 
 	switch actionCode {
-- 
2.43.0


From 760fa077fb11886a5a13a5dbd70d488722800f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:21 +0000
Subject: [PATCH 29/34] fix: accept all advertised log levels and refuse
 unknown format also when silent

---
 pkg/logger/logger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/logger/logger.go b/pkg/logger/logger.go
index 10496d3..4abe8f2 100644
--- a/pkg/logger/logger.go
+++ b/pkg/logger/logger.go
@@ -12,16 +12,16 @@ import (
 func getZapLevel(level string) (zapcore.Level, error) {
 	level = strings.TrimSpace(strings.ToLower(level))
 	switch level {
-	case "debug":
+	case "debug", "trace":
 		return zapcore.DebugLevel, nil
 	case "info", "":
 		return zapcore.InfoLevel, nil
-	case "warn":
+	case "warn", "warning":
 		return zapcore.WarnLevel, nil
 	case "error":
 		return zapcore.ErrorLevel, nil
 	default:
-		return 0, fmt.Errorf("unknown log level [debug,info,warn,error]: %q", level)
+		return 0, fmt.Errorf("unknown log level [info,debug,trace,warning,error,silent]: %q", level)
 	}
 }
 
@@ -102,6 +102,10 @@ func newLogger(
 
 // NewCommandLine will return logger configured for terminal.
 func NewCommandLine(level string, format string) (*zap.Logger, error) {
+	encoder, err := getZapEncoder(format)
+	if err != nil {
+		return nil, err
+	}
 	if level == "silent" {
 		return zap.NewNop(), nil
 	}
@@ -110,9 +114,5 @@ func NewCommandLine(level string, format string) (*zap.Logger, error) {
 	if err != nil {
 		return nil, err
 	}
-	encoder, err := getZapEncoder(format)
-	if err != nil {
-		return nil, err
-	}
 	return newLogger(zapLevel, encoder), nil
 }
-- 
2.43.0


From 7554cac726f6c54c3b13cb433921ebbdf870401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:22 +0000
Subject: [PATCH 30/34] fix: log flags and config take effect, reason of a
 failure is printed

---
 pkg/cmd/app.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index 72cdb93..49575f9 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -95,24 +95,26 @@ func initConfig(cfgPath string) error {
 func (a App) NewCmdRun(
 	fn func(ctx context.Context, appCtx AppContext, args []string) error,
 ) func(cmd *cobra.Command, args []string) {
-	ctx := context.Background()
-	ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
-
-	if err := initConfig(a.appCfg.CfgPath); err != nil {
-		fmt.Println("could not resolve configuration", err)
-		os.Exit(1)
-	}
-
-	logCfg := a.appCfg.Log
-	l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
-	if err != nil {
-		_, _ = fmt.Fprint(os.Stderr, "")
-	}
-	appCtx := AppContext{log: l, printer: printer.NewConsole()}
 	return func(_ *cobra.Command, args []string) {
+		ctx := context.Background()
+		ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
 		defer stop()
+
+		// flags are parsed only when command is run
+		if err := initConfig(a.appCfg.CfgPath); err != nil {
+			_, _ = fmt.Fprintln(os.Stderr, "could not resolve configuration", err)
+			os.Exit(1)
+		}
+
+		logCfg := a.appCfg.Log
+		l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
+		if err != nil {
+			_, _ = fmt.Fprintln(os.Stderr, err)
+			os.Exit(1)
+		}
+		appCtx := AppContext{log: l, printer: printer.NewConsole()}
 		if err := fn(ctx, appCtx, args); err != nil {
-			appCtx.printer.Fatal(1, "error with the app")
+			appCtx.printer.Fatalf(1, "error with the app: %v\n", err)
 		}
 	}
 }
-- 
2.43.0


From b8bbe456db398ab8ff8ed6c3d4da8a6152efa65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:22 +0000
Subject: [PATCH 31/34] fix: bencode command prints metadata and its failures
 also when silent, interrupted download is a failure

---
 pkg/cmd/bencode.go  | 13 ++++++-------
 pkg/cmd/download.go |  8 +++++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/cmd/bencode.go b/pkg/cmd/bencode.go
index c69a26d..7f4200a 100644
--- a/pkg/cmd/bencode.go
+++ b/pkg/cmd/bencode.go
@@ -2,11 +2,11 @@ package cmd
 
 import (
 	"context"
+	"fmt"
 	"io"
 	"os"
 
 	"github.com/spf13/cobra"
-	"go.uber.org/zap"
 
 	"github.com/anivanovic/gotit/pkg/bencode"
 )
@@ -26,22 +26,21 @@ func run(_ context.Context, appContext AppContext, args []string) error {
 	file := args[0]
 	f, err := os.Open(file)
 	if err != nil {
-		appContext.log.Fatal("open file", zap.Error(err))
+		return fmt.Errorf("open file: %w", err)
 	}
 
 	data, err := io.ReadAll(f)
 	if err != nil {
-		appContext.log.Sugar().Fatalf("read file %s: %v", file, err)
+		return fmt.Errorf("read file %s: %w", file, err)
 	}
 
 	torrentMetadata := bencode.Metainfo{}
 	if err := bencode.Unmarshal(data, &torrentMetadata); err != nil {
-		appContext.log.Fatal("parse torrent file", zap.Error(err))
+		return fmt.Errorf("parse torrent file: %w", err)
 	}
 
-	//appContext.printer.Info("Metainfo file:", file)
-	//appContext.printer.Info(torrentMetadata)
+	appContext.printer.Infof("Metainfo file: %s\n", file)
+	appContext.printer.Info(torrentMetadata.String())
 
-	// TODO: return errors instead
 	return nil
 }
diff --git a/pkg/cmd/download.go b/pkg/cmd/download.go
index 9516b0e..fbb960d 100644
--- a/pkg/cmd/download.go
+++ b/pkg/cmd/download.go
@@ -80,5 +80,11 @@ func runDownload(ctx context.Context, l *zap.Logger, args []string, f *flags) er
 	mng := download.NewMng(t, l, f.peerNum, f.listenPort)
 	defer mng.Stop()
 
-	return mng.Download(ctx)
+	if err := mng.Download(ctx); err != nil {
+		return err
+	}
+	if !t.Done() {
+		return errors.New("download interrupted")
+	}
+	return nil
 }
-- 
2.43.0


From eb91570400371625a38ebb88c3d75a45d6254f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:54 +0000
Subject: [PATCH 32/34] fix: refuse torrents with repeated or clashing file
 paths before anything is created

---
 pkg/torrent/torrent.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index f785bc5..d2f0560 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -172,14 +172,33 @@ func checkPath(path ...string) error {
 	return nil
 }
 
+// checkFiles refuses paths which are not allowed, repeated or used for a file and a directory.
+func checkFiles(files []bencode.TorrentFile) error {
+	paths := util.NewStringSet()
+	for _, tf := range files {
+		if err := checkPath(tf.Path...); err != nil {
+			return err
+		}
+		if !paths.Add(tf.FilePath()) {
+			return fmt.Errorf("repeated torrent file path: %q", tf.Path)
+		}
+	}
+	for _, tf := range files {
+		for i := 1; i < len(tf.Path); i++ {
+			if paths.Contains(strings.Join(tf.Path[:i], "/")) {
+				return fmt.Errorf("torrent file path inside of a file: %q", tf.Path)
+			}
+		}
+	}
+	return nil
+}
+
 func (t *Torrent) initDownloadDir(root string) error {
 	if err := checkPath(t.Name); err != nil {
 		return err
 	}
-	for _, tf := range t.TorrentFiles {
-		if err := checkPath(tf.Path...); err != nil {
-			return err
-		}
+	if err := checkFiles(t.TorrentFiles); err != nil {
+		return err
 	}
 
 	path := filepath.Join(root, t.Name)
-- 
2.43.0


From 9645d09bdf650ca35fece4ad5161cc700ecbf1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:23 +0000
Subject: [PATCH 33/34] fix: maps with other than plain string keys and named
 byte slices crash Unmarshal

---
 pkg/bencode/tag_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 426d1e9..aadc785 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -134,7 +134,7 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 	case reflect.Slice:
 		// support byte array and set to raw value
 		if f.Type().Elem().Kind() == reflect.Uint8 {
-			f.Set(reflect.ValueOf(value.Raw()))
+			f.SetBytes(value.Raw())
 			return nil
 		}
 
@@ -179,6 +179,10 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 			}
 		}
 
+		if ftype.Key().Kind() != reflect.String {
+			return fmt.Errorf("unsupported bencode type %s", ftype)
+		}
+
 		m := reflect.MakeMap(ftype)
 		for k, v := range values.value {
 			mapValue := reflect.New(ftype.Elem())
@@ -188,7 +192,7 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 			if err := setField(mapValue, v, fieldName); err != nil {
 				return err
 			}
-			m.SetMapIndex(reflect.ValueOf(k), mapValue)
+			m.SetMapIndex(reflect.ValueOf(k).Convert(ftype.Key()), mapValue)
 		}
 		f.Set(m)
 	default:
-- 
2.43.0


From 1ed31bceeb9326b6e3691ffede27bcf4a89a371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 34/34] fix: progress display counts no trackers

---
 pkg/download/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 901bd40..3ac1be3 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -116,6 +116,8 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 		return err
 	}
 	defer tracker.Close()
+	m.torrentStatus.AddTracker()
+	defer m.torrentStatus.RemoveTracker()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
-- 
2.43.0

