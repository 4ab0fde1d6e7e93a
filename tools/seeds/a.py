SEEDS = {}

SEEDS["C08-offset32"] = dict(
    property="C08",
    needs="a torrent larger than 4 GiB and a piece beyond that position",
    breaks="the position of a piece is computed in 32 bits, pieces beyond 4 GiB overwrite the start of the file",
    edits=[("pkg/torrent/torrent.go", "piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())",
            "piecePoss := int(msg.Index()*uint32(t.PieceLength) + msg.Offset())")],
    pkg="pkg/torrent",
    demo='''package torrent

import (
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/bits-and-blooms/bitset"
	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemoLarge(t *testing.T) {
	dir := t.TempDir()
	const pl = 1 << 20
	tor := &Torrent{Name: "big", PieceLength: pl, Length: 5000 * pl, PiecesNum: 5000, requested: bitset.New(5000), downloaded: bitset.New(5000),
		requestedMu: &sync.Mutex{}, downloadedMu: &sync.Mutex{}, logger: zap.NewNop()}
	if err := tor.initDownloadDir(dir); err != nil {
		t.Fatal(err)
	}
	defer tor.Close()
	ch := make(chan *util.PeerMessage, 1)
	ch <- makePieceMsg(4097, 0, []byte("beyond"))
	close(ch)
	tor.WritePiece(ch, stats.NewStats(1))
	f, err := os.Open(filepath.Join(dir, "big"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	b := make([]byte, 6)
	if _, err := f.ReadAt(b, 4097*pl); err != nil || string(b) != "beyond" {
		t.Fatalf("not at its place: %q %v", b, err)
	}
}
''')

SEEDS["C07-prefix"] = dict(
    property="C07",
    needs="data whose SHA-1 agrees with the listed hash in the first 16 bytes only (here: a listed hash that differs in its last bytes)",
    breaks="only a part of the hash is compared",
    edits=[("pkg/torrent/torrent.go", "return bytes.Equal(t.Pieces[index].sha1, hash)",
            "return bytes.Equal(t.Pieces[index].sha1[:16], hash[:16])")],
    pkg="pkg/torrent",
    demo='''package torrent

import "testing"

func TestDemoHash(t *testing.T) {
	data := []byte("some piece")
	for bit := 0; bit < 160; bit++ {
		h := sha1Of(data)
		h[bit/8] ^= 1 << (bit % 8)
		pieces, err := NewPieces(h)
		if err != nil {
			t.Fatal(err)
		}
		tor := &Torrent{Pieces: pieces}
		if tor.CheckPiece(data, 0) {
			t.Fatalf("accepted with bit %d of the hash flipped", bit)
		}
	}
}
''')

SEEDS["C12-two-locks"] = dict(
    property="C12",
    needs="two peers taking a failed request at the same moment while one waits",
    breaks="the emptiness check and the removal are in separate critical sections",
    edits=[("pkg/torrent/pieces_queue.go", """	pq.failedMu.Lock()
	defer pq.failedMu.Unlock()

	if len(pq.failedMessages) == 0 {
		return nil
	}
	req := pq.failedMessages[len(pq.failedMessages)-1]
""", """	pq.failedMu.Lock()
	waiting := len(pq.failedMessages)
	pq.failedMu.Unlock()
	if waiting == 0 {
		return nil
	}

	pq.failedMu.Lock()
	defer pq.failedMu.Unlock()
	req := pq.failedMessages[len(pq.failedMessages)-1]
""")],
    pkg="pkg/torrent",
    demo='''package torrent

import (
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/util"
)

func TestDemoQueue(t *testing.T) {
	for i := 0; i < 300000; i++ {
		q := NewPiecesQueue()
		q.RequestFailed(util.CreatePieceMessage(1, 2, 3))
		var wg sync.WaitGroup
		var got [4]*util.PeerMessage
		for k := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got[k] = q.FailedPieceMessage()
			}()
		}
		wg.Wait()
		n := 0
		for _, g := range got {
			if g != nil {
				n++
			}
		}
		if n != 1 {
			t.Fatalf("handed out %d times", n)
		}
	}
}
''')
