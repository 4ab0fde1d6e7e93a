package c08

import (
	"os"

	"go.uber.org/zap"
)

var nop = zap.NewNop()

// nonZero counts the non-zero bytes of a sparse file.
func nonZero(path string) int {
	f, err := os.Open(path)
	if err != nil {
		return -1
	}
	defer f.Close()
	n := 0
	pos := int64(0)
	buf := make([]byte, 1<<16)
	for {
		d, err := f.Seek(pos, 3) // SEEK_DATA
		if err != nil {
			return n
		}
		h, err := f.Seek(d, 4) // SEEK_HOLE
		if err != nil {
			return n
		}
		for p := d; p < h; {
			k, err := f.ReadAt(buf[:min(int64(len(buf)), h-p)], p)
			for _, b := range buf[:k] {
				if b != 0 {
					n++
				}
			}
			p += int64(k)
			if err != nil {
				break
			}
		}
		pos = h
	}
}
