package vnet

// Named is a message with a name.
type Named struct {
	N string
	B []byte
}

// Harmless are messages a peer may send at any moment and which change nothing for who downloads from it (pieces is the
// number of pieces of the torrent). Messages of extensions nobody agreed on have unknown types and are to be ignored.
func Harmless(pieces int) []Named {
	last := uint32(pieces - 1)
	return []Named{
		{"keep-alive", KeepAlive()},
		{"interested", Interested()},
		{"not interested", NotInterested()},
		{"interested and not interested", append(Interested(), NotInterested()...)},
		{"request(0)", Request(0, 0, 1)},
		{"request(last)", Request(last, 0, 16384)},
		{"request(beyond)", Request(1<<31, 1<<31, 1<<31)},
		{"cancel(0)", Cancel(0, 0, 1)},
		{"cancel(last)", Cancel(last, 0, 131072)},
		{"port", Msg(9, 0x1a, 0xe1)},
		{"suggest", Msg(13, U32(last)...)},
		{"have all", Msg(14)},
		{"have none", Msg(15)},
		{"reject", Msg(16, U32(0, 0, 131072)...)},
		{"allowed fast", Msg(17, U32(0)...)},
		{"extended", Msg(20, []byte("\x00d1:md6:ut_pexi1eee")...)},
		{"extended, empty", Msg(20)},
		{"hash request", Msg(21, make([]byte, 49)...)},
		{"unknown 10", Msg(10)},
		{"unknown 99", Msg(99)},
		{"unknown 99, long", Msg(99, make([]byte, 70000)...)},
		{"unknown 255", Msg(255, 1, 2, 3, 4, 5)},
	}
}
