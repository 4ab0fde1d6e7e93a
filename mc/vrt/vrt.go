// Package vrt is the explorer: a harness is a function of an execution *X, every
// nondeterministic decision in it is one Choose (or Dev) call, and Explore enumerates all
// choice sequences depth first, re-executing the real code for each of them.
package vrt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Exit codes understood by check.py.
const (
	ExitOK        = 0
	ExitViolation = 10
	ExitHang      = 11
	ExitHarness   = 12
)

type choice struct {
	n    int
	idx  int
	dev  bool
	cost int // deviations spent before this choice
	lbl  uint32
}

// X is one execution.
type X struct {
	sec     *section
	stack   []choice
	pos     int
	cost    int
	logs    []string
	keepLog bool
	replay  bool
	skipped bool
	again   bool
	tries   int
	mu      sync.Mutex
}

type section struct {
	Name        string   `json:"name"`
	Executions  int64    `json:"executions"`
	Choices     int64    `json:"choices"`
	Steps       int64    `json:"steps"`
	MaxDepth    int      `json:"max_depth"`
	Outcomes    int      `json:"outcomes"`
	Exhaustive  bool     `json:"exhaustive"`
	Divergences int      `json:"divergences"`
	DevBound    int      `json:"dev_bound"`
	Note        string   `json:"note,omitempty"`
	Samples     []string `json:"samples"`
	Capped      string   `json:"capped,omitempty"`
	outcomes    map[uint64]struct{}
	divergeLog  []string
}

type violation struct {
	Section string   `json:"section"`
	Choices []int    `json:"choices"`
	Key     string   `json:"key"`
	Desc    string   `json:"desc"`
	Trace   []string `json:"trace"`
}

type result struct {
	Property  string            `json:"property"`
	Sections  []*section        `json:"sections"`
	Violation *violation        `json:"violation,omitempty"`
	Known     map[string]string `json:"known"`
	Wall      float64           `json:"wall"`
}

var (
	res      = result{Known: map[string]string{}}
	resMu    sync.Mutex
	started  = time.Now()
	states   = map[uint64]struct{}{}
	progress atomic.Int64
	inHarns  atomic.Bool
	curMap   []byte
	replayV  *violation
	shardI   = 0
	shardN   = 1
	deadline time.Time
)

const maxStates = 4_000_000

// Thorough says whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](q, t T) T {
	if Thorough() {
		return t
	}
	return q
}

// Scratch returns the scratch directory of this process.
func Scratch() string { return os.Getenv("VERIF_SCRATCH") }

// Main is called from TestMain.
func Main(m *testing.M, property string) {
	res.Property = property
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		p := strings.Split(s, "/")
		shardI, _ = strconv.Atoi(p[0])
		shardN, _ = strconv.Atoi(p[1])
	}
	if s := os.Getenv("VERIF_DEADLINE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		deadline = started.Add(time.Duration(f * float64(time.Second)))
	}
	if f := os.Getenv("VERIF_CUR"); f != "" {
		fd, err := os.OpenFile(f, os.O_RDWR|os.O_CREATE, 0o666)
		if err == nil {
			_ = fd.Truncate(1 << 20)
			curMap, err = syscall.Mmap(int(fd.Fd()), 0, 1<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err != nil {
				curMap = nil
			}
			fd.Close()
		}
	}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			harnessError("replay file: " + err.Error())
		}
		replayV = &violation{}
		if err := json.Unmarshal(b, replayV); err != nil {
			harnessError("replay file: " + err.Error())
		}
	}
	go watchdog()
	code := m.Run()
	if code != 0 {
		flush()
		os.Exit(ExitHarness)
	}
	flush()
	os.Exit(ExitOK)
}

func watchdog() {
	limit := 150 * time.Second
	if s := os.Getenv("VERIF_HANG"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		limit = time.Duration(f * float64(time.Second))
	}
	last, at := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		p := progress.Load()
		if p != last {
			last, at = p, time.Now()
			continue
		}
		if time.Since(at) > limit && inHarns.Load() {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			fmt.Fprintln(os.Stderr, "VRT-HANG: no progress for", limit)
			os.Exit(ExitHang)
		}
	}
}

func harnessError(s string) {
	fmt.Fprintln(os.Stderr, "VRT-HARNESS-ERROR:", s)
	flush()
	os.Exit(ExitHarness)
}

func flush() {
	resMu.Lock()
	defer resMu.Unlock()
	res.Wall = time.Since(started).Seconds()
	for _, s := range res.Sections {
		s.Outcomes = len(s.outcomes)
	}
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		return
	}
	b, _ := json.Marshal(&res)
	_ = os.WriteFile(out, b, 0o644)
	st := make([]byte, 0, 8*len(states))
	for h := range states {
		st = binary.LittleEndian.AppendUint64(st, h)
	}
	_ = os.WriteFile(out+".states", st, 0o644)
}

// Opts of one Explore call.
type Opts struct {
	Section    string
	DevBound   int  // bound on deviations (Dev choices other than 0)
	Bubble     bool // run each execution in a synctest bubble
	ShardDepth int  // number of leading choices that decide the shard (default 2)
	Note       string
	MaxExec    int64 // cap on executions (reported when hit)
	MaxSamples int
}

type failure struct{ key, desc string }
type skip struct{}

func hash(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Explore enumerates all executions of body.
func Explore(t *testing.T, o Opts, body func(x *X)) {
	if replayV != nil && replayV.Section != o.Section {
		return
	}
	if o.ShardDepth == 0 {
		o.ShardDepth = 2
	}
	if o.MaxSamples == 0 {
		o.MaxSamples = 3
	}
	sec := &section{Name: o.Section, DevBound: o.DevBound, Note: o.Note, outcomes: map[uint64]struct{}{}, Exhaustive: true}
	resMu.Lock()
	res.Sections = append(res.Sections, sec)
	resMu.Unlock()
	setCurSection(o.Section)
	x := &X{sec: sec}
	if replayV != nil {
		x.replay, x.keepLog = true, true
		for _, c := range replayV.Choices {
			x.stack = append(x.stack, choice{n: -1, idx: c})
		}
	}
	next := int64(1)
	for {
		x.pos, x.cost, x.skipped = 0, 0, false
		x.logs = x.logs[:0]
		x.keepLog = x.replay || sec.Executions == next-1 || sec.Executions == 0
		resetCur()
		progress.Add(1)
		inHarns.Store(true)
		x.again = false
		saved := append([]choice{}, x.stack...)
		div := sec.Divergences
		runOne(t, o, x, body)
		inHarns.Store(false)
		raceCheck()
		if x.again && x.tries < 40 && !x.replay {
			x.tries++
			x.stack, sec.Divergences = saved, div
			continue
		}
		x.tries = 0
		if x.pos < len(x.stack) && !x.replay {
			// fewer choices than the prefix had: divergence
			sec.Divergences++
			sec.divergeLog = append(sec.divergeLog, fmt.Sprintf("short execution: %d of %d", x.pos, len(x.stack)))
			x.stack = x.stack[:x.pos]
		}
		owned := true
		if !x.skipped && len(x.stack) < o.ShardDepth {
			owned = x.owner(len(x.stack)) == shardI
		}
		if !x.skipped && owned {
			sec.Executions++
			sec.Choices += int64(x.pos)
			if x.pos > sec.MaxDepth {
				sec.MaxDepth = x.pos
			}
			if x.keepLog && len(sec.Samples) < o.MaxSamples {
				sec.Samples = append(sec.Samples, x.sample())
				next = sec.Executions*37 + 1
			}
		}
		if x.replay {
			fmt.Println(strings.Join(x.logs, "\n"))
			return
		}
		if sec.Divergences > 200 {
			sec.Exhaustive = false
			sec.Capped = "too many divergences: " + strings.Join(sec.divergeLog[:3], "; ")
			return
		}
		if o.MaxExec > 0 && sec.Executions >= o.MaxExec {
			sec.Exhaustive = false
			sec.Capped = fmt.Sprintf("execution cap %d", o.MaxExec)
			return
		}
		if !deadline.IsZero() && sec.Executions&31 == 0 && time.Now().After(deadline) {
			sec.Exhaustive = false
			sec.Capped = "deadline"
			return
		}
		// backtrack
		for len(x.stack) > 0 {
			c := &x.stack[len(x.stack)-1]
			if c.idx+1 < c.n && (!c.dev || c.cost+1 <= o.DevBound) {
				c.idx++
				break
			}
			x.stack = x.stack[:len(x.stack)-1]
		}
		if len(x.stack) == 0 {
			return
		}
	}
}

func runOne(t *testing.T, o Opts, x *X, body func(x *X)) {
	call := func() {
		defer func() {
			if r := recover(); r != nil {
				x.handlePanic(r, debug.Stack())
			}
		}()
		body(x)
	}
	x.sec.DevBound = o.DevBound
	x.setShard(o.ShardDepth)
	if o.Bubble {
		synctest.Test(t, func(*testing.T) { call() })
	} else {
		call()
	}
}

// HandlePanic turns a recovered panic of a goroutine started by the harness into a verdict.
func (x *X) HandlePanic(r any) { x.handlePanic(r, debug.Stack()) }

func (x *X) handlePanic(r any, stack []byte) {
	switch f := r.(type) {
	case skip:
		x.skipped = true
		return
	case failure:
		x.violate(f.key, f.desc)
	default:
		st := string(stack)
		if InTarget(st) {
			x.violate("panic", fmt.Sprintf("crash: %v\n%s", r, trimStack(st)))
		}
		harnessError(fmt.Sprintf("panic in harness: %v\n%s", r, st))
	}
}

// InTarget says whether a stack trace passes through the code under test above the harness.
func InTarget(st string) bool {
	return strings.Contains(st, "github.com/anivanovic/gotit/pkg/")
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func (x *X) violate(key, desc string) {
	v := &violation{Section: x.sec.Name, Key: key, Desc: desc, Trace: append([]string{}, x.logs...)}
	for i := 0; i < x.pos && i < len(x.stack); i++ {
		v.Choices = append(v.Choices, x.stack[i].idx)
	}
	resMu.Lock()
	res.Violation = v
	resMu.Unlock()
	if x.replay {
		fmt.Println(strings.Join(x.logs, "\n"))
	}
	fmt.Println("VRT-VIOLATION", key, desc)
	flush()
	os.Exit(ExitViolation)
}

var shardDepth int

func (x *X) setShard(d int) { shardDepth = d }

func (x *X) owner(n int) int {
	h := uint64(14695981039346656037)
	for i := 0; i < n; i++ {
		h ^= uint64(x.stack[i].idx + 1)
		h *= 1099511628211
	}
	h ^= h >> 29
	return int(h % uint64(shardN))
}

func (x *X) choose(n int, label string, dev bool) int {
	if n <= 0 {
		panic("vrt: Choose with no alternative: " + label)
	}
	lbl := uint32(hash(label))
	i := x.pos
	x.pos++
	progress.Add(1)
	if i < len(x.stack) {
		c := &x.stack[i]
		if c.n == -1 { // replay
			if c.idx >= n {
				harnessError(fmt.Sprintf("replay divergence at %d (%s): choice %d of %d", i, label, c.idx, n))
			}
		} else if c.n != n || c.lbl != lbl || c.dev != dev {
			x.sec.Divergences++
			if len(x.sec.divergeLog) < 5 {
				x.sec.divergeLog = append(x.sec.divergeLog, fmt.Sprintf("at %d: %s/%d instead of %d", i, label, n, c.n))
			}
			x.stack = append(x.stack[:i], choice{n: n, idx: 0, dev: dev, cost: x.cost, lbl: lbl})
		}
	} else {
		x.stack = append(x.stack, choice{n: n, idx: 0, dev: dev, cost: x.cost, lbl: lbl})
	}
	c := &x.stack[i]
	if dev && c.idx > 0 {
		x.cost++
	}
	setCur(i, c.idx)
	if x.keepLog || x.replay {
		x.logs = append(x.logs, fmt.Sprintf("%s=%d/%d", label, c.idx, n))
	}
	if shardN > 1 && i+1 == shardDepth && !x.replay && x.owner(shardDepth) != shardI {
		x.skipped = true
		panic(skip{})
	}
	return c.idx
}

// Choose is a free choice among n alternatives.
func (x *X) Choose(n int, label string) int { return x.choose(n, label, false) }

// Dev is a choice where alternative 0 is the default and every other one is a deviation;
// alternatives that would exceed the deviation bound are not offered.
func (x *X) Dev(n int, label string) int {
	if x.replay {
		return x.choose(n, label, true)
	}
	return x.choose(n, label, true)
}

// Again discards this execution and runs its choices again (used where the runtime makes a choice
// that cannot be controlled, the order of a map, and the other order is explored as another execution).
func (x *X) Again() { x.again = true }

// Cost returns the number of deviations spent so far in this execution.
func (x *X) Cost() int { return x.cost }

// Bool is a free binary choice.
func (x *X) Bool(label string) bool { return x.Choose(2, label) == 1 }

// Of chooses one of the values.
func Of[T any](x *X, label string, vs ...T) T { return vs[x.Choose(len(vs), label)] }

// Replaying says whether this process runs one recorded execution only.
func (x *X) Replaying() bool { return x.replay }

// Confirm runs this execution once more in a process of its own, with a tight garbage collector, and
// says whether it fails there.
func (x *X) Confirm() bool {
	v := violation{Section: x.sec.Name}
	for i := 0; i < x.pos && i < len(x.stack); i++ {
		v.Choices = append(v.Choices, x.stack[i].idx)
	}
	dir, err := os.MkdirTemp(Scratch(), "confirm")
	if err != nil {
		harnessError("confirm: " + err.Error())
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(v)
	if err := os.WriteFile(dir+"/replay", b, 0o666); err != nil {
		harnessError("confirm: " + err.Error())
	}
	env := append(os.Environ(), "VERIF_REPLAY="+dir+"/replay", "VERIF_OUT="+dir+"/out", "VERIF_CUR="+dir+"/cur", "VERIF_SCRATCH="+dir, "VERIF_SHARD=0/1", "GOGC=10")
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		harnessError("confirm: " + err.Error())
	}
	defer null.Close()
	p, err := os.StartProcess(os.Args[0], os.Args, &os.ProcAttr{Env: env, Files: []*os.File{null, null, null}})
	if err != nil {
		harnessError("confirm: " + err.Error())
	}
	st, err := p.Wait()
	if err != nil {
		harnessError("confirm: " + err.Error())
	}
	c := st.ExitCode()
	return c != ExitOK && c != ExitHarness
}

// Fail reports a violation and ends the process.
func (x *X) Fail(key, format string, a ...any) {
	x.violate(key, fmt.Sprintf(format, a...))
}

// Failf is Fail with an expectation text.
func (x *X) Assert(ok bool, key, format string, a ...any) {
	if !ok {
		x.Fail(key, format, a...)
	}
}

// Known notes that a listed finding (matched exactly by the harness) was seen.
func (x *X) Known(key, desc string) {
	resMu.Lock()
	if _, ok := res.Known[key]; !ok {
		res.Known[key] = desc
	}
	resMu.Unlock()
}

// Logf adds to the trace kept for samples and violations.
func (x *X) Logf(format string, a ...any) {
	if !x.keepLog && !x.replay {
		return
	}
	x.mu.Lock()
	x.logs = append(x.logs, fmt.Sprintf(format, a...))
	x.mu.Unlock()
}

// State records a fingerprint of an observed state.
func (x *X) State(parts ...any) {
	s := fmt.Sprintln(append([]any{x.sec.Name}, parts...)...)
	h := hash(s)
	resMu.Lock()
	if len(states) < maxStates {
		states[h] = struct{}{}
	}
	x.sec.Steps++
	resMu.Unlock()
}

// StateH records a precomputed fingerprint.
func (x *X) StateH(h uint64) {
	resMu.Lock()
	if len(states) < maxStates {
		states[h^hash(x.sec.Name)] = struct{}{}
	}
	x.sec.Steps++
	resMu.Unlock()
}

// Outcome records a distinct final observation.
func (x *X) Outcome(parts ...any) {
	h := hash(fmt.Sprintln(parts...))
	resMu.Lock()
	x.sec.outcomes[h] = struct{}{}
	if len(states) < maxStates {
		states[h^hash(x.sec.Name)] = struct{}{}
	}
	resMu.Unlock()
	if x.keepLog {
		s := fmt.Sprintln(parts...)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		x.Logf("outcome: %s", strings.TrimSpace(s))
	}
}

func (x *X) sample() string {
	s := strings.Join(x.logs, " ")
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

func setCurSection(name string) {
	if curMap == nil {
		return
	}
	n := copy(curMap[8:256], name)
	binary.LittleEndian.PutUint32(curMap[4:], uint32(n))
	binary.LittleEndian.PutUint32(curMap[0:], 0)
}

func resetCur() {
	if curMap != nil {
		binary.LittleEndian.PutUint32(curMap[0:], 0)
	}
}

func setCur(pos, idx int) {
	if curMap == nil {
		return
	}
	off := 256 + 4*(pos+1)
	if off+4 > len(curMap) {
		return
	}
	binary.LittleEndian.PutUint32(curMap[off-4:], uint32(idx))
	binary.LittleEndian.PutUint32(curMap[0:], uint32(pos+1))
}

// Try runs f and returns the panic value, if it panicked, and its stack.
func Try(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case skip, failure:
				panic(r)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// NoCrash runs f and reports a violation if it panics.
func (x *X) NoCrash(what string, f func()) {
	if p, st := Try(f); p != nil {
		x.Fail("panic", "%s: crash: %v\n%s", what, p, trimStack(st))
	}
}

// Permutation chooses a permutation of 0..n-1.
func (x *X) Permutation(n int, label string) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		i := x.Choose(len(rest), label)
		out = append(out, rest[i])
		rest = append(rest[:i], rest[i+1:]...)
	}
	return out
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
