//go:build race

package vrt

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
)

var raceSeen int

var (
	raceRep = regexp.MustCompile(`(?s)WARNING: DATA RACE\n(.*?)\n\nPrevious \w+ at .*?\n(.*?)\n\n`)
	// frames that act on memory of their caller
	raceSkip = regexp.MustCompile(`^(runtime|bytes|strings|slices|maps|sort|bufio|math/\S+|crypto/\S+|hash/\S+|encoding/\S+|fmt|io|strconv|net/url|text/\S+|container/\w+|internal/runtime/\S+|github\.com/bits-and-blooms/\S+)\.`)
)

// raceCheck ends the process if the race detector saw two accesses by the code under test. Reports
// that involve the harness are no verdict: the detector is blind to the order the controller makes.
func raceCheck() {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return
	}
	raceSeen = n
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACELOG"), os.Getpid()))
	if err != nil {
		return
	}
	for _, m := range raceRep.FindAllStringSubmatch(string(b), -1) {
		own := true
		for _, part := range m[1:] {
			own = own && raceOwn(part)
		}
		if own {
			fmt.Fprintln(os.Stderr, strings.TrimSpace(m[0])+"\n\n")
			flush()
			os.Exit(66)
		}
	}
}

// raceOwn says whether the access was made by the code under test itself.
func raceOwn(part string) bool {
	for _, l := range strings.Split(part, "\n") {
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "      ") {
			continue
		}
		f := strings.TrimSpace(l)
		if raceSkip.MatchString(f) {
			continue
		}
		return strings.HasPrefix(f, "github.com/anivanovic/gotit/pkg/")
	}
	return false
}
