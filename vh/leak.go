package vh

import (
	"runtime"
	"strings"
	"time"
)

// Running returns the stacks of the goroutines that run code of the module or
// of the HTTP servers it starts, other than the tests' own.
func Running() []string {
	buf := make([]byte, 1<<20)

	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]

			break
		}

		buf = make([]byte, 2*len(buf))
	}

	var out []string

	for g := range strings.SplitSeq(string(buf), "\n\n") {
		if strings.Contains(g, "/zzverif/") {
			continue
		}

		if strings.Contains(g, "updateServerDate") || strings.Contains(g, "fasthttp.init") {
			continue // started once per process
		}

		if strings.Contains(g, "fasthttp.(*workerPool).Start.func2") {
			continue // looks every 10 s whether its pool was stopped
		}

		if strings.Contains(g, "hyp3rd/hypercache") || strings.Contains(g, "gofiber/fiber") || strings.Contains(g, "valyala/fasthttp") {
			out = append(out, g)
		}
	}

	return out
}

// Quiet waits until Running reports nothing that is not in base, and returns
// what it reports after d.
func Quiet(d time.Duration, base []string) []string {
	id := func(g string) string { return g[:strings.IndexByte(g+"[", '[')] }
	old := map[string]bool{}

	for _, g := range base {
		old[id(g)] = true
	}

	var left []string

	Eventually(d, func() bool {
		left = nil

		for _, g := range Running() {
			if !old[id(g)] {
				left = append(left, g)
			}
		}

		return len(left) == 0
	})

	return left
}
