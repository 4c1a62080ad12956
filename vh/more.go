package vh

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

var (
	knownOnce sync.Once
	knownKeys map[string]string
	hitMu     sync.Mutex
	hit       = map[string]bool{}
)

// Known reports a failure identified by key: when the key is a listed finding
// it is only noted, otherwise the case fails.
func Known(rt *rapid.T, key, format string, args ...any) {
	if IsKnown(key) {
		return
	}

	rt.Fatalf("[%s] "+format, append([]any{key}, args...)...)
}

// IsKnown notes that the finding key was met and reports whether it is listed.
func IsKnown(key string) bool {
	knownOnce.Do(func() {
		_ = json.Unmarshal([]byte(os.Getenv("VH_KNOWN")), &knownKeys)
	})

	if _, ok := knownKeys[key]; !ok {
		return false
	}

	hitMu.Lock()
	defer hitMu.Unlock()

	if !hit[key] {
		hit[key] = true

		fmt.Printf("\nKNOWN-HIT key=%s\n", key)
	}

	return true
}

// Bubble runs f in a synctest bubble (virtual time, deterministic idleness)
// and hands its panics to the caller, as rapid expects.
func Bubble(t *testing.T, f func()) {
	t.Helper()

	var p any

	synctest.Test(t, func(*testing.T) {
		defer func() { p = recover() }()

		f()
	})

	// rapid tells failures apart by where they panic: keep its own "invalid
	// data" signal away from real failures, or shrinking confuses the two
	if p != nil {
		if fmt.Sprintf("%T", p) == "rapid.invalidData" {
			panic(p)
		}

		panic(p)
	}
}

// Within fails the case when f does not return in d (real time).
func Within(rt *rapid.T, d time.Duration, what string, f func()) {
	done := make(chan any, 1)

	go func() {
		var p any

		ok := false

		defer func() {
			if !ok {
				p = recover()
			}

			done <- p
		}()

		f()

		ok = true
	}()

	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
	case <-time.After(d):
		rt.Fatalf("%s did not return within %v", what, d)
	}
}

// Eventually polls cond until it holds or d elapsed.
func Eventually(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)

	for {
		if cond() {
			return true
		}

		if time.Now().After(end) {
			return false
		}

		time.Sleep(time.Millisecond)
	}
}
