package root_test

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var (
	_ = testing.Verbose
	_ = vh.Scale
)

type mem = backend.InMemory

// setup is one generated cache configuration.
type setup struct {
	alg       string
	shards    int
	capacity  int
	maxSize   int64
	maxEvict  uint
	evictIvl  time.Duration
	expireIvl time.Duration
	trigBuf   int
	debounce  time.Duration
	wrapTyped bool
}

func (s setup) String() string {
	return fmt.Sprintf("alg=%s shards=%d cap=%d maxsize=%d maxevict=%d evict=%v expire=%v buf=%d debounce=%v",
		s.alg, s.shards, s.capacity, s.maxSize, s.maxEvict, s.evictIvl, s.expireIvl, s.trigBuf, s.debounce)
}

var algs = []string{"lru", "lfu", "clock", "cawolfu"}

func (s setup) build(ctx context.Context, fatal func(string, ...any)) *hypercache.HyperCache[mem] {
	cfg, err := hypercache.NewConfig[mem](constants.InMemoryBackend)
	if err != nil {
		fatal("config: %v", err)
	}

	cfg.InMemoryOptions = []backend.Option[mem]{backend.WithCapacity[mem](s.capacity)}
	cfg.HyperCacheOptions = []hypercache.Option[mem]{
		hypercache.WithEvictionAlgorithm[mem](s.alg),
		hypercache.WithEvictionShardCount[mem](s.shards),
		hypercache.WithEvictionInterval[mem](s.evictIvl),
		hypercache.WithExpirationInterval[mem](s.expireIvl),
		hypercache.WithMaxCacheSize[mem](s.maxSize),
		hypercache.WithExpirationTriggerBuffer[mem](s.trigBuf),
		hypercache.WithExpirationTriggerDebounce[mem](s.debounce),
	}

	if s.maxEvict > 0 {
		cfg.HyperCacheOptions = append(cfg.HyperCacheOptions, hypercache.WithMaxEvictionCount[mem](s.maxEvict))
	}

	hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
	if err != nil {
		fatal("new cache (%v): %v", s, err)
	}

	return hc
}

// val is a generated value with the size the cache must account for it
// (-1: unspecified, taken from the item).
type val struct {
	v    any
	size int64
}

type point struct{ X, Y int }

type sized struct{ n int }

func (s sized) SizeBytes() int { return s.n }

type marshaled struct{ s string }

func (m marshaled) MarshalBinary() ([]byte, error) { return []byte(m.s), nil }

var nextVal int

func drawVal(rt *rapid.T) val {
	nextVal++
	n := rapid.IntRange(0, 40).Draw(rt, "len")
	s := fmt.Sprintf("%d:", nextVal%1000)

	for len(s) < n {
		s += "x"
	}

	switch rapid.IntRange(0, 9).Draw(rt, "kind") {
	case 0:
		return val{s, int64(len(s))}
	case 1:
		return val{[]byte(s), int64(len(s))}
	case 2:
		return val{sized{n}, int64(n)}
	case 3:
		return val{marshaled{s}, int64(len(s))}
	case 4:
		return val{nextVal, -1}
	case 5:
		return val{&point{nextVal, n}, -1}
	case 6:
		return val{"", 0}
	case 8: // characters of several bytes
		s += "é世\xff"

		return val{s, int64(len(s))}
	case 9: // sometimes a big one
		if n%4 == 0 {
			s += string(make([]byte, 3000))
		}

		return val{s, int64(len(s))}
	default:
		return val{[]string{s, s}, -1}
	}
}

func same(a, b any) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)

		return ok && slices.Equal(x, y)
	case []string:
		y, ok := b.([]string)

		return ok && slices.Equal(x, y)
	default:
		return a == b
	}
}

func listing(rt *rapid.T, hc *hypercache.HyperCache[mem]) map[string]*cache.Item {
	items, err := hc.List(context.Background())
	if err != nil {
		rt.Fatalf("List: %v", err)
	}

	out := make(map[string]*cache.Item, len(items))

	for _, it := range items {
		if out[it.Key] != nil {
			rt.Fatalf("List returned key %q twice", it.Key)
		}

		out[it.Key] = it
	}

	return out
}

type unsizable struct{}

func (unsizable) MarshalBinary() ([]byte, error) { return nil, errors.New("no size") }
