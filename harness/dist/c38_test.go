package dist_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/dist"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// ownConfig is a caller's configuration with the fields of dist.Config.
type ownConfig dist.Config

// observe drives a node whose peers cannot be reached and returns what its
// settings show in: identity, membership, ring, outcome of reads and writes
// under its consistency levels, and queued hints.
func observe(rt *rapid.T, b backend.IBackend[backend.DistMemory], err error) []string {
	if err != nil {
		return []string{"error: " + err.Error()}
	}

	dm := b.(*backend.DistMemory)
	defer dm.Stop(bg)

	var members []string
	for _, n := range dm.Membership().List() {
		members = append(members, n.Address)
	}

	sort.Strings(members)

	out := []string{
		"id " + string(dm.LocalNodeID()), "addr " + dm.LocalNodeAddr(), "members " + strings.Join(members, " "),
		fmt.Sprint("replication ", dm.Ring().Replication(), " vnodes ", dm.Ring().VirtualNodesPerNode()),
	}

	for i := range 12 {
		k := fmt.Sprint("key-", i)
		err := dm.Set(bg, &cache.Item{Key: k, Value: i})
		_, ok := dm.Get(bg, k)
		out = append(out, fmt.Sprintf("%s owners %v set %v found %v", k, dm.DebugOwners(k), err, ok))
	}

	m := dm.Metrics()
	out = append(out, fmt.Sprint("hints ", m.HintedQueued, " dropped ", m.HintedDropped, " globally ", m.HintedGlobalDropped, " bytes>0 ", m.HintedBytes > 0))

	// A replay after the time-to-live drops the hints.
	time.Sleep(35 * time.Millisecond)

	m = dm.Metrics()
	out = append(out, fmt.Sprint("expired ", m.HintedExpired, " dropped ", m.HintedDropped, " replayed ", m.HintedReplayed))

	return out
}

func TestC38DistConfig(t *testing.T) {
	vh.Run(t, "config", "seeds given, and replication above one or a consistency not the default", 150, func(rt *rapid.T, c *vh.Case) {
		cfg := dist.Defaults()
		if want := (dist.Config{Replication: 1, VirtualNodes: 64, WriteConsistency: int(backend.ConsistencyQuorum)}); fmt.Sprintf("%+v", cfg) != fmt.Sprintf("%+v", want) {
			rt.Fatalf("default configuration %+v, documented %+v", cfg, want)
		}

		cfg.NodeID = rapid.SampledFrom([]string{"", "n1", "nøde"}).Draw(rt, "id")
		cfg.AdvertiseAddr = rapid.SampledFrom([]string{"", "10.0.0.1:7000"}).Draw(rt, "addr")

		if cfg.NodeID == "" && cfg.AdvertiseAddr == "" {
			cfg.NodeID = "n0"
		}

		cfg.Seeds = rapid.SliceOfN(rapid.SampledFrom([]string{"10.0.0.2:7000", "10.0.0.3:7000", "", "n4@10.0.0.4:7000"}), 0, 4).Draw(rt, "seeds")
		cfg.Replication = rapid.IntRange(-1, 4).Draw(rt, "replication")
		cfg.VirtualNodes = rapid.SampledFrom([]int{-1, 0, 1, 3, 64, 100}).Draw(rt, "vnodes")
		cfg.ReadConsistency = rapid.IntRange(-1, 4).Draw(rt, "read")
		cfg.WriteConsistency = rapid.IntRange(-1, 4).Draw(rt, "write")
		cfg.HintTTL = rapid.SampledFrom([]time.Duration{0, time.Millisecond, time.Hour}).Draw(rt, "hintTTL")
		cfg.HintReplay = rapid.SampledFrom([]time.Duration{0, 10 * time.Millisecond, time.Hour}).Draw(rt, "hintReplay")
		cfg.HintMaxPerNode = rapid.SampledFrom([]int{-1, 0, 1, 2, 5}).Draw(rt, "hintMax")

		form := rapid.SampledFrom([]string{"value", "pointer", "own", "other", "nil"}).Draw(rt, "form")
		c.Log("%s %+v", form, cfg)
		c.Label(form)
		c.NT(len(cfg.Seeds) > 0 && (cfg.Replication > 1 || cfg.WriteConsistency != 1 || cfg.ReadConsistency != 0))

		base := func() []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistTransport(backend.NewInProcessTransport())}
		}

		var (
			given any
			want  []backend.DistMemoryOption
		)

		switch form {
		case "value":
			given = cfg
		case "pointer":
			given = &cfg
		case "own":
			given = ownConfig(cfg)
		case "other":
			given = struct{ NodeID string }{"elsewhere"}
		}

		if form != "other" && form != "nil" {
			if cfg.NodeID != "" || cfg.AdvertiseAddr != "" {
				want = append(want, backend.WithDistNode(cfg.NodeID, cfg.AdvertiseAddr))
			}

			if len(cfg.Seeds) > 0 {
				want = append(want, backend.WithDistSeeds(cfg.Seeds))
			}

			if cfg.Replication > 0 {
				want = append(want, backend.WithDistReplication(cfg.Replication))
			}

			if cfg.VirtualNodes > 0 {
				want = append(want, backend.WithDistVirtualNodes(cfg.VirtualNodes))
			}

			if l := cfg.ReadConsistency; l >= int(backend.ConsistencyOne) && l <= int(backend.ConsistencyQuorum) {
				want = append(want, backend.WithDistReadConsistency(backend.ConsistencyLevel(l)))
			}

			if l := cfg.WriteConsistency; l >= int(backend.ConsistencyOne) && l <= int(backend.ConsistencyQuorum) {
				want = append(want, backend.WithDistWriteConsistency(backend.ConsistencyLevel(l)))
			}

			if cfg.HintTTL > 0 {
				want = append(want, backend.WithDistHintTTL(cfg.HintTTL))
			}

			if cfg.HintReplay > 0 {
				want = append(want, backend.WithDistHintReplayInterval(cfg.HintReplay))
			}

			if cfg.HintMaxPerNode > 0 {
				want = append(want, backend.WithDistHintMaxPerNode(cfg.HintMaxPerNode))
			}
		}

		// Options given besides the configuration win over it.
		extra := func() []backend.DistMemoryOption { return nil }
		if form == "other" || form == "nil" || rapid.IntRange(0, 3).Draw(rt, "extra") == 0 {
			extra = func() []backend.DistMemoryOption {
				return []backend.DistMemoryOption{backend.WithDistNode("override", "10.0.0.9:7000"), backend.WithDistReplication(2)}
			}
		}

		var got, ref []string

		vh.Bubble(t, func() {
			b, err := backend.NewDistMemoryWithConfig(bg, given, append(base(), extra()...)...)
			got = observe(rt, b, err)
		})
		vh.Bubble(t, func() {
			b, err := backend.NewDistMemory(bg, append(append(base(), want...), extra()...)...)
			ref = observe(rt, b, err)
		})

		if fmt.Sprint(got) != fmt.Sprint(ref) {
			rt.Fatalf("a node from the configuration shows\n%s\none from the same settings as options\n%s\n%s",
				strings.Join(got, "\n"), strings.Join(ref, "\n"), c.Desc())
		}
	})
}
