package serializer_test

import (
	"bytes"
	stdjson "encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type inner struct {
	N  int64             `json:"n"`
	S  string            `json:"s"`
	Ok bool              `json:"ok"`
	M  map[string]string `json:"m,omitempty"`
}

type rec struct {
	A   int            `json:"a"`
	U   uint64         `json:"u"`
	F   float64        `json:"f"`
	S   string         `json:"s"`
	B   []byte         `json:"b"`
	L   []inner        `json:"l"`
	P   *inner         `json:"p"`
	M   map[string]any `json:"m"`
	T   time.Time      `json:"t"`
	D   time.Duration  `json:"d"`
	Any any            `json:"any"`
}

func text() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringN(0, 12, -1),
		rapid.SampledFrom([]string{"", "null", "true", "0", "\"", "\\", "a\nb\tc\rd", "<script>&'\"</script>", "\u2028\u2029", "😀漢字", "\x00\x01\x1f", "\\u0041", "{}", "[", "é̂"}),
	)
}

// value draws a JSON-shaped value.
func value(depth int) *rapid.Generator[any] {
	return rapid.Custom(func(t *rapid.T) any {
		k := rapid.IntRange(0, 7).Draw(t, "kind")
		if depth <= 0 && k > 4 {
			k %= 5
		}

		switch k {
		case 0:
			return nil
		case 1:
			return rapid.Bool().Draw(t, "bool")
		case 2:
			return float64(rapid.Int64Range(-(1<<53)+1, (1<<53)-1).Draw(t, "int"))
		case 3:
			return rapid.Float64Range(-1e300, 1e300).Draw(t, "float")
		case 4:
			return text().Draw(t, "text")
		case 5, 6:
			n := rapid.IntRange(0, 4).Draw(t, "len")
			l := make([]any, n)

			for i := range n {
				l[i] = value(depth-1).Draw(t, "el")
			}

			return l
		default:
			m := map[string]any{}
			for range rapid.IntRange(0, 4).Draw(t, "len") {
				m[text().Draw(t, "key")] = value(depth-1).Draw(t, "val")
			}

			return m
		}
	})
}

func depthOf(v any) int {
	d := 0

	switch x := v.(type) {
	case []any:
		for _, e := range x {
			d = max(d, depthOf(e))
		}

		return d + 1
	case map[string]any:
		for _, e := range x {
			d = max(d, depthOf(e))
		}

		return d + 1
	}

	return 0
}

func mustNew(rt *rapid.T, name string) serializer.ISerializer {
	s, err := serializer.New(name)
	if err != nil {
		rt.Fatalf("New(%q): %v", name, err)
	}

	return s
}

func TestC04DynamicRoundTrip(t *testing.T) {
	vh.Run(t, "dynamic", "random JSON-shaped values (nesting <=4, control characters, escapes, numeric extremes) through the default serializer into an any holding garbage; equal to the original and readable by encoding/json; non-trivial: nested value", 2500, func(rt *rapid.T, c *vh.Case) {
		s := mustNew(rt, "default")
		v := value(4).Draw(rt, "v")
		c.Log("%#v", v)

		b, err := s.Marshal(v)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}

		var got any = rapid.SampledFrom([]any{nil, "garbage", 3.0}).Draw(rt, "before")

		if err := s.Unmarshal(b, &got); err != nil {
			rt.Fatalf("unmarshal of %s: %v", b, err)
		}

		if !reflect.DeepEqual(got, v) {
			rt.Fatalf("%#v came back as %#v via %s", v, got, b)
		}

		var std any
		if err := stdjson.Unmarshal(b, &std); err != nil || !reflect.DeepEqual(std, v) {
			rt.Fatalf("%#v is encoded as %s, which reads %#v (%v)", v, b, std, err)
		}

		b2, err := stdjson.Marshal(v)
		if err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}

		var got2 any
		if err := s.Unmarshal(b2, &got2); err != nil || !reflect.DeepEqual(got2, v) {
			rt.Fatalf("standard encoding %s reads as %#v (%v)", b2, got2, err)
		}

		c.NT(depthOf(v) >= 1)
	})
}

func genInner(rt *rapid.T) inner {
	i := inner{N: rapid.Int64().Draw(rt, "n"), S: text().Draw(rt, "s"), Ok: rapid.Bool().Draw(rt, "ok")}
	if rapid.Bool().Draw(rt, "hasM") {
		i.M = map[string]string{text().Draw(rt, "mk"): text().Draw(rt, "mv")}
	}

	return i
}

func TestC04TypedRoundTrip(t *testing.T) {
	vh.Run(t, "typed", "random records with nested structs, pointers, byte slices, 64-bit integers, times and dynamic fields, and cache items, decoded into fresh targets of the same type by direct, pooled and pointer targets; non-trivial: record with list, pointer and bytes", 1500, func(rt *rapid.T, c *vh.Case) {
		s := mustNew(rt, "default")
		r := rec{
			A: rapid.Int().Draw(rt, "a"), U: rapid.Uint64().Draw(rt, "u"), F: rapid.Float64Range(-math.MaxFloat64, math.MaxFloat64).Draw(rt, "f"),
			S: text().Draw(rt, "s"), T: time.Unix(rapid.Int64Range(0, 1<<33).Draw(rt, "t"), rapid.Int64Range(0, 999999999).Draw(rt, "tn")).UTC(),
			D: time.Duration(rapid.Int64().Draw(rt, "d")), Any: value(2).Draw(rt, "any"),
		}
		if rapid.Bool().Draw(rt, "hasB") {
			r.B = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "b")
		}

		if rapid.Bool().Draw(rt, "hasL") {
			r.L = []inner{}
			for range rapid.IntRange(0, 3).Draw(rt, "ln") {
				r.L = append(r.L, genInner(rt))
			}
		}

		if rapid.Bool().Draw(rt, "hasP") {
			i := genInner(rt)
			r.P = &i
		}

		if rapid.Bool().Draw(rt, "hasMap") {
			r.M = map[string]any{text().Draw(rt, "k"): value(2).Draw(rt, "v")}
		}

		c.Log("%+v", r)

		for _, in := range []any{r, &r} {
			b, err := s.Marshal(in)
			if err != nil {
				rt.Fatalf("marshal: %v", err)
			}

			var got rec
			if err := s.Unmarshal(b, &got); err != nil {
				rt.Fatalf("unmarshal %s: %v", b, err)
			}

			if !reflect.DeepEqual(got, r) {
				rt.Fatalf("%+v came back as %+v via %s", r, got, b)
			}

			var p *rec
			if err := s.Unmarshal(b, &p); err != nil || p == nil || !reflect.DeepEqual(*p, r) {
				rt.Fatalf("%+v came back as %+v (%v) via pointer", r, p, err)
			}
		}

		it := cache.Item{Key: r.S, Value: value(2).Draw(rt, "iv"), Expiration: r.D, LastAccess: r.T, AccessCount: uint32(r.U >> 1), Version: r.U, Origin: r.S, Size: int64(r.A)}

		b, err := s.Marshal(&it)
		if err != nil {
			rt.Fatalf("marshal item: %v", err)
		}

		var got cache.Item
		if err := s.Unmarshal(b, &got); err != nil {
			rt.Fatalf("unmarshal item %s: %v", b, err)
		}

		if got.Key != it.Key || !reflect.DeepEqual(got.Value, it.Value) || got.Expiration != it.Expiration || !got.LastAccess.Equal(it.LastAccess) || got.AccessCount != it.AccessCount || got.Version != it.Version || got.Origin != it.Origin || got.Size != it.Size {
			rt.Fatalf("item %+v came back as %+v via %s", it, got, b)
		}

		c.NT(len(r.L) > 0 && r.P != nil && len(r.B) > 0)
	})
}

// Bytes that are not one JSON document are refused and the program survives
// arbitrary bytes.
func TestC04Malformed(t *testing.T) {
	vh.Run(t, "malformed", "encodings of random containers truncated, doubled, unbalanced or with a separator removed or repeated must be refused; arbitrary byte noise must not panic; values that JSON cannot hold (channels, functions, NaN, cycles of depth) must fail to marshal; non-trivial: a container of >=2 elements is damaged", 2500, func(rt *rapid.T, c *vh.Case) {
		s := mustNew(rt, "default")

		noise := rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte(`{}[]",:0-9eE.+truefalsn\ `))), 0, 40).Draw(rt, "noise")

		var (
			sink  any
			typed rec
		)

		for _, into := range []any{&sink, &typed} {
			if err := s.Unmarshal(noise, into); err == nil && !stdjson.Valid(noise) {
				rt.Fatalf("%q, which is no JSON text, was read as %#v into a %T", noise, sink, into)
			}
		}

		for _, v := range []any{make(chan int), func() {}, math.NaN(), math.Inf(1), map[string]any{"x": make(chan int)}, complex(1, 2)} {
			if b, err := s.Marshal(v); err == nil {
				rt.Fatalf("%T %v was marshalled as %s", v, v, b)
			}
		}

		n := rapid.IntRange(1, 4).Draw(rt, "n")
		list := []any{}
		obj := map[string]any{}

		for i := range n {
			e := value(2).Draw(rt, "e")
			list = append(list, e)
			obj[fmt.Sprintf("k%d", i)] = e
		}

		var doc any = list
		if rapid.Bool().Draw(rt, "obj") {
			doc = obj
		}

		b, err := s.Marshal(doc)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}

		var bad []byte

		how := rapid.SampledFrom([]string{"truncate", "double", "extra", "unquote", "open", "comma", "swap", "nul", "tail", "edit"}).Draw(rt, "how")
		switch how {
		case "truncate":
			bad = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "at")]
		case "double":
			bad = append(bytes.Clone(b), b...)
		case "extra":
			bad = append(bytes.Clone(b), rapid.SampledFrom([]byte(`]},x"1`)).Draw(rt, "x"))
		case "unquote":
			bad = []byte(strings.Replace(string(b), `"`, ``, 1))
			if !bytes.Contains(b, []byte{'"'}) {
				bad = nil
			}
		case "open":
			bad = append([]byte{'['}, b...)
		case "nul": // as a buffer that was not cut to length would have it
			bad = append(bytes.Clone(b), make([]byte, rapid.IntRange(1, 9).Draw(rt, "nuls"))...)
		case "tail": // garbage behind white space or a terminator
			bad = append(bytes.Clone(b), rapid.SampledFrom([]string{"\x00x", "\n]", "  1", "\n{}", "\x00" + string(b), "\xef\xbb\xbf", "//", "#"}).Draw(rt, "tail")...)
		case "edit": // one byte replaced, put in or left out
			at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
			x := rapid.SampledFrom([]byte("0-+.eE,:[]{}\"\\/tfnu \n\x00\x01\x1f\x7f1x'")).Draw(rt, "x")
			cut := rapid.IntRange(0, 1).Draw(rt, "cut")
			bad = append(bytes.Clone(b[:at]), b[at+cut:]...)

			if rapid.IntRange(0, 3).Draw(rt, "put") > 0 {
				bad = append(append(bytes.Clone(b[:at]), x), b[at+cut:]...)
			}
		case "comma":
			bad = append(bytes.Clone(b[:len(b)-1]), ',', ',', b[len(b)-1])
		case "swap":
			bad = bytes.Clone(b)
			if bad[len(bad)-1] == ']' {
				bad[len(bad)-1] = '}'
			} else {
				bad[len(bad)-1] = ']'
			}
		}

		if stdjson.Valid(bad) {
			return
		}

		c.Log("%s %q", how, bad)

		var v any = "before"
		if err := s.Unmarshal(bad, &v); err == nil {
			rt.Fatalf("damaged document %q (%s of %q) was read as %#v", bad, how, b, v)
		}

		c.NT(n >= 2)
		c.Label(how)
	})
}

type tagged struct{ tag string }

func (s *tagged) Marshal(v any) ([]byte, error) { return []byte(s.tag + fmt.Sprint(v)), nil }

func (s *tagged) Unmarshal(b []byte, v any) error {
	p, ok := v.(*string)
	if !ok || !strings.HasPrefix(string(b), s.tag) {
		return errors.New("not mine")
	}

	*p = strings.TrimPrefix(string(b), s.tag)

	return nil
}

func TestC04Registry(t *testing.T) {
	vh.Run(t, "registry", "random register/new histories over two registries and the package default, against a map model; the disabled msgpack shim always fails; non-trivial: a name is overridden in one registry while looked up in the other", 400, func(rt *rapid.T, c *vh.Case) {
		type reg struct {
			r *serializer.Registry
			m map[string]string
		}

		regs := []*reg{{serializer.NewSerializerRegistry(), map[string]string{"default": "", "msgpack": ""}}, {serializer.NewEmptySerializerRegistry(), map[string]string{}}}
		names := []string{"default", "msgpack", "x", "X", "y ", "json"}
		over, looked := false, false
		made := map[string]int{} // by each registered constructor
		seen := map[serializer.ISerializer]bool{}

		check := func(s serializer.ISerializer, name, tag string) {
			switch {
			case tag != "":
				b, err := s.Marshal("v")
				if err != nil || string(b) != tag+"v" {
					rt.Fatalf("serializer %q produced %q (%v), registered one produces %q", name, b, err, tag+"v")
				}

				var out string
				if err := s.Unmarshal(b, &out); err != nil || out != "v" {
					rt.Fatalf("serializer %q read %q (%v)", name, out, err)
				}
			case name == "default":
				b, err := s.Marshal("v")
				if err != nil || string(b) != `"v"` {
					rt.Fatalf("default serializer produced %q (%v)", b, err)
				}
			case name == "msgpack":
				if b, err := s.Marshal("v"); err == nil {
					rt.Fatalf("disabled serializer produced %q", b)
				}

				var out any
				if err := s.Unmarshal([]byte{0xa1, 'v'}, &out); err == nil {
					rt.Fatalf("disabled serializer read %v", out)
				}
			}
		}

		for i := range rapid.IntRange(1, 25).Draw(rt, "steps") {
			ri := rapid.IntRange(0, 1).Draw(rt, "reg")
			r := regs[ri]
			name := rapid.SampledFrom(names).Draw(rt, "name")

			if rapid.Bool().Draw(rt, "register") {
				tag := fmt.Sprintf("tag%d:", i)
				_, had := r.m[name]
				over = over || had
				r.r.Register(name, func() serializer.ISerializer {
					made[tag]++

					return &tagged{tag}
				})
				r.m[name] = tag
				c.Log("reg%d.register %q", ri, name)

				continue
			}

			looked = looked || over

			s, err := r.r.New(name)

			tag, ok := r.m[name]
			if ok != (err == nil) || err != nil && !errors.Is(err, sentinel.ErrSerializerNotFound) {
				rt.Fatalf("New(%q) = %v, registered: %v", name, err, ok)
			}

			if ok {
				check(s, name, tag)

				// what New gives is new, not one handed out before
				if tag != "" && (seen[s] || made[tag] == 0) {
					rt.Fatalf("New(%q) gave the same serializer again", name)
				}

				seen[s] = true
			}

			if _, err := r.r.New(""); !errors.Is(err, sentinel.ErrParamCannotBeEmpty) {
				rt.Fatalf("New of an empty name gives %v", err)
			}

			d, err := serializer.New(name)
			if (err == nil) != (name == "default" || name == "msgpack") {
				rt.Fatalf("package New(%q) gives %v", name, err)
			}

			if err == nil {
				check(d, name, "")
			}

			c.Log("reg%d.new %q", ri, name)
		}

		c.NT(over && looked)
	})
}

// Encodings and decoded values share no storage with one another, with the
// serializer or with what the caller does to its buffers.
func TestC04Independent(t *testing.T) {
	vh.Run(t, "independent", "histories of 4-24 calls on 1-3 serializers: marshal a random value and keep the bytes, unmarshal kept bytes, overwrite bytes that were returned or had been read, change a decoded value; every kept encoding still reads as its value and every decoded value stays what it was; non-trivial: an encoding is read after a later marshal", 500, func(rt *rapid.T, c *vh.Case) {
		sers := []serializer.ISerializer{}
		for range rapid.IntRange(1, 3).Draw(rt, "serializers") {
			sers = append(sers, mustNew(rt, "default"))
		}

		type kept struct {
			v    any
			data []byte
			from int
		}

		type read struct{ got, want any }

		var (
			keep  []kept
			reads []read
			nt    bool
		)

		check := func() {
			for _, r := range reads {
				if !reflect.DeepEqual(r.got, r.want) {
					rt.Fatalf("a decoded %#v later became %#v", r.want, r.got)
				}
			}
		}

		for i := range rapid.IntRange(4, 24).Draw(rt, "n") {
			s := sers[rapid.IntRange(0, len(sers)-1).Draw(rt, "s")]

			if len(keep) == 0 || rapid.IntRange(0, 2).Draw(rt, "op") == 0 {
				v := rapid.OneOf(value(3), rapid.Map(rapid.StringN(0, 200, -1), func(s string) any { return s })).Draw(rt, "v")

				b, err := s.Marshal(v)
				if err != nil {
					rt.Fatalf("marshal: %v", err)
				}

				c.Log("marshal %#v", v)

				keep = append(keep, kept{v, b, i})

				continue
			}

			j := rapid.IntRange(0, len(keep)-1).Draw(rt, "which")
			k := keep[j]
			nt = nt || j < len(keep)-1

			var got any
			if err := s.Unmarshal(k.data, &got); err != nil || !reflect.DeepEqual(got, k.v) {
				rt.Fatalf("%#v, serialized %d calls ago, reads as %#v (%v)", k.v, i-k.from, got, err)
			}

			reads = append(reads, read{got, k.v})

			if rapid.Bool().Draw(rt, "overwrite") {
				c.Log("unmarshal and overwrite %d", j)

				for x := range k.data {
					k.data[x] = '9'
				}

				keep = append(keep[:j], keep[j+1:]...)
			}

			check()
		}

		for _, k := range keep {
			var got any
			if err := sers[0].Unmarshal(k.data, &got); err != nil || !reflect.DeepEqual(got, k.v) {
				rt.Fatalf("%#v, serialized earlier, reads as %#v (%v)", k.v, got, err)
			}
		}

		check()
		c.NT(nt)
	})
}

func TestC04Concurrent(t *testing.T) {
	vh.Run(t, "concurrent", "one serializer used by 4 goroutines on different random values; each gets its own value back; non-trivial: always", 60, func(rt *rapid.T, c *vh.Case) {
		s := mustNew(rt, "default")

		vals := make([]any, 4)
		for i := range vals {
			vals[i] = map[string]any{"id": float64(i), "v": value(2).Draw(rt, "v")}
			c.Log("%v", vals[i])
		}

		var wg sync.WaitGroup

		errs := make([]error, 4)

		for i := range vals {
			wg.Go(func() {
				for range 50 {
					b, err := s.Marshal(vals[i])
					if err != nil {
						errs[i] = err

						return
					}

					var got any
					if err := s.Unmarshal(b, &got); err != nil || !reflect.DeepEqual(got, vals[i]) {
						errs[i] = fmt.Errorf("%v came back as %v (%w)", vals[i], got, err)

						return
					}
				}
			})
		}

		wg.Wait()

		for _, err := range errs {
			if err != nil {
				rt.Fatalf("%v", err)
			}
		}

		c.NT(true)
	})
}

// TestC04Large: values and encodings of megabytes.
func TestC04Large(t *testing.T) {
	vh.Run(t, "large", "strings, byte slices, lists and objects of 60 kB to 6 MB encoded and read back, and read by encoding/json; non-trivial: above 1 MB", 25, func(rt *rapid.T, c *vh.Case) {
		s := mustNew(rt, "default")
		n := rapid.SampledFrom([]int{60_000, 65_536, 300_000, 1 << 20, 1<<20 + 1, 4 << 20, 6 << 20}).Draw(rt, "n")
		unit := rapid.SampledFrom([]string{"x", "é", "\x00", "<&", "\\\"", "\u2028", "😀"}).Draw(rt, "unit")
		text := strings.Repeat(unit, n/len(unit))
		kind := rapid.SampledFrom([]string{"string", "bytes", "list", "object", "deep"}).Draw(rt, "kind")
		c.Log("%s of %d times %q", kind, n, unit)
		c.NT(n > 1<<20)

		var v any

		switch kind {
		case "string":
			v = text
		case "bytes":
			var got []byte

			b, err := s.Marshal([]byte(text))
			if err != nil || s.Unmarshal(b, &got) != nil || string(got) != text {
				rt.Fatalf("%d bytes came back as %d (%v)", len(text), len(got), err)
			}

			return
		case "list":
			l := make([]any, 0, n/8)
			for i := range n / 8 {
				l = append(l, float64(i*7))
			}

			v = l
		case "object":
			m := make(map[string]any, n/64)
			for i := range n / 64 {
				m[fmt.Sprintf("%s-%d", unit, i)] = []any{float64(i), unit}
			}

			v = m
		default:
			v = any(unit)
			for range 200 {
				v = []any{v, map[string]any{unit: text[:min(len(text), 4*len(unit))]}}
			}
		}

		b, err := s.Marshal(v)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}

		var got, std any
		if err := s.Unmarshal(b, &got); err != nil || !reflect.DeepEqual(got, v) {
			rt.Fatalf("a %s of %d does not come back from its %d bytes (%v)", kind, n, len(b), err)
		}

		if err := stdjson.Unmarshal(b, &std); err != nil || !reflect.DeepEqual(std, v) {
			rt.Fatalf("a %s of %d: encoding/json reads something else from the %d bytes (%v)", kind, n, len(b), err)
		}
	})
}
