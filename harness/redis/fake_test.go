package redis_test

import (
	"bufio"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
)

// fake is a Redis server speaking the RESP2 protocol over TCP: the commands a
// cache backend can reasonably use, the types and errors of the real server,
// transactions, expiry on a clock the test drives, and injected faults. As a
// cluster it is several nodes that each hold a range of the slots, answer MOVED
// for the others and refuse commands across slots.
type fake struct {
	mu    sync.Mutex
	nodes []*node
	now   time.Duration
	// tips makes COMMAND answer as Redis 7 does, with routing policies.
	tips    bool
	cluster bool
	// fault decides what happens to a command that reached the server.
	fault func(name string) fate
	// seen is every command received, in order.
	seen []string
	auth []string // "user:password" every connection gave
	dbs  []string // SELECTed databases
	tls  int      // connections that completed a TLS handshake
	need string   // password required, if any
	wg   sync.WaitGroup
}

type fate int

const (
	fine       fate = iota
	errBefore       // an error reply, nothing executed
	dropBefore      // connection closed, nothing executed
	dropAfter       // executed, connection closed before the reply
)

type node struct {
	f     *fake
	i     int
	l     net.Listener
	conns map[net.Conn]bool
	db    map[string]*entry
}

type entry struct {
	h  map[string]string
	s  map[string]bool
	at time.Duration // expiry, 0 for none
}

const slots = 16384

func newFake(n int, cluster bool, tc *tls.Config) *fake {
	f := &fake{cluster: cluster}

	for i := range n {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}

		nd := &node{f: f, i: i, l: l, conns: map[net.Conn]bool{}, db: map[string]*entry{}}
		f.nodes = append(f.nodes, nd)
	}

	for _, nd := range f.nodes {
		f.wg.Add(1)

		go func() {
			defer f.wg.Done()

			for {
				c, err := nd.l.Accept()
				if err != nil {
					return
				}

				f.mu.Lock()
				nd.conns[c] = true
				f.mu.Unlock()
				f.wg.Add(1)

				go func() {
					defer f.wg.Done()

					nd.serve(c, tc)
				}()
			}
		}()
	}

	return f
}

func (f *fake) addrs() []string {
	var a []string
	for _, n := range f.nodes {
		a = append(a, n.l.Addr().String())
	}

	return a
}

func (f *fake) close() {
	for _, n := range f.nodes {
		_ = n.l.Close()
	}

	f.mu.Lock()
	for _, n := range f.nodes {
		for c := range n.conns {
			_ = c.Close()
		}
	}
	f.mu.Unlock()
	f.wg.Wait()
}

func (f *fake) advance(d time.Duration) {
	f.mu.Lock()
	defer f.mu.Unlock()

	f.now += d
}

func (f *fake) setFault(fn func(string) fate) {
	f.mu.Lock()
	defer f.mu.Unlock()

	f.fault = fn
}

// commands returns the names of the commands seen since the last call.
// members of the set under a key.
func (f *fake) members(k string) []string {
	f.mu.Lock()
	defer f.mu.Unlock()

	var out []string

	for _, n := range f.nodes {
		if e := n.get(k); e != nil {
			for m := range e.s {
				out = append(out, m)
			}
		}
	}

	return out
}

func (f *fake) commands() []string {
	f.mu.Lock()
	defer f.mu.Unlock()

	s := f.seen
	f.seen = nil

	return s
}

var errDrop = errors.New("drop")

type status string

type fault string

type null struct{}

func (n *node) serve(c net.Conn, tc *tls.Config) {
	defer func() {
		_ = c.Close()

		n.f.mu.Lock()
		delete(n.conns, c)
		n.f.mu.Unlock()
	}()

	rw := c

	if tc != nil {
		t := tls.Server(c, tc)
		if t.Handshake() != nil {
			return
		}

		n.f.mu.Lock()
		n.f.tls++
		n.f.mu.Unlock()

		rw = t
	}

	r := bufio.NewReader(rw)
	w := bufio.NewWriter(rw)
	cn := &conn{n: n}

	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}

		out, err := cn.handle(args)
		if err != nil {
			_ = w.Flush()

			return
		}

		reply(w, out)

		if r.Buffered() == 0 && w.Flush() != nil {
			return
		}
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}

	if !strings.HasPrefix(line, "*") {
		return nil, io.ErrUnexpectedEOF
	}

	k, err := strconv.Atoi(strings.TrimSpace(line[1:]))
	if err != nil {
		return nil, err
	}

	args := make([]string, k)

	for i := range args {
		line, err = r.ReadString('\n')
		if err != nil {
			return nil, err
		}

		l, err := strconv.Atoi(strings.TrimSpace(line[1:]))
		if err != nil {
			return nil, err
		}

		b := make([]byte, l+2)
		if _, err = io.ReadFull(r, b); err != nil {
			return nil, err
		}

		args[i] = string(b[:l])
	}

	return args, nil
}

func reply(w *bufio.Writer, v any) {
	switch x := v.(type) {
	case status:
		fmt.Fprintf(w, "+%s\r\n", string(x))
	case fault:
		fmt.Fprintf(w, "-%s\r\n", string(x))
	case int:
		fmt.Fprintf(w, ":%d\r\n", x)
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x)
	case null:
		fmt.Fprint(w, "$-1\r\n")
	case []any:
		fmt.Fprintf(w, "*%d\r\n", len(x))

		for _, e := range x {
			reply(w, e)
		}
	case []string:
		fmt.Fprintf(w, "*%d\r\n", len(x))

		for _, e := range x {
			reply(w, e)
		}
	default:
		panic(fmt.Sprintf("reply %T", v))
	}
}

type conn struct {
	n      *node
	multi  bool
	abort  bool
	queue  [][]string
	authed bool
}

func (c *conn) handle(args []string) (any, error) {
	f := c.n.f
	f.mu.Lock()
	defer f.mu.Unlock()

	name := strings.ToUpper(args[0])
	args[0] = name

	switch name {
	case "HELLO":
		return fault("ERR unknown command 'HELLO'"), nil
	case "CLIENT", "READONLY", "READWRITE", "ASKING", "RESET":
		return status("OK"), nil
	case "AUTH":
		u, p := "default", args[len(args)-1]
		if len(args) == 3 {
			u = args[1]
		}

		f.auth = append(f.auth, u+":"+p)
		if f.need != "" && f.need != p {
			return fault("WRONGPASS invalid username-password pair or user is disabled."), nil
		}

		c.authed = true

		return status("OK"), nil
	}

	if f.need != "" && !c.authed {
		return fault("NOAUTH Authentication required."), nil
	}

	switch name {
	case "PING":
		return status("PONG"), nil
	case "SELECT":
		f.dbs = append(f.dbs, args[1])

		return status("OK"), nil
	case "COMMAND":
		return f.commandInfo(), nil
	case "CLUSTER":
		return f.clusterInfo(args), nil
	}

	f.seen = append(f.seen, name)

	fa := fine
	if f.fault != nil {
		fa = f.fault(name)
	}

	switch fa {
	case dropBefore:
		return nil, errDrop
	case errBefore:
		if c.multi {
			c.abort = true
			if name == "EXEC" {
				c.multi, c.queue, c.abort = false, nil, false
			}
		}

		return fault("ERR injected failure"), nil
	}

	out := c.command(args)
	if fa == dropAfter {
		return nil, errDrop
	}

	return out, nil
}

func (c *conn) command(args []string) any {
	switch args[0] {
	case "MULTI":
		c.multi, c.queue, c.abort = true, nil, false

		return status("OK")
	case "DISCARD":
		c.multi, c.queue = false, nil

		return status("OK")
	case "EXEC":
		if !c.multi {
			return fault("ERR EXEC without MULTI")
		}

		q, abort := c.queue, c.abort
		c.multi, c.queue, c.abort = false, nil, false

		if abort {
			return fault("EXECABORT Transaction discarded because of previous errors.")
		}

		out := []any{}
		for _, a := range q {
			out = append(out, c.n.exec(a))
		}

		return out
	}

	if bad := c.n.check(args); bad != "" {
		if c.multi {
			c.abort = true
		}

		return fault(bad)
	}

	if c.multi {
		c.queue = append(c.queue, args)

		return status("QUEUED")
	}

	return c.n.exec(args)
}

// keysOf returns the keys a command names.
func keysOf(args []string) []string {
	switch args[0] {
	case "DBSIZE", "FLUSHDB", "FLUSHALL", "SCAN", "KEYS":
		return nil
	case "DEL", "UNLINK", "EXISTS", "TOUCH":
		return args[1:]
	}

	if len(args) > 1 {
		return args[1:2]
	}

	return nil
}

var arity = map[string]int{
	"HSET": -4, "HGET": 3, "HGETALL": 2, "HMGET": -3, "SADD": -3, "SREM": -3, "SMEMBERS": 2, "SISMEMBER": 3, "SCARD": 2,
	"DEL": -2, "UNLINK": -2, "EXISTS": -2, "EXPIRE": -3, "PEXPIRE": -3, "PERSIST": 2, "TTL": 2, "PTTL": 2, "DBSIZE": 1,
	"FLUSHDB": -1, "FLUSHALL": -1, "SCAN": -2, "KEYS": 2, "TYPE": 2, "HDEL": -3, "SMISMEMBER": -3,
}

func (n *node) check(args []string) string {
	a, ok := arity[args[0]]
	if !ok {
		return fmt.Sprintf("ERR unknown command '%s'", args[0])
	}

	if (a > 0 && len(args) != a) || (a < 0 && len(args) < -a) {
		return fmt.Sprintf("ERR wrong number of arguments for '%s' command", strings.ToLower(args[0]))
	}

	if !n.f.cluster {
		return ""
	}

	slot := -1

	for _, k := range keysOf(args) {
		s := keySlot(k)
		if slot >= 0 && s != slot {
			return "CROSSSLOT Keys in request don't hash to the same slot"
		}

		slot = s
	}

	if slot >= 0 {
		if o := n.f.owner(slot); o != n {
			return fmt.Sprintf("MOVED %d %s", slot, o.l.Addr())
		}
	}

	return ""
}

func (f *fake) owner(slot int) *node { return f.nodes[slot*len(f.nodes)/slots] }

func (n *node) get(k string) *entry {
	e := n.db[k]
	if e != nil && e.at > 0 && n.f.now >= e.at {
		delete(n.db, k)

		return nil
	}

	return e
}

const wrongType = fault("WRONGTYPE Operation against a key holding the wrong kind of value")

func (n *node) exec(args []string) any {
	switch args[0] {
	case "DBSIZE":
		c := 0

		for k := range n.db {
			if n.get(k) != nil {
				c++
			}
		}

		return c
	case "FLUSHDB", "FLUSHALL":
		n.db = map[string]*entry{}

		return status("OK")
	case "KEYS", "SCAN":
		var ks []string

		for k := range n.db {
			if n.get(k) != nil {
				ks = append(ks, k)
			}
		}

		slices.Sort(ks)

		if args[0] == "SCAN" {
			return []any{"0", ks}
		}

		return ks
	case "DEL", "UNLINK", "EXISTS":
		c := 0

		for _, k := range args[1:] {
			if n.get(k) != nil {
				c++

				if args[0] != "EXISTS" {
					delete(n.db, k)
				}
			}
		}

		return c
	}

	k := args[1]
	e := n.get(k)

	switch args[0] {
	case "HSET", "HGET", "HGETALL", "HMGET", "HDEL":
		if e != nil && e.h == nil {
			return wrongType
		}
	case "SADD", "SREM", "SMEMBERS", "SISMEMBER", "SCARD", "SMISMEMBER":
		if e != nil && e.s == nil {
			return wrongType
		}
	}

	switch args[0] {
	case "HSET":
		if len(args)%2 != 0 {
			return fault("ERR wrong number of arguments for 'hset' command")
		}

		if e == nil {
			e = &entry{h: map[string]string{}}
			n.db[k] = e
		}

		c := 0

		for i := 2; i < len(args); i += 2 {
			if _, ok := e.h[args[i]]; !ok {
				c++
			}

			e.h[args[i]] = args[i+1]
		}

		return c
	case "HGET":
		if e == nil {
			return null{}
		}

		v, ok := e.h[args[2]]
		if !ok {
			return null{}
		}

		return v
	case "HMGET":
		out := []any{}

		for _, fl := range args[2:] {
			if e != nil {
				if v, ok := e.h[fl]; ok {
					out = append(out, v)

					continue
				}
			}

			out = append(out, null{})
		}

		return out
	case "HDEL":
		c := 0

		if e != nil {
			for _, fl := range args[2:] {
				if _, ok := e.h[fl]; ok {
					c++
					delete(e.h, fl)
				}
			}

			if len(e.h) == 0 {
				delete(n.db, k)
			}
		}

		return c
	case "HGETALL":
		out := []string{}
		if e != nil {
			for a, b := range e.h {
				out = append(out, a, b)
			}
		}

		return out
	case "SADD":
		if e == nil {
			e = &entry{s: map[string]bool{}}
			n.db[k] = e
		}

		c := 0

		for _, m := range args[2:] {
			if !e.s[m] {
				c++
				e.s[m] = true
			}
		}

		return c
	case "SREM":
		c := 0

		if e != nil {
			for _, m := range args[2:] {
				if e.s[m] {
					c++
					delete(e.s, m)
				}
			}

			if len(e.s) == 0 {
				delete(n.db, k)
			}
		}

		return c
	case "SMEMBERS":
		out := []string{}
		if e != nil {
			for m := range e.s {
				out = append(out, m)
			}
		}

		return out
	case "SISMEMBER":
		if e != nil && e.s[args[2]] {
			return 1
		}

		return 0
	case "SMISMEMBER":
		out := []any{}

		for _, m := range args[2:] {
			if e != nil && e.s[m] {
				out = append(out, 1)
			} else {
				out = append(out, 0)
			}
		}

		return out
	case "SCARD":
		if e == nil {
			return 0
		}

		return len(e.s)
	case "TYPE":
		switch {
		case e == nil:
			return status("none")
		case e.h != nil:
			return status("hash")
		}

		return status("set")
	case "EXPIRE", "PEXPIRE":
		v, err := strconv.ParseInt(args[2], 10, 64)
		if err != nil || len(args) > 3 {
			return fault("ERR value is not an integer or out of range")
		}

		if e == nil {
			return 0
		}

		unit := time.Millisecond
		if args[0] == "EXPIRE" {
			unit = time.Second
		}

		if v <= 0 {
			delete(n.db, k)

			return 1
		}

		if v > int64((1<<62)/unit) {
			v = int64((1 << 62) / unit)
		}

		e.at = n.f.now + time.Duration(v)*unit

		return 1
	case "PERSIST":
		if e == nil || e.at == 0 {
			return 0
		}

		e.at = 0

		return 1
	case "TTL", "PTTL":
		switch {
		case e == nil:
			return -2
		case e.at == 0:
			return -1
		case args[0] == "TTL":
			return int((e.at - n.f.now + time.Second - 1) / time.Second)
		}

		return int((e.at - n.f.now) / time.Millisecond)
	}

	return fault("ERR unknown command '" + args[0] + "'")
}

func (f *fake) commandInfo() any {
	out := []any{}

	names := make([]string, 0, len(arity))
	for n := range arity {
		names = append(names, n)
	}

	slices.Sort(names)

	for _, n := range names {
		first, last, step := 1, 1, 1
		tips := []string{}
		flags := []string{"fast"}

		switch n {
		case "DBSIZE":
			first, last, step = 0, 0, 0
			tips = []string{"request_policy:all_shards", "response_policy:agg_sum"}
		case "FLUSHDB", "FLUSHALL":
			first, last, step = 0, 0, 0
			tips = []string{"request_policy:all_shards", "response_policy:all_succeeded"}
		case "KEYS":
			first, last, step = 0, 0, 0
			tips = []string{"request_policy:all_shards", "nondeterministic_output_order"}
		case "SCAN":
			first, last, step = 0, 0, 0
			tips = []string{"nondeterministic_output", "request_policy:special", "response_policy:special"}
		case "DEL", "UNLINK", "EXISTS":
			last = -1
			tips = []string{"request_policy:multi_shard", "response_policy:agg_sum"}
		case "SMEMBERS", "HGETALL":
			tips = []string{"nondeterministic_output_order"}
		}

		switch n {
		case "HGET", "HGETALL", "HMGET", "SMEMBERS", "SISMEMBER", "SMISMEMBER", "SCARD", "EXISTS", "TTL", "PTTL", "DBSIZE", "SCAN", "KEYS", "TYPE":
			flags = append(flags, "readonly")
		default:
			flags = append(flags, "write")
		}

		info := []any{strings.ToLower(n), arity[n], flags, first, last, step}
		if f.tips {
			info = append(info, []string{"@all"}, tips, []any{}, []any{})
		}

		out = append(out, info)
	}

	return out
}

func (f *fake) clusterInfo(args []string) any {
	if !f.cluster {
		return fault("ERR This instance has cluster support disabled")
	}

	if len(args) < 2 || strings.ToUpper(args[1]) != "SLOTS" {
		return fault("ERR unknown subcommand")
	}

	out := []any{}

	for i, n := range f.nodes {
		lo, hi := -1, -1

		for s := range slots {
			if s*len(f.nodes)/slots == i {
				if lo < 0 {
					lo = s
				}

				hi = s
			}
		}

		a := n.l.Addr().(*net.TCPAddr)
		out = append(out, []any{lo, hi, []any{"127.0.0.1", a.Port, fmt.Sprintf("node-%d", i)}})
	}

	return out
}

func keySlot(k string) int {
	if i := strings.IndexByte(k, '{'); i >= 0 {
		if j := strings.IndexByte(k[i+1:], '}'); j > 0 {
			k = k[i+1 : i+1+j]
		}
	}

	var crc uint16

	for _, b := range []byte(k) {
		crc ^= uint16(b) << 8
		for range 8 {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}

	return int(crc) % slots
}
