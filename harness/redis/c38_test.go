package redis_test

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"net"
	"slices"
	"strings"
	"testing"
	"time"

	goredis "github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend/redis"
	"github.com/hyp3rd/hypercache/pkg/backend/rediscluster"
)

// ---- C38: settings reach the connections ----

// authority is a certificate authority with a certificate for 127.0.0.1 and
// the name "cache.example".
type authority struct {
	pool *x509.CertPool
	srv  *tls.Config
}

func newAuthority() authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}

	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "cache.example"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Now().Add(100 * time.Hour),
		DNSNames: []string{"cache.example"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}

	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}

	crt, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}

	a := authority{pool: x509.NewCertPool()}
	a.pool.AddCert(crt)
	a.srv = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, MinVersion: tls.VersionTLS12}

	return a
}

var ours, theirs = newAuthority(), newAuthority()

// silent accepts connections and never answers.
func silent() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}

	go func() {
		var keep []net.Conn

		for {
			c, err := l.Accept()
			if err != nil {
				for _, k := range keep {
					_ = k.Close()
				}

				return
			}

			keep = append(keep, c)
		}
	}()

	return l
}

var deadline = []time.Duration{-2, -1, 0, time.Millisecond, time.Second, 7 * time.Second, time.Hour}

// facts are the settings a caller can make that a client keeps.
func facts(o *goredis.Options) map[string]any {
	m := map[string]any{
		"addr": o.Addr, "username": o.Username, "password": o.Password, "db": o.DB, "retries": o.MaxRetries, "dial": o.DialTimeout,
		"read": o.ReadTimeout, "write": o.WriteTimeout, "fifo": o.PoolFIFO, "size": o.PoolSize, "wait": o.PoolTimeout, "idle": o.MinIdleConns,
		"tls": o.TLSConfig != nil,
	}
	if o.TLSConfig != nil {
		m["tls"] = o.TLSConfig.ServerName
	}

	return m
}

func clusterFacts(o *goredis.ClusterOptions) map[string]any {
	m := map[string]any{
		"addrs": fmt.Sprint(slices.Sorted(slices.Values(o.Addrs))), "username": o.Username, "password": o.Password, "retries": o.MaxRetries, "dial": o.DialTimeout,
		"read": o.ReadTimeout, "write": o.WriteTimeout, "size": o.PoolSize, "wait": o.PoolTimeout, "idle": o.MinIdleConns, "tls": o.TLSConfig != nil,
	}
	if o.TLSConfig != nil {
		m["tls"] = o.TLSConfig.ServerName
	}

	return m
}

// TestC38Options: any options in any order give the client those of the
// settings, the last of each kind, and otherwise the documented defaults.
func TestC38Options(t *testing.T) {
	vh.Run(t, "options", "at least three options", 400, func(rt *rapid.T, c *vh.Case) {
		clustered := rapid.Bool().Draw(rt, "cluster")
		n := rapid.IntRange(0, 12).Draw(rt, "n")

		var (
			single []redis.Option
			multi  []rediscluster.Option
		)

		want := &goredis.Options{
			Addr: "", MaxRetries: constants.RedisClientMaxRetries, DialTimeout: constants.RedisDialTimeout, ReadTimeout: constants.RedisClientReadTimeout,
			WriteTimeout: constants.RedisClientWriteTimeout, PoolSize: constants.RedisClientPoolSize,
			MinIdleConns: constants.RedisClientMinIdleConns, PoolTimeout: constants.RedisClientPoolTimeout,
		}
		wantAddrs := []string(nil)
		text := rapid.OneOf(rapid.StringN(0, 6, -1), rapid.SampledFrom([]string{"default", "root", "admin", " pad ", strings.Repeat("long", 300), "a:b@c", "\r\n"}))
		add := func(i int) {
			switch i {
			case 0:
				v := rapid.SampledFrom([]string{"127.0.0.1:1", "localhost:1", "[::1]:1", "", " ", "\t"}).Draw(rt, "addr")
				more := rapid.SliceOfN(rapid.SampledFrom([]string{"127.0.0.1:1", "127.0.0.2:1", "", " "}), 0, 2).Draw(rt, "more")
				want.Addr = v
				wantAddrs = append([]string{v}, more...)

				if rapid.IntRange(0, 9).Draw(rt, "none") == 0 {
					wantAddrs = nil
				}

				single = append(single, redis.WithAddr(v))
				multi = append(multi, rediscluster.WithAddrs(wantAddrs...))
				c.Log("addr %q %q", v, wantAddrs)
			case 1:
				v := text.Draw(rt, "username")
				want.Username = v
				single, multi = append(single, redis.WithUsername(v)), append(multi, rediscluster.WithUsername(v))
				c.Log("username %q", v)
			case 2:
				v := text.Draw(rt, "password")
				want.Password = v
				single, multi = append(single, redis.WithPassword(v)), append(multi, rediscluster.WithPassword(v))
				c.Log("password %q", v)
			case 3:
				v := rapid.OneOf(rapid.IntRange(-2, 5), rapid.SampledFrom([]int{10, 64, 1000, 1 << 31})).Draw(rt, "retries")
				want.MaxRetries = v
				single, multi = append(single, redis.WithMaxRetries(v)), append(multi, rediscluster.WithMaxRetries(v))
				c.Log("retries %d", v)
			case 4:
				v := rapid.SampledFrom(deadline).Draw(rt, "read")
				want.ReadTimeout = v
				single, multi = append(single, redis.WithReadTimeout(v)), append(multi, rediscluster.WithReadTimeout(v))
				c.Log("read %v", v)
			case 5:
				v := rapid.SampledFrom(deadline).Draw(rt, "write")
				want.WriteTimeout = v
				single, multi = append(single, redis.WithWriteTimeout(v)), append(multi, rediscluster.WithWriteTimeout(v))
				c.Log("write %v", v)
			case 6:
				v := rapid.SampledFrom(deadline).Draw(rt, "pool wait")
				want.PoolTimeout = v
				single, multi = append(single, redis.WithPoolTimeout(v)), append(multi, rediscluster.WithPoolTimeout(v))
				c.Log("wait %v", v)
			case 7:
				v := rapid.OneOf(rapid.IntRange(0, 50), rapid.SampledFrom([]int{100, 257, 1001, 5000, 20000})).Draw(rt, "size")
				want.PoolSize = v
				single, multi = append(single, redis.WithPoolSize(v)), append(multi, rediscluster.WithPoolSize(v))
				c.Log("size %v", v)
			case 8:
				v := rapid.OneOf(rapid.IntRange(0, 3), rapid.SampledFrom([]int{11, 30, 51})).Draw(rt, "idle")
				want.MinIdleConns = v
				single, multi = append(single, redis.WithMinIdleConns(v)), append(multi, rediscluster.WithMinIdleConns(v))
				c.Log("idle %v", v)
			case 9:
				var v *tls.Config
				if rapid.Bool().Draw(rt, "tls") {
					v = &tls.Config{ServerName: text.Draw(rt, "server"), MinVersion: tls.VersionTLS12}
				}

				want.TLSConfig = v
				single, multi = append(single, redis.WithTLSConfig(v)), append(multi, rediscluster.WithTLSConfig(v))
				c.Log("tls %v", v != nil)
			case 10: // single only
				v := rapid.OneOf(rapid.IntRange(0, 9), rapid.SampledFrom([]int{15, 16, 255, 1000})).Draw(rt, "db")
				single = append(single, redis.WithDB(v))

				if !clustered {
					want.DB = v
				}
			case 11:
				v := rapid.SampledFrom(deadline).Draw(rt, "dial")
				single = append(single, redis.WithDialTimeout(v))

				if !clustered {
					want.DialTimeout = v
				}
			case 12:
				v := rapid.Bool().Draw(rt, "fifo")
				single = append(single, redis.WithPoolFIFO(v))

				if !clustered {
					want.PoolFIFO = v
				}
			}
		}

		if rapid.IntRange(0, 9).Draw(rt, "addressed") > 0 {
			add(0)
		}

		for range n {
			add(rapid.IntRange(0, 12).Draw(rt, "option"))
		}

		c.NT(n >= 3)

		if clustered {
			bad := len(wantAddrs) == 0 || slices.ContainsFunc(wantAddrs, func(a string) bool { return strings.TrimSpace(a) == "" })
			st, err := rediscluster.New(multi...)

			if bad != (err != nil) || (err == nil) != (st != nil) {
				rt.Fatalf("addresses %q: store %v, error %v\n%s", wantAddrs, st != nil, err, c.Desc())
			}

			c.LabelIf(bad, "refused")

			if bad {
				return
			}

			defer st.Client.Close()

			ref := goredis.NewClusterClient(&goredis.ClusterOptions{
				Addrs: wantAddrs, Username: want.Username, Password: want.Password, MaxRetries: want.MaxRetries, DialTimeout: want.DialTimeout,
				ReadTimeout: want.ReadTimeout, WriteTimeout: want.WriteTimeout, PoolSize: want.PoolSize, MinIdleConns: want.MinIdleConns,
				PoolTimeout: want.PoolTimeout, TLSConfig: want.TLSConfig,
			})
			defer ref.Close()

			if a, b := clusterFacts(st.Client.Options()), clusterFacts(ref.Options()); fmt.Sprint(a) != fmt.Sprint(b) {
				rt.Fatalf("the client has\n%v\nwanted\n%v\n%s", a, b, c.Desc())
			}

			return
		}

		bad := strings.TrimSpace(want.Addr) == ""
		st, err := redis.New(single...)

		if bad != (err != nil) || (err == nil) != (st != nil) {
			rt.Fatalf("address %q: store %v, error %v\n%s", want.Addr, st != nil, err, c.Desc())
		}

		c.LabelIf(bad, "refused")

		if bad {
			return
		}

		defer st.Client.Close()

		ref := goredis.NewClient(want)
		defer ref.Close()

		if a, b := facts(st.Client.Options()), facts(ref.Options()); fmt.Sprint(a) != fmt.Sprint(b) {
			rt.Fatalf("the client has\n%v\nwanted\n%v\n%s", a, b, c.Desc())
		}
	})
}

// TestC38Wire: what a server sees of the settings: the credentials and
// database given, over TLS exactly when TLS is configured, and to no server
// that cannot prove it is the one configured.
func TestC38Wire(t *testing.T) {
	vh.Run(t, "wire", "TLS or credentials configured", 400, func(rt *rapid.T, c *vh.Case) {
		clustered := rapid.Bool().Draw(rt, "cluster")
		serverTLS := rapid.SampledFrom([]string{"", "ours", "ours", "theirs"}).Draw(rt, "server")
		clientTLS := rapid.SampledFrom([]string{"", "ours", "ours", "misnamed", "insecure"}).Draw(rt, "client")
		user := rapid.SampledFrom([]string{"", "", "svc", "ünï"}).Draw(rt, "user")
		pass := rapid.SampledFrom([]string{"", "s3cret", "p w:\x01"}).Draw(rt, "pass")
		need := rapid.SampledFrom([]string{"", pass, pass, "other"}).Draw(rt, "need")
		db := rapid.IntRange(0, 3).Draw(rt, "db")

		if user != "" && pass == "" {
			pass = "x"
		}

		if clustered {
			db = 0
		}

		var tc *tls.Config

		switch serverTLS {
		case "ours":
			tc = ours.srv
		case "theirs":
			tc = theirs.srv
		}

		f := newFake(1, clustered, tc)
		defer f.close()

		f.mu.Lock()
		f.need = need
		f.mu.Unlock()

		var cfg *tls.Config

		switch clientTLS {
		case "ours":
			cfg = &tls.Config{RootCAs: ours.pool, MinVersion: tls.VersionTLS12}
		case "misnamed":
			cfg = &tls.Config{RootCAs: ours.pool, ServerName: "other.example", MinVersion: tls.VersionTLS12}
		case "insecure":
			cfg = &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS12} //nolint:gosec // the case under test
		}

		c.Log("cluster=%v server TLS %q client TLS %q user %q pass %q need %q db %d", clustered, serverTLS, clientTLS, user, pass, need, db)
		c.NT(clientTLS != "" || pass != "")

		trust := (serverTLS == "" && cfg == nil) || (serverTLS == "ours" && (clientTLS == "ours" || clientTLS == "insecure")) ||
			(serverTLS == "theirs" && clientTLS == "insecure")
		admitted := trust && (need == "" || need == pass)

		c.LabelIf(admitted, "admitted")
		c.LabelIf(!trust, "untrusted")

		var ping func() error

		if clustered {
			o := []rediscluster.Option{rediscluster.WithAddrs(f.addrs()...), rediscluster.WithMinIdleConns(0), rediscluster.WithMaxRetries(-1),
				rediscluster.WithReadTimeout(2 * time.Second), func(o *goredis.ClusterOptions) { o.MaxRedirects = -1; o.DialerRetries = 1 }}
			if user != "" {
				o = append(o, rediscluster.WithUsername(user))
			}

			if pass != "" {
				o = append(o, rediscluster.WithPassword(pass))
			}

			if cfg != nil {
				o = append(o, rediscluster.WithTLSConfig(cfg))
			}

			st, err := rediscluster.New(o...)
			if err != nil {
				rt.Fatalf("New: %v", err)
			}

			defer st.Client.Close()

			ping = func() error { return st.Client.Get(bg, "k").Err() }
		} else {
			o := []redis.Option{redis.WithAddr(f.addrs()[0]), redis.WithMinIdleConns(0), redis.WithMaxRetries(-1), redis.WithDB(db),
				redis.WithReadTimeout(2 * time.Second), func(o *goredis.Options) { o.DialerRetries = 1 }}
			if user != "" {
				o = append(o, redis.WithUsername(user))
			}

			if pass != "" {
				o = append(o, redis.WithPassword(pass))
			}

			if cfg != nil {
				o = append(o, redis.WithTLSConfig(cfg))
			}

			st, err := redis.New(o...)
			if err != nil {
				rt.Fatalf("New: %v", err)
			}

			defer st.Client.Close()

			ping = func() error { return st.Client.Get(bg, "k").Err() }
		}

		// GET is a command the server does not have: its refusal is an answer.
		err := ping()
		answered := err != nil && strings.Contains(err.Error(), "unknown command 'GET'")

		f.mu.Lock()
		auth, dbs, handshakes := slices.Clone(f.auth), slices.Clone(f.dbs), f.tls
		f.mu.Unlock()

		if answered != admitted {
			rt.Fatalf("answered %v, want %v: %v\n%s", answered, admitted, err, c.Desc())
		}

		if !trust && len(auth)+len(dbs) > 0 {
			rt.Fatalf("an untrusted server was given %q %q\n%s", auth, dbs, c.Desc())
		}

		if trust && (cfg != nil) != (handshakes > 0) {
			rt.Fatalf("%d TLS handshakes\n%s", handshakes, c.Desc())
		}

		if trust && pass != "" {
			u := user
			if u == "" {
				u = "default"
			}

			if len(auth) == 0 || slices.ContainsFunc(auth, func(a string) bool { return a != u+":"+pass }) {
				rt.Fatalf("the server was given %q\n%s", auth, c.Desc())
			}
		}

		if pass == "" && len(auth) > 0 {
			rt.Fatalf("the server was given %q without credentials\n%s", auth, c.Desc())
		}

		if admitted && db != 0 && (len(dbs) == 0 || slices.ContainsFunc(dbs, func(d string) bool { return d != fmt.Sprint(db) })) {
			rt.Fatalf("databases %q selected\n%s", dbs, c.Desc())
		}
	})
}

// TestC38Timeouts: a server that does not answer is given up on after the
// read timeout, and a handshake with it after the dial timeout.
func TestC38Timeouts(t *testing.T) {
	vh.Run(t, "timeouts", "every case", 12, func(rt *rapid.T, c *vh.Case) {
		l := silent()
		defer l.Close()

		mode := rapid.SampledFrom([]string{"read", "read-cluster", "dial-tls"}).Draw(rt, "mode")
		d := time.Duration(rapid.IntRange(20, 60).Draw(rt, "ms")) * time.Millisecond

		c.Log("%s %v", mode, d)
		c.NT(true)

		var run func() error

		switch mode {
		case "read", "dial-tls":
			o := []redis.Option{redis.WithAddr(l.Addr().String()), redis.WithMinIdleConns(0), redis.WithMaxRetries(-1),
				func(o *goredis.Options) { o.DialerRetries = 1 }}
			if mode == "read" {
				o = append(o, redis.WithReadTimeout(d))
			} else {
				o = append(o, redis.WithDialTimeout(d), redis.WithTLSConfig(&tls.Config{RootCAs: ours.pool, MinVersion: tls.VersionTLS12}))
			}

			st, err := redis.New(o...)
			if err != nil {
				rt.Fatalf("New: %v", err)
			}

			defer st.Client.Close()

			run = func() error { return st.Client.Ping(bg).Err() }
		default:
			st, err := rediscluster.New(rediscluster.WithAddrs(l.Addr().String()), rediscluster.WithMinIdleConns(0), rediscluster.WithMaxRetries(-1),
				rediscluster.WithReadTimeout(d), func(o *goredis.ClusterOptions) { o.DialerRetries = 1; o.MaxRedirects = -1 })
			if err != nil {
				rt.Fatalf("New: %v", err)
			}

			defer st.Client.Close()

			run = func() error { return st.Client.Get(bg, "k").Err() }
		}

		start := time.Now()

		vh.Within(rt, 8*time.Second, "a call to a server that does not answer", func() {
			if run() == nil {
				rt.Fatalf("no error from a server that does not answer")
			}
		})

		if took := time.Since(start); took < d/2 {
			rt.Fatalf("gave up after %v with a timeout of %v", took, d)
		}
	})
}
