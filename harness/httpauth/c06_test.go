package httpauth_test

import (
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"errors"
	"fmt"
	"net"
	"net/url"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/gofiber/fiber/v3"
	"github.com/valyala/fasthttp"
	"golang.org/x/crypto/bcrypt"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

// tlsConn and plainConn stand in for the connection of a request.
type plainConn struct{ net.Conn }

func (plainConn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)} }
func (plainConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)} }

type tlsConn struct {
	plainConn

	st tls.ConnectionState
}

func (tlsConn) Handshake() error                       { return nil }
func (c tlsConn) ConnectionState() tls.ConnectionState { return c.st }

var (
	tokens = []string{"alpha", "alph", "alphaa", "Alpha", "ALPHA", "beta", "alpha beta", "bet", "a", "Bearer alpha", "αλφα", "YWxwaGE=",
		strings.Repeat("long.", 200) + "a", strings.Repeat("long.", 200) + "b", strings.Repeat("long.", 200)}
	users     = []string{"root", "roo", "root2", "Root", "svc", "a b", ""}
	passwords = []string{"secret", "secre", "secrett", "Secret", "s:ecret", ":", "x", "pässwörd", "secret:secret", ""}
	cns       = []string{"app.internal", "app.interna", "app.internal.", "App.internal", "*.internal", "db", " app.internal", "app.internal ", "app.internal\x00", "app.internal\x00x", "CN=db", "db,OU=x"}
	allScopes = []httpauth.Scope{httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin}
	hashes    = map[string][]byte{}
	hashOnce  sync.Once
)

func hashOf(p string) []byte {
	hashOnce.Do(func() {
		for _, p := range passwords {
			h, err := bcrypt.GenerateFromPassword([]byte(p), bcrypt.MinCost)
			if err != nil {
				panic("HARNESS-ERROR " + err.Error())
			}

			hashes[p] = h
		}
	})

	return hashes[p]
}

func scopeSet(rt *rapid.T) []httpauth.Scope {
	var out []httpauth.Scope

	for _, s := range allScopes {
		if rapid.IntRange(0, 2).Draw(rt, string(s)) > 0 {
			out = append(out, s)
		}
	}

	return out
}

func pick[T any](rt *rapid.T, label string, pool []T, maxN int) []T {
	idx := rapid.Permutation(seq(len(pool))).Draw(rt, label)
	n := rapid.IntRange(0, min(maxN, len(pool))).Draw(rt, label+"N")

	var out []T
	for _, i := range idx[:n] {
		out = append(out, pool[i])
	}

	return out
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}

	return out
}

type user struct{ name, pw string }

type spec struct {
	pol    httpauth.Policy
	users  []user
	hookOn bool
}

func genPolicy(rt *rapid.T) spec {
	s := spec{}

	for i, tok := range pick(rt, "tokens", tokens, 4) {
		s.pol.Tokens = append(s.pol.Tokens, httpauth.TokenIdentity{ID: fmt.Sprintf("tok-%d", i), Token: tok, Scopes: scopeSet(rt)})
	}

	for i, name := range pick(rt, "users", users[:len(users)-1], 3) {
		pw := rapid.SampledFrom(passwords).Draw(rt, "pw")
		s.users = append(s.users, user{name, pw})
		s.pol.BasicIdentities = append(s.pol.BasicIdentities, httpauth.BasicIdentity{ID: fmt.Sprintf("usr-%d", i), Username: name, PasswordBcrypt: hashOf(pw), Scopes: scopeSet(rt)})
	}

	for _, cn := range pick(rt, "cns", cns, 3) {
		s.pol.CertIdentities = append(s.pol.CertIdentities, httpauth.CertIdentity{SubjectCN: cn, Scopes: scopeSet(rt)})
	}

	s.pol.AllowAnonymous = rapid.IntRange(0, 4).Draw(rt, "anon") == 0
	s.pol.AllowBasicWithoutTLS = rapid.Bool().Draw(rt, "plainBasic")
	s.hookOn = rapid.IntRange(0, 2).Draw(rt, "hook") == 0

	if s.hookOn {
		s.pol.ServerVerify = func(c fiber.Ctx) (httpauth.Identity, error) {
			switch h := c.Get("X-Hook"); h {
			case "":
				return httpauth.Identity{ID: "must-not-count", Scopes: allScopes}, errors.New("no")
			case "nobody":
				// The hook decides: an identity without a name is admitted.
				return httpauth.Identity{Scopes: []httpauth.Scope{httpauth.ScopeRead}}, nil
			default:
				return httpauth.Identity{ID: "hook-" + h, Scopes: []httpauth.Scope{httpauth.Scope(h)}}, nil
			}
		}
	}

	return s
}

type request struct {
	auth    string // Authorization header, "" = absent
	tls     string // none, anon, unverified, verified, empty-chain
	cn, cn2 string
	hook    string
	extra   []string // header, value pairs that no credential source reads
	query   string
	host    string
	need    httpauth.Scope
	gate    bool
}

func genRequest(rt *rapid.T, s spec) request {
	r := request{need: rapid.SampledFrom([]httpauth.Scope{"read", "write", "admin", "read", "write", ""}).Draw(rt, "need"), gate: rapid.Bool().Draw(rt, "gate")}
	r.tls = rapid.SampledFrom([]string{"none", "none", "anon", "verified", "verified", "unverified", "empty-chain"}).Draw(rt, "tls")
	r.cn = rapid.SampledFrom(append(slices.Clone(cns), "")).Draw(rt, "cn")
	r.cn2 = rapid.SampledFrom(append(slices.Clone(cns), "")).Draw(rt, "cn2")
	r.hook = rapid.SampledFrom([]string{"", "", "read", "admin", "nobody"}).Draw(rt, "hook")

	if rapid.Bool().Draw(rt, "hasExtra") {
		secret := rapid.SampledFrom(tokens).Draw(rt, "extraTok")
		if len(s.pol.Tokens) > 0 {
			secret = s.pol.Tokens[0].Token
		}

		r.extra = rapid.SampledFrom([][]string{
			{"X-Forwarded-Proto", "https"}, {"X-Forwarded-Proto", "https", "X-Forwarded-For", "127.0.0.1"}, {"X-Forwarded-Ssl", "on"}, {"Forwarded", "proto=https"},
			{"X-Forwarded-Client-Cert", "Subject=\"CN=" + r.cn + "\""}, {"X-Client-Cert-Cn", r.cn}, {"X-Ssl-Client-S-Dn", "CN=" + r.cn}, {"X-Ssl-Client-Verify", "SUCCESS"},
			{"X-Forwarded-User", "root"}, {"Proxy-Authorization", "Bearer " + secret}, {"X-Auth-Token", secret}, {"X-Api-Key", secret},
			{"Cookie", "token=" + secret + "; Authorization=Bearer " + secret}, {"X-Original-Method", "OPTIONS"}, {"Upgrade", "h2c"}, {"Origin", "http://x", "Access-Control-Request-Method", "GET"},
		}).Draw(rt, "extra")
		r.query = rapid.SampledFrom([]string{"", "?token=" + secret, "?access_token=" + secret, "?debug=1"}).Draw(rt, "query")
		r.host = rapid.SampledFrom([]string{"x", "localhost", "127.0.0.1", "https"}).Draw(rt, "host")
	}

	basic := func(u, p string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p)) }

	switch rapid.SampledFrom([]string{"none", "bearer", "bearer", "bearer", "basic", "basic", "basic", "odd"}).Draw(rt, "kind") {
	case "bearer":
		tok := rapid.SampledFrom(tokens).Draw(rt, "tok")
		if len(s.pol.Tokens) > 0 && rapid.Bool().Draw(rt, "configured") {
			tok = s.pol.Tokens[rapid.IntRange(0, len(s.pol.Tokens)-1).Draw(rt, "ti")].Token
		}

		r.auth = "Bearer " + tok

		switch rapid.IntRange(0, 9).Draw(rt, "twist") {
		case 0:
			r.auth = tok
		case 1:
			r.auth = "Bearer  " + tok
		case 2:
			r.auth = "Bearer" + tok
		case 3:
			r.auth = "Basic " + tok
		case 4:
			r.auth = r.auth[:len(r.auth)-1]
		case 5:
			r.auth += "\x01"
		}
	case "basic":
		u, p := rapid.SampledFrom(users).Draw(rt, "u"), rapid.SampledFrom(passwords).Draw(rt, "p")
		if len(s.users) > 0 && rapid.IntRange(0, 3).Draw(rt, "configured") > 0 {
			x := s.users[rapid.IntRange(0, len(s.users)-1).Draw(rt, "ui")]
			u = x.name

			if rapid.Bool().Draw(rt, "right") {
				p = x.pw
			} else if rapid.Bool().Draw(rt, "cross") {
				p = s.users[rapid.IntRange(0, len(s.users)-1).Draw(rt, "uj")].pw
			}
		}

		r.auth = basic(u, p)

		if rapid.IntRange(0, 4).Draw(rt, "mangled") == 0 { // right up to where it is no base64 any more
			switch rapid.IntRange(0, 4).Draw(rt, "how") {
			case 0:
				r.auth += rapid.SampledFrom([]string{"!", "A", "=", "====", "-_", "%3D", " x", "*AAA", ",Basic x"}).Draw(rt, "junk")
			case 1:
				r.auth = r.auth[:len(r.auth)-1]
			case 2:
				r.auth = strings.TrimRight(r.auth, "=")
			case 3:
				at := rapid.IntRange(6, len(r.auth)).Draw(rt, "at")
				r.auth = r.auth[:at] + rapid.SampledFrom([]string{"!", "-", "_", "=", "."}).Draw(rt, "bad") + r.auth[at:]
			case 4: // a second block behind the padding
				r.auth += base64.StdEncoding.EncodeToString([]byte("root:secret"))
			}
		}
	case "odd":
		r.auth = rapid.SampledFrom([]string{"Bearer", "Bearer ", "Basic ", "Basic !!!", "Basic " + base64.StdEncoding.EncodeToString([]byte("root")), "Basic " + base64.RawStdEncoding.EncodeToString([]byte("root:x")), "Digest x", ":", "Basic Og=="}).Draw(rt, "odd")
	}

	return r
}

// decide is the reference: who may the request be admitted as, in the
// documented order of mechanisms. The second result lists acceptable
// identities (a basic and a certificate identity have no documented order).
func (s spec) decide(r request) (ids []httpauth.Identity) {
	for _, t := range s.pol.Tokens {
		if r.auth == "Bearer "+t.Token {
			return []httpauth.Identity{{ID: t.ID, Scopes: t.Scopes}}
		}
	}

	if enc, ok := strings.CutPrefix(r.auth, "Basic "); ok && (r.tls != "none" || s.pol.AllowBasicWithoutTLS) {
		if raw, err := base64.StdEncoding.DecodeString(enc); err == nil {
			if u, p, ok := strings.Cut(string(raw), ":"); ok {
				for i, x := range s.users {
					if x.name == u && x.pw == p {
						b := s.pol.BasicIdentities[i]
						ids = append(ids, httpauth.Identity{ID: b.ID, Scopes: b.Scopes})
					}
				}
			}
		}
	}

	if r.tls == "verified" && r.cn != "" {
		for _, ci := range s.pol.CertIdentities {
			if ci.SubjectCN == r.cn {
				ids = append(ids, httpauth.Identity{ID: ci.SubjectCN, Scopes: ci.Scopes})
			}
		}
	}

	if len(ids) > 0 {
		return ids
	}

	if s.hookOn && r.hook == "nobody" {
		return []httpauth.Identity{{Scopes: []httpauth.Scope{httpauth.ScopeRead}}}
	}

	if s.hookOn && r.hook != "" {
		return []httpauth.Identity{{ID: "hook-" + r.hook, Scopes: []httpauth.Scope{httpauth.Scope(r.hook)}}}
	}

	if s.pol.AllowAnonymous {
		return []httpauth.Identity{{ID: "anonymous", Scopes: allScopes}}
	}

	return nil
}

func (r request) conn() net.Conn {
	if r.tls == "none" {
		return plainConn{}
	}

	leaf := &x509.Certificate{Subject: pkix.Name{CommonName: r.cn}}
	// what else a certificate says about its holder names no identity
	leaf.DNSNames, leaf.EmailAddresses = []string{r.cn2, "app.internal"}, []string{"app.internal", r.cn2}
	leaf.Subject.Organization, leaf.Subject.OrganizationalUnit, leaf.Subject.SerialNumber = []string{r.cn2}, []string{"app.internal"}, r.cn2
	leaf.URIs = []*url.URL{{Scheme: "spiffe", Host: r.cn2}}
	leaf.Issuer.CommonName = r.cn2
	other := &x509.Certificate{Subject: pkix.Name{CommonName: r.cn2}}
	c := tlsConn{}

	switch r.tls {
	case "unverified":
		c.st.PeerCertificates = []*x509.Certificate{leaf, other}
	case "empty-chain":
		c.st.PeerCertificates = []*x509.Certificate{leaf}
		c.st.VerifiedChains = [][]*x509.Certificate{{}}
	case "verified":
		c.st.PeerCertificates = []*x509.Certificate{leaf, other}
		c.st.VerifiedChains = [][]*x509.Certificate{{leaf, other}, {leaf}}
	}

	return c
}

type outcome struct {
	status int
	ran    bool
	id     httpauth.Identity
	hasID  bool
	body   string
}

type server struct {
	h  fasthttp.RequestHandler
	mu sync.Mutex
	m  map[string]*outcome
}

func serve(p httpauth.Policy) *server {
	s := &server{m: map[string]*outcome{}}
	app := fiber.New()

	end := func(c fiber.Ctx) error {
		s.mu.Lock()
		o := s.m[c.Get("X-Case")]
		o.ran = true
		o.id, o.hasID = c.Locals(httpauth.IdentityKey).(httpauth.Identity)
		s.mu.Unlock()

		return c.SendString("served")
	}

	for _, sc := range []httpauth.Scope{"read", "write", "admin", ""} {
		app.Get("/mw/"+string(sc), p.Middleware(sc), end)
		app.Get("/gate/"+string(sc), func(c fiber.Ctx) error {
			if err := p.Verify(c, sc); err != nil {
				return err
			}

			return end(c)
		})
	}

	s.h = app.Handler()

	return s
}

func (s *server) do(key string, r request) outcome {
	o := &outcome{}

	s.mu.Lock()
	s.m[key] = o
	s.mu.Unlock()

	var ctx fasthttp.RequestCtx

	ctx.Init2(r.conn(), nil, false)

	where := "/mw/"
	if r.gate {
		where = "/gate/"
	}

	host := r.host
	if host == "" {
		host = "x"
	}

	ctx.Request.SetRequestURI("http://" + host + where + string(r.need) + r.query)

	for i := 0; i+1 < len(r.extra); i += 2 {
		ctx.Request.Header.Set(r.extra[i], r.extra[i+1])
	}

	ctx.Request.Header.Set("X-Case", key)

	if r.auth != "" {
		ctx.Request.Header.Set("Authorization", r.auth)
	}

	if r.hook != "" {
		ctx.Request.Header.Set("X-Hook", r.hook)
	}

	s.h(&ctx)

	o.status = ctx.Response.StatusCode()
	o.body = string(ctx.Response.Body())

	return *o
}

func (s spec) judge(r request, o outcome) error {
	ids := s.decide(r)

	if len(ids) == 0 {
		if o.status != 401 || o.ran {
			return fmt.Errorf("no credential matches, answered %d, handler ran: %v (as %q)", o.status, o.ran, o.id.ID)
		}

		return nil
	}

	for _, id := range ids {
		ok := r.need == "" || slices.Contains(id.Scopes, r.need)

		if !ok {
			if o.status == 403 && !o.ran {
				return nil
			}

			continue
		}

		if o.status == 200 && o.ran && o.hasID && o.id.ID == id.ID && slices.Equal(o.id.Scopes, id.Scopes) && o.body == "served" {
			for _, sc := range allScopes {
				has := slices.Contains(id.Scopes, sc)
				if o.id.HasScope(sc) != has || o.id.HasCapability("cache."+string(sc)) != has || o.id.HasCapability(string(sc)) {
					return fmt.Errorf("identity %v: scope or capability %q wrong", o.id, sc)
				}
			}

			if len(o.id.Capabilities()) != len(id.Scopes) {
				return fmt.Errorf("identity %v has capabilities %v", o.id, o.id.Capabilities())
			}

			return nil
		}
	}

	return fmt.Errorf("credentials of %v, scope %q needed: answered %d, handler ran: %v as %+v", ids, r.need, o.status, o.ran, o.id)
}

func TestC06Decision(t *testing.T) {
	vh.Run(t, "decision", "random policies (near-miss tokens, users, passwords, certificate names, hook, anonymous) each serving 1..12 random requests (exact and near-miss credentials, plain/TLS/verified/unverified connections, two gate styles), against a reference decision; sequential and concurrent; non-trivial: >=2 credential classes configured and both an admitted and a refused request", 700, func(rt *rapid.T, c *vh.Case) {
		s := genPolicy(rt)
		srv := serve(s.pol)
		n := rapid.IntRange(1, 12).Draw(rt, "n")
		reqs := make([]request, n)
		outs := make([]outcome, n)
		c.Log("tokens=%d users=%v certs=%d anon=%v plainBasic=%v hook=%v", len(s.pol.Tokens), s.users, len(s.pol.CertIdentities), s.pol.AllowAnonymous, s.pol.AllowBasicWithoutTLS, s.hookOn)

		for i := range reqs {
			reqs[i] = genRequest(rt, s)
			c.Log("%+v", reqs[i])
		}

		if rapid.IntRange(0, 3).Draw(rt, "concurrent") == 0 {
			var wg sync.WaitGroup
			for i := range reqs {
				wg.Go(func() { outs[i] = srv.do(fmt.Sprint(i), reqs[i]) })
			}

			wg.Wait()
			c.Label("concurrent")
		} else {
			for i := range reqs {
				outs[i] = srv.do(fmt.Sprint(i), reqs[i])
			}
		}

		yes, no := false, false

		for i, r := range reqs {
			if err := s.judge(r, outs[i]); err != nil {
				rt.Fatalf("request %+v: %v", r, err)
			}

			yes = yes || outs[i].ran
			no = no || !outs[i].ran
			c.LabelIf(outs[i].status == 403, "403")
			c.LabelIf(outs[i].ran && strings.HasPrefix(outs[i].id.ID, "usr-"), "basic admitted")
			c.LabelIf(outs[i].ran && r.tls == "verified" && slices.Contains(cns, outs[i].id.ID), "cert admitted")
		}

		classes := 0
		for _, b := range []bool{len(s.pol.Tokens) > 0, len(s.users) > 0, len(s.pol.CertIdentities) > 0, s.hookOn} {
			if b {
				classes++
			}
		}

		if s.pol.IsConfigured() != (classes > 0) {
			rt.Fatalf("IsConfigured %v with %d credential classes", s.pol.IsConfigured(), classes)
		}

		if err := s.pol.Validate(); err != nil {
			rt.Fatalf("a usable policy is refused: %v", err)
		}

		c.NT(classes >= 2 && yes && no)
	})
}

// Random secrets and one-edit neighbours of them.
func TestC06Neighbours(t *testing.T) {
	vh.Run(t, "neighbours", "random secrets as bearer token; the token is admitted, every one-edit neighbour (bit flip, drop, insert, double, case) is refused; non-trivial: secret of >=4 bytes", 600, func(rt *rapid.T, c *vh.Case) {
		ch := rapid.SampledFrom([]rune("abcXYZ019-._~+/=é "))
		tok := strings.TrimSpace(rapid.StringOfN(ch, 1, 40, -1).Draw(rt, "tok"))

		if tok == "" {
			return
		}

		p := httpauth.Policy{Tokens: []httpauth.TokenIdentity{{ID: "me", Token: tok, Scopes: allScopes}, {ID: "other", Token: "other-" + tok, Scopes: allScopes[:1]}}}
		srv := serve(p)

		if o := srv.do("a", request{auth: "Bearer " + tok, tls: "none", need: "admin"}); o.status != 200 || o.id.ID != "me" {
			rt.Fatalf("token %q is answered %d as %q", tok, o.status, o.id.ID)
		}

		i := rapid.IntRange(0, len(tok)-1).Draw(rt, "i")
		b := []byte(tok)

		var m string

		switch rapid.IntRange(0, 4).Draw(rt, "edit") {
		case 0:
			b[i] ^= 1 << rapid.IntRange(0, 5).Draw(rt, "bit")
			m = string(b)
		case 1:
			m = tok[:i] + tok[i+1:]
		case 2:
			m = tok[:i] + "q" + tok[i:]
		case 3:
			m = tok + tok
		case 4:
			m = strings.ToUpper(tok)
		}

		if m == tok || strings.TrimSpace(m) != m || strings.ContainsAny(m, "\r\n\x00") {
			return
		}

		c.Log("%q vs %q", tok, m)

		if o := srv.do("b", request{auth: "Bearer " + m, tls: "none", need: ""}); o.status != 401 || o.ran {
			rt.Fatalf("token %q was presented as %q and answered %d", tok, m, o.status)
		}

		c.NT(len(tok) >= 4)
	})
}

func TestC06Validate(t *testing.T) {
	vh.Run(t, "validate", "random usable policies with one credential made unusable at a random position; Validate must refuse exactly the damaged ones; non-trivial: >=2 credentials", 600, func(rt *rapid.T, c *vh.Case) {
		s := genPolicy(rt)
		p := s.pol
		total := len(p.Tokens) + len(p.BasicIdentities) + len(p.CertIdentities)

		if err := p.Validate(); err != nil {
			rt.Fatalf("a usable policy is refused: %v", err)
		}

		if total == 0 {
			return
		}

		k := rapid.IntRange(0, total-1).Draw(rt, "k")
		how := ""

		switch {
		case k < len(p.Tokens):
			if rapid.Bool().Draw(rt, "id") {
				p.Tokens[k].ID, how = "", "token id"
			} else {
				p.Tokens[k].Token, how = "", "token"
			}
		case k < len(p.Tokens)+len(p.BasicIdentities):
			b := &p.BasicIdentities[k-len(p.Tokens)]

			switch rapid.IntRange(0, 4).Draw(rt, "f") {
			case 0:
				b.ID, how = "", "basic id"
			case 1:
				b.Username, how = "", "username"
			case 2:
				b.PasswordBcrypt, how = nil, "no hash"
			case 3:
				b.PasswordBcrypt, how = []byte("hunter2"), "plain password"
			case 4:
				b.PasswordBcrypt, how = b.PasswordBcrypt[:rapid.IntRange(1, 6).Draw(rt, "cut")], "cut hash"
			}
		default:
			p.CertIdentities[k-len(p.Tokens)-len(p.BasicIdentities)].SubjectCN, how = "", "cn"
		}

		c.Log("%d of %d: %s", k, total, how)

		if err := p.Validate(); !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
			rt.Fatalf("policy with damaged %s: %v", how, err)
		}

		c.NT(total >= 2)
		c.Label(how)
	})
}
