package rest_test

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/bcrypt"
	"pgregory.net/rapid"
	"verif.local/vh"
)

// ---- C39: a server runs with exactly the configuration it was given ----

// ---- certificates ----

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

func pemOf(kind string, der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der})
}

func must[T any](v T, err error) T {
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}

	return v
}

func newAuthority(cn string) *authority {
	key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign,
	}
	der := must(x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key))

	return &authority{must(x509.ParseCertificate(der)), key, pemOf("CERTIFICATE", der)}
}

func (a *authority) issue(cn string) (certPEM, keyPEM []byte) {
	key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage:    x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
	}
	der := must(x509.CreateCertificate(rand.Reader, tpl, a.cert, &key.PublicKey, a.key))

	return pemOf("CERTIFICATE", der), pemOf("EC PRIVATE KEY", must(x509.MarshalECPrivateKey(key)))
}

// ---- identity provider ----

type provider struct {
	srv  *httptest.Server
	mu   sync.Mutex
	keys map[string]*rsa.PrivateKey
	lie  bool // announce another issuer
}

func newProvider() *provider {
	p := &provider{keys: map[string]*rsa.PrivateKey{}}
	mux := http.NewServeMux()
	mux.HandleFunc("/.well-known/openid-configuration", func(w http.ResponseWriter, _ *http.Request) {
		iss := p.srv.URL
		if p.lie {
			iss += "/other"
		}

		_ = json.NewEncoder(w).Encode(map[string]any{
			"issuer": iss, "jwks_uri": p.srv.URL + "/keys", "authorization_endpoint": p.srv.URL + "/a",
			"token_endpoint": p.srv.URL + "/t", "id_token_signing_alg_values_supported": []string{"RS256"},
		})
	})
	mux.HandleFunc("/keys", func(w http.ResponseWriter, _ *http.Request) {
		p.mu.Lock()
		defer p.mu.Unlock()

		var ks []map[string]any

		for kid, k := range p.keys {
			ks = append(ks, map[string]any{
				"kty": "RSA", "alg": "RS256", "use": "sig", "kid": kid,
				"n": base64.RawURLEncoding.EncodeToString(k.N.Bytes()),
				"e": base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.E)).Bytes()),
			})
		}

		_ = json.NewEncoder(w).Encode(map[string]any{"keys": ks})
	})
	p.srv = httptest.NewServer(mux)

	return p
}

func (p *provider) add(kid string, k *rsa.PrivateKey) {
	p.mu.Lock()
	defer p.mu.Unlock()

	p.keys[kid] = k
}

func jwt(alg, kid string, claims map[string]any, sign func([]byte) []byte) string {
	hdr := map[string]any{"alg": alg, "typ": "JWT"}
	if kid != "" {
		hdr["kid"] = kid
	}

	in := base64.RawURLEncoding.EncodeToString(jsonBody(hdr)) + "." + base64.RawURLEncoding.EncodeToString(jsonBody(claims))

	return in + "." + base64.RawURLEncoding.EncodeToString(sign([]byte(in)))
}

func rs256(k *rsa.PrivateKey) func([]byte) []byte {
	return func(in []byte) []byte {
		h := sha256.Sum256(in)

		return must(rsa.SignPKCS1v15(rand.Reader, k, crypto.SHA256, h[:]))
	}
}

// ---- the world a case draws from ----

var (
	tokenPool = []string{"tok-alpha-0123456789", "tok-alpha-012345678", "Tok-alpha-0123456789", "tok-beta-9876543210", "tok-gamma-5555555555", "tok-alpha-0123456789x"}
	userPool  = []string{"ops", "Ops", "svc", "op"}
	passPool  = []string{"pass-word-1111", "pass-word-111", "Pass-word-1111", "colon:in:it-2222"}
	cnPool    = []string{"app.internal", "App.internal", "app.interna", "db.internal"}
	every     = []string{"read", "write", "admin"}
)

type world struct {
	ca, other  *authority
	idp        *provider
	key, rogue *rsa.PrivateKey
	next       []*rsa.PrivateKey
	hashes     map[string]string
	certs      map[string]tls.Certificate // by CN; "!CN" is issued by the other authority
	dir        string
	certFile   string
	keyFile    string
	caFile     string
	roots      *x509.CertPool
}

func newWorld(t *testing.T) *world {
	t.Helper()

	w := &world{
		ca: newAuthority("verif CA"), other: newAuthority("other CA"), idp: newProvider(),
		key: must(rsa.GenerateKey(rand.Reader, 2048)), rogue: must(rsa.GenerateKey(rand.Reader, 2048)),
		hashes: map[string]string{}, certs: map[string]tls.Certificate{}, dir: t.TempDir(), roots: x509.NewCertPool(),
	}
	t.Cleanup(w.idp.srv.Close)
	w.idp.add("k0", w.key)

	for range 3 {
		w.next = append(w.next, must(rsa.GenerateKey(rand.Reader, 2048)))
	}

	for _, p := range passPool {
		w.hashes[p] = string(must(bcrypt.GenerateFromPassword([]byte(p), bcrypt.MinCost)))
	}

	for _, cn := range append([]string{""}, cnPool...) {
		c, k := w.ca.issue(cn)
		w.certs[cn] = must(tls.X509KeyPair(c, k))
		c, k = w.other.issue(cn)
		w.certs["!"+cn] = must(tls.X509KeyPair(c, k))
	}

	c, k := w.ca.issue("server")
	w.certFile, w.keyFile, w.caFile = w.write("cert.pem", c), w.write("key.pem", k), w.write("ca.pem", w.ca.pem)
	w.roots.AddCert(w.ca.cert)

	return w
}

func (w *world) write(name string, b []byte) string {
	p := filepath.Join(w.dir, name)
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}

	return p
}

type grant struct {
	id     string
	scopes []string
}

func (g grant) has(s string) bool { return slices.Contains(g.scopes, s) }

// settings is a drawn configuration and what it must mean.
type settings struct {
	env      []string
	tls      bool
	mtls     bool
	token    string // HYPERCACHE_AUTH_TOKEN
	file     bool
	tokens   map[string]grant
	users    map[string]grant // by username
	userPass map[string]string
	certs    map[string]grant
	anon     bool
	plainOK  bool
	oidc     bool
	idClaim  string
	scClaim  string
	secrets  []string
}

func drawScopes(rt *rapid.T) []string {
	n := rapid.IntRange(1, 7).Draw(rt, "scopes")

	var out []string

	for i, s := range every {
		if n&(1<<i) != 0 {
			out = append(out, s)
		}
	}

	return out
}

func some(rt *rapid.T, label string, pool []string, maxN int) []string {
	return rapid.Permutation(pool).Draw(rt, label)[:rapid.IntRange(0, maxN).Draw(rt, label+"N")]
}

func (w *world) draw(rt *rapid.T) *settings {
	s := &settings{tokens: map[string]grant{}, users: map[string]grant{}, userPass: map[string]string{}, certs: map[string]grant{}}

	switch rapid.SampledFrom([]string{"plain", "plain", "tls", "mtls"}).Draw(rt, "tls") {
	case "tls":
		s.tls = true
	case "mtls":
		s.tls, s.mtls = true, true
	}

	if s.tls {
		s.env = append(s.env, "HYPERCACHE_API_TLS_CERT="+w.certFile, "HYPERCACHE_API_TLS_KEY="+w.keyFile)
	}

	if s.mtls {
		s.env = append(s.env, "HYPERCACHE_API_TLS_CLIENT_CA="+w.caFile)
	}

	if rapid.IntRange(0, 2).Draw(rt, "legacy") == 0 {
		s.token = "legacy-" + rapid.SampledFrom(tokenPool).Draw(rt, "legacyToken")
		s.env = append(s.env, "HYPERCACHE_AUTH_TOKEN="+s.token)
		s.secrets = append(s.secrets, s.token)
	}

	if rapid.IntRange(0, 3).Draw(rt, "file") > 0 {
		s.file = true
		s.anon = rapid.IntRange(0, 5).Draw(rt, "anon") == 0
		s.plainOK = rapid.Bool().Draw(rt, "plainOK")

		var toks, users, certs []map[string]any

		for i, t := range some(rt, "tokens", tokenPool, 3) {
			g := grant{fmt.Sprintf("tok-%d", i), drawScopes(rt)}
			s.tokens[t] = g
			s.secrets = append(s.secrets, t)
			toks = append(toks, map[string]any{"id": g.id, "token": t, "scopes": g.scopes})
		}

		for i, u := range some(rt, "users", userPool, 2) {
			g := grant{fmt.Sprintf("user-%d", i), drawScopes(rt)}
			pw := rapid.SampledFrom(passPool).Draw(rt, "password")
			s.users[u], s.userPass[u] = g, pw
			s.secrets = append(s.secrets, pw, w.hashes[pw])
			users = append(users, map[string]any{"id": g.id, "username": u, "password_bcrypt": w.hashes[pw], "scopes": g.scopes})
		}

		for _, cn := range some(rt, "cns", cnPool, 2) {
			g := grant{"", drawScopes(rt)}
			s.certs[cn] = g
			certs = append(certs, map[string]any{"subject_cn": cn, "scopes": g.scopes})
		}

		doc := map[string]any{"allow_anonymous": s.anon, "allow_basic_without_tls": s.plainOK}
		for k, v := range map[string][]map[string]any{"tokens": toks, "users": users, "cert_identities": certs} {
			if len(v) > 0 {
				doc[k] = v
			}
		}

		f := w.write(fmt.Sprintf("auth-%d.yaml", rapid.IntRange(0, 1<<30).Draw(rt, "fileNo")), jsonBody(doc))
		s.env = append(s.env, "HYPERCACHE_AUTH_CONFIG="+f)
	} else if s.token != "" {
		s.tokens[s.token] = grant{"default", every}
	}

	if rapid.IntRange(0, 2).Draw(rt, "oidc") == 0 {
		s.oidc = true
		s.idClaim, s.scClaim = "sub", "scope"
		s.env = append(s.env, "HYPERCACHE_OIDC_ISSUER="+w.idp.srv.URL, "HYPERCACHE_OIDC_AUDIENCE=the-cache")

		if rapid.Bool().Draw(rt, "idClaim") {
			s.idClaim = "email"
			s.env = append(s.env, "HYPERCACHE_OIDC_IDENTITY_CLAIM=email")
		}

		if rapid.Bool().Draw(rt, "scClaim") {
			s.scClaim = "cache_scopes"
			s.env = append(s.env, "HYPERCACHE_OIDC_SCOPE_CLAIM=cache_scopes")
		}
	}

	if !s.file && s.token == "" && !s.oidc {
		s.anon = true
	}

	return s
}

// cred is what a request presents.
type cred struct {
	what   string
	header string // Authorization
	cn     string // client certificate, "-" for none
	// what it resolves to by itself, ignoring the certificate
	bearer string
	user   string
	pass   string
	jwt    *grant
}

func (s *settings) resolve(c cred, tlsOn bool) (grant, bool) {
	if g, ok := s.tokens[c.bearer]; ok && c.bearer != "" {
		return g, true
	}

	if g, ok := s.users[c.user]; ok && c.user != "" && s.userPass[c.user] == c.pass && (tlsOn || s.plainOK) {
		return g, true
	}

	if tlsOn && s.mtls && c.cn != "-" {
		if g, ok := s.certs[c.cn]; ok {
			return grant{c.cn, g.scopes}, true
		}
	}

	if s.oidc && c.jwt != nil {
		return *c.jwt, true
	}

	if s.anon {
		return grant{"anonymous", every}, true
	}

	return grant{}, false
}

func anyOf(rt *rapid.T, label string, m map[string]grant) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	slices.Sort(ks)

	return rapid.SampledFrom(ks).Draw(rt, label)
}

func basic(u, p string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p)) }

func (w *world) drawCred(rt *rapid.T, s *settings) cred {
	c := cred{cn: "-"}

	if s.mtls {
		cns := append([]string{""}, cnPool...)
		if len(s.certs) > 0 && rapid.Bool().Draw(rt, "knownCN") {
			c.cn = anyOf(rt, "cn", s.certs)
		} else {
			c.cn = rapid.SampledFrom(cns).Draw(rt, "cn")
		}
	}

	kinds := []string{"none", "token", "token", "basic", "basic", "mangled", "jwt", "jwt"}
	if s.oidc {
		kinds = append(kinds, "jwt", "jwt", "jwt", "jwt")
	}

	switch rapid.SampledFrom(kinds).Draw(rt, "cred") {
	case "none":
		c.what = "no credential"
	case "token":
		t := rapid.SampledFrom(append([]string{"legacy-" + tokenPool[0]}, tokenPool...)).Draw(rt, "token")
		if len(s.tokens) > 0 && rapid.IntRange(0, 2).Draw(rt, "known") > 0 {
			t = anyOf(rt, "token", s.tokens)
		}

		if s.token != "" && rapid.IntRange(0, 4).Draw(rt, "peer") == 0 {
			t = s.token
		}

		c.bearer, c.header, c.what = t, "Bearer "+t, "token "+t
	case "basic":
		u, p := rapid.SampledFrom(userPool).Draw(rt, "user"), rapid.SampledFrom(passPool).Draw(rt, "pass")
		if len(s.users) > 0 && rapid.IntRange(0, 2).Draw(rt, "known") > 0 {
			u = anyOf(rt, "user", s.users)
			if rapid.IntRange(0, 2).Draw(rt, "knownPass") > 0 {
				p = s.userPass[u]
			}
		}

		c.user, c.pass, c.header, c.what = u, p, basic(u, p), "user "+u+" password "+p
	case "mangled":
		t, u, p := tokenPool[0], userPool[0], passPool[0]
		if len(s.tokens) > 0 {
			t = anyOf(rt, "token", s.tokens)
		}

		if len(s.users) > 0 {
			u = anyOf(rt, "user", s.users)
			p = s.userPass[u]
		}

		c.header = rapid.SampledFrom([]string{
			t, "Bearer", "bearer " + t, "BEARER " + t, "Bearer: " + t, "Bearer  " + t, "Token " + t, "Basic " + t, "Bearer " + t + "," + t,
			"Bearer \"" + t + "\"", "Bearer " + t[:len(t)-1] + "\\", "Basic", "Basic " + base64.StdEncoding.EncodeToString([]byte(u)),
			basic(u, p+":"), basic(u, ""), basic("", p), basic(u+":"+p, p), basic(strings.ToUpper(u)+"\x00", p), "basic " + basic(u, p)[6:],
			"Bearer " + base64.StdEncoding.EncodeToString([]byte(t)), "Bearer " + t + "%20", "Bearer null", "Negotiate " + t,
		}).Draw(rt, "mangled")
		c.what = "header " + c.header
	case "jwt":
		c.header, c.jwt, c.what = w.drawJWT(rt, s)
		c.header = "Bearer " + c.header
	}

	return c
}

// drawJWT makes a token and says what it is worth (nil: nothing).
func (w *world) drawJWT(rt *rapid.T, s *settings) (string, *grant, string) {
	idClaim, scClaim := "sub", "scope"
	if s.oidc {
		idClaim, scClaim = s.idClaim, s.scClaim
	}

	id := rapid.SampledFrom([]string{"alice", "bob@example.com", "ünï", "anonymous"}).Draw(rt, "subject")
	g := &grant{id: id}
	claims := map[string]any{
		"iss": w.idp.srv.URL, "aud": "the-cache", "exp": time.Now().Add(time.Hour).Unix(), "iat": time.Now().Unix(), "sub": "the-subject", idClaim: id,
	}
	what := "jwt for " + id

	switch rapid.IntRange(0, 5).Draw(rt, "scopeShape") {
	case 0, 1:
		g.scopes = drawScopes(rt)
		claims[scClaim] = strings.Join(g.scopes, " ")
	case 2:
		g.scopes = drawScopes(rt)
		claims[scClaim] = g.scopes
	case 3: // with names it must not know
		g.scopes = drawScopes(rt)
		claims[scClaim] = "openid " + strings.Join(g.scopes, "  ") + " READ superadmin write:all readwrite"
	case 4:
		claims[scClaim] = rapid.SampledFrom([]any{7, true, nil, map[string]any{"read": true}, "", "read,write", "cache.read", []any{1, true}, "Admin"}).Draw(rt, "odd")
	default: // the scopes under another claim
		claims["scopes"] = "read write admin"
		if scClaim != "scope" {
			claims["scope"] = "read write admin"
		} else {
			claims["cache_scopes"] = every
		}
	}

	what += fmt.Sprintf(" scopes %v (%v)", g.scopes, claims[scClaim])

	kid, key := "k0", w.key

	flaw := rapid.SampledFrom([]string{
		"", "", "", "", "", "audList", "rotated", "nokid", "aud", "audPart", "iss", "issSlash", "expired", "noexp", "nbf", "rogue", "rogueKid", "none", "hmac", "tampered", "noid", "numid", "emptyid", "cut", "nosig",
	}).Draw(rt, "flaw")

	switch flaw {
	case "":
	case "audList":
		claims["aud"] = []string{"another", "the-cache"}
	case "rotated":
		i := rapid.IntRange(0, 2).Draw(rt, "rotation")
		kid, key = fmt.Sprintf("r%d", i), w.next[i]
		w.idp.add(kid, key)
	case "nokid":
		kid = ""
	default:
		g = nil
		what = "flawed (" + flaw + ") " + what
	}

	sign, alg := rs256(key), "RS256"

	switch flaw {
	case "aud":
		claims["aud"] = "The-cache"
	case "audPart":
		claims["aud"] = []string{"the-cach", "the-cache2"}
	case "iss":
		claims["iss"] = "https://elsewhere.example"
	case "issSlash":
		claims["iss"] = w.idp.srv.URL + "/"
	case "expired":
		claims["exp"] = time.Now().Add(-time.Minute).Unix()
	case "noexp":
		delete(claims, "exp")
	case "nbf":
		claims["nbf"] = time.Now().Add(20 * time.Minute).Unix()
	case "rogue":
		sign = rs256(w.rogue)
	case "rogueKid":
		kid, sign = "rogue", rs256(w.rogue)
	case "none":
		alg, sign = "none", func([]byte) []byte { return nil }
	case "hmac":
		alg, sign = "HS256", func(in []byte) []byte {
			m := hmac.New(sha256.New, x509.MarshalPKCS1PublicKey(&w.key.PublicKey))
			m.Write(in)

			return m.Sum(nil)
		}
	case "noid":
		delete(claims, idClaim)
	case "numid":
		claims[idClaim] = 42
	case "emptyid":
		claims[idClaim] = ""
	}

	tok := jwt(alg, kid, claims, sign)

	switch flaw {
	case "tampered":
		claims[scClaim], claims["more"] = "read write admin", 1
		parts := strings.Split(tok, ".")
		tok = parts[0] + "." + base64.RawURLEncoding.EncodeToString(jsonBody(claims)) + "." + parts[2]
	case "cut":
		tok = tok[:len(tok)-8]
	case "nosig":
		parts := strings.Split(tok, ".")
		tok = parts[0] + "." + parts[1] + "."
	}

	return tok, g, what
}

// route is one endpoint and what it demands.
type route struct {
	mgmt         bool
	method, path string
	scope        string // "" is public
	body         string
	ok           int // status when admitted
	write        string
}

func drawRoute(rt *rapid.T) route {
	k := fmt.Sprintf("key%d", rapid.IntRange(0, 3).Draw(rt, "key"))
	batch := `{"items":[{"key":"` + k + `","value":"batched"}]}`
	keys := `{"keys":["` + k + `"]}`

	r := rapid.SampledFrom([]route{
		{false, "GET", "/healthz", "", "", 200, ""},
		{false, "GET", "/v1/openapi.yaml", "", "", 200, ""},
		{false, "PUT", "/v1/cache/" + k, "write", "single", 200, k},
		{false, "PUT", "/v1/cache/" + k + "?ttl=1h", "write", "single", 200, k},
		{false, "PUT", "/V1/Cache/" + k, "write", "single", 200, k},
		{false, "GET", "/v1/cache/" + k, "read", "", 0, ""},
		{false, "GET", "/V1/CACHE/" + k, "read", "", 0, ""},
		{false, "HEAD", "/v1/cache/" + k, "read", "", 0, ""},
		{false, "DELETE", "/v1/cache/" + k, "write", "", 200, k},
		{false, "GET", "/v1/owners/" + k, "read", "", 200, ""},
		{false, "HEAD", "/v1/owners/" + k, "read", "", 200, ""},
		{false, "GET", "/v1/cache/keys", "read", "", 200, ""},
		{false, "GET", "/v1/cache/keys?q=key*", "read", "", 200, ""},
		{false, "GET", "/v1/me", "read", "", 200, ""},
		{false, "GET", "/v1/me", "read", "", 200, ""},
		{false, "GET", "/v1/me/can?capability=cache.read", "read", "", 200, ""},
		{false, "GET", "/v1/me/can?capability=cache.write", "read", "", 200, ""},
		{false, "GET", "/v1/me/can?capability=cache.admin", "read", "", 200, ""},
		{false, "POST", "/v1/cache/batch/get", "read", keys, 200, ""},
		{false, "POST", "/v1/cache/batch/put", "write", batch, 200, k},
		{false, "POST", "/v1/cache/batch/delete", "write", keys, 200, k},
		{true, "GET", "/health", "", "", 200, ""},
		{true, "GET", "/stats", "read", "", 200, ""},
		{true, "HEAD", "/stats", "read", "", 200, ""},
		{true, "GET", "/config", "read", "", 200, ""},
		{true, "GET", "/CONFIG", "read", "", 200, ""},
		{true, "GET", "/dist/metrics", "read", "", 200, ""},
		{true, "GET", "/dist/owners?key=" + k, "read", "", 200, ""},
		{true, "GET", "/cluster/members", "read", "", 200, ""},
		{true, "GET", "/cluster/ring", "read", "", 200, ""},
		{true, "GET", "/cluster/heartbeat", "read", "", 200, ""},
		{true, "GET", "/cluster/events", "read", "", 200, ""},
		{true, "POST", "/evict", "admin", "", 202, ""},
		{true, "POST", "/trigger-expiration", "admin", "", 202, ""},
		{true, "POST", "/clear", "admin", "", 200, ""},
		{true, "POST", "/clear/", "admin", "", 200, ""},
	}).Draw(rt, "route")

	return r
}

// client returns a caller presenting the certificate.
func (w *world) client(s *settings, cn string) *caller {
	c := newCaller()
	if s.tls {
		cfg := &tls.Config{RootCAs: w.roots}
		if cn != "-" {
			cert := w.certs[cn]
			// present it whatever the server says it accepts
			cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
		}

		c.cl.Transport.(*http.Transport).TLSClientConfig = cfg
	}

	return c
}

// head runs a request and gives up reading the body of a stream.
func (c *caller) head(rt *rapid.T, method, url string, hdr ...string) resp {
	ctx, cancel := context.WithTimeout(bg, 10*time.Second)
	defer cancel()

	req := must(http.NewRequestWithContext(ctx, method, url, nil))
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}

	r, err := c.cl.Do(req)
	if err != nil {
		rt.Fatalf("%s %s: %v", method, url, err)
	}

	defer r.Body.Close()

	b := make([]byte, 256)
	n, _ := io.ReadAtLeast(r.Body, b, 1)

	return resp{r.StatusCode, r.Header, b[:n]}
}

func TestC39Auth(t *testing.T) {
	w := newWorld(t)

	vh.Run(t, "server-auth", "a hypercache-server process configured with any combination of the legacy token, an auth file (tokens, basic users, client-certificate identities, anonymous, basic without TLS; possibly empty), OIDC (a local identity provider, either identity and scope claim) and plaintext, TLS or mTLS: 20-50 requests to any route of the client API, the management API and the peer API with no, right, almost right or mangled credentials and JWTs valid or flawed in one way; the decision, the reported identity and the effect are those the configuration spells out, secrets stay out of the log, and clients without a certificate of the right authority get no connection under mTLS. Non-trivial: both an admitted and a refused request", 60, func(rt *rapid.T, c *vh.Case) {
		s := w.draw(rt)
		p := newProc("node-1", append(s.env, "HYPERCACHE_LOG_LEVEL=debug", "HYPERCACHE_REPLICATION=1")...)

		if s.tls {
			p.scheme = "https"
		}

		p.start(rt)
		defer p.kill()

		probe := cnPool[0]
		clients := map[string]*caller{}

		for cn := range w.certs {
			clients[cn] = w.client(s, cn)
		}

		clients["-"] = w.client(s, "-")
		defer func() {
			for _, cl := range clients {
				cl.cl.CloseIdleConnections()
			}
		}()

		c.Log("config %v", s.env)

		if !p.up(clients[probe].cl) {
			rt.Fatalf("does not serve with a valid configuration: exited %v\n%s", p.exited(), tail(p.out.String()))
		}

		c.LabelIf(s.tls, "TLS")
		c.LabelIf(s.mtls, "mTLS")
		c.LabelIf(s.oidc, "OIDC")
		c.LabelIf(s.oidc && !s.file && s.token == "", "only OIDC")
		c.LabelIf(s.file && s.token != "", "file and token")
		c.LabelIf(s.anon, "anonymous")

		if s.tls { // nothing is served in plaintext
			pl := newCaller()
			if r, err := pl.try("GET", "http://"+p.api+"/healthz", nil); err == nil && r.status == 200 {
				rt.Fatalf("the API answers in plaintext although TLS is configured: %v", r)
			}
		}

		if s.mtls {
			for _, cn := range []string{"-", "!" + cnPool[0], "!" + cnPool[1]} {
				if r, err := clients[cn].try("GET", "https://"+p.api+"/healthz", nil); err == nil {
					rt.Fatalf("a client with certificate %q is served under mTLS: %v", cn, r)
				}
			}
		}

		values := map[string]string{}
		admitted, refused := 0, 0

		for i := range rapid.IntRange(20, 50).Draw(rt, "requests") {
			if rapid.IntRange(0, 7).Draw(rt, "peerAPI") == 0 {
				w.peerRequest(rt, c, s, p, values)

				continue
			}

			cr, r := w.drawCred(rt, s), drawRoute(rt)
			base, tlsOn := p.scheme+"://"+p.api, s.tls
			cl := clients[cr.cn]

			if r.mgmt {
				base, tlsOn = "http://"+p.mgmt, false
			}

			g, authed := s.resolve(cr, tlsOn)
			desc := fmt.Sprintf("#%d %s %s (mgmt %v) with %s, certificate %q", i, r.method, r.path, r.mgmt, cr.what, cr.cn)
			c.Log("%s", desc)

			var hdr []string
			if cr.header != "" {
				hdr = []string{"Authorization", cr.header}
			}

			var res resp
			if strings.HasPrefix(r.path, "/cluster/events") {
				res = cl.head(rt, r.method, base+r.path, hdr...)
			} else {
				var body []byte
				if r.body != "" {
					body = []byte(r.body)
				}

				res = cl.do(rt, r.method, base+r.path, body, append(hdr, "Content-Type", "application/json")...)
			}

			switch {
			case r.scope == "" || authed && g.has(r.scope):
				admitted++

				want := r.ok
				_, present := values[strings.ToLower(lastSegment(r.path))]

				if want == 0 {
					want = 200
					if !present {
						want = 404
					}
				}

				if res.status != want {
					rt.Fatalf("%s: identity %q has scopes %v, answered %v, want %d", desc, g.id, g.scopes, res, want)
				}

				s.effect(rt, desc, r, g, res, values)
			default:
				refused++

				want, code := 401, "UNAUTHORIZED"
				if authed {
					want, code = 403, "FORBIDDEN"
				}

				if res.status != want {
					rt.Fatalf("%s: authenticated %v as %q with scopes %v, answered %v, want %d", desc, authed, g.id, g.scopes, res, want)
				}

				if !r.mgmt && r.method != "HEAD" {
					if got := res.code(rt, want, desc); got != code {
						rt.Fatalf("%s: code %s, want %s", desc, got, code)
					}
				}

				for _, v := range []string{"single", "batched", "capacity", "replication"} {
					if strings.Contains(string(res.body), v) {
						rt.Fatalf("%s: a refused request is told %v", desc, res)
					}
				}
			}
		}

		// what is stored is what the admitted requests stored
		peer := newCaller()

		for i := range 4 {
			k := fmt.Sprintf("key%d", i)
			r := peer.do(rt, "GET", "http://"+p.dist+"/internal/get?key="+k, nil, "Authorization", "Bearer "+s.token)
			_, present := values[k]

			var got struct{ Found bool }

			_ = json.Unmarshal(r.body, &got)

			if r.status != 200 || got.Found != present {
				rt.Fatalf("in the end %s is stored: %v, want %v", k, r, present)
			}
		}

		if s.mtls { // nor in the end
			if r, err := clients["-"].try("GET", "https://"+p.api+"/healthz", nil); err == nil {
				rt.Fatalf("a client without certificate is served under mTLS: %v", r)
			}
		}

		out := p.out.String()
		for _, sec := range s.secrets {
			if strings.Contains(out, sec) {
				rt.Fatalf("the log contains the secret %q:\n%s", sec, tail(out))
			}
		}

		if err, ok := p.term(20 * time.Second); !ok || err != nil {
			rt.Fatalf("after SIGTERM: exited %v, %v\n%s", ok, err, tail(p.out.String()))
		}

		c.NT(admitted > 0 && refused > 0)
		c.LabelIf(refused == 0, "nothing refused")
	})
}

func lastSegment(p string) string {
	p, _, _ = strings.Cut(p, "?")

	return p[strings.LastIndex(p, "/")+1:]
}

// effect checks what an admitted request answered and follows what it did.
func (s *settings) effect(rt *rapid.T, desc string, r route, g grant, res resp, values map[string]string) {
	switch {
	case r.method == "PUT":
		values[r.write] = "single"
	case strings.HasSuffix(r.path, "/batch/put"):
		values[r.write] = "batched"
	case r.method == "DELETE", strings.HasSuffix(r.path, "/batch/delete"):
		delete(values, r.write)
	case strings.HasPrefix(r.path, "/clear"):
		clear(values)
	case r.path == "/v1/me":
		var me struct {
			ID           string
			Scopes       []string
			Capabilities []string
		}

		res.json(rt, &me)

		var caps []string
		for _, sc := range g.scopes {
			caps = append(caps, "cache."+sc)
		}

		if me.ID != g.id || !sameSet(me.Scopes, g.scopes) || !sameSet(me.Capabilities, caps) {
			rt.Fatalf("%s: reports %+v, want %+v", desc, me, g)
		}
	case strings.HasPrefix(r.path, "/v1/me/can"):
		var can struct {
			Capability string
			Allowed    bool
		}

		res.json(rt, &can)

		want := strings.TrimPrefix(r.path, "/v1/me/can?capability=")
		if can.Capability != want || can.Allowed != g.has(strings.TrimPrefix(want, "cache.")) {
			rt.Fatalf("%s: reports %+v for scopes %v", desc, can, g.scopes)
		}
	case r.method == "GET" && res.status == 200 && strings.HasPrefix(strings.ToLower(r.path), "/v1/cache/key") && !strings.Contains(r.path, "keys"):
		if want := values[lastSegment(r.path)]; string(res.body) != want {
			rt.Fatalf("%s: answered %v, want %q", desc, res, want)
		}
	}
}

func sameSet(a, b []string) bool {
	a, b = slices.Clone(a), slices.Clone(b)
	slices.Sort(a)
	slices.Sort(b)

	return slices.Equal(slices.Compact(a), slices.Compact(b))
}

// peerRequest calls a route between nodes: it is open without a shared token
// and closed to everything else with one.
func (w *world) peerRequest(rt *rapid.T, c *vh.Case, s *settings, p *proc, values map[string]string) {
	cr := w.drawCred(rt, s)
	k := fmt.Sprintf("key%d", rapid.IntRange(0, 3).Draw(rt, "key"))

	type call struct {
		method, path string
		kills        bool
	}

	r := rapid.SampledFrom([]call{
		{"GET", "/internal/get?key=" + k, false},
		{"GET", "/internal/keys", false},
		{"GET", "/internal/merkle", false},
		{"DELETE", "/internal/del?key=" + k + "&replicate=false", true},
		{"GET", "/health", false},
	}).Draw(rt, "peerRoute")

	var hdr []string
	if cr.header != "" {
		hdr = []string{"Authorization", cr.header}
	}

	c.Log("peer %s %s with %s", r.method, r.path, cr.what)
	res := newCaller().do(rt, r.method, "http://"+p.dist+r.path, nil, hdr...)
	allowed := s.token == "" || cr.bearer == s.token

	if denied := res.status == 401 || res.status == 403; denied == allowed {
		rt.Fatalf("peer request %s %s with %s, peer token %q: answered %v", r.method, r.path, cr.what, s.token, res)
	}

	if allowed && r.kills {
		delete(values, k)
	}
}

// ---- refusing to start ----

func TestC39Refuse(t *testing.T) {
	w := newWorld(t)
	lying := newProvider()
	lying.lie = true
	t.Cleanup(lying.srv.Close)

	busy := must(net.Listen("tcp", "127.0.0.1:0"))
	t.Cleanup(func() { _ = busy.Close() })

	otherCert, _ := w.other.issue("server")

	vh.Run(t, "server-refuses", "a valid configuration as above with one thing broken: an auth file that is missing, a directory, not YAML, of the wrong shape, has an unknown field or scope, or an unusable identity; half of the OIDC or TLS settings; an identity provider that cannot be reached or names another issuer; certificate files that are missing, swapped, mismatched or empty; an address in use. The process reports it, names no secret and exits with a failure without ever serving. Non-trivial: always", 300, func(rt *rapid.T, c *vh.Case) {
		s := w.draw(rt)
		env := map[string]string{}

		for _, e := range s.env {
			k, v, _ := strings.Cut(e, "=")
			env[k] = v
		}

		file := func(doc string) {
			env["HYPERCACHE_AUTH_CONFIG"] = w.write(fmt.Sprintf("bad-%d.yaml", rapid.IntRange(0, 1<<30).Draw(rt, "fileNo")), []byte(doc))
		}

		p := newProc("node-1")
		hash := w.hashes[passPool[0]]
		flaw := rapid.SampledFrom([]string{
			"missing", "dir", "garbage", "empty", "list", "field", "nestedField", "scope", "scopeCase", "noScopes", "nullScopes", "noToken", "noID", "plainPassword", "noUser", "noCN", "typeAnon", "cutFile",
			"issuerOnly", "audienceOnly", "deadIdP", "lyingIdP", "notIdP", "certOnly", "keyOnly", "caOnly", "noCert", "noKey", "noCA", "swapped", "mismatch", "emptyCA", "keyAsCA", "busyAPI",
		}).Draw(rt, "flaw")
		secret := "secret-" + rapid.StringMatching(`[a-z0-9]{16}`).Draw(rt, "secret")

		switch flaw {
		case "missing":
			env["HYPERCACHE_AUTH_CONFIG"] = filepath.Join(w.dir, "nowhere.yaml")
		case "dir":
			env["HYPERCACHE_AUTH_CONFIG"] = w.dir
		case "garbage":
			file("{tokens: [ ]]: " + secret)
		case "empty":
			file("")
		case "list":
			file("- id: a\n  token: " + secret + "\n  scopes: [read]\n")
		case "field":
			file("tokenz:\n  - {id: a, token: " + secret + ", scopes: [read]}\n")
		case "nestedField":
			file("tokens:\n  - {id: a, token: " + secret + ", scopes: [read], scope: [write]}\n")
		case "scope":
			file("tokens:\n  - {id: a, token: " + secret + ", scopes: [read, wriet]}\n")
		case "scopeCase":
			file("users:\n  - {id: a, username: u, password_bcrypt: '" + hash + "', scopes: [Admin]}\n")
		case "noScopes":
			file("tokens:\n  - {id: a, token: " + secret + ", scopes: []}\n")
		case "nullScopes":
			file("cert_identities:\n  - {subject_cn: a}\ntokens:\n  - {id: a, token: " + secret + ", scopes: [read]}\n")
		case "noToken":
			file("tokens:\n  - {id: a, token: '', scopes: [read]}\n  - {id: b, token: " + secret + ", scopes: [read]}\n")
		case "noID":
			file("tokens:\n  - {token: " + secret + ", scopes: [read]}\n")
		case "plainPassword":
			file("users:\n  - {id: a, username: u, password_bcrypt: " + secret + ", scopes: [read]}\n")
		case "noUser":
			file("users:\n  - {id: a, password_bcrypt: '" + hash + "', scopes: [read]}\n")
		case "noCN":
			file("cert_identities:\n  - {scopes: [read]}\n")
		case "typeAnon":
			file("allow_anonymous: maybe\ntokens:\n  - {id: a, token: " + secret + ", scopes: [read]}\n")
		case "cutFile":
			file("tokens:\n  - id: a\n    token: \"" + secret + "\n    scopes: [read]\n")
		case "issuerOnly":
			env["HYPERCACHE_OIDC_ISSUER"] = w.idp.srv.URL
			delete(env, "HYPERCACHE_OIDC_AUDIENCE")
		case "audienceOnly":
			env["HYPERCACHE_OIDC_AUDIENCE"] = "the-cache"
			delete(env, "HYPERCACHE_OIDC_ISSUER")
		case "deadIdP":
			env["HYPERCACHE_OIDC_ISSUER"], env["HYPERCACHE_OIDC_AUDIENCE"] = "http://"+freeAddr(), "the-cache"
		case "lyingIdP":
			env["HYPERCACHE_OIDC_ISSUER"], env["HYPERCACHE_OIDC_AUDIENCE"] = lying.srv.URL, "the-cache"
		case "notIdP":
			env["HYPERCACHE_OIDC_ISSUER"], env["HYPERCACHE_OIDC_AUDIENCE"] = w.idp.srv.URL+"/nothing", "the-cache"
		case "certOnly":
			delete(env, "HYPERCACHE_API_TLS_KEY")
			env["HYPERCACHE_API_TLS_CERT"] = w.certFile
		case "keyOnly":
			delete(env, "HYPERCACHE_API_TLS_CERT")
			env["HYPERCACHE_API_TLS_KEY"] = w.keyFile
		case "caOnly":
			delete(env, "HYPERCACHE_API_TLS_CERT")
			delete(env, "HYPERCACHE_API_TLS_KEY")
			env["HYPERCACHE_API_TLS_CLIENT_CA"] = w.caFile
		default:
			env["HYPERCACHE_API_TLS_CERT"], env["HYPERCACHE_API_TLS_KEY"] = w.certFile, w.keyFile

			switch flaw {
			case "noCert":
				env["HYPERCACHE_API_TLS_CERT"] += ".gone"
			case "noKey":
				env["HYPERCACHE_API_TLS_KEY"] += ".gone"
			case "noCA":
				env["HYPERCACHE_API_TLS_CLIENT_CA"] = w.caFile + ".gone"
			case "swapped":
				env["HYPERCACHE_API_TLS_CERT"], env["HYPERCACHE_API_TLS_KEY"] = w.keyFile, w.certFile
			case "mismatch":
				env["HYPERCACHE_API_TLS_CERT"] = w.write("other.pem", otherCert)
			case "emptyCA":
				env["HYPERCACHE_API_TLS_CLIENT_CA"] = w.write("empty.pem", []byte("\n"))
			case "keyAsCA":
				env["HYPERCACHE_API_TLS_CLIENT_CA"] = w.keyFile
			case "busyAPI":
				if rapid.Bool().Draw(rt, "plain") {
					delete(env, "HYPERCACHE_API_TLS_CERT")
					delete(env, "HYPERCACHE_API_TLS_KEY")
					delete(env, "HYPERCACHE_API_TLS_CLIENT_CA")
				}

				p.api = busy.Addr().String()
			}
		}

		for k, v := range env {
			p.env = append(p.env, k+"="+v)
		}

		slices.Sort(p.env)
		c.Log("%s: %v", flaw, p.env)
		c.Label(flaw)
		c.NT(true)

		p.start(rt)
		defer p.kill()

		served := ""
		cl := w.client(&settings{tls: true}, cnPool[0])
		cl.cl.Timeout = 300 * time.Millisecond

		end := time.Now().Add(15 * time.Second)
		for !p.exited() {
			if time.Now().After(end) {
				rt.Fatalf("%s: keeps running (%s)\n%s", flaw, served, tail(p.out.String()))
			}

			if flaw != "busyAPI" {
				for _, scheme := range []string{"http", "https"} {
					if r, err := cl.try("GET", scheme+"://"+p.api+"/healthz", nil); err == nil && r.status == 200 {
						served = "serving " + scheme
					}
				}
			}

			time.Sleep(5 * time.Millisecond)
		}

		if served != "" {
			rt.Fatalf("%s: was %s", flaw, served)
		}

		if p.err == nil {
			rt.Fatalf("%s: exited with success:\n%s", flaw, tail(p.out.String()))
		}

		out := p.out.String()
		if strings.TrimSpace(out) == "" || strings.Contains(out, "panic:") {
			rt.Fatalf("%s: exited with %v without telling why: %q", flaw, p.err, tail(out))
		}

		for _, sec := range append([]string{secret}, s.secrets...) {
			if strings.Contains(out, sec) {
				rt.Fatalf("%s: the output contains the secret %q:\n%s", flaw, sec, tail(out))
			}
		}
	})
}

// ---- the other settings ----

func TestC39Settings(t *testing.T) {
	vh.Run(t, "server-settings", "a server process with each setting given, left out or unusable (which falls back to the documented default): node ID, replication, capacity, log level, a surrounding of spaces and empty entries in the seed list; what the management API, the responses and the log say is what was set. Non-trivial: at least two settings given", 20, func(rt *rapid.T, c *vh.Case) {
		p := newProc(rapid.SampledFrom([]string{"node-1", "a b", "ünï", "x/y", "n@h"}).Draw(rt, "id"))
		given := 0
		set := func(name, val string) {
			p.env = append(p.env, name+"="+val)
			given++
		}

		repl := 3
		switch rapid.IntRange(0, 2).Draw(rt, "replication") {
		case 0:
			repl = rapid.IntRange(1, 5).Draw(rt, "r")
			set("HYPERCACHE_REPLICATION", fmt.Sprint(repl))
		case 1:
			set("HYPERCACHE_REPLICATION", rapid.SampledFrom([]string{"abc", "1.5", "", " 2"}).Draw(rt, "junk"))
		}

		capacity := 100_000
		switch rapid.IntRange(0, 2).Draw(rt, "capacity") {
		case 0:
			capacity = rapid.IntRange(1, 5000).Draw(rt, "cap")
			set("HYPERCACHE_CAPACITY", fmt.Sprint(capacity))
		case 1:
			set("HYPERCACHE_CAPACITY", rapid.SampledFrom([]string{"lots", "1e3", ""}).Draw(rt, "junk"))
		}

		level := rapid.SampledFrom([]string{"debug", "info", "warn", "error", "WARN", "", "loud"}).Draw(rt, "level")
		set("HYPERCACHE_LOG_LEVEL", level)

		peers := rapid.IntRange(0, 3).Draw(rt, "peers")
		want := map[string]bool{p.id: true}

		var seeds []string

		for i := range peers {
			id := fmt.Sprintf("peer-%d", i)
			want[id] = true
			seeds = append(seeds, rapid.SampledFrom([]string{"", " ", "  "}).Draw(rt, "space")+id+"@"+freeAddr())

			if rapid.Bool().Draw(rt, "gap") {
				seeds = append(seeds, rapid.SampledFrom([]string{"", " "}).Draw(rt, "empty"))
			}
		}

		if peers > 0 {
			set("HYPERCACHE_SEEDS", strings.Join(seeds, ","))
			set("HYPERCACHE_HEARTBEAT", "1h") // nobody answers: keep them listed
			set("HYPERCACHE_GOSSIP_INTERVAL", "1h")
		}

		c.Log("%s %v", p.id, p.env)
		c.NT(given >= 2)

		p.start(rt)
		defer p.kill()

		cl := newCaller()
		defer cl.cl.CloseIdleConnections()

		if !p.up(cl.cl) {
			rt.Fatalf("does not serve: %s", tail(p.out.String()))
		}

		var cfg struct {
			Capacity            int `json:"capacity"`
			Replication         int `json:"replication"`
			VirtualNodesPerNode int `json:"virtualNodesPerNode"`
		}

		cl.do(rt, "GET", "http://"+p.mgmt+"/config", nil).json(rt, &cfg)

		if cfg.Replication != repl || cfg.VirtualNodesPerNode != 64 {
			rt.Fatalf("/config reports %+v, want replication %d and 64 virtual nodes", cfg, repl)
		}

		if cfg.Capacity != capacity {
			vh.Known(rt, "capacity-env", "/config reports capacity %d, want %d", cfg.Capacity, capacity)
		}

		var body struct {
			Members []struct{ ID string }
		}

		cl.do(rt, "GET", "http://"+p.mgmt+"/cluster/members", nil).json(rt, &body)

		got := map[string]bool{}
		for _, m := range body.Members {
			got[m.ID] = true
		}

		if len(got) != len(want) || len(body.Members) != len(want) {
			rt.Fatalf("members %v, want %v", body.Members, want)
		}

		for id := range want {
			if !got[id] {
				rt.Fatalf("members %v, want %v", body.Members, want)
			}
		}

		var o struct {
			Node   string
			Owners []string
		}

		cl.do(rt, "GET", "http://"+p.api+"/v1/owners/k", nil).json(rt, &o)

		if o.Node != p.id || len(o.Owners) != min(repl, len(want)) {
			rt.Fatalf("owners answered %+v on %q, want %d owners", o, p.id, min(repl, len(want)))
		}

		if err, ok := p.term(40 * time.Second); !ok || err != nil {
			rt.Fatalf("after SIGTERM: exited %v, %v\n%s", ok, err, tail(p.out.String()))
		}

		floor := map[string]int{"debug": 0, "info": 1, "warn": 2, "error": 3, "WARN": 2}
		min, ok := floor[level]
		if !ok {
			min = 1
		}

		seen := map[string]int{}

		for _, line := range strings.Split(p.out.String(), "\n") {
			var rec struct {
				Level  string `json:"level"`
				NodeID string `json:"node_id"`
			}

			if !strings.HasPrefix(line, "{") || json.Unmarshal([]byte(line), &rec) != nil {
				continue
			}

			seen[rec.Level]++

			if floor[strings.ToLower(rec.Level)] < min || rec.NodeID != p.id {
				rt.Fatalf("log level %q, node %q: the log has %s", level, p.id, line)
			}
		}

		if min <= 1 && seen["INFO"] == 0 {
			rt.Fatalf("log level %q: nothing is logged at INFO: %v", level, seen)
		}
	})
}
