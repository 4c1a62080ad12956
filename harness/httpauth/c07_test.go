package httpauth_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	"verif.local/vh"

	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

func word(rt *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9._-]{1,12}`),
		rapid.SampledFrom([]string{"yes", "null", "~", "0123", "1e3", "true", "- a", "a: b", "#c", "'q'", `"q"`, "é漢", "a\\b", " pad ", "{x}", "[y]", "*z", "&z", "!t", "%d", "@at", "`b`", "|", ">", "line\nbreak", "tab\there"}),
	).Draw(rt, label)
}

type doc struct {
	tokens, users, certs []map[string]any
	top                  map[string]any
}

func genDoc(rt *rapid.T) (doc, httpauth.Policy, []string) {
	var (
		d       doc
		p       httpauth.Policy
		secrets []string
	)

	d.top = map[string]any{}

	scopes := func() ([]string, []httpauth.Scope) {
		n := rapid.IntRange(1, 3).Draw(rt, "nsc")
		perm := rapid.Permutation(allScopes).Draw(rt, "sc")[:n]

		out := []string{}
		for _, s := range perm {
			out = append(out, string(s))
		}

		return out, perm
	}

	// most files are short; a few carry many credentials, or very long ones
	ntok := rapid.IntRange(0, 3).Draw(rt, "ntok")
	if rapid.IntRange(0, 24).Draw(rt, "manyTok") == 0 {
		ntok = rapid.SampledFrom([]int{17, 40, 65, 130, 300}).Draw(rt, "ntokMany")
	}

	for i := range ntok {
		sc, want := scopes()
		tok := fmt.Sprintf("%s-secret-%d-%s", word(rt, "tok"), i, rapid.StringMatching(`[a-z0-9]{12}`).Draw(rt, "rnd"))

		if rapid.IntRange(0, 4).Draw(rt, "num") == 0 {
			tok = fmt.Sprintf("%015d", rapid.Int64Range(100000000000000, 999999999999999).Draw(rt, "digits"))
		}

		if rapid.IntRange(0, 9).Draw(rt, "longTok") == 0 {
			tok += strings.Repeat("Ab3", rapid.SampledFrom([]int{25, 90, 200, 400, 1500}).Draw(rt, "tokLen"))
		}

		id := word(rt, "id")
		d.tokens = append(d.tokens, map[string]any{"id": id, "token": tok, "scopes": sc})
		p.Tokens = append(p.Tokens, httpauth.TokenIdentity{ID: id, Token: tok, Scopes: want})
		secrets = append(secrets, tok)
	}

	nusr := rapid.IntRange(0, 2).Draw(rt, "nusr")
	if rapid.IntRange(0, 29).Draw(rt, "manyUsr") == 0 {
		nusr = rapid.SampledFrom([]int{12, 33, 70, 140}).Draw(rt, "nusrMany")
	}

	for i := range nusr {
		sc, want := scopes()
		id, name := word(rt, "uid"), word(rt, "uname")

		if nusr > 2 {
			name = fmt.Sprintf("%s%d", name, i)
		}

		h := string(hashOf(rapid.SampledFrom(passwords).Draw(rt, "pw")))

		// other tools write the same hash under another minor version of the format
		if v := rapid.SampledFrom([]string{"", "", "$2b$", "$2y$"}).Draw(rt, "hashVersion"); v != "" {
			h = strings.Replace(h, "$2a$", v, 1)
		}

		d.users = append(d.users, map[string]any{"id": id, "username": name, "password_bcrypt": h, "scopes": sc})
		p.BasicIdentities = append(p.BasicIdentities, httpauth.BasicIdentity{ID: id, Username: name, PasswordBcrypt: []byte(h), Scopes: want})
	}

	ncert := rapid.IntRange(0, 2).Draw(rt, "ncert")
	if rapid.IntRange(0, 29).Draw(rt, "manyCert") == 0 {
		ncert = rapid.SampledFrom([]int{12, 33, 70, 140}).Draw(rt, "ncertMany")
	}

	for i := range ncert {
		sc, want := scopes()
		cn := word(rt, "cn")

		if ncert > 2 {
			cn = fmt.Sprintf("%s%d", cn, i)
		}

		d.certs = append(d.certs, map[string]any{"subject_cn": cn, "scopes": sc})
		p.CertIdentities = append(p.CertIdentities, httpauth.CertIdentity{SubjectCN: cn, Scopes: want})
	}

	if rapid.Bool().Draw(rt, "hasAnon") {
		p.AllowAnonymous = rapid.Bool().Draw(rt, "anon")
		d.top["allow_anonymous"] = p.AllowAnonymous
	}

	if rapid.Bool().Draw(rt, "hasPlain") {
		p.AllowBasicWithoutTLS = rapid.Bool().Draw(rt, "plain")
		d.top["allow_basic_without_tls"] = p.AllowBasicWithoutTLS
	}

	if len(d.tokens) > 0 {
		d.top["tokens"] = d.tokens
	}

	if len(d.users) > 0 {
		d.top["users"] = d.users
	}

	if len(d.certs) > 0 {
		d.top["cert_identities"] = d.certs
	}

	return d, p, secrets
}

func (d doc) render(rt *rapid.T) []byte {
	var (
		b   []byte
		err error
	)

	if rapid.Bool().Draw(rt, "asJSON") {
		b, err = json.MarshalIndent(d.top, "", "  ")
	} else {
		b, err = yaml.Marshal(d.top)
	}

	if err != nil {
		rt.Fatalf("HARNESS-ERROR %v", err)
	}

	if rapid.Bool().Draw(rt, "comment") {
		b = append([]byte("# auth\n"), b...)
	}

	return b
}

func samePolicy(a, b httpauth.Policy) bool {
	if len(a.Tokens) != len(b.Tokens) || len(a.BasicIdentities) != len(b.BasicIdentities) || len(a.CertIdentities) != len(b.CertIdentities) {
		return false
	}

	for i := range a.Tokens {
		if !reflect.DeepEqual(a.Tokens[i], b.Tokens[i]) {
			return false
		}
	}

	for i := range a.BasicIdentities {
		if !reflect.DeepEqual(a.BasicIdentities[i], b.BasicIdentities[i]) {
			return false
		}
	}

	for i := range a.CertIdentities {
		if !reflect.DeepEqual(a.CertIdentities[i], b.CertIdentities[i]) {
			return false
		}
	}

	return a.AllowAnonymous == b.AllowAnonymous && a.AllowBasicWithoutTLS == b.AllowBasicWithoutTLS && a.ServerVerify == nil && b.ServerVerify == nil
}

func load(rt *rapid.T, dir string, content []byte, token string) (httpauth.Policy, error) {
	path := filepath.Join(dir, "auth.yaml")
	if err := os.WriteFile(path, content, 0o600); err != nil {
		rt.Fatalf("HARNESS-ERROR %v", err)
	}

	os.Setenv(httpauth.EnvAuthConfig, path)
	os.Setenv(httpauth.EnvAuthToken, token)

	return httpauth.LoadFromEnv()
}

func TestC07Exact(t *testing.T) {
	dir := t.TempDir()

	vh.Run(t, "exact", "random auth files (YAML and JSON syntax, awkward strings, numeric-looking tokens) with and without the legacy token set; the loaded policy equals the written one; non-trivial: >=2 credential lists present", 1200, func(rt *rapid.T, c *vh.Case) {
		d, want, _ := genDoc(rt)
		content := d.render(rt)
		legacy := rapid.SampledFrom([]string{"", "legacy-token", "  "}).Draw(rt, "legacy")
		c.Log("%s", content)

		got, err := load(rt, dir, content, legacy)
		if len(d.top) == 0 {
			// "{}" or an empty document: nothing may be granted
			if err == nil && (got.IsConfigured() || got.AllowAnonymous) {
				rt.Fatalf("empty file loaded as %+v", got)
			}

			return
		}

		if err != nil {
			rt.Fatalf("valid file refused: %v\n%s", err, content)
		}

		if !samePolicy(got, want) {
			rt.Fatalf("loaded %+v, written %+v\n%s", got, want, content)
		}

		n := 0
		for _, k := range []string{"tokens", "users", "cert_identities"} {
			if d.top[k] != nil {
				n++
			}
		}

		c.NT(n >= 2)
	})
}

func TestC07FailClosed(t *testing.T) {
	dir := t.TempDir()

	vh.Run(t, "fail-closed", "random auth files damaged in one place (unknown field or scope, empty or missing credential part, bad hash, wrong type, duplicate key, truncation, missing, empty or unreadable file) while a legacy token is set; an ErrInvalidPolicy error, no policy, no secret in the message; non-trivial: damage inside a list of >=2 credentials", 1500, func(rt *rapid.T, c *vh.Case) {
		d, _, secrets := genDoc(rt)
		if len(d.tokens) == 0 {
			d.tokens = []map[string]any{{"id": "x", "token": "tok-secret-value-1", "scopes": []string{"read"}}}
			d.top["tokens"] = d.tokens
			secrets = append(secrets, "tok-secret-value-1")
		}

		legacy := rapid.SampledFrom([]string{"", "legacy-token"}).Draw(rt, "legacy")
		lists := [][]map[string]any{d.tokens, d.users, d.certs}
		li := rapid.IntRange(0, 2).Draw(rt, "list")

		for len(lists[li]) == 0 {
			li = (li + 1) % 3
		}

		entry := lists[li][rapid.IntRange(0, len(lists[li])-1).Draw(rt, "entry")]
		idKeys := [][]string{{"id", "token"}, {"id", "username", "password_bcrypt"}, {"subject_cn"}}[li]

		how := rapid.SampledFrom([]string{"unknown-field", "unknown-top", "scope-case", "scope-unknown", "scope-pad", "scope-empty-name", "no-scopes", "empty-scopes", "empty-part", "missing-part", "bad-hash", "type-list", "type-bool", "type-scopes", "duplicate-key", "truncate", "missing-file", "empty-file", "directory", "garbage"}).Draw(rt, "how")
		scopes, _ := entry["scopes"].([]string)

		var content []byte

		setScope := func(s string) {
			i := rapid.IntRange(0, len(scopes)).Draw(rt, "at")
			entry["scopes"] = slices.Insert(slices.Clone(scopes), i, s)
		}

		switch how {
		case "unknown-field":
			entry[rapid.SampledFrom([]string{"scope", "Scopes", "tokn", "password", "cn", "extra"}).Draw(rt, "field")] = "x"
		case "unknown-top":
			d.top[rapid.SampledFrom([]string{"token", "allow_anonymus", "AllowAnonymous", "certs", "user"}).Draw(rt, "field")] = rapid.SampledFrom([]any{true, "x", []string{}}).Draw(rt, "val")
		case "scope-case":
			setScope(rapid.SampledFrom([]string{"READ", "Read", "ADMIN", "Write"}).Draw(rt, "s"))
		case "scope-unknown":
			setScope(rapid.SampledFrom([]string{"reader", "rea", "*", "all", "superuser", "cache.read"}).Draw(rt, "s"))
		case "scope-pad":
			setScope(rapid.SampledFrom([]string{"read ", " read", "admin,", "read,write"}).Draw(rt, "s"))
		case "scope-empty-name":
			setScope("")
		case "no-scopes":
			delete(entry, "scopes")
		case "empty-scopes":
			entry["scopes"] = []string{}
		case "empty-part":
			entry[rapid.SampledFrom(idKeys).Draw(rt, "part")] = ""
		case "missing-part":
			delete(entry, rapid.SampledFrom(idKeys).Draw(rt, "part"))
		case "bad-hash":
			if li != 1 {
				d.users = append(d.users, map[string]any{"id": "u", "username": "u", "scopes": []string{"read"}})
				entry = d.users[len(d.users)-1]
				d.top["users"] = d.users
			}

			entry["password_bcrypt"] = rapid.SampledFrom([]string{"plaintext-password", "$2a$", "$1a$10$abc", "$2a$xx$aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "  "}).Draw(rt, "hash")
		case "type-list":
			d.top[rapid.SampledFrom([]string{"tokens", "users", "cert_identities"}).Draw(rt, "l")] = rapid.SampledFrom([]any{map[string]any{"id": "x"}, "x", 5}).Draw(rt, "v")
		case "type-bool":
			d.top["allow_anonymous"] = rapid.SampledFrom([]any{"maybe", 1, []string{"true"}}).Draw(rt, "v")
		case "type-scopes":
			entry["scopes"] = rapid.SampledFrom([]any{"read", map[string]any{"read": true}}).Draw(rt, "v")
		}

		content = d.render(rt)

		switch how {
		case "duplicate-key":
			b, _ := yaml.Marshal(d.top)
			content = append(b, []byte("\ntokens:\n  - id: dup\n    token: dup-secret-token\n    scopes: [admin]\n")...)
		case "truncate":
			b, _ := json.Marshal(d.top)
			content = b[:rapid.IntRange(1, len(b)-1).Draw(rt, "cut")]
		case "empty-file":
			content = []byte(rapid.SampledFrom([]string{"", "\n\n", "# only a comment\n"}).Draw(rt, "empty"))
		case "garbage":
			content = []byte(rapid.SampledFrom([]string{"\t\tx", "tokens: [", "just text", "- a\n- b", "\x00\x01", "5"}).Draw(rt, "garbage"))
		}

		c.Log("%s: %s", how, content)

		got, err := load(rt, dir, content, legacy)

		switch how {
		case "missing-file":
			os.Setenv(httpauth.EnvAuthConfig, filepath.Join(dir, "no", "such", "file"))

			got, err = httpauth.LoadFromEnv()
		case "directory":
			os.Setenv(httpauth.EnvAuthConfig, dir)

			got, err = httpauth.LoadFromEnv()
		}

		if err == nil {
			rt.Fatalf("%s: accepted as %+v\n%s", how, got, content)
		}

		if !errors.Is(err, httpauth.ErrInvalidPolicy) {
			rt.Fatalf("%s: error %v is not ErrInvalidPolicy", how, err)
		}

		if got.IsConfigured() || got.AllowAnonymous || got.AllowBasicWithoutTLS {
			rt.Fatalf("%s: a refused file still yields %+v", how, got)
		}

		for _, s := range secrets {
			if strings.Contains(err.Error(), s) {
				rt.Fatalf("%s: the error message shows the secret %q: %v", how, s, err)
			}
		}

		c.NT(len(lists[li]) >= 2)
		c.Label(how)
	})
}

func TestC07Env(t *testing.T) {
	vh.Run(t, "env", "legacy token only, or nothing: exactly one all-scope identity holding the token verbatim, or the zero policy; non-trivial: a token with unusual characters", 300, func(rt *rapid.T, c *vh.Case) {
		os.Unsetenv(httpauth.EnvAuthConfig)

		tok := rapid.OneOf(rapid.Just(""), rapid.StringMatching(`[ -~]{1,30}`), rapid.StringN(1, 20, -1)).Draw(rt, "tok")
		if strings.ContainsRune(tok, 0) {
			return
		}

		os.Setenv(httpauth.EnvAuthToken, tok)

		if rapid.Bool().Draw(rt, "emptyCfg") {
			os.Setenv(httpauth.EnvAuthConfig, "")
		}

		c.Log("%q", tok)

		p, err := httpauth.LoadFromEnv()
		if err != nil {
			rt.Fatalf("token %q: %v", tok, err)
		}

		if tok == "" {
			if p.IsConfigured() || p.AllowAnonymous || p.AllowBasicWithoutTLS {
				rt.Fatalf("nothing configured gives %+v", p)
			}

			return
		}

		if len(p.Tokens) != 1 || p.Tokens[0].Token != tok || p.Tokens[0].ID != "default" || p.AllowAnonymous || p.AllowBasicWithoutTLS || len(p.BasicIdentities)+len(p.CertIdentities) > 0 || p.ServerVerify != nil {
			rt.Fatalf("token %q gives %+v", tok, p)
		}

		for _, s := range allScopes {
			if !slices.Contains(p.Tokens[0].Scopes, s) {
				rt.Fatalf("legacy token lacks %q", s)
			}
		}

		c.NT(strings.ContainsAny(tok, " :#'\"\\"))
	})
}
