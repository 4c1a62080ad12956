package client_test

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"
)

// attempt is one request as it left the client.
type attempt struct {
	Host   string
	Method string
	URI    string
	Header http.Header
	Body   []byte
}

func (a attempt) same(b attempt) string {
	if a.Method != b.Method || a.URI != b.URI || string(a.Body) != string(b.Body) {
		return fmt.Sprintf("%s %s %q vs %s %s %q", a.Method, a.URI, a.Body, b.Method, b.URI, b.Body)
	}

	if fmt.Sprint(a.Header) != fmt.Sprint(b.Header) {
		return fmt.Sprintf("headers %v vs %v", a.Header, b.Header)
	}

	return ""
}

// memNet is an in-memory network: a RoundTripper with named hosts.
type memNet struct {
	mu       sync.Mutex
	hosts    map[string]func(*http.Request, []byte) (*http.Response, error)
	attempts []attempt
}

func newNet() *memNet {
	return &memNet{hosts: map[string]func(*http.Request, []byte) (*http.Response, error){}}
}

var errRefused = errors.New("memnet: connection refused")

func (n *memNet) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte

	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		_ = req.Body.Close()

		if err != nil {
			return nil, err
		}

		body = b
	}

	n.mu.Lock()
	n.attempts = append(n.attempts, attempt{Host: req.URL.Host, Method: req.Method, URI: req.URL.RequestURI(), Header: req.Header.Clone(), Body: body})
	h := n.hosts[req.URL.Host]
	n.mu.Unlock()

	if err := req.Context().Err(); err != nil {
		return nil, err
	}

	if h == nil {
		return nil, errRefused
	}

	resp, err := h(req, body)
	if resp != nil {
		resp.Request = req
	}

	return resp, err
}

func (n *memNet) take() []attempt {
	n.mu.Lock()
	defer n.mu.Unlock()

	out := n.attempts
	n.attempts = nil

	return out
}

func (n *memNet) set(host string, h func(*http.Request, []byte) (*http.Response, error)) {
	n.mu.Lock()
	defer n.mu.Unlock()

	n.hosts[host] = h
}

func rawResp(status int, body []byte, ctype string) *http.Response {
	h := http.Header{}
	if ctype != "" {
		h.Set("Content-Type", ctype)
	}

	return &http.Response{
		StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(strings.NewReader(string(body))), ContentLength: int64(len(body)),
	}
}

func jsonResp(status int, v any) *http.Response {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return rawResp(status, b, "application/json")
}

// refItem is what the reference server stores.
type refItem struct {
	Value       []byte
	TTL         time.Duration
	Version     uint64
	LastUpdated string
	ExpiresAt   string
}

// refServer is a reference implementation of the documented REST contract
// over one store; batch outcomes for some keys can be forced to fail.
type refServer struct {
	mu       sync.Mutex
	items    map[string]refItem
	version  uint64
	node     string
	origin   string
	owners   []string
	scopes   []string
	caps     []string // capabilities beyond those of the scopes
	id       string
	encoding string            // of values in envelopes: base64, "" (means base64) or raw
	failWith map[string]string // key -> error code for its writes and deletes
	status   map[string]int
	now      time.Time
	lastTTL  map[string]time.Duration // the ttl each put asked for
}

func newRef() *refServer {
	return &refServer{
		items: map[string]refItem{}, encoding: "base64", node: "n-1", origin: "n-2", owners: []string{"n-1", "n-3"},
		failWith: map[string]string{}, lastTTL: map[string]time.Duration{},
		now: time.Date(2026, 5, 1, 10, 0, 0, 0, time.UTC),
	}
}

func (s *refServer) keys() []string {
	out := make([]string, 0, len(s.items))
	for k := range s.items {
		out = append(out, k)
	}

	sort.Strings(out)

	return out
}

func (s *refServer) put(key string, v []byte, ttl time.Duration) {
	s.version++
	it := refItem{Value: append([]byte{}, v...), TTL: ttl, Version: s.version, LastUpdated: s.now.Add(time.Duration(s.version) * time.Second).Format(time.RFC3339)}

	if ttl > 0 {
		it.ExpiresAt = s.now.Add(ttl).Format(time.RFC3339)
	}

	s.items[key] = it
	s.lastTTL[key] = ttl
}

func codeStatus(code string) int {
	switch code {
	case "BAD_REQUEST":
		return 400
	case "DRAINING":
		return 503
	case "INTERNAL":
		return 500
	}

	return 0
}

func envErr(status int, code, msg, details string) *http.Response {
	m := map[string]string{"code": code, "error": msg}
	if details != "" {
		m["details"] = details
	}

	return jsonResp(status, m)
}

func (s *refServer) envelope(key string, it refItem) map[string]any {
	m := map[string]any{
		"key": key, "value": base64.StdEncoding.EncodeToString(it.Value), "value_encoding": "base64",
		"version": it.Version, "origin": s.origin, "last_updated": it.LastUpdated, "node": s.node, "owners": s.owners,
	}

	switch s.encoding {
	case "raw":
		m["value"], m["value_encoding"] = string(it.Value), "raw"
	case "":
		delete(m, "value_encoding")
	}

	if it.TTL > 0 {
		m["ttl_ms"] = it.TTL.Milliseconds()
		m["expires_at"] = it.ExpiresAt
	}

	return m
}

// serve implements the contract of cmd/hypercache-server/openapi.yaml.
func (s *refServer) serve(req *http.Request, body []byte) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()

	path := req.URL.EscapedPath()

	switch {
	case path == "/v1/me" && req.Method == http.MethodGet:
		caps := []string{}
		for _, sc := range s.scopes {
			caps = append(caps, "cache."+sc)
		}

		caps = append(caps, s.caps...)

		return jsonResp(200, map[string]any{"id": s.id, "scopes": s.scopes, "capabilities": caps}), nil
	case path == "/v1/me/can" && req.Method == http.MethodGet:
		q, err := url.ParseQuery(req.URL.RawQuery)
		if err != nil {
			return envErr(400, "BAD_REQUEST", "query", ""), nil
		}

		cp := q.Get("capability")
		if !strings.HasPrefix(cp, "cache.") {
			return envErr(400, "BAD_REQUEST", "unknown capability", cp), nil
		}

		allowed := false
		for _, sc := range s.scopes {
			allowed = allowed || "cache."+sc == cp
		}

		return jsonResp(200, map[string]any{"capability": cp, "allowed": allowed}), nil
	case path == "/v1/cache/batch/put" && req.Method == http.MethodPost:
		return s.batchPut(body), nil
	case path == "/v1/cache/batch/get" && req.Method == http.MethodPost:
		return s.batchGet(body), nil
	case path == "/v1/cache/batch/delete" && req.Method == http.MethodPost:
		return s.batchDelete(body), nil
	case strings.HasPrefix(path, "/v1/cache/"):
		raw := strings.TrimPrefix(path, "/v1/cache/")
		if raw == "" || strings.Contains(raw, "/") {
			return envErr(404, "NOT_FOUND", "no route", ""), nil
		}

		key, err := url.PathUnescape(raw)
		if err != nil {
			return envErr(400, "BAD_REQUEST", "key", err.Error()), nil
		}

		return s.single(req, key, body), nil
	}

	return envErr(404, "NOT_FOUND", "no route", path), nil
}

func (s *refServer) single(req *http.Request, key string, body []byte) *http.Response {
	switch req.Method {
	case http.MethodPut:
		var ttl time.Duration

		q, err := url.ParseQuery(req.URL.RawQuery)
		if err != nil {
			return envErr(400, "BAD_REQUEST", "query", "")
		}

		if v := q.Get("ttl"); v != "" {
			d, err := time.ParseDuration(v)
			if err != nil {
				return envErr(400, "BAD_REQUEST", "invalid ttl", err.Error())
			}

			ttl = d
		}

		if code := s.failWith[key]; code != "" {
			return envErr(codeStatus(code), code, "forced "+code, "")
		}

		s.put(key, body, ttl)

		return jsonResp(200, map[string]any{"key": key, "stored": true, "bytes": len(body), "node": s.node, "owners": s.owners})
	case http.MethodGet:
		it, ok := s.items[key]
		if !ok {
			return envErr(404, "NOT_FOUND", "key not found", "")
		}

		if strings.Contains(req.Header.Get("Accept"), "application/json") {
			return jsonResp(200, s.envelope(key, it))
		}

		return rawResp(200, it.Value, "application/octet-stream")
	case http.MethodDelete:
		if code := s.failWith[key]; code != "" {
			return envErr(codeStatus(code), code, "forced "+code, "")
		}

		delete(s.items, key)

		if s.version%2 == 0 {
			return rawResp(204, nil, "")
		}

		return jsonResp(200, map[string]any{"key": key, "deleted": true, "node": s.node, "owners": s.owners})
	}

	return envErr(405, "BAD_REQUEST", "method", "")
}

func (s *refServer) batchPut(body []byte) *http.Response {
	var in struct {
		Items []struct {
			Key           string `json:"key"`
			Value         string `json:"value"`
			ValueEncoding string `json:"value_encoding"`
			TTLMs         int64  `json:"ttl_ms"`
		} `json:"items"`
	}

	if err := json.Unmarshal(body, &in); err != nil {
		return envErr(400, "BAD_REQUEST", "body", err.Error())
	}

	res := []map[string]any{}

	for _, it := range in.Items {
		r := map[string]any{"key": it.Key}
		v := []byte(it.Value)

		var err error
		if it.ValueEncoding == "base64" {
			v, err = base64.StdEncoding.DecodeString(it.Value)
		}

		code := s.failWith[it.Key]

		switch {
		case err != nil:
			r["stored"], r["code"], r["error"] = false, "BAD_REQUEST", err.Error()
		case code != "":
			r["stored"], r["code"], r["error"] = false, strings.Trim(code, "-"), "forced "+code
		default:
			s.put(it.Key, v, time.Duration(it.TTLMs)*time.Millisecond)
			r["stored"], r["bytes"], r["owners"] = true, len(v), s.owners
		}

		res = append(res, r)
	}

	return jsonResp(200, map[string]any{"results": res, "node": s.node})
}

func (s *refServer) batchGet(body []byte) *http.Response {
	var in struct {
		Keys []string `json:"keys"`
	}

	if err := json.Unmarshal(body, &in); err != nil {
		return envErr(400, "BAD_REQUEST", "body", err.Error())
	}

	res := []map[string]any{}

	for _, k := range in.Keys {
		it, ok := s.items[k]
		if !ok {
			res = append(res, map[string]any{"key": k, "found": false, "owners": s.owners})

			continue
		}

		r := s.envelope(k, it)
		delete(r, "node")
		r["found"] = true
		res = append(res, r)
	}

	return jsonResp(200, map[string]any{"results": res, "node": s.node})
}

func (s *refServer) batchDelete(body []byte) *http.Response {
	var in struct {
		Keys []string `json:"keys"`
	}

	if err := json.Unmarshal(body, &in); err != nil {
		return envErr(400, "BAD_REQUEST", "body", err.Error())
	}

	res := []map[string]any{}

	for _, k := range in.Keys {
		if code := s.failWith[k]; code != "" {
			res = append(res, map[string]any{"key": k, "deleted": false, "code": strings.Trim(code, "-"), "error": "forced " + code})

			continue
		}

		delete(s.items, k)
		res = append(res, map[string]any{"key": k, "deleted": true, "owners": s.owners})
	}

	return jsonResp(200, map[string]any{"results": res, "node": s.node})
}

var bg = context.Background()
