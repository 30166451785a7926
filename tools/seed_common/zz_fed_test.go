package oidfed

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jarcoal/httpmock"
	"github.com/lestrrat-go/jwx/v3/jwa"

	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

// A small hand-driven federation for demonstrations.

type zzNet struct {
	mu   sync.Mutex
	h    map[string]func(q url.Values) (int, string, []byte)
	hits map[string]int
}

var zzWorld *zzNet

func zzNewNet() *zzNet {
	n := &zzNet{h: map[string]func(q url.Values) (int, string, []byte){}, hits: map[string]int{}}
	zzWorld = n
	httpmock.RegisterNoResponder(
		func(r *http.Request) (*http.Response, error) {
			u := *r.URL
			u.RawQuery = ""
			n.mu.Lock()
			f := n.h[u.String()]
			n.hits[u.String()]++
			n.mu.Unlock()
			if f == nil {
				return httpmock.NewStringResponse(404, "not found"), nil
			}
			q := r.URL.Query()
			if r.Body != nil && r.Method == http.MethodPost {
				b, _ := io.ReadAll(r.Body)
				if form, err := url.ParseQuery(string(b)); err == nil {
					for k, v := range form {
						q[k] = append(q[k], v...)
					}
				}
			}
			status, ct, body := f(q)
			return &http.Response{
				StatusCode: status, Status: http.StatusText(status), Request: r,
				Header: http.Header{"Content-Type": {ct}}, Body: io.NopCloser(bytes.NewReader(body)),
				ContentLength: int64(len(body)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			}, nil
		},
	)
	return n
}

func (n *zzNet) on(u string, f func(q url.Values) (int, string, []byte)) {
	n.mu.Lock()
	n.h[u] = f
	n.mu.Unlock()
}

func (n *zzNet) count(u string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.hits[u]
}

func zzKey() *GeneralJWTSigner {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return NewGeneralJWTSigner(k, jwa.ES256())
}

type zzEnt struct {
	ID     string
	Key    *GeneralJWTSigner
	Conf   EntityStatementPayload
	Subs   map[string]*EntityStatementPayload
	Listed []string
	net    *zzNet
}

func (e *zzEnt) JWKS() jwks.JWKS { return e.Key.JWKS() }

// ent publishes an entity; authorities get fetch and list endpoints.
func (n *zzNet) ent(id string, hints ...string) *zzEnt {
	e := &zzEnt{ID: id, Key: zzKey(), Subs: map[string]*EntityStatementPayload{}, net: n}
	now := time.Now().Truncate(time.Second)
	e.Conf = EntityStatementPayload{
		Issuer: id, Subject: id, IssuedAt: unixtime.Unixtime{Time: now},
		ExpiresAt: unixtime.Unixtime{Time: now.Add(time.Hour)}, JWKS: e.Key.JWKS(), AuthorityHints: hints,
		Metadata: &Metadata{
			FederationEntity: &FederationEntityMetadata{
				FederationFetchEndpoint: id + "/fetch", FederationListEndpoint: id + "/list",
			},
		},
	}
	n.on(
		strings.TrimSuffix(id, "/")+"/.well-known/openid-federation", func(url.Values) (int, string, []byte) {
			return 200, "application/entity-statement+jwt", e.sign(e.Conf)
		},
	)
	n.on(
		id+"/fetch", func(q url.Values) (int, string, []byte) {
			p, ok := e.Subs[q.Get("sub")]
			if !ok {
				return 404, "application/json", []byte(`{"error":"not_found"}`)
			}
			return 200, "application/entity-statement+jwt", e.sign(*p)
		},
	)
	n.on(
		id+"/list", func(url.Values) (int, string, []byte) {
			parts := make([]string, len(e.Listed))
			for i, l := range e.Listed {
				parts[i] = `"` + l + `"`
			}
			return 200, "application/json", []byte("[" + strings.Join(parts, ",") + "]")
		},
	)
	return e
}

func (e *zzEnt) sign(p EntityStatementPayload) []byte {
	b, err := e.Key.EntityStatementSigner().JWT(p)
	if err != nil {
		panic(err)
	}
	return b
}

// vouch makes e issue a subordinate statement about s.
func (e *zzEnt) vouch(s *zzEnt) *EntityStatementPayload {
	p := &EntityStatementPayload{
		Issuer: e.ID, Subject: s.ID, IssuedAt: e.Conf.IssuedAt, ExpiresAt: e.Conf.ExpiresAt, JWKS: s.JWKS(),
	}
	e.Subs[s.ID] = p
	e.Listed = append(e.Listed, s.ID)
	return p
}

func (e *zzEnt) anchor() TrustAnchor { return TrustAnchor{EntityID: e.ID, JWKS: e.JWKS()} }

func zzResolve(start string, anchors ...TrustAnchor) TrustChains {
	r := TrustResolver{TrustAnchors: anchors, StartingEntity: start}
	return r.ResolveToValidChains()
}

func zzWant(t *testing.T, what string, got, want any) {
	t.Helper()
	if got != want {
		t.Fatalf("%s: got %v, want %v", what, got, want)
	}
}

func zzStatic(status int, ct string, body []byte) func(url.Values) (int, string, []byte) {
	return func(url.Values) (int, string, []byte) { return status, ct, body }
}
