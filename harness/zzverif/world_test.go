package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
	libhttp "github.com/go-oidfed/lib/internal/http"
)

// Resp is what a mock endpoint answers.
type Resp struct {
	Status int
	CT     string
	Body   []byte
	Err    bool          // transport failure
	Delay  time.Duration // before answering
}

type Handler func(r *http.Request, q url.Values) Resp

type ReqLog struct {
	Method, URL string // URL without query
	Query       url.Values
	Body        string
	At          time.Time
}

// World is the network and cache of one case.
type World struct {
	mu     sync.Mutex
	routes map[string]Handler
	Log    []ReqLog
	budget int
	Over   bool // request budget exhausted: unbounded behaviour
	Cache  *memCache
}

var curWorld atomic.Pointer[World]

type roundTripper struct{}

func (roundTripper) RoundTrip(r *http.Request) (*http.Response, error) {
	w := curWorld.Load()
	if w == nil {
		return nil, errors.New("no world")
	}
	return w.serve(r)
}

func init() {
	libhttp.Do().GetClient().Transport = roundTripper{}
	http.DefaultTransport = roundTripper{}
	http.DefaultClient.Transport = roundTripper{}
	// transport failures are retried by the client; do not wait between
	libhttp.Do().SetRetryWaitTime(time.Nanosecond)
	libhttp.Do().SetRetryMaxWaitTime(time.Nanosecond)
}

// newWorld resets every piece of global state and installs a fresh network and
// a fresh cache.
func newWorld() *World {
	w := newWorldKeepingCache()
	w.useMemCache()
	return w
}

func (w *World) useMemCache() {
	w.Cache = newMemCache()
	w.Cache.w = w
	cache.SetCache(w.Cache)
}

// newWorldKeepingCache is newWorld without changing the cache backend.
func newWorldKeepingCache() *World {
	w := &World{routes: map[string]Handler{}, budget: 20000}
	curWorld.Store(w)
	oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{}
	oidfed.ResolverCacheGracePeriod = time.Hour
	oidfed.ResolverCacheLifetimeElapsedGraceFactor = 0.5
	return w
}

func (w *World) handle(rawURL string, h Handler) { w.routes[rawURL] = h }

func (w *World) serve(r *http.Request) (*http.Response, error) {
	u := *r.URL
	q := u.Query()
	u.RawQuery, u.Fragment = "", ""
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	key := u.String()
	if e := q.Get("entity"); e != "" {
		// an endpoint shared by several entities
		key += "?entity=" + e
	}
	w.mu.Lock()
	w.Log = append(w.Log, ReqLog{r.Method, key, q, string(body), time.Now()})
	w.budget--
	if w.budget < 0 {
		w.Over = true
		w.mu.Unlock()
		return nil, errors.New("request budget exhausted")
	}
	h := w.routes[key]
	w.mu.Unlock()
	var resp Resp
	if h == nil {
		resp = Resp{Status: 404, CT: "text/plain", Body: []byte("no such page")}
	} else {
		r.Body = io.NopCloser(bytes.NewReader(body))
		resp = h(r, q)
	}
	if resp.Delay > 0 {
		select {
		case <-time.After(resp.Delay):
		case <-r.Context().Done():
			return nil, r.Context().Err()
		}
	}
	if resp.Err {
		return nil, errors.New("mock transport failure")
	}
	if resp.Status == 0 {
		resp.Status = 200
	}
	hd := http.Header{}
	if resp.CT != "" {
		hd.Set("Content-Type", resp.CT)
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", resp.Status, http.StatusText(resp.Status)), StatusCode: resp.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hd, Body: io.NopCloser(bytes.NewReader(resp.Body)), ContentLength: int64(len(resp.Body)), Request: r,
	}, nil
}

func (w *World) requestsTo(u string) (out []ReqLog) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, l := range w.Log {
		if l.URL == u {
			out = append(out, l)
		}
	}
	return
}

func (w *World) logLen() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.Log)
}

// memCache is a Cache with exact (virtual) time semantics.
type memCache struct {
	mu       sync.Mutex
	m        map[string]memEntry
	w        *World
	gets     int
	maxDepth int // of the stack; 0: do not look
}
type memEntry struct {
	data []byte
	exp  time.Time
}

// tooDeep tells that calls nest without end, and lets them fail.
func (c *memCache) tooDeep() bool {
	if c.maxDepth == 0 || c.gets%32 != 0 {
		return false
	}
	if runtime.Callers(0, make([]uintptr, c.maxDepth)) < c.maxDepth {
		return false
	}
	c.gets = 1 << 40
	if c.w != nil {
		c.w.mu.Lock()
		c.w.budget = -1
		c.w.mu.Unlock()
	}
	return true
}

func newMemCache() *memCache { return &memCache{m: map[string]memEntry{}} }

func (c *memCache) Get(key string, target any) (bool, error) {
	c.mu.Lock()
	c.gets++
	if c.gets > 200000 || c.tooDeep() {
		if c.w != nil {
			c.w.Over = true
		}
		c.mu.Unlock()
		return false, nil
	}
	e, ok := c.m[key]
	c.mu.Unlock()
	if !ok || !time.Now().Before(e.exp) {
		return false, nil
	}
	return true, msgpack.Unmarshal(e.data, target)
}

func (c *memCache) Set(key string, value any, d time.Duration) error {
	b, err := msgpack.Marshal(value)
	if err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if d <= 0 {
		delete(c.m, key)
		return nil
	}
	c.m[key] = memEntry{b, time.Now().Add(d)}
	return nil
}

func (c *memCache) clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m = map[string]memEntry{}
	c.gets = 0
}
