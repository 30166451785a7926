package zzverif

// C25: cache backends that fail.

import (
	"errors"
	"hash/fnv"
	"sync"
	"time"

	"github.com/vmihailenco/msgpack/v5"
	"pgregory.net/rapid"
)

// What may happen to an operation of a cache.
const (
	cacheOK      = iota
	cacheError   // the lookup or store fails
	cacheLost    // nothing is found; the store does nothing
	cacheCut     // the stored bytes come back cut off
	cacheGarbled // the stored bytes come back as something else that can not be decoded
	cacheHangup  // the connection breaks down before, or after, the operation
	cacheHangup2
)

// cacheFaults decides what happens to the operations: by the key and how often
// it was used, so that it does not depend on the order of operations on
// different keys.
type cacheFaults struct {
	mu   sync.Mutex
	plan []int
	n    map[string]int
	hit  int
}

func (f *cacheFaults) next(key string) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.plan) == 0 {
		return cacheOK
	}
	if f.n == nil {
		f.n = map[string]int{}
	}
	h := fnv.New32a()
	h.Write([]byte(key))
	x := f.plan[(int(h.Sum32()%1000)+f.n[key])%len(f.plan)]
	f.n[key]++
	if x != cacheOK {
		f.hit++
	}
	return x
}

func (f *cacheFaults) hits() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.hit
}

// failingCache is a cache that fails as planned.
type failingCache struct {
	c *memCache
	f *cacheFaults
}

func (c failingCache) Get(key string, target any) (bool, error) {
	switch x := c.f.next(key); x {
	case cacheError, cacheHangup, cacheHangup2:
		return false, errors.New("cache failure")
	case cacheLost:
		return false, nil
	case cacheCut, cacheGarbled:
		c.c.mu.Lock()
		e, ok := c.c.m[key]
		c.c.mu.Unlock()
		if !ok || !time.Now().Before(e.exp) {
			return false, nil
		}
		return true, msgpack.Unmarshal([]byte(damaged(string(e.data), x, key)), target)
	}
	return c.c.Get(key, target)
}

func (c failingCache) Set(key string, value any, d time.Duration) error {
	switch c.f.next(key) {
	case cacheError, cacheHangup:
		return errors.New("cache failure")
	case cacheHangup2:
		c.c.Set(key, value, d) //nolint:errcheck
		return errors.New("cache failure")
	case cacheLost:
		return nil
	}
	return c.c.Set(key, value, d)
}

// damaged returns bytes that can not be decoded.
func damaged(v string, how int, key string) string {
	if how == cacheGarbled {
		return "\xc1" + v // no message pack value starts like this
	}
	if len(v) == 0 {
		return v
	}
	h := fnv.New32a()
	h.Write([]byte(key))
	return v[:int(h.Sum32())%len(v)]
}

func genFailingPlan(t *rapid.T) WarmPlan {
	p := genWarmPlan(t)
	share := pick(t, "fault share", 10, 30, 60, 100)
	kinds := []int{cacheError, cacheLost, cacheCut, cacheGarbled, cacheHangup, cacheHangup2}
	if chance(t, "one kind", 40) {
		kinds = []int{pick(t, "kind of fault", kinds...)}
	}
	for k := intn(t, "ncache", 3, 12); k > 0; k-- {
		x := cacheOK
		if chance(t, "cache fault", share) {
			x = pick(t, "what", kinds...)
		}
		p.Cache = append(p.Cache, x)
	}
	return p
}

func init() {
	rule := "the questions of C05 are asked with a cache backend whose lookups and stores fail, are lost or come back damaged as planned; every " +
		"answer has to equal the one without a cache. Non-trivial: some answer after the first has a chain, and some operation failed"
	reg("C25", "failing", 4000, 100000, rule, genFailingPlan, execWarm("failing")).bubble()
	reg("C25", "failing-redis", 2500, 50000, rule, genFailingPlan, execWarm("failing-redis")).bubble()
}
