package zzverif

// An in-process redis: enough of RESP over net.Pipe for the cache backend, with
// exact lifetimes on the (virtual) clock.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"

	"github.com/go-oidfed/lib/cache"
)

type fakeRedis struct {
	mu    sync.Mutex
	m     map[string]redisEntry
	conns []net.Conn
	Down  bool // refuse commands
	ops   int
	fault func(key string) int // see cacheFaults
}
type redisEntry struct {
	v   string
	exp time.Time // zero: never
}

func newFakeRedis() *fakeRedis { return &fakeRedis{m: map[string]redisEntry{}} }

// use makes the library use this redis as its cache.
func (f *fakeRedis) use() {
	must(
		cache.UseRedisCache(
			&redis.Options{
				Addr: "redis:6379", Protocol: 2, DisableIndentity: true,
				Dialer: func(context.Context, string, string) (net.Conn, error) {
					a, b := net.Pipe()
					f.mu.Lock()
					f.conns = append(f.conns, b)
					f.mu.Unlock()
					go f.serve(b)
					return a, nil
				},
			},
		),
	)
}

func (f *fakeRedis) close() {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, c := range f.conns {
		c.Close()
	}
	f.conns = nil
}

func (f *fakeRedis) clear() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.m = map[string]redisEntry{}
}

func (f *fakeRedis) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}
		x := cacheOK
		if f.fault != nil && len(args) > 1 && (strings.EqualFold(args[0], "GET") || strings.EqualFold(args[0], "SET")) {
			x = f.fault(args[1])
		}
		var out string
		switch x {
		case cacheError:
			out = "-LOADING redis is loading\r\n"
		case cacheLost:
			out = "$-1\r\n"
			if strings.EqualFold(args[0], "SET") {
				out = "+OK\r\n"
			}
		case cacheHangup:
			return
		case cacheHangup2:
			f.do(args)
			return
		default:
			out = f.do(args)
			if (x == cacheCut || x == cacheGarbled) && strings.HasPrefix(out, "$") && out != "$-1\r\n" {
				_, v, _ := strings.Cut(out, "\r\n")
				v = damaged(strings.TrimSuffix(v, "\r\n"), x, args[1])
				out = fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
			}
		}
		if _, err = io.WriteString(c, out); err != nil {
			return
		}
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimSuffix(s, "\r\n"), err
	}
	l, err := line()
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(l, "*") {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		if l, err = line(); err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimPrefix(l, "$"))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err = io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func (f *fakeRedis) live(k string) (redisEntry, bool) {
	e, ok := f.m[k]
	if ok && !e.exp.IsZero() && !time.Now().Before(e.exp) {
		delete(f.m, k)
		return e, false
	}
	return e, ok
}

func (f *fakeRedis) do(a []string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(a) == 0 {
		return "-ERR empty\r\n"
	}
	f.ops++
	cmd := strings.ToUpper(a[0])
	if f.Down && cmd != "PING" && cmd != "HELLO" && cmd != "CLIENT" {
		return "-LOADING redis is loading\r\n"
	}
	switch cmd {
	case "HELLO":
		return "-ERR unknown command 'HELLO'\r\n"
	case "CLIENT", "SELECT", "AUTH":
		return "+OK\r\n"
	case "PING":
		return "+PONG\r\n"
	case "GET":
		e, ok := f.live(a[1])
		if !ok {
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(e.v), e.v)
	case "GETDEL":
		e, ok := f.live(a[1])
		if !ok {
			return "$-1\r\n"
		}
		delete(f.m, a[1])
		return fmt.Sprintf("$%d\r\n%s\r\n", len(e.v), e.v)
	case "SETEX", "PSETEX":
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil || n <= 0 {
			return "-ERR invalid expire time\r\n"
		}
		u := time.Second
		if cmd == "PSETEX" {
			u = time.Millisecond
		}
		f.m[a[1]] = redisEntry{a[3], time.Now().Add(time.Duration(n) * u)}
		return "+OK\r\n"
	case "SET":
		e := redisEntry{v: a[2]}
		old, had := f.live(a[1])
		for i := 3; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "KEEPTTL":
				if had {
					e.exp = old.exp
				}
			case "NX":
				if had {
					return "$-1\r\n"
				}
			case "XX":
				if !had {
					return "$-1\r\n"
				}
			case "EX", "PX", "EXAT", "PXAT":
				if i+1 >= len(a) {
					return "-ERR syntax error\r\n"
				}
				n, err := strconv.ParseInt(a[i+1], 10, 64)
				if err != nil || n <= 0 {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				switch strings.ToUpper(a[i]) {
				case "EX":
					e.exp = time.Now().Add(time.Duration(n) * time.Second)
				case "PX":
					e.exp = time.Now().Add(time.Duration(n) * time.Millisecond)
				case "EXAT":
					e.exp = time.Unix(n, 0)
				case "PXAT":
					e.exp = time.UnixMilli(n)
				}
				i++
			default:
				return "-ERR syntax error\r\n"
			}
		}
		f.m[a[1]] = e
		return "+OK\r\n"
	case "DEL", "UNLINK", "EXISTS":
		n := 0
		for _, k := range a[1:] {
			if _, ok := f.live(k); ok {
				n++
				if cmd != "EXISTS" {
					delete(f.m, k)
				}
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "EXPIRE", "PEXPIRE":
		e, ok := f.live(a[1])
		if !ok {
			return ":0\r\n"
		}
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return "-ERR value is not an integer\r\n"
		}
		u := time.Second
		if cmd == "PEXPIRE" {
			u = time.Millisecond
		}
		if n <= 0 {
			delete(f.m, a[1])
			return ":1\r\n"
		}
		e.exp = time.Now().Add(time.Duration(n) * u)
		f.m[a[1]] = e
		return ":1\r\n"
	case "TTL", "PTTL":
		e, ok := f.live(a[1])
		if !ok {
			return ":-2\r\n"
		}
		if e.exp.IsZero() {
			return ":-1\r\n"
		}
		u := time.Second
		if cmd == "PTTL" {
			u = time.Millisecond
		}
		return fmt.Sprintf(":%d\r\n", time.Until(e.exp)/u)
	case "FLUSHDB", "FLUSHALL":
		f.m = map[string]redisEntry{}
		return "+OK\r\n"
	}
	return "-ERR unknown command '" + a[0] + "'\r\n"
}
