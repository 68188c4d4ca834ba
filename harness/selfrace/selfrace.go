// Package selfrace exercises sym.Together: HQuiet has no race, each HRacy has
// one. It is not a check of a property (tools/selfrace.sh).
package selfrace

import (
	"sync"
	"sync/atomic"

	"github.com/adamcolton/parlex/zzverif/sym"
)

type box struct {
	mu    sync.Mutex
	rw    sync.RWMutex
	once  sync.Once
	pool  sync.Pool
	m     sync.Map
	n     int
	cache map[string]int
	buf   []byte
	at    atomic.Pointer[[]int]
	cnt   int32
}

func (b *box) incr() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n++
	return b.n
}

func (b *box) cached(k string) int {
	b.rw.RLock()
	v, ok := b.cache[k]
	b.rw.RUnlock()
	if ok {
		return v
	}
	v = len(k) * 2
	b.rw.Lock()
	b.cache[k] = v
	b.rw.Unlock()
	return v
}

func (b *box) pooled(s string) string {
	p, _ := b.pool.Get().(*[]byte)
	if p == nil {
		p = &[]byte{}
	}
	*p = append((*p)[:0], s...)
	*p = append(*p, '!')
	r := string(*p)
	b.pool.Put(p)
	return r
}

func (b *box) lazy() []byte {
	b.once.Do(func() { b.buf = []byte("once") })
	return b.buf
}

func (b *box) mapped(k string) int {
	if v, ok := b.m.Load(k); ok {
		return v.(int)
	}
	v, _ := b.m.LoadOrStore(k, len(k))
	return v.(int)
}

func (b *box) atomicLazy() int {
	if p := b.at.Load(); p != nil {
		return len(*p)
	}
	s := []int{1, 2, 3}
	b.at.CompareAndSwap(nil, &s)
	return len(*b.at.Load())
}

// HQuiet: what is synchronised is no race, whatever the order.
func HQuiet() {
	b := &box{cache: map[string]int{}}
	k, l := sym.StrUpTo("k", 0, 2, "ab"), sym.StrUpTo("l", 0, 1, "ab")
	what := sym.Fork(sym.Choice("what", 8))
	use := func(s string, out *int) func() {
		return func() {
			switch what {
			case 0:
				*out = b.incr()
			case 1:
				*out = b.cached(s)
			case 2:
				*out = len(b.pooled(s))
			case 3:
				*out = len(b.lazy())
			case 4:
				*out = b.mapped(s)
			case 5:
				*out = b.atomicLazy()
			case 6:
				*out = int(atomic.AddInt32(&b.cnt, 1))
			default:
				// goroutines of its own
				c := make(chan int)
				go func() { c <- len(s) }()
				*out = <-c
			}
		}
	}
	var x, y int
	sym.Together(use(k, &x), use(l, &y))
	switch what {
	case 0, 6:
		sym.Assert(x+y == 3, "counted")
	case 1:
		sym.Assert(x == 2*len(k) && y == 2*len(l), "cached")
	case 2:
		sym.Assert(x == 1+len(k) && y == 1+len(l), "pooled")
	case 3:
		sym.Assert(x == 4 && y == 4, "once")
	case 5:
		sym.Assert(x == 3 && y == 3, "atomic")
	default:
		sym.Assert(x == len(k) && y == len(l), "others")
	}
}

var global int
var scratch = make([]byte, 0, 8)

// HRacyCounter: a package variable.
func HRacyCounter() {
	sym.Together(func() { global++ }, func() { global++ })
}

// HRacyMap: a map read and written, for one pair of keys only.
func HRacyMap() {
	m := map[string]int{"a": 1, "b": 2}
	k := sym.Str("k", 1, "abc")
	sym.Together(func() {
		if _, ok := m[k]; !ok {
			m[k] = 3
		}
	}, func() { _ = m["a"] })
}

// HRacyScratch: a buffer shared behind a slice header that is only read.
func HRacyScratch() {
	var x, y string
	f := func(s string) string { b := append(scratch[:0], s...); return string(b) }
	sym.Together(func() { x = f("a") }, func() { y = f("b") })
	sym.Assert(x == "a" && y == "b", "own text")
}

// HRacyUnlocked: written under a lock, read without it.
func HRacyUnlocked() {
	b := &box{}
	sym.Together(func() { b.incr() }, func() {
		if b.n == 0 {
			b.incr()
		}
	})
}

// HRacyOrder: no data race, but the result depends on the order.
func HRacyOrder() {
	b := &box{}
	var x int
	sym.Together(func() { x = b.incr() }, func() { b.incr() })
	sym.Assert(x == 1, "the first is the first")
}

// HRacyTwoLocks: read and written under one lock, taken twice.
func HRacyTwoLocks() {
	b := &box{}
	f := func() {
		b.mu.Lock()
		n := b.n
		b.mu.Unlock()
		b.mu.Lock()
		b.n = n + 1
		b.mu.Unlock()
	}
	sym.Together(f, f)
	sym.Assert(b.n == 2, "both are counted")
}

// HRacyPool: something is used after it was given back.
func HRacyPool() {
	p := sync.Pool{New: func() any { return new([4]byte) }}
	f := func(c byte) byte {
		b := p.Get().(*[4]byte)
		b[0] = c
		p.Put(b)
		return b[0]
	}
	var x, y byte
	sym.Together(func() { x = f('a') }, func() { y = f('b') })
	sym.Assert(x == 'a' && y == 'b', "own byte")
}
