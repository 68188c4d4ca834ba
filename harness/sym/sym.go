// Package sym is the interface between a harness and the symbolic executor.
// The executor intercepts these functions; the bodies here are used when a
// harness is compiled natively to replay an assignment on the real code.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

type input struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type assertFail struct{ msg string }
type assumeFail struct{}

var (
	vals    map[string]int64
	names   map[string]int
	obs     []byte
	details []func() string
	tier    string
)

func next(name string, def int64) int64 {
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	if v, ok := vals[name]; ok {
		return v
	}
	return def
}

// Int is any integer from lo to hi.
func Int(name string, lo, hi int) int {
	if lo > hi {
		panic(assumeFail{})
	}
	return int(next(name, int64(lo)))
}

// Choice is any of 0..n-1.
func Choice(name string, n int) int { return Int(name, 0, n-1) }

// Byte is any byte of set (any byte at all if set is empty).
func Byte(name, set string) byte {
	d := int64(0)
	if set != "" {
		d = int64(set[0])
	}
	return byte(next(name, d))
}

// Bool is true or false.
func Bool(name string) bool { return next(name, 0) != 0 }

// Str is any string of n bytes out of set.
func Str(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name, set)
	}
	return string(b)
}

// StrUpTo is any string of lo..hi bytes out of set.
func StrUpTo(name string, lo, hi int, set string) string {
	return Str(name, Fork(Int(name+".len", lo, hi)), set)
}

// Fork makes the executor consider each value separately.
func Fork(x int) int { return x }

// ForkStr makes the executor consider each value separately.
func ForkStr(x string) string { return x }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		panic(assertFail{msg})
	}
}

// Cover marks a situation that must be reachable.
func Cover(name string) {}

// Observe records something the executor and the native run must agree on.
func Observe(s string) { obs = append(append(obs, s...), 0) }

// Detail describes the inputs when a replay fails.
func Detail(f func() string) { details = append(details, f) }

// Together runs two uses side by side: in any order, interleaved in any way.
func Together(a, b func()) {
	var wg sync.WaitGroup
	var r [2]any
	go2 := make(chan struct{})
	for i, f := range []func(){a, b} {
		wg.Add(1)
		go func(i int, f func()) {
			defer wg.Done()
			defer func() { r[i] = recover() }()
			<-go2
			f()
		}(i, f)
	}
	close(go2)
	wg.Wait()
	for _, x := range r {
		if x != nil {
			panic(x)
		}
	}
}

// MapOrder makes the iteration order of maps with at most n entries symbolic.
func MapOrder(n int) {}

// Param is a bound that differs by tier.
func Param(name string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

type result struct {
	Outcome string `json:"outcome"`
	Msg     string `json:"msg,omitempty"`
	Obs     []byte `json:"obs,omitempty"`
	Detail  string `json:"detail,omitempty"`
}

func one(f func(), in []input) (r result) {
	vals = make(map[string]int64, len(in))
	for _, i := range in {
		vals[i.Name] = i.Val
	}
	names = map[string]int{}
	obs = nil
	details = nil
	defer func() {
		x := recover()
		switch e := x.(type) {
		case nil:
			r = result{Outcome: "ok", Obs: obs}
			return
		case assumeFail:
			r = result{Outcome: "assume"}
			return
		case assertFail:
			r = result{Outcome: "assert", Msg: e.msg}
		default:
			r = result{Outcome: "panic", Msg: fmt.Sprint(x)}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			r.Detail = st
		}
		for _, d := range details {
			func() {
				defer func() { recover() }()
				r.Detail = d() + "\n" + r.Detail
			}()
		}
	}()
	f()
	return
}

// Main replays inputs from stdin: harness tier repeat.
func Main(hs map[string]func()) {
	f := hs[os.Args[1]]
	tier = os.Args[2]
	repeat, _ := strconv.Atoi(os.Args[3])
	debug.SetMaxStack(256 << 20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	}
	beat := make(chan int, 1)
	go func() {
		for {
			select {
			case <-beat:
			case <-time.After(20 * time.Second):
				enc.Encode(result{Outcome: "timeout", Msg: "no result after 20 s"})
				out.Flush()
				os.Exit(3)
			}
		}
	}()
	for sc.Scan() {
		var in []input
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r result
		t0 := time.Now()
		for i := 0; i < repeat; i++ {
			r = one(f, in)
			if r.Outcome != "ok" && r.Outcome != "assume" {
				break
			}
			if time.Since(t0) > 5*time.Second {
				break
			}
		}
		enc.Encode(r)
		out.Flush()
		beat <- 1
	}
	out.Flush()
}
