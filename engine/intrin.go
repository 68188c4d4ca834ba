package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var debugEngine bool

type intrinsic func(w *W, f *Func, args []Value) Value

const symPkg = "github.com/adamcolton/parlex/zzverif/sym"

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// packages whose initialisers are not executed: their functions are modelled
// by intrinsics or never reached.
var skipInit = map[string]bool{"fmt": true, "os": true, "reflect": true, "runtime": true, "syscall": true,
	"regexp": true, "regexp/syntax": true, "sync": true, "time": true, "internal/reflectlite": true,
	"internal/poll": true, "io/fs": true, "path": true, "log": true, "internal/godebug": true, "errors": true,
	"sync/atomic": true, "math/rand": true, "encoding/json": true, "bufio": false, "path/filepath": true}

func skipPkg(path string) bool {
	if v, ok := skipInit[path]; ok {
		return v
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto/")
}

func tuple(vs ...Value) Value { return Value{R: vs} }

func ret0(w *W, f *Func, args []Value) Value { return Value{} }

// body runs the real body of an intrinsic function.
func (w *W) body(f *Func, args []Value) Value {
	g := &Func{prog: f.prog, fn: f.fn, name: f.name, inRepo: f.inRepo, resTypes: f.resTypes}
	if x, ok := bodyCache.Load(f); ok {
		g = x.(*Func)
	} else {
		x, _ := bodyCache.LoadOrStore(f, g)
		g = x.(*Func)
	}
	return w.call(g, args, nil)
}

func lookupIntrinsic(name string, f *ssa.Function) func(w *W, f *Func, args []Value) Value {
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if in, ok := moreIntrinsics[name]; ok {
		return in
	}
	if f.Synthetic == "package initializer" && f.Pkg != nil {
		if skipPkg(f.Pkg.Pkg.Path()) {
			return ret0
		}
		return nil
	}
	if strings.HasPrefix(name, "init") || f.Pkg == nil && f.Signature.Recv() == nil {
		return nil
	}
	if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
		if f.Pkg != nil && skipPkg(f.Pkg.Pkg.Path()) {
			return ret0
		}
	}
	if in := regexIntrinsic(name, f); in != nil {
		return in
	}
	if n, ok := natives[name]; ok {
		return nativeIntrinsic(n)
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return atomicIntrinsic(strings.TrimPrefix(name, "sync/atomic."))
	}
	if len(f.Blocks) == 0 && f.Pkg != nil && f.Pkg.Pkg.Path() == "math" {
		if n, ok := natives["math."+strings.TrimPrefix(f.Name(), "arch")]; ok {
			return nativeIntrinsic(n)
		}
	}
	return nil
}

func atomicIntrinsic(n string) intrinsic {
	if in := atomic1(n); in != nil {
		return synced(in)
	}
	return nil
}

func atomic1(n string) intrinsic {
	for _, suf := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		if !strings.HasSuffix(n, suf) {
			continue
		}
		switch strings.TrimSuffix(n, suf) {
		case "Load":
			return func(w *W, f *Func, a []Value) Value { return w.load(a[0]) }
		case "Store":
			return func(w *W, f *Func, a []Value) Value { w.store(ptrOf(w, a[0]), a[1]); return Value{} }
		case "Add":
			return func(w *W, f *Func, a []Value) Value {
				v := Value{N: w.load(a[0]).N + a[1].N}
				w.store(ptrOf(w, a[0]), v)
				return v
			}
		case "Swap":
			return func(w *W, f *Func, a []Value) Value {
				v := w.load(a[0])
				w.store(ptrOf(w, a[0]), a[1])
				return v
			}
		case "CompareAndSwap":
			return func(w *W, f *Func, a []Value) Value {
				v := w.load(a[0])
				if v == a[1] {
					w.store(ptrOf(w, a[0]), a[2])
					return boolV(true)
				}
				return boolV(false)
			}
		}
	}
	return nil
}

// natives are pure functions run natively when all arguments are concrete.
var natives = map[string]any{
	"strings.Fields": strings.Fields, "strings.Split": strings.Split, "strings.TrimSpace": strings.TrimSpace,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Join": strings.Join, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.Count": strings.Count, "strings.LastIndex": strings.LastIndex,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.SplitN": strings.SplitN,
	"strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatFloat": strconv.FormatFloat, "strconv.Quote": strconv.Quote,
	"math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt, "math.Pow": math.Pow,
	"math.Sin": math.Sin, "math.Cos": math.Cos, "math.Tan": math.Tan, "math.Asin": math.Asin, "math.Acos": math.Acos,
	"math.Atan": math.Atan, "math.Atan2": math.Atan2, "math.Log": math.Log, "math.Log10": math.Log10, "math.Log2": math.Log2,
	"math.Exp": math.Exp, "math.Mod": math.Mod, "math.Trunc": math.Trunc, "math.Round": math.Round, "math.Inf": math.Inf,
	"math.NaN": math.NaN, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Max": math.Max, "math.Min": math.Min,
	"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits, "math.Hypot": math.Hypot,
	"math.Cbrt": math.Cbrt, "math.Signbit": math.Signbit, "math.Copysign": math.Copysign,
}

// toNative converts a concrete value to a Go value of type rt.
func toNative(v Value, rt reflect.Type) (reflect.Value, bool) {
	r := reflect.New(rt).Elem()
	switch rt.Kind() {
	case reflect.String:
		s, ok := concStr(v)
		if !ok {
			return r, false
		}
		r.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.R != nil {
			return r, false
		}
		r.SetInt(int64(v.N))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.R != nil {
			return r, false
		}
		r.SetUint(v.N)
	case reflect.Bool:
		if v.R != nil {
			return r, false
		}
		r.SetBool(v.N != 0)
	case reflect.Float64:
		if v.R != nil {
			return r, false
		}
		r.SetFloat(math.Float64frombits(v.N))
	case reflect.Slice:
		if v.R == nil {
			return r, true
		}
		a := v.R.(*Slc).a
		r.Set(reflect.MakeSlice(rt, len(a), len(a)))
		for i := range a {
			e, ok := toNative(a[i], rt.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(e)
		}
	default:
		return r, false
	}
	return r, true
}

func fromNative(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return strV(r.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Value{N: uint64(r.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Value{N: r.Uint()}
	case reflect.Bool:
		return boolV(r.Bool())
	case reflect.Float64:
		return Value{N: math.Float64bits(r.Float())}
	case reflect.Slice:
		if r.IsNil() {
			return Value{}
		}
		a := make([]Value, r.Len(), r.Cap())
		for i := range a {
			a[i] = fromNative(r.Index(i))
		}
		return mkSlice(a)
	}
	panic("fromNative " + r.Kind().String())
}

func callNative(fn any, args []Value) (Value, bool) {
	rv := reflect.ValueOf(fn)
	rt := rv.Type()
	in := make([]reflect.Value, len(args))
	for i := range args {
		x, ok := toNative(args[i], rt.In(i))
		if !ok {
			return Value{}, false
		}
		in[i] = x
	}
	var out []reflect.Value
	if rt.IsVariadic() {
		out = rv.CallSlice(in)
	} else {
		out = rv.Call(in)
	}
	switch len(out) {
	case 0:
		return Value{}, true
	case 1:
		return fromNative(out[0]), true
	}
	vs := make([]Value, len(out))
	for i := range out {
		vs[i] = fromNative(out[i])
	}
	return Value{R: vs}, true
}

func nativeIntrinsic(fn any) intrinsic {
	name := reflect.TypeOf(fn)
	_ = name
	return func(w *W, f *Func, args []Value) (res Value) {
		if v, ok := tryNative(w, fn, args); ok {
			return v
		}
		if len(f.fn.Blocks) == 0 {
			unsupported("symbolic argument to %s", f.name)
		}
		return w.body(f, args)
	}
}

func tryNative(w *W, fn any, args []Value) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(abort); is {
				panic(e)
			}
			w.rtPanic(fmt.Sprint(r))
		}
	}()
	return callNative(fn, args)
}

var bodyCache syncMap

func (w *W) newErr(msg Value) Value {
	st := zero(w.p.errorStr.(*types.Pointer).Elem())
	st.R.(*Agg).f[0] = msg
	cell := new(Value)
	*cell = st
	return Value{R: &Iface{w.p.types.get(w.p.errorStr), Value{R: cell}}}
}

var intrinsics map[string]func(w *W, f *Func, args []Value) Value

func init() {
	intrinsics = map[string]func(w *W, f *Func, args []Value) Value{
		symPkg + ".Int":      symInt,
		symPkg + ".Byte":     symByte,
		symPkg + ".Bool":     symBool,
		symPkg + ".Fork":     func(w *W, f *Func, a []Value) Value { return intV(int(w.concInt(a[0], types.Typ[types.Int]))) },
		symPkg + ".ForkStr":  func(w *W, f *Func, a []Value) Value { return strV(w.concString(a[0])) },
		symPkg + ".Str":      symStr,
		symPkg + ".Assume":   func(w *W, f *Func, a []Value) Value { w.assume(a[0]); return Value{} },
		symPkg + ".Assert":   func(w *W, f *Func, a []Value) Value { s, _ := concStr(a[1]); w.assert(a[0], s); return Value{} },
		symPkg + ".Cover":    func(w *W, f *Func, a []Value) Value { s, _ := concStr(a[0]); w.cov[s] = true; return Value{} },
		symPkg + ".Detail":   ret0,
		symPkg + ".Together": together,
		symPkg + ".Observe":  func(w *W, f *Func, a []Value) Value { w.obs = append(w.obs, a[0]); return Value{} },
		symPkg + ".MapOrder": func(w *W, f *Func, a []Value) Value { w.mapOrder = a[0].N > 0; w.mapOrderMax = int(a[0].N); return Value{} },
		symPkg + ".Param": func(w *W, f *Func, a []Value) Value {
			v := a[1]
			if w.ex.tier == "thorough" {
				v = a[2]
			}
			s, _ := concStr(a[0])
			w.ex.mu.Lock()
			w.ex.params[s] = int(v.N)
			w.ex.mu.Unlock()
			return v
		},

		"internal/abi.NoEscape":                  func(w *W, f *Func, a []Value) Value { return a[0] },
		"(*strings.Builder).copyCheck":           ret0,
		"(*strings.Builder).String":              builderString,
		"strings.Index":                          strIndexIntr,
		"bytes.Index":                            bytesIndexIntr,
		"internal/bytealg.IndexString":           strIndexIntr,
		"internal/bytealg.Index":                 bytesIndexIntr,
		"internal/stringslite.Index":             strIndexIntr,
		"internal/bytealg.IndexByteString":       func(w *W, f *Func, a []Value) Value { return w.indexByte(strBytes(a[0]), toSB(a[1])) },
		"internal/bytealg.IndexByte":             func(w *W, f *Func, a []Value) Value { return w.indexByte(sliceBytes(a[0]), toSB(a[1])) },
		"strings.IndexByte":                      func(w *W, f *Func, a []Value) Value { return w.indexByte(strBytes(a[0]), toSB(a[1])) },
		"bytes.IndexByte":                        func(w *W, f *Func, a []Value) Value { return w.indexByte(sliceBytes(a[0]), toSB(a[1])) },
		"internal/bytealg.CountString":           func(w *W, f *Func, a []Value) Value { return w.countByte(strBytes(a[0]), toSB(a[1])) },
		"internal/bytealg.Count":                 func(w *W, f *Func, a []Value) Value { return w.countByte(sliceBytes(a[0]), toSB(a[1])) },
		"internal/bytealg.LastIndexByteString":   func(w *W, f *Func, a []Value) Value { return w.lastIndexByte(strBytes(a[0]), toSB(a[1])) },
		"internal/bytealg.LastIndexByte":         func(w *W, f *Func, a []Value) Value { return w.lastIndexByte(sliceBytes(a[0]), toSB(a[1])) },
		"strings.LastIndexByte":                  func(w *W, f *Func, a []Value) Value { return w.lastIndexByte(strBytes(a[0]), toSB(a[1])) },
		"strings.LastIndex":                      strLastIndex,
		"internal/bytealg.Equal":                 func(w *W, f *Func, a []Value) Value { return boolTermV(w.bytesEq(sliceBytes(a[0]), sliceBytes(a[1]))) },
		"bytes.Equal":                            func(w *W, f *Func, a []Value) Value { return boolTermV(w.bytesEq(sliceBytes(a[0]), sliceBytes(a[1]))) },
		"internal/bytealg.CompareString":         func(w *W, f *Func, a []Value) Value { return w.cmpBytes(strBytes(a[0]), strBytes(a[1])) },
		"internal/bytealg.Compare":               func(w *W, f *Func, a []Value) Value { return w.cmpBytes(sliceBytes(a[0]), sliceBytes(a[1])) },
		"strings.Compare":                        func(w *W, f *Func, a []Value) Value { return w.cmpBytes(strBytes(a[0]), strBytes(a[1])) },
		"cmp.Compare":                            cmpCompare,
		"strings.EqualFold":                      nil,
		"internal/bytealg.MakeNoZero":            func(w *W, f *Func, a []Value) Value { return mkSlice(make([]Value, int(w.concInt(a[0], types.Typ[types.Int])))) },
		"strings.HasPrefix":                      func(w *W, f *Func, a []Value) Value { return w.hasPrefix(strBytes(a[0]), strBytes(a[1])) },
		"strings.HasSuffix":                      func(w *W, f *Func, a []Value) Value { return w.hasSuffix(strBytes(a[0]), strBytes(a[1])) },
		"internal/stringslite.HasPrefix":         func(w *W, f *Func, a []Value) Value { return w.hasPrefix(strBytes(a[0]), strBytes(a[1])) },
		"internal/stringslite.HasSuffix":         func(w *W, f *Func, a []Value) Value { return w.hasSuffix(strBytes(a[0]), strBytes(a[1])) },
		"strings.Clone":                          func(w *W, f *Func, a []Value) Value { return a[0] },
		"internal/stringslite.Clone":             func(w *W, f *Func, a []Value) Value { return a[0] },
		"strings.Join":                           joinIntr,
		"unicode/utf8.DecodeRuneInString":        func(w *W, f *Func, a []Value) Value { r, n := w.decodeRune(a[0], 0); return tuple(r, intV(n)) },
		"unicode/utf8.DecodeRune":                func(w *W, f *Func, a []Value) Value { r, n := w.decodeRuneSB(sliceBytes(a[0]), 0); return tuple(r, intV(n)) },
		"unicode/utf8.RuneCountInString":         func(w *W, f *Func, a []Value) Value { return intV(w.runeCount(a[0])) },
		"unicode/utf8.RuneCount":                 func(w *W, f *Func, a []Value) Value { return intV(w.runeCount(mkStr(sliceBytes(a[0])))) },
		"unicode/utf8.ValidString":               validString,
		"errors.Is":                              errorsIs,
		"errors.As":                              errorsAs,
		"maps.clone":                             mapsClone,
		"maps.Clone":                             mapsClone,
		"sort.Slice":                             sortSlice,
		"sort.SliceStable":                       sortSlice,
		"sort.Strings":                           sortStrings,
		"sort.Ints":                              nil,
		"strconv.ParseFloat":                     parseFloat,
		"strconv.Quote":                          quoteIntr,
		"fmt.Sprintf":                            func(w *W, f *Func, a []Value) Value { return mkStr(w.sprintf(a[0], sliceOf(a[1]))) },
		"fmt.Sprint":                             func(w *W, f *Func, a []Value) Value { return mkStr(w.sprint(sliceOf(a[0]), false)) },
		"fmt.Sprintln":                           func(w *W, f *Func, a []Value) Value { return mkStr(w.sprint(sliceOf(a[0]), true)) },
		"fmt.Errorf":                             errorf,
		"fmt.Println":                            func(w *W, f *Func, a []Value) Value { return tuple(Value{}, Value{}) },
		"fmt.Printf":                             func(w *W, f *Func, a []Value) Value { return tuple(Value{}, Value{}) },
		"fmt.Print":                              func(w *W, f *Func, a []Value) Value { return tuple(Value{}, Value{}) },
		"fmt.Fprintf":                            func(w *W, f *Func, a []Value) Value { return w.fwrite(a[0], w.sprintf(a[1], sliceOf(a[2]))) },
		"fmt.Fprint":                             func(w *W, f *Func, a []Value) Value { return w.fwrite(a[0], w.sprint(sliceOf(a[1]), false)) },
		"fmt.Fprintln":                           func(w *W, f *Func, a []Value) Value { return w.fwrite(a[0], w.sprint(sliceOf(a[1]), true)) },
		"runtime.KeepAlive":                      ret0,
		"runtime.GC":                             ret0,
		"internal/race.Enabled":                  ret0,
		"internal/godebug.New":                   ret0,
		"internal/reflectlite.TypeOf":            ret0,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
}

// ---- symbolic inputs ----

func (w *W) inName(v Value) string {
	s, ok := concStr(v)
	if !ok {
		s = "?"
	}
	n := w.names[s]
	w.names[s] = n + 1
	if n > 0 {
		s = fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (w *W) addInput(name string, t *Term) {
	w.ins = append(w.ins, SymIn{Name: name})
	w.inVar = append(w.inVar, t)
}

func symInt(w *W, f *Func, a []Value) Value {
	name := w.inName(a[0])
	lo, hi := int64(a[1].N), int64(a[2].N)
	if a[1].R != nil || a[2].R != nil {
		panic(abort{"symbolic bounds of sym.Int", true})
	}
	if lo > hi {
		panic(stopPath{"assume"})
	}
	ts := w.ts
	if lo == hi {
		w.addInput(name, ts.Const(64, uint64(lo)))
		return Value{N: uint64(lo)}
	}
	if hi-lo >= 0 && hi-lo < 256 {
		n := uint64(hi - lo)
		v := w.newVar(8, 0)
		w.addPC(ts.Bin(OUle, v, ts.Const(8, n)))
		t := ts.Bin(OAdd, ts.Zext(v, 64), ts.Const(64, uint64(lo)))
		w.addInput(name, t)
		return termV(t, intKind{64, true})
	}
	v := w.newVar(64, uint64(lo))
	if lo != math.MinInt64 {
		w.addPC(ts.Bin(OSle, ts.Const(64, uint64(lo)), v))
	}
	if hi != math.MaxInt64 {
		w.addPC(ts.Bin(OSle, v, ts.Const(64, uint64(hi))))
	}
	w.addInput(name, v)
	return Value{R: v}
}

func (w *W) newByte(name, set string) Value {
	ts := w.ts
	if len(set) == 1 {
		w.addInput(name, ts.Const(8, uint64(set[0])))
		return Value{N: uint64(set[0])}
	}
	if set == "" {
		v := w.newVar(8, 0)
		w.addInput(name, v)
		return Value{R: v}
	}
	v := w.newVar(8, uint64(set[0]))
	var m mask
	for i := 0; i < len(set); i++ {
		m[set[i]>>6] |= 1 << (set[i] & 63)
	}
	w.addPC(w.maskTerm(v, &m, 256))
	w.addInput(name, v)
	return Value{R: v}
}

// maskTerm is the condition that v lies in m, as ranges.
func (w *W) maskTerm(v *Term, m *mask, n int) *Term {
	ts := w.ts
	r := ts.F
	for i := 0; i < n; {
		if !m.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && m.has(j+1) {
			j++
		}
		var c *Term
		if i == j {
			c = ts.Eq(v, ts.Const(v.w, uint64(i)))
		} else {
			c = ts.T
			if i > 0 {
				c = ts.Bin(OUle, ts.Const(v.w, uint64(i)), v)
			}
			if uint64(j) < wmask(v.w) {
				c = ts.And(c, ts.Bin(OUle, v, ts.Const(v.w, uint64(j))))
			}
		}
		r = ts.Or(r, c)
		i = j + 1
	}
	return r
}

func symByte(w *W, f *Func, a []Value) Value {
	set, _ := concStr(a[1])
	return w.newByte(w.inName(a[0]), set)
}

func symBool(w *W, f *Func, a []Value) Value {
	v := w.newVar(0, 0)
	w.addInput(w.inName(a[0]), v)
	return Value{R: v}
}

func symStr(w *W, f *Func, a []Value) Value {
	set, _ := concStr(a[2])
	n := int(w.concInt(a[1], types.Typ[types.Int]))
	b := make([]SB, n)
	for i := range b {
		b[i] = toSB(w.newByte(w.inName(a[0]), set))
	}
	return mkStr(b)
}

// ---- strings ----

func builderString(w *W, f *Func, a []Value) Value {
	st := ptrOf(w, a[0]).R.(*Agg)
	return mkStr(sliceBytes(st.f[len(st.f)-1]))
}

func (w *W) find(s, sub []SB) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if w.branch(w.bytesEq(s[i:i+len(sub)], sub)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func strIndexIntr(w *W, f *Func, a []Value) Value {
	if x, ok := concStr(a[0]); ok {
		if y, ok := concStr(a[1]); ok {
			return intV(strings.Index(x, y))
		}
	}
	return w.find(strBytes(a[0]), strBytes(a[1]))
}

func strLastIndex(w *W, f *Func, a []Value) Value {
	if x, ok := concStr(a[0]); ok {
		if y, ok := concStr(a[1]); ok {
			return intV(strings.LastIndex(x, y))
		}
	}
	s, sub := strBytes(a[0]), strBytes(a[1])
	if len(sub) == 1 {
		return w.lastIndexByte(s, sub[0])
	}
	for i := len(s) - len(sub); i >= 0; i-- {
		if w.branch(w.bytesEq(s[i:i+len(sub)], sub)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func bytesIndexIntr(w *W, f *Func, a []Value) Value { return w.find(sliceBytes(a[0]), sliceBytes(a[1])) }

func (w *W) indexByte(s []SB, c SB) Value {
	for i := range s {
		if w.branch(w.bytesEq(s[i:i+1], []SB{c})) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (w *W) countByte(s []SB, c SB) Value {
	n := uint64(0)
	r := w.ts.Const(64, 0)
	for i := range s {
		t := w.bytesEq(s[i:i+1], []SB{c})
		if k, v := w.quickT(t); k {
			n += b2u(v)
			continue
		}
		r = w.ts.Bin(OAdd, r, w.ts.Ite(t, w.ts.Const(64, 1), w.ts.Const(64, 0)))
	}
	return termV(w.ts.Bin(OAdd, r, w.ts.Const(64, n)), intKind{64, true})
}

func (w *W) quickT(t *Term) (bool, bool) {
	if t.op == OConst {
		return true, t.val != 0
	}
	return w.quick(t)
}

func (w *W) lastIndexByte(s []SB, c SB) Value {
	r := w.ts.Const(64, ^uint64(0))
	for i := range s {
		t := w.bytesEq(s[i:i+1], []SB{c})
		if k, v := w.quickT(t); k {
			if v {
				r = w.ts.Const(64, uint64(i))
			}
			continue
		}
		r = w.ts.Ite(t, w.ts.Const(64, uint64(i)), r)
	}
	return termV(r, intKind{64, true})
}

func (w *W) cmpBytes(x, y []SB) Value {
	lt := w.strLess(x, y, false)
	eq := w.bytesEq(x, y)
	t := w.ts.Ite(eq, w.ts.Const(64, 0), w.ts.Ite(lt, w.ts.Const(64, ^uint64(0)), w.ts.Const(64, 1)))
	return termV(t, intKind{64, true})
}

func cmpCompare(w *W, f *Func, a []Value) Value {
	t := f.fn.Params[0].Type()
	if isString(t) {
		return w.cmpBytes(strBytes(a[0]), strBytes(a[1]))
	}
	return w.body(f, a)
}

func (w *W) hasPrefix(s, p []SB) Value {
	if len(p) > len(s) {
		return boolV(false)
	}
	return boolTermV(w.bytesEq(s[:len(p)], p))
}
func (w *W) hasSuffix(s, p []SB) Value {
	if len(p) > len(s) {
		return boolV(false)
	}
	return boolTermV(w.bytesEq(s[len(s)-len(p):], p))
}

func joinIntr(w *W, f *Func, a []Value) Value {
	var out []SB
	sep := strBytes(a[1])
	for i, e := range sliceOf(a[0]) {
		if i > 0 {
			out = append(out, sep...)
		}
		out = append(out, strBytes(e)...)
	}
	w.steps += len(out)
	return mkStr(out)
}

func (w *W) runeCount(s Value) int {
	n := strLen(s)
	c := 0
	for p := 0; p < n; c++ {
		_, k := w.decodeRune(s, p)
		p += k
	}
	return c
}

func validString(w *W, f *Func, a []Value) Value {
	s := a[0]
	n := strLen(s)
	for p := 0; p < n; {
		r, k := w.decodeRune(s, p)
		if k == 1 && r.R == nil && r.N == utf8.RuneError {
			return boolV(false)
		}
		p += k
	}
	return boolV(true)
}

func errorsIs(w *W, f *Func, a []Value) Value {
	target := a[1]
	it := types.Universe.Lookup("error").Type()
	if a[0].R == nil || target.R == nil {
		return boolV(a[0].R == nil && target.R == nil)
	}
	return boolV(w.unwrapAny(a[0], func(e Value) bool {
		if w.branch(w.boolTerm(w.valEq(it, e, target))) {
			return true
		}
		i := e.R.(*Iface)
		m := w.p.method(i.T, nil, "Is")
		if m == nil || len(m.resTypes) != 1 || m.fn.Signature.Params().Len() != 1 || !types.Identical(m.fn.Signature.Params().At(0).Type(), it) {
			return false
		}
		return w.branch(w.boolTerm(w.call(m, []Value{i.V, target}, nil)))
	}))
}

// unwrapAny asks about an error and those it wraps.
func (w *W) unwrapAny(e Value, f func(Value) bool) bool {
	for e.R != nil {
		if f(e) {
			return true
		}
		i := e.R.(*Iface)
		m := w.p.method(i.T, nil, "Unwrap")
		if m == nil || len(m.resTypes) != 1 || m.fn.Signature.Params().Len() != 0 {
			return false
		}
		r := w.call(m, []Value{i.V}, nil)
		if _, ok := m.resTypes[0].Underlying().(*types.Interface); !ok {
			for _, x := range sliceOf(r) {
				if w.unwrapAny(x, f) {
					return true
				}
			}
			return false
		}
		e = r
	}
	return false
}

func errorsAs(w *W, f *Func, a []Value) Value {
	ti, ok := a[1].R.(*Iface)
	if !ok {
		w.rtPanic("errors: target cannot be nil")
	}
	pt, ok := ti.T.T.Underlying().(*types.Pointer)
	if !ok || ti.V.R == nil {
		w.rtPanic("errors: target must be a non-nil pointer")
	}
	it, isI := pt.Elem().Underlying().(*types.Interface)
	return boolV(w.unwrapAny(a[0], func(e Value) bool {
		i := e.R.(*Iface)
		if isI {
			if w.p.implements(i.T, it) {
				w.store(ptrOf(w, ti.V), e)
				return true
			}
			return false
		}
		if types.Identical(i.T.T, pt.Elem()) {
			w.store(ptrOf(w, ti.V), i.V)
			return true
		}
		m := w.p.method(i.T, nil, "As")
		if m == nil || len(m.resTypes) != 1 || m.fn.Signature.Params().Len() != 1 {
			return false
		}
		return w.branch(w.boolTerm(w.call(m, []Value{i.V, a[1]}, nil)))
	}))
}

func mapsClone(w *W, f *Func, a []Value) Value {
	m, ok := a[0].R.(*MapObj)
	if !ok {
		return a[0]
	}
	n := w.newMap(m.kt)
	for _, e := range m.entries {
		if !e.deleted {
			w.mapSet(n, e.k, e.v)
		}
	}
	return Value{R: n}
}

func sortSlice(w *W, f *Func, a []Value) Value {
	i := a[0].R.(*Iface)
	s := sliceOf(i.V)
	less := a[1].R.(*FuncVal)
	for x := 1; x < len(s); x++ {
		for y := x; y > 0; y-- {
			r := w.callFV(less, []Value{intV(y), intV(y - 1)})
			if !w.branch(w.boolTerm(r)) {
				break
			}
			p, q := copyVal(s[y]), copyVal(s[y-1])
			w.store(&s[y], q)
			w.store(&s[y-1], p)
		}
	}
	return Value{}
}

func sortStrings(w *W, f *Func, a []Value) Value {
	s := sliceOf(a[0])
	for x := 1; x < len(s); x++ {
		for y := x; y > 0; y-- {
			if !w.branch(w.strLess(strBytes(s[y]), strBytes(s[y-1]), false)) {
				break
			}
			p, q := s[y], s[y-1]
			w.store(&s[y], q)
			w.store(&s[y-1], p)
		}
	}
	return Value{}
}

func parseFloat(w *W, f *Func, a []Value) Value {
	s := w.concString(a[0])
	v, err := strconv.ParseFloat(s, int(a[1].N))
	e := Value{}
	if err != nil {
		e = w.newErr(strV(err.Error()))
	}
	return tuple(Value{N: math.Float64bits(v)}, e)
}

func quoteIntr(w *W, f *Func, a []Value) Value {
	if s, ok := concStr(a[0]); ok {
		return strV(strconv.Quote(s))
	}
	return w.body(f, a)
}

// ---- fmt ----

func (w *W) fwrite(dst Value, b []SB) Value {
	i, ok := dst.R.(*Iface)
	if !ok {
		w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	m := w.p.method(i.T, nil, "Write")
	if m == nil {
		unsupported("Fprintf to %s", i.T.T)
	}
	if strings.HasPrefix(m.name, "(*os.File)") {
		return tuple(intV(len(b)), Value{})
	}
	return w.call(m, []Value{i.V, bytesVal(b)}, nil)
}

func sbs(s string) []SB { return strBytes(strV(s)) }

func (w *W) callStr(i *Iface, name string) (r []SB, ok bool) {
	m := w.p.method(i.T, nil, name)
	if m == nil || len(m.resTypes) != 1 || !isString(m.resTypes[0]) || m.fn.Signature.Params().Len() != 0 {
		return nil, false
	}
	if _, isPtr := i.T.T.Underlying().(*types.Pointer); isPtr && i.V.R == nil {
		// fmt prints <nil> if the method panics on a nil receiver
		fr := &frame{}
		mk := w.mark()
		if !w.protect(fr, func() { r = strBytes(w.call(m, []Value{i.V}, nil)) }) {
			w.resetKeep(mk)
			return sbs("<nil>"), true
		}
		return r, true
	}
	return strBytes(w.call(m, []Value{i.V}, nil)), true
}

func (w *W) fmtArg(verb rune, spec string, a Value, plus bool, depth int) []SB {
	i, ok := a.R.(*Iface)
	if !ok {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return sbs("%!s(<nil>)")
			}
			return sbs("<nil>")
		}
		return sbs("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return sbs(types.TypeString(i.T.T, func(p *types.Package) string { return p.Name() }))
	}
	if strings.ContainsRune("vsqxX", verb) && !strings.Contains(spec, "#") {
		if r, ok := w.callStr(i, "Error"); ok {
			return w.fmtStr(verb, spec, r)
		}
		if r, ok := w.callStr(i, "String"); ok {
			return w.fmtStr(verb, spec, r)
		}
	}
	return w.fmtVal(verb, spec, i.T.T, i.V, depth)
}

func (w *W) fmtStr(verb rune, spec string, r []SB) []SB {
	if verb == 'q' {
		r = strBytes(w.call(w.p.fun(w.p.ssa.ImportedPackage("strconv").Func("Quote")), []Value{mkStr(r)}, nil))
	} else if verb == 'x' || verb == 'X' {
		return sbs(fmt.Sprintf("%"+spec+string(verb), w.concString(mkStr(r))))
	}
	return w.pad(spec, r)
}

func (w *W) pad(spec string, r []SB) []SB {
	if spec == "" {
		return r
	}
	left := strings.Contains(spec, "-")
	ws := strings.TrimLeft(spec, "-+# ")
	prec := -1
	if k := strings.IndexByte(ws, '.'); k >= 0 {
		prec, _ = strconv.Atoi(ws[k+1:])
		ws = ws[:k]
	}
	if prec >= 0 {
		if prec < len(r) {
			r = r[:prec]
		}
	}
	n, _ := strconv.Atoi(ws)
	for c := w.runeCount(mkStr(r)); c < n; c++ {
		if left {
			r = append(append([]SB{}, r...), SB{c: ' '})
		} else {
			r = append([]SB{{c: ' '}}, r...)
		}
	}
	return r
}

func (w *W) fmtVal(verb rune, spec string, t types.Type, v Value, depth int) []SB {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if verb == 'd' || verb == 't' || verb == 'f' {
				return append(append(sbs("%!"+string(verb)+"("+t.String()+"="), strBytes(v)...), SB{c: ')'})
			}
			if strings.Contains(spec, "#") {
				verb, spec = 'q', ""
			}
			return w.fmtStr(verb, spec, strBytes(v))
		case u.Info()&types.IsBoolean != 0:
			b := w.branch(w.boolTerm(v))
			return sbs(fmt.Sprintf("%"+spec+string(verb), b))
		case u.Info()&types.IsFloat != 0:
			return sbs(fmt.Sprintf("%"+spec+string(verb), math.Float64frombits(v.N)))
		case u.Info()&types.IsInteger != 0:
			k, _ := intKindOf(t)
			if (verb == 'c') && v.R != nil {
				if tt := v.R.(*Term); w.branch(w.ts.Bin(OUlt, tt, w.ts.Const(tt.w, 0x80))) && tt.w >= 8 {
					return w.pad(spec, []SB{toSB(Value{R: w.ts.Trunc(tt, 8)})})
				}
			}
			n := w.concInt(v, t)
			if k.signed {
				return sbs(fmt.Sprintf("%"+spec+string(verb), n))
			}
			return sbs(fmt.Sprintf("%"+spec+string(verb), uint64(n)))
		}
	case *types.Slice, *types.Array:
		var es []Value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			es, et = sliceOf(v), s.Elem()
		} else {
			es, et = v.R.(*Agg).f, u.(*types.Array).Elem()
		}
		if k, ok := intKindOf(et); ok && k.w == 8 && strings.ContainsRune("sqxX", verb) {
			return w.fmtStr(verb, spec, sliceBytes(mkSlice(es)))
		}
		if strings.Contains(spec, "#") {
			break
		}
		out := sbs("[")
		for i, e := range es {
			if i > 0 {
				out = append(out, SB{c: ' '})
			}
			out = append(out, w.fmtElem(verb, spec, et, e, depth+1)...)
		}
		return append(out, SB{c: ']'})
	case *types.Interface:
		return w.fmtElem(verb, spec, t, v, depth)
	case *types.Pointer:
		if v.R == nil {
			return sbs("<nil>")
		}
		if _, ok := deref(t).Underlying().(*types.Struct); ok && depth == 0 && verb == 'v' && !strings.Contains(spec, "#") {
			return append(sbs("&"), w.fmtVal(verb, spec, deref(t), *ptrOf(w, v), depth+1)...)
		}
	case *types.Map:
		if strings.Contains(spec, "#") {
			break
		}
		bt, ok := u.Key().Underlying().(*types.Basic)
		if !ok || bt.Info()&(types.IsString|types.IsInteger) == 0 {
			break
		}
		type kv struct {
			s string
			n int64
			v Value
		}
		var es []kv
		if m, ok := v.R.(*MapObj); ok {
			for _, e := range m.entries {
				if e.deleted {
					continue
				}
				if bt.Info()&types.IsString != 0 {
					es = append(es, kv{w.concString(e.k), 0, e.v})
				} else {
					es = append(es, kv{"", w.concInt(e.k, u.Key()), e.v})
				}
			}
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].s < es[j].s || es[i].s == es[j].s && es[i].n < es[j].n })
		out := sbs("map[")
		for i, e := range es {
			if i > 0 {
				out = append(out, SB{c: ' '})
			}
			k := strV(e.s)
			if bt.Info()&types.IsString == 0 {
				k = Value{N: uint64(e.n)}
			}
			out = append(out, w.fmtElem(verb, spec, u.Key(), k, depth+1)...)
			out = append(out, SB{c: ':'})
			out = append(out, w.fmtElem(verb, spec, u.Elem(), e.v, depth+1)...)
		}
		return append(out, SB{c: ']'})
	case *types.Struct:
		if strings.Contains(spec, "#") {
			break
		}
		out := sbs("{")
		for i, e := range v.R.(*Agg).f {
			if i > 0 {
				out = append(out, SB{c: ' '})
			}
			if strings.Contains(spec, "+") {
				out = append(out, sbs(u.Field(i).Name()+":")...)
			}
			out = append(out, w.fmtElem(verb, spec, u.Field(i).Type(), e, depth+1)...)
		}
		return append(out, SB{c: '}'})
	}
	unsupported("formatting %s with %%%c", t, verb)
	return nil
}

func (w *W) fmtElem(verb rune, spec string, t types.Type, v Value, depth int) []SB {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return w.fmtArg(verb, spec, v, false, depth)
	}
	return w.fmtArg(verb, spec, Value{R: &Iface{w.p.types.get(t), v}}, false, depth)
}

func (w *W) sprintf(format Value, args []Value) []SB {
	fs := w.concString(format)
	var out []SB
	ai := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			out = append(out, SB{c: fs[i]})
			i++
			continue
		}
		i++
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0", fs[i]) >= 0 {
			i++
		}
		spec := fs[st:i]
		num := func() {
			if i < len(fs) && fs[i] == '*' {
				if ai >= len(args) {
					unsupported("bad * in format")
				}
				n := w.concInt(args[ai].R.(*Iface).V, types.Typ[types.Int])
				ai++
				i++
				if n < 0 {
					spec += "-"
					n = -n
				}
				spec += strconv.Itoa(int(n))
				return
			}
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				spec += string(fs[i])
				i++
			}
		}
		num()
		if i < len(fs) && fs[i] == '.' {
			spec += "."
			i++
			num()
		}
		if i < len(fs) && fs[i] == '[' {
			unsupported("indexed format argument")
		}
		if i >= len(fs) {
			out = append(out, sbs("%!(NOVERB)")...)
			break
		}
		verb, n := utf8.DecodeRuneInString(fs[i:])
		i += n
		if verb == '%' {
			out = append(out, SB{c: '%'})
			continue
		}
		if ai >= len(args) {
			out = append(out, sbs("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		out = append(out, w.fmtArg(verb, spec, a, false, 0)...)
	}
	if ai < len(args) {
		out = append(out, sbs("%!(EXTRA ")...)
		for j, a := range args[ai:] {
			if j > 0 {
				out = append(out, sbs(", ")...)
			}
			if x, ok := a.R.(*Iface); ok {
				out = append(out, sbs(types.TypeString(x.T.T, func(p *types.Package) string { return p.Name() })+"=")...)
			}
			out = append(out, w.fmtArg('v', "", a, false, 0)...)
		}
		out = append(out, SB{c: ')'})
	}
	w.steps += len(out)
	return out
}

func (w *W) sprint(args []Value, ln bool) []SB {
	var out []SB
	prevStr := false
	for i, a := range args {
		isStr := false
		if x, ok := a.R.(*Iface); ok {
			isStr = isString(x.T.T)
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, SB{c: ' '})
		}
		out = append(out, w.fmtArg('v', "", a, false, 0)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, SB{c: '\n'})
	}
	return out
}

func errorf(w *W, f *Func, a []Value) Value {
	msg := mkStr(w.sprintf(a[0], sliceOf(a[1])))
	fs := w.concString(a[0])
	if strings.Count(fs, "%w") == 1 {
		// find which argument
		n := 0
		for i := 0; i+1 < len(fs); i++ {
			if fs[i] == '%' {
				j := i + 1
				for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
					j++
				}
				if j < len(fs) && fs[j] == 'w' {
					break
				}
				if j < len(fs) && fs[j] != '%' {
					n++
				}
				i = j
			}
		}
		if o := w.p.ssa.ImportedPackage("fmt").Pkg.Scope().Lookup("wrapError"); o != nil && n < len(sliceOf(a[1])) {
			arg := sliceOf(a[1])[n]
			st := zero(o.Type())
			st.R.(*Agg).f[0] = msg
			st.R.(*Agg).f[1] = arg
			cell := new(Value)
			*cell = st
			return Value{R: &Iface{w.p.types.get(types.NewPointer(o.Type())), Value{R: cell}}}
		}
	}
	return w.newErr(msg)
}

var _ = token.ADD
