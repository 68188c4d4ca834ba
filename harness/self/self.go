// Package self exercises the executor itself: what it computes on each path is
// compared with the native run of the same inputs (Observe). It is not a check
// of a property.
package self

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/adamcolton/parlex/zzverif/gen"
	"github.com/adamcolton/parlex/zzverif/ref"
	"github.com/adamcolton/parlex/zzverif/sym"
)

type shape interface {
	Area() int
	fmt.Stringer
}
type sq struct{ a int }
type rect struct {
	sq
	b int
}

func (s sq) Area() int        { return s.a * s.a }
func (s *sq) Grow(n int)      { s.a += n }
func (s sq) String() string   { return "sq" + strconv.Itoa(s.a) }
func (r rect) Area() int      { return r.a * r.b }
func ob(xs ...any)            { sym.Observe(fmt.Sprint(xs...)) }
func obf(f string, xs ...any) { sym.Observe(fmt.Sprintf(f, xs...)) }

type num interface{ ~int | ~int64 | ~float64 }

func sum[T num](xs ...T) (s T) {
	for _, x := range xs {
		s += x
	}
	return
}

type stack[T any] struct{ xs []T }

func (s *stack[T]) push(x T) { s.xs = append(s.xs, x) }
func (s *stack[T]) pop() (T, bool) {
	var z T
	if len(s.xs) == 0 {
		return z, false
	}
	x := s.xs[len(s.xs)-1]
	s.xs = s.xs[:len(s.xs)-1]
	return x, true
}
func (s *stack[T]) all() iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		for i, x := range s.xs {
			if !yield(i, x) {
				return
			}
		}
	}
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type myErr struct{ n int }

func (e *myErr) Error() string { return fmt.Sprint("myErr ", e.n) }

func fails(n int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if re, ok := r.(error); ok {
				err = fmt.Errorf("wrapped: %w", re)
			} else {
				err = &myErr{n}
			}
		}
	}()
	if n == 1 {
		panic("x")
	}
	if n == 2 {
		panic(&myErr{7})
	}
	if n == 3 {
		var m map[string]int
		m["a"] = 1
	}
	if n == 4 {
		var a []int
		_ = a[n]
	}
	if n == 5 {
		var p *rect
		_ = p.b
	}
	if n == 6 {
		var i any = "s"
		_ = i.(int)
	}
	return nil
}

func HLang() {
	n := sym.Fork(sym.Int("n", 0, 6))
	s := sym.Str("s", 3, "ab \n")
	var sh shape = rect{sq{n}, 2}
	ob(sh.Area(), sh)
	r := rect{sq{n}, 2}
	r.Grow(3)
	g := r.Grow
	g(2)
	ob(r.a)
	f := (*sq).Grow
	f(&r.sq, 1)
	ob(r.a, sq.Area(r.sq))
	err := fails(n)
	var me *myErr
	ob(errors.As(err, &me), err == nil, err != nil)
	if n < 3 && err != nil {
		ob(err.Error())
	}
	ob(sum(1, 2, n), sum(1.5, 2.25))
	var st stack[string]
	st.push(s[:1])
	st.push(s)
	for i, x := range st.all() {
		if i > 0 && x[0] == 'a' {
			break
		}
		ob(i, x)
	}
	x, ok := st.pop()
	ob(x, ok)
	// labels, goto, fallthrough
	i := 0
loop:
	for {
		switch {
		case i == n:
			break loop
		case i == 2:
			i++
			fallthrough
		case i == 3:
			i++
			continue loop
		}
		i++
		if i > 10 {
			goto done
		}
	}
done:
	ob("i", i)
	arr := [3]int{1, 2, 3}
	brr := arr
	brr[n%3] = 9
	ob(arr == brr, arr, brr)
	m := map[[2]string]sq{{"a", s[:1]}: {1}}
	m[[2]string{"a", "b"}] = sq{2}
	ob(len(m), m[[2]string{"a", "a"}].a)
	mm := map[any]int{1: 1, "a": 2, sq{3}: 3, nil: 4}
	mm[s[:1]]++
	ob(mm[1], mm["a"], mm["b"], mm[sq{3}], mm[nil], len(mm))
	delete(mm, "a")
	ob(len(mm))
	clear(mm)
	ob(len(mm), min(n, 3), max(n, 3, 4))
	c := append(arr[:1:1], 5)
	d := append(arr[:1], 6)
	ob(arr, c, d, cap(arr[:1:2]))
	for i := range 3 {
		defer func() { ob("deferred", i) }()
	}
	for i, r := range s {
		ob(i, string(r), r == 'a')
	}
	bs := []byte(s)
	bs[0] ^= 1
	bs[1] |= 0x20
	bs[2] &^= 2
	ob(int(bs[0])<<2, uint8(bs[1]*3), int8(bs[2])-100, ^int(bs[0]))
	ob(string(bs) < s, s[0]%7, int(s[0])/5)
	p := &arr[1]
	*p += 4
	ob(arr)
	type key struct {
		a string
		b int
	}
	km := map[key][]int{}
	km[key{s[:1], 1}] = append(km[key{s[:1], 1}], 3)
	km[key{s[:1], 1}] = append(km[key{s[:1], 1}], 4)
	ob(km[key{"a", 1}], len(km))
	var e1, e2 error = &myErr{1}, &myErr{1}
	ob(e1 == e2, e1 == e1)
	fs := []func(int) int{func(x int) int { return x + n }, func(x int) int { n++; return n }}
	ob(fs[0](1), fs[1](1), fs[0](1))
	switch y := any(s[0] == 'a').(type) {
	case bool:
		ob("bool", y)
	case fmt.Stringer:
		ob("str")
	}
	ob(reflect.DeepEqual([]any{1, s[:1], map[string]*sq{"a": {1}}}, []any{1, "a", map[string]*sq{"a": {1}}}), reflect.DeepEqual([]int{}, []int(nil)), reflect.DeepEqual(r, rect{sq{6}, 2}))
	a4 := [4]int(append([]int{1, 2}, 3, 4))
	ob(a4)
	var once sync.Once
	var mu sync.RWMutex
	mu.Lock()
	once.Do(func() { ob("once") })
	once.Do(func() { ob("twice") })
	mu.Unlock()
	var cnt atomic.Int64
	cnt.Add(3)
	ob(cnt.Load())
	var sm sync.Map
	sm.Store("a", 1)
	v, ok := sm.Load("a")
	ob(v, ok)
	pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := pool.Get().(*bytes.Buffer)
	b.Reset()
	b.WriteString(s)
	ob(b.String())
	pool.Put(b)
	var nilm map[string]bool
	ob(nilm["a"], len(nilm))
	var iface shape
	ob(iface == nil)
	cplx := struct {
		a int
		b []string
		c map[string]int
		d *int
	}{1, []string{"x", s}, map[string]int{"k": 1}, nil}
	obf("%v %+v", cplx, cplx)
}

func HStd() {
	s := sym.Str("s", 4, "ab ,\n\"")
	ob(strings.Fields(s), len(strings.Split(s, ",")), strings.TrimSpace(s))
	obf("%q", strings.Split(s, ""))
	obf("%q", strings.FieldsFunc(s, func(r rune) bool { return r == ',' || unicode.IsSpace(r) }))
	a, b, ok := strings.Cut(s, ",")
	obf("%q %q %v", a, b, ok)
	a, ok = strings.CutPrefix(s, "a")
	obf("%q %v", a, ok)
	a, ok = strings.CutSuffix(s, "a")
	obf("%q %v", a, ok)
	ob(strings.Map(func(r rune) rune {
		if r == 'a' {
			return -1
		}
		return unicode.ToUpper(r)
	}, s))
	ob(strings.NewReplacer("a", "xx", "b", "").Replace(s), strings.NewReplacer("ab", "1", "b", "2").Replace(s))
	ob(strings.Replace(s, "a", "b", 1), strings.ReplaceAll(s, "a", ""), strings.ToUpper(s), strings.ToLower(s), strings.Title("a b"))
	ob(strings.Index(s, "ab"), strings.IndexByte(s, 'b'), strings.IndexRune(s, ','), strings.IndexAny(s, " ,"), strings.IndexFunc(s, unicode.IsSpace), strings.LastIndex(s, "a"), strings.LastIndexByte(s, 'a'), strings.LastIndexAny(s, "ab"))
	ob(strings.Contains(s, "a"), strings.ContainsAny(s, "a,"), strings.ContainsRune(s, ' '), strings.Count(s, "a"), strings.HasPrefix(s, "ab"), strings.EqualFold(s, "ABAB"))
	obf("%q", strings.Trim(s, "a "))
	obf("%q %q %q %q", strings.TrimLeft(s, " "), strings.TrimRight(s, "\n "), strings.TrimPrefix(s, "a"), strings.TrimFunc(s, unicode.IsLetter))
	obf("%q %q", strings.SplitN(s, ",", 2), strings.SplitAfter(s, "\n"))
	ob(strings.Repeat(s, 2), strings.Join([]string{s, s}, "-"), strings.Compare(s, "abab"))
	var sb strings.Builder
	sb.Grow(10)
	sb.WriteByte(s[0])
	sb.WriteRune('é')
	sb.WriteString(s)
	fmt.Fprintf(&sb, "%s|%5s|%-5s|%q", s, s[:1], s[:1], s)
	ob(sb.String(), sb.Len())
	rd := strings.NewReader(s)
	c, _ := rd.ReadByte()
	rest, _ := io.ReadAll(rd)
	ob(c, string(rest))
	sc := bufio.NewScanner(strings.NewReader(s))
	for sc.Scan() {
		obf("%q", sc.Text())
	}
	var buf bytes.Buffer
	buf.WriteString(s)
	buf.WriteByte('x')
	buf.WriteRune('y')
	line, err := buf.ReadString('\n')
	obf("%q %v %q", line, err, buf.String())
	ob(bytes.Contains([]byte(s), []byte("ab")), bytes.Count([]byte(s), []byte("a")), bytes.IndexByte([]byte(s), 'a'), bytes.HasPrefix([]byte(s), []byte("a")), string(bytes.TrimSpace([]byte(s))), len(bytes.Split([]byte(s), []byte(","))), bytes.LastIndex([]byte(s), []byte("a")))
	obf("%q %v %s %x", bytes.Fields([]byte(s)), bytes.Equal([]byte(s), []byte("abab")), bytes.ReplaceAll([]byte(s), []byte("a"), []byte("z")), "ab")
	ob(utf8.RuneCountInString(s), len([]rune(s)), string([]rune(s)[1:]))
	for i, l := range strings.Split(s, "\n") {
		obf("%d:%q", i, l)
	}
}

func HConv() {
	d := sym.Str("d", 2, "0159-a")
	n, err := strconv.Atoi(d)
	ob(n, err == nil)
	i64, err := strconv.ParseInt(d, 16, 64)
	ob(i64, err == nil)
	u, err := strconv.ParseUint(d, 10, 8)
	ob(u, err == nil)
	q := "\"" + d + "\""
	uq, err := strconv.Unquote(q)
	ob(uq, err == nil, strconv.Quote(d))
	bb, err := strconv.ParseBool(d)
	ob(bb, err == nil)
	k := sym.Fork(sym.Int("k", -3, 12))
	ob(strconv.Itoa(k), strconv.FormatInt(int64(k), 2), strconv.AppendInt(nil, int64(k), 10), strconv.FormatFloat(float64(k)/2, 'f', -1, 64))
	obf("%d %5d %-5d| %05d %x %c %U %t %v %T %p", k, k, k, k, k+10, 'a'+k, 'a'+k, k > 0, k, k, nil)
	obf("%6.2f|%g|%e|%v|%s|%v|%%", float64(k)/4, float64(k), float64(k), []int{k}, []string{"a"}, errors.New("e"))
	obf("%v %v %+v %#v", struct{ A, B int }{k, 2}, &struct{ A int }{k}, struct{ A string }{"x"}, "q")
	obf("%*d|%-*d|%3c|%-4q|%08.3f|%+d|% d", 5, k, 4, k, 'x', "a", 1.5, k, k)
	obf("%v %v", map[string]int{"b": 2, "a": 1}, [2]bool{true})
	obf("%s %d", "few")
	obf("%d", "str")
	ob(1, 2, "a", "b", 3, nil, 1.5, true)
	sym.Observe(fmt.Sprintln("a", 1, nil))
	var x, y int
	cnt, err := fmt.Sscanf("3 4", "%d %d", &x, &y)
	ob(cnt, err, x, y)
	cnt, err = fmt.Sscan("5 6", &x, &y)
	ob(cnt, err, x, y)
}

func HColl() {
	xs := make([]int, 4)
	for i := range xs {
		xs[i] = sym.Int("x", 0, 2)
	}
	ys := slices.Clone(xs)
	slices.Sort(ys)
	ob(ys)
	ys = slices.Clone(xs)
	sort.Ints(ys)
	ob(ys)
	sort.Sort(sort.Reverse(sort.IntSlice(ys)))
	ob(ys)
	slices.SortFunc(ys, func(a, b int) int { return cmp.Compare(a, b) })
	ob(ys, slices.Index(xs, 1), slices.Contains(xs, 2), slices.Max(xs), slices.Equal(xs, ys), slices.IndexFunc(xs, func(x int) bool { return x > 1 }))
	type pr struct{ a, b int }
	ps := []pr{{xs[0], 0}, {xs[1], 1}, {xs[2], 2}, {xs[3], 3}}
	qs := slices.Clone(ps)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
	obf("%v", ps)
	slices.SortStableFunc(qs, func(a, b pr) int { return cmp.Compare(b.a, a.a) })
	obf("%v", qs)
	ys = slices.Insert(slices.Clone(xs), 1, 7, 8)
	ob(ys)
	ys = slices.Delete(ys, 0, 2)
	slices.Reverse(ys)
	ob(ys, slices.Compact(slices.Clone(xs)), slices.DeleteFunc(slices.Clone(xs), func(x int) bool { return x == 1 }))
	i, ok := slices.BinarySearch([]int{0, 1, 3}, xs[0])
	ob(i, ok, sort.SearchInts([]int{0, 1, 3}, xs[1]), sort.Search(5, func(i int) bool { return i >= xs[2] }))
	m := map[int]string{}
	for i, x := range xs {
		m[x] += strconv.Itoa(i)
	}
	ks := slices.Sorted(maps.Keys(m))
	ob(ks, len(m))
	vs := slices.Collect(maps.Values(m))
	sort.Strings(vs)
	ob(vs)
	m2 := maps.Clone(m)
	delete(m2, 1)
	ob(maps.Equal(m, m2))
	l := list.New()
	for _, x := range xs {
		if x > 0 {
			l.PushBack(x)
		} else {
			l.PushFront(x)
		}
	}
	for e := l.Front(); e != nil; e = e.Next() {
		ob(e.Value)
	}
	h := &ih{}
	for _, x := range xs {
		heap.Push(h, x)
	}
	for h.Len() > 0 {
		ob(heap.Pop(h))
	}
	ss := []string{"b", "a", strconv.Itoa(xs[0])}
	sort.Strings(ss)
	ob(ss, sort.SearchStrings(ss, "a"))
	slices.SortFunc(ss, func(a, b string) int { return strings.Compare(b, a) })
	ob(ss)
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	ob(ss, slices.Concat(ss, ss), slices.Repeat(ss, 2))
	for c := range slices.Chunk(xs, 3) {
		ob(c)
	}
	for i, x := range slices.Backward(xs) {
		ob(i, x)
	}
}

func HRe() {
	s := sym.Str("s", 4, "ab1 ")
	re := regexp.MustCompile(`a(b*)(1)?`)
	ob(re.MatchString(s), re.Match([]byte(s)), re.FindString(s), re.FindStringIndex(s), re.FindIndex([]byte(s)))
	obf("%q %v", re.FindStringSubmatch(s), re.FindStringSubmatchIndex(s))
	obf("%q %v %v", re.FindAllString(s, -1), re.FindAllStringIndex(s, -1), re.FindAllStringSubmatchIndex(s, 2))
	obf("%q", re.FindAllStringSubmatch(s, -1))
	ob(re.ReplaceAllString(s, "<$1>"), re.ReplaceAllLiteralString(s, "$"), re.ReplaceAllStringFunc(s, strings.ToUpper))
	obf("%q", re.Split(s, -1))
	ob(re.String(), re.NumSubexp(), regexp.QuoteMeta("a.b"))

	ok, err := regexp.MatchString("^b", s)
	ob(ok, err)
	obf("%q", re.FindSubmatch([]byte(s)))
	ob(re.FindAllSubmatchIndex([]byte(s), -1))
	lre := regexp.MustCompile(`(?m)^(a|ab)(c|bcd)?$`)
	lre.Longest()
	ob(lre.FindString(s))
	lre = regexp.MustCompile(`(a|ab|b1)(1|b|)`)
	ob(lre.FindStringSubmatchIndex(s))
	lre.Longest()
	ob(lre.FindStringSubmatchIndex(s), lre.FindAllString(s, -1))
	ob(regexp.MustCompilePOSIX("(a|ab)(b*)").FindStringIndex(s))
	_, err = regexp.Compile("(" + s)
	ob(err != nil)
}

func HChan() {
	n := sym.Fork(sym.Int("n", 0, 3))
	ch := make(chan int)
	done := make(chan struct{})
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			ch <- i
		}
	}()
	go func() { close(done) }()
	for x := range ch {
		ob(x)
	}
	<-done
	b := make(chan string, 2)
	b <- "a"
	b <- "b"
	ob(len(b), cap(b))
	select {
	case x := <-b:
		ob(x)
	default:
		ob("none")
	}
	close(b)
	x, ok := <-b
	ob(x, ok)
	x, ok = <-b
	ob(x, ok)
	var wg sync.WaitGroup
	res := make([]int, 3)
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = i * i
		}()
	}
	wg.Wait()
	ob(res)
}

// HRefs: the two reference recognisers agree.
func HRefs() {
	g := ref.G{
		{"S", gen.RhsAny("s1", 0, 2)},
		{"S", gen.Rhs("s2", 0, 2, "SAx")},
		{"A", gen.Rhs("a1", 0, 2, "SAx")},
	}
	if sym.Bool("menu") {
		g = ref.Parse(gen.Menu[sym.Fork(sym.Choice("grammar", len(gen.Menu)))].Text)
	}
	c := g.Compile()
	in := c.Kinds(gen.Kinds(0, 3, "xS"))
	sym.Assert(c.Accepts(in) == c.Derive(in).Sym(0, 0, len(in)), "the recognisers agree")
}

// HMenus: the inputs the long menus are made of are accepted.
func HMenus() {
	long := append(append([]gen.Long{}, gen.LongLeft...), gen.LongMenu...)
	for _, it := range long {
		c := ref.Parse(it.Text).Compile()
		sym.Assert(c.Accepts(c.Kinds(strings.Fields(it.In))), it.In)
	}
	for _, it := range append(append([]gen.Huge{}, gen.HugeLeft...), gen.HugeMenu...) {
		c := ref.Parse(it.Text).Compile()
		sym.Assert(c.Accepts(c.Kinds(strings.Fields(it.Before+it.In+it.After))), it.In)
	}
}
