package h

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"log"
	"maps"
	"math"
	"math/bits"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/nginxinc/nginx-go-crossplane/zzverif/nd"
)

func init() {
	All["Z00_Strings"] = Z00_Strings
	All["Z00_Readers"] = Z00_Readers
	All["Z00_Fmt"] = Z00_Fmt
	All["Z00_Conv"] = Z00_Conv
	All["Z00_Slices"] = Z00_Slices
	All["Z00_Sync"] = Z00_Sync
	All["Z00_Lang"] = Z00_Lang
	All["Z00_Paths"] = Z00_Paths
	All["Z00_Reflect"] = Z00_Reflect
	All["Z00_Regexp"] = Z00_Regexp
	All["Z00_Utf8"] = Z00_Utf8
	All["Z00_Misc"] = Z00_Misc
	All["Z00_Files"] = Z00_Files
}

type zStr string
type zInt int
type zPt struct {
	X, Y int
	s    string
}

func (p zPt) String() string { return "<" + strconv.Itoa(p.X) + ">" }

type zErr struct{ n int }

func (e *zErr) Error() string { return fmt.Sprint("zerr ", e.n) }

type zHeap []int

func (h zHeap) Len() int           { return len(h) }
func (h zHeap) Less(i, j int) bool { return h[i] < h[j] }
func (h zHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *zHeap) Push(x any)        { *h = append(*h, x.(int)) }
func (h *zHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func zgen[K comparable, V any](m map[K]V, k K) (V, bool) { v, ok := m[k]; return v, ok }

type zWriter struct{ strings.Builder }

func (w *zWriter) Write(b []byte) (int, error) { return w.Builder.Write(b) }

// Z00_Strings exercises the executor: no claim.
func Z00_Strings() {
	s := nd.StrIn(3, "aB ,\n")
	out := []string{strings.Join(strings.Fields(s), "|"), strings.ToUpper(s), strings.ToLower(s), strings.Map(func(r rune) rune {
		if r == ' ' {
			return -1
		}
		return unicode.ToLower(r)
	}, s), strings.NewReplacer("a", "xx", "B", "").Replace(s), strings.Join(strings.SplitN(s, ",", 2), "/"), strings.Join(strings.SplitAfter(s, ","), "/"),
		strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ',' }), "/"),
		strings.TrimFunc(s, unicode.IsSpace), strings.Trim(s, "a\n"), strings.TrimLeft(s, " "), strings.Title(s), strings.Repeat(s, 2), strings.ToTitle(s)}
	out = append(out, fmt.Sprint(strings.Index(s, "B"), strings.LastIndex(s, "a"), strings.IndexAny(s, ", "), strings.IndexByte(s, 'a'), strings.LastIndexByte(s, 'a'),
		strings.Count(s, "a"), strings.EqualFold(s, "AB "), strings.Compare(s, "a"), strings.ContainsAny(s, "\n,"), strings.ContainsRune(s, 'B'), strings.IndexFunc(s, unicode.IsUpper), strings.LastIndexAny(s, "aB"), strings.ContainsFunc(s, unicode.IsSpace)))
	b, a, ok := strings.Cut(s, ",")
	c, ok2 := strings.CutPrefix(s, "a")
	d, ok3 := strings.CutSuffix(s, "a")
	out = append(out, b, a, c, d, fmt.Sprint(ok, ok2, ok3))
	out = append(out, slices.Collect(strings.SplitSeq(s, ","))...)
	out = append(out, slices.Collect(strings.Lines(s))...)
	nd.Show("out", q(strings.Join(out, ";")))
}

// Z00_Readers exercises the executor: no claim.
func Z00_Readers() {
	s := nd.StrIn(3, "a\n ")
	var out []string
	r := strings.NewReader(s)
	for {
		c, n, err := r.ReadRune()
		if err == io.EOF {
			break
		}
		out = append(out, fmt.Sprint(string(c), n))
	}
	r.Reset(s)
	if r.Len() > 0 {
		_, _ = r.ReadByte()
		_ = r.UnreadByte()
	}
	all, _ := io.ReadAll(r)
	out = append(out, string(all))
	br := bufio.NewReader(strings.NewReader(s))
	l, err := br.ReadString('\n')
	out = append(out, l, fmt.Sprint(err))
	if c, _, err := br.ReadRune(); err == nil {
		out = append(out, string(c))
		_ = br.UnreadRune()
	}
	if p, err := br.Peek(1); err == nil {
		out = append(out, string(p))
	}
	sc := bufio.NewScanner(strings.NewReader(s))
	for sc.Scan() {
		out = append(out, "L"+sc.Text())
	}
	sc = bufio.NewScanner(bytes.NewReader([]byte(s)))
	sc.Split(bufio.ScanWords)
	sc.Buffer(make([]byte, 0, 16), 1<<20)
	for sc.Scan() {
		out = append(out, "W"+string(sc.Bytes()))
	}
	sc = bufio.NewScanner(io.LimitReader(strings.NewReader(s), 2))
	sc.Split(func(data []byte, eof bool) (int, []byte, error) {
		if len(data) == 0 {
			return 0, nil, nil
		}
		return 1, data[:1], nil
	})
	for sc.Scan() {
		out = append(out, "B"+sc.Text())
	}
	var w zWriter
	t := io.TeeReader(io.MultiReader(strings.NewReader("<"), strings.NewReader(s)), &w)
	_, _ = io.Copy(io.Discard, t)
	out = append(out, w.String())
	bw := bufio.NewWriterSize(&w, 16)
	_, _ = bw.WriteString(s)
	_ = bw.WriteByte('x')
	_, _ = bw.WriteRune('é')
	fmt.Fprintf(bw, "%d", 3)
	_ = bw.Flush()
	out = append(out, w.String())
	rc := io.NopCloser(strings.NewReader(s))
	_ = rc.Close()
	var bb bytes.Buffer
	mw := io.MultiWriter(&bb, &w)
	_, _ = io.WriteString(mw, s)
	x, _ := bb.ReadBytes('\n')
	out = append(out, string(x), fmt.Sprint(bb.Len()))
	bb.Truncate(0)
	bb.WriteString("abc")
	nx := bb.Next(1)
	out = append(out, string(nx), bb.String())
	sr := io.NewSectionReader(strings.NewReader("abcdef"), 1, 3)
	sb, _ := io.ReadAll(sr)
	out = append(out, string(sb))
	pr, pw := io.Pipe()
	go func() {
		_, _ = pw.Write([]byte(s))
		_ = pw.Close()
	}()
	pb, _ := io.ReadAll(pr)
	out = append(out, string(pb))
	buf := make([]byte, 2)
	n, err := io.ReadFull(strings.NewReader(s), buf)
	out = append(out, fmt.Sprint(n, err))
	nd.Show("out", q(strings.Join(out, ";")))
}

// Z00_Fmt exercises the executor: no claim.
func Z00_Fmt() {
	s := nd.StrIn(2, "a\"")
	n := int(nd.Uint32() % 3)
	p := zPt{X: 1, Y: 2, s: "q"}
	var e error = &zErr{4}
	out := []string{fmt.Sprint(s, n, n, s, true), fmt.Sprintln(s, n), fmt.Sprintf("%s|%q|%v|%x|%5s|%-5s|%c|%U|%t|%08.3f", s, s, s, s, s, s, 'x', 'x', true, 1.5),
		fmt.Sprintf("%d %5d %-5d| %05d %x %X %o %b %+d %#x", n, n, n, n, n, n, n, n, n, n), fmt.Sprintf("%*d|%.2s|%%|%v", 5, 3, s, []string{s, "b"}),
		fmt.Sprint(p, &p, e, zStr("x"), zInt(4), []byte("ab"), []int{1, 2}), fmt.Sprintf("%v %+v %T %T %T %T", p, zInt(3), p, e, s, []string{}),
		fmt.Sprintf("%q %v %s", []string{"a", "b"}, []any{1, "x", nil}, []string{"u"}), fmt.Sprintf("%v %d", map[string]int{"b": 1, "a": 2}, []int{3}),
		fmt.Sprintf("%d"), fmt.Sprintf("%s", nil), fmt.Sprintf("%!", 1), fmt.Sprintf("%[2]s %[1]s", "a", "b"), fmt.Sprintf("%v", struct {
			A int
			B string
		}{1, s}), fmt.Sprintf("%s", errors.New("z")), fmt.Sprintf("%v", [2]bool{true, false}), fmt.Sprint(uint8(3), int64(-4), uint64(1<<63), 'a', 1.25, nil)}
	w := fmt.Errorf("a: %w b: %w", e, os.ErrNotExist)
	var ze *zErr
	out = append(out, w.Error(), fmt.Sprint(errors.Is(w, os.ErrNotExist), errors.As(w, &ze), errors.Unwrap(fmt.Errorf("x %w", e)) == e))
	j := errors.Join(e, errors.New("2"), nil)
	out = append(out, j.Error())
	var b bytes.Buffer
	fmt.Fprintln(&b, "x", s)
	fmt.Fprint(&b, "x", s)
	out = append(out, b.String(), string(fmt.Appendf(nil, "%s-", s)), string(fmt.Append([]byte("z"), 1, 2)))
	nd.Show("out", q(strings.Join(out, ";")))
}

// Z00_Conv exercises the executor: no claim.
func Z00_Conv() {
	s := nd.StrIn(2, "1-a\"\\")
	a, err := strconv.Atoi(s)
	out := []string{strconv.Itoa(a), fmt.Sprint(err), strconv.Quote(s), string(strconv.AppendInt(nil, 7, 2)), strconv.FormatUint(255, 16), strconv.FormatBool(true), strconv.QuoteRune('é'), strconv.QuoteToASCII("é" + s)}
	u, err := strconv.Unquote(`"` + s + `"`)
	out = append(out, u, fmt.Sprint(err != nil))
	i, err := strconv.ParseInt(s, 16, 64)
	bo, berr := strconv.ParseBool(s)
	out = append(out, fmt.Sprint(i, err, bo, berr != nil), hex.EncodeToString([]byte("ab")), fmt.Sprint(math.MaxInt32, bits.OnesCount(7), bits.Len(9), bits.TrailingZeros64(8)))
	nd.Show("out", q(strings.Join(out, ";")))
}

// Z00_Slices exercises the executor: no claim.
func Z00_Slices() {
	s := []string{nd.StrIn(1, "abc"), nd.StrIn(1, "abc"), "b"}
	c := slices.Clone(s)
	slices.Sort(c)
	d := append([]string{}, s...)
	sort.Sort(sort.Reverse(sort.StringSlice(d)))
	e := slices.Insert(slices.Clone(c), 1, "z")
	e = slices.Delete(e, 0, 1)
	f := slices.Compact(slices.Clone(c))
	slices.SortFunc(d, func(x, y string) int { return strings.Compare(x, y) })
	slices.SortStableFunc(d, func(x, y string) int { return -strings.Compare(x, y) })
	sort.SliceStable(e, func(i, j int) bool { return e[i] < e[j] })
	slices.Reverse(e)
	i, ok := slices.BinarySearch(c, "b")
	m := map[string]int{s[0]: 1, s[1]: 2, "q": 3}
	ks := slices.Sorted(maps.Keys(m))
	vs := slices.Sorted(maps.Values(m))
	m2 := maps.Clone(m)
	maps.DeleteFunc(m2, func(k string, v int) bool { return k == "a" })
	maps.Copy(m2, map[string]int{"u": 9})
	k := sort.SearchStrings(c, "b")
	l := sort.Search(5, func(i int) bool { return i >= 2 })
	v, ok2 := zgen(m, "a")
	it := slices.Collect(slices.Values(c))
	g := slices.Concat(c, d)
	ch := slices.Collect(slices.Chunk(g, 2))
	nd.Show("out", q(fmt.Sprint(c, d, e, f, i, ok, ks, vs, len(m2), k, l, v, ok2, it, g, len(ch), slices.Max(c), slices.Index(s, "b"), slices.ContainsFunc(s, func(x string) bool { return x == "c" }), slices.Equal(c, d), slices.IndexFunc(c, func(x string) bool { return x > "a" }), slices.Compare(c, d), maps.Equal(m, m2), sort.StringsAreSorted(c), slices.IsSorted(c), slices.Repeat(c, 2))))
	ints := []int{3, 1, 2}
	sort.Ints(ints)
	h := &zHeap{5, 2, 8}
	heap.Init(h)
	heap.Push(h, 1)
	x := heap.Pop(h).(int)
	ll := list.New()
	ll.PushBack("a")
	ll.PushFront(s[0])
	var o []string
	for e := ll.Front(); e != nil; e = e.Next() {
		o = append(o, e.Value.(string))
	}
	nd.Show("out2", q(fmt.Sprint(ints, x, o, ll.Len())))
}

// Z00_Sync exercises the executor: no claim.
func Z00_Sync() {
	var mu sync.RWMutex
	var once sync.Once
	var wg sync.WaitGroup
	var n int64
	var an atomic.Int64
	var av atomic.Value
	var ap atomic.Pointer[zPt]
	var sm sync.Map
	k := nd.StrIn(1, "ab")
	for i := 0; i < 3; i++ {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			once.Do(func() { an.Add(10) })
			mu.Lock()
			defer mu.Unlock()
			n += int64(i)
			atomic.AddInt64(&n, 1)
			an.Add(1)
		}()
	}
	wg.Wait()
	wg.Go(func() { an.Add(1) })
	wg.Wait()
	mu.RLock()
	out := fmt.Sprint(n, an.Load())
	mu.RUnlock()
	av.Store("x")
	ap.Store(&zPt{X: 3})
	out += fmt.Sprint(av.Load().(string), ap.Load().X, mu.TryLock())
	sm.Store(k, 1)
	v, ok := sm.Load("a")
	v2, loaded := sm.LoadOrStore("b", 2)
	sm.Range(func(k, v any) bool { out += "*"; return true })
	sm.Delete("b")
	out += fmt.Sprint(v, ok, v2, loaded)
	ov := sync.OnceValue(func() int { return 4 })
	out += fmt.Sprint(ov(), ov())
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		<-ctx.Done()
		close(done)
	}()
	select {
	case <-ctx.Done():
		out += "early"
	default:
	}
	cancel()
	<-done
	out += fmt.Sprint(ctx.Err())
	c2 := context.WithValue(context.Background(), zStr("k"), 3)
	out += fmt.Sprint(c2.Value(zStr("k")))
	runtime.Gosched()
	nd.Show("out", q(out))
}

// Z00_Lang exercises the executor: no claim.
func Z00_Lang() {
	s := nd.StrIn(2, "ab")
	var out []string
	defer func() { nd.Show("out", q(strings.Join(out, ";"))) }()
	func() {
		defer func() {
			r := recover()
			out = append(out, fmt.Sprint(r))
			if e, ok := r.(runtime.Error); ok {
				out = append(out, "rt "+e.Error())
			}
		}()
		var m map[string]int
		m[s] = 1
	}()
	func() {
		defer func() { out = append(out, fmt.Sprint(recover())) }()
		var x []int
		_ = x[len(s)]
	}()
	func() {
		defer func() { out = append(out, fmt.Sprint(recover())) }()
		var x any = s
		_ = x.(int)
	}()
	func() {
		defer func() { out = append(out, fmt.Sprint(recover())) }()
		panic(fmt.Errorf("boom %s", s))
	}()
	type key struct {
		a string
		b int
	}
	mk := map[key][2]string{{s, 1}: {"x", s}}
	v := mk[key{"aa", 1}]
	out = append(out, v[0]+v[1])
	arr := [3]string{s, "b", "c"}
	arr2 := arr
	arr2[0] = "z"
	out = append(out, fmt.Sprint(arr == arr2, arr[0]))
outer:
	for i, r := range s + "é" {
		switch {
		case r == 'a':
			continue outer
		case i == 1:
			out = append(out, "one")
			fallthrough
		case i == 7:
			out = append(out, "ft")
		default:
			break outer
		}
	}
	i := 0
loop:
	if i < 2 {
		i++
		goto loop
	}
	f := strings.HasPrefix
	g := (&zPt{X: 5}).String
	hh := zPt.String
	out = append(out, fmt.Sprint(f(s, "a"), g(), hh(zPt{X: i})))
	for idx := range &arr {
		out = append(out, strconv.Itoa(idx))
	}
	rs := []rune(s + "é")
	bs := []byte(s)
	copy(bs, "q")
	out = append(out, string(rs[len(rs)-1:]), string(bs), string(rune(65)), fmt.Sprint(len(rs), cap(bs[:1:1])))
	var st fmt.Stringer = zPt{X: 9}
	switch t := st.(type) {
	case *zPt:
		out = append(out, "ptr")
	case zPt:
		out = append(out, "val"+t.s)
	}
	ar4 := (*[2]int)(([]int{1, 2, 3})[:2])
	out = append(out, fmt.Sprint(*ar4 == [2]int{1, 2}))
	ch := make(chan string, 2)
	ch <- s
	close(ch)
	x, ok := <-ch
	_, ok2 := <-ch
	out = append(out, fmt.Sprint(x, ok, ok2))
	cplx := struct{ zPt }{zPt{X: 2}}
	out = append(out, cplx.String(), fmt.Sprint(cplx.zPt.Y))
}

// Z00_Paths exercises the executor: no claim.
func Z00_Paths() {
	s := nd.StrIn(3, "a./*")
	rel, err := filepath.Rel("/a", "/"+s)
	d, f := filepath.Split(s)
	m, merr := filepath.Match("a*", s)
	nd.Show("out", q(fmt.Sprint(filepath.Clean(s), filepath.Join("x", s), filepath.Dir(s), filepath.Base(s), filepath.Ext(s), filepath.IsAbs(s), rel, err, d, f, m, merr, path.Join("a", s), filepath.ToSlash(s), filepath.SplitList(s), path.Base(s), filepath.IsLocal(s), filepath.VolumeName(s))))
}

// Z00_Reflect exercises the executor: no claim.
func Z00_Reflect() {
	a, b := []string{nd.StrIn(1, "ab")}, []string{"a"}
	one := 1
	two := 1
	p, r := &zPt{1, 2, a[0]}, &zPt{1, 2, "a"}
	nd.Show("out", q(fmt.Sprint(reflect.DeepEqual(a, b), reflect.DeepEqual(p, r), reflect.DeepEqual(&one, &two), reflect.DeepEqual(nil, nil), reflect.DeepEqual([]int(nil), []int{}), reflect.DeepEqual(map[string][]string{"x": a}, map[string][]string{"x": b}), reflect.DeepEqual(1, int64(1)), reflect.TypeOf(a) == reflect.TypeOf(b), reflect.TypeOf(p).String(), reflect.TypeOf(1).Kind() == reflect.Int)))
}

// Z00_Regexp exercises the executor: no claim.
func Z00_Regexp() {
	s := nd.StrIn(3, "ab*")
	re := regexp.MustCompile(`(a+)(b*)`)
	nd.Show("out", q(fmt.Sprint(re.MatchString(s), re.FindString(s), re.FindStringIndex(s), re.ReplaceAllString(s, "<$2$1>"), re.Split(s, -1), re.FindAllString(s, -1), regexp.QuoteMeta(s), re.FindStringSubmatch(s), re.NumSubexp())))
}

// Z00_Utf8 exercises the executor: no claim.
func Z00_Utf8() {
	s := string([]byte{nd.Byte(), 0xa9})
	r, n := utf8.DecodeRuneInString(s)
	l, n2 := utf8.DecodeLastRuneInString(s)
	nd.Show("out", q(fmt.Sprint(r, n, l, n2, utf8.RuneCountInString(s), utf8.ValidString(s), utf8.RuneLen(r), unicode.IsLetter(r), unicode.IsDigit(r), unicode.IsPunct(r), unicode.IsControl(r), string(utf8.AppendRune(nil, r)), strings.ToValidUTF8(s, "?"), unicode.ToUpper(r), unicode.IsSpace(r), unicode.In(r, unicode.Latin))))
}

// Z00_Misc exercises the executor: no claim.
func Z00_Misc() {
	s := nd.StrIn(1, "ab")
	h := fnv.New32a()
	_, _ = h.Write([]byte(s))
	var tb bytes.Buffer
	tw := tabwriter.NewWriter(&tb, 0, 8, 1, ' ', 0)
	fmt.Fprintf(tw, "a\tb\n")
	_ = tw.Flush()
	t0 := time.Now()
	_ = time.Since(t0)
	log.SetOutput(io.Discard)
	log.Printf("hello %s", s)
	lg := log.New(&tb, "p: ", 0)
	lg.Println("x", s)
	_ = os.Getenv("HOME")
	nd.Show("out", q(fmt.Sprint(h.Sum32(), tb.String(), time.Duration(1500)*time.Millisecond)))
}

// Z00_Files exercises the executor: no claim.
func Z00_Files() {
	d := nd.Scratch()
	s := nd.StrIn(2, "ab")
	var out []string
	add := func(x ...any) { out = append(out, strings.ReplaceAll(fmt.Sprint(x...), d, "D")) }
	p := filepath.Join(d, "x")
	add(os.WriteFile(p, []byte(s), 0o600))
	b, err := os.ReadFile(p)
	add(string(b), err)
	_, err = os.Stat(filepath.Join(d, "none"))
	add(os.IsNotExist(err), errors.Is(err, fs.ErrNotExist), err)
	f, err := os.CreateTemp(d, "t*")
	add(err)
	if err == nil {
		n := f.Name()
		_, err = f.WriteString(s)
		add(err, f.Close(), os.Rename(n, filepath.Join(d, "y")))
	}
	f, err = os.OpenFile(p, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0o644)
	add(err)
	_, err = f.Write([]byte("zz"))
	add(err)
	_, err = f.Seek(0, io.SeekStart)
	add(err)
	b, err = io.ReadAll(f)
	add(string(b), err, f.Sync(), f.Close())
	fi, err := os.Stat(p)
	add(fi.Size(), fi.IsDir(), fi.Name(), fi.Mode().IsRegular(), err)
	es, err := os.ReadDir(d)
	for _, e := range es {
		add(e.Name(), e.IsDir())
	}
	add(os.MkdirAll(filepath.Join(d, "a/b"), 0o755), os.Remove(p))
	g, err := filepath.Glob(filepath.Join(d, "*"))
	add(g, err)
	add(filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error { add(p, e.IsDir()); return nil }))
	add(filepath.Walk(d, func(p string, e fs.FileInfo, err error) error { add(p, e.IsDir()); return nil }))
	ab, err := filepath.Abs(p)
	add(ab, err)
	add(os.RemoveAll(filepath.Join(d, "a")))
	dfs := os.DirFS(d)
	b, err = fs.ReadFile(dfs, "y")
	add(string(b), err)
	f, err = os.Create(filepath.Join(d, "nodir/x"))
	add(f == nil, err)
	nd.Show("out", q(strings.Join(out, ";")))
}
