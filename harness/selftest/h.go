// Package selftest exercises the engine's Go semantics; every observation is
// compared with the compiled program.
package selftest

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/tabwriter"
	"unicode/utf8"

	"github.com/grafana/thema/zz_verif/vr"
)

type kind uint16

const (
	k1 kind = 1 << iota
	k2
	k3
	top kind = (1 << 14) - 1
)

//go:noinline
func id[T any](x T) T { return x }

type node struct {
	a, b kind
	arr  [3]int
	sub  struct {
		x int8
		y *node
	}
	nodes []node
}

type shape interface{ Area() int }
type sq struct{ s int }
type rc struct{ a, b int }

func (s sq) Area() int  { return s.s * s.s }
func (r *rc) Area() int { return r.a * r.b }

type emb struct {
	sq
	*rc
	n int
}

func (e emb) Area() int { return e.sq.Area() + e.rc.Area() }

func H_Ops() {
	a, b := id(k1|k3), id(k1)
	vr.Observe("andnot", int(a&^b))
	vr.Observe("andnot2", int(top&^a))
	a &^= k3
	vr.Observe("andnot3", int(a))
	var x8 int8 = id(int8(100))
	x8 += 100
	vr.Observe("ov", int(x8))
	var u8 uint8 = id(uint8(200))
	u8 += 100
	vr.Observe("ovu", int(u8))
	u8--
	vr.Observe("neg", int(-x8)>>1)
	vr.Observe("shl", int(id(int32(1))<<31))
	vr.Observe("shr", int(id(int32(-8))>>1))
	vr.Observe("ushr", int(id(uint32(0xfffffff8))>>1))
	vr.Observe("div", id(-7)/2)
	vr.Observe("mod", id(-7)%3)
	vr.Observe("f", int(id(3.99)*2))
	vr.Observe("not", int(^id(uint16(5))))
	vr.Observe("notk", int(^id(k2)))
	vr.Observe("xor", id(5)^3)
	vr.Observe("big", id(uint64(1)<<63)>>60)
	vr.Observe("conv", int(int8(id(300))))
	vr.Observe("conv2", int(uint8(id(-1))))
	vr.Observe("shift", id(1)<<id(uint(70)))
	var s []int
	for i := 0; i < 20; i++ {
		s = append(s, i*i)
	}
	vr.Observe("len", len(s))
	vr.Observe("cap", cap(s))
	t := s[3:7]
	t = append(t, -1)
	vr.Observe("alias", s[7])
	t = append(s[3:7:7], -2)
	vr.Observe("alias2", s[7])
	vr.Observe("t", fmt.Sprint(t))
	copy(s[1:], s)
	vr.Observe("s", fmt.Sprint(s))
	n := node{a: 1}
	m := n
	m.arr[1] = 4
	m.sub.y = &n
	m.sub.y.b = 7
	n.nodes = append(n.nodes, m, n)
	n.nodes[0].arr[2] = 9
	p := &n.nodes[0].sub
	p.x = -3
	vr.Observe("n", fmt.Sprint(n.a, n.b, n.arr, len(n.nodes), n.nodes[0].arr, n.nodes[0].sub.x, m.arr))
	arr := [3]int{1, 2, 3}
	ar2 := arr
	ar2[0] = 9
	for i, v := range arr {
		arr[2] = 10
		vr.Observe("r"+strconv.Itoa(i), v)
	}
	vr.Observe("eq", arr == ar2)
	vr.Observe("eq2", arr == [3]int{1, 2, 10})
}

func H_Iface() {
	var s shape = sq{3}
	vr.Observe("sq", s.Area())
	r := &rc{2, 5}
	s = r
	r.a = 4
	vr.Observe("rc", s.Area())
	e := emb{sq{2}, r, 1}
	s = e
	vr.Observe("emb", s.Area())
	s = &e
	e.sq.s = 5
	vr.Observe("embp", s.Area())
	f := s.Area
	e.sq.s = 1
	vr.Observe("bound", f())
	g := emb.Area
	vr.Observe("expr", g(e))
	_, ok := s.(fmt.Stringer)
	vr.Observe("ok", ok)
	switch v := s.(type) {
	case sq:
		vr.Observe("sw", "sq")
	case *emb:
		vr.Observe("sw", "emb"+strconv.Itoa(v.n))
	}
	var any1, any2 any = sq{1}, sq{1}
	vr.Observe("ieq", any1 == any2)
	any2 = &rc{}
	vr.Observe("ieq2", any1 == any2)
	mm := map[any]int{sq{1}: 4, "x": 5, 3: 6, k1: 7}
	vr.Observe("m", mm[any1]+mm["x"]*10+mm[3]*100+mm[k1]*1000+mm[kind(2)])
	vr.Observe("panic", vr.Call(func() { _ = any1.(*rc) }))
	vr.Observe("panic2", vr.Call(func() { var x *rc; _ = x.Area() }))
	vr.Observe("panic3", vr.Call(func() { var s []int; _ = s[id(0)] }))
	vr.Observe("panic4", vr.Call(func() { _ = 1 / id(0) }))
	vr.Observe("panic5", vr.Call(func() { m := map[any]int{}; m[[]int{1}] = 2 }))
}

func dd() (r int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("wrapped: %v", x)
			r = 42
		}
	}()
	defer func() { r++ }()
	var p *node
	p.a = 1
	return 7, nil
}

func loopdefer() (out string) {
	for i := 0; i < 3; i++ {
		defer func() { out += strconv.Itoa(i) }()
	}
	return "x"
}

func nested() (s string) {
	defer func() { s += fmt.Sprint(recover()) }()
	defer func() {
		defer func() { s += fmt.Sprint(recover()); panic("third") }()
		panic("second")
	}()
	panic("first")
}

func gen[K comparable, W any](m map[K]W, f func(K, W) bool) (n int) {
	for k, v := range m {
		if f(k, v) {
			n++
		}
	}
	return
}

type stk[T any] struct{ xs []T }

func (s *stk[T]) push(x T) { s.xs = append(s.xs, x) }
func (s *stk[T]) pop() T {
	x := s.xs[len(s.xs)-1]
	s.xs = s.xs[:len(s.xs)-1]
	return x
}

func H_Ctl() {
	r, err := dd()
	vr.Observe("dd", r)
	vr.Observe("dderr", err.Error())
	vr.Observe("ld", loopdefer())
	vr.Observe("nested", nested())
	vr.Observe("gen", gen(map[string]int{"a": 1, "b": 2, "c": 3}, func(k string, v int) bool { return v > 1 || k == "a" }))
	s := &stk[string]{}
	s.push("a")
	s.push("b")
	vr.Observe("pop", s.pop()+s.pop())
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i *= 2; return i })
	}
	vr.Observe("clo", fs[0]()+fs[1]()+fs[2]()+fs[2]())
outer:
	for i := 0; ; i++ {
		switch {
		case i == 3:
			continue outer
		case i > 5:
			break outer
		}
	}
	for i := range []int{7, 8, 9} {
		vr.Observe("ri", i)
	}
	for i, r := range "aé世" {
		vr.Observe("rs"+strconv.Itoa(i), int(r))
	}
	m := map[string][]int{}
	m["a"] = append(m["a"], 1, 2)
	m["b"] = append(m["b"], 3)
	delete(m, "b")
	m["c"] = nil
	ks := make([]string, 0)
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	vr.Observe("ks", strings.Join(ks, ","))
	e1 := fmt.Errorf("x: %w", errors.New("inner"))
	vr.Observe("unwrap", errors.Unwrap(e1).Error())
	ch := make(chan int, 3)
	ch <- 1
	ch <- 2
	close(ch)
	t := 0
	for v := range ch {
		t += v
	}
	vr.Observe("ch", t)
}

func seq(n int) func(func(int) bool) {
	return func(y func(int) bool) {
		for i := 0; i < n; i++ {
			if !y(i) {
				return
			}
		}
	}
}

type js struct {
	A int               `json:"a"`
	B *string           `json:"b,omitempty"`
	C []float64         `json:"c"`
	D map[string]any    `json:"d"`
	E struct{ F bool }  `json:"e"`
	G map[string]string `json:"-"`
}

func (k kind) String() string { return "kind" + strconv.Itoa(int(k)) }

func H_Lib() {
	var j js
	err := json.Unmarshal([]byte(`{"a": 12, "b":"x\u00e9y", "c":[1.5,2e3,-0.25], "d":{"k":[1,"two",null,true],"z":{}}, "e":{"F":true}}`), &j)
	vr.Observe("err", err == nil)
	vr.Observe("b", *j.B)
	b, err := json.Marshal(j)
	vr.Observe("js", string(b))
	err = json.Unmarshal([]byte(`{"a": "s"}`), &j)
	vr.Observe("err2", err.Error())
	vr.Observe("fmt", fmt.Sprintf("%d|%5d|%-5d|%05d|%x|%q|%v|%+v|%T|%s|%t|%c|%U|%8.3f|%g|%e", 12, 34, 56, 78, 255, "h\"i", []int{1}, struct {
		A int
		B string
	}{1, "b"}, j, errors.New("e"), true, 'x', 0x1F600, 3.14159, 1e21, 12345.678))
	vr.Observe("fmt2", fmt.Sprintf("%v %s %d %v %v", k3, k2, k1, &sq{4}, map[string]int{"b": 2, "a": 1}))
	vr.Observe("fmt3", fmt.Sprintf("%!|%z %d", 1, "x"))
	re := regexp.MustCompile(`^([a-z]+)(\d*)(?:-(x|y))?$`)
	vr.Observe("re", strings.Join(re.FindStringSubmatch("abc123-y"), "/"))
	vr.Observe("re2", re.MatchString("ABC"))
	vr.Observe("rep", regexp.MustCompile(`a(.)b`).ReplaceAllString("axbayb", "<$1>"))
	vr.Observe("str", strings.ToUpper("héllo")+strings.Title("foo bar")+strings.Repeat("ab", 3)+strings.TrimLeft("xxay", "x")+strings.Map(func(r rune) rune { return r + 1 }, "abc"))
	vr.Observe("split", fmt.Sprint(strings.Split("a,b,,c", ","), strings.Fields(" a  b "), strings.SplitN("a.b.c", ".", 2)))
	vr.Observe("repl", strings.NewReplacer("a", "1", "bb", "2").Replace("abbab"))
	var buf bytes.Buffer
	w := tabwriter.NewWriter(&buf, 0, 8, 1, ' ', 0)
	fmt.Fprintf(w, "a\tb\nccc\td\n")
	w.Flush()
	vr.Observe("tab", buf.String())
	xs := []int{5, 2, 8, 1, 9, 3, 7, 7, 0, 4, 6, 11, 15, 13, 12}
	sort.Ints(xs)
	vr.Observe("sort", fmt.Sprint(xs))
	sort.Slice(xs, func(i, j int) bool { return xs[i] > xs[j] })
	vr.Observe("sort2", fmt.Sprint(xs))
	vr.Observe("search", sort.Search(len(xs), func(i int) bool { return xs[i] < 8 }))
	u, err := strconv.ParseUint("184467440737095516160", 10, 64)
	vr.Observe("pu", fmt.Sprint(u, err))
	f, err := strconv.ParseFloat("1.25e-3", 64)
	vr.Observe("pf", fmt.Sprint(f, err))
	vr.Observe("q", strconv.Quote("a\tb\x00\u2028é"))
	vr.Observe("utf", utf8.ValidString("a\xff"))
	vr.Observe("utf2", utf8.RuneCountInString("aé世"))
}
