package main

// Exhaustive exploration of the real engines against the state graph of
// EngineGraph.tla: a state is the specification's state together with
// everything the engine object holds.  From every built engine every
// operation of the graph is applied to a copy of the engine until no new
// state is found, so that histories of any length over these operations are
// covered.

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/iomz/gosstrak/filtering"
)

type unsupported string

// open gives access to unexported fields
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// deepCopy copies everything reachable
func deepCopy(v reflect.Value, memo map[unsafe.Pointer]reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			c.Set(v)
			break
		}
		if x, ok := memo[v.UnsafePointer()]; ok && x.Type() == v.Type() {
			return x
		}
		n := reflect.New(v.Type().Elem())
		memo[v.UnsafePointer()] = n
		n.Elem().Set(deepCopy(v.Elem(), memo))
		c.Set(n)
	case reflect.Interface:
		if !v.IsNil() {
			e := reflect.New(v.Elem().Type()).Elem()
			e.Set(v.Elem())
			c.Set(deepCopy(e, memo))
		}
	case reflect.Struct:
		w := v
		if !v.CanAddr() {
			w = reflect.New(v.Type()).Elem()
			w.Set(v)
		}
		for i := 0; i < v.NumField(); i++ {
			open(c.Field(i)).Set(deepCopy(open(w.Field(i)), memo))
		}
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), memo))
		}
		c.Set(n)
	case reflect.Array:
		w := reflect.New(v.Type()).Elem()
		w.Set(v)
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(w.Index(i), memo))
		}
	case reflect.Map:
		if v.IsNil() {
			break
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			n.SetMapIndex(k, deepCopy(e, memo))
		}
		c.Set(n)
	case reflect.Chan, reflect.UnsafePointer, reflect.Uintptr:
		panic(unsupported(v.Type().String()))
	case reflect.Func:
		if !v.IsNil() {
			panic(unsupported(v.Type().String()))
		}
	default:
		c.Set(v)
	}
	return c
}

// deepKey writes everything reachable
func deepKey(b *strings.Builder, v reflect.Value, seen map[unsafe.Pointer]int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("-")
			return
		}
		if n, ok := seen[v.UnsafePointer()]; ok {
			fmt.Fprintf(b, "^%d", n)
			return
		}
		seen[v.UnsafePointer()] = len(seen)
		b.WriteString("*")
		deepKey(b, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("-")
			return
		}
		b.WriteString(v.Elem().Type().String())
		e := reflect.New(v.Elem().Type()).Elem()
		e.Set(v.Elem())
		deepKey(b, e, seen)
	case reflect.Struct:
		w := v
		if !v.CanAddr() {
			w = reflect.New(v.Type()).Elem()
			w.Set(v)
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			deepKey(b, open(w.Field(i)), seen)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			deepKey(b, v.Index(i), seen)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		ks := []string{}
		for _, k := range v.MapKeys() {
			e := &strings.Builder{}
			deepKey(e, k, seen)
			e.WriteString(":")
			x := reflect.New(v.Type().Elem()).Elem()
			x.Set(v.MapIndex(k))
			deepKey(e, x, map[unsafe.Pointer]int{})
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "m%q", ks)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.Func:
		if !v.IsNil() {
			panic(unsupported(v.Type().String()))
		}
	default:
		panic(unsupported(v.Type().String()))
	}
}

func copyEngine(e filtering.Engine) (r filtering.Engine, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			r, ok = nil, false
		}
	}()
	v := reflect.ValueOf(&e).Elem()
	c := deepCopy(v, map[unsafe.Pointer]reflect.Value{})
	return c.Interface().(filtering.Engine), true
}

func engineKey(e filtering.Engine) (k string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			k, ok = "", false
		}
	}()
	b := &strings.Builder{}
	deepKey(b, reflect.ValueOf(&e).Elem(), map[unsafe.Pointer]int{})
	return b.String(), true
}

type cState struct {
	have   int
	init   int
	eng    filtering.Engine // nil if it cannot be copied: made again from the history
	parent *cState
	step   gStep
	depth  int
}

func (s *cState) path() (l []gStep) {
	for ; s.parent != nil; s = s.parent {
		l = append([]gStep{s.step}, l...)
	}
	return
}

type cResult struct {
	States, Transitions, Searches int64
	Deepest                       int64
	Complete                      int64 // explorations which found all states
	Cut                           int64 // ... which were cut off
	PerRun                        []string
	Fail                          *gFail
}

type closer struct {
	w     *gWalker
	ops   map[string]bool
	need  string
	limit int
	until time.Time
}

// apply performs one step; what is wrong with the answer, if anything
func (c *closer) apply(e filtering.Engine, s gStep, n int) (r filtering.Engine, want, got string) {
	if p := guard(func() { r, want, got = c.doApply(e, s, n) }); p != "" {
		return e, "an end without panic", p
	}
	return
}

func (c *closer) doApply(e filtering.Engine, s gStep, n int) (r filtering.Engine, want, got string) {
	g := c.w.g
	switch s.act {
	case "add":
		e.AddSubscription(g.subs(c.w.u, s.arg))
	case "del":
		e.DeleteSubscription(g.subs(c.w.u, s.arg))
	case "save":
		b, err := e.MarshalBinary()
		if err != nil {
			return e, "a saved engine", err.Error()
		}
		e = fresh(c.w.kind, n%2 == 0)
		if err := e.UnmarshalBinary(b); err != nil {
			return e, "a restored engine", err.Error()
		}
	case "search", "junk":
		if a := g.ask(e, c.w.u, s.arg[0]); a != s.ans {
			return e, s.ans, a
		}
	}
	return e, "", ""
}

func (c *closer) again(s *cState) filtering.Engine {
	e := construct(c.w.kind, c.w.g.subs(c.w.u, bitsSet(s.init)))
	for i, t := range s.path() {
		e, _, _ = c.apply(e, t, i)
	}
	return e
}

func (c *closer) copyOf(s *cState) filtering.Engine {
	if s.eng != nil {
		if e, ok := copyEngine(s.eng); ok {
			return e
		}
	}
	return c.again(s)
}

// probe asks everything of a copy
func (c *closer) probe(s *cState, res *cResult) (want, got string) {
	e := c.copyOf(s)
	for j := 1; j <= len(c.w.g.us[c.w.u].Probes); j++ {
		atomic.AddInt64(&res.Searches, 1)
		x := c.w.searches[s.have][j]
		if _, w, a := c.apply(e, gStep{act: "search", arg: []int{j}, ans: x}, 0); w != a {
			return fmt.Sprintf("probe %d: %s", j, w), fmt.Sprintf("probe %d: %s", j, a)
		}
	}
	return
}

// mine: whether a failing history is about the property at hand, named by the needed action
func (c *closer) mine(s *cState) bool {
	path := s.path()
	last, rest := "search", []gStep{}
	saved := false
	for _, t := range path {
		if t.act == "add" || t.act == "del" {
			last = t.act
		}
		if t.act == "save" {
			saved = true
		} else {
			rest = append(rest, t)
		}
	}
	switch c.need {
	case "junk":
		return len(path) > 0 && path[len(path)-1].act == "junk"
	case "save": // without saving and restoring it does not fail
		if !saved {
			return false
		}
		want, got := c.replay(s.init, s.have, rest)
		return want == got
	case "":
		return true
	}
	return last == c.need
}

// replay plays a history on a new engine
func (c *closer) replay(init, have int, path []gStep) (want, got string) {
	e := construct(c.w.kind, c.w.g.subs(c.w.u, bitsSet(init)))
	for i, t := range path {
		if e, want, got = c.apply(e, t, i); want != got {
			return
		}
	}
	for j := 1; j <= len(c.w.g.us[c.w.u].Probes) && want == got; j++ {
		if _, want, got = c.apply(e, gStep{act: "search", arg: []int{j}, ans: c.w.searches[have][j]}, 0); want != got {
			return fmt.Sprintf("probe %d: %s", j, want), fmt.Sprintf("probe %d: %s", j, got)
		}
	}
	return
}

func (c *closer) run(res *cResult, stop *int32) {
	g := c.w.g
	key := fmt.Sprintf("%d/%s", c.w.u+1, graphKind(c.w.kind))
	seen := map[string]bool{}
	var queue []*cState
	cut := false
	depth := 0
	visit := func(s *cState) bool { // false: stop
		k, ok := engineKey(s.eng)
		if !ok { // it cannot be told apart from others: only histories of three steps
			if s.depth > 3 {
				cut = true
				return true
			}
			k = fmt.Sprint(s.init, s.path())
			s.eng = nil
		}
		k = fmt.Sprint(s.have, "|", k)
		if seen[k] {
			return true
		}
		if len(seen) >= c.limit || time.Now().After(c.until) {
			cut = true
			return true
		}
		seen[k] = true
		if s.depth > depth {
			depth = s.depth
		}
		atomic.AddInt64(&res.States, 1)
		if want, got := c.probe(s, res); want != got {
			return !c.fail(s, want, got, res, stop)
		}
		queue = append(queue, s)
		return true
	}
	for init := 0; init < 1<<uint(len(g.us[c.w.u].Pats)); init++ {
		if !visit(&cState{have: init, init: init, eng: construct(c.w.kind, g.subs(c.w.u, bitsSet(init)))}) {
			return
		}
	}
	for len(queue) > 0 && atomic.LoadInt32(stop) == 0 {
		if time.Now().After(c.until) {
			cut = true
			break
		}
		s := queue[0]
		queue = queue[1:]
		for _, t := range g.steps[key][s.have] {
			if !c.ops[t.act] {
				continue
			}
			atomic.AddInt64(&res.Transitions, 1)
			e, want, got := c.apply(c.copyOf(s), t, s.depth)
			n := &cState{have: t.to, init: s.init, eng: e, parent: s, step: t, depth: s.depth + 1}
			if want != got {
				if c.fail(n, want, got, res, stop) {
					return
				}
				continue
			}
			if !visit(n) {
				return
			}
		}
		s.eng = nil
	}
	if cut {
		atomic.AddInt64(&res.Cut, 1)
	} else {
		atomic.AddInt64(&res.Complete, 1)
	}
	closureLock <- true
	res.PerRun = append(res.PerRun, fmt.Sprintf("universe %d %s: %d states, depth %d, cut %v", c.w.u+1, c.w.kind, len(seen), depth, cut))
	if int64(depth) > res.Deepest {
		res.Deepest = int64(depth)
	}
	<-closureLock
}

var closureLock = make(chan bool, 1)

func (c *closer) fail(s *cState, want, got string, res *cResult, stop *int32) bool {
	path := s.path()
	if !c.mine(s) {
		return false
	}
	// it is a history of one engine: confirm it on a new one
	if w, g := c.replay(s.init, s.have, path); w == g {
		return false
	}
	if atomic.CompareAndSwapInt32(stop, 0, 1) {
		f := &gFail{Universe: c.w.u + 1, Engine: c.w.kind, Want: want, Got: got, Patterns: c.w.g.us[c.w.u].Pats, Dests: c.w.g.us[c.w.u].Dest}
		for _, k := range bitsSet(s.init) {
			f.Init = append(f.Init, c.w.g.us[c.w.u].Pats[k-1])
		}
		for _, t := range path {
			f.Walk = append(f.Walk, fmt.Sprint(t.act, t.arg))
		}
		res.Fail = f
	}
	return true
}

func runClosure(g *graph, kinds, ops []string, need string, limit int, budget time.Duration) *cResult {
	res := &cResult{}
	var stop int32
	om := map[string]bool{}
	for _, o := range ops {
		om[o] = true
	}
	n := len(g.us) * len(kinds)
	share := budget / time.Duration((n+runtime.NumCPU()-1)/runtime.NumCPU()) // of each exploration
	parallel(n, func(i int) {
		u, kind := i%len(g.us), kinds[i/len(g.us)]
		w := &gWalker{g: g, u: u, kind: kind, searches: map[int]map[int]string{}}
		for st, ss := range g.steps[fmt.Sprintf("%d/%s", u+1, graphKind(kind))] {
			w.searches[st] = map[int]string{}
			for _, s := range ss {
				if s.act == "search" || s.act == "junk" {
					w.searches[st][s.arg[0]] = s.ans
				}
			}
		}
		c := &closer{w: w, ops: om, need: need, limit: limit, until: time.Now().Add(share)}
		c.run(res, &stop)
	})
	sort.Strings(res.PerRun)
	return res
}
