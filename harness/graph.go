package main

// Replays every walk of bounded length through the state graph of
// EngineGraph.tla (printed by TLC) on the real engines.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
)

type gUniverse struct {
	Pats   []string
	Dest   []string
	Pairs  [][]int
	Probes []struct {
		Pc []int
		ID string `json:"id"`
	}
	Junk int // from this one on, probes are no tags: an error may accompany reports
}

type gEdge struct {
	U    int
	K    string
	From []int
	Act  string
	Arg  []int
	To   []int
	Ans  json.RawMessage
}

func mask(xs []int) int {
	m := 0
	for _, x := range xs {
		m |= 1 << uint(x-1)
	}
	return m
}

type gStep struct {
	act string
	arg []int
	to  int
	ans string // canonical expected reports of a search
}

type graph struct {
	us    []gUniverse
	steps map[string]map[int][]gStep // "u/kind" -> state -> steps
}

func canonCount(m map[string]int) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s*%d ", k, m[k])
	}
	return s
}

func loadGraph(universes, edges string) *graph {
	g := &graph{steps: map[string]map[int][]gStep{}}
	b, err := os.ReadFile(universes)
	die(err)
	die(json.Unmarshal(b, &g.us))
	f, err := os.Open(edges)
	die(err)
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var e gEdge
		die(json.Unmarshal(sc.Bytes(), &e))
		key := fmt.Sprintf("%d/%s", e.U, e.K)
		if g.steps[key] == nil {
			g.steps[key] = map[int][]gStep{}
		}
		st := gStep{act: e.Act, arg: e.Arg, to: mask(e.To)}
		sort.Ints(st.arg)
		if e.Act == "search" || e.Act == "junk" {
			m := map[string]int{}
			if len(e.Ans) > 0 && e.Ans[0] == '{' {
				die(json.Unmarshal(e.Ans, &m))
			}
			st.ans = canonCount(m)
		}
		from := mask(e.From)
		g.steps[key][from] = append(g.steps[key][from], st)
	}
	for _, m := range g.steps {
		for s := range m {
			st := m[s]
			sort.Slice(st, func(i, j int) bool {
				return fmt.Sprint(st[i].act, st[i].arg) < fmt.Sprint(st[j].act, st[j].arg)
			})
		}
	}
	return g
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(2)
	}
}

type gResult struct {
	Walks    int64
	Steps    int64
	Searches int64
	Fail     *gFail
	Samples  []string
}
type gFail struct {
	Universe int
	Engine   string
	Init     []string
	Walk     []string
	Want     string
	Got      string
	Patterns []string
	Dests    []string
}

func (g *graph) subs(u int, ks []int) filtering.Subscriptions {
	s := filtering.Subscriptions{}
	for _, k := range ks {
		d := "http://" + g.us[u].Dest[k-1] + ".example/"
		s[d] = append(s[d], g.us[u].Pats[k-1])
	}
	return s
}

func bitsSet(m int) []int {
	r := []int{}
	for i := 0; i < 30; i++ {
		if m>>uint(i)&1 == 1 {
			r = append(r, i+1)
		}
	}
	return r
}

// ask searches for probe j
func (g *graph) ask(e filtering.Engine, u, j int) string {
	p := g.us[u].Probes[j-1]
	pc := []byte{}
	for _, x := range p.Pc {
		pc = append(pc, byte(x))
	}
	_, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: toBytes(p.ID)})
	m := map[string]int{}
	for _, d := range uris {
		m[strings.TrimSuffix(strings.TrimPrefix(d, "http://"), ".example/")]++
	}
	if j >= g.us[u].Junk {
		if err == nil && len(uris) == 0 {
			return "neither reports nor an error"
		}
	} else if (err != nil) != (len(uris) == 0) {
		return fmt.Sprint("error ", err, " with ", uris)
	}
	return canonCount(m)
}

type gWalker struct {
	g        *graph
	u        int
	kind     string
	ops      map[string]bool
	need     string // every walk must contain this action ("" = any)
	depth    int
	res      *gResult
	stop     *int32
	searches map[int]map[int]string
}

// play runs init and the walk on a new engine; final=true probes everything at the end
func (w *gWalker) play(init int, walk []gStep) (ok bool, want, got string) {
	g := w.g
	p := func() (p string) {
		defer func() {
			if x := recover(); x != nil {
				p = fmt.Sprint("panic: ", x)
			}
		}()
		e := construct(w.kind, g.subs(w.u, bitsSet(init)))
		st := init
		for i, s := range walk {
			switch s.act {
			case "add":
				e.AddSubscription(g.subs(w.u, s.arg))
			case "del":
				e.DeleteSubscription(g.subs(w.u, s.arg))
			case "save":
				b, err := e.MarshalBinary()
				if err != nil {
					return "save: " + err.Error()
				}
				e = fresh(w.kind, i%2 == 0)
				if err := e.UnmarshalBinary(b); err != nil {
					return "restore: " + err.Error()
				}
			case "search", "junk":
				atomic.AddInt64(&w.res.Searches, 1)
				if a := g.ask(e, w.u, s.arg[0]); a != s.ans {
					want, got = s.ans, a
					return ""
				}
			}
			st = s.to
		}
		for j := 1; j <= len(g.us[w.u].Probes); j++ {
			atomic.AddInt64(&w.res.Searches, 1)
			x, asked := w.searches[st][j]
			if !asked {
				continue
			}
			if a := g.ask(e, w.u, j); a != x {
				want, got = fmt.Sprintf("probe %d: %s", j, x), fmt.Sprintf("probe %d: %s", j, a)
				return ""
			}
		}
		return ""
	}()
	if p != "" {
		return false, "no crash", p
	}
	return want == got, want, got
}

func (w *gWalker) rec(init, st int, walk []gStep, has bool) bool {
	if atomic.LoadInt32(w.stop) != 0 {
		return false
	}
	if w.need == "" || has || w.depth == 0 {
		atomic.AddInt64(&w.res.Walks, 1)
		atomic.AddInt64(&w.res.Steps, int64(len(walk)))
		var ok bool
		var want, got string
		h := guard(func() { ok, want, got = w.play(init, walk) })
		if h != "" {
			ok, want, got = false, "termination", h
		}
		if !ok {
			if atomic.CompareAndSwapInt32(w.stop, 0, 1) {
				f := &gFail{Universe: w.u + 1, Engine: w.kind, Want: want, Got: got, Patterns: w.g.us[w.u].Pats, Dests: w.g.us[w.u].Dest}
				for _, k := range bitsSet(init) {
					f.Init = append(f.Init, w.g.us[w.u].Pats[k-1])
				}
				for _, s := range walk {
					f.Walk = append(f.Walk, fmt.Sprint(s.act, s.arg))
				}
				w.res.Fail = f
			}
			return false
		}
	}
	if len(walk) == w.depth {
		return true
	}
	key := fmt.Sprintf("%d/%s", w.u+1, graphKind(w.kind))
	for _, s := range w.g.steps[key][st] {
		if !w.ops[s.act] {
			continue
		}
		if !w.rec(init, s.to, append(walk[:len(walk):len(walk)], s), has || s.act == w.need) {
			return false
		}
	}
	return true
}

func graphKind(kind string) string {
	if kind == textKind {
		return kind
	}
	return "PatriciaTrie"
}

// runGraph walks: from every state to depth, from the empty and full state to depth2
func runGraph(g *graph, kinds []string, ops []string, need string, depth, depth2 int) *gResult {
	res := &gResult{}
	var stop int32
	om := map[string]bool{}
	for _, o := range ops {
		om[o] = true
	}
	type job struct {
		u, init, depth int
		kind           string
	}
	var jobs []job
	for u := range g.us {
		n := len(g.us[u].Pats)
		for _, k := range kinds {
			jobs = append(jobs, job{u, 0, depth2, k}, job{u, 1<<uint(n) - 1, depth2, k})
			for s := 0; s < 1<<uint(n); s++ {
				jobs = append(jobs, job{u, s, depth, k})
			}
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		w := &gWalker{g: g, u: j.u, kind: j.kind, ops: om, need: need, depth: j.depth, res: res, stop: &stop, searches: map[int]map[int]string{}}
		for st, ss := range g.steps[fmt.Sprintf("%d/%s", j.u+1, graphKind(j.kind))] {
			w.searches[st] = map[int]string{}
			for _, s := range ss {
				if s.act == "search" || s.act == "junk" {
					w.searches[st][s.arg[0]] = s.ans
				}
			}
		}
		w.rec(j.init, j.init, nil, false)
	})
	return res
}
