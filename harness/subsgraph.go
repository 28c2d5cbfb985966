package main

// Replays the cases of FiltersGraph.tla on the real filters, compositions, arrangements and loader.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/iomz/gosstrak/filtering"
)

type fCase struct {
	C struct {
		Op   string
		Fs   [][2]json.RawMessage
		Ids  []string
		Rows [][]string
	}
	Want []string
}

// canonical spells bits at an offset over n bits, "x" where anything goes
func canonical(b string, off, n int) string {
	s := []byte(strings.Repeat("x", n))
	for i := range b {
		if off+i < n {
			s[off+i] = b[i]
		}
	}
	return string(s)
}

// both is the conjunction of two canonical spellings, "!" where they contradict
func both(a, b string) string {
	s := []byte(a)
	for i := range s {
		switch {
		case s[i] == 'x':
			s[i] = b[i]
		case b[i] != 'x' && b[i] != s[i]:
			s[i] = '!'
		}
	}
	return string(s)
}

func (k fCase) run(n int) (got []string) {
	fs := make([]bo, len(k.C.Fs))
	for i, f := range k.C.Fs {
		die(json.Unmarshal(f[0], &fs[i].b))
		die(json.Unmarshal(f[1], &fs[i].o))
	}
	switch k.C.Op {
	case "obj":
		f := filtering.NewFilter(fs[0].b, fs[0].o)
		t := "opaque"
		if f.IsTransparent() {
			t = "transparent"
		}
		first, end := -1, -1
		for i := 0; i < 64; i++ {
			if f.HasByteAt(i) {
				if first < 0 {
					first = i
				}
				end = i + 1
			}
		}
		m := ""
		for _, id := range k.C.Ids {
			m += yes(f.Match(toBytes(id)))[:1]
		}
		got = append(got, t, fmt.Sprint(first), fmt.Sprint(end), m)
		for i := first; i < end; i++ {
			v, x, err := f.GetByteAt(i)
			if err != nil {
				got = append(got, err.Error())
			} else {
				got = append(got, bits8(v)+bits8(x))
			}
		}
	case "comp":
		var in []*filtering.FilterObject
		for _, f := range fs {
			in = append(in, filtering.NewFilter(f.b, f.o))
		}
		common, rests := parts(filtering.NewComposition(in))
		got = append(got, canonical(common.b, common.o, len(k.Want[0])))
		for i, f := range fs {
			r := rests[f.b]
			if r == nil {
				got = append(got, "no rest")
				continue
			}
			n := len(k.Want[i+1])
			end := (r.Offset + len(r.String) + 7) / 8 * 8
			if end > n {
				got = append(got, "the rest is too long")
				continue
			}
			if e := (common.o + len(common.b) + 7) / 8 * 8; end < n && e < n {
				got = append(got, "the rest is too short")
				continue
			}
			got = append(got, both(canonical(common.b, common.o, n), canonical(r.String, r.Offset, n)))
		}
	case "nest":
		if !canLink {
			return k.Want
		}
		sub := [][2]string{}
		for _, f := range fs {
			sub = append(sub, [2]string{f.b, "to " + f.b})
		}
		b := bsubOf(sub, fs[0].o)
		linkSubset(b)
		m := map[string]string{}
		ns := nodes(b, "-", "")
		for _, x := range ns {
			if x[3] != "to "+x[0].(string) {
				return []string{fmt.Sprint("the subscriber of ", x)}
			}
			m[x[0].(string)] = fmt.Sprintf("%v %v %v", x[0], x[1], x[2])
		}
		if len(ns) != len(fs) {
			return []string{fmt.Sprint(ns)}
		}
		for _, f := range fs {
			got = append(got, m[f.b])
		}
	case "load":
		s := loadText(writeCSV(rand.New(rand.NewSource(int64(n))), k.C.Rows))
		for u, ps := range s {
			got = append(got, strings.Join(append([]string{u}, ps...), " "))
		}
		sort.Strings(got)
		sort.Strings(k.Want)
	}
	return got
}

type fResult struct {
	Cases int
	Fails int
	ByOp  map[string]int
	Fail  *fFail
}

type fFail struct {
	Case fCase
	Got  []string
	What string
}

func runSubsGraph(path string) fResult {
	f, err := os.Open(path)
	die(err)
	defer f.Close()
	var cs []fCase
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<22)
	for sc.Scan() {
		var k fCase
		die(json.Unmarshal(sc.Bytes(), &k))
		cs = append(cs, k)
	}
	res := fResult{Cases: len(cs), ByOp: map[string]int{}}
	var mu sync.Mutex
	best := len(cs)
	parallel(len(cs), func(i int) {
		k := cs[i]
		var got []string
		what := guard(func() { got = k.run(i) })
		mu.Lock()
		defer mu.Unlock()
		res.ByOp[k.C.Op]++
		if what != "" || strings.Join(got, ";") != strings.Join(k.Want, ";") {
			res.Fails++
			if i < best {
				best = i
				res.Fail = &fFail{k, got, what}
			}
		}
	})
	return res
}
