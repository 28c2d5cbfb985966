package main

// Replays the cases of TdtGraph.tla on the real encoders, pattern compilers and decoders.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
)

type tdtCase struct {
	Op, Typ string
	F       []string
	Pc      []int
	Id      string
	Want    []string
}

func str(ev Event, key string) string {
	if p := ev["panic"].(string); p != "" {
		return p
	}
	if ev["err"].(bool) {
		return "ERR"
	}
	return ev[key].(string)
}

func bytesOf(x []int) []byte {
	b := make([]byte, len(x))
	for i, v := range x {
		b[i] = byte(v)
	}
	return b
}

// run returns what the code does for the case, in the order of Want, and remarks on anything else that is off
func (k tdtCase) run(n int) (got []string, remark string) {
	switch k.Op {
	case "translate":
		return []string{str(translateEvent(bytesOf(k.Pc), toBytes(k.Id)), "urn")}, ""
	case "filter":
		b := str(filterEvent(k.Typ, k.F), "bits")
		if k.Want[0] == "ERR" && k.Typ == "giai-96" && len(b) > 96 {
			b = "ERR" // no tag is long enough
		}
		return []string{b}, ""
	}
	typ := k.Typ
	var tag, viaWrapper string
	pc := []byte{48, 0}
	if k.Op == "epc" {
		typ += "-96"
		tag = str(epcEvent(k.Typ, false, k.F, false), "bits")
		viaWrapper = str(epcEvent(k.Typ, false, k.F, true), "bits")
	} else {
		tag = str(isoEvent(k.Typ, false, k.F, false), "bits")
		viaWrapper = str(isoEvent(k.Typ, false, k.F, true), "bits")
		pc = bytesOf(k.Pc)
	}
	if viaWrapper != tag {
		return nil, fmt.Sprintf("MakeEPC/MakeISO makes %s, the encoder of the scheme %s", viaWrapper, tag)
	}
	got = append(got, tag)
	if strings.Trim(tag, "01") != "" {
		got = append(got, "ERR")
	} else {
		got = append(got, str(translateEvent(pc, toBytes(tag)), "urn"))
	}
	for j := 1; j <= len(k.F); j++ {
		b := str(filterEvent(typ, k.F[:j]), "bits")
		got = append(got, b)
		if strings.Trim(b+tag, "01") != "" || strings.ContainsAny(strings.Join(k.F[:j], ""), ".:") {
			continue // not a tag, or no pattern can name it
		}
		if j == 1+n%len(k.F) { // the same through a subscription and an engine
			kind := byteKinds[n/7%3]
			e := construct(kind, filtering.Subscriptions{"http://a/": {"urn:epc:pat:" + typ + ":" + strings.Join(k.F[:j], ".")}})
			_, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: toBytes(tag)})
			if err != nil || len(uris) != 1 {
				remark = fmt.Sprintf("%s subscribed to the first %d fields reports %v %v", kind, j, uris, err)
			}
		}
		var pev Event
		if k.Op == "epc" {
			pev = epcEvent(k.Typ, true, k.F[:j], n%2 == 0)
		} else {
			pev = isoEvent(k.Typ, true, k.F[:j], n%2 == 0)
		}
		if pb := str(pev, "bits"); pb != b {
			remark = fmt.Sprintf("prefix mode makes the filter %s for %v, pattern compilation %s", pb, k.F[:j], b)
		}
	}
	return got, remark
}

type tdtFail struct {
	Case   tdtCase
	Got    []string
	Remark string
}

type tdtResult struct {
	Cases int
	ByOp  map[string]int
	Fails int
	Fail  *tdtFail
}

func runTdtGraph(path string) tdtResult {
	f, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	var cs []tdtCase
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var k tdtCase
		if err := json.Unmarshal(sc.Bytes(), &k); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		cs = append(cs, k)
	}
	res := tdtResult{Cases: len(cs), ByOp: map[string]int{}}
	var mu sync.Mutex
	best := len(cs)
	parallel(len(cs), func(i int) {
		k := cs[i]
		var got []string
		var remark string
		if p := guard(func() { got, remark = k.run(i) }); p != "" {
			remark = p
		}
		mu.Lock()
		defer mu.Unlock()
		res.ByOp[k.Op]++
		if remark != "" || strings.Join(got, ";") != strings.Join(k.Want, ";") {
			res.Fails++
			if i < best {
				best = i
				res.Fail = &tdtFail{k, got, remark}
			}
		}
	})
	return res
}
