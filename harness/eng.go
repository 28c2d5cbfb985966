package main

// Random runs of the real engines, recorded as traces for EngineTrace.tla.

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
)

// Event is one line of a trace
type Event map[string]interface{}

// guard runs f and returns "" or how it ended abnormally
func guard(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				st := string(debug.Stack())
				if k := strings.Index(st, "gosstrak/"); k >= 0 {
					st = st[k:]
				}
				if len(st) > 300 {
					st = st[:300]
				}
				done <- fmt.Sprintf("panic: %v at %s", x, st)
			}
		}()
		f()
		done <- ""
	}()
	// somebody who hangs keeps a processor busy: once that has happened there is no patience for many more
	limit := 30 * time.Second
	if n := atomic.LoadInt32(&hangs); n > 8 {
		limit = 200 * time.Millisecond
	} else if n > 0 {
		limit = 3 * time.Second
	}
	select {
	case s := <-done:
		return s
	case <-time.After(limit):
		atomic.AddInt32(&hangs, 1)
		return "hang"
	}
}

var hangs int32

var byteKinds = []string{"List", "PatriciaTrie", "SplayTree"}

const textKind = "LegacyEngine"

func construct(kind string, sub filtering.Subscriptions) filtering.Engine {
	return filtering.AvailableEngines[kind](sub)
}

func fresh(kind string, viaConstructor bool) filtering.Engine {
	e := construct(kind, filtering.Subscriptions{})
	if viaConstructor {
		return e
	}
	return reflect.New(reflect.TypeOf(e).Elem()).Interface().(filtering.Engine)
}

type pd struct{ p, d string }

func toSubs(ps []pd) filtering.Subscriptions {
	s := filtering.Subscriptions{}
	for _, x := range ps {
		s[x.d] = append(s[x.d], x.p)
	}
	return s
}

func pairs(s filtering.Subscriptions) [][2]string {
	r := [][2]string{}
	for d, ps := range s {
		for _, p := range ps {
			r = append(r, [2]string{p, d})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0]+r[i][1] < r[j][0]+r[j][1] })
	return r
}

// canon spells a caller's map exactly (destinations, order of patterns)
func canon(s filtering.Subscriptions) string {
	ks := []string{}
	for d := range s {
		ks = append(ks, d)
	}
	sort.Strings(ks)
	b := ""
	for _, d := range ks {
		b += d + "=" + strings.Join(s[d], ",") + ";"
	}
	return b
}

// EngOpts selects what a run may do
type EngOpts struct {
	kinds      []string
	npats      int
	ops        int
	addDel     bool
	save       bool
	mutate     bool // alter the caller's map after use, share it among engines
	junk       bool // arbitrary bytes as PC/ID
	badPats    bool
	searchBias int
	bigInit    bool
	dump       bool // also what the engines print of themselves
	file       bool // engines are built from a file
	storm      bool // very many searches, or changes back and forth
}

type ask struct {
	pc   []byte
	bits string
}

type run struct {
	asked []ask
	r     *rand.Rand
	u     *Universe
	o     EngOpts
	eng   map[string]filtering.Engine
	kind  map[string]string
	cur   map[string]map[string]bool // engine -> present pattern texts (generator's belief)
	tr    []Event
	dead  bool
}

func (q *run) ev(e Event) {
	q.tr = append(q.tr, e)
	if e["panic"] != "" {
		q.dead = true
	}
}

var badPool = []string{
	"urn:epc:pat:sgtin-96:8", "urn:epc:pat:sgtin-96:3.12345", "urn:epc:pat:sgtin-96:3.1234567890123",
	"urn:epc:pat:sgtin-96:3.0614141.8123456", "urn:epc:pat:sgtin-96:3.0614141.812345.274877906944",
	"urn:epc:pat:sgtin-96:3.0614141.812345.1.2", "urn:epc:pat:sgtin-96:", "urn:epc:pat:sgtin-96:3.06A4141",
	"urn:epc:pat:foo-96:3.0614141", "urn:epc:pat:sgtin-96", "urn:epc:pat:", "nonsense", "", "a:b:c:d",
	"urn:epc:pat:sscc-96:3.0614141.12345678901", "urn:epc:pat:giai-96:9.0614141.1", "urn:epc:pat:grai-96:3.061414123456.12",
	"urn:epc:pat:iso17363:7B.ABC.U.1234567", "urn:epc:pat:iso17363:7B..U", "urn:epc:pat:iso17365:", "urn:epc:pat:iso17363:7B.ABCD.U.123456",
	"urn:epc:pat:iso17365:25S.UN.A.B.C", "urn:epc:pat:sgtin-96:3.0614141.", "urn:epc:pat:sgtin-96:3..812345", "urn:epc:pat:sscc-96:-1", "urn:epc:pat:sscc-96:+1.0614141",
	"urn:epc:pat:giai-96:3.061414123456.9999999999999",
}

func (q *run) choose(n int, want func(i int) bool) []pd {
	var ps []pd
	for _, i := range q.r.Perm(len(q.u.Pats)) {
		if len(ps) == n {
			break
		}
		if want(i) {
			ps = append(ps, pd{q.u.Pats[i].Text(), q.u.Dest[i]})
		}
	}
	return ps
}

// spelled varies letter case where the pattern's meaning does not depend on it
func (q *run) spelled(ps []pd) []pd {
	if q.r.Intn(3) > 0 {
		return ps
	}
	for i := range ps {
		x := ps[i].p
		if len(x) < 12 {
			continue
		}
		switch q.r.Intn(4) {
		case 0:
			x = "URN:EPC:PAT:" + x[12:]
		case 1:
			x = "urn:EPC:pat:" + x[12:]
		case 2:
			if k := strings.LastIndexByte(x, ':'); strings.Contains(x, ":iso") {
				x = x[:k] + strings.ToLower(x[k:])
			}
		}
		ps[i].p = x
	}
	return ps
}

func (q *run) caller(what string, sub filtering.Subscriptions, f func()) {
	before := canon(sub)
	p := guard(f)
	e := Event{"op": "caller", "what": what, "before": before, "after": canon(sub), "panic": p}
	q.ev(e)
}

func (q *run) search(name string) {
	pc, bits := q.u.probe(q.r)
	if q.o.junk && q.r.Intn(2) == 0 {
		n := q.r.Intn(20)
		if q.r.Intn(2) == 0 {
			bits = bits[:q.r.Intn(len(bits)/8+1)*8]
		} else {
			bits = randBits(q.r, 8*n)
			if n > 0 && q.r.Intn(2) == 0 {
				bits = pick(q.r, []string{headers["giai"], headers["grai"], headers["sgtin"], headers["sscc"]}) + bits[8:]
			}
		}
		switch q.r.Intn(4) {
		case 0:
			pc = toBytes(randBits(q.r, 8*q.r.Intn(4)))
		case 1:
			pc = toBytes(randBits(q.r, 16))
		case 2:
			pc = []byte{byte(q.r.Intn(256)), byte(158 + q.r.Intn(16))}
		}
	}
	if k := len(q.asked); k > 0 && q.r.Intn(8) == 0 { // an ID seen before, perhaps with other protocol control
		pc, bits = q.asked[q.r.Intn(k)].pc, q.asked[q.r.Intn(k)].bits
		switch q.r.Intn(3) {
		case 0:
			pc = []byte{0x30, 0}
		case 1:
			pc = []byte{byte(q.r.Intn(256)), byte(158 + q.r.Intn(16))}
		}
	} else if len(q.asked) < 40 {
		q.asked = append(q.asked, ask{pc, bits})
	}
	q.searchFor(name, pc, bits)
}

func (q *run) searchFor(name string, pc []byte, bits string) {
	var ident string
	var uris []string
	var err error
	id := toBytes(bits)
	pcc := append([]byte{}, pc...)
	p := guard(func() { ident, uris, err = q.eng[name].Search(llrp.ReadEvent{PC: pcc, ID: id}) })
	if p == "" && (toBits(id) != bits || string(pcc) != string(pc)) {
		p = "search changed the event's bytes"
	}
	us := append([]string{}, uris...)
	sort.Strings(us)
	q.ev(Event{"op": "search", "e": name, "pc": ints(pc), "id": bits, "uris": us, "ident": ident, "err": err != nil, "panic": p})
}

var printedLine = regexp.MustCompile(`^( *)(ok|ng)?--([01x]*)\((\d+) (\d+)\) (-> )?(.*)$`)

// dump records what an engine prints of itself, line by line
func (q *run) dump(name string) {
	lines, listing := []Event{}, [][]interface{}{}
	p := guard(func() {
		text := q.eng[name].Dump()
		for i, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			if text == "" {
				break
			}
			if q.kind[name] == textKind {
				k := strings.Index(l, " [")
				if k < 2 || l[:2] != "--" || l[len(l)-1] != ']' {
					panic("no such line: " + l)
				}
				pats := []string{}
				for rest := l[k+2 : len(l)-1]; rest != ""; rest = strings.TrimPrefix(rest, " ") {
					x, err := strconv.QuotedPrefix(rest)
					if err != nil {
						panic("no such line: " + l)
					}
					rest = rest[len(x):]
					x, _ = strconv.Unquote(x)
					pats = append(pats, x)
				}
				listing = append(listing, []interface{}{l[2:k], pats})
				continue
			}
			m := printedLine.FindStringSubmatch(l)
			if m == nil || len(m[1])%2 != 0 {
				panic("no such line: " + l)
			}
			off, _ := strconv.Atoi(m[4])
			size, _ := strconv.Atoi(m[5])
			how := m[2]
			if i == 0 {
				how = "top"
			}
			lines = append(lines, Event{"depth": len(m[1]) / 2, "how": how, "bits": m[3], "off": off, "size": size, "uri": m[7]})
		}
	})
	q.ev(Event{"op": "dump", "e": name, "lines": lines, "listing": listing, "panic": p})
}

// storm asks some IDs very many times; a search changes nothing, so it is enough to record each distinct answer once
func (q *run) storm(name string, times int) {
	var asks []ask
	for i := 2 + q.r.Intn(6); i > 0; i-- {
		k := len(q.tr)
		q.search(name)
		if q.dead {
			return
		}
		e := q.tr[k]
		pc := []byte{}
		for _, x := range e["pc"].([]int) {
			pc = append(pc, byte(x))
		}
		asks = append(asks, ask{pc, e["id"].(string)})
	}
	type answer struct {
		ask              int
		ident, uris, err string
	}
	seen := map[answer]Event{}
	var order []answer
	for times > 0 {
		p := guard(func() {
			for k := 0; k < 500 && times > 0; k++ {
				times--
				i := q.r.Intn(len(asks))
				a := asks[i]
				ident, uris, err := q.eng[name].Search(llrp.ReadEvent{PC: append([]byte{}, a.pc...), ID: toBytes(a.bits)})
				us := append([]string{}, uris...)
				sort.Strings(us)
				x := answer{i, ident, strings.Join(us, " "), fmt.Sprint(err != nil)}
				if _, ok := seen[x]; !ok {
					seen[x] = Event{"op": "search", "e": name, "pc": ints(a.pc), "id": a.bits, "uris": us, "ident": ident, "err": err != nil, "panic": ""}
					order = append(order, x)
				}
			}
		})
		if p != "" {
			q.ev(Event{"op": "storm", "e": name, "panic": p})
			return
		}
		if len(order) > 200 {
			break
		}
	}
	for _, x := range order {
		q.ev(seen[x])
	}
}

// churn adds and deletes the same subscriptions over and over, which is the same as doing it once
func (q *run) churn(name string, times int) {
	ps := q.choose(1+q.r.Intn(4), func(i int) bool { return !q.cur[name][q.u.Pats[i].Text()] })
	if len(ps) == 0 {
		return
	}
	e := q.eng[name]
	rec := pairs(toSubs(ps))
	p := ""
	for i := 0; i < times && p == ""; i += 100 {
		p = guard(func() {
			for k := 0; k < 100; k++ {
				e.AddSubscription(toSubs(ps))
				e.DeleteSubscription(toSubs(ps))
			}
		})
	}
	last := guard(func() { e.AddSubscription(toSubs(ps)) })
	q.ev(Event{"op": "add", "e": name, "subs": rec, "panic": p + last})
	for k := 0; k < 6 && !q.dead; k++ {
		q.search(name)
	}
	if q.dead {
		return
	}
	last = guard(func() { e.DeleteSubscription(toSubs(ps)) })
	q.ev(Event{"op": "del", "e": name, "subs": rec, "panic": last})
	for k := 0; k < 6 && !q.dead; k++ {
		q.search(name)
	}
}

// chain saves and restores over and over, which is the same as doing it once
func (q *run) chain(name string, times int) {
	p := guard(func() {
		for k := 0; k < times; k++ {
			b, err := q.eng[name].MarshalBinary()
			if err != nil {
				panic(err)
			}
			e := fresh(q.kind[name], false)
			if err := e.UnmarshalBinary(b); err != nil {
				panic(err)
			}
			q.eng[name] = e
		}
	})
	q.ev(Event{"op": "save", "e": name, "f": name, "panic": p})
}

func engTrace(seed int64, o EngOpts) []Event {
	r := rand.New(rand.NewSource(seed))
	q := &run{r: r, o: o, eng: map[string]filtering.Engine{}, kind: map[string]string{}, cur: map[string]map[string]bool{}}
	n := 1 + r.Intn(o.npats)
	if r.Intn(3) == 0 {
		n = 1 + r.Intn(4)
	}
	q.u = newUniverse(r, n, 1+r.Intn(5))
	q.play()
	return q.tr
}

// fileOf spells subscriptions as a file, some per line, among other lines and columns
func fileOf(r *rand.Rand, ps []pd) string {
	var rows [][]string
	for _, x := range ps {
		if r.Intn(5) == 0 {
			rows = append(rows, []string{pick(r, []string{"# remark", "name", ""}), "urn:epc:pat:sgtin-96:5"})
		}
		if k := len(rows) - 1; k >= 0 && rows[k][0] == x.d && r.Intn(3) > 0 {
			rows[k] = append(rows[k], x.p)
			continue
		}
		row := []string{x.d}
		if r.Intn(4) == 0 {
			row[0] = strings.ToUpper(x.d)
		}
		if r.Intn(4) == 0 {
			row = append(row, "a remark, quoted")
		}
		rows = append(rows, append(row, x.p))
	}
	return writeCSV(r, rows)
}

// also gives some patterns further subscribers (text engines only: the others keep one subscriber of a filter, F1)
func (q *run) also(ps []pd) []pd {
	for _, kind := range q.o.kinds {
		if kind != textKind {
			return ps
		}
	}
	for _, x := range append([]pd{}, ps...) {
		for q.r.Intn(5) == 0 {
			ps = append(ps, pd{x.p, fmt.Sprintf("http://also%d.example/", q.r.Intn(3))})
		}
	}
	return ps
}

// a list may name a subscription twice
func repeated(r *rand.Rand, ps []pd) []pd {
	if len(ps) > 0 && r.Intn(5) == 0 {
		ps = append(ps, ps[r.Intn(len(ps))])
	}
	return ps
}

func (q *run) play() {
	r, o := q.r, q.o
	// initial subscriptions: none, one, some or all
	init := q.choose([]int{0, 1, len(q.u.Pats) / 2, len(q.u.Pats)}[r.Intn(4)], func(int) bool { return true })
	if o.bigInit {
		init = q.choose(len(q.u.Pats), func(int) bool { return true })
	}
	init = q.spelled(init)
	if o.badPats {
		for k := r.Intn(4); k >= 0; k-- {
			init = append(init, pd{pick(r, badPool), fmt.Sprintf("http://d%d.example/", r.Intn(3))})
		}
		r.Shuffle(len(init), func(i, j int) { init[i], init[j] = init[j], init[i] })
	}
	init = repeated(r, q.also(init))
	kinds := o.kinds
	shared := toSubs(init)
	names := []string{}
	for k, kind := range kinds {
		name := fmt.Sprintf("e%d", k)
		sub := shared
		if !o.mutate {
			sub = toSubs(init)
		}
		rec := pairs(sub)
		if o.file { // the same subscriptions through a file
			text := fileOf(r, init)
			p := guard(func() { sub = loadText(text) })
			q.ev(Event{"op": "load file", "panic": p})
			if q.dead {
				return
			}
		}
		q.caller("new "+kind, sub, func() { q.eng[name] = construct(kind, sub) })
		if q.dead {
			return
		}
		q.kind[name] = kind
		q.cur[name] = map[string]bool{}
		for _, x := range init {
			q.cur[name][x.p] = true
		}
		q.ev(Event{"op": "new", "e": name, "kind": kind, "subs": rec, "panic": ""})
		names = append(names, name)
	}
	if o.mutate {
		mutateSubs(r, shared)
	}
	for k := 0; k < o.ops && !q.dead; k++ {
		name := pick(r, names)
		x := r.Intn(10)
		if o.dump && r.Intn(3) == 0 {
			q.dump(name)
			continue
		}
		if o.storm && k%20 == 19 {
			switch y := r.Intn(4); {
			case y > 0 && o.addDel:
				q.churn(name, []int{200, 300, 1100}[r.Intn(3)])
			case y <= 1 && o.save:
				q.chain(name, 3+r.Intn(20))
			default:
				q.storm(name, []int{300, 1100, 5000, 70000}[r.Intn(4)])
			}
			continue
		}
		switch {
		case x < o.searchBias || !(o.addDel || o.save):
			q.search(name)
		case x == 9 && o.save:
			kind := q.kind[name]
			f := fmt.Sprintf("r%d", len(q.eng))
			if len(q.eng) > 8 || r.Intn(2) == 0 {
				f = name // the original is lost in a crash
			}
			viaC := r.Intn(2) == 0
			p := guard(func() {
				b, err := q.eng[name].MarshalBinary()
				if err != nil {
					panic(err)
				}
				b = append([]byte{}, b...)
				e := fresh(kind, viaC)
				if err := e.UnmarshalBinary(b); err != nil {
					panic(err)
				}
				for i := range b { // the restored engine owns its data
					b[i] = 0xff
				}
				q.eng[f] = e
			})
			q.ev(Event{"op": "save", "e": name, "f": f, "panic": p})
			if p == "" && f != name {
				q.kind[f] = kind
				q.cur[f] = map[string]bool{}
				for k := range q.cur[name] {
					q.cur[f][k] = true
				}
				names = append(names, f)
			}
		case o.addDel:
			add := r.Intn(2) == 0
			cnt := 1
			if r.Intn(4) == 0 {
				cnt = 1 + r.Intn(5)
			}
			any := r.Intn(5) == 0 // also no-ops: adding what is there, deleting what is not
			if !any && r.Intn(3) > 0 {
				// steer towards an interesting number of subscriptions
				if len(q.cur[name]) == 0 {
					add = true
				} else if len(q.cur[name]) >= len(q.u.Pats) {
					add = false
				}
			}
			ps := q.choose(cnt, func(i int) bool { return any || q.cur[name][q.u.Pats[i].Text()] != add })
			for i := range ps {
				if !add && any && r.Intn(2) == 0 { // somebody else's subscription: not deleted
					ps[i].d = "http://stranger.example/"
				} else {
					q.cur[name][ps[i].p] = add
					if !add {
						delete(q.cur[name], ps[i].p)
					}
				}
			}
			if o.badPats && r.Intn(3) == 0 {
				ps = append(ps, pd{pick(r, badPool), "http://d0.example/"})
			}
			if q.kind[name] != textKind { // spelling is part of a text engine's key
				ps = q.spelled(ps)
			}
			sub := toSubs(repeated(r, q.also(ps)))
			rec := pairs(sub)
			op := "del"
			call := func() { q.eng[name].DeleteSubscription(sub) }
			if add {
				op = "add"
				call = func() { q.eng[name].AddSubscription(sub) }
			}
			q.caller(op, sub, call)
			if q.dead {
				return
			}
			q.ev(Event{"op": op, "e": name, "subs": rec, "panic": ""})
			if o.mutate && r.Intn(2) == 0 {
				mutateSubs(r, sub)
			}
		}
	}
	// finally probe every pattern on every engine
	for _, name := range names {
		for i := range q.u.Pats {
			if q.dead {
				return
			}
			_ = i
			q.search(name)
		}
		if o.dump && !q.dead {
			q.dump(name)
		}
	}
}

// mutateSubs destroys a caller's map in place
func mutateSubs(r *rand.Rand, s filtering.Subscriptions) {
	for d := range s {
		for i := range s[d] {
			s[d][i] = "urn:epc:pat:sscc-96:" + fmt.Sprint(r.Intn(8))
		}
		if r.Intn(2) == 0 {
			s[d] = append(s[d], "urn:epc:pat:grai-96:1")
		}
		if r.Intn(3) == 0 {
			delete(s, d)
		}
	}
	s["http://late.example/"] = []string{"urn:epc:pat:sgtin-96:1", "urn:epc:pat:sgtin-96:2", "urn:epc:pat:sgtin-96:3"}
}

// probeF1 subscribes one filter for two destinations
func probeF1() (rs []map[string]interface{}) {
	for _, kind := range byteKinds {
		for _, s := range []filtering.Subscriptions{
			{"http://a.example/": {"urn:epc:pat:sgtin-96:3.0614141"}, "http://b.example/": {"urn:epc:pat:sgtin-96:3.0614141"}},
			{"http://a.example/": {"urn:epc:pat:sgtin-96:3"}, "http://b.example/": {"urn:epc:pat:sgtin-96:3"}, "http://c.example/": {"urn:epc:pat:sgtin-96:4"}},
		} {
			pc, bits := mkPat("sgtin-96", []string{"3", "0614141", "812345", "7"}).Tag()
			var uris []string
			p := guard(func() { _, uris, _ = construct(kind, s).Search(llrp.ReadEvent{PC: pc, ID: toBytes(bits)}) })
			if p != "" {
				uris = []string{p}
			}
			us := append([]string{}, uris...)
			sort.Strings(us)
			rs = append(rs, map[string]interface{}{"engine": kind, "uris": us, "dests": []string{"http://a.example/", "http://b.example/"}})
		}
	}
	return
}
