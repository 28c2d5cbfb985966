// Runs of the real engine factory in a synctest bubble (virtual time), recorded for FactoryTrace.tla.
// One scenario per process: the factory's goroutines never end.
package factory

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
)

type ev map[string]interface{}

type recorder struct {
	sync.Mutex
	t0 time.Time
	tr []ev
}

const unit = 500 * time.Microsecond

func (q *recorder) put(e ev) {
	q.Lock()
	defer q.Unlock()
	d := time.Since(q.t0)
	e["t"] = int(d / unit)
	q.tr = append(q.tr, e)
}

func (q *recorder) flush(out string) {
	q.Lock()
	defer q.Unlock()
	b, err := json.Marshal(q.tr)
	if err == nil {
		err = os.WriteFile(out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// plan says how an engine treats the n-th event
type plan struct {
	sleep time.Duration
	until time.Duration // sleep until this virtual time (0: use sleep)
	hits  int
	fail  bool // an error besides the hits: the matching tag's identity cannot be written
}

// double stands in for a filtering engine: it does as planned and records what it is asked
type double struct {
	q    *world
	name string
}

type answer struct {
	ident string
	uris  []string
	err   error
}

type world struct {
	recorder
	plans    func(name string, id uint32) plan
	sleeping int
	burst    map[string]*[2]int // engine -> events of the burst asked, and matched
	answers  map[string]answer
}

func (d *double) AddSubscription(filtering.Subscriptions)    {}
func (d *double) DeleteSubscription(filtering.Subscriptions) {}
func (d *double) Dump() string                               { return d.name }
func (d *double) MarshalBinary() ([]byte, error)             { return nil, nil }
func (d *double) UnmarshalBinary([]byte) error               { return nil }
func (d *double) Name() string                               { return d.name }

func (d *double) Search(re llrp.ReadEvent) (string, []string, error) {
	var id uint32
	if len(re.ID) == 4 && len(re.PC) == 2 && re.PC[0] == re.ID[3] {
		id = binary.BigEndian.Uint32(re.ID)
	}
	if len(re.ID) == 5 {
		return d.inBurst(re)
	}
	p := d.q.plans(d.name, id)
	start := time.Now()
	sl := p.sleep
	if p.until != 0 {
		if u := d.q.t0.Add(p.until).Sub(start); u > 0 {
			sl = u
		}
	}
	if sl > 0 {
		d.q.Lock()
		d.q.sleeping++
		d.q.Unlock()
		time.Sleep(sl)
		d.q.Lock()
		d.q.sleeping--
		d.q.Unlock()
	}
	a := answer{ident: fmt.Sprintf("I-%s-%d", d.name, id)}
	for k := 0; k < p.hits; k++ {
		a.uris = append(a.uris, fmt.Sprintf("http://%s/%d/%d", d.name, id, k))
	}
	if p.hits == 0 || p.fail {
		a.err = errors.New("no match for, or no name of " + a.ident)
	}
	d.q.Lock()
	d.q.answers[fmt.Sprintf("%s-%d", d.name, id)] = a
	d.q.Unlock()
	d.q.put(ev{"op": "eng", "e": d.name, "id": int(id), "m": p.hits > 0, "us": int(time.Since(start) / time.Microsecond)})
	return a.ident, append([]string{}, a.uris...), a.err
}

// inBurst answers an event of a burst at once, in its own name
func (d *double) inBurst(re llrp.ReadEvent) (string, []string, error) {
	d.q.Lock()
	defer d.q.Unlock()
	c := d.q.burst[d.name]
	if c == nil {
		c = &[2]int{}
		d.q.burst[d.name] = c
	}
	if k := binary.BigEndian.Uint32(re.ID[1:]); k != uint32(c[0]) || re.PC[0] != re.ID[4] { // another event
		c[0] += 1 << 20
	}
	c[0]++
	if (int(re.ID[4])+len(d.name))%3 == 0 {
		return "", []string{}, errNoMatch
	}
	c[1]++
	return d.name, []string{"http://" + d.name}, nil
}

var errNoMatch = errors.New("no match")

var kinds = []string{"LegacyEngine", "List", "SplayTree", "PatriciaTrie"}

func TestScenario(t *testing.T) {
	out := os.Getenv("SCENARIO_OUT")
	if out == "" {
		t.Skip()
	}
	seed, _ := strconv.ParseInt(os.Getenv("SCENARIO_SEED"), 10, 64)
	ops, _ := strconv.Atoi(os.Getenv("SCENARIO_OPS"))
	log.SetOutput(io.Discard)
	if os.Getenv("SCENARIO_LOG") != "" {
		log.SetOutput(os.Stderr)
	}
	synctest.Test(t, func(t *testing.T) {
		w := scenario(rand.New(rand.NewSource(seed)), ops, strings.Split(os.Getenv("SCENARIO_MODE"), ","))
		w.flush(out)
		os.Exit(0)
	})
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func scenario(r *rand.Rand, ops int, modes []string) *world {
	w := &world{answers: map[string]answer{}}
	w.t0 = time.Now()
	interval := 1 + r.Intn(2)
	iv := time.Duration(interval) * time.Second

	// which engines exist, and how fast they are
	perm := r.Perm(4)
	n := 1 + r.Intn(4)
	if r.Intn(2) == 0 {
		n = 4
	}
	type speed struct{ base int }
	speeds := map[string][]int{}
	gates := map[string]chan bool{}
	names := []string{}
	engines := filtering.Engines{}
	sub := filtering.Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}, "http://b": {"urn:epc:pat:sscc-96:1", "x"}}
	var smu sync.Mutex
	for _, k := range perm[:n] {
		name := kinds[k]
		names = append(names, name)
		gate := make(chan bool)
		gates[name] = gate
		// microseconds per event in each of the phases of the run
		for ph := 0; ph < 8; ph++ {
			us := []int{0, 1, 2, 5, 10, 50, 100, 400, 20000, 150000}[r.Intn(10)]
			if ph > 0 && r.Intn(3) > 0 {
				us = speeds[name][ph-1]
			}
			speeds[name] = append(speeds[name], us)
		}
		engines[name] = func(s filtering.Subscriptions) filtering.Engine {
			w.put(ev{"op": "gen", "e": name, "ok": fmt.Sprint(s) == fmt.Sprint(sub)})
			atTick := <-gate
			w.put(ev{"op": "gendone", "e": name, "tick": atTick})
			return &double{w, name}
		}
	}
	filtering.AvailableEngines = engines
	phase := func() int { return int(time.Since(w.t0)/(2*iv)) % 8 }
	pseed := r.Int63()
	w.plans = func(name string, id uint32) plan {
		smu.Lock()
		defer smu.Unlock()
		h := rand.New(rand.NewSource(pseed ^ int64(id)*7919 ^ int64(len(name))*104729))
		p := plan{sleep: time.Duration(speeds[name][phase()]) * time.Microsecond}
		if h.Intn(3) > 0 {
			p.hits = 1 + h.Intn(3)
			p.fail = h.Intn(4) == 0
		}
		if has(modes, "edge") && h.Intn(4) == 0 { // end at the very instant of a tick
			d := time.Since(w.t0)
			p.until = (d/iv + 1) * iv
		}
		return p
	}

	main := make(chan filtering.ManagementMessage, []int{0, 0, 1, 2, 10}[r.Intn(5)])
	var gap time.Duration
	if r.Intn(2) == 0 {
		gap = time.Duration(r.Intn(900))*time.Millisecond + unit
	}
	ef := filtering.NewEngineFactory(sub, interval, main)
	synctest.Wait()
	ns := append([]string{}, names...)
	w.put(ev{"op": "new", "engines": ns, "interval": int(iv / unit), "cap": cap(main)})
	time.Sleep(gap)
	ef.Run()
	w.put(ev{"op": "run"})
	synctest.Wait()
	time.Sleep(unit) // from now on the driver never acts at the instant of a tick
	synctest.Wait()

	receive := func(m filtering.ManagementMessage) {
		e := ev{"op": "recv", "type": fmt.Sprint(int(m.Type)), "e": m.EngineName, "n": int(m.EventCount), "m": int(m.MatchedCount), "tp": 0, "inv": 0,
			"extra": m.Pattern != "" || m.ReportURI != "" || m.EngineGeneratorInstance != nil}
		switch m.Type {
		case filtering.TrafficStatus:
			e["type"] = "traffic"
		case filtering.EngineStatus:
			e["type"] = "status"
		case filtering.SelectedEngine:
			e["type"] = "selected"
		}
		x := m.CurrentThroughput
		switch {
		case math.IsNaN(x) || math.IsInf(x, 0) || x < 0:
			e["tp"], e["inv"] = -1, -1
		case x > 0:
			e["tp"], e["inv"] = int(math.Min(2e9, math.Round(x*1e6))), int(math.Min(2e9, math.Round(1e2/x)))
		}
		w.put(e)
	}
	// the consumer reads eagerly or one message per permission
	permit := make(chan bool)
	eager := make(chan bool)
	stop := make(chan bool)
	go func() {
		isEager := false
		for {
			if isEager {
				select {
				case m := <-main:
					receive(m)
				case <-stop:
					isEager = false
				}
				continue
			}
			select {
			case <-eager:
				isEager = true
			case <-permit:
				select {
				case m := <-main:
					receive(m)
				default:
				}
			}
		}
	}()
	isEager := false
	quiet := func() {
		synctest.Wait()
		w.Lock()
		s := w.sleeping
		w.Unlock()
		w.put(ev{"op": "quiet", "sleeping": s})
	}
	setEager := func(b bool) {
		if b && !isEager {
			eager <- true
		}
		if !b && isEager {
			stop <- true
			w.put(ev{"op": "slow"})
		}
		isEager = b
		synctest.Wait()
	}
	w.put(ev{"op": "slow"})
	if r.Intn(4) > 0 {
		setEager(true)
		quiet()
	}

	var nextID uint32
	var pending int32
	var pmu sync.Mutex
	outstanding := func() int { pmu.Lock(); defer pmu.Unlock(); return int(pending) }
	search := func(times int) {
		pmu.Lock()
		pending++
		first := nextID + 1
		nextID += uint32(times)
		pmu.Unlock()
		go func() {
			for k := 0; k < times; k++ {
				id := first + uint32(k)
				re := llrp.ReadEvent{PC: []byte{0, 0}, ID: make([]byte, 4)}
				binary.BigEndian.PutUint32(re.ID, id)
				re.PC[0] = re.ID[3]
				w.put(ev{"op": "sbegin", "id": int(id)})
				ident, uris, err := ef.Search(re)
				e := ""
				if f := strings.Split(ident, "-"); len(f) == 3 {
					e = f[1]
				}
				w.Lock()
				a, ok := w.answers[fmt.Sprintf("%s-%d", e, id)]
				w.Unlock()
				same := ok && a.ident == ident && fmt.Sprint(a.uris) == fmt.Sprint(uris) && a.err == err
				w.put(ev{"op": "send", "id": int(id), "e": e, "same": same})
			}
			pmu.Lock()
			pending--
			pmu.Unlock()
		}()
		synctest.Wait()
	}
	// times events are searched at one instant at which nothing else happens
	burst := func(times int) {
		w.Lock()
		w.burst = map[string]*[2]int{}
		w.Unlock()
		by, same := map[string]bool{}, true
		for k := 0; k < times; k++ {
			re := llrp.ReadEvent{PC: []byte{byte(k), 0}, ID: make([]byte, 5)}
			binary.BigEndian.PutUint32(re.ID[1:], uint32(k))
			ident, uris, err := ef.Search(re)
			if err != nil {
				same = same && err == errNoMatch && ident == "" && len(uris) == 0
				continue
			}
			by[ident] = true
			same = same && len(uris) == 1 && uris[0] == "http://"+ident
		}
		e := ""
		for x := range by {
			e = x
		}
		synctest.Wait()
		asked, hits := map[string]int{}, map[string]int{}
		w.Lock()
		for x, c := range w.burst {
			asked[x], hits[x] = c[0], c[1]
		}
		w.Unlock()
		w.put(ev{"op": "burst", "n": times, "e": e, "same": same && len(by) == 1, "asked": asked, "hits": hits})
	}
	step := func(d time.Duration) { time.Sleep(d.Truncate(time.Millisecond)); synctest.Wait() }
	open := func(name string, atTick bool) {
		select {
		case gates[name] <- atTick:
		case <-time.After(time.Minute): // nobody generates this engine
			w.put(ev{"op": "stuck", "e": name})
		}
	}
	// the generation of an engine ends at the very instant of the next tick, of the engines or of the factory
	openAtTick := func(name string, off time.Duration) {
		d := time.Since(w.t0) - off
		go func() {
			time.Sleep((d/iv+1)*iv - d)
			open(name, true)
		}()
	}
	maxOut := 1
	if has(modes, "concurrent") {
		maxOut = 2
	}
	toGo := append([]string{}, names...)
	r.Shuffle(len(toGo), func(i, j int) { toGo[i], toGo[j] = toGo[j], toGo[i] })
	slowBias := 6
	if has(modes, "slow") {
		slowBias = 2
	}
	gen, busy := 2, 6
	if has(modes, "gen") {
		gen, busy = 4, 6
	}
	if has(modes, "busy") {
		gen, busy = 1, 8
		if r.Intn(2) == 0 {
			gen, busy = 4, 8
		}
	}
	for k := 0; k < ops; k++ {
		x := r.Intn(12)
		if has(modes, "busy") && x >= 8 && r.Intn(2) == 0 {
			x = r.Intn(12)
		}
		switch {
		case x < gen && len(toGo) > 0:
			if has(modes, "atick") && r.Intn(2) == 0 {
				openAtTick(toGo[0], time.Duration(r.Intn(2))*gap)
			} else {
				open(toGo[0], false)
			}
			toGo = toGo[1:]
			synctest.Wait()
		case x < busy && (x < 6 || has(modes, "busy")):
			if isEager && outstanding() == 0 && ef.IsActive() && r.Intn(12) == 0 {
				synctest.Wait()
				burst([]int{4, 40, 300, 3000, 70000}[r.Intn(5)])
			} else if ef.IsActive() && outstanding() < maxOut {
				search(1 + r.Intn(3)*r.Intn(2))
			}
		case x < 8:
			step(time.Duration(r.Intn(400)) * time.Millisecond)
		case x == 8:
			step(iv)
		case x == 9:
			if !isEager {
				permit <- true
				synctest.Wait()
			}
		case x == 10:
			w.put(ev{"op": "active", "v": ef.IsActive()})
		default:
			if isEager {
				if r.Intn(slowBias) == 0 {
					setEager(false)
				}
			} else if r.Intn(3) == 0 {
				setEager(true)
			}
		}
		if isEager {
			quiet()
		}
	}
	// the end: everything is generated and consumed, and intervals pass
	setEager(true)
	quiet()
	for _, x := range toGo {
		open(x, false)
		quiet()
	}
	for k := 0; k < 3; k++ {
		for j := 0; j < 3; j++ {
			step(iv / 3)
			quiet()
		}
		if outstanding() == 0 && ef.IsActive() {
			search(1 + r.Intn(3))
			quiet()
		}
		w.put(ev{"op": "active", "v": ef.IsActive()})
	}
	step(iv + time.Duration(len(names))*200*time.Millisecond)
	quiet()
	for k := 0; k < 40 && outstanding() > 0; k++ { // every search ends
		step(iv)
		quiet()
	}
	w.put(ev{"op": "end", "outstanding": outstanding()})
	return w
}
