package main

// Runs of the real statistics manager against a recording database, for StatTrace.tla.

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"sync"
	"time"

	"github.com/iomz/gosstrak/monitoring"
)

type statKind struct {
	typ    monitoring.StatMessageType
	values []interface{}
	good   bool // as the driver believes; used to know how long to wait
}

func statMessage(r *rand.Rand) (monitoring.StatMessage, bool) {
	n := int64([]int{0, 1, 2, 3, 7, 100, 999, 12345, r.Intn(100000)}[r.Intn(9)])
	if r.Intn(20) == 0 {
		n = []int64{math.MaxInt64, 1 << 53, 1<<53 + 1, 1 << 31, 1<<63 - 512}[r.Intn(5)]
	}
	m := n
	if n > 0 && r.Intn(3) > 0 {
		m = r.Int63n(n)
	}
	if r.Intn(6) == 0 {
		m = 0
	}
	x := []float64{0.5, 1, 0, 1e-7, 3.3333333333333335, 12345.678, 0.001953125, 1e21, r.Float64(), 1 / (1 + float64(r.Intn(1000)))}[r.Intn(10)]
	const (
		T = monitoring.Traffic
		E = monitoring.EngineThroughput
		S = monitoring.SelectedEngine
		X = T + E + S + 1
	)
	kinds := []statKind{
		{T, []interface{}{n, m}, true},
		{T, []interface{}{n, m}, true},
		{E, []interface{}{x}, true},
		{S, nil, true},
		{S, []interface{}{n}, true},
	}
	if r.Intn(5) == 0 {
		kinds = []statKind{
			{T, nil, false}, {T, []interface{}{}, false}, {T, []interface{}{n}, false}, {T, []interface{}{"5", m}, false}, {T, []interface{}{n, "5"}, false},
			{T, []interface{}{float64(3), m}, false}, {T, []interface{}{n, nil}, false}, {T, []interface{}{nil, nil}, false},
			{E, nil, false}, {E, []interface{}{}, false}, {E, []interface{}{nil}, false}, {E, []interface{}{"0.5"}, false},
			{E, []interface{}{math.NaN()}, false}, {E, []interface{}{math.Inf(1)}, false}, {E, []interface{}{math.Inf(-1)}, false},
			{X, []interface{}{n, m}, false}, {-1, nil, false},
		}
	}
	k := kinds[r.Intn(len(kinds))]
	name := pick(r, []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"})
	if k.typ != S && r.Intn(10) == 0 {
		name = pick(r, []string{"my engine", "a=b", "x,y", "Ünïcode", "1", "true", "\"quoted\""})
	}
	return monitoring.StatMessage{Type: k.typ, Value: k.values, Name: name}, k.good
}

func typedValues(vs []interface{}) []map[string]interface{} {
	l := []map[string]interface{}{}
	for _, v := range vs {
		e := map[string]interface{}{"type": fmt.Sprintf("%T", v), "s": fmt.Sprint(v), "v": -1}
		switch x := v.(type) {
		case int64:
			e["type"], e["s"] = "int", strconv.FormatInt(x, 10)
			if x >= 0 && x <= 200000 {
				e["v"] = int(x)
			}
		case float64:
			e["type"], e["s"] = "float", strconv.FormatFloat(x, 'g', -1, 64)
			if math.IsNaN(x) || math.IsInf(x, 0) {
				e["type"] = "not a number"
			}
		}
		l = append(l, e)
	}
	return l
}

func statTrace(seed int64, modes []string, ops int) []Event {
	r := rand.New(rand.NewSource(seed))
	var mu sync.Mutex
	tr := []Event{}
	t0 := time.Now()
	put := func(e Event) {
		mu.Lock()
		e["t"] = micros(t0, time.Now())
		tr = append(tr, e)
		mu.Unlock()
	}
	dr := rand.New(rand.NewSource(seed + 1))
	slow := r.Intn(4) == 0
	long := -2 // one request takes seconds
	for _, m := range modes {
		if m == "patient" {
			long = r.Intn(ops / 2)
		}
	}
	db := newInflux(t0, put, func() time.Duration {
		if long--; long == -1 {
			return time.Duration(2500+dr.Intn(4000)) * time.Millisecond
		}
		if slow {
			return time.Duration(dr.Intn(3000)) * time.Microsecond
		}
		return 0
	})
	user, pass, base := pick(r, []string{"gosstrak", "u"}), pick(r, []string{"gosstrak", "p w"}), pick(r, []string{"gosstrak", "stats", "d b"})
	put(Event{"op": "start", "db": base, "user": user, "pass": pass})
	sm := monitoring.NewStatManager("master", db.srv.URL, user, pass, base)
	senders := 1
	for _, m := range modes {
		if m == "concurrent" {
			senders = 1 + r.Intn(4)
		}
	}
	want, id := 0, 0
	var wg sync.WaitGroup
	stuck := false
	for s := 0; s < senders; s++ {
		sr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < ops/senders; k++ {
				msg, good := statMessage(sr)
				mu.Lock()
				id++
				me := id
				if good {
					want++
				}
				mu.Unlock()
				put(Event{"op": "send", "id": me, "type": statName(msg.Type), "name": msg.Name, "values": typedValues(msg.Value)})
				select {
				case sm.StatMessageChannel <- msg:
				case <-time.After(10 * time.Second):
					mu.Lock()
					stuck = true
					mu.Unlock()
					return
				}
				if sr.Intn(10) == 0 {
					time.Sleep(time.Duration(sr.Intn(1500)) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	deadline := time.Now().Add(8 * time.Second)
	for time.Now().Before(deadline) && !stuck {
		if n, _ := db.seen(); n >= want {
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond) // anything more?
	put(Event{"op": "end", "stuck": stuck})
	db.Lock()
	defer db.Unlock()
	return append([]Event{}, tr...)
}

func statName(t monitoring.StatMessageType) string {
	switch t {
	case monitoring.Traffic:
		return "traffic"
	case monitoring.EngineThroughput:
		return "throughput"
	case monitoring.SelectedEngine:
		return "selected"
	}
	return "other"
}
