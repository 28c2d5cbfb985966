package main

// A stand-in for the time-series database: it accepts writes and records the points.

import (
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/influxdata/influxdb1-client/models"
)

type influx struct {
	sync.Mutex
	srv    *httptest.Server
	t0     time.Time
	record func(Event)
	delay  func() time.Duration
	points int
	last   time.Time
}

func newInflux(t0 time.Time, record func(Event), delay func() time.Duration) *influx {
	d := &influx{t0: t0, record: record, delay: delay, last: time.Now()}
	d.srv = httptest.NewUnstartedServer(http.HandlerFunc(d.serve))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		die(err)
	}
	d.srv.Listener = l
	d.srv.Start()
	return d
}

func micros(t0, t time.Time) int { return int(t.UnixNano()/1000 - t0.UnixNano()/1000) }

// field spells a field's value exactly and, if it is small, as a number of ten-thousandths
func fieldOf(k string, v interface{}) map[string]interface{} {
	f := map[string]interface{}{"k": k, "type": "other", "s": fmt.Sprint(v), "v": -1}
	switch x := v.(type) {
	case int64:
		f["type"], f["s"] = "int", strconv.FormatInt(x, 10)
	case float64:
		f["type"], f["s"] = "float", strconv.FormatFloat(x, 'g', -1, 64)
		if y := math.Round(x * 1e4); y >= 0 && y < 2e9 {
			f["v"] = int(y)
		}
	}
	return f
}

func (d *influx) serve(w http.ResponseWriter, q *http.Request) {
	body, err := io.ReadAll(q.Body)
	if err != nil {
		http.Error(w, "bad body", 400)
		return
	}
	if q.URL.Path != "/write" {
		w.WriteHeader(204)
		return
	}
	u, p, _ := q.BasicAuth()
	prec := q.URL.Query().Get("precision")
	now := time.Now()
	pts, err := models.ParsePointsWithPrecision(body, now, prec)
	d.Lock()
	defer d.Unlock()
	if err != nil {
		d.record(Event{"op": "bad write", "body": string(body), "error": err.Error()})
	}
	for _, pt := range pts {
		tags := [][2]string{}
		for _, t := range pt.Tags() {
			tags = append(tags, [2]string{string(t.Key), string(t.Value)})
		}
		fs, err := pt.Fields()
		if err != nil {
			d.record(Event{"op": "bad write", "body": string(body), "error": err.Error()})
			continue
		}
		ks := []string{}
		for k := range fs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fields := []interface{}{}
		for _, k := range ks {
			fields = append(fields, fieldOf(k, fs[k]))
		}
		age := micros(d.t0, pt.Time())
		if pt.Time().Sub(d.t0).Abs() > 30*time.Minute {
			age = -1000000
		}
		d.record(Event{"op": "point", "m": string(pt.Name()), "tags": tags, "fields": fields,
			"db": q.URL.Query().Get("db"), "user": u, "pass": p, "ts": age, "at": micros(d.t0, time.Now())})
		d.points++
		d.last = time.Now()
	}
	if d.delay != nil {
		if x := d.delay(); x > 0 {
			d.Unlock()
			time.Sleep(x)
			d.Lock()
		}
	}
	w.WriteHeader(204)
}

func (d *influx) seen() (int, time.Time) {
	d.Lock()
	defer d.Unlock()
	return d.points, d.last
}
