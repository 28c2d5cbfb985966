package main

// Runs of the real gosstrak-fc program against a stand-in reader and a stand-in database, for MiddlewareTrace.tla.

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"github.com/iomz/go-llrp"
)

type tail struct {
	sync.Mutex
	b []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.Lock()
	defer t.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 6000 {
		t.b = t.b[len(t.b)-4000:]
	}
	return len(p), nil
}

type fcRun struct {
	sync.Mutex
	t0   time.Time
	tr   []Event
	owed int // replies the driver believes it may still get (used only to know how long to wait)
	over bool
}

func (q *fcRun) put(e Event) {
	q.Lock()
	defer q.Unlock()
	if q.over {
		return
	}
	e["t"] = micros(q.t0, time.Now())
	q.tr = append(q.tr, e)
}

func u16(x int) []byte { return binary.BigEndian.AppendUint16(nil, uint16(x)) }
func u32(x uint32) []byte {
	return binary.BigEndian.AppendUint32(nil, x)
}

// message frames an LLRP message
func message(header int, id uint32, body []byte) []byte {
	b := append(u16(header), u32(uint32(len(body)+10))...)
	b = append(b, u32(id)...)
	return append(b, body...)
}

// tagParam spells a tag report of a tag
func tagParam(pc []byte, id []byte) []byte {
	var b []byte
	if len(id) == 12 {
		b = append([]byte{141}, id...)
	} else {
		b = append(u16(241), append(u16(6+len(id)), append(u16(8*len(id)), id...)...)...)
	}
	b = append(b, 140, pc[0], pc[1])
	return append(append(u16(240), u16(len(b)+4)...), b...)
}

func fcTrace(seed int64, bin string, stat bool, dir string) []Event {
	r := rand.New(rand.NewSource(seed))
	q := &fcRun{t0: time.Now()}
	n := 1 + r.Intn(10)
	if r.Intn(6) == 0 { // a long list of subscriptions
		n = 100 + r.Intn(300)
	}
	u := newUniverse(r, n, 1+r.Intn(4))
	init := []pd{}
	for i := range u.Pats {
		if r.Intn(5) > 0 || len(u.Pats) == 1 {
			init = append(init, pd{u.Pats[i].Text(), u.Dest[i]})
		}
	}
	if r.Intn(3) == 0 {
		init = append(init, pd{pick(r, badPool), "http://d0.example/"})
	}
	init = repeated(r, init)
	file := filepath.Join(dir, fmt.Sprintf("fc%d.csv", seed))
	if err := os.WriteFile(file, []byte(fileOf(r, init)), 0644); err != nil {
		die(err)
	}
	defer os.Remove(file)
	late := !stat && r.Intn(6) == 0 // the reader comes online only after the middleware
	where := "127.0.0.1:0"
	if late {
		where = fmt.Sprintf("127.%d.%d.%d:%d", 1+rand.Intn(250), rand.Intn(250), 1+rand.Intn(250), 10000+rand.Intn(20000))
	}
	var l net.Listener
	listen := func() {
		var err error
		if l, err = net.Listen("tcp", where); err != nil {
			die(err)
		}
		where = l.Addr().String()
	}
	if !late {
		listen()
	}
	mid := []uint32{1000, 0, 1, 1 << 31, 0xffffffff, r.Uint32()}[r.Intn(6)]
	args := []string{"--ip", where, "--managementAddr", "127.0.0.1:0", "-f", file, "-m", strconv.FormatUint(uint64(mid), 10)}
	user, pass, base := "gosstrak", "gosstrak", "gosstrak"
	var db *influx
	dr := rand.New(rand.NewSource(seed + 1))
	slow := r.Intn(3) == 0
	long := -2 // one request takes seconds
	if slow && r.Intn(2) == 0 {
		long = r.Intn(8)
	}
	if stat {
		db = newInflux(q.t0, q.put, func() time.Duration {
			if long--; long == -1 {
				return time.Duration(1500+dr.Intn(2500)) * time.Millisecond
			}
			if slow {
				return time.Duration(dr.Intn(40)) * time.Millisecond
			}
			return 0
		})
		defer db.srv.CloseClientConnections()
		args = append(args, "--enableStat", "--statInterval", "1", "--influxAddr", db.srv.URL)
		if r.Intn(2) == 0 {
			user, pass, base = "u", "p w", "d"
			args = append(args, "--influxUser", user, "--influxPass", pass, "--influxDB", base)
		}
	}
	q.put(Event{"op": "file", "subs": pairs(toSubs(init)), "mid": strconv.FormatUint(uint64(mid), 10), "db": base, "user": user, "pass": pass})
	var out tail
	cmd := exec.Command(bin, append(args, "start")...)
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Dir = dir
	if err := cmd.Start(); err != nil {
		die(err)
	}
	exited := make(chan bool)
	go func() {
		cmd.Wait()
		out.Lock()
		s := string(out.b)
		out.Unlock()
		q.put(Event{"op": "died", "text": s})
		close(exited)
	}()
	finish := func(e Event) []Event {
		q.put(e)
		q.Lock()
		q.over = true
		tr := append([]Event{}, q.tr...)
		q.Unlock()
		cmd.Process.Kill()
		<-exited
		return tr
	}
	if late {
		time.Sleep(time.Duration(r.Intn([]int{2500, 9000}[r.Intn(2)])) * time.Millisecond)
		listen()
	}
	defer l.Close()
	l.(*net.TCPListener).SetDeadline(time.Now().Add(30 * time.Second))
	conn, err := l.Accept()
	if err != nil {
		return finish(Event{"op": "stuck", "what": "no connection to the reader"})
	}
	defer conn.Close()
	q.put(Event{"op": "connected"})
	replied := make(chan bool, 10000)
	go func() { // what the reader hears
		for {
			h := make([]byte, 10)
			if k, err := io.ReadFull(conn, h); err != nil {
				if k > 0 {
					q.put(Event{"op": "out", "type": -1, "id": "", "body": hex.EncodeToString(h[:k])})
				}
				return
			}
			size := binary.BigEndian.Uint32(h[2:6])
			if size < 10 || size > 100000 {
				q.put(Event{"op": "out", "type": -1, "id": "", "body": hex.EncodeToString(h)})
				return
			}
			body := make([]byte, size-10)
			if _, err := io.ReadFull(conn, body); err != nil {
				q.put(Event{"op": "out", "type": -1, "id": "", "body": hex.EncodeToString(h)})
				return
			}
			q.put(Event{"op": "out", "type": int(binary.BigEndian.Uint16(h)), "id": strconv.FormatUint(uint64(binary.BigEndian.Uint32(h[6:])), 10), "body": hex.EncodeToString(body)})
			select {
			case replied <- true:
			default:
			}
		}
	}()
	if stat {
		time.Sleep(1200 * time.Millisecond) // all engines have been generated
	}

	// what the reader says
	var pending []byte
	type complete struct {
		end int
		e   Event
	}
	var told []complete // messages and where they end
	expect := 0
	conn.(*net.TCPConn).SetNoDelay(true)
	flush := func() bool {
		conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
		frag := r.Intn(4)
		for len(pending) > 0 {
			k := len(pending)
			switch frag {
			case 1:
				k = 1 + r.Intn(20)
				if len(pending) > 3000 {
					k = len(pending) - 2000
				}
			case 2:
				k = 1 + r.Intn(3)
				if len(pending) > 300 {
					k = len(pending) - 250
				}
			case 3:
				k = 1 + r.Intn(5000)
			}
			if k >= len(pending) {
				k = len(pending)
			}
			for len(told) > 0 && told[0].end <= k { // said before it can be answered, but not before it is complete
				q.put(told[0].e)
				told = told[1:]
			}
			for j := range told {
				told[j].end -= k
			}
			if _, err := conn.Write(pending[:k]); err != nil {
				return false
			}
			pending = pending[k:]
			if frag > 0 && r.Intn(6) == 0 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
		}
		return true
	}
	tags, big := 0, r.Intn(4) == 0
	var heard []int
	var limitAll time.Duration
	say := func(kind string) {
		id := r.Uint32()
		e := Event{"op": "in", "kind": kind}
		switch kind {
		case "event":
			pending = append(pending, llrp.ReaderEventNotification(id, r.Uint64())...)
			expect++
		case "keepalive":
			pending = append(pending, llrp.Keepalive(id)...)
			expect++
		case "configured":
			pending = append(pending, llrp.SetReaderConfigResponse(id)...)
		case "report":
			var body []byte
			k := []int{0, 1, 1, 2, 3, 5, 8}[r.Intn(7)]
			list := []interface{}{}
			if !stat {
				k *= []int{1, 1, 5, 50, 400}[r.Intn(5)]
			}
			if stat && len(heard)+k > 250 {
				k = 0
			}
			for j := 0; j < k; j++ {
				pc, bits := u.probe(r)
				if len(pc) != 2 {
					pc = []byte{0x30, 0}
				}
				if len(bits)%8 != 0 || len(bits) > 8*250 {
					bits = randBits(r, 96)
				}
				switch r.Intn(12) {
				case 0:
					bits = bits[:r.Intn(len(bits)/8+1)*8]
				case 1:
					bits = randBits(r, 8*r.Intn(20))
				case 2:
					pc = []byte{byte(r.Intn(256)), byte(r.Intn(256))}
				}
				if len(bits) == 96 && r.Intn(40) == 0 { // a reader may also spell 96 bits the long way
					x := toBytes(bits)
					b := append(u16(241), append(u16(18), append(u16(96), x...)...)...)
					b = append(b, 140, pc[0], pc[1])
					body = append(body, append(append(u16(240), u16(len(b)+4)...), b...)...)
				} else {
					body = append(body, tagParam(pc, toBytes(bits))...)
				}
				times := 1
				if big && r.Intn(6) == 0 { // very many of it
					big = false
					times = []int{300, 3000, 30000}[r.Intn(3)]
					if stat {
						limitAll += 15 * time.Second
					}
					one := tagParam(pc, toBytes(bits))
					for i := 1; i < times; i++ {
						body = append(body, one...)
					}
				}
				if r.Intn(30) == 0 { // something else in between
					body = append(body, append(u16(1023), append(u16(12), append(u32(r.Uint32()), u32(r.Uint32())...)...)...)...)
				}
				tags += times
				heard = append(heard, times)
				list = append(list, Event{"pc": ints(pc), "id": bits, "times": times})
			}
			if stat {
				e["tags"] = list
			}
			pending = append(pending, message(llrp.ROAccessReportHeader, id, body)...)
		}
		told = append(told, complete{len(pending), e})
	}
	kinds := []string{"event", "keepalive", "configured", "report", "report"}
	if stat {
		kinds = []string{"keepalive", "report", "report", "report", "event"}
	}
	count := 10 + r.Intn(60)
	stop := time.Now().Add(time.Duration(1000+r.Intn(1500)) * time.Millisecond)
	say("event")
	ok := true
	silentAt := -1 // a reader which has nothing to say for a while
	if r.Intn(8) == 0 {
		silentAt = r.Intn(10)
	}
	for k := 0; ok && (stat && time.Now().Before(stop) || !stat && k < count); k++ {
		for j := 1 + r.Intn(3)*r.Intn(3); j > 0; j-- {
			say(pick(r, kinds))
		}
		ok = flush()
		if k == silentAt {
			d := time.Duration(2000+r.Intn(6000)) * time.Millisecond
			stop = stop.Add(d)
			time.Sleep(d)
		} else if stat && r.Intn(3) > 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		} else if r.Intn(8) == 0 {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
	}
	say("keepalive")
	ok = ok && flush()
	got := 0
	limit := time.After(15*time.Second + limitAll)
	for ok && got < expect {
		select {
		case <-replied:
			got++
		case <-exited:
			ok = false
		case <-limit:
			ok = false
		}
	}
	if !stat {
		time.Sleep(20 * time.Millisecond)
		return finish(Event{"op": "end"})
	}
	// wait until everything is counted, and a little longer
	limit = time.After(10*time.Second + limitAll)
	for ok {
		sum := map[string]int{}
		q.Lock()
		for _, e := range q.tr {
			if e["op"] == "point" && e["m"] == "traffic" {
				for _, f := range e["fields"].([]interface{}) {
					f := f.(map[string]interface{})
					if f["k"] == "incoming_events" && len(e["tags"].([][2]string)) == 1 {
						x, _ := strconv.Atoi(f["s"].(string))
						sum[e["tags"].([][2]string)[0][1]] += x
					}
				}
			}
		}
		q.Unlock()
		done := len(sum) >= 4
		for _, x := range sum {
			done = done && x >= tags
		}
		if done {
			break
		}
		select {
		case <-exited:
			ok = false
		case <-limit:
			ok = false
		case <-time.After(50 * time.Millisecond):
		}
	}
	select {
	case <-exited:
	case <-time.After(1200 * time.Millisecond):
	}
	return finish(Event{"op": "end"})
}
