package main

// Runs of the real ale-ec program, or of the management endpoint of the real gosstrak-fc program,
// with several SPDY connections, for MirrorTrace.tla, and of the real sixenc2bin program, for SixEncTrace.tla.

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/moby/spdystream"
)

type mirrorRun struct {
	sync.Mutex
	tr   []Event
	seen time.Time
	over bool // the run has failed already
}

// mirrorFailures are the runs that failed; a few are enough
var mirrorFailures int32

func (q *mirrorRun) put(e Event) {
	q.Lock()
	defer q.Unlock()
	if op := e["op"]; (op == "refused" || op == "died" || op == "stuck") && !q.over {
		q.over = true
		atomic.AddInt32(&mirrorFailures, 1)
	}
	q.tr = append(q.tr, e)
	if e["op"] != "keepalive" && e["op"] != "ack" {
		q.seen = time.Now()
	}
}

// shown spells bytes in ASCII, each by itself, and different ones differently
func shown(b []byte) string {
	s := make([]byte, 0, len(b))
	for _, c := range b {
		if c <= 32 || c > 126 || c == '~' || c == '"' || c == '\\' {
			s = fmt.Appendf(s, "~%02x", c)
			continue
		}
		s = append(s, c)
	}
	return string(s)
}

// shownHeader spells a header block
func shownHeader(h http.Header) string {
	l := []string{}
	for k, v := range h {
		l = append(l, shown([]byte(k))+"="+shown([]byte(strings.Join(v, "\x00"))))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// portsUsed are the ports this driver has given to services
var portsUsed sync.Map

type mstream struct {
	s      *spdystream.Stream
	id     int
	closed bool
	cut    bool
}
type mconn struct {
	c       net.Conn
	sc      *spdystream.Connection
	id      int
	streams []*mstream
	cut     bool
}

// session is a reader which gosstrak-fc talks to all the while
type session struct {
	l net.Listener
	c net.Conn
}

func (z *session) run(q func(Event), r *rand.Rand, stop chan bool) {
	z.l.(*net.TCPListener).SetDeadline(time.Now().Add(30 * time.Second))
	c, err := z.l.Accept()
	if err != nil {
		q(Event{"op": "refused", "conn": 0, "text": "no connection to the reader"})
		return
	}
	z.c = c
	go func() { // what the reader hears
		for {
			h := make([]byte, 10)
			if _, err := io.ReadFull(c, h); err != nil {
				return
			}
			if n := binary.BigEndian.Uint32(h[2:6]); n < 10 || n > 1000 {
				return
			} else if _, err := io.ReadFull(c, make([]byte, n-10)); err != nil {
				return
			}
			switch binary.BigEndian.Uint16(h) {
			case llrp.KeepaliveAckHeader:
				q(Event{"op": "ack"})
			}
		}
	}()
	tag := tagParam([]byte{48, 0}, []byte{48, 116, 37, 123, 247, 25, 78, 64, 0, 0, 0, 7})
	for k := uint32(1); ; k++ {
		select {
		case <-stop:
			return
		case <-time.After(time.Duration(r.Intn(12000)) * time.Microsecond):
		}
		q(Event{"op": "keepalive"})
		var report []byte
		for i := r.Intn(60); i > 0; i-- {
			report = append(report, tag...)
		}
		c.Write(append(message(llrp.ROAccessReportHeader, k, report), llrp.Keepalive(k)...))
	}
}

func (q *mirrorRun) failed() bool {
	q.Lock()
	defer q.Unlock()
	return q.over
}

// mirrorTrace runs ale-ec or, with a list of subscriptions, gosstrak-fc; nil if enough runs have failed
func mirrorTrace(seed int64, bin string, subs string) []Event {
	if atomic.LoadInt32(&mirrorFailures) >= 4 {
		return nil
	}
	r := rand.New(rand.NewSource(seed))
	var reader *session
	var q *mirrorRun
	var cmd *exec.Cmd
	var out tail
	var addr string
	exited := make(chan bool)
	for attempt := 0; ; attempt++ {
		// a port nobody uses, below those the system assigns
		// (not tried by listening there: a child just being started would keep that listener for a moment)
		port := ""
		for port == "" {
			k := 10000 + rand.Intn(20000)
			if _, used := portsUsed.LoadOrStore(k, true); used {
				continue
			}
			addr = fmt.Sprintf("127.0.0.1:%d", k)
			if subs != "" { // takes a second to listen, so nobody else must even think of that address
				addr = fmt.Sprintf("127.%d.%d.%d:%d", 1+rand.Intn(250), rand.Intn(250), 1+rand.Intn(250), k)
			}
			if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				c.Close()
				continue
			}
			port = fmt.Sprint(k)
		}
		q = &mirrorRun{seen: time.Now()}
		cmd = exec.Command(bin, "--port", port)
		if subs != "" {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				die(err)
			}
			defer l.Close()
			reader = &session{l: l}
			cmd = exec.Command(bin, "--ip", reader.l.Addr().String(), "--managementAddr", addr, "-f", subs, "start")
		}
		out = tail{}
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			die(err)
		}
		exited = make(chan bool)
		go func(c *exec.Cmd, x chan bool) { c.Wait(); close(x) }(cmd, exited)
		up := false
		for t := time.Now(); time.Since(t) < 10*time.Second && !up; {
			if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				c.Close()
				up = true
				break
			}
			select {
			case <-exited:
				t = time.Time{}
			case <-time.After(10 * time.Millisecond):
			}
		}
		select {
		case <-exited: // the port was taken meanwhile
			up = false
		case <-time.After(50 * time.Millisecond):
		}
		if up {
			break
		}
		cmd.Process.Kill()
		<-exited
		if attempt == 4 {
			q.put(Event{"op": "refused", "text": string(out.b)})
			return q.tr
		}
	}
	defer func() { cmd.Process.Kill(); <-exited }()
	watchdog := time.AfterFunc(100*time.Second, func() {
		q.put(Event{"op": "stuck", "conn": 0, "text": string(out.b)})
		cmd.Process.Kill()
	})
	defer watchdog.Stop()
	stop, stopped := make(chan bool), make(chan bool)
	if reader != nil {
		go func() { reader.run(q.put, rand.New(rand.NewSource(seed+7)), stop); close(stopped) }()
	} else {
		close(stopped)
	}

	var conns []*mconn
	ids := 0
	var readers sync.WaitGroup
	connect := func() {
		c, err := net.DialTimeout("tcp", addr, 5*time.Second)
		ids++
		if err != nil {
			select {
			case <-exited:
				q.put(Event{"op": "died", "conn": ids, "text": string(out.b)})
			case <-time.After(time.Second):
				q.put(Event{"op": "refused", "conn": ids, "text": err.Error()})
			}
			return
		}
		sc, err := spdystream.NewConnection(c, false)
		if err != nil {
			q.put(Event{"op": "refused", "conn": ids, "text": err.Error()})
			return
		}
		go sc.Serve(spdystream.NoOpStreamHandler)
		conns = append(conns, &mconn{c: c, sc: sc, id: ids})
	}
	open := func(m *mconn) {
		fin := r.Intn(12) == 0 // nothing will be sent on it
		s, err := m.sc.CreateStream(http.Header{}, nil, fin)
		if err != nil {
			q.put(Event{"op": "refused", "conn": m.id, "text": err.Error()})
			return
		}
		ids++
		x := &mstream{s: s, id: ids}
		q.put(Event{"op": "open", "conn": m.id, "stream": x.id})
		if fin {
			x.closed = true
			q.put(Event{"op": "close", "conn": m.id, "stream": x.id})
		}
		hear := func(e Event) {
			q.Lock()
			defer q.Unlock()
			if !m.cut && !x.cut {
				q.tr = append(q.tr, e)
			}
		}
		if err := s.WaitTimeout(10 * time.Second); err != nil {
			q.put(Event{"op": "refused", "conn": m.id, "stream": x.id, "text": err.Error()})
			return
		}
		m.streams = append(m.streams, x)
		readers.Add(2)
		go func() {
			defer readers.Done()
			b := make([]byte, 4096)
			for {
				n, err := s.Read(b)
				if n > 0 {
					hear(Event{"op": "back", "conn": m.id, "stream": x.id, "text": shown(b[:n])})
				}
				if err != nil {
					if err == io.EOF {
						hear(Event{"op": "eof", "conn": m.id, "stream": x.id})
					}
					return
				}
			}
		}()
		go func() {
			defer readers.Done()
			for {
				h, err := s.ReceiveHeader()
				if err != nil {
					return
				}
				hear(Event{"op": "backheader", "conn": m.id, "stream": x.id, "h": shownHeader(h)})
			}
		}()
	}
	settle := func(last bool) bool {
		for t := time.Now(); time.Since(t) < 20*time.Second && !q.failed(); time.Sleep(5 * time.Millisecond) {
			q.Lock()
			idle := time.Since(q.seen)
			owed := owedIn(q.tr, last)
			q.Unlock()
			if !owed && idle > 30*time.Millisecond {
				return true
			}
			select {
			case <-exited:
				return true
			default:
			}
		}
		return false
	}
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	text := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = letters[r.Intn(len(letters))]
		}
		return string(b)
	}
	connect()
	if r.Intn(8) == 0 { // many at once
		for k := 20 + r.Intn(50); k > 0 && !q.failed(); k-- {
			if r.Intn(3) == 0 {
				connect()
			}
			if len(conns) > 0 {
				open(conns[r.Intn(len(conns))])
			}
		}
	}
	sound := func(m *mconn) *mstream { // a stream not ended yet
		for k := 0; k < 10 && !q.failed(); k++ {
			open(m)
			if n := len(m.streams); n > 0 && !m.streams[n-1].closed {
				return m.streams[n-1]
			}
		}
		return nil
	}
	pauseAt := -1
	if seed%8 == 3 { // silence for a while, in the middle of things
		pauseAt = 5 + r.Intn(8)
	}
	if seed%24 == 5 && len(conns) > 0 && !q.failed() { // megabytes on one stream
		if m := conns[0]; true {
			x := sound(m)
			for k := 17 + r.Intn(30); x != nil && k > 0 && !q.failed(); k-- {
				s := text(70000)
				q.put(Event{"op": "put", "conn": m.id, "stream": x.id, "text": s})
				x.s.Write([]byte(s))
				if !settle(false) {
					q.put(Event{"op": "stuck", "conn": m.id, "text": "something sent has not come back"})
				}
			}
		}
	}
	if seed%24 == 7 { // many connections and streams, one after the other
		for k := 100 + r.Intn(100); k > 0 && !q.failed(); k-- {
			if connect(); len(conns) == 0 {
				break
			}
			m := conns[len(conns)-1]
			x, s := sound(m), text(20)
			if x == nil {
				break
			}
			q.put(Event{"op": "put", "conn": m.id, "stream": x.id, "text": s})
			x.s.Write([]byte(s))
			if r.Intn(4) > 0 {
				if !settle(false) {
					q.put(Event{"op": "stuck", "conn": m.id, "text": "something sent has not come back"})
					break
				}
				q.Lock()
				m.cut = true
				q.tr = append(q.tr, Event{"op": "cut", "conn": m.id})
				q.Unlock()
				m.c.Close()
				conns = conns[:len(conns)-1]
			}
		}
	}
	for k, n := 0, 10+r.Intn(50); k < n && !q.failed(); k++ {
		if k == pauseAt {
			time.Sleep(time.Duration(2000+r.Intn(6000)) * time.Millisecond)
		}
		if len(conns) == 0 {
			connect()
			continue
		}
		m := conns[r.Intn(len(conns))]
		if len(m.streams) == 0 {
			open(m)
			continue
		}
		x := m.streams[r.Intn(len(m.streams))]
		switch p := r.Intn(40); {
		case p < 3:
			connect()
		case p < 7:
			open(m)
		case p < 9 && !x.closed:
			x.closed = true
			q.put(Event{"op": "close", "conn": m.id, "stream": x.id})
			x.s.Close()
		case p < 10: // cut off, in the middle of things, once what was sent has come back (what would still come is anybody's guess)
			if !settle(false) {
				q.put(Event{"op": "stuck", "conn": m.id, "text": "something sent has not come back"})
				continue
			}
			q.Lock()
			m.cut = true
			q.tr = append(q.tr, Event{"op": "cut", "conn": m.id})
			q.Unlock()
			m.c.Close()
			for i := range conns {
				if conns[i] == m {
					conns = append(conns[:i], conns[i+1:]...)
					break
				}
			}
		case p < 12: // somebody who does not speak the protocol
			if c, err := net.DialTimeout("tcp", addr, 5*time.Second); err == nil {
				b := make([]byte, r.Intn(200))
				r.Read(b)
				if r.Intn(2) == 0 {
					b = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
				}
				q.put(Event{"op": "noise", "conn": 0, "stream": 0, "text": fmt.Sprintf("%x", b)})
				c.Write(b)
				if r.Intn(2) == 0 {
					c.Close()
				} else {
					defer c.Close()
				}
			} else {
				q.put(Event{"op": "refused", "conn": 0, "text": err.Error()})
			}
		case p < 15 && !x.closed:
			h := http.Header{}
			for i := r.Intn(3); i >= 0; i-- {
				k := []string{"X-Note", "X-Other", "Accept"}[r.Intn(3)]
				h[k] = append(h[k], text(1+r.Intn(20)))
			}
			q.put(Event{"op": "header", "conn": m.id, "stream": x.id, "h": shownHeader(h)})
			x.s.SendHeader(h, false)
		case p < 16 && r.Intn(2) == 0: // one stream is given up in the middle of things
			q.Lock()
			x.cut = true
			q.tr = append(q.tr, Event{"op": "abort", "conn": m.id, "stream": x.id})
			q.Unlock()
			x.s.Reset()
			for i := range m.streams {
				if m.streams[i] == x {
					m.streams = append(m.streams[:i], m.streams[i+1:]...)
					break
				}
			}
		case p < 16:
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		case !x.closed:
			s := text([]int{1, 1 + r.Intn(30), r.Intn(3000) + 1, 5000}[r.Intn(4)])
			if r.Intn(25) == 0 {
				s = text([]int{20000, 70000}[r.Intn(2)])
			}
			b := []byte(s)
			if r.Intn(3) == 0 { // anything
				r.Read(b)
				if len(b) > 5000 {
					b = b[:5000]
				}
			}
			q.put(Event{"op": "put", "conn": m.id, "stream": x.id, "text": shown(b)})
			if r.Intn(12) == 0 { // the last
				x.closed = true
				q.put(Event{"op": "close", "conn": m.id, "stream": x.id})
				x.s.WriteData(b, true)
				continue
			}
			x.s.Write(b)
		}
	}
	for _, m := range conns {
		for _, x := range m.streams {
			if !x.closed && r.Intn(2) == 0 {
				x.closed = true
				q.put(Event{"op": "close", "conn": m.id, "stream": x.id})
				x.s.Close()
			}
		}
	}
	close(stop)
	<-stopped
	if !settle(true) && !q.failed() {
		atomic.AddInt32(&mirrorFailures, 1)
	}
	select {
	case <-exited:
		q.put(Event{"op": "died", "text": string(out.b)})
	default:
		q.put(Event{"op": "end"})
	}
	for _, m := range conns {
		q.Lock()
		m.cut = true
		q.Unlock()
		m.c.Close()
	}
	q.Lock()
	defer q.Unlock()
	for i := range q.tr {
		if q.tr[i]["op"] == "end" || q.tr[i]["op"] == "died" {
			return q.tr[:i+1]
		}
	}
	return q.tr
}

// owedIn says whether something sent has not come back yet, judging by the amounts only
func owedIn(tr []Event, last bool) bool {
	type key struct{ c, s int }
	b, h, e := map[key]int{}, map[key]int{}, map[key]int{}
	acks := 0
	for _, x := range tr {
		c, _ := x["conn"].(int)
		s, _ := x["stream"].(int)
		k := key{c, s}
		switch x["op"] {
		case "keepalive":
			acks++
		case "ack":
			acks--
		case "put":
			b[k] += len(x["text"].(string))
		case "back":
			b[k] -= len(x["text"].(string))
		case "header":
			h[k]++
		case "backheader":
			h[k]--
		case "close":
			e[k]++
			delete(h, k) // the last headers may be lost
		case "eof":
			e[k]--
		case "abort":
			delete(b, k)
			delete(h, k)
			delete(e, k)
		case "cut":
			for _, m := range []map[key]int{b, h, e} {
				for y := range m {
					if y.c == c {
						delete(m, y)
					}
				}
			}
		}
	}
	for _, m := range []map[key]int{b, h, e} {
		for _, n := range m {
			if n > 0 {
				return true
			}
		}
	}
	return last && acks > 0
}

func encodeEvent(bin string, args ...string) Event {
	var so, se bytes.Buffer
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	e := Event{"op": "encode", "text": "", "given": len(args), "exit": 0, "out": strings.TrimSuffix(so.String(), "\n"), "panic": ""}
	if len(args) > 0 {
		e["text"] = args[0]
	}
	if err != nil {
		e["exit"] = cmd.ProcessState.ExitCode()
		if strings.Contains(se.String(), "goroutine ") {
			e["panic"] = se.String()
		}
	}
	return e
}

// sixTrace asks for every character and for random texts
func sixTrace(seed int64, bin string, ops int) []Event {
	r := rand.New(rand.NewSource(seed))
	tr := []Event{}
	if seed%1000003 == 0 {
		tr = append(tr, encodeEvent(bin), encodeEvent(bin, ""))
		for c := rune(1); c < 260; c++ {
			tr = append(tr, encodeEvent(bin, string(c)), encodeEvent(bin, "A"+string(c)+"Z"))
		}
		return tr
	}
	for k := 0; k < ops; k++ {
		b := []rune{}
		for n := r.Intn([]int{4, 12, 80}[r.Intn(3)]); n >= 0; n-- {
			b = append(b, rune(32+r.Intn(64)))
		}
		if r.Intn(5) == 0 {
			odd := []rune{'a', 'z', '`', '~', 'é', 'ß', 'Ω', '€', '日', '\t', '\n', 127, 1, '{', 0x1F600}
			b[r.Intn(len(b))] = odd[r.Intn(len(odd))]
		}
		tr = append(tr, encodeEvent(bin, string(b)))
	}
	return tr
}
