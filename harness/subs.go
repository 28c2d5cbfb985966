package main

// Filter objects, compositions, subscription sets: runs of the real code recorded for FiltersTrace.tla.

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/iomz/gosstrak/filtering"
)

func bits8(b byte) string { return fmt.Sprintf("%08b", b) }

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

// objEvent records everything observable of NewFilter(bits, off)
func objEvent(bits string, off int, ids []string) Event {
	e := Event{"op": "obj", "bits": bits, "off": off, "size": -1, "string": "", "offset": -1, "show": "", "transparent": false, "neg": true,
		"has": []bool{}, "value": []string{}, "mask": []string{}, "probes": [][2]string{}}
	e["panic"] = guard(func() {
		f := filtering.NewFilter(bits, off)
		e["size"], e["string"], e["offset"], e["show"], e["transparent"] = f.Size, f.String, f.Offset, f.ToString(), f.IsTransparent()
		e["neg"] = f.HasByteAt(-1)
		has, value, mask := []bool{}, []string{}, []string{}
		for n := 0; n < (off+len(bits))/8+3; n++ {
			v, m, err := f.GetByteAt(n)
			has = append(has, f.HasByteAt(n))
			if err != nil {
				value, mask = append(value, "ERR"), append(mask, "ERR")
			} else {
				value, mask = append(value, bits8(v)), append(mask, bits8(m))
			}
		}
		e["has"], e["value"], e["mask"] = has, value, mask
		pr := [][2]string{}
		for _, id := range ids {
			pr = append(pr, [2]string{id, yes(f.Match(toBytes(id)))})
		}
		e["probes"] = pr
	})
	return e
}

// idsFor makes IDs decided by single bits and by the length
func idsFor(r *rand.Rand, bits string, off int) []string {
	base := func(fill func() string, n int) string {
		b := []byte{}
		for p := 0; p < n; p++ {
			c := fill()
			if p >= off && p < off+len(bits) && bits[p-off] != 'x' {
				c = bits[p-off : p-off+1]
			}
			b = append(b, c...)
		}
		return string(b)
	}
	rnd := func() string { return string('0' + byte(r.Intn(2))) }
	n := (off + len(bits) + 7) / 8 * 8
	ids := []string{base(rnd, n), base(rnd, n+8*r.Intn(4)), base(func() string { return "0" }, n), base(func() string { return "1" }, n)}
	if n >= 8 {
		ids = append(ids, base(rnd, n-8), base(rnd, 8*r.Intn(n/8)))
	}
	for k := 0; k < 4 && n > 0; k++ {
		x := base(rnd, n)
		ids = append(ids, flip(x, r.Intn(n)))
		if len(bits) > 0 {
			ids = append(ids, flip(x, off+r.Intn(len(bits))))
		}
	}
	return ids
}

func randFilter(r *rand.Rand, wild bool) string {
	n := r.Intn(12)
	switch r.Intn(4) {
	case 0:
		n = 8 * r.Intn(4)
	case 1:
		n = r.Intn(100)
	}
	if n == 0 {
		n = 1
	}
	b := []byte(randBits(r, n))
	if wild {
		for i := range b {
			if r.Intn(4) == 0 {
				b[i] = 'x'
			}
		}
	}
	return string(b)
}

type bo struct {
	b string
	o int
}

// parts reads the composition's private fields by their types
func parts(c *filtering.Composition) (common bo, rests map[string]*filtering.FilterObject) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch x := f.Interface().(type) {
		case string:
			common.b = x
		case int:
			common.o = x
		case filtering.ChildFilters:
			rests = x
		case map[string]*filtering.FilterObject:
			rests = x
		}
	}
	return
}

func compEvent(r *rand.Rand, fs []bo) Event {
	fl := [][]interface{}{}
	for _, f := range fs {
		fl = append(fl, []interface{}{f.b, f.o})
	}
	e := Event{"op": "comp", "filters": fl, "common": []interface{}{"", 0}, "rests": [][]interface{}{}, "probes": [][3]string{}}
	e["panic"] = guard(func() {
		var in []*filtering.FilterObject
		for _, f := range fs {
			in = append(in, filtering.NewFilter(f.b, f.o))
		}
		c := filtering.NewComposition(in)
		common, rests := parts(c)
		e["common"] = []interface{}{common.b, common.o}
		rl := [][]interface{}{}
		ks := []string{}
		for k := range rests {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			rl = append(rl, []interface{}{k, rests[k].String, rests[k].Offset})
		}
		e["rests"] = rl
		cf := filtering.NewFilter(common.b, common.o)
		pr := [][3]string{}
		for i, f := range fs {
			rest := rests[f.b]
			if rest == nil {
				continue
			}
			for _, g := range fs[max(0, i-2):min(len(fs), i+3)] {
				for _, id := range idsFor(r, g.b, g.o) {
					b := toBytes(id)
					pr = append(pr, [3]string{id, yes(in[i].Match(b)), yes(cf.Match(b) && rest.Match(b))})
				}
			}
		}
		e["probes"] = pr
	})
	return e
}

// nodes flattens an arrangement: full bits, parent's full bits, offset, uri
func nodes(b filtering.ByteSubscriptions, parent string, prefix string) [][]interface{} {
	out := [][]interface{}{}
	ks := []string{}
	for k := range b {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, []interface{}{prefix + k, parent, b[k].Offset, b[k].ReportURI})
		out = append(out, nodes(b[k].Subset, prefix+k, prefix+k)...)
	}
	return out
}

func bsubOf(fs [][2]string, base int) filtering.ByteSubscriptions {
	b := filtering.ByteSubscriptions{}
	for _, f := range fs {
		b[f[0]] = &filtering.PartialSubscription{Offset: base, ReportURI: f[1], Subset: filtering.ByteSubscriptions{}}
	}
	return b
}

func nestEvent(fs [][2]string, base int) (Event, filtering.ByteSubscriptions) {
	e := Event{"op": "nest", "filters": fs, "base": base, "nodes": [][]interface{}{}}
	b := bsubOf(fs, base)
	e["panic"] = guard(func() { linkSubset(b) })
	if e["panic"] == "" {
		e["nodes"] = nodes(b, "-", "")
	}
	return e, b
}

// arrangement is some nested arrangement, whatever its bits
func arrangement(r *rand.Rand, depth, off int) filtering.ByteSubscriptions {
	b := filtering.ByteSubscriptions{}
	for k := r.Intn(5); k >= 0; k-- {
		bits := randBits(r, 1+r.Intn(6))
		ps := &filtering.PartialSubscription{Offset: off, ReportURI: pick(r, []string{"", "http://a.example/", "http://b.example/x?y=z w", "n"}), Subset: filtering.ByteSubscriptions{}}
		if depth > 0 && r.Intn(2) == 0 {
			ps.Subset = arrangement(r, depth-1, off+len(bits))
		}
		b[bits] = ps
	}
	return b
}

var arrangedLine = regexp.MustCompile(`^( *)--([01x]*) (-?\d+) (.*)$`)

// outlineEvent records what an arrangement prints of itself
func outlineEvent(b filtering.ByteSubscriptions) Event {
	e := Event{"op": "outline", "nodes": nodes(b, "-", ""), "lines": [][]interface{}{}}
	e["panic"] = guard(func() {
		lines := [][]interface{}{}
		text := b.Dump()
		for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			if text == "" {
				break
			}
			m := arrangedLine.FindStringSubmatch(l)
			if m == nil || len(m[1])%2 != 0 {
				panic("no such line: " + l)
			}
			off, _ := strconv.Atoi(m[3])
			lines = append(lines, []interface{}{len(m[1]) / 2, m[2], off, m[4]})
		}
		e["lines"] = lines
	})
	return e
}

// nested spells a nested arrangement from root to leaves
func nested(b filtering.ByteSubscriptions) string { return fmt.Sprint(nodes(b, "-", "")) }

// sameEvent: an object before, what was made of it, and the object after use of the result
func sameEvent(what, before, got, after, p string) Event {
	return Event{"op": "same", "what": what, "before": before, "got": got, "after": after, "panic": p}
}

func scribble(s filtering.Subscriptions) {
	for k, v := range s {
		for i := range v {
			v[i] = "scribbled"
		}
		s[k] = append(v, "more")
	}
	s["http://scribbled"] = []string{"x"}
}

func spell(s filtering.Subscriptions) string {
	ks := []string{}
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b := ""
	for _, k := range ks {
		b += fmt.Sprintf("%q=%q;", k, append([]string{}, s[k]...))
	}
	return b
}

func subsEvents(r *rand.Rand, s filtering.Subscriptions) []Event {
	var tr []Event
	before := spell(s)
	var got string
	p := guard(func() {
		c := s.Clone()
		got = spell(c)
		scribble(c)
	})
	tr = append(tr, sameEvent("clone", before, got, spell(s), p))
	got = ""
	var kept filtering.Subscriptions
	p = guard(func() {
		kept = s.Clone()
		c := kept.Clone()
		scribble(kept)
		got = spell(c)
	})
	tr = append(tr, sameEvent("clone outlives the original", before, got, spell(s), p))
	got = ""
	p = guard(func() {
		b, err := s.MarshalBinary()
		if err != nil {
			got = err.Error()
			return
		}
		x := filtering.Subscriptions{}
		if err = x.UnmarshalBinary(b); err != nil {
			got = err.Error()
			return
		}
		got = spell(x)
		scribble(x)
	})
	tr = append(tr, sameEvent("binary", before, got, spell(s), p))
	got = ""
	p = guard(func() {
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(s); err != nil {
			got = err.Error()
			return
		}
		x := filtering.Subscriptions{}
		if err := gob.NewDecoder(&buf).Decode(&x); err != nil {
			got = err.Error()
			return
		}
		got = spell(x)
	})
	tr = append(tr, sameEvent("gob", before, got, spell(s), p))
	got = ""
	p = guard(func() {
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(s); err != nil {
			got = err.Error()
			return
		}
		var x filtering.Subscriptions
		if err := gob.NewDecoder(&buf).Decode(&x); err != nil {
			got = err.Error()
			return
		}
		got = spell(x)
	})
	tr = append(tr, sameEvent("gob into nothing", before, got, spell(s), p))
	got = ""
	p = guard(func() {
		type stored struct {
			Name string
			Subs filtering.Subscriptions
		}
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(stored{"x", s}); err != nil {
			got = err.Error()
			return
		}
		x := stored{}
		if err := gob.NewDecoder(&buf).Decode(&x); err != nil {
			got = err.Error()
			return
		}
		got = spell(x.Subs)
	})
	tr = append(tr, sameEvent("gob of a field", before, got, spell(s), p))
	ks, want := []string{}, []string{}
	p = guard(func() { ks = s.Keys() })
	for k := range s {
		want = append(want, k)
	}
	tr = append(tr, Event{"op": "keys", "keys": ks, "want": want, "panic": p})
	return tr
}

// storeEvents stores and reloads a nested arrangement
func storeEvents(b filtering.ByteSubscriptions) []Event {
	var tr []Event
	before := nested(b)
	got := ""
	p := guard(func() {
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(b); err != nil {
			got = err.Error()
			return
		}
		x := filtering.ByteSubscriptions{}
		if err := gob.NewDecoder(&buf).Decode(&x); err != nil {
			got = err.Error()
			return
		}
		got = nested(x)
		for _, ps := range x {
			ps.ReportURI, ps.Offset = "scribbled", 99
		}
	})
	tr = append(tr, sameEvent("arrangement gob", before, got, nested(b), p))
	for _, k := range b.Keys() {
		one := filtering.ByteSubscriptions{k: b[k]}
		bf, gt := nested(one), ""
		p := guard(func() {
			d, err := b[k].MarshalBinary()
			if err != nil {
				gt = err.Error()
				return
			}
			x := &filtering.PartialSubscription{}
			if err = x.UnmarshalBinary(d); err != nil {
				gt = err.Error()
				return
			}
			gt = nested(filtering.ByteSubscriptions{k: x})
		})
		tr = append(tr, sameEvent("partial subscription", bf, gt, nested(one), p))
		if len(tr) > 6 {
			break
		}
	}
	ks := []string{}
	want := []string{}
	p = guard(func() { ks = b.Keys() })
	for k := range b {
		want = append(want, k)
	}
	return append(tr, Event{"op": "keys", "keys": ks, "want": want, "panic": p})
}

// writeCSV spells rows as CSV, varying quoting, line ends and empty lines
func writeCSV(r *rand.Rand, rows [][]string) string {
	var b strings.Builder
	nl := pick(r, []string{"\n", "\n", "\r\n"})
	for i, row := range rows {
		for r.Intn(6) == 0 {
			b.WriteString(nl)
		}
		for j, f := range row {
			if j > 0 {
				b.WriteByte(',')
			}
			if strings.ContainsAny(f, ",\"\n") || (f == "" && len(row) == 1) || r.Intn(4) == 0 {
				b.WriteString("\"" + strings.ReplaceAll(f, "\"", "\"\"") + "\"")
			} else {
				b.WriteString(f)
			}
		}
		if i < len(rows)-1 || r.Intn(3) > 0 {
			b.WriteString(nl)
		}
	}
	return b.String()
}

func loadEvent(text string, rows [][]string) Event {
	e := Event{"op": "load", "text": text, "rows": rows, "got": [][]interface{}{}}
	e["panic"] = guard(func() {
		s := loadText(text)
		got := [][]interface{}{}
		for k, v := range s {
			got = append(got, []interface{}{k, append([]string{}, v...)})
		}
		sort.Slice(got, func(i, j int) bool { return got[i][0].(string) < got[j][0].(string) })
		e["got"] = got
	})
	return e
}

func loadText(text string) filtering.Subscriptions {
	d, err := os.MkdirTemp("", "vcsv")
	die(err)
	defer os.RemoveAll(d)
	fn := filepath.Join(d, "ecspec.csv")
	die(os.WriteFile(fn, []byte(text), 0644))
	return filtering.LoadSubscriptionsFromCSVFile(fn)
}

// randText has any printable characters
func randText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + r.Intn(94))
	}
	return string(b)
}

// randURI is some URI with the parts URIs may have
func randURI(r *rand.Rand) string {
	s := pick(r, []string{"http", "https", "HTTP", "Https", "hTTp"}) + "://" +
		pick(r, []string{"", "u:p@", "User@"}) + pick(r, []string{"a.example", "B.Example", "localhost", "192.0.2.1", "[2001:DB8::1]", "xn--e.example"}) +
		pick(r, []string{"", ":80", ":8888", ":"}) + pick(r, []string{"", "/", "/x", "/x/Y/", "/a%20b;v=1", "//", "/.."}) +
		pick(r, []string{"", "", "?", "?q=1&r=%2C", "?a?b", "?x,y"}) + pick(r, []string{"", "", "#", "#part", "#a#b"})
	if r.Intn(6) == 0 {
		s += randText(r, r.Intn(40))
	}
	if r.Intn(40) == 0 {
		s += "?" + randText(r, 1+r.Intn(3000))
	}
	return s
}

func randRows(r *rand.Rand) [][]string {
	u := newUniverse(r, 1+r.Intn(8), 3)
	uris := []string{"http://a.example/", "https://b.example/x", "HTTP://A.example/", "Https://B.EXAMPLE/x", "http://a.example/?q=\"1\",2", "http://localhost:8888/grai"}
	if r.Intn(2) == 0 {
		uris = []string{randURI(r), randURI(r), randURI(r)}
	}
	var rows [][]string
	for i := r.Intn(8); i >= 0; i-- {
		var row []string
		switch r.Intn(8) {
		case 0:
			row = append(row, pick(r, []string{"# comment", "ftp://x", "", "name", "urn:epc:pat:sgtin-96:3", " http://space", "htt", "ahttp://x", "//a.example/", "mailto:a@b.example", "#http://a.example/", "\"http://a.example/\"", "\thttp://a.example", "hxxp://a", "HTT", "h"}))
		default:
			row = append(row, pick(r, uris))
		}
		cols := r.Intn(5)
		if r.Intn(40) == 0 {
			cols = r.Intn(300)
		}
		for j := cols; j > 0; j-- {
			p := u.Pats[r.Intn(len(u.Pats))].Text()
			switch r.Intn(10) {
			case 0:
				p = strings.ToUpper(p)
			case 1:
				p = "URN:epc:PAT:" + p[12:]
			case 2:
				p = pick(r, []string{"", "remark", " " + p, "epc:" + p, p[:11], p[4:], "http://a.example/", "urn:epc:id:sgtin:0614141.812345.1", "two\nlines", "a \"quote\", and a comma", "urn:epc:patt:x", "urn:epc:pat"})
			case 3:
				p = pick(r, badPool)
			case 4:
				p += pick(r, []string{" ", ",", "\"", "#", "\t", "#urn:epc:pat:sgtin-96:3", ".*", "?", ";x"})
			case 5:
				p = "urn:epc:pat:" + randText(r, r.Intn(20))
			case 6:
				p = randText(r, r.Intn(20))
			}
			row = append(row, p)
		}
		rows = append(rows, row)
	}
	return rows
}

// bigRows are rows of one long line, one long column, or very many lines
func bigRows(r *rand.Rand) [][]string {
	uris := []string{"http://a.example/", "https://b.example/x", "HTTP://A.example/"}
	pat := func(n int) string { return fmt.Sprintf("urn:epc:pat:sgtin-96:3.%07d.%d", r.Intn(1e7), n) }
	rows := [][]string{{uris[0], pat(0)}}
	switch r.Intn(4) {
	case 0: // a line of thousands of columns
		row := []string{pick(r, uris)}
		for k := []int{1100, 5000, 9000, 17000, 33000, 70000}[r.Intn(6)]; k > 0; k-- {
			row = append(row, pat(k))
		}
		rows = append(rows, row)
	case 1: // one column of tens of kilobytes
		n := []int{4000, 33000, 65520, 66000, 140000}[r.Intn(5)]
		rows = append(rows, []string{pick(r, uris), pat(1), pat(2) + strings.Repeat("9", n), pat(3)}, []string{pick(r, uris), strings.Repeat("remark ", n/7), pat(4)})
	case 2: // thousands of lines
		for k := 1000 + r.Intn(9000); k > 0; k-- {
			rows = append(rows, []string{pick(r, uris), pat(k)})
		}
	default: // thousands of URIs
		for k := 300 + r.Intn(1500); k > 0; k-- {
			rows = append(rows, []string{fmt.Sprintf("http://n%d.example/", r.Intn(1200)), pat(k)})
		}
	}
	return append(rows, []string{uris[1], pat(0), pat(0)}, []string{"http://last.example/", pat(9)})
}

func subsTrace(seed int64, modes []string, ops int) []Event {
	r := rand.New(rand.NewSource(seed))
	var tr []Event
	for len(tr) < ops {
		switch m := modes[r.Intn(len(modes))]; m {
		case "bigobj": // hundreds of bits, far into the ID
			b, o := randFilter(r, r.Intn(2) == 0), r.Intn(300)
			for k := r.Intn(8); k > 0; k-- {
				b += randFilter(r, r.Intn(3) == 0)
			}
			tr = append(tr, objEvent(b, o, idsFor(r, b, o)))
		case "obj":
			b, o := randFilter(r, r.Intn(2) == 0), r.Intn(40)
			if r.Intn(3) == 0 {
				o = 8 * r.Intn(5)
			}
			if r.Intn(30) == 0 {
				b = ""
			}
			tr = append(tr, objEvent(b, o, idsFor(r, b, o)))
		case "comp", "bigcomp":
			// filters cut out of variations of one bit string, so that they share bits
			n := 16 + r.Intn(80)
			most := 5
			if m == "bigcomp" {
				n, most = 16+r.Intn(400), 24
			}
			base := randBits(r, n)
			seen := map[string]bool{}
			var fs []bo
			mid := r.Intn(n - 8)
			for k := 1 + r.Intn(most); k > 0; k-- {
				x := base
				for j := r.Intn(4); j > 0; j-- {
					x = flip(x, r.Intn(n))
				}
				lo, hi := r.Intn(mid+1), mid+8+r.Intn(n-mid-7)
				if r.Intn(2) == 0 {
					lo, hi = lo/8*8, min(n, (hi+7)/8*8)
				}
				b := []byte(x[lo:hi])
				if r.Intn(3) == 0 {
					for i := range b {
						if r.Intn(5) == 0 {
							b[i] = 'x'
						}
					}
				}
				if !seen[string(b)] {
					seen[string(b)] = true
					fs = append(fs, bo{string(b), lo})
				}
			}
			tr = append(tr, compEvent(r, fs))
		case "nest", "store":
			var fs [][2]string
			seen := map[string]bool{}
			if r.Intn(2) == 0 {
				u := newUniverse(r, 1+r.Intn(10), 3)
				for i, p := range u.Pats {
					seen[p.Bits] = true
					fs = append(fs, [2]string{p.Bits, u.Dest[i]})
				}
			} else {
				for k := r.Intn(14); k >= 0; k-- {
					b := randBits(r, 1+r.Intn(5))
					if r.Intn(3) == 0 && len(fs) > 0 {
						b = fs[r.Intn(len(fs))][0] + b
					}
					if !seen[b] {
						seen[b] = true
						fs = append(fs, [2]string{b, fmt.Sprintf("http://n%d", k)})
					}
				}
			}
			base := 0
			if r.Intn(3) == 0 {
				base = r.Intn(40)
			}
			e, b := nestEvent(fs, base)
			if canLink && m == "nest" {
				tr = append(tr, e)
			}
			if e["panic"] == "" && (m == "store" || !canLink) {
				tr = append(tr, storeEvents(b)...)
			}
		case "outline":
			b := arrangement(r, r.Intn(5), r.Intn(40))
			if r.Intn(10) == 0 {
				b = filtering.ByteSubscriptions{}
			}
			tr = append(tr, outlineEvent(b))
			u := newUniverse(r, 1+r.Intn(12), 4)
			b = filtering.ByteSubscriptions{}
			for i, p := range u.Pats {
				b[p.Bits] = &filtering.PartialSubscription{ReportURI: u.Dest[i]}
			}
			if canLink {
				linkSubset(b)
			}
			tr = append(tr, outlineEvent(b))
		case "subs":
			s := filtering.Subscriptions{}
			u := newUniverse(r, 1+r.Intn(12), 4)
			for i, p := range u.Pats {
				s[u.Dest[i]] = append(s[u.Dest[i]], p.Text())
			}
			if r.Intn(3) == 0 {
				s["http://none"] = []string{}
			}
			if r.Intn(4) == 0 {
				s[""] = []string{"", "x", "x"}
			}
			if r.Intn(8) == 0 {
				s = filtering.Subscriptions{}
			}
			tr = append(tr, subsEvents(r, s)...)
		case "bigsubs": // a subscriber of very many patterns, very many subscribers, or a very long pattern
			s := filtering.Subscriptions{"http://a.example/": {"urn:epc:pat:sgtin-96:3"}}
			n := []int{130, 260, 1030, 2050, 4100, 9000}[r.Intn(6)]
			switch r.Intn(3) {
			case 0:
				for k := 0; k < n; k++ {
					s["http://b.example/"] = append(s["http://b.example/"], fmt.Sprintf("urn:epc:pat:sgtin-96:3.0614141.812345.%d", k))
				}
			case 1:
				for k := 0; k < n; k++ {
					u := fmt.Sprintf("http://n%d.example/", k)
					s[u] = append(s[u], "urn:epc:pat:sgtin-96:3.0614141", fmt.Sprintf("urn:epc:pat:sscc-96:3.0614141.%d", k))
				}
			default:
				s["http://b.example/"] = []string{strings.Repeat("urn:epc:pat:", n), "urn:epc:pat:sgtin-96:4"}
				s["http://"+strings.Repeat("long.", n)] = []string{"urn:epc:pat:sgtin-96:5"}
			}
			tr = append(tr, subsEvents(r, s)...)
		case "bignest": // very many filters next to each other, or one inside the other
			var fs [][2]string
			seen := map[string]bool{}
			n, below := []int{140, 270, 500}[r.Intn(3)], ""
			for k := 0; k < n; k++ {
				b := randBits(r, 10+r.Intn(6))
				if n == 140 && k < 40 && r.Intn(2) == 0 {
					below += randBits(r, 1+r.Intn(2))
					b = below
				} else if r.Intn(6) == 0 && len(fs) > 0 {
					b = fs[r.Intn(len(fs))][0] + b
				}
				if !seen[b] {
					seen[b] = true
					fs = append(fs, [2]string{b, fmt.Sprintf("http://n%d", k)})
				}
			}
			e, b := nestEvent(fs, 0)
			if canLink {
				tr = append(tr, e)
			}
			if e["panic"] == "" {
				tr = append(tr, storeEvents(b)...)
			}
		case "bigload":
			rows := bigRows(r)
			e := loadEvent(writeCSV(r, rows), rows)
			e["op"] = "bigload"
			delete(e, "text")
			tr = append(tr, e)
		case "load":
			rows := randRows(r)
			tr = append(tr, loadEvent(writeCSV(r, rows), rows))
		}
	}
	return tr
}
