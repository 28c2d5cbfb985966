package main

// Random calls of the tag encoders, pattern compilers and decoders, recorded as traces for TdtTrace.tla.

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/scheme"
	"github.com/iomz/gosstrak/tdt"
)

var badFields = []string{"", "-1", "+1", "1a", "a", " 1", "1 ", "8", "9", "10", "007", "12345", "1234567890123", "12345678901234567890",
	"274877906944", "274877906943", "999999999999", "00000000000001", "0x1", "1e3", "1_0", "é", "`", "{", "a b", "A", "*", "[1-9]", "３", "1.", "~"}

var oddTypes = []string{"sgtin", "SGTIN-96", "", "iso17364", "giai-202", "sgtin-198", "urn", "iso", "iso17363h", "gdti-96", "sscc-96 "}

// someFields makes the fields of a pattern: well-formed ones cut to a length, possibly spoilt
func someFields(r *rand.Rand, typ string, spoil bool) []string {
	f := fullFields(r, typ)
	f = f[:1+r.Intn(len(f))]
	switch r.Intn(8) {
	case 0: // non-canonical but well-formed spellings
		k := len(f) - 1
		if k >= 2 && !strings.HasPrefix(typ, "iso") {
			if t := strings.TrimLeft(f[k], "0"); t != "" && r.Intn(2) == 0 {
				f[k] = t
			} else {
				f[k] = "0" + f[k]
			}
		} else if k == 3 && typ == "iso17363" {
			f[3] = f[3][:1+r.Intn(6)]
		}
	case 1:
		if strings.HasPrefix(typ, "iso") { // every 6-bit character
			k := r.Intn(len(f))
			b := ""
			for i := 1 + r.Intn(6); i > 0; i-- {
				b += string(rune(32 + r.Intn(64)))
			}
			f[k] = b
		}
	}
	if spoil {
		for i := 1 + r.Intn(2); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				f = append(f, pick(r, badFields))
			case 1:
				f = f[:r.Intn(len(f)+1)]
			default:
				if len(f) > 0 {
					f[r.Intn(len(f))] = pick(r, badFields)
				}
			}
		}
	}
	if f == nil {
		f = []string{}
	}
	return f
}

func errEvent(ev Event, err error) { ev["err"] = err != nil }

func filterEvent(typ string, f []string) Event {
	ev := Event{"op": "filter", "typ": typ, "fields": f, "err": false, "bits": ""}
	ev["panic"] = guard(func() {
		b, err := tdt.MakePrefixFilterString(typ, append([]string{}, f...))
		errEvent(ev, err)
		if err == nil {
			ev["bits"] = b
		}
	})
	return ev
}

func translateEvent(pc []byte, id []byte) Event {
	ev := Event{"op": "translate", "pc": ints(pc), "id": toBits(id), "err": false, "urn": ""}
	ev["panic"] = guard(func() {
		u, err := tdt.NewCore().Translate(pc, id)
		errEvent(ev, err)
		if err == nil {
			ev["urn"] = u
		}
	})
	return ev
}

// epcEvent calls an EPC encoder; fields: filter, company prefix, reference, serial
func epcEvent(s string, pf bool, f []string, wrapper bool) Event {
	f = append(append([]string{}, f...), "", "", "")[:4]
	ev := Event{"op": "epc", "scheme": s, "pf": pf, "fields": f, "err": false, "bits": "", "text": "", "pc": "", "wrapper": wrapper}
	ev["panic"] = guard(func() {
		if wrapper {
			name := []string{s + "-96", strings.ToUpper(s) + "-96"}[len(f[1])%2]
			var a, b string
			switch s {
			case "giai":
				a, b = scheme.MakeEPC(pf, name, f[0], f[1], "", "", "", f[2], "")
			case "grai":
				a, b = scheme.MakeEPC(pf, name, f[0], f[1], "", "", f[3], "", f[2])
			case "sgtin":
				a, b = scheme.MakeEPC(pf, name, f[0], f[1], f[2], "", f[3], "", "")
			case "sscc":
				a, b = scheme.MakeEPC(pf, name, f[0], f[1], "", f[2], "", "", "")
			default:
				a, b = scheme.MakeEPC(pf, name, f[0], f[1], f[2], f[2], f[3], f[2], f[2])
			}
			ev["err"], ev["bits"] = a == "", a
			if pf {
				ev["text"] = b
			} else {
				ev["pc"] = b
			}
			return
		}
		var id []byte
		var a, b string
		var err error
		switch s {
		case "giai":
			id, a, b, err = scheme.MakeGIAI96(pf, f[0], f[1], f[2])
		case "grai":
			id, a, b, err = scheme.MakeGRAI96(pf, f[0], f[1], f[2], f[3])
		case "sgtin":
			id, a, b, err = scheme.MakeSGTIN96(pf, f[0], f[1], f[2], f[3])
		case "sscc":
			id, a, b, err = scheme.MakeSSCC96(pf, f[0], f[1], f[2])
		}
		errEvent(ev, err)
		if pf {
			ev["bits"], ev["text"] = a, b
		} else {
			ev["bits"] = toBits(id)
		}
	})
	return ev
}

// isoEvent calls an ISO encoder; fields: data identifier, ... as in a pattern
func isoEvent(t string, pf bool, f []string, wrapper bool) Event {
	f = append(append([]string{}, f...), "", "", "", "")[:4]
	if t == "iso17363" {
		f[0] = "7B"
	}
	ev := Event{"op": "iso", "scheme": t, "pf": pf, "fields": f, "err": false, "bits": "", "text": "", "pc": "", "len": -1, "wrapper": wrapper}
	ev["panic"] = guard(func() {
		if wrapper {
			a, b := scheme.MakeISO(pf, t[3:], f[1], f[2], f[3], f[0], f[1], f[2], f[3])
			ev["err"], ev["bits"] = a == "", a
			if pf {
				ev["text"] = b
			} else {
				ev["pc"] = b
			}
			return
		}
		var id []byte
		var a, b string
		var n int
		var err error
		if t == "iso17363" {
			id, n, a, b, err = scheme.MakeISO17363(pf, f[1], f[2], f[3])
		} else {
			id, n, a, b, err = scheme.MakeISO17365(pf, f[0], f[1], f[2], f[3])
		}
		errEvent(ev, err)
		if pf {
			ev["bits"], ev["text"] = a, b
		} else {
			ev["bits"], ev["len"] = toBits(id), n
		}
	})
	return ev
}

// encodeTag encodes complete fields with the real encoder
func encodeTag(typ string, f []string) (pc []byte, bits string, err error) {
	if strings.HasPrefix(typ, "iso") {
		ev := isoEvent(typ, false, f, true)
		if ev["err"].(bool) || ev["panic"] != "" {
			return nil, "", fmt.Errorf("no tag: %v %v", f, ev["panic"])
		}
		pc, err = hex.DecodeString(ev["pc"].(string))
		return pc, ev["bits"].(string), err
	}
	ev := epcEvent(strings.TrimSuffix(typ, "-96"), false, f, false)
	if ev["err"].(bool) || ev["panic"] != "" {
		return nil, "", fmt.Errorf("no tag: %v %v", f, ev["panic"])
	}
	return []byte{48, 0}, ev["bits"].(string), nil
}

// coverEvent asks an engine built from one pattern whether it reports a tag encoded by the real encoder
func coverEvent(kind string, ptyp string, pf []string, typ string, f []string) Event {
	ev := Event{"op": "cover", "ptyp": ptyp, "pfields": pf, "typ": typ, "fields": f, "match": false, "kind": kind}
	ev["panic"] = guard(func() {
		pc, bits, err := encodeTag(typ, f)
		if err != nil {
			panic(err)
		}
		pat := "urn:epc:pat:" + ptyp + ":" + strings.Join(pf, ".")
		if kind == "" {
			b, err := tdt.MakePrefixFilterString(ptyp, pf)
			ev["match"] = err == nil && strings.HasPrefix(bits, b)
			return
		}
		e := construct(kind, filtering.Subscriptions{"http://a/": {pat}})
		_, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: toBytes(bits)})
		ev["match"] = err == nil && len(uris) == 1
	})
	return ev
}

func bsubEvent(ps []pd) Event {
	sub := [][2]string{}
	for _, x := range ps {
		sub = append(sub, [2]string{x.p, x.d})
	}
	ev := Event{"op": "bsub", "subs": sub, "keys": [][2]string{}}
	ev["panic"] = guard(func() {
		ks := [][2]string{}
		for k, v := range toSubs(ps).ToByteSubscriptions() {
			ks = append(ks, [2]string{k, v.ReportURI})
			if v.Offset != 0 || len(v.Subset) != 0 {
				panic("offset or subset in a fresh set")
			}
		}
		ev["keys"] = ks
	})
	return ev
}

func cdEvent(cn string) Event {
	ev := Event{"op": "cd", "text": cn, "err": false, "bits": ""}
	ev["panic"] = guard(func() {
		n, err := scheme.GetISO6346CD(cn)
		errEvent(ev, err)
		if err == nil {
			ev["bits"] = fmt.Sprint(n)
		}
	})
	return ev
}

func blank(r *rand.Rand, f []string) []string {
	g := append([]string{}, f...)
	for i := range g {
		if r.Intn(3) == 0 {
			g[i] = ""
		}
	}
	return g
}

func randPC(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		pc := make([]byte, r.Intn(5))
		r.Read(pc)
		return pc
	case 1:
		return []byte{byte(r.Intn(256)), byte(r.Intn(256))}
	case 2, 3:
		return []byte{byte(r.Intn(128))<<1 | 1, byte(155 + r.Intn(20))}
	}
	return []byte{0x30, 0}
}

func randID(r *rand.Rand) []byte {
	n := 12
	if r.Intn(3) == 0 {
		n = r.Intn(66)
	}
	b := make([]byte, n)
	if r.Intn(4) > 0 {
		r.Read(b)
	}
	if n > 0 && r.Intn(4) > 0 {
		b[0] = []byte{48, 49, 51, 52, 50, 53}[r.Intn(6)]
		if n > 1 && r.Intn(4) == 0 {
			b[1] = b[1]&0xe0 | byte(r.Intn(8))<<2 // zero top of the company prefix
			if n > 2 {
				b[2] = 0
			}
		}
	}
	return b
}

// a subscription list with every kind of unusable pattern among good ones
func somePatterns(r *rand.Rand) []pd {
	ps := []pd{}
	seen := map[string]bool{}
	for i := r.Intn(8); i >= 0; i-- {
		typ := pick(r, allTypes)
		f := someFields(r, typ, r.Intn(2) == 0)
		if r.Intn(8) == 0 {
			typ = pick(r, oddTypes)
		}
		p := typ + ":" + strings.Join(f, ".")
		switch r.Intn(10) {
		case 0:
			p = "URN:EPC:PAT:" + p
		case 1:
			p = "urn:EPC:pat:" + p
		case 2:
		case 3:
			p = "urn:epc:pat:" + strings.ToLower(p)
		case 4:
			p = pick(r, []string{"", ":", "urn:epc:pat:", "urn:epc:id:" + p, "urn:epc:pat:" + p + ":x", "urn:epc:pat:sgtin-96", "urn:epc:pat:urn:epc:pat:" + p, p + ":", "urn:epc:pat::3"})
		default:
			p = "urn:epc:pat:" + p
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		ps = append(ps, pd{p, fmt.Sprintf("http://d%d/", r.Intn(4))})
	}
	return ps
}

func pick2(r *rand.Rand, a, b int) int { return []int{a, b}[r.Intn(2)] }

// printEvent prints a tag in both forms; tag says that it is one, not a pattern
func printEvent(bs, opt string, tag bool) Event {
	e := Event{"op": "print", "bs": bs, "opt": opt, "tag": tag, "byid": "", "bygo": ""}
	e["panic"] = guard(func() {
		e["byid"] = scheme.PrintID(bs, opt)
		if tag || bs == "" {
			e["bygo"] = scheme.PrintGoBytes(bs, opt)
		}
	})
	return e
}

func tdtTrace(seed int64, modes []string, ops int) []Event {
	r := rand.New(rand.NewSource(seed))
	tr := []Event{}
	for len(tr) < ops {
		switch mode := pick(r, modes); mode {
		case "filter":
			t := pick(r, allTypes)
			tr = append(tr, filterEvent(t, someFields(r, t, false)))
		case "badfilter":
			t := pick(r, allTypes)
			f := someFields(r, t, true)
			if r.Intn(10) == 0 {
				t = pick(r, oddTypes)
			}
			tr = append(tr, filterEvent(t, f))
		case "bsub":
			tr = append(tr, bsubEvent(somePatterns(r)))
		case "translate":
			tr = append(tr, translateEvent(randPC(r), randID(r)))
		case "isojunk":
			b := make([]byte, r.Intn(66))
			if r.Intn(5) > 0 {
				r.Read(b)
			}
			tr = append(tr, translateEvent([]byte{byte(r.Intn(128))<<1 | 1, byte(155 + r.Intn(20))}, b))
		case "roundtrip", "isotrip":
			t := pick(r, allTypes)
			if mode == "isotrip" {
				t = pick(r, []string{"iso17363", "iso17365"})
			}
			f := fullFields(r, t)
			if t == "iso17365" && r.Intn(3) == 0 {
				f[3] = word(r, isoAlnum, 1+r.Intn(60))
			}
			pc, bits, err := encodeTag(t, f)
			if err != nil {
				tr = append(tr, Event{"op": "filter", "typ": t, "fields": f, "err": true, "bits": "", "panic": err.Error()})
				continue
			}
			tr = append(tr, translateEvent(pc, toBytes(bits)))
			if r.Intn(3) == 0 { // a bit off
				tr = append(tr, translateEvent(pc, toBytes(flip(bits, r.Intn(len(bits))))))
			}
		case "epc":
			s := pick(r, []string{"giai", "grai", "sgtin", "sscc"})
			f := blank(r, fullFields(r, s+"-96"))
			if r.Intn(3) == 0 {
				f[r.Intn(len(f))] = pick(r, badFields)
			}
			if r.Intn(40) == 0 {
				tr = append(tr, epcEvent("gdti", r.Intn(2) == 0, f, true))
				continue
			}
			tr = append(tr, epcEvent(s, r.Intn(2) == 0, f, r.Intn(3) == 0))
		case "iso":
			t := pick(r, []string{"iso17363", "iso17365"})
			f := fullFields(r, t)
			switch r.Intn(6) {
			case 0:
				f = someFields(r, t, false)
			case 1:
				f = someFields(r, t, true)
			case 2:
				f[3] = word(r, isoAlnum, 1+r.Intn(100))
			}
			if r.Intn(2) == 0 {
				f = blank(r, f)
			}
			if r.Intn(40) == 0 {
				tr = append(tr, isoEvent("iso17364", r.Intn(2) == 0, f, true))
				continue
			}
			tr = append(tr, isoEvent(t, r.Intn(2) == 0, f, r.Intn(3) == 0))
		case "print":
			var e Event
			pf := r.Intn(4) == 0
			if r.Intn(2) == 0 {
				t := pick(r, []string{"iso17363", "iso17365"})
				e = isoEvent(t, pf, fullFields(r, t), true)
			} else {
				s := pick(r, []string{"giai", "grai", "sgtin", "sscc"})
				e = epcEvent(s, pf, fullFields(r, s+"-96"), true)
			}
			switch r.Intn(5) {
			case 0: // any tag
				opt := fmt.Sprintf(pick(r, []string{"%04x", "%04X"}), r.Intn(1<<16))
				tr = append(tr, printEvent(randBits(r, 8*r.Intn(pick2(r, 10, 65))), opt, true))
			case 1:
				tr = append(tr, printEvent("", pick(r, []string{"", "3000"}), true))
			default:
				if pf {
					tr = append(tr, printEvent(e["bits"].(string), e["text"].(string), false))
				} else {
					tr = append(tr, printEvent(e["bits"].(string), e["pc"].(string), true))
				}
			}
		case "six":
			b := make([]byte, r.Intn(pick2(r, 12, 90)))
			for i := range b {
				b[i] = byte(' ' + r.Intn(64))
			}
			e := Event{"op": "six", "text": string(b), "bits": ""}
			e["panic"] = guard(func() { e["bits"] = string(scheme.Sixenc2bin([]rune(string(b)))) })
			tr = append(tr, e)
		case "cd":
			cn := word(r, isoAlnum, 10)
			switch r.Intn(4) {
			case 0:
				cn = strings.ToLower(cn)
			case 1:
				cn = cn[:r.Intn(10)] + pick(r, []string{"?", " ", "-", "", "AB", "é"}) + cn[:r.Intn(10)]
			}
			tr = append(tr, cdEvent(cn))
		case "cover":
			t := pick(r, allTypes)
			f := fullFields(r, t)
			pt, pf := t, f
			for i := r.Intn(3); i > 0; i-- {
				pf = vary(r, t, pf)
			}
			pf = pf[:1+r.Intn(len(pf))]
			if r.Intn(10) == 0 {
				pt = pick(r, allTypes)
				pf = someFields(r, pt, false)
				for tdtFails(pt, pf) {
					pf = someFields(r, pt, false)
				}
			}
			tr = append(tr, coverEvent(pick(r, []string{"", "", "List", "PatriciaTrie", "SplayTree"}), pt, pf, t, f))
		}
	}
	return tr
}

// a pattern the generator cannot judge: skip it
func tdtFails(t string, f []string) bool {
	_, err := tdt.MakePrefixFilterString(t, f)
	return err != nil
}
