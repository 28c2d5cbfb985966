package main

// Saved engines and subscription sets, cut short at any byte or read as something else, for StorageTrace.tla.

import (
	"fmt"
	"math/rand"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
)

// storable is an object that can be saved and read back
type storable interface {
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

// subsBox and partBox give sets and arrangements the same methods on a pointer
type subsBox struct{ s filtering.Subscriptions }

func (b *subsBox) MarshalBinary() ([]byte, error) { return b.s.MarshalBinary() }
func (b *subsBox) UnmarshalBinary(d []byte) error { return b.s.UnmarshalBinary(d) }

func storedTrace(seed int64, ops int) []Event {
	r := rand.New(rand.NewSource(seed))
	u := newUniverse(r, 1+r.Intn([]int{4, 12, 30}[r.Intn(3)]), 1+r.Intn(5))
	type probe struct {
		pc   []byte
		bits string
	}
	var probes []probe
	for i := 0; i < 6; i++ {
		pc, bits := u.probe(r)
		probes = append(probes, probe{pc, bits})
	}
	some := func() filtering.Subscriptions {
		ps := []pd{}
		for i := range u.Pats {
			if r.Intn(4) > 0 {
				ps = append(ps, pd{u.Pats[i].Text(), u.Dest[i]})
			}
		}
		return toSubs(ps)
	}
	kinds := append(append([]string{}, byteKinds...), textKind)
	blank := func(kind string) storable {
		switch kind {
		case "Subscriptions":
			return &subsBox{filtering.Subscriptions{}}
		case "PartialSubscription":
			return &filtering.PartialSubscription{}
		}
		return fresh(kind, r.Intn(2) == 0)
	}
	view := func(o storable) []string {
		switch x := o.(type) {
		case *subsBox:
			return []string{spell(x.s)}
		case *filtering.PartialSubscription:
			return []string{nested(filtering.ByteSubscriptions{"": x})}
		case filtering.Engine:
			l := []string{}
			for _, p := range probes {
				ident, uris, err := x.Search(llrp.ReadEvent{PC: p.pc, ID: toBytes(p.bits)})
				m := map[string]int{}
				for _, d := range uris {
					m[d]++
				}
				l = append(l, fmt.Sprint(ident, canonCount(m), err != nil))
			}
			return l
		}
		return nil
	}
	var tr []Event
	save := func(doc, kind string, o storable) []byte {
		var b []byte
		var err error
		var v []string
		p := guard(func() {
			v = view(o)
			b, err = o.MarshalBinary()
		})
		tr = append(tr, Event{"op": "save", "doc": doc, "kind": kind, "size": len(b), "view": v, "err": err != nil, "panic": p})
		return b
	}
	restore := func(doc, into string, b []byte) {
		var err error
		v := []string{}
		p := guard(func() {
			o := blank(into)
			if err = o.UnmarshalBinary(append([]byte{}, b...)); err == nil {
				v = view(o)
			}
		})
		tr = append(tr, Event{"op": "restore", "doc": doc, "into": into, "view": v, "err": err != nil, "panic": p})
	}
	kind := append(kinds, "Subscriptions", "PartialSubscription")[r.Intn(6)]
	var o storable
	switch kind {
	case "Subscriptions":
		s := some()
		if r.Intn(3) == 0 {
			s["http://none.example/"] = []string{}
		}
		o = &subsBox{s}
	case "PartialSubscription":
		ps := &filtering.PartialSubscription{Offset: r.Intn(40), ReportURI: randURI(r), Subset: some().ToByteSubscriptions()}
		if canLink {
			linkSubset(ps.Subset)
		}
		o = ps
	default:
		o = construct(kind, some())
	}
	docs := map[string][]byte{}
	for _, doc := range []string{"first", "second"} {
		docs[doc] = save(doc, kind, o)
		restore(doc, kind, docs[doc])
		if e, ok := o.(filtering.Engine); ok { // what was saved is not touched by what happens later
			if p := guard(func() { e.AddSubscription(some()); e.DeleteSubscription(some()) }); p != "" {
				tr = append(tr, Event{"op": "died", "panic": p})
				return tr
			}
		}
	}
	for _, doc := range []string{"second", "first"} {
		b := docs[doc]
		if _, ok := o.(filtering.Engine); ok {
			for _, k := range kinds {
				restore(doc, k, b)
			}
		}
		cuts := []int{}
		for k := range b {
			if len(b) <= ops || k < 24 || k >= len(b)-24 || r.Intn(len(b)) < ops {
				cuts = append(cuts, k)
			}
		}
		for _, k := range cuts {
			tr = append(tr, Event{"op": "cut", "doc": doc, "have": k})
			restore(doc, kind, b[:k])
		}
		tr = append(tr, Event{"op": "cut", "doc": doc, "have": len(b)})
		restore(doc, kind, b)
	}
	return tr
}
