package main

// Input generation: random universes of patterns and tags.  The bit layouts
// here only serve to generate interesting inputs; they judge nothing.

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// Pat is a tag pattern
type Pat struct {
	Typ    string
	Fields []string
	Bits   string // as the generator believes
	ISO    bool
	AFI    byte
}

// Text returns the pattern's URN
func (p Pat) Text() string { return "urn:epc:pat:" + p.Typ + ":" + strings.Join(p.Fields, ".") }

var headers = map[string]string{"giai": "00110100", "grai": "00110011", "sgtin": "00110000", "sscc": "00110001"}
var cpBits = map[int]int{12: 40, 11: 37, 10: 34, 9: 30, 8: 27, 7: 24, 6: 20}

func refBits(s string, n int) int {
	return map[string]int{"sgtin": 44, "grai": 44, "sscc": 58, "giai": 82}[s] - cpBits[n]
}
func refDigits(s string, n int) int {
	return map[string]int{"sgtin": 13, "grai": 12, "sscc": 17, "giai": 25}[s] - n
}
func hasSerial(s string) bool { return s == "sgtin" || s == "grai" }
func maxFields(s string) int {
	if hasSerial(s) {
		return 4
	}
	return 3
}

func bitsOf(dec string, n int) string {
	z, ok := new(big.Int).SetString(dec, 10)
	if !ok {
		panic("generator: " + dec)
	}
	s := z.Text(2)
	if s == "0" {
		s = ""
	}
	if len(s) > n {
		panic("generator: does not fit " + dec)
	}
	return strings.Repeat("0", n-len(s)) + s
}

func sixBits(t string) string {
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		fmt.Fprintf(&b, "%06b", t[i]&63)
	}
	return b.String()
}

func epcBits(s string, f []string) string {
	b := headers[s] + bitsOf(f[0], 3)
	if len(f) >= 2 {
		b += bitsOf(fmt.Sprint(12-len(f[1])), 3) + bitsOf(f[1], cpBits[len(f[1])])
	}
	if len(f) >= 3 {
		b += bitsOf(f[2], refBits(s, len(f[1])))
	}
	if len(f) >= 4 {
		b += bitsOf(f[3], 38)
	}
	return b
}

func isoCD(t string) string {
	n := 0
	for i := 0; i < 10; i++ {
		n += strings.IndexByte("0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ", t[i]) << uint(i)
	}
	return fmt.Sprint(n % 11 % 10)
}

func isoText(typ string, f []string) string {
	t := strings.Join(f, "")
	if typ == "iso17363" && len(f) == 4 {
		csn := strings.Repeat("0", 6-len(f[3])) + f[3]
		t = f[0] + f[1] + f[2] + csn + isoCD(f[1]+f[2]+csn)
	}
	return strings.ToUpper(t)
}

func padWord(b string) string {
	return b + strings.Repeat("100000", 3)[:(16-len(b)%16)%16]
}

func mkPat(typ string, f []string) Pat {
	p := Pat{Typ: typ, Fields: append([]string{}, f...)}
	if strings.HasPrefix(typ, "iso") {
		p.ISO = true
		p.AFI = map[string]byte{"iso17363": 169, "iso17365": 162}[typ]
		p.Bits = sixBits(isoText(typ, f))
	} else {
		p.Bits = epcBits(strings.TrimSuffix(typ, "-96"), f)
	}
	return p
}

// Tag returns PC and bits of the tag with exactly the pattern's (complete) fields
func (p Pat) Tag() ([]byte, string) {
	if p.ISO {
		b := padWord(p.Bits)
		return []byte{byte(len(b)/16)<<3 | 1, p.AFI}, b
	}
	b := p.Bits
	b += strings.Repeat("0", 96-len(b))
	return []byte{0x30, 0}, b
}

func digits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

func pick(r *rand.Rand, ss []string) string { return ss[r.Intn(len(ss))] }

// edgy numerals of exactly n digits
func numeral(r *rand.Rand, n int) string {
	if n == 0 {
		return "0"
	}
	switch r.Intn(6) {
	case 0:
		return strings.Repeat("0", n)
	case 1:
		return strings.Repeat("9", n)
	case 2:
		return strings.Repeat("0", n-1) + "1"
	case 3:
		return "1" + strings.Repeat("0", n-1)
	}
	return digits(r, n)
}

// a value of at most nbits bits, plain decimal
func value(r *rand.Rand, nbits int) string {
	one := big.NewInt(1)
	max := new(big.Int).Lsh(one, uint(nbits))
	switch r.Intn(6) {
	case 0:
		return "0"
	case 1:
		return new(big.Int).Sub(max, one).String()
	case 2:
		return new(big.Int).Lsh(one, uint(r.Intn(nbits))).String()
	case 3:
		return fmt.Sprint(r.Intn(10))
	}
	z := new(big.Int).Rand(r, max)
	return z.Rsh(z, uint(r.Intn(nbits))).String()
}

func epcRef(r *rand.Rand, s string, n int) string {
	if s == "giai" {
		return value(r, refBits(s, n))
	}
	return numeral(r, refDigits(s, n))
}

// flip a few low bits worth of a numeral: a neighbour of the same length
func neighbour(r *rand.Rand, x string) string {
	b := []byte(x)
	i := len(b) - 1 - r.Intn((len(b)+1)/2)
	b[i] = byte('0' + (int(b[i]-'0')+1+r.Intn(9))%10)
	return string(b)
}

const isoAlpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const isoAlnum = "0123456789" + isoAlpha

func word(r *rand.Rand, alpha string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return string(b)
}

// fullFields makes the complete fields of a random tag of the type
func fullFields(r *rand.Rand, typ string) []string {
	switch typ {
	case "iso17363":
		return []string{"7B", word(r, isoAlpha, 3), pick(r, []string{"U", "J", "Z"}), digits(r, 6)}
	case "iso17365":
		return []string{pick(r, []string{"25S", "25B", "J", "1J", "6J"}), word(r, isoAlpha, 1+r.Intn(3)), word(r, isoAlnum, 1+r.Intn(6)), word(r, isoAlnum, 1+r.Intn(10))}
	}
	s := strings.TrimSuffix(typ, "-96")
	n := 6 + r.Intn(7)
	f := []string{fmt.Sprint(r.Intn(8)), numeral(r, n), epcRef(r, s, n)}
	if hasSerial(s) {
		f = append(f, value(r, 38))
	}
	return f
}

// vary changes some field of f to a near or random other value, keeping it canonical
func vary(r *rand.Rand, typ string, f []string) []string {
	g := append([]string{}, f...)
	i := r.Intn(len(g))
	if typ == "iso17363" {
		switch i {
		case 1:
			g[1] = g[1][:2] + word(r, isoAlpha, 1)
		case 2:
			g[2] = pick(r, []string{"U", "J", "Z"})
		case 3:
			g[3] = neighbour(r, g[3])
		}
		return g
	}
	if typ == "iso17365" {
		switch r.Intn(3) {
		case 0:
			g[i] = g[i] + word(r, isoAlnum, 1)
		case 1:
			if len(g[i]) > 1 {
				g[i] = g[i][:len(g[i])-1]
			}
		default:
			g[i] = g[i][:len(g[i])-1] + word(r, isoAlnum, 1)
		}
		return g
	}
	s := strings.TrimSuffix(typ, "-96")
	switch i {
	case 0:
		g[0] = fmt.Sprint(r.Intn(8))
	case 1:
		g[1] = neighbour(r, g[1])
	case 2:
		n := len(g[1])
		if s == "giai" {
			g[2] = value(r, refBits(s, n))
		} else if refDigits(s, n) > 0 {
			g[2] = neighbour(r, g[2])
		}
	case 3:
		g[3] = value(r, 38)
	}
	return g
}

var allTypes = []string{"giai-96", "grai-96", "sgtin-96", "sscc-96", "iso17363", "iso17365"}

// Universe is a small closed world of related patterns and probe IDs
type Universe struct {
	Pats  []Pat
	Dest  []string // Dest[i] subscribes Pats[i]; equal filters have equal destinations
	Types []string
}

// newUniverse makes up to n patterns with distinct filters: truncations and variations of a few tags
func newUniverse(r *rand.Rand, n int, ndest int) *Universe {
	u := &Universe{}
	k := 1 + r.Intn(3)
	if r.Intn(4) == 0 {
		k = 6
	}
	perm := r.Perm(len(allTypes))
	for _, i := range perm[:k] {
		u.Types = append(u.Types, allTypes[i])
	}
	type base struct {
		typ string
		f   []string
	}
	var bases []base
	for i := 0; i < 1+r.Intn(3); i++ {
		t := pick(r, u.Types)
		bases = append(bases, base{t, fullFields(r, t)})
	}
	seen := map[string]bool{}
	most := 12
	if n > 200 {
		most = n / 5
	}
	for tries := 0; len(u.Pats) < n && tries < 40*n; tries++ {
		b := bases[r.Intn(len(bases))]
		if r.Intn(3) > 0 {
			b = base{b.typ, vary(r, b.typ, b.f)}
			if len(bases) < most {
				bases = append(bases, b)
			}
		}
		cut := 1 + r.Intn(len(b.f))
		if b.typ == "grai-96" && len(b.f[1]) == 12 && cut > 2 && r.Intn(2) == 0 {
			cut = 2
		}
		p := mkPat(b.typ, b.f[:cut])
		if seen[p.Bits] {
			continue
		}
		seen[p.Bits] = true
		u.Pats = append(u.Pats, p)
		u.Dest = append(u.Dest, fmt.Sprintf("http://d%d.example/", r.Intn(ndest)))
	}
	return u
}

func randBits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(2))
	}
	return string(b)
}

func flip(b string, i int) string {
	c := byte('0')
	if b[i] == '0' {
		c = '1'
	}
	return b[:i] + string([]byte{c}) + b[i+1:]
}

// probe makes an event likely to be decided by few bits of the universe's filters
func (u *Universe) probe(r *rand.Rand) (pc []byte, bits string) {
	if len(u.Pats) == 0 || r.Intn(20) == 0 {
		t := pick(r, allTypes)
		return mkPat(t, fullFields(r, t)).Tag()
	}
	p := u.Pats[r.Intn(len(u.Pats))]
	pc = []byte{0x30, 0}
	if p.ISO {
		pc = []byte{0x31, p.AFI}
	}
	bits = p.Bits
	switch r.Intn(12) {
	case 0, 1, 2, 3: // a valid tag of the pattern
		if p.ISO {
			b := bits
			for i := r.Intn(6); i > 0; i-- {
				b += sixBits(word(r, isoAlnum, 1))
			}
			b = padWord(b)
			return []byte{byte(len(b)/16)<<3 | 1, p.AFI}, b
		}
		s := strings.TrimSuffix(p.Typ, "-96")
		f := append([]string{}, p.Fields...)
		if len(f) == 1 {
			f = append(f, numeral(r, 6+r.Intn(7)))
		}
		if len(f) == 2 {
			f = append(f, epcRef(r, s, len(f[1])))
		}
		if len(f) == 3 && hasSerial(s) {
			f = append(f, value(r, 38))
		}
		return mkPat(p.Typ, f).Tag()
	case 4, 5: // one bit off
		bits = flip(bits, r.Intn(len(bits)))
	case 6: // last bit off
		bits = flip(bits, len(bits)-1)
	case 7: // too short, cut to bytes
		n := r.Intn(len(bits)+1) / 8 * 8
		return pc, bits[:n]
	case 8: // just covering
		n := (len(bits) + 7) / 8 * 8
		return pc, bits + randBits(r, n-len(bits))
	}
	n := 96
	if p.ISO {
		n = (len(bits) + 15 + 16*r.Intn(4)) / 16 * 16
	}
	if r.Intn(8) == 0 {
		n = (len(bits) + 7 + r.Intn(60)) / 8 * 8
	}
	if len(bits) < n {
		bits += randBits(r, n-len(bits))
	}
	return pc, bits[:len(bits)/8*8]
}

func toBytes(bits string) []byte {
	b := make([]byte, len(bits)/8)
	for i := range b {
		for j := 0; j < 8; j++ {
			b[i] = b[i]<<1 | (bits[8*i+j] - '0')
		}
	}
	return b
}

func toBits(b []byte) string {
	var s strings.Builder
	for _, x := range b {
		fmt.Fprintf(&s, "%08b", x)
	}
	return s.String()
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
