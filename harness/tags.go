package main

// Runs of the real gobtags program on lists printed by the tag generator, for TagFileTrace.tla.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/go-llrp/binutil"
	"github.com/iomz/gosstrak/scheme"
)

func makeTag(r *rand.Rand, typ string, f []string) (bits, pc string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	switch typ {
	case "sgtin-96":
		bits, pc = scheme.MakeEPC(false, typ, f[0], f[1], f[2], "", f[3], "", "")
	case "grai-96":
		bits, pc = scheme.MakeEPC(false, typ, f[0], f[1], "", "", f[3], "", f[2])
	case "sscc-96":
		bits, pc = scheme.MakeEPC(false, typ, f[0], f[1], "", f[2], "", "", "")
	case "giai-96":
		bits, pc = scheme.MakeEPC(false, typ, f[0], f[1], "", "", "", f[2], "")
	case "iso17363":
		bits, pc = scheme.MakeISO(false, "17363", f[1], f[2], f[3], "", "", "", "")
	case "iso17365":
		bits, pc = scheme.MakeISO(false, "17365", "", "", "", f[0], f[1], f[2], f[3])
	}
	return bits, pc, len(bits) > 0
}

func tagsTrace(seed int64, bin, dir string, big bool) []Event {
	r := rand.New(rand.NewSource(seed))
	tr := []Event{}
	put := func(e Event) { tr = append(tr, e) }
	mine := filepath.Join(dir, fmt.Sprintf("t%d", seed))
	if err := os.Mkdir(mine, 0755); err != nil {
		die(err)
	}
	defer os.RemoveAll(mine)
	types := []string{"sgtin-96", "sscc-96", "grai-96", "giai-96", "iso17363", "iso17365"}
	names := []string{"out.gob", "a", "tags of today.gob"}
	for k := 0; k < 1+r.Intn(6); k++ {
		n := []int{0, 1, 2, 3, 10, 40, 120}[r.Intn(7)]
		if big {
			n = 300 + r.Intn(3000)
		}
		lines, list := []string{}, []interface{}{}
		file := ""
		one := pick(r, types)
		for j := 0; j < n; j++ {
			if j > 0 && r.Intn(6) == 0 { // a tag read twice
				x := r.Intn(j)
				if r.Intn(3) == 0 {
					x = j - 1
				}
				lines, list = append(lines, lines[x]), append(list, list[x])
				file += lines[x] + "\n"
				continue
			}
			typ := one
			if seed%3 == 0 {
				typ = pick(r, types)
			}
			var bits, pc string
			for ok := false; !ok; {
				bits, pc, ok = makeTag(r, typ, fullFields(r, typ))
			}
			switch r.Intn(6) {
			case 0: // any tag whatsoever
				bits = randBits(r, []int{8, 16, 24, 64, 96, 104, 128, 256, 496}[r.Intn(9)])
				pc = fmt.Sprintf("%04x", r.Intn(65536))
			case 1:
				pc = strings.ToUpper(pc)
			}
			line := scheme.PrintID(bits, pc)
			lines, list = append(lines, line), append(list, Event{"bits": bits, "pc": pc, "line": line})
			file += line + "\n"
		}
		name := pick(r, names)
		in := filepath.Join(mine, "in.csv")
		if r.Intn(4) == 0 {
			file = strings.TrimSuffix(file, "\n")
		}
		if r.Intn(6) == 0 {
			file = strings.ReplaceAll(file, "\n", "\r\n")
		}
		if err := os.WriteFile(in, []byte(file), 0644); err != nil {
			die(err)
		}
		put(Event{"op": "convert", "name": name, "list": list})
		args := []string{in}
		if name != "out.gob" || r.Intn(2) == 0 {
			args = [][]string{{in, "-o", name}, {"--out", name, in}, {"-o", filepath.Join(mine, name), in}}[r.Intn(3)]
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = mine
		out, err := cmd.CombinedOutput()
		cancel()
		if err != nil {
			put(Event{"op": "died", "text": string(out)})
			return tr
		}
		for _, x := range names {
			p := filepath.Join(mine, x)
			if _, err := os.Stat(p); err != nil {
				if x == name {
					put(Event{"op": "read", "name": x, "ok": false, "tags": []interface{}{}})
				}
				continue
			}
			var ts llrp.Tags
			err := binutil.Load(p, &ts)
			got := []interface{}{}
			for _, t := range ts {
				got = append(got, Event{"pc": int(t.PCBits), "id": toBits(t.EPC)})
			}
			e := Event{"op": "read", "name": x, "ok": err == nil, "tags": got}
			if err != nil {
				e["text"] = err.Error()
			}
			put(e)
		}
	}
	return tr
}
