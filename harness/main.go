// Command vh drives the real gosstrak code for the checks in /verif.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

func parallel(n int, f func(i int)) { parallelN(runtime.NumCPU(), n, f) }

func parallelN(width, n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < width; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func main() {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(64 << 20)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	ops := fs.Int("ops", 40, "")
	npats := fs.Int("npats", 12, "")
	out := fs.String("out", "trace.json", "")
	mode := fs.String("mode", "", "")
	in := fs.String("in", "", "")
	depth := fs.Int("depth", 2, "")
	depth2 := fs.Int("depth2", 3, "")
	uni := fs.String("universes", "", "")
	kinds := fs.String("kinds", "List,PatriciaTrie,SplayTree,LegacyEngine", "")
	need := fs.String("need", "", "")
	budget := fs.Int("budget", 100, "")
	width := fs.Int("width", 16, "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "eng":
		traces := make([][]Event, *n)
		parallel(*n, func(i int) {
			o := EngOpts{npats: *npats, ops: *ops, searchBias: 4}
			bk := byteKinds[i%3]
			for _, m := range strings.Split(*mode, ",") {
				switch m {
				case "adddel":
					o.addDel = true
				case "save":
					o.save = true
				case "mutate":
					o.mutate = true
				case "junk":
					o.junk = true
				case "file":
					o.file = true
				case "storm":
					o.storm = true
				case "dump":
					o.dump = true
				case "bad":
					o.badPats = true
				case "static":
					o.bigInit = i%4 != 0
				case "legacy":
					o.kinds = []string{textKind}
				case "byte":
					o.kinds = []string{bk}
				case "splay":
					o.kinds = []string{"SplayTree"}
				case "all":
					o.kinds = append(append([]string{}, byteKinds...), textKind)
				case "any":
					o.kinds = []string{append(byteKinds[:3:3], textKind)[i%4]}
				case "two":
					a := append(byteKinds[:3:3], textKind)
					o.kinds = []string{a[i%4], a[i/4%4]}
				}
			}
			traces[i] = engTrace(*seed*1000003+int64(i), o)
		})
		writeJSON(*out, traces)
	case "graph":
		g := loadGraph(*uni, *in)
		writeJSON(*out, runGraph(g, strings.Split(*kinds, ","), strings.Split(*mode, ","), *need, *depth, *depth2))
	case "closure":
		g := loadGraph(*uni, *in)
		writeJSON(*out, runClosure(g, strings.Split(*kinds, ","), strings.Split(*mode, ","), *need, *n, time.Duration(*budget)*time.Second))
	case "tdt":
		traces := make([][]Event, *n)
		parallel(*n, func(i int) {
			traces[i] = tdtTrace(*seed*1000003+int64(i), strings.Split(*mode, ","), *ops)
		})
		writeJSON(*out, traces)
	case "subs":
		traces := make([][]Event, *n)
		parallel(*n, func(i int) {
			traces[i] = subsTrace(*seed*1000003+int64(i), strings.Split(*mode, ","), *ops)
		})
		writeJSON(*out, traces)
	case "subsgraph":
		writeJSON(*out, runSubsGraph(*in))
	case "stat":
		writeJSON(*out, statTrace(*seed, strings.Split(*mode, ","), *ops))
	case "fc":
		traces := make([][]Event, *n)
		dir, err := os.MkdirTemp(".", "fc")
		if err != nil {
			die(err)
		}
		dir, _ = filepath.Abs(dir)
		parallelN(*width, *n, func(i int) {
			traces[i] = fcTrace(*seed*1000003+int64(i), *in, *mode == "stat", dir)
		})
		os.RemoveAll(dir)
		writeJSON(*out, traces)
	case "tags":
		traces := make([][]Event, *n)
		dir, err := os.MkdirTemp(".", "tags")
		if err != nil {
			die(err)
		}
		dir, _ = filepath.Abs(dir)
		parallel(*n, func(i int) {
			traces[i] = tagsTrace(*seed*1000003+int64(i), *in, dir, *mode == "big")
		})
		os.RemoveAll(dir)
		writeJSON(*out, traces)
	case "mirror":
		traces := make([][]Event, *n)
		parallelN(*width, *n, func(i int) { traces[i] = mirrorTrace(*seed*1000003+int64(i), *in, *mode) })
		writeJSON(*out, made(traces))
	case "six":
		traces := make([][]Event, *n)
		parallel(*n, func(i int) { traces[i] = sixTrace(*seed*1000003+int64(i), *in, *ops) })
		writeJSON(*out, traces)
	case "stored":
		traces := make([][]Event, *n)
		parallel(*n, func(i int) { traces[i] = storedTrace(*seed*1000003+int64(i), *ops) })
		writeJSON(*out, traces)
	case "canlink":
		fmt.Println(canLink)
	case "tdtgraph":
		writeJSON(*out, runTdtGraph(*in))
	case "f1":
		writeJSON(*out, probeF1())
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// made are the traces there are
func made(traces [][]Event) [][]Event {
	l := [][]Event{}
	for _, t := range traces {
		if t != nil {
			l = append(l, t)
		}
	}
	return l
}
