// Replay harness: runs concrete cases against the library built from /repo and
// compares them with the reference semantics. It supplies failing inputs for
// failed proof obligations and serves as the labelled bounded stand-in.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// genCase is a pure function of (property, seed, index, dict).
func genCase(prop string, seed int64, idx int, d *dict) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	g := newGen(prop, int64(h.Sum64()), d)
	switch prop {
	case "C01":
		if idx < 2*len(deepOps) {
			return &Case{Prop: prop, Kind: "deep", S: deepOps[idx%len(deepOps)], Ints: []int{[]int{12, 60}[idx/len(deepOps)]}}
		}
		if k := idx - 2*len(deepOps); k < 2*len(largeOps) {
			return &Case{Prop: prop, Kind: "large", S: largeOps[k%len(largeOps)], Ints: []int{[]int{60, 1100}[k/len(largeOps)]}}
		}
		if c := genLarge(g); c != nil {
			return c
		}
		if g.p(0.25) {
			return genSingle(g, diffOps)
		}
		return genDag(g)
	case "C02":
		return genSingle(g, diffOps)
	case "C03":
		return genForward(g, cat(allUnary, allArith, allEl, allCmp), []string{"Equals"})
	case "C04":
		return genForward(g, []string{"MatMul", "Dot", "Transpose", "MatMul"}, nil)
	case "C05":
		return genForward(g, allRed, []string{"qSum", "qMax", "qMin", "qAvg", "qVar", "qStd", "qMean"})
	case "C06":
		return genForward(g, allMove, []string{"At", "NElems", "Shape", "cons", "cons"})
	case "C07":
		return genSingle(g, []string{"Add", "Sub", "Mul", "Div", "Dot", "MatMul", "Broadcast"})
	case "C08":
		if idx < len(largeOps) {
			return &Case{Prop: prop, Kind: "large", S: largeOps[idx], Ints: []int{300}}
		}
		if c := genLarge(g); c != nil {
			return c
		}
		return genState(g)
	case "C09":
		if a := apiNames(); idx < len(a) {
			return &Case{Prop: prop, Kind: "api", S: a[idx]}
		}
		return genArgs(g)
	case "C10":
		var c *Case
		switch g.n(6) {
		case 0, 1:
			g.big = false
			c = genSingle(g, cat(diffOps, []string{"Slice", "Patch", "Concat", "Reshape", "Broadcast"}))
		case 2:
			c = genDag(g)
		case 3:
			g.big = false
			c = genForward(g, cat(diffOps, allCmp), []string{"At", "Shape", "cons", "Equals", "qMax", "qStd"})
		case 4:
			c = genState(g)
		case 5:
			g.big = false
			g.prop = "C10"
			switch g.n(4) {
			case 0:
				c = genLoss(g, true)
			case 1:
				c = genAct(g, true)
			case 2:
				c = genFC(g)
			case 3:
				c = genSGD(g)
			}
		}
		if c == nil {
			return nil
		}
		var st []Step
		for _, s := range c.Steps {
			if s.Op == "gradcheck" {
				return nil
			}
			st = append(st, s)
		}
		return &Case{Prop: prop, Kind: "mutate", Steps: withMutations(g, st)}
	case "C11":
		return genTrain(g)
	case "C12":
		return genLoss(g, false)
	case "C13":
		return genLoss(g, true)
	case "C14":
		return genAct(g, false)
	case "C15":
		if g.p(0.15) {
			return genKink(g)
		}
		return genAct(g, true)
	case "C16":
		return genFC(g)
	case "C17":
		if idx == 0 {
			return &Case{Prop: prop, Kind: "sgdnil"}
		}
		return genSGD(g)
	case "C18":
		return genInit(g)
	case "C19":
		return genAcc(g)
	case "C20":
		return &Case{Prop: prop, Kind: "conc", Seed: g.r.Int63n(1 << 40), Ints: []int{g.n(3)}}
	}
	panic("harness: no property " + prop)
}

var apiN []string

func apiNames() []string {
	if apiN == nil {
		for _, a := range apiCases() {
			apiN = append(apiN, a.name)
		}
	}
	return apiN
}

type failure struct {
	Msg  string `json:"message"`
	Case *Case  `json:"case"`
	Seed int64  `json:"seed"`
	Idx  int    `json:"index"`
}

type report struct {
	Property string         `json:"property"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct_nontrivial"`
	Rule     string         `json:"rule"`
	Samples  []*Case        `json:"samples"`
	Failures []failure      `json:"failures"`
	Known    map[string]int `json:"known"`
	Ops      map[string]int `json:"ops"`
	Seconds  float64        `json:"seconds"`
}

func loadDict(file string) *dict {
	d := &dict{}
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, d)
	}
	// extreme magnitudes make sums depend on the order of addition
	var fs []fl
	for _, f := range d.Floats {
		if a := math.Abs(float64(f)); a == 0 || 1e-30 < a && a < 1e30 {
			fs = append(fs, f)
		}
	}
	d.Floats = fs
	return d
}

// worker runs every n-th case from k until the deadline, noting the index it is at in posFile.
func worker(prop string, seed int64, d *dict, k, n, start int, secs float64, posFile string, maxCases int) report {
	r := report{Property: prop, Known: map[string]int{}, Ops: map[string]int{}}
	f, err := os.OpenFile(posFile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	seen := map[uint64]bool{}
	t0 := time.Now()
	for idx := start; time.Since(t0).Seconds() < secs && r.Evals < maxCases; idx += n {
		if idx%n != k {
			idx += (k - idx%n + n) % n
		}
		fmt.Fprintf(os.Stderr, "")
		f.WriteAt([]byte(fmt.Sprintf("%-20d", idx)), 0)
		c := genCase(prop, seed, idx, d)
		if c == nil {
			continue
		}
		msg, known := runCase(c)
		r.Evals++
		if len(seen) < 300000 {
			b, _ := json.Marshal(c)
			h := fnv.New64a()
			h.Write(b)
			if !seen[h.Sum64()] {
				seen[h.Sum64()] = true
				r.Distinct++
			}
		}
		for _, s := range c.Steps {
			r.Ops[s.Op]++
		}
		if len(c.Steps) == 0 {
			r.Ops[c.Kind+" "+c.S]++
		}
		if len(r.Samples) < 2 && len(c.Steps) < 8 {
			r.Samples = append(r.Samples, c)
		}
		if known != "" {
			r.Known[known]++
		}
		if msg != "" {
			r.Failures = append(r.Failures, failure{msg, shrink(c, msg), seed, idx})
			if len(r.Failures) >= 3 {
				break
			}
		}
	}
	r.Seconds = time.Since(t0).Seconds()
	return r
}

// shrink drops steps while the case keeps failing.
func shrink(c *Case, msg string) *Case {
	if len(c.Steps) < 2 || c.Kind == "kink" || c.Kind == "single" {
		return c
	}
	best := c
	for tries := 0; tries < 3; tries++ {
		for i := len(best.Steps) - 1; i >= 0; i-- {
			n := *best
			n.Steps = nil
			ok := true
			for j, s := range best.Steps {
				if j == i {
					continue
				}
				var in []int
				for _, k := range s.In {
					if k == i {
						ok = false
					}
					if k > i {
						k--
					}
					in = append(in, k)
				}
				s.In = in
				n.Steps = append(n.Steps, s)
			}
			if !ok {
				continue
			}
			if m, _ := runCase(&n); m != "" && !strings.HasPrefix(m, "panic: harness") {
				best = &n
			}
		}
	}
	return best
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 10, "seconds per worker")
	nw := flag.Int("workers", 8, "worker processes")
	maxc := flag.Int("max", 1<<30, "cases per worker")
	dictF := flag.String("dict", "", "dictionary file")
	out := flag.String("out", "", "report file")
	dir := flag.String("dir", ".", "scratch directory")
	replay := flag.String("replay", "", "replay a case file")
	wk := flag.Int("worker", -1, "internal: run as worker")
	start := flag.Int("start", 0, "internal: first index")
	flag.Parse()
	debug.SetGCPercent(400)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var w struct {
			Case *Case `json:"case"`
		}
		var c Case
		if json.Unmarshal(b, &w) == nil && w.Case != nil {
			c = *w.Case
		} else if err := json.Unmarshal(b, &c); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		msg, known := runCase(&c)
		if known != "" {
			fmt.Println("known finding:", known)
		}
		if msg != "" {
			fmt.Println("FAILS:", msg)
			os.Exit(1)
		}
		fmt.Println("holds")
		return
	}
	d := loadDict(*dictF)
	if *wk >= 0 {
		r := worker(*prop, *seed, d, *wk, *nw, *start, *secs, fmt.Sprintf("%s/pos.%d", *dir, *wk), *maxc)
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		return
	}
	t0 := time.Now()
	total := report{Property: *prop, Known: map[string]int{}, Ops: map[string]int{}, Rule: "cases are generated from (seed, index); distinct by content; every counted case was executed on the library and compared with the reference"}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < *nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			first := 0
			end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
			for try := 0; try < 3; try++ {
				left := time.Until(end).Seconds()
				if try > 0 && left < 1 {
					return
				}
				pos := fmt.Sprintf("%s/pos.%d", *dir, k)
				cmd := exec.Command(os.Args[0], "-worker", strconv.Itoa(k), "-workers", strconv.Itoa(*nw), "-prop", *prop, "-seed", strconv.FormatInt(*seed, 10),
					"-secs", fmt.Sprint(left), "-dict", *dictF, "-dir", *dir, "-start", strconv.Itoa(first), "-max", strconv.Itoa(*maxc))
				var ob, eb strings.Builder
				cmd.Stdout, cmd.Stderr = &ob, &eb
				cmd.Start()
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				// a worker stuck on one case is a hang
				hang := false
				last, since := "", time.Now()
				var err error
			wait:
				for {
					select {
					case err = <-done:
						break wait
					case <-time.After(500 * time.Millisecond):
						b, _ := os.ReadFile(pos)
						if string(b) != last {
							last, since = string(b), time.Now()
						} else if time.Since(since) > 40*time.Second {
							hang = true
							cmd.Process.Kill()
							err = <-done
							break wait
						}
					}
				}
				var r report
				if err == nil && json.Unmarshal([]byte(ob.String()), &r) == nil {
					mu.Lock()
					total.add(&r)
					mu.Unlock()
					return
				}
				b, _ := os.ReadFile(pos)
				idx, e := strconv.Atoi(strings.TrimSpace(string(b)))
				if e != nil {
					return
				}
				msg := "the process died: " + tail(eb.String())
				if strings.Contains(eb.String(), "WARNING: DATA RACE") {
					msg = "data race: " + head(eb.String()[strings.Index(eb.String(), "WARNING: DATA RACE"):])
				}
				if hang {
					msg = "the call did not return within 40 s"
				}
				if err != nil && strings.Contains(err.Error(), "killed") && !hang {
					msg = "" // ended from outside (memory): no verdict
				}
				if msg != "" {
					mu.Lock()
					total.Failures = append(total.Failures, failure{msg, genCase(*prop, *seed, idx, d), *seed, idx})
					mu.Unlock()
				}
				first = idx + 1
			}
		}(k)
	}
	wg.Wait()
	for k := 0; k < *nw; k++ {
		os.Remove(fmt.Sprintf("%s/pos.%d", *dir, k))
	}
	total.Seconds = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(total, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("%s: %d cases, %d distinct, %d failures, known %v, %.1fs\n", *prop, total.Evals, total.Distinct, len(total.Failures), total.Known, total.Seconds)
	for i, f := range total.Failures {
		if i < 3 {
			c, _ := json.Marshal(f.Case)
			if len(c) > 600 {
				c = append(c[:600], "..."...)
			}
			fmt.Printf("  %s\n    %s\n", f.Msg, c)
		}
	}
}

func tail(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return head(s)
}

func head(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func (t *report) add(r *report) {
	t.Evals += r.Evals
	t.Distinct += r.Distinct
	t.Failures = append(t.Failures, r.Failures...)
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	for k, n := range r.Known {
		t.Known[k] += n
	}
	for k, n := range r.Ops {
		t.Ops[k] += n
	}
}
