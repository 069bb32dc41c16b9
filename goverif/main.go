package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"sync"
	"syscall"
	"time"
)

func allUnits(ex *Exec) []*unit {
	initLayout(ex)
	initOps()
	fills := ex.findGenFns()
	for _, g := range fills {
		ex.contracts[shortName(g.fn)] = g.rule
	}
	for _, s := range opList {
		f := s.function(ex)
		if f != nil {
			ex.contracts[shortName(f)] = applyOp(s)
		}
	}
	var us []*unit
	for r := 0; r <= 6; r++ {
		us = append(us, &unit{name: fmt.Sprintf("filling a tensor of rank %d from a generator", r), props: []string{"C03", "C04", "C05", "C06", "C09"}, run: func(u *ur) {
			// a function whose body does not meet the contract is executed instead
			// of being replaced by it
			why := "no function fills a tensor from a generator"
			for _, g := range fills {
				if why = g.proved[r]; why == "" {
					break
				}
			}
			if why != "" {
				u.soft(why)
				return
			}
			u.ob("C03 C04 C05 C06 C09", "fills every position once, in row-major order", true, "")
		}})
	}
	for _, s := range opList {
		us = append(us, s.units()...)
	}
	us = append(us, moreUnits(ex)...)
	return us
}

// worker executes the units named on stdin and prints one result per line.
func worker() {
	ex, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	by := map[string]*unit{}
	for _, u := range allUnits(ex) {
		by[u.name] = u
	}
	out := json.NewEncoder(os.Stdout)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		out.Encode(runUnit(ex, by[sc.Text()]))
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// dieWithParent makes the kernel end a child when this process ends, so no
// solver outlives the run that started it.
func dieWithParent() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
}

func startProc() *proc {
	c := exec.Command(os.Args[0], "-worker", "-repo", repoDir)
	c.Stderr = os.Stderr
	c.SysProcAttr = dieWithParent()
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &proc{c, in, bufio.NewReaderSize(out, 1<<20)}
}

func (p *proc) run(name string, limit time.Duration) *UnitResult {
	fmt.Fprintln(p.in, name)
	ch := make(chan []byte, 1)
	go func() {
		l, err := p.out.ReadBytes('\n')
		if err != nil {
			l = nil
		}
		ch <- l
	}()
	fail := func(why string, props ...string) *UnitResult {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		if extraUnit[name] {
			return &UnitResult{Unit: name, Extra: true, Skip: why, Ms: limit.Milliseconds()}
		}
		return &UnitResult{Unit: name, Err: why, Ms: limit.Milliseconds(), Obs: []*Oblig{{Unit: name, Name: "unit verified", Why: why, Count: 1}}}
	}
	select {
	case l := <-ch:
		var r UnitResult
		if l == nil || json.Unmarshal(l, &r) != nil {
			return fail("verifier process ended unexpectedly")
		}
		return &r
	case <-time.After(limit):
		return fail(fmt.Sprintf("no proof within %s", limit))
	}
}

// propUnits verifies the units that state obligations of the property and, until
// nothing new is used, the units that prove the contract instances they rely on.
func propUnits(us []*unit, prop string, n int, limit time.Duration, each func(*UnitResult)) []*UnitResult {
	by := map[string][]string{}
	done := map[string]bool{}
	var next []string
	for _, u := range us {
		for _, k := range u.provides {
			by[k] = append(by[k], u.name)
		}
		for _, p := range u.props {
			if p == prop && !done[u.name] {
				done[u.name] = true
				next = append(next, u.name)
			}
		}
	}
	var res []*UnitResult
	gap := map[string]bool{}
	// units that widen the shapes covered run when everything else is settled
	var later []string
	hold := func() {
		var now []string
		for _, m := range next {
			if extraUnit[m] {
				later = append(later, m)
			} else {
				now = append(now, m)
			}
		}
		next = now
	}
	direct := map[string]bool{}
	for _, m := range next {
		direct[m] = true
	}
	hold()
	for phase := 0; phase < 2; phase++ {
		for len(next) > 0 {
			if phase == 1 {
				for _, m := range next {
					extraUnit[m] = true
				}
			}
			rs := runUnits(next, n, limit, each)
			next = nil
			for _, r := range rs {
				r.Dep = !direct[r.Unit]
				res = append(res, r)
				for _, k := range r.Insts {
					names := by[k]
					if len(names) == 0 {
						gap[k] = true
					}
					for _, m := range names {
						if !done[m] {
							done[m] = true
							next = append(next, m)
						}
					}
				}
			}
			sort.Strings(next)
			if phase == 0 {
				hold()
			}
		}
		next = later
		if extraTime > 0 {
			extraDeadline = time.Now().Add(extraTime)
		}
	}
	for k := range gap {
		res = append(res, &UnitResult{Unit: "uncovered: " + k, Gap: k})
	}
	return res
}

var (
	deadline, extraDeadline time.Time
	extraTime               time.Duration // for all extra units
	extraUnit               = map[string]bool{}
)

// runUnits verifies the named units on n processes.
func runUnits(names []string, n int, limit time.Duration, each func(*UnitResult)) []*UnitResult {
	var mu sync.Mutex
	next := 0
	names = append([]string(nil), names...)
	sort.SliceStable(names, func(i, j int) bool { return !extraUnit[names[i]] && extraUnit[names[j]] })
	res := make([]*UnitResult, len(names))
	var wg sync.WaitGroup
	for k := 0; k < n && k < len(names); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(names) {
					break
				}
				lim := limit
				if left := time.Until(deadline); !deadline.IsZero() && left < lim {
					lim = left
				}
				if extraUnit[names[i]] {
					lim = min(lim, limit/2)
					if left := time.Until(extraDeadline); !extraDeadline.IsZero() && left < time.Second {
						mu.Lock()
						res[i] = &UnitResult{Unit: names[i], Extra: true, Skip: "not attempted"}
						mu.Unlock()
						continue
					}
				}
				if lim < time.Second {
					lim = time.Second
				}
				if p == nil {
					p = startProc()
				}
				r := p.run(names[i], lim)
				if p.cmd.ProcessState != nil {
					p = nil
				}
				mu.Lock()
				res[i] = r
				if each != nil {
					each(r)
				}
				mu.Unlock()
			}
			if p != nil {
				p.in.Close()
				p.cmd.Wait()
			}
		}()
	}
	wg.Wait()
	return res
}

func main() {
	isWorker := flag.Bool("worker", false, "")
	list := flag.Bool("list", false, "list the units")
	pat := flag.String("units", "", "run the units matching this pattern")
	jobs := flag.Int("j", runtime.NumCPU(), "")
	limit := flag.Duration("t", 60*time.Second, "limit per unit")
	one := flag.String("one", "", "run one unit in this process")
	prop := flag.String("prop", "", "run the units of this property and those whose contracts they use")
	budget := flag.Duration("budget", 10*time.Minute, "limit for the whole run")
	deep := flag.Bool("deep", false, "with the units of the thorough tier")
	flag.DurationVar(&extraTime, "extra", 0, "limit for the units that widen the shapes covered")
	outJSON := flag.String("json", "", "write the results here")
	verbose := flag.Bool("v", false, "")
	dev := flag.Bool("dev", false, "")
	bpFlag := flag.Bool("bp", false, "show the obligations of back-propagation over every graph")
	flag.StringVar(&repoDir, "repo", repoDir, "")
	flag.Parse()
	if *bpFlag {
		bpDev()
		return
	}
	if f := os.Getenv("GOVERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	if *isWorker {
		worker()
		return
	}
	ex, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *dev {
		testInit(ex)
		return
	}
	var us []*unit
	for _, u := range allUnits(ex) {
		if u.deep && !*deep {
			continue
		}
		us = append(us, u)
		extraUnit[u.name] = u.extra
	}
	if *list {
		for _, u := range us {
			fmt.Println(u.name, u.props)
		}
		return
	}
	if *one != "" {
		for _, u := range us {
			if u.name == *one {
				show(runUnit(ex, u), true)
			}
		}
		return
	}
	re := regexp.MustCompile(*pat)
	var names []string
	for _, u := range us {
		if re.MatchString(u.name) {
			names = append(names, u.name)
		}
	}
	t0 := time.Now()
	deadline = t0.Add(*budget)
	each := func(r *UnitResult) { show(r, *verbose) }
	var res []*UnitResult
	if *prop != "" {
		res = propUnits(us, *prop, *jobs, *limit, each)
	} else {
		res = runUnits(names, *jobs, *limit, each)
	}
	ok, bad, obs := 0, 0, 0
	var total int64
	for _, r := range res {
		good := true
		for _, o := range r.Obs {
			obs++
			good = good && o.OK
		}
		if good {
			ok++
		} else {
			bad++
		}
		total += r.Ms
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Ms > res[j].Ms })
	for i := 0; i < 12 && i < len(res); i++ {
		fmt.Printf("  slow %6d ms %s\n", res[i].Ms, res[i].Unit)
	}
	fmt.Printf("%d units ok, %d not, %d obligations, %.1f s cpu, %.1f s\n", ok, bad, obs, float64(total)/1000, time.Since(t0).Seconds())
	if *outJSON != "" {
		b, _ := json.Marshal(res)
		os.WriteFile(*outJSON, b, 0o644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func show(r *UnitResult, verbose bool) {
	bad := false
	for _, o := range r.Obs {
		bad = bad || !o.OK
	}
	if r.Skip != "" || len(r.Soft) > 0 {
		fmt.Printf("%s  undecided: %s %q\n", r.Unit, r.Skip, r.Soft)
	}
	if !bad && !verbose {
		return
	}
	fmt.Printf("%s  %d ms, %d paths\n", r.Unit, r.Ms, r.Paths)
	for _, o := range r.Obs {
		if o.OK {
			if verbose {
				fmt.Printf("    ok   %s (%d) %v\n", o.Name, o.Count, o.Props)
			}
			continue
		}
		fmt.Printf("    FAIL %s %v\n         %s\n", o.Name, o.Props, o.Why)
	}
}
