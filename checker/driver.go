package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// finding: a construct of the analysed tree at which a rule fails (or cannot
// be decided).
type finding struct {
	Props  []string `json:"props"`
	Kind   string   `json:"kind"`
	Pos    string   `json:"pos,omitempty"`
	Fn     string   `json:"fn,omitempty"`
	Root   string   `json:"root,omitempty"`
	Detail string   `json:"detail"`
	Path   string   `json:"path,omitempty"`
	Und    bool     `json:"undecided,omitempty"`
	Known  string   `json:"known,omitempty"`
}

// jobResult: what one analysis job covered and found.
type jobResult struct {
	Job      string            `json:"job"`
	Findings []finding         `json:"findings"`
	Stats    map[string]int    `json:"stats"`
	Fns      []string          `json:"fns"`
	Facts    map[string]string `json:"facts,omitempty"`
	Err      string            `json:"err,omitempty"`
	Ms       int               `json:"ms"`
}

type reporter struct {
	res *jobResult
	dup map[string]bool
}

func (r *reporter) add(f finding) {
	k := f.Kind + "|" + f.Pos + "|" + f.Fn + "|" + f.Detail + "|" + strings.Join(f.Props, ",")
	if r.dup[k] {
		return
	}
	r.dup[k] = true
	r.res.Findings = append(r.res.Findings, f)
}

func newReporter() *reporter {
	return &reporter{res: &jobResult{Stats: map[string]int{}}, dup: map[string]bool{}}
}

// quiet: nothing but recorded findings.
func (r *reporter) quiet() bool {
	for _, f := range r.res.Findings {
		if f.Known == "" {
			return false
		}
	}
	return true
}

func (r *reporter) merge(o *reporter) {
	for _, f := range o.res.Findings {
		r.add(f)
	}
	for k, n := range o.res.Stats {
		r.stat(k, n)
	}
}

func (r *reporter) stat(k string, n int) { r.res.Stats[k] += n }

// ---------- jobs ----------

// parserJobs: every packet type (with its classes of bodies) and every
// subpacket type.
func parserJobs() []string {
	var js []string
	for tag := 0; tag < 64; tag++ {
		ps := tagParts(tag)
		if len(ps) == 1 {
			js = append(js, fmt.Sprintf("t%d", tag))
			continue
		}
		for i := range ps {
			js = append(js, fmt.Sprintf("t%d.%d", tag, i))
		}
	}
	for _, tag := range []int{2, 17} {
		for s := 0; s < 256; s++ {
			js = append(js, fmt.Sprintf("s%d.%d", s, tag))
		}
	}
	return js
}

// jobCost: rough cost in milliseconds (for balancing only).
func jobCost(j string) int {
	j = strings.TrimPrefix(j, "rev.")
	if c, ok := jobCosts[j]; ok {
		return c
	}
	switch {
	case strings.HasPrefix(j, "t2."):
		return 150
	case strings.HasPrefix(j, "t5."), strings.HasPrefix(j, "t7."):
		return 800
	case j[0] == 's':
		return 4
	case j[0] == 't':
		return 20
	}
	return 400
}

var jobCosts = map[string]int{
	"t6": 1200, "t14": 1200, "t20": 50, "s38.2": 1500, "s166.2": 1500, "t8": 600,
}

// batches distributes the jobs over n processes; the distribution depends on
// the list of jobs only, so that a run is reproducible.
func batches(js []string, n int) [][]string {
	order := append([]string(nil), js...)
	sort.SliceStable(order, func(i, k int) bool { return jobCost(order[i]) > jobCost(order[k]) })
	if n > len(js) {
		n = len(js)
	}
	out := make([][]string, n)
	load := make([]int, n)
	for _, j := range order {
		b := 0
		for i := range load {
			if load[i] < load[b] {
				b = i
			}
		}
		out[b] = append(out[b], j)
		load[b] += jobCost(j)
	}
	return out
}

// ---------- worker ----------

func (in *Interp) resetSide() {
	in.obl = map[string]*Oblig{}
	in.und = map[string]*Oblig{}
	in.writes = map[string]*Oblig{}
	in.loopSeen = map[string]*LoopRec{}
	in.extUnknown = map[string]string{}
	in.mapRanges = map[string]string{}
	in.notes = nil
	in.mute, in.absorb, in.hookOff, in.oblStack, in.ifDecs = 0, 0, 0, nil, nil
}

// sideFindings turns the obligations collected during an analysis into findings.
func (in *Interp) sideFindings(r *reporter) {
	for _, o := range in.obl {
		r.stat("obligations", 1)
		r.stat("obligation instances", o.n)
		if o.failed > 0 {
			r.add(finding{Props: []string{"C01"}, Kind: o.kind, Pos: o.pos, Fn: o.fn, Root: o.root, Detail: o.detail, Path: o.stack, Und: !o.sure})
		}
	}
	for _, o := range in.und {
		r.add(finding{Props: []string{"*"}, Kind: "undecided", Pos: o.pos, Fn: o.fn, Root: o.root, Detail: o.detail, Path: o.stack, Und: true})
	}
	for _, o := range in.writes {
		ps := []string{"C22"}
		if strings.HasPrefix(o.kind, "global") {
			ps = []string{"C09"}
		}
		r.add(finding{Props: ps, Kind: "write " + o.kind, Pos: o.pos, Fn: o.fn, Root: o.root, Detail: o.detail, Path: o.stack})
	}
	for _, o := range in.loopSeen {
		r.stat("loops", 1)
		if !o.bounded {
			r.add(finding{Props: []string{"C19"}, Kind: "loop", Pos: o.pos, Fn: o.fn, Root: o.root, Detail: o.why, Und: o.kind == "undecided"})
		}
	}
	for _, f := range in.notes {
		r.add(f)
	}
	for k, v := range in.extUnknown {
		r.add(finding{Props: []string{"*"}, Kind: "unknown library function", Pos: v, Detail: k, Und: true})
	}
}

// discount: where the analysis met a construct it does not know, what it
// derived is not certain, and a difference it sees is not reported as one.
func (in *Interp) discount(r *reporter) {
	und := len(in.und) > 0
	for _, f := range r.res.Findings {
		und = und || f.Und && hasProp(f.Props, "*") && f.Kind == "undecided"
	}
	if !und {
		return
	}
	for i := range r.res.Findings {
		r.res.Findings[i].Und = true
	}
}

// A job that takes too long is stopped; what it found in the comparison so far
// stands, what it found while still interpreting does not.
var (
	jobDeadline time.Time
	ticks       int
	comparing   bool
)

type jobTimeout struct{}

func tick() {
	ticks++
	if ticks&255 == 0 && !jobDeadline.IsZero() && time.Now().After(jobDeadline) {
		panic(jobTimeout{})
	}
}

func envSeconds(name string, def int) time.Duration {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil && n > 0 {
		def = n
	}
	return time.Duration(def) * time.Second
}

func (in *Interp) runJob(j string) (res *jobResult) {
	jobDeadline = time.Now().Add(envSeconds("VERIF_JOB_S", 100))
	comparing = false
	defer func() { jobDeadline = time.Time{} }()
	res = &jobResult{Job: j, Stats: map[string]int{}, Facts: map[string]string{}}
	rep := &reporter{res: res, dup: map[string]bool{}}
	t0 := time.Now()
	in.resetSide()
	seen := map[string]bool{}
	in.fnSeen = map[*ssa.Function]int{}
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VERIF_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
			}
			if _, ok := e.(jobTimeout); ok {
				res.Err = "the analysis took too long and was stopped"
			} else {
				res.Err = fmt.Sprint("the analysis stopped: ", e)
			}
			if comparing {
				in.discount(rep)
			} else {
				for i := range res.Findings {
					res.Findings[i].Und = true
				}
			}
		}
		for fn := range in.fnSeen {
			n := in.fnName(fn)
			if !seen[n] {
				seen[n] = true
				res.Fns = append(res.Fns, n)
			}
		}
		sort.Strings(res.Fns)
		sort.Slice(res.Findings, func(i, k int) bool {
			a, b := res.Findings[i], res.Findings[k]
			if a.Pos != b.Pos {
				return a.Pos < b.Pos
			}
			return a.Kind+a.Detail < b.Kind+b.Detail
		})
		res.Ms = int(time.Since(t0).Milliseconds())
	}()
	if f, ok := otherJobs[j]; ok {
		f(in, rep)
		in.sideFindings(rep)
		in.discount(rep)
		return
	}
	in.parserJob(j, rep)
	in.sideFindings(rep)
	in.discount(rep)
	in.small(j, rep)
	return
}

// small: where the analysis for bodies of every length could not decide, the
// bodies of a few lengths are analysed each on their own, with every loop
// expanded; what is wrong there is wrong.
func (in *Interp) small(j string, rep *reporter) {
	und := false
	for _, f := range rep.res.Findings {
		if !f.Und && f.Known == "" {
			return
		}
		und = und || f.Und && f.Kind != "unknown library function"
	}
	if !und || rep.res.Err != "" {
		return
	}
	defer func() { in.fixLen = -1 }()
	t0 := time.Now()
	limit := envSeconds("VERIF_SMALL_S", 30)
	found := 0
	for _, n := range []int{1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 22, 30} {
		if time.Since(t0) > limit || found > 0 {
			break
		}
		in.fixLen = n
		in.resetSide()
		r2 := &reporter{res: &jobResult{Job: j, Stats: map[string]int{}, Facts: map[string]string{}}, dup: map[string]bool{}}
		ok := func() (ok bool) {
			save := jobDeadline
			defer func() {
				jobDeadline = save
				if e := recover(); e != nil {
					ok = false
				}
			}()
			jobDeadline = time.Now().Add(limit / 3)
			in.parserJob(j, r2)
			in.sideFindings(r2)
			in.discount(r2)
			return r2.res.Err == ""
		}()
		if !ok {
			continue
		}
		rep.stat("body lengths analysed on their own", 1)
		for _, f := range r2.res.Findings {
			if !f.Und && f.Known == "" {
				f.Detail = fmt.Sprintf("body of %d octets: ", n) + f.Detail
				rep.add(f)
				found++
			}
		}
	}
}

func (in *Interp) parserRoot(j string) (*rootRun, error) {
	f := strings.Split(j[1:], ".")
	n, err := strconv.Atoi(f[0])
	if err != nil {
		return nil, err
	}
	if j[0] == 't' {
		var pt *partition
		if len(f) > 1 {
			k, _ := strconv.Atoi(f[1])
			pt = tagParts(n)[k]
		} else if ps := tagParts(n); len(ps) == 1 {
			pt = ps[0]
		}
		return in.rootTag(n, pt)
	}
	tg := 2
	if len(f) > 1 {
		tg, _ = strconv.Atoi(f[1])
	}
	return in.rootSub(tg, n)
}

func (in *Interp) parserJob(j string, rep *reporter) {
	r, err := in.parserRoot(j)
	if err != nil {
		rep.res.Err = err.Error()
		return
	}
	rep.stat("roots", 1)
	rep.stat("outcomes", len(r.outs))
	for _, o := range r.outs {
		if tv, ok := o.v.(TupleV); ok && len(tv) == 2 && !isNilV(tv[1]) {
			rep.stat("error outcomes", 1)
		}
	}
	in.compareRun(r, rep)
}

func setup() (*Interp, error) {
	p, err := loadProgram()
	if err != nil {
		return nil, err
	}
	in := newInterp(p)
	if err := in.initPackages(); err != nil {
		return nil, err
	}
	if err := in.setupContracts(); err != nil {
		return nil, err
	}
	return in, nil
}

func worker(jobs []string) {
	debug.SetGCPercent(400)
	enc := json.NewEncoder(os.Stdout)
	in, err := setup()
	if err != nil {
		enc.Encode(&jobResult{Job: "setup", Err: err.Error()})
		return
	}
	for _, j := range jobs {
		if strings.HasPrefix(j, "rev.") {
			enc.Encode(in.reversed(j[4:]))
			continue
		}
		enc.Encode(in.runJob(j))
	}
}

// ---------- driver ----------

type runResult struct {
	results []*jobResult
	failed  []string
}

// runJobs: violation tells whether a finding decides the property, so that
// the remaining jobs need not be waited for.
func runJobs(js []string, procs int, jobLimit int, violation func(f *finding) bool) *runResult {
	rr := &runResult{}
	limit := 700 * time.Second
	if jobLimit > 100 {
		limit = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	var grace *time.Timer
	bs := batches(js, procs)
	self, _ := os.Executable()
	var mu sync.Mutex
	var wg sync.WaitGroup
	par := make(chan bool, 8)
	for _, b := range bs {
		b := b
		wg.Add(1)
		go func() {
			defer wg.Done()
			par <- true
			defer func() { <-par }()
			cmd := exec.CommandContext(ctx, self, append([]string{"-worker"}, b...)...)
			cmd.Stderr = os.Stderr
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", fmt.Sprintf("VERIF_JOB_S=%d", jobLimit))
			out, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			got := map[string]bool{}
			if err == nil {
				dec := json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
				for {
					var r jobResult
					if dec.Decode(&r) != nil {
						break
					}
					mu.Lock()
					rr.results = append(rr.results, &r)
					for i := range r.Findings {
						if grace == nil && violation != nil && violation(&r.Findings[i]) {
							grace = time.AfterFunc(40*time.Second, cancel)
						}
					}
					mu.Unlock()
					got[r.Job] = true
				}
				err = cmd.Wait()
			}
			mu.Lock()
			for _, j := range b {
				if !got[j] && !got["setup"] {
					rr.failed = append(rr.failed, j)
				}
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	idx := map[string]int{}
	for i, j := range js {
		idx[j] = i
	}
	sort.SliceStable(rr.results, func(i, k int) bool { return idx[rr.results[i].Job] < idx[rr.results[k].Job] })
	sort.Strings(rr.failed)
	return rr
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p || x == "*" {
			return true
		}
	}
	return false
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-worker" {
		worker(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-dump" {
		dumpMain(os.Args[2:])
		return
	}
	prop := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "directory of the framework")
	jobsFlag := flag.String("jobs", "", "comma-separated jobs (debugging)")
	all := flag.Bool("all", false, "print the findings of all properties (debugging)")
	flag.Parse()
	t0 := time.Now()
	if *jobsFlag != "" || *all {
		js := strings.Split(*jobsFlag, ",")
		if *all {
			js = allJobs()
		}
		rr := runJobs(js, 8, 100, nil)
		sum := 0
		for _, r := range rr.results {
			if r.Err != "" {
				fmt.Println("ERR", r.Job, r.Err)
			}
			sum += r.Ms
			if os.Getenv("VERIF_MS") != "" {
				fmt.Println("MS", r.Ms, r.Job, r.Stats)
			}
			for _, f := range r.Findings {
				fmt.Printf("%s %v und=%v %s %s %s: %s [%s]\n", r.Job, f.Props, f.Und, f.Kind, f.Pos, f.Fn, clip(f.Detail, 900), clip(f.Path, pathClip()))
			}
		}
		fmt.Println("failed:", rr.failed, "jobs:", len(rr.results), "cpu ms:", sum, "wall:", time.Since(t0))
		return
	}
	pd := propByID(*prop)
	if pd == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(decide(pd, *tier, *verif, t0))
}

// decide runs the jobs of a property, writes the evidence and reports.
func decide(pd *propDef, tier, verif string, t0 time.Time) int {
	js := pd.jobs(tier)
	jl := 100
	if tier == "thorough" {
		jl = 600
	}
	rr := runJobs(js, 8, jl, func(f *finding) bool { return hasProp(f.Props, pd.id) && !f.Und && f.Known == "" })
	var viol, und []finding
	var known []finding
	stats := map[string]int{}
	fns := map[string]bool{}
	var errs []string
	for _, r := range rr.results {
		if r.Err != "" {
			errs = append(errs, r.Job+": "+r.Err)
		}
		for k, n := range r.Stats {
			stats[k] += n
		}
		for _, f := range r.Fns {
			fns[f] = true
		}
		for _, f := range r.Findings {
			if !hasProp(f.Props, pd.id) {
				continue
			}
			switch {
			case f.Und:
				und = append(und, f)
			case f.Known != "":
				known = append(known, f)
			default:
				viol = append(viol, f)
			}
		}
	}
	stats["functions analysed"] = len(fns)
	for _, j := range rr.failed {
		errs = append(errs, j+": the analysis did not finish")
	}
	kf := loadKnown(filepath.Join(verif, "known-findings.txt"))
	knownSeen := map[string]bool{}
	for _, f := range known {
		if txt, ok := kf[pd.id+" "+f.Known]; ok {
			if !knownSeen[f.Known] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", pd.id, txt)
			}
			knownSeen[f.Known] = true
		} else {
			viol = append(viol, f)
		}
	}
	for _, e := range errs {
		fmt.Println("NOT-DECIDED:", e)
	}
	seenU := map[string]bool{}
	for _, f := range und {
		s := fmt.Sprintf("%s %s %s: %s", f.Kind, f.Pos, f.Fn, clip(f.Detail, 200))
		if !seenU[s] {
			seenU[s] = true
			if len(seenU) <= 20 {
				fmt.Println("NOT-DECIDED:", s)
			}
		}
	}
	// floors: an analysis that covers much less than expected decides nothing
	for k, n := range pd.floors {
		if stats[k] < n && len(errs) == 0 && len(viol) == 0 {
			errs = append(errs, fmt.Sprintf("only %d %s were analysed (expected at least %d)", stats[k], k, n))
			fmt.Println("NOT-DECIDED:", errs[len(errs)-1])
		}
	}
	exit := 0
	var ev []string
	if len(viol) > 0 {
		exit = 1
		dir := filepath.Join(verif, "evidence")
		os.MkdirAll(dir, 0o755)
		rp := filepath.Join(dir, "replay-"+pd.id+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %s\n", pd.id, pd.title)
		fmt.Fprintf(&sb, "rule: %s\n", pd.rule)
		fmt.Fprintf(&sb, "replay: cd /verif && sh run.sh %s %s\n\n", pd.id, tier)
		for i, f := range viol {
			if i >= 60 {
				fmt.Fprintf(&sb, "... and %d more\n", len(viol)-i)
				break
			}
			fmt.Fprintf(&sb, "%s\n  at %s %s\n  analysed: %s\n  %s\n", f.Kind, f.Pos, f.Fn, f.Root, f.Detail)
			if f.Path != "" {
				fmt.Fprintf(&sb, "  path: %s\n", f.Path)
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, f := range viol {
			if i < 8 {
				fmt.Printf("%s: %s %s %s: %s\n", f.Kind, f.Pos, f.Fn, f.Root, clip(f.Detail, 600))
			}
			ev = append(ev, fmt.Sprintf("%s %s %s: %s", f.Kind, f.Pos, f.Root, clip(f.Detail, 300)))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pd.id, rp)
	}
	writeEvidence(pd, tier, verif, stats, len(js), len(viol), errs, und, knownSeen, time.Since(t0).Seconds(), rr)
	if exit == 0 {
		fmt.Printf("property %s holds on everything analysed: %d jobs, %d functions, %.1f s\n", pd.id, len(js), len(fns), time.Since(t0).Seconds())
	}
	return exit
}

func loadKnown(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <what fails>
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			out[f[0]+" "+strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return out
}

func treeHash() string {
	h := sha256.New()
	var fs []string
	filepath.Walk(repoDir(), func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() && i.Name() == ".git" {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") {
			fs = append(fs, p)
		}
		return nil
	})
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		fmt.Fprintf(h, "%s %d\n", f, len(b))
		h.Write(b)
	}
	return fmt.Sprintf("%x", h.Sum(nil))[:16]
}

func pathClip() int {
	if os.Getenv("VERIF_LONG") != "" {
		return 100000
	}
	return 200
}
