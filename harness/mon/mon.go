// Package mon runs monitored cases: a parent shards them over worker processes, so that a crash,
// a hang or runaway memory in the code under test is attributed to the case that caused it.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	_ "time/tzdata"
)

// Group is a numbered family of cases.
type Group struct {
	Name  string
	Quick int // number of cases
	Deep  int // number of cases in the thorough tier
	Run   func(c *Ctx, i int)
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Groups      []Group
	Workers     int           // 0: one per core
	Procs       int           // GOMAXPROCS of a worker, 0: 2
	Hang        time.Duration // watchdog per case
	Env         []string
	MinCounts   map[string]int64 // a run that observed less than this saw too little to be believed
	// Scan looks at a worker's stderr (race and sanitizer reports) and returns a violation message.
	Scan func(stderr string) string
}

type Failure struct {
	Property string `json:"property"`
	Group    string `json:"group"`
	Index    int    `json:"index"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Msg      string `json:"msg"`
	Src      string `json:"src,omitempty"`
	Key      string `json:"key"`
}

type result struct {
	Evaluations int64            `json:"evaluations"`
	Counts      map[string]int64 `json:"counts"`
	Failures    []Failure        `json:"failures"`
	Samples     []string         `json:"samples"`
}

// Ctx is what a case sees.
type Ctx struct {
	R     *rand.Rand
	Tier  string
	Seed  uint64
	chk   *Check
	group string
	index int
	res   *result
	seen  map[uint64]struct{}
}

type failPanic struct{ f Failure }

// Fail ends the case with a violation.
func (c *Ctx) Fail(src, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	panic(failPanic{c.failure(src, msg)})
}

// FailKey is Fail with a key of its own, which a known finding can name.
func (c *Ctx) FailKey(key, src, format string, a ...interface{}) {
	f := c.failure(src, fmt.Sprintf(format, a...))
	f.Key = key
	panic(failPanic{f})
}

func (c *Ctx) failure(src, msg string) Failure {
	h := fnv.New64a()
	h.Write([]byte(src))
	return Failure{Property: c.chk.ID, Group: c.group, Index: c.index, Seed: c.Seed, Tier: c.Tier, Msg: clip(msg, 4000), Src: clip(src, 1<<20), Key: fmt.Sprintf("%s/%016x", c.group, h.Sum64())}
}

type skipPanic struct{ why string }

// Skip ends the case without a verdict.
func (c *Ctx) Skip(why string) { panic(skipPanic{why}) }

// Eval counts n oracle evaluations.
func (c *Ctx) Eval(n int) { c.res.Evaluations += int64(n) }

// Count adds to a named counter of observed events.
func (c *Ctx) Count(name string, n int) { c.res.Counts[name] += int64(n) }

// Seen records a distinct non-trivial case.
func (c *Ctx) Seen(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.seen[h.Sum64()] = struct{}{}
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.res.Samples) < 4 && c.index < 40 {
		c.res.Samples = append(c.res.Samples, clip(c.group+": "+fmt.Sprintf(format, a...), 400))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "?") + "…"
	}
	return s
}

func (c *Check) total(tier string) int {
	t := 0
	for i := range c.Groups {
		t += c.Groups[i].n(tier)
	}
	return t
}

func (g *Group) n(tier string) int {
	if tier == "thorough" {
		if g.Deep == 0 {
			return g.Quick
		}
		return g.Deep
	}
	return g.Quick
}

func (c *Check) locate(seq int, tier string) (*Group, int) {
	for i := range c.Groups {
		n := c.Groups[i].n(tier)
		if seq < n {
			return &c.Groups[i], seq
		}
		seq -= n
	}
	return nil, 0
}

var zones = func() []*time.Location {
	z := []*time.Location{time.UTC, time.FixedZone("MSK", 3*3600), time.FixedZone("X", -(9*3600 + 1800))}
	for _, name := range []string{"Europe/Berlin", "America/Sao_Paulo"} {
		if l, err := time.LoadLocation(name); err == nil {
			z = append(z, l)
		}
	}
	return z
}()

func runCase(chk *Check, c *Ctx, g *Group, i int) (f *Failure) {
	h := fnv.New64a()
	h.Write([]byte(chk.ID + "/" + g.Name))
	c.R = rand.New(rand.NewPCG(c.Seed^h.Sum64(), uint64(i)*0x9e3779b97f4a7c15+1))
	c.group, c.index = g.Name, i
	time.Local = zones[(i/7+i)%len(zones)] // results may not depend on the zone of the process
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if fp, ok := e.(failPanic); ok {
			f = &fp.f
			return
		}
		if sp, ok := e.(skipPanic); ok {
			c.Count("skipped_"+sp.why, 1)
			return
		}
		ff := c.failure(c.current(), fmt.Sprintf("panic: %v\n%s", e, debug.Stack()))
		f = &ff
	}()
	g.Run(c, i)
	return nil
}

var curSrc string

// Doing notes the text being processed, for the report of a panic.
func (c *Ctx) Doing(src string) { curSrc = src }

func (c *Ctx) current() string { return curSrc }

// ---- entry point ----

// Probe is what a fresh process runs for a case that wants one.
var Probe = func(spec string) {}

func Main(checks map[string]*Check) {
	var (
		id     = flag.String("id", "", "property")
		worker = flag.Bool("worker", false, "")
		shard  = flag.Int("shard", 0, "")
		of     = flag.Int("of", 1, "")
		from   = flag.Int("from", 0, "")
		one    = flag.Int("one", -1, "run one case")
		dir    = flag.String("dir", "", "")
		root   = flag.String("root", "/verif", "")
		replay = flag.String("replay", "", "replay file")
		probe  = flag.String("probe", "", "")
		only   = flag.String("group", "", "run only this group (development)")
	)
	flag.Parse()
	if *probe != "" {
		Probe(*probe)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = uint64(s)
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var f Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(replayOne(checks[f.Property], f))
	}
	chk := checks[*id]
	if chk == nil {
		fmt.Println("unknown property", *id)
		os.Exit(2)
	}
	if *only != "" {
		var keep []Group
		for _, g := range chk.Groups {
			if g.Name == *only {
				keep = append(keep, g)
			}
		}
		chk.Groups = keep
	}
	if *worker {
		runWorker(chk, tier, seed, *shard, *of, *from, *one, *dir, *root)
		return
	}
	os.Exit(runParent(chk, tier, seed, *root, *only))
}

func replayOne(chk *Check, f Failure) int {
	c := &Ctx{Tier: f.Tier, Seed: f.Seed, chk: chk, res: &result{Counts: map[string]int64{}}, seen: map[uint64]struct{}{}}
	for i := range chk.Groups {
		if chk.Groups[i].Name == f.Group {
			if got := runCase(chk, c, &chk.Groups[i], f.Index); got != nil {
				fmt.Fprintf(os.Stderr, "reproduced: %s\n--- text ---\n%s\n", got.Msg, got.Src)
				return 1
			}
			fmt.Fprintln(os.Stderr, "not reproduced")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such group", f.Group)
	return 2
}

// realStdout keeps descriptor 1 from being closed when nothing else refers to it.
var realStdout *os.File

func runWorker(chk *Check, tier string, seed uint64, shard, of, from, one int, dir, root string) {
	known := map[string]bool{}
	for k := range loadKnown(filepath.Join(root, "KNOWN_FINDINGS.txt"), chk.ID) {
		known[k] = true
	}
	if chk.Procs == 0 {
		runtime.GOMAXPROCS(2)
	} else {
		runtime.GOMAXPROCS(chk.Procs)
	}
	// the code under test reports undecodable characters on stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		realStdout, os.Stdout = os.Stdout, null
	}
	name := fmt.Sprintf("%s/w%d", dir, shard)
	prog, err := os.OpenFile(name+".prog", os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	c := &Ctx{Tier: tier, Seed: seed, chk: chk, res: &result{Counts: map[string]int64{}}, seen: map[uint64]struct{}{}}
	begin := time.Now()
	var buf [8]byte
	total := chk.total(tier)
	stop := filepath.Join(dir, "stop")
	run := func(seq int) {
		binary.LittleEndian.PutUint64(buf[:], uint64(seq)+1)
		prog.WriteAt(buf[:], 0)
		g, i := chk.locate(seq, tier)
		if f := runCase(chk, c, g, i); f != nil && len(c.res.Failures) < 20 {
			c.res.Failures = append(c.res.Failures, *f)
			if !known[f.Key] {
				os.WriteFile(stop, nil, 0644)
			}
		}
	}
	if one >= 0 {
		run(one)
	} else {
		for seq := from; seq < total; seq++ {
			if seq%of == shard {
				if tier == "quick" && time.Since(begin) > budget {
					c.res.Counts["cases_cut_by_time"] += int64((total - seq + of - 1) / of)
					break
				}
				run(seq)
				if len(c.res.Failures) >= 20 || exists(stop) {
					break
				}
			}
		}
	}
	hb := make([]byte, 0, 8*len(c.seen))
	for h := range c.seen {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	must(os.WriteFile(name+".hash", hb, 0644))
	b, err := json.Marshal(c.res)
	must(err)
	must(os.WriteFile(name+".tmp", b, 0644))
	must(os.Rename(name+".tmp", name+".json"))
}

func exists(f string) bool {
	_, err := os.Stat(f)
	return err == nil
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type outcome struct {
	res    *result
	hashes []byte
	crash  string // why it died
	seq    int    // case it was at
	stderr string
}

const (
	stopped  = "stopped: a violation was found elsewhere"
	memLimit = 6 << 30
	// a quick run on a very slow machine does fewer cases instead of running into its time limit
	budget = 400 * time.Second
)

// launch runs one worker process to its end.
func launch(chk *Check, args []string, dir string, shard int, hang time.Duration) outcome {
	name := fmt.Sprintf("%s/w%d", dir, shard)
	os.Remove(name + ".json")
	os.Remove(name + ".prog")
	os.Remove(name + ".hash")
	errf, err := os.Create(name + ".err")
	must(err)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stderr = errf
	cmd.Env = append(append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=3GiB"), chk.Env...)
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	why := ""
	lastSeq, since := uint64(0), cpuTime(cmd.Process.Pid)
	wall := time.Now()
	var stopping time.Time
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			seq := readProg(name + ".prog")
			cpu := cpuTime(cmd.Process.Pid)
			if seq != lastSeq {
				lastSeq, since, wall = seq, cpu, time.Now()
			} else if why == "" && (cpu-since > hang || time.Since(wall) > 4*hang || time.Since(wall) > time.Minute && cpu-since < time.Second && !hasChild(cmd.Process.Pid)) {
				why = fmt.Sprintf("no progress for %v of CPU time (%v elapsed)", cpu-since, time.Since(wall).Round(time.Second))
				cmd.Process.Signal(syscall.SIGQUIT)
				time.AfterFunc(3*time.Second, func() { cmd.Process.Kill() })
			}
			if why == "" && exists(filepath.Join(dir, "stop")) {
				if stopping.IsZero() {
					stopping = time.Now()
				} else if time.Since(stopping) > 15*time.Second {
					why = stopped
					cmd.Process.Kill()
				}
			}
			if why == "" && rss(cmd.Process.Pid) > memLimit {
				why = "memory use above 6 GiB"
				cmd.Process.Kill()
			}
		}
	}
	errf.Close()
	o := outcome{seq: int(readProg(name+".prog")) - 1}
	eb, _ := os.ReadFile(name + ".err")
	o.stderr = string(eb)
	if b, err := os.ReadFile(name + ".json"); err == nil && why == "" {
		o.res = &result{}
		must(json.Unmarshal(b, o.res))
		o.hashes, _ = os.ReadFile(name + ".hash")
		return o
	}
	if why == "" {
		why = fmt.Sprintf("process died: %v", werr)
	}
	o.crash = why
	return o
}

func readProg(f string) uint64 {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond
}

// hasChild tells whether a process waits for one it started itself.
func hasChild(pid int) bool {
	stats, _ := filepath.Glob("/proc/[0-9]*/stat")
	for _, f := range stats {
		b, _ := os.ReadFile(f)
		s := string(b)
		if fs := strings.Fields(s[strings.LastIndexByte(s, ')')+1:]); len(fs) > 1 && fs[1] == strconv.Itoa(pid) {
			return true
		}
	}
	return false
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func runParent(chk *Check, tier string, seed uint64, root, only string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+chk.ID+"-")
	must(err)
	defer os.RemoveAll(dir)
	n := chk.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	total := chk.total(tier)
	if n > total {
		n = total
	}
	hang := chk.Hang
	if hang == 0 {
		hang = 40 * time.Second
	}
	base := []string{"-id", chk.ID, "-root", root, "-worker", "-dir", dir, "-of", strconv.Itoa(n)}
	if only != "" {
		base = append(base, "-group", only)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	agg := &result{Counts: map[string]int64{}}
	seen := map[uint64]struct{}{}
	var notes []string
	merge := func(o outcome) {
		mu.Lock()
		defer mu.Unlock()
		agg.Evaluations += o.res.Evaluations
		for k, v := range o.res.Counts {
			agg.Counts[k] += v
		}
		agg.Failures = append(agg.Failures, o.res.Failures...)
		agg.Samples = append(agg.Samples, o.res.Samples...)
		for i := 0; i+8 <= len(o.hashes); i += 8 {
			seen[binary.LittleEndian.Uint64(o.hashes[i:])] = struct{}{}
		}
		if chk.Scan != nil {
			if m := chk.Scan(o.stderr); m != "" {
				agg.Failures = append(agg.Failures, Failure{Property: chk.ID, Group: "sanitizer", Seed: seed, Tier: tier, Msg: clip(m, 20000), Key: "sanitizer"})
			}
		}
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := 0
			for attempt := 0; attempt < 4; attempt++ {
				args := append(append([]string(nil), base...), "-shard", strconv.Itoa(w), "-from", strconv.Itoa(from))
				o := launch(chk, args, dir, w, hang)
				if o.res != nil {
					merge(o)
					return
				}
				if o.crash == stopped {
					return
				}
				if chk.Scan != nil {
					if m := chk.Scan(o.stderr); m != "" {
						mu.Lock()
						agg.Failures = append(agg.Failures, Failure{Property: chk.ID, Group: "sanitizer", Seed: seed, Tier: tier, Msg: clip(m, 20000), Key: "sanitizer"})
						mu.Unlock()
						return
					}
				}
				if o.seq < 0 {
					mu.Lock()
					notes = append(notes, fmt.Sprintf("worker %d died before its first case: %s\n%s", w, o.crash, clip(o.stderr, 3000)))
					mu.Unlock()
					continue
				}
				// alone, with a longer watchdog: only what happens again is a violation
				again := launch(chk, append(append([]string(nil), base...), "-shard", strconv.Itoa(1000+w), "-one", strconv.Itoa(o.seq)), dir, 1000+w, hang*3/2)
				if again.crash == stopped {
					return
				}
				g, i := chk.locate(o.seq, tier)
				mu.Lock()
				if again.res == nil {
					agg.Failures = append(agg.Failures, Failure{Property: chk.ID, Group: g.Name, Index: i, Seed: seed, Tier: tier, Key: fmt.Sprintf("%s#%d", g.Name, i),
						Msg: "crash, hang or runaway memory: " + again.crash + "\n" + clip(again.stderr, 3500)})
					os.WriteFile(filepath.Join(dir, "stop"), nil, 0644)
				} else {
					notes = append(notes, fmt.Sprintf("worker %d died at %s#%d (%s) but the case ran to its end alone: inconclusive", w, g.Name, i, o.crash))
					agg.Failures = append(agg.Failures, again.res.Failures...)
				}
				mu.Unlock()
				from = o.seq + 1
				mu.Lock()
				enough := len(agg.Failures) > 0
				mu.Unlock()
				if enough {
					return
				}
			}
		}(w)
	}
	wg.Wait()

	known := loadKnown(filepath.Join(root, "KNOWN_FINDINGS.txt"), chk.ID)
	var viol []Failure
	knownHit := map[string]bool{}
	sort.SliceStable(agg.Failures, func(i, j int) bool {
		a, b := agg.Failures[i], agg.Failures[j]
		return a.Group < b.Group || a.Group == b.Group && a.Index < b.Index
	})
	for _, f := range agg.Failures {
		if what, ok := known[f.Key]; ok {
			knownHit[what] = true
			continue
		}
		viol = append(viol, f)
	}
	for what := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, what)
	}
	inconclusive := false
	if len(viol) == 0 && only == "" {
		for k, min := range chk.MinCounts {
			if agg.Counts[k] < min {
				fmt.Printf("inconclusive: only %d of at least %d %q were observed\n", agg.Counts[k], min, k)
				notes = append(notes, "too few events: "+k)
				inconclusive = true
			}
		}
	}

	groups := map[string]int{}
	for i := range chk.Groups {
		groups[chk.Groups[i].Name] = chk.Groups[i].n(tier)
	}
	sort.Strings(agg.Samples)
	agg.Samples = pickSamples(agg.Samples)
	ev := map[string]interface{}{
		"property": chk.ID, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": agg.Evaluations, "distinct_nontrivial": len(seen), "rule": chk.Rule,
			"samples": agg.Samples, "observed": agg.Counts, "case_groups": groups, "workers": n, "notes": notes,
		},
		"assumptions": chk.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	if only == "" {
		must(os.MkdirAll(filepath.Join(root, "evidence"), 0755))
		must(os.WriteFile(filepath.Join(root, "evidence", chk.ID+".json"), append(b, '\n'), 0644))
	} else {
		fmt.Println(string(b))
	}
	for _, s := range notes {
		fmt.Println("note:", s)
	}
	if len(viol) > 0 {
		rdir := filepath.Join(root, "out", "replay")
		must(os.MkdirAll(rdir, 0755))
		for i, f := range viol {
			if i >= 3 {
				fmt.Printf("... and %d more\n", len(viol)-3)
				break
			}
			file := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", f.Property, f.Group, f.Index))
			fb, _ := json.MarshalIndent(f, "", " ")
			must(os.WriteFile(file, fb, 0644))
			fmt.Printf("%s case %s#%d: %s\n", f.Property, f.Group, f.Index, clip(f.Msg, 1500))
			if f.Src != "" {
				fmt.Printf("text: %s\n", strconv.Quote(clip(f.Src, 1200)))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
		}
		return 1
	}
	if inconclusive || agg.Evaluations == 0 {
		fmt.Println("inconclusive: too little was observed")
		return 2
	}
	fmt.Printf("%s held: %d evaluations, %d distinct, %.1fs\n", chk.ID, agg.Evaluations, len(seen), time.Since(start).Seconds())
	return 0
}

func pickSamples(s []string) []string {
	out := []string{}
	per := map[string]int{}
	for _, x := range s {
		g := x
		if i := strings.IndexByte(x, ':'); i > 0 {
			g = x[:i]
		}
		if per[g] < 2 && len(out) < 16 {
			per[g]++
			out = append(out, x)
		}
	}
	return out
}

// loadKnown reads "finding: property=<id> key=<key> <what>" lines.
func loadKnown(file, id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		key, what, _ := strings.Cut(rest, " ")
		res[key] = what
	}
	return res
}
