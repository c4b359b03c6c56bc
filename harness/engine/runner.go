package engine

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Part is one generated campaign of a check.
type Part struct {
	Name     string
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier
	Run      func(t *T) *Failure
}

// Probe re-runs one recorded finding; it returns a description of what still fails, or "".
type Probe struct {
	Name string
	Run  func() string
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Parts       []Part
	Probes      []Probe
	Setup       func() error // once per worker process
	Teardown    func()
	Workers     int // 0: one per core
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

type workerResult struct {
	Cases    map[string]int `json:"cases"`
	Evals    int            `json:"evals"`
	Labels   map[string]int `json:"labels"`
	Keys     []uint64       `json:"keys"`
	Samples  []string       `json:"samples"`
	Failure  *failureRecord `json:"failure"`
	TimedOut bool           `json:"timed_out"`
	Done     bool           `json:"done"`
}

type failureRecord struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Tape     []uint32 `json:"tape"`
	Trace    []string `json:"trace"`
	Replay   string   `json:"how_to_replay"`
}

func caseSeed(seed int64, id, part string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, part, i)
	return h.Sum64()
}

const hangSeconds = 90

// Main is the entry point of the harness binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check ID | worker ... | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "worker":
		runWorker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "one": // one ID PART CASE SEED : run one case in this process
		os.Exit(runOne(os.Args[2:]))
	case "survey": // survey ID PART COUNT SEED : the distinct ways cases fail
		survey(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func seedFromEnv() int64 {
	v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return v
}

func tierFromEnv() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func partCases(p Part, tier string) int {
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick
		}
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n)*f) + 1
		}
	}
	return n
}

func softBudget(tier string) time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier == "thorough" {
		return 3000 * time.Second
	}
	return 420 * time.Second
}

func runOne(args []string) int {
	c := registry[args[0]]
	i, _ := strconv.Atoi(args[2])
	seed, _ := strconv.ParseInt(args[3], 10, 64)
	if c.Setup != nil {
		if err := c.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	for _, p := range c.Parts {
		if p.Name == args[1] {
			t := newRandom(caseSeed(seed, c.ID, p.Name, i))
			f := p.Run(t)
			for _, l := range t.Trace {
				fmt.Println(l)
			}
			if c.Teardown != nil {
				c.Teardown()
			}
			if f != nil {
				fmt.Println("FAIL", f.Kind, f.Msg)
				return 10
			}
			return 0
		}
	}
	return 3
}

var frameRE = regexp.MustCompile(`/repo/\S+:\d+`)

func survey(args []string) {
	c := registry[args[0]]
	n, _ := strconv.Atoi(args[2])
	seed, _ := strconv.ParseInt(args[3], 10, 64)
	if c.Setup != nil {
		if err := c.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
	}
	type kind struct {
		n    int
		best *T
		f    *Failure
	}
	kinds := map[string]*kind{}
	for _, p := range c.Parts {
		if p.Name != args[1] {
			continue
		}
		for i := 0; i < n; i++ {
			t := newRandom(caseSeed(seed, c.ID, p.Name, i))
			f := p.Run(t)
			if f == nil {
				continue
			}
			key := f.Kind
			if m := frameRE.FindString(f.Msg); m != "" {
				key += " " + m
			}
			k := kinds[key]
			if k == nil {
				k = &kind{}
				kinds[key] = k
			}
			k.n++
			if k.best == nil || len(t.tape) < len(k.best.tape) {
				k.best, k.f = t, f
			}
		}
		for key, k := range kinds {
			best, bf := shrink(k.best.tape, func(tp []uint32) *Failure {
				f := p.Run(newReplay(tp))
				if f == nil {
					return nil
				}
				k2 := f.Kind
				if m := frameRE.FindString(f.Msg); m != "" {
					k2 += " " + m
				}
				if k2 != key {
					return nil
				}
				return f
			}, func() bool { return false })
			t := newReplay(best)
			p.Run(t)
			msg := k.f.Msg
			if bf != nil {
				msg = bf.Msg
			}
			if len(msg) > 400 {
				msg = msg[:400]
			}
			fmt.Printf("=== %d x %s\n%s\n%s\n", k.n, key, msg, strings.Join(t.Trace, "\n"))
		}
	}
	if c.Teardown != nil {
		c.Teardown()
	}
}

// worker ID tier seed index count dir
func runWorker(a []string) {
	id, tier, dir := a[0], a[1], a[5]
	seed, _ := strconv.ParseInt(a[2], 10, 64)
	idx, _ := strconv.Atoi(a[3])
	n, _ := strconv.Atoi(a[4])
	c := registry[id]
	debug.SetGCPercent(200)
	res := &workerResult{Cases: map[string]int{}, Labels: map[string]int{}}
	status, err := os.Create(filepath.Join(dir, fmt.Sprintf("status.%d", idx)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if c.Setup != nil {
		if err := c.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(2)
		}
	}
	start := time.Now()
	budget := softBudget(tier)
	keys := map[uint64]bool{}
	var tick int64
	go func() { // hang watchdog
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			cur := atomic.LoadInt64(&tick)
			if cur != last {
				last, since = cur, time.Now()
			} else if time.Since(since) > hangSeconds*time.Second && cur >= 0 {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("hang.%d", idx)), buf, 0o644)
				os.Exit(97)
			}
		}
	}()
	stopFile := filepath.Join(dir, "stop")
	// Interleave the parts so that a tight budget starves none of them.
	type cur struct{ i, total int }
	curs := make([]cur, len(c.Parts))
	for k, p := range c.Parts {
		curs[k] = cur{idx, partCases(p, tier)}
	}
	round := 0
loop:
	for active := true; active; {
		active = false
		round++
		for k, p := range c.Parts {
			// proportional share: about 1/200 of the part per round
			step := curs[k].total/(200*n) + 1
			for s := 0; s < step && curs[k].i < curs[k].total; s++ {
				active = true
				i := curs[k].i
				curs[k].i += n
				var b [12]byte
				binary.LittleEndian.PutUint32(b[:], uint32(k)+1)
				binary.LittleEndian.PutUint64(b[4:], uint64(i))
				status.WriteAt(b[:], 0)
				atomic.AddInt64(&tick, 1)
				t := newRandom(caseSeed(seed, id, p.Name, i))
				f := p.Run(t)
				res.Cases[p.Name]++
				res.Evals += 1 + t.evals
				for _, l := range t.labels {
					res.Labels[l]++
				}
				for _, h := range t.keys {
					keys[h] = true
				}
				if t.sample != "" && len(res.Samples) < 3 && (i/n)%7 == 3 {
					res.Samples = append(res.Samples, "["+p.Name+"] "+t.sample)
				}
				if f != nil {
					deadline := time.Now().Add(40 * time.Second)
					runs := 0
					best, bf := shrink(t.tape, func(tp []uint32) *Failure {
						runs++
						atomic.AddInt64(&tick, 1)
						return p.Run(newReplay(tp))
					}, func() bool { return runs > 4000 || time.Now().After(deadline) })
					if bf == nil { // does not repeat
						bf = Fail("flaky", "case failed once but not when repeated: %s: %s", f.Kind, f.Msg)
					}
					ft := newReplay(best)
					atomic.AddInt64(&tick, 1)
					p.Run(ft)
					res.Failure = &failureRecord{Property: id, Part: p.Name, Case: i, Seed: seed, Kind: bf.Kind, Msg: bf.Msg, Tape: best, Trace: ft.Trace}
					break loop
				}
			}
		}
		if round%4 == 0 {
			if _, err := os.Stat(stopFile); err == nil {
				break
			}
			if time.Since(start) > budget {
				res.TimedOut = true
				break
			}
		}
	}
	atomic.StoreInt64(&tick, -1)
	if c.Teardown != nil {
		c.Teardown()
	}
	for k := range keys {
		res.Keys = append(res.Keys, k)
	}
	res.Done = true
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d", idx)), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

// VerifDir is the root of the framework.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=ID name=NAME text
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "name=") {
			out[strings.TrimPrefix(f[2], "name=")] = strings.Join(f[3:], " ")
		}
	}
	return out
}

func writeReplay(fr *failureRecord) string {
	dir := filepath.Join(VerifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	fmt.Fprintf(h, "%v%s%s", fr.Tape, fr.Part, fr.Msg)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", fr.Property, h.Sum32()))
	fr.Replay = "cd /verif && ./run.sh replay " + path
	b, _ := json.MarshalIndent(fr, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func runCheck(id string) int {
	c := registry[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	tier, seed := tierFromEnv(), seedFromEnv()
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := c.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 16 {
			n = 16
		}
		if n < 4 {
			n = 4
		}
	}
	self, _ := os.Executable()
	type end struct {
		idx int
		err error
		out string
	}
	ends := make(chan end, n)
	procs := make([]*exec.Cmd, n)
	for i := 0; i < n; i++ {
		cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(n), dir)
		var sb strings.Builder
		cmd.Stdout = os.Stderr
		if os.Getenv("VERIF_DEBUG") == "" {
			cmd.Stdout = nil
		}
		cmd.Stderr = &limitedWriter{b: &sb, max: 1 << 16}
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB")
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		procs[i] = cmd
		go func(i int) {
			err := cmd.Wait()
			ends <- end{i, err, sb.String()}
		}(i)
	}
	results := make([]*workerResult, n)
	var failures []*failureRecord
	var trouble []string
	for k := 0; k < n; k++ {
		e := <-ends
		var r workerResult
		b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", e.idx)))
		if rerr == nil && json.Unmarshal(b, &r) == nil && r.Done {
			results[e.idx] = &r
			if r.Failure != nil {
				failures = append(failures, r.Failure)
				os.WriteFile(filepath.Join(dir, "stop"), nil, 0o644)
			}
			continue
		}
		// The worker died. Find out whether the case it was in kills the process again.
		fr, msg := postmortem(c, seed, e.idx, dir, self, e.err, e.out)
		if fr != nil {
			failures = append(failures, fr)
		} else {
			trouble = append(trouble, msg)
		}
		os.WriteFile(filepath.Join(dir, "stop"), nil, 0o644)
	}
	// merge
	cases, labels, keys := map[string]int{}, map[string]int{}, map[uint64]bool{}
	evals := 0
	var samples []string
	timedOut := false
	for _, r := range results {
		if r == nil {
			continue
		}
		for k, v := range r.Cases {
			cases[k] += v
		}
		for k, v := range r.Labels {
			labels[k] += v
		}
		for _, k := range r.Keys {
			keys[k] = true
		}
		evals += r.Evals
		samples = append(samples, r.Samples...)
		timedOut = timedOut || r.TimedOut
	}
	byPart := map[string]bool{}
	var kept []string
	for _, s := range samples {
		part := s[:strings.Index(s, "]")+1]
		if !byPart[part] || len(kept) < 3 {
			byPart[part] = true
			if len(s) > 3000 {
				s = s[:3000] + "..."
			}
			kept = append(kept, s)
		}
		if len(kept) >= 8 {
			break
		}
	}
	if len(kept) == 0 {
		kept = []string{"(no sample recorded)"}
	}
	// known findings
	known := knownFindings(id)
	var findings []string
	rc := 0
	for _, p := range c.Probes {
		var msg string
		if f := Guard("probe "+p.Name, func() { msg = p.Run() }); f != nil {
			msg = f.Kind + ": " + strings.SplitN(f.Msg, "\n", 2)[0]
		}
		if msg == "" {
			continue
		}
		if _, ok := known[p.Name]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, p.Name, msg)
			findings = append(findings, p.Name+": "+msg)
		} else {
			failures = append(failures, &failureRecord{Property: id, Part: "probe:" + p.Name, Kind: "probe", Msg: msg, Seed: seed, Trace: []string{msg}})
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": c.Rule, "samples": kept,
			"cases_per_part": cases, "classes": labels, "stopped_by_time_budget": timedOut,
			"known_findings_reproduced": findings,
		},
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(failures),
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(VerifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(VerifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(failures) > 0 {
		sort.Slice(failures, func(i, j int) bool { return len(failures[i].Tape) < len(failures[j].Tape) })
		fr := failures[0]
		path := writeReplay(fr)
		fmt.Printf("part %s, case %d: %s: %s\n", fr.Part, fr.Case, fr.Kind, fr.Msg)
		for _, l := range fr.Trace {
			fmt.Println("  | " + strings.ReplaceAll(l, "\n", "\n  | "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		rc = 1
	} else if len(trouble) > 0 {
		for _, m := range trouble {
			fmt.Fprintln(os.Stderr, "harness trouble:", m)
		}
		rc = 2
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs, exit %d\n", id, tier, seed, evals, len(keys), time.Since(start).Seconds(), rc)
	return rc
}

func postmortem(c *Check, seed int64, idx int, dir, self string, werr error, out string) (*failureRecord, string) {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status.%d", idx)))
	if err != nil || len(b) < 12 {
		return nil, fmt.Sprintf("worker %d died before its first case: %v\n%s", idx, werr, out)
	}
	k := int(binary.LittleEndian.Uint32(b)) - 1
	i := int(binary.LittleEndian.Uint64(b[4:]))
	if k < 0 || k >= len(c.Parts) {
		return nil, "bad status"
	}
	part := c.Parts[k].Name
	if werr != nil && strings.Contains(werr.Error(), "killed") {
		return nil, fmt.Sprintf("worker %d was killed (memory?) in %s case %d", idx, part, i)
	}
	if strings.Contains(out, "harness bug:") {
		return nil, fmt.Sprintf("worker %d in %s case %d: %s", idx, part, i, out)
	}
	cmd := exec.Command(self, "one", c.ID, part, fmt.Sprint(i), fmt.Sprint(seed))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4000MiB")
	var sb strings.Builder
	cmd.Stdout = &limitedWriter{b: &sb, max: 1 << 16}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return nil, fmt.Sprintf("worker %d died (%v) in %s case %d, but the case passes alone\n%s", idx, werr, part, i, out)
		}
		if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 3 || strings.Contains(err.Error(), "killed")) {
			return nil, fmt.Sprintf("worker %d: %v\n%s", idx, err, sb.String())
		}
		if !deathInTarget(sb.String()) {
			return nil, fmt.Sprintf("worker %d in %s case %d: %v\n%s", idx, part, i, err, sb.String())
		}
		return &failureRecord{Property: c.ID, Part: part, Case: i, Seed: seed, Kind: "process-death",
			Msg: fmt.Sprintf("the code under test ends the process (%v)", err), Trace: strings.Split(sb.String(), "\n")}, ""
	case <-time.After((hangSeconds + 60) * time.Second):
		cmd.Process.Kill()
		st, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hang.%d", idx)))
		if !strings.Contains(string(st), "k0kubun/sqldef") {
			return nil, fmt.Sprintf("worker %d hangs outside the code under test in %s case %d", idx, part, i)
		}
		return &failureRecord{Property: c.ID, Part: part, Case: i, Seed: seed, Kind: "hang",
			Msg: fmt.Sprintf("no answer within %d seconds, twice", hangSeconds), Trace: strings.Split(string(st), "\n")}, ""
	}
}

// deathInTarget tells a process end caused by the code under test (log.Fatal,
// os.Exit, fatal runtime error in it) from one of the harness.
func deathInTarget(out string) bool {
	if strings.Contains(out, "harness bug:") {
		return false
	}
	if i := strings.Index(out, "goroutine "); i >= 0 {
		return strings.Contains(out, "k0kubun/sqldef")
	}
	return true
}

type limitedWriter struct {
	b   *strings.Builder
	max int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.max {
		w.b.Write(p)
	}
	return len(p), nil
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var fr failureRecord
	if err := json.Unmarshal(b, &fr); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := registry[fr.Property]
	if c == nil {
		return 2
	}
	if c.Setup != nil {
		if err := c.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	defer func() {
		if c.Teardown != nil {
			c.Teardown()
		}
	}()
	if strings.HasPrefix(fr.Part, "probe:") {
		for _, p := range c.Probes {
			if "probe:"+p.Name == fr.Part {
				msg := p.Run()
				if msg == "" {
					fmt.Println("holds now")
					return 0
				}
				fmt.Println(msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", fr.Property, path)
				return 1
			}
		}
	}
	for _, p := range c.Parts {
		if p.Name != fr.Part {
			continue
		}
		var t *T
		if fr.Tape == nil {
			t = newRandom(caseSeed(fr.Seed, fr.Property, fr.Part, fr.Case))
		} else {
			t = newReplay(fr.Tape)
		}
		f := p.Run(t)
		for _, l := range t.Trace {
			fmt.Println(l)
		}
		if f == nil {
			fmt.Println("holds now")
			return 0
		}
		fmt.Println(f.Kind+":", f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", fr.Property, path)
		return 1
	}
	return 2
}

// Bug aborts the process because the harness itself is at fault.
func Bug(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness bug: "+format+"\n", a...)
	debug.PrintStack()
	os.Exit(4)
}
