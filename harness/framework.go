// Package harness contains the checks. It is compiled as a test binary
// against an instrumented copy of the repository (see ../check.sh).
package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Variant names the build a job needs.
const (
	Plain = "plain"
	Sched = "sched"
	Race  = "race"
)

// Job is one independent part of a check.
type Job struct {
	Name    string
	Variant string
	Shards  int // 0/1: not sharded
	Run     func(*J)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Jobs        func(tier string) []Job
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Violation is one failed case.
type Violation struct {
	Key  string `json:"key"`
	Msg  string `json:"msg"`
	Case string `json:"case"`
	// filled by the coordinator
	Property string `json:"property,omitempty"`
	Variant  string `json:"variant,omitempty"`
	Job      string `json:"job,omitempty"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Confirm  string `json:"confirm,omitempty"`
}

// Result of a job run.
type Result struct {
	Job         string            `json:"job"`
	Shard       int               `json:"shard"`
	Shards      int               `json:"shards"`
	Variant     string            `json:"variant"`
	Evals       int64             `json:"evals"`
	Distinct    int64             `json:"distinct"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Traces      int64             `json:"traces"`
	Redundant   int64             `json:"redundant"`
	Diverged    int64             `json:"diverged"`
	Outcomes    map[string]int64  `json:"outcomes,omitempty"`
	Samples     []string          `json:"samples,omitempty"`
	Notes       map[string]string `json:"notes,omitempty"`
	Capped      []string          `json:"capped,omitempty"`
	Violations  []Violation       `json:"violations,omitempty"`
	Err         string            `json:"err,omitempty"`
	WallMS      int64             `json:"wall_ms"`
}

// J is the context of a running job.
type J struct {
	T        *testing.T
	Tier     string
	Shard    int
	Shards   int
	Seed     int64
	Deadline time.Time
	Replay   string // non-empty: run only this case
	res      *Result
	keys     map[string]bool
	seen     map[uint64]struct{}
	fails    int
}

func (j *J) Thorough() bool { return j.Tier == "thorough" }

// Mine distributes independent cases over the shards of a job.
func (j *J) Mine(i int) bool { return j.Shards <= 1 || i%j.Shards == j.Shard }

var curCase atomic.Value // string
var progress atomic.Int64

// Case announces the case about to be evaluated (for hang reports).
func (j *J) Case(s string) {
	curCase.Store(s)
	progress.Add(1)
}

// Want reports whether the case should be run (replay filter).
func (j *J) Want(cs string) bool { return j.Replay == "" || j.Replay == cs }

// Expired reports whether the job's time is up; the job is then marked capped.
func (j *J) Expired(what string) bool {
	if time.Now().Before(j.Deadline) {
		return false
	}
	j.Cap(what)
	return true
}

func (j *J) Cap(what string) {
	for _, c := range j.res.Capped {
		if c == what {
			return
		}
	}
	j.res.Capped = append(j.res.Capped, what)
}

func (j *J) Eval() { j.res.Evals++; progress.Add(1) }

// Distinct records a non-trivial case identity.
func (j *J) Distinct(parts ...string) bool {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0})
	}
	k := h.Sum64()
	if _, ok := j.seen[k]; ok {
		return false
	}
	j.seen[k] = struct{}{}
	j.res.Distinct++
	return true
}
func (j *J) State()      { j.res.States++; progress.Add(1) }
func (j *J) Transition() { j.res.Transitions++; progress.Add(1) }
func (j *J) Trace()      { j.res.Traces++ }
func (j *J) Outcome(o string) {
	if len(j.res.Outcomes) < 200 {
		j.res.Outcomes[o]++
	}
}
func (j *J) Sample(s string) {
	if len(j.res.Samples) < 2 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		j.res.Samples = append(j.res.Samples, s)
	}
}
func (j *J) Note(k, v string) { j.res.Notes[k] = v }

// Fail records a violation. key identifies the failing behaviour, cs the case to replay.
func (j *J) Fail(key, cs, format string, a ...interface{}) {
	j.fails++
	if j.keys[key] || len(j.keys) >= 400 {
		return
	}
	j.keys[key] = true
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	j.res.Violations = append(j.res.Violations, Violation{Key: key, Case: cs, Msg: msg})
}

func (j *J) Failed() bool { return j.fails > 0 }

// Protect runs f and converts a panic into a violation.
func (j *J) Protect(key, cs string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			j.Fail(key, cs, "panic: %v\n%s", r, trimStack(debug.Stack()))
			ok = false
		}
	}()
	f()
	return true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

type request struct {
	Check    string
	Job      string
	Shard    int
	Shards   int
	Tier     string
	Seed     int64
	Deadline int64 // unix milli
	Replay   string
}

func findJob(check, tier, name string) (*Job, error) {
	c := checks[check]
	if c == nil {
		return nil, fmt.Errorf("no check %q", check)
	}
	for _, jb := range c.Jobs(tier) {
		if jb.Name == name {
			jb := jb
			return &jb, nil
		}
	}
	return nil, fmt.Errorf("no job %q in %s", name, check)
}

func runJob(t *testing.T, rq request) (res *Result) {
	start := time.Now()
	res = &Result{Job: rq.Job, Shard: rq.Shard, Shards: rq.Shards, Outcomes: map[string]int64{}, Notes: map[string]string{}}
	jb, err := findJob(rq.Check, rq.Tier, rq.Job)
	if err != nil {
		res.Err = err.Error()
		return res
	}
	res.Variant = jb.Variant
	j := &J{T: t, Tier: rq.Tier, Shard: rq.Shard, Shards: rq.Shards, Seed: rq.Seed,
		Deadline: time.UnixMilli(rq.Deadline), Replay: rq.Replay, res: res,
		keys: map[string]bool{}, seen: map[uint64]struct{}{}}
	defer func() {
		if r := recover(); r != nil {
			cs, _ := curCase.Load().(string)
			j.Fail("panic-outside", cs, "unexpected panic in %s: %v\n%s", rq.Job, r, trimStack(debug.Stack()))
		}
		res.WallMS = time.Since(start).Milliseconds()
	}()
	resetWorld()
	jb.Run(j)
	return res
}

func workerLoop(t *testing.T) {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := os.NewFile(3, "results")
	var mu sync.Mutex
	emit := func(tag string, v interface{}) {
		b, _ := json.Marshal(v)
		mu.Lock()
		fmt.Fprintf(out, "%s %s\n", tag, b)
		mu.Unlock()
	}
	var busy atomic.Bool
	go func() { // watchdog: reports a case that makes no progress
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if !busy.Load() {
				last = -1
				continue
			}
			p := progress.Load()
			if p != last {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > hangLimit() {
				cs, _ := curCase.Load().(string)
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				emit("HANG", Violation{Key: "hang", Case: cs, Msg: "no progress for " + hangLimit().String() + "\n" + string(buf[:min(len(buf), 6000)])})
				os.Exit(9)
			}
		}
	}()
	for in.Scan() {
		var rq request
		if err := json.Unmarshal(in.Bytes(), &rq); err != nil {
			emit("ERR", err.Error())
			continue
		}
		busy.Store(true)
		progress.Add(1)
		res := runJob(t, rq)
		busy.Store(false)
		emit("RES", res)
	}
}

func hangLimit() time.Duration {
	if raceBuild {
		return 60 * time.Second
	}
	return 30 * time.Second
}

// ---- coordinator ----

type worker struct {
	variant string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	log     string
}

func startWorker(variant string, n int) (*worker, error) {
	bin := os.Getenv("VH_BIN_" + variant)
	if bin == "" {
		return nil, fmt.Errorf("no binary for variant %s", variant)
	}
	dir := os.Getenv("VH_TMP")
	logf := filepath.Join(dir, fmt.Sprintf("worker-%s-%d-%d.log", variant, os.Getpid(), n))
	lf, err := os.Create(logf)
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	if p := os.Getenv("VH_PROF"); p != "" {
		cmd.Args = append(cmd.Args, "-test.cpuprofile", fmt.Sprintf("%s.%d", p, n))
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VH_MODE=worker")
	procs := "2"
	if variant != Plain {
		procs = "1"
	}
	cmd.Env = append(cmd.Env, "GOMAXPROCS="+procs, "GOGC=400",
		"GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path="+filepath.Join(dir, fmt.Sprintf("race-%d-%d", os.Getpid(), n)))
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.ExtraFiles = []*os.File{pw}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	lf.Close()
	return &worker{variant: variant, cmd: cmd, in: in, out: bufio.NewReaderSize(pr, 1<<20), log: logf}, nil
}

func (w *worker) stop() {
	w.in.Close()
	if os.Getenv("VH_PROF") != "" {
		time.Sleep(3 * time.Second)
	}
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// do runs one request; dead reports that the worker is gone.
func (w *worker) do(rq request) (res *Result, viol *Violation, dead bool) {
	b, _ := json.Marshal(rq)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, &Violation{Key: "crash", Msg: "worker gone: " + err.Error()}, true
	}
	for {
		line, err := w.out.ReadString('\n')
		if err != nil {
			w.cmd.Wait()
			return nil, &Violation{Key: "crash", Msg: "worker process died: " + crashReason(w.log)}, true
		}
		switch {
		case strings.HasPrefix(line, "RES "):
			res = new(Result)
			if err := json.Unmarshal([]byte(line[4:]), res); err != nil {
				return nil, &Violation{Key: "crash", Msg: err.Error()}, true
			}
			return res, nil, false
		case strings.HasPrefix(line, "HANG "):
			v := new(Violation)
			json.Unmarshal([]byte(line[5:]), v)
			w.cmd.Wait()
			return nil, v, true
		}
	}
}

var crashRe = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*|runtime: out of memory.*|signal: .*)$`)

func crashReason(log string) string {
	b, _ := os.ReadFile(log)
	m := crashRe.FindString(string(b))
	if m == "" {
		m = "no reason found"
	}
	tail := string(b)
	if i := strings.Index(tail, m); i >= 0 {
		tail = tail[i:]
	}
	if len(tail) > 2500 {
		tail = tail[:2500]
	}
	return m + "\n" + tail
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func coordinate() int {
	id := os.Getenv("VH_CHECK")
	c := checks[id]
	if c == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	start := time.Now()
	budget := time.Duration(envInt("VH_BUDGET", 100)) * time.Second
	deadline := start.Add(budget)

	if rp := os.Getenv("VH_REPLAY"); rp != "" {
		return replayFile(id, tier, seed, rp)
	}

	type item struct {
		job   Job
		shard int
	}
	queues := map[string][]item{}
	jobs := c.Jobs(tier)
	only := os.Getenv("VH_JOBS")
	njobs := 0
	for _, jb := range jobs {
		if only != "" && !regexp.MustCompile(only).MatchString(jb.Name) {
			continue
		}
		njobs++
		n := jb.Shards
		if n < 1 {
			n = 1
		}
		for s := 0; s < n; s++ {
			queues[jb.Variant] = append(queues[jb.Variant], item{jb, s})
		}
	}
	ncpu := envInt("VH_WORKERS", runtime.NumCPU())
	var (
		mu      sync.Mutex
		results []*Result
		viols   []Violation
		errs    []string
		wseq    int
	)
	total := 0
	for _, q := range queues {
		total += len(q)
	}
	next := func(prefer string) (item, string, bool) {
		mu.Lock()
		defer mu.Unlock()
		if prefer != "" && len(queues[prefer]) > 0 {
			it := queues[prefer][0]
			queues[prefer] = queues[prefer][1:]
			return it, prefer, true
		}
		best, bestN := "", 0
		for _, v := range []string{Race, Sched, Plain} {
			if len(queues[v]) > bestN {
				best, bestN = v, len(queues[v])
			}
		}
		if best == "" {
			return item{}, "", false
		}
		it := queues[best][0]
		queues[best] = queues[best][1:]
		return it, best, true
	}
	var wg sync.WaitGroup
	for i := 0; i < ncpu && i < total; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			prefer := ""
			for {
				it, v, ok := next(prefer)
				if !ok {
					return
				}
				if w != nil && w.variant != v {
					w.stop()
					w = nil
				}
				prefer = v
				if w == nil {
					mu.Lock()
					wseq++
					n := wseq
					mu.Unlock()
					var err error
					if w, err = startWorker(v, n); err != nil {
						mu.Lock()
						errs = append(errs, err.Error())
						mu.Unlock()
						return
					}
				}
				shards := it.job.Shards
				if shards < 1 {
					shards = 1
				}
				rq := request{Check: id, Job: it.job.Name, Shard: it.shard, Shards: shards, Tier: tier, Seed: seed, Deadline: deadline.UnixMilli()}
				res, viol, dead := w.do(rq)
				if dead {
					w.stop()
					w = nil
				}
				mu.Lock()
				if res != nil {
					results = append(results, res)
					if res.Err != "" {
						errs = append(errs, res.Job+": "+res.Err)
					}
					for _, v := range res.Violations {
						v.Property, v.Variant, v.Job, v.Shard, v.Shards = id, it.job.Variant, it.job.Name, it.shard, shards
						viols = append(viols, v)
					}
				}
				if viol != nil {
					viol.Property, viol.Variant, viol.Job, viol.Shard, viol.Shards = id, it.job.Variant, it.job.Name, it.shard, shards
					viols = append(viols, *viol)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	// classify violations
	sort.Slice(viols, func(a, b int) bool {
		if len(viols[a].Case) != len(viols[b].Case) {
			return len(viols[a].Case) < len(viols[b].Case)
		}
		return viols[a].Key < viols[b].Key
	})
	known := loadKnown(id)
	var fresh []Violation
	seen := map[string]bool{}
	knownSeen := map[string]Violation{}
	for _, v := range viols {
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		if _, ok := known[v.Key]; ok {
			knownSeen[v.Key] = v
			continue
		}
		fresh = append(fresh, v)
	}
	var confirmed []Violation
	var unstable []Violation
	confirmEnd := time.Now().Add(240 * time.Second)
	for i, v := range fresh {
		if len(confirmed) >= 3 || i >= 12 || (len(confirmed) > 0 && time.Now().After(confirmEnd)) || time.Now().After(confirmEnd.Add(60*time.Second)) {
			break
		}
		how, ok := confirm(v, tier, seed)
		v.Confirm = how
		if ok {
			confirmed = append(confirmed, v)
		} else {
			unstable = append(unstable, v)
		}
	}
	writeEvidence(c, tier, seed, start, results, confirmed, unstable, knownSeen, errs, njobs, only)
	keys := make([]string, 0, len(knownSeen))
	for k := range knownSeen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s [key=%s]\n", id, known[k], k)
	}
	for _, v := range unstable {
		fmt.Printf("note: not reproducible, not reported: %s/%s key=%s %s\n", v.Job, v.Variant, v.Key, firstLine(v.Msg))
	}
	if os.Getenv("VH_VERBOSE") != "" {
		for _, v := range fresh {
			fmt.Printf("  [%s] key=%s case=%s\n     %s\n", v.Job, v.Key, clip(v.Case, 300), strings.ReplaceAll(clip(v.Msg, 1500), "\n", "\n     "))
		}
	}
	if len(confirmed) > 0 {
		dir := os.Getenv("VH_REPLAYS")
		os.MkdirAll(dir, 0o755)
		for i, v := range confirmed {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i+1))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			fmt.Printf("  job=%s key=%s\n  case=%s\n  %s\n", v.Job, v.Key, clip(v.Case, 400), strings.ReplaceAll(clip(v.Msg, 1200), "\n", "\n  "))
		}
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("ERROR:", e)
		}
		return 2
	}
	fmt.Printf("%s %s: held on everything explored (%.1fs)\n", id, tier, time.Since(start).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func confirm(v Violation, tier string, seed int64) (string, bool) {
	if v.Case != "" {
		hits := 0
		for k := 0; k < 3; k++ {
			if rerun(v, tier, seed, v.Case) {
				hits++
			}
		}
		if hits >= 2 || (hits >= 1 && strings.HasPrefix(v.Key, "race")) {
			return fmt.Sprintf("replayed %d/3", hits), true
		}
	}
	if rerun(v, tier, seed, "") {
		return "job re-run reproduced", true
	}
	return "not reproduced", false
}

func rerun(v Violation, tier string, seed int64, cs string) bool {
	w, err := startWorker(v.Variant, 9000+int(time.Now().UnixNano()%1000))
	if err != nil {
		return false
	}
	defer w.stop()
	res, viol, _ := w.do(request{Check: v.Property, Job: v.Job, Shard: v.Shard, Shards: v.Shards, Tier: tier, Seed: seed,
		Deadline: time.Now().Add(60 * time.Second).UnixMilli(), Replay: cs})
	if viol != nil {
		return viol.Key == v.Key
	}
	if res == nil {
		return false
	}
	for _, x := range res.Violations {
		if x.Key == v.Key || (strings.HasPrefix(v.Key, "race") && strings.HasPrefix(x.Key, "race")) {
			return true
		}
	}
	return false
}

func replayFile(id, tier string, seed int64, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	w, err := startWorker(v.Variant, 1)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer w.stop()
	res, viol, _ := w.do(request{Check: v.Property, Job: v.Job, Shard: v.Shard, Shards: v.Shards, Tier: tier, Seed: seed,
		Deadline: time.Now().Add(120 * time.Second).UnixMilli(), Replay: v.Case})
	if viol == nil && res != nil {
		for i := range res.Violations {
			viol = &res.Violations[i]
			break
		}
	}
	if viol != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", id, path, viol.Msg)
		return 1
	}
	fmt.Println("replay: no violation")
	return 0
}

// loadKnown reads "KNOWN property=<id> key=<key> :: <text>" lines.
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(os.Getenv("VH_KNOWN"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "KNOWN property="+id+" key=")
		if !ok {
			continue
		}
		k, txt, ok := strings.Cut(rest, " :: ")
		if ok {
			out[strings.TrimSpace(k)] = txt
		}
	}
	return out
}

func writeEvidence(c *Check, tier string, seed int64, start time.Time, results []*Result, confirmed, unstable []Violation, known map[string]Violation, errs []string, njobs int, only string) {
	cov := map[string]interface{}{}
	var evals, distinct, states, trans, traces, redundant, diverged int64
	var samples []string
	capped := []string{}
	outcomes := map[string]int64{}
	perJob := map[string]map[string]int64{}
	notes := map[string]string{}
	sort.Slice(results, func(a, b int) bool {
		if results[a].Job != results[b].Job {
			return results[a].Job < results[b].Job
		}
		return results[a].Shard < results[b].Shard
	})
	for _, r := range results {
		evals += r.Evals
		distinct += r.Distinct
		states += r.States
		trans += r.Transitions
		traces += r.Traces
		redundant += r.Redundant
		diverged += r.Diverged
		if len(samples) < 12 {
			for _, s := range r.Samples {
				samples = append(samples, r.Job+": "+s)
			}
		}
		for _, x := range r.Capped {
			capped = append(capped, fmt.Sprintf("%s[%d/%d]: %s", r.Job, r.Shard, r.Shards, x))
		}
		for k, n := range r.Outcomes {
			if len(outcomes) < 120 {
				outcomes[r.Job+" "+k] += n
			}
		}
		for k, v := range r.Notes {
			notes[r.Job+" "+k] = v
		}
		pj := perJob[r.Job]
		if pj == nil {
			pj = map[string]int64{}
			perJob[r.Job] = pj
		}
		pj["evaluations"] += r.Evals
		pj["states"] += r.States
		pj["transitions"] += r.Transitions
		pj["traces"] += r.Traces
		pj["wall_ms"] += r.WallMS
	}
	if len(samples) == 0 {
		samples = []string{"(none recorded)"}
	}
	cov["samples"] = samples
	cov["rule"] = c.Rule
	cov["exhaustive"] = len(capped) == 0 && diverged == 0 && only == "" && len(errs) == 0
	cov["capped"] = capped
	cov["jobs"] = njobs
	cov["per_job"] = perJob
	if len(outcomes) > 0 {
		cov["outcomes"] = outcomes
	}
	// enough of the notes to read
	const maxNotes = 300
	if len(notes) > maxNotes {
		var ks []string
		for k := range notes {
			if !strings.Contains(k, "divergence") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i%(len(ks)/maxNotes+1) != 0 {
				delete(notes, k)
			}
		}
		notes["(in all)"] = fmt.Sprintf("%d notes, every %dth is kept", len(ks), len(ks)/maxNotes+1)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	switch c.Level {
	case "model_checking":
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, trans, traces
		if evals > 0 {
			cov["evaluations"] = evals
		}
		if redundant > 0 {
			cov["redundant_executions"] = redundant
		}
		cov["replay_divergences"] = diverged
	default:
		cov["evaluations"], cov["distinct_nontrivial"] = evals, distinct
	}
	if len(unstable) > 0 {
		var u []string
		for _, v := range unstable {
			u = append(u, v.Job+" "+v.Key+": "+firstLine(v.Msg))
		}
		cov["not_reproducible"] = u
	}
	if len(known) > 0 {
		var u []string
		for k := range known {
			u = append(u, k)
		}
		sort.Strings(u)
		cov["known_findings_observed"] = u
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(confirmed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	p := os.Getenv("VH_EVIDENCE")
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, b, 0o644)
}

func listJobs() {
	id := os.Getenv("VH_CHECK")
	tier := os.Getenv("VERIF_TIER")
	for _, jb := range checks[id].Jobs(tier) {
		fmt.Println(jb.Variant, jb.Name)
	}
}
