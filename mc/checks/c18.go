package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/engine"
	"verif/mc/instr"
	"verif/mc/vsched"
)

// ---- C18: concurrent calls behave like separate ones ----

// SchedRequest and SchedReply are the protocol of the sched command.
type SchedRequest struct {
	Mode     string // explore, one, free
	Threads  [][]string
	Cold     bool // one: the calls are the first ones of the process
	Mask     int  // kinds of scheduling points
	Bound    int  // preemptions
	Shard    int
	NShards  int
	Devs     []vsched.Dev
	Progress string // file that always names the schedule being run
	Budget   float64
	Rounds   int
}

type SchedReply struct {
	Executions  int
	Points      int   // most points in one execution
	Total       int64 // points passed
	Outcomes    map[string]int
	Bad         string
	Devs        []vsched.Dev
	Diverged    int
	Truncated   bool
	Unsupported bool
	Trace       []vsched.Point `json:",omitempty"`
	Warm        string
}

// schedReplay is the replay file.
type schedReplay struct {
	Property string       `json:"property"`
	Tier     string       `json:"tier"`
	Message  string       `json:"message"`
	Binary   string       `json:"binary"`
	Request  SchedRequest `json:"request"`
}

const antlrModule = "github.com/antlr/antlr4/runtime/Go/antlr"

// schedBuild instruments and builds what C18 needs into dir.
type schedBuild struct {
	dir                       string
	stats                     instr.Stats
	controlled, plain         bool
	sched, schedRace, freeBin string
	note                      string
}

func buildSched(root string) (*schedBuild, error) {
	work := os.Getenv("MC_WORK")
	if work == "" {
		var err error
		if work, err = os.MkdirTemp("", "mc-sched"); err != nil {
			return nil, err
		}
	}
	b := &schedBuild{dir: filepath.Join(work, "sched")}
	if err := os.MkdirAll(b.dir, 0o755); err != nil {
		return nil, err
	}
	mc := filepath.Join(root, "mc")
	run := func(args ...string) (string, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = mc
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	mod, err := os.ReadFile(filepath.Join(mc, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(mc, "go.sum"))
	if err != nil {
		return nil, err
	}
	write := func(name, text string) string {
		p := filepath.Join(b.dir, name)
		if e := os.WriteFile(p, []byte(text), 0o644); e != nil && err == nil {
			err = e
		}
		return p
	}
	plainMod := write("plain.mod", string(mod))
	write("plain.sum", string(sum))
	instMod := write("inst.mod", strings.Replace(string(mod), "=> /repo", "=> "+filepath.Join(b.dir, "repo"), 1)+"\nreplace "+antlrModule+" => "+filepath.Join(b.dir, "antlr")+"\n")
	write("inst.sum", string(sum))
	if err != nil {
		return nil, err
	}
	var wg sync.WaitGroup
	var freeErr error
	var freeOut string
	wg.Add(1)
	go func() {
		defer wg.Done()
		b.freeBin = filepath.Join(b.dir, "free-race")
		freeOut, freeErr = run("build", "-race", "-modfile", plainMod, "-o", b.freeBin, "./sched")
	}()
	b.controlled = true
	fail := func(format string, a ...interface{}) {
		b.controlled = false
		b.note = fmt.Sprintf(format, a...)
	}
	if b.stats, err = instr.Module("/repo", filepath.Join(b.dir, "repo")); err != nil {
		fail("the code could not be instrumented: %v", err)
	} else if out, e := run("list", "-modfile", plainMod, "-m", "-f", "{{.Dir}}", antlrModule); e != nil {
		fail("no antlr runtime: %v %s", e, out)
	} else if e := instr.Runtime(strings.TrimSpace(out), filepath.Join(b.dir, "antlr")); e != nil {
		fail("the antlr runtime could not be instrumented: %v", e)
	} else {
		b.sched, b.schedRace = filepath.Join(b.dir, "sched-bin"), filepath.Join(b.dir, "sched-race")
		if out, e := run("build", "-modfile", instMod, "-o", b.sched, "./sched"); e != nil {
			fail("the instrumented code does not build: %s", out)
		} else if out, e := run("build", "-race", "-modfile", instMod, "-o", b.schedRace, "./sched"); e != nil {
			fail("the instrumented code does not build with the race detector: %s", out)
		}
	}
	wg.Wait()
	if freeErr != nil {
		return nil, fmt.Errorf("the harness does not build: %s", freeOut)
	}
	return b, nil
}

func (b *schedBuild) path(binary string) string {
	return map[string]string{"sched": b.sched, "sched-race": b.schedRace, "free-race": b.freeBin}[binary]
}

// run runs one process. crash is "" if it ended by itself with an answer.
func (b *schedBuild) run(binary string, rq SchedRequest, limit time.Duration) (rep SchedReply, crash string) {
	cmd := exec.Command(b.path(binary))
	in, _ := json.Marshal(rq)
	cmd.Stdin = bytes.NewReader(in)
	var out bytes.Buffer
	var errBuf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errBuf
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	if binary != "free-race" {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
	} else {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	if err := cmd.Start(); err != nil {
		return rep, "start: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			msg := errBuf.String()
			switch {
			case strings.Contains(msg, "DATA RACE"):
				return rep, "data race:\n" + clip(msg, 3000)
			case strings.Contains(err.Error(), "killed"):
				return rep, "killed"
			}
			return rep, "the process died: " + err.Error() + ": " + clip(msg, 2000)
		}
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return rep, "timeout"
	}
	if err := json.Unmarshal(out.Bytes(), &rep); err != nil {
		return rep, "no answer: " + err.Error()
	}
	return rep, ""
}

func clip(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

type schedJob struct {
	binary string
	rq     SchedRequest
	class  string
	dev    bool // one deviation of a cold scenario
}

var schedInputs = []string{
	"addr:a@b", "addr:N n <c@d>", "addr:=?x-u?q?w?= <e@f>", "addr:g: a@b, Y <e@f>;", "addr:\"q\\\"\" (c) <a@[1]>", "addr:N n <a@b",
	"date:1 Jan 06 15:04:05 +0100", "date:31 Dec 1999 3:04 EST", "date:30 Feb 2006 15:04:05 +0100",
}

// what the colliding scenarios are made of: all of them walk the same parts
var schedSimilar = [][2]string{
	{"addr:a@b", "addr:c@d"}, {"addr:N n <a@b>", "addr:M m <c@d>"}, {"addr:=?x-u?q?w?= <a@b>", "addr:=?x-v?b?dnY=?= <c@d>"},
	{"date:1 Jan 06 15:04:05 +0100", "date:2 Feb 03 16:05:06 -0230"}, {"addr:\"q\" <a@b>", "addr:\"r\\\"\" <c@d>"}, {"addr:a <b", "addr:c >d"},
	{"addr:g: a@b;", "addr:h: c@d;"}, {"addr:a@b, c@d", "addr:e@f; g@h"},
}

func runC18(tier, root string) int {
	start := time.Now()
	ck := Find("C18")
	thorough := tier == "thorough"
	budget := 400 * time.Second
	if thorough {
		budget = 6 * time.Hour
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	end := start.Add(budget)
	b, err := buildSched(root)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	var pairs [][2]string
	for i, x := range schedInputs {
		for _, y := range schedInputs[i:] {
			pairs = append(pairs, [2]string{x, y})
		}
	}
	two := func(p [2]string) [][]string { return [][]string{{p[0]}, {p[1]}} }

	var jobs []schedJob
	explore := func(class, binary string, threads [][]string, mask, bound, shards int) {
		for s := 0; s < shards; s++ {
			jobs = append(jobs, schedJob{binary: binary, class: class, rq: SchedRequest{Mode: "explore", Threads: threads, Mask: mask, Bound: bound, Shard: s, NShards: shards}})
		}
	}
	free := func(threads [][]string, rounds int) {
		jobs = append(jobs, schedJob{binary: "free-race", class: "free running, race detector", rq: SchedRequest{Mode: "free", Threads: threads, Rounds: rounds}})
	}
	// free-running first calls, and many calls
	rounds := 15
	if thorough {
		rounds = 1500
	}
	var crowd [][]string
	for i := range schedInputs {
		crowd = append(crowd, []string{schedInputs[i], schedInputs[(i+3)%len(schedInputs)]})
	}
	for k := 0; k < 8; k++ {
		free(crowd, 1)
		free(two(schedSimilar[k%len(schedSimilar)]), 1)
	}
	free(crowd, rounds)
	for _, p := range schedSimilar {
		free(append(two(p), two(p)...), rounds)
	}
	if b.controlled {
		for _, p := range schedSimilar {
			explore("warm, 2 threads, all points, 1 preemption", "sched", two(p), 7, 1, 1)
			explore("warm, 2 threads, shared points, 2 preemptions", "sched", two(p), 2, 2, 1)
			explore("warm, 2 threads, shared points, 1 preemption, race detector", "sched-race", two(p), 2, 1, 1)
		}
		for i, p := range pairs {
			switch {
			case thorough:
				explore("warm, 2 threads, all points, 1 preemption", "sched", two(p), 7, 1, 1)
				explore("warm, 2 threads, shared points, 1 preemption, race detector", "sched-race", two(p), 2, 1, 1)
				explore("warm, 2 threads, shared points, 2 preemptions", "sched", two(p), 2, 2, 1)
			case strings.HasPrefix(p[1], "addr:g") && p[0] != "addr:a@b" || strings.HasPrefix(p[0], "addr:g"):
				// groups are slow to parse
				explore("warm, 2 threads, shared points, 1 preemption", "sched", two(p), 2, 1, 1)
			default:
				explore("warm, 2 threads, statements and shared points, 1 preemption", "sched", two(p), 3, 1, 1)
				if i%3 == 0 {
					explore("warm, 2 threads, shared points, 2 preemptions", "sched", two(p), 2, 2, 1)
				}
			}
		}
		b3 := 1
		if thorough {
			b3 = 2
		}
		for i, p := range schedSimilar {
			q := schedSimilar[(i+1)%len(schedSimilar)]
			explore("warm, 3 threads, shared points", "sched", [][]string{{p[0]}, {p[1]}, {q[0]}}, 2, b3, 1)
			explore("warm, 2 threads of 2 calls, shared points", "sched", [][]string{{p[0], q[0]}, {q[1], p[1]}}, 2, b3, 1)
			if thorough || i == 0 {
				explore("warm, 3 threads, statements and shared points, 1 preemption", "sched", [][]string{{p[0]}, {p[1]}, {p[0]}}, 3, 1, 4)
			}
		}
		if thorough {
			for _, p := range schedSimilar {
				explore("warm, 2 threads, statements and shared points, 2 preemptions", "sched", two(p), 3, 2, 32)
				explore("warm, 2 threads, shared points, 3 preemptions", "sched", two(p), 2, 3, 4)
				explore("warm, 2 threads, all points, 1 preemption, race detector", "sched-race", two(p), 7, 1, 8)
			}
			for _, p := range pairs {
				explore("warm, 2 threads, shared points, 3 preemptions", "sched", two(p), 2, 3, 4)
				explore("warm, 2 threads, statements and shared points, 1 preemption, race detector", "sched-race", two(p), 3, 1, 8)
			}
			explore("warm, 2 threads, all points, 2 preemptions", "sched", [][]string{{"addr:"}, {"addr:a"}}, 7, 2, 64)
			explore("warm, 2 threads, all points, 2 preemptions", "sched", [][]string{{"addr:a@b"}, {"addr:a@b"}}, 7, 2, 256)
		}
	}
	// cold scenarios: the driver explores, one process per schedule
	type coldScn struct {
		binary  string
		threads [][]string
		mask    int
	}
	var colds []coldScn
	if b.controlled {
		for _, p := range pairs {
			colds = append(colds, coldScn{"sched", two(p), 2})
		}
		for i, p := range schedSimilar {
			colds = append(colds, coldScn{"sched", two(p), 2}, coldScn{"sched-race", two(p), 2})
			if i == 0 || i == 3 || thorough {
				colds = append(colds, coldScn{"sched", two(p), 3})
			}
			if thorough {
				colds = append(colds, coldScn{"sched", two(p), 7}, coldScn{"sched-race", two(p), 3})
			}
		}
	}

	var mu sync.Mutex
	type found struct {
		job schedJob
		bad string
	}
	var bads []found
	var executions, points int64
	classes := map[string]int{}
	outcomes := map[string]int{}
	diverged, unsupported, truncated := 0, 0, false
	notes := map[string]int{}
	stop := false

	account := func(j schedJob, rep SchedReply, crash string, progress string) {
		mu.Lock()
		defer mu.Unlock()
		if crash != "" {
			if crash == "killed" || crash == "timeout" && j.binary == "free-race" || strings.HasPrefix(crash, "start:") || strings.HasPrefix(crash, "no answer") {
				notes[crash+" ("+j.class+")"]++
				truncated = true
				return
			}
			if pb, err := os.ReadFile(progress); err == nil {
				json.Unmarshal(pb, &j.rq.Devs)
			}
			bads = append(bads, found{j, crash})
			stop = true
			return
		}
		if rep.Unsupported {
			unsupported++
		}
		if rep.Truncated {
			truncated = true
		}
		diverged += rep.Diverged
		executions += int64(rep.Executions)
		points += rep.Total
		classes[j.class] += rep.Executions
		for k, v := range rep.Outcomes {
			if len(outcomes) < 5000 {
				outcomes[k] += v
			}
		}
		if rep.Bad != "" {
			j.rq.Devs = rep.Devs
			bads = append(bads, found{j, rep.Bad})
			stop = true
		}
	}
	stopped := func() bool {
		mu.Lock()
		defer mu.Unlock()
		if time.Now().After(end) {
			truncated = true
			return true
		}
		return stop
	}
	type task func(worker int)
	tasks := make(chan task, 1<<20)
	var pending sync.WaitGroup
	submit := func(t task) {
		pending.Add(1)
		tasks <- t
	}
	for w := 0; w < 8; w++ {
		go func(w int) {
			for t := range tasks {
				if !stopped() {
					t(w)
				}
				pending.Done()
			}
		}(w)
	}
	for _, c := range colds {
		c := c
		class := fmt.Sprintf("cold, 2 threads, %s points, 1 preemption", map[int]string{2: "shared", 3: "statement and shared", 7: "all"}[c.mask])
		if c.binary == "sched-race" {
			class += ", race detector"
		}
		one := func(devs []vsched.Dev) (SchedReply, string) {
			j := schedJob{binary: c.binary, class: class, rq: SchedRequest{Mode: "one", Cold: true, Threads: c.threads, Mask: c.mask, Devs: devs, NShards: 1}}
			rep, crash := b.run(c.binary, j.rq, 120*time.Second)
			account(j, rep, crash, "")
			return rep, crash
		}
		// bound 1: a free choice at a forced point may be followed by one preemption
		var expand func(devs []vsched.Dev, cost int) task
		expand = func(devs []vsched.Dev, cost int) task {
			return func(int) {
				rep, crash := one(devs)
				if crash != "" || rep.Bad != "" {
					return
				}
				from := 0
				if len(devs) > 0 {
					from = devs[len(devs)-1].Step + 1
				}
				for i := from; i < len(rep.Trace); i++ {
					p := rep.Trace[i]
					k := cost
					if !p.Forced {
						k++
					}
					if k > 1 {
						continue
					}
					for alt := 0; alt < 12; alt++ {
						if p.Enabled&(1<<uint(alt)) == 0 || alt == int(p.Chosen) {
							continue
						}
						d := append(append([]vsched.Dev{}, devs...), vsched.Dev{Step: i, Thread: alt})
						submit(expand(d, k))
					}
				}
			}
		}
		submit(expand(nil, 0))
	}
	for _, j := range jobs {
		j := j
		submit(func(w int) {
			j.rq.Progress = filepath.Join(b.dir, fmt.Sprintf("progress%d", w))
			j.rq.Budget = time.Until(end).Seconds()
			os.Remove(j.rq.Progress)
			limit := time.Until(end) + 60*time.Second
			if j.binary == "free-race" {
				limit = min(limit, 300*time.Second)
			}
			rep, crash := b.run(j.binary, j.rq, limit)
			account(j, rep, crash, j.rq.Progress)
		})
	}
	pending.Wait()
	close(tasks)

	known, _ := engine.LoadKnown(root)
	exit, reported, unconfirmed, knownSeen := 0, 0, 0, 0
	sort.SliceStable(bads, func(i, j int) bool { return len(bads[i].job.rq.Devs) < len(bads[j].job.rq.Devs) })
	for _, f := range bads {
		isKnown := false
		for _, k := range known {
			if k.Status == "open" && k.Property == "C18" && k.Kind == "race" && len(k.In) > 0 {
				all := true
				for _, s := range k.In {
					all = all && strings.Contains(f.bad, s)
				}
				if all {
					isKnown = true
					knownSeen++
					fmt.Printf("KNOWN-FINDING: property=C18 %s\n", k.What)
				}
			}
		}
		if isKnown || reported >= 2 {
			continue
		}
		path, ok := confirmSched(b, root, tier, f.job, f.bad)
		if !ok {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "not reproducible, not reported: %v %v: %s\n", f.job.rq.Threads, f.job.rq.Devs, f.bad)
			continue
		}
		reported++
		exit = 1
		fmt.Printf("VIOLATION property=C18 replay=%s\n", path)
		fmt.Printf("  %s %s: goroutines %q, schedule %v\n  %s\n", f.job.binary, f.job.class, f.job.rq.Threads, f.job.rq.Devs, f.bad)
	}
	var samples []interface{}
	for k := range outcomes {
		if len(samples) < 12 {
			samples = append(samples, k)
		}
	}
	ev := map[string]interface{}{
		"property": "C18", "tier": tier, "level": ck.Level, "wall_s": time.Since(start).Seconds(),
		"violations": reported, "assumptions": ck.Assumptions,
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev["seed"] = seed
	ev["coverage"] = map[string]interface{}{
		"states":                        points,
		"transitions":                   points - executions,
		"traces_validated_against_impl": executions,
		"rule":                          ck.Rule,
		"samples":                       samples,
		"schedules_by_class":            classes,
		"distinct_outcomes":             len(outcomes),
		"diverged":                      diverged,
		"unsupported":                   unsupported,
		"unconfirmed":                   unconfirmed,
		"known_findings_seen":           knownSeen,
		"instrumentation":               b.stats,
		"controlled":                    b.controlled,
		"note":                          b.note,
		"skipped":                       notes,
		"exhaustive":                    !truncated && !stop && b.controlled && diverged == 0 && unsupported == 0,
	}
	if err := engine.WriteEvidence(root, "C18", ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("C18 tier=%s schedules=%d points=%d outcomes=%d diverged=%d unsupported=%d controlled=%v truncated=%v wall=%.1fs violations=%d %s\n",
		tier, executions, points, len(outcomes), diverged, unsupported, b.controlled, truncated, time.Since(start).Seconds(), reported, b.note)
	return exit
}

// confirmSched repeats a failure in fresh processes and writes its replay
// file.
func confirmSched(b *schedBuild, root, tier string, j schedJob, bad string) (string, bool) {
	fails := func(rq SchedRequest, limit time.Duration) bool {
		rep, crash := b.run(j.binary, rq, limit)
		if crash == "killed" || strings.HasPrefix(crash, "start:") || strings.HasPrefix(crash, "no answer") {
			return false
		}
		return crash != "" || rep.Bad != ""
	}
	ok := false
	rq := j.rq
	rq.Progress = ""
	if j.binary == "free-race" {
		// what was seen on real goroutines is evidence by itself; it
		// still has to show again
		for i := 0; i < 30 && !ok; i++ {
			ok = fails(rq, 300*time.Second)
		}
	} else {
		one := rq
		one.Mode, one.Shard, one.NShards = "one", 0, 1
		ok = true
		for i := 0; i < 3 && ok; i++ {
			ok = fails(one, 120*time.Second)
		}
		if ok {
			rq = one
		} else {
			// it depends on the executions before it
			rq.Budget = 600
			ok = fails(rq, 700*time.Second) && fails(rq, 700*time.Second)
		}
	}
	if !ok {
		return "", false
	}
	r := schedReplay{"C18", tier, bad, j.binary, rq}
	out, _ := json.MarshalIndent(r, "", " ")
	h := sha256.Sum256(out)
	dir := filepath.Join(root, "out")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, "C18-"+hex.EncodeToString(h[:6])+".json")
	return path, os.WriteFile(path, out, 0o644) == nil
}

func replayC18(raw []byte) int {
	var r schedReplay
	if err := json.Unmarshal(raw, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	b, err := buildSched(root)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for i := 0; i < 30; i++ {
		rep, crash := b.run(r.Binary, r.Request, 700*time.Second)
		if crash != "" || rep.Bad != "" {
			fmt.Printf("goroutines %q, schedule %v\n%s%s\n", r.Request.Threads, r.Request.Devs, rep.Bad, crash)
			return 1
		}
		if r.Binary != "free-race" {
			break
		}
	}
	fmt.Println("the property held")
	return 0
}

func init() {
	register(&engine.Check{
		ID: "C18", Level: "model_checking", Driver: runC18, Replayer: replayC18,
		Rule:        "the code is copied with a scheduling point before every statement, around every use of a package-level variable and at every synchronisation operation, also of the antlr runtime; every schedule of two or three concurrent calls up to the named number of preemptions is executed under a cooperative scheduler, on warm processes and as the first calls of fresh ones, and every result compared with the reference model's and with the result of the call alone; a state is a point at which the scheduler decided, a trace is one complete schedule; the race-detector builds run the same schedules with hand-offs that the detector cannot see",
		Assumptions: []string{"sequentially consistent memory between scheduling points; data races are searched by the race detector in every explored schedule of the race builds and in free-running executions", "one statement is atomic to the scheduler", "antlr's unsynchronised internals are preempted only at its lock operations"},
	})
}
