// Package engine runs an exhaustive, deterministic enumeration of cases
// against the real code in worker processes and reports what it covered.
package engine

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Case is one execution of the implementation: a sequence of steps run in one
// process. Most checks use one step.
type Case struct {
	Kind string   `json:"kind"`           // selects the judge within the check
	In   []string `json:"in"`             // inputs (or operations)
	Want []string `json:"want,omitempty"` // expectation computed by the generator, if any
}

// Verdict of one case.
type Verdict struct {
	Bad     string // "" = the property held
	Outcome string // class of observed outcome, for the evidence
	Trivial bool   // excluded from distinct_nontrivial
}

// Check is one property check.
type Check struct {
	ID        string
	Level     string
	Workers   int // 0 = number of CPUs
	Enumerate func(g *Gen)
	Judge     func(c Case) Verdict
	// Setup runs once in each worker before the first case.
	Setup func()
	// Cold runs every case in its own fresh process.
	Rule        string
	Assumptions []string
	// Driver replaces the whole coordinator; Replayer its replay.
	Driver   func(tier, root string) int
	Replayer func(raw []byte) int
}

// Gen is the coordinator side handed to Enumerate.
type Gen struct {
	Tier        string
	States      int64
	Transitions int64
	Extra       map[string]interface{}
	Truncated   bool
	seen        map[[16]byte]bool
	emit        func(Case) bool
	deadline    time.Time
}

// Thorough tells whether the deep bounds apply.
func (g *Gen) Thorough() bool { return g.Tier == "thorough" }

// Emit schedules a case once; it reports false when the deadline has passed.
func (g *Gen) Emit(c Case) bool {
	h := sha256.New()
	for _, s := range append([]string{c.Kind}, c.In...) {
		fmt.Fprintf(h, "%d:%s;", len(s), s)
	}
	var k [16]byte
	copy(k[:], h.Sum(nil))
	if g.seen[k] {
		return true
	}
	g.seen[k] = true
	if time.Now().After(g.deadline) {
		g.Truncated = true
		return false
	}
	return g.emit(c)
}

// Stopped reports whether enumeration ought to end early.
func (g *Gen) Stopped() bool { return g.Truncated }

type ack struct {
	Seq     int
	Bad     string
	Outcome string
	Trivial bool
}

type violation struct {
	c       Case
	bad     string
	history []Case
}

// Known is one line of the known-findings file.
type Known struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	In       []string `json:"in"`
	What     string   `json:"what"`
	Status   string   `json:"status"` // "open" or "fixed"
	Commit   string   `json:"commit,omitempty"`
}

func LoadKnown(root string) ([]Known, error) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil, err
	}
	var ks []Known
	return ks, json.Unmarshal(b, &ks)
}

func (k Known) matches(id string, c Case) bool {
	if k.Status != "open" || k.Property != id || k.Kind != c.Kind || len(k.In) != len(c.In) {
		return false
	}
	for i := range k.In {
		if k.In[i] != c.In[i] {
			return false
		}
	}
	return true
}

// HangTimeout is how long one case may take before it counts as a hang. It is
// far above anything the code needs (milliseconds).
var HangTimeout = 150 * time.Second

const nSamples = 12

// Run is the coordinator.
func Run(ck *Check, tier, root string) int {
	if ck.Driver != nil {
		return ck.Driver(tier, root)
	}
	start := time.Now()
	known, err := LoadKnown(root)
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 6 * time.Hour
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	n := ck.Workers
	if n == 0 {
		n = 8
	}

	var mu sync.Mutex
	var bads []violation
	outcomes := map[string]int64{}
	var executions, nontrivial int64
	var samples []interface{}
	stop := make(chan struct{})
	var stopOnce sync.Once
	harnessErr := ""

	onAck := func(c Case, a ack, hist func() []Case) {
		mu.Lock()
		defer mu.Unlock()
		executions++
		if !a.Trivial {
			nontrivial++
		}
		outcomes[a.Outcome]++
		if outcomes[a.Outcome] == 1 && len(samples) < nSamples || executions == 1 {
			samples = append(samples, map[string]interface{}{"case": show(c), "outcome": a.Outcome})
		}
		if a.Bad != "" {
			isKnown := false
			for _, k := range known {
				isKnown = isKnown || k.matches(ck.ID, c)
			}
			v := violation{c: c, bad: a.Bad}
			if !isKnown {
				v.history = hist()
			}
			if len(bads) < 400 {
				bads = append(bads, v)
			}
			if !isKnown {
				// Some more cases finish while the workers drain; the
				// simplest one reported wins.
				stopOnce.Do(func() { close(stop) })
			}
		}
	}

	type wk struct {
		ch   chan Case
		done chan struct{}
	}
	ws := make([]wk, n)
	for i := range ws {
		ws[i] = wk{make(chan Case, 1<<14), make(chan struct{})}
		go func(w wk) {
			defer close(w.done)
			if err := runWorker(ck, tier, w.ch, stop, onAck); err != nil {
				mu.Lock()
				harnessErr = err.Error()
				mu.Unlock()
				stopOnce.Do(func() { close(stop) })
			}
		}(ws[i])
	}

	g := &Gen{Tier: tier, Extra: map[string]interface{}{}, seen: map[[16]byte]bool{}, deadline: start.Add(budget)}
	next := 0
	g.emit = func(c Case) bool {
		w := ws[next%n]
		next++
		select {
		case w.ch <- c:
			return true
		case <-stop:
			return false
		case <-w.done:
			return false
		}
	}
	ck.Enumerate(g)
	for _, w := range ws {
		close(w.ch)
	}
	for _, w := range ws {
		<-w.done
	}
	g.States = int64(len(g.seen)) // every distinct case is a state
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "harness error:", harnessErr)
		return 2
	}

	// Simplest counterexample first.
	sort.SliceStable(bads, func(i, j int) bool { return size(bads[i].c) < size(bads[j].c) })
	exit := 0
	reported := 0
	printedKnown := map[string]bool{}
	for _, v := range bads {
		isKnown := false
		for _, k := range known {
			if k.matches(ck.ID, v.c) {
				isKnown = true
				if key := show(v.c); !printedKnown[key] {
					printedKnown[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.What)
				}
			}
		}
		if isKnown || reported >= 3 {
			continue
		}
		path, ok := confirm(ck, tier, root, v)
		if !ok {
			fmt.Fprintf(os.Stderr, "not reproducible, not reported: %s: %s\n", show(v.c), v.bad)
			continue
		}
		reported++
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		fmt.Printf("  %s\n  %s\n", show(v.c), v.bad)
	}
	if exit == 0 {
		// nothing confirmed: say how many candidate failures there were
		g.Extra["unconfirmed"] = len(bads) - len(printedKnown)
	}

	oc := map[string]int64{}
	for k, v := range outcomes {
		if len(oc) < 40 {
			oc[k] = v
		}
	}
	cov := map[string]interface{}{
		"rule":                ck.Rule,
		"samples":             samples,
		"distinct_outcomes":   len(outcomes),
		"outcomes":            oc,
		"exhaustive":          !g.Truncated && exit == 0,
		"known_findings_seen": len(printedKnown),
	}
	if ck.Level == "model_checking" {
		cov["states"] = g.States                          // distinct inputs or histories
		cov["transitions"] = g.Transitions                // enumeration steps, also into states already seen
		cov["traces_validated_against_impl"] = executions // executed on the real code and compared
	} else {
		cov["evaluations"] = executions
		cov["distinct_nontrivial"] = nontrivial
	}
	for k, v := range g.Extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": reported,
	}
	if err := writeEvidence(root, ck.ID, ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s tier=%s states=%d transitions=%d executions=%d outcomes=%d exhaustive=%v wall=%.1fs violations=%d\n",
		ck.ID, tier, g.States, g.Transitions, executions, len(outcomes), cov["exhaustive"], time.Since(start).Seconds(), reported)
	return exit
}

func writeEvidence(root, id string, ev interface{}) error {
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(root, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

// WriteEvidence is for checks with their own driver.
func WriteEvidence(root, id string, ev interface{}) error { return writeEvidence(root, id, ev) }

func size(c Case) int {
	n := 0
	for _, s := range c.In {
		n += len(s) + 1
	}
	return n
}

func show(c Case) string {
	var q []string
	for _, s := range c.In {
		if len(s) > 300 {
			s = s[:120] + "..." + s[len(s)-120:]
		}
		q = append(q, strconv.Quote(s))
	}
	s := c.Kind + "(" + strings.Join(q, ", ") + ")"
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

// runWorker feeds one worker process. A dead or stuck worker is itself an
// observation about the case it was running.
func runWorker(ck *Check, tier string, in chan Case, stop chan struct{}, onAck func(Case, ack, func() []Case)) error {
	var hist []Case
	for {
		cmd := exec.Command(os.Args[0], "worker", ck.ID, tier)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400")
		stdin, err := cmd.StdinPipe()
		if err != nil {
			return err
		}
		stdout, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		var errBuf tail
		cmd.Stderr = &errBuf
		if err := cmd.Start(); err != nil {
			return err
		}
		bw := bufio.NewWriterSize(stdin, 1<<15)
		enc := gob.NewEncoder(bw)
		dec := gob.NewDecoder(bufio.NewReader(stdout))
		pend := make(chan Case, 1<<12)
		acks := make(chan ack, 64)
		decErr := make(chan error, 1)
		go func() {
			for {
				var a ack
				if err := dec.Decode(&a); err != nil {
					decErr <- err
					close(acks)
					return
				}
				acks <- a
			}
		}()
		sendDone := make(chan bool, 1)
		died := make(chan struct{})
		go func() {
			defer func() { bw.Flush(); stdin.Close() }()
			for {
				select {
				case <-stop:
					sendDone <- false
					return
				case <-died:
					sendDone <- false
					return
				case c, ok := <-in:
					if !ok {
						sendDone <- true
						return
					}
					select {
					case pend <- c:
					case <-stop:
						sendDone <- false
						return
					case <-died:
						sendDone <- false
						return
					}
					if enc.Encode(c) != nil {
						sendDone <- false
						return
					}
					if len(in) == 0 {
						bw.Flush()
					}
				}
			}
		}()
		crash := ""
		timer := time.NewTimer(HangTimeout)
	loop:
		for {
			select {
			case a, ok := <-acks:
				if !ok {
					break loop
				}
				c := <-pend
				hist = append(hist, c)
				onAck(c, a, func() []Case { return append([]Case(nil), hist...) })
				if !timer.Stop() {
					select {
					case <-timer.C:
					default:
					}
				}
				timer.Reset(HangTimeout)
			case <-timer.C:
				if len(pend) == 0 { // idle: the enumerator is slow
					timer.Reset(HangTimeout)
					continue
				}
				crash = fmt.Sprintf("no answer within %v", HangTimeout)
				cmd.Process.Kill()
				break loop
			}
		}
		close(died)
		if crash != "" {
			go io.Copy(io.Discard, stdout)
		}
		werr := cmd.Wait()
		finished := <-sendDone
		if crash == "" && werr != nil {
			crash = "the process died: " + werr.Error() + ": " + errBuf.head()
		}
		if crash != "" {
			select {
			case c := <-pend:
				onAck(c, ack{Bad: crash, Outcome: "crash"}, func() []Case { return append(hist, c) })
				hist = nil
				// requeue nothing: a violation stops the run
				select {
				case <-stop:
					return nil
				default: // known finding: go on with a new worker, losing the pipelined cases is not acceptable
					return fmt.Errorf("worker died on a known finding")
				}
			default:
				return fmt.Errorf("worker failed outside any case: %s", crash)
			}
		}
		if finished {
			return nil
		}
		return nil
	}
}

type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) head() string {
	s := t.b.String()
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic") {
			return l
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// Worker is the process that runs the implementation.
func Worker(ck *Check) int {
	debug.SetMaxStack(512 << 20)
	out := bufio.NewWriter(os.Stdout)
	enc := gob.NewEncoder(out)
	in := bufio.NewReaderSize(os.Stdin, 1<<15)
	dec := gob.NewDecoder(in)
	if ck.Setup != nil {
		ck.Setup()
	}
	for seq := 0; ; seq++ {
		var c Case
		if err := dec.Decode(&c); err != nil {
			if err == io.EOF {
				out.Flush()
				return 0
			}
			fmt.Fprintln(os.Stderr, "worker input:", err)
			return 3
		}
		t0 := time.Now()
		v := SafeJudge(ck, c)
		if slow := os.Getenv("MC_SLOW"); slow != "" && time.Since(t0) > time.Second {
			f, _ := os.OpenFile(slow, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			fmt.Fprintln(f, time.Since(t0), show(c))
			f.Close()
		}
		if err := enc.Encode(ack{seq, v.Bad, v.Outcome, v.Trivial}); err != nil {
			return 0
		}
		if err := out.Flush(); err != nil {
			return 0
		}
	}
}

// SafeJudge turns a panic of the code under test into a verdict.
func SafeJudge(ck *Check, c Case) (v Verdict) {
	defer func() {
		if r := recover(); r != nil {
			v = Verdict{Bad: fmt.Sprintf("panic: %v", r), Outcome: "panic"}
		}
	}()
	return ck.Judge(c)
}

// Replay file.
type replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	Cases    []Case `json:"cases"` // run in this order in one process; the last one fails
}

func confirm(ck *Check, tier, root string, v violation) (string, bool) {
	dir := filepath.Join(root, "out")
	os.MkdirAll(dir, 0o755)
	try := func(cs []Case, times int) (string, bool) {
		b, _ := json.Marshal(encCases(replay{ck.ID, tier, v.bad, cs}))
		h := sha256.Sum256(b)
		path := filepath.Join(dir, ck.ID+"-"+hex.EncodeToString(h[:6])+".json")
		if os.WriteFile(path, b, 0o644) != nil {
			return "", false
		}
		for i := 0; i < times; i++ {
			cmd := exec.Command(os.Args[0], "replay", path)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400")
			done := make(chan error, 1)
			if cmd.Start() != nil {
				return "", false
			}
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				if err == nil { // exit 0: the property held
					os.Remove(path)
					return "", false
				}
			case <-time.After(HangTimeout):
				cmd.Process.Kill()
				<-done
				return path, true
			}
		}
		return path, true
	}
	if p, ok := try([]Case{v.c}, 5); ok {
		return p, true
	}
	if len(v.history) > 1 {
		// shorten by halving while it still fails
		h := v.history
		p, ok := try(h, 1)
		if !ok {
			return "", false
		}
		for len(h) > 2 {
			cut := h[len(h)/2:]
			if q, ok2 := try(cut, 1); ok2 {
				os.Remove(p)
				h, p = cut, q
				continue
			}
			break
		}
		if q, ok := try(h, 3); ok {
			return q, true
		}
		_ = p
	}
	return "", false
}

// JSON needs valid UTF-8: inputs are quoted Go strings in replay files.
func encCases(r replay) replay {
	var cs []Case
	for _, c := range r.Cases {
		cs = append(cs, Case{c.Kind, quoteAll(c.In), quoteAll(c.Want)})
	}
	r.Cases = cs
	return r
}
func quoteAll(ss []string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, strconv.Quote(s))
	}
	return out
}

// Replay runs a replay file: exit 0 if the property held, 1 if not.
func Replay(path string, find func(id string) *Check) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	ck := find(r.Property)
	if ck == nil {
		fmt.Println("no such check", r.Property)
		return 2
	}
	if ck.Replayer != nil {
		return ck.Replayer(b)
	}
	debug.SetMaxStack(512 << 20)
	if ck.Setup != nil {
		ck.Setup()
	}
	for i, c := range r.Cases {
		for k := range c.In {
			c.In[k], _ = strconv.Unquote(c.In[k])
		}
		for k := range c.Want {
			c.Want[k], _ = strconv.Unquote(c.Want[k])
		}
		v := SafeJudge(ck, c)
		if v.Bad != "" {
			fmt.Printf("case %d of %d: %s\n  %s\n", i+1, len(r.Cases), show(c), v.Bad)
			if i == len(r.Cases)-1 {
				return 1
			}
		}
	}
	fmt.Println("the property held")
	return 0
}
