// Command sched runs concurrent scenarios on the instrumented copy of the
// code under test. It is built with that copy in place of the original.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verif/mc/checks"
	"verif/mc/vsched"
)

type (
	Request = checks.SchedRequest
	Reply   = checks.SchedReply
)

var req Request
var unsupported bool

func main() {
	debug.SetMaxStack(512 << 20)
	if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	point := func() { vsched.P(vsched.Shared) }
	checks.InstallCharset(point)
	var rep Reply
	rep.Outcomes = map[string]int{}
	if req.Mode == "free" {
		free(&rep)
	} else {
		runtime.GOMAXPROCS(1)
		controlled(&rep)
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

var (
	calls [][]*checks.Call
	alone map[string]string // what each call gives alone in this process
)

func prepare() {
	for _, t := range req.Threads {
		var cs []*checks.Call
		for _, op := range t {
			cs = append(cs, checks.NewCall(op))
		}
		calls = append(calls, cs)
	}
}

// solo runs every operation alone, under control, and returns what they give
// and how many points they pass.
func solo() (map[string]string, string) {
	out := map[string]string{}
	sizes := ""
	for ti, t := range req.Threads {
		for oi, op := range t {
			c := calls[ti][oi]
			var o *checks.Outcome
			r := vsched.Run([]func(){func() { defer catch(&o, nil); o = c.Do() }}, 7, nil)
			out[op] = o.String()
			sizes += fmt.Sprint(len(r.Points), " ")
		}
	}
	return out, sizes
}

func catch(_ **checks.Outcome, bad *string) {
	if r := recover(); r != nil && bad != nil {
		*bad = fmt.Sprintf("panic: %v", r)
	}
}

// execute runs the scenario once; it returns the points passed and what was
// wrong.
func execute(ds []vsched.Dev) (vsched.Result, string, string) {
	n := len(calls)
	outs := make([][]*checks.Outcome, n)
	then := make([][]string, n)
	panics := make([]string, n)
	bodies := make([]func(), n)
	for i := range calls {
		i := i
		outs[i] = make([]*checks.Outcome, len(calls[i]))
		then[i] = make([]string, len(calls[i]))
		bodies[i] = func() {
			defer catch(nil, &panics[i])
			for k, c := range calls[i] {
				outs[i][k] = c.Do()
				then[i][k] = outs[i][k].String()
			}
		}
	}
	if req.Progress != "" {
		b, _ := json.Marshal(ds)
		os.WriteFile(req.Progress, b, 0o644)
	}
	r := vsched.Run(bodies, req.Mask, ds)
	if r.Channel {
		unsupported = true
		return r, "", "waits for a channel"
	}
	if r.Deadlock {
		return r, "deadlock: every remaining goroutine waits for ever", "deadlock"
	}
	class := ""
	for i := range calls {
		if panics[i] != "" {
			return r, fmt.Sprintf("goroutine %d, %q: %s", i, req.Threads[i], panics[i]), "panic"
		}
		for k, c := range calls[i] {
			op := req.Threads[i][k]
			if bad := c.Judge(outs[i][k]); bad != "" {
				return r, fmt.Sprintf("goroutine %d, %q: %s", i, op, bad), "wrong"
			}
			if now := outs[i][k].String(); now != then[i][k] {
				return r, fmt.Sprintf("goroutine %d, %q: the result changed after it was returned: was %s, is %s", i, op, then[i][k], now), "changed"
			}
			if a, ok := alone[op]; ok && a != then[i][k] {
				return r, fmt.Sprintf("goroutine %d, %q: got %s, alone it gives %s", i, op, then[i][k], a), "differs"
			}
			class += then[i][k] + "|"
		}
	}
	return r, "", class
}

func controlled(rep *Reply) {
	prepare()
	if !req.Cold {
		// warm up until nothing changes any more
		prev, ps := solo()
		stable := 0
		for k := 0; k < 30 && stable < 2; k++ {
			cur, cs := solo()
			same := cs == ps
			for op, v := range cur {
				same = same && prev[op] == v
			}
			if same {
				stable++
			} else {
				stable = 0
			}
			prev, ps = cur, cs
		}
		rep.Warm = ps
		if stable == 2 {
			alone = prev
		} else {
			rep.Truncated = true
		}
		// one run in each order, so that what depends on neighbours is warm too
		if req.Mode == "explore" {
			for k := 0; k < 2; k++ {
				execute(nil)
			}
		}
	}
	if req.Mode == "one" {
		r, bad, class := execute(req.Devs)
		rep.Executions, rep.Points, rep.Total = 1, len(r.Points), int64(len(r.Points))
		rep.Bad, rep.Devs, rep.Trace = bad, req.Devs, r.Points
		rep.Outcomes[class]++
		if r.Diverged {
			rep.Diverged++
		}
		rep.Truncated = rep.Truncated || r.Overflow
		if req.Cold && bad == "" {
			after, _ := solo()
			for i := range calls {
				for _, op := range req.Threads[i] {
					if !strings.Contains(class, after[op]+"|") {
						rep.Bad = fmt.Sprintf("%q: alone it gives %s, but the concurrent first calls gave %s", op, after[op], class)
					}
				}
			}
		}
		return
	}
	e := &explorer{rep: rep, end: time.Now().Add(time.Duration(req.Budget * float64(time.Second)))}
	e.explore(nil, 0)
}

type explorer struct {
	rep  *Reply
	end  time.Time
	stop bool
}

func (e *explorer) explore(ds []vsched.Dev, cost int) {
	if e.stop {
		return
	}
	if time.Now().After(e.end) {
		e.rep.Truncated, e.stop = true, true
		return
	}
	own := len(ds) > 0 || req.Shard == 0
	r, bad, class := execute(ds)
	if own {
		e.rep.Executions++
		e.rep.Total += int64(len(r.Points))
		if len(e.rep.Outcomes) < 50 {
			e.rep.Outcomes[class]++
		}
	}
	if len(r.Points) > e.rep.Points {
		e.rep.Points = len(r.Points)
	}
	if r.Diverged {
		e.rep.Diverged++
	}
	if r.Overflow {
		e.rep.Truncated = true
	}
	if unsupported {
		e.rep.Truncated, e.rep.Unsupported, e.stop = true, true, true
		return
	}
	if bad != "" {
		e.rep.Bad, e.rep.Devs, e.stop = bad, append([]vsched.Dev{}, ds...), true
		return
	}
	from := 0
	if len(ds) > 0 {
		from = ds[len(ds)-1].Step + 1
	}
	for i := from; i < len(r.Points); i++ {
		if len(ds) == 0 && i%req.NShards != req.Shard {
			continue
		}
		p := r.Points[i]
		c := cost
		if !p.Forced {
			c++
		}
		if c > req.Bound {
			continue
		}
		for alt := 0; alt < 12; alt++ {
			if p.Enabled&(1<<uint(alt)) == 0 || alt == int(p.Chosen) {
				continue
			}
			e.explore(append(append([]vsched.Dev{}, ds...), vsched.Dev{Step: i, Thread: alt}), c)
			if e.stop {
				return
			}
		}
	}
}

// free runs the same bodies on real goroutines.
func free(rep *Reply) {
	prepare()
	for round := 0; round < req.Rounds; round++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		n := len(calls)
		outs := make([][]*checks.Outcome, n)
		for i := range calls {
			i := i
			outs[i] = make([]*checks.Outcome, len(calls[i]))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k, c := range calls[i] {
					outs[i][k] = c.Do()
				}
			}()
		}
		close(start)
		wg.Wait()
		rep.Executions++
		for i := range calls {
			for k, c := range calls[i] {
				if bad := c.Judge(outs[i][k]); bad != "" {
					rep.Bad = fmt.Sprintf("goroutine %d, %q: %s", i, req.Threads[i][k], bad)
					return
				}
				rep.Outcomes[outs[i][k].String()]++
			}
		}
	}
}
