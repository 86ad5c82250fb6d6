// Package run explores the spaces of a check in parallel worker processes,
// survives their crashes, and reports.
package run

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/explore"
)

// T is what a program reports to.
type T struct {
	msgs   []string
	sample string
	counts map[string]int64
	extra  explore.Stats // states of an inner exploration
}

// Failf reports that the property does not hold in this execution.
func (t *T) Failf(f string, a ...interface{}) { t.msgs = append(t.msgs, fmt.Sprintf(f, a...)) }

// Failed tells whether something has been reported.
func (t *T) Failed() bool { return len(t.msgs) > 0 }

// Count counts outcomes.
func (t *T) Count(what string) { t.counts[what]++ }

// Inner adds what an exploration within the program covered.
func (t *T) Inner(st explore.Stats) { t.extra.Add(st) }

// Sample describes the execution; the first ones are kept as samples.
func (t *T) Sample(f func() string) {
	if t.sample == "" {
		t.sample = f()
	}
}

// Space is a set of executions.
type Space struct {
	Name string
	What string // what is enumerated, within what bounds
	Prog func(c *explore.Ctx, t *T)
	Slow time.Duration // how long one execution may take; 90 s by default
	Solo bool          // not to be split between workers (but may run beside other spaces)
	// Build is the build of the harness that the space is for: "", "race" (with
	// the race detector) or "clibs" (with the C library for zstd). The others
	// are executed if the environment tells where they are.
	Build string
}

// Check decides a property.
type Check struct {
	ID          string
	Spaces      func(thorough bool) []Space
	Assumptions []string
}

// Failure is an execution that broke the property.
type Failure struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Space    string   `json:"space"`
	Trail    []int    `json:"trail"`
	Messages []string `json:"messages"`
	Seen     string   `json:"seen"`
	Replay   string   `json:"how_to_replay"`
}

type spaceResult struct {
	Name     string
	Stats    explore.Stats
	Counts   map[string]int64
	Samples  []string
	Complete bool
	Wall     float64
}

type result struct {
	Spaces   []spaceResult
	Failures []Failure
	Flaky    []Failure
}

// board is memory shared between a worker and its parent: what it is doing.
type board struct {
	mem []byte
}

const boardSize = 1 << 16

func openBoard(path string) (*board, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(boardSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, boardSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return &board{m}, err
}

func (b *board) seq() *uint64 { return (*uint64)(unsafe.Pointer(&b.mem[0])) }

func (b *board) note(space int, trail []int) {
	binary.LittleEndian.PutUint32(b.mem[8:], uint32(space))
	binary.LittleEndian.PutUint32(b.mem[12:], uint32(len(trail)))
	for i, t := range trail {
		if 16+4*i+4 > len(b.mem) {
			break
		}
		binary.LittleEndian.PutUint32(b.mem[16+4*i:], uint32(t))
	}
	atomic.AddUint64(b.seq(), 1)
}

func (b *board) read() (space int, trail []int) {
	space = int(binary.LittleEndian.Uint32(b.mem[8:]))
	n := int(binary.LittleEndian.Uint32(b.mem[12:]))
	for i := 0; i < n && 16+4*i+4 <= len(b.mem); i++ {
		trail = append(trail, int(binary.LittleEndian.Uint32(b.mem[16+4*i:])))
	}
	return
}

// once executes prog once, as chosen, and returns what it reports.
func once(sp Space, trail []int) []string {
	t := &T{counts: map[string]int64{}}
	guarded(func() { explore.Replay(trail, func(c *explore.Ctx) { sp.Prog(c, t) }) }, t)
	return t.msgs
}

func guarded(f func(), t *T) {
	defer func() {
		if r := recover(); r != nil {
			t.Failf("panic: %v\n%s", r, stack())
		}
	}()
	f()
}

func stack() string {
	var keep []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t") && (strings.Contains(l, "sereal") || strings.Contains(l, "/mc/")) {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) == 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

const maxFailures = 3

// worker explores one shard of all spaces.
func worker(chk *Check, tier string, shard, shards int, boardPath string, deadline time.Time, only string) {
	if thisBuild != "race" {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMemoryLimit(2 << 30)
	b, err := openBoard(boardPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var res result
	for i, sp := range chk.Spaces(tier == "thorough") {
		if only != "" && !strings.Contains(sp.Name, only) || sp.Build != thisBuild {
			continue
		}
		n := shards
		if sp.Solo {
			if i%shards != shard {
				continue
			}
			n = 1
		}
		sr := spaceResult{Name: sp.Name, Counts: map[string]int64{}, Complete: true}
		start := time.Now()
		fails := 0
		var execs int
		stop := func() bool {
			execs++
			if execs%128 == 1 && first(boardPath) {
				sr.Complete = false
				return true
			}
			if fails >= maxFailures {
				sr.Complete = false
				return true
			}
			if execs%64 == 0 && time.Now().After(deadline) {
				sr.Complete = false
				return true
			}
			return false
		}
		myShard := shard
		if n == 1 {
			myShard = 0
		}
		note := func(tr []int) { b.note(i, tr) }
		var inner explore.Stats
		sr.Stats = explore.Run(myShard, n, note, func(c *explore.Ctx) {
			t := &T{counts: sr.Counts}
			if len(sr.Samples) >= 2 {
				t.sample = "-"
			}
			guardedSkip(func() { sp.Prog(c, t) }, t)
			inner.Add(t.extra)
			if t.sample != "" && t.sample != "-" {
				sr.Samples = append(sr.Samples, t.sample)
			}
			if !t.Failed() {
				return
			}
			f := Failure{Property: chk.ID, Tier: tier, Space: sp.Name, Trail: c.Trail(), Messages: t.msgs}
			again := 0
			for k := 0; k < 5; k++ {
				if len(once(sp, f.Trail)) > 0 {
					again++
				}
			}
			f.Seen = fmt.Sprintf("failed again in %d of 5 executions of the same choices", again)
			if again >= 1 {
				res.Failures = append(res.Failures, f)
				fails++
				found(boardPath)
			} else {
				res.Flaky = append(res.Flaky, f)
			}
		}, stop)
		sr.Stats.Add(inner)
		sr.Wall = time.Since(start).Seconds()
		res.Spaces = append(res.Spaces, sr)
		runtime.GC()
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// With MC_FIRST set the first failure of any worker ends the exploration; the
// file says that there has been one.
func found(board string) {
	if os.Getenv("MC_FIRST") != "" {
		os.WriteFile(filepath.Join(filepath.Dir(board), "found"), nil, 0o600)
	}
}

func first(board string) bool {
	if os.Getenv("MC_FIRST") == "" {
		return false
	}
	_, err := os.Stat(filepath.Join(filepath.Dir(board), "found"))
	return err == nil
}

func guardedSkip(f func(), t *T) {
	defer func() {
		if r := recover(); r != nil {
			if explore.IsSkip(r) {
				panic(r)
			}
			t.Failf("panic: %v\n%s", r, stack())
		}
	}()
	f()
}

type workerRun struct {
	shard  int
	cmd    *exec.Cmd
	out    bytes.Buffer
	err    tail
	b      *board
	done   chan error
	killed bool
}

// tail keeps the first and last bytes that are written to it.
type tail struct {
	head, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	n := len(p)
	if k := 2000 - len(t.head); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 2000 {
		t.last = t.last[len(t.last)-2000:]
	}
	return n, nil
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

func trailString(tr []int) string {
	s := make([]string, len(tr))
	for i, t := range tr {
		s[i] = strconv.Itoa(t)
	}
	return strings.Join(s, ",")
}

// Main is the main function of the check binary.
//
//	mc run ID tier outdir [space]    explore, write evidence, report
//	mc worker ...                    (internal)
//	mc replay FILE                   execute one failure again
//	mc exec ID tier space trail      execute one execution
//	mc list
func Main(checks []*Check) {
	find := func(id string) *Check {
		for _, c := range checks {
			if c.ID == id {
				return c
			}
		}
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(3)
		return nil
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|replay|list ...")
		os.Exit(3)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "list":
		for _, c := range checks {
			for _, sp := range c.Spaces(true) {
				fmt.Printf("%s %-24s %s\n", c.ID, sp.Name, sp.What)
			}
		}
	case "worker":
		shard, _ := strconv.Atoi(a[2])
		shards, _ := strconv.Atoi(a[3])
		ns, _ := strconv.ParseInt(a[5], 10, 64)
		worker(find(a[0]), a[1], shard, shards, a[4], time.Unix(0, ns), a[6])
	case "exec":
		var tr []int
		for _, s := range strings.Split(a[3], ",") {
			if s != "" {
				n, _ := strconv.Atoi(s)
				tr = append(tr, n)
			}
		}
		execOne(find(a[0]), a[1], a[2], tr)
	case "replay":
		raw, err := os.ReadFile(a[0])
		var f Failure
		if err == nil {
			err = json.Unmarshal(raw, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		execOne(find(f.Property), f.Tier, f.Space, f.Trail)
	case "run":
		only := ""
		if len(a) > 3 {
			only = a[3]
		}
		os.Exit(parent(find(a[0]), a[1], a[2], only))
	}
}

// builtAs is the harness of another build, if there is one.
func builtAs(build string) string {
	if build == thisBuild {
		return ""
	}
	return os.Getenv("MC_" + strings.ToUpper(build))
}

func execOne(chk *Check, tier, space string, tr []int) {
	if thisBuild != "race" {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMemoryLimit(2 << 30)
	for _, sp := range chk.Spaces(tier == "thorough") {
		if sp.Name == space {
			if r := builtAs(sp.Build); r != "" {
				syscall.Exec(r, append([]string{r}, "exec", chk.ID, tier, space, trailString(tr)), os.Environ())
			}
			msgs := once(sp, tr)
			for _, m := range msgs {
				fmt.Println(m)
			}
			if len(msgs) > 0 {
				os.Exit(1)
			}
			fmt.Println("no violation")
			return
		}
	}
	fmt.Fprintln(os.Stderr, "no such space:", space)
	os.Exit(3)
}

// Known is an accepted failure.
type Known struct{ Property, Space, Trail, What string }

func knownFindings(path string) (ks []Known) {
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(raw), "\n") {
		// finding: property=P05 space=bytes trail=1,2,3 what fails
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k Known
		rest := []string{}
		for _, w := range strings.Fields(l)[1:] {
			switch {
			case strings.HasPrefix(w, "property="):
				k.Property = w[9:]
			case strings.HasPrefix(w, "space="):
				k.Space = w[6:]
			case strings.HasPrefix(w, "trail="):
				k.Trail = w[6:]
			default:
				rest = append(rest, w)
			}
		}
		k.What = strings.Join(rest, " ")
		ks = append(ks, k)
	}
	return ks
}

func parent(chk *Check, tier, verif, only string) int {
	start := time.Now()
	budget := 700 * time.Second
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	deadline := start.Add(budget)
	spaces := chk.Spaces(tier == "thorough")
	if !slices.ContainsFunc(spaces, func(sp Space) bool { return strings.Contains(sp.Name, only) }) {
		fmt.Fprintf(os.Stderr, "no space of %s is called %q\n", chk.ID, only)
		return 2
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if s, _ := strconv.Atoi(os.Getenv("MC_WORKERS")); s > 0 {
		shards = s
	}
	tmp, err := os.MkdirTemp("", "mc-"+chk.ID)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)

	bins := []string{self()}
	used := map[string]bool{}
	for _, sp := range spaces {
		if r := builtAs(sp.Build); r != "" && !used[r] {
			used[r] = true
			bins = append(bins, r)
		}
	}
	var mu sync.Mutex
	var all result
	lost := 0
	var wg sync.WaitGroup
	sem := make(chan bool, shards)
	for bi, bin := range bins {
		for s := 0; s < shards; s++ {
			wg.Add(1)
			go func(bi int, bin string, s int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				for try := 0; ; try++ {
					w := &workerRun{shard: s}
					path := filepath.Join(tmp, fmt.Sprintf("board%d-%d-%d", bi, s, try))
					w.b, err = openBoard(path)
					if err != nil {
						fmt.Fprintln(os.Stderr, err)
						return
					}
					w.cmd = exec.Command(bin, "worker", chk.ID, tier, strconv.Itoa(s), strconv.Itoa(shards), path, strconv.FormatInt(deadline.UnixNano(), 10), only)
					w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
					w.cmd.Stdout = &w.out
					w.cmd.Stderr = &w.err
					hung := false
					werr := w.watch(spaces, &hung)
					if werr == nil {
						var r result
						if err := json.Unmarshal(w.out.Bytes(), &r); err != nil {
							fmt.Fprintf(os.Stderr, "worker %d: %v\n", s, err)
							mu.Lock()
							lost++
							mu.Unlock()
							return
						}
						mu.Lock()
						all.Failures = append(all.Failures, r.Failures...)
						all.Flaky = append(all.Flaky, r.Flaky...)
						all.Spaces = append(all.Spaces, r.Spaces...)
						mu.Unlock()
						return
					}
					// the worker died: is it the fault of what it was doing?
					i, tr := w.b.read()
					msg := fmt.Sprintf("the process died (%v)", werr)
					if hung {
						msg = "the execution does not end"
					}
					f := Failure{Property: chk.ID, Tier: tier, Space: spaces[i].Name, Trail: tr}
					again := 0
					for k := 0; k < 2; k++ {
						if died(bin, f, spaces[i].limit()) {
							again++
						}
					}
					f.Messages = []string{msg, string(w.err.head), string(w.err.last)}
					f.Seen = fmt.Sprintf("again in %d of 2 processes of their own", again)
					mu.Lock()
					if again > 0 {
						found(path)
						all.Failures = append(all.Failures, f)
						mu.Unlock()
						return
					}
					all.Flaky = append(all.Flaky, f)
					mu.Unlock()
					if try == 1 {
						mu.Lock()
						lost++
						mu.Unlock()
						return
					}
				}
			}(bi, bin, s)
		}
	}
	wg.Wait()
	return report(chk, tier, verif, spaces, all, lost, time.Since(start).Seconds(), only)
}

func (sp Space) limit() time.Duration {
	if sp.Slow > 0 {
		return sp.Slow
	}
	return 90 * time.Second
}

func (w *workerRun) watch(spaces []Space, hung *bool) error {
	if err := w.cmd.Start(); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- w.cmd.Wait() }()
	last, since := uint64(0), time.Now()
	for {
		select {
		case err := <-done:
			return err
		case <-time.After(time.Second):
			if n := atomic.LoadUint64(w.b.seq()); n != last {
				last, since = n, time.Now()
			} else if i, _ := w.b.read(); n > 0 && time.Since(since) > spaces[i].limit() {
				*hung = true
				w.cmd.Process.Kill()
				return <-done
			}
		}
	}
}

func died(bin string, f Failure, limit time.Duration) bool {
	cmd := exec.Command(bin, "exec", f.Property, f.Tier, f.Space, trailString(f.Trail))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	done := make(chan error, 1)
	if cmd.Start() != nil {
		return false
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return err != nil
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return true
	}
}

func report(chk *Check, tier, verif string, spaces []Space, all result, lost int, wall float64, only string) int {
	known := knownFindings(filepath.Join(verif, "known_findings.txt"))
	bySpace := map[string]*spaceResult{}
	var total explore.Stats
	complete := lost == 0
	for _, r := range all.Spaces {
		s := bySpace[r.Name]
		if s == nil {
			s = &spaceResult{Name: r.Name, Counts: map[string]int64{}, Complete: true}
			bySpace[r.Name] = s
		}
		s.Stats.Add(r.Stats)
		total.Add(r.Stats)
		for k, n := range r.Counts {
			s.Counts[k] += n
		}
		if len(s.Samples) < 2 {
			s.Samples = append(s.Samples, r.Samples...)
		}
		s.Complete = s.Complete && r.Complete
		if r.Wall > s.Wall {
			s.Wall = r.Wall
		}
		complete = complete && r.Complete
	}
	var samples []string
	perSpace := []map[string]interface{}{}
	for _, sp := range spaces {
		s := bySpace[sp.Name]
		if s == nil {
			if only == "" {
				complete = false
				perSpace = append(perSpace, map[string]interface{}{"space": sp.Name, "enumerates": sp.What, "complete": false, "note": "not explored: there is no build " + sp.Build})
				fmt.Printf("note: %s is not explored: there is no build %s\n", sp.Name, sp.Build)
			}
			continue
		}
		if len(s.Samples) > 2 {
			s.Samples = s.Samples[:2]
		}
		for _, x := range s.Samples {
			if len(samples) < 12 {
				samples = append(samples, sp.Name+": "+x)
			}
		}
		perSpace = append(perSpace, map[string]interface{}{
			"space": sp.Name, "enumerates": sp.What, "states": s.Stats.States, "transitions": s.Stats.Transitions,
			"executions": s.Stats.Executions, "outcomes": s.Counts, "complete": s.Complete, "wall_s": s.Wall,
		})
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Printf("%-22s %9d executions %10d states %6.1fs complete=%v %v\n", sp.Name, s.Stats.Executions, s.Stats.States, s.Wall, s.Complete, s.Counts)
		}
	}
	sort.SliceStable(all.Failures, func(i, j int) bool { return len(all.Failures[i].Trail) < len(all.Failures[j].Trail) })
	violations := 0
	reported := map[string]bool{}
	var lines []string
	for _, f := range all.Failures {
		isKnown := false
		for _, k := range known {
			if k.Property == chk.ID && k.Space == f.Space && k.Trail == trailString(f.Trail) {
				isKnown = true
				if key := k.Space + k.Trail; !reported[key] {
					reported[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k.What)
				}
			}
		}
		if isKnown {
			continue
		}
		violations++
		if reported[f.Space] || len(lines) >= 5 {
			continue // one per space is enough
		}
		reported[f.Space] = true
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", chk.ID, len(lines)))
		f.Replay = "/verif/check.sh replay " + path
		raw, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, raw, 0o644)
		m := f.Messages[0]
		if len(m) > 1500 {
			m = m[:1500]
		}
		fmt.Printf("%s/%s, choices %v: %s\n", chk.ID, f.Space, f.Trail, m)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", chk.ID, path))
	}
	for i, f := range all.Flaky {
		if i < 3 {
			fmt.Printf("note: not reproduced, not reported: %s %v %.300s\n", f.Space, f.Trail, strings.Join(f.Messages, " | "))
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if only == "" {
		ev := map[string]interface{}{
			"property": chk.ID, "tier": tier, "seed": seed, "level": "model_checking",
			"coverage": map[string]interface{}{
				"states": total.States, "transitions": total.Transitions,
				"traces_validated_against_impl": total.Executions,
				"samples":                       samples, "exhaustive": complete && violations == 0,
				"spaces": perSpace, "flaky": len(all.Flaky), "instrumented": os.Getenv("MC_INSTRUMENTED") != "",
				"explanation": "Every execution is a run of the code in /repo along one sequence of choices; states are the nodes and transitions the edges of the tree of choices. A space that is complete has been enumerated entirely.",
			},
			"assumptions": chk.Assumptions, "wall_s": wall, "violations": violations,
		}
		raw, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, "evidence", chk.ID+".json"), append(raw, '\n'), 0o644)
	}
	fmt.Printf("%s: %d executions, %d states, %d transitions in %d spaces, complete=%v, %.1f s\n", chk.ID, total.Executions, total.States, total.Transitions, len(perSpace), complete, wall)
	if violations > 0 {
		return 1
	}
	return 0
}
