package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/vsync"
)

// A check enumerates cases in a fixed order; every worker process walks the
// whole enumeration and executes the cases of its shard.
type check struct {
	id     string
	run    func(x *X)
	race   bool // wants the binary with the race detector
	bounds string
	traces string
	notes  []string // assumptions
	single bool     // one worker only
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

type Fail struct {
	Case   int    `json:"case"`
	Desc   string `json:"desc"`
	Detail string `json:"detail"`
	Kind   string `json:"kind"` // mismatch, panic, crash, hang
	Shard  int    `json:"shard"`
	After  bool   `json:"after"` // fails only after the earlier cases of its shard
}

type Result struct {
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Extra       map[string]int64 `json:"extra"`
	Samples     []string         `json:"samples"`
	Fails       []Fail           `json:"fails"`
	Capped      bool             `json:"capped"`
	Cases       int              `json:"cases"`
	Done        bool             `json:"done"`
}

// X is the exploration as a worker sees it.
type X struct {
	Result
	id       string
	thorough bool
	shard    int
	shards   int
	only     int
	idx      int
	deadline time.Time
	progress []byte
	stopped  bool
	desc     func() string
	scratch  string
	acc, rej int64
	known    known
}

// failure is raised by Failf.
type failure struct{ msg string }

func Failf(format string, args ...interface{}) { panic(failure{fmt.Sprintf(format, args...)}) }

func (x *X) Tick() {
	n := uint64(x.progress[8]) | uint64(x.progress[9])<<8 | uint64(x.progress[10])<<16 | uint64(x.progress[11])<<24
	n++
	x.progress[8], x.progress[9], x.progress[10], x.progress[11] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
}

func (x *X) Timeup() bool {
	if time.Now().After(x.deadline) {
		x.Capped = true
		return true
	}
	return false
}

// Mine says whether the next case belongs to this worker, without running it.
// Case must follow iff it returns true; Skip otherwise.
func (x *X) mine() bool {
	if x.stopped {
		return false
	}
	if x.only >= 0 {
		return x.idx == x.only
	}
	return x.idx%x.shards == x.shard
}

// Case runs one case (if it belongs to this worker).
func (x *X) Case(desc func() string, body func()) {
	defer func() { x.idx++ }()
	if !x.mine() {
		return
	}
	if x.only < 0 && x.idx%16 < x.shards && x.Timeup() {
		x.stopped = true
		return
	}
	x.record()
	x.Cases++
	if len(x.Samples) < 2 || (len(x.Samples) < 5 && x.Cases%97 == 0) {
		x.Samples = append(x.Samples, desc())
	}
	if x.only >= 0 {
		fmt.Fprintln(os.Stderr, "case:", trim(desc(), 1500))
	}
	kind, detail := protect(body)
	setOrder(0)
	if kind == "" {
		return
	}
	x.Fails = append(x.Fails, Fail{Case: x.idx, Desc: desc(), Detail: detail, Kind: kind})
	n := 0
	for _, f := range x.Fails {
		if x.known.match(f) == "" {
			n++
		}
	}
	if n >= 3 {
		x.stopped = true
	}
}

func (x *X) record() {
	n := uint64(x.idx) + 1
	for i := 0; i < 8; i++ {
		x.progress[i] = byte(n >> (8 * i))
	}
}

// protect runs body and classifies how it ended ("" is well).
func protect(body func()) (kind, detail string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case failure:
				kind, detail = "mismatch", e.msg
			case vsync.Deadlock:
				kind, detail = "deadlock", e.What
			default:
				kind, detail = "panic", fmt.Sprint(r)+"\n"+trim(string(debug.Stack()), 3000)
			}
		}
	}()
	body()
	return
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (x *X) count(key string, n int64) {
	if x.Extra == nil {
		x.Extra = map[string]int64{}
	}
	x.Extra[key] += n
}

// ------------------------------------------------------------------ worker

func worker(args []string) {
	// worker ID TIER SHARD SHARDS ONLY DEADLINE-SECONDS OUTFILE PROGRESSFILE SCRATCH
	c := checks[args[0]]
	x := &X{id: args[0], thorough: args[1] == "thorough"}
	x.shard, _ = strconv.Atoi(args[2])
	x.shards, _ = strconv.Atoi(args[3])
	x.only, _ = strconv.Atoi(args[4])
	secs, _ := strconv.Atoi(args[5])
	x.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	x.scratch = args[8]
	x.known = readKnown(os.Getenv("MC_VERIF"), x.id)
	pf, err := os.OpenFile(args[7], os.O_RDWR|os.O_CREATE, 0644)
	must(err)
	must(pf.Truncate(16))
	x.progress, err = syscall.Mmap(int(pf.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	debug.SetMaxStack(200 << 20)
	stop := profile(args[0] + "_" + args[2])
	c.run(x)
	stop()
	x.Done = true
	if x.acc+x.rej > 0 {
		x.count("accepted", x.acc)
		x.count("rejected", x.rej)
	}
	b, err := json.Marshal(&x.Result)
	must(err)
	must(os.WriteFile(args[6], b, 0644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(3)
	}
}

// ------------------------------------------------------------------ parent

type proc struct {
	cmd      *exec.Cmd
	out      string
	progress string
	log      string
	done     chan error
	finished bool
	err      error
	hang     bool
	lastKey  string
	lastCPU  float64
	lastWall time.Time
}

func (p *proc) at() (int, string) {
	b, err := os.ReadFile(p.progress)
	if err != nil || len(b) < 16 {
		return -1, ""
	}
	n := uint64(0)
	for i := 0; i < 8; i++ {
		n |= uint64(b[i]) << (8 * i)
	}
	return int(n) - 1, string(b)
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndexByte(s, ')')+1:]
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	v, _ := strconv.ParseFloat(f[12], 64)
	return (u + v) / 100
}

const (
	hangCPU  = 60.0              // CPU seconds without any progress
	hangWall = 240 * time.Second // seconds without any progress nor CPU use
)

func start(bin, id, tier string, shard, shards, only, secs int, scratch string) *proc {
	p := &proc{done: make(chan error, 1)}
	tag := fmt.Sprintf("%d_%d", shard, only)
	p.out = filepath.Join(scratch, "out_"+tag)
	p.progress = filepath.Join(scratch, "progress_"+tag)
	p.log = filepath.Join(scratch, "log_"+tag)
	os.Remove(p.out)
	os.Remove(p.progress)
	dir := filepath.Join(scratch, "work_"+tag)
	os.MkdirAll(dir, 0755)
	lf, err := os.Create(p.log)
	must(err)
	defer lf.Close()
	p.cmd = exec.Command(bin, "worker", id, tier, strconv.Itoa(shard), strconv.Itoa(shards), strconv.Itoa(only), strconv.Itoa(secs), p.out, p.progress, dir)
	p.cmd.Stdout, p.cmd.Stderr = lf, lf
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single")
	must(p.cmd.Start())
	p.lastWall = time.Now()
	go func() { p.done <- p.cmd.Wait() }()
	return p
}

// poll looks after a worker; it reports whether it has ended.
func (p *proc) poll() bool {
	if p.finished {
		return true
	}
	select {
	case p.err = <-p.done:
		p.finished = true
		return true
	default:
	}
	_, key := p.at()
	cpu := cpuSeconds(p.cmd.Process.Pid)
	if key != p.lastKey {
		p.lastKey, p.lastCPU, p.lastWall = key, cpu, time.Now()
		return false
	}
	if cpu-p.lastCPU > hangCPU || (time.Since(p.lastWall) > hangWall && cpu-p.lastCPU < 1) {
		p.hang = true
		p.cmd.Process.Kill()
		p.err = <-p.done
		p.finished = true
		return true
	}
	return false
}

func (p *proc) result() (Result, bool) {
	var r Result
	b, err := os.ReadFile(p.out)
	if err != nil || json.Unmarshal(b, &r) != nil || !r.Done {
		return r, false
	}
	return r, true
}

// harness: the worker gave up because of the machinery, not the code.
func (p *proc) harness() bool {
	ee, ok := p.err.(*exec.ExitError)
	return ok && !p.hang && ee.ExitCode() == 3
}

func (p *proc) crash() Fail {
	idx, _ := p.at()
	f := Fail{Case: idx, Kind: "crash"}
	b, _ := os.ReadFile(p.log)
	f.Detail = fmt.Sprintf("worker ended: %v\n%s", p.err, trim(string(b), 4000))
	if p.hang {
		f.Kind = "hang"
		f.Detail = fmt.Sprintf("no progress within %.0f CPU seconds\n%s", hangCPU, trim(string(b), 1000))
	}
	if strings.Contains(string(b), "WARNING: DATA RACE") {
		f.Kind = "data race"
	}
	return f
}

func runCheck(bin, id, tier, verif, scratch string, only int) int {
	os.Setenv("MC_VERIF", verif)
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "mc: no check", id)
		return 3
	}
	t0 := time.Now()
	secs := 300
	if tier == "thorough" {
		secs = 1500
	}
	if s := os.Getenv("MC_SECONDS"); s != "" {
		secs, _ = strconv.Atoi(s)
	}
	shards := 8
	if c.single {
		shards = 1
	}
	if only >= 0 {
		p := start(bin, id, tier, 0, shards, only, secs, scratch)
		for !p.poll() {
			time.Sleep(50 * time.Millisecond)
		}
		r, ok := p.result()
		if !ok {
			r.Fails = []Fail{p.crash()}
		}
		for _, f := range r.Fails {
			fmt.Printf("case %d (%s)\n%s\n%s\n", f.Case, f.Kind, f.Desc, f.Detail)
		}
		if len(r.Fails) > 0 {
			return 1
		}
		fmt.Println("the case holds")
		return 0
	}

	var ps []*proc
	for i := 0; i < shards; i++ {
		ps = append(ps, start(bin, id, tier, i, shards, -1, secs, scratch))
	}
	total := Result{Extra: map[string]int64{}}
	var suspects []Fail
	harnessErr := ""
	for {
		all := true
		for _, p := range ps {
			if !p.poll() {
				all = false
			}
		}
		if all {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	for i, p := range ps {
		r, ok := p.result()
		if !ok {
			f := p.crash()
			f.Shard = i
			if f.Case < 0 || p.harness() {
				harnessErr = f.Detail
			} else {
				suspects = append(suspects, f)
			}
			total.Capped = true
			continue
		}
		total.States += r.States
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		total.Cases += r.Cases
		total.Capped = total.Capped || r.Capped
		for k, v := range r.Extra {
			total.Extra[k] += v
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		for _, f := range r.Fails {
			f.Shard = i
			suspects = append(suspects, f)
		}
	}
	sort.Slice(suspects, func(i, j int) bool { return suspects[i].Case < suspects[j].Case })

	// A suspect counts when executing its case alone in a fresh process, or
	// after the same history, fails again.
	known := readKnown(verif, id)
	knowns := 0
	var confirmed []Fail
	knownSeen := map[string]bool{}
	unconfirmed, reruns := 0, 0
	for _, f := range suspects {
		if len(confirmed) >= 2 {
			break
		}
		again := 0
		for k := 0; k < 5; k++ {
			p := start(bin, id, tier, 0, shards, f.Case, secs, scratch)
			for !p.poll() {
				time.Sleep(5 * time.Millisecond)
			}
			r, ok := p.result()
			if !ok {
				cf := p.crash()
				if cf.Case == f.Case {
					again++
					f.Detail = cf.Detail
				}
			} else if len(r.Fails) > 0 {
				again++
				f.Desc, f.Detail = r.Fails[0].Desc, r.Fails[0].Detail
			}
			if f.Kind == "hang" && again > 0 {
				break
			}
		}
		if again == 0 && reruns < 2 {
			// it may take the history of its shard
			reruns++
			p := start(bin, id, tier, f.Shard, shards, -1, secs, scratch)
			for !p.poll() {
				time.Sleep(5 * time.Millisecond)
			}
			r, ok := p.result()
			if !ok && p.crash().Case == f.Case {
				again, f.After = 1, true
			}
			for _, g := range r.Fails {
				if ok && g.Case == f.Case {
					again, f.After = 1, true
				}
			}
		}
		if again == 0 {
			unconfirmed++
			continue
		}
		if kf := known.match(f); kf != "" {
			knownSeen[kf] = true
			knowns++
			continue
		}
		confirmed = append(confirmed, f)
	}
	for kf := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf)
	}

	wall := time.Since(t0).Seconds()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]interface{}{
		"states":                        total.States,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"samples":                       nonempty(total.Samples),
		"exhaustive":                    !total.Capped && harnessErr == "" && len(suspects) == knowns,
		"cases":                         total.Cases,
		"bounds":                        c.bounds,
		"how_traces_were_validated":     c.traces,
		"measured":                      total.Extra,
		"unconfirmed_suspects":          unconfirmed,
		"known_findings_seen":           knowns,
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": append([]string{}, c.notes...),
		"wall_s":      wall,
		"violations":  len(confirmed),
	}
	evdir := filepath.Join(verif, "evidence")
	must(os.MkdirAll(evdir, 0755))
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0644))

	if len(confirmed) > 0 {
		for i, f := range confirmed {
			fn := filepath.Join(evdir, fmt.Sprintf("%s.replay%d.json", id, i))
			replay := fmt.Sprintf("bash /verif/run.sh %s %s %d", id, tier, f.Case)
			if f.After {
				replay = fmt.Sprintf("bash /verif/run.sh %s %s (the failure needs the cases before it in shard %d of %d)", id, tier, f.Shard, shards)
			}
			rb, _ := json.MarshalIndent(map[string]interface{}{
				"property": id, "tier": tier, "case": f.Case, "kind": f.Kind, "what": f.Desc, "observed": f.Detail,
				"replay": replay,
			}, "", " ")
			must(os.WriteFile(fn, append(rb, '\n'), 0644))
			fmt.Printf("%s: case %d: %s\n  %s\n  %s\n", id, f.Case, f.Kind, f.Desc, trim(f.Detail, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
		}
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "mc: a worker failed outside any case:", harnessErr)
		return 3
	}
	fmt.Printf("%s held: %d states, %d transitions, %d traces, exhaustive=%v, %.1fs\n", id, total.States, total.Transitions, total.Traces, cov["exhaustive"], wall)
	return 0
}

func nonempty(s []string) []string {
	if len(s) == 0 {
		return []string{"(none)"}
	}
	return s
}

// ------------------------------------------------------------------ known findings

// known-findings.txt has lines
//
//	finding: property=<id> match=<substring of the case description> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// and only the former matter here.
type known []struct{ match, text string }

func readKnown(verif, id string) known {
	var k known
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" match=")
		if !ok {
			continue
		}
		m, text, _ := strings.Cut(rest, " ")
		k = append(k, struct{ match, text string }{m, text})
	}
	return k
}

func (k known) match(f Fail) string {
	for _, e := range k {
		if strings.Contains(strings.ReplaceAll(f.Desc, " ", "_"), e.match) {
			return e.text
		}
	}
	return ""
}
