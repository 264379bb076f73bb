// vrun decides one property: it instruments and builds /repo's working tree,
// explores the units of the property on several workers, confirms violations by
// replaying them in a fresh process, and writes the evidence file.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	repo    = "/repo"
	verif   = ""
	harness = ""
	tmp     = ""
)

type unitInfo struct {
	Name string
	Bin  string
	Mode string // "" or "conform"
}

type listing struct {
	Units []unitInfo
	Level string
	Note  []string
}

type violation struct {
	Key     string
	Msg     string
	Choices []int
	Trace   []string
	Unit    string
	Bin     string
}

type unitResult struct {
	Unit       int
	Name       string
	Execs      int
	States     int
	Trans      int
	Outcomes   int
	Conform    int
	Exhaustive bool
	Note       string
	Violations []violation
	Known      []violation
	Samples    []string
	Resume     []int // set when the worker must be replaced (leaked goroutines)
	ResumeN    []int
	WallMS     int
	Flaky      int
	Digest     string
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	filter := flag.String("units", "", "only units whose name contains this")
	verbose := flag.Bool("v", false, "print unit results")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	if r := os.Getenv("VRUN_REPO"); r != "" {
		repo = r
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	wd, _ := os.Getwd()
	harness = wd
	verif = filepath.Dir(wd)
	start := time.Now()
	var err error
	tmp, err = os.MkdirTemp("", "vrun-")
	if err != nil {
		fatal(err)
	}
	c := make(chan os.Signal, 1)
	signal.Notify(c, os.Interrupt, syscall.SIGTERM)
	go func() { <-c; cleanup(); os.Exit(3) }()
	code := run(*prop, *tier, *replay, *workers, *filter, *verbose, seed, start)
	cleanup()
	os.Exit(code)
}

func cleanup() {
	if strings.Contains(tmp, "vrun-") {
		os.RemoveAll(tmp)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "vrun:", err)
	cleanup()
	os.Exit(2)
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOFLAGS", "GOMODCACHE", "GOCACHE", "HOME", "GO111MODULE", "GOMAXPROCS", "GODEBUG", "GORACE":
			continue
		}
		env = append(env, kv)
	}
	home := "/root"
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	if f, err := os.CreateTemp(mk(cache), "w"); err != nil {
		cache = filepath.Join(tmp, "gocache")
	} else {
		f.Close()
		os.Remove(f.Name())
	}
	return append(env, "HOME="+home, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache)
}

func mk(d string) string { os.MkdirAll(d, 0o755); return d }

var bins = map[string]string{}

func build(kind, overlay, modfile string, env []string) error {
	out := filepath.Join(tmp, "vh-"+kind)
	args := []string{"test", "-c", "-vet=off", "-o", out}
	switch kind {
	case "sched":
		args = append(args, "-overlay", overlay, "-modfile", modfile)
	case "race":
		args = append(args, "-race", "-overlay", overlay, "-modfile", modfile, "-gcflags=vharness/...=-d=checkptr=0")
	}
	if kind == "native" {
		// -modfile wants a name ending in .mod
		nd := filepath.Join(tmp, "native")
		os.MkdirAll(nd, 0o755)
		mod, _ := os.ReadFile(filepath.Join(harness, "go.mod"))
		ms := strings.Replace(string(mod), "replace trypo => /repo", "replace trypo => "+repo, 1)
		os.WriteFile(filepath.Join(nd, "go.mod"), []byte(ms), 0o644)
		sum, _ := os.ReadFile(filepath.Join(harness, "go.sum"))
		os.WriteFile(filepath.Join(nd, "go.sum"), sum, 0o644)
		args = []string{"test", "-c", "-vet=off", "-o", out, "-modfile", filepath.Join(nd, "go.mod"), "-tags", "native"}
	}
	args = append(args, "./vh")
	cmd := exec.Command("go", args...)
	cmd.Dir = harness
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("build %s: %v\n%s", kind, err, b)
	}
	bins[kind] = out
	return nil
}

func run(prop, tier, replayFile string, nw int, filter string, verbose bool, seed int, start time.Time) int {
	env := goEnv()
	var rp struct {
		Property, Tier string
		V              violation
	}
	if replayFile != "" {
		b, err := os.ReadFile(replayFile)
		if err != nil {
			fatal(err)
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			fatal(err)
		}
		prop, tier = rp.Property, rp.Tier
	}
	overlay, modfile, note, err := instrument(tmp, env)
	if err != nil {
		fatal(err)
	}
	if err := build("sched", overlay, modfile, env); err != nil {
		fatal(err)
	}
	os.Setenv("VH_PROP", prop)
	os.Setenv("VH_TIER", tier)
	os.Setenv("VH_SEED", fmt.Sprint(seed))
	os.Setenv("VH_KNOWN", strings.Join(knownKeys(prop), "\n"))
	os.Setenv("GOTRACEBACK", "all")
	os.Setenv("GOMAXPROCS", "1")
	os.Setenv("GORACE", "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5 log_path="+filepath.Join(tmp, "race"))
	os.Setenv("VH_RACELOG", filepath.Join(tmp, "race"))
	var ls listing
	lb, err := exec1("sched", "list", "")
	if err != nil {
		fatal(fmt.Errorf("list: %v\n%s", err, lb))
	}
	if err := json.Unmarshal([]byte(lastJSON(lb)), &ls); err != nil {
		fatal(fmt.Errorf("list: %v: %s", err, lb))
	}
	need := map[string]bool{}
	for _, u := range ls.Units {
		need[u.Bin] = true
	}
	var wg sync.WaitGroup
	var berr error
	for k := range need {
		if k != "sched" {
			wg.Add(1)
			func(k string) { // one after the other: builds are parallel inside
				defer wg.Done()
				if err := build(k, overlay, modfile, env); err != nil {
					berr = err
				}
			}(k)
		}
	}
	wg.Wait()
	if berr != nil {
		fatal(berr)
	}
	if replayFile != "" {
		ok, out := confirm(prop, tier, &rp.V, 2)
		fmt.Print(out)
		if ok {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayFile)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	built := time.Since(start)
	budget := 200 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if s := os.Getenv("VRUN_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := time.Now().Add(budget)
	os.Setenv("VH_DEADLINE", fmt.Sprint(deadline.Unix()))

	type job struct {
		i         int
		resume, n []int
		tries     int
	}
	var mu sync.Mutex
	queues := map[string][]job{}
	for i, u := range ls.Units {
		if filter != "" && !strings.Contains(u.Name, filter) {
			continue
		}
		queues[u.Bin] = append(queues[u.Bin], job{i: i})
	}
	var results []unitResult
	var viol []violation
	var notes []string
	stop := false
	work := func(bin string) {
		var w *worker
		defer func() {
			if w != nil {
				w.close()
			}
		}()
		for {
			mu.Lock()
			if stop || len(queues[bin]) == 0 {
				mu.Unlock()
				return
			}
			j := queues[bin][0]
			queues[bin] = queues[bin][1:]
			mu.Unlock()
			if w == nil {
				var err error
				w, err = newWorker(bin)
				if err != nil {
					fatal(err)
				}
			}
			res, crash := w.unit(j.i, j.resume, j.n)
			if crash != nil {
				w.close()
				w = nil
				u := ls.Units[j.i]
				v := violation{Key: crash.key, Msg: crash.msg, Choices: crash.choices, Unit: u.Name, Bin: u.Bin}
				fmt.Fprintf(os.Stderr, "worker ended in unit %s (%s): confirming\n", u.Name, crash.key)
				ok, _ := confirm(prop, tier, &v, 2)
				mu.Lock()
				if ok {
					viol = append(viol, v)
					stop = true
				} else {
					notes = append(notes, fmt.Sprintf("unit %s: worker ended once (%s), not reproducible: %s", u.Name, crash.key, firstLine(crash.msg)))
					if j.tries < 2 {
						j.tries++
						queues[bin] = append(queues[bin], j)
					} else {
						results = append(results, unitResult{Unit: j.i, Name: u.Name, Note: "gave up: " + crash.key})
					}
				}
				mu.Unlock()
				continue
			}
			if res.Resume != nil {
				w.close()
				w = nil
			}
			mu.Lock()
			r := *res
			r.Name = ls.Units[j.i].Name
			results = append(results, r)
			if res.Resume != nil {
				queues[bin] = append(queues[bin], job{i: j.i, resume: res.Resume, n: res.ResumeN})
			}
			if verbose {
				fmt.Fprintf(os.Stderr, "%-60s execs %d states %d trans %d outcomes %d conf %d exh %v %dms %s\n", r.Name, r.Execs, r.States, r.Trans, r.Outcomes, r.Conform, r.Exhaustive, r.WallMS, r.Note)
			}
			vs := res.Violations
			mu.Unlock()
			for k := range vs {
				v := vs[k]
				v.Unit, v.Bin = ls.Units[j.i].Name, ls.Units[j.i].Bin
				ok, _ := confirm(prop, tier, &v, 2)
				mu.Lock()
				if ok {
					viol = append(viol, v)
					stop = true
				} else {
					notes = append(notes, fmt.Sprintf("unit %s: violation %s not reproducible in a fresh process: %s", v.Unit, v.Key, firstLine(v.Msg)))
				}
				mu.Unlock()
			}
		}
	}
	var kinds []string
	for k := range queues {
		kinds = append(kinds, k)
	}
	// The native runs come last: they confirm what the others explored.
	sort.Slice(kinds, func(i, j int) bool {
		if n := kinds[i] == "native"; n != (kinds[j] == "native") {
			return !n
		}
		return kinds[i] > kinds[j]
	})
	for _, bin := range kinds {
		n := nw
		if len(queues[bin]) < n {
			n = len(queues[bin])
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); work(bin) }()
		}
		wg.Wait()
	}
	return report(prop, tier, seed, start, built, ls, results, viol, notes, note)
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func lastJSON(b string) string {
	ls := strings.Split(strings.TrimSpace(b), "\n")
	for i := len(ls) - 1; i >= 0; i-- {
		if strings.HasPrefix(ls[i], "{") {
			return ls[i]
		}
	}
	return ""
}

func exec1(bin, mode, arg string) (string, error) {
	cmd := exec.Command(bins[bin], "-test.run", "^TestVH$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VH_MODE="+mode, "VH_BIN="+bin, "VH_ARG="+arg)
	r, w, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{w}
	var errb bytes.Buffer
	cmd.Stdout = &errb
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return "", err
	}
	w.Close()
	done := make(chan string)
	go func() {
		var b bytes.Buffer
		b.ReadFrom(r)
		done <- b.String()
	}()
	err := cmd.Wait()
	out := <-done
	r.Close()
	if err != nil {
		return out + "\n" + errb.String(), err
	}
	return out, nil
}

// confirm replays a violation n times in fresh processes.
//
// Whether the race detector sees a given race also depends on the random choices
// that sync.Pool makes in such a build, which order goroutines or do not; a race
// seen again in one of several replays is confirmed.
func confirm(prop, tier string, v *violation, n int) (bool, string) {
	if v.Key == "race" && n > 1 {
		for i := 0; i < 10; i++ {
			if ok, out := confirm(prop, tier, v, 1); ok || i == 9 {
				return ok, out
			}
		}
	}
	arg, _ := json.Marshal(v)
	last := ""
	for i := 0; i < n; i++ {
		out, err := exec1(v.Bin, "replay", string(arg))
		last = out
		if err != nil {
			key, msg := classify(err, out)
			if key == "harness" {
				return false, out
			}
			if v.Key == "hang" || v.Key == "crash" || v.Key == "race" || strings.HasPrefix(v.Key, "crash") {
				v.Key, v.Msg = key, msg
				continue
			}
			return false, out
		}
		var r struct {
			Reproduced bool
			V          violation
		}
		json.Unmarshal([]byte(lastJSON(out)), &r)
		if !r.Reproduced {
			return false, out
		}
		v.Msg, v.Trace = r.V.Msg, r.V.Trace
	}
	return true, last
}

// classify tells crashes of the code under test from harness errors.
func classify(err error, out string) (string, string) {
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 || strings.Contains(out, "WARNING: DATA RACE") {
		return "race", clip(out, "WARNING: DATA RACE", 3500)
	}
	if strings.Contains(out, "VH-HANG") {
		return "hang", clip(out, "VH-HANG", 3000)
	}
	if i := strings.Index(out, "panic:"); i >= 0 || strings.Contains(out, "fatal error:") {
		m := "panic:"
		if i < 0 || (strings.Contains(out, "fatal error:") && strings.Index(out, "fatal error:") < i) {
			m = "fatal error:"
		}
		s := clip(out, m, 4000)
		if strings.Contains(s, "/repo/") || strings.Contains(s, repo+"/") || strings.Contains(s, "deadlock: all goroutines in bubble are blocked") || strings.Contains(s, "out of memory") || strings.Contains(s, "concurrent map") {
			return "crash", s
		}
		return "harness", s
	}
	if strings.Contains(err.Error(), "killed") {
		return "crash", "process was killed (memory?) " + err.Error()
	}
	return "harness", err.Error() + "\n" + clip(out, "", 2000)
}

func clip(s, from string, n int) string {
	if i := strings.Index(s, from); i > 0 {
		s = s[i:]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

type worker struct {
	bin  string
	cmd  *exec.Cmd
	in   *bufio.Writer
	inw  *os.File
	out  *bufio.Reader
	outr *os.File
	err  bytes.Buffer
	prog string
	emu  sync.Mutex
}

var wcount int
var wmu sync.Mutex

func newWorker(bin string) (*worker, error) {
	wmu.Lock()
	wcount++
	n := wcount
	wmu.Unlock()
	w := &worker{bin: bin, prog: filepath.Join(tmp, fmt.Sprintf("prog%d", n))}
	cmd := exec.Command(bins[bin], "-test.run", "^TestVH$", "-test.timeout", "0")
	if p := os.Getenv("VRUN_PROFILE"); p != "" {
		cmd.Args = append(cmd.Args, "-test.cpuprofile", fmt.Sprintf("%s.%d", p, time.Now().UnixNano()))
	}
	cmd.Env = append(os.Environ(), "VH_MODE=worker", "VH_BIN="+bin, "VH_PROG="+w.prog)
	ir, iw, _ := os.Pipe()
	or, ow, _ := os.Pipe()
	cmd.Stdin = ir
	cmd.ExtraFiles = []*os.File{ow}
	cmd.Stdout = &limited{b: &w.err, mu: &w.emu}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ir.Close()
	ow.Close()
	w.cmd, w.inw, w.in, w.outr, w.out = cmd, iw, bufio.NewWriter(iw), or, bufio.NewReaderSize(or, 1<<20)
	return w, nil
}

type limited struct {
	b  *bytes.Buffer
	mu *sync.Mutex
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (w *worker) close() {
	w.inw.Close()
	w.outr.Close()
	if w.cmd.Process != nil {
		if os.Getenv("VRUN_PROFILE") != "" {
			time.Sleep(time.Second)
		}
		w.cmd.Process.Kill()
	}
	w.cmd.Wait()
	os.Remove(w.prog)
}

type crashInfo struct {
	key, msg string
	choices  []int
}

func (w *worker) unit(i int, resume, n []int) (*unitResult, *crashInfo) {
	w.emu.Lock()
	w.err.Reset()
	w.emu.Unlock()
	os.Remove(w.prog)
	b, _ := json.Marshal(map[string]interface{}{"Unit": i, "Resume": resume, "ResumeN": n})
	w.in.Write(append(b, '\n'))
	w.in.Flush()
	line, err := w.out.ReadBytes('\n')
	if err == nil {
		var r unitResult
		if e := json.Unmarshal(line, &r); e == nil {
			return &r, nil
		}
	}
	werr := w.cmd.Wait()
	if werr == nil {
		werr = fmt.Errorf("worker exited")
	}
	w.emu.Lock()
	out := w.err.String()
	w.emu.Unlock()
	key, msg := classify(werr, out)
	ci := &crashInfo{key: key, msg: msg}
	if pb, e := os.ReadFile(w.prog); e == nil {
		json.Unmarshal(bytes.TrimRight(bytes.SplitN(pb, []byte{'\n'}, 2)[0], " \x00"), &ci.choices)
	}
	return nil, ci
}
