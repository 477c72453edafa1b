package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// exit codes of a child besides 0: the watchdog ended a case.
const exitWatchdog = 97

var (
	root          = "/verif"
	knownFindings = map[string]string{} // key -> description, of the property under check
)

// result is what a shard reports.
type result struct {
	Evals    int
	Distinct []uint64
	Nontriv  []uint64
	Classes  map[string]int
	Known    map[string]string
	Samples  map[string]string
	Hashes   map[string]uint64
	Failure  *failure
}

// replayFile is a minimal reproduction.
type replayFile struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	// Rerun is set when the failure needs the history of cases before it.
	Rerun *shardArgs `json:"rerun,omitempty"`
}

type shardArgs struct {
	Prop     string `json:"prop"`
	Thorough bool   `json:"thorough"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Seed     uint64 `json:"seed"`
	Checks   int    `json:"checks"`
	Journal  string `json:"-"`
	Out      string `json:"-"`
}

func main() {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		root = v
	}
	if len(os.Args) < 2 {
		fatal("usage: harness check ID | replay FILE | manifest | list")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "child":
		var a shardArgs
		if err := json.Unmarshal([]byte(os.Args[2]), &a); err != nil {
			fatal(err.Error())
		}
		a.Journal, a.Out = os.Getenv("VERIF_JOURNAL"), os.Getenv("VERIF_OUT")
		child(a)
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for _, id := range ids() {
			fmt.Println(id)
		}
	case "manifest":
		manifest()
	default:
		fatal("unknown command")
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "harness: "+s)
	os.Exit(2)
}

func ids() []string {
	var out []string
	for id := range props {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// loadKnown reads the findings of one property: lines "finding: property=ID key=KEY text".
func loadKnown(id string) {
	data, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		fatal(err.Error())
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="+id+" "), " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "key=") {
			knownFindings[strings.TrimPrefix(f[0], "key=")] = f[1]
		}
	}
}

func setFlags(seed uint64, checks int) {
	testing.Init()
	flag.CommandLine.Parse(nil)
	for k, v := range map[string]string{"rapid.checks": strconv.Itoa(checks), "rapid.seed": strconv.FormatUint(seed, 10),
		"rapid.nofailfile": "true", "rapid.shrinktime": "10s", "rapid.steps": "30"} {
		if err := flag.Set(k, v); err != nil {
			fatal(err.Error())
		}
	}
}

// cpuSeconds is the CPU time this process has used.
func cpuSeconds() float64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func rssBytes() int64 {
	data, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const rssLimit = 4 << 30

// watchdog ends the process when a single case uses too much CPU time or memory.
func watchdog(out string, limit float64) {
	go func() {
		var serial int64 = -1
		var start float64
		for {
			time.Sleep(20 * time.Millisecond)
			c := curCase.Load()
			if c == nil {
				continue
			}
			s := curSerial.Load()
			if s != serial {
				serial, start = s, cpuSeconds()
			}
			reason := ""
			if cpuSeconds()-start > limit {
				reason = fmt.Sprintf("the case is still running after %.0f s of CPU time", limit)
			} else if r := rssBytes(); r > rssLimit {
				reason = fmt.Sprintf("the case takes more than %d GB of memory", rssLimit>>30)
			}
			if reason == "" || curSerial.Load() != s {
				continue
			}
			data, _ := json.Marshal(failure{*c, reason})
			os.WriteFile(out+".watchdog", data, 0644)
			os.Exit(exitWatchdog)
		}
	}()
}

// child runs one shard.
func child(a shardArgs) {
	p := props[a.Prop]
	if p == nil {
		fatal("no such property " + a.Prop)
	}
	loadKnown(a.Prop)
	setFlags(a.Seed, a.Checks)
	runtime.GOMAXPROCS(4)
	r := &run{prop: p, thorough: a.Thorough, shard: a.Shard, shards: a.Shards, seed: a.Seed, checks: a.Checks,
		distinct: map[uint64]bool{}, nontriv: map[uint64]bool{}, classes: map[string]int{}, known: map[string]string{}, samples: map[string]sample{}}
	if a.Journal != "" {
		f, err := os.Create(a.Journal)
		if err != nil {
			fatal(err.Error())
		}
		r.journal = f
	}
	watchdog(a.Out, p.CaseCPU)

	if a.Shard == 0 {
		files, _ := filepath.Glob(filepath.Join(root, "regress", a.Prop, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			data, err := os.ReadFile(f)
			if err != nil {
				fatal(err.Error())
			}
			var rf replayFile
			if err := json.Unmarshal(data, &rf); err != nil || len(rf.Case) == 0 {
				fatal("bad regression case " + f)
			}
			var buf bytes.Buffer
			if err := json.Compact(&buf, rf.Case); err != nil {
				fatal("bad regression case " + f)
			}
			if err := r.evaluate(buf.Bytes(), func(o *Obs) error { return p.runJSON(buf.Bytes(), o) }); err != nil {
				if _, ok := err.(*badReplay); ok {
					fatal(f + ": " + err.Error())
				}
			}
			if r.failed() {
				break
			}
		}
	}
	if !r.failed() {
		p.sweep(r)
	}
	if !r.failed() && a.Checks > 0 {
		p.drive(r)
	}

	res := result{Evals: r.evals, Classes: r.classes, Known: r.known, Failure: r.smallest(), Samples: map[string]string{}, Hashes: map[string]uint64{}}
	for h := range r.distinct {
		res.Distinct = append(res.Distinct, h)
	}
	for h := range r.nontriv {
		res.Nontriv = append(res.Nontriv, h)
	}
	for k, s := range r.samples {
		res.Samples[k], res.Hashes[k] = s.data, s.hash
	}
	data, err := json.Marshal(res)
	if err != nil {
		fatal(err.Error())
	}
	if err := os.WriteFile(a.Out, data, 0644); err != nil {
		fatal(err.Error())
	}
}

// goRace makes the race detector, in the builds that have it, report every race and go on.
const goRace = "GORACE=exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0"

// spawn runs a shard in a process of its own. It returns the result, or the failure of a case that
// ended the process, or an error when the shard gave no answer.
func spawn(a shardArgs, dir string, journal bool) (*result, *failure, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, nil, err
	}
	arg, _ := json.Marshal(a)
	out := filepath.Join(dir, fmt.Sprintf("shard-%d", a.Shard))
	os.Remove(out)
	os.Remove(out + ".watchdog")
	j := ""
	if journal {
		j = out + ".journal"
	}
	cmd := exec.Command(self, "child", string(arg))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_OUT="+out, "VERIF_JOURNAL="+j, goRace+" log_path="+out+".race")
	var stderr tailBuffer
	cmd.Stderr, cmd.Stdout = &stderr, &stderr
	runErr := cmd.Run()
	if runErr == nil {
		data, err := os.ReadFile(out)
		if err != nil {
			return nil, nil, err
		}
		var r result
		if err := json.Unmarshal(data, &r); err != nil {
			return nil, nil, err
		}
		return &r, nil, nil
	}
	code := -1
	var ee *exec.ExitError
	if errors.As(runErr, &ee) {
		code = ee.ExitCode()
	}
	if code == exitWatchdog {
		data, err := os.ReadFile(out + ".watchdog")
		if err != nil {
			return nil, nil, err
		}
		var f failure
		if err := json.Unmarshal(data, &f); err != nil {
			return nil, nil, err
		}
		return nil, &f, nil
	}
	crash := code == 2 && bytes.Contains(stderr.Bytes(), []byte("goroutine ")) || code == -1
	if !crash {
		return nil, nil, fmt.Errorf("shard ended with %v: %s", runErr, stderr.Bytes())
	}
	if !journal {
		return spawn(a, dir, true)
	}
	data, err := os.ReadFile(j)
	if err != nil || len(data) == 0 {
		return nil, nil, fmt.Errorf("shard crashed outside a case: %v: %s", runErr, stderr.Bytes())
	}
	return nil, &failure{data, "the process crashed: " + firstLine(stderr.Bytes())}, nil
}

func firstLine(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "goroutine stack exceeds") || strings.Contains(l, "panic") {
			return l
		}
	}
	return clip(string(b), 200)
}

// tailBuffer keeps the first and last parts of a stream.
type tailBuffer struct {
	mu   sync.Mutex
	head []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 1<<14 {
		t.head = append(t.head, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) Bytes() []byte { return t.head }

func seedFromEnv() (int64, uint64) {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	m := uint64(s)*1000003 + 77
	if m == 0 {
		m = 4242
	}
	return s, m
}

func check(id string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fatal("no such property " + id)
	}
	loadKnown(id)
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if len(os.Args) > 3 {
		thorough = os.Args[3] == "thorough"
	}
	seed, mixed := seedFromEnv()
	shards, total := 4, p.Quick
	if thorough {
		shards, total = 8, p.Thorough
	}
	if v := os.Getenv("VERIF_CHECKS"); v != "" {
		total, _ = strconv.Atoi(v)
	}
	if os.Getenv("VERIF_ONLY") == "guided" { // the coverage-guided search alone
		shards = 0
	}
	dir := filepath.Join(root, ".work", fmt.Sprintf("%s-%d", id, os.Getpid()))
	if err := os.MkdirAll(dir, 0755); err != nil {
		fatal(err.Error())
	}
	defer os.RemoveAll(dir)

	type answer struct {
		a   shardArgs
		res *result
		f   *failure
		err error
	}
	answers := make([]answer, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		a := shardArgs{Prop: id, Thorough: thorough, Shard: i, Shards: shards, Seed: mixed + uint64(i)*0x9E3779B97F4A7C15, Checks: (total + shards - 1) / shards}
		if a.Seed == 0 {
			a.Seed = 1
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res, f, err := spawn(a, dir, false)
			answers[i] = answer{a, res, f, err}
		}(i)
	}
	wg.Wait()

	distinct, nontriv := map[uint64]bool{}, map[uint64]bool{}
	classes, known := map[string]int{}, map[string]string{}
	samples, hashes := map[string]string{}, map[string]uint64{}
	evals := 0
	var best *failure
	var bestArgs shardArgs
	var broken error
	for _, an := range answers {
		if an.err != nil {
			broken = an.err
			continue
		}
		f := an.f
		if an.res != nil {
			r := an.res
			evals += r.Evals
			for _, h := range r.Distinct {
				distinct[h] = true
			}
			for _, h := range r.Nontriv {
				nontriv[h] = true
			}
			for k, n := range r.Classes {
				classes[k] += n
			}
			for k, d := range r.Known {
				if _, ok := known[k]; !ok {
					known[k] = d
				}
			}
			for k, s := range r.Samples {
				if h, ok := hashes[k]; !ok || r.Hashes[k] < h {
					samples[k], hashes[k] = s, r.Hashes[k]
				}
			}
			if r.Failure != nil {
				f = r.Failure
			}
		}
		if f != nil && (best == nil || len(f.Data) < len(best.Data)) {
			best, bestArgs = f, an.a
		}
	}

	// thorough: the coverage-guided search over the same generator
	var guided map[string]interface{}
	if fz := os.Getenv("VERIF_FUZZ_BIN"); thorough && best == nil && broken == nil && fz != "" && id != "C01" {
		guided, best, broken = guide(id, fz, dir)
	}

	var sampleList []interface{}
	var keys []string
	for k := range samples {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return hashes[keys[i]] < hashes[keys[j]] })
	seen := map[string]bool{}
	for _, k := range keys {
		if len(sampleList) < 12 && !seen[samples[k]] {
			seen[samples[k]] = true
			sampleList = append(sampleList, map[string]string{"class": k, "case": samples[k]})
		}
	}
	if len(sampleList) == 0 {
		sampleList = append(sampleList, "none")
	}
	violations := 0
	code := 0
	replayPath := ""
	if best != nil {
		rf := replayFile{Property: id, Error: best.Msg, Case: best.Data}
		replayPath = writeReplay(rf)
		switch {
		case confirm(replayPath, dir) == 1:
			violations, code = 1, 1
		case bestArgs.Prop == "":
			broken = fmt.Errorf("a failure of the coverage-guided search did not reproduce: %s", best.Msg)
		default:
			// not reproduced on its own: the whole deterministic shard has to fail again the same way
			res, f, err := spawn(bestArgs, dir, false)
			if err == nil && res != nil && res.Failure != nil {
				f = res.Failure
			}
			if err == nil && f != nil {
				violations, code = 1, 1
				rf.Rerun = &bestArgs
				replayPath = writeReplay(rf)
			} else {
				broken = fmt.Errorf("a failure did not reproduce: %s", best.Msg)
			}
		}
	}
	if code == 0 && broken != nil {
		fmt.Fprintln(os.Stderr, "harness: inconclusive:", broken)
		code = 2
	}
	var caseRule = p.Rule
	ev := map[string]interface{}{
		"property": id, "tier": map[bool]string{false: "quick", true: "thorough"}[thorough], "seed": seed, "level": p.Level,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_cases": len(distinct), "distinct_nontrivial": len(nontriv), "rule": caseRule,
			"samples": sampleList, "classes": classes, "known_findings_seen": known, "shards": shards, "random_cases_requested": total,
		},
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if guided != nil {
		ev["coverage"].(map[string]interface{})["coverage_guided"] = guided
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err.Error())
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(data, '\n'), 0644); err != nil {
		fatal(err.Error())
	}
	var kk []string
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, knownFindings[k])
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1f s\n", id, evals, len(nontriv), time.Since(start).Seconds())
	if code == 1 {
		fmt.Printf("%s\n", clip(best.Msg, 3000))
		fmt.Printf("case: %s\n", clip(string(best.Data), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
	}
	return code
}

var fuzzStat = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`)

// guide runs the coverage-guided search (fuzz_test.go) and returns what it did and the smallest case that
// fails again on its own.
func guide(id, bin, dir string) (map[string]interface{}, *failure, error) {
	out := filepath.Join(dir, "guided")
	if err := os.MkdirAll(out, 0755); err != nil {
		return nil, nil, err
	}
	length := os.Getenv("VERIF_FUZZTIME")
	if length == "" {
		length = "60s"
	}
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzProp$", "-test.fuzztime="+length, "-test.fuzzminimizetime=50x",
		"-test.fuzzcachedir="+filepath.Join(out, "cache"), "-test.parallel=8", "-test.timeout=0")
	cmd.Dir = out
	cmd.Env = append(os.Environ(), "VERIF_FUZZ="+id, "VERIF_OUT="+out)
	text, runErr := cmd.CombinedOutput()
	stat := map[string]interface{}{"engine": "go test -fuzz over the bits the generator draws", "seconds": length}
	for _, m := range fuzzStat.FindAllSubmatch(text, -1) {
		stat["executions"], stat["inputs_with_new_coverage"] = string(m[1]), string(m[2])
	}
	if runErr == nil {
		return stat, nil, nil
	}
	var fs []failure
	add := func(pattern string, read func(path string, data []byte) failure) {
		files, _ := filepath.Glob(filepath.Join(out, pattern))
		for _, f := range files {
			if data, err := os.ReadFile(f); err == nil && len(data) > 0 {
				fs = append(fs, read(f, data))
			}
		}
	}
	add("fuzz-*.case", func(path string, data []byte) failure {
		msg, _ := os.ReadFile(strings.TrimSuffix(path, ".case") + ".msg")
		return failure{data, string(msg)}
	})
	add("fuzz-*.watchdog", func(path string, data []byte) (f failure) {
		json.Unmarshal(data, &f)
		return f
	})
	if len(fs) == 0 { // a process went down
		add("fuzz-*.journal", func(path string, data []byte) failure {
			return failure{data, "the process crashed: " + firstLine(text)}
		})
	}
	sort.SliceStable(fs, func(i, j int) bool { return len(fs[i].Data) < len(fs[j].Data) })
	for i := range fs {
		if len(fs[i].Data) > 0 && confirm(writeReplay(replayFile{Property: id, Error: fs[i].Msg, Case: fs[i].Data}), dir) == 1 {
			return stat, &fs[i], nil
		}
	}
	return stat, nil, fmt.Errorf("the coverage-guided search ended with %v and no failure that reproduces: %s", runErr, clip(string(text[max(0, len(text)-1500):]), 1500))
}

func writeReplay(rf replayFile) string {
	h := fnv.New32a()
	h.Write(rf.Case)
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", rf.Property, h.Sum32()))
	data, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		fatal(err.Error())
	}
	if err := os.WriteFile(path, append(data, '\n'), 0644); err != nil {
		fatal(err.Error())
	}
	return path
}

// confirm replays a case in a fresh process: 1 if it fails (or takes the process down).
func confirm(path, dir string) int {
	self, err := os.Executable()
	if err != nil {
		return 2
	}
	cmd := exec.Command(self, "replay", path)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_REPLAY_DIRECT=1", goRace+" log_path="+filepath.Join(dir, "confirm.race"))
	var out tailBuffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	if err == nil {
		return 0
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		switch {
		case ee.ExitCode() == 1, ee.ExitCode() == exitWatchdog:
			return 1
		case ee.ExitCode() == -1, bytes.Contains(out.Bytes(), []byte("goroutine ")):
			return 1
		}
	}
	return 2
}

func replay(path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fatal(err.Error())
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fatal(err.Error())
	}
	p := props[rf.Property]
	if p == nil {
		fatal("no such property " + rf.Property)
	}
	loadKnown(rf.Property)
	direct := os.Getenv("VERIF_REPLAY_DIRECT") != ""
	if rf.Rerun != nil && !direct {
		dir, err := os.MkdirTemp("", "verif-replay")
		if err != nil {
			fatal(err.Error())
		}
		defer os.RemoveAll(dir)
		res, f, err := spawn(*rf.Rerun, dir, false)
		if err != nil {
			fatal(err.Error())
		}
		if res != nil && res.Failure != nil {
			f = res.Failure
		}
		if f != nil {
			fmt.Println(f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
			return 1
		}
		return 0
	}
	watchdog(filepath.Join(os.TempDir(), fmt.Sprintf("verif-replay-%d", os.Getpid())), p.CaseCPU)
	var buf bytes.Buffer
	if err := json.Compact(&buf, rf.Case); err != nil {
		fatal(err.Error())
	}
	raw := buf.Bytes()
	// a case may depend on the iteration order of maps: repeat it
	t0 := cpuSeconds()
	for i := 0; i < 500 && cpuSeconds()-t0 < 20; i++ {
		o := &Obs{classes: map[string]int{}, known: map[string]string{}}
		curCase.Store(&raw)
		curSerial.Add(1)
		err := p.runJSON(raw, o)
		curCase.Store(nil)
		if err != nil {
			if _, ok := err.(*badReplay); ok {
				fatal(err.Error())
			}
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
			return 1
		}
	}
	fmt.Println("the case passes")
	return 0
}
