package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// check is the deciding machinery of one property: a list of cases, each made from (seed, index) alone, and the
// monitors that watch the real code while a case runs.
type check struct {
	id        string
	quick     int
	thorough  int
	rule      string
	race      bool // the worker is built with the race detector
	shards    int
	one       func(c *C, i uint64) *fault
	directed  func(c *C) *fault // run once, by the first shard
	assume    []string
	findings  []string // known findings this check may report
	exhaustFn func() int
}

// C collects what a worker saw.
type C struct {
	check *check
	tier  string
	seed  uint64
	stats map[string]int
	evals int
	kinds map[uint64]struct{}
	samp  []string
	known map[string]string
}

func (c *C) rng(i uint64, salt string) *rng { return newRng(c.seed, i, c.check.id+salt) }

// distinct notes a case; it counts if it is not trivial and was not seen before.
func (c *C) distinct(key string, nontrivial bool) {
	c.evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	c.kinds[h.Sum64()] = struct{}{}
}

func (c *C) hit(k string)        { c.stats[k]++ }
func (c *C) add(k string, n int) { c.stats[k] += n }

func (c *C) sample(s string) {
	if len(c.samp) < 6 && s != "" {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samp = append(c.samp, s)
	}
}

func (c *C) merge(g *G) {
	for k, v := range g.stats {
		c.stats[k] += v
	}
}

type workerReport struct {
	Cases   int
	Evals   int
	Stats   map[string]int
	Samples []string
	Known   map[string]string
	Faults  []faultReport
	Done    bool
}

type faultReport struct {
	Index uint64
	Kind  string
	Text  string
	Query string
}

const directedIndex = ^uint64(0)

func cpuNow() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// runWorker executes one shard of the cases and leaves its report in dir.
func runWorker(ck *check, tier string, seed uint64, shard, shards, cases int, dir string, only int64) {
	debug.SetMaxStack(512 << 20)
	if !ck.race {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	}
	c := &C{check: ck, tier: tier, seed: seed, stats: map[string]int{}, kinds: map[uint64]struct{}{}, known: map[string]string{}}
	base := filepath.Join(dir, fmt.Sprintf("w%d", shard))
	prog, err := os.Create(base + ".at")
	if err != nil {
		panic(err)
	}
	rep := workerReport{}
	var at, since uint64
	atomic.StoreUint64(&since, uint64(cpuNow()))
	// a case that does not come to an end is decided on the processor time it has used
	go func() {
		for {
			time.Sleep(2 * time.Second)
			began := atomic.LoadUint64(&since)
			if now := uint64(cpuNow()); now > began && now-began > uint64(hangAfter) {
				os.WriteFile(base+".hang", []byte(strconv.FormatUint(atomic.LoadUint64(&at), 10)), 0o644)
				os.Exit(3)
			}
		}
	}()
	run := func(i uint64, f func() *fault) {
		atomic.StoreUint64(&at, i)
		atomic.StoreUint64(&since, uint64(cpuNow()))
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], i)
		prog.WriteAt(b[:], 0)
		var ft *fault
		if p := guard("case", func() { ft = f() }); p != nil {
			ft = p
		}
		rep.Cases++
		if ft != nil {
			rep.Faults = append(rep.Faults, faultReport{i, ft.kind, ft.String(), ft.query})
		}
	}
	switch {
	case only == -2:
		run(directedIndex, func() *fault { return ck.directed(c) })
	case only >= 0:
		run(uint64(only), func() *fault { return ck.one(c, uint64(only)) })
	default:
		if shard == 0 && ck.directed != nil {
			run(directedIndex, func() *fault { return ck.directed(c) })
		}
		for i := shard; i < cases && len(rep.Faults) < maxFaults; i += shards {
			i := uint64(i)
			run(i, func() *fault { return ck.one(c, i) })
		}
	}
	rep.Done = true
	rep.Evals, rep.Stats, rep.Samples, rep.Known = c.evals, c.stats, c.samp, c.known
	kf, _ := os.Create(base + ".kinds")
	w := bufio.NewWriter(kf)
	for h := range c.kinds {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	w.Flush()
	kf.Close()
	j, _ := json.Marshal(rep)
	os.WriteFile(base+".json", j, 0o644)
}

// ---- known findings

type finding struct{ prop, id, text string }

// readFindings reads the lines "finding: property=<id> id=<key> <text>" of the known findings file.
func readFindings(path string) []finding {
	var out []finding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "id="), f[2]})
	}
	return out
}

// ---- supervisor

func supervise(ck *check, tier string, seed uint64, root, self, raceSelf string) int {
	start := time.Now()
	cases := ck.quick
	if tier == "thorough" {
		cases = ck.thorough
	}
	shards := ck.shards
	if shards == 0 {
		shards = 8
	}
	bin := self
	if ck.race {
		bin = raceSelf
	}
	dir, err := os.MkdirTemp("", "verif-"+ck.id+"-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)

	type crash struct {
		idx  uint64
		kind string
		out  string
	}
	var mu sync.Mutex
	var crashes []crash
	var reports []workerReport
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			cmd := exec.Command(bin, "worker", ck.id, tier, fmt.Sprint(seed), fmt.Sprint(s), fmt.Sprint(shards), fmt.Sprint(cases), dir)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(dir, fmt.Sprintf("race%d", s)), "GOTRACEBACK=single")
			outf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("w%d.out", s)))
			cmd.Stdout, cmd.Stderr = outf, outf
			err := cmd.Run()
			outf.Close()
			mu.Lock()
			defer mu.Unlock()
			var rep workerReport
			b, e2 := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.json", s)))
			if e2 == nil {
				json.Unmarshal(b, &rep)
			}
			if rep.Done {
				reports = append(reports, rep)
			}
			races, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("race%d.*", s)))
			if len(races) > 0 {
				t, _ := os.ReadFile(races[0])
				crashes = append(crashes, crash{lastIndex(dir, s), "race", head(string(t), 4000)})
				return
			}
			if err != nil || !rep.Done {
				kind := "crash"
				idx := lastIndex(dir, s)
				if h, e := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.hang", s))); e == nil {
					kind = "hang"
					idx, _ = strconv.ParseUint(string(h), 10, 64)
				}
				t, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.out", s)))
				crashes = append(crashes, crash{idx, kind, head(fmt.Sprint(err)+"\n"+string(t), 4000)})
			}
		}(s)
	}
	wg.Wait()

	var faults []faultReport
	stats := map[string]int{}
	known := map[string]string{}
	var samples []string
	evals, done := 0, 0
	for _, r := range reports {
		faults = append(faults, r.Faults...)
		evals += r.Evals
		done += r.Cases
		for k, v := range r.Stats {
			stats[k] += v
		}
		for k, v := range r.Known {
			if o, ok := known[k]; !ok || len(v) < len(o) {
				known[k] = v
			}
		}
		if len(r.Samples) > 0 && len(samples) < 8 {
			samples = append(samples, r.Samples[0])
		}
	}
	for _, x := range crashes {
		faults = append(faults, faultReport{x.idx, x.kind, x.kind + ": the program under test did not survive\n" + x.out, ""})
	}
	sort.SliceStable(faults, func(i, j int) bool {
		if a, b := len(faults[i].Text), len(faults[j].Text); a != b {
			return a < b
		}
		return faults[i].Index < faults[j].Index
	})
	kinds := map[uint64]struct{}{}
	for s := 0; s < shards; s++ {
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.kinds", s)))
		for i := 0; i+8 <= len(b); i += 8 {
			kinds[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}

	listed := map[string]string{}
	for _, f := range readFindings(filepath.Join(root, "known-findings.txt")) {
		if f.prop == ck.id {
			listed[f.id] = f.text
		}
	}
	var ids []string
	for k := range known {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		if t, ok := listed[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.id, k, t)
		} else {
			faults = append(faults, faultReport{directedIndex, "unlisted finding", "unlisted finding " + k + ": " + known[k], ""})
		}
	}
	if stats["starved"] > 0 && len(faults) == 0 {
		fmt.Println("note: some cases observed nothing:", stats["starved"])
	}
	ev := map[string]interface{}{
		"property": ck.id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(kinds), "rule": ck.rule, "samples": samples,
			"cases_run": done, "observed": stats, "worker_processes": shards,
		},
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": ck.assume,
		"violations":  len(faults),
	}
	if ck.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, ck.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 2
	}
	if len(faults) == 0 {
		fmt.Printf("%s: held on %d cases, %d evaluations, %d distinct non-trivial (%.1fs)\n", ck.id, done, evals, len(kinds), time.Since(start).Seconds())
		return 0
	}
	f := faults[0]
	rp := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d-%d.json", ck.id, seed, f.Index))
	rb, _ := json.MarshalIndent(map[string]interface{}{
		"property": ck.id, "tier": tier, "seed": seed, "index": fmt.Sprint(f.Index), "kind": f.Kind, "what": f.Text,
		"how": "cd /verif && ./check.sh " + ck.id + " replay <this file>",
	}, "", " ")
	os.WriteFile(rp, append(rb, '\n'), 0o644)
	fmt.Printf("%s: %d faults; the shortest one:\n%s\n", ck.id, len(faults), head(f.Text, 6000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.id, rp)
	return 1
}

func lastIndex(dir string, s int) uint64 {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.at", s)))
	if err != nil || len(b) < 8 {
		return directedIndex
	}
	return binary.LittleEndian.Uint64(b)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// maxFaults ends a worker that has seen enough.
var maxFaults = 5

// hangAfter is the processor time after which a case counts as one that does not end.
var hangAfter = 200 * time.Second

func init() {
	if v, err := strconv.Atoi(os.Getenv("VERIF_HANG_SECONDS")); err == nil {
		hangAfter = time.Duration(v) * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_MAX_FAULTS")); err == nil {
		maxFaults = v
	}
}
