package core

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// tb is the testing.TB rapid reports to.
type tb struct {
	failed bool
	log    strings.Builder
}

type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "check" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { t.Log(a...); panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// CheckResult is what one worker found for one check.
type CheckResult struct {
	Check     string          `json:"check"`
	Evals     int             `json:"evals"`
	Cases     int             `json:"cases"`
	Hashes    []uint64        `json:"hashes"` // of distinct non-trivial cases
	Extra     int             `json:"extra"`  // distinct inputs enumerated inside cases
	Labels    map[string]int  `json:"labels"`
	Samples   []Sample        `json:"samples"`
	Violation string          `json:"violation"`
	Case      json.RawMessage `json:"case"`
	Incon     string          `json:"inconclusive"`
	WallMs    int64           `json:"wall_ms"`
}

// Sample is a written-out case.
type Sample struct {
	Check  string          `json:"check"`
	Case   json.RawMessage `json:"case"`
	Labels []string        `json:"labels,omitempty"`
}

func hash64(b []byte) uint64 {
	h := sha256.Sum256(b)
	var v uint64
	for _, x := range h[:8] {
		v = v<<8 | uint64(x)
	}
	return v
}

func mixSeed(seed uint64, ck string, shard int) uint64 {
	v := hash64([]byte(fmt.Sprintf("%d|%s|%d", seed, ck, shard)))
	v &= 1<<62 - 1
	if v == 0 {
		v = 1
	}
	return v
}

// Worker runs one shard of one check and writes its result.
func Worker(id, tier string, seed uint64, shard, shards, cases int, out string) int {
	ck := Lookup(id)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	res := CheckResult{Check: id, Labels: map[string]int{}}
	start := time.Now()
	ex := NewExecutor()
	defer ex.Close()
	seen := map[uint64]bool{}
	run := func(raw json.RawMessage) Outcome {
		o := ex.Exec(ck, raw)
		if o.Inconclusive != "" { // once more, in a fresh child
			o = ex.Exec(ck, raw)
		}
		if o.Inconclusive != "" && res.Incon == "" {
			res.Incon = o.Inconclusive
			res.Case = raw
		}
		return o
	}
	account := func(raw json.RawMessage, o Outcome) {
		res.Cases++
		n := o.Evals
		if n == 0 {
			n = 1
		}
		res.Evals += n
		for _, l := range o.Labels {
			res.Labels[l]++
		}
		if o.NonTrivial {
			if o.Distinct > 0 {
				res.Extra += o.Distinct
			} else if h := hash64(append([]byte(id), raw...)); !seen[h] {
				seen[h] = true
				res.Hashes = append(res.Hashes, h)
			}
			if len(res.Samples) < 2 && len(raw) < 4000 {
				res.Samples = append(res.Samples, Sample{id, raw, o.Labels})
			}
		}
	}
	// Another worker's violation, or the end of the time a quick run may take, ends the search.
	stopFile := out[:strings.LastIndexByte(out, '/')+1] + "stop"
	deadline, _ := strconv.ParseInt(os.Getenv("COMFO_VERIF_DEADLINE"), 10, 64)
	over := func() bool {
		_, err := os.Stat(stopFile)
		return err == nil || deadline > 0 && time.Now().Unix() > deadline
	}
	found := func() { os.WriteFile(stopFile, nil, 0o644) }
	if ck.Fixed != nil {
		for i, c := range ck.Fixed(tier) {
			if i%shards != shard {
				continue
			}
			if _, err := os.Stat(stopFile); err == nil {
				break
			}
			raw := mustJSON(c)
			o := run(raw)
			account(raw, o)
			if o.Violation != "" {
				res.Violation, res.Case = o.Violation, raw
				found()
				break
			}
			if res.Incon != "" {
				break
			}
		}
	}
	if ck.Gen != nil && cases > 0 && res.Violation == "" && res.Incon == "" {
		flag.Set("rapid.seed", strconv.FormatUint(mixSeed(seed, id, shard), 10))
		flag.Set("rapid.checks", strconv.Itoa(cases))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		t := &tb{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						panic(r)
					}
				}
			}()
			var first time.Time
			rapid.Check(t, func(rt *rapid.T) {
				raw := mustJSON(ck.Gen(rt))
				if res.Incon != "" {
					return
				}
				if res.Violation == "" && over() || res.Violation != "" && time.Since(first) > time.Minute {
					return
				}
				o := run(raw)
				if o.Violation != "" && first.IsZero() {
					first = time.Now()
					found()
				}
				if res.Violation == "" {
					account(raw, o)
				}
				if o.Violation != "" {
					// During shrinking only ever smaller failing cases get here last.
					if res.Violation == "" || len(raw) <= len(res.Case) {
						res.Violation, res.Case = o.Violation, raw
					}
					rt.Fatalf("violation")
				}
			})
		}()
		if t.failed && res.Violation == "" && res.Incon == "" {
			res.Incon = "generator: " + t.log.String()
		}
	}
	res.WallMs = time.Since(start).Milliseconds()
	if err := os.WriteFile(out, mustJSON(res), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// Config of an orchestrated run.
type Config struct {
	Prop, Tier string
	Seed       uint64
	Shards     int
	Evidence   string
	ReplayDir  string
	Only       string // restrict to one check name
	Scale      float64
	Known      string
}

// Replay is a saved failing case.
type Replay struct {
	Check     string          `json:"check"`
	Violation string          `json:"violation"`
	Case      json.RawMessage `json:"case"`
}

// Orchestrate runs all checks of a property, writes the evidence and returns
// the exit status.
func Orchestrate(cf Config) int {
	start := time.Now()
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "comfocheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	type job struct {
		ck            *Check
		shard, shards int
		cases         int
	}
	var par, ser []job
	for _, ck := range ForProp(cf.Prop) {
		if cf.Only != "" && ck.Name != cf.Only {
			continue
		}
		n := ck.Quick
		if cf.Tier == "thorough" {
			n = ck.Thorough
		}
		n = int(float64(n) * cf.Scale)
		sh := cf.Shards
		if ck.Serial {
			sh = 1
		}
		for i := 0; i < sh; i++ {
			k := n / sh
			if i < n%sh {
				k++
			}
			j := job{ck, i, sh, k}
			if ck.Serial {
				ser = append(ser, j)
			} else {
				par = append(par, j)
			}
		}
	}
	if len(par)+len(ser) == 0 {
		fmt.Fprintln(os.Stderr, "no checks for", cf.Prop)
		return 2
	}
	if cf.Tier != "thorough" {
		os.Setenv("COMFO_VERIF_DEADLINE", strconv.FormatInt(start.Add(8*time.Minute).Unix(), 10))
	}
	results := make(map[string][]CheckResult)
	var mu sync.Mutex
	var errs []string
	stop := false
	do := func(j job) {
		mu.Lock()
		s := stop
		mu.Unlock()
		if s {
			return
		}
		out := filepath.Join(tmp, fmt.Sprintf("%s-%d.json", strings.ReplaceAll(j.ck.ID(), "/", "_"), j.shard))
		cmd := exec.Command(self, "worker", "-check", j.ck.ID(), "-tier", cf.Tier, "-seed", strconv.FormatUint(cf.Seed, 10),
			"-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(j.shards), "-cases", strconv.Itoa(j.cases), "-out", out)
		var eb bytes.Buffer
		cmd.Stderr = &eb
		err := cmd.Run()
		mu.Lock()
		defer mu.Unlock()
		b, rerr := os.ReadFile(out)
		var r CheckResult
		if err != nil || rerr != nil || json.Unmarshal(b, &r) != nil {
			errs = append(errs, fmt.Sprintf("worker for %s failed: %v %v %s", j.ck.ID(), err, rerr, trimStack(eb.String())))
			return
		}
		if r.Violation != "" {
			stop = true
		}
		results[r.Check] = append(results[r.Check], r)
	}
	work := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < cf.Shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range work {
				do(j)
			}
		}()
	}
	for _, j := range par {
		work <- j
	}
	close(work)
	wg.Wait()
	for _, j := range ser {
		do(j)
	}

	// Merge.
	var ids []string
	for id := range results {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	evals, distinct := 0, 0
	var rules []string
	var samples []Sample
	per := map[string]any{}
	var viol *CheckResult
	for _, id := range ids {
		set := map[uint64]bool{}
		labels := map[string]int{}
		e, cs, extra := 0, 0, 0
		var wall int64
		ns := 0
		for i := range results[id] {
			r := results[id][i]
			e += r.Evals
			cs += r.Cases
			extra += r.Extra
			if r.WallMs > wall {
				wall = r.WallMs
			}
			for _, h := range r.Hashes {
				set[h] = true
			}
			for k, v := range r.Labels {
				labels[k] += v
			}
			for _, s := range r.Samples {
				if ns < 2 {
					samples = append(samples, s)
					ns++
				}
			}
			if r.Violation != "" && (viol == nil || len(r.Case) < len(viol.Case)) {
				rr := r
				viol = &rr
			}
			if r.Incon != "" {
				errs = append(errs, fmt.Sprintf("%s: %s (case %s)", id, r.Incon, r.Case))
			}
		}
		evals += e
		distinct += len(set) + extra
		rules = append(rules, id+": "+Lookup(id).Rule)
		per[id] = map[string]any{"evaluations": e, "cases": cs, "distinct_nontrivial": len(set) + extra, "labels": labels,
			"longest_shard_s": float64(wall) / 1000, "mode": string(Lookup(id).Mode)}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": cf.Prop, "tier": cf.Tier, "seed": cf.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": distinct,
			"rule": strings.Join(rules, " || "), "samples": samples, "per_check": per,
		},
		"wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	if cf.Evidence != "" {
		os.MkdirAll(filepath.Dir(cf.Evidence), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(cf.Evidence, append(b, '\n'), 0o644); err != nil {
			errs = append(errs, err.Error())
		}
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs\n", cf.Prop, cf.Tier, cf.Seed, evals, distinct, time.Since(start).Seconds())
	for _, id := range ids {
		b, _ := json.Marshal(per[id])
		fmt.Printf("  %s %s\n", id, b)
	}
	if viol != nil {
		rp := Replay{Check: viol.Check, Violation: viol.Violation, Case: viol.Case}
		b, _ := json.MarshalIndent(rp, "", " ")
		h := sha256.Sum256(viol.Case)
		os.MkdirAll(cf.ReplayDir, 0o755)
		path := filepath.Join(cf.ReplayDir, fmt.Sprintf("%s-%s.json", strings.ReplaceAll(viol.Check, "/", "-"), hex.EncodeToString(h[:6])))
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("violated: %s\ncase: %s\n", viol.Violation, viol.Case)
		fmt.Printf("VIOLATION property=%s replay=%s\n", cf.Prop, path)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return 2
	}
	return 0
}

// ReplayFile re-executes a saved case without the generator.
func ReplayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := Lookup(rp.Check)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", rp.Check)
		return 2
	}
	ex := NewExecutor()
	defer ex.Close()
	var cmp bytes.Buffer
	json.Compact(&cmp, rp.Case)
	o := ex.Exec(ck, cmp.Bytes())
	fmt.Printf("%+v\n", o)
	switch {
	case o.Violation != "":
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.Prop, path)
		return 1
	case o.Inconclusive != "":
		return 2
	}
	return 0
}
