package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	flagMode   = flag.String("mode", "check", "check|worker|one|solo|replay|list|support|explore")
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick|thorough")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagShard  = flag.Int("shard", 0, "")
	flagShards = flag.Int("shards", 6, "")
	flagDir    = flag.String("dir", "", "scratch directory of this run")
	flagRoot   = flag.String("root", "/verif", "root of the verification tree")
	flagFam    = flag.String("family", "", "")
	flagIdx    = flag.Int("index", 0, "")
	flagFile   = flag.String("file", "", "")
	flagScale  = flag.Float64("scale", 1, "multiply case counts")
	flagCut    = flag.Int("cut", 0, "wall-clock safety cutoff, seconds (0: by tier)")
	flagAll    = flag.Bool("all", false, "support: report all")
)

type workerFail struct {
	Family  string   `json:"family"`
	Index   int      `json:"index"`
	Key     string   `json:"key"`
	Msg     string   `json:"message"`
	Case    []string `json:"case"`
	Choices []uint64 `json:"choices"`
	Known   bool     `json:"known,omitempty"`
}

type workerReport struct {
	Cases      map[string]int `json:"cases"`
	Discards   map[string]int `json:"discards"`
	Evals      int            `json:"evals"`
	NonTrivial map[string]int `json:"nontrivial"`
	Sigs       []uint64       `json:"sigs"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Fails      []workerFail   `json:"fails"`
	Cut        bool           `json:"cut"`
	SlowestMS  int64          `json:"slowest_ms"`
	Slowest    string         `json:"slowest"`
	Done       bool           `json:"done"`
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(*flagRoot, "KNOWN_FINDINGS.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Known []knownFinding `json:"known"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("KNOWN_FINDINGS.json: %v", err)
	}
	return f.Known
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	debug.SetMaxStack(96 << 20)
	switch *flagMode {
	case "list":
		for _, id := range propIDs() {
			for _, f := range properties[id].Families {
				fmt.Println(id, f.Name, f.Quick, f.Thorough)
			}
		}
	case "worker":
		worker()
	case "one":
		one()
	case "replay":
		replay()
	case "explore":
		explore()
	case "solo":
		solo()
	case "support":
		supportMode()
	case "check":
		os.Exit(check())
	default:
		die("unknown mode")
	}
}

func count(f *Family) int {
	n := f.Quick
	if *flagTier == "thorough" {
		n = f.Thorough
		if n == 0 {
			n = f.Quick * 20
		}
	}
	n = int(float64(n) * *flagScale)
	if n < 1 {
		n = 1
	}
	return n
}

// worker runs its share of the cases of every family of one property.
func worker() {
	p := properties[*flagProp]
	rep := workerReport{Cases: map[string]int{}, Discards: map[string]int{}, NonTrivial: map[string]int{}, Labels: map[string]int{}}
	known := map[string]bool{}
	for _, k := range loadKnown() {
		if k.Property == p.ID {
			known[k.Key] = true
		}
	}
	jr, err := os.OpenFile(filepath.Join(*flagDir, fmt.Sprintf("journal.%d", *flagShard)), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		die("%v", err)
	}
	cut := *flagCut
	if cut == 0 {
		cut = 150
		if *flagTier == "thorough" {
			cut = 780
		}
	}
	start := time.Now()
	sigs := map[uint64]bool{}
	buf := make([]byte, 64)
	for fi := range p.Families {
		f := &p.Families[fi]
		if *flagFam != "" && f.Name != *flagFam {
			continue
		}
		n := count(f)
		knownSeen := map[string]bool{}
		samples := 0
		for i := *flagShard; i < n; i += *flagShards {
			if time.Since(start) > time.Duration(cut)*time.Second {
				rep.Cut = true
				break
			}
			s := fmt.Sprintf("%d %d\n", fi, i)
			copy(buf, "                                        \n")
			copy(buf, s)
			jr.WriteAt(buf[:40], 0)
			caseStart := time.Now()
			o := runCase(f, newCase(uint64(*flagSeed), p.ID, f.Name, i))
			if d := time.Since(caseStart).Milliseconds(); d > rep.SlowestMS {
				rep.SlowestMS, rep.Slowest = d, fmt.Sprintf("%s %d", f.Name, i)
			}
			rep.Cases[f.Name]++
			rep.Evals += o.t.evals
			if o.discard != "" {
				rep.Discards[f.Name+": "+o.discard]++
				continue
			}
			for l := range o.t.labels {
				rep.Labels[f.Name+"/"+l]++
			}
			if o.t.nontrivial {
				rep.NonTrivial[f.Name]++
				if !sigs[o.t.sig] {
					sigs[o.t.sig] = true
					rep.Sigs = append(rep.Sigs, o.t.sig)
				}
				if samples < 2 && *flagShard == 0 && o.fail == nil {
					samples++
					rep.Samples = append(rep.Samples, "["+f.Name+"] "+trunc(strings.Join(o.t.log, "; "), 900))
				}
			}
			if o.fail != nil {
				if known[o.fail.Key] {
					if !knownSeen[o.fail.Key] {
						knownSeen[o.fail.Key] = true
						rep.Fails = append(rep.Fails, workerFail{Family: f.Name, Index: i, Key: o.fail.Key, Msg: o.fail.Msg, Known: true})
					}
					continue
				}
				choices, sf, st := shrink(f, o.t.rec, o.fail.Key, 3000)
				wf := workerFail{Family: f.Name, Index: i, Key: o.fail.Key, Msg: o.fail.Msg, Case: o.t.log, Choices: o.t.rec}
				if sf != nil {
					wf.Msg, wf.Case, wf.Choices = sf.Msg, st.log, choices
				} else {
					wf.Msg += "  [did not reproduce on replay of the same choices: the outcome varies from run to run]"
				}
				rep.Fails = append(rep.Fails, wf)
				break
			}
		}
	}
	rep.Done = true
	b, err := json.Marshal(rep)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*flagDir, fmt.Sprintf("report.%d", *flagShard)), b, 0o644); err != nil {
		die("%v", err)
	}
}

// one runs a single case, writing its choices as they are drawn.
func one() {
	p := properties[*flagProp]
	for fi := range p.Families {
		f := &p.Families[fi]
		if f.Name != *flagFam {
			continue
		}
		t := newCase(uint64(*flagSeed), p.ID, f.Name, *flagIdx)
		if *flagFile != "" {
			jf, err := os.Create(*flagFile)
			if err != nil {
				die("%v", err)
			}
			t.journal = jf
		}
		o := runCase(f, t)
		fmt.Println(strings.Join(o.t.log, "\n"))
		if o.fail != nil {
			fmt.Println("FAIL", o.fail.Key, o.fail.Msg)
			os.Exit(1)
		}
		return
	}
	die("no family %q", *flagFam)
}

type replayFile struct {
	Property string   `json:"property"`
	Family   string   `json:"family"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Choices  []uint64 `json:"choices"`
}

// replay runs the case stored in a replay file; exit 1 when it still fails.
func replay() {
	b, err := os.ReadFile(*flagFile)
	if err != nil {
		die("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	p := properties[r.Property]
	for fi := range p.Families {
		f := &p.Families[fi]
		if f.Name != r.Family {
			continue
		}
		o := runCase(f, replayCase(r.Choices))
		fmt.Println(strings.Join(o.t.log, "\n"))
		if o.fail != nil {
			fmt.Println("FAIL", o.fail.Key, o.fail.Msg)
			os.Exit(1)
		}
		fmt.Println("OK: the case passes")
		return
	}
	die("no family")
}

// check runs all shards and writes the evidence file.
func check() int {
	p := properties[*flagProp]
	if p == nil {
		die("unknown property %q", *flagProp)
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	n := *flagShards
	type res struct {
		err    error
		stderr string
	}
	results := make([]res, n)
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			args := []string{"-mode", "worker", "-prop", p.ID, "-tier", *flagTier, "-seed", fmt.Sprint(*flagSeed),
				"-shard", fmt.Sprint(s), "-shards", fmt.Sprint(n), "-dir", dir, "-root", *flagRoot,
				"-scale", fmt.Sprint(*flagScale), "-cut", fmt.Sprint(*flagCut), "-family", *flagFam}
			cmd := exec.Command(self, args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
			if raceBuild {
				cmd.Env = append(raceEnv(dir), "GOMAXPROCS=4", "GOMEMLIMIT=3GiB")
			}
			ef, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", s)))
			cmd.Stderr = ef
			cmd.Stdout = ef
			if err := cmd.Start(); err != nil {
				results[s] = res{err: err}
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			limit := 600 * time.Second
			if *flagTier == "thorough" {
				limit = 860 * time.Second
			}
			select {
			case err := <-done:
				results[s].err = err
			case <-time.After(limit):
				cmd.Process.Kill()
				<-done
				results[s].err = fmt.Errorf("worker timed out")
			}
			ef.Close()
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", s)))
			results[s].stderr = string(b)
		}(s)
	}
	wg.Wait()

	tot := workerReport{Cases: map[string]int{}, Discards: map[string]int{}, NonTrivial: map[string]int{}, Labels: map[string]int{}}
	distinct := map[uint64]bool{}
	broken := ""
	var fails []workerFail
	for s := 0; s < n; s++ {
		if results[s].err != nil {
			// a worker died: a fatal stack overflow that repeats is a violation, anything else an error
			wf, why := autopsy(p, self, dir, s, results[s].stderr)
			if wf != nil {
				fails = append(fails, *wf)
			} else {
				broken = fmt.Sprintf("worker %d: %v: %s\n%s", s, results[s].err, why, trunc(results[s].stderr, 3000))
			}
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("report.%d", s)))
		if err != nil {
			broken = fmt.Sprintf("worker %d left no report: %v", s, err)
			continue
		}
		var r workerReport
		if err := json.Unmarshal(b, &r); err != nil || !r.Done {
			broken = fmt.Sprintf("worker %d report unreadable: %v", s, err)
			continue
		}
		for k, v := range r.Cases {
			tot.Cases[k] += v
		}
		for k, v := range r.Discards {
			tot.Discards[k] += v
		}
		for k, v := range r.NonTrivial {
			tot.NonTrivial[k] += v
		}
		for k, v := range r.Labels {
			tot.Labels[k] += v
		}
		for _, x := range r.Sigs {
			distinct[x] = true
		}
		tot.Evals += r.Evals
		tot.Samples = append(tot.Samples, r.Samples...)
		tot.Cut = tot.Cut || r.Cut
		if r.SlowestMS > tot.SlowestMS {
			tot.SlowestMS, tot.Slowest = r.SlowestMS, r.Slowest
		}
		fails = append(fails, r.Fails...)
	}

	knownDesc := map[string]string{}
	for _, k := range loadKnown() {
		if k.Property == p.ID {
			knownDesc[k.Key] = k.What
		}
	}
	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].Family != fails[j].Family {
			return fails[i].Family < fails[j].Family
		}
		if fails[i].Key != fails[j].Key {
			return fails[i].Key < fails[j].Key
		}
		return len(fails[i].Choices) < len(fails[j].Choices)
	})
	seen := map[string]bool{}
	printedKnown := map[string]bool{}
	violations := 0
	replayDir := filepath.Join(*flagRoot, "replays")
	for _, wf := range fails {
		if wf.Known {
			if !printedKnown[wf.Key] {
				printedKnown[wf.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, knownDesc[wf.Key])
			}
			continue
		}
		k := wf.Family + "|" + wf.Key
		if seen[k] {
			continue
		}
		seen[k] = true
		violations++
		os.MkdirAll(replayDir, 0o755)
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", p.ID, wf.Family, violations))
		b, _ := json.MarshalIndent(replayFile{p.ID, wf.Family, wf.Key, wf.Msg, wf.Case, *flagSeed, wf.Index, wf.Choices}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  family %s, key %s\n  %s\n", wf.Family, wf.Key, strings.ReplaceAll(wf.Msg, "\n", "\n  "))
		for _, l := range wf.Case {
			fmt.Printf("    %s\n", trunc(l, 1500))
		}
	}
	// a listed finding that did not show in this run is still reported as listed
	for k, w := range knownDesc {
		if !printedKnown[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (listed; not hit by this run's cases)\n", p.ID, w)
		}
	}

	cases := 0
	for _, v := range tot.Cases {
		cases += v
	}
	disc := 0
	for _, v := range tot.Discards {
		disc += v
	}
	nontriv := 0
	for _, v := range tot.NonTrivial {
		nontriv += v
	}
	perFam := map[string]interface{}{}
	for _, f := range p.Families {
		perFam[f.Name] = map[string]interface{}{"cases": tot.Cases[f.Name], "non_trivial": tot.NonTrivial[f.Name], "rule": f.Rule}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *flagTier, "seed": *flagSeed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         cases - disc,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             tot.Samples,
			"nontrivial_cases":    nontriv,
			"discarded":           tot.Discards,
			"library_calls":       tot.Evals,
			"families":            perFam,
			"classes":             tot.Labels,
			"cut_short_by_clock":  tot.Cut,
		},
		"assumptions": p.Assume,
		"wall_s":      float64(int(time.Since(start).Seconds()*1000)) / 1000,
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(*flagRoot, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*flagRoot, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d non-trivial, %d distinct), %d library calls, %d violations, %.1fs%s\n",
		p.ID, *flagTier, *flagSeed, cases, nontriv, len(distinct), tot.Evals, violations, time.Since(start).Seconds(),
		map[bool]string{true: " [cut short by the clock]", false: ""}[tot.Cut]+fmt.Sprintf(" [slowest case %s: %d ms]", tot.Slowest, tot.SlowestMS))
	if violations > 0 {
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "ERROR", broken)
		return 2
	}
	if len(distinct) == 0 {
		fmt.Fprintln(os.Stderr, "ERROR no non-trivial case was generated")
		return 2
	}
	return 0
}

// autopsy decides what killed a worker.
func autopsy(p *Property, self, dir string, shard int, stderr string) (*workerFail, string) {
	sign, key, msg, tries, need := "stack exceeds", "fatal:stack-overflow", "the library recurses without end on this case (fatal stack overflow, repeated on re-execution)", 2, 2
	if strings.Contains(stderr, "fatal error: concurrent map") {
		sign, key, msg, tries, need = "fatal error: concurrent map", "fatal:concurrent-map", "goroutines that share values write the same map inside the library (fatal error, repeated on re-execution)", 20, 1
	}
	if !strings.Contains(stderr, sign) {
		return nil, "worker died without a stack overflow"
	}
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
	if err != nil {
		return nil, err.Error()
	}
	fields := strings.Fields(string(b))
	if len(fields) < 2 {
		return nil, "empty journal"
	}
	fi, _ := strconv.Atoi(fields[0])
	idx, _ := strconv.Atoi(fields[1])
	f := p.Families[fi]
	jf := filepath.Join(dir, fmt.Sprintf("choices.%d", shard))
	hits := 0
	for k := 0; k < tries && hits < need; k++ {
		cmd := exec.Command(self, "-mode", "one", "-prop", p.ID, "-family", f.Name, "-index", fmt.Sprint(idx), "-seed", fmt.Sprint(*flagSeed), "-file", jf, "-root", *flagRoot)
		if raceBuild {
			cmd.Env = raceEnv(dir)
		}
		out, err := cmd.CombinedOutput()
		if err != nil && strings.Contains(string(out), sign) {
			hits++
		}
	}
	if hits < need {
		return nil, "the fatal error did not repeat on the same case"
	}
	var choices []uint64
	if fh, err := os.Open(jf); err == nil {
		sc := bufio.NewScanner(fh)
		for sc.Scan() {
			if v, err := strconv.ParseUint(strings.TrimSpace(sc.Text()), 10, 64); err == nil {
				choices = append(choices, v)
			}
		}
		fh.Close()
	}
	return &workerFail{Family: f.Name, Index: idx, Key: key,
		Msg: msg, Choices: choices,
		Case: []string{fmt.Sprintf("replay: -mode one -prop %s -family %s -index %d -seed %d", p.ID, f.Name, idx, *flagSeed)}}, ""
}

// raceEnv makes the race detector report every race, to a file of the run's directory.
func raceEnv(dir string) []string {
	log := filepath.Join(dir, "race")
	return append(os.Environ(), "VERIF_RACE_LOG="+log,
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 log_path="+log)
}
