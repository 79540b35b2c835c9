package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/kern"
	"verifsim/prop"
	"verifsim/scen"
)

func main() {
	debug.SetGCPercent(400)
	kern.Install()
	defer scen.Cleanup()
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "corpus":
		n, ok, bad := scen.RunCorpus(os.Args[2], os.Args[3], len(os.Args) > 4)
		for _, b := range bad {
			fmt.Println(b)
			fmt.Println("==========")
		}
		fmt.Printf("%d of %d steps as the integration tests expect\n", ok, n)
	case "work":
		work(os.Args[2:])
	case "check":
		rc := check(os.Args[2], os.Args[3:])
		scen.Cleanup()
		kern.RealExit(rc)
	case "replay":
		rc := replay(os.Args[2])
		scen.Cleanup()
		kern.RealExit(rc)
	case "min":
		minimise(os.Args[2])
	case "hunt":
		hunt(os.Args[2:])
	case "props":
		for _, id := range ids() {
			fmt.Println(id, prop.All[id].Dialects, prop.All[id].Level)
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Println("usage: sim corpus DIALECT FILE | check PROPERTY [-n N] [-start S] [-v] | replay FILE | props")
	kern.RealExit(2)
}

func ids() []string {
	var o []string
	for id := range prop.All {
		o = append(o, id)
	}
	sort.Strings(o)
	return o
}

// report is one line of a worker's output.
type report struct {
	Stat  *prop.Stat       `json:"stat,omitempty"`
	Found []*prop.Scenario `json:"found,omitempty"`
	Next  int              `json:"next"`
	Last  bool             `json:"last"`
}

// work PROP SEED FROM TO STRIDE MAXVAR DEADLINE: one worker's share.
func work(a []string) {
	p := prop.All[a[0]]
	n := make([]int, len(a))
	for i := 1; i < len(a); i++ {
		n[i], _ = strconv.Atoi(a[i])
	}
	seed, from, to, stride, maxVar, deadline := n[1], n[2], n[3], n[4], n[5], int64(n[6])
	out := os.NewFile(3, "report")
	bw := bufio.NewWriter(out)
	enc := json.NewEncoder(bw)
	st := prop.NewStat()
	var found []*prop.Scenario
	i := from
	for ; i < to; i += stride {
		if time.Now().Unix() > deadline || len(found) >= 20 {
			break
		}
		s := uint64(seed)*1000003 + uint64(i)
		fmt.Fprintf(os.Stderr, "seed %d\n", i)
		found = append(found, p.Explore(s, maxVar, st)...)
		if i/stride%40 == 7 && !kern.Tainted {
			// the same seed again must be the same execution
			a, b := prop.NewStat(), prop.NewStat()
			p.Explore(s, maxVar, a)
			p.Explore(s, maxVar, b)
			if !same(a.Hashes, b.Hashes) || !same(a.States, b.States) {
				st.BadDet++
				st.BadSeeds = append(st.BadSeeds, i)
			}
		}
		if kern.Tainted {
			i += stride
			enc.Encode(&report{Stat: st, Found: found, Next: i, Last: i >= to})
			bw.Flush()
			scen.Cleanup()
			kern.RealExit(0)
		}
	}
	enc.Encode(&report{Stat: st, Found: found, Next: i, Last: true})
	bw.Flush()
}

// hunt FROM SECONDS PROP:N...: runs the properties one after another, in this
// process, until something is found. For trying the checks on changed trees.
func hunt(a []string) {
	from, _ := strconv.Atoi(a[0])
	secs, _ := strconv.Atoi(a[1])
	if p := os.Getenv("SIM_PROFILE"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, x := range a[2:] {
		id, ns, _ := strings.Cut(x, ":")
		n, _ := strconv.Atoi(ns)
		until := time.Now().Add(time.Duration(secs) * time.Second)
		p, st := prop.All[id], prop.NewStat()
		for i := from; i < from+n && time.Now().Before(until); i++ {
			fmt.Fprintf(os.Stderr, "seed %s %d\n", id, i)
			if f := p.Explore(1000003+uint64(i), p.MaxVar, st); len(f) > 0 {
				fmt.Printf("FOUND %s seed %d after %d: %s (%s) %s\n", id, i, i-from+1, f[0].Expected.Kind, f[0].Dialect, f[0].Expected.Detail)
				scen.Cleanup()
				kern.RealExit(1)
			}
			if kern.Tainted {
				fmt.Printf("TAINTED %s seed %d\n", id, i)
				scen.Cleanup()
				kern.RealExit(1)
			}
		}
		fmt.Printf("quiet %s: %d scenarios, %d skipped\n", id, st.Evals, st.Skipped)
	}
	scen.Cleanup()
}

func same(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func check(id string, args []string) int {
	p := prop.All[id]
	if p == nil {
		fmt.Println("no property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	total, maxVar, capS := p.Quick, p.MaxVar, 150
	if tier == "thorough" {
		total, maxVar, capS = p.Thorough, p.MaxVar*4, 3000
	}
	verbose := false
	start := 0
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-n":
			i++
			total, _ = strconv.Atoi(args[i])
		case "-start":
			i++
			start, _ = strconv.Atoi(args[i])
		case "-v":
			verbose = true
		}
	}
	evdir := os.Getenv("VERIF_EVIDENCE")
	if evdir == "" {
		evdir = "evidence"
	}
	os.MkdirAll(evdir, 0755)
	t0 := time.Now()
	rc := 0

	known, rc2 := knownFindings(id, evdir)
	if rc2 != 0 {
		rc = rc2
	}

	const W = 8
	var mu sync.Mutex
	all := prop.NewStat()
	var found []*prop.Scenario
	var trouble []string
	incomplete := 0
	var wg sync.WaitGroup
	deadline := t0.Unix() + int64(capS)
	for k := 0; k < W; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			next := start + k
			crashes := 0
			for next < start+total {
				r, err := spawn(id, seed, next, start+total, W, maxVar, deadline)
				mu.Lock()
				if r != nil {
					all.Merge(r.Stat)
					found = append(found, r.Found...)
				}
				if err != nil {
					trouble = append(trouble, err.Error())
				}
				mu.Unlock()
				if r == nil {
					crashes++
					if crashes > 3 {
						return
					}
					next += W * 5
					continue
				}
				next = r.Next
				if r.Last {
					if next < start+total {
						mu.Lock()
						incomplete += (start + total - next + W - 1) / W
						mu.Unlock()
					}
					return
				}
			}
		}(k)
	}
	wg.Wait()
	wall := time.Since(t0).Seconds()

	sort.Slice(found, func(i, j int) bool { return found[i].Seed < found[j].Seed })
	kinds := map[string]int{}
	vios := []interface{}{}
	for _, f := range found {
		kinds[f.Expected.Kind]++
		if !verbose && kinds[f.Expected.Kind] > 1 || kinds[f.Expected.Kind] > 25 {
			continue
		}
		path := filepath.Join(evdir, fmt.Sprintf("%s-%s-%d.json", id, f.Expected.Kind, f.Seed))
		writeJSON(path, f)
		if m := minFile(path); m != nil {
			f = m
		}
		abs, _ := filepath.Abs(path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, abs)
		fmt.Printf("  %s (%s, seed %d): %s\n", f.Expected.Kind, f.Dialect, f.Seed, strings.ReplaceAll(f.Expected.Detail, "\n", "\n    "))
		vios = append(vios, map[string]interface{}{"kind": f.Expected.Kind, "seed": f.Seed, "replay": abs, "detail": f.Expected.Detail})
		rc = 1
	}
	if len(found) > 0 {
		fmt.Printf("  %d violating runs by kind: %v\n", len(found), kinds)
	}
	for _, t := range trouble {
		fmt.Println("worker trouble:", t)
	}
	if all.BadDet > 0 {
		fmt.Printf("self check: %d seeds did not repeat exactly: %v\n", all.BadDet, all.BadSeeds)
		if rc == 0 {
			rc = 3
		}
	}
	if rc == 0 && (len(trouble) > 0 || all.Evals == 0) {
		fmt.Println("the check could not do its work")
		rc = 3
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.Level, "wall_s": wall,
		"coverage": map[string]interface{}{
			"evaluations":                  all.Evals,
			"distinct_nontrivial":          len(all.Cases),
			"rule":                         p.Rule + "; a case is counted when it was judged, and once for the same input and the same traces of operations, faults and answers",
			"samples":                      all.Samples,
			"starting_points_planned":      total,
			"starting_points_not_reached":  incomplete,
			"scenarios_skipped":            all.Skipped,
			"skipped_because":              all.SkipWhy,
			"simulated_runs":               all.Runs,
			"simulated_runs_per_hour":      int(float64(all.Runs) / wall * 3600),
			"seeds_per_hour":               int(float64(total-incomplete) / wall * 3600),
			"simulated_time_s":             float64(all.SimNs) / 1e9,
			"simulated_operations":         all.Ops,
			"faults_injected":              all.Faults,
			"distinct_run_traces":          len(all.Hashes),
			"distinct_server_states":       len(all.States),
			"distinct_schedules":           len(all.Scheds),
			"kinds_of_statement_exercised": all.Edits,
			"notes":                        all.Notes,
			"known_findings":               known,
			"components_real":              prop.RealParts(p),
			"components_stub":              prop.StubParts(p),
			"violations_found":             vios,
		},
		"assumptions": prop.Assumptions(p),
		"violations":  len(vios),
	}
	writeJSON(filepath.Join(evdir, id+".json"), ev)
	fmt.Printf("%s %s: %d starting points, %d scenarios judged, %d simulated runs, %d skipped, %d distinct cases, %.0fs, exit %d\n", id, tier, total-incomplete, all.Evals, all.Runs, all.Skipped, len(all.Cases), wall, rc)
	if verbose {
		b, _ := json.MarshalIndent(map[string]interface{}{"skip": all.SkipWhy, "faults": all.Faults, "edits": all.Edits, "notes": all.Notes}, "", " ")
		fmt.Println(string(b))
	}
	return rc
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}

func spawn(id string, seed, from, to, stride, maxVar int, deadline int64) (*report, error) {
	f, err := os.CreateTemp("", "simrep-")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	defer f.Close()
	c := exec.Command(os.Args[0], "work", id, fmt.Sprint(seed), fmt.Sprint(from), fmt.Sprint(to), fmt.Sprint(stride), fmt.Sprint(maxVar), fmt.Sprint(deadline))
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	c.ExtraFiles = []*os.File{f}
	var eb strings.Builder
	c.Stderr = &tailWriter{b: &eb}
	done := make(chan error, 1)
	if err := c.Start(); err != nil {
		return nil, err
	}
	go func() { done <- c.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(time.Until(time.Unix(deadline, 0)) + 60*time.Second):
		c.Process.Kill()
		<-done
		werr = fmt.Errorf("worker stuck")
	}
	b, _ := os.ReadFile(f.Name())
	r := &report{}
	if json.Unmarshal(b, r) == nil && r.Stat != nil {
		return r, nil
	}
	return nil, fmt.Errorf("worker from %d: %v: %s", from, werr, eb.String())
}

type tailWriter struct{ b *strings.Builder }

func (t *tailWriter) Write(p []byte) (int, error) {
	s := tail(t.b.String()+string(p), 6000)
	t.b.Reset()
	t.b.WriteString(s)
	return len(p), nil
}

// minFile minimises a replay file in a process of its own.
func minFile(path string) *prop.Scenario {
	if os.Getenv("SIM_NOMIN") != "" {
		return nil
	}
	c := exec.Command(os.Args[0], "min", path)
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	done := make(chan error, 1)
	if c.Start() != nil {
		return nil
	}
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Process.Kill()
		<-done
	}
	sc, err := load(path)
	if err != nil {
		return nil
	}
	return sc
}

func load(path string) (*prop.Scenario, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	sc := &prop.Scenario{}
	return sc, json.Unmarshal(b, sc)
}

func minimise(path string) {
	sc, err := load(path)
	if err != nil {
		kern.RealExit(2)
	}
	m := prop.Minimise(sc, 600, time.Now().Add(25*time.Second))
	writeJSON(path+".tmp", m)
	os.Rename(path+".tmp", path)
}

func replay(path string) int {
	sc, err := load(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	v, log, err := prop.Replay(sc, nil)
	for _, x := range log {
		fmt.Println(x)
	}
	if err != nil {
		fmt.Println("not judged:", err)
		return 2
	}
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", v.Kind, v.Detail)
	if sc.Expected != nil && *sc.Expected == *v && strings.Join(sc.Trace, "\n") == strings.Join(log, "\n") {
		fmt.Println("the violation and the trace are exactly the recorded ones")
	}
	abs, _ := filepath.Abs(path)
	fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Prop, abs)
	return 1
}

// known is the committed list of findings.
type known struct {
	Property string         `json:"property"`
	Status   string         `json:"status"` // finding or fixed
	Commit   string         `json:"commit,omitempty"`
	What     string         `json:"what"`
	Kind     string         `json:"kind"`
	Replay   *prop.Scenario `json:"replay,omitempty"`
}

// knownFindings replays each listed finding: still there, it is announced; a
// repaired one that is back is a violation.
func knownFindings(id, evdir string) (o []string, rc int) {
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return
	}
	var ks []known
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Println("known findings:", err)
		return nil, 3
	}
	for i, k := range ks {
		if k.Property != id || k.Replay == nil {
			continue
		}
		k.Replay.Prop = id
		f, _ := os.CreateTemp("", "simknown-")
		f.Close()
		writeJSON(f.Name(), k.Replay)
		c := exec.Command(os.Args[0], "replay", f.Name())
		c.Env = append(os.Environ(), "GOMAXPROCS=1")
		raw, _ := c.Output()
		var keep []string
		for _, x := range strings.Split(string(raw), "\n") {
			if !strings.HasPrefix(x, "VIOLATION ") {
				keep = append(keep, x)
			}
		}
		out := strings.Join(keep, "\n")
		os.Remove(f.Name())
		code := c.ProcessState.ExitCode()
		there := code == 1 && strings.Contains("\n"+out, "\n"+k.Kind+": ")
		switch {
		case k.Status == "finding" && there:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			o = append(o, k.What)
		case k.Status == "finding" && code == 0:
			o = append(o, "no longer there: "+k.What)
		case k.Status == "fixed" && code == 0:
			o = append(o, "repaired, replayed and quiet: "+k.What)
		case code == 1:
			path, _ := filepath.Abs(filepath.Join(evdir, fmt.Sprintf("%s-known%d.json", id, i)))
			writeJSON(path, k.Replay)
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n%s\n", id, path, k.What, tail(out, 3000))
			rc = 1
		case code == 2:
			o = append(o, "could not be replayed any more: "+k.What)
		default:
			fmt.Printf("replay of a recorded case ended with %d: %s\n%s\n", code, k.What, tail(out, 3000))
			if rc == 0 {
				rc = 3
			}
		}
	}
	return
}
