// vh runs the check of one property: it re-executes itself as a worker, so
// that a crash of the code under test is reported and not suffered.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/pbt"
	"verif/props"
)

type replayFile struct {
	Property string   `json:"property"`
	Family   string   `json:"family,omitempty"`
	Probe    string   `json:"probe,omitempty"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Case     string   `json:"case"`
	Choices  []uint64 `json:"choices"`
	Seed     int64    `json:"seed"`
	Howto    string   `json:"howto"`
}

var (
	propID   = flag.String("prop", "", "property id")
	tier     = flag.String("tier", "", "quick or thorough")
	replay   = flag.String("replay", "", "replay file")
	family   = flag.String("family", "", "only this family")
	count    = flag.Int("n", 0, "number of cases (override)")
	showOnly = flag.Int("show", 0, "print this many generated cases and stop")
	verif    = flag.String("verif", "/verif", "the verification directory")
)

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func main() {
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if os.Getenv("VERIF_WORKER") == "" {
		os.Exit(supervise())
	}
	os.Exit(work())
}

// supervise runs the worker and classifies abnormal ends.
func supervise() int {
	scratch, err := os.MkdirTemp("", "verif-"+*propID+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_WORKER=1", "VERIF_SCRATCH="+scratch, "VERIF_DIR="+*verif)
	var tail bytes.Buffer
	pr, pw := io.Pipe()
	cmd.Stdout = os.Stdout
	cmd.Stderr = pw
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	done := make(chan struct{})
	go func() {
		defer close(done)
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		n := 0
		for sc.Scan() {
			if n++; n < 400 {
				tail.WriteString(sc.Text() + "\n")
			}
			if os.Getenv("VERIF_DEBUG") != "" || n < 40 {
				fmt.Fprintln(os.Stderr, sc.Text())
			}
		}
		io.Copy(io.Discard, pr)
	}()
	if err := cmd.Start(); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	limit := 820 * time.Second
	if *tier == "thorough" {
		limit = 50 * time.Minute
	}
	timedOut := false
	tm := time.AfterFunc(limit, func() {
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err = cmd.Wait()
	tm.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	pw.Close()
	<-done
	if err == nil {
		return 0
	}
	code := cmd.ProcessState.ExitCode()
	if timedOut {
		fmt.Println("ERROR: the check ran out of its time: inconclusive")
		return 2
	}
	if code == 1 || code == 3 {
		return map[int]int{1: 1, 3: 2}[code]
	}
	if code == 4 {
		b, _ := os.ReadFile(filepath.Join(scratch, "hang"))
		path := writeReplay(&replayFile{Property: *propID, Class: "does not terminate", Message: "the operation did not end", Case: string(b), Seed: seed()})
		fmt.Printf("does not terminate:\n%s\nVIOLATION property=%s replay=%s\n", clip(string(b), 3000), *propID, path)
		return 1
	}
	text := tail.String()
	crash := ""
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			crash = l
			break
		}
	}
	// a Go panic in a goroutine of the code under test, a concurrent map access or a stack overflow
	if code == 2 && crash != "" && !strings.Contains(crash, "out of memory") && !strings.Contains(crash, "cannot allocate") &&
		strings.Contains(text, "sigs.k8s.io/controller-tools/pkg") {
		path := writeReplay(&replayFile{Property: *propID, Class: "process crash", Message: crash + "\n" + clip(text, 6000),
			Case: readInflight(scratch), Seed: seed()})
		fmt.Printf("the process running the code under test crashed: %s\n", crash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *propID, path)
		return 1
	}
	fmt.Printf("ERROR: worker ended with %v\n%s\n", err, clip(text, 3000))
	return 2
}

func readInflight(scratch string) string {
	b, _ := os.ReadFile(filepath.Join(scratch, "inflight"))
	return string(b)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " …"
	}
	return s
}

func writeReplay(r *replayFile) string {
	dir := filepath.Join(*verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%s.json", r.Property, r.Seed, sanitize(r.Family+r.Probe+"-"+r.Class)))
	r.Howto = fmt.Sprintf("cd /verif && ./run.sh %s --replay %s", r.Property, path)
	b, _ := json.MarshalIndent(r, "", "  ")
	os.WriteFile(path, b, 0o644)
	return path
}

func sanitize(s string) string {
	out := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

// knownFindings reads "known: property=C01 key=abc text".
func knownFindings() map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(*verif, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "known:" && f[1] == "property="+*propID && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return out
}

func work() int {
	p := props.Get(*propID)
	if p == nil {
		fmt.Println("ERROR: unknown property", *propID)
		return 3
	}
	if *replay != "" {
		return doReplay(p)
	}
	start := time.Now()
	// Time box: stop generating (never fail) when the machine is slow.
	box := 240 * time.Second
	if *tier == "thorough" {
		box = 30 * time.Minute
	}
	r := &pbt.Runner{Seed: uint64(seed()), Deadline: start.Add(box)}
	r.InFlight = func(fam string, ch [][]uint64) {
		b, _ := json.Marshal(map[string]any{"family": fam, "choices": ch})
		os.WriteFile(filepath.Join(os.Getenv("VERIF_SCRATCH"), "inflight"), b, 0o644)
	}
	known := knownFindings()
	violations := 0
	var stats []pbt.Stats
	probesRun := 0
	if *family == "" && *showOnly == 0 {
		for _, pr := range p.Probes {
			o := pbt.Guard(pr.Run)
			probesRun++
			if o.HarnessErr != "" {
				fmt.Println("ERROR: probe", pr.Key, o.HarnessErr)
				return 3
			}
			if o.Fail == "" {
				continue
			}
			if txt, ok := known[pr.Key]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, pr.Key, txt)
				continue
			}
			violations++
			path := writeReplay(&replayFile{Property: p.ID, Probe: pr.Key, Class: o.Class, Message: o.Fail, Case: pr.Key, Seed: seed()})
			fmt.Println(clip(o.Fail, 3000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
	}
	for _, f := range p.Families {
		if *family != "" && f.Name != *family {
			continue
		}
		n := f.Quick
		if *tier == "thorough" {
			n = f.Thorough
		}
		if *count > 0 {
			n = *count
		}
		if *showOnly > 0 {
			for i := 0; i < *showOnly; i++ {
				c := f.Gen(pbt.NewSrc(uint64(seed()), fmt.Sprintf("%s/%d", f.Name, i)))
				fmt.Printf("--- %s/%d\n%s\n", f.Name, i, f.Show(c))
			}
			continue
		}
		st, fail, err := r.Run(f, n)
		stats = append(stats, st)
		if os.Getenv("VERIF_DEBUG") != "" {
			b, _ := json.MarshalIndent(struct {
				E, N, D int
				L, X    map[string]int
				W       float64
			}{st.Evaluations, st.NonTrivial, st.Distinct, st.Labels, st.Excluded, st.WallS}, "", " ")
			fmt.Fprintln(os.Stderr, f.Name, string(b))
		}
		if fail != nil {
			violations++
			path := writeReplay(&replayFile{Property: p.ID, Family: fail.Family, Class: fail.Class, Message: fail.Msg, Case: fail.Shown, Choices: fail.Choices, Seed: seed()})
			fmt.Printf("family %s: %s\nminimal case:\n%s\n", fail.Family, clip(fail.Msg, 4000), clip(fail.Shown, 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			break
		}
		if err != nil {
			fmt.Println("ERROR:", clip(err.Error(), 6000))
			return 3
		}
	}
	if *showOnly > 0 {
		return 0
	}
	if err := writeEvidence(p, stats, probesRun, violations, time.Since(start).Seconds()); err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	total, distinct := 0, 0
	for _, s := range stats {
		total += s.Evaluations
		distinct += s.Distinct
	}
	if violations > 0 {
		return 1
	}
	if total == 0 || distinct < 2 {
		fmt.Println("ERROR: nothing was explored")
		return 3
	}
	fmt.Printf("property %s held: %d cases (%d distinct non-trivial), %d regression inputs, %.0fs\n", p.ID, total, distinct, probesRun, time.Since(start).Seconds())
	return 0
}

func writeEvidence(p *props.Prop, stats []pbt.Stats, probes, violations int, wall float64) error {
	total, distinct := 0, 0
	var samples []any
	for _, s := range stats {
		total += s.Evaluations
		distinct += s.Distinct
		for _, x := range s.Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]string{"family": s.Name, "case": x})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": seed(), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": samples,
			"families": slim(stats), "regression_inputs": probes,
		},
		"assumptions": p.Assumptions, "wall_s": wall, "violations": violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		return err
	}
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

func slim(in []pbt.Stats) []map[string]any {
	var out []map[string]any
	for _, s := range in {
		var labels []string
		for l, n := range s.Labels {
			labels = append(labels, fmt.Sprintf("%s=%d", l, n))
		}
		sort.Strings(labels)
		out = append(out, map[string]any{"family": s.Name, "evaluations": s.Evaluations, "distinct_nontrivial": s.Distinct, "classes": labels, "excluded": s.Excluded, "wall_s": s.WallS})
	}
	return out
}

func doReplay(p *props.Prop) int {
	b, err := os.ReadFile(*replay)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	var o pbt.Outcome
	shown := rf.Probe
	if rf.Probe != "" {
		for _, pr := range p.Probes {
			if pr.Key == rf.Probe {
				o = pbt.Guard(pr.Run)
			}
		}
	} else {
		for _, f := range p.Families {
			if f.Name == rf.Family {
				var c any
				c, o = pbt.ReplayCase(f, rf.Choices)
				shown = f.Show(c)
			}
		}
	}
	fmt.Println(shown)
	if o.HarnessErr != "" {
		fmt.Println("ERROR:", o.HarnessErr)
		return 3
	}
	if o.Fail != "" {
		fmt.Println(o.Fail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *replay)
		return 1
	}
	fmt.Println("held")
	return 0
}
