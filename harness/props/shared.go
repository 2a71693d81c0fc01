package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"sigs.k8s.io/controller-tools/pkg/markers"

	"verif/pbt"
	"verif/race"
	"verif/ws"
)

// ---- C23: shared registries, collectors, parsers

// -- one registry, against a map

type regOp struct {
	kind, name, text string
	tgt, n           int
}

type regHist struct{ ops []regOp }

var rgNames = []string{"a", "a:b", "a:b:c", "a:c", "d", "d:e", "k8s:gen", "k8s:gen:a"}

func rgText(s *pbt.Src) string {
	return "+" + pbt.Pick(s, rgNames...) + pbt.Pick(s, "", ":x", ":b", ":e", ":a:b") + pbt.Pick(s, "", "=1", "={a:b}", "=x:y=z", ":=1", "=")
}

func genRegHist(s *pbt.Src) any {
	h := &regHist{}
	for n := s.Range(2, 60); n > 0; n-- {
		op := regOp{name: pbt.Pick(s, rgNames...), tgt: s.PickW(5, 3, 2), n: s.Intn(4)}
		op.kind = []string{"register", "define", "lookup", "addhelp", "help", "all", "scribble", "badtarget"}[s.PickW(30, 10, 40, 6, 8, 8, 4, 2)]
		if op.kind == "lookup" {
			op.text = rgText(s)
		}
		h.ops = append(h.ops, op)
	}
	return h
}

func (h *regHist) show() string {
	var sb strings.Builder
	for _, o := range h.ops {
		fmt.Fprintf(&sb, "%s %s %q target=%d n=%d\n", o.kind, o.name, o.text, o.tgt, o.n)
	}
	return sb.String()
}

func checkRegHist(h *regHist) pbt.Outcome {
	reg := &markers.Registry{}
	type key struct {
		tgt  markers.TargetType
		name string
	}
	model := map[key]*markers.Definition{}
	helps := map[*markers.Definition]*markers.DefinitionHelp{}
	var made []*markers.Definition
	pick := func(n int) *markers.Definition {
		if len(made) == 0 {
			return nil
		}
		return made[len(made)-1-n%len(made)]
	}
	hits, shadow := 0, 0
	for i, op := range h.ops {
		tgt := markers.TargetType(op.tgt)
		switch op.kind {
		case "register":
			d, err := markers.MakeDefinition(op.name, tgt, "")
			if err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
			if err := reg.Register(d); err != nil {
				return pbt.Failf("register", "op %d: %v", i, err)
			}
			model[key{tgt, op.name}] = d
			made = append(made, d)
		case "badtarget":
			d, _ := markers.MakeDefinition(op.name, markers.TargetType(7+op.n), "")
			if reg.Register(d) == nil {
				return pbt.Failf("register", "op %d: a definition of an unknown target is accepted", i)
			}
			if got := reg.Lookup("+"+op.name, markers.TargetType(7+op.n)); got != nil {
				return pbt.Failf("lookup", "op %d: Lookup for an unknown target finds %v", i, got)
			}
		case "define":
			if err := reg.Define(op.name, tgt, 0); err != nil {
				return pbt.Failf("register", "op %d: %v", i, err)
			}
			d := reg.Lookup("+"+op.name, tgt)
			if d == nil || d.Name != op.name || d.Target != tgt {
				return pbt.Failf("lookup", "op %d: what was just defined as %s for %d is looked up as %+v", i, op.name, tgt, d)
			}
			for _, m := range made {
				if m == d {
					return pbt.Failf("lookup", "op %d: the definition of %s that was just replaced is still found", i, op.name)
				}
			}
			model[key{tgt, op.name}] = d
			made = append(made, d)
		case "lookup":
			var want *markers.Definition
			for n, name := range race.Candidates(op.text) {
				if d := model[key{tgt, name}]; d != nil {
					if want == nil {
						want = d
						hits++
						if n > 0 {
							shadow++
						}
					} else {
						shadow++
					}
				}
			}
			if got := reg.Lookup(op.text, tgt); got != want {
				return pbt.Failf("lookup", "op %d: Lookup(%q, %d) = %+v, want %+v", i, op.text, op.tgt, got, want)
			}
		case "addhelp":
			if d := pick(op.n); d != nil {
				hp := &markers.DefinitionHelp{Category: fmt.Sprint(i)}
				reg.AddHelp(d, hp)
				helps[d] = hp
			}
		case "help":
			if d := pick(op.n); d != nil {
				if got := reg.HelpFor(d); got != helps[d] {
					return pbt.Failf("help", "op %d: HelpFor(%s) = %+v, want %+v", i, d.Name, got, helps[d])
				}
			}
		case "all", "scribble":
			got := reg.AllDefinitions()
			n := map[*markers.Definition]int{}
			for _, d := range got {
				n[d]++
			}
			for k, d := range model {
				if n[d] != 1 {
					return pbt.Failf("all", "op %d: AllDefinitions has %s of %d %d times", i, k.name, k.tgt, n[d])
				}
			}
			if len(got) != len(model) {
				return pbt.Failf("all", "op %d: AllDefinitions has %d definitions for %d", i, len(got), len(model))
			}
			if op.kind == "scribble" {
				for j := range got {
					got[j] = nil
				}
			}
		}
	}
	return pbt.OK(shadow > 0 && hits > 1, fmt.Sprintf("hits=%d", min(hits, 5)))
}

// -- schedules, in a program with the race detector

var (
	racerOnce sync.Once
	racerPath string
	racerErr  error
)

func racer() string {
	racerOnce.Do(func() {
		racerPath = filepath.Join(Scratch("racer"), "vhrace")
		cmd := exec.Command("go", "build", "-race", "-o", racerPath, "verif/cmd/vhrace")
		cmd.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "harness")
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			racerErr = fmt.Errorf("building vhrace: %v\n%s", err, out)
		}
	})
	if racerErr != nil {
		panic(pbt.HarnessPanic(racerErr.Error()))
	}
	return racerPath
}

type schedCase struct {
	c     race.Case
	files ws.Files
	deep  bool
}

func (c *schedCase) show() string {
	b, _ := json.MarshalIndent(c.c, "", " ")
	if c.files == nil {
		return string(b)
	}
	return string(b) + "\n" + c.files.Show()
}

// at places the case's packages.
func (c *schedCase) at(i int) race.Case {
	full := func(names []string) []string {
		var out []string
		for _, n := range names {
			out = append(out, fmt.Sprintf("%s/c%d/%s", ws.Mod, i, n))
		}
		return out
	}
	r := c.c
	if r.Col != nil {
		x := *r.Col
		x.Pkgs = full(x.Pkgs)
		r.Col = &x
	}
	if r.Chk != nil {
		x := *r.Chk
		x.Pkgs = full(x.Pkgs)
		r.Chk = &x
	}
	return r
}

// runRace runs schedules, and continues after one that ends the program.
func runRace(dir string, cases []race.Case, procs, again int) (fails []pbt.Outcome, keys []string) {
	fails, keys = make([]pbt.Outcome, len(cases)), make([]string, len(cases))
	todo := make([]int, len(cases))
	for i := range cases {
		todo[i] = i
	}
	for len(todo) > 0 {
		sp := race.Spec{Dir: dir, Procs: procs, Again: again}
		for _, i := range todo {
			sp.Cases = append(sp.Cases, cases[i])
		}
		b, err := json.Marshal(sp)
		if err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		f := filepath.Join(Scratch("race"), "spec.json")
		if err := os.WriteFile(f, b, 0o644); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
		cmd := exec.CommandContext(ctx, racer(), f)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err = cmd.Run()
		late := ctx.Err() != nil
		cancel()
		_ = os.RemoveAll(filepath.Dir(f))
		busy := -1
		dec := json.NewDecoder(&o)
		for dec.More() {
			var v race.Verdict
			if dec.Decode(&v) != nil {
				break
			}
			i := todo[v.Case]
			if v.Busy {
				busy = v.Case
				continue
			}
			busy = -1
			keys[i] = v.Key
			if v.Fail != "" {
				fails[i] = pbt.Failf("answer", "%s", v.Fail)
			}
		}
		if err == nil {
			return
		}
		var exit *exec.ExitError
		msg := e.String()
		if len(msg) > 5000 {
			msg = msg[:5000]
		}
		mine := strings.Contains(e.String(), "controller-tools/pkg")
		switch {
		case busy < 0, !errors.As(err, &exit) && !late:
			panic(pbt.HarnessPanic(fmt.Sprintf("vhrace: %v\n%s", err, msg)))
		case late:
			fails[todo[busy]] = pbt.Failf("hang", "the schedule didn't end in 240 s")
		case exit.ExitCode() == 66 && mine:
			fails[todo[busy]] = pbt.Failf("race", "the race detector reports\n%s", msg)
		case exit.ExitCode() == 2 && (strings.Contains(msg, "panic:") || strings.Contains(msg, "fatal error:")) && mine:
			fails[todo[busy]] = pbt.Failf("crash", "%s", msg)
		default:
			panic(pbt.HarnessPanic(fmt.Sprintf("vhrace: %v\n%s", err, msg)))
		}
		todo = todo[busy+1:]
	}
	return
}

func checkSched(cases []any) []pbt.Outcome {
	var dir string
	cs := make([]race.Case, len(cases))
	checker := false
	for i, a := range cases {
		c := a.(*schedCase)
		cs[i] = c.at(i)
		checker = checker || c.c.Chk != nil
		if c.files != nil {
			if dir == "" {
				dir = Scratch("sched")
				defer Drop(dir)
				if err := ws.InitModule(dir, ws.Mod); err != nil {
					panic(pbt.HarnessPanic(err.Error()))
				}
			}
			if err := ws.WriteFiles(filepath.Join(dir, fmt.Sprintf("c%d", i)), atCase(c.files, i, "")); err != nil {
				panic(pbt.HarnessPanic(err.Error()))
			}
		}
	}
	outs, keys := runRace(dir, cs, 0, 8)
	if checker {
		again, keys2 := runRace(dir, cs, 1, 1)
		for i := range outs {
			if outs[i].Fail == "" && again[i].Fail != "" {
				outs[i] = again[i]
			}
			if outs[i].Fail == "" && keys[i] != keys2[i] {
				outs[i] = pbt.Failf("types", "what is known after a check differs from one run to another:\n%s\n--\n%s", keys[i], keys2[i])
			}
		}
	}
	for i, a := range cases {
		if outs[i].Fail == "" {
			outs[i] = pbt.OK(a.(*schedCase).deep)
		}
	}
	return outs
}

func genRegSched(s *pbt.Src) any {
	r := &race.RegCase{Exact: s.Bool()}
	n := s.Range(2, 5)
	for _, name := range rgNames {
		for t := 0; t < 3; t++ {
			if s.Chance(35) {
				r.Keys = append(r.Keys, race.Key{Name: name, Target: t, Owner: s.Intn(n)})
			}
		}
	}
	if len(r.Keys) == 0 {
		r.Keys = []race.Key{{Name: "a", Target: 0}}
	}
	for k := range r.Keys {
		if s.Chance(20) {
			r.Early = append(r.Early, k)
		}
	}
	writes, reads := 0, 0
	for g := 0; g < n; g++ {
		var own []int
		for k := range r.Keys {
			if r.Keys[k].Owner == g {
				own = append(own, k)
			}
		}
		ops := []race.RegOp{}
		for m := s.Range(1, 12); m > 0; m-- {
			kind := []string{"lookup", "register", "all", "help", "addhelp"}[s.PickW(40, 35, 10, 8, 7)]
			op := race.RegOp{Kind: kind, Key: s.Intn(len(r.Keys))}
			switch kind {
			case "register", "addhelp":
				if len(own) == 0 {
					continue
				}
				op.Key = own[s.Intn(len(own))]
				writes++
			case "lookup":
				op.Text, op.Tgt = rgText(s), s.Intn(3)
				if s.Bool() { // one that is there
					k := r.Keys[op.Key]
					op.Text, op.Tgt = "+"+k.Name+pbt.Pick(s, "", ":x", "=1"), k.Target
				}
				reads++
			default:
				reads++
			}
			ops = append(ops, op)
		}
		r.Procs = append(r.Procs, ops)
	}
	return &schedCase{c: race.Case{Reg: r}, deep: writes > 1 && reads > 1}
}

func genColSched(s *pbt.Src) any {
	c := &race.ColCase{Need: s.Chance(60), NoReg: s.Chance(8)}
	files := ws.Files{}
	np := s.Range(1, 4)
	bad := s.Chance(12)
	mk := func() string {
		m := "// +" + pbt.Pick(s, "x:int=1", "x:int=7", "x:str=a", `x:str="b c"`, "x:list=a;b", "x:list={c}", "x:raw={{", "x:st:a=1", "x:st:a=2,b={q,r}", "y:none=1", "x:st")
		if bad && s.Chance(10) {
			m = "// +x:int=zz"
		}
		return m + "\n"
	}
	marks := func(indent string) string {
		var sb strings.Builder
		for n := s.Small(3); n > 0; n-- {
			sb.WriteString(indent + mk())
		}
		return sb.String()
	}
	for p := 0; p < np; p++ {
		name := fmt.Sprintf("p%d", p)
		c.Pkgs = append(c.Pkgs, name)
		for f := s.Range(1, 2); f > 0; f-- {
			var sb strings.Builder
			sb.WriteString(marks("") + "\n")
			fmt.Fprintf(&sb, "package %s\n\n", name)
			for t := s.Range(0, 3); t > 0; t-- {
				if s.Chance(30) {
					sb.WriteString(marks("") + "\n")
				}
				fmt.Fprintf(&sb, "// T%d%d is a type.\n%stype T%d%d struct {\n", f, t, marks(""), f, t)
				for n := s.Range(0, 3); n > 0; n-- {
					fmt.Fprintf(&sb, "\t// F%d is a field.\n%s\tF%d int `json:\"f%d\"`\n", n, marks("\t"), n, n)
				}
				sb.WriteString("}\n\n")
			}
			files[fmt.Sprintf("%s/f%d.go", name, f)] = sb.String()
		}
	}
	n := s.Range(2, 5)
	for g := 0; g < n; g++ {
		ops := []race.ColOp{}
		var mine []int
		for p := 0; p < np; p++ {
			if c.Need || p%n == g {
				mine = append(mine, p)
			}
		}
		for m := s.Range(1, 8); m > 0 && len(mine) > 0; m-- {
			ops = append(ops, race.ColOp{Kind: []string{"markers", "each", "pkg", "register"}[s.PickW(4, 4, 2, 1)], Pkg: mine[s.Intn(len(mine))]})
		}
		c.Procs = append(c.Procs, ops)
	}
	return &schedCase{c: race.Case{Col: c}, files: files, deep: c.Need && !c.NoReg}
}

func genChkSched(s *pbt.Src) any {
	c := &race.ChkCase{Filter: pbt.Pick(s, "", "skip", "both")}
	np := s.Range(3, 9)
	type ref struct {
		to   int
		skip bool
	}
	refs := make([][]ref, np)
	files := ws.Files{}
	parses := make([]bool, np)
	for p := 0; p < np; p++ {
		name := fmt.Sprintf("p%d", p)
		c.Pkgs = append(c.Pkgs, name)
		parses[p] = true
		nf := s.Range(1, 2)
		for f := 0; f < nf; f++ {
			var body, imp strings.Builder
			used := map[int]bool{}
			use := func(skip bool) string {
				if p == 0 {
					return "int"
				}
				to := s.Intn(p)
				if s.Chance(40) {
					to = max(0, p-1-s.Intn(2))
				}
				used[to] = true
				refs[p] = append(refs[p], ref{to, skip})
				return pbt.Pick(s, "", "*", "[]", "map[string]") + fmt.Sprintf("p%d.SelBase", to)
			}
			if f == 0 {
				fmt.Fprintf(&body, "type SelBase struct{ V int }\n")
			}
			for t := s.Range(0, 3); t > 0; t-- {
				// types with fields that are skipped have types that may be unknown
				skipT := s.Chance(40)
				kind := "Sel"
				if skipT {
					kind = "Skip"
				}
				fmt.Fprintf(&body, "type %sT%d%d struct {\n", kind, f, t)
				for n := s.Range(0, 3); n > 0; n-- {
					skipF := skipT && s.Bool()
					fn := "F"
					if skipF {
						fn = "Skip"
					}
					ty := use(skipF)
					fmt.Fprintf(&body, "\t%s%d %s `json:\"f%d\"`\n", fn, n, ty, n)
				}
				body.WriteString("}\n")
			}
			if s.Chance(8) {
				body.WriteString(pbt.Pick(s, "type SkipBad struct{ X Undefined }\n", "type SkipBad = \n", "func f( {}\n", "var v int = \"x\"\n"))
				if b := body.String(); strings.Contains(b, "type SkipBad = ") || strings.Contains(b, "func f(") {
					parses[p] = false
				}
			}
			for to := 0; to < p; to++ {
				path := fmt.Sprintf("\"%s/@/p%d\"\n", ws.Mod, to)
				switch {
				case used[to]:
					imp.WriteString("import " + path)
				case s.Chance(10):
					imp.WriteString("import _ " + path)
				}
			}
			files[fmt.Sprintf("%s/f%d.go", name, f)] = fmt.Sprintf("package %s\n\n%s\n%s", name, imp.String(), body.String())
		}
	}
	c.Shared = s.Bool()
	nc := s.PickW(0, 4, 4, 2)
	for g := 0; g < nc; g++ {
		roots := []int{}
		for m := s.Range(1, 4); m > 0; m-- {
			r := s.Intn(np)
			if s.Chance(50) {
				r = np - 1 - s.Intn(2)
			}
			roots = append(roots, r)
		}
		c.Checkers = append(c.Checkers, roots)
	}
	// what has to be checked
	sure, maybe := map[int]bool{}, false
	var visit func(p int)
	visit = func(p int) {
		if sure[p] {
			return
		}
		sure[p] = true
		maybe = maybe || !parses[p]
		for _, r := range refs[p] {
			if !r.skip || c.Filter == "" {
				visit(r.to)
			}
		}
	}
	for _, rs := range c.Checkers {
		for _, r := range rs {
			visit(r)
		}
	}
	if !maybe {
		for p := 0; p < np; p++ {
			if sure[p] {
				c.Sure = append(c.Sure, p)
			} else {
				c.Not = append(c.Not, p)
			}
		}
	}
	sort.Ints(c.Sure)
	return &schedCase{c: race.Case{Chk: c}, files: files, deep: len(sure) > 3}
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "registry-history: some lookup has two candidate names that are registered; schedules: several goroutines write and read (registry), several ask for the same packages (collector), more than 3 packages are checked (checker); histories: at least 3 operations of 2 kinds have long answers",
		Families: []*pbt.Family{
			{Name: "registry-history", Gen: genRegHist, Check: pbt.Each(checkRegHist), Show: func(c any) string { return c.(*regHist).show() }, Batch: 200, Parallel: 2, Quick: 6000, Thorough: 200000},
			{Name: "histories", Gen: genHistory, Check: checkHistories, Show: func(c any) string { return c.(*histCase).show() }, Batch: 30, Parallel: 4, Quick: 300, Thorough: 6000},
			{Name: "registry-schedules", Gen: genRegSched, Check: checkSched, Show: func(c any) string { return c.(*schedCase).show() }, Batch: 100, Parallel: 3, Quick: 1500, Thorough: 40000},
			{Name: "collector-schedules", Gen: genColSched, Check: checkSched, Show: func(c any) string { return c.(*schedCase).show() }, Batch: 40, Parallel: 3, Quick: 400, Thorough: 8000},
			{Name: "checker-schedules", Gen: genChkSched, Check: checkSched, Show: func(c any) string { return c.(*schedCase).show() }, Batch: 40, Parallel: 3, Quick: 400, Thorough: 8000},
		},
	})
}
