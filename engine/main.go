package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// harness is one entry point found in the harness sources.
type harness struct {
	Name, Pkg, Doc string
	thoroughOnly   bool
	weight         int
}

var hName = regexp.MustCompile(`^(P\d\d)_[A-Za-z0-9_]+$`)

func discover(hdir, prop string) ([]harness, error) {
	var out []harness
	dirs, err := os.ReadDir(hdir)
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(hdir, d.Name(), "*.go"))
		for _, f := range files {
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, dc := range af.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				m := hName.FindStringSubmatch(fd.Name.Name)
				if m == nil || prop != "" && m[1] != prop {
					continue
				}
				h := harness{Name: fd.Name.Name, Pkg: d.Name(), Doc: strings.Join(strings.Fields(fd.Doc.Text()), " "), weight: 1}
				if strings.HasSuffix(h.Name, "_T") {
					h.thoroughOnly = true
				}
				out = append(out, h)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, nil
}

// coversOf lists the zv.Cover names occurring in a harness (the vacuity obligations).
func coversOf(hdir string, h harness) []string {
	files, _ := filepath.Glob(filepath.Join(hdir, h.Pkg, "*.go"))
	seen := map[string]bool{}
	for _, f := range files {
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, dc := range af.Decls {
			fd, ok := dc.(*ast.FuncDecl)
			if !ok || fd.Name.Name != h.Name {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok || len(c.Args) != 1 {
					return true
				}
				s, ok := c.Fun.(*ast.SelectorExpr)
				if !ok || s.Sel.Name != "Cover" {
					return true
				}
				if l, ok := c.Args[0].(*ast.BasicLit); ok {
					seen[strings.Trim(l.Value, "\"`")] = true
				}
				return true
			})
		}
	}
	return sortedKeys(seen)
}

type native struct {
	bin  string
	err  error
	log  string
	once sync.Once
	done chan struct{}
	dir  string
}

// buildNative compiles the harness packages with the real code under test.
func buildNative(repo, hdir, scratch string, hs []harness) *native {
	n := &native{bin: filepath.Join(scratch, "native"), done: make(chan struct{}), dir: scratch}
	go func() {
		defer close(n.done)
		var b strings.Builder
		pk := map[string]bool{}
		for _, h := range hs {
			pk[h.Pkg] = true
		}
		b.WriteString("package main\nimport (\n\"os\"\n\"" + zvBase + "/zv\"\n")
		for _, p := range sortedKeys(pk) {
			fmt.Fprintf(&b, "%q\n", zvBase+"/"+p)
		}
		b.WriteString(")\nfunc main() { zv.Serve(os.Args[1], map[string]func(){\n")
		for _, h := range hs {
			fmt.Fprintf(&b, "%q: %s.%s,\n", h.Name, h.Pkg, h.Name)
		}
		b.WriteString("}) }\n")
		mf := filepath.Join(scratch, "main.go")
		if n.err = os.WriteFile(mf, []byte(b.String()), 0644); n.err != nil {
			return
		}
		ov, err := harnessOverlay(repo, hdir, map[string]string{filepath.Join(repo, "zzverif", "native", "main.go"): mf})
		if err != nil {
			n.err = err
			return
		}
		oj, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(scratch, "overlay.json")
		if n.err = os.WriteFile(of, oj, 0644); n.err != nil {
			return
		}
		cmd := exec.Command("go", "build", "-overlay", of, "-o", n.bin, "./zzverif/native")
		cmd.Dir = repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

type nresult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Known  []string `json:"known"`
	Covers []string `json:"covers"`
}

var nativeSeq struct {
	sync.Mutex
	n int
}

// replay runs recorded inputs natively; missing results at the end mean a crash or a timeout.
func (n *native) replay(reqs []map[string]any, timeout time.Duration) ([]nresult, string, error) {
	<-n.done
	if n.err != nil {
		return nil, "", n.err
	}
	nativeSeq.Lock()
	nativeSeq.n++
	id := nativeSeq.n
	nativeSeq.Unlock()
	f := filepath.Join(n.dir, fmt.Sprintf("req%d", id))
	var b bytes.Buffer
	for _, r := range reqs {
		j, _ := json.Marshal(r)
		b.Write(append(j, '\n'))
	}
	if err := os.WriteFile(f, b.Bytes(), 0644); err != nil {
		return nil, "", err
	}
	defer os.Remove(f)
	td := filepath.Join(n.dir, fmt.Sprintf("tmp%d", id))
	if err := os.MkdirAll(td, 0755); err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(td)
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 8000000; exec \"$0\" \"$1\"", n.bin, f)
	cmd.Dir = td
	cmd.Env = append(os.Environ(), "TMPDIR="+td, "GOMEMLIMIT=3GiB", "HOME="+td)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	timed := false
	t := time.AfterFunc(timeout, func() { timed = true; syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	t.Stop()
	var rs []nresult
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r nresult
		if json.Unmarshal(sc.Bytes(), &r) == nil && r.Status != "" {
			rs = append(rs, r)
		}
	}
	ending := ""
	if timed {
		ending = "timeout"
	} else if werr != nil {
		e := errb.String()
		if len(e) > 600 {
			e = e[:600]
		}
		ending = "crash: " + werr.Error() + " " + e
	}
	return rs, ending, nil
}

func req(h string, in []string, tier int) map[string]any {
	raw := make([]json.RawMessage, len(in))
	for i, s := range in {
		raw[i] = json.RawMessage(s)
	}
	return map[string]any{"h": h, "in": raw, "tier": tier}
}

type sample struct {
	h      string
	in     []string
	covers []string
	known  []string
}

func main() {
	prop := flag.String("prop", "", "property")
	tierS := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verification directory")
	repo := flag.String("repo", "/repo", "repository")
	only := flag.String("only", "", "regexp of harness names (development)")
	budget := flag.Int("budget", 0, "seconds for the exploration")
	verbose := flag.Bool("v", false, "verbose")
	nw := flag.Int("workers", runtime.NumCPU(), "workers")
	keep := flag.Bool("all", false, "keep going after a violation (development)")
	solver := flag.String("solver", "z3", "SMT solver binary")
	replayF := flag.String("replay", "", "replay a counterexample file natively")
	flag.Parse()
	code := run(*prop, *tierS, *verif, *repo, *only, *budget, *verbose, *nw, *keep, *solver, *replayF)
	os.Exit(code)
}

func run(prop, tierS, verif, repo, only string, budget int, verbose bool, nw int, keepGoing bool, solver, replayF string) int {
	start := time.Now()
	hdir := filepath.Join(verif, "harness")
	tier := 0
	if tierS == "thorough" {
		tier = 1
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if budget == 0 {
		budget = 300
		if tier == 1 {
			budget = 780
		}
	}
	hs, err := discover(hdir, prop)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var sel []harness
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	for _, h := range hs {
		if h.thoroughOnly && tier == 0 || re != nil && !re.MatchString(h.Name) {
			continue
		}
		sel = append(sel, h)
	}
	if len(sel) == 0 {
		fmt.Println("ERROR no harness for", prop)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	nat := buildNative(repo, hdir, scratch, sel)
	if replayF != "" {
		return replayFile(nat, replayF)
	}
	pats := map[string]bool{}
	for _, h := range sel {
		pats[h.Pkg] = true
	}
	pats["jsonm"], pats["xmlm"] = true, true
	sh, err := load(repo, hdir, sortedKeys(pats))
	if err != nil {
		// A tree that no longer compiles, or no longer has the public API, is not a verdict.
		fmt.Println("ERROR", err)
		return 2
	}
	sh.tier = tier
	sh.solver = solver
	sh.stepMax = 4_000_000
	if tier == 1 {
		sh.stepMax = 20_000_000
	}
	loadT := time.Since(start)
	<-nat.done
	if nat.err != nil {
		fmt.Println("ERROR", nat.err)
		return 2
	}
	buildT := time.Since(start)
	known := readKnown(filepath.Join(verif, "known_findings.txt"), prop)
	workers := map[string][]*W{}
	deadline := start.Add(buildT).Add(time.Duration(budget) * time.Second)

	var confirmed []*Violation
	var unconfirmed []string
	var incomplete []string
	knownSeen := map[string]bool{}
	var mu sync.Mutex
	rng := rand.New(rand.NewSource(seed))
	var samples []sample
	var hreports []map[string]any
	var totPaths, totInf, totAsserts, totAQ, totBr int64
	var fns = map[string]bool{}
	tmo := 8 * time.Second
	if tier == 1 {
		tmo = 20 * time.Second
	}

	maxSamples := 160
	if tier == 1 {
		maxSamples = 1500
	}
	vac := []string{}
	for hi, h := range sel {
		ws := workers[h.Pkg]
		if ws == nil {
			ws = make([]*W, nw)
			var wg sync.WaitGroup
			var werr error
			for i := range ws {
				wg.Add(1)
				go func() {
					defer wg.Done()
					w, err := newWorker(sh, i, h.Pkg, int(tmo/time.Millisecond))
					if err != nil {
						mu.Lock()
						werr = err
						mu.Unlock()
					}
					ws[i] = w
				}()
			}
			wg.Wait()
			if werr != nil {
				fmt.Println("ERROR", werr)
				return 2
			}
			if verbose {
				for _, n := range ws[0].initNotes {
					if len(n) > 200 {
						n = n[:200]
					}
					fmt.Println("  init:", n)
				}
			}
			workers[h.Pkg] = ws
		}
		fn := sh.funcByName(zvBase+"/"+h.Pkg, h.Name)
		ex := newExplorer(sh, h.Name, fn)
		hstart := time.Now()
		left := time.Until(deadline)
		share := left / time.Duration(len(sel)-hi)
		if s2 := share * 2; s2 < left {
			share = s2
		} else if len(sel)-hi > 1 {
			share = left * 2 / 3
		}
		ex.deadline = time.Now().Add(share)
		ex.onViolation = func(v *Violation) bool {
			v.Prop = prop
			to := 10 * time.Second
			rs, ending, err := nat.replay([]map[string]any{req(h.Name, v.Inputs, tier)}, to)
			for try := 0; try < 12 && err == nil && len(rs) == 1 && rs[0].Status == "ok" && strings.Contains(strings.Join(v.Labels, " "), "order="); try++ {
				// map iteration order is not reproducible natively
				rs, ending, err = nat.replay([]map[string]any{req(h.Name, v.Inputs, tier)}, to)
			}
			if v.Sched {
				// nor is the order in which goroutines run
				var many []map[string]any
				for range 100 {
					many = append(many, req(h.Name, v.Inputs, tier))
				}
				for end := time.Now().Add(15 * time.Second); err == nil && len(rs) == 1 && rs[0].Status == "ok" && time.Now().Before(end); {
					var all []nresult
					all, ending, err = nat.replay(many, 60*time.Second)
					for _, r := range all {
						if r.Status != "ok" {
							rs = []nresult{r}
							break
						}
					}
					if ending != "" && rs[0].Status == "ok" {
						rs = nil
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			ok, how := false, ""
			switch {
			case err != nil:
				how = "native replay failed: " + err.Error()
			case len(rs) == 0 && ending != "":
				ok, how = true, ending
			case len(rs) == 1 && (rs[0].Status == "fail" || rs[0].Status == "panic"):
				ok, how = true, rs[0].Status+": "+rs[0].Msg
			case len(rs) == 1:
				how = "native run ended with " + rs[0].Status + " " + rs[0].Msg
			}
			v.Native = how
			if ok {
				confirmed = append(confirmed, v)
				return !keepGoing
			}
			if len(unconfirmed) < 40 {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: %s [%s] native: %s", h.Name, v.Kind, v.Msg, strings.Join(v.Labels, " "), how))
			}
			return false
		}
		q0, t0 := stats(ws)
		ex.keepSamples = maxSamples/len(sel) + 4
		ex.rng = rand.New(rand.NewSource(seed*1000 + int64(hi)))
		ex.Run(ws)
		q1, t1 := stats(ws)
		for id, k := range ex.known {
			rs, _, err := nat.replay([]map[string]any{req(h.Name, k.Inputs, tier)}, 10*time.Second)
			hit := err == nil && len(rs) == 1 && contains(rs[0].Known, id)
			if !hit {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: recorded finding %s not reproduced natively on [%s]", h.Name, id, strings.Join(k.Labels, " ")))
				continue
			}
			if _, listed := known[id]; listed {
				knownSeen[id] = true
			} else {
				confirmed = append(confirmed, &Violation{Prop: prop, Harness: h.Name, Kind: "finding", Msg: "finding " + id + " is not in known_findings.txt", Inputs: k.Inputs, Labels: k.Labels})
			}
		}
		for _, c := range coversOf(hdir, h) {
			if ex.covers[c] == 0 && !ex.timedOut && len(confirmed) == 0 {
				vac = append(vac, h.Name+": "+c)
			}
		}
		samples = append(samples, ex.wit...)
		complete := !ex.timedOut && len(ex.unsup) == 0 && len(ex.inconc) == 0 && ex.limitHits.Load() == 0
		var why []string
		if ex.timedOut {
			why = append(why, fmt.Sprintf("time budget reached with %d subtrees open", len(ex.stack)))
		}
		for _, m := range []map[string]int{ex.unsup, ex.inconc} {
			for _, k := range sortedKeys(m) {
				s := k
				if len(s) > 300 {
					s = s[:300]
				}
				why = append(why, fmt.Sprintf("%d paths: %s", m[k], s))
			}
		}
		if n := ex.limitHits.Load(); n > 0 {
			why = append(why, fmt.Sprintf("%d paths hit the step limit", n))
		}
		if !complete {
			incomplete = append(incomplete, h.Name+": "+strings.Join(why, "; "))
		}
		totPaths += ex.paths.Load()
		totInf += ex.infeasible.Load()
		totAsserts += ex.asserts.Load()
		totAQ += ex.assertQ.Load()
		totBr += ex.branches.Load()
		hreports = append(hreports, map[string]any{"harness": h.Name, "bounds": h.Doc, "paths": ex.paths.Load(), "infeasible_paths": ex.infeasible.Load(), "assertions_on_paths": ex.asserts.Load(),
			"assertion_queries": ex.assertQ.Load(), "solver_queries": q1 - q0, "solver_s": round(t1 - t0), "wall_s": round(time.Since(hstart).Seconds()), "max_decisions": ex.maxDecs,
			"exhausted_within_bounds": complete, "incomplete_because": why, "reached": ex.covers, "notes": sortedKeys(ex.notes)})
		if verbose {
			fmt.Printf("%-36s paths=%d inf=%d asserts=%d aq=%d q=%d solver=%.1fs wall=%.1fs complete=%v covers=%v\n", h.Name, ex.paths.Load(), ex.infeasible.Load(), ex.asserts.Load(), ex.assertQ.Load(), q1-q0, t1-t0, time.Since(hstart).Seconds(), complete, ex.covers)
			for _, x := range why {
				if len(x) > 1200 {
					x = x[:1200]
				}
				fmt.Println("    !", x)
			}
		}
		if len(confirmed) > 0 && !keepGoing {
			break
		}
	}
	solverErrs := map[string]bool{}
	for _, ws := range workers {
		for _, w := range ws {
			for _, e := range w.sol.errors {
				if len(solverErrs) < 10 {
					solverErrs[e] = true
				}
			}
			for f := range w.fnSeen {
				n := f.String()
				if strings.Contains(n, modPath) && !strings.Contains(n, "/zzverif") {
					fns[n] = true
				}
			}
			w.sol.stop()
		}
	}
	// Fidelity: run the witnesses of explored paths natively and compare.
	validated, mismatched := 0, []string{}
	if len(confirmed) == 0 {
		rng.Shuffle(len(samples), func(i, j int) { samples[i], samples[j] = samples[j], samples[i] })
		if len(samples) > maxSamples {
			samples = samples[:maxSamples]
		}
		for len(samples) > 0 {
			var rq []map[string]any
			for _, s := range samples {
				rq = append(rq, req(s.h, s.in, tier))
			}
			rs, ending, err := nat.replay(rq, 120*time.Second)
			if err != nil {
				fmt.Println("ERROR", err)
				return 2
			}
			for i, r := range rs {
				s := samples[i]
				switch {
				case r.Status == "fail" || r.Status == "panic":
					confirmed = append(confirmed, &Violation{Prop: prop, Harness: s.h, Kind: r.Status, Msg: r.Msg, Inputs: s.in, Native: "found by native replay of a path witness"})
				case r.Status != "ok" || strings.Join(r.Covers, ",") != strings.Join(s.covers, ","):
					mismatched = append(mismatched, fmt.Sprintf("%s %v: native %s %s covers %v, symbolic covers %v", s.h, s.in, r.Status, r.Msg, r.Covers, s.covers))
				default:
					validated++
				}
				for _, id := range r.Known {
					if _, ok := known[id]; ok {
						knownSeen[id] = true
					}
				}
			}
			if ending == "" {
				break
			}
			// the sample after the last result crashed or hung
			i := len(rs)
			if i < len(samples) {
				rs2, end2, err2 := nat.replay(rq[i:i+1], 30*time.Second)
				if err2 == nil && len(rs2) == 0 && end2 != "" {
					s := samples[i]
					confirmed = append(confirmed, &Violation{Prop: prop, Harness: s.h, Kind: "hang or crash", Msg: end2, Inputs: s.in, Native: "native replay of a path witness"})
				}
				samples = samples[i+1:]
			} else {
				break
			}
		}
	}
	nq, ts := int64(0), 0.0
	for _, ws := range workers {
		q, t := stats(ws)
		nq += q
		ts += t
	}
	explanation := "Bounded symbolic execution of the real code: go/ssa of the current tree is interpreted with symbolic inputs; every branch and every assertion over them is decided by an SMT solver (" + solver + "); a sat assertion is replayed against the native build before it is reported."
	var smp []string
	for i, s := range samples {
		if i < 8 {
			x := s.h + " " + strings.Join(s.in, ",")
			if len(x) > 200 {
				x = x[:200]
			}
			smp = append(smp, x)
		}
	}
	if smp == nil {
		for _, v := range confirmed {
			smp = append(smp, v.Harness+" "+strings.Join(v.Inputs, ","))
		}
	}
	if len(incomplete) == 0 {
		incomplete = []string{}
	}
	cov := map[string]any{
		"states": totPaths, "transitions": totBr, "traces_validated_against_impl": validated, "samples": smp, "exhaustive": len(incomplete) == 0,
		"explanation": explanation, "symbolic_paths_completed": totPaths, "decisions_taken": totBr, "infeasible_prefixes": totInf, "assertions_decided": totAsserts, "assertion_queries": totAQ, "solver_queries": nq, "solver_s": round(ts),
		"harnesses": hreports, "functions_encoded": sortedKeys(fns), "not_exhausted": incomplete, "unreached_cover_points": vac,
		"unconfirmed_counterexamples": unconfirmed, "fidelity_mismatches": mismatched, "known_findings_seen": sortedKeys(knownSeen), "solver_errors": sortedKeys(solverErrs), "load_s": round(loadT.Seconds()), "solver": solver,
	}
	ev := map[string]any{"property": prop, "tier": tierS, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.Since(start).Seconds()), "violations": len(confirmed),
		"assumptions": []string{
			"bounds are those stated per harness; nothing outside them is claimed",
			"the engine's models of strings.Builder, strings search/trim helpers, regexp matching, unicode tables, strconv, fmt, os and encoding/json stand for the standard library; sampled path witnesses are replayed natively to check them",
			"goroutines run as coroutines and are switched at go statements, lock, channel and file operations and stores to shared variables, with at most 2 switches that are not forced per run and no memory-model effects below that; map iteration explored in the orders given by zv.MapOrder where a harness uses it, insertion order elsewhere"}}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), j, 0644); err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
	}
	for _, e := range sortedKeys(solverErrs) {
		fmt.Println("NOTE solver error:", e)
	}
	for _, m := range mismatched {
		fmt.Println("NOTE fidelity mismatch:", m)
	}
	for _, u := range unconfirmed {
		fmt.Println("NOTE unconfirmed:", u)
	}
	for _, v := range vac {
		fmt.Println("NOTE cover point not reached:", v)
	}
	for _, v := range incomplete {
		if len(v) > 600 {
			v = v[:600]
		}
		fmt.Println("NOTE not exhausted:", v)
	}
	for _, id := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, known[id])
	}
	if profOn {
		profDump()
	}
	fmt.Printf("%s %s: %d paths, %d assertions decided, %d solver queries (%.1fs), %d native traces validated, wall %.1fs\n", prop, tierS, totPaths, totAsserts, nq, ts, validated, time.Since(start).Seconds())
	if len(confirmed) > 0 {
		for i, v := range confirmed {
			p := filepath.Join(verif, "evidence", fmt.Sprintf("%s-violation-%d.json", prop, i))
			o, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.Harness, "kind": v.Kind, "message": v.Msg, "inputs": rawIn(v.Inputs), "labels": v.Labels, "tier": tier, "native": v.Native,
				"replay": "engine -prop " + prop + " -replay " + p}, "", " ")
			os.WriteFile(p, o, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("  %s: %s: %s\n  inputs: %s\n  native: %s\n", v.Harness, v.Kind, v.Msg, strings.Join(v.Labels, " "), v.Native)
			if i >= 20 {
				break
			}
		}
		return 1
	}
	return 0
}

func rawIn(in []string) []json.RawMessage {
	out := make([]json.RawMessage, len(in))
	for i, s := range in {
		out[i] = json.RawMessage(s)
	}
	return out
}

func replayFile(nat *native, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var v struct {
		Harness string            `json:"harness"`
		Inputs  []json.RawMessage `json:"inputs"`
		Tier    int               `json:"tier"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	rs, ending, err := nat.replay([]map[string]any{{"h": v.Harness, "in": v.Inputs, "tier": v.Tier}}, 30*time.Second)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	fmt.Println(rs, ending)
	if len(rs) == 1 && rs[0].Status == "ok" {
		return 0
	}
	return 1
}

func readKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) (\S+): (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out[m[2]] = m[3]
		}
	}
	return out
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func stats(ws []*W) (int64, float64) {
	var q int64
	var t float64
	for _, w := range ws {
		q += w.sol.queries
		t += w.sol.dur.Seconds()
	}
	return q, t
}
