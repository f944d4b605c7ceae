package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// harnessCfg is one harness of a property (see /verif/checks.json).
type harnessCfg struct {
	File     string `json:"file"`
	Dir      string `json:"dir"` // where the file is laid in the repository
	Func     string `json:"func"`
	Quick    int    `json:"quick"`
	Thorough int    `json:"thorough"`
	Samples  int    `json:"samples"`
	Steps    int64  `json:"steps"` // million instructions on a path

	Imports map[string]string `json:"imports"` // stand-ins for imports of the package

	InitOrder int `json:"initorder"` // how maps are iterated in the initializers (see verifrt.MapOrder)
}

type propCfg struct {
	Harness     []harnessCfg      `json:"harness"`
	Stubs       []string          `json:"stubs"`
	Bounds      map[string]string `json:"bounds"`
	Outside     string            `json:"outside"`
	Assumptions []string          `json:"assumptions"`
	QuickS      int               `json:"quick_s"`
	ThoroughS   int               `json:"thorough_s"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Input    string `json:"input"`
	What     string `json:"what"`
}

type session struct {
	repo, verif, work string
	overlay           map[string]string
	modfile           string
	cfg               *propCfg
	prop, tier        string
	bin               map[string]string // package dir -> replay binary
	binErr            error
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func checkMain(prop, tier, repo, verif string, only string, verbose bool, limit int) int {
	t0 := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	data, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		die("%v", err)
	}
	var all map[string]*propCfg
	if err := json.Unmarshal(data, &all); err != nil {
		die("checks.json: %v", err)
	}
	cfg := all[prop]
	if cfg == nil {
		die("no check for %s", prop)
	}
	work, err := os.MkdirTemp("", "gosx-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(work)
	s := &session{repo: repo, verif: verif, work: work, cfg: cfg, prop: prop, tier: tier, overlay: map[string]string{}, bin: map[string]string{}}
	if err := s.prepare(); err != nil {
		die("%v", err)
	}
	if replayFile != "" {
		return s.replayOne(replayFile)
	}
	pkgs := map[string]bool{}
	var list []string
	for _, h := range cfg.Harness {
		if !pkgs[h.Dir] {
			pkgs[h.Dir] = true
			list = append(list, "./"+h.Dir)
		}
	}
	var bwg sync.WaitGroup
	bwg.Add(1)
	go func() { defer bwg.Done(); s.binErr = s.buildReplay() }()

	p, err := loadProgram(repo, filepath.Join(work, "overlay.json"), s.modfile, append(list, "./internal/verifrt/models"))
	if err != nil {
		bwg.Wait()
		die("loading the code: %v", err)
	}
	p.initShared()
	if err := matchSelfTest(p); err != nil {
		bwg.Wait()
		die("%v", err)
	}
	loadT := time.Since(t0)

	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := cfg.QuickS
	if budget == 0 {
		budget = 240
	}
	if tier == "thorough" {
		if budget = cfg.ThoroughS; budget == 0 {
			budget = 3600
		}
	}
	if limit > 0 {
		budget = limit
	}
	deadline := time.Now().Add(time.Duration(budget) * time.Second)

	type task struct {
		h     *harnessCfg
		shard int
	}
	var tasks []task
	for i := range cfg.Harness {
		h := &cfg.Harness[i]
		if only != "" && !strings.Contains(h.Func, only) {
			continue
		}
		n := h.Quick
		if tier == "thorough" {
			n = h.Thorough
		}
		for k := 0; k < n; k++ {
			if onlyShard >= 0 && k != onlyShard {
				continue
			}
			tasks = append(tasks, task{h, k})
		}
	}
	results := make([]*ShardResult, len(tasks))
	var next int
	var mu sync.Mutex
	var wg sync.WaitGroup
	nbad := map[string]int{}
	for w := 0; w < min(runtime.NumCPU(), len(tasks)); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(tasks) {
					return
				}
				t := tasks[i]
				mu.Lock()
				stop := nbad[t.h.Func] >= 12
				mu.Unlock()
				if stop {
					results[i] = &ShardResult{Harness: t.h.Func, Shard: t.shard, Incomplete: "enough counterexamples"}
					continue
				}
				e, err := newEngine(p, solverName())
				if err != nil {
					results[i] = &ShardResult{Harness: t.h.Func, Shard: t.shard, Internal: []string{err.Error()}}
					continue
				}
				if t.h.Steps > 0 {
					e.stepLimit = t.h.Steps * 1e6
				}
				ns := t.h.Samples
				if ns == 0 {
					ns = 8
				}
				results[i] = func() (r *ShardResult) {
					defer func() {
						if x := recover(); x != nil {
							r = &ShardResult{Harness: t.h.Func, Shard: t.shard, Internal: []string{fmt.Sprintf("%v\n%s", x, debug.Stack())}}
						}
					}()
					return e.explore(&runCfg{harness: t.h.Func, pkg: modPath + "/" + t.h.Dir, shard: t.shard, tier: tier, deadline: deadline, samples: ns, maxBad: 4, verbose: verbose, seed: seed + int64(i), initOrder: t.h.InitOrder})
				}()
				e.sol.close()
				mu.Lock()
				nbad[t.h.Func] += len(results[i].Bad)
				mu.Unlock()
				if verbose {
					fmt.Fprintf(os.Stderr, "%s/%d: %d paths %v %v\n", t.h.Func, t.shard, results[i].Paths, results[i].Wall, results[i].Incomplete)
				}
			}
		}()
	}
	wg.Wait()
	exploreT := time.Since(t0) - loadT
	bwg.Wait()
	if s.binErr != nil {
		die("building the replay program: %v", s.binErr)
	}
	return s.verdict(results, t0, loadT, exploreT, seed)
}

func solverName() string {
	if x := os.Getenv("GOSX_SOLVER"); x != "" {
		return x
	}
	return "z3"
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o644)
}

// prepare writes the overlay and the module file.
func (s *session) prepare() error {
	rt := filepath.Join(s.verif, "rt")
	vd := filepath.Join(s.repo, "internal/verifrt")
	s.overlay[filepath.Join(vd, "verifrt.go")] = filepath.Join(rt, "verifrt.go")
	s.overlay[filepath.Join(vd, "models/models.go")] = filepath.Join(rt, "models/models.go")
	files, _ := filepath.Glob(filepath.Join(s.verif, "harness/lib/*.go"))
	for _, f := range files {
		s.overlay[filepath.Join(vd, "lib", filepath.Base(f))] = f
	}
	for _, d := range []string{"vos", "vjs", "vcmd"} {
		files, _ := filepath.Glob(filepath.Join(rt, d, "*.go"))
		for _, f := range files {
			s.overlay[filepath.Join(vd, d, filepath.Base(f))] = f
		}
	}
	type pk struct{ dir, fn string }
	byMain := map[string][]pk{}
	seen := map[string]bool{}
	for _, h := range s.cfg.Harness {
		f := filepath.Join(s.verif, "harness", h.File)
		s.overlay[filepath.Join(s.repo, h.Dir, "zz_verif_"+strings.ToLower(h.File))] = f
		key := h.Dir + "." + h.Func
		if seen[key] {
			continue
		}
		seen[key] = true
		if len(h.Imports) > 0 && !seen[h.Dir] {
			seen[h.Dir] = true
			if err := s.reimport(h.Dir, h.Imports); err != nil {
				return err
			}
		}
		main := "internal/verifrt/replay"
		if strings.HasPrefix(h.Dir, "cmd/") {
			main = h.Dir
		}
		byMain[main] = append(byMain[main], pk{h.Dir, h.Func})
	}
	n := 0
	for main, hs := range byMain {
		var b bytes.Buffer
		b.WriteString("package main\n\nimport (\n\t\"" + modPath + "/internal/verifrt/replaylib\"\n")
		al := map[string]string{}
		for _, h := range hs {
			if h.dir != main && al[h.dir] == "" {
				al[h.dir] = fmt.Sprintf("p%d", len(al))
				ip := modPath
				if h.dir != "." {
					ip += "/" + h.dir
				}
				fmt.Fprintf(&b, "\t%s %q\n", al[h.dir], ip)
			}
		}
		b.WriteString(")\n\n")
		if main == "internal/verifrt/replay" {
			b.WriteString("func main() {\n")
		} else {
			b.WriteString("func init() {\n")
		}
		b.WriteString("\treplaylib.Main(map[string]func(int){\n")
		for _, h := range hs {
			if h.dir == main {
				fmt.Fprintf(&b, "\t\t%q: %s,\n", h.fn, h.fn)
			} else {
				fmt.Fprintf(&b, "\t\t%q: %s.%s,\n", h.fn, al[h.dir], h.fn)
			}
		}
		b.WriteString("\t})\n}\n")
		f := filepath.Join(s.work, fmt.Sprintf("replay%d.go", n))
		n++
		if err := os.WriteFile(f, b.Bytes(), 0o644); err != nil {
			return err
		}
		s.overlay[filepath.Join(s.repo, main, "zz_verif_replay.go")] = f
		s.bin[main] = filepath.Join(s.work, fmt.Sprintf("replay%d", n))
	}
	s.overlay[filepath.Join(vd, "replaylib/replaylib.go")] = filepath.Join(rt, "replaylib/replaylib.go")
	ov, _ := json.MarshalIndent(map[string]any{"Replace": s.overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(s.work, "overlay.json"), ov, 0o644); err != nil {
		return err
	}
	mod, err := os.ReadFile(filepath.Join(s.repo, "go.mod"))
	if err != nil {
		return err
	}
	for _, st := range s.cfg.Stubs {
		lines, err := os.ReadFile(filepath.Join(s.verif, "stubs", st, "replace.txt"))
		if err != nil {
			return err
		}
		for _, l := range strings.Split(strings.TrimSpace(string(lines)), "\n") {
			m, d, _ := strings.Cut(l, " ")
			mod = append(mod, fmt.Sprintf("\nreplace %s => %s\n", m, filepath.Join(s.verif, "stubs", st, d))...)
		}
	}
	s.modfile = filepath.Join(s.work, "go.mod")
	if err := os.WriteFile(s.modfile, mod, 0o644); err != nil {
		return err
	}
	return copyFile(filepath.Join(s.work, "go.sum"), filepath.Join(s.repo, "go.sum"))
}

// reimport makes the files of a package import stand-ins from
// internal/verifrt, and makes them build on any system.
func (s *session) reimport(dir string, imports map[string]string) error {
	files, _ := filepath.Glob(filepath.Join(s.repo, dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		out := append([]byte(nil), src...)
		for i := len(af.Imports) - 1; i >= 0; i-- {
			im := af.Imports[i]
			path, _ := strconv.Unquote(im.Path.Value)
			if to, ok := imports[path]; ok {
				a, b := int(im.Path.Pos())-1, int(im.Path.End())-1
				out = append(out[:a:a], append([]byte(strconv.Quote(modPath+"/internal/verifrt/"+to)), out[b:]...)...)
			}
		}
		for _, c := range []string{"//go:build js\n", "//go:build js && wasm\n", "// +build js\n"} {
			out = bytes.Replace(out, []byte(c), []byte("//\n"), 1)
		}
		o := filepath.Join(s.work, "imp-"+strings.ReplaceAll(dir, "/", "-")+"-"+filepath.Base(f))
		if err := os.WriteFile(o, out, 0o644); err != nil {
			return err
		}
		s.overlay[f] = o
	}
	return nil
}

func (s *session) buildReplay() error {
	for main, bin := range s.bin {
		if err := s.buildOne(main, bin, false); err != nil {
			return err
		}
	}
	return nil
}

func (s *session) buildOne(main, bin string, race bool) error {
	// the loader may be using the module file: work on a copy
	dir := filepath.Join(s.work, "b"+filepath.Base(bin))
	os.MkdirAll(dir, 0o755)
	copyFile(filepath.Join(dir, "go.mod"), s.modfile)
	copyFile(filepath.Join(dir, "go.sum"), filepath.Join(s.work, "go.sum"))
	args := []string{"build", "-overlay", filepath.Join(s.work, "overlay.json"), "-modfile", filepath.Join(dir, "go.mod"), "-o", bin}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, "./"+main)...)
	cmd.Dir = s.repo
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

// replayRace runs vectors in several goroutines under the race detector.
func (s *session) replayRace(main string, vs []*Vector) (map[int]*replayResult, error) {
	bin := s.bin[main] + "-race"
	if _, err := os.Stat(bin); err != nil {
		if err := s.buildOne(main, bin, true); err != nil {
			return nil, fmt.Errorf("building with the race detector: %v", err)
		}
	}
	for _, v := range vs {
		v.Timeout = 60
	}
	return s.replayBin(bin, []string{"VERIF_RACE=1", "GORACE=halt_on_error=1 exitcode=66"}, vs)
}

// replayResult is what the native program did with a vector.
type replayResult struct {
	ID     int      `json:"id"`
	Start  *int     `json:"start"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []obsOut `json:"obs"`
}

// replay runs vectors natively, surviving crashes and hangs.
func (s *session) replay(main string, vs []*Vector) (map[int]*replayResult, error) {
	return s.replayBin(s.bin[main], nil, vs)
}

func (s *session) replayBin(bin string, env []string, vs []*Vector) (map[int]*replayResult, error) {
	res := map[int]*replayResult{}
	todo := vs
	hangs := 0
	for round := 0; len(todo) > 0 && round < 60; round++ {
		if hangs >= 2 {
			// what hangs is known: the others need not take as long
			for _, v := range todo {
				v.Timeout = 3
			}
		}
		f := filepath.Join(s.work, "vectors.json")
		b, _ := json.Marshal(todo)
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		tmp := filepath.Join(s.work, "scratch")
		os.MkdirAll(tmp, 0o777)
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
		cmd := exec.CommandContext(ctx, bin)
		cmd.Dir = tmp
		cmd.Env = append(append(os.Environ(), "VERIF_REPLAY="+f, "TMPDIR="+tmp, "HOME="+tmp), env...)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		r, w, err := os.Pipe()
		if err != nil {
			cancel()
			return nil, err
		}
		cmd.ExtraFiles = []*os.File{w}
		if err := cmd.Start(); err != nil {
			cancel()
			return nil, err
		}
		w.Close()
		cur := -1
		sc := bufio.NewScanner(r)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			var x replayResult
			if json.Unmarshal(sc.Bytes(), &x) != nil {
				continue
			}
			if x.Start != nil {
				cur = *x.Start
				continue
			}
			res[x.ID] = &x
			if x.Status == "timeout" {
				hangs++
			}
			if x.ID == cur {
				cur = -1
			}
		}
		r.Close()
		werr := cmd.Wait()
		cancel()
		if cur >= 0 {
			m := firstLine(strings.TrimSpace(stderr.String()))
			if strings.HasPrefix(m, "=====") {
				m = raceReport(stderr.String())
			}
			res[cur] = &replayResult{ID: cur, Status: "crash", Msg: fmt.Sprintf("%v %s", werr, m)}
		}
		var rest []*Vector
		for _, v := range todo {
			if res[v.ID] == nil {
				rest = append(rest, v)
			}
		}
		if len(rest) == len(todo) {
			return res, fmt.Errorf("the replay program makes no progress: %v %s", werr, stderr.String())
		}
		todo = rest
	}
	return res, nil
}

// raceReport is the gist of a report of the race detector.
func raceReport(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "=====") || l == "" || strings.HasPrefix(l, "/") {
			continue
		}
		out = append(out, l)
		if len(out) == 8 {
			break
		}
	}
	return strings.Join(out, "; ")
}

func (s *session) mainOf(dir string) string {
	if _, ok := s.bin[dir]; ok {
		return dir
	}
	return "internal/verifrt/replay"
}

func (s *session) verdict(results []*ShardResult, t0 time.Time, loadT, exploreT time.Duration, seed int64) int {
	tot := &ShardResult{Ends: map[string]int{}, Reach: map[string]int{}, Unsupported: map[string]int{}, Funcs: map[string]bool{}, Stubs: map[string]int{}}
	var samples, bad []*Vector
	perH := map[string]map[string]any{}
	witness := map[string]bool{}
	incomplete := map[string]int{}
	for _, r := range results {
		tot.Paths += r.Paths
		tot.Steps += r.Steps
		tot.Choices += r.Choices
		tot.Asserts += r.Asserts
		tot.AssertConc += r.AssertConc
		tot.AssertQ += r.AssertQ
		tot.CovQ += r.CovQ
		tot.AuditQ += r.AuditQ
		tot.AuditLeft += r.AuditLeft
		tot.Queries += r.Queries
		tot.Sat += r.Sat
		tot.Unsat += r.Unsat
		tot.Unknown += r.Unknown
		tot.SolverTime += r.SolverTime
		tot.OpenLeft += r.OpenLeft
		tot.Vars = max(tot.Vars, r.Vars)
		for k, v := range r.Ends {
			tot.Ends[k] += v
		}
		for k, v := range r.Reach {
			tot.Reach[r.Harness+":"+k] += v
		}
		for k, v := range r.Unsupported {
			tot.Unsupported[k] += v
		}
		for k := range r.Funcs {
			tot.Funcs[k] = true
		}
		for k, v := range r.Stubs {
			tot.Stubs[k] += v
		}
		tot.Internal = append(tot.Internal, r.Internal...)
		if r.Incomplete != "" {
			incomplete[r.Incomplete]++
		}
		if r.Witness {
			witness[r.Harness] = true
		}
		samples = append(samples, r.Samples...)
		bad = append(bad, r.Bad...)
		h := perH[r.Harness]
		if h == nil {
			h = map[string]any{"shards": 0, "paths": 0, "assertions": 0}
			perH[r.Harness] = h
		}
		h["shards"] = h["shards"].(int) + 1
		h["paths"] = h["paths"].(int) + r.Paths
		h["assertions"] = h["assertions"].(int) + r.Asserts
	}
	byMain := map[string][]*Vector{}
	id := 0
	for _, l := range [][]*Vector{bad, samples} {
		for _, v := range l {
			v.ID = id
			id++
			v.Timeout = 20
			v.Repeat = 1
			if v.kind == "hang" {
				v.Timeout = 30
			}
			if v.order {
				v.Repeat = 300
				if v.kind == "sample" {
					v.Repeat = 3
				}
			}
			dir := strings.TrimPrefix(strings.TrimPrefix(v.pkg, modPath), "/")
			byMain[s.mainOf(dir)] = append(byMain[s.mainOf(dir)], v)
		}
	}
	res := map[int]*replayResult{}
	for main, vs := range byMain {
		var races, others []*Vector
		for _, v := range vs {
			if v.kind == "race" {
				races = append(races, v)
			} else {
				others = append(others, v)
			}
		}
		if len(races) > 0 {
			r, err := s.replayRace(main, races)
			if err != nil {
				tot.Internal = append(tot.Internal, err.Error())
			}
			for k, v := range r {
				res[k] = v
			}
		}
		vs = others
		r, err := s.replay(main, vs)
		if err != nil {
			tot.Internal = append(tot.Internal, err.Error())
		}
		for k, v := range r {
			res[k] = v
		}
		// the initializers run once in a process
		again := map[string]bool{}
		for _, h := range s.cfg.Harness {
			again[h.Func] = h.InitOrder != 0
		}
		for round := 0; round < 30; round++ {
			var todo []*Vector
			for _, v := range vs {
				if r := res[v.ID]; again[v.Harness] && v.kind != "sample" && r != nil && r.Status == "ok" {
					todo = append(todo, v)
				}
			}
			if len(todo) == 0 {
				break
			}
			r, err := s.replay(main, todo)
			if err != nil {
				break
			}
			for k, v := range r {
				if v.Status != "ok" {
					res[k] = v
				}
			}
		}
	}
	repDir := filepath.Join(s.verif, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, s.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	known := s.known()
	var violations []map[string]any
	var findings, unconfirmed, divergences []string
	knownSeen := map[string]bool{}
	validated, nativeOK := 0, 0
	var sampleOut []any
	report := func(v *Vector, r *replayResult) {
		input := ""
		for _, o := range r.Obs {
			if o.Tag == "input" {
				input = o.Val
			}
		}
		for _, k := range known {
			if k.Harness == v.Harness && k.Input == input {
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					findings = append(findings, k.What)
				}
				return
			}
		}
		if len(violations) >= 20 {
			return
		}
		f := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", s.prop, len(violations)+1))
		rec := map[string]any{"property": s.prop, "harness": v.Harness, "shard": v.Shard, "tier": v.Tier, "values": v.Vals, "kind": v.kind, "found": v.msg, "native_status": r.Status, "native_message": r.Msg, "observed": r.Obs, "replay": fmt.Sprintf("%s/bin/check %s --replay %s", s.verif, s.prop, f)}
		b, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(f, b, 0o644)
		rec["file"] = f
		violations = append(violations, rec)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.prop, f)
		fmt.Printf("  %s shard %d: %s: %s\n", v.Harness, v.Shard, r.Status, r.Msg)
		for _, o := range r.Obs {
			fmt.Printf("    %s = %s\n", o.Tag, o.Val)
		}
	}
	isBad := func(st string) bool { return st == "assert" || st == "panic" || st == "timeout" || st == "crash" }
	for _, v := range bad {
		r := res[v.ID]
		if r == nil {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%d %v: not replayed: %s", v.Harness, v.Shard, v.Vals, v.msg))
			continue
		}
		if isBad(r.Status) {
			report(v, r)
		} else {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%d %v: %s %s; native: %s", v.Harness, v.Shard, v.Vals, v.kind, v.msg, r.Status))
		}
	}
	for _, v := range samples {
		r := res[v.ID]
		if r == nil {
			continue
		}
		if isBad(r.Status) {
			report(v, r)
			if v.kind == "sample" && !v.order {
				divergences = append(divergences, fmt.Sprintf("%s/%d %v: ends well symbolically but natively: %s %s", v.Harness, v.Shard, v.Vals, r.Status, r.Msg))
			}
			continue
		}
		if v.kind == "unsupported" {
			nativeOK++
			continue
		}
		ok := r.Status == "ok" && len(r.Obs) == len(v.obs)
		if ok {
			for i := range v.obs {
				if v.obs[i].Val != "?" && v.obs[i] != r.Obs[i] {
					ok = false
					divergences = append(divergences, fmt.Sprintf("%s/%d %v: %s: symbolic %s, native %s", v.Harness, v.Shard, v.Vals, v.obs[i].Tag, v.obs[i].Val, r.Obs[i].Val))
					break
				}
			}
		} else {
			divergences = append(divergences, fmt.Sprintf("%s/%d %v: native %s %s, %d observations instead of %d", v.Harness, v.Shard, v.Vals, r.Status, r.Msg, len(r.Obs), len(v.obs)))
		}
		if ok {
			validated++
			if len(sampleOut) < 12 {
				sampleOut = append(sampleOut, map[string]any{"harness": v.Harness, "shard": v.Shard, "values": v.Vals, "observed": r.Obs})
			}
		}
	}
	for _, k := range known {
		if knownSeen[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.prop, k.What)
		}
	}
	var noWitness []string
	for _, h := range s.cfg.Harness {
		if _, ran := perH[h.Func]; ran && !witness[h.Func] {
			noWitness = append(noWitness, h.Func)
		}
	}
	funcs := make([]string, 0, len(tot.Funcs))
	for f := range tot.Funcs {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	assume := append([]string{}, s.cfg.Assumptions...)
	assume = append(assume, "x/tools/go/ssa translates the source correctly; Go's unicode, regexp/syntax, x/text/norm tables and encoding/json are used as they are, not verified", "symbolic text formatted by fmt is not escaped by %q")
	cov := map[string]any{
		"states":                           tot.Paths,
		"transitions":                      tot.Choices,
		"traces_validated_against_impl":    validated,
		"samples":                          sampleOut,
		"functions_encoded":                funcs,
		"bounds":                           s.cfg.Bounds[s.tier],
		"outside_bounds":                   s.cfg.Outside,
		"path_ends":                        tot.Ends,
		"instructions_executed":            tot.Steps,
		"most_symbolic_inputs":             tot.Vars,
		"assertion_instances":              tot.Asserts,
		"assertions_decided_on_path":       tot.AssertConc,
		"assertion_queries":                tot.AssertQ,
		"case_split_coverage_queries":      tot.CovQ,
		"value_set_audit_queries":          tot.AuditQ,
		"value_sets_not_audited":           tot.AuditLeft,
		"solver":                           solverName(),
		"solver_calls":                     tot.Queries,
		"solver_sat":                       tot.Sat,
		"solver_unsat":                     tot.Unsat,
		"solver_unknown":                   tot.Unknown,
		"solver_s":                         tot.SolverTime.Seconds(),
		"load_s":                           loadT.Seconds(),
		"explore_s":                        exploreT.Seconds(),
		"harnesses":                        perH,
		"reached":                          tot.Reach,
		"reduced_bounds":                   tot.Unsupported,
		"reduced_bound_paths_run_natively": nativeOK,
		"incomplete_shards":                incomplete,
		"open_alternatives_left":           tot.OpenLeft,
		"stubbed_calls":                    tot.Stubs,
		"stub_modules":                     s.cfg.Stubs,
		"unconfirmed_counterexamples":      unconfirmed,
		"divergences":                      divergences,
		"internal_errors":                  tot.Internal,
		"known_findings_seen":              findings,
		"exhaustive":                       len(incomplete) == 0 && len(tot.Unsupported) == 0,
	}
	ev := map[string]any{"property": s.prop, "tier": s.tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": len(violations)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(s.verif, "evidence", s.prop+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s: %d paths, %d splits, %d assertions (%d by query), %d solver calls %.1fs, %d validated natively; load %.1fs explore %.1fs total %.1fs\n", s.prop, s.tier, tot.Paths, tot.Choices, tot.Asserts, tot.AssertQ, tot.Queries, tot.SolverTime.Seconds(), validated, loadT.Seconds(), exploreT.Seconds(), time.Since(t0).Seconds())
	show := func(what string, xs []string) {
		for i, x := range xs {
			if i == 5 {
				fmt.Printf("%s: ... %d more\n", what, len(xs)-i)
				break
			}
			fmt.Printf("%s: %s\n", what, x)
		}
	}
	for k, n := range tot.Unsupported {
		fmt.Printf("reduced bound: %d paths: %s\n", n, k)
	}
	for k, n := range incomplete {
		fmt.Printf("reduced bound: %d shards: %s\n", n, k)
	}
	show("divergence", divergences)
	show("unconfirmed", unconfirmed)
	show("internal", tot.Internal)
	if len(violations) > 0 {
		return 1
	}
	if len(noWitness) > 0 {
		show("no reachable end", noWitness)
		return 2
	}
	if len(tot.Internal) > 0 || len(divergences) > 0 || len(unconfirmed) > 0 {
		return 2
	}
	return 0
}

func (s *session) known() []knownFinding {
	var all []knownFinding
	b, err := os.ReadFile(filepath.Join(s.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &all); err != nil {
		die("known_findings.json: %v", err)
	}
	var out []knownFinding
	for _, k := range all {
		if k.Property == s.prop {
			out = append(out, k)
		}
	}
	return out
}

// replayOne runs a reported counterexample again.
func (s *session) replayOne(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rec struct {
		Harness, Tier, Kind string
		Shard               int
		Values              []int64
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		die("%v", err)
	}
	dir := ""
	for _, h := range s.cfg.Harness {
		if h.Func == rec.Harness {
			dir = h.Dir
		}
	}
	if err := s.buildReplay(); err != nil {
		die("%v", err)
	}
	v := &Vector{ID: 1, Harness: rec.Harness, Shard: rec.Shard, Tier: rec.Tier, Vals: rec.Values, Repeat: 300, Timeout: 60}
	replay := s.replay
	if rec.Kind == "race" {
		replay = s.replayRace
		v.Repeat = 1
	}
	res, err := replay(s.mainOf(dir), []*Vector{v})
	if err != nil || res[1] == nil {
		die("%v", err)
	}
	fmt.Printf("%s: %s\n", res[1].Status, res[1].Msg)
	for _, o := range res[1].Obs {
		fmt.Printf("  %s = %s\n", o.Tag, o.Val)
	}
	if res[1].Status == "ok" || res[1].Status == "assume" {
		return 0
	}
	return 1
}
