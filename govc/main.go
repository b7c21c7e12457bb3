package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|unit|list|replay ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	name := fs.String("name", "", "unit name or substring")
	dbg := fs.Int("d", 0, "debug level")
	limit := fs.Duration("limit", 0, "time limit per unit")
	fuzzMS := fs.Int("fuzz", -1, "milliseconds of concrete sampling per unit")
	file := fs.String("file", "", "replay file")
	mf := fs.Int("maxfails", 6, "")
	fs.BoolVar(&noInvs, "noinv", false, "unroll all loops")
	fs.BoolVar(&PROFILE, "profile", false, "count forks by position")
	fs.StringVar(&solverName, "solver", solverName, "")
	fs.Parse(os.Args[2:])
	DEBUG = *dbg
	maxFails = *mf
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	r := &Run{repo: *repo, verif: *verif, tier: *tier, prop: *prop, seed: seed, limit: *limit, fuzzMS: *fuzzMS, t0: time.Now()}
	switch cmd {
	case "check":
		os.Exit(r.check())
	case "unit":
		os.Exit(r.unitCmd(*name))
	case "list":
		g, err := loadEngine(*repo, *verif)
		die(err)
		for _, h := range sortedKeys(g.harness) {
			fmt.Println(h)
		}
		fmt.Println("dropped:", g.dropped)
	case "replay":
		os.Exit(r.replayCmd(*file))
	case "overlay":
		die(r.writeOverlay(*file))
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Run is one invocation of a check.
type Run struct {
	repo, verif, tier, prop string
	seed                    int64
	limit                   time.Duration
	fuzzMS                  int
	t0                      time.Time
	g                       *Engine
	tmp                     string
	binMu                   sync.Mutex
	bins                    map[string]*binRes
	dicts                   map[string]*dict
	dictMu                  sync.Mutex
}

type binRes struct {
	once sync.Once
	path string
	err  error
}

type dict struct {
	strs []string
	ints []int64
}

func (r *Run) setup() error {
	g, err := loadEngine(r.repo, r.verif)
	if err != nil {
		return err
	}
	r.g = g
	r.bins = map[string]*binRes{}
	r.dicts = map[string]*dict{}
	r.tmp, err = ioutil.TempDir("", "govc")
	return err
}

func (r *Run) cleanup() {
	if r.tmp != "" {
		os.RemoveAll(r.tmp)
	}
}

// ---- concrete execution ----

type vReq struct {
	Harness    string
	Candidates []map[string]string
	Seed       int64
	Millis     int
	Tries      int
	Dict       []string
	Ints       []int64
	Params     []string
}

type vRes struct {
	Harness string
	Runs    int
	Skips   int
	Valid   int
	Reach   map[string]int
	Found   bool
	Label   string
	Msg     string
	Draws   map[string]string
	Stack   string
}

func (r *Run) writeOverlay(dst string) error {
	drop := map[string]bool{}
	ov, err := buildOverlay(r.verif, r.repo, drop)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, []byte(r.overlayJSON(ov, filepath.Dir(dst))), 0644)
}

func (r *Run) overlayJSON(ov map[string][]byte, dir string) string {
	rep := map[string]string{}
	tt, _ := ioutil.ReadFile(filepath.Join(r.verif, "spec", "_prelude", "replay_test.go.tmpl"))
	done := map[string]bool{}
	i := 0
	add := func(dst string, src []byte) {
		i++
		f := filepath.Join(dir, fmt.Sprintf("ov%03d_%s", i, filepath.Base(dst)))
		ioutil.WriteFile(f, src, 0644)
		rep[dst] = f
	}
	for _, dst := range sortedKeys(ov) {
		add(dst, ov[dst])
		d := filepath.Dir(dst)
		if !done[d] {
			done[d] = true
			add(filepath.Join(d, "zz_verif_replay_test.go"), []byte(strings.Replace(string(tt), "package PKG", "package "+pkgNameOf(ov[dst]), 1)))
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	return string(b)
}

// binary builds the replay binary of a package from /repo's current tree.
func (r *Run) binary(pkg string) (string, error) {
	r.binMu.Lock()
	b := r.bins[pkg]
	if b == nil {
		b = &binRes{}
		r.bins[pkg] = b
	}
	r.binMu.Unlock()
	b.once.Do(func() {
		dir := filepath.Join(r.tmp, strings.Replace(pkg, "/", "_", -1))
		os.MkdirAll(dir, 0755)
		ovf := filepath.Join(dir, "overlay.json")
		ioutil.WriteFile(ovf, []byte(r.overlayJSON(r.g.overlay, dir)), 0644)
		b.path = filepath.Join(dir, "replay.test")
		c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", b.path, pkg)
		c.Dir = r.repo
		out, err := c.CombinedOutput()
		if err != nil {
			b.err = fmt.Errorf("%v: %s", err, out)
		}
	})
	return b.path, b.err
}

func (r *Run) dict(pkg string) *dict {
	r.dictMu.Lock()
	defer r.dictMu.Unlock()
	if d := r.dicts[pkg]; d != nil {
		return d
	}
	d := &dict{}
	seen := map[string]bool{}
	if p := r.g.ppkgs[pkg]; p != nil {
		for _, f := range p.Syntax {
			base := filepath.Base(r.g.fset.Position(f.Pos()).Filename)
			if strings.HasPrefix(base, "zz_verif_0") || strings.HasPrefix(base, "zz_verif_1") {
				continue
			}
			spec := strings.HasPrefix(base, "zz_verif_")
			ast.Inspect(f, func(n ast.Node) bool {
				l, ok := n.(*ast.BasicLit)
				if !ok {
					if _, ok := n.(*ast.ImportSpec); ok {
						return false
					}
					return true
				}
				switch l.Kind {
				case token.STRING, token.CHAR:
					s, err := strconv.Unquote(l.Value)
					if err == nil && s != "" && len(s) <= 12 && !seen[s] && !spec {
						seen[s] = true
						d.strs = append(d.strs, s)
					}
				case token.INT:
					v, err := strconv.ParseInt(l.Value, 0, 64)
					if err == nil && !seen["i"+l.Value] {
						seen["i"+l.Value] = true
						d.ints = append(d.ints, v)
					}
				}
				return true
			})
		}
	}
	r.dicts[pkg] = d
	return d
}

func (r *Run) concrete(fn *ssa.Function, cands []map[string]string, ms, tries int) (*vRes, error) {
	pkg := fn.Pkg.Pkg.Path()
	bin, err := r.binary(pkg)
	if err != nil {
		return nil, err
	}
	d := r.dict(pkg)
	rq := vReq{Harness: fn.Name(), Candidates: cands, Seed: r.seed, Millis: ms, Tries: tries, Dict: d.strs, Ints: d.ints}
	for _, pa := range fn.Params {
		rq.Params = append(rq.Params, pa.Name())
	}
	dir, err := ioutil.TempDir(r.tmp, "run")
	if err != nil {
		return nil, err
	}
	rb, _ := json.Marshal([]vReq{rq})
	reqF, resF := filepath.Join(dir, "req.json"), filepath.Join(dir, "res.json")
	ioutil.WriteFile(reqF, rb, 0644)
	c := exec.Command(bin, "-test.run", "TestZZVerifReplay", "-test.timeout", "600s")
	c.Dir = dir
	c.Env = append(os.Environ(), "VERIF_REQ="+reqF, "VERIF_RES="+resF, "GOMEMLIMIT=2GiB")
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	rerr := c.Run()
	b, err := ioutil.ReadFile(resF)
	if err != nil {
		o := ob.String()
		if len(o) > 4000 {
			o = o[:4000]
		}
		if strings.Contains(o, "fatal error:") || strings.Contains(o, "panic:") {
			return &vRes{Harness: fn.Name(), Runs: 1, Valid: 1, Found: true, Label: "no-panic", Msg: "the process died: " + o}, nil
		}
		return nil, fmt.Errorf("replay run: %v: %s", rerr, o)
	}
	var out []vRes
	if err := json.Unmarshal(b, &out); err != nil || len(out) != 1 {
		return nil, fmt.Errorf("replay result: %v", err)
	}
	return &out[0], nil
}

func candList(u *Unit) (out []map[string]string) {
	conv := func(m map[string]interface{}) {
		if m == nil {
			return
		}
		c := map[string]string{}
		for k, v := range m {
			c[k] = fmt.Sprint(v)
		}
		out = append(out, c)
	}
	for _, f := range u.fails {
		conv(f.Draws)
		for _, a := range f.Alts {
			conv(a)
		}
	}
	return
}

// ---- units ----

type unitRun struct {
	u     *Unit
	res   *vRes
	ferr  error
	extra *vRes // search for a failing input after a failure
}

func (r *Run) newUnitFor(name string) *Unit {
	lim := r.limit
	if lim == 0 {
		lim = 150 * time.Second
		if r.tier == "thorough" {
			lim = 600 * time.Second
		}
	}
	u := newUnit(r.g, name, r.g.harness[name], lim)
	if noInvs {
		u.noInv, u.unroll = true, 5
	}
	return u
}

var noInvs bool // debugging

func (r *Run) contractUnit(c *Contract) *Unit {
	u := r.newUnitFor("")
	u.name = "contract " + c.name
	u.fn = c.fn
	u.verifyOf = c.of
	u.scope = c.scope
	return u
}

func (r *Run) exec(ur *unitRun) {
	u := ur.u
	if b := r.g.bounds[u.fn]; b != "" {
		u.bound(b)
	}
	ms := r.fuzzMS
	if ms < 0 {
		ms = 1200
		if r.tier == "thorough" {
			ms = 20000
		}
	}
	var wg sync.WaitGroup
	if ms > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ur.res, ur.ferr = r.concrete(u.fn, nil, ms, 0)
		}()
	}
	u.run()
	if u.status == "proved" {
		u.vacuity()
	}
	wg.Wait()
	if u.status != "proved" && r.fuzzMS != 0 {
		if ur.res == nil || !ur.res.Found {
			cands := candList(u)
			if u.abstract || len(u.used) > 0 || u.invUsed() {
				// look for an input that fails without relying on invariants and contracts
				u2 := newUnit(u.eng, u.name, u.fn, 30*time.Second)
				u2.verifyOf, u2.scope, u2.noInv, u2.unroll = u.verifyOf, u.scope, true, 3
				u2.run()
				cands = append(candList(u2), cands...)
			}
			k := 12000
			if r.tier == "thorough" {
				k = 60000
			}
			x, err := r.concrete(u.fn, cands, k, 0)
			if err == nil {
				ur.extra = x
			} else if ur.ferr == nil {
				ur.ferr = err
			}
		}
		if ur.found() == nil && u.invBroken() {
			// The loops no longer satisfy the recorded invariants, which by
			// itself says nothing about the property. Decide the assertions
			// with the loops unrolled instead; such a unit counts as bounded.
			if w := r.withoutBroken(u); w != nil {
				ur.u = w
				return
			}
			for _, k := range []int{5, 3, 2} {
				u3 := newUnit(u.eng, u.name, u.fn, 60*time.Second)
				u3.verifyOf, u3.scope, u3.noInv, u3.unroll = u.verifyOf, u.scope, true, k
				if b := r.g.bounds[u.fn]; b != "" {
					u3.bound(b)
				}
				u3.run()
				if u3.status == "timeout" {
					continue
				}
				if u3.status == "proved" {
					u3.vacuity()
				}
				if u3.status == "proved" {
					u3.bound(fmt.Sprintf("the loop invariants on record do not fit the current code: loops unrolled at most %d times", k))
					for fn := range u.used {
						u3.used[fn] = true
					}
					ur.u = u3
				}
				break
			}
		}
	}
}

// withoutBroken decides the unit without the invariants that do not fit, as far as that goes.
func (r *Run) withoutBroken(u *Unit) *Unit {
	off := map[string]bool{}
	last := u
	for round := 0; round < 4; round++ {
		n := len(off)
		for _, inv := range u.eng.invs {
			for _, iv := range inv {
				if last.invFailed(iv.name) {
					off[iv.name] = true
				}
			}
		}
		if n == len(off) && (round > 0 || !u.invLost) {
			return nil
		}
		w := newUnit(u.eng, u.name, u.fn, 60*time.Second)
		w.verifyOf, w.scope, w.invOff, w.unroll = u.verifyOf, u.scope, off, 3
		if b := r.g.bounds[u.fn]; b != "" {
			w.bound(b)
		}
		w.run()
		if w.status == "proved" {
			w.vacuity()
		}
		if w.status == "proved" {
			w.bound("a loop invariant on record does not fit the current code: its loop is unrolled at most 3 times")
			for fn := range u.used {
				w.used[fn] = true
			}
			return w
		}
		last = w
	}
	return nil
}

func (u *Unit) invFailed(name string) bool {
	for n, o := range u.obl {
		if o.Failed > 0 && strings.HasPrefix(n, "invariant "+name+" ") {
			return true
		}
	}
	return false
}

// invBroken: some loop invariant could not be established.
func (u *Unit) invBroken() bool {
	for n, o := range u.obl {
		if strings.HasPrefix(n, "invariant ") && o.Failed > 0 {
			return true
		}
	}
	return u.invLost || u.invUsed() && u.status != "failed"
}

func (ur *unitRun) found() *vRes {
	if ur.res != nil && ur.res.Found {
		return ur.res
	}
	if ur.extra != nil && ur.extra.Found {
		return ur.extra
	}
	return nil
}

func (u *Unit) invUsed() bool {
	for n := range u.obl {
		if strings.HasPrefix(n, "invariant ") {
			return true
		}
	}
	return false
}

// vacuity demands that every assertion written in the harness was reached.
func (u *Unit) vacuity() {
	if len(u.obl) <= 1 && !u.noInv {
		u.status, u.reason = "vacuous", "no obligation was generated"
		return
	}
	for _, b := range u.fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || f.Name() != "vCheck" && f.Name() != "vEnsure" && f.Name() != "vReach" || f.Pkg != u.fn.Pkg {
				continue
			}
			k, ok := c.Common().Args[len(c.Common().Args)-1].(*ssa.Const)
			if !ok {
				continue
			}
			l, _ := strconv.Unquote(k.Value.ExactString())
			switch f.Name() {
			case "vEnsure":
				l = "post " + l
			case "vReach":
				l = "reach " + l
			}
			if u.obl[l] == nil {
				u.status, u.reason = "vacuous", "assertion "+l+" is never reached"
				return
			}
		}
	}
}

func (r *Run) runAll(names []string) []*unitRun {
	var out []*unitRun
	pending := []*unitRun{}
	for _, n := range names {
		pending = append(pending, &unitRun{u: r.newUnitFor(n)})
	}
	doneC := map[*Contract]bool{}
	doneH := map[string]bool{}
	for _, n := range names {
		doneH[n] = true
	}
	for len(pending) > 0 {
		sem := make(chan bool, runtime.NumCPU())
		var wg sync.WaitGroup
		for _, ur := range pending {
			ur := ur
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				r.exec(ur)
				<-sem
			}()
		}
		wg.Wait()
		out = append(out, pending...)
		var next []*unitRun
		for _, ur := range pending {
			for _, c := range r.g.allContracts() {
				if ur.u.used[c] && !doneC[c] {
					doneC[c] = true
					next = append(next, &unitRun{u: r.contractUnit(c)})
				}
			}
			for s := range ur.u.usedS {
				for _, n := range s.by {
					if !doneH[n] && r.g.harness[n] != nil {
						doneH[n] = true
						next = append(next, &unitRun{u: r.newUnitFor(n)})
					}
				}
			}
		}
		pending = next
	}
	return out
}

func (r *Run) unitCmd(name string) int {
	if err := r.setup(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer r.cleanup()
	for _, d := range r.g.dropped {
		fmt.Println("dropped:", d)
	}
	var names []string
	for _, h := range sortedKeys(r.g.harness) {
		if strings.Contains(h, name) {
			names = append(names, h)
		}
	}
	rc := 0
	var urs []*unitRun
	if DEBUG > 0 || PROFILE {
		for _, n := range names {
			ur := &unitRun{u: r.newUnitFor(n)}
			r.exec(ur)
			urs = append(urs, ur)
		}
	} else {
		urs = r.runAll(names)
	}
	for _, c := range r.contractsMatching(name) {
		ur := &unitRun{u: r.contractUnit(c)}
		r.exec(ur)
		urs = append(urs, ur)
	}
	if PROFILE {
		showProfile()
	}
	for _, ur := range urs {
		u := ur.u
		fmt.Printf("%-45s %-11s paths=%d killed=%d restarts=%d %.1fs %s\n", u.name, u.status, u.paths, u.killed, u.restarts, u.wall.Seconds(), u.reason)
		if len(u.bounds) > 0 {
			fmt.Println("   bounds:", sortedKeys(u.bounds))
		}
		if len(u.assumed) > 0 {
			fmt.Println("   assumed:", sortedKeys(u.assumed))
		}
		for _, f := range u.fails {
			fmt.Printf("   FAIL %s: %s at %s exact=%v\n", f.Obl, f.Msg, f.Pos, f.Exact)
			if DEBUG > 0 {
				fmt.Println(f.Trace)
			}
		}
		if x := ur.res; x != nil {
			fmt.Printf("   concrete: runs=%d valid=%d found=%v %s %s\n", x.Runs, x.Valid, x.Found, x.Label, x.Msg)
		}
		if x := ur.found(); x != nil {
			for _, k := range sortedKeys(x.Draws) {
				fmt.Printf("      %s = %s\n", k, showDraw(x.Draws[k]))
			}
			if DEBUG > 0 {
				fmt.Println(x.Stack)
			}
		}
		if x := ur.extra; x != nil {
			fmt.Printf("   search: runs=%d valid=%d found=%v %s %s\n", x.Runs, x.Valid, x.Found, x.Label, x.Msg)
		}
		if ur.ferr != nil {
			fmt.Println("   concrete error:", ur.ferr)
		}
		if u.status != "proved" {
			rc = 1
		}
	}
	return rc
}

func (r *Run) contractsMatching(name string) []*Contract {
	var out []*Contract
	if !strings.HasPrefix(name, "contract") {
		return nil
	}
	n := strings.TrimSpace(strings.TrimPrefix(name, "contract"))
	for _, c := range r.g.allContracts() {
		if strings.Contains(c.name, n) {
			out = append(out, c)
		}
	}
	return out
}

func showDraw(d string) string {
	if strings.HasPrefix(d, "s:") {
		b, _ := decB64(d[2:])
		if len(b) > 200 {
			return fmt.Sprintf("%q… (%d bytes)", b[:200], len(b))
		}
		return fmt.Sprintf("%q", b)
	}
	if len(d) > 2 {
		return d[2:]
	}
	return d
}

// ---- check ----

type replayFile struct {
	Property   string            `json:"property"`
	Unit       string            `json:"unit"`
	Harness    string            `json:"harness"`
	Package    string            `json:"package"`
	Obligation string            `json:"obligation"`
	Status     string            `json:"verifier_status"`
	Message    string            `json:"message"`
	Reproduced bool              `json:"reproduced_on_real_code"`
	Failed     string            `json:"failed_assertion_on_replay,omitempty"`
	Inputs     map[string]string `json:"inputs,omitempty"`
	Readable   map[string]string `json:"inputs_readable,omitempty"`
	Stack      string            `json:"stack,omitempty"`
	Verifier   []string          `json:"verifier_output,omitempty"`
	How        string            `json:"how_to_replay"`
}

func (r *Run) expected() []string {
	fs, _ := specFiles(r.verif, r.repo)
	var out []string
	for _, src := range fs {
		b, _ := ioutil.ReadFile(src)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H_"+r.prop+"_") {
				out = append(out, l[5:strings.IndexByte(l, '(')])
			}
		}
	}
	sort.Strings(out)
	return out
}

type finding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
}

func (r *Run) knownFindings() []finding {
	b, err := ioutil.ReadFile(filepath.Join(r.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	json.Unmarshal(b, &f)
	return f.Findings
}

func (r *Run) check() int {
	if err := r.setup(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot load /repo:", err)
		return 3
	}
	defer r.cleanup()
	names := r.expected()
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", r.prop)
		return 3
	}
	var have []string
	var missing []string
	for _, n := range names {
		if r.g.harness[n] != nil {
			have = append(have, n)
		} else {
			missing = append(missing, n)
		}
	}
	tl := time.Now()
	loadS := tl.Sub(r.t0).Seconds()
	urs := r.runAll(have)
	known := r.knownFindings()
	rdir := filepath.Join(r.verif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	viol := 0
	report := func(obl, unit string, ur *unitRun, fn *ssa.Function, msg, status string) {
		full := unit + "/" + obl
		for _, k := range known {
			if k.Property == r.prop && k.Obligation == full {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.What)
				return
			}
		}
		viol++
		rf := replayFile{Property: r.prop, Unit: unit, Obligation: obl, Status: status, Message: msg}
		suffix := " no-failing-input-found"
		if fn != nil {
			rf.Harness, rf.Package = fn.Name(), fn.Pkg.Pkg.Path()
		}
		if ur != nil {
			for _, f := range ur.u.fails {
				rf.Verifier = append(rf.Verifier, f.Obl+": "+f.Msg+"\n"+f.Trace)
			}
			if ur.u.reason != "" {
				rf.Verifier = append(rf.Verifier, ur.u.reason)
			}
			if x := ur.found(); x != nil {
				rf.Reproduced = true
				rf.Failed = x.Label + ": " + x.Msg
				rf.Inputs = x.Draws
				rf.Stack = x.Stack
				rf.Readable = map[string]string{}
				for k, v := range x.Draws {
					rf.Readable[k] = showDraw(v)
				}
				suffix = ""
			}
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", r.prop, viol))
		rf.How = fmt.Sprintf("./run.sh replay evidence/replay/%s", filepath.Base(path))
		b, _ := json.MarshalIndent(rf, "", " ")
		ioutil.WriteFile(path, b, 0644)
		fmt.Printf("failed obligation %s (%s): %s\n", full, status, msg)
		if rf.Reproduced {
			fmt.Printf("  reproduced on the real code: %s\n", rf.Failed)
			for _, k := range sortedKeys(rf.Readable) {
				fmt.Printf("    %s = %s\n", k, rf.Readable[k])
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", r.prop, path, suffix)
	}
	for _, n := range missing {
		report("specification", n, nil, nil, "the specification no longer type-checks against the code: "+strings.Join(r.g.dropped, "; "), "no-obligation")
	}
	for _, ur := range urs {
		u := ur.u
		switch {
		case u.status == "proved" && ur.found() == nil:
			if ur.ferr != nil {
				fmt.Fprintln(os.Stderr, "note: concrete run:", u.name, ur.ferr)
			}
		case u.status == "proved":
			x := ur.found()
			report("execution "+x.Label, u.name, ur, u.fn, "the verifier accepts the unit but an execution of the real code fails: "+x.Msg, u.status)
		case u.status == "failed":
			// one report per failed obligation
			seen := map[string]bool{}
			for _, f := range u.fails {
				if seen[f.Obl] {
					continue
				}
				seen[f.Obl] = true
				report(strings.TrimPrefix(f.Obl, u.name+"/"), u.name, ur, u.fn, f.Msg+" at "+f.Pos, u.status)
			}
		default:
			report("accepted by the verifier", u.name, ur, u.fn, u.reason, u.status)
		}
	}
	r.evidence(urs, viol, missing, loadS)
	if viol > 0 {
		return 1
	}
	fmt.Printf("property %s holds: %d units\n", r.prop, len(urs))
	return 0
}

func (r *Run) evidence(urs []*unitRun, viol int, missing []string, loadS float64) {
	type unitEv struct {
		Unit     string   `json:"unit"`
		Status   string   `json:"status"`
		Reason   string   `json:"reason,omitempty"`
		Paths    int      `json:"paths"`
		Pruned   int      `json:"infeasible_paths"`
		Named    []string `json:"obligations"`
		Count    int      `json:"obligation_instances"`
		Failed   int      `json:"failed_instances"`
		Queries  int      `json:"solver_queries"`
		SolverS  float64  `json:"solver_s"`
		WallS    float64  `json:"wall_s"`
		Bounds   []string `json:"bounds,omitempty"`
		Assumed  []string `json:"assumptions,omitempty"`
		Executed int      `json:"concrete_runs"`
		Valid    int      `json:"concrete_runs_within_preconditions"`
	}
	var units []unitEv
	total, disch, btotal, bdisch := 0, 0, 0, 0
	named, bnamed := 0, 0
	queries := 0
	solverS := 0.0
	fns := map[string]bool{}
	assumed := map[string]bool{}
	bounds := map[string]bool{}
	invs := map[string]bool{}
	conts := map[string]bool{}
	for _, ur := range urs {
		u := ur.u
		ev := unitEv{Unit: u.name, Status: u.status, Reason: u.reason, Paths: u.paths, Pruned: u.killed, WallS: u.wall.Seconds(), Bounds: sortedKeys(u.bounds), Assumed: sortedKeys(u.assumed)}
		if u.solver != nil {
			ev.Queries, ev.SolverS = u.solver.Queries, u.solver.Time.Seconds()
		}
		queries += ev.Queries
		solverS += ev.SolverS
		ok := 0
		for _, n := range sortedKeys(u.obl) {
			o := u.obl[n]
			ev.Named = append(ev.Named, fmt.Sprintf("%s (%s, %d paths)", n, o.Kind, o.Paths))
			ev.Count += o.Paths
			ev.Failed += o.Failed
			if strings.HasPrefix(n, "invariant ") {
				invs[n[10:]] = true
			}
		}
		if u.status == "proved" {
			ok = ev.Count
		}
		if len(u.bounds) > 0 {
			btotal += ev.Count
			bdisch += ok
			bnamed += len(u.obl)
		} else {
			total += ev.Count
			disch += ok
			named += len(u.obl)
		}
		if x := ur.res; x != nil {
			ev.Executed, ev.Valid = x.Runs, x.Valid
		}
		if x := ur.extra; x != nil {
			ev.Executed += x.Runs
			ev.Valid += x.Valid
		}
		for fn := range u.funcs {
			if r.g.inRepo(fn) {
				fns[strings.TrimPrefix(fn.String(), repoMod+"/")] = true
			}
		}
		for b := range u.bounds {
			bounds[u.name+": "+b] = true
		}
		for a := range u.assumed {
			assumed[a] = true
		}
		for c := range u.used {
			conts[c.name] = true
		}
		for s := range u.usedS {
			conts[s.name+" (summary, shown by "+strings.Join(s.by, ", ")+")"] = true
		}
		units = append(units, ev)
	}
	cov := map[string]interface{}{
		"obligations":                 total,
		"discharged":                  disch,
		"named_obligations":           named,
		"bounded_obligations":         btotal,
		"bounded_discharged":          bdisch,
		"bounded_named_obligations":   bnamed,
		"bounds":                      sortedKeys(bounds),
		"checker_cmd":                 fmt.Sprintf("./run.sh %s %s", r.prop, r.tier),
		"back_end":                    solverVersion(),
		"solver_queries":              queries,
		"solver_s":                    solverS,
		"functions_under_contract":    sortedKeys(fns),
		"function_contracts":          sortedKeys(conts),
		"loop_invariants":             sortedKeys(invs),
		"units":                       units,
		"specification_parts_dropped": r.g.dropped,
		"missing_harnesses":           missing,
		"load_s":                      loadS,
		"trusted_base":                trustedBase(),
	}
	out := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": r.level(), "coverage": cov,
		"assumptions": append(baseAssumptions(), sortedKeys(assumed)...), "wall_s": time.Since(r.t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), b, 0644)
}

func (r *Run) level() string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, err := ioutil.ReadFile(filepath.Join(r.verif, "MANIFEST.json"))
	if err == nil && json.Unmarshal(b, &m) == nil {
		for _, c := range m.Checks {
			if c.Property == r.prop {
				return c.Level
			}
		}
	}
	return "proof"
}

func trustedBase() []string {
	return []string{
		"govc (/verif/govc): translation of Go SSA (golang.org/x/tools/go/ssa, naive form) to path conditions, its string theory and its models of library functions",
		"golang.org/x/tools v0.52.0 (go/packages, go/ssa), Go 1.26.10 type checker",
		"SMT solver " + solverVersion(),
		"models of the standard library listed in DESIGN.md (strings, bytes, strconv, fmt, errors, utf8, html, base32, reflect, ...); bufio, io, sort are executed as written",
	}
}

func baseAssumptions() []string {
	return []string{
		"one goroutine: no other goroutine touches the values a call works on",
		"memory is never exhausted; lengths and integer arithmetic are exact Go semantics (wrap-around is modelled by range obligations on fixed-width types)",
		"append beyond a slice's capacity returns fresh memory",
	}
}

var solverVer string
var solverVerOnce sync.Once

func solverVersion() string {
	solverVerOnce.Do(func() {
		b, _ := exec.Command(solverName, "--version").Output()
		solverVer = strings.TrimSpace(string(b))
	})
	return solverVer
}

func (r *Run) replayCmd(file string) int {
	b, err := ioutil.ReadFile(file)
	die(err)
	var rf replayFile
	die(json.Unmarshal(b, &rf))
	if rf.Harness == "" || !rf.Reproduced {
		fmt.Printf("no failing input recorded; obligation %s/%s: %s\n%s\n", rf.Unit, rf.Obligation, rf.Message, strings.Join(rf.Verifier, "\n"))
		return 1
	}
	die(r.setup())
	defer r.cleanup()
	fn := r.g.harness[rf.Harness]
	if fn == nil {
		for _, c := range r.g.allContracts() {
			if c.fn.Name() == rf.Harness {
				fn = c.fn
			}
		}
	}
	if fn == nil {
		fmt.Println("harness not found")
		return 2
	}
	x, err := r.concrete(fn, []map[string]string{rf.Inputs}, 0, 1)
	die(err)
	if x.Found {
		fmt.Printf("reproduced: %s: %s\n%s\n", x.Label, x.Msg, x.Stack)
		return 1
	}
	fmt.Println("not reproduced: the property holds on this input")
	return 0
}
