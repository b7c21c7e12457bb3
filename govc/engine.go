package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/direct-connect/go-dc"

// Engine holds the program under verification; it is read-only once loaded.
type Engine struct {
	repo, verif string
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // repo packages by import path
	ppkgs       map[string]*packages.Package
	mu          sync.Mutex
	globals     map[*ssa.Global]*Obj
	models      map[string]*ssa.Function
	contracts   map[*ssa.Function]*Contract
	scopes      map[string]bool
	summaries   map[*ssa.Function][]*Summary
	unitScope   map[string]string
	scoped      map[string]map[*ssa.Function]*Contract
	invs        map[*ssa.Function][]*Inv
	loopc       map[*ssa.Function]*loopInfo
	homs        map[string]*Hom
	comps       map[[2]*Hom]*Hom
	injs        map[*Hom]bool
	harness     map[string]*ssa.Function
	bounds      map[*ssa.Function]string
	overlay     map[string][]byte
	dropped     []string // spec files dropped because they no longer compile
	interp      map[string]bool
	initDone    bool
	errOpaque   map[string]*VOpaque
	basePath    *Path
	baseExec    *Exec
	nobj        int
}

type Contract struct {
	fn    *ssa.Function // spec function
	exact *ssa.Function // its result at call sites, proved equal by fn
	of    *ssa.Function
	name  string
	scope string // only used by units of this scope
}

type Inv struct {
	fn      *ssa.Function
	of      *ssa.Function
	ordinal int
	name    string
	scope   string
}

type loopT struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loopT
	list     []*loopT
}

// packages of the standard library whose code is executed as written
var interpPkgs = []string{"bufio", "io", "sort", "strings", "bytes", "strconv", "unicode/utf8", "errors", "io/ioutil", "internal/stringslite", "internal/bytealg", "unicode", "net"}

func (g *Engine) pkgDir(imp string) string {
	return filepath.Join(g.repo, strings.TrimPrefix(strings.TrimPrefix(imp, repoMod), "/"))
}

// specFiles lists spec sources: /verif/spec/<dir>/*.go -> /repo/<dir>/zz_verif_<name>.go
func specFiles(verif, repo string) (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(verif, "spec")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		dir, f := filepath.Split(rel)
		if strings.HasPrefix(dir, "_") {
			return nil
		}
		if dir == "root/" {
			dir = ""
		} else {
			dir = strings.TrimPrefix(dir, "root/")
		}
		out[filepath.Join(repo, dir, "zz_verif_"+f)] = p
		return nil
	})
	return out, err
}

func pkgNameOf(src []byte) string {
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			return strings.TrimSpace(l[8:])
		}
	}
	return ""
}

// buildOverlay returns the virtual files added to the packages of /repo.
func buildOverlay(verif, repo string, drop map[string]bool) (map[string][]byte, error) {
	fs, err := specFiles(verif, repo)
	if err != nil {
		return nil, err
	}
	prel, err := ioutil.ReadFile(filepath.Join(verif, "spec", "_prelude", "prelude.go.tmpl"))
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	dirs := map[string]string{}
	hs := map[string][]string{}
	for dst, src := range fs {
		if drop[dst] {
			continue
		}
		b, err := ioutil.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
		dirs[filepath.Dir(dst)] = pkgNameOf(b)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H_") || strings.HasPrefix(l, "func C_") {
				n := l[5:]
				n = n[:strings.IndexByte(n, '(')]
				hs[filepath.Dir(dst)] = append(hs[filepath.Dir(dst)], n)
			}
		}
	}
	for d, n := range dirs {
		ov[filepath.Join(d, "zz_verif_0prelude.go")] = []byte(strings.Replace(string(prel), "package PKG", "package "+n, 1))
		sort.Strings(hs[d])
		var sb strings.Builder
		sb.WriteString("package " + n + "\n\nvar vHarnesses = map[string]func(){\n")
		for _, h := range hs[d] {
			if h[0] == 'H' {
				fmt.Fprintf(&sb, "\t%q: %s,\n", h, h)
			}
		}
		sb.WriteString("}\n\nvar vContracts = map[string]interface{}{\n")
		for _, h := range hs[d] {
			if h[0] == 'C' {
				fmt.Fprintf(&sb, "\t%q: %s,\n", h, h)
			}
		}
		sb.WriteString("}\n")
		ov[filepath.Join(d, "zz_verif_1table.go")] = []byte(sb.String())
	}
	return ov, nil
}

func loadEngine(repo, verif string) (*Engine, error) {
	g := &Engine{repo: repo, verif: verif, pkgs: map[string]*ssa.Package{}, ppkgs: map[string]*packages.Package{},
		globals: map[*ssa.Global]*Obj{}, models: map[string]*ssa.Function{}, contracts: map[*ssa.Function]*Contract{}, scopes: map[string]bool{}, unitScope: map[string]string{}, summaries: map[*ssa.Function][]*Summary{}, scoped: map[string]map[*ssa.Function]*Contract{},
		invs: map[*ssa.Function][]*Inv{}, loopc: map[*ssa.Function]*loopInfo{}, homs: map[string]*Hom{}, comps: map[[2]*Hom]*Hom{},
		injs: map[*Hom]bool{}, harness: map[string]*ssa.Function{}, bounds: map[*ssa.Function]string{}, interp: map[string]bool{}, errOpaque: map[string]*VOpaque{}}
	drop := map[string]bool{}
	var pkgs []*packages.Package
	for try := 0; ; try++ {
		ov, err := buildOverlay(verif, repo, drop)
		if err != nil {
			return nil, err
		}
		g.overlay = ov
		g.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Fset: g.fset, Env: os.Environ()}
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, fmt.Errorf("load: %v", err)
		}
		var bad []string
		again := false
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, repoMod) {
				return
			}
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ".go:"); i > 0 {
					f = f[:i+3]
				}
				if strings.HasPrefix(filepath.Base(f), "zz_verif_") && !drop[f] && !strings.HasPrefix(filepath.Base(f), "zz_verif_0") && !strings.HasPrefix(filepath.Base(f), "zz_verif_1") {
					drop[f] = true
					again = true
					g.dropped = append(g.dropped, filepath.Base(f)+": "+e.Msg)
				} else {
					bad = append(bad, e.Error())
				}
			}
		})
		if again && try < 8 {
			continue
		}
		if len(bad) > 0 {
			return nil, fmt.Errorf("type errors: %s", strings.Join(bad, "; "))
		}
		break
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	g.prog = prog
	ip := map[string]bool{}
	for _, p := range interpPkgs {
		ip[p] = true
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		if strings.HasPrefix(p.PkgPath, repoMod) {
			sp.Build()
			g.pkgs[p.PkgPath] = sp
			g.ppkgs[p.PkgPath] = p
		} else if ip[p.PkgPath] {
			sp.Build()
		}
	})
	if err := g.scanDirectives(); err != nil {
		return nil, err
	}
	return g, g.runInit()
}

// findFunc resolves "Name", "T.Name", "(*T).Name" or "pkgpath.Name" relative to package sp.
func (g *Engine) findFunc(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.LastIndex(name, "."); i >= 0 {
		recv, m := name[:i], name[i+1:]
		ptr := strings.HasPrefix(recv, "(*") || strings.HasPrefix(recv, "*")
		recv = strings.Trim(recv, "(*)")
		if t := sp.Type(recv); t != nil {
			var rt types.Type = t.Type()
			if ptr {
				rt = types.NewPointer(rt)
			}
			ms := g.prog.MethodSets.MethodSet(rt)
			for j := 0; j < ms.Len(); j++ {
				if ms.At(j).Obj().Name() == m {
					f := g.prog.MethodValue(ms.At(j))
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
			return nil
		}
		if q := g.prog.ImportedPackage(recv); q != nil {
			return q.Func(m)
		}
		return nil
	}
	return sp.Func(name)
}

func (g *Engine) scanDirectives() error {
	for _, p := range g.ppkgs {
		sp := g.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			fn := g.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if strings.HasPrefix(fd.Name.Name, "H_") {
					g.harness[fd.Name.Name] = sf
				}
				if fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//verif:") {
						continue
					}
					w := strings.Fields(c.Text[8:])
					switch w[0] {
					case "contract":
						of := g.findFunc(sp, w[1])
						if of == nil {
							g.dropped = append(g.dropped, "contract for missing function "+w[1])
							continue
						}
						if len(w) > 2 {
							g.scopes[w[2]] = true
							if g.scoped[w[2]] == nil {
								g.scoped[w[2]] = map[*ssa.Function]*Contract{}
							}
							g.scoped[w[2]][of] = &Contract{fn: sf, of: of, name: w[1] + "@" + w[2], scope: w[2]}
							continue
						}
						if c := g.contracts[of]; c != nil {
							c.fn = sf
						} else {
							g.contracts[of] = &Contract{fn: sf, of: of, name: w[1]}
						}
					case "exact":
						of := g.findFunc(sp, w[1])
						if of == nil {
							continue
						}
						if c := g.contracts[of]; c != nil {
							c.exact = sf
						} else {
							g.contracts[of] = &Contract{exact: sf, of: of, name: w[1]}
						}
					case "inv":
						of := g.findFunc(sp, w[1])
						if of == nil {
							g.dropped = append(g.dropped, "invariant for missing function "+w[1])
							continue
						}
						n, err := strconv.Atoi(w[2])
						if err != nil {
							return err
						}
						iv := &Inv{fn: sf, of: of, ordinal: n, name: w[1] + "#" + w[2]}
						if len(w) > 3 {
							iv.scope = w[3]
							g.scopes[w[3]] = true
						}
						g.invs[of] = append(g.invs[of], iv)
					case "summary":
						of := g.findFunc(sp, w[1])
						if of == nil {
							g.dropped = append(g.dropped, "summary for missing function "+w[1])
							continue
						}
						sm := &Summary{fn: sf, of: of, name: w[1], scopes: strings.Split(w[2], ",")}
						if len(w) > 4 && w[3] == "by" {
							sm.by = strings.Split(w[4], ",")
						}
						for _, s := range sm.scopes {
							g.scopes[s] = true
						}
						g.summaries[of] = append(g.summaries[of], sm)
					case "scope":
						g.unitScope[fd.Name.Name] = w[1]
					case "model":
						g.models[w[1]] = sf
					case "bound":
						g.bounds[sf] = strings.Join(w[1:], " ")
					}
				}
			}
		}
	}
	for of, c := range g.contracts {
		if c.fn == nil {
			return fmt.Errorf("%s: exact without a contract", of)
		}
	}
	return nil
}

// contractOf is the contract used for fn by units of the given scope.
func (g *Engine) contractOf(fn *ssa.Function, scope string) *Contract {
	if scope != "" {
		if c := g.scoped[scope][fn]; c != nil {
			return c
		}
	}
	return g.contracts[fn]
}

// allContracts lists every contract in a fixed order.
func (g *Engine) allContracts() []*Contract {
	var out []*Contract
	for _, c := range g.contracts {
		out = append(out, c)
	}
	for _, m := range g.scoped {
		for _, c := range m {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].of.String(), out[j].of.String(); a != b {
			return a < b
		}
		return out[i].scope < out[j].scope
	})
	return out
}

// Summary is a specification function that stands for a function of the code
// in the units of some properties. The units listed show that the function
// behaves as the summary says; they are run with every unit that uses it.
type Summary struct {
	fn, of *ssa.Function
	name   string
	scopes []string
	by     []string
}

func (g *Engine) summaryOf(fn *ssa.Function, scope string) *Summary {
	if scope == "" {
		return nil
	}
	for _, s := range g.summaries[fn] {
		for _, x := range s.scopes {
			if x == scope {
				return s
			}
		}
	}
	return nil
}

func (g *Engine) scopeOf(unit string) string {
	if s, ok := g.unitScope[unit]; ok {
		return s
	}
	for s := range g.scopes {
		if strings.HasPrefix(unit, "H_"+s+"_") {
			return s
		}
	}
	return ""
}

func (g *Engine) posStr(p token.Pos) string {
	q := g.fset.Position(p)
	r, err := filepath.Rel(g.repo, q.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = filepath.Base(q.Filename)
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (g *Engine) isSpec(fn *ssa.Function) bool {
	if fn == nil || !fn.Pos().IsValid() {
		return false
	}
	return strings.HasPrefix(filepath.Base(g.fset.Position(fn.Pos()).Filename), "zz_verif_")
}

func (g *Engine) inRepo(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoMod) && !g.isSpec(fn)
}

// ---- loops ----

func (g *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	g.mu.Lock()
	defer g.mu.Unlock()
	if l := g.loopc[fn]; l != nil {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loopT{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				lp := li.byHeader[s]
				if lp == nil {
					lp = &loopT{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = lp
					li.list = append(li.list, lp)
				}
				// natural loop
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	// order by source position of the loop (first positioned instruction), falling back to block index
	pos := func(l *loopT) token.Pos {
		var mn token.Pos
		for b := range l.body {
			for _, i := range b.Instrs {
				if p := i.Pos(); p.IsValid() && (mn == 0 || p < mn) {
					mn = p
				}
			}
		}
		return mn
	}
	sort.SliceStable(li.list, func(i, j int) bool {
		a, b := li.list[i], li.list[j]
		// an enclosing loop comes first
		if a.body[b.header] != b.body[a.header] {
			return a.body[b.header]
		}
		return pos(a) < pos(b)
	})
	for i, l := range li.list {
		l.ord = i
	}
	g.loopc[fn] = li
	return li
}

// ---- homomorphisms ----

func (g *Engine) hom(name string, img [256]string) *Hom {
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, h := range g.homs {
		if h.img == img {
			return h
		}
	}
	if g.homs[name] != nil {
		name = fmt.Sprintf("%s_%d", name, len(g.homs))
	}
	h := newHom(name, img)
	g.homs[name] = h
	return h
}

// compose returns h1 after h2 as one table.
func (g *Engine) compose(h1, h2 *Hom) *Hom {
	g.mu.Lock()
	c := g.comps[[2]*Hom{h1, h2}]
	g.mu.Unlock()
	if c != nil {
		return c
	}
	var img [256]string
	for i := range img {
		var sb strings.Builder
		s := h2.img[i]
		for j := 0; j < len(s); j++ {
			sb.WriteString(h1.img[s[j]])
		}
		img[i] = sb.String()
	}
	c = g.hom(h1.name+"*"+h2.name, img)
	g.mu.Lock()
	if c.outer == nil && h2.min == 1 && h2.max == 1 && h1.max > 1 && c != h1 {
		c.outer, c.inner = h1, h2
	}
	g.comps[[2]*Hom{h1, h2}] = c
	g.mu.Unlock()
	return c
}

// injective: no image is empty and the image set is prefix-free.
func (g *Engine) injective(h *Hom) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	if r, ok := g.injs[h]; ok {
		return r
	}
	r := true
	for i := 0; i < 256 && r; i++ {
		if h.img[i] == "" {
			r = false
		}
		for j := 0; j < 256; j++ {
			if i != j && strings.HasPrefix(h.img[j], h.img[i]) {
				r = false
				break
			}
		}
	}
	g.injs[h] = r
	return r
}

// ---- package state ----

func (g *Engine) globalObj(gl *ssa.Global) *Obj {
	g.mu.Lock()
	defer g.mu.Unlock()
	if o := g.globals[gl]; o != nil {
		return o
	}
	t := gl.Type().(*types.Pointer).Elem()
	g.nobj++
	o := &Obj{id: -g.nobj, key: gl.String(), typ: t, base: true}
	pk := ""
	if gl.Pkg != nil {
		pk = gl.Pkg.Pkg.Path()
	}
	if strings.HasPrefix(pk, repoMod) {
		if gl.Name() == "init$guard" {
			o.val = VBool{false}
		} else {
			o.val = g.baseExec.zero(t)
		}
	} else {
		o.val = g.stdGlobal(gl, t)
	}
	g.globals[gl] = o
	return o
}

func (g *Engine) stdGlobal(gl *ssa.Global, t types.Type) Value {
	if isErrorType(t) {
		return VIface{t: opaqueErrT, v: VOpaque{kind: "err", id: stdErrID(gl.String()), d: gl.String()}}
	}
	return VPtrOpaque(gl.String(), t)
}

// VPtrOpaque is an opaque value standing for an external package variable.
func VPtrOpaque(name string, t types.Type) Value {
	return VOpaque{kind: "ext:" + name, id: 1, d: t}
}

var stdErrs = map[string]int{}
var stdErrMu sync.Mutex

func stdErrID(n string) int {
	stdErrMu.Lock()
	defer stdErrMu.Unlock()
	if i, ok := stdErrs[n]; ok {
		return i
	}
	stdErrs[n] = len(stdErrs) + 1
	return stdErrs[n]
}

func (g *Engine) runInit() (err error) {
	u := &Unit{eng: g, name: "init", havoc: map[uint64]map[havKey]*havEnt{}, solver: newSolver("z3-new"), noContract: map[*ssa.Function]bool{}, obl: map[string]*Obl{}}
	u.init = true
	p := newPath(u, nil)
	e := newExec(u, p)
	e.initing = true
	g.basePath, g.baseExec = p, e
	defer func() {
		u.solver.close()
		e.initing = false
		if r := recover(); r != nil {
			switch x := r.(type) {
			case sigUnsupported:
				err = fmt.Errorf("package initialisation: %s at %s %s", x.msg, e.pos(), stackOf(e))
			case sigPanic:
				err = fmt.Errorf("package initialisation panics: %s %s at %s", x.kind, x.msg, x.pos)
			default:
				panic(r)
			}
		}
	}()
	for _, path := range sortedKeys(g.pkgs) {
		sp := g.pkgs[path]
		e.inline(sp.Func("init"), nil, nil, nil)
	}
	if len(p.trace) > 0 {
		for _, d := range p.trace {
			if len(d.alts) > 1 {
				return fmt.Errorf("package initialisation is not deterministic")
			}
		}
	}
	g.initDone = true
	return nil
}
