package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

// ---- control-flow signals (panics) ----

type sigKill struct{ why string }        // path infeasible or assumed away
type sigEnd struct{ why string }         // path finished (back edge of a cut loop)
type sigRestart struct{}                 // havoc set grew: explore the unit again
type sigUnsupported struct{ msg string } // construct outside the subset

func unsupported(f string, a ...interface{}) { panic(sigUnsupported{fmt.Sprintf(f, a...)}) }

type Dec struct {
	alts []int
	cur  int
}

type IAtom struct {
	id      AtomID
	name    string
	lo, hi  *big.Int
	isByte  bool
	touched bool
}

type SAtomID int32

type SAtom struct {
	id   SAtomID
	name string
	len  Lin
	fn   string // non-empty: value of spec/library function fn on args
	args []Rope
	iarg *Lin
	draw bool // drawn harness input
	key  string
	hint string
}

type BAtom struct {
	name string
	set  bool
	val  bool
}

// Path is one symbolic execution path, re-executed from the start.
type Path struct {
	errRep  map[string]VIface // unknown errors found to be another one
	errDiff [][2]VIface
	errText map[int]Rope
	u       *Unit
	trace   []Dec
	pos     int

	iat        []*IAtom
	ibind      map[AtomID]Lin
	bcs        map[AtomID]CS
	sat        []*SAtom
	sbind      map[SAtomID]Rope
	scs        map[SAtomID]CS
	noocc      map[SAtomID][]string
	sdis       map[SAtomID][]string
	facts      []string
	known      map[string]bool
	sne        [][2]Lin // lengths of strings known to differ
	sneR       [][2]Rope
	sord       [][2]Rope // x < y as strings
	memoS      map[string]SAtomID
	memoI      map[string]AtomID
	drawN      map[string]int
	draws      []drawRec
	nobj       int
	steps      int
	version    int
	imprecise  []string
	xors       map[AtomID][]Lin
	tbls       map[AtomID]*tblEnt
	decs       []decEnt
	b32memo    []b32res
	bmemo      map[string]Value
	npre, nsuf map[SAtomID][]string // v does not start (end) with
	negs       []negFact
	homLens    []homLen
	utf        []utfRec
	noR        []noOccR
	syncV      int
	syncing    bool
	where      func() string
}

// PROFILE counts forks by source position.
var PROFILE bool
var profile = map[string]int{}

func showProfile() {
	var ks []string
	for k := range profile {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profile[ks[i]] > profile[ks[j]] })
	for i, k := range ks {
		if i < 40 {
			fmt.Printf("%7d %s\n", profile[k], k)
		}
	}
}

type drawRec struct {
	name string
	kind string
	v    Value
}

func newPath(u *Unit, trace []Dec) *Path {
	return &Path{u: u, trace: trace, ibind: map[AtomID]Lin{}, bcs: map[AtomID]CS{}, sbind: map[SAtomID]Rope{},
		scs: map[SAtomID]CS{}, noocc: map[SAtomID][]string{}, sdis: map[SAtomID][]string{}, known: map[string]bool{},
		memoS: map[string]SAtomID{}, memoI: map[string]AtomID{}, drawN: map[string]int{}, xors: map[AtomID][]Lin{}, tbls: map[AtomID]*tblEnt{}}
}

func (p *Path) frontier() bool { return p.pos >= len(p.trace) }

// branch picks one of the feasible alternatives, recording the choice.
func (p *Path) branch(n int, feasible func(i int) bool) int {
	if p.pos < len(p.trace) {
		d := p.trace[p.pos]
		p.pos++
		if DEBUG == 7 && p.where != nil && len(d.alts) > 1 {
			_, f1, l1, _ := runtime.Caller(1)
			_, _, l2, _ := runtime.Caller(2)
			fmt.Printf("   take %d of %v  %s  %s:%d<%d\n", d.alts[d.cur], d.alts, p.where(), filepath.Base(f1), l1, l2)
		}
		return d.alts[d.cur]
	}
	var alts []int
	for i := 0; i < n; i++ {
		if feasible == nil || feasible(i) {
			alts = append(alts, i)
		}
	}
	if len(alts) == 0 {
		panic(sigKill{"no feasible alternative"})
	}
	p.trace = append(p.trace, Dec{alts: alts})
	p.pos++
	if PROFILE && len(alts) > 1 && p.where != nil {
		_, f1, l1, _ := runtime.Caller(1)
		_, _, l2, _ := runtime.Caller(2)
		for k := 3; k < 8; k++ {
			_, ff, l3, _ := runtime.Caller(k)
			f1 += fmt.Sprintf("<%s:%d", filepath.Base(ff), l3)
		}
		profile[fmt.Sprintf("%s  %s:%d<%d", p.where(), filepath.Base(f1), l1, l2)]++
	}
	if len(p.trace) > 20000 {
		unsupported("path too long")
	}
	return alts[0]
}

func (p *Path) sat3(extra string) string {
	p.u.checkTime()
	return p.u.solver.check(p.facts, extra)
}
func (p *Path) feasible(cond string) bool {
	return p.sat3("(assert "+cond+")") != "unsat"
}

// ---- integers ----

func (p *Path) newInt(name string, lo, hi *big.Int) Lin {
	a := &IAtom{id: AtomID(len(p.iat)), name: name, lo: lo, hi: hi}
	p.iat = append(p.iat, a)
	return linAtom(a.id)
}

func (p *Path) newByte(name string, cs CS) Lin {
	if cs.empty() {
		panic(sigKill{"empty byte set"})
	}
	a := &IAtom{id: AtomID(len(p.iat)), name: name, lo: bi0, hi: big.NewInt(255), isByte: true}
	p.iat = append(p.iat, a)
	p.bcs[a.id] = cs
	if l := cs.list(); len(l) == 1 {
		p.ibind[a.id] = cI(int64(l[0]))
	}
	return linAtom(a.id)
}

func (p *Path) norm(l Lin) Lin {
	for {
		hit := false
		for _, t := range l.t {
			if _, ok := p.ibind[t.a]; ok {
				hit = true
				break
			}
			if p.evalDerived(t.a) {
				hit = true
				break
			}
		}
		if !hit {
			return l
		}
		out := Lin{c: l.c}
		for _, t := range l.t {
			if b, ok := p.ibind[t.a]; ok {
				out = out.addMul(b, t.k)
			} else {
				out = out.addMul(linAtom(t.a), t.k)
			}
		}
		l = out
	}
}

// evalDerived binds table/xor atoms whose operands became known.
func (p *Path) evalDerived(a AtomID) bool {
	if t, ok := p.tbls[a]; ok {
		b := p.norm(linAtom(t.base))
		if b.isConst() && t.t[b.cint()&255] != nil {
			p.ibind[a] = cB(t.t[b.cint()&255])
			return true
		}
		if id, ok := p.isByteLin(b); ok && p.bcs[id] != t.tried {
			// the table is a shift on every byte that is left
			t2 := *t
			t2.tried = p.bcs[id]
			p.tbls[a] = &t2
			var k *big.Int
			for _, c := range p.bcs[id].list() {
				if t.t[c] == nil {
					return false
				}
				d := new(big.Int).Sub(t.t[c], big.NewInt(int64(c)))
				if k == nil {
					k = d
				} else if k.Cmp(d) != 0 {
					return false
				}
			}
			if k != nil {
				p.ibind[a] = b.add(cB(k))
				return true
			}
		}
		return false
	}
	if ops, ok := p.xors[a]; ok {
		c := new(big.Int)
		for _, o := range ops {
			n := p.norm(o)
			if !n.isConst() {
				return false
			}
			c.Xor(c, n.c)
		}
		p.ibind[a] = cB(c)
		return true
	}
	return false
}

// viaTable rewrites a test on a table atom into a byte-set test on its base.
func (p *Path) viaTable(l Lin, f func(v *big.Int) bool) (bool, bool) {
	if len(l.t) != 1 {
		return false, false
	}
	t, ok := p.tbls[l.t[0].a]
	if !ok {
		return false, false
	}
	b := p.norm(linAtom(t.base))
	base, okb := p.isByteLin(b)
	if !okb || base != t.base {
		return false, false
	}
	var cs CS
	for _, c := range p.bcs[base].list() {
		if t.t[c] == nil {
			continue
		}
		v := new(big.Int).Mul(t.t[c], l.t[0].k)
		if f(v.Add(v, l.c)) {
			cs.add(c)
		}
	}
	return true, p.decideIn(b, cs)
}

func (p *Path) bounds(l Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, t := range l.t {
		a := p.iat[t.a]
		alo, ahi := a.lo, a.hi
		if a.isByte {
			cs := p.bcs[a.id].list()
			alo, ahi = big.NewInt(int64(cs[0])), big.NewInt(int64(cs[len(cs)-1]))
		}
		if t.k.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(alo, t.k))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ahi, t.k))
			}
		}
	}
	return
}

func csFact(a AtomID, cs CS) string {
	rs := cs.ranges()
	if len(rs) == 1 {
		return fmt.Sprintf("(and (<= %d i%d) (<= i%d %d))", rs[0][0], a, a, rs[0][1])
	}
	var sb strings.Builder
	sb.WriteString("(or")
	for _, r := range rs {
		fmt.Fprintf(&sb, " (and (<= %d i%d) (<= i%d %d))", r[0], a, a, r[1])
	}
	sb.WriteString(")")
	return sb.String()
}

func (p *Path) touch(l Lin) {
	for _, t := range l.t {
		p.touchAtom(t.a)
	}
}

func (p *Path) touchAtom(id AtomID) {
	a := p.iat[id]
	if a.touched {
		return
	}
	a.touched = true
	s := fmt.Sprintf("(declare-const i%d Int)", id)
	if a.isByte {
		s += "(assert " + csFact(id, p.bcs[id]) + ")"
	} else {
		if a.lo != nil {
			s += fmt.Sprintf("(assert (<= %s i%d))", smtInt(a.lo), id)
		}
		if a.hi != nil {
			s += fmt.Sprintf("(assert (<= i%d %s))", id, smtInt(a.hi))
		}
	}
	p.facts = append(p.facts, s)
}

func (p *Path) addFact(s string) { p.facts = append(p.facts, "(assert "+s+")") }

func (p *Path) kill(why string) { panic(sigKill{why}) }

func (p *Path) setByteCS(id AtomID, cs CS) {
	if cs.empty() {
		p.kill("byte set empty")
	}
	if p.bcs[id] == cs {
		return
	}
	p.bcs[id] = cs
	p.version++
	if p.iat[id].touched {
		p.addFact(csFact(id, cs))
	}
	if l := cs.list(); len(l) == 1 {
		p.ibind[id] = cI(int64(l[0]))
	}
}

// assumeEq0 records l == 0 (l normalised).
func (p *Path) assumeEq0(l Lin) {
	l = p.norm(l)
	if l.isConst() {
		if l.c.Sign() != 0 {
			p.kill("eq false")
		}
		return
	}
	if len(l.t) > 1 {
		g := new(big.Int)
		for _, t := range l.t {
			g.GCD(nil, nil, g, new(big.Int).Abs(t.k))
		}
		if g.Cmp(bi1) > 0 {
			if new(big.Int).Mod(l.c, g).Sign() != 0 {
				p.kill("no integer solution")
			}
			m := Lin{c: new(big.Int).Quo(l.c, g)}
			for _, t := range l.t {
				m.t = append(m.t, LT{t.a, new(big.Int).Quo(t.k, g)})
			}
			p.assumeEq0(m)
			return
		}
	}
	p.version++
	// single atom
	if len(l.t) == 1 {
		q, r := new(big.Int).QuoRem(new(big.Int).Neg(l.c), l.t[0].k, new(big.Int))
		if r.Sign() != 0 {
			p.kill("no integer solution")
		}
		id := l.t[0].a
		a := p.iat[id]
		if a.lo != nil && q.Cmp(a.lo) < 0 || a.hi != nil && q.Cmp(a.hi) > 0 {
			p.kill("out of bounds")
		}
		if a.isByte && !p.bcs[id].has(byte(q.Int64())) {
			p.kill("byte not in set")
		}
		if a.touched {
			p.addFact(fmt.Sprintf("(= i%d %s)", id, smtInt(q)))
		}
		p.ibind[id] = cB(q)
		return
	}
	// two equal bytes
	if len(l.t) == 2 && l.c.Sign() == 0 && p.iat[l.t[0].a].isByte && p.iat[l.t[1].a].isByte &&
		l.t[0].k.Cmp(new(big.Int).Neg(l.t[1].k)) == 0 {
		a, b := l.t[0].a, l.t[1].a
		cs := p.bcs[a].and(p.bcs[b])
		if p.iat[a].touched || p.iat[b].touched {
			p.touch(l)
			p.addFact("(= " + l.smt() + " 0)")
		}
		p.setByteCS(a, cs)
		if _, ok := p.ibind[a]; ok {
			p.ibind[b] = p.ibind[a]
			return
		}
		p.ibind[b] = linAtom(a)
		return
	}
	p.touch(l)
	p.addFact("(= " + l.smt() + " 0)")
	p.boundsEq(l)
	// choose atom to eliminate
	best := -1
	for i, t := range l.t {
		if t.k.CmpAbs(bi1) != 0 || p.iat[t.a].isByte {
			continue
		}
		if _, ok := p.ibind[t.a]; ok {
			continue
		}
		if best < 0 || t.a > l.t[best].a {
			best = i
		}
	}
	if best >= 0 {
		t := l.t[best]
		rest := l.addMul(linAtom(t.a), new(big.Int).Neg(t.k))
		// t.k*a + rest = 0
		if t.k.Sign() > 0 {
			rest = rest.neg()
		}
		p.ibind[t.a] = p.norm(rest)
	}
}

// all non-negative terms summing to zero are zero
func (p *Path) boundsEq(l Lin) {
	lo, _ := p.bounds(l)
	if lo != nil && lo.Sign() == 0 {
		for _, t := range l.t {
			a := p.iat[t.a]
			if a.isByte {
				continue
			}
			if _, ok := p.ibind[t.a]; ok {
				continue
			}
			if t.k.Sign() > 0 && a.lo != nil {
				p.ibind[t.a] = cB(a.lo)
			} else if t.k.Sign() < 0 && a.hi != nil {
				p.ibind[t.a] = cB(a.hi)
			}
		}
	}
}

// assumeLe0 records l <= 0.
func (p *Path) assumeLe0(l Lin) {
	l = p.norm(l)
	if l.isConst() {
		if l.c.Sign() > 0 {
			p.kill("le false")
		}
		return
	}
	lo, hi := p.bounds(l)
	if hi != nil && hi.Sign() <= 0 {
		return
	}
	if lo != nil && lo.Sign() > 0 {
		p.kill("le false by bounds")
	}
	p.version++
	if len(l.t) == 1 && p.iat[l.t[0].a].isByte {
		p.refineByte(l, func(v *big.Int) bool { return v.Sign() <= 0 })
		return
	}
	p.known[l.key()] = true
	if len(l.t) == 1 {
		t := l.t[0]
		a := p.iat[t.a]
		// k*a + c <= 0
		if t.k.Sign() > 0 {
			q := floorDiv(new(big.Int).Neg(l.c), t.k)
			if a.hi == nil || q.Cmp(a.hi) < 0 {
				if a.touched {
					p.addFact(fmt.Sprintf("(<= i%d %s)", t.a, smtInt(q)))
				}
				a.hi = q
			}
		} else {
			// a >= ceil(c/(-k))
			nk := new(big.Int).Neg(t.k)
			q := ceilDiv(l.c, nk)
			if a.lo == nil || q.Cmp(a.lo) > 0 {
				if a.touched {
					p.addFact(fmt.Sprintf("(<= %s i%d)", smtInt(q), t.a))
				}
				a.lo = q
			}
		}
		if a.lo != nil && a.hi != nil {
			switch a.lo.Cmp(a.hi) {
			case 0:
				p.ibind[t.a] = cB(a.lo)
			case 1:
				p.kill("empty range")
			}
		}
		return
	}
	if p.known[l.neg().key()] {
		p.assumeEq0(l)
		return
	}
	p.touch(l)
	p.addFact("(<= " + l.smt() + " 0)")
	if lo != nil && lo.Sign() == 0 {
		p.boundsEq(l)
	}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean
	_ = m
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, bi1)
	}
	return q
}

func (p *Path) refineByte(l Lin, f func(v *big.Int) bool) {
	t := l.t[0]
	cs := p.bcs[t.a]
	var out CS
	for _, b := range cs.list() {
		v := new(big.Int).Mul(t.k, big.NewInt(int64(b)))
		v.Add(v, l.c)
		if f(v) {
			out.add(b)
		}
	}
	p.setByteCS(t.a, out)
}

// byteSplit says whether f holds for some / fails for some value of the single byte atom.
func (p *Path) byteSplit(l Lin, f func(v *big.Int) bool) (yes, no bool) {
	t := l.t[0]
	for _, b := range p.bcs[t.a].list() {
		v := new(big.Int).Mul(t.k, big.NewInt(int64(b)))
		v.Add(v, l.c)
		if f(v) {
			yes = true
		} else {
			no = true
		}
	}
	return
}

// quickLe: 1 true, 0 false, -1 unknown, without solver.
func (p *Path) quickLe(l Lin) int {
	if l.isConst() {
		if l.c.Sign() <= 0 {
			return 1
		}
		return 0
	}
	lo, hi := p.bounds(l)
	if hi != nil && hi.Sign() <= 0 {
		return 1
	}
	if lo != nil && lo.Sign() > 0 {
		return 0
	}
	if p.known[l.key()] {
		return 1
	}
	if p.known[l.neg().addc(1).key()] {
		return 0
	}
	return -1
}

// decideLe decides l <= 0, forking if both outcomes are possible.
func (p *Path) decideLe(l Lin) bool {
	p.sync()
	l = p.norm(l)
	if q := p.quickLe(l); q >= 0 {
		return q == 1
	}
	if h, r := p.viaTable(l, func(v *big.Int) bool { return v.Sign() <= 0 }); h {
		return r
	}
	nl := l.neg().addc(1) // 1-l <= 0
	r := p.branch(2, func(i int) bool {
		if len(l.t) == 1 && p.iat[l.t[0].a].isByte {
			y, n := p.byteSplit(l, func(v *big.Int) bool { return v.Sign() <= 0 })
			if i == 0 && !y || i == 1 && !n {
				return false
			}
			if !p.iat[l.t[0].a].touched {
				return true
			}
		}
		p.touch(l)
		if i == 0 {
			return p.feasible("(<= " + l.smt() + " 0)")
		}
		return p.feasible("(<= " + nl.smt() + " 0)")
	})
	p.touchReplay(l)
	if r == 0 {
		p.assumeLe0(l)
		return true
	}
	p.assumeLe0(nl)
	return false
}

// touchReplay keeps the facts list identical between first run and replay.
func (p *Path) touchReplay(l Lin) {
	if len(l.t) == 1 && p.iat[l.t[0].a].isByte {
		return
	}
	p.touch(l)
}

func (p *Path) quickEq(l Lin) int {
	if l.isConst() {
		if l.c.Sign() == 0 {
			return 1
		}
		return 0
	}
	lo, hi := p.bounds(l)
	if hi != nil && hi.Sign() < 0 || lo != nil && lo.Sign() > 0 {
		return 0
	}
	if len(l.t) == 1 {
		if new(big.Int).Rem(l.c, l.t[0].k).Sign() != 0 {
			return 0
		}
		if p.iat[l.t[0].a].isByte {
			y, _ := p.byteSplit(l, func(v *big.Int) bool { return v.Sign() == 0 })
			if !y {
				return 0
			}
		}
	}
	if len(l.t) == 2 && l.c.Sign() == 0 && p.iat[l.t[0].a].isByte && p.iat[l.t[1].a].isByte &&
		l.t[0].k.Cmp(new(big.Int).Neg(l.t[1].k)) == 0 {
		if p.bcs[l.t[0].a].and(p.bcs[l.t[1].a]).empty() {
			return 0
		}
	}
	if p.known["ne:"+l.key()] || p.known["ne:"+l.neg().key()] {
		return 0
	}
	if p.known[l.neg().addc(1).key()] || p.known[l.addc(1).key()] {
		return 0
	}
	return -1
}

// decideEq decides l == 0.
func (p *Path) decideEq(l Lin) bool {
	p.sync()
	l = p.norm(l)
	if q := p.quickEq(l); q >= 0 {
		return q == 1
	}
	if h, r := p.viaTable(l, func(v *big.Int) bool { return v.Sign() == 0 }); h {
		return r
	}
	r := p.branch(2, func(i int) bool {
		if len(l.t) == 1 && p.iat[l.t[0].a].isByte {
			y, n := p.byteSplit(l, func(v *big.Int) bool { return v.Sign() == 0 })
			if i == 0 && !y || i == 1 && !n {
				return false
			}
			if !p.iat[l.t[0].a].touched {
				return true
			}
		}
		if len(l.t) == 2 && !p.iat[l.t[0].a].touched && !p.iat[l.t[1].a].touched && p.iat[l.t[0].a].isByte && p.iat[l.t[1].a].isByte && l.c.Sign() == 0 {
			return true
		}
		p.touch(l)
		if i == 0 {
			return p.feasible("(= " + l.smt() + " 0)")
		}
		return p.feasible("(not (= " + l.smt() + " 0))")
	})
	if r == 0 {
		p.assumeEq0(l)
		return true
	}
	p.assumeNe0(l)
	return false
}

func (p *Path) assumeNe0(l Lin) {
	l = p.norm(l)
	if l.isConst() {
		if l.c.Sign() == 0 {
			p.kill("ne false")
		}
		return
	}
	p.version++
	if len(l.t) == 1 && p.iat[l.t[0].a].isByte {
		p.refineByte(l, func(v *big.Int) bool { return v.Sign() != 0 })
		return
	}
	lo, hi := p.bounds(l)
	if lo != nil && lo.Sign() == 0 {
		p.assumeLe0(l.neg().addc(1))
		return
	}
	if hi != nil && hi.Sign() == 0 {
		p.assumeLe0(l.addc(1))
		return
	}
	p.known["ne:"+l.key()] = true
	p.touch(l)
	p.addFact("(not (= " + l.smt() + " 0))")
}

func (p *Path) decideCmp(op string, x, y Lin) bool {
	d := x.sub(y)
	switch op {
	case "<=":
		return p.decideLe(d)
	case "<":
		return p.decideLe(d.addc(1))
	case ">=":
		return p.decideLe(d.neg())
	case ">":
		return p.decideLe(d.neg().addc(1))
	case "==":
		return p.decideEq(d)
	case "!=":
		return !p.decideEq(d)
	}
	panic("op " + op)
}

// record computes a value once at the frontier and replays it afterwards.
func (p *Path) record(f func() int) int {
	if p.pos < len(p.trace) {
		d := p.trace[p.pos]
		p.pos++
		return d.alts[d.cur]
	}
	v := f()
	p.trace = append(p.trace, Dec{alts: []int{v}})
	p.pos++
	return v
}

// provesLe reports whether l <= 0 certainly holds (no fork, nothing assumed).
func (p *Path) provesLe(l Lin) bool {
	l = p.norm(l)
	if q := p.quickLe(l); q >= 0 {
		return q == 1
	}
	nl := l.neg().addc(1)
	r := p.record(func() int {
		p.touch(l)
		if p.sat3("(assert (<= "+nl.smt()+" 0))") == "unsat" {
			return 1
		}
		return 0
	})
	p.touch(l)
	return r == 1
}

func (p *Path) provesEq(l Lin) bool {
	l = p.norm(l)
	if l.isConst() {
		return l.c.Sign() == 0
	}
	return p.provesLe(l) && p.provesLe(l.neg())
}

func (p *Path) isByteLin(l Lin) (AtomID, bool) {
	l = p.norm(l)
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].k.Cmp(bi1) == 0 && p.iat[l.t[0].a].isByte {
		return l.t[0].a, true
	}
	return 0, false
}

// byteSet returns the possible values of a byte-valued expression.
func (p *Path) byteSet(l Lin) CS {
	l = p.norm(l)
	if l.isConst() {
		var s CS
		s.add(byte(l.cint()))
		return s
	}
	if a, ok := p.isByteLin(l); ok {
		cs := p.bcs[a]
		if t, ok := p.tbls[a]; ok && p.iat[t.base].isByte {
			if _, bound := p.ibind[t.base]; !bound {
				var im CS
				for _, c := range p.bcs[t.base].list() {
					if v := t.t[c]; v != nil && v.IsInt64() && v.Int64() >= 0 && v.Int64() < 256 {
						im.add(byte(v.Int64()))
					}
				}
				cs = cs.and(im)
			}
		}
		return cs
	}
	return csAll
}

// decideIn decides whether byte expression l is in cs.
func (p *Path) decideIn(l Lin, cs CS) bool {
	l = p.norm(l)
	bs := p.byteSet(l)
	if bs.subset(cs) {
		return true
	}
	if bs.and(cs).empty() {
		return false
	}
	if h, r := p.viaTable(l, func(v *big.Int) bool {
		return v.IsInt64() && v.Int64() >= 0 && v.Int64() < 256 && cs.has(byte(v.Int64()))
	}); h {
		return r
	}
	a, ok := p.isByteLin(l)
	if !ok {
		// not a plain byte: introduce one
		nb := p.newByte("b", csAll)
		p.assumeEq0(nb.sub(l))
		l = p.norm(nb)
		a, ok = p.isByteLin(l)
		if !ok {
			return p.decideByRange(l, cs)
		}
	}
	r := p.branch(2, func(i int) bool {
		if !p.iat[a].touched {
			return true
		}
		if i == 0 {
			return p.feasible(csFact(a, p.bcs[a].and(cs)))
		}
		return p.feasible(csFact(a, p.bcs[a].minus(cs)))
	})
	if r == 0 {
		p.setByteCS(a, p.bcs[a].and(cs))
		return true
	}
	p.setByteCS(a, p.bcs[a].minus(cs))
	return false
}

func (p *Path) decideByRange(l Lin, cs CS) bool {
	for _, r := range cs.ranges() {
		if p.decideLe(cI(int64(r[0])).sub(l)) && p.decideLe(l.sub(cI(int64(r[1])))) {
			return true
		}
	}
	return false
}
