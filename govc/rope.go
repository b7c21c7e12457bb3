package main

import (
	"fmt"
	"math/big"
	"strings"
)

type pk uint8

const (
	pLit pk = iota
	pVar
	pByte
	pHom // h(arg)
)

type Piece struct {
	k   pk
	lit string
	v   SAtomID
	b   Lin
	h   *Hom
	arg Rope // single piece (pVar or pByte) after normalisation
}

type Rope []Piece

// Hom is a byte-to-string homomorphism given by its image table.
type Hom struct {
	name         string
	img          [256]string
	id           CS // bytes mapped to themselves
	min          int
	max          int
	outer, inner *Hom // composition with a length-preserving inner map
}

func newHom(name string, img [256]string) *Hom {
	h := &Hom{name: name, img: img, min: 1 << 30}
	for i := 0; i < 256; i++ {
		if img[i] == string([]byte{byte(i)}) {
			h.id.add(byte(i))
		}
		if len(img[i]) < h.min {
			h.min = len(img[i])
		}
		if len(img[i]) > h.max {
			h.max = len(img[i])
		}
	}
	return h
}

func (h *Hom) imageSet(cs CS) CS {
	out := cs.and(h.id)
	for _, b := range cs.minus(h.id).list() {
		out = out.or(csOf(h.img[b]))
	}
	return out
}

func litR(s string) Rope {
	if s == "" {
		return nil
	}
	return Rope{{k: pLit, lit: s}}
}
func byteR(b Lin) Rope {
	if b.isConst() {
		return litR(string([]byte{byte(b.cint())}))
	}
	return Rope{{k: pByte, b: b}}
}

var maxLen = new(big.Int).Lsh(bi1, 46)

func (p *Path) newStr(name string, cs CS) *SAtom {
	a := &SAtom{id: SAtomID(len(p.sat)), name: name}
	a.len = p.newInt("len("+name+")", bi0, maxLen)
	p.sat = append(p.sat, a)
	p.scs[a.id] = cs
	if cs.empty() {
		p.sbind[a.id] = nil
		p.assumeEq0(p.norm(a.len))
	}
	return a
}
func (p *Path) newStrLen(name string, cs CS, l Lin) *SAtom {
	a := &SAtom{id: SAtomID(len(p.sat)), name: name, len: l}
	p.sat = append(p.sat, a)
	p.scs[a.id] = cs
	if cs.empty() {
		p.sbind[a.id] = nil
		p.assumeEq0(p.norm(a.len))
	}
	return a
}
func varR(a *SAtom) Rope { return Rope{{k: pVar, v: a.id}} }

func cat(rs ...Rope) Rope {
	var out Rope
	for _, r := range rs {
		for _, q := range r {
			out = appendPiece(out, q)
		}
	}
	return out
}

func appendPiece(out Rope, q Piece) Rope {
	if q.k == pByte && q.b.isConst() {
		q = Piece{k: pLit, lit: string([]byte{byte(q.b.cint())})}
	}
	if q.k == pLit {
		if q.lit == "" {
			return out
		}
		if n := len(out); n > 0 && out[n-1].k == pLit {
			no := make(Rope, n, n+4)
			copy(no, out)
			no[n-1] = Piece{k: pLit, lit: out[n-1].lit + q.lit}
			return no
		}
	}
	return append(out[:len(out):len(out)], q)
}

func pieceKey(q Piece) string {
	switch q.k {
	case pLit:
		return fmt.Sprintf("%q", q.lit)
	case pVar:
		return fmt.Sprintf("s%d", q.v)
	case pByte:
		return "b(" + q.b.key() + ")"
	case pHom:
		return q.h.name + "(" + ropeKey(q.arg) + ")"
	}
	return "?"
}
func ropeKey(r Rope) string {
	var sb strings.Builder
	for _, q := range r {
		sb.WriteString(pieceKey(q))
		sb.WriteByte('.')
	}
	return sb.String()
}

func pieceEq(a, b Piece) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case pLit:
		return a.lit == b.lit
	case pVar:
		return a.v == b.v
	case pByte:
		return a.b.eq(b.b)
	case pHom:
		return a.h == b.h && ropeEqS(a.arg, b.arg)
	}
	return false
}
func ropeEqS(a, b Rope) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !pieceEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (p *Path) homLenBounds(h *Hom, v SAtomID) {}

// normR substitutes and flattens.
func (p *Path) normR(r Rope) Rope {
	var out Rope
	for _, q := range r {
		switch q.k {
		case pLit:
			out = appendPiece(out, q)
		case pByte:
			out = appendPiece(out, Piece{k: pByte, b: p.norm(q.b)})
		case pVar:
			if s, ok := p.sbind[q.v]; ok {
				for _, x := range p.normR(s) {
					out = appendPiece(out, x)
				}
				continue
			}
			l := p.norm(p.sat[q.v].len)
			if l.isZero() {
				continue
			}
			out = append(out[:len(out):len(out)], q)
		case pHom:
			for _, x := range p.homR(q.h, p.normR(q.arg)) {
				out = appendPiece(out, x)
			}
		}
	}
	return out
}

// homR applies a homomorphism to a normalised rope.
func (p *Path) homR(h *Hom, r Rope) Rope {
	var out Rope
	for _, q := range r {
		switch q.k {
		case pLit:
			var sb strings.Builder
			for i := 0; i < len(q.lit); i++ {
				sb.WriteString(h.img[q.lit[i]])
			}
			out = appendPiece(out, Piece{k: pLit, lit: sb.String()})
		case pByte:
			if p.byteSet(q.b).subset(h.id) {
				out = appendPiece(out, q)
			} else if h.min == 1 && h.max == 1 {
				for _, x := range p.resolveImage(h, q.b) {
					out = appendPiece(out, x)
				}
			} else if h.outer != nil {
				for _, x := range p.homR(h.outer, p.resolveImage(h.inner, q.b)) {
					out = appendPiece(out, x)
				}
			} else {
				out = append(out[:len(out):len(out)], Piece{k: pHom, h: h, arg: Rope{q}})
			}
		case pVar:
			if p.scs[q.v].subset(h.id) {
				out = appendPiece(out, q)
			} else {
				out = append(out[:len(out):len(out)], Piece{k: pHom, h: h, arg: Rope{q}})
			}
		case pHom:
			if p.csOfPiece(q).subset(h.id) {
				out = appendPiece(out, q)
			} else {
				// composition
				c := p.u.eng.compose(h, q.h)
				for _, x := range p.homR(c, q.arg) {
					out = appendPiece(out, x)
				}
			}
		}
	}
	return out
}

func (p *Path) csOfPiece(q Piece) CS {
	switch q.k {
	case pLit:
		return csOf(q.lit)
	case pByte:
		return p.byteSet(q.b)
	case pVar:
		return p.scs[q.v]
	case pHom:
		return q.h.imageSet(p.csOfPiece(q.arg[0]))
	}
	return csAll
}
func (p *Path) csOfRope(r Rope) CS {
	var c CS
	for _, q := range r {
		c = c.or(p.csOfPiece(q))
	}
	return c
}

func (p *Path) pieceLen(q Piece) Lin {
	switch q.k {
	case pLit:
		return cI(int64(len(q.lit)))
	case pByte:
		return cI(1)
	case pVar:
		return p.norm(p.sat[q.v].len)
	case pHom:
		a := q.arg[0]
		if q.h.min == q.h.max {
			return p.pieceLen(a).mulc(big.NewInt(int64(q.h.min)))
		}
		k := "len:" + pieceKey(q)
		if id, ok := p.memoI[k]; ok {
			return p.norm(linAtom(id))
		}
		if a.k == pByte {
			set := p.byteSet(a.b)
			mn, mx := 1<<30, 0
			for _, b := range set.list() {
				n := len(q.h.img[b])
				if n < mn {
					mn = n
				}
				if n > mx {
					mx = n
				}
			}
			l := p.newInt(k, big.NewInt(int64(mn)), big.NewInt(int64(mx)))
			p.memoI[k] = l.t[0].a
			p.homLens = append(p.homLens, homLen{q, l.t[0].a})
			return l
		}
		l := p.newInt(k, bi0, new(big.Int).Mul(maxLen, big.NewInt(8)))
		p.memoI[k] = l.t[0].a
		p.homLens = append(p.homLens, homLen{q, l.t[0].a})
		al := p.pieceLen(a)
		cs := p.csOfPiece(a)
		mn, mx := 1<<30, 0
		for _, b := range cs.list() {
			n := len(q.h.img[b])
			if n < mn {
				mn = n
			}
			if n > mx {
				mx = n
			}
		}
		if mn > 0 {
			p.assumeLe0(al.mulc(big.NewInt(int64(mn))).sub(l))
		}
		p.assumeLe0(l.sub(al.mulc(big.NewInt(int64(mx)))))
		return p.norm(l)
	}
	panic("pieceLen")
}

// homLen remembers the atom standing for the length of h(arg), so that the
// atom can be related to the new form once arg is refined.
type homLen struct {
	q Piece
	a AtomID
}

// sync relates length atoms of homomorphic images whose argument was refined
// since they were introduced.
func (p *Path) sync() {
	if p.syncing || p.syncV == p.version || len(p.homLens)+len(p.decs) == 0 {
		return
	}
	p.syncing = true
	for p.syncV != p.version {
		p.syncV = p.version
		old := p.homLens
		p.homLens = nil
		for _, x := range old {
			n := p.homR(x.q.h, p.normR(x.q.arg))
			if len(n) == 1 && pieceEq(n[0], x.q) {
				p.homLens = append(p.homLens, x)
				continue
			}
			p.assumeEq0(p.lenR(n).sub(linAtom(x.a)))
		}
		for i := 0; i < len(p.decs); i++ {
			x := p.decs[i]
			n := p.normR(x.r)
			if ropeEqS(n, x.r) {
				continue
			}
			p.decs = append(p.decs[:i:i], p.decs[i+1:]...)
			i--
			p.assumeEq0(p.decVal(n).sub(x.a))
		}
	}
	p.syncing = false
}

func (p *Path) lenR(r Rope) Lin {
	p.sync()
	r = p.normR(r)
	s := cI(0)
	for _, q := range r {
		s = s.add(p.pieceLen(q))
	}
	return p.norm(s)
}

// bindStr substitutes atom by rope; lengths are equated.
func (p *Path) bindStr(v SAtomID, r Rope) {
	if DEBUG > 3 {
		fmt.Printf("   bind s%d(%s) := %s\n", v, p.sat[v].name, p.show(r))
	}
	cs := p.scs[v]
	r = p.normR(r)
	p.restrictRope(r, cs)
	r = p.normR(r)
	p.version++
	l := p.sat[v].len
	nl := p.lenR(r)
	no, di := p.noocc[v], p.sdis[v]
	p.sbind[v] = r
	p.version++
	p.assumeEq0(p.norm(l.sub(nl)))
	for _, pat := range no {
		p.spreadNoOcc(r, pat)
	}
	p.addNeg(r, p.npre[v], false)
	p.addNeg(r, p.nsuf[v], true)
	for _, d := range di {
		if len(r) == 0 && d == "" || len(r) == 1 && r[0].k == pLit && r[0].lit == d {
			p.kill("disequality")
		}
		if len(r) == 1 && r[0].k == pVar {
			p.sdis[r[0].v] = append(p.sdis[r[0].v][:len(p.sdis[r[0].v]):len(p.sdis[r[0].v])], d)
		}
	}
}

// negFact: r does not start (end, if suf) with pat.
type negFact struct {
	r   Rope
	pat string
	suf bool
}

func (p *Path) addNeg(r Rope, pats []string, suf bool) {
	for _, pat := range pats {
		n := negFact{r, pat, suf}
		p.checkNeg(n)
		if len(r) == 1 && r[0].k == pVar {
			m := &p.npre
			if suf {
				m = &p.nsuf
			}
			if *m == nil {
				*m = map[SAtomID][]string{}
			}
			(*m)[r[0].v] = append((*m)[r[0].v][:len((*m)[r[0].v]):len((*m)[r[0].v])], pat)
			continue
		}
		p.negs = append(p.negs, n)
	}
}

func (p *Path) checkNeg(n negFact) {
	r := p.normR(n.r)
	if len(r) == 0 {
		return
	}
	if q := r[0]; !n.suf && q.k == pLit && strings.HasPrefix(q.lit, n.pat) {
		p.kill("prefix")
	}
	if q := r[len(r)-1]; n.suf && q.k == pLit && strings.HasSuffix(q.lit, n.pat) {
		p.kill("suffix")
	}
	if len(n.pat) == 1 {
		q := r[0]
		if n.suf {
			q = r[len(r)-1]
		}
		if q.k == pVar && p.csOfPiece(q).subset(csOf(n.pat)) {
			// a text of nothing but this byte: empty
			p.assumeLe0(p.pieceLen(q))
		}
	}
}

// checkNoOcc kills the path if a string known not to contain a pattern does.
func (p *Path) checkNoOcc() {
	for _, x := range p.noR {
		for _, q := range p.normR(x.r) {
			if q.k == pLit && strings.Contains(q.lit, x.pat) {
				p.kill("noocc")
			}
		}
	}
	for _, n := range p.negs {
		p.checkNeg(n)
	}
	p.checkOrder()
}

// checkOrder kills the path if strings known to differ are the same, or are ordered otherwise.
func (p *Path) checkOrder() {
	for _, x := range p.sneR {
		if ropeKey(p.normR(x[0])) == ropeKey(p.normR(x[1])) {
			p.kill("disequality")
		}
	}
	for _, x := range p.sord {
		a, ok1 := p.constStr(x[0])
		b, ok2 := p.constStr(x[1])
		if ok1 && ok2 && a >= b {
			p.kill("order")
		}
	}
}

// strLess decides a < b. Strings are only known to be totally ordered, unless both are constant.
func (p *Path) strLess(a, b Rope) bool {
	a, b = p.normR(a), p.normR(b)
	if x, ok := p.constStr(a); ok {
		if y, ok := p.constStr(b); ok {
			return x < y
		}
	}
	if p.eqR(a, b) {
		return false
	}
	a, b = p.normR(a), p.normR(b)
	if len(a) == 0 || len(b) == 0 {
		return len(a) == 0
	}
	// reachability over what is known
	reach := func(x, y Rope) bool {
		seen := map[string]bool{}
		todo := []string{ropeKey(x)}
		for len(todo) > 0 {
			k := todo[0]
			todo = todo[1:]
			if k == ropeKey(y) {
				return true
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			for _, o := range p.sord {
				if ropeKey(p.normR(o[0])) == k {
					todo = append(todo, ropeKey(p.normR(o[1])))
				}
			}
		}
		return false
	}
	if reach(a, b) {
		return true
	}
	if reach(b, a) {
		return false
	}
	p.note("strings are only known to be totally ordered")
	if p.branch(2, nil) == 0 {
		p.sord = append(p.sord, [2]Rope{a, b})
		return true
	}
	p.sord = append(p.sord, [2]Rope{b, a})
	return false
}

type noOccR struct {
	r   Rope
	pat string
}

func (p *Path) spreadNoOcc(r Rope, pat string) {
	if len(pat) > 1 && len(r) > 1 {
		p.noR = append(p.noR, noOccR{r, pat})
	}
	for _, q := range r {
		switch q.k {
		case pLit:
			if strings.Contains(q.lit, pat) {
				p.kill("noocc")
			}
		case pVar:
			p.addNoOcc(q.v, pat)
		}
	}
}

func (p *Path) addNoOcc(v SAtomID, pat string) {
	if len(pat) == 1 {
		p.setStrCS(v, p.scs[v].minus(csOf(pat)))
		return
	}
	for _, x := range p.noocc[v] {
		if x == pat {
			return
		}
	}
	p.version++
	p.noocc[v] = append(p.noocc[v][:len(p.noocc[v]):len(p.noocc[v])], pat)
}

func (p *Path) setStrCS(v SAtomID, cs CS) {
	if p.scs[v] == cs {
		return
	}
	p.version++
	p.scs[v] = cs
	if cs.empty() {
		p.sbind[v] = nil
		p.assumeEq0(p.norm(p.sat[v].len))
	}
	for _, m := range []map[SAtomID][]string{p.npre, p.nsuf} {
		for _, pat := range m[v] {
			if len(pat) == 1 && cs.subset(csOf(pat)) && !cs.empty() {
				p.assumeLe0(p.norm(p.sat[v].len))
			}
		}
	}
}

// restrictRope assumes every byte of r is in cs.
func (p *Path) restrictRope(r Rope, cs CS) {
	if cs == csAll {
		return
	}
	for _, q := range p.normR(r) {
		switch q.k {
		case pLit:
			if !csOf(q.lit).subset(cs) {
				p.kill("charset")
			}
		case pByte:
			if a, ok := p.isByteLin(q.b); ok {
				p.setByteCS(a, p.bcs[a].and(cs))
			}
		case pVar:
			p.setStrCS(q.v, p.scs[q.v].and(cs))
		case pHom:
			p.restrictRope(q.arg, q.h.preimage(cs))
		}
	}
}

// preimage: bytes whose whole image lies in cs.
func (h *Hom) preimage(cs CS) CS {
	var o CS
	for i := 0; i < 256; i++ {
		if csOf(h.img[i]).subset(cs) {
			o.add(byte(i))
		}
	}
	return o
}

// ropeIn decides whether all bytes of r are in cs. The false outcome
// records nothing beyond the decomposition of the first offending piece.
func (p *Path) ropeIn(r Rope, cs CS) bool {
	i, _, _ := p.findSet(r, cs.not())
	return !i
}

// findSet finds the first byte of r that is in cs. Returns found, prefix, rest
// (rest starts with that byte). Forks as needed and decomposes atoms.
func (p *Path) findSet(r Rope, cs CS) (bool, Rope, Rope) {
	r = p.normR(r)
	var pre Rope
	for i := 0; i < len(r); i++ {
		q := r[i]
		pcs := p.csOfPiece(q)
		if pcs.and(cs).empty() {
			pre = appendPiece(pre, q)
			continue
		}
		switch q.k {
		case pLit:
			for j := 0; j < len(q.lit); j++ {
				if cs.has(q.lit[j]) {
					return true, cat(pre, litR(q.lit[:j])), cat(litR(q.lit[j:]), r[i+1:])
				}
			}
			panic("unreachable")
		case pByte:
			if p.decideIn(q.b, cs) {
				return true, pre, p.normR(r[i:])
			}
			pre = appendPiece(pre, Piece{k: pByte, b: p.norm(q.b)})
		case pVar:
			// fork: none / some
			if p.branch(2, func(a int) bool {
				if a == 0 { // some: length >= 1
					l := p.pieceLen(q)
					return p.feasibleLe(cI(1).sub(l))
				}
				if pcs.minus(cs).empty() {
					l := p.pieceLen(q)
					return p.feasibleLe(l)
				}
				return true
			}) == 1 {
				p.setStrCS(q.v, pcs.minus(cs))
				pre = cat(pre, p.normR(Rope{q}))
				continue
			}
			a := p.newStr(p.sat[q.v].name+"<", pcs.minus(cs))
			b := p.newByte(p.sat[q.v].name+"@", pcs.and(cs))
			c := p.newStr(p.sat[q.v].name+">", pcs)
			p.bindStr(q.v, cat(varR(a), byteR(p.norm(b)), varR(c)))
			return true, cat(pre, p.normR(varR(a))), p.normR(cat(byteR(p.norm(b)), varR(c), r[i+1:]))
		case pHom:
			arg := q.arg[0]
			// argument bytes whose image meets cs
			var hit CS
			acs := p.csOfPiece(arg)
			for _, b := range acs.list() {
				if !csOf(q.h.img[b]).and(cs).empty() {
					hit.add(b)
				}
			}
			f, apre, arest := p.findSet(q.arg, hit)
			if !f {
				pre = cat(pre, p.homR(q.h, p.normR(apre)))
				continue
			}
			// arest starts with a byte in hit
			hb := arest[0]
			var img Rope
			if hb.k == pLit {
				img = litR(q.h.img[hb.lit[0]])
				arest = cat(litR(hb.lit[1:]), arest[1:])
			} else {
				// resolve which image: group by image string
				img = p.resolveImage(q.h, hb.b)
				arest = arest[1:]
			}
			pre = cat(pre, p.homR(q.h, p.normR(apre)))
			rest := cat(img, p.homR(q.h, p.normR(arest)), r[i+1:])
			f2, pre2, rest2 := p.findSetIn(img, cs)
			_ = rest
			if !f2 {
				panic("image must contain")
			}
			return true, cat(pre, pre2), cat(rest2, p.homR(q.h, p.normR(arest)), r[i+1:])
		}
	}
	return false, pre, nil
}

func (p *Path) findSetIn(r Rope, cs CS) (bool, Rope, Rope) { return p.findSet(r, cs) }

// resolveImage returns h(byte) for a symbolic byte; identity bytes stay
// symbolic, the others are resolved by forking over distinct images.
func (p *Path) resolveImage(h *Hom, b Lin) Rope {
	b = p.norm(b)
	if b.isConst() {
		return litR(h.img[byte(b.cint())])
	}
	set := p.byteSet(b)
	if set.subset(h.id) {
		return byteR(b)
	}
	idp := set.and(h.id)
	if h.min == 1 && h.max == 1 && len(b.t) == 1 {
		idp = CS{}
	}
	if !idp.empty() {
		if p.decideIn(b, h.id) {
			return byteR(p.norm(b))
		}
		set = set.minus(h.id)
	}
	if h.min == 1 && h.max == 1 && len(b.t) == 1 {
		e := &Exec{p: p}
		if base, t, ok := e.tblOf(b); ok {
			return byteR(e.tblMap(base, t, func(v *big.Int) *big.Int {
				if !v.IsInt64() || v.Int64() < 0 || v.Int64() > 255 {
					return v
				}
				return big.NewInt(int64(h.img[byte(v.Int64())][0]))
			}))
		}
	}
	groups := map[string]CS{}
	for _, c := range set.list() {
		g := groups[h.img[c]]
		g.add(c)
		groups[h.img[c]] = g
	}
	ks := sortedKeys(groups)
	for i, k := range ks {
		if i == len(ks)-1 || p.decideIn(b, groups[k]) {
			return litR(k)
		}
	}
	panic("unreachable")
}

func (p *Path) feasibleLe(l Lin) bool {
	l = p.norm(l)
	if q := p.quickLe(l); q >= 0 {
		return q == 1
	}
	p.touch(l)
	return p.feasible("(<= " + l.smt() + " 0)")
}

// cut splits r at offset off (0 <= off <= len(r) must hold on this path).
func (p *Path) cut(r Rope, off Lin) (Rope, Rope) {
	r = p.normR(r)
	off = p.norm(off)
	var left Rope
	for i := 0; i < len(r); i++ {
		if off.isZero() {
			return left, r[i:]
		}
		q := r[i]
		l := p.pieceLen(q)
		d := p.norm(l.sub(off)) // remaining after off
		if d.isConst() && d.c.Sign() <= 0 {
			left = appendPiece(left, q)
			off = p.norm(off.sub(l))
			continue
		}
		if q.k == pLit && off.isConst() {
			n := off.cint()
			if n < 0 {
				p.kill("negative cut")
			}
			if n <= int64(len(q.lit)) {
				return cat(left, litR(q.lit[:n])), cat(litR(q.lit[n:]), r[i+1:])
			}
		}
		if q.k == pVar && !(l.isConst() && off.isConst()) && p.quickLe(l.sub(off)) < 0 && p.provesLe(off.sub(l)) && p.provesLe(off.neg()) {
			// 0 <= off <= len: split without asking whether a part is empty
			if p.provesLe(l.sub(off)) {
				p.assumeEq0(p.norm(l.sub(off)))
				return p.normR(appendPiece(left, q)), p.normR(r[i+1:])
			}
			if nq := p.normR(Rope{q}); len(nq) == 1 && nq[0].k == pVar {
				nm := p.sat[q.v].name
				a := p.newStrLen(nm+"l", p.scs[q.v], off)
				b := p.newStrLen(nm+"r", p.scs[q.v], p.norm(l.sub(off)))
				p.bindStr(q.v, cat(varR(a), varR(b)))
				return p.normR(cat(left, varR(a))), p.normR(cat(varR(b), r[i+1:]))
			}
		}
		if q.k == pLit && !off.isConst() && len(q.lit) > 2 && uniform(q.lit) && p.provesLe(off.sub(l)) && p.provesLe(off.neg()) {
			// a run of one byte is cut without asking where
			var cs CS
			cs.add(q.lit[0])
			a := p.newStrLen("run", cs, off)
			b := p.newStrLen("run", cs, p.norm(l.sub(off)))
			return p.normR(cat(left, varR(a))), p.normR(cat(varR(b), r[i+1:]))
		}
		// off >= l ?
		if p.decideLe(l.sub(off)) {
			left = appendPiece(left, q)
			off = p.norm(off.sub(l))
			r = p.normRKeep(r, i)
			continue
		}
		// off < l
		if p.decideZero(off) { // off <= 0, i.e. == 0
			return left, p.normR(r[i:])
		}
		off = p.norm(off)
		q = r[i]
		switch q.k {
		case pLit:
			// 0 < off < len(lit), symbolic: enumerate
			if off.isConst() {
				n := off.cint()
				return cat(left, litR(q.lit[:n])), cat(litR(q.lit[n:]), r[i+1:])
			}
			for n := 1; n < len(q.lit); n++ {
				if n == len(q.lit)-1 || p.decideEq(off.addc(int64(-n))) {
					if n == len(q.lit)-1 {
						p.assumeEq0(off.addc(int64(-n)))
					}
					return p.normR(cat(left, litR(q.lit[:n]))), p.normR(cat(litR(q.lit[n:]), r[i+1:]))
				}
			}
			p.kill("cut in literal")
		case pByte:
			p.kill("cut in byte")
		case pVar:
			nq := p.normR(Rope{q})
			if len(nq) != 1 || nq[0].k != pVar {
				a, b := p.cut(cat(nq, r[i+1:]), off)
				return cat(left, a), b
			}
			nm := p.sat[q.v].name
			a := p.newStrLen(nm+"l", p.scs[q.v], off)
			b := p.newStrLen(nm+"r", p.scs[q.v], p.norm(p.pieceLen(q).sub(off)))
			p.bindStr(q.v, cat(varR(a), varR(b)))
			return p.normR(cat(left, varR(a))), p.normR(cat(varR(b), r[i+1:]))
		case pHom:
			// image cut at unknown position: lose the relation (sound)
			if q.arg[0].k == pByte {
				img := p.resolveImage(q.h, q.arg[0].b)
				a, b := p.cut(cat(img, r[i+1:]), off)
				return cat(left, a), b
			}
			if q.h.min == 1 && q.h.max == 1 {
				a, b := p.cut(q.arg, off)
				return p.normR(cat(left, p.homR(q.h, a))), p.normR(cat(p.homR(q.h, b), r[i+1:]))
			}
			p.note("cut inside " + pieceKey(q))
			cs := p.csOfPiece(q)
			a := p.newStrLen("cutl", cs, off)
			b := p.newStrLen("cutr", cs, p.norm(p.pieceLen(q).sub(off)))
			return p.normR(cat(left, varR(a))), p.normR(cat(varR(b), r[i+1:]))
		}
	}
	if DEBUG > 0 && !off.isZero() && !p.provesEq(off) {
		p.note("cut beyond end: " + off.key())
	}
	return left, nil
}

func (p *Path) normRKeep(r Rope, i int) Rope { return r }

func (p *Path) note(s string) { p.imprecise = append(p.imprecise, s) }

func (p *Path) sub(r Rope, lo, hi Lin) Rope {
	_, t := p.cut(r, lo)
	a, _ := p.cut(t, p.norm(hi.sub(lo)))
	return p.normR(a)
}

// at returns the byte at offset off (bounds already established).
func (p *Path) at(r Rope, off Lin) Lin {
	_, t := p.cut(r, off)
	b, _, ok := p.uncons(t)
	if !ok {
		p.kill("read past end")
	}
	return b
}

// uncons splits off the first byte; ok=false if the rope is empty.
func (p *Path) uncons(r Rope) (Lin, Rope, bool) {
	for {
		r = p.normR(r)
		if len(r) == 0 {
			return Lin{}, nil, false
		}
		q := r[0]
		switch q.k {
		case pLit:
			return cI(int64(q.lit[0])), cat(litR(q.lit[1:]), r[1:]), true
		case pByte:
			return p.norm(q.b), r[1:], true
		case pVar:
			l := p.pieceLen(q)
			if p.decideZero(l) { // empty
				continue
			}
			nm := p.sat[q.v].name
			b := p.newByte(nm+"0", p.scs[q.v])
			c := p.newStrLen(nm+"'", p.scs[q.v], p.norm(l.addc(-1)))
			p.bindStr(q.v, cat(byteR(p.norm(b)), varR(c)))
			return p.norm(b), p.normR(cat(varR(c), r[1:])), true
		case pHom:
			if q.arg[0].k == pByte {
				r = cat(p.resolveImage(q.h, q.arg[0].b), r[1:])
				continue
			}
			b, rest, ok := p.uncons(q.arg)
			if !ok {
				r = r[1:]
				continue
			}
			r = cat(p.resolveImage(q.h, b), p.homR(q.h, p.normR(rest)), r[1:])
		}
	}
}

// unsnoc splits off the last byte.
func (p *Path) unsnoc(r Rope) (Rope, Lin, bool) {
	for {
		r = p.normR(r)
		n := len(r)
		if n == 0 {
			return nil, Lin{}, false
		}
		q := r[n-1]
		switch q.k {
		case pLit:
			k := len(q.lit) - 1
			return cat(r[:n-1], litR(q.lit[:k])), cI(int64(q.lit[k])), true
		case pByte:
			return r[:n-1], p.norm(q.b), true
		case pVar:
			l := p.pieceLen(q)
			if p.decideZero(l) {
				continue
			}
			nm := p.sat[q.v].name
			b := p.newByte(nm+"$", p.scs[q.v])
			c := p.newStrLen(nm+"'", p.scs[q.v], p.norm(l.addc(-1)))
			p.bindStr(q.v, cat(varR(c), byteR(p.norm(b))))
			return p.normR(cat(r[:n-1], varR(c))), p.norm(b), true
		case pHom:
			if q.arg[0].k == pByte {
				r = cat(r[:n-1], p.resolveImage(q.h, q.arg[0].b))
				continue
			}
			rest, b, ok := p.unsnoc(q.arg)
			if !ok {
				r = r[:n-1]
				continue
			}
			r = cat(r[:n-1], p.homR(q.h, p.normR(rest)), p.resolveImage(q.h, b))
		}
	}
}

// isEmpty decides whether r has length zero.
func (p *Path) isEmpty(r Rope) bool {
	r = p.normR(r)
	if len(r) == 0 {
		return true
	}
	for _, q := range r {
		if q.k == pLit || q.k == pByte {
			return false
		}
	}
	return p.decideZero(p.lenR(r))
}

// decideZero decides l == 0 for a quantity known not to be negative.
func (p *Path) decideZero(l Lin) bool {
	if !p.decideLe(l) {
		return false
	}
	if l = p.norm(l); !l.isConst() {
		p.assumeEq0(l)
	}
	return true
}

// eqR decides rope equality; binds atoms on the true side.
func (p *Path) eqR(a, b Rope) bool {
	depth := 0
	for {
		depth++
		if DEBUG > 4 {
			fmt.Println("eqR", depth, p.show(a), "|", p.show(b))
		}
		if depth > 400 {
			unsupported("string equality does not terminate")
		}
		a, b = p.normR(a), p.normR(b)
		// strip common ends
		a, b = stripFront(a, b)
		a, b = stripBack(a, b)
		if len(a) == 0 && len(b) == 0 {
			return true
		}
		if len(a) == 0 {
			return p.isEmpty(b)
		}
		if len(b) == 0 {
			return p.isEmpty(a)
		}
		la, lb := p.lenR(a), p.lenR(b)
		dl := p.norm(la.sub(lb))
		if p.quickEq(dl) == 0 {
			return false
		}
		// front bytes known different?
		if x, y := p.frontSet(a), p.frontSet(b); x != nil && y != nil && x.and(*y).empty() {
			return false
		}
		if x, y := p.backSet(a), p.backSet(b); x != nil && y != nil && x.and(*y).empty() {
			return false
		}
		// whole-variable binding
		if len(b) == 1 && b[0].k == pVar && !(len(a) == 1 && a[0].k == pVar) {
			a, b = b, a
			dl = dl.neg()
		}
		if len(a) == 1 && a[0].k == pVar && !p.occurs(a[0].v, b) {
			// prefer binding the younger atom
			if len(b) == 1 && b[0].k == pVar && b[0].v > a[0].v {
				a, b = b, a
			}
			v := a[0].v
			for _, x := range b {
				if p.csOfPiece(x).and(p.scs[v]).empty() {
					if x.k == pLit || x.k == pByte {
						return false
					}
				}
				if x.k == pLit && !csOf(x.lit).subset(p.scs[v]) {
					return false
				}
			}
			if len(b) == 1 && b[0].k == pLit {
				for _, d := range p.sdis[v] {
					if d == b[0].lit {
						return false
					}
				}
			}
			bk := "sne:" + ropeKey(a) + "|" + ropeKey(b)
			if p.known[bk] {
				return false
			}
			r := p.branch(2, func(i int) bool {
				if i == 0 {
					n := p.norm(dl)
					if q := p.quickEq(n); q >= 0 {
						return q == 1
					}
					p.touch(n)
					return p.feasible("(= " + n.smt() + " 0)")
				}
				return true
			})
			if r == 0 {
				p.bindStr(v, b)
				return true
			}
			if len(b) == 1 && b[0].k == pLit {
				p.sdis[v] = append(p.sdis[v][:len(p.sdis[v]):len(p.sdis[v])], b[0].lit)
			} else {
				p.known[bk] = true
				p.sne = append(p.sne, [2]Lin{la, lb})
				p.sneR = append(p.sneR, [2]Rope{a, b})
			}
			p.version++
			return false
		}
		// general: equal lengths first
		if !p.decideEq(dl) {
			return false
		}
		a, b = p.normR(a), p.normR(b)
		a, b = stripFront(a, b)
		if len(a) == 0 || len(b) == 0 {
			continue
		}
		qa, qb := a[0], b[0]
		if qa.k == pHom && qb.k == pHom && qa.h == qb.h && p.u.eng.injective(qa.h) && len(a) == 1 && len(b) == 1 {
			a, b = qa.arg, qb.arg
			continue
		}
		// byte against byte
		if (qa.k == pLit || qa.k == pByte) && (qb.k == pLit || qb.k == pByte) {
			x, ra, _ := p.uncons(a)
			y, rb, _ := p.uncons(b)
			if !p.decideEq(x.sub(y)) {
				return false
			}
			a, b = ra, rb
			continue
		}
		if qa.k == pHom || qb.k == pHom {
			// step one byte at a time
			x, ra, ok := p.uncons(a)
			if !ok {
				continue
			}
			y, rb, ok2 := p.uncons(b)
			if !ok2 {
				return false
			}
			if !p.decideEq(x.sub(y)) {
				return false
			}
			a, b = ra, rb
			continue
		}
		// a variable against something: align on shorter of the two heads
		lqa, lqb := p.pieceLen(qa), p.pieceLen(qb)
		if qa.k == pVar && qb.k == pVar {
			if p.decideZero(lqa) {
				a = a[1:]
				continue
			}
			if p.decideZero(lqb) {
				b = b[1:]
				continue
			}
		}
		if p.decideLe(lqa.sub(lqb)) {
			hb, tb := p.cut(b, lqa)
			ha := p.normR(a[:1])
			if !p.eqR(ha, hb) {
				return false
			}
			a, b = a[1:], tb
		} else {
			ha, ta := p.cut(a, lqb)
			hb := p.normR(b[:1])
			if !p.eqR(ha, hb) {
				return false
			}
			a, b = ta, b[1:]
		}
	}
}

func (p *Path) occurs(v SAtomID, r Rope) bool {
	for _, q := range r {
		switch q.k {
		case pVar:
			if q.v == v {
				return true
			}
		case pHom:
			if p.occurs(v, q.arg) {
				return true
			}
		}
	}
	return false
}

// frontSet returns the possible first bytes if the first piece is certainly non-empty.
func (p *Path) frontSet(r Rope) *CS {
	if len(r) == 0 {
		return nil
	}
	q := r[0]
	switch q.k {
	case pLit:
		var c CS
		c.add(q.lit[0])
		return &c
	case pByte:
		c := p.byteSet(q.b)
		return &c
	case pVar:
		l := p.pieceLen(q)
		lo, _ := p.bounds(l)
		if lo != nil && lo.Sign() > 0 {
			c := p.scs[q.v]
			return &c
		}
	case pHom:
		if f := p.frontSet(q.arg); f != nil {
			var c CS
			for _, b := range f.list() {
				if s := q.h.img[b]; s != "" {
					c.add(s[0])
				} else {
					return nil
				}
			}
			return &c
		}
	}
	return nil
}
func (p *Path) backSet(r Rope) *CS {
	if len(r) == 0 {
		return nil
	}
	q := r[len(r)-1]
	switch q.k {
	case pLit:
		var c CS
		c.add(q.lit[len(q.lit)-1])
		return &c
	case pByte:
		c := p.byteSet(q.b)
		return &c
	case pVar:
		l := p.pieceLen(q)
		lo, _ := p.bounds(l)
		if lo != nil && lo.Sign() > 0 {
			c := p.scs[q.v]
			return &c
		}
	}
	return nil
}

func stripFront(a, b Rope) (Rope, Rope) {
	for len(a) > 0 && len(b) > 0 {
		if a[0].k == pLit && b[0].k == pLit {
			n := 0
			for n < len(a[0].lit) && n < len(b[0].lit) && a[0].lit[n] == b[0].lit[n] {
				n++
			}
			if n == 0 {
				return a, b
			}
			na, nb := cat(litR(a[0].lit[n:]), a[1:]), cat(litR(b[0].lit[n:]), b[1:])
			stop := n < len(a[0].lit) && n < len(b[0].lit)
			a, b = na, nb
			if stop {
				return a, b
			}
			continue
		}
		if !pieceEq(a[0], b[0]) {
			return a, b
		}
		a, b = a[1:], b[1:]
	}
	return a, b
}
func stripBack(a, b Rope) (Rope, Rope) {
	for len(a) > 0 && len(b) > 0 {
		qa, qb := a[len(a)-1], b[len(b)-1]
		if qa.k == pLit && qb.k == pLit {
			n := 0
			for n < len(qa.lit) && n < len(qb.lit) && qa.lit[len(qa.lit)-1-n] == qb.lit[len(qb.lit)-1-n] {
				n++
			}
			if n == 0 {
				return a, b
			}
			stop := n < len(qa.lit) && n < len(qb.lit)
			a = cat(a[:len(a)-1], litR(qa.lit[:len(qa.lit)-n]))
			b = cat(b[:len(b)-1], litR(qb.lit[:len(qb.lit)-n]))
			if stop {
				return a, b
			}
			continue
		}
		if !pieceEq(qa, qb) {
			return a, b
		}
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	return a, b
}

func (p *Path) show(r Rope) string {
	var sb strings.Builder
	for _, q := range p.normR(r) {
		switch q.k {
		case pLit:
			fmt.Fprintf(&sb, "%q ", q.lit)
		case pVar:
			fmt.Fprintf(&sb, "s%d:%s ", q.v, p.sat[q.v].name)
		case pByte:
			fmt.Fprintf(&sb, "byte(%s) ", q.b.key())
		case pHom:
			fmt.Fprintf(&sb, "%s(%s) ", q.h.name, p.show(q.arg))
		}
	}
	return sb.String()
}

// constStr returns the literal content if fully known.
func (p *Path) constStr(r Rope) (string, bool) {
	r = p.normR(r)
	if len(r) == 0 {
		return "", true
	}
	if len(r) == 1 && r[0].k == pLit {
		return r[0].lit, true
	}
	return "", false
}

func uniform(s string) bool {
	for i := 1; i < len(s); i++ {
		if s[i] != s[0] {
			return false
		}
	}
	return true
}
