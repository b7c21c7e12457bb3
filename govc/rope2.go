package main

import (
	"fmt"
	"html"
	"math/big"
	"strings"
)

// hasPrefix decides whether r starts with the constant pat.
func (p *Path) hasPrefix(r Rope, pat string) bool {
	for {
		r = p.normR(r)
		if pat == "" {
			return true
		}
		if len(r) == 0 {
			return false
		}
		if r[0].k == pLit {
			n := len(r[0].lit)
			if n > len(pat) {
				n = len(pat)
			}
			if r[0].lit[:n] != pat[:n] {
				return false
			}
			r = cat(litR(r[0].lit[n:]), r[1:])
			pat = pat[n:]
			continue
		}
		break
	}
	if f := p.frontSet(r); f != nil && !f.has(pat[0]) {
		return false
	}
	if !p.decideLe(cI(int64(len(pat))).sub(p.lenR(r))) {
		return false
	}
	if f := p.frontSet(r); f != nil && !f.has(pat[0]) {
		return false
	}
	r = p.normR(r)
	if len(r) == 0 {
		return false
	}
	switch q := r[0]; q.k {
	case pLit:
		return p.hasPrefix(r, pat)
	case pByte:
		return p.decideEq(q.b.addc(-int64(pat[0]))) && p.hasPrefix(r[1:], pat[1:])
	case pHom:
		if p.homPlain(q, pat) && p.decideLe(cI(int64(len(pat))).sub(p.lenR(q.arg))) {
			return p.hasPrefix(q.arg, pat)
		}
		b, t, ok := p.uncons(r)
		return ok && p.decideEq(b.addc(-int64(pat[0]))) && p.hasPrefix(t, pat[1:])
	case pVar:
		n := int64(len(pat))
		if p.affix(&p.npre, q.v, pat, func(a *SAtom) Rope { return cat(litR(pat), varR(a)) }, strings.HasPrefix) {
			return true
		}
		if len(r) == 1 {
			return false
		}
		for j := n - 1; j >= 0; j-- {
			if j > 0 && !hasAll(p.scs[q.v], pat[:j]) {
				continue
			}
			if p.eqR(Rope{q}, litR(pat[:j])) {
				return p.hasPrefix(r[1:], pat[j:])
			}
		}
		return false
	}
	panic("hasPrefix")
}

// affix decides whether v starts (ends) with pat: either v is bound to
// mk(rest), or the negative fact is recorded.
func (p *Path) affix(neg *map[SAtomID][]string, v SAtomID, pat string, mk func(a *SAtom) Rope, is func(s, x string) bool) bool {
	pcs := p.scs[v]
	if !hasAll(pcs, pat) {
		return false
	}
	for _, x := range (*neg)[v] {
		if is(pat, x) {
			return false
		}
	}
	for _, x := range p.noocc[v] {
		if strings.Contains(pat, x) {
			return false
		}
	}
	q := Piece{k: pVar, v: v}
	if p.branch(2, func(a int) bool {
		if a == 0 {
			return p.feasibleLe(cI(int64(len(pat))).sub(p.pieceLen(q)))
		}
		return true
	}) == 0 {
		a := p.newStrLen(p.sat[v].name+"'", pcs, p.norm(p.pieceLen(q).addc(int64(-len(pat)))))
		if l := p.norm(a.len.neg()); !l.isConst() || l.c.Sign() > 0 {
			p.assumeLe0(l)
		}
		p.bindStr(v, mk(a))
		return true
	}
	p.version++
	if *neg == nil {
		*neg = map[SAtomID][]string{}
	}
	(*neg)[v] = append((*neg)[v][:len((*neg)[v]):len((*neg)[v])], pat)
	return false
}

func (p *Path) hasSuffix(r Rope, pat string) bool {
	for {
		r = p.normR(r)
		if pat == "" {
			return true
		}
		n := len(r)
		if n == 0 {
			return false
		}
		if r[n-1].k == pLit {
			l := r[n-1].lit
			m := len(l)
			if m > len(pat) {
				m = len(pat)
			}
			if l[len(l)-m:] != pat[len(pat)-m:] {
				return false
			}
			r = cat(r[:n-1], litR(l[:len(l)-m]))
			pat = pat[:len(pat)-m]
			continue
		}
		break
	}
	if f := p.backSet(r); f != nil && !f.has(pat[len(pat)-1]) {
		return false
	}
	n := p.lenR(r)
	if !p.decideLe(cI(int64(len(pat))).sub(n)) {
		return false
	}
	r = p.normR(r)
	k := len(r) - 1
	if k < 0 {
		return false
	}
	m := len(pat) - 1
	switch q := r[k]; q.k {
	case pLit:
		return p.hasSuffix(r, pat)
	case pByte:
		return p.decideEq(q.b.addc(-int64(pat[m]))) && p.hasSuffix(r[:k], pat[:m])
	case pHom:
		if p.homPlain(q, pat) && p.decideLe(cI(int64(len(pat))).sub(p.lenR(q.arg))) {
			return p.hasSuffix(q.arg, pat)
		}
		t, b, ok := p.unsnoc(r)
		return ok && p.decideEq(b.addc(-int64(pat[m]))) && p.hasSuffix(t, pat[:m])
	case pVar:
		if p.affix(&p.nsuf, q.v, pat, func(a *SAtom) Rope { return cat(varR(a), litR(pat)) }, strings.HasSuffix) {
			return true
		}
		if len(r) == 1 {
			return false
		}
		for j := 1; j <= m+1; j++ {
			if j <= m && !hasAll(p.scs[q.v], pat[j:]) {
				continue
			}
			if p.eqR(Rope{q}, litR(pat[j:])) {
				return p.hasSuffix(r[:k], pat[:j])
			}
		}
		return false
	}
	panic("hasSuffix")
}

// homPlain: bytes of pat occur in q = h(arg) only as images of themselves.
func (p *Path) homPlain(q Piece, pat string) bool {
	pc := csOf(pat)
	if !pc.subset(q.h.id) {
		return false
	}
	for _, b := range p.csOfPiece(q.arg[0]).minus(q.h.id).list() {
		if !csOf(q.h.img[b]).and(pc).empty() {
			return false
		}
	}
	return true
}

// findSetLast finds the last byte of r in cs: prefix (ending with that byte) and rest.
func (p *Path) findSetLast(r Rope, cs CS) (bool, Rope, Rope) {
	r = p.normR(r)
	var post Rope
	for i := len(r) - 1; i >= 0; i-- {
		q := r[i]
		pcs := p.csOfPiece(q)
		if pcs.and(cs).empty() {
			post = cat(Rope{q}, post)
			continue
		}
		switch q.k {
		case pLit:
			for j := len(q.lit) - 1; j >= 0; j-- {
				if cs.has(q.lit[j]) {
					return true, p.normR(cat(r[:i], litR(q.lit[:j+1]))), p.normR(cat(litR(q.lit[j+1:]), post))
				}
			}
		case pByte:
			if p.decideIn(q.b, cs) {
				return true, p.normR(r[:i+1]), p.normR(post)
			}
			post = cat(Rope{{k: pByte, b: p.norm(q.b)}}, post)
		case pVar:
			if p.branch(2, func(a int) bool {
				l := p.pieceLen(q)
				if a == 0 {
					return p.feasibleLe(cI(1).sub(l))
				}
				if pcs.minus(cs).empty() {
					return p.feasibleLe(l)
				}
				return true
			}) == 1 {
				p.setStrCS(q.v, pcs.minus(cs))
				post = cat(p.normR(Rope{q}), post)
				continue
			}
			a := p.newStr(p.sat[q.v].name+"<", pcs)
			b := p.newByte(p.sat[q.v].name+"@", pcs.and(cs))
			c := p.newStr(p.sat[q.v].name+">", pcs.minus(cs))
			p.bindStr(q.v, cat(varR(a), byteR(p.norm(b)), varR(c)))
			return true, p.normR(cat(r[:i], varR(a), byteR(p.norm(b)))), p.normR(cat(varR(c), post))
		case pHom:
			var hit CS
			acs := p.csOfPiece(q.arg[0])
			for _, b := range acs.list() {
				if !csOf(q.h.img[b]).and(cs).empty() {
					hit.add(b)
				}
			}
			f, apre, arest := p.findSetLast(q.arg, hit)
			if !f {
				post = cat(p.homR(q.h, p.normR(arest)), post)
				continue
			}
			pre, hb, _ := p.unsnoc(apre)
			img := p.resolveImage(q.h, hb)
			_, ipre, irest := p.findSetLast(img, cs)
			return true, p.normR(cat(r[:i], p.homR(q.h, p.normR(pre)), ipre)), p.normR(cat(irest, p.homR(q.h, p.normR(arest)), post))
		}
	}
	return false, nil, p.normR(post)
}

func hasAll(cs CS, s string) bool {
	for i := 0; i < len(s); i++ {
		if !cs.has(s[i]) {
			return false
		}
	}
	return true
}

// findSub finds the first occurrence of the constant pat.
func (p *Path) findSub(r Rope, pat string) (bool, Rope, Rope) {
	if DEBUG > 2 {
		fmt.Printf("   findSub %q in %s\n", pat, p.show(r))
	}
	if pat == "" {
		return true, nil, p.normR(r)
	}
	if len(pat) == 1 {
		return p.findSet(r, csOf(pat))
	}
	r = p.normR(r)
	var pre Rope
	for {
		r = p.normR(r)
		if len(r) == 0 {
			return false, p.normR(pre), nil
		}
		q := r[0]
		pcs := p.csOfPiece(q)
		if !pcs.has(pat[0]) {
			pre = appendPiece(pre, q)
			r = r[1:]
			continue
		}
		switch q.k {
		case pLit:
			if j := strings.Index(q.lit, pat); j >= 0 {
				return true, p.normR(cat(pre, litR(q.lit[:j]))), p.normR(cat(litR(q.lit[j:]), r[1:]))
			}
			s := len(q.lit) - len(pat) + 1
			if s < 0 {
				s = 0
			}
			for ; s < len(q.lit); s++ {
				if !strings.HasPrefix(pat, q.lit[s:]) {
					continue
				}
				if p.hasPrefix(r[1:], pat[len(q.lit)-s:]) {
					p.checkNoOcc()
					return true, p.normR(cat(pre, litR(q.lit[:s]))), p.normR(cat(litR(q.lit[s:]), r[1:]))
				}
			}
			pre = cat(pre, litR(q.lit))
			r = r[1:]
		case pByte:
			if p.decideEq(q.b.addc(-int64(pat[0]))) {
				continue
			}
			pre = appendPiece(pre, Piece{k: pByte, b: p.norm(q.b)})
			r = r[1:]
		case pVar:
			inside := hasAll(pcs, pat)
			if inside {
				for _, x := range p.noocc[q.v] {
					if strings.Contains(pat, x) {
						inside = false
					}
				}
			}
			if inside {
				if p.branch(2, func(a int) bool {
					if a == 0 {
						return p.feasibleLe(cI(int64(len(pat))).sub(p.pieceLen(q)))
					}
					return true
				}) == 0 {
					a := p.newStr(p.sat[q.v].name+"<", pcs)
					c := p.newStr(p.sat[q.v].name+">", pcs)
					p.addNoOcc(a.id, pat)
					p.bindStr(q.v, cat(varR(a), litR(pat), varR(c)))
					for b := 1; b < len(pat); b++ {
						if strings.HasSuffix(pat, pat[:b]) && strings.HasPrefix(pat, pat[len(pat)-b:]) {
							if p.hasSuffix(varR(a), pat[:len(pat)-b]) {
								p.kill("earlier occurrence")
							}
						}
					}
					return true, p.normR(cat(pre, varR(a))), p.normR(cat(litR(pat), varR(c), r[1:]))
				}
				p.addNoOcc(q.v, pat)
			}
			hit := false
			for k := len(pat) - 1; k >= 1; k-- {
				if !hasAll(pcs, pat[:k]) {
					continue
				}
				if p.hasPrefix(r[1:], pat[k:]) && p.hasSuffix(Rope{q}, pat[:k]) {
					p.checkNoOcc()
					vr := p.normR(Rope{q})
					h, t := p.cut(vr, p.norm(p.lenR(vr).addc(int64(-k))))
					rr := p.normR(cat(t, r[1:]))
					return true, p.normR(cat(pre, h)), rr
				}
			}
			_ = hit
			pre = cat(pre, p.normR(Rope{q}))
			r = r[1:]
		case pHom:
			acs := p.csOfPiece(q.arg[0])
			meets := false
			for _, b := range acs.minus(q.h.id).list() {
				meets = meets || overlaps(q.h.img[b], pat)
			}
			if !meets {
				// an occurrence lies within identity bytes only
				f, apre, arest := p.findSub(q.arg, pat)
				if f {
					return true, p.normR(cat(pre, p.homR(q.h, p.normR(apre)))), p.normR(cat(p.homR(q.h, p.normR(arest)), r[1:]))
				}
				// border occurrences
				hr := p.homR(q.h, p.normR(apre))
				for k := len(pat) - 1; k >= 1; k-- {
					if p.hasPrefix(r[1:], pat[k:]) && p.hasSuffix(hr, pat[:k]) {
						p.checkNoOcc()
						hr = p.normR(hr)
						h, t := p.cut(hr, p.norm(p.lenR(hr).addc(int64(-k))))
						return true, p.normR(cat(pre, h)), p.normR(cat(t, r[1:]))
					}
				}
				pre = cat(pre, p.normR(hr))
				r = r[1:]
				continue
			}
			// the pattern may meet an image: go to the first byte that can start it
			f, fpre, frest := p.findSet(Rope{q}, csOf(pat[:1]))
			if !f {
				pre = cat(pre, fpre)
				r = r[1:]
				continue
			}
			pre = cat(pre, fpre)
			r = cat(frest, r[1:])
			if p.hasPrefix(r, pat) {
				p.checkNoOcc()
				return true, p.normR(pre), p.normR(r)
			}
			b, t, _ := p.uncons(r)
			pre = cat(pre, byteR(b))
			r = t
			p.u.checkTime()
			if len(pre) > 60 {
				unsupported("substring search does not terminate")
			}
		}
	}
}

// overlaps reports whether an occurrence of pat could touch an occurrence of
// img: one contains the other or an end of one is a beginning of the other.
func overlaps(img, pat string) bool {
	if strings.Contains(img, pat) || strings.Contains(pat, img) {
		return true
	}
	for k := 1; k < len(img) && k < len(pat); k++ {
		if img[len(img)-k:] == pat[:k] || pat[len(pat)-k:] == img[:k] {
			return true
		}
	}
	return false
}

// trimRight splits r = kept ++ trimmed with trimmed the longest suffix in cs.
func (p *Path) trimRight(r Rope, cs CS) (Rope, Rope) {
	f, pre, rest := p.findSetLast(r, cs.not())
	if !f {
		return nil, rest
	}
	return pre, rest
}
func (p *Path) trimLeft(r Rope, cs CS) (Rope, Rope) {
	f, pre, rest := p.findSet(r, cs.not())
	if !f {
		return pre, nil
	}
	return pre, rest
}

// spaces as seen by TrimSpace
var csSpace = csOf("\t\n\v\f\r ")

func csHigh() CS {
	var c CS
	for i := 128; i < 256; i++ {
		c.add(byte(i))
	}
	return c
}

// trimSpace returns (left, kept, right).
func (p *Path) trimSpace(r Rope) (Rope, Rope, Rope) {
	left, rest := p.trimLeft(r, csSpace)
	kept, right := p.trimRight(rest, csSpace)
	kept = p.normR(kept)
	if p.csOfRope(kept).and(csHigh()).empty() || len(kept) == 0 {
		return p.normR(left), kept, p.normR(right)
	}
	// Unicode spaces next to the ends
	b, _, ok := p.uncons(kept)
	if ok && p.decideIn(b, csHigh()) {
		if p.branch(2, nil) == 1 {
			n := p.newInt("uspl", bi1, maxLen)
			if !p.decideLe(n.sub(p.lenR(kept))) {
				p.kill("trim")
			}
			h, t := p.cut(kept, p.norm(n))
			left = cat(left, h)
			kept = t
			p.note("unicode space trimmed")
		}
	}
	if _, b, ok := p.unsnoc(kept); ok && p.decideIn(b, csHigh()) {
		if p.branch(2, nil) == 1 {
			n := p.newInt("uspr", bi1, maxLen)
			if !p.decideLe(n.sub(p.lenR(kept))) {
				p.kill("trim")
			}
			h, t := p.cut(kept, p.norm(p.lenR(kept).sub(n)))
			right = cat(t, right)
			kept = h
			p.note("unicode space trimmed")
		}
	}
	return p.normR(left), p.normR(kept), p.normR(right)
}

// mapTokens applies a left-to-right token rewriting f (a library function such
// as a Replacer or html.UnescapeString) to r. special is the set of bytes that
// can start a rewritten token; tok(s, i) returns the length of the token
// starting at s[i] if it is complete within s whatever follows, 0 if no token
// starts there whatever follows, -1 if that depends on what follows.
func (p *Path) mapTokens(r Rope, name string, special CS, tok func(s string, i int) int, f func(s string) string) Rope {
	r = p.normR(r)
	closed := func(s string) bool {
		for i := 0; i < len(s); {
			n := tok(s, i)
			if n < 0 {
				return false
			}
			if n == 0 {
				n = 1
			}
			i += n
		}
		return true
	}
	var out Rope
	ok := true
	for i, q := range r {
		switch q.k {
		case pLit:
			if i < len(r)-1 && !closed(q.lit) {
				ok = false
				break
			}
			out = cat(out, litR(f(q.lit)))
		case pByte, pVar:
			if p.csOfPiece(q).and(special).empty() {
				out = appendPiece(out, q)
			} else {
				ok = false
			}
		case pHom:
			var img [256]string
			acs := p.csOfPiece(q.arg[0])
			for b := 0; b < 256; b++ {
				img[b] = q.h.img[b]
				if !acs.has(byte(b)) {
					continue
				}
				if !closed(q.h.img[b]) {
					ok = false
					break
				}
				img[b] = f(q.h.img[b])
			}
			if !ok {
				break
			}
			for b := 0; b < 256; b++ {
				if !acs.has(byte(b)) {
					img[b] = string([]byte{byte(b)})
				}
			}
			h := p.u.eng.hom(name+"'"+q.h.name, img)
			out = cat(out, p.homR(h, p.normR(q.arg)))
		}
		if !ok {
			break
		}
	}
	if ok {
		return p.normR(out)
	}
	return nil
}

// replaceTokens models strings.Replacer-like rewriting with constant tables.
func (e *Exec) replaceTokens(r Rope, name string, olds []string, f func(string) string) Rope {
	p := e.p
	r = p.normR(r)
	if s, ok := p.constStr(r); ok {
		return litR(f(s))
	}
	single := true
	var special CS
	for _, o := range olds {
		if len(o) != 1 {
			single = false
		}
		if o != "" {
			special.add(o[0])
		} else {
			unsupported("replacement of the empty string")
		}
	}
	if single {
		var img [256]string
		for i := range img {
			img[i] = f(string([]byte{byte(i)}))
		}
		return p.homR(p.u.eng.hom(name, img), r)
	}
	if p.csOfRope(r).and(special).empty() {
		return r
	}
	tok := func(s string, i int) int {
		for _, o := range olds {
			if strings.HasPrefix(s[i:], o) {
				return len(o)
			}
		}
		for _, o := range olds {
			if strings.HasPrefix(o, s[i:]) {
				return -1
			}
		}
		return 0
	}
	out := p.mapTokens(r, name, special, tok, f)
	if out != nil {
		return out
	}
	if p.csOfRope(r).and(special).empty() {
		return r
	}
	// decide whether a common beginning of the rewritten texts, or else any
	// of their first bytes, occurs at all
	lcp := olds[0]
	for _, o := range olds {
		for !strings.HasPrefix(o, lcp) {
			lcp = lcp[:len(lcp)-1]
		}
	}
	if len(lcp) > 1 {
		if fnd, _, _ := p.findSub(r, lcp); !fnd {
			return p.normR(r)
		}
	} else if fnd, _, _ := p.findSet(r, special); !fnd {
		return p.normR(r)
	}
	if out := p.mapTokens(p.normR(r), name, special, tok, f); out != nil {
		return out
	}
	mx := p.newInt("repl", bi0, maxLen)
	p.note("abstract " + name)
	cs := p.csOfRope(r)
	for _, o := range olds {
		cs = cs.or(csOf(f(o)))
	}
	out = e.ufStr(name, mx, r)
	if len(out) == 1 && out[0].k == pVar {
		p.setStrCS(out[0].v, p.scs[out[0].v].and(cs))
	}
	return out
}

func htmlTok(s string, i int) int {
	if s[i] != '&' {
		return 0
	}
	j := strings.IndexByte(s[i:], ';')
	if j < 0 {
		return -1
	}
	t := s[i : i+j+1]
	for k := 1; k < len(t)-1; k++ {
		c := t[k]
		if !(c == '#' && k == 1 || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return -1
		}
	}
	if html.UnescapeString(t) == t {
		return -1
	}
	return len(t)
}

func (e *Exec) htmlUnescape(r Rope) Rope {
	p := e.p
	r = p.normR(r)
	if s, ok := p.constStr(r); ok {
		return litR(html.UnescapeString(s))
	}
	if out := p.mapTokens(r, "html", csOf("&"), htmlTok, html.UnescapeString); out != nil {
		return out
	}
	if fnd, _, _ := p.findSet(r, csOf("&")); !fnd {
		return p.normR(r)
	}
	r = p.normR(r)
	if out := p.mapTokens(r, "html", csOf("&"), htmlTok, html.UnescapeString); out != nil {
		return out
	}
	n := p.newInt("htmlen", bi0, new(big.Int).Mul(maxLen, big.NewInt(2)))
	p.note("abstract html.UnescapeString")
	return e.ufStr("html.UnescapeString", n, r)
}
