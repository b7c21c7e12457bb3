package adc

import "bytes"

// Feature selectors are represented by the text they are written as: six bytes each.

var sF struct {
	on   bool
	text string // of all the selectors of the packet
	n    int    // their number

	seen  string // the text of an input
	count int    // the selectors it begins with: their number, and they
	all   []FeatureSel
}

func sSign(c byte) bool { return c == '+' || c == '-' }

// sSelText: the i-th selector of the text is well-formed.
func sSelText(text string, i int) bool {
	return sSign(text[6*i]) && (6*i+5 == len(text) || text[6*i+5] == ' ')
}

// sSelAt is the i-th selector of the text.
func sSelAt(text string, i int) (f FeatureSel) {
	vAssume(sSelText(text, i))
	f.Sel = text[6*i] == '+'
	copy(f.Fea[:], text[6*i+1:6*i+5])
	return f
}

// sSelectors are any number of feature selectors and their encoding, without the bytes of the set.
func sSelectors(not string) ([]FeatureSel, string) {
	max := 1 << 30
	if !vProving() {
		max = 20
	}
	n := vInt("selectors", 0, max)
	text := vStrNot("text of selectors", not)
	if !vProving() {
		b := []byte(text)
		for len(b) < 6*n {
			b = append(b, "ABCDEFG"...)
		}
		b = b[:6*n]
		for i := 0; i < n; i++ {
			if !sSign(b[6*i]) {
				b[6*i] = "+-"[b[6*i]&1]
			}
			b[6*i+5] = ' '
		}
		text = string(b)
	}
	vAssume(len(text) == 6*n)
	vAssume(n == 0 || text[6*n-1] == ' ')
	var sel []FeatureSel
	vList(&sel, n, func(i int) FeatureSel { return sSelAt(text, i) })
	sF.on, sF.text, sF.n = true, text, n
	return sel, text
}

//verif:inv (*FeaturePacket).MarshalPacketADC 0
func I_FeaturePacket_Marshal(p *FeaturePacket, buf *bytes.Buffer, rangeindex int) bool {
	cmd := p.Msg.Cmd()
	head := "F" + string(cmd[:]) + " " + string(p.ID[:]) + " "
	k := rangeindex + 1
	if k < 0 {
		return false
	}
	if !sF.on {
		return len(p.Sel) != 0 && vBuf(buf) != "" || vBuf(buf) == head
	}
	return k <= sF.n && len(p.Sel) == sF.n && vBuf(buf) == head+sF.text[:6*k]
}

//verif:inv (*FeaturePacket).UnmarshalPacketADC 0
func I_FeaturePacket_Unmarshal(p *FeaturePacket, data, data_in []byte) bool {
	d := string(data_in)
	k := len(p.Sel)
	n := (len(d) + 1) / 6
	if k > n || sF.on && k > sF.n {
		return false
	}
	if 6*k <= len(d) {
		if string(data) != d[6*k:] {
			return false
		}
	} else if len(data) != 0 {
		return false
	}
	if sF.seen != d {
		// the number of selectors at the beginning of d
		sF.count = vInt("selectors of input", 0, n)
		sF.seen = d
		vList(&sF.all, sF.count, func(i int) FeatureSel { return sSelAt(d, i) })
	}
	if k > sF.count {
		return false
	}
	// by the meaning of count
	vAssume(k < sF.count == (6*k+5 <= len(d) && sSelText(d, k)))
	if sF.on && k < sF.n {
		vAssume(sSelText(sF.text, k))
	}
	return vPrefix(p.Sel, sF.all)
}
