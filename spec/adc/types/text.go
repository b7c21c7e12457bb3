package types

import "bytes"

// ---- T02: text form of identifiers ----

const sAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func sCID(name string) (id CID) {
	copy(id[:], vStrLen(name, 24))
	return
}

func H_T02_cid_round_trip() {
	id := sCID("id")
	s := id.Base32()
	vCheck(len(s) == 39 && vIn(s, sAlphabet), "39 upper-case base32 characters")
	vCheck(id.String() == s, "String is the same text")
	t, err := id.MarshalText()
	vCheck(err == nil && string(t) == s, "MarshalText is the same text")
	buf := bytes.NewBuffer(nil)
	vCheck(id.MarshalADC(buf) == nil && buf.String() == s, "MarshalADC is the same text")
	old := sCID("old")
	got := old
	vCheck(got.FromBase32(s) == nil && got == id, "FromBase32 gives the same identifier")
	got = old
	vCheck(got.UnmarshalText([]byte(s)) == nil && got == id, "UnmarshalText gives the same identifier")
	got = old
	vCheck(got.UnmarshalADC([]byte(s)) == nil && got == id, "UnmarshalADC gives the same identifier")
	vCheck(MustParseCID(s) == id, "MustParseCID gives the same identifier")
	vCheck(*MustParseCIDP(s) == id, "MustParseCIDP gives the same identifier")
	vCheck(id.IsZero() == (id == CID{}), "zero")
}

func H_T02_cid_parse_total() {
	old, s := sCID("old"), vStr("s")
	got := old
	var err error
	switch vPick("how", 3) {
	case 0:
		err = got.FromBase32(s)
	case 1:
		err = got.UnmarshalText([]byte(s))
	case 2:
		err = got.UnmarshalADC([]byte(s))
	}
	if len(s) == 39 && vIn(s, sAlphabet) {
		vCheck(err == nil, "base32 text is accepted")
	} else {
		vCheck(err != nil, "any other text is refused")
		vCheck(got == old, "the target is unchanged")
	}
}

// Session identifiers are four characters.

// sDigit draws a digit and the character that stands for it.
func sDigit(name string) (uint32, byte) {
	if vBool(name + ".letter") {
		v := vInt(name, 0, 25)
		return uint32(v), byte('A' + v)
	}
	v := vInt(name, 26, 31)
	return uint32(v), byte('2' + v - 26)
}

func H_T02_sid_from_int() {
	a, ca := sDigit("a")
	b, cb := sDigit("b")
	c, cc := sDigit("c")
	d, cd := sDigit("d")
	id := SIDFromInt(a*32768 + b*1024 + c*32 + d)
	vCheck(id[0] == ca, "first digit")
	vCheck(id[1] == cb, "second digit")
	vCheck(id[2] == cc, "third digit")
	vCheck(id[3] == cd, "fourth digit")
}

func H_T02_sid_total() {
	s := vStr("s")
	var old SID
	copy(old[:], vStrLen("old", 4))
	got := old
	err := got.UnmarshalADC([]byte(s))
	if len(s) == 4 {
		vCheck(err == nil && got.String() == s, "the four characters")
		buf := bytes.NewBuffer(nil)
		vCheck(got.MarshalADC(buf) == nil && buf.String() == s, "written back")
	} else {
		vCheck(err != nil, "any other length is refused")
		vCheck(got == old, "the target is unchanged")
	}
}
