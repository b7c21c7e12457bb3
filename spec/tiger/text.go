package tiger

import "bytes"

// ---- T02: text form of hashes ----

const sAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func sHash(name string) (h Hash) {
	copy(h[:], vStrLen(name, Size))
	return
}

func H_T02_hash_round_trip() {
	h := sHash("h")
	s := h.Base32()
	vCheck(len(s) == 39, "39 characters")
	vCheck(vIn(s, sAlphabet), "upper-case base32")
	vCheck(h.String() == s, "String is the same text")
	t, err := h.MarshalText()
	vCheck(err == nil && string(t) == s, "MarshalText is the same text")
	buf := bytes.NewBuffer(nil)
	vCheck(h.MarshalADC(buf) == nil && buf.String() == s, "MarshalADC is the same text")
	var b [Base32Size]byte
	vCheck(h.MarshalBase32(b[:]) == nil && string(b[:]) == s, "MarshalBase32 is the same text")
	old := sHash("old")
	got := old
	vCheck(got.FromBase32(s) == nil && got == h, "FromBase32 gives the same hash")
	got = old
	vCheck(got.UnmarshalText([]byte(s)) == nil && got == h, "UnmarshalText gives the same hash")
	got = old
	vCheck(got.UnmarshalBase32([]byte(s)) == nil && got == h, "UnmarshalBase32 gives the same hash")
	got = old
	vCheck(got.UnmarshalADC([]byte(s)) == nil && got == h, "UnmarshalADC gives the same hash")
	vCheck(MustParseBase32(s) == h, "MustParseBase32 gives the same hash")
}

func H_T02_hash_marshal_into_larger_buffer() {
	h := sHash("h")
	pre := vStr("tail")
	b := []byte(vStrLen("room", Base32Size) + pre)
	vCheck(h.MarshalBase32(b) == nil, "accepted")
	vCheck(string(b[:Base32Size]) == h.Base32() && string(b[Base32Size:]) == pre, "exactly 39 bytes are written")
}

func H_T02_hash_parse_total() {
	old, s := sHash("old"), vStr("s")
	got := old
	err := got.FromBase32(s)
	legal := len(s) == 39 && vIn(s, sAlphabet)
	if !legal {
		vCheck(err != nil, "any other text is refused")
		vCheck(got == old, "the target is unchanged")
	} else {
		vCheck(err == nil, "base32 text is accepted")
	}
}

func H_T02_hash_parse_bytes_total() {
	old, s := sHash("old"), vStr("s")
	got := old
	err := got.UnmarshalBase32([]byte(s))
	legal := len(s) == 39 && vIn(s, sAlphabet)
	if !legal {
		vCheck(err != nil, "any other text is refused")
		vCheck(got == old, "the target is unchanged")
	} else {
		vCheck(err == nil, "base32 text is accepted")
		var two Hash
		vCheck(two.FromBase32(s) == nil && two == got, "both parsers agree")
	}
}

func H_T02_hash_bytes() {
	h := sHash("h")
	vCheck(string(h.Bytes()) == string(h[:]), "the bytes of the hash")
	vCheck(h.IsZero() == (h == Hash{}), "zero")
}
