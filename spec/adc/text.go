package adc

import "bytes"

// ---- A01: text escaping ----

func sNone(s, set string) bool { return !bytes.ContainsAny([]byte(s), set) }

// sEsc is the encoded form of one byte of text.
func sEsc(c byte) string {
	switch c {
	case '\\':
		return `\\`
	case ' ':
		return `\s`
	case '\n':
		return `\n`
	}
	return string([]byte{c})
}

func H_A01_encoding() {
	s := vStr("s")
	pre := vStr("pre")
	buf := bytes.NewBuffer([]byte(pre))
	vCheck(String(s).MarshalADC(buf) == nil, "accepted")
	out := buf.Bytes()
	vCheck(string(out) == pre+vHom(s, sEsc), "every byte is written in its encoded form")
	vCheck(sNone(string(out[len(pre):]), " \n"), "no space and no line feed")
}

func H_A01_roundtrip() {
	s := vStr("s")
	buf := bytes.NewBuffer(nil)
	vCheck(String(s).MarshalADC(buf) == nil, "accepted")
	var got String
	vCheck(got.UnmarshalADC(buf.Bytes()) == nil, "decodes")
	vCheck(string(got) == s, "same text")
}

func H_A01_values() {
	s := vStr("s")
	t := vStr("t")
	vAssume(t != "")
	buf := bytes.NewBuffer(nil)
	vCheck(Marshal(buf, sAny{s, &t}) == nil, "accepted")
	var got sAny
	vCheck(Unmarshal(buf.Bytes(), &got) == nil, "decodes")
	vCheck(got.A == s, "same text")
	vCheck(got.B != nil && *got.B == t, "same text behind a pointer")
}

type sAny struct {
	A string  `adc:"#"`
	B *string `adc:"BB"`
}

func (sAny) Cmd() MsgType { return MsgType{'A', 'N', 'Y'} }
