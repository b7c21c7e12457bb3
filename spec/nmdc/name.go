package nmdc

import (
	"bytes"
	"unicode/utf8"
)

// ---- specification functions ----

// sText is the encoded form of one byte of text.
func sText(c byte) string {
	switch c {
	case '&':
		return "&amp;"
	case '$':
		return "&#36;"
	case '|':
		return "&#124;"
	}
	return string([]byte{c})
}

// sName is the encoded form of one byte of a user name.
func sName(c byte) string {
	switch c {
	case '&':
		return "&amp;"
	case '<':
		return "&lt;"
	case '>':
		return "&gt;"
	case '$':
		return "&#36;"
	case '|':
		return "&#124;"
	}
	return string([]byte{c})
}

func sNoDCN(s string) bool { return !bytes.Contains([]byte(s), []byte("/%DCN")) }
func sNone(s, set string) bool { return !bytes.ContainsAny([]byte(s), set) }

// sTextOK: a text that a message can carry.
func sTextOK(s string) bool { return sNone(s, "\x00") && utf8.ValidString(s) && sNoDCN(s) }

// sNameOK: a name that a message can carry.
func sNameOK(s string) bool {
	return sNone(s, "\x00\r\n\t$") && len(vHom(s, sName)) <= 256 && utf8.ValidString(s) && sNoDCN(s)
}

func H_N01_text_roundtrip() {
	s := vStrNot("s", "\x00")
	vAssume(sTextOK(s))
	buf := bytes.NewBuffer(nil)
	err := String(s).MarshalNMDC(nil, buf)
	vCheck(err == nil, "accepted")
	var got String
	err = got.UnmarshalNMDC(nil, buf.Bytes())
	vCheck(err == nil, "decodes")
	vCheck(string(got) == s, "same text")
}

func H_N01_text_encoding() {
	s := vStr("s")
	pre := vStr("pre")
	buf := bytes.NewBuffer([]byte(pre))
	err := String(s).MarshalNMDC(nil, buf)
	if err != nil {
		vCheck(!sNone(s, "\x00"), "only null bytes are refused")
		return
	}
	vCheck(sNone(s, "\x00"), "null bytes are refused")
	out := string(buf.Bytes())
	vCheck(out == pre+vHom(s, sText), "every byte is written in its encoded form")
	vCheck(sNone(out[len(pre):], "|$"), "no delimiter and no dollar sign")
}

func H_N01_name_roundtrip() {
	s := vStrNot("s", "\x00\r\n\t$")
	vAssume(sNameOK(s))
	buf := bytes.NewBuffer(nil)
	err := Name(s).MarshalNMDC(nil, buf)
	vCheck(err == nil, "accepted")
	var got Name
	err = got.UnmarshalNMDC(nil, buf.Bytes())
	vCheck(err == nil, "decodes")
	vCheck(string(got) == s, "same name")
}

func H_N01_name_encoding() {
	s := vStr("s")
	buf := bytes.NewBuffer(nil)
	err := Name(s).MarshalNMDC(nil, buf)
	if err != nil {
		vCheck(!sNone(s, "\x00\r\n\t$") || len(s) > 256, "only illegal names are refused")
		return
	}
	vCheck(sNone(s, "\x00\r\n\t$"), "illegal bytes are refused")
	vCheck(len(s) <= 256, "long names are refused")
	out := string(buf.Bytes())
	vCheck(out == vHom(s, sName), "every byte is written in its encoded form")
	vCheck(sNone(out, "|$<>"), "no delimiter, dollar sign or angle bracket")
}

func H_N01_name_decoding_refuses() {
	s := vStr("s")
	var got Name
	err := got.UnmarshalNMDC(nil, []byte(s))
	if err == nil {
		vCheck(len(s) <= 256, "long names are refused")
		vCheck(sNone(s, "\x00\r\n\t$"), "illegal bytes are refused")
	}
}

func H_N01_text_decoding_refuses() {
	s := vStr("s")
	var got String
	err := got.UnmarshalNMDC(nil, []byte(s))
	if err == nil {
		vCheck(sNone(s, "\x00"), "null bytes are refused")
	}
}

func H_N01_escape_helpers() {
	s := vStrNot("s", "\x00")
	vAssume(sNoDCN(s))
	buf := bytes.NewBuffer(nil)
	vCheck(String(s).MarshalNMDC(nil, buf) == nil, "encodes")
	vCheck(string(UnescapeBytes(buf.Bytes())) == s, "unescaping undoes escaping")
}
