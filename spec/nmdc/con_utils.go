package nmdc

import (
	"bytes"
	"html"
	"strings"
)

//verif:contract escapeString
func C_escapeString(sw *bytes.Buffer, s string) error {
	want := bytes.NewBufferString(vBuf(sw))
	werr := E_escapeString(want, s)
	vModifies(sw)
	err := escapeString(sw, s)
	vEnsure((err == nil) == (werr == nil), "exactly null bytes are refused")
	if err == nil {
		vEnsure(vBuf(sw) == vBuf(want), "every byte is appended in its encoded form")
	}
	return err
}

//verif:exact escapeString
func E_escapeString(sw *bytes.Buffer, s string) error {
	if !sNone(s, "\x00") {
		return vNewErr("text")
	}
	sw.WriteString(vHom(s, sText))
	return nil
}

//verif:contract escapeName
func C_escapeName(sw *bytes.Buffer, s string) error {
	want := bytes.NewBufferString(vBuf(sw))
	werr := E_escapeName(want, s)
	vModifies(sw)
	err := escapeName(sw, s)
	vEnsure((err == nil) == (werr == nil), "exactly illegal bytes are refused")
	if err == nil {
		vEnsure(vBuf(sw) == vBuf(want), "every byte is appended in its encoded form")
	}
	return err
}

//verif:exact escapeName
func E_escapeName(sw *bytes.Buffer, s string) error {
	if !sNone(s, "\x00\r\n\t$") {
		return vNewErr("name")
	}
	sw.WriteString(vHom(s, sName))
	return nil
}

var sLegacy = strings.NewReplacer(
	"/%DCN000%/", "\x00",
	"/%DCN005%/", "\x05",
	"/%DCN036%/", "$",
	"/%DCN096%/", "`",
	"/%DCN124%/", "|",
	"/%DCN126%/", "~",
)

// sUnescape undoes both escape forms.
func sUnescape(s string) string { return html.UnescapeString(sLegacy.Replace(s)) }

//verif:contract UnescapeBytes
func C_UnescapeBytes(b []byte) []byte {
	in := string(b)
	r := UnescapeBytes(b)
	vEnsure(string(r) == sUnescape(in), "both escape forms are undone")
	return r
}

//verif:exact UnescapeBytes
func E_UnescapeBytes(b []byte) []byte { return []byte(sUnescape(string(b))) }
