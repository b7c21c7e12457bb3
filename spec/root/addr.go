package dc

import (
	"errors"
	"net"
	"net/url"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

// ---- U01: hub addresses ----

// What is relied on about net/url: Parse is a function of the text; the scheme is what stands
// before the first colon, in lower case, if that is a name; only an address with :// has a
// host; String starts with the scheme, and parsing what String returned for an address with
// a scheme and a host gives an address with the same text and the same parts.

type sParsed struct {
	text string
	u    url.URL
	err  error
}

type sPrinted struct {
	u    url.URL
	text string
}

var sU struct {
	parsed  []sParsed
	printed []sPrinted
}

var errURL = errors.New("url")

const (
	sLetters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	sName    = sLetters + "0123456789+-."
)

func sIsScheme(s string) bool {
	return s != "" && vIn(s[:1], sLetters) && vIn(s, sName)
}

//verif:model net/url.Parse
func M_url_Parse(s string) (*url.URL, error) {
	for _, p := range sU.parsed {
		if p.text == s {
			u := p.u
			return &u, p.err
		}
	}
	for _, p := range sU.printed {
		if p.u.Scheme != "" && p.u.Host != "" && p.text == s {
			u := p.u
			return &u, nil
		}
	}
	if vPick("url", 2) == 0 {
		sU.parsed = append(sU.parsed, sParsed{text: s, err: errURL})
		return nil, errURL
	}
	var u url.URL
	u.Path, u.RawPath = vStr("path"), vStr("rawpath")
	u.RawQuery, u.Fragment = vStr("query"), vStr("fragment")
	i := strings.IndexByte(s, ':')
	vAssume(i != 0)
	rest := s
	if i > 0 && sIsScheme(s[:i]) {
		u.Scheme = strings.ToLower(s[:i])
		rest = s[i+1:]
	}
	if strings.HasPrefix(rest, "//") {
		u.Host = vStr("host")
		if vPick("user", 2) == 0 {
			u.User = new(url.Userinfo)
		}
	} else if u.Scheme != "" {
		u.Opaque = vStr("opaque")
	}
	sU.parsed = append(sU.parsed, sParsed{text: s, u: u})
	return &u, nil
}

//verif:model (*net/url.URL).String
func M_url_String(u *url.URL) string {
	for _, p := range sU.printed {
		if sSame(&p.u, u) {
			return p.text
		}
	}
	text := vStr("text")
	if u.Scheme != "" {
		text = u.Scheme + ":" + text
		if u.Host != "" {
			text = u.Scheme + "://" + vStr("text")
		}
	}
	sU.printed = append(sU.printed, sPrinted{*u, text})
	return text
}

func sSame(a, b *url.URL) bool {
	return a.Scheme == b.Scheme && a.Opaque == b.Opaque && sSameUser(a.User, b.User) && a.Host == b.Host && a.Path == b.Path &&
		a.RawPath == b.RawPath && a.ForceQuery == b.ForceQuery && a.RawQuery == b.RawQuery && a.Fragment == b.Fragment
}

func sSameUser(a, b *url.Userinfo) bool {
	if vProving() || a == nil || b == nil {
		return a == b
	}
	return a.String() == b.String()
}

// sIsADC: the address has the scheme adc or adcs.
func sIsADC(addr string) bool {
	i := strings.Index(addr, "://")
	if i < 0 {
		return false
	}
	s := strings.ToLower(addr[:i])
	return s == "adc" || s == "adcs"
}

// sParse is how an address is to be read.
func sParse(addr string) (*url.URL, bool) {
	if !strings.Contains(addr, "://") {
		addr = "dchub://" + addr
	}
	u, err := url.Parse(addr)
	if err != nil {
		return nil, false
	}
	if u.Scheme == "nmdc" {
		u.Scheme = "dchub"
	}
	u.Path = strings.TrimRight(u.Path, "/")
	return u, true
}

func sKnown(scheme string, isADC bool) bool {
	if isADC {
		return scheme == "adc" || scheme == "adcs"
	}
	return scheme == "dchub" || scheme == "nmdcs"
}

func sCheckParsed(got *url.URL, err error, addr string, isADC bool) {
	want, ok := sParse(addr)
	if !ok || !sKnown(want.Scheme, isADC) {
		vCheck(err != nil, "refused")
		return
	}
	vCheck(err == nil && got != nil, "accepted")
	vCheck(sSame(got, want), "read as it should be")
}

// sAddr is any text.
func sAddr() string {
	if vProving() {
		return vStr("addr")
	}
	out := ""
	for _, part := range [][]string{
		{"adc://", "adcs://", "adc\u017f://", "adcss://", "nmdcx://", "dchubs://", "dchub://", "nmdc://", "nmdcs://", "ADC://", "NMDC://", "http://", "adc:", "adcx://", "://", "", "", ""},
		{"", "", "", "user@", "u:p@"},
		{"localhost", "127.0.0.1", "[fe80::1%25en0]", "[::1]", "[]", "Hub.Example", "", "hÃ©", "adc", "adc.example"},
		{":411", ":", ":1511", "", "", ":x"},
		{"", "", "/", "//", "/a%2F/", "/path", "/p%20q/", "/a b", "/a/://"},
		{"", "", "", "?q=1", "?", "?kp=SHA256/x", "#f", "#"},
	} {
		switch vPick("any", 12) {
		case 0:
			out += vStr("part")
		case 1:
		default:
			out += part[vPick("part", len(part))]
		}
	}
	return out
}

func H_U01_parse() {
	addr := sAddr()
	got, err := ParseAddr(addr)
	isADC := sIsADC(addr)
	sCheckParsed(got, err, addr, isADC)
	if err == nil {
		vCheck(!strings.HasSuffix(got.Path, "/"), "no slash at the end")
		vCheck((got.Scheme == adc.SchemaADC || got.Scheme == adc.SchemaADCS) == isADC, "routed by the scheme")
	}
}

func H_U01_parse_adc() {
	addr := sAddr()
	vAssume(strings.Contains(addr, "://"))
	got, err := adc.ParseAddr(addr)
	sCheckParsed(got, err, addr, true)
}

func H_U01_parse_nmdc() {
	addr := sAddr()
	got, err := nmdc.ParseAddr(addr)
	sCheckParsed(got, err, addr, false)
}

// sHost: the address has a host, and a port where that is required.
func sHost(hostport string, isADC bool) bool {
	host, _, err := net.SplitHostPort(hostport)
	if err != nil && !isADC {
		host, _, err = net.SplitHostPort(hostport + ":411")
	}
	return err == nil && host != ""
}

func H_U01_normalize() {
	addr := sAddr()
	s, err := NormalizeAddr(addr)
	isADC := sIsADC(addr)
	want, ok := sParse(addr)
	if !ok || !sKnown(want.Scheme, isADC) || !sHost(want.Host, isADC) {
		vCheck(err != nil, "refused")
		return
	}
	vCheck(err == nil, "accepted")
	vCheck(s == want.String(), "the text of the parsed address")
}

func H_U01_idempotent() {
	addr := sAddr()
	s, err := NormalizeAddr(addr)
	if err != nil {
		return
	}
	t, err := NormalizeAddr(s)
	vCheck(err == nil, "a normalised address is accepted")
	vCheck(t == s, "a normalised address is returned unchanged")
}
