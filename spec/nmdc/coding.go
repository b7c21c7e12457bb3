package nmdc

import (
	"bytes"
	"errors"
	"unicode/utf8"

	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// ---- N11: text encodings ----

// sCoder is any conversion of whole texts: a function of the text, which may fail. An empty text
// stays empty.
type sCoder struct {
	transform.NopResetter
	name string
	seen []sConv
}

type sConv struct {
	in, out string
	err     error
}

var errConv = errors.New("conversion")

func (c *sCoder) VConvert(s string) (string, error) {
	if s == "" {
		return "", nil
	}
	for _, v := range c.seen {
		if v.in == s {
			return v.out, v.err
		}
	}
	v := sConv{in: s}
	if vBool("fails") {
		v.err = errConv
	} else {
		v.out = vStr("converted")
	}
	c.seen = append(c.seen, v)
	return v.out, v.err
}

func (c *sCoder) Transform(dst, src []byte, atEOF bool) (int, int, error) {
	if !atEOF {
		return 0, 0, transform.ErrShortSrc
	}
	if len(src) == 0 {
		return 0, 0, nil
	}
	out, err := c.VConvert(string(src))
	if err != nil {
		return 0, 0, err
	}
	if len(out) > len(dst) {
		return 0, 0, transform.ErrShortDst
	}
	return copy(dst, out), len(src), nil
}

func sEncoder() (*TextEncoder, *sCoder) {
	c := &sCoder{}
	return &encoding.Encoder{Transformer: c}, c
}

func sDecoder() (*TextDecoder, *sCoder) {
	c := &sCoder{}
	return &encoding.Decoder{Transformer: c}, c
}

// conv converts a text that is known to convert.
func (c *sCoder) conv(s string) string {
	r, err := c.VConvert(s)
	vAssume(err == nil)
	return r
}

// list is a list of some texts, and of what they convert to.
func (c *sCoder) list() (l, k []string) {
	vBound("lists of at most three")
	for i := vPick("entries", 4); i > 0; i-- {
		s := vStr("entry")
		l, k = append(l, s), append(k, c.conv(s))
	}
	return l, k
}

// same says that some texts are the same in both encodings.
func (c *sCoder) same(texts ...string) {
	for _, s := range texts {
		c.seen = append(c.seen, sConv{in: s, out: s})
	}
}

// ---- names and texts ----

func H_N11_write_text() {
	enc, c := sEncoder()
	s, pre := vStr("s"), vStr("pre")
	buf := bytes.NewBufferString(pre)
	err := String(s).MarshalNMDC(enc, buf)
	out, cerr := c.VConvert(s)
	switch {
	case cerr != nil:
		vCheck(err == cerr && buf.String() == pre, "text that cannot be converted is refused")
	case !sNone(out, "\x00"):
		vCheck(err != nil, "null bytes are refused")
	default:
		vCheck(err == nil && buf.String() == pre+vHom(out, sText), "converted, then escaped")
	}
}

func H_N11_write_name() {
	enc, c := sEncoder()
	s, pre := vStr("s"), vStr("pre")
	buf := bytes.NewBufferString(pre)
	err := Name(s).MarshalNMDC(enc, buf)
	if err == nil || len(s) <= 256 {
		out, cerr := c.VConvert(s)
		if cerr != nil {
			vCheck(err == cerr && buf.String() == pre, "a name that cannot be converted is refused")
		} else if !sNone(out, "\x00\r\n\t$") {
			vCheck(err != nil, "illegal bytes are refused")
		} else {
			vCheck(err == nil && buf.String() == pre+vHom(out, sName), "converted, then escaped")
		}
	}
}

// sRead says what reading raw bytes must give.
func sRead(c *sCoder, raw string, got string, err error) {
	plain := sUnescape(raw)
	out, cerr := plain, error(nil)
	if c != nil {
		out, cerr = c.VConvert(plain)
	}
	if cerr != nil {
		vCheck(err == cerr, "what cannot be converted is refused")
	} else if !utf8.ValidString(out) {
		u, ok := err.(*errUnknownEncoding)
		vCheck(ok, "text in another encoding is reported as such")
		vCheck(string(u.text) == out, "with the text")
	} else {
		vCheck(err == nil && got == out, "unescaped, then converted")
	}
	vCheck(err == nil || got == "before", "nothing is delivered with an error")
}

func H_N11_read_text() {
	dec, c := sDecoder()
	raw := vStrNot("raw", "\x00")
	got := String("before")
	err := got.UnmarshalNMDC(dec, []byte(raw))
	sRead(c, raw, string(got), err)
}

func H_N11_read_text_utf8() {
	raw := vStrNot("raw", "\x00")
	got := String("before")
	err := got.UnmarshalNMDC(nil, []byte(raw))
	sRead(nil, raw, string(got), err)
}

func H_N11_read_name() {
	dec, c := sDecoder()
	raw := vStrNot("raw", "\x00\r\n\t$")
	vAssume(len(raw) <= 256)
	got := Name("before")
	err := got.UnmarshalNMDC(dec, []byte(raw))
	sRead(c, raw, string(got), err)
}

func H_N11_read_name_utf8() {
	raw := vStrNot("raw", "\x00\r\n\t$")
	vAssume(len(raw) <= 256)
	got := Name("before")
	err := got.UnmarshalNMDC(nil, []byte(raw))
	sRead(nil, raw, string(got), err)
}

// ---- every message ----

// sSameConverted says that writing m with an encoder is writing the converted texts without one.
func sSameConverted(enc *TextEncoder, m, conv Message) {
	a, b := bytes.NewBuffer(nil), bytes.NewBuffer(nil)
	err := m.MarshalNMDC(enc, a)
	err2 := conv.MarshalNMDC(nil, b)
	if err == nil && err2 == nil {
		vReach("written")
		vCheck(a.String() == b.String(), "the texts are converted")
	}
}

func H_N11_write_chat() {
	enc, c := sEncoder()
	n, t := vStr("name"), vStr("text")
	vAssume(n != "" && c.conv(n) != "")
	sSameConverted(enc, &ChatMessage{Name: n, Text: t}, &ChatMessage{Name: c.conv(n), Text: c.conv(t)})
}

func H_N11_write_chat_text() {
	enc, c := sEncoder()
	t := vStr("text")
	sSameConverted(enc, &ChatMessage{Text: t}, &ChatMessage{Text: c.conv(t)})
}

func H_N11_write_private() {
	enc, c := sEncoder()
	to, from, n, t := vStr("to"), vStr("from"), vStr("name"), vStr("text")
	sSameConverted(enc, &PrivateMessage{To: to, From: from, Name: n, Text: t}, &PrivateMessage{To: c.conv(to), From: c.conv(from), Name: c.conv(n), Text: c.conv(t)})
}

func H_N11_write_mcto() {
	enc, c := sEncoder()
	to, from, t := vStr("to"), vStr("from"), vStr("text")
	sSameConverted(enc, &MCTo{To: to, From: from, Text: t}, &MCTo{To: c.conv(to), From: c.conv(from), Text: c.conv(t)})
}

func H_N11_write_user_command() {
	enc, c := sEncoder()
	l, k := c.list()
	cmd := vStr("cmd")
	vAssume(cmd != "" && c.conv(cmd) != "")
	sSameConverted(enc, &UserCommand{Typ: 1, Context: 2, Path: l, Command: cmd}, &UserCommand{Typ: 1, Context: 2, Path: k, Command: c.conv(cmd)})
}

func H_N11_write_rev_connect() {
	enc, c := sEncoder()
	f, t := vStr("from"), vStr("to")
	sSameConverted(enc, &RevConnectToMe{From: f, To: t}, &RevConnectToMe{From: c.conv(f), To: c.conv(t)})
}

func H_N11_write_connect() {
	enc, c := sEncoder()
	f, t := vStr("src"), vStr("targ")
	k := CTMKind(vPick("kind", 3))
	vAssume(f != "" && c.conv(f) != "" && t != "" && c.conv(t) != "")
	sSameConverted(enc, &ConnectToMe{Src: f, Targ: t, Kind: k, Address: "a"}, &ConnectToMe{Src: c.conv(f), Targ: c.conv(t), Kind: k, Address: "a"})
}

func H_N11_write_files() {
	enc, c := sEncoder()
	a, b := vStr("type"), vStr("id")
	sSameConverted(enc, &ADCGet{ContentType: String(a), Identifier: String(b)}, &ADCGet{ContentType: String(c.conv(a)), Identifier: String(c.conv(b))})
	sSameConverted(enc, &ADCSnd{ContentType: String(a), Identifier: String(b)}, &ADCSnd{ContentType: String(c.conv(a)), Identifier: String(c.conv(b))})
}

func H_N11_write_names() {
	enc, c := sEncoder()
	s := vStr("name")
	n, k := Name(s), Name(c.conv(s))
	ms := []Message{&Hello{n}, &Kick{n}, &Close{n}, &ValidateNick{n}, &ValidateDenide{n}, &MyNick{n}, &Quit{n}, &LogedIn{n}}
	ks := []Message{&Hello{k}, &Kick{k}, &Close{k}, &ValidateNick{k}, &ValidateDenide{k}, &MyNick{k}, &Quit{k}, &LogedIn{k}}
	for i, m := range ms {
		sSameConverted(enc, m, ks[i])
	}
}

func H_N11_write_texts() {
	enc, c := sEncoder()
	s := vStr("text")
	t, k := String(s), String(c.conv(s))
	ms := []Message{&HubName{t}, &SetTopic{t}, &MyPass{t}, &BotINFO{t}, &SetIcon{t}, &SetLogo{t}, &HubTopic{string(t)}, &Failed{sTextErr(t)}, &Error{sTextErr(t)}}
	ks := []Message{&HubName{k}, &SetTopic{k}, &MyPass{k}, &BotINFO{k}, &SetIcon{k}, &SetLogo{k}, &HubTopic{string(k)}, &Failed{sTextErr(k)}, &Error{sTextErr(k)}}
	for i, m := range ms {
		sSameConverted(enc, m, ks[i])
	}
}

func H_N11_write_lists() {
	enc, c := sEncoder()
	l, k := c.list()
	sSameConverted(enc, &OpList{Names(l)}, &OpList{Names(k)})
	sSameConverted(enc, &BotList{Names(l)}, &BotList{Names(k)})
}

func H_N11_write_hub_info() {
	enc, c := sEncoder()
	n, d, o, s := vStr("name"), vStr("desc"), vStr("owner"), vStr("state")
	sSameConverted(enc, &HubINFO{Name: n, Desc: d, Owner: o, State: s}, &HubINFO{Name: c.conv(n), Desc: c.conv(d), Owner: c.conv(o), State: c.conv(s)})
}

func H_N11_write_search() {
	enc, c := sEncoder()
	u, p := vStr("user"), vStr("pattern")
	vAssume(u != "" && c.conv(u) != "")
	sSameConverted(enc, &Search{User: u, DataType: 1, Pattern: p}, &Search{User: c.conv(u), DataType: 1, Pattern: c.conv(p)})
}

func H_N11_write_sr_texts() {
	enc, c := sEncoder()
	c.same("me")
	p, h := vStr("path"), vStr("hub")
	d := vBool("dir")
	sSameConverted(enc, &SR{From: "me", Path: []string{p}, IsDir: d, HubName: h}, &SR{From: "me", Path: []string{c.conv(p)}, IsDir: d, HubName: c.conv(h)})
}

func H_N11_write_sr_names() {
	enc, c := sEncoder()
	f, t := vStr("from"), vStr("to")
	c.same("a", "hub")
	vAssume(t != "" && c.conv(t) != "")
	sSameConverted(enc, &SR{From: f, Path: []string{"a"}, IsDir: true, HubName: "hub", To: t}, &SR{From: c.conv(f), Path: []string{"a"}, IsDir: true, HubName: "hub", To: c.conv(t)})
}

func H_N11_write_my_info() {
	enc, c := sEncoder()
	n, d, o, e := vStr("name"), vStr("desc"), vStr("conn"), vStr("email")
	sSameConverted(enc, &MyINFO{Name: n, Desc: d, Mode: UserModeActive, Conn: o, Flag: FlagStatusNormal, Email: e},
		&MyINFO{Name: c.conv(n), Desc: c.conv(d), Mode: UserModeActive, Conn: c.conv(o), Flag: FlagStatusNormal, Email: c.conv(e)})
}

// sField says that a message with the raw text in one of its fields was read right.
func sField(c *sCoder, raw, got string, err error) {
	out, cerr := c.VConvert(sUnescape(raw))
	if cerr != nil {
		vCheck(err == cerr, "what cannot be converted is refused")
	} else if !utf8.ValidString(out) {
		u, ok := err.(*errUnknownEncoding)
		vCheck(ok, "text in another encoding is reported as such")
		vCheck(string(u.text) == out, "with the text")
	} else if err == nil {
		vReach("read")
		vCheck(got == out, "unescaped, then converted")
	}
}

// sRaw is a raw text without bytes that end it in a message.
func sRaw(ends string) string {
	s := vStrNot("raw", "\x00\r\n\t"+ends)
	vAssume(len(s) <= 256)
	return s
}

func H_N11_read_chat_name() {
	dec, c := sDecoder()
	raw := sRaw("$<>")
	vAssume(raw != "")
	c.same("text")
	var m ChatMessage
	err := m.UnmarshalNMDC(dec, []byte("<"+raw+"> text"))
	sField(c, raw, m.Name, err)
}

func H_N11_read_chat_text() {
	dec, c := sDecoder()
	raw := sRaw("$|")
	c.same("nick")
	var m ChatMessage
	err := m.UnmarshalNMDC(dec, []byte("<nick> "+raw))
	sField(c, raw, m.Text, err)
}

func H_N11_read_private() {
	dec, c := sDecoder()
	raw := sRaw(" $<>")
	vAssume(raw != "")
	c.same("a", "b", "x")
	var m PrivateMessage
	var err error
	switch vPick("field", 4) {
	case 0:
		err = m.UnmarshalNMDC(dec, []byte(raw+" From: a $<b> x"))
		sField(c, raw, m.To, err)
	case 1:
		err = m.UnmarshalNMDC(dec, []byte("a From: "+raw+" $<b> x"))
		sField(c, raw, m.From, err)
	case 2:
		err = m.UnmarshalNMDC(dec, []byte("a From: b $<"+raw+"> x"))
		sField(c, raw, m.Name, err)
	case 3:
		err = m.UnmarshalNMDC(dec, []byte("a From: b $<a> "+raw))
		sField(c, raw, m.Text, err)
	}
}

func H_N11_read_mcto() {
	dec, c := sDecoder()
	raw := sRaw(" $<>")
	vAssume(raw != "")
	c.same("a", "b", "x")
	var m MCTo
	var err error
	switch vPick("field", 3) {
	case 0:
		err = m.UnmarshalNMDC(dec, []byte(raw+" $b x"))
		sField(c, raw, m.To, err)
	case 1:
		err = m.UnmarshalNMDC(dec, []byte("a $"+raw+" x"))
		sField(c, raw, m.From, err)
	case 2:
		err = m.UnmarshalNMDC(dec, []byte("a $b "+raw))
		sField(c, raw, m.Text, err)
	}
}

func H_N11_read_user_command_path() {
	dec, c := sDecoder()
	raw := sRaw(" $\\")
	vAssume(raw != "")
	c.same("x")
	var m UserCommand
	err := m.UnmarshalNMDC(dec, []byte("1 3 "+raw+" $x"))
	got := ""
	if err == nil && len(m.Path) == 1 {
		got = m.Path[0]
	}
	sField(c, raw, got, err)
}

func H_N11_read_user_command() {
	dec, c := sDecoder()
	raw := sRaw("$")
	vAssume(raw != "" && raw[len(raw)-1] > ' ' && raw[len(raw)-1] <= '~')
	c.same("p")
	var m UserCommand
	err := m.UnmarshalNMDC(dec, []byte("1 3 p $"+raw))
	sField(c, raw, m.Command, err)
}

func H_N11_read_rev_connect() {
	dec, c := sDecoder()
	raw := sRaw(" $")
	c.same("a")
	var m RevConnectToMe
	if vBool("to") {
		err := m.UnmarshalNMDC(dec, []byte("a "+raw))
		sField(c, raw, m.To, err)
	} else {
		err := m.UnmarshalNMDC(dec, []byte(raw+" a"))
		sField(c, raw, m.From, err)
	}
}

func H_N11_read_connect() {
	dec, c := sDecoder()
	raw := sRaw(" $")
	vAssume(raw != "")
	c.same("a")
	var m ConnectToMe
	if vBool("src") {
		err := m.UnmarshalNMDC(dec, []byte("a 1.2.3.4:56N "+raw))
		sField(c, raw, m.Src, err)
	} else {
		err := m.UnmarshalNMDC(dec, []byte(raw+" 1.2.3.4:56"))
		sField(c, raw, m.Targ, err)
	}
}

func H_N11_read_files() {
	dec, c := sDecoder()
	raw := sRaw(" ")
	c.same("a")
	get, snd := ADCGet{}, ADCSnd{}
	switch vPick("field", 4) {
	case 0:
		err := get.UnmarshalNMDC(dec, []byte(raw+" a 1 2"))
		sField(c, raw, string(get.ContentType), err)
	case 1:
		err := get.UnmarshalNMDC(dec, []byte("a "+raw+" 1 2"))
		sField(c, raw, string(get.Identifier), err)
	case 2:
		err := snd.UnmarshalNMDC(dec, []byte(raw+" a 1 2"))
		sField(c, raw, string(snd.ContentType), err)
	case 3:
		err := snd.UnmarshalNMDC(dec, []byte("a "+raw+" 1 2"))
		sField(c, raw, string(snd.Identifier), err)
	}
}

func H_N11_read_names() {
	dec, c := sDecoder()
	raw := sRaw("$")
	var n Name
	var err error
	switch vPick("message", 8) {
	case 0:
		m := Hello{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	case 1:
		m := Kick{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	case 2:
		m := Close{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	case 3:
		m := ValidateNick{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	case 4:
		m := ValidateDenide{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	case 5:
		m := MyNick{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	case 6:
		m := Quit{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	case 7:
		m := LogedIn{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		n = m.Name
	}
	sField(c, raw, string(n), err)
}

func H_N11_read_texts() {
	dec, c := sDecoder()
	raw := sRaw("")
	got := ""
	var err error
	switch vPick("message", 9) {
	case 0:
		m := HubName{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		got = string(m.String)
	case 1:
		m := SetTopic{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		got = string(m.String)
	case 2:
		m := MyPass{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		got = string(m.String)
	case 3:
		m := BotINFO{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		got = string(m.String)
	case 4:
		m := SetIcon{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		got = string(m.String)
	case 5:
		m := SetLogo{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		got = string(m.String)
	case 6:
		m := HubTopic{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		got = m.Text
	case 7:
		m := Failed{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		if m.Err != nil {
			got = m.Err.Error()
		}
	case 8:
		m := Error{}
		err = m.UnmarshalNMDC(dec, []byte(raw))
		if m.Err != nil {
			got = m.Err.Error()
		}
	}
	sField(c, raw, got, err)
}

func H_N11_read_lists() {
	dec, c := sDecoder()
	raw := sRaw("$")
	vAssume(raw != "")
	c.same("a")
	var n Names
	err := n.UnmarshalNMDC(dec, []byte("a$$"+raw+"$$"))
	got := ""
	if err == nil && len(n) == 2 {
		got = n[1]
	}
	sField(c, raw, got, err)
}

func H_N11_read_hub_info() {
	dec, c := sDecoder()
	raw := sRaw("$")
	c.same("a", "b", "c", "d")
	var m HubINFO
	var err error
	switch vPick("field", 4) {
	case 0:
		err = m.UnmarshalNMDC(dec, []byte(raw+"$h$b$1$2$3$4$s$c$d$e"))
		sField(c, raw, m.Name, err)
	case 1:
		err = m.UnmarshalNMDC(dec, []byte("a$h$"+raw+"$1$2$3$4$s$c$d$e"))
		sField(c, raw, m.Desc, err)
	case 2:
		err = m.UnmarshalNMDC(dec, []byte("a$h$b$1$2$3$4$s$"+raw+"$d$e"))
		sField(c, raw, m.Owner, err)
	case 3:
		err = m.UnmarshalNMDC(dec, []byte("a$h$b$1$2$3$4$s$c$"+raw+"$e"))
		sField(c, raw, m.State, err)
	}
}

func H_N11_read_search() {
	dec, c := sDecoder()
	raw := sRaw(" $?")
	c.same("a")
	var m Search
	if vBool("user") {
		err := m.UnmarshalNMDC(dec, []byte("Hub:"+raw+" F?F?0?1?a"))
		sField(c, raw, m.User, err)
	} else {
		err := m.UnmarshalNMDC(dec, []byte("Hub:a F?F?0?1?"+raw))
		sField(c, raw, m.Pattern, err)
	}
}

func H_N11_read_sr_names() {
	dec, c := sDecoder()
	raw := sRaw(" $\x05")
	c.same("a", "p", "hub")
	var m SR
	if vBool("to") {
		err := m.UnmarshalNMDC(dec, []byte("a p 1/2\x05hub (1.2.3.4)\x05"+raw))
		sField(c, raw, m.To, err)
	} else {
		err := m.UnmarshalNMDC(dec, []byte(raw+" p 1/2\x05hub (1.2.3.4)\x05a"))
		sField(c, raw, m.From, err)
	}
}

func H_N11_read_sr_hub() {
	dec, c := sDecoder()
	raw := sRaw("$\x05 ()T")
	c.same("a", "p")
	var m SR
	err := m.UnmarshalNMDC(dec, []byte("a p 1/2\x05"+raw+" (1.2.3.4)\x05a"))
	sField(c, raw, m.HubName, err)
}

func H_N11_read_my_info() {
	dec, c := sDecoder()
	raw := sRaw(" $<>")
	c.same("a", "b", "c", "d")
	var m MyINFO
	var err error
	switch vPick("field", 4) {
	case 0:
		err = m.UnmarshalNMDC(dec, []byte("$ALL "+raw+" b$ $c\x01$d$5$"))
		sField(c, raw, m.Name, err)
	case 1:
		err = m.UnmarshalNMDC(dec, []byte("$ALL a "+raw+"$ $c\x01$d$5$"))
		sField(c, raw, m.Desc, err)
	case 2:
		err = m.UnmarshalNMDC(dec, []byte("$ALL a b$ $"+raw+"\x01$d$5$"))
		sField(c, raw, m.Conn, err)
	case 3:
		err = m.UnmarshalNMDC(dec, []byte("$ALL a b$ $c\x01$"+raw+"$5$"))
		sField(c, raw, m.Email, err)
	}
}

// ---- the reader and its encoding ----

// sCod is what is known while messages are read.
var sCod struct {
	on    bool
	r     *Reader
	st    *sLines
	decs  []*TextDecoder // the decoders: the one at the start, if any, and the new one
	cur   int            // the one in use now
	asked int            // what the handler answered for this message
	text  string
	err   error
}

// sText is a message whose text is in some encoding.
type sCoded struct {
	typ, val string
}

func sDecIndex(dec *TextDecoder) string {
	for i, d := range sCod.decs {
		if d == dec {
			return string([]byte{'0' + byte(i)})
		}
	}
	return "n"
}

func (m *sCoded) Type() string { return m.typ }

func (m *sCoded) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error { panic("not used") }

func (m *sCoded) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
	key, d := m.typ+"\x00"+string(data), sDecIndex(dec)
	switch vUF("how"+d, 1, key) {
	case "u":
		return &errUnknownEncoding{text: []byte(vUF("text"+d, len(data), key))}
	case "f":
		return errDecode
	}
	m.val = vUF("coded"+d, len(data), key)
	return nil
}

//verif:summary NewMessage N11R by H_X_new_message,H_X_new_unknown
func S11_NewMessage(typ string) Message { return &sCoded{typ: typ} }

//verif:summary (*ChatMessage).UnmarshalNMDC N11R by H_N02_chat_with_name,H_N02_chat_without_name
func S11_ChatMessage(m *ChatMessage, dec *TextDecoder, data []byte) error {
	var c sCoded
	if err := c.UnmarshalNMDC(dec, data); err != nil {
		return err
	}
	m.Name = ""
	m.Text = c.val
	return nil
}

//verif:inv (*Reader).readMsgTo 0 N11R
func I11_readMsgTo(dec *TextDecoder) bool {
	if !sCod.on {
		return true
	}
	return sCod.cur >= 0 && sCod.cur < len(sCod.decs) && dec == sCod.decs[sCod.cur] && sCod.r.Decoder() == dec && sCod.asked == 0 && sCod.err == nil && sCod.st.err == nil
}

// Any number of messages, some of them dropped by a message hook.
//
//verif:scope N11R
func H_N11_reader() { sReaderCoding(false) }

// Any number of messages, some of them dropped because they do not decode.
//
//verif:scope N11R
func H_N11_reader_errors() { sReaderCoding(true) }

func sReaderCoding(errors bool) {
	st := &sLines{}
	r := NewReader(st)
	var start *TextDecoder
	if vBool("decoder") {
		start, _ = sDecoder()
		r.SetDecoder(start)
	}
	next, _ := sDecoder()
	sCod.on, sCod.r, sCod.st, sCod.decs, sCod.cur, sCod.asked, sCod.err = true, r, st, []*TextDecoder{start, next}, 0, 0, nil
	r.OnUnknownEncoding = func(text []byte) (*TextDecoder, error) {
		_, typ, args := sParts(st.line)
		vCheck(sCod.asked == 0, "asked once for a message")
		u, ok := sFresh(typ).UnmarshalNMDC(sCod.decs[sCod.cur], []byte(args)).(*errUnknownEncoding)
		vCheck(ok, "asked only about text in an unknown encoding")
		vCheck(string(text) == string(u.text), "shown the text")
		switch vPick("answer", 3) {
		case 0:
			sCod.asked, sCod.cur = 1, 1
			return next, nil
		case 1:
			sCod.asked = 2
			return nil, nil
		}
		sCod.asked, sCod.err = 3, errConv
		return nil, errConv
	}
	if errors {
		r.OnUnmarshalError = func(text []byte, err error) (bool, error) {
			if vBool("ignore") {
				sCod.asked = 0
				return false, nil
			}
			return true, err
		}
	} else {
		r.OnMessage(func(m Message) (bool, error) {
			if vBool("drop") {
				sCod.asked = 0
				return false, nil
			}
			return true, nil
		})
	}
	m, err := r.ReadMsg()
	vCheck(r.Decoder() == sCod.decs[sCod.cur], "a new decoder is used from then on, any other stays")
	if sCod.err != nil {
		vCheck(err == sCod.err && m == nil, "the handler's error is returned")
		return
	}
	if st.err != nil {
		vCheck(err == st.err && m == nil, "the error of the connection")
		return
	}
	if err != nil {
		vCheck(m == nil, "either a message or an error")
		return
	}
	_, typ, args := sParts(st.line)
	dec, data := sCod.decs[sCod.cur], []byte(args)
	if sCod.asked == 2 {
		dec, data = nil, bytes.Map(func(r rune) rune { return r }, data)
	}
	want := sFresh(typ)
	vCheck(want.UnmarshalNMDC(dec, data) == nil, "what does not decode is not delivered")
	vCheck(m.Type() == typ && vEq(m, want), "decoded completely with the decoder in use")
}
