package nmdc

import (
	"bytes"
	"errors"

	"github.com/direct-connect/go-dc/lineproto"
)

// ---- the connection ----

type sSink struct {
	text  string // all that was sent
	lines int
	err   error
}

var (
	_       lineproto.VLineSink = (*sSink)(nil)
	errSink                     = errors.New("sink")
)

func (s *sSink) VLine(data []byte) error {
	if vBool("fails") {
		s.err = errSink
		return errSink
	}
	s.text += string(data)
	s.lines++
	return nil
}

func (s *sSink) Write(p []byte) (int, error) {
	s.text += string(p)
	return len(p), nil
}

// ---- messages of any kind ----

// sOut is a message whose payload is any bytes, or cannot be encoded.
type sOut struct {
	typ, payload string
	bad          error
	enc          *TextEncoder // what it was encoded with
	times        int
}

func (m *sOut) Type() string { return m.typ }

func (m *sOut) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
	m.enc = enc
	m.times++
	buf.WriteString(m.payload)
	return m.bad
}

func (m *sOut) UnmarshalNMDC(dec *TextDecoder, data []byte) error { panic("not used") }

var errEncode = errors.New("encode")

func sOutMsg() *sOut {
	m := &sOut{typ: vStr("typ"), payload: vStr("payload")}
	if vBool("bad") {
		m.bad = errEncode
	}
	return m
}

// sWire is how a message looks on the wire.
func sWire(m *sOut) string {
	switch {
	case m.typ == "":
		return m.payload + "|"
	case m.payload == "":
		return "$" + m.typ + "|"
	}
	return "$" + m.typ + " " + m.payload + "|"
}

// sWriter is a writer that has been used before.
func sUsedWriter() (*Writer, *sSink) {
	st := &sSink{}
	w := NewWriter(st)
	w.mbuf.WriteString(vStr("left over"))
	return w, st
}

// ---- N10 ----

func H_N10_marshal() {
	m := sOutMsg()
	pre := vStr("pre")
	buf := bytes.NewBuffer([]byte(pre))
	err := MarshalTo(nil, buf, m)
	vCheck(err == m.bad, "a message that cannot be encoded is an error")
	vCheck(err != nil || buf.String() == pre+sWire(m), "command, payload and delimiter")
	data, err := Marshal(nil, m)
	vCheck(err == m.bad, "a message that cannot be encoded is an error")
	vCheck(err != nil || string(data) == sWire(m), "command, payload and delimiter")
	vCheck(err == nil || data == nil, "no bytes with an error")
}

func H_N10_write_one() {
	w, st := sUsedWriter()
	m := sOutMsg()
	err := w.WriteMsg(m)
	_ = w.Flush()
	switch {
	case m.bad != nil:
		vCheck(err == m.bad, "a message that cannot be encoded is an error")
		vCheck(st.text == "", "nothing of it is sent")
	case st.err != nil:
		vCheck(err != nil, "the error of the connection is returned")
		vCheck(st.text == "", "nothing is sent")
	default:
		vCheck(err == nil, "sent")
		vCheck(st.text == sWire(m), "as one line")
	}
	vCheck(m.times == 1, "encoded once")
}

func H_N10_failed_writer() {
	w, st := sUsedWriter()
	lineproto.VFailed(w.Writer, errSink)
	m := sOutMsg()
	vCheck(w.WriteMsg(m) != nil, "refused")
	vCheck(w.WriteKeepAlive() != nil, "refused")
	vCheck(st.text == "" && m.times == 0, "nothing is encoded or sent")
}

func H_N10_keep_alive() {
	w, st := sUsedWriter()
	err := w.WriteKeepAlive()
	_ = w.Flush()
	vCheck((err == nil) == (st.err == nil), "errors are returned")
	vCheck(st.err != nil || st.text == "|", "an empty message")
}

// A dropped message in a call does not keep the others from being sent.
func H_N10_drop_in_call() {
	w, st := sUsedWriter()
	a, b := sOutMsg(), sOutMsg()
	vAssume(a.bad == nil && b.bad == nil)
	da, db := vBool("drop a"), vBool("drop b")
	w.OnMessage(func(m Message) (bool, error) {
		if m == Message(a) {
			return !da, nil
		}
		return !db, nil
	})
	err := w.WriteMsg(a, b)
	_ = w.Flush()
	if st.err != nil {
		vCheck(err != nil, "the error of the connection is returned")
		return
	}
	want := ""
	if !da {
		want += sWire(a)
	}
	if !db {
		want += sWire(b)
	}
	vCheck(err == nil && st.text == want, "all but the dropped messages")
}

// ---- no delimiter inside the text of a message ----

func sNoDelim(m Message) {
	buf := bytes.NewBuffer(nil)
	if m.MarshalNMDC(nil, buf) != nil {
		return
	}
	vCheck(sNone(buf.String(), "|"), "no delimiter inside")
}

func H_N10_text_chat() { sNoDelim(&ChatMessage{Name: vStr("name"), Text: vStr("text")}) }
func H_N10_text_private() {
	sNoDelim(&PrivateMessage{To: vStr("to"), From: vStr("from"), Name: vStr("name"), Text: vStr("text")})
}
func H_N10_text_mcto()        { sNoDelim(&MCTo{To: vStr("to"), From: vStr("from"), Text: vStr("text")}) }
func H_N10_text_rev_connect() { sNoDelim(&RevConnectToMe{From: vStr("from"), To: vStr("to")}) }
func H_N10_text_connect() {
	sNoDelim(&ConnectToMe{Targ: vStr("targ"), Src: vStr("src"), Address: vStrNot("addr", "|"), Kind: CTMKind(vPick("kind", 3)), Secure: vBool("secure")})
}
func H_N10_text_adcget() {
	sNoDelim(&ADCGet{ContentType: String(vStr("type")), Identifier: String(vStr("id")), Start: 1, Length: -1, Compressed: vBool("z")})
}
func H_N10_text_adcsnd() {
	sNoDelim(&ADCSnd{ContentType: String(vStr("type")), Identifier: String(vStr("id")), Start: 1, Length: 1, Compressed: vBool("z")})
}
func H_N10_text_names() {
	n := Name(vStr("name"))
	for _, m := range []Message{&Hello{n}, &Kick{n}, &Close{n}, &ValidateNick{n}, &ValidateDenide{n}, &MyNick{n}, &Quit{n}, &LogedIn{n}} {
		sNoDelim(m)
	}
}
func H_N10_text_strings() {
	s := String(vStr("text"))
	for _, m := range []Message{&HubName{s}, &SetTopic{s}, &MyPass{s}, &BotINFO{s}, &SetIcon{s}, &SetLogo{s}, &HubTopic{string(s)}, &Failed{sTextErr(s)}, &Error{sTextErr(s)}} {
		sNoDelim(m)
	}
}
func H_N10_text_hub_info() {
	m := &HubINFO{Name: vStr("name"), Host: vStrNot("host", "|"), Desc: vStr("desc"), Owner: vStr("owner"), State: vStr("state"), Encoding: vStrNot("enc", "|")}
	m.Soft.Name, m.Soft.Version = vStrNot("soft", "|"), vStrNot("vers", "|")
	sNoDelim(m)
}
func H_N10_text_search() {
	sNoDelim(&Search{Address: vStrNot("addr", "|"), User: vStr("user"), DataType: 1, Pattern: vStr("pattern")})
}
func H_N10_text_my_info() {
	sNoDelim(&MyINFO{Name: vStr("name"), Desc: vStr("desc"), Mode: UserModeActive, Conn: vStr("conn"), Flag: FlagStatusNormal, Email: vStr("email")})
}

type sTextErr string

func (e sTextErr) Error() string { return string(e) }
