package nmdc

import (
	"bytes"
	"errors"
	"io"
	"reflect"
)

// ---- N06: the right message or the right error ----

const sCmdChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/-_.:"

//verif:contract isASCII
func C_isASCII(p []byte) bool {
	r := isASCII(p)
	vEnsure(r == vIn(string(p), sCmdChars), "letters, digits and a few punctuation marks")
	return r
}

//verif:exact isASCII
func E_isASCII(p []byte) bool { return vIn(string(p), sCmdChars) }

//verif:inv isASCII 0
func I_isASCII(p []byte, rangeindex int) bool {
	return -1 <= rangeindex && rangeindex < len(p) && vIn(string(p[:rangeindex+1]), sCmdChars)
}

// Every type name gives a new message of that type.
func H_X_new_message() {
	for _, typ := range RegisteredTypes() {
		m := NewMessage(typ)
		vCheck(m != nil && m.Type() == typ, "a registered name gives a message of that type")
		rv := reflect.ValueOf(m)
		vCheck(rv.Kind() == reflect.Ptr && vEq(m, reflect.New(rv.Type().Elem()).Interface()), "the message is empty")
		vCheck(IsRegistered(typ) && IsRegisteredBytes([]byte(typ)), "the name is known")
	}
}

func H_X_new_unknown() {
	typ := vStr("type")
	if IsRegistered(typ) {
		return
	}
	vCheck(!IsRegisteredBytes([]byte(typ)), "both lookups agree")
	vCheck(vEq(NewMessage(typ), &RawMessage{Typ: typ}), "an unknown name gives a raw message of that type")
}

var sR struct {
	on bool
	st *sLines
}

//verif:inv (*Reader).readMsgTo 0 N06
func I6_readMsgTo() bool {
	return !sR.on || sR.st.empty == sR.st.calls && !sR.st.bad && sR.st.err == nil
}

var errKeep = errors.New("keep-alive")

// sNewReader is a reader over an arbitrary sequence of lines.
func sNewReader() (*Reader, *sLines) {
	st := &sLines{}
	r := NewReader(st)
	r.OnKeepAlive = func() error {
		st.calls++
		if vPick("keep", 3) == 0 {
			st.bad = true
			return errKeep
		}
		return nil
	}
	sR.on, sR.st = true, st
	return r, st
}

// sAfter makes the reader reuse its memory.
func (s *sLines) after(r *Reader) {
	l := s.line
	s.junk = true
	if s.err == nil {
		_, _ = r.ReadLine()
	}
	s.line = l
}

func isViolation(err error) bool {
	_, ok := err.(*ErrProtocolViolation)
	return ok
}

// sLine checks what is the same for every way of reading a message. It returns the command and its
// payload when the line has to be decoded.
func sLine(st *sLines, m Message, err error, max int) (ok bool, typ, args string) {
	vCheck(err == nil || m == nil, "either a message or an error")
	switch {
	case st.err != nil:
		vCheck(err == st.err, "the error of the connection")
		vCheck(st.empty == st.calls, "every keep-alive is reported")
		return false, "", ""
	case st.bad:
		vCheck(err == errKeep, "the error of the callback")
		vCheck(st.empty == st.calls, "every keep-alive is reported")
		return false, "", ""
	}
	vCheck(st.empty == st.calls, "every keep-alive is reported")
	line := st.line[:len(st.line)-1]
	vCheck(line != "", "a keep-alive is not delivered")
	if bytes.IndexByte([]byte(line), 0) >= 0 {
		vCheck(isViolation(err), "a line with a null byte is refused")
		return false, "", ""
	}
	if line[0] != '$' {
		return true, "", line
	}
	line = line[1:]
	if i := bytes.IndexByte([]byte(line), ' '); i >= 0 {
		typ, args = line[:i], line[i+1:]
	} else {
		typ = line
	}
	switch {
	case typ == "":
		vCheck(isViolation(err), "an empty command name is refused")
		return false, "", ""
	case len(typ) > max:
		vCheck(isViolation(err), "an over-long command name is refused")
		return false, "", ""
	case !vIn(typ, sCmdChars):
		vCheck(isViolation(err), "a non-ASCII command name is refused")
		return false, "", ""
	}
	return true, typ, args
}

// sFresh is an empty message of the type the line names.
func sFresh(typ string) Message {
	if typ == "" {
		return &ChatMessage{}
	}
	return NewMessage(typ)
}

func sSame(m Message, err error, typ, args string) {
	want := sFresh(typ)
	if werr := want.UnmarshalNMDC(nil, []byte(args)); werr != nil {
		vCheck(err != nil && !isUnexpected(err), "a message that does not decode is an error")
		return
	}
	vCheck(err == nil, "a message that decodes is delivered")
	vCheck(m.Type() == typ, "the message has the type the line names")
	vCheck(vEq(m, want), "the message is the one in the line")
}

func isUnexpected(err error) bool {
	_, ok := err.(*ErrUnexpectedCommand)
	return ok
}

func H_N06_read_msg() {
	r, st := sNewReader()
	max := maxCmdName
	if vBool("set") {
		max = vInt("max", 1, 1000)
		r.SetMaxCmdName(max)
	}
	m, err := r.ReadMsg()
	st.after(r)
	if ok, typ, args := sLine(st, m, err, max); ok {
		sSame(m, err, typ, args)
	}
}

// sAllowed is one of the values a caller offers.
func sAllowed(name string) (Message, string, bool) {
	switch vPick(name, 3) {
	case 0:
		return &ChatMessage{}, "", false
	case 1:
		return &RawMessage{}, "", true
	}
	typ := vStr(name + " type")
	vAssume(typ != "")
	return &sMsg{typ: typ}, typ, false
}

func sReceived(err error, typ, args string) bool {
	e, ok := err.(*ErrUnexpectedCommand)
	return ok && e.Received != nil && e.Received.Typ == typ
}

func H_N06_read_to() {
	r, st := sNewReader()
	var (
		m   Message
		typ string
	)
	switch vPick("kind", 3) {
	case 0:
		m = &ChatMessage{}
	case 1:
		typ = vStr("raw type")
		vAssume(typ != "")
		m = &RawMessage{Typ: typ}
	case 2:
		typ = vStr("type")
		vAssume(typ != "")
		m = &sMsg{typ: typ}
	}
	err := r.ReadMsgTo(m)
	st.after(r)
	var got Message
	if err == nil {
		got = m
	}
	ok, name, args := sLine(st, got, err, maxCmdName)
	if !ok {
		return
	}
	if name != typ {
		vCheck(sReceived(err, name, args), "a message of another type is reported")
		return
	}
	var want Message
	switch m.(type) {
	case *ChatMessage:
		want = &ChatMessage{}
	case *RawMessage:
		want = &RawMessage{Typ: typ}
	default:
		want = &sMsg{typ: typ}
	}
	sExpect(got, err, want, args)
}

func sExpect(m Message, err error, want Message, args string) {
	if werr := want.UnmarshalNMDC(nil, []byte(args)); werr != nil {
		vCheck(err != nil && !isUnexpected(err), "a message that does not decode is an error")
		return
	}
	vCheck(err == nil, "a message that decodes is delivered")
	vCheck(vEq(m, want), "the message is the one in the line")
}

// What ReadMsgToAny is going to receive, and the first of the given values that takes it. Both
// are anything; what turns out otherwise is left out.
var sA struct {
	on    bool
	name  string
	first int
}

//verif:inv (*Reader).readMsgTo 2 N06
func I6_readMsgTo_command(typ string, rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < 1<<62 && (!sA.on || rangeindex < sA.first || typ != sA.name)
}

//verif:inv (*Reader).readMsgTo 4 N06
func I6_readMsgTo_chat(rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < 1<<62 && (!sA.on || rangeindex < sA.first || sA.name != "")
}

func sTakes(m Message, name string) bool {
	switch m := m.(type) {
	case *RawMessage:
		return true
	case *ChatMessage:
		return name == ""
	case *sMsg:
		return m.typ == name
	}
	panic("not used")
}

func H_N06_read_to_any() {
	r, st := sNewReader()
	max := 1 << 30
	if !vProving() {
		max = 4
	}
	n := vInt("n", 1, max)
	sA.on, sA.name, sA.first = true, "", n
	if vGhost() {
		sA.name, sA.first = vStr("name"), vInt("first", 0, n)
	}
	var list []Message
	vList(&list, n, func(i int) Message {
		m, _, _ := sAllowed("allowed")
		vAssume(!vGhost() || i > sA.first || sTakes(m, sA.name) == (i == sA.first))
		return m
	})
	m, err := r.ReadMsgToAny(list...)
	st.after(r)
	ok, name, args := sLine(st, m, err, maxCmdName)
	if !ok {
		return
	}
	k := sA.first
	if vGhost() {
		vAssume(name == sA.name)
	} else {
		for k = 0; k < n && !sTakes(list[k], name); k++ {
		}
	}
	if k == n {
		vCheck(sReceived(err, name, args), "a message of another type is reported")
		return
	}
	var want Message
	switch list[k].(type) {
	case *RawMessage:
		want = &RawMessage{Typ: name}
	case *ChatMessage:
		want = &ChatMessage{}
	default:
		want = &sMsg{typ: name}
	}
	sExpect(m, err, want, args)
	if err == nil {
		vCheck(m == list[k], "the message is delivered into the given value")
	}
}

func H_N06_no_callback() {
	r, st := sNewReader()
	r.OnKeepAlive = nil
	sR.on = false
	m, err := r.ReadMsg()
	if err == nil {
		vCheck(m != nil && len(st.line) > 1, "a keep-alive is not delivered")
	}
}

var _ io.Reader = (*sLines)(nil)
