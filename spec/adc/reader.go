package adc

import (
	"errors"
	"io"
	"reflect"

	"github.com/direct-connect/go-dc/lineproto"
)

// ---- A08: reading packets ----

// sLines is a connection that carries any number of arbitrary lines and then fails.
type sLines struct {
	line  string // the last line received, with its delimiter
	err   error  // how the connection ended
	empty int    // keep-alive lines received
	full  int    // other lines received
	calls int    // keep-alive callbacks
	bad   bool   // the callback failed

	mem  []byte // where the last line is held
	pend string
	junk bool
}

var _ lineproto.VLineSource = (*sLines)(nil)

func (s *sLines) draw() bool {
	if s.junk {
		s.line = "xxxxxxxx\n"
		return true
	}
	if vPick("more", 4) == 0 {
		s.err = vNewErr("transport")
		return false
	}
	s.line = vStrNot("line", "\n") + "\n"
	if len(s.line) == 1 {
		s.empty++
	} else {
		s.full++
	}
	return true
}

func (s *sLines) VNext(delim byte) ([]byte, error) {
	if s.junk {
		vScramble(s.mem)
	}
	if !s.draw() {
		return []byte(vStrNot("rest", "\n")), s.err
	}
	s.mem = []byte(s.line)
	return s.mem, nil
}

func (s *sLines) Read(p []byte) (int, error) {
	if s.pend == "" {
		if s.err != nil || !s.draw() {
			return 0, s.err
		}
		s.pend = s.line
	}
	n := copy(p, s.pend)
	s.pend = s.pend[n:]
	return n, nil
}

var _ io.Reader = (*sLines)(nil)

// after makes the reader reuse its memory.
func (s *sLines) after(r *Reader) {
	l := s.line
	s.junk = true
	if s.err == nil {
		_, _ = r.ReadLine()
	}
	s.line = l
}

// sSome is a message of which only the text it was decoded from matters.
type sSome struct {
	name MsgType
	val  string
}

func (m *sSome) Cmd() MsgType { return m.name }

var errSome = errors.New("message")

// Decoding a payload is some function of it, and the message has its own memory.
//
//verif:summary UnmarshalMessage A08 by H_X_message_copied,H_X_salt_copied,H_X_text_copied,H_X_raw_copied
func S_UnmarshalMessage(name MsgType, data []byte) (Message, error) {
	key := string(name[:]) + string(data)
	if vUF("fails", 1, key) == "f" {
		return nil, errSome
	}
	return &sSome{name: name, val: vUF("message", len(data), key)}, nil
}

// Every known message keeps nothing of the memory it was decoded from: it has no bytes but
// those of types that decode into memory of their own.
func H_X_message_copied() {
	for _, t := range messages {
		vCheck(!sHolds(t, 0), "no message holds bytes of the input")
	}
}

// sOwn are the types with bytes that are known to be copies (see below).
var sOwn = map[reflect.Type]bool{
	reflect.TypeOf(GetPassword{}): true,
}

// sHolds says that a value of a type may share memory with its input.
func sHolds(t reflect.Type, depth int) bool {
	if depth > 8 {
		return true
	}
	if sOwn[t] {
		return false
	}
	switch t.Kind() {
	case reflect.Bool, reflect.String,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float32, reflect.Float64:
		return false
	case reflect.Slice:
		return t.Elem().Kind() == reflect.Uint8 || sHolds(t.Elem(), depth+1)
	case reflect.Map:
		return sHolds(t.Key(), depth+1) || sHolds(t.Elem(), depth+1)
	case reflect.Array, reflect.Ptr:
		return sHolds(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if sHolds(t.Field(i).Type, depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

func H_X_salt_copied() {
	data := vStr("data")
	mem := []byte(data)
	var m, want GetPassword
	err := m.UnmarshalADC(mem)
	vScramble(mem)
	werr := want.UnmarshalADC([]byte(data))
	vCheck((err == nil) == (werr == nil), "the same outcome")
	vCheck(err != nil || string(m.Salt) == string(want.Salt), "the salt is in memory of its own")
}

func H_X_text_copied() {
	data := vStr("data")
	mem := []byte(data)
	var m, want String
	err := m.UnmarshalADC(mem)
	vScramble(mem)
	werr := want.UnmarshalADC([]byte(data))
	vCheck((err == nil) == (werr == nil), "the same outcome")
	vCheck(err != nil || m == want, "a text is not the memory it was decoded from")
}

// An unknown message keeps a copy of its payload.
func H_X_raw_copied() {
	var name MsgType
	copy(name[:], vStrLen("name", 3))
	if _, ok := messages[name]; ok {
		return
	}
	data := vStr("data")
	mem := []byte(data)
	m, err := UnmarshalMessage(name, mem)
	vCheck(err == nil, "accepted")
	vScramble(mem)
	raw, ok := m.(*RawMessage)
	vCheck(ok && raw.Type == name && string(raw.Data) == data, "a copy of the payload")
}

var sR struct {
	on    bool
	quiet bool // there is no callback
	st    *sLines
}

//verif:inv (*Reader).readPacket 0 A08
func I8_readPacket() bool {
	st := sR.st
	return !sR.on || (sR.quiet || st.empty == st.calls) && !st.bad && st.err == nil && st.full == 0
}

var errKeep = errors.New("keep-alive")

func sNewReader() (*Reader, *sLines) {
	st := &sLines{}
	r := NewReader(st)
	r.OnKeepAlive = func() error {
		st.calls++
		if vPick("keep", 3) == 0 {
			st.bad = true
			return errKeep
		}
		return nil
	}
	sR.on, sR.st = true, st
	return r, st
}

// sEnded says what a call that got no line returns.
func sEnded(st *sLines, err error) bool {
	vCheck(st.calls == st.empty, "every keep-alive is reported once")
	if st.bad {
		vCheck(err == errKeep, "the callback's error is returned")
		return true
	}
	if st.err != nil {
		vCheck(err == st.err, "the error of the connection is returned")
		return true
	}
	vCheck(st.full == 1, "one line is read")
	return false
}

func H_A08_read_packet() {
	r, st := sNewReader()
	p, err := r.ReadPacket()
	if sEnded(st, err) {
		vCheck(p == nil, "no packet")
		return
	}
	want, werr := DecodePacket([]byte(st.line))
	vCheck((err == nil) == (werr == nil), "a malformed line is an error")
	if err != nil {
		vCheck(p == nil, "no packet")
		return
	}
	st.after(r)
	vCheck(vEq(p, want), "the decoded form of the line, in memory of its own")
}

func H_A08_read_packet_raw() {
	r, st := sNewReader()
	p, err := r.ReadPacketRaw()
	if sEnded(st, err) {
		vCheck(p == nil, "no packet")
		return
	}
	want, werr := DecodePacketRaw([]byte(st.line))
	vCheck((err == nil) == (werr == nil), "a malformed line is an error")
	if err != nil {
		vCheck(p == nil, "no packet")
		return
	}
	vCheck(vEq(p, want), "the decoded form of the line")
}

func H_A08_read_info() {
	r, st := sNewReader()
	m, err := r.ReadInfo()
	if sEnded(st, err) {
		vCheck(m == nil, "no message")
		return
	}
	want, werr := DecodePacket([]byte(st.line))
	info, ok := want.(*InfoPacket)
	vCheck((err == nil) == (werr == nil && ok), "another packet is an error")
	if err != nil {
		vCheck(m == nil, "no message")
		return
	}
	st.after(r)
	vCheck(vEq(m, info.Msg), "the message of the packet, in memory of its own")
}

func H_A08_read_client() {
	r, st := sNewReader()
	m, err := r.ReadClient()
	if sEnded(st, err) {
		vCheck(m == nil, "no message")
		return
	}
	want, werr := DecodePacket([]byte(st.line))
	info, ok := want.(*ClientPacket)
	vCheck((err == nil) == (werr == nil && ok), "another packet is an error")
	if err != nil {
		vCheck(m == nil, "no message")
		return
	}
	st.after(r)
	vCheck(vEq(m, info.Msg), "the message of the packet, in memory of its own")
}

func H_A08_no_callback() {
	st := &sLines{}
	r := NewReader(st)
	sR.on, sR.quiet, sR.st = true, true, st
	p, err := r.ReadPacket()
	if st.err != nil {
		vCheck(err == st.err && p == nil, "the error of the connection is returned")
		return
	}
	_, werr := DecodePacket([]byte(st.line))
	vCheck(len(st.line) > 1, "empty lines are skipped")
	vCheck((err == nil) == (werr == nil), "a malformed line is an error")
}
