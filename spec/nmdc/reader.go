package nmdc

import (
	"bytes"
	"errors"
	"io"

	"github.com/direct-connect/go-dc/lineproto"
)

// ---- the connection: any number of arbitrary lines, then an error ----

type sLines struct {
	line  string // the last line received, with its delimiter
	err   error  // how the connection ended
	empty int    // keep-alive lines received
	calls int    // keep-alive callbacks
	bad   bool   // the callback failed

	mem  []byte // where the last line is held
	pend string
	junk bool
	skip int
}

var _ lineproto.VLineSource = (*sLines)(nil)

func (s *sLines) draw(delim byte) bool {
	if s.junk {
		s.line = "xxxxxxxx" + string([]byte{delim})
		return true
	}
	if vPick("more", 4) == 0 {
		s.err = vNewErr("transport")
		return false
	}
	s.line = vStrNot("line", string([]byte{delim})) + string([]byte{delim})
	if len(s.line) == 1 {
		s.empty++
	}
	return true
}

func (s *sLines) VNext(delim byte) ([]byte, error) {
	if s.junk {
		vScramble(s.mem)
	}
	if !s.draw(delim) {
		return []byte(vStrNot("rest", string([]byte{delim}))), s.err
	}
	s.mem = []byte(s.line)
	return s.mem, nil
}

func (s *sLines) Read(p []byte) (int, error) {
	if s.pend == "" {
		if s.err != nil || !s.draw(Delimiter) {
			return 0, s.err
		}
		s.pend = s.line
	}
	n := copy(p, s.pend)
	s.pend = s.pend[n:]
	return n, nil
}

var _ io.Reader = (*sLines)(nil)

// ---- an arbitrary message ----

// sMsg is a message of any type; what it decodes to is some function of the payload and the decoder.
type sMsg struct {
	typ string
	val string
}

var errDecode = errors.New("decode")

func sDecodedAs(typ string, dec *TextDecoder, data []byte) string {
	k := "n"
	if dec != nil {
		k = "d"
	}
	return vUF("decoded", len(data), k+typ+"\x00"+string(data))
}

func sDecodeFails(typ string, dec *TextDecoder, data []byte) bool {
	k := "n"
	if dec != nil {
		k = "d"
	}
	return vUF("fails", 1, k+typ+"\x00"+string(data)) == "f"
}

func (m *sMsg) Type() string { return m.typ }

func (m *sMsg) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error { panic("not used") }

func (m *sMsg) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
	if sDecodeFails(m.typ, dec, data) {
		return errDecode
	}
	m.val = sDecodedAs(m.typ, dec, data)
	return nil
}

// NewMessage makes an empty message of the given type.
//
//verif:summary NewMessage N06,N07 by H_X_new_message,H_X_new_unknown
func S_NewMessage(typ string) Message { return &sMsg{typ: typ} }

// Decoding a chat line is some function of it.
//
//verif:summary (*ChatMessage).UnmarshalNMDC N06,N07 by H_N02_chat_with_name,H_N02_chat_without_name
func S_ChatMessage_UnmarshalNMDC(m *ChatMessage, dec *TextDecoder, data []byte) error {
	if sDecodeFails("", dec, data) {
		return errDecode
	}
	m.Name = ""
	m.Text = sDecodedAs("", dec, data)
	return nil
}
