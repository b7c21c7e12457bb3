package nmdc

import (
	"bytes"
	"errors"
)

// ---- N07: hooks ----

var sHk struct {
	on    bool
	st    *sLines
	phase int // how many hooks have passed the current message
	raw   int
	err   error // the error a hook returned
	dec   bool  // a decoding error was shown to the error hook
	own   bool  // messages are decoded into values given by the caller
}

var (
	errHook1 = errors.New("hook 1")
	errHook2 = errors.New("hook 2")
)

//verif:inv (*Reader).readMsgTo 0 N07
func I7_readMsgTo() bool {
	return !sHk.on || sHk.phase == 0 && sHk.err == nil && !sHk.dec && sHk.st.err == nil
}

func sAnswer(next int, fail error) (bool, error) {
	switch vPick("answer", 3) {
	case 0:
		sHk.phase = next
		return true, nil
	case 1:
		sHk.phase, sHk.dec = 0, false
		return false, nil
	}
	sHk.err = fail
	return vBool("ok"), fail
}

// sParts splits a line into the command and its payload.
func sParts(line string) (cmd bool, typ, args string) {
	line = line[:len(line)-1]
	if line[0] != '$' {
		return false, "", line
	}
	line = line[1:]
	if i := bytes.IndexByte([]byte(line), ' '); i >= 0 {
		return true, line[:i], line[i+1:]
	}
	return true, line, ""
}

// sBetween: hooks are being run, for a line that has come.
func sBetween(phase int) bool {
	return sHk.phase == phase && sHk.err == nil && !sHk.dec && sHk.st.err == nil
}

//verif:inv (*Reader).readMsgTo 1 N07
func I7_readMsgTo_command(r *Reader, rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(r.onRawMessage) && sBetween(rangeindex+1)
}

//verif:inv (*Reader).readMsgTo 3 N07
func I7_readMsgTo_chat(r *Reader, rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(r.onRawMessage) && sBetween(rangeindex+1)
}

//verif:inv (*Reader).readMsgTo 5 N07
func I7_readMsgTo_message(r *Reader, rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(r.onMessage) && sBetween(sHk.raw+rangeindex+1)
}

// sInto is an empty message of the type the line names, of the kind the reader decodes into.
func sInto(typ string) Message {
	if sHk.own && typ != "" {
		return &sMsg{typ: typ}
	}
	return sFresh(typ)
}

func sFail(i int) error {
	if i%2 == 1 {
		return errHook2
	}
	return errHook1
}

// sHooks registers hooks, of which the last of each kind goes the way of every hook.
func sHooks(r *Reader, st *sLines, raw, msg int, own bool) {
	sHk.own = own
	sHk.on, sHk.st, sHk.phase, sHk.raw, sHk.err, sHk.dec = true, st, 0, raw, nil, false
	vCheck(len(r.onRawMessage) == 0 && len(r.onMessage) == 0, "a new reader has no hooks")
	rawHook := func(i int) func(cmd, args []byte) (bool, error) {
		return func(cmd, args []byte) (bool, error) {
			vCheck(sHk.phase == i && sHk.err == nil, "raw hooks run in order, once for each message")
			c, typ, data := sParts(st.line)
			vCheck((cmd != nil) == c, "only a command has a name")
			vCheck(string(cmd) == typ && string(args) == data, "a raw hook is shown the message")
			return sAnswer(i+1, sFail(i))
		}
	}
	msgHook := func(i int) func(m Message) (bool, error) {
		return func(m Message) (bool, error) {
			vCheck(sHk.phase == raw+i && sHk.err == nil, "message hooks run in order after the raw hooks")
			vCheck(!sHk.dec, "a message that does not decode is not shown")
			_, typ, args := sParts(st.line)
			want := sInto(typ)
			werr := want.UnmarshalNMDC(nil, []byte(args))
			vCheck(werr == nil && m.Type() == typ && vEq(m, want), "a message hook is shown the decoded message")
			return sAnswer(raw+i+1, sFail(i))
		}
	}
	if raw > 0 {
		vList(&r.onRawMessage, raw-1, rawHook)
		r.OnRawMessage(rawHook(raw - 1))
	}
	if msg > 0 {
		vList(&r.onMessage, msg-1, msgHook)
		r.OnMessage(msgHook(msg - 1))
	}
	r.OnUnmarshalError = func(text []byte, err error) (bool, error) {
		vCheck(sHk.phase == raw && sHk.err == nil && !sHk.dec, "the error hook runs after the raw hooks")
		vCheck(err != nil && string(text) == st.line[:len(st.line)-1], "the error hook is shown the line")
		_, typ, args := sParts(st.line)
		vCheck(sInto(typ).UnmarshalNMDC(nil, []byte(args)) != nil, "only decoding errors are shown")
		if vBool("ignore") {
			sHk.phase = 0
			return false, nil
		}
		sHk.dec, sHk.err = true, errHook1
		return true, errHook1
	}
}

func sHookedEnd(st *sLines, m Message, err error, raw, msg int) (bool, string, string) {
	switch {
	case sHk.err != nil:
		vCheck(err == sHk.err && m == nil, "a hook error is returned")
		return false, "", ""
	case st.err != nil:
		vCheck(err == st.err && m == nil, "a dropped message is not delivered")
		vCheck(sHk.phase == 0, "the error of the connection comes between messages")
		return false, "", ""
	case err != nil:
		vCheck(m == nil, "either a message or an error")
		null := bytes.IndexByte([]byte(st.line), 0) >= 0
		vCheck(null || sHk.phase == raw, "a message is refused only after every raw hook passed it")
		return false, "", ""
	}
	_, typ, args := sParts(st.line)
	vCheck(sHk.phase == raw+msg, "a delivered message passed every hook")
	return true, typ, args
}

func H_N07_hooks() {
	st := &sLines{}
	r := NewReader(st)
	max := 1 << 30
	if !vProving() {
		max = 4
	}
	raw, msg := vInt("raw", 0, max), vInt("message", 0, max)
	sHooks(r, st, raw, msg, false)
	m, err := r.ReadMsg()
	st.after(r)
	if ok, typ, args := sHookedEnd(st, m, err, raw, msg); ok {
		want := sFresh(typ)
		werr := want.UnmarshalNMDC(nil, []byte(args))
		vCheck(werr == nil && m.Type() == typ && vEq(m, want), "the message after a dropped one is delivered as it is")
	}
}

func H_N07_hooks_any() {
	st := &sLines{}
	r := NewReader(st)
	sHooks(r, st, 1, 1, true)
	ta, tb := vStr("type a"), vStr("type b")
	vAssume(ta != "" && tb != "" && ta != tb)
	a, b, c := &sMsg{typ: ta}, &sMsg{typ: tb}, &ChatMessage{}
	list := []Message{a, b}
	if vBool("chat") {
		list = append(list, c)
	}
	m, err := r.ReadMsgToAny(list...)
	st.after(r)
	if ok, typ, _ := sHookedEnd(st, m, err, 1, 1); ok {
		switch typ {
		case ta:
			vCheck(m == Message(a), "the message after a dropped one is delivered as it is")
		case tb:
			vCheck(m == Message(b), "the message after a dropped one is delivered as it is")
		default:
			vCheck(typ == "" && len(list) == 3 && m == Message(c), "the message after a dropped one is delivered as it is")
		}
	}
}

func H_N07_hooks_to() {
	st := &sLines{}
	r := NewReader(st)
	sHooks(r, st, 1, 1, true)
	var (
		to  Message = &ChatMessage{}
		typ string
	)
	if vBool("command") {
		typ = vStr("type")
		vAssume(typ != "")
		to = &sMsg{typ: typ}
	}
	err := r.ReadMsgTo(to)
	st.after(r)
	var m Message
	if err == nil {
		m = to
	}
	if ok, got, _ := sHookedEnd(st, m, err, 1, 1); ok {
		vCheck(got == typ, "the message after a dropped one is delivered as it is")
	}
}
