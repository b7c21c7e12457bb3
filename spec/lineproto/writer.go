package lineproto

import "errors"

// ---- L05, L06, L08: writing without compression ----

// sTo is the transport of a writer. It checks that the timeout is armed
// whenever it has to be.
type sTo struct {
	vSink
	timed bool // the timeout has to be armed during writes
	t     sTimer
}

type sTimer struct {
	armed bool
	n     int // times armed
	off   int // times disarmed
	err   error
}

func (s *sTo) Write(p []byte) (int, error) {
	if s.timed {
		vCheck(s.t.armed, "the timeout is armed while the transport is written to")
	}
	return s.vSink.Write(p)
}

var errTimeout = errors.New("timeout error")

func (t *sTimer) set(enable bool) error {
	if !enable {
		vCheck(t.armed, "the timeout is disarmed once for each time it is armed")
		t.armed = false
		t.off++
		return nil
	}
	vCheck(!t.armed, "the timeout is not armed twice")
	if vBool("arm") {
		t.err = errTimeout
		return t.err
	}
	t.armed = true
	t.n++
	return nil
}

// sWriter is a writer without compression after any number of successful
// writes: any bytes were sent, any bytes are buffered. The first result is
// what was given to the writer.
func sWriter(fail bool) (string, *Writer, *sTo) {
	to := &sTo{vSink: vSink{name: "sink"}}
	var w *Writer
	if vBool("size") {
		w = NewWriterSize(to, vInt("bufsize", -100, 1<<20))
	} else {
		w = NewWriter(to)
	}
	given := vStr("sent")
	pre := vStr("pre")
	if vBool("none") {
		pre = ""
	}
	vCheck(w.WriteLine([]byte(pre)) == nil, "a line is accepted")
	vCheck(len(to.data) <= len(pre), "no more than the line is sent")
	to.data = given + to.data
	to.fail, to.writes = fail, 0
	given += pre
	return given, w, to
}

func sTimeout(w *Writer, to *sTo) {
	if vBool("timeout") {
		w.Timeout = to.t.set
		to.timed = true
	}
}

// sSent: everything given to the writer was sent.
func sSent(w *Writer, to *sTo, given, label string) {
	w.Timeout, to.timed, to.fail = nil, false, false
	vCheck(w.Flush() == nil, label+": flushed")
	vCheck(to.data == given, label)
}

func H_L05_line() {
	given, w, to := sWriter(false)
	line := vStr("line")
	b := []byte(line)
	vCheck(w.WriteLine(b) == nil, "a line is accepted")
	vCheck(string(b) == line, "the line is not changed")
	b2 := []byte(vStrLen("garbage", len(b)))
	copy(b, b2) // the caller may reuse its buffer
	sSent(w, to, given+line, "lines reach the transport in order")
	vCheck(w.bw.Buffered() == 0, "a flush leaves nothing buffered")
}

func H_L05_raw() {
	given, w, to := sWriter(false)
	raw := vStr("raw")
	n, err := w.Write([]byte(raw))
	vCheck(err == nil && n == len(raw), "raw data is accepted")
	vCheck(to.data == given+raw, "buffered lines are sent before raw data, and raw data at once")
	line := vStr("line")
	vCheck(w.WriteLine([]byte(line)) == nil, "a line is accepted")
	sSent(w, to, given+raw+line, "lines follow raw data")
}

func H_L05_flush() {
	given, w, to := sWriter(false)
	vCheck(w.Flush() == nil, "flushed")
	vCheck(to.data == given, "a flush sends everything")
	n := to.writes
	vCheck(w.Flush() == nil, "flushed again")
	vCheck(to.data == given && to.writes == n, "a second flush sends nothing")
}

func H_L05_close() {
	given, w, to := sWriter(false)
	vCheck(w.Close() == nil, "closed")
	vCheck(to.data == given, "closing sends everything")
}

// Whatever fails, what was sent is a beginning of what was given.
func H_L05_failing() {
	given, w, to := sWriter(true)
	data := vStr("data")
	var err error
	n := 0
	switch vPick("op", 4) {
	case 0:
		err = w.WriteLine([]byte(data))
	case 1:
		n, err = w.Write([]byte(data))
		vCheck(n >= 0 && n <= len(data), "the number of raw bytes sent")
	case 2:
		err = w.Flush()
		data = ""
	case 3:
		err = w.Close()
		data = ""
	}
	if err == nil {
		vCheck(to.err == nil, "a transport error is reported")
	} else {
		vCheck(err == to.err, "the transport's error is reported")
	}
	all := given + data
	vCheck(len(to.data) <= len(all) && to.data == all[:len(to.data)], "only given data is sent, in order")
}

// ---- L06 ----

// sRefused: a writer that failed refuses everything and sends nothing.
func sRefused(w *Writer, to *sTo, exp error) {
	n, was := to.writes, to.data
	armed := to.t.n
	var err error
	switch vPick("later", 3) {
	case 0:
		err = w.WriteLine([]byte(vStr("later")))
	case 1:
		var k int
		k, err = w.Write([]byte(vStr("later")))
		vCheck(k == 0, "nothing was written")
	case 2:
		err = w.Flush()
	}
	vCheck(err != nil, "refused after a failure")
	if exp != nil {
		vCheck(err == exp, "the first error is kept")
	}
	vCheck(w.Err() == err, "the error can be asked for")
	vCheck(to.writes == n && to.data == was, "nothing is sent after a failure")
	vCheck(to.t.n == armed && !to.t.armed, "the timeout stays disarmed")
}

func H_L06_sticky_line() {
	_, w, to := sWriter(true)
	sTimeout(w, to)
	hooked := vBool("hook")
	if hooked {
		w.OnLine(func(line []byte) (bool, error) { return vBool("keep"), errHook })
	}
	err := w.WriteLine([]byte(vStr("line")))
	vCheck(!to.t.armed && to.t.n == to.t.off, "the timeout is disarmed exactly once")
	if hooked {
		vCheck(err == errHook, "the hook's error is returned")
	}
	if err == nil {
		vCheck(to.err == nil, "a transport error is returned")
		vCheck(!to.timed || to.t.n == 1, "the timeout is armed once")
		vReach("line accepted")
		return
	}
	vCheck(err == errHook && hooked || err == to.err || err == to.t.err, "the cause is returned")
	if to.t.err != nil || hooked {
		vCheck(to.writes == 0, "nothing is sent")
	}
	sRefused(w, to, err)
}

func H_L06_sticky_raw() {
	_, w, to := sWriter(true)
	var t *sTimer
	if vBool("timeout") {
		w.Timeout = to.t.set
		t = &to.t
	}
	_, err := w.Write([]byte(vStr("raw")))
	vCheck(!to.t.armed && to.t.n == to.t.off, "the timeout is disarmed exactly once")
	if err == nil {
		vCheck(to.err == nil && to.t.err == nil, "an error is returned")
		vReach("raw data accepted")
		return
	}
	vCheck(err == to.err || err == to.t.err, "the cause is returned")
	if t != nil && t.err != nil {
		vCheck(to.writes == 0, "nothing is sent")
	}
	sRefused(w, to, err)
}

func H_L06_sticky_flush() {
	_, w, to := sWriter(true)
	sTimeout(w, to)
	err := w.Flush()
	vCheck(!to.t.armed && to.t.n == to.t.off, "the timeout is disarmed exactly once")
	if err == nil {
		vCheck(to.err == nil, "a transport error is returned")
		vCheck(!to.timed || to.t.n == 1, "the timeout is armed once")
		vReach("flushed")
		return
	}
	vCheck(err == to.err || err == to.t.err, "the cause is returned")
	if to.t.err != nil {
		vCheck(to.writes == 0, "nothing is sent")
	}
	sRefused(w, to, err)
}

func H_L06_closed() {
	_, w, to := sWriter(true)
	failed := w.Close()
	vCheck(failed == to.err, "closing reports a transport error")
	if vBool("again") {
		n := to.writes
		_ = w.Close()
		vCheck(to.writes == n, "closing again sends nothing")
	}
	if vBool("timeout") {
		w.Timeout = to.t.set
	}
	sRefused(w, to, nil)
}

// ---- L08: hooks on written lines ----

//verif:inv (*Writer).WriteLine 0 L08
func I8_WriteLine(w *Writer, data []byte, rangeindex int) bool {
	return rangeindex >= -1 && rangeindex <= len(w.onLine)-1 && sH.phase == rangeindex+1 && sH.drops == 0 && (rangeindex < 0 || sH.seen == string(data))
}

func H_L08_write_hooks() {
	given, w, to := sWriter(false)
	vCheck(len(w.onLine) == 0, "a new writer has no hooks")
	n := sCount("hooks")
	hook := func(i int) func(line []byte) (bool, error) {
		return sHook(i, 0, func(string) { sH.drops++ })
	}
	sH.phase, sH.seen, sH.drops = 0, "", 0
	vList(&w.onLine, n, hook)
	w.OnLine(hook(n))
	n++
	line := vStr("line")
	b := []byte(line)
	err := w.WriteLine(b)
	vCheck(sH.seen == line, "the hooks are shown the line")
	w.onLine = nil
	phase := sH.phase
	sH.phase = 0
	switch {
	case err == errHook:
		vCheck(phase == -1, "a hook error is returned")
		vCheck(len(to.data) <= len(given) && given[:len(to.data)] == to.data, "an aborted line is not sent")
	case sH.drops == 0:
		vCheck(err == nil && phase == n, "every hook sees a written line")
		sSent(w, to, given+line, "a passed line is sent")
	default:
		vCheck(err == nil && sH.drops == 1, "a dropped line is no error")
		next := vStr("next")
		sH.drops = 0
		vCheck(w.WriteLine([]byte(next)) == nil, "the next line is accepted")
		sSent(w, to, given+next, "a dropped line leaves no trace")
	}
}
