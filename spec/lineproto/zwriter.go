package lineproto

import (
	"bytes"
	"compress/zlib"
	"errors"
	"io"
	"io/ioutil"
)

// The contract of compress/zlib's Writer: it sends pieces of some encoding of
// what is written to it, at any time; after Flush everything written so far
// can be decoded, and Close completes the section.

var sZ struct {
	z        *zlib.Writer // the last compressor made or reset
	lvl      int
	w        io.Writer
	content  string // everything written to it
	pieces   string // everything it sent
	complete int    // how much of the content can be decoded from pieces
	closed   bool
}

var errLevel = errors.New("zlib: invalid compression level")

//verif:model compress/zlib.NewWriterLevel
func M_zlib_NewWriterLevel(w io.Writer, level int) (*zlib.Writer, error) {
	if level < -2 || level > 9 {
		return nil, errLevel
	}
	sZ.z = new(zlib.Writer)
	sZ.lvl = level
	M_zlib_Reset(sZ.z, w)
	return sZ.z, nil
}

//verif:model compress/zlib.NewWriterLevelDict
func M_zlib_NewWriterLevelDict(w io.Writer, level int, dict []byte) (*zlib.Writer, error) {
	vCheck(dict == nil, "no dictionary is used")
	return M_zlib_NewWriterLevel(w, level)
}

//verif:model compress/zlib.NewWriter
func M_zlib_NewWriter(w io.Writer) *zlib.Writer {
	z, _ := M_zlib_NewWriterLevel(w, zlib.DefaultCompression)
	return z
}

//verif:model (*compress/zlib.Writer).Reset
func M_zlib_Reset(z *zlib.Writer, w io.Writer) {
	sZ.z, sZ.w, sZ.content, sZ.pieces, sZ.complete, sZ.closed = z, w, "", "", 0, false
}

func sZPiece() error {
	p := vStr("compressed")
	n, err := sZ.w.Write([]byte(p))
	sZ.pieces += p[:n]
	return err
}

//verif:model (*compress/zlib.Writer).Write
func M_zlib_Write(z *zlib.Writer, p []byte) (int, error) {
	vCheck(z == sZ.z && !sZ.closed, "the compressor of this section is used")
	sZ.content += string(p)
	if vBool("emit") {
		if err := sZPiece(); err != nil {
			return 0, err
		}
	}
	return len(p), nil
}

//verif:model (*compress/zlib.Writer).Flush
func M_zlib_Flush(z *zlib.Writer) error {
	vCheck(z == sZ.z && !sZ.closed, "the compressor of this section is used")
	if err := sZPiece(); err != nil {
		return err
	}
	sZ.complete = len(sZ.content)
	return nil
}

//verif:model (*compress/zlib.Writer).Close
func M_zlib_Close(z *zlib.Writer) error {
	vCheck(z == sZ.z, "the compressor of this section is used")
	if sZ.closed {
		return nil
	}
	if err := sZPiece(); err != nil {
		return err
	}
	sZ.closed = true
	sZ.complete = len(sZ.content)
	return nil
}

// sSection: data consists of one complete compressed section with the content
// given, and rest.
func sSection(data, content, rest string) bool {
	if vGhost() {
		return sZ.closed && sZ.content == content && data == sZ.pieces+rest
	}
	in := bytes.NewReader([]byte(data))
	z, err := zlib.NewReader(in)
	if err != nil {
		return false
	}
	got, err := ioutil.ReadAll(z)
	return err == nil && string(got) == content && data[len(data)-in.Len():] == rest
}

// sOpenSection: data is an unfinished section from which the content given can
// be decoded.
func sOpenSection(data, content string) bool {
	if vGhost() {
		return !sZ.closed && data == sZ.pieces && sZ.content == content && sZ.complete == len(content)
	}
	z, err := zlib.NewReader(bytes.NewReader([]byte(data)))
	if err != nil {
		return false
	}
	got, err := ioutil.ReadAll(z)
	return err == io.ErrUnexpectedEOF && string(got) == content
}

// sOld has what was sent before the current section; content is what was
// given to the writer since.
func sZWriter(fail, hist bool) (old string, content string, w *Writer, to *sTo) {
	to = &sTo{vSink: vSink{name: "sink"}}
	w = NewWriter(to)
	h := 0
	if hist {
		h = vPick("history", 3)
	}
	switch h {
	case 0:
		// the first section
	case 1:
		// a second section of another level
		vCheck(w.EnableZlibLevel(9) == nil, "enabled")
		vCheck(w.DisableZlib() == nil, "disabled")
	case 2:
		// a second section of the same level
		vCheck(w.EnableZlibLevel(5) == nil, "enabled")
		vCheck(w.WriteLine([]byte(vStr("first"))) == nil, "a line is accepted")
		vCheck(w.DisableZlib() == nil, "disabled")
	}
	pre := vStr("pre")
	vCheck(w.WriteLine([]byte(pre)) == nil, "a line is accepted")
	to.data = to.data[len(to.data):]
	vCheck(w.EnableZlibLevel(5) == nil, "enabled")
	old = to.data
	if vGhost() {
		// any number of writes and flushes
		z := vStr("pieces")
		sZ.content, sZ.pieces = vStr("content"), z
		to.data += z
		content = sZ.content
	}
	line := vStr("buffered")
	vCheck(w.WriteLine([]byte(line)) == nil, "a line is accepted")
	content += line
	to.fail, to.writes = fail, 0
	return old, content, w, to
}

func H_L07_enable() {
	given, w, to := sWriter(false)
	lvl := vInt("level", -1<<40, 1<<40)
	err := w.EnableZlibLevel(lvl)
	line := vStr("line")
	if lvl < -2 || lvl > 9 {
		vCheck(err != nil, "an invalid level is an error")
		vCheck(w.WriteLine([]byte(line)) == nil, "the writer remains usable")
		sSent(w, to, given+line, "nothing is compressed")
		return
	}
	vCheck(err == nil, "enabled")
	vCheck(to.data == given, "data written before is sent plain")
	vCheck(w.EnableZlib() != nil, "enabling twice is an error")
	vCheck(w.WriteLine([]byte(line)) == nil, "a line is accepted")
	vCheck(w.DisableZlib() == nil, "disabled")
	after := vStr("after")
	_, err = w.Write([]byte(after))
	vCheck(err == nil, "raw data is accepted")
	vCheck(len(to.data) >= len(given) && to.data[:len(given)] == given, "data written before is sent plain")
	vCheck(sSection(to.data[len(given):], line, after), "exactly the data written in between is compressed")
}

// Levels are checked again for every section.
func H_L07_enable_again() {
	to := &sTo{vSink: vSink{name: "sink"}}
	w := NewWriter(to)
	vCheck(w.EnableZlibLevel(vInt("first", -2, 9)) == nil, "enabled")
	vCheck(w.DisableZlib() == nil, "disabled")
	to.data = ""
	lvl := vInt("level", -1<<40, 1<<40)
	err := w.EnableZlibLevel(lvl)
	line := vStr("line")
	if lvl < -2 || lvl > 9 {
		vCheck(err != nil, "an invalid level is an error")
		vCheck(w.WriteLine([]byte(line)) == nil, "the writer remains usable")
		sSent(w, to, line, "nothing is compressed")
		return
	}
	vCheck(err == nil, "enabled")
	vCheck(w.WriteLine([]byte(line)) == nil, "a line is accepted")
	vCheck(w.DisableZlib() == nil, "disabled")
	vCheck(sSection(to.data, line, ""), "exactly the data written in between is compressed")
}

func H_L07_default_level() {
	given, w, to := sWriter(false)
	vCheck(w.EnableZlib() == nil, "enabled")
	vCheck(w.DisableZlib() == nil, "disabled")
	vCheck(w.DisableZlib() != nil, "disabling when inactive is an error")
	vCheck(len(to.data) >= len(given) && to.data[:len(given)] == given, "data written before is sent plain")
	vCheck(sSection(to.data[len(given):], "", ""), "an empty section is complete")
}

func H_L07_inactive() {
	given, w, to := sWriter(false)
	n := to.writes
	vCheck(w.DisableZlib() != nil, "disabling when inactive is an error")
	vCheck(to.writes == n, "nothing is sent")
	line := vStr("line")
	vCheck(w.WriteLine([]byte(line)) == nil, "the writer remains usable")
	sSent(w, to, given+line, "nothing is compressed")
}

func H_L07_disable() {
	old, content, w, to := sZWriter(false, true)
	vCheck(w.DisableZlib() == nil, "disabled")
	after, raw := vStr("after"), vStr("raw")
	vCheck(w.WriteLine([]byte(after)) == nil, "a line is accepted")
	_, err := w.Write([]byte(raw))
	vCheck(err == nil, "raw data is accepted")
	vCheck(len(to.data) >= len(old) && to.data[:len(old)] == old, "data written before is sent plain")
	vCheck(sSection(to.data[len(old):], content, after+raw), "the section is complete and followed by plain data")
}

func H_L07_write() {
	old, content, w, to := sZWriter(false, false)
	data := vStr("data")
	if vBool("raw") {
		_, err := w.Write([]byte(data))
		vCheck(err == nil, "raw data is accepted")
	} else {
		vCheck(w.WriteLine([]byte(data)) == nil, "a line is accepted")
	}
	vCheck(w.EnableZlibLevel(vInt("level", -2, 9)) != nil, "enabling twice is an error")
	vCheck(w.DisableZlib() == nil, "disabled")
	vCheck(len(to.data) >= len(old) && to.data[:len(old)] == old, "data written before is sent plain")
	vCheck(sSection(to.data[len(old):], content+data, ""), "everything is compressed in order")
}

func H_L07_flush() {
	old, content, w, to := sZWriter(false, false)
	sTimeout(w, to)
	err := w.Flush()
	if err != nil {
		vCheck(err == to.t.err && !to.t.armed && to.writes == 0, "an arming error sends nothing")
		return
	}
	vCheck(!to.timed || to.t.n == 1 && to.t.off == 1, "the timeout is armed and disarmed once")
	vCheck(len(to.data) >= len(old) && to.data[:len(old)] == old, "data written before is sent plain")
	vCheck(sOpenSection(to.data[len(old):], content), "everything flushed can be decoded")
}

// Order and completeness hold inside a compressed section as well.
func H_L05_compressed_flush() {
	old, content, w, to := sZWriter(false, false)
	if vBool("raw") {
		data := vStr("data")
		n, err := w.Write([]byte(data))
		vCheck(err == nil && n == len(data), "raw data is accepted")
		content += data
	}
	vCheck(w.Flush() == nil, "flushed")
	vCheck(len(to.data) >= len(old) && to.data[:len(old)] == old, "data sent before is untouched")
	vCheck(sOpenSection(to.data[len(old):], content), "everything written is sent, in order, and can be decoded")
}

func H_L05_compressed_close() {
	old, content, w, to := sZWriter(false, false)
	vCheck(w.Close() == nil, "closed")
	vCheck(len(to.data) >= len(old) && to.data[:len(old)] == old, "data sent before is untouched")
	vCheck(sSection(to.data[len(old):], content, ""), "everything written is sent, in order")
}

func H_L07_close() {
	old, content, w, to := sZWriter(false, false)
	vCheck(w.Close() == nil, "closed")
	vCheck(len(to.data) >= len(old) && to.data[:len(old)] == old, "data written before is sent plain")
	vCheck(sSection(to.data[len(old):], content, ""), "closing completes the section")
}

// Errors while compressing are kept as well.
func H_L06_compressed() {
	_, _, w, to := sZWriter(true, false)
	var err error
	sTimeout(w, to)
	switch vPick("op", 4) {
	case 0:
		err = w.WriteLine([]byte(vStr("line")))
	case 1:
		to.timed = false
		_, err = w.Write([]byte(vStr("raw")))
	case 2:
		err = w.Flush()
	case 3:
		to.timed = false
		err = w.DisableZlib()
	}
	vCheck(!to.t.armed && to.t.n == to.t.off, "the timeout is disarmed exactly once")
	if err == nil {
		vCheck(to.err == nil && to.t.err == nil, "an error is returned")
		vReach("accepted")
		return
	}
	vCheck(err == to.err || err == to.t.err, "the cause is returned")
	if err == to.t.err {
		vCheck(to.writes == 0, "nothing is sent")
	}
	sRefused(w, to, err)
}

// Errors while switching are kept as well.
func H_L06_switching() {
	_, w, to := sWriter(true)
	err := w.EnableZlib()
	if err == nil {
		vCheck(to.err == nil, "an error is returned")
		vReach("accepted")
		return
	}
	vCheck(err == to.err, "the cause is returned")
	sRefused(w, to, err)
}
