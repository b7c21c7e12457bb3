package lineproto

// VLineSource is a connection of which only the lines it carries are described.
type VLineSource interface {
	// VNext receives the next line, with its delimiter, or an error.
	VNext(delim byte) ([]byte, error)
}

// What a line reader does for those who use it: deliver the next line, which ends with the
// delimiter and has no other, in memory that the next call overwrites, or an error.
//
//verif:summary (*Reader).ReadLine N04,N06,N07,N11R,A08 by H_L01_read_line,H_L04_read_line,H_L08_read_hooks
func S_Reader_ReadLine(r *Reader) ([]byte, error) {
	return r.original.r.(VLineSource).VNext(r.delim)
}

// VLineSink is a connection of which only the lines sent are described.
type VLineSink interface {
	// VLine takes a line, or fails.
	VLine(data []byte) error
}

// What a line writer without line hooks does for those who use it: send the line complete, or
// fail now and ever after.
//
//verif:summary (*Writer).WriteLine N10,N10A,A09 by H_L05_line,H_L05_failing,H_L06_sticky_line
func S_Writer_WriteLine(w *Writer, data []byte) error {
	if w.err != nil {
		return w.err
	}
	err := w.w.(VLineSink).VLine(data)
	if err != nil {
		w.err = err
	}
	return err
}

// VFailed leaves w as after an earlier failure.
func VFailed(w *Writer, err error) { w.err = err }
