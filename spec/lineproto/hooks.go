package lineproto

import "errors"

// ---- L08: line hooks ----

var sH struct {
	phase int    // how many hooks have passed the current line
	seen  string // the line shown to the first hook
	drops int
}

var errHook = errors.New("hook error")

// sHook is the i-th of several hooks, which passes, drops or fails at will.
func sHook(i int, d byte, dropped func(line string)) func(line []byte) (bool, error) {
	return func(line []byte) (bool, error) {
		vCheck(sH.phase == i, "hooks run in registration order, once for each line")
		if i == 0 {
			sH.seen = string(line)
			if d != 0 {
				vCheck(len(line) > 0 && line[len(line)-1] == d && sNoDelim(string(line[:len(line)-1]), d), "a hook is shown one complete line")
			}
		}
		vCheck(string(line) == sH.seen, "every hook is shown the same line")
		switch vPick("answer", 3) {
		case 0:
			sH.phase = i + 1
			return true, nil
		case 1:
			sH.phase = 0
			dropped(string(line))
			return false, nil
		}
		sH.phase = -1
		return vBool("ok"), errHook
	}
}

// sCount is any number of hooks.
func sCount(name string) int {
	if vProving() {
		return vInt(name, 0, 1<<30)
	}
	return vInt(name, 0, 6)
}

//verif:inv (*Reader).ReadLine 1 L08
func I8_ReadLine(r *Reader, line []byte, rangeindex int) bool {
	return rangeindex >= -1 && rangeindex < len(r.onLine) && sH.phase == rangeindex+1 && (rangeindex < 0 || sH.seen == string(line)) &&
		sG.st.got == sG.out+string(line)+sBuffered(r.original)
}

// Any number of hooks, and the one registered after them.
func H_L08_read_hooks() {
	r, st := sReader()
	vCheck(len(r.onLine) == 0, "a new reader has no hooks")
	n := sCount("hooks")
	hook := func(i int) func(line []byte) (bool, error) {
		return sHook(i, r.delim, func(line string) { sG.out += line })
	}
	sH.phase, sH.seen = 0, ""
	vList(&r.onLine, n, hook)
	r.OnLine(hook(n))
	n++
	line, err := r.ReadLine()
	vCheck(sConsistent(r, st), "the reader stays consistent")
	switch {
	case err == nil:
		vCheck(sH.phase == n, "a delivered line was shown to every hook")
		vCheck(string(line) == sH.seen, "the line shown to the hooks is delivered")
		vCheck(sG.out+string(line)+sBuffered(r.original) == st.got, "a dropped line leaves no trace")
	case err == errHook:
		vCheck(sH.phase == -1, "a hook error is returned")
		vCheck(line == nil, "no line is delivered")
		vCheck(sG.out+sH.seen+sBuffered(r.original) == st.got, "the following lines are not affected")
	default:
		vCheck(sH.phase == 0, "every hook answer is obeyed")
		vCheck(err == st.err && st.ended, "the transport's error")
		vCheck(sG.out+string(line) == st.got, "a dropped line leaves no trace")
	}
}
