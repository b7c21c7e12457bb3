package nmdc

// ---- N08: keys for lock challenges ----

// sXor is the text whose first byte is lock[0]^lock[n-1]^lock[n-2]^magic and whose other bytes are
// lock[i]^lock[i-1]. It is defined byte by byte (sXorAt); nothing else is known about it.
func sXor(lock string, magic byte) string {
	if vGhost() {
		return vUF("xor", len(lock), lock+string([]byte{magic}))
	}
	out := make([]byte, len(lock))
	for i := range out {
		out[i] = sXorByte(lock, magic, i)
	}
	return string(out)
}

func sXorByte(lock string, magic byte, i int) byte {
	if i == 0 {
		n := len(lock)
		return lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic
	}
	return lock[i] ^ lock[i-1]
}

// sXorAt is the definition of sXor at one place.
func sXorAt(lock string, magic byte, i int) {
	if vGhost() {
		vAssume(sXor(lock, magic)[i] == sXorByte(lock, magic, i))
	}
}

func sSwap(c byte) string { return string([]byte{c<<4 | c>>4}) }

func sKeyEsc(c byte) string {
	switch c {
	case 0:
		return "/%DCN000%/"
	case 5:
		return "/%DCN005%/"
	case 36:
		return "/%DCN036%/"
	case 96:
		return "/%DCN096%/"
	case 124:
		return "/%DCN124%/"
	case 126:
		return "/%DCN126%/"
	}
	return string([]byte{c})
}

// sLockText is an arbitrary text that can be copied without exhausting memory.
func sLockText(name string) string {
	s := vStr(name)
	vAssume(len(s) < 1<<40)
	return s
}

func sKey(lock string, magic byte) string {
	return vHom(vHom(sXor(lock, magic), sSwap), sKeyEsc)
}

func H_N08_key() {
	m := &Lock{NoExt: true, Lock: sLockText("lock")}
	vAssume(len(m.Lock) >= 2)
	magic := vByte("magic")
	k := m.CustomKey(magic, false)
	vCheck(k.Key == sKey(m.Lock, magic), "the key of the lock")
	vCheck(sNone(k.Key, "\x00\x05$`|~"), "no reserved byte in the key")
}

func H_N08_key_extended() {
	m := &Lock{Lock: sLockText("lock")}
	magic := vByte("magic")
	k := m.CustomKey(magic, false)
	vCheck(k.Key == sKey("EXTENDEDPROTOCOL"+m.Lock, magic), "the key of the lock with its prefix")
}

func H_N08_lock_text() {
	m := &Lock{NoExt: vBool("noext"), Lock: vStr("lock"), PK: vStr("pk"), Ref: vStr("ref")}
	full := m.Lock
	if !m.NoExt {
		full = "EXTENDEDPROTOCOL" + full
	}
	vCheck(m.LockString(false) == full, "the text of the lock")
	if m.PK != "" {
		full += " Pk=" + m.PK
	} else if m.Ref != "" {
		full += " "
	}
	if m.Ref != "" {
		full += "Ref=" + m.Ref
	}
	vCheck(m.LockString(true) == full, "the whole text of the challenge")
}

func H_N08_key_full() {
	m := &Lock{Lock: "l", PK: sLockText("pk")}
	vAssume(m.PK != "")
	magic := vByte("magic")
	k := m.CustomKey(magic, true)
	vCheck(k.Key == sKey("EXTENDEDPROTOCOLl Pk="+m.PK, magic), "the key of the whole challenge")
}

func H_N08_default_magic() {
	m := &Lock{NoExt: vBool("noext"), Lock: sLockText("lock")}
	vAssume(!m.NoExt || len(m.Lock) >= 2)
	vCheck(m.Key().Key == m.CustomKey(5, false).Key, "the usual magic byte")
}

func H_N08_short() {
	m := &Lock{NoExt: true, Lock: sLockText("lock")}
	vAssume(len(m.Lock) < 2)
	m.Key()
	m.CustomKey(vByte("magic"), vBool("full"))
	vReach("no crash")
}
