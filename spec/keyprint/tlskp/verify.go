package tlskp

import (
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/base32"
	"reflect"
	"unsafe"
)

// ---- K01: verification of a peer ----

const sSize = 7 + 52

func sKeyprint(raw string) string {
	h := sha256.Sum256([]byte(raw))
	return "SHA256/" + base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString(h[:])
}

var sK struct {
	on    bool
	want  string // keyprints of all certificates, one after another
	certs []*x509.Certificate
	// verification
	kp   string
	none bool // no certificate has the keyprint kp
	at   int  // otherwise, this one has it
}

//verif:model (*crypto/tls.Conn).ConnectionState
func M_tls_ConnectionState(c *tls.Conn) tls.ConnectionState {
	return tls.ConnectionState{PeerCertificates: sK.certs, HandshakeComplete: true}
}

// sPeer makes a connection to a peer with any certificates.
func sPeer() *tls.Conn {
	sK.certs, sK.want = nil, ""
	n := 0
	if vProving() {
		n = vInt("n", 0, 1<<30)
		sK.want = vStrLen("want", n*sSize)
	} else {
		n = vInt("n", 0, 40)
	}
	vList(&sK.certs, n, func(i int) *x509.Certificate {
		raw := vStr("raw")
		k := sKeyprint(raw)
		if vProving() {
			vAssume(sK.want[i*sSize:(i+1)*sSize] == k) // what want is
		} else {
			sK.want += k
		}
		vAssume(!sK.none || k != sK.kp)
		return &x509.Certificate{Raw: []byte(raw)}
	})
	c := new(tls.Conn)
	if !vProving() {
		c = tls.Client(nil, &tls.Config{})
		f := reflect.ValueOf(c).Elem().FieldByName("peerCertificates")
		*(*[]*x509.Certificate)(unsafe.Pointer(f.UnsafeAddr())) = sK.certs
	}
	return c
}

// sAt is the keyprint of certificate i.
func sAt(i int) string { return sK.want[i*sSize : (i+1)*sSize] }

//verif:inv GetKeyPrints 0
func I0_GetKeyPrints(kps []string, rangeindex int) bool {
	if !sK.on {
		return true
	}
	n := rangeindex + 1
	return 0 <= n && n <= 1<<30 && n*sSize <= len(sK.want) && vTexts(kps, sSize) == sK.want[:n*sSize]
}

//verif:inv VerifyKeyPrint 0
func I0_VerifyKeyPrint(kps []string, kp string, rangeindex int) bool {
	if !sK.on {
		return true
	}
	n := rangeindex + 1
	if !(0 <= n && n <= 1<<30 && n*sSize <= len(sK.want) && vTexts(kps, sSize) == sK.want && kp == sK.kp) {
		return false
	}
	if !sK.none {
		return n <= sK.at // the one that matches is still to come
	}
	if n*sSize < len(sK.want) {
		vAssume(sAt(n) != kp)
	}
	return true
}

func H_K01_get_key_prints() {
	sK.none = false
	c := sPeer()
	sK.on = true
	kps := GetKeyPrints(c)
	sK.on = false
	vCheck(vTexts(kps, sSize) == sK.want, "the keyprints of the peer's certificates, in order")
}

func H_K01_accepted() {
	sK.none = false
	c := sPeer()
	sK.at = vInt("at", 0, len(sK.want)/sSize-1)
	sK.kp = sAt(sK.at)
	sK.on = true
	kps, err := VerifyKeyPrint(c, sK.kp)
	sK.on = false
	vCheck(err == nil, "accepted")
	vCheck(vTexts(kps, sSize) == sK.want, "the keyprints of the peer's certificates, in order")
}

func H_K01_refused() {
	sK.none, sK.kp = true, vStr("kp")
	c := sPeer()
	sK.on = true
	kps, err := VerifyKeyPrint(c, sK.kp)
	sK.on = false
	vCheck(vTexts(kps, sSize) == sK.want, "the keyprints of the peer's certificates, in order")
	e, ok := err.(*ErrInvalidKeyPrint)
	vCheck(ok && e != nil, "refused with ErrInvalidKeyPrint")
	if ok && e != nil {
		vCheck(e.Expected == sK.kp, "the expected keyprint is reported")
		vCheck(vTexts(e.Actual, sSize) == sK.want, "the actual keyprints are reported")
	}
}
