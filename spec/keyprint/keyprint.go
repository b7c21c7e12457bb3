package keyprint

import (
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"encoding/base32"
	"encoding/pem"
	"errors"
	"io"
)

// ---- K01: keyprints of certificates ----

const sSize = 7 + 52 // SHA256/ and 256 bits in base32

func sKeyprint(raw string) string {
	h := sha256.Sum256([]byte(raw))
	return "SHA256/" + base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString(h[:])
}

func H_K01_from_bytes() {
	s := vStr("cert")
	b := []byte(s)
	k := FromBytes(b)
	vCheck(k == sKeyprint(s), "SHA256/ and the unpadded base32 of the digest")
	vCheck(len(k) == sSize, "the length of a keyprint")
	vCheck(string(b) == s, "the certificate is not modified")
}

var sK struct {
	on   bool
	want string // keyprints of all certificates, one after another
	pos  int    // part of it that belongs to the blocks already seen
	rest string // file content after these blocks
}

// sChain makes a chain of any length.
func sChain() (chain [][]byte) {
	n := 0
	if vProving() {
		n = vInt("n", 0, 1<<30)
		sK.want = vStrLen("want", n*sSize)
	} else {
		n = vInt("n", 0, 40)
		sK.want = ""
	}
	vList(&chain, n, func(i int) []byte {
		raw := vStr("raw")
		if vProving() {
			vAssume(sK.want[i*sSize:(i+1)*sSize] == sKeyprint(raw)) // what want is
		} else {
			sK.want += sKeyprint(raw)
		}
		return []byte(raw)
	})
	return chain
}

//verif:inv FromCertificate 0
func I0_FromCertificate(kps []string, rangeindex int) bool {
	if !sK.on {
		return true
	}
	n := rangeindex + 1
	return 0 <= n && n <= 1<<30 && n*sSize <= len(sK.want) && vTexts(kps, sSize) == sK.want[:n*sSize]
}

func H_K01_from_certificate() {
	c := tls.Certificate{Certificate: sChain()}
	sK.on = true
	kps := FromCertificate(c)
	sK.on = false
	vCheck(vTexts(kps, sSize) == sK.want, "the keyprints of the chain, in order")
}

// ---- PEM files ----

// sFile is a reader of a file.
type sFile struct {
	data string
	err  error
}

func (f *sFile) Read(p []byte) (int, error) {
	if f.data == "" {
		if f.err != nil {
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

func sReadAll(r io.Reader) ([]byte, error) {
	f := r.(*sFile)
	s := f.data
	f.data = ""
	return []byte(s), f.err
}

//verif:model io/ioutil.ReadAll
func M_ioutil_ReadAll(r io.Reader) ([]byte, error) { return sReadAll(r) }

//verif:model io.ReadAll
func M_io_ReadAll(r io.Reader) ([]byte, error) { return sReadAll(r) }

// pem.Decode finds any blocks in the file.
//
//verif:model encoding/pem.Decode
func M_pem_Decode(data []byte) (*pem.Block, []byte) {
	vCheck(string(data) == sK.rest, "pem.Decode is given the rest of the file")
	if vPick("block", 3) == 0 {
		vAssume(sK.pos == len(sK.want)) // no more blocks
		return nil, data
	}
	b := &pem.Block{Type: vStr("type"), Bytes: []byte(vStr("raw"))}
	if b.Type == "CERTIFICATE" {
		vAssume(sK.pos+sSize <= len(sK.want))
		vAssume(sK.want[sK.pos:sK.pos+sSize] == sKeyprint(string(b.Bytes)))
		sK.pos += sSize
	}
	rest := vStr("rest")
	vAssume(len(rest) < len(data))
	sK.rest = rest
	return b, []byte(rest)
}

//verif:inv FromFile 0
func I0_FromFile(kps []string, data []byte) bool {
	if !sK.on {
		return true
	}
	return 0 <= sK.pos && sK.pos <= len(sK.want) && vTexts(kps, sSize) == sK.want[:sK.pos] && string(data) == sK.rest
}

var sErrRead = errors.New("read")

// sPEM is any file.
func sPEM() string {
	sK.want, sK.pos = "", 0
	if vProving() {
		n := vInt("certs", 0, 1<<30)
		sK.want = vStrLen("want", n*sSize)
		sK.rest = vStr("file")
		return sK.rest
	}
	var f bytes.Buffer
	types := []string{"CERTIFICATE", "PRIVATE KEY", "TRUSTED CERTIFICATE", "certificate", "CERTIFICATE"}
	for n := vInt("blocks", 0, 30); n > 0; n-- {
		b := &pem.Block{Type: types[vPick("type", len(types))], Bytes: []byte(vStr("raw"))}
		if vPick("text", 3) == 0 {
			f.WriteString("text: before\n")
		}
		_ = pem.Encode(&f, b)
		if b.Type == "CERTIFICATE" {
			sK.want += sKeyprint(string(b.Bytes))
		}
	}
	if vPick("trailer", 3) == 0 {
		f.WriteString("-----BEGIN CERTIFICATE-----\n")
	}
	return f.String()
}

func H_K01_from_file() {
	file := sPEM()
	sK.on = true
	kps, err := FromFile(&sFile{data: file})
	sK.on = false
	vCheck(err == nil == (sK.want != ""), "a file is refused exactly if it has no certificate")
	if err == nil {
		vCheck(vTexts(kps, sSize) == sK.want, "the keyprints of the certificate blocks, in order")
	}
}

func H_K01_file_not_read() {
	file := sPEM()
	kps, err := FromFile(&sFile{data: file, err: sErrRead})
	vCheck(err == sErrRead && kps == nil, "a read error is reported")
}
