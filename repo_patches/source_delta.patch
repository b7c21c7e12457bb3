From be206cb755309e3c87c9a5b0c487e49ca745fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:52 +0000
Subject: [PATCH 01/35] fix: adc: return an error instead of panicking when
 positional fields are missing

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..1ad54b5 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("error on field %s: missing value", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From 64aee52ae4716927162e7a2e653373b61f4c1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 02/35] fix: tiger: check the length of base32 text, never
 panic and keep the hash on error

---
 tiger/tiger.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..bf4abff 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,18 +80,26 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
-	n, err := base32Enc.Decode((*h)[:], buf)
+	if len(buf) != Base32Size {
+		return fmt.Errorf("wrong base32 size: %d vs %d", len(buf), Base32Size)
+	}
+	var b Hash
+	n, err := base32Enc.Decode(b[:], buf)
 	if err != nil {
 		return err
 	}
 	if n != Size {
 		return fmt.Errorf("wrong base32 encoded size: %d vs %d", n, Size)
 	}
+	*h = b
 	return nil
 }
 
 // FromBase32 parses hash from base32 encoding.
 func (h *Hash) FromBase32(s string) error {
+	if len(s) != Base32Size {
+		return fmt.Errorf("wrong base32 size: %d vs %d", len(s), Base32Size)
+	}
 	b, err := base32Enc.DecodeString(s)
 	if err != nil {
 		return err
-- 
2.43.0


From eaff4118e347cf35383ffb72fe30517e34fd954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 03/35] fix: adc: ModFeatures.IsSet must not report removed
 features

---
 adc/types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adc/types.go b/adc/types.go
index 086701b..3cd3e63 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -155,8 +155,7 @@ func (f ModFeatures) IsSet(s Feature) bool {
 	if f == nil {
 		return false
 	}
-	_, ok := f[s]
-	return ok
+	return f[s]
 }
 
 func (f ModFeatures) SetFrom(fp ModFeatures) ModFeatures {
-- 
2.43.0


From 7b6030a440589a07ca94190ea616a776c59ab232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 04/35] fix: adc: store the unescaped value when decoding
 Fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From cba92c74004773b093166fa87aa17fb05075e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 05/35] fix: adc: do not pad a decoded password salt with zero
 bytes

---
 adc/hub.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/adc/hub.go b/adc/hub.go
index 68982d7..08b32f0 100644
--- a/adc/hub.go
+++ b/adc/hub.go
@@ -83,9 +83,13 @@ func (m GetPassword) MarshalADC(buf *bytes.Buffer) error {
 
 func (m *GetPassword) UnmarshalADC(data []byte) error {
 	size := base32Enc.DecodedLen(len(data))
-	m.Salt = make([]byte, size)
-	_, err := base32Enc.Decode(m.Salt, data)
-	return err
+	salt := make([]byte, size)
+	n, err := base32Enc.Decode(salt, data)
+	if err != nil {
+		return err
+	}
+	m.Salt = salt[:n]
+	return nil
 }
 
 type Password struct {
-- 
2.43.0


From c88d19254ab4b8f2a15b65c85698045f182dc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 06/35] fix: adc: InfoPacket must not panic on empty data

---
 adc/packets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..adbbae2 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -180,7 +180,9 @@ func (p *InfoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *InfoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) != 0 && data[len(data)-1] != lineDelim {
+	if len(data) < 1 {
+		return errors.New("short info command")
+	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	}
 	data = data[:len(data)-1]
-- 
2.43.0


From 3a912bb3ee7c2ee4392a6c444b20e8aa3f27f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 07/35] fix: adc: refuse packets whose address is cut by the
 line delimiter

---
 adc/packets.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index adbbae2..7b2f543 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -122,7 +122,7 @@ func DecodePacketRaw(p []byte) (Packet, error) {
 	}
 	if p[0] == ' ' {
 		p = p[1:]
-	} else if p[0] != lineDelim {
+	} else if len(p) != 1 {
 		return nil, errors.New("expected name delimiter")
 	}
 	if err := m.UnmarshalPacketADC(cname, p); err != nil {
@@ -315,14 +315,15 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if len(data) > 4 && data[4] != ' ' && data[4] != lineDelim {
-		return fmt.Errorf("separator expected: '%s'", string(data[:5]))
 	}
 	data = data[:len(data)-1]
+	if len(data) > 4 && data[4] != ' ' {
+		return fmt.Errorf("separator expected: '%s'", string(data[:5]))
+	}
 	if err := p.ID.UnmarshalADC(data[0:4]); err != nil {
 		return err
 	}
@@ -410,16 +411,17 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if data[4] != ' ' {
+	}
+	data = data[:len(data)-1]
+	if data[4] != ' ' {
 		return fmt.Errorf("separator expected: '%s'", string(data[:9]))
-	} else if len(data) > 9 && data[9] != ' ' && data[9] != lineDelim {
+	} else if len(data) > 9 && data[9] != ' ' {
 		return fmt.Errorf("separator expected: '%s'", string(data[:10]))
 	}
-	data = data[:len(data)-1]
 	if err := p.ID.UnmarshalADC(data[0:4]); err != nil {
 		return err
 	}
@@ -506,16 +508,17 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if data[4] != ' ' {
+	}
+	data = data[:len(data)-1]
+	if data[4] != ' ' {
 		return fmt.Errorf("separator expected: '%s'", string(data[:9]))
-	} else if len(data) > 9 && data[9] != ' ' && data[9] != lineDelim {
+	} else if len(data) > 9 && data[9] != ' ' {
 		return fmt.Errorf("separator expected: '%s'", string(data[:10]))
 	}
-	data = data[:len(data)-1]
 	if err := p.ID.UnmarshalADC(data[0:4]); err != nil {
 		return err
 	}
@@ -675,14 +678,15 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if len(data) > 4 && data[4] != ' ' && data[4] != lineDelim {
-		return fmt.Errorf("separator expected: '%s'", string(data[:5]))
 	}
 	data = data[:len(data)-1]
+	if len(data) > 4 && data[4] != ' ' {
+		return fmt.Errorf("separator expected: '%s'", string(data[:5]))
+	}
 	if err := p.ID.UnmarshalADC(data[0:4]); err != nil {
 		return err
 	}
@@ -781,14 +785,15 @@ func (p *UDPPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 
 func (p *UDPPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	const l = 39 // len of CID in base32
-	if len(data) < l {
+	if len(data) < l+1 {
 		return errors.New("short upd command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if len(data) > l && data[l] != ' ' && data[l] != lineDelim {
-		return fmt.Errorf("separator expected: '%s'", string(data[:l+1]))
 	}
 	data = data[:len(data)-1]
+	if len(data) > l && data[l] != ' ' {
+		return fmt.Errorf("separator expected: '%s'", string(data[:l+1]))
+	}
 	if err := p.ID.FromBase32(string(data[0:l])); err != nil {
 		return fmt.Errorf("wrong CID in upd command: %v", err)
 	}
-- 
2.43.0


From c5f4951ba1df4c0221f7f43f2d66caed1288e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 08/35] fix: adc: do not panic on a short feature and require
 separators in feature packets

---
 adc/packets.go | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index 7b2f543..6eb7887 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -696,31 +696,18 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 		data = nil
 	}
 	p.Sel = make([]FeatureSel, 0, len(data)/5)
-	for i := 0; i < len(data); i++ {
-		if data[i] == '+' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: true})
-			i += 4
-		} else if data[i] == '-' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: false})
-			i += 4
-		} else if data[i] == ' ' {
-			data = data[i:]
-			i = 0
-		} else {
-			data = data[i:]
-			break
+	for len(data) != 0 && (data[0] == '+' || data[0] == '-') {
+		if len(data) < 5 {
+			return fmt.Errorf("short feature: '%s'", string(data))
+		} else if len(data) > 5 && data[5] != ' ' {
+			return fmt.Errorf("separator expected: '%s'", string(data[:6]))
 		}
-		if i+1 == len(data) {
+		var fea Feature
+		copy(fea[:], data[1:5])
+		p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: data[0] == '+'})
+		if len(data) > 6 {
+			data = data[6:]
+		} else {
 			data = nil
 		}
 	}
-- 
2.43.0


From 5dc286766fffc77a7e21eb07c613824b4bba7608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 09/35] fix: adc: decode the flag value 0 as false and refuse
 other characters

---
 adc/marshal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 1ad54b5..bf715bc 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -89,7 +89,14 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		switch s[0] {
+		case '0':
+			rv.SetBool(false)
+		case '1':
+			rv.SetBool(true)
+		default:
+			return errors.New("invalid bool value: " + string(s))
+		}
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 3f216487d275327739fc7f154fa2ab3296366ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 10/35] fix: adc: refuse fractional, infinite and out of range
 numbers

---
 adc/marshal.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index bf715bc..cad324c 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -60,13 +60,14 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		vi, err := strconv.ParseInt(sv, 10, bits)
 		if err != nil {
 			vf, err2 := strconv.ParseFloat(sv, bits)
-			if err2 != nil {
+			if err2 != nil || math.Round(vf) != vf || vf < -(1<<63) || vf >= 1<<63 {
 				return err
-			} else if math.Round(vf) != vf {
-				return err2
 			}
 			vi = int64(vf)
 		}
+		if rv.OverflowInt(vi) {
+			return fmt.Errorf("value out of range: %q", sv)
+		}
 		rv.SetInt(vi)
 		return nil
 	case reflect.String:
-- 
2.43.0


From 4364bad0d79a3e0b7ee7b317b0e0c5b3bbaa8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 11/35] fix: tiger: read full blocks when computing tree hashes

---
 tiger/tth.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..567ffaa 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -14,7 +14,10 @@ func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = io.ReadFull(r, buf[1:])
+		if err == io.ErrUnexpectedEOF {
+			err = io.EOF
+		}
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -62,7 +65,10 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = io.ReadFull(r, buf[1:])
+		if err == io.ErrUnexpectedEOF {
+			err = io.EOF
+		}
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From a2aa47c3683d302842d57ce13803dce5dce058c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 12/35] fix: tiger: do not panic on an empty list of leaves

---
 tiger/tth.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiger/tth.go b/tiger/tth.go
index 567ffaa..0d7b23e 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -33,6 +33,10 @@ func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 
 // TreeHash converts leaves into a hash.
 func (in Leaves) TreeHash() Hash {
+	if len(in) == 0 {
+		// empty content is a single empty leaf
+		return HashBytes([]byte{0x00})
+	}
 	// deep copy leaves since they must be modified in order to compute the hash
 	lvl := append([]Hash{}, in...)
 	buf := make([]byte, 2*Size+1)
-- 
2.43.0


From 2b7ca07c196f3289f32a40734c21a77820bc4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 13/35] fix: nmdc: do not panic or overwrite the buffer when
 encoding an empty chat message

---
 nmdc/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..28897a1 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -116,7 +116,8 @@ func (m *RawMessage) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 // MarshalTo encodes NMDC message into a buffer. It will write a command name,
 // a payload and '|' delimiter.
 func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
-	if typ := m.Type(); typ != "" {
+	typ := m.Type()
+	if typ != "" {
 		buf.Grow(1 + len(typ) + 2)
 		buf.WriteByte('$')
 		buf.WriteString(typ)
@@ -126,7 +127,7 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-	if n == buf.Len() {
+	if n == buf.Len() && typ != "" {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
-- 
2.43.0


From a01c589a68d8904790e89c29c995a35155e51ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 14/35] fix: nmdc: do not panic when calculating a key for a
 short lock

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..bc4b36b 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// the algorithm is not defined for such a lock
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From 2bf2ec3b4655d9dacd0626420474629924fa6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 15/35] fix: nmdc: use the decoded text for paths in search
 results

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..13bf9fa 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -359,7 +359,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From d555dc8f459204dacf6e43141f2219f698d4c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 16/35] fix: nmdc: do not take a slash in the path of a search
 result for slots

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 13bf9fa..631a622 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -329,7 +329,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		path  []byte
 		slots []byte
 	)
-	if hasSep && i >= 0 {
+	if hasSep && i >= 0 && maybePath[i] == ' ' {
 		// directory result - slots are in the path
 		m.IsDir = true
 		m.Size = 0
-- 
2.43.0


From 6d99038c9d3f70edea0e239ed12e033d5347367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 17/35] fix: nmdc: a skipped message must not determine the
 type of the next one

---
 nmdc/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..f59649b 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -147,6 +147,7 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
+	orig := *ptr
 read:
 	for {
 		line, err := r.ReadLine()
@@ -174,7 +175,7 @@ read:
 		}
 		origLine := line
 		var (
-			out  = *ptr
+			out  = orig
 			cmd  []byte
 			args []byte
 		)
-- 
2.43.0


From 67a6a9ba788dbaa279bd68184151b39e4940d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 18/35] fix: nmdc: keep dollar signs in search patterns

---
 nmdc/msg_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 631a622..58050ef 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -192,12 +192,14 @@ func (m *Search) unmarshalString(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
+		// spaces are encoded as '$', while '$' itself is escaped
+		field = bytes.Replace(field, []byte("$"), []byte(" "), -1)
 		var str String
 		err := str.UnmarshalNMDC(dec, field)
 		if err != nil {
 			return err
 		}
-		m.Pattern = strings.Replace(string(str), "$", " ", -1)
+		m.Pattern = string(str)
 	}
 	return nil
 }
-- 
2.43.0


From 7029434846204be5ed1bb96de73ba85206c4e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 19/35] fix: nmdc: refuse ADCGET lengths that do not fit the
 field

---
 nmdc/msg_files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..ee37c65 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -92,7 +93,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		m.Length = -1
 	} else {
 		lengthNum, err := parseUin64Trim(length)
-		if err != nil {
+		if err != nil || lengthNum > math.MaxInt64 {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
 		}
 		m.Length = int64(lengthNum)
-- 
2.43.0


From d1007f57ad1f7d5a275760878b1ce5099653e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 20/35] fix: do not route hosts that start with adc to the ADC
 address parser

---
 conn.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..0a995a8 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,19 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if the address has an explicit ADC or ADCS scheme.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	if i < 0 {
+		return false
+	}
+	scheme := strings.ToLower(addr[:i])
+	return scheme == adc.SchemaADC || scheme == adc.SchemaADCS
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +28,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From 623a23d9082efa116a9f868beee4d0548477f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 21/35] fix: nmdc: do not panic when encoding an empty list of
 extensions

---
 nmdc/extensions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..51dbecf 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -43,9 +43,9 @@ func (m *Supports) Intersect(m2 *Supports) Supports {
 }
 
 func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
-	n := len(m.Ext) - 1
+	n := 0
 	for _, ext := range m.Ext {
-		n += len(ext)
+		n += len(ext) + 1
 	}
 	buf.Grow(n)
 	for i, ext := range m.Ext {
-- 
2.43.0


From 82aee83c63a2a80495bdf460433ab4656f958a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 22/35] fix: nmdc: do not cut the name of a chat message that
 ends with a closing token

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 25112d9..7f0ebf3 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -77,7 +77,7 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 				break
 			}
 			if base+j == len(data)-1 {
-				i = j
+				i = base + j
 				off = 1
 				break
 			}
-- 
2.43.0


From 8ecc274b256f7f4e46b9069e2112c8db90c5869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 23/35] fix: nmdc: a hook that drops a message must not drop
 the messages after it

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..9fb5f78 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+next:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue next // drop
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From 5fdbf56330500534c22b8fbf514bea321df7cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 24/35] fix: adc: refuse integers below the range instead of
 rounding them

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index cad324c..c6bcc7c 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -59,6 +59,9 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		sv := string(s)
 		vi, err := strconv.ParseInt(sv, 10, bits)
 		if err != nil {
+			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
+				return err
+			}
 			vf, err2 := strconv.ParseFloat(sv, bits)
 			if err2 != nil || math.Round(vf) != vf || vf < -(1<<63) || vf >= 1<<63 {
 				return err
-- 
2.43.0


From 14c39a5173208eba151d44a29615f502da849964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 25/35] fix: lineproto: do not panic when the transport returns
 an empty read while inflating

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..3321951 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) {
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 6e6fcac334c7c77ea6fe7cd1653869527faa0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 26/35] fix: lineproto: do not turn huge binary sizes into an
 empty read

---
 lineproto/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 3321951..4739bf9 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 const (
@@ -285,6 +286,9 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
+	if sz > math.MaxInt64 {
+		sz = math.MaxInt64
+	}
 	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
 }
 
-- 
2.43.0


From 145934dedb325696e50a8221e9c4b7776a708230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 27/35] fix: lineproto: keep the error of a failed raw write

---
 lineproto/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..ce76a94 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -176,7 +176,11 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From 4a1810e15ae00237cd6eadff5888dc9d4fd21228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 28/35] fix: lineproto: an invalid compression level must not
 enable compression

---
 lineproto/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index ce76a94..64e2e7a 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -98,7 +98,6 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if err := w.Flush(); err != nil {
 		return err
 	}
-	w.zlibOn = true
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
@@ -109,6 +108,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	} else {
 		w.zlibW.Reset(w.w)
 	}
+	w.zlibOn = true
 	w.cur = w.zlibW
 	w.bw.Reset(w.cur)
 	return nil
-- 
2.43.0


From 924066a87d2018f474f3231cbc58e4a8d69179d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 29/35] fix: lineproto: do not panic when a writer is closed
 twice

---
 lineproto/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 64e2e7a..dbcb342 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,10 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		// already closed
+		return nil
+	}
 	last := w.bw.Flush()
 	if w.err == nil {
 		w.err = errWriterClosed
-- 
2.43.0


From 94a51ceac112e9e8c6f765d78931a101fba2c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 30/35] fix: nmdc: an unknown user mode in a tag is written as
 a space and must be read back as unknown

---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 8579128..d6632d6 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -341,7 +341,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 		case 'V':
 			m.Client.Version = string(val)
 		case 'M':
-			if len(val) == 1 {
+			if len(val) == 1 && val[0] != ' ' {
 				m.Mode = UserMode(val[0])
 			} else {
 				m.Mode = UserModeUnknown
-- 
2.43.0


From c0051f3082957621c1cf10cf86605f47815d65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 31/35] fix: nmdc: deliver any message into a raw message
 expected by ReadMsgToAny

---
 nmdc/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index f59649b..400e894 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -230,6 +230,9 @@ read:
 				// detect type by command name
 				out = NewMessage(typ)
 				*ptr = out
+			} else if raw, ok := out.(*RawMessage); ok && len(allowed) != 0 {
+				// a raw message accepts any command
+				raw.Typ = typ
 			} else if _, ok := out.(*ChatMessage); ok {
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
@@ -279,6 +282,9 @@ read:
 			if out == nil {
 				out = &ChatMessage{}
 				*ptr = out
+			} else if raw, ok := out.(*RawMessage); ok && len(allowed) != 0 {
+				// a raw message accepts chat as well
+				raw.Typ = ""
 			} else if _, ok := out.(*ChatMessage); !ok {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
-- 
2.43.0


From 03cbdfce164cb246292c388910ad070bdbd53570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 32/35] fix: nmdc: decoding a message leaves nothing of its
 previous value

---
 nmdc/msg_chat.go   | 2 ++
 nmdc/msg_ctm.go    | 1 +
 nmdc/msg_errors.go | 2 ++
 nmdc/msg_files.go  | 2 ++
 nmdc/msg_ping.go   | 1 +
 nmdc/msg_search.go | 2 ++
 nmdc/msg_user.go   | 1 +
 7 files changed, 11 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 7f0ebf3..0afd7fa 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -49,6 +49,7 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ChatMessage{}
 	// <user> message text|
 	// or
 	// message text|
@@ -295,6 +296,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = UserCommand{}
 	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
diff --git a/nmdc/msg_ctm.go b/nmdc/msg_ctm.go
index a5711cf..601ad39 100644
--- a/nmdc/msg_ctm.go
+++ b/nmdc/msg_ctm.go
@@ -70,6 +70,7 @@ func (m *ConnectToMe) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ConnectToMe) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ConnectToMe{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid ConnectToMe command")
diff --git a/nmdc/msg_errors.go b/nmdc/msg_errors.go
index b4ca982..f9e3f88 100644
--- a/nmdc/msg_errors.go
+++ b/nmdc/msg_errors.go
@@ -29,6 +29,7 @@ func (m *Failed) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Failed) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Failed{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
@@ -58,6 +59,7 @@ func (m *Error) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Error) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Error{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index ee37c65..2edb06d 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -53,6 +53,7 @@ func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCGet{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGet: missing separator after field 'ContentType'")
@@ -156,6 +157,7 @@ func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCSnd{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCSnd: missing separator after field 1")
diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index cb05964..33da759 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -108,6 +108,7 @@ func (m *HubINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = HubINFO{}
 	fields := bytes.SplitN(data, []byte("$"), 13)
 	for i, field := range fields {
 		switch i {
diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 58050ef..5a1d9ce 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -106,6 +106,7 @@ func (m *Search) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Search) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = Search{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid search command")
@@ -291,6 +292,7 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = SR{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid SR command: missing name")
diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index d6632d6..f591360 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -193,6 +193,7 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *MyINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = MyINFO{}
 	const infoPref = "$ALL "
 	if !bytes.HasPrefix(data, []byte(infoPref)) {
 		return errors.New("invalid info command: wrong prefix")
-- 
2.43.0


From 74c1edbb989f3a68c9ca64a45583faff3e9a22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 33/35] fix: a handler that keeps the decoder for one message
 must not change it for the next ones

---
 nmdc/reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 400e894..cba3684 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -298,20 +298,21 @@ read:
 		err = out.UnmarshalNMDC(dec, args)
 		if r.OnUnknownEncoding != nil {
 			if e, ok := err.(*errUnknownEncoding); ok {
-				dec, err = r.OnUnknownEncoding(e.text)
-				if err != nil {
-					return err
+				ndec, err2 := r.OnUnknownEncoding(e.text)
+				if err2 != nil {
+					return err2
 				}
-				if dec == nil {
+				if ndec == nil {
 					// cannot decode, but asked to continue
 					args = bytes.Map(func(r rune) rune {
 						return r // only need to parse
 					}, args)
 				} else {
 					// switch encoding and decode again
+					dec = ndec
 					r.SetDecoder(dec)
 				}
-				err = out.UnmarshalNMDC(dec, args)
+				err = out.UnmarshalNMDC(ndec, args)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From b7a7e4f2f24548e4cb57ee4f562059e38db031d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 34/35] fix: report text in an unknown encoding as such in
 ADCGet, ADCSnd and UserCommand

---
 nmdc/msg_chat.go  | 2 +-
 nmdc/msg_files.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 0afd7fa..69b439b 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -337,7 +337,7 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		var s String
 		err := s.UnmarshalNMDC(dec, p)
 		if err != nil {
-			return errors.New("invalid path user command")
+			return err
 		}
 		m.Path = append(m.Path, string(s))
 	}
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 2edb06d..b0364d5 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -69,7 +69,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCGet: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
@@ -173,7 +173,7 @@ func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCSnd: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
-- 
2.43.0


From 78e2e4eccabda14f7ebb55796e6931598deac3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 35/35] fix: report truncated streams when computing tree
 hashes

A reader that fails with io.ErrUnexpectedEOF was taken for one that ended, and the hash of the
truncated content was returned without an error.
---
 tiger/tth.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 0d7b23e..ab1b0e1 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,16 +8,28 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads until the buffer is full. If the reader ends before that, it returns io.EOF
+// with the bytes read so far. Unlike io.ReadFull, it never turns a clean end of the stream into
+// io.ErrUnexpectedEOF, so that readers of truncated streams can report this error.
+func readBlock(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nn int
+		nn, err = r.Read(buf[n:])
+		n += nn
+	}
+	if n == len(buf) {
+		err = nil
+	}
+	return n, err
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = io.ReadFull(r, buf[1:])
-		if err == io.ErrUnexpectedEOF {
-			err = io.EOF
-		}
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -69,10 +81,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = io.ReadFull(r, buf[1:])
-		if err == io.ErrUnexpectedEOF {
-			err = io.EOF
-		}
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0

