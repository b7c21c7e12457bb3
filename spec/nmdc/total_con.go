package nmdc

import "bytes"

// Contracts that say no more than that a call returns; used to show that nothing crashes (N04).

//verif:contract (*String).UnmarshalNMDC N04
func W_String_UnmarshalNMDC(s *String, dec *TextDecoder, data []byte) error {
	vModifies(s)
	err := s.UnmarshalNMDC(dec, data)
	vEnsure(true, "returns")
	return err
}

//verif:contract (*Name).UnmarshalNMDC N04
func W_Name_UnmarshalNMDC(s *Name, dec *TextDecoder, data []byte) error {
	vModifies(s)
	err := s.UnmarshalNMDC(dec, data)
	vEnsure(true, "returns")
	return err
}

//verif:contract atoiTrim N04
func W_atoiTrim(s []byte) (int, error) { return atoiTrim(s) }

//verif:contract parseUin64Trim N04
func W_parseUin64Trim(s []byte) (uint64, error) { return parseUin64Trim(s) }

//verif:contract (*MyINFO).unmarshalTag N04
func W_MyINFO_unmarshalTag(m *MyINFO, tag []byte) error {
	vLoose()
	vModifies(&m.Extra)
	vModifies(&m.Client)
	vModifies(&m.Mode)
	vModifies(&m.HubsNormal)
	vModifies(&m.HubsRegistered)
	vModifies(&m.HubsOperator)
	vModifies(&m.Slots)
	return m.unmarshalTag(tag)
}

//verif:inv (*MyINFO).unmarshalTag 0 N04
func I4_unmarshalTag(r int, tag []byte, tag_in []byte) bool {
	return r >= 0 && r < 1<<61 && r+len(tag) <= len(tag_in)
}

//verif:inv (*Names).UnmarshalNMDC 0 N04
func I4_Names(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*UserIP).UnmarshalNMDC 0 N04
func I4_UserIP(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*FailOver).UnmarshalNMDC 0 N04
func I4_FailOver(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*Supports).UnmarshalNMDC 0 N04
func I4_Supports(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*ADCGet).UnmarshalNMDC 0 N04
func I4_ADCGet(m *ADCGet, data []byte) bool { return true }

//verif:inv (*UserCommand).UnmarshalNMDC 0 N04
func I4_UserCommand(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*SR).UnmarshalNMDC 0 N04
func I4_SR(maybePath []byte, i int, j int) bool {
	return -1 <= j && j < len(maybePath) && i == -1
}

//verif:inv (*HubINFO).UnmarshalNMDC 0 N04
func I4_HubINFO(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*ChatMessage).UnmarshalNMDC 0 N04
func I4_Chat(data []byte, base int) bool { return 0 <= base && base <= len(data) }

//verif:contract (String).MarshalNMDC N04
func W_String_MarshalNMDC(s String, enc *TextEncoder, buf *bytes.Buffer) error {
	vModifies(buf)
	err := s.MarshalNMDC(enc, buf)
	vEnsure(true, "returns")
	return err
}

//verif:contract (Name).MarshalNMDC N04
func W_Name_MarshalNMDC(s Name, enc *TextEncoder, buf *bytes.Buffer) error {
	vModifies(buf)
	err := s.MarshalNMDC(enc, buf)
	vEnsure(true, "returns")
	return err
}

//verif:inv (*UserCommand).MarshalNMDC 0 N04
func I4_UserCommandM(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*FailOver).MarshalNMDC 0 N04
func I4_FailOverM(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*SR).MarshalNMDC 0 N04
func I4_SRM(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (Names).MarshalNMDC 0 N04
func I4_NamesM(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*UserIP).MarshalNMDC 0 N04
func I4_UserIPM(rangeindex int) bool { return -1 <= rangeindex && rangeindex < 1<<62 }

//verif:inv (*MyINFO).MarshalNMDC 0 N04
func I4_MyINFOM(bi []byte) bool { return cap(bi) >= 1 }
