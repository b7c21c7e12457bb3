package nmdc

// Decoding into a value leaves nothing of what the value was.
func sOverwrite(m, fresh Message) {
	vLoose()
	vFill(m, "old")
	data := vStr("data")
	vTrack(m)
	err := m.UnmarshalNMDC(nil, []byte(data))
	vCheck(err != nil || vWritten(m), "nothing is left of a message that was dropped")
	if !vGhost() && err == nil {
		ferr := fresh.UnmarshalNMDC(nil, []byte(data))
		vCheck(ferr == nil && vEq(m, fresh), "nothing is left of a message that was dropped")
	}
}

//verif:scope N04
func H_N07_overwrite_chat() { sOverwrite(&ChatMessage{}, &ChatMessage{}) }

//verif:scope N04
func H_N07_overwrite_user_command() { sOverwrite(&UserCommand{}, &UserCommand{}) }

//verif:scope N04
func H_N07_overwrite_ctm() { sOverwrite(&ConnectToMe{}, &ConnectToMe{}) }

//verif:scope N04
func H_N07_overwrite_failed() { sOverwrite(&Failed{}, &Failed{}) }

//verif:scope N04
func H_N07_overwrite_error() { sOverwrite(&Error{}, &Error{}) }

//verif:scope N04
func H_N07_overwrite_adcget() { sOverwrite(&ADCGet{}, &ADCGet{}) }

//verif:scope N04
func H_N07_overwrite_adcsnd() { sOverwrite(&ADCSnd{}, &ADCSnd{}) }

//verif:scope N04
func H_N07_overwrite_hub_info() { sOverwrite(&HubINFO{}, &HubINFO{}) }

//verif:scope N04
func H_N07_overwrite_search() { sOverwrite(&Search{}, &Search{}) }

//verif:scope N04
func H_N07_overwrite_sr() { sOverwrite(&SR{}, &SR{}) }

//verif:scope N04
func H_N07_overwrite_my_info() { sOverwrite(&MyINFO{}, &MyINFO{}) }

//verif:scope N04
func H_N07_overwrite_private() { sOverwrite(&PrivateMessage{}, &PrivateMessage{}) }

//verif:scope N04
func H_N07_overwrite_mcto() { sOverwrite(&MCTo{}, &MCTo{}) }

//verif:scope N04
func H_N07_overwrite_rcm() { sOverwrite(&RevConnectToMe{}, &RevConnectToMe{}) }

//verif:scope N04
func H_N07_overwrite_direction() { sOverwrite(&Direction{}, &Direction{}) }

//verif:scope N04
func H_N07_overwrite_lock() { sOverwrite(&Lock{}, &Lock{}) }

//verif:scope N04
func H_N07_overwrite_fail_over() { sOverwrite(&FailOver{}, &FailOver{}) }

//verif:scope N04
func H_N07_overwrite_supports() { sOverwrite(&Supports{}, &Supports{}) }

//verif:scope N04
func H_N07_overwrite_user_ip() { sOverwrite(&UserIP{}, &UserIP{}) }

//verif:scope N04
func H_N07_overwrite_tthsearch_passive() { sOverwrite(&TTHSearchPassive{}, &TTHSearchPassive{}) }

