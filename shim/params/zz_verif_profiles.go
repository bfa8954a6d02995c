package params

// Overlaid by the checks only: extra parameter profiles next to the shipped ones.

// VerifProfile is a complete parameter set.
type VerifProfile struct {
	Lv0  TLWELv0Params
	Lv1  TLWELv1Params
	RLv1 TRLWELv1Params
	G    TRGSWLv1Params
}

// VerifBase is the first pseudo level; level VerifBase+i selects VerifProfiles[i].
const VerifBase SecurityLevel = 1000

// VerifProfiles holds the extra profiles.
var VerifProfiles []VerifProfile

func verifCur() *VerifProfile {
	if CurrentSecurityLevel >= VerifBase {
		i := int(CurrentSecurityLevel - VerifBase)
		if i < len(VerifProfiles) {
			return &VerifProfiles[i]
		}
	}
	return nil
}

func GetTLWELv0() TLWELv0Params {
	if p := verifCur(); p != nil {
		return p.Lv0
	}
	return verifOrigGetTLWELv0()
}

func GetTLWELv1() TLWELv1Params {
	if p := verifCur(); p != nil {
		return p.Lv1
	}
	return verifOrigGetTLWELv1()
}

func GetTRLWELv1() TRLWELv1Params {
	if p := verifCur(); p != nil {
		return p.RLv1
	}
	return verifOrigGetTRLWELv1()
}

func GetTRGSWLv1() TRGSWLv1Params {
	if p := verifCur(); p != nil {
		return p.G
	}
	return verifOrigGetTRGSWLv1()
}
