package mint

// Helpers shared by the codec properties.

// vfExts builds an extension list with arbitrary contents.
func vfExts(name string, maxN, maxLen int) ExtensionList {
	n := vfLen(name+"_n", 0, maxN)
	var el ExtensionList
	for i := 0; i < n; i++ {
		el = append(el, Extension{ExtensionType: ExtensionType(vfU16(name + "_t")), ExtensionData: vfBytes(name+"_d", vfLen(name+"_l", 0, maxLen))})
	}
	return el
}

func vfExtsEq(a, b ExtensionList) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vfAnd(ok, vfAnd(a[i].ExtensionType == b[i].ExtensionType, vfEq(a[i].ExtensionData, b[i].ExtensionData)))
	}
	return ok
}

func vfRandom(name string) (r [32]byte) {
	copy(r[:], vfBytes(name, 32))
	return
}

func vfShare(name string) KeyShareEntry {
	// every share size is right for its group unless "bad"
	switch vfChoice(name+"_g", 4) {
	case 0:
		return KeyShareEntry{X25519, vfBytes(name+"_k", 32)}
	case 1:
		return KeyShareEntry{P256, vfBytes(name+"_k", 65)}
	case 2:
		return KeyShareEntry{P256, vfBytes(name+"_k", 64)}
	}
	return KeyShareEntry{NamedGroup(vfU16(name + "_x")), vfBytes(name+"_k", 1)}
}

func vfShareOK(s KeyShareEntry) bool {
	return s.Group == X25519 && len(s.KeyExchange) == 32 || s.Group == P256 && len(s.KeyExchange) == 65
}

func vfShareEq(a, b KeyShareEntry) bool {
	return a.Group == b.Group && vfEq(a.KeyExchange, b.KeyExchange)
}
