package main

import (
	"github.com/oov/psd"

	"verif.local/harness/mc"
	"verif.local/harness/psdw"
)

// lenSize checks the size of the length field of every key over a small alphabet.
func lenSize(c *mc.Case) {
	alpha := []byte("LMskr1632ayntAlphFE8idXPxSDBI ")
	// all keys within one substitution of a large key, and all large keys
	var keys []string
	for k := range psdw.LargeKeys {
		keys = append(keys, k)
	}
	sortStrings(keys)
	k := []byte(mc.Pick(c, "key", keys))
	pos := c.Choose(5, "pos")
	if pos < 4 {
		k[pos] = mc.Pick(c, "char", alpha)
	}
	for _, large := range []bool{false, true} {
		want := 4
		if large && psdw.LargeKeys[string(k)] {
			want = 8
		}
		if got := psd.AdditionalInfoKey(k).LenSize(large); got != want {
			c.Fail("LenSize(%q, %v) = %d, want %d", k, large, got, want)
		}
		c.Validated(1)
		c.Obs(want)
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}
