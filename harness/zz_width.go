package main

// C38: the width of an int makes no difference.
//
// The checks of the other properties compare the code with models that say
// nothing about the width of an int. This one runs them, with fewer cases, in
// a program built for a 32 bit platform (see run.sh).

import (
	"math/bits"
	"strings"
)

func init() {
	p := &property{
		id:    "C38",
		level: "exploration",
		rule:  "as in the property whose check is run",
		assumptions: []string{
			"32 bit code is built with GOARCH=386 and run on this machine; other 32 bit platforms and big-endian ones are not run",
			"values too large for the memory of a 32 bit platform are left out",
			"the effort (C33), races (C14, C31) and the conformance suite (C23) are checked on 64 bits only",
		},
	}
	for _, id := range propertyIDs() {
		if strings.Contains("C14 C23 C31 C33", id) {
			continue
		}
		for _, s := range properties[id].subs {
			if id == "C29" && s.name == "short" {
				continue // the same bytes are drawn often enough
			}
			check := s.check
			n := *s
			n.name = id + "-" + s.name
			n.quick, n.thorough = narrowCount(s.quick, 10, 20000), narrowCount(s.thorough, 6, 400000)
			n.check = func(c any, x *Ctx) error {
				if bits.UintSize != 32 {
					fault("C38 is to be run in a program for 32 bits")
				}
				return check(c, x)
			}
			p.subs = append(p.subs, &n)
		}
	}
	register(p)
}

func narrowCount(n, div, limit int) int {
	if n == 0 {
		return 0
	}
	return min(max(n/div, 150), limit)
}
