package order

import (
	"testing"

	"verif/mc/explore"
)

func TestOrders(t *testing.T) {
	if !Hooked {
		t.Skip()
	}
	seen := map[string]bool{}
	explore.Run(0, 1, nil, func(c *explore.Ctx) {
		m := map[string]int{"a": 1, "b": 2, "c": 3}
		s := ""
		Explore(c, func() {
			for k := range m {
				s += k
			}
			for k := range m {
				s += k
			}
		})
		seen[s] = true
	}, nil)
	if len(seen) != 9 || !seen["abcbca"] {
		t.Error(seen)
	}
}
