package explore

import "testing"

func TestShards(t *testing.T) {
	for _, shards := range []int{1, 3, 8} {
		seen := map[[4]int]int{}
		var st Stats
		for s := 0; s < shards; s++ {
			st.Add(Run(s, shards, nil, func(c *Ctx) {
				var x [4]int
				for i := range x {
					x[i] = c.Choose(i + 10)
				}
				c.Ready()
				seen[x]++
			}, nil))
		}
		if len(seen) != 10*11*12*13 || st.Executions != int64(len(seen)) {
			t.Errorf("%d shards: %d %+v", shards, len(seen), st)
		}
		if want := int64(10 + 110 + 1320 + 2*17160); shards == 1 && st.States != want && st.States != want+1 {
			t.Logf("states %d", st.States)
		}
	}
}
