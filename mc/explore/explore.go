// Package explore is a stateless model checker's core: it enumerates, depth
// first and completely, every sequence of choices a program can make.
//
// A program is a function of a *Ctx that calls Choose; the same choices always
// lead to the same further choices (a program for which that is not so is
// reported as broken, it is not sampled). Every leaf of the tree is one
// execution of the program.
package explore

import (
	"fmt"
	"hash/fnv"
)

// Stats counts what an exploration covered.
type Stats struct {
	States      int64 // decision points of the choice tree, plus its leaves
	Transitions int64 // edges of the choice tree
	Executions  int64 // leaves
}

// Add adds up statistics of disjoint explorations.
func (s *Stats) Add(o Stats) {
	s.States += o.States
	s.Transitions += o.Transitions
	s.Executions += o.Executions
}

// Ctx is handed to the program under exploration.
type Ctx struct {
	trail  []int // choices made so far
	widths []int // number of alternatives at each of them
	plan   []int // choices to make first
	shard  int
	shards int
	fan    int // number of prefixes like this one
	odd    int // choices that are not the first one: most executions make a few
	mine   bool
	dec    bool              // shard decided
	note   func(trail []int) // called when the shard is known to be ours
}

type skip struct{}

// shardFan is the number of prefixes that are enough to share them out.
const shardFan = 5000

// Choose returns a number in [0,n): all of them, in turn.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic("explore: nothing to choose from")
	}
	i := len(c.trail)
	v := 0
	if i < len(c.plan) {
		v = c.plan[i]
		if v >= n {
			panic(fmt.Sprintf("explore: nondeterministic program: choice %d of %d at %v", v, n, c.trail))
		}
	}
	c.trail = append(c.trail, v)
	c.widths = append(c.widths, n)
	if v > 0 {
		c.odd++
	}
	if c.fan < shardFan {
		c.fan *= n
	}
	if c.fan >= shardFan && c.odd >= 2 {
		c.decide()
	}
	return v
}

// Soft is Choose for choices that the code under test asks for. If it does not
// ask for the same ones again, having filled some cache, the last one is taken.
func (c *Ctx) Soft(n int) int {
	if i := len(c.trail); i < len(c.plan) && c.plan[i] >= n {
		c.plan = append(append(append([]int{}, c.plan[:i]...), n-1), c.plan[i+1:]...)
	}
	return c.Choose(n)
}

// Bool chooses between false and true.
func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Trail returns the choices made so far.
func (c *Ctx) Trail() []int { return append([]int{}, c.trail...) }

func (c *Ctx) decide() {
	if c.dec {
		return
	}
	c.dec = true
	c.mine = true
	if c.shards > 1 {
		h := fnv.New32a()
		for _, t := range c.trail {
			h.Write([]byte{byte(t), byte(t >> 8), byte(t >> 16)})
		}
		c.mine = int(h.Sum32()%uint32(c.shards)) == c.shard
	}
	if !c.mine {
		panic(skip{})
	}
}

// Ready tells that generation is over: from here on the work is done. It has
// to be called before anything expensive, so that only one shard does it.
func (c *Ctx) Ready() {
	c.decide()
	if c.note != nil {
		c.note(c.trail)
	}
}

// Run explores prog completely, as far as it belongs to the given shard. note
// is told the choices of an execution before it does its work. Exploration ends
// early when stop returns true.
func Run(shard, shards int, note func([]int), prog func(*Ctx), stop func() bool) Stats {
	var st Stats
	var plan []int
	fresh := 0 // index of the first choice not made in the previous execution
	for {
		c := &Ctx{plan: plan, shard: shard, shards: shards, fan: 1, note: note}
		ok := c.exec(prog)
		if ok {
			st.Executions++
			st.States += int64(len(c.trail)-fresh) + 1
			st.Transitions += int64(len(c.trail) - fresh)
		}
		if stop != nil && stop() {
			return st
		}
		// next plan
		i := len(c.trail) - 1
		for i >= 0 && c.trail[i]+1 >= c.widths[i] {
			i--
		}
		if i < 0 {
			return st
		}
		plan = append(append([]int{}, c.trail[:i]...), c.trail[i]+1)
		fresh = i
	}
}

func (c *Ctx) exec(prog func(*Ctx)) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isSkip := r.(skip); isSkip {
				ok = false
				return
			}
			panic(r)
		}
	}()
	prog(c)
	if !c.dec {
		c.decide()
	}
	return true
}

// Replay runs prog once along the given choices.
func Replay(trail []int, prog func(*Ctx)) {
	c := &Ctx{plan: trail, shards: 1, fan: 1}
	c.exec(prog)
}

// IsSkip tells whether a recovered panic is one of the explorer's own, which
// has to be passed on.
func IsSkip(r interface{}) bool {
	_, ok := r.(skip)
	return ok
}
