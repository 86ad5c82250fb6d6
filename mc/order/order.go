// Package order decides in which order the Go runtime iterates over maps. The
// runtime starts at a random place; a build with the tag verif_order, against a
// runtime with a hook (see check.sh), starts where it is told to.
package order

import "verif/mc/explore"

// Explore calls f, in which every iteration over a map of more than one key is
// a choice: all places where it can start. (Keys of a small map are in the order
// in which they were inserted.) With a nil c all start at the first key. Without
// the hook the runtime decides.
func Explore(c *explore.Ctx, f func()) {
	if !Hooked {
		f()
		return
	}
	set(func(used uint64) uint64 {
		if used < 2 || c == nil {
			return 0
		}
		if used > 8 {
			return uint64(c.Soft(2)) * 5
		}
		return uint64(c.Soft(int(used)))
	})
	defer set(nil)
	f()
}

// Repeat makes up for a missing hook: the execution is repeated.
func Repeat(c *explore.Ctx) {
	if !Hooked {
		c.Choose(6)
	}
}
