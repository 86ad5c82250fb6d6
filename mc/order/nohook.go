//go:build !verif_order

package order

// Hooked tells whether the runtime can be told.
const Hooked = false

func set(func(used uint64) uint64) {}
