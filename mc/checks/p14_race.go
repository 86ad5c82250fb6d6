//go:build race

package checks

import "runtime"

func init() { racesSeen = runtime.RaceErrors }
