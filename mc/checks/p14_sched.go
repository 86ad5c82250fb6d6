//go:build verif_sched

package checks

import "github.com/Sereal/Sereal/Go/sereal"

func init() { resetPackage = sereal.VerifReset }
