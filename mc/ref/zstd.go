//go:build clibs

package ref

import "github.com/DataDog/zstd"

// zstdSpace is more than any document of the checks has for a body.
var zstdSpace = make([]byte, 32<<20)

func init() {
	unzstd = func(b []byte) ([]byte, bool, error) {
		out, err := zstd.Decompress(zstdSpace, b)
		return append([]byte(nil), out...), zstdFrame(b) == len(b), err
	}
}

// zstdFrame returns the length of the frame that b begins with (RFC 8878, 3.1.1).
func zstdFrame(b []byte) int {
	if len(b) < 6 || string(b[:4]) != "\x28\xb5\x2f\xfd" {
		return -1
	}
	d := b[4]
	at := 5 + []int{0, 1, 2, 4}[d&3] + []int{0, 2, 4, 8}[d>>6]
	if single := d>>5&1 == 1; !single {
		at++
	} else if d>>6 == 0 {
		at++
	}
	for last := false; !last; {
		if at+3 > len(b) {
			return -1
		}
		h := int(b[at]) | int(b[at+1])<<8 | int(b[at+2])<<16
		last = h&1 == 1
		at += 3
		if h>>1&3 == 1 {
			at++
		} else {
			at += h >> 3
		}
	}
	if d>>2&1 == 1 {
		at += 4
	}
	return at
}
