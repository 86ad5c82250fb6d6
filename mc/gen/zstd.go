//go:build clibs

package gen

import (
	"bytes"

	"github.com/DataDog/zstd"
)

func init() {
	zstdFrame = func(body []byte, level int) []byte {
		b, err := zstd.CompressLevel(nil, body, level)
		if err != nil {
			panic(err)
		}
		return b
	}
	// ZstdStream makes a frame that does not tell the size of its content, from
	// chunks that are flushed.
	ZstdStream = func(body []byte, level, chunk int) []byte {
		var z bytes.Buffer
		w := zstd.NewWriterLevel(&z, level)
		for len(body) > 0 {
			n := min(chunk, len(body))
			w.Write(body[:n])
			w.Flush()
			body = body[n:]
		}
		w.Close()
		return z.Bytes()
	}
}
