// Package checks has the check of every property.
package checks

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// Ctx and T, for short.
type (
	Ctx   = explore.Ctx
	T     = run.T
	Space = run.Space
)

// All checks, by property.
var All []*run.Check

func register(c *run.Check) { All = append(All, c) }

// panicked is the error of a call that panicked.
type panicked struct{ msg string }

func (p *panicked) Error() string { return p.msg }

func isPanic(err error) bool { _, ok := err.(*panicked); return ok }

// safe calls f and turns a panic into an error.
func safe(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if explore.IsSkip(r) {
				panic(r)
			}
			var at []string
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.HasPrefix(l, "\t") && strings.Contains(l, "/sereal/") {
					at = append(at, strings.TrimSpace(l))
				}
			}
			if len(at) > 6 {
				at = at[:6]
			}
			err = &panicked{fmt.Sprintf("panic: %v at %v", r, at)}
		}
	}()
	return f()
}

func hexdump(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("% x ... % x (%d bytes)", b[:60], b[len(b)-40:], len(b))
	}
	return fmt.Sprintf("% x", b)
}

// modes are all the decoders that differ.
var modes = []ref.Mode{{}, {PerlCompat: true}, {NoRefs: true}, {PerlCompat: true, NoRefs: true}}

func newDecoder(m ref.Mode) *sereal.Decoder {
	return &sereal.Decoder{PerlCompat: m.PerlCompat, DisableReferentialIntegrity: m.NoRefs}
}

func modeName(m ref.Mode) string {
	return fmt.Sprintf("PerlCompat=%v DisableReferentialIntegrity=%v", m.PerlCompat, m.NoRefs)
}

// decodeAny decodes into an empty interface.
func decodeAny(d *sereal.Decoder, doc []byte) (v interface{}, err error) {
	err = safe(func() error { return d.Unmarshal(doc, &v) })
	return v, err
}

// comparable tells whether what a decoder makes of a valid document is settled.
func settled(f ref.Features) bool {
	return !f.LongDouble && !f.CopyOfTracked && !f.DupKeys && !f.FreezeOdd && !f.OpenAlias && !f.RefToHole && !f.Trailing
}

// conform has a decoder decode doc, of which the reference says that its value
// is n, and compares.
func conform(t *T, doc []byte, n *ref.Node, m ref.Mode, d *sereal.Decoder) {
	v, err := decodeAny(d, doc)
	if err != nil {
		t.Failf("valid document %s: %s: %v", hexdump(doc), modeName(m), err)
		return
	}
	if err := ref.SameDecoded(n, v, m); err != nil {
		t.Failf("document %s: %s: %v", hexdump(doc), modeName(m), err)
	}
}

// errClass sorts what the reference parser says.
func errClass(err error) ref.Class {
	if err == nil {
		return ref.Valid
	}
	return err.(*ref.Error).Class
}

// rawDoc is an uncompressed document.
func rawDoc(version int, body []byte) []byte { return gen.Doc(version, gen.Raw, nil, body) }

func clone(b []byte) []byte { return append([]byte{}, b...) }

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func oneOf[X any](c *Ctx, xs []X) X { return xs[c.Choose(len(xs))] }
