// perlconf compares the reference parser with the Perl modules of the
// repository (built by its build): both are given the same documents, all those
// of some grammars. What one accepts and the other does not, and documents that
// mean something else after Perl has decoded and encoded them, is printed.
//
// It is no check: it examines the oracle of the checks, not the Go package.
package main

import (
	_ "embed"
	"encoding/binary"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/ref"
)

//go:embed perlconf.pl
var script string

type perl struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out io.ReadCloser
}

func start() *perl {
	cmd := exec.Command("perl", "-I/repo/Perl/Encoder/blib/lib", "-I/repo/Perl/Encoder/blib/arch", "-I/repo/Perl/Decoder/blib/lib", "-I/repo/Perl/Decoder/blib/arch", "-e", script)
	cmd.Stderr = os.Stderr
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &perl{cmd, in, out}
}

func (p *perl) ask(doc []byte) (byte, []byte, error) {
	if _, err := p.in.Write(append(binary.BigEndian.AppendUint32(nil, uint32(len(doc))), doc...)); err != nil {
		return 0, nil, err
	}
	var h [5]byte
	if _, err := io.ReadFull(p.out, h[:]); err != nil {
		return 0, nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(h[:4]))
	_, err := io.ReadFull(p.out, b)
	return h[4], b, err
}

func show(k byte, body, ans []byte) string {
	if k == 'D' {
		return fmt.Sprintf("%x -> %x", body, ans[5:])
	}
	return fmt.Sprintf("%x", body)
}

func main() {
	max := flag.Int("n", 0, "stop after so many documents of a grammar")
	deep := flag.Int("deep", 0, "additional items")
	only := flag.String("only", "", "grammar")
	flag.Parse()
	few := [][]byte{{0x25}, {7}, gen.Short("b")}
	type named struct {
		name string
		g    gen.Grammar
	}
	all := []named{
		{"leaves", gen.Grammar{Tokens: 3, MaxKids: 2, Leaves: gen.AllLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Weak: true, Object: true, Regexp: true, Pad: true, Refp: true, Alias: true, Copy: true}},
		{"pads", gen.Grammar{Tokens: 3, MaxKids: 2, Leaves: [][]byte{{7}, gen.Short("b")}, Array: true, Hash: true, Refn: true, Object: true, Refp: true, Copy: true, Regexp: true, Pad: true, PadF: true}},
		{"containers", gen.Grammar{Tokens: 5, MaxKids: 4, Leaves: few, Array: true, Hash: true, Inline: true, Refn: true}},
		{"references", gen.Grammar{Tokens: 5, MaxKids: 3, Leaves: [][]byte{{0x25}, gen.Short("b")}, Array: true, Refn: true, Refp: true, Inline: true}},
		{"hash references", gen.Grammar{Tokens: 4, MaxKids: 3, Leaves: [][]byte{{7}}, Array: true, Hash: true, Refn: true, Refp: true, Inline: true}},
		{"aliases", gen.Grammar{Tokens: 5, MaxKids: 3, Leaves: few, Array: true, Inline: true, Alias: true, Refn: true, Refp: true}},
		{"copies", gen.Grammar{Tokens: 4, MaxKids: 3, Leaves: [][]byte{{7}, gen.Short("b"), gen.UTF8("u")}, Array: true, Hash: true, Inline: true, Copy: true, Refn: true, Object: true}},
		{"objects", gen.Grammar{Tokens: 4, MaxKids: 2, Leaves: [][]byte{{7}, gen.Short("b")}, Array: true, Hash: true, Refn: true, Refp: true, Copy: true, Object: true, Inline: true}},
		{"everything", gen.Grammar{Tokens: 4, MaxKids: 2, Leaves: gen.SomeLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Weak: true, Regexp: true, Pad: true}},
	}
	p := start()
	for _, x := range all {
		if *only != "" && *only != x.name {
			continue
		}
		x.g.Base = 1
		x.g.Perlish = true
		x.g.Tokens += *deep
		counts := map[string]int{}
		example := map[string]string{}
		n := 0
		explore.Run(0, 1, nil, func(c *explore.Ctx) {
			body := x.g.Body(c)
			c.Ready()
			doc := append([]byte{0x3d, 0xf3, 0x72, 0x6c, 3, 0}, body...)
			d, err := ref.Parse(doc)
			if err == nil && !ref.PerlShaped(d.Body) {
				return
			}
			n++
			k, ans, perr := p.ask(doc)
			if perr != nil {
				counts["CRASH"]++
				example["CRASH"] = fmt.Sprintf("%x", doc)
				p.cmd.Wait()
				p = start()
				return
			}
			what := "accepted"
			if k == 'E' {
				what = "refused (" + strings.TrimSpace(strings.SplitN(string(ans), " at offset", 2)[0]) + ")"
			}
			var mine string
			switch {
			case err != nil:
				mine = err.Error()
				mine = strings.TrimRight(strings.Split(mine, " at ")[0], "-0123456789")
			default:
				mine = "valid"
				f := d.Feats
				if f.CopyOfTracked {
					mine += ", COPY of tracked"
				}
				if f.DupKeys {
					mine += ", duplicate keys"
				}
				if f.OpenAlias {
					mine += ", open alias"
				}
				if f.RefToHole {
					mine += ", ref to hole"
				}
			}
			if mine == "valid" && k == 'D' {
				d2, err := ref.Parse(ans)
				if err != nil {
					what = "encoded again as something invalid: " + err.Error()
				} else if err := ref.SamePerl(d.Body, d2.Body); err != nil {
					what = "became something else"
				} else {
					what = "the same after Perl"
				}
			}
			key := mine + " / " + what
			counts[key]++
			if example[key] == "" || len(example[key]) > len(show(k, body, ans)) {
				example[key] = show(k, body, ans)
			}
		}, func() bool { return *max > 0 && n >= *max })
		fmt.Printf("%s: %d documents\n", x.name, n)
		var keys []string
		for k := range counts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("  %8d %s   e.g. %s\n", counts[k], k, example[k])
		}
	}
}
