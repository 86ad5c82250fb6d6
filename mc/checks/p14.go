package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sched"
)

// resetPackage puts the variables of the package back to their initial values:
// every execution starts cold. It is nil in a build without instrumentation.
var resetPackage func()

// racesSeen counts the reports of the race detector.
var racesSeen = func() int { return 0 }

// world is what the goroutines of an execution share.
type world struct {
	enc, zenc, senc, penc *sereal.Encoder
}

// outcome is what an operation returned.
type outcome struct {
	docs []([]byte)
	vals []interface{}
	errs []error
}

func (o *outcome) doc(b []byte, err error) { o.docs, o.errs = append(o.docs, b), append(o.errs, err) }
func (o *outcome) val(v interface{}, err error) {
	o.vals, o.errs = append(o.vals, v), append(o.errs, err)
}

// show describes it, documents by what they say.
func (o *outcome) show() string {
	var b bytes.Buffer
	for _, d := range o.docs {
		p, err := ref.Parse(d)
		if err != nil {
			fmt.Fprintf(&b, "document %s (%v)\n", hexdump(d), err)
			continue
		}
		v, err := decodeAny(&sereal.Decoder{}, d)
		fmt.Fprintf(&b, "document version %d type %d: %s %v\n", p.Version, p.Type, ref.Show(v), err)
	}
	for _, v := range o.vals {
		fmt.Fprintf(&b, "value %s\n", ref.Show(v))
	}
	for _, e := range o.errs {
		fmt.Fprintf(&b, "error %v\n", e)
	}
	return b.String()
}

// same tells whether outcomes are the same to the byte; if not they may still
// mean the same.
func (o *outcome) same(p *outcome) bool {
	return reflect.DeepEqual(o, p)
}

type p14op struct {
	name string
	hot  bool // works with state that goroutines share
	do   func(w *world, o *outcome)
}

type p14A struct {
	Name string `sereal:"n"`
	N    int
	skip bool
}
type p14B struct {
	P    *p14A
	Tail []string
}
type p14C struct {
	Next *p14C
	M    map[p14Key]int
	A    *p14A
}
type p14Key string
type p14Keep struct{ b []byte }

// p14ring is a cycle, with a pointer that occurs twice.
func p14ring() *p14C {
	a := &p14A{Name: "a"}
	r := &p14C{M: map[p14Key]int{"k": 12}, A: a}
	r.Next = &p14C{Next: r, M: map[p14Key]int{"k": -1}, A: a}
	return r
}

func (k p14Keep) MarshalBinary() ([]byte, error) { return []byte(string(k.b) + "!"), nil }
func (k *p14Keep) UnmarshalBinary(b []byte) error {
	k.b = append([]byte("="), b...)
	return nil
}

// the documents that are decoded are shared, too
var p14docs = sync.OnceValue(func() map[string][]byte {
	m := map[string][]byte{}
	put := func(name string, k config, h, v interface{}) {
		d, err := k.marshal(nil, h, v)
		if err != nil {
			panic(err)
		}
		m[name] = d
	}
	long := bytes.Repeat([]byte("abcabcabd"), 20)
	put("struct", config{version: 3}, nil, p14B{&p14A{"x", 3, false}, []string{"Name", "Name"}})
	put("any", config{version: 3}, nil, []interface{}{"one", "one", map[string]interface{}{"one": 1.5}, &[]interface{}{true}})
	put("zlib", config{version: 3, comp: gen.Zlib, level: -1}, nil, []interface{}{long, "z"})
	put("snappy", config{version: 2, comp: gen.SnappyIncr}, nil, []interface{}{long, "s"})
	put("snappy v1", config{version: 1, comp: gen.Snappy}, nil, []interface{}{long, "1"})
	put("header", config{version: 2}, map[string]interface{}{"h": "eader"}, "body")
	put("frozen", config{version: 3}, nil, []interface{}{p14Keep{[]byte("a")}, p14Keep{[]byte("b")}})
	put("perl", config{version: 3, perl: true}, nil, []interface{}{sereal.PerlCanonicalUndef(), &sereal.PerlUndef{}, sereal.PerlCanonicalUndef(), &sereal.PerlObject{Class: "C", Reference: map[string]interface{}{"k": 1}}})
	put("lower case", config{version: 3}, nil, map[string]interface{}{"tail": []interface{}{"a", "b"}, "p": map[string]interface{}{"n": "x", "skip": []interface{}{1, "y"}}, "more": nil})
	put("ring", config{version: 3}, nil, p14ring())
	m["perl all"] = rawDoc(3, cat([]byte{0x2b, 7}, []byte{0x28, 0xab, 0}, []byte{0x30, 0x29, 4}, []byte{0x31}, gen.Short("re"), gen.Short("i"),
		[]byte{0x32}, gen.Short("Cls"), []byte{0x28, 0x2b, 1}, gen.Short("data"), []byte{0xa7, 1, 'u'}, []byte{0x2e, 28}, []byte{0x2f, 23}))
	put("old", config{version: 1}, nil, []interface{}{"string", "string", p14A{"s", 1, true}, p14A{"string", 2, true}})
	return m
})

func p14ops() []p14op {
	docs := p14docs()
	long := bytes.Repeat([]byte("abdabcabc"), 20)
	unmarshal := func(name string, into func() interface{}) func(w *world, o *outcome) {
		return func(w *world, o *outcome) {
			v := into()
			err := sereal.Unmarshal(docs[name], v)
			o.val(v, err)
		}
	}
	encode := func(k config, h, v interface{}, times int) func(w *world, o *outcome) {
		return func(w *world, o *outcome) {
			e := k.encoder()
			for i := 0; i < times; i++ {
				o.doc(e.MarshalWithHeader(h, v))
			}
		}
	}
	any := func() interface{} { return new(interface{}) }
	ring, list := p14ring(), []interface{}{"l"} // goroutines may encode the same value
	return []p14op{
		{"Marshal struct", true, func(w *world, o *outcome) { o.doc(sereal.Marshal(p14A{"a", 1, true})) }},
		{"Marshal nested structs", true, func(w *world, o *outcome) { o.doc(sereal.Marshal(&p14B{&p14A{"a", 1, true}, []string{"t", "t"}})) }},
		{"Marshal map", true, func(w *world, o *outcome) {
			o.doc(sereal.Marshal(map[string]interface{}{"key": []interface{}{"key", 1.5, nil}}))
		}},
		{"Marshal fails", true, func(w *world, o *outcome) { o.doc(sereal.Marshal([]interface{}{p14A{}, make(chan int)})) }},
		{"Marshal hooked", false, func(w *world, o *outcome) { o.doc(sereal.Marshal([]p14Keep{{[]byte("x")}, {[]byte("y")}})) }},
		{"shared encoder, struct", true, func(w *world, o *outcome) { o.doc(w.enc.Marshal([]interface{}{p14A{"s", 1, true}, p14B{}})) }},
		{"shared encoder, header", false, func(w *world, o *outcome) { o.doc(w.enc.MarshalWithHeader(p14B{Tail: []string{"h"}}, "s")) }},
		{"shared encoder, zlib", true, func(w *world, o *outcome) { o.doc(w.zenc.Marshal(long)) }},
		{"shared encoder, snappy", false, func(w *world, o *outcome) { o.doc(w.senc.Marshal(long)) }},
		{"zlib twice", true, encode(config{version: 3, comp: gen.Zlib, level: -1}, nil, long, 2)},
		{"zlib of another level", false, encode(config{version: 3, comp: gen.Zlib, level: 1}, nil, long[1:], 1)},
		{"zlib of no such level", false, encode(config{version: 3, comp: gen.Zlib, level: 99}, nil, long[1:], 1)},
		{"snappy v1", false, encode(config{version: 1, comp: gen.SnappyIncr}, nil, long, 1)},
		{"encoder for Perl", false, encode(config{version: 3, perl: true}, nil, []interface{}{sereal.PerlCanonicalUndef(), "x", "x", map[string]interface{}{"u": &sereal.PerlUndef{}}}, 1)},
		{"Unmarshal struct", true, unmarshal("struct", func() interface{} { return new(p14B) })},
		{"Unmarshal anything", false, unmarshal("any", any)},
		{"Unmarshal zlib", false, unmarshal("zlib", any)},
		{"Unmarshal snappy", false, unmarshal("snappy", any)},
		{"Unmarshal snappy v1", false, unmarshal("snappy v1", any)},
		{"Unmarshal truncated", false, func(w *world, o *outcome) {
			var v interface{}
			o.val(nil, sereal.Unmarshal(docs["any"][:9], &v))
		}},
		{"Unmarshal frozen", false, unmarshal("frozen", func() interface{} { return new([]p14Keep) })},
		{"decoder, registered", false, func(w *world, o *outcome) {
			d := sereal.NewDecoder()
			d.RegisterName("verif/mc/checks.p14Keep", &p14Keep{})
			var v interface{}
			err := d.Unmarshal(docs["frozen"], &v)
			o.val(v, err)
		}},
		{"decoder for Perl", true, func(w *world, o *outcome) {
			d := &sereal.Decoder{PerlCompat: true}
			var v interface{}
			err := d.Unmarshal(docs["perl"], &v)
			o.val(v, err)
			if l, ok := v.([]interface{}); ok && len(l) > 2 {
				o.val([]bool{l[0] == interface{}(sereal.PerlCanonicalUndef()), l[1] == l[0], l[2] == l[0]}, nil)
			}
		}},
		{"decoder, header", false, func(w *world, o *outcome) {
			d := sereal.NewDecoder()
			var h, b interface{}
			err := d.UnmarshalHeaderBody(docs["header"], &h, &b)
			o.val([]interface{}{h, b}, err)
		}},
		{"DecompressDocument", false, func(w *world, o *outcome) {
			o.doc(sereal.DecompressDocument(nil, docs["zlib"]))
			o.doc(sereal.DecompressDocument(make([]byte, 0, 500), docs["snappy"]))
		}},
		{"LooksLikeSereal", false, func(w *world, o *outcome) {
			o.val([]bool{sereal.LooksLikeSereal(docs["any"]), sereal.LooksLikeSereal(docs["any"][1:]), sereal.LooksLikeSereal(docs["snappy v1"])}, nil)
		}},
		{"merger", false, func(w *world, o *outcome) {
			m := sereal.NewMergerV3()
			m.TopLevelElement = sereal.TopLevelArrayRef
			n, err := m.Append(docs["struct"])
			o.val(n, err)
			n, err = m.Append(docs["zlib"])
			o.val(n, err)
			o.doc(m.Finish())
		}},
		{"Marshal ring", false, func(w *world, o *outcome) { o.doc(sereal.Marshal(ring)) }},
		{"shared encoder for Perl", false, func(w *world, o *outcome) {
			o.doc(w.penc.Marshal([]interface{}{json.Number("1.5"), &sereal.PerlRegexp{Pattern: []byte("p"), Modifiers: []byte("i")}, &sereal.PerlFreeze{Class: "C", Data: []byte("d")}, &sereal.PerlWeakRef{Reference: &list}, &list, ring}))
		}},
		{"Unmarshal lower case", false, unmarshal("lower case", func() interface{} { return new(p14B) })},
		{"Unmarshal ring", false, unmarshal("ring", func() interface{} { return new(*p14C) })},
		{"Unmarshal ring, untyped", false, unmarshal("ring", any)},
		{"decoder for Perl, everything", false, func(w *world, o *outcome) {
			d := &sereal.Decoder{PerlCompat: true}
			var v interface{}
			err := d.Unmarshal(docs["perl all"], &v)
			o.val(v, err)
		}},
		{"merger, flat, strings", false, func(w *world, o *outcome) {
			m := sereal.NewMergerV2()
			m.TopLevelElement = sereal.TopLevelArray
			m.KeepFlat, m.DedupeStrings = true, true
			m.Compression = sereal.SnappyCompressor{Incremental: true}
			m.CompressionThreshold = 1
			for _, name := range []string{"old", "struct", "old"} {
				n, err := m.Append(docs[name])
				o.val(n, err)
			}
			o.doc(m.Finish())
		}},
		{"merger, zlib", true, func(w *world, o *outcome) {
			m := sereal.NewMergerV3()
			m.Compression = sereal.ZlibCompressor{Level: -1}
			m.CompressionThreshold = 1
			n, err := m.Append(docs["snappy"])
			o.val(n, err)
			o.doc(m.Finish())
		}},
	}
}

// p14run runs the operations as goroutines under a plan.
func p14run(ops []p14op, which, ord []int, plan []sched.Preempt) (outs []*outcome, steps, switches int, dead bool) {
	if resetPackage != nil {
		resetPackage()
	}
	w := &world{
		enc:  sereal.NewEncoderV3(),
		zenc: sereal.NewEncoderV3(),
		senc: sereal.NewEncoderV2(),
		penc: sereal.NewEncoderV3(),
	}
	w.penc.PerlCompat = true
	w.zenc.Compression = sereal.ZlibCompressor{Level: -1}
	w.zenc.CompressionThreshold = 1
	w.senc.Compression = sereal.SnappyCompressor{Incremental: true}
	w.senc.CompressionThreshold = 1
	var fs []func()
	for _, i := range which {
		o := &outcome{}
		outs = append(outs, o)
		do := ops[i].do
		fs = append(fs, func() {
			if err := safeSched(func() { do(w, o) }); err != nil {
				o.val("crashed", err)
			}
		})
	}
	order.Explore(nil, func() { steps, switches, dead = sched.Run(fs, ord, plan) })
	return
}

// safeSched is safe for what runs under the scheduler.
func safeSched(f func()) (err error) {
	var gone interface{}
	err = safe(func() error {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(sched.Deadlock); ok {
					gone = r
					return
				}
				panic(r)
			}
		}()
		f()
		return nil
	})
	if gone != nil {
		panic(gone)
	}
	return err
}

var p14alone = map[string]*outcome{}

// p14want is what the operation returns when it runs alone.
func p14want(ops []p14op, i int) *outcome {
	o, ok := p14alone[ops[i].name]
	if !ok {
		outs, _, _, _ := p14run(ops, []int{i}, []int{0}, nil)
		o = outs[0]
		p14alone[ops[i].name] = o
	}
	return o
}

// place is where a goroutine can be preempted, and by whom.
type place struct {
	step int
	by   []int
}

var p14places = map[string][]place{}

// placesOf are the places for a further preemption after those of a plan.
func placesOf(ops []p14op, which, ord []int, plan []sched.Preempt) []place {
	key := fmt.Sprint(which, ord, plan)
	ps, ok := p14places[key]
	if ok {
		return ps
	}
	p14run(ops, which, ord, plan)
	tr := sched.Trace()
	after := 0
	if len(plan) > 0 {
		after = plan[len(plan)-1].Step
	}
	lastOf := make([]int, len(which)) // a goroutine that goes no further cannot go on
	for i, g := range tr {
		lastOf[g] = i + 1
	}
	for i := after; i < len(tr); i++ {
		p := place{step: i + 1}
		for g := range which {
			if g != int(tr[i]) && lastOf[g] > i+1 {
				p.by = append(p.by, g)
			}
		}
		if len(p.by) > 0 {
			ps = append(ps, p)
		}
	}
	if len(p14places) > 1<<16 {
		p14places = map[string][]place{}
	}
	p14places[key] = ps
	return ps
}

// schedules is the space of all schedules of so many operations at once, out of
// those that pick accepts, with at most so many preemptions.
func schedules(name, what string, goroutines, preemptions, stride int, pick func(o p14op) bool, build string) Space {
	return Space{Name: name, What: what, Build: build, Prog: func(c *Ctx, t *T) {
		runtime.GOMAXPROCS(1)
		ops := p14ops()
		var from []int
		for i, o := range ops {
			if pick(o) {
				from = append(from, i)
			}
		}
		var which, ord []int
		for i := 0; i < goroutines; i++ {
			which = append(which, from[c.Choose(len(from))])
			ord = append(ord, i) // which is any sequence, so that this is any order
		}
		var plan []sched.Preempt
		for len(plan) < preemptions {
			ps := placesOf(ops, which, ord, plan)
			k := c.Choose((len(ps)+stride-1)/stride + 1)
			if k == 0 {
				break
			}
			p := ps[(k-1)*stride]
			plan = append(plan, sched.Preempt{Step: p.step, To: p.by[c.Choose(len(p.by))]})
		}
		c.Ready()
		want := make([]*outcome, goroutines)
		for i, o := range which {
			want[i] = p14want(ops, o)
		}
		before := racesSeen()
		outs, steps, switches, dead := p14run(ops, which, ord, plan)
		names := ""
		for _, o := range which {
			names += " | " + ops[o].name
		}
		what := fmt.Sprintf("%s\nrunning goroutines %v first in this order, going on with others before the steps %v (%d steps, %d switches)", names[3:], ord, plan, steps, switches)
		t.Sample(func() string { return what })
		if dead {
			t.Failf("deadlock: %s", what)
			return
		}
		for i := range which {
			if outs[i].same(want[i]) {
				continue
			}
			if got, want := outs[i].show(), want[i].show(); got != want {
				t.Failf("goroutine %d returned\n%swhen alone it returns\n%sin the execution of %s", i, got, want, what)
			}
		}
		if n := racesSeen() - before; n > 0 {
			t.Failf("data race: %d reports of the race detector, in the execution of %s\n%s", n, what, raceReport())
		}
		switch {
		case len(plan) == 0:
			t.Count("no preemption")
		case switches < len(plan)+goroutines-1:
			t.Count("preemption by what waits for a lock")
		default:
			t.Count(fmt.Sprintf("preemptions: %d", len(plan)))
		}
	}}
}

// raceReport is the last that the race detector wrote, if it wrote to a file.
func raceReport() string {
	path := os.Getenv("MC_RACE_LOG")
	if path == "" {
		return ""
	}
	raw, _ := os.ReadFile(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if i := bytes.LastIndex(raw, []byte("WARNING: DATA RACE")); i >= 0 {
		raw = raw[i:]
	}
	if len(raw) > 3000 {
		raw = raw[:3000]
	}
	return string(raw)
}

func init() {
	register(&run.Check{
		ID: "P14",
		Spaces: func(thorough bool) []Space {
			all := func(p14op) bool { return true }
			hot := func(o p14op) bool { return o.hot }
			few := func(names ...string) func(o p14op) bool {
				return func(o p14op) bool {
					for _, n := range names {
						if n == o.name {
							return true
						}
					}
					return false
				}
			}
			few1 := few("Marshal struct", "shared encoder, zlib", "Unmarshal struct")
			few2 := few("Marshal struct", "Marshal map", "shared encoder, zlib", "zlib twice", "decoder for Perl")
			few3 := few("Marshal struct", "shared encoder, zlib", "zlib twice", "shared encoder, struct")
			sp := []Space{
				schedules("one preemption", "all pairs of operations, in both orders, the first preempted before each of its statements", 2, 1, 1, all, ""),
				schedules("one preemption, races", "pairs of operations that use shared state, in both orders, the first preempted before each of its statements, with the race detector", 2, 1, 1, hot, "race"),
				schedules("all operations, races", "all pairs of operations, in both orders, the first preempted before every tenth of its statements, with the race detector", 2, 1, 10, all, "race"),
				schedules("two preemptions", "pairs of operations that use shared state, preempted twice, before any two statements", 2, 2, 1, few1, ""),
				schedules("three goroutines", "three operations that use shared state, with one preemption", 3, 1, 1, few2, ""),
				schedules("three goroutines, races", "three operations that use shared state, with one preemption, before every tenth statement, with the race detector", 3, 1, 10, few3, "race"),
			}
			if thorough {
				sp = append(sp,
					schedules("all preemptions of all, races", "all pairs of operations, in both orders, the first preempted before each of its statements, with the race detector", 2, 1, 1, all, "race"),
					schedules("two preemptions of all", "all pairs of operations that use shared state, preempted twice", 2, 2, 1, hot, ""),
					schedules("two preemptions, races", "pairs of operations that use shared state, preempted twice, before any two statements of every fifth, with the race detector", 2, 2, 5, few3, "race"),
					schedules("three of all", "three operations that use shared state, with one preemption", 3, 1, 1, hot, ""),
					schedules("three goroutines preempted twice", "three operations that use shared state, with two preemptions, before any two statements of every fifth", 3, 2, 5, few3, ""),
					schedules("three preemptions", "pairs of small operations that use shared state, preempted three times", 2, 3, 2, few("Marshal struct", "shared encoder, zlib"), ""),
				)
			}
			return sp
		},
		Assumptions: []string{
			"Goroutines switch before statements of the package. What happens between statements, within one, is covered by the race detector, which sees in every execution whether conflicting accesses are put in order by the package itself.",
			"Operations on zero-valued Encoders shared between goroutines are not claimed.",
		},
	})
}
