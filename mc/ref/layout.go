package ref

// Role is what a string is there for.
type Role int

const (
	ValueRole Role = iota
	KeyRole
	ClassRole
	RegexpRole
)

func (r Role) String() string {
	return [...]string{"value", "key", "class name", "part of a regexp"}[r]
}

// Spelled is a string that a body spells out.
type Spelled struct {
	Off     int
	Raw     string // with its tag, less the F bit
	Text    string
	Tracked bool
	Role    Role
}

// CopyAt is a COPY tag in a body.
type CopyAt struct {
	Off      int
	Role     Role
	OfString bool // its offset leads to a string
}

// Layout tells how a body writes its strings.
type Layout struct {
	Strings []Spelled
	Copies  []CopyAt
}

// add notes the string or COPY tag at i, which has been read.
func (l *Layout) add(p *parser, at int, role Role) {
	tag := p.b[at] & 0x7f
	if tag == 0x2f {
		q := &parser{b: p.b, i: at + 1, base: p.base}
		i := q.offset(at) + p.base
		for p.b[i]&0x7f == 0x3f {
			i++
		}
		l.Copies = append(l.Copies, CopyAt{at - p.base, role, isStr(p.b[i] & 0x7f)})
		return
	}
	q := &parser{b: p.b, i: at, base: p.base}
	k := q.str(role)
	l.Strings = append(l.Strings, Spelled{at - p.base, string(rune(tag)) + string(p.b[at+1:q.i]), k.S, p.b[at]&0x80 != 0, role})
}

// LayoutOf reads a body as ParseBody does.
func LayoutOf(b []byte, base int) (l *Layout, err error) {
	p := &parser{b: b, base: base, at: map[int]*Node{}, again: map[int]bool{}, padF: map[int]bool{}, open: map[int]int{}, lay: &Layout{}}
	defer catch(&err)
	p.item()
	return p.lay, nil
}

// Layout is that of the document's body.
func (d *Doc) Layout() (*Layout, error) {
	base := -1
	if d.Version == 1 {
		base = -d.BodyAt
	}
	return LayoutOf(d.Raw, base)
}
