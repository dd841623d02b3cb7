package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract values. Values are immutable; everything mutable is in State.objs.

type Val interface{}

type VInt struct{ l Lin }
type VBool struct{ c *Cond }
type VFloat struct {
	bits Lin
	n    int
}
type VSlice struct {
	obj           int // 0: no backing array (nil or empty)
	off, len, cap Lin
	nil           *Cond
}
type VStr struct {
	obj      int
	off, len Lin
}
type VData struct { // a uintptr that is the address of a byte of an object
	obj int
	off Lin
}
type VPtr struct {
	obj  int // 0: nil
	path []pathElem
	nil  *Cond // non-nil for pointers that may be nil
}
type pathElem struct {
	field int  // struct field, or
	idx   *Lin // array element
}
type VStruct struct{ f []Val }
type VArr struct{ obj int } // an array stored in a variable or struct; owned
type VTuple []Val
type VIface struct {
	typ  types.Type // dynamic type, nil if unknown
	v    Val
	sym  string // unknown value
	nil  *Cond
	conc bool
}
type VFn struct {
	fn   *ssa.Function
	bind []Val
	bi   *ssa.Builtin
	sym  string
}
type VMap struct {
	obj int
	nil *Cond
}
type VIter struct{ obj int }
type VOpaque struct{ name string }

func vint(n int64) Val { return VInt{lc(n)} }
func vbool(b bool) Val { return VBool{cBool(b)} }

// ---------------------------------------------------------------------------
// Byte contents.

type ckind int

const (
	kSrc  ckind = iota // an unknown sequence of bytes
	kUV                // minimal varint of v
	kLE                // n bytes little endian of v
	kByte              // one byte v
	kZero              // zero bytes
	kLit               // literal bytes
	kItoa              // decimal text of v
	kFn                // text computed by an uninterpreted function
)

type Content struct {
	kind ckind
	name string
	v    Lin
	n    int
	lit  string
	key  string
	sub  [][]Seg
}

type Seg struct {
	c  *Content
	lo Lin // position in the content
	ln Lin
}

var contents = map[string]*Content{}

func mkContent(c Content) *Content {
	switch c.kind {
	case kSrc:
		c.key = "src:" + c.name
	case kUV:
		c.key = "uv:" + c.v.key()
	case kLE:
		c.key = fmt.Sprintf("le%d:%s", c.n, c.v.key())
	case kByte:
		c.key = "b:" + c.v.key()
	case kZero:
		c.key = "zero"
	case kLit:
		c.key = "lit:" + c.lit
	case kItoa:
		c.key = "itoa:" + c.v.key()
	case kFn:
		c.key = "fn:" + c.name
	}
	if o, ok := contents[c.key]; ok {
		return o
	}
	contents[c.key] = &c
	return &c
}

func (c *Content) String() string {
	switch c.kind {
	case kSrc:
		return c.name
	case kUV:
		return "uvarint(" + c.v.String() + ")"
	case kLE:
		return fmt.Sprintf("le%d(%s)", c.n*8, c.v)
	case kByte:
		return "byte(" + c.v.String() + ")"
	case kZero:
		return "0"
	case kLit:
		return fmt.Sprintf("%q", c.lit)
	case kItoa:
		return "itoa(" + c.v.String() + ")"
	}
	return c.name
}

func (s Seg) String() string {
	if s.c.kind != kSrc && s.c.kind != kZero && s.lo.isZero() {
		return s.c.String()
	}
	return fmt.Sprintf("%s[%s,+%s]", s.c, s.lo, s.ln)
}

func segStr(q []Seg) string {
	var p []string
	for _, s := range q {
		p = append(p, s.String())
	}
	return "<" + strings.Join(p, " ") + ">"
}

func ulenBig(v *big.Int) int64 {
	n := int64((v.BitLen() + 6) / 7)
	if n == 0 {
		n = 1
	}
	return n
}

// ulen is the length of the minimal varint of v.
func ulen(v Lin) Lin {
	lo, hi := v.interval()
	l, h := int64(1), int64(10)
	if lo != nil && lo.Sign() >= 0 {
		l = ulenBig(lo)
	}
	if hi != nil && hi.Sign() >= 0 {
		h = ulenBig(hi)
	}
	if h > 10 {
		h = 10
	}
	if l >= h {
		return lc(h)
	}
	a := boundedAtom("ulen("+v.key()+")", bi(l), bi(h))
	a.fn, a.args = "ulen", []Lin{v}
	return la(a)
}

func litSeg(s string) []Seg {
	if s == "" {
		return nil
	}
	if len(s) == 1 {
		return []Seg{byteSeg(lc(int64(s[0])))}
	}
	return []Seg{{mkContent(Content{kind: kLit, lit: s}), lc(0), lc(int64(len(s)))}}
}
func byteSeg(v Lin) Seg {
	if v.isZero() {
		return zeroSeg(lc(1))
	}
	return Seg{mkContent(Content{kind: kByte, v: v}), lc(0), lc(1)}
}
func zeroSeg(n Lin) Seg { return Seg{mkContent(Content{kind: kZero}), lc(0), n} }
func srcSeg(name string, lo, n Lin) Seg {
	return Seg{mkContent(Content{kind: kSrc, name: name}), lo, n}
}
func uvSeg(v Lin) []Seg {
	if v.isConst() && v.c.Sign() >= 0 {
		b := make([]byte, 10)
		return litSeg(string(b[:binary.PutUvarint(b, v.c.Uint64())]))
	}
	if lo, hi := v.interval(); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(bi(128)) < 0 {
		return []Seg{byteSeg(v)}
	}
	return []Seg{{mkContent(Content{kind: kUV, v: v}), lc(0), ulen(v)}}
}
func leSeg(v Lin, n int) Seg {
	return Seg{mkContent(Content{kind: kLE, v: v, n: n}), lc(0), lc(int64(n))}
}
func seqLen(q []Seg) Lin {
	n := lc(0)
	for _, s := range q {
		n = n.add(s.ln)
	}
	return n
}

// ---------------------------------------------------------------------------
// Objects.

type okind int

const (
	oCell okind = iota
	oBytes
	oArr
	oMap
)

type kcell struct {
	key     Val
	present *Cond // maps
	val     Val
}

type Obj struct {
	id   int
	kind okind
	name string
	typ  types.Type // element type (oArr, oMap), type of the variable (oCell)
	ktyp types.Type // key type (oMap)

	val  Val  // oCell
	lazy bool // oCell: val not materialized yet

	seq []Seg // oBytes: contents of the whole backing array
	ro  bool

	cells []kcell // oArr, oMap
	sym   bool    // unknown cells are symbolic (otherwise zero / absent)
	ver   int
	len   Lin    // oArr
	def   Val    // oArr: value of cells that are not listed (overrides sym)
	card  bool   // has been written since creation (informational)
	glob  string // name of the global variable, if it is one
	site  token.Pos
	from  int  // the object that append copied to this one
	pre   bool // existed before the analysed operation began
	konst bool // set by the initialization of the package, never written after it
	dflt  func(it *Interp, key Val) Val
}

func (o *Obj) clone() *Obj {
	n := *o
	n.seq = o.seq[:len(o.seq):len(o.seq)]
	n.cells = append([]kcell(nil), o.cells...)
	return &n
}

func (it *Interp) newObj(k okind, name string) *Obj {
	it.st.nobj++
	o := &Obj{id: it.st.nobj, kind: k, name: name}
	it.st.objs[o.id] = o
	return o
}

func (it *Interp) obj(id int) *Obj {
	o := it.st.objs[id]
	if o == nil {
		panic(fmt.Sprintf("internal: no object %d", id))
	}
	return o
}

func (it *Interp) newBytes(name string, seq []Seg) *Obj {
	o := it.newObj(oBytes, name)
	o.seq = seq
	return o
}

// canonPos returns a position that is equal to pos in this state and was used
// before for a read of the same source, if there is one.
func (it *Interp) canonPos(name string, pos Lin) Lin {
	k := "pos:" + name
	l, _ := it.st.ghost[k].([]Lin)
	for _, p := range l {
		if p.eq(pos) {
			return p
		}
	}
	for i := len(l) - 1; i >= 0; i-- {
		if it.st.eqLin(l[i], pos) {
			return l[i]
		}
	}
	it.st.ghost[k] = append(l[:len(l):len(l)], pos)
	return pos
}

// seek finds the segment of o that contains position off, splitting the state
// as needed. It returns the index of the segment and the position inside it;
// at the end of the object the index is len(seq).
func (it *Interp) seek(o *Obj, off Lin) (int, Lin) {
	if i := boundary(o, off); i >= 0 {
		return i, lc(0)
	}
	start := lc(0)
	for i, s := range o.seq {
		d := off.sub(start)
		if d.isZero() || it.entails(cEq(d)) {
			return i, lc(0)
		}
		if it.decide(cLess(d, s.ln)) {
			return i, d
		}
		start = start.add(s.ln)
	}
	return len(o.seq), lc(0)
}

// boundary finds the segment that obviously begins at off.
func boundary(o *Obj, off Lin) int {
	start := lc(0)
	for i, s := range o.seq {
		if start.eq(off) {
			return i
		}
		start = start.add(s.ln)
	}
	if start.eq(off) {
		return len(o.seq)
	}
	return -1
}

// cut splits the segments of o at off and returns the index of the first
// segment that begins there.
// A position that may be the end of a segment as well as inside it does not
// split the state: the part after it may be empty.
func (it *Interp) cut(o *Obj, off Lin) int {
	if i := boundary(o, off); i >= 0 {
		return i
	}
	i, d := len(o.seq), lc(0)
	start := lc(0)
	for j, s := range o.seq {
		e := off.sub(start)
		if e.isZero() || it.entails(cEq(e)) {
			return j
		}
		if it.decide(cLeq(e, s.ln)) {
			if it.entails(cEqual(e, s.ln)) {
				return j + 1
			}
			i, d = j, e
			break
		}
		start = start.add(s.ln)
	}
	if d.isZero() {
		return i
	}
	s := o.seq[i]
	a, b := s, s
	a.ln = d
	b.lo, b.ln = s.lo.add(d), s.ln.sub(d)
	if s.c.kind == kZero {
		b.lo = lc(0)
	}
	n := make([]Seg, 0, len(o.seq)+1)
	n = append(n, o.seq[:i]...)
	n = append(n, a, b)
	n = append(n, o.seq[i+1:]...)
	o.seq = n
	return i + 1
}

// readSeq returns the contents of o[off:off+n].
func (it *Interp) readSeq(id int, off, n Lin) []Seg {
	if id == 0 || n.isZero() || it.entails(cEq(n)) {
		return nil
	}
	o := it.obj(id)
	if off.isZero() && seqLen(o.seq).eq(n) {
		return it.trimSeq(append([]Seg(nil), o.seq...))
	}
	i := it.cut(o, off)
	j := it.cut(o, off.add(n))
	if j < i {
		return nil
	}
	return it.trimSeq(append([]Seg(nil), o.seq[i:j]...))
}

// trimSeq drops empty segments and joins adjacent ones.
func (it *Interp) trimSeq(q []Seg) []Seg {
	var r []Seg
	for _, s := range q {
		if s.ln.isZero() || (!s.ln.isConst() && it.entails(cEq(s.ln))) {
			continue
		}
		if len(r) > 0 {
			p := &r[len(r)-1]
			if p.c == s.c && (p.c.kind == kZero || p.lo.add(p.ln).eq(s.lo)) && p.c.kind != kByte {
				p.ln = p.ln.add(s.ln)
				continue
			}
		}
		r = append(r, s)
	}
	return r
}

// writeSeq overwrites o[off:off+n] with q, which has length n.
func (it *Interp) writeSeq(id int, off Lin, n Lin, q []Seg, at token.Pos) {
	if n.isZero() || it.entails(cEq(n)) {
		return
	}
	o := it.obj(id)
	it.event(Event{kind: "write", obj: id, pos: off, n: n, at: at})
	if o.ro {
		it.violate("read-only", at, fmt.Sprintf("write to read-only memory (%s)", o.name))
	}
	if off.isZero() && seqLen(o.seq).eq(n) {
		o.seq = it.trimSeq(q)
		return
	}
	i := it.cut(o, off)
	j := it.cut(o, off.add(n))
	if j < i {
		j = i
	}
	r := make([]Seg, 0, len(o.seq)+len(q))
	r = append(r, o.seq[:i]...)
	r = append(r, q...)
	r = append(r, o.seq[j:]...)
	o.seq = it.trimSeq(r)
}

// byteVal returns byte number d of segment s.
func (it *Interp) byteVal(s Seg, d Lin) Lin {
	p := s.lo.add(d)
	if !p.isConst() {
		n := 0
		switch s.c.kind {
		case kLit:
			n = len(s.c.lit)
		case kLE:
			n = s.c.n
		case kUV:
			n = 10
		}
		for j := 0; j < n; j++ {
			if it.st.eqLin(p, lc(int64(j))) {
				p = lc(int64(j))
				break
			}
		}
	}
	switch s.c.kind {
	case kZero:
		return lc(0)
	case kByte:
		return s.c.v
	case kLit:
		if p.isConst() {
			return lc(int64(s.c.lit[p.c.Int64()]))
		}
	case kLE:
		if p.isConst() {
			j := int(p.c.Int64())
			return it.shr(s.c.v, 8*j).sub(it.shr(s.c.v, 8*j+8).scaleN(256))
		}
	case kUV:
		if p.isConst() {
			j := int(p.c.Int64())
			h := it.shr(s.c.v, 7*j)
			if it.decide(cLess(h, lc(128))) {
				return h
			}
			return h.sub(it.shr(s.c.v, 7*j+7).scaleN(128)).addc(128)
		}
	}
	p = it.canonPos("byte:"+s.c.key, p)
	x := la(srcByte(s.c, p))
	if s.c.kind == kSrc {
		uvs, _ := it.st.ghost["pos:uv:"+s.c.name].([]Lin)
		for _, u := range uvs {
			if d := p.sub(u); d.isConst() && d.c.Sign() >= 0 && d.c.Cmp(bi(10)) < 0 || it.st.eqLin(p, u) {
				N, V := srcUvarint(s.c, u)
				if min := it.uvBytes(s.c, u, N, V); min > 1 && !it.decide(cLeq(N, lc(0))) {
					it.assume(cGe(N.addc(-min)))
				}
			}
		}
	}
	return x
}

func srcByte(c *Content, p Lin) *Atom {
	return boundedAtom("byte("+c.key+","+p.key()+")", bi(0), bi(255))
}

// srcUvarint returns the size and the value of the varint at p of an unknown
// sequence of bytes.
func srcUvarint(c *Content, p Lin) (N, V Lin) {
	k := c.name + "@" + p.key()
	return la(boundedAtom("uvn("+k+")", bi(-11), bi(10))),
		la(boundedAtom("uvv("+k+")", bi(0), new(big.Int).Sub(pow2(64), bigOne)))
}

// uvBytes relates the varint at p to the single bytes that were read there. If
// it has a size, then it is at least the result.
func (it *Interp) uvBytes(c *Content, p, N, V Lin) int64 {
	bytes, _ := it.st.ghost["pos:byte:"+c.key].([]Lin)
	acc := lc(0)
	for j := int64(0); j < 10 && len(bytes) > 0; j++ {
		var x *Atom
		for _, q := range bytes {
			if it.st.eqLin(q, p.addc(j)) {
				x = srcByte(c, q)
				break
			}
		}
		if x == nil {
			return j + 1
		}
		if it.decide(cLess(la(x), lc(128))) {
			if j == 9 && !it.decide(cLeq(la(x), lc(1))) {
				it.assume(cEqual(N, lc(-10)))
				return 0
			}
			it.assume(cEqual(N, lc(j+1)))
			it.assume(cEqual(V, acc.add(la(x).scale(pow2(int(7*j))))))
			return 0
		}
		acc = acc.add(la(x).addc(-128).scale(pow2(int(7 * j))))
	}
	return 0
}

// byteAt returns the byte of object id at off.
func (it *Interp) byteAt(id int, off Lin, at token.Pos) Lin {
	o := it.obj(id)
	it.event(Event{kind: "read", obj: id, pos: off, n: lc(1), at: at})
	i, d := it.seek(o, off)
	if i == len(o.seq) {
		panic("internal: read past the end of an object")
	}
	// An empty segment may be in the way.
	for i < len(o.seq) && d.isZero() && !it.decide(cGe(o.seq[i].ln.addc(-1))) {
		i++
	}
	if i == len(o.seq) {
		panic(pathEnd{"infeasible"})
	}
	return it.byteVal(o.seq[i], d)
}

// uvarint models encoding/binary.Uvarint: value and number of bytes.
func (it *Interp) uvarint(b VSlice, at token.Pos) (v, n Lin) {
	if b.obj == 0 || !it.decide(cGe(b.len.addc(-1))) {
		return lc(0), lc(0)
	}
	o := it.obj(b.obj)
	i, d := it.seek(o, b.off)
	for i < len(o.seq) && d.isZero() && !it.decide(cGe(o.seq[i].ln.addc(-1))) {
		i++
	}
	if i == len(o.seq) {
		panic(pathEnd{"infeasible"})
	}
	ev := Event{kind: "uvread", obj: b.obj, pos: b.off, at: at}
	s := o.seq[i]
	switch s.c.kind {
	case kZero:
		it.event(ev)
		return lc(0), lc(1)
	case kUV:
		if s.lo.isZero() && d.isZero() && s.ln.eq(ulen(s.c.v)) {
			if !it.decide(cLeq(s.ln, b.len)) {
				return lc(0), lc(0)
			}
			ev.n = s.ln
			it.event(ev)
			return s.c.v, s.ln
		}
	case kSrc:
		pos := it.canonPos("uv:"+s.c.name, s.lo.add(d))
		k := s.c.name + "@" + pos.key()
		N, V := srcUvarint(s.c, pos)
		min := it.uvBytes(s.c, pos, N, V)
		avail := b.len
		rest := s.ln.sub(d)
		for j := i + 1; j < len(o.seq) && o.seq[j].c == s.c && o.seq[j].lo.eq(o.seq[j-1].lo.add(o.seq[j-1].ln)); j++ {
			rest = rest.add(o.seq[j].ln)
		}
		if it.decide(cGe(N.addc(-1))) {
			if min > 1 {
				it.assume(cGe(N.addc(-min)))
			}
			if !it.decide(cLeq(N, avail)) {
				it.event(ev)
				return lc(0), lc(0)
			}
			if it.decide(cLeq(N, rest)) {
				ev.n = N
				it.event(ev)
				return V, N
			}
		} else {
			it.assume(cLeq(N, lc(-10)))
			if !it.decide(cLeq(N.neg(), avail)) {
				it.event(ev)
				return lc(0), lc(0)
			}
			if it.decide(cLeq(N.neg(), rest)) {
				ev.n = N.neg()
				it.event(ev)
				return lc(0), N
			}
		}
		// It extends past this segment.
		it.event(ev)
		n := la(it.freshAtom("uvn?"+k, bi(-11), bi(10)))
		it.assume(cLeq(n, avail))
		v := la(it.freshAtom("uvv?"+k, bi(0), new(big.Int).Sub(pow2(64), bigOne)))
		if !it.decide(cGe(n.addc(-1))) {
			return lc(0), n
		}
		return v, n
	}
	// Byte by byte.
	acc := lc(0)
	for j := int64(0); j < 10; j++ {
		if !it.decide(cLess(lc(j), b.len)) {
			return lc(0), lc(0)
		}
		x := it.byteAt(b.obj, b.off.addc(j), at)
		if it.decide(cLess(x, lc(128))) {
			if j == 9 && !it.decide(cLeq(x, lc(1))) {
				return lc(0), lc(-10)
			}
			ev.n = lc(j + 1)
			it.event(ev)
			return acc.add(x.scale(pow2(int(7 * j)))), lc(j + 1)
		}
		acc = acc.add(x.addc(-128).scale(pow2(int(7 * j))))
	}
	if it.decide(cLess(lc(10), b.len)) {
		return lc(0), lc(-11)
	}
	return lc(0), lc(0)
}

// ---------------------------------------------------------------------------
// Equality of byte sequences: 1 equal, -1 different, 0 unknown.

func (it *Interp) seqEqual(a, b []Seg) int {
	return it.seqCmp(a, b, true)
}

func (it *Interp) seqCmp(a, b []Seg, split bool) int {
	a, b = it.trimSeq(a), it.trimSeq(b)
	la_, lb := seqLen(a), seqLen(b)
	if split {
		if !it.decide(cEqual(la_, lb)) {
			return -1
		}
	} else if !it.st.eqLin(la_, lb) {
		if it.entails(cNe(la_.sub(lb))) {
			return -1
		}
		return 0
	}
	for {
		if len(a) > 0 && it.entails(cEq(a[0].ln)) {
			a = a[1:]
			continue
		}
		if len(b) > 0 && it.entails(cEq(b[0].ln)) {
			b = b[1:]
			continue
		}
		if len(a) == 0 || len(b) == 0 {
			for _, r := range [][]Seg{a, b} {
				if len(r) > 0 && !it.entails(cEq(seqLen(r))) {
					return 0
				}
			}
			return 1
		}
		x, y := a[0], b[0]
		same := x.c == y.c && (x.c.kind == kZero || x.c.kind == kByte || it.st.eqLin(x.lo, y.lo))
		if !same && (x.c.kind == kUV || x.c.kind == kByte) && y.c.kind == x.c.kind && it.st.eqLin(x.c.v, y.c.v) && it.st.eqLin(x.lo, y.lo) {
			if it.st.eqLin(x.ln, y.ln) {
				a, b = a[1:], b[1:]
				continue
			}
			same = true
		}
		if !same && x.c.kind == kLE && y.c.kind == kLE && x.c.n == y.c.n && it.st.eqLin(x.c.v, y.c.v) && it.st.eqLin(x.lo, y.lo) {
			same = true
		}
		if same {
			switch {
			case it.st.eqLin(x.ln, y.ln):
				a, b = a[1:], b[1:]
			case it.entails(cLeq(x.ln, y.ln)) || (split && it.decide(cLeq(x.ln, y.ln))):
				a = a[1:]
				y.lo, y.ln = y.lo.add(x.ln), y.ln.sub(x.ln)
				b = append([]Seg{y}, b[1:]...)
			case it.entails(cLeq(y.ln, x.ln)):
				b = b[1:]
				x.lo, x.ln = x.lo.add(y.ln), x.ln.sub(y.ln)
				a = append([]Seg{x}, a[1:]...)
			default:
				return 0
			}
			continue
		}
		// A varint that is known to be a single byte.
		// Compare one byte.
		if !it.entails(cGe(x.ln.addc(-1))) || !it.entails(cGe(y.ln.addc(-1))) {
			return 0
		}
		if !(bytewise(x) && bytewise(y)) {
			return 0
		}
		bx, by := it.byteVal(x, lc(0)), it.byteVal(y, lc(0))
		if !it.st.eqLin(bx, by) {
			if it.entails(cNe(bx.sub(by))) {
				return -1
			}
			return 0
		}
		a, b = dropByte(a), dropByte(b)
	}
}

func bytewise(s Seg) bool {
	if s.c.kind == kSrc {
		return true
	}
	return s.c.kind == kZero || s.c.kind == kByte || (s.lo.isConst() && (s.c.kind == kLit || s.c.kind == kLE || s.c.kind == kUV))
}

func dropByte(q []Seg) []Seg {
	s := q[0]
	if s.ln.isConst() && s.ln.c.Cmp(bigOne) == 0 {
		return q[1:]
	}
	if s.c.kind != kZero {
		s.lo = s.lo.addc(1)
	}
	s.ln = s.ln.addc(-1)
	return append([]Seg{s}, q[1:]...)
}

// ---------------------------------------------------------------------------
// Integer types.

func intType(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func intRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bigOne)
	}
	return bi(0), new(big.Int).Sub(pow2(bits), bigOne)
}

// wrap maps the mathematical integer r into the integer type.
func (it *Interp) wrap(r Lin, t types.Type) Lin {
	bits, signed, ok := intType(t)
	if !ok {
		panic("internal: not an integer type: " + t.String())
	}
	// Drop summands that are multiples of 2^bits hidden in earlier wraps.
	r = dropWraps(r, bits)
	lo, hi := intRange(bits, signed)
	if r.isConst() {
		m := new(big.Int).Mod(new(big.Int).Sub(r.c, lo), pow2(bits))
		return lbig(m.Add(m, lo))
	}
	if it.entails(cGe(r.sub(lbig(lo)))) && it.entails(cGe(lbig(hi).sub(r))) {
		return r
	}
	// Same value mod 2^bits as a wrap of a single other range.
	w, exists := atoms.get(fmt.Sprintf("wrap%d%v(%s)", bits, signed, r.key()))
	if !exists {
		w.lo, w.hi = lo, hi
		rr := r
		w.wrapOf, w.wrapB = &rr, bits
	}
	rl, rh := r.interval()
	var kl, kh *big.Int
	if rl != nil && rh != nil {
		// r = w + 2^bits k
		kl = new(big.Int).Div(new(big.Int).Sub(rl, hi), pow2(bits)) // floor
		kh = new(big.Int).Div(new(big.Int).Sub(rh, lo), pow2(bits))
		// smallest k with w <= hi: k >= (r-hi)/2^bits, ceil
		if new(big.Int).Add(new(big.Int).Mul(kl, pow2(bits)), hi).Cmp(rl) < 0 {
			kl.Add(kl, bigOne)
		}
	}
	k := boundedAtom("wq"+w.key, kl, kh)
	if !exists {
		w.ax = []Con{eqc(r, la(w).add(la(k).scale(pow2(bits))))}
	}
	return la(w)
}

// dropWraps replaces wrap atoms modulo at least 2^bits by what they wrap.
func dropWraps(r Lin, bits int) Lin {
	for i := 0; i < 20; i++ {
		var hit *Atom
		for _, x := range r.t {
			if x.a.wrapOf != nil && x.a.wrapB >= bits {
				hit = x.a
				break
			}
		}
		if hit == nil {
			return r
		}
		r = r.subst(hit, *hit.wrapOf)
	}
	return r
}

// shr is floor(x / 2^c) for x >= 0 (or any x, for arithmetic shifts).
func (it *Interp) shr(x Lin, c int) Lin {
	if c == 0 {
		return x
	}
	lo, hi := x.interval()
	if x.isConst() {
		return lbig(new(big.Int).Rsh(x.c, uint(c)))
	}
	if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(pow2(c)) < 0 {
		return lc(0)
	}
	// x = 2^c * q + rest with 0 <= rest < 2^c
	q, rest := splitPow(x, c)
	if rest.isZero() {
		return q
	}
	if !q.isZero() {
		if it.entails(cGe(rest)) && it.entails(cLess(rest, lbig(pow2(c)))) {
			return q
		}
		x = rest
		if x.isConst() {
			return q.add(lbig(new(big.Int).Rsh(x.c, uint(c))))
		}
		lo, hi = x.interval()
	} else {
		q = lc(0)
	}
	if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(pow2(c)) < 0 {
		return q
	}
	// shr of shr
	if len(x.t) == 1 && x.c.Sign() == 0 && x.t[0].k.Cmp(bigOne) == 0 && x.t[0].a.fn == "shr" {
		a := x.t[0].a
		return q.add(it.shr(a.args[0], c+int(a.args[1].c.Int64())))
	}
	a, exists := atoms.get(fmt.Sprintf("shr(%s,%d)", x.key(), c))
	if !exists {
		if lo != nil {
			a.lo = new(big.Int).Rsh(lo, uint(c))
		}
		if hi != nil {
			a.hi = new(big.Int).Rsh(hi, uint(c))
		}
		a.fn = "shr"
		a.args = []Lin{x, lc(int64(c))}
		l := la(a).scale(pow2(c))
		a.ax = []Con{geq(x, l), geq(l.add(lbig(new(big.Int).Sub(pow2(c), bigOne))), x)}
	}
	return q.add(la(a))
}

// splitPow writes x as 2^c*q + rest, moving every summand divisible by 2^c to q.
func splitPow(x Lin, c int) (q, rest Lin) {
	q, rest = lc(0), lc(0)
	m := pow2(c)
	for _, t := range x.t {
		one := Lin{c: bigZero, t: []lterm{{t.a, bigOne}}}
		d, r := new(big.Int).DivMod(t.k, m, new(big.Int))
		if r.Sign() == 0 {
			q = q.add(one.scale(d))
		} else {
			rest = rest.add(one.scale(t.k))
		}
	}
	d, r := new(big.Int).DivMod(x.c, m, new(big.Int))
	q = q.add(lbig(d))
	rest = rest.add(lbig(r))
	return
}

// typeKey prints a type without package qualification ambiguity.
func typeKey(t types.Type) string { return types.TypeString(t, nil) }
