package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// JSON texts with symbolic content are represented by a tree; the bytes of such a text are opaque
// special terms (a fixed number of them) that stand for "byte i of document d".

type jKind int

const (
	jNull jKind = iota
	jBool
	jNum
	jStr
	jB64 // string holding the base64 text of b
	jArr
	jObj
	jRaw // concrete number text that is not an integer
)

type JNode struct {
	k    jKind
	t    *Term // jBool: width 0; jNum: signed
	s    Str   // jStr, jRaw
	b    []*Term
	arr  []*JNode
	keys []Str
}

type Doc struct {
	id   int
	n    *JNode
	text bool // raw text rather than JSON
}

type docByte struct {
	doc *Doc
	i   int
}

const docLen = 16

func (r *Run) jnum(t *Term, sg bool) *JNode {
	if sg {
		return &JNode{k: jNum, t: t}
	}
	return &JNode{k: jNum, t: r.tt.ZExt(t, t.w+1)}
}

func (n *JNode) concrete() bool {
	switch n.k {
	case jBool, jNum:
		return n.t.isConst()
	case jStr:
		return n.s.b == nil
	case jB64:
		_, ok := concBytes(n.b)
		return ok
	case jArr, jObj:
		for _, k := range n.keys {
			if k.b != nil {
				return false
			}
		}
		for _, c := range n.arr {
			if !c.concrete() {
				return false
			}
		}
	}
	return true
}

func (n *JNode) render(sb *strings.Builder) {
	switch n.k {
	case jNull:
		sb.WriteString("null")
	case jBool:
		if n.t.isTrue() {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case jNum:
		sb.WriteString(bigSigned(n.t.big(), n.t.w).String())
	case jRaw:
		sb.WriteString(n.s.s)
	case jStr:
		b, _ := json.Marshal(n.s.s)
		sb.Write(b)
	case jB64:
		b, _ := concBytes(n.b)
		sb.WriteString(`"` + base64.StdEncoding.EncodeToString(b) + `"`)
	case jArr:
		sb.WriteByte('[')
		for i, c := range n.arr {
			if i > 0 {
				sb.WriteByte(',')
			}
			c.render(sb)
		}
		sb.WriteByte(']')
	case jObj:
		sb.WriteByte('{')
		for i, c := range n.arr {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(n.keys[i].s)
			sb.Write(b)
			sb.WriteByte(':')
			c.render(sb)
		}
		sb.WriteByte('}')
	}
}

func (r *Run) newDoc(n *JNode, text bool) []*Term {
	if n.concrete() {
		var sb strings.Builder
		if text && n.k == jB64 {
			b, _ := concBytes(n.b)
			sb.WriteString(base64.StdEncoding.EncodeToString(b))
		} else {
			n.render(&sb)
		}
		return r.strTerms(Str{s: sb.String()})
	}
	d := &Doc{id: len(r.docs), n: n, text: text}
	r.docs = append(r.docs, d)
	out := make([]*Term, docLen)
	for i := range out {
		out[i] = r.tt.Var(8, fmt.Sprintf("doc %d.%d", d.id, i))
		r.docBytes[out[i]] = docByte{d, i}
	}
	return out
}

func (r *Run) docAt(b []*Term) *Doc {
	if len(b) < docLen || b[0].op != OVar {
		return nil
	}
	x, ok := r.docBytes[b[0]]
	if !ok || x.i != 0 {
		return nil
	}
	for i := 1; i < docLen; i++ {
		if y, ok := r.docBytes[b[i]]; !ok || y.doc != x.doc || y.i != i {
			return nil
		}
	}
	return x.doc
}

func (r *Run) wholeDoc(b []*Term) *Doc {
	if len(b) != docLen || len(r.docs) == 0 {
		return nil
	}
	return r.docAt(b)
}

func (r *Run) anyDoc(b []*Term) bool {
	if len(r.docs) == 0 {
		return false
	}
	return hasDoc(r, b)
}

// docEq compares byte strings of which at least one contains document bytes; nil if none does.
func (r *Run) docEq(a, b []*Term) *Term {
	if len(r.docs) == 0 {
		return nil
	}
	da, db := hasDoc(r, a), hasDoc(r, b)
	if !da && !db {
		return nil
	}
	x, y := r.wholeDoc(a), r.wholeDoc(b)
	if x != nil && y != nil {
		if x == y {
			return r.tt.tru
		}
		if x.text != y.text {
			return r.tt.fls
		}
		return r.nodeEq(x.n, y.n)
	}
	if x == nil && y != nil {
		x, y, a, b = y, x, b, a
		da, db = db, da
	}
	if x != nil && !db {
		if cb, ok := concBytes(b); ok {
			if x.text {
				return r.textEq(x.n, cb)
			}
			n, err := r.parseJSON(cb)
			if err != nil {
				return r.tt.fls
			}
			return r.nodeEq(x.n, n)
		}
	}
	// segment by segment, when both have documents at the same places
	if len(a) == len(b) {
		res := r.tt.tru
		i, last := 0, 0
		for i < len(a) {
			p, q := r.docAt(a[i:]), r.docAt(b[i:])
			if p == nil && q == nil {
				i++
				continue
			}
			if i > last {
				if hasDoc(r, a[last:i]) || hasDoc(r, b[last:i]) {
					return r.tt.fls
				}
				res = r.tt.And(res, r.bytesEq(a[last:i], b[last:i]))
			}
			if p == nil || q == nil {
				return r.tt.fls
			}
			res = r.tt.And(res, r.docEq(a[i:i+docLen], b[i:i+docLen]))
			i += docLen
			last = i
		}
		if last < len(a) {
			if hasDoc(r, a[last:]) || hasDoc(r, b[last:]) {
				return r.tt.fls
			}
			res = r.tt.And(res, r.bytesEq(a[last:], b[last:]))
		}
		return res
	}
	// texts of different make-up: taken as different
	return r.tt.fls
}

func (r *Run) textEq(n *JNode, b []byte) *Term {
	switch n.k {
	case jNum:
		v, ok := new(big.Int).SetString(string(b), 10)
		if !ok || v.String() != string(b) {
			return r.tt.fls
		}
		return r.numEq(n.t, r.bigConst(v).t)
	case jB64:
		d, err := base64.StdEncoding.DecodeString(string(b))
		if err != nil {
			return r.tt.fls
		}
		return r.bytesEq(n.b, sliceTerms(r.bytesOf(string(d))))
	}
	return r.tt.fls
}

func (r *Run) numEq(a, b *Term) *Term {
	w := max(a.w, b.w)
	return r.tt.Eq(r.tt.SExt(a, w), r.tt.SExt(b, w))
}

func (r *Run) nodeEq(a, b *JNode) *Term {
	tt := r.tt
	if a.k == jB64 && b.k == jStr {
		a, b = b, a
	}
	if a.k == jStr && b.k == jB64 {
		if cb, ok := concBytes(b.b); ok {
			return r.strEq(a.s, Str{s: base64.StdEncoding.EncodeToString(cb)})
		}
		if a.s.b == nil {
			return r.textEq(b, []byte(a.s.s))
		}
		return tt.fls
	}
	if a.k != b.k {
		return tt.fls
	}
	switch a.k {
	case jNull:
		return tt.tru
	case jBool:
		return tt.Eq(a.t, b.t)
	case jNum:
		return r.numEq(a.t, b.t)
	case jStr:
		return r.strEq(a.s, b.s)
	case jRaw:
		return tt.Bool(a.s.s == b.s.s)
	case jB64:
		return r.bytesEq(a.b, b.b)
	case jArr, jObj:
		if len(a.arr) != len(b.arr) || len(a.keys) != len(b.keys) {
			return tt.fls
		}
		res := tt.tru
		for i := range a.keys {
			res = tt.And(res, r.strEq(a.keys[i], b.keys[i]))
		}
		for i := range a.arr {
			if res.isFalse() {
				return res
			}
			res = tt.And(res, r.nodeEq(a.arr[i], b.arr[i]))
		}
		return res
	}
	return tt.fls
}

func (r *Run) parseJSON(b []byte) (*JNode, error) {
	if !json.Valid(b) {
		var x interface{}
		err := json.Unmarshal(b, &x)
		if err == nil {
			err = fmt.Errorf("invalid JSON")
		}
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var rec func() *JNode
	rec = func() *JNode {
		tok, err := dec.Token()
		if err != nil {
			return &JNode{k: jNull}
		}
		switch x := tok.(type) {
		case nil:
			return &JNode{k: jNull}
		case bool:
			return &JNode{k: jBool, t: r.tt.Bool(x)}
		case json.Number:
			if v, ok := new(big.Int).SetString(string(x), 10); ok {
				return &JNode{k: jNum, t: r.bigConst(v).t}
			}
			return &JNode{k: jRaw, s: Str{s: string(x)}}
		case string:
			return &JNode{k: jStr, s: Str{s: x}}
		case json.Delim:
			if x == '[' {
				n := &JNode{k: jArr}
				for dec.More() {
					n.arr = append(n.arr, rec())
				}
				dec.Token()
				return n
			}
			n := &JNode{k: jObj}
			for dec.More() {
				kt, _ := dec.Token()
				n.keys = append(n.keys, Str{s: kt.(string)})
				n.arr = append(n.arr, rec())
			}
			dec.Token()
			return n
		}
		return &JNode{k: jNull}
	}
	return rec(), nil
}

// nodeOf parses bytes to a tree; nil means invalid JSON.
func (r *Run) nodeOf(b []*Term) *JNode {
	if d := r.wholeDoc(b); d != nil {
		if !d.text || d.n.k == jNum {
			return d.n
		}
		return nil
	}
	if cb, ok := concBytes(b); ok {
		n, err := r.parseJSON(cb)
		if err != nil {
			return nil
		}
		return n
	}
	// surrounding white space or a truncated text
	if hasDoc(r, b) {
		i, j := 0, len(b)
		ws := func(t *Term) bool {
			return t.isConst() && (t.u == ' ' || t.u == '\n' || t.u == '\t' || t.u == '\r')
		}
		for i < j && ws(b[i]) {
			i++
		}
		for j > i && ws(b[j-1]) {
			j--
		}
		if d := r.wholeDoc(b[i:j]); d != nil && !d.text {
			return d.n
		}
		return nil
	}
	r.unsupported("JSON parse of arbitrary symbolic bytes")
	return nil
}

// ---- struct fields ----

type jField struct {
	name      string
	index     []int
	typ       types.Type
	omitempty bool
	str       bool
	tagged    bool
}

func jFields(t types.Type) []jField {
	var out []jField
	type q struct {
		t     *types.Struct
		index []int
	}
	cur := []q{{under(t).(*types.Struct), nil}}
	seen := map[string]bool{}
	visited := map[types.Type]bool{}
	for depth := 0; len(cur) > 0 && depth < 6; depth++ {
		var next []q
		var level []jField
		for _, c := range cur {
			for i := 0; i < c.t.NumFields(); i++ {
				f := c.t.Field(i)
				tag := reflect.StructTag(c.t.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				idx := append(append([]int{}, c.index...), i)
				if f.Embedded() && name == "" {
					ft := f.Type()
					if p, ok := under(ft).(*types.Pointer); ok {
						ft = p.Elem()
					}
					if st, ok := under(ft).(*types.Struct); ok {
						if !visited[ft] {
							visited[ft] = true
							next = append(next, q{st, idx})
						}
						continue
					}
				}
				if !f.Exported() {
					continue
				}
				jf := jField{name: name, index: idx, typ: f.Type(), tagged: name != ""}
				if name == "" {
					jf.name = f.Name()
				}
				for _, o := range strings.Split(opts, ",") {
					if o == "omitempty" {
						jf.omitempty = true
					}
					if o == "string" {
						jf.str = true
					}
				}
				level = append(level, jf)
			}
		}
		cnt := map[string]int{}
		tagd := map[string]int{}
		for _, f := range level {
			cnt[f.name]++
			if f.tagged {
				tagd[f.name]++
			}
		}
		for _, f := range level {
			if seen[f.name] {
				continue
			}
			if cnt[f.name] > 1 && !(f.tagged && tagd[f.name] == 1) {
				continue
			}
			out = append(out, f)
		}
		for _, f := range level {
			seen[f.name] = true
		}
		cur = next
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].index, out[j].index
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

// ---- encoding ----

type jsonErr struct{ e Iface }

func (r *Run) toNode(t types.Type, v Value, depth int) *JNode {
	if depth > 60 {
		r.unsupported("JSON depth")
	}
	if p, ok := v.(*Value); ok && p == nil {
		return &JNode{k: jNull}
	}
	if i, ok := v.(Iface); ok && types.IsInterface(t) {
		if i.T == nil {
			return &JNode{k: jNull}
		}
		return r.toNode(i.T, i.V, depth+1)
	}
	if _, ok := v.(*Native); ok {
		r.unsupported("JSON of an engine object")
	}
	const filInt = "github.com/filecoin-project/go-state-types/big.Int"
	if pt, ok := under(t).(*types.Pointer); ok && namedPath(pt.Elem()) == filInt {
		t, v = pt.Elem(), *v.(*Value)
	}
	switch namedPath(t) {
	case filInt: // as in CBOR
		if p, _ := v.(Struct)[0].(*Value); p != nil {
			return &JNode{k: jNum, t: (*p).(BigVal).t}
		}
		return &JNode{k: jNum, t: r.tt.Const(1, 0)}
	case "math/big.Int":
		return &JNode{k: jNum, t: v.(BigVal).t}
	case "time.Time":
		r.unsupported("JSON of time.Time")
	}
	if pt, ok := under(t).(*types.Pointer); ok && namedPath(pt.Elem()) == "math/big.Int" {
		return &JNode{k: jNum, t: (*v.(*Value)).(BigVal).t}
	}
	if r.hasMethod(t, "MarshalJSON") != nil {
		res := r.callMethod(Iface{T: t, V: v}, "MarshalJSON").(Tuple)
		if e := res[1].(Iface); e.T != nil {
			panic(jsonErr{e})
		}
		b := sliceTerms(res[0].(Slice))
		n := r.nodeOf(b)
		if n == nil {
			panic(jsonErr{r.mkErr("json: error calling MarshalJSON: invalid JSON")})
		}
		return n
	}
	if r.hasMethod(t, "MarshalText") != nil {
		res := r.callMethod(Iface{T: t, V: v}, "MarshalText").(Tuple)
		if e := res[1].(Iface); e.T != nil {
			panic(jsonErr{e})
		}
		return &JNode{k: jStr, s: mkStr(sliceTerms(res[0].(Slice)))}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w := width(t); w == 0 {
			return &JNode{k: jBool, t: v.(*Term)}
		} else if w > 0 {
			return r.jnum(v.(*Term), signed(t))
		}
		if isString(t) {
			return r.strNode(v.(Str))
		}
		if isFloat(t) {
			b, err := json.Marshal(v.(float64))
			if err != nil {
				panic(jsonErr{r.mkErr(err.Error())})
			}
			n, _ := r.parseJSON(b)
			return n
		}
	case *types.Pointer:
		return r.toNode(u.Elem(), *r.deref(v), depth+1)
	case *types.Struct:
		n := &JNode{k: jObj}
	fields:
		for _, f := range jFields(t) {
			var cur Value = v
			var ct types.Type = t
			for _, i := range f.index {
				if p, ok := cur.(*Value); ok {
					if p == nil {
						continue fields
					}
					cur = *p
					ct = under(ct).(*types.Pointer).Elem()
				}
				cur = cur.(Struct)[i]
				ct = under(ct).(*types.Struct).Field(i).Type()
			}
			if f.omitempty && r.branch(r.jEmpty(f.typ, cur)) {
				continue
			}
			c := r.toNode(f.typ, cur, depth+1)
			if f.str {
				r.unsupported("json ,string")
			}
			n.keys = append(n.keys, Str{s: f.name})
			n.arr = append(n.arr, c)
		}
		return n
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			return &JNode{k: jNull}
		}
		if width(u.Elem()) == 8 && !signed(u.Elem()) && r.hasMethod(u.Elem(), "MarshalJSON") == nil {
			return &JNode{k: jB64, b: sliceTerms(s)}
		}
		n := &JNode{k: jArr}
		for i := range s {
			n.arr = append(n.arr, r.elemNode(u.Elem(), &s[i], depth+1))
		}
		return n
	case *types.Array:
		n := &JNode{k: jArr}
		for _, e := range v.(Array) {
			n.arr = append(n.arr, r.toNode(u.Elem(), e, depth+1))
		}
		return n
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return &JNode{k: jNull}
		}
		if !isString(u.Key()) {
			r.unsupported("JSON map key %v", u.Key())
		}
		ents := append([]*mapEntry{}, m.ents...)
		for i := 1; i < len(ents); i++ {
			for j := i; j > 0 && r.branch(r.strLt(ents[j].k.(Str), ents[j-1].k.(Str))); j-- {
				ents[j], ents[j-1] = ents[j-1], ents[j]
			}
		}
		n := &JNode{k: jObj}
		for _, e := range ents {
			n.keys = append(n.keys, e.k.(Str))
			n.arr = append(n.arr, r.toNode(u.Elem(), e.v, depth+1))
		}
		return n
	}
	panic(jsonErr{r.mkErr("json: unsupported type: " + t.String())})
}

// elemNode encodes an addressable element (pointer-receiver marshalers apply).
func (r *Run) elemNode(t types.Type, p *Value, depth int) *JNode {
	pt := types.NewPointer(t)
	if _, isPtr := under(t).(*types.Pointer); !isPtr && !types.IsInterface(t) && namedPath(t) != "math/big.Int" &&
		r.hasMethod(t, "MarshalJSON") == nil && r.hasMethod(pt, "MarshalJSON") != nil {
		return r.toNode(pt, p, depth)
	}
	return r.toNode(t, *p, depth)
}

// strNode encodes a string; bytes outside ASCII would be rewritten when not valid UTF-8.
func (r *Run) strNode(s Str) *JNode {
	if s.b == nil {
		return &JNode{k: jStr, s: Str{s: strings.ToValidUTF8(s.s, "\ufffd")}}
	}
	if hasDoc(r, s.b) {
		if d := r.wholeDoc(s.b); d != nil && d.text && d.n.k == jB64 {
			return &JNode{k: jB64, b: d.n.b}
		}
		return &JNode{k: jStr, s: s}
	}
	ok := r.tt.tru
	for _, t := range s.b {
		ok = r.tt.And(ok, r.tt.Ult(t, r.tt.Const(8, 0x80)))
	}
	if !r.branch(ok) {
		r.unsupported("non-ASCII symbolic string in JSON")
	}
	return &JNode{k: jStr, s: s}
}

func (r *Run) jEmpty(t types.Type, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return r.tt.Eq(x, r.constOf(x.w, new(big.Int)))
	case Str:
		return r.tt.Bool(x.Len() == 0)
	case Slice:
		return r.tt.Bool(len(x) == 0)
	case Array:
		return r.tt.Bool(len(x) == 0)
	case *Map:
		return r.tt.Bool(x == nil || x.n == 0)
	case *Value:
		return r.tt.Bool(x == nil)
	case Iface:
		return r.tt.Bool(x.T == nil)
	case float64:
		return r.tt.Bool(x == 0)
	}
	return r.tt.fls
}

func (r *Run) marshal(v Iface) (out []*Term, err Iface) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(jsonErr); ok {
				out, err = nil, e.e
				return
			}
			panic(p)
		}
	}()
	if v.T == nil {
		return r.strTerms(Str{s: "null"}), Iface{}
	}
	return r.newDoc(r.toNode(v.T, v.V, 0), false), Iface{}
}

// ---- decoding ----

type jDec struct {
	r   *Run
	err Iface
}

func (d *jDec) save(msg string) {
	if d.err.T == nil {
		d.err = d.r.mkErr("json: " + msg)
	}
}

func (d *jDec) mismatch(n *JNode, t types.Type) {
	name := map[jKind]string{jNull: "null", jBool: "bool", jNum: "number", jRaw: "number", jStr: "string", jB64: "string", jArr: "array", jObj: "object"}[n.k]
	d.save("cannot unmarshal " + name + " into Go value of type " + t.String())
}

// into decodes n into the cell p of type t.
func (d *jDec) into(n *JNode, t types.Type, p *Value, depth int) {
	r := d.r
	if depth > 60 {
		r.unsupported("JSON depth")
	}
	np := namedPath(t)
	if np == "github.com/filecoin-project/go-state-types/big.Int" && n.k == jNum {
		r.raceWrite(p)
		*p = Struct{r.newBig(r.bigNorm(n.t))}
		return
	}
	if np == "math/big.Int" {
		switch n.k {
		case jNull:
		case jNum:
			r.raceWrite(p)
			*p = r.bigNorm(n.t)
		default:
			d.save("math/big: cannot unmarshal into a *big.Int")
		}
		return
	}
	if _, isPtr := under(t).(*types.Pointer); !isPtr && !types.IsInterface(t) {
		if m := r.hasMethod(types.NewPointer(t), "UnmarshalJSON"); m != nil && r.hasMethod(t, "UnmarshalJSON") == nil || m != nil && np != "" {
			b := termSlice(r.newDoc(n, false))
			res := r.callMethod(Iface{T: types.NewPointer(t), V: p}, "UnmarshalJSON", b)
			if e := res.(Iface); e.T != nil && d.err.T == nil {
				d.err = e
			}
			return
		}
		if r.hasMethod(types.NewPointer(t), "UnmarshalText") != nil && n.k == jStr {
			res := r.callMethod(Iface{T: types.NewPointer(t), V: p}, "UnmarshalText", termSlice(r.strTerms(n.s)))
			if e := res.(Iface); e.T != nil && d.err.T == nil {
				d.err = e
			}
			return
		}
	}
	set := func(v Value) {
		r.raceWrite(p)
		storeInto(p, v)
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if n.k == jNull {
			set((*Value)(nil))
			return
		}
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = r.zero(u.Elem())
			set(q)
		}
		d.into(n, u.Elem(), q, depth+1)
		return
	case *types.Interface:
		if n.k == jNull {
			set(Iface{})
			return
		}
		if u.NumMethods() > 0 {
			d.mismatch(n, t)
			return
		}
		if cur := (*p).(Iface); cur.T != nil {
			if q, ok := cur.V.(*Value); ok && q != nil {
				if pt, ok := under(cur.T).(*types.Pointer); ok {
					d.into(n, pt.Elem(), q, depth+1)
					return
				}
			}
		}
		set(r.anyOf(n))
		return
	}
	if n.k == jNull {
		switch under(t).(type) {
		case *types.Map:
			set((*Map)(nil))
		case *types.Slice:
			set(Slice(nil))
		}
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w := width(t); w == 0 {
			if n.k != jBool {
				d.mismatch(n, t)
				return
			}
			set(n.t)
			return
		} else if w > 0 {
			if n.k == jRaw {
				d.mismatch(n, t)
				return
			}
			if n.k != jNum {
				d.mismatch(n, t)
				return
			}
			v, ok := r.fitInt(n.t, w, signed(t))
			if !r.branch(ok) {
				d.mismatch(n, t)
				return
			}
			set(v)
			return
		}
		if isString(t) {
			switch n.k {
			case jStr:
				set(n.s)
			case jB64:
				set(mkStr(r.newDoc(n, true)))
			default:
				d.mismatch(n, t)
			}
			return
		}
		if isFloat(t) {
			if n.k == jNum || n.k == jRaw {
				set(r.floatOf(n))
				return
			}
			d.mismatch(n, t)
			return
		}
	case *types.Struct:
		if n.k != jObj {
			d.mismatch(n, t)
			return
		}
		fs := jFields(t)
		for i, key := range n.keys {
			if key.b != nil {
				r.unsupported("symbolic object key")
			}
			var f *jField
			for j := range fs {
				if fs[j].name == key.s {
					f = &fs[j]
					break
				}
			}
			if f == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, key.s) {
						f = &fs[j]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			cell := p
			var ct types.Type = t
			for _, ix := range f.index {
				if pt, ok := under(ct).(*types.Pointer); ok {
					q := (*cell).(*Value)
					if q == nil {
						q = new(Value)
						*q = r.zero(pt.Elem())
						*cell = q
					}
					cell, ct = q, pt.Elem()
				}
				s := (*cell).(Struct)
				ct = under(ct).(*types.Struct).Field(ix).Type()
				cell = &s[ix]
			}
			if f.str {
				r.unsupported("json ,string")
			}
			d.into(n.arr[i], f.typ, cell, depth+1)
		}
		return
	case *types.Slice:
		if width(u.Elem()) == 8 && !signed(u.Elem()) && (n.k == jStr || n.k == jB64) {
			if n.k == jB64 {
				set(termSlice(n.b))
				return
			}
			if n.s.b != nil {
				if dd := r.wholeDoc(n.s.b); dd != nil && dd.text && dd.n.k == jB64 {
					set(termSlice(dd.n.b))
					return
				}
				r.unsupported("base64 of symbolic text")
			}
			b, err := base64.StdEncoding.DecodeString(n.s.s)
			if err != nil {
				d.save(err.Error())
				return
			}
			s := r.bytesOf(string(b))
			if s == nil {
				s = Slice{}
			}
			set(s)
			return
		}
		if n.k != jArr {
			d.mismatch(n, t)
			return
		}
		s, _ := (*p).(Slice)
		if cap(s) < len(n.arr) || s == nil {
			ns := make(Slice, len(n.arr))
			for i := range ns {
				if i < len(s) {
					ns[i] = s[i]
				} else {
					ns[i] = r.zero(u.Elem())
				}
			}
			s = ns
		} else {
			s = s[:len(n.arr)]
			for i := range s {
				if s[i] == nil {
					s[i] = r.zero(u.Elem())
				}
			}
		}
		set(s)
		for i, c := range n.arr {
			d.into(c, u.Elem(), &s[i], depth+1)
		}
		return
	case *types.Array:
		if n.k != jArr {
			d.mismatch(n, t)
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(n.arr) {
				d.into(n.arr[i], u.Elem(), &a[i], depth+1)
			} else {
				a[i] = r.zero(u.Elem())
			}
		}
		return
	case *types.Map:
		if n.k != jObj {
			d.mismatch(n, t)
			return
		}
		if !isString(u.Key()) {
			r.unsupported("JSON map key %v", u.Key())
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = NewMap()
			set(m)
		}
		for i, k := range n.keys {
			e := new(Value)
			*e = r.zero(u.Elem())
			d.into(n.arr[i], u.Elem(), e, depth+1)
			r.mapSet(u.Key(), m, k, *e)
		}
		return
	}
	r.unsupported("JSON decode into %v", t)
}

func (r *Run) floatOf(n *JNode) float64 {
	if n.k == jRaw {
		f, _ := strconv.ParseFloat(n.s.s, 64)
		return f
	}
	if !n.t.isConst() {
		r.unsupported("symbolic number as float")
	}
	f, _ := new(big.Float).SetInt(bigSigned(n.t.big(), n.t.w)).Float64()
	return f
}

func (r *Run) anyOf(n *JNode) Iface {
	anyT := types.NewInterfaceType(nil, nil)
	switch n.k {
	case jBool:
		return Iface{T: types.Typ[types.Bool], V: n.t}
	case jNum, jRaw:
		return Iface{T: types.Typ[types.Float64], V: r.floatOf(n)}
	case jStr:
		return Iface{T: types.Typ[types.String], V: n.s}
	case jB64:
		return Iface{T: types.Typ[types.String], V: mkStr(r.newDoc(n, true))}
	case jArr:
		s := Slice{}
		for _, c := range n.arr {
			s = append(s, r.anyOf(c))
		}
		return Iface{T: types.NewSlice(anyT), V: s}
	case jObj:
		m := NewMap()
		for i, c := range n.arr {
			r.mapSet(types.Typ[types.String], m, n.keys[i], r.anyOf(c))
		}
		return Iface{T: types.NewMap(types.Typ[types.String], anyT), V: m}
	}
	return Iface{}
}

func (r *Run) unmarshal(b []*Term, v Iface) Iface {
	p, ok := v.V.(*Value)
	n := r.nodeOf(b)
	if n == nil {
		if cb, ok := concBytes(b); ok {
			_, err := r.parseJSON(cb)
			return r.mkErr(err.Error())
		}
		return r.mkErr("invalid JSON text")
	}
	if !ok || p == nil {
		return r.mkErr("json: Unmarshal(nil)")
	}
	d := &jDec{r: r}
	d.into(n, under(v.T).(*types.Pointer).Elem(), p, 0)
	return d.err
}

func regJSON() {
	reg("encoding/json.Marshal", func(r *Run, fr *Frame, a []Value) Value {
		b, e := r.marshal(a[0].(Iface))
		if e.T != nil {
			return Tuple{Slice(nil), e}
		}
		return Tuple{termSlice(b), e}
	})
	reg("encoding/json.MarshalIndent", func(r *Run, fr *Frame, a []Value) Value {
		b, e := r.marshal(a[0].(Iface))
		if e.T != nil {
			return Tuple{Slice(nil), e}
		}
		return Tuple{termSlice(b), e}
	})
	reg("encoding/json.Unmarshal", func(r *Run, fr *Frame, a []Value) Value {
		return r.unmarshal(sliceTerms(a[0].(Slice)), a[1].(Iface))
	})
	reg("encoding/json.Valid", func(r *Run, fr *Frame, a []Value) Value {
		return r.tt.Bool(r.nodeOf(sliceTerms(a[0].(Slice))) != nil)
	})
	reg("(*encoding/json.SyntaxError).Error|(*encoding/json.UnmarshalTypeError).Error", func(r *Run, fr *Frame, a []Value) Value { return Str{s: "json error"} })
	// streaming decoder and encoder
	reg("encoding/json.NewDecoder", func(r *Run, fr *Frame, a []Value) Value {
		x := nat("jsonDecoder", map[string]Value{"r": a[0]})
		p := new(Value)
		*p = x.V
		return p
	})
	reg("(*encoding/json.Decoder).Decode", func(r *Run, fr *Frame, a []Value) Value {
		n := (*r.deref(a[0])).(*Native)
		res := r.call(fr, r.fnVal(r.fn("io", "ReadAll")), []Value{n.f["r"]}).(Tuple)
		if e := res[1].(Iface); e.T != nil {
			return e
		}
		b := sliceTerms(res[0].(Slice))
		if len(b) == 0 {
			return r.globalVal("io", "EOF")
		}
		return r.unmarshal(b, a[1].(Iface))
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields|(*encoding/json.Decoder).UseNumber", noop)
	reg("encoding/json.NewEncoder", func(r *Run, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = nat("jsonEncoder", map[string]Value{"w": a[0]}).V
		return p
	})
	reg("(*encoding/json.Encoder).Encode", func(r *Run, fr *Frame, a []Value) Value {
		n := (*r.deref(a[0])).(*Native)
		b, e := r.marshal(a[1].(Iface))
		if e.T != nil {
			return e
		}
		b = append(b, r.tt.Const(8, '\n'))
		res := r.callMethod(n.f["w"].(Iface), "Write", termSlice(b)).(Tuple)
		return res[1]
	})
}
