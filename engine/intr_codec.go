package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// node is one item of an encoded document; leaves keep their symbolic values.
type node struct {
	k      string // null bool num big bytes str list map float
	v      value
	w      int
	signed bool
	list   []*node
	keys   []string
	inst   *Term // for strings and numbers rendering an instant
	raw    *node
}

type codecField struct {
	name  string
	idx   int
	typ   types.Type
	omit  bool
	asStr bool
}

func codecFields(st *types.Struct, tag string) []codecField {
	var r []codecField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() && f.Exported() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok && reflect.StructTag(st.Tag(i)).Get(tag) == "" {
				panic(unsupported("encoding of embedded field " + f.Name()))
			}
		}
		if !f.Exported() {
			if f.Name() == "_" && strings.Contains(reflect.StructTag(st.Tag(i)).Get(tag), "toarray") {
				panic(unsupported("array encoding of a structure"))
			}
			continue
		}
		t, has := reflect.StructTag(st.Tag(i)).Lookup(tag)
		if tag == "cbor" && !has {
			t = reflect.StructTag(st.Tag(i)).Get("json")
		}
		if t == "-" {
			continue
		}
		parts := strings.Split(t, ",")
		cf := codecField{name: parts[0], idx: i, typ: f.Type()}
		if cf.name == "" {
			cf.name = f.Name()
		}
		key := false
		for _, p := range parts[1:] {
			switch p {
			case "omitempty", "omitzero":
				cf.omit = true
			case "string":
				cf.asStr = true
			case "keyasint":
				key = true
			}
		}
		if key {
			n, err := strconv.Atoi(cf.name)
			if err != nil {
				panic(unsupported("integer key " + cf.name))
			}
			cf.name = "#" + strconv.Itoa(n)
		}
		dup := false
		for _, o := range r {
			if o.name == cf.name {
				dup = true
			}
		}
		if dup {
			panic(unsupported("fields with the same encoded name"))
		}
		r = append(r, cf)
	}
	return r
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func (ex *Exec) isEmptyVal(v value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case *Term:
		if x.w == 0 {
			return !ex.decide(x)
		}
		return ex.decide(ex.ctx.Eq(x, ex.ctx.Const(x.w, 0)))
	case string:
		return x == ""
	case []value:
		return len(x) == 0
	case *mapObj:
		return x == nil || x.n == 0
	case *symStr:
		return len(x.b) == 0
	}
	return isNilPtr(v)
}

// encode builds the document of v; the returned value is an error or nil.
func (ex *Exec) encode(g *gor, codec string, t types.Type, v value) (*node, value) {
	if v == nil {
		return &node{k: "null"}, nil
	}
	if isNamed(t, "time", "Time") {
		ns := ex.timeNS(v)
		if codec == "json" {
			c := ex.ctx
			lo := ex.tconst(new(big.Int))
			lo = c.Bin(OpSub, lo, ex.tconst(new(big.Int).Mul(bigInt(366*24*3600), nsPerSec))) // year 0 is still allowed
			hi := ex.tconst(new(big.Int).Mul(bigInt(yearStart(10000)), nsPerSec))
			if ex.decide(c.Or(c.Cmp(OpSLt, ns, lo), c.Not(c.Cmp(OpSLt, ns, hi)))) {
				return nil, ex.newError("Time.MarshalJSON: year outside of range [0,9999]")
			}
			return &node{k: "str", v: &opaqueStr{kind: "rfc3339nano", payload: []value{fromTerm(ns)}}, inst: ns}, nil
		}
		if ex.decide(ex.ctx.Eq(ns, ex.tconst(new(big.Int)))) {
			return &node{k: "null"}, nil
		}
		sec := ex.ctx.Bin(OpSub, ex.floorDiv(ns, nsPerSec), ex.tconst(bigInt(unixToYear1)))
		return &node{k: "big", v: ex.ctx.SExt(sec, bigW)}, nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if isNilPtr(v) {
			return &node{k: "null"}, nil
		}
		if isNamed(p.Elem(), "math/big", "Int") {
			return &node{k: "big", v: ex.bigTerm(v)}, nil
		}
		if codec == "json" {
			if n, e, ok := ex.jsonMarshaler(g, t, v); ok {
				return n, e
			}
		}
		return ex.encode(g, codec, p.Elem(), *asPtr(v))
	}
	if isNamed(t, "math/big", "Int") {
		p := new(value)
		*p = v
		return &node{k: "big", v: ex.bigTerm(p)}, nil
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		_ = i
		iv := v.(iface)
		if iv.t == nil {
			return &node{k: "null"}, nil
		}
		return ex.encode(g, codec, iv.t, iv.v)
	}
	if codec == "json" {
		if n, e, ok := ex.jsonMarshaler(g, t, v); ok {
			return n, e
		}
	} else {
		prog := ex.w.run.prog
		if fn := prog.methodByName(t, nil, "MarshalCBOR"); fn != nil {
			panic(unsupported("MarshalCBOR of " + t.String()))
		}
		if fn := prog.methodByName(t, nil, "MarshalBinary"); fn != nil && fn.Signature.Params().Len() == 0 {
			r := ex.callSSA(g, fn, []value{copyVal(v)}, nil).(tuple)
			if !isNilPtr(r[1]) {
				return nil, r[1]
			}
			b, _ := r[0].([]value)
			return &node{k: "bytes", v: append([]value{}, b...)}, nil
		}
	}
	if w, signed, ok := intInfo(t); ok {
		return &node{k: "num", v: v, w: w, signed: signed}, nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &node{k: "bool", v: v}, nil
		case u.Info()&types.IsString != 0:
			return &node{k: "str", v: v}, nil
		case u.Info()&types.IsFloat != 0:
			return &node{k: "float", v: v}, nil
		}
	case *types.Slice:
		s, _ := v.([]value)
		if s == nil {
			return &node{k: "null"}, nil
		}
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 && !ex.hasMarshal(u.Elem(), codec) {
			return &node{k: "bytes", v: append([]value{}, s...)}, nil
		}
		return ex.encodeList(g, codec, u.Elem(), s)
	case *types.Array:
		s := v.(array)
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 && codec == "cbor" {
			return &node{k: "bytes", v: append([]value{}, s...)}, nil
		}
		return ex.encodeList(g, codec, u.Elem(), s)
	case *types.Map:
		m, _ := v.(*mapObj)
		if m == nil {
			return &node{k: "null"}, nil
		}
		n := &node{k: "map"}
		for _, e := range m.entries {
			ks, ok := e.k.(string)
			if !ok {
				panic(unsupported("encoding of a map with symbolic or non-string keys"))
			}
			el, err := ex.encode(g, codec, u.Elem(), e.v)
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, ks)
			n.list = append(n.list, el)
		}
		return n, nil
	case *types.Struct:
		n := &node{k: "map"}
		st := v.(structure)
		for _, f := range codecFields(u, codec) {
			if f.omit && ex.isEmptyVal(st[f.idx]) {
				continue
			}
			el, err := ex.encode(g, codec, f.typ, st[f.idx])
			if err != nil {
				return nil, err
			}
			if f.asStr {
				el = &node{k: "str", raw: el, v: &opaqueStr{kind: "quoted", payload: []value{el.v}}}
			}
			n.keys = append(n.keys, f.name)
			n.list = append(n.list, el)
		}
		return n, nil
	}
	if codec == "json" {
		return nil, ex.newError("json: unsupported type: " + t.String())
	}
	return nil, ex.newError("cbor: unsupported type: " + t.String())
}

func (ex *Exec) hasMarshal(t types.Type, codec string) bool {
	if codec != "json" {
		return false
	}
	p := ex.w.run.prog
	return p.methodByName(t, nil, "MarshalJSON") != nil || p.methodByName(t, nil, "MarshalText") != nil
}

func (ex *Exec) encodeList(g *gor, codec string, el types.Type, s []value) (*node, value) {
	n := &node{k: "list", list: []*node{}}
	for _, e := range s {
		x, err := ex.encode(g, codec, el, e)
		if err != nil {
			return nil, err
		}
		n.list = append(n.list, x)
	}
	return n, nil
}

// yearStart gives the seconds from the start of year 1 to the start of year y.
func yearStart(y int) int64 {
	d := int64(y - 1)
	return (d*365 + d/4 - d/100 + d/400) * 86400
}

func (ex *Exec) jsonMarshaler(g *gor, t types.Type, v value) (*node, value, bool) {
	p := ex.w.run.prog
	if fn := p.methodByName(t, nil, "MarshalJSON"); fn != nil && fn.Signature.Results().Len() == 2 {
		r := ex.callSSA(g, fn, []value{copyVal(v)}, nil).(tuple)
		if !isNilPtr(r[1]) {
			return nil, r[1], true
		}
		b, _ := r[0].([]value)
		n, err := ex.jsonParse(b)
		if err != nil {
			return nil, err, true
		}
		return n, nil, true
	}
	if fn := p.methodByName(t, nil, "MarshalText"); fn != nil && fn.Signature.Results().Len() == 2 {
		if isNamed(t, "net/netip", "Addr") || isNamed(t, "net/netip", "AddrPort") {
			if sf := p.methodByName(t, nil, "String"); sf != nil && !isZeroConc(v) {
				s := ex.callSSA(g, sf, []value{copyVal(v)}, nil)
				return &node{k: "str", v: s}, nil, true
			}
		}
		r := ex.callSSA(g, fn, []value{copyVal(v)}, nil).(tuple)
		if !isNilPtr(r[1]) {
			return nil, r[1], true
		}
		b, _ := r[0].([]value)
		return &node{k: "str", v: mkStr(b)}, nil, true
	}
	return nil, nil, false
}

func isZeroConc(v value) bool {
	switch x := v.(type) {
	case uint64:
		return x == 0
	case bool:
		return !x
	case string:
		return x == ""
	case structure:
		for _, e := range x {
			if !isZeroConc(e) {
				return false
			}
		}
		return true
	case array:
		for _, e := range x {
			if !isZeroConc(e) {
				return false
			}
		}
		return true
	}
	return isNilPtr(v)
}

// jsonParse reads a document from byte cells.
func (ex *Exec) jsonParse(b []value) (*node, value) {
	var bl *blob
	var rest []byte
	other := false
	for _, e := range b {
		switch x := e.(type) {
		case *blob:
			if bl != nil {
				return nil, ex.newError("invalid character after top-level value")
			}
			bl = x
		case uint64:
			if bl != nil && x != '\n' && x != ' ' {
				return nil, ex.newError("invalid character after top-level value")
			}
			rest = append(rest, byte(x))
		default:
			other = true
		}
	}
	if bl != nil && !other {
		if bl.codec != "json" {
			return nil, ex.newError("invalid JSON")
		}
		return bl.v.(*node), nil
	}
	if other {
		// a quoted symbolic string
		if n := len(b); n >= 2 {
			f, ok1 := b[0].(uint64)
			l, ok2 := b[n-1].(uint64)
			if ok1 && ok2 && f == '"' && l == '"' {
				return &node{k: "str", v: mkStr(b[1 : n-1])}, nil
			}
		}
		panic(unsupported("symbolic JSON text"))
	}
	dec := json.NewDecoder(bytes.NewReader(rest))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, ex.newError("json: " + err.Error())
	}
	if _, err := dec.Token(); err == nil {
		return nil, ex.newError("invalid character after top-level value")
	}
	return nativeNode(v), nil
}

func nativeNode(v any) *node {
	switch x := v.(type) {
	case nil:
		return &node{k: "null"}
	case bool:
		return &node{k: "bool", v: x}
	case string:
		return &node{k: "str", v: x}
	case json.Number:
		if b, ok := new(big.Int).SetString(x.String(), 10); ok {
			if b.IsUint64() {
				return &node{k: "num", v: b.Uint64(), w: 64}
			}
			if b.IsInt64() {
				return &node{k: "num", v: uint64(b.Int64()), w: 64, signed: true}
			}
		}
		f, _ := x.Float64()
		return &node{k: "float", v: f}
	case []any:
		n := &node{k: "list", list: []*node{}}
		for _, e := range x {
			n.list = append(n.list, nativeNode(e))
		}
		return n
	case map[string]any:
		n := &node{k: "map"}
		for k, e := range x {
			n.keys = append(n.keys, k)
			n.list = append(n.list, nativeNode(e))
		}
		return n
	}
	panic(unsupported("JSON value"))
}

// decode stores the document into *dst of type t; it returns an error value or nil.
func (ex *Exec) decode(g *gor, codec string, n *node, t types.Type, dst *value) value {
	c := ex.ctx
	mismatch := func() value {
		return ex.newError(codec + ": cannot unmarshal " + n.k + " into Go value of type " + types.TypeString(t, nil))
	}
	prog := ex.w.run.prog
	if isNamed(t, "time", "Time") {
		switch {
		case n.k == "null":
			return nil
		case n.inst != nil:
			store(dst, ex.mkTime(n.inst))
			return nil
		case codec == "cbor" && (n.k == "num" || n.k == "big"):
			sec := ex.nodeBig(n)
			sec = c.Extract(sec, timeW-1, 0)
			ns := c.Bin(OpMul, c.Bin(OpAdd, sec, ex.tconst(bigInt(unixToYear1))), ex.tconst(nsPerSec))
			store(dst, ex.mkTime(ns))
			return nil
		}
		if n.k == "str" {
			panic(unsupported("parsing of a time string"))
		}
		return mismatch()
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == "null" {
			*dst = (*value)(nil)
			return nil
		}
		q, _ := (*dst).(*value)
		if q == nil {
			q = new(value)
			*q = zero(p.Elem())
		}
		if err := ex.decode(g, codec, n, p.Elem(), q); err != nil {
			return err
		}
		*dst = q
		return nil
	}
	if isNamed(t, "math/big", "Int") {
		switch n.k {
		case "null":
			return nil
		case "num", "big":
			ex.setBig(dst, ex.nodeBig(n))
			return nil
		}
		return mismatch()
	}
	if isNamed(t, "encoding/json", "RawMessage") {
		*dst = []value{&blob{codec: "json", v: n}}
		return nil
	}
	if codec == "json" {
		pt := types.NewPointer(t)
		if fn := prog.methodByName(pt, nil, "UnmarshalJSON"); fn != nil {
			r := ex.callSSA(g, fn, []value{dst, []value{&blob{codec: "json", v: n}}}, nil)
			if !isNilPtr(r) {
				return r
			}
			return nil
		}
		if n.k == "null" {
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Interface:
				*dst = zero(t)
			}
			return nil
		}
		if fn := prog.methodByName(pt, nil, "UnmarshalText"); fn != nil {
			if n.k != "str" {
				return mismatch()
			}
			if o, ok := n.v.(*opaqueStr); ok {
				if isNamed(t, "net/netip", "Addr") && o.kind == "netip.Addr" || isNamed(t, "net/netip", "AddrPort") && o.kind == "netip.AddrPort" {
					store(dst, o.payload[0])
					return nil
				}
				panic(unsupported("text decoding of rendered string " + o.kind))
			}
			r := ex.callSSA(g, fn, []value{dst, strBytes(n.v)}, nil)
			if !isNilPtr(r) {
				return r
			}
			return nil
		}
	} else {
		if n.k == "null" {
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Interface:
				*dst = zero(t)
			}
			return nil
		}
		pt := types.NewPointer(t)
		if fn := prog.methodByName(pt, nil, "UnmarshalCBOR"); fn != nil {
			panic(unsupported("UnmarshalCBOR of " + t.String()))
		}
		if fn := prog.methodByName(pt, nil, "UnmarshalBinary"); fn != nil {
			if n.k != "bytes" {
				return mismatch()
			}
			r := ex.callSSA(g, fn, []value{dst, append([]value{}, n.v.([]value)...)}, nil)
			if !isNilPtr(r) {
				return r
			}
			return nil
		}
	}
	if w, signed, ok := intInfo(t); ok {
		if n.k != "num" && n.k != "big" {
			return mismatch()
		}
		if n.k == "num" && n.w == w && n.signed == signed {
			*dst = n.v
			return nil
		}
		b := ex.nodeBig(n)
		low := c.Extract(b, w-1, 0)
		var back *Term
		if signed {
			back = c.SExt(low, bigW)
		} else {
			back = c.ZExt(low, bigW)
		}
		if !ex.decide(c.Eq(back, b)) {
			return mismatch()
		}
		*dst = fromTerm(low)
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0 && n.k == "bool":
			*dst = n.v
			return nil
		case u.Info()&types.IsString != 0 && n.k == "str":
			if codec == "cbor" {
				if !ex.validUTF8(g, n.v) {
					return ex.newError("cbor: invalid UTF-8 string")
				}
			}
			*dst = n.v
			return nil
		case u.Info()&types.IsFloat != 0 && n.k == "float":
			*dst = n.v
			return nil
		}
		return mismatch()
	case *types.Interface:
		return ex.decodeAny(g, n, dst)
	case *types.Slice:
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			if n.k == "bytes" {
				*dst = append([]value{}, n.v.([]value)...)
				return nil
			}
			if n.k == "str" && codec == "json" {
				panic(unsupported("base64 text"))
			}
		}
		if n.k != "list" {
			return mismatch()
		}
		r := make([]value, len(n.list))
		var first value
		for i, e := range n.list {
			r[i] = zero(u.Elem())
			if err := ex.decode(g, codec, e, u.Elem(), &r[i]); err != nil && first == nil {
				first = err
			}
		}
		*dst = r
		return first
	case *types.Array:
		a := (*dst).(array)
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 && n.k == "bytes" {
			s := n.v.([]value)
			for i := range a {
				if i < len(s) {
					a[i] = s[i]
				} else {
					a[i] = uint64(0)
				}
			}
			return nil
		}
		if n.k != "list" {
			return mismatch()
		}
		var first value
		for i := range a {
			if i < len(n.list) {
				if err := ex.decode(g, codec, n.list[i], u.Elem(), &a[i]); err != nil && first == nil {
					first = err
				}
			} else {
				store(&a[i], zero(u.Elem()))
			}
		}
		return first
	case *types.Map:
		if n.k != "map" {
			return mismatch()
		}
		m, _ := (*dst).(*mapObj)
		if m == nil {
			m = newMap(u.Key())
			*dst = m
		}
		for i, k := range n.keys {
			cell := zero(u.Elem())
			if err := ex.decode(g, codec, n.list[i], u.Elem(), &cell); err != nil {
				return err
			}
			ex.mapSet(m, k, cell)
		}
		return nil
	case *types.Struct:
		if n.k != "map" {
			return mismatch()
		}
		st := (*dst).(structure)
		fs := codecFields(u, codec)
		var first value
		for i, k := range n.keys {
			fi := -1
			for j, f := range fs {
				if f.name == k {
					fi = j
				}
			}
			if fi < 0 && !strings.HasPrefix(k, "#") {
				for j, f := range fs {
					if strings.EqualFold(f.name, k) {
						fi = j
						break
					}
				}
			}
			if fi < 0 {
				continue
			}
			el := n.list[i]
			if fs[fi].asStr && el.raw != nil {
				el = el.raw
			}
			if err := ex.decode(g, codec, el, fs[fi].typ, &st[fs[fi].idx]); err != nil && first == nil {
				first = err
			}
		}
		return first
	}
	return mismatch()
}

func (ex *Exec) decodeAny(g *gor, n *node, dst *value) value {
	anyT := types.NewInterfaceType(nil, nil)
	mk := func(t types.Type, v value) value { *dst = iface{t: t, v: v}; return nil }
	switch n.k {
	case "null":
		*dst = iface{}
		return nil
	case "bool":
		return mk(types.Typ[types.Bool], n.v)
	case "str":
		return mk(types.Typ[types.String], n.v)
	case "num", "big":
		b := ex.nodeBig(n)
		if b.isConst() {
			f, _ := new(big.Float).SetInt(bigSigned(b.bigv(), bigW)).Float64()
			return mk(types.Typ[types.Float64], f)
		}
		return mk(types.Typ[types.Float64], &symFloat{op: "int", t: c64(ex, b)})
	case "float":
		return mk(types.Typ[types.Float64], n.v)
	case "list":
		r := make([]value, len(n.list))
		for i := range n.list {
			r[i] = iface{}
			if e := ex.decodeAny(g, n.list[i], &r[i]); e != nil {
				return e
			}
		}
		return mk(types.NewSlice(anyT), r)
	case "map":
		m := newMap(types.Typ[types.String])
		for i, k := range n.keys {
			var v value = iface{}
			if e := ex.decodeAny(g, n.list[i], &v); e != nil {
				return e
			}
			ex.mapSet(m, k, v)
		}
		return mk(types.NewMap(types.Typ[types.String], anyT), m)
	}
	panic(unsupported("decoding of " + n.k))
}

func c64(ex *Exec, b *Term) *Term { return ex.ctx.Extract(b, 63, 0) }

func (ex *Exec) nodeBig(n *node) *Term {
	if n.k == "big" {
		return n.v.(*Term)
	}
	t := ex.term(n.v, n.w)
	if n.signed {
		return ex.ctx.SExt(t, bigW)
	}
	return ex.ctx.ZExt(t, bigW)
}

func (ex *Exec) validUTF8(g *gor, v value) bool {
	switch x := v.(type) {
	case string:
		return utf8.ValidString(x)
	case *opaqueStr:
		return true
	case *symStr:
		fn := ex.w.run.prog.fnOf("unicode/utf8", "ValidString")
		if fn == nil {
			panic(unsupported("utf8.ValidString not loaded"))
		}
		return ex.truth(ex.callSSA(g, fn, []value{x}, nil))
	}
	panic(unsupported(fmt.Sprintf("utf8 of %T", v)))
}

func (ex *Exec) unmarshal(c *icall, codec string, data []value, target value) value {
	iv, ok := target.(iface)
	if !ok || iv.t == nil {
		return ex.newError(codec + ": Unmarshal(nil)")
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	if !ok || isNilPtr(iv.v) {
		return ex.newError(codec + ": Unmarshal(non-pointer or nil)")
	}
	var n *node
	if codec == "json" {
		var e value
		n, e = ex.jsonParse(data)
		if e != nil {
			return e
		}
	} else {
		if len(data) == 0 {
			return ex.newError("EOF")
		}
		b, ok := data[0].(*blob)
		if !ok {
			for _, e := range data {
				if _, conc := e.(uint64); !conc {
					panic(unsupported("CBOR decoding of symbolic bytes"))
				}
			}
			panic(unsupported("CBOR decoding of foreign bytes"))
		}
		if b.codec != codec || len(data) != 1 {
			return ex.newError("cbor: extraneous data")
		}
		n = b.v.(*node)
	}
	if e := ex.decode(c.g, codec, n, pt.Elem(), asPtr(iv.v)); e != nil {
		return e
	}
	return nilErr
}

func init() {
	const cb = "github.com/fxamacker/cbor/v2"
	marshal := func(codec string) intrinsic {
		return func(c *icall) value {
			iv := c.args[0].(iface)
			if iv.t == nil {
				return tuple{[]value{&blob{codec: codec, v: &node{k: "null"}}}, nilErr}
			}
			n, e := c.ex.encode(c.g, codec, iv.t, iv.v)
			if e != nil {
				return tuple{[]value(nil), e}
			}
			return tuple{[]value{&blob{codec: codec, v: n}}, nilErr}
		}
	}
	reg(cb+".Marshal", marshal("cbor"))
	reg(cb+".Unmarshal", func(c *icall) value {
		d, _ := c.args[0].([]value)
		return c.ex.unmarshal(c, "cbor", d, c.args[1])
	})
	reg("encoding/json.Marshal", marshal("json"))
	reg("encoding/json.MarshalIndent", marshal("json"))
	reg("encoding/json.Unmarshal", func(c *icall) value {
		d, _ := c.args[0].([]value)
		return c.ex.unmarshal(c, "json", d, c.args[1])
	})
	reg("encoding/json.Valid", func(c *icall) value {
		d, _ := c.args[0].([]value)
		_, e := c.ex.jsonParse(d)
		return e == nil
	})
	reg("encoding/json.NewEncoder", func(c *icall) value { return &host{kind: "jsonenc", obj: c.args[0]} })
	reg("(*encoding/json.Encoder).SetIndent", func(c *icall) value { return nil })
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(c *icall) value { return nil })
	reg("(*encoding/json.Encoder).Encode", func(c *icall) value {
		w := c.args[0].(*host).obj.(iface)
		iv := c.args[1].(iface)
		n := &node{k: "null"}
		if iv.t != nil {
			var e value
			n, e = c.ex.encode(c.g, "json", iv.t, iv.v)
			if e != nil {
				return e
			}
		}
		r, ok := c.ex.callMethod(c.g, w, "Write", []value{&blob{codec: "json", v: n}, uint64('\n')})
		if !ok {
			panic(unsupported("json encoder target"))
		}
		return r.(tuple)[1]
	})
}

// nodeEq builds the condition that two documents of the same encoding are equal.
func (ex *Exec) nodeEq(a, b *node) *Term {
	c := ex.ctx
	if a == b {
		return c.T
	}
	if a.raw != nil && b.raw != nil {
		return ex.nodeEq(a.raw, b.raw)
	}
	if a.k != b.k || (a.raw != nil) != (b.raw != nil) {
		if a.k == "null" || b.k == "null" {
			return c.F
		}
		panic(unsupported("comparison of encodings of different kinds"))
	}
	switch a.k {
	case "null":
		return c.T
	case "bool":
		return c.Eq(ex.boolTerm(a.v), ex.boolTerm(b.v))
	case "num":
		if a.w != b.w || a.signed != b.signed {
			panic(unsupported("comparison of encodings of different numbers"))
		}
		return c.Eq(ex.term(a.v, a.w), ex.term(b.v, b.w))
	case "big":
		return c.Eq(ex.term(a.v, bigW), ex.term(b.v, bigW))
	case "bytes":
		return ex.bytesEq(a.v.([]value), b.v.([]value))
	case "str":
		if a.inst != nil && b.inst != nil {
			return c.Eq(a.inst, b.inst)
		}
		return ex.strEq(a.v, b.v)
	case "list", "map":
		if len(a.list) != len(b.list) {
			return c.F
		}
		r := c.T
		for i := range a.list {
			if a.k == "map" && a.keys[i] != b.keys[i] {
				return c.F
			}
			r = c.And(r, ex.nodeEq(a.list[i], b.list[i]))
			if r == c.F {
				return r
			}
		}
		return r
	}
	panic(unsupported("comparison of encodings of " + a.k))
}
