package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one of:
//   bool | *Term(w=0)            booleans
//   uint64 | *Term               integers of any width (concrete ones are masked to their width)
//   float64 | *symFloat          floats
//   string | *symStr | *opaqueStr
//   *value                       pointers (nil *value is the nil pointer)
//   *host                        pointers to engine-side objects
//   structure, array             aggregates (by value)
//   []value                      slices
//   *mapObj, *chanObj, *closure, *ssa.Function, *ssa.Builtin
//   iface                        interfaces
//   tuple                        multiple results
type value any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // nil for a nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// nativeFn is a function value implemented by the engine.
type nativeFn struct {
	name string
	f    func(g *gor, args []value) value
}

// host is an engine-side object behind a pointer.
type host struct {
	kind string
	obj  any
}

type symStr struct {
	b []value
}

// opaqueStr is a string with unknown bytes that is an injective rendering of its payload.
type opaqueStr struct {
	kind    string
	payload []value
}

type symFloat struct {
	op string // "int", "log2", "ceillog2"
	t  *Term
}

// blob is a cell standing for the whole encoding of a value tree (CBOR, JSON, protobuf...).
type blob struct {
	codec string
	v     any
}

// poison marks a global whose initialiser could not be executed.
type poison struct{ why string }

type mapEntry struct {
	k, v value
	dead bool
}

type mapObj struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	n       int
	symN    int
	keyT    types.Type
	race    *raceInfo
}

type chanObj struct {
	buf    []value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
	elemT  types.Type
	bufvc  [][]int
	closevc []int
}

type waiter struct {
	g     *gor
	sel   int // case index in select, -1 for plain
	val   value
	ok    bool
	done  bool
	group *selGroup
}

type selGroup struct {
	fired bool
	idx   int
	val   value
	ok    bool
	closedSend bool
}

const timeW = 96

// kinds of type
type kindInfo struct {
	isInt  bool
	w      int
	signed bool
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UntypedNil:
			return iface{}
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, int(u.Len()))
		if len(a) > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case structure, array:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapObj)(nil)
	case *types.Chan:
		return (*chanObj)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		r := make(structure, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case array:
		r := make(array, len(x))
		if len(x) > 0 {
			switch x[0].(type) {
			case structure, array:
				for i, e := range x {
					r[i] = copyVal(e)
				}
			default:
				copy(r, x)
			}
		}
		return r
	}
	return v
}

// store writes v to *p keeping the identity of nested fields and elements.
func store(p *value, v value) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(x) {
			for i := range x {
				store(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(x) {
			for i := range x {
				store(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

// keyOf renders a fully concrete value as a canonical string, for map indexing.
func keyOf(v value) (string, bool) {
	var sb strings.Builder
	if keyInto(&sb, v) {
		return sb.String(), true
	}
	return "", false
}

func keyInto(sb *strings.Builder, v value) bool {
	switch x := v.(type) {
	case bool:
		if x {
			sb.WriteString("T;")
		} else {
			sb.WriteString("F;")
		}
	case uint64:
		sb.WriteString(strconv.FormatUint(x, 16))
		sb.WriteByte(';')
	case float64:
		sb.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
		sb.WriteByte(';')
	case string:
		sb.WriteString(strconv.Itoa(len(x)))
		sb.WriteByte(':')
		sb.WriteString(x)
	case structure:
		sb.WriteByte('{')
		for _, e := range x {
			if !keyInto(sb, e) {
				return false
			}
		}
		sb.WriteByte('}')
	case array:
		sb.WriteByte('[')
		for _, e := range x {
			if !keyInto(sb, e) {
				return false
			}
		}
		sb.WriteByte(']')
	case iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString(types.TypeString(x.t, nil))
		sb.WriteByte('|')
		return keyInto(sb, x.v)
	case *Term:
		if x.isConst() {
			sb.WriteString(x.bigv().Text(16))
			sb.WriteByte(';')
			return true
		}
		return false
	case *symStr, *opaqueStr, *symFloat:
		return false
	default:
		fmt.Fprintf(sb, "%p;", v)
	}
	return true
}

func showVal(v value) string {
	switch x := v.(type) {
	case *Term:
		return "<" + x.String() + ">"
	case structure:
		p := make([]string, len(x))
		for i, e := range x {
			p[i] = showVal(e)
		}
		return "{" + strings.Join(p, " ") + "}"
	case array:
		if len(x) > 8 {
			return fmt.Sprintf("[%d]array", len(x))
		}
		p := make([]string, len(x))
		for i, e := range x {
			p[i] = showVal(e)
		}
		return "[" + strings.Join(p, " ") + "]"
	case []value:
		p := make([]string, 0, len(x))
		for i, e := range x {
			if i > 8 {
				p = append(p, "...")
				break
			}
			p = append(p, showVal(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + "(" + showVal(x.v) + ")"
	case *opaqueStr:
		return "str:" + x.kind
	case *host:
		return "host:" + x.kind
	case *value:
		if x == nil {
			return "nilptr"
		}
		return fmt.Sprintf("&%s", showValShallow(*x))
	}
	return fmt.Sprintf("%v", v)
}

func showValShallow(v value) string {
	switch x := v.(type) {
	case structure:
		return fmt.Sprintf("struct%d", len(x))
	case array:
		return fmt.Sprintf("array%d", len(x))
	case *value:
		return "ptr"
	case string, uint64, bool:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T", v)
}

// ---- control flow of the host

type endKind int

const (
	endAssume endKind = iota
	endDone
	endUnsupported
	endViolation
	endSolver
	endBudget
	endExit
	endInconclusive
)

type pathEnd struct {
	kind endKind
	msg  string
}

func unsupported(msg string) pathEnd { return pathEnd{kind: endUnsupported, msg: msg} }

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     value
	trace string
}

type goexitPanic struct{}
