package main

import (
	"encoding/json"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/mr-tron/base58/base58"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

const gw = "github.com/wavesplatform/gowaves/pkg/"

func concBytes(v value) ([]byte, bool) {
	var s []value
	switch x := v.(type) {
	case []value:
		s = x
	case array:
		s = x
	default:
		return nil, false
	}
	k, ok := concKey(s)
	return []byte(k), ok
}

func cells(b []byte) []value {
	r := make([]value, len(b))
	for i, x := range b {
		r[i] = uint64(x)
	}
	return r
}

func (ex *Exec) termBytes(t *Term, n int) []value {
	r := make([]value, n)
	for i := 0; i < n; i++ {
		hi := 8*(n-i) - 1
		r[i] = fromTerm(ex.ctx.Extract(t, hi, hi-7))
	}
	return r
}

func sum256(b []byte) []byte { h := blake2b.Sum256(b); return h[:] }
func keccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

func init() {
	hash := func(name string, f func([]byte) []byte) {
		reg(gw+"crypto."+name, func(c *icall) value {
			d, _ := c.args[0].([]value)
			if b, ok := concBytes(d); ok {
				return tuple{array(cells(f(b))), nilErr}
			}
			t := c.ex.bytesTerm(d)
			if t == nil {
				panic(unsupported("hash of an encoding"))
			}
			return tuple{array(c.ex.termBytes(c.ex.ctx.UF("hash_"+name, t, 256), 32)), nilErr}
		})
	}
	hash("FastHash", sum256)
	hash("SecureHash", func(b []byte) []byte { return keccak(sum256(b)) })
	hash("Keccak256", keccak)

	// encoding/binary reads slices through reflection
	reg(gw+"proto.featuresFromBinary", func(c *icall) value {
		d, _ := c.args[0].([]value)
		r := make([]value, len(d)/2)
		for i := range r {
			b, ok := concBytes(d[2*i : 2*i+2])
			if !ok {
				panic(unsupported("symbolic block features"))
			}
			r[i] = uint64(int64(int16(uint16(b[0])<<8 | uint16(b[1])))) & 0xffff
		}
		return tuple{r, nilErr}
	})

	encode := func(c *icall) value {
		d, _ := c.args[0].([]value)
		if b, ok := concBytes(d); ok {
			return base58.Encode(b)
		}
		return &opaqueStr{kind: "b58", payload: append([]value(nil), d...)}
	}
	decode := func(c *icall) value {
		switch x := c.args[0].(type) {
		case string:
			b, err := base58.Decode(x)
			if err != nil {
				return tuple{[]value(nil), c.ex.newError(err.Error())}
			}
			return tuple{cells(b), nilErr}
		case *opaqueStr:
			if x.kind == "b58" {
				return tuple{append([]value{}, x.payload...), nilErr}
			}
		}
		panic(unsupported("base58 decoding of a symbolic string"))
	}
	for _, p := range []string{"github.com/mr-tron/base58/base58", "github.com/mr-tron/base58"} {
		reg(p+".Encode", encode)
		reg(p+".Decode", decode)
		reg(p+".FastBase58Encoding", encode)
		reg(p+".FastBase58Decoding", decode)
	}
	reg(gw+"util/common.ToBase58JSON", func(c *icall) value {
		d, _ := c.args[0].([]value)
		if b, ok := concBytes(d); ok {
			return cells([]byte("\"" + base58.Encode(b) + "\""))
		}
		return []value{&blob{codec: "json", v: &node{k: "str", v: &opaqueStr{kind: "b58", payload: append([]value(nil), d...)}}}}
	})
	reg(gw+"util/common.FromBase58JSONUnchecked", func(c *icall) value {
		d, _ := c.args[0].([]value)
		n, e := c.ex.jsonParse(d)
		if e != nil {
			return tuple{[]value(nil), e}
		}
		if n.k == "null" {
			return tuple{[]value(nil), nilErr}
		}
		if n.k != "str" {
			return tuple{[]value(nil), c.ex.newError("failed to unmarshal from JSON")}
		}
		cc := *c
		cc.args = []value{n.v}
		return decode(&cc)
	})
	short := func(c *icall) value {
		if _, ok := keyOf(c.args[0]); ok {
			c.skip = true
			return nil
		}
		return &opaqueStr{kind: "short", payload: []value{c.args[0]}}
	}
	reg("("+gw+"crypto.Digest).ShortString", short)
	reg("("+gw+"crypto.Signature).ShortString", short)
	reg("("+gw+"proto.BlockID).ShortString", short)

	// renderings of network addresses and versions: injective, opaque when symbolic
	render := func(name, kind string) {
		reg(name, func(c *icall) value {
			v := c.args[0]
			if p, ok := v.(*value); ok {
				if p == nil {
					c.skip = true
					return nil
				}
				v = *p
			}
			if deepConc(v) {
				c.skip = true
				return nil
			}
			return &opaqueStr{kind: kind, payload: []value{copyVal(v)}}
		})
	}
	render("(net/netip.Addr).String", "netip.Addr")
	render("(net/netip.AddrPort).String", "netip.AddrPort")
	render("(*net.TCPAddr).String", "net.TCPAddr")
	render("(net.IP).String", "net.IP")
	render("("+gw+"proto.TCPAddr).String", "proto.TCPAddr")
	render("("+gw+"proto.HandshakeTCPAddr).String", "proto.HandshakeTCPAddr")
	render("("+gw+"proto.Version).String", "proto.Version")
	parse := func(name, kind string) {
		reg(name, func(c *icall) value {
			o, ok := c.args[len(c.args)-1].(*opaqueStr)
			if !ok {
				c.skip = true
				return nil
			}
			if o.kind != kind {
				panic(unsupported("parsing of rendered string " + o.kind))
			}
			if c.fn.Signature.Results().Len() == 1 {
				return copyVal(o.payload[0])
			}
			return tuple{copyVal(o.payload[0]), nilErr}
		})
	}
	parse("net/netip.ParseAddr", "netip.Addr")
	parse("net/netip.ParseAddrPort", "netip.AddrPort")
	parse(gw+"proto.NewVersionFromString", "proto.Version")
	parse(gw+"proto.NewTCPAddrFromString", "proto.TCPAddr")
	reg("net.SplitHostPort", func(c *icall) value {
		if o, ok := c.args[0].(*opaqueStr); ok {
			panic(unsupported("splitting of rendered string " + o.kind))
		}
		c.skip = true
		return nil
	})
	// ParseAddrPort accepts what (*net.TCPAddr).String renders for addresses without zones
	intrinsics["net/netip.ParseAddrPort"] = func(c *icall) value {
		o, ok := c.args[0].(*opaqueStr)
		if !ok {
			c.skip = true
			return nil
		}
		switch o.kind {
		case "netip.AddrPort":
			return tuple{copyVal(o.payload[0]), nilErr}
		case "net.TCPAddr", "proto.TCPAddr", "proto.HandshakeTCPAddr":
			ta := o.payload[0].(structure)
			ip, _ := ta[0].([]value)
			if len(ip) != 4 && len(ip) != 16 {
				return tuple{zero(c.ex.namedType("net/netip", "AddrPort")), c.ex.newError("no IP address")}
			}
			port := c.ex.term(ta[1], 64)
			if !c.ex.truth(fromTerm(c.ex.ctx.Cmp(OpULt, port, c.ex.ctx.Const(64, 65536)))) {
				return tuple{zero(c.ex.namedType("net/netip", "AddrPort")), c.ex.newError("invalid port")}
			}
			fn := c.ex.w.run.prog.methodByName(types.NewPointer(c.ex.namedType("net", "TCPAddr")), nil, "AddrPort")
			p := new(value)
			*p = copyVal(o.payload[0])
			ap := c.ex.callSSA(c.g, fn, []value{p}, nil).(structure)
			// the rendering of an IPv4-mapped address is the IPv4 one
			um := c.ex.w.run.prog.methodByName(c.ex.namedType("net/netip", "Addr"), nil, "Unmap")
			ad := c.ex.callSSA(c.g, um, []value{ap[0]}, nil)
			return tuple{structure{ad, ap[1]}, nilErr}
		}
		panic(unsupported("parsing of rendered string " + o.kind))
	}
}

func init() {
	reg("unicode/utf8.ValidString", func(c *icall) value {
		if o, ok := c.args[0].(*opaqueStr); ok {
			if o.kind == "fmt" {
				panic(unsupported("validity of a formatted string"))
			}
			return true // All other renderings are plain ASCII.
		}
		c.skip = true
		return nil
	})
}

// deepConc reports whether a value contains no symbolic scalars.
func deepConc(v value) bool {
	switch x := v.(type) {
	case *Term:
		return x.isConst()
	case *symStr, *opaqueStr, *symFloat:
		return false
	case structure:
		for _, e := range x {
			if !deepConc(e) {
				return false
			}
		}
	case array:
		for _, e := range x {
			if !deepConc(e) {
				return false
			}
		}
	case []value:
		for _, e := range x {
			if !deepConc(e) {
				return false
			}
		}
	}
	return true
}

var _ = big.NewInt

func structField(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field " + name + " in " + t.String()))
}

// setPath assigns a field of nested structures.
func setPath(t types.Type, v value, x value, path ...string) {
	for _, p := range path[:len(path)-1] {
		i := structField(t, p)
		v, t = v.(structure)[i], t.Underlying().(*types.Struct).Field(i).Type()
	}
	v.(structure)[structField(t, path[len(path)-1])] = x
}

func init() {
	// The embedded settings of a network: type, scheme and the header of the genesis block, read from the module's JSON.
	reg(gw+"settings.mustLoadEmbeddedSettings", func(c *icall) value {
		names := []string{"mainnet", "testnet", "stagenet"}
		k, ok := c.args[0].(uint64)
		if !ok || k >= uint64(len(names)) {
			panic(unsupported("settings of an unknown network"))
		}
		prog := c.ex.w.run.prog
		sp := prog.pkgs[gw+"settings"]
		dir := filepath.Dir(sp.Prog.Fset.Position(sp.Func("mustLoadEmbeddedSettings").Pos()).Filename)
		data, err := os.ReadFile(filepath.Join(dir, "embedded", names[k]+".json"))
		if err != nil {
			panic(unsupported(err.Error()))
		}
		var js struct {
			Scheme  uint64 `json:"address_scheme_character"`
			Type    uint64 `json:"type"`
			Genesis struct {
				Version   uint64 `json:"version"`
				Timestamp uint64 `json:"timestamp"`
				Reference string `json:"reference"`
				Signature string `json:"signature"`
				Consensus struct {
					BaseTarget uint64 `json:"base-target"`
				} `json:"nxt-consensus"`
			} `json:"genesis"`
		}
		if err := json.Unmarshal(data, &js); err != nil {
			panic(unsupported(err.Error()))
		}
		id := func(s string) ([]value, value) {
			b, err := base58.Decode(s)
			if err != nil || len(b) != 64 {
				panic(unsupported("genesis of " + names[k]))
			}
			fn := prog.pkgs[gw+"proto"].Func("NewBlockIDFromSignature")
			return cells(b), c.ex.callSSA(c.g, fn, []value{array(cells(b))}, nil)
		}
		t := c.ex.namedType(gw+"settings", "BlockchainSettings")
		s := zero(t)
		g := &js.Genesis
		setPath(t, s, js.Type, "Type")
		setPath(t, s, js.Scheme, "FunctionalitySettings", "AddressSchemeCharacter")
		h := []string{"Genesis", "BlockHeader"}
		set := func(x value, p ...string) { setPath(t, s, x, append(append([]string{}, h...), p...)...) }
		set(g.Version, "Version")
		set(g.Timestamp, "Timestamp")
		_, ref := id(g.Reference)
		set(ref, "Parent")
		sig, sid := id(g.Signature)
		set(array(sig), "BlockSignature")
		set(sid, "ID")
		set(g.Consensus.BaseTarget, "NxtConsensus", "BaseTarget")
		p := new(value)
		*p = s
		return p
	})
	// Quoted strings only get into messages of errors.
	reg("strconv.Quote", func(c *icall) value {
		switch c.args[0].(type) {
		case *symStr, *opaqueStr:
			return &opaqueStr{kind: "quote", payload: []value{c.args[0]}}
		}
		c.skip = true
		return nil
	})
	reg("math/rand/v2.runtime_rand", func(c *icall) value { return uint64(0x5eed5eed5eed5eed) })
	// The file system has the temporary folders of the harness with an ordinary file in each, and a device.
	reg("os.WriteFile", func(c *icall) value {
		if name, ok := c.args[0].(string); !ok || !strings.HasPrefix(name, "/vp/tmp") || filepath.Base(name) != "file" {
			panic(unsupported("writing of a file"))
		}
		return nilErr
	})
	reg("os.Stat", func(c *icall) value {
		name, ok := c.args[0].(string)
		if !ok {
			panic(unsupported("a symbolic file name"))
		}
		ft := c.ex.namedType("os", "fileStat")
		res := func(mode uint64) value {
			s := zero(ft)
			setPath(ft, s, filepath.Base(name), "name")
			setPath(ft, s, mode, "mode")
			p := new(value)
			*p = s
			return tuple{iface{t: types.NewPointer(ft), v: p}, nilErr}
		}
		clean := filepath.Clean(name)
		switch {
		case strings.HasPrefix(clean, "/vp/tmp") && !strings.Contains(clean[len("/vp/tmp"):], "/"):
			return res(uint64(os.ModeDir | 0o755))
		case strings.HasPrefix(clean, "/vp/tmp") && filepath.Base(clean) == "file":
			return res(0o644)
		case clean == "/dev/null":
			return res(uint64(os.ModeDevice | os.ModeCharDevice | 0o666))
		}
		return tuple{zero(c.ex.namedType("io/fs", "FileInfo")), c.ex.globalVal(c.g, "io/fs", "ErrNotExist")}
	})
}
