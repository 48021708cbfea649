package main

import (
	"flag"
	"io"
	"net"
	"net/netip"
	"os"
	"strconv"
	"strings"

	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// vpStart reads the command line.
func vpStart(args ...string) (*parameters, error) {
	vpReset(args...)
	p, err := newParameters()
	vpAssert((p == nil) == (err != nil), "either parameters or an error")
	return p, err
}

// vpReset sets the command line.
func vpReset(args ...string) {
	flag.CommandLine = flag.NewFlagSet("forkdetector", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	os.Args = append([]string{"forkdetector"}, args...)
}

// vpSeeds are the well-known seed peers of networks.
var vpSeeds = map[string][]string{
	"mainnet":  {"34.253.153.4:6868", "168.119.116.189:6868", "135.181.87.72:6868", "162.55.39.115:6868", "168.119.155.201:6868"},
	"testnet":  {"159.69.126.149:6868", "94.130.105.239:6868", "159.69.126.153:6868", "94.130.172.201:6868", "35.157.247.122:6868"},
	"stagenet": {"88.99.185.128:6868", "49.12.15.166:6868", "95.216.205.3:6868", "88.198.179.16:6868", "52.58.254.101:6868"},
}

// vpMany makes a list of n addresses.
func vpMany(n int) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, netip.AddrPortFrom(netip.AddrFrom4([4]byte{53, 7, 7, byte(i + 1)}), uint16(6000+i)).String())
	}
	return strings.Join(l, ",")
}

// VP_M05_network starts in every network and checks that everything belongs to it.
func VP_M05_network() {
	k := vpInt("network", 0, 7)
	arg := []string{"mainnet", "testnet", "stagenet", "MainNet", "TESTNET", "custom", "", "main"}[k]
	extra := []string{"", "1.2.3.4:6868", " 1.2.3.4:6868 ,5.6.7.8:1", ",,1.2.3.4:6868,", "1.2.3.4", "1.2.3.4:x", "[2001:db8::1]:6868", vpMany(6), vpMany(40)}[vpInt("peers", 0, 8)]
	args := []string{"-db", vpTempDir(), "-peers", extra}
	if k > 0 || vpBool("explicit") {
		args = append(args, "-blockchain-type", arg)
	}
	p, err := vpStart(args...)
	bad := strings.HasSuffix(extra, ".4") || strings.HasSuffix(extra, "x")
	if k >= 5 || bad {
		vpAssert(err != nil, "an unknown network or a malformed list of peers is refused")
		vpReach("refused")
		return
	}
	vpNoErr(err, "a known network is accepted")
	name := strings.ToLower(arg)
	scheme := map[string]byte{"mainnet": 'W', "testnet": 'T', "stagenet": 'S'}[name]
	vpAssert(p.scheme == scheme, "the scheme is the one of the network")
	bs, err := settings.BlockchainSettingsByTypeName(name)
	vpNoErr(err, "the network has settings")
	vpAssert(p.genesis.BlockID() == bs.Genesis.BlockID(), "the genesis block is the one of the network")
	var given []string
	for _, a := range strings.Split(extra, ",") {
		if a = strings.TrimSpace(a); a != "" {
			given = append(given, a)
		}
	}
	n := len(p.seedPeers) - len(given)
	vpAssert(n == len(vpSeeds[name]), "the network has its own seed peers")
	for i, a := range p.seedPeers {
		if i < n {
			vpAssert(a.String() == vpSeeds[name][i], "the seed peers are the ones of the network")
		} else {
			vpAssert(a.String() == given[i-n], "the given peers follow in order")
		}
	}
	// The services start with these parameters.
	reg, err := peers.NewRegistry(p.scheme, p.declaredAddress, p.versions, p.dbPath)
	vpNoErr(err, "the registry opens")
	added := reg.AppendAddresses(p.seedPeers)
	as, err := reg.TakeAvailableAddresses()
	vpNoErr(err, "addresses are handed out")
	vpAssert(len(as) == added, "every added seed peer is available")
	m := 0
	for _, a := range p.seedPeers {
		for _, b := range as {
			if b == a.AddrPort() {
				m++
			}
		}
	}
	vpAssert(m == added, "seed peers are the available addresses")
	v6 := 0
	for _, a := range p.seedPeers {
		if a.IP.To4() == nil {
			v6++
		}
	}
	vpAssert(added == len(p.seedPeers)-v6, "every IPv4 seed peer is added")
	link, err := chains.NewLinkage(p.dbPath, p.scheme, p.genesis)
	vpNoErr(err, "the store opens")
	ok, err := link.HasBlock(bs.Genesis.BlockID())
	vpNoErr(err, "blocks are looked up")
	vpAssert(ok, "the store starts with the genesis block of the network")
	vpReach("started")
}

// vpPort makes a port of n arbitrary bytes; ok tells whether it is a number.
func vpPort(name string, n int) (s string, v uint64, ok bool) {
	b := vpBytes(name, n)
	ok = n > 0
	for _, c := range b {
		vpAssume(vpAnd(c != ']', c != '%')) // These may belong to a zone.
		ok = vpAnd(ok, c >= '0', c <= '9')
		v = v*10 + uint64(c-'0')
	}
	return string(b), v, ok
}

// VP_M05_address passes addresses of all forms.
func VP_M05_address() {
	hosts := []struct {
		s    string
		ip   netip.Addr // the zero one if the host is malformed
		four bool
	}{
		{"52.1.2.3", netip.AddrFrom4([4]byte{52, 1, 2, 3}), true},
		{"0.0.0.0", netip.AddrFrom4([4]byte{}), true},
		{"255.255.255.255", netip.AddrFrom4([4]byte{255, 255, 255, 255}), true},
		{"[::ffff:52.1.2.3]", netip.AddrFrom4([4]byte{52, 1, 2, 3}), true},
		{"[::]", netip.AddrFrom16([16]byte{}), false},
		{"[2001:db8::1]", netip.AddrFrom16([16]byte{0x20, 1, 0xd, 0xb8, 15: 1}), false},
		{"[fe80::1%eth0]", netip.AddrFrom16([16]byte{0xfe, 0x80, 15: 1}).WithZone("eth0"), false},
		{"", netip.Addr{}, false},
		{"localhost", netip.Addr{}, false},
		{"256.1.2.3", netip.Addr{}, false},
		{"52.1.2", netip.Addr{}, false},
		{"52.1.2.3.4", netip.Addr{}, false},
		{"2001:db8::1", netip.Addr{}, false},
		{"[52.1.2.3]", netip.Addr{}, false},
		{" 52.1.2.3", netip.Addr{}, false},
	}
	h := hosts[vpInt("host", 0, len(hosts)-1)]
	which := vpInt("which", 0, 2)
	var s string
	var port uint64
	ok := false
	switch n := vpInt("length", 0, vpParam("n", 3)+1); n {
	case 0:
		s = h.s // no port
	default:
		ps, v, pok := vpPort("port", n-1)
		if n > 1 { // Longer ports.
			if k := vpInt("prefix", 0, 3); k > 0 {
				pre := []string{"", "3276", "655", "6553"}[k]
				ps = pre + ps
				f, _ := strconv.ParseUint(pre, 10, 64)
				for i := 1; i < n; i++ {
					f *= 10
				}
				v += f
			}
		}
		pok = vpAnd(v <= 65535, pok)
		s, port, ok = h.s+":"+ps, v, pok
	}
	if h.s == "" && !strings.Contains(s, ":") { // no address at all
		p, err := vpStart("-db", vpTempDir(), "-declared-address", "")
		vpNoErr(err, "the declared address is optional")
		vpAssert(p.declaredAddress.Empty(), "without a declared address there is none")
		_, err = vpStart("-db", vpTempDir(), "-net", "")
		vpAssert(err != nil, "the network address is mandatory")
		_, err = vpStart("-db", vpTempDir(), "-api", "")
		vpAssert(err != nil, "the API address is mandatory")
		vpReach("empty")
		return
	}
	ok = vpAnd(ok, h.ip.IsValid())
	if which > 0 {
		ok = vpAnd(ok, h.four) // The network is IPv4 only.
	}
	p, err := vpStart("-db", vpTempDir(), []string{"-api", "-net", "-declared-address"}[which], s)
	vpAssert(ok == (err == nil), "an address is refused exactly if it is malformed or not supported")
	if err != nil {
		vpReach("refused")
		return
	}
	switch which {
	case 0:
		ap, err := netip.ParseAddrPort(p.apiBind)
		vpNoErr(err, "the API address is an address")
		vpAssert(ap.Addr().Unmap() == h.ip && uint64(ap.Port()) == port, "the API address is honoured")
	case 1:
		vpAssert(vpSame(p.netBind, h.ip, port), "the network address is honoured")
		vpAssert(p.declaredAddress.Empty(), "no address is declared by default")
	case 2:
		vpAssert(vpSame(p.declaredAddress, h.ip, port), "the declared address is honoured")
		vpAssert(vpSame(p.netBind, netip.AddrFrom4([4]byte{127, 0, 0, 1}), 6868), "the network address has its default")
	}
	// The services accept the addresses.
	reg, err := peers.NewRegistry(p.scheme, p.declaredAddress, p.versions, p.dbPath)
	vpNoErr(err, "the registry accepts the declared address")
	cm := NewConnectionManager(p.scheme, p.name, p.nonce, p.declaredAddress, reg, peer.NewParent(true))
	_ = NewListener(p.netBind, p.declaredAddress, cm)
	if which == 2 && h.ip != (netip.AddrFrom4([4]byte{})) {
		vpAssert(reg.AppendAddresses([]*net.TCPAddr{{IP: h.ip.AsSlice(), Port: 6868}}) == 0, "the declared address is never dialled")
		vpReach("declared")
	}
	vpReach("accepted")
}

func vpSame(a proto.TCPAddr, ip netip.Addr, port uint64) bool {
	b, ok := netip.AddrFromSlice(a.IP)
	return vpAnd(ok && b.Unmap() == ip, uint64(a.Port) == port)
}

// VP_M05_versions passes lists of versions of arbitrary characters.
func VP_M05_versions() {
	n := vpInt("versions", 1, vpParam("n", 1))
	s := ""
	ok := true
	type ver struct{ x [3]uint64 }
	var want []ver
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		k := vpInt("parts", 1, 3)
		var w ver
		for j := 0; j < k; j++ {
			if j > 0 {
				s += "."
			}
			b := vpBytes("part", vpInt("digits", 0, vpParam("digits", 1)))
			good := len(b) > 0
			v := uint64(0)
			for _, c := range b {
				good = vpAnd(good, c >= '0', c <= '9')
				v = v*10 + uint64(c-'0')
				vpAssume(vpAnd(c != '.', c != ','))
			}
			w.x[j] = v
			ok = vpAnd(ok, good)
			s += string(b)
		}
		want = append(want, w)
	}
	if vpBool("more") { // Ordinary ones in addition.
		s += ",1.5,1.4.2,0.10.25"
		want = append(want, ver{[3]uint64{1, 5, 0}}, ver{[3]uint64{1, 4, 2}}, ver{[3]uint64{0, 10, 25}})
		n += 3
		for i := 0; i < 12; i++ {
			s += ",1." + strconv.Itoa(i)
			want = append(want, ver{[3]uint64{1, uint64(i), 0}})
			n++
		}
	}
	p, err := vpStart("-db", vpTempDir(), "-versions", s)
	vpAssert(ok == (err == nil), "versions are refused exactly if one is malformed")
	if err != nil {
		vpReach("refused")
		return
	}
	vpAssert(len(p.versions) == n, "every version is taken")
	for i, w := range want {
		v := p.versions[i]
		vpAssert(vpAnd(uint64(v.Major()) == w.x[0], uint64(v.Minor()) == w.x[1], uint64(v.Patch()) == w.x[2]), "a version is the given one")
	}
	vpReach("accepted")
}

// VP_M05_rest passes names, folders and log levels.
func VP_M05_rest() {
	dir := vpTempDir()
	if err := os.WriteFile(dir+"/file", nil, 0o600); err != nil {
		vpAssume(false)
	}
	db := []string{dir, "", dir + "/missing", dir + "/", dir + "/file", "/dev/null"}[vpInt("folder", 0, 5)]
	nameLen := []int{0, 1, 2, 255, 256}[vpInt("name", 0, 4)]
	b := vpBytes("name", min(nameLen, 2))
	name := string(b) + strings.Repeat("n", nameLen-len(b))
	level := []string{"", "DEBUG", "info", "WARN", "ERROR", "FATAL"}[vpInt("level", 0, 5)]
	args := []string{"-db", db, "-name", name}
	if level != "" {
		args = append(args, "-log-level", level)
	}
	p, err := vpStart(args...)
	good := (db == dir || db == dir+"/") && nameLen > 0 && nameLen < 256
	vpAssert(good == (err == nil), "a missing folder or a bad name is refused")
	if err != nil {
		vpReach("refused")
		return
	}
	vpAssert(p.dbPath == dir, "the folder is honoured")
	vpAssert(p.name == name, "the name is honoured")
	if level == "" {
		level = "INFO"
	}
	vpAssert(p.logLevel.CapitalString() == strings.ToUpper(level), "the log level is honoured")
	vpReach("accepted")
}
