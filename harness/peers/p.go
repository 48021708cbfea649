package peers

import (
	"math/big"
	"net"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// op performs one of the registry's operations.
func (m *vpReg) op(ops int) {
	i := 0
	if len(m.recs) > 1 {
		i = vpInt("peer", 0, len(m.recs)-1)
	}
	switch vpInt("op", 0, ops) {
	case 0:
		m.suggest(i)
	case 1:
		hs := vpHandshake("wavesW", m.okVersion(i), vpNames[vpInt("name", 0, len(vpNames)-1)], vpU64("nonce"))
		if vpInt("declared", 0, 1) == 1 {
			hs.DeclaredAddr = proto.HandshakeTCPAddr(*vpTCP(vpAddr(i), 6863))
		}
		m.connect(i, hs)
	case 2:
		m.connect(i, vpHandshake("wavesT", m.okVersion(i), "other", 5))
	case 3:
		m.unregister(i)
	case 4:
		m.score(i, new(big.Int).SetUint64(vpU64("score")))
	case 5:
		m.gossip(i, 6868)
	case 6:
		m.take()
	case 7:
		vpAdvance([]time.Duration{599500 * time.Millisecond, 600 * time.Second, 1500 * time.Millisecond}[vpInt("time", 0, 2)])
	case 8:
		m.hostile(i)
	case 9:
		m.connect(i, vpHandshake("wavesW", proto.NewVersion(1, 9, 0), "far", 5))
	case 10:
		m.reopen()
	}
}

// okVersion is the version the peer will be offered.
func (m *vpReg) okVersion(i int) proto.Version {
	c := &m.recs[i]
	if !c.known {
		return proto.NewVersion(1, 5, 0)
	}
	if c.state == PeerUnknown {
		return vpNextVersion(c.version)
	}
	return c.version
}

// VP_P05_history compares all records and listings with the model after every history of n operations.
func VP_P05_history() {
	m := vpNewReg(2)
	if vpParam("prior", 0) == 1 {
		m.prior(0)
	}
	for i := 0; i < vpParam("n", 2); i++ {
		m.op(vpParam("ops", 10))
	}
	m.check()
	for i := range m.recs {
		switch {
		case m.recs[i].connected != nil:
			vpReach("connected")
		case m.recs[i].state == PeerHostile:
			vpReach("hostile")
		case m.recs[i].known:
			vpReach("unknown")
		}
	}
	m.reopen()
	m.check()
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P04_dial hands out addresses in any history of n operations.
func VP_P04_dial() {
	m := vpNewReg(vpParam("peers", 2))
	for i := range m.recs {
		if i == 0 && vpParam("prior", 0) == 1 {
			m.prior(0)
		} else if vpInt("known", 0, 1) == 1 {
			m.gossip(i, 6868)
		}
	}
	for i := 0; i < vpParam("n", 2); i++ {
		m.op(9)
	}
	m.take()
	m.take()
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P04_self never hands out our own address or one without a port.
func VP_P04_self() {
	dir := vpTempDir()
	r, err := NewRegistry(vpScheme, proto.TCPAddr{}, vpVersions, dir)
	vpNoErr(err, "the registry opens")
	port := int(vpU16("port"))
	r.AppendAddresses([]*net.TCPAddr{vpTCP(vpSelf(), 6868), vpTCP(vpAddr(0), port), vpTCP(vpAddr(1), 1)})
	vpNoErr(r.Close(), "the registry closes")
	r, err = NewRegistry(vpScheme, vpDeclared(), vpVersions, dir)
	vpNoErr(err, "the registry opens")
	as, err := r.TakeAvailableAddresses()
	vpNoErr(err, "available addresses are handed out")
	n := 1
	if port != 0 {
		n = 2
		vpReach("port")
	}
	vpAssert(len(as) == n, "own addresses and addresses without a port are not handed out")
	for _, a := range as {
		vpAssert(a.Addr() != vpSelf() && a.Port() != 0, "own addresses and addresses without a port are not handed out")
	}
	vpNoErr(r.Close(), "the registry closes")
}

// VP_P03_hostile tries to rehabilitate a hostile peer with any n operations.
func VP_P03_hostile() {
	m := vpNewReg(1)
	var c *vpPeer
	switch vpInt("how", 0, 7) {
	case 0:
		m.hostile(0)
	case 6: // hostile with a known port
		m.gossip(0, 6868)
		m.connect(0, vpHandshake("wavesT", proto.NewVersion(1, 5, 0), "other", 5))
	case 7:
		hs := vpHandshake("wavesW", proto.NewVersion(1, 5, 0), "ok", 5)
		hs.DeclaredAddr = proto.HandshakeTCPAddr(*vpTCP(vpAddr(0), 6863))
		m.connect(0, hs)
		m.unregister(0)
		m.connect(0, vpHandshake("wavesW", proto.NewVersion(1, 9, 0), "far", 5))
	case 1:
		m.connect(0, vpHandshake("wavesT", proto.NewVersion(1, 5, 0), "other", 5))
	case 2:
		m.connect(0, vpHandshake("wavesW", proto.NewVersion(2, 5, 0), "other", 5))
	case 3:
		m.gossip(0, 6868)
		m.connect(0, vpHandshake("wavesW", proto.NewVersion(1, 5, 0), "ok", 5))
		m.unregister(0)
		m.connect(0, vpHandshake("wavesT", proto.NewVersion(1, 5, 0), "other", 5))
	case 4:
		c = m.connect(0, vpHandshake("wavesW", proto.NewVersion(1, 5, 0), "ok", 5))
		m.connect(0, vpHandshake("wavesT", proto.NewVersion(1, 5, 0), "other", 5))
	case 5:
		c = m.connect(0, vpHandshake("wavesW", proto.NewVersion(1, 5, 0), "ok", 5))
		m.hostile(0)
	}
	if c != nil {
		vpAssert(c.closed > 0, "the connection of a peer that became hostile is closed")
	}
	for i := 0; i < vpParam("n", 2); i++ {
		m.op(10)
		p, err := m.r.Peer(vpAddr(0))
		vpNoErr(err, "a hostile peer is remembered")
		vpAssert(p.State == PeerHostile, "a hostile peer stays hostile")
		_, err = m.r.SuggestVersion(vpAddr(0))
		vpAssert(err != nil, "a hostile peer is never offered a version")
	}
	m.check()
	vpAdvance(time.Hour)
	as, err := m.r.TakeAvailableAddresses()
	vpNoErr(err, "available addresses are handed out")
	vpAssert(len(as) == 0, "a hostile peer is never dialled")
	cs, err := m.r.Connections()
	vpNoErr(err, "connections are listed")
	vpAssert(len(cs) == 0, "a hostile peer is never connected")
	vpReach("hostile")
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P01_cycle offers versions of any configuration to an unknown peer.
func VP_P01_cycle() {
	k := vpParam("k", 3)
	var vs []proto.Version
	for i := 0; i < k; i++ {
		major, minor, patch := vpU32("major"), vpU32("minor"), vpU32("patch")
		vpAssume(major < 100 && minor < 1000 && patch < 1000)
		vpAssume(major > 0)
		vs = append(vs, proto.NewVersion(major, minor, patch))
	}
	given := append([]proto.Version{}, vs...)
	r, err := NewRegistry(vpScheme, proto.TCPAddr{}, vs, vpTempDir())
	vpNoErr(err, "the registry opens")
	if vpInt("gossip", 0, 1) == 1 {
		r.AppendAddresses([]*net.TCPAddr{vpTCP(vpAddr(0), 6868)})
	}
	var got []proto.Version
	for i := 0; i <= k; i++ {
		v, err := r.SuggestVersion(vpAddr(0))
		vpNoErr(err, "a version is offered")
		p, err := r.Peer(vpAddr(0))
		vpNoErr(err, "the peer is recorded")
		vpAssert(p.Version == v, "the offered version is recorded")
		vpAssert(p.NextAttempt.Equal(time.Now().Add(10*time.Minute).Round(time.Second)), "an offer postpones the next dial by ten minutes")
		got = append(got, v)
		vpAdvance(time.Minute)
	}
	ord := func(v proto.Version) uint64 { return uint64(v.Major())<<32 | uint64(v.Minor()) }
	for _, g := range given {
		vpAssert(ord(got[0]) >= ord(g), "the first offer is the highest version")
		tried := false
		for _, v := range got[:k] {
			tried = vpOr(tried, ord(v) == ord(g))
		}
		vpAssert(tried, "every configured minor version is tried within one cycle")
	}
	for i := 1; i <= k; i++ {
		prev, cur := ord(got[i-1]), ord(got[i])
		// No configured version lies between, or the cycle wraps from the lowest to the highest.
		lowest, between := true, false
		in := false
		for _, g := range given {
			lowest = vpAnd(lowest, ord(g) >= prev)
			between = vpOr(between, vpAnd(ord(g) < prev, ord(g) > cur))
			in = vpOr(in, ord(g) == cur)
		}
		vpAssert(in, "only configured versions are offered")
		vpAssert(vpOr(vpAnd(lowest, cur == ord(got[0])), vpAnd(vpOr(!lowest), cur < prev, !between)), "the next offer is the next lower version or wraps around")
	}
	vpReach("cycle")
	vpNoErr(r.Close(), "the registry closes")
}

// VP_P01_states offers versions to connected and hostile peers.
func VP_P01_states() {
	m := vpNewReg(1)
	minor := vpU32("minor")
	vpAssume(minor == 4 || minor == 5 || minor == 6)
	patch := vpU32("patch")
	vpAssume(patch < 1000)
	m.connect(0, vpHandshake("wavesW", proto.NewVersion(1, minor, patch), "x", 1))
	m.unregister(0)
	v, err := m.r.SuggestVersion(vpAddr(0))
	vpNoErr(err, "a version is offered")
	vpAssert(v == proto.NewVersion(1, minor, patch), "a peer that connected before is offered the version it connected with")
	m.hostile(0)
	_, err = m.r.SuggestVersion(vpAddr(0))
	vpAssert(err != nil, "a hostile peer is never offered a version")
	vpReach("states")
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P02_register registers a peer with an arbitrary address and handshake.
func VP_P02_register() {
	m := vpNewReg(1)
	addr := vpAddr(0)
	app, name := "wavesW", "node"
	version := proto.NewVersion(1, 5, 1)
	declared, offered := 0, true
	ip := []byte{52, 0, 0, 1}
	loop, v6 := false, false
	// Two parts of a connection vary at once, the others are as they should be.
	parts := vpInt("parts", 0, 7)
	if parts == 0 || parts == 1 || parts == 2 {
		switch vpInt("addr", 0, 4) {
		case 0:
			var b [4]byte
			copy(b[:], vpBytes("a4", 4))
			addr = netip.AddrFrom4(b)
		case 1:
			var b [16]byte
			copy(b[:], vpBytes("a6", 16))
			addr = netip.AddrFrom16(b)
		case 2:
			addr = vpSelf()
		case 3:
			addr = netip.Addr{}
		}
	}
	if parts == 0 || parts == 3 || parts == 4 {
		switch vpInt("app", 0, 3) {
		case 0:
			if parts == 3 {
				app = "waves\xff"
			} else {
				app = []string{"w", "W", ""}[vpInt("prefix", 0, 2)] + vpStr("app", 1)
			}
		case 1:
			app = ""
		case 2:
			app = "wavesT"
		}
	}
	if parts == 3 || parts == 5 {
		name = "x" + vpStr("name", vpParam("name", 1))
	}
	if parts == 1 || parts == 4 || parts == 6 {
		major, minor := vpU32("major"), vpU32("minor")
		vpAssume(major < 65536 && minor < 65536)
		version = proto.NewVersion(major, minor, 1)
		offered = vpInt("offered", 0, 1) == 1
	}
	hs := proto.Handshake{AppName: app, Version: version, NodeName: name, NodeNonce: vpU64("nonce")}
	if parts == 2 || parts == 5 || parts == 6 || parts == 7 {
		declared = vpInt("declared", 0, 4)
		switch declared {
		case 1:
			ip = vpBytes("ip4", 4)
			loop = ip[0] == 127
			hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.TCPAddr{IP: net.IPv4(ip[0], ip[1], ip[2], ip[3]), Port: 6868})
		case 2:
			hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.TCPAddr{IP: net.ParseIP("2001:db8::1"), Port: 6868})
			v6 = true
		case 3:
			port := vpU32("port")
			vpAssume(port > 65535)
			hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.TCPAddr{IP: net.IPv4(52, 0, 0, 1), Port: int(port)})
		case 4:
			hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.TCPAddr{IP: net.IPv4(52, 0, 0, 1), Port: 6868})
		}
	}
	major, minor := version.Major(), version.Minor()
	if offered && addr.Is4() {
		_, err := m.r.SuggestVersion(addr)
		vpNoErr(err, "a version is offered")
	} else {
		offered = false
	}
	p := &vpPeer{hs: hs}
	err := m.r.RegisterPeer(addr, p, hs)
	cs, cerr := m.r.Connections()
	vpNoErr(cerr, "connections are listed")
	vpAssert(len(cs) <= 1, "at most one peer is registered")
	sameNet := len(app) > 0 && app[len(app)-1] == 'W'
	okVersion := major == 1 && (minor == 4 || minor == 5 || minor == 6)
	if len(cs) == 1 {
		vpReach("registered")
		vpAssert(err == nil, "a registered peer is reported without an error")
		vpAssert(p.closed == 0, "the connection of a registered peer stays open")
		vpAssert(addr.Is4() && addr != vpSelf(), "only foreign IPv4 peers are registered")
		vpAssert(sameNet, "only peers of our network are registered")
		vpAssert(vpOr(!offered, okVersion), "only peers of an acceptable version are registered")
		vpAssert(vpAnd(!v6, vpOr(declared != 1, !loop)), "no peers with a loopback or non-IPv4 declared address are registered")
		vpAssert(cs[0].AddressPort.Addr() == addr && cs[0].State == PeerConnected, "a registered peer is recorded as connected")
		vpAssert(cs[0].Version == hs.Version && cs[0].Name == hs.NodeName && cs[0].Nonce == hs.NodeNonce, "a registered peer's handshake is recorded")
		if declared == 1 && addr == vpAddr(0) {
			vpReach("declared")
			same := ip[0] == 52 && ip[1] == 0 && ip[2] == 0 && ip[3] == 1
			vpAssert(cs[0].AddressPort.Port() == vpU16Of(same, 6868), "a port is recorded only if the declared address is the peer's")
		}
	} else {
		vpReach("refused")
		vpAssert(p.closed > 0, "the connection of a peer that is not registered is closed")
		// Whoever satisfies all conditions is registered.
		vpAssert(!(vpAnd(offered, addr.Is4() && addr != vpSelf(), sameNet, okVersion, declared == 0 || declared == 4, name == "node")), "a compatible peer is registered")
		if addr.Is4() && addr != vpSelf() {
			rec, rerr := m.r.Peer(addr)
			if !sameNet || (offered && !okVersion) {
				vpAssert(rerr == nil && rec.State == PeerHostile, "an incompatible peer is recorded as hostile")
				vpReach("hostile")
			}
		}
	}
	vpNoErr(m.r.Close(), "the registry closes")
}

func vpU16Of(c bool, v uint16) uint16 {
	if c {
		return v
	}
	return 0
}

// VP_P06_gossip offers arbitrary addresses.
func VP_P06_gossip() {
	m := vpNewReg(2)
	m.gossip(0, 7000)
	m.hostile(1)
	k := vpParam("k", 2)
	var as []*net.TCPAddr
	var v4 []bool
	var ips [][]byte
	for i := 0; i < k; i++ {
		switch vpInt("kind", 0, 2) {
		case 0:
			b := vpBytes("ip4", 4)
			as = append(as, &net.TCPAddr{IP: net.IPv4(b[0], b[1], b[2], b[3]), Port: int(vpU16("port"))})
			v4 = append(v4, true)
			ips = append(ips, b)
		case 1:
			b := vpBytes("ip6", 16)
			vpAssume(b[0] == 0x20)
			as = append(as, &net.TCPAddr{IP: net.IP(b), Port: int(vpU16("port"))})
			v4 = append(v4, false)
			ips = append(ips, nil)
		case 2:
			as = append(as, &net.TCPAddr{Port: 6868})
			v4 = append(v4, false)
			ips = append(ips, nil)
		}
	}
	n := m.r.AppendAddresses(as)
	want := 0
	eq := func(b []byte, a netip.Addr) bool {
		x := a.As4()
		return vpEqBytes(b, x[:])
	}
	all, err := m.r.Peers()
	vpNoErr(err, "peers are listed")
	for i := 0; i < k; i++ {
		if !v4[i] {
			continue
		}
		b := ips[i]
		if b[0] == 127 || eq(b, vpSelf()) || eq(b, vpAddr(0)) || eq(b, vpAddr(1)) {
			vpReach("filtered")
			continue
		}
		dup := false
		for j := 0; j < i; j++ {
			if v4[j] && vpEqBytes(ips[j], b) {
				dup = true
			}
		}
		if dup {
			vpReach("duplicate")
			continue
		}
		want++
		vpReach("added")
		a := netip.AddrFrom4([4]byte{b[0], b[1], b[2], b[3]})
		p, err := m.r.Peer(a)
		vpNoErr(err, "a new public address is added")
		vpAssert(p.State == PeerUnknown && p.AddressPort.Addr() == a && int(p.AddressPort.Port()) == as[i].Port, "a new address is recorded as offered")
	}
	vpAssert(n == want, "the number of added addresses is returned")
	vpAssert(len(all) == want+2, "only new public addresses are added")
	p, err := m.r.Peer(vpAddr(0))
	vpNoErr(err, "a known peer reads back")
	m.compare(0, p)
	p, err = m.r.Peer(vpAddr(1))
	vpNoErr(err, "a hostile peer reads back")
	m.compare(1, p)
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P07_broadcast sends a message to all connections after any history of n operations.
func VP_P07_broadcast() {
	m := vpNewReg(vpParam("peers", 2))
	var conns []*vpPeer
	for i := 0; i < vpParam("n", 3); i++ {
		k := vpInt("peer", 0, len(m.recs)-1)
		switch vpInt("op", 0, 3) {
		case 0:
			conns = append(conns, m.connect(k, vpHandshake("wavesW", m.okVersion(k), vpNames[k], 1)))
		case 1:
			m.unregister(k)
		case 2:
			conns = append(conns, m.connect(k, vpHandshake("wavesT", m.okVersion(k), "other", 1)))
		case 3:
			m.reopen()
		}
	}
	msg := &proto.GetPeersMessage{}
	m.r.Broadcast(msg)
	for _, c := range conns {
		current := false
		for i := range m.recs {
			current = current || m.recs[i].connected == c
		}
		if current {
			vpAssert(len(c.sent) == 1, "a broadcast reaches every connection once")
			vpReach("reached")
		} else {
			vpAssert(len(c.sent) == 0, "a broadcast reaches nobody else")
			vpReach("spared")
		}
	}
	m.check()
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P09_requests sends history requests to a peer of any version.
func VP_P09_requests() {
	major, minor, patch := vpU32("major"), vpU32("minor"), vpU32("patch")
	vpAssume(major < 65536 && minor < 65536 && patch < 65536)
	v := proto.NewVersion(major, minor, patch)
	p := &vpPeer{hs: vpHandshake("wavesW", v, "node", 1)}
	r, err := NewRegistry(vpScheme, vpDeclared(), []proto.Version{v}, vpTempDir())
	vpNoErr(err, "the registry opens")
	_, err = r.SuggestVersion(vpAddr(0))
	vpNoErr(err, "a version is offered")
	vpNoErr(r.RegisterPeer(vpAddr(0), p, p.hs), "a compatible peer is registered")
	cs, err := r.Connections()
	vpNoErr(err, "connections are listed")
	vpAssert(len(cs) == 1, "the peer is connected")
	k := vpInt("k", 1, vpParam("k", 3))
	var ids []proto.BlockID
	old := major < 1 || (major == 1 && minor < 2)
	for i := 0; i < k; i++ {
		if old || vpInt("kind", 0, 1) == 0 {
			var s crypto.Signature
			copy(s[:], vpBytes("sig", 64))
			ids = append(ids, proto.NewBlockIDFromSignature(s))
		} else {
			var d crypto.Digest
			copy(d[:], vpBytes("digest", 32))
			ids = append(ids, proto.NewBlockIDFromDigest(d))
		}
	}
	cs[0].RequestBlockIDs(ids)
	vpAssert(len(p.sent) == 1, "exactly one request goes out")
	switch m := p.sent[0].(type) {
	case *proto.GetSignaturesMessage:
		vpAssert(old, "newer peers are not asked for signatures")
		vpAssert(len(m.Signatures) == k, "the request carries all IDs")
		for i := range ids {
			vpAssert(m.Signatures[i] == ids[i].Signature(), "the request carries the IDs in order")
		}
		vpReach("signatures")
	case *proto.GetBlockIdsMessage:
		vpAssert(!old, "older peers are not asked for block IDs")
		vpAssert(len(m.Blocks) == k, "the request carries all IDs")
		for i := range ids {
			vpAssert(m.Blocks[i] == ids[i], "the request carries the IDs in order")
		}
		vpReach("ids")
	default:
		vpAssert(false, "history is requested by a known message")
	}
	cs[0].RequestBlock(ids[0])
	vpAssert(len(p.sent) == 2, "exactly one request goes out for a block")
	b, ok := p.sent[1].(*proto.GetBlockMessage)
	vpAssert(ok && b.BlockID == ids[0], "a block is requested by its ID")
	vpNoErr(r.Close(), "the registry closes")
}

// VP_P08_concurrent runs two operations and a query in parallel.
func VP_P08_concurrent() {
	m := vpNewReg(2)
	a, b := vpAddr(0), vpAddr(1)
	scenario := vpInt("scenario", 0, 11)
	ok := func() proto.Handshake { return vpHandshake("wavesW", proto.NewVersion(1, 5, 2), "node", 7) }
	sc := new(big.Int).SetUint64(vpU64("score"))
	m.gossip(0, 6868)
	m.gossip(1, 6869)
	if scenario == 2 || scenario == 7 || scenario == 8 || scenario == 10 || scenario == 11 {
		hs := ok()
		if scenario >= 10 {
			hs.DeclaredAddr = proto.HandshakeTCPAddr(*vpTCP(a, 6863))
		}
		m.connect(0, hs)
		m.connect(1, ok())
		m.score(0, big.NewInt(5))
	}
	if scenario == 1 || scenario == 4 || scenario == 9 {
		m.suggest(0)
		vpAdvance(10*time.Minute + time.Second)
	}
	np := &vpPeer{hs: ok()}
	var e1, e2, e3 error
	var t1, t2 []netip.AddrPort
	var v1, v2 proto.Version
	var n1, n2 int
	msg := &proto.GetPeersMessage{}
	query := vpInt("query", 0, 3)
	vpRace(true)
	vpExplore(vpParam("preempt", 2))
	reg := func() { e1 = m.r.RegisterPeer(a, np, np.hs) }
	switch scenario {
	case 0:
		vpGo(1, func() { t1, e1 = m.r.TakeAvailableAddresses() })
		vpGo(2, func() { t2, e2 = m.r.TakeAvailableAddresses() })
	case 1:
		vpGo(1, reg)
		vpGo(2, func() { e2 = m.r.UpdatePeerScore(a, sc) })
	case 2:
		vpGo(1, func() { e1 = m.r.UnregisterPeer(a, m.conn(0)) })
		vpGo(2, func() { e2 = m.r.UnregisterPeer(b, m.conn(1)) })
	case 3:
		vpGo(1, func() { v1, e1 = m.r.SuggestVersion(a) })
		vpGo(2, func() { v2, e2 = m.r.SuggestVersion(a) })
	case 4:
		vpGo(1, reg)
		vpGo(2, func() { t2, e2 = m.r.TakeAvailableAddresses() })
	case 5:
		vpGo(1, func() { n1 = m.r.AppendAddresses([]*net.TCPAddr{vpTCP(vpAddr(2), 1), vpTCP(vpAddr(3), 1)}) })
		vpGo(2, func() { n2 = m.r.AppendAddresses([]*net.TCPAddr{vpTCP(vpAddr(3), 2), vpTCP(vpAddr(2), 2)}) })
	case 6:
		vpGo(1, func() { e1 = m.r.MarkAsHostile(&net.IPAddr{IP: net.IPv4(52, 0, 0, 1)}) })
		vpGo(2, func() { e2 = m.r.UpdatePeerScore(a, sc) })
	case 7:
		vpGo(1, func() { e1 = m.r.UnregisterPeer(a, m.conn(0)) })
		vpGo(2, func() { e2 = m.r.UpdatePeerScore(a, sc) })
	case 8:
		vpGo(1, func() { e1 = m.r.UnregisterPeer(a, m.conn(0)) })
		vpGo(2, func() { m.r.Broadcast(msg) })
	case 9:
		vpGo(1, reg)
		vpGo(2, func() { e2 = m.r.MarkAsHostile(&net.IPAddr{IP: net.IPv4(52, 0, 0, 1)}) })
	}
	switch scenario {
	case 10:
		vpGo(1, func() { e1 = m.r.UnregisterPeer(a, m.conn(0)) })
		vpGo(2, func() { t2, e2 = m.r.TakeAvailableAddresses() })
	case 11:
		vpGo(1, func() { e1 = m.r.MarkAsHostile(&net.IPAddr{IP: net.IPv4(52, 0, 0, 1)}) })
		vpGo(2, func() { t2, e2 = m.r.TakeAvailableAddresses() })
	}
	switch query {
	case 0:
		vpGo(3, func() { _, e3 = m.r.Peers() })
	case 1:
		vpGo(3, func() { _, e3 = m.r.Connections() })
	case 2:
		vpGo(3, func() { _, e3 = m.r.Addresses() })
	case 3:
		vpGo(3, func() { _, e3 = m.r.Peer(b) })
	}
	vpWait()
	vpExplore(-1)
	vpRace(false)
	vpNoErr(e3, "a concurrent query succeeds")
	vpNoErr(e2, "a concurrent operation succeeds")
	if scenario != 9 {
		vpNoErr(e1, "a concurrent operation succeeds")
	}
	next := time.Now().Add(10 * time.Minute).Round(time.Second)
	now := time.Now().Round(time.Second)
	connected := func() {
		c := &m.recs[0]
		c.port, c.nonce, c.name, c.version = 0, 7, "node", np.hs.Version
		c.state, c.next, c.connected, c.pending = PeerConnected, now, np, false
	}
	switch scenario {
	case 0:
		vpAssert(len(t1)+len(t2) == 2, "every available address is handed out once")
		all := append(append([]netip.AddrPort{}, t1...), t2...)
		vpAssert(len(all) == 2 && all[0] != all[1], "no address is handed out twice")
		m.recs[0].pending, m.recs[1].pending = true, true
	case 1:
		connected()
		m.recs[0].score = sc
	case 2:
		m.recs[0].next, m.recs[1].next = next, next
		m.recs[0].connected, m.recs[1].connected = nil, nil
	case 3:
		vpAssert((v1.Minor() == 5 && v2.Minor() == 4) || (v1.Minor() == 4 && v2.Minor() == 5), "concurrent offers advance one after another")
		m.recs[0].version = proto.NewVersion(1, 4, 0)
		m.recs[0].next = next
	case 4:
		connected()
		vpAssert(len(t2) == 1 || len(t2) == 2, "available addresses are handed out")
		m.recs[1].pending = true
		if len(t2) == 2 {
			// It was taken before the peer connected.
			vpAssert(t2[0] != t2[1], "no address is handed out twice")
			vpReach("taken before")
		}
	case 5:
		vpAssert(n1+n2 == 2, "every new address is added once")
		for i := 2; i < 4; i++ {
			p, err := m.r.Peer(vpAddr(i))
			vpNoErr(err, "a new address is added")
			if n1 == 2 {
				vpAssert(p.AddressPort.Port() == 1, "an address is recorded as first offered")
				vpReach("first")
			}
			if n2 == 2 {
				vpAssert(p.AddressPort.Port() == 2, "an address is recorded as first offered")
				vpReach("second")
			}
			m.recs = append(m.recs, vpRec{known: true, port: p.AddressPort.Port()})
		}
		vpAssert(n1 == 2 || n2 == 2, "a list of addresses is added at once")
	case 6:
		m.recs[0].state, m.recs[0].port, m.recs[0].score = PeerHostile, 0, sc
	case 7:
		m.recs[0].next, m.recs[0].connected, m.recs[0].score = next, nil, sc
	case 8:
		c := m.recs[0].connected
		vpAssert(len(m.recs[1].connected.sent) == 1, "a broadcast reaches every connection once")
		vpAssert(len(c.sent) <= 1, "a broadcast reaches every connection once")
		m.recs[0].next, m.recs[0].connected = next, nil
	case 9:
		if e1 == nil {
			connected()
			vpReach("registered")
		} else {
			vpReach("refused")
			vpAssert(np.closed > 0, "the connection of a refused peer is closed")
		}
		m.recs[0].state, m.recs[0].port, m.recs[0].connected = PeerHostile, 0, nil
		vpAssert(np.closed > 0, "the connection of a hostile peer is closed")
	case 10:
		vpAssert(len(t2) == 0, "no address is handed out before its time")
		m.recs[0].next, m.recs[0].connected = next, nil
	case 11:
		vpAssert(len(t2) == 0, "a hostile peer is never dialled")
		m.recs[0].state, m.recs[0].port, m.recs[0].connected = PeerHostile, 0, nil
	}
	m.check()
	if scenario <= 1 || scenario == 4 {
		m.take()
		vpReach("taken after")
	}
	m.recs[0].connected, m.recs[1].connected = nil, nil
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P05_foreign looks up addresses that are not IPv4: they are nobody's.
func VP_P05_foreign() {
	m := vpNewReg(1)
	m.gossip(0, 6868)
	var a netip.Addr
	switch vpInt("kind", 0, 2) {
	case 0:
		var b [16]byte
		copy(b[:], vpBytes("a6", 16))
		a = netip.AddrFrom16(b)
		vpReach("v6")
	case 1:
		var b [4]byte
		copy(b[:], vpBytes("a4", 4))
		a = netip.AddrFrom4(b)
		vpAssume(a != vpAddr(0))
		vpReach("v4")
	}
	switch vpInt("op", 0, 3) {
	case 0:
		_, err := m.r.Peer(a)
		vpAssert(err != nil, "a peer that was never recorded is unknown")
	case 1:
		err := m.r.UpdatePeerScore(a, big.NewInt(7))
		vpAssert(err != nil, "an unknown peer has no score")
	case 2:
		err := m.r.UnregisterPeer(a, &vpPeer{})
		vpAssert(err != nil, "an unknown peer cannot be unregistered")
	case 3:
		_, err := m.r.SuggestVersion(a)
		vpAssert(a.Is4() == (err == nil), "versions are offered to IPv4 peers only")
		if a.Is4() {
			p, err := m.r.Peer(a)
			vpNoErr(err, "the peer is recorded")
			vpAssert(p.AddressPort.Addr() == a, "a peer's record keeps its address")
			ps, err := m.r.Peers()
			vpNoErr(err, "peers are listed")
			vpAssert(len(ps) == 2, "peers are exactly the recorded ones")
			p, err = m.r.Peer(vpAddr(0))
			vpNoErr(err, "a recorded peer reads back")
			m.compare(0, p)
			vpNoErr(m.r.Close(), "the registry closes")
			return
		}
	}
	m.check()
	vpNoErr(m.r.Close(), "the registry closes")
}

func vpSamePeer(a, b Peer) bool {
	if (a.Score == nil) != (b.Score == nil) {
		return false
	}
	if a.Score != nil && a.Score.Cmp(b.Score) != 0 {
		return false
	}
	return a.AddressPort == b.AddressPort && a.Nonce == b.Nonce && a.Name == b.Name && a.Version == b.Version &&
		a.State == b.State && a.NextAttempt.Equal(b.NextAttempt)
}

// vpRaw performs an operation on peer 0 without looking at the result.
func (m *vpReg) vpRaw(op int, p *vpPeer) error {
	a := vpAddr(0)
	switch op {
	case 0:
		_, err := m.r.SuggestVersion(a)
		return err
	case 1, 2:
		return m.r.RegisterPeer(a, p, p.hs)
	case 3:
		return m.r.UnregisterPeer(a, m.conn(0))
	case 4:
		return m.r.UpdatePeerScore(a, big.NewInt(99))
	case 5:
		return m.r.MarkAsHostile(&net.IPAddr{IP: net.IPv4(52, 0, 0, 1)})
	default:
		m.r.AppendAddresses([]*net.TCPAddr{vpTCP(vpAddr(0), 1), vpTCP(vpAddr(2), 3)})
		return nil
	}
}

// VP_P05_fault interrupts any operation at any write and reopens the registry.
func VP_P05_fault() {
	op := vpInt("op", 0, 6)
	known := vpInt("known", 0, 4)
	var ms [2]*vpReg // The second one is not interrupted.
	for i := range ms {
		m := vpNewReg(2)
		m.connect(1, vpHandshake("wavesW", m.okVersion(1), "other", 3))
		m.score(1, big.NewInt(5))
		switch known {
		case 1:
			m.gossip(0, 6868)
		case 2:
			m.connect(0, vpHandshake("wavesW", m.okVersion(0), "peer", 4))
			m.score(0, big.NewInt(6))
		case 3:
			m.hostile(0)
		case 4:
			m.connect(0, vpHandshake("wavesW", m.okVersion(0), "peer", 4))
			m.score(0, big.NewInt(6))
			m.unregister(0)
		}
		ms[i] = m
	}
	hs := vpHandshake("wavesW", ms[0].okVersion(0), "again", 11)
	if op == 2 {
		hs.AppName = "wavesT"
	}
	m, ref := ms[0], ms[1]
	before, berr := m.r.Peer(vpAddr(0))
	w := vpInt("write", 0, vpParam("writes", 1))
	kind := []string{"error", "crash-before", "crash-after"}[vpInt("fault", 0, 2)]
	p := &vpPeer{hs: hs}
	var err error
	vpFault(w, kind)
	crashed := vpCrashRun(func() { err = m.vpRaw(op, p) })
	hit := vpWrites() > w
	vpFault(-1, "")
	_ = ref.vpRaw(op, &vpPeer{hs: hs})
	after, aerr := ref.r.Peer(vpAddr(0))
	if crashed {
		vpReach("crash")
		m.dir = vpSnapshotDir(m.dir)
		m.open()
	} else {
		if hit {
			vpReach("failure")
			vpAssert(op == 6 || err != nil, "a failed write is reported")
			if op == 1 || op == 2 {
				vpAssert(p.closed > 0, "the connection of a peer that is not registered is closed")
			}
		}
		cs, cerr := m.r.Connections()
		vpNoErr(cerr, "connections are listed")
		n := 0
		for _, c := range cs {
			if c.p == p {
				n++
			}
		}
		vpAssert(n == 0 || !hit, "a peer that was not recorded is not connected")
		vpNoErr(m.r.Close(), "the registry closes")
		m.open()
	}
	now, nerr := m.r.Peer(vpAddr(0))
	same := func(q Peer, qerr error) bool {
		if qerr != nil || nerr != nil {
			return qerr != nil && nerr != nil
		}
		return vpSamePeer(q, now)
	}
	if crashed || hit {
		vpAssert(same(before, berr) || same(after, aerr), "a record is either the old or the new one after an interruption")
	} else {
		vpAssert(same(after, aerr), "an uninterrupted operation is recorded")
		vpReach("uninterrupted")
	}
	other, err := m.r.Peer(vpAddr(1))
	vpNoErr(err, "other peers keep their records")
	m.recs[1].connected = nil
	m.compare(1, other)
	vpNoErr(m.r.Close(), "the registry closes")
	vpNoErr(ref.r.Close(), "the registry closes")
}
