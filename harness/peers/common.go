package peers

import (
	"math/big"
	"net"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

const vpScheme = proto.Scheme('W')

type vpPeerID string

func (i vpPeerID) String() string { return string(i) }

// vpPeer is a connection to a peer that records what is done to it.
type vpPeer struct {
	hs     proto.Handshake
	closed int
	sent   []proto.Message
}

func (p *vpPeer) Direction() peer.Direction   { return peer.Incoming }
func (p *vpPeer) Close() error                { p.closed++; return nil }
func (p *vpPeer) SendMessage(m proto.Message) { p.sent = append(p.sent, m) }
func (p *vpPeer) ID() peer.ID                 { return vpPeerID("peer") }
func (p *vpPeer) Connection() conn.Connection { return nil }
func (p *vpPeer) Handshake() proto.Handshake  { return p.hs }
func (p *vpPeer) RemoteAddr() proto.TCPAddr   { return proto.TCPAddr{} }
func (p *vpPeer) Equal(o peer.Peer) bool      { return p == o }

func vpNoErr(err error, what string) {
	vpAssert(err == nil, what)
	if err != nil {
		vpAssume(false)
	}
}

func vpAddr(i int) netip.Addr { return netip.AddrFrom4([4]byte{52, byte(i >> 8), byte(i), 1}) }

func vpTCP(a netip.Addr, port int) *net.TCPAddr {
	b := a.As4()
	return &net.TCPAddr{IP: net.IPv4(b[0], b[1], b[2], b[3]), Port: port}
}

func vpSelf() netip.Addr { return netip.AddrFrom4([4]byte{52, 99, 99, 1}) }

func vpDeclared() proto.TCPAddr { return proto.TCPAddr(*vpTCP(vpSelf(), 6868)) }

var vpVersions = []proto.Version{proto.NewVersion(1, 5, 2), proto.NewVersion(1, 3, 1), proto.NewVersion(1, 4, 7)}

// vpRec is the model's record of a peer.
type vpRec struct {
	known     bool
	port      uint16
	nonce     uint64
	name      string
	version   proto.Version
	state     State
	next      time.Time
	score     *big.Int
	connected *vpPeer
	pending   bool
}

// vpReg is a registry with its model.
type vpReg struct {
	r      *Registry
	dir    string
	recs   []vpRec
	failed map[*vpPeer]bool // connections that failed by themselves
}

func vpNewReg(n int) *vpReg {
	m := &vpReg{dir: vpTempDir()}
	m.open()
	m.recs = make([]vpRec, n)
	return m
}

func (m *vpReg) open() {
	r, err := NewRegistry(vpScheme, vpDeclared(), append([]proto.Version{}, vpVersions...), m.dir)
	vpNoErr(err, "the registry opens")
	m.r = r
}

func (m *vpReg) reopen() {
	vpNoErr(m.r.Close(), "the registry closes")
	m.open()
	for i := range m.recs {
		m.recs[i].connected = nil
		m.recs[i].pending = false
	}
}

// next is the version offered after a version to a peer that never connected.
func vpNextVersion(v proto.Version) proto.Version {
	switch {
	case v.Major() == 1 && v.Minor() == 5:
		return proto.NewVersion(1, 4, 0)
	case v.Major() == 1 && v.Minor() == 4:
		return proto.NewVersion(1, 3, 0)
	default:
		return proto.NewVersion(1, 5, 0)
	}
}

// suggest asks for a version for peer i and checks the answer.
func (m *vpReg) suggest(i int) bool {
	c := &m.recs[i]
	v, err := m.r.SuggestVersion(vpAddr(i))
	if c.known && c.state == PeerHostile {
		vpAssert(err != nil, "a hostile peer is never offered a version")
		return false
	}
	vpNoErr(err, "a version is offered")
	if c.known && c.state == PeerConnected {
		vpAssert(v == c.version, "a peer that connected before is offered the version it connected with")
		return true
	}
	want := proto.NewVersion(1, 5, 0)
	if c.known {
		want = vpNextVersion(c.version)
	}
	vpAssert(v == want, "an unknown peer is offered the next version")
	c.known = true
	c.version = want
	c.next = time.Now().Add(10 * time.Minute).Round(time.Second)
	return true
}

// connect registers peer i with a handshake.
func (m *vpReg) connect(i int, hs proto.Handshake) *vpPeer {
	p := &vpPeer{hs: hs}
	c := &m.recs[i]
	ok := m.suggest(i)
	err := m.r.RegisterPeer(vpAddr(i), p, hs)
	c.pending = false
	old := c.connected
	if !ok {
		vpAssert(err != nil, "a hostile peer is never registered again")
		vpAssert(p.closed > 0, "the connection of a refused peer is closed")
		return p
	}
	scheme := hs.AppName == "wavesW"
	vok := hs.Version.Major() == c.version.Major() && (hs.Version.Minor() == c.version.Minor() ||
		hs.Version.Minor()+1 == c.version.Minor() || hs.Version.Minor() == c.version.Minor()+1)
	if !scheme || !vok {
		vpAssert(p.closed > 0, "the connection of an incompatible peer is closed")
		vpAssert(old == nil || old.closed > 0, "the connection of a peer that became hostile is closed")
		c.state = PeerHostile
		c.connected = nil
		c.version = hs.Version
		c.name = hs.NodeName + "(" + hs.AppName + ")"
		return p
	}
	if old != nil {
		vpAssert(err != nil && p.closed > 0, "a second connection of a peer is refused")
		vpAssert(old.closed == 0, "a second connection leaves the first one open")
		return p
	}
	vpNoErr(err, "a compatible peer is registered")
	vpAssert(p.closed == 0, "the connection of a registered peer stays open")
	c.port = 0
	if !hs.DeclaredAddr.Empty() {
		c.port = uint16(hs.DeclaredAddr.Port)
	}
	c.nonce = hs.NodeNonce
	c.name = hs.NodeName
	c.version = hs.Version
	c.state = PeerConnected
	c.next = time.Now().Round(time.Second)
	c.connected = p
	return p
}

// conn is the registered connection of peer i.
func (m *vpReg) conn(i int) peer.Peer {
	if c := m.recs[i].connected; c != nil {
		return c
	}
	return nil
}

func (m *vpReg) unregister(i int) {
	c := &m.recs[i]
	err := m.r.UnregisterPeer(vpAddr(i), m.conn(i))
	if !c.known {
		vpAssert(err != nil, "an unknown peer cannot be unregistered")
		return
	}
	vpNoErr(err, "a known peer is unregistered")
	c.connected = nil
	c.pending = false
	c.next = time.Now().Add(10 * time.Minute).Round(time.Second)
}

func (m *vpReg) score(i int, s *big.Int) {
	c := &m.recs[i]
	err := m.r.UpdatePeerScore(vpAddr(i), s)
	if !c.known {
		vpAssert(err != nil, "an unknown peer has no score")
		return
	}
	vpNoErr(err, "a score is recorded")
	c.score = new(big.Int).Set(s)
}

func (m *vpReg) hostile(i int) {
	c := &m.recs[i]
	a := vpAddr(i).As4()
	vpNoErr(m.r.MarkAsHostile(&net.IPAddr{IP: net.IPv4(a[0], a[1], a[2], a[3])}), "a peer is marked as hostile")
	c.known = true
	c.pending = false
	c.port = 0
	c.state = PeerHostile
	c.connected = nil
}

func (m *vpReg) gossip(i int, port int) {
	c := &m.recs[i]
	n := m.r.AppendAddresses([]*net.TCPAddr{vpTCP(vpAddr(i), port)})
	if c.known {
		vpAssert(n == 0, "gossip does not add known peers")
		return
	}
	vpAssert(n == 1, "gossip adds new peers")
	c.known = true
	c.port = uint16(port)
}

func (m *vpReg) take() []netip.AddrPort {
	now := time.Now()
	as, err := m.r.TakeAvailableAddresses()
	vpNoErr(err, "available addresses are handed out")
	n := 0
	times := map[netip.Addr]int{}
	ports := map[netip.Addr]uint16{}
	for _, a := range as {
		times[a.Addr()]++
		ports[a.Addr()] = a.Port()
	}
	for i := range m.recs {
		c := &m.recs[i]
		want := c.known && c.state != PeerHostile && c.port != 0 && c.connected == nil && !c.pending
		if want {
			want = !c.next.After(now)
		}
		got := times[vpAddr(i)]
		vpAssert(got == 0 || ports[vpAddr(i)] == c.port, "an address is handed out with its port")
		if want {
			n++
			vpAssert(got == 1, "every eligible address is handed out once")
			c.pending = true
			vpReach("taken")
		} else {
			vpAssert(got == 0, "only eligible addresses are handed out")
		}
	}
	vpAssert(len(as) == n, "no other addresses are handed out")
	return as
}

// check compares all records and listings with the model.
func (m *vpReg) check() {
	known, friends, conns := 0, 0, 0
	for i := range m.recs {
		c := &m.recs[i]
		p, err := m.r.Peer(vpAddr(i))
		if !c.known {
			vpAssert(err != nil, "a peer that was never recorded is unknown")
			continue
		}
		vpNoErr(err, "a recorded peer reads back")
		known++
		m.compare(i, p)
		if c.state == PeerConnected {
			friends++
		}
		if c.connected != nil {
			conns++
		}
	}
	all, err := m.r.Peers()
	vpNoErr(err, "peers are listed")
	m.list(all, "peers", known, func(c *vpRec) bool { return c.known })
	fr, err := m.r.FriendlyPeers()
	vpNoErr(err, "friendly peers are listed")
	m.list(fr, "friendly peers", friends, func(c *vpRec) bool { return c.known && c.state == PeerConnected })
	cs, err := m.r.Connections()
	vpNoErr(err, "connections are listed")
	m.list(cs, "connections", conns, func(c *vpRec) bool { return c.connected != nil })
	as, err := m.r.Addresses()
	vpNoErr(err, "addresses are listed")
	vpAssert(len(as) == friends, "the addresses are those of friendly peers")
}

func (m *vpReg) compare(i int, p Peer) {
	c := &m.recs[i]
	vpAssert(p.AddressPort.Addr() == vpAddr(i), "a peer's record keeps its address")
	vpAssert(p.AddressPort.Port() == c.port, "a peer's record keeps its port")
	vpAssert(p.Nonce == c.nonce, "a peer's record keeps its nonce")
	vpAssert(p.Name == c.name, "a peer's record keeps its name")
	vpAssert(p.Version == c.version, "a peer's record keeps its version")
	vpAssert(p.State == c.state, "a peer's record keeps its state")
	vpAssert(p.NextAttempt.Equal(c.next), "a peer's record keeps its next attempt")
	if c.score == nil {
		vpAssert(p.Score == nil, "a peer without a score has none")
	} else {
		vpAssert(p.Score != nil && p.Score.Cmp(c.score) == 0, "a peer's record keeps its score")
	}
}

func (m *vpReg) list(ps []Peer, what string, n int, want func(c *vpRec) bool) {
	vpAssert(len(ps) == n, what+" are exactly the recorded ones")
	at := map[netip.Addr]int{}
	for i := range m.recs {
		at[vpAddr(i)] = i
	}
	seen := make([]bool, len(m.recs))
	for j := range ps {
		i, ok := at[ps[j].AddressPort.Addr()]
		vpAssert(ok, what+" contain known peers")
		if !ok {
			continue
		}
		vpAssert(want(&m.recs[i]), what+" contain only matching peers")
		m.compare(i, ps[j])
		vpAssert(!seen[i], what+" are listed once")
		seen[i] = true
		if j > 0 {
			vpAssert(vpUpper(ps[j-1].Name) <= vpUpper(ps[j].Name), what+" are ordered by name ignoring case")
		}
	}
}

func vpUpper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// prior brings peer i into one of the states a longer history leads to.
func (m *vpReg) prior(i int) {
	join := func() {
		hs := vpHandshake("wavesW", m.okVersion(i), "Prior", 77)
		hs.DeclaredAddr = proto.HandshakeTCPAddr(*vpTCP(vpAddr(i), 6860))
		m.connect(i, hs)
		m.score(i, big.NewInt(1000))
	}
	switch vpInt("prior", 0, vpParam("priors", 6)) {
	case 1: // known by gossip
		m.gossip(i, 6868)
	case 2: // offered a version, never connected
		m.gossip(i, 6868)
		m.suggest(i)
		vpAdvance(11 * time.Minute)
	case 3: // connected
		join()
	case 4: // connected before
		join()
		m.unregister(i)
		vpAdvance(11 * time.Minute)
	case 5: // being dialled, connected before
		join()
		m.unregister(i)
		vpAdvance(11 * time.Minute)
		m.take()
	case 6: // hostile, its port is known
		join()
		m.connect(i, vpHandshake("wavesT", m.okVersion(i), "other", 5))
		vpAdvance(11 * time.Minute)
	case 7: // left just now
		join()
		m.unregister(i)
	case 8: // offered a version just now
		m.gossip(i, 6868)
		m.suggest(i)
	}
}

var vpNames = []string{"zeta", "Alpha", "beta", ""}

func vpHandshake(app string, v proto.Version, name string, nonce uint64) proto.Handshake {
	return proto.Handshake{AppName: app, Version: v, NodeName: name, NodeNonce: nonce}
}
