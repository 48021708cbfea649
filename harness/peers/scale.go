package peers

import (
	"math/big"
	"net"
	"net/netip"
	"strconv"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The harnesses of this file are about registries and lists much larger than what the others can go through
// entirely: a page, a byte, a cache or a limit that no small registry reaches. Only a few things are free in them.

// crowd brings n peers into all the states a peer can be in and returns all connections ever made.
func (m *vpReg) crowd() []*vpPeer {
	conns := []*vpPeer{}
	join := func(i int) {
		hs := vpHandshake("wavesW", m.okVersion(i), "peer "+strconv.Itoa(i*7%len(m.recs)), uint64(i))
		if i%3 != 0 {
			hs.DeclaredAddr = proto.HandshakeTCPAddr(*vpTCP(vpAddr(i), 6000+i))
		}
		conns = append(conns, m.connect(i, hs))
		m.score(i, big.NewInt(int64(1000+i)))
	}
	for i := range m.recs {
		switch i % 8 {
		case 1:
			m.gossip(i, 5000+i)
		case 2:
			m.gossip(i, 5000+i)
			m.suggest(i)
		case 3, 4:
			join(i)
		case 5:
			join(i)
			m.unregister(i)
		case 6:
			join(i)
			conns = append(conns, m.connect(i, vpHandshake("wavesT", m.okVersion(i), "other", 5)))
		case 7:
			m.hostile(i)
		}
	}
	return conns
}

// broadcast sends a message to everybody and checks who got it.
func (m *vpReg) broadcast(conns []*vpPeer) {
	before := make([]int, len(conns))
	for i, c := range conns {
		before[i] = len(c.sent)
	}
	m.r.Broadcast(&proto.GetPeersMessage{})
	current := map[*vpPeer]bool{}
	for i := range m.recs {
		if c := m.recs[i].connected; c != nil {
			current[c] = true
		}
	}
	for i, c := range conns {
		if current[c] {
			vpAssert(len(c.sent) == before[i]+1, "a broadcast reaches every connection once")
		} else {
			vpAssert(len(c.sent) == before[i], "a broadcast reaches nobody else")
		}
	}
}

// VP_crowd does any operation in a registry of many peers, and compares records, listings, hand-outs and broadcasts with the model.
func VP_crowd() {
	n := vpParam("n", 300)
	m := vpNewReg(n)
	conns := m.crowd()
	// The one everything is free about: one of the last peers, in any state.
	x := n - 1 - vpInt("x", 0, 7)
	switch vpInt("op", 0, 5) {
	case 0:
		conns = append(conns, m.connect(x, vpHandshake("wavesW", m.okVersion(x), "zz", vpU64("nonce"))))
	case 1:
		conns = append(conns, m.connect(x, vpHandshake("wavesT", m.okVersion(x), "other", 5)))
	case 2:
		m.unregister(x)
	case 3:
		m.score(x, new(big.Int).SetUint64(vpU64("score")))
	case 4:
		m.hostile(x)
	case 5:
		m.reopen()
	}
	m.check()
	m.broadcast(conns)
	m.take()
	m.take()
	vpAdvance(11 * time.Minute)
	m.take()
	m.take()
	m.reopen()
	m.check()
	m.take()
	vpReach("crowd")
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_gossip_many offers a long list of addresses, old and new, some twice.
func VP_gossip_many() {
	n := vpParam("n", 300)
	m := vpNewReg(2 * n)
	for i := 0; i < n; i += 2 {
		if i%3 == 0 {
			m.hostile(i)
		} else {
			m.gossip(i, 7000+i)
		}
	}
	as := []*net.TCPAddr{}
	want := 0
	skip := vpInt("skip", 0, 3)
	for i := 0; i < 2*n; i++ {
		if i%4 == skip {
			continue
		}
		as = append(as, vpTCP(vpAddr(i), 7000+i))
		if i%5 == 0 {
			as = append(as, vpTCP(vpAddr(i), 9000+i), vpTCP(vpSelf(), 6868), vpTCP(netip.AddrFrom4([4]byte{127, 0, 0, byte(i)}), 1))
		}
		if i >= n || i%2 == 1 {
			want++
			m.recs[i].known = true
			m.recs[i].port = uint16(7000 + i)
		}
	}
	vpAssert(m.r.AppendAddresses(as) == want, "the number of added addresses is returned")
	m.check()
	m.take()
	vpReach("gossip")
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_versions_many offers a peer all the configured versions, one after another, and starts over.
func VP_versions_many() {
	k := vpParam("k", 40)
	vs := []proto.Version{}
	for i := 0; i < k; i++ {
		// Neither ordered nor without repetitions of the major and minor number.
		j := i * 7 % k
		vs = append(vs, proto.NewVersion(uint32(j/300), uint32(j%300), uint32(1+i)))
		if i%5 == 0 {
			vs = append(vs, proto.NewVersion(uint32(j/300), uint32(j%300), uint32(i)))
		}
	}
	r, err := NewRegistry(vpScheme, vpDeclared(), vs, vpTempDir())
	vpNoErr(err, "the registry opens")
	if vpInt("gossip", 0, 1) == 1 {
		r.AppendAddresses([]*net.TCPAddr{vpTCP(vpAddr(0), 6868)})
	}
	for round := 0; round < 2; round++ {
		for i := k - 1; i >= 0; i-- {
			v, err := r.SuggestVersion(vpAddr(0))
			vpNoErr(err, "a version is offered")
			vpAssert(v.Major() == uint32(i/300) && v.Minor() == uint32(i%300), "versions are offered from the latest to the earliest, then again")
		}
	}
	vpReach("cycle")
	vpNoErr(r.Close(), "the registry closes")
}

// VP_requests_many sends a request of many IDs.
func VP_requests_many() {
	k := vpParam("k", 300)
	old := vpInt("old", 0, 1) == 1
	v := proto.NewVersion(1, 5, 0)
	if old {
		v = proto.NewVersion(1, 1, 0)
	}
	p := &vpPeer{hs: vpHandshake("wavesW", v, "node", 1)}
	r, err := NewRegistry(vpScheme, vpDeclared(), []proto.Version{v}, vpTempDir())
	vpNoErr(err, "the registry opens")
	_, err = r.SuggestVersion(vpAddr(0))
	vpNoErr(err, "a version is offered")
	vpNoErr(r.RegisterPeer(vpAddr(0), p, p.hs), "a compatible peer is registered")
	cs, err := r.Connections()
	vpNoErr(err, "connections are listed")
	vpAssert(len(cs) == 1, "the peer is connected")
	ids := []proto.BlockID{}
	last := vpBytes("last", 32)
	for i := 0; i < k; i++ {
		var s crypto.Signature
		var d crypto.Digest
		if i == k-1 {
			copy(s[:], last)
			copy(d[:], last)
		} else {
			s[0], s[1], d[0], d[1] = byte(i>>8), byte(i), byte(i>>8), byte(i)
		}
		if old || i%3 == 0 {
			ids = append(ids, proto.NewBlockIDFromSignature(s))
		} else {
			ids = append(ids, proto.NewBlockIDFromDigest(d))
		}
	}
	cs[0].RequestBlockIDs(ids)
	vpAssert(len(p.sent) == 1, "exactly one request goes out")
	if old {
		m, ok := p.sent[0].(*proto.GetSignaturesMessage)
		vpAssert(ok && len(m.Signatures) == k, "the request carries all IDs")
		for i := range ids {
			vpAssert(m.Signatures[i] == ids[i].Signature(), "the request carries the IDs in order")
		}
	} else {
		m, ok := p.sent[0].(*proto.GetBlockIdsMessage)
		vpAssert(ok && len(m.Blocks) == k, "the request carries all IDs")
		for i := range ids {
			vpAssert(m.Blocks[i] == ids[i], "the request carries the IDs in order")
		}
	}
	for i := range ids {
		cs[0].RequestBlock(ids[i])
		b, ok := p.sent[len(p.sent)-1].(*proto.GetBlockMessage)
		vpAssert(ok && len(p.sent) == i+2 && b.BlockID == ids[i], "a block is requested by its ID")
	}
	vpReach("requests")
	vpNoErr(r.Close(), "the registry closes")
}
