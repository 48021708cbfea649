package peers

import (
	"math/big"
	"net"
)

// VP_P10_listings lets one read of the storage fail while peers are listed or addresses are taken.
func VP_P10_listings() {
	m := vpNewReg(3)
	for i := range m.recs {
		switch vpInt("state", 0, 3) {
		case 1:
			m.gossip(i, 6868)
		case 2:
			m.connect(i, vpHandshake("wavesW", m.okVersion(i), vpNames[i], 3))
			if vpBool("scored") {
				m.score(i, big.NewInt(5))
			}
		case 3:
			m.hostile(i)
		}
	}
	k := vpInt("read", 0, 3)
	vpReadFault(k)
	var ps []Peer
	var as []net.Addr
	var err error
	q := vpInt("query", 0, 5)
	i := 0
	switch q {
	case 0:
		i = vpInt("of", 0, 2)
		var p Peer
		p, err = m.r.Peer(vpAddr(i))
		ps = []Peer{p}
	case 1:
		ps, err = m.r.Peers()
	case 2:
		ps, err = m.r.FriendlyPeers()
	case 3:
		ps, err = m.r.Connections()
	case 4:
		as, err = m.r.Addresses()
	case 5:
		_, err = m.r.TakeAvailableAddresses()
	}
	hit := vpReads() > k
	vpReadFault(-1)
	vpAssume(hit)
	if err != nil {
		vpReach("reported")
	} else {
		vpReach("unaffected")
		count := func(want func(c *vpRec) bool) (n int) {
			for i := range m.recs {
				if want(&m.recs[i]) {
					n++
				}
			}
			return n
		}
		known := func(c *vpRec) bool { return c.known }
		friend := func(c *vpRec) bool { return c.known && c.state == PeerConnected }
		conn := func(c *vpRec) bool { return c.connected != nil }
		switch q {
		case 0:
			vpAssert(m.recs[i].known, "a failed read does not invent a peer")
			m.compare(i, ps[0])
		case 1:
			m.list(ps, "peers", count(known), known)
		case 2:
			m.list(ps, "friendly peers", count(friend), friend)
		case 3:
			m.list(ps, "connections", count(conn), conn)
		case 4:
			vpAssert(len(as) == count(friend), "the addresses are those of friendly peers")
		case 5:
			vpAssert(false, "a failed read while taking addresses is reported")
		}
	}
	m.check()
	m.take() // nothing was taken by a call that failed
	m.check()
	vpNoErr(m.r.Close(), "the registry closes")
}

// VP_P10_changes lets one read of the storage fail during any operation and repeats the operation.
func VP_P10_changes() {
	op := vpInt("op", 0, 6)
	known := vpInt("known", 0, 4)
	var ms [2]*vpReg // The second one is not interrupted.
	for i := range ms {
		m := vpNewReg(2)
		m.connect(1, vpHandshake("wavesW", m.okVersion(1), "other", 3))
		m.score(1, big.NewInt(5))
		switch known {
		case 1:
			m.gossip(0, 6868)
		case 2:
			m.connect(0, vpHandshake("wavesW", m.okVersion(0), "peer", 4))
			m.score(0, big.NewInt(6))
		case 3:
			m.hostile(0)
		case 4:
			m.connect(0, vpHandshake("wavesW", m.okVersion(0), "peer", 4))
			m.score(0, big.NewInt(6))
			m.unregister(0)
		}
		ms[i] = m
	}
	hs := vpHandshake("wavesW", ms[0].okVersion(0), "again", 11)
	if op == 2 {
		hs.AppName = "wavesT"
	}
	m, ref := ms[0], ms[1]
	before, berr := m.r.Peer(vpAddr(0))
	k := vpInt("read", 0, 3)
	p := &vpPeer{hs: hs}
	vpReadFault(k)
	err := m.vpRaw(op, p)
	hit := vpReads() > k
	vpReadFault(-1)
	vpAssume(hit)
	rerr := ref.vpRaw(op, &vpPeer{hs: hs})
	after, aerr := ref.r.Peer(vpAddr(0))
	same := func(q Peer, qerr error) bool {
		now, nerr := m.r.Peer(vpAddr(0))
		if qerr != nil || nerr != nil {
			return qerr != nil && nerr != nil
		}
		return vpSamePeer(q, now)
	}
	if err == nil && op != 6 {
		vpAssert(rerr == nil && same(after, aerr), "an operation that succeeds has its effect")
		vpReach("unaffected")
	} else {
		vpAssert(same(before, berr) || op == 6 && same(after, aerr), "an operation that fails has none")
		if op == 1 || op == 2 {
			vpAssert(p.closed > 0, "the connection of a peer that is not registered is closed")
		}
		vpReach("reported")
	}
	cs, err := m.r.Connections()
	vpNoErr(err, "connections are listed")
	for _, c := range cs {
		vpAssert(c.p != p || p.closed == 0, "a closed connection is not listed")
		vpAssert(op != 3 && op != 5 || c.AddressPort.Addr() != vpAddr(0), "a peer that is gone is not connected, whatever happens to the storage")
	}
	vpAssert(len(cs) >= 1, "other peers stay connected")
	// Once the storage is back the operation can be repeated.
	if !same(after, aerr) {
		if op == 1 || op == 2 {
			_, err = m.r.SuggestVersion(vpAddr(0)) // the peer connects again
			vpAssert((err == nil) == (known != 3), "a peer connects again after a failure")
			p = &vpPeer{hs: hs}
		}
		err = m.vpRaw(op, p)
		if op != 1 && op != 2 {
			vpAssert((err == nil) == (rerr == nil), "an operation can be repeated after a failure")
			vpAssert(same(after, aerr), "a repeated operation has its effect")
		}
		vpReach("repeated")
	}
	other, err := m.r.Peer(vpAddr(1))
	vpNoErr(err, "other peers keep their records")
	m.compare(1, other)
	vpNoErr(m.r.Close(), "the registry closes")
	vpNoErr(ref.r.Close(), "the registry closes")
}
