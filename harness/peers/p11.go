package peers

import (
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
)

// VP_P11 makes and breaks several connections with the same peers.
func VP_P11() {
	n := vpParam("n", 3)
	m := vpNewReg(2)
	var conns []*vpPeer
	var of []int
	bad := map[*vpPeer]bool{} // refused or failed
	for j := 0; j < n; j++ {
		i := vpInt("peer", 0, 1)
		switch vpInt("op", 0, 5) {
		case 0: // The peer connects, or is connected to, maybe once more.
			p := m.connect(i, vpHandshake("wavesW", m.okVersion(i), "node", uint64(j)))
			conns, of = append(conns, p), append(of, i)
		case 1: // A node of another network connects from the same address.
			p := m.connect(i, vpHandshake("wavesT", m.okVersion(i), "node", uint64(j)))
			conns, of = append(conns, p), append(of, i)
		case 2: // Any connection made so far fails.
			if len(conns) == 0 {
				vpAssume(false)
			}
			k := vpInt("conn", 0, len(conns)-1)
			m.fail(of[k], conns[k])
		case 3: // An attempt to connect fails.
			m.fail(i, nil)
		case 4: // Addresses are taken for dialling.
			m.take()
		case 5:
			vpAdvance(10*time.Minute + time.Second)
		}
		m.check()
		for k, p := range conns {
			if p.closed > 0 {
				bad[p] = true
			}
			vpAssert(m.recs[of[k]].connected == p || bad[p] || m.failed[p], "every connection but the registered one is closed")
			vpAssert(m.recs[of[k]].connected != p || p.closed == 0, "the registered connection is open")
		}
		for i := range m.recs {
			k := 0
			for l, p := range conns {
				if of[l] == i && p.closed == 0 && !m.failed[p] {
					k++
				}
			}
			vpAssert(k <= 1, "a peer has at most one connection")
		}
	}
	vpNoErr(m.r.Close(), "the registry closes")
	vpReach("end")
}

// fail reports the failure of a connection of peer i, which is not established if it is nil.
func (m *vpReg) fail(i int, p *vpPeer) {
	if m.failed == nil {
		m.failed = map[*vpPeer]bool{}
	}
	var np peer.Peer
	if p != nil {
		np = p
		m.failed[p] = true
	}
	c := &m.recs[i]
	err := m.r.UnregisterPeer(vpAddr(i), np)
	c.pending = false
	if c.connected != nil && c.connected != p {
		vpNoErr(err, "a failure of another connection is fine")
		vpReach("other")
		return
	}
	if !c.known {
		vpAssert(err != nil, "an unknown peer cannot be unregistered")
		return
	}
	vpNoErr(err, "a known peer is unregistered")
	c.connected = nil
	c.next = time.Now().Add(10 * time.Minute).Round(time.Second)
	vpReach("own")
}
