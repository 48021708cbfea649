package peers

import (
	"math/big"
	"net"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// VP_again looks at everything before and after each of n operations, some of which fail to write.
func VP_again() {
	m := vpNewReg(vpParam("peers", 2))
	m.prior(0)
	m.check()
	if vpParam("takes", 0) == 1 {
		m.take()
	}
	for i := 0; i < vpParam("n", 2); i++ {
		if vpParam("faults", 1) == 1 && vpBool("fails") {
			m.unwritten(vpInt("peer", 0, len(m.recs)-1))
		} else {
			m.op(10)
		}
		m.check()
		msg := &proto.GetPeersMessage{}
		for i := range m.recs {
			if c := m.recs[i].connected; c != nil {
				c.sent = nil
			}
		}
		m.r.Broadcast(msg)
		for i := range m.recs {
			if c := m.recs[i].connected; c != nil {
				vpAssert(len(c.sent) == 1, "a broadcast reaches every connection once")
			}
		}
		if vpParam("takes", 0) == 1 {
			m.take()
		}
	}
	m.take()
	m.check()
	vpNoErr(m.r.Close(), "the registry closes")
	vpReach("end")
}

// unwritten is an operation that fails on writing.
func (m *vpReg) unwritten(i int) {
	c := &m.recs[i]
	vpFault(0, "error")
	switch vpInt("op", 0, 3) {
	case 0:
		_, err := m.r.SuggestVersion(vpAddr(i))
		vpAssert(err != nil || c.known && c.state == PeerConnected, "a version that cannot be recorded is not offered")
	case 1:
		err := m.r.UpdatePeerScore(vpAddr(i), big.NewInt(4711))
		vpAssert(err != nil, "a score that cannot be recorded is an error")
	case 2:
		n := m.r.AppendAddresses([]*net.TCPAddr{vpTCP(vpAddr(i), 6999)})
		vpAssert(n == 0, "an address that cannot be recorded is not counted")
	case 3:
		err := m.r.UnregisterPeer(vpAddr(i), m.conn(i))
		vpAssert(err != nil, "a failure of the storage is reported")
		c.connected = nil
		c.pending = false
	}
	vpFault(-1, "")
	vpReach("unwritten")
}
