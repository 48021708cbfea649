package main

import (
	"bytes"
	"context"
	"math/big"
	"net"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The harnesses of this file are about many peers, long lists and long sequences of messages, which the others cannot
// go through entirely: a page, a byte, a queue or a limit that nothing small reaches.

// VP_many_peers lets many peers connect, talk and go away.
func VP_many_peers() {
	n, k := vpParam("n", 70), vpParam("k", 300)
	s := vpNewSys(n)
	s.known = make([]bool, k+1)
	s.known[0] = true
	s.run()
	for i := 0; i < n; i++ {
		s.connect(i)
		s.on[i] = true
		s.conns[i].sent = nil // requests for peers once a minute are looked at below
	}
	x := []int{0, n / 2, n - 1}[vpInt("x", 0, 2)]
	// Lists of IDs.
	var sigs []crypto.Signature
	var ids []proto.BlockID
	for j := 0; j < k; j++ {
		sigs = append(sigs, vpSig(5000+j))
		var d crypto.Digest
		d[0], d[30], d[31] = 0x66, byte(j>>8), byte(j)
		ids = append(ids, proto.NewBlockIDFromDigest(d))
	}
	s.message(x, &proto.SignaturesMessage{Signatures: sigs})
	vpAssert(len(s.ids) == 1 && s.ids[0].Peer == vpAddr(x) && len(s.ids[0].IDs) == k, "all signatures are passed on once under the sender's address")
	for j := range sigs {
		vpAssert(s.ids[0].IDs[j] == proto.NewBlockIDFromSignature(sigs[j]), "signatures are passed on in order")
	}
	s.message(x, &proto.BlockIdsMessage{Blocks: ids})
	vpAssert(len(s.ids) == 1 && s.ids[0].Peer == vpAddr(x) && len(s.ids[0].IDs) == k, "all block IDs are passed on once under the sender's address")
	for j := range ids {
		vpAssert(s.ids[0].IDs[j] == ids[j], "block IDs are passed on in order")
	}
	// A request for peers.
	s.message(x, &proto.GetPeersMessage{})
	vpAssert(len(s.conns[x].sent) == 1, "a request for peers is answered once")
	m, ok := s.conns[x].sent[0].(*proto.PeersMessage)
	vpAssert(ok && len(m.Peers) == n, "the answer lists the friendly peers")
	had := make([]bool, n)
	for _, pi := range m.Peers {
		b := pi.Addr.To4()
		i := int(b[1])<<8 + int(b[2])
		vpAssert(i < n && !had[i] && int(pi.Port) == vpDeclPort(i), "the answer carries the addresses and ports of peers")
		had[i] = true
	}
	s.conns[x].sent = nil
	// A list of addresses.
	list := &proto.PeersMessage{}
	for j := 0; j < k; j++ {
		a := vpAddr(1000 + j).As4()
		list.Peers = append(list.Peers, proto.PeerInfo{Addr: net.IPv4(a[0], a[1], a[2], a[3]), Port: uint16(6000 + j)})
	}
	s.message(x, list)
	as, err := s.reg.TakeAvailableAddresses()
	vpNoErr(err, "available addresses are handed out")
	vpAssert(len(as) == k, "exactly the new addresses become available")
	seen := map[netip.AddrPort]bool{}
	for _, a := range as {
		b := a.Addr().As4()
		j := int(b[1])<<8 + int(b[2]) - 1000
		vpAssert(j >= 0 && j < k && int(a.Port()) == 6000+j && !seen[a], "an announced address becomes available as announced")
		seen[a] = true
	}
	// A chain of blocks of all peers; every tenth one comes once too early.
	for j := 1; j <= k; j++ {
		i := j * 3 % n
		b := vpBlock(j, j-1)
		if j%10 == 0 {
			s.message(i, &proto.BlockMessage{BlockBytes: vpBlockBytes(vpBlock(j+1, j))})
			vpAssert(len(s.blocks) == 1, "a block is passed on exactly once")
		}
		s.message(i, &proto.BlockMessage{BlockBytes: vpBlockBytes(b)})
		vpAssert(len(s.blocks) == 1 && s.blocks[0].Peer == vpAddr(i) && s.blocks[0].Block.BlockID() == b.BlockID(), "a block is passed on exactly once under the sender's address")
		s.known[j] = true
		s.leash[i] = j
		if j%7 == 0 {
			s.message(i, &proto.ScoreMessage{Score: []byte{1, byte(j >> 8), byte(j)}})
			s.score[i] = new(big.Int).SetBytes([]byte{1, byte(j >> 8), byte(j)})
		}
	}
	s.check()
	s.quiet(-1)
	// Two minutes, between them every third peer goes away.
	for round := 0; round < 2; round++ {
		vpAdvance(time.Minute)
		vpWait()
		for i, c := range s.conns {
			want := 0
			if s.on[i] {
				want = 1
			}
			vpAssert(len(c.sent) == want, "every connected peer is asked for peers once a minute")
			for _, m := range c.sent {
				_, ok := m.(*proto.GetPeersMessage)
				vpAssert(ok, "peers are only asked for peers")
			}
			c.sent = nil
		}
		for i := x % 3; i < n && round == 0; i += 3 {
			s.info(i, &peer.InternalErr{Err: errVP})
			vpAssert(s.conns[i].closed > 0, "a failed connection is closed")
			s.on[i] = false
		}
		s.check()
	}
	s.stop()
	vpReach("end")
}

// VP_many_dials dials many addresses for half an hour.
func VP_many_dials() {
	na := vpParam("addrs", 120)
	s := vpNewSys(0)
	ts := make([]*vpTarget, na)
	at := map[string]*vpTarget{}
	shift := vpInt("shift", 0, 4)
	for i := range ts {
		t := &vpTarget{ap: netip.AddrPortFrom(vpAddr(5+i), uint16(6000+i)), port: true}
		t.declares = i%2 == 0
		t.outcome = []int{(i + shift) % 5, (i + i/5) % 5, vpGood}
		vpAssert(s.reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(t.ap)}) == 1, "an address is added")
		ts[i] = t
		at[t.ap.String()] = t
	}
	vpNetDial(func(ctx context.Context, network, address string) (net.Conn, error) {
		t, ok := at[address]
		vpAssert(network == "tcp" && ok, "only known addresses are dialled")
		if !ok {
			return nil, errVP
		}
		return t.dial()
	})
	cm := NewConnectionManager(vpScheme, "node", 17, proto.TCPAddr{}, s.reg, s.parent)
	respawn := NewRespawn(s.reg, cm)
	s.run()
	respawn.Run(s.ctx)
	now := time.Now()
	for j := 0; j < 3; j++ {
		rounds := 1
		if j > 0 {
			rounds = 61
		}
		for r := 0; r < rounds; r++ {
			now = now.Add(10 * time.Second)
			for _, t := range ts {
				t.expect(now)
			}
		}
		vpAdvance(time.Duration(rounds) * 10 * time.Second)
		vpWait()
		cs, err := s.reg.Connections()
		vpNoErr(err, "connections are listed")
		m := 0
		for _, t := range ts {
			vpAssert(t.dials == t.want, "every available address is dialled exactly once a round")
			if t.live != nil {
				m++
			}
			for _, c := range t.conns {
				if c != t.live {
					vpAssert(c.closed > 0, "a connection that is not registered is closed")
				} else {
					vpAssert(c.closed == 0, "a registered connection is open")
				}
				if c.fail < 0 {
					var h proto.Handshake
					_, err := h.ReadFrom(bytes.NewReader(c.out))
					vpNoErr(err, "a handshake is sent")
				}
			}
		}
		vpAssert(len(cs) == m, "exactly the live connections are registered")
	}
	s.cancel()
	respawn.Shutdown()
	s.d.Shutdown()
	vpWait()
	for _, t := range ts {
		for _, c := range t.conns {
			vpAssert(c.closed > 0, "every connection is closed in the end")
		}
	}
	vpReach("end")
}
