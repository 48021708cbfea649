package main

import (
	"math/big"
	"net"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// vpOps is the number of messages and events of op.
const vpOps = 10

// op lets peer i send a fixed message, or something happen to its connection, and follows it in the model.
func (s *vpSys) op(i, kind int, check bool) {
	ids := []proto.BlockID{vpID(1), vpID(2)}
	nids, nblocks := 0, 0
	switch kind {
	case 0, 1: // Blocks, the second on top of the first.
		k := kind + 1
		if k == 1 {
			s.message(i, &proto.BlockMessage{BlockBytes: vpBlockBytes(vpBlock(k, vpParent(k)))})
		} else {
			s.message(i, &proto.PBBlockMessage{PBBlockBytes: vpPBBytes(vpBlock(k, vpParent(k)))})
		}
		if s.known[vpParent(k)] || s.known[k] {
			s.known[k] = true
			s.leash[i] = k
		}
		nblocks = 1
		if check {
			vpAssert(len(s.blocks) == 1, "a block is passed on exactly once")
			vpAssert(s.blocks[0].Peer == vpAddr(i) && s.blocks[0].Block.BlockID() == vpID(k), "a block is passed on under the sender's address")
		}
	case 2: // A micro-block on top of the first block.
		s.message(i, &proto.MicroBlockInvMessage{Body: vpMicro(5, 1)})
		if s.known[1] || s.known[5] {
			s.known[5] = true
			s.leash[i] = 5
		}
	case 3, 4: // Scores.
		s.message(i, &proto.ScoreMessage{Score: []byte{7, byte(kind)}})
		if s.met[i] {
			s.score[i] = big.NewInt(int64(7*256 + kind))
		}
	case 5:
		s.message(i, &proto.SignaturesMessage{Signatures: []crypto.Signature{vpSig(1), vpSig(2)}})
		nids = 1
	case 6:
		s.message(i, &proto.GetPeersMessage{})
		if check {
			s.friends(i)
		}
	case 7:
		s.message(i, &proto.PeersMessage{Peers: []proto.PeerInfo{{Addr: net.IPv4(52, 7, 7, 1), Port: 6868}, {Addr: net.IPv4(52, 7, 7, 2), Port: 6869}}})
		s.gossip = true
	case 8:
		s.info(i, &peer.InternalErr{Err: errVP})
		s.on[i] = false
	case 9:
		s.connect(i)
		s.on[i], s.met[i] = true, true
	}
	if !check {
		return
	}
	vpAssert(len(s.ids) == nids && len(s.blocks) == nblocks, "IDs and blocks are passed on, and nothing else")
	if nids == 1 {
		vpAssert(s.ids[0].Peer == vpAddr(i) && len(s.ids[0].IDs) == 2 && s.ids[0].IDs[0] == ids[0] && s.ids[0].IDs[1] == ids[1], "IDs are passed on in order under the sender's address")
	}
	s.check()
	if s.gossip {
		for j := 1; j <= 2; j++ {
			p, err := s.reg.Peer(netip.AddrFrom4([4]byte{52, 7, 7, byte(j)}))
			vpNoErr(err, "an address that was told is recorded")
			vpAssert(p.AddressPort.Port() == uint16(6867+j) && p.State == peers.PeerUnknown, "an address is recorded with its port")
		}
	}
}

// friends checks the answer to a request for peers.
func (s *vpSys) friends(i int) {
	vpAssert(len(s.conns[i].sent) == 1, "a request for peers is answered once")
	m, ok := s.conns[i].sent[0].(*proto.PeersMessage)
	vpAssert(ok, "a request for peers is answered with peers")
	n := 0
	for j := range s.conns {
		if s.met[j] {
			n++
		}
	}
	vpAssert(len(m.Peers) == n, "the answer lists the friendly peers")
	s.quiet(i)
}

// VP_M02_again delivers a message once more after something else happened, or after the storage failed.
func VP_M02_again() {
	s := vpNewSys(2)
	s.met = make([]bool, 2)
	s.run()
	s.op(0, 9, true)
	for j := vpInt("before", 0, 2); j > 0; j-- {
		s.op(1, 2*j-2, true) // A micro-block and the first block, the first block, or nothing.
	}
	kind := vpInt("kind", 0, vpOps-1)
	if vpBool("fails") {
		k := vpInt("at", 0, vpParam("at", 4))
		w, r := 1<<30, 1<<30
		if vpBool("write") {
			w = k
			vpFault(w, "error")
		} else {
			r = k
			vpReadFault(r)
		}
		if kind == 9 {
			s.info(0, &peer.InternalErr{Err: errVP})
			s.info(0, &peer.Connected{Peer: s.conns[0]})
		} else {
			s.op(0, kind, false)
		}
		vpAssume(vpWrites() > w || vpReads() > r)
		vpFault(-1, "error")
		vpReadFault(-1)
		for _, c := range s.conns {
			c.sent = nil
		}
		vpReach("fault")
	} else {
		s.op(0, kind, true)
		for j := 0; j < vpParam("n", 1); j++ {
			e := vpInt("event", 0, 2*vpOps-1)
			if i := e / vpOps; e%vpOps != 9 || !s.on[i] {
				s.op(i, e%vpOps, true)
			}
		}
	}
	if kind != 9 || !s.on[0] {
		s.op(0, kind, true)
	}
	s.stop()
	vpReach("end")
}
