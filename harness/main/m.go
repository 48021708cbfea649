package main

import (
	"io"
	"math/big"
	"net"
	"net/netip"
	"os"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// VP_M01 asks for the fate of a message of any kind.
func VP_M01() {
	cm := NewConnectionManager(vpScheme, "node", 1, proto.TCPAddr{}, nil, peer.NewParent(true))
	id := vpU8("id")
	h := proto.Header{ContentID: proto.PeerMessageID(id), PayloadLength: vpU32("len"), Length: vpU32("total"), Magic: vpU32("magic")}
	skip := cm.skipFunc(h)
	handled := false
	for _, k := range []proto.PeerMessageID{
		proto.ContentIDGetPeers, proto.ContentIDPeers, proto.ContentIDSignatures, proto.ContentIDBlock,
		proto.ContentIDScore, proto.ContentIDInvMicroblock, proto.ContentIDPBBlock, proto.ContentIDBlockIDs,
	} {
		handled = vpOr(handled, id == uint8(k))
	}
	dropped := false
	for _, k := range []proto.PeerMessageID{
		proto.ContentIDGetSignatures, proto.ContentIDGetBlock, proto.ContentIDTransaction, proto.ContentIDCheckpoint,
		proto.ContentIDMicroblockRequest, proto.ContentIDMicroblock, proto.ContentIDPBMicroBlock,
		proto.ContentIDPBTransaction, proto.ContentIDGetBlockIDs, proto.ContentIDGetBlockSnapshot,
		proto.ContentIDMicroBlockSnapshot, proto.ContentIDBlockSnapshot, proto.ContentIDMicroBlockSnapshotRequest,
	} {
		dropped = vpOr(dropped, id == uint8(k))
	}
	vpAssert(vpImplies(handled, !skip), "a kind of messages the detector handles is let through")
	vpAssert(vpImplies(dropped, skip), "a kind of messages the detector does not handle is dropped")
	vpReach("end")
}

// check compares the registry and the store with the model.
func (s *vpSys) check() {
	n := 0
	for i := range s.conns {
		l, err := s.link.HasLeash(vpAddr(i))
		vpNoErr(err, "leashes can be asked for")
		vpAssert(l == (s.leash[i] >= 0), "a peer has a leash exactly if it sent a block")
		if s.leash[i] >= 0 {
			id, err := s.link.Leash(vpAddr(i))
			vpNoErr(err, "a leash reads back")
			vpAssert(id == vpID(s.leash[i]), "a peer's leash is the last block it sent")
		}
		p, err := s.reg.Peer(vpAddr(i))
		if err == nil {
			if s.score[i] == nil {
				vpAssert(p.Score == nil, "a peer that announced no score has none")
			} else {
				vpAssert(p.Score != nil && p.Score.Cmp(s.score[i]) == 0, "a peer's score is the last one it announced")
			}
		}
		if s.on[i] {
			n++
		}
	}
	for i, k := range s.known {
		ok, err := s.link.HasBlock(vpID(i))
		vpNoErr(err, "blocks can be asked for")
		vpAssert(ok == k, "exactly the blocks with known ancestors are recorded")
	}
	cs, err := s.reg.Connections()
	vpNoErr(err, "connections are listed")
	vpAssert(len(cs) == n, "exactly the connected peers are registered")
	for i := range s.conns {
		found := false
		for _, c := range cs {
			found = found || c.AddressPort.Addr() == vpAddr(i)
		}
		vpAssert(found == s.on[i], "a peer is registered exactly while it is connected")
	}
}

// quiet checks that nothing but the expected messages went to peers.
func (s *vpSys) quiet(expect int) {
	for i, c := range s.conns {
		if i != expect {
			vpAssert(len(c.sent) == 0, "no other peer is sent anything")
		}
		c.sent = nil
	}
}

// step delivers one message or event.
func (s *vpSys) step(i, kind int) {
	switch kind {
	case 0: // A block on top of a known block, or a known one, in the binary encoding.
		k := vpInt("block", 1, 3)
		s.block(i, k, &proto.BlockMessage{BlockBytes: vpBlockBytes(vpBlock(k, vpParent(k)))})
	case 1: // The same in the Protobuf encoding.
		k := vpInt("block", 1, 3)
		s.block(i, k, &proto.PBBlockMessage{PBBlockBytes: vpPBBytes(vpBlock(k, vpParent(k)))})
	case 2: // A micro-block.
		ref := vpInt("ref", 1, 3)
		k := 4 + ref
		s.message(i, &proto.MicroBlockInvMessage{Body: vpMicro(k, ref)})
		vpAssert(len(s.ids) == 0 && len(s.blocks) == 0, "a micro-block is not passed on")
		if s.known[ref] || s.known[k] {
			s.known[k] = true
			s.leash[i] = k
			vpReach("micro")
		}
	case 3: // A score of any value.
		b := vpBytes("score", []int{0, 1, 3, 9, 17}[vpInt("scorelen", 0, 4)])
		s.message(i, &proto.ScoreMessage{Score: b})
		vpAssert(len(s.ids) == 0 && len(s.blocks) == 0, "a score is not passed on")
		s.score[i] = new(big.Int).SetBytes(b)
	case 4: // Signatures.
		n := vpInt("n", 0, 3)
		var sigs []crypto.Signature
		for j := 0; j < n; j++ {
			var x crypto.Signature
			copy(x[:], vpBytes("sig", 64))
			sigs = append(sigs, x)
		}
		s.message(i, &proto.SignaturesMessage{Signatures: sigs})
		vpAssert(len(s.blocks) == 0, "signatures are no blocks")
		if n > 0 {
			vpAssert(len(s.ids) == 1, "signatures are passed on once")
		}
		if len(s.ids) > 0 {
			vpAssert(s.ids[0].Peer == vpAddr(i), "signatures are passed on under the sender's address")
			vpAssert(len(s.ids[0].IDs) == n, "all signatures are passed on")
			for j := range sigs {
				vpAssert(s.ids[0].IDs[j] == proto.NewBlockIDFromSignature(sigs[j]), "signatures are passed on in order")
			}
			vpReach("sigs")
		}
	case 5: // Block IDs.
		n := vpInt("n", 0, 3)
		var ids []proto.BlockID
		for j := 0; j < n; j++ {
			var x crypto.Digest
			copy(x[:], vpBytes("id", 32))
			ids = append(ids, proto.NewBlockIDFromDigest(x))
		}
		s.message(i, &proto.BlockIdsMessage{Blocks: ids})
		vpAssert(len(s.blocks) == 0, "block IDs are no blocks")
		if n > 0 {
			vpAssert(len(s.ids) == 1, "block IDs are passed on once")
		}
		if len(s.ids) > 0 {
			vpAssert(s.ids[0].Peer == vpAddr(i), "block IDs are passed on under the sender's address")
			vpAssert(len(s.ids[0].IDs) == n, "all block IDs are passed on")
			for j := range ids {
				vpAssert(s.ids[0].IDs[j] == ids[j], "block IDs are passed on in order")
			}
			vpReach("ids")
		}
	case 6: // A connection error.
		c := s.conns[i]
		c.broken = vpBool("broken")
		closed := c.closed
		s.info(i, &peer.InternalErr{Err: vpConnErr(vpInt("err", 0, 3))})
		vpAssert(c.closed > closed, "a failed connection is closed")
		vpAssert(len(s.ids) == 0 && len(s.blocks) == 0, "a connection error is not passed on")
		s.on[i] = false
		vpReach("error")
	case 7: // A new connection.
		if !s.on[i] {
			s.connect(i)
			s.on[i] = true
			vpAssert(len(s.ids) == 0 && len(s.blocks) == 0, "a new connection is not passed on")
		}
	case 8: // A request for peers.
		s.message(i, &proto.GetPeersMessage{})
		vpAssert(len(s.ids) == 0 && len(s.blocks) == 0, "a request for peers is not passed on")
		vpAssert(len(s.conns[i].sent) == 1, "a request for peers is answered once")
		if m, ok := s.conns[i].sent[0].(*proto.PeersMessage); ok {
			n := 0
			for j := range s.conns {
				if p, err := s.reg.Peer(vpAddr(j)); err == nil && p.State == peers.PeerConnected {
					n++
				}
			}
			vpAssert(len(m.Peers) == n, "the answer lists the friendly peers")
			for _, pi := range m.Peers {
				ok := false
				for j := range s.conns {
					a := vpAddr(j).As4()
					ok = ok || pi.Addr.Equal(net.IPv4(a[0], a[1], a[2], a[3])) && int(pi.Port) == vpDeclPort(j)
				}
				vpAssert(ok, "the answer carries the addresses and ports of peers")
			}
		} else {
			vpAssert(false, "a request for peers is answered with peers")
		}
		s.quiet(i)
	case 9: // Messages that do not parse or mean nothing.
		switch vpInt("junk", 0, 4) {
		case 0:
			b := vpBlockBytes(vpBlock(1, 0))
			s.message(i, &proto.BlockMessage{BlockBytes: vpCut(b, vpInt("cut", 0, 2)*60)})
		case 1:
			b := vpPBBytes(vpBlock(1, 0))
			s.message(i, &proto.PBBlockMessage{PBBlockBytes: vpCut(b, vpInt("cut", 0, 2)*60)})
		case 2:
			b := vpMicro(4, 0)
			s.message(i, &proto.MicroBlockInvMessage{Body: vpCut(b, vpInt("cut", 0, 2)*70)})
		case 3:
			s.message(i, &proto.PeersMessage{})
		case 4:
			s.message(i, &proto.CheckPointMessage{})
		}
		vpAssert(len(s.ids) == 0 && len(s.blocks) == 0, "what does not parse is not passed on")
		vpReach("junk")
	}
	s.quiet(-1)
	s.check()
}

// vpConnErr is an error a connection fails with.
func vpConnErr(k int) error {
	return []error{errVP, io.EOF, net.ErrClosed, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}}[k]
}

// vpCut is the first n bytes of a message.
func vpCut(b []byte, n int) []byte {
	r := make([]byte, n)
	copy(r, b)
	return r
}

// vpParent is the parent of the block k of the pool: 0 <- 1 <- 2, 0 <- 3.
func vpParent(k int) int {
	return []int{-1, 0, 1, 0}[k]
}

func (s *vpSys) block(i, k int, m proto.Message) {
	s.message(i, m)
	vpAssert(len(s.ids) == 0, "a block is no list of IDs")
	vpAssert(len(s.blocks) == 1, "a block is passed on exactly once")
	vpAssert(s.blocks[0].Peer == vpAddr(i), "a block is passed on under the sender's address")
	b, w := s.blocks[0].Block, vpBlock(k, vpParent(k))
	vpAssert(b.BlockID() == w.BlockID(), "the block that is passed on is the one received")
	vpAssert(b.Parent == w.Parent && b.Timestamp == w.Timestamp && b.BaseTarget == w.BaseTarget && b.GeneratorPublicKey == w.GeneratorPublicKey,
		"the block is passed on unchanged")
	if s.known[vpParent(k)] || s.known[k] {
		s.known[k] = true
		s.leash[i] = k
		vpReach("block")
	} else {
		vpReach("orphan")
	}
}

// VP_M02_seq delivers any sequence of messages and events of two peers.
func VP_M02_seq() {
	s := vpNewSys(2)
	s.run()
	s.step(0, 7)
	s.step(1, 7)
	// An address nobody has connected to so far.
	s.message(0, &proto.PeersMessage{Peers: []proto.PeerInfo{{Addr: net.IPv4(52, 7, 7, 9), Port: 6868}}})
	n := vpParam("n", 2)
	for j := 0; j < n; j++ {
		s.step(vpInt("peer", 0, 1), vpInt("kind", 0, 9))
	}
	s.stop()
	vpReach("end")
}

// VP_M02_block delivers a block with any contents in either encoding.
func VP_M02_block() {
	s := vpNewSys(2)
	s.run()
	s.step(0, 7)
	s.step(1, 7)
	b := vpBlock(1, vpInt("parent", 0, 1)*10) // known or unknown
	b.BaseTarget = []uint64{0, 1, vpBT, 1<<63 - 1}[vpInt("bt", 0, 3)]
	b.GeneratorPublicKey[31] = byte(vpInt("gen", 0, 1))
	var m proto.Message
	if vpBool("pb") {
		b.Timestamp = []uint64{0, 1, 1700000000000, 1<<63 - 1}[vpInt("ts", 0, 3)]
		b.Version = proto.BlockVersion(vpInt("version", 1, 5))
		m = &proto.PBBlockMessage{PBBlockBytes: vpPBBytes(b)}
	} else {
		b.Timestamp = vpU64("ts")
		vpAssume(vpOr(b.Timestamp < 1<<47, b.Timestamp > 1<<50))
		b.Version = proto.BlockVersion(vpInt("version", 3, 4))
		m = &proto.BlockMessage{BlockBytes: vpBlockBytes(b)}
	}
	i := vpInt("peer", 0, 1)
	s.message(i, m)
	vpAssert(len(s.ids) == 0, "a block is no list of IDs")
	if b.Timestamp > 1<<50 && b.Parent == vpID(0) { // From a future that is never to come.
		vpAssert(len(s.blocks) <= 1, "a block is passed on at most once")
		s.check()
		s.stop()
		vpReach("impossible")
		return
	}
	vpAssert(len(s.blocks) == 1, "a block is passed on exactly once")
	vpAssert(s.blocks[0].Peer == vpAddr(i), "a block is passed on under the sender's address")
	g := s.blocks[0].Block
	id := g.BlockID()
	if b.Version < proto.ProtobufBlockVersion {
		vpAssert(id == vpID(1), "the block that is passed on is the one received")
	}
	vpAssert(g.Version == b.Version && g.Parent == b.Parent, "the block is passed on unchanged")
	vpAssert(g.Timestamp == b.Timestamp, "the block keeps its timestamp")
	vpAssert(g.BaseTarget == b.BaseTarget, "the block keeps its base target")
	vpAssert(g.GeneratorPublicKey == b.GeneratorPublicKey, "the block keeps its generator")
	ok, err := s.link.HasBlock(id)
	vpNoErr(err, "blocks can be asked for")
	vpAssert(ok == (b.Parent == vpID(0)), "a block is recorded exactly if its parent is known")
	if ok {
		l, err := s.link.Leash(vpAddr(i))
		vpNoErr(err, "the sender has a leash")
		vpAssert(l == id, "the sender's leash is the block")
		r, err := s.link.Block(id)
		vpNoErr(err, "the block reads back")
		vpAssert(r.Height == 2 && r.Parent == b.Parent && r.Timestamp == int64(b.Timestamp), "the block is recorded as received")
		vpReach("known")
	} else {
		vpReach("orphan")
	}
	other, err := s.link.HasLeash(vpAddr(1 - i))
	vpNoErr(err, "leashes can be asked for")
	vpAssert(!other, "nobody but the sender is leashed")
	s.quiet(-1)
	s.stop()
	vpReach("end")
}

// VP_M02_peers delivers lists of addresses.
func VP_M02_peers() {
	s := vpNewSys(1)
	s.run()
	s.step(0, 7)
	n := vpInt("n", 0, vpParam("n", 2))
	want := map[string]bool{}
	m := &proto.PeersMessage{}
	for j := 0; j < n; j++ {
		var ip net.IP
		port := uint16(vpInt("port", 6868, 6869))
		switch vpInt("addr", 0, 6) {
		case 0:
			ip = net.IPv4(52, 7, 7, 1)
			if !want["52.7.7.1:6868"] && !want["52.7.7.1:6869"] {
				want[netip.AddrPortFrom(netip.AddrFrom4([4]byte{52, 7, 7, 1}), port).String()] = true
			}
		case 1:
			ip = net.IPv4(52, 7, 7, 2).To4()
			if !want["52.7.7.2:6868"] && !want["52.7.7.2:6869"] {
				want[netip.AddrPortFrom(netip.AddrFrom4([4]byte{52, 7, 7, 2}), port).String()] = true
			}
		case 2:
			ip = net.IPv4(52, 0, 0, 1) // connected
		case 3:
			ip = net.IPv4(52, 99, 99, 1) // own
		case 4:
			ip = net.IPv4(127, 0, 0, 1)
		case 5:
			ip = net.IP{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}
		case 6:
			ip = nil
		}
		m.Peers = append(m.Peers, proto.PeerInfo{Addr: ip, Port: port})
	}
	s.message(0, m)
	vpAssert(len(s.ids) == 0 && len(s.blocks) == 0, "addresses are not passed on")
	as, err := s.reg.TakeAvailableAddresses()
	vpNoErr(err, "available addresses are handed out")
	vpAssert(len(as) == len(want), "exactly the new addresses become available")
	for _, a := range as {
		vpAssert(want[a.String()], "an announced address becomes available as announced first")
		vpReach("new")
	}
	s.check()
	s.stop()
	vpReach("end")
}

// VP_M02_fault breaks the storage under any message; the next one is handled as ever.
func VP_M02_fault() {
	s := vpNewSys(2)
	s.run()
	s.step(0, 7)
	k := vpInt("at", 0, vpParam("n", 12))
	w, r := 1<<30, 1<<30
	if vpBool("write") {
		vpFault(k, "error")
		w = k
	} else {
		vpReadFault(k)
		r = k
	}
	switch vpInt("kind", 0, 6) {
	case 0:
		s.message(0, &proto.BlockMessage{BlockBytes: vpBlockBytes(vpBlock(1, 0))})
	case 1:
		s.message(0, &proto.PBBlockMessage{PBBlockBytes: vpPBBytes(vpBlock(1, 0))})
	case 2:
		s.message(0, &proto.MicroBlockInvMessage{Body: vpMicro(4, 1)})
	case 3:
		s.message(0, &proto.ScoreMessage{Score: []byte{7}})
	case 4:
		s.info(0, &peer.InternalErr{Err: errVP})
		vpAssert(s.conns[0].closed > 0, "a failed connection is closed even if the storage fails")
	case 5:
		s.message(0, &proto.GetPeersMessage{})
		vpAssert(len(s.conns[0].sent) <= 1, "a request for peers is answered at most once")
	case 6:
		s.message(0, &proto.PeersMessage{Peers: []proto.PeerInfo{{Addr: net.IPv4(52, 7, 7, 1), Port: 6868}}})
	}
	vpAssume(vpWrites() > w || vpReads() > r) // the fault was reached
	vpAssert(len(s.ids) == 0 && len(s.blocks) <= 1, "a block is passed on at most once")
	vpFault(-1, "error")
	vpReadFault(-1)
	vpReach("fault")
	// Whatever happened, the distributor goes on.
	s.connect(1)
	cs, err := s.reg.Connections()
	vpNoErr(err, "connections are listed")
	found := false
	for _, c := range cs {
		found = found || c.AddressPort.Addr() == vpAddr(1)
	}
	vpAssert(found, "peers are registered after a storage failure")
	s.message(1, &proto.BlockMessage{BlockBytes: vpBlockBytes(vpBlock(1, 0))})
	vpAssert(len(s.blocks) == 1 && s.blocks[0].Peer == vpAddr(1), "blocks are passed on after a storage failure")
	l, err := s.link.Leash(vpAddr(1))
	vpNoErr(err, "the sender has a leash")
	vpAssert(l == vpID(1), "blocks are recorded after a storage failure")
	s.message(0, &proto.ScoreMessage{Score: []byte{9}})
	p, err := s.reg.Peer(vpAddr(0))
	vpNoErr(err, "a peer's record reads back")
	vpAssert(p.Score != nil && p.Score.Cmp(big.NewInt(9)) == 0, "scores are recorded after a storage failure")
	s.stop()
	vpReach("end")
}

// VP_M06 lets time pass.
func VP_M06() {
	n := vpParam("n", 4)
	s := vpNewSys(2)
	s.run()
	asked := []int{0, 0}
	want := []int{0, 0}
	halves := 0
	for j := 0; j < n; j++ {
		switch vpInt("event", 0, 3) {
		case 0: // Half a minute passes.
			vpAdvance(30 * time.Second)
			vpWait()
			halves++
			for i := range want {
				if s.on[i] && halves%2 == 0 {
					want[i]++
					vpReach("asked")
				}
			}
		case 1:
			i := vpInt("peer", 0, 1)
			s.step2(i)
		case 2: // A message arrives.
			s.message(0, &proto.ScoreMessage{Score: []byte{1}})
		case 3: // The storage fails for a moment.
			vpReadFault(0)
			s.message(1, &proto.GetPeersMessage{})
			vpReadFault(-1)
			s.conns[1].sent = nil
		}
		for i, c := range s.conns {
			for _, m := range c.sent {
				_, ok := m.(*proto.GetPeersMessage)
				vpAssert(ok, "peers are only asked for peers")
				asked[i]++
			}
			c.sent = nil
			vpAssert(asked[i] == want[i], "every connected peer is asked for peers once a minute")
		}
	}
	s.stop()
	vpReach("end")
}

// step2 connects or disconnects a peer.
func (s *vpSys) step2(i int) {
	if s.on[i] {
		s.info(i, &peer.InternalErr{Err: errVP})
	} else {
		s.connect(i)
	}
	s.on[i] = !s.on[i]
}

var _ loading.IDsPackage
