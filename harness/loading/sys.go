package loading

import (
	"context"
	"math/big"
	"net"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

type vpPeerID string

func (i vpPeerID) String() string { return string(i) }

// vpConn is a connection to a peer that records what is sent to it.
type vpConn struct {
	hs     proto.Handshake
	closed int
	ids    [][]proto.BlockID
	blocks []proto.BlockID
	other  int
}

func (p *vpConn) Direction() peer.Direction { return peer.Incoming }
func (p *vpConn) Close() error              { p.closed++; return nil }
func (p *vpConn) SendMessage(m proto.Message) {
	switch t := m.(type) {
	case *proto.GetBlockIdsMessage:
		p.ids = append(p.ids, t.Blocks)
	case *proto.GetBlockMessage:
		p.blocks = append(p.blocks, t.BlockID)
	default:
		p.other++
	}
}
func (p *vpConn) ID() peer.ID                 { return vpPeerID("peer") }
func (p *vpConn) Connection() conn.Connection { return nil }
func (p *vpConn) Handshake() proto.Handshake  { return p.hs }
func (p *vpConn) RemoteAddr() proto.TCPAddr   { return proto.TCPAddr{} }
func (p *vpConn) Equal(o peer.Peer) bool      { return p == o }

// vpSys is a loader on top of a real registry and a real store.
type vpSys struct {
	reg    *peers.Registry
	link   *chains.Linkage
	l      *Loader
	conns  []*vpConn // nil for a disconnected peer
	gone   []*vpConn
	next   int // next block of the pool
	ids    chan IDsPackage
	blocks chan BlockPackage
}

const vpScheme = proto.Scheme('W')

// vpBT gives a block the score of 2^64 / 2^56 = 256.
const vpBT = uint64(1) << 56

func vpNewSys(n int) *vpSys {
	s := &vpSys{next: 1}
	decl := proto.TCPAddr(net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868})
	reg, err := peers.NewRegistry(vpScheme, decl, []proto.Version{proto.NewVersion(1, 5, 0)}, vpTempDir())
	vpNoErr(err, "the registry opens")
	s.reg = reg
	link, err := chains.NewLinkage(vpTempDir(), vpScheme, *vpBlock(0, proto.BlockID{}, vpBT))
	vpNoErr(err, "a fresh store opens")
	s.link = link
	for i := 0; i < n; i++ {
		s.conns = append(s.conns, nil)
		s.connect(i)
	}
	s.ids = make(chan IDsPackage)
	s.blocks = make(chan BlockPackage)
	s.l = NewLoader(reg, link, s.ids, s.blocks)
	return s
}

func (s *vpSys) connect(i int) {
	hs := proto.Handshake{AppName: "wavesW", NodeName: "node", NodeNonce: uint64(i), Version: proto.NewVersion(1, 5, 0)}
	_, err := s.reg.SuggestVersion(vpAddr(i))
	vpNoErr(err, "a version is suggested")
	c := &vpConn{hs: hs}
	vpNoErr(s.reg.RegisterPeer(vpAddr(i), c, hs), "a peer is registered")
	s.conns[i] = c
}

func (s *vpSys) disconnect(i int) {
	vpNoErr(s.reg.UnregisterPeer(vpAddr(i), s.conns[i]), "a peer is unregistered")
	s.gone = append(s.gone, s.conns[i])
	s.conns[i] = nil
}

func (s *vpSys) score(i int, v *big.Int) {
	vpNoErr(s.reg.UpdatePeerScore(vpAddr(i), v), "a score is announced")
}

// put delivers a new block from a peer and returns its number in the pool.
func (s *vpSys) put(parent, i int) int {
	k := s.next
	s.next++
	vpNoErr(s.link.PutBlock(vpBlock(k, vpID(parent), vpBT), vpAddr(i)), "a block is stored")
	return k
}

// requests counts the requests for IDs sent to anybody.
func (s *vpSys) requests() int {
	n := 0
	for _, c := range s.conns {
		if c != nil {
			n += len(c.ids)
		}
	}
	for _, c := range s.gone {
		n += len(c.ids)
	}
	return n
}

// traffic counts all messages sent to anybody.
func (s *vpSys) traffic() int {
	n := 0
	for _, c := range append(append([]*vpConn{}, s.conns...), s.gone...) {
		if c != nil {
			n += len(c.ids) + len(c.blocks) + c.other
		}
	}
	return n
}

// target is the peer that was sent the only request for IDs since a state of the counters.
func (s *vpSys) target(before []int) int {
	t := -1
	for i, c := range s.conns {
		if c != nil && len(c.ids) > before[i] {
			vpAssert(t < 0, "one peer at a time is asked for IDs")
			vpAssert(len(c.ids) == before[i]+1, "one request for IDs goes out")
			t = i
		}
	}
	return t
}

func (s *vpSys) asked() []int {
	var a []int
	for _, c := range s.conns {
		if c == nil {
			a = append(a, 0)
		} else {
			a = append(a, len(c.ids))
		}
	}
	return a
}

func (s *vpSys) leash(i int) proto.BlockID {
	id, err := s.link.Leash(vpAddr(i))
	vpNoErr(err, "a leash is read")
	return id
}

// VP_L06 chooses a peer to synchronise with.
func VP_L06() {
	n := vpParam("peers", 2)
	s := vpNewSys(n)
	// A chain of three blocks; every peer is leashed to one of them or to none.
	a := s.put(0, 0)
	b := s.put(a, 0)
	chain := []int{0, a, b}
	eligible := make([]bool, n)
	for i := 0; i < n; i++ {
		h := vpInt("leash", 0, 2)
		if i == 0 || h > 0 {
			vpNoErr(s.link.MoveLeash(vpID(chain[h]), vpAddr(i)), "a leash moves")
		}
		own := new(big.Int).SetUint64(uint64(256 * (h + 1)))
		switch vpInt("state", 0, 2) {
		case 0: // connected without a score
		case 1:
			sc := new(big.Int).SetUint64(vpU64("score"))
			if vpBool("huge") {
				sc.Add(sc, new(big.Int).Lsh(big.NewInt(1), 64))
			}
			s.score(i, sc)
			eligible[i] = sc.Cmp(own) > 0
		default:
			s.score(i, new(big.Int).SetUint64(100_000))
			s.disconnect(i)
		}
	}
	some := false
	for i := range eligible {
		some = some || eligible[i]
	}
	before := s.asked()
	s.l.sync()
	t := s.target(before)
	if !some {
		vpAssert(s.traffic() == 0, "nobody is contacted without a connected lagging peer")
		vpReach("nobody")
	} else {
		vpAssert(t >= 0, "a connected lagging peer is asked")
		vpAssume(t >= 0)
		vpAssert(eligible[t], "only a connected lagging peer is asked")
		vpAssert(s.traffic() == 1, "exactly one message goes out")
		if t == 0 {
			vpReach("first")
		} else {
			vpReach("other")
		}
	}
	// What arrives now from others, or is empty, or arrives while nothing runs, is ignored.
	stranger := vpInt("stranger", 0, n)
	if stranger == t {
		vpNoErr2(s, t)
		return
	}
	leash := s.leash(stranger)
	traffic := s.traffic()
	vpStranger(s, stranger, a, b)
	vpAssert(s.traffic() == traffic, "IDs and blocks of others cause no message")
	vpAssert(s.leash(stranger) == leash, "IDs and blocks of others move no leash")
	has, err := s.link.HasBlock(vpID(50))
	vpNoErr(err, "a block is looked up")
	vpAssert(!has, "blocks of others are not stored by the loader")
	s.l.sync()
	if t >= 0 {
		vpAssert(s.traffic() == traffic, "no other download is started while one is running")
	}
}

// vpStranger delivers something from a peer that is not synchronised with.
func vpStranger(s *vpSys, i, a, b int) {
	switch vpInt("what", 0, 3) {
	case 0:
		s.l.handleIDs(IDsPackage{Peer: vpAddr(i), IDs: []proto.BlockID{vpID(a), vpID(b)}})
	case 1:
		s.l.handleIDs(IDsPackage{Peer: vpAddr(i), IDs: []proto.BlockID{vpID(50)}})
	case 2:
		s.l.handleIDs(IDsPackage{Peer: vpAddr(i)})
	default:
		s.l.handleBlock(BlockPackage{Peer: vpAddr(i), Block: vpBlock(50, vpID(b), vpBT)})
	}
}

// vpNoErr2 delivers empty IDs and untimely blocks from the peer that is synchronised with.
func vpNoErr2(s *vpSys, t int) {
	leash := s.leash(t)
	traffic := s.traffic()
	if vpBool("block") {
		s.l.handleBlock(BlockPackage{Peer: vpAddr(t), Block: vpBlock(50, vpID(0), vpBT)})
	} else {
		s.l.handleIDs(IDsPackage{Peer: vpAddr(t)})
	}
	vpAssert(s.traffic() == traffic, "an empty list or an untimely block causes no message")
	vpAssert(s.leash(t) == leash, "an empty list or an untimely block moves no leash")
	// The peer still answers: its IDs are accepted, those of the others are not.
	s.l.handleIDs(IDsPackage{Peer: vpAddr(t), IDs: []proto.BlockID{vpID(60), vpID(61)}})
	vpAssert(len(s.conns[t].blocks) == 2, "the blocks of the peer are requested")
	for i := range s.conns {
		if i != t {
			s.l.handleBlock(BlockPackage{Peer: vpAddr(i), Block: vpBlock(60, vpID(0), vpBT)})
			s.l.handleBlock(BlockPackage{Peer: vpAddr(i), Block: vpBlock(61, vpID(60), vpBT)})
		}
	}
	has, err := s.link.HasBlock(vpID(60))
	vpNoErr(err, "a block is looked up")
	vpAssert(!has, "blocks of other peers are not taken for the awaited ones")
	s.l.handleBlock(BlockPackage{Peer: vpAddr(t), Block: vpBlock(61, vpID(60), vpBT)})
	s.l.handleBlock(BlockPackage{Peer: vpAddr(t), Block: vpBlock(60, vpID(0), vpBT)})
	has, err = s.link.HasBlock(vpID(61))
	vpNoErr(err, "a block is looked up")
	vpAssert(has, "awaited blocks are stored")
	vpAssert(s.leash(t) == vpID(61), "the leash of the peer follows its blocks")
	vpReach("loaded")
}

// VP_L07_stuck lets anything happen to the loader and then waits for the next download.
func VP_L07_stuck() {
	s := vpNewSys(2)
	a := s.put(0, 0)
	s.put(a, 1)
	s.score(0, new(big.Int).SetUint64(1_000_000))
	s.score(1, new(big.Int).SetUint64(1_000_000))
	faulty := vpParam("reads", 0) > 0
	w := 0
	if faulty {
		w = vpInt("read", 0, vpParam("reads", 0)-1)
		vpReadFault(w)
	} else if vpParam("writes", 0) > 0 {
		faulty = true
		w = vpInt("write", 0, vpParam("writes", 0)-1)
		vpFault(w, "error")
	}
	s.l.sync()
	for e := 0; e < vpParam("events", 3); e++ {
		i := vpInt("peer", 0, 1)
		switch vpInt("event", 0, 5) {
		case 0:
			s.l.sync()
		case 1:
			vpAdvance(31 * time.Second)
			s.l.tick()
		case 2: // known IDs
			s.l.handleIDs(IDsPackage{Peer: vpAddr(i), IDs: []proto.BlockID{vpID(0), vpID(a)}})
		case 3: // unknown IDs, twice the same, or such that do not link
			s.l.handleIDs(IDsPackage{Peer: vpAddr(i), IDs: []proto.BlockID{vpID(a), vpID(20), vpID(vpInt("second", 20, 21))}})
		case 4:
			p := a
			if vpBool("orphan") {
				p = 90
			}
			s.l.handleBlock(BlockPackage{Peer: vpAddr(i), Block: vpBlock(20, vpID(p), vpBT)})
			s.l.handleBlock(BlockPackage{Peer: vpAddr(i), Block: vpBlock(21, vpID(20), vpBT)})
		default:
			vpAssume(!faulty)
			if s.conns[i] != nil {
				s.disconnect(i)
			}
		}
	}
	if faulty && (vpParam("reads", 0) > 0 && vpReads() > w || vpParam("reads", 0) == 0 && vpWrites() > w) {
		vpReach("fault")
	}
	vpFault(-1, "")
	vpReadFault(-1)
	if s.conns[0] == nil && s.conns[1] == nil {
		s.connect(vpInt("peer", 0, 1))
	}
	// The running download, if any, is over after 30 seconds without an answer.
	before := s.requests()
	vpAdvance(31 * time.Second)
	s.l.tick()
	s.l.sync()
	vpAssert(s.requests() > before, "the loader starts a new download some time later")
	vpReach("next")
}

// VP_L07_continue follows a download over several batches.
func VP_L07_continue() {
	s := vpNewSys(2)
	a := s.put(0, 0)
	s.put(a, 1)
	// An earlier download of the other peer leaves its traces.
	if vpBool("earlier") {
		s.score(1, new(big.Int).SetUint64(uint64(512+256*vpInt("ahead", 1, 4))))
		s.l.sync()
		vpAssume(len(s.conns[1].ids) == 1)
		s.l.handleIDs(IDsPackage{Peer: vpAddr(1), IDs: []proto.BlockID{vpID(30)}})
		s.l.handleBlock(BlockPackage{Peer: vpAddr(1), Block: vpBlock(30, vpID(a), vpBT)})
		vpAdvance(31 * time.Second)
		s.l.tick()
		s.disconnect(1)
	}
	// Peer 0 is one to four blocks ahead of its leash.
	ahead := vpInt("lead", 1, 4)
	s.score(0, new(big.Int).SetUint64(uint64(512+256*ahead)))
	s.l.sync()
	vpAssert(len(s.conns[0].ids) == 1, "the download starts")
	tip := a
	loaded := 0
	for e := 0; e < vpParam("batches", 2); e++ {
		n := vpInt("batch", 0, 2)
		ids := []proto.BlockID{vpID(tip)}
		var bl []*proto.Block
		for i := 0; i < n; i++ {
			k := 40 + loaded
			ids = append(ids, vpID(k))
			bl = append(bl, vpBlock(k, vpID(tip), vpBT))
			tip = k
			loaded++
		}
		before := len(s.conns[0].ids)
		s.l.handleIDs(IDsPackage{Peer: vpAddr(0), IDs: ids})
		for _, b := range bl {
			s.l.handleBlock(BlockPackage{Peer: vpAddr(0), Block: b})
		}
		vpAssert(s.leash(0) == vpID(tip), "the batch is loaded")
		more := len(s.conns[0].ids) - before
		if loaded >= ahead {
			vpAssert(more == 0, "the loader moves on from a peer that is not lagging anymore")
			s.l.sync()
			vpAssert(len(s.conns[0].ids) == before, "a peer that is not lagging is left alone")
			vpReach("moved on")
			return
		}
		if n > 0 {
			vpAssert(more == 1, "the download continues while the peer is lagging and progressing")
			vpAssert(s.conns[0].ids[before][0] == vpID(tip), "the next batch follows the new leash")
			vpReach("continued")
		} else {
			if e > 0 {
				vpAssert(more == 0, "the loader moves on from a peer without progress")
			}
			return
		}
	}
}

// VP_L07_run drives the loader by its own timers.
func VP_L07_run() {
	s := vpNewSys(1)
	a := s.put(0, 0)
	s.score(0, new(big.Int).SetUint64(1_000_000))
	ctx, cancel := context.WithCancel(context.Background())
	s.l.Run(ctx)
	vpAdvance(6 * time.Second)
	vpWait()
	vpAssert(s.requests() == 1, "a download starts after five seconds")
	for e := 0; e < vpParam("rounds", 2); e++ {
		before := s.requests()
		kind := vpInt("answer", 0, 3)
		if kind == 3 { // blocks are promised and some of them come
			k := s.next
			s.next += 2
			s.ids <- IDsPackage{Peer: vpAddr(0), IDs: []proto.BlockID{vpID(k), vpID(k + 1)}}
			vpWait()
			if vpBool("second") {
				s.blocks <- BlockPackage{Peer: vpAddr(0), Block: vpBlock(k+1, vpID(k), vpBT)}
				vpWait()
			}
			kind = 0
			vpReach("stalled")
		}
		switch kind {
		case 0: // silence
			vpAdvance(30 * time.Second)
			vpWait()
			vpAdvance(10 * time.Second)
			vpWait()
			vpAssert(s.requests() == before+1, "a new download starts after a timeout")
			vpReach("timeout")
		case 1: // everything is known
			s.ids <- IDsPackage{Peer: vpAddr(0), IDs: []proto.BlockID{vpID(0), vpID(a)}}
			vpWait()
			vpAdvance(6 * time.Second)
			vpWait()
			vpAssert(s.requests() > before, "a new download starts after a success")
			vpReach("known")
		default:
			k := s.next
			s.next++
			s.ids <- IDsPackage{Peer: vpAddr(0), IDs: []proto.BlockID{vpID(k)}}
			vpWait()
			s.blocks <- BlockPackage{Peer: vpAddr(0), Block: vpBlock(k, vpID(a), vpBT)}
			vpWait()
			vpAssert(s.leash(0) == vpID(k), "the block is loaded")
			vpAdvance(6 * time.Second)
			vpWait()
			vpAssert(s.requests() > before, "a new download starts after a batch")
			vpReach("loaded")
		}
	}
	cancel()
	s.l.Shutdown()
}

// VP_L08 counts failures of a peer.
func VP_L08() {
	s := vpNewSys(3)
	// The longest chain and a fork of peer 0 with a part in common.
	a := s.put(0, 1)
	b := s.put(a, 1)
	s.put(b, 1)
	f := s.put(a, 0)
	lagging := new(big.Int).SetUint64(1_000_000)
	none := new(big.Int)
	counts := []int{0, 0, 0}
	run := func(i int, succeed bool) {
		for j := range s.conns {
			s.score(j, none)
		}
		s.score(i, lagging)
		before := len(s.conns[i].ids)
		s.l.sync()
		vpAssert(len(s.conns[i].ids) == before+1, "a download starts with one request")
		vpAssume(len(s.conns[i].ids) == before+1)
		first := s.conns[i].ids[before][0]
		if i == 0 {
			if counts[i] >= 10 {
				vpAssert(first == vpID(a), "after ten failures the history restarts from the last common block")
				vpReach("restart")
			} else {
				vpAssert(first == s.leash(i), "up to ten failures the history continues from the leash")
			}
		}
		if counts[i] >= 10 {
			counts[i] = 0
		}
		if succeed {
			s.score(i, none)
			s.l.handleIDs(IDsPackage{Peer: vpAddr(i), IDs: []proto.BlockID{s.leash(i)}})
			counts[i] = 0
			vpReach("success")
		} else {
			vpAdvance(31 * time.Second)
			s.l.tick()
			counts[i]++
		}
	}
	_ = f
	// Failures of the other peer do not count.
	other := 0
	if vpBool("other") {
		other = 11
	}
	when := 0
	if other > 0 {
		when = vpInt("when", 0, 2) * 5
	}
	good := vpInt("success", -1, vpParam("rounds", 12)-1)
	for i := 0; i < vpParam("rounds", 12); i++ {
		if i == when {
			for j := 0; j < other; j++ {
				run(1, false)
				if j%4 == 3 {
					run(2, false)
				}
			}
		}
		run(0, i == good)
	}
}
