package main

import (
	"context"
	"encoding/binary"
	"errors"
	"math/big"
	"net"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

const vpScheme = proto.Scheme('W')

// vpBT gives a block the score of 2^64 / 2^56 = 256.
const vpBT = uint64(1) << 56

func vpNoErr(err error, what string) {
	vpAssert(err == nil, what)
	if err != nil {
		vpAssume(false)
	}
}

func vpAddr(i int) netip.Addr { return netip.AddrFrom4([4]byte{52, byte(i >> 8), byte(i), 1}) }

var errVP = errors.New("connection failure")

type vpPeerID string

func (i vpPeerID) String() string { return string(i) }

// vpPeer is a connection to a peer that records what is done to it.
type vpPeer struct {
	i      int
	hs     proto.Handshake
	closed int
	broken bool // closing fails
	sent   []proto.Message
}

func (p *vpPeer) Direction() peer.Direction { return peer.Incoming }
func (p *vpPeer) Close() error {
	p.closed++
	if p.broken {
		return errVP
	}
	return nil
}
func (p *vpPeer) SendMessage(m proto.Message) { p.sent = append(p.sent, m) }
func (p *vpPeer) ID() peer.ID                 { return vpPeerID("peer") }
func (p *vpPeer) Connection() conn.Connection { return nil }
func (p *vpPeer) Handshake() proto.Handshake  { return p.hs }
func (p *vpPeer) RemoteAddr() proto.TCPAddr {
	return proto.TCPAddr(net.TCPAddr{IP: net.IPv4(52, byte(p.i>>8), byte(p.i), 1), Port: 40000 + p.i})
}
func (p *vpPeer) Equal(o peer.Peer) bool { return p == o }

// vpDeclPort is the port the peer i declares.
func vpDeclPort(i int) int { return 6863 + 5*i }

func vpDeclared(i int) proto.HandshakeTCPAddr {
	return proto.HandshakeTCPAddr(net.TCPAddr{IP: net.IPv4(52, byte(i>>8), byte(i), 1), Port: vpDeclPort(i)})
}

// vpSig is the identifier of the i-th block of the pool.
func vpSig(i int) (s crypto.Signature) {
	s[0], s[62], s[63] = 0x55, byte(i>>8), byte(i)
	return s
}

func vpID(i int) proto.BlockID { return proto.NewBlockIDFromSignature(vpSig(i)) }

// vpBlock is the i-th block of the pool.
func vpBlock(i, parent int) *proto.Block {
	b := &proto.Block{}
	b.Version = proto.NgBlockVersion
	b.BlockSignature = vpSig(i)
	b.ID = vpID(i)
	b.Parent = proto.NewBlockIDFromSignature(crypto.Signature{})
	if parent >= 0 {
		b.Parent = vpID(parent)
	}
	b.BaseTarget = vpBT
	b.Timestamp = uint64(1000 + i)
	b.GeneratorPublicKey[0] = 0x11
	return b
}

// vpBlockBytes is the block in the binary encoding.
func vpBlockBytes(b *proto.Block) []byte {
	var r []byte
	r = append(r, byte(b.Version))
	r = binary.BigEndian.AppendUint64(r, b.Timestamp)
	r = append(r, b.Parent.Bytes()...)
	r = binary.BigEndian.AppendUint32(r, 40)
	r = binary.BigEndian.AppendUint64(r, b.BaseTarget)
	r = append(r, make([]byte, 32)...)
	r = binary.BigEndian.AppendUint32(r, 4) // transactions
	r = binary.BigEndian.AppendUint32(r, 0)
	r = binary.BigEndian.AppendUint32(r, 0) // features
	r = append(r, b.GeneratorPublicKey[:]...)
	r = append(r, b.BlockSignature[:]...)
	return r
}

// vpPBBytes is the block in the Protobuf encoding.
func vpPBBytes(b *proto.Block) []byte {
	c := *b
	c.GenSignature = make([]byte, 32)
	r, err := c.MarshalToProtobuf(vpScheme)
	vpNoErr(err, "a block encodes")
	return r
}

// vpMicro is the body of an announcement of the micro-block i on top of block ref.
func vpMicro(i, ref int) []byte {
	var r []byte
	r = append(r, make([]byte, 32)...)
	a, b := vpSig(i), vpSig(ref)
	r = append(r, a[:]...)
	r = append(r, b[:]...)
	r = append(r, make([]byte, 64)...)
	return r
}

// vpSys is a distributor on top of a real registry and a real store.
type vpSys struct {
	reg    *peers.Registry
	link   *chains.Linkage
	parent peer.Parent
	d      *Distributor
	ctx    context.Context
	cancel context.CancelFunc
	conns  []*vpPeer
	on     []bool // registered peers
	known  []bool // blocks of the pool in the store
	leash  []int  // expected leashes of peers, -1 for none
	score  []*big.Int
	met    []bool // peers that were connected once
	gossip bool   // addresses were told
	ids    []loading.IDsPackage
	blocks []loading.BlockPackage
}

func vpNewSys(n int) *vpSys {
	s := &vpSys{parent: peer.NewParent(true)}
	decl := proto.TCPAddr(net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868})
	reg, err := peers.NewRegistry(vpScheme, decl, []proto.Version{proto.NewVersion(1, 5, 0)}, vpTempDir())
	vpNoErr(err, "the registry opens")
	s.reg = reg
	link, err := chains.NewLinkage(vpTempDir(), vpScheme, *vpBlock(0, -1))
	vpNoErr(err, "a fresh store opens")
	s.link = link
	s.known = make([]bool, 20)
	s.known[0] = true
	s.d = NewDistributor(vpScheme, link, reg, s.parent)
	for i := 0; i < n; i++ {
		hs := proto.Handshake{AppName: "wavesW", NodeName: "node", NodeNonce: uint64(i), DeclaredAddr: vpDeclared(i), Version: proto.NewVersion(1, 5, 0)}
		s.conns = append(s.conns, &vpPeer{i: i, hs: hs})
		s.leash = append(s.leash, -1)
		s.on = append(s.on, false)
		s.score = append(s.score, nil)
	}
	return s
}

func (s *vpSys) run() {
	ctx, cancel := context.WithCancel(context.Background())
	s.ctx, s.cancel = ctx, cancel
	s.d.Run(ctx)
}

// drain takes everything the distributor passes to the loader.
func (s *vpSys) drain() {
	for {
		vpWait()
		select {
		case p := <-s.d.IDsCh():
			s.ids = append(s.ids, p)
		case b := <-s.d.BlockCh():
			s.blocks = append(s.blocks, b)
		default:
			return
		}
	}
}

func (s *vpSys) message(i int, m proto.Message) {
	s.ids, s.blocks = nil, nil
	s.parent.MessageCh <- peer.ProtoMessage{ID: s.conns[i], Message: m}
	s.drain()
}

func (s *vpSys) info(i int, v peer.InfoMessageValue) {
	s.ids, s.blocks = nil, nil
	s.parent.InfoCh <- peer.InfoMessage{Peer: s.conns[i], Value: v}
	s.drain()
}

func (s *vpSys) connect(i int) {
	_, err := s.reg.SuggestVersion(vpAddr(i))
	vpNoErr(err, "a version is suggested")
	s.info(i, &peer.Connected{Peer: s.conns[i]})
}

// connectOnly registers a peer bypassing the distributor.
func (s *vpSys) connectOnly(i int) {
	_, err := s.reg.SuggestVersion(vpAddr(i))
	vpNoErr(err, "a version is suggested")
	vpNoErr(s.reg.RegisterPeer(vpAddr(i), s.conns[i], s.conns[i].hs), "a peer is registered")
	s.on[i] = true
}

// post leaves a message in the distributor's queue.
func (s *vpSys) post(i int, m proto.Message) {
	s.parent.MessageCh <- peer.ProtoMessage{ID: s.conns[i], Message: m}
}

func (s *vpSys) stop() {
	s.cancel()
	s.d.Shutdown()
}
