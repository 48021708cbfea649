package api

import (
	"encoding/json"
	"math/big"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"strings"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

func vpNoErr(err error, what string) {
	vpAssert(err == nil, what)
	if err != nil {
		vpAssume(false)
	}
}

func vpAddr(i int) netip.Addr { return netip.AddrFrom4([4]byte{52, byte(i >> 8), byte(i), 1}) }

func vpID(i int) proto.BlockID {
	var d [32]byte
	d[0], d[30], d[31] = 0x77, byte(i>>8), byte(i)
	return proto.NewBlockIDFromDigest(d)
}

func vpBlock(i int, parent proto.BlockID, bt uint64, gen int) *proto.Block {
	b := &proto.Block{}
	b.Version = proto.ProtobufBlockVersion
	b.ID = vpID(i)
	b.Parent = parent
	b.BaseTarget = bt
	b.Timestamp = uint64(1000 + i)
	b.GeneratorPublicKey[0] = byte(gen)
	return b
}

type vpPeerID string

func (i vpPeerID) String() string { return string(i) }

type vpConn struct {
	hs     proto.Handshake
	closed int
}

func (p *vpConn) Direction() peer.Direction   { return peer.Incoming }
func (p *vpConn) Close() error                { p.closed++; return nil }
func (p *vpConn) SendMessage(m proto.Message) {}
func (p *vpConn) ID() peer.ID                 { return vpPeerID("peer") }
func (p *vpConn) Connection() conn.Connection { return nil }
func (p *vpConn) Handshake() proto.Handshake  { return p.hs }
func (p *vpConn) RemoteAddr() proto.TCPAddr   { return proto.TCPAddr{} }
func (p *vpConn) Equal(o peer.Peer) bool      { return p == o }

// vpRW records a response.
type vpRW struct {
	h    http.Header
	code int
	body []byte
}

func (w *vpRW) Header() http.Header { return w.h }
func (w *vpRW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *vpRW) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

const vpScheme = proto.Scheme('W')

type vpNode struct {
	parent, height int
	score          *big.Int
	gen            int
}

// vpSys is an API on top of a real registry and a real store, with a model of the latter.
type vpSys struct {
	reg   *peers.Registry
	link  *chains.Linkage
	a     *API
	nodes []vpNode
	leash []int // of the peers, -1 for none
	conn  []bool
	conns []*vpConn
}

func vpOwnScore(bt uint64) *big.Int {
	return new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(bt))
}

func vpNewSys(n int) *vpSys {
	s := &vpSys{}
	decl := proto.TCPAddr(net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868})
	reg, err := peers.NewRegistry(vpScheme, decl, []proto.Version{proto.NewVersion(1, 5, 0)}, vpTempDir())
	vpNoErr(err, "the registry opens")
	s.reg = reg
	link, err := chains.NewLinkage(vpTempDir(), vpScheme, *vpBlock(0, proto.BlockID{}, 1<<60, 0))
	vpNoErr(err, "a fresh store opens")
	s.link = link
	s.nodes = []vpNode{{parent: -1, height: 1, score: vpOwnScore(1 << 60)}}
	s.leash = make([]int, n)
	s.conn = make([]bool, n)
	s.conns = make([]*vpConn, n)
	for i := range s.leash {
		s.leash[i] = -1
	}
	s.a, err = NewAPI(reg, link, "127.0.0.1:8080")
	vpNoErr(err, "the API is made")
	return s
}

func (s *vpSys) connect(i int) {
	hs := proto.Handshake{AppName: "wavesW", NodeName: "node", NodeNonce: uint64(i), Version: proto.NewVersion(1, 5, 0)}
	_, err := s.reg.SuggestVersion(vpAddr(i))
	vpNoErr(err, "a version is suggested")
	c := &vpConn{hs: hs}
	vpNoErr(s.reg.RegisterPeer(vpAddr(i), c, hs), "a peer is registered")
	s.conns[i] = c
	s.conn[i] = true
}

func (s *vpSys) disconnect(i int) {
	vpNoErr(s.reg.UnregisterPeer(vpAddr(i), s.conns[i]), "a peer is unregistered")
	s.conn[i] = false
}

// put stores a new block from a peer.
func (s *vpSys) put(parent, i int, bt uint64, gen int) int {
	k := len(s.nodes)
	vpNoErr(s.link.PutBlock(vpBlock(k, vpID(parent), bt, gen), vpAddr(i)), "a block is stored")
	p := s.nodes[parent]
	s.nodes = append(s.nodes, vpNode{parent: parent, height: p.height + 1, score: new(big.Int).Add(p.score, vpOwnScore(bt)), gen: gen})
	s.leash[i] = k
	return k
}

func (s *vpSys) move(k, i int) {
	vpNoErr(s.link.MoveLeash(vpID(k), vpAddr(i)), "a leash moves")
	s.leash[i] = k
}

func (s *vpSys) lca(a, b int) int {
	for a != b {
		if s.nodes[a].height >= s.nodes[b].height {
			a = s.nodes[a].parent
		} else {
			b = s.nodes[b].parent
		}
	}
	return a
}

// get sends a request through the router.
func (s *vpSys) get(path, query string) *vpRW {
	w := &vpRW{h: http.Header{}}
	r := &http.Request{Method: "GET", URL: &url.URL{Path: "/api" + path, RawQuery: query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: "/api" + path}
	s.a.srv.Handler.ServeHTTP(w, r)
	return w
}

// vpFork is an entry of the reports as the clients see it.
type vpFork struct {
	Longest         bool      `json:"longest"`
	HeadBlock       string    `json:"head_block"`
	HeadTimestamp   time.Time `json:"head_timestamp"`
	HeadGenerator   string    `json:"head_generator"`
	HeadHeight      int       `json:"head_height"`
	Score           *big.Int  `json:"score"`
	PeersCount      int       `json:"peers_count"`
	Peers           []string  `json:"peers"`
	LastCommonBlock string    `json:"last_common_block"`
	Length          int       `json:"length"`
}

func vpDecode(w *vpRW, v any) {
	vpAssert(w.code == 200, "the request succeeds")
	vpAssert(strings.HasPrefix(w.h.Get("Content-Type"), "application/json"), "the answer says it is JSON")
	vpAssume(w.code == 200)
	vpNoErr(json.Unmarshal(w.body, v), "the answer is valid JSON")
}

// vpCheckFork compares an entry with the model; best is the longest entry's block.
func (s *vpSys) vpCheckFork(f vpFork, k, best int, on []int) {
	vpAssert(f.HeadBlock == vpID(k).String(), "the entry has the ID of the block")
	vpAssert(f.HeadHeight == s.nodes[k].height, "the entry has the height of the block")
	vpAssert(f.Score.Cmp(s.nodes[k].score) == 0, "the entry has the score of the block")
	vpAssert(f.HeadTimestamp.Equal(time.UnixMilli(int64(1000+k))), "the entry has the time of the block")
	g, err := proto.NewAddressFromPublicKey(vpScheme, vpBlock(k, proto.BlockID{}, 1, s.nodes[k].gen).GeneratorPublicKey)
	vpNoErr(err, "an address is made")
	vpAssert(f.HeadGenerator == g.String(), "the entry has the generator of the block")
	vpAssert(f.PeersCount == len(on) && len(f.Peers) == len(on), "the entry counts its peers")
	for _, i := range on {
		n := 0
		for _, p := range f.Peers {
			if p == vpAddr(i).String() {
				n++
			}
		}
		vpAssert(n == 1, "the entry lists each of its peers once")
	}
	l := s.lca(k, best)
	vpAssert(f.LastCommonBlock == vpID(l).String(), "the entry has the last common block with the longest")
	vpAssert(f.Length == s.nodes[k].height-s.nodes[l].height, "the entry has the length since the last common block")
	vpAssert(f.Longest == (k == best), "the entry is marked longest if and only if it is")
}

var vpV6 = netip.MustParseAddr("fe80::1")
