package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// vpNode is a node of the network behind an address.
type vpNode struct {
	ap      netip.AddrPort
	mode    int
	chain   []*proto.Block // from the genesis on
	score   *big.Int
	dials   int
	conn    *vpWire // the last connection
	all     []*vpWire
	asked   int // requests for history
	pings   int
	inbound bool // cannot be dialled
	hearsay bool // known from other nodes only
	hidden  bool // not known to other nodes
	p       *vpProgram
}

const (
	vpServes = iota
	vpSilent // never answers requests for history
	vpDrops  // breaks the connection on a request for history
	vpTrims  // answers with IDs but never with blocks
)

// vpWire is a connection to a node.
type vpWire struct {
	mu     sync.Mutex
	node   *vpNode
	addr   netip.AddrPort
	in     []byte
	out    []byte
	more   chan struct{}
	gone   bool
	closed int
	shook  bool
	hello  proto.Handshake
}

func (w *vpWire) wake() {
	select {
	case w.more <- struct{}{}:
	default:
	}
}

func (w *vpWire) Read(b []byte) (int, error) {
	for {
		w.mu.Lock()
		if w.closed > 0 {
			w.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(w.in) > 0 {
			n := copy(b, w.in)
			w.in = w.in[n:]
			w.mu.Unlock()
			return n, nil
		}
		gone := w.gone
		w.mu.Unlock()
		if gone {
			return 0, io.EOF
		}
		<-w.more
	}
}

func (w *vpWire) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed > 0 {
		return 0, net.ErrClosed
	}
	w.out = append(w.out, b...)
	if !w.shook {
		r := bytes.NewReader(w.out)
		var h proto.Handshake
		if _, err := h.ReadFrom(r); err != nil {
			return len(b), nil
		}
		w.shook = true
		w.out = w.out[len(w.out)-r.Len():]
		w.hello = h
		w.send(&proto.ScoreMessage{Score: w.node.score.Bytes()})
	}
	for len(w.out) >= 4 {
		n := int(binary.BigEndian.Uint32(w.out)) + 4
		if len(w.out) < n {
			break
		}
		m, err := proto.UnmarshalMessage(w.out[:n])
		vpNoErr(err, "what is sent to a node is a message")
		w.out = w.out[n:]
		w.node.handle(w, m)
	}
	return len(b), nil
}

func (w *vpWire) send(m proto.Message) {
	b, err := m.MarshalBinary()
	vpNoErr(err, "a message encodes")
	w.in = append(w.in, b...)
	w.wake()
}

func (w *vpWire) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.closed++
	w.gone = true
	w.wake()
	return nil
}

func (w *vpWire) hangUp() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.gone = true
	w.wake()
}

func (w *vpWire) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868} }
func (w *vpWire) RemoteAddr() net.Addr               { return net.TCPAddrFromAddrPort(w.addr) }
func (w *vpWire) SetDeadline(t time.Time) error      { return nil }
func (w *vpWire) SetReadDeadline(t time.Time) error  { return nil }
func (w *vpWire) SetWriteDeadline(t time.Time) error { return nil }

// handle answers a message as a node does.
func (n *vpNode) handle(w *vpWire, m proto.Message) {
	var known []proto.BlockID
	switch t := m.(type) {
	case *proto.GetPeersMessage:
		n.pings++
		own := proto.PeerInfo{Addr: net.IPv4(52, 99, 99, 1), Port: 6868}
		known := []proto.PeerInfo{}
		if n.p.declared {
			known = append(known, own)
		}
		for _, o := range n.p.nodes {
			if o.hidden {
				continue
			}
			known = append(known, proto.PeerInfo{Addr: net.IP(o.ap.Addr().AsSlice()), Port: o.ap.Port()})
		}
		n.p.heard = true
		w.send(&proto.PeersMessage{Peers: known})
		return
	case *proto.GetBlockIdsMessage:
		known = t.Blocks
	case *proto.GetSignaturesMessage:
		for _, s := range t.Signatures {
			known = append(known, proto.NewBlockIDFromSignature(s))
		}
	case *proto.GetBlockMessage:
		vpAssert(n.mode == vpServes || n.mode == vpTrims, "blocks are asked for only after IDs")
		if n.mode == vpServes {
			for _, b := range n.chain {
				if b.BlockID() == t.BlockID {
					w.send(&proto.BlockMessage{BlockBytes: vpBlockBytes(b)})
					return
				}
			}
			vpAssert(false, "a node is only asked for blocks it has offered")
		}
		return
	default:
		vpAssert(false, "a node is only sent requests")
	}
	n.asked++
	vpAssert(len(known) > 0 && len(known) <= 100, "a request for history names known blocks")
	switch n.mode {
	case vpDrops:
		w.gone = true
		w.wake()
		return
	case vpSilent:
		return
	}
	for _, id := range known {
		for i, b := range n.chain {
			if b.BlockID() != id {
				continue
			}
			if _, ok := m.(*proto.GetSignaturesMessage); ok {
				var s []crypto.Signature
				for _, b := range n.chain[i:] {
					s = append(s, b.BlockID().Signature())
				}
				w.send(&proto.SignaturesMessage{Signatures: s})
				return
			}
			var ids []proto.BlockID
			for _, b := range n.chain[i:] {
				ids = append(ids, b.BlockID())
			}
			w.send(&proto.BlockIdsMessage{Blocks: ids})
			return
		}
	}
	vpAssert(false, "the genesis block is common to everybody")
}

// mine adds the block k of the pool to the node's chain.
func (n *vpNode) mine(k int) {
	b := vpBlock(k, 0)
	b.Parent = n.chain[len(n.chain)-1].BlockID()
	n.chain = append(n.chain, b)
	n.score = new(big.Int).Add(n.score, vpWork(b.BaseTarget))
}

// announce tells of the last block.
func (n *vpNode) announce(withBlock bool) {
	w := n.conn
	if w == nil {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.gone {
		return
	}
	w.send(&proto.ScoreMessage{Score: n.score.Bytes()})
	if withBlock {
		w.send(&proto.BlockMessage{BlockBytes: vpBlockBytes(n.chain[len(n.chain)-1])})
	}
}

func (n *vpNode) open(addr netip.AddrPort) *vpWire {
	w := &vpWire{node: n, addr: addr, more: make(chan struct{}, 1)}
	w.in = vpHelloBytes(vpHello("wavesW", &vpTarget{ap: n.ap, declares: true}, proto.NewVersion(1, 5, 0)))
	n.conn = w
	n.all = append(n.all, w)
	return w
}

func vpWork(bt uint64) *big.Int {
	return new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(bt))
}

// vpProgram is the program under test with the world around it.
type vpProgram struct {
	dir      string
	name     string
	given    string
	seeds    map[string]bool
	dialled  map[string]bool
	nodes    []*vpNode
	nl       *vpListener
	listens  int
	servers  []*http.Server
	stopped  chan struct{}
	serving  bool
	ctx      context.Context
	signal   context.CancelFunc
	done     bool
	err      error
	genesis  *proto.Block
	declared bool
	dialling bool // attempts to connect may outlive the program, which does not wait for them
	heard    bool // a node has told of the others
}

func vpNewProgram(nodes int) *vpProgram {
	p := &vpProgram{dir: vpTempDir(), name: "watcher", seeds: map[string]bool{}, dialled: map[string]bool{}}
	bs, err := settings.BlockchainSettingsByTypeName("mainnet")
	vpNoErr(err, "the network has settings")
	p.genesis = &bs.Genesis
	for _, s := range vpSeeds["mainnet"] {
		p.seeds[s] = true
	}
	p.declared = vpBool("declared")
	for i := 0; i < nodes; i++ {
		n := p.node(5 + i)
		if n.hearsay = i > 0 && p.declared; !n.hearsay { // The others are heard of.
			p.given += n.ap.String() + ","
		}
	}
	vpNetListen(func(ctx context.Context, network, address string) (net.Listener, error) {
		vpAssert(network == "tcp" && address == "0.0.0.0:6868", "the network server listens on the given address")
		vpAssert(p.declared, "without a declared address there is no network server")
		p.listens++
		p.nl = vpNewListener()
		return p.nl, nil
	})
	vpNetDial(func(ctx context.Context, network, address string) (net.Conn, error) {
		p.dialled[address] = true
		for _, n := range p.nodes {
			if n.ap.String() == address {
				vpAssert(n.conn == nil || n.conn.gone, "a connected node is not dialled")
				n.dials++
				if n.inbound {
					return nil, errVP
				}
				return n.open(n.ap), nil
			}
		}
		vpAssert(p.seeds[address], "only known addresses are dialled")
		return nil, errVP
	})
	vpHTTP(func(s *http.Server) error {
		vpAssert(s.Addr == "127.0.0.1:9090", "the API listens on the given address")
		p.servers = append(p.servers, s)
		p.serving = true
		<-p.stopped
		return http.ErrServerClosed
	}, func(s *http.Server, ctx context.Context) error {
		p.serving = false
		select {
		case <-p.stopped:
		default:
			close(p.stopped)
		}
		return nil
	})
	vpSignals(func(ctx context.Context, signals []os.Signal) (context.Context, context.CancelFunc) {
		interrupt, term := false, false
		for _, s := range signals {
			interrupt = interrupt || s == os.Interrupt
			term = term || s == syscall.SIGTERM
		}
		vpAssert(interrupt && term, "the program terminates on an interrupt and on a request of termination")
		p.ctx, p.signal = context.WithCancel(ctx)
		return p.ctx, func() {}
	})
	return p
}

// node adds a node to the world.
func (p *vpProgram) node(k int) *vpNode {
	n := &vpNode{ap: netip.AddrPortFrom(vpAddr(k), uint16(6863+k)), chain: []*proto.Block{p.genesis}, score: vpWork(p.genesis.BaseTarget), p: p}
	p.nodes = append(p.nodes, n)
	return n
}

// launch starts the program.
func (p *vpProgram) launch() {
	args := []string{"-db", p.dir, "-peers", p.given, "-net", "0.0.0.0:6868", "-api", "127.0.0.1:9090", "-name", p.name, "-log-level", "FATAL", "-versions", "1.5,1.4"}
	if p.declared {
		args = append(args, "-declared-address", "52.99.99.1:6868")
	}
	_, err := vpStart(args...)
	vpNoErr(err, "the command line is fine")
	vpReset(args...)
	p.stopped = make(chan struct{})
	p.done = false
	go func() {
		p.err = run()
		p.done = true
	}()
	vpWait()
}

// start launches the program, which runs.
func (p *vpProgram) start() {
	p.launch()
	p.running()
}

func (p *vpProgram) running() {
	vpAssert(!p.done, "the program runs until it is told to stop")
	vpAssert(p.serving, "the API is served")
	vpAssert((p.nl != nil && p.nl.closed == 0) == p.declared, "the network server runs if there is an address to declare")
}

// stop signals and waits for the end.
func (p *vpProgram) stop() {
	p.signal()
	vpWait()
	vpAdvance(time.Minute)
	vpAssert(p.done, "the program terminates on a signal")
	vpAssert(p.dialling || vpClosedUses() == 0, "no component works on after its shutdown")
	vpNoErr(p.err, "the program terminates without an error")
	p.presented()
	vpAssert(!p.serving, "the API is not served any more")
	if p.declared {
		vpAssert(p.nl.closed > 0, "the network server is closed")
	}
	for _, n := range p.nodes {
		for _, w := range n.all {
			vpAssert(w.closed > 0, "every connection is closed in the end")
		}
		n.conn = nil
	}
}

// presented checks how the program presents itself on the last connections.
func (p *vpProgram) presented() {
	for _, n := range p.nodes {
		if w := n.conn; w != nil && w.shook {
			vpAssert(w.hello.AppName == "wavesW" && w.hello.NodeName == p.name, "the program presents itself as it is told to")
			vpAssert(w.hello.DeclaredAddr.Empty() == !p.declared && (!p.declared || w.hello.DeclaredAddr.String() == "52.99.99.1:6868"), "the declared address is presented")
		}
	}
}

// pass lets time pass.
func (p *vpProgram) pass(d time.Duration) {
	vpAdvance(d)
	vpWait()
	vpAssert(!p.done, "the program runs until it is told to stop")
}

func (p *vpProgram) get(path string, v any) {
	vpNoErr(json.Unmarshal(p.raw(path), v), "the API answers in JSON")
}

func (p *vpProgram) raw(path string) []byte {
	w := &vpRW{h: http.Header{}}
	r := &http.Request{Method: "GET", URL: &url.URL{Path: path}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: path}
	p.servers[len(p.servers)-1].Handler.ServeHTTP(w, r)
	vpAssert(w.code == 200, "the API answers")
	return w.body
}

type vpRW struct {
	h    http.Header
	code int
	body []byte
}

func (w *vpRW) Header() http.Header { return w.h }
func (w *vpRW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *vpRW) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.body = append(w.body, b...)
	return len(b), nil
}

// live tells whether a node is connected.
func (n *vpNode) live() bool { return n.conn != nil && !n.conn.gone }

// settled checks what a program with time enough knows.
func (p *vpProgram) settled() {
	for s := range p.seeds {
		vpAssert(p.dialled[s], "every seed peer is dialled")
	}
	for _, n := range p.nodes {
		vpAssert(p.dialled[n.ap.String()] || n.live() || n.hearsay && !p.heard, "every peer given or heard of is dialled")
	}
	var conns []struct {
		Address string `json:"address"`
	}
	p.get("/api/connections", &conns)
	m := 0
	for _, n := range p.nodes {
		found := false
		for _, c := range conns {
			found = found || strings.HasPrefix(c.Address, n.ap.Addr().String())
		}
		vpAssert(found == n.live(), "exactly the connected nodes are listed as connected")
		if n.live() {
			m++
		}
	}
	vpAssert(len(conns) == m, "nobody else is listed as connected")
	var leashes []struct {
		Peers   []string `json:"peers"`
		BlockID string   `json:"block_id"`
	}
	p.get("/api/leashes", &leashes)
	for _, n := range p.nodes {
		if !n.live() || n.mode != vpServes || len(n.chain) < 2 {
			continue
		}
		ok := false
		for _, l := range leashes {
			for _, a := range l.Peers {
				if a == n.ap.Addr().String() {
					ok = l.BlockID == n.chain[len(n.chain)-1].BlockID().String()
				}
			}
		}
		vpAssert(ok, "the chain of every connected node that serves it is known up to the last block")
		vpReach("synced")
		var f struct {
			Height int      `json:"head_height"`
			Score  *big.Int `json:"score"`
		}
		p.get("/api/fork/"+n.ap.Addr().String(), &f)
		vpAssert(f.Height == len(n.chain), "the height of a node's fork is the length of its chain")
		vpAssert(f.Score.Cmp(n.score) == 0, "the score of a node's fork is the one it announced")
	}
}

// VP_M09 runs the program.
func VP_M09() {
	steps, settle := vpParam("n", 2), vpParam("settle", 1)
	p := vpNewProgram(vpParam("nodes", 2))
	vpFairRand(true)
	for i, n := range p.nodes {
		n.mode = vpInt("mode", vpServes, vpParam("modes", vpTrims))
		shift := 0
		if i > 0 {
			shift = 5 * i * vpInt("fork", 0, 1)
		}
		for k := 0; k < 1+i; k++ {
			n.mine(1 + shift + k)
		}
	}
	p.start()
	for j := 0; j < steps; j++ {
		i := vpInt("node", 0, len(p.nodes)-1)
		n := p.nodes[i]
		switch vpInt("event", 0, 3) {
		case 0:
			p.pass(15 * time.Second)
		case 1: // A new block.
			n.mine(20 + 2*j)
			n.announce(vpBool("block"))
			vpWait()
		case 2: // The connection breaks.
			if !n.live() {
				vpAssume(false)
			}
			n.conn.hangUp()
			vpWait()
		case 3: // The node connects.
			if !p.declared || n.live() {
				vpAssume(false)
			}
			p.nl.conns <- n.open(netip.AddrPortFrom(n.ap.Addr(), 40000))
			vpWait()
			vpReach("incoming")
		}
	}
	if settle > 0 && vpBool("settle") {
		p.pass(time.Duration(settle) * 11 * time.Minute)
		p.settled()
	}
	// Everything that was known is known after a restart.
	heads, leashes := p.raw("/api/heads"), p.raw("/api/leashes")
	p.stop()
	if again := vpParam("restart", 1); again > 0 {
		if vpParam("changed", 0) > 0 && vpBool("changed") { // Another name, another peer, and another decision about the address.
			p.name, p.declared = "observer", !p.declared
			late := p.node(9)
			late.hidden = true
			late.mine(6)
			p.given = late.ap.String()
			vpReach("changed")
		}
		p.start()
		vpAssert(bytes.Equal(heads, p.raw("/api/heads")), "heads survive a restart")
		vpAssert(bytes.Equal(leashes, p.raw("/api/leashes")), "leashes survive a restart")
		if again > 1 {
			p.pass(11 * time.Minute)
			p.settled()
			vpReach("again")
		}
		p.stop()
	}
	vpReach("end")
}

// VP_M09_fault starts the program while an operation of the storage fails.
func VP_M09_fault() {
	p := vpNewProgram(1)
	vpFairRand(true)
	p.nodes[0].mine(1)
	if again := vpBool("again"); again {
		p.start()
		p.pass(20 * time.Second)
		p.stop()
	}
	if vpBool("write") {
		vpFault(vpInt("op", 0, vpParam("writes", 4)), "error")
	} else {
		vpReadFault(vpInt("op", 0, vpParam("reads", 4)))
	}
	p.launch()
	if p.done {
		vpAssert(p.err != nil, "a program that cannot start says so")
		vpAssert(!p.serving && (p.nl == nil || p.nl.closed > 0), "a program that cannot start serves nobody")
		vpReach("refused")
	} else {
		vpReach("started")
		p.running()
		p.stop()
	}
	vpFault(-1, "error")
	vpReadFault(-1)
	p.start()
	p.pass(11 * time.Minute)
	p.settled()
	p.stop()
	vpReach("end")
}

// VP_M03_run terminates the whole program at any moment of a synchronisation.
func VP_M03_run() {
	p := vpNewProgram(1)
	vpFairRand(true)
	n := p.nodes[0]
	n.mine(1)
	n.mine(2)
	p.start()
	// The node is dialled in 10 s, the next synchronisation starts in 15 s.
	d := []time.Duration{0, 10 * time.Second, 15 * time.Second}[vpInt("when", vpParam("from", 0), vpParam("to", 2))]
	if d > 0 {
		p.pass(d - time.Millisecond)
	}
	if vpBool("busy") {
		if !n.live() {
			vpAssume(false)
		}
		n.mine(3)
		n.announce(true)
	}
	vpExplore(vpParam("preempt", 0))
	p.dialling = d == 10*time.Second
	if d == 0 {
		p.signal()
	} else {
		time.AfterFunc(time.Millisecond, func() { p.signal() })
	}
	vpAdvance(time.Minute)
	vpWait()
	vpExplore(-1)
	p.stop()
	reg, err := peers.NewRegistry(vpScheme, proto.TCPAddr{}, []proto.Version{proto.NewVersion(1, 5, 0)}, p.dir)
	vpNoErr(err, "the registry is closed in the end")
	vpNoErr(reg.Close(), "the registry closes")
	link, err := chains.NewLinkage(p.dir, vpScheme, *p.genesis)
	vpNoErr(err, "the store is closed in the end")
	link.Close()
	vpReach("end")
}
