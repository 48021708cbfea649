package main

import (
	"bytes"
	"context"
	"io"
	"net"
	"net/netip"
	"sync"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// vpConn is a network connection: it delivers what the other side sent, then blocks until it is closed.
type vpConn struct {
	mu     sync.Mutex
	addr   netip.AddrPort
	in     []byte
	out    []byte
	closed int
	gone   bool
	more   chan struct{}
	fail   int // number of the operation that fails, -1 for none
	ops    int
}

func vpNewConn(addr netip.AddrPort, in []byte) *vpConn {
	return &vpConn{addr: addr, in: in, more: make(chan struct{}), fail: -1}
}

func (c *vpConn) op() error {
	c.ops++
	if c.fail >= 0 && c.ops-1 == c.fail {
		return errVP
	}
	return nil
}

func (c *vpConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	if c.closed > 0 {
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	if err := c.op(); err != nil {
		c.mu.Unlock()
		return 0, err
	}
	for len(c.in) == 0 {
		if c.gone {
			c.mu.Unlock()
			return 0, io.EOF
		}
		more := c.more
		c.mu.Unlock()
		<-more
		c.mu.Lock()
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	c.mu.Unlock()
	return n, nil
}

// feed lets the other side send more.
func (c *vpConn) feed(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.gone {
		c.in = append(c.in, b...)
		close(c.more)
		c.more = make(chan struct{})
	}
}

func (c *vpConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if err := c.op(); err != nil {
		return 0, err
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *vpConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed++
	c.hangUp()
	return nil
}

// hangUp ends the other side's stream.
func (c *vpConn) hangUp() {
	if !c.gone {
		c.gone = true
		close(c.more)
	}
}

func (c *vpConn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868} }
func (c *vpConn) RemoteAddr() net.Addr               { return net.TCPAddrFromAddrPort(c.addr) }
func (c *vpConn) SetDeadline(t time.Time) error      { return nil }
func (c *vpConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vpConn) SetWriteDeadline(t time.Time) error { return nil }

// vpTarget is an address to dial with what is to happen on every attempt.
type vpTarget struct {
	ap       netip.AddrPort
	outcome  []int
	dials    int
	conns    []*vpConn // of all attempts that got one
	live     *vpConn   // the registered connection
	up       bool      // connected, in the model
	hostile  bool
	port     bool // the address remains known after a connection
	next     time.Time
	want     int // dials
	declares bool
}

const (
	vpRefused = iota
	vpBroken  // the connection breaks on the handshake
	vpGarbage // not a handshake
	vpOther   // another network
	vpGood
)

func (t *vpTarget) dial() (net.Conn, error) {
	k := vpRefused
	if t.dials < len(t.outcome) {
		k = t.outcome[t.dials]
	}
	t.dials++
	var c *vpConn
	switch k {
	case vpRefused:
		return nil, errVP
	case vpBroken:
		c = vpNewConn(t.ap, nil)
		c.fail = 0
	case vpGarbage:
		c = vpNewConn(t.ap, []byte{0, 0, 0, 0, 0})
		c.hangUp()
	case vpOther:
		c = vpNewConn(t.ap, vpHelloFrom("wavesT", t))
	case vpGood:
		c = vpNewConn(t.ap, vpHelloFrom("wavesW", t))
		t.live = c
	}
	t.conns = append(t.conns, c)
	return c, nil
}

// vpHello is the handshake of a peer.
func vpHello(app string, t *vpTarget, v proto.Version) proto.Handshake {
	h := proto.Handshake{AppName: app, Version: v, NodeName: "peer", NodeNonce: 7}
	if t.declares {
		h.DeclaredAddr = proto.HandshakeTCPAddr(*net.TCPAddrFromAddrPort(t.ap))
	}
	return h
}

func vpHelloBytes(h proto.Handshake) []byte {
	var b bytes.Buffer
	_, err := h.WriteTo(&b)
	vpNoErr(err, "a handshake encodes")
	return b.Bytes()
}

func vpHelloFrom(app string, t *vpTarget) []byte {
	return vpHelloBytes(vpHello(app, t, proto.NewVersion(1, 5, 0)))
}

// expect plays one round in the model.
func (t *vpTarget) expect(now time.Time) {
	if t.hostile || !t.port || t.up || t.next.After(now) {
		return
	}
	k := vpRefused
	if t.want < len(t.outcome) {
		k = t.outcome[t.want]
	}
	t.want++
	switch k {
	case vpGood:
		t.port, t.up = t.declares, true
		vpReach("connected")
	case vpOther:
		t.hostile = true
	default:
		t.next = now.Add(10 * time.Minute)
		vpReach("refused")
	}
}

// VP_M04 dials addresses for a while.
func VP_M04() {
	n, na := vpParam("n", 3), vpParam("addrs", 1)
	s := vpNewSys(0)
	var ts []*vpTarget
	for i := 0; i < na; i++ {
		t := &vpTarget{ap: netip.AddrPortFrom(vpAddr(5+i), 6868), port: true}
		t.declares = vpBool("declares")
		for j := 0; j < vpParam("tries", 2); j++ {
			t.outcome = append(t.outcome, vpInt("outcome", vpRefused, vpGood))
		}
		vpAssert(s.reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(t.ap)}) == 1, "an address is added")
		ts = append(ts, t)
	}
	vpNetDial(func(ctx context.Context, network, address string) (net.Conn, error) {
		vpAssert(network == "tcp", "peers are dialled over TCP")
		for _, t := range ts {
			if t.ap.String() == address {
				return t.dial()
			}
		}
		vpAssert(false, "only known addresses are dialled")
		return nil, errVP
	})
	cm := NewConnectionManager(vpScheme, "node", 17, proto.TCPAddr{}, s.reg, s.parent)
	respawn := NewRespawn(s.reg, cm)
	s.run()
	respawn.Run(s.ctx)
	now := time.Now()
	for j := 0; j < n; j++ {
		rounds, fault := 1, false
		switch vpInt("event", 0, 3) {
		case 0: // Ten seconds.
		case 1: // Ten minutes.
			rounds = 60
		case 2: // The storage fails when addresses are looked for.
			fault = true
			vpReadFault(0)
		case 3: // A peer goes away.
			for _, t := range ts {
				if t.live != nil {
					t.live.hangUp()
				}
			}
			vpWait()
			for _, t := range ts {
				if t.live != nil {
					vpAssert(t.live.closed > 0, "the connection of a peer that went away is closed")
					t.live, t.up = nil, false
					t.next = now.Add(10 * time.Minute)
					vpReach("gone")
				}
			}
			rounds = 0
		}
		for r := 0; r < rounds; r++ {
			now = now.Add(10 * time.Second)
			if !fault {
				for _, t := range ts {
					t.expect(now)
				}
			}
		}
		vpAdvance(time.Duration(rounds) * 10 * time.Second)
		vpWait()
		if fault {
			vpReadFault(-1)
			vpReach("fault")
		}
		cs, err := s.reg.Connections()
		vpNoErr(err, "connections are listed")
		m := 0
		for _, t := range ts {
			vpAssert(t.dials == t.want, "every available address is dialled exactly once a round")
			if t.live != nil {
				m++
			}
			for _, c := range t.conns {
				if c != t.live {
					vpAssert(c.closed > 0, "a connection that is not registered is closed")
				} else {
					vpAssert(c.closed == 0, "a registered connection is open")
				}
				if c.fail < 0 {
					var h proto.Handshake
					_, err := h.ReadFrom(bytes.NewReader(c.out))
					vpNoErr(err, "a handshake is sent")
					vpAssert(h.AppName == "wavesW" && h.NodeName == "node" && h.NodeNonce == 17, "the handshake presents this node")
				}
			}
		}
		vpAssert(len(cs) == m, "exactly the live connections are registered")
	}
	s.cancel()
	respawn.Shutdown()
	s.d.Shutdown()
	vpWait()
	for _, t := range ts {
		for _, c := range t.conns {
			vpAssert(c.closed > 0, "every connection is closed in the end")
		}
	}
	vpReach("end")
}

// VP_M04_fault lets the storage fail once at any point of a round and watches the rounds after it.
func VP_M04_fault() {
	s := vpNewSys(0)
	t := &vpTarget{ap: netip.AddrPortFrom(vpAddr(5), 6868)}
	t.declares = true
	for j := 0; j < 3; j++ {
		t.outcome = append(t.outcome, vpInt("outcome", vpRefused, vpGood))
	}
	vpAssert(s.reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(t.ap)}) == 1, "an address is added")
	vpNetDial(func(ctx context.Context, network, address string) (net.Conn, error) {
		vpAssert(t.ap.String() == address, "only known addresses are dialled")
		return t.dial()
	})
	cm := NewConnectionManager(vpScheme, "node", 17, proto.TCPAddr{}, s.reg, s.parent)
	respawn := NewRespawn(s.reg, cm)
	s.run()
	respawn.Run(s.ctx)
	if vpBool("late") { // the address was dialled before
		vpAdvance(10 * time.Minute)
		vpWait()
		if t.live != nil && vpBool("leaves") {
			t.live.hangUp()
			vpWait()
			vpAdvance(9*time.Minute + 50*time.Second)
			vpWait()
		}
	}
	k := vpInt("at", 0, vpParam("n", 5))
	w, r := 1<<30, 1<<30
	if vpBool("write") {
		vpFault(k, "error")
		w = k
	} else {
		vpReadFault(k)
		r = k
	}
	vpAdvance(10 * time.Second)
	vpWait()
	vpAssume(vpWrites() > w || vpReads() > r) // the fault was reached
	vpFault(-1, "error")
	vpReadFault(-1)
	vpReach("fault")
	n := t.dials
	vpAdvance(10*time.Minute + 10*time.Second)
	vpWait()
	p, err := s.reg.Peer(t.ap.Addr())
	vpNoErr(err, "the peer is recorded")
	cs, err := s.reg.Connections()
	vpNoErr(err, "connections are listed")
	if p.State == peers.PeerHostile {
		vpReach("hostile")
	} else if len(cs) > 0 {
		vpAssert(len(cs) == 1 && len(t.conns) > 0 && t.conns[len(t.conns)-1].closed == 0, "a registered connection is open")
		vpReach("connected")
	} else {
		vpAssert(t.dials > n, "an address is dialled again after a failure of the storage")
		vpReach("again")
	}
	for i, c := range t.conns {
		if i < len(t.conns)-1 || len(cs) == 0 {
			vpAssert(c.closed > 0, "a connection that is not registered is closed")
		}
	}
	s.cancel()
	respawn.Shutdown()
	s.d.Shutdown()
	vpWait()
	for _, c := range t.conns {
		vpAssert(c.closed > 0, "every connection is closed in the end")
	}
	vpReach("end")
}
