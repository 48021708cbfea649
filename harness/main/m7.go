package main

import (
	"bytes"
	"context"
	"net"
	"net/netip"
	"slices"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// vpListener accepts the connections it is given.
type vpListener struct {
	conns  chan net.Conn
	done   chan struct{}
	closed int
}

func vpNewListener() *vpListener {
	return &vpListener{conns: make(chan net.Conn), done: make(chan struct{})}
}

func (l *vpListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		if c == nil {
			return nil, errVP
		}
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *vpListener) Close() error {
	l.closed++
	if l.closed == 1 {
		close(l.done)
	}
	return nil
}

func (l *vpListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868} }

var (
	vpOwn  = proto.TCPAddr(net.TCPAddr{IP: net.IPv4(52, 99, 99, 1), Port: 6868})
	vpBind = proto.TCPAddr(net.TCPAddr{IP: net.IPv4(0, 0, 0, 0), Port: 6868})
)

// VP_M07_accept lets peers connect.
func VP_M07_accept() {
	n := vpParam("n", 2)
	s := vpNewSys(0)
	nl := vpNewListener()
	vpNetListen(func(ctx context.Context, network, address string) (net.Listener, error) {
		vpAssert(network == "tcp" && address == vpBind.String(), "the given address is listened on")
		return nl, nil
	})
	cm := NewConnectionManager(vpScheme, "node", 17, vpOwn, s.reg, s.parent)
	l := NewListener(vpBind, vpOwn, cm)
	s.run()
	l.Run(s.ctx)
	vpWait()
	live := map[netip.Addr]*vpConn{}
	hostile := map[netip.Addr]bool{}
	var all, silent []*vpConn
	for j := 0; j < n; j++ {
		a := vpAddr(vpInt("peer", 5, 6))
		t := &vpTarget{ap: netip.AddrPortFrom(a, 6868), declares: vpBool("declares")}
		c := vpNewConn(netip.AddrPortFrom(a, uint16(40000+j)), nil)
		fault := false
		kind := vpInt("kind", 0, 9)
		switch kind {
		case 0: // A compatible peer.
			c.in = vpHelloFrom("wavesW", t)
		case 1: // Another network.
			c.in = vpHelloFrom("wavesT", t)
		case 2: // Not a handshake.
			c.in = []byte{0, 0, 0, 0, 0}
			c.hangUp()
		case 3: // The connection breaks, on reading of the handshake or on writing of ours.
			c.in = vpHelloFrom("wavesW", t)
			c.fail = vpInt("at", 0, 1)
		case 4: // The storage fails on a version for the peer.
			c.in = vpHelloFrom("wavesW", t)
			fault = true
			vpReadFault(0)
		case 5: // The connection is lost before it is accepted.
			nl.conns <- nil
			vpWait()
			continue
		case 6: // A peer leaves.
			if live[a] == nil {
				vpAssume(false)
			}
			live[a].hangUp()
			vpWait()
			vpAssert(live[a].closed > 0, "the connection of a peer that left is closed")
			delete(live, a)
			vpReach("left")
			continue
		case 7: // Time passes.
			vpAdvance(30 * time.Second)
			vpWait()
			continue
		case 8: // A peer that connects and is silent.
		case 9: // A silent peer introduces itself at last.
			if len(silent) == 0 {
				vpAssume(false)
			}
			c, silent = silent[0], silent[1:]
			a = c.addr.Addr()
			c.feed(vpHelloFrom("wavesW", t))
			vpWait()
			kind = 0
		}
		if late := c.addr.Port() != uint16(40000+j); !late {
			all = append(all, c)
			select {
			case nl.conns <- c:
			case <-time.After(time.Hour):
				vpAssert(false, "connections are accepted as long as the server runs")
			}
			vpWait()
		} else {
			vpReach("late")
		}
		if fault {
			vpReadFault(-1)
		}
		switch {
		case kind == 8 && !hostile[a]:
			vpAssert(c.closed == 0, "a silent connection is waited for")
			silent = append(silent, c)
			vpReach("silent")
		case kind == 0 && !hostile[a] && live[a] != nil:
			vpAssert(c.closed > 0, "a second connection of a peer is closed")
			vpReach("second")
		case kind == 0 && !hostile[a]:
			live[a] = c
			vpAssert(c.closed == 0, "a compatible peer is welcome")
			var h proto.Handshake
			_, err := h.ReadFrom(bytes.NewReader(c.out))
			vpNoErr(err, "a handshake is sent")
			vpAssert(h.AppName == "wavesW" && h.NodeName == "node" && h.NodeNonce == 17, "the handshake presents this node")
			vpAssert(h.DeclaredAddr.String() == vpOwn.String(), "the handshake declares the address of this node")
			vpReach("welcome")
		default:
			if kind == 1 {
				hostile[a] = true
				delete(live, a)
			}
			vpAssert(c.closed > 0, "a refused connection is closed")
			vpReach("refused")
		}
		cs, err := s.reg.Connections()
		vpNoErr(err, "connections are listed")
		vpAssert(len(cs) == len(live), "exactly the live connections are registered")
		for _, p := range cs {
			vpAssert(live[p.AddressPort.Addr()] != nil, "a registered peer has a live connection")
		}
		for b := range hostile {
			p, err := s.reg.Peer(b)
			vpNoErr(err, "a hostile peer is recorded")
			vpAssert(p.State == peers.PeerHostile, "a peer of another network is hostile")
		}
		for _, o := range all {
			if o.closed == 0 && slices.Contains(silent, o) {
				continue
			}
			vpAssert((o.closed == 0) == (live[o.addr.Addr()] == o), "exactly the live connections are open")
		}
	}
	s.cancel()
	l.Shutdown()
	s.d.Shutdown()
	for _, c := range silent { // The handshake is waited for in any case.
		c.mu.Lock()
		c.hangUp()
		c.mu.Unlock()
	}
	vpWait()
	vpAssert(nl.closed > 0, "the server is closed in the end")
	for _, c := range all {
		vpAssert(c.closed > 0, "every connection is closed in the end")
	}
	vpReach("end")
}

// VP_M07_start stops the server at any moment of its start.
func VP_M07_start() {
	s := vpNewSys(0)
	nl := vpNewListener()
	fails := vpBool("fails")
	slow := vpBool("slow")
	vpNetListen(func(ctx context.Context, network, address string) (net.Listener, error) {
		if slow {
			time.Sleep(time.Second)
		}
		if fails {
			return nil, errVP
		}
		return nl, nil
	})
	bind, declared := vpBind, vpOwn
	k := vpInt("config", 0, 3)
	switch k {
	case 1:
		declared = proto.TCPAddr{}
	case 2:
		bind = proto.TCPAddr{}
	case 3:
		bind, declared = proto.TCPAddr{}, proto.TCPAddr{}
	}
	cm := NewConnectionManager(vpScheme, "node", 17, declared, s.reg, s.parent)
	l := NewListener(bind, declared, cm)
	ctx, cancel := context.WithCancel(context.Background())
	if vpBool("before") {
		cancel()
	}
	vpExplore(vpParam("preempt", 2))
	l.Run(ctx)
	var c *vpConn
	if k == 0 && !fails && vpParam("incoming", 1) > 0 && vpBool("incoming") {
		t := &vpTarget{ap: netip.AddrPortFrom(vpAddr(5), 6868)}
		c = vpNewConn(t.ap, vpHelloFrom("wavesW", t))
		vpGo(1, func() {
			select {
			case nl.conns <- c:
			case <-nl.done:
				_ = c.Close()
			}
		})
	}
	if vpBool("later") {
		vpAdvance(2 * time.Second)
	}
	cancel()
	l.Shutdown()
	vpAdvance(2 * time.Second)
	vpWait()
	vpExplore(-1)
	if k == 0 && !fails {
		vpAssert(nl.closed > 0, "the server is closed in the end")
		vpReach("closed")
	} else {
		vpAssert(nl.closed == 0, "there is no server to close")
		vpReach("none")
	}
	vpReach("end")
}
