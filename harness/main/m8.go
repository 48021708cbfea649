package main

import (
	"context"
	"net"
	"net/netip"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// VP_P11_crossed dials a peer that connects at the same time.
func VP_P11_crossed() {
	n := vpParam("n", 2)
	s := vpNewSys(0)
	nl := vpNewListener()
	vpNetListen(func(ctx context.Context, network, address string) (net.Listener, error) { return nl, nil })
	ap := netip.AddrPortFrom(vpAddr(5), 6868)
	release := make(chan int)
	dialling := false
	var all []*vpConn
	var live *vpConn
	vpNetDial(func(ctx context.Context, network, address string) (net.Conn, error) {
		vpAssert(!dialling, "a peer is not dialled twice at once")
		vpAssert(live == nil, "a connected peer is not dialled")
		dialling = true
		k := <-release
		dialling = false
		t := &vpTarget{ap: ap, declares: true, outcome: []int{k}}
		c, err := t.dial()
		all = append(all, t.conns...)
		return c, err
	})
	cm := NewConnectionManager(vpScheme, "node", 17, vpOwn, s.reg, s.parent)
	l := NewListener(vpBind, vpOwn, cm)
	respawn := NewRespawn(s.reg, cm)
	vpAssert(s.reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(ap)}) == 1, "an address is added")
	s.run()
	l.Run(s.ctx)
	respawn.Run(s.ctx)
	vpAdvance(10 * time.Second)
	vpWait()
	vpAssert(dialling, "an address is dialled")
	for j := 0; j < n; j++ {
		switch vpInt("event", 0, 3) {
		case 0: // The peer connects.
			t := &vpTarget{ap: ap, declares: true}
			c := vpNewConn(netip.AddrPortFrom(ap.Addr(), uint16(40000+j)), vpHelloFrom("wavesW", t))
			all = append(all, c)
			nl.conns <- c
			vpWait()
			if live == nil {
				live = c
			}
		case 1: // The attempt ends.
			if !dialling {
				vpAssume(false)
			}
			k := vpInt("outcome", 0, 2)
			m := len(all)
			release <- []int{vpRefused, vpGarbage, vpGood}[k]
			vpWait()
			vpAssert(len(all) == m || k > 0, "a refused attempt makes no connection")
			if k == 2 && live == nil {
				live = all[m]
			}
			vpReach("ended")
		case 2: // The connection breaks.
			if live == nil {
				vpAssume(false)
			}
			live.hangUp()
			vpWait()
			live = nil
			vpReach("broke")
		case 3: // A second connection breaks on its own.
			var c *vpConn
			for _, o := range all {
				if o != live && o.closed == 0 {
					c = o
				}
			}
			vpAssert(c == nil, "there is no second connection")
			vpAdvance(30 * time.Second)
			vpWait()
		}
		cs, err := s.reg.Connections()
		vpNoErr(err, "connections are listed")
		if live == nil {
			vpAssert(len(cs) == 0, "a peer without a connection is not registered")
		} else {
			vpAssert(len(cs) == 1 && cs[0].AddressPort.Addr() == ap.Addr(), "a connected peer is registered")
			vpReach("connected")
		}
		for _, c := range all {
			vpAssert((c.closed == 0) == (c == live), "a peer has one connection, every other one is closed")
		}
	}
	if dialling {
		release <- vpRefused
	}
	if live == nil {
		vpAdvance(10*time.Minute + 10*time.Second)
		vpWait()
		vpAssert(dialling, "a peer without a connection is dialled again")
		release <- vpRefused
		vpReach("again")
	}
	vpWait()
	s.cancel()
	l.Shutdown()
	respawn.Shutdown()
	s.d.Shutdown()
	vpWait()
	for _, c := range all {
		vpAssert(c.closed > 0, "every connection is closed in the end")
	}
	var _ proto.TCPAddr
	vpReach("end")
}
