package main

import (
	"encoding/hex"
	"fmt"
	"strings"
)

// Model of the key-value store: each directory is an ordered map; single writes and batches are atomic and durable,
// snapshots and iterators see the contents at their creation.

const ldb = "github.com/syndtr/goleveldb/leveldb"

type dbEnt struct {
	key, val []value
}

type dbContent struct {
	ents []*dbEnt
	idx  map[string]int // concrete keys
	symN int
}

type dbFile struct {
	path  string
	cur   *dbContent
	open  bool
	yield bool
}

type dbConn struct {
	f      *dbFile
	closed bool
}

type dbSnap struct {
	c        *dbConn
	content  *dbContent
	released bool
}

type dbIterObj struct {
	c          *dbConn
	ents       []*dbEnt
	pos        int
	key, val   []value
	released   bool
	err        value
}

type batchOp struct {
	del      bool
	key, val []value
}

type batchObj struct{ ops []batchOp }

type crashPanic struct{}

func concKey(k []value) (string, bool) {
	b := make([]byte, len(k))
	for i, e := range k {
		u, ok := e.(uint64)
		if !ok {
			return "", false
		}
		b[i] = byte(u)
	}
	return string(b), true
}

func (c *dbContent) clone() *dbContent {
	n := &dbContent{ents: append([]*dbEnt(nil), c.ents...), idx: make(map[string]int, len(c.idx)), symN: c.symN}
	for k, v := range c.idx {
		n.idx[k] = v
	}
	return n
}

func (ex *Exec) dbFind(c *dbContent, k []value) int {
	ks, conc := concKey(k)
	if conc {
		if i, ok := c.idx[ks]; ok {
			return i
		}
		if c.symN == 0 {
			return -1
		}
	}
	for i, e := range c.ents {
		if len(e.key) != len(k) {
			continue
		}
		if conc {
			if _, c2 := concKey(e.key); c2 {
				continue
			}
		}
		if ex.decide(ex.bytesEq(e.key, k)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) dbPut(c *dbContent, k, v []value) {
	e := &dbEnt{key: append([]value(nil), k...), val: append([]value{}, v...)}
	if i := ex.dbFind(c, k); i >= 0 {
		e.key = c.ents[i].key
		c.ents[i] = e
		return
	}
	c.ents = append(c.ents, e)
	if ks, ok := concKey(k); ok {
		c.idx[ks] = len(c.ents) - 1
	} else {
		c.symN++
	}
}

func (ex *Exec) dbDelete(c *dbContent, k []value) {
	i := ex.dbFind(c, k)
	if i < 0 {
		return
	}
	if _, ok := concKey(c.ents[i].key); !ok {
		c.symN--
	}
	ents := append([]*dbEnt(nil), c.ents[:i]...)
	c.ents = append(ents, c.ents[i+1:]...)
	c.idx = map[string]int{}
	for j, e := range c.ents {
		if ks, ok := concKey(e.key); ok {
			c.idx[ks] = j
		}
	}
}

// dbRange returns the entries of [start, limit) in key order.
func (ex *Exec) dbRange(c *dbContent, start, limit []value) []*dbEnt {
	var r []*dbEnt
	for _, e := range c.ents {
		if start != nil && ex.decide(ex.bytesLess(e.key, start)) {
			continue
		}
		if limit != nil && !ex.decide(ex.bytesLess(e.key, limit)) {
			continue
		}
		i := len(r)
		for i > 0 && ex.decide(ex.bytesLess(e.key, r[i-1].key)) {
			i--
		}
		r = append(r, nil)
		copy(r[i+1:], r[i:])
		r[i] = e
	}
	return r
}

func (ex *Exec) dbErr(g *gor, name string) value {
	if name == "ErrClosed" {
		ex.dbClosedUses++
	}
	return ex.globalVal(g, ldb, name)
}

var nilErr = iface{}

// dbRead accounts for a read; it returns an error to inject.
func (ex *Exec) dbReadPoint(g *gor) value {
	ex.yield(g, "db read")
	ex.dbReads++
	if ex.readFaultAt >= 0 && ex.dbReads-1 == ex.readFaultAt {
		return ex.newError("vp: injected storage read error")
	}
	return nil
}

// dbWrite applies ops to the current contents, honouring fault injection.
func (ex *Exec) dbWrite(g *gor, c *dbConn, ops []batchOp) value {
	ex.yield(g, "db write")
	if c.closed {
		return ex.dbErr(g, "ErrClosed")
	}
	k := ex.dbWrites
	ex.dbWrites++
	hit := ex.writeFaultAt >= 0 && k == ex.writeFaultAt
	if hit {
		switch ex.faultKind {
		case "error":
			return ex.newError("vp: injected storage write error")
		case "crash-before":
			panic(crashPanic{})
		}
	}
	n := c.f.cur.clone()
	for _, o := range ops {
		if o.del {
			ex.dbDelete(n, o.key)
		} else {
			ex.dbPut(n, o.key, o.val)
		}
	}
	c.f.cur = n
	if hit && ex.faultKind == "crash-after" {
		panic(crashPanic{})
	}
	ex.yield(g, "db written")
	return nilErr
}

func cp(v value) []value {
	s, _ := v.([]value)
	return append([]value{}, s...)
}

func connOf(c *icall) *dbConn {
	h, ok := c.args[0].(*host)
	if !ok || h == nil {
		c.ex.panicRuntime(nilDeref)
	}
	return h.obj.(*dbConn)
}

func snapOf(c *icall) *dbSnap {
	h, ok := c.args[0].(*host)
	if !ok || h == nil {
		c.ex.panicRuntime(nilDeref)
	}
	return h.obj.(*dbSnap)
}

func batchOf(ex *Exec, v value) *batchObj {
	p := ex.derefPtr(v)
	if b, ok := ex.objs[p].(*batchObj); ok {
		return b
	}
	b := &batchObj{}
	ex.objs[p] = b
	return b
}

func (ex *Exec) dbGet(g *gor, content *dbContent, key value) value {
	k, _ := key.([]value)
	i := ex.dbFind(content, k)
	if i < 0 {
		return tuple{[]value(nil), ex.dbErr(g, "ErrNotFound")}
	}
	return tuple{append([]value{}, content.ents[i].val...), nilErr}
}

func (ex *Exec) newIter(g *gor, c *dbConn, content *dbContent, rng value) value {
	it := &dbIterObj{c: c, pos: -1, err: nilErr}
	if e := ex.dbReadPoint(g); e != nil {
		it.err = e
	} else if c.closed {
		it.err = ex.dbErr(g, "ErrClosed")
	} else {
		var start, limit []value
		if p, ok := rng.(*value); ok && p != nil {
			st := (*p).(structure)
			start, _ = st[0].([]value)
			limit, _ = st[1].([]value)
		}
		it.ents = ex.dbRange(content, start, limit)
	}
	return iface{t: ex.ptrTo(ldb, "dbIter"), v: &host{kind: "dbiter", obj: it}}
}

func setBuf(buf, src []value) []value {
	if cap(buf) < len(src) || buf == nil {
		return append(make([]value, 0, len(src)+8), src...)
	}
	buf = buf[:len(src)]
	copy(buf, src)
	return buf
}

func (it *dbIterObj) move(p int) value {
	if it.released || !isNilPtr(it.err) {
		return false
	}
	if p < 0 {
		it.pos = -1
		it.key, it.val = it.key[:0], it.val[:0]
		return false
	}
	if p >= len(it.ents) {
		it.pos = len(it.ents)
		it.key, it.val = it.key[:0], it.val[:0]
		return false
	}
	it.pos = p
	it.key = setBuf(it.key, it.ents[p].key)
	it.val = setBuf(it.val, it.ents[p].val)
	return true
}

func init() {
	L := func(t, m string) string { return "(*" + ldb + "." + t + ")." + m }
	reg(ldb+".OpenFile", func(c *icall) value {
		path, ok := c.args[0].(string)
		if !ok {
			panic(unsupported("symbolic database path"))
		}
		path = strings.TrimRight(path, "/")
		f := c.ex.dbs[path]
		if f == nil {
			f = &dbFile{path: path, cur: &dbContent{idx: map[string]int{}}}
			c.ex.dbs[path] = f
		}
		if f.open {
			return tuple{(*host)(nil), c.ex.newError("resource temporarily unavailable")}
		}
		f.open = true
		return tuple{&host{kind: "db", obj: &dbConn{f: f}}, nilErr}
	})
	reg(L("DB", "Close"), func(c *icall) value {
		d := connOf(c)
		c.ex.yield(c.g, "db close")
		if d.closed {
			return c.ex.globalVal(c.g, ldb, "ErrClosed")
		}
		d.closed = true
		d.f.open = false
		return nilErr
	})
	reg(L("DB", "GetSnapshot"), func(c *icall) value {
		d := connOf(c)
		c.ex.yield(c.g, "db snapshot")
		if d.closed {
			return tuple{(*host)(nil), c.ex.dbErr(c.g, "ErrClosed")}
		}
		return tuple{&host{kind: "snap", obj: &dbSnap{c: d, content: d.f.cur}}, nilErr}
	})
	reg(L("DB", "Write"), func(c *icall) value {
		d := connOf(c)
		b := batchOf(c.ex, c.args[1])
		if len(b.ops) == 0 && !d.closed {
			return nilErr
		}
		return c.ex.dbWrite(c.g, d, b.ops)
	})
	reg(L("DB", "Put"), func(c *icall) value {
		return c.ex.dbWrite(c.g, connOf(c), []batchOp{{key: cp(c.args[1]), val: cp(c.args[2])}})
	})
	reg(L("DB", "Delete"), func(c *icall) value {
		return c.ex.dbWrite(c.g, connOf(c), []batchOp{{del: true, key: cp(c.args[1])}})
	})
	reg(L("DB", "Get"), func(c *icall) value {
		d := connOf(c)
		if e := c.ex.dbReadPoint(c.g); e != nil {
			return tuple{[]value(nil), e}
		}
		if d.closed {
			return tuple{[]value(nil), c.ex.dbErr(c.g, "ErrClosed")}
		}
		return c.ex.dbGet(c.g, d.f.cur, c.args[1])
	})
	reg(L("DB", "Has"), func(c *icall) value {
		d := connOf(c)
		if e := c.ex.dbReadPoint(c.g); e != nil {
			return tuple{false, e}
		}
		if d.closed {
			return tuple{false, c.ex.dbErr(c.g, "ErrClosed")}
		}
		k, _ := c.args[1].([]value)
		return tuple{c.ex.dbFind(d.f.cur, k) >= 0, nilErr}
	})
	reg(L("DB", "NewIterator"), func(c *icall) value {
		d := connOf(c)
		return c.ex.newIter(c.g, d, d.f.cur, c.args[1])
	})
	snapOK := func(c *icall) (*dbSnap, value) {
		s := snapOf(c)
		if e := c.ex.dbReadPoint(c.g); e != nil {
			return s, e
		}
		if s.c.closed {
			return s, c.ex.dbErr(c.g, "ErrClosed")
		}
		if s.released {
			return s, c.ex.dbErr(c.g, "ErrSnapshotReleased")
		}
		return s, nil
	}
	reg(L("Snapshot", "Get"), func(c *icall) value {
		s, e := snapOK(c)
		if e != nil {
			return tuple{[]value(nil), e}
		}
		return c.ex.dbGet(c.g, s.content, c.args[1])
	})
	reg(L("Snapshot", "Has"), func(c *icall) value {
		s, e := snapOK(c)
		if e != nil {
			return tuple{false, e}
		}
		k, _ := c.args[1].([]value)
		return tuple{c.ex.dbFind(s.content, k) >= 0, nilErr}
	})
	reg(L("Snapshot", "NewIterator"), func(c *icall) value {
		s := snapOf(c)
		if s.released {
			it := &dbIterObj{c: s.c, err: c.ex.dbErr(c.g, "ErrSnapshotReleased")}
			return iface{t: c.ex.ptrTo(ldb, "dbIter"), v: &host{kind: "dbiter", obj: it}}
		}
		return c.ex.newIter(c.g, s.c, s.content, c.args[1])
	})
	reg(L("Snapshot", "Release"), func(c *icall) value { snapOf(c).released = true; return nil })
	reg(L("Snapshot", "String"), func(c *icall) value { return "snapshot" })

	reg(L("Batch", "Put"), func(c *icall) value {
		b := batchOf(c.ex, c.args[0])
		b.ops = append(b.ops, batchOp{key: cp(c.args[1]), val: cp(c.args[2])})
		return nil
	})
	reg(L("Batch", "Delete"), func(c *icall) value {
		b := batchOf(c.ex, c.args[0])
		b.ops = append(b.ops, batchOp{del: true, key: cp(c.args[1])})
		return nil
	})
	reg(L("Batch", "Len"), func(c *icall) value { return uint64(len(batchOf(c.ex, c.args[0]).ops)) })
	reg(L("Batch", "Reset"), func(c *icall) value { batchOf(c.ex, c.args[0]).ops = nil; return nil })

	it := func(a []value) *dbIterObj { return a[0].(*host).obj.(*dbIterObj) }
	hm := func(n string, f func(ex *Exec, it *dbIterObj, a []value) value) {
		hostMethods["dbiter."+n] = func(ex *Exec, g *gor, a []value) value { return f(ex, it(a), a) }
		reg(L("dbIter", n), func(c *icall) value { return f(c.ex, it(c.args), c.args) })
	}
	hm("First", func(ex *Exec, it *dbIterObj, a []value) value { return it.move(0) })
	hm("Last", func(ex *Exec, it *dbIterObj, a []value) value { return it.move(len(it.ents) - 1) })
	next := func(ex *Exec, g *gor, it *dbIterObj) value {
		// Reading on may fail as well; the first positioning fails together with the creation of the iterator.
		if it.pos >= 0 && it.pos < len(it.ents) && !it.released && isNilPtr(it.err) {
			if e := ex.dbReadPoint(g); e != nil {
				it.err = e
				it.key, it.val = nil, nil
			}
		}
		return it.move(it.pos + 1)
	}
	hostMethods["dbiter.Next"] = func(ex *Exec, g *gor, a []value) value { return next(ex, g, it(a)) }
	reg(L("dbIter", "Next"), func(c *icall) value { return next(c.ex, c.g, it(c.args)) })
	hm("Prev", func(ex *Exec, it *dbIterObj, a []value) value { return it.move(it.pos - 1) })
	hm("Seek", func(ex *Exec, it *dbIterObj, a []value) value {
		k, _ := a[1].([]value)
		for i, e := range it.ents {
			if !ex.decide(ex.bytesLess(e.key, k)) {
				return it.move(i)
			}
		}
		return it.move(len(it.ents))
	})
	hm("Valid", func(ex *Exec, it *dbIterObj, a []value) value {
		return !it.released && isNilPtr(it.err) && it.pos >= 0 && it.pos < len(it.ents)
	})
	hm("Key", func(ex *Exec, it *dbIterObj, a []value) value {
		if it.released || it.pos < 0 || it.pos >= len(it.ents) {
			return []value(nil)
		}
		return it.key
	})
	hm("Value", func(ex *Exec, it *dbIterObj, a []value) value {
		if it.released || it.pos < 0 || it.pos >= len(it.ents) {
			return []value(nil)
		}
		return it.val
	})
	hm("Error", func(ex *Exec, it *dbIterObj, a []value) value { return it.err })
	hm("Release", func(ex *Exec, it *dbIterObj, a []value) value {
		it.released = true
		it.key, it.val = nil, nil
		return nil
	})
	hm("SetReleaser", func(ex *Exec, it *dbIterObj, a []value) value { return nil })
}

func (ex *Exec) dumpDB() string {
	var sb strings.Builder
	for p, f := range ex.dbs {
		fmt.Fprintf(&sb, "%s:\n", p)
		for _, e := range f.cur.ents {
			if ks, ok := concKey(e.key); ok {
				fmt.Fprintf(&sb, "  %s\n", hex.EncodeToString([]byte(ks)))
			} else {
				fmt.Fprintf(&sb, "  sym(%d)\n", len(e.key))
			}
		}
	}
	return sb.String()
}
