// Package c04: index positions designate the right tape records.
package c04

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/pojntfx/stfs/internal/verifh/hx"
	"github.com/pojntfx/stfs/internal/verifh/sym"
)

// ent is the reference: the tape record that holds the current content of an entry.
type ent struct {
	rec  int
	data []byte
	dir  bool
}

type model struct {
	e    *hx.Env
	ents map[string]*ent
	s    hx.ScanResult
	n    int // records before the current operation
}

func newModel(o hx.Opt) *model {
	m := &model{e: hx.NewFS(o), ents: map[string]*ent{}}
	m.scan()
	m.put("/", nil, true)
	return m
}

func (m *model) scan() {
	m.n = len(m.s.Recs)
	m.s = hx.Scan(m.e.Drive, false)
	sym.Assert(m.s.Err == "", "scan", m.s.Err)
}

// find returns the newest record written for a name.
func (m *model) find(name string) int {
	for i := len(m.s.Recs) - 1; i >= 0; i-- {
		if m.s.Recs[i].Hdr.Name == name {
			return i
		}
	}
	return -1
}

// put notes that the last call created the entry or replaced its content (after scan).
func (m *model) put(name string, data []byte, dir bool) {
	i := m.find(name)
	sym.Assert(i >= m.n, "record written", name)
	m.ents[name] = &ent{rec: i, data: data, dir: dir}
}

func (m *model) check(at string) {
	rs := int64(m.e.Opt.Rec)
	live := m.e.Headers()
	sym.Assert(len(live) == len(m.ents), at+": number of entries", fmt.Sprint(len(live)))
	for _, h := range live {
		w, ok := m.ents[hx.Abs(h.Name)]
		sym.Assert(ok, at+": unexpected name", h.Name)
		sym.Assert(h.Block >= 0 && h.Block < rs, at+": block within record", h.Name)
		sym.Assert(h.Lastknownblock >= 0 && h.Lastknownblock < rs, at+": last known block within record", h.Name)
		off := (h.Record*rs + h.Block) * 512
		sym.Assert(off == m.s.Recs[w.rec].Off, at+": content position", h.Name)
		lk := (h.Lastknownrecord*rs + h.Lastknownblock) * 512
		sym.Assert(lk == m.s.Recs[m.find(hx.Abs(h.Name))].Off, at+": last known position", h.Name)
		sym.Assert(lk >= off, at+": last known before content", h.Name)
		k, dir, err := m.e.FetchAt(h.Record, h.Block)
		sym.Assert(err == nil, at+": fetch", h.Name+": "+hx.E(err))
		sym.Assert(dir == w.dir, at+": fetched kind", h.Name)
		if !w.dir {
			sym.Assert(bytes.Equal(k.Buf.Bytes(), w.data), at+": fetched content", h.Name)
			sym.Assert(h.Size == int64(len(w.data)), at+": indexed size", h.Name)
		}
	}
	lr, lb, err := m.e.Meta.GetLastIndexedRecordAndBlock(context.Background(), m.e.Opt.Rec)
	sym.Assert(err == nil, at+": last indexed", hx.E(err))
	sym.Assert(lb >= 0 && lb < rs, at+": last written block within record", "")
	sym.Assert((lr*rs+lb)*512 == m.s.Recs[len(m.s.Recs)-1].Off, at+": last written position", "")
	sym.Reach(at)
}

// size is a content length: nothing, a few bytes, or up to 8191 (every block count up to 16).
func size(label string, classes int) int64 {
	switch sym.Choice(label+".class", classes) {
	case 0:
		return sym.Int(label, 1000, 8191)
	case 1:
		return 0
	}
	return sym.Int(label, 1, 9)
}

func data(label string, classes int, b byte) []byte { return sym.Fill(size(label, classes), b) }

func recSize() int {
	if sym.Tier() > 0 {
		return int(sym.Choice("rec", 24)) + 1
	}
	return []int{20, 1, 2, 3, 7, 64}[sym.Choice("rec", 6)]
}

// HArchive: batched Archive calls with up to three members of any size.
func HArchive() {
	m := newModel(hx.Opt{Rec: recSize()})
	k := 1 + sym.Choice("k", 3)
	its := []hx.Item{}
	for i := 0; i < k; i++ {
		c := 3
		if k == 3 {
			c = 2
		}
		its = append(its, hx.Item{Path: fmt.Sprintf("/f%d", i), Data: data(fmt.Sprintf("size%d", i), c, byte('a'+i))})
	}
	err := m.e.Archive(false, false, its...)
	sym.Assert(err == nil, "archive", hx.E(err))
	m.scan()
	for i, it := range its {
		m.put(fmt.Sprintf("/f%d", i), it.Data, false)
	}
	m.check("archive")
	err = m.e.Archive(false, false, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/g", Data: sym.Fill(3, 'g')})
	sym.Assert(err == nil, "archive", hx.E(err))
	m.scan()
	m.put("/d", nil, true)
	m.put("/d/g", sym.Fill(3, 'g'), false)
	m.check("second archive")
}

// HFar: a large first member, so that later records start many tape records into the tape.
func HFar() {
	m := newModel(hx.Opt{Rec: recSize()})
	d := sym.Fill(sym.Int("size", 30000, 31024+sym.Concrete(int64(sym.Tier()))*10000), 'x')
	err := m.e.Archive(false, false, hx.Item{Path: "/big", Data: d}, hx.Item{Path: "/s", Data: sym.Fill(7, 's')})
	sym.Assert(err == nil, "archive", hx.E(err))
	m.scan()
	m.put("/big", d, false)
	m.put("/s", sym.Fill(7, 's'), false)
	m.check("archive")
}

// HOverwrite: an overwriting Archive starts the tape (and the index) again.
func HOverwrite() {
	m := newModel(hx.Opt{Rec: recSize()})
	err := m.e.Archive(false, false, hx.Item{Path: "/old", Data: data("size0", 1, 'o')})
	sym.Assert(err == nil, "archive", hx.E(err))
	e2 := hx.Open(m.e.Opt, m.e.Dir, m.e.Drive, m.e.DB)
	e2.SetOverwrite()
	d := data("size1", 3, 'n')
	err = e2.Archive(true, false, hx.Item{Path: "/", Dir: true}, hx.Item{Path: "/new", Data: d})
	sym.Assert(err == nil, "overwrite", hx.E(err))
	m.e, m.ents, m.s = e2, map[string]*ent{}, hx.ScanResult{}
	m.scan()
	m.put("/", nil, true)
	m.put("/new", d, false)
	m.check("overwrite")
}

// step performs one symbolically chosen operation on a tree holding /f, /d and /d/g.
func (m *model) step(i int) {
	l := fmt.Sprintf("op%d", i)
	must := func(err error, what string) {
		sym.Assert(err == nil, what, hx.E(err))
		m.scan()
	}
	files := []string{}
	for _, n := range []string{"/f", "/d/g", "/n", "/d/n"} {
		if w, ok := m.ents[n]; ok && !w.dir {
			files = append(files, n)
		}
	}
	op := sym.Choice(l, 7)
	switch op {
	case 0: // archive two members
		d := data(l+".size", 2, byte('0'+i))
		name := "/n"
		if _, ok := m.ents[name]; ok {
			name = "/d/n"
			if _, ok := m.ents["/d"]; !ok {
				sym.Stop()
			}
		}
		x := fmt.Sprintf("/x%d", i)
		must(m.e.Archive(false, false, hx.Item{Path: x, Data: d}, hx.Item{Path: name, Data: d}), "archive")
		m.put(x, d, false)
		m.put(name, d, false)
	case 1: // content update through the archive interface
		n := files[sym.Choice(l+".file", len(files))]
		d := data(l+".size", 3, byte('0'+i))
		if len(d) == 0 {
			sym.Stop()
		}
		must(m.e.Update(true, hx.Item{Path: n, Data: d}), "update")
		m.put(n, d, false)
	case 2: // metadata only
		n := files[sym.Choice(l+".file", len(files))]
		must(m.e.FS.Chmod(n, 0o600), "chmod")
	case 3: // move a file
		n := files[sym.Choice(l+".file", len(files))]
		to := fmt.Sprintf("/m%d", i)
		must(m.e.W.Move(n, to), "move")
		m.ents[to] = m.ents[n]
		delete(m.ents, n)
	case 4: // move a directory with its children
		if _, ok := m.ents["/d"]; !ok {
			sym.Stop()
		}
		to := fmt.Sprintf("/dir%d", i)
		must(m.e.W.Move("/d", to), "move")
		for n, w := range m.ents {
			if n == "/d" || strings.HasPrefix(n, "/d/") {
				delete(m.ents, n)
				m.ents[to+n[2:]] = w
			}
		}
	case 5: // delete
		n := files[sym.Choice(l+".file", len(files))]
		must(m.e.W.Delete(n), "delete")
		delete(m.ents, n)
	case 6: // replace content through the filesystem
		n := files[sym.Choice(l+".file", len(files))]
		d := data(l+".size", 2, byte('0'+i))
		f, err := m.e.FS.OpenFile(n, 0x202, 0o644) // O_RDWR|O_TRUNC
		sym.Assert(err == nil, "open", hx.E(err))
		_, err = f.Write(d)
		sym.Assert(err == nil, "write", hx.E(err))
		must(f.Close(), "close")
		if len(d) > 0 || len(m.ents[n].data) > 0 || m.find(n) >= m.n { // replacing nothing by nothing need not write
			m.put(n, d, false)
		}
	}
	m.check([]string{"archive", "update", "chmod", "move", "move directory", "delete", "rewrite"}[op])
}

// HHistory: operations chosen by the solver over a populated tree.
func HHistory() {
	recs := []int{3, 20, 1}
	m := newModel(hx.Opt{Rec: recs[sym.Choice("rec", 2+sym.Tier())]})
	d := data("size", 2, 'f')
	err := m.e.Archive(false, false, hx.Item{Path: "/f", Data: d}, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/g", Data: sym.Fill(5, 'g')})
	sym.Assert(err == nil, "archive", hx.E(err))
	m.scan()
	m.put("/f", d, false)
	m.put("/d", nil, true)
	m.put("/d/g", sym.Fill(5, 'g'), false)
	m.check("populate")
	for i := 0; i < 2+sym.Tier(); i++ {
		m.step(i)
	}
}

// HInner: contents which are archives themselves, so that they contain headers.
func HInner() {
	m := newModel(hx.Opt{Rec: []int{3, 1, 20}[sym.Choice("rec", 3)]})
	d := hx.Inner(hx.InnerSizes[sym.Choice("inner", len(hx.InnerSizes))])
	err := m.e.Archive(false, false, hx.Item{Path: "/f", Data: d}, hx.Item{Path: "/d", Dir: true}, hx.Item{Path: "/d/g", Data: d})
	sym.Assert(err == nil, "archive", hx.E(err))
	m.scan()
	m.put("/f", d, false)
	m.put("/d", nil, true)
	m.put("/d/g", d, false)
	m.check("populate")
	m.step(0)
	r, err := m.e.Rebuild()
	sym.Assert(err == nil, "rebuild", hx.E(err))
	m.e = r
	m.check("rebuilt")
}
