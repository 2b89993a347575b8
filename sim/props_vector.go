package main

import (
	"encoding/binary"
	"io"
	"math"
	"sort"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"
)

// ---------------------------------------------------------------- C22

// propC22 drives the vector page manager: a neighbour graph in memory, whose
// vectors and neighbour lists go to two trees in one page file.
type propC22 struct{}

// neighbour lists hold this many neighbours of 5 bytes each.
const listNeighbours = 8

func init() {
	props["C22"] = propInfo{propC22{}, 30000, "A sequence of vectors added through the vector page manager, looked up, reopened and disturbed by storage faults; non-trivial: at least two vectors.", []string{"pkg/vectorpage", "pkg/hnsw", "pkg/btree", "pkg/bptree", "pkg/linkedpage", "pkg/pagefile"}, []string{"index storage (simulated disk behind io.ReadWriteSeeker)", "math/rand's global source (seeded)"}}
}

func (p propC22) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{}}
	sc.Cfg["style"] = int64(r.N(2))
	setGap(sc, r)
	sc.Cfg["dim"] = int64(pick(r, []int{1, 2, 2, 3, 8, 30, 100}))
	n := pick(r, []int{3, 12, 40, 150})
	sc.Cfg["m"] = int64(r.In(2, 16))
	sc.Cfg["ef"] = int64(r.In(1, 20))
	if r.P(0.5) {
		// exhaustive: every list holds the nearest neighbours there are
		n = min(n, 60)
		sc.Cfg["m"] = int64(n + r.In(2, 5))
		sc.Cfg["ef"] = int64(n + r.In(2, 5))
	}
	if r.P(0.1) {
		sc.Cfg["short"] = int64(r.N(1<<30)) + 1
	}
	grid := int64(r.N(4))
	faults := r.P(0.4)
	var seeds []int64
	for i := 0; i < n; i++ {
		s := int64(r.N(1 << 30))
		if len(seeds) > 0 && r.P(0.15) {
			s = pick(r, seeds) // the same vector again
		}
		seeds = append(seeds, s)
		o := Op{K: "add", N: s, M: grid}
		if faults && r.P(0.05) {
			o.F = &Fault{Kind: pick(r, []string{"err", "errp", "werr", "full"}), At: int64(r.N(16))}
		}
		sc.Ops = append(sc.Ops, o)
		if r.P(0.05) {
			sc.Ops = append(sc.Ops, Op{K: "bad", N: int64(r.N(40))})
		}
		if r.P(0.1) {
			sc.Ops = append(sc.Ops, Op{K: "find", N: int64(r.N(n + 2))})
		}
		if r.P(0.05) {
			sc.Ops = append(sc.Ops, Op{K: "reopen"})
		}
	}
	sc.Ops = append(sc.Ops, Op{K: "reopen"}, Op{K: "all"})
	return sc
}

func pagePoint(seed, grid int64, dim int) hnsw.Point {
	if grid != 3 {
		return graphPoint(seed, grid, dim)
	}
	// all in one place
	v := make(hnsw.Point, dim)
	v[0] = float32(seed % 2)
	return v
}

func (p propC22) Run(sc *Scenario, st *Stats) *Violation {
	d := &Disk{style: int(sc.Cfg["style"]), gap: sc.Cfg["gap"]}
	dim := int(max(sc.Cfg["dim"], 1))
	m, ef := int(max(sc.Cfg["m"], 2)), int(max(sc.Cfg["ef"], 1))
	pts := []hnsw.Point{pagePoint(int64(sc.Seed>>1), 0, dim)}
	var h *hnsw.Hnsw
	if err := try(func() error {
		h = hnsw.NewHnsw(dim, ef, m, append(hnsw.Point(nil), pts[0]...))
		return nil
	}); err != nil {
		return viol("panic", "%v", err)
	}
	var (
		vectors *btree.BTree
		lists   *bptree.BPTree
		mgr     *vectorpage.VectorPageManager
		sess    *Sess
	)
	open := func() error {
		sess = NewSess(d, st)
		sess.short = uint64(sc.Cfg["short"])
		return try(func() error {
			pf, err := pagefile.NewPageFile(sess.Handle())
			if err != nil {
				return err
			}
			lp, err := linkedpage.NewMultiBPTree(pf, 0)
			if err != nil {
				return err
			}
			var slots []*linkedpage.LinkedPage
			for n := lp; len(slots) < 2; {
				next, err := n.Next()
				if err == io.EOF {
					next, err = n.AddNext()
				}
				if err != nil {
					return err
				}
				n = next
				slots = append(slots, n)
			}
			vectors = slots[0].BTree(&btree.BTree{VectorDim: uint64(dim)})
			lists = slots[1].BPTree(&bptree.BPTree{Data: nil, DataParser: identity{}, Width: 5*listNeighbours + 1})
			mgr = vectorpage.NewVectorPageManager(vectors, lists, h)
			return nil
		})
	}
	if err := open(); err != nil {
		return viol("open-error", "%v", err)
	}
	const (
		absent = iota
		partly // its AddNode failed
		stored
	)
	state := map[hnsw.Id]int{}
	want := map[string]int{} // neighbour list -> how many vectors have it
	maybe := map[string]int{}
	damaged := false
	find := func(id hnsw.Id) *Violation {
		var k pointer.ReferencedId
		var v hnsw.Point
		err := try(func() (err error) { k, v, err = vectors.Find(pointer.ReferencedId{Value: id}); return err })
		switch {
		case isPanic(err):
			return viol("panic", "Find(%d): %v", id, err)
		case state[id] == stored && err != nil && !damaged:
			return viol("not-found", "vector %d of %d was added, but: %v", id, len(pts), err)
		case err == nil && len(v) > 0 && state[id] == absent:
			return viol("phantom", "vector %d was found, but never added", id)
		case err == nil && len(v) > 0 && (k.Value != id || !sameVector(v, pts[id])):
			return viol("wrong-vector", "looking for vector %d gave vector %d, or other values", id, k.Value)
		case err == nil && len(v) == 0 && state[id] == stored && !damaged:
			return viol("not-found", "vector %d of %d was added, but is not there", id, len(pts))
		}
		return nil
	}
	// all compares the neighbour lists with what was added
	all := func() (v *Violation) {
		found := map[string]int{}
		n := 0
		err := try(func() error {
			it, err := lists.Iter(pointer.ReferencedValue{})
			if err != nil {
				return err
			}
			prev := ""
			for it.Next() {
				k := string(it.Key().Value)
				if k < prev {
					v = viol("lists", "neighbour lists come out of order")
					return nil
				}
				prev = k
				found[k]++
				n++
			}
			return it.Err()
		})
		if v != nil {
			return v
		}
		if isPanic(err) || err != nil && !damaged {
			return viol("lists", "reading the neighbour lists: %v", err)
		}
		for k, c := range found {
			if c > want[k]+maybe[k] {
				return viol("lists", "%d neighbour lists are %x, expected %d", c, k, want[k]+maybe[k])
			}
		}
		if !damaged {
			for k, c := range want {
				if found[k] < c {
					return viol("lists", "%d neighbour lists are %x, expected %d; %d lists in total", found[k], k, c, n)
				}
			}
		}
		for id := range pts {
			if v := find(hnsw.Id(id)); v != nil {
				return v
			}
		}
		return nil
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		var v *Violation
		switch o.K {
		case "add":
			q := pagePoint(o.N, o.M, dim)
			id := hnsw.Id(len(pts))
			sess.Begin(o.F)
			err := try(func() error { return mgr.AddNode(append(hnsw.Point(nil), q...)) })
			fired := sess.fired
			sess.End()
			var list []byte
			ferr := try(func() error {
				f, err := h.Neighborhood(id)
				if err != nil {
					return err
				}
				list, err = f.Flush(listNeighbours)
				return err
			})
			if ferr == nil {
				pts = append(pts, q)
			}
			switch {
			case isPanic(err):
				v = viol("panic", "AddNode with %d vectors: %v", len(pts), err)
			case err != nil && !fired:
				v = viol("add-error", "AddNode with %d vectors: %v", len(pts), err)
			case err != nil:
				damaged = true
				if ferr == nil {
					state[id] = partly
					maybe[string(list)]++
				}
			case ferr != nil:
				v = viol("no-neighbours", "vector %d was added, but: %v", id, ferr)
			default:
				state[id] = stored
				want[string(list)]++
				if want[string(list)] > 1 {
					st.Probe("equal-neighbour-lists")
				}
				st.hash.Add(uint64(len(list)))
				if v = find(id); v == nil {
					v = checkList(list, pts, int(id), m > len(pts) && ef > len(pts))
				}
				if v == nil {
					v = checkLevels(h, id, list, st)
				}
			}
		case "bad":
			if int(o.N) == dim {
				break
			}
			err := try(func() error { return mgr.AddNode(make(hnsw.Point, o.N)) })
			if err == nil || isPanic(err) {
				v = viol("bad-dimension", "adding a vector of dimension %d to an index of dimension %d: %v", o.N, dim, err)
			} else {
				v = find(hnsw.Id(len(pts)))
			}
		case "find":
			v = find(hnsw.Id(o.N))
		case "all":
			v = all()
		case "reopen":
			if err := open(); err != nil {
				v = viol("open-error", "%v", err)
			}
		}
		if v != nil {
			return at(i, v)
		}
	}
	if v := all(); v != nil {
		return v
	}
	st.curTriv = len(pts) > 2
	if len(d.buf) > 4096*6 {
		st.Probe("several-leaves")
	}
	return nil
}

// checkList judges the neighbour list of the vector that was added last: the
// neighbours exist, come in the order of their distance and, when the graph is
// exhaustive, none is nearer than those listed.
func checkList(list []byte, pts []hnsw.Point, id int, exhaustive bool) *Violation {
	if len(list) != 5*listNeighbours {
		return viol("bad-list", "the neighbour list of vector %d has %d bytes", id, len(list))
	}
	var ds []float64
	seen := map[uint32]bool{}
	for i := 0; i < min(listNeighbours, id); i++ {
		n := binary.BigEndian.Uint32(list[5*i+1:])
		if int(n) >= id {
			return viol("bad-list", "vector %d lists %d as a neighbour", id, n)
		}
		if seen[n] {
			if n != 0 || exhaustive { // 0 is also the filler
				return viol("bad-list", "vector %d lists neighbour %d twice", id, n)
			}
			break
		}
		dist := refDist(pts[n], pts[id])
		if len(ds) > 0 && dist < ds[len(ds)-1] && !nearly(dist, ds[len(ds)-1]) {
			if n != 0 || exhaustive {
				return viol("bad-list", "the neighbours of vector %d are not listed by distance", id)
			}
			break
		}
		seen[n] = true
		ds = append(ds, dist)
	}
	if !exhaustive {
		return nil
	}
	var all []float64
	for _, x := range pts[:id] {
		all = append(all, refDist(x, pts[id]))
	}
	sort.Float64s(all)
	for i, x := range ds {
		if math.IsNaN(x) || !nearly(x, all[i]) {
			return viol("bad-list", "neighbour %d listed for vector %d has distance %v, the true one has %v", i, id, x, all[i])
		}
	}
	return nil
}

// checkLevels judges the levels in the neighbour list of the vector that was
// added last: each is the highest on which the two are linked.
func checkLevels(h *hnsw.Hnsw, id hnsw.Id, list []byte, st *Stats) *Violation {
	highest := map[uint32]int{}
	err := try(func() error {
		f, err := h.Neighborhood(id)
		if err != nil {
			return err
		}
		for l := 0; l <= f.TopLevel(); l++ {
			g, err := f.GetFriendsAtLevel(l)
			if err != nil {
				return err
			}
			items, err := heapItems(g.Clone())
			if err != nil {
				return err
			}
			for _, it := range items {
				highest[uint32(it.id)] = l
			}
		}
		return nil
	})
	if err != nil {
		return viol("no-neighbours", "vector %d was added, but: %v", id, err)
	}
	seen := map[uint32]bool{}
	for i := 0; i < min(listNeighbours, len(highest)); i++ {
		n := binary.BigEndian.Uint32(list[5*i+1:])
		if l, ok := highest[n]; !ok || seen[n] || byte(l) != list[5*i] {
			return viol("bad-list", "vector %d lists neighbour %d on level %d, the highest level of their link is %d", id, n, list[5*i], l)
		}
		if highest[n] > 0 {
			st.Probe("neighbour-on-upper-level")
		}
		seen[n] = true
	}
	return nil
}
