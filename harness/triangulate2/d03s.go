package triangulate2

import (
	"geGoMetry/r3"
	vs "geGoMetry/verifsym"
)

// One flip step, with the flips it leads to: two triangles that share an edge, any of
// the four surrounding triangles present or absent, every rotation of the corners of the two,
// either one first in the list, and the vertex opposite to the flipping point and those of the
// two triangles behind it anywhere on a grid, so that any sequence of flips may follow. Before the step the half-edges are paired
// and the hull knows the unpaired ones; so they are afterwards, given that the caller records
// the returned half-edge as the hull's (as the triangulation does).
//verif:check D03
func Verif_D03_flip() {
	mask := vs.Concretize(vs.Int("neighbours", 0, 15))
	r0 := vs.Concretize(vs.Int("rotation 0", 0, 2))
	r1 := vs.Concretize(vs.Int("rotation 1", 0, 2))
	swap := vs.Concretize(vs.Int("swap", 0, 1))
	vectors := []r3.Vector{pt(-4, 0), pt(0, 3), pt(0, -3), {}, pt(-5, 5), {}, {}, pt(-5, -5)}
	vectors[3] = r3.Vector{X: vs.Grid("p1.x", 1, 3, 0), Y: vs.Grid("p1.y", -1, 1, 0)}
	vectors[5] = r3.Vector{X: vs.Grid("p5.x", 1, 6, 0), Y: 2}
	vectors[6] = r3.Vector{X: vs.Grid("p6.x", 1, 6, 0), Y: -2}
	// triangles are clockwise: p0=0, pr=1, pl=2, p1=3; the edge pr -> pl is shared
	t0 := []int{1, 2, 0}
	t1 := []int{2, 1, 3}
	rot := func(t []int, r int) []int { return []int{t[r], t[(r+1)%3], t[(r+2)%3]} }
	t0, t1 = rot(t0, r0), rot(t1, r1)
	ts := append(append([]int{}, t0...), t1...)
	if swap == 1 {
		ts = append(append([]int{}, t1...), t0...)
	}
	for k, nb := range [][]int{{0, 4, 1}, {1, 5, 3}, {3, 6, 2}, {2, 7, 0}} {
		if mask>>uint(k)&1 == 1 {
			// the neighbour's corners, the reverse of the edge last
			ts = append(ts, nb...)
		}
	}
	hs := make([]int, len(ts))
	nx := func(i int) int { return i - i%3 + (i+1)%3 }
	for i := range hs {
		hs[i] = -1
		for j := range ts {
			if ts[j] == ts[nx(i)] && ts[nx(j)] == ts[i] {
				hs[i] = j
			}
		}
	}
	// the hull
	nodes := make([]node, len(vectors))
	var first *node
	start := 0
	for hs[start] != -1 {
		start++
	}
	var prev *node
	for i := start; ; {
		n := newNode(nodes, ts[i], prev)
		n.t = i
		if first == nil {
			first = n
		}
		prev = n
		for j := range ts {
			if hs[j] == -1 && ts[j] == ts[nx(i)] {
				i = j
				break
			}
		}
		if i == start {
			break
		}
	}
	tri := &triangulator{Vectors: vectors, triangles: ts, halfedges: hs, trianglesLen: len(ts), hull: first}
	a := 0
	for !(ts[a] == 1 && ts[nx(a)] == 2) {
		a++
	}
	// the half-edge p0 -> pr is returned, wherever it ends up
	var own *node
	ar := a - a%3 + (a+2)%3
	for i := range nodes {
		if nodes[i].next != nil && nodes[i].t == ar {
			own = &nodes[i]
		}
	}
	ret := tri.legalize(a)
	vs.Assert(ret >= 0 && ret < len(ts), "the returned half-edge exists")
	if own != nil {
		own.t = ret
	}
	paired(vectors, tri.triangles, tri.halfedges)
	unpaired := 0
	for i := range tri.halfedges {
		if tri.halfedges[i] == -1 {
			unpaired++
		}
	}
	n := 0
	for e := first; n < len(nodes); e = e.next {
		n++
		ok := e.t >= 0 && e.t < len(ts)
		vs.Assert(ok && tri.halfedges[e.t] == -1 && tri.triangles[e.t] == e.i && tri.triangles[nx(e.t)] == e.next.i, "the hull names the unpaired half-edges")
		if e.next == first {
			break
		}
	}
	vs.Assert(n == unpaired, "every unpaired half-edge is on the hull")
	vs.Cover("done")
	if tri.triangles[a] != 1 {
		vs.Cover("flipped")
	}
}
