package main

import (
	"fmt"
	"go/types"
	"math"
	"slices"
	"strings"
)

type mapEnt struct {
	k, v Value
	dead bool
}

// Map keeps insertion order; iteration order is insertion order, or an arbitrary
// permutation chosen by symbolic choices when the harness asks for it.
type Map struct {
	idx   map[string]int
	ents  []*mapEnt
	live  int
	nsym  int
	id    int
	grace int
}

func newMap() *Map { return &Map{idx: map[string]int{}} }

// ckey is a canonical encoding of a fully concrete key.
func (m *M) ckey(fr *frame, t types.Type, k Value, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := scalarOf(t)
		if isSym(k) {
			return false
		}
		switch s.kind {
		case 's':
			str, ok := conc(k)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "%d:", len(str))
			sb.WriteString(str)
		case 'f':
			f := fval(s.w, k.N)
			if f == 0 {
				f = 0
			}
			fmt.Fprintf(sb, "f%x", math.Float64bits(f+0))
		default:
			if p, ok := k.P.(*Value); ok {
				fmt.Fprintf(sb, "p%p", p)
			} else {
				fmt.Fprintf(sb, "i%x", k.N)
			}
		}
		return true
	case *types.Interface:
		iv, _ := k.P.(*Iface)
		if iv == nil {
			sb.WriteString("nil")
			return true
		}
		if !types.Comparable(iv.rt.t) {
			m.rtPanic(fr, "hash of unhashable type "+iv.rt.t.String())
		}
		fmt.Fprintf(sb, "T%d.", iv.rt.id)
		return m.ckey(fr, iv.rt.t, iv.v, sb)
	case *types.Struct:
		a := k.P.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			if !m.ckey(fr, u.Field(i).Type(), a.E[i], sb) {
				return false
			}
			sb.WriteByte(',')
		}
		return true
	case *types.Array:
		a := k.P.(*Agg)
		for i := range a.E {
			if !m.ckey(fr, u.Elem(), a.E[i], sb) {
				return false
			}
			sb.WriteByte(',')
		}
		return true
	}
	fmt.Fprintf(sb, "p%p", k.P)
	return true
}

func (m *M) keyOf(fr *frame, t types.Type, k Value) (string, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return conc(k)
	}
	var sb strings.Builder
	ok := m.ckey(fr, t, k, &sb)
	return sb.String(), ok
}

func (m *M) mapFind(fr *frame, mp *Map, k Value, kt types.Type) int {
	ck, ok := m.keyOf(fr, kt, k)
	if mp == nil {
		return -1
	}
	if ok {
		if i, hit := mp.idx[ck]; hit {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	if mp.live == 0 {
		return -1
	}
	// symbolic key on either side: compare entry by entry
	for i, e := range mp.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, c := m.keyOf(fr, kt, e.k); c {
				continue
			}
		}
		c := m.valEq(fr, kt, e.k, k, false)
		if c == m.x.False {
			continue
		}
		if m.branch(c) {
			return i
		}
	}
	return -1
}

func (m *M) mapSet(fr *frame, mp *Map, k, v Value, kt types.Type) {
	v = loadVal(v)
	if i := m.mapFind(fr, mp, k, kt); i >= 0 {
		m.set(&mp.ents[i].v, v)
		return
	}
	m.allocBytes += 64
	m.checkMem()
	ck, ok := m.keyOf(fr, kt, k)
	i := len(mp.ents)
	ent := &mapEnt{k: k, v: v}
	do := func() {
		mp.ents = append(mp.ents[:i], ent)
		mp.live++
		if ok {
			mp.idx[ck] = i
		} else {
			mp.nsym++
		}
	}
	do()
	m.onUndo(func() {
		mp.ents = mp.ents[:i]
		mp.live--
		if ok {
			delete(mp.idx, ck)
		} else {
			mp.nsym--
		}
	}, do)
}

func (m *M) mapDelete(fr *frame, mp *Map, k Value, kt types.Type) {
	i := m.mapFind(fr, mp, k, kt)
	if i < 0 {
		return
	}
	e := mp.ents[i]
	ck, ok := m.keyOf(fr, kt, e.k)
	do := func() {
		e.dead = true
		mp.live--
		if ok {
			delete(mp.idx, ck)
		} else {
			mp.nsym--
		}
	}
	do()
	m.onUndo(func() {
		e.dead = false
		mp.live++
		if ok {
			mp.idx[ck] = i
		} else {
			mp.nsym++
		}
	}, do)
}

func (m *M) mapClear(mp *Map) {
	old := *mp
	do := func() { mp.idx, mp.ents, mp.live, mp.nsym = map[string]int{}, nil, 0, 0 }
	do()
	m.onUndo(func() { *mp = old }, do)
}

// maxPerm is the size up to which maps are walked in every order.
const maxPerm = 4

type mapIter struct {
	mp    *Map
	pos   int
	perm  bool
	fixed bool
	left  []*mapEnt
	n0    int
}

func (m *M) newMapIter(fr *frame, mp *Map) *mapIter {
	it := &mapIter{mp: mp}
	if mp != nil && mp.live > 1 && m.path != nil && m.path.mapMode > 0 {
		it.perm = m.permuteHere(fr)
		if it.perm {
			for _, e := range mp.ents {
				if !e.dead {
					it.left = append(it.left, e)
				}
			}
			it.n0 = len(mp.ents)
			if n := len(it.left); n > maxPerm {
				// big maps: the rotations and their reversals only
				c := m.chooseInternal(2 * n)
				l := append(append([]*mapEnt(nil), it.left[c/2:]...), it.left[:c/2]...)
				if c%2 == 1 {
					slices.Reverse(l)
				}
				it.left, it.fixed = l, true
			}
		}
	}
	return it
}

// permuteHere decides whether this dynamic range statement uses an arbitrary order.
func (m *M) permuteHere(fr *frame) bool {
	p := m.path
	if p.mapMode == 1 {
		if p.mapDev <= 0 {
			return false
		}
		if m.chooseInternal(2) == 1 {
			p.mapDev--
			return true
		}
		return false
	}
	return true
}

func (m *M) mapNext(fr *frame, it *mapIter, tt *types.Tuple) Value {
	var e *mapEnt
	if it.mp != nil {
		if it.perm {
			// entries added during iteration may or may not be visited; we do not visit them
			for len(it.left) > 0 && e == nil {
				i := 0
				if len(it.left) > 1 && !it.fixed {
					i = m.chooseInternal(len(it.left))
				}
				c := it.left[i]
				it.left = append(append([]*mapEnt(nil), it.left[:i]...), it.left[i+1:]...)
				if !c.dead {
					e = c
				}
			}
		} else {
			for it.pos < len(it.mp.ents) && e == nil {
				c := it.mp.ents[it.pos]
				it.pos++
				if !c.dead {
					e = c
				}
			}
		}
	}
	if e == nil {
		return Value{P: &Agg{E: []Value{vBool(false), {}, {}}}}
	}
	return Value{P: &Agg{E: []Value{vBool(true), e.k, loadVal(e.v)}}}
}
