package main

// Values, types and data that nest deeply. They are described by how they
// nest, which keeps the cases small.

import (
	"fmt"
	"reflect"

	"pgregory.net/rapid"
)

type nest struct {
	Root  string `json:"root"`  // a recursive type, or "built"
	Steps []int  `json:"steps"` // cyclic
	N     int    `json:"n"`
	Side  []int  `json:"side"` // what else there is at each level, cyclic
}

func drawNest(t *rapid.T) *nest {
	n := &nest{Root: pick(t, "root", "pRec", "pRec", "pRec", "pVR", "pVR", "pKR", "pRL", "pRM", "pRSE", "pMutA", "built")}
	n.N = pick(t, "n", 11, 15, 22, 33, 51, 65, 70, 103, 115, 130, 180, 260, 350, 400, 520, 600, 800, 1030, 2050, 4200) + between(t, "more", 0, 20)
	switch n.Root {
	case "built":
		n.N = min(n.N, 110)
	case "pMutA":
		n.N = min(n.N, 3100) // three levels each
	}
	for i, k := 0, between(t, "steps", 1, 4); i < k; i++ {
		n.Steps = append(n.Steps, between(t, "step", 0, 3))
	}
	for i, k := 0, between(t, "sides", 1, 5); i < k; i++ {
		n.Side = append(n.Side, between(t, "side", 0, 7))
	}
	return n
}

func (n *nest) step(i int) int { return n.Steps[i%len(n.Steps)] }
func (n *nest) side(i int) int { return n.Side[i%len(n.Side)] }

var builtLeaf = rt[struct {
	A int32  `thrift:"1"`
	B string `thrift:"2"`
}]()

func (n *nest) typ() reflect.Type {
	if n.Root != "built" {
		return (&Ty{K: "pool", N: n.Root}).build()
	}
	t := builtLeaf
	for i := range n.N {
		switch n.step(i) {
		case 0:
			t = reflect.SliceOf(t)
		case 1:
			if t.Kind() == reflect.Pointer { // pointers do not nest in the data
				t = reflect.SliceOf(t)
			}
			t = reflect.PointerTo(t)
		case 2:
			t = reflect.MapOf(rt[string](), t)
		case 3:
			t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `thrift:"7"`}})
		}
	}
	return t
}

func nI32(i int) *V    { return &V{T: tI32, I: int64(int32(i))} }
func nStr(s string) *V { return &V{T: tString, S: Bytes(s)} }

// around puts the value between siblings.
func (n *nest) around(i int, v, leaf *V) []*V {
	switch n.side(i) {
	case 0, 1, 2, 3:
		return []*V{v}
	case 4, 5:
		return []*V{v, leaf}
	case 6:
		return []*V{leaf, v}
	}
	return []*V{leaf, v, leaf}
}

// data is what describes a value of the type. The fields of a struct are not
// in the order of their ids.
func (n *nest) data() *V {
	switch n.Root {
	case "pRL":
		v := &V{T: tList, E: tList}
		for i := range n.N {
			v = &V{T: tList, E: tList, L: n.around(i, v, &V{T: tList, E: tList})}
		}
		return v
	case "pRM":
		v := &V{T: tMap, K: tString, E: tMap}
		for i := range n.N {
			w := &V{T: tMap, K: tString, E: tMap}
			for j, e := range n.around(i, v, &V{T: tMap, K: tString, E: tMap}) {
				w.L = append(w.L, nStr(fmt.Sprint("k", j)), e)
			}
			v = w
		}
		return v
	case "pRSE":
		leaf := &V{T: tStruct, F: []F{{2, &V{T: tI16, I: 3}}}}
		v := leaf
		for i := range n.N {
			w := &V{T: tStruct, F: []F{{1, &V{T: tList, E: tStruct, L: n.around(i, v, leaf)}}}}
			if n.side(i)%2 == 0 {
				w.F = append(w.F, F{2, &V{T: tI16, I: int64(i)}})
			}
			v = w
		}
		return v
	case "pMutA":
		v := &V{T: tStruct, F: []F{{2, nStr("leaf")}}}
		leaf := v
		for i := range n.N {
			b := &V{T: tStruct, F: []F{{1, &V{T: tList, E: tStruct, L: n.around(i, v, leaf)}}}}
			if n.side(i)%3 == 0 {
				b.F = append([]F{{2, &V{T: tList, E: tList}}}, b.F...)
			}
			v = &V{T: tStruct, F: []F{{1, b}, {2, nStr(fmt.Sprint(i))}}}
		}
		return v
	case "pRec":
		leaf := &V{T: tStruct, F: []F{{1, nI32(5)}}}
		v := leaf
		for i := range n.N {
			w := &V{T: tStruct}
			if n.side(i) == 1 {
				w.F = append(w.F, F{1, nI32(i)})
			}
			switch n.step(i) {
			case 0:
				w.F = append(w.F, F{2, v})
			case 1:
				w.F = append(w.F, F{3, &V{T: tList, E: tStruct, L: n.around(i, v, leaf)}})
			case 2:
				m := &V{T: tMap, K: tString, E: tStruct}
				for j, e := range n.around(i, v, leaf) {
					m.L = append(m.L, nStr(fmt.Sprint("k", j)), e)
				}
				w.F = append(w.F, F{4, m})
			case 3:
				w.F = append(w.F, F{-5, &V{T: tSet, E: tStruct, L: n.around(i, v, leaf)}})
			}
			if n.side(i)%2 == 0 {
				w.F = append(w.F, F{1, nI32(i)})
			}
			v = w
		}
		return v
	case "pKR":
		v := &V{T: tStruct}
		for i := range n.N {
			m := &V{T: tMap, K: tStruct, E: tBool}
			for j, e := range n.around(i, v, &V{T: tStruct, F: []F{{2, &V{T: tI16, I: 1}}}}) {
				m.L = append(m.L, e, &V{T: tBool, I: int64(j % 2)})
			}
			v = &V{T: tStruct, F: []F{{2, &V{T: tI16, I: int64(i)}}, {1, m}}}
		}
		return v
	case "pVR":
		leaf := &V{T: tStruct, F: []F{{-1, &V{T: tI16, I: 5}}}}
		v := leaf
		for i := range n.N {
			w := &V{T: tStruct}
			switch n.step(i) {
			case 0:
				m := &V{T: tMap, K: tByte, E: tStruct}
				for j, e := range n.around(i, v, leaf) {
					m.L = append(m.L, &V{T: tByte, I: int64(j)}, e)
				}
				w.F = append(w.F, F{1, m})
			case 1:
				w.F = append(w.F, F{2, &V{T: tList, E: tStruct, L: n.around(i, v, leaf)}})
			case 2:
				w.F = append(w.F, F{3, &V{T: tSet, E: tStruct, L: n.around(i, v, leaf)}})
			case 3:
				w.F = append(w.F, F{4, v})
			}
			if n.side(i)%2 == 0 {
				w.F = append(w.F, F{-1, &V{T: tI16, I: int64(i)}})
			}
			v = w
		}
		return v
	case "built":
		v := &V{T: tStruct, F: []F{{1, nI32(7)}, {2, nStr("leaf")}}}
		ptr := false
		for i := range n.N {
			s := n.step(i)
			if s == 1 && ptr {
				v, s = &V{T: tList, E: v.T, L: []*V{v}}, 1
			}
			ptr = s == 1
			switch s {
			case 0:
				v = &V{T: tList, E: v.T, L: []*V{v}}
			case 2:
				v = &V{T: tMap, K: tString, E: v.T, L: []*V{nStr("k"), v}}
			case 3:
				v = &V{T: tStruct, F: []F{{7, v}}}
			}
		}
		return v
	}
	fault("nest of %q", n.Root)
	return nil
}

// value makes a value from the data with the reference interpreter.
func (n *nest) value() reflect.Value {
	p := reflect.New(n.typ())
	if err := refApply(p.Elem(), n.data()); err != nil {
		fault("nest: %v", err)
	}
	return p
}

func drawNestGo(t *rapid.T) *goCase {
	c := &goCase{Proto: pick(t, "proto", protoNames...), ByVal: chance(t, 25, "byval"), Nest: drawNest(t)}
	if chance(t, 30, "message") {
		c.Msg = &Msg{Name: drawName(t), Type: byte(between(t, "mtype", 1, 4)), ID: int32(drawInt(t, 32))}
	}
	return c
}

func drawNestApply(t *rapid.T) *applyCase {
	return &applyCase{From: pick(t, "from", "binary", "compact", "tokens"), Nest: drawNest(t), Twice: rapid.Bool().Draw(t, "twice"), Chunk: pick(t, "chunk", 0, 0, 1, 5)}
}
