//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"
)

// point types of a user, embedding those of the package
type oxf struct {
	tag [3]byte
	cp.Point_xtw_full
}
type oas struct {
	cp.Point_axtw_subgroup
	tag uint16
}

// an array of three values, an array of three pointers to such values and one more value; views of both
type vmem struct {
	ep    *zz.Ep
	types []string
	cell  []obj // the owner's pointers
	slots []int // of the array of pointers: cells
	views []vview
	whole func(a int) vview
	redir func(s, c int)
}

// v: what is under test; part: the same for a part of the same memory
type vview struct {
	n    int
	v    cp.CurvePointSlice
	part func(lo, n int) vview
}

type ptrTo[T any] interface {
	*T
	cp.CurvePointPtrInterface
}

func valueView[T any, P ptrTo[T]](s []T) vview {
	return vview{len(s), cp.AsCurvePointSlice[T, P](s), func(lo, n int) vview { return valueView[T, P](s[lo : lo+n]) }}
}
func ptrView[P cp.CurvePointPtrInterface](s []P) vview {
	return vview{len(s), cp.AsCurvePointPtrSlice(s), func(lo, n int) vview { return ptrView(s[lo : lo+n]) }}
}
func genericView(s cp.GenericPointSlice) vview {
	return vview{len(s), s, func(lo, n int) vview { return genericView(s[lo : lo+n]) }}
}

// kind: "typed" pointers, "interface" values wrapped, "generic" slice
func newMem[T any, P ptrTo[T]](ep *zz.Ep, kind, t, t4 string) *vmem {
	m := &vmem{ep: ep, types: []string{t, t, t, t}, slots: []int{1, 3, 4}}
	arr := make([]T, 4)[:3] // there is memory beyond the array
	for i := range arr {
		m.cell = append(m.cell, P(&arr[i]))
	}
	fourth := P(new(T))
	m.cell = append(m.cell, fourth)
	if kind != "typed" {
		m.cell[3], m.types[3] = newObj(t4), t4
	}
	switch kind {
	case "typed":
		ps := []P{P(&arr[0]), P(&arr[2]), fourth}
		m.whole = func(a int) vview {
			if a == 1 {
				return valueView[T, P](arr)
			}
			return ptrView(ps)
		}
		m.redir = func(s, c int) { ps[s-1] = m.cell[c-1].(P) }
	default:
		ps := []cp.CurvePointPtrInterface{m.cell[0], m.cell[2], m.cell[3]}
		m.whole = func(a int) vview {
			if a == 1 {
				return valueView[T, P](arr)
			}
			if kind == "generic" {
				return genericView(ps)
			}
			return ptrView(ps)
		}
		m.redir = func(s, c int) { ps[s-1] = m.cell[c-1] }
	}
	lt := []string{}
	for _, t := range m.types {
		lt = append(lt, lower(t))
	}
	ep.Set("types", lt)
	ep.Set("slots", [][]int{{1, 2, 3}, {1, 3, 4}})
	return m
}

var memKinds = []string{"xf", "xs", "af", "as", "ef", "es", "Oxf", "Oas"}

func memOf(ep *zz.Ep, t, kind, t4 string) *vmem {
	switch t {
	case "xf":
		return newMem[cp.Point_xtw_full](ep, kind, t, t4)
	case "xs":
		return newMem[cp.Point_xtw_subgroup](ep, kind, t, t4)
	case "af":
		return newMem[cp.Point_axtw_full](ep, kind, t, t4)
	case "as":
		return newMem[cp.Point_axtw_subgroup](ep, kind, t, t4)
	case "ef":
		return newMem[cp.Point_efgh_full](ep, kind, t, t4)
	case "es":
		return newMem[cp.Point_efgh_subgroup](ep, kind, t, t4)
	case "Oxf":
		return newMem[oxf](ep, kind, "xf", t4)
	default:
		return newMem[oas](ep, kind, "as", t4)
	}
}

// the content of o becomes that of s, an object of the plain type
func fillObj(o, s obj) {
	switch o := o.(type) {
	case *cp.Point_xtw_full:
		*o = *s.(*cp.Point_xtw_full)
	case *cp.Point_xtw_subgroup:
		*o = *s.(*cp.Point_xtw_subgroup)
	case *cp.Point_axtw_full:
		*o = *s.(*cp.Point_axtw_full)
	case *cp.Point_axtw_subgroup:
		*o = *s.(*cp.Point_axtw_subgroup)
	case *cp.Point_efgh_full:
		*o = *s.(*cp.Point_efgh_full)
	case *cp.Point_efgh_subgroup:
		*o = *s.(*cp.Point_efgh_subgroup)
	case *oxf:
		o.Point_xtw_full = *s.(*cp.Point_xtw_full)
	case *oas:
		o.Point_axtw_subgroup = *s.(*cp.Point_axtw_subgroup)
	default:
		panic("harness: fillObj")
	}
}

func (m *vmem) log(op string, rec M) {
	raw := make([]any, len(m.cell))
	for i, o := range m.cell {
		raw[i] = rawOf(o)
	}
	rec["raw"] = raw
	m.ep.Log(op, rec)
}

func (m *vmem) mk(z int) {
	rng := m.ep.Rng
	t := m.types[z-1]
	var v pv
	switch {
	case isSub(t):
		v = randSub(rng)
	case canInf(t) && rng.Intn(4) == 0:
		v = zz.Pick(rng, []pv{pE1, pE2})
	default:
		v = randFull(rng)
	}
	if rng.Intn(8) == 0 {
		v = pN
	}
	fillObj(m.cell[z-1], mkObj(rng, t, v, rng.Intn(nStyles)))
	m.log("mk", M{"z": z, "v": v.log()})
}

func (m *vmem) view(z, x []int) {
	w := vview{}
	out := zz.Outcome(func() {
		if z[0] == 0 {
			w = m.whole(z[1])
		} else {
			w = m.views[z[0]-1].part(x[0], x[1])
		}
	})
	m.views = append(m.views, w)
	m.log("View", M{"z": z, "x": x, "out": out})
}

// number of the cell a pointer leads to, 0 if none
func (m *vmem) cellOf(o any) int {
	for i, c := range m.cell {
		if any(c) == o {
			return i + 1
		}
	}
	return 0
}

func (m *vmem) look(z []int) {
	w := m.views[z[0]-1]
	rec := M{"z": z, "len": -1, "cells": []int{}, "again": []int{}, "typed": []int{}, "asked": []int{}, "refused": []int{}}
	typed := reflect.ValueOf(w.v).MethodByName("GetByIndexTyped")
	rec["out"] = zz.Outcome(func() {
		rec["len"] = w.v.Len()
		cells, again, ty := []int{}, []int{}, []int{}
		for i := 0; i < w.n; i++ {
			cells = append(cells, m.cellOf(w.v.GetByIndex(i)))
			if typed.IsValid() {
				ty = append(ty, m.cellOf(typed.Call([]reflect.Value{reflect.ValueOf(i)})[0].Interface()))
			}
		}
		for i := w.n - 1; i >= 0; i-- {
			again = append([]int{m.cellOf(w.v.GetByIndex(i))}, again...)
		}
		rec["cells"], rec["again"], rec["typed"] = cells, again, ty
	})
	asked, refused := []int{}, []int{}
	for _, i := range []int{-1, w.n, w.n + 1, w.n + 4, -7, 1 << 40} {
		j := i
		if i == 1<<40 {
			j = 1 << 30 // as logged
		}
		asked = append(asked, j)
		no, _ := zz.Try(func() { w.v.GetByIndex(i) })
		noTyped := true
		if typed.IsValid() {
			noTyped, _ = zz.Try(func() { typed.Call([]reflect.Value{reflect.ValueOf(i)}) })
		}
		if no && noTyped {
			refused = append(refused, j)
		}
	}
	rec["asked"], rec["refused"] = asked, refused
	m.log("Look", rec)
}

func (m *vmem) at(r []int) obj {
	if r[0] == 0 {
		return m.cell[r[1]-1]
	}
	return m.views[r[0]-1].v.GetByIndex(r[1])
}

func (m *vmem) cellNo(r []int) int {
	return m.cellOf(m.at(r))
}

func (m *vmem) do(f string, z, x, y []int) {
	a, p, q := m.at(z), m.at(x), m.at(y)
	out := zz.Outcome(func() {
		switch f {
		case "SetFrom":
			a.SetFrom(p)
		case "Neg":
			a.Neg(p)
		case "NegEq":
			a.NegEq()
		case "Double":
			a.Double(p)
		case "Add":
			a.Add(p, q)
		case "AddEq":
			a.AddEq(p)
		case "SetNeutral":
			a.SetNeutral()
		default:
			panic("harness: " + f)
		}
	})
	m.log("Do", M{"f": f, "z": z, "x": x, "y": y, "out": out})
	if out == "panic" {
		if c := m.cellOf(a); c > 0 {
			m.mk(c)
		}
	}
}

func (m *vmem) norm(f string, z []int) {
	w := m.views[z[0]-1]
	var call func() []int
	if f == "Z" {
		if n, ok := w.v.(cp.BatchNormalizerForZ); ok {
			call = n.BatchNormalizeForZ
		}
	} else if n, ok := w.v.(cp.BatchNormalizerForY); ok {
		call = n.BatchNormalizeForY
	}
	if call == nil {
		return
	}
	var idx []int
	out := zz.Outcome(func() { idx = call() })
	m.log("Norm", M{"f": f, "z": z, "idx": append([]int{}, idx...), "out": out})
}

type viewOp struct {
	Op, F   string
	Z, X, Y []int
}

func suiteG08(r *zz.Run) {
	pats := []string{"typed", "interface", "generic"}
	for _, t := range memKinds {
		for _, kind := range pats {
			t4s := []string{"xf", "as", "ef"}
			if kind == "typed" {
				t4s = []string{""}
			}
			for _, t4 := range t4s {
				r.Episode(fmt.Sprintf("all-%s-%s%s", t, kind, t4), func(ep *zz.Ep) {
					m := memOf(ep, t, kind, t4)
					for c := 1; c <= 4; c++ {
						m.mk(c)
					}
					for a := 1; a <= 2; a++ { // every view of every length, and every single entry of it
						m.view([]int{0, a}, []int{0, 3})
						base := len(m.views)
						m.look([]int{base, 0})
						for lo := 0; lo <= 3; lo++ {
							for n := 0; lo+n <= 3; n++ {
								m.view([]int{base, 0}, []int{lo, n})
								v := len(m.views)
								m.look([]int{v, 0})
								for i := 0; i < n; i++ {
									o := 1 + ep.Rng.Intn(4)
									m.do("SetFrom", []int{v, i}, []int{0, o}, []int{0, 1})
									m.do("Neg", []int{0, o}, []int{v, i}, []int{0, 1})
								}
								m.norm(zz.Pick(ep.Rng, []string{"Z", "Y"}), []int{v, 0})
								c := 1 + ep.Rng.Intn(4)
								m.mk(c)
								m.norm(zz.Pick(ep.Rng, []string{"Z", "Y"}), []int{v, 0})
							}
						}
					}
					for s := 1; s <= 3; s++ {
						c := 1 + ep.Rng.Intn(4)
						m.redir(s, c)
						m.log("Redirect", M{"z": []int{2, s}, "x": []int{0, c}})
						for v := range m.views {
							m.look([]int{v + 1, 0})
						}
					}
				})
			}
		}
	}
	if r.In == "" {
		return
	}
	for i, raw := range zz.ReadBehaviours(r.In) {
		var ops []viewOp
		if err := json.Unmarshal(raw, &ops); err != nil {
			panic(err)
		}
		t := memKinds[i%len(memKinds)]
		kind := pats[i/len(memKinds)%len(pats)]
		r.Episode(fmt.Sprintf("walk-%d-%s-%s", i, t, kind), func(ep *zz.Ep) {
			m := memOf(ep, t, kind, zz.Pick(ep.Rng, typeNames))
			for c := 1; c <= 4; c++ {
				m.mk(c)
			}
			for _, o := range ops {
				switch o.Op {
				case "View":
					m.view(o.Z, o.X)
				case "Redirect":
					m.redir(o.Z[1], o.X[1])
					m.log("Redirect", M{"z": o.Z, "x": o.X})
				case "Look":
					m.look(o.Z)
				case "Norm":
					m.norm(o.F, o.Z)
				case "mk":
					m.mk(o.Z[1])
				case "Do":
					m.do(o.F, o.Z, o.X, o.Y)
				}
			}
			for v := range m.views {
				m.look([]int{v + 1, 0})
			}
		})
	}
}
