package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"

	"verif/harness/drv"
)

// C25: no two places of a tree, or of several trees, share memory that an edit can reach.

type span struct {
	from, to uintptr
	path     string
}

// spans collects the memory an edit of a tree can reach: what pointers point at, the
// elements of lists with their spare room, and maps.
type spans struct {
	all []span
}

func (s *spans) add(from, size uintptr, path string) {
	if size > 0 && from != 0 {
		s.all = append(s.all, span{from, from + size, path})
	}
}

func (s *spans) visit(v reflect.Value, path string, depth int) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			s.visit(v.Elem(), path, depth)
		}
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem() == timeType {
			return
		}
		s.add(v.Pointer(), v.Type().Elem().Size(), "*"+path)
		if depth > 20000 || s.known(v.Pointer()) {
			return
		}
		s.visit(v.Elem(), path, depth+1)
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				s.visit(v.Field(i), path+"."+f.Name, depth+1)
			}
		}
	case reflect.Slice:
		s.add(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size(), path+"[]")
		for i := 0; i < v.Len(); i++ {
			s.visit(v.Index(i), fmt.Sprintf("%s[%d]", short(path), i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		s.add(v.Pointer(), 1, path+"{}")
		for it := v.MapRange(); it.Next(); {
			s.visit(it.Value(), fmt.Sprintf("%s{%s}", short(path), it.Key()), depth+1)
		}
	}
}

// known tells that the tree has led to the same node just before (a cycle would not end).
func (s *spans) known(p uintptr) bool {
	n := len(s.all) - 1
	for i := n - 1; i >= 0 && i > n-50; i-- {
		if s.all[i].from == p {
			return true
		}
	}
	return false
}

func short(p string) string {
	if len(p) > 300 {
		return p[:40] + "…" + p[len(p)-240:]
	}
	return p
}

// shared finds two overlapping spans.
func (s *spans) shared() error {
	sort.Slice(s.all, func(i, j int) bool { return s.all[i].from < s.all[j].from })
	for i := 1; i < len(s.all); i++ {
		if a, b := s.all[i-1], s.all[i]; a.to > b.from {
			return fmt.Errorf("two places share memory, so an edit of one shows at the other:\n  %s\n  %s", a.path, b.path)
		}
	}
	return nil
}

func init() {
	reg(&drv.Check{
		ID:    "C25",
		Rule:  "the trees of two to four random modules (some parsed twice, some after printing, exporting and walking others): the memory reachable by an edit (nodes behind pointers, list elements with the spare room an append would use, maps) must not overlap between any two places; non-trivial: at least 30 such pieces",
		Quick: 120000, Thorough: 2600000,
		Gen: func(g *drv.G) *drv.Case {
			c := &drv.Case{Ints: []int{g.N(1 << 10)}}
			for i := 1 + g.Geo(1, 2, 3); i > 0; i-- {
				src, _ := genSource(g, nil)
				c.Parts = append(c.Parts, drv.Txt(src))
			}
			if g.P(1, 2) {
				c.Parts = append(c.Parts, c.Parts[g.N(len(c.Parts))])
			}
			return c
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			s := &spans{}
			var keep []any
			for i, p := range c.Parts {
				a, err := parse(string(p))
				if err != nil {
					return fmt.Errorf("a well-formed module is rejected: %v", err)
				}
				keep = append(keep, a)
				if c.Ints[0]>>i&1 != 0 {
					for k := range facetNames {
						facet(a, k)
					}
				}
			}
			for i, a := range keep {
				s.visit(reflect.ValueOf(a), fmt.Sprintf("tree %d: ", i), 0)
			}
			n := len(s.all)
			err := s.shared()
			runtime.KeepAlive(keep)
			x.ClassN("pieces of memory", n)
			x.ClassN("trees", len(keep))
			if n >= 30 {
				x.NonTrivial(fmt.Sprint(c.Ints, c.Parts))
			}
			return err
		},
	})
}
