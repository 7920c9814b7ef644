package simrt

import (
	"fmt"
	"reflect"
)

// A Go map, and a mutable map of dgo, must not be written while another task uses it: the Go runtime ends the process
// when it notices, and the other kind gets corrupted. Two tasks that are both about to use the same map, one of them to
// write it, show that nothing orders these accesses.

type mapUse struct {
	t     *Task
	write bool
	site  string
}

type mapState struct {
	keep   interface{} // so that the address is not used again
	owner  *Task
	shared bool
	uses   []mapUse
}

// MapAccess tells that the calling task is about to use the map that f returns.
func MapAccess(site string, write bool, f func() interface{}) {
	s := active
	if s == nil || s.cur == nil || s.aborting || s.noYield > 0 {
		return
	}
	if m, ok := noPanic(f); ok {
		s.mapAccess(site, write, m)
	}
}

// MapObj is MapAccess for an object that is a map.
func MapObj(site string, write bool, m interface{}) {
	s := active
	if s == nil || s.cur == nil || s.aborting || s.noYield > 0 {
		return
	}
	s.mapAccess(site, write, m)
}

func noPanic(f func() interface{}) (m interface{}, ok bool) {
	defer func() {
		if !ok {
			_ = recover()
		}
	}()
	m = f()
	return m, true
}

func (s *Sim) mapAccess(site string, write bool, m interface{}) {
	v := reflect.ValueOf(m)
	switch v.Kind() {
	case reflect.Map, reflect.Ptr:
	default:
		return
	}
	p := v.Pointer()
	if p == 0 {
		return
	}
	st := s.maps[p]
	if st == nil {
		if s.maps == nil {
			s.maps = map[uintptr]*mapState{}
		}
		s.maps[p] = &mapState{keep: m, owner: s.cur}
		return
	}
	if st.owner != s.cur {
		st.shared = true
	}
	if !st.shared {
		return
	}
	for _, u := range st.uses {
		if u.t != s.cur && (u.write || write) {
			s.Fail(`crash`, fmt.Sprintf(`concurrent use of a map, which ends the process: at %s by %s and at %s by %s`, u.site, u.t.Name, site, s.cur.Name))
			return
		}
	}
	t := s.cur
	st.uses = append(st.uses, mapUse{t, write, site})
	defer func() {
		for i, u := range st.uses {
			if u.t == t {
				st.uses = append(st.uses[:i], st.uses[i+1:]...)
				break
			}
		}
	}()
	p2 := s.cfg.Policy.PreemptP
	if p2 < 0.2 {
		p2 = 0.2
	}
	s.yield(site, p2)
}
