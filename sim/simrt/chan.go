package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"time"
)

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s, t := leave(`receive`)
	if s == nil {
		v, ok = <-ch
		return
	}
	select {
	case v, ok = <-ch:
	case <-t.kill:
		runtime.Goexit()
	}
	s.park(t, `receive`)
	return
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		s, t := leave(`send`)
		if s == nil {
			ch <- v
			return
		}
		select {
		case ch <- v:
		case <-t.kill:
			runtime.Goexit()
		}
		s.park(t, `send`)
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	Yield(`close`)
	close(ch)
}

// BlockForever is select {}.
func BlockForever() {
	s, t := leave(`select{}`)
	if s == nil {
		select {}
	}
	<-t.kill
	runtime.Goexit()
}

// SelCase is one case of a select.
type SelCase struct {
	c reflect.SelectCase
}

// CaseRecv is case <-ch.
func CaseRecv[T any](ch <-chan T) SelCase {
	return SelCase{reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}}
}

// CaseSend is case ch <- v.
func CaseSend[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		return SelCase{reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()}}
	}
}

// SelVal extracts the received value with the static type of the channel.
func SelVal[T any](_ <-chan T, v reflect.Value) (r T) {
	if v.IsValid() {
		reflect.ValueOf(&r).Elem().Set(v)
	}
	return
}

// Select runs a select statement. Which ready case is taken is the scheduler's choice.
func Select(hasDefault bool, cases ...SelCase) (int, reflect.Value, bool) {
	Yield(`select`)
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		rc = append(rc, c.c)
	}
	s := active
	if s != nil && s.aborting {
		runtime.Goexit()
	}
	if s == nil || s.cur == nil {
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			i = -1
		}
		return i, v, ok
	}
	n := len(cases)
	if n > 0 {
		off := Choose(n, `select`)
		for k := 0; k < n; k++ {
			i := (k + off) % n
			if !rc[i].Chan.IsValid() || rc[i].Chan.IsNil() {
				continue
			}
			j, v, ok := reflect.Select([]reflect.SelectCase{rc[i], {Dir: reflect.SelectDefault}})
			if j == 0 {
				return i, v, ok
			}
		}
	}
	if hasDefault {
		return -1, reflect.Value{}, false
	}
	_, t := leave(`select`)
	rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(t.kill)})
	i, v, ok := reflect.Select(rc)
	if i == n {
		runtime.Goexit()
	}
	s.park(t, `select`)
	return i, v, ok
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	s, t := leave(`sleep`)
	if s == nil {
		time.Sleep(d)
		return
	}
	if d > 0 {
		tm := time.NewTimer(d)
		select {
		case <-tm.C:
		case <-t.kill:
			tm.Stop()
			runtime.Goexit()
		}
	}
	s.park(t, `sleep`)
}

// MapKeys puts the keys of a reflected map in an order that the simulation decides.
func MapKeys(ks []reflect.Value) []reflect.Value {
	if len(ks) < 2 {
		return ks
	}
	strs := map[int]string{}
	idx := make([]int, len(ks))
	for i, k := range ks {
		idx[i] = i
		strs[i] = fmt.Sprint(k)
	}
	sort.SliceStable(idx, func(i, j int) bool { return strs[idx[i]] < strs[idx[j]] })
	if s := active; s != nil && s.cur != nil {
		for i := 0; i < len(idx)-1; i++ {
			if j := i + Choose(len(idx)-i, `maporder`); j != i {
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
	}
	out := make([]reflect.Value, len(ks))
	for i, j := range idx {
		out[i] = ks[j]
	}
	return out
}

// Keys returns the keys of a map in an order chosen by the scheduler (the language leaves it open).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool { return keyStr(ks[i]) < keyStr(ks[j]) })
	if s := active; s != nil && s.cur != nil {
		for i := 0; i < len(ks)-1; i++ {
			if j := i + Choose(len(ks)-i, `maporder`); j != i {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func keyStr(k interface{}) string {
	switch k := k.(type) {
	case string:
		return k
	case fmt.Stringer:
		return k.String()
	}
	return fmt.Sprintf(`%020v`, k)
}

// ZeroKV declares the loop variables of a map range.
func ZeroKV[M ~map[K]V, K comparable, V any](M) (k K, v V) { return }

// ZeroK declares the key variable of a map range.
func ZeroK[M ~map[K]V, K comparable, V any](M) (k K) { return }

// ZeroV declares the value variable of a map range.
func ZeroV[M ~map[K]V, K comparable, V any](M) (v V) { return }
