package simrt

import (
	"iter"
	"reflect"
	"unsafe"
)

// Rendezvous on unbuffered channels between simulated tasks.
type offer struct {
	ch    uintptr
	val   any
	taken bool
}

var offers []*offer

//go:norace
func putOffer(o *offer) { offers = append(offers, o) }

//go:norace
func (o *offer) isTaken() bool { return o.taken }

//go:norace
func takeOffer(ch uintptr) *offer {
	for i, o := range offers {
		if o.ch == ch {
			o.taken = true
			offers = append(offers[:i], offers[i+1:]...)
			return o
		}
	}
	return nil
}

// Send replaces "ch <- v".
func Send[T any](ch chan<- T, v T) {
	Y(11)
	if ch == nil {
		for {
			Block("send on a nil channel")
		}
	}
	if cap(ch) > 0 {
		for {
			select {
			case ch <- v:
				Progress()
				Y(11)
				return
			default:
				Block("channel send")
			}
		}
	}
	select {
	case ch <- v: // panics if the channel is closed
		return
	default:
	}
	o := &offer{ch: reflect.ValueOf(ch).Pointer(), val: v}
	RaceReleaseMerge(unsafe.Pointer(o))
	putOffer(o)
	Progress()
	for !o.isTaken() {
		Block("channel send")
	}
	RaceAcquire(unsafe.Pointer(o))
}

// Recv2 replaces "v, ok := <-ch".
func Recv2[T any](ch <-chan T) (T, bool) {
	Y(12)
	for {
		select {
		case v, ok := <-ch:
			Progress()
			return v, ok
		default:
		}
		if o := takeOffer(reflect.ValueOf(ch).Pointer()); o != nil {
			RaceAcquire(unsafe.Pointer(o))
			RaceReleaseMerge(unsafe.Pointer(o))
			Progress()
			v, _ := o.val.(T)
			return v, true
		}
		Block("channel receive")
	}
}

// Recv replaces "<-ch".
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// RangeChan replaces "range ch".
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close replaces close.
func Close[T any](ch chan<- T) { close(ch); Progress(); Y(13) }
