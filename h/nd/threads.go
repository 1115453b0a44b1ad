package nd

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
)

// Native threads: one goroutine runs at a time; who runs next is read from
// the recorded schedule. The hand-over uses plain memory in functions hidden
// from the race detector, so that under -race only the happens-before edges
// of the modelled locks exist.

type thread struct {
	id      int
	done    bool
	blocked bool
	join    bool
	on      any
}

var (
	threads []*thread
	me      *thread
	token   int
)

func resetThreads() {
	t := &thread{}
	threads = []*thread{t}
	me = t
	setToken(0)
}

//go:norace
//go:noinline
func setToken(i int) { token = i }

//go:norace
//go:noinline
func getToken() int { return token }

//go:norace
func waitToken(id int) {
	for getToken() != id {
		runtime.Gosched()
	}
}

//go:norace
func runnable(t *thread) bool {
	if t.done || t.blocked {
		return false
	}
	if t.join {
		for _, o := range threads {
			if o != t && !o.done {
				return false
			}
		}
	}
	return true
}

//go:norace
func schedule() {
	cur := me
	var en []*thread
	if runnable(cur) {
		en = append(en, cur)
	}
	for _, t := range threads {
		if t != cur && runnable(t) {
			en = append(en, t)
		}
	}
	if len(en) == 0 {
		stop("deadlock", "deadlock: every goroutine is blocked")
	}
	k := 0
	if len(en) > 1 {
		k = int(next("sched"))
	}
	t := en[k]
	if t.join {
		t.join = false
		threads = threads[:1]
	}
	if t != cur {
		id := cur.id
		dead := cur.done
		me = t
		setToken(t.id)
		if !dead {
			waitToken(id)
		}
	}
}

var wg sync.WaitGroup

// Go starts f as a thread (machine).
//
//go:norace
func Go(f func()) int {
	if frees {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
		return 0
	}
	t := &thread{id: len(threads)}
	threads = append(threads, t)
	wg.Add(1)
	go runThread(t, f)
	return t.id
}

//go:norace
func runThread(t *thread, f func()) {
	defer func() {
		if r := recover(); r != nil {
			out.Stack = string(debug.Stack())
			stop("panic", fmt.Sprint(r))
		}
	}()
	waitToken(t.id)
	f()
	t.done = true
	wg.Done()
	schedule()
}

// Join waits for every thread (machine).
//
//go:norace
func Join() {
	if frees {
		wg.Wait()
		return
	}
	if len(threads) > 1 {
		me.join = true
		schedule()
	}
	wg.Wait()
}

// Sched is a point where another thread may be scheduled (machine).
//
//go:norace
func Sched() {
	if !frees && len(threads) > 1 {
		schedule()
	}
}

// Block parks the thread until the next Notify on the same pointer (machine).
//
//go:norace
func Block(on any) {
	me.blocked = true
	me.on = on
	schedule()
}

// Notify makes every thread parked on the pointer runnable again (machine).
//
//go:norace
func Notify(on any) {
	for _, t := range threads {
		if t.blocked && t.on == on {
			t.blocked = false
		}
	}
}

// ThreadID is the id of the running thread (machine).
//
//go:norace
func ThreadID() int { return me.id }

// HBAcquire and HBRelease are the synchronisation edges of modelled locks
// (machine). Natively they tell the race detector, when it is there.
//
//go:norace
func HBAcquire(p any) { raceAcquire(p) }

//go:norace
func HBRelease(p any) { raceRelease(p) }

var stamp int

// Stamp is the next number of a clock (machine threads need no edges for it).
//
//go:norace
func Stamp() int { stamp++; return stamp }
