package verifrt

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Schedule-controlled replay: the lock operations of the code under test are rewritten
// to call Lock and Unlock below, and the threads of Par take turns as the counterexample
// prescribes.

type thread struct {
	goid          int64
	blocked, done bool
	wake          chan bool
}

var (
	schedOn  bool
	schedMu  sync.Mutex
	threads  []*thread
	nSched   int
	preempts int
)

func goid() int64 {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, _ := strconv.ParseInt(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	return n
}

func self() *thread {
	id := goid()
	schedMu.Lock()
	defer schedMu.Unlock()
	for _, t := range threads {
		if t.goid == id {
			return t
		}
	}
	return nil
}

func chooseSched(n int) int {
	v, _ := strconv.Atoi(rep.Inputs[fmt.Sprintf("sched#%d", nSched)])
	nSched++
	if v < 0 || v >= n {
		v = 0
	}
	return v
}

func runnable(except *thread) []*thread {
	var out []*thread
	for _, t := range threads {
		if t != except && !t.done && !t.blocked {
			out = append(out, t)
		}
	}
	return out
}

func pickNext(except *thread) *thread {
	rs := runnable(except)
	if len(rs) == 0 {
		return nil
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return rs[chooseSched(len(rs))]
}

func yieldPoint() {
	if !schedOn {
		return
	}
	me := self()
	if me == nil || preempts <= 0 {
		return
	}
	rs := runnable(me)
	if len(rs) == 0 {
		return
	}
	i := chooseSched(len(rs) + 1)
	if i == 0 {
		return
	}
	preempts--
	rs[i-1].wake <- true
	<-me.wake
}

// Lock stands for x.Lock() or x.RLock().
func Lock(lock func(), try func() bool, key string) {
	if !schedOn {
		lock()
		return
	}
	me := self()
	if me == nil {
		lock()
		return
	}
	yieldPoint()
	kind, name, _ := strings.Cut(key, "@")
	waits := false // writers that wait make readers queue behind them
	for kind == "RLock" && name != "" && waiting[name] > 0 || !try() {
		if kind == "Lock" && !waits {
			waits = true
			waiting[name]++
		}
		me.blocked = true
		n := pickNext(me)
		if n == nil { // nobody else can run: block for good
			select {}
		}
		n.wake <- true
		<-me.wake
		me.blocked = false
	}
	if waits {
		waiting[name]--
	}
}

var waiting = map[string]int{}

// Unlock stands for x.Unlock() or x.RUnlock().
func Unlock(unlock func()) {
	unlock()
	if schedOn && self() != nil {
		for _, t := range threads {
			t.blocked = false
		}
	}
}

type timer struct {
	due         time.Time
	f           func()
	t           *time.Timer
	fired, used bool
}

var timers []*timer

// AfterFunc stands for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	if inRace {
		return time.AfterFunc(d, f)
	}
	e := &timer{due: time.Now().Add(d), f: f}
	mu.Lock()
	timers = append(timers, e)
	mu.Unlock()
	e.t = time.AfterFunc(d, func() {
		mu.Lock()
		used := e.used
		e.fired = true
		mu.Unlock()
		if !used {
			f()
		}
	})
	return e.t
}

var inRace bool

// Race runs the functions, and the timers due within ms, at the same time.
func Race(preemptions, ms int, fs ...func()) {
	synctest.Wait()
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	mu.Lock()
	for _, e := range timers {
		if !e.fired && !e.used && !e.due.After(end) {
			e.used = true
			if e.t.Stop() {
				fs = append(fs, e.f)
			}
		}
	}
	mu.Unlock()
	time.Sleep(time.Duration(ms) * time.Millisecond)
	synctest.Wait()
	inRace = rep.Race
	Par(preemptions, fs...)
	synctest.Wait()
	inRace = false
}

// Par runs the functions concurrently.
func Par(preemptions int, fs ...func()) {
	if _, ok := rep.Inputs["sched#0"]; !ok || !rep.Controlled {
		var wg sync.WaitGroup
		for _, f := range fs {
			wg.Add(1)
			go func(f func()) { defer wg.Done(); f() }(f)
		}
		wg.Wait()
		return
	}
	threads, nSched, preempts = nil, 0, preemptions
	fin := make(chan bool, 1)
	for range fs {
		threads = append(threads, &thread{wake: make(chan bool, 1)})
	}
	ready := make(chan bool, len(fs))
	for i, f := range fs {
		go func(t *thread, f func()) {
			t.goid = goid()
			ready <- true
			<-t.wake
			f()
			t.done = true
			for _, o := range threads {
				o.blocked = false
			}
			if n := pickNext(t); n != nil {
				n.wake <- true
			} else {
				fin <- true
			}
		}(threads[i], f)
	}
	for range fs {
		<-ready
	}
	schedOn = true
	pickNext(nil).wake <- true
	<-fin
	schedOn = false
	threads = nil
}
