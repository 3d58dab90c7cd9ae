package core

import "fmt"

// Sched runs tasks one at a time.  Each task is a real goroutine that is parked
// at every yield point; the World decides who is released next.
type Sched struct {
	w     *World
	tasks []*Task
	cur   *Task
	idle  chan struct{}
}

// Task is a simulated caller thread.
type Task struct {
	Name   string
	resume chan struct{}
	done   bool
	Panic  any
	Site   string
	sch    *Sched
}

// NewSched makes a scheduler.
func NewSched(w *World) *Sched { return &Sched{w: w, idle: make(chan struct{})} }

// Go adds a task; it starts when Run is called.
func (s *Sched) Go(name string, f func(t *Task)) *Task {
	t := &Task{Name: name, resume: make(chan struct{}), sch: s}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.resume
		t.Panic, t.Site = s.w.CallStack(func() { f(t) })
		t.done = true
		s.idle <- struct{}{}
	}()
	return t
}

// Yield gives control back to the scheduler.
func (t *Task) Yield(where string) {
	if t.sch.cur != t {
		// called from a goroutine of the code under test: not ours to schedule
		return
	}
	t.sch.idle <- struct{}{}
	<-t.resume
}

// Current is the task that runs now.
func (s *Sched) Current() *Task { return s.cur }

// Run schedules the tasks until all are done.
func (s *Sched) Run() {
	for n := 0; ; n++ {
		var ready []*Task
		for _, t := range s.tasks {
			if !t.done {
				ready = append(ready, t)
			}
		}
		if len(ready) == 0 {
			return
		}
		// the simplest schedule keeps running the same task
		if s.cur != nil && !s.cur.done {
			for i, t := range ready {
				if t == s.cur {
					ready[0], ready[i] = ready[i], ready[0]
				}
			}
		}
		k := 0
		if len(ready) > 1 {
			if s.w.Chance(2, 3) {
				k = 1 + s.w.Int(len(ready)-1)
			}
			s.w.Sched++
			s.w.Nontrivial = true
		}
		if s.cur != ready[k] {
			s.w.Ev("~run %s", ready[k].Name)
		}
		s.cur = ready[k]
		s.cur.resume <- struct{}{}
		<-s.idle
		if n > 100000 {
			panic(fmt.Sprint("scheduler: too many steps"))
		}
	}
}
