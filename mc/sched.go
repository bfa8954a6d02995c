package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/thedonutfactory/go-tfhe/zzverif/rt"
)

// schedulable tells whether this build can explore schedules.
func schedulable() bool { return whyNotSched() == "" }

func whyNotSched() string {
	switch {
	case os.Getenv("VERIF_NOSCHED") != "":
		return "the library keeps goroutines of its own running, or blocks on something the scheduler does not control"
	case instr.Points == 0:
		return "the schedule instrumentation did not build"
	case len(instr.Unsupported) > 0:
		return fmt.Sprintf("the code uses %v", instr.Unsupported)
	}
	return ""
}

// giveUpSched starts this worker over without schedule exploration: goroutines of the library outlived an
// execution, so neither further executions nor plain calls in this process would mean anything.
func giveUpSched() {
	self, err := os.Executable()
	if err == nil {
		err = syscall.Exec(self, os.Args, append(os.Environ(), "VERIF_NOSCHED=1"))
	}
	panic(err)
}

// Exec is one scheduled execution: body runs as the first thread; check is called after all other
// threads have ended (or can never run again). snap is called the moment body returns.
type Exec struct {
	body  func()
	snap  func()
	check func(x *rt.Sched) error
}

// Explore bounds.
type Explore struct {
	cfg   rt.Config
	bound int // deviations from the default schedule
	slice int64
	of    int64
	limit int64
	seen  func(x *rt.Sched)
}

func locName(l int) string {
	if l > 0 && l <= len(instr.Locs) {
		return instr.Locs[l-1]
	}
	names := []string{"", "spawn", "thread end", "WaitGroup.Wait", "WaitGroup.Add/Done", "Lock", "Unlock", "Pool.Get", "Pool.Put", "Once", "Cond", "Map", "yield", "channel"}
	if -l < len(names) && l < 0 {
		return names[-l]
	}
	return fmt.Sprint(l)
}

func describeSchedule(x *rt.Sched) string {
	s := ""
	for i, p := range x.Points {
		if p.Chosen == 0 {
			continue
		}
		k := "switch away from thread"
		if p.Pool {
			k = fmt.Sprintf("pool hands out item %d to thread", p.Chosen)
		}
		s += fmt.Sprintf("[decision %d of %d: at %s %s %d, alternative %d of %d] ", i, len(x.Points), locName(p.Loc), k, p.Thread, p.Chosen, p.Alts)
	}
	if s == "" {
		s = "[default schedule]"
	}
	return s
}

// explore runs every schedule within the bounds whose first deviation falls into the slice.
func explore(c *Ctx, e Explore, mk func() Exec) error {
	rt.NumLocs = instr.Points + 1
	var runs, points int64
	run := func(prefix []int) (*rt.Sched, error) {
		ex := mk()
		if n := rt.Outside.Load(); n > 0 {
			for k := 0; k < 100 && rt.Outside.Load() > 0; k++ {
				time.Sleep(time.Millisecond)
			}
			if rt.Outside.Load() > 0 {
				c.Incomplete("schedules were not explored: the library keeps goroutines of its own running")
				return nil, nil
			}
		}
		x := rt.Run(e.cfg, prefix, ex.body, ex.snap)
		if x.Stuck {
			giveUpSched()
		}
		if e.seen != nil {
			e.seen(x)
		}
		runs++
		points += int64(len(x.Points))
		c.Op(len(x.Points))
		h := uint64(len(x.Points))
		for _, p := range x.Points {
			h = h*1099511628211 + uint64(p.Thread*64+p.Chosen)
		}
		c.Outcome(h)
		if x.Diverged {
			c.Incomplete("a schedule could not be replayed step by step (the code under check is not deterministic)")
			return x, nil
		}
		if x.Capped {
			c.Incomplete("an execution exceeded the point limit")
			return x, nil
		}
		var err error
		switch {
		case x.Deadlock != "":
			err = fmt.Errorf("deadlock:%s", x.Deadlock)
		case len(x.Panics) > 0:
			err = fmt.Errorf("panic: %s", tail(x.Panics[0], 1500))
		default:
			err = ex.check(x)
		}
		if err == nil && x.Leaked > 0 {
			giveUpSched()
		}
		if err != nil {
			return x, fmt.Errorf("schedule %s: %w", describeSchedule(x), err)
		}
		return x, nil
	}
	var rec func(x *rt.Sched, from, left int) error
	rec = func(x *rt.Sched, from, left int) error {
		if left == 0 {
			return nil
		}
		chosen := make([]int, len(x.Points))
		for i, p := range x.Points {
			chosen[i] = p.Chosen
		}
		pts := x.Points
		n := int64(0)
		for i := from; i < len(pts); i++ {
			for a := 1; a < pts[i].Alts; a++ {
				if left == e.bound {
					n++
					if (n-1)%e.of != e.slice {
						continue
					}
				}
				if e.limit > 0 && runs >= e.limit {
					c.Incomplete("schedule limit reached")
					return nil
				}
				prefix := append(append([]int{}, chosen[:i]...), a)
				y, err := run(prefix)
				if err != nil {
					return err
				}
				if y == nil {
					return nil
				}
				if err := rec(y, i+1, left-1); err != nil {
					return err
				}
			}
		}
		return nil
	}
	root, err := run(nil)
	if root == nil {
		return err
	}
	if err == nil {
		err = rec(root, 0, e.bound)
	}
	c.Bulk(runs)
	c.Extra("schedules", runs)
	c.Extra("decision_points", points)
	if v := int64(len(root.Points)); v > c.res.Extra["max_points_per_execution"] {
		c.res.Extra["max_points_per_execution"] = v
	}
	if v := int64(root.MaxLive); v > c.res.Extra["max_threads"] {
		c.res.Extra["max_threads"] = v
	}
	return err
}

// allAtOnce runs the schedules in which every thread is under way at the same time: lockstep (the next thread
// at every scheduling point), and for every k the two in which each thread stops at its k-th scheduling point
// until all others stopped there, ended or blocked, and then the lowest (highest) goes on to its end first.
// slice/of splits the values of k.
func allAtOnce(c *Ctx, cfg rt.Config, slice, of int, mk func() Exec) error {
	if slice == 0 {
		g := cfg
		g.Base = rt.BaseLockstep
		if err := explore(c, Explore{cfg: g, of: 1}, mk); err != nil {
			return fmt.Errorf("lockstep: %w", err)
		}
	}
	for k := 1 + slice; ; k += of {
		for _, b := range []int{rt.BaseGateUp, rt.BaseGateDown} {
			g := cfg
			g.Base, g.Gate = b, k
			gated := 0
			err := explore(c, Explore{cfg: g, of: 1, seen: func(x *rt.Sched) { gated = x.Gated }}, mk)
			if err != nil {
				return fmt.Errorf("every thread stopped at its scheduling point %d, %s first: %w", k, map[int]string{rt.BaseGateUp: "lowest", rt.BaseGateDown: "highest"}[b], err)
			}
			if gated == 0 {
				return nil
			}
			c.State("gate", k, b, gated)
		}
	}
}

// threads runs fs concurrently as threads of their own and waits for all of them.
func threads(fs ...func()) {
	var wg rt.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		f := f
		rt.Go(func() { defer wg.Done(); f() })
	}
	wg.Wait()
}

// raceRun executes a cold function in the race-detector build.
func raceRun(c *Ctx, prop, fn string, limit time.Duration, args ...string) error {
	if raceBuild == "" {
		c.Incomplete("no race-detector build")
		return nil
	}
	if c.only != "" {
		limit *= 2
	}
	cmd := exec.Command(raceBuild, append([]string{"-prop", prop, "-tier", c.tier, "-cold", fn}, args...)...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=8")
	if err := cmd.Start(); err != nil {
		c.Incomplete("race build did not start: " + err.Error())
		return nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	for t0 := time.Now(); ; {
		select {
		case err := <-done:
			out := b.String()
			if strings.Contains(out, "WARNING: DATA RACE") {
				return fmt.Errorf("data race:\n%s", tail(out[strings.Index(out, "WARNING: DATA RACE"):], 2500))
			}
			if i := strings.Index(out, "WRONG:"); i >= 0 {
				return fmt.Errorf("%s", tail(out[i:], 1500))
			}
			if i := strings.Index(out, "fatal error:"); i >= 0 && !strings.Contains(out, "out of memory") {
				return fmt.Errorf("%s", tail(out[i:], 1500))
			}
			if i := strings.Index(out, "panic:"); i >= 0 {
				return fmt.Errorf("%s", tail(out[i:], 1500))
			}
			if err != nil {
				c.Incomplete("race build: " + err.Error())
			}
			return nil
		case <-time.After(5 * time.Second):
			c.curStart.Store(time.Now().UnixNano()) // this worker only waits: its own watchdog has nothing to see
			if time.Since(t0) < limit {
				continue
			}
			cmd.Process.Kill()
			<-done
			c.Incomplete("race build hit its time limit")
			return nil
		}
	}
}
