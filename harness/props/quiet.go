package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"verif/harness/drv"
)

// C29: using the parser does nothing but answer.

// catcher stands in for the standard output and error of the process while code runs.
type catcher struct {
	file         *os.File
	dir, wd, old string
	out, err     int // the real ones
	stdout, serr *os.File
}

var caught *catcher

func newCatcher() *catcher {
	f, err := os.CreateTemp("", "vquiet")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	os.Remove(f.Name())
	c := &catcher{file: f}
	c.out, _ = syscall.Dup(1)
	c.err, _ = syscall.Dup(2)
	return c
}

// enter makes an empty directory the working and temporary one; leave undoes that.
func (c *catcher) enter() {
	dir, err := os.MkdirTemp("", "vquiet")
	if err == nil {
		c.dir, c.old = dir, os.Getenv("TMPDIR")
		c.wd, err = os.Getwd()
	}
	if err == nil {
		err = os.Chdir(dir)
	}
	if err == nil {
		err = os.Setenv("TMPDIR", dir)
	}
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

func (c *catcher) leave() {
	os.Chdir(c.wd)
	os.Setenv("TMPDIR", c.old)
	os.RemoveAll(c.dir)
}

// run runs f and returns what it wrote.
func (c *catcher) run(f func()) string {
	c.file.Truncate(0)
	c.file.Seek(0, 0)
	c.stdout, c.serr = os.Stdout, os.Stderr
	syscall.Dup3(int(c.file.Fd()), 1, 0)
	syscall.Dup3(int(c.file.Fd()), 2, 0)
	os.Stdout, os.Stderr = c.file, c.file
	defer func() {
		os.Stdout, os.Stderr = c.stdout, c.serr
		syscall.Dup3(c.out, 1, 0)
		syscall.Dup3(c.err, 2, 0)
	}()
	f()
	n, _ := c.file.Seek(0, 2)
	if n == 0 {
		return ""
	}
	b := make([]byte, min(n, 200000))
	c.file.ReadAt(b, 0)
	return string(b)
}

func openFiles() int {
	l, _ := filepath.Glob("/proc/self/fd/*")
	return len(l)
}

// settings are those of the process that code can change.
type settings struct {
	gc, stack, threads, procs int
	mem                       int64
	local                     *time.Location
	flags                     int
	prefix                    string
	log                       io.Writer
	args                      string
	umask                     int
}

func settingsNow() settings {
	s := settings{gc: debug.SetGCPercent(100), stack: debug.SetMaxStack(1 << 29), threads: debug.SetMaxThreads(10000),
		mem: debug.SetMemoryLimit(-1), procs: runtime.GOMAXPROCS(0), local: time.Local,
		flags: log.Flags(), prefix: log.Prefix(), log: log.Writer(), args: strings.Join(os.Args, " ")}
	debug.SetGCPercent(s.gc)
	debug.SetMaxStack(s.stack)
	debug.SetMaxThreads(s.threads)
	s.umask = syscall.Umask(0)
	syscall.Umask(s.umask)
	return s
}

// unusual makes the settings others than those a program starts with, so that setting one to its
// usual value shows.
var unusual = sync.OnceFunc(func() {
	debug.SetGCPercent(103)
	debug.SetMaxThreads(9997)
	log.SetFlags(log.Lmicroseconds | log.LUTC)
	log.SetPrefix("verif ")
})

func init() {
	reg(&drv.Check{
		ID:    "C29",
		Rule:  "random sources, accepted, rejected and odd ones, parsed and used in every way (print in four ways, JSON, walk, printed statements, also twice) while standard output and error (descriptors 1 and 2, and the variables of package os) go to a file, the working directory and TMPDIR are an empty scratch directory; nothing may be written, no file made, no goroutine, open file, environment or scheduler setting be left changed; lines about undecodable bytes are let pass when the source has such bytes; non-trivial: a source of 30 characters or more",
		Quick: 60000, Thorough: 2000000,
		Assumptions: []string{"descriptors and environment are compared for every case, goroutines after up to a second of settling"},
		Fixed:       both(big("good", 99, ""), big("bad", 4, ""), big("glued", 4, ""), counted("")),
		Gen: func(g *drv.G) *drv.Case {
			switch g.N(3) {
			case 0:
				return &drv.Case{Src: drv.Txt(mutated(g, nil))}
			case 1:
				c := genText(g)
				c.Kind = ""
				if len(c.Src) > 5000 {
					c.Src = c.Src[:5000]
				}
				if g.B() {
					c.Src = drv.Txt(strings.ToValidUTF8(string(c.Src), "�"))
				}
				return c
			}
			src, _ := genSource(g, nil)
			return &drv.Case{Src: drv.Txt(src)}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			if caught == nil {
				caught = newCatcher()
			}
			caught.enter()
			defer caught.leave()
			src := string(c.Src)
			env, files, threads := strings.Join(os.Environ(), "\n"), 0, runtime.NumGoroutine()
			unusual()
			before := settingsNow()
			if len(src)%16 == 0 {
				files = openFiles()
			}
			var failed error
			text := caught.run(func() {
				failed = drv.Safe(func() {
					a, _ := parse(src)
					for k := range 7 {
						facet(a, k)
					}
					for k := range 7 {
						facet(a, 6-k)
					}
				})
			})
			if failed != nil {
				return failed
			}
			if text != "" && !utf8.ValidString(src) {
				var rest []string
				n := len(text)
				for _, l := range strings.Split(text, "\n") {
					if !strings.Contains(strings.ToLower(l), "decod") {
						rest = append(rest, l)
					}
				}
				x.Class("note of undecodable bytes")
				if text = strings.TrimSpace(strings.Join(rest, "\n")); len(text) < 30 && n >= 200000 {
					text = "" // the end is cut off
				}
			}
			if text != "" {
				return fmt.Errorf("using the parser writes to the standard streams of the process:\n%s", text)
			}
			for i := 0; runtime.NumGoroutine() > threads && i < 1000; i++ {
				time.Sleep(time.Millisecond)
			}
			if n := runtime.NumGoroutine(); n > threads {
				return fmt.Errorf("%d goroutines more than before are left behind", n-threads)
			}
			if e := strings.Join(os.Environ(), "\n"); e != env {
				return fmt.Errorf("the environment is changed")
			}
			if after := settingsNow(); after != before {
				return fmt.Errorf("a setting of the process is changed:\n  %+v\n  %+v", before, after)
			}
			if wd, err := os.Getwd(); err != nil || wd != caught.dir {
				return fmt.Errorf("the working directory is changed to %s", wd)
			}
			if l, err := os.ReadDir(caught.dir); err != nil || len(l) > 0 {
				return fmt.Errorf("files are left behind: %v", l)
			}
			if files > 0 {
				if n := openFiles(); n > files {
					return fmt.Errorf("%d files are left open", n-files)
				}
				x.Class("open files counted")
			}
			if len([]rune(src)) >= 30 {
				x.NonTrivial(src)
			}
			return nil
		},
	})
}
