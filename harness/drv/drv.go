package drv

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Txt is a byte string that survives JSON even when it is not valid UTF-8.
type Txt string

func (t Txt) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(t))})
}

func (t *Txt) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Txt(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["b64"])
	*t = Txt(d)
	return err
}

// Case is one generated case, complete in itself: running a check on it needs nothing else.
type Case struct {
	Prop  string
	Kind  string `json:",omitempty"`
	Src   Txt    `json:",omitempty"`
	Src2  Txt    `json:",omitempty"`
	Want  Txt    `json:",omitempty"`
	Parts []Txt  `json:",omitempty"`
	Ints  []int  `json:",omitempty"`
	Fill  []Fill `json:",omitempty"` // put into Src before the case is run
	Note  string `json:",omitempty"` // filled in when a case fails
	// Rerun, when set, reproduces a failure that needs the cases run before it: worker arguments.
	Rerun []string `json:",omitempty"`
}

// Fill stands for a piece of text repeated many times: at offset At of Src, N times Text.
type Fill struct {
	At, N int
	Text  Txt
}

// full is the case with its fillings put in.
func (c *Case) full() *Case {
	if len(c.Fill) == 0 {
		return c
	}
	cc := *c
	cc.Fill = nil
	var b strings.Builder
	at := 0
	for _, f := range c.Fill {
		b.WriteString(string(c.Src[at:f.At]))
		b.WriteString(strings.Repeat(string(f.Text), f.N))
		at = f.At
	}
	b.WriteString(string(c.Src[at:]))
	cc.Src = Txt(b.String())
	return &cc
}

// Ctx collects what a run covered.
type Ctx struct {
	classes    map[string]int
	key        string
	nontrivial bool
}

// NewCtx makes one for a run outside the driver.
func NewCtx() *Ctx { return &Ctx{classes: map[string]int{}} }

// Class counts the case under a label.
func (x *Ctx) Class(s string) { x.classes[s]++ }

// ClassN adds n under a label.
func (x *Ctx) ClassN(s string, n int) { x.classes[s] += n }

// NonTrivial marks the case as non-trivial; key identifies it among the others.
func (x *Ctx) NonTrivial(key string) { x.nontrivial = true; x.key = key }

// Broken is returned (wrapped) by a check whose own machinery contradicts itself: an
// error of the check, never a violation.
var Broken = errors.New("harness self-check failed")

// Check is one property's generated-input check.
type Check struct {
	ID       string
	Rule     string
	Quick    int // cases in the quick tier, over all shards
	Thorough int
	Gen      func(g *G) *Case
	Run      func(c *Case, x *Ctx) error
	// Fixed cases run before the generated ones (small corpora, exhaustive small spaces).
	Fixed       func() []*Case
	Assumptions []string
	CPUs        int // GOMAXPROCS of a worker, default 2
	Shards      int // worker processes, default 7
}

const (
	exitFail = 10
	exitHang = 97
	exitMem  = 98
	exitBrkn = 99

	hangWall = 150 * time.Second
	memLimit = 1500 << 20
)

// hangCPU is the processor time one case may take; VERIF_HANG overrides it while a hanging
// case is being made smaller.
var hangCPU = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_HANG")); err == nil {
		return d
	}
	if slices.Contains(os.Args, "-replay") { // confirming a case that already took longer
		return 8 * time.Second
	}
	return 20 * time.Second
}()

type result struct {
	Evals   int
	Skipped int
	Fixed   int
	Late    int // not run for lack of time
	Hashes  []uint64
	Classes map[string]int
	Samples []Case
	Fail    *Case
	First   *Case
	Msg     string
	Broken  string
}

type tb struct {
	failed bool
	log    *strings.Builder
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "prop" }
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *tb) Skip(a ...any)             { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; fmt.Fprintf(t.log, f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; fmt.Fprint(t.log, a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func hash(s string) uint64              { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }
func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// runSafe turns a panic of the code under test into a failure.
func runSafe(ck *Check, c *Case, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			err = fmt.Errorf("panic: %v\n%s", r, strings.Join(st, "\n"))
		}
	}()
	return ck.Run(c.full(), x)
}

// Safe runs f and reports a panic as an error.
func Safe(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			err = fmt.Errorf("panic: %v\n%s", r, strings.Join(st, "\n"))
		}
	}()
	f()
	return nil
}

var caseNo, inRef atomic.Int64

// Ref runs a part of the harness whose time and memory are not those of the code under test.
func Ref(f func()) {
	inRef.Add(1)
	defer inRef.Add(-1)
	f()
}

// monitor ends the process when one case runs far beyond any sane cost.
func monitor() {
	last, start, wall := int64(-1), cpu(), time.Now()
	spent := cpu()
	base := uint64(0)
	var ms runtime.MemStats
	for {
		time.Sleep(200 * time.Millisecond)
		n := caseNo.Load()
		before := spent
		spent = cpu()
		if n != last {
			last, start, wall, base = n, spent, time.Now(), 0
		}
		if n == 0 {
			continue
		}
		if inRef.Load() > 0 {
			start += spent - before
			base = 0
			wall = time.Now()
			continue
		}
		if cpu()-start > hangCPU || time.Since(wall) > hangWall && cpu()-start < time.Second {
			os.Exit(exitHang)
		}
		runtime.ReadMemStats(&ms)
		if base == 0 {
			base = ms.HeapAlloc + 1 // what rapid and the statistics hold does not count
		}
		if ms.HeapAlloc > base+memLimit {
			os.Exit(exitMem)
		}
	}
}

func worker(ck *Check, shard, shards int, seed uint64, n int, dir string, stop time.Duration) {
	begin := time.Now()
	runtime.GOMAXPROCS(max(2, ck.CPUs))
	debug.SetMaxStack(512 << 20)
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "6s")
	res := &result{Classes: map[string]int{}}
	seen := map[uint64]bool{}
	cur, err := os.Create(filepath.Join(dir, fmt.Sprintf("cur.%d", shard)))
	if err != nil {
		panic(err)
	}
	go monitor()
	one := func(c *Case, count bool) error {
		b, _ := json.Marshal(c)
		cur.Truncate(0)
		cur.WriteAt(b, 0)
		caseNo.Add(1)
		x := &Ctx{classes: map[string]int{}}
		err := runSafe(ck, c, x)
		if errors.Is(err, Broken) {
			res.Broken = err.Error() + "\n" + string(b)
			finish(res, dir, shard, exitBrkn)
		}
		if count {
			res.Evals++
			for k, v := range x.classes {
				res.Classes[k] += v
			}
			if x.nontrivial {
				if h := hash(x.key); !seen[h] {
					seen[h] = true
					if len(res.Samples) < 4 && len(b) < 1500 && res.Evals%7 == 1 {
						res.Samples = append(res.Samples, *c)
					}
				}
			}
		}
		return err
	}
	fail := func(c *Case, err error) {
		cc := *c
		cc.Note = err.Error()
		if len(cc.Note) > 20000 {
			cc.Note = strings.ToValidUTF8(cc.Note[:10000]+" … "+cc.Note[len(cc.Note)-9000:], "?")
		}
		res.Fail, res.Msg = &cc, err.Error()
		if res.First == nil {
			res.First = &cc
		}
	}
	if ck.Fixed != nil {
		for i, c := range ck.Fixed() {
			if i%shards != shard {
				continue
			}
			res.Fixed++
			if err := one(c, true); err != nil {
				fail(c, err)
				save(res, seen, dir, shard)
				os.Exit(exitFail)
			}
		}
	}
	t := &tb{log: &strings.Builder{}}
	done := make(chan bool)
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			caseNo.Add(1)
			if res.Fail == nil && time.Since(begin) > stop {
				res.Late++
				return
			}
			c := ck.Gen(&G{rt})
			if c == nil {
				res.Skipped++
				rt.Skip("discarded")
			}
			c.Prop = ck.ID
			if err := one(c, res.Fail == nil); err != nil {
				fail(c, err)
				rt.Fatalf("%v", firstLine(err.Error()))
			}
		})
	}()
	<-done
	caseNo.Store(0)
	if t.failed && res.Fail == nil {
		res.Broken = "rapid: " + t.log.String()
		save(res, seen, dir, shard)
		os.Exit(exitBrkn)
	}
	save(res, seen, dir, shard)
	if res.Fail != nil {
		os.Exit(exitFail)
	}
	os.Exit(0)
}

func finish(res *result, dir string, shard, code int) {
	save(res, nil, dir, shard)
	os.Exit(code)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func save(res *result, seen map[uint64]bool, dir string, shard int) {
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("res.%d", shard)), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitBrkn)
	}
}

func replayOnce(ck *Check, file string) {
	runtime.GOMAXPROCS(max(2, ck.CPUs))
	debug.SetMaxStack(512 << 20)
	b, err := os.ReadFile(file)
	var c Case
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitBrkn)
	}
	caseNo.Add(1)
	go monitor()
	x := &Ctx{classes: map[string]int{}}
	if err := runSafe(ck, &c, x); errors.Is(err, Broken) {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitBrkn)
	} else if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitFail)
	}
	os.Exit(0)
}

// spawn runs this binary again and returns its exit code and the tail of its stderr.
func spawn(args ...string) (int, string) {
	cmd := exec.Command(os.Args[0], args...)
	var eb tail
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "ASAN_OPTIONS=detect_leaks=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	if err == nil {
		return 0, eb.String()
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ee.ExitCode() >= 0 {
			return ee.ExitCode(), eb.String()
		}
		return 1000 + int(ee.Sys().(syscall.WaitStatus).Signal()), eb.String()
	}
	return exitBrkn, err.Error()
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 16<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func codeText(code int) string {
	switch code {
	case exitHang:
		return "does not terminate (CPU time limit for one case exceeded)"
	case exitMem:
		return "unbounded memory (heap limit for one case exceeded)"
	}
	if code == 66 {
		return "data race"
	}
	return fmt.Sprintf("the process died (exit %d)", code)
}

// Main is the entry point of a check binary.
func Main(checks []*Check) {
	var (
		prop    = flag.String("prop", "", "property")
		isWork  = flag.Bool("worker", false, "")
		shard   = flag.Int("shard", 0, "")
		seed    = flag.Uint64("seed", 1, "")
		n       = flag.Int("n", 0, "cases (0: by tier)")
		stop    = flag.Duration("stop", time.Hour, "no new cases after this time")
		dir     = flag.String("dir", "", "scratch directory")
		tier    = flag.String("tier", "quick", "")
		shards  = flag.Int("shards", 0, "")
		replay  = flag.String("replay", "", "run one case file")
		once    = flag.Bool("once", false, "")
		outDir  = flag.String("evidence", "evidence", "")
		repDir  = flag.String("replays", "replays", "")
		verbose = flag.Bool("v", false, "")
		known   = flag.String("known", "", "file of known findings")
		gen     = flag.Int("gen", 0, "print this many generated cases")
	)
	testing.Init()
	flag.Parse()
	var ck *Check
	for _, c := range checks {
		if c.ID == *prop {
			ck = c
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *shards == 0 {
		*shards = 7
		if ck.Shards > 0 {
			*shards = ck.Shards
		}
	}
	stdout := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the scanner prints a line for every undecodable byte
	}
	switch {
	case *gen > 0:
		flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
		flag.Set("rapid.checks", strconv.Itoa(*gen))
		flag.Set("rapid.nofailfile", "true")
		d := make(chan bool)
		go func() {
			defer close(d)
			rapid.Check(&tb{log: &strings.Builder{}}, func(rt *rapid.T) {
				c := ck.Gen(&G{rt})
				if c == nil {
					return
				}
				fmt.Fprintf(stdout, "---- %s %v\n%s\n", c.Kind, c.Ints, c.Src)
				if c.Src2 != "" {
					fmt.Fprintf(stdout, "-- second\n%s\n", c.Src2)
				}
				for _, p := range c.Parts {
					fmt.Fprintf(stdout, "-- part\n%s\n", p)
				}
			})
		}()
		<-d
		os.Exit(0)
	case *isWork:
		worker(ck, *shard, *shards, *seed, *n, *dir, *stop)
	case *once:
		replayOnce(ck, *replay)
	case *replay != "":
		os.Setenv("VERIF_ROUNDS", "1")
		code, msg := reproduce(ck, *replay)
		fmt.Fprintln(stdout, msg)
		switch code {
		case 0:
			fmt.Fprintln(stdout, "the case passes")
			os.Exit(0)
		case exitBrkn:
			os.Exit(2)
		}
		if code != exitFail {
			fmt.Fprintln(stdout, codeText(code))
		}
		fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", ck.ID, *replay)
		os.Exit(1)
	}
	os.Exit(parent(ck, stdout, *tier, *seed, *n, *shards, *outDir, *repDir, *known, *verbose))
}

// knownFindings runs the listed cases of the property and names those that still fail.
func knownFindings(ck *Check, stdout *os.File, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+ck.ID+" case=")
		if !ok {
			continue
		}
		path, what, _ := strings.Cut(rest, " ")
		if code, _ := spawn("-prop", ck.ID, "-once", "-replay", filepath.Join(filepath.Dir(file), path)); code != 0 && code != exitBrkn {
			fmt.Fprintf(stdout, "KNOWN-FINDING: property=%s %s\n", ck.ID, what)
		}
	}
}

// reproduce runs a replay file again.
func reproduce(ck *Check, file string) (int, string) {
	var c Case
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		return exitBrkn, err.Error()
	}
	if len(c.Rerun) == 0 {
		return spawn("-prop", ck.ID, "-once", "-replay", file)
	}
	dir, err := os.MkdirTemp("", "vcase")
	if err != nil {
		return exitBrkn, err.Error()
	}
	defer os.RemoveAll(dir)
	code, msg := spawn(append(append([]string{}, c.Rerun...), "-dir", dir)...)
	return code, msg + c.Note
}

func parent(ck *Check, stdout *os.File, tier string, seed uint64, n, shards int, outDir, repDir, known string, verbose bool) int {
	start := time.Now()
	stop := 24 * time.Hour
	if n == 0 {
		// a check has 900 s, some of which confirming a failure may take
		n, stop = ck.Quick, 240*time.Second
		if tier == "thorough" {
			n, stop = ck.Thorough, 720*time.Second
		}
	}
	per := (n + shards - 1) / shards
	dir, err := os.MkdirTemp("", "vcase")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	codes := make([]int, shards)
	errs := make([]string, shards)
	args := make([][]string, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// splitmix64 of (seed, shard): never 0
			z := (seed+1)*0x9e3779b97f4a7c15 + uint64(i+1)*0xbf58476d1ce4e5b9
			z ^= z >> 30
			z *= 0xbf58476d1ce4e5b9
			z ^= z >> 27
			z = z>>2 | 1
			args[i] = []string{"-prop", ck.ID, "-worker", "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards),
				"-seed", strconv.FormatUint(z, 10), "-n", strconv.Itoa(per), "-stop", stop.String()}
			codes[i], errs[i] = spawn(append(append([]string{}, args[i]...), "-dir", dir)...)
		}()
	}
	wg.Wait()
	total := &result{Classes: map[string]int{}}
	uniq := map[uint64]bool{}
	var fails, reruns []*Case
	os.Setenv("VERIF_ROUNDS", "1") // from here on cases are run to confirm a failure
	status, died := 0, false
	for i := range codes {
		var r result
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", i)))
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		switch {
		case err == nil && codes[i] == 0:
		case err == nil && codes[i] == exitFail:
			fails = append(fails, r.Fail, r.First)
			reruns = append(reruns, &Case{Prop: ck.ID, Src: r.First.Src, Note: r.First.Note, Rerun: args[i]})
		case codes[i] == exitBrkn:
			fmt.Fprintf(os.Stderr, "shard %d: %s\n%s\n", i, r.Broken, errs[i])
			status = 2
		default:
			// crash, endless loop or memory blow-up: decided by running the saved case alone
			var c Case
			cb, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("cur.%d", i)))
			if err == nil {
				err = json.Unmarshal(cb, &c)
			}
			if died {
				continue // one confirmed death is enough, each may take long to confirm
			}
			f := filepath.Join(dir, fmt.Sprintf("re.%d", i))
			if err == nil {
				err = os.WriteFile(f, cb, 0o644)
			}
			if err != nil {
				fmt.Fprintf(os.Stderr, "shard %d: exit %d: %v\n%s\n", i, codes[i], err, errs[i])
				status = 2
				continue
			}
			c2, _ := spawn("-prop", ck.ID, "-once", "-replay", f)
			if c2 == 0 && codes[i] != 1000+int(syscall.SIGKILL) {
				c.Note = codeText(codes[i]) + "\n" + firstLine(errs[i])
				reruns = append(reruns, &Case{Prop: ck.ID, Src: c.Src, Note: c.Note, Rerun: args[i]})
				continue
			}
			if c2 == 0 || c2 == exitBrkn || c2 == 1000+int(syscall.SIGKILL) {
				fmt.Fprintf(os.Stderr, "shard %d: exit %d not confirmed by the saved case (exit %d)\n%s\n", i, codes[i], c2, errs[i])
				status = 2
				continue
			}
			c.Note = codeText(c2) + "\n" + firstLine(errs[i])
			whole := c
			smaller(ck, &c, c2, dir)
			fails = append(fails, &c, &whole)
			died = true
		}
		total.Evals += r.Evals
		total.Skipped += r.Skipped
		total.Fixed += r.Fixed
		total.Late += r.Late
		for _, h := range r.Hashes {
			uniq[h] = true
		}
		for k, v := range r.Classes {
			total.Classes[k] += v
		}
		if len(r.Samples) > 0 && len(total.Samples) < 8 {
			total.Samples = append(total.Samples, r.Samples[0])
		}
	}
	knownFindings(ck, stdout, known)
	if len(fails)+len(reruns) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return size(fails[i]) < size(fails[j]) })
		var best *Case
		for _, c := range fails {
			f := filepath.Join(dir, "confirm")
			b, _ := json.Marshal(c)
			os.WriteFile(f, b, 0o644)
			if code, _ := spawn("-prop", ck.ID, "-once", "-replay", f); code != 0 && code != exitBrkn {
				best = c
				break
			}
		}
		for _, c := range reruns {
			// a failure that needs more than its own case: the same worker run again
			if best != nil {
				break
			}
			f := filepath.Join(dir, "confirm")
			b, _ := json.Marshal(c)
			os.WriteFile(f, b, 0o644)
			if code, _ := reproduce(ck, f); code != 0 && code != exitBrkn && code != 1000+int(syscall.SIGKILL) {
				best = c
			}
		}
		if best == nil {
			fails = append(fails, reruns...)
			fmt.Fprintf(os.Stderr, "a failure did not reproduce from its saved case: %s\n", fails[0].Note)
			status = 2
		} else {
			os.MkdirAll(repDir, 0o755)
			b, _ := json.MarshalIndent(best, "", " ")
			file := filepath.Join(repDir, fmt.Sprintf("%s-%016x.json", ck.ID, hash(string(b))))
			if err := os.WriteFile(file, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			abs, _ := filepath.Abs(file)
			fmt.Fprintf(stdout, "%s\nsource:\n%s\n", best.Note, best.Src)
			fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", ck.ID, abs)
			status = 1
		}
	}
	viol := 0
	if status == 1 {
		viol = 1
	}
	cov := map[string]any{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(uniq),
		"rule":                ck.Rule,
		"samples":             total.Samples,
		"classes":             total.Classes,
		"discarded":           total.Skipped,
		"fixed_cases":         total.Fixed,
		"shards":              shards,
		"left_out_for_time":   total.Late,
	}
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	if ck.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(outDir, 0o755)
		err = os.WriteFile(filepath.Join(outDir, ck.ID+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Fprintf(stdout, "%s: %d cases, %d distinct non-trivial, %.1fs\n", ck.ID, total.Evals, len(uniq), time.Since(start).Seconds())
	if verbose {
		var ks []string
		for k := range total.Classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(stdout, "  %-40s %d\n", k, total.Classes[k])
		}
		fmt.Fprintf(stdout, "  discarded %d\n", total.Skipped)
	}
	if status == 0 && len(uniq) == 0 {
		fmt.Fprintln(os.Stderr, "no non-trivial case was generated")
		return 2
	}
	return status
}

// smaller cuts pieces out of the text of a case that kills the process, as long as it still
// dies the same way. Every try is a process of its own, and the time is bounded.
func smaller(ck *Check, c *Case, code int, dir string) {
	if len(c.Parts) > 0 || c.Src2 != "" || c.Want != "" {
		return
	}
	os.Setenv("VERIF_HANG", "2s")
	defer os.Unsetenv("VERIF_HANG")
	start := time.Now()
	f := filepath.Join(dir, "smaller")
	dies := func(s string) bool {
		d := *c
		d.Src, d.Note = Txt(s), ""
		b, _ := json.Marshal(&d)
		if os.WriteFile(f, b, 0o644) != nil {
			return false
		}
		got, _ := spawn("-prop", ck.ID, "-once", "-replay", f)
		return got == code
	}
	s := string(c.Src)
	for n := (len(s) + 1) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(s); {
			if time.Since(start) > 40*time.Second {
				c.Src = Txt(s)
				return
			}
			if t := s[:i] + s[i+n:]; dies(t) {
				s = t
			} else {
				i += n
			}
		}
	}
	c.Src = Txt(s)
}

func size(c *Case) int {
	n := len(c.Src) + len(c.Src2) + len(c.Ints)
	for _, p := range c.Parts {
		n += len(p)
	}
	return n
}
