package main

// Builds and runs the programs under tester/ of the repository's working tree.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

type toolSet struct {
	dir string
}

var (
	toolsOnce sync.Once
	tools     toolSet
)

var cToolLibs = map[string]string{
	"ctester": "libxml-2.0", "testbuilder": "libxml-2.0 expat", "normaliser": "libxml-2.0 expat",
	"indexer": "expat sqlite3", "encfixer": "", "encextractor": "", "nohigh": "",
}

// Variants of the C tools: plain as the Makefile builds them, san with
// AddressSanitizer and UndefinedBehaviorSanitizer, msan with MemorySanitizer
// (only for the tools that use no library but libc).
const (
	vPlain = ""
	vSan   = ".san"
	vMsan  = ".msan"
)

// buildTools builds every variant once per run, into a scratch directory.
func buildTools() {
	toolsOnce.Do(func() {
		d, err := os.MkdirTemp("", "verif-tools-")
		if err != nil {
			die("%v", err)
		}
		tools.dir = d
		src := filepath.Join(repoDir, "tester", "ctester")
		type job struct{ name, cmd string }
		var jobs []job
		base := "-g -std=c11 -w -D_POSIX_C_SOURCE=200809L"
		for t, libs := range cToolLibs {
			l := ""
			if libs != "" {
				l = "$(pkg-config --cflags --libs " + libs + ")"
			}
			if t == "indexer" {
				l += " -lmagic"
			}
			c := filepath.Join(src, t+".c")
			o := filepath.Join(d, t)
			jobs = append(jobs,
				job{t, fmt.Sprintf("gcc -O2 %s -o %s %s %s", base, o, c, l)},
				job{t + vSan, fmt.Sprintf("gcc -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all %s -o %s %s %s", base, o+vSan, c, l)})
			if libs == "" {
				jobs = append(jobs, job{t + vMsan, fmt.Sprintf("clang -O1 -fno-omit-frame-pointer -fsanitize=memory %s -o %s %s", base, o+vMsan, c)})
			}
		}
		jobs = append(jobs, job{"gotester", fmt.Sprintf("cd %s && go build -o %s .", filepath.Join(repoDir, "tester", "gotester"), filepath.Join(d, "gotester"))})
		var wg sync.WaitGroup
		errs := make([]string, len(jobs))
		sem := make(chan struct{}, 8)
		for i, j := range jobs {
			wg.Add(1)
			go func(i int, j job) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				cmd := exec.Command("sh", "-c", j.cmd)
				cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off")
				if b, err := cmd.CombinedOutput(); err != nil {
					errs[i] = fmt.Sprintf("building %s: %v\n%s", j.name, err, b)
				}
			}(i, j)
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				die("%s", e)
			}
		}
	})
}

func cleanTools() {
	if tools.dir != "" {
		removeTree(tools.dir)
	}
}

type result struct {
	tool     string
	out, err string
	code     int // exit status; -signal when killed
	timeout  bool
}

func (r result) String() string {
	return fmt.Sprintf("%s: exit %d, stdout %q, stderr %q", r.tool, r.code, clip(r.out), clip(r.err))
}

const (
	toolWall  = 120 * time.Second
	outLimit  = 64 << 20
	sanStatus = 99
)

// runTool starts a tool in dir with the given standard input.
func runTool(dir, tool, stdin string, args ...string) result {
	buildTools()
	r := runBin(dir, filepath.Join(tools.dir, tool), stdin, args...)
	r.tool = tool
	return r
}

func runBin(dir, bin, stdin string, args ...string) result {
	tool := filepath.Base(bin)
	ctx, cancel := context.WithTimeout(context.Background(), toolWall)
	defer cancel()
	// the limits turn a loop or a runaway allocation into a signal
	lim := "ulimit -t 40; ulimit -c 0; "
	if !strings.HasSuffix(tool, vSan) && !strings.HasSuffix(tool, vMsan) && tool != "gotester" && tool != "valgrind" {
		lim += "ulimit -v 4000000; "
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", lim + `exec "$0" "$@"`, bin}, args...)...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var out, serr bytes.Buffer
	cmd.Stdout = &limited{w: &out, n: outLimit}
	cmd.Stderr = &limited{w: &serr, n: 1 << 20}
	cmd.Env = append(os.Environ(),
		"ASAN_OPTIONS=detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1",
		"UBSAN_OPTIONS=exitcode=99:print_stacktrace=1",
		"MSAN_OPTIONS=exitcode=99", "LC_ALL=C")
	err := cmd.Run()
	res := result{tool: tool, out: out.String(), err: serr.String()}
	if ctx.Err() != nil {
		res.timeout = true
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			if strings.Contains(err.Error(), "broken pipe") {
				return res
			}
			die("running %s: %v", tool, err)
		}
		res.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.code = -int(ws.Signal())
		}
	}
	return res
}

// healthy fails the case when the run shows a memory error, undefined
// behaviour, a crash or a loop.
func (r result) healthy(c *Ctx) {
	switch {
	case r.timeout:
		c.Fail("%s does not terminate", r.tool)
	case r.code == -int(syscall.SIGXCPU) || r.code == -int(syscall.SIGKILL):
		c.Fail("%s uses more than 40 s of CPU time", r.tool)
	case r.code < 0:
		c.Fail("%s is killed by signal %d", r.tool, -r.code)
	case r.tool == "gotester" && r.code == 2 && (strings.Contains(r.err, "panic:") || strings.Contains(r.err, "fatal error:")) && strings.Contains(r.err, "goroutine "):
		c.Fail("gotester panics: %s", clip(r.err))
	case r.code == sanStatus || strings.Contains(r.err, "runtime error:") || strings.Contains(r.err, "ERROR: AddressSanitizer") || strings.Contains(r.err, "MemorySanitizer:"):
		c.Fail("%s: %s", r.tool, sanSummary(r.err))
	}
}

func sanSummary(s string) string {
	i := strings.Index(s, "runtime error:")
	if i < 0 {
		i = strings.Index(s, "ERROR: AddressSanitizer")
	}
	if i < 0 {
		i = strings.Index(s, "MemorySanitizer:")
	}
	if i < 0 {
		i = 0
	}
	if i > 200 {
		s = s[i-200:]
	}
	if len(s) > 1800 {
		s = s[:1800]
	}
	return s
}
