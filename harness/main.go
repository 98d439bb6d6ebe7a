package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	shimDir  string
	goBin    string
)

type propCheck struct {
	rule string
	run  func(c *Check)
}

var checks = map[string]propCheck{}

func register(prop, rule string, run func(c *Check)) { checks[prop] = propCheck{rule, run} }

var buildMu sync.Mutex

// buildSUT builds the program from the repository's current working tree.
func buildSUT(race bool) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	name := "zrep"
	args := []string{"build"}
	if race {
		name = "zrep-race"
		args = append(args, "-race")
	}
	out := filepath.Join(scratchRoot, name)
	if _, err := os.Stat(out); err == nil {
		return out
	}
	mod := filepath.Join(scratchRoot, "sut.mod")
	copyFile(filepath.Join(repoDir, "go.mod"), mod)
	copyFile(filepath.Join(repoDir, "go.sum"), filepath.Join(scratchRoot, "sut.sum"))
	args = append(args, "-modfile="+mod, "-o", out, "./cmd")
	cmd := exec.Command(goBin, args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "cannot build the program: %v\n%s\n", err, b)
		os.Exit(13)
	}
	return out
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(to, b, 0o644); err != nil {
		panic(err)
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	child := flag.Bool("child", false, "internal")
	flag.Parse()
	if d := os.Getenv("ZREP_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("ZREP_VERIF"); d != "" {
		verifDir = d
	}
	goBin = os.Getenv("ZREP_GO")
	if goBin == "" {
		goBin = "go"
	}
	if _, ok := checks[*prop]; !ok {
		var names []string
		for n := range checks {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println("no such property; known:", names)
		os.Exit(2)
	}
	if *child {
		runChild(*prop)
		return
	}
	os.Exit(runParent(*prop))
}

// runParent runs the check in a child process, so that nothing that the code under test does can hide the verdict.
func runParent(prop string) int {
	root, err := os.MkdirTemp("", "zcheck")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(root)
	shim := filepath.Join(root, "shim")
	os.MkdirAll(shim, 0o755)
	openssl, _ := exec.LookPath("openssl")
	// the shim answers the one slow call, for safe primes, from a stored list: never the same twice, up to the end of the list
	script := fmt.Sprintf(`#!/bin/sh
D=%s
if [ "$*" = "prime -safe -generate -bits 512" ]; then
  exec 9>> "$D/lock"
  flock 9
  n=$(cat "$D/count" 2>/dev/null || shuf -i 0-159 -n 1)
  echo $(( (n+1) %% 160 )) > "$D/count"
  exec 9>&-
  sed -n "$((n+1))p" %s/safeprimes.txt
else
  exec %s "$@"
fi
`, shim, shim, openssl)
	os.WriteFile(filepath.Join(shim, "openssl"), []byte(script), 0o755)
	copyFile(filepath.Join(verifDir, "harness", "data", "safeprimes.txt"), filepath.Join(shim, "safeprimes.txt"))
	self, _ := os.Executable()
	cmd := exec.Command(self, "-prop", prop, "-child")
	cmd.Env = append(os.Environ(), "ZREP_SCRATCH="+root, "ZREP_SHIM="+shim, "GOTRACEBACK=all")
	cmd.Stdout = os.Stdout
	var stderr tailBuffer
	cmd.Stderr = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	start := time.Now()
	err = cmd.Run()
	switch code := cmd.ProcessState.ExitCode(); code {
	case 10:
		return 0
	case 11:
		return 1
	case 12:
		return 2
	}
	text := stderr.String()
	if cmd.ProcessState.ExitCode() == 13 {
		fmt.Println(text)
		return 2
	}
	if strings.Contains(text, "zRep/") && !strings.Contains(text, "cannot build the program") {
		os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)
		path := filepath.Join(verifDir, "replays", prop+"-crash.txt")
		os.WriteFile(path, []byte(text), 0o644)
		fmt.Println("the code under test ended the process:", oneLine(text, 400))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	fmt.Println("the check failed after", time.Since(start), err)
	fmt.Println(text)
	return 2
}

// tailBuffer keeps the beginning and the end of what is written.
type tailBuffer struct {
	head bytes.Buffer
	tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	if t.head.Len() < 16000 {
		t.head.Write(p)
	} else {
		t.tail = append(t.tail, p...)
		if len(t.tail) > 32000 {
			t.tail = append([]byte{}, t.tail[len(t.tail)-16000:]...)
		}
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { return t.head.String() + string(t.tail) }

var _ io.Writer = (*tailBuffer)(nil)

func runChild(prop string) {
	start := time.Now()
	scratchRoot = os.Getenv("ZREP_SCRATCH")
	shimDir = os.Getenv("ZREP_SHIM")
	os.Setenv("PATH", shimDir+":"+os.Getenv("PATH"))
	out := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null // the code under test prints a lot
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	c := NewCheck(prop, tier, seed)
	p := checks[prop]
	if f := os.Getenv("ZREP_PROF"); f != "" { // for the development of the harness
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	p.run(c)
	pprof.StopCPUProfile()
	os.Exit(10 + c.Finish(out, verifDir, p.rule, start))
}
