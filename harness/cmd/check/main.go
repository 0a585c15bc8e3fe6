// Command check runs the check of one property against the code in /repo.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/internal/rep"
)

var checks = map[string]func(*rep.Run){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: check PROPERTY")
		os.Exit(2)
	}
	prop := os.Args[1]
	f, ok := checks[prop]
	if !ok {
		fmt.Println("no check for", prop)
		os.Exit(2)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(supervise(prop))
	}
	r := rep.New(prop)
	f(r)
	r.Finish()
}

// limited keeps the head and tail of what is written to it.
type limited struct{ head, tail bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.head.Len() < 1<<18 {
		l.head.Write(p)
	} else {
		l.tail.Write(p)
		if l.tail.Len() > 1<<18 {
			b := l.tail.Bytes()
			n := append([]byte(nil), b[len(b)-1<<17:]...)
			l.tail.Reset()
			l.tail.Write(n)
		}
	}
	return len(p), nil
}

// underTest recognises stack frames of the code under test.
var underTest = regexp.MustCompile(`(?m)^\s+(/repo/|\S*/gencode/|\S*/gen/p\d+/)\S+\.go:\d+`)

// supervise runs the check in a child process: a panic in a goroutine of the
// code under test ends the process, which is a violation; any other crash is an
// error of the check.
func supervise(prop string) int {
	start := time.Now()
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "NO_COLOR=1", "GOTRACEBACK=all")
	var errOut limited
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.Writer(&errOut)
	err := cmd.Run()
	out := errOut.head.String() + errOut.tail.String()
	if err == nil {
		return 0
	}
	code := cmd.ProcessState.ExitCode()
	if code == 1 {
		return 1
	}
	i := strings.Index(out, "panic: ")
	if j := strings.Index(out, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i >= 0 {
		// The first goroutine printed is the one that failed.
		trace := out[i:]
		first := trace
		if k := strings.Index(trace, "\n\ngoroutine "); k >= 0 {
			if k2 := strings.Index(trace[k+2:], "\n\ngoroutine "); k2 >= 0 {
				first = trace[:k+2+k2]
			}
		}
		if strings.Contains(first, "out of memory") || strings.Contains(first, "test timed out") {
			fmt.Println(head(trace, 3000))
			return 3
		}
		if underTest.MatchString(first) {
			r := rep.New(prop)
			p := r.ReplayPath("crash.txt")
			_ = os.WriteFile(p, []byte(fmt.Sprintf("seed %d tier %s\n%s", r.Seed, r.Tier, head(trace, 1<<17))), 0o644)
			writeCrashEvidence(r, start, first)
			fmt.Println(head(first, 4000))
			fmt.Printf("the code under test crashed the process\nVIOLATION property=%s replay=%s\n", prop, p)
			return 1
		}
	}
	fmt.Println(head(out, 6000))
	fmt.Printf("check ended with status %d\n", code)
	return 3
}

func writeCrashEvidence(r *rep.Run, start time.Time, trace string) {
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": map[string]any{"evaluations": 1, "distinct_nontrivial": 1,
			"rule":    "the run ended early: the code under test crashed the process",
			"samples": []any{head(trace, 4000)}},
		"wall_s": time.Since(start).Seconds(), "violations": 1,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(r.Verif, "evidence", r.Prop+".json"), b, 0o644)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}
