package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a stack of facts; each fact is
// one push level, so consecutive paths share their common prefix.
type Solver struct {
	name    string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []string
	Queries int
	Unknown int
	Time    time.Duration
	dump    io.Writer
}

func newSolver(name string) *Solver {
	s := &Solver{name: name}
	switch name {
	case "cvc5":
		s.args = []string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=4000", "--lang=smt2"}
	case "z3":
		s.args = []string{"z3", "-in", "-t:4000"}
	default:
		s.args = []string{"z3-new", "-in", "-t:4000"}
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.stack = nil
	if s.name == "cvc5" {
		s.send("(set-logic ALL)\n")
	}
}

func (s *Solver) send(t string) {
	if s.dump != nil {
		io.WriteString(s.dump, t)
	}
	if _, err := io.WriteString(s.in, t); err != nil {
		panic(fmt.Errorf("solver died: %v", err))
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) sync(facts []string) {
	if s.cmd == nil {
		s.start()
	}
	n := 0
	for n < len(facts) && n < len(s.stack) && facts[n] == s.stack[n] {
		n++
	}
	var sb strings.Builder
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for ; n < len(facts); n++ {
		sb.WriteString("(push 1)\n")
		sb.WriteString(facts[n])
		sb.WriteString("\n")
		s.stack = append(s.stack, facts[n])
	}
	if sb.Len() > 0 {
		s.send(sb.String())
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(fmt.Errorf("solver died: %v", err))
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l
	}
}

// check returns "sat", "unsat" or "unknown" for facts plus extra assertion.
func (s *Solver) check(facts []string, extra string) string {
	t0 := time.Now()
	s.sync(facts)
	if extra != "" {
		s.send("(push 1)\n" + extra + "\n(check-sat)\n(pop 1)\n")
	} else {
		s.send("(check-sat)\n")
	}
	r := s.readLine()
	s.Queries++
	s.Time += time.Since(t0)
	switch r {
	case "sat", "unsat":
		return r
	case "unknown", "timeout":
		s.Unknown++
		return "unknown"
	}
	panic(fmt.Errorf("solver said %q for %s", r, extra))
}

// model returns values for the named constants.
func (s *Solver) model(facts []string, names []string) map[string]string {
	s.sync(facts)
	s.send("(check-sat)\n")
	if r := s.readLine(); r != "sat" {
		return nil
	}
	out := map[string]string{}
	for i := 0; i < len(names); i += 50 {
		j := i + 50
		if j > len(names) {
			j = len(names)
		}
		s.send("(get-value (" + strings.Join(names[i:j], " ") + "))\n")
		depth := 0
		var sb strings.Builder
		for {
			l := s.readLine()
			sb.WriteString(l + " ")
			depth += strings.Count(l, "(") - strings.Count(l, ")")
			if depth <= 0 {
				break
			}
		}
		txt := sb.String()
		for _, n := range names[i:j] {
			k := strings.Index(txt, "("+n+" ")
			if k < 0 {
				continue
			}
			r := txt[k+len(n)+2:]
			d := 0
			e := 0
			for e = 0; e < len(r); e++ {
				if r[e] == '(' {
					d++
				} else if r[e] == ')' {
					if d == 0 {
						break
					}
					d--
				}
			}
			v := strings.TrimSpace(r[:e])
			v = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(v, "(", ""), ")", ""), " ", "")
			out[n] = v
		}
	}
	return out
}
