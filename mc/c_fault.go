// C30: errors reading the input. C31: the console.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
)

var errInjected = errors.New("injected failure")

// A faultReader fails after some characters: from then on, or for a number of reads.
type faultReader struct {
	text  []rune
	pos   int
	at    int
	times int // -1 is always
	err   error
	hit   bool
	reads int
}

func (fr *faultReader) ReadRune() (rune, int, error) {
	fr.reads++
	if fr.reads > 2*len(fr.text)+2000 {
		panic(tooMuch{})
	}
	if fr.pos == fr.at && fr.times != 0 {
		if fr.times > 0 {
			fr.times--
		}
		fr.hit = true
		return 0, 0, fr.err
	}
	if fr.pos >= len(fr.text) {
		return 0, 0, io.EOF
	}
	r := fr.text[fr.pos]
	fr.pos++
	return r, len(string(r)), nil
}

// A step is the result of one call and how much of the text had been read.
type step struct {
	what string
	stmt sql.Stmt
	bad  bool
	read int
}

func steps(text string) []step {
	cr := newCountReader(text)
	p := parser.NewParser(cr, "test")
	var ss []step
	for len(ss) < len(cr.text)+2 {
		stmt, err := p.Parse()
		if err == io.EOF {
			break
		}
		s := step{what: show(stmt, err), stmt: stmt, bad: err != nil, read: cr.pos}
		if cr.eof {
			s.read++ // It needed the end of the input.
		}
		ss = append(ss, s)
	}
	return ss
}

func faulty(w *Worker, text string) {
	clean := steps(text)
	for _, s := range clean {
		if s.stmt != nil && isCopy(s.stmt) {
			return
		}
	}
	rs := []rune(text)
	for at := 0; at <= len(rs); at++ {
		for m, injected := range []error{errInjected, io.ErrUnexpectedEOF} {
			fr := &faultReader{text: rs, at: at, times: -1, err: injected}
			p := parser.NewParser(fr, "test")
			k := 0
			for ; k < len(clean) && clean[k].read <= at; k++ {
				stmt, err := p.Parse()
				if got := show(stmt, err); got != clean[k].what || err == io.EOF {
					w.Fail("before", "%q failing at %d: statement %d: got %s (%v); want %s", text, at, k, got, err,
						clean[k].what)
					return
				}
			}
			for n := 0; n < 4; n++ {
				stmt, err := p.Parse()
				w.r.trans.Add(1)
				if err == io.EOF {
					w.Fail("end", "%q failing at %d: end of file rather than the error", text, at)
					return
				} else if err == nil || stmt != nil {
					w.Fail("statement", "%q failing at %d: got %s (%v); want the error", text, at, show(stmt, nil), err)
					return
				}
				syntax := n == 0 && k < len(clean) && clean[k].bad
				if !syntax && !errors.Is(err, injected) && !strings.Contains(err.Error(), injected.Error()) {
					w.Fail("other", "%q failing at %d: call %d gives the error %q; want %q", text, at, n, err, injected)
					return
				}
			}
			if m == 1 {
				continue
			}

			// A reader which fails once or twice.
			for times := 1; times <= 2; times++ {
				fr := &faultReader{text: rs, at: at, times: times, err: injected}
				p := parser.NewParser(fr, "test")
				done := false
				for calls := 0; calls < len(rs)+6; calls++ {
					stmt, err := p.Parse()
					if err == io.EOF {
						done = true
						break
					}
					if err != nil && stmt != nil {
						w.Fail("both", "%q failing %d times at %d: %s and %s", text, times, at, stmt, err)
						return
					}
					if calls < len(clean) && clean[calls].read <= at && show(stmt, err) != clean[calls].what {
						w.Fail("before", "%q failing %d times at %d: statement %d: got %s", text, times, at, calls,
							show(stmt, err))
						return
					}
				}
				if !done {
					w.Fail("endless", "%q failing %d times at %d: no end", text, times, at)
					return
				}
			}
		}
		w.r.State(hash64(text, fmt.Sprint(at)))
	}
}

func init() {
	checks["C30"] = func(r *Run) {
		r.Assume("A bad statement may be reported as bad before the failed read is reported.")

		// Streams of the pieces.
		np := int64(len(pieces))
		r.Cases("pairs", np*np*2, func(w *Worker, i int64) {
			ds := Digits(i, np, np, 2)
			faulty(w, pieces[ds[0]].text+pieceSeps[i%int64(len(pieceSeps))]+pieces[ds[1]].text+[]string{"", ";"}[ds[2]])
		})
		// Every kind of token at the end, in the middle, and joined to another.
		lxs := lexemes()
		nl := int64(len(lxs))
		leads := []string{"", "select ", "select a.", "values (1,", "begin;", "? "}
		r.Cases("tokens", nl*nl*int64(len(leads))*3, func(w *Worker, i int64) {
			ds := Digits(i, nl, nl, int64(len(leads)), 3)
			faulty(w, leads[ds[2]]+lxs[ds[0]].text+[]string{"", " ", "/* */"}[ds[3]]+lxs[ds[1]].text)
		})
		for _, a := range alphabets {
			a.run(r, "chars", a.quick-3, a.long-2, func(w *Worker, s string) {
				faulty(w, s)
				faulty(w, "select "+s+" ; begin")
			})
		}
		items := corpusItems(Pick(r, 20, 200))
		r.Cases("statements", int64(len(items)), func(w *Worker, i int64) {
			text := strings.Join(items[i], " ")
			faulty(w, text)
			faulty(w, "begin;"+text+" ;\nselect 1")
		})

		// The data of a COPY, and the rest of its line.
		heads := []string{"copy t from stdin;", "copy t from stdin; x y\n", "begin;copy t(a)from stdin delimiter ',';\n"}
		data := "1;'\té\n\\.\n"
		r.Cases("copy", int64(len(heads))*40, func(w *Worker, i int64) {
			head := heads[i/40]
			text := []rune(head + data)
			at := int(i % 40)
			if at > len(text) {
				return
			}
			fr := &faultReader{text: text, at: at, times: -1, err: errInjected}
			p := parser.NewParser(fr, "test")
			var cp *sql.Copy
			for calls := 0; calls < 5; calls++ {
				stmt, err := p.Parse()
				if err == io.EOF {
					w.Fail("end", "%q failing at %d: end of file", string(text), at)
				}
				if c, ok := stmt.(*sql.Copy); ok {
					cp = c
					break
				} else if _, ok := stmt.(*sql.Begin); !ok && stmt != nil || (err == nil) == (stmt == nil) {
					w.Fail("statement", "%q failing at %d: %s (%v)", string(text), at, show(stmt, err), err)
				}
			}
			n := len([]rune(head))
			if cp == nil {
				if at >= n {
					w.Fail("nocopy", "%q failing at %d: no COPY", string(text), at)
				}
				return
			}
			if at < n-1 && i/40 != 1 {
				w.Fail("statement", "%q failing at %d: a COPY", string(text), at)
			}
			got := ""
			for {
				r, _, err := cp.From.ReadRune()
				if err != nil {
					if err == io.EOF || !strings.Contains(err.Error(), errInjected.Error()) {
						w.Fail("data-error", "%q failing at %d: reading data gives %v", string(text), at, err)
					}
					break
				}
				got += string(r)
			}
			if !strings.HasSuffix(string(text[:at]), got) {
				w.Fail("data", "%q failing at %d: data %q", string(text), at, got)
			}
			for k := 0; k < 2; k++ {
				if stmt, err := p.Parse(); stmt != nil || err == nil || err == io.EOF {
					w.Fail("after", "%q failing at %d: then %s (%v)", string(text), at, show(stmt, err), err)
				}
			}
		})
	}

	checks["C31"] = checkConsole
}

const prompt = "maho: "

func checkConsole(r *Run) {
	r.Assume("What is printed for a good statement is that the parser's statement prints as (C28); COPY and strings of more than one line are not used.")

	dir := filepath.Join(verifDir(), "out", "bin")
	bin := filepath.Join(dir, fmt.Sprintf("maho.%d", os.Getpid()))
	defer os.Remove(bin)
	cmd := exec.Command("go", "build", "-o", bin, ".")
	cmd.Dir = repoDir()
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("building the console: %s\n%s\n", err, out)
		os.Exit(2)
	}

	var ps []piece
	want := map[string]string{}
	for _, pc := range pieces {
		if pc.kind == pCopy || strings.Contains(pc.text, "\n") && pc.kind == pGood {
			continue
		}
		ps = append(ps, pc)
		switch pc.kind {
		case pGood:
			if p := parseAll(pc.text, 2); len(p) == 1 && p[0].stmt != nil {
				want[pc.text] = p[0].stmt.String()
			}
		case pEmpty:
			want[pc.text] = "<nil>"
		}
	}

	// answer removes the answer to a piece from the output, without the prompt before it.
	answer := func(pc piece, out string) (string, string) {
		k := strings.IndexByte(out, '\n')
		if k < 0 {
			return out, "no answer"
		}
		line := out[:k]
		if pc.kind == pBad {
			if !strings.HasPrefix(line, prompt) || len(line) == len(prompt) {
				return out, fmt.Sprintf("got %q; want an error", line)
			}
		} else if line != want[pc.text] {
			return out, fmt.Sprintf("got %q; want %q", line, want[pc.text])
		}
		return out[k+1:], ""
	}

	run := func(w *Worker, ds []int, sep, last string) {
		text := ""
		for k, d := range ds {
			text += ps[d].text
			if k < len(ds)-1 {
				text += sep
			}
		}
		text += last
		cmd := exec.Command(bin)
		cmd.Stdin = strings.NewReader(text)
		cmd.Dir = dir
		var out, errs strings.Builder
		cmd.Stdout, cmd.Stderr = &out, &errs
		w.r.trans.Add(int64(len(ds)))
		if err := cmd.Run(); err != nil {
			w.Fail("exit", "%q: %s: %s", text, err, errs.String())
			return
		}
		rest := out.String()
		for k, d := range ds {
			if k == len(ds)-1 && ps[d].kind == pEmpty && last == "" {
				break
			}
			if !strings.HasPrefix(rest, prompt) {
				w.Fail("prompt", "%q: statement %d: no prompt: %q", text, k, out.String())
				return
			}
			var why string
			if rest, why = answer(ps[d], rest[len(prompt):]); why != "" {
				w.Fail("answer", "%q: statement %d: %s\n%q", text, k, why, out.String())
				return
			}
		}
		if strings.TrimSuffix(rest, "\n") != prompt {
			w.Fail("end", "%q: at the end: %q", text, rest)
		}
	}

	np := int64(len(ps))
	seps, lasts := []string{";", ";\n", " ; -- c\n"}, []string{"", ";", ";\n\n"}
	for n := 0; n <= Pick(r, 2, 3); n++ {
		r.Cases(fmt.Sprintf("streams/%d", n), Power(np, n)*9, func(w *Worker, i int64) {
			if n == 0 && i > 0 {
				return
			}
			ds := SeqDigits(i/9, np, n, nil)
			last := lasts[i/3%3]
			if n == 0 {
				last = ""
			}
			run(w, ds, seps[i%3], last)
			w.r.State(hash64(fmt.Sprint(ds)))
		})
	}
	// Typed: each statement is answered before the next is entered.
	r.Cases("typed", np*np, func(w *Worker, i int64) {
		cmd := exec.Command(bin)
		cmd.Dir = dir
		in, err1 := cmd.StdinPipe()
		out, err2 := cmd.StdoutPipe()
		if err1 != nil || err2 != nil || cmd.Start() != nil {
			return
		}
		timer := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
		defer timer.Stop()
		defer cmd.Wait()
		defer in.Close()
		br := bufio.NewReader(out)
		got := func(n int) string {
			buf := make([]byte, n)
			k, _ := io.ReadFull(br, buf)
			return string(buf[:k])
		}
		for k, d := range []int{int(i / np), int(i % np), 0} {
			if s := got(len(prompt)); s != prompt {
				w.Fail("typed", "%q then %q: before statement %d: %q rather than the prompt", ps[i/np].text,
					ps[i%np].text, k, s)
				return
			}
			io.WriteString(in, ps[d].text+";\n")
			line, err := br.ReadString('\n')
			if _, why := answer(ps[d], line); err != nil || why != "" {
				w.Fail("typed", "%q then %q: statement %d: %s %v", ps[i/np].text, ps[i%np].text, k, why, err)
				return
			}
		}
	})
	r.Cases("large", 3, func(w *Worker, i int64) {
		n := []int{3000, 70000, 20000}[i]
		text := []string{"begin;\n", "?;", "select 1, 'x" + strings.Repeat("y", 100) + "';"}[i]
		cmd := exec.Command(bin)
		cmd.Stdin = strings.NewReader(strings.Repeat(text, n))
		out, err := cmd.Output()
		if err != nil {
			w.Fail("exit", "%d times %q: %s", n, text, err)
		}
		if k := strings.Count(string(out), "\n"); k != n {
			w.Fail("large", "%d times %q: %d lines", n, text, k)
		}
	})
}
