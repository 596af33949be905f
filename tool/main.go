package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("prop", "", "property id(s), comma separated, or ALL")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	dump := flag.String("dump", "", "dump paths of function (name or Type.method)")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(6 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if *prop != "" {
		os.Exit(runProps(p, *prop, *verif))
	}
	if *dump != "" {
		var fns []*ssa.Function
		if *dump == "ALL" {
			fns = p.all
		} else if i := strings.IndexByte(*dump, '.'); i >= 0 {
			fns = append(fns, p.method((*dump)[:i], (*dump)[i+1:]))
		} else {
			fns = append(fns, p.fn(*dump))
		}
		e := newEngine(p)
		for _, f := range fns {
			e.undecided = nil
			t0 := time.Now()
			ps := e.Analyze(f)
			fmt.Printf("%s: %d paths %v %.2fs\n", f, len(ps), e.undecided, time.Since(t0).Seconds())
			if *dump == "ALL" {
				continue
			}
			for i, q := range ps {
				dumpPath(p, i, q)
			}
		}
	}
}

func dumpPath(p *Program, i int, q *Path) {
	fmt.Printf("--- path %d %s %s rets=%v\n", i, q.outcome, q.loop, q.rets)
	for _, e := range q.ev() {
		fmt.Printf("   %s%s %s a=%v res=%v @%s\n", strings.Repeat(" ", e.depth), e.kind, e.sym, e.a, e.res, p.ipos(e.instr))
	}
	f := q.st.facts
	fmt.Printf("   facts: ")
	for t, v := range f.bools {
		fmt.Printf(" [%v=%v]", t, v)
	}
	for t, v := range f.in {
		fmt.Printf(" [%v in %v]", t, v)
	}
	for t, v := range f.dyn {
		fmt.Printf(" [%v : %v]", t, v)
	}
	for t, v := range f.nilf {
		fmt.Printf(" [%v nil=%v]", t, v)
	}
	fmt.Println()
	for ph, v := range q.phis {
		fmt.Printf("   phi %s(%s): %v -> %v\n", ph.Name(), ph.Comment, q.hdr.phis[ph], v)
	}
}

type checkFn func(*Ctx) string

var checks = map[string]checkFn{
	"C01": checkC01, "C02": checkC02, "C03": checkC03, "C22": checkC22, "C06": checkC06, "C07": checkC07, "C11": checkC11, "C12": checkC12, "C16": checkC16,
	"C17": checkC17, "C18": checkC18, "C19": checkC19, "C29": checkC29,
	"C24": checkC24, "C04": checkC04, "C05": checkC05, "C25": checkC25, "C26": checkC26,
	"C15": checkC15, "C23": checkC23, "C27": checkC27,
	"C33": checkC33,
	"C34": checkC34,
	"C35": checkC35,
	"C36": checkC36,
	"C37": checkC37,
	"C40": checkC40,
	"C41": checkC41,
	"C43": checkC43,
	"C44": checkC44,
	"C45": checkC45,
	"C42": checkC42, "C32": checkC32, "C30": checkC30, "C31": checkC31, "C20": checkC20, "C08": checkC08, "C09": checkC09, "C21": checkC21, "C10": checkC10, "C28": checkC28, "C13": checkC13, "C14": checkC14,
}

func runProps(p *Program, which, verif string) int {
	var ids []string
	if which == "ALL" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(which, ",")
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rc := 0
	for _, id := range ids {
		f := checks[id]
		if f == nil {
			fmt.Println("no check for", id)
			return 3
		}
		t0 := time.Now()
		c := newCtx(p, id)
		rule := c.decide(f)
		if r := c.report(verif, tier, seed, t0, rule); r > rc {
			rc = r
		}
	}
	return rc
}

// decide runs the rule; an analysis that breaks down is reported as undecided, never as a pass.
func (c *Ctx) decide(f checkFn) (rule string) {
	defer func() {
		if r := recover(); r != nil {
			c.fail("undecided", nil, nil, "analysis", "the analysis broke down: %v", r)
			if os.Getenv("SA_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	return f(c)
}
