package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Report struct {
	Units  []*UnitResult `json:"units"`
	LoadS  float64       `json:"load_secs"`
	WallS  float64       `json:"wall_secs"`
	Errors []string      `json:"errors,omitempty"`
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "only functions serving this property")
	funcs := flag.String("funcs", "", "comma separated function keys (substring match)")
	pk := flag.String("pkgs", "./pkg/ocfl,./pkg/extension", "packages")
	js := flag.String("json", "", "write report here")
	fast := flag.Int("fast", 2500, "first attempt, ms")
	slow := flag.Int("slow", 20000, "second attempt, ms")
	list := flag.Bool("list", false, "list function keys")
	v := flag.Bool("v", false, "verbose")
	flag.BoolVar(&noHoudini, "nohoudini", false, "")
	flag.StringVar(&dumpDir, "dump", "", "")
	flag.BoolVar(&dumpAll, "dumpall", false, "")
	deadline := flag.Float64("deadline", 0, "seconds after which what is not decided is reported as such")
	effort := flag.Float64("effort", 300, "solver seconds for one obligation")
	budget := flag.Float64("budget", 150, "seconds after which the weakening of loop annotations stops")
	wl := flag.Bool("writelocals", false, "record the local variables of the functions under contract")
	tmp := flag.String("tmp", "", "scratch dir")
	flag.Parse()
	t0 := time.Now()
	C, err := loadContracts(*cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	P, err := loadProgram(*dir, strings.Split(*pk, ","))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(4)
	}
	if err := C.resolveDispatch(P); err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	loadLocals(*cdir)
	if *wl {
		if err := writeLocals(*cdir, P, C); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	rep := &Report{LoadS: round3(time.Since(t0).Seconds())}
	if *list {
		for _, k := range sortedKeys(P.funcs) {
			if f := P.funcs[k]; f.Pkg != nil && P.isModule(f.Pkg.Pkg) && len(f.Blocks) > 0 {
				fmt.Println(k, len(f.Blocks))
			}
		}
		return
	}
	td := *tmp
	if td == "" {
		td, err = os.MkdirTemp("", "govc")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer os.RemoveAll(td)
	}
	ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM, syscall.SIGINT)
	defer stop()
	if *deadline > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, time.Duration(*deadline*float64(time.Second)))
		defer cancel()
	}
	cfg := solveCfg{fast: *fast, slow: *slow, dir: td, budget: *budget, ctx: ctx, effort: *effort}
	var todo []*Contract
	for _, k := range C.Order {
		c := C.Funcs[k]
		if c.Trusted {
			continue
		}
		if *prop != "" && !contains(c.Props, *prop) {
			continue
		}
		if *funcs != "" {
			ok := false
			for _, f := range strings.Split(*funcs, ",") {
				if strings.Contains(k, f) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		todo = append(todo, c)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 6)
	for _, c := range todo {
		wg.Add(1)
		go func(c *Contract) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := verify(P, C, c, cfg)
			mu.Lock()
			rep.Units = append(rep.Units, r)
			mu.Unlock()
		}(c)
	}
	wg.Wait()
	sort.Slice(rep.Units, func(i, j int) bool { return rep.Units[i].Func < rep.Units[j].Func })
	rep.WallS = round3(time.Since(t0).Seconds())
	bad := 0
	for _, r := range rep.Units {
		n, d := 0, 0
		for _, o := range r.Obls {
			n++
			if o.Status == "discharged" {
				d++
			}
		}
		if r.Status != "verified" {
			bad++
		}
		fmt.Printf("%-11s %-60s %3d/%3d  %s %.1fs (solver %.1fs) %s\n", r.Status, r.Func, d, n, r.Pass, r.Secs, r.SolverSec, r.Why)
		for _, o := range r.Obls {
			if o.Status != "discharged" || *v {
				fmt.Printf("    %-10s %-50s %6.2fs %-10s %s   [%s]\n", o.Status, o.Name, o.Secs, o.Solver, trunc(o.Reason, 200), trunc(o.Pos, 160))
			}
		}
		for _, w := range r.Warnings {
			fmt.Println("    warning:", w)
		}
		if *v {
			fmt.Println("    assumed:", strings.Join(r.Assumed, " | "))
			fmt.Println("    inlined:", strings.Join(r.Inlined, " | "))
			fmt.Println("    contracts:", strings.Join(r.UsedCon, " | "))
		}
	}
	if *js != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		_ = os.WriteFile(*js, b, 0o644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}
