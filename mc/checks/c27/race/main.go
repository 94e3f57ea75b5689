// free runs of all pairs of uses for the race detector
package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"sync"

	"verifmc/uses"
)

func none() {}

// cold runs two uses at once as the first thing a process does, what they share made at the same time as well, and then
// again one at a time
func cold(i, j int) {
	var (
		wg    sync.WaitGroup
		start = make(chan bool)
		got   [2]string
		ks    = [2]int{i, j}
	)
	for g := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[g] = uses.All[ks[g]].Make()(g, none)
		}()
	}
	close(start)
	wg.Wait()
	for g, k := range ks {
		if want := uses.All[k].Make()(g, none); got[g] != want {
			fmt.Printf("C27: %s/%s gives %q at first, then %q\n", uses.All[k].Group, uses.All[k].Name, got[g], want)
			fmt.Fprintln(os.Stderr, "WARNING: DATA RACE (a result differs)")
			os.Exit(66)
		}
	}
}

// colds runs cold for all pairs of the same package
func colds() (runs int) {
	var (
		wg   sync.WaitGroup
		jobs = make(chan [2]int)
	)
	for range runtime.GOMAXPROCS(0) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for p := range jobs {
				cmd := exec.Command(os.Args[0], "cold", strconv.Itoa(p[0]), strconv.Itoa(p[1]))
				cmd.Env = append(os.Environ(), "GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=0") // what it finds is found by then
				if out, err := cmd.CombinedOutput(); err != nil {
					fmt.Fprintf(os.Stderr, "%s\n%v\n", out, err)
					os.Exit(66)
				}
			}
		}()
	}
	for i, a := range uses.All {
		for j := i; j < len(uses.All); j++ {
			if a.Group == uses.All[j].Group {
				jobs <- [2]int{i, j}
				runs++
			}
		}
	}
	close(jobs)
	wg.Wait()
	return
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "cold" {
		i, _ := strconv.Atoi(os.Args[2])
		j, _ := strconv.Atoi(os.Args[3])
		cold(i, j)
		return
	}
	var alone [][2]string
	for _, u := range uses.All {
		f := u.Make()
		alone = append(alone, [2]string{f(0, none), f(1, none)})
	}
	runs := colds()
	pair := func(i, j, v, w int, a, b func(int, func()) string) {
		var (
			wg    sync.WaitGroup
			start = make(chan bool)
			run   = func(i, v int, f func(int, func()) string) {
				defer wg.Done()
				<-start
				if got := f(v, none); got != alone[i][v] {
					fmt.Printf("C27: %s/%s gives %q, alone it gives %q\n", uses.All[i].Group, uses.All[i].Name, got, alone[i][v])
					fmt.Fprintln(os.Stderr, "WARNING: DATA RACE (a result differs)")
					os.Exit(66)
				}
			}
		)
		wg.Add(2)
		go run(i, v, a)
		go run(j, w, b)
		close(start)
		wg.Wait()
		runs++
	}
	for i, a := range uses.All {
		for j, b := range uses.All {
			pair(i, j, 0, 1, a.Make(), b.Make())
		}
		for k := 0; k < 8; k++ {
			f := a.Make()
			pair(i, i, k&1, k>>1&1, f, f)
		}
	}
	fmt.Printf("C27: %d free runs under the race detector\n", runs)
}
