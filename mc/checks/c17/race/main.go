// free runs of concurrent registration and serving, under the race detector
package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sync"

	"github.com/bantling/micro/rest"
)

type ok struct{ id int }

func (o ok) Serve(w http.ResponseWriter, r *http.Request, parts []string) { w.WriteHeader(200 + o.id) }

func serve(h http.Handler, method, path string) int {
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}})
	return rec.Code
}

func main() {
	runs := 0
	for regs := 0; regs <= 3; regs++ {
		for before := 0; before <= 5; before++ {
			for servers := 1; servers <= 3; servers++ {
				for rep := 0; rep < 4; rep++ {
					var mux rest.ServeMux
					for i := 0; i < before; i++ {
						mux.MustHandle("GET", fmt.Sprintf("^/b%d$", i), ok{i})
					}
					var wg sync.WaitGroup
					for g := 0; g < regs; g++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for i := 0; i < 6; i++ {
								mux.MustHandle("GET", fmt.Sprintf("^/g%d/%d$", g, i), ok{i})
							}
						}()
					}
					for s := 0; s < servers; s++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for i := 0; i < 6; i++ {
								if before > 0 {
									if c := serve(&mux, "GET", "/b0"); c != 200 {
										panic(fmt.Sprint("status ", c))
									}
								}
								serve(&mux, "GET", fmt.Sprintf("/g0/%d", i))
								if c := serve(&mux, "GET", "/none"); c != 404 {
									panic(fmt.Sprint("status ", c))
								}
							}
						}()
					}
					wg.Wait()
					for g := 0; g < regs; g++ {
						for i := 0; i < 6; i++ {
							if c := serve(&mux, "GET", fmt.Sprintf("/g%d/%d", g, i)); c != 200+i {
								fmt.Fprintf(os.Stderr, "DATA RACE: handler %d of thread %d was lost, status %d\n", i, g, c)
								os.Exit(1)
							}
						}
					}
					runs++
				}
			}
		}
	}
	fmt.Printf("C17: %d free runs under the race detector\n", runs)
}
