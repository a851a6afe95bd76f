package pbt

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
)

// Together runs f(0) ... f(n-1) in threads of their own, which nothing orders between their common start and their common
// end. A panic of one of them is passed on. The threads may not draw choices or log.
func Together(n int, f func(i int)) {
	start := make(chan struct{})
	fails := make([]interface{}, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(failure); !ok {
						buf := make([]byte, 4096)
						r = failure{fmt.Sprintf("panic in thread %d: %v\n%s", i, r, buf[:runtime.Stack(buf, false)])}
					}
					fails[i] = r
				}
			}()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
	for _, r := range fails {
		if r != nil {
			panic(r)
		}
	}
}

// raceReport returns what the race detector wrote last.
func raceReport() string {
	var log string
	for _, w := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(w, "log_path=") {
			log = w[len("log_path="):]
		}
	}
	files, _ := filepath.Glob(log + ".*")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		s := string(b)
		if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 3000 {
			s = s[:3000]
		}
		if s != "" {
			return s
		}
	}
	return ""
}
