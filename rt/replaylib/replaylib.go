// Package replaylib runs replay vectors natively, one JSON line per result on
// file descriptor 3.
package replaylib

import (
	"encoding/json"
	"os"
	"runtime/debug"
	"time"

	"github.com/hangulize/hangulize/internal/verifrt"
)

// Main replays the vectors, if any, and exits.
func Main(fs map[string]func(int)) {
	vs, ok := verifrt.LoadVectors()
	if !ok {
		return
	}
	debug.SetMaxStack(256 << 20)
	out := os.NewFile(3, "results")
	enc := json.NewEncoder(out)
	for _, v := range vs {
		enc.Encode(map[string]int{"start": v.ID})
		done := make(chan verifrt.Result, 1)
		go func() {
			var r verifrt.Result
			for i := 0; i == 0 || i < v.Repeat; i++ {
				r = verifrt.Replay(v, fs[v.Harness])
				if r.Status != "ok" && r.Status != "assume" {
					break
				}
			}
			done <- r
		}()
		select {
		case r := <-done:
			enc.Encode(r)
		case <-time.After(time.Duration(v.Timeout) * time.Second):
			enc.Encode(verifrt.Result{ID: v.ID, Status: "timeout", Msg: "no end within the time limit"})
			os.Exit(3)
		}
	}
	os.Exit(0)
}
