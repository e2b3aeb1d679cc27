// Command replay runs one property harness natively over solver witnesses (one JSON request per line).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif/harness/props"
	"verif/harness/sym"
)

type request struct {
	Prop     string   `json:"prop"`
	Thorough bool     `json:"thorough"`
	Inputs   []sym.In `json:"inputs"`
	Repeat   int      `json:"repeat"`
}
type response struct {
	Status  string   `json:"status"` // ok fail assume panic
	Msg     string   `json:"msg,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Missing int      `json:"missing"`
	Reached []string `json:"reached,omitempty"`
}

func one(rq *request) (rs response) {
	st := sym.Start(rq.Inputs, rq.Thorough)
	defer func() {
		rs.Obs, rs.Missing, rs.Reached = st.Obs, st.Missing, st.Reached
		if r := recover(); r != nil {
			switch x := r.(type) {
			case sym.Failed:
				rs.Status, rs.Msg = "fail", x.Msg
			case sym.Skip:
				rs.Status = "assume"
			default:
				rs.Status, rs.Msg = "panic", fmt.Sprint(r)
				rs.Stack = string(debug.Stack())
			}
		}
	}()
	f := props.Registry[rq.Prop]
	if f == nil {
		return response{Status: "error", Msg: "no harness " + rq.Prop}
	}
	f()
	return response{Status: "ok"}
}

func main() {
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull) // the code under test may print
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var rq request
		if err := dec.Decode(&rq); err != nil {
			return
		}
		done := make(chan response, 1)
		go func() {
			var rs response
			n := rq.Repeat
			if n < 1 {
				n = 1
			}
			for i := 0; i < n; i++ {
				rs = one(&rq)
				if rs.Status != "ok" {
					break
				}
			}
			done <- rs
		}()
		var rs response
		select {
		case rs = <-done:
		case <-time.After(30 * time.Second):
			rs = response{Status: "hang", Msg: "no result after 30 s"}
		}
		b, _ := json.Marshal(rs)
		out.Write(append(b, '\n'))
		if rs.Status == "hang" {
			os.Exit(3)
		}
	}
}
