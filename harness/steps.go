package harness

import (
	"fmt"
	"time"
)

// runSteps runs the steps of a history, becoming quiescent after each of them.
func runSteps(w *world, steps []any) {
	for i, x := range steps {
		st := x.(obj)
		w.log(ev{"e": "step", "i": i, "op": st["op"]})
		w.step(st)
	}
}

func (w *world) step(st obj) {
	switch str(st["op"]) {
	case "adv":
		w.advance(time.Duration(num(st["ms"])) * time.Millisecond)
		return
	case "batch":
		for _, x := range list(st["steps"]) {
			w.do(x.(obj))
		}
	case "sched":
		w.schedule(st)
	case "trip":
		for i, s := range w.suites {
			if s.mw != nil || s.rc != nil {
				w.log(ev{"e": "trip", "i": i + 1, "l": s.trip(list(st["names"]))})
			}
		}
		return
	default:
		w.do(st)
	}
	w.quiet(true)
}

func (w *world) do(st obj) {
	switch str(st["op"]) {
	case "resp":
		w.response(st)
	case "lookup":
		w.lookup(num(st["id"]), str(st["t"]), str(st["n"]), num(st["ctx"]))
	case "cancel":
		w.cancel(num(st["id"]))
	case "fail":
		w.failStream(false, num(st["kind"]))
	case "auth":
		w.failStream(true, 0)
	case "deaf":
		w.deafen()
	case "many":
		// one lookup after the other, as far as they do not wait
		for i := 0; i < num(st["n"]); i++ {
			w.lookup(num(st["id"])+i, str(st["t"]), str(st["name"]), -1)
			settled()
		}
	case "down":
		w.setDown(true)
	case "up":
		w.setDown(false)
	case "reg":
		w.register(str(st["t"]), nil)
	case "slowreg":
		w.register(str(st["t"]), func(id int) { w.sched.at("handler", fmt.Sprint("H", id)) })
	case "suite":
		w.suite(str(st["kind"]), num(st["port"]))
	case "serve":
		w.log(ev{"e": "serve"})
		for _, s := range w.suites {
			s.serve()
		}
	}
}
