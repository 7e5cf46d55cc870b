package checks

import (
	"fmt"
	"strings"
)

func (lr *lockRun) base(r *Result, keys ...string) {
	for _, k := range append([]string{"entry_points", "functions_analysed", "exits_checked", "abstract_states", "calls_interpreted"}, keys...) {
		r.Counts[k] = lr.r.Counts[k]
	}
	r.Notes = append(r.Notes, lr.r.Notes...)
	r.Samples = append(r.Samples, lr.r.Samples...)
	r.Assumptions = append(r.Assumptions,
		"A path that panics is not followed further.",
		"Two expressions reached through different unmodified access paths are different objects; loops are covered by a fixpoint that keeps the latest element apart from a summary of the earlier ones.",
		"Functions outside the analysed package do not acquire or release its locks.",
		"An entry point whose fixpoint exceeds the step budget is listed under undecided and reported neither way.")
	r.Floors["entry_points"] = 60
	r.Floors["functions_analysed"] = 150
}

const simExplain = "Every exported function, stored function value and otherwise uncalled function of the hand-written packages is an entry point; its control flow, with same-package callees, closures, deferred calls and goroutines expanded at their call sites, is propagated as finite abstract states (access paths, nil/bool facts, held resources) to a fixpoint. "

func init() {
	register("C01", "path-sensitive typestate over go/ssa (lock and segment-handle ownership on every exit)", func(c *Ctx) *Result {
		lr := locks(c)
		r := NewResult()
		lr.base(r, "lock_operation_sites", "lock_classes", "handles_returned")
		r.Explanation = simExplain + "At every return of an entry point no lock may be held that is not handed to the caller inside a returned unlock function, and no unlock may run on a path where the lock is not held."
		r.Rules = []string{"leak: a lock acquired on a path is still held at an exit", "unlock-not-held: a lock is released twice or without being taken"}
		r.Floors["lock_operation_sites"] = 100
		r.Floors["lock_classes"] = 8
		for _, f := range lr.leaks {
			r.Add(f)
		}
		return r
	})
	register("C02", "path-sensitive typestate and lock-order graph over go/ssa", func(c *Ctx) *Result {
		lr := locks(c)
		r := NewResult()
		lr.base(r, "lock_operation_sites", "lock_classes", "lock_order_edges", "wait_sites")
		r.Explanation = simExplain + "No path may acquire a mutex it already holds (in any combination that can block), nor wait for a goroutine that needs a lock the waiter holds. The observed held-while-acquiring pairs, with their modes, slice direction and the other locks held, form an order graph in which no two or three acquisitions may wait for each other unless a common lock excludes it."
		r.Rules = []string{"relock / upgrade / recursive-rlock", "wait-holding", "order-cycle"}
		r.Floors["lock_operation_sites"] = 100
		r.Floors["lock_order_edges"] = 10
		for _, f := range lr.self {
			r.Add(f)
		}
		r.Counts["channel_waits_under_locks"] = len(lr.handOvers)
		for _, f := range lr.stuck(c) {
			r.Add(f)
		}
		for _, cy := range lr.cycles(lr.writers) {
			var ks, ms []string
			var tr []string
			for _, e := range cy {
				ks = append(ks, e.From+"->"+e.To+"@"+e.Where)
				ms = append(ms, fmt.Sprintf("%s holds %s (%s) and acquires %s (%s) at %s", e.Root, e.From, e.A, e.To, e.B, e.Pos))
				tr = append(tr, "--- "+e.Root)
				tr = append(tr, e.Trace...)
			}
			r.Add(Finding{Rule: "order-cycle", Key: "order-cycle|" + strings.Join(ks, ";"), Pos: cy[0].Pos, Msg: "these can wait for each other: " + strings.Join(ms, "; "), Trace: tr})
		}
		n := 0
		for _, e := range lr.edges {
			if n++; n <= 6 {
				r.Sample(e.key() + " at " + e.Pos + " from " + e.Root)
			}
		}
		return r
	})
	register("C03", "path-sensitive typestate over go/ssa (update token held at every mutating call, returned on every exit)", func(c *Ctx) *Result {
		lr := locks(c)
		r := NewResult()
		lr.base(r, "token_sites", "update_call_sites", "updating_handlers")
		r.Explanation = simExplain + "Channels of the token bucket type are resources: receiving takes a token, sending returns it. In the request handlers every call that changes a list must happen while a token is held, and every exit must have returned it exactly once."
		r.Rules = []string{"update-not-admitted", "leak: token kept at an exit", "token-not-held: token returned without being taken", "token-retake: a second token is taken while one is held"}
		r.Floors["token_sites"] = 2
		r.Floors["update_call_sites"] = 10
		r.Floors["updating_handlers"] = 8
		for _, f := range lr.tok {
			r.Add(f)
		}
		for _, f := range lr.admit {
			r.Add(f)
		}
		return r
	})
	register("C04", "path-sensitive typestate over go/ssa (wait-group balance per started goroutine)", func(c *Ctx) *Result {
		lr := locks(c)
		r := NewResult()
		lr.base(r, "wait_sites", "done_goroutine_sites")
		r.Explanation = simExplain + "Wait groups are counters: every path of every started goroutine must call Done the same number of times, loops must account for every item added, and no Wait may be reached with an item that no goroutine completes."
		r.Rules = []string{"wg-never-done", "wg-unbalanced", "wg-iteration-unbalanced", "wg-loop-left-early", "not-awaited: an operation returns while what it started still runs", "no-room-for-results: results are collected after the wait, and their channel has no room for all of them", "never-closed: a channel is read until it is closed, but nothing closes it", "token-kept: a goroutine can end without giving back what the loop that starts the others waits for", "never-answered: a channel that was sent for an answer is not closed on a path"}
		r.Floors["wait_sites"] = 4
		r.Floors["done_goroutine_sites"] = 5
		for _, f := range lr.wg {
			r.Add(f)
		}
		c.fanChannels(r)
		return r
	})
}
