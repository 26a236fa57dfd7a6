package main

import (
	"encoding/json"
	"os"
	"reflect"
	"sync"
	"time"

	"verif/model"
)

// minimiser shrinks a failing plan; every candidate runs in a fresh process.
type minimiser struct {
	s     *sup
	key   string
	best  *Plan
	until time.Time
	evals int
}

func clone(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

func size(p *Plan) int {
	b, _ := json.Marshal(p)
	return len(b)
}

// try runs the candidates in order, a few at a time, and keeps the first that fails
// in the same way; it returns the index of that one, or -1.
func (m *minimiser) try(cands []*Plan, tries int) int {
	const par = 8
	for i := 0; i < len(cands); i += par {
		if time.Now().After(m.until) {
			return -1
		}
		j := min(i+par, len(cands))
		res := make([]*Plan, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				if h := cands[k].Hist; h != nil && h.Encode(simUTC).Conflict {
					return // not a log that a table lookup can be right about
				}
				v, dec := m.s.one(cands[k], tries, m.key, false)
				os.Remove(dec)
				if m.s.hit(&v, m.key) {
					p := clone(cands[k])
					p.Sched = v.ran.Sched
					res[k-i] = p
				}
			}(k)
		}
		wg.Wait()
		m.evals += j - i
		for k, p := range res {
			if p != nil {
				m.best = p
				return i + k
			}
		}
	}
	return -1
}

func (m *minimiser) run() {
	tries := 6
	if m.s.race {
		tries = 12
	}
	for round := 0; round < 4; round++ {
		before := size(m.best)
		if m.best.Gtid != nil {
			m.shrinkGtid(tries)
		} else {
			m.shrinkPlan(tries)
		}
		if size(m.best) >= before || time.Now().After(m.until) {
			break
		}
	}
	m.shrinkSched()
}

// list removes elements of a slice field: halves, quarters, ..., single ones.
func (m *minimiser) list(tries, keepLast int, n func(*Plan) int, cut func(p *Plan, i, j int)) {
	for c := n(m.best); c >= 1; c /= 2 {
		for i := 0; i < n(m.best)-keepLast; {
			var cands []*Plan
			var at []int
			for k := i; k < n(m.best)-keepLast && len(cands) < 8; k += c {
				p := clone(m.best)
				cut(p, k, min(k+c, n(m.best)-keepLast))
				cands = append(cands, p)
				at = append(at, k)
			}
			h := m.try(cands, tries)
			if time.Now().After(m.until) {
				return
			}
			if h < 0 {
				i += c * len(cands)
			} else {
				i = at[h]
			}
		}
	}
}

// one tries a single change.
func (m *minimiser) change(tries int, f func(*Plan)) bool {
	p := clone(m.best)
	f(p)
	if size(p) >= size(m.best) {
		return false
	}
	return m.try([]*Plan{p}, tries) >= 0
}

func refit(p *Plan) {
	l := p.Hist.Encode(simUTC)
	if _, _, ok := l.Find(p.Start.File, p.Start.Off); !ok {
		p.Start = model.Position{File: l.Files[0].Name, Off: 4}
	}
	if len(p.Twin) > 0 {
		if _, _, ok := l.Find(p.TwinStart.File, p.TwinStart.Off); !ok {
			p.TwinStart = p.Start
		}
	}
}

func (m *minimiser) shrinkPlan(tries int) {
	m.list(tries, 1, func(p *Plan) int { return len(p.Attempts) }, func(p *Plan, i, j int) {
		p.Attempts = append(p.Attempts[:i:i], p.Attempts[j:]...)
	})
	m.list(tries, 0, func(p *Plan) int { return len(p.Odd) }, func(p *Plan, i, j int) {
		p.Odd = append(p.Odd[:i:i], p.Odd[j:]...)
	})
	m.change(tries, func(p *Plan) { p.Twin, p.TwinStart = nil, model.Position{} })
	m.list(tries, 1, func(p *Plan) int { return len(p.Twin) }, func(p *Plan, i, j int) {
		p.Twin = append(p.Twin[:i:i], p.Twin[j:]...)
	})
	m.change(tries, func(p *Plan) { p.Resume = nil; p.Synth = nil; p.Direct = nil })
	m.list(tries, 0, func(p *Plan) int { return len(p.Resume) }, func(p *Plan, i, j int) { p.Resume = append(p.Resume[:i:i], p.Resume[j:]...) })
	m.list(tries, 0, func(p *Plan) int { return len(p.Synth) }, func(p *Plan, i, j int) { p.Synth = append(p.Synth[:i:i], p.Synth[j:]...) })
	m.list(tries, 0, func(p *Plan) int { return len(p.Hist.Items) }, func(p *Plan, i, j int) {
		p.Hist.Items = append(p.Hist.Items[:i:i], p.Hist.Items[j:]...)
		refit(p)
	})
	for it := 0; it < len(m.best.Hist.Items); it++ {
		it := it
		if len(m.best.Hist.Items[it].Stmts) > 1 {
			m.list(tries, 0, func(p *Plan) int { return len(p.Hist.Items[it].Stmts) }, func(p *Plan, i, j int) {
				s := &p.Hist.Items[it].Stmts
				*s = append((*s)[:i:i], (*s)[j:]...)
				refit(p)
			})
		}
		for st := 0; st < len(m.best.Hist.Items[it].Stmts); st++ {
			st := st
			if len(m.best.Hist.Items[it].Stmts[st].Evs) > 1 {
				m.list(tries, 1, func(p *Plan) int { return len(p.Hist.Items[it].Stmts[st].Evs) }, func(p *Plan, i, j int) {
					s := &p.Hist.Items[it].Stmts[st].Evs
					*s = append((*s)[:i:i], (*s)[j:]...)
					refit(p)
				})
			}
			for ev := 0; ev < len(m.best.Hist.Items[it].Stmts[st].Evs); ev++ {
				ev := ev
				if len(m.best.Hist.Items[it].Stmts[st].Evs[ev].Rows) > 1 {
					m.list(tries, 1, func(p *Plan) int { return len(p.Hist.Items[it].Stmts[st].Evs[ev].Rows) }, func(p *Plan, i, j int) {
						s := &p.Hist.Items[it].Stmts[st].Evs[ev].Rows
						*s = append((*s)[:i:i], (*s)[j:]...)
						refit(p)
					})
				}
				m.change(tries, func(p *Plan) {
					p.Hist.Items[it].Stmts[st].Evs[ev].AbsA = nil
					p.Hist.Items[it].Stmts[st].Evs[ev].AbsB = nil
					refit(p)
				})
			}
		}
	}
	// a plain master
	for _, f := range []func(p *Plan){
		func(p *Plan) { p.Hist.Clock = 0 },
		func(p *Plan) { p.Hist.Chain = 0 },
		func(p *Plan) { p.Hist.Undef = false },
		func(p *Plan) { p.Hist.FirstStart = 0 },
		func(p *Plan) { p.Hist.CRC = []bool{false} },
		func(p *Plan) {
			for i := range p.Hist.Items {
				it := &p.Hist.Items[i]
				it.Gap, it.GTID, it.DB, it.Vars = 0, 0, "", nil
			}
		},
		func(p *Plan) {
			for i := range p.Hist.Items {
				for j := range p.Hist.Items[i].Stmts {
					s := &p.Hist.Items[i].Stmts[j]
					s.Vars = nil
					for k := range s.Maps {
						s.Maps[k].Tail = nil
					}
				}
			}
		},
	} {
		m.change(tries, func(p *Plan) { f(p); refit(p) })
	}
	// plain values everywhere
	m.change(tries, func(p *Plan) {
		for i := range p.Hist.Items {
			for j := range p.Hist.Items[i].Stmts {
				for k := range p.Hist.Items[i].Stmts[j].Evs {
					for r := range p.Hist.Items[i].Stmts[j].Evs[k].Rows {
						rv := &p.Hist.Items[i].Stmts[j].Evs[k].Rows[r]
						for c := range rv.A {
							rv.A[c] = 0
						}
						for c := range rv.B {
							rv.B[c] = 0
						}
					}
				}
			}
		}
		refit(p)
	})
	if time.Now().Before(m.until) {
		// single rows' values
		type at struct{ i, j, k, r int }
		var all []at
		for i := range m.best.Hist.Items {
			for j := range m.best.Hist.Items[i].Stmts {
				for k := range m.best.Hist.Items[i].Stmts[j].Evs {
					for r := range m.best.Hist.Items[i].Stmts[j].Evs[k].Rows {
						all = append(all, at{i, j, k, r})
					}
				}
			}
		}
		if len(all) <= 12 {
			for _, a := range all {
				row := func(p *Plan) *model.RowVals { return &p.Hist.Items[a.i].Stmts[a.j].Evs[a.k].Rows[a.r] }
				for _, im := range []int{0, 1} {
					get := func(p *Plan) []int64 {
						if im == 0 {
							return row(p).A
						}
						return row(p).B
					}
					for c := len(get(m.best)); c >= 1; c /= 2 {
						for x := 0; x < len(get(m.best)); x += c {
							m.change(tries, func(p *Plan) {
								l := get(p)
								for y := x; y < min(x+c, len(l)); y++ {
									l[y] = 0
								}
								refit(p)
							})
						}
					}
				}
			}
		}
	}
	// knobs to their zero values
	m.knobs(tries, func(p *Plan) reflect.Value { return reflect.ValueOf(p.Hist).Elem() }, "Tables", "Items", "FileBase", "Version", "HdrSizes", "CRC")
	m.knobs(tries, func(p *Plan) reflect.Value { return reflect.ValueOf(p).Elem() }, "Prop", "Index", "Sched", "Hist", "Start", "Attempts", "Gtid", "Budget", "Twin", "TwinStart")
	for a := 0; a < len(m.best.Attempts); a++ {
		a := a
		m.list(tries, 0, func(p *Plan) int { return len(p.Attempts[a].Faults) }, func(p *Plan, i, j int) {
			p.Attempts[a].Faults = append(p.Attempts[a].Faults[:i:i], p.Attempts[a].Faults[j:]...)
		})
		m.knobs(tries, func(p *Plan) reflect.Value { return reflect.ValueOf(&p.Attempts[a]).Elem() }, "Faults")
		for f := 0; f < len(m.best.Attempts[a].Faults); f++ {
			f := f
			m.knobs(tries, func(p *Plan) reflect.Value { return reflect.ValueOf(&p.Attempts[a].Faults[f]).Elem() }, "K", "Stage", "Mode", "Type")
		}
	}
}

// knobs zeroes the fields of a struct, one by one.
func (m *minimiser) knobs(tries int, get func(*Plan) reflect.Value, keep ...string) {
	var cands []*Plan
	t := get(m.best).Type()
	var fields []int
	for i := 0; i < t.NumField(); i++ {
		if !has(keep, t.Field(i).Name) && !get(m.best).Field(i).IsZero() {
			fields = append(fields, i)
		}
	}
	// all at once first
	if len(fields) > 1 {
		p := clone(m.best)
		for _, i := range fields {
			f := get(p).Field(i)
			f.Set(reflect.Zero(f.Type()))
		}
		if p.Hist != nil {
			refit(p)
		}
		if m.try([]*Plan{p}, tries) >= 0 {
			return
		}
	}
	for len(fields) > 0 {
		cands = cands[:0]
		for _, i := range fields {
			p := clone(m.best)
			f := get(p).Field(i)
			f.Set(reflect.Zero(f.Type()))
			if p.Hist != nil {
				refit(p)
			}
			cands = append(cands, p)
		}
		h := m.try(cands, tries)
		if h < 0 {
			return
		}
		fields = append(fields[:h:h], fields[h+1:]...)
	}
}

func (m *minimiser) shrinkGtid(tries int) {
	m.list(tries, 0, func(p *Plan) int { return len(p.Gtid.Threads) }, func(p *Plan, i, j int) {
		p.Gtid.Threads = append(p.Gtid.Threads[:i:i], p.Gtid.Threads[j:]...)
	})
	for t := 0; t < len(m.best.Gtid.Threads); t++ {
		t := t
		m.list(tries, 0, func(p *Plan) int { return len(p.Gtid.Threads[t]) }, func(p *Plan, i, j int) {
			s := &p.Gtid.Threads[t]
			*s = append((*s)[:i:i], (*s)[j:]...)
		})
	}
}

// shrinkSched turns the schedule into explicit decisions and simplifies them:
// fewer preemptions, more default choices.
func (m *minimiser) shrinkSched() {
	if m.best.Sched.Explicit {
		return
	}
	// simpler generators first
	for _, g := range []uint32{0, 2000, 400} {
		if g < m.best.Sched.GapMean || m.best.Sched.GapMean != 0 && g == 0 {
			p := clone(m.best)
			p.Sched.GapMean = g
			if m.try([]*Plan{p}, 8) >= 0 {
				break
			}
		}
	}
	v, dec := m.s.one(m.best, 1, m.key, false)
	picks, pres := readDecisions(dec)
	os.Remove(dec)
	if !m.s.hit(&v, m.key) || v.ran.Trunc {
		return
	}
	p := clone(m.best)
	p.Sched.Explicit = true
	p.Sched.Picks, p.Sched.Pres = picks, pres
	if m.try([]*Plan{p}, 1) < 0 {
		return
	}
	// without any preemption, all choices default
	q := clone(m.best)
	q.Sched.Picks, q.Sched.Pres = nil, nil
	if m.try([]*Plan{q}, 1) >= 0 {
		return
	}
	m.list(1, 0, func(p *Plan) int { return len(p.Sched.Pres) }, func(p *Plan, i, j int) {
		p.Sched.Pres = append(p.Sched.Pres[:i:i], p.Sched.Pres[j:]...)
	})
	// truncate the choices
	for c := len(m.best.Sched.Picks) / 2; c >= 1; c /= 2 {
		for len(m.best.Sched.Picks) >= c {
			p := clone(m.best)
			p.Sched.Picks = p.Sched.Picks[:len(p.Sched.Picks)-c]
			if m.try([]*Plan{p}, 1) < 0 {
				break
			}
		}
	}
	// zero the choices
	for c := len(m.best.Sched.Picks); c >= 1; c /= 2 {
		for i := 0; i < len(m.best.Sched.Picks); {
			var cands []*Plan
			for k := i; k < len(m.best.Sched.Picks) && len(cands) < 8; k += c {
				p := clone(m.best)
				z := true
				for x := k; x < min(k+c, len(p.Sched.Picks)); x++ {
					z = z && p.Sched.Picks[x] == 0
					p.Sched.Picks[x] = 0
				}
				if !z {
					cands = append(cands, p)
				}
			}
			if len(cands) > 0 && m.try(cands, 1) >= 0 {
				continue
			}
			i += 8 * c
			if time.Now().After(m.until) {
				return
			}
		}
	}
}
