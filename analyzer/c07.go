package main

import "sort"

func init() {
	register("C07", func(p *Prog, r *Report) {
		r.rule(lkBalance, "on every path to every return, an operation has released each lock it took, in the mode it took it, and releases none it does not hold")
		r.rule(lkTwice, "no lock is taken, directly or by anything called, while a lock of the same kind is held")
		r.rule(lkOrder, "the order in which locks are nested, over all call paths, has no cycle")
		r.need(lkBalance, 40)
		r.need(lkTwice, 60)
		l := newLocks(p, r, "C07")
		l.run()
		l.report()
		l.cycles()
	})
	register("C08", func(p *Prog, r *Report) {
		r.rule(lkGuard, "every read of a guarded field happens with its lock held, every write with it held for writing, here or in every caller, unless the object is not visible to others yet")
		r.rule(lkAtomic, "fields shared through atomic operations are never read or written directly once the object is visible to others")
		r.rule(lkWait, "a lock that workers rely on is not released before the workers have been waited for")
		r.need(lkGuard, 60)
		l := newLocks(p, r, "C08")
		l.run()
		l.report()
	})
}

func (l *locks) report() {
	for rule, m := range l.count {
		if rule == lkGuard || rule == lkAtomic || l.prop == "C07" {
			for k := range m {
				l.r.ok(rule, k)
			}
		}
	}
}

// cycles in the order in which kinds of locks are nested
func (l *locks) cycles() {
	next := map[string][]string{}
	var keys []string
	for k, e := range l.edges {
		next[e.from] = append(next[e.from], e.to)
		keys = append(keys, k)
		l.r.ok(lkOrder, e.from+" before "+e.to+" ("+e.where+")")
	}
	sort.Strings(keys)
	for n := range next {
		sort.Strings(next[n])
	}
	for _, k := range keys {
		e := l.edges[k]
		// can the first be taken while the second is held?
		prev := map[string]string{e.to: ""}
		q := []string{e.to}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, y := range next[x] {
				if _, ok := prev[y]; !ok {
					prev[y] = x
					q = append(q, y)
				}
			}
		}
		if _, ok := prev[e.from]; ok {
			path := ""
			for y := e.from; y != e.to; y = prev[y] {
				b := l.edges[prev[y]+">"+y]
				path = b.from + " before " + b.to + " (" + b.where + ") " + path
			}
			l.r.failf(lkOrder, e.where, e.fn, "%s is held while %s is taken, but elsewhere %s", e.from, e.to, path)
		}
	}
}
