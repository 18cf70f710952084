//go:build go1.25

package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"
)

// Runs in which terminals compete for phones and plates are judged by linearizability:
// there must be an order of all requests, consistent with when they were sent and
// answered, in which a register of who holds which phone and plate gives exactly
// the observed answers.

type linOp struct {
	kind  string // reg auth hb dereg list geo
	id    int
	phone string
	plate string
	dev   string
	lo    mark
	hi    mark
	c     *CRec
	idx   int
	res   int // result code; -1: refused by closing the connection
	opt   bool
	code  string
	list  string // canonical content
	who   string
	q     *Req
	geo   *geoJSON
	torn  bool // a removal overlaps the query: it may find the terminal but no longer its position
	desc  string
}

type linReg struct {
	phone, plate, dev, code string
	auth                    bool
	sess, who               string // the connection that serves it, the identity it presented
	loc                     *Req   // its last report
}

type linState []linReg // sorted by phone

func (s linState) key() string {
	var b strings.Builder
	for _, r := range s {
		fmt.Fprintf(&b, "%s|%s|%s|%s|%v|%s|%s|%p;", r.phone, r.plate, r.dev, r.code, r.auth, r.sess, r.who, r.loc)
	}
	return b.String()
}

func (s linState) list() string {
	var o []string
	for _, r := range s {
		o = append(o, listKey(r.phone, r.plate, r.dev, r.sess, r.who, r.auth))
	}
	sort.Strings(o)
	return strings.Join(o, ";")
}

func listKey(phone, plate, dev, sess, who string, online bool) string {
	return fmt.Sprintf("%s|%s|%s|%s|%s|%v", phone, plate, dev, sess, who, online)
}

func (s linState) with(i int, f func(r *linReg)) linState {
	n := append(linState{}, s...)
	f(&n[i])
	return n
}

func (s linState) find(phone string) int {
	for i := range s {
		if s[i].phone == phone {
			return i
		}
	}
	return -1
}

func (s linState) without(i int) linState {
	return append(append(linState{}, s[:i]...), s[i+1:]...)
}

type linRelax struct{ list, geo, auth, reg, other bool }

// step applies an operation; ok is false if its outcome does not fit the state.
func (o *linOp) step(s linState, rx linRelax) (linState, bool) {
	i := s.find(o.phone)
	switch o.kind {
	case "reg":
		plate := false
		for _, r := range s {
			plate = plate || r.plate == o.plate
		}
		free := i < 0 && !plate
		if o.res == 0 {
			if !free && !rx.reg {
				return nil, false
			}
			if i >= 0 {
				s = s.without(i)
			}
			n := append(append(linState{}, s...), linReg{phone: o.phone, plate: o.plate, dev: o.dev, code: o.code, sess: o.c.addr})
			sort.Slice(n, func(a, b int) bool { return n[a].phone < n[b].phone })
			return n, true
		}
		if rx.reg {
			return s, true
		}
		return s, !free && (o.res == 1 && plate || o.res == 3 && i >= 0)
	case "auth":
		if i < 0 {
			return s, o.res == -1 || rx.auth || rx.other
		}
		right := s[i].code == o.code
		if s[i].code == "?" { // the reply with the code was not seen
			right = o.res == 0
		}
		if o.res == 0 {
			return s.with(i, func(r *linReg) { r.auth, r.sess, r.who = true, o.c.addr, o.who }), right || rx.auth
		}
		if o.res > 0 {
			return s.without(i), !right || rx.auth
		}
		return s, rx.auth || rx.other
	case "hb":
		return s, (i >= 0) == (o.res == 0) || rx.other
	case "dereg":
		if o.res == 0 && i >= 0 {
			return s.without(i), true
		}
		return s, (i >= 0) == (o.res == 0) || rx.other
	case "loc":
		if i >= 0 && o.res == 0 {
			return s.with(i, func(r *linReg) { r.loc = o.q }), true
		}
		return s, (i >= 0) == (o.res == 0) || rx.other
	case "geo":
		if i >= 0 && o.res == 0 && !rx.geo {
			if s[i].loc == nil {
				return s, o.geo == nil
			}
			return s, o.geo == nil && o.torn || o.geo != nil && o.geo.matches(o.phone, s[i].loc.loc)
		}
		return s, (i >= 0) == (o.res == 0) || rx.geo
	case "list":
		return s, s.list() == o.list || rx.list
	}
	return s, true
}

// linearizable: 1 yes, 0 no, -1 not decided within the budget.
func linearizable(ops []*linOp, rx linRelax, budget int) int {
	n := len(ops)
	if n > 62 {
		return -1
	}
	pred := make([]uint64, n)
	for i, a := range ops {
		for j, b := range ops {
			if i != j && (a.hi.before(b.lo) || a.c != nil && a.c == b.c && a.idx < b.idx) {
				pred[j] |= 1 << i
			}
		}
	}
	var must uint64
	for i, a := range ops {
		if !a.opt {
			must |= 1 << i
		}
	}
	type memo struct {
		done uint64
		key  string
	}
	seen := map[memo]bool{}
	var dfs func(done uint64, s linState) int
	dfs = func(done uint64, s linState) int {
		if done&must == must {
			return 1
		}
		k := memo{done, s.key()}
		if seen[k] {
			return 0
		}
		seen[k] = true
		budget--
		if budget <= 0 {
			return -1
		}
		for i := 0; i < n; i++ {
			if done&(1<<i) != 0 || pred[i]&^done != 0 {
				continue
			}
			if s2, ok := ops[i].step(s, rx); ok {
				if r := dfs(done|1<<i, s2); r != 0 {
					return r
				}
			}
			if ops[i].opt { // or it never took effect
				if r := dfs(done|1<<i, s); r != 0 {
					return r
				}
			}
		}
		return 0
	}
	return dfs(0, linState{})
}

// sharedHeard: a terminal was last heard when the one that holds the registration sent something.
func (w *World) sharedHeard(x *HRec, d *devJSON) {
	var qs []*Req
	for _, q := range w.reqs {
		if q.m != nil && w.sc.Idents[q.id].Phone == d.Phone && !q.refused() {
			qs = append(qs, q)
		}
	}
	lc, _ := w.unskew(d.LastComTime, x.ret.at, qs)
	for _, q := range qs {
		if lc >= q.sent.at-time.Millisecond && lc <= w.hHi(q).at+time.Millisecond {
			return
		}
	}
	w.fail("C06 C17", "last-heard", "device list #%d at %.3fs: phone %s is shown as last heard at %.3fs, when nothing of the terminal that holds it can have been handled", x.idx, x.inv.at.Seconds(), d.Phone, lc.Seconds())
}

func (w *World) judgeShared() {
	var ops []*linOp
	var first time.Duration = -1
	for _, c := range w.conns {
		lost := false // the server may have given the connection up
		for _, q := range c.tx {
			if !q.ok || q.m == nil {
				continue
			}
			t := &w.sc.Idents[q.id]
			o := &linOp{kind: q.kind, id: q.id, phone: t.Phone, plate: t.Plate, dev: t.ID, lo: q.sent, hi: w.hHi(q), c: c, idx: q.idx, q: q}
			o.desc = fmt.Sprintf("%.4f-%.4f conn%d %s phone %s plate %s id %s", o.lo.at.Seconds(), o.hi.at.Seconds(), c.idx, q.kind, t.Phone, t.Plate, t.ID)
			if q.kind == "auth" {
				o.code = q.code
				if t.v19() {
					o.who = q.imei + "," + q.sw
				}
				o.desc += " code " + q.code
			}
			if q.reply != nil {
				o.res = int(q.reply.res)
				if q.kind == "reg" {
					o.code = q.reply.code
				}
				o.desc += fmt.Sprintf(" -> %d %s", o.res, q.reply.code)
				if q.kind == "dereg" || q.kind == "auth" && o.res != 0 {
					lost = true // closing the connection then is tolerated
				}
				if first < 0 || q.sent.at < first {
					first = q.sent.at
				}
			} else {
				switch {
				case lost:
					o.opt = true
					if q.kind == "reg" {
						o.code = "?"
					}
				case q.kind == "reg":
					if q.sent.at+w.bound(q) <= w.runEnd.at {
						w.fail("C02 C06", "unanswered:reg", "registration of phone %s on conn%d at %.3fs was never answered", t.Phone, c.idx, q.sent.at.Seconds())
					}
					o.opt, o.code = true, "?"
				default:
					o.res = -1
					if w.closeAt(c) == inf.at && q.sent.at+w.bound(q)+2*time.Second < w.runEnd.at {
						w.fail("C02 C08", "neither-answered-nor-closed", "%s of phone %s on conn%d at %.3fs was neither answered nor the connection closed", q.kind, t.Phone, c.idx, q.sent.at.Seconds())
					}
				}
				lost = true
				o.desc += " -> none"
			}
			if o.opt && q.kind != "reg" { // if it was handled, any outcome is possible
				o.res = 0
				if q.kind == "auth" {
					o2 := *o
					o2.res = 1
					ops = append(ops, &o2)
				}
			}
			ops = append(ops, o)
		}
	}
	for _, x := range w.https {
		if !x.done || x.refused || x.down || x.aborted || x.status >= 500 {
			continue
		}
		o := &linOp{kind: x.kind, lo: x.inv, hi: x.ret, phone: x.phone}
		o.desc = fmt.Sprintf("%.4f-%.4f %s %s", o.lo.at.Seconds(), o.hi.at.Seconds(), x.kind, x.phone)
		switch x.kind {
		case "list":
			var ds []devJSON
			if err := json.Unmarshal([]byte(x.body), &ds); err != nil || x.status != 200 {
				w.fail("C17", "list-unreadable", "device list #%d: status %d, %v: %s", x.idx, x.status, err, head([]byte(x.body)))
				continue
			}
			var it []string
			for _, d := range ds {
				who := ""
				if d.IMEI != "" || d.SoftwareVersion != "" {
					who = d.IMEI + "," + d.SoftwareVersion
				}
				it = append(it, listKey(d.Phone, d.Plate, d.ID, d.SessionID, who, d.Status != 0))
				w.sharedHeard(x, &d)
				if d.Status != 0 {
					ok := false
					for _, q := range w.reqs {
						ok = ok || q.kind == "auth" && w.sc.Idents[q.id].Phone == d.Phone && q.sent.before(x.ret) && !q.refused()
					}
					if !ok {
						w.fail("C07", "online-unauthenticated", "device list #%d at %.3fs: phone %s has status %d without having authenticated", x.idx, x.inv.at.Seconds(), d.Phone, d.Status)
					}
				}
			}
			sort.Strings(it)
			for i := 1; i < len(it); i++ {
				if strings.SplitN(it[i], "|", 2)[0] == strings.SplitN(it[i-1], "|", 2)[0] {
					w.fail("C17 C06", "list-duplicate", "device list #%d at %.3fs shows a phone twice: %s", x.idx, x.inv.at.Seconds(), strings.Join(it, ";"))
				}
			}
			o.list = strings.Join(it, ";")
			o.desc += " = " + o.list
		case "geo":
			if x.status >= 400 {
				o.res = -1
			}
			var outer struct {
				Gis *geoJSON `json:"gis"`
			}
			if x.body != "" && o.res == 0 {
				if err := json.Unmarshal([]byte(x.body), &outer); err != nil {
					w.fail("C12", "geo-unreadable", "location query #%d: %v: %s", x.idx, err, head([]byte(x.body)))
					continue
				}
				if outer.Gis != nil && outer.Gis.Gis != nil {
					o.geo = outer.Gis
				}
			}
			o.desc += fmt.Sprintf(" = %d", x.status)
		default:
			continue
		}
		ops = append(ops, o)
	}
	if first >= 0 { // registrations expire after a keep-alive period at the earliest
		var keep []*linOp
		for _, o := range ops {
			if o.lo.at < first+w.K-time.Second && (o.hi.at < first+w.K-time.Second || o.kind != "list" && o.kind != "geo") {
				keep = append(keep, o)
			} else if o.kind != "list" && o.kind != "geo" {
				return // too long to judge
			}
		}
		ops = keep
	}
	for _, o := range ops {
		for _, p := range ops {
			if o.kind == "geo" && (p.kind == "dereg" || p.kind == "auth" && p.res != 0) && p.phone == o.phone && !p.hi.before(o.lo) && !o.hi.before(p.lo) {
				o.torn = true
			}
		}
	}
	w.judged += len(ops)
	const budget = 150000
	if r := linearizable(ops, linRelax{}, budget); r != 0 {
		if r < 0 {
			w.s.Probe("linearizability-undecided")
		} else {
			w.s.Probe("linearizable")
		}
		return
	}
	tags := ""
	for _, x := range []struct {
		rx linRelax
		p  string
	}{{linRelax{list: true}, "C17"}, {linRelax{geo: true}, "C12 C11"}, {linRelax{auth: true}, "C07"}, {linRelax{reg: true}, "C06"}, {linRelax{other: true}, "C08 C11"}, {linRelax{list: true, geo: true}, "C06 C17"}} {
		if linearizable(ops, x.rx, budget) != 0 {
			tags += " " + x.p
		}
	}
	if tags == "" {
		tags = "C06 C07 C08 C11 C17"
	}
	for _, o := range ops {
		if o.kind == "dereg" && w.sc.Prop == "C11" {
			tags += " C11"
			break
		}
	}
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].lo.before(ops[b].lo) })
	var l []string
	for _, o := range ops {
		l = append(l, o.desc)
	}
	w.fail(strings.TrimSpace(tags), "not-linearizable", "no order of these requests explains their outcomes:\n%s", strings.Join(l, "\n"))
}
