//go:build go1.25

package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
)

// The history oracle.  Everything is judged from outside: what terminals and HTTP
// callers sent, what they received and when.  The instant at which a request took
// effect is only known to lie between its sending and its reply (or the latest
// moment it can still have been handled), so every judgement is made over
// intervals: the oracle speaks only when all placements agree.

const allProps = "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20"

type span struct {
	lo, hi mark
	c      *CRec
	idx    int
	q      *Req
}

func (w *World) spanOf(q *Req) span { return span{q.sent, w.hHi(q), q.c, q.idx, q} }
func obsSpan(h *HRec) span          { return span{lo: h.inv, hi: h.ret} }

func sb(a, b span) bool {
	if a.c != nil && a.c == b.c {
		return a.idx < b.idx
	}
	return a.hi.before(b.lo)
}

func minMark(a, b mark) mark {
	if b.at < a.at {
		return b
	}
	return a
}

func (w *World) closeAt(c *CRec) time.Duration {
	if c.c.PeerClosed() {
		return c.c.PeerClosedAt()
	}
	return inf.at
}

// resetAt is when the server's side of the connection was reset.
func (w *World) resetAt(c *CRec) time.Duration {
	if t, ok := c.c.PeerResetAt(); ok {
		return t
	}
	return inf.at
}

// hHi is the latest moment at which the request can have taken effect.
func (w *World) hHi(q *Req) mark {
	if q.reply != nil {
		return q.reply.at
	}
	if q.hi.at != 0 {
		return q.hi
	}
	m := tmark(q.sent.at + w.bound(q))
	if t := w.closeAt(q.c); t < inf.at {
		m = minMark(m, tmark(t+time.Second+w.stalled()))
	}
	for _, r := range w.restarts {
		if q.sent.before(r.down) {
			m = minMark(m, r.down)
			break
		}
	}
	q.hi = m
	return m
}

// eff is the message a request amounts to.
func (q *Req) eff() string {
	if q.kind == "frag" {
		if q.frag.last == q {
			return q.frag.kind
		}
		return "part"
	}
	return q.kind
}

func (q *Req) isRight() bool {
	if q.kind == "frag" {
		return q.frag.right
	}
	return q.right
}

// badAuth: an authentication with a code the terminal was not issued.
func (q *Req) badAuth() bool { return q.eff() == "auth" && !q.isRight() }

func (q *Req) acked() bool   { return q.reply != nil && q.reply.res == 0 }
func (q *Req) refused() bool { return q.reply != nil && q.reply.res != 0 }

type endEv struct {
	sp   span
	sure bool
	kind string
}

type epoch struct {
	id     int
	reg    *Req
	sp     span
	sure   bool
	ends   []endEv
	later  []span // later registrations that prove this one over
	expLo  mark
	expHi  mark
	silent time.Duration // nothing heard after this moment
}

type identH struct {
	reqs   []*Req
	epochs []*epoch
	binds  []*Req
	heard  []*Req // requests that may have refreshed the terminal
	wild   bool
	lost   mark // from here on the phone may belong to an intruder, and answers say nothing about the terminal
	cmds   int
	feats  map[string]bool
}

// skew: from an instant on the server's wall clock is off by so much.
type skew struct {
	at  time.Duration
	off time.Duration
}

// unskew says when the server's clock showed t; of several possibilities one at which a request may have been handled.
func (w *World) unskew(t time.Time, max time.Duration, qs []*Req) (lc time.Duration, ok bool) {
	t = t.Round(0)
	lc = t.Sub(w.t0)
	if len(w.skews) == 0 {
		return lc, true
	}
	off, from := time.Duration(0), time.Duration(-1)
	found := false
	for i := 0; i <= len(w.skews); i++ {
		to := time.Duration(1 << 62)
		if i < len(w.skews) {
			to = w.skews[i].at
		}
		if c := t.Sub(w.t0) - off; c >= from && c <= to && c <= max {
			if !ok {
				lc, ok = c, true
			}
			for _, q := range qs { // the latest, if there are several
				if s := w.spanOf(q); c >= s.lo.at-time.Millisecond && c <= s.hi.at+time.Millisecond && (!found || c > lc) {
					lc, found = c, true
				}
			}
		}
		if i < len(w.skews) {
			off, from = w.skews[i].off, w.skews[i].at
		}
	}
	return lc, ok
}

func (w *World) slack() time.Duration {
	d := 3*time.Second + w.sc.Net.DelayMax + w.stalled()
	if w.sc.Kind != "clockback" {
		d += w.back // a known finding: the timers follow the wall clock
	}
	return d
}

func (w *World) buildHistories() {
	w.hist = make([]*identH, len(w.sc.Idents))
	for i := range w.hist {
		w.hist[i] = &identH{feats: map[string]bool{}, lost: inf, wild: w.sc.Idents[i].Rival}
	}
	for _, q := range w.reqs {
		h := w.hist[q.id]
		if q.kind == "malformed" || q.kind == "wild" || (q.c != nil && q.c.wild) {
			h.wild = true
		}
		switch q.kind {
		case "corrupt", "unsup":
			h.feats["C04"] = true
		case "junk":
			h.feats["C01"] = true
		case "frag":
			h.feats["C16"] = true
		case "dereg":
			h.feats["C11"] = true
		case "intrude":
			h.feats["C06"] = true
			if q.ok && !q.refused() && q.sent.before(h.lost) {
				h.lost = q.sent
			}
			continue
		}
		if !q.ok || q.m == nil || q.kind == "corrupt" || q.kind == "unsup" || q.kind == "junk" || q.kind == "malformed" {
			continue
		}
		h.reqs = append(h.reqs, q)
	}
	for i, h := range w.hist {
		h.wild = h.wild || w.fragsCross(h)
		for _, q := range h.reqs {
			switch q.eff() {
			case "reg":
				if q.refused() {
					continue
				}
				h.epochs = append(h.epochs, &epoch{id: i, reg: q, sp: w.spanOf(q), sure: q.acked()})
				h.binds = append(h.binds, q)
				h.heard = append(h.heard, q)
			case "auth":
				if q.isRight() && !q.refused() {
					h.binds = append(h.binds, q)
					h.heard = append(h.heard, q)
				}
			case "hb", "loc", "noreply", "part", "params":
				if !q.refused() {
					h.heard = append(h.heard, q)
				}
			}
		}
		if len(h.binds) > 0 {
			for _, b := range h.binds {
				if b.c != h.binds[0].c {
					h.feats["C15"] = true
				}
				for _, c := range w.conns { // an earlier connection from the same address, or one of its own that ended
					if c != b.c && c.addr == b.c.addr || !b.c.ourClose.isInf() {
						h.feats["C14"] = true
					}
				}
			}
		}
		for k, e := range h.epochs {
			for _, q := range h.reqs {
				if sb(w.spanOf(q), e.sp) || q == e.reg {
					continue
				}
				switch {
				case q.kind == "dereg":
					e.ends = append(e.ends, endEv{w.spanOf(q), q.acked() && sb(e.sp, w.spanOf(q)), "dereg"})
				case q.badAuth():
					e.ends = append(e.ends, endEv{w.spanOf(q), q.refused() && sb(e.sp, w.spanOf(q)), "badauth"})
				}
			}
			for _, e2 := range h.epochs[k+1:] {
				if e2.sure && (!e.sure || sb(e.sp, e2.sp)) {
					e.later = append(e.later, e2.sp)
				}
			}
			for _, r := range w.restarts {
				if e.sp.lo.before(r.down) {
					e.ends = append(e.ends, endEv{span{lo: r.down, hi: r.down}, true, "restart"})
					break
				}
			}
			w.expiry(h, e)
			e.ends = append(e.ends, endEv{span{lo: e.expLo, hi: e.expHi}, true, "expired"})
			if e.expHi.at < w.runEnd.at {
				h.feats["C09"] = true
			}
		}
	}
	for _, q := range w.reqs {
		if q.kind == "intrude" && q.ok {
			w.judgeIntruder(q)
		}
	}
	for _, x := range w.https {
		if x.kind == "getp" || x.kind == "putp" {
			w.hist[x.id].cmds++
			w.hist[x.id].feats["C13"] = true
		}
	}
}

// judgeIntruder: a registration that claims the phone or the plate of a terminal.  Refused it changes nothing;
// if it was accepted, or may have been, nothing is assumed about the terminal any more.
func (w *World) judgeIntruder(q *Req) {
	h := w.hist[q.id]
	if h.wild {
		return
	}
	w.judged++
	t := &w.sc.Idents[q.id]
	what := fmt.Sprintf("the registration of phone %s plate %s id %s on conn%d at %.3fs", q.id2.Phone, q.id2.Plate, q.id2.ID, q.c.idx, q.sent.at.Seconds())
	var why string
	q.st, why, _ = w.state(q.id, w.spanOf(q))
	if q.reply == nil {
		h.wild = true
		return
	}
	switch res := q.reply.res; {
	case res == 0 && q.st == 'Y':
		w.fail(w.tags("C06", q.id, q.c), "taken-over", "%s succeeded although phone %s holds plate %s", what, t.Phone, t.Plate)
	case res != 0 && q.st == 'N' && (h.lost.isInf() || w.hHi(q).before(h.lost)):
		w.fail("C06 C08 "+whyTags(why), "reg-refused", "%s was refused with result %d although nobody holds the phone or the plate (%s)", what, res, why)
	case res != 0 && q.st == 'Y' && !(res == 1 && q.id2.Plate == t.Plate || res == 3 && q.id2.Phone == t.Phone):
		w.fail("C06", "reg-result", "%s was refused with result %d, held are phone %s and plate %s", what, res, t.Phone, t.Plate)
	case res != 0:
		w.s.Probe("intruder-refused")
	}
	if q.reply.res == 0 {
		h.wild = true
	}
}

// fragsCross: fragments of one message type were in flight on two connections at the same time, as when a
// terminal comes back while the server still works through its old connection; what they add up to is open.
func (w *World) fragsCross(h *identH) bool {
	var fs []*Req
	for _, q := range h.reqs {
		if q.kind == "frag" {
			fs = append(fs, q)
		}
	}
	type win struct {
		c      *CRec
		id     uint16
		lo, hi mark
	}
	wins := map[*FragMsg]*win{}
	var order []*win
	for _, q := range fs {
		v := wins[q.frag]
		if v == nil {
			v = &win{q.c, q.m.ID, q.sent, q.sent}
			wins[q.frag] = v
			order = append(order, v)
		}
		if x := w.hHi(q); v.hi.before(x) {
			v.hi = x
		}
	}
	for i, a := range order {
		for _, b := range order[:i] {
			if a.c != b.c && a.id == b.id && !a.hi.before(b.lo) && !b.hi.before(a.lo) {
				return true
			}
		}
	}
	return false
}

func sureHeard(q *Req) bool {
	if !q.acked() {
		return false
	}
	switch q.eff() {
	case "reg", "auth", "hb", "loc":
		return true
	}
	return false
}

func (w *World) expiry(h *identH, e *epoch) {
	last := e.sp.lo.at
	cur := e.sp.hi.at
	later := func(q *Req) bool {
		for _, l := range e.later {
			if l.q == q || sb(l, w.spanOf(q)) {
				return true
			}
		}
		return false
	}
	for _, q := range h.heard {
		sp := w.spanOf(q)
		if q == e.reg || sb(sp, e.sp) {
			continue
		}
		if sureHeard(q) && !later(q) && q.sent.at > last && sp.hi.before(h.lost) {
			last = q.sent.at
		}
		if q.sent.at <= cur+3*w.K+w.slack() && sp.hi.at > cur {
			cur = sp.hi.at
		}
	}
	e.silent = cur
	e.expLo = tmark(last + w.K)
	e.expHi = tmark(cur + 3*w.K + w.slack())
}

// state of an identity's registration when something happened: Y, N or M (cannot tell).
func (w *World) state(i int, sp span) (st byte, why string, cur *epoch) {
	st, why = 'N', "never"
	var whyIdx = -1
	for k, e := range w.hist[i].epochs {
		if sp.q != nil && e.reg == sp.q {
			continue
		}
		if sb(sp, e.sp) {
			continue
		}
		started := e.sure && sb(e.sp, sp)
		ended, may := false, false
		for _, v := range e.ends {
			if v.sp.q != nil && v.sp.q == sp.q {
				continue
			}
			if v.sure && sb(v.sp, sp) {
				ended = true
				if k >= whyIdx {
					whyIdx, why = k, v.kind
				}
			}
			if !sb(sp, v.sp) {
				may = true
			}
		}
		for _, l := range e.later {
			if l.q != sp.q && sb(l, sp) {
				ended = true
			}
		}
		switch {
		case ended:
		case started && !may:
			return 'Y', "", e
		default:
			st = 'M'
		}
	}
	return
}

func (w *World) tags(base string, i int, c *CRec) string {
	if i >= 0 && i < len(w.hist) {
		var fs []string
		for f := range w.hist[i].feats {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		base += " " + strings.Join(fs, " ")
	}
	for _, h := range w.hist {
		if h.feats["C11"] && w.sc.Prop == "C11" { // another terminal's deregistration may be what changed it
			base += " C11"
			break
		}
	}
	if len(w.restarts) > 0 && w.sc.Prop == "C20" {
		base += " C20"
	}
	return base
}

func whyTags(why string) string {
	switch why {
	case "dereg":
		return "C11"
	case "expired":
		return "C09"
	case "badauth":
		return "C07"
	case "restart":
		return "C08 C20"
	}
	return "C08"
}

// binding: the connections the identity may be bound to at the given time, and whether it is bound at all for sure.
func (w *World) binding(i int, sp span) (conns []*CRec, sure bool) {
	h := w.hist[i]
	var poss []*Req
	for _, b := range h.binds {
		if !sb(sp, w.spanOf(b)) && b != sp.q {
			poss = append(poss, b)
		}
	}
	for _, b := range poss {
		bs := w.spanOf(b)
		over := false
		for _, b2 := range poss {
			if b2 != b && b2.acked() && sb(w.spanOf(b2), sp) && sb(bs, w.spanOf(b2)) {
				over = true
				break
			}
		}
		if over {
			continue
		}
		if b.acked() && sb(bs, sp) {
			sure = true
		}
		dup := false
		for _, c := range conns {
			dup = dup || c == b.c
		}
		if !dup {
			conns = append(conns, b.c)
		}
	}
	return
}

// ------------------------------------------------------------------ judging

func (w *World) judge() {
	s := w.s
	for i, c := range s.Crashes {
		if c.Node == simrt.NodeServer && !w.okEnds[i] {
			w.fail(allProps, "crash:"+crashSig(c.Why), "the server process died at %.3fs: %s", c.At.Seconds(), c.Why)
		}
	}
	if s.Runaway {
		w.fail("C05 C01 C02", "runaway", "the system keeps running without getting anywhere (%d slices, %d statements at %.3fs)", s.Slices, s.YTotal(), s.Now().Seconds())
	}
	if w.cli != nil {
		w.judgeClient()
		if !w.sc.Client.Real {
			return
		}
	}
	if len(w.viol) > 0 && (w.crashed() || s.Runaway) {
		return
	}
	for _, x := range w.https {
		if x.kind == "list" && x.done && x.status == 200 {
			var ds []devJSON
			if json.Unmarshal([]byte(x.body), &ds) == nil {
				for _, d := range ds {
					if d.Keepalive > 0 {
						w.K = time.Duration(d.Keepalive)
					}
				}
			}
		}
	}
	w.judgeHTTP()
	w.judgeCodes()
	if w.sc.Shared {
		w.judgeShared()
		return
	}
	w.buildHistories()
	w.judgeRequests()
	w.judgeConns()
	for _, x := range w.https {
		if !x.done || x.refused || x.down || x.aborted {
			continue
		}
		switch x.kind {
		case "list":
			w.judgeList(x)
		case "geo":
			w.judgeGeo(x)
		}
	}
	w.judgeCommands()
}

func crashSig(why string) string {
	l := strings.SplitN(why, "\n", 3)
	sig := l[0]
	if len(sig) > 80 {
		sig = sig[:80]
	}
	if len(l) > 1 {
		f := l[1]
		if i := strings.Index(f, "("); i > 0 {
			f = f[:i]
		}
		if i := strings.LastIndex(f, "/"); i > 0 {
			f = f[i+1:]
		}
		sig += "@" + f
	}
	return sig
}

// judgeHTTP: every HTTP request is answered in bounded time.
func (w *World) judgeHTTP() {
	for _, x := range w.https {
		if x.refused || x.down {
			continue
		}
		slow := !x.done || x.ret.at-x.inv.at > settle+w.stalled()+x.delay
		if x.inv.at+settle+w.stalled()+x.delay > w.runEnd.at && !x.done {
			slow = false
		}
		switch x.kind {
		case "list", "geo", "badpath":
			p := "C05"
			if x.kind == "list" {
				p += " C17"
			} else if x.kind == "geo" {
				p += " C12"
			}
			if slow {
				w.fail(p, "http-slow:"+x.kind, "HTTP request #%d (%s) at %.3fs is not answered in time", x.idx, x.kind, x.inv.at.Seconds())
			} else if x.done && (x.aborted || x.status >= 500) {
				w.fail(p, "http-5xx:"+x.kind, "HTTP request #%d (%s) at %.3fs fails with status %d (dropped=%v)", x.idx, x.kind, x.inv.at.Seconds(), x.status, x.aborted)
			}
		case "getp", "putp":
			if slow && !w.blockable(x) && (!x.done || x.ret.at-x.inv.at > settle+w.stalled()+x.delay+w.blocked(x)) {
				w.fail("C05 C13", "http-slow:"+x.kind, "HTTP command #%d (%s) at %.3fs is not answered in time", x.idx, x.kind, x.inv.at.Seconds())
			}
			if x.done && (x.aborted || x.status >= 500) {
				w.fail("C05 C13", "http-5xx:"+x.kind, "HTTP command #%d (%s) at %.3fs fails with status %d (dropped=%v) instead of a client error", x.idx, x.kind, x.inv.at.Seconds(), x.status, x.aborted)
			}
		}
	}
}

// blocked: how long the server may have waited to write to a terminal.
func (w *World) blocked(x *HRec) (d time.Duration) {
	for _, c := range w.conns {
		for _, q := range c.tx {
			if q.id == x.id {
				d += w.connSlack(c)
				break
			}
		}
	}
	return
}

// blockable: a command to a terminal that does not read may take as long as the terminal takes.
func (w *World) blockable(x *HRec) bool {
	for _, c := range w.conns {
		if c.pauseTot > 0 || c.frozen > 0 || c.vanished {
			for _, q := range c.tx {
				if q.id == x.id {
					return true
				}
			}
		}
	}
	return false
}

func (w *World) judgeRequests() {
	for _, c := range w.conns {
		c.mayDieIdx = math.MaxInt
		for _, q := range c.tx {
			h := w.hist[q.id]
			if q.kind == "malformed" || q.kind == "wild" {
				if q.idx < c.mayDieIdx {
					c.mayDieIdx = q.idx
				}
				continue
			}
			if h.wild && q.m != nil && q.idx < c.mayDieIdx {
				c.mayDieIdx = q.idx
			}
			if q.m == nil || h.wild {
				continue
			}
			sp := w.spanOf(q)
			var why string
			q.st, why, _ = w.state(q.id, sp)
			q.why = why
			switch q.eff() {
			case "hb", "loc", "auth", "dereg", "part", "params", "noreply":
				if q.kind != "noreply" && q.st != 'Y' && q.idx < c.mayDieIdx {
					c.mayDieIdx = q.idx
				}
				if (q.kind == "dereg" || q.badAuth()) && q.idx+1 < c.mayDieIdx {
					c.mayDieIdx = q.idx + 1
				}
			}
		}
	}
	for _, q := range w.reqs {
		if !q.ok || q.m == nil || w.hist[q.id].wild {
			continue
		}
		switch q.kind {
		case "reg", "auth", "hb", "loc", "dereg", "frag":
		default:
			continue
		}
		w.judgeRequest(q)
	}
}

func (w *World) judgeRequest(q *Req) {
	w.judged++
	c := q.c
	t := w.sc.Idents[q.id]
	desc := func() string {
		return fmt.Sprintf("%s (message %04x serial %d) of phone %s sent on conn%d at %.3fs", q.kind, q.m.ID, q.m.Serial, t.Phone, c.idx, q.sent.at.Seconds())
	}
	if q.reply == nil {
		if !w.mustReply(q) {
			return
		}
		closed := ""
		base := "C02 C01 C05"
		if w.closeAt(c) < inf.at {
			closed = fmt.Sprintf("; the server closed the connection at %.3fs", w.closeAt(c).Seconds())
			base += " C10 C14"
		}
		switch q.kind {
		case "reg":
			base += " C06 C08"
		case "auth":
			base += " C07 C10"
		case "frag":
			base += " C16"
		case "loc":
			base += " C12 C10"
		default:
			base += " C10"
		}
		w.fail(w.tags(base, q.id, c), "unanswered:"+q.kind, "%s was never answered%s", desc(), closed)
		return
	}
	if d := q.reply.at.at - q.sent.at; d > w.bound(q) {
		w.fail(w.tags("C02 C05 C01", q.id, c), "late:"+q.kind, "%s was answered only after %.3fs", desc(), d.Seconds())
	}
	res := q.reply.res
	switch q.eff() {
	case "reg":
		switch q.st {
		case 'Y':
			if res == 0 {
				w.fail(w.tags("C06", q.id, c), "reg-accepted-twice", "%s succeeded although the phone and plate are registered", desc())
			} else if res != 1 && res != 3 {
				w.fail("C06", "reg-result", "%s was refused with result %d", desc(), res)
			}
		case 'N':
			if res != 0 {
				b := "C06 C08"
				switch q.why {
				case "dereg":
					b += " C11"
				case "expired":
					b += " C09"
				case "badauth":
					b += " C07"
				case "restart":
					b += " C20"
				}
				w.fail(b, "reg-refused", "%s was refused with result %d although nobody holds the phone or the plate (%s)", desc(), res, q.why)
			}
		}
		if res == 0 && q.reply.code == "" {
			w.fail("C07", "no-code", "%s succeeded without an authentication code", desc())
		}
	case "auth":
		if res == 0 {
			if !q.isRight() {
				w.fail("C07", "wrong-code-accepted", "%s with code %q was accepted, issued was %q", desc(), q.code, w.codes[q.id])
			} else if q.st == 'N' {
				w.fail("C08 "+whyTags(q.why), "unregistered-served:auth", "%s was answered with success although the phone is not registered (%s)", desc(), q.why)
			}
		} else if q.isRight() && q.st == 'Y' {
			w.fail(w.tags("C07", q.id, c), "right-code-refused", "%s with the issued code %q was refused", desc(), q.code)
		}
	default:
		if q.st == 'N' && res == 0 {
			w.fail("C08 "+whyTags(q.why), "unregistered-served:"+q.kind, "%s was answered with success although the phone is not registered (%s)", desc(), q.why)
		}
		if q.st == 'Y' && res != 0 {
			w.fail(w.tags("C02", q.id, c), "failure-reply:"+q.kind, "%s was answered with failure %d", desc(), res)
		}
	}
}

// mustReply: the request was well-formed, the terminal registered and its connection healthy long enough.
func (w *World) mustReply(q *Req) bool {
	c := q.c
	if q.opt || q.idx > c.mayDieIdx {
		return false
	}
	if q.kind == "frag" && q.eff() == "params" {
		return false
	}
	if q.kind != "reg" && q.st != 'Y' {
		return false
	}
	lim := q.sent.at + w.bound(q)
	if lim > w.runEnd.at {
		return false
	}
	if !c.ourClose.isInf() && c.ourClose.at <= lim && c.how != "fin" {
		return false
	}
	if c.vanished && c.ourClose.at <= lim {
		return false
	}
	for _, r := range w.restarts {
		if r.down.at <= lim && r.down.at >= c.open.at {
			return false
		}
	}
	return !w.mayExpire(c, lim)
}

// mayExpire: some terminal bound to the connection may have been expired by then.
func (w *World) mayExpire(c *CRec, t time.Duration) bool {
	for _, h := range w.hist {
		on := false
		for _, b := range h.binds {
			on = on || b.c == c
		}
		if !on {
			continue
		}
		if h.wild {
			return true
		}
		for _, e := range h.epochs {
			if e.expLo.at <= t && e.reg.sent.at <= t {
				// the connection must have been bound in this registration
				for _, b := range h.binds {
					if b.c != c || sb(w.spanOf(b), e.sp) {
						continue
					}
					over := false
					for _, v := range e.ends { // ended otherwise before it could expire
						if v.kind != "expired" && v.sure && v.sp.hi.at < e.expLo.at {
							over = true
						}
					}
					for _, l := range e.later {
						if l.hi.at < e.expLo.at {
							over = true
						}
					}
					if !over {
						return true
					}
				}
			}
		}
	}
	return false
}

// judgeCodes: a code belongs to one terminal.
func (w *World) judgeCodes() {
	type who struct{ phone, plate, id string }
	seen, chance := map[string]who{}, false
	for _, q := range w.reqs {
		if q.kind != "reg" && q.kind != "intrude" || q.reply == nil {
			continue
		}
		t := &w.sc.Idents[q.id]
		if q.id2 != nil {
			t = q.id2
		}
		if !q.acked() {
			for _, q2 := range w.reqs {
				if q2.kind == "reg" && q2.acked() && w.sc.Idents[q2.id].Phone == t.Phone && q2.reply.code == q.reply.code {
					w.fail("C06 C07", "refused-with-code", "the registration of phone %s at %.3fs was refused (%d), but its reply carries the code %q that was issued for this phone", t.Phone, q.sent.at.Seconds(), q.reply.res, q.reply.code)
					break
				}
			}
			continue
		}
		me := who{t.Phone, t.Plate, t.ID}
		o, ok := seen[q.reply.code]
		if ok && o != me {
			alike := o.phone == me.phone || o.plate == me.plate || o.id == me.id
			if alike || chance { // once may be chance among hundreds of strangers, a code being 32 bits of a hash
				w.fail("C07", "code-shared", "registrations of %v and %v were given the same code %q", o, me, q.reply.code)
			}
			chance = chance || !alike
		}
		seen[q.reply.code] = me
	}
}

func (w *World) judgeConns() {
	for _, c := range w.conns {
		t := w.closeAt(c)
		restarted := false
		for _, r := range w.restarts {
			if c.open.before(r.down) {
				restarted = true
			}
		}
		// the server closes only what it has a reason to close
		if t < inf.at && t < c.ourClose.at && !restarted {
			ok := c.mayDie && c.mayDieAt.at <= t
			for _, q := range c.tx {
				if q.idx >= c.mayDieIdx && q.sent.at <= t {
					ok = true
				}
				if q.kind == "dereg" || q.badAuth() {
					ok = true
				}
			}
			if !ok && !w.mayExpire(c, t) {
				id := -1
				for _, q := range c.tx {
					id = q.id
				}
				w.fail(w.tags("C02 C05 C10 C14", id, c)+c.featTags(), "dropped", "conn%d (from %s) was closed by the server at %.3fs without reason", c.idx, c.addr, t.Seconds())
			}
		}
		extra := settle + w.connSlack(c) + w.stalled()
		if restarted {
			continue
		}
		// unregistered terminals are disconnected
		if !c.vanished {
			for _, q := range c.tx {
				if q.m == nil || q.st != 'N' || q.opt || !q.ok {
					continue
				}
				switch q.eff() {
				case "hb", "loc", "auth", "dereg", "part":
				default:
					continue
				}
				lim := q.sent.at + w.bound(q) + 2*time.Second
				if lim < w.runEnd.at && t > lim {
					w.fail("C08 "+whyTags(q.why), "not-disconnected", "conn%d: %s for phone %s at %.3fs, not registered (%s), did not get the connection closed", c.idx, q.kind, w.sc.Idents[q.id].Phone, q.sent.at.Seconds(), q.why)
					break
				}
			}
		}
		// teardown by the terminal
		if !c.ourClose.isInf() && !c.vanished {
			lim := c.ourClose.at + extra
			if lim < w.runEnd.at && t > lim {
				w.fail("C14 C05", "not-torn-down", "conn%d: the terminal ended the connection (%s) at %.3fs, the server did not close its side", c.idx, c.how, c.ourClose.at.Seconds())
			}
		}
	}
	// expired terminals are disconnected
	for i, h := range w.hist {
		if h.wild {
			continue
		}
		for _, e := range h.epochs {
			if !e.sure || e.expHi.at >= w.runEnd.at || len(e.ends) != 1 {
				continue
			}
			at := span{lo: e.expHi, hi: e.expHi}
			conns, sure := w.binding(i, at)
			if !sure || len(conns) != 1 || conns[0].ids() != 1 {
				continue
			}
			if t := w.closeAt(conns[0]); t > e.expHi.at {
				w.fail("C09", "expired-not-closed", "phone %s went silent at %.3fs and expired, conn%d was not closed by %.3fs", w.sc.Idents[i].Phone, e.silent.Seconds(), conns[0].idx, e.expHi.at.Seconds())
			}
		}
	}
}

func (c *CRec) ids() int {
	m := map[int]bool{}
	for _, q := range c.tx {
		m[q.id] = true
	}
	return len(m)
}

func (c *CRec) featTags() string {
	o := ""
	put := func(t string) {
		if !strings.Contains(o, t) {
			o += " " + t
		}
	}
	for _, q := range c.tx {
		switch q.kind {
		case "corrupt":
			put("C04")
			put("C01")
		case "unsup":
			put("C04")
		case "junk":
			put("C01")
		case "frag":
			put("C16")
		}
	}
	return o
}

type devJSON struct {
	ID              string    `json:"id"`
	Plate           string    `json:"plate"`
	Phone           string    `json:"phone"`
	SessionID       string    `json:"sessionId"`
	Keepalive       int64     `json:"keepalive"`
	LastComTime     time.Time `json:"lastComTime"`
	Status          int       `json:"status"`
	VersionDesc     int       `json:"versionDesc"`
	ProtocolVersion int       `json:"protocolVersion"`
	AuthCode        string    `json:"authcode"`
	IMEI            string    `json:"imei"`
	SoftwareVersion string    `json:"softwareVersion"`
}

func (w *World) anyWild() bool {
	for _, h := range w.hist {
		if h.wild {
			return true
		}
	}
	return false
}

func listOf(x *HRec) map[string]*devJSON {
	var ds []devJSON
	by := map[string]*devJSON{}
	if json.Unmarshal([]byte(x.body), &ds) == nil {
		for i := range ds {
			by[ds[i].Phone] = &ds[i]
		}
	}
	return by
}

func (w *World) judgeList(x *HRec) {
	if x.status >= 500 {
		return // reported already
	}
	var ds []devJSON
	if err := json.Unmarshal([]byte(x.body), &ds); err != nil || x.status != 200 {
		w.fail("C17", "list-unreadable", "device list #%d: status %d, %v: %s", x.idx, x.status, err, head([]byte(x.body)))
		return
	}
	by := map[string]*devJSON{}
	known := map[string]bool{}
	for i := range ds {
		if by[ds[i].Phone] != nil {
			w.fail("C17 C06", "list-duplicate", "device list #%d at %.3fs shows phone %s twice", x.idx, x.inv.at.Seconds(), ds[i].Phone)
		}
		by[ds[i].Phone] = &ds[i]
	}
	sp := obsSpan(x)
	for i := range w.sc.Idents {
		t := &w.sc.Idents[i]
		known[t.Phone] = true
		if w.hist[i].wild {
			continue
		}
		d := by[t.Phone]
		st, why, e := w.state(i, sp)
		if st == 'Y' && d == nil {
			w.fail(w.tags("C17 C10 C14", i, nil), "list-missing", "device list #%d at %.3fs does not show phone %s, which is registered", x.idx, x.inv.at.Seconds(), t.Phone)
		}
		if d == nil {
			continue
		}
		if st == 'N' {
			w.fail("C17 C08 "+whyTags(why), "list-ghost:"+why, "device list #%d at %.3fs shows phone %s, which is not registered (%s)", x.idx, x.inv.at.Seconds(), t.Phone, why)
			continue
		}
		w.judgeEntry(x, i, d, e)
	}
	if w.cli != nil { // judged by judgeCliReal
		for _, c := range w.cli.conns {
			known[c.phone] = true
		}
	}
	if !w.anyWild() {
		for i := range ds {
			if !known[ds[i].Phone] {
				w.fail("C17 C08 C04 C01", "list-unknown", "device list #%d shows phone %q, which nobody registered", x.idx, ds[i].Phone)
			}
		}
	}
}

func (w *World) judgeEntry(x *HRec, i int, d *devJSON, e *epoch) {
	w.judged++
	t := &w.sc.Idents[i]
	h := w.hist[i]
	sp := obsSpan(x)
	at := fmt.Sprintf("device list #%d at %.3fs: phone %s", x.idx, x.inv.at.Seconds(), t.Phone)
	pv, vd := 0, 1
	if t.v19() {
		pv, vd = int(t.PV), 2
	}
	if d.Plate != t.Plate || d.ID != t.ID || d.ProtocolVersion != pv || (d.VersionDesc != vd && !(t.Ver == 2011 && d.VersionDesc == 0)) {
		w.fail(w.tags("C17", i, nil), "list-identity", "%s is shown as plate=%q id=%q versionDesc=%d protocolVersion=%d, registered were %q %q %d", at, d.Plate, d.ID, d.VersionDesc, d.ProtocolVersion, t.Plate, t.ID, t.Ver)
	}
	// who may have authenticated
	var may []*Req
	var auth *Req
	for _, q := range h.reqs {
		if q.eff() != "auth" || !q.isRight() || q.refused() {
			continue
		}
		qs := w.spanOf(q)
		if sb(sp, qs) || (e != nil && sb(qs, e.sp)) {
			continue
		}
		may = append(may, q)
		if q.acked() && e != nil && sb(e.sp, qs) && sb(qs, sp) && (auth == nil || sb(w.spanOf(auth), qs)) {
			auth = q
		}
	}
	if len(may) == 0 && d.Status != 0 {
		w.fail("C07 C08", "online-unauthenticated", "%s has status %d without having authenticated", at, d.Status)
	}
	if len(may) == 0 && d.AuthCode == "" && d.IMEI != "" {
		w.fail("C17 C07", "identity-before-auth", "%s shows an identity it has not presented", at)
	}
	// all of it as one authentication left it, or none
	if d.Status != 0 || d.AuthCode != "" || d.IMEI != "" || d.SoftwareVersion != "" {
		ok := len(may) == 0
		var last string
		for _, q := range may {
			code, imei, sw := q.code, q.imei, q.sw
			if q.kind == "frag" {
				code, imei, sw = q.frag.code, q.frag.imei, q.frag.sw
			}
			ok = ok || d.AuthCode == code && d.SessionID == q.c.addr && (!t.v19() || d.IMEI == imei && d.SoftwareVersion == sw)
			last += fmt.Sprintf(" [%s %q %q %q]", q.c.addr, code, imei, sw)
		}
		if !ok {
			w.fail(w.tags("C17 C07 C15", i, nil), "list-torn", "%s is shown with status %d, session %s, code %q, imei %q, software %q, which no authentication of it left:%s", at, d.Status, d.SessionID, d.AuthCode, d.IMEI, d.SoftwareVersion, last)
		}
	}
	// last heard
	in := false
	lc, ok := w.unskew(d.LastComTime, sp.hi.at, h.heard)
	for _, q := range h.heard {
		qs := w.spanOf(q)
		if ok && lc >= qs.lo.at-time.Millisecond && lc <= qs.hi.at+time.Millisecond {
			in = true
			break
		}
	}
	if !in {
		w.fail(w.tags("C17", i, nil), "last-heard", "%s is shown as last heard at %.3fs, when nothing it sent can have been handled", at, lc.Seconds())
	}
	for _, q := range h.heard {
		qs := w.spanOf(q)
		if e != nil && sureHeard(q) && sb(qs, sp) && !sb(qs, e.sp) && lc < qs.lo.at-time.Millisecond {
			w.fail(w.tags("C17 C10", i, nil), "last-heard-stale", "%s is shown as last heard at %.3fs, although a %s of %.3fs was answered", at, lc.Seconds(), q.kind, q.sent.at.Seconds())
			break
		}
	}
	if e == nil {
		return
	}
	if d.Status != 0 && sp.lo.at > e.silent+2*w.K+w.slack() {
		w.fail(w.tags("C09", i, nil), "still-online", "%s has status %d, last heard at %.3fs at the latest", at, d.Status, e.silent.Seconds())
	}
	if auth != nil {
		// a chain of requests that keeps it online from the authentication to the observation
		as := w.spanOf(auth)
		prev := auth.sent.at
		okc := true
		for _, q := range h.heard {
			if !sureHeard(q) || q == auth || q.sent.at < auth.sent.at {
				continue
			}
			qs := w.spanOf(q)
			if sb(sp, qs) {
				continue
			}
			if qs.hi.at > sp.hi.at { // still in flight: it need not have counted yet
				continue
			}
			if qs.hi.at-prev > w.K {
				okc = false
				break
			}
			if q.sent.at > prev {
				prev = q.sent.at
			}
		}
		if okc && sp.hi.at-prev <= w.K {
			w.s.Probe("must-be-online")
			if d.Status == 0 {
				w.fail(w.tags("C10 C07", i, nil), "offline-though-talking", "%s is shown offline, authenticated at %.3fs and heard since at least once per %v", at, auth.sent.at.Seconds(), w.K)
			}
		}
		if d.Status == 2 {
			ok := false
			for _, q := range h.reqs {
				if q.eff() == "loc" && q.loc != nil && q.loc.Status&1 == 0 {
					qs := w.spanOf(q)
					if !sb(qs, as) && !sb(sp, qs) {
						ok = true
						break
					}
				}
			}
			if !ok {
				w.fail("C07 C12", "asleep-without-report", "%s is shown asleep, but it reported no ACC-off location since it authenticated", at)
			}
		}
		if t.v19() {
			ok := false
			var last string
			for _, q := range may {
				if q != auth && sb(w.spanOf(q), as) {
					continue
				}
				imei, sw := q.imei, q.sw
				if q.kind == "frag" {
					imei, sw = q.frag.imei, q.frag.sw
				}
				ok = ok || d.IMEI == imei && d.SoftwareVersion == sw
				last += fmt.Sprintf(" %q %q", imei, sw)
			}
			if !ok {
				w.fail(w.tags("C17 C07", i, nil), "identity-presented", "%s shows imei=%q software=%q, it authenticated with%s", at, d.IMEI, d.SoftwareVersion, last)
			}
		}
		code := auth.code
		if auth.kind == "frag" {
			code = auth.frag.code
		}
		if d.AuthCode != code {
			w.fail("C17 C07", "authcode-shown", "%s shows code %q, it authenticated with %q", at, d.AuthCode, code)
		}
	}
	conns, sure := w.binding(i, sp)
	if sure {
		ok := false
		for _, c := range conns {
			ok = ok || d.SessionID == c.addr
		}
		if !ok {
			w.fail(w.tags("C15 C17", i, nil), "session-shown", "%s is shown with session %s, it is served on %s", at, d.SessionID, addrs(conns))
		}
	}
}

func addrs(cs []*CRec) string {
	var o []string
	for _, c := range cs {
		o = append(o, fmt.Sprintf("conn%d %s", c.idx, c.addr))
	}
	return strings.Join(o, " or ")
}

type geoJSON struct {
	Phone    string             `json:"phone"`
	Gis      map[string]float64 `json:"gis"`
	Location struct {
		Latitude, Longitude float64
		Altitude            int
	} `json:"location"`
	Drive struct {
		Speed     float64
		Direction int
	} `json:"drive"`
	Time time.Time `json:"time"`
}

var statusBits = []struct {
	name string
	sh   uint
	mask uint32
}{
	{"accstatus", 0, 1}, {"locationstatus", 1, 1}, {"latitudetype", 2, 1}, {"longitudetype", 3, 1}, {"operatingstatus", 4, 1},
	{"geoencryptionstatus", 5, 1}, {"loadstatus", 8, 3}, {"fuelsystemstatus", 10, 1}, {"alternatorsystemstatus", 11, 1},
	{"doorlockedstatus", 12, 1}, {"frontdoorstatus", 13, 1}, {"middoorstatus", 14, 1}, {"backdoorstatus", 15, 1},
	{"driverdoorstatus", 16, 1}, {"customdoorstatus", 17, 1}, {"gpslocationstatus", 18, 1}, {"beidoulocationstatus", 19, 1},
	{"glonasslocationstatus", 20, 1}, {"galileolocationstatus", 21, 1}, {"drivingstatus", 22, 1},
}

func (g *geoJSON) matches(phone string, l *Loc) bool { return g.diff(phone, l) == "" }

func (g *geoJSON) diff(phone string, l *Loc) string {
	near := func(a, b float64) bool { return math.Abs(a-b) < 1e-7*math.Max(1, math.Abs(b)) }
	if g.Phone != phone {
		return "phone"
	}
	if !near(g.Location.Latitude, float64(l.Lat)/1e6) {
		return "latitude"
	}
	if !near(g.Location.Longitude, float64(l.Lon)/1e6) {
		return "longitude"
	}
	if g.Location.Altitude != int(l.Alt) {
		return "altitude"
	}
	if !near(g.Drive.Speed, float64(l.Speed)/10) {
		return "speed"
	}
	if g.Drive.Direction != int(l.Dir) {
		return "direction"
	}
	if g.Time.Format("060102150405") != l.Time {
		return "time"
	}
	low := map[string]float64{}
	for k, v := range g.Gis {
		low[strings.ToLower(k)] = v
	}
	for _, b := range statusBits {
		v, ok := low[b.name]
		if !ok || uint32(v) != (l.Status>>b.sh)&b.mask {
			return "status flag " + b.name
		}
	}
	return ""
}

func (w *World) judgeGeo(x *HRec) {
	w.judged++
	i := x.id
	if w.hist[i].wild || x.status >= 500 {
		return
	}
	sp := obsSpan(x)
	st, why, e := w.state(i, sp)
	at := fmt.Sprintf("location query #%d at %.3fs for phone %s", x.idx, x.inv.at.Seconds(), x.phone)
	if x.status >= 400 {
		if st == 'Y' {
			w.fail(w.tags("C12 C10 C17", i, nil), "geo-refused", "%s was refused (%d %s), the terminal is registered", at, x.status, x.body)
		}
		return
	}
	if st == 'N' {
		w.fail("C12 C08 "+whyTags(why), "geo-ghost:"+why, "%s was answered with %d although it is not registered (%s): %s", at, x.status, why, head([]byte(x.body)))
		return
	}
	var locs []*Req
	for _, q := range w.hist[i].reqs {
		if q.eff() == "loc" && q.loc != nil && !q.refused() {
			locs = append(locs, q)
		}
	}
	var outer struct {
		Gis *geoJSON `json:"gis"`
	}
	if x.body != "" {
		if err := json.Unmarshal([]byte(x.body), &outer); err != nil {
			w.fail("C12", "geo-unreadable", "%s: %v: %s", at, err, head([]byte(x.body)))
			return
		}
	}
	excluded := func(q *Req) bool { // surely from before the current registration
		qs := w.spanOf(q)
		if e != nil && sb(qs, e.sp) {
			return true
		}
		for _, e2 := range w.hist[i].epochs {
			if e2.sure && sb(e2.sp, sp) && sb(qs, e2.sp) {
				return true
			}
		}
		return false
	}
	if outer.Gis == nil || outer.Gis.Gis == nil {
		if st != 'Y' {
			return
		}
		for _, q := range locs {
			if q.acked() && sb(w.spanOf(q), sp) && !excluded(q) && sb(e.sp, w.spanOf(q)) {
				w.fail(w.tags("C12", i, nil), "geo-none", "%s shows nothing, a report was acknowledged at %.3fs", at, q.reply.at.at.Seconds())
				return
			}
		}
		return
	}
	g := outer.Gis
	w.s.Probe("geo-content-checked")
	// the newest surely effective report, and everything not surely older
	why2, old := "nothing it reported", ""
	for _, q := range locs {
		qs := w.spanOf(q)
		d := g.diff(x.phone, q.loc)
		if d != "" {
			if near := math.Abs(g.Location.Latitude-float64(q.loc.Lat)/1e6) < 1e-7; near {
				why2 = fmt.Sprintf("like the report of %.3fs but with another %s", q.sent.at.Seconds(), d)
			}
			continue
		}
		if sb(sp, qs) {
			why2 = "a report not yet sent"
			continue
		}
		if excluded(q) {
			why2 = fmt.Sprintf("the report of %.3fs, from before the current registration", q.sent.at.Seconds())
			old = why2
			continue
		}
		stale := false
		for _, q2 := range locs {
			if q2 != q && q2.acked() && sb(w.spanOf(q2), sp) && sb(qs, w.spanOf(q2)) {
				stale = true
				why2 = fmt.Sprintf("the report of %.3fs, although a later one was acknowledged at %.3fs", q.sent.at.Seconds(), q2.reply.at.at.Seconds())
				break
			}
		}
		if stale {
			continue
		}
		return // fits
	}
	if old != "" {
		w.fail(w.tags("C12 C11 C09", i, nil), "geo-old-registration", "%s shows %s", at, old)
		return
	}
	w.fail(w.tags("C12", i, nil), "geo-content", "%s shows %s: %s", at, why2, x.body)
}

// ------------------------------------------------------------------ commands

func (w *World) judgeCommands() {
	type cmdFrame struct {
		c    *CRec
		r    *Rx
		used bool
	}
	var gets, puts []*cmdFrame
	phones := map[string]int{}
	for i := range w.sc.Idents {
		phones[w.sc.Idents[i].Phone] = i
	}
	for _, c := range w.conns {
		serials := map[uint16]int{}
		n := 0
		segs := false
		for _, q := range c.tx {
			segs = segs || q.kind == "frag"
		}
		for _, r := range c.rx {
			if r.m.ID != 0x8103 && r.m.ID != 0x8104 {
				continue
			}
			f := &cmdFrame{c: c, r: r}
			if r.m.ID == 0x8104 {
				gets = append(gets, f)
				if len(r.m.Body) != 0 {
					w.fail("C13", "cmd-body", "conn%d: parameter query with a body of %d bytes", c.idx, len(r.m.Body))
				}
			} else {
				puts = append(puts, f)
			}
			if r.m.Frag {
				w.fail("C13 C03", "cmd-fragmented", "conn%d: command marked as a fragment", c.idx)
			}
			n++
			if !(segs && n > 30000) {
				if prev, ok := serials[r.m.Serial]; ok && n-prev < 65000 {
					w.fail("C13", "cmd-serial", "conn%d: commands number %d and %d carry the same serial number %d", c.idx, prev, n, r.m.Serial)
				}
				serials[r.m.Serial] = n
			}
			i, ok := phones[r.m.Phone]
			if !ok {
				w.fail("C13", "cmd-phone", "conn%d: command for the unknown phone %s", c.idx, r.m.Phone)
				continue
			}
			if w.hist[i].wild {
				continue
			}
			t := &w.sc.Idents[i]
			if r.m.V19 != t.v19() || (t.v19() && r.m.ProtoVer != t.PV) {
				w.fail("C13 C03", "cmd-version", "conn%d: command %04x in version 2019=%v/%d, the terminal speaks %d/%d", c.idx, r.m.ID, r.m.V19, r.m.ProtoVer, t.Ver, t.PV)
			}
			conns, _ := w.binding(i, span{lo: r.at, hi: r.at})
			okc := false
			for _, b := range w.hist[i].binds {
				okc = okc || b.c == c
			}
			if !okc {
				w.fail("C13 C14 C15", "cmd-misrouted", "conn%d (from %s) received command %04x for phone %s, which is served on %s", c.idx, c.addr, r.m.ID, r.m.Phone, addrs(conns))
			}
		}
	}
	type tally struct{ must, may, got int }
	perConn := map[int]map[*CRec]*tally{}
	total := map[int]*tally{}
	for _, x := range w.https {
		if (x.kind != "getp" && x.kind != "putp") || x.refused {
			continue
		}
		i := x.id
		h := w.hist[i]
		if h.wild {
			continue
		}
		sp := obsSpan(x)
		st, why, _ := w.state(i, sp)
		conns, sure := w.binding(i, sp)
		w.judged++
		at := fmt.Sprintf("command #%d (%s) at %.3fs to phone %s", x.idx, x.kind, x.inv.at.Seconds(), x.phone)
		accepted := x.done && !x.aborted && x.status >= 200 && x.status < 300
		finished := x.done && !x.down
		rejected := finished && !accepted
		var c *CRec
		conn := byte('M') // connected?
		if sure && len(conns) == 1 {
			c = conns[0]
			t := w.closeAt(c)
			down := false
			for _, r := range w.restarts {
				if c.open.before(r.down) && r.down.at <= sp.hi.at+settle {
					down = true
				}
			}
			switch {
			case down:
			case t+2*time.Second+w.stalled() < sp.lo.at:
				conn = 'N'
			case w.resetAt(c) < sp.lo.at: // nothing can be written to it any more
				conn = 'N'
				w.s.Probe("command-after-reset")
			case t > sp.hi.at && c.ourClose.at > sp.hi.at && !w.mayExpire(c, sp.hi.at) && !c.diedByThen(sp.hi.at):
				conn = 'Y'
			}
		}
		mustRefuse := x.badBody || st == 'N' || (st == 'Y' && conn == 'N')
		mustAccept := !x.badBody && !x.unsupp && st == 'Y' && conn == 'Y'
		if finished && mustRefuse && (accepted || x.status < 400 || x.status > 499) {
			w.fail("C13 C14 "+map[bool]string{true: whyTags(why), false: ""}[st == 'N' && !x.badBody], "cmd-not-refused", "%s: answered %d, it should have been refused (registered=%c %s, connected=%c, bad body=%v)", at, x.status, st, why, conn, x.badBody)
		}
		if finished && mustAccept && rejected {
			w.fail(w.tags("C13 C15", i, c), "cmd-refused", "%s: refused with %d %s although the terminal is registered and connected on conn%d", at, x.status, x.body, c.idx)
		}
		healthy := false
		if c != nil && accepted && mustAccept {
			lim := sp.hi.at + settle + w.connSlack(c) + w.stalled()
			healthy = lim < w.runEnd.at && w.closeAt(c) > lim && c.ourClose.at > lim && !c.vanished
		}
		if x.kind == "putp" {
			var mine []*cmdFrame
			for _, f := range puts {
				if f.used || f.r.m.Phone != x.phone || f.r.at.before(x.inv) {
					continue
				}
				ps, err := parseParams(f.r.m.Body)
				if x.badBody {
					continue
				}
				if len(x.params) > 0 && len(ps) > 0 && ps[0].ID == x.params[0].ID && string(ps[0].Wire) == string(x.params[0].Wire) {
					f.used = true
					mine = append(mine, f)
					if err != nil {
						w.fail("C13 C03", "cmd-params-broken", "%s: conn%d received a setting whose parameters do not parse: %v", at, f.c.idx, err)
					} else if !sameParams(ps, x.params) && !x.unsupp {
						w.fail("C13", "cmd-params", "%s: conn%d received other parameters than requested: %v, requested %v", at, f.c.idx, fmtParams(ps), fmtParams(x.params))
					} else if x.unsupp && accepted {
						w.fail("C13", "cmd-params-incomplete", "%s: accepted, but the command carries %d parameters only (%v)", at, len(ps), fmtParams(ps))
					}
				}
			}
			if len(mine) > 1 {
				w.fail("C13 C02", "cmd-twice", "%s: %d command frames were received", at, len(mine))
			}
			if len(mine) > 0 && rejected {
				w.fail("C13", "cmd-refused-but-sent", "%s: refused with %d, but a command frame was received on conn%d", at, x.status, mine[0].c.idx)
			}
			if len(mine) == 0 && healthy {
				w.fail(w.tags("C13 C15", i, c), "cmd-lost", "%s: accepted, but no command arrived on conn%d", at, c.idx)
			}
			if len(mine) == 1 {
				w.s.Probe("put-delivered")
				ok := len(conns) == 0
				for _, b := range conns {
					ok = ok || b == mine[0].c
				}
				if !ok {
					w.fail("C13 C15", "cmd-wrong-conn", "%s: the command arrived on conn%d, the terminal is served on %s", at, mine[0].c.idx, addrs(conns))
				}
			}
			continue
		}
		if perConn[i] == nil {
			perConn[i] = map[*CRec]*tally{}
			total[i] = &tally{}
		}
		if !rejected {
			total[i].may++
			for _, b := range conns {
				if perConn[i][b] == nil {
					perConn[i][b] = &tally{}
				}
				perConn[i][b].may++
			}
		}
		if healthy {
			if perConn[i][c] == nil {
				perConn[i][c] = &tally{}
			}
			perConn[i][c].must++
		}
	}
	for _, f := range puts {
		if !f.used {
			i, ok := phones[f.r.m.Phone]
			if ok && w.hist[i].wild {
				continue
			}
			w.fail("C13 C03 C02", "cmd-unasked", "conn%d: received a parameter setting that nobody requested (or a second time) at %.3fs: % x", f.c.idx, f.r.at.at.Seconds(), head(f.r.m.Body))
		}
	}
	got := map[int]map[*CRec]int{}
	for _, f := range gets {
		i, ok := phones[f.r.m.Phone]
		if !ok || w.hist[i].wild {
			continue
		}
		if got[i] == nil {
			got[i] = map[*CRec]int{}
		}
		got[i][f.c]++
		if total[i] == nil {
			total[i] = &tally{}
		}
		total[i].got++
	}
	for i := range w.sc.Idents {
		t := total[i]
		if t == nil {
			continue
		}
		if t.got > t.may {
			w.fail("C13 C02", "query-unasked", "phone %s: %d parameter queries received, only %d were requested and not refused", w.sc.Idents[i].Phone, t.got, t.may)
		}
		for _, c := range w.conns {
			n := got[i][c]
			if n == 0 {
				continue
			}
			p := perConn[i][c]
			if p == nil || n > p.may {
				w.fail("C13 C15", "query-wrong-conn", "phone %s: conn%d received %d parameter queries, more than were requested while the terminal was served there", w.sc.Idents[i].Phone, c.idx, n)
			}
		}
		for _, c := range w.conns {
			p := perConn[i][c]
			if p == nil {
				continue
			}
			if got[i][c] < p.must {
				w.fail(w.tags("C13 C15", i, c), "query-lost", "phone %s: conn%d received %d parameter queries, %d were accepted", w.sc.Idents[i].Phone, c.idx, got[i][c], p.must)
			}
			if p.must > 0 {
				w.s.Probe("get-delivered")
			}
		}
	}
}

// diedByThen: something was sent that may have made the server give up the connection.
func (c *CRec) diedByThen(t time.Duration) bool {
	if c.mayDie && c.mayDieAt.at <= t {
		return true
	}
	for _, q := range c.tx {
		if q.idx >= c.mayDieIdx && q.sent.at <= t {
			return true
		}
	}
	return false
}

func fmtParams(ps []Param) string {
	var o []string
	for _, p := range ps {
		o = append(o, fmt.Sprintf("%04x=%x", p.ID, p.Wire))
	}
	return strings.Join(o, " ")
}
