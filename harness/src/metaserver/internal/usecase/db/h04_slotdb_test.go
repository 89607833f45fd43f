package db

import (
	"common/hashslot"
	"common/util"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"
)

// Random sequences of calls on the real slot database over an in-memory etcd, compared after every call with the
// rules: one mode at a time, starts only from normal, finishes only in the mode they match, records written and
// removed only in normal mode and under the requested id, nothing after closing.
func TestVerifH04Sequences(t *testing.T) {
	r := vRand()
	ids := []string{"a", "b", "", "a/b"}
	slotSets := [][]string{{"0-10"}, {"3-7", "100-200"}, nil, {"16000-16384", "1-2", "5-9"}}
	n := 0
	for c := 0; c < vN(300); c++ {
		kv := newVEtcd()
		h := NewHashSlotDB("pre/", kv)
		mode, host, slots := StatusNormal, "", []string(nil)
		want := map[string]*hashslot.SlotInfo{}
		var log []string
		fail := func(f string, a ...any) {
			vFail(t, "sequence", "after "+strings.Join(log, ", ")+": "+f, a...)
		}
		for step := 0; step < 30 && !t.Failed(); step++ {
			n++
			id := ids[r.Intn(len(ids))]
			loc := fmt.Sprint("host", r.Intn(3))
			ss := slotSets[r.Intn(len(slotSets))]
			op := r.Intn(18)
			var err error
			accept := false
			var name string
			switch {
			case op < 2:
				name = fmt.Sprintf("start receiving %v from %s", ss, loc)
				err = h.ReadyMigrateFrom(loc, ss)
				if accept = mode == StatusNormal; accept {
					mode, host, slots = StatusMigrateFrom, loc, ss
				}
			case op < 4:
				name = fmt.Sprintf("start giving %v to %s", ss, loc)
				err = h.ReadyMigrateTo(loc, ss)
				if accept = mode == StatusNormal; accept {
					mode, host, slots = StatusMigrateTo, loc, ss
				}
			case op < 7:
				name = "finish receiving"
				err = h.FinishMigrateFrom()
				if accept = mode == StatusMigrateFrom; accept {
					mode, host, slots = StatusNormal, "", nil
				}
			case op < 10:
				name = "finish giving"
				err = h.FinishMigrateTo()
				if accept = mode == StatusMigrateTo; accept {
					mode, host, slots = StatusNormal, "", nil
				}
			case op < 13:
				info := &hashslot.SlotInfo{GroupID: ids[r.Intn(len(ids))], ServerID: loc, Slots: append([]string{}, ss...)}
				name = fmt.Sprintf("save %q %v", id, *info)
				err = h.Save(id, info)
				if accept = mode == StatusNormal; accept {
					want[id] = &hashslot.SlotInfo{GroupID: id, ServerID: loc, Slots: ss}
				}
			case op < 15:
				name = fmt.Sprintf("remove %q", id)
				err = h.Remove(id)
				if accept = mode == StatusNormal; accept {
					delete(want, id)
				}
			case op < 16:
				name = "save while etcd is down"
				kv.fail = errors.New("down")
				err = h.Save(id, &hashslot.SlotInfo{ServerID: "x"})
				kv.fail = nil
			case op < 17 && step > 20:
				name = "close"
				done := make(chan error, 1)
				if mode == StatusNormal || c%10 == 0 {
					go func() { done <- h.Close(time.Millisecond) }()
					select {
					case err = <-done:
					case <-time.After(10 * time.Second):
						fail("closing does not return")
						return
					}
					if accept = mode == StatusNormal; accept {
						mode = StatusClosed
					}
				} else {
					name = ""
				}
			default:
				name = ""
			}
			if name == "" {
				continue
			}
			log = append(log, name)
			vCase(t, fmt.Sprint(name, mode))
			if (err == nil) != accept {
				fail("accepted: %v, should be %v", err == nil, accept)
			}
			if h.IsNormal() != (mode == StatusNormal) {
				fail("normal: %v in mode %d", h.IsNormal(), mode)
			}
			for _, q := range []struct {
				name string
				f    func() (bool, string, []string)
				m    int32
			}{{"giving", h.GetMigrateTo, StatusMigrateTo}, {"receiving", h.GetMigrateFrom, StatusMigrateFrom}} {
				ok, peer, got := q.f()
				if ok != (mode == q.m) {
					fail("%s: %v in mode %d", q.name, ok, mode)
				}
				if mode != StatusClosed && (peer != host || len(got) != len(slots) || len(got) > 0 && !reflect.DeepEqual(got, slots)) {
					fail("reported peer %q and slots %v, should be %q and %v", peer, got, host, slots)
				}
			}
			if len(kv.data) != len(want) {
				fail("%d records stored, should be %d", len(kv.data), len(want))
			}
			for id, w := range want {
				e, ok := kv.data["pre/"+id]
				if !ok {
					fail("no record of %q is stored", id)
					continue
				}
				var got hashslot.SlotInfo
				if err := util.DecodeMsgp(&got, e.Value); err != nil || got.GroupID != id || got.ServerID != w.ServerID || fmt.Sprint(got.Slots) != fmt.Sprint(w.Slots) {
					fail("stored record of %q is %v (%v), should be %v", id, got, err, *w)
				}
				back, ok, err := h.Get(id)
				if err != nil || !ok || back.GroupID != id || back.ServerID != w.ServerID || fmt.Sprint(back.Slots) != fmt.Sprint(w.Slots) {
					fail("record of %q reads as %v %v %v, should be %v", id, back, ok, err, *w)
				}
			}
			for _, id := range ids {
				if _, ok := want[id]; !ok {
					if back, ok, err := h.Get(id); ok || err != nil {
						fail("record of %q reads as %v %v %v but there is none", id, back, ok, err)
					}
				}
			}
		}
		if t.Failed() {
			return
		}
	}
	vDone(t, n)
}

// a closing that has to wait closes once the migration has ended, and not before
func TestVerifH04CloseWaits(t *testing.T) {
	h := NewHashSlotDB("pre/", newVEtcd())
	vCase(t, "close waits")
	if err := h.ReadyMigrateTo("x", []string{"0-1"}); err != nil {
		vFail(t, "close", "start refused: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- h.Close(20 * time.Second) }()
	select {
	case err := <-done:
		vFail(t, "close", "closed (%v) during a migration", err)
	case <-time.After(200 * time.Millisecond):
	}
	if ok, peer, _ := h.GetMigrateTo(); !ok || peer != "x" {
		vFail(t, "close", "waiting to close changed the migration: %v %q", ok, peer)
	}
	if err := h.FinishMigrateTo(); err != nil {
		vFail(t, "close", "finish refused while closing waits: %v", err)
	}
	select {
	case err := <-done:
		if err != nil {
			vFail(t, "close", "closing failed: %v", err)
		}
	case <-time.After(15 * time.Second):
		vFail(t, "close", "closing does not end after the migration did")
	}
	if h.ReadyMigrateFrom("y", nil) == nil || h.ReadyMigrateTo("y", nil) == nil || h.Save("a", &hashslot.SlotInfo{}) == nil || h.Remove("a") == nil {
		vFail(t, "close", "a closed database accepts a call")
	}
	vDone(t, 1)
}
