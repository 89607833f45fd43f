package db

import (
	"common/system"
	"common/util"
	"fmt"
	"testing"
	"time"
)

func TestVerifT01Timeline(t *testing.T) {
	r := vRand()
	n := 0
	for i := 0; i < vN(40); i++ {
		st := newStatTimeline()
		var cpu, mem []*TimeStat
		m := r.Intn(200)
		for j := 0; j < m; j++ {
			c := &TimeStat{Time: time.Unix(int64(j), 0), Percent: float64(r.Intn(100))}
			e := &TimeStat{Time: time.Unix(int64(j), 0), Percent: float64(r.Intn(100))}
			st.Append(c, e)
			cpu, mem = append(cpu, c), append(mem, e)
			n++
			if r.Intn(10) == 0 || j == m-1 {
				same := func(what string, got, all []*TimeStat) {
					want := all
					if len(got) < len(want) && len(got) >= 1 && len(got) == maxTimeStat {
						want = want[len(want)-len(got):]
					}
					if len(got) > maxTimeStat || fmt.Sprint(got) != fmt.Sprint(want) {
						vFail(t, what, "after %d samples the history has %d, not the newest in order", len(all), len(got))
					}
				}
				same("cpu", st.CPUTimeline(), cpu)
				same("mem", st.MEMTimeline(), mem)
			}
		}
		vSig(t, fmt.Sprint(m))
	}
	// per server
	sdb := &ServerStatDB{timeline: map[string]map[string]*statTimeline{}}
	want := map[string]map[string][]float64{}
	for i := 0; i < vN(500); i++ {
		s, id := fmt.Sprintf("s%d", r.Intn(3)), fmt.Sprintf("n%d", r.Intn(3))
		info := system.ZeroInfo()
		info.CpuStatus.UsedPercent = float64(r.Intn(100))
		info.MemStatus.All, info.MemStatus.Used = 100, uint64(r.Intn(101))
		b, err := util.EncodeMsgp(info)
		if err != nil {
			t.Fatal(err)
		}
		if err := sdb.addStat(s, []byte("g/"+s+"/"+id), b); err != nil {
			vFail(t, "add", "addStat: %v", err)
		}
		if want[s] == nil {
			want[s] = map[string][]float64{}
		}
		want[s][id] = append(want[s][id], info.CpuStatus.UsedPercent)
		n++
	}
	for s := range want {
		tl := sdb.GetTimeline(s)
		if len(tl) != len(want[s]) {
			vFail(t, "servers", "%s has histories of %d servers, want %d", s, len(tl), len(want[s]))
		}
		for id, w := range want[s] {
			got := tl[id].CPUTimeline()
			if len(w) > maxTimeStat {
				w = w[len(w)-maxTimeStat:]
			}
			for i := range got {
				if len(got) != len(w) || got[i].Percent != w[i] {
					vFail(t, "server", "%s/%s: sample %d of %d differs", s, id, i, len(got))
					break
				}
				if i > 0 && got[i].Time.Before(got[i-1].Time) {
					vFail(t, "order", "%s/%s: samples out of order", s, id)
				}
			}
		}
	}
	vDone(t, n)
}
