package raftimpl

import (
	"common/proto/msg"
	"common/response"
	"common/util"
	"errors"
	"fmt"
	"math/rand"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"reflect"
	"testing"

	"github.com/hashicorp/raft"
	"github.com/tinylib/msgp/msgp"
)

// vStore stands behind all the repositories: it records every operation and answers by a fixed rule.
type vStore struct {
	log []string
	seq uint64
}

var vErrs = []error{nil, nil, nil, nil, usecase.ErrNotFound, usecase.ErrOldData, usecase.ErrExists, errors.New("disk gone"),
	fmt.Errorf("wrapped: %w", usecase.ErrExists), response.Err{Status: 418, Message: "teapot"}, response.NewError(201, "made")}

func (s *vStore) op(name, obj string, num uint64, pay any) error {
	s.log = append(s.log, fmt.Sprintf("%s %q %d %+v", name, obj, num, pay))
	h := len(s.log)*7 + len(obj)*3 + int(num%5)
	return vErrs[h%len(vErrs)]
}

func vVer(v *msg.Version) msg.Version {
	c := *v
	c.Sequence = 0
	c.Locate = append([]string{}, v.Locate...)
	return c
}

func vMeta(m *msg.Metadata) string {
	return fmt.Sprint(m.Name, "|", m.Bucket, "|", m.CreateTime, "|", m.UpdateTime)
}

func vBuck(b *msg.Bucket) msg.Bucket {
	c := *b
	c.Policies = append([]string{}, b.Policies...)
	return c
}

type vMetaW struct{ s *vStore }

func (w *vMetaW) AddMetadata(n string, m *msg.Metadata) error {
	if m == nil {
		return usecase.ErrNilData
	}
	return w.s.op("add-object", n, 0, vMeta(m))
}
func (w *vMetaW) UpdateMetadata(n string, m *msg.Metadata) error {
	if m == nil {
		return usecase.ErrNilData
	}
	err := w.s.op("update-object", n, 0, vMeta(m))
	m.CreateTime, m.Bucket = -5, "spoilt"
	return err
}
func (w *vMetaW) RemoveMetadata(n string) error { return w.s.op("remove-object", n, 0, nil) }
func (w *vMetaW) AddVersion(n string, v *msg.Version) error {
	if v == nil {
		return usecase.ErrNilData
	}
	err := w.s.op("add-version", n, 0, vVer(v))
	w.s.seq += 3
	v.Sequence = w.s.seq
	return err
}
func (w *vMetaW) AddVersionFromRaft(n string, v *msg.Version) error {
	if v == nil {
		return usecase.ErrNilData
	}
	return w.s.op("migrate-version", n, v.Sequence, vVer(v))
}
func (w *vMetaW) UpdateVersion(n string, v *msg.Version) error {
	if v == nil {
		return usecase.ErrNilData
	}
	err := w.s.op("update-version", n, v.Sequence, vVer(v))
	v.Sequence, v.Hash, v.UniqueId = 99, "spoilt", "spoilt"
	return err
}
func (w *vMetaW) RemoveVersion(n string, q uint64) error { return w.s.op("remove-version", n, q, nil) }
func (w *vMetaW) RemoveAllVersion(n string) error        { return w.s.op("remove-versions", n, 0, nil) }
func (w *vMetaW) Sync() error                            { return nil }

type vBuckW struct{ s *vStore }

func (w *vBuckW) Create(b *msg.Bucket) error {
	if b == nil {
		return usecase.ErrNilData
	}
	return w.s.op("create-bucket", b.Name, 0, vBuck(b))
}
func (w *vBuckW) Update(b *msg.Bucket) error {
	if b == nil {
		return usecase.ErrNilData
	}
	err := w.s.op("update-bucket", b.Name, 0, vBuck(b))
	b.CreateTime = -7
	return err
}
func (w *vBuckW) Remove(n string) error { return w.s.op("remove-bucket", n, 0, nil) }
func (w *vBuckW) Sync() error           { return nil }

type vMetaDirect struct {
	usecase.IMetadataRepo
	*vMetaW
}

func (d *vMetaDirect) AddMetadata(n string, m *msg.Metadata) error       { return d.vMetaW.AddMetadata(n, m) }
func (d *vMetaDirect) UpdateMetadata(n string, m *msg.Metadata) error    { return d.vMetaW.UpdateMetadata(n, m) }
func (d *vMetaDirect) RemoveMetadata(n string) error                     { return d.vMetaW.RemoveMetadata(n) }
func (d *vMetaDirect) AddVersion(n string, v *msg.Version) error         { return d.vMetaW.AddVersion(n, v) }
func (d *vMetaDirect) AddVersionFromRaft(n string, v *msg.Version) error { return d.vMetaW.AddVersionFromRaft(n, v) }
func (d *vMetaDirect) UpdateVersion(n string, v *msg.Version) error      { return d.vMetaW.UpdateVersion(n, v) }
func (d *vMetaDirect) RemoveVersion(n string, q uint64) error            { return d.vMetaW.RemoveVersion(n, q) }
func (d *vMetaDirect) RemoveAllVersion(n string) error                   { return d.vMetaW.RemoveAllVersion(n) }

type vMetaBatch struct {
	usecase.IBatchMetaRepo
	*vMetaDirect
}

func (d *vMetaBatch) AddMetadata(n string, m *msg.Metadata) error       { return d.vMetaW.AddMetadata(n, m) }
func (d *vMetaBatch) UpdateMetadata(n string, m *msg.Metadata) error    { return d.vMetaW.UpdateMetadata(n, m) }
func (d *vMetaBatch) RemoveMetadata(n string) error                     { return d.vMetaW.RemoveMetadata(n) }
func (d *vMetaBatch) AddVersion(n string, v *msg.Version) error         { return d.vMetaW.AddVersion(n, v) }
func (d *vMetaBatch) AddVersionFromRaft(n string, v *msg.Version) error { return d.vMetaW.AddVersionFromRaft(n, v) }
func (d *vMetaBatch) UpdateVersion(n string, v *msg.Version) error      { return d.vMetaW.UpdateVersion(n, v) }
func (d *vMetaBatch) RemoveVersion(n string, q uint64) error            { return d.vMetaW.RemoveVersion(n, q) }
func (d *vMetaBatch) RemoveAllVersion(n string) error                   { return d.vMetaW.RemoveAllVersion(n) }
func (d *vMetaBatch) Sync() error                                       { return nil }

type vBuckDirect struct {
	usecase.BucketRepo
	w *vBuckW
}

func (d *vBuckDirect) Create(b *msg.Bucket) error { return d.w.Create(b) }
func (d *vBuckDirect) Update(b *msg.Bucket) error { return d.w.Update(b) }
func (d *vBuckDirect) Remove(n string) error      { return d.w.Remove(n) }

type vBuckBatch struct {
	usecase.BatchBucketRepo
	w *vBuckW
}

func (d *vBuckBatch) Create(b *msg.Bucket) error { return d.w.Create(b) }
func (d *vBuckBatch) Update(b *msg.Bucket) error { return d.w.Update(b) }
func (d *vBuckBatch) Remove(n string) error      { return d.w.Remove(n) }
func (d *vBuckBatch) Sync() error                { return nil }

func vMachine() (*FSMImpl, *vStore) {
	s := &vStore{}
	m, b := &vMetaW{s}, &vBuckW{s}
	dm := &vMetaDirect{vMetaW: m}
	f := NewFSM(dm, &vMetaBatch{vMetaDirect: dm}, &vBuckDirect{w: b}, &vBuckBatch{w: b}, nil)
	return f.(*FSMImpl), s
}

// vWant applies an entry by the rules: known tells whether the entry names an operation with all it needs.
func vWant(s *vStore, d *entity.RaftData) (known bool, err error, num uint64, numbered bool) {
	m, b := &vMetaW{s}, &vBuckW{s}
	var meta msg.Metadata
	if d.Metadata != nil {
		meta = *d.Metadata
	}
	var ver msg.Version
	if d.Version != nil {
		ver = *d.Version
	}
	var buck msg.Bucket
	if d.Bucket != nil {
		buck = *d.Bucket
	}
	type k struct {
		d entity.Dest
		t entity.LogType
	}
	switch (k{d.Dest, d.Type}) {
	case k{entity.DestMetadata, entity.LogInsert}:
		if known = d.Metadata != nil; known {
			err = m.AddMetadata(d.Name, &meta)
		}
	case k{entity.DestMetadata, entity.LogUpdate}:
		if known = d.Metadata != nil; known {
			err = m.UpdateMetadata(d.Name, &meta)
		}
	case k{entity.DestMetadata, entity.LogRemove}:
		known, err = true, m.RemoveMetadata(d.Name)
	case k{entity.DestVersion, entity.LogInsert}:
		if known = d.Version != nil; known {
			err = m.AddVersion(d.Name, &ver)
			num, numbered = ver.Sequence, err == nil
		}
	case k{entity.DestVersion, entity.LogMigrate}:
		if known = d.Version != nil; known {
			err = m.AddVersionFromRaft(d.Name, &ver)
		}
	case k{entity.DestVersion, entity.LogUpdate}:
		if known = d.Version != nil; known {
			ver.Sequence = d.Sequence
			err = m.UpdateVersion(d.Name, &ver)
		}
	case k{entity.DestVersion, entity.LogRemove}:
		known, err = true, m.RemoveVersion(d.Name, d.Sequence)
	case k{entity.DestVersionAll, entity.LogRemove}:
		known, err = true, m.RemoveAllVersion(d.Name)
	case k{entity.DestBucket, entity.LogInsert}:
		if known = d.Bucket != nil; known {
			err = b.Create(&buck)
		}
	case k{entity.DestBucket, entity.LogUpdate}:
		if known = d.Bucket != nil; known {
			err = b.Update(&buck)
		}
	case k{entity.DestBucket, entity.LogRemove}:
		known, err = true, b.Remove(d.Name)
	}
	return
}

func vEntry(r *rand.Rand) *entity.RaftData {
	d := &entity.RaftData{Name: []string{"", "a", "b/图", "c"}[r.Intn(4)]}
	d.Type = []entity.LogType{entity.LogInsert, entity.LogRemove, entity.LogUpdate, entity.LogMigrate}[r.Intn(4)]
	d.Dest = []entity.Dest{entity.DestVersion, entity.DestVersionAll, entity.DestMetadata, entity.DestBucket}[r.Intn(4)]
	if r.Intn(12) == 0 {
		d.Type = entity.LogType(r.Intn(256) - 128)
	}
	if r.Intn(12) == 0 {
		d.Dest = entity.Dest(r.Intn(256) - 128)
	}
	if r.Intn(3) > 0 {
		d.Sequence = []uint64{0, 1, 2, 77, 1 << 63}[r.Intn(5)]
	}
	if r.Intn(3) > 0 {
		d.Version = &msg.Version{Compress: r.Intn(2) == 0, StoreStrategy: int8(r.Intn(3)), DataShards: int32(r.Intn(5)), ParityShards: int32(r.Intn(3)),
			ShardSize: r.Int63n(9), Size: r.Int63n(9), Ts: r.Int63n(9), Sequence: uint64(r.Intn(5)), Hash: fmt.Sprint("h", r.Intn(4)), UniqueId: fmt.Sprint("u", r.Intn(4))}
		for i := r.Intn(4); i > 0; i-- {
			d.Version.Locate = append(d.Version.Locate, fmt.Sprint("l", r.Intn(9)))
		}
	}
	if r.Intn(3) > 0 {
		d.Metadata = &msg.Metadata{Name: fmt.Sprint("n", r.Intn(4)), Bucket: fmt.Sprint("b", r.Intn(4)), CreateTime: r.Int63n(9), UpdateTime: r.Int63n(9)}
	}
	if r.Intn(3) > 0 {
		d.Bucket = &msg.Bucket{Versioning: r.Intn(2) == 0, Readonly: r.Intn(2) == 0, Compress: r.Intn(2) == 0, StoreStrategy: int8(r.Intn(3)), DataShards: int32(r.Intn(5)),
			ParityShards: int32(r.Intn(3)), VersionRemains: int32(r.Intn(5)), CreateTime: r.Int63n(9), UpdateTime: r.Int63n(9), Name: fmt.Sprint("k", r.Intn(4))}
		for i := r.Intn(3); i > 0; i-- {
			d.Bucket.Policies = append(d.Bucket.Policies, fmt.Sprint("p", i))
		}
	}
	return d
}

// vBytes writes an entry, leaving out what is absent now and then, as other writers of the format may.
func vBytes(r *rand.Rand, d *entity.RaftData) []byte {
	if r.Intn(3) > 0 {
		bt, err := util.EncodeMsgp(d)
		if err != nil {
			panic(err)
		}
		return bt
	}
	n := uint32(2)
	var o []byte
	o = msgp.AppendString(o, "type")
	o = msgp.AppendInt8(o, int8(d.Type))
	o = msgp.AppendString(o, "dest")
	o = msgp.AppendInt8(o, int8(d.Dest))
	if d.Name != "" {
		n++
		o = msgp.AppendString(o, "name")
		o = msgp.AppendString(o, d.Name)
	}
	if d.Sequence != 0 {
		n++
		o = msgp.AppendString(o, "sequence")
		o = msgp.AppendUint64(o, d.Sequence)
	}
	if d.Version != nil {
		n++
		o = msgp.AppendString(o, "version")
		o, _ = d.Version.MarshalMsg(o)
	}
	if d.Metadata != nil {
		n++
		o = msgp.AppendString(o, "metadata")
		o, _ = d.Metadata.MarshalMsg(o)
	}
	if d.Bucket != nil {
		n++
		o = msgp.AppendString(o, "bucket")
		o, _ = d.Bucket.MarshalMsg(o)
	}
	return append(msgp.AppendMapHeader(nil, n), o...)
}

func vJudge(res any, known bool, err error, num uint64, numbered bool) string {
	fr, ok := res.(*FSMResponse)
	if !known {
		if ok && fr.ToError() == nil || res == nil {
			return fmt.Sprintf("expected an error, the outcome is %+v", res)
		}
		return ""
	}
	if !ok {
		return fmt.Sprintf("expected the outcome of the operation (%v), got %#v", err, res)
	}
	got := fr.ToError()
	if errors.Is(err, usecase.ErrExists) {
		err = nil // a repeated creation counts as done
	}
	want := 200
	var re response.Err
	if p, ok := err.(*response.Err); ok {
		re = *p
	} else if v, ok := err.(response.Err); ok {
		re = v
	} else if err != nil {
		re = response.Err{Status: 500, Message: err.Error()}
	}
	if err != nil {
		want = re.Status
	}
	if (want/100 == 2) != (got == nil) || got != nil && (got.(response.IErr).GetStatus() != re.Status || got.(response.IErr).GetMessage() != re.Message) {
		return fmt.Sprintf("the operation ended with %v (%+v), the outcome says %v", err, re, got)
	}
	if numbered && !reflect.DeepEqual(fr.Data, num) {
		return fmt.Sprintf("the version got number %d, the outcome says %v", num, fr.Data)
	}
	return ""
}

// Random lists of entries, applied one by one and in batches, against recorded operations.
func TestVerifM05Entries(t *testing.T) {
	r := vRand()
	total := 0
	for c := 0; c < vN(3000) && !t.Failed(); c++ {
		n := r.Intn(8)
		var logs []*raft.Log
		var ds []*entity.RaftData // nil: not an entry
		for i := 0; i < n; i++ {
			total++
			d := vEntry(r)
			switch r.Intn(14) {
			case 0:
				logs, ds = append(logs, nil), append(ds, nil)
			case 1:
				logs, ds = append(logs, &raft.Log{Type: raft.LogCommand}), append(ds, nil)
			case 2:
				logs, ds = append(logs, &raft.Log{Type: raft.LogNoop, Data: vBytes(r, d)}), append(ds, nil)
			case 3:
				bt := vBytes(r, d)
				logs, ds = append(logs, &raft.Log{Type: raft.LogCommand, Data: bt[:1+r.Intn(len(bt)-1)]}), append(ds, nil)
				if len(logs[i].Data) == len(bt) {
					ds[i] = d
				}
			default:
				logs, ds = append(logs, &raft.Log{Type: raft.LogCommand, Data: vBytes(r, d)}), append(ds, d)
				vSig(t, fmt.Sprintf("%d %d %q %d v=%v m=%v b=%v", d.Type, d.Dest, d.Name, d.Sequence, d.Version != nil, d.Metadata != nil, d.Bucket != nil))
			}
			if i > 0 && r.Intn(6) == 0 {
				j := r.Intn(i)
				logs[i], ds[i] = logs[j], ds[j]
			}
		}
		desc := func() string {
			o := ""
			for i, d := range ds {
				if d == nil {
					o += fmt.Sprintf(" [%d: no entry %v]", i, logs[i])
				} else {
					o += fmt.Sprintf(" [%d: %+v version %+v metadata %+v bucket %+v]", i, *d, d.Version, d.Metadata, d.Bucket)
				}
			}
			return o
		}
		for _, how := range []string{"one by one", "batch"} {
			f, s := vMachine()
			var res []any
			vCatch(t, how, desc, func() {
				if how == "batch" {
					res = f.ApplyBatch(logs)
				} else {
					for _, l := range logs {
						res = append(res, f.Apply(l))
					}
				}
				if len(res) != len(logs) {
					vFail(t, how, "%d outcomes for %d entries%s", len(res), len(logs), desc())
					return
				}
				m := &vStore{}
				for i, d := range ds {
					var known, numbered bool
					var err error
					var num uint64
					if d != nil {
						known, err, num, numbered = vWant(m, d)
					}
					if e := vJudge(res[i], known, err, num, numbered); e != "" {
						vFail(t, how, "%s, entry %d: %s;%s", how, i, e, desc())
						return
					}
				}
				if fmt.Sprint(s.log) != fmt.Sprint(m.log) {
					vFail(t, how, "%s: the operations done are %q, expected %q;%s", how, s.log, m.log, desc())
				}
			})
		}
	}
	vDone(t, total)
}
