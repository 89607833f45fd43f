package service

import (
	"common/proto/msg"
	"errors"
	"fmt"
	"math/rand"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/raftimpl"
	"reflect"
	"sort"
	"strings"
	"testing"
)

// vBack stands behind the service: the store itself, reached directly or through the replicated log.
type vBack struct {
	log    []string
	seq    uint64
	fail   error
	vers   map[string]map[uint64]*msg.Version
	metas  map[string]*msg.Metadata
	broken map[string]bool // reading these versions fails for another reason than being absent
	index  []string
	synced bool
	mode   int // 0: apply directly, 1: through the log, 2: the log fails
}

var errVLog, errVDisk = errors.New("no leader"), errors.New("disk gone")

func vPay(v *msg.Version) string {
	return fmt.Sprint(v.Compress, v.StoreStrategy, v.DataShards, v.ParityShards, v.ShardSize, v.Size, v.Hash, v.Locate)
}

func (b *vBack) op(s string, a ...any) error {
	if b.fail == nil {
		b.log = append(b.log, fmt.Sprintf(s, a...))
	}
	return b.fail
}

type vRepo struct {
	usecase.IMetadataRepo
	b *vBack
}

func (r *vRepo) AddMetadata(n string, m *msg.Metadata) error {
	return r.b.op("add-object %q %s %s", n, m.Name, m.Bucket)
}
func (r *vRepo) UpdateMetadata(n string, m *msg.Metadata) error {
	return r.b.op("update-object %q %s %s", n, m.Name, m.Bucket)
}
func (r *vRepo) RemoveMetadata(n string) error { return r.b.op("remove-object %q", n) }
func (r *vRepo) AddVersion(n string, v *msg.Version) error {
	err := r.b.op("add-version %q %s", n, vPay(v))
	r.b.seq++
	v.Sequence = r.b.seq
	return err
}
func (r *vRepo) AddVersionFromRaft(n string, v *msg.Version) error {
	return r.b.op("migrate-version %q %d %s", n, v.Sequence, vPay(v))
}
func (r *vRepo) UpdateVersion(n string, v *msg.Version) error {
	return r.b.op("update-version %q %d %s", n, v.Sequence, vPay(v))
}
func (r *vRepo) RemoveVersion(n string, q uint64) error { return r.b.op("remove-version %q %d", n, q) }
func (r *vRepo) RemoveAllVersion(n string) error        { return r.b.op("remove-versions %q", n) }
func (r *vRepo) GetMetadata(n string) (*msg.Metadata, error) {
	if m, ok := r.b.metas[n]; ok {
		c := *m
		return &c, nil
	}
	return nil, usecase.ErrNotFound
}
func (r *vRepo) GetExtra(n string) (*msg.Extra, error) {
	first, last := vEnds(r.b.vers[n])
	return &msg.Extra{Total: len(r.b.vers[n]), FirstVersion: int(first), LastVersion: int(last)}, nil
}
func vEnds(m map[uint64]*msg.Version) (first, last uint64) {
	for q := range m {
		if q > last {
			last = q
		}
		if first == 0 || q < first {
			first = q
		}
	}
	return
}
func (r *vRepo) GetLastVersionNumber(n string) uint64  { _, l := vEnds(r.b.vers[n]); return l }
func (r *vRepo) GetFirstVersionNumber(n string) uint64 { f, _ := vEnds(r.b.vers[n]); return f }
func (r *vRepo) GetVersion(n string, q uint64) (*msg.Version, error) {
	if r.b.broken[fmt.Sprint(n, ".", q)] {
		return nil, errVDisk
	}
	if v, ok := r.b.vers[n][q]; ok {
		c := *v
		return &c, nil
	}
	return nil, usecase.ErrNotFound
}

type vIndex struct{ b *vBack }

func (i *vIndex) FindAll(h string) ([]string, error) { return append([]string{}, i.b.index...), nil }
func (i *vIndex) Remove(h, k string) error {
	i.b.log = append(i.b.log, "drop "+h+" "+k)
	return nil
}
func (i *vIndex) Sync() error { i.b.synced = true; return nil }

type vLog struct {
	b *vBack
	r *vRepo
}

// ApplyRaft does what the state machine does with an entry.
func (l *vLog) ApplyRaft(d *entity.RaftData) (bool, any, error) {
	switch l.b.mode {
	case 0:
		return false, nil, nil
	case 2:
		return true, nil, errVLog
	}
	switch d.Dest {
	case entity.DestMetadata:
		switch d.Type {
		case entity.LogInsert:
			return true, nil, l.r.AddMetadata(d.Name, d.Metadata)
		case entity.LogUpdate:
			return true, nil, l.r.UpdateMetadata(d.Name, d.Metadata)
		case entity.LogRemove:
			return true, nil, l.r.RemoveMetadata(d.Name)
		}
	case entity.DestVersion:
		switch d.Type {
		case entity.LogInsert:
			c := *d.Version
			err := l.r.AddVersion(d.Name, &c)
			return true, c.Sequence, err
		case entity.LogMigrate:
			return true, nil, l.r.AddVersionFromRaft(d.Name, d.Version)
		case entity.LogUpdate:
			c := *d.Version
			c.Sequence = d.Sequence
			return true, nil, l.r.UpdateVersion(d.Name, &c)
		case entity.LogRemove:
			return true, nil, l.r.RemoveVersion(d.Name, d.Sequence)
		}
	case entity.DestVersionAll:
		if d.Type == entity.LogRemove {
			return true, nil, l.r.RemoveAllVersion(d.Name)
		}
	}
	return true, nil, usecase.ErrUnknownRaftLog
}

func vService(b *vBack) *MetadataService {
	r := &vRepo{b: b}
	s := NewMetadataService(r, nil, &vIndex{b}, &raftimpl.RaftWrapper{})
	s.RaftApply = &vLog{b, r}
	return s
}

var vNames = []string{"a", "bucket/obj", "bucket/obj.tar.gz", "v1.2", ".", "bucket/.hidden", "名.字"}

// vWrites calls the operations and compares what reached the store with what was asked.
func vWrites(t *testing.T, n int, only map[string]bool) {
	defer func() { vDone(t, n) }()
	rnd := vRand()
	for i := 0; i < n; i++ {
		b := &vBack{mode: rnd.Intn(3), seq: uint64(rnd.Intn(50))}
		if rnd.Intn(5) == 0 {
			b.fail = errVDisk
		}
		s := vService(b)
		name := vNames[rnd.Intn(len(vNames))]
		num := rnd.Intn(4) + rnd.Intn(2)*rnd.Intn(300)
		meta := func() *msg.Metadata { return &msg.Metadata{Name: name, Bucket: fmt.Sprint("b", rnd.Intn(9))} }
		ver := func() *msg.Version {
			return &msg.Version{Hash: fmt.Sprint("h", rnd.Intn(9)), Sequence: uint64(rnd.Intn(90)), Size: rnd.Int63n(99), Compress: rnd.Intn(2) == 0, Locate: []string{"x", "y"}[:rnd.Intn(3)]}
		}
		var err error
		var want string
		kind := []string{"add-object", "update-object", "remove-object", "add-version", "migrate-version", "update-version", "remove-version", "remove-versions"}[rnd.Intn(8)]
		if !only[kind] {
			continue
		}
		got := 0
		desc := func() string { return fmt.Sprintf("%s of %q number %d (way %d, %v)", kind, name, num, b.mode, b.fail) }
		vSig(t, desc())
		vCatch(t, "panic", desc, func() {
			switch kind {
			case "add-object":
				m := meta()
				want = fmt.Sprintf("%s %q %s %s", kind, name, m.Name, m.Bucket)
				err = s.AddMetadata(name, m)
			case "update-object":
				m := meta()
				want = fmt.Sprintf("%s %q %s %s", kind, name, m.Name, m.Bucket)
				err = s.UpdateMetadata(name, m)
			case "remove-object":
				want = fmt.Sprintf("%s %q", kind, name)
				err = s.RemoveMetadata(name)
			case "add-version":
				v := ver()
				want = fmt.Sprintf("%s %q %s", kind, name, vPay(v))
				got, err = s.AddVersion(name, v)
				if err == nil && got != int(b.seq) {
					vFail(t, "number", "%s: told number %d, recorded as %d", desc(), got, b.seq)
				}
			case "migrate-version":
				v := ver()
				want = fmt.Sprintf("%s %q %d %s", kind, name, v.Sequence, vPay(v))
				err = s.ReceiveVersion(name, v)
			case "update-version":
				v := ver()
				want = fmt.Sprintf("%s %q %d %s", kind, name, num, vPay(v))
				err = s.UpdateVersion(name, num, v)
			case "remove-version":
				want = fmt.Sprintf("%s %q %d", kind, name, num)
				err = s.RemoveVersion(name, num)
			case "remove-versions":
				want = fmt.Sprintf("%s %q", kind, name)
				err = s.RemoveVersion(name, -1)
			}
			bad := b.fail != nil || b.mode == 2
			if bad != (err != nil) {
				vFail(t, "outcome", "%s: answered %v", desc(), err)
			}
			if bad && len(b.log) > 0 {
				vFail(t, "effect", "%s: failed but did %q", desc(), b.log)
			}
			if !bad && (len(b.log) != 1 || b.log[0] != want) {
				vFail(t, "effect", "%s: asked %q, did %q", desc(), want, b.log)
			}
		})
	}
}

func vFilled(rnd *rand.Rand) *vBack {
	b := &vBack{vers: map[string]map[uint64]*msg.Version{}, metas: map[string]*msg.Metadata{}, broken: map[string]bool{}}
	for _, n := range vNames {
		if rnd.Intn(4) == 0 {
			continue
		}
		b.metas[n] = &msg.Metadata{Name: n}
		b.vers[n] = map[uint64]*msg.Version{}
		for q := uint64(1 + rnd.Intn(3)); q < uint64(rnd.Intn(14)); q += uint64(1 + rnd.Intn(3)) {
			b.vers[n][q] = &msg.Version{Sequence: q, Hash: "H", UniqueId: fmt.Sprint(n, "#", q)}
		}
	}
	return b
}

// vReads compares one version read, and an object read with a version, with what is stored.
func vReads(t *testing.T, n int) {
	defer func() { vDone(t, n) }()
	rnd := vRand()
	for i := 0; i < n; i++ {
		b := vFilled(rnd)
		s := vService(b)
		name, num, extra := vNames[rnd.Intn(len(vNames))], rnd.Intn(16)-2, rnd.Intn(2) == 0
		if rnd.Intn(6) == 0 {
			b.broken[fmt.Sprint(name, ".", num)] = true
		}
		_, last := vEnds(b.vers[name])
		eff := uint64(num)
		if num <= 0 {
			eff = last
		}
		want, ok := b.vers[name][eff]
		broken := b.broken[fmt.Sprint(name, ".", eff)]
		desc := func() string { return fmt.Sprintf("%q number %d with %v", name, num, b.vers[name]) }
		vSig(t, desc())
		vCatch(t, "panic", desc, func() {
			v, err := s.GetVersion(name, num)
			switch {
			case broken && err != nil && v == nil:
			case !broken && ok && err == nil && v != nil && reflect.DeepEqual(*v, *want):
			case !broken && !ok && errors.Is(err, usecase.ErrNotFound) && v == nil:
			default:
				vFail(t, "version", "reading %s: %v, %v (stored %v, unreadable %v)", desc(), v, err, want, broken)
			}
			m, v, err := s.GetMetadata(name, num, extra)
			switch {
			case b.metas[name] == nil:
				if !errors.Is(err, usecase.ErrNotFound) || m != nil || v != nil {
					vFail(t, "object", "reading the absent object %s: %v, %v, %v", desc(), m, v, err)
				}
			case num != -1 && broken:
				if err == nil {
					vFail(t, "object", "reading object %s: the version could not be read, told %v, %v", desc(), m, v)
				}
			default:
				if err != nil || m == nil || m.Name != name {
					vFail(t, "object", "reading object %s: %v, %v, %v", desc(), m, v, err)
					return
				}
				if extra && (m.Extra == nil || m.Extra.Total != len(b.vers[name]) || m.Extra.LastVersion != int(last)) {
					vFail(t, "object", "reading object %s: counts %+v", desc(), m.Extra)
				}
				if (num == -1 || !ok) != (v == nil) || (v != nil && !reflect.DeepEqual(*v, *want)) {
					vFail(t, "object", "reading object %s: version %v, stored %v", desc(), v, want)
				}
			}
		})
	}
}

// vByHash looks versions up by digest: entries whose version is gone are dropped, all others answered.
func vByHash(t *testing.T, n int) {
	defer func() { vDone(t, n) }()
	rnd := vRand()
	for i := 0; i < n; i++ {
		b := vFilled(rnd)
		s := vService(b)
		var want []string
		var drop []string
		bad := false
		for _, name := range vNames {
			for q := uint64(1); q < 14; q++ {
				if rnd.Intn(5) > 0 {
					continue
				}
				k := fmt.Sprint(name, ".", q)
				b.index = append(b.index, k)
				if rnd.Intn(40) == 0 {
					b.broken[k] = true
					bad = true
				}
				if v, ok := b.vers[name][q]; ok {
					want = append(want, v.UniqueId)
				} else {
					drop = append(drop, "drop H "+k)
				}
			}
		}
		desc := func() string { return fmt.Sprintf("index %q", b.index) }
		vSig(t, desc())
		vCatch(t, "panic", desc, func() {
			res, err := s.FindByHash("H")
			if bad {
				if err == nil {
					vFail(t, "found", "%s: a version could not be read, told nothing", desc())
				}
				return
			}
			var got []string
			for _, v := range res {
				got = append(got, v.UniqueId)
			}
			sort.Strings(got)
			sort.Strings(want)
			if err != nil || strings.Join(got, "|") != strings.Join(want, "|") {
				vFail(t, "found", "%s: found %q, stored %q (%v)", desc(), got, want, err)
			}
			sort.Strings(b.log)
			sort.Strings(drop)
			if strings.Join(b.log, "|") != strings.Join(drop, "|") || (len(drop) > 0) != b.synced {
				vFail(t, "dropped", "%s: dropped %q, gone %q, written %v", desc(), b.log, drop, b.synced)
			}
		})
	}
}
