package performance

// An in-memory stand-in for an etcd key-value client. It follows the rules of the real client and server that
// matter here: a transaction's Then can be called once, holds at most 128 operations and no key twice.

import (
	"bytes"
	"context"
	"errors"
	"sort"
	"sync"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type vEtcd struct {
	mu   sync.Mutex
	rev  int64
	data map[string]*mvccpb.KeyValue
	fail error // answered by every request when set
}

func newVEtcd() *vEtcd { return &vEtcd{data: map[string]*mvccpb.KeyValue{}} }

func (e *vEtcd) keys(key, end []byte) (out []string) {
	for k := range e.data {
		switch {
		case len(end) == 0:
			if k != string(key) {
				continue
			}
		case len(end) == 1 && end[0] == 0:
			if k < string(key) {
				continue
			}
		case k < string(key) || k >= string(end):
			continue
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func (e *vEtcd) do(op clientv3.Op) *pb.ResponseOp {
	switch {
	case op.IsPut():
		e.rev++
		k := string(op.KeyBytes())
		old := e.data[k]
		kv := &mvccpb.KeyValue{Key: []byte(k), Value: append([]byte{}, op.ValueBytes()...), CreateRevision: e.rev, ModRevision: e.rev, Version: 1}
		if old != nil {
			kv.CreateRevision, kv.Version = old.CreateRevision, old.Version+1
		}
		e.data[k] = kv
		return &pb.ResponseOp{Response: &pb.ResponseOp_ResponsePut{ResponsePut: &pb.PutResponse{Header: e.head()}}}
	case op.IsDelete():
		ks := e.keys(op.KeyBytes(), op.RangeBytes())
		for _, k := range ks {
			delete(e.data, k)
		}
		if len(ks) > 0 {
			e.rev++
		}
		return &pb.ResponseOp{Response: &pb.ResponseOp_ResponseDeleteRange{ResponseDeleteRange: &pb.DeleteRangeResponse{Header: e.head(), Deleted: int64(len(ks))}}}
	default:
		res := &pb.RangeResponse{Header: e.head()}
		ks := e.keys(op.KeyBytes(), op.RangeBytes())
		res.Count = int64(len(ks))
		if !op.IsCountOnly() {
			for _, k := range ks {
				kv := *e.data[k]
				kv.Key = append([]byte{}, kv.Key...)
				kv.Value = append([]byte{}, kv.Value...)
				if op.IsKeysOnly() {
					kv.Value = nil
				}
				res.Kvs = append(res.Kvs, &kv)
			}
		}
		return &pb.ResponseOp{Response: &pb.ResponseOp_ResponseRange{ResponseRange: res}}
	}
}
func (e *vEtcd) head() *pb.ResponseHeader { return &pb.ResponseHeader{Revision: e.rev} }

func (e *vEtcd) Do(ctx context.Context, op clientv3.Op) (clientv3.OpResponse, error) {
	return clientv3.OpResponse{}, errors.New("not in this stand-in")
}
func (e *vEtcd) Compact(ctx context.Context, rev int64, opts ...clientv3.CompactOption) (*clientv3.CompactResponse, error) {
	return nil, nil
}
func (e *vEtcd) Put(ctx context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.fail != nil {
		return nil, e.fail
	}
	return (*clientv3.PutResponse)(e.do(clientv3.OpPut(key, val, opts...)).GetResponsePut()), nil
}
func (e *vEtcd) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.fail != nil {
		return nil, e.fail
	}
	return (*clientv3.GetResponse)(e.do(clientv3.OpGet(key, opts...)).GetResponseRange()), nil
}
func (e *vEtcd) Delete(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.fail != nil {
		return nil, e.fail
	}
	return (*clientv3.DeleteResponse)(e.do(clientv3.OpDelete(key, opts...)).GetResponseDeleteRange()), nil
}
func (e *vEtcd) Txn(ctx context.Context) clientv3.Txn { return &vTxn{e: e} }

type vTxn struct {
	e             *vEtcd
	cmp           []clientv3.Cmp
	then, orElse  []clientv3.Op
	cThen, cElse  bool
}

func (t *vTxn) If(cs ...clientv3.Cmp) clientv3.Txn { t.cmp = append(t.cmp, cs...); return t }
func (t *vTxn) Then(ops ...clientv3.Op) clientv3.Txn {
	if t.cThen {
		panic("cannot call Then twice!")
	}
	t.cThen = true
	t.then = ops
	return t
}
func (t *vTxn) Else(ops ...clientv3.Op) clientv3.Txn { t.orElse = ops; return t }
func (t *vTxn) Commit() (*clientv3.TxnResponse, error) {
	t.e.mu.Lock()
	defer t.e.mu.Unlock()
	if t.e.fail != nil {
		return nil, t.e.fail
	}
	ok := true
	for i := range t.cmp {
		c := (*pb.Compare)(&t.cmp[i])
		kv := t.e.data[string(c.Key)]
		if kv == nil {
			kv = &mvccpb.KeyValue{}
		}
		d := 0
		num := func(a, b int64) {
			if a < b {
				d = -1
			} else if a > b {
				d = 1
			}
		}
		switch c.Target {
		case pb.Compare_VERSION:
			num(kv.Version, c.GetVersion())
		case pb.Compare_CREATE:
			num(kv.CreateRevision, c.GetCreateRevision())
		case pb.Compare_MOD:
			num(kv.ModRevision, c.GetModRevision())
		case pb.Compare_VALUE:
			d = bytes.Compare(kv.Value, c.GetValue())
		}
		switch c.Result {
		case pb.Compare_EQUAL:
			ok = ok && d == 0
		case pb.Compare_NOT_EQUAL:
			ok = ok && d != 0
		case pb.Compare_GREATER:
			ok = ok && d > 0
		case pb.Compare_LESS:
			ok = ok && d < 0
		}
	}
	ops := t.then
	if !ok {
		ops = t.orElse
	}
	if len(ops) > 128 {
		return nil, errors.New("etcdserver: too many operations in txn request")
	}
	seen := map[string]bool{}
	for _, op := range ops {
		if op.IsPut() {
			if seen[string(op.KeyBytes())] {
				return nil, errors.New("etcdserver: duplicate key given in txn request")
			}
			seen[string(op.KeyBytes())] = true
		}
	}
	res := &pb.TxnResponse{Header: t.e.head(), Succeeded: ok}
	for _, op := range ops {
		res.Responses = append(res.Responses, t.e.do(op))
	}
	return (*clientv3.TxnResponse)(res), nil
}
