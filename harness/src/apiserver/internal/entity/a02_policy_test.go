package entity

import (
	"apiserver/config"
	"common/cst"
	"fmt"
	"math"
	"testing"
)

func vPolicy(t *testing.T, b Bucket, conf config.ObjectConfig, ver Version) {
	desc := func() string { return fmt.Sprintf("bucket %+v asked %+v configured %+v", b, ver, conf) }
	vCatch(t, "panic", desc, func() {
		got := ver
		b.MakeVersion(&got, &conf)
		want := ver
		want.Compress = ver.Compress || b.Compress
		rs, cp := conf.ReedSolomon, conf.Replication
		if b.StoreStrategy > 0 {
			want.StoreStrategy = b.StoreStrategy
			rs.DataShards, rs.ParityShards, cp.CopiesCount = b.DataShards, b.ParityShards, b.DataShards
		}
		if want.StoreStrategy == MultiReplication {
			want.DataShards, want.ShardSize = cp.CopiesCount, int(ver.Size)
		} else {
			want.DataShards, want.ParityShards = rs.DataShards, rs.ParityShards
			want.ShardSize = got.ShardSize
			ds, ss := int64(rs.DataShards), int64(got.ShardSize)
			if ss < 0 || ds*ss < ver.Size || ver.Size > 0 && ds*(ss-1) >= ver.Size {
				vFail(t, "shardsize", "%s: shards of %d bytes", desc(), got.ShardSize)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			vFail(t, "version", "%s: recorded %+v", desc(), got)
		}
		c0 := conf
		cfg := b.MakeConf(&conf, ver.Size)
		if c0 != conf {
			vFail(t, "conf", "%s: the configuration itself became %+v", desc(), conf)
		}
		w := conf
		if b.StoreStrategy == ECReedSolomon {
			w.ReedSolomon.DataShards, w.ReedSolomon.ParityShards = b.DataShards, b.ParityShards
		} else if b.StoreStrategy == MultiReplication {
			w.Replication.CopiesCount = b.DataShards
		}
		w.ReedSolomon.BlockPerShard = cfg.ReedSolomon.BlockPerShard
		if cfg != w || cfg.ReedSolomon.BlockPerShard < 1 {
			vFail(t, "conf", "%s: effective configuration %+v", desc(), cfg)
		}
		if bs := w.ReedSolomon.DataShards * conf.ReedSolomon.BlockPerShard; bs%cst.OS.NetPkgSize == 0 && cfg.ReedSolomon.BlockPerShard != conf.ReedSolomon.BlockPerShard {
			vFail(t, "conf", "%s: block changed to %d", desc(), cfg.ReedSolomon.BlockPerShard)
		} else if bs%cst.OS.NetPkgSize != 0 && cfg.ReedSolomon.BlockSize() > w.ReedSolomon.DataShards && int64(cfg.ReedSolomon.BlockSize()) > ver.Size {
			vFail(t, "conf", "%s: block %d beyond the object", desc(), cfg.ReedSolomon.BlockSize())
		}
		if w.ReedSolomon.AllShards() != w.ReedSolomon.DataShards+w.ReedSolomon.ParityShards {
			vFail(t, "shards", "%+v: all shards %d", w.ReedSolomon, w.ReedSolomon.AllShards())
		}
	})
}

func TestVerifA02(t *testing.T) {
	n := 0
	sizes := []int64{0, 1, 2, 3, 4, 5, 7, 8, 9, 100, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 + 5, 1<<40 + 3, math.MaxInt64 - 300}
	for _, bst := range []ObjectStrategy{0, ECReedSolomon, MultiReplication} {
		for _, st := range []ObjectStrategy{0, ECReedSolomon, MultiReplication, 5} {
			for _, comp := range []int{0, 1, 2, 3} {
				for _, ds := range []int{1, 2, 3, 4, 5, 7, 16} {
					for _, ps := range []int{0, 1, 3} {
						for _, size := range sizes {
							n++
							b := Bucket{StoreStrategy: bst, DataShards: ds, ParityShards: ps, Compress: comp&1 > 0, Versioning: n%2 == 0, VersionRemains: n % 5}
							conf := config.ObjectConfig{ReedSolomon: config.RsConfig{DataShards: 1 + n%6, ParityShards: n % 3, BlockPerShard: []int{1, 1000, 8192, 16384}[n%4], RewriteAsync: n%3 == 0},
								Replication: config.ReplicationConfig{CopiesCount: 1 + n%4, BlockSize: 4096, LossToleranceRate: 0.5, CopyAsync: n%2 == 1}}
							ver := Version{StoreStrategy: st, Compress: comp&2 > 0, Size: size, Hash: "h", Sequence: 3, DataShards: 99, ParityShards: 77}
							vSig(t, fmt.Sprint(bst, st, comp, ds, ps, size))
							vPolicy(t, b, conf, ver)
						}
					}
				}
			}
		}
	}
	r := vRand()
	for k := 0; k < vN(20000); k++ {
		n++
		b := Bucket{StoreStrategy: ObjectStrategy(r.Intn(3)), DataShards: 1 + r.Intn(40), ParityShards: r.Intn(20), Compress: r.Intn(2) == 0}
		conf := config.ObjectConfig{ReedSolomon: config.RsConfig{DataShards: 1 + r.Intn(40), ParityShards: r.Intn(9), BlockPerShard: 1 + r.Intn(70000)},
			Replication: config.ReplicationConfig{CopiesCount: 1 + r.Intn(9)}}
		size := r.Int63n(1 << uint(1+r.Intn(62)))
		vPolicy(t, b, conf, Version{StoreStrategy: ObjectStrategy(r.Intn(3)), Compress: r.Intn(2) == 0, Size: size})
	}
	vDone(t, n)
}
