From 2a39c1269b10eb012569d1a4a84fce18b720a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 01/45] fix: refuse pages and page sizes below one and avoid
 overflow when paging

---
 .../internal/usecase/logic/metadata_logic.go        |  4 ++--
 src/common/util/util.go                             | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 7c13dcd..62c0ba1 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -47,7 +47,7 @@ func NewMetadata() Metadata {
 
 func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, error) {
 	servers := pool.Discovery.GetServicesWith(pool.Config.Discovery.MetaServName, true)
-	lst := make([]*msg.Metadata, 0, len(servers)*cond.Page*cond.PageSize)
+	lst := make([]*msg.Metadata, 0)
 	if len(servers) == 0 {
 		logs.Std().Warn("not found any metadata server")
 		return lst, 0, nil
@@ -90,7 +90,7 @@ func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, e
 
 func (m Metadata) BucketPaging(cond *BucketCond) ([]*msg.Bucket, int, error) {
 	servers := pool.Discovery.GetServicesWith(pool.Config.Discovery.MetaServName, true)
-	lst := make([]*msg.Bucket, 0, len(servers)*cond.Page*cond.PageSize)
+	lst := make([]*msg.Bucket, 0)
 	if len(servers) == 0 {
 		logs.Std().Warn("not found any metadata server")
 		return lst, 0, nil
diff --git a/src/common/util/util.go b/src/common/util/util.go
index 50323fc..151831c 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -255,16 +255,17 @@ func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr
 }
 
 func PagingOffset(page, size, total int) (int, int, bool) {
-	if page == 0 {
+	if page < 1 || size < 1 || total < 1 {
 		return 0, 0, false
 	}
-	offset := (page - 1) * size
-	if offset >= total {
+	// compare by division since the product may overflow
+	if page-1 > (total-1)/size {
 		return 0, 0, false
 	}
-	end := offset + size
-	if end > total {
-		end = total
+	offset := (page - 1) * size
+	end := total
+	if size < total-offset {
+		end = offset + size
 	}
 	return offset, end, true
 }
-- 
2.43.0


From 0d1eb555fd82c2be8e05ed1112891f1ce40b5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 02/45] fix: identify metadata by bucket/name so that pages
 sorted by it follow the stored order

---
 src/common/proto/msg/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/proto/msg/metadata.go b/src/common/proto/msg/metadata.go
index a4852a9..993c672 100644
--- a/src/common/proto/msg/metadata.go
+++ b/src/common/proto/msg/metadata.go
@@ -22,7 +22,7 @@ type Metadata struct {
 }
 
 func (z *Metadata) ID() string {
-	return fmt.Sprintf(z.Bucket, "/", z.Name)
+	return fmt.Sprint(z.Bucket, "/", z.Name)
 }
 
 type Version struct {
-- 
2.43.0


From 24271547db8069b7ab3eff4c131607c7ef978371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 03/45] fix: in simple mode an unmatched '?' stands for nothing
 instead of ending the match

---
 src/common/wildcard/wildcard.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/wildcard/wildcard.go b/src/common/wildcard/wildcard.go
index 9c3f48f..5948ee3 100644
--- a/src/common/wildcard/wildcard.go
+++ b/src/common/wildcard/wildcard.go
@@ -56,7 +56,7 @@ func deepMatchRune(str, pattern []rune, simple bool) bool {
 			}
 		case '?':
 			if len(str) == 0 {
-				return simple
+				return simple && deepMatchRune(str, pattern[1:], simple)
 			}
 		case '*':
 			return deepMatchRune(str, pattern[1:], simple) ||
-- 
2.43.0


From 6d8e73607773f770ae3d0bbe36194f6df6f6b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 04/45] fix: use one block size for writing and reading an
 erasure-coded object, never zero

---
 src/apiserver/internal/entity/metadata.go                | 9 +++++----
 src/apiserver/internal/usecase/service/object_service.go | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 0d31256..f29a10f 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -107,12 +107,13 @@ func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg conf
 	case ECReedSolomon:
 		cfg.ReedSolomon.DataShards = b.DataShards
 		cfg.ReedSolomon.ParityShards = b.ParityShards
-		if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
-			cfg.ReedSolomon.BlockPerShard = newSize / cfg.ReedSolomon.DataShards
-		}
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
+	// aligned block size, the same whether or not the bucket has its own strategy since reading aligns it either way
+	if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
+		newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
+		cfg.ReedSolomon.BlockPerShard = math.MaxInt(newSize/cfg.ReedSolomon.DataShards, 1)
+	}
 	return
 }
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 1e4189b..323fda0 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -258,7 +258,7 @@ func NewStreamProvider(opt *StreamOption, ver *entity.Version) StreamProvider {
 		// aligned block size
 		if i := cfg.BlockSize() % cst.OS.NetPkgSize; i > 0 {
 			newSize := math.MinInt(cfg.BlockSize()-i+cst.OS.NetPkgSize, int(opt.Size))
-			cfg.BlockPerShard = newSize / cfg.DataShards
+			cfg.BlockPerShard = math.MaxInt(newSize/cfg.DataShards, 1)
 		}
 		return RsStreamProvider(opt, &cfg)
 	case entity.MultiReplication:
-- 
2.43.0


From b55f54c5441cb89910a084b026eba217b2193f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 05/45] fix: record that a resumed upload was stored compressed

---
 src/apiserver/internal/controller/http/big_api.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index ee8f1bc..63c55fb 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -180,6 +180,7 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	verNum, err := bc.finishUpload(stream.Name, stream.Bucket, &entity.Version{
 		Hash:          stream.Hash,
 		Size:          stream.Size,
+		Compress:      stream.Compress,
 		Locate:        stream.Servers,
 		DataShards:    stream.Config.DataShards,
 		ParityShards:  stream.Config.ParityShards,
-- 
2.43.0


From 3f4cf883a599104eebfe77f460d7ffb271d88f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 06/45] fix: never prefer a disk whose reservations exceed its
 free space

---
 .../internal/usecase/component/driver_balancer.go    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_balancer.go b/src/objectserver/internal/usecase/component/driver_balancer.go
index fc3912c..8826c88 100644
--- a/src/objectserver/internal/usecase/component/driver_balancer.go
+++ b/src/objectserver/internal/usecase/component/driver_balancer.go
@@ -48,6 +48,14 @@ func (sw *spaceWeightedBalancer) initFactor(drivers []*Driver) {
 	sw.factor = datasize.DataSize(math.Ceil(avg))
 }
 
+// remaining is the free space not reserved yet, nothing if more than that is reserved
+func (sw *spaceWeightedBalancer) remaining(d *Driver) datasize.DataSize {
+	if w := sw.weighted[d.MountPoint]; w < d.FreeSpace {
+		return d.FreeSpace - w
+	}
+	return 0
+}
+
 func (sw *spaceWeightedBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
@@ -56,9 +64,7 @@ func (sw *spaceWeightedBalancer) Select(drivers []*Driver) (*Driver, error) {
 		sw.initFactor(drivers)
 	}
 	last := slices.Extremal(drivers, func(max, cur *Driver) bool {
-		w1 := sw.weighted[max.MountPoint]
-		w2 := sw.weighted[cur.MountPoint]
-		return cur.FreeSpace-w2 > max.FreeSpace-w1
+		return sw.remaining(cur) > sw.remaining(max)
 	})
 	if sw.weighted[last.MountPoint] += sw.factor; sw.weighted[last.MountPoint] > last.FreeSpace {
 		sw.weighted[last.MountPoint] /= sw.factor
-- 
2.43.0


From c5efdb380fb88bcd61213925b48cb5d52296b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 07/45] fix: text of a zero data size and of sizes of 1024PB
 and more

---
 src/common/datasize/datasize.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index f60bbe1..36e0b68 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -2,7 +2,6 @@ package datasize
 
 import (
 	"fmt"
-	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -48,13 +47,12 @@ func (d DataSize) PetaByte() uint64 {
 }
 
 func (d DataSize) String() string {
-	i := int(math.Floor(math.Log(float64(d)) / math.Log(1024)))
-	exceed := 1.0
-	if i >= len(units) {
-		exceed = math.Pow(Step, float64(i-len(units)+1))
-		i = len(units) - 1
+	// the largest unit not above d
+	i := len(units) - 1
+	for i > 0 && d < units[i].value {
+		i--
 	}
-	num := float64(d) / math.Pow(Step, float64(i)) * exceed
+	num := float64(d) / float64(units[i].value)
 	return fmt.Sprintf("%.0f%s", num, units[i].name)
 }
 
-- 
2.43.0


From 7be943d221f766b0e88e2a9f427a6cc37d607ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 08/45] fix: refuse data sizes that overflow instead of
 wrapping them

---
 src/common/datasize/datasize.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index 36e0b68..589dde1 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -2,6 +2,7 @@ package datasize
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -102,7 +103,7 @@ func Parse(s string) (DataSize, error) {
 	}
 	if u, ok := unitNameMap[res[0][2]]; ok {
 		if IsExceedLimit(num, u) {
-			return 0, fmt.Errorf("data size '%dPB' exceed limit 1024PB", num)
+			return 0, fmt.Errorf("data size '%s' exceed limit 1024PB", s)
 		}
 		return DataSize(num) * u, nil
 	}
@@ -117,7 +118,7 @@ func MustParse(s string) DataSize {
 	return r
 }
 
-// IsExceedLimit Max size is 1023PB
+// IsExceedLimit Max size is 1023PB, and no size may exceed the number of bytes a DataSize can hold
 func IsExceedLimit(num int, unit DataSize) bool {
-	return unit == PB && num >= Step
+	return unit == PB && num >= Step || DataSize(num) > math.MaxUint64/unit
 }
-- 
2.43.0


From 260775e63a28a131c570481f2439c5f412ba72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 09/45] fix: truncated message lists are an error instead of a
 crash

---
 src/common/util/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/util/util.go b/src/common/util/util.go
index 151831c..7d7f556 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -238,6 +238,10 @@ func EncodeArrayMsgp[T msgp.Marshaler](arr []T) (res []byte, err error) {
 // DecodeArrayMsgp decodes bytes generated from EncodeArrayMsgp
 func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr []T, err error) {
 	for cur := 0; cur < len(data); {
+		if len(data)-cur < binary.MaxVarintLen32 {
+			err = errors.New("decode array msgp: truncated size")
+			return
+		}
 		item := constructor()
 		size, n := binary.Uvarint(data[cur : cur+binary.MaxVarintLen32])
 		if n <= 0 {
@@ -245,6 +249,10 @@ func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr
 			return
 		}
 		cur += binary.MaxVarintLen32
+		if size > uint64(len(data)-cur) {
+			err = errors.New("decode array msgp: truncated item")
+			return
+		}
 		if _, err = item.UnmarshalMsg(data[cur : cur+int(size)]); err != nil {
 			return
 		}
-- 
2.43.0


From d3696f98cecbe7999757ffc96b410cf6d88a09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 10/45] fix: sums and averages of operations whose name
 contains a dot were mixed up

---
 src/common/performance/store.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/common/performance/store.go b/src/common/performance/store.go
index 5f7b8b0..04e9d27 100644
--- a/src/common/performance/store.go
+++ b/src/common/performance/store.go
@@ -1,8 +1,6 @@
 package performance
 
 import (
-	"fmt"
-	"strings"
 	"time"
 )
 
@@ -80,6 +78,11 @@ func NoneStore() Store {
 	return &noneStore{}
 }
 
+// performKey identifies the kind of operation recorded
+type performKey struct {
+	kindOf, action string
+}
+
 type avgSumStore struct {
 	Store
 }
@@ -95,20 +98,18 @@ func (as *avgSumStore) Average(kind, action string) ([]*Perform, error) {
 	if err != nil {
 		return nil, err
 	}
-	totalMap := make(map[string]time.Duration)
-	sizeMap := make(map[string]int)
+	totalMap := make(map[performKey]time.Duration)
+	sizeMap := make(map[performKey]int)
 	for _, item := range data {
-		key := fmt.Sprint(item.KindOf, ".", item.Action)
+		key := performKey{item.KindOf, item.Action}
 		totalMap[key] += item.Cost
 		sizeMap[key]++
 	}
 	res := make([]*Perform, 0, len(totalMap))
 	for k, total := range totalMap {
-		sp := strings.Split(k, ".")
-		kind, action := sp[0], sp[1]
 		res = append(res, &Perform{
-			KindOf: kind,
-			Action: action,
+			KindOf: k.kindOf,
+			Action: k.action,
 			Cost:   total / time.Duration(sizeMap[k]),
 		})
 	}
@@ -120,18 +121,16 @@ func (as *avgSumStore) Sum(kind, action string) ([]*Perform, error) {
 	if err != nil {
 		return nil, err
 	}
-	totalMap := make(map[string]time.Duration)
+	totalMap := make(map[performKey]time.Duration)
 	for _, item := range data {
-		key := fmt.Sprint(item.KindOf, ".", item.Action)
+		key := performKey{item.KindOf, item.Action}
 		totalMap[key] += item.Cost
 	}
 	res := make([]*Perform, 0, len(totalMap))
 	for k, total := range totalMap {
-		sp := strings.Split(k, ".")
-		kind, action := sp[0], sp[1]
 		res = append(res, &Perform{
-			KindOf: kind,
-			Action: action,
+			KindOf: k.kindOf,
+			Action: k.action,
 			Cost:   total,
 		})
 	}
-- 
2.43.0


From 9057bc09b322cf9bbf22054e3702ab52352e7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 11/45] fix: LocalStore.Get gave wrong names and dropped
 records of names sharing a prefix

---
 src/common/performance/local_store.go | 30 +++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index 942b818..b2f0590 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -8,7 +8,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 	"time"
 
@@ -109,10 +108,10 @@ func (ls *LocalStore) Put(data []*Perform) error {
 	})
 }
 
-func (ls *LocalStore) keyPrefix(key string) string {
-	sp := strings.Split(key, ".")
-	if len(sp) == 2 {
-		return sp[0]
+// keyPrefix returns a copy of the name in a key like "name.sequence". the name may contain dots itself.
+func (ls *LocalStore) keyPrefix(key []byte) string {
+	if idx := bytes.LastIndexByte(key, '.'); idx >= 0 {
+		return string(key[:idx])
 	}
 	return ""
 }
@@ -130,22 +129,23 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			}
 			var k, v []byte
 			cur := kndBuk.Cursor()
+			var prefix []byte
 			if action != "" {
-				k, v = cur.Seek(util.StrToBytes(action))
+				prefix = []byte(action + ".")
+				k, v = cur.Seek(prefix)
 			} else {
 				k, v = cur.First()
 			}
-			for k != nil {
-				act := ls.keyPrefix(util.BytesToStr(k))
+			for ; k != nil && bytes.HasPrefix(k, prefix); k, v = cur.Next() {
+				act := ls.keyPrefix(k)
 				if action != "" && act != action {
-					break
+					continue
 				}
 				res = append(res, &Perform{
 					KindOf: kind,
 					Action: act,
 					Cost:   time.Duration(util.BytesToInt(v)),
 				})
-				k, v = cur.Next()
 			}
 			return nil
 		} else {
@@ -157,18 +157,18 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			return actBuk.ForEach(func(k, v []byte) error {
 				if v == nil {
 					// if k is a nest bucket (when action is emtpy, action root bucket has nest buckets)
-					actBuk.Bucket(k).ForEach(func(k, v []byte) error {
+					act := string(k)
+					return actBuk.Bucket(k).ForEach(func(k, v []byte) error {
 						res = append(res, &Perform{
-							KindOf: ls.keyPrefix(util.BytesToStr(k)),
-							Action: util.BytesToStr(k),
+							KindOf: ls.keyPrefix(k),
+							Action: act,
 							Cost:   time.Duration(util.BytesToInt(v)),
 						})
 						return nil
 					})
-					return nil
 				}
 				res = append(res, &Perform{
-					KindOf: ls.keyPrefix(util.BytesToStr(k)),
+					KindOf: ls.keyPrefix(k),
 					Action: action,
 					Cost:   time.Duration(util.BytesToInt(v)),
 				})
-- 
2.43.0


From b7050cb11e3d2ac031692cfdd74963e7bae16bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 12/45] fix: clearing the records of a name failed, or dropped
 those of longer names

---
 src/common/performance/local_store.go | 50 ++++++++++++---------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index b2f0590..6faaaf8 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -179,7 +179,25 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 	return res, err
 }
 
-func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, prefix []byte) error {
+// deleteByName removes the records of name from a nest bucket
+func (ls *LocalStore) deleteByName(nest *bolt.Bucket, name []byte) error {
+	prefix := append(append([]byte{}, name...), '.')
+	var keys [][]byte
+	cur := nest.Cursor()
+	for k, _ := cur.Seek(prefix); k != nil && bytes.HasPrefix(k, prefix); k, _ = cur.Next() {
+		if bytes.LastIndexByte(k, '.') == len(name) {
+			keys = append(keys, append([]byte{}, k...))
+		}
+	}
+	for _, k := range keys {
+		if err := nest.Delete(k); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, name []byte) error {
 	if nestName != "" {
 		nest, err := ls.getBucket(tx, rootName, nestName)
 		if err == errNotExist {
@@ -188,18 +206,7 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if err != nil {
 			return err
 		}
-		cur := nest.Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deleteByName(nest, name)
 	}
 	// get root bucket
 	root, err := ls.getBucket(tx, rootName, "")
@@ -214,18 +221,7 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if v != nil {
 			return nil
 		}
-		cur := root.Bucket(k).Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deleteByName(root.Bucket(k), name)
 	})
 }
 
@@ -264,7 +260,7 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete kind bucket directly
-			if err = kindRoot.Delete(util.StrToBytes(kind)); err != nil {
+			if err = kindRoot.DeleteBucket(util.StrToBytes(kind)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from action buckets
@@ -281,7 +277,7 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete action bucket directly
-			if err = actionRoot.Delete(util.StrToBytes(action)); err != nil {
+			if err = actionRoot.DeleteBucket(util.StrToBytes(action)); err != nil && err != bolt.ErrBucketNotFound {
 				return err
 			}
 			// delete from kind buckets
-- 
2.43.0


From aab884a0dd1f88d785fe7d861dc187642f5aa092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 13/45] fix: performance records kept in etcd could not be put
 together or read back

---
 src/common/performance/etcd_store.go | 134 ++++++++++++---------------
 1 file changed, 58 insertions(+), 76 deletions(-)

diff --git a/src/common/performance/etcd_store.go b/src/common/performance/etcd_store.go
index aa2f361..ba4f775 100644
--- a/src/common/performance/etcd_store.go
+++ b/src/common/performance/etcd_store.go
@@ -2,7 +2,6 @@ package performance
 
 import (
 	"common/collection/set"
-	"common/graceful"
 	"common/util"
 	"common/util/slices"
 	"context"
@@ -11,12 +10,12 @@ import (
 	"go.etcd.io/etcd/client/v3/concurrency"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
 const etcdPrefix = "performance-data"
 const maxSize = 1000 * 100
+const maxTxnOps = 100
 
 // EtcdStore implements Store using ETCD to storage data.
 // it will not save all the data written.
@@ -76,99 +75,82 @@ func (es *EtcdStore) Put(pm []*Perform) error {
 	if err := es.checkSize(len(allows)); err != nil {
 		return err
 	}
-	tx := es.kv.Txn(context.Background())
-	for _, data := range allows {
-		key := fmt.Sprintf("%s/%d", es.getKeyPrefix(data.Action, data.KindOf), time.Now().UnixMilli())
-		tx.Then(clientv3.OpPut(key, data.Cost.String()))
+	now := time.Now().UnixNano()
+	ops := make([]clientv3.Op, 0, len(allows))
+	for i, data := range allows {
+		// keys of the same moment must differ
+		key := fmt.Sprintf("%s/%d-%d", es.getKeyPrefix(data.Action, data.KindOf), now, i)
+		ops = append(ops, clientv3.OpPut(key, fmt.Sprint(int64(data.Cost))))
 	}
-	_, err := tx.Commit()
-	return err
+	// etcd limits the operations of a transaction
+	for len(ops) > 0 {
+		n := len(ops)
+		if n > maxTxnOps {
+			n = maxTxnOps
+		}
+		if _, err := es.kv.Txn(context.Background()).Then(ops[:n]...).Commit(); err != nil {
+			return err
+		}
+		ops = ops[n:]
+	}
+	return nil
 }
 
-func (es *EtcdStore) Get(kindOf, action string) (res []*Perform, err error) {
+// rangePrefixes returns prefixes of the keys by both conditions
+func (es *EtcdStore) rangePrefixes(kindOf, action string) (res []string) {
 	allowedActions := set.To[string](es.allowedActions)
 	if action != "" {
 		allowedActions = []string{action}
 	}
-	resCh := make(chan []*Perform, 1)
-	go func() {
-		defer graceful.Recover()
-		defer close(resCh)
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-		dg := util.NewDoneGroup()
-		defer dg.Close()
-		for _, act := range allowedActions {
-			dg.Todo()
-			go func(a string) {
-				defer dg.Done()
-				resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix())
-				if err != nil {
-					dg.Error(err)
-					return
-				}
-				arr := make([]*Perform, 0, len(resp.Kvs))
-				for _, kv := range resp.Kvs {
-					key := util.BytesToStr(kv.Key)
-					idx := strings.LastIndexByte(key, '/')
-					if idx < 0 {
-						continue
-					}
-					arr = append(arr, &Perform{
-						KindOf: key[idx+1:],
-						Action: action,
-						Cost:   time.Duration(util.ToInt64(util.BytesToStr(kv.Value))),
-					})
-				}
-				resCh <- arr
-			}(act)
+	for _, act := range allowedActions {
+		prefix := es.getKeyPrefix(act, kindOf)
+		if kindOf != "" {
+			prefix += "/"
 		}
-		err = dg.WaitUntilError()
-	}()
-	for arr := range resCh {
-		res = append(res, arr...)
+		res = append(res, prefix)
 	}
 	return
 }
 
-func (es *EtcdStore) Clear(kindOf, action string) (err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
+func (es *EtcdStore) Get(kindOf, action string) (res []*Perform, err error) {
+	for _, prefix := range es.rangePrefixes(kindOf, action) {
+		resp, err := es.kv.Get(context.Background(), prefix, clientv3.WithPrefix())
+		if err != nil {
+			return nil, err
+		}
+		for _, kv := range resp.Kvs {
+			// prefix/action/kind/time
+			sp := strings.Split(string(kv.Key), "/")
+			if len(sp) != 4 {
+				continue
+			}
+			res = append(res, &Perform{
+				KindOf: sp[2],
+				Action: sp[1],
+				Cost:   time.Duration(util.ToInt64(string(kv.Value))),
+			})
+		}
 	}
-	tx := es.kv.Txn(context.Background())
-	for _, act := range allowedActions {
-		tx.Then(clientv3.OpDelete(es.getKeyPrefix(act, kindOf), clientv3.WithPrefix()))
+	return
+}
+
+func (es *EtcdStore) Clear(kindOf, action string) (err error) {
+	var ops []clientv3.Op
+	for _, prefix := range es.rangePrefixes(kindOf, action) {
+		ops = append(ops, clientv3.OpDelete(prefix, clientv3.WithPrefix()))
 	}
-	_, err = tx.Commit()
+	_, err = es.kv.Txn(context.Background()).Then(ops...).Commit()
 	return
 }
 
 func (es *EtcdStore) Size(kindOf, action string) (total int64, err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
-	}
-	go func() {
-		defer graceful.Recover()
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-		dg := util.NewDoneGroup()
-		defer dg.Close()
-		for _, act := range allowedActions {
-			dg.Todo()
-			go func(a string) {
-				defer dg.Done()
-				resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix(), clientv3.WithCountOnly())
-				if err != nil {
-					dg.Error(err)
-					return
-				}
-				atomic.AddInt64(&total, resp.Count)
-			}(act)
+	for _, prefix := range es.rangePrefixes(kindOf, action) {
+		resp, err := es.kv.Get(context.Background(), prefix, clientv3.WithPrefix(), clientv3.WithCountOnly())
+		if err != nil {
+			return 0, err
 		}
-		err = dg.WaitUntilError()
-	}()
+		total += resp.Count
+	}
 	return
 }
 
-- 
2.43.0


From c8e7f4ed60f1fc54b7c0c37b37af4b04b5934bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 14/45] fix: service lookups crashed or cut ids holding an
 underscore, and returned services sharing a name prefix

---
 src/common/registry/etcd_discovery.go | 27 +++-------------
 src/common/registry/etcd_registry.go  | 44 ++++++++++++++++++---------
 2 files changed, 35 insertions(+), 36 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 5c35a33..6563e44 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -1,11 +1,9 @@
 package registry
 
 import (
-	"common/cst"
 	"common/graceful"
 	"common/util"
 	"context"
-	"strings"
 	"time"
 
 	"go.etcd.io/etcd/api/v3/mvccpb"
@@ -44,7 +42,7 @@ func (e *EtcdDiscovery) initService(serv string) {
 	go func() {
 		defer graceful.Recover()
 		// fetch kvs
-		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
+		prefix := servicePrefix(e.group, serv)
 		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
 		defer cancel()
 		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
@@ -104,15 +102,8 @@ func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
 	res := make(map[string]string)
 	if sl, ok := e.services[name]; ok {
 		for k, addr := range sl.copy() {
-			idx1 := strings.LastIndexByte(k, '/')
-			if idx1 < 0 {
-				continue
-			}
-			idx2 := strings.LastIndexByte(k, '_')
-			if idx2 < 0 {
-				idx2 = len(k)
-			}
-			res[k[idx1+1:idx2]] = addr
+			sid, _ := splitKey(k)
+			res[sid] = addr
 		}
 	}
 	return res
@@ -145,16 +136,8 @@ func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[stri
 	if sl, ok := e.services[name]; ok {
 		res := make(map[string]string, len(sl.data))
 		for k, addr := range sl.copy() {
-			idx := strings.LastIndexByte(k, '/')
-			if idx < 0 {
-				continue
-			}
-			sid, role, contains := strings.Cut(k[idx+1:], "_")
-			if master {
-				if !contains || role == "master" {
-					res[sid] = addr
-				}
-			} else if role == "slave" {
+			sid, role := splitKey(k)
+			if master == (role != roleSlave) {
 				res[sid] = addr
 			}
 		}
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 3161a17..8a7a2b1 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -1,13 +1,18 @@
 package registry
 
 import (
-	"bytes"
 	. "common/cst"
 	"common/logs"
 	"common/util"
 	"context"
 	"fmt"
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"strings"
+)
+
+const (
+	roleMaster = "master"
+	roleSlave  = "slave"
 )
 
 var registryLog = logs.New("etcd-registry")
@@ -41,38 +46,49 @@ func (e *EtcdRegistry) Key() string {
 }
 
 func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "master")
+	e.name = fmt.Sprint(e.stdName, "_", roleMaster)
 	return e
 }
 
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "slave")
+	e.name = fmt.Sprint(e.stdName, "_", roleSlave)
 	return e
 }
 
+// servicePrefix returns the prefix of the keys registered by a service
+func servicePrefix(group, name string) string {
+	return EtcdPrefix.FmtRegistry(group, name) + "/"
+}
+
+// splitKey returns the id and role in a key like ${group}/registry/${serv}/${id}_${slave/master}.
+// the role is empty if there is no such suffix.
+func splitKey(key string) (string, string) {
+	sid := key[strings.LastIndexByte(key, '/')+1:]
+	if strings.HasSuffix(sid, "_"+roleMaster) {
+		return sid[:len(sid)-len(roleMaster)-1], roleMaster
+	}
+	if strings.HasSuffix(sid, "_"+roleSlave) {
+		return sid[:len(sid)-len(roleSlave)-1], roleSlave
+	}
+	return sid, ""
+}
+
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), servicePrefix(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Errorf("get services: %s", err)
 		return map[string]string{}
 	}
 	res := make(map[string]string, len(resp.Kvs))
 	for _, kv := range resp.Kvs {
-		idx1 := bytes.LastIndexByte(kv.Key, '/')
-		if idx1 < 0 {
-			continue
-		}
-		idx2 := bytes.LastIndexByte(kv.Key, '_')
-		if idx2 < 0 {
-			idx2 = len(kv.Key)
-		}
-		res[util.BytesToStr(kv.Key[idx1+1:idx2])] = util.BytesToStr(kv.Value)
+		sid, _ := splitKey(util.BytesToStr(kv.Key))
+		res[sid] = util.BytesToStr(kv.Value)
 	}
 	return res
 }
 
 func (e *EtcdRegistry) GetServices(name string) []string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), servicePrefix(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Infof("get services: %s", err)
 		return []string{}
-- 
2.43.0


From 03571b0707e2e98bc7dacce52b7e5ca7bcd26b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 15/45] fix: a server discovered itself under a second key, so
 it was returned twice

---
 src/common/registry/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/registry/config.go b/src/common/registry/config.go
index 3c9e51c..ea8cd50 100644
--- a/src/common/registry/config.go
+++ b/src/common/registry/config.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"common/cst"
 	"common/util"
 	"fmt"
 	"net"
@@ -30,7 +31,7 @@ func (c *Config) RegisterAddr() (string, bool) {
 }
 
 func (c *Config) RegisterKey() string {
-	return fmt.Sprint(c.Group, "/", c.Name, "/", c.SID())
+	return cst.EtcdPrefix.FmtRegistry(c.Group, fmt.Sprint(c.Name, "/", c.SID()))
 }
 
 func (c *Config) SID() string {
-- 
2.43.0


From deb908d3e53153c47784eb60a6ce3577ef9651f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 16/45] fix: discovery wrote its lists unlocked while starting,
 which could crash

---
 src/common/registry/etcd_discovery.go | 5 ++++-
 src/common/registry/service_list.go   | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 6563e44..ead0842 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -30,11 +30,14 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 	}
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
-		d.initService(s)
 	}
 	// save self
 	addr, _ := cfg.RegisterAddr()
 	d.addService(cfg.Name, addr, cfg.RegisterKey())
+	// services must be complete before others use it
+	for _, s := range cfg.Services {
+		d.initService(s)
+	}
 	return d
 }
 
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index e6f9e70..0274f6c 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -16,6 +16,8 @@ func newServiceListOf(mp map[string]string) *serviceList {
 }
 
 func (s *serviceList) combine(mp map[string]string) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	for k, v := range mp {
 		s.data[k] = v
 	}
-- 
2.43.0


From a9be2694a64481797bce4b7014336be38ee30215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 17/45] fix: slot record was stored with the group id it had
 before being saved under another

---
 src/metaserver/internal/usecase/db/hashslot_db.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index cb4eb7e..2232b9a 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -176,11 +176,11 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 		return errors.New("status not in normal")
 	}
 	key := fmt.Sprint(h.KeyPrefix, id)
+	info.GroupID = id
 	bt, err := util.EncodeMsgp(info)
 	if err != nil {
 		return err
 	}
-	info.GroupID = id
 	// saving
 	_, err = h.kv.Put(context.Background(), key, string(bt))
 	return err
-- 
2.43.0


From 37ee3baf9eb383bd8d707eed7c8ffa2d10d0138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 18/45] fix: index migrated versions under their unique id, and
 drop that entry with the version

---
 src/metaserver/internal/usecase/logic/metadata_logic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index bdeec02..b74dfa7 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -159,7 +159,7 @@ func AddVerWithSequence(name string, data *msg.Version) TxFunc {
 				return err
 			}
 			keyStr := util.BytesToStr(key)
-			if err = NewUniqueIdIndex().AddIndex(data.Hash, keyStr)(tx); err != nil {
+			if err = NewUniqueIdIndex().AddIndex(data.UniqueId, keyStr)(tx); err != nil {
 				return err
 			}
 			return NewHashIndexLogic().AddIndex(data.Hash, keyStr)(tx)
@@ -212,7 +212,7 @@ func RemoveVer(name string, ver uint64) TxFunc {
 		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove hash-index err: %w", err)
 		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove uniqueId-index err: %w", err)
 		}
 		return b.Delete(key)
-- 
2.43.0


From 527c52abdbb2fffeb89d60e14b5ea69d2e446767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 19/45] fix: first and last version are the smallest and
 largest number, not the first and last key

---
 .../internal/usecase/logic/metadata_logic.go  | 35 +++++++++++++------
 .../internal/usecase/repo/metadata_repo.go    | 24 +++----------
 2 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index b74dfa7..8887105 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -109,19 +109,34 @@ func GetExtra(id string, extra *msg.Extra) TxFunc {
 			return ErrNotFound
 		}
 		extra.Total = b.Stats().KeyN
-		cur := b.Cursor()
-		// first key
-		k, _ := cur.First()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.FirstVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		first, last := VersionRange(b)
+		extra.FirstVersion = int(first)
+		extra.LastVersion = int(last)
+		return nil
+	}
+}
+
+// VersionRange returns the smallest and the largest version number stored in a version bucket,
+// zero if it is empty. The keys are not in the order of the numbers.
+func VersionRange(b *bolt.Bucket) (first, last uint64) {
+	empty := true
+	_ = b.ForEach(func(k, _ []byte) error {
+		seq := versionOf(k)
+		if empty || seq < first {
+			first = seq
 		}
-		// last key
-		k, _ = cur.Last()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.LastVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		if empty || seq > last {
+			last = seq
 		}
+		empty = false
 		return nil
-	}
+	})
+	return
+}
+
+// versionOf returns the number at the end of the key of a version
+func versionOf(key []byte) uint64 {
+	return util.ToUint64(util.BytesToStr(key[bytes.LastIndexByte(key, Sep[0])+1:]))
 }
 
 func ExistsByUniqueId(tx *bolt.Tx, uniqueId string) error {
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2a23d7d..f08ecef 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -181,18 +181,10 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 }
 
 func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
-	var fst uint64 = 1
+	var fst uint64
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().First()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			fst = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			fst, _ = logic.VersionRange(buk)
 		}
 		return nil
 	}); err != nil {
@@ -202,18 +194,10 @@ func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
 }
 
 func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
-	var max uint64 = 1
+	var max uint64
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().Last()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			max = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			_, max = logic.VersionRange(buk)
 		}
 		return nil
 	}); err != nil {
-- 
2.43.0


From 8134ae9105f9f707ded4d97e2751d5c08a7da285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 20/45] fix: removing all versions or an object drops their
 index entries and keeps the version counter

---
 .../internal/usecase/logic/metadata_logic.go  | 48 +++++++++++++++++++
 .../internal/usecase/repo/batch_meta_repo.go  | 10 +---
 .../internal/usecase/repo/metadata_repo.go    |  9 +---
 3 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 8887105..77cb31b 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -65,6 +65,9 @@ func RemoveMeta(name string) TxFunc {
 		if err := root.Delete(key); err != nil {
 			return err
 		}
+		if err := removeVersionIndexes(tx, name); err != nil {
+			return err
+		}
 		err := RemoveVersionBucket(tx, name)
 		// ignore err of bucket not found
 		if err != nil && !errors.Is(err, bolt.ErrBucketNotFound) {
@@ -234,6 +237,51 @@ func RemoveVer(name string, ver uint64) TxFunc {
 	}
 }
 
+// RemoveAllVer removes all versions of name. Their numbers will not be used again
+func RemoveAllVer(name string) TxFunc {
+	return func(tx *bolt.Tx) error {
+		b := GetVersionBucket(tx, name)
+		if b == nil {
+			return bolt.ErrBucketNotFound
+		}
+		sequence := b.Sequence()
+		if err := removeVersionIndexes(tx, name); err != nil {
+			return err
+		}
+		// delete bucket
+		if err := RemoveVersionBucket(tx, name); err != nil {
+			return err
+		}
+		// create an empty bucket
+		if err := CreateVersionBucket(tx, name); err != nil {
+			return err
+		}
+		return GetVersionBucket(tx, name).SetSequence(sequence)
+	}
+}
+
+// removeVersionIndexes drops the index entries of all versions of name
+func removeVersionIndexes(tx *bolt.Tx, name string) error {
+	b := GetVersionBucket(tx, name)
+	if b == nil {
+		return nil
+	}
+	return b.ForEach(func(k, v []byte) error {
+		var data msg.Version
+		if err := util.DecodeMsgp(&data, v); err != nil {
+			return err
+		}
+		key := string(k)
+		if err := NewHashIndexLogic().RemoveIndex(data.Hash, key)(tx); err != nil {
+			return fmt.Errorf("remove hash-index err: %w", err)
+		}
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, key)(tx); err != nil {
+			return fmt.Errorf("remove uniqueId-index err: %w", err)
+		}
+		return nil
+	})
+}
+
 func UpdateVer(id string, data *msg.Version) TxFunc {
 	return func(tx *bolt.Tx) error {
 		if b := GetVersionBucket(tx, id); b != nil {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 6fc235b..d2d24e2 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -2,7 +2,6 @@ package repo
 
 import (
 	"common/proto/msg"
-	bolt "go.etcd.io/bbolt"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
@@ -65,12 +64,5 @@ func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, id); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, id)
-	})
+	return br.Storage.Batch(logic.RemoveAllVer(id))
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index f08ecef..4a0f6c3 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -160,14 +160,7 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	last := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, name); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, name)
-	}); err != nil {
+	if err := m.MainDB.Update(logic.RemoveAllVer(name)); err != nil {
 		return err
 	}
 	go func() {
-- 
2.43.0


From 062db6b0c6220a64366dafee8f5f9b2deb5a58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 21/45] fix: index lookups copy the keys out of the
 transaction's memory

---
 src/metaserver/internal/usecase/logic/hash_index_logic.go      | 2 +-
 src/metaserver/internal/usecase/logic/unique_id_index_logic.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/hash_index_logic.go b/src/metaserver/internal/usecase/logic/hash_index_logic.go
index 1e3bd31..6725f5c 100644
--- a/src/metaserver/internal/usecase/logic/hash_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/hash_index_logic.go
@@ -50,7 +50,7 @@ func (HashIndexLogic) GetIndex(hash string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := hashBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
index 726a54c..93bbb12 100644
--- a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
@@ -50,7 +50,7 @@ func (UniqueIdIndex) GetIndex(uniqueId string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := uniqueIdBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
-- 
2.43.0


From 2c413a1f09c184a9f62e22cf136c76997027acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 22/45] fix: bucket bytes are copied out of the transaction's
 memory

---
 src/metaserver/internal/usecase/logic/bucket_logic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 2f14491..ad7db9d 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -52,10 +52,12 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 		if err != nil {
 			return err
 		}
-		*bt = root.Get(util.StrToBytes(name))
-		if *bt == nil {
+		v := root.Get(util.StrToBytes(name))
+		if v == nil {
 			return usecase.ErrNotFound
 		}
+		// copy the value out of the transaction's memory
+		*bt = append([]byte{}, v...)
 		return nil
 	}
 }
-- 
2.43.0


From b85a88f2fef538486a9d987f03170832252c9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 23/45] fix: reading from a database that holds nothing yet
 reports not found instead of crashing

---
 .../internal/usecase/logic/metadata_logic.go         |  3 +++
 .../internal/usecase/repo/metadata_repo.go           | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 77cb31b..f4db110 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -22,6 +22,9 @@ const (
 func ForeachKeys(fn func(string) bool) TxFunc {
 	return func(tx *bolt.Tx) error {
 		root := GetMetadataBucket(tx)
+		if root == nil {
+			return ErrNotFound
+		}
 		return root.ForEach(func(k, v []byte) error {
 			if !fn(string(k)) {
 				return ErrNotFound
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 4a0f6c3..3b5bb4a 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -306,7 +306,11 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 	_ = m.MainDB.View(func(tx *bolt.Tx) error {
-		_ = logic.GetVersionBucket(tx, name).ForEach(func(k, v []byte) error {
+		buk := logic.GetVersionBucket(tx, name)
+		if buk == nil {
+			return usecase.ErrNotFound
+		}
+		_ = buk.ForEach(func(k, v []byte) error {
 			if !fn(v) {
 				return usecase.ErrNotFound
 			}
@@ -319,7 +323,11 @@ func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 func (m *MetadataRepo) GetMetadataBytes(key string) ([]byte, error) {
 	var res []byte
 	err := m.MainDB.View(func(tx *bolt.Tx) error {
-		v := logic.GetMetadataBucket(tx).Get(util.StrToBytes(key))
+		root := logic.GetMetadataBucket(tx)
+		if root == nil {
+			return usecase.ErrNotFound
+		}
+		v := root.Get(util.StrToBytes(key))
 		if v == nil {
 			return usecase.ErrNotFound
 		}
-- 
2.43.0


From 6b79e81f1e4f8210834ada1646e2ed9b133bef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 24/45] fix: caches are brought up to date before a read or
 change returns, so that no later read finds the old record

---
 .../internal/usecase/repo/bucket_repo.go      | 63 ++++++-----------
 .../internal/usecase/repo/metadata_repo.go    | 68 ++++---------------
 2 files changed, 37 insertions(+), 94 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 22a8b3b..294997a 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -1,7 +1,6 @@
 package repo
 
 import (
-	"common/graceful"
 	"common/proto/msg"
 	"common/util"
 	"errors"
@@ -29,50 +28,35 @@ func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
 		return data, nil
 	}
 	res = new(msg.Bucket)
-	err = b.db.View(b.logic.Get(name, res))
-	go func() {
-		defer graceful.Recover()
-		if err == nil {
-			util.LogErrWithPre("bucket cache", b.cache.Create(res))
-		}
-	}()
+	if err = b.db.View(b.logic.Get(name, res)); err != nil {
+		return
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Create(res))
 	return
 }
 
 func (b *BucketRepo) Create(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Create(bucket))
+	if err = b.db.Update(b.logic.Create(bucket)); err != nil {
+		return
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
+	return
 }
 
 func (b *BucketRepo) Remove(name string) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Remove(name))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Delete(name))
+	if err = b.db.Update(b.logic.Delete(name)); err != nil {
+		return
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+	return
 }
 
 func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
-			}
-		}()
-	}()
-
-	return b.db.Update(b.logic.Update(bucket))
+	if err = b.db.Update(b.logic.Update(bucket)); err != nil {
+		return
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
+	return
 }
 
 func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
@@ -83,12 +67,9 @@ func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	if errors.Is(err, usecase.ErrNotFound) {
 		err = nil
 	}
-	go func() {
-		defer graceful.Recover()
-		for _, item := range list {
-			util.LogErrWithPre("bucket cache", b.cache.Create(item))
-		}
-	}()
+	for _, item := range list {
+		util.LogErrWithPre("bucket cache", b.cache.Create(item))
+	}
 	return list, total, err
 }
 
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 3b5bb4a..20504cb 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -3,7 +3,6 @@ package repo
 import (
 	"bytes"
 	"common/cst"
-	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
@@ -36,11 +35,7 @@ func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddMetadata(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.AddMetadata(id, data))
 	return nil
 }
 
@@ -51,11 +46,7 @@ func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.UpdateMeta(name, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateMetadata(name, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.UpdateMetadata(name, data))
 	return nil
 }
 
@@ -64,13 +55,10 @@ func (m *MetadataRepo) RemoveMetadata(name string) error {
 	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
-		for i := uint64(1); i <= lastVer; i++ {
-			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
-		}
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
+	for i := uint64(1); i <= lastVer; i++ {
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
+	}
 	return nil
 }
 
@@ -82,10 +70,7 @@ func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
 	if err := m.MainDB.View(logic.GetMeta(id, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
 	return data, nil
 }
 
@@ -102,11 +87,7 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.AddVersion(id, data))
 	return nil
 }
 
@@ -123,11 +104,7 @@ func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVerWithSequence(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersionFromRaft(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.AddVersionFromRaft(id, data))
 	return nil
 }
 
@@ -138,11 +115,7 @@ func (m *MetadataRepo) UpdateVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.UpdateVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.UpdateVersion(id, data))
 	return nil
 }
 
@@ -150,11 +123,7 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.RemoveVersion(name, ver)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, ver))
 	return nil
 }
 
@@ -163,13 +132,9 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	if err := m.MainDB.Update(logic.RemoveAllVer(name)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		for i := uint64(0); i <= last; i++ {
-			err := m.Cache.RemoveVersion(name, i)
-			util.LogErrWithPre("remove version cache", err)
-		}
-	}()
+	for i := uint64(0); i <= last; i++ {
+		util.LogErrWithPre("remove version cache", m.Cache.RemoveVersion(name, i))
+	}
 	return nil
 }
 
@@ -207,10 +172,7 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	if err := m.MainDB.View(logic.GetVer(name, ver, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
-	}()
+	util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
 	return data, nil
 }
 
-- 
2.43.0


From cb68eb75ede90870612649e50a8d05a9af1274f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 25/45] fix: changes applied in batches reach the caches the
 reads go through

---
 src/metaserver/internal/app/app.go            | 10 +++--
 .../usecase/repo/batch_bucket_repo.go         | 20 +++++++--
 .../internal/usecase/repo/batch_meta_repo.go  | 44 ++++++++++++++++---
 .../internal/usecase/repo/metadata_repo.go    |  6 ++-
 4 files changed, 64 insertions(+), 16 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index b21fe17..e4ffb37 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -23,17 +23,19 @@ func Run(cfg *config.Config) {
 	pool.InitPool(cfg)
 	defer pool.Close()
 	// init repos
-	metaRepo := repo.NewMetadataRepo(pool.Storage, repo.NewMetadataCacheRepo(pool.Cache))
-	bucketRepo := repo.NewBucketRepo(pool.Storage, repo.NewBucketCacheRepo(pool.Cache))
+	metaCache, bucketCache := repo.NewMetadataCacheRepo(pool.Cache), repo.NewBucketCacheRepo(pool.Cache)
+	metaRepo := repo.NewMetadataRepo(pool.Storage, metaCache)
+	metaBatch := repo.NewBatchRepo(pool.Storage, metaCache)
+	bucketRepo := repo.NewBucketRepo(pool.Storage, bucketCache)
 	// init raft
-	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage), bucketRepo, repo.NewBatchBucketRepo(pool.Storage), metaRepo)
+	fsm := raftimpl.NewFSM(metaRepo, metaBatch, bucketRepo, repo.NewBatchBucketRepo(pool.Storage, bucketCache), metaRepo)
 	raftWrapper := raftimpl.NewRaft(util.ServerAddress(cfg.Port), cfg.Cluster, fsm)
 	pool.RaftWrapper = raftWrapper
 	// init services
 	bucketServ := service.NewBucketService(bucketRepo, raftWrapper)
 	metaService := service.NewMetadataService(
 		metaRepo,
-		repo.NewBatchRepo(pool.Storage),
+		metaBatch,
 		repo.NewHashIndexRepo(pool.Storage),
 		raftWrapper,
 	)
diff --git a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
index 3bc917a..3adb8e8 100644
--- a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
@@ -2,6 +2,8 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
+	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
 )
@@ -9,10 +11,12 @@ import (
 type BatchBucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
+	// cache is the one the reads go through
+	cache usecase.BucketRepo
 }
 
-func NewBatchBucketRepo(db *db.Storage) *BatchBucketRepo {
-	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud()}
+func NewBatchBucketRepo(db *db.Storage, cache usecase.BucketRepo) *BatchBucketRepo {
+	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
 }
 
 func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
@@ -20,11 +24,19 @@ func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
 }
 
 func (b *BatchBucketRepo) Remove(name string) (err error) {
-	return b.db.Batch(b.logic.Delete(name))
+	if err = b.db.Batch(b.logic.Delete(name)); err != nil {
+		return
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+	return
 }
 
 func (b *BatchBucketRepo) Update(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Update(bucket))
+	if err = b.db.Batch(b.logic.Update(bucket)); err != nil {
+		return
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
+	return
 }
 
 func (b *BatchBucketRepo) Sync() error {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index d2d24e2..d9cf596 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -2,6 +2,7 @@ package repo
 
 import (
 	"common/proto/msg"
+	"common/util"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
@@ -9,10 +10,12 @@ import (
 
 type BatchMetaRepo struct {
 	Storage *db.Storage
+	// Cache is the one the reads go through
+	Cache usecase.IMetaCache
 }
 
-func NewBatchRepo(stroe *db.Storage) *BatchMetaRepo {
-	return &BatchMetaRepo{Storage: stroe}
+func NewBatchRepo(stroe *db.Storage, c usecase.IMetaCache) *BatchMetaRepo {
+	return &BatchMetaRepo{Storage: stroe, Cache: c}
 }
 
 func (br *BatchMetaRepo) Sync() error {
@@ -34,11 +37,19 @@ func (br *BatchMetaRepo) UpdateVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.UpdateVer(name, data))
+	if err := br.Storage.Batch(logic.UpdateVer(name, data)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.UpdateVersion(name, data))
+	return nil
 }
 
 func (br *BatchMetaRepo) RemoveVersion(name string, ver uint64) error {
-	return br.Storage.Batch(logic.RemoveVer(name, ver))
+	if err := br.Storage.Batch(logic.RemoveVer(name, ver)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.RemoveVersion(name, ver))
+	return nil
 }
 
 func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
@@ -49,11 +60,23 @@ func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 }
 
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
-	return br.Storage.Batch(logic.UpdateMeta(name, data))
+	if err := br.Storage.Batch(logic.UpdateMeta(name, data)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.UpdateMetadata(name, data))
+	return nil
 }
 
 func (br *BatchMetaRepo) RemoveMetadata(name string) error {
-	return br.Storage.Batch(logic.RemoveMeta(name))
+	last := lastVersionNumber(br.Storage, name)
+	if err := br.Storage.Batch(logic.RemoveMeta(name)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("metadata cache", br.Cache.RemoveMetadata(name))
+	for i := uint64(1); i <= last; i++ {
+		util.LogErrWithPre("metadata cache", br.Cache.RemoveVersion(name, i))
+	}
+	return nil
 }
 
 func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error {
@@ -64,5 +87,12 @@ func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(logic.RemoveAllVer(id))
+	last := lastVersionNumber(br.Storage, id)
+	if err := br.Storage.Batch(logic.RemoveAllVer(id)); err != nil {
+		return err
+	}
+	for i := uint64(0); i <= last; i++ {
+		util.LogErrWithPre("remove version cache", br.Cache.RemoveVersion(id, i))
+	}
+	return nil
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 20504cb..43b7c9c 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -152,8 +152,12 @@ func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
 }
 
 func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
+	return lastVersionNumber(m.MainDB, name)
+}
+
+func lastVersionNumber(s *db.Storage, name string) uint64 {
 	var max uint64
-	if err := m.MainDB.View(func(tx *bolt.Tx) error {
+	if err := s.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
 			_, max = logic.VersionRange(buk)
 		}
-- 
2.43.0


From a28f63cbe9cd5f657c088cbbd35aea6981691a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 26/45] fix: a cached version no longer passes for the object
 of that name

---
 .../internal/usecase/repo/metadata_cache_repo.go          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 271d930..ae4f9f7 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -32,6 +32,8 @@ func (pe *partlyErr) Error() string {
 
 const (
 	MetaCachePrefix = "metadata_"
+	// versions have keys of their own: an object may be named like a version of another
+	VersionCachePrefix = "version_"
 )
 
 type MetadataCacheRepo struct {
@@ -58,7 +60,7 @@ func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
 }
 
 func (m *MetadataCacheRepo) GetVersion(s string, u uint64) (*msg.Version, error) {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, u)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, u)
 	if bt, ok := m.cache.HasGet(key); ok {
 		var en msg.Version
 		if err := util.DecodeMsgp(&en, bt); err != nil {
@@ -94,7 +96,7 @@ func (m *MetadataCacheRepo) AddMetadata(id string, metadata *msg.Metadata) error
 }
 
 func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, version.Sequence)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, version.Sequence)
 	bt, err := util.EncodeMsgp(version)
 	if err != nil {
 		return err
@@ -117,7 +119,7 @@ func (m *MetadataCacheRepo) RemoveMetadata(s string) error {
 }
 
 func (m *MetadataCacheRepo) RemoveVersion(s string, u uint64) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s, logic.Sep, u))
+	m.cache.Delete(fmt.Sprint(VersionCachePrefix, s, logic.Sep, u))
 	return nil
 }
 
-- 
2.43.0


From 13922bc4326d9faf16572af10c9f0192f7abf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 27/45] fix: a moved shard's new place reaches the cache, and
 an unknown shard number is an error instead of a crash

---
 .../internal/usecase/repo/metadata_repo.go      | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 43b7c9c..caab6bf 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -339,26 +339,37 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
+	var stale []func() error
+	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
 		var keys []string
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
-		var v msg.Version
 		for _, key := range keys {
 			idx := strings.LastIndexByte(key, '.')
 			metaId, sequence := key[:idx], util.ToUint64(key[idx+1:])
+			var v msg.Version
 			if err := logic.GetVer(metaId, sequence, &v)(tx); err != nil {
 				return err
 			}
+			if index < 0 || index >= len(v.Locate) {
+				return fmt.Errorf("version %s has no shard %d", key, index)
+			}
 			v.Ts = time.Now().UnixMilli()
 			v.Locate[index] = value
 			if err := logic.UpdateVer(metaId, &v)(tx); err != nil {
 				return err
 			}
+			stale = append(stale, func() error { return m.Cache.RemoveVersion(metaId, sequence) })
 		}
 		return nil
-	})
+	}); err != nil {
+		return err
+	}
+	for _, remove := range stale {
+		util.LogErrWithPre("metadata cache", remove())
+	}
+	return nil
 }
 
 func (m *MetadataRepo) ExistsByUniqueId(uniqueId string) (bool, error) {
-- 
2.43.0


From 370ac6e6753f1bd34b464a0233cfc03bb533b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 28/45] fix: listing buckets with a negative size is an empty
 list instead of a crash

---
 src/metaserver/internal/usecase/repo/bucket_repo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 294997a..9e48427 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -61,6 +61,9 @@ func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
 
 func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	var total int
+	if size < 0 {
+		size = 0
+	}
 	list := make([]*msg.Bucket, 0, size)
 	err := b.db.View(b.logic.List(prefix, size, &list, &total))
 	// ignore not found err.
-- 
2.43.0


From f3cbfbc04a04f5f9fc1b7de191349acf77c3f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 29/45] fix: a version entry without a version is an error
 instead of a crash, and a batched entry does not inherit fields of the one
 before

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 0b11cd0..302fd74 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -66,6 +66,9 @@ func (f *FSMImpl) applyMetadata(data *entity.RaftData) *FSMResponse {
 
 func (f *FSMImpl) applyVersion(data *entity.RaftData) *FSMResponse {
 	repo := util.IfElse[WritableRepo](data.Batch, f.metaBatch, f.metaRepo)
+	if data.Version == nil && data.Type != entity.LogRemove {
+		return FSMResult(ErrNilData)
+	}
 	switch data.Type {
 	case entity.LogMigrate:
 		resp := FSMResult(repo.AddVersionFromRaft(data.Name, data.Version))
@@ -121,10 +124,10 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 }
 
 func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
-	var data entity.RaftData
 	res := make([]any, len(lgs))
 
 	for i, lg := range lgs {
+		var data entity.RaftData
 		if lg == nil || len(lg.Data) == 0 {
 			res[i] = FSMResult(ErrNilData)
 			continue
-- 
2.43.0


From 3eb87b8b259f4f597c7f542a531aa806edfb395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 30/45] fix: changes without a payload are refused instead of
 crashing

---
 src/metaserver/internal/usecase/logic/bucket_logic.go   | 6 ++++++
 src/metaserver/internal/usecase/repo/batch_meta_repo.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index ad7db9d..80b61d4 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -64,6 +64,9 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 
 func (b *BucketCrud) Create(data *msg.Bucket) usecase.TxFunc {
 	return func(tx *bolt.Tx) error {
+		if data == nil {
+			return usecase.ErrNilData
+		}
 		if data.Name == "" {
 			return errors.New("empty primary key 'Name'")
 		}
@@ -95,6 +98,9 @@ func (b *BucketCrud) Delete(name string) usecase.TxFunc {
 
 func (b *BucketCrud) Update(data *msg.Bucket) usecase.TxFunc {
 	return func(tx *bolt.Tx) error {
+		if data == nil {
+			return usecase.ErrNilData
+		}
 		if data.Name == "" {
 			return errors.New("empty primary key 'Name'")
 		}
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index d9cf596..9b368bb 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -60,6 +60,9 @@ func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 }
 
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
+	if data == nil {
+		return usecase.ErrNilData
+	}
 	if err := br.Storage.Batch(logic.UpdateMeta(name, data)); err != nil {
 		return err
 	}
-- 
2.43.0


From a608b5a015ab57e6eef5a812c780b6b6d53d8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 31/45] fix: a callback answer other than 200 is never passed
 on as a success

A refused request was answered with the status the callback gave, which
may itself be a success (204, 302).
---
 .../internal/usecase/componet/auth/callback_validator.go   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 42ce775..91e2dce 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -30,7 +30,12 @@ func (cv *CallbackValidator) Verify(token Credential) error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
-		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		status := resp.StatusCode
+		if status < http.StatusBadRequest {
+			// not an acceptance: must not be answered to the client as a success
+			status = http.StatusForbidden
+		}
+		return response.NewError(status, response.MessageFromJSONBody(resp.Body))
 	}
 	return nil
 }
-- 
2.43.0


From 75b43a56e4bd74b57d8a0532315ac213604a5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:26 +0000
Subject: [PATCH 32/45] fix: path index keeps single paths findable, removes
 exactly the path given

GetLast missed the path of objects with one path, Remove cut a piece out
of the middle of a longer path and left an empty path behind, and paths
containing an escape sequence came back changed.
---
 .../internal/db/object_path_cache.go          | 46 +++++++++++--------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index 6baabc0..ac4ae3c 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -13,6 +13,9 @@ import (
 var (
 	Sep    = []byte(",")
 	SepEnc = []byte("%2C")
+	// Esc introduces an encoded byte, alone it stands for the empty path
+	Esc    = []byte("%")
+	EscEnc = []byte("%25")
 )
 
 type PathCache struct {
@@ -53,12 +56,18 @@ func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
 
 func (pc *PathCache) encodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, Sep, SepEnc)
+	if len(val) == 0 {
+		return Esc
+	}
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, Esc, EscEnc), Sep, SepEnc)
 }
 
 func (pc *PathCache) decodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, SepEnc, Sep)
+	if bytes.Equal(val, Esc) {
+		return nil
+	}
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, SepEnc, Sep), EscEnc, Esc)
 }
 
 func (pc *PathCache) Put(name, path string) error {
@@ -86,10 +95,10 @@ func (pc *PathCache) Get(name string) ([]string, error) {
 		if err != nil {
 			return err
 		}
-		sp := bytes.Split(value, Sep)
-		if len(sp) == 0 {
+		if len(value) == 0 {
 			return badger.ErrKeyNotFound
 		}
+		sp := bytes.Split(value, Sep)
 		res = make([]string, 0, len(sp))
 		for _, b := range sp {
 			res = append(res, util.BytesToStr(pc.decodeValue(b)))
@@ -111,11 +120,12 @@ func (pc *PathCache) GetLast(name string) (string, error) {
 		if err != nil {
 			return err
 		}
-		if idx := bytes.LastIndexByte(value, Sep[0]); idx > 0 {
-			res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
-			return nil
+		if len(value) == 0 {
+			return badger.ErrKeyNotFound
 		}
-		return badger.ErrKeyNotFound
+		idx := bytes.LastIndexByte(value, Sep[0])
+		res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
+		return nil
 	})
 	if err == badger.ErrKeyNotFound {
 		err = os.ErrNotExist
@@ -130,17 +140,17 @@ func (pc *PathCache) Remove(name, path string) error {
 		if err != nil {
 			return err
 		}
-		before, after, ok := bytes.Cut(val, pc.encodeValue(util.StrToBytes(path)))
-		if !ok {
-			return badger.ErrKeyNotFound
-		}
-		before = bytes.TrimSuffix(before, Sep)
-		after = bytes.TrimPrefix(after, Sep)
-		// not use bytes.Join to avoid memory allocating and copy
-		if len(before) > 0 {
-			after = append(append(before, Sep...), after...)
+		sp := bytes.Split(val, Sep)
+		for i, b := range sp {
+			if !bytes.Equal(pc.decodeValue(b), util.StrToBytes(path)) {
+				continue
+			}
+			if len(sp) == 1 {
+				return txn.Delete(key)
+			}
+			return txn.Set(key, bytes.Join(append(sp[:i], sp[i+1:]...), Sep))
 		}
-		return txn.Set(key, after)
+		return badger.ErrKeyNotFound
 	})
 	if err == badger.ErrKeyNotFound {
 		err = nil
-- 
2.43.0


From 1839a8e932b9188a0fe589eb61822ea8422905d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 33/45] fix: AlignedLimitedReader must not read past the
 caller's buffer

The buffer of the last read was cut at the aligned remaining size even when the
buffer is smaller than that, which panics or exceeds the caller's buffer.
---
 src/common/system/disk/aligend_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5e24aa7..5cb2e29 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -55,8 +55,8 @@ func (l *AlignedLimitedReader) Read(p []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 	// aligned and reduce buffer for last read
-	if int64(len(p)) > l.N {
-		p = p[0:AlignedSize64(l.N)]
+	if size := AlignedSize64(l.N); int64(len(p)) > size {
+		p = p[0:size]
 	}
 	n, err = l.R.Read(p)
 	// ignore aligned part and return actual size of data on last reading
-- 
2.43.0


From 2ffb0f63386ab903ebab40bb266fd24fcd723989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 34/45] fix: MultiReader returns the error of a reader

An error other than io.EOF was dropped: the data so far was followed by what the
next read gives, or the read never ended.
---
 src/common/system/disk/multi_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/system/disk/multi_reader.go b/src/common/system/disk/multi_reader.go
index 3956cc1..defc2ff 100644
--- a/src/common/system/disk/multi_reader.go
+++ b/src/common/system/disk/multi_reader.go
@@ -40,6 +40,8 @@ func (mr *multiReader) Read(p []byte) (n int, err error) {
 			// after performing flatten (Issue 18232).
 			mr.readers[0] = eofReader{} // permit earlier GC
 			mr.readers = mr.readers[1:]
+		} else if err != nil {
+			return n, err
 		}
 		if n >= bufSize {
 			if err == io.EOF && len(mr.readers) > 0 {
-- 
2.43.0


From 46b75f4bb1f5c0e18aa7028242cc03ebfcde85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:35 +0000
Subject: [PATCH 35/45] fix: the object cache honours the range of a read

A read starting inside an object was cached as if it were the whole object, and
a cached object was returned whole whatever the range.
---
 .../internal/controller/http/objects/objects_cache.go      | 7 +++++++
 .../internal/controller/http/objects/objects_rest.go       | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 7017b1a..35c49a2 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -2,6 +2,8 @@ package objects
 
 import (
 	"common/logs"
+	"common/request"
+	"common/util/math"
 	"net/http"
 	"objectserver/internal/usecase/pool"
 
@@ -11,6 +13,11 @@ import (
 func GetFromCache(g *gin.Context) {
 	name := g.Param("name")
 	if bt, ok := pool.Cache.HasGet(name); ok {
+		// skip what precedes the range
+		var rg request.Range
+		if ok := rg.ConvertFrom(g.GetHeader("range")); ok {
+			bt = bt[math.MinNumber(rg.FirstBytes().First, int64(len(bt))):]
+		}
 		if _, e := g.Writer.Write(bt); e != nil {
 			logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
 			g.AbortWithStatus(http.StatusInternalServerError)
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 605b13f..2e4cab7 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -75,7 +75,8 @@ func Get(c *gin.Context) {
 	}
 	var writer io.Writer = c.Writer
 	var buf bytes.Buffer
-	if uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
+	// only a read from the start holds the whole object
+	if offset == 0 && uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
 		buf.Grow(int(req.Size))
 		writer = io.MultiWriter(c.Writer, &buf)
 	}
-- 
2.43.0


From 9da65d7fb3d9b4532b130cc0addaf48a7ab1b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:35 +0000
Subject: [PATCH 36/45] fix: reading a stored object from an offset stops at
 its size

The whole size was read counting from the offset, so the padding after the data
was sent as data; a compressed object was sought in its compressed form; a
buffer of unaligned size fails with direct-io. WriteFileWithSize wrote over the
data when no padding is to be removed.
---
 .../usecase/service/objects_service.go        | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9a10a99..ac84bd3 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -124,7 +124,7 @@ func Get(name string, offset, size int64, compress bool, writer io.Writer) (err
 	return nil
 }
 
-// GetFile read file with provided size. offset corresponds to io.SeekStart.
+// GetFile read file from offset to the provided size. offset corresponds to io.SeekStart.
 // if offset is not multiple of 4KB, direct-io will be disabled.
 func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 	file, err := disk.OpenFileDirectIO(fullPath, os.O_RDONLY, cst.OS.ModeUser)
@@ -145,8 +145,13 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 		if _, err = file.Seek(offset, io.SeekStart); err != nil {
 			return err
 		}
+		// never reach the padding after data
+		size -= offset
 	}
-	bufSize := math.MinInt(int(size), 8*cst.OS.PageSize)
+	if size <= 0 {
+		return nil
+	}
+	bufSize := math.MinInt(disk.AlignedSize(int(size)), 8*cst.OS.PageSize)
 	_, err = io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
 	return err
 }
@@ -201,7 +206,7 @@ func WriteFileWithSize(fullPath string, curSize int64, fileStream io.Reader, buf
 	// paddingLen always gte 0 and lt 4096
 	pageSize := int64(cst.OS.PageSize)
 	paddingLen := fi.Size() - curSize
-	if paddingLen >= pageSize {
+	if paddingLen < 0 || paddingLen >= pageSize {
 		return 0, fmt.Errorf("err padding length %d", paddingLen)
 	}
 	if paddingLen > 0 {
@@ -222,6 +227,8 @@ func WriteFileWithSize(fullPath string, curSize int64, fileStream io.Reader, buf
 		if _, err = file.Seek(-pageSize, io.SeekEnd); err != nil {
 			return 0, err
 		}
+	} else if _, err = file.Seek(0, io.SeekEnd); err != nil {
+		return 0, err
 	}
 	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
 }
@@ -251,13 +258,18 @@ func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) erro
 		return err
 	}
 	defer file.Close()
+	if size -= offset; size <= 0 {
+		return nil
+	}
+	reader := s2.NewReader(file)
 	if offset > 0 {
-		if _, err = file.Seek(offset, io.SeekStart); err != nil {
+		// offset counts the bytes before compressing
+		if err = reader.Skip(offset); err != nil {
 			return err
 		}
 	}
 	bufSize := math.MinNumber(8*cst.OS.PageSize, int(size))
-	_, err = io.CopyBuffer(writer, io.LimitReader(s2.NewReader(file), size), make([]byte, bufSize))
+	_, err = io.CopyBuffer(writer, io.LimitReader(reader, size), make([]byte, bufSize))
 	return err
 }
 
-- 
2.43.0


From 1d8b646c77aeadc52c061d67fd8f389ced9bdfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:16 +0000
Subject: [PATCH 37/45] fix: an error delivered to a DoneGroup is not lost

When everything was done before the waiting started the select could pick
'done' although an error had been delivered; a panic was delivered after Done.
---
 src/common/util/done_group.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index e9318c4..2799909 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -56,12 +56,12 @@ func (d *doneGroup) Done() {
 			d.Error(errors.New(fmt.Sprint(err)))
 		}
 	}()
-	d.WaitGroup.Done()
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine. deliver it before the waiting ends
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		d.Error(errors.New(fmt.Sprint(err)))
 	}
+	d.WaitGroup.Done()
 }
 
 // Todo equals to wg.Add(1)
@@ -119,7 +119,13 @@ func (d *doneGroup) Close() {
 func (d *doneGroup) WaitUntilError() error {
 	select {
 	case <-d.WaitDone():
-		return nil
+		// an error delivered before everything was done must not be lost
+		select {
+		case e := <-d.WaitError():
+			return e
+		default:
+			return nil
+		}
 	case e := <-d.WaitError():
 		return e
 	}
-- 
2.43.0


From 9fd52e8e3abbc885ee1aae0800e891a13bcc0bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:16 +0000
Subject: [PATCH 38/45] fix: the tolerated losses leave at least one copy and
 at most all

A tolerance rate out of [0,1) gave less than one or more copies than there are.
---
 src/apiserver/config/config.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index f65fe02..6e7c0f4 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -69,8 +69,15 @@ func (rp *ReplicationConfig) AtLeastCopiesNum() int {
 }
 
 func (rp *ReplicationConfig) ToleranceLossNum() int {
-	toleranceNum := rp.LossToleranceRate * float32(rp.CopiesCount)
-	return int(toleranceNum)
+	toleranceNum := int(rp.LossToleranceRate * float32(rp.CopiesCount))
+	// at least one copy must succeed
+	if toleranceNum > rp.CopiesCount-1 {
+		toleranceNum = rp.CopiesCount - 1
+	}
+	if toleranceNum < 0 {
+		toleranceNum = 0
+	}
+	return toleranceNum
 }
 
 type RsConfig struct {
-- 
2.43.0


From 656b4cecf46ac08c6d6ee059ee223e3548e3ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:16 +0000
Subject: [PATCH 39/45] fix: a replicated upload that failed to write cannot be
 committed

After a failed flush the buffer was dropped and a later write or commit went on
without those bytes; the buffer was reused while other copies were being sent.
---
 .../internal/usecase/service/copy_put_stream.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 01a1b0b..28d1dd2 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -14,6 +14,7 @@ type CopyPutStream struct {
 	rpConfig config.ReplicationConfig
 	cache    []byte
 	writers  []io.WriteCloser
+	err      error // the copies are incomplete once writing has failed
 }
 
 func NewCopyPutStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*CopyPutStream, error) {
@@ -43,10 +44,16 @@ func NewCopyPutStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 }
 
 func (c *CopyPutStream) Flush() (err error) {
+	if c.err != nil {
+		return c.err
+	}
 	if len(c.cache) == 0 {
 		return nil
 	}
-	defer func() { slices.Clear(&c.cache) }()
+	defer func() {
+		slices.Clear(&c.cache)
+		c.err = err
+	}()
 	dg := util.NewDoneGroup()
 	for _, wt := range c.writers {
 		dg.Todo()
@@ -64,6 +71,9 @@ func (c *CopyPutStream) Flush() (err error) {
 func (c *CopyPutStream) Write(p []byte) (n int, err error) {
 	length := len(p)
 	cur := 0
+	if c.err != nil {
+		return 0, c.err
+	}
 	for length > 0 {
 		next := int(c.rpConfig.BlockSize) - len(c.cache)
 		if next > length {
@@ -93,7 +103,10 @@ func (c *CopyPutStream) Close() error {
 }
 
 func (c *CopyPutStream) Commit(ok bool) error {
-	if err := c.Flush(); err != nil {
+	if !ok {
+		// nothing of it is kept
+		slices.Clear(&c.cache)
+	} else if err := c.Flush(); err != nil {
 		return err
 	}
 	wg := util.NewDoneGroup()
-- 
2.43.0


From b15cc3f6067a910a87fde4a2d9f7a03b83ad4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:16 +0000
Subject: [PATCH 40/45] fix: an erasure-coded upload that failed to write
 cannot be committed

After a failed flush the buffer was dropped and a later write or commit went on
without those bytes; the buffer was reused while other shards were being sent,
and the count was taken before the shards were written.
---
 .../internal/usecase/service/rs_encoder.go      | 17 ++++++++++++++---
 .../internal/usecase/service/rs_put_stream.go   |  5 ++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index 75441e0..f941f3f 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -14,6 +14,7 @@ type rsEncoder struct {
 	enc      reedsolomon.Encoder
 	cache    []byte
 	rsConfig config.RsConfig
+	err      error // the shards are incomplete once writing has failed
 }
 
 func NewEncoder(wrs []io.WriteCloser, rsCfg *config.RsConfig) *rsEncoder {
@@ -39,6 +40,9 @@ func (e *rsEncoder) Close() error {
 func (e *rsEncoder) Write(bt []byte) (int, error) {
 	length := len(bt)
 	cur := 0
+	if e.err != nil {
+		return 0, e.err
+	}
 	for length > 0 {
 		next := e.rsConfig.BlockSize() - len(e.cache)
 		if next > length {
@@ -56,11 +60,17 @@ func (e *rsEncoder) Write(bt []byte) (int, error) {
 	return len(bt), nil
 }
 
-func (e *rsEncoder) Flush() (int, error) {
+func (e *rsEncoder) Flush() (n int, err error) {
+	if e.err != nil {
+		return 0, e.err
+	}
 	if len(e.cache) == 0 {
 		return 0, nil
 	}
-	defer func() { e.cache = e.cache[:0] }()
+	defer func() {
+		e.cache = e.cache[:0]
+		e.err = err
+	}()
 
 	shards, err := e.enc.Split(e.cache)
 	if err != nil {
@@ -108,5 +118,6 @@ func (e *rsEncoder) Flush() (int, error) {
 		}(i, v)
 	}
 
-	return int(size), dg.WaitUntilError()
+	err = dg.WaitUntilError()
+	return int(atomic.LoadInt32(&size)), err
 }
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 2921064..3c8c12b 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -46,7 +46,10 @@ func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg
 }
 
 func (p *RSPutStream) Commit(ok bool) error {
-	if _, err := p.Flush(); err != nil {
+	if !ok {
+		// nothing of it is kept
+		p.cache = p.cache[:0]
+	} else if _, err := p.Flush(); err != nil {
 		return err
 	}
 
-- 
2.43.0


From f9e78505741d8d23bc996ccf115b7c612d427065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 41/45] fix: a shard that failed is not read again, and repairs
 are written in order

---
 .../internal/usecase/service/rs_decoder.go    | 60 +++++++++++--------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 381a802..9b3eb60 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -21,6 +21,9 @@ type rsDecoder struct {
 	cursor       int
 	total        int64
 	size         int64
+	err          error          // reading is over once it has failed
+	repairs      sync.WaitGroup // the running repairs of the latest block
+	repairErrs   []error        // why a lost shard could not be repaired
 }
 
 func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
@@ -34,6 +37,7 @@ func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *conf
 		cache:        buf[:0], // let cache and shardsBuffer using same address to reduce memory allocate and usage
 		shardsBuffer: buf,
 		rsCfg:        *rsCfg,
+		repairErrs:   make([]error, len(writes)),
 	}
 }
 
@@ -42,12 +46,16 @@ func (d *rsDecoder) cacheSize() int {
 }
 
 func (d *rsDecoder) Read(bt []byte) (int, error) {
+	if d.err != nil {
+		return 0, d.err
+	}
 	if d.cacheSize() == 0 {
 		// reset cache and cursor
 		d.cache = d.cache[:0]
 		d.cursor = 0
 		// fetch new data
 		if e := d.getData(); e != nil {
+			d.err = e
 			return 0, e
 		}
 	}
@@ -68,6 +76,12 @@ func (d *rsDecoder) getData() error {
 		return usecase.ErrOverRead
 	}
 
+	// what every shard holds of this block
+	length := d.rsCfg.BlockPerShard
+	if left := d.rsCfg.ShardSize(d.size - d.total); left < length {
+		length = left
+	}
+
 	// read shards
 	var wg sync.WaitGroup
 	shards := make([][]byte, d.rsCfg.AllShards())
@@ -76,17 +90,17 @@ func (d *rsDecoder) getData() error {
 			continue
 		}
 		// split shardsBuffer to avoid new memory alloc
-		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : (i+1)*d.rsCfg.BlockPerShard]
+		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : i*d.rsCfg.BlockPerShard+length]
 		wg.Add(1)
 		go func(idx int) {
 			defer graceful.Recover()
 			defer wg.Done()
-			n, err := io.ReadFull(d.readers[idx], shards[idx])
-			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			if _, err := io.ReadFull(d.readers[idx], shards[idx]); err != nil {
 				logs.Std().Debugf("read shard %d err: %s", idx, err)
+				// the shard is lost, and what follows in it would be misplaced
 				shards[idx] = nil
+				d.readers[idx] = nil
 			}
-			shards[idx] = shards[idx][:n]
 		}(i)
 	}
 	wg.Wait()
@@ -96,26 +110,22 @@ func (d *rsDecoder) getData() error {
 		return err
 	}
 
-	// save lost shards
-	var err error
-	go func() {
-		defer graceful.Recover()
-		for i, w := range d.writers {
-			if w == nil {
-				continue
-			}
-			wg.Add(1)
-			go func(idx int, wt io.Writer) {
-				defer graceful.Recover()
-				defer wg.Done()
-				if _, inner := wt.Write(shards[idx]); inner != nil {
-					err = inner
-					logs.Std().Errorf("rewrite lost shards fail: %s", inner)
-					return
-				}
-			}(i, w)
+	// save lost shards, one block after the other
+	d.repairs.Wait()
+	for i, w := range d.writers {
+		if w == nil || d.repairErrs[i] != nil {
+			continue
 		}
-	}()
+		d.repairs.Add(1)
+		go func(idx int, wt io.Writer, shard []byte) {
+			defer graceful.Recover()
+			defer d.repairs.Done()
+			if _, inner := wt.Write(shard); inner != nil {
+				d.repairErrs[idx] = inner
+				logs.Std().Errorf("rewrite lost shards fail: %s", inner)
+			}
+		}(i, w, shards[i])
+	}
 
 	// combine data shards
 	for i := range shards[:d.rsCfg.DataShards] {
@@ -129,9 +139,7 @@ func (d *rsDecoder) getData() error {
 	}
 
 	if !d.rsCfg.RewriteAsync {
-		wg.Wait()
-		return err
+		d.repairs.Wait()
 	}
-
 	return nil
 }
-- 
2.43.0


From a09e2f98f39d1de0476ae6c29a2c58d7af768200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 42/45] fix: a shard repaired only in part is not kept

---
 .../internal/usecase/service/rs_get_stream.go          | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 4a12272..6f205be 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -114,13 +114,19 @@ func (g *RSGetStream) Close() error {
 	wg := util.NewDoneGroup()
 	defer wg.Close()
 	var needUpdate bool
+	// only after reading the whole object its lost shards are complete
+	g.repairs.Wait()
+	repaired := g.total == g.size
+	for _, e := range g.repairErrs {
+		repaired = repaired && e == nil
+	}
 	for _, w := range g.writers {
 		if util.InstanceOf[Committer](w) {
-			needUpdate = true
+			needUpdate = repaired
 			wg.Todo()
 			go func(cm Committer) {
 				defer wg.Done()
-				if e := cm.Commit(true); e != nil {
+				if e := cm.Commit(repaired); e != nil {
 					wg.Error(e)
 				}
 			}(w.(Committer))
-- 
2.43.0


From 509c5c577851efa04a46f5bd1b24120c75f85383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 43/45] fix: an object can be read although a lost shard cannot
 be repaired

---
 src/apiserver/internal/usecase/service/rs_get_stream.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 6f205be..4ab7e09 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -57,10 +57,13 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 		if r.err != nil {
 			logs.Std().Error(r.err)
 			ip := lb.Select()
-			writers[r.index], r.err = NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
-			if r.err != nil {
-				return nil, r.err
+			wt, err := NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
+			if err != nil {
+				// the shard stays lost for now. whether enough are left shows when reading
+				logs.Std().Error(err)
+				continue
 			}
+			writers[r.index] = wt
 			// metadata update required
 			option.Locates[r.index] = ip
 		} else {
-- 
2.43.0


From a19311e87ee3b1754ddaa2b52fc14115d3a7c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:14 +0000
Subject: [PATCH 44/45] fix: uploads stop when the metadata lookup fails and
 remove an old version only if there is one

---
 src/apiserver/internal/controller/http/big_api.go        | 4 ++--
 src/apiserver/internal/usecase/service/object_service.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index 63c55fb..1c15925 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -226,7 +226,7 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 		defer dg.Done()
 		var inner error
 		metadata, inner = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
@@ -251,7 +251,7 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 		if err != nil {
 			return
 		}
-		if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
+		if metadata.Total > 0 && (!bucket.Versioning || metadata.Total >= bucket.VersionRemains) {
 			go func() {
 				defer graceful.Recover()
 				// if not err, delete first version
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 323fda0..07bf50b 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -119,7 +119,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 		defer dg.Done()
 		var inner error
 		metadata, inner = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
@@ -182,7 +182,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 	if vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver); err != nil {
 		return
 	}
-	if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
+	if metadata.Total > 0 && (!bucket.Versioning || metadata.Total >= bucket.VersionRemains) {
 		go func() {
 			defer graceful.Recover()
 			// if not err, delete first version
-- 
2.43.0


From bc6c8d348669ad5d0db42638a66254f38991e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:14 +0000
Subject: [PATCH 45/45] fix: a resumable upload is recorded only after its data
 was stored

---
 .../internal/controller/http/big_api.go       | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index 1c15925..e0c9680 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -76,7 +76,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf)
+		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf, nil)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -186,16 +186,12 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		ParityShards:  stream.Config.ParityShards,
 		ShardSize:     stream.Config.ShardSize(stream.Size),
 		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config)
+	}, stream.Config, func() error { return stream.Commit(true) })
 	if err != nil {
 		util.LogErr(stream.Commit(false))
 		response.FailErr(err, g)
 		return
 	}
-	if err = stream.Commit(true); err != nil {
-		response.FailErr(err, g)
-		return
-	}
 	response.OkJson(&entity.PutResp{
 		Name:    stream.Name,
 		Bucket:  stream.Bucket,
@@ -203,7 +199,7 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig) (verNum int32, err error) {
+func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig, commit func() error) (verNum int32, err error) {
 	// validate digest
 	if pool.Config.Object.Checksum {
 		getStream := service.NewRSTempStream(&service.StreamOption{
@@ -245,6 +241,16 @@ func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *ent
 	if err = dg.WaitUntilError(); err != nil {
 		return
 	}
+	// the bucket may have changed since the upload began
+	if bucket.Readonly {
+		return 0, response.NewError(http.StatusBadRequest, "bucket is readonly")
+	}
+	// the data must be stored before it is recorded
+	if commit != nil {
+		if err = commit(); err != nil {
+			return
+		}
+	}
 	if metadata != nil {
 		// update metadata
 		verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
-- 
2.43.0

