From 8093366776d80b7dcbe262e9305de3d3306f567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 01/43] fix: badger Set with a tag but no TTL stored an already
 expired entry

---
 provider/badger_txn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/provider/badger_txn.go b/provider/badger_txn.go
index e307d58..90134e0 100644
--- a/provider/badger_txn.go
+++ b/provider/badger_txn.go
@@ -21,7 +21,11 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return (*badger.Txn)(txn).Set(k, v)
 	}
 
-	entry := badger.NewEntry(k, v).WithTTL(meta.TTL).WithMeta(meta.Tag)
+	entry := badger.NewEntry(k, v).WithMeta(meta.Tag)
+	if meta.TTL != 0 {
+		// zero TTL means no expiration, while WithTTL(0) expires the entry right away
+		entry = entry.WithTTL(meta.TTL)
+	}
 	return (*badger.Txn)(txn).SetEntry(entry)
 }
 
-- 
2.43.0


From 324f6a3927fb21ac724b59d8c7975b4ce1b2dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 02/43] fix: badger scan with a prefix missed keys when
 reversed or when the offset lies outside the prefix

---
 provider/badger.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 58863e2..e0ada08 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"bytes"
+
 	"github.com/dgraph-io/badger"
 	"github.com/zhiqiangxu/mondis"
 )
@@ -104,21 +106,17 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
-	if len(option.Prefix) > 0 {
+	if len(option.Prefix) > 0 && !option.Reverse {
 		iterOpts.Prefix = option.Prefix
 	}
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
 
-	if option.Offset != nil {
-		iter.Seek(option.Offset)
-	} else {
-		iter.Rewind()
-	}
+	seekScanStart(iter, option)
 
 	var goon bool
-	for ; iter.Valid(); iter.Next() {
+	for ; iter.ValidForPrefix(option.Prefix); iter.Next() {
 		item := iter.Item()
 
 		err = item.Value(func(val []byte) error {
@@ -131,3 +129,37 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	}
 	return
 }
+
+// seekScanStart positions iter at the first key of the scan, an offset outside the prefix is clamped to it
+func seekScanStart(iter *badger.Iterator, option mondis.ProviderScanOption) {
+	start := option.Offset
+	if len(option.Prefix) > 0 {
+		if !option.Reverse {
+			if bytes.Compare(start, option.Prefix) < 0 {
+				start = option.Prefix
+			}
+		} else if end := prefixEnd(option.Prefix); end != nil && (len(start) == 0 || bytes.Compare(start, end) >= 0) {
+			// end is the smallest key greater than all keys with the prefix
+			iter.Seek(end)
+			if iter.Valid() && !iter.ValidForPrefix(option.Prefix) {
+				iter.Next()
+			}
+			return
+		}
+	}
+
+	// an empty start means from the very beginning (or end if reverse)
+	iter.Seek(start)
+}
+
+// prefixEnd returns nil if there's no key greater than all keys with the prefix
+func prefixEnd(prefix []byte) []byte {
+	for i := len(prefix) - 1; i >= 0; i-- {
+		if prefix[i] != 0xff {
+			end := append([]byte{}, prefix[:i+1]...)
+			end[i]++
+			return end
+		}
+	}
+	return nil
+}
-- 
2.43.0


From ebbe4e8beffe212967933872617e325bbb489f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 03/43] fix: badger store could not be opened after a crash
 left a torn value log tail

---
 provider/badger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/badger.go b/provider/badger.go
index e0ada08..2a738fe 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -19,7 +19,7 @@ func NewBadger() mondis.KVDB {
 
 // Open db
 func (b *Badger) Open(option mondis.KVOption) (err error) {
-	db, err := badger.Open(badger.DefaultOptions(option.Dir))
+	db, err := badger.Open(badger.DefaultOptions(option.Dir).WithTruncate(true))
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 84f9eb9881a23465cdbe862f4e7461f706718348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 04/43] fix: badger scan with a prefix skipped tables starting
 with a shorter key

---
 provider/badger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 2a738fe..345faa4 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -106,9 +106,8 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
-	if len(option.Prefix) > 0 && !option.Reverse {
-		iterOpts.Prefix = option.Prefix
-	}
+	// iterOpts.Prefix is not used: badger would skip a table whose smallest key is shorter than the prefix,
+	// since the timestamp suffix is taken for a part of that key
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
-- 
2.43.0


From 324dd54c80410b5806beda791974f0bca87b2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 05/43] fix: HSet of a new field with an empty value was
 dropped

---
 structure/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure/hash.go b/structure/hash.go
index c59ea0d..16aea95 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -289,7 +289,7 @@ func (t *TxStructure) updateHash(key, field []byte, fn func(oldValue []byte) ([]
 	}
 
 	// Check if new value is equal to old value.
-	if bytes.Equal(oldValue, newValue) {
+	if !isNew && bytes.Equal(oldValue, newValue) {
 		return nil
 	}
 
-- 
2.43.0


From 8fc560270180e411ab683e86b1cf4d9518e6feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 06/43] fix: LIndex out of range reported neither a value nor
 an error

---
 structure/list.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structure/list.go b/structure/list.go
index 52bf17a..722d89f 100644
--- a/structure/list.go
+++ b/structure/list.go
@@ -162,7 +162,9 @@ func (t *TxStructure) LIndex(key []byte, index int64) (data []byte, err error) {
 
 	if index >= meta.LIndex && index < meta.RIndex {
 		data, _, err = t.txn.Get(t.encodeListDataKey(key, index))
+		return
 	}
+	err = kv.ErrKeyNotFound
 	return
 }
 
-- 
2.43.0


From 36c62ff27b90ef6163a78d22962afef516e1838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 07/43] fix: compact.DecodeBytes panicked on a negative length

---
 kv/compact/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kv/compact/bytes.go b/kv/compact/bytes.go
index 977e048..b11d57c 100644
--- a/kv/compact/bytes.go
+++ b/kv/compact/bytes.go
@@ -20,7 +20,7 @@ func DecodeBytes(b []byte) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
-	if int64(len(b)) < n {
+	if n < 0 || int64(len(b)) < n {
 		return nil, nil, fmt.Errorf("insufficient bytes to decode value, expected length: %v", n)
 	}
 	return b[n:], b[:n], nil
-- 
2.43.0


From 1004147990b1580469b3372e2818fac6fdded43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 08/43] fix: Sequence.NextN handed out the ids of a renewed
 lease again

---
 document/meta/sequence/sequence.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 1598f7b..17c9889 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -191,8 +191,10 @@ func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
 		ranges = []IDRange{r}
 	}
 
-	r := IDRange{Start: seq.next, End: seq.next + n - remain}
+	end := seq.next + n - remain
+	r := IDRange{Start: seq.next, End: end}
 	ranges = append(ranges, r)
+	seq.next = end
 
 	return
 }
-- 
2.43.0


From d102827c81a12e319b49b9eaaac35954da8b4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 09/43] fix: Sequence.NextN with a negative count rewound the
 sequence

---
 document/meta/sequence/sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 17c9889..c951bc9 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -156,7 +156,7 @@ type IDRange struct {
 // NextN return n consecutive id in ranges
 // when succeed, len(ranges) should be either 1 or 2
 func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
-	if n == 0 {
+	if n <= 0 {
 		return
 	}
 
-- 
2.43.0


From 00d4e926e9546fd2239a361a074fb499e89c9a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 10/43] fix: Sequence.Clear kept ids put back before, which
 were then handed out twice

---
 document/meta/sequence/sequence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index c951bc9..51da0f1 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -107,6 +107,12 @@ func (seq *Sequence) Clear() (err error) {
 	}
 
 	err = seq.clearFunc()
+	if err != nil {
+		return
+	}
+
+	// ids put back belong to the sequence that was cleared
+	seq.putbacks = nil
 	return
 }
 
-- 
2.43.0


From a48a7d7d62dad7eeeb4d31755aea656aaa3ef61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 11/43] fix: clearing a hash sequence removed every field of
 the hash

---
 document/meta/sequence/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index 593113b..a2bb255 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -54,7 +54,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HClear(key)
+		err = txStruct.HDel(key, field)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 218bcdd9833fdf002fce4b4a1f8e5231f904dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 12/43] fix: releasing a sequence handed back ids that another
 instance had leased

---
 document/meta/sequence/hash.go   | 12 ++++++++++--
 document/meta/sequence/string.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index a2bb255..b2ebc2e 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -73,10 +74,17 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HSetInt64(key, field, s.next)
-		if err != nil {
+		leased, err := txStruct.HGetInt64(key, field)
+		if err != nil && err != kv.ErrKeyNotFound {
 			return
 		}
+		// hand back only if nobody else has leased or cleared in the meantime
+		if err == nil && leased == s.leased {
+			err = txStruct.HSetInt64(key, field, s.next)
+			if err != nil {
+				return
+			}
+		}
 
 		err = txn.Commit()
 		if err != nil {
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 3b9aaa5..094583d 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -69,10 +70,17 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.SetInt64(keyword, s.next)
-		if err != nil {
+		leased, err := txStruct.GetInt64(keyword)
+		if err != nil && err != kv.ErrKeyNotFound {
 			return
 		}
+		// hand back only if nobody else has leased or cleared in the meantime
+		if err == nil && leased == s.leased {
+			err = txStruct.SetInt64(keyword, s.next)
+			if err != nil {
+				return
+			}
+		}
 
 		err = txn.Commit()
 		if err != nil {
-- 
2.43.0


From 21d17dbf61520307ec0ef0580887a38de4095caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 13/43] fix: document.Sequence.ReleaseRemaining never committed
 what it handed back

---
 document/sequence.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/document/sequence.go b/document/sequence.go
index 018acf1..2c48493 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -83,8 +83,24 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
-	buf := numeric.Encode2Binary(s.next, nil)
-	err = txn.Set(s.key, buf, nil)
+	val, _, err := txn.Get(s.key)
+	if err != nil {
+		return
+	}
+	stored, err := numeric.DecodeFromBinary(val)
+	if err != nil {
+		return
+	}
+	// hand back only if nobody else has leased in the meantime
+	if stored == s.leased {
+		buf := numeric.Encode2Binary(s.next, nil)
+		err = txn.Set(s.key, buf, nil)
+		if err != nil {
+			return
+		}
+	}
+
+	err = txn.Commit()
 	if err != nil {
 		return
 	}
-- 
2.43.0


From a00194575a0f453896b5e588269022dda7ceb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 14/43] fix: a release whose commit reported an error left ids
 in use that may have been handed back

---
 document/meta/sequence/hash.go   | 7 ++-----
 document/meta/sequence/string.go | 7 ++-----
 document/sequence.go             | 7 ++-----
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index b2ebc2e..b71ea99 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -86,12 +86,9 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 			}
 		}
 
-		err = txn.Commit()
-		if err != nil {
-			return
-		}
-
+		// even a commit that reports an error may have handed back the rest of the lease
 		s.leased = s.next
+		err = txn.Commit()
 		return
 	}
 
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 094583d..41ba7b9 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -82,12 +82,9 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 			}
 		}
 
-		err = txn.Commit()
-		if err != nil {
-			return
-		}
-
+		// even a commit that reports an error may have handed back the rest of the lease
 		s.leased = s.next
+		err = txn.Commit()
 		return
 	}
 
diff --git a/document/sequence.go b/document/sequence.go
index 2c48493..e09d7b3 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -100,12 +100,9 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 		}
 	}
 
-	err = txn.Commit()
-	if err != nil {
-		return
-	}
-
+	// even a commit that reports an error may have handed back the rest of the lease
 	s.leased = s.next
+	err = txn.Commit()
 	return
 }
 
-- 
2.43.0


From 3253191433b0fe775bdd4120d24ebf1b28da21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 15/43] fix: GetDidRange reported ids of other collections or
 failed when its own was empty

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 5d56a96..487afe4 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -310,7 +310,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 	}
 
 	collectionDocumentPrefix := AppendCollectionDocumentPrefix(nil, ci.ID)
-	scanErr := t.Scan(mondis.ProviderScanOption{Offset: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, min, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
@@ -321,7 +321,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 		err = scanErr
 		return
 	}
-	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, max, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
-- 
2.43.0


From 3e0b377799e1e68f8f94f16f98c39e5421ff945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 16/43] fix: InsertOne reported success for a missing
 collection and after a failed write

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 487afe4..ca0296f 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -55,7 +55,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 	insertFunc := func(t *txn.Txn) (ierr error) {
 		ci := t.StartMetaCache().CollectionInfo(c.dbName, c.collectionName)
 		if ci == nil {
-			err = ErrCollectionNotExists
+			ierr = ErrCollectionNotExists
 			return
 		}
 		if origT != nil {
@@ -76,7 +76,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
 
 		ierr = t.Set(docKey, data, nil)
-		if err != nil {
+		if ierr != nil {
 			return
 		}
 
-- 
2.43.0


From 1485c95d56026b3a234123c8bbf2d1cb040a9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 17/43] fix: InsertOne overwrote a document that has the next
 id already

---
 document/dml/collection.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index ca0296f..81fb5c6 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -68,12 +68,23 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 			return
 		}
 
-		did, ierr = seq.Next()
-		if ierr != nil {
-			return
-		}
+		var (
+			docKey kv.Key
+			exists bool
+		)
+		// skip ids taken by InsertOneManaged or UpsertOne
+		for docKey == nil || exists {
+			did, ierr = seq.Next()
+			if ierr != nil {
+				return
+			}
 
-		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
+			docKey = EncodeCollectionDocumentKey(nil, ci.ID, did)
+			exists, ierr = t.Exists(docKey)
+			if ierr != nil {
+				return
+			}
+		}
 
 		ierr = t.Set(docKey, data, nil)
 		if ierr != nil {
-- 
2.43.0


From 55fd023afbd24d2b539b718b3556f4b415f17bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 18/43] fix: Handle.Check kept its lock after reporting a
 conflict

---
 document/schema/handle.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/schema/handle.go b/document/schema/handle.go
index ecab688..2413a93 100644
--- a/document/schema/handle.go
+++ b/document/schema/handle.go
@@ -54,6 +54,7 @@ func (h *Handle) Check(ctx context.Context, startMetaCache *MetaCache, referredC
 
 			for _, collectionIDs := range cache.schemaDiffs[diffIdx] {
 				if _, ok := referredCollections[collectionIDs]; ok {
+					h.mu.RUnlock()
 					return
 				}
 			}
-- 
2.43.0


From cb38c484f12fa43b2a4ea5c7eddecf4347300c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 19/43] fix: legacy DeleteAll without a transaction used a
 read-only one

---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 515dacb..7ac21e2 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -298,7 +298,7 @@ func (c *Collection) DeleteAll(txn mondis.ProviderTxn) (n int, err error) {
 		return
 	}
 
-	err = tutil.RunInNewTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
+	err = tutil.RunInNewUpdateTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
 		newN, err := c.deleteAllWithTxn(txn)
 		n += newN
 		return err
-- 
2.43.0


From 923b274cedb87aef0698aefa4b355b1871e679dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 20/43] fix: legacy InsertOne overwrote a document that has the
 next id already

---
 document/collection.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index 7ac21e2..6a8375e 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -76,15 +76,27 @@ func (c *Collection) InsertOne(doc bson.M, txn mondis.ProviderTxn) (did int64, e
 	defer c.db.closer.Done()
 	// prologue end
 
-	udid, err := c.documentSequence.Next()
-	if err != nil {
-		return
-	}
+	insertFunc := func(txn mondis.ProviderTxn) (err error) {
+		var (
+			udid   uint64
+			docKey kv.Key
+			exists bool
+		)
+		// skip ids taken by InsertOneManaged or UpsertOne
+		for docKey == nil || exists {
+			udid, err = c.documentSequence.Next()
+			if err != nil {
+				return
+			}
 
-	did = int64(udid)
-	docKey := EncodeCollectionDocumentKey(nil, c.cid, did)
+			did = int64(udid)
+			docKey = EncodeCollectionDocumentKey(nil, c.cid, did)
+			exists, err = txn.Exists(docKey)
+			if err != nil {
+				return
+			}
+		}
 
-	insertFunc := func(txn mondis.ProviderTxn) error {
 		return txn.Set(docKey, data, nil)
 	}
 
-- 
2.43.0


From b08941ec57ce7479ea50e1be658e2898e8b81840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 21/43] fix: a job with an error could not be read back from
 the queue or the history

---
 document/model/model.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/document/model/model.go b/document/model/model.go
index 46389ed..506ef83 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/zhiqiangxu/util/osc"
 )
@@ -236,6 +237,39 @@ func (ii *IndexInfo) Clone() *IndexInfo {
 	return &clone
 }
 
+// plainJob is Job without its json methods
+type plainJob Job
+
+// jobJSON is the json form of Job, Error is stored as its message
+type jobJSON struct {
+	*plainJob
+	Error *string
+}
+
+// MarshalJSON implements json.Marshaler
+func (job *Job) MarshalJSON() (b []byte, err error) {
+	j := jobJSON{plainJob: (*plainJob)(job)}
+	if job.Error != nil {
+		msg := job.Error.Error()
+		j.Error = &msg
+	}
+	return json.Marshal(j)
+}
+
+// UnmarshalJSON implements json.Unmarshaler
+func (job *Job) UnmarshalJSON(b []byte) (err error) {
+	j := jobJSON{plainJob: (*plainJob)(job)}
+	err = json.Unmarshal(b, &j)
+	if err != nil {
+		return
+	}
+	job.Error = nil
+	if j.Error != nil {
+		job.Error = errors.New(*j.Error)
+	}
+	return
+}
+
 // Encode encodes job with json format.
 func (job *Job) Encode() (b []byte, err error) {
 	if len(job.RawArg) == 0 {
-- 
2.43.0


From 4ae3d20bed3f28c72ee8602ec9592ac3c73b1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 22/43] fix: CreateSchema with indices panicked on a nil map

---
 document/ddl/ddl_api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 964ae50..d2bfcc7 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -53,8 +53,9 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 			collectInfo := dbInfo.Collections[cn]
 			if collectInfo == nil {
 				collectInfo = &model.CollectionInfo{
-					ID:   nextID + 1,
-					Name: cn,
+					ID:      nextID + 1,
+					Name:    cn,
+					Indices: make(map[string]*model.IndexInfo),
 				}
 				nextID++
 				dbInfo.Collections[cn] = collectInfo
-- 
2.43.0


From 0fb394ad9ac43733e5a3fe762320017f6927f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 23/43] fix: CreateSchema used more global ids than it took

---
 document/ddl/ddl_api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index d2bfcc7..bd97a9b 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -16,7 +16,11 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		return
 	}
 
-	n := 2 + len(input.Collections) + len(input.Indices)
+	// one for the job, one for the db, and one for each collection and each index
+	n := 2 + len(input.Collections)
+	for _, cn := range input.Collections {
+		n += len(input.Indices[cn])
+	}
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		queueLength, err := m.DDLJobQueueLen()
-- 
2.43.0


From 4f8087d8884911cb33c68059e5082417833a2470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 24/43] fix: CreateSchema accepted requests it could not carry
 out as given

---
 document/ddl/input.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/document/ddl/input.go b/document/ddl/input.go
index a87b104..918548b 100644
--- a/document/ddl/input.go
+++ b/document/ddl/input.go
@@ -19,18 +19,34 @@ func (in *CreateSchemaInput) Validate() (err error) {
 		err = fmt.Errorf("db empty")
 		return
 	}
+	collections := make(map[string]bool)
 	for _, cn := range in.Collections {
 		if cn == "" {
 			err = fmt.Errorf("collection empty")
 			return
 		}
+		if collections[cn] {
+			err = fmt.Errorf("collection duplicate: %s", cn)
+			return
+		}
+		collections[cn] = true
 	}
-	for _, indexInfos := range in.Indices {
+	for cn, indexInfos := range in.Indices {
+		if len(indexInfos) > 0 && !collections[cn] {
+			err = fmt.Errorf("index for unknown collection: %s", cn)
+			return
+		}
+		indices := make(map[string]bool)
 		for _, indexInfo := range indexInfos {
 			err = indexInfo.Validate()
 			if err != nil {
 				return
 			}
+			if indices[indexInfo.Name] {
+				err = fmt.Errorf("index duplicate: %s", indexInfo.Name)
+				return
+			}
+			indices[indexInfo.Name] = true
 		}
 	}
 	return
-- 
2.43.0


From 1102c7218c556cfafc1a4ee65976380e2f101440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 25/43] fix: a creation of an existing db did not fail at once

---
 document/ddl/util.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/document/ddl/util.go b/document/ddl/util.go
index 4157bad..e01645f 100644
--- a/document/ddl/util.go
+++ b/document/ddl/util.go
@@ -11,10 +11,7 @@ func checkDBNameNotExists(m *meta.Meta, dbName string) (exists bool, err error)
 		return
 	}
 
-	if dbi != nil {
-		err = ErrDBAlreadyExists
-		return
-	}
+	exists = dbi != nil
 	return
 }
 
-- 
2.43.0


From 88b144134ffde06df185b946b32f4a500b27387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 26/43] fix: schema diffs recorded the state before the change

---
 document/ddl/ddl_worker.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f44c527..98a680a 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -372,7 +372,6 @@ func updateSchemaVersion(m *meta.Meta, job *model.Job) (schemaVersion int64, err
 		Type:          job.Type,
 		CollectionIDs: job2CollectionIDs(job),
 		Arg:           job.Arg,
-		RawArg:        job.RawArg,
 	}
 
 	err = m.SetSchemaDiff(diff)
-- 
2.43.0


From 834b9e094a4bec76905268dba8b65aa66bcaacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 27/43] fix: the ddl queue accepted one job more than its bound

---
 document/ddl/ddl_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index bd97a9b..ac12f8e 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -27,7 +27,7 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		if err != nil {
 			return
 		}
-		if queueLength > maxJobsInQueue {
+		if queueLength >= maxJobsInQueue {
 			err = ErrJobsInQueueExceeded
 			return
 		}
-- 
2.43.0


From e04488493449e57d83a631b33a1ee6ad7e4ab46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 28/43] fix: a failed attempt of a schema change committed what
 it had done so far

---
 document/ddl/ddl_worker.go | 45 ++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index 98a680a..b12ece9 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -71,6 +71,7 @@ func (w *worker) handleJobQueue() (err error) {
 		job                 *model.Job
 	)
 	for {
+		runJobErr = nil
 		err = util.RunInNewUpdateTxnWithCallback(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 			m := meta.NewMeta(txn)
 
@@ -93,22 +94,16 @@ func (w *worker) handleJobQueue() (err error) {
 
 			util2.RunWithRecovery(func() {
 				schemaVersion, afterCommitFunc4Job, failNow, runJobErr = w.runJob(m, job)
-			}, func(interface{}) {
-				job.State = model.JobStateCancelling
+			}, func(r interface{}) {
+				failNow = false
+				runJobErr = fmt.Errorf("panic: %v", r)
 			})
 
 			if runJobErr != nil {
-				job.ErrorCount++
-				job.Error = runJobErr
 				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
-				if failNow || job.ErrorCount >= jobMaxErrorCount {
-					err = w.finishJob(m, job)
-					return
-				}
-			}
-
-			if job.IsCancelled() {
-				err = w.finishJob(m, job)
+				failNow = failNow || job.IsCancelled()
+				// nothing of a failed attempt may be committed
+				err = runJobErr
 				return
 			}
 
@@ -124,6 +119,9 @@ func (w *worker) handleJobQueue() (err error) {
 		if nojob {
 			return
 		}
+		if runJobErr != nil {
+			err = w.handleJobErr(runJobErr, failNow)
+		}
 		if w.d.options.Callback.OnChanged != nil {
 			changeErr := runJobErr
 			if changeErr == nil {
@@ -143,6 +141,29 @@ func (w *worker) handleJobQueue() (err error) {
 	}
 }
 
+// handleJobErr counts a failed attempt of the first job, and gives up when it should not be tried again.
+func (w *worker) handleJobErr(runJobErr error, failNow bool) (err error) {
+	err = util.RunInNewUpdateTxn(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
+		m := meta.NewMeta(txn)
+		job, err := w.getFirstJob(m)
+		if err != nil || job == nil {
+			return
+		}
+
+		job.ErrorCount++
+		job.Error = runJobErr
+		if failNow || job.ErrorCount >= jobMaxErrorCount {
+			job.State = model.JobStateCancelled
+			err = w.finishJob(m, job)
+			return
+		}
+
+		err = w.updateJob(m, job)
+		return
+	})
+	return
+}
+
 func (w *worker) runJob(m *meta.Meta, job *model.Job) (schemaVersion int64, afterCommitFunc4Job func(), failNow bool, err error) {
 	if job.IsFinished() {
 		return
-- 
2.43.0


From 122eff9fabeafd93ebc9be605238493c77feeffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 29/43] fix: a set in a remote transaction was decoded into the
 response

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 6ab956a..4a2712e 100644
--- a/server/common.go
+++ b/server/common.go
@@ -43,7 +43,7 @@ func handleTxnContinuedFrame(
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-			err = setResp.Unmarshal(nextFrame.Payload)
+			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
 				close = true
 				setResp.Code = CodeInvalidRequest
-- 
2.43.0


From b797b1605e54a732a4c7c6ecf23710ed203d2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 30/43] fix: requests of a remote transaction shared their
 fields with earlier ones

---
 server/common.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/server/common.go b/server/common.go
index 4a2712e..bc13f6e 100644
--- a/server/common.go
+++ b/server/common.go
@@ -15,22 +15,23 @@ func handleTxnContinuedFrame(
 	writer qrpc.FrameWriter,
 	frame *qrpc.RequestFrame,
 	txn mondis.ProviderTxn) {
-	var (
-		getReq     pb.GetRequest
-		getResp    pb.GetResponse
-		deleteReq  pb.DeleteRequest
-		deleteResp pb.DeleteResponse
-		setReq     pb.SetRequest
-		setResp    pb.SetResponse
-		existsReq  pb.ExistsRequest
-		existsResp pb.ExistsResponse
-		scanReq    pb.ScanRequest
-		scanResp   pb.ScanResponse
-		commitResp pb.CommitResponse
-		err        error
-		close      bool
-	)
 	for {
+		// each request has its own, nothing of it may show up in later ones
+		var (
+			getReq     pb.GetRequest
+			getResp    pb.GetResponse
+			deleteReq  pb.DeleteRequest
+			deleteResp pb.DeleteResponse
+			setReq     pb.SetRequest
+			setResp    pb.SetResponse
+			existsReq  pb.ExistsRequest
+			existsResp pb.ExistsResponse
+			scanReq    pb.ScanRequest
+			scanResp   pb.ScanResponse
+			commitResp pb.CommitResponse
+			err        error
+			close      bool
+		)
 		nextFrame := <-frame.FrameCh()
 		if nextFrame == nil {
 			txn.Discard()
-- 
2.43.0


From 51bc3f3902ecf0dc0446de08551a17b130f1f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 31/43] fix: losing the connection in a remote transaction made
 the client panic

---
 client/client_txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 8dce8a9..7bb105e 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -52,6 +52,9 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
+		if respFrame == nil {
+			err = qrpc.ErrConnAlreadyClosed
+		}
 		return
 	}
 
-- 
2.43.0


From 30b1419b8d78b2ca472e5435ea6d87570c6fe018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 32/43] fix: a remote delete did not report ErrTxnTooBig

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 2b9545b..c004df6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -193,7 +193,13 @@ func parseDeleteRespFromFrame(respFrame *qrpc.Frame) (err error) {
 	}
 
 	if deleteResp.Code != 0 {
-		err = newPBError(deleteResp.Code, deleteResp.Msg)
+
+		if deleteResp.Code == server.CodeTxnTooBig {
+			err = kv.ErrTxnTooBig
+		} else {
+			err = newPBError(deleteResp.Code, deleteResp.Msg)
+		}
+
 		return
 	}
 
-- 
2.43.0


From 98e6eb65adea263246e50e4ac5a5e4657c87830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 33/43] fix: Stop closed the store under requests in progress

---
 server/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index 5c82433..da7931e 100644
--- a/server/server.go
+++ b/server/server.go
@@ -52,11 +52,11 @@ func (s *Server) Start() (err error) {
 // Stop server
 func (s *Server) Stop() (err error) {
 
-	err = s.kvdb.Close()
-	if err != nil {
-		return
-	}
-
+	// the store is closed only after the last request has been handled
 	err = s.qserver.Shutdown()
+	closeErr := s.kvdb.Close()
+	if err == nil {
+		err = closeErr
+	}
 	return
 }
-- 
2.43.0


From c579e2df8b9f15086f6e90dd09ce9e95ea6491a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 34/43] fix: a scan request without options crashed the server

---
 server/common.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index bc13f6e..bd2acdd 100644
--- a/server/common.go
+++ b/server/common.go
@@ -285,9 +285,14 @@ func copyBytes(in []byte) (out []byte) {
 
 func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResponse) {
 	pso := req.ProviderScanOption
+	if pso == nil {
+		resp.Code = CodeInvalidRequest
+		resp.Msg = "no scan option"
+		return
+	}
 	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
 	limit := int(req.Limit)
-	if limit == 0 {
+	if limit <= 0 {
 		goto DONE
 	}
 	if limit > mondis.MaxEntry {
-- 
2.43.0


From 60049fd7877602d05a79fbb0542d0769b3b25f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 35/43] fix: closing a connection from a handler could bring
 the server down

---
 server/cmd_delete.go |  2 +-
 server/cmd_exists.go |  2 +-
 server/cmd_get.go    |  2 +-
 server/cmd_scan.go   |  2 +-
 server/cmd_set.go    |  2 +-
 server/common.go     | 32 ++++++++++++++++++++++----------
 server/server.go     | 16 +++++++++++++++-
 7 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/server/cmd_delete.go b/server/cmd_delete.go
index 4bd1f21..7b80a03 100644
--- a/server/cmd_delete.go
+++ b/server/cmd_delete.go
@@ -28,7 +28,7 @@ func (cmd *CmdDelete) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFram
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		drain(frame)
 		return
 	}
 
diff --git a/server/cmd_exists.go b/server/cmd_exists.go
index eec8ad0..83a46a6 100644
--- a/server/cmd_exists.go
+++ b/server/cmd_exists.go
@@ -28,7 +28,7 @@ func (cmd *CmdExists) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFram
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		drain(frame)
 		return
 	}
 
diff --git a/server/cmd_get.go b/server/cmd_get.go
index 77cdfbd..7282f4a 100644
--- a/server/cmd_get.go
+++ b/server/cmd_get.go
@@ -28,7 +28,7 @@ func (cmd *CmdGet) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFrame)
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		drain(frame)
 		return
 	}
 
diff --git a/server/cmd_scan.go b/server/cmd_scan.go
index 14850d4..6f00e16 100644
--- a/server/cmd_scan.go
+++ b/server/cmd_scan.go
@@ -28,7 +28,7 @@ func (cmd *CmdScan) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFrame)
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		drain(frame)
 		return
 	}
 
diff --git a/server/cmd_set.go b/server/cmd_set.go
index 25f2f79..a6a7c5b 100644
--- a/server/cmd_set.go
+++ b/server/cmd_set.go
@@ -28,7 +28,7 @@ func (cmd *CmdSet) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFrame)
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		drain(frame)
 		return
 	}
 
diff --git a/server/common.go b/server/common.go
index bd2acdd..9b8616f 100644
--- a/server/common.go
+++ b/server/common.go
@@ -55,14 +55,15 @@ func handleTxnContinuedFrame(
 
 			{
 				bytes, _ := setResp.Marshal()
-				err = writeStreamRespBytes(writer, frame, SetRespCmd, bytes, false)
+				err = writeStreamRespBytes(writer, frame, SetRespCmd, bytes, close)
 				if err != nil {
 					logger.Instance().Error("SetCmd writeStreamRespBytes", zap.Error(err))
 					return
 				}
 			}
 			if close {
-				frame.Close()
+				txn.Discard()
+				drain(frame)
 				return
 			}
 		case ExistsCmd:
@@ -78,14 +79,15 @@ func handleTxnContinuedFrame(
 
 			{
 				bytes, _ := existsResp.Marshal()
-				err = writeStreamRespBytes(writer, frame, ExistsRespCmd, bytes, false)
+				err = writeStreamRespBytes(writer, frame, ExistsRespCmd, bytes, close)
 				if err != nil {
 					logger.Instance().Error("ExistsCmd writeStreamRespBytes", zap.Error(err))
 					return
 				}
 			}
 			if close {
-				frame.Close()
+				txn.Discard()
+				drain(frame)
 				return
 			}
 		case GetCmd:
@@ -101,14 +103,15 @@ func handleTxnContinuedFrame(
 
 			{
 				bytes, _ := getResp.Marshal()
-				err = writeStreamRespBytes(writer, frame, GetRespCmd, bytes, false)
+				err = writeStreamRespBytes(writer, frame, GetRespCmd, bytes, close)
 				if err != nil {
 					logger.Instance().Error("GetCmd writeStreamRespBytes", zap.Error(err))
 					return
 				}
 			}
 			if close {
-				frame.Close()
+				txn.Discard()
+				drain(frame)
 				return
 			}
 		case DeleteCmd:
@@ -124,14 +127,15 @@ func handleTxnContinuedFrame(
 
 			{
 				bytes, _ := deleteResp.Marshal()
-				err = writeStreamRespBytes(writer, frame, DeleteRespCmd, bytes, false)
+				err = writeStreamRespBytes(writer, frame, DeleteRespCmd, bytes, close)
 				if err != nil {
 					logger.Instance().Error("DeleteCmd writeStreamRespBytes", zap.Error(err))
 					return
 				}
 			}
 			if close {
-				frame.Close()
+				txn.Discard()
+				drain(frame)
 				return
 			}
 		case ScanCmd:
@@ -147,14 +151,15 @@ func handleTxnContinuedFrame(
 
 			{
 				bytes, _ := scanResp.Marshal()
-				err = writeStreamRespBytes(writer, frame, ScanRespCmd, bytes, false)
+				err = writeStreamRespBytes(writer, frame, ScanRespCmd, bytes, close)
 				if err != nil {
 					logger.Instance().Error("ScanCmd writeStreamRespBytes", zap.Error(err))
 					return
 				}
 			}
 			if close {
-				frame.Close()
+				txn.Discard()
+				drain(frame)
 				return
 			}
 		case CommitCmd:
@@ -178,6 +183,13 @@ func handleTxnContinuedFrame(
 	}
 }
 
+// drain ignores the rest of a stream that has been answered for good.
+// The connection stays: closing it from a handler races with the handlers of its other streams.
+func drain(frame *qrpc.RequestFrame) {
+	for range frame.FrameCh() {
+	}
+}
+
 func handleTxnSet(txn mondis.ProviderTxn, req *pb.SetRequest, resp *pb.SetResponse) {
 	meta := metaFromSetRequest(req)
 	err := txn.Set(req.Key, req.Value, meta)
diff --git a/server/server.go b/server/server.go
index da7931e..30b2548 100644
--- a/server/server.go
+++ b/server/server.go
@@ -3,6 +3,8 @@ package server
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/qrpc"
+	"github.com/zhiqiangxu/util/logger"
+	"go.uber.org/zap"
 )
 
 type (
@@ -33,7 +35,19 @@ func New(addr string, kvdb mondis.KVDB, option Option, kvoption mondis.KVOption)
 	mux.Handle(GetCmd, &CmdGet{s})
 	mux.Handle(DeleteCmd, &CmdDelete{s})
 	mux.Handle(ScanCmd, &CmdScan{s})
-	bindings := []qrpc.ServerBinding{qrpc.ServerBinding{Addr: addr, Handler: mux}}
+	bindings := []qrpc.ServerBinding{qrpc.ServerBinding{Addr: addr, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, frame *qrpc.RequestFrame) {
+		switch frame.Cmd.Routing() {
+		case SetCmd, ExistsCmd, GetCmd, DeleteCmd, ScanCmd:
+			mux.ServeQRPC(w, frame)
+		default:
+			// mux would close the connection
+			err := w.ResetFrame(frame.RequestID, 0)
+			if err != nil {
+				logger.Instance().Error("ResetFrame", zap.Error(err))
+			}
+			drain(frame)
+		}
+	})}}
 	qserver := qrpc.NewServer(bindings)
 
 	s.qserver = qserver
-- 
2.43.0


From 056bcc9ce44d31368f6addd9651506e95b40b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 36/43] fix: Stop and transactions could wait for a closed
 connection forever

---
 server/common.go | 19 +++++++++++++++++--
 server/server.go | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/server/common.go b/server/common.go
index 9b8616f..7ea7ab5 100644
--- a/server/common.go
+++ b/server/common.go
@@ -32,7 +32,14 @@ func handleTxnContinuedFrame(
 			err        error
 			close      bool
 		)
-		nextFrame := <-frame.FrameCh()
+		var nextFrame *qrpc.Frame
+		select {
+		case nextFrame = <-frame.FrameCh():
+		case <-frame.Context().Done():
+			// the connection is gone, FrameCh may never be closed
+			txn.Discard()
+			return
+		}
 		if nextFrame == nil {
 			txn.Discard()
 			err = writeStreamRespBytes(writer, frame, DiscardRespCmd, nil, true)
@@ -186,7 +193,15 @@ func handleTxnContinuedFrame(
 // drain ignores the rest of a stream that has been answered for good.
 // The connection stays: closing it from a handler races with the handlers of its other streams.
 func drain(frame *qrpc.RequestFrame) {
-	for range frame.FrameCh() {
+	for {
+		select {
+		case nextFrame := <-frame.FrameCh():
+			if nextFrame == nil {
+				return
+			}
+		case <-frame.Context().Done():
+			return
+		}
 	}
 }
 
diff --git a/server/server.go b/server/server.go
index 30b2548..8bc0a33 100644
--- a/server/server.go
+++ b/server/server.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"sync"
+
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/qrpc"
 	"github.com/zhiqiangxu/util/logger"
@@ -17,6 +19,9 @@ type (
 		kvoption mondis.KVOption
 		kvdb     mondis.KVDB
 		qserver  *qrpc.Server
+		mu       sync.Mutex
+		stopping bool
+		requests sync.WaitGroup // being handled
 	}
 	// KVServer is implemneted by Server
 	KVServer interface {
@@ -36,6 +41,11 @@ func New(addr string, kvdb mondis.KVDB, option Option, kvoption mondis.KVOption)
 	mux.Handle(DeleteCmd, &CmdDelete{s})
 	mux.Handle(ScanCmd, &CmdScan{s})
 	bindings := []qrpc.ServerBinding{qrpc.ServerBinding{Addr: addr, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, frame *qrpc.RequestFrame) {
+		if !s.enter() {
+			return
+		}
+		defer s.requests.Done()
+
 		switch frame.Cmd.Routing() {
 		case SetCmd, ExistsCmd, GetCmd, DeleteCmd, ScanCmd:
 			mux.ServeQRPC(w, frame)
@@ -63,11 +73,34 @@ func (s *Server) Start() (err error) {
 	return s.qserver.ListenAndServe()
 }
 
+// enter returns false if the server is stopping
+func (s *Server) enter() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.stopping {
+		return false
+	}
+	s.requests.Add(1)
+	return true
+}
+
 // Stop server
 func (s *Server) Stop() (err error) {
 
+	s.mu.Lock()
+	s.stopping = true
+	s.mu.Unlock()
+
+	// Shutdown also waits for the readers of all connections,
+	// one that gets a frame of a stream while its connection is being closed never ends
+	closed := make(chan error, 2)
+	s.qserver.OnShutdown(func() { closed <- nil })
+	go func() { closed <- s.qserver.Shutdown() }()
+	err = <-closed
+
 	// the store is closed only after the last request has been handled
-	err = s.qserver.Shutdown()
+	s.requests.Wait()
 	closeErr := s.kvdb.Close()
 	if err == nil {
 		err = closeErr
-- 
2.43.0


From e2fcead60816fc9b904dff78b37137c72b30dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 37/43] fix: creating an index changed the caller's definition
 and kept sharing it

---
 document/collection.go | 2 +-
 document/keys.go       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 6a8375e..33c421f 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -474,7 +474,7 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	}
 
 	c.mu.Lock()
-	c.indexMap[idef.Name] = idef
+	c.indexMap[idef.Name] = idef.Clone()
 	c.mu.Unlock()
 	return
 }
diff --git a/document/keys.go b/document/keys.go
index 8b50a30..92e6421 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -85,6 +85,8 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		buf = make([]byte, 0, bufLen)
 	}
 
+	// fields belong to the caller
+	fields = append([]IndexField(nil), fields...)
 	if len(fields) == 1 {
 		fields[0].Desc = false
 	} else {
-- 
2.43.0


From ed9fd051a879edba5b3ceb986232a2cf449ae16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 38/43] fix: a second index of the same name replaced the first

---
 document/collection.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 33c421f..a698136 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -451,6 +451,17 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	if err != nil {
 		return
 	}
+
+	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
+	exists, err := txn.Exists(indexName2IDKey)
+	if err != nil {
+		return
+	}
+	if exists {
+		err = fmt.Errorf("there already exists an index %s", idef.Name)
+		return
+	}
+
 	iid, err = c.db.nextIndexID()
 	if err != nil {
 		return
@@ -460,7 +471,6 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
 	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
-- 
2.43.0


From 0e0de762dc465d008dadb84afe77e48aa532c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 39/43] fix: an index whose name could not be stored was
 reported as created

---
 document/collection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index a698136..0a94069 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -471,7 +471,10 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	if err != nil {
+		return
+	}
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
 	if err != nil {
-- 
2.43.0


From 7e3947557dea191ecc1904b6ea5ae834ce2a0039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 40/43] fix: the index cache could miss the last of several
 concurrent changes

---
 document/collection.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/document/collection.go b/document/collection.go
index 0a94069..f669c57 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -22,6 +22,7 @@ type Collection struct {
 	cid              int64
 	name             string
 	documentSequence *Sequence
+	indexMu          sync.Mutex // held while indexes change, in the store and in indexMap
 	mu               sync.RWMutex
 	indexMap         map[string]IndexDefinition
 }
@@ -435,6 +436,9 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.indexMu.Lock()
+	defer c.indexMu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
@@ -572,6 +576,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.indexMu.Lock()
+	defer c.indexMu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
-- 
2.43.0


From cc48bace85df20cdb9d79b343a5a1cbb162f53a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:48 +0000
Subject: [PATCH 41/43] fix: a failed renewal of a legacy sequence's lease
 could make it hand out ids of others

---
 document/sequence.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/document/sequence.go b/document/sequence.go
index e09d7b3..1d3c41e 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -40,34 +40,33 @@ func (s *Sequence) updateLease() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
+	var next uint64
 	val, _, err := txn.Get(s.key)
 	switch {
 	case err == kv.ErrKeyNotFound:
-		s.next = 0
 	case err != nil:
 		return
 	default:
-		var num uint64
-		num, err = numeric.DecodeFromBinary(val)
+		next, err = numeric.DecodeFromBinary(val)
 		if err != nil {
 			return
 		}
-		s.next = num
 	}
 
-	lease := s.next + s.bandwidth
+	lease := next + s.bandwidth
 	buf := numeric.Encode2Binary(lease, nil)
 	err = txn.Set(s.key, buf, nil)
 	if err != nil {
 		return
 	}
 
-	oldLease := s.leased
-	s.leased = lease
 	err = txn.Commit()
 	if err != nil {
-		s.leased = oldLease
+		return
 	}
+
+	s.next = next
+	s.leased = lease
 	return
 }
 
-- 
2.43.0


From ceea7bc6881d4ad88c2ae8ac5f58c04ae35e58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 42/43] fix: GetAll returned binary fields of a document
 overwritten by later ones

---
 document/dml/collection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 81fb5c6..d005dba 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -373,7 +373,8 @@ func (c *Collection) GetAll(slicePtr interface{}, t *txn.Txn) (err error) {
 	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		item := reflect.New(et)
 		ptr := item.Interface()
-		err = bson.Unmarshal(value, ptr)
+		// value is only valid until the callback returns, and binary fields refer to the bytes they are decoded from
+		err = bson.Unmarshal(append([]byte(nil), value...), ptr)
 		if err != nil {
 			return false
 		}
-- 
2.43.0


From c3c1015b9fc0e4bacac14017b127ea76d381ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:51 +0000
Subject: [PATCH 43/43] fix: LevelDB scans reported success when they could not
 read everything

---
 provider/leveldb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/leveldb.go b/provider/leveldb.go
index 4edd664..8b33da8 100644
--- a/provider/leveldb.go
+++ b/provider/leveldb.go
@@ -97,6 +97,11 @@ func (l *LevelDB) Scan(option mondis.ProviderScanOption, fn func(key []byte, val
 		slice = util.BytesPrefix(option.Prefix)
 	}
 	iter := l.db.NewIterator(slice, nil)
+	defer func() {
+		// what could not be read ends the iteration, too
+		err = iter.Error()
+		iter.Release()
+	}()
 	if option.Offset != nil {
 		if !iter.Seek(option.Offset) {
 			return
-- 
2.43.0

