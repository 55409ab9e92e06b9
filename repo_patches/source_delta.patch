From 101a3cc7483ade1b913ce8e72a59ea08caf5565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 01/15] fix: Encrypt must not write into the spare capacity of
 the caller's groups slice

---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From 5ac2b2affd70f800764fbe09b3846ccf684fdd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 02/15] fix: make Put and Update of the in-memory IO Provider
 atomic

---
 io/mem.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..39b4739 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -24,11 +24,14 @@ import (
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
 	data sync.Map
+
+	// mutex makes the check and the store in Update atomic with respect to Delete.
+	mutex sync.Mutex
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{data: sync.Map{}}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,10 +41,9 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
-	if _, ok := m.data.Load(key); ok {
+	if _, loaded := m.data.LoadOrStore(key, data); loaded {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
 	return nil
 }
 
@@ -57,6 +59,9 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
@@ -66,6 +71,10 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
+
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+
 	m.data.Delete(key)
 	return nil
 }
-- 
2.43.0


From 8157094447a2a79e5638df3bc56dbd36f31d22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 03/15] fix: the in-memory IO Provider must not share its data
 with the caller

---
 io/mem.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index 39b4739..8505c89 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -39,9 +39,14 @@ func newKey(id []byte, dataType DataType) string {
 	return key
 }
 
+// clone copies data, so that the stored bytes are never shared with the caller.
+func clone(data []byte) []byte {
+	return append([]byte{}, data...)
+}
+
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
-	if _, loaded := m.data.LoadOrStore(key, data); loaded {
+	if _, loaded := m.data.LoadOrStore(key, clone(data)); loaded {
 		return ErrAlreadyExists
 	}
 	return nil
@@ -54,7 +59,7 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 		return nil, ErrNotFound
 	}
 	data := out.([]byte)
-	return data, nil
+	return clone(data), nil
 }
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
@@ -65,7 +70,7 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, clone(data))
 	return nil
 }
 
-- 
2.43.0


From 5cd877af57411cd83360ed9b59e89f414a810dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 04/15] fix: the Bolt IO Provider must not write into the spare
 capacity of the caller's ID

---
 io/bolt.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..6740cfe 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -17,6 +17,7 @@ package io
 
 import (
 	"context"
+	"encoding/binary"
 	"time"
 
 	bolt "go.etcd.io/bbolt"
@@ -52,8 +53,15 @@ func NewBolt(path string) (Bolt, error) {
 	return Bolt{store, objectBucket}, nil
 }
 
+// boltKey computes the key under which data is stored. It never writes to the array backing id.
+func boltKey(id []byte, dataType DataType) []byte {
+	key := make([]byte, 0, len(id)+binary.MaxVarintLen16)
+	key = append(key, id...)
+	return append(key, dataType.Bytes()...)
+}
+
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +72,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -81,7 +89,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -92,7 +100,7 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
-- 
2.43.0


From 1ed2791390cba81a4120e93de8dba993eba87691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 05/15] fix: the Bolt IO Provider must return empty data that
 was stored

---
 io/bolt.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 6740cfe..e69d81f 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -76,15 +76,16 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		value := b.Get(key)
+		if value == nil {
+			return ErrNotFound
+		}
+		out = append([]byte{}, value...)
 		return nil
 	})
 	if err != nil {
 		return nil, err
 	}
-	if out == nil {
-		return nil, ErrNotFound
-	}
 	return out, nil
 }
 
-- 
2.43.0


From 279887d06057cf371eed7cabf2b542d727902ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/15] fix: a user ID is not a group whose membership its user
 may hand out

---
 id/standalone.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..9ce5670 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,7 +219,7 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
+	callerGroups := identity.Groups
 	for _, gid := range gids {
 		if _, ok := callerGroups[gid]; !ok {
 			return ErrNotAuthorized
@@ -255,7 +255,7 @@ func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
+	callerGroups := identity.Groups
 	for _, gid := range gids {
 		if _, ok := callerGroups[gid]; !ok {
 			return ErrNotAuthorized
-- 
2.43.0


From 581e6509df3b35908a4875f1ad0404945a349eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 07/15] fix: reject user and group records stored under another
 ID

---
 id/standalone.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 9ce5670..7b32a59 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -374,6 +374,9 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 		return nil, err
 	}
 
+	// The record must have been sealed for the requested user.
+	user.UID = uid
+
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
 	if err != nil {
@@ -420,6 +423,9 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 		return nil, err
 	}
 
+	// The record must have been sealed for the requested group.
+	group.GID = gid
+
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
 	if err != nil {
-- 
2.43.0


From 102e50906f2418d1ffce80fd5c55a8be21a8666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 08/15] fix: KMAC must not pad a key block that is already
 aligned

---
 crypto/kmac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/kmac.go b/crypto/kmac.go
index 18f7988..7abdb90 100644
--- a/crypto/kmac.go
+++ b/crypto/kmac.go
@@ -117,7 +117,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - (len(buf) % w)) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 02af2a79614aa1552794d2a1c82ebe77c7255c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 09/15] fix: an addition to the index must not link a node left
 behind by an interrupted deletion

---
 index/index.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/index/index.go b/index/index.go
index 098572f..8f8ae72 100644
--- a/index/index.go
+++ b/index/index.go
@@ -106,6 +106,19 @@ func (i *SecureIndex) Add(ctx context.Context, token, keyword, identifier string
 
 	newNode := data.Node{Identifier: identifier, NextCounter: last.NextCounter + 1}
 
+	// An interrupted deletion can leave an unreachable Node behind. The new Node must not point to
+	// it, as that would bring its identifier back.
+	for {
+		_, err := i.getNextNode(ctx, newNode, tagger, cryptor)
+		if errors.Is(err, ErrNodeNotFound) {
+			break
+		}
+		if err != nil {
+			return err
+		}
+		newNode.NextCounter++
+	}
+
 	sealedNode, err := newNode.Seal(label, cryptor)
 	if err != nil {
 		return err
-- 
2.43.0


From 477df98dd5071aaf99ed17462f45768723e703fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 10/15] fix: copy the logger's context so that concurrent calls
 do not share it

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 3f3f713..3fa216c 100644
--- a/log/log.go
+++ b/log/log.go
@@ -24,7 +24,7 @@ import (
 // CopyCtxLogger creates a new context with a copy of any logger found in the context. This is
 // useful when we don't want to pollute the caller's log context.
 func CopyCtxLogger(ctx context.Context) context.Context {
-	l := *zerolog.Ctx(ctx)
+	l := zerolog.Ctx(ctx).With().Logger()
 	return l.WithContext(ctx)
 }
 
-- 
2.43.0


From 7c6f998edab0e594270df384c1ce0f658037f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 11/15] fix: the index and its tagger must not retain the
 caller's key slice

---
 crypto/tagger.go | 2 +-
 index/index.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/tagger.go b/crypto/tagger.go
index 3d4b07f..308375d 100644
--- a/crypto/tagger.go
+++ b/crypto/tagger.go
@@ -33,7 +33,7 @@ func NewKMAC256Tagger(key []byte) (Tagger, error) {
 		return Tagger{}, ErrInvalidKeyLength
 	}
 
-	return Tagger{Key: key}, nil
+	return Tagger{Key: append([]byte{}, key...)}, nil
 }
 
 func (t *Tagger) Tag(data interface{}) ([]byte, error) {
diff --git a/index/index.go b/index/index.go
index 8f8ae72..5a9e688 100644
--- a/index/index.go
+++ b/index/index.go
@@ -72,7 +72,7 @@ func NewSecureIndex(ctx context.Context, keyProvider key.Provider, ioProvider io
 	return SecureIndex{
 		ioProvider: ioProvider,
 		idProvider: idProvider,
-		indexKey:   keys.IEK,
+		indexKey:   append([]byte{}, keys.IEK...),
 	}, nil
 }
 
-- 
2.43.0


From bfbea225abee324c4cff9346a29f942c4929bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 12/15] fix: the static Key Provider must not share its keys
 with callers

---
 key/static.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/key/static.go b/key/static.go
index 3cb4c4e..112bc05 100644
--- a/key/static.go
+++ b/key/static.go
@@ -24,12 +24,22 @@ type Static struct {
 	keys Keys
 }
 
+// copyKeys returns a copy of the keys that does not share memory with them.
+func copyKeys(keys Keys) Keys {
+	return Keys{
+		KEK: append([]byte(nil), keys.KEK...),
+		AEK: append([]byte(nil), keys.AEK...),
+		TEK: append([]byte(nil), keys.TEK...),
+		IEK: append([]byte(nil), keys.IEK...),
+	}
+}
+
 // NewStatic creates a new Static key provider which returns the given Keys.
 func NewStatic(keys Keys) Static {
-	return Static{keys}
+	return Static{copyKeys(keys)}
 }
 
 // GetKeys returns the static set of keys.
 func (s *Static) GetKeys(_ context.Context) (Keys, error) {
-	return s.keys, nil
+	return copyKeys(s.keys), nil
 }
-- 
2.43.0


From baa389c8528b2df838b3c5ff228d16f8bafe0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 13/15] fix: do not add the fields of calls to a disabled
 default logger

---
 log/log.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/log/log.go b/log/log.go
index 3fa216c..9dcf901 100644
--- a/log/log.go
+++ b/log/log.go
@@ -35,21 +35,29 @@ func Ctx(ctx context.Context) *zerolog.Logger {
 
 // WithMethod adds a method field to the context's logger.
 func WithMethod(ctx context.Context, method string) {
-	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
+	updateContext(ctx, func(c zerolog.Context) zerolog.Context {
 		return c.Str("method", method)
 	})
 }
 
 // WithUserID adds a user ID field to the context's logger.
 func WithUserID(ctx context.Context, id string) {
-	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
+	updateContext(ctx, func(c zerolog.Context) zerolog.Context {
 		return c.Str("uid", id)
 	})
 }
 
 // WithObjectID adds an object ID field to the context's logger.
 func WithObjectID(ctx context.Context, id string) {
-	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
+	updateContext(ctx, func(c zerolog.Context) zerolog.Context {
 		return c.Str("oid", id)
 	})
 }
+
+// updateContext updates the context's logger unless it is disabled. A disabled logger has nothing to
+// add fields to, and may be the default logger, which CopyCtxLogger does not copy in that case.
+func updateContext(ctx context.Context, update func(c zerolog.Context) zerolog.Context) {
+	if l := Ctx(ctx); l.GetLevel() != zerolog.Disabled {
+		l.UpdateContext(update)
+	}
+}
-- 
2.43.0


From d47c8a16311d7dad539e448abd44f03b45205dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 14/15] fix: encode associated data of generic encryption
 deterministically

Associated data containing a map with several keys was encoded in a random
order, so that Decrypt rejected the same associated data most of the time.
---
 crypto/cryptor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto/cryptor.go b/crypto/cryptor.go
index a5cb642..bbc5cf5 100644
--- a/crypto/cryptor.go
+++ b/crypto/cryptor.go
@@ -24,6 +24,9 @@ import (
 const EncryptionKeyLength = 32
 const WrapperKeyLength = 32
 
+// dataEncoding encodes associated data. Equal values must always have the same encoding, so map keys are sorted.
+var dataEncoding = json.Config{EscapeHTML: true, SortMapKeys: true}.Froze()
+
 var ErrInvalidKeyLength = fmt.Errorf("invalid key length, accepted key length is %d bytes", WrapperKeyLength)
 
 // Cryptor implements the CryptorInterface.
@@ -57,7 +60,7 @@ func (c *Cryptor) Encrypt(plaintext, data interface{}) ([]byte, []byte, error) {
 		return nil, nil, err
 	}
 
-	dataBytes, err := json.Marshal(data)
+	dataBytes, err := dataEncoding.Marshal(data)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -86,7 +89,7 @@ func (c *Cryptor) Decrypt(plaintext, data interface{}, wrappedKey, ciphertext []
 		return err
 	}
 
-	dataBytes, err := json.Marshal(data)
+	dataBytes, err := dataEncoding.Marshal(data)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 20271ce4dae8ab9aeee2c4bf853271aa5b06877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 15/15] fix: comparing a password with a truncated hash must
 not panic

---
 crypto/password.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/password.go b/crypto/password.go
index ad00fa0..e52c401 100644
--- a/crypto/password.go
+++ b/crypto/password.go
@@ -56,6 +56,9 @@ func (p *PasswordHasher) GeneratePassword() (string, []byte, error) {
 }
 
 func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
+	if len(saltAndHash) < saltLength {
+		return false
+	}
 	salt := saltAndHash[:saltLength]
 	hash := saltAndHash[saltLength:]
 	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
-- 
2.43.0

