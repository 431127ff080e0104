From 60f8c5a9bf9bf9abfe7e1d4eb58de3df41267877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 01/30] fix: do not shift WOTS+ checksum when its length is a
 multiple of 8 bits

For w=256 and for w=4, n=16 the shift amount was 8 instead of 0, so that the
upper bits of the checksum were lost: these could be forged.
---
 wots.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.go b/wots.go
index 8e09f79..6989bec 100644
--- a/wots.go
+++ b/wots.go
@@ -32,7 +32,7 @@ func (ctx *Context) wotsChainLengths(msg []byte) []uint8 {
 	for i := 0; i < int(ctx.wotsLen1); i++ {
 		csum += uint32(ctx.p.WotsW) - 1 - uint32(ret[i])
 	}
-	csum = csum << (8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8))
+	csum = csum << ((8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8)) % 8)
 
 	// put checksum in buffer
 	ctx.toBaseW(
-- 
2.43.0


From 56eba99d723f3d45e850d115857205393af59659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 02/30] fix: only use fourway hashes for the PRF construction
 they implement

prfAddrX4Into() and fX4Into() hardcode the n-byte prefix of RFC8391, so with
Prf=NIST and SHAKE the result depended on whether AVX2 is available.
---
 api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 28f434c..b4030c6 100644
--- a/api.go
+++ b/api.go
@@ -692,7 +692,8 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	// The fourway hashes only implement the PRF construction of the RFC.
+	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) && ctx.p.Prf == RFC {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From dabf9eb720c87ad8c6fc5638aabd78c19e7b1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 03/30] fix: reject unsupported parameters in NewContext

NewContext() accepted unknown hash functions and PRF constructions and heights
for which indices, offsets or subtrees overflow.  Using the resulting Context
panics or silently computes the wrong thing.
---
 api.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/api.go b/api.go
index b4030c6..fd87bbb 100644
--- a/api.go
+++ b/api.go
@@ -661,12 +661,29 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("D can't be zero")
 	}
 
+	if params.FullHeight == 0 || params.FullHeight > 63 {
+		return nil, errorf("FullHeight should be between 1 and 63")
+	}
+
 	if params.FullHeight%params.D != 0 {
 		return nil, errorf("D does not divide FullHeight")
 	}
 
 	ctx.treeHeight = params.FullHeight / params.D
 
+	// Offsets into a subtree are 32 bit.
+	if ctx.treeHeight > 30 || uint64(params.N)<<(ctx.treeHeight+1) > 1<<32 {
+		return nil, errorf("Subtrees are too large")
+	}
+
+	if params.Func != SHA2 && params.Func != SHAKE && params.Func != SHAKE256 {
+		return nil, errorf("Unknown hash function")
+	}
+
+	if params.Prf != RFC && params.Prf != NIST {
+		return nil, errorf("Unknown PRF construction")
+	}
+
 	if params.WotsW != 4 && params.WotsW != 16 && params.WotsW != 256 {
 		return nil, errorf("Only WotsW=4,16,256 is supported")
 	}
-- 
2.43.0


From 300badc3af1f76b41997570e8a21ed035aba0604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 04/30] fix: make compressed parameter encoding reject what it
 can't represent

WriteInto() corrupted the magic, version and prf fields for N=0 and
UnmarshalBinary() accepted an undefined hash function.
---
 params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/params.go b/params.go
index f3e9ea5..528f287 100644
--- a/params.go
+++ b/params.go
@@ -193,6 +193,9 @@ func (params *Params) WriteInto(buf []byte) error {
 	var val uint32
 	var wCode uint32
 	var prfCode uint32
+	if params.N == 0 {
+		return errorf("N can't be zero")
+	}
 	if params.N%8 != 0 {
 		return errorf("N is not divisable by 8")
 	}
@@ -254,6 +257,9 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 	comprN := (val >> 16) & ((1 << 4) - 1)
 	wCode := (val >> 12) & ((1 << 2) - 1)
 	rfcCode := (val >> 20) & 1
+	if (val>>14)&((1<<2)-1) > 2 {
+		return errorf("Unsupported hash function in compressed parameters")
+	}
 	switch wCode {
 	case 0:
 		params.WotsW = 4
-- 
2.43.0


From f950ffce090a8da6807ed337b4ed911e18f53c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 05/30] fix: check length of signatures and public keys when
 unmarshalling

UnmarshalBinary() (and thus Verify()) panicked on truncated input and ignored
trailing bytes.
---
 api.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/api.go b/api.go
index fd87bbb..505a921 100644
--- a/api.go
+++ b/api.go
@@ -273,14 +273,22 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Signature is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	sig.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
+	}
+	if uint64(len(buf)) != 4+uint64(ctx.sigBytes) {
+		return errorf("Signature should be %d bytes long (instead of %d)",
+			4+ctx.sigBytes, len(buf))
 	}
+	sig.ctx = ctx
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -370,14 +378,22 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Public key is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	pk.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
+	}
+	if uint64(len(buf)) != 4+2*uint64(params.N) {
+		return errorf("Public key should be %d bytes long (instead of %d)",
+			4+2*params.N, len(buf))
 	}
+	pk.ctx = ctx
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
-- 
2.43.0


From d7501e96f7fab462db770092cd5be41376606a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 06/30] fix: reject signatures with other parameters than the
 public key

VerifyFrom() panicked (or used the signature's lengths) when the parameters
encoded in the signature differ from those of the public key.
---
 api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api.go b/api.go
index 505a921..cdb3651 100644
--- a/api.go
+++ b/api.go
@@ -197,6 +197,11 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if sig.ctx.p != pk.ctx.p {
+		return false, errorf("Signature has parameters %s instead of %s",
+			sig.ctx.p, pk.ctx.p)
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
-- 
2.43.0


From 067b1a62430049f111d9262a7224ce484eddd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 07/30] fix: look up name and oid of Context when creating it

A Context is shared by several goroutines, but Name(), Oid(), FromNIST() and
FromRFC() lazily wrote to it without synchronization.
---
 api.go    |  7 +++++++
 params.go | 24 +++---------------------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/api.go b/api.go
index cdb3651..b8a472b 100644
--- a/api.go
+++ b/api.go
@@ -735,6 +735,13 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.x4Available = f1600x4.Available
 	}
 
+	// Note that a Context is shared between goroutines, so we can't do
+	// this lazily.
+	if name, oid := params.LookupNameAndOid(); name != "" {
+		ctx.name = &name
+		ctx.oid = oid
+	}
+
 	return
 }
 
diff --git a/params.go b/params.go
index 528f287..2bb272e 100644
--- a/params.go
+++ b/params.go
@@ -550,40 +550,23 @@ func (params *Params) LookupNameAndOid() (string, uint32) {
 	return "", 0
 }
 
-// Looks up the name and oid of this set of parameters and returns whether
-// any were found.
-func (ctx *Context) ensureNameAndOidAreSet() bool {
-	if ctx.name != nil {
-		return true
-	}
-	var name2 string
-	name2, ctx.oid = ctx.p.LookupNameAndOid()
-	if name2 != "" {
-		ctx.name = &name2
-		return true
-	}
-	return false
-}
-
 // Returns the name of the XMSSMT instance and an empty string if it has
 // no name.
 func (ctx *Context) Name() string {
-	if ctx.ensureNameAndOidAreSet() {
-		return *ctx.name
+	if ctx.name == nil {
+		return ""
 	}
-	return ""
+	return *ctx.name
 }
 
 // Returns the Oid of the XMSSMT instance and 0 if it has no Oid.
 func (ctx *Context) Oid() uint32 {
-	ctx.ensureNameAndOidAreSet()
 	return ctx.oid
 }
 
 // Returns whether this XMSS[MT] instance is listed in the NIST Special
 // Publication.
 func (ctx *Context) FromNIST() bool {
-	ctx.ensureNameAndOidAreSet()
 	if ctx.mt {
 		return ctx.oid >= 0x21 && ctx.oid <= 0x38
 	}
@@ -593,7 +576,6 @@ func (ctx *Context) FromNIST() bool {
 // Returns whether this XMSS[MT] instance is listed in the RFC (and thus should
 // also be supported by other implementations).
 func (ctx *Context) FromRFC() bool {
-	ctx.ensureNameAndOidAreSet()
 	if ctx.oid == 0 {
 		return false
 	}
-- 
2.43.0


From 44d988fd243d5db135957137c00d75ab7d76f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 08/30] fix: take lock in accessors of PrivateKey

SeqNo(), BorrowedSeqNos() and CachedSubTrees() raced with Sign().
---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index b8a472b..a578213 100644
--- a/api.go
+++ b/api.go
@@ -527,6 +527,8 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -851,6 +853,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -873,6 +877,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
-- 
2.43.0


From e359800cf7213afbda23ceb8bbed16d547a1a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 09/30] fix: do not retain the seeds passed to DeriveInto

If the caller wipes or reuses the seeds after Derive(), then the returned
PrivateKey created invalid signatures.
---
 api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index a578213..cc383dd 100644
--- a/api.go
+++ b/api.go
@@ -463,7 +463,14 @@ func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 	}
 
 	pad := ctx.newScratchPad()
-	sk, err := ctx.newPrivateKey(pad, pubSeed, skSeed, skPrf, 0, ctr)
+	// Use our own copy as the caller might, for instance, zero his seeds.
+	sk, err := ctx.newPrivateKey(
+		pad,
+		concatSk[ctx.p.N*2:],
+		concatSk[:ctx.p.N],
+		concatSk[ctx.p.N:ctx.p.N*2],
+		0,
+		ctr)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 72705142316c2b7613078d38c4e4a81a7d1597fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 10/30] fix: refuse to sign with a sequence number past the
 maximum

After DangerousSetSeqNo() the sequence number can be larger than the maximum,
which led to signatures that do not verify.
---
 core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.go b/core.go
index bd607cf..d41971f 100644
--- a/core.go
+++ b/core.go
@@ -416,7 +416,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
-	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
+	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
 
-- 
2.43.0


From 4c8209cfb049b73da72e58774b804a03e6f5376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 11/30] fix: keep track of borrowed signatures when lowering
 their number

BorrowExactly(n) with fewer signatures than borrowed before stored that there
are no borrowed signatures at all, so that after a crash lostSigs is too low.
If storing failed halfway, sequence numbers could be reused.
---
 api.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/api.go b/api.go
index cc383dd..6c7e8d8 100644
--- a/api.go
+++ b/api.go
@@ -514,12 +514,17 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
+		// Return all borrowed signatures first, for SetSeqNo() removes the
+		// record of borrowed signatures.  If it fails we do not know which
+		// sequence number is stored, so then we can't use any of them.
+		sk.borrowed = 0
+		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			return err
 		}
-		sk.borrowed = amount
-		return nil
+		if amount == 0 {
+			return nil
+		}
 	}
 
 	// sk.borrowed < amount
-- 
2.43.0


From b516f2ff981dbe5974946759f6e57b0428a7671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 12/30] fix: forget borrowed sequence numbers in
 DangerousSetSeqNo

Signatures after the given sequence number were considered borrowed and so
were not recorded in the container before use.
---
 api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api.go b/api.go
index 6c7e8d8..88d1b0d 100644
--- a/api.go
+++ b/api.go
@@ -879,6 +879,9 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 	defer sk.mux.Unlock()
 	sk.seqNo = seqNo
 
+	// The sequence numbers we borrowed aren't the ones we will use next.
+	sk.borrowed = 0
+
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
 	emptyHeap := uint32Heap([]uint32{})
-- 
2.43.0


From 87e2a825cbe164ea9d59dc635d42b82c15733626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 13/30] fix: wait for background goroutine before closing the
 container

Close() waited for the goroutine precomputing a subtree while holding the lock
this goroutine needs, and only after unmapping the buffer it writes to.
---
 api.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 88d1b0d..0e2e60e 100644
--- a/api.go
+++ b/api.go
@@ -615,6 +615,11 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
+	// There might be a background goroutine generating a subtree
+	// when EnableSubTreePrecomputation() was called.  So wait for that.
+	// It needs sk.mux to finish and writes to a buffer of the container.
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowed > 0 {
@@ -626,11 +631,6 @@ func (sk *PrivateKey) Close() Error {
 	}
 	err := sk.ctr.Close()
 	sk.cond.Broadcast()
-
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
 	return err
 }
 
-- 
2.43.0


From 626cb23dc3afb4ed94a567f690a17a3b8e844aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 14/30] fix: close container even if borrowed signatures can't
 be returned

Otherwise the container stays locked: a second Close() does not retry.
---
 api.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 0e2e60e..41a5fcb 100644
--- a/api.go
+++ b/api.go
@@ -622,14 +622,16 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
+	var err Error
 	if sk.borrowed > 0 {
 		sk.borrowed = 0
-		err := sk.ctr.SetSeqNo(sk.seqNo)
-		if err != nil {
-			return err
-		}
+		err = sk.ctr.SetSeqNo(sk.seqNo)
+	}
+	// Even if we couldn't return the borrowed signatures, we should release
+	// the container.
+	if err2 := sk.ctr.Close(); err == nil {
+		err = err2
 	}
-	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 	return err
 }
-- 
2.43.0


From 10d1e998e175db90ce2d604e2b99496e29316e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 15/30] fix: do not open a container if it can't be locked

Errors of TryLock() which aren't temporary were ignored.
---
 container.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container.go b/container.go
index a878742..df69854 100644
--- a/container.go
+++ b/container.go
@@ -155,6 +155,9 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		err2.locked = true
 		return nil, err2
 	}
+	if err != nil {
+		return nil, wrapErrorf(err, "Failed to acquire lockfile %s", lockFilePath)
+	}
 
 	// Check if the container exists
 	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-- 
2.43.0


From 6d1ced281ba5ef3df1a07596200a0e955d2898d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 16/30] fix: do not open the same container twice in one
 process

A lockfile only excludes other processes, so two PrivateKeys of one process
could use the same signature sequence numbers.
---
 container.go | 61 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/container.go b/container.go
index df69854..e5f361a 100644
--- a/container.go
+++ b/container.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/bwesterb/byteswriter"
 	"github.com/edsrzf/mmap-go"
@@ -147,16 +148,8 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Failed to create lockfile %s", lockFilePath)
 	}
 
-	err = ctr.flock.TryLock()
-	if _, ok := err.(interface {
-		Temporary() bool
-	}); ok {
-		err2 := errorf("%s is locked", path)
-		err2.locked = true
-		return nil, err2
-	}
-	if err != nil {
-		return nil, wrapErrorf(err, "Failed to acquire lockfile %s", lockFilePath)
+	if err := ctr.lock(path); err != nil {
+		return nil, err
 	}
 
 	// Check if the container exists
@@ -195,6 +188,48 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	return &ctr, ctr.openCache()
 }
 
+// Paths of the filesystem containers opened by this process, which we need to
+// keep track of as a lockfile only excludes other processes.
+var (
+	fsOpenPathsMux sync.Mutex
+	fsOpenPaths    = make(map[string]bool)
+)
+
+// Acquire the lock on the container
+func (ctr *fsContainer) lock(path string) Error {
+	fsOpenPathsMux.Lock()
+	defer fsOpenPathsMux.Unlock()
+
+	if fsOpenPaths[ctr.path] {
+		err := errorf("%s is locked", path)
+		err.locked = true
+		return err
+	}
+
+	err := ctr.flock.TryLock()
+	if _, ok := err.(interface {
+		Temporary() bool
+	}); ok {
+		err2 := errorf("%s is locked", path)
+		err2.locked = true
+		return err2
+	}
+	if err != nil {
+		return wrapErrorf(err, "Failed to acquire lockfile of %s", path)
+	}
+
+	fsOpenPaths[ctr.path] = true
+	return nil
+}
+
+// Release the lock on the container
+func (ctr *fsContainer) unlock() error {
+	fsOpenPathsMux.Lock()
+	defer fsOpenPathsMux.Unlock()
+	delete(fsOpenPaths, ctr.path)
+	return ctr.flock.Unlock()
+}
+
 func (ctr *fsContainer) openCache() Error {
 	var err error
 
@@ -717,12 +752,16 @@ func (ctr *fsContainer) closeCache() (err error) {
 }
 
 func (ctr *fsContainer) Close() Error {
+	if ctr.closed {
+		// Another container might have locked the path in the meantime.
+		return errorf("Container is already closed")
+	}
 	var err error
 	if err2 := ctr.closeCache(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not close cache"))
 	}
-	if err2 := ctr.flock.Unlock(); err2 != nil {
+	if err2 := ctr.unlock(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
 	}
-- 
2.43.0


From 13430057b9e92e0714cf66452b6d897df9b343e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 17/30] fix: release lock when a container can't be opened

The lock was kept (and could only be released if the caller closed the
container returned next to the error, which LoadPrivateKey() doesn't do.)
---
 container.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/container.go b/container.go
index e5f361a..e62c4d6 100644
--- a/container.go
+++ b/container.go
@@ -152,26 +152,35 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		return nil, err
 	}
 
+	if err := ctr.open(); err != nil {
+		ctr.Close() // releases lock
+		return nil, err
+	}
+	return &ctr, nil
+}
+
+// Reads the container from disk, if it exists.
+func (ctr *fsContainer) open() Error {
 	// Check if the container exists
-	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-		return &ctr, nil
+	if _, err := os.Stat(ctr.path); os.IsNotExist(err) {
+		return nil
 	}
 
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return wrapErrorf(err, "Failed to open keyfile %s", ctr.path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -180,12 +189,12 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	return ctr.openCache()
 }
 
 // Paths of the filesystem containers opened by this process, which we need to
-- 
2.43.0


From 6ab0ed0fe86fe6bf9798c2c258a12259fdd5521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 18/30] fix: close container when a private key can't be
 derived or loaded

Otherwise the container stays locked, as the caller has no way to close it.
---
 api.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 41a5fcb..2558def 100644
--- a/api.go
+++ b/api.go
@@ -440,7 +440,12 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, err
+	}
+	return sk, pk, nil
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -796,6 +801,13 @@ func LoadPrivateKey(path string) (
 // NOTE Takes ownership of ctr.  Do not forget to Close() the  PrivateKey.
 func LoadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	sk *PrivateKey, pk *PublicKey, lostSigs uint32, err Error) {
+	// As we own the container, we should release it if we fail.
+	defer func() {
+		if err != nil {
+			ctr.Close()
+		}
+	}()
+
 	// First check if the container is sane.
 	params := ctr.Initialized()
 	if params == nil {
-- 
2.43.0


From 15a0a6dc72c5c880e8de5a74fa4401f321f03628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 19/30] fix: check parameters stored in the key file

A corrupted key file caused a division by zero or another panic.
---
 container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container.go b/container.go
index e62c4d6..4a0fad0 100644
--- a/container.go
+++ b/container.go
@@ -183,6 +183,10 @@ func (ctr *fsContainer) open() Error {
 		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
+	if _, err := NewContext(keyHeader.Params); err != nil {
+		return wrapErrorf(err, "Keyfile has invalid parameters")
+	}
+
 	ctr.params = keyHeader.Params
 	ctr.privateKey = make([]byte, ctr.params.PrivateKeySize())
 	ctr.seqNo = keyHeader.SeqNo
-- 
2.43.0


From a743f35c47968f0e09767dd8ae960f792a237500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 20/30] fix: allow opening a container with a missing or
 truncated cache

LoadPrivateKeyFrom() creates a new cache if there is none, but this code
couldn't be reached.  A crash in between writing the key file and creating
the cache rendered the private key unusable.
---
 container.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/container.go b/container.go
index 4a0fad0..c53c5ed 100644
--- a/container.go
+++ b/container.go
@@ -255,6 +255,10 @@ func (ctr *fsContainer) openCache() Error {
 	// Open cache file
 	cachePath := ctr.path + ".cache"
 	ctr.cacheFile, err = os.OpenFile(cachePath, os.O_RDWR, 0)
+	if os.IsNotExist(err) {
+		ctr.cacheFile = nil
+		return nil // LoadPrivateKeyFrom() will create a new cache
+	}
 	if err != nil {
 		return wrapErrorf(err, "Failed to open cache file")
 	}
@@ -262,6 +266,10 @@ func (ctr *fsContainer) openCache() Error {
 	// Read header
 	var header fsCacheHeader
 	err = binary.Read(ctr.cacheFile, binary.BigEndian, &header)
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
+		ctr.closeCache() // we ignore failures
+		return nil       // see above
+	}
 	if err != nil {
 		return wrapErrorf(err, "Failed to read cache file header")
 	}
@@ -299,6 +307,10 @@ func (ctr *fsContainer) openCache() Error {
 
 		var treeHeader fsSubTreeHeader
 		err = binary.Read(ctr.cacheFile, binary.BigEndian, &treeHeader)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			ctr.closeCache() // we ignore failures
+			return nil       // see above
+		}
 		if err != nil {
 			return wrapErrorf(err, "Failed to read subtree header in cache")
 		}
-- 
2.43.0


From dcaf794a83a29e36f78abc22a5424bc601870bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 21/30] fix: interpret zero subtree alignment as 4096

This is what the documentation of fsCacheHeader promises; it caused a division
by zero.
---
 container.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container.go b/container.go
index c53c5ed..bd82129 100644
--- a/container.go
+++ b/container.go
@@ -292,6 +292,9 @@ func (ctr *fsContainer) openCache() Error {
 		}
 
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
-- 
2.43.0


From f6f0f551936b7553591e2f3831e1886fcbf61c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 22/30] fix: empty the cache before replacing the private key

If Reset() was interrupted after writing the new key file, then the subtrees
of the old key were used with the new key.  If writing the key file failed, the
container pretended to contain the new key.
---
 container.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/container.go b/container.go
index bd82129..4eb2e25 100644
--- a/container.go
+++ b/container.go
@@ -420,6 +420,25 @@ func (ctr *fsContainer) ResetCache() Error {
 	return nil
 }
 
+// Empties the cache on disk.
+func (ctr *fsContainer) truncateCache() Error {
+	file, err := os.OpenFile(
+		ctr.path+".cache",
+		os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
+		0600)
+	if err != nil {
+		return wrapErrorf(err, "failed to truncate cache file")
+	}
+	if err = file.Sync(); err != nil {
+		file.Close()
+		return wrapErrorf(err, "failed to sync cache file")
+	}
+	if err = file.Close(); err != nil {
+		return wrapErrorf(err, "failed to close cache file")
+	}
+	return nil
+}
+
 func (ctr *fsContainer) writeCacheHeader() Error {
 	var err error
 	_, err = ctr.cacheFile.Seek(0, 0)
@@ -610,6 +629,15 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	// Even if closing the cache fails, we will try to write the key file.
 	closeCacheErr := ctr.closeCache()
 
+	// Until the new key file has been written, we do not know what is in there.
+	ctr.initialized = false
+
+	// After a crash the new key shouldn't end up with the subtrees of
+	// the old key.
+	if err := ctr.truncateCache(); err != nil {
+		return err
+	}
+
 	ctr.params = params
 	ctr.privateKey = privateKey
 	ctr.seqNo = 0
-- 
2.43.0


From ba9e94b37e4eeddf6711dc8e43c66cc0558eb10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 23/30] fix: wrap the right error when the cache file can't be
 created

---
 container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 4eb2e25..372d7fd 100644
--- a/container.go
+++ b/container.go
@@ -409,7 +409,7 @@ func (ctr *fsContainer) ResetCache() Error {
 		os.O_RDWR|os.O_CREATE|os.O_TRUNC,
 		0600)
 	if err2 != nil {
-		return wrapErrorf(err, "failed to create cache file")
+		return wrapErrorf(err2, "failed to create cache file")
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
-- 
2.43.0


From 385f399cf478ef64950864744b50f1190d7c9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 24/30] fix: retry filling a subtree after an earlier failure

If getSubTree() failed after the container allocated a buffer for the subtree
(eg. because a parent couldn't be stored), then every later call panicked.
---
 core.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core.go b/core.go
index d41971f..69eb966 100644
--- a/core.go
+++ b/core.go
@@ -269,11 +269,8 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			continue
 		}
 
-		if exists {
-			panic("This should not be possible")
-		}
-
-		// The sub tree does not yet exist.  We will have to fill it.
+		// The sub tree does not yet exist, or another thread failed to fill
+		// it.  We will have to fill it.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
 		break
-- 
2.43.0


From 48891010e61f18e3fee259a0aedd22b97583fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 25/30] fix: recheck state of a subtree after acquiring the
 lock

Another thread might have verified, be correcting or have failed correcting the
subtree in the meantime.  This caused a thread to wait forever (if correcting
failed) or to use a subtree which is being rewritten, including the WOTS+
secret key which is temporarily stored where the signature will be.
---
 core.go | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/core.go b/core.go
index 69eb966..0742323 100644
--- a/core.go
+++ b/core.go
@@ -296,34 +296,19 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 		// The tree seems ready, but we just need to check whether it
 		// hasn't been corrupted.
-		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
 		sk.mux.Lock()
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
-		if intact {
-			sk.subTreeChecked[sta] = true
+		if !sk.subTreeReady[sta] || sk.subTreeChecked[sta] {
+			// Another thread is correcting the subtree, failed to do so
+			// or has checked it in the meantime.  Start over.
 			sk.mux.Unlock()
-			return
+			return sk.getSubTree(pad, sta)
 		}
 
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
-		// correcting the problem for us.
-		if !sk.subTreeReady[sta] {
-			// There is another thread correcting the issue.  Lets wait
-			// for it.
-			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
-				"correcting the problem.  Waiting ...", sta)
-			for {
-				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
-					log.Logf(" ... the subtree has been corrected.")
-					sk.mux.Unlock()
-					return
-				}
-
-				log.Logf(" ... not corrected, yet.")
-			}
+		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
+		if storedCheckSum == xxhash.Sum64(buf[:len(buf)-8]) {
+			sk.subTreeChecked[sta] = true
+			sk.mux.Unlock()
+			return
 		}
 
 		// Mark the subtree not-ready
-- 
2.43.0


From b60ca17ed4298d3ed6cdfb317068f3c803946844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 26/30] fix: clear recycled subtree buffers

GetSubTree() wrote the address of the new subtree in front of an old subtree
with a valid checksum.  After a crash before the new one was generated,
the old subtree was used in its place.
---
 container.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 372d7fd..4a8c206 100644
--- a/container.go
+++ b/container.go
@@ -517,7 +517,8 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 
 	// Find a free cached subtree index
 	var idx uint32
-	if ctr.cacheFreeIdx.Len() != 0 {
+	recycled := ctr.cacheFreeIdx.Len() != 0
+	if recycled {
 		idx = heap.Pop(ctr.cacheFreeIdx).(uint32)
 	} else {
 		idx = ctr.allocatedSubTrees
@@ -539,6 +540,18 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 		return nil, false, wrapErrorf(err2, "Failed to mmap subtree from cache")
 	}
 
+	// Clear the old subtree.  Otherwise, if we crash before the new subtree
+	// is generated, the old one would be used for it as its checksum is valid.
+	if recycled {
+		for i := range buf.buf {
+			buf.buf[i] = 0
+		}
+		if err2 = buf.mmap.Flush(); err2 != nil {
+			return nil, false, wrapErrorf(err2,
+				"Failed to clear old subtree in cache")
+		}
+	}
+
 	// Write information
 	header := fsSubTreeHeader{
 		Allocated: 1,
-- 
2.43.0


From 6ceb1450d980e13d84af0f2cba9b124e5123eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 27/30] fix: do not truncate retired sequence numbers to 32
 bits

Around a multiple of 2^32 a retired sequence number wasn't found in the heap
anymore, after which no cached subtree was dropped ever again.
---
 api.go  |  4 ++--
 core.go |  6 +++---
 misc.go | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 2558def..49e0443 100644
--- a/api.go
+++ b/api.go
@@ -72,7 +72,7 @@ type PrivateKey struct {
 
 	// Heap of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos *seqNoHeap
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -898,7 +898,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	sk.retiredSeqNos = &emptyHeap
 	heap.Init(sk.retiredSeqNos)
 	sk.leastSeqNoInUse = seqNo
diff --git a/core.go b/core.go
index 0742323..c93708f 100644
--- a/core.go
+++ b/core.go
@@ -501,7 +501,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	ret.retiredSeqNos = &emptyHeap
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
@@ -534,7 +534,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		heap.Push(sk.retiredSeqNos, seqNo)
 		return
 	}
 
@@ -542,7 +542,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
 	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
+		sk.retiredSeqNos.Min() == sk.leastSeqNoInUse {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
diff --git a/misc.go b/misc.go
index dd4988c..91ce421 100644
--- a/misc.go
+++ b/misc.go
@@ -94,6 +94,25 @@ func SetLogger(logger Logger) {
 	log = logger
 }
 
+// Priority queue of signature sequence numbers
+type seqNoHeap []SignatureSeqNo
+
+func (h seqNoHeap) Min() SignatureSeqNo { return h[0] }
+func (h seqNoHeap) Len() int            { return len(h) }
+func (h seqNoHeap) Less(i, j int) bool  { return h[i] < h[j] }
+func (h seqNoHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *seqNoHeap) Push(x interface{}) {
+	*h = append(*h, x.(SignatureSeqNo))
+}
+
+func (h *seqNoHeap) Pop() interface{} {
+	old := *h
+	n := len(old)
+	x := old[n-1]
+	*h = old[0 : n-1]
+	return x
+}
+
 // Priority queue of uint32s
 type uint32Heap []uint32
 
-- 
2.43.0


From b7855d6921cb576e27aa4066606881daa1605d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 28/30] fix: do not share the private key of a container with
 its user

---
 container.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container.go b/container.go
index 4a8c206..17ed335 100644
--- a/container.go
+++ b/container.go
@@ -652,7 +652,7 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	}
 
 	ctr.params = params
-	ctr.privateKey = privateKey
+	ctr.privateKey = append([]byte(nil), privateKey...)
 	ctr.seqNo = 0
 	ctr.borrowed = 0
 	ctr.cacheInitialized = false
@@ -796,7 +796,7 @@ func (ctr *fsContainer) GetPrivateKey() ([]byte, Error) {
 	if !ctr.initialized {
 		return nil, errorf("Container is not initialized")
 	}
-	return ctr.privateKey, nil
+	return append([]byte(nil), ctr.privateKey...), nil
 }
 
 func (ctr *fsContainer) closeCache() (err error) {
-- 
2.43.0


From 26dce2aa168f5ea6d70b639b6215b646608517ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 29/30] fix: refuse algorithm names with inexact or
 contradictory parts

---
 params.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/params.go b/params.go
index 2bb272e..6487d7c 100644
--- a/params.go
+++ b/params.go
@@ -403,9 +403,12 @@ func parseParamsFromName(name string) (*Params, Error) {
 	if err != nil {
 		return nil, wrapErrorf(err, "parse N")
 	}
-	if n < 0 || int64(n) > int64(1)<<32 {
+	if n < 0 || int64(n) >= int64(1)<<32 {
 		return nil, errorf("N out of bounds")
 	}
+	if n%8 != 0 {
+		return nil, errorf("N is not a multiple of 8 bits")
+	}
 	ret.N = uint32(n) / 8
 
 	if ret.N == 24 {
@@ -413,7 +416,14 @@ func parseParamsFromName(name string) (*Params, Error) {
 	}
 
 	ret.WotsW = 16
+	var seenPrf, seenW bool
 	for i := 3; i < len(bits); i++ {
+		if bits[i] == "NIST" || bits[i] == "RFC" {
+			if seenPrf {
+				return nil, errorf("PRF construction is given twice")
+			}
+			seenPrf = true
+		}
 		if bits[i] == "NIST" {
 			ret.Prf = NIST
 			continue
@@ -427,6 +437,10 @@ func parseParamsFromName(name string) (*Params, Error) {
 			return nil, errorf(
 				"Expected 'w[...]', NIST or RFC for fourth or fifth parameter")
 		}
+		if seenW {
+			return nil, errorf("WotsW is given twice")
+		}
+		seenW = true
 		w, err := strconv.Atoi(bits[i][1:])
 		if err != nil {
 			return nil, wrapErrorf(err, "Failed to parse WotsW parameter")
-- 
2.43.0


From 33ae8e3adb538f3a0b7d59f6a77a03b57384ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 30/30] fix: closing after using all borrowed signatures
 reports them as lost

Close() only called SetSeqNo(), which removes the record of borrowed
signatures, if there were unused borrowed signatures left.
---
 api.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 49e0443..85fe216 100644
--- a/api.go
+++ b/api.go
@@ -628,7 +628,13 @@ func (sk *PrivateKey) Close() Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	var err Error
-	if sk.borrowed > 0 {
+	lostSigs := sk.borrowed
+	if lostSigs == 0 {
+		// If we used all borrowed signatures, we still have to remove the
+		// record of them, for otherwise they will be reported as lost.
+		_, lostSigs, err = sk.ctr.GetSeqNo()
+	}
+	if err == nil && lostSigs > 0 {
 		sk.borrowed = 0
 		err = sk.ctr.SetSeqNo(sk.seqNo)
 	}
-- 
2.43.0

