From 2428fc744997324b5b8451bc29c527437b14a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 01/54] fix: do not panic when the starting entity's
 configuration has no metadata

---
 trustresolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..e2a3367 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,6 +212,9 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
+	if starting.Metadata == nil {
+		starting.Metadata = &Metadata{}
+	}
 	if len(r.Types) > 0 {
 		utils.NilAllExceptByTag(starting.Metadata, r.Types)
 	}
-- 
2.43.0


From 5a04a395faa3691dcba0c3752f4d65547028d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 02/54] fix: only use a valid entity configuration of the
 starting entity itself

---
 trustresolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index e2a3367..3bf69c6 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,6 +212,9 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		return
+	}
 	if starting.Metadata == nil {
 		starting.Metadata = &Metadata{}
 	}
-- 
2.43.0


From e1eb88f07713d8e873297e42e9712bf3ee7ec0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 03/54] fix: never return a chain for an entity no trust anchor
 vouches for

---
 trustresolver.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 3bf69c6..3fc8515 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -234,7 +234,9 @@ func (r *TrustResolver) Resolve() {
 
 // VerifySignatures verifies the signatures of the internal trust tree
 func (r *TrustResolver) VerifySignatures() {
-	r.trustTree.verifySignatures(r.TrustAnchors)
+	if !r.trustTree.verifySignatures(r.TrustAnchors) {
+		r.trustTree = trustTree{}
+	}
 	if err := r.cacheSetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	}
@@ -442,6 +444,22 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 	if t.signaturesVerified {
 		return true
 	}
+	if t.Entity == nil {
+		return false
+	}
+	if t.Subordinate == nil {
+		for _, ta := range anchors {
+			if ta.EntityID == t.Entity.Issuer {
+				// the starting entity is a TA
+				jwks := ta.JWKS
+				if jwks.Set == nil {
+					jwks = t.Entity.JWKS
+				}
+				t.signaturesVerified = t.Entity.Verify(jwks)
+				return t.signaturesVerified
+			}
+		}
+	}
 	if t.Subordinate != nil {
 		for _, ta := range anchors {
 			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject, t.Subordinate.Issuer) {
-- 
2.43.0


From ef382bbd9ae1e8240fe5c80827ead65e37539b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 04/54] fix: consider entity types without a dedicated metadata
 type as entity types

---
 metadata.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metadata.go b/metadata.go
index a9bf786..4458182 100644
--- a/metadata.go
+++ b/metadata.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"slices"
 	"strings"
 	"unsafe"
 
@@ -40,6 +41,14 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
+	var extraTypes []string
+	for entityType, metadata := range m.Extra {
+		if metadata != nil {
+			extraTypes = append(extraTypes, entityType)
+		}
+	}
+	slices.Sort(extraTypes)
+	entityTypes = append(entityTypes, extraTypes...)
 	return
 }
 
-- 
2.43.0


From fb945eb339b6eb8f63fcd47e05caab1007d2b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 05/54] fix: do not keep cache values whose lifetime has
 already passed

---
 cache/cache.go | 3 ++-
 cache/redis.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..16d5f4f 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,7 +54,8 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
-	c.c.SetWithTTL(key, data, expiration)
+	// negative values might have a special meaning in the underlying cache
+	c.c.SetWithTTL(key, data, max(expiration, 0))
 	return nil
 }
 
diff --git a/cache/redis.go b/cache/redis.go
index db101ad..cb037e4 100644
--- a/cache/redis.go
+++ b/cache/redis.go
@@ -28,6 +28,10 @@ func (c redisCache) Get(key string, target any) (bool, error) {
 
 // Set implements the Cache interface
 func (c redisCache) Set(key string, value any, expiration time.Duration) error {
+	if expiration <= 0 {
+		// redis would keep the value without any expiration
+		return c.client.Del(c.ctx, key).Err()
+	}
 	data, err := msgpack.Marshal(value)
 	if err != nil {
 		return err
-- 
2.43.0


From 1fb279f79036cb3f38c607ebc7c861169bd843bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 06/54] fix: keep in the cache which metadata parameters were
 present

---
 internal/generators/metadata.go | 12 ++++++++
 metadata.go                     | 49 +++++++++++++++++++++++++++++++++
 metadata_generated.go           | 28 +++++++++++++++++++
 3 files changed, 89 insertions(+)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 12ba173..92413a3 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -317,6 +317,18 @@ func (m *%s) UnmarshalMsgpack(data []byte) error {
 
 	unmarshalMsgpack(&sb, withPtrsName)
 
+	sb.WriteString(
+		fmt.Sprintf(
+			`
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m %s) MarshalMsgpack() ([]byte, error) {
+	var withPtrs %s
+	setPointers(&m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+`, name, withPtrsName,
+		),
+	)
 	sb.WriteString(
 		fmt.Sprintf(
 			`
diff --git a/metadata.go b/metadata.go
index 4458182..6401140 100644
--- a/metadata.go
+++ b/metadata.go
@@ -322,6 +322,25 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	return metadata, nil
 }
 
+// setPointers copies the fields of the struct m points to into the struct withPtrs points to; fields that are not set
+// result in nil pointers there
+func setPointers(m, withPtrs any, wasSet map[string]bool) {
+	valOrig := reflect.ValueOf(m).Elem()
+	valWithPtrs := reflect.ValueOf(withPtrs).Elem()
+	for i := 0; i < valWithPtrs.NumField(); i++ {
+		fieldName := valWithPtrs.Type().Field(i).Name
+		ptrField := valWithPtrs.Field(i)
+		origField := valOrig.FieldByName(fieldName)
+		if ptrField.Kind() != reflect.Ptr || origField.Kind() == reflect.Ptr {
+			ptrField.Set(origField)
+			continue
+		}
+		if wasSet[fieldName] || !origField.IsZero() {
+			ptrField.Set(origField.Addr())
+		}
+	}
+}
+
 // FindEntityMetadata finds metadata for the specified entity type in the
 // metadata and decodes it into the provided metadata object.
 func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
@@ -407,6 +426,21 @@ func (m *oAuthAuthorizationServerMetadataWithPtrs) UnmarshalJSON(data []byte) er
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthAuthorizationServerMetadata) MarshalMsgpack() ([]byte, error) {
+	return OpenIDProviderMetadata(m).MarshalMsgpack()
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthAuthorizationServerMetadata) UnmarshalMsgpack(data []byte) error {
+	op := OpenIDProviderMetadata(*m)
+	if err := op.UnmarshalMsgpack(data); err != nil {
+		return err
+	}
+	*m = OAuthAuthorizationServerMetadata(op)
+	return nil
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthAuthorizationServerMetadata
 func (m OAuthAuthorizationServerMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_authorization_server")
@@ -442,6 +476,21 @@ func (m *oAuthClientMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthClientMetadata) MarshalMsgpack() ([]byte, error) {
+	return OpenIDRelyingPartyMetadata(m).MarshalMsgpack()
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthClientMetadata) UnmarshalMsgpack(data []byte) error {
+	rp := OpenIDRelyingPartyMetadata(*m)
+	if err := rp.UnmarshalMsgpack(data); err != nil {
+		return err
+	}
+	*m = OAuthClientMetadata(rp)
+	return nil
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthClientMetadata
 func (m OAuthClientMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_client")
diff --git a/metadata_generated.go b/metadata_generated.go
index 7103400..a84f31f 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -141,6 +141,13 @@ func (m *federationEntityMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m FederationEntityMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs federationEntityMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *FederationEntityMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs federationEntityMetadataWithPtrs
@@ -390,6 +397,13 @@ func (m *openIDRelyingPartyMetadataWithPtrs) UnmarshalMsgpack(data []byte) error
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDRelyingPartyMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs openIDRelyingPartyMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDRelyingPartyMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDRelyingPartyMetadataWithPtrs
@@ -663,6 +677,13 @@ func (m *openIDProviderMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDProviderMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs openIDProviderMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDProviderMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs openIDProviderMetadataWithPtrs
@@ -822,6 +843,13 @@ func (m *oAuthProtectedResourceMetadataWithPtrs) UnmarshalMsgpack(data []byte) e
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthProtectedResourceMetadata) MarshalMsgpack() ([]byte, error) {
+	var withPtrs oAuthProtectedResourceMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return msgpack.Marshal(withPtrs)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OAuthProtectedResourceMetadata) UnmarshalMsgpack(data []byte) error {
 	var withPtrs oAuthProtectedResourceMetadataWithPtrs
-- 
2.43.0


From 5f04b02b99bfb831dd7cde4af79bc5b74ef47c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 07/54] fix: decode metadata policies of unknown entity types

---
 metadataPolicy.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..ffb9a1c 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -53,9 +53,13 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	if len(extra) > 0 {
 		policyMap := make(map[string]MetadataPolicy)
 		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
-				return errors.Errorf("non MetadataPolicy in metadata policies")
+			policyData, err := json.Marshal(v)
+			if err != nil {
+				return errors.WithStack(err)
+			}
+			var policy MetadataPolicy
+			if err = json.Unmarshal(policyData, &policy); err != nil {
+				return errors.Wrap(err, "non MetadataPolicy in metadata policies")
 			}
 
 			policyMap[k] = policy
-- 
2.43.0


From c6ac3e19d97c042f64c122da7ee5d69e38d36d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 08/54] fix: refresh statements only after the configured share
 of their lifetime elapsed

---
 trustresolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 3fc8515..93c271a 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -564,7 +564,8 @@ func getEntityStatementOrConfiguration(
 		go func() {
 			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
 			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
-			if remainingLifetime <= ResolverCacheGracePeriod && float64(remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
+			elapsed := 1 - float64(remainingLifetime)/float64(totalLifetime)
+			if remainingLifetime <= ResolverCacheGracePeriod && elapsed >= ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
 					subID,
-- 
2.43.0


From 7d33e225f19bfb4ed4b0f0f0a4212c7eec5d398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 09/54] fix: do not return chains with statements that expired
 since they were fetched

---
 trustchain.go    | 10 ++++++++++
 trustresolver.go |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/trustchain.go b/trustchain.go
index 28d74eb..1b380da 100644
--- a/trustchain.go
+++ b/trustchain.go
@@ -41,6 +41,16 @@ func (c TrustChain) PathLen() int {
 	return len(c) - 3
 }
 
+// timeValid reports whether all statements of the chain are currently valid
+func (c TrustChain) timeValid() bool {
+	for _, stmt := range c {
+		if !stmt.TimeValid() {
+			return false
+		}
+	}
+	return true
+}
+
 // ExpiresAt returns the expiration time of the TrustChain as a UNIX time stamp
 func (c TrustChain) ExpiresAt() unixtime.Unixtime {
 	if len(c) == 0 {
diff --git a/trustresolver.go b/trustresolver.go
index 93c271a..3fb8f86 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -251,7 +251,11 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	if set {
 		return chains
 	}
-	chains = r.trustTree.chains()
+	for _, chain := range r.trustTree.chains() {
+		if chain.timeValid() {
+			chains = append(chains, chain)
+		}
+	}
 	if chains == nil {
 		return nil
 	}
-- 
2.43.0


From 64eba55c157c62fdf41d5642570f80fc495e2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 10/54] fix: do not panic on policy values of unexpected or
 mixed types

---
 internal/utils/slices.go | 99 +++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 58 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..374f2f2 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -21,55 +21,31 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 	return result
 }
 
-// ReflectSliceCast casts a slice to another type using reflection
+// ReflectSliceCast casts a slice to another type using reflection; if an element does not have a fitting type, the
+// slice is returned unchanged
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
+	elemType := typeType.Elem()
 	sliceV := reflect.ValueOf(slice)
 	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
 		vv := sliceV.Index(i)
-		var v reflect.Value
-		// This is stupid and has faults, but I did not find a better way
-		switch typeType.Elem().Kind() {
-		case reflect.Bool:
-			v = reflect.ValueOf(vv.Interface().(bool))
-		case reflect.Int:
-			v = reflect.ValueOf(vv.Interface().(int))
-		case reflect.Int8:
-			v = reflect.ValueOf(vv.Interface().(int8))
-		case reflect.Int16:
-			v = reflect.ValueOf(vv.Interface().(int16))
-		case reflect.Int32:
-			v = reflect.ValueOf(vv.Interface().(int32))
-		case reflect.Int64:
-			v = reflect.ValueOf(vv.Interface().(int64))
-		case reflect.Uint:
-			v = reflect.ValueOf(vv.Interface().(uint))
-		case reflect.Uint8:
-			v = reflect.ValueOf(vv.Interface().(uint8))
-		case reflect.Uint16:
-			v = reflect.ValueOf(vv.Interface().(uint16))
-		case reflect.Uint32:
-			v = reflect.ValueOf(vv.Interface().(uint32))
-		case reflect.Uint64:
-			v = reflect.ValueOf(vv.Interface().(uint64))
-		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
-		case reflect.Float32:
-			v = reflect.ValueOf(vv.Interface().(float32))
-		case reflect.Float64:
-			v = reflect.ValueOf(vv.Interface().(float64))
-		case reflect.Interface:
-			v = vv
-		case reflect.String:
-			v = reflect.ValueOf(vv.Interface().(string))
+		if elemType.Kind() != reflect.Interface && vv.Kind() == reflect.Interface {
+			vv = vv.Elem()
+		}
+		switch {
+		case !vv.IsValid():
+			return slice
+		case vv.Type().AssignableTo(elemType):
+			out.Index(i).Set(vv)
+		case vv.Kind() == elemType.Kind() && vv.Type().ConvertibleTo(elemType):
+			out.Index(i).Set(vv.Convert(elemType))
 		default:
-			v = vv.Convert(typeType.Elem())
+			return slice
 		}
-		out.Index(i).Set(v)
 	}
 	return out.Interface()
 }
@@ -88,22 +64,28 @@ func ReflectSliceContains(v, slice any) bool {
 	return false
 }
 
-// ReflectUnion uses reflection to compute the union of two slices
-func ReflectUnion(a, b any) any {
+// sameSliceType returns the passed slices (or single values) as slices of the same type; neither a nor b may be nil
+func sameSliceType(a, b any) (reflect.Value, reflect.Value) {
 	as := Slicify(a)
-	bs := Slicify(b)
-	out := reflect.ValueOf(as)
-	bV := reflect.ValueOf(bs)
-	if bV.Len() == 0 {
-		return out.Interface()
+	bs := ReflectSliceCast(Slicify(b), as)
+	if reflect.TypeOf(as) != reflect.TypeOf(bs) {
+		as = ReflectSliceCast(as, []any{})
+		bs = ReflectSliceCast(bs, []any{})
 	}
-	if out.Len() == 0 || out.Index(0).Type() != bV.Index(0).Type() {
-		bs = ReflectSliceCast(bs, as)
-		bV = reflect.ValueOf(bs)
+	return reflect.ValueOf(as), reflect.ValueOf(bs)
+}
+
+// ReflectUnion uses reflection to compute the union of two slices
+func ReflectUnion(a, b any) any {
+	if a == nil {
+		return Slicify(b)
 	}
-	if out.Len() == 0 {
-		return bV.Interface()
+	if b == nil {
+		return Slicify(a)
 	}
+	aV, bV := sameSliceType(a, b)
+	out := reflect.MakeSlice(aV.Type(), 0, aV.Len()+bV.Len())
+	out = reflect.AppendSlice(out, aV)
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
@@ -115,16 +97,14 @@ func ReflectUnion(a, b any) any {
 
 // ReflectIntersect uses reflection to compute the intersection of two slices
 func ReflectIntersect(a, b any) any {
-	as := Slicify(a)
-	bs := Slicify(b)
-	aV := reflect.ValueOf(as)
-	if aV.Type() != reflect.ValueOf(bs).Type() {
-		bs = ReflectSliceCast(bs, as)
+	if a == nil || b == nil {
+		return []any{}
 	}
-	out := reflect.New(reflect.TypeOf(as)).Elem()
+	aV, bV := sameSliceType(a, b)
+	out := reflect.MakeSlice(aV.Type(), 0, aV.Len())
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
-		if ReflectSliceContains(v.Interface(), bs) {
+		if ReflectSliceContains(v.Interface(), bV.Interface()) {
 			out = reflect.Append(out, v)
 		}
 	}
@@ -133,6 +113,9 @@ func ReflectIntersect(a, b any) any {
 
 // ReflectIsSubsetOf uses reflection to check if a slice is a subset of another
 func ReflectIsSubsetOf(is, of any) bool {
+	if is == nil {
+		return true
+	}
 	is = Slicify(is)
 	of = Slicify(of)
 	isV := reflect.ValueOf(is)
-- 
2.43.0


From a64601690a0e18838ac529729fc1bcec15e951ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 11/54] fix: apply metadata policies to the json values of
 parameters

Applying a policy panicked for metadata of entity types without a dedicated
type and for parameters whose Go type differs from the policy value's, ignored
parameters without a dedicated field, did not treat scope as a list, and
modified the metadata it was passed.
---
 metadata.go       | 135 +++++++++++++++++++++++++++++++++++++++-------
 metadataPolicy.go |  43 +++++++++++++++
 2 files changed, 159 insertions(+), 19 deletions(-)

diff --git a/metadata.go b/metadata.go
index 6401140..a9a9dc8 100644
--- a/metadata.go
+++ b/metadata.go
@@ -9,6 +9,8 @@ import (
 	"unsafe"
 
 	"github.com/pkg/errors"
+
+	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -281,45 +283,140 @@ func (m Metadata) ApplyPolicy(p *MetadataPolicies) (*Metadata, error) {
 	return out, nil
 }
 
+// applyPolicy returns the passed metadata with the policy applied to it; the passed metadata is not modified.
+// Operators are always applied to the json representation of a parameter's value, because this is what policies are
+// about; so it makes no difference if a parameter or an entity type is known to this module.
 func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error) {
-	if policy == nil {
+	if policy == nil || metadata == nil {
 		return metadata, nil
 	}
 	v := reflect.ValueOf(metadata)
-	t := v.Elem().Type()
+	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
+		return applyPolicyToMap(metadata, policy, ownTag)
+	}
+	out := reflect.New(v.Elem().Type())
+	out.Elem().Set(v.Elem())
+	t := out.Elem().Type()
 
-	wasSetField := v.Elem().FieldByName("wasSet")
-	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	wasSet := new(map[string]bool)
+	if wasSetField := out.Elem().FieldByName("wasSet"); wasSetField.IsValid() {
+		wasSet = (*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	}
+	markSet := func(name string, set bool) {
+		if (*wasSet)[name] == set {
+			return
+		}
+		// the map is shared with the metadata that was passed
+		updated := map[string]bool{name: set}
+		for k, v := range *wasSet {
+			if k != name {
+				updated[k] = v
+			}
+		}
+		*wasSet = updated
+	}
+
+	handled := make(map[string]struct{})
 	for i := 0; i < t.NumField(); i++ {
-		j, ok := t.Field(i).Tag.Lookup("json")
-		if !ok {
+		j, _, _ := strings.Cut(t.Field(i).Tag.Get("json"), ",")
+		if j == "" || j == "-" {
 			continue
 		}
-		j = strings.TrimSuffix(j, ",omitempty")
+		handled[j] = struct{}{}
 		p, ok := policy[j]
 		if !ok {
 			continue
 		}
-		f := reflect.Indirect(v).Field(i)
-		value, err := p.ApplyTo(f.Interface(), wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
+		f := out.Elem().Field(i)
+		name := t.Field(i).Name
+		path := fmt.Sprintf("%s.%s", ownTag, j)
+		var value any
+		set := (*wasSet)[name] || !f.IsZero()
+		if set {
+			data, err := json.Marshal(f.Interface())
+			if err != nil {
+				return nil, errors.WithStack(err)
+			}
+			if err = json.Unmarshal(data, &value); err != nil {
+				return nil, errors.WithStack(err)
+			}
+		}
+		applied, err := p.applyToParameter(j, value, set, path)
 		if err != nil {
 			return nil, err
 		}
-		rV := reflect.ValueOf(value)
-		if t.Field(i).Name == "Scope" && rV.IsValid() && rV.Kind() == reflect.Slice {
-			strSlice, ok := value.([]string)
-			if ok {
-				rV = reflect.ValueOf(strings.Join(strSlice, " "))
+		if applied == nil {
+			f.SetZero()
+			markSet(name, false)
+			continue
+		}
+		if reflect.DeepEqual(applied, value) {
+			continue
+		}
+		if f.Kind() == reflect.Slice {
+			applied = utils.Slicify(applied)
+		}
+		data, err := json.Marshal(applied)
+		if err != nil {
+			return nil, errors.WithStack(err)
+		}
+		newValue := reflect.New(f.Type())
+		if err = json.Unmarshal(data, newValue.Interface()); err != nil {
+			return nil, errors.Wrapf(err, "applying the policy to '%s' gives an invalid value", path)
+		}
+		f.Set(newValue.Elem())
+		if f.IsZero() {
+			markSet(name, true)
+		}
+	}
+
+	extraPolicy := make(MetadataPolicy)
+	for j, p := range policy {
+		if _, ok := handled[j]; !ok {
+			extraPolicy[j] = p
+		}
+	}
+	extraField := out.Elem().FieldByName("Extra")
+	if extraField.IsValid() && len(extraPolicy) > 0 {
+		extra, ok := extraField.Interface().(map[string]any)
+		if ok {
+			applied, err := applyPolicyToMap(extra, extraPolicy, ownTag)
+			if err != nil {
+				return nil, err
 			}
+			extraField.Set(reflect.ValueOf(applied))
+		}
+	}
+	return out.Interface(), nil
+}
+
+// applyPolicyToMap applies the policy to metadata that is not a dedicated struct
+func applyPolicyToMap(metadata any, policy MetadataPolicy, ownTag string) (map[string]any, error) {
+	data, err := json.Marshal(metadata)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	var values map[string]any
+	if err = json.Unmarshal(data, &values); err != nil {
+		return nil, errors.Wrapf(err, "metadata for '%s' is not an object", ownTag)
+	}
+	out := make(map[string]any)
+	for k, value := range values {
+		out[k] = value
+	}
+	for k, p := range policy {
+		value, set := values[k]
+		applied, err := p.applyToParameter(k, value, set, fmt.Sprintf("%s.%s", ownTag, k))
+		if err != nil {
+			return nil, err
 		}
-		if rV.IsValid() {
-			f.Set(rV)
+		if applied == nil {
+			delete(out, k)
 		} else {
-			f.SetZero()
+			out[k] = applied
 		}
 	}
-
-	return metadata, nil
+	return out, nil
 }
 
 // setPointers copies the fields of the struct m points to into the struct withPtrs points to; fields that are not set
diff --git a/metadataPolicy.go b/metadataPolicy.go
index ffb9a1c..220c606 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -3,6 +3,8 @@ package oidfed
 import (
 	"encoding/json"
 	"fmt"
+	"reflect"
+	"strings"
 
 	"github.com/pkg/errors"
 	"tideland.dev/go/slices"
@@ -286,3 +288,44 @@ func (p MetadataPolicyEntry) ApplyTo(value any, valueSet bool, pathInfo string)
 	}
 	return value, nil
 }
+
+// applyToParameter applies this MetadataPolicyEntry to the (json) value of the metadata parameter with the given name.
+// The scope parameter is a list of values that is represented as a string.
+func (p MetadataPolicyEntry) applyToParameter(name string, value any, valueSet bool, pathInfo string) (any, error) {
+	if name != "scope" || !p.hasListValues() {
+		return p.ApplyTo(value, valueSet, pathInfo)
+	}
+	if scope, ok := value.(string); ok {
+		scopes := []any{}
+		for _, s := range strings.Fields(scope) {
+			scopes = append(scopes, s)
+		}
+		value = scopes
+	} else if value != nil {
+		return p.ApplyTo(value, valueSet, pathInfo)
+	}
+	applied, err := p.ApplyTo(value, valueSet, pathInfo)
+	if err != nil || !utils.IsSlice(applied) {
+		return applied, err
+	}
+	var scopes []string
+	appliedV := reflect.ValueOf(applied)
+	for i := 0; i < appliedV.Len(); i++ {
+		s, ok := appliedV.Index(i).Interface().(string)
+		if !ok {
+			return nil, errors.Errorf("policy for '%s' results in a scope that is not a string", pathInfo)
+		}
+		scopes = append(scopes, s)
+	}
+	return strings.Join(scopes, " "), nil
+}
+
+// hasListValues returns whether any of the (known) operators has a list as its value
+func (p MetadataPolicyEntry) hasListValues() bool {
+	for op, v := range p {
+		if _, known := operators[op]; known && utils.IsSlice(v) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From a12062ac90553d42e6c76031265f8f4fa9d22863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 12/54] fix: an essential parameter that is explicitly false or
 0 is present

---
 policyoperators.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/policyoperators.go b/policyoperators.go
index 882e81b..e039c69 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -350,8 +350,7 @@ var policyOperatorEssential = NewPolicyOperator(
 		if policyValue == nil {
 			return value, valueSet, nil
 		}
-		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero())) {
+		if essential, eok := policyValue.(bool); eok && essential && isMissing(value, valueSet) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
@@ -359,6 +358,21 @@ var policyOperatorEssential = NewPolicyOperator(
 	nil,
 )
 
+// isMissing returns whether a metadata value does not satisfy an essential policy; false, 0, and an empty list are
+// values if they were explicitly set
+func isMissing(value any, valueSet bool) bool {
+	if value == nil {
+		return true
+	}
+	v := reflect.ValueOf(value)
+	switch v.Kind() {
+	case reflect.String, reflect.Struct:
+		return v.IsZero()
+	default:
+		return !valueSet && v.IsZero()
+	}
+}
+
 func init() {
 	operators = make(map[PolicyOperatorName]PolicyOperator)
 	RegisterPolicyOperator(policyOperatorSubsetOf)
-- 
2.43.0


From 35e0332f0641873ef442ad2e40224f15e5945709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 13/54] fix: verify a subordinate's policy also if there is no
 superior policy

---
 metadataPolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 220c606..bd1c07d 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -183,7 +183,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
-- 
2.43.0


From 30323f44e10e941daf14fc537d9fda6de3eca670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 14/54] fix: ignore policy operators that are not understood
 when combining policies

---
 metadataPolicy.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index bd1c07d..c3eee7b 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -219,7 +219,8 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			out[op] = av
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
@@ -238,12 +239,15 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
-	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
+	// operators that are not understood are ignored
+	var activeOperators []PolicyOperatorName
+	for opN := range p {
+		if _, ok := operators[opN]; ok {
+			activeOperators = append(activeOperators, opN)
 		}
+	}
+	for _, opN := range activeOperators {
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
-- 
2.43.0


From 04872208d857d7a7df3a1cff9522af7d7a3a7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 15/54] fix: check critical policy operators also for the chain
 of a single statement

---
 trustchain.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trustchain.go b/trustchain.go
index 1b380da..a57e967 100644
--- a/trustchain.go
+++ b/trustchain.go
@@ -76,9 +76,6 @@ func (c TrustChain) Metadata() (*Metadata, error) {
 	if len(c) == 0 {
 		return nil, errors.New("trust chain empty")
 	}
-	if len(c) == 1 {
-		return c[0].Metadata, nil
-	}
 	metadataPolicies := make([]*MetadataPolicies, len(c))
 	critPolicies := make(map[PolicyOperatorName]struct{})
 	for i, stmt := range c {
@@ -94,6 +91,9 @@ func (c TrustChain) Metadata() (*Metadata, error) {
 			unsupportedCritPolicies,
 		)
 	}
+	if len(c) == 1 {
+		return c[0].Metadata, nil
+	}
 
 	combinedPolicy, err := MergeMetadataPolicies(metadataPolicies...)
 	if err != nil {
-- 
2.43.0


From 831e4ef0ac47182db04a63696d02bd599d0479a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 16/54] fix: accept only jwts in compact serialization as
 federation documents

---
 internal/jwx/jws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..78c6bbd 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -38,9 +38,9 @@ func (p *ParsedJWT) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
-// Parse parses a jwt and returns a ParsedJWT
+// Parse parses a jwt, i.e. a jws in compact serialization, and returns a ParsedJWT
 func Parse(data []byte) (*ParsedJWT, error) {
-	m, err := jws.Parse(data)
+	m, err := jws.Parse(data, jws.WithCompact())
 	return &ParsedJWT{
 		RawJWT:  data,
 		Message: m,
-- 
2.43.0


From bc23d3618bdc9bf1515a87ba8d9a7fa4bbf1d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 17/54] fix: do not panic on a trust mark issuer without keys
 in its configuration

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 5714f3d..cdb4ec6 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -249,7 +249,7 @@ func getTrustMarkIssuerJWKS(
 		err = errors.Wrap(err, "error while parsing trust mark issuer entity statement")
 		return
 	}
-	if tmi == nil || tmi.JWKS.Len() == 0 {
+	if tmi == nil || tmi.JWKS.Set == nil || tmi.JWKS.Len() == 0 {
 		err = errors.New("no jwks found for trust mark issuer")
 		return
 	}
-- 
2.43.0


From 17088c4ffff9d5f1d319a0e94554a17f2a279a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 18/54] fix: honour a custom lifetime of a delegation also if
 none is specified, and a custom lifetime of zero

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index cdb4ec6..792024f 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -563,7 +563,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From d86c03012b42d6aaf3d4f634adfd0dfb41c02a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 19/54] fix: encode times beyond the range of 64 bit
 nanoseconds

---
 unixtime/unixtime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 8011d4a..0388827 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -30,7 +30,7 @@ func (u Unixtime) MarshalJSON() ([]byte, error) {
 	if u.IsZero() {
 		return json.Marshal(0)
 	}
-	return json.Marshal(float64(u.UnixNano()) / 1e9)
+	return json.Marshal(float64(u.Unix()) + float64(u.Nanosecond())/1e9)
 }
 
 // Until returns the time.Duration from now until an Unixtime
-- 
2.43.0


From 44bbb3a8a1e605c7a95d49bba18d67c03a1ed9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 20/54] fix: report only trust marks issued to the resolved
 entity

---
 metadata_resolver.go |  3 ++-
 trustmark.go         | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..d32c806 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -76,7 +76,8 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.forSubject(chain[0].Subject).
+		VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 792024f..a924c00 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -42,6 +42,16 @@ func (tms TrustMarkInfos) VerifiedExternal(
 	return
 }
 
+// forSubject returns only the TrustMarkInfos holding a trust mark that was issued to the passed entity
+func (tms TrustMarkInfos) forSubject(entityID string) (own TrustMarkInfos) {
+	for _, tm := range tms {
+		if mark, err := tm.TrustMark(); err == nil && mark.Subject == entityID {
+			own = append(own, tm)
+		}
+	}
+	return
+}
+
 // Find uses the passed function to find the first matching TrustMarkInfo
 func (tms TrustMarkInfos) Find(matcher func(info TrustMarkInfo) bool) *TrustMarkInfo {
 	for _, tm := range tms {
-- 
2.43.0


From 7b8e32d380499b20e5f6a14cf45ce197305233f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 21/54] fix: credit collected entities only with trust marks
 issued to them, whichever of their marks verifies

---
 discovery.go |  9 +++++----
 trustmark.go | 10 ++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4554f91..54e4d0d 100644
--- a/discovery.go
+++ b/discovery.go
@@ -318,8 +318,8 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)
-								if trustMarkInfo == nil {
+								trustMarkInfos := entityConfig.TrustMarks.forSubject(subordinateID).withType(trustMarkType)
+								if len(trustMarkInfos) == 0 {
 									includeEntity = false
 									break
 								}
@@ -328,7 +328,7 @@ func (d *SimpleEntityCollector) collect(
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								if taErr != nil || len(trustMarkInfos.VerifiedFederation(&ta.EntityStatementPayload)) == 0 {
 									includeEntity = false
 									break
 								}
@@ -426,7 +426,8 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = entityConfig.TrustMarks.forSubject(subordinateID).
+											VerifiedFederation(&ta.EntityStatementPayload)
 									}
 								}
 
diff --git a/trustmark.go b/trustmark.go
index a924c00..08ab1ff 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -52,6 +52,16 @@ func (tms TrustMarkInfos) forSubject(entityID string) (own TrustMarkInfos) {
 	return
 }
 
+// withType returns only the TrustMarkInfos with the passed trust mark type
+func (tms TrustMarkInfos) withType(trustMarkType string) (matching TrustMarkInfos) {
+	for _, tm := range tms {
+		if tm.TrustMarkType == trustMarkType {
+			matching = append(matching, tm)
+		}
+	}
+	return
+}
+
 // Find uses the passed function to find the first matching TrustMarkInfo
 func (tms TrustMarkInfos) Find(matcher func(info TrustMarkInfo) bool) *TrustMarkInfo {
 	for _, tm := range tms {
-- 
2.43.0


From 147f2c8420137ad76814cd248655ae1fd9fbd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 22/54] fix: synchronise the entities visited by a collection

---
 discovery.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/discovery.go b/discovery.go
index 54e4d0d..a16ee51 100644
--- a/discovery.go
+++ b/discovery.go
@@ -164,9 +164,22 @@ type EntityCollector interface {
 // SimpleEntityCollector is an EntityCollector that collects entities in a
 // federation
 type SimpleEntityCollector struct {
+	visitedMutex    sync.Mutex
 	visitedEntities *strset.Set
 }
 
+// visit marks an entity as visited; it returns false if the entity was already
+// visited before
+func (d *SimpleEntityCollector) visit(entityID string) bool {
+	d.visitedMutex.Lock()
+	defer d.visitedMutex.Unlock()
+	if d.visitedEntities.Has(entityID) {
+		return false
+	}
+	d.visitedEntities.Add(entityID)
+	return true
+}
+
 // SimpleOPCollector is an EntityCollector that uses the
 // SimpleEntityCollector to collect OPs in a federation
 type SimpleOPCollector struct{}
@@ -217,8 +230,10 @@ type FilterableVerifiedChainsEntityCollector struct {
 }
 
 // CollectEntities implements the EntityCollector interface
-func (d *SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
-	d.visitedEntities = strset.New()
+func (*SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
+	// each collection has its own set of visited entities, so a collector can be
+	// used concurrently
+	d := &SimpleEntityCollector{visitedEntities: strset.New()}
 	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
 }
 
@@ -269,11 +284,10 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				if !d.visit(authority.EntityID) {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
-- 
2.43.0


From 88e70c1fbde3e8d02776c3e4e064e74a766c8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 23/54] fix: set the fields of collected ui infos

---
 discovery.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index a16ee51..69710e0 100644
--- a/discovery.go
+++ b/discovery.go
@@ -74,11 +74,7 @@ func (e *CollectedEntity) setUIInfoField(
 
 	for i := 0; i < uiInfoType.NumField(); i++ {
 		structField := uiInfoType.Field(i)
-		tag := structField.Tag.Get("json")
-		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
-			tagName = tag[:commaIdx]
-		}
+		tagName, _, _ := strings.Cut(structField.Tag.Get("json"), ",")
 
 		if tagName == jsonTag {
 			fieldValue := uiInfoValue.Field(i)
-- 
2.43.0


From 7cdf5146c42410f1bf93f24fcbac01c4a61bd18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 24/54] fix: collect keywords of metadata

---
 metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index a9a9dc8..aad3b90 100644
--- a/metadata.go
+++ b/metadata.go
@@ -147,9 +147,9 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
-					slice := subField.Interface().([]string)
-					if slice != nil {
+				if jsonTag == tag {
+					slice, ok := subField.Interface().([]string)
+					if ok && slice != nil {
 						iterator(entityTag, slice)
 					}
 					break
-- 
2.43.0


From 5954403c7b36ae1c6fe944476c98d0cb82bc162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 25/54] fix: keep scores with their chain when sorting chains

---
 trustchainfilter.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..3d47bf5 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -20,31 +20,32 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
-		},
-	)
-	return c
+	return c.sort(scorer, func(a, b int) bool { return a < b })
 }
 
 // SortDesc sorts multiple TrustChains descending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
+	return c.sort(scorer, func(a, b int) bool { return a > b })
+}
+
+// sort sorts the chains by their scores, which have to stay with their chain
+func (c TrustChains) sort(scorer TrustChainScoringFnc, less func(a, b int) bool) TrustChains {
+	type scoredChain struct {
+		chain TrustChain
+		score int
+	}
+	scored := make([]scoredChain, len(c))
 	for i, tc := range c {
-		scores[i] = scorer(tc)
+		scored[i] = scoredChain{chain: tc, score: scorer(tc)}
 	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
+	sort.SliceStable(
+		scored, func(i, j int) bool {
+			return less(scored[i].score, scored[j].score)
 		},
 	)
+	for i, sc := range scored {
+		c[i] = sc.chain
+	}
 	return c
 }
 
-- 
2.43.0


From 179f3899207174ad3d4ca4a758d26c0dfe9f82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 26/54] fix: do not decode members that differ from known ones
 by case

---
 entitystatement.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index 816bbe3..32ccddd 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -2,6 +2,7 @@ package oidfed
 
 import (
 	"encoding/json"
+	"strings"
 
 	"github.com/pkg/errors"
 	"github.com/vmihailenco/msgpack/v5"
@@ -134,16 +135,34 @@ func (e EntityStatementPayload) MarshalJSON() ([]byte, error) {
 }
 
 func unmarshalWithExtra(data []byte, target interface{}) (map[string]interface{}, error) {
-	if err := json.Unmarshal(data, target); err != nil {
-		return nil, errors.WithStack(err)
-	}
 	extra := make(map[string]interface{})
 	if err := json.Unmarshal(data, &extra); err != nil {
 		return nil, errors.WithStack(err)
 	}
-	s := structs.New(target)
-	for _, tag := range utils.FieldTagNames(s.Fields(), "json") {
+	var explicit map[string]json.RawMessage
+	for _, tag := range utils.FieldTagNames(structs.New(target).Fields(), "json") {
 		delete(extra, tag)
+		for k := range extra {
+			if !strings.EqualFold(k, tag) {
+				continue
+			}
+			// member names are case-sensitive, but encoding/json also decodes such a member into the field
+			if explicit == nil {
+				if err := json.Unmarshal(data, &explicit); err != nil {
+					return nil, errors.WithStack(err)
+				}
+			}
+			delete(explicit, k)
+		}
+	}
+	if explicit != nil {
+		var err error
+		if data, err = json.Marshal(explicit); err != nil {
+			return nil, errors.WithStack(err)
+		}
+	}
+	if err := json.Unmarshal(data, target); err != nil {
+		return nil, errors.WithStack(err)
 	}
 	if len(extra) == 0 {
 		extra = nil
-- 
2.43.0


From 8bb92892216b5f1d0a0a179ebee1d0af8d607175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 27/54] fix: keep extra members of entity collection responses

---
 discovery.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/discovery.go b/discovery.go
index 69710e0..46caa61 100644
--- a/discovery.go
+++ b/discovery.go
@@ -36,6 +36,30 @@ type EntityCollectionResponse struct {
 	Extra              map[string]any     `json:"-"`
 }
 
+// MarshalJSON implements the json.Marshaler interface
+func (r EntityCollectionResponse) MarshalJSON() ([]byte, error) {
+	type Alias EntityCollectionResponse
+	explicitFields, err := json.Marshal(Alias(r))
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface
+func (r *EntityCollectionResponse) UnmarshalJSON(data []byte) error {
+	type Alias EntityCollectionResponse
+	rr := Alias(*r)
+
+	extra, err := unmarshalWithExtra(data, &rr)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	rr.Extra = extra
+	*r = EntityCollectionResponse(rr)
+	return nil
+}
+
 // CollectedEntity is a type describing a single collected entity
 type CollectedEntity struct {
 	EntityID    string         `json:"entity_id"`
-- 
2.43.0


From d40b9427d4b8e397261a007f567647a6d37af332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 28/54] fix: decode all claims of resolve responses

---
 trustresolver.go | 54 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 3fb8f86..cc03476 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/fatih/structs"
 	"github.com/scylladb/go-set/strset"
 	"github.com/vmihailenco/msgpack/v5"
 	"golang.org/x/crypto/sha3"
@@ -47,6 +48,15 @@ type ResolveResponse struct {
 	ResolveResponsePayload `json:",inline"`
 }
 
+// resolveResponseClaims holds the claims of a ResolveResponse besides its ResolveResponsePayload
+type resolveResponseClaims struct {
+	Issuer    string            `json:"iss"`
+	Subject   string            `json:"sub"`
+	IssuedAt  unixtime.Unixtime `json:"iat"`
+	ExpiresAt unixtime.Unixtime `json:"exp"`
+	Audience  string            `json:"aud,omitempty"`
+}
+
 // MarshalJSON implements the json.Marshaler interface.
 // It also marshals extra fields.
 func (r ResolveResponse) MarshalJSON() ([]byte, error) {
@@ -54,15 +64,8 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	type additionalData struct {
-		Issuer    string            `json:"iss"`
-		Subject   string            `json:"sub"`
-		IssuedAt  unixtime.Unixtime `json:"iat"`
-		ExpiresAt unixtime.Unixtime `json:"exp"`
-		Audience  string            `json:"aud,omitempty"`
-	}
 	additional, err := json.Marshal(
-		additionalData{
+		resolveResponseClaims{
 			Issuer:    r.Issuer,
 			Subject:   r.Subject,
 			IssuedAt:  r.IssuedAt,
@@ -73,8 +76,39 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	additional[0] = ','
-	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
+	if len(payload) > len("{}") {
+		additional[0] = ','
+		additional = append(payload[:len(payload)-1], additional...)
+	}
+	return extraMarshalHelper(additional, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	var claims resolveResponseClaims
+	if _, err := unmarshalWithExtra(data, &claims); err != nil {
+		return err
+	}
+	var payload ResolveResponsePayload
+	if err := json.Unmarshal(data, &payload); err != nil {
+		return err
+	}
+	for _, tag := range utils.FieldTagNames(structs.New(claims).Fields(), "json") {
+		delete(payload.Extra, tag)
+	}
+	if len(payload.Extra) == 0 {
+		payload.Extra = nil
+	}
+	*r = ResolveResponse{
+		Issuer:                 claims.Issuer,
+		Subject:                claims.Subject,
+		IssuedAt:               claims.IssuedAt,
+		ExpiresAt:              claims.ExpiresAt,
+		Audience:               claims.Audience,
+		ResolveResponsePayload: payload,
+	}
+	return nil
 }
 
 // ResolveResponsePayload holds the actual payload of a resolve response
-- 
2.43.0


From 68283a3e36616e1d8e58b91858ad4fcb1cadcb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 29/54] fix: encode empty constraints that differ from absent
 ones

---
 entitystatement.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/entitystatement.go b/entitystatement.go
index 32ccddd..16b6164 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -226,6 +226,28 @@ type NamingConstraints struct {
 	Excluded  []string `json:"excluded,omitempty"`
 }
 
+// MarshalJSON implements the json.Marshaler interface.
+// No allowed entity types at all differs from no constraint on the entity types.
+func (c ConstraintSpecification) MarshalJSON() ([]byte, error) {
+	type Alias ConstraintSpecification
+	explicitFields, err := json.Marshal(Alias(c))
+	if err != nil || c.AllowedEntityTypes == nil || len(c.AllowedEntityTypes) > 0 {
+		return explicitFields, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, map[string]any{"allowed_entity_types": c.AllowedEntityTypes})
+}
+
+// MarshalJSON implements the json.Marshaler interface.
+// No permitted names at all differs from no constraint on the permitted names.
+func (c NamingConstraints) MarshalJSON() ([]byte, error) {
+	type Alias NamingConstraints
+	explicitFields, err := json.Marshal(Alias(c))
+	if err != nil || c.Permitted == nil || len(c.Permitted) > 0 {
+		return explicitFields, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, map[string]any{"permitted": c.Permitted})
+}
+
 // AllowedTrustMarkIssuers is type for defining which TrustMark can be issued by which entities
 type AllowedTrustMarkIssuers map[string][]string
 
-- 
2.43.0


From 09826601dcbdc233c9949a7868997d3a6e767e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 30/54] fix: encode trust mark specifications as yaml

---
 entitystatement.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index 16b6164..c961121 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -109,16 +109,12 @@ func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]
 }
 
 func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{}) (any, error) {
-	var m map[string]*yaml.Node
+	var m map[string]any
 	if err := yaml.Unmarshal(explicitFields, &m); err != nil {
-		return nil, err
+		return nil, errors.WithStack(err)
 	}
 	for k, v := range extra {
-		node := &yaml.Node{}
-		if err := node.Encode(v); err != nil {
-			return nil, errors.WithStack(err)
-		}
-		m[k] = node
+		m[k] = v
 	}
 	return m, nil
 }
-- 
2.43.0


From 3323894b4da2b14036ebd059fb59d69fc7aee115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 31/54] fix: encode extra members of token responses

---
 authcode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/authcode.go b/authcode.go
index 85eb3db..1728a83 100644
--- a/authcode.go
+++ b/authcode.go
@@ -33,6 +33,16 @@ type OIDCTokenResponse struct {
 	Extra map[string]any `json:"-"`
 }
 
+// MarshalJSON implements the json.Marshaler interface
+func (res OIDCTokenResponse) MarshalJSON() ([]byte, error) {
+	type oidcTokenResponse OIDCTokenResponse
+	explicitFields, err := json.Marshal(oidcTokenResponse(res))
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, res.Extra)
+}
+
 // UnmarshalJSON implements the json.Unmarshaler interface
 func (res *OIDCTokenResponse) UnmarshalJSON(data []byte) error {
 	type oidcTokenResponse OIDCTokenResponse
-- 
2.43.0


From c295486b9200fceb521cfe97bbd247c47aae01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 32/54] fix: decode metadata of known entity types when found
 by name

---
 metadata.go | 47 ++++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/metadata.go b/metadata.go
index aad3b90..2384233 100644
--- a/metadata.go
+++ b/metadata.go
@@ -441,34 +441,7 @@ func setPointers(m, withPtrs any, wasSet map[string]bool) {
 // FindEntityMetadata finds metadata for the specified entity type in the
 // metadata and decodes it into the provided metadata object.
 func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
-	// Check if the entity type indicates one of the explicit struct fields.
-	v := reflect.ValueOf(m)
-	t := v.Elem().Type()
-
-	for i := 0; i < t.NumField(); i++ {
-		j, ok := t.Field(i).Tag.Lookup("json")
-		if !ok {
-			continue
-		}
-		j = strings.TrimSuffix(j, ",omitempty")
-		if j != entityType {
-			continue
-		}
-		if j == entityType {
-			fmt.Printf("found entity type %s\n", entityType)
-		}
-
-		value := v.Elem().FieldByName(t.Field(i).Name)
-		if value.IsZero() {
-			continue
-		}
-
-		metadata = value.Interface()
-		return nil
-	}
-
-	// Requested entity type was not a struct field, so find it in the extra metadata.
-	metadataMap, ok := m.Extra[entityType]
+	value, ok := m.findEntityMetadata(entityType)
 	if !ok {
 		return errors.Errorf("could not find metadata for entity %s", entityType)
 	}
@@ -476,7 +449,7 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 	// Go will deserialize each metadata into a map[string]interface{}. There may be a nicer way to
 	// do this with generics, but we encode that back to JSON, then decode it into the provided
 	// struct so we can use RTTI to give the caller a richer representation.
-	jsonMetadata, err := json.Marshal(metadataMap)
+	jsonMetadata, err := json.Marshal(value)
 	if err != nil {
 		return errors.Errorf("failed to marshal metadata: %s", err)
 	}
@@ -484,6 +457,22 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 	return json.Unmarshal(jsonMetadata, metadata)
 }
 
+// findEntityMetadata returns the metadata for the specified entity type
+func (m *Metadata) findEntityMetadata(entityType string) (any, bool) {
+	// Check if the entity type indicates one of the explicit struct fields.
+	v := reflect.ValueOf(m).Elem()
+	t := v.Type()
+	for i := 0; i < t.NumField(); i++ {
+		tag, _, _ := strings.Cut(t.Field(i).Tag.Get("json"), ",")
+		if tag == entityType && v.Field(i).Kind() == reflect.Ptr && !v.Field(i).IsNil() {
+			return v.Field(i).Interface(), true
+		}
+	}
+	// Requested entity type was not a struct field, so find it in the extra metadata.
+	value, ok := m.Extra[entityType]
+	return value, ok
+}
+
 // OAuthClientMetadata is a type for holding the metadata about an oauth client
 type OAuthClientMetadata OpenIDRelyingPartyMetadata
 type oAuthClientMetadataWithPtrs openIDRelyingPartyMetadataWithPtrs
-- 
2.43.0


From 520659da36bcc5c4e8341733885e296cf91c93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 33/54] fix: keep fractions of seconds when decoding durations

---
 unixtime/unixtime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 0388827..318c9c6 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -66,7 +66,7 @@ func (d *DurationInSeconds) UnmarshalJSON(src []byte) error {
 	if err := json.Unmarshal(src, &f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
@@ -76,7 +76,7 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 	if err := value.Decode(&f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
-- 
2.43.0


From 9ee6db01eadb266712fbb8ed16bdef6d3cc770c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 34/54] fix: decode null as an empty list

---
 sliceorsinglevalue.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sliceorsinglevalue.go b/sliceorsinglevalue.go
index 92501fa..f89db3a 100644
--- a/sliceorsinglevalue.go
+++ b/sliceorsinglevalue.go
@@ -12,16 +12,16 @@ type SliceOrSingleValue[T any] []T
 
 // UnmarshalJSON implements the json.Unmarshaler interface
 func (v *SliceOrSingleValue[T]) UnmarshalJSON(data []byte) error {
-	var t T
-	if json.Unmarshal(data, &t) == nil {
-		*v = []T{t}
+	var tSlice []T
+	if json.Unmarshal(data, &tSlice) == nil {
+		*v = tSlice
 		return nil
 	}
-	var tSlice []T
-	if err := json.Unmarshal(data, &tSlice); err != nil {
+	var t T
+	if err := json.Unmarshal(data, &t); err != nil {
 		return err
 	}
-	*v = tSlice
+	*v = []T{t}
 	return nil
 }
 
@@ -35,16 +35,16 @@ func (v SliceOrSingleValue[T]) MarshalJSON() ([]byte, error) {
 
 // UnmarshalYAML implements the yaml.Unmarshaler interface
 func (v *SliceOrSingleValue[T]) UnmarshalYAML(value *yaml.Node) error {
-	var t T
-	if err := value.Decode(&t); err == nil {
-		*v = []T{t}
+	var tSlice []T
+	if err := value.Decode(&tSlice); err == nil {
+		*v = tSlice
 		return nil
 	}
-	var tSlice []T
-	if err := value.Decode(&tSlice); err != nil {
+	var t T
+	if err := value.Decode(&t); err != nil {
 		return err
 	}
-	*v = tSlice
+	*v = []T{t}
 	return nil
 }
 
-- 
2.43.0


From 2a072926bb5d404d630fa3caf24adfa62e95e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 35/54] fix: accept configured trust mark jwts without
 verifying them

---
 trustmark_refresher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..22c80ef 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -45,7 +45,7 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		parsed, err := jwt.ParseInsecure([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 087a69847e7d3af3c62381c6cb37b5e9064dc848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 36/54] fix: keep trust marks that do not expire

---
 trustmark_refresher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 22c80ef..5924287 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -84,6 +84,10 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
+	if c.JWT != "" && c.expiration.IsZero() {
+		// does not expire
+		return c.JWT, nil
+	}
 	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
 		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
 			go c.refresh()
-- 
2.43.0


From 4c77fbb24cd6354ebc247bcc0e2f4cb483218620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 37/54] fix: synchronise the refreshing of trust marks

---
 trustmark_refresher.go | 68 +++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 5924287..26be81b 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -2,6 +2,7 @@ package oidfed
 
 import (
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/lestrrat-go/jwx/v3/jwt"
@@ -28,6 +29,8 @@ type EntityConfigurationTrustMarkConfig struct {
 	sub                  string
 	ownTrustMarkEndpoint string
 	ownTrustMarkIssuer   *TrustMarkIssuer
+	currentMutex         sync.Mutex // guards JWT and expiration
+	refreshMutex         sync.Mutex // held while refreshing, guards lastTried
 }
 
 // Verify verifies that the EntityConfigurationTrustMarkConfig is correct and also extracts trust mark id and issuer
@@ -84,22 +87,56 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
-	if c.JWT != "" && c.expiration.IsZero() {
-		// does not expire
-		return c.JWT, nil
-	}
-	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
-		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
+	current, usable, aging := c.current()
+	if usable {
+		if aging {
 			go c.refresh()
 		}
-		return c.JWT, nil
+		return current, nil
 	}
 	err := c.refresh()
-	return c.JWT, err
+	if current, usable, _ = c.current(); usable {
+		return current, nil
+	}
+	return current, err
+}
+
+// current returns the current trust mark jwt; usable tells if its remaining lifetime is sufficient; aging if it should
+// be refreshed
+func (c *EntityConfigurationTrustMarkConfig) current() (current string, usable, aging bool) {
+	c.currentMutex.Lock()
+	defer c.currentMutex.Unlock()
+	if c.JWT == "" {
+		return "", false, true
+	}
+	if c.expiration.IsZero() {
+		// does not expire
+		return c.JWT, true, false
+	}
+	remaining := unixtime.Until(c.expiration)
+	return c.JWT, remaining > c.MinLifetime.Duration, remaining < c.RefreshGracePeriod.Duration
+}
+
+// setCurrent sets the current trust mark jwt
+func (c *EntityConfigurationTrustMarkConfig) setCurrent(current string, expiration *unixtime.Unixtime) {
+	c.currentMutex.Lock()
+	defer c.currentMutex.Unlock()
+	c.JWT = current
+	if expiration != nil {
+		c.expiration = *expiration
+	} else {
+		c.expiration = unixtime.Unixtime{}
+	}
 }
 
 // refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint
 func (c *EntityConfigurationTrustMarkConfig) refresh() error {
+	c.refreshMutex.Lock()
+	defer c.refreshMutex.Unlock()
+	if _, usable, aging := c.current(); usable && !aging {
+		// already refreshed in the meantime
+		return nil
+	}
 	if time.Since(c.lastTried.Time) < time.Minute {
 		// Only try once a minute to obtain a new trust mark
 		return errors.New("only trying to refresh trust mark once a minute")
@@ -110,13 +147,7 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 		if err != nil {
 			return err
 		}
-		c.JWT = tmi.TrustMarkJWT
-		exp := tmi.trustmark.ExpiresAt
-		if exp != nil {
-			c.expiration = *exp
-		} else {
-			c.expiration = unixtime.Unixtime{}
-		}
+		c.setCurrent(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 		return nil
 	}
 
@@ -148,11 +179,6 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
-	c.JWT = string(tm.jwtMsg.RawJWT)
-	if tm.ExpiresAt != nil {
-		c.expiration = *tm.ExpiresAt
-	} else {
-		c.expiration = unixtime.Unixtime{}
-	}
+	c.setCurrent(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From a3fee1373db56e02b580050b666090abee1f4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 38/54] fix: treat responses with an error status as failed

---
 internal/http/http.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/http/http.go b/internal/http/http.go
index 8d3c404..97804df 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -42,14 +42,26 @@ func Do() *resty.Client {
 	return client
 }
 
+// errorResponse returns an HttpError if the response is not a successful one
+func errorResponse(resp *resty.Response) *HttpError {
+	errRes, ok := resp.Error().(*HttpError)
+	if !ok || errRes == nil {
+		errRes = &HttpError{}
+	}
+	if resp.IsSuccess() && errRes.Error == "" {
+		return nil
+	}
+	errRes.Status = resp.StatusCode()
+	return errRes
+}
+
 // Get performs a http GET request and parses the response into the given interface{}
 func Get(url string, params url.Values, res interface{}) (*resty.Response, *HttpError, error) {
 	resp, err := client.R().SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res).Get(url)
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
@@ -61,8 +73,7 @@ func Post(url string, req interface{}, res interface{}) (*resty.Response, *HttpE
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
-- 
2.43.0


From 614483b02fa794dda4aa153d87b2d317c760666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 39/54] fix: treat listing responses that are no JSON list as
 failed

---
 discovery.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 46caa61..100d4a2 100644
--- a/discovery.go
+++ b/discovery.go
@@ -613,18 +613,18 @@ func fetchList(listEndpoint string) ([]string, error) {
 }
 
 func httpFetchList(listEndpoint string) ([]string, error) {
-	resp, errRes, err := http.Get(listEndpoint, nil, &[]string{})
+	resp, errRes, err := http.Get(listEndpoint, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 	if errRes != nil {
 		return nil, errRes.Err()
 	}
-	entities, ok := resp.Result().(*[]string)
-	if !ok || entities == nil {
-		return nil, errors.New("unexpected response type")
+	var entities []string
+	if err = json.Unmarshal(resp.Body(), &entities); err != nil {
+		return nil, errors.Wrap(err, "unexpected listing response")
 	}
-	return *entities, nil
+	return entities, nil
 }
 
 func getMetadataForCollectedEntity(e *CollectedEntity, trustAnchors []string) *Metadata {
-- 
2.43.0


From e8ab734cf3b11ee77de69c708a3ed6703f9065bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 40/54] fix: do not take a failing resolve endpoint as proof of
 invalidity

---
 metadata_resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index d32c806..5a678d2 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -169,7 +169,7 @@ func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveReques
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
-- 
2.43.0


From 50aca5acc27bb84dda6d6b644aedb2e4f74430d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 41/54] fix: send the name query of collection requests under
 its protocol name

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From a71c653895da5d373c5c22bbe45cc2f709cb837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 42/54] fix: keep the query of the authorization endpoint

---
 authcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 1728a83..e6f154c 100644
--- a/authcode.go
+++ b/authcode.go
@@ -161,7 +161,7 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From 6c8b41a59ed2758ea8fcb5ce3c5ee50358ac43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 43/54] fix: return an error if the resolved metadata is not
 that of an OP

---
 federation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation.go b/federation.go
index bddd1d7..d5d0c92 100644
--- a/federation.go
+++ b/federation.go
@@ -146,5 +146,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.New("resolved metadata is no openid provider metadata")
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From c94246161145363e2b486a4813ea0556e6418ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 44/54] fix: do not modify the values passed for a request
 object

---
 authcode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/authcode.go b/authcode.go
index e6f154c..81c9f6d 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
 	"time"
@@ -84,6 +85,7 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	requestValues = maps.Clone(requestValues) // do not modify the caller's map
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
-- 
2.43.0


From b4dafe6877c8ac21cb7163f33e206a8de90cd042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 45/54] fix: do not modify the parameters passed for a code
 exchange

---
 authcode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authcode.go b/authcode.go
index 81c9f6d..b8ae98f 100644
--- a/authcode.go
+++ b/authcode.go
@@ -182,9 +182,9 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
-	if params == nil {
-		params = url.Values{}
+	params := url.Values{}
+	for k, v := range additionalParameter {
+		params[k] = v
 	}
 	params.Set("grant_type", "authorization_code")
 	params.Set("code", code)
-- 
2.43.0


From f08374ec6641da25643babb019c8eed3c30f3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 46/54] fix: do not take failed token responses for tokens

---
 authcode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/authcode.go b/authcode.go
index b8ae98f..8e84e6f 100644
--- a/authcode.go
+++ b/authcode.go
@@ -215,6 +215,9 @@ func (f FederationLeaf) CodeExchange(
 	if errRes.Error != "" {
 		return nil, &errRes, nil
 	}
+	if res.StatusCode < 200 || res.StatusCode > 299 {
+		return nil, nil, errors.Errorf("unexpected response from token endpoint: %s", res.Status)
+	}
 	if err = json.Unmarshal(body, &tokenRes); err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From c6664f472bf27c61873f9226f3452b68aed6a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 47/54] fix: use the keys configured for trust anchors when
 resolving to them

---
 discovery.go         |  7 +----
 federation.go        |  9 +------
 metadata_resolver.go | 63 +++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/discovery.go b/discovery.go
index 100d4a2..61b9247 100644
--- a/discovery.go
+++ b/discovery.go
@@ -589,12 +589,7 @@ type EntityCollectionFilterVerifiedChains struct {
 
 // Filter implements the EntityCollectionFilter interface
 func (f EntityCollectionFilterVerifiedChains) Filter(e *CollectedEntity) bool {
-	confirmedValid, _ := DefaultMetadataResolver.ResolvePossible(
-		apimodel.ResolveRequest{
-			Subject:     e.EntityID,
-			TrustAnchor: f.TrustAnchors.EntityIDs(),
-		},
-	)
+	confirmedValid, _ := defaultResolvePossible(e.EntityID, f.TrustAnchors)
 	return confirmedValid
 }
 
diff --git a/federation.go b/federation.go
index d5d0c92..f285fa0 100644
--- a/federation.go
+++ b/federation.go
@@ -7,7 +7,6 @@ import (
 	"github.com/lestrrat-go/jwx/v3/jwa"
 	"github.com/pkg/errors"
 
-	"github.com/go-oidfed/lib/apimodel"
 	"github.com/go-oidfed/lib/cache"
 	"github.com/go-oidfed/lib/internal"
 	"github.com/go-oidfed/lib/jwks"
@@ -136,13 +135,7 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if set {
 		return &opm, nil
 	}
-	metadata, err := DefaultMetadataResolver.Resolve(
-		apimodel.ResolveRequest{
-			Subject:     issuer,
-			TrustAnchor: f.TrustAnchors.EntityIDs(),
-			EntityTypes: []string{"openid_provider"},
-		},
-	)
+	metadata, err := defaultResolve(issuer, f.TrustAnchors, "openid_provider")
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 5a678d2..e897f0e 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -44,11 +44,20 @@ func (LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
 ) (
 	res ResolveResponsePayload, chain TrustChain, err error,
 ) {
-	tr := TrustResolver{
+	return resolveLocally(newTrustResolver(req))
+}
+
+func newTrustResolver(req apimodel.ResolveRequest) TrustResolver {
+	return TrustResolver{
 		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),
 		StartingEntity: req.Subject,
 		Types:          req.EntityTypes,
 	}
+}
+
+func resolveLocally(tr TrustResolver) (
+	res ResolveResponsePayload, chain TrustChain, err error,
+) {
 	chains := tr.ResolveToValidChains()
 	if len(chains) == 0 {
 		err = errors.New("no trust chain found")
@@ -83,16 +92,58 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 
 // ResolvePossible implements the MetadataResolver interface
 func (LocalMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
-	tr := TrustResolver{
-		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),
-		StartingEntity: req.Subject,
-		Types:          req.EntityTypes,
-	}
+	return resolvePossibleLocally(newTrustResolver(req))
+}
+
+func resolvePossibleLocally(tr TrustResolver) (bool, bool) {
 	chains := tr.ResolveToValidChains()
 	valid := len(chains) > 0
 	return valid, !valid
 }
 
+// defaultResolve uses the DefaultMetadataResolver to resolve the metadata of
+// the subject to the passed TrustAnchors; when resolving locally the keys
+// configured for the TrustAnchors are used
+func defaultResolve(subject string, anchors TrustAnchors, types ...string) (*Metadata, error) {
+	if _, local := DefaultMetadataResolver.(LocalMetadataResolver); local {
+		res, _, err := resolveLocally(
+			TrustResolver{
+				TrustAnchors:   anchors,
+				StartingEntity: subject,
+				Types:          types,
+			},
+		)
+		return res.Metadata, err
+	}
+	return DefaultMetadataResolver.Resolve(
+		apimodel.ResolveRequest{
+			Subject:     subject,
+			TrustAnchor: anchors.EntityIDs(),
+			EntityTypes: types,
+		},
+	)
+}
+
+// defaultResolvePossible uses the DefaultMetadataResolver to check if the
+// subject can be resolved to the passed TrustAnchors; when resolving locally
+// the keys configured for the TrustAnchors are used
+func defaultResolvePossible(subject string, anchors TrustAnchors) (validConfirmed, invalidConfirmed bool) {
+	if _, local := DefaultMetadataResolver.(LocalMetadataResolver); local {
+		return resolvePossibleLocally(
+			TrustResolver{
+				TrustAnchors:   anchors,
+				StartingEntity: subject,
+			},
+		)
+	}
+	return DefaultMetadataResolver.ResolvePossible(
+		apimodel.ResolveRequest{
+			Subject:     subject,
+			TrustAnchor: anchors.EntityIDs(),
+		},
+	)
+}
+
 // SimpleRemoteMetadataResolver is a MetadataResolver that utilizes a given
 // ResolveEndpoint
 type SimpleRemoteMetadataResolver struct {
-- 
2.43.0


From cdf14c2eb5fc2b7e16c123840fc6962bf958656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 48/54] fix: skip null entities in collection responses

---
 discovery.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discovery.go b/discovery.go
index 61b9247..11ea1ab 100644
--- a/discovery.go
+++ b/discovery.go
@@ -780,7 +780,12 @@ func (c SimpleRemoteEntityCollector) CollectEntities(req apimodel.EntityCollecti
 		internal.Logf("error while fetching entity collection endpoint: %s", errRes.Err().Error())
 		return nil
 	}
-	return res.FederationEntities
+	// entities that are null in the response would be nil pointers
+	return slices.DeleteFunc(
+		res.FederationEntities, func(e *CollectedEntity) bool {
+			return e == nil
+		},
+	)
 }
 
 // SmartRemoteEntityCollector is a EntityCollector that utilizes remote
-- 
2.43.0


From 5c940ede2308395c127bf30ae391385b2cd5aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 49/54] fix: guard the in-memory cache against concurrent reads
 and writes of an entry

---
 cache/cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 16d5f4f..add3cde 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"encoding/base64"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/TwiN/gocache/v2"
@@ -22,6 +23,8 @@ type Cache interface {
 // internal cache
 type cacheWrapper struct {
 	c *gocache.Cache
+	// the underlying cache reads the value of an entry without holding its lock
+	mutex *sync.Mutex
 }
 
 func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
@@ -30,13 +33,16 @@ func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
 		log.Fatal(err) // skipcq: RVV-A0003
 	}
 	return cacheWrapper{
-		c,
+		c:     c,
+		mutex: new(sync.Mutex),
 	}
 }
 
 // Get implements the Cache interface
 func (c cacheWrapper) Get(key string, target any) (bool, error) {
+	c.mutex.Lock()
 	entryV, ok := c.c.Get(key)
+	c.mutex.Unlock()
 	if !ok {
 		return false, nil
 	}
@@ -54,6 +60,8 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	// negative values might have a special meaning in the underlying cache
 	c.c.SetWithTTL(key, data, max(expiration, 0))
 	return nil
-- 
2.43.0


From d449f7daee17aa0ad7bd2f9a5bebc0aba8e790aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 50/54] fix: keep explicit zero values when encoding decoded
 metadata

---
 internal/generators/metadata.go | 13 +++++++++++-
 metadata_generated.go           | 36 +++++++++++----------------------
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 92413a3..6fcb187 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -256,7 +256,18 @@ func (m *%s)fromPointers(withPtrs %s) {
 		)
 	}
 
-	marshal(&sb, name)
+	sb.WriteString(
+		fmt.Sprintf(
+			`
+// MarshalJSON implements the json.Marshaler interface
+func (m %s) MarshalJSON() ([]byte, error) {
+	var withPtrs %s
+	setPointers(&m, &withPtrs, m.wasSet)
+	return json.Marshal(withPtrs)
+}
+`, name, withPtrsName,
+		),
+	)
 	marshal(&sb, withPtrsName)
 
 	unmarshalHelper(&sb, name, withPtrsName)
diff --git a/metadata_generated.go b/metadata_generated.go
index a84f31f..eebe6eb 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -54,12 +54,9 @@ type federationEntityMetadataWithPtrs struct {
 
 // MarshalJSON implements the json.Marshaler interface
 func (m FederationEntityMetadata) MarshalJSON() ([]byte, error) {
-	type Alias FederationEntityMetadata
-	explicitFields, err := json.Marshal(Alias(m))
-	if err != nil {
-		return nil, errors.WithStack(err)
-	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	var withPtrs federationEntityMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return json.Marshal(withPtrs)
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -310,12 +307,9 @@ type openIDRelyingPartyMetadataWithPtrs struct {
 
 // MarshalJSON implements the json.Marshaler interface
 func (m OpenIDRelyingPartyMetadata) MarshalJSON() ([]byte, error) {
-	type Alias OpenIDRelyingPartyMetadata
-	explicitFields, err := json.Marshal(Alias(m))
-	if err != nil {
-		return nil, errors.WithStack(err)
-	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	var withPtrs openIDRelyingPartyMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return json.Marshal(withPtrs)
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -590,12 +584,9 @@ type openIDProviderMetadataWithPtrs struct {
 
 // MarshalJSON implements the json.Marshaler interface
 func (m OpenIDProviderMetadata) MarshalJSON() ([]byte, error) {
-	type Alias OpenIDProviderMetadata
-	explicitFields, err := json.Marshal(Alias(m))
-	if err != nil {
-		return nil, errors.WithStack(err)
-	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	var withPtrs openIDProviderMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return json.Marshal(withPtrs)
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -756,12 +747,9 @@ type oAuthProtectedResourceMetadataWithPtrs struct {
 
 // MarshalJSON implements the json.Marshaler interface
 func (m OAuthProtectedResourceMetadata) MarshalJSON() ([]byte, error) {
-	type Alias OAuthProtectedResourceMetadata
-	explicitFields, err := json.Marshal(Alias(m))
-	if err != nil {
-		return nil, errors.WithStack(err)
-	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	var withPtrs oAuthProtectedResourceMetadataWithPtrs
+	setPointers(&m, &withPtrs, m.wasSet)
+	return json.Marshal(withPtrs)
 }
 
 // MarshalJSON implements the json.Marshaler interface
-- 
2.43.0


From f11031ea8696045ac97905a1fc2cb8c6edfdaf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 51/54] fix: compare lists with duplicate elements
 symmetrically

---
 internal/utils/slices.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index 374f2f2..2aba82e 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -141,8 +141,7 @@ func IsSlice(v interface{}) bool {
 	return reflect.TypeOf(v).Kind() == reflect.Slice
 }
 
-// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter,
-// assumes no duplicate entries in a slice
+// SliceEqual uses reflection to check if two slices contain the same elements; order does not matter
 func SliceEqual(a, b interface{}) bool {
 	if a == nil || b == nil {
 		return a == b
@@ -154,8 +153,16 @@ func SliceEqual(a, b interface{}) bool {
 	if aV.Len() != bV.Len() {
 		return false
 	}
+	matched := make([]bool, bV.Len())
 	for i := 0; i < aV.Len(); i++ {
-		if !ReflectSliceContains(aV.Index(i).Interface(), bs) {
+		found := false
+		for j := 0; j < bV.Len() && !found; j++ {
+			if !matched[j] && reflect.DeepEqual(aV.Index(i).Interface(), bV.Index(j).Interface()) {
+				matched[j] = true
+				found = true
+			}
+		}
+		if !found {
 			return false
 		}
 	}
-- 
2.43.0


From 53053d4025b17c0b0b39bff550683d75528cf2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 52/54] fix: do not take a metadata claim named like a struct
 field for that field's claim

---
 internal/generators/metadata.go |  5 ++++-
 metadata_generated.go           | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 6fcb187..11460ad 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -249,7 +249,10 @@ func (m *%s)fromPointers(withPtrs %s) {
 		}
 	}
 	for k,_ := range m.Extra {
-		m.wasSet[k] = true
+		// the claim might have the name of one of the struct's fields
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 `, name, nameWithPtrs,
diff --git a/metadata_generated.go b/metadata_generated.go
index eebe6eb..0793a14 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -98,7 +98,10 @@ func (m *FederationEntityMetadata) fromPointers(withPtrs federationEntityMetadat
 		}
 	}
 	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+		// the claim might have the name of one of the struct's fields
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
@@ -351,7 +354,10 @@ func (m *OpenIDRelyingPartyMetadata) fromPointers(withPtrs openIDRelyingPartyMet
 		}
 	}
 	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+		// the claim might have the name of one of the struct's fields
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
@@ -628,7 +634,10 @@ func (m *OpenIDProviderMetadata) fromPointers(withPtrs openIDProviderMetadataWit
 		}
 	}
 	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+		// the claim might have the name of one of the struct's fields
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
@@ -791,7 +800,10 @@ func (m *OAuthProtectedResourceMetadata) fromPointers(withPtrs oAuthProtectedRes
 		}
 	}
 	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+		// the claim might have the name of one of the struct's fields
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
-- 
2.43.0


From 7bffa504d6b73579dbcc1e30eb2f991a60c6ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 53/54] fix: resolve OP metadata although the cache fails

---
 federation.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/federation.go b/federation.go
index f285fa0..b372305 100644
--- a/federation.go
+++ b/federation.go
@@ -130,9 +130,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	var opm OpenIDProviderMetadata
 	set, err := cache.Get(cache.Key(cache.KeyOPMetadata, issuer), &opm)
 	if err != nil {
-		return nil, err
-	}
-	if set {
+		internal.Log(err.Error())
+	} else if set {
 		return &opm, nil
 	}
 	metadata, err := defaultResolve(issuer, f.TrustAnchors, "openid_provider")
-- 
2.43.0


From 076324e911dbc19cfaa46cdf7be3176ebee29c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 54/54] fix: resolving trust mark issuers without end with
 another default resolver

LocalMetadataResolver verified the trust marks of an entity with the
DefaultMetadataResolver. If that one hands its questions on to the local
resolver (a wrapper, a pointer, SmartRemoteMetadataResolver without remote
endpoints), the trust marks of the trust mark issuer are verified as well, and
so on; self-issued or mutual trust marks overflowed the stack.
---
 metadata_resolver.go |  4 +++-
 trustmark.go         | 25 ++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index e897f0e..62eb96b 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -85,8 +85,10 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
+	// the trust mark issuers are resolved by this resolver (i.e. without their
+	// own trust marks), also if it is used by another DefaultMetadataResolver
 	res.TrustMarks = chain[0].TrustMarks.forSubject(chain[0].Subject).
-		VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+		verifiedFederation(&chain[len(chain)-1].EntityStatementPayload, r)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 08ab1ff..18e8251 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -20,8 +20,14 @@ type TrustMarkInfos []TrustMarkInfo
 
 // VerifiedFederation verifies all TrustMarkInfos by using the passed trust anchor and returns only the valid TrustMarkInfos
 func (tms TrustMarkInfos) VerifiedFederation(ta *EntityStatementPayload) (verified TrustMarkInfos) {
+	return tms.verifiedFederation(ta, DefaultMetadataResolver)
+}
+
+func (tms TrustMarkInfos) verifiedFederation(
+	ta *EntityStatementPayload, resolver MetadataResolver,
+) (verified TrustMarkInfos) {
 	for _, tm := range tms {
-		if err := tm.VerifyFederation(ta); err == nil {
+		if err := tm.verifyFederation(ta, resolver); err == nil {
 			verified = append(verified, tm)
 		}
 	}
@@ -140,6 +146,10 @@ func (tm *TrustMarkInfo) TrustMark() (*TrustMark, error) {
 
 // VerifyFederation verifies the TrustMarkInfo by using the passed trust anchor
 func (tm *TrustMarkInfo) VerifyFederation(ta *EntityStatementPayload) error {
+	return tm.verifyFederation(ta, DefaultMetadataResolver)
+}
+
+func (tm *TrustMarkInfo) verifyFederation(ta *EntityStatementPayload, resolver MetadataResolver) error {
 	mark, err := tm.TrustMark()
 	if err != nil {
 		return err
@@ -147,7 +157,7 @@ func (tm *TrustMarkInfo) VerifyFederation(ta *EntityStatementPayload) error {
 	if mark.TrustMarkType != tm.TrustMarkType {
 		return errors.Errorf("trust mark object claim 'trust_mark_type' does not match JWT claim")
 	}
-	return mark.VerifyFederation(ta)
+	return mark.verifyFederation(ta, resolver)
 }
 
 // VerifyExternal verifies the TrustMarkInfo by using the passed trust mark issuer jwks and optionally the passed
@@ -238,6 +248,7 @@ func (tm *TrustMark) Delegation() (*DelegationJWT, error) {
 func getTrustMarkIssuerJWKS(
 	trustMarkIssuer string,
 	ta *EntityStatementPayload,
+	metadataResolver MetadataResolver,
 ) (jwks jwks.JWKS, err error) {
 	if trustMarkIssuer == ta.Subject {
 		jwks = ta.JWKS
@@ -249,11 +260,11 @@ func getTrustMarkIssuerJWKS(
 		TrustAnchor: []string{ta.Subject},
 	}
 	var res ResolveResponsePayload
-	switch resolver := DefaultMetadataResolver.(type) {
+	switch resolver := metadataResolver.(type) {
 	case LocalMetadataResolver:
 		res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
 	default:
-		res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
+		res, err = metadataResolver.ResolveResponsePayload(resolveRequest)
 	}
 	if err != nil {
 		err = errors.Wrap(err, "error while resolving trust mark issuer")
@@ -279,6 +290,10 @@ func getTrustMarkIssuerJWKS(
 
 // VerifyFederation verifies the TrustMark by using the passed trust anchor
 func (tm *TrustMark) VerifyFederation(ta *EntityStatementPayload) error {
+	return tm.verifyFederation(ta, DefaultMetadataResolver)
+}
+
+func (tm *TrustMark) verifyFederation(ta *EntityStatementPayload, resolver MetadataResolver) error {
 	if ta.TrustMarkIssuers != nil {
 		if tmis, found := ta.TrustMarkIssuers[tm.TrustMarkType]; found {
 			if !slices.Contains(tmis, tm.Issuer) {
@@ -286,7 +301,7 @@ func (tm *TrustMark) VerifyFederation(ta *EntityStatementPayload) error {
 			}
 		}
 	}
-	jwks, err := getTrustMarkIssuerJWKS(tm.Issuer, ta)
+	jwks, err := getTrustMarkIssuerJWKS(tm.Issuer, ta, resolver)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

