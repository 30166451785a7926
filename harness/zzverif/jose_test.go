package zzverif

// Independent minimal JOSE implementation (standard library only), used to
// produce what the mock federation serves and to judge what the library
// produces. It shares no code with the library or its JOSE dependency.

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/lestrrat-go/jwx/v3/jwa"

	"github.com/go-oidfed/lib/jwks"
)

var b64 = base64.RawURLEncoding

type testKey struct {
	Alg    string
	Signer crypto.Signer
	JWK    map[string]any // public JWK with kid, use, alg
	Kid    string
}

var keyMu sync.Mutex
var keyPool = map[int]*testKey{}

// key returns the deterministic test key number i. Numbers below 1000 are
// ES256; 1000+ select other algorithms.
func key(i int) *testKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keyPool[i]; ok {
		return k
	}
	k := makeKey(i)
	keyPool[i] = k
	return k
}

var otherAlgs = []string{"ES384", "ES512", "EdDSA", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}

func algKey(alg string, n int) *testKey {
	if alg == "ES256" {
		return key(n)
	}
	for i, a := range otherAlgs {
		if a == alg {
			return key(1000 + 10*i + n%10)
		}
	}
	panic(harnessErr{"unknown alg " + alg})
}

func ecKey(curve elliptic.Curve, i int) *ecdsa.PrivateKey {
	n := new(big.Int).Sub(curve.Params().N, big.NewInt(2))
	h := sha512.Sum512([]byte(fmt.Sprintf("verif-key-%d-%s", i, curve.Params().Name)))
	d := new(big.Int).Mod(new(big.Int).SetBytes(append(h[:], h[:16]...)), n)
	d.Add(d, big.NewInt(1))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = curve
	k.X, k.Y = curve.ScalarBaseMult(d.Bytes())
	return k
}

func makeKey(i int) *testKey {
	alg := "ES256"
	if i >= 1000 {
		alg = otherAlgs[(i-1000)/10]
	}
	var s crypto.Signer
	switch {
	case alg == "ES256":
		s = ecKey(elliptic.P256(), i)
	case alg == "ES384":
		s = ecKey(elliptic.P384(), i)
	case alg == "ES512":
		s = ecKey(elliptic.P521(), i)
	case alg == "EdDSA":
		seed := sha256.Sum256([]byte(fmt.Sprintf("ed-%d", i)))
		s = ed25519.NewKeyFromSeed(seed[:])
	default:
		s = rsaKeys()[i%2]
	}
	jwk := publicJWK(s.Public())
	kid := thumbprint(jwk)
	jwk["kid"] = kid
	jwk["use"] = "sig"
	jwk["alg"] = alg
	return &testKey{Alg: alg, Signer: s, JWK: jwk, Kid: kid}
}

func rsaKeys() []*rsa.PrivateKey {
	var out []*rsa.PrivateKey
	rest := []byte(rsaPEM)
	for {
		var b *pem.Block
		b, rest = pem.Decode(rest)
		if b == nil {
			return out
		}
		k, err := x509.ParsePKCS8PrivateKey(b.Bytes)
		must(err)
		out = append(out, k.(*rsa.PrivateKey))
	}
}

func publicJWK(pub crypto.PublicKey) map[string]any {
	switch p := pub.(type) {
	case *ecdsa.PublicKey:
		size := (p.Curve.Params().BitSize + 7) / 8
		return map[string]any{
			"kty": "EC", "crv": p.Curve.Params().Name,
			"x": b64.EncodeToString(p.X.FillBytes(make([]byte, size))),
			"y": b64.EncodeToString(p.Y.FillBytes(make([]byte, size))),
		}
	case ed25519.PublicKey:
		return map[string]any{"kty": "OKP", "crv": "Ed25519", "x": b64.EncodeToString(p)}
	case *rsa.PublicKey:
		return map[string]any{
			"kty": "RSA", "n": b64.EncodeToString(p.N.Bytes()),
			"e": b64.EncodeToString(big.NewInt(int64(p.E)).Bytes()),
		}
	}
	panic(harnessErr{"unknown key type"})
}

// thumbprint is RFC 7638.
func thumbprint(jwk map[string]any) string {
	var names []string
	switch jwk["kty"] {
	case "EC":
		names = []string{"crv", "kty", "x", "y"}
	case "OKP":
		names = []string{"crv", "kty", "x"}
	case "RSA":
		names = []string{"e", "kty", "n"}
	}
	var sb strings.Builder
	sb.WriteString("{")
	for i, n := range names {
		if i > 0 {
			sb.WriteString(",")
		}
		fmt.Fprintf(&sb, "%q:%q", n, jwk[n])
	}
	sb.WriteString("}")
	h := sha256.Sum256([]byte(sb.String()))
	return b64.EncodeToString(h[:])
}

func jwkSet(keys ...int) map[string]any {
	ks := []any{}
	for _, k := range keys {
		ks = append(ks, key(k).JWK)
	}
	return map[string]any{"keys": ks}
}

// libJWKS converts a set of test keys to the library's key set type.
func libJWKS(keys ...int) jwks.JWKS {
	var j jwks.JWKS
	must(json.Unmarshal([]byte(js(jwkSet(keys...))), &j))
	return j
}

func libAlg(alg string) jwa.SignatureAlgorithm {
	a, ok := jwa.LookupSignatureAlgorithm(alg)
	if !ok {
		panic(harnessErr{"no alg " + alg})
	}
	return a
}

func digest(alg string, data []byte) (crypto.Hash, []byte) {
	switch alg[2:] {
	case "256":
		h := sha256.Sum256(data)
		return crypto.SHA256, h[:]
	case "384":
		h := sha512.Sum384(data)
		return crypto.SHA384, h[:]
	case "512":
		h := sha512.Sum512(data)
		return crypto.SHA512, h[:]
	}
	panic(harnessErr{"digest for " + alg})
}

func rawSign(k *testKey, data []byte) []byte {
	switch {
	case strings.HasPrefix(k.Alg, "ES"):
		h, d := digest(k.Alg, data)
		priv := k.Signer.(*ecdsa.PrivateKey)
		der, err := priv.Sign(nil, d, h) // deterministic (RFC 6979)
		must(err)
		var rs struct{ R, S *big.Int }
		_, err = asn1.Unmarshal(der, &rs)
		must(err)
		r, s := rs.R, rs.S
		size := (priv.Curve.Params().BitSize + 7) / 8
		return append(r.FillBytes(make([]byte, size)), s.FillBytes(make([]byte, size))...)
	case k.Alg == "EdDSA":
		return ed25519.Sign(k.Signer.(ed25519.PrivateKey), data)
	case strings.HasPrefix(k.Alg, "RS"):
		h, d := digest(k.Alg, data)
		sig, err := rsa.SignPKCS1v15(rand.Reader, k.Signer.(*rsa.PrivateKey), h, d)
		must(err)
		return sig
	case strings.HasPrefix(k.Alg, "PS"):
		h, d := digest(k.Alg, data)
		sig, err := rsa.SignPSS(
			rand.Reader, k.Signer.(*rsa.PrivateKey), h, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash},
		)
		must(err)
		return sig
	}
	panic(harnessErr{"sign " + k.Alg})
}

func rawVerify(alg string, jwk map[string]any, data, sig []byte) bool {
	dec := func(n string) []byte {
		s, _ := jwk[n].(string)
		b, err := b64.DecodeString(s)
		if err != nil {
			return nil
		}
		return b
	}
	switch {
	case strings.HasPrefix(alg, "ES"):
		var curve elliptic.Curve
		switch jwk["crv"] {
		case "P-256":
			curve = elliptic.P256()
		case "P-384":
			curve = elliptic.P384()
		case "P-521":
			curve = elliptic.P521()
		default:
			return false
		}
		size := (curve.Params().BitSize + 7) / 8
		if len(sig) != 2*size {
			return false
		}
		pub := &ecdsa.PublicKey{Curve: curve, X: new(big.Int).SetBytes(dec("x")), Y: new(big.Int).SetBytes(dec("y"))}
		_, d := digest(alg, data)
		return ecdsa.Verify(pub, d, new(big.Int).SetBytes(sig[:size]), new(big.Int).SetBytes(sig[size:]))
	case alg == "EdDSA":
		x := dec("x")
		return jwk["kty"] == "OKP" && len(x) == 32 && ed25519.Verify(x, data, sig)
	case strings.HasPrefix(alg, "RS"), strings.HasPrefix(alg, "PS"):
		if jwk["kty"] != "RSA" {
			return false
		}
		pub := &rsa.PublicKey{N: new(big.Int).SetBytes(dec("n")), E: int(new(big.Int).SetBytes(dec("e")).Int64())}
		h, d := digest(alg, data)
		if alg[0] == 'R' {
			return rsa.VerifyPKCS1v15(pub, h, d, sig) == nil
		}
		return rsa.VerifyPSS(pub, h, d, sig, nil) == nil
	}
	return false
}

// signJWT makes a compact JWS over payload with the given typ ("" = no typ).
func signJWT(k *testKey, typ string, payload []byte) string {
	h := map[string]any{"alg": k.Alg, "kid": k.Kid}
	if typ != "" {
		h["typ"] = typ
	}
	return signWithHeader(k, h, payload)
}

func signWithHeader(k *testKey, header map[string]any, payload []byte) string {
	in := b64.EncodeToString([]byte(js(header))) + "." + b64.EncodeToString(payload)
	return in + "." + b64.EncodeToString(rawSign(k, []byte(in)))
}

// verifyCompact checks a compact JWS against a JWK set (generic JSON form) and
// returns header and payload.
func verifyCompact(token string, set any) (header map[string]any, payload []byte, err error) {
	parts := strings.Split(token, ".")
	if len(parts) != 3 {
		return nil, nil, fmt.Errorf("not a compact JWS")
	}
	hb, err := b64.DecodeString(parts[0])
	if err != nil {
		return nil, nil, err
	}
	if payload, err = b64.DecodeString(parts[1]); err != nil {
		return nil, nil, err
	}
	sig, err := b64.DecodeString(parts[2])
	if err != nil {
		return nil, nil, err
	}
	if err = json.Unmarshal(hb, &header); err != nil {
		return nil, nil, err
	}
	alg, _ := header["alg"].(string)
	if len(alg) < 5 || alg == "none" {
		return header, payload, fmt.Errorf("bad alg %q", alg)
	}
	var js0 struct {
		Keys []map[string]any `json:"keys"`
	}
	if err = json.Unmarshal([]byte(js(set)), &js0); err != nil {
		return header, payload, err
	}
	for _, jwk := range js0.Keys {
		if kid, ok := header["kid"]; ok && jwk["kid"] != kid {
			continue
		}
		if a, ok := jwk["alg"].(string); ok && a != alg {
			continue
		}
		if rawVerify(alg, jwk, []byte(parts[0]+"."+parts[1]), sig) {
			return header, payload, nil
		}
	}
	return header, payload, fmt.Errorf("no key verifies the signature")
}

// decodeClaims returns the payload of a compact JWS without verification.
func decodeClaims(token string) (map[string]any, error) {
	parts := strings.Split(token, ".")
	if len(parts) != 3 {
		return nil, fmt.Errorf("not compact")
	}
	p, err := b64.DecodeString(parts[1])
	if err != nil {
		return nil, err
	}
	var m map[string]any
	err = json.Unmarshal(p, &m)
	return m, err
}

func hmac256(secret, data []byte) []byte {
	h := hmac.New(sha256.New, secret)
	h.Write(data)
	return h.Sum(nil)
}
