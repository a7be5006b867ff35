package PKG

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/rand"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

var vAlgs = []string{"md5", "sha1", "sha256", "sha512"}

// vHex: lower-case hex digest, independent of the checksum package.
func vHex(alg, s string) string {
	switch alg {
	case "md5":
		return fmt.Sprintf("%x", md5.Sum([]byte(s)))
	case "sha1":
		return fmt.Sprintf("%x", sha1.Sum([]byte(s)))
	case "sha256":
		return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))
	case "sha512":
		return fmt.Sprintf("%x", sha512.Sum512([]byte(s)))
	}
	panic(alg)
}

func vCfg(name string) *ocfl.ExtensionConfig { return &ocfl.ExtensionConfig{ExtensionName: name} }

var vPieces = []string{"a", "b", "Z", "0", "9", "-", "_", "/", ":", ".", "..", "%", "^", "~", " ", "\t", "\n", "\r", "\x00", "\x01", "\x0f", "\x10", "\x1f", "\x7f", "\x80", "\xff", "\xc3", "ä", "é", "€", "𝄞", "\u0085", "\u00a0", "\u2028", "\u3000", "=u0041", "=u", "=", "+", ",", "\"", "*", "?", "<", ">", "\\", "|", "'", "&", "!", ";", "#", "@", "(", ")", "{", "}", "[", "]", "$", "urn:uuid:", "info:fedora/", "object", "12887296"}

// vId: a random id, sometimes long
func vId(r *rand.Rand) string {
	var sb strings.Builder
	n := r.Intn(8)
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = 20 + r.Intn(90)
	case 2:
		// length around the 100 character limit of layout 0003
		return strings.Repeat(vPieces[r.Intn(5)], 96+r.Intn(8)) + vPieces[r.Intn(len(vPieces))]
	case 3:
		b := make([]byte, r.Intn(12))
		r.Read(b)
		return string(b)
	case 4:
		// segments of ordinary names
		for k := 1 + r.Intn(4); k > 0; k-- {
			sb.WriteString([]string{"abc", "x.y", "data", "..", ".", "", "-q", "~r", " s "}[r.Intn(9)])
			sb.WriteString("/")
		}
		return strings.TrimSuffix(sb.String(), "/")
	case 5:
		return strings.Repeat(vPieces[r.Intn(len(vPieces))], r.Intn(300))
	}
	for ; n > 0; n-- {
		sb.WriteString(vPieces[r.Intn(len(vPieces))])
	}
	return sb.String()
}

// vFixedIds are tried first for every configuration.
var vFixedIds = []string{"", "a", "object-01", "..hor/rib:le-$id", "..hor_rib:lé-$id", strings.Repeat("a", 100), strings.Repeat("a", 101), strings.Repeat("a", 99) + "é", strings.Repeat("ä", 40), "\x00\x0f\x10", ".", "..", "/", "a/", "/a", "//", "a//b"}
