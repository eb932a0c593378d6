// Copyright 2025 The Go Authors. All rights reserved.
// Use of this source code is governed by a BSD-style
// license that can be found in the LICENSE file.

// Code generated by generate.go. DO NOT EDIT.

package stdlib

type pkginfo struct {
	name string
	deps string // list of indices of dependencies, as varint-encoded deltas
}

var deps = [...]pkginfo{
	{"archive/tar", "\x03|\x03F>\x01\n\x01&\x01\x01\x02\x05\b\x02\x01\x02\x02\r"},
	{"archive/zip", "\x02\x04k\x0e\x03\x12\x022>\x01-\x05\x01\x0f\x03\x02\x0f\x04"},
	{"bufio", "\x03|\x87\x01F\x15"},
	{"bytes", "\x7f*]\x03\fJ\x02\x02"},
	{"cmp", ""},
	{"compress/bzip2", "\x02\x02\x82\x02C"},
	{"compress/flate", "\x02}\x03\x84\x01\f\x034\x02\x03"},
	{"compress/gzip", "\x02\x04k\x0e\x03\x14pW"},
	{"compress/lzw", "\x02}\x03\x84\x01"},
	{"compress/zlib", "\x02\x04k\x0e\x03\x12\x01q"},
	{"container/heap", "\xca\x02"},
	{"container/list", ""},
	{"container/ring", ""},
	{"context", "\x7f]r\x01\x0e"},
	{"crypto", "\x94\x01rE"},
	{"crypto/aes", "\x10\v\v\xa5\x02"},
	{"crypto/cipher", "\x03#\x01\x01 \x13$+\\"},
	{"crypto/des", "\x10\x18 7+\xa1\x01\x03"},
	{"crypto/dsa", "H\x034\x87\x01\r"},
	{"crypto/ecdh", "\x03\v\r\x12\x04\x17\x03\x10$\x87\x01"},
	{"crypto/ecdsa", "\x0e\x05\x03\x05\x01\x12\b\v\x06\x01\x03\x0f\x01$\x87\x01\r\x05O\x01"},
	{"crypto/ed25519", "\x0e!\x12\a\x03\t\a$I>E"},
	{"crypto/elliptic", "6I\x87\x01\r;"},
	{"crypto/fips140", "%\x05\x9e\x01\x9b\x01"},
	{"crypto/hkdf", "2\x15\x017\x15"},
	{"crypto/hmac", "\x1b\x18\x14\x01\x139"},
	{"crypto/hpke", "\x03\v\x02\x03\x04\x01\x0e\x01\x05\x1f\x06\a\x01\x01%\x03\x12\x16\x9f\x01\x1d"},
	{"crypto/internal/boring", "\x0e\x02\x0ev"},
	{"crypto/internal/boring/bbig", "\x1b\xf8\x01P"},
	{"crypto/internal/boring/bcache", "\xcf\x02\x14"},
	{"crypto/internal/boring/sig", ""},
	{"crypto/internal/constanttime", ""},
	{"crypto/internal/cryptotest", "\x03\r\v\n%\x11\x1a\r\x12\x12!\x04\x06\n\x19\x01\x11\x11\x1d\x01\a\x03\x02\b\x02\x01\x04\x01\f"},
	{"crypto/internal/cryptotest/wycheproof", "\x0e\x12T\x01\f\x01r@\x05\x03\x15\x10"},
	{"crypto/internal/cryptotest/x509limbo", "u\n\x03\xba\x01\x03\x1e"},
	{"crypto/internal/entropy", "M"},
	{"crypto/internal/entropy/v1.0.0", "F9\x96\x01:\x14"},
	{"crypto/internal/fips140", "E:\xc2\x01\v\x17"},
	{"crypto/internal/fips140/aes", "\x03\"\x03\x02\x14\x05\x01\x01\x055\x96\x016"},
	{"crypto/internal/fips140/aes/gcm", "%\x01\x02\x02\x02\x12\x05\x01\x065\x93\x01"},
	{"crypto/internal/fips140/alias", "\xe3\x02"},
	{"crypto/internal/fips140/bigmod", "*\x19\x01\x065\x96\x01"},
	{"crypto/internal/fips140/check", "%\x0e\a\t\x02\xc1\x01]"},
	{"crypto/internal/fips140/check/checktest", "*\x97\x02\""},
	{"crypto/internal/fips140/drbg", "\x03!\x01\x01\x04\x14\x05\n2\x87\x01\x0f9\x01"},
	{"crypto/internal/fips140/ecdh", "\x03\"\x05\x02\n\r<\x87\x01\x0f9"},
	{"crypto/internal/fips140/ecdsa", "\x03\"\x04\x01\x02\a\x03\x06C\x15r\x0f9"},
	{"crypto/internal/fips140/ed25519", "\x03\"\x05\x02\x04\fC\xcc\x01\x03"},
	{"crypto/internal/fips140/edwards25519", "\x1f\v\a\x12<\x96\x019"},
	{"crypto/internal/fips140/edwards25519/field", "*\x14\x05<\x96\x01"},
	{"crypto/internal/fips140/hkdf", "\x03\"\x05\t\aE\x15"},
	{"crypto/internal/fips140/hmac", "\x03\"\x15\x01\x01C\x15"},
	{"crypto/internal/fips140/mldsa", "\x03\x1c\x06\x05\x02\x0e\x01\x03\x05<\x96\x019"},
	{"crypto/internal/fips140/mlkem", "\x03\"\x05\x02\x0f\x03\x05<\xcf\x01"},
	{"crypto/internal/fips140/nistec", "\x1f\v\r\f<\x96\x01,\r\x15"},
	{"crypto/internal/fips140/nistec/fiat", "*\x14A\x96\x01"},
	{"crypto/internal/fips140/pbkdf2", "\x03\"\x05\t\aE\x15"},
	{"crypto/internal/fips140/rsa", "\x03\x1c\x06\x04\x01\x02\x0e\x01\x01\x02A\x15rH"},
	{"crypto/internal/fips140/sha256", "\x03\"\x1e\x01\x065\x15\x81\x01"},
	{"crypto/internal/fips140/sha3", "\x03\"\x19\x05\x01;\x96\x01N"},
	{"crypto/internal/fips140/sha512", "\x03\"\x1e\x01\x065\x15\x81\x01"},
	{"crypto/internal/fips140/ssh", "*j"},
	{"crypto/internal/fips140/subtle", "\x1f\t\x1b\xd2\x01"},
	{"crypto/internal/fips140/tls12", "\x03\"\x05\t\a\x02C\x15"},
	{"crypto/internal/fips140/tls13", "\x03\"\x05\b\b\t<\x15"},
	{"crypto/internal/fips140cache", "\xc1\x02\r."},
	{"crypto/internal/fips140deps", ""},
	{"crypto/internal/fips140deps/byteorder", "\xaa\x01"},
	{"crypto/internal/fips140deps/cpu", "\xbf\x01\b"},
	{"crypto/internal/fips140deps/godebug", "\xc8\x01"},
	{"crypto/internal/fips140deps/time", "\xe3\x02"},
	{"crypto/internal/fips140hash", ";\x1e;\xcf\x01"},
	{"crypto/internal/fips140only", "\x17\x15\x0e\x01\x01Xr"},
	{"crypto/internal/fips140test", ""},
	{"crypto/internal/impl", "\xcc\x02"},
	{"crypto/internal/rand", "\x1b\x11 |>]"},
	{"crypto/internal/randutil", "\x86\x02\x12"},
	{"crypto/internal/sysrand", "\x7fr!\"\r\r\x01\x01\r\x06"},
	{"crypto/internal/sysrand/internal/seccomp", "\x7f"},
	{"crypto/md5", "\x0e:7\x15\x16k"},
	{"crypto/mldsa", "\x0e&K\x87\x01"},
	{"crypto/mlkem", "\x0e'"},
	{"crypto/mlkem/mlkemtest", "5\x13\t."},
	{"crypto/pbkdf2", "8\x0f\x017\x15"},
	{"crypto/rand", "\x1b\x11\x1c\x034\x87\x01\rP"},
	{"crypto/rc4", "( 7\xcc\x01"},
	{"crypto/rsa", "\x0e\r\x01\r\x10\x0e\x01\x03\t\a$\x03\x124>\f\x01"},
	{"crypto/sha1", "\x0e\r-\x025\x15\x16\x15V"},
	{"crypto/sha256", "\x0e\r\x1fZ"},
	{"crypto/sha3", "\x0e-Y\xcf\x01"},
	{"crypto/sha512", "\x0e\r!X"},
	{"crypto/subtle", "\x1f\x1f\xa9\x01|"},
	{"crypto/tls", "\x03\b\x02\x01\x01\x01\x01\x02\x01\x01\x01\x01\x01\x01\x01\x01\v\x01\x18\x01\x0f\x01\x01\x03\x01\x01\x01\x01\x02\x01\x02\x01\x1f\x02\x03\x12\x16\x15\t>\x16\x18\r\b\x01\x01\x01\x02\x01\x0e\x06\x03\x01\x15"},
	{"crypto/tls/internal/fips140tls", "\x17\xb8\x02"},
	{"crypto/x509", "\x03\v\x01\x01\x01\x01\x01\x01\x01\x01\x018\x01\x06\x01\x01\x02\x05\x0f\x06\t\x02\x03F\x03;\x01\x02\b\x01\x01\x02\a\x12\x05\x01\x06\a\b\x02\x01\x02\x0f\x02\x01\x01\x02\x04\x01"},
	{"crypto/x509/pkix", "n\x06\x0e\x91\x019\x11"},
	{"database/sql", "\x03\nT\x01\x1d\x03\x84\x01\v\a$\x05\b\x02\x03\x01\x0e\x02\x02\x02\x01"},
	{"database/sql/driver", "\rU\x1d\x03\xba\x01\x0f\x12\a"},
	{"database/sql/internal", ""},
	{"debug/buildinfo", "\x03b\x02\x01\x01\b\x0e\x03h\x1a\x02\x01-\x0f "},
	{"debug/dwarf", "\x03n\x0e\x03\x84\x013\x11\x01\x01"},
	{"debug/elf", "\x03\x06[\r\x0e\x03h\x1b\x01\f\"\x17\x01\x17"},
	{"debug/gosym", "\x03n\x11#\xa5\x01\x01\x01\x02"},
	{"debug/macho", "\x03\x06[\r\x11h\x1c.\x17\x01"},
	{"debug/pe", "\x03\x06[\r\x0e\x03h\x1c.\x17\x01\x17"},
	{"debug/plan9obj", "q\x0e\x03h\x1c."},
	{"embed", "\x7f*D\x19\x01V"},
	{"embed/internal/embedtest", ""},
	{"encoding", ""},
	{"encoding/ascii85", "\x86\x02E"},
	{"encoding/asn1", "\x03|\x03h(\x01)\x05\b\x02\x01\x11\x03\x01"},
	{"encoding/base32", "\x86\x02C\x02"},
	{"encoding/base64", "\xaa\x01\\C\x02"},
	{"encoding/binary", "\x7f\x87\x01\f*\r\x05"},
	{"encoding/csv", "\x02\x01|\x03\x84\x01F\x13\x02"},
	{"encoding/gob", "\x02j\x05\x0e\x03h\x1c\v\x01\x03\x1f\b\x12\x01\x10\x02"},
	{"encoding/hex", "\x7f\x03\x84\x01C\x03"},
	{"encoding/json", "\x03\x01h\n\x01\x01\x02\x01\x01\x03\x03\x84\x016\x0f\x01"},
	{"encoding/json/internal", "\x7f"},
	{"encoding/json/internal/jsonflags", "v"},
	{"encoding/json/internal/jsonopts", "v\x01"},
	{"encoding/json/internal/jsontest", "\x03g\x15\x03\x83\x01\x01\x012\b\b\x03\x02\x0f"},
	{"encoding/json/internal/jsonwire", "\x04s\b\x87\x01\f7\x02\x01\x13\x01\x01"},
	{"encoding/json/jsontext", "\x03s\x01\x01\x02\x05\x87\x01\x03\t\x034\x02\x01\x02\x13"},
	{"encoding/json/v2", "\x03\x01h\x03\x01\x01\x03\x02\x01\x01\x02\x01\x04\x03\x84\x01\f\x03'\r\x02\x01\x02\x0f\x02\x02"},
	{"encoding/pem", "\x03m\x0f\x87\x01C\x03"},
	{"encoding/xml", "\x02\x01i\x13\x03\x84\x016\x05\n\x01\x02\x11\x02"},
	{"errors", "\xdc\x01\x87\x01"},
	{"expvar", "uSB\b\v\x17\r\b\x02\x03\x01\x12"},
	{"flag", "l\x13\x03\x84\x01.\b\x05\b\x02\x01\x11"},
	{"fmt", "\x7fE)\x19\f\"\b\r\x02\x03\x13"},
	{"go/ast", "\x03\x01~\x0e\x01u\x03+\b\r\x02\x01\x13\x02"},
	{"go/build", "\x02\x01|\x03\x01\x02\x02\a\x02\x01\x17 \x04\x02\t\x1c\x13\x01-\x01\x04\x01\a\b\x02\x01\x13\x02\x02"},
	{"go/build/constraint", "\x7f\xcc\x01\x01\x13\x02"},
	{"go/constant", "\x82\x01\x0f\x81\x01\x01\x026\x01\x02\x13"},
	{"go/doc", "\x04~\x01\x05\t>73\x10\x02\x01\x13\x02"},
	{"go/doc/comment", "\x03\x7f\xc7\x01\x01\x01\x01\x13\x02"},
	{"go/format", "\x03\x7f\x01\v\x01\x02uF"},
	{"go/importer", "\x84\x01\a\x01\x01\x04\x01t;"},
	{"go/internal/gccgoimporter", "\x02\x01b\x1a\x03\x04\v\x01r\x02.\x01\x05\x11\x01\r\b"},
	{"go/internal/gcimporter", "\x02\x80\x01\x0f\x010\x140.\x15\x03\x02"},
	{"go/internal/srcimporter", "\x82\x01\x01\x01\n\x03\x01t.\x01\x05\x12\x02\x15"},
	{"go/parser", "\x03|\x03\x01\x02\v\x01u\x01-\x06\x12"},
	{"go/printer", "\x82\x01\x01\x02\x03\tu\f\"\x15\x02\x01\x02\f\x05\x02"},
	{"go/scanner", "\x03\x7f\x0fu4\x10\x01\x14\x02"},
	{"go/token", "\x04~\x87\x01@\x02\x03\x01\x10\x02"},
	{"go/types", "\x03\x01\x06u\x03\x01\x03\b\x03\x02\x0654\x04\x03\t\"\x06\a\b\x01\x01\x01\x02\x01\x10\x02\x02"},
	{"go/version", "\xcd\x01\x7f"},
	{"hash", "\x86\x02"},
	{"hash/adler32", "\x7f\x15\x16"},
	{"hash/crc32", "\x7f\x15\x16\x15\x8f\x01\x01\x14"},
	{"hash/crc64", "\x7f\x15\x16\xa4\x01"},
	{"hash/fnv", "\x7f\x15\x16k"},
	{"hash/maphash", "\x94\x01\x11>\x80\x01"},
	{"html", "\xcc\x02\x02\x13"},
	{"html/template", "\x03r\r\x18.>\x01\n#\x05\x01\x02\x03\n\x02\x01\x02\r\x01\x03\x02"},
	{"image", "\x02}\x1ei\x0f6\x03\x01"},
	{"image/color", ""},
	{"image/color/palette", "\x9d\x01"},
	{"image/draw", "\x9c\x01\x01\x04"},
	{"image/gif", "\x02\x01\x05w\x03\x1a\x01\x01\x01\v\\\x0f"},
	{"image/internal/imageutil", "\x9c\x01"},
	{"image/jpeg", "\x02}\x1d\x01\x04e"},
	{"image/png", "\x02\ah\x11\x12\x02\x06\x01iE"},
	{"index/suffixarray", "\x03n\x0e\x87\x01\f-\n\x01"},
	{"internal/abi", "\xc7\x01\x9c\x01"},
	{"internal/asan", "\xe3\x02"},
	{"internal/bisect", "\xc1\x02\r\x01"},
	{"internal/buildcfg", "\x82\x01Hj\x06\x02\x05\n\x01"},
	{"internal/bytealg", "\xbf\x01\xa4\x01"},
	{"internal/byteorder", ""},
	{"internal/cfg", ""},
	{"internal/cgrouptest", "\x82\x01\\V\x06\x0f\x02\x01\x04\x01"},
	{"internal/chacha8rand", "\xaa\x01\x15\b\x9c\x01"},
	{"internal/copyright", ""},
	{"internal/coverage", ""},
	{"internal/coverage/calloc", ""},
	{"internal/coverage/cfile", "u\r\x16\x17\x01\x02\x01\x01\x01\x01\x01\x01\x01$\x02'.\x06\a\n\x01\x03\x0e\x06"},
	{"internal/coverage/cformat", "\x04~-\x04S\v8\x01\x02\x0e"},
	{"internal/coverage/cmerge", "\x82\x01-c"},
	{"internal/coverage/decodecounter", "q\x11-\v\x02J.\x17\x18"},
	{"internal/coverage/decodemeta", "\x02o\x11\x16\x17\v\x02J."},
	{"internal/coverage/encodecounter", "\x02o\x11-\f\x01\x02H\v#\x15"},
	{"internal/coverage/encodemeta", "\x02\x01n\x11\x12\x04\x17\r\x02H./"},
	{"internal/coverage/pods", "\x04~-\x85\x01\x06\x05\n\x02\x01"},
	{"internal/coverage/rtcov", "\xe3\x02"},
	{"internal/coverage/slicereader", "q\x11\x84\x01]"},
	{"internal/coverage/slicewriter", "\x82\x01\x84\x01"},
	{"internal/coverage/stringtab", "\x82\x018\x04H"},
	{"internal/coverage/test", ""},
	{"internal/coverage/uleb128", ""},
	{"internal/cpu", "\xe3\x02"},
	{"internal/dag", "\x04~\xc7\x01\x03"},
	{"internal/diff", "\x03\x7f\xc8\x01\x02"},
	{"internal/exportdata", "\x02\x01|\x03\x02f\x1c.\x01\x05\x11\x01\x02"},
	{"internal/filepathlite", "\x7f*D\x1aB"},
	{"internal/fmtsort", "\x04\xb8\x02\r"},
	{"internal/fuzz", "\x03\nK\x19\x04\n\x03\x01\v\x037>\f\x03\x1f\x01\x05\x02\x05\n\x01\x02\x01\x01\r\x04\x02"},
	{"internal/gate", "\r"},
	{"internal/goarch", ""},
	{"internal/godebug", "\xa7\x01\"\x85\x01\x01\x14"},
	{"internal/godebugs", ""},
	{"internal/goexperiment", ""},
	{"internal/goos", ""},
	{"internal/goroot", "\xb4\x02\x01\x05\x12\x02"},
	{"internal/gover", "\x04"},
	{"internal/goversion", ""},
	{"internal/lazyregexp", "\xb4\x02\v\r\x02"},
	{"internal/lazytemplate", "\x86\x02.\x18\x02\r"},
	{"internal/msan", "\xe3\x02"},
	{"internal/nettest", "\x03\nrG@\f\n\x12\x06\x15\x05\x0f"},
	{"internal/nettrace", ""},
	{"internal/obscuretestdata", "p\x96\x01."},
	{"internal/oserror", "\x7f"},
	{"internal/pkgbits", "\x03U\x19\x0e\x03\x04\vu\r!\r\n\x01"},
	{"internal/platform", ""},
	{"internal/poll", "\x7fm\x05\x15;\r\x01\x01\r\x06"},
	{"internal/profile", "\x03\x04x\x03\x84\x019\n\x01\x01\x01\x11"},
	{"internal/profilerecord", ""},
	{"internal/race", "\xa5\x01\xbe\x01"},
	{"internal/reflectlite", "\xa5\x01\"<>\""},
	{"internal/runtime/atomic", "\xc7\x01\x9c\x01"},
	{"internal/runtime/cgroup", "\xa9\x01?\x04w"},
	{"internal/runtime/exithook", "\xdd\x01\x86\x01"},
	{"internal/runtime/gc", "\xc7\x01"},
	{"internal/runtime/gc/internal/gen", "\ng\x11\x17m\x04\v\x1f\b\x10\x02"},
	{"internal/runtime/gc/scan", "\xbf\x01\b\x19\a|"},
	{"internal/runtime/maps", "\xa5\x01\x01\x04\x15\b\x03\a\n\t\x03.N"},
	{"internal/runtime/math", "\xc7\x01"},
	{"internal/runtime/pprof/label", ""},
	{"internal/runtime/startlinetest", ""},
	{"internal/runtime/sys", "\xc7\x01\x04"},
	{"internal/runtime/syscall/linux", "\xc7\x01\x9c\x01"},
	{"internal/runtime/wasitest", ""},
	{"internal/saferio", "\x86\x02]"},
	{"internal/singleflight", "\xce\x02"},
	{"internal/strconv", "\x95\x02N"},
	{"internal/stringslite", "\xa9\x01\xba\x01"},
	{"internal/sync", "\xa5\x01\"\x14t\x14"},
	{"internal/synctest", "\xa5\x01\xbe\x01"},
	{"internal/syscall/execenv", "\xd0\x02"},
	{"internal/syscall/unix", "\xec\x01U\x0e\x01\x13"},
	{"internal/sysinfo", "\x02\x01\xbc\x01G.\x18\x02"},
	{"internal/syslist", ""},
	{"internal/testenv", "\x03\nr\x02\x01)\x1c\x100-\x01\x05\a\n\x01\x02\x02\x01\f"},
	{"internal/testhash", "\x03\x91\x01r\x11:\f"},
	{"internal/testlog", "\xce\x02\x01\x14"},
	{"internal/testpty", "\x7f\x03\xb2\x01"},
	{"internal/trace", "\x02\x01\x01\x06g\x0e\x03x\x03\x03\x06\x03\t-\n\x01\x01\x01\x11\x06"},
	{"internal/trace/internal/testgen", "\x03n\x11v\x03\x02\x03\x013\v\r\x11"},
	{"internal/trace/internal/tracev1", "\x03\x01m\x0e\x03~\x06\f7\x01"},
	{"internal/trace/raw", "\x02o\x11{\x03\x06E\x01\x13"},
	{"internal/trace/testtrace", "\x02\x01|\x03r\x04\x03\x05\x01\x05.\v\x02\b\x02\x01\x05"},
	{"internal/trace/tracev2", ""},
	{"internal/trace/traceviewer", "\x02h\v\r\x19>\x1f\a\a\x04\b\v\x17\x01\x05\a\n\x01\x02\x0f"},
	{"internal/trace/traceviewer/format", ""},
	{"internal/trace/version", "\x82\x01{\t"},
	{"internal/txtar", "\x03\x7f\xb2\x01\x18"},
	{"internal/types/errors", "\xcb\x02"},
	{"internal/unsafeheader", "\xe3\x02"},
	{"internal/xcoff", "d\r\x0e\x03h\x1c.\x17\x01"},
	{"internal/zstd", "q\x0e\x03\x84\x01\x0f"},
	{"io", "\x7f\xcf\x01"},
	{"io/fs", "\x7f*,13\x10\x14\x04"},
	{"io/ioutil", "\x86\x02\x01-\x15\x03"},
	{"iter", "\xdb\x01f\""},
	{"log", "\x82\x01\x84\x01\x05)\r\r\x01\x0e"},
	{"log/internal", ""},
	{"log/slog", "\x03\n_\t\n\x03H<\x04\x01\x02\x02\x03*\x05\b\x02\x01\x02\x01\x0e\x02\x02\x02"},
	{"log/slog/internal", ""},
	{"log/slog/internal/benchmarks", "\rr\x03\x84\x01\x06\x03<\x12"},
	{"log/slog/internal/buffer", "\xce\x02"},
	{"log/syslog", "\x7f\x03\x88\x01\x12\x18\x18\x02\x0f"},
	{"maps", "\x89\x02Z"},
	{"math", "\xbf\x01VN"},
	{"math/big", "\x03|\x03(\x15G\f\x03\x022\x02\x01\x02\x15"},
	{"math/big/internal/asmgen", "\x03\x01~\x93\x014\x03"},
	{"math/bits", "\xe3\x02"},
	{"math/cmplx", "\x92\x02\x03"},
	{"math/rand", "\xc8\x01J<\x01\x14"},
	{"math/rand/v2", "\x7f+\x03e\x03N"},
	{"mime", "\x02\x01m\x0f\x03\x84\x01\v#\x15\x03\x02\x11\x02"},
	{"mime/multipart", "\x02\x01Q+\x03F>\v\x01\a\x02\x17\x02\x06\x0f\x02\x01\x17"},
	{"mime/quotedprintable", "\x02\x01\x7f\x84\x01"},
	{"net", "\x04\tr*\x1f\v\x05\x13\x01\x01\x04\x15\x01'\x06\r\b\x05\x01\x01\r\x06\t"},
	{"net/http", "\x02\x01\x03\x01\x04\x02O\x14\x0f\x03F>\x01\x03\a\x01\x06\x01\x01\x02\x06\x02\x01\x01\f\x01\x01\x05\x01\x02\x05\b\x01\x01\x01\x02\x01\x0e\x02\x02\x02\n\x01\x03"},
	{"net/http/cgi", "\x02Z#\x03\x84\x01\x04\a\v\x01\x15\x01\x01\x01\x04\x01\x05\x02\b\x02\x01\x11\x10"},
	{"net/http/cookiejar", "\x04{\x03\x9a\x01\x01\b\t\x05\x16\x03\x02\x0f\x04"},
	{"net/http/fcgi", "\x02\x01\nd\x0e\x03\x84\x01\x16\x01\x01\x16\x18\x02\x0f"},
	{"net/http/httptest", "\x02\x01\nO\x02#\x01P4\x04\x12\x01\f\t\x02\r\n\x01\x02\x03\f\x06\n"},
	{"net/http/httptrace", "\rOwI\x16+"},
	{"net/http/httputil", "\x02\x01\nr\x03F>\x04\x0f\x03\x01\x05\x02\x01\r\x01\x19\x02\x0f\x10"},
	{"net/http/internal", "\x02\x01n\x0e\x03\x84\x01"},
	{"net/http/internal/ascii", "\xcc\x02\x13"},
	{"net/http/internal/http2", "\x02\x01\x03\x01\x06G\b\x15\x0e\x03\x84\x01\x01\x03\b\x03\x02\x03\x02\x06\x02\x03\x01\n\x01\x01\b\x05\b\x02\x01\x02\x01\x0e\x10\x02\x02"},
	{"net/http/internal/httpcommon", "\rr\x03\xa0\x01\x10\x01\x17\x01\x01\x02\x1f\x02"},
	{"net/http/internal/httpsfv", "\xc9\x02\x02\x01\x11\x04"},
	{"net/http/internal/testcert", "\xcc\x02"},
	{"net/http/pprof", "\x02\x01\nu\x18.\x11-\x04\x13\x16\x01\r\x04\x03\x01\x02\x01\x11"},
	{"net/internal/cgotest", ""},
	{"net/internal/socktest", "\x82\x01\xcc\x01\x02"},
	{"net/mail", "\x02}\x03\x84\x01\x04\x0f\x03\x16\x1a\x02\x0f\x04"},
	{"net/netip", "\x04{*\x01h\x036\x17"},
	{"net/rpc", "\x02q\f\x03\x0f\nk\x04\x12\x01\x1f\r\x03\x02"},
	{"net/rpc/jsonrpc", "u\n\x03\x84\x01\x16\x13\x1f"},
	{"net/smtp", "\x196\r\x14\x0f\x03\x84\x01\x16\x16\x1a"},
	{"net/textproto", "\x02\x01|\x03\x84\x01\f\n/\x01\x02\x15"},
	{"net/url", "\x03|\x03Ff\v\x10\x02\x01\x17"},
	{"os", "\x7f*\x01\x19\x04\x11\x14\x01\x03\x01\x05\x10\x01:\b\x05\x01\x01\r\x06"},
	{"os/exec", "\x03\nrI(\x01\x15\x01-\x06\a\n\x01\x03\x01\r"},
	{"os/exec/internal/fdtest", "\xd0\x02"},
	{"os/signal", "\r\xa7\x02\x15\x05\x02"},
	{"os/user", "\x02\x01|\x03\x84\x01.\r\n\x01\x02"},
	{"path", "\x7f*\xb8\x01"},
	{"path/filepath", "\x7f*\x1aD-\r\b\x03\x04\x11"},
	{"plugin", "\x7f"},
	{"reflect", "\x7f&\x04\x1e\x03\x11\b\x04\x05\x17\x06\t/\n\x03\x11\x02\x02"},
	{"reflect/internal/example1", ""},
	{"reflect/internal/example2", ""},
	{"regexp", "\x03\x83\x02\x037\t\x02\x01\x02\x11\x02"},
	{"regexp/syntax", "\xc9\x02\x01\x01\x01\x02\x11\x02"},
	{"runtime", "\xa5\x01\x04\x01\x03\f\x06\b\x02\x01\x01\x0f\x03\x01\x01\x01\x02\x01\x01\x01\x02\x01\x04\x01\x10\x18N"},
	{"runtime/coverage", "\xb1\x01U"},
	{"runtime/debug", "\x82\x01V\\\r\b\x02\x01\x11\x06"},
	{"runtime/metrics", "\xc9\x01I/\""},
	{"runtime/pprof", "\x02\x01\x01\x03\x06d\x0e\x03#5\v!\f\"\r\b\x01\x01\x01\x02\x02\n\x03\x06"},
	{"runtime/race", "\xc7\x02"},
	{"runtime/race/internal/amd64v1", ""},
	{"runtime/trace", "\rr\x03{\t;\b\x05\x01\x0e\x06"},
	{"slices", "\x04\x85\x02\fN"},
	{"sort", "\xdc\x0194"},
	{"strconv", "\x7f*C\x01t"},
	{"strings", "\x7f&\x04D\x19\x03\f9\x11\x02\x02"},
	{"structs", ""},
	{"sync", "\xdb\x01\x02\x11\x01R\x0e\x14"},
	{"sync/atomic", "\xe3\x02"},
	{"syscall", "\x7f'\x03\x01\x1d\n\x04\x06\r\x04U\b\x05\x01\x14"},
	{"testing", "\x03\nr\x02\x01Y\x17\x14\f\x05\x1d\x06\x02\x05\x02\x05\x01\x02\x01\x02\x01\x0e\x02\x04"},
	{"testing/cryptotest", "TV\\\x126\x03\x12"},
	{"testing/fstest", "\x7f\x03\x84\x01\x01\n(\x10\x03\t\b"},
	{"testing/internal/testdeps", "\x02\v\xb8\x011\x10.\x03\x05\x03\x06\a\x02\x0f"},
	{"testing/iotest", "\x03|\x03\x84\x01\x04"},
	{"testing/quick", "\x81\x01\x01\x90\x01\x05%\x10\x11"},
	{"testing/slogtest", "\rr\x03\x8a\x010\x05\x10\f"},
	{"testing/synctest", "\xef\x01b\f\x06"},
	{"text/scanner", "\x03\x7f\x84\x01.+\x02"},
	{"text/tabwriter", "\x82\x01\x84\x01["},
	{"text/template", "\x7f\x03BB\x01\n\"\x01\x05\x01\x02\x05\v\x02\x0e\x03\x02"},
	{"text/template/parse", "\x03\x7f\xbf\x01\n\x01\x13\x02"},
	{"time", "\x7f*D(,\r\x02\x13"},
	{"time/tzdata", "\x7f\xd1\x01\x13"},
	{"unicode", ""},
	{"unicode/utf16", ""},
	{"unicode/utf8", ""},
	{"unique", "\xa5\x01\"&\x01S\r\x01\x14\x19"},
	{"unsafe", ""},
	{"uuid", "\x03\x01P\x1d\x03\v\xcf\x01\x0f"},
	{"vendor/golang.org/x/crypto/chacha20", "\x10a\x0e\x96\x01,)"},
	{"vendor/golang.org/x/crypto/chacha20poly1305", "\x10\aZ\x0e\xe6\x01\x05\x01\f"},
	{"vendor/golang.org/x/crypto/cryptobyte", "n\x11\x03\x91\x01)!\v"},
	{"vendor/golang.org/x/crypto/cryptobyte/asn1", ""},
	{"vendor/golang.org/x/crypto/hkdf", "\x18\x01f\x15r"},
	{"vendor/golang.org/x/crypto/internal/alias", "\xe3\x02"},
	{"vendor/golang.org/x/crypto/internal/poly1305", "[\x16\xa4\x01"},
	{"vendor/golang.org/x/net/dns/dnsmessage", "\x7f\xca\x01"},
	{"vendor/golang.org/x/net/http/httpguts", "\x9c\x02\x16\x1a\x15\x10"},
	{"vendor/golang.org/x/net/http/httpproxy", "\x7f\x03\x9a\x01\x12\x05\x01\x18\x15\x10"},
	{"vendor/golang.org/x/net/http2/hpack", "\x03|\x03\x84\x01H"},
	{"vendor/golang.org/x/net/http3", "\x9d\x02@\x06\x0f\x04"},
	{"vendor/golang.org/x/net/idna", "\x82\x01\x90\x01:\x13\x02\x17\x02\x01"},
	{"vendor/golang.org/x/net/internal/http3", "\rO#\x03\x84\x01\v\x04\a\x01\x05\x10\x01\x16\x02\x01\x02\x0f\x10\x02\x04\x03"},
	{"vendor/golang.org/x/net/internal/httpcommon", "\rr\x03\xa0\x01\x10\x01\x17\x01\x01\x02\x1f\x02"},
	{"vendor/golang.org/x/net/internal/quic/quicwire", "q"},
	{"vendor/golang.org/x/net/nettest", "\x03n\x0e\x03\x84\x01\x11\x05\x18\x01\f\n\x01\x02\x02\x01\f"},
	{"vendor/golang.org/x/net/quic", "\x03\n\x01\x01\x01\t;\x04\x04\x15\x03\v\x03\x12r\x06\x06\x06\x04\x12\x06\x15\x02\x01\x02\x01\x01\r\x06\x02\x01\x01\x02\v"},
	{"vendor/golang.org/x/sys/cpu", "\xb4\x02\r\n\x01\x17"},
	{"vendor/golang.org/x/text/secure/bidirule", "\x7f\xe2\x01\x18\x01"},
	{"vendor/golang.org/x/text/transform", "\x03|\x87\x01["},
	{"vendor/golang.org/x/text/unicode/bidi", "\x03\bw\x88\x01@\x17"},
	{"vendor/golang.org/x/text/unicode/norm", "q\x11\x84\x01H\x13\x18"},
	{"weak", "\xa5\x01\x9c\x01\""},
}

// bootstrap is the list of bootstrap packages extracted from cmd/dist.
var bootstrap = map[string]bool{
	"cmp":                                     true,
	"cmd/asm":                                 true,
	"cmd/asm/internal/arch":                   true,
	"cmd/asm/internal/asm":                    true,
	"cmd/asm/internal/flags":                  true,
	"cmd/asm/internal/lex":                    true,
	"cmd/cgo":                                 true,
	"cmd/compile":                             true,
	"cmd/compile/internal/abi":                true,
	"cmd/compile/internal/abt":                true,
	"cmd/compile/internal/amd64":              true,
	"cmd/compile/internal/arm":                true,
	"cmd/compile/internal/arm64":              true,
	"cmd/compile/internal/base":               true,
	"cmd/compile/internal/bitvec":             true,
	"cmd/compile/internal/bloop":              true,
	"cmd/compile/internal/compare":            true,
	"cmd/compile/internal/coverage":           true,
	"cmd/compile/internal/deadlocals":         true,
	"cmd/compile/internal/devirtualize":       true,
	"cmd/compile/internal/dwarfgen":           true,
	"cmd/compile/internal/escape":             true,
	"cmd/compile/internal/gc":                 true,
	"cmd/compile/internal/importer":           true,
	"cmd/compile/internal/inline":             true,
	"cmd/compile/internal/inline/inlheur":     true,
	"cmd/compile/internal/inline/interleaved": true,
	"cmd/compile/internal/ir":                 true,
	"cmd/compile/internal/liveness":           true,
	"cmd/compile/internal/logopt":             true,
	"cmd/compile/internal/loong64":            true,
	"cmd/compile/internal/loopvar":            true,
	"cmd/compile/internal/midway":             true,
	"cmd/compile/internal/mips":               true,
	"cmd/compile/internal/mips64":             true,
	"cmd/compile/internal/noder":              true,
	"cmd/compile/internal/objw":               true,
	"cmd/compile/internal/pgoir":              true,
	"cmd/compile/internal/pkginit":            true,
	"cmd/compile/internal/ppc64":              true,
	"cmd/compile/internal/rangefunc":          true,
	"cmd/compile/internal/reflectdata":        true,
	"cmd/compile/internal/riscv64":            true,
	"cmd/compile/internal/rttype":             true,
	"cmd/compile/internal/s390x":              true,
	"cmd/compile/internal/slice":              true,
	"cmd/compile/internal/ssa":                true,
	"cmd/compile/internal/ssagen":             true,
	"cmd/compile/internal/staticdata":         true,
	"cmd/compile/internal/staticinit":         true,
	"cmd/compile/internal/syntax":             true,
	"cmd/compile/internal/test":               true,
	"cmd/compile/internal/typebits":           true,
	"cmd/compile/internal/typecheck":          true,
	"cmd/compile/internal/types":              true,
	"cmd/compile/internal/types2":             true,
	"cmd/compile/internal/walk":               true,
	"cmd/compile/internal/wasm":               true,
	"cmd/compile/internal/x86":                true,
	"cmd/internal/archive":                    true,
	"cmd/internal/bio":                        true,
	"cmd/internal/codesign":                   true,
	"cmd/internal/dwarf":                      true,
	"cmd/internal/edit":                       true,
	"cmd/internal/gcprog":                     true,
	"cmd/internal/goobj":                      true,
	"cmd/internal/hash":                       true,
	"cmd/internal/macho":                      true,
	"cmd/internal/obj":                        true,
	"cmd/internal/obj/arm":                    true,
	"cmd/internal/obj/arm64":                  true,
	"cmd/internal/obj/loong64":                true,
	"cmd/internal/obj/mips":                   true,
	"cmd/internal/obj/ppc64":                  true,
	"cmd/internal/obj/riscv":                  true,
	"cmd/internal/obj/s390x":                  true,
	"cmd/internal/obj/wasm":                   true,
	"cmd/internal/obj/x86":                    true,
	"cmd/internal/objabi":                     true,
	"cmd/internal/par":                        true,
	"cmd/internal/pgo":                        true,
	"cmd/internal/pkgpath":                    true,
	"cmd/internal/quoted":                     true,
	"cmd/internal/src":                        true,
	"cmd/internal/sys":                        true,
	"cmd/internal/telemetry":                  true,
	"cmd/internal/telemetry/counter":          true,
	"cmd/link":                                true,
	"cmd/link/internal/amd64":                 true,
	"cmd/link/internal/arm":                   true,
	"cmd/link/internal/arm64":                 true,
	"cmd/link/internal/benchmark":             true,
	"cmd/link/internal/dwtest":                true,
	"cmd/link/internal/ld":                    true,
	"cmd/link/internal/loadelf":               true,
	"cmd/link/internal/loader":                true,
	"cmd/link/internal/loadmacho":             true,
	"cmd/link/internal/loadpe":                true,
	"cmd/link/internal/loadxcoff":             true,
	"cmd/link/internal/loong64":               true,
	"cmd/link/internal/mips":                  true,
	"cmd/link/internal/mips64":                true,
	"cmd/link/internal/ppc64":                 true,
	"cmd/link/internal/riscv64":               true,
	"cmd/link/internal/s390x":                 true,
	"cmd/link/internal/sym":                   true,
	"cmd/link/internal/wasm":                  true,
	"cmd/link/internal/x86":                   true,
	"compress/flate":                          true,
	"compress/zlib":                           true,
	"container/heap":                          true,
	"debug/dwarf":                             true,
	"debug/elf":                               true,
	"debug/macho":                             true,
	"debug/pe":                                true,
	"go/build/constraint":                     true,
	"go/constant":                             true,
	"go/version":                              true,
	"internal/abi":                            true,
	"internal/coverage":                       true,
	"cmd/internal/cov/covcmd":                 true,
	"internal/bisect":                         true,
	"internal/buildcfg":                       true,
	"internal/exportdata":                     true,
	"internal/goarch":                         true,
	"internal/godebugs":                       true,
	"internal/goexperiment":                   true,
	"internal/goroot":                         true,
	"internal/gover":                          true,
	"internal/goversion":                      true,
	"internal/lazyregexp":                     true,
	"internal/pkgbits":                        true,
	"internal/platform":                       true,
	"internal/profile":                        true,
	"internal/race":                           true,
	"internal/runtime/gc":                     true,
	"internal/saferio":                        true,
	"internal/strconv":                        true,
	"internal/syscall/unix":                   true,
	"internal/types/errors":                   true,
	"internal/unsafeheader":                   true,
	"internal/xcoff":                          true,
	"internal/zstd":                           true,
	"math/bits":                               true,
	"sort":                                    true,
}

// BootstrapVersion is the minor version of Go used during toolchain
// bootstrapping. Packages for which [IsBootstrapPackage] must not use
// features of Go newer than this version.
const BootstrapVersion = Version(24) // go1.24.6
