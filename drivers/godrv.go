// Line-protocol driver for the Go package: one command per line, one reply per line, "." flushes a batch.
// Values are hexadecimal (sign in front), "-" stands for an empty byte string.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"ecgo"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// identity hash of n bytes: the first n bytes of the message, zero padded
type idHash struct {
	n   int
	buf []byte
}

func (h *idHash) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *idHash) Sum(b []byte) []byte {
	o := make([]byte, h.n)
	copy(o, h.buf)
	return append(b, o...)
}
func (h *idHash) Reset()         { h.buf = nil }
func (h *idHash) Size() int      { return h.n }
func (h *idHash) BlockSize() int { return 1 }

func mkhash(s string) hash.Hash {
	switch s {
	case "sha256":
		return sha256.New()
	case "sha512":
		return sha512.New()
	}
	n, _ := strconv.Atoi(s)
	return &idHash{n: n}
}

type argT struct {
	v    *big.Int
	orig string
}

var (
	fs    = map[string]*ecgo.FieldElement{}
	cs    = map[string]*ecgo.Curve{}
	ps    = map[string]*ecgo.Point{}
	hs    = map[string]*ecgo.ECDSASignatureScheme{}
	hobj  = map[string]hash.Hash{}
	ss    = map[string]*ecgo.ECDSASignature{}
	es    = map[string]*ecgo.ECElgamalCiphertext{}
	args  []argT
	bargs [][2][]byte
	mu    sync.Mutex
	stop  int32
	wg    sync.WaitGroup
)

func reset() {
	fs = map[string]*ecgo.FieldElement{}
	cs = map[string]*ecgo.Curve{}
	ps = map[string]*ecgo.Point{}
	hs = map[string]*ecgo.ECDSASignatureScheme{}
	hobj = map[string]hash.Hash{}
	ss = map[string]*ecgo.ECDSASignature{}
	es = map[string]*ecgo.ECElgamalCiphertext{}
}

// integer argument of a call under test; it must come back unmodified
func I(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("driver: integer " + s)
	}
	mu.Lock()
	args = append(args, argT{v, v.Text(16)})
	mu.Unlock()
	return v
}

func B(s string) []byte {
	if s == "-" {
		return []byte{}
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("driver: bytes " + s)
	}
	mu.Lock()
	bargs = append(bargs, [2][]byte{b, append([]byte{}, b...)})
	mu.Unlock()
	return b
}

func H(v *big.Int) string { return v.Text(16) }

func showF(z *ecgo.FieldElement) string {
	if z == nil {
		return "nil"
	}
	return "F " + H(z.AsInt()) + " " + H(z.Order())
}

func X(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return hex.EncodeToString(b)
}

func showP(z *ecgo.Point) string {
	if z == nil {
		return "nil"
	}
	// on the Edwards forms the identity is an affine point and IsNeutral speaks
	// of the representation only: nothing is asked of it at x = 0 there
	n := 0
	u := z.BytesUncompressed()
	if z.IsNeutral() && (u[0] == 0 || strings.Trim(string(u[1:len(u)/2+1]), "\x00") != "") {
		n = 1
	}
	return fmt.Sprintf("P %s %s %s %s %d", X(z.BytesCompressed()), X(z.BytesUncompressed()), strings.ToLower(z.StringCompressed()),
		strings.ToLower(z.StringUncompressed()), n)
}

func showC(z *ecgo.Curve) string {
	if z == nil {
		return "nil"
	}
	o := fmt.Sprintf("C %d", z.Type())
	for _, a := range []string{"p", "n", "h", "gx", "gy", "bits", "ws_a", "ws_b", "ed_c", "ed_d", "mo_B", "mo_A", "te_a", "te_d"} {
		v := z.GetAttr(a)
		if v != nil {
			o += " " + H(v)
		}
	}
	return o
}

func showS(z *ecgo.ECDSASignature) string {
	if z == nil {
		return "nil"
	}
	return "S " + X(z.AsBytes())
}

func showE(z *ecgo.ECElgamalCiphertext) string {
	if z == nil {
		return "nil"
	}
	return "E " + showP(z.C()) + " " + showP(z.D())
}

func curve(a []string) *ecgo.Curve {
	if len(a) == 1 {
		return ecgo.NamedCurve(string(B(a[0])))
	}
	v := make([]*big.Int, 7)
	for i := range v {
		v[i] = I(a[i+1])
	}
	bits, _ := strconv.ParseUint(a[8], 10, 32)
	switch a[0] {
	case "ws":
		return ecgo.ShortWeierstrassCurve(v[0], v[1], v[2], v[3], v[4], v[5], v[6], uint(bits))
	case "ed":
		return ecgo.EdwardsCurve(v[0], v[1], v[2], v[3], v[4], v[5], v[6], uint(bits))
	case "mo":
		return ecgo.MontgomeryCurve(v[0], v[1], v[2], v[3], v[4], v[5], v[6], uint(bits))
	}
	return ecgo.TwistedEdwardsCurve(v[0], v[1], v[2], v[3], v[4], v[5], v[6], uint(bits))
}

func setP(d string, z *ecgo.Point) string {
	if z == nil {
		return "nil"
	}
	ps[d] = z
	return showP(z)
}

func setF(d string, z *ecgo.FieldElement) string {
	if z == nil {
		return "nil"
	}
	fs[d] = z
	return showF(z)
}

func recvF(d string, r *ecgo.FieldElement) string {
	if r != fs[d] {
		return "NOTRECEIVER"
	}
	return showF(r)
}

func recvP(d string, r *ecgo.Point) string {
	if r != ps[d] {
		return "NOTRECEIVER"
	}
	return showP(r)
}

func F(s string) *ecgo.FieldElement {
	z := fs[s]
	if z == nil {
		panic("driver: slot " + s)
	}
	return z
}

func P(s string) *ecgo.Point {
	z := ps[s]
	if z == nil {
		panic("driver: slot " + s)
	}
	return z
}

// temp runs a chain in which every object is dropped as early as the compiler can see it
//
//go:noinline
func temp(a []string) string {
	cv := func() *ecgo.Curve { return curve(strings.Split(a[1], ",")) }
	switch a[0] {
	case "mul":
		return showP(ecgo.NewPointNeutral(cv()).Mul(ecgo.NewPointGenerator(cv()), I(a[2])))
	case "mulrand":
		k := I(a[2])
		return showP(new(holder).keep(ecgo.NewPointGenerator(cv())).mul(k))
	case "add":
		return showP(ecgo.NewPointNeutral(cv()).Add(ecgo.NewPointGenerator(cv()), ecgo.NewPointGenerator(cv())))
	case "sub":
		return showP(ecgo.NewPointNeutral(cv()).Sub(ecgo.NewPointNeutral(cv()), ecgo.NewPointGenerator(cv())))
	case "base":
		p := ecgo.NewPointGenerator(cv())
		p.SetupBaseMul()
		return showP(ecgo.NewPointNeutral(cv()).Mul(p, I(a[2])))
	case "set":
		return showP(ecgo.NewPointNeutral(cv()).Set(ecgo.NewPointGenerator(cv())))
	case "cmp":
		return strconv.Itoa(ecgo.NewPointGenerator(cv()).Cmp(ecgo.NewPointGenerator(cv())))
	case "aff":
		x, y := ecgo.NewPointGenerator(cv()).Affine()
		return H(x) + " " + H(y)
	case "attr":
		return H(cv().GetAttr("n"))
	case "check":
		return strconv.FormatBool(cv().PointCheck(I(a[2]), I(a[3])))
	case "rand":
		return showP(ecgo.NewPointURandom(cv()))
	case "str":
		return showP(ecgo.NewPointFromString(a[2], cv()))
	case "bytes":
		return showP(ecgo.NewPointFromBytes(B(a[2]), cv()))
	case "sign":
		// curve hash key msg
		return showS(ecgo.NewECDSASignatureScheme(cv(), mkhash(a[2])).Sign(I(a[3]), B(a[4])))
	case "ver":
		// curve hash sig key msg
		return strconv.FormatBool(ecgo.NewECDSASignatureScheme(cv(), mkhash(a[2])).SignatureFromBytes(B(a[3])).
			Verify(ecgo.NewPointNeutral(cv()).Mul(ecgo.NewPointGenerator(cv()), I(a[4])), B(a[5])))
	case "eg":
		// curve key
		k := I(a[2])
		return showP(ecgo.ECElgamalEncrypt(ecgo.NewPointNeutral(cv()).Mul(ecgo.NewPointGenerator(cv()), k), ecgo.NewPointGenerator(cv())).Decrypt(k))
	case "egc":
		e := ecgo.NewECElgamalCiphertext(ecgo.NewPointNeutral(cv()), ecgo.NewPointGenerator(cv()))
		return showP(e.D())
	case "fexp":
		// p a e
		e, _ := strconv.ParseUint(a[3], 16, 64)
		return showF(ecgo.NewFieldElementUI(0, I(a[1])).Exp(ecgo.NewFieldElement(I(a[2]), I(a[1])), e))
	case "fsqrt":
		z, err := ecgo.NewFieldElementUI(0, I(a[1])).Sqrt(ecgo.NewFieldElement(I(a[2]), I(a[1])))
		if err != nil {
			return "E"
		}
		return H(z.AsInt())
	case "finv":
		z, err := ecgo.NewFieldElementUI(0, I(a[1])).Inv(ecgo.NewFieldElement(I(a[2]), I(a[1])))
		if err != nil {
			return "E"
		}
		return H(z.AsInt())
	case "fmul":
		return showF(ecgo.NewFieldElementUI(0, I(a[1])).Mul(ecgo.NewFieldElement(I(a[2]), I(a[1])), ecgo.NewFieldElement(I(a[3]), I(a[1]))))
	}
	panic("driver: temp " + a[0])
}

type holder struct{ p *ecgo.Point }

func (h *holder) keep(p *ecgo.Point) *holder { h.p = p; return h }
func (h *holder) mul(k *big.Int) *ecgo.Point { return h.p.Mul(h.p, k) }

func do(a []string) string {
	switch a[0] {
	case "reset":
		reset()
		return "ok"
	case "gc":
		runtime.GC()
		runtime.GC()
		time.Sleep(time.Millisecond)
		return "ok"
	case "bg":
		if a[1] == "1" {
			if atomic.LoadInt32(&stop) == 0 {
				atomic.StoreInt32(&stop, 1)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for atomic.LoadInt32(&stop) == 1 {
						runtime.GC()
					}
				}()
			}
		} else {
			atomic.StoreInt32(&stop, 0)
			wg.Wait()
		}
		return "ok"
	case "del":
		delete(fs, a[1])
		delete(cs, a[1])
		delete(ps, a[1])
		delete(hs, a[1])
		delete(hobj, a[1])
		delete(ss, a[1])
		delete(es, a[1])
		return "ok"
	case "get":
		switch a[1][0] {
		case 'f':
			return showF(fs[a[1]])
		case 'c':
			return showC(cs[a[1]])
		case 'p':
			return showP(ps[a[1]])
		case 's':
			return showS(ss[a[1]])
		case 'e':
			return showE(es[a[1]])
		}
	case "tmp":
		return temp(a[1:])
	case "tmps":
		// tmps workers times command...: the same chain many times, on several goroutines
		w, _ := strconv.Atoi(a[1])
		n, _ := strconv.Atoi(a[2])
		out := make([]string, w)
		var g sync.WaitGroup
		var panicked atomic.Value
		args0 := append([]string{}, a[3:]...)
		for i := 0; i < w; i++ {
			g.Add(1)
			go func(i int) {
				defer g.Done()
				defer func() {
					if r := recover(); r != nil {
						panicked.Store(fmt.Sprint(r))
					}
				}()
				for j := 0; j < n; j++ {
					o := temp(args0)
					if j == 0 {
						out[i] = o
					} else if o != out[i] && args0[0] != "rand" && args0[0] != "sign" {
						out[i] = "DIFF " + o
						return
					}
				}
			}(i)
		}
		g.Wait()
		if p := panicked.Load(); p != nil {
			panic(p)
		}
		return strings.Join(out, "|")

	case "randpar":
		// kind workers draws curve scheme key: several goroutines draw at the same time
		w, _ := strconv.Atoi(a[2])
		n, _ := strconv.Atoi(a[3])
		c, h, d := cs[a[4]], hs[a[5]], I(a[6])
		out := make([]string, w)
		var g sync.WaitGroup
		var panicked atomic.Value
		start := make(chan bool)
		pr, _ := new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
		gen := ecgo.NewPointGenerator(c)
		for i := 0; i < w; i++ {
			g.Add(1)
			go func(i int) {
				defer g.Done()
				defer func() {
					if r := recover(); r != nil {
						panicked.Store(fmt.Sprint(r))
					}
				}()
				<-start
				for j := 0; j < n; j++ {
					switch a[1] {
					case "f":
						out[i] += H(ecgo.NewFieldElementURandom(pr).AsInt()) + " "
					case "p":
						out[i] += X(ecgo.NewPointURandom(c).BytesUncompressed()) + " "
					case "e":
						out[i] += X(ecgo.ECElgamalEncrypt(gen, gen).C().BytesUncompressed()) + " "
					case "s":
						out[i] += X(h.Sign(d, []byte("m")).AsBytes()) + " "
					}
				}
			}(i)
		}
		close(start)
		g.Wait()
		if p := panicked.Load(); p != nil {
			panic(p)
		}
		return strings.Join(out, "|")

	// ---- field elements
	case "fe":
		return setF(a[1], ecgo.NewFieldElement(I(a[2]), I(a[3])))
	case "feui":
		v, _ := strconv.ParseUint(a[2], 16, 64)
		return setF(a[1], ecgo.NewFieldElementUI(v, I(a[3])))
	case "feur":
		return setF(a[1], ecgo.NewFieldElementURandom(I(a[2])))
	case "fadd":
		return recvF(a[1], F(a[1]).Add(F(a[2]), F(a[3])))
	case "fsub":
		return recvF(a[1], F(a[1]).Sub(F(a[2]), F(a[3])))
	case "fmul":
		return recvF(a[1], F(a[1]).Mul(F(a[2]), F(a[3])))
	case "fneg":
		return recvF(a[1], F(a[1]).Neg(F(a[2])))
	case "finv", "fsqrt":
		f := F(a[1]).Inv
		if a[0] == "fsqrt" {
			f = F(a[1]).Sqrt
		}
		z, err := f(F(a[2]))
		if err != nil {
			if z != nil {
				return "E and a result"
			}
			return "E"
		}
		return recvF(a[1], z)
	case "fexp":
		e, _ := strconv.ParseUint(a[3], 16, 64)
		return recvF(a[1], F(a[1]).Exp(F(a[2]), e))
	case "fbit":
		i, _ := strconv.Atoi(a[2])
		return strconv.Itoa(int(F(a[1]).Bit(i)))
	case "fcmp":
		return strconv.Itoa(F(a[1]).Cmp(F(a[2])))

	// ---- curves
	case "cv":
		z := curve(a[2:])
		if z == nil {
			return "nil"
		}
		cs[a[1]] = z
		return showC(z)
	case "cnames":
		return strings.Join(ecgo.CurveNames(), " ")
	case "cattr":
		v := cs[a[1]].GetAttr(string(B(a[2])))
		if v == nil {
			return "nil"
		}
		return H(v)
	case "ccmp":
		return strconv.Itoa(cs[a[1]].Cmp(cs[a[2]]))
	case "ccheck":
		return strconv.FormatBool(cs[a[1]].PointCheck(I(a[2]), I(a[3])))

	// ---- points
	case "pxy":
		return setP(a[1], ecgo.NewPointXY(I(a[3]), I(a[4]), cs[a[2]]))
	case "pneu":
		return setP(a[1], ecgo.NewPointNeutral(cs[a[2]]))
	case "pgen":
		return setP(a[1], ecgo.NewPointGenerator(cs[a[2]]))
	case "pur":
		return setP(a[1], ecgo.NewPointURandom(cs[a[2]]))
	case "pstr":
		return setP(a[1], ecgo.NewPointFromString(string(B(a[3])), cs[a[2]]))
	case "pbytes":
		return setP(a[1], ecgo.NewPointFromBytes(B(a[3]), cs[a[2]]))
	case "padd":
		return recvP(a[1], P(a[1]).Add(P(a[2]), P(a[3])))
	case "psub":
		return recvP(a[1], P(a[1]).Sub(P(a[2]), P(a[3])))
	case "pneg":
		return recvP(a[1], P(a[1]).Neg(P(a[2])))
	case "pset":
		return recvP(a[1], P(a[1]).Set(P(a[2])))
	case "pmul":
		return recvP(a[1], P(a[1]).Mul(P(a[2]), I(a[3])))
	case "pbase":
		P(a[1]).SetupBaseMul()
		return showP(P(a[1]))
	case "pcmp":
		return strconv.Itoa(P(a[1]).Cmp(P(a[2])))
	case "paff":
		x, y := P(a[1]).Affine()
		return H(x) + " " + H(y)

	// ---- signatures
	case "hs":
		// name curve hash [name of a scheme whose hash object is shared]
		hh := mkhash(a[3])
		if len(a) > 4 {
			hh = hobj[a[4]]
		}
		z := ecgo.NewECDSASignatureScheme(cs[a[2]], hh)
		if z == nil {
			return "nil"
		}
		hs[a[1]] = z
		hobj[a[1]] = hh
		return "ok"
	case "hwr":
		// the caller uses his hash object for something else
		hobj[a[1]].Write(B(a[2]))
		return "ok"
	case "sign":
		z := hs[a[2]].Sign(I(a[3]), B(a[4]))
		if z != nil {
			ss[a[1]] = z
		}
		return showS(z)
	case "simp":
		z := hs[a[2]].SignatureFromBytes(B(a[3]))
		if z != nil {
			ss[a[1]] = z
		}
		return showS(z)
	case "ver":
		return strconv.FormatBool(ss[a[1]].Verify(P(a[2]), B(a[3])))

	// ---- ElGamal
	case "eenc":
		z := ecgo.ECElgamalEncrypt(P(a[2]), P(a[3]))
		if z != nil {
			es[a[1]] = z
		}
		return showE(z)
	case "emk":
		z := ecgo.NewECElgamalCiphertext(P(a[2]), P(a[3]))
		if z != nil {
			es[a[1]] = z
		}
		return showE(z)
	case "edec":
		return setP(a[1], es[a[2]].Decrypt(I(a[3])))
	case "egc":
		return setP(a[1], es[a[2]].C())
	case "egd":
		return setP(a[1], es[a[2]].D())
	}
	return "BAD"
}

func run(line string) (res string) {
	args = args[:0]
	bargs = bargs[:0]
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "driver: ") {
				res = "BAD " + s
			} else {
				res = "! " + strings.ReplaceAll(s, "\n", " ")
			}
		}
		for _, x := range args {
			if x.v.Text(16) != x.orig {
				res = "ARGMOD " + x.orig + " became " + x.v.Text(16) + " in " + res
				break
			}
		}
		for _, x := range bargs {
			if !bytes.Equal(x[0], x[1]) {
				res = "ARGMOD bytes in " + res
				break
			}
		}
	}()
	return do(strings.Split(line, " "))
}

func main() {
	if len(os.Args) > 1 {
		p, _ := strconv.Atoi(os.Args[1])
		debug.SetGCPercent(p)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			break
		}
		line = strings.TrimRight(line, "\n")
		if line == "." {
			out.WriteString(".\n")
			out.Flush()
			continue
		}
		out.WriteString(run(line) + "\n")
	}
	out.Flush()
	os.Exit(0)
}
