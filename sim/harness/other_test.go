//go:build go1.25

package verifharness

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/bits"
	"syscall"
	"unsafe"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/heavyhash"

	"powsim/ref"
	rautolykos2 "powsim/ref/autolykos2"
	rbeam "powsim/ref/beamhashiii"
	rcuckoo "powsim/ref/cuckoo"
	reaglesong "powsim/ref/eaglesong"
	requihash "powsim/ref/equihash"
	rheavyhash "powsim/ref/heavyhash"
	"powsim/rt"
)

// ---- the algorithms without a DAG -----------------------------------------------------

var otherKinds = []string{"zcash96", "flux", "zcash", "btg", "beam", "aeternity", "cortex", "eaglesong", "kaspa", "ergo",
	"zcash96", "flux", "beam", "aeternity", "cortex", "eaglesong", "kaspa", "ergo", "zclassic", "aion", "cuckoo4", "cuckaroo4"}

type byteVerifier interface {
	Verify(header, soln []byte) (bool, error)
}
type edgeVerifier interface {
	Verify(header []byte, sols []uint64) (bool, error)
}

func verdict(ok bool, err error) string {
	if err != nil {
		return fmt.Sprintf("valid=%v, an error", ok)
	}
	return fmt.Sprintf("valid=%v", ok)
}

func newOther(l *liveClient, c *ClientSpec) {
	bv := func(x byteVerifier) {
		l.obj = x
		l.other = func(op Op, header, soln []byte, sols []uint64) (string, [][]byte) {
			return verdict(x.Verify(header, soln)), nil
		}
	}
	ev := func(x edgeVerifier) {
		l.obj = x
		l.other = func(op Op, header, soln []byte, sols []uint64) (string, [][]byte) {
			return verdict(x.Verify(header, sols)), nil
		}
	}
	digest := func(d []byte, err error) (string, [][]byte) {
		if err != nil {
			return "an error", nil
		}
		return hex.EncodeToString(d), [][]byte{d}
	}
	switch c.Kind {
	case "zcash96":
		bv(equihash.New(96, 5, "ZcashPoW", false))
	case "flux":
		bv(equihash.NewFlux())
	case "zcash":
		bv(equihash.NewZCash())
	case "btg":
		bv(equihash.NewBitcoinGold())
	case "zclassic":
		bv(equihash.NewZClassic())
	case "aion":
		bv(equihash.NewAion())
	case "cuckoo4":
		ev(cuckoo.NewCuckoo(4, smallProof, ref.SipNode24, nil))
	case "cuckaroo4":
		ev(cuckoo.NewCuckaroo(4, smallProof, nil, ref.SipBlock48))
	case "beam":
		bv(beamhashiii.NewBeam())
	case "aeternity":
		ev(cuckoo.NewAeternity())
	case "cortex":
		ev(cuckoo.NewCortex())
	case "eaglesong":
		x := eaglesong.NewNervos()
		l.obj = x
		l.other = func(op Op, header, soln []byte, sols []uint64) (string, [][]byte) {
			return digest(x.Compute(header), nil)
		}
	case "kaspa":
		x := heavyhash.NewKaspa()
		l.obj = x
		l.other = func(op Op, header, soln []byte, sols []uint64) (string, [][]byte) {
			return digest(x.Compute(header, int64(op.E*7919), op.Nonce))
		}
	case "ergo":
		x := autolykos2.NewErgo()
		l.obj = x
		l.other = func(op Op, header, soln []byte, sols []uint64) (string, [][]byte) {
			return digest(x.Compute(header, 400000+op.E*51201, op.Nonce))
		}
	default:
		panic("unknown kind " + c.Kind)
	}
}

// refOther is the reference result.
func refOther(kind string, op Op, header, soln []byte, sols []uint64) string {
	d := func(d []byte, err error) string {
		if err != nil {
			return "an error"
		}
		return hex.EncodeToString(d)
	}
	switch kind {
	case "zcash96":
		return verdict(requihash.New(96, 5, "ZcashPoW", false).Verify(header, soln))
	case "flux":
		return verdict(requihash.NewFlux().Verify(header, soln))
	case "zcash":
		return verdict(requihash.NewZCash().Verify(header, soln))
	case "btg":
		return verdict(requihash.NewBitcoinGold().Verify(header, soln))
	case "zclassic":
		return verdict(requihash.NewZClassic().Verify(header, soln))
	case "aion":
		return verdict(requihash.NewAion().Verify(header, soln))
	case "cuckoo4", "cuckaroo4":
		return verdict(smallRef(kind).Verify(header, sols))
	case "beam":
		return verdict(rbeam.NewBeam().Verify(header, soln))
	case "aeternity":
		return verdict(rcuckoo.NewAeternity().Verify(header, sols))
	case "cortex":
		return verdict(rcuckoo.NewCortex().Verify(header, sols))
	case "eaglesong":
		return d(reaglesong.NewNervos().Compute(header), nil)
	case "kaspa":
		return d(rheavyhash.NewKaspa().Compute(header, int64(op.E*7919), op.Nonce))
	case "ergo":
		return d(rautolykos2.NewErgo().Compute(header, 400000+op.E*51201, op.Nonce))
	}
	panic("unknown kind " + kind)
}

// smallProof is the cycle length of the small Cuckoo graphs.
const smallProof = 6

func smallRef(kind string) *rcuckoo.Client {
	if kind == "cuckoo4" {
		return rcuckoo.NewCuckoo(4, smallProof, ref.SipNode24, nil)
	}
	return rcuckoo.NewCuckaroo(4, smallProof, nil, ref.SipBlock48)
}

type smallKey struct {
	kind string
	hash uint64
}

var smalls = map[smallKey][][]uint64{}

// small are edge lists that fail in every way a list of ascending edges can, and those that do not fail.
func small(kind string, hash uint64) [][]uint64 {
	k := smallKey{kind, hash}
	if l, ok := smalls[k]; ok {
		return l
	}
	c, header := smallRef(kind), hashBytes(hash, 80)
	seen := map[string]int{}
	var l [][]uint64
	for m := 0; m < 1<<16; m++ {
		if bits.OnesCount(uint(m)) != smallProof {
			continue
		}
		var e []uint64
		for b := uint64(0); b < 16; b++ {
			if m>>b&1 == 1 {
				e = append(e, b)
			}
		}
		what := "valid"
		if _, err := c.Verify(header, e); err != nil {
			what = err.Error()
		}
		if seen[what]++; seen[what] <= 3 {
			l = append(l, e)
		}
	}
	smalls[k] = l
	return l
}

// inputs makes the arguments of a call: a published solution, or one damaged as M says.
func inputs(kind string, op Op) (header, soln []byte, sols []uint64) {
	g := rt.NewRand(op.M*31 + 5)
	switch kind {
	case "eaglesong":
		return hashBytes(op.Hash, []int{0, 1, 31, 32, 33, 48, 64, 100, 200}[op.V%9]), nil, nil
	case "kaspa", "ergo":
		n := 32
		if op.M%11 == 10 {
			n = []int{0, 31, 33, 64}[op.V%4]
		}
		return hashBytes(op.Hash, n), nil, nil
	}
	if kind == "cuckoo4" || kind == "cuckaroo4" {
		l := small(kind, op.Hash)
		return hashBytes(op.Hash, 80), nil, append([]uint64(nil), l[(op.V+9*int(op.M))%len(l)]...)
	}
	var c []vector
	for _, v := range vectors {
		if v.kind == kind {
			c = append(c, v)
		}
	}
	if len(c) == 0 {
		// no published solution at these parameters: a solution of the right length that is not one
		n := map[string]int{"zcash": 1344, "btg": 100, "zclassic": 400, "aion": 1408}[kind]
		if op.M%8 == 7 {
			n -= 1 + g.Intn(n)
		}
		return hashBytes(op.Hash, 140), hashBytes(op.M, n), nil
	}
	v := c[op.V%len(c)]
	header, _ = hex.DecodeString(v.header)
	soln, _ = hex.DecodeString(v.soln)
	sols = append([]uint64(nil), v.sols...)
	switch op.M % 6 {
	case 0, 1, 2:
	case 3: // another header
		header[g.Intn(len(header))] ^= byte(1 + g.Intn(255))
	case 4:
		if len(soln) > 0 {
			soln[g.Intn(len(soln))] ^= byte(1 << g.Intn(8))
		} else {
			i := g.Intn(len(sols))
			sols[i] ^= 1 << uint(g.Intn(29))
		}
	case 5:
		if len(soln) > 0 && len(header) > 0 && g.P(0.2) { // the same bytes, divided elsewhere
			all := append(append([]byte(nil), header...), soln...)
			n := len(header) + rt.Pick(g, []int{-4, -1, 1, 4, len(soln)})
			if n < 0 {
				n = 0
			}
			header, soln = all[:n:n], all[n:]
		} else if g.P(0.3) {
			switch g.Intn(5) {
			case 0:
				header = header[:g.Intn(len(header))]
			case 1:
				header = nil
			case 2:
				soln, sols = nil, nil
			case 3:
				soln, sols = append(soln, soln...), append(sols, sols...)
			case 4:
				if len(sols) > 0 {
					sols[len(sols)-1] |= 1 << 40
				} else {
					soln = make([]byte, len(soln)) // equal indices
				}
			}
		} else if len(soln) > 0 {
			soln = soln[:len(soln)-1-g.Intn(3)]
		} else if g.P(0.5) {
			sols = sols[:len(sols)-1]
		} else {
			i := g.Intn(len(sols) - 1)
			sols[i], sols[i+1] = sols[i+1], sols[i]
		}
	}
	return
}

var otherWants = map[string]string{}

func (r *Run) otherCall(ps *procState, lc *liveClient, c *Call, op Op) {
	kind := lc.spec.Kind
	header, soln, sols := inputs(kind, op)
	key := fmt.Sprintf("%s %+v", kind, op)
	want, ok := otherWants[key]
	if !ok {
		if len(otherWants) > 100000 {
			otherWants = map[string]string{}
		}
		func() {
			defer func() {
				if recover() != nil {
					want = "a panic"
				}
			}()
			want = refOther(kind, op, append([]byte(nil), header...), append([]byte(nil), soln...), append([]uint64(nil), sols...))
		}()
		otherWants[key] = want
	}
	if want == "a panic" { // not an argument anybody may pass
		c.Ended = true
		return
	}
	h0, s0, e0 := header, soln, sols
	if r.bufs != nil {
		header = r.bufs.bytes(header)
		soln = r.bufs.bytes(soln)
		sols = r.bufs.words(sols)
	} else {
		header, soln, sols = own(r, op, " header", header), own(r, op, " soln", soln), own(r, op, " sols", sols)
		defer after(op, header, 0xee)
		defer after(op, soln, 0xee)
		defer after(op, sols, 0xeeee)
	}
	r.s.Logf("%s calls c%d %s", rt.Cur().Name, op.C, kind)
	have, out := lc.other(op, header, soln, sols)
	if rt.Killed() {
		return
	}
	c.Ended = true
	for _, b := range out {
		watch(b, op.M&16 != 0)
	}
	if have != want {
		c.Wrong = fmt.Sprintf("got %s, want %s", have, want)
		r.fail("result", "%s, %s: %s", rt.Cur().Name, kind, c.Wrong)
	}
	if !bytes.Equal(header, h0) || !bytes.Equal(soln, s0) || fmt.Sprint(sols) != fmt.Sprint(e0) {
		r.fail("buffer", "an argument passed by %s to %s was changed", rt.Cur().Name, kind)
	}
	if want == "valid=true" {
		r.probe("valid_solution")
	}
	if r.bufs != nil {
		r.keep(lc, op, out...)
	}
	for _, f := range r.onCall {
		f(c)
	}
}

// ---- callers' buffers and results ------------------------------------------------------------

// bufPool holds arguments in memory that the processor keeps anyone from writing to.
type bufPool struct {
	mem  []byte
	used int
	have map[string]int
}

const bufPage = 4096

func newBufPool() *bufPool {
	m, err := syscall.Mmap(-1, 0, 256*bufPage, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	return &bufPool{mem: m, have: map[string]int{}}
}

func (p *bufPool) release() { syscall.Munmap(p.mem) }

// bytes returns b in protected memory, with protected spare capacity behind it.
func (p *bufPool) bytes(b []byte) []byte {
	k := string(b)
	at, ok := p.have[k]
	if !ok {
		n := (5*len(b) + 128 + 63) / 64 * 64
		if p.used+n > len(p.mem) {
			return append([]byte(nil), b...)
		}
		at = p.used
		p.used += n
		if err := syscall.Mprotect(p.mem, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
			panic(err)
		}
		copy(p.mem[at:], b)
		for i := at + len(b); i < at+n; i++ {
			p.mem[i] = 0xc7
		}
		if err := syscall.Mprotect(p.mem, syscall.PROT_READ); err != nil {
			panic(err)
		}
		p.have[k] = at
	}
	return p.mem[at : at+len(b) : at+5*len(b)+64]
}

func (p *bufPool) words(w []uint64) []uint64 {
	if len(w) == 0 {
		return nil
	}
	b := make([]byte, len(w)*8)
	for i, x := range w {
		*(*uint64)(unsafe.Pointer(&b[i*8])) = x
	}
	q := p.bytes(b)
	return unsafe.Slice((*uint64)(unsafe.Pointer(&q[0])), 5*len(w)+8)[:len(w)]
}

func (p *bufPool) get(seed uint64) []byte { return p.bytes(hashBytes(seed, 32)) }

func (p *bufPool) holds(a uintptr) bool {
	b := uintptr(unsafe.Pointer(&p.mem[0]))
	return a >= b && a < b+uintptr(len(p.mem))
}

// useBufs makes all calls of the run pass protected buffers and keep their results.
func (r *Run) useBufs() {
	r.bufs = newBufPool()
	old := rt.ExplainFault
	rt.ExplainFault = func(a uintptr) string {
		if r.bufs != nil && r.bufs.holds(a) {
			return "write to the caller's buffer"
		}
		return old(a)
	}
}

type keptResult struct {
	b    []byte
	copy []byte
	by   string
}

func addr(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

// keep holds on to results: nobody else may ever write to them, and they share no memory.
func (r *Run) keep(lc *liveClient, op Op, out ...[]byte) {
	for _, b := range out {
		if len(b) == 0 {
			continue
		}
		by := fmt.Sprintf("%s by %s", lc.spec.Kind, rt.Cur().Name)
		if r.bufs.holds(addr(b)) {
			r.fail("shared", "a result of %s lies in the caller's buffer", by)
			continue
		}
		for _, k := range r.kept {
			// appending to one must not reach the other, either
			if addr(b) < addr(k.b)+uintptr(cap(k.b)) && addr(k.b) < addr(b)+uintptr(cap(b)) {
				r.fail("shared", "a result of %s shares memory with a result of %s", by, k.by)
			}
		}
		if op.M&1 == 1 { // the caller may do with it what it likes
			r.scribbled = true
			for i := range b {
				b[i] = byte(0x30 + len(r.kept))
			}
		}
		r.kept = append(r.kept, keptResult{b, append([]byte(nil), b...), by})
	}
	r.checkKept()
}

func (r *Run) checkKept() {
	for i := range r.kept {
		k := &r.kept[i]
		if !bytes.Equal(k.b, k.copy) {
			r.fail("overwritten", "a result of %s was written to later", k.by)
			k.copy = append([]byte(nil), k.b...)
		}
	}
}
