package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]

// lockName names a mutex by the field it is.
func lockName(a *V) string {
	if a.Kind == KFld {
		s, f := fieldOf(a)
		if s != "" {
			return s + "." + f
		}
	}
	return cleanName(a.String())
}

func (x *Exec) ev(st *State, kind, name string, pos token.Pos, args ...*V) {
	x.emit(st, &Event{Kind: kind, Name: name, Args: args, Pos: pos})
}

// external models a function outside the library.
func (x *Exec) external(st *State, name string, sig *types.Signature, args []*V, pos token.Pos, ctx string, iface bool) []Exit {
	arg := func(i int) *V {
		if i < len(args) {
			return args[i]
		}
		return vNil
	}
	t0 := func() types.Type {
		if sig.Results().Len() > 0 {
			return sig.Results().At(0).Type()
		}
		return nil
	}
	pureX := func() []Exit { return one(st, expr(name, t0(), args...)) }
	netEv := func(kind string) {
		x.emit(st, &Event{Kind: kind, Args: args[1:], Pos: pos, Block: kind == "netwrite" || kind == "netread"})
	}
	if op, isBool, ok := atomicOp(name, sig); ok {
		return x.atomic(st, op, isBool, args, t0(), pos, ctx)
	}
	switch name {
	// ---- transport ----
	case "net.Conn.Write":
		n := x.freshSym(st, ctx+".n", tInt)
		netEv("netwrite")
		return okErr(x, st, ctx, func(s *State, e *V) *V {
			k := "netwrite.ok"
			if e != vNil {
				k = "netwrite.fail"
			}
			x.emit(s, &Event{Kind: k, Args: args[1:], Pos: pos})
			return tuple(n, e)
		})
	case "net.Conn.Read":
		n := x.freshSym(st, ctx+".n", tInt)
		netEv("netread")
		return okErr(x, st, ctx, func(s *State, e *V) *V { return tuple(n, e) })
	case "net.Conn.Close":
		netEv("netclose")
		return okErr(x, st, ctx, func(s *State, e *V) *V { return e })
	case "net.Conn.SetWriteDeadline", "net.Conn.SetReadDeadline", "net.Conn.SetDeadline":
		kind := map[string]string{"net.Conn.SetWriteDeadline": "setwdl", "net.Conn.SetReadDeadline": "setrdl", "net.Conn.SetDeadline": "setdl"}[name]
		return okErr(x, st, ctx, func(s *State, e *V) *V {
			k := kind + ".ok"
			if e != vNil {
				k = kind + ".fail"
			}
			x.emit(s, &Event{Kind: k, Args: args[1:], Pos: pos})
			return e
		})
	case "net.Conn.RemoteAddr", "net.Conn.LocalAddr":
		return pureX()

	// ---- buffered input ----
	case "(*bufio.Reader).Peek":
		return x.peek(st, args[0], arg(1), pos, ctx)
	case "(*bufio.Reader).Discard":
		n := arg(1)
		// a count that was peeked at can not fail
		sure := st.f["buffered"] == 1 && st.v["bufn"] != nil && st.rangeOf(vSub(n, st.v["bufn"])).hi <= 0
		st.unbuffer()
		if sure {
			x.ev(st, "discard", "ok", pos, n)
			return alive(st, tuple(n, vNil))
		}
		o := st.clone()
		x.ev(st, "discard", "ok", pos, n)
		ren := len(o.ren)
		m := x.freshSym(o, ctx+".n", tInt)
		o.constrain(m, ival{0, inf})
		x.ev(o, "discard", "fail", pos, o.since(ren, n))
		e := x.freshErr(o, ctx)
		return []Exit{{st, tuple(n, vNil)}, {o, tuple(m, e)}}
	case "(*bufio.Reader).Read":
		st.unbuffer()
		return x.bufRead(st, arg(1), pos, ctx)
	case "(*bufio.Reader).ReadByte":
		st.unbuffer()
		b := x.freshSym(st, ctx+".b", types.Typ[types.Uint8])
		return okErr(x, st, ctx, func(s *State, e *V) *V {
			if e == vNil {
				x.ev(s, "readbyte", "ok", pos, b)
			} else {
				x.ev(s, "readbyte", "fail", pos)
			}
			return tuple(b, e)
		})
	case "io.ReadFull":
		st.unbuffer()
		p := arg(1)
		r := unwrap(arg(0))
		ren := len(st.ren)
		n := x.freshSym(st, ctx+".n", tInt)
		p = st.since(ren, p)
		x.clobber(st, p)
		o := st.clone()
		x.emit(st, &Event{Kind: "readfull", Name: "ok", Args: []*V{p, r}, Pos: pos})
		x.emit(o, &Event{Kind: "readfull", Name: "fail", Args: []*V{p, r}, Pos: pos})
		return []Exit{{st, tuple(vLen(st, p), vNil)}, {o, tuple(n, x.freshErr(o, ctx))}}
	case "(*bufio.Reader).Buffered", "(*bufio.Reader).Size":
		s := x.freshSym(st, ctx+".n", tInt)
		st.constrain(s, ival{0, inf})
		return one(st, s)
	case "bufio.NewReaderSize", "bufio.NewReader":
		return one(st, x.freshSym(st, "bufreader!"+ctx, t0()))
	case "(*bufio.Writer).AvailableBuffer":
		b := x.freshSym(st, "avail!"+ctx, t0())
		return one(st, slc(b, kInt(0), kInt(0)))

	// ---- time ----
	case "time.Now":
		n := x.freshSym(st, "now:"+ctx, t0())
		x.ev(st, "now", "", pos, n)
		return one(st, n)
	case "(time.Time).Add":
		return one(st, expr("time.Add", t0(), args...))
	case "time.Until", "time.Since":
		return pureX()
	case "time.NewTimer", "time.NewTicker", "time.AfterFunc":
		o := x.freshSym(st, strings.TrimPrefix(name, "time.New")+"!"+ctx, t0())
		x.ev(st, "newtimer", name, pos, o, arg(0))
		return one(st, o)
	case "time.After", "time.Tick":
		return one(st, x.freshSym(st, "time.After!"+ctx, t0()))
	case "(*time.Timer).Stop", "(*time.Timer).Reset":
		return one(st, x.freshSym(st, ctx+".b", tBool))
	case "(*time.Ticker).Stop", "(*time.Ticker).Reset":
		x.deref(st, args[0], pos)
		x.ev(st, "tickerstop", name, pos, args[0])
		return one(st, noVal)
	case "time.Sleep":
		x.emit(st, &Event{Kind: "sleep", Args: args, Pos: pos, Block: true})
		return one(st, noVal)

	// ---- context ----
	case "context.Context.Done":
		if strings.HasPrefix(args[0].Name, "ctx!background") {
			return one(st, vNil)
		}
		return one(st, expr("ctx.Done", t0(), args[0]))
	case "context.Context.Err":
		if strings.HasPrefix(args[0].Name, "ctx!background") {
			return one(st, vNil)
		}
		ch := expr("ctx.Done", t0(), args[0])
		e := sym("err!ctx:"+args[0].String(), t0())
		if st.facts[x.closedFact(ch)] {
			return one(st, e)
		}
		o := st.clone()
		o.facts[x.closedFact(ch)] = true
		return []Exit{{st, vNil}, {o, e}}
	case "context.Background", "context.TODO":
		return one(st, sym("ctx!background", t0()))
	case "context.WithTimeout", "context.WithCancel", "context.WithDeadline":
		return one(st, tuple(x.freshSym(st, "ctx!"+ctx, t0()), sym("ctx!cancel", sig.Results().At(1).Type())))

	// ---- sync ----
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		x.acquire(st, Held{lockName(args[0]), 'W', args[0]}, pos, true)
		return alive(st, noVal)
	case "(*sync.RWMutex).RLock":
		x.acquire(st, Held{lockName(args[0]), 'R', args[0]}, pos, true)
		return alive(st, noVal)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		x.release(st, lockName(args[0]), pos)
		return one(st, noVal)
	case "(*sync.RWMutex).RUnlock":
		x.release(st, lockName(args[0]), pos)
		return one(st, noVal)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		o := st.clone()
		mode := byte('W')
		if strings.Contains(name, "TryR") {
			mode = 'R'
		}
		x.acquire(st, Held{lockName(args[0]), mode, args[0]}, pos, false)
		return append(alive(st, kBool(true)), Exit{o, kBool(false)})
	case "(*sync.Once).Do":
		return x.onceDo(st, args[0], arg(1), pos, ctx)
	case "(*sync.WaitGroup).Wait":
		x.emit(st, &Event{Kind: "wait", Args: args, Pos: pos, Block: true})
		return one(st, noVal)
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		x.ev(st, "wg", name, pos, args...)
		return one(st, noVal)
	case "(*sync.WaitGroup).Go":
		x.ev(st, "wg", name, pos, args...)
		fn := "?"
		if arg(1).Kind == KClos {
			fn = arg(1).Fn.String()
		}
		x.emit(st, &Event{Kind: "go", Name: fn, Args: []*V{arg(1)}, Pos: pos})
		return one(st, noVal)
	case "(*sync.Pool).Get":
		v := x.freshSym(st, "pool!"+ctx, t0())
		x.ev(st, "poolget", lockName(args[0]), pos, v)
		return one(st, v)
	case "(*sync.Pool).Put":
		x.ev(st, "poolput", lockName(args[0]), pos, arg(1))
		return one(st, noVal)
	// ---- encodings ----
	case "(encoding/binary.bigEndian).Uint16":
		x.emitQuiet(st, &Event{Kind: "use", Args: []*V{arg(1)}, Pos: pos})
		return one(st, expr("be16", t0(), x.sliceAt(st, arg(1), 2)))
	case "(encoding/binary.bigEndian).Uint32":
		return one(st, expr("be32", t0(), x.sliceAt(st, arg(1), 4)))
	case "(encoding/binary.bigEndian).Uint64":
		return one(st, expr("be64", t0(), x.sliceAt(st, arg(1), 8)))
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		w := map[string]int64{"6": 2, "2": 4, "4": 8}[name[len(name)-1:]]
		b, v := arg(1), arg(2)
		x.emit(st, &Event{Kind: "index", Args: []*V{b, kInt(w - 1), vLen(st, b)}, Pos: pos})
		for i := int64(0); i < w; i++ {
			x.store0(st, x.elemAddr(st, b, kInt(i), types.Typ[types.Uint8]), expr(fmt.Sprintf("bebyte%d.%d", w*8, i), types.Typ[types.Uint8], v))
		}
		x.ev(st, "putbe", fmt.Sprint(w), pos, b, v)
		return one(st, noVal)
	case "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint64":
		w := map[string]int64{"6": 16, "2": 32, "4": 64}[name[len(name)-1:]]
		return one(st, cat(x.snapshot(st, arg(1)), expr(fmt.Sprintf("be%dbytes", w), nil, arg(2))))
	case "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		return one(st, expr(name, t0(), arg(1)))
	case "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		x.clobber(st, arg(1))
		return one(st, noVal)
	case "math/bits.RotateLeft32":
		return pureX()
	case "unicode/utf8.Valid", "unicode/utf8.ValidString", "bytes.Equal", "strings.EqualFold", "strings.Contains", "strings.HasPrefix", "slices.Contains", "slices.Index", "slices.Equal", "bytes.Compare":
		x.emitQuiet(st, &Event{Kind: "use", Args: args, Pos: pos})
		if strings.HasPrefix(name, "slices.") && name != "slices.Equal" {
			x.emitQuiet(st, &Event{Kind: "sliceread", Args: []*V{arg(0)}, Pos: pos})
		}
		if name == "slices.Contains" {
			if arg(0).Kind == KNil {
				return one(st, kBool(false))
			}
			if v := x.constSet(st, arg(0), arg(1)); v != nil {
				return one(st, v)
			}
		}
		return pureX()
	case "bytes.Clone", "slices.Clone":
		if arg(0).Kind == KNil {
			return one(st, vNil)
		}
		return one(st, expr("clone", t0(), x.snapshot(st, arg(0))))
	case "maps.Clone":
		x.emitQuiet(st, &Event{Kind: "maprange", Args: []*V{arg(0)}, Pos: pos})
		c := x.freshSym(st, "clone!"+ctx, t0())
		x.ev(st, "mapclone", "", pos, arg(0), c)
		return one(st, c)
	case "maps.Copy":
		x.emitQuiet(st, &Event{Kind: "maprange", Args: []*V{arg(1)}, Pos: pos})
		x.emit(st, &Event{Kind: "mapset", Args: []*V{arg(0), vNil, vNil}, Pos: pos})
		st.heap[expr("dirty", nil, arg(0))] = kBool(true)
		return one(st, noVal)
	case "strings.SplitSeq", "strings.FieldsSeq":
		return one(st, expr("strings.seq", t0(), args...))
	case "strings.Split", "strings.Fields", "strings.SplitN":
		return one(st, expr("strings.seq", t0(), args...))
	case "crypto/sha1.Sum":
		return one(st, expr("sha1", t0(), arg(0)))
	case "crypto/sha1.New":
		h := x.freshSym(st, "sha1!"+ctx, t0())
		st.heap[expr("hashed", nil, h)] = kStr("")
		return one(st, h)
	case "io.Writer.Write", "hash.Hash.Write", "io.WriteString", "io.StringWriter.WriteString":
		if k := expr("hashed", nil, arg(0)); st.heap[k] != nil {
			a := arg(1)
			if c := x.snapshot(st, a); c != nil {
				a = c
			}
			st.heap[k] = cat(st.heap[k], a)
			return one(st, tuple(vLen(st, a), vNil))
		}
	case "hash.Hash.Sum":
		if k := expr("hashed", nil, arg(0)); st.heap[k] != nil {
			return one(st, cat(arg(1), expr("sha1", nil, st.heap[k])))
		}
	case "(*encoding/base64.Encoding).EncodeToString":
		a := arg(1)
		if a.Kind == KSlice {
			if v, ok := st.heap[a.A[0]]; ok {
				a = v
			}
		}
		return one(st, expr("base64", t0(), a))
	case "(*encoding/base64.Encoding).DecodeString":
		d := expr("unbase64", sig.Results().At(0).Type(), arg(1))
		return okErr(x, st, ctx, func(s *State, e *V) *V {
			k := "unbase64.ok"
			if e != vNil {
				k = "unbase64.fail"
			}
			x.ev(s, k, "", pos, arg(1), d)
			return tuple(d, e)
		})
	case "crypto/rand.Read":
		x.clobber(st, arg(0))
		return okErr(x, st, ctx, func(s *State, e *V) *V { return tuple(vLen(s, arg(0)), e) })

	// ---- json ----
	case "encoding/json.NewEncoder":
		return one(st, expr("json.enc", t0(), arg(0)))
	case "(*encoding/json.Encoder).Encode":
		return x.jsonEncode(st, args[0], pos, ctx)
	case "encoding/json.NewDecoder":
		return one(st, expr("json.dec", t0(), arg(0)))
	case "(*encoding/json.Decoder).Decode":
		return x.jsonDecode(st, args[0], pos, ctx)
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		v := x.freshSym(st, "json!"+ctx, t0())
		return okErr(x, st, ctx, func(s *State, e *V) *V {
			if e != vNil {
				return tuple(vNil, e)
			}
			return tuple(v, e)
		})
	case "encoding/json.Unmarshal", "encoding/json.Valid":
		return x.freshResults(st, sig, ctx, false)

	// ---- io ----
	case "io.ReadAll", "io.Copy":
		r := arg(0)
		if name == "io.Copy" {
			r = arg(1)
		}
		return x.readAll(st, r, pos, ctx, name == "io.Copy")
	case "io.ReadAtLeast":
		return x.freshResults(st, sig, ctx, false)

	// ---- http ----
	case "(net/http.Header).Get":
		return one(st, expr("hdr", tStr, arg(1)))
	case "(net/http.Header).Values":
		return one(st, expr("strings.seq", t0(), expr("hdr", tStr, arg(1))))
	case "net/http.Error":
		x.ev(st, "httperror", "", pos, args...)
		return one(st, noVal)
	case "net/http.NewResponseController":
		return one(st, sym("httprc!", t0()))
	case "(*net/http.ResponseController).Hijack", "net/http.Hijacker.Hijack":
		c := x.freshSym(st, "hijack!"+ctx, sig.Results().At(0).Type())
		b := x.freshSym(st, "hijackrw!"+ctx, sig.Results().At(1).Type())
		return okErr(x, st, ctx, func(s *State, e *V) *V {
			if e == vNil {
				x.ev(s, "hijack", "ok", pos, c)
				return tuple(c, b, e)
			}
			x.ev(s, "hijack", "fail", pos)
			return tuple(vNil, vNil, e)
		})

	// ---- limiter ----
	case "golang.org/x/time/rate.NewLimiter":
		l := x.freshSym(st, "limiter!"+ctx, t0())
		x.ev(st, "newlimiter", "", pos, l, arg(0), arg(1))
		return one(st, l)
	case "(*golang.org/x/time/rate.Limiter).Allow", "(*golang.org/x/time/rate.Limiter).AllowN":
		s := x.freshSym(st, ctx+".ok", tBool)
		x.ev(st, "token", name, pos, append(append([]*V(nil), args...), s)...)
		return one(st, s)
	case "(*golang.org/x/time/rate.Limiter).Wait", "(*golang.org/x/time/rate.Limiter).WaitN":
		x.emit(st, &Event{Kind: "wait", Args: args, Pos: pos, Block: true})
		return x.freshResults(st, sig, ctx, false)

	// ---- errors and formatting ----
	case "errors.New", "fmt.Errorf":
		return one(st, x.freshSym(st, "err!new:"+ctx, t0()))
	case "errors.As":
		// splits: found / not found
		is := x.freshSym(st, ctx+".as", tBool)
		x.ev(st, "errorsas", "", pos, arg(0), arg(1), is)
		return one(st, is)
	case "errors.Is":
		if arg(0).Kind == KNil {
			return one(st, kBool(arg(1).Kind == KNil))
		}
		if isGlobErr(arg(0)) && isGlobErr(arg(1)) {
			return one(st, kBool(arg(0) == arg(1)))
		}
		return one(st, expr("errors.Is", tBool, args...))
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "log.Println", "log.Printf", "log.Print":
		return x.freshResultsNoFork(st, sig, ctx)
	}
	pkg := name
	if i := strings.LastIndexByte(pkg, '/'); i >= 0 {
		pkg = pkg[i+1:]
	}
	pkg = strings.TrimLeft(pkg, "(*")
	if i := strings.IndexByte(pkg, '.'); i >= 0 {
		pkg = pkg[:i]
	}
	switch pkg {
	case "strings", "strconv", "unicode", "utf8", "math", "bits", "fmt", "slices", "maps", "bytes", "sort", "time", "reflect", "cmp", "errors":
		if sig.Results().Len() == 1 && !isErrorType(t0()) {
			return pureX()
		}
	}
	if x.unknown == nil {
		x.unknown = map[string]bool{}
	}
	x.unknown[name] = true
	x.emit(st, &Event{Kind: "external", Name: name, Args: args, Pos: pos})
	return x.freshResults(st, sig, ctx, false)
}

// atomicOp recognises the operations of sync/atomic, as methods and functions.
func atomicOp(name string, sig *types.Signature) (op string, isBool, ok bool) {
	if strings.HasPrefix(name, "(*sync/atomic.") {
		op = name[strings.LastIndexByte(name, '.')+1:]
		isBool = strings.HasPrefix(name, "(*sync/atomic.Bool)")
	} else if strings.HasPrefix(name, "sync/atomic.") {
		op = strings.TrimPrefix(name, "sync/atomic.")
		for _, o := range []string{"Load", "Store", "Swap", "CompareAndSwap", "Add"} {
			if strings.HasPrefix(op, o) {
				op = o
			}
		}
	} else {
		return "", false, false
	}
	switch op {
	case "Load", "Store", "Swap", "CompareAndSwap", "Add":
		return op, isBool, true
	}
	return "", false, false
}

func (x *Exec) atomic(st *State, op string, isBool bool, args []*V, t types.Type, pos token.Pos, ctx string) []Exit {
	arg := func(i int) *V {
		if i < len(args) {
			return args[i]
		}
		return vNil
	}
	ln := lockName(args[0])
	switch op {
	case "Load":
		s := x.freshSym(st, ctx+".v", t)
		x.ev(st, "aload", ln, pos, args[0], s)
		return one(st, s)
	case "Store":
		x.ev(st, "astore", ln, pos, args[0], arg(1))
		return one(st, noVal)
	case "Add":
		s := x.freshSym(st, ctx+".v", t)
		x.ev(st, "aadd", ln, pos, args[0], arg(1), s)
		return one(st, s)
	case "Swap":
		if !isBool {
			s := x.freshSym(st, ctx+".v", t)
			x.ev(st, "astore", ln, pos, args[0], arg(1))
			x.ev(st, "aswap", ln, pos, args[0], s, arg(1))
			return one(st, s)
		}
		o := st.clone()
		x.ev(st, "astore", ln, pos, args[0], arg(1))
		x.ev(o, "astore", ln, pos, args[0], arg(1))
		x.ev(st, "aswap", ln, pos, args[0], kBool(true), arg(1))
		x.ev(o, "aswap", ln, pos, args[0], kBool(false), arg(1))
		return []Exit{{st, kBool(true)}, {o, kBool(false)}}
	}
	o := st.clone()
	x.ev(st, "acas", ln, pos, args[0], arg(1), arg(2), kBool(true))
	x.ev(o, "acas", ln, pos, args[0], arg(1), arg(2), kBool(false))
	return []Exit{{st, kBool(true)}, {o, kBool(false)}}
}

func alive(st *State, v *V) []Exit {
	if st.dead {
		return nil
	}
	return one(st, v)
}

func unwrap(v *V) *V {
	for v.Kind == KIface {
		v = v.A[0]
	}
	return v
}

func (x *Exec) freshResultsNoFork(st *State, sig *types.Signature, ctx string) []Exit {
	n := sig.Results().Len()
	if n == 0 {
		return one(st, noVal)
	}
	vals := make([]*V, n)
	for i := range vals {
		vals[i] = x.freshSym(st, fmt.Sprintf("%s.%d", ctx, i), sig.Results().At(i).Type())
	}
	if n == 1 {
		return one(st, vals[0])
	}
	return one(st, tuple(vals...))
}

// sliceAt canonicalises the slice a fixed-width integer is read from.
func (x *Exec) sliceAt(st *State, b *V, w int64) *V {
	if b.Kind == KSlice {
		return slc(b.A[0], b.A[1], vAdd(b.A[1], kInt(w)))
	}
	return slc(b, kInt(0), kInt(w))
}

// clobber forgets the contents of a slice.
func (x *Exec) clobber(st *State, p *V) {
	base, lo, hi := p, kInt(0), vLen(st, p)
	if p.Kind == KSlice {
		base, lo, hi = p.A[0], p.A[1], p.A[2]
	}
	if base.Kind == KNil {
		return
	}
	for k := range st.heap {
		var kl, kh *V
		if k.Kind == KElem && k.A[0] == base {
			kl, kh = k.A[1], vAdd(k.A[1], kInt(1))
		} else if k.Kind == KExpr && k.Name == "content" && k.A[0] == base {
			kl, kh = k.A[1], k.A[2]
		} else {
			continue
		}
		if st.rangeOf(vSub(kh, lo)).hi <= 0 || st.rangeOf(vSub(kl, hi)).lo >= 0 {
			continue
		}
		delete(st.heap, k)
	}
	st.heap[expr("dirty", nil, rootOf(base))] = kBool(true)
}

// constSet turns membership in a constant set into a predicate on the value.
func (x *Exec) constSet(st *State, s, v *V) *V {
	if s.Kind != KSym {
		return nil
	}
	n := strings.TrimSuffix(strings.TrimPrefix(s.Name, "global:"), "@0")
	set, ok := x.p.ConstSets[n]
	if !ok || !strings.HasPrefix(s.Name, "global:") {
		return nil
	}
	return inSet(set, v)
}

var setByName = map[string]map[int64]bool{}

func inSet(set []int64, v *V) *V {
	name := "in:" + strings.ReplaceAll(fmt.Sprint(set), " ", ",")
	m := map[int64]bool{}
	for _, e := range set {
		m[e] = true
	}
	setByName[name] = m
	if c, ok := v.isInt(); ok {
		return kBool(m[c])
	}
	return expr(name, tBool, v)
}

func (x *Exec) peek(st *State, r, n *V, pos token.Pos, ctx string) []Exit {
	// a negative count is refused by bufio
	ren := len(st.ren)
	b := x.freshSym(st, "in!"+ctx, types.NewSlice(types.Typ[types.Uint8]))
	n = st.since(ren, n)
	st.unbuffer()
	o := st.clone()
	st.f["buffered"] = 1
	st.v["bufn"] = n
	x.ev(st, "peek", "ok", pos, n, b)
	ok := slc(b, kInt(0), n)
	x.ev(o, "peek", "fail", pos, n, b)
	e := x.freshErr(o, ctx)
	m := x.freshSym(o, ctx+".m", tInt)
	o.constrain(m, ival{0, inf})
	o.assume(vLt(m, n), true)
	return []Exit{{st, tuple(ok, vNil)}, {o, tuple(slc(b, kInt(0), m), e)}}
}

// unbuffer forgets what was peeked at.
func (st *State) unbuffer() {
	delete(st.f, "buffered")
	delete(st.v, "bufn")
}

func (x *Exec) bufRead(st *State, p *V, pos token.Pos, ctx string) []Exit {
	ren := len(st.ren)
	n := x.freshSym(st, "rn:"+ctx, tInt)
	p = st.since(ren, p)
	lp := vLen(st, p)
	st.constrain(n, ival{0, inf})
	st.assume(vLt(lp, n), false)
	if lp.Kind != KConst {
		// what bounds the room bounds what was read
		var keys []*V
		for f, r := range st.rng {
			if f.Kind == KLin && (r.hi <= 0 || r.lo >= 0) {
				keys = append(keys, f)
			}
		}
		for _, f := range keys {
			r := st.rng[f]
			if w := vSub(lp, f); r.hi <= 0 && w.Kind == KSym {
				st.constrain(vSub(n, w), ival{-inf, r.hi})
			} else if w := vAdd(lp, f); r.lo >= 0 && w.Kind == KSym {
				st.constrain(vSub(n, w), ival{-inf, -r.lo})
			}
		}
	}
	x.clobber(st, p)
	eof := st.clone()
	bad := st.clone()
	x.ev(st, "bufread", "ok", pos, p, n)
	eof.constrain(n, ival{0, 0})
	x.ev(eof, "bufread", "eof", pos, p, kInt(0))
	x.ev(bad, "bufread", "fail", pos, p, n)
	return []Exit{
		{st, tuple(n, vNil)},
		{eof, tuple(kInt(0), sym("global!io.EOF", types.Universe.Lookup("error").Type()))},
		{bad, tuple(n, x.freshErr(bad, ctx))},
	}
}

// onceDo models sync.Once: the first caller runs f, others wait until it is done.
func (x *Exec) onceDo(st *State, once, f *V, pos token.Pos, ctx string) []Exit {
	name := "once:" + lockName(once)
	key := expr("once", tInt, once)
	if st.isHeld(name) {
		x.emit(st, &Event{Kind: "lock", Name: name, Args: []*V{once}, Pos: pos, N: 'O', Block: true})
		st.dead = true
		return nil
	}
	var out []Exit
	cur, known := st.heap[key]
	if known && cur == kInt(1) {
		return one(st, noVal)
	}
	isFresh := isNewObj(rootOf(once)) && !strings.HasSuffix(rootOf(once).Name, "'")
	if !isFresh {
		o := st.clone()
		x.emit(o, &Event{Kind: "lock", Name: name, Args: []*V{once}, Pos: pos, N: 'O', Block: true})
		x.emit(o, &Event{Kind: "onceskip", Name: name, Args: []*V{once}, Pos: pos})
		o.heap[key] = kInt(1)
		if f.Kind == KClos {
			for _, ref := range x.closedBy(body(f.Fn), map[*ssa.Function]bool{}) {
				x.markClosed(o, ref)
			}
		}
		if !o.dead {
			out = append(out, Exit{o, noVal})
		}
	}
	x.emit(st, &Event{Kind: "lock", Name: name, Args: []*V{once}, Pos: pos, N: 'O', Block: true})
	if st.dead {
		return out
	}
	st.held = append(append([]Held(nil), st.held...), Held{name, 'O', once})
	x.emit(st, &Event{Kind: "oncerun", Name: name, Args: []*V{once}, Pos: pos})
	var es []Exit
	if f.Kind == KClos {
		es = x.callFn(st, f.Fn, f.A, nil, pos, ctx)
	} else {
		es = x.callDyn(st, f, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, pos, ctx)
	}
	for _, e := range es {
		x.emit(e.st, &Event{Kind: "oncedone", Name: name, Args: []*V{once}, Pos: pos})
		x.release(e.st, name, pos)
		e.st.heap[key] = kInt(1)
		if !e.st.dead {
			out = append(out, Exit{e.st, noVal})
		}
	}
	return out
}

// closedBy lists the channel fields fn (and what it calls in the library) closes.
func (x *Exec) closedBy(fn *ssa.Function, seen map[*ssa.Function]bool) []string {
	if seen[fn] || fn.Blocks == nil {
		return nil
	}
	seen[fn] = true
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
				if r := fieldRef(c.Common().Args[0]); r != "" {
					out = append(out, r)
				}
			}
			if s := c.Common().StaticCallee(); s != nil && x.p.isLibFn(body(s)) {
				out = append(out, x.closedBy(body(s), seen)...)
			}
		}
	}
	return out
}

func (x *Exec) markClosed(st *State, ref string) {
	i := strings.IndexByte(ref, '.')
	s, f := ref[:i], ref[i+1:]
	t := x.p.structType(s)
	su := structUnder(t)
	if su == nil || !x.p.Singleton[s] {
		return
	}
	for k := 0; k < su.NumFields(); k++ {
		if su.Field(k).Name() == f {
			a := fld(obj(s, t), k, su.Field(k).Type())
			if e, ok := x.p.EmbedOwner[s]; ok {
				a = fld(fld(obj(e.owner, x.p.structType(e.owner)), e.idx, t), k, su.Field(k).Type())
			}
			ch := x.load0(st, a, su.Field(k).Type())
			st.facts[x.closedFact(ch)] = true
		}
	}
}

// ---- calls of library methods by library-external code ----

func (x *Exec) callIfaceMethod(st *State, recv *V, method string, args []*V, pos token.Pos, ctx string) ([]Exit, bool) {
	if recv.Kind == KIface {
		n := namedOf(recv.Typ)
		if n != nil && isLibPkg(n.Obj().Pkg()) {
			for i := 0; i < n.NumMethods(); i++ {
				if n.Method(i).Name() == method {
					fn := x.p.SSA.FuncValue(n.Method(i))
					return x.callFn(st, fn, nil, append([]*V{recv.A[0]}, args...), pos, ctx), true
				}
			}
		}
	}
	return nil, false
}

func (x *Exec) jsonEncode(st *State, enc *V, pos token.Pos, ctx string) []Exit {
	// encoding fails before anything is written
	o := st.clone()
	x.ev(o, "encode.fail", "", pos)
	out := []Exit{{o, x.freshErr(o, ctx)}}
	w := vNil
	if enc.Kind == KExpr && enc.Name == "json.enc" {
		w = enc.A[0]
	}
	data := x.freshSym(st, "json!"+ctx, types.NewSlice(types.Typ[types.Uint8]))
	es, ok := x.callIfaceMethod(st, w, "Write", []*V{data}, pos, ctx+"/w")
	if !ok {
		return append(out, okErr(x, st, ctx+"/w", func(s *State, e *V) *V { return e })...)
	}
	for _, e := range es {
		err := e.ret
		if err.Kind == KTuple {
			err = err.A[len(err.A)-1]
		}
		out = append(out, Exit{e.st, err})
	}
	return out
}

// readLoop calls r.Read until it reports an error; visit decides what a result
// means: the exits it returns are final, more tells whether reading may go on.
func (x *Exec) readLoop(st *State, r *V, pos token.Pos, ctx string, visit func(s *State, n, err *V) (final []Exit, more bool)) ([]Exit, bool) {
	ok := true
	out := x.loop(st, []*V{r}, ctx+"/loop", func(it *item, v []*V) (final []Exit, more []*State) {
		s := it.st
		p := x.freshSym(s, "rbuf!"+ctx, types.NewSlice(types.Typ[types.Uint8]))
		s.constrain(vLen(s, p), ival{1, inf})
		it.sync()
		es, k := x.callIfaceMethod(s, it.env[loopKey(0)], "Read", []*V{p}, pos, ctx+"/r")
		if !k {
			ok = false
			return nil, nil
		}
		for _, e := range es {
			f, m := visit(e.st, e.ret.A[0], e.ret.A[1])
			final = append(final, f...)
			if m {
				more = append(more, e.st)
			}
		}
		return
	})
	return out, ok
}

func (x *Exec) readAll(st *State, r *V, pos token.Pos, ctx string, isCopy bool) []Exit {
	data := sym("readall!"+ctx, types.NewSlice(types.Typ[types.Uint8]))
	ret := func(s *State, err *V) Exit {
		x.ev(s, "readall", "", pos, r, err)
		if isCopy {
			return Exit{s, tuple(x.freshSym(s, ctx+".n", types.Typ[types.Int64]), err)}
		}
		return Exit{s, tuple(data, err)}
	}
	out, ok := x.readLoop(st, r, pos, ctx, func(s *State, n, err *V) ([]Exit, bool) {
		if err.Kind == KNil {
			return nil, true
		}
		if err.Kind == KSym && err.Name == "global!io.EOF" {
			return []Exit{ret(s, vNil)}, false
		}
		return []Exit{ret(s, err)}, false
	})
	if !ok {
		return okErr(x, st, ctx, func(s *State, e *V) *V { return ret(s, e).ret })
	}
	return out
}

func (x *Exec) jsonDecode(st *State, dec *V, pos token.Pos, ctx string) []Exit {
	r := vNil
	if dec.Kind == KExpr && dec.Name == "json.dec" {
		r = dec.A[0]
	}
	out, ok := x.readLoop(st, r, pos, ctx, func(s *State, n, err *V) ([]Exit, bool) {
		if err.Kind == KNil {
			a, b := s.clone(), s.clone()
			return []Exit{{a, vNil}, {b, x.freshErr(b, ctx+"/syntax")}}, true
		}
		if err.Kind == KSym && err.Name == "global!io.EOF" {
			a := s.clone()
			return []Exit{{s, vNil}, {a, sym("global!io.ErrUnexpectedEOF", err.Typ)}}, false
		}
		return []Exit{{s, err}}, false
	})
	if !ok {
		return okErr(x, st, ctx, func(s *State, e *V) *V { return e })
	}
	return out
}
