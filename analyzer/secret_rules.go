package main

// P28: private keys leave a component only as signatures.

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var secretTypes = map[string]bool{"crypto/rsa.PrivateKey": true, "crypto/ecdsa.PrivateKey": true, "crypto/ed25519.PrivateKey": true,
	"github.com/herumi/bls-go-binary/bls.SecretKey": true}

var secretName = regexp.MustCompile(`(?i)(secret|private)_?key`)

func isSecretType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && secretTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

// holdsSecret: a value of type t, printed (mode fmt) or serialised (mode json), can show a private key
func holdsSecret(t types.Type, mode string, depth int, seen map[types.Type]bool) bool {
	if t == nil || seen[t] || depth > 12 {
		return false
	}
	if isSecretType(t) {
		return true
	}
	seen[t] = true
	defer delete(seen, t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if mode == "json" || depth == 0 {
			return holdsSecret(u.Elem(), mode, depth+1, seen)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if mode == "json" && (!f.Exported() || strings.Contains(u.Tag(i), `json:"-"`)) {
				continue
			}
			if isSecretField(f) || holdsSecret(f.Type(), mode, depth+1, seen) {
				return true
			}
		}
	case *types.Map:
		return holdsSecret(u.Elem(), mode, depth+1, seen) || holdsSecret(u.Key(), mode, depth+1, seen)
	case *types.Slice:
		return holdsSecret(u.Elem(), mode, depth+1, seen)
	case *types.Array:
		return holdsSecret(u.Elem(), mode, depth+1, seen)
	}
	return false
}

func isSecretField(f *types.Var) bool {
	if !secretName.MatchString(f.Name()) {
		return false
	}
	switch u := f.Type().Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Basic:
		return u.Kind() == types.String
	}
	return false
}

var signers = regexp.MustCompile(`^crypto/rsa\.(Sign|Verify)|\.(Sign|SignPKCS1v15|SignPSS|Public|GetPublicKey|Verify|VerifyPOI|FragmentVerify|ThresholdVerify|ThresholdSign|SignByte|SignHash|GetPop)$|^crypto/x509\.(CreateCertificate|CreateRevocationList|CreateCertificateRequest)`)

// showsSecret: the value t can show a private key other than through a signature
func showsSecret(t *Term, mode string, depth int, memo map[*Term]bool) bool {
	if t == nil {
		return false
	}
	if memo[t] {
		return false
	}
	memo[t] = true
	any := func(ts []*Term, mode string, d int) bool {
		for _, a := range ts {
			if showsSecret(a, mode, d, memo) {
				return true
			}
		}
		return false
	}
	byType := func() bool { return t.T != nil && holdsSecret(t.T, mode, depth, map[types.Type]bool{}) }
	switch t.Op {
	case OConst, OZero, OErr, OFunc, OClos, OLen, ONot, OTOk, OLookupOk, OAddr:
		return false
	case OCall:
		if signers.MatchString(t.S) {
			return false
		}
		if t.T != nil && t.T.String() == "error" && !strings.HasSuffix(t.S, "fmt.Errorf") && !strings.HasSuffix(t.S, "errors.New") {
			return false
		}
		m := "fmt"
		if strings.Contains(t.S, "json.") || strings.Contains(t.S, "gob.") || strings.Contains(t.S, "xml.") {
			m = "json"
		}
		return byType() || any(t.A, m, 0)
	case OExtract:
		if t.T != nil && t.T.String() == "error" {
			return false
		}
		if t.A[0].Op == OCall {
			return byType() || showsSecret(t.A[0], mode, depth, memo)
		}
		return byType()
	case OOut:
		return byType() || any(t.A[0].A, "fmt", 0) && !signers.MatchString(t.A[0].S)
	case OField:
		x := t.A[0]
		if x.T != nil {
			if isSecretType(x.T) {
				return fieldName(x.T, t.N) != "PublicKey"
			}
			if st := structOf(x.T); st != nil && t.N < st.NumFields() && isSecretField(st.Field(t.N)) {
				return true
			}
		}
		return byType() || derived(t, mode, memo)
	case OIndex, ODeref:
		return byType() || derived(t, mode, memo)
	case OSym, OTok, OLookup, OMapKey, OMapVal:
		return byType()
	case OBin:
		switch t.S {
		case "==", "<", "&&", "||":
			return false
		}
		return any(t.A, mode, depth)
	case ORec:
		st := structOf(t.T)
		for i, a := range t.A {
			if st != nil && i < st.NumFields() {
				f := st.Field(i)
				if mode == "json" && (!f.Exported() || strings.Contains(st.Tag(i), `json:"-"`)) {
					continue
				}
				if isSecretField(f) && a.Op != OZero && a != tNil && !emptyBytes(a) {
					return true
				}
			}
			if showsSecret(a, mode, depth+1, memo) {
				return true
			}
		}
		return false
	case ORef:
		if mode == "fmt" && depth > 0 {
			return false
		}
		return any(t.A, mode, depth+1)
	}
	return any(t.A, mode, depth)
}

func emptyBytes(t *Term) bool {
	n, ok := mkLen(t).intVal()
	return ok && n == 0
}

// derived: t is part of the result of a call that shows a secret
func derived(t *Term, mode string, memo map[*Term]bool) bool {
	for {
		switch t.Op {
		case OField, OIndex, ODeref, OExtract, OConv, OSlice, OTAssert, OIface:
			if t.A[0].T != nil && isSecretType(t.A[0].T) {
				return fieldName(t.A[0].T, t.N) != "PublicKey"
			}
			t = t.A[0]
			continue
		case OCall:
			return showsSecret(t, mode, 0, memo)
		case OOut:
			return showsSecret(t, mode, 0, memo)
		}
		return false
	}
}

var outputs = regexp.MustCompile(`^fmt\.(Print|Fprint)|^log\.|^\(\*log\.Logger\)\.|^os\.WriteFile|^io/ioutil\.WriteFile|^\(\*os\.File\)\.(Write|WriteString)|^io\.WriteString|^io\.Copy|ResponseWriter\)\.Write|^net/http\.Error$|\(\*encoding/(json|gob|xml)\.Encoder\)\.Encode|^net/http\.(Post|PostForm|Get|NewRequest)|^\(\*net/http\.Client\)|^\(io\.(Writer|StringWriter)\)|\(\*bufio\.Writer\)\.Write|\(net/http\.Header\)\.(Set|Add)|^encoding/pem\.Encode|^\(\*text/template|^\(\*html/template|^os\.(Setenv)`)

var receiverFirst = regexp.MustCompile(`^\(|^fmt\.Fprint|^io\.(WriteString|Copy)|^net/http\.Error$|^encoding/pem\.Encode`)

func p28(c *C) {
	c.rules = append(c.rules, "taint: no value written to an HTTP request or response, to the console, a log or a file carries a private key (by type or by derivation), except what a signing primitive returned")
	c.assume = append(c.assume, "fmt prints pointers nested inside a value as addresses; encoding/json omits unexported fields", "the outputs of signing primitives do not reveal the key")
	look := func(what string, op bool) func(e *Event) {
		return func(e *Event) {
			args, name := e.Snap, e.Name
			if op && keyWriter(c.in.stack) && fileOutput.MatchString(name) {
				return
			}
			switch e.Kind {
			case "call":
				if !outputs.MatchString(name) {
					return
				}
				if receiverFirst.MatchString(name) && len(args) > 0 {
					args = args[1:]
				}
			case "terminate":
				if args == nil {
					for _, a := range e.Args {
						args = append(args, c.in.snap(e.S, a))
					}
				}
			default:
				return
			}
			mode := "fmt"
			if strings.Contains(name, "Encoder).Encode") {
				mode = "json"
			}
			c.site("output", shortFn(e.Fn)+" "+name)
			c.oblig()
			for _, a := range args {
				// variadic arguments: the elements are printed at top level
				list := []*Term{a}
				if a != nil && (a.Op == OArr || a.Op == ORef && a.A[0].Op == OArr) && strings.Contains(typeName(a), "interface") {
					for a.Op == ORef {
						a = a.A[0]
					}
					list = a.A
				}
				for _, x := range list {
					if showsSecret(x, mode, 0, map[*Term]bool{}) {
						c.fail("private key", name, e.Instr, e.S, "%s: a private key can reach %s through %s", what, name, short(x))
					}
				}
			}
		}
	}
	for _, name := range []string{"gossiper", "monitor", "CA", "Logger"} {
		in := c.interp(look(name, false))
		c.serverRun(in, name)
	}
	done := map[*ssa.Function]bool{}
	for f := range c.fns {
		done[f] = true
	}
	// everything else the components export: initialisation, storage, client operations
	for _, pk := range []string{"gossiper", "monitor", "CA", "Logger", "client"} {
		for _, f := range c.p.allFuncsOf(c.p.pkgs[pk]) {
			if done[f] || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || len(f.Blocks) == 0 {
				continue
			}
			in := c.interp(look(shortFn(f), true))
			opaqueVerify(in)
			c.runOp(in, f, nil)
			for g := range c.fns {
				done[g] = true
			}
		}
	}
	for k := range c.viols {
		if strings.HasPrefix(k, "incomplete|recursion limit") {
			delete(c.viols, k)
			c.assume = append(c.assume, strings.TrimPrefix(k, "incomplete|")+": deeper calls behave as the first ones")
		}
	}
	c.need("output", 40)
}

var fileOutput = regexp.MustCompile(`os\.File|^os\.WriteFile|^io/ioutil\.WriteFile|^encoding/pem\.Encode`)

// keyWriter: inside a function whose very argument is a private key (one dedicated to storing it);
// such functions are not part of any server's run
func keyWriter(stack []*ssa.Function) bool {
	for _, f := range stack {
		for _, p := range f.Params {
			if isSecretType(derefType(p.Type())) {
				return true
			}
		}
	}
	return false
}

func typeName(t *Term) string {
	if t.T == nil {
		return ""
	}
	return t.T.String()
}

func init() { checks["P28"] = p28 }
