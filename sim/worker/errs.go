package main

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/foomo/gotsrpc/v2"
	pkgerrors "github.com/pkg/errors"

	"gotsrpcsim/svc/core"
	twin "gotsrpcsim/svc/twin/core"
)

var (
	typScalarErr = reflect.TypeOf((*core.ScalarErr)(nil))
	typStructErr = reflect.TypeOf((*core.StructErr)(nil))
	typRichErr   = reflect.TypeOf((*core.RichErr)(nil))
	typCodeErr   = reflect.TypeOf(core.CodeErr(0))
	typedErrs    = map[reflect.Type]bool{typScalarErr: true, typStructErr: true, typRichErr: true, typCodeErr: true}

	errSentinel  = errors.New("sentinel failure")
	errOther     = errors.New("some other failure")
	errPkg       = pkgerrors.New("pkg sentinel failure")
	errBlank     = errors.New("")
	errColon     = errors.New("layer: deep: cause")
	errDecoyText = decoyErr{}
)

// decoyErr has the sentinel's text but another type.
type decoyErr struct{}

func (decoyErr) Error() string { return "sentinel failure" }

var errModes = []string{"std", "sentinel", "pkgsentinel", "wrapf", "pkgwrap", "withmessage", "withstack", "deep", "deeper", "struct", "value", "scalar", "gotsrpc", "wrapstruct", "colon", "wrapvalue", "midwrap", "transparent", "join", "joindeep", "multi", "empty", "wrapempty", "code", "wrapcode", "rich", "wraprich", "twin", "twinvalue", "stacks", "blank", "relay", "relaywrap", "relayjoin"}

func structErr(r *rng) *core.StructErr {
	e := &core.StructErr{Message: "struct error " + errText(r), Code: r.n(5000) - 1000}
	if r.p(60) {
		e.Labels = map[string]string{}
		for i := r.n(4); i > 0; i-- {
			e.Labels[genString(r)] = genString(r)
		}
	}
	for i := r.n(4); i > 0; i-- {
		e.Parts = append(e.Parts, genString(r))
	}
	return e
}

func richErr(r *rng) *core.RichErr {
	return genValue(r, typRichErr.Elem(), 3).Addr().Interface().(*core.RichErr)
}

// transport is the error as a caller of another service gets it.
func transport(err error, times int) error {
	for ; times > 0; times-- {
		var b []byte
		gotsrpc.NewMSGPackEncoderBytes(&b).MustEncode(gotsrpc.NewError(err))
		e := &gotsrpc.Error{}
		if derr := gotsrpc.NewMSGPackDecoderBytes(b).Decode(e); derr != nil {
			panic(derr)
		}
		err = e
	}
	return err
}

// makeErr builds the error a service returns, and what it is equivalent to: a
// service may pass on errors it got from another service.
func makeErr(mode string, r *rng) (sent, ref error) {
	if !strings.HasPrefix(mode, "relay") {
		sent = baseErr(mode, r)
		return sent, sent
	}
	base := errModes[r.n(len(errModes))]
	if strings.HasPrefix(base, "relay") || base == "gotsrpc" {
		base = "deep"
	}
	ref = baseErr(base, r)
	sent = transport(ref, r.between(1, 2))
	around := func(f func(error) error) { sent, ref = f(sent), f(ref) }
	s := genString(r)
	if r.p(12) {
		if c, ok := causeOf(sent); ok { // the innermost one only
			l := chain(ref)
			sent, ref = c, l[len(l)-1]
		}
	}
	switch mode {
	case "relaywrap":
		around(func(e error) error { return fmt.Errorf("asking %s: %w", s, e) })
		if r.p(50) {
			around(func(e error) error { return pkgerrors.Wrap(e, "in front") })
		}
		if r.p(25) {
			sent = transport(sent, 1)
		}
	case "relayjoin":
		around(func(e error) error { return errors.Join(errPkg, e) })
		if r.p(50) {
			around(func(e error) error { return fmt.Errorf("behind %q: %w", s, e) })
		}
	}
	return
}

// causeOf is errors.Cause of github.com/pkg/errors, and whether it ends.
func causeOf(err error) (error, bool) {
	for i := 0; i < 1000; i++ {
		c, ok := err.(interface{ Cause() error })
		if !ok {
			return err, true
		}
		err = c.Cause()
	}
	return err, false
}

// errText is some text of an error, now and then a very long one.
func errText(r *rng) string {
	s := genString(r)
	if r.p(3) {
		s += strings.Repeat(fmt.Sprintf(" %x", r.u64()), r.between(30, 1500))
	}
	return s
}

// baseErr builds an error of this process; the same draw gives the same error.
func baseErr(mode string, r *rng) error {
	switch mode {
	case "std":
		return errors.New("plain " + errText(r))
	case "sentinel":
		return errSentinel
	case "pkgsentinel":
		return errPkg
	case "colon":
		return pkgerrors.WithMessage(errColon, "outer: ctx")
	case "wrapf":
		return fmt.Errorf("while doing %s: %w", errText(r), errSentinel)
	case "pkgwrap":
		return pkgerrors.Wrap(errSentinel, "ctx "+errText(r))
	case "withmessage":
		return pkgerrors.WithMessage(errPkg, "msg "+errText(r))
	case "withstack":
		return pkgerrors.WithStack(errSentinel)
	case "deep":
		return pkgerrors.Wrap(fmt.Errorf("mid %d: %w", r.n(1000), pkgerrors.WithMessage(errSentinel, "low")), "top "+genString(r))
	case "deeper":
		var e error = structErr(r)
		n, joins := r.between(2, 6), 0
		if r.p(12) {
			n, joins = r.between(7, 150), r.n(20)
		}
		for i := n; i > 0; i-- {
			if r.p(joins) {
				e = errors.Join(errPkg, e)
			} else if r.p(50) {
				e = fmt.Errorf("level %d: %w", i, e)
			} else {
				e = pkgerrors.Wrapf(e, "lvl %d", i)
			}
		}
		return e
	case "struct":
		return structErr(r)
	case "wrapstruct":
		return fmt.Errorf("outside: %w", structErr(r))
	case "value":
		return core.ValueErr{Message: "value error " + errText(r), Detail: genString(r)}
	case "wrapvalue":
		return pkgerrors.Wrap(core.ValueErr{Message: "value error " + errText(r), Detail: genString(r)}, "around")
	case "scalar":
		s := core.ScalarErr("scalar error " + errText(r))
		return &s
	case "midwrap":
		return fmt.Errorf("tried (%w) %d times", errSentinel, 2+r.n(9))
	case "transparent":
		return core.Transparent{Inner: structErr(r)}
	case "join":
		return errors.Join(errSentinel, errPkg)
	case "joindeep":
		j := errors.Join(errors.New("first "+genString(r)), pkgerrors.Wrap(errSentinel, "in a join"), nil, fmt.Errorf("near: %w", structErr(r)))
		for i := r.n(3); i > 0; i-- {
			j = pkgerrors.Wrapf(j, "around %d", i)
		}
		return j
	case "multi":
		v := core.ValueErr{Message: "value error " + errText(r), Detail: genString(r)}
		return fmt.Errorf("both %w and %w", v, errors.Join(errPkg))
	case "empty":
		return core.EmptyErr{}
	case "wrapempty":
		return fmt.Errorf("%s: %w", genString(r), core.EmptyErr{})
	case "code":
		return core.CodeErr(r.n(3))
	case "wrapcode":
		return pkgerrors.Wrap(core.CodeErr(r.n(3)), "coded")
	case "rich":
		return richErr(r)
	case "wraprich":
		return fmt.Errorf("at %d: %w", r.n(100), richErr(r))
	case "twin":
		return pkgerrors.Wrap(&twin.StructErr{Message: "struct error " + errText(r), Code: r.n(100)}, "twin")
	case "twinvalue":
		e := error(twin.ValueErr{Message: "value error " + errText(r), Detail: genString(r)})
		if r.p(50) {
			e = fmt.Errorf("around: %w", errors.Join(errOther, e))
		}
		return e
	case "stacks":
		e := error(structErr(r))
		for i := r.between(2, 4); i > 0; i-- {
			if r.p(60) {
				e = pkgerrors.WithStack(e)
			} else {
				e = pkgerrors.Wrap(e, "stacked")
			}
		}
		return e
	case "blank":
		e := []error{errBlank, errSentinel, core.ValueErr{}, &core.StructErr{Code: r.n(9)}}[r.n(4)]
		for i := r.between(0, 3); i > 0; i-- {
			switch r.n(4) {
			case 0:
				e = pkgerrors.WithMessage(e, "")
			case 1:
				e = fmt.Errorf("%w", e)
			case 2:
				e = fmt.Errorf(": %w", e)
			default:
				e = pkgerrors.Wrap(e, genString(r))
			}
		}
		return e
	case "intmap":
		return &core.CountErr{Text: genString(r), Counts: map[int]string{r.n(100): genString(r)}}
	case "gotsrpc":
		return gotsrpc.NewError(pkgerrors.Wrap(errSentinel, "passed on"))
	}
	return nil
}

// typedErr is the value of a concrete error pointer return.
func typedErr(mode string, t reflect.Type, r *rng) any {
	if mode == "" || mode == "panic" {
		return reflect.Zero(t).Interface()
	}
	switch t {
	case typRichErr:
		return richErr(r)
	case typCodeErr:
		return core.CodeErr(r.n(3))
	case typScalarErr:
		s := core.ScalarErr("scalar " + genString(r))
		return &s
	}
	return structErr(r)
}

// tree lists all links of err, those of joined errors too.
func tree(err error) (l []error) {
	for _, e := range chain(err) {
		l = append(l, e)
		if j, ok := e.(interface{ Unwrap() []error }); ok {
			for _, x := range j.Unwrap() {
				l = append(l, tree(x)...)
			}
		}
	}
	return
}

// chain lists the links of err a client can ask for. The links
// github.com/pkg/errors adds only to carry a stack are left out.
func chain(err error) (l []error) {
	for err != nil {
		_, st := err.(interface{ StackTrace() pkgerrors.StackTrace })
		if !st || errors.Unwrap(err) == nil {
			l = append(l, err)
		}
		err = errors.Unwrap(err)
	}
	return
}

// checkErr compares the error a client got with the one the service returned.
func checkErr(sent, got error) string {
	if got == nil {
		return fmt.Sprintf("service failed with %q but the caller saw no error", clip(sent.Error()))
	}
	if got.Error() != sent.Error() {
		return fmt.Sprintf("text changed from %q to %q", clip(sent.Error()), clip(got.Error()))
	}
	for i, link := range tree(sent) {
		if _, ok := link.(*gotsrpc.Error); ok {
			if !errors.Is(got, errSentinel) {
				return "errors.Is no longer finds the cause of a passed-on error"
			}
			continue
		}
		if !errors.Is(got, link) {
			return fmt.Sprintf("errors.Is no longer finds link %d (%T %q)", i, link, clip(link.Error()))
		}
		switch l := link.(type) {
		case *core.StructErr:
			var x *core.StructErr
			if !errors.As(got, &x) || x == nil {
				return "errors.As no longer finds *StructErr"
			}
			if ok, at := eqv(reflect.ValueOf(*l), reflect.ValueOf(*x), true, ""); !ok {
				return "data of *StructErr changed at " + at
			}
		case core.ValueErr:
			var x core.ValueErr
			if !errors.As(got, &x) {
				return "errors.As no longer finds ValueErr"
			}
			if x != l {
				return fmt.Sprintf("data of ValueErr changed from %+v to %+v", l, x)
			}
		case *twin.StructErr:
			var x *twin.StructErr
			if !errors.As(got, &x) || x == nil {
				return "errors.As no longer finds the other package's *StructErr"
			}
			if x.Message != l.Message || x.Code != l.Code {
				return fmt.Sprintf("data of the other package's *StructErr changed from %+v to %+v", l, x)
			}
		case twin.ValueErr:
			var x twin.ValueErr
			if !errors.As(got, &x) {
				return "errors.As no longer finds the other package's ValueErr"
			}
			if x != l {
				return fmt.Sprintf("data of the other package's ValueErr changed from %+v to %+v", l, x)
			}
		case core.EmptyErr:
			var x core.EmptyErr
			if !errors.As(got, &x) {
				return "errors.As no longer finds EmptyErr"
			}
		case core.CodeErr:
			var x core.CodeErr
			if !errors.As(got, &x) {
				return "errors.As no longer finds CodeErr"
			}
			if x != l {
				return fmt.Sprintf("CodeErr changed from %d to %d", l, x)
			}
		case *core.RichErr:
			var x *core.RichErr
			if !errors.As(got, &x) || x == nil {
				return "errors.As no longer finds *RichErr"
			}
			if ok, at := eqv(reflect.ValueOf(*l), reflect.ValueOf(*x), true, ""); !ok {
				return "data of *RichErr changed at " + at
			}
		case *core.ScalarErr:
			var x *core.ScalarErr
			if !errors.As(got, &x) || x == nil {
				return "errors.As no longer finds *ScalarErr"
			}
			if *x != *l {
				return fmt.Sprintf("data of *ScalarErr changed from %q to %q", *l, *x)
			}
		}
	}
	// nothing may be found which was never there
	if !errors.Is(sent, errOther) && errors.Is(got, errOther) {
		return "errors.Is finds an unrelated error"
	}
	if errors.Is(got, errDecoyText) {
		return "errors.Is finds another type with the same text"
	}
	if !errors.Is(sent, errSentinel) && errors.Is(got, errSentinel) && !isGotsrpc(sent) {
		return "errors.Is finds a sentinel which is not in the chain"
	}
	var se *core.StructErr
	if !errors.As(sent, &se) && errors.As(got, &se) {
		return "errors.As finds a *StructErr which is not in the chain"
	}
	var ve core.ValueErr
	if !errors.As(sent, &ve) && errors.As(got, &ve) {
		return "errors.As finds a ValueErr which is not in the chain"
	}
	var pve *core.ValueErr
	if !errors.As(sent, &pve) && errors.As(got, &pve) {
		return "errors.As finds a *ValueErr where there is a ValueErr"
	}
	var ptv *twin.ValueErr
	if !errors.As(sent, &ptv) && errors.As(got, &ptv) {
		return "errors.As finds another package's *ValueErr where there is a ValueErr"
	}
	var ts *twin.StructErr
	if !errors.As(sent, &ts) && errors.As(got, &ts) {
		return "errors.As finds another package's *StructErr which is not in the chain"
	}
	var tv twin.ValueErr
	if !errors.As(sent, &tv) && errors.As(got, &tv) {
		return "errors.As finds another package's ValueErr which is not in the chain"
	}
	for _, link := range tree(sent) {
		var decoy error
		switch l := link.(type) {
		case core.ValueErr:
			decoy = twin.ValueErr{Message: l.Message, Detail: l.Detail}
		case twin.ValueErr:
			decoy = core.ValueErr{Message: l.Message, Detail: l.Detail}
		}
		if decoy != nil && !errors.Is(sent, decoy) && errors.Is(got, decoy) {
			return "errors.Is finds an error of a same named type of another package"
		}
	}
	// nor errors whose texts only resemble it
	texts := map[string]bool{}
	var plain []string
	for _, link := range tree(sent) {
		texts[link.Error()] = true
		if _, ok := link.(*gotsrpc.Error); ok {
			plain = nil // and what it has joined is not known here
			break
		}
		if reflect.TypeOf(link) == reflect.TypeOf(errSentinel) {
			plain = append(plain, link.Error())
		}
	}
	for _, t := range plain {
		for _, d := range []string{"", clipAt(t, len(t)/2), clipAt(t, len(t)-1), t + "s", strings.ToUpper(t), " " + t, t + "\n", strings.TrimSpace(t)} {
			if !texts[d] && errors.Is(got, errors.New(d)) {
				return fmt.Sprintf("errors.Is finds %q where there is %q", clip(d), clip(t))
			}
		}
	}
	// the causes come in the same order
	var want, links []string
	for _, e := range chain(sent) {
		want = append(want, e.Error())
	}
	for e := got; e != nil && len(links) < 1000; e = errors.Unwrap(e) {
		links = append(links, e.Error())
	}
	if stackedStacks(sent) {
		// stacks upon stacks may or may not stay as links without a text of their own
		want, links = slices.Compact(want), slices.Compact(links)
	}
	for n, text := range links {
		if n >= len(want) {
			return fmt.Sprintf("cause chain has more than %d links", len(want))
		}
		if text != want[n] {
			return fmt.Sprintf("cause %d reads %q, sent %q", n, clip(text), clip(want[n]))
		}
	}
	if root, ok := causeOf(got); !ok {
		return "errors.Cause never ends"
	} else if root == nil || root.Error() != want[len(want)-1] {
		return fmt.Sprintf("errors.Cause finds %v, the innermost error is %q", root, clip(want[len(want)-1]))
	}
	if len(links) != len(want) {
		return fmt.Sprintf("cause chain has %d links, sent %d", len(links), len(want))
	}
	return ""
}

// stackedStacks tells if a link which only adds a stack wraps another such link
func stackedStacks(err error) bool {
	isStack := func(e error) bool {
		_, ok := e.(interface {
			StackTrace() pkgerrors.StackTrace
		})
		return ok && errors.Unwrap(e) != nil
	}
	for e := err; e != nil; e = errors.Unwrap(e) {
		if isStack(e) && isStack(errors.Unwrap(e)) {
			return true
		}
	}
	return false
}

func clipAt(s string, n int) string {
	if n < 0 || n > len(s) {
		return ""
	}
	return s[:n]
}

func isGotsrpc(err error) bool {
	_, ok := err.(*gotsrpc.Error)
	return ok
}
