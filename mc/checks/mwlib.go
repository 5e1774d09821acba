package checks

import (
	"context"
	"net/http"
	"slices"
	"strings"

	"gofremc/wire"

	"github.com/ixtendio/gofre"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
)

// served is what one request through a mux led to.
type served struct {
	View   wire.View
	Rec    *wire.Rec
	Ran    int
	Errs   []error
	Panic  any
	HasPan bool
}

// rig is one mux with one handler at /p for every method, behind the given middlewares.
type rig struct {
	more  func(string) // registers a further method
	extra []string
	mux   *gofre.MuxHandler
	h     handler.Handler
	errs  []error
	ran   int
	shape int // index into shapes, applied to every request
}

var rigMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE"}

func newRig(mws ...middleware.Middleware) *rig {
	rg := &rig{}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { rg.errs = append(rg.errs, err) }})
	if err != nil {
		panic(err)
	}
	rg.mux = m
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		rg.ran++
		return rg.h(ctx, mc)
	}
	for _, me := range rigMethods {
		m.HandleRequest(me, "/p", h, mws...)
	}
	rg.more = func(me string) { m.HandleRequest(me, "/p", h, mws...) }
	return rg
}

func (rg *rig) serve(rec *wire.Rec, w http.ResponseWriter, rq *http.Request) (s served) {
	rg.errs, rg.ran = nil, 0
	shapes[rg.shape].f(rq)
	if me := strings.ToUpper(rq.Method); !slices.Contains(rigMethods, me) && slices.Contains(methodVocab, me) && !slices.Contains(rg.extra, me) {
		rg.extra = append(rg.extra, me)
		rg.more(me)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				s.Panic, s.HasPan = p, true
			}
		}()
		rg.mux.ServeHTTP(w, rq)
		rec.End()
	}()
	s.View, s.Rec, s.Ran, s.Errs = rec.View(), rec, rg.ran, rg.errs
	return s
}

// once builds a rig around a fresh response of the given description and serves one request.
func (rg *rig) respond(s RS, kind string, rq *http.Request) served {
	rg.h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		return s.build(), nil
	}
	rec := wire.New()
	return rg.serve(rec, rec.Writer(kind), rq)
}

type handlerT = handler.Handler

var errAccessDenied = gerrors.ErrAccessDenied
var errUnauthorized = gerrors.ErrUnauthorizedRequest
