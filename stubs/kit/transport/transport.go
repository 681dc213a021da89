// Package transport is go-kit's transport package.
package transport

import "context"

type ErrorHandler interface {
	Handle(ctx context.Context, err error)
}

type ErrorHandlerFunc func(ctx context.Context, err error)

func (f ErrorHandlerFunc) Handle(ctx context.Context, err error) { f(ctx, err) }

// Nop ignores errors, as the log handler with a nop logger does.
func Nop() ErrorHandler { return ErrorHandlerFunc(func(context.Context, error) {}) }
