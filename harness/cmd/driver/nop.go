package main

import (
	"context"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// nopBroker does nothing.
type nopBroker struct{}

func (nopBroker) Publish(context.Context, string, extensions.BrokerMessage) error { return nil }
func (nopBroker) Subscribe(context.Context, string) (extensions.BrokerChannelSubscription, error) {
	return extensions.BrokerChannelSubscription{}, nil
}
