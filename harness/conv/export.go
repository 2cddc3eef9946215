package conv

import (
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
)

// Generators used by the other packages.

// GenInbound makes a message to a panel.
func GenInbound(t *rapid.T) *rwp.InboundMessage { return genInbound(t) }

// GenOutbound makes a message of a panel.
func GenOutbound(t *rapid.T) *rwp.OutboundMessage { return genOutbound(t) }

// GenOutLine makes an ASCII line of a panel.
func GenOutLine(t *rapid.T, bad bool) string { return string(genOutLine(t, bad).L) }
