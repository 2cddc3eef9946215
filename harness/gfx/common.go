// Package gfx checks the monochrome graphics and the tile renderer.
package gfx

import "unicode"

var asciiTable = unicode.RangeTable{R16: []unicode.Range16{{Lo: 32, Hi: 126, Stride: 1}}}
