//go:build verifshim_tags

package main

import "github.com/mewmew/typast/typst/syntax"

func init() { tagsShim = syntax.VerifTags }
