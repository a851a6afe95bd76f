package main

// functions with unusual names, files and lines

//go:noinline
func long(c *call) {
	aFunctionWithAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongName(c)
}

//go:noinline
func aFunctionWithAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongNameAsGeneratedCodeMayHaveAVeryLongName(c *call) {
	c.next()
}

//go:noinline
func ünïcödé(c *call) {
	func() { func() { func() { c.next() }() }() }()
}

//go:noinline
func lines(c *call) {
//line /a/100%d of %s/file name with blanks ü.y:1000000
	c.next()
}

//go:noinline
func lines2(c *call) {
//line /aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb/cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc/dddddddddddddddddddddddddddddddddddddddddddddddddddddddddddd/x.gp:7
	c.next()
}
