#include "textflag.h"

// func hwCPUID(leaf, sub uint32) (a, b, c, d uint32)
TEXT ·hwCPUID(SB), NOSPLIT, $0-24
	MOVL leaf+0(FP), AX
	MOVL sub+4(FP), CX
	CPUID
	MOVL AX, a+8(FP)
	MOVL BX, b+12(FP)
	MOVL CX, c+16(FP)
	MOVL DX, d+20(FP)
	RET
