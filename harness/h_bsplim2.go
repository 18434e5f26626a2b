package main

// 3 subsectors instead of 32767
//
//verif:own
//verif:prop C11
//verif:bound limit of subsectors shortened to 4
//verif:splitptr
//verif:const SSECTOR_NORMAL_MASK uint32(4)
//verif:reach emptied kept switched
func H_FmtLimitSsectors() {
	vMask16 = 4
	vLimits(65535, 3)
}
