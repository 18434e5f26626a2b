package main

// seg index limit 9 instead of 65535
//
//verif:own
//verif:prop C11
//verif:bound limit of segs shortened to 9 (7 signed)
//verif:splitptr
//verif:const UNSIGNED_MAXSEGINDEX uint16(9)
//verif:const VANILLA_MAXSEGINDEX uint16(7)
//verif:reach emptied kept switched
func H_FmtLimitSegs() { vLimits(9, 1<<15) }
