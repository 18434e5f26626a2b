package main

// seg index limits 16 (unsigned) and 13 (signed) instead of 65535 and 32767
//
//verif:own
//verif:prop C20
//verif:bound limits of segs shortened to 16 (13 signed), 700 drawn levels of 4x3 cells as in H_MultiTree, formats v, V and vanilla or deep, with and without option ableist
//verif:splitptr
//verif:steps 400000000
//verif:const UNSIGNED_MAXSEGINDEX uint16(16)
//verif:const VANILLA_MAXSEGINDEX uint16(13)
//verif:reach better-does-not-fit emptied deep vanilla strict
func H_MultiTreeLimits() {
	vTreeLimits(20000+vPick("level", 700), 4, 3, 13, 16)
}

//verif:prop C20
//verif:bound limit of segs shortened to 16, 200 drawn levels of 4x3 cells in one place each, vanilla or extended nodes
//verif:splitptr
//verif:steps 400000000
//verif:const UNSIGNED_MAXSEGINDEX uint16(16)
//verif:const VANILLA_MAXSEGINDEX uint16(13)
//verif:reach extended vanilla
func H_MultiTreeExtended() {
	vTreeExtended(30000+vPick("level", 200), 4, 3, 16)
}
