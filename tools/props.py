PROPS = []
NOT_APPLICABLE = []
NOTES = "All checks are run by one symbolic executor for Go SSA (symgo/), see DESIGN.md. The checks compile harnesses (harness/*.go) into /repo's package main through a go/packages overlay, so they always see /repo's current source; nothing is written to /repo."

def P(id, title, statement, over, quant, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))

P("C01", "Output wad keeps every lump and lays out rebuilt levels correctly",
  "For every input wad, the output wad contains every lump that is not rebuilt, with its name, size and contents unchanged and in its place; every level with the mandatory lumps gets its lumps in the conventional order, one of each name (the last of duplicates, missing built lumps added), whatever level filters, --eject or in-place output are used; lump positions lie inside the file and do not overlap the directory; levels lacking a mandatory lump, stray and unknown lumps are passed through untouched; the input file is not changed unless it is the output.",
  ["inputs", "configurations"],
  "for every position and kind of an edit to a wad of two levels (missing, duplicate, swapped, additional lumps), every 8-byte name of an extra lump, every level filter, and all lump contents",
  "directory bugs show only for particular combinations of neighbouring lumps; the repository has no test that reads or writes a wad",
  ["wad.go", "vigilantbsp.go", "level.go", "filecontrol.go"], [("TryLoadDirectory / ScheduleLevels", "wad.go"), ("main: scheduling and directory rewrite", "vigilantbsp.go"), ("Level.DoLevel", "level.go")],
  "bounds: two or three levels of at most 12 lumps, lump contents of 2 arbitrary bytes; the whole program runs on an in-memory file system substituted for package os")
P("C02", "Zero-filled rejects are right-sized, all zero, and share space safely",
  "With the zero-filled reject option every rebuilt level gets a REJECT lump of (sectors^2+7)/8 bytes that reads as all zeroes, taken from a shared pool in which no two rejects start at the same offset and none overlaps another lump's contents; the wad stays well formed and everything else in it is intact, whatever the numbers of sectors and the sizes of neighbouring lumps.",
  ["inputs", "configurations"],
  "for every combination of sector counts from the bounded list over up to three levels, with or without existing reject and node lumps, with first lumps of every kind",
  "offsets collide only for particular combinations of sizes and of what follows the pool",
  ["trollgen.go", "vigilantbsp.go", "level.go"], [("Troll.PopOffset / Compile", "trollgen.go"), ("zero-filled reject pool in main", "vigilantbsp.go")],
  "bounds: up to 3 levels, sector counts 0, 1, 8, 9, 44 (thorough: 0..9, 43..46); other lumps of 2 arbitrary bytes")
P("C03", "A failed or interrupted run never destroys the input or reports success",
  "If any file operation fails, or the process dies at any point, the input wad is left as it was, or (when it is being overwritten) a complete copy of the input or of the finished output is on disk; success is reported only if the output file is complete and equal to what an undisturbed run writes.",
  ["crash_points", "fault_sequences"],
  "for every file operation of a run, failing alone or with all later ones, or the process dying there, with a partial write or none",
  "no test injects I/O errors or kills the program between two particular system calls",
  ["filecontrol.go", "writebus.go", "lumpwrite.go", "vigilantbsp.go"], [("FileControl.Success / Shutdown", "filecontrol.go"), ("WriteBus", "writebus.go"), ("main", "vigilantbsp.go")],
  "bounds: a wad with one level, in place or with -o; partial writes of 0 or 1 byte; in-memory file system without write reordering")
P("C04", "Fixed-capacity writer and lump serialisers write exactly the bytes asked for",
  "FixedWriterWrapper behaves as a byte array of fixed capacity: Write, WriteWithOrder, Seek and binary.Write put exactly the given bytes at the current offset and advance it, refuse what does not fit without changing anything, extend the length only as far as needed and never touch memory outside the capacity. The write bus puts the lumps into the file back to back in the order sent, in the little-endian layout of each record format, and records in each directory entry the position and size actually written.",
  ["inputs", "histories"],
  "for every capacity, length, offset and contents within bounds and every sequence of operations; for every field value of the written records",
  "off-by-one errors at exactly full buffers and misplaced fields need particular alignments of offset, length and capacity",
  ["fixedwriter.go", "lumpwrite.go", "writebus.go", "gamespec.go"], [("FixedWriterWrapper.Write / WriteWithOrder / Seek", "fixedwriter.go"), ("WriteBusLoop", "writebus.go"), ("ConvertAndWriteGenericLump", "lumpwrite.go")],
  "bounds: capacity 1..5 with two operations (thorough: 1..4 with three); records of every type with all field values")
P("C05", "Ring queue: every element delivered exactly once, in FIFO order, across wrap",
  "RingU16 (the work queue of the reject builder) returns exactly the elements enqueued, each once, in the order they were enqueued, whatever the interleaving of Enqueue, Dequeue and Reset within capacity, the requested capacity (a ring is never smaller than requested) and the values of the free-running 32-bit cursors, including when they wrap; Empty, Full and Size agree with the contents. The power-of-two rounding helpers return the least power of two that is not below their argument (index masks and block group sizes rely on it).",
  ["inputs", "histories"],
  "for every requested capacity 1..9, every cursor value, fill level and contents, one further operation and a drain; for every argument up to 2^31 of the rounding helpers",
  "a test fixes one order of operations and small cursors; failures live at particular cursor alignments and non-power-of-two sizes",
  ["ring.go", "superblocks.go"], [("RingU16.Enqueue/Dequeue/Full/Size", "ring.go"), ("RoundPOW2_Uint32", "ring.go"), ("RoundPOW2", "superblocks.go")],
  "bounds: ring capacities 1..9 (16 slots); all uint16 values, all 32-bit cursors")
P("C06", "Visited-line set is exact: a line reads visited iff marked since last reset",
  "SegAliasHolder, the set of already evaluated lines used while picking partitions, answers 'visited' for an alias exactly when that alias was generated or marked since the last UnvisitAll; generated aliases are consecutive and distinct; the bit array grows without losing or inventing marks; a Clone starts equal to the original and is independent of it afterwards (parallel node building works on clones).",
  ["inputs", "histories"],
  "for every alias counter value in the bounded range (including the points where the bit array grows), every pair of prior marks, every next operation and every queried alias",
  "stale or lost marks reappear only at particular bit positions and growth points, or between a clone and its original; they silently drop partition candidates instead of failing",
  ["segalias.go"], [("SegAliasHolder.MarkAndRecall", "segalias.go"), ("SegAliasHolder.UnvisitAll", "segalias.go"), ("SegAliasHolder.Clone", "segalias.go")],
  "bounds: bit array row shortened from 8192 to 8 bytes through an overlay constant; counter 0..72")
P("C07", "Block iterator yields each line on the traversed blocks exactly once",
  "For a query segment (or the row ranges used by reject) BlockityLines returns every linedef listed in a block that the segment passes through, no linedef twice, no linedef listed only in blocks the segment does not come near; it terminates, and is reusable for the next query with no memory of the previous one.",
  ["inputs", "histories"],
  "for every start position of the query segment in a 3x3 block window and every listed extent; for every pair of row ranges and equality pattern between line numbers; fresh and reused iterators",
  "the set of visited blocks depends on exact slopes and cell offsets; a miss shows for specific fractional positions only",
  ["blockity.go"], [("BlockityLines.SetContext", "blockity.go"), ("BlockityLines.NextLine", "blockity.go"), ("BlockityLines.SetSubcontextFromRow", "blockity.go")],
  "bounds: 3x3 blocks, segment start anywhere, extents from a fixed list (9 quick, 45 thorough values per axis); a block is taken as the line sees it: [0,128) in the direction of travel, quarter-unit precision")
P("C08", "Blockmap lists every linedef in every block that it passes through",
  "CreateBlockmap puts each linedef into the list of every 128x128 block that the line passes through, including the blocks holding its endpoints, never lists the same linedef twice in one block, and does not list it in blocks the line does not come near; the header's origin and dimensions cover the level bounds.",
  ["inputs"],
  "for every start position inside the window and every extent from the list, for every block of the window",
  "a missing entry (a hole in collision detection in the game) depends on the exact fractional crossing of block borders; tests check no positions at all",
  ["bblocks.go"], [("CreateBlockmap", "bblocks.go"), ("Blockmap.PushAxis", "bblocks.go")],
  "bounds: 3x3 blocks, line extents from a fixed list (19 quick, 45 thorough values per axis); a block is taken as the line sees it: [0,128) in the direction of travel, quarter-unit precision")
P("C09", "Encoded BLOCKMAP decodes to exactly the block lists that were computed",
  "Every encoding of a blockmap (plain with identical lists merged, with or without the dummy header word, with the last table cell overlapped, accurate subset compression, subset elimination) decodes - the way engines read the lump: header, offset table, list up to 0xFFFF, dummy word skipped - to exactly the computed lines of every block (subset elimination: at least those lines); every offset stays inside the lump, every list is terminated, line numbers stay valid, and encoding through recycled buffers neither leaks previous contents nor overwrites a lump that is being kept.",
  ["inputs", "histories", "configurations"],
  "for every content of the block lists over the symbolic line numbers (so every equality, subset and overlap relation between lists), every compression setting, fresh and recycled buffers",
  "list sharing, tail overlap and hash bucket collisions depend on coincidences between block lists that hand-picked maps do not produce",
  ["bblocks.go"], [("Blockmap.GetBytes", "bblocks.go"), ("Blockmap.GetBytesArcane", "bblocks.go"), ("CompressSubsets / EliminateSubsets", "bblocks.go"), ("BlockmapGCShield", "bblocks.go")],
  "bounds: up to 4 blocks with lists of up to 4 symbolic line numbers; hash bucket count overridden to 4, addressable limit to 128 words")
P("C27", "Command line: every documented option sets exactly what it documents",
  "The option parser accepts every documented option in every documented spelling, alone and together with any other, glued or as separate arguments, and sets exactly the documented settings (defaults for everything not mentioned, the derived settings following from them); map lists name exactly the listed levels; malformed command lines are reported and never crash the program.",
  ["inputs", "configurations"],
  "for every pair of options and every documented value of each (numbers up to 99), every pair of sub-options of -b and -n, every triple of -r, and arbitrary short arguments",
  "the parser has no tests; interactions (one sub-option swallowing part of the next, the effect of a missing value) need particular pairs",
  ["cmdparser.go", "config.go"], [("ProgramConfig.FromCommandLine", "cmdparser.go"), ("parseBlockmapParams / parseNodesParams / parseRejectParams / parseMapList", "cmdparser.go"), ("ReadZenVariables", "cmdparser.go")],
  "bounds: two options (three for -r), numbers 0..99; arbitrary arguments of up to 3 characters")
P("C10", "The BSP is a valid partition of the level for every picker and option",
  "Whatever partition picker, picker factor, penalty, preference or optimisation is chosen, the nodes built for a level form one binary tree reaching every node and subsector exactly once; every node's partition separates what is below it (segs in the right child lie on or to the right of it, in the left child on or to the left) and its two bounding boxes contain all segs below; every subsector is non-empty, convex and (unless sectors tagged 900 and up allow it) of one sector; the segs of every drawable side of every linedef cover that side exactly, end to end, in its direction, with right linedef number, side, offset and angle; no seg belongs to two subsectors or to none.",
  ["inputs", "configurations"],
  "for every position of a level and every (bounded) size of its rows and columns, over a list of level shapes with holes, islands, self-referencing sectors, dangling and overlapping lines, T junctions and diagonal lines, for the options listed under bounds",
  "which seg gets split, dropped or put on the wrong side depends on exact coordinates and on tie-breaks among candidates; the repository's tests never build a BSP",
  ["nodegen.go", "picknode.go", "node_intro.go", "node_outro.go", "stknode.go", "convexity.go", "zensideness.go", "zenscore.go", "superblocks.go", "multitree_plain.go", "diffgeometry.go"], [("NodesWork.createNode / DivideSegs", "nodegen.go"), ("PickNode_traditional / visplaneKillers / ZenNode", "picknode.go"), ("createSegs", "node_intro.go"), ("StkEntryPoint", "stknode.go"), ("ConvexityPartitionCreate", "convexity.go")],
  "bounds: levels of up to 3x3 cells with symbolic origin and cell sizes 2..40, 7 levels with unusual lines, polygons in any direction at concrete sizes with symbolic origin; pickers 0, 1, 3, 4; 1000 drawn levels of 6x5 and 60 of 16x12 cells (thorough 15000 and 1000) with slanted and jittered lines, pickers 0-4 (the advanced visplane picker, 2, at one concrete place each: its float quotients are out of the solvers' reach)")
P("C11", "Every node format encodes an equally valid BSP; limits are never overrun",
  "In every node format (vanilla, DeeP, Zdoom extended) and under automatic selection the written lumps decode to a valid BSP of the level; the format chosen is one of those the option allows; when a level exceeds what the format can address (segs, subsectors), either the promised other format is written or all node lumps are left empty, never an index that overflowed; moving the largest subsector to the end of SEGS to fit a limit keeps every subsector's segs.",
  ["inputs", "configurations"],
  "for every position and size of the levels, each format with single-tree and parallel building; for seg and subsector counts around the (shortened) limits; for lists of subsector sizes around the true 32768 and 65536 limits",
  "overflow needs levels with tens of thousands of segs; extended nodes are generated by a second copy of the code that can diverge from the first",
  ["nodegen.go", "znodegen.go", "node_outro.go", "node_rearrange.go", "zstream.go", "zdefs.go", "multiformat_tree.go", "level.go"], [("NodesWork.getZdoomNodesBytes", "node_outro.go"), ("tooManySegsCantFix / fitSegsToTarget", "node_outro.go"), ("NodesGenerator", "nodegen.go"), ("ZExt_ copies", "znodegen.go")],
  "bounds: levels as in C10; limits shortened through overlay constants to 9 segs / 3 subsectors; 12 size lists at the true limits; the drawn levels of C10 in every format (extended nodes: vertices made by splits may lie up to 1/65536 beside the line)")
P("C12", "Every wall side that must be drawn gets segs, and only those; angles as asked",
  "Every side of every linedef of non-zero length gets segs that cover it exactly, in the side's direction, with the linedef's own angle, except where the mapper (or the program itself, for scroller dummies) says otherwise: tag 998 and action 1086 (no side), 1085 (front), 1084 (back), lower texture BSPNOSEG on that very side; an absent side never gets segs. Actions 1080-1083 and tag 999 on one-sided lines change the segs' angle by or to the documented value (in formats that store angles). In levels in Hexen format no action has such a meaning. Removal of invisible lines (-ni) drops only same-sector lines without any texture or precious tag, and never the border of a self-referencing sector. Levels with next to no segs are built (or left without nodes), not crashed on.",
  ["inputs", "configurations"],
  "for every level position, every action and tag value on one-sided and two-sided lines, every lower texture name on either side, every marking of dummy lines, every value of the angle effects",
  "the rules interact (which side, which tag, which texture) and exist in two copies of the code (vanilla and extended nodes); tests build no level",
  ["node_intro.go", "selfref.go", "universal_interfaces.go", "znodegen.go"], [("createSegs / addSegsPerLine", "node_intro.go"), ("Culler", "selfref.go"), ("DoomLinedefs.GetBAMEffect / IsHorizonEffect / IsDoNotRender", "universal_interfaces.go"), ("ZExt_createSegs", "znodegen.go")],
  "bounds: one level of 3 rooms with a hanging line and a self-referencing square, one special line at a time; the square with any tag or action on a line, also with a doubled line; 6 shapes of self-referencing sectors x 8 orientation patterns x 2 starting lines, 6 levels with such sectors at walls; degrees from a list of 9 values")
P("C13", "Node building keeps the level's geometry: lines, vertices, shared data",
  "Building nodes changes no linedef (ends stay at the same coordinates, flags, action, tag and sidedefs are kept, none is added, lost or reordered), drops vertices that nothing uses and no others, leaves every written vertex used, and never modifies the arrays that the blockmap and reject builders are reading at the same time. Bounds computed from lines are exactly the bounds of their ends, and the vertex map finds every vertex that was put into it, also from a hair's breadth across a block border, and merges nothing farther apart.",
  ["inputs", "configurations"],
  "for every position and cell size of the level, every place and position of unused or coinciding vertices, for every attribute value; for every position of the ends of lines in the vertex map",
  "an index off by one in renumbering shows only when unused vertices lie at particular indices; sharing bugs show only when another builder reads at that moment",
  ["universal_interfaces.go", "node_vmap.go", "nodegen.go", "node_outro.go"], [("PruneUnusedVertices / UnshareData", "universal_interfaces.go"), ("VertexMap", "node_vmap.go"), ("GetLineBounds", "nodegen.go")],
  "bounds: 3x2 cells of 2..40 units, 1-2 unused vertices, 3 node formats; three lines between any of 5 vertices; vertex map: 4 ends in 2x2 layouts with symbolic origin, corners of blocks, snapshots")
P("C16", "Scrolling walls: number of dummy lines follows the speed asked for",
  "In levels in Doom format a wall scrolls with the speed asked for: for each wall with action 48 (speed = tag) or that is the nearest wall of the same tag to a remote scroller 1048 (speed = last two digits of tag) the rebuilt level has exactly as many lines with action 48 over that wall as its speed says (at least one); surplus dummies are removed, missing ones appended after all other lines; all other lines stay, unchanged and in their order; exactly the dummies are marked to be left out of nodes and blockmap - also when the number of lines may not be changed because only one of the two is rebuilt; rebuilding the result changes nothing.",
  ["inputs", "histories"],
  "for every speed, tag, flags value and every arrangement of four lines over two walls; remote scrollers at any place in the list, with symbolic tags, next to dummies of earlier runs",
  "wrong removal only shows when the dummies of several walls are interleaved in the list",
  ["level.go"], [("RefreshScrollerSpeed", "level.go")],
  "bounds: 4 lines over 2 walls with speeds 0..3; one remote scroller, up to 4 candidate walls and 2 dummies; two remote scrollers with 2 walls and a dummy")
P("C17", "Hexen polyobjects: the sector they are in is found and not split",
  "In levels in Hexen format that have lines acting on polyobjects, the sectors in which polyobjects are spawned (Hexen thing types 3001/3002, or ZDoom's 9301/9302 if the level has any of these) are found for every spawn point: the sector around the point or, within 10 units of lines, all sectors at those lines; exactly the lines of these sectors are protected from splits, and such a sector stays one subsector where the surroundings allow it, for every partition picker. Levels without such lines have no polyobjects, whatever their things are.",
  ["inputs", "configurations"],
  "for every spawn point within the level, every thing type, every level position",
  "detection depends on the exact position of the spawn point relative to all lines and a tie-break among the nearest ones",
  ["universal_interfaces.go", "picknode.go", "node_intro.go"], [("HexenLinedefs.DetectPolyobjects / markPolyobjPoint", "universal_interfaces.go"), ("GetAllPolyobjLines / SectorIgnorePrecious", "universal_interfaces.go"), ("PRECIOUS costs", "picknode.go")],
  "bounds: 3 levels of up to 3x3 cells for detection, 6 levels of 4x3 cells for splits, pickers 0, 1, 3, 4; lines parallel to the axes")
P("C18", "The blockmap written is the best of the offsets tried, and one engines can use",
  "With a fixed offset, exactly that one is used, or 0,0 if it would leave the map's coordinate range. With 36, all, or the heuristic's offsets, exactly the documented ones are considered (fewer near the edge of the range), and the lump written is that of the best: usable in the original game before usable in any port before unusable, then the smaller one, then one whose dummy line is line 0 if that is wanted, and under -d the earliest offset among equals. With an endgoal a blockmap that meets it is written whenever one exists, under -d that of the earliest offset that does. Conditional compression tries no, subset, aggressive compression in this order and keeps the first that meets the goal. The lump is delivered exactly once; if none is usable in any port it is left empty. Number of threads and order of their communication never show under -d.",
  ["inputs", "configurations", "interleavings"],
  "for every level position, every offset near the edge, every two blockmaps' limits, lengths, dummies and origins; for every order of communication of two searching goroutines and their collector",
  "the search is cut short by whichever goroutine finds a good blockmap first, and skipped offsets are gone back to: the outcome depends on timing no test controls; limits are reached on huge levels only",
  ["blockmapgen.go", "bblocks.go"], [("BlockmapGenerator / BlockmapQueen / BlockmapHive / BlockmapBee", "blockmapgen.go"), ("IsBlockmapBetter / IsBlockmapGoodEnough / OffsetPreceedes", "blockmapgen.go"), ("OffsetSieve, BlockmapHoleChaser", "blockmapgen.go"), ("DetermineSubsetMode", "blockmapgen.go"), ("CutoffOffset / ChooseModeWithCutoff / DeleteIfTooBig", "blockmapgen.go")],
  "bounds: 400 drawn levels of up to 6x6 cells anywhere on the map for fixed and 36 offsets, 100 (thorough 800) in the corner of the map for all/heuristic/fixed, limits shortened to 70 and 90 words; 17 levels with 4 offsets, made so that only some are good enough, and 2 goroutines in every order; fixed offsets symbolic on one triangle; three levels of more than 65535 blocks at the true limits")
P("C19", "Only lines that nothing can collide with are left out of the blockmap",
  "Without option r every line but the dummies of fast scrollers is in the blockmap. With it exactly these are left out as well: two-sided lines without action that block neither everything nor monsters and either lie within one sector, unless they are part of the border of a self-referencing sector or of a closed figure, or lie between sectors of equal floor and ceiling that have no tags and no timed-door types, provided the level is not in Hexen format and no line in it acts on several sectors (stairs, donuts, Boom's included). What is left out of the blockmap is still in nodes and REJECT.",
  ["inputs", "configurations"],
  "for every flag, action, tag, sector type and height, and every position; for ten shapes of self-referencing sectors under different directions and orders of lines, with a sector of their own or one of a real room elsewhere",
  "a line wrongly left out lets players walk through things or lifts crush nothing, in just the place where heights, tags and types combine that way; the border of a self-referencing sector can only be told by following it around",
  ["blockmapgen.go", "selfref.go", "bblocks.go"], [("RemoveLinesFromBlockmap", "blockmapgen.go"), ("FirstStageUncollideable / Culler in mode CREATE_BLOCKMAP / deepAnalysis", "selfref.go"), ("hasMultiSectorSpecial / sectorSpecialChangesHeight", "blockmapgen.go"), ("CreateBlockmap", "bblocks.go")],
  "bounds: one level of two rooms in two variants, one line or sector pair symbolic at a time; 10 shapes of up to 4x2 or 3x3 cells, 8 patterns of directions, 3 orders of lines; MBF21's blocking flags and whether lines on the border of two self-referencing sectors' rooms are removed are left open")
P("C20", "Multi-tree mode delivers the best of the trees it is asked to try",
  "With -nm=1, 2 or 3 a tree is built for the root on each one-sided, two-sided or any line (any, if there is none of the kind), one per straight line of collinear ones, and the one delivered is the best of them: no line that should stay in one piece is split, then fewest subsectors, least difference of height below the root, least height, fewest segs, and of equal trees that of the first line. With vanilla nodes the best of those trees that fit the format is taken (that fit signed indices, for format v, if there are any), unless --ableist is given; if none fits, the format with a fallback stores the best tree, or extended nodes with its root. Neither the number of threads, nor their speed, nor option --speedtree shows in the result.",
  ["inputs", "configurations", "schedules"],
  "for every position of many drawn levels with all kinds of settings; for every two results, whatever their counts; for the orders in which threads report",
  "which tree is delivered depends on which thread reports when and on rare ties; a worse tree than the best, or state left over from the tree before, is a valid tree that no validity check objects to",
  ["multitree_plain.go", "multiformat_tree.go", "nodegen.go", "node_outro.go"], [("MTPSentinel_MakeBestBSPTree", "multitree_plain.go"), ("IsBSPTreeBetter / MTP_IsBSPTreeBetter / getBSPHeights", "multitree_plain.go"), ("MTPSentinel_GetRootSegCandidates", "multitree_plain.go"), ("MTPWorker_GenerateBSPTrees / MTPWorker_SpeedGenerateBSPTrees", "multitree_plain.go"), ("isUnsignedOverflow / isVanillaSignedOverflow", "multiformat_tree.go"), ("GetInitialStateClone", "nodegen.go")],
  "bounds: 1000 drawn levels of 4x3 cells (thorough 8000, and 500 of 6x5) with four of the pickers; limits of segs shortened to 16 and 13; orders of 2 threads on 2 (thorough 4) levels of 4x3 cells with 3 to 5 roots; trees to compare with are built by the same code with one root given; option --roots is outside")
P("C14", "REJECT is exact: sectors are hidden from each other iff no line of sight exists",
  "The REJECT lump has (sectors^2+7)/8 bytes; for every pair of sectors the bit is set exactly when no straight line passes from inside one to inside the other without meeting a one-sided line (lines that only graze a corner or run along a wall, or pass only through gaps narrower than a map unit, may count either way), so that monsters never fail to see through what is open and no table is less useful than it could be; every sector sees itself; levels without any two-sided line between distinct sectors get a table of zeroes, as the program says. How it is computed (with or without graphs, with or without exploiting symmetry, with or without the docs' self-referencing sector modes) never shows in the table, except that self-referencing sectors treated simply may make fewer pairs hidden, never more.",
  ["inputs", "configurations"],
  "for every subset of the cells of 3x3 and 4x3 grids under several divisions into sectors, at every place on the map and in 6 slanted images, for all choices of algorithm; for hidden pairs, every two points of the lattice within the two sectors",
  "whether two far sectors see each other depends on all lines between them; a wrong shortcut shows only in particular constellations, as a monster that does not notice the player",
  ["reject.go", "rejectFAST.go", "rejectSYMM.go", "rejectDFS.go", "rejectRMB.go", "rejectLOS.go"], [("RejectGenerator / RejectWork.main / setupLines / testLinePair", "reject.go"), ("graph-based preprocessing", "rejectDFS.go"), ("FastRejectWork, SymmetricRejectWork", "rejectFAST.go"), ("RejectWork", "rejectSYMM.go")],
  "bounds: grids of up to 4x3 cells (thorough: 5x3) of sizes 64, 16, 40 and six affine images, hidden pairs on a lattice of 4 units; 1600 (thorough 8000) drawn levels of 6x5 cells against an exact oracle, 800 of 9x7 cells with the ways of computing compared (openings narrower than a unit may count either way); marking of lines in blocks from every start in 32 directions; levels anywhere on the map; 11 levels with self-referencing sectors")
P("C15", "RMB options of a REJ file are read and applied as the manual says",
  "A REJ file is read line by line, in any case, each option under its name or any unambiguous abbreviation, with numbers, lists in brackets and the INVERT and BAND prefixes; options before the first map name are for all levels, the others for that level, after (so over) the common ones; malformed lines are refused, never applied to something else. On a level: EXCLUDE beats INCLUDE beats VORTEX beats the rest; BLIND, SAFE, BAND and their inverses hide exactly the sectors within or beyond the distance they say (per group, last one wins); LENGTH and DISTANCE hide exactly what is beyond the limit, but nothing nearer, never a sector from itself; LINE makes the line block sight; GROUP makes its members see and be seen alike; ASSERT accepts an old table exactly if it has the asserted values; REPORT lists exactly the pairs that see each other over more than the distance. Options for sectors or lines that are not there do nothing. Which algorithm computes the table does not show.",
  ["inputs", "configurations", "histories"],
  "for every option, abbreviation, letter case, digit and list text; for every distance, table, distance table, limit value and combination of two or three options, with and without groups, in global and local frames",
  "options interact: which of several wins depends on kind, order, frame and group; wrong combinations show as monsters that see or do not see on a level nobody tests",
  ["rmbparse.go", "rmbunit.go", "rejectRMB.go", "rejectFAST.go", "rejectSYMM.go", "reject.go"], [("LoadRMB / parseRMBLine / ParseGeneric / rmbParseList", "rmbparse.go"), ("ProcessOptionsRMB and what it calls", "rejectRMB.go"), ("LoadGroups, GetLENGTHValue, GetDISTANCEValue, CheckASSERTions", "rejectRMB.go"), ("RejectGenerator with a frame", "reject.go")],
  "bounds: 2 options of a kind at a time (thorough 3), 3-4 sectors, any distance and table for the effects; four levels for LENGTH, DISTANCE, LINE, GROUP; lists of 5 characters of six kinds; NOPROCESS and the options announced as not implemented are outside")
