From 0c0073729d8a5a5da735d04a97f214b1535f0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:03 +0000
Subject: [PATCH 01/36] fix: blockmap subset compression left all blocks but
 the last without a list when the only non-empty list absorbed the empty one
 and the last table cell was overlapped

---
 bblocks.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bblocks.go b/bblocks.go
index 8a9fdf0..c5975ae 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -1061,6 +1061,15 @@ func (bm *Blockmap) IdentifyOrderAndSize(chunks []*BlocklistChunk, blocks []Bloc
 		}
 	}
 
+	// When the sole non-empty list (if there is one at all) has absorbed the
+	// empty list as its subset, nothing gets singled out to be written last, and
+	// all blocks are written in one go. Cell of the last block must not be
+	// overlapped in this case, as other blocks would be left out
+	if identityToWriteLast == nil {
+		bm.stealOneWord = false
+		return nil, totalIdentityWords
+	}
+
 	// if the last block is written last, it can't be written first
 	// it can't also be written first if it is a subset of another blocklist
 	if bm.stealOneWord && ((identityToWriteLast == blocks[len(blocks)-1].chunk.identity) ||
-- 
2.43.0


From 8e8297b2e999539844bf67e905821e0e1f4c4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 02/36] fix: directory entries lost or misindexed after levels
 with SCRIPTS or duplicate lumps

The size of the new directory was predicted from counts that ignored SCRIPTS
(not in LUMP_SORT_ORDER, so it was dropped, yet still counted) and duplicates
of BEHAVIOR, and schedule entries of discarded duplicates ended up pointing at
directory entry 0. Derive the size and the shift from what was placed, and
drop discarded duplicates from the schedule.
---
 wad.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/wad.go b/wad.go
index 4b59b29..c3599b3 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
@@ -172,17 +172,14 @@ func CanRebuildThisLevel(levelName []byte) bool {
 // is identical
 func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 	validities []LevelValidity) []LumpEntry {
-	// Will be updated
-	nSize := len(le)
 	curOut := 0 // cursor
 	curLevel := 0
-	leOut := make([]LumpEntry, nSize)
+	leOut := make([]LumpEntry, len(le)) // length will be updated
 	scheduleEntry := cloneSchedule(*scheduleRoot)
 	newScheduleRoot := scheduleEntry
 	deltaCur := 0 // so as to update schedule to lump entry referencies for lumps not inside a level
 	for scheduleEntry != nil {
 		if scheduleEntry.Drop {
-			nSize--
 			deltaCur--
 			scheduleEntry = scheduleEntry.Next
 			continue
@@ -201,7 +198,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 			// Now let's conform lump order and existence to the specification
 			valid := true
 			lvlName := string(ByteSliceBeforeTerm(le[oldMainEntryIdx].Name[:]))
-			pendingDel := 0
 			for key, value := range validities[curLevel].requisites {
 				if value == 0 {
 					Log.Error("Level %s is not valid: missing lump %s\n", lvlName,
@@ -211,21 +207,16 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 					Log.Error("Level %s has one or more duplicate of lump %s - only one instance of this lump will remain\n",
 						lvlName, LUMP_MUSTEXIST[key])
 					// Some entries are not copied (ignored) to the output
-					pendingDel += value - 1
 				}
 			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
-				nSize -= pendingDel
-				deltaCur -= pendingDel
 				// Level is valid. Create missing creatable lump entries,
 				// but delete duplicates
 				for key, value := range validities[curLevel].creatable {
 					if value == 0 {
 						// More space needed
 						leOut = append(leOut, LumpEntry{})
-						nSize++
-						deltaCur++
 						// For now, we insert lump at the end
 						SetValiditySocket(LUMP_CREATE[key], LUMP_SORT_ORDER,
 							&(validities[curLevel].currentOrder),
@@ -237,10 +228,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 								DirIndex: (-1) * (len(scheduleEntry.Level) - oldLevelLen + 1),
 								Level:    nil,
 							})
-					} else if value > 1 {
-						// Some entries are not copied (ignored) to the output
-						nSize -= value - 1
-						deltaCur -= value - 1
 					}
 				}
 
@@ -264,9 +251,20 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						curOut++
 					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
 				}
+				// Duplicates have got no place in the new directory, and leave the
+				// schedule as well
+				placed := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					newIdx, ok := oldIdxsToNew[subEntry.DirIndex]
+					if ok {
+						subEntry.DirIndex = newIdx
+						placed = append(placed, subEntry)
+					}
 				}
+				scheduleEntry.Level = placed
+				// Lumps after this level move by however many entries the level
+				// has gained or lost
+				deltaCur = curOut - (oldMainEntryIdx + 1 + oldLevelLen)
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
@@ -293,7 +291,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 		}
 		scheduleEntry = nextScheduleEntry
 	}
-	leOut = leOut[:nSize]
+	leOut = leOut[:curOut]
 	*scheduleRoot = newScheduleRoot
 	return leOut
 }
-- 
2.43.0


From 91575163fbf99927d48a199b32ebdf1ee73b5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 03/36] fix: rejects sourced from the input wad (NOPROCESS)
 could be read via indices of the output directory

cloneSchedule shared level entries with the schedule kept for the input wad.
---
 wad.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wad.go b/wad.go
index c3599b3..a2a5db5 100644
--- a/wad.go
+++ b/wad.go
@@ -511,6 +511,15 @@ func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	rootSch := newSch
 	for sch != nil {
 		*newSch = *sch
+		if sch.Level != nil {
+			// entries within level must not be shared, too: DirIndex of each gets
+			// updated to refer to the new directory
+			newSch.Level = make([]*ScheduledLump, len(sch.Level), cap(sch.Level))
+			for i, subEntry := range sch.Level {
+				newSub := *subEntry
+				newSch.Level[i] = &newSub
+			}
+		}
 		if sch.Next != nil {
 			newSch.Next = &ScheduledLump{}
 			newSch = newSch.Next
-- 
2.43.0


From 9097b73138f6a398a23a060faf9fb002179aa921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 04/36] fix: zero-filled reject got wrong size or crashed when
 an earlier level gained or lost lumps

Sizes were recorded by index in the input directory and looked up by index in
the output directory.
---
 level.go | 4 ++--
 wad.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..69e2c7e 100755
--- a/level.go
+++ b/level.go
@@ -112,9 +112,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
-					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
+					panic("Rejectsize was not stored for key = <level marker id>")
 				}
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
diff --git a/wad.go b/wad.go
index a2a5db5..51f399e 100644
--- a/wad.go
+++ b/wad.go
@@ -440,7 +440,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From 28a75db500a82465dc9db2dbcc4f22b820c15131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 05/36] fix: directory of output wad misplaced when the last
 1-8 zero bytes of reject pool came from first lump's directory entry

---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..e78fec4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From 5e2d4c41dcced971163e56374a4787a899739ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 06/36] fix: write errors were ignored, a truncated output file
 was reported as success and replaced the input

---
 level.go       | 21 +++++++--------------
 lumpwrite.go   | 20 +++++++++++++-------
 udmf_level.go  |  3 +--
 vigilantbsp.go | 18 +++++++++++++-----
 wad.go         | 25 +++++++++++++++++++++++++
 writebus.go    | 16 ++++++++++++----
 6 files changed, 71 insertions(+), 32 deletions(-)

diff --git a/level.go b/level.go
index 69e2c7e..f67b4ce 100755
--- a/level.go
+++ b/level.go
@@ -147,47 +147,40 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 					// lines, etc. when building nodes.
 					cntLinedefs := le[idx].Size / DOOM_LINEDEF_SIZE
 					linedefs = make([]Linedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, linedefs)
+					ReadStructsOrFail(f, &(le[idx]), linedefs)
 				} else { // FORMAT_HEXEN
 					cntLinedefs := le[idx].Size / HEXEN_LINEDEF_SIZE
 					hexenLinedefs = make([]HexenLinedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, hexenLinedefs)
+					ReadStructsOrFail(f, &(le[idx]), hexenLinedefs)
 				}
 				copyLump = !config.RebuildNodes // !!! linedefs' vertices might be renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("VERTEXES")) {
 				l.VerticesLumpIdx = idx
 				cntVertices := le[idx].Size >> 2
 				vertices = make([]Vertex, cntVertices, cntVertices)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, vertices)
+				ReadStructsOrFail(f, &(le[idx]), vertices)
 				// bounds
 				bounds = GetBounds(vertices)
 				copyLump = !config.RebuildNodes // vertices are created and renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("SIDEDEFS")) {
 				cntSidedefs := le[idx].Size / DOOM_SIDEDEF_SIZE
 				sidedefs = make([]Sidedef, cntSidedefs, cntSidedefs)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sidedefs)
+				ReadStructsOrFail(f, &(le[idx]), sidedefs)
 				// this is kept intact, for now at least
 			} else if bytes.Equal(bname, []byte("SECTORS")) {
 				cntSectors := le[idx].Size / DOOM_SECTOR_SIZE
 				sectors = make([]Sector, cntSectors, cntSectors)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sectors)
+				ReadStructsOrFail(f, &(le[idx]), sectors)
 				// this is kept intact
 			} else if action.LevelFormat == FORMAT_HEXEN && bytes.Equal(bname, []byte("THINGS")) {
 				vrThing := HexenThing{}
 				cntThings := le[idx].Size / uint32(binary.Size(vrThing))
 				hexenThings = make([]HexenThing, cntThings, cntThings)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, hexenThings)
+				ReadStructsOrFail(f, &(le[idx]), hexenThings)
 			} // this is kept intact
 			// copy along every entry that is not going to be modified
 			if copyLump {
-				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				tmpBuf := ReadLumpOrFail(f, &(le[idx]))
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/lumpwrite.go b/lumpwrite.go
index fe02e47..8381282 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -30,9 +30,10 @@ import (
 // as a valid byte array (also already converted to file endianness) ready to be
 // written
 func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
-	lumpIdx int, s string, postfix string) {
+	lumpIdx int, s string, postfix string) error {
+	var err error
 	if data != nil {
-		fout.Write(data)
+		_, err = fout.Write(data)
 	}
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(len(data))
@@ -45,14 +46,15 @@ func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
 			s, postfix, le[lumpIdx].Size, hashSuffix)
 	}
 	*curPos = *curPos + uint32(len(data))
+	return err
 }
 
 // Write lump from a typed array of structures that represent game data but need
 // conversion before going to file
 func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	binary.Write(fout, binary.LittleEndian, data)
+	err := binary.Write(fout, binary.LittleEndian, data)
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -62,13 +64,16 @@ func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen)
+	return err
 }
 
 func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
-	binary.Write(fout, binary.LittleEndian, data)
+	sigCnt, err := fout.Write(DEEPNODES_SIG[:])
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, data)
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -78,6 +83,7 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen+sigCnt)
+	return err
 }
 
 // non-threadsafe encode of cryptographic hash, I presume
diff --git a/udmf_level.go b/udmf_level.go
index b08ca86..bcce37b 100644
--- a/udmf_level.go
+++ b/udmf_level.go
@@ -77,8 +77,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 				// might set copyLump == false
 			}
 			if copyLump {
-				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				tmpBuf := ReadLumpOrFail(f, &(le[idx]))
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/vigilantbsp.go b/vigilantbsp.go
index e78fec4..4286c2b 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -265,8 +265,7 @@ func main() {
 		// they are not getting copied in this part
 		idx := action.DirIndex
 		if le[idx].Size != 0 {
-			tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-			f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			tmpBuf := ReadLumpOrFail(f, &(le[idx]))
 			wriBus.SendRawLump(tmpBuf, idx, "", "")
 		} else if (idx == 0) && ZeroOffsetFirstLump {
 			// first lump has zero size, if we set zero offset we can steal some bytes
@@ -288,9 +287,18 @@ func main() {
 		}
 		action = action.Next
 	}
-	wriBus.Shutdown()
-	fout.Seek(int64(wh.DirectoryStart), 0)
-	binary.Write(fout, binary.LittleEndian, le)
+	err = wriBus.Shutdown()
+	if err == nil {
+		_, err = fout.Seek(int64(wh.DirectoryStart), 0)
+	}
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, le)
+	}
+	if err != nil {
+		// incomplete output must neither replace the input nor be reported as a
+		// success
+		Log.Panic("An error has occured while trying to write %s: %s\n", outFileName, err)
+	}
 	suc := mainFileControl.Success()
 	if suc {
 		trFileName := outFileName
diff --git a/wad.go b/wad.go
index 51f399e..93352c2 100644
--- a/wad.go
+++ b/wad.go
@@ -114,6 +114,31 @@ func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
 	}
 }
 
+// ReadLumpOrFail returns contents of the lump. Whatever part of it lies beyond
+// the end of file is filled with zeroes, but I/O errors are fatal
+func ReadLumpOrFail(f io.ReaderAt, entry *LumpEntry) []byte {
+	buf := make([]byte, entry.Size, entry.Size)
+	_, err := f.ReadAt(buf, int64(entry.FilePos))
+	if err != nil && err != io.EOF {
+		Log.Panic("An error has occured while trying to read lump %s: %s\n",
+			string(ByteSliceBeforeTerm(entry.Name[:])), err)
+	}
+	return buf
+}
+
+// ReadStructsOrFail fills data, which must be a slice of structures, from the
+// contents of the lump. I/O errors are fatal
+func ReadStructsOrFail(f io.ReadSeeker, entry *LumpEntry, data interface{}) {
+	_, err := f.Seek(int64(entry.FilePos), 0)
+	if err == nil {
+		err = binary.Read(f, binary.LittleEndian, data)
+	}
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		Log.Panic("An error has occured while trying to read lump %s: %s\n",
+			string(ByteSliceBeforeTerm(entry.Name[:])), err)
+	}
+}
+
 func SetValiditySocket(lumpName string, reference []string, validitySub *[]int,
 	val int, additive bool) {
 	target := -1
diff --git a/writebus.go b/writebus.go
index d9c5317..ca9fcf6 100755
--- a/writebus.go
+++ b/writebus.go
@@ -43,6 +43,7 @@ type WriteBus struct {
 	fout   *os.File
 	le     []LumpEntry
 	curPos uint32
+	err    error // first error encountered when writing
 }
 
 type WriteBusControl struct {
@@ -73,20 +74,21 @@ func StartWriteBus(fout *os.File, le []LumpEntry, curPos uint32) *WriteBusContro
 func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 	chSync chan<- bool) {
 	for req := range ch {
+		var err error
 		switch req.tpeIndex {
 		case WRI_TYPE_BYTES:
 			{
-				WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
+				err = WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
 					req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_INTERFACE:
 			{
-				ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
+				err = ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_DEEPNODES:
 			{
-				ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
+				err = ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_SYNC:
@@ -99,6 +101,9 @@ func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 				Log.Error("Unknown request at WriteBusLoop (%d)\n", req.tpeIndex)
 			}
 		}
+		if err != nil && b.err == nil {
+			b.err = err
+		}
 	}
 	chFinish <- true
 }
@@ -150,9 +155,12 @@ func (c *WriteBusControl) SendDeepNodesLump(data []DeepNode, lumpIdx int,
 	c.ch <- envl
 }
 
-func (c *WriteBusControl) Shutdown() {
+// Shutdown waits for all writes to be completed, and returns the first error
+// that happened in any of them
+func (c *WriteBusControl) Shutdown() error {
 	close(c.ch)
 	<-c.finisher
+	return c.bus.err
 }
 
 // This service call is needed to prevent actions pertaining to the previous
-- 
2.43.0


From 89f00a0f09addf03dae58e92e9dfc9b302ef9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:10 +0000
Subject: [PATCH 07/36] fix: temporary file with the only good copy was deleted
 after failing to overwrite the input file

---
 filecontrol.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/filecontrol.go b/filecontrol.go
index b573f5b..1360c78 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -183,7 +183,19 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 			Log.Error("Error when overwriting the original file: %s.\n",
 				err.Error())
 		}
-		fout.Close()
+		err = fout.Close()
+		if err != nil {
+			success = false
+			Log.Error("Closing the original file after overwriting it returned error: %s.\n",
+				err.Error())
+		}
+		if !success {
+			// the original is already lost, so what we have in temporary file is
+			// the only good copy
+			fin.Close()
+			Log.Error("The complete new wad was left in %s.\n", fc.outputFileName)
+			return false
+		}
 	}
 	fin.Close()
 	// Now delete the temporary file
-- 
2.43.0


From e5f02d5a15c3c8ff28038ed3e1df3e087cc5b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 08/36] fix: crash on levels that lack one of the lumps to be
 built

Capacity of a byte slice converted from a short string isn't guaranteed to be 8.
---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 93352c2..d84a781 100644
--- a/wad.go
+++ b/wad.go
@@ -266,7 +266,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From 286a3cee29d90b5dd4fa62b8cfbebe30f75faead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 09/36] fix: command line parser crashed on incomplete -nc,
 --cpuprofile and --memprofile

-nc followed by fewer than two characters sliced past the end of the
argument. --cpuprofile and --memprofile as the last argument indexed past
the end of the argument list, because the check compared the index with
the length of the option's text (and --memprofile checked the option
itself, not the file name after it).
---
 cmdparser.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 05c03e5..4fef5ff 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -156,19 +156,23 @@ func (c *ProgramConfig) FromCommandLine() bool {
 				if bytes.Equal([]byte(arg), []byte("--cpuprofile")) {
 					// Parameter: write cpu profile to file following this
 					// parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
 						(args[argIdx+1] != "")
-					c.Profile = true
-					c.ProfilePath = args[argIdx+1]
-					skip = true
+					if fileSatisfied {
+						c.Profile = true
+						c.ProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--memprofile")) {
 					// Parameter: write memory allocations (Go "allocs")
 					// profile to file following this parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
-						(args[argIdx] != "")
-					c.MemProfile = true
-					c.MemProfilePath = args[argIdx+1]
-					skip = true
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
+						(args[argIdx+1] != "")
+					if fileSatisfied {
+						c.MemProfile = true
+						c.MemProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--unreversenodes")) {
 					// Parameter: write BSP tree without the traditionally
 					// used reversal, keeping only root node at the last index
@@ -792,6 +796,11 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 			}
 		case 'c':
 			{
+				if len(p) < 3 {
+					Log.Error("NODES format is missing: you are supposed to pass -nc=<format>.\n")
+					p = p[:0]
+					break
+				}
 				displace := 0
 				if bytes.Equal(p[1:3], []byte("=v")) {
 					c.NodeType = NODETYPE_VANILLA
-- 
2.43.0


From 7c7058eccac0a7e669f9cbcdbd28064b92f6e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 10/36] fix: x and y coordinates mixed up in vertex map for
 line tracing

---
 node_vmap.go | 2 +-
 nodegen.go   | 2 +-
 znodegen.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_vmap.go b/node_vmap.go
index 3d30e67..195b55c 100755
--- a/node_vmap.go
+++ b/node_vmap.go
@@ -223,7 +223,7 @@ func PopulateVertexMap(vm *VertexMap, allSegs []*NodeSeg) {
 func PopulateVertexMapFromLines(vm *VertexMap, lines AbstractLines) {
 	l := int(lines.Len())
 	for i := 0; i < l; i++ {
-		x1, x2, y1, y2 := lines.GetAllXY(uint16(i))
+		x1, y1, x2, y2 := lines.GetAllXY(uint16(i))
 		vm.SelectVertexExact(float64(x1), float64(y1), i)
 		vm.SelectVertexExact(float64(x2), float64(y2), i)
 	}
diff --git a/nodegen.go b/nodegen.go
index 263c074..1c2d9ca 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -1042,7 +1042,7 @@ func GetLineBounds(lines AbstractLines) *NodeBounds {
 	r.Ymin = 2147483647
 	l := lines.Len()
 	for i := uint16(0); i < l; i++ {
-		x1, x2, y1, y2 := lines.GetAllXY(i)
+		x1, y1, x2, y2 := lines.GetAllXY(i)
 
 		if x1 < r.Xmin {
 			r.Xmin = x1
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..9ae5ebd 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1897,7 +1897,7 @@ func ZExt_PopulateVertexMap(vm *ZExt_VertexMap, allSegs []*ZExt_NodeSeg) {
 func ZExt_PopulateVertexMapFromLines(vm *ZExt_VertexMap, lines AbstractLines) {
 	l := int(lines.Len())
 	for i := 0; i < l; i++ {
-		x1, x2, y1, y2 := lines.GetAllXY(uint16(i))
+		x1, y1, x2, y2 := lines.GetAllXY(uint16(i))
 		vm.SelectVertexExact(float64(x1), float64(y1), i)
 		vm.SelectVertexExact(float64(x2), float64(y2), i)
 	}
-- 
2.43.0


From 025aa23d88a5399f3f866f029819dbf157564c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 11/36] fix: BSPNOSEG on a back sidedef was looked up on the
 front sidedef

---
 node_intro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_intro.go b/node_intro.go
index 8b46ac3..5e4dced 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -346,7 +346,7 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1084 is do not render back side (zokumbsp)
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
-- 
2.43.0


From 2a1bca961efe6a2b82cc6ce24c7bcacc614c7e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 12/36] fix: index overflow when moving the largest subsector
 to the end of SEGS

---
 node_outro.go | 4 ++--
 znodegen.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_outro.go b/node_outro.go
index 9cd7243..15240bd 100755
--- a/node_outro.go
+++ b/node_outro.go
@@ -145,8 +145,8 @@ func (w *NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool, int)
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 	// Move pivot:pivot2 subslice to the end of w.segs slice
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
diff --git a/znodegen.go b/znodegen.go
index 9ae5ebd..13d2930 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1963,8 +1963,8 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
-- 
2.43.0


From 2aa9494a2d7256dff2dd48618d2d46f9a07cfd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 13/36] fix: multi-tree crashed on levels without linedefs of
 the requested type

---
 multitree_plain.go | 5 +++++
 znodegen.go        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index ce1bc53..52dc63a 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -129,6 +129,11 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 { // reference to global: config
 		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
+		if len(rootSegCandidates) == 0 {
+			Log.Printf("Multi-tree: level has no linedefs of requested type, will try every linedef instead.\n")
+			rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+				MROOT_EVERY)
+		}
 	} else {
 		// code tree will pick from global config directly the needed things
 		// not a good API, admittedly
diff --git a/znodegen.go b/znodegen.go
index 13d2930..70e66c3 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4278,6 +4278,11 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 {
 		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
+		if len(rootSegCandidates) == 0 {
+			Log.Printf("Multi-tree: level has no linedefs of requested type, will try every linedef instead.\n")
+			rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+				MROOT_EVERY)
+		}
 	} else {
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
-- 
2.43.0


From 8d1d0ae661d9a284768dbe0575522c744e932868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 14/36] fix: crash on levels with a single seg

---
 nodegen.go  | 7 +++++--
 znodegen.go | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 1c2d9ca..74273aa 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -415,8 +415,11 @@ func NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+		// a single seg can't be divided: at least one node must exist, and each
+		// of its children must have a seg
+		Log.Error("Failed to create enough SEGs (%d) to build a tree (BAD). Quitting (%s)\n.",
+			len(allSegs), time.Since(start))
 		// First respond to solid blocks control goroutine that we won't serve
 		// any requests to them
 		if !alreadyCloned {
diff --git a/znodegen.go b/znodegen.go
index 70e66c3..e219305 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -196,8 +196,9 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := ZExt_createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+		Log.Error("Failed to create enough SEGs (%d) to build a tree (BAD). Quitting (%s)\n.",
+			len(allSegs), time.Since(start))
 
 		if !alreadyCloned {
 			input.bcontrol <- BconRequest{
-- 
2.43.0


From e9b550ff6d729ebf21908548afc41268cd85a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 15/36] fix: BSPNOSEG on a back sidedef, same for extended
 nodes

---
 znodegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/znodegen.go b/znodegen.go
index e219305..48a0a72 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1488,7 +1488,7 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
-- 
2.43.0


From 75e30b5840e35447e00ea8c3461d3872e79dc0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 16/36] fix: scroller dummies of interleaved groups were
 removed in wrong order

---
 level.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/level.go b/level.go
index f67b4ce..f394da9 100755
--- a/level.go
+++ b/level.go
@@ -27,6 +27,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"sort"
 )
 
 const BRANCH_NODES = 1
@@ -855,6 +856,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	// Remove linedefs first, via copying only those that are not removed
 	copyStart := 0
 	removed := 0
+	// Groups may have their lines interleaved
+	sort.Ints(linedefsToCull)
 	for i := 0; i < len(linedefsToCull); i++ {
 		copyEnd := linedefsToCull[i]
 		if copyStart != copyEnd {
@@ -867,6 +870,7 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		copy(ret[copyStart-removed:], linedefs[copyStart:len(linedefs)])
 	}
 	ret = ret[:len(linedefs)-removed]
+	dummies = dummies[:len(ret)]
 
 	// Locate all remaining linedefs, add them to dummies. Remember that
 	// some may have changed index, so compute new index
-- 
2.43.0


From e471e60fb1ff112be1b1ff45b88e23d3e593268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 17/36] fix: a scrolling wall targeted by an earlier remote
 scroller was treated as a dummy line

---
 level.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index f394da9..e3fb252 100755
--- a/level.go
+++ b/level.go
@@ -800,7 +800,7 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			if linedefs[j].Action == 48 {
 				currPower++
 				// Also let's reset tag value (except for the first, of course)
-				if idx != 0 {
+				if idx != 0 && isScrollerDummy(linedefs, j) {
 					linedefs[j].Tag = 0
 					// Only if dryRun == true are dummies recorded here rather
 					// than later, because if dryRun == false some may be
@@ -828,7 +828,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 				if removed == remove {
 					break
 				}
-				if idx > 0 && linedefs[j].Action == 48 {
+				if idx > 0 && linedefs[j].Action == 48 &&
+					isScrollerDummy(linedefs, j) {
 					linedefsToCull = append(linedefsToCull, j)
 					removed++
 				}
@@ -879,7 +880,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		for idx, j := range producers {
 			if linedefs[j].Action == 48 {
 				// If it's the first line, is not dummy
-				if idx != 0 {
+				// (nor if only remote scrollers precede it)
+				if idx != 0 && isScrollerDummy(linedefs, j) {
 					// Actualize the number or skip altogether, if it is
 					// deleted
 					deleted := false
@@ -925,6 +927,19 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	return ret, dummies
 }
 
+// isScrollerDummy returns whether linedef j, known to be a scroller, is a copy
+// of a wall that precedes it, as opposed to being that wall itself
+func isScrollerDummy(linedefs []Linedef, j int) bool {
+	for i := 0; i < j; i++ {
+		if linedefs[i].StartVertex == linedefs[j].StartVertex &&
+			linedefs[i].EndVertex == linedefs[j].EndVertex &&
+			linedefs[i].FrontSdef == linedefs[j].FrontSdef {
+			return true
+		}
+	}
+	return false
+}
+
 func addProducer(scrollerGroupList *[]ScrollerGroup, backSdefForGroup *[]uint16,
 	stpMap *map[ScrollerGroup][]int, scrollerGroup ScrollerGroup,
 	linedefIdx int, backsdef uint16) {
-- 
2.43.0


From 2b1e76311aa7a0f3a02788a098b9c1a4ce2847d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 18/36] fix: level without two-sided lines got an all-hidden
 REJECT instead of a zero-filled one

---
 reject.go     | 5 +++++
 rejectFAST.go | 5 +++++
 rejectSYMM.go | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/reject.go b/reject.go
index 745a7e4..e951cc1 100755
--- a/reject.go
+++ b/reject.go
@@ -841,6 +841,11 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 	// the second return value (message) will be displayed if numTransLines == 0
+	if numTransLines == 0 {
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
diff --git a/rejectFAST.go b/rejectFAST.go
index b6886c5..e0f3a3b 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -483,6 +483,11 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
+	if numTransLines == 0 {
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b8cec01..b9c3274 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -431,6 +431,11 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
+	if numTransLines == 0 {
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
-- 
2.43.0


From 1e14c8d76233043e476a2a7b40c93b2637d1ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 19/36] fix: BLIND and INVERT BLIND (SAFE and INVERT SAFE)
 combined the wrong way round

---
 rejectFAST.go | 24 ++++++++++++++----------
 rejectRMB.go  | 24 ++++++++++++++----------
 rejectSYMM.go | 24 ++++++++++++++----------
 3 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index e0f3a3b..1d7e0fd 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1222,11 +1222,9 @@ func (r *FastRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command RMBCo
 }
 
 func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// only the overlap of normal and inverse one
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1255,11 +1253,9 @@ func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *FastRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// only the overlap of normal and inverse one
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1602,6 +1598,10 @@ func (fr *RMBFrame) FastprocessSimpleBlindSafeOptions(r *FastRejectWork, sectors
 }
 
 func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// only the overlap of normal 0 and inverse 1, which is inverse 1
+		sector.Blind = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1627,6 +1627,10 @@ func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *FastRejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// only the overlap of normal 0 and inverse 1, which is inverse 1
+		sector.Safe = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
diff --git a/rejectRMB.go b/rejectRMB.go
index 1b65028..17046ea 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -426,11 +426,9 @@ func rmbCheckSectorInRange(numSectors, i int, command RMBCommand) bool {
 }
 
 func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// only the overlap of normal and inverse one
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -466,11 +464,9 @@ func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *RejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// only the overlap of normal and inverse one
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1177,6 +1173,10 @@ func (fr *RMBFrame) processSimpleBlindSafeOptions(r *RejectWork,
 }
 
 func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// only the overlap of normal 0 and inverse 1, which is inverse 1
+		sector.Blind = 2
+	}
 	// Not relying on distanceTable means having to account for groups here
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1203,6 +1203,10 @@ func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *RejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// only the overlap of normal 0 and inverse 1, which is inverse 1
+		sector.Safe = 2
+	}
 	// Not relying on distanceTable means having to account for groups here
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b9c3274..e29f0ca 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1154,11 +1154,9 @@ func (r *SymmetricRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command
 }
 
 func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// only the overlap of normal and inverse one
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1187,11 +1185,9 @@ func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *SymmetricRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// only the overlap of normal and inverse one
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1519,6 +1515,10 @@ func (fr *RMBFrame) SymmetricprocessSimpleBlindSafeOptions(r *SymmetricRejectWor
 }
 
 func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// only the overlap of normal 0 and inverse 1, which is inverse 1
+		sector.Blind = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1544,6 +1544,10 @@ func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *SymmetricRejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// only the overlap of normal 0 and inverse 1, which is inverse 1
+		sector.Safe = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
-- 
2.43.0


From 297cd667d17c96168de23cba9acd48a73bda476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 20/36] fix: INVERT BAND BLIND and INVERT BAND SAFE hid
 everything

---
 rejectFAST.go | 14 ++++++++++----
 rejectRMB.go  | 14 ++++++++++----
 rejectSYMM.go | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 1d7e0fd..72428fb 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1139,11 +1139,14 @@ func (r *FastRejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 				}
 				if command.Invert {
 					sector.Blind = 7
+					// outside the band
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1179,11 +1182,14 @@ func (r *FastRejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 				}
 				if command.Invert {
 					sector.Safe = 7
+					// outside the band
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectRMB.go b/rejectRMB.go
index 17046ea..2039aa7 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -326,11 +326,14 @@ func (r *RejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 				}
 				if command.Invert {
 					sector.Blind = 7
+					// outside the band
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -367,11 +370,14 @@ func (r *RejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 				}
 				if command.Invert {
 					sector.Safe = 7
+					// outside the band
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index e29f0ca..b81934d 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1071,11 +1071,14 @@ func (r *SymmetricRejectWork) prepareBlind(command RMBCommand, sectors []SectorR
 				}
 				if command.Invert {
 					sector.Blind = 7
+					// outside the band
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1111,11 +1114,14 @@ func (r *SymmetricRejectWork) prepareSafe(command RMBCommand, sectors []SectorRM
 				}
 				if command.Invert {
 					sector.Safe = 7
+					// outside the band
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
-- 
2.43.0


From 82f9232cc85741bd2aef7113ed6b12ca56f66fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 21/36] fix: DISTANCE compared a distance with the square of
 the limit, never limiting sight between facing lines

---
 rejectFAST.go | 7 ++-----
 rejectRMB.go  | 7 ++-----
 rejectSYMM.go | 7 ++-----
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 72428fb..79068c3 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1484,11 +1484,8 @@ func (r *FastRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *FastRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectRMB.go b/rejectRMB.go
index 2039aa7..6a299e2 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -810,11 +810,8 @@ func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false // guaranteed d < r.maxDistance, since maxDistance is non-negative
-	}
-	return !(uint64(d) < r.maxDistance)
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *RejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b81934d..a634642 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1416,11 +1416,8 @@ func (r *SymmetricRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *SymmetricRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
-- 
2.43.0


From 6647d13c462a2e1d36669ee7345a6a948e6dc08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 22/36] fix: sectors did not even see themselves when RMB
 option LINE blocks all two-sided lines

---
 reject.go     | 7 +++++++
 rejectFAST.go | 7 +++++++
 rejectSYMM.go | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/reject.go b/reject.go
index e951cc1..e39d620 100755
--- a/reject.go
+++ b/reject.go
@@ -842,6 +842,13 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 	// the second return value (message) will be displayed if numTransLines == 0
 	if numTransLines == 0 {
+		if len(r.specialSolids) > 0 {
+			// but not if it is because of RMB option LINE
+			for i := 0; i < r.numSectors; i++ {
+				*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
+			}
+			return false, "Reject builder: RMB options block sight across all two-sided linedefs. Every sector will only see itself.\n"
+		}
 		for i := range r.rejectTable {
 			r.rejectTable[i] = VIS_VISIBLE
 		}
diff --git a/rejectFAST.go b/rejectFAST.go
index 79068c3..5a7ab1a 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -484,6 +484,13 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
 	if numTransLines == 0 {
+		if len(r.specialSolids) > 0 {
+			// but not if it is because of RMB option LINE
+			for i := 0; i < r.numSectors; i++ {
+				*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
+			}
+			return false, "Reject builder: RMB options block sight across all two-sided linedefs. Every sector will only see itself.\n"
+		}
 		for i := range r.rejectTable {
 			r.rejectTable[i] = VIS_VISIBLE
 		}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index a634642..4a768c0 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -432,6 +432,13 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
 	if numTransLines == 0 {
+		if len(r.specialSolids) > 0 {
+			// but not if it is because of RMB option LINE
+			for i := 0; i < r.numSectors; i++ {
+				*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
+			}
+			return false, "Reject builder: RMB options block sight across all two-sided linedefs. Every sector will only see itself.\n"
+		}
 		for i := range r.rejectTable {
 			r.rejectTable[i] = VIS_VISIBLE
 		}
-- 
2.43.0


From 715e1c1cf687bd47923dcad0d15698de98ae9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 23/36] fix: DISTANCE hid sectors with only one other sector
 between them, which it must not affect

---
 rejectFAST.go | 8 ++++++++
 rejectRMB.go  | 8 ++++++++
 rejectSYMM.go | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/rejectFAST.go b/rejectFAST.go
index 5a7ab1a..2a11b75 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1465,6 +1465,14 @@ func (r *FastRejectWork) distanceTableIJ(i, j int) *uint16 {
 }
 
 func (r *FastRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
+	if srcLine.frontSector == tgtLine.frontSector ||
+		srcLine.frontSector == tgtLine.backSector ||
+		srcLine.backSector == tgtLine.frontSector ||
+		srcLine.backSector == tgtLine.backSector {
+		// From RMB manual: the limit only applies to sectors three or more
+		// sectors removed from each other
+		return false
+	}
 	if r.maxDistance != UNLIMITED_DISTANCE &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
diff --git a/rejectRMB.go b/rejectRMB.go
index 6a299e2..87f87c5 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -784,6 +784,14 @@ func (r *RejectWork) distanceTableIJ(i, j int) *uint16 {
 }
 
 func (r *RejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
+	if srcLine.frontSector == tgtLine.frontSector ||
+		srcLine.frontSector == tgtLine.backSector ||
+		srcLine.backSector == tgtLine.frontSector ||
+		srcLine.backSector == tgtLine.backSector {
+		// From RMB manual: the limit only applies to sectors three or more
+		// sectors removed from each other
+		return false
+	}
 	if r.maxDistance != UNLIMITED_DISTANCE &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 4a768c0..73ec877 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1397,6 +1397,14 @@ func (r *SymmetricRejectWork) distanceTableIJ(i, j int) *uint16 {
 }
 
 func (r *SymmetricRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
+	if srcLine.frontSector == tgtLine.frontSector ||
+		srcLine.frontSector == tgtLine.backSector ||
+		srcLine.backSector == tgtLine.frontSector ||
+		srcLine.backSector == tgtLine.backSector {
+		// From RMB manual: the limit only applies to sectors three or more
+		// sectors removed from each other
+		return false
+	}
 	if r.maxDistance != UNLIMITED_DISTANCE &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
-- 
2.43.0


From b5e2c8bb4384de9d9ad823f34bab9dd24360d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 24/36] fix: GROUP with DISTANCE or LINE: neighbours of one
 sector of a group were not seen from the others

---
 reject.go     | 6 +++++-
 rejectFAST.go | 6 +++++-
 rejectSYMM.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index e39d620..dfa415c 100755
--- a/reject.go
+++ b/reject.go
@@ -1451,6 +1451,10 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
+				if r.groupShareVis && len(r.groups[r.groups[i].parent].sectors) > 1 {
+					// other sectors of the group might see something
+					continue
+				}
 				for j := 0; j < r.numSectors; j++ {
 					r.markVisibilitySector(i, j, VIS_HIDDEN)
 				}
@@ -1485,7 +1489,7 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectFAST.go b/rejectFAST.go
index 2a11b75..6fc6173 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -872,6 +872,10 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
+				if r.groupShareVis && len(r.groups[r.groups[i].parent].sectors) > 1 {
+					// other sectors of the group might see something
+					continue
+				}
 				for j := 0; j < r.numSectors; j++ {
 					r.markVisibilitySector(i, j, VIS_HIDDEN)
 				}
@@ -897,7 +901,7 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 73ec877..edc51df 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -804,6 +804,10 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
+				if r.groupShareVis && len(r.groups[r.groups[i].parent].sectors) > 1 {
+					// other sectors of the group might see something
+					continue
+				}
 				for j := 0; j < r.numSectors; j++ {
 					r.markVisibilitySector(i, j, VIS_HIDDEN)
 				}
@@ -829,7 +833,7 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
-- 
2.43.0


From 64540bf8e3b7da15dd035c9c6cfaea696fb1246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 25/36] fix: GROUP with LENGTH hid sectors within the length
 when graphs are used

---
 reject.go     | 5 ++++-
 rejectFAST.go | 5 ++++-
 rejectSYMM.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index dfa415c..c808ba1 100755
--- a/reject.go
+++ b/reject.go
@@ -402,7 +402,10 @@ func (r *RejectWork) main(input RejectInput, hasGroups bool, groupShareVis bool,
 			r.reSectors[i] = &(r.sectors[i])
 		}
 
-		if config.UseGraphsForLOS {
+		// Graphs rely on what is hidden hiding everything behind it. This is not
+		// so if LENGTH has hidden it, and groups make for shorter ways around
+		lengthLimited, _ := r.rmbFrame.GetLENGTHValue()
+		if config.UseGraphsForLOS && !(lengthLimited && r.hasGroups) {
 			// --- Graphs code starts here
 			mixerSetup := false
 			if r.groupShareVis {
diff --git a/rejectFAST.go b/rejectFAST.go
index 6fc6173..8f8e01b 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -124,7 +124,10 @@ func (r *FastRejectWork) main(input RejectInput, hasGroups bool, groupShareVis b
 			r.reSectors[i] = &(r.sectors[i])
 		}
 
-		if config.UseGraphsForLOS {
+		// Graphs rely on what is hidden hiding everything behind it. This is not
+		// so if LENGTH has hidden it, and groups make for shorter ways around
+		lengthLimited, _ := r.rmbFrame.GetLENGTHValue()
+		if config.UseGraphsForLOS && !(lengthLimited && r.hasGroups) {
 
 			mixerSetup := false
 			if r.groupShareVis {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index edc51df..b4b2d81 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -124,7 +124,10 @@ func (r *SymmetricRejectWork) main(input RejectInput, hasGroups bool, groupShare
 			r.reSectors[i] = &(r.sectors[i])
 		}
 
-		if config.UseGraphsForLOS {
+		// Graphs rely on what is hidden hiding everything behind it. This is not
+		// so if LENGTH has hidden it, and groups make for shorter ways around
+		lengthLimited, _ := r.rmbFrame.GetLENGTHValue()
+		if config.UseGraphsForLOS && !(lengthLimited && r.hasGroups) {
 
 			mixerSetup := false
 			if r.groupShareVis {
-- 
2.43.0


From 730229d8c14c489eef21d685ddea8c4d58edbd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 26/36] fix: an INVERT with nothing to invert in a REJ file
 crashed the program or inverted the option before it

---
 rmbparse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rmbparse.go b/rmbparse.go
index bfd1f74..14af650 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -442,7 +442,15 @@ func ParseINVERT(context *ParseContext, tblIdx int, cmd *RMBCommand) bool {
 	// the cast to ParseContextRecursion is to avoid "loop initialization"
 	// compiler error. What am I really doing is calling parseRMBLine method on
 	// context
-	if ParseContextRecursion(context).parseRMBLine(context.command, true) {
+	rest := bytes.TrimSpace(context.command)
+	if len(rest) == 0 || rest[0] == '#' {
+		// There is no command to invert. parseRMBLine skips empty lines and
+		// comments successfully
+		context.LogError(NOT_INVERTIBLE)
+		context.command = []byte("INVERT")
+		return false
+	}
+	if ParseContextRecursion(context).parseRMBLine(rest, true) {
 		// Hack (bad): need to extract last cmd so that invert flag is applied
 		// to it
 		l := len(context.activeFrame.Commands)
-- 
2.43.0


From 8df43f298681daf23cc14afaacf27739ec8af221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 27/36] fix: GROUP with a negative sector number crashed the
 program

---
 rejectRMB.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index 87f87c5..b09f841 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -78,7 +78,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 		if cmd.Type == RMB_GROUP {
 			grI := fr.Commands[i].Data[0]
 			dupChecker := make(map[int]bool)
-			if grI >= len(groups) {
+			if grI < 0 || grI >= len(groups) {
 				fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 					grI, len(groups))
 				continue
@@ -96,7 +96,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					fr.Commands[i].Error("You need not explicitly list sector in its own group - every group always includes sector with the same index\n")
 					continue // because each group already includes corresponding sector
 				}
-				if v >= len(groups) {
+				if v < 0 || v >= len(groups) {
 					fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 						v, len(groups))
 					continue
-- 
2.43.0


From c47dfd049aecfd62ec960f1a9c09cf87676b5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 28/36] fix: LINE with a number that no line can have blocked
 another line

---
 rejectRMB.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index b09f841..1183f4e 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -942,6 +942,13 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 	// that makes sense to me. Also, manual didn't say options LEFT, RIGHT and
 	// LINE can be overridden by anything
 	for _, cmd := range rmbFrame.Commands {
+		switch cmd.Type {
+		case RMB_LEFT, RMB_RIGHT, RMB_LINE:
+			if int(uint16(cmd.Data[0])) != cmd.Data[0] {
+				cmd.Error("specified line number out of range: %d\n", cmd.Data[0])
+				continue
+			}
+		}
 		switch cmd.Type {
 		case RMB_LEFT:
 			{
-- 
2.43.0


From 448fd87664d3635edf204a4de157e1803b9b3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 29/36] fix: pedantic reject went the wrong way from a
 self-referencing line

When the nearest line on the left of a traced line belongs to another
self-referencing sector, the next one to the left must be looked at, not
those within and to the right of the traced line; and the end of the trace
is no line at all.
---
 reject.go     | 2 +-
 rejectFAST.go | 2 +-
 rejectSYMM.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index c808ba1..7f46215 100755
--- a/reject.go
+++ b/reject.go
@@ -1029,7 +1029,7 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			Y: Number(Y1),
 		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+		for i := leftStart; i > 0; i-- {
 			aline := uint16(trace[i].v.idx)
 			// Multiple self-referencing sectors can coexist inside one sector
 			// that surrounds them. So, make sure line didn't come from another
diff --git a/rejectFAST.go b/rejectFAST.go
index 8f8e01b..a2182dd 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -647,7 +647,7 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 			Y: Number(Y1),
 		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+		for i := leftStart; i > 0; i-- {
 			aline := uint16(trace[i].v.idx)
 
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b4b2d81..19ed824 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -595,7 +595,7 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 			Y: Number(Y1),
 		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+		for i := leftStart; i > 0; i-- {
 			aline := uint16(trace[i].v.idx)
 
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
-- 
2.43.0


From 18b1c46b93fd4ae239c0db19f1fa521a6570e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 30/36] fix: pedantic reject crashed on two-sided lines that
 lack a side

---
 reject.go     | 2 +-
 rejectFAST.go | 2 +-
 rejectSYMM.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index 7f46215..3bea6e8 100755
--- a/reject.go
+++ b/reject.go
@@ -1042,7 +1042,7 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
diff --git a/rejectFAST.go b/rejectFAST.go
index a2182dd..6a81597 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -653,7 +653,7 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 19ed824..9d834a6 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -601,7 +601,7 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
-- 
2.43.0


From 06900829376fde6fac95ee7e39980a8f5a892ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 31/36] fix: lines of self-referencing sectors got their segs
 twice

When the border of one part of a sector could not be told, the lines of all
its parts were given back, also those that had been or would be by
themselves.
---
 selfref.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/selfref.go b/selfref.go
index 8a057a7..0b7ad11 100755
--- a/selfref.go
+++ b/selfref.go
@@ -650,7 +650,7 @@ func (c *Culler) deepAnalysis(secIdx uint16, allLines, culledLines []uint16,
 				i, secIdx, debugToStrLine(graphI.lines))
 			// So I will spewBack all lines from this graph component that I
 			// speculated were invisible
-			for _, lineJ := range graph.lines {
+			for _, lineJ := range graphI.lines {
 				for k, lineK := range culledLines {
 					if lineJ.id == lineK {
 						if !doingForSegs || !c.writLines.IsDoNotRender(lineK) {
-- 
2.43.0


From 481ff89d509fd52b1dba119d5263f1f1779dddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 32/36] fix: reject: lines of sight were cut at the wrong line

adjustLinePair exchanges its two lines when the first one bisects the second,
but only exchanged its own pointers to them: divideRegion then cut the wrong
line, outside of its ends. Some sectors that see each other were hidden from
each other, some that do not were not.
---
 reject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index 3bea6e8..342788f 100755
--- a/reject.go
+++ b/reject.go
@@ -1614,7 +1614,7 @@ func adjustLinePair(src, tgt *TransLine, bisects *bool) bool {
 	// Make sure that src doesn't bi-sect tgt
 	if ((y1 > 0) && (y2 < 0)) || ((y1 < 0) && (y2 > 0)) {
 		// Swap src & tgt then recalculate the endpoints
-		src, tgt = tgt, src
+		*src, *tgt = *tgt, *src
 
 		y1 = src.DX*(tgt.start.Y-src.start.Y) - src.DY*(tgt.start.X-src.start.X)
 		y2 = src.DX*(tgt.end.Y-src.start.Y) - src.DY*(tgt.end.X-src.start.X)
-- 
2.43.0


From a788555b8fcb81ee3c90fc43cad9e36d7fea3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 33/36] fix: reject: wrong side looked at when a line is cut at
 its start

When rounding puts the point where a line is to be cut at the line's start,
the line is not divided, but the other line must still be turned to face its
second part, which is all that remains. Sectors that see each other well
were hidden from each other.
---
 reject.go     | 6 ++++++
 rejectFAST.go | 5 +++++
 rejectSYMM.go | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/reject.go b/reject.go
index 342788f..a88d5b0 100755
--- a/reject.go
+++ b/reject.go
@@ -1749,6 +1749,12 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	// See if we ran into an integer truncation problem (shortcut if we did)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+			// All of src is on the side of tgt that its second part is on
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index 6a81597..693d08b 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1048,6 +1048,11 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 9d834a6..cffe700 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -980,6 +980,11 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
-- 
2.43.0


From 600f9dfbf205da3b7f73a7ccff1f283ed7a79f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 34/36] fix: reject: first part of a line cut near its start
 was not looked at

---
 reject.go     | 6 +++++-
 rejectFAST.go | 3 +++
 rejectSYMM.go | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index a88d5b0..75f4d96 100755
--- a/reject.go
+++ b/reject.go
@@ -1750,7 +1750,11 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
 		if crossPoint == *(src.start) {
-			// All of src is on the side of tgt that its second part is on
+			// The first part is less than a map unit long, almost all of src
+			// is its second part
+			if r.checkLOS(src, tgt) {
+				return true
+			}
 			tgt.start, tgt.end = tgt.end, tgt.start
 			tgt.DX = -tgt.DX
 			tgt.DY = -tgt.DY
diff --git a/rejectFAST.go b/rejectFAST.go
index 693d08b..352bbd6 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1049,6 +1049,9 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
 		if crossPoint == *(src.start) {
+			if r.checkLOS(src, tgt) {
+				return true
+			}
 			tgt.start, tgt.end = tgt.end, tgt.start
 			tgt.DX = -tgt.DX
 			tgt.DY = -tgt.DY
diff --git a/rejectSYMM.go b/rejectSYMM.go
index cffe700..9a3c18c 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -981,6 +981,9 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
 		if crossPoint == *(src.start) {
+			if r.checkLOS(src, tgt) {
+				return true
+			}
 			tgt.start, tgt.end = tgt.end, tgt.start
 			tgt.DX = -tgt.DX
 			tgt.DY = -tgt.DY
-- 
2.43.0


From 17b1bef13e96a3c588bb23c905ca9bf527da4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 35/36] fix: blockmap: levels with more than 65535 blocks
 crashed the generator

The count of blocks, from which the size of buffers is computed, was kept
in 16 bits, and the table of offsets alone may need more than a slot of the
pool of buffers has.
---
 bblocks.go     | 4 ++++
 blockmapgen.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bblocks.go b/bblocks.go
index c5975ae..42b2e12 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -1381,6 +1381,10 @@ func (gcs *BlockmapGCShield) GetLumpFromPool(expectedSize, expectedCapacity int)
 	if gcs == nil {
 		return make([]byte, expectedSize, expectedCapacity)
 	}
+	if expectedSize > MAX_ADDRESSABLE_BLOCKMAP_SIZE {
+		// Even the table of offsets won't fit in a slot
+		return make([]byte, expectedSize, expectedCapacity)
+	}
 	if expectedCapacity > MAX_ADDRESSABLE_BLOCKMAP_SIZE {
 		// Such blockmap is too large for any port anyway
 		expectedCapacity = MAX_ADDRESSABLE_BLOCKMAP_SIZE
diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..7d97051 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -589,7 +589,8 @@ func BMBeeMaxSize(b LevelBounds) int {
 	ymax := int(b.Ymax)
 	xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 	yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-	return int((xblocks + 1) * (yblocks + 1))
+	// the value can be well over 65536
+	return int(xblocks+1) * int(yblocks+1)
 }
 
 func StatBlockmap(bm *Blockmap) {
-- 
2.43.0


From df10d8c90f94280ab15dd80cbe997c10136299c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 36/36] fix: blockmap: generator went on after it had already
 delivered the blockmap

When conditional compression finds a blockmap that is good enough, it is sent
right away; the other offsets were still tried afterwards, and the goroutine
then hung forever trying to send a second one.
---
 blockmapgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index 7d97051..6fe037c 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -128,6 +128,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			// fitting blockmap might have already been found
 			Blockmap_ReportTime(start, subsetMode)
 			where <- data
+			return
 		}
 	} // else must be that one fixed offset mode
 
@@ -177,6 +178,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			if data != nil {
 				Blockmap_ReportTime(start, subsetMode)
 				where <- data
+				return
 			}
 			bm := CreateBlockmap(&input)
 			if subsetMode != BSUBSET_NOCOMPRESSION {
-- 
2.43.0

