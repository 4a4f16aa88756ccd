From 9d8fa113c626729044ca79fe29760d52ea517047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:15 +0000
Subject: [PATCH 01/38] fix: mask the whole initial hash so it stays inside the
 hash table

---
 slide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slide.go b/slide.go
index dd65397..b18ecf5 100644
--- a/slide.go
+++ b/slide.go
@@ -262,7 +262,7 @@ func insertHash(token, pos uint) { /* associate position with token */
 }
 
 func initHash(pos uint) uint {
-	return uint((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])&uint16(hshsiz-1))
+	return uint(((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])) & uint16(hshsiz-1))
 }
 
 func nextHash(token, pos uint) uint {
-- 
2.43.0


From 8c8c260ef5ac3cb16ee08dc19000e7ef2918ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:15 +0000
Subject: [PATCH 02/38] fix: size the shared text buffer for the largest
 dictionary

---
 append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 56372c7..7181430 100644
--- a/append.go
+++ b/append.go
@@ -90,7 +90,7 @@ func encodeAlloc(method int) (int, error) {
 
 	hash = make([]Hash, hshsiz)
 	prevs = make([]uint, maxDicsiz)
-	text = make([]byte, txtsiz+1)
+	text = make([]byte, maxDicsiz*2+int(Maxmatch)+1) /* shared by every method */
 
 	return method, nil
 }
-- 
2.43.0


From ba1a23553f3219374e1bea90bb247400d2000869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:15 +0000
Subject: [PATCH 03/38] fix: encode -lh1- with the lh1 coder instead of the lh5
 one

---
 slide.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/slide.go b/slide.go
index b18ecf5..49a1b11 100644
--- a/slide.go
+++ b/slide.go
@@ -194,10 +194,8 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 func (l *Lha) encodeStart(method int) {
 	switch method {
-	case 0:
+	case 1: /* lh1 */
 		l.encodeStartFix()
-	case 1:
-		l.encodeStartSt1()
 	case 2:
 		l.encodeStartSt1()
 	case 3:
@@ -215,10 +213,8 @@ func (l *Lha) encodeStart(method int) {
 
 func (l *Lha) encodeEnd(method int) {
 	switch method {
-	case 0:
+	case 1: /* lh1 */
 		l.encodeEndDyn()
-	case 1:
-		l.encodeEndSt1()
 	case 2:
 		l.encodeEndSt1()
 	case 3:
@@ -236,10 +232,8 @@ func (l *Lha) encodeEnd(method int) {
 
 func (l *Lha) encodeOuput(method int, code, pos uint16) {
 	switch method {
-	case 0:
+	case 1: /* lh1 */
 		l.outputDyn(int(code), int(pos))
-	case 1:
-		l.outputSt1(code, pos)
 	case 2:
 		l.outputSt1(code, pos)
 	case 3:
-- 
2.43.0


From 63137203ddf873799d458ccb3e706d07109b761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:15 +0000
Subject: [PATCH 04/38] fix: set up the -lh4- position code like the -lh5- one

---
 huf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/huf.go b/huf.go
index 9b0bcd1..4d7a657 100644
--- a/huf.go
+++ b/huf.go
@@ -283,8 +283,7 @@ func (l *Lha) encodeStartSt1( /* void */ ) {
 	var i int
 
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
@@ -521,8 +520,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 /* lh4, 5, 6, 7 */
 func (l *Lha) decodeStartSt1( /* void */ ) {
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
-- 
2.43.0


From 7aed186fb5ff9a53b0a1e879a8242d78668a203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:40 +0000
Subject: [PATCH 05/38] fix: extra length bits belong to -lh2-, not -lh1-, and
 must not change the -lh3- alphabet

---
 dhuf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dhuf.go b/dhuf.go
index 06069c2..b988dd8 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -15,6 +15,7 @@ var (
 	nn          int
 	nextcount   uint
 	nMax        uint
+	n1Dyn       int /* code followed by 8 extra bits (lh1: none) */
 	dicbit      uint16
 	maxmatch    uint16
 	decodeCount int
@@ -33,9 +34,9 @@ const (
 
 func (l *Lha) startCDyn( /* void */ ) {
 	var i, j, f int
-	n1 = 512
+	n1Dyn = int(nMax) - 1
 	if nMax >= uint(256+maxmatch-uint16(threshold)+1) {
-		n1 = int(nMax) - 1
+		n1Dyn = 512
 	}
 
 	for i = 0; i < treesizeC; i++ {
@@ -277,9 +278,9 @@ func (l *Lha) encodeCDyn(c uint) {
 	var bits uint
 	var p, d, cnt int
 
-	d = int(c) - n1
+	d = int(c) - n1Dyn
 	if d >= 0 {
-		c = uint(n1)
+		c = uint(n1Dyn)
 	}
 	bits = 0
 	cnt = int(bits)
@@ -334,7 +335,7 @@ func (l *Lha) decodeCDyn( /* void */ ) uint16 {
 	_ = l.fillbuf(byte(cnt))
 	c = ^c
 	updateC(c)
-	if c == n1 {
+	if c == n1Dyn {
 		c += int(l.getbits(8))
 	}
 	return uint16(c)
-- 
2.43.0


From ed217aff4f216678e77fa818e959e53bdbb8e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:55 +0000
Subject: [PATCH 06/38] fix: -lh3- position table size, long code walk and
 block state

---
 shuf.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/shuf.go b/shuf.go
index e70a516..1d18ad7 100644
--- a/shuf.go
+++ b/shuf.go
@@ -22,6 +22,7 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	_ = l.initGetbits()
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
+	blocksize = 0
 }
 
 /* ------------------------------------------------------------------------ */
@@ -134,7 +135,8 @@ var blocksize uint16 = 0
 
 func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 	var (
-		i, j int
+		i int16
+		j int
 	)
 	if blocksize == 0 { /* read block head */
 		blocksize = l.getbits(byte(bufbits)) /* read block blocksize */
@@ -144,7 +146,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np), &ptLen, 8, &ptTable)
+		_ = makeTable(int16(np), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
@@ -152,7 +154,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(cLen[j])
 	} else {
 		_ = l.fillbuf(12)
-		i = int(l.bitbuf)
+		i = int16(l.bitbuf)
 		for {
 			if i < 0 {
 				j = int(right[j])
@@ -176,7 +178,8 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 /* lh1, 3 */
 func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 	var (
-		i, j int
+		i int16
+		j int
 	)
 
 	j = int(ptTable[l.peekbits(8)])
@@ -184,7 +187,7 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(ptLen[j])
 	} else {
 		_ = l.fillbuf(8)
-		i = int(l.bitbuf)
+		i = int16(l.bitbuf)
 		for {
 			if i < 0 {
 				j = int(right[j])
-- 
2.43.0


From 3a0f3628c685cc7af0ce838b0a56b9635ae02497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:56 +0000
Subject: [PATCH 07/38] fix: walk the -pm2- tree from the current node; fill
 the whole -lz5- tail

---
 larc.go   | 2 +-
 pmtree.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/larc.go b/larc.go
index ddbd739..4dc7408 100644
--- a/larc.go
+++ b/larc.go
@@ -104,7 +104,7 @@ func (l *Lha) decodeStartLz5( /*void*/ ) {
 	}
 
 	for j := 0; j < (128 - 18); j++ {
-		dtext[256*13+512+128+18] = ' '
+		dtext[256*13+512+128+18+j] = ' '
 	}
 
 	//memset(&dtext[256*13+512+18], 0, 128)
diff --git a/pmtree.go b/pmtree.go
index 9c76653..557d88f 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -93,11 +93,11 @@ func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
 	for i < 0x80 {
-		i = int((*t).rightarr[i])
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
+		} else {
+			i = int((*t).rightarr[i])
 		}
-
 	}
 	return i & 0x7F
 }
-- 
2.43.0


From 3886497c501a82e60976fda1a96c8cc144ddedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:12 +0000
Subject: [PATCH 08/38] fix: copyfile copies exactly the requested bytes and
 always computes the CRC

---
 util.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/util.go b/util.go
index 9c2ee72..f28705d 100644
--- a/util.go
+++ b/util.go
@@ -31,7 +31,7 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	if !TextMode {
 		text_flg = 0
 	}
-	if *crcp != 0 {
+	if crcp != nil {
 		initializeCrc(crcp)
 	}
 	if text_flg != 0 {
@@ -40,26 +40,27 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	for size > 0 {
 		/* read */
 		var err error
-		xsize, err = (*f1).Read(buf)
+		xsize, err = (*f1).Read(buf[:min(size, len(buf))])
 
-		if xsize == 0 {
-			break
-		}
 		if err != nil && err != io.EOF {
 			return 0, fmt.Errorf("file read error :%v", err.Error())
 		}
+		if xsize == 0 {
+			break
+		}
 
 		/* write */
-		_, err = (*f2).Write(buf)
+		_, err = (*f2).Write(buf[:xsize])
 		if err != nil {
 			return 0, fmt.Errorf("file write error :%v", err.Error())
 		}
 
 		/* calculate crc */
-		if *crcp != 0 {
+		if crcp != nil {
 			*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
 		}
 		rsize += xsize
+		size -= xsize
 	}
 	return rsize, nil
 }
-- 
2.43.0


From 679c2db70ba87e215d791b1c22c1ac166abfc083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:12 +0000
Subject: [PATCH 09/38] fix: a 64 KiB -lh7- window wraps the 16 bit position
 before it is flushed

---
 larc.go | 4 ++--
 lha.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/larc.go b/larc.go
index 4dc7408..f343e11 100644
--- a/larc.go
+++ b/larc.go
@@ -30,7 +30,7 @@ func (l *Lha) decodeCLzs( /*void*/ ) uint16 {
 /* lzs */
 
 func (l *Lha) decodePLzs( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
 }
 
 /* ------------------------------------------------------------------------ */
@@ -78,7 +78,7 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic5)) & 0xfff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic5)) & 0xfff
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/lha.go b/lha.go
index a387124..80f2061 100644
--- a/lha.go
+++ b/lha.go
@@ -60,7 +60,7 @@ type Lha struct {
 	HeaderLevel                    int
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
-	loc                            uint16
+	loc                            uint
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
-- 
2.43.0


From a5718b38284dea30dbf18d76c517e492c55be6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:24 +0000
Subject: [PATCH 10/38] fix: stop decoding malformed streams with an error
 instead of looping or panicking

---
 bitio.go   | 13 +++++++++++--
 huf.go     | 29 ++++++++++++++++++++++++-----
 larc.go    | 41 +++++++++++++++++++++++------------------
 lha.go     |  1 +
 maketbl.go |  8 ++++----
 pm.go      |  6 ++++--
 pmtree.go  | 12 ++++++++++--
 shuf.go    | 18 ++++++++++++++++--
 slide.go   | 16 +++++++++++++---
 9 files changed, 106 insertions(+), 38 deletions(-)

diff --git a/bitio.go b/bitio.go
index caa3a96..5847120 100644
--- a/bitio.go
+++ b/bitio.go
@@ -2,6 +2,7 @@ package lha
 
 import (
 	"fmt"
+	"io"
 	"os"
 )
 
@@ -15,6 +16,14 @@ import (
 /*              Separated from crcio.c          2002.10.26  Koji Arai       */
 /* ------------------------------------------------------------------------ */
 
+/* fail records the first error of the running encode or decode */
+func (l *Lha) fail(err error) error {
+	if l.codeErr == nil {
+		l.codeErr = err
+	}
+	return err
+}
+
 func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits */
 
 	for n > l.bitcount {
@@ -23,9 +32,9 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 		if l.compsize != 0 {
 			l.compsize--
 			c := make([]byte, 1)
-			_, err := l.infile.Read(c)
+			_, err := io.ReadFull(l.infile, c)
 			if err != nil {
-				return fmt.Errorf("cannot read stream")
+				return l.fail(fmt.Errorf("cannot read stream"))
 			}
 			l.subbitbuf = c[0]
 		} else {
diff --git a/huf.go b/huf.go
index 4d7a657..5b4be1e 100644
--- a/huf.go
+++ b/huf.go
@@ -350,6 +350,10 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 		for i = 0; i < int(nn); i++ {
 			ptLen[i] = 0
 		}
+		if c >= int(nn) {
+			_ = l.fail(fmt.Errorf("bad code table"))
+			return
+		}
 		for i = 0; i < 256; i++ {
 			ptTable[i] = uint16(c)
 		}
@@ -384,7 +388,9 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 			ptLen[i] = 0
 			i++
 		}
-		_ = makeTable(nn, &ptLen, 8, &ptTable)
+		if err := makeTable(nn, &ptLen, 8, &ptTable); err != nil {
+			_ = l.fail(err)
+		}
 	}
 }
 
@@ -398,6 +404,10 @@ func (l *Lha) readCLen( /* void */ ) {
 		for i = 0; i < int16(Nc); i++ {
 			cLen[i] = 0
 		}
+		if c >= int16(Nc) {
+			_ = l.fail(fmt.Errorf("bad code table"))
+			return
+		}
 		for i = 0; i < 4096; i++ {
 			cTable[i] = uint16(c)
 		}
@@ -433,7 +443,7 @@ func (l *Lha) readCLen( /* void */ ) {
 					}
 				}
 				c--
-				for c >= 0 {
+				for c >= 0 && i < int16(Nc) {
 					cLen[i] = 0
 					i++
 					c--
@@ -447,7 +457,9 @@ func (l *Lha) readCLen( /* void */ ) {
 			cLen[i] = 0
 			i++
 		}
-		_ = makeTable(int16(Nc), &cLen, 12, &cTable)
+		if err := makeTable(int16(Nc), &cLen, 12, &cTable); err != nil {
+			_ = l.fail(err)
+		}
 	}
 }
 
@@ -459,8 +471,15 @@ func (l *Lha) decodeCSt1( /*void*/ ) uint16 {
 	if blocksize == 0 {
 		blocksize = l.getbits(16)
 		l.readPtLen(int16(Nt), int16(tbit), 3)
-		l.readCLen()
-		l.readPtLen(int16(np), int16(pbit), -1)
+		if l.codeErr == nil {
+			l.readCLen()
+		}
+		if l.codeErr == nil {
+			l.readPtLen(int16(np), int16(pbit), -1)
+		}
+		if l.codeErr != nil {
+			return 0
+		}
 	}
 	blocksize--
 	j = cTable[l.peekbits(12)]
diff --git a/larc.go b/larc.go
index f343e11..ced685f 100644
--- a/larc.go
+++ b/larc.go
@@ -1,6 +1,9 @@
 package lha
 
-import "io"
+import (
+	"fmt"
+	"io"
+)
 
 /* ------------------------------------------------------------------------ */
 /* LHa for UNIX                                                             */
@@ -40,33 +43,35 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 	initCodeCache()
 }
 
+/* ------------------------------------------------------------------------ */
+/* lz5: next byte of the packed data */
+func (l *Lha) getcLz5() byte {
+	var b [1]byte
+	if l.compsize <= 0 {
+		_ = l.fail(io.ErrUnexpectedEOF)
+		return 0
+	}
+	if _, err := io.ReadFull(l.infile, b[:]); err != nil {
+		_ = l.fail(fmt.Errorf("cannot read stream"))
+		return 0
+	}
+	l.compsize--
+	return b[0]
+}
+
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	var c int
-	b := make([]byte, 1)
 	if l.flagcnt == 0 {
 		l.flagcnt = 8
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		l.mFlag = int(b[0])
+		l.mFlag = int(l.getcLz5())
 	}
 	l.flagcnt--
-	_, _ = l.infile.Read(b)
-	c = int(b[0])
+	c = int(l.getcLz5())
 	if (l.mFlag & 1) == 0 {
 		l.matchpos = c
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		c = int(b[0]) //@TODO add EOF handler
+		c = int(l.getcLz5())
 		l.matchpos += (c & 0xf0) << 4
 		c &= 0x0f
 		c += 0x100
diff --git a/lha.go b/lha.go
index 80f2061..cfccdf7 100644
--- a/lha.go
+++ b/lha.go
@@ -62,6 +62,7 @@ type Lha struct {
 	mFlag, flagcnt, matchpos       int
 	loc                            uint
 	ExtractDirectory               string
+	codeErr                        error /* first error of the running encode or decode */
 
 	ExcludeFiles         []string
 	CmdFilev             []string
diff --git a/maketbl.go b/maketbl.go
index e9d06bd..5f87054 100644
--- a/maketbl.go
+++ b/maketbl.go
@@ -15,7 +15,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 		count             [17]uint16 /* count of bitlen */
 		weight            [17]uint16 /* 0x10000ul >> bitlen */
 		start             [17]uint16 /* first code of bitlen */
-		total             uint16
+		total             uint
 		i, l              uint
 		j, k, m, n, avail int
 		pIndex            int
@@ -43,10 +43,10 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* calculate first code */
 	total = 0
 	for i = 1; i <= 16; i++ {
-		start[i] = total
-		total += weight[i] * count[i]
+		start[i] = uint16(total)
+		total += uint(weight[i]) * uint(count[i])
 	}
-	if (total&0xffff) != 0 || tablebits > 16 { /* 16 for weight below */
+	if total != 0x10000 || tablebits > 16 { /* 16 for weight below */
 		return fmt.Errorf("make_table(): Bad table (case b)")
 	}
 
diff --git a/pm.go b/pm.go
index 880211f..a0b4d3a 100644
--- a/pm.go
+++ b/pm.go
@@ -2,7 +2,6 @@ package lha
 
 import (
 	"fmt"
-	"os"
 )
 
 /***********************************************************
@@ -47,6 +46,9 @@ func (l *Lha) decodeStartPm2() {
 	dicsiz1 = (1 << dicbit) - 1
 	_ = l.initGetbits()
 	histInit()
+	tree1.root, tree2.root = 0, 0
+	tree1.leftarr[0], tree1.rightarr[0] = 0, 0
+	tree2.leftarr[0], tree2.rightarr[0] = 0, 0
 	nextcount = 0
 	lastupdate = 0
 	l.getbits(1) /* discard bit */
@@ -105,7 +107,7 @@ func (l *Lha) decodeCPm2() uint16 {
 	}
 	gettree1 = byte(l.tree1Get()) /* value preserved for decode_p */
 	if gettree1 >= 29 {
-		fmt.Fprintf(os.Stderr, "Bad table")
+		_ = l.fail(fmt.Errorf("bad table"))
 		return 0
 	}
 
diff --git a/pmtree.go b/pmtree.go
index 557d88f..75bf9ef 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -39,7 +39,9 @@ func (l *Lha) maketree1() {
 				table1[i] = 0
 			}
 		}
-		_ = treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:])
+		if err := treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:]); err != nil {
+			_ = l.fail(err)
+		}
 	}
 }
 
@@ -81,7 +83,9 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 		treeSetsingle(&tree2, byte(index))
 	} else {
 		if count > 1 {
-			_ = treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:])
+			if err := treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:]); err != nil {
+				_ = l.fail(err)
+			}
 		}
 	}
 	// Note: count == 0 is possible!
@@ -98,6 +102,10 @@ func (l *Lha) treeGet(t *tree) int {
 		} else {
 			i = int((*t).rightarr[i])
 		}
+		if i == 0 || l.codeErr != nil { /* no tree */
+			_ = l.fail(fmt.Errorf("bad table"))
+			return 0
+		}
 	}
 	return i & 0x7F
 }
diff --git a/shuf.go b/shuf.go
index 1d18ad7..cb576f4 100644
--- a/shuf.go
+++ b/shuf.go
@@ -1,5 +1,7 @@
 package lha
 
+import "fmt"
+
 const (
 	Np_      = (8 * 1024 / 64)
 	Np2_     = (Np_*2 - 1)
@@ -86,13 +88,19 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 			for i = 0; i < n1; i++ {
 				cLen[i] = 0
 			}
+			if c >= n1 {
+				_ = l.fail(fmt.Errorf("bad code table"))
+				return
+			}
 			for i = 0; i < 4096; i++ {
 				cTable[i] = uint16(c)
 			}
 			return
 		}
 	}
-	_ = makeTable(int16(n1), &cLen, 12, &cTable)
+	if err := makeTable(int16(n1), &cLen, 12, &cTable); err != nil {
+		_ = l.fail(err)
+	}
 }
 
 /* ------------------------------------------------------------------------ */
@@ -114,6 +122,9 @@ func (l *Lha) readTreeP( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
+	if err := makeTable(int16(Np_), &ptLen, 8, &ptTable); err != nil {
+		_ = l.fail(err)
+	}
 }
 
 /* ------------------------------------------------------------------------ */
@@ -145,8 +156,11 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 			l.readTreeP()
 		} else {
 			l.readyMade(1)
+			_ = makeTable(int16(np), &ptLen, 8, &ptTable)
+		}
+		if l.codeErr != nil {
+			return 0
 		}
-		_ = makeTable(int16(np), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
diff --git a/slide.go b/slide.go
index 49a1b11..3186354 100644
--- a/slide.go
+++ b/slide.go
@@ -133,6 +133,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	   If the option "--extract-broken-archive" specified, extract
 	   the broken archive made by old LHa for UNIX. */
 
+	l.codeErr = nil
 	l.decodeMethodStart(inter.method)
 	dicsiz1 = uint(dicsiz) - 1
 	adjust = 256 - uint(threshold)
@@ -143,6 +144,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 	l.loc = 0
 	for decodeCount < l.origsize {
 		c = uint(l.decodeMethodC(inter.method))
+		if l.codeErr != nil {
+			break
+		}
 		if c < 256 {
 			if l.DumpLzss {
 				b := c
@@ -155,7 +159,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 			dtext[l.loc] = byte(c)
 			l.loc++
 			if int(l.loc) == dicsiz {
-				_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+				if err := l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile); err != nil {
+					_ = l.fail(err)
+				}
 				l.loc = 0
 			}
 			decodeCount++
@@ -177,14 +183,18 @@ func (l *Lha) decode(inter *interfacing) uint {
 				dtext[l.loc] = byte(c)
 				l.loc++
 				if int(l.loc) == dicsiz {
-					_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+					if err := l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile); err != nil {
+						_ = l.fail(err)
+					}
 					l.loc = 0
 				}
 			}
 		}
 	}
 	if l.loc != 0 {
-		_ = l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile)
+		if err := l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile); err != nil {
+			_ = l.fail(err)
+		}
 	}
 	/* usually read size is interface->packed */
 	inter.readSize = inter.packed - l.compsize
-- 
2.43.0


From 05b182da6bc27f74feca78e6b6e46c9a11936164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:14 +0000
Subject: [PATCH 11/38] fix: write the low bits of -lh1- codes longer than 16
 bits from the right place

---
 dhuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhuf.go b/dhuf.go
index b988dd8..8ec7e03 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -300,7 +300,7 @@ func (l *Lha) encodeCDyn(c uint) {
 		_ = l.putcode(byte(cnt), uint16(bits>>16))
 	} else {
 		_ = l.putcode(16, uint16(bits>>16))
-		_ = l.putbits(byte(cnt-16), uint16(bits))
+		_ = l.putcode(byte(cnt-16), uint16(bits))
 	}
 	if d >= 0 {
 		_ = l.putbits(8, uint16(d))
-- 
2.43.0


From 77bdb86f4dcaf2c16e483bc19fb9f16734c33429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 12/38] fix: report encoding errors to the caller instead of
 dropping them

---
 append.go | 23 +++++++++++++++++++----
 bitio.go  |  2 +-
 slide.go  | 10 +++++-----
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/append.go b/append.go
index 7181430..1d59494 100644
--- a/append.go
+++ b/append.go
@@ -29,7 +29,11 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 	if method < 0 {
 		method = l.CompressMethod
 		if method > 0 {
-			method, _ = encodeAlloc(method)
+			var err error
+			method, err = encodeAlloc(method)
+			if err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -40,17 +44,28 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 		inter.outfile = *outfp
 		inter.original = size
 		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
-		crc, _ = l.encode(inter)
+		var err error
+		crc, err = l.encode(inter)
+		if err != nil {
+			return 0, err
+		}
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
 	} else {
-		*original_size_var, _ = copyfile(infp, outfp, size, 0, &crc)
+		var err error
+		*original_size_var, err = copyfile(infp, outfp, size, 0, &crc)
+		if err != nil {
+			return 0, err
+		}
 		*packed_size_var = *original_size_var
 	}
 	copy(hdr_method, "-lh -")
 	hdr_method[3] = byte(inter.method) + '0'
 
-	indice := ((*packed_size_var * 100) / *original_size_var)
+	indice := 0
+	if *original_size_var > 0 {
+		indice = (*packed_size_var * 100) / *original_size_var
+	}
 	finishIndicator2(string(name), "Frozen", &indice)
 	return crc, nil
 }
diff --git a/bitio.go b/bitio.go
index 5847120..566f5a0 100644
--- a/bitio.go
+++ b/bitio.go
@@ -71,7 +71,7 @@ func (l *Lha) putcode(n byte, x uint16) error { /* Write leftmost n bits of x */
 			b = append(b, l.subbitbuf)
 			_, err := l.outfile.Write(b)
 			if err != nil {
-				return fmt.Errorf("write error in bitio.c(putcode)")
+				return l.fail(fmt.Errorf("write error in bitio.c(putcode)"))
 			}
 			l.compsize++
 		} else {
diff --git a/slide.go b/slide.go
index 3186354..35434cc 100644
--- a/slide.go
+++ b/slide.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 	"strconv"
 )
 
@@ -280,7 +279,7 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 
 	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
 	if err != nil && io.EOF != err {
-		fmt.Fprintf(os.Stderr, "error while freadCrc : %v\n", err)
+		_ = l.fail(fmt.Errorf("error while freadCrc : %v", err))
 	}
 
 	l.remainder += uint(n)
@@ -403,6 +402,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	l.compsize = 0
 	count = 0
 	l.unpackable = false
+	l.codeErr = nil
 
 	initializeCrc(&crc)
 
@@ -417,7 +417,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	var v int
 
 	v, err = l.freadCrc(&crc, &text, uint(dicsiz), txtsiz-dicsiz, l.infile)
-	if err != nil {
+	if err != nil && err != io.EOF {
 		return 0, err
 	}
 	l.remainder = uint(v)
@@ -432,7 +432,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	token = initHash(pos)
 	insertHash(token, pos) /* associate token and pos */
 
-	for l.remainder > 0 && !l.unpackable {
+	for l.remainder > 0 && !l.unpackable && l.codeErr == nil {
 		last = match
 
 		l.nextToken(&token, &pos, &crc)
@@ -467,7 +467,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	inter.packed = l.compsize
 	inter.original = count
 
-	return crc, nil
+	return crc, l.codeErr
 }
 
 func initSlide() {
-- 
2.43.0


From 0e8c71469f07e5a4d60660a716d17c9e2457fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:24 +0000
Subject: [PATCH 13/38] fix: parse extended headers, names and header CRCs as
 the format defines them

---
 header.go | 125 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 82 insertions(+), 43 deletions(-)

diff --git a/header.go b/header.go
index 67517d3..d674263 100644
--- a/header.go
+++ b/header.go
@@ -302,21 +302,27 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 	var dirLength, i int
 	wholeSize := headerSize
 	var extType int
-	n := i + l.SizeFieldLength /* `ext-type' + `next-header size' */
+	n := 1 + l.SizeFieldLength /* `ext-type' + `next-header size' */
 	if l.HeaderLevel == 0 {
 		return nil, 0
 	}
 
-	for l.HeaderSize != 0 {
+	for headerSize != 0 {
 		setupGet(&data, 0, len(data))
-		if len(data) < l.HeaderSize {
-			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
+		if len(data) < headerSize {
+			return fmt.Errorf("header size (%d) too large", headerSize), 0
 		}
-		nb, err := (*fp).Read(data[:l.HeaderSize])
-		if err != nil || nb == 0 {
+		if headerSize < n {
+			return fmt.Errorf("header size (%d) too small", headerSize), 0
+		}
+		_, err := io.ReadFull(*fp, data[:headerSize])
+		if err != nil {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
 		extType = int(getByte())
+		if headerSize-n < extendedHeaderMin(extType) {
+			extType = -1 /* too short to hold its field, skip it */
+		}
 		switch extType {
 		case 0:
 			l.HeaderCrc = uint(getWord())
@@ -324,14 +330,14 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* clear buffer for CRC calculation. */
 			data[1] = 0
 			data[2] = 0
-			skipBytes(l.HeaderSize - n - 2)
+			skipBytes(headerSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(l.HeaderSize-n, len(l.Name))
-			l.Name[nameLength-1] = 0
+			l.Name, nameLength = getBytes(headerSize-n, FilenameLength-1)
+			l.Name = append(l.Name[:nameLength], 0)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, len(dirname))
-			dirname[dirLength-1] = 0
+			dirname, dirLength = getBytes(headerSize-n, FilenameLength-1)
+			dirname = dirname[:dirLength]
 		case 0x40:
 			/* MS-DOS attribute */
 			l.Attribute = byte(getWord())
@@ -355,13 +361,17 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* UNIX permission */
 			l.UnixMode = uint16(getWord())
 		case 0x51:
+			/* UNIX gid and uid */
+			l.UnixGid = uint16(getWord())
+			l.UnixUID = uint16(getWord())
+		case 0x52:
 			/* UNIX group name */
-			l.Group, i = getBytes(headerSize-n, len(l.Group))
-			l.Group[i-1] = 0
+			l.Group, i = getBytes(headerSize-n, FilenameLength-1)
+			l.Group = append(l.Group[:i], 0)
 		case 0x53:
 			/* UNIX user name */
-			l.User, i = getBytes(headerSize-n, len(l.User))
-			l.User[i-1] = 0
+			l.User, i = getBytes(headerSize-n, FilenameLength-1)
+			l.User = append(l.User[:i], 0)
 		case 0x54:
 			/* UNIX last modified time */
 			l.UnixLastModifiedStamp = int64(getLongword())
@@ -387,10 +397,9 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			         (level 3 on UNLHA32) */
 			skipBytes(headerSize - n)
 		}
-		if *hcrc != 0 {
-			*hcrc = calcCrc(*hcrc, &data, uint(getPtr), uint(headerSize))
-		}
+		*hcrc = calcCrc(*hcrc, &data, 0, uint(headerSize))
 
+		getPtr = headerSize - l.SizeFieldLength
 		if l.SizeFieldLength == 2 {
 			headerSize = getWord()
 			wholeSize += headerSize
@@ -400,9 +409,29 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		}
 	}
 
+	/* concatenate dirname and filename */
+	if dirLength > 0 {
+		nameLength = min(lengthOfStringInByte(l.Name), FilenameLength-1-dirLength)
+		dirname = append(dirname, l.Name[:nameLength]...)
+		l.Name = append(dirname, 0)
+	}
+
 	return nil, wholeSize
 }
 
+/* smallest contents of an extended header of the given type */
+func extendedHeaderMin(extType int) int {
+	switch extType {
+	case 0, 0x40, 0x50:
+		return 2
+	case 0x41:
+		return 24
+	case 0x51, 0x54:
+		return 4
+	}
+	return 0
+}
+
 const (
 	iHeaderSize     = 0  /* level 0,1,2   */
 	iHeaderChecksum = 1  /* level 0,1     */
@@ -492,9 +521,9 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 
-	if err != nil || nb == 0 {
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -502,6 +531,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("checksum error (LHarc file?)"), false
 	}
 
+	l.HeaderSize += 2                        /* size and checksum fields */
 	l.Method, _ = getBytes(5, len(l.Method)) // sizeof
 	l.PackedSize = getLongword()
 	l.OriginalSize = getLongword()
@@ -509,9 +539,8 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 	l.Attribute = getByte() /* MS-DOS attribute */
 	l.HeaderLevel = getByte()
 	nameLength = int(getByte())
-	l.Name, i = getBytes(nameLength+1, len(l.Name)) // sizeof l.name
-	l.Name[i-1] = 0
-	getPtr--
+	l.Name, i = getBytes(nameLength, FilenameLength-1) // sizeof l.name
+	l.Name = append(l.Name[:i], 0)
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
 	l.UnixGid = 0
@@ -557,7 +586,6 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		skipBytes(extendSize)
 	}
 
-	l.HeaderSize += 2
 	return nil, true
 }
 
@@ -611,8 +639,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -630,8 +658,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 
 	nameLength = int(getByte())
 
-	l.Name, i = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
-	l.Name[i-1] = 0
+	l.Name, i = getBytes(nameLength, FilenameLength-1) // sizeof(l.name)
+	l.Name = append(l.Name[:i], 0)
 
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
@@ -643,6 +671,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	l.ExtendType = getByte()
 
 	dummy = headerSize + 2 - nameLength - iLevel1HeaderSize
+	if dummy < 0 {
+		return fmt.Errorf("invalid header size (LHarc file ?)"), false
+	}
 	if dummy > 0 {
 		skipBytes(dummy) /* skip old style extend header */
 	}
@@ -660,6 +691,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	/* the `packed_size' field contains the extended header size. */
 	/* the `headerSize' field does not. */
 	l.PackedSize -= extendSize
+	if l.PackedSize < 0 {
+		return fmt.Errorf("invalid skip size (LHarc file ?)"), false
+	}
 	l.HeaderSize += extendSize + 2
 
 	return nil, true
@@ -711,8 +745,8 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
-	if err != nil || n == 0 {
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -735,7 +769,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 
 	initializeCrc(&hcrc)
 
-	hcrc = calcCrc(hcrc, &data, 0, uint(n-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(iLevel2HeaderSize))
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
 		return err, false
@@ -746,10 +780,9 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if padding != 0 && padding != 1 {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
-	padding--
-	for padding != 0 {
+	for ; padding != 0; padding-- {
 		buf := make([]byte, 1)
-		_, err := (*fp).Read(buf)
+		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
 			return err, false
 		}
@@ -798,8 +831,11 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
-	if err != nil || nb == 0 {
+	if l.SizeFieldLength != 4 {
+		return fmt.Errorf("invalid size field length (%d)", l.SizeFieldLength), false
+	}
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -827,7 +863,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	extendSize = getLongword()
 
 	initializeCrc(&hcrc)
-	hcrc = calcCrc(hcrc, &data, 0, uint(nb-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(iLevel3HeaderSize))
 
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
@@ -858,9 +894,11 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	var filenameCase int = none
 	var endMark byte
 
+	*l = *NewLzHeader() /* forget the previous header */
+	l.Name = l.Name[:1]
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
-	_, err := (*fp).Read(buf)
+	_, err := io.ReadFull(*fp, buf)
 
 	endMark = buf[0]
 	if err != nil || endMark == 0 {
@@ -868,8 +906,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	}
 	data[0] = endMark
 
-	nb, err := (*fp).Read(data[1:commonHeaderSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[1:commonHeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -921,7 +959,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	case ExtendAmiga:
 		{
 			/* workaround */
-			lenName := len(l.Name)
+			lenName := lengthOfStringInByte(l.Name)
 			if lenName > 0 && l.Name[lenName-1] == lhaPathsep && string(l.Method[:]) == Lzhuff0Method {
 				/* replace with "-lhd-" */
 				copy(l.Method[:], LzhdirsMethod)
@@ -962,7 +1000,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		if p != -1 {
 			/* l.name is symbolic link name */
 			/* l.realname is real name */
-			copy(l.Realname[:], l.Name[p:len(l.Name)-1])
+			copy(l.Realname[:], l.Name[p+1:len(l.Name)-1])
+			l.Name = append(l.Name[:p], 0)
 			/* ok */
 		} else {
 			return fmt.Errorf("unknown symlink name \"%s\"", l.Name), false
@@ -986,7 +1025,7 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 		}
 	}
 	for i = 0; i < len; i++ {
-		index := strings.Index(fromDelim, string((name)[i]))
+		index := strings.IndexByte(fromDelim, (name)[i])
 		if index != -1 {
 			//s := len(fromDelim)
 			(name)[i] = toDelim[index] //name[i] = to_delim[ptr - from_delim];
-- 
2.43.0


From b37524a29bedd91ae9008426b77414e4acfd6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:24 +0000
Subject: [PATCH 14/38] fix: write level 1 and 2 headers and symbolic link
 names that can be read back

---
 header.go | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/header.go b/header.go
index d674263..a3c42e7 100644
--- a/header.go
+++ b/header.go
@@ -1188,14 +1188,15 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
-		p := strings.LastIndex(string(hdr.Name), "|")
-
-		if p == -1 {
-			return fmt.Errorf("symlink name \"%s\" contains '|' char. change it into '_'", hdr.Name)
+		pathname = append(pathname, hdr.Name[:lengthOfStringInByte(hdr.Name)]...)
+		for p := range pathname {
+			if pathname[p] == '|' {
+				pathname[p] = '_' /* '|' separates the name and the real name */
+			}
 		}
-		pathname = append(pathname, hdr.Name...)
 		pathname = append(pathname, '|')
-		pathname = append(pathname, hdr.Realname...)
+		pathname = append(pathname, hdr.Realname[:lengthOfStringInByte(hdr.Realname)]...)
+		pathname = append(pathname, 0)
 	} else {
 		pathname = append(pathname, hdr.Name...)
 		//	copy(pathname, hdr.Name)
@@ -1243,14 +1244,14 @@ func writeUnixInfo(l *LzHeader) {
 	putWord(int(l.UnixUID))
 
 	if l.Group[0] != 0 {
-		length := len(l.Group)
+		length := lengthOfStringInByte(l.Group)
 		putWord(length + 3) /* size */
 		putByte(0x52)       /* group name */
 		putBytes(l.Group[:], length)
 	}
 
 	if l.User[0] != 0 {
-		length := len(l.User)
+		length := lengthOfStringInByte(l.User)
 		putWord(length + 3) /* size */
 		putByte(0x53)       /* user name */
 		putBytes(l.User[:], length)
@@ -1323,16 +1324,17 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	var nameLength, dirLength, limit int
 	var basename, dirname []byte
 	var headerSize int
-	var extendHeaderTop []byte
+	var extendHeaderTop int
 	var extendHeaderSize int
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	pathname = pathname[:lengthOfStringInByte(pathname)]
+	index := strings.LastIndexByte(string(pathname), lhaPathsep)
 
-	if index != 0 {
-		basename = pathname[0:index]
+	if index != -1 {
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1369,9 +1371,8 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	}
 
 	/* write extend header from here. */
-	extendHeaderTop = append(extendHeaderTop, data[putPtr+2:len(data)-(putPtr+2)]...)
-	//extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
-	headerSize = putPtr // - data - 2
+	extendHeaderTop = putPtr + 2     /* +2 for the field `next header size' */
+	headerSize = extendHeaderTop - 2 // - data - 2
 
 	/* write filename and dirname */
 
@@ -1393,12 +1394,11 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	putWord(0x0000) /* next header size */
 
-	extendHeaderSize = len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
+	extendHeaderSize = putPtr - extendHeaderTop
 	/* On level 1 header, the packed size field is contains the ext-header */
-	l.PackedSize += len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
 	/* put `skip size' */
 	setupPut(&data, iPackedSize)
-	putLongWord(l.PackedSize)
+	putLongWord(l.PackedSize + extendHeaderSize)
 
 	data[iHeaderSize] = byte(headerSize)
 	data[iHeaderChecksum] = byte(calcSum(&data, iMethod, headerSize))
@@ -1422,14 +1422,15 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 	//extendHeaderTop := make([]byte, 0)
 	headercrcPtr := 0
 	var hcrc uint
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	pathname = pathname[:lengthOfStringInByte(pathname)]
+	index := strings.LastIndexByte(string(pathname), lhaPathsep)
 
 	if index != -1 {
-		basename = pathname[0:index]
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1472,8 +1473,8 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 
 	/* write filename and dirname */
 	/* must have this header, even if the nameLength is 0. */
-	putWord(nameLength) /* size */
-	//putByte(0x01)           /* filename */
+	putWord(nameLength + 3) /* size */
+	putByte(0x01)           /* filename */
 	putBytes(basename, nameLength)
 
 	if dirLength > 0 {
-- 
2.43.0


From e9fba77c8718eb029ee03798707b4510e428881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:44 +0000
Subject: [PATCH 15/38] fix: store the file type of entries in octal and the
 slash of directory names

---
 header.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index a3c42e7..1e2a4b0 100644
--- a/header.go
+++ b/header.go
@@ -105,21 +105,20 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	// but maybe you want to log warnings
 	hdr.UnixUID = uint16(os.Geteuid())
 	hdr.UnixGid = uint16(os.Getgid())
-	hdr.UnixMode = uint16(info.Mode().Perm()) + 33000
+	hdr.UnixMode = uint16(UnixFileRegular) | uint16(info.Mode().Perm())
 
 	if vStat.IsDir() {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
-		if name[len(name)-1] != '/' {
-			name += "/"
-		}
-		hdr.UnixMode += 40000
+		copy(hdr.Name[:], filename+"/")
+		hdr.UnixMode = uint16(UnixFileDirectory) | uint16(info.Mode().Perm())
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
+		hdr.UnixMode = uint16(UnixFileSymlink) | uint16(vStat.Mode().Perm())
 		realname, err := os.Readlink(name)
 		if err == nil {
 			copy(hdr.Realname, []byte(realname))
-- 
2.43.0


From 0047c831cec1b416d8d4a2d79e5f005b1eecf7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 16/38] fix: MS-DOS time stamps start in 1980 and are converted
 back when read

---
 header.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 1e2a4b0..5d3dad9 100644
--- a/header.go
+++ b/header.go
@@ -221,7 +221,11 @@ func subbits(n, off, len int) int {
 }
 
 func genericToUnixStamp(t int64) int64 {
-	return time.Unix(t, 0).Unix()
+	if t == 0 {
+		return 0 /* no MS-DOS date and time given */
+	}
+	return time.Date(1980+int(t>>25), time.Month(t>>21&0xf), int(t>>16&0x1f),
+		int(t>>11&0x1f), int(t>>5&0x3f), int(t&0x1f)*2, 0, time.Local).Unix()
 }
 
 func setupGet(p *[]byte, index, size int) {
@@ -238,7 +242,7 @@ func setupPut(p *[]byte, index int) {
 
 func unixToGenericStamp(t int64) int {
 	tm := time.Unix(t, 0)
-	us := ((tm.Year() - 80) << 25) +
+	us := ((tm.Year() - 1980) << 25) +
 		(int(tm.Month()) << 21) +
 		(tm.Day() << 16) +
 		(tm.Hour() << 11) +
-- 
2.43.0


From 5d7c983c53172850a7f3254e4ff8f24f419f75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 17/38] fix: extraction reports CRC, read, write and create
 errors; verifying prints no contents

---
 extract.go | 13 ++++++++++++-
 lhext.go   | 33 ++++++++++++++++++++-------------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/extract.go b/extract.go
index 1cf021a..d2d91ea 100644
--- a/extract.go
+++ b/extract.go
@@ -83,7 +83,18 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 			fmt.Printf("no use slide\n")
 		}
 
-		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
+		var err error
+		l.codeErr = nil
+		if VerifyMode {
+			outfp = io.Discard
+		}
+		*read_sizep, err = copyfile(&infp, &outfp, original_size, 2, &crc)
+		if err == nil && *read_sizep != original_size {
+			err = fmt.Errorf("cannot read stream")
+		}
+		if err != nil {
+			_ = l.fail(err)
+		}
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/lhext.go b/lhext.go
index 97ac92d..eb87f4c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1413,10 +1413,13 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			method,
 			&readSize))
 
+		b.Flush()
+		if l.codeErr != nil {
+			return 0, outputData.Bytes(), l.codeErr
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", name)
 		}
-		b.Flush()
 		return readSize, outputData.Bytes(), nil
 	} else {
 		return 0, outputData.Bytes(), fmt.Errorf("cannot not stream directory content")
@@ -1552,21 +1555,25 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			}
 			var err error
 			fp, err = openWithMakePath(string(name[:]))
-			if err == nil {
-				crc = uint(l.DecodeLzhuf(
-					*afp,
-					fp,
-					hdr.OriginalSize,
-					hdr.PackedSize,
-					string(name[:]),
-					method,
-					&readSize))
-				fp.(*os.File).Close()
+			if err != nil {
+				return 0, err
+			}
+			crc = uint(l.DecodeLzhuf(
+				*afp,
+				fp,
+				hdr.OriginalSize,
+				hdr.PackedSize,
+				string(name[:]),
+				method,
+				&readSize))
+			if err := fp.(*os.File).Close(); err != nil {
+				_ = l.fail(err)
 			}
-
-			return readSize, nil
 		}
 
+		if l.codeErr != nil {
+			return 0, l.codeErr
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, fmt.Errorf("CRC error: \"%s\"", name)
 		}
-- 
2.43.0


From bec81454f5363566ac0d88310c4f345fbf440ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 18/38] fix: step over the entries of an archive exactly and
 report damaged ones

---
 lha.go   |  8 +++----
 lhext.go | 70 +++++++++++++++++++++++++++++---------------------------
 2 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/lha.go b/lha.go
index cfccdf7..b0c22ea 100644
--- a/lha.go
+++ b/lha.go
@@ -102,10 +102,10 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
-		if !hasHeader {
-			break
+		if err != nil && err != io.EOF {
+			return headers, err
 		}
-		if err != nil {
+		if !hasHeader {
 			break
 		}
 		headers = append(headers, h)
@@ -124,7 +124,7 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err == nil {
+			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err != nil {
 				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
 			}
 		}
diff --git a/lhext.go b/lhext.go
index eb87f4c..ab4cfcf 100644
--- a/lhext.go
+++ b/lhext.go
@@ -942,7 +942,6 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
-	var i int
 
 	var packedSizeTotal int
 	var originalSizeTotal int
@@ -967,6 +966,9 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	var hasHeader bool
 	for {
 		err, hasHeader = hdr.GetHeader(&afp)
+		if err == io.EOF {
+			err = nil
+		}
 		if !hasHeader {
 			break
 		}
@@ -977,9 +979,10 @@ func CommandList(archiveFilepath string, l *Lha) error {
 			originalSizeTotal += hdr.OriginalSize
 		}
 
-		i = hdr.PackedSize
-		v := make([]byte, i)
-		_, _ = afp.Read(v)
+		err = skipToNextpos(&afp, 0, hdr.PackedSize, 0)
+		if err != nil {
+			break
+		}
 	}
 
 	/* close archive file */
@@ -1062,6 +1065,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	if err != nil {
 		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1078,11 +1082,11 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			return outputData, err
 		}
 		if !hasHeader {
-			return outputData, nil
+			break
 		}
 		pos = 0
 
-		if string(hdr.Name) == string(header.Name) {
+		if sameName(hdr.Name, header.Name) {
 			var readSize int
 			readSize, outputData, err = l.extractOneStream(&afp, hdr)
 			if err != nil {
@@ -1096,15 +1100,12 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1121,6 +1122,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1137,11 +1139,11 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 		pos = 0
 
-		if string(hdr.Name) == string(header.Name) {
+		if sameName(hdr.Name, header.Name) {
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -1154,15 +1156,12 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1182,6 +1181,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1198,7 +1198,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 		pos = 0
 		if l.needFile(string(hdr.Name[:])) {
@@ -1214,15 +1214,12 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1262,18 +1259,18 @@ func (l *Lha) adjustDirinfo() {
 }
 
 func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
-	if pos != -1 {
-		b := make([]byte, pos+off)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	} else {
-		b := make([]byte, off-readSize)
-		_, err := (*fp).Read(b)
+	n := off - readSize /* readSize bytes are consumed already */
+	if n < 0 {
+		return fmt.Errorf("read past the end of the entry")
+	}
+	b := make([]byte, min(n, buffersize))
+	for n > 0 {
+		b = b[:min(n, len(b))]
+		_, err := io.ReadFull(*fp, b)
 		if err != nil {
 			return err
 		}
+		n -= len(b)
 	}
 	return nil
 }
@@ -1644,12 +1641,17 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 
 }
 
+/* sameName compares the names up to their terminating NUL */
+func sameName(a, b []byte) bool {
+	return string(a[:lengthOfStringInByte(a)]) == string(b[:lengthOfStringInByte(b)])
+}
+
 func (l *Lha) needFile(name string) bool {
 	if l.CmdFilec == 0 {
 		return true
 	}
 	for i := 0; i < len(l.CmdFilev); i++ {
-		if l.CmdFilev[i] == name {
+		if sameName([]byte(l.CmdFilev[i]), []byte(name)) {
 			return true
 		}
 	}
-- 
2.43.0


From 472c292bcee134cfeb5338e16fdb3cbd4af8aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:15 +0000
Subject: [PATCH 19/38] fix: extracting an entry which is not in the archive is
 an error

---
 lhext.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lhext.go b/lhext.go
index ab4cfcf..0232c60 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1059,6 +1059,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	var pos int
 	var afp io.Reader
 	var outputData []byte
+	var found bool
 
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
@@ -1088,6 +1089,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 
 		if sameName(hdr.Name, header.Name) {
 			var readSize int
+			found = true
 			readSize, outputData, err = l.extractOneStream(&afp, hdr)
 			if err != nil {
 				return outputData, err
@@ -1109,11 +1111,15 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return outputData, fmt.Errorf("\"%s\" is not in the archive", header.Name)
+	}
 	return outputData, nil
 }
 
 func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
+	var found bool
 	var pos int
 	var afp io.Reader
 
@@ -1144,6 +1150,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		pos = 0
 
 		if sameName(hdr.Name, header.Name) {
+			found = true
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -1165,6 +1172,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return fmt.Errorf("\"%s\" is not in the archive", header.Name)
+	}
 	return nil
 }
 
-- 
2.43.0


From 9853ff4bdba8bad201f7cb6798e9ebccf23f562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 20/38] fix: overwrite questions honour the answer

---
 lhext.go | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/lhext.go b/lhext.go
index 0232c60..3a82db3 100644
--- a/lhext.go
+++ b/lhext.go
@@ -79,15 +79,23 @@ func isDirectoryTraversal(path string) bool {
 }
 
 func inquire(msg string, name string, selective string) int {
-	reader := bufio.NewReader(os.Stdin)
-
 	for {
 		fmt.Fprintf(os.Stdout, "%s %s ", name, msg)
-		response, _ := reader.ReadString('\n')
+		response := []byte{'\n'} /* what the end of the input counts as */
+		/* read no more than this line, the next question needs the rest */
+		b := make([]byte, 1)
+		for n := 0; b[0] != '\n'; n++ {
+			if _, err := io.ReadFull(os.Stdin, b); err != nil {
+				break
+			}
+			if n == 0 {
+				response[0] = b[0]
+			}
+		}
 
-		for i := 0; i <= len(selective); i++ {
-			if response[0] == selective[0] {
-				return i - len(selective)
+		for i := 0; i < len(selective); i++ {
+			if response[0] == selective[i] {
+				return i
 			}
 		}
 	}
@@ -117,19 +125,14 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 		if !l.Force {
 
 			switch inquire("OverWrite ?(Yes/[No]/All/Skip)", name, "YyNnAaSs\n") {
-			case 0:
-			case 1: /* Y/y */
+			case 0, 1: /* Y/y */
 
-			case 2:
-			case 3: /* N/n */
-			case 8: /* Return */
+			case 2, 3, 8: /* N/n, Return */
 				return false, fmt.Errorf("skip no response")
-			case 4:
-			case 5: /* A/a */
+			case 4, 5: /* A/a */
 				l.Force = true
 
-			case 6:
-			case 7: /* S/s */
+			case 6, 7: /* S/s */
 				l.skipFlg = true
 
 			}
@@ -1547,10 +1550,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 
 			if l.skipFlg {
 				_, err := os.Lstat(string(name[:]))
-				if err != nil && os.IsExist(err) {
-					return 0, err
-				}
-				if !l.Force {
+				if err == nil && !l.Force {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
 					}
-- 
2.43.0


From d8b9180d06fc66a5f84f0c077235ef57ab484ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:43 +0000
Subject: [PATCH 21/38] fix: extract below the extraction directory only, never
 through existing links

---
 lhext.go | 102 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 52 insertions(+), 50 deletions(-)

diff --git a/lhext.go b/lhext.go
index 3a82db3..1f0acab 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1250,14 +1250,14 @@ func adjustInfo(name string, hdr *LzHeader) {
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileTypemask) {
+		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {
 			_ = os.Chmod(name, os.FileMode(hdr.UnixMode))
 		}
 
 		uid := hdr.UnixUID
 		gid := hdr.UnixGid
 
-		_ = os.Chown(name, int(uid), int(gid))
+		_ = os.Lchown(name, int(uid), int(gid))
 
 	}
 
@@ -1290,42 +1290,24 @@ func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
 
 func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
 
-	var offset int
+	q = q[:lengthOfStringInByte([]byte(q))]
+	name = ""
 	if len(l.ExtractDirectory) > 0 {
 		name = l.ExtractDirectory + "/"
-		offset += len(name)
 	}
-	var p int
-	p = strings.Index(q, "/")
-	for p != -1 {
-		name += q[p:]
-		offset += len(q) - p
-
-		_, err := os.Lstat(name)
-		if err != nil {
-			return false, []byte(name), err
-		}
-		_, err = filepath.EvalSymlinks(name)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "this not a symlink [%s] : %v\n ", name, err)
-			return false, []byte(name), nil
-		}
-		p = strings.Index(q[p:], "/")
-	}
-	last := namesz - offset
-	if offset == 0 {
-		last = len(q) - 1
+	if strings.Contains(q, "/") || len(name)+len(q) > namesz {
+		return false, []byte(name), nil
 	}
-	name = q[offset:last]
+	name += q
 	return true, []byte(name), nil
 }
 
 func makeParentPath(name string) (bool, error) {
 	st, err := os.Lstat(name)
-	if err != nil {
+	if err != nil && !os.IsNotExist(err) {
 		return false, err
 	}
-	if st.IsDir() {
+	if err == nil && st.IsDir() {
 		return true, nil
 	}
 	err = os.MkdirAll(name, 0777)
@@ -1336,6 +1318,15 @@ func makeParentPath(name string) (bool, error) {
 }
 
 func openWithMakePath(name string) (io.Writer, error) {
+	/* replace a symbolic link rather than write through it */
+	if st, err := os.Lstat(name); err == nil && !st.IsDir() {
+		if err := os.Remove(name); err != nil {
+			return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
+		}
+	}
+	if _, err := makeParentPath(filepath.Dir(name)); err != nil {
+		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
+	}
 	f, err := os.Create(name)
 	if err != nil {
 		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
@@ -1345,15 +1336,18 @@ func openWithMakePath(name string) (io.Writer, error) {
 }
 
 func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
-	var p, tmp, top *LzHeaderList
+	var tmp *LzHeaderList
+	p, top := &LzHeaderList{}, &LzHeaderList{}
 
-	(*p) = LzHeaderList{}
 	if string((*hdr).Method[:]) != LzhdirsMethod {
 		return
 	}
 	(*p).Hdr = &LzHeader{}
-	(*p).Hdr.Name = (*hdr).Name
-	top.Next = l.dirinfo
+	*(*p).Hdr = *hdr
+	(*p).Hdr.Name = []byte(name)
+	if l.dirinfo != nil && l.dirinfo.Hdr != nil {
+		top.Next = l.dirinfo
+	}
 	for tmp = top; tmp.Next != nil; tmp = tmp.Next {
 		if string((*p).Hdr.Name) == string((*tmp).Next.Hdr.Name) {
 			(*p).Next = (*tmp).Next
@@ -1372,9 +1366,13 @@ func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
 func symlinkWithMakePath(realname string, name string) int {
 	var lCode int
 
+	realname = realname[:lengthOfStringInByte([]byte(realname))]
 	err := os.Symlink(realname, name)
 	if err != nil {
-		_, _ = makeParentPath(name)
+		if st, err := os.Lstat(name); err == nil && !st.IsDir() {
+			_ = os.Remove(name)
+		}
+		_, _ = makeParentPath(filepath.Dir(name))
 		err = os.Symlink(realname, name)
 		if err != nil {
 			lCode = 1
@@ -1447,20 +1445,22 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	var c byte
 	var readSize int
 
-	p := strings.LastIndex(string(hdr.Name[:]), "/")
-	if p == -1 {
-		p = 0
+	/* directory names end with a slash */
+	end := lengthOfStringInByte(hdr.Name)
+	for end > 1 && hdr.Name[end-1] == '/' {
+		end--
 	}
+	entryName := append(append([]byte{}, hdr.Name[:end]...), 0)
+	p := strings.LastIndex(string(entryName), "/")
 	if l.IgnoreDirectory {
 		p++
 	} else {
-
-		if isDirectoryTraversal(string(hdr.Name[p:])) {
-			return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name[p:])
+		if p == -1 {
+			p = 0
 		}
 
-		if hdr.Name[p] == '/' {
-			for hdr.Name[p] == '/' {
+		if entryName[p] == '/' {
+			for entryName[p] == '/' {
 				p++
 			}
 
@@ -1469,20 +1469,24 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			 */
 			if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 				for {
-					c = hdr.Name[p]
+					c = entryName[p]
 					p++
-					if p >= len(hdr.Name) || c == '/' {
+					if p >= len(entryName) || c == '/' {
 						break
 					}
 				}
-				if c != 0 || hdr.Name[p] != 0 {
-					hdr.Name[p] = '.' /* if device name only */
+				if p >= len(entryName) {
+					entryName = []byte{'.', 0} /* if device name only */
+					p = 0
 				}
 			}
 		}
 
 	}
-	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(hdr.Name[p:]), l)
+	if isDirectoryTraversal(string(entryName[p : len(entryName)-1])) {
+		return 0, fmt.Errorf("possible directory traversal hack attempt in %s", q)
+	}
+	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(entryName[p:]), l)
 	if err != nil || !ok {
 		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
 	}
@@ -1615,10 +1619,8 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 					}
 
 					lcode = symlinkWithMakePath(string(hdr.Realname[:]), string(name[:]))
-					if lcode < 0 {
-						if !Quiet {
-							fmt.Fprintf(os.Stderr, "Can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
-						}
+					if lcode != 0 {
+						return 0, fmt.Errorf("can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
 					}
 					if !Quiet {
 						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
@@ -1626,7 +1628,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				} else { /* make directory */
 					ok, err := makeParentPath(string(name[:]))
 					if err != nil || !ok {
-						return readSize, nil
+						return readSize, fmt.Errorf("cannot make directory \"%s\"", name)
 					}
 					/* save directory information */
 					l.addDirinfo(string(name[:]), hdr)
-- 
2.43.0


From ddc4dbce7748a3dde3cac875323399a0ee5474ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:06 +0000
Subject: [PATCH 22/38] fix: rewrite the header of the entry just added and
 store incompressible data verbatim

---
 lhext.go | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/lhext.go b/lhext.go
index 1f0acab..57e6da2 100644
--- a/lhext.go
+++ b/lhext.go
@@ -295,13 +295,24 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	l.writingFilename = l.temporaryName
 
 	/* directory and symlink are ignored for time-stamp archiving */
-	if string(hdr.Method) == "-lhd-" {
+	if string(hdr.Method) != "-lhd-" {
 		if l.mostRecent < hdr.UnixLastModifiedStamp {
 			l.mostRecent = hdr.UnixLastModifiedStamp
 		}
 	}
 
-	_ = WriteHeader(nafp, hdr) /* DUMMY */
+	/* where this entry starts, the archive may hold others before it */
+	headerPos, err := (*nafp).(*os.File).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err := WriteHeader(nafp, hdr); err != nil { /* DUMMY */
+		return err
+	}
+	dataPos, err := (*nafp).(*os.File).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
@@ -315,19 +326,28 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-	hdr.Crc, _ = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
+	hdr.Crc, err = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
 		&vOriginalSize, &vPackedSize, hdr.Name, hdr.Method)
+	if err != nil {
+		return err
+	}
 
 	if vPackedSize < vOriginalSize {
 		//	next_pos = 0 //ftello(nafp)
 	} else { /* retry by stored method */
-		var err error
+		if _, err := (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
+			return err
+		}
+		if err := (*nafp).(*os.File).Truncate(dataPos); err != nil {
+			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+		}
+		if _, err := (*nafp).(*os.File).Seek(dataPos, io.SeekStart); err != nil {
+			return err
+		}
 		hdr.Crc, err = encodeStoredCrc(fp, nafp, hdr.OriginalSize, &vOriginalSize, &vPackedSize)
-		//if ftruncate(fileno(nafp), next_pos) == -1 {
 		if err != nil {
-			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			return err
 		}
-		//}
 
 		//if chsize(fileno(nafp), next_pos) == -1 {
 		//	return fmt.Errorf("cannot truncate archive")
@@ -338,10 +358,14 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	hdr.OriginalSize = vOriginalSize
 	hdr.PackedSize = vPackedSize
 	// go back to the beginning to set the new header
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekStart)
-	_ = WriteHeader(nafp, hdr)
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekEnd)
-	return nil
+	if _, err := (*nafp).(*os.File).Seek(headerPos, io.SeekStart); err != nil {
+		return err
+	}
+	if err := WriteHeader(nafp, hdr); err != nil {
+		return err
+	}
+	_, err = (*nafp).(*os.File).Seek(0, io.SeekEnd)
+	return err
 }
 
 func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-- 
2.43.0


From e8c1d00714d68dcf75e69124c611a6e67a0d25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:13 +0000
Subject: [PATCH 23/38] fix: updating an archive keeps its other entries and
 fails without touching it

---
 lha.go   |  33 ++--
 lhext.go | 553 +++++++++++++++++++++++++------------------------------
 2 files changed, 263 insertions(+), 323 deletions(-)

diff --git a/lha.go b/lha.go
index b0c22ea..c1aac2a 100644
--- a/lha.go
+++ b/lha.go
@@ -64,6 +64,7 @@ type Lha struct {
 	ExtractDirectory               string
 	codeErr                        error /* first error of the running encode or decode */
 
+	adding               []*LzHeader /* the entries the running update adds */
 	ExcludeFiles         []string
 	CmdFilev             []string
 	CmdFilec             int
@@ -148,15 +149,13 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, filename)
-	l.CmdFilec++
+	/* the body belongs to this file only */
+	defer l.setFiles(l.CmdFilev, l.CmdFilec)
+	l.setFiles([]string{filename}, 1)
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	l.newArchive = os.IsNotExist(err)
+	if err != nil && !l.newArchive {
+		return err
 	}
 
 	return compressBytes(l.archiveName, body, l)
@@ -164,17 +163,19 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	l.newArchive = os.IsNotExist(err)
+	if err != nil && !l.newArchive {
+		return err
 	}
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, fileToAdd)
-	l.CmdFilec++
+	defer l.setFiles(l.CmdFilev, l.CmdFilec)
+	l.setFiles(append(append([]string{}, l.CmdFilev...), fileToAdd), l.CmdFilec+1)
 	return CommandAdd(l.archiveName, l)
 }
+
+func (l *Lha) setFiles(filev []string, filec int) {
+	l.CmdFilev = filev
+	l.CmdFilec = filec
+}
diff --git a/lhext.go b/lhext.go
index 57e6da2..37b0419 100644
--- a/lhext.go
+++ b/lhext.go
@@ -151,8 +151,9 @@ func lhaExit(status int) {
 	os.Exit(status)
 }
 
-func writeArchiveTail(nafp *io.Writer) {
-	_, _ = (*nafp).Write([]byte{0x00})
+func writeArchiveTail(nafp *io.Writer) error {
+	_, err := (*nafp).Write([]byte{0x00})
+	return err
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
@@ -178,20 +179,106 @@ func buildTemporaryFile(l *Lha) (*os.File, error) {
 	l.temporaryName = f.Name()
 	return f, nil
 }
-func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
-	if !l.Noexec {
-		var v uint
-		l.readingFilename = l.archiveName
-		l.writingFilename = l.temporaryName
-		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
+
+/* copyOldOne copies the entry which starts at position start, header included */
+func copyOldOne(oafp *io.Reader, nafp *io.Writer, start int64, hdr *LzHeader, l *Lha) error {
+	if l.Noexec {
+		return skipToNextpos(oafp, 0, hdr.PackedSize, 0)
+	}
+	l.readingFilename = l.archiveName
+	l.writingFilename = l.temporaryName
+	pos, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if _, err := (*oafp).(io.Seeker).Seek(start, io.SeekStart); err != nil {
+		return err
+	}
+	size := int(pos-start) + hdr.PackedSize
+	n, err := copyfile(oafp, nafp, size, 0, nil)
+	if err != nil {
+		return err
+	}
+	if n != size {
+		return fmt.Errorf("archive \"%s\" is truncated", l.archiveName)
+	}
+
+	/* directory and symlink are ignored for time-stamp archiving */
+	if string(hdr.Method) != LzhdirsMethod && l.mostRecent < hdr.UnixLastModifiedStamp {
+		l.mostRecent = hdr.UnixLastModifiedStamp
+	}
+	return nil
+}
+
+/* isAdding tells whether an entry of this name is going to be added */
+func (l *Lha) isAdding(name []byte) bool {
+	for _, hdr := range l.adding {
+		if sameName(hdr.Name, name) {
+			return true
+		}
+	}
+	return false
+}
+
+/*
+	copyOldEntries copies the entries of the old archive except those to be
+
+replaced. In a sorted archive it stops where the entry before has its place.
+*/
+func (l *Lha) copyOldEntries(oafp *io.Reader, nafp *io.Writer, before *LzHeader) error {
+	for *oafp != nil {
+		start, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
 		if err != nil {
 			return err
 		}
+		ahdr := NewLzHeader()
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if err != nil && err != io.EOF {
+			return err
+		}
+		if !hasHeader {
+			*oafp = nil
+			break
+		}
 
-		/* directory and symlink are ignored for time-stamp archiving */
-		copy(hdr.Method, "-lhd-")
-		if l.mostRecent < hdr.UnixLastModifiedStamp {
-			l.mostRecent = hdr.UnixLastModifiedStamp
+		if l.isAdding(ahdr.Name) { /* REPLACE */
+			/* drop old archive's */
+			err = skipToNextpos(oafp, 0, ahdr.PackedSize, 0)
+		} else if before != nil && l.SortContents && string(ahdr.Name) > string(before.Name) { /* INSERT */
+			_, err = (*oafp).(io.Seeker).Seek(start, io.SeekStart)
+			return err
+		} else { /* SKIP */
+			/* copy old to new */
+			err = copyOldOne(oafp, nafp, start, ahdr, l)
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+/* keepNewer leaves the entries alone which are not older than their file */
+func (l *Lha) keepNewer(oafp *io.Reader) error {
+	for *oafp != nil {
+		ahdr := NewLzHeader()
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if err != nil && err != io.EOF {
+			return err
+		}
+		if !hasHeader {
+			_, err = (*oafp).(io.Seeker).Seek(0, io.SeekStart)
+			return err
+		}
+		for i := 0; i < len(l.adding); i++ {
+			if sameName(l.adding[i].Name, ahdr.Name) &&
+				ahdr.UnixLastModifiedStamp >= l.adding[i].UnixLastModifiedStamp {
+				l.adding = append(l.adding[:i], l.adding[i+1:]...)
+				i--
+			}
+		}
+		if err := skipToNextpos(oafp, 0, ahdr.PackedSize, 0); err != nil {
+			return err
 		}
 	}
 	return nil
@@ -208,8 +295,7 @@ func addSP(sp *stringPool, name []byte, size int) {
 	for sp.Used+size > sp.Size {
 		sp.Size *= 2
 	}
-	sp.Buffer[sp.N] = make([]byte, size)
-	copy(sp.Buffer[sp.N], name)
+	sp.Buffer = append(sp.Buffer, append([]byte{}, name[:size]...))
 	sp.Used += size
 	sp.N++
 }
@@ -218,10 +304,10 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	for i := 0; i < sp.N; i++ {
 		(*vVector) = append((*vVector), string(sp.Buffer[i]))
 	}
+	*vCount = len(*vVector)
 }
 
 func findUpdateFiles(oafp *io.Reader, l *Lha) {
-	name := make([]byte, FilenameLength)
 	sp := stringPool{}
 	hdr := NewLzHeader()
 	var lenName int
@@ -237,41 +323,30 @@ func findUpdateFiles(oafp *io.Reader, l *Lha) {
 		if !hasHeader {
 			break
 		}
-		if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileRegular {
-			_, err = os.Lstat(string(name))
-
-			if os.IsExist(err) { /* exist ? */
-				addSP(&sp, hdr.Name, len(hdr.Name)+1)
-			}
-		} else {
-			if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileDirectory {
-				copy(name, hdr.Name) /* ok */
-				lenName = len(name)
-				if lenName > 0 && name[lenName-1] == '/' {
-					lenName--
-					name[lenName] = 0 /* strip tail '/' */
-				}
-				_, err = os.Lstat(string(name))
-
-				if os.IsExist(err) { /* exist ? */
-					addSP(&sp, name, lenName+1)
-				}
-			}
+		lenName = lengthOfStringInByte(hdr.Name)
+		if (int(hdr.UnixMode)&UnixFileTypemask) == UnixFileDirectory && lenName > 0 && hdr.Name[lenName-1] == '/' {
+			lenName-- /* strip tail '/' */
+		}
+		_, err = os.Lstat(string(hdr.Name[:lenName]))
+		if err == nil { /* exist ? */
+			addSP(&sp, hdr.Name, lenName)
+		}
+		if err := skipToNextpos(oafp, 0, hdr.PackedSize, 0); err != nil {
+			break
 		}
-		//	fseeko(oafp, hdr.packed_size, SEEK_CUR)
 	}
 
-	//fseeko(oafp, pos, SEEK_SET)
+	_, _ = (*oafp).(io.Seeker).Seek(0, io.SeekStart)
 
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
 
 }
 
-// nolint: unused, deadcode
 func buildBackupName(buffer, original string) []byte {
 	return modifyFilenameExtenstion([]byte(original), []byte(backupNameExtension), len(original))
 }
 func buildBackupFile(l *Lha) error {
+	l.backupArchiveName = buildBackupName("", l.archiveName)
 	return os.Rename(l.archiveName, string(l.backupArchiveName))
 }
 
@@ -368,14 +443,9 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	return err
 }
 
-func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-	ahdr := NewLzHeader()
+func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) error {
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
-	var filec int
-	var filev []string
-	var i int
 	var stbuf os.FileInfo
 	var err error
 
@@ -383,106 +453,93 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 
 	stbuf, err = os.Lstat(name)
 	if err != nil {
-		return oafp, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
+		return fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
 	}
 
 	directory = stbuf.IsDir()
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
 
 	if !directory && !symlink && !l.Noexec {
-		fp, err = os.Open(name)
+		f, err := os.Open(name)
 		if err != nil {
-			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
+			return fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
 		}
+		defer f.Close()
+		fp = f
 	}
 
 	l.initHeader(name, stbuf, hdr)
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
+	return l.appendEntry(name, &fp, oafp, nafp, hdr)
+}
 
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
+/* appendEntry adds the new entry hdr after the old ones which stay before it */
+func (l *Lha) appendEntry(name string, fp *io.Reader, oafp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
+	if !l.isAdding(hdr.Name) { /* the archive has a newer one */
+		return nil
+	}
+	if err := l.copyOldEntries(oafp, nafp, hdr); err != nil {
+		return err
+	}
+	if l.Noexec {
+		fmt.Printf("ADD %s\n", name)
+		return nil
+	}
+	return l.addOne(fp, nafp, hdr)
+}
 
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
+/* isExcluded tells whether the -x option excludes the file */
+func (l *Lha) isExcluded(name string) bool {
+	for j := 0; j < len(l.ExcludeFiles); j++ {
+		a := strings.ToUpper(l.ExcludeFiles[j])
+		b := strings.ToUpper(filepath.Base(name))
+		if a == b {
+			return true
 		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
+	}
+	return false
+}
 
-				break
-			} else { /* cmp > 0, INSERT */
+/*
+	filesToAdd lists the files to add, those of directories included, and
 
-				break
-			}
+prepares the headers of their entries
+*/
+func (l *Lha) filesToAdd(names []string, recursive bool) []string {
+	var files []string
+	for _, name := range names {
+		if name == l.archiveName {
+			/* exclude target archive */
+			fmt.Printf("specified file \"%s\" is the generating archive. skip", name)
+			continue
 		}
-	}
-
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
+		/* exclude files specified by -x option */
+		if l.isExcluded(name) {
+			continue
 		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
+		stbuf, err := os.Lstat(name)
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
+			continue
 		}
-	}
+		hdr := NewLzHeader()
+		l.initHeader(name, stbuf, hdr)
+		l.adding = append(l.adding, hdr)
+		files = append(files, name)
 
-	fp.(*os.File).Close()
-	//fp.Close()
-
-	if directory && l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendIt(filev[i], oafp, nafp)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
+		var filec int
+		var filev []string
+		if recursive && stbuf.IsDir() && findFiles(name, &filec, &filev, l) { /* recursive call */
+			files = append(files, l.filesToAdd(filev, recursive)...)
 		}
 	}
-	return oafp, nil
+	return files
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
-	var i int
 	//	var old_header int
 	var oldArchiveExist bool
 	var fw *os.File
@@ -497,10 +554,14 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
 		oldArchiveExist = true
 		oafp = fr
+		defer fr.Close()
 	}
 
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -511,7 +572,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	if l.newArchive && oldArchiveExist {
-		fr.Close()
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -527,12 +588,18 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* build temporary file */
 	/* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
-		var err error
 		fw, err = buildTemporaryFile(l)
 		if err != nil {
 			return err
 		}
 		nafp = fw
+		/* the old archive stays as it is unless the new one is complete */
+		defer func() {
+			fw.Close()
+			if err != nil {
+				os.Remove(l.temporaryName)
+			}
+		}()
 	}
 
 	/* find needed files when automatic update */
@@ -544,65 +611,36 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
 		if !l.Noexec {
-			fw.Close()
+			os.Remove(l.temporaryName)
 		}
 		return nil
 	}
 
-	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
-			continue
+	l.adding = nil
+	files := l.filesToAdd(l.CmdFilev, l.RecursiveArchiving)
+	if l.UpdateIfNewer {
+		if err = l.keepNewer(&oafp); err != nil {
+			return err
 		}
-
-		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-			oafp = *pf
+	}
+	for _, name := range files {
+		if err = l.appendIt(name, &oafp, &nafp); err != nil {
+			return err
 		}
-
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
-		}
-		fr.Close()
+	if err = l.copyOldEntries(&oafp, &nafp, nil); err != nil {
+		return err
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err = writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -611,13 +649,15 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if err = fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
-		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
+		if err = buildBackupFile(l); err != nil {
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
@@ -627,7 +667,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	if !l.Noexec {
 
 		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
+			err = os.Rename(l.temporaryName, l.newArchiveName)
 			if err != nil {
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
@@ -639,8 +679,8 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
+	if l.DeleteAfterAppend && !l.Noexec {
+		removeFiles(len(files), files)
 	}
 
 	return nil
@@ -678,106 +718,32 @@ func (s *StreamFileInfo) Sys() interface{} {
 	return nil
 }
 
-func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) (*io.Reader, error) {
-	ahdr := NewLzHeader()
+func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) error {
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
-	var filec int
-	var filev []string
-	var i int
 	stbuf := &StreamFileInfo{
 		name:    name,
 		size:    int64(len(body)),
 		modTime: time.Now(),
 		//sys:     &syscall.Stat_t{Gid: 100, Uid: 100, Mode: 33188},
 	}
-	var err error
 
 	fp = bytes.NewReader(body)
 	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
-
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-				break
-			}
-		}
-	}
-
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
+	l.adding = []*LzHeader{hdr}
+	if l.UpdateIfNewer {
+		if err := l.keepNewer(oafp); err != nil {
+			return err
 		}
 	}
 
-	if l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendBytes(filev[i], oafp, nafp, body)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
-		}
-	}
-	return oafp, nil
+	return l.appendEntry(name, &fp, oafp, nafp, hdr)
 }
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
-	var i int
 	//	var old_header int
 	var oldArchiveExist bool
 	var fw *os.File
@@ -792,10 +758,14 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
 		oldArchiveExist = true
 		oafp = fr
+		defer fr.Close()
 	}
 
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -806,7 +776,7 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	}
 
 	if l.newArchive && oldArchiveExist {
-		fr.Close()
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -822,12 +792,18 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	/* build temporary file */
 	/* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
-		var err error
 		fw, err = buildTemporaryFile(l)
 		if err != nil {
 			return err
 		}
 		nafp = fw
+		/* the old archive stays as it is unless the new one is complete */
+		defer func() {
+			fw.Close()
+			if err != nil {
+				os.Remove(l.temporaryName)
+			}
+		}()
 	}
 
 	/* find needed files when automatic update */
@@ -839,65 +815,34 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
 		if !l.Noexec {
-			fw.Close()
+			os.Remove(l.temporaryName)
 		}
 		return nil
 	}
 
-	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
+	for _, name := range l.CmdFilev {
+		if name == l.archiveName || l.isExcluded(name) {
+			/* exclude target archive and files specified by -x option */
+			fmt.Printf("specified file \"%s\" is excluded. skip", name)
 			continue
 		}
-
-		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-			oafp = *pf
+		if err = l.appendBytes(name, &oafp, &nafp, body); err != nil {
+			return err
 		}
-
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
-		}
-		fr.Close()
+	if err = l.copyOldEntries(&oafp, &nafp, nil); err != nil {
+		return err
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err = writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -906,13 +851,15 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if err = fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
-		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
+		if err = buildBackupFile(l); err != nil {
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
@@ -922,7 +869,7 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	if !l.Noexec {
 
 		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
+			err = os.Rename(l.temporaryName, l.newArchiveName)
 			if err != nil {
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
@@ -934,7 +881,7 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	}
 
 	/* remove archived files */
-	if l.DeleteAfterAppend {
+	if l.DeleteAfterAppend && !l.Noexec {
 		removeFiles(l.CmdFilec, l.CmdFilev)
 	}
 
@@ -1928,14 +1875,6 @@ func printSize(packedSize, originalSize int, l *Lha) {
 	}
 }
 
-func freeFiles(filec int, filev *[]string) {
-	freeSp(filev)
-}
-
-func freeSp(filev *[]string) {
-	(*filev) = (*filev)[:0]
-}
-
 func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 
 	sp := &stringPool{}
-- 
2.43.0


From 8766245f0d04f6652fcb4eec7791ce3087dbc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:18 +0000
Subject: [PATCH 24/38] fix: a damaged match does not extend a file past its
 original size

---
 slide.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slide.go b/slide.go
index 35434cc..9dec6a6 100644
--- a/slide.go
+++ b/slide.go
@@ -176,6 +176,8 @@ func (l *Lha) decode(inter *interfacing) uint {
 					decodeCount, match.len, decodeCount-int(match.off))
 			}
 
+			/* a match may not run past the end of the file */
+			match.len = min(match.len, l.origsize-decodeCount)
 			decodeCount += match.len
 			for i = 0; i < uint(match.len); i++ {
 				c = uint(dtext[(matchpos+i)&dicsiz1])
-- 
2.43.0


From 91114d21d3502c132bef09167b618394363a7458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:32 +0000
Subject: [PATCH 25/38] fix: a file or directory that cannot be accessed makes
 the update fail

---
 lhext.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/lhext.go b/lhext.go
index 37b0419..8291be1 100644
--- a/lhext.go
+++ b/lhext.go
@@ -505,7 +505,7 @@ func (l *Lha) isExcluded(name string) bool {
 
 prepares the headers of their entries
 */
-func (l *Lha) filesToAdd(names []string, recursive bool) []string {
+func (l *Lha) filesToAdd(names []string, recursive bool) ([]string, error) {
 	var files []string
 	for _, name := range names {
 		if name == l.archiveName {
@@ -518,10 +518,13 @@ func (l *Lha) filesToAdd(names []string, recursive bool) []string {
 			continue
 		}
 		stbuf, err := os.Lstat(name)
-		if err != nil {
+		if os.IsNotExist(err) {
 			fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
 			continue
 		}
+		if err != nil {
+			return nil, err
+		}
 		hdr := NewLzHeader()
 		l.initHeader(name, stbuf, hdr)
 		l.adding = append(l.adding, hdr)
@@ -529,11 +532,18 @@ func (l *Lha) filesToAdd(names []string, recursive bool) []string {
 
 		var filec int
 		var filev []string
-		if recursive && stbuf.IsDir() && findFiles(name, &filec, &filev, l) { /* recursive call */
-			files = append(files, l.filesToAdd(filev, recursive)...)
+		if recursive && stbuf.IsDir() { /* recursive call */
+			if _, err := findFiles(name, &filec, &filev, l); err != nil {
+				return nil, err
+			}
+			below, err := l.filesToAdd(filev, recursive)
+			if err != nil {
+				return nil, err
+			}
+			files = append(files, below...)
 		}
 	}
-	return files
+	return files, nil
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
@@ -618,7 +628,10 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	l.adding = nil
-	files := l.filesToAdd(l.CmdFilev, l.RecursiveArchiving)
+	files, err := l.filesToAdd(l.CmdFilev, l.RecursiveArchiving)
+	if err != nil {
+		return err
+	}
 	if l.UpdateIfNewer {
 		if err = l.keepNewer(&oafp); err != nil {
 			return err
@@ -1875,7 +1888,7 @@ func printSize(packedSize, originalSize int, l *Lha) {
 	}
 }
 
-func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
+func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) (bool, error) {
 
 	sp := &stringPool{}
 	newname := make([]byte, FilenameLength)
@@ -1886,18 +1899,21 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 		newname = append(newname, '/')
 	}
 
-	fileinfo, _ := os.Lstat(name)
+	fileinfo, err := os.Lstat(name)
+	if err != nil {
+		return false, err
+	}
 	if !fileinfo.IsDir() {
-		return false
+		return false, nil
 	}
 
 	initSP(sp)
 	files, err := os.ReadDir(name)
 	if err != nil {
-		return false
+		return false, err
 	}
 	if len(files) == 0 {
-		return false
+		return false, nil
 	}
 	for j := 0; j < len(files); j++ {
 		var toExclude bool
@@ -1918,5 +1934,5 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 	finishSP(sp, vfilec, vfilev)
 	sort.Strings(*vfilev)
 	//cleaningFiles(vfilec, vfilev)
-	return true
+	return true, nil
 }
-- 
2.43.0


From b4511738c821da68719af90f123b34c5d00ba798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:18 +0000
Subject: [PATCH 26/38] fix: a directory entry does not change what an existing
 link points to

---
 lhext.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lhext.go b/lhext.go
index 8291be1..2d8c236 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1610,6 +1610,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
 					}
 				} else { /* make directory */
+					/* never change what a symbolic link points to */
+					if st, err := os.Lstat(string(name[:])); err == nil && st.Mode()&os.ModeSymlink != 0 {
+						return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
+					}
 					ok, err := makeParentPath(string(name[:]))
 					if err != nil || !ok {
 						return readSize, fmt.Errorf("cannot make directory \"%s\"", name)
-- 
2.43.0


From d9b3f771dd4f3c80d92bfd26d2bf4a6127f975e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:19 +0000
Subject: [PATCH 27/38] fix: forcing the extraction of an unknown file type
 extracts its data

---
 lhext.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lhext.go b/lhext.go
index 2d8c236..b445bc5 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1486,7 +1486,12 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		}
 	}
 
-	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
+	fileType := int(hdr.UnixMode) & UnixFileTypemask
+	regular := fileType == UnixFileRegular
+	if l.Force && fileType != UnixFileDirectory && fileType != UnixFileSymlink { /* force extract */
+		regular = true
+	}
+	if regular && method != LzhdirsMethodNum {
 		//	extractRegular:
 		l.readingFilename = l.archiveName
 		l.writingFilename = string(name[:])
@@ -1623,11 +1628,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				}
 			}
 		} else {
-			if l.Force { /* force extract */
-				//goto extractRegular
-			} else {
-				return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
-			}
+			return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
 		}
 	}
 
-- 
2.43.0


From 46a32c63abe60591f91b11476959db9c8285297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:21 +0000
Subject: [PATCH 28/38] fix: an entry that cannot replace what is there is an
 error, not a silent skip

---
 lhext.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lhext.go b/lhext.go
index b445bc5..4b7781e 100644
--- a/lhext.go
+++ b/lhext.go
@@ -120,7 +120,8 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 	}
 
 	if l.Noexec {
-		return false, fmt.Errorf("EXTRACT %s but file is exist", name)
+		fmt.Printf("EXTRACT %s but file is exist\n", name)
+		return false, nil
 	} else {
 		if !l.Force {
 
@@ -128,7 +129,7 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 			case 0, 1: /* Y/y */
 
 			case 2, 3, 8: /* N/n, Return */
-				return false, fmt.Errorf("skip no response")
+				return false, nil
 			case 4, 5: /* A/a */
 				l.Force = true
 
@@ -1535,7 +1536,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		} else {
 			if !l.skipFlg {
 
-				upFlag, _ = inquireExtract(string(name[:]), l)
+				upFlag, err = inquireExtract(string(name[:]), l)
+				if err != nil && !l.Force {
+					return 0, err
+				}
 				if !upFlag && !l.Force {
 					return readSize, nil
 				}
@@ -1591,7 +1595,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
 					var lcode int
 					if !l.skipFlg {
-						upFlag, _ = inquireExtract(string(name[:]), l)
+						upFlag, err = inquireExtract(string(name[:]), l)
+						if err != nil && !l.Force {
+							return 0, err
+						}
 						if !upFlag && !l.Force {
 							return readSize, nil
 						}
-- 
2.43.0


From b772275d5b229bcb7bf0a27b4239140219078f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:09 +0000
Subject: [PATCH 29/38] fix: moving files to the archive keeps those the
 archive has newer ones of

---
 lhext.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/lhext.go b/lhext.go
index 4b7781e..fb93d0c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -444,7 +444,7 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	return err
 }
 
-func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) error {
+func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (bool, error) {
 	hdr := NewLzHeader()
 	var fp io.Reader
 	var stbuf os.FileInfo
@@ -454,7 +454,7 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) error {
 
 	stbuf, err = os.Lstat(name)
 	if err != nil {
-		return fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
+		return false, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
 	}
 
 	directory = stbuf.IsDir()
@@ -463,7 +463,7 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) error {
 	if !directory && !symlink && !l.Noexec {
 		f, err := os.Open(name)
 		if err != nil {
-			return fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
+			return false, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
 		}
 		defer f.Close()
 		fp = f
@@ -475,18 +475,18 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) error {
 }
 
 /* appendEntry adds the new entry hdr after the old ones which stay before it */
-func (l *Lha) appendEntry(name string, fp *io.Reader, oafp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
+func (l *Lha) appendEntry(name string, fp *io.Reader, oafp *io.Reader, nafp *io.Writer, hdr *LzHeader) (bool, error) {
 	if !l.isAdding(hdr.Name) { /* the archive has a newer one */
-		return nil
+		return false, nil
 	}
 	if err := l.copyOldEntries(oafp, nafp, hdr); err != nil {
-		return err
+		return false, err
 	}
 	if l.Noexec {
 		fmt.Printf("ADD %s\n", name)
-		return nil
+		return false, nil
 	}
-	return l.addOne(fp, nafp, hdr)
+	return true, l.addOne(fp, nafp, hdr)
 }
 
 /* isExcluded tells whether the -x option excludes the file */
@@ -638,10 +638,15 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 			return err
 		}
 	}
+	var added []string /* without those the archive has newer ones of */
 	for _, name := range files {
-		if err = l.appendIt(name, &oafp, &nafp); err != nil {
+		var isAdded bool
+		if isAdded, err = l.appendIt(name, &oafp, &nafp); err != nil {
 			return err
 		}
+		if isAdded {
+			added = append(added, name)
+		}
 	}
 
 	if err = l.copyOldEntries(&oafp, &nafp, nil); err != nil {
@@ -694,7 +699,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 
 	/* remove archived files */
 	if l.DeleteAfterAppend && !l.Noexec {
-		removeFiles(len(files), files)
+		removeFiles(len(added), added)
 	}
 
 	return nil
@@ -751,7 +756,8 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 		}
 	}
 
-	return l.appendEntry(name, &fp, oafp, nafp, hdr)
+	_, err := l.appendEntry(name, &fp, oafp, nafp, hdr)
+	return err
 }
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
-- 
2.43.0


From 72385175344c9851d6d46dfcd7637d3efb5b5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:09 +0000
Subject: [PATCH 30/38] fix: find the archive inside a self-extracting file

---
 header.go | 43 +++++++++++++++++++++----------------------
 lha.go    |  3 +++
 lhext.go  |  4 ++++
 util.go   |  2 +-
 4 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/header.go b/header.go
index 5d3dad9..2cc7236 100644
--- a/header.go
+++ b/header.go
@@ -1051,15 +1051,17 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 /* skip SFX header */
 func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 	buffer := make([]byte, 64*1024) /* max seek size */
-	var p [64 * 1024]byte
-	var n int
-	n, err := (*fp).Read(buffer)
-	if err != nil {
+	n, err := io.ReadFull(*fp, buffer)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 		return err, 0
 	}
+	seeker, ok := (*fp).(io.Seeker)
+	if !ok {
+		return fmt.Errorf("cannot seek header"), 1
+	}
 
-	for i := 0; i < n; i++ {
-		copy(p[:], buffer[i:len(buffer)-1-i])
+	for i := 0; i+iHeaderLevel < n; i++ {
+		p := buffer[i:n]
 
 		if !(p[iMethod] == '-' && (p[iMethod+1] == 'l' || p[iMethod+1] == 'p') && p[iMethod+4] == '-') {
 			continue
@@ -1067,27 +1069,24 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 		/* found "-[lp]??-" keyword (as METHOD type string) */
 
 		/* level 0 or 1 header */
-		var calcSum byte //calcSum(p+2, p[I_HEADER_SIZE])
-		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 && p[iHeaderChecksum] == calcSum {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		size := int(p[iHeaderSize])
+		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && size > 20 && size+2 <= len(p) && int(p[iHeaderChecksum]) == calcSum(&p, 2, size) {
+			_, err := seeker.Seek(int64(i-n), io.SeekCurrent)
+			return err, 0
 		}
 
-		/* level 2 header */
-		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		/* level 2 or 3 header */
+		if p[iAttribute] == genericAttribute || p[iAttribute] == genericDirectoryAttribute {
+			size |= int(p[iHeaderSize+1]) << 8
+			if p[iHeaderLevel] == 2 && size >= 24 || p[iHeaderLevel] == 3 && size == 4 {
+				_, err := seeker.Seek(int64(i-n), io.SeekCurrent)
+				return err, 0
+			}
 		}
 	}
 
-	//	if fseeko(fp, -n, SEEK_CUR) == -1 {
-	//		return fmt.Errorf("cannot seek header"), 1
-	//	}
-	return nil, -1
+	_, err = seeker.Seek(int64(-n), io.SeekCurrent)
+	return err, -1
 }
 
 // nolint: unused, deadcode
diff --git a/lha.go b/lha.go
index c1aac2a..7a13ce5 100644
--- a/lha.go
+++ b/lha.go
@@ -100,6 +100,9 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	}
 	defer fr.Close()
 	var or io.Reader = fr
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = NewLzHeader().SeekLhaHeader(&or)
+	}
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
diff --git a/lhext.go b/lhext.go
index fb93d0c..d56aaf9 100644
--- a/lhext.go
+++ b/lhext.go
@@ -951,6 +951,10 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	}
 	afp = f
 
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = hdr.SeekLhaHeader(&afp)
+	}
+
 	/* print header message */
 	if !Quiet {
 		listHeader(l)
diff --git a/util.go b/util.go
index f28705d..a80630c 100644
--- a/util.go
+++ b/util.go
@@ -95,7 +95,7 @@ func archiveIsMsdosSfx1(name []byte) bool {
 
 	if length >= 2 {
 		extension := strings.ToUpper(filepath.Ext(string(name)))
-		if extension == ".x" {
+		if extension == ".X" {
 			return true
 		}
 	}
-- 
2.43.0


From e5672060bc797cfce324ce262429664ce2d7ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:49 +0000
Subject: [PATCH 31/38] fix: the command line options -n, -f, -v, -u, -m and -c
 take effect, directories are added with their files

---
 cmd/lharc.go | 19 +++++++------------
 lhext.go     |  4 ++--
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index e59cd72..8ee65a6 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -44,20 +44,12 @@ var (
 	// nolint: unused, deadcode
 	quietMode int
 	// nolint: unused, deadcode
-	newArchive bool
-	// nolint: unused, deadcode
-	updateIfNewer bool
-	// nolint: unused, deadcode
-	deleteAfterAppend bool
-	// nolint: unused, deadcode
 	backupOldArchive bool
 	// nolint: unused, deadcode
 	getFilenameFromStdin bool
 	// nolint: unused, deadcode
 	recoverArchiveWhenInterrupt bool
 	// nolint: unused, deadcode
-	recursiveArchiving bool
-	// nolint: unused, deadcode
 	temporaryFD         int
 	defaultLzhuffMethod = lha.Lzhuff5MethodNum
 	l                   *lha.Lha
@@ -107,6 +99,9 @@ func main() {
 Parse LHA command and options.
 */
 func parseOption() {
+	l.Noexec = *nonexecuteoption
+	l.Force = *forceoption
+	l.Verbose = *verbosemodeoption
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
@@ -124,7 +119,7 @@ func parseOption() {
 	}
 
 	if *createfile != "" {
-		newArchive = true
+		l.NewArchive = true
 		cmd = lha.CmdAdd
 		l.CmdFilev = append(l.CmdFilev, *createfile)
 		l.CmdFilec++
@@ -143,13 +138,13 @@ func parseOption() {
 
 	if *updatefile {
 		cmd = lha.CmdAdd
-		updateIfNewer = true
+		l.UpdateIfNewer = true
 
 	}
 
 	if *movefile {
 		cmd = lha.CmdAdd
-		deleteAfterAppend = true
+		l.DeleteAfterAppend = true
 
 	}
 
@@ -254,7 +249,7 @@ func initVariable() { /* Added N.Watazaki */
 	l.ExtractBrokenArchive = false
 	l.DecodeMacbinaryContents = false
 	l.SortContents = true
-	recursiveArchiving = true
+	l.RecursiveArchiving = true
 	l.DumpLzss = false
 }
 
diff --git a/lhext.go b/lhext.go
index d56aaf9..a53aead 100644
--- a/lhext.go
+++ b/lhext.go
@@ -582,7 +582,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
+	if (l.newArchive || l.NewArchive) && oldArchiveExist {
 		oafp = nil
 	}
 
@@ -614,7 +614,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
+	if l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil {
 		findUpdateFiles(&oafp, l)
 	}
 
-- 
2.43.0


From 30ce7c3a68ff4d2959eae35e90f27745772ad3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 32/38] fix: the command line writes level 2 headers unless
 told otherwise, and generic ones only with -g

---
 cmd/lharc.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index 8ee65a6..5f7cd23 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -31,7 +31,7 @@ var (
 	// nolint: unused, deadcode
 	forceoption        = flag.Bool("f", false, "force (over write at extract) ")
 	printstdoutarchive = flag.Bool("p", false, "Print to STDOUT from archive ")
-	genericformat      = flag.Int("g", 2, " Generic format (for compatibility) 0/1/2 header level (a/u/c) ")
+	genericformat      = flag.Int("g", 5, " Generic format (for compatibility) 0/1/2 header level (a/u/c) ")
 	compressionmethod  = flag.Int("o", 0, "o[567] compression method (a/u/c) ")
 	headerlevel        = flag.Int("h", 2, "0/1/2 header level (a/u/c) ")
 	excludefiles       = flag.String("x", "", "x=<pattern>  eXclude files (a/u/c), format : -x file1,file2,file3 ")
@@ -173,7 +173,6 @@ func parseSubOption() {
 
 	if *compressionmethod != 0 {
 		l.CompressMethod = lha.Lzhuff1MethodNum
-		l.HeaderLevel = 0
 		switch *compressionmethod {
 		case 5:
 			l.CompressMethod = lha.Lzhuff5MethodNum
@@ -218,7 +217,7 @@ func initVariable() { /* Added N.Watazaki */
 
 	l.CompressMethod = defaultLzhuffMethod /* defined in config.h */
 
-	l.HeaderLevel = 0 /* level 2 */
+	l.HeaderLevel = 2 /* level 2 */
 	quietMode = 0
 
 	/* view command flags */
-- 
2.43.0


From 627a51e79b6879d263912c8d70e0b7bcbd14a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:06 +0000
Subject: [PATCH 33/38] fix: extract entries below their directories unless
 these are to be ignored

---
 lhext.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lhext.go b/lhext.go
index a53aead..f658f4c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1290,9 +1290,18 @@ func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []b
 	if len(l.ExtractDirectory) > 0 {
 		name = l.ExtractDirectory + "/"
 	}
-	if strings.Contains(q, "/") || len(name)+len(q) > namesz {
+	if len(name)+len(q) > namesz {
 		return false, []byte(name), nil
 	}
+	/* never follow a symbolic link */
+	for i := 0; i < len(q); i++ {
+		if q[i] != '/' {
+			continue
+		}
+		if st, err := os.Lstat(name + q[:i]); err == nil && st.Mode()&os.ModeSymlink != 0 {
+			return false, []byte(name), nil
+		}
+	}
 	name += q
 	return true, []byte(name), nil
 }
@@ -1446,14 +1455,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		end--
 	}
 	entryName := append(append([]byte{}, hdr.Name[:end]...), 0)
-	p := strings.LastIndex(string(entryName), "/")
+	p := 0
 	if l.IgnoreDirectory {
-		p++
+		p = strings.LastIndex(string(entryName), "/") + 1
 	} else {
-		if p == -1 {
-			p = 0
-		}
-
 		if entryName[p] == '/' {
 			for entryName[p] == '/' {
 				p++
-- 
2.43.0


From c23ce00697fe73b4b1707c9b3484700b404f761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 34/38] fix: files of directories are added with their path, a
 name only once

---
 header.go |  8 +++----
 lhext.go  | 64 +++++++++++++++++++++++++++++++++++++++----------------
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/header.go b/header.go
index 2cc7236..4a5beeb 100644
--- a/header.go
+++ b/header.go
@@ -5,7 +5,6 @@ import (
 	"io"
 	"os"
 	"path"
-	"path/filepath"
 	"strings"
 
 	"time"
@@ -79,7 +78,7 @@ func NewLzHeader() *LzHeader {
 	}
 }
 
-func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
+func (l *Lha) initHeader(name, entryName string, vStat os.FileInfo, hdr *LzHeader) {
 	//var len int
 	n := copy(hdr.Method[:], []byte(Lzhuff0Method))
 	if n != methodTypeStorage {
@@ -89,8 +88,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	hdr.OriginalSize = int(vStat.Size())
 	hdr.Attribute = genericAttribute
 	hdr.HeaderLevel = byte(l.HeaderLevel)
-	filename := filepath.Base(name)
-	copy(hdr.Name[:], filename)
+	copy(hdr.Name[:], entryName)
 	hdr.Crc = 0x0000
 	hdr.ExtendType = ExtendUnix
 	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()
@@ -111,7 +109,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
-		copy(hdr.Name[:], filename+"/")
+		copy(hdr.Name[:], entryName+"/")
 		hdr.UnixMode = uint16(UnixFileDirectory) | uint16(info.Mode().Perm())
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
diff --git a/lhext.go b/lhext.go
index f658f4c..9c84205 100644
--- a/lhext.go
+++ b/lhext.go
@@ -444,7 +444,7 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	return err
 }
 
-func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (bool, error) {
+func (l *Lha) appendIt(name, entryName string, oafp *io.Reader, nafp *io.Writer) (bool, error) {
 	hdr := NewLzHeader()
 	var fp io.Reader
 	var stbuf os.FileInfo
@@ -469,7 +469,7 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (bool, err
 		fp = f
 	}
 
-	l.initHeader(name, stbuf, hdr)
+	l.initHeader(name, entryName, stbuf, hdr)
 
 	return l.appendEntry(name, &fp, oafp, nafp, hdr)
 }
@@ -501,13 +501,19 @@ func (l *Lha) isExcluded(name string) bool {
 	return false
 }
 
+/* fileToAdd is a file, the name of its entry and the header */
+type fileToAdd struct {
+	path, name string
+	hdr        *LzHeader
+}
+
 /*
-	filesToAdd lists the files to add, those of directories included, and
+	filesToAdd lists the files to add, those of directories included, with
 
-prepares the headers of their entries
+the headers of their entries, whose names are below dir
 */
-func (l *Lha) filesToAdd(names []string, recursive bool) ([]string, error) {
-	var files []string
+func (l *Lha) filesToAdd(names []string, dir string, recursive bool) ([]fileToAdd, error) {
+	var files []fileToAdd
 	for _, name := range names {
 		if name == l.archiveName {
 			/* exclude target archive */
@@ -527,9 +533,9 @@ func (l *Lha) filesToAdd(names []string, recursive bool) ([]string, error) {
 			return nil, err
 		}
 		hdr := NewLzHeader()
-		l.initHeader(name, stbuf, hdr)
-		l.adding = append(l.adding, hdr)
-		files = append(files, name)
+		entryName := dir + filepath.Base(name)
+		l.initHeader(name, entryName, stbuf, hdr)
+		files = append(files, fileToAdd{name, entryName, hdr})
 
 		var filec int
 		var filev []string
@@ -537,7 +543,7 @@ func (l *Lha) filesToAdd(names []string, recursive bool) ([]string, error) {
 			if _, err := findFiles(name, &filec, &filev, l); err != nil {
 				return nil, err
 			}
-			below, err := l.filesToAdd(filev, recursive)
+			below, err := l.filesToAdd(filev, entryName+"/", recursive)
 			if err != nil {
 				return nil, err
 			}
@@ -614,7 +620,8 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil {
+	automatic := l.UpdateIfNewer && l.CmdFilec == 0
+	if automatic && oafp != nil {
 		findUpdateFiles(&oafp, l)
 	}
 
@@ -628,10 +635,28 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		return nil
 	}
 
+	var files []fileToAdd
+	for _, name := range l.CmdFilev {
+		var dir string
+		if automatic { /* the names are those of the archive */
+			dir = name[:strings.LastIndex(name, "/")+1]
+		}
+		var found []fileToAdd
+		if found, err = l.filesToAdd([]string{name}, dir, l.RecursiveArchiving); err != nil {
+			return err
+		}
+		files = append(files, found...)
+	}
+	/* a name is added once, the last of its files counts */
+	last := make(map[string]int)
+	for i, f := range files {
+		last[string(f.hdr.Name)] = i
+	}
 	l.adding = nil
-	files, err := l.filesToAdd(l.CmdFilev, l.RecursiveArchiving)
-	if err != nil {
-		return err
+	for i, f := range files {
+		if last[string(f.hdr.Name)] == i {
+			l.adding = append(l.adding, f.hdr)
+		}
 	}
 	if l.UpdateIfNewer {
 		if err = l.keepNewer(&oafp); err != nil {
@@ -639,13 +664,16 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 	var added []string /* without those the archive has newer ones of */
-	for _, name := range files {
+	for i, f := range files {
+		if last[string(f.hdr.Name)] != i {
+			continue
+		}
 		var isAdded bool
-		if isAdded, err = l.appendIt(name, &oafp, &nafp); err != nil {
+		if isAdded, err = l.appendIt(f.path, f.name, &oafp, &nafp); err != nil {
 			return err
 		}
 		if isAdded {
-			added = append(added, name)
+			added = append(added, f.path)
 		}
 	}
 
@@ -748,7 +776,7 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	}
 
 	fp = bytes.NewReader(body)
-	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
+	l.initHeader(name, filepath.Base(name), stbuf, hdr) // @Todo fill stbuf
 	l.adding = []*LzHeader{hdr}
 	if l.UpdateIfNewer {
 		if err := l.keepNewer(oafp); err != nil {
-- 
2.43.0


From f4b626079903a225985f644cc0c9afae4864e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 35/38] fix: empty components do not hide a .. from the check
 for directory traversal

---
 lhext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index 9c84205..a0f586f 100644
--- a/lhext.go
+++ b/lhext.go
@@ -45,7 +45,7 @@ func isDirectoryTraversal(path string) bool {
 		case 0:
 			if path[i] == '.' {
 				state = 1
-			} else {
+			} else if path[i] != '/' {
 				state = 3
 			}
 
-- 
2.43.0


From 470d3519ef8025338f29f2c6fdc1a81b2c9dee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 36/38] fix: list entries of OS-9/68000 with their permissions

---
 lhext.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index a0f586f..b454bd9 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1782,9 +1782,7 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 		fmt.Printf("%s ", modebits)
 
-	case ExtendOs68k:
-		/**/
-	case ExtendXosk: /**/
+	case ExtendOs68k, ExtendXosk:
 		mode = int(hdr.UnixMode)
 		if mode&oskDirectoryPerm != 0 {
 			modebits[0] = 'd'
-- 
2.43.0


From 6a4e244306f88232a065e74a6fab9242aade333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:19 +0000
Subject: [PATCH 37/38] fix: entries left out with their directories do not
 change the attributes of existing files

---
 lhext.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index b454bd9..c115c55 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1627,7 +1627,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	} else {
 		if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileDirectory) || (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) || method == LzhdirsMethodNum {
 			/* ↑これで、Symbolic Link は、大丈夫か？ */
-			if !l.IgnoreDirectory && !VerifyMode && !l.OutputToStdout {
+			if l.IgnoreDirectory {
+				return readSize, nil /* nothing is made, nothing is adjusted */
+			}
+			if !VerifyMode && !l.OutputToStdout {
 				if l.Noexec {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", string(name[:]))
-- 
2.43.0


From f00563966211faa9cb44b459e204d9f83e7b9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:39 +0000
Subject: [PATCH 38/38] fix: a failed copy of stored data does not leave the
 messages switched off

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index a80630c..18baba9 100644
--- a/util.go
+++ b/util.go
@@ -72,12 +72,12 @@ func encodeStoredCrc(ifp *io.Reader, ofp *io.Writer, size int, original_size_var
 	save_quiet = Quiet
 	Quiet = true
 	size, err := copyfile(ifp, ofp, size, 1, &crc)
+	Quiet = save_quiet
 	if err != nil {
 		return 0, err
 	}
 	*original_size_var = size
 	*write_size_var = size
-	Quiet = save_quiet
 	return crc, nil
 }
 
-- 
2.43.0

