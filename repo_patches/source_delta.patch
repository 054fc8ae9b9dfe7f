From 422477544c8f861626ae63598ef15304afb488ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 01/25] fix: range membership at the end of the address space

---
 ipnet/ipnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipnet/ipnet.go b/ipnet/ipnet.go
index c42686d..defe753 100644
--- a/ipnet/ipnet.go
+++ b/ipnet/ipnet.go
@@ -34,5 +34,5 @@ func LastIP(ipNet *net.IPNet) net.IP {
 
 // Contains 检查IP区间内是否包含IP
 func Contains(start, end, ip net.IP) bool {
-	return !IPLess(ip, start) && IPLess(ip, NextIP(end))
+	return !IPLess(ip, start) && !IPLess(end, ip)
 }
-- 
2.43.0


From cdba665c0b6f63f5bd7138c3bffb92fca6955dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 02/25] fix: joining and intersecting ranges that end at the
 last address

---
 ipnet/range.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipnet/range.go b/ipnet/range.go
index aab6d33..f6567b4 100644
--- a/ipnet/range.go
+++ b/ipnet/range.go
@@ -36,10 +36,15 @@ func NewRange(ipNet *net.IPNet) *Range {
 	}
 }
 
+// isAfter start 是否在 end 之后且不相邻 (end 为最大地址时没有后继)
+func isAfter(end, start net.IP) bool {
+	return IPLess(end, start) && IPLess(NextIP(end), start)
+}
+
 // Join 合并网段
 func (r *Range) Join(r2 *Range) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(r2.Start, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.Start, r.Start) || isAfter(r.End, r2.Start) {
 		return false
 	}
 
@@ -51,7 +56,7 @@ func (r *Range) Join(r2 *Range) bool {
 
 // CommonRange 求共同网段
 func (r *Range) CommonRange(ip net.IP, r2 *Range) bool {
-	if IPLess(r2.End, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.End, r.Start) || IPLess(r.End, r2.Start) {
 		return false
 	}
 	start := r.Start
@@ -77,7 +82,7 @@ func (r *Range) Contains(ip net.IP) bool {
 // JoinIPNet 合并网段
 func (r *Range) JoinIPNet(ipNet *net.IPNet) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(ipNet.IP.To16(), r.Start) || IPLess(NextIP(r.End), ipNet.IP.To16()) {
+	if IPLess(ipNet.IP.To16(), r.Start) || isAfter(r.End, ipNet.IP.To16()) {
 		return false
 	}
 
-- 
2.43.0


From d385c60afbcc38edecff908596ecb88c199f9aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 03/25] fix: an ipdb query of an address without a record is an
 error

---
 db/format/ipdb/querier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 3034a01..479e596 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -40,6 +40,9 @@ func (q *querier) Query(ip net.IP) (*inf.IpInfo, int, error) {
 
 func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, error) {
 	node, body, mask, err := q.r.find0(ip)
+	if err != nil {
+		return 0, nil, 0, err
+	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
 			return node, v, mask, nil
-- 
2.43.0


From d8d2807d1b587e61ae490111fbc9d66ffe8b5ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 04/25] fix: truncated and inconsistent ipdb files are errors,
 not crashes

---
 db/format/ipdb/reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index cff845a..ae8d290 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -47,6 +47,9 @@ const iOff = 5
 
 func newReaderFromBytes(data []byte) (*reader, error) {
 	var meta MetaData
+	if len(data) < 4 {
+		return nil, db2.ErrFileSize
+	}
 	metaLength := int(binary.BigEndian.Uint32(data[0:4]))
 	if len(data) < (4 + metaLength) {
 		return nil, db2.ErrFileSize
@@ -61,6 +64,10 @@ func newReaderFromBytes(data []byte) (*reader, error) {
 		return nil, db2.ErrFileSize
 	}
 
+	if meta.NodeCount < 0 || meta.NodeCount > meta.TotalSize/8 {
+		return nil, db2.ErrMetaData
+	}
+
 	db := &reader{
 		fileSize:        len(data),
 		nodeCount:       meta.NodeCount,
@@ -145,7 +152,7 @@ func (db *reader) decodeInfo(body []byte, off int) ([]string, error) {
 	str := (*string)(unsafe.Pointer(&body))
 	tmp := strings.Split(*str, "\t")
 
-	if (off + len(db.meta.Fields)) > len(tmp) {
+	if off < 0 || off > len(tmp)-len(db.meta.Fields) {
 		return nil, db2.ErrDatabaseError
 	}
 	ret := tmp[off : off+len(db.meta.Fields)]
@@ -254,7 +261,7 @@ func (db *reader) readNode(node, indexBit int) int {
 
 func (db *reader) resolve(node int) ([]byte, error) {
 	resolved := node - db.nodeCount + db.nodeCount*8
-	if resolved >= db.fileSize {
+	if resolved+2 > len(db.data) {
 		return nil, db2.ErrDatabaseError
 	}
 
-- 
2.43.0


From 5d32b132ce5f8e0dffd7a4197f82d03581dae0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 05/25] fix: packing ipdb encodes the continents that reading
 decodes, and leaves the packed rows alone

---
 db/format/ipdb/writer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 9f64ac8..a4a4d96 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -49,8 +49,9 @@ func NewWriter(meta MetaData, languages map[string]int) *Writer {
 	}
 	contitnentOffset := -1
 	for i, field := range meta.Fields {
-		if strings.ToLower(field) == "continent" {
+		if field == FieldContinentCode {
 			contitnentOffset = i
+			break
 		}
 	}
 
@@ -120,7 +121,8 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 		log.Printf("cidr conflict %s %s\n", ipNet, values)
 		return db.ErrCIDRConflict
 	}
-	if p.continentOffset >= 0 {
+	if p.continentOffset >= 0 && p.continentOffset < len(values) {
+		values = append([]string{}, values...)
 		switch values[p.continentOffset] {
 		case "亚洲":
 			values[p.continentOffset] = "AS"
-- 
2.43.0


From 59db9d398c28539b0b2875cb327170231535babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:52 +0000
Subject: [PATCH 06/25] fix: packing ::/0 to ipdb is an error, not a crash

---
 db/format/ipdb/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index a4a4d96..3451554 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -112,6 +112,10 @@ func (p *Writer) Save(w io.Writer) error {
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	mask, _ := ipNet.Mask.Size()
+	if mask == 0 && ipNet.IP.To4() == nil {
+		log.Printf("load cidr failed cidr(%s) data(%s): not representable\n", ipNet, values)
+		return db.ErrInvalidCIDR
+	}
 	node, index, ok := p.Nodes(ipNet.IP, mask)
 	if !ok {
 		log.Printf("load cidr failed cidr(%s) data(%s) node(%d) index(%d) preview data(%s)\n", ipNet, values, node, index, p.resolve(-p.node[node][index]))
-- 
2.43.0


From fe3aaeadd48c55a8fafcfa9d650d44ce7a0c7f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 07/25] fix: attaching districts or lines without the column
 they depend on leaves the rows as wide as the fields

---
 db/field/operate/district.go | 7 +++----
 db/field/operate/line.go     | 8 ++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 682ade0..643edc7 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -53,14 +53,13 @@ var provinceDistrict = map[string]string{
 
 func AttachDistrict(data *inf.IpData) {
 	districtOffset := field.Offset(field.District, data.Fields)
-	if districtOffset == -1 {
-		data.Fields = append(data.Fields, field.District)
-	}
-
 	provinceOffset := field.Offset(field.Province, data.Fields)
 	if provinceOffset == -1 {
 		return
 	}
+	if districtOffset == -1 {
+		data.Fields = append(data.Fields, field.District)
+	}
 
 	for k, row := range data.Ips {
 		var district string
diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 8d8291d..c599dbf 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -13,14 +13,14 @@ import (
 func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 	lineVer := fmt.Sprintf("%s-%d", line.VersionInfo().Version, line.VersionInfo().Build)
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, lineVer)
-	var lineOffset int
-	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
-		data.Fields = append(data.Fields, field.Line)
-	}
 	countryOffset := field.Offset(field.Country, data.Fields)
 	if countryOffset == -1 {
 		return
 	}
+	var lineOffset int
+	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
+		data.Fields = append(data.Fields, field.Line)
+	}
 
 	for k, row := range data.Ips {
 		var ispline string
-- 
2.43.0


From b43bd908b6f59d161353ef20be36a4003d844ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 08/25] fix: column operations change one row's values only,
 also when rows share them

---
 db/field/operate/district.go |  6 +-----
 db/field/operate/line.go     |  8 ++------
 db/field/operate/operate.go  | 12 ++++++++++++
 db/field/operate/replace.go  |  4 ++--
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 643edc7..66795b0 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -66,11 +66,7 @@ func AttachDistrict(data *inf.IpData) {
 		if p := row.FieldValues[provinceOffset]; p != "" {
 			district = provinceDistrict[p]
 		}
-		if districtOffset == -1 {
-			row.FieldValues = append(row.FieldValues, district)
-		} else {
-			row.FieldValues[districtOffset] = district
-		}
+		row.FieldValues = withValue(row.FieldValues, districtOffset, district)
 		data.Ips[k] = row
 	}
 }
diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index c599dbf..3688738 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -27,11 +27,7 @@ func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 		if row.FieldValues[countryOffset] == "中国" {
 			ispline = queryLine(row.Cidr, line)
 		}
-		if lineOffset == -1 {
-			row.FieldValues = append(row.FieldValues, ispline)
-		} else {
-			row.FieldValues[lineOffset] = ispline
-		}
+		row.FieldValues = withValue(row.FieldValues, lineOffset, ispline)
 		data.Ips[k] = row
 	}
 }
@@ -110,7 +106,7 @@ func ReplaceLineByCidr(data *inf.IpData, line inf.Query) {
 			ispline = queryLine(row.Cidr, line)
 		}
 		if ispline != "" {
-			row.FieldValues[ispOffset] = ispline
+			row.FieldValues = withValue(row.FieldValues, ispOffset, ispline)
 			data.Ips[k] = row
 		}
 	}
diff --git a/db/field/operate/operate.go b/db/field/operate/operate.go
index 4aa30bd..d7d3f00 100644
--- a/db/field/operate/operate.go
+++ b/db/field/operate/operate.go
@@ -9,3 +9,15 @@ var DefaultOperates = []Operate{
 	TrimAsnIspDup,
 	MergeNearNetwork,
 }
+
+// withValue returns a copy of values with v at offset, or added at the end if offset is -1.
+// Rows may share their values, so these are never changed in place.
+func withValue(values []string, offset int, v string) []string {
+	ret := make([]string, len(values), len(values)+1)
+	copy(ret, values)
+	if offset == -1 {
+		return append(ret, v)
+	}
+	ret[offset] = v
+	return ret
+}
diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index c4944ed..4309503 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -66,7 +66,7 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 
 		if v := asnMatchIsp(asn, mainIspAsnMap); v != "" {
-			data.Ips[k].FieldValues[ispOffset] = v
+			data.Ips[k].FieldValues = withValue(row.FieldValues, ispOffset, v)
 		}
 	}
 }
@@ -83,7 +83,7 @@ func ReplaceShortage(ipdata *inf.IpData) {
 		for i, v := range row.FieldValues {
 			if m, ok := offsets[i]; ok {
 				if v, ok := m[v]; ok {
-					ipdata.Ips[k].FieldValues[i] = v
+					ipdata.Ips[k].FieldValues = withValue(ipdata.Ips[k].FieldValues, i, v)
 				}
 			}
 		}
-- 
2.43.0


From 4c02fa2cd9a7225f332156400fd0cf69b3a4865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 09/25] fix: attaching lines by AS number finds its columns and
 fills every row that has no line

---
 db/field/operate/line.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 3688738..e895568 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -34,34 +34,20 @@ func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 
 func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer string) {
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, asnLineVer)
-	var hasLine bool
-	var lineOffset int
-	var asnOffset int
 	// if there is no asn field, return
-	if !field.InArray(field.Asn, data.Fields) {
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if asnOffset == -1 {
 		return
 	}
-	if !field.InArray(field.Line, data.Fields) {
+	lineOffset := field.Offset(field.Line, data.Fields)
+	if lineOffset == -1 {
 		data.Fields = append(data.Fields, field.Line)
-		hasLine = true
-		lineOffset = len(data.Fields) - 1
-	} else {
-		for i, f := range data.Fields {
-			if f == field.Line {
-				lineOffset = i
-			} else if f == field.Asn {
-				asnOffset = i
-			}
-		}
 	}
 	for k, row := range data.Ips {
 		asn := row.FieldValues[asnOffset]
-		if line, ok := asnLine[asn]; ok {
-			if hasLine {
-				row.FieldValues = append(row.FieldValues, line)
-			} else if line == "" {
-				row.FieldValues[lineOffset] = line
-			}
+		line, ok := asnLine[asn]
+		if lineOffset == -1 || ok && row.FieldValues[lineOffset] == "" {
+			row.FieldValues = withValue(row.FieldValues, lineOffset, line)
 			data.Ips[k] = row
 		}
 	}
-- 
2.43.0


From f6dfbc9e5d733451ca711b7b51f97ec893816afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 10/25] fix: carriers by AS number: columns at any place, no
 empty numbers, the same answer every time

---
 db/field/operate/replace.go | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 4309503..8719721 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -13,8 +13,12 @@ import (
 var mainIsp = []string{"电信", "联通", "移动", "铁通"}
 
 func asnMatchIsp(s string, set map[string]map[string]bool) string {
-	for k, v := range set {
-		if _, ok := v[s]; ok {
+	if s == "" {
+		return ""
+	}
+	// in a fixed order: an asn may appear in several main isps
+	for _, k := range mainIsp {
+		if _, ok := set[k][s]; ok {
 			return k
 		}
 	}
@@ -23,24 +27,14 @@ func asnMatchIsp(s string, set map[string]map[string]bool) string {
 
 // TrimAsnIspDup some small isp use main isp bonenet whose asn is same as main isp
 func TrimAsnIspDup(data *inf.IpData) {
-	var ispOffset int
-	var asnOffset int
-	for i, f := range data.Fields {
-		if f == field.ISP {
-			ispOffset = i
-		} else if f == field.Asn {
-			asnOffset = i
-		}
-	}
-	if ispOffset == 0 {
+	ispOffset := field.Offset(field.ISP, data.Fields)
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if ispOffset == -1 || asnOffset == -1 {
 		return
 	}
 	var mainIspAsnMap = make(map[string]map[string]bool)
 	for _, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-		if asnOffset == 0 {
-			continue
-		}
 		asn := row.FieldValues[asnOffset]
 		if field.InArray(isp, mainIsp) {
 			if _, ok := mainIspAsnMap[isp]; !ok {
@@ -53,10 +47,6 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 	}
 
-	if asnOffset == 0 {
-		return
-	}
-
 	// replace some isp that asn appear in main isp
 	for k, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-- 
2.43.0


From 3ee673859917c65965b8d8410537bc1d8732a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 11/25] fix: merging an empty list is not a crash

---
 db/field/operate/replace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 8719721..6fc7fa6 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -108,7 +108,9 @@ func MergeNearNetwork(ipd *inf.IpData) {
 			prev.f = ip.FieldValues
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	ipd.Ips = make([]inf.IpRaw, 0, len(ipd.Ips))
 	for _, ipRange := range ipRanges {
 		subs := ipRange.r.IPNets()
-- 
2.43.0


From a6c373037c0e54068e95e7c1e323bfe440d5275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 12/25] fix: opening a short or inconsistent awdb file is an
 error, not a crash

---
 db/format/awdb/reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 5592167..74a1f6e 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -43,6 +43,9 @@ const metaDetectStart = 2000
 // a Reader structure or an error.
 func FromBytes(buffer []byte) (*Reader, error) {
 	detectOffset := len(buffer) - metaDetectStart
+	if detectOffset < 0 {
+		detectOffset = 0
+	}
 	metaIn := buffer[detectOffset:]
 	metadataStart := bytes.LastIndex(metaIn, metadataStartMarker)
 
@@ -61,6 +64,10 @@ func FromBytes(buffer []byte) (*Reader, error) {
 	}
 
 	metadataStart += detectOffset
+	// a node takes at least one byte; more nodes than bytes would overflow the size below
+	if metadata.NodeCount > uint(len(buffer)) || metadata.RecordSize > 32 {
+		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
+	}
 	searchTreeSize := metadata.NodeCount * metadata.RecordSize / 4
 	dataSectionStart := searchTreeSize + dataSectionSeparatorSize
 	dataSectionEnd := uint(metadataStart)
-- 
2.43.0


From 576e60c721a40c360bb53d86734d393a12cde75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 13/25] fix: an awdb query without a record, or with values
 that are no texts, is not a crash

---
 db/format/awdb/dumper.go  | 12 +-----------
 db/format/awdb/querier.go | 12 +-----------
 db/format/awdb/reader.go  | 26 ++++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index 29bc19f..a7b014f 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -61,17 +61,7 @@ func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
 }
 
 func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
-	var record interface{}
-	ipNet, _, err := t.reader.LookupNetwork(ip, &record)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
-	}
-	return ipNet, data, nil
+	return t.reader.findMap(ip)
 }
 
 func (t *traversal) versionInfo() *inf.VersionInfo {
diff --git a/db/format/awdb/querier.go b/db/format/awdb/querier.go
index 5ac994b..516003a 100644
--- a/db/format/awdb/querier.go
+++ b/db/format/awdb/querier.go
@@ -64,17 +64,7 @@ func (q *querier) BuildCache(ipList []string) {
 }
 
 func (q *querier) Find(ip net.IP) (*net.IPNet, map[string]string, error) {
-	var record interface{}
-	ipNet, _, err := q.reader.LookupNetwork(ip, &record)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
-	}
-	return ipNet, data, nil
+	return q.reader.findMap(ip)
 }
 
 func (q *querier) VersionInfo() *inf.VersionInfo {
diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 74a1f6e..2c76164 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"reflect"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -294,6 +295,31 @@ func (r *Reader) resolveDataPointer(pointer uint) (uintptr, error) {
 	return resolved, nil
 }
 
+// findMap looks up the record of ip and the network it is stored for. Values that are no texts are formatted.
+func (r *Reader) findMap(ip net.IP) (*net.IPNet, map[string]string, error) {
+	var record interface{}
+	ipNet, ok, err := r.LookupNetwork(ip, &record)
+	if err != nil {
+		return nil, nil, err
+	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
+	m, ok := record.(map[string]interface{})
+	if !ok {
+		return nil, nil, newInvalidDatabaseError("the record of '%s' is not a map", ip.String())
+	}
+	data := make(map[string]string)
+	for k, v := range m {
+		if b, ok := v.([]byte); ok {
+			data[k] = string(b)
+		} else {
+			data[k] = fmt.Sprint(v)
+		}
+	}
+	return ipNet, data, nil
+}
+
 func (r *Reader) version() *inf.VersionInfo {
 	return &inf.VersionInfo{
 		IpType:    r.Metadata.IpType(),
-- 
2.43.0


From e2a5e9b45c29f63dd380edffe9a5aa7a90698d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 14/25] fix: corrupt awdb values: cyclic keys, lengths beyond
 the data, unknown extended types

---
 db/format/awdb/decoder.go | 59 ++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 98addb8..c9e1bb0 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -68,7 +68,7 @@ func (d *decoder) decodeCtrlData(offset uint) (dataType, uint, uint, error) {
 		if newOffset >= uint(len(d.buffer)) {
 			return 0, 0, 0, newOffsetError()
 		}
-		typeNum = dataType(d.buffer[newOffset] + 7)
+		typeNum = dataType(d.buffer[newOffset]) + 7
 		newOffset++
 	}
 
@@ -121,10 +121,17 @@ func (d *decoder) decodeFromType(
 	case _Bool:
 		return d.unmarshalBool(size, offset, result)
 	case _Map:
+		// an entry takes at least two bytes: reserve no room for more than there are
+		if 2*size > uint(len(d.buffer))-offset {
+			return 0, newOffsetError()
+		}
 		return d.unmarshalMap(size, offset, result, depth)
 	case _Pointer:
 		return d.unmarshalPointer(size, offset, result, depth)
 	case _Slice:
+		if size > uint(len(d.buffer))-offset {
+			return 0, newOffsetError()
+		}
 		return d.unmarshalSlice(size, offset, result, depth)
 	}
 
@@ -467,7 +474,7 @@ func (d *decoder) decodeMap(
 	for i := uint(0); i < size; i++ {
 		var key []byte
 		var err error
-		key, offset, err = d.decodeKey(offset)
+		key, offset, err = d.decodeKey(offset, depth)
 
 		if err != nil {
 			return 0, err
@@ -567,7 +574,7 @@ func (d *decoder) decodeStruct(
 			err error
 			key []byte
 		)
-		key, offset, err = d.decodeKey(offset)
+		key, offset, err = d.decodeKey(offset, depth)
 		if err != nil {
 			return 0, err
 		}
@@ -659,7 +666,10 @@ func uintFromBytes(prefix uint, uintBytes []byte) uint {
 // can take advantage of https://github.com/golang/go/issues/3512 to avoid
 // copying the bytes when decoding a struct. Previously, we achieved this by
 // using unsafe.
-func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
+func (d *decoder) decodeKey(offset uint, depth int) ([]byte, uint, error) {
+	if depth > maximumDataStructureDepth {
+		return nil, 0, newInvalidDatabaseError("exceeded maximum data structure depth; database is likely corrupt")
+	}
 	typeNum, size, dataOffset, err := d.decodeCtrlData(offset)
 	if err != nil {
 		return nil, 0, err
@@ -669,7 +679,7 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 		if err != nil {
 			return nil, 0, err
 		}
-		key, _, err := d.decodeKey(pointer)
+		key, _, err := d.decodeKey(pointer, depth+1)
 		return key, ptrOffset, err
 	}
 	if typeNum != _String {
@@ -686,26 +696,29 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 // the one at the offset passed in. The size bits have different meanings for
 // different data types
 func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error) {
-	if numberToSkip == 0 {
-		return offset, nil
-	}
-	typeNum, size, offset, err := d.decodeCtrlData(offset)
-	if err != nil {
-		return 0, err
-	}
-	switch typeNum {
-	case _Pointer:
-		_, offset, err = d.decodePointer(size, offset)
+	for ; numberToSkip > 0; numberToSkip-- {
+		typeNum, size, newOffset, err := d.decodeCtrlData(offset)
 		if err != nil {
 			return 0, err
 		}
-	case _Map:
-		numberToSkip += 2 * size
-	case _Slice:
-		numberToSkip += size
-	case _Bool:
-	default:
-		offset += size
+		offset = newOffset
+		switch typeNum {
+		case _Pointer:
+			_, offset, err = d.decodePointer(size, offset)
+			if err != nil {
+				return 0, err
+			}
+		case _Map:
+			numberToSkip += 2 * size
+		case _Slice:
+			numberToSkip += size
+		case _Bool:
+		default:
+			offset += size
+			if offset > uint(len(d.buffer)) {
+				return 0, newOffsetError()
+			}
+		}
 	}
-	return d.nextValueOffset(offset, numberToSkip-1)
+	return offset, nil
 }
-- 
2.43.0


From 44394989adeaabe0ad7ec25fef36c1c42d7b9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 15/25] fix: awdb integers that do not fit, and the network
 around the one iterated, read as they are

---
 db/format/awdb/decoder.go  | 4 ++--
 db/format/awdb/traverse.go | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index c9e1bb0..11ad43d 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -287,7 +287,7 @@ func (d *decoder) unmarshalInt32(size uint, offset uint, result reflect.Value) (
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		n := uint64(value)
-		if !result.OverflowUint(n) {
+		if value >= 0 && !result.OverflowUint(n) {
 			result.SetUint(n)
 			return newOffset, nil
 		}
@@ -383,7 +383,7 @@ func (d *decoder) unmarshalUint(size uint, offset uint, result reflect.Value, ui
 	switch result.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		n := int64(value)
-		if !result.OverflowInt(n) {
+		if n >= 0 && !result.OverflowInt(n) {
 			result.SetInt(n)
 			return newOffset, nil
 		}
diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 889ba3d..ee67e52 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -117,10 +117,8 @@ func (n *Networks) Network(result interface{}) (*net.IPNet, error) {
 		return nil, err
 	}
 
-	return &net.IPNet{
-		IP:   n.lastNode.ip,
-		Mask: net.CIDRMask(int(n.lastNode.bit), len(n.lastNode.ip)*8),
-	}, nil
+	mask := net.CIDRMask(int(n.lastNode.bit), len(n.lastNode.ip)*8)
+	return &net.IPNet{IP: n.lastNode.ip.Mask(mask), Mask: mask}, nil
 }
 
 // Err returns an error, if any, that was encountered during iteration.
-- 
2.43.0


From 0a47396c27feb91d18a2968e965fc786aeab0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 16/25] fix: a dump that would have gaps or never end is an
 error

---
 db/field/export/export.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index d14f448..97b1535 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
@@ -208,6 +209,10 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 		if err != nil {
 			return nil, err
 		}
+		if cidr == nil || !cidr.IP.Equal(marker) || (cidr.IP.To4() == nil) != version.IsIpV6() {
+			// not the next network of the family, the list would have gaps or never end
+			return nil, db.ErrInvalidCIDR
+		}
 		var values []string
 
 		if ept != nil {
-- 
2.43.0


From 0c76379c275f488a56292f5c187b65b5a64f79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 17/25] fix: the AS number of an awdb record is dumped, as it
 is queried

---
 db/format/awdb/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index ef5bdf6..7668f20 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -124,7 +124,7 @@ var CommonFieldsMap = map[string]string{
 	field.Province:  FieldProvince,
 	field.City:      FieldCity,
 	field.ISP:       FieldISP,
-	field.Asn:       field.Asn,
+	field.Asn:       FieldASNumber,
 	field.Continent: FieldContinent,
 	field.Line:      field.Line,
 }
-- 
2.43.0


From 9bdd1e791b04c4e59541a6bb1139bbb42db484ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 18/25] fix: packing a text dump leaves the packed rows alone

---
 db/format/plain/packer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 8ebffd1..03bea59 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -19,8 +19,7 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	fmt.Fprintf(writer, "#### %s\n", string(verStr))
 	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
 	for _, v := range ipd.Ips {
-		replaceComma(&v)
-		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
+		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
 			return err
 		}
@@ -28,8 +27,11 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return nil
 }
 
-func replaceComma(s *inf.IpRaw) {
-	for i, v := range s.FieldValues {
-		s.FieldValues[i] = strings.Replace(v, ",", "_", -1)
+// replaceComma returns the values to write, the packed data stays as it is
+func replaceComma(values []string) []string {
+	ret := make([]string, len(values))
+	for i, v := range values {
+		ret[i] = strings.Replace(v, ",", "_", -1)
 	}
+	return ret
 }
-- 
2.43.0


From 52136b683320e0961be1c23848f960b8ef31e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 19/25] fix: reading a text dump without a rule yields the
 values of all fields

---
 db/format/plain/dumper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index bc140d3..ad3eb6a 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -119,6 +119,10 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 		if exporter != nil {
 			values = exporter.Export(fieldsMap, info)
+		} else {
+			for _, f := range ret.Fields {
+				values = append(values, info[f])
+			}
 		}
 
 		if reflect.DeepEqual(values, prevInfo) {
-- 
2.43.0


From 4df2abc4a7244ce4e4e63853f0d0253d52cb77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 20/25] fix: truncated or malformed text dumps are errors, and
 long lines are read

---
 db/format/plain/dumper.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index ad3eb6a..f6c6a13 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -9,6 +9,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
@@ -28,6 +29,8 @@ func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
 	return i, nil
 }
 
+const headerPrefix = "#### "
+
 type traversal struct {
 	lines   []string
 	Fields  []string
@@ -38,29 +41,53 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	t := &traversal{}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	lineOffset := 0
 	for scanner.Scan() {
 		if lineOffset == 0 {
 			// ignore title
 		} else if lineOffset == 1 {
 			//	ignore prefix "#### "
-			err := json.Unmarshal(scanner.Bytes()[5:], &t.Version)
+			b, err := header(scanner.Bytes())
+			if err != nil {
+				return nil, err
+			}
+			err = json.Unmarshal(b, &t.Version)
 			if err != nil {
 				return nil, err
 			}
+			if t.Version == nil {
+				return nil, db.ErrMetaData
+			}
 		} else if lineOffset == 2 {
 			//	ignore prefix "#### "
-			b := scanner.Bytes()[5:]
+			b, err := header(scanner.Bytes())
+			if err != nil {
+				return nil, err
+			}
 			t.Fields = strings.Split(string(b), ",")
-			t.lines = make([]string, 0, t.Version.Count+1)
 		} else {
 			t.lines = append(t.lines, scanner.Text())
 		}
 		lineOffset += 1
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if lineOffset < 3 {
+		return nil, db.ErrMetaNotFound
+	}
 	return t, nil
 }
 
+// header is a header line without its prefix
+func header(line []byte) ([]byte, error) {
+	if len(line) < len(headerPrefix) {
+		return nil, db.ErrMetaData
+	}
+	return line[len(headerPrefix):], nil
+}
+
 func fieldToPair(fields []string) []field.Pair {
 	var ret []field.Pair
 	for _, f := range fields {
@@ -108,7 +135,7 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		ret.Fields = exporter.Fields()
 	}
 	fieldsMap = export.Select(fieldToMap(t.Fields), ret.Fields)
-	ret.Ips = make([]inf.IpRaw, 0, t.Version.Count+1)
+	ret.Ips = make([]inf.IpRaw, 0, len(t.lines))
 	var prevInfo []string
 	for _, line := range t.lines {
 		cidr, info, err := t.parseLine(line)
-- 
2.43.0


From 0d504b8d46394f6e33ff4be76b87ef157dfe821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 21/25] fix: reading a text dump does not stop at the last
 address

---
 db/format/plain/dumper.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index f6c6a13..810fe67 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -13,7 +13,6 @@ import (
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
-	"github.com/qiniu/uip/ipnet"
 )
 
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
@@ -157,10 +156,6 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		}
 
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
-		last := ipnet.LastIP(cidr)
-		if ipnet.IsAllMask(last) {
-			break
-		}
 		prevInfo = values
 	}
 
-- 
2.43.0


From 28a3a2bdee0d930795b7651e9ab9129c1d33560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 22/25] fix: malformed memip lines are errors, not crashes

---
 db/format/memip/dumper.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index f0685b5..806717d 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -49,10 +49,11 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	for scanner.Scan() {
 		t.lines = append(t.lines, scanner.Text())
 	}
-	return t, nil
+	return t, scanner.Err()
 }
 
 func splitView(view string) []string {
@@ -95,8 +96,11 @@ func parseLine(line string) (*ipnet.Range, []string, error) {
 		rg = parseV4Range(array[0:2])
 	}
 
-	view := array[2]
-	return rg, splitView(view), nil
+	view := splitView(array[2])
+	if rg == nil || len(rg.Start) != len(rg.End) || bytes.Compare(rg.Start, rg.End) > 0 || len(view) != len(fields) {
+		return nil, nil, errors.New("bad format:" + line)
+	}
+	return rg, view, nil
 }
 
 type row struct {
@@ -105,7 +109,7 @@ type row struct {
 }
 
 func (t *traversal) ipVer() inf.IpType {
-	if strings.Contains(t.lines[0], ":") {
+	if len(t.lines) > 0 && strings.Contains(t.lines[0], ":") {
 		return inf.IpV6
 	}
 	return inf.IpV4
-- 
2.43.0


From 5d36154cf07ac45fdaf68f31ba3899f821a06e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 23/25] fix: reading memip text does not stop at the last
 address

---
 db/format/memip/dumper.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 806717d..0ffde1c 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -129,9 +129,6 @@ func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 			values = prevInfo
 		}
 		rows = append(rows, row{rg: cidr, view: values})
-		if ipnet.IsAllMask(cidr.End) {
-			break
-		}
 		prevInfo = values
 	}
 	var ipd = inf.IpData{
-- 
2.43.0


From 937446ca64cf6d3a51cc5af6b34d426f9df2b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 24/25] fix: packing no rows to memip is not a crash

---
 db/format/memip/packer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index f9e0330..4aaa28a 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -35,7 +35,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 			prev.f = values
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
 		if ipd.Version.IsIpV4() {
-- 
2.43.0


From 57ba8ad3329ae4ce3de5820665d5595e66e87e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 25/25] fix: an unreadable database file is an error, not a
 panic

---
 db/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/query/query.go b/db/query/query.go
index b7f5b7c..3311c3e 100644
--- a/db/query/query.go
+++ b/db/query/query.go
@@ -20,7 +20,7 @@ type Db struct {
 func NewDb(file string) (*Db, error) {
 	b, err := os.ReadFile(file)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	extend := path.Ext(file)
 	return NewDbFromBytes(extend, b)
-- 
2.43.0

