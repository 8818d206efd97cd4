From f28c2ac153e90869940ea55352f33e13830e664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 01/50] fix: Reset clears the scalar payload so a retyped or
 recycled value starts blank

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..17c2a7f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -321,6 +321,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.DataType = dt
 	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = false
 	switch dt {
 	case VT_Object:
-- 
2.43.0


From 2cfec77a7a52a4b0d94432cb22597339d04e3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 02/50] fix: copies carry binary content and never share a
 mutable bool node with the source

---
 dxvalue.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 17c2a7f..2397bb3 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -552,10 +552,14 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
+	if v == nil{
+		return nil
+	}
 	if v.DataType >= VT_True{ //系统固定的值不变更
-		return v
+		return NewValue(v.DataType)
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -563,6 +567,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
 		rootv.fstrvalue = v.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append(rootv.fbinary[:0],v.fbinary...)
 	case VT_Object:
 		rootv.fobject.keysUnescaped = v.fobject.keysUnescaped
 		for i := 0; i<len(v.fobject.strkvs);i++{
@@ -599,7 +605,11 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v == fromv || v.ReadOnly(){
+		return
+	}
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -618,6 +628,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append(v.fbinary[:0],fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From 806e80bde78c3d4b42d2dd7e4bfdf53b68e6cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 03/50] fix: Equal compares array lengths and string contents
 exactly

---
 dxvalue.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 2397bb3..e658161 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -487,7 +487,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	if v.DataType != value.DataType {
 		if v.DataType == VT_String && value.DataType == VT_RawString ||
 			value.DataType == VT_String && v.DataType == VT_RawString{
-			return strings.EqualFold(v.String(),value.String())
+			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
 			return v.Double() == value.Double()
@@ -495,8 +495,10 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 		return false
 	}
 	switch v.DataType {
-	case VT_String,VT_RawString:
+	case VT_String:
 		return v.fstrvalue == value.fstrvalue
+	case VT_RawString:
+		return v.fstrvalue == value.fstrvalue || v.String() == value.String()
 	case VT_Binary,VT_ExBinary:
 		return bytes.Compare(v.fbinary,value.fbinary) == 0
 	case VT_Object:
@@ -512,7 +514,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
-- 
2.43.0


From a8c8cf2deb587cfddd9a1c06fd96ffa9250c0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 04/50] fix: object merge visits every key, keeps key paths
 apart and unites nested arrays

---
 dxvalue.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index e658161..40b6427 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -413,8 +413,11 @@ const(
 type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
 func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
-	mergeOp := MO_Normal
+	parentLen := len(parentpath)
+	value.fobject.UnEscapestrs()
 	for i := 0;i<len(value.fobject.strkvs);i++{
+		mergeOp := MO_Normal
+		parentpath = parentpath[:parentLen]
 		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
 		if idx != -1{
 			if mergefunc!=nil{
@@ -422,15 +425,23 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 					parentpath = append(parentpath,'/')
 				}
 				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
+				mergeOp = mergefunc(string(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
 			}
 			if mergeOp == MO_Normal{
 				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
+					if v.fobject.strkvs[idx].V.DataType == VT_Object && value.fobject.strkvs[i].V.DataType == VT_Object{
+						parentpath = mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
+					}else{
+						v.fobject.strkvs[idx].V.MergeWith(value.fobject.strkvs[i].V,mergefunc)
+					}
 				}else{
 					//合并成数组
 					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-					v.fobject.strkvs[idx].V.Reset(VT_Array)
+					if v.fobject.strkvs[idx].V.ReadOnly(){
+						v.fobject.strkvs[idx].V = NewArray(false)
+					}else{
+						v.fobject.strkvs[idx].V.Reset(VT_Array)
+					}
 					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
 					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
 				}
-- 
2.43.0


From 1ec16b5ad969e10b141d2d5accb68777a3b5ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 05/50] fix: keys and strings decoded from JSON are unescaped
 for every reader and for MsgPack output

---
 dxvalue.go      | 2 ++
 msgpackparse.go | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 40b6427..8510e3d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1343,6 +1343,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
+			v.fobject.UnEscapestrs()
 			return v.fobject.strkvs[idx].K
 		}
 	}
@@ -1352,6 +1353,7 @@ func (v *DxValue)KeyNameByIndex(idx int)string  {
 func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
 				return
diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..891f3cf 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -518,6 +518,7 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		l := len(v.fobject.strkvs)
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
@@ -584,9 +585,10 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
-		l := len(v.fstrvalue)
+		vstr := v.String()
+		l := len(vstr)
 		dst = writeStrCode(l,dst)
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		dst = append(dst,DxCommonLib.FastString2Byte(vstr)...)
 	case VT_False:
 		dst = append(dst,byte(CodeFalse))
 	case VT_True:
-- 
2.43.0


From eaafad05957e804bcddd07c2ab08c2a46bd8245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 06/50] fix: typed reads of a JSON string see the unescaped
 text

---
 dxvalue.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 8510e3d..8823af4 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -559,7 +559,7 @@ func (v *DxValue)Int()int64  {
 	case VT_Float:
 		return int64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToIntDef(v.fstrvalue,0)
+		return DxCommonLib.StrToIntDef(v.String(),0)
 	}
 	return 0
 }
@@ -909,7 +909,7 @@ func (v *DxValue)Bool()bool  {
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-		return strings.EqualFold(v.fstrvalue,"true")
+		return strings.EqualFold(v.String(),"true")
 	}
 	return false
 }
@@ -942,7 +942,7 @@ func (v *DxValue)Double()float64  {
 	case VT_Float:
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToFloatDef(v.fstrvalue,0)
+		return DxCommonLib.StrToFloatDef(v.String(),0)
 	}
 	return 0
 }
@@ -960,7 +960,7 @@ func (v *DxValue)Float()float32  {
 	case VT_Float:
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
-		return float32(DxCommonLib.StrToFloatDef(v.fstrvalue,0))
+		return float32(DxCommonLib.StrToFloatDef(v.String(),0))
 	}
 	return 0
 }
@@ -983,11 +983,11 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 	case VT_Int,VT_Double,VT_Float,VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double())
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
 		}
 	}
@@ -999,11 +999,11 @@ func (v *DxValue)GoTime()time.Time  {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return t
 		}
 	}
-- 
2.43.0


From 2c1c1673ccc8a919eeb2cc75e0dadd1e6600edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 07/50] fix: Bool of a negative float32 is false like for every
 other number

---
 dxvalue.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 8823af4..5e26087 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -902,10 +902,11 @@ func (v *DxValue)SetKeyTime(Name string,value time.Time)  {
 }
 
 func (v *DxValue)Bool()bool  {
-	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
-		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
-	}
 	switch v.DataType {
+	case VT_Int:
+		return v.Int() > 0
+	case VT_Float,VT_Double,VT_DateTime:
+		return v.Double() > 0
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-- 
2.43.0


From 46cc313365aec3a2876665b5a242f894e16eae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:06 +0000
Subject: [PATCH 08/50] fix: writes to the shared read-only constants are
 ignored instead of modifying them

---
 dxvalue.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 5e26087..493381b 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -190,6 +190,9 @@ func (v *DxValue)ValueCache()*ValueCache  {
 }
 
 func (v *DxValue)Clear()  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
@@ -598,6 +601,9 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -724,6 +730,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -838,6 +847,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
@@ -1022,6 +1034,9 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1029,6 +1044,9 @@ func (v *DxValue)SetTime(value time.Time)  {
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1151,6 +1169,9 @@ func (v *DxValue)GoTimeByPath(DefaultValue time.Time, paths ...string)time.Time
 }
 
 func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp)
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1184,6 +1205,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1205,6 +1229,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1242,6 +1269,9 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1268,6 +1298,9 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From a224b3b7f7497c06b8663999118e94df507f8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:06 +0000
Subject: [PATCH 09/50] fix: AddFrom adds only the missing keys instead of
 duplicating existing ones

---
 dxvalue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 493381b..b26dcf0 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -609,8 +609,11 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		fromv.fobject.UnEscapestrs()
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
+			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
+				continue
+			}
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
 			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
-- 
2.43.0


From 556269a5bc282ad3c5b1744c3a16f320428d6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 10/50] fix: JSON keys containing escapes end at their own
 closing quote and key errors can be printed

---
 jsonparse.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..4947c80 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -54,10 +54,14 @@ type ErrorParseJson struct {
 func (err *ErrorParseJson)Error()string  {
 	b := err.parseB
 	l := len(b)
-	if l > err.InvalidIndex + 32{
-		l = err.InvalidIndex + 32
+	start := err.InvalidIndex
+	if start > l{
+		start = l
 	}
-	b = b[err.InvalidIndex:l]
+	if l > start + 32{
+		l = start + 32
+	}
+	b = b[start:l]
 	return fmt.Sprintf("解析在数据%s处发生错误：%s",string(b),err.Type.String())
 }
 
@@ -235,11 +239,13 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return
 		}
 	}
 	return "", nil, &ErrorParseJson{
-		Type:         JET_NoKeyStart,
-		InvalidIndex: l,
+		Type:         JET_NoKeyEnd,
+		InvalidIndex: 0,
+		parseB:       b,
 	}
 }
 
-- 
2.43.0


From 9858d9d5b6f8a68cc9808cc980285d3c40b8c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 11/50] fix: JSON numbers keep their full value at any position
 and malformed numbers are rejected

---
 jsonparse.go | 131 +++++++++++++++++++++++++++------------------------
 1 file changed, 70 insertions(+), 61 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 4947c80..91e131b 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -483,7 +483,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -540,7 +540,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
@@ -552,78 +552,87 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	return parseJsonNum2V(b,v)
 }
 
-func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
-	isfloat := false
+//返回数字内容的结束位置
+func jsonNumEnd(b []byte)int  {
 	for i := 0; i < len(b); i++ {
 		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 			continue
 		}
-		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
-			if len(b[i:]) >= 3 {
-				xs := b[i : i+3]
-				if bytes.EqualFold(xs, infbyte) {
-					num.Reset(VT_INF)
-					return b[i+3:], nil
-				}
-				if bytes.EqualFold(xs, nanbyte){
-					num.Reset(VT_NAN)
-					return b[i+3:], nil
-				}
-			}
-			return b, errors.New("无效的Json格式")
+		return i
+	}
+	return len(b)
+}
+
+//没有小数点和指数，并且在int64范围内的为整数，否则为浮点
+func jsonNumValue(ns []byte)(iv int64,fv float64,isfloat bool,err error)  {
+	if bytes.IndexAny(ns,".eE") < 0{
+		if iv,err = strconv.ParseInt(string(ns),10,64);err == nil{
+			return
 		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetInt(v)
+	}
+	fv,err = strconv.ParseFloat(string(ns),64)
+	if err != nil{
+		err = errors.New("无效的Json格式")
+	}
+	return 0,fv,true,err
+}
+
+func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
+	i := jsonNumEnd(b)
+	if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
+		if len(b[i:]) >= 3 {
+			xs := b[i : i+3]
+			if bytes.EqualFold(xs, infbyte) {
+				num.Reset(VT_INF)
+				return b[i+3:], nil
+			}
+			if bytes.EqualFold(xs, nanbyte){
+				num.Reset(VT_NAN)
+				return b[i+3:], nil
+			}
 		}
-		return b, nil
+		return b, errors.New("无效的Json格式")
 	}
-	return nil, nil
+	iv,fv,isfloat,err := jsonNumValue(b[:i])
+	if err != nil{
+		return b,err
+	}
+	if isfloat{
+		num.Reset(VT_Double)
+		num.SetDouble(fv)
+	}else{
+		num.SetInt(iv)
+	}
+	return b[i:], nil
 }
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
-	isfloat := false
-	for i := 0; i < len(b); i++ {
-		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
-		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
-			continue
-		}
-		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
-			if len(b[i:]) >= 3 {
-				xs := b[i : i+3]
-				if bytes.EqualFold(xs, infbyte) {
-					return valueINF, b[i+3:], nil
-				}
-				if bytes.EqualFold(xs, nanbyte){
-					return valueNAN, b[i+3:], nil
-				}
+	i := jsonNumEnd(b)
+	if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
+		if len(b[i:]) >= 3 {
+			xs := b[i : i+3]
+			if bytes.EqualFold(xs, infbyte) {
+				return valueINF, b[i+3:], nil
+			}
+			if bytes.EqualFold(xs, nanbyte){
+				return valueNAN, b[i+3:], nil
 			}
-			return nil, b, errors.New("无效的Json格式")
-		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Float)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Int)
-			num.SetInt(v)
 		}
-		return num, b, nil
+		return nil, b, errors.New("无效的Json格式")
+	}
+	iv,fv,isfloat,err := jsonNumValue(b[:i])
+	if err != nil{
+		return nil,b,err
+	}
+	if isfloat{
+		num = c.getValue(VT_Double)
+		num.SetDouble(fv)
+	}else{
+		num = c.getValue(VT_Int)
+		num.SetInt(iv)
 	}
-	return nil, nil, nil
+	return num, b[i:], nil
 }
 
 func skipWB(b []byte) (r []byte,skiplen int) {
-- 
2.43.0


From 78f231f8341ca203073f8724f059cd584465b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 12/50] fix: JSON strings and keys are escaped and unescaped as
 RFC 8259 defines

---
 dxvalue.go     |   4 +-
 json_escape.go | 130 +++++++++++++++++++++++++++++++++++++++++++++++++
 jsonparse.go   |   8 +--
 3 files changed, 136 insertions(+), 6 deletions(-)
 create mode 100644 json_escape.go

diff --git a/dxvalue.go b/dxvalue.go
index b26dcf0..b013bb2 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -138,7 +138,7 @@ func (obj *VObject)UnEscapestrs()  {
 	}
 	for i := range obj.strkvs {
 		kv := &obj.strkvs[i]
-		kv.K = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(kv.K))
+		kv.K = unescapeJsonStr(kv.K)
 	}
 	obj.keysUnescaped = true
 }
@@ -787,7 +787,7 @@ func (v *DxValue)String()string  {
 	case VT_ExBinary:
 	case VT_RawString:
 		v.DataType = VT_String
-		v.fstrvalue = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(v.fstrvalue))
+		v.fstrvalue = unescapeJsonStr(v.fstrvalue)
 		return v.fstrvalue
 	case VT_Object,VT_Array:
 		return DxCommonLib.FastByte2String(Value2FormatJson(v,JSE_OnlyAnsiChar,false,nil))
diff --git a/json_escape.go b/json_escape.go
new file mode 100644
index 0000000..8cc14ae
--- /dev/null
+++ b/json_escape.go
@@ -0,0 +1,130 @@
+package dxsvalue
+
+import (
+	"github.com/suiyunonghen/DxCommonLib"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
+)
+
+const jsonHex = "0123456789ABCDEF"
+
+func appendJsonU16(dst []byte,u uint16)[]byte  {
+	return append(dst,'\\','u',jsonHex[u >> 12],jsonHex[u >> 8 & 0xF],jsonHex[u >> 4 & 0xF],jsonHex[u & 0xF])
+}
+
+//按照RFC8259转义字符串内容，escapeUnicode表示非ASCII字符也使用\u转义
+func escapeJsonStr(str string,escapeUnicode bool,dst []byte)[]byte  {
+	for _,r := range str{
+		switch {
+		case r == '"' || r == '\\':
+			dst = append(dst,'\\',byte(r))
+		case r == '\b':
+			dst = append(dst,'\\','b')
+		case r == '\f':
+			dst = append(dst,'\\','f')
+		case r == '\n':
+			dst = append(dst,'\\','n')
+		case r == '\r':
+			dst = append(dst,'\\','r')
+		case r == '\t':
+			dst = append(dst,'\\','t')
+		case r < ' ':
+			dst = appendJsonU16(dst,uint16(r))
+		case r < utf8.RuneSelf:
+			dst = append(dst,byte(r))
+		case !escapeUnicode:
+			var buf [utf8.UTFMax]byte
+			n := utf8.EncodeRune(buf[:],r)
+			dst = append(dst,buf[:n]...)
+		case r < 0x10000:
+			dst = appendJsonU16(dst,uint16(r))
+		default:
+			r1,r2 := utf16.EncodeRune(r)
+			dst = appendJsonU16(dst,uint16(r1))
+			dst = appendJsonU16(dst,uint16(r2))
+		}
+	}
+	return dst
+}
+
+func hexRune4(s string)(rune,bool)  {
+	if len(s) < 4{
+		return 0,false
+	}
+	r := rune(0)
+	for i := 0;i<4;i++{
+		ch := s[i]
+		switch {
+		case ch >= '0' && ch <= '9':
+			r = r << 4 | rune(ch - '0')
+		case ch >= 'a' && ch <= 'f':
+			r = r << 4 | rune(ch - 'a' + 10)
+		case ch >= 'A' && ch <= 'F':
+			r = r << 4 | rune(ch - 'A' + 10)
+		default:
+			return 0,false
+		}
+	}
+	return r,true
+}
+
+//解码Json字符串中的转义内容
+func unescapeJsonStr(str string)string  {
+	if strings.IndexByte(str,'\\') < 0{
+		return str
+	}
+	dst := make([]byte,0,len(str))
+	for i := 0;i<len(str);i++{
+		if str[i] != '\\' || i + 1 == len(str){
+			dst = append(dst,str[i])
+			continue
+		}
+		i++
+		switch str[i] {
+		case 'a':
+			dst = append(dst,'\a')
+		case 'b':
+			dst = append(dst,'\b')
+		case 'f':
+			dst = append(dst,'\f')
+		case 'n':
+			dst = append(dst,'\n')
+		case 'r':
+			dst = append(dst,'\r')
+		case 't':
+			dst = append(dst,'\t')
+		case 'v':
+			dst = append(dst,'\v')
+		case '\\','"','\'','/':
+			dst = append(dst,str[i])
+		case 'u':
+			r,ok := hexRune4(str[i+1:])
+			if !ok{
+				dst = append(dst,'\\','u')
+				continue
+			}
+			i += 4
+			if utf16.IsSurrogate(r){
+				//代理对，后面必须还有一个\u
+				low := rune(0)
+				ok = i + 2 < len(str) && str[i+1] == '\\' && str[i+2] == 'u'
+				if ok{
+					low,ok = hexRune4(str[i+3:])
+				}
+				if dec := utf16.DecodeRune(r,low);ok && dec != utf8.RuneError{
+					r = dec
+					i += 6
+				}else{
+					r = utf8.RuneError
+				}
+			}
+			var buf [utf8.UTFMax]byte
+			n := utf8.EncodeRune(buf[:],r)
+			dst = append(dst,buf[:n]...)
+		default:
+			dst = append(dst,'\\',str[i])
+		}
+	}
+	return DxCommonLib.FastByte2String(dst)
+}
diff --git a/jsonparse.go b/jsonparse.go
index 91e131b..b0dd5bf 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -680,7 +680,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				dst = append(dst,v.fobject.strkvs[i].K...)
 			default:
 				if escapeStyle != JSE_NoEscape &&  v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
+					dst = escapeJsonStr(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -696,7 +696,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
+			dst = escapeJsonStr(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
 		}
 
 		dst = append(dst,'"')
@@ -768,7 +768,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 			if escapeStyle != JSE_NoEscape{
 				if v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
+					dst = escapeJsonStr(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -804,7 +804,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
+			dst = escapeJsonStr(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
 		}
 		dst = append(dst,'"')
 	case VT_Array:
-- 
2.43.0


From 985d3d900bc9a87b9dd2d12a734e3a9f5c767b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 13/50] fix: JSON output is valid for binary, not-a-number and
 missing values

---
 dxvalue.go   | 31 ++++++++++--------------------
 jsonparse.go | 53 +++++++++++++++++++++++++++++++++-------------------
 2 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index b013bb2..9b82315 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -763,28 +763,17 @@ func (v *DxValue)String()string  {
 		return v.fstrvalue
 	case VT_NULL:
 		return "null"
-	case VT_Binary:
-		var dst []byte
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = make([]byte,0,48)
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,'"','}')
-
-		case uint8(BSON_Decimal128):
-			dst = make([]byte,0,48)
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
-			dst = append(dst,'"','}')
-		default:
-			dst = make([]byte,0,128)
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
+	case VT_Binary,VT_ExBinary:
+		hexstr := DxCommonLib.Bin2Hex(v.Binary())
+		if v.DataType == VT_Binary{
+			switch v.ExtType {
+			case uint8(BSON_ObjectID):
+				return `{"$oid":"` + hexstr + `"}`
+			case uint8(BSON_Decimal128):
+				return `{"Decimal128":"` + hexstr + `"}`
+			}
 		}
-		return DxCommonLib.FastByte2String(dst)
-	case VT_ExBinary:
+		return "Bin(" + hexstr + ")"
 	case VT_RawString:
 		v.DataType = VT_String
 		v.fstrvalue = unescapeJsonStr(v.fstrvalue)
diff --git a/jsonparse.go b/jsonparse.go
index b0dd5bf..38f97dc 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/suiyunonghen/DxCommonLib"
+	"math"
 	"os"
 	"strconv"
 )
@@ -658,10 +659,23 @@ const(
 )
 
 
+//ObjectID和Decimal128使用扩展的Json对象，其他的二进制使用字符串
+func appendJsonBinary(v *DxValue,dst []byte)[]byte  {
+	if v.DataType == VT_Binary && (v.ExtType == uint8(BSON_ObjectID) || v.ExtType == uint8(BSON_Decimal128)){
+		return append(dst,v.String()...)
+	}
+	dst = append(dst,'"')
+	dst = append(dst,v.String()...)
+	return append(dst,'"')
+}
+
 func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst []byte)[]byte  {
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,"null"...)
+	}
 	switch v.DataType {
 	case VT_Object:
 		dst = append(dst,'{')
@@ -713,8 +727,14 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			}
 		}
 		dst = append(dst, ']')
+	case VT_Binary,VT_ExBinary:
+		dst = appendJsonBinary(v,dst)
 	case VT_Float,VT_Double:
-		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		if math.IsNaN(v.Double()) || math.IsInf(v.Double(),0){ //Json没有对应的表达
+			dst = append(dst,"null"...)
+		}else{
+			dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		}
 	case VT_RawString:
 		dst = append(dst,'"')
 		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
@@ -737,7 +757,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
-	case VT_NULL:
+	case VT_NULL,VT_NAN,VT_INF:
 		dst = append(dst,'n','u','l','l')
 	}
 	return dst
@@ -752,6 +772,10 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = make([]byte,0,256)
 	}
 
+	if v == nil{
+		return append(dst,"null"...)
+	}
+
 	formatSpace := func(level int) {
 		for i := 0;i<level;i++{
 			dst = append(dst,' ',' ')
@@ -784,21 +808,6 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = append(dst,'\r','\n')
 		formatSpace(level)
 		dst = append(dst,'}')
-	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,'"','}')
-		case uint8(BSON_Decimal128):
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
-			dst = append(dst,'"','}')
-		default:
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
-		}
 	case VT_String:
 		dst = append(dst,'"')
 		if escapeStyle == JSE_NoEscape {
@@ -823,8 +832,14 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = append(dst,'\r','\n')
 		formatSpace(level)
 		dst = append(dst, ']')
+	case VT_Binary,VT_ExBinary:
+		dst = appendJsonBinary(v,dst)
 	case VT_Float,VT_Double:
-		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		if math.IsNaN(v.Double()) || math.IsInf(v.Double(),0){ //Json没有对应的表达
+			dst = append(dst,"null"...)
+		}else{
+			dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		}
 	case VT_RawString:
 		dst = append(dst,'"')
 		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
@@ -847,7 +862,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
-	case VT_NULL:
+	case VT_NULL,VT_NAN,VT_INF:
 		dst = append(dst,'n','u','l','l')
 	}
 	return dst
-- 
2.43.0


From 9ddebe13a04b0fe4d2de1334bbc079f6a903fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 14/50] fix: LoadFromJson replaces the whole target like a
 fresh decode and reports trailing data

---
 dxvalue.go   | 26 +++++++++++++++++++++++++-
 jsonparse.go |  2 ++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 9b82315..fbf0452 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnlyValue = errors.New("the value is readonly")
 )
 
 
@@ -269,12 +271,34 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err == nil{
+		b,skiplen := skipWB(tail)
+		if len(b) > 0 {
+			err = &ErrorParseJson{
+				Type:         JET_Invalidate,
+				InvalidIndex: skiplen,
+				parseB:       tail,
+			}
+		}
+	}
+	return v.loadResult(err)
+}
+
+//加载失败的时候，不保留解析到一半的内容
+func (v *DxValue)loadResult(err error)error  {
+	if err != nil{
+		v.Clear()
+		v.Reset(VT_NULL)
+	}
 	return err
 }
 
diff --git a/jsonparse.go b/jsonparse.go
index 38f97dc..9abd425 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -503,9 +503,11 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 		}
 	}
 	if b[0] == '{'{
+		v.Reset(VT_Object)
 		return parseJsonObj2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '[' {
+		v.Reset(VT_Array)
 		return parseJsonArray2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '"' {
-- 
2.43.0


From b9ba31179780448c2172cac11fe48e0bac3b2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 15/50] fix: LoadFromMsgPack retypes its target and truncated
 or invalid MsgPack is an error

---
 dxvalue.go      |  5 ++++-
 msgpackparse.go | 32 +++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index fbf0452..c9ca04d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -262,12 +262,15 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
 	}
 	_,err := parseMsgPack2Value(b,v,sharebinary)
-	return err
+	return v.loadResult(err)
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
diff --git a/msgpackparse.go b/msgpackparse.go
index 891f3cf..6b76daf 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,9 +31,13 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
+	if len(b) == 0{
+		return b,ErrUnKnownCode
+	}
 	if !MsgPackCode(b[0]).IsStr(){
 		return b,ErrMapKey
 	}
@@ -72,6 +76,9 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
+	if len(b) == 0{
+		return nil,b,ErrUnKnownCode
+	}
 	if !MsgPackCode(b[0]).IsStr(){
 		return nil,b,ErrMapKey
 	}
@@ -140,11 +147,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -290,11 +297,11 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return result,b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if isTimeExt(code,b[0],exlen){
 			//日期时间
 			result = c.getValue(VT_DateTime)
 			switch code {
@@ -323,10 +330,17 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+	default:
+		err = ErrInvalidateCode
 	}
 	return
 }
 
+//ext8的时间格式必须是12个字节
+func isTimeExt(code MsgPackCode,exttype byte,exlen int)bool  {
+	return code.IsTime(exttype) && (code != CodeExt8 || exlen == 12)
+}
+
 func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)  {
 	code,b,err := readCode(b)
 	if err != nil{
@@ -338,11 +352,13 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
 			v.fstrvalue = string(strbt)
 		}
+		return tail,nil
 	case code.IsArray():
 		return parseMsgPackArray2V(code,b,v,sharebinary)
 	case code.IsMap():
@@ -411,6 +427,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -434,6 +451,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -449,12 +467,13 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if isTimeExt(code,b[0],exlen){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -474,12 +493,15 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+	default:
+		err = ErrInvalidateCode
 	}
 	return
 }
-- 
2.43.0


From 6ec8148e015c5270086d16e4fd5ef1f70f214568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:52 +0000
Subject: [PATCH 16/50] fix: every value has exactly one MsgPack encoding with
 a matching header

---
 msgpack_value.go | 10 +++++-----
 msgpackparse.go  | 11 ++++++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/msgpack_value.go b/msgpack_value.go
index 3c3c8a9..6970a1c 100644
--- a/msgpack_value.go
+++ b/msgpack_value.go
@@ -169,15 +169,15 @@ func getExtcode(exbinLen int)MsgPackCode  {
 func writeExtCode(exlen int,dst []byte)[]byte  {
 	switch exlen {
 	case 1:
-		dst = append(dst,byte(CodeFixExt1))
+		return append(dst,byte(CodeFixExt1))
 	case 2:
-		dst = append(dst,byte(CodeFixExt2))
+		return append(dst,byte(CodeFixExt2))
 	case 4:
-		dst = append(dst,byte(CodeFixExt4))
+		return append(dst,byte(CodeFixExt4))
 	case 8:
-		dst = append(dst,byte(CodeFixExt8))
+		return append(dst,byte(CodeFixExt8))
 	case 16:
-		dst = append(dst,byte(CodeFixExt16))
+		return append(dst,byte(CodeFixExt16))
 	}
 	if exlen < 256 {
 		dst = append(dst,byte(CodeExt8),byte(exlen))
diff --git a/msgpackparse.go b/msgpackparse.go
index 6b76daf..04db76c 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -592,6 +592,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 			blen = len(v.fbinary[1:])
 		}
 		dst = writeExtCode(blen,dst)
+		if len(v.fbinary) == 0{
+			dst = append(dst,0) //没有设定过扩展类型
+		}
 		//直接写入内容
 		dst = append(dst,v.fbinary...)
 	case VT_Binary:
@@ -601,8 +604,14 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Float:
 		u32 := math.Float32bits(v.Float())
 		dst = append(dst,byte(CodeFloat),byte(u32 >> 24),byte(u32 >> 16),byte(u32 >> 8),byte(u32))
-	case VT_Double:
+	case VT_Double,VT_NAN,VT_INF:
 		u64 := math.Float64bits(v.Double())
+		switch v.DataType {
+		case VT_NAN:
+			u64 = math.Float64bits(math.NaN())
+		case VT_INF:
+			u64 = math.Float64bits(math.Inf(1))
+		}
 		dst = append(dst,byte(CodeDouble),byte(u64 >> 56),byte(u64 >> 48),byte(u64 >> 40),byte(u64 >> 32),byte(u64 >> 24),byte(u64 >> 16),byte(u64 >> 8),byte(u64))
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
-- 
2.43.0


From 5eb744da99b636cd6580b8d86ad9e5b5a227145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 17/50] fix: BSON decoding checks every length, handles empty
 documents and all supported types

---
 bson_parse.go | 123 ++++++++++++++++++++++++++++++--------------------
 dxvalue.go    |   6 ++-
 2 files changed, 80 insertions(+), 49 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..a33ad9d 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -17,25 +17,37 @@ var(
 	ErrBadBSONDocLen = errors.New("BSONDocument size invalidate")
 )
 
+//读取文档长度，文档至少有4个字节的长度以及一个结束符0
+func parseBsonDocLen(b []byte)(docLen int,err error)  {
+	if len(b) <= 4{
+		return 0,ErrBadBSONDocLen
+	}
+	docLen = int(binary.LittleEndian.Uint32(b[:4]))
+	if docLen < 5 || docLen > len(b){
+		return docLen,ErrBadBSONDocLen
+	}
+	if b[docLen - 1] != 0{
+		return docLen,ErrInvalidBSON
+	}
+	return docLen,nil
+}
+
 /**
 BSON文档（对象）由一个有序的元素列表构成。每个元素由一个字段名、一个类型和一个值组成。字段名为字符串。
 所以BSON文档必然是Object
  */
 func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue)(docLen,parseIndex int,err error)  {
-	if len(b) <= 4{
-		return 0,0,ErrBadBSONDocLen
-	}
-	//文档长度
-	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
-		return docLen,0,ErrBadBSONDocLen
+	docLen,err = parseBsonDocLen(b)
+	if err != nil{
+		return docLen,0,err
 	}
+	b = b[:docLen - 1]
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -80,26 +92,23 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		}
 
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
 	return docLen,parseIndex,nil
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
-	//文档长度
-	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
-		return docLen,0,ErrBadBSONDocLen
+	docLen,err = parseBsonDocLen(b)
+	if err != nil{
+		return docLen,0,err
 	}
+	b = b[:docLen - 1]
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -148,14 +157,31 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 				return docLen,parseIndex + parseidx,err
 			}
 		}
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
 	return docLen,parseIndex,nil
 }
 
+//固定长度的值所占的字节数
+func bsonFixedLen(btype BsonType)int  {
+	switch btype {
+	case BSON_Double,BSON_DateTime,BSON_Timestamp,BSON_Int64:
+		return 8
+	case BSON_ObjectID:
+		return 12
+	case BSON_Boolean:
+		return 1
+	case BSON_Decimal128:
+		return 16
+	case BSON_Int32,BSON_String,BSON_Binary:
+		return 4 //String和Binary开始为4字节长度
+	}
+	return 0
+}
+
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
+	if len(b) < bsonFixedLen(btype){
+		return 0,0,ErrInvalidBSON
+	}
 	switch btype {
 	case BSON_Double:
 		u64 := binary.LittleEndian.Uint64(b[:8])
@@ -166,6 +192,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex += 4
 		start := parseIndex
+		if valueLen < 1 || valueLen > len(b) - start || b[start + valueLen - 1] != 0{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		parseIndex += valueLen
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
 		if shareBinary{
@@ -174,35 +203,35 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 			value.SetString(string(b[start:parseIndex - 1]))
 		}
 	case BSON_Binary:
-		value.DataType = VT_ExBinary
-		value.ExtType = uint8(btype)
 		//先读取长度
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-		parseIndex = 4
-		//子类型
-		b = b[parseIndex:]
-		subType := b[0]
-		if subType == 2{
-			parseIndex ++
-			b = b[parseIndex:]
-			//再重新处理一遍
-			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
-				return valueLen,parseIndex,ErrInvalidBSON
+		//长度之后是子类型，然后是内容
+		if valueLen > len(b) - 5{
+			return valueLen,4,ErrInvalidBSON
+		}
+		parseIndex = 5 + valueLen
+		subType := b[4]
+		switch BsonBinaryType(subType) {
+		case BinaryGeneric:
+			value.Reset(VT_Binary)
+			b = b[5:parseIndex]
+		case BinaryBinaryOld:
+			//内容里面还有一个长度
+			if valueLen < 4 || int(binary.LittleEndian.Uint32(b[5:9])) != valueLen - 4{
+				return valueLen,5,ErrInvalidBSON
 			}
-			value.DataType = VT_Binary
-			value.ExtType = 0
-		}else{
+			value.Reset(VT_Binary)
+			b = b[9:parseIndex]
+		default:
 			//VT_ExBinary要将subType带上
-			valueLen ++
+			value.Reset(VT_ExBinary)
+			value.ExtType = uint8(btype)
+			b = b[4:parseIndex]
 		}
-		parseIndex += valueLen
 		if shareBinary{
-			value.SetBinary(b[:valueLen],false)
+			value.fbinary = b
 		}else {
-			value.SetBinary(b[:valueLen],true)
+			value.fbinary = append(value.fbinary[:0],b...)
 		}
 	case BSON_Undefined:
 	case BSON_ObjectID:
@@ -222,17 +251,12 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 	case BSON_DateTime:
 		//Unix 纪元(1970 年 1 月 1 日)以来的毫秒数
 		vunix := time.Duration(binary.LittleEndian.Uint64(b[:8])) * time.Millisecond
-		value.SetTime(time.Date(1970,1,1,0,0,0,0,time.UTC).Add(vunix))
+		value.SetTime(time.Date(1970,1,1,0,0,0,0,time.UTC).Add(vunix).Local())
 		return 8,8,nil
 	case BSON_Null:
 		//啥都不干
-	case BSON_Regex:
-	case BSON_DBPointer:
-	case BSON_JavaScript:
-	case BSON_Symbol:
-	case BSON_CodeWithScope:
 	case BSON_Int32:
-		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
+		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
@@ -250,6 +274,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 16,16,nil
 	case BSON_MinKey:
 	case BSON_MaxKey:
+	default:
+		//BSON_Regex,BSON_DBPointer,BSON_JavaScript,BSON_Symbol,BSON_CodeWithScope以及未知的类型，都不支持
+		return 0,0,ErrInvalidBSON
 	}
 	return
 }
diff --git a/dxvalue.go b/dxvalue.go
index c9ca04d..dfa4dae 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -337,12 +337,16 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
-	return  err
+	return  v.loadResult(err)
 }
 
 func (v *DxValue)Reset(dt ValueType)  {
-- 
2.43.0


From a210beb74810efac94529e81021200cd603fabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 18/50] fix: BSON output writes float32, NaN and Inf members as
 doubles

---
 bson_parse.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index a33ad9d..857df0a 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -416,8 +416,11 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			}
 		}
 	case VT_Float,VT_Double:
-		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
-		dst = putLittI64(u64,dst)
+		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
+	case VT_NAN:
+		dst = putLittI64(int64(math.Float64bits(math.NaN())),dst)
+	case VT_INF:
+		dst = putLittI64(int64(math.Float64bits(math.Inf(1))),dst)
 	case VT_DateTime:
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
@@ -479,7 +482,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 				dst = append(dst,byte(BSON_Int32))
 			}
 		}
-	case VT_Float,VT_Double:
+	case VT_Float,VT_Double,VT_NAN,VT_INF:
 		dst = append(dst,byte(BSON_Double))
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
-- 
2.43.0


From 518f7b411c5be435f44251baab43b41aef23015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 19/50] fix: YAML parsing ends on any last line, skips blank
 lines and starts from a clean parser state

---
 yamlparse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index d909717..cf4b19c 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -478,6 +478,7 @@ func (parser *yamlParser)parse()error  {
 	istart := 0
 	curLineEnd := 0
 	parser.lastOpifMerge = false
+	parser.ifFirstObjEle = false
 	parser.lastSpaceCount = -1
 	for {
 		spaceCount := 0
@@ -496,9 +497,10 @@ func (parser *yamlParser)parse()error  {
 				}
 			}
 		}
-		if curLineEnd - istart < 2{
+		if len(bytes.TrimFunc(parser.parseData[istart: curLineEnd],spaceTrim)) == 0{
+			//空行
 			istart = curLineEnd + 1
-			if istart == datalen{
+			if istart >= datalen{
 				break
 			}
 			continue
-- 
2.43.0


From 5bfd9fcce57447303ee5a179e0e409bbfe3f1196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 20/50] fix: a YAML anchor on a nested mapping is recorded
 wherever the key stands

---
 yamlparse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index cf4b19c..d1dbf9d 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -450,7 +450,9 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 				parser.parseStringValue(target,value,false) //继续解析
 			}
 		}else {
-			target.SetString("")
+			//只有锚点，后面的子级内容就是引用的值
+			target.Reset(VT_Object)
+			parser.setCachedUseage(string(vstr[1:]),target)
 		}
 	}else if vstr[0] == '*' {
 		spaceIndex := bytes.IndexByte(vstr,' ')
-- 
2.43.0


From 2679ea69f9b8b0f5478e298e3415cec8147fd48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 21/50] fix: a YAML sequence below the first key of a sequence
 entry belongs to that key

---
 yamlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index d1dbf9d..9be3e0f 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -126,7 +126,8 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 		currentValue = parser.fParsingValues[lastIndex].v
 	}
 	isstrvalue := false
-	if currentValue.DataType == VT_Object{
+	parser.ifFirstObjEle = false
+	if currentValue.DataType == VT_Object || currentValue.DataType == VT_NULL{
 		currentValue.Reset(VT_Array)
 	}
 	if currentValue.DataType == VT_Array{
-- 
2.43.0


From dd6879a7ca63663f1e63c348903ccf7d74167915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 22/50] fix: ToStdValue fills the destination slices, also for
 nested arrays

---
 reflect_parse.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..a3e2a7a 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -1005,34 +1005,38 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		if v.DataType != VT_Array{
 			return false
 		}
+		idx := -1 //切片的长度不能变更，只填充
 		v.Visit(func(Key string, arrvalue *DxValue) bool {
+			if idx++;idx >= len(value){
+				return false
+			}
 			switch arrvalue.DataType {
 			case VT_Object:
 				newvalue := make(map[string]interface{},arrvalue.Count())
 				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
+				value[idx] = newvalue
 			case VT_Array:
 				newvalue := make([]interface{},arrvalue.Count())
 				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
+				value[idx] = newvalue
 			case VT_String,VT_RawString:
-				value = append(value,arrvalue.String())
+				value[idx] = arrvalue.String()
 			case VT_Int:
-				value = append(value,arrvalue.Int())
+				value[idx] = arrvalue.Int()
 			case VT_DateTime:
-				value = append(value,arrvalue.GoTime())
+				value[idx] = arrvalue.GoTime()
 			case VT_Double:
-				value = append(value,arrvalue.Double())
+				value[idx] = arrvalue.Double()
 			case VT_Float:
-				value = append(value,arrvalue.Float())
+				value[idx] = arrvalue.Float()
 			case VT_Binary,VT_ExBinary:
-				value = append(value,arrvalue.Binary())
+				value[idx] = arrvalue.Binary()
 			case VT_True:
-				value = append(value,true)
+				value[idx] = true
 			case VT_False:
-				value = append(value,false)
+				value[idx] = false
 			case VT_NULL:
-				value = append(value,nil)
+				value[idx] = nil
 			}
 			return true
 		})
@@ -1040,8 +1044,12 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		if v.DataType != VT_Array{
 			return false
 		}
+		idx := -1 //切片的长度不能变更，只填充
 		v.Visit(func(Key string, arrvalue *DxValue) bool {
-			value = append(value,arrvalue.String())
+			if idx++;idx >= len(value){
+				return false
+			}
+			value[idx] = arrvalue.String()
 			return true
 		})
 	default:
-- 
2.43.0


From aee3bc0849703b58af331bd9c1b27db768a2441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 23/50] fix: unsigned struct fields are converted instead of
 panicking

---
 reflect_parse.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index a3e2a7a..e5d7140 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -355,9 +355,10 @@ func (v *DxValue)SetValue(value interface{})  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						v.SetKeyValue(sfield.Name,valueTrue)
@@ -611,9 +612,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
@@ -841,9 +843,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
-- 
2.43.0


From 1790edef0da1bc3faf1738e053b4e4369179d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 24/50] fix: nil pointers and nil interface values become null
 members

---
 reflect_parse.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index e5d7140..221dcc0 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -320,7 +320,8 @@ func (v *DxValue)SetValue(value interface{})  {
 	default:
 		//判断一下是否是结构体
 		reflectv := reflect.ValueOf(value)
-		if !reflectv.IsValid(){
+		if !reflectv.IsValid() || reflectv.Kind() == reflect.Ptr && reflectv.IsNil(){
+			v.Reset(VT_NULL)
 			return
 		}
 		if reflectv.Type().Implements(ValueMarshalerType){
@@ -355,6 +356,8 @@ func (v *DxValue)SetValue(value interface{})  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
+				case reflect.Invalid: //空指针
+					v.SetKeyValue(sfield.Name,valueNull)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -406,6 +409,8 @@ func (v *DxValue)SetValue(value interface{})  {
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
+				case reflect.Invalid: //空指针
+					v.SetKeyValue(kv.String(),valueNull)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -584,7 +589,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 	default:
 		//判断一下是否是结构体
 		reflectv := reflect.ValueOf(value)
-		if !reflectv.IsValid(){
+		if !reflectv.IsValid() || reflectv.Kind() == reflect.Ptr && reflectv.IsNil(){
+			v.SetKeyValue(Name,valueNull)
 			return
 		}
 		if reflectv.Type().Implements(ValueMarshalerType){
@@ -612,6 +618,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
+				case reflect.Invalid: //空指针
+					newv.SetKeyValue(sfield.Name,valueNull)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -653,6 +661,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
+				case reflect.Invalid: //空指针
+					newv.SetKeyValue(kv.String(),valueNull)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -821,7 +831,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 	default:
 		//判断一下是否是结构体
 		reflectv := reflect.ValueOf(value)
-		if !reflectv.IsValid(){
+		if !reflectv.IsValid() || reflectv.Kind() == reflect.Ptr && reflectv.IsNil(){
+			v.SetIndexValue(idx,valueNull)
 			return
 		}
 		rtype := reflectv.Type()
@@ -843,6 +854,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
+				case reflect.Invalid: //空指针
+					newv.SetKeyValue(sfield.Name,valueNull)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -884,6 +897,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
+				case reflect.Invalid: //空指针
+					newv.SetKeyValue(kv.String(),valueNull)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-- 
2.43.0


From 2bfb2b67daed24cc9280dca56bb7c58be13519a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 25/50] fix: times, byte slices and empty maps convert to their
 own value type

---
 reflect_parse.go | 45 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 221dcc0..3aede75 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -242,9 +242,11 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *bool:
 		v.SetBool(*realv)
 	case time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.Reset(VT_DateTime)
+		v.SetTime(realv)
 	case *time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.Reset(VT_DateTime)
+		v.SetTime(*realv)
 	case float32:
 		v.SetFloat(realv)
 	case *float32:
@@ -254,8 +256,14 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		if v.DataType != VT_Binary && v.DataType != VT_ExBinary{
+			v.Reset(VT_Binary)
+		}
 		v.SetBinary(realv,true)
 	case *[]byte:
+		if v.DataType != VT_Binary && v.DataType != VT_ExBinary{
+			v.Reset(VT_Binary)
+		}
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
@@ -391,19 +399,12 @@ func (v *DxValue)SetValue(value interface{})  {
 			}
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if reflectv.Type().Key().Kind() != reflect.String{
 				return
 			}
 			v.Reset(VT_Object)
 			cache := v.ValueCache()
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
@@ -644,18 +645,11 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			}
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if reflectv.Type().Key().Kind() != reflect.String{
 				return
 			}
 			newv := v.SetKeyCached(Name,VT_Object,cache)
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
@@ -880,18 +874,11 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			}
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
-			if len(mapkeys) == 0{
-				return
-			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if reflectv.Type().Key().Kind() != reflect.String{
 				return
 			}
 			newv := v.SetIndexCached(idx,VT_Object,cache)
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
-- 
2.43.0


From 25369ec35eb05f4a35582b640d9211e9b5d13964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 26/50] fix: decoding into Go slices indexes the elements and
 skips unexported fields

---
 reflect_parse.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 3aede75..56c7879 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -14,6 +14,9 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 			fld := valueType.Field(i)
 			if ignoreCase && strings.EqualFold(Key,fld.Name) || Key == fld.Name{
 				childreflectv := fvalue.Field(i)
+				if !childreflectv.CanSet(){ //未导出的字段
+					break
+				}
 				tp := fld.Type
 				if tp.Implements(ValueUnMarshalerType){
 					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
@@ -64,24 +67,25 @@ func growSliceValue(v reflect.Value, n int) reflect.Value {
 }
 
 func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase bool)bool  {
+	vtype := sliceValue.Type().Elem()
+	if vtype.Kind() == reflect.Uint8 && (arrvalue.DataType == VT_Binary || arrvalue.DataType == VT_ExBinary){
+		sliceValue.SetBytes(append([]byte{},arrvalue.Binary()...))
+		return true
+	}
 	if arrvalue.DataType != VT_Array{
 		return false
 	}
 	n := arrvalue.Count()
 	if n == 0{
-		return false
+		sliceValue.SetLen(0)
+		return true
 	}
-	var vtype reflect.Type
 	if sliceValue.Cap() == 0{
 		vslice := reflect.MakeSlice(sliceValue.Type(), n, n)
-		sv := vslice.Index(0)
-		vtype = sv.Type()
 		sliceValue.Set(vslice.Slice(0, n))
 	}else if sliceValue.Cap() >= n {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, n))
 	} else if sliceValue.Len() < sliceValue.Cap() {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
 	}
 
@@ -91,7 +95,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+			sliceValue.Index(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
 		}
 		return true
 	}
@@ -105,7 +109,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 				if i >= sliceValue.Len() {
 					sliceValue.Set(growSliceValue(sliceValue, n))
 				}
-				convertHandler(sliceValue.Field(i),arrNode)
+				convertHandler(sliceValue.Index(i),arrNode)
 			}
 			return true
 		}
@@ -117,7 +121,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Set(reflect.ValueOf(arrNode.GoTime()))
+			sliceValue.Index(i).Set(reflect.ValueOf(arrNode.GoTime()))
 		}
 		return true
 	}
@@ -1072,15 +1076,15 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		reflectv = reflectv.Elem()
 		valueType := reflectv.Type()
 
-		if v.DataType != VT_Object{
-			return false
-		}
-		//反射处理,只处理结构体
+		//反射处理,只处理结构体和切片
 		switch valueType.Kind() {
 		case reflect.Struct:
+			if v.DataType != VT_Object{
+				return false
+			}
 			decode2reflectFromdxValue(reflectv,v,ignoreCase,valueType)
 		case reflect.Slice:
-			decodeArray2reflect(reflectv,v,ignoreCase)
+			return decodeArray2reflect(reflectv,v,ignoreCase)
 		default:
 			return false
 		}
-- 
2.43.0


From 7c069fef293c76174a9c71d5dacb2159f9978f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 27/50] fix: SaveBinaryToFile opens the file for writing

---
 bin_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..d6588ec 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -76,7 +76,7 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 
 func (v *DxValue)SaveBinaryToFile(fileName string)error  {
 	if  v.DataType == VT_Binary || v.DataType == VT_ExBinary{
-		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC,0644);err == nil{
+		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0644);err == nil{
 			defer file.Close()
 			if v.DataType == VT_Binary{
 				_,err := file.Write(v.fbinary)
-- 
2.43.0


From feeab16bf3df175399741b3a2d4bc4a55f2b0cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 28/50] fix: LoadFromYaml refuses read-only targets and keeps
 nothing of a failed load

---
 dxvalue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index dfa4dae..ff04285 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -306,6 +306,9 @@ func (v *DxValue)loadResult(err error)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -333,7 +336,7 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,v})
 	err := parser.parse()
 	freeyamlParser(parser)
-	return err
+	return v.loadResult(err)
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
-- 
2.43.0


From 71a8f9d5041fd532d7bf9b2c057f969278339784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:33 +0000
Subject: [PATCH 29/50] fix: values created without a cache own no slab, so an
 extracted member survives clearing its old parent

---
 cache.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cache.go b/cache.go
index bc456b3..404e224 100644
--- a/cache.go
+++ b/cache.go
@@ -15,13 +15,7 @@ type	ValueCache struct {
 
 func (c *ValueCache)getValue(t ValueType)*DxValue  {
 	if c == nil{
-		c = &ValueCache{
-			fisroot:	false,
-			Value:    make([]DxValue,0,8),
-		}
-		c.Value = append(c.Value, DxValue{DataType: t,
-			ownercache: c,})
-		return &c.Value[len(c.Value)-1]
+		return &DxValue{DataType: t}
 	}
 	if cap(c.Value) > len(c.Value) {
 		c.Value = c.Value[:len(c.Value)+1]
-- 
2.43.0


From d7440fb1374055286bd35a7bb3fbaa4060f3e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 30/50] fix: retyping a JSON string to string keeps its text
 whether or not it was read before

---
 dxvalue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index ff04285..a253187 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1213,6 +1213,8 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 		if result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
+		}else if tp == VT_String && result.DataType == VT_RawString{
+			result.String() //Json中解析的还未转义的字符串也是字符串
 		}else if result.DataType != tp {
 			result.Reset(tp)
 		}
@@ -1308,6 +1310,8 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 			if result == valueTrue || result == valueNull || result == valueFalse || result == valueINF || result == valueNAN{
 				result = c.getValue(tp)
 				v.farr[idx] = result
+			}else if tp == VT_String && result.DataType == VT_RawString{
+				result.String()
 			}else if result.DataType != tp {
 				result.Reset(tp)
 			}
-- 
2.43.0


From 2d781f8c2089e9bff0f88d7cba78ff846a675c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:05 +0000
Subject: [PATCH 31/50] fix: YAML keys after a nested block under the first key
 of a sequence entry belong to that entry

---
 yamlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 9be3e0f..38abf77 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -164,7 +164,8 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 					currentValue = currentValue.SetKeyCached(string(k),VT_String,parser.fparentCache)
 					parser.parseStringValue(currentValue,v,true)
 				}
-				parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
+				//该键的缩进要加上数组标记"- "的长度2
+				parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount + 2,currentValue})
 
 			}
 		}
-- 
2.43.0


From 49fcfdaeea1832980dfb44d71ec6b554ffd07a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:43 +0000
Subject: [PATCH 32/50] fix: YAML sequence entries with a bare dash in CRLF
 files

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 38abf77..16fcf4f 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -101,7 +101,7 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 	var currentValue *DxValue
 	isvalue := false
 	if len(dataLine) > 0{
-		if dataLine[0] != ' '{
+		if dataLine[0] != ' ' && dataLine[0] != '\r'{
 			//判定一下当前的空格数量
 			if spaceCount <= parser.lastSpaceCount{
 				return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-- 
2.43.0


From e0637eec35706dbd171eb593109b22f0b57a8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 33/50] fix: SetBinary and SetExtType never write into bytes
 shared with the caller or other values

---
 bin_value.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index d6588ec..b5b06a0 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -29,11 +29,12 @@ func (v *DxValue)BinLen()int  {
 
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
+		//fbinary可能和外部数据共享，不能直接在原数据上修改
+		buf := []byte{t}
 		if len(v.fbinary) > 0{
-			v.fbinary[0] = t
-		}else{
-			v.fbinary = append(v.fbinary,t)
+			buf = append(buf,v.fbinary[1:]...)
 		}
+		v.fbinary = buf
 	}
 }
 
@@ -55,14 +56,14 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			//fbinary可能和外部数据共享，不能在原数据上覆盖
+			v.fbinary = append([]byte(nil),b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
-			v.fbinary = append(v.fbinary,b...)
+			v.fbinary = append([]byte{v.fbinary[0]},b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-- 
2.43.0


From 27163df6d6dc8e72afab87f6392dfab61cf4419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:45 +0000
Subject: [PATCH 34/50] fix: string pointers are stored like the string they
 point to

---
 reflect_parse.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 56c7879..f0793b8 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -237,6 +237,12 @@ func (v *DxValue)SetValue(value interface{})  {
 		v.SetInt(int64(*realv))
 	case string:
 		v.SetString(realv)
+	case *string:
+		if realv == nil{
+			v.Reset(VT_NULL)
+			return
+		}
+		v.SetString(*realv)
 	case *DxValue:
 		v.CopyFrom(realv,nil)
 	case DxValue:
@@ -509,6 +515,12 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(*realv))
 	case string:
 		v.SetKeyCached(Name,VT_String,cache).SetString(realv)
+	case *string:
+		if realv == nil{
+			v.SetKeyValue(Name,valueNull)
+			return
+		}
+		v.SetKeyCached(Name,VT_String,cache).SetString(*realv)
 	case *DxValue:
 		v.SetKeyValue(Name,realv)
 	case DxValue:
@@ -744,6 +756,12 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(*realv))
 	case string:
 		v.SetIndexCached(idx,VT_String,cache).SetString(realv)
+	case *string:
+		if realv == nil{
+			v.SetIndexValue(idx,valueNull)
+			return
+		}
+		v.SetIndexCached(idx,VT_String,cache).SetString(*realv)
 	case *DxValue:
 		v.SetIndexValue(idx,realv)
 	case DxValue:
-- 
2.43.0


From 0679368af826960dad5f24487a6ebeeafa0c52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:39 +0000
Subject: [PATCH 35/50] fix: FreeValue wrote to the shared constant values, a
 data race between goroutines

---
 cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 404e224..d9b6d03 100644
--- a/cache.go
+++ b/cache.go
@@ -61,8 +61,9 @@ func FreeValue(v *DxValue)  {
 	}
 	v.Clear()
 	c := v.ownercache
-	v.ownercache = nil
 	if c!=nil{
+		//共享的常量值没有ownercache，不能写入，否则会和其他协程产生竞争
+		v.ownercache = nil
 		c.Reset(true)
 		ValueCachePool.Put(c)
 	}
-- 
2.43.0


From d5252225857d3c8fe70aeb3b5d99e27f3566d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:39 +0000
Subject: [PATCH 36/50] fix: Equal distinguished ext binaries of the same type
 and content

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index a253187..4dcaff0 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -548,7 +548,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	case VT_RawString:
 		return v.fstrvalue == value.fstrvalue || v.String() == value.String()
 	case VT_Binary,VT_ExBinary:
-		return bytes.Compare(v.fbinary,value.fbinary) == 0
+		return v.BinExtType() == value.BinExtType() && bytes.Compare(v.Binary(),value.Binary()) == 0
 	case VT_Object:
 		if len(v.fobject.strkvs) != len(value.fobject.strkvs){
 			return false
-- 
2.43.0


From 86c139b6e20b8b19f0f6bcbc8946aed6bb8cbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 37/50] fix: SetKeyvalue/SetIndexvalue of a Go map, slice or
 struct kept old members of the container already stored there

---
 reflect_parse.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index f0793b8..1ce8f98 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -555,51 +555,61 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		v.SetKeyCached(Name,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
 		newv := v.SetKeyCached(Name,VT_Object,v.ownercache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
 		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
 		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
@@ -628,6 +638,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				return
 			}
 			newv := v.SetKeyCached(Name,VT_Object,cache)
+			newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
@@ -665,6 +676,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				return
 			}
 			newv := v.SetKeyCached(Name,VT_Object,cache)
+			newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
@@ -697,6 +709,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			}
 		case reflect.Slice:
 			newv := v.SetKeyCached(Name,VT_Array,cache)
+			newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 			vlen := reflectv.Len()
 			for i := 0;i<vlen;i++{
 				av := reflectv.Index(i)
@@ -796,51 +809,61 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		v.SetIndexCached(idx,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
 		newv := v.SetIndexCached(idx,VT_Object,v.ownercache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
 		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
 		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
@@ -863,6 +886,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		switch reflectv.Kind(){
 		case reflect.Struct:
 			newv := v.SetIndexCached(idx,VT_Object,cache)
+			newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
@@ -900,6 +924,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				return
 			}
 			newv := v.SetIndexCached(idx,VT_Object,cache)
+			newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
@@ -933,6 +958,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		case reflect.Slice:
 			//数组的话
 			newarr := v.SetIndexCached(idx,VT_Array,cache)
+			newarr.Reset(VT_Array) //替换原有内容，不能与原有成员混合
 			vlen := reflectv.Len()
 			for i := 0;i<vlen;i++{
 				av := reflectv.Index(i)
-- 
2.43.0


From ef04ee2bdf81cd8fec53b85e47683677dd1b42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:08 +0000
Subject: [PATCH 38/50] fix: custom encoders with pointer receivers were
 ignored inside maps, structs and slices

---
 dxvalue.go       |  2 +-
 reflect_parse.go | 12 ++++++------
 struct_type.go   |  4 ++++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 4dcaff0..88b28d3 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1275,7 +1275,7 @@ func getRealValue(v *reflect.Value)*reflect.Value  {
 	if !v.IsValid(){
 		return nil
 	}
-	if v.Kind() == reflect.Ptr{
+	if v.Kind() == reflect.Ptr && !isPtrMarshaler(*v){
 		if !v.IsNil(){
 			va := v.Elem()
 			return getRealValue(&va)
diff --git a/reflect_parse.go b/reflect_parse.go
index 1ce8f98..63e9b3d 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -370,7 +370,7 @@ func (v *DxValue)SetValue(value interface{})  {
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
-				if fv.Kind() == reflect.Ptr{
+				if fv.Kind() == reflect.Ptr && !isPtrMarshaler(fv){
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
@@ -416,7 +416,7 @@ func (v *DxValue)SetValue(value interface{})  {
 			cache := v.ValueCache()
 			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
-				if rvalue.Kind() == reflect.Ptr{
+				if rvalue.Kind() == reflect.Ptr && !isPtrMarshaler(rvalue){
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
@@ -642,7 +642,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
-				if fv.Kind() == reflect.Ptr{
+				if fv.Kind() == reflect.Ptr && !isPtrMarshaler(fv){
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
@@ -679,7 +679,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
-				if rvalue.Kind() == reflect.Ptr{
+				if rvalue.Kind() == reflect.Ptr && !isPtrMarshaler(rvalue){
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
@@ -890,7 +890,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
-				if fv.Kind() == reflect.Ptr{
+				if fv.Kind() == reflect.Ptr && !isPtrMarshaler(fv){
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
@@ -927,7 +927,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			newv.Reset(VT_Object) //替换原有内容，不能与原有成员混合
 			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
-				if rvalue.Kind() == reflect.Ptr{
+				if rvalue.Kind() == reflect.Ptr && !isPtrMarshaler(rvalue){
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
diff --git a/struct_type.go b/struct_type.go
index 44975a2..8a566e2 100644
--- a/struct_type.go
+++ b/struct_type.go
@@ -33,3 +33,7 @@ func RegisterTypeMapFunc(tp reflect.Type,handler StdValueFromDxValue)  {
 	structTypePool.Store(tp,handler)
 }
 
+//指针类型自身实现了转换接口的，不能取其指向的内容
+func isPtrMarshaler(v reflect.Value)bool  {
+	return v.Kind() == reflect.Ptr && !v.IsNil() && v.Type().Implements(ValueMarshalerType)
+}
-- 
2.43.0


From c9d9c516e42a6e3f7072642702f401f376b2ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 39/50] fix: custom decoders were called on nil pointers

---
 reflect_parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 63e9b3d..f2249cd 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -19,6 +19,7 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 				}
 				tp := fld.Type
 				if tp.Implements(ValueUnMarshalerType){
+					newNilPtr(childreflectv)
 					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
 					break
 				}
@@ -57,6 +58,13 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 	})
 }
 
+//空指针先分配，自定义的解码才有地方可写
+func newNilPtr(v reflect.Value)  {
+	if v.Kind() == reflect.Ptr && v.IsNil(){
+		v.Set(reflect.New(v.Type().Elem()))
+	}
+}
+
 func growSliceValue(v reflect.Value, n int) reflect.Value {
 	diff := n - v.Len()
 	if diff > 256 {
@@ -95,6 +103,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
+			newNilPtr(sliceValue.Index(i))
 			sliceValue.Index(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
 		}
 		return true
-- 
2.43.0


From 68cc43364ea93c7617f4d18e15cb5504bd58527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:39 +0000
Subject: [PATCH 40/50] fix: storing a nil value stores null instead of a
 member that merging and later stores panic on

---
 dxvalue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 88b28d3..8f06b63 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1236,6 +1236,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 	if v.ReadOnly(){
 		return
 	}
+	if value == nil{
+		value = valueNull
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1260,6 +1263,9 @@ func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
 	if v.ReadOnly(){
 		return
 	}
+	if value == nil{
+		value = valueNull
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From e60ee8a6c7bb89fb86e63923a7b5f613ee5e581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:06 +0000
Subject: [PATCH 41/50] fix: a binary stored over a BSON object id or decimal
 kept the subtype, and encoding panicked or cut it

---
 bin_value.go | 3 +++
 dxvalue.go   | 1 +
 2 files changed, 4 insertions(+)

diff --git a/bin_value.go b/bin_value.go
index b5b06a0..6ed8320 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -55,6 +55,9 @@ func (v *DxValue)Binary()[]byte  {
 func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
+		if v.ExtType != 0 && len(b) != bsonFixedLen(BsonType(v.ExtType)){
+			v.ExtType = 0 //不再是ObjectID或者Decimal128
+		}
 		if valueClone{
 			//fbinary可能和外部数据共享，不能在原数据上覆盖
 			v.fbinary = append([]byte(nil),b...)
diff --git a/dxvalue.go b/dxvalue.go
index 8f06b63..5d3df58 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -199,6 +199,7 @@ func (v *DxValue)Clear()  {
 		v.ownercache.Reset(false) //根不回收
 	}
 	v.fobject.keysUnescaped = false
+	v.ExtType = 0 //内容没有了，BSON的子类型也不再有意义
 	switch v.DataType {
 	case VT_Object:
 		for i := 0; i < len(v.fobject.strkvs);i++{
-- 
2.43.0


From 94966dc94c5f090aad2777294294adb0791e5968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 42/50] fix: copying or adding a part of a document to another
 part of it lost content or never ended

---
 dxvalue.go | 59 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 5d3df58..72354c6 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -645,44 +645,65 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 			c = v.ownercache
 		}
 		fromv.fobject.UnEscapestrs()
+		//v有可能就是fromv或者是fromv的下级，所以先全部复制好，再加入到v
+		kvs := make([]strkv,0,len(fromv.fobject.strkvs))
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
-			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
+			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) < 0{
+				kvs = append(kvs,strkv{fromv.fobject.strkvs[i].K,fromv.fobject.strkvs[i].V.clone(c)})
+			}
+		}
+		for i := range kvs{
+			if v.fobject.indexByName(kvs[i].K) >= 0{
 				continue
 			}
-			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			*v.fobject.getKv() = kvs[i]
 		}
 	case VT_Array:
-		c := v.ownercache
-		for i := 0;i < len(fromv.farr);i++{
-			v.farr = append(v.farr, fromv.farr[i].clone(c))
-		}
+		v.farr = append(v.farr,cloneValues(fromv.farr,v.ownercache)...)
+	}
+}
+
+func cloneValues(values []*DxValue,c *ValueCache)[]*DxValue  {
+	result := make([]*DxValue,len(values))
+	for i := range values{
+		result[i] = values[i].clone(c)
 	}
+	return result
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 	if v == fromv || v.ReadOnly(){
 		return
 	}
-	v.Reset(fromv.DataType)
-	v.ExtType = fromv.ExtType
+	//v和fromv有可能是上下级关系，所以先复制好fromv的下级，再重置v
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
-		for i := 0; i<len(fromv.fobject.strkvs);i++{
-			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+		keysUnescaped := fromv.fobject.keysUnescaped
+		kvs := make([]strkv,len(fromv.fobject.strkvs))
+		for i := range kvs{
+			kvs[i].K = fromv.fobject.strkvs[i].K
+			kvs[i].V = fromv.fobject.strkvs[i].V.clone(c)
 		}
-	case VT_Array:
-		c := v.ownercache
-		for i := 0;i < len(fromv.farr);i++{
-			v.farr = append(v.farr, fromv.farr[i].clone(c))
+		v.Reset(VT_Object)
+		v.ExtType = fromv.ExtType
+		v.fobject.keysUnescaped = keysUnescaped
+		for i := range kvs{
+			*v.fobject.getKv() = kvs[i]
 		}
+		return
+	case VT_Array:
+		values := cloneValues(fromv.farr,v.ownercache)
+		v.Reset(VT_Array)
+		v.ExtType = fromv.ExtType
+		v.farr = append(v.farr,values...)
+		return
+	}
+	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
+	switch fromv.DataType {
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
 	case VT_Binary,VT_ExBinary:
-- 
2.43.0


From 74a1d19afa118e78be1ee77d424d0ba2897706f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 43/50] fix: LoadFromYaml accepted a first line without key
 that NewValueFromYaml refuses

---
 yamlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 16fcf4f..1e4033f 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -285,7 +285,8 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 
 	key,value,hasKeySplit := parser.splitKv(dataLine)
 
-	if lastIndex < 0{
+	if parser.lastSpaceCount < 0{
+		//第一行，加载到已有的值时，根节点已经存在
 		if len(key) == 0 || !hasKeySplit{
 			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
 		}
-- 
2.43.0


From 5986dbe2a640aba3b16d07b593c74064c66d777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 44/50] fix: LoadFromYaml dropped the indentation of the first
 line and nested the lines below it

---
 dxvalue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 72354c6..554610d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -313,17 +313,17 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
-		if b[i] == ' ' || b[i] == '\r' || b[i] == '\n' || b[i] == '\t'{
+		if b[i] == ' ' || b[i] == '\r' || b[i] == '\n'{
 			spacount++
 			continue
 		}
 		break
 	}
-	b = b[spacount:]
-	if len(b) == 0{
+	if spacount == len(b){
 		return nil
 	}
-	if b[0] == '-'{
+	//首行的缩进要保留，后续行的级别是和它比较的
+	if b[spacount] == '-'{
 		v.Reset(VT_Array)
 	}else{
 		v.Reset(VT_Object)
-- 
2.43.0


From a4eef5c510862f1741e952b0be51c6c64daf7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 45/50] fix: a YAML line indented less than the lines before it
 could drop everything parsed before

---
 yamlparse.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 1e4033f..46a01b4 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -22,6 +22,7 @@ type yamlParser struct {
 	lastOpifMerge		bool				//上一步操作是合并操作
 	usecache			bool
 	lastSpaceCount		int
+	rootSpaceCount		int					//首行的缩进
 	root				*DxValue
 	fparentCache		*ValueCache
 	parseData			[]byte
@@ -87,8 +88,9 @@ func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 func (parser *yamlParser)popLast(popCount int)  {
 	l := len(parser.fParsingValues)
 	if l > 0{
-		if popCount > l{
-			popCount = l
+		if popCount >= l{
+			//根节点要保留，否则前面解析的内容就丢了
+			popCount = l - 1
 		}
 		for i,j := l - 1,popCount;i>=0 && j > 0;i,j = i-1,j-1{
 			parser.fParsingValues[i].v = nil
@@ -193,6 +195,13 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 	}
 
 
+	if parser.lastSpaceCount < 0{
+		parser.rootSpaceCount = spaceCount
+	}else if spaceCount < parser.rootSpaceCount{
+		//缩进比首行还少，不属于根节点，继续解析会丢掉前面的内容
+		return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
+	}
+
 	isArray := dataLine[0] == '-'
 	lastIndex = len(parser.fParsingValues) - 1
 	lastSpaceCount := parser.lastSpaceCount
-- 
2.43.0


From f0cb0885d0aafecee9f40b05679c3ec8fd0acc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 46/50] fix: a YAML comment after a bare dash was read as the
 value

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 46a01b4..76d79a9 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -186,7 +186,7 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 
 	//在中间出现了#注释，需要前面有一个空格，有空格的就认为后面是注释
 	lastIndex := bytes.Index(dataLine,commetTag)
-	if lastIndex > 1{
+	if lastIndex > 0{
 		dataLine = dataLine[:lastIndex]
 		if len(dataLine) == 0{
 			//注释不处理
-- 
2.43.0


From e689d1940c9e2da4886b8b117a69a1fd7307f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:38 +0000
Subject: [PATCH 47/50] fix: lookups under IgnoreCase decode escaped member
 names before comparing, as the first match counts

---
 dxvalue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 554610d..0d7b39a 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -58,7 +58,7 @@ func (obj *VObject)getKv()*strkv  {
 }
 
 func (obj *VObject)Remove(Name string)  {
-	if !obj.keysUnescaped && strings.IndexByte(Name, '\\') < 0 {
+	if !obj.keysUnescaped && !IgnoreCase && strings.IndexByte(Name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
 			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,Name) || obj.strkvs[i].K == Name {
 				obj.strkvs = append(obj.strkvs[:i],obj.strkvs[i+1:]...)
@@ -77,7 +77,7 @@ func (obj *VObject)Remove(Name string)  {
 }
 
 func (obj *VObject)ExtractValue(Name string)*DxValue  {
-	if !obj.keysUnescaped && strings.IndexByte(Name, '\\') < 0 {
+	if !obj.keysUnescaped && !IgnoreCase && strings.IndexByte(Name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
 			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,Name) || obj.strkvs[i].K == Name{
 				result := obj.strkvs[i].V
@@ -99,7 +99,7 @@ func (obj *VObject)ExtractValue(Name string)*DxValue  {
 }
 
 func (obj *VObject)indexByName(name string)int  {
-	if !obj.keysUnescaped && strings.IndexByte(name, '\\') < 0 {
+	if !obj.keysUnescaped && !IgnoreCase && strings.IndexByte(name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
 			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,name) ||  obj.strkvs[i].K == name{
 				return i
@@ -117,7 +117,7 @@ func (obj *VObject)indexByName(name string)int  {
 }
 
 func (obj *VObject) ValueByName(name string) *DxValue {
-	if !obj.keysUnescaped && strings.IndexByte(name, '\\') < 0 {
+	if !obj.keysUnescaped && !IgnoreCase && strings.IndexByte(name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
 			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,name) || obj.strkvs[i].K == name{
 				return obj.strkvs[i].V
-- 
2.43.0


From 507301c6629bed2fc37979b18a3bba3cdc0e3f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 48/50] fix: SetValue, SetKeyvalue and SetIndexvalue store null
 for nil pointers instead of panicking

---
 reflect_parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index f2249cd..f9b3da7 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -199,10 +199,23 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	return true
 }
 
+//nil或者空指针
+func isNilValue(value interface{})bool  {
+	if value == nil{
+		return true
+	}
+	reflectv := reflect.ValueOf(value)
+	return reflectv.Kind() == reflect.Ptr && reflectv.IsNil()
+}
+
 func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
 	}
+	if isNilValue(value){
+		v.Reset(VT_NULL)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetInt(int64(realv))
@@ -481,6 +494,10 @@ func (v *DxValue)SetValue(value interface{})  {
 }
 
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetKeyValue(Name,valueNull)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(realv))
@@ -735,6 +752,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 }
 
 func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetIndexValue(idx,valueNull)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(realv))
-- 
2.43.0


From 9d71ae1c670537be323108215a1113837f676026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 49/50] fix: store named scalar types, pointers to pointers and
 fixed-size arrays instead of dropping them

---
 reflect_parse.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index f9b3da7..f431d90 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -208,6 +208,31 @@ func isNilValue(value interface{})bool  {
 	return reflectv.Kind() == reflect.Ptr && reflectv.IsNil()
 }
 
+//自定义的基础类型，多级指针，以及固定长度的数组，转换到可以直接处理的类型
+func baseValue(reflectv reflect.Value)(interface{},bool)  {
+	switch reflectv.Kind() {
+	case reflect.Ptr,reflect.Interface:
+		return reflectv.Interface(),true
+	case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
+		return reflectv.Int(),true
+	case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+		return reflectv.Uint(),true
+	case reflect.Float32:
+		return float32(reflectv.Float()),true
+	case reflect.Float64:
+		return reflectv.Float(),true
+	case reflect.Bool:
+		return reflectv.Bool(),true
+	case reflect.String:
+		return reflectv.String(),true
+	case reflect.Array:
+		slice := reflect.MakeSlice(reflect.SliceOf(reflectv.Type().Elem()),reflectv.Len(),reflectv.Len())
+		reflect.Copy(slice,reflectv)
+		return slice.Interface(),true
+	}
+	return nil,false
+}
+
 func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
@@ -488,6 +513,10 @@ func (v *DxValue)SetValue(value interface{})  {
 					v.SetIndexvalue(i,realvalue.Interface(),cache)
 				}
 			}
+		default:
+			if basev,ok := baseValue(reflectv);ok{
+				v.SetValue(basev)
+			}
 		}
 
 	}
@@ -746,6 +775,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					newv.SetIndexvalue(i,realvalue.Interface(),cache)
 				}
 			}
+		default:
+			if basev,ok := baseValue(reflectv);ok{
+				v.SetKeyvalue(Name,basev,cache)
+			}
 		}
 
 	}
@@ -999,6 +1032,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					newarr.SetIndexvalue(i,realvalue.Interface(),cache)
 				}
 			}
+		default:
+			if basev,ok := baseValue(reflectv);ok{
+				v.SetIndexvalue(idx,basev,cache)
+			}
 		}
 
 	}
-- 
2.43.0


From 1c26f3ee17b0933c0a4f53f8e40833bc929b7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 50/50] fix: MergeWith of a document with itself clones the new
 value before clearing the old one

---
 dxvalue.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 0d7b39a..e58d9ce 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -475,18 +475,20 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 				}else{
 					//合并成数组
 					oldobj := v.fobject.strkvs[idx].V.clone(nil)
+					newobj := value.fobject.strkvs[i].V.clone(nil) //value有可能就是v，要在Reset之前复制
 					if v.fobject.strkvs[idx].V.ReadOnly(){
 						v.fobject.strkvs[idx].V = NewArray(false)
 					}else{
 						v.fobject.strkvs[idx].V.Reset(VT_Array)
 					}
 					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
-					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
+					v.fobject.strkvs[idx].V.SetIndexValue(1,newobj)
 				}
 			}else if mergeOp == MO_Replace{
 				//直接替换
+				newobj := value.fobject.strkvs[i].V.clone(nil)
 				v.fobject.strkvs[idx].V.Reset(VT_NULL)
-				v.fobject.strkvs[idx].V = value.fobject.strkvs[i].V.clone(nil)
+				v.fobject.strkvs[idx].V = newobj
 			}
 		}else{
 			//没有，直接增加
-- 
2.43.0

