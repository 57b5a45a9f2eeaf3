From 9a2530943569b7582c952de6b272de5033065fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 01/97] fix: keep fixed attributes of interleaved particle sets
 in their own block

---
 src/lib/core/ParticleSimpleInterleave.cpp | 24 ++++++++---------------
 src/lib/core/ParticleSimpleInterleave.h   |  3 ++-
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 573998a..2f7913a 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -50,7 +50,7 @@ using namespace Partio;
 
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
-    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
+    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
 {
 }
 
@@ -246,27 +246,19 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     FixedAttribute attr;
     attr.name=attribute;
     attr.type=type;
-    attr.attributeIndex=attributes.size(); //  all arrays separate so we don't use this here!
+    attr.attributeIndex=fixedAttributes.size();
     attr.count=count;
     fixedAttributes.push_back(attr);
     nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
-    // repackage data for new attribute
-    int oldStride=stride;
-    int newStride=stride+TypeSize(type)*count;
+    // grow the single block that holds all fixed attributes
+    int oldStride=fixedStride;
+    int newStride=fixedStride+TypeSize(type)*count;
     char* newData=(char*)malloc((size_t)newStride);
-    if(fixedData){
-        char* ptrNew=newData;
-        char* ptrOld=fixedData;
-        for(int i=0;i<particleCount;i++){
-            memcpy(ptrNew,ptrOld,oldStride);
-            ptrNew+=newStride;
-            ptrOld+=oldStride;
-        }
-    }
+    if(fixedData) memcpy(newData,fixedData,oldStride);
     free(fixedData);
     fixedData=newData;
-    stride=newStride;
+    fixedStride=newStride;
     fixedAttributeOffsets.push_back(oldStride);
     fixedAttributeIndexedStrs.push_back(IndexedStrTable());
 
@@ -346,7 +338,7 @@ dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleInde
 void* ParticlesSimpleInterleave::
 fixedDataInternal(const FixedAttribute& attribute) const
 {
-    return data+allocatedCount*stride+fixedAttributeOffsets[attribute.attributeIndex];
+    return fixedData+fixedAttributeOffsets[attribute.attributeIndex];
 }
 
 void ParticlesSimpleInterleave::
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index bd40e01..6e2e422 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -109,7 +109,8 @@ private:
     int allocatedCount;
     char* data;
     char* fixedData;
-    int stride;
+    int stride; // bytes per particle
+    int fixedStride; // bytes of all fixed attributes
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
-- 
2.43.0


From a512af1a8b183deeef9b34a901b512544f1642dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:03 +0000
Subject: [PATCH 02/97] fix: read GEO files whose only attribute is position

---
 src/lib/io/GEO.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index f08a8b6..6c19a5b 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -119,8 +119,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         if(word=="NPoints") *input>>NPoints;
         else if(word=="NPointAttrib"){*input>>NPointAttrib;break;}
     }
-    // skip until PointAttrib
-    while(input->good()){
+    // skip until PointAttrib (absent when there are no attributes besides position)
+    if(NPointAttrib==0) getline(*input,word); // only the rest of the counts
+    while(NPointAttrib>0 && input->good()){
         *input>>word;
         if(word=="PointAttrib") break;
     }
@@ -193,6 +194,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         *input>>fval;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
+        // without attributes there are no parentheses either
+        if (attrs.empty()) continue;
+
         // skip open paren
         char paren = 0;
         *input>> paren;
-- 
2.43.0


From 80513cd6389c13d10b2f5ce2359dfd9f0a8c7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:03 +0000
Subject: [PATCH 03/97] fix: keep the number of components of GEO string
 attributes

---
 src/lib/io/GEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 6c19a5b..0878865 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -141,7 +141,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
-            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
             attrs.push_back(attribute);
             for(int j=0;j<nIndices;j++){
                 string indexName;
-- 
2.43.0


From 4b9a3c8b35febb072263a9fb1d5dfe7801f44ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:03 +0000
Subject: [PATCH 04/97] fix: do not overrun a fixed buffer on long strings in
 GEO files

---
 src/lib/io/GEO.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 0878865..75aa727 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -65,11 +65,9 @@ void writeString(std::ostream& output,const char* s){
 
 string scanString(istream& input)
 {
-    // TODO: this code does not check for buf overrun
     // TODO: this code doesn't properly check for FEOF condition
-    char buf[4096];
-    char *ptr=buf;
-    char c;
+    string buf;
+    char c=0;
     while(input.good()){
         input.get(c);
         if(!isspace(c)) break;
@@ -78,7 +76,7 @@ string scanString(istream& input)
 
     if(c!='"'){
         while(input.good()){
-            *ptr++=c;
+            buf+=c;
             input.get(c);
             if(isspace(c)) break;
         }
@@ -87,16 +85,15 @@ string scanString(istream& input)
             input.get(c);
             if(c=='\\'){
                 input.get(c);
-                *ptr++=c;
+                buf+=c;
             }else if(c=='"'){
                 break;
             }else{
-                *ptr++=c;
+                buf+=c;
             }
         }
     }
-    *ptr++=0;
-    return string(buf);
+    return buf;
 }
 
 ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::ostream* errorStream)
-- 
2.43.0


From 63205b70ea6c215c07d10a60465e735f51356f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 05/97] fix: tell 32 bit PDB files with null pointers from 64
 bit ones

---
 src/lib/io/PDB.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index a296535..ffef187 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -267,9 +267,16 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
     // Now read a channel io ... and see if the the swap is zero or one and encoding is zero. If so then we probably god a good thing
     // if not, then we assume 64 bit.
     PDB_POLICY<64>::CHANNEL_IO channelIOHeader;
+    memset(&channelIOHeader,0,sizeof(channelIOHeader));
     input->read((char*)&channelIOHeader,sizeof(channelIOHeader));
+    // The channel header that follows must have a valid type as well: a 32 bit file whose
+    // pointers are written as zero passes the test of the channel io header alone.
+    PDB_POLICY<64>::CHANNEL channelHeader;
+    memset(&channelHeader,0,sizeof(channelHeader));
+    input->read((char*)&channelHeader,sizeof(channelHeader));
     //cout<<"we got channel io as "<<int(channelIOHeader.type)<<" swap is "<<channelIOHeader.swap<<endl;
-    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)){
+    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)
+        || channelHeader.type < PDB_VECTOR || channelHeader.type > PDB_POINTERT){
         return readPDBHelper<32>(filename,headersOnly,errorStream);
     }else{
         return readPDBHelper<64>(filename,headersOnly,errorStream);
-- 
2.43.0


From 3fccc172d6515b7c3cae8e3881b10b034e0bbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 06/97] fix: write as many values to PDA as the declared type
 holds

---
 src/lib/io/PDA.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 33edab8..459fe2d 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -165,13 +165,15 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
 
     for(int particleIndex=0;particleIndex<p.numParticles();particleIndex++){
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
+            // the declared type fixes the number of values: three for V, one for R and I
+            const int numValues=attrs[attrIndex].type==Partio::VECTOR ? 3 : 1;
             if(attrs[attrIndex].type==Partio::INT || attrs[attrIndex].type==Partio::INDEXEDSTR){
                 const int* data=p.data<int>(attrs[attrIndex],particleIndex);
-                for(int count=0;count<attrs[attrIndex].count;count++)
+                for(int count=0;count<numValues;count++)
                     *output<<data[count]<<" ";
             }else if(attrs[attrIndex].type==Partio::FLOAT || attrs[attrIndex].type==Partio::VECTOR){
                 const float* data=p.data<float>(attrs[attrIndex],particleIndex);
-                for(int count=0;count<attrs[attrIndex].count;count++)
+                for(int count=0;count<numValues;count++)
                     *output<<data[count]<<" ";
             }
         }
-- 
2.43.0


From abf3defd957ec01790fc51def62e50cee31c1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 07/97] fix: write integer attributes to PDC as numbers, not as
 reinterpreted bits

---
 src/lib/io/PDC.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index baf466c..d478bff 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -154,6 +154,10 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
 
         // write data
         for(int partIndex = 0; partIndex < p.numParticles(); partIndex++){
+            if(attr.type == INT || attr.type == INDEXEDSTR){
+                write<BIGEND>(*output, (double)*p.data<int>(attr, partIndex));
+                continue;
+            }
             const float* data = p.data<float>(attr, partIndex);
             for(int dim = 0; dim < count; dim++){
                 write<BIGEND>(*output, (double)data[dim]);
-- 
2.43.0


From 7b4ae3c1369135733e77350da650c43eb7f376e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 08/97] fix: do not write string indices to PTC as
 reinterpreted floats

---
 src/lib/io/PTC.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3448d6f..933be58 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -291,17 +291,17 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name!="position" && attr.name!="radius" && attr.name!="normal"){
-            if(attr.count==3 && attr.type!=INT){
+            if(attr.count==3 && attr.type!=INT && attr.type!=INDEXEDSTR){
                 attrs.push_back(attr);
                 specs.push_back("color "+attr.name+"\n");
                 dataSize+=attr.count;
                 nVars++;
-            }else if(attr.count==1 && attr.type!=INT){
+            }else if(attr.count==1 && attr.type!=INT && attr.type!=INDEXEDSTR){
                 attrs.push_back(attr);
                 dataSize+=attr.count;
                 nVars++;
                 specs.push_back("float "+attr.name+"\n");
-            }else if(attr.count==16 && attr.type!=INT){
+            }else if(attr.count==16 && attr.type!=INT && attr.type!=INDEXEDSTR){
                 nVars++;
                 attrs.push_back(attr);
                 dataSize+=attr.count;
-- 
2.43.0


From a6783507edf367f9ce6d05650cac2cfc5edf1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 09/97] fix: count every component when sizing the particles of
 a PRT file

---
 src/lib/io/PRT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index cde7e1f..1396c2b 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -222,7 +222,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
         }
         
         // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type] );
+        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type]*ch.arity );
         
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
-- 
2.43.0


From c8b53ad14cc643be52741461a17d843fdd100bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 10/97] fix: do not count string attributes as channels of a
 PRT file

---
 src/lib/io/PRT.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 1396c2b..8a3f356 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -363,7 +363,13 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         int reserve = 4;
         output->write((char*)&header,sizeof(FileHeadder));
         write<LITEND>(*output, reserve);
-        write<LITEND>(*output, (int)p.numAttributes());
+        int numChannels = 0; // attributes of other types are not written
+        for (int i=0;i<p.numAttributes();i++) {
+            ParticleAttribute attr;
+            p.attributeInfo(i,attr);
+            if ((attr.type==FLOAT || attr.type==INT || attr.type==VECTOR) && attr.count) numChannels++;
+        }
+        write<LITEND>(*output, numChannels);
             reserve = 0x2c;
         write<LITEND>(*output, reserve);
 
-- 
2.43.0


From 93bf515baad574a5af5dc5b26dd468fc2ea26053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 11/97] fix: do not overrun the channel name when writing long
 attribute names to PRT

---
 src/lib/io/PRT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 8a3f356..57d8d6a 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -380,7 +380,7 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(i,attr);
             Channel ch;
             memset(&ch, 0, sizeof(Channel));
-                    memcpy((char*)ch.name, attr.name.c_str(), attr.name.size());
+                    memcpy((char*)ch.name, attr.name.c_str(), (std::min)(attr.name.size(), sizeof(ch.name)-1));
             ch.offset = offset;
             switch (attr.type) {
             case FLOAT: ch.type=4; ch.arity=attr.count; offset += sizeof(float)*attr.count; break;
-- 
2.43.0


From 1f282d2b94a18c8711c0bbde52f088fcea22695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 12/97] fix: keep strings findable after renaming a token to a
 string in use

---
 src/lib/core/ParticleSimple.cpp           | 21 +++++++++++++++------
 src/lib/core/ParticleSimple.h             |  1 +
 src/lib/core/ParticleSimpleInterleave.cpp | 21 +++++++++++++++------
 src/lib/core/ParticleSimpleInterleave.h   |  1 +
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4fa23e6..7308e3d 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -434,18 +434,27 @@ fixedIndexedStrs(const FixedAttribute& attr) const
     return table.strings;
 }
 
+void ParticlesSimple::IndexedStrTable::rename(int token,const char* str){
+    const std::string newStr(str);
+    std::map<std::string,int>::iterator it=stringToIndex.find(strings[token]);
+    if(it!=stringToIndex.end() && it->second==token){
+        // renaming can leave several tokens with the same string, which the others keep
+        for(it->second=0;it->second<(int)strings.size();it->second++)
+            if(it->second!=token && strings[it->second]==it->first) break;
+        if(it->second==(int)strings.size()) stringToIndex.erase(it);
+    }
+    strings[token]=newStr;
+    stringToIndex[newStr]=token;
+}
+
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimple.h b/src/lib/core/ParticleSimple.h
index 86247e8..e038878 100644
--- a/src/lib/core/ParticleSimple.h
+++ b/src/lib/core/ParticleSimple.h
@@ -107,6 +107,7 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+        void rename(int token,const char* str);
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<ParticleAttribute> attributes;
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 2f7913a..a7266fc 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -429,18 +429,27 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 }
 
 
+void ParticlesSimpleInterleave::IndexedStrTable::rename(int token,const char* str){
+    const std::string newStr(str);
+    std::map<std::string,int>::iterator it=stringToIndex.find(strings[token]);
+    if(it!=stringToIndex.end() && it->second==token){
+        // renaming can leave several tokens with the same string, which the others keep
+        for(it->second=0;it->second<(int)strings.size();it->second++)
+            if(it->second!=token && strings[it->second]==it->first) break;
+        if(it->second==(int)strings.size()) stringToIndex.erase(it);
+    }
+    strings[token]=newStr;
+    stringToIndex[newStr]=token;
+}
+
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index 6e2e422..922530c 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -114,6 +114,7 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+        void rename(int token,const char* str);
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<size_t> attributeOffsets; // Inside is data of appropriate type
-- 
2.43.0


From 549730116b73526bc0d2835ae8cd50bb52e4246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 13/97] fix: let postfix increment reach the end iterator

---
 src/lib/PartioIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PartioIterator.h b/src/lib/PartioIterator.h
index e0ce86c..1d73735 100644
--- a/src/lib/PartioIterator.h
+++ b/src/lib/PartioIterator.h
@@ -179,7 +179,7 @@ public:
     ParticleIterator operator++(int)
     {
         ParticleIterator newIt(*this);
-        index++;
+        ++*this;
         return newIt;
     }
 
-- 
2.43.0


From 14ca5cd8de6460d7c7cb680b569387df4190d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 14/97] fix: return the end iterator when no particles are
 added

---
 src/lib/core/ParticleSimple.cpp           | 4 ++--
 src/lib/core/ParticleSimpleInterleave.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 7308e3d..d968a10 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -293,14 +293,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimple::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimple::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index a7266fc..c9b9a50 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -291,14 +291,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimpleInterleave::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
-- 
2.43.0


From 9f9b5962952d6bd7ecb29ebdaf125f84a4de7e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 15/97] fix: gather the values of several particles of an
 interleaved set

---
 src/lib/core/ParticleSimpleInterleave.cpp | 25 ++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index c9b9a50..2421ab5 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -342,33 +342,30 @@ fixedDataInternal(const FixedAttribute& attribute) const
 }
 
 void ParticlesSimpleInterleave::
-dataInternalMultiple(const ParticleAttribute&,const int,const ParticleIndex*,const bool,char*) const
+dataInternalMultiple(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool,char* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
-    char* base=attributeData[attribute.attributeIndex];
-    int bytes=attributeStrides[attribute.attributeIndex];
+    int bytes=TypeSize(attribute.type)*attribute.count;
     for(int i=0;i<indexCount;i++)
-        memcpy(values+bytes*i,base+particleIndices[i]*bytes,bytes);
-#endif
+        memcpy(values+bytes*i,dataInternal(attribute,particleIndices[i]),bytes);
 }
 
 void ParticlesSimpleInterleave::
-dataAsFloat(const ParticleAttribute&,const int,
-    const ParticleIndex*,const bool,float*) const
+dataAsFloat(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool sorted,float* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
     if(attribute.type==FLOAT || attribute.type==VECTOR) dataInternalMultiple(attribute,indexCount,particleIndices,sorted,(char*)values);
-    else if(attribute.type==INT){
-        char* attrrawbase=attributeData[attribute.attributeIndex];
-        int* attrbase=(int*)attrrawbase;
+    else if(attribute.type==INT || attribute.type==INDEXEDSTR){
         int count=attribute.count;
-        for(int i=0;i<indexCount;i++) for(int k=0;k<count;k++) values[i*count+k]=(int)attrbase[particleIndices[i]*count+k];
+        for(int i=0;i<indexCount;i++){
+            const int* source=(const int*)dataInternal(attribute,particleIndices[i]);
+            for(int k=0;k<count;k++) values[i*count+k]=static_cast<float>(source[k]);
+        }
     }
-#endif
 }
 
 
-- 
2.43.0


From 17fe7351b4c3497e4af64495634236d1a11990f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 16/97] fix: refuse access past the last particle of an
 interleaved set

---
 src/lib/core/ParticleSimpleInterleave.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 2421ab5..d324d7a 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -332,6 +332,13 @@ setupAccessor(Partio::ParticleIterator<true>&,ParticleAccessor& accessor) const
 void* ParticlesSimpleInterleave::
 dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleIndex) const
 {
+    assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
+    if (particleIndex >= (ParticleIndex)numParticles()) {
+        std::cerr << "Invalid attempt to set particle value on index "
+                  << particleIndex << " in data with " << numParticles()
+                  << " particles." << std::endl;
+        return nullptr;
+    }
     return data+particleIndex*stride+attributeOffsets[attribute.attributeIndex];
 }
 
-- 
2.43.0


From 52cd7e28579d1c00922c45c13e7d0a3a146158d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 17/97] fix: report the search radius also when there is
 nothing to search

---
 src/lib/core/KdTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/core/KdTree.h b/src/lib/core/KdTree.h
index 7b73b86..1fa94f3 100644
--- a/src/lib/core/KdTree.h
+++ b/src/lib/core/KdTree.h
@@ -365,6 +365,7 @@ int KdTree<k>::findNPoints(uint64_t *result, float *distanceSquared, float *fina
                            const float p[k],int nPoints,float maxRadius) const
 {
     float radius_squared=maxRadius*maxRadius;
+    *finalSearchRadius2=radius_squared;
 
     if (!size() || !_sorted || nPoints<1) return 0;
 
-- 
2.43.0


From 0ea756a97acad54697d03ffcc830cfcce6ef11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 18/97] fix: do not read past the default value when merging
 adds a wide attribute

---
 src/lib/core/Particle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b3c81ff..1020b7d 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -505,18 +505,18 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     }
 
     // Identify the attributes to be added (in delta, not present in base)
-    double empty[16]{0};
     for (int i=0; i<delta.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
 
             // Set the attribute to a default value in the base particle set
+            std::vector<char> empty(TypeSize(baseAttr.type) * baseAttr.count, 0);
             for (int p=0; p<base.numParticles(); ++p) {
-                base.set(baseAttr, p, empty);
+                base.set(baseAttr, p, empty.data());
             }
+            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
         }
     }
 
-- 
2.43.0


From 0e1aad872ae28ed9e6a7e6c5ce3fc63f9b8ee72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 19/97] fix: merge the strings of attributes that only the
 delta has

---
 src/lib/core/Particle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 1020b7d..226f31b 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -516,6 +516,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
             for (int p=0; p<base.numParticles(); ++p) {
                 base.set(baseAttr, p, empty.data());
             }
+            if (baseAttr.type == INDEXEDSTR) {
+                indexStrAttrs.push_back(attrs.size());
+            }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
         }
     }
-- 
2.43.0


From 454c7f5159eb1ca83347a51aabb4d943b6838e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 20/97] fix: merge the strings of fixed attributes

---
 src/lib/core/Particle.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 226f31b..efc20c4 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -523,13 +523,31 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         }
     }
 
+    // Copy a fixed attribute, giving strings the indices they have in the base
+    auto copyFixed = [&](const FixedAttribute& baseAttr, const FixedAttribute& deltaAttr) {
+        const void *src = delta.fixedData<void>(deltaAttr);
+        if (baseAttr.type != INDEXEDSTR) {
+            base.setFixed(baseAttr, src);
+            return;
+        }
+        const std::vector<std::string>& deltaStrs = delta.fixedIndexedStrs(deltaAttr);
+        std::vector<int> indices, newIndices(baseAttr.count, 0);
+        for (const std::string& str : deltaStrs) {
+            indices.push_back(base.registerFixedIndexedStr(baseAttr, str.c_str()));
+        }
+        for (int j=0; j<baseAttr.count; ++j) {
+            int index = static_cast<const int*>(src)[j];
+            if (index >= 0 && index < (int)indices.size()) newIndices[j] = indices[index];
+        }
+        base.setFixed(baseAttr, newIndices.data());
+    };
+
     // Identify fixed attributes to override
     for (int i=0; i<base.numFixedAttributes(); ++i) {
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
         if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            copyFixed(baseAttr, deltaAttr);
         }
     }
 
@@ -539,8 +557,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.fixedAttributeInfo(i, deltaAttr);
         if (!base.fixedAttributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addFixedAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            copyFixed(baseAttr, deltaAttr);
         }
     }
 
-- 
2.43.0


From 47325bc00f6bd793cc41a6a06d070757f4e0c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 21/97] fix: do not merge attributes whose type or size differs

---
 src/lib/core/Particle.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index efc20c4..9a80b1c 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -460,6 +460,14 @@ struct IntPairHash {
     }
 };
 
+// Whether the values of one attribute can be copied to another
+template<typename T>
+bool aligned(const T& a, const T& b)
+{
+    auto isFloat = [](const T& attr) { return attr.type == FLOAT || attr.type == VECTOR; };
+    return a.count == b.count && (a.type == b.type || (isFloat(a) && isFloat(b)));
+}
+
 // merge two particle sets.  if no identifiers are specified, the particle sets will be aggregated together.
 // if one or more identifiers are specified, the particle will be overwritten if the identifier(s) match.
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
@@ -496,7 +504,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
-        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr) && aligned(baseAttr, deltaAttr)) {
             if (baseAttr.type == INDEXEDSTR) {
                 indexStrAttrs.push_back(attrs.size());
             }
@@ -546,7 +554,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numFixedAttributes(); ++i) {
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
-        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr) && aligned(baseAttr, deltaAttr)) {
             copyFixed(baseAttr, deltaAttr);
         }
     }
-- 
2.43.0


From 880bb7c3a47b5c915dac2da6d4c7ee5eb96b9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 22/97] fix: give particles added by a merge defined values in
 every attribute

---
 src/lib/core/Particle.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 9a80b1c..c501c71 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -501,6 +501,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     // Identify the attributes to be copied (base present in delta)
     std::vector<AttributePair<ParticleAttribute>> attrs;
     std::vector<size_t> indexStrAttrs; /* indexes into attrs */
+    std::vector<ParticleAttribute> baseOnlyAttrs; /* left at zero in new particles */
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
@@ -509,6 +510,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
                 indexStrAttrs.push_back(attrs.size());
             }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
+        } else {
+            baseOnlyAttrs.push_back(std::move(baseAttr));
         }
     }
 
@@ -620,6 +623,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         }
         if (index == -1) {
             index = base.addParticle();
+            for (const ParticleAttribute& attr : baseOnlyAttrs) {
+                std::memset(base.dataWrite<void>(attr, index), 0, Partio::TypeSize(attr.type) * attr.count);
+            }
         }
 
         // Copy the attributes to the new/overridden particle
-- 
2.43.0


From 978f940d849ec8eb3cafc1c8a2b34cdd20509f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 23/97] fix: clamp the inner radius of clusters at zero

---
 src/lib/core/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index c501c71..b5e3712 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -381,7 +381,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         Vec3 position(center[0], center[1], center[2]);
         int id = particles->data<int>(idAttr,index)[0];
         double radius = std::max(0., radiusInside);
-        radius = std::min(100., radiusInside);
+        radius = std::min(100., radius);
         double innerRadius = .01 * radius * radiusSearch;
         double invRadius = 1 / (radiusSearch - innerRadius);
 
-- 
2.43.0


From cdef13b3b8e6726dfa3cccdf6215ac128666ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 24/97] fix: report errors of cached reads to the stream that
 was given

---
 src/lib/core/ParticleCaching.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 0d3e69e..25a5a6c 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -59,7 +59,7 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
         p=i->second;
         cachedParticlesCount[p]++;
     }else{
-        ParticlesDataMutable* p_rw=read(filename,verbose);
+        ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
             if(sort) p_rw->sort();
             p=p_rw;
-- 
2.43.0


From 03dc094113527a7ffec5983932f89dd6e783d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 25/97] fix: sort a cached set when a later caller asks for it

---
 src/lib/core/ParticleCaching.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 25a5a6c..9c56909 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -34,6 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 #include <iostream>
 #include <cassert>
+#include <set>
 #include "Mutex.h"
 #include "../Partio.h"
 
@@ -48,6 +49,7 @@ namespace
 // cached read write
 std::map<ParticlesData*,int> cachedParticlesCount;
 std::map<std::string,ParticlesData*> cachedParticles;
+std::set<ParticlesData*> cachedParticlesSorted;
 
 ParticlesData* readCached(const char* filename,const bool sort,const bool verbose,std::ostream& error)
 {
@@ -58,6 +60,8 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
     if(i!=cachedParticles.end()){
         p=i->second;
         cachedParticlesCount[p]++;
+        // somebody may have loaded it without asking for it to be sorted
+        if(sort && cachedParticlesSorted.insert(p).second) static_cast<ParticlesDataMutable*>(p)->sort();
     }else{
         ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
@@ -65,6 +69,7 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
             p=p_rw;
             cachedParticles[filename]=p;
             cachedParticlesCount[p]=1;
+            if(sort) cachedParticlesSorted.insert(p);
         }
     }
     mutex.unlock();
@@ -85,6 +90,7 @@ void freeCached(ParticlesData* particles)
         if(i->second==0){ // ref count is now zero, remove from structure
             delete particles;
             cachedParticlesCount.erase(i);
+            cachedParticlesSorted.erase(particles);
             for(std::map<std::string,ParticlesData*>::iterator i2=cachedParticles.begin();
                 i2!=cachedParticles.end();++i2){
                 if(i2->second==particles){
-- 
2.43.0


From e23a8f44522cef59d072f272962cfbcd9ffa0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 26/97] fix: check under the lock whether the format tables are
 initialized

---
 src/lib/io/ParticleIO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index ba4698f..de4bc42 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -52,8 +52,8 @@ readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
         data["geo"]=readGEO;
@@ -72,8 +72,8 @@ readers()
         data["itbl"]=readBGEO;
         data["atbl"]=readBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
@@ -82,8 +82,8 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
         data["geo"]=writeGEO;
@@ -101,8 +101,8 @@ writers()
         data["itbl"]=writeBGEO;
         data["atbl"]=writeBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
-- 
2.43.0


From a44a88f2e37de4fe41a1bdd1887225ec19833516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 27/97] fix: decode the flags of gzip headers as RFC 1952
 defines them

---
 src/lib/io/ZIP.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 5792b23..7d3f4eb 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -112,15 +112,15 @@ struct GZipFileHeader
     Read_Primitive(istream,os);
     unsigned char dummyByte;
     // read flags if necessary
-    if(flags&2){
+    if(flags&4){
         unsigned short flgExtraLen;
         Read_Primitive(istream,flgExtraLen);
         for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}
     // read filename/comment if present
-    int stringsToRead=((flags&8)?1:0) + ((flags&4)?1:0);
+    int stringsToRead=((flags&8)?1:0) + ((flags&16)?1:0);
     for(int i=0;i<stringsToRead;i++) 
         do{Read_Primitive(istream,dummyByte);}while(dummyByte!=0 && istream);
-    if(flags&1) Read_Primitive(istream,crc16);
+    if(flags&2) Read_Primitive(istream,crc16);
     if(!istream) {std::cerr<<"gzip: got to end of file after only reading gzip header"<<std::endl;return false;}
     return true;}
 
-- 
2.43.0


From d97f19339e96f92682d8d6dd7e6c35cadd0afadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 28/97] fix: do not loop forever on truncated gzip files

---
 src/lib/io/ZIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 7d3f4eb..8151416 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -294,7 +294,7 @@ public:
                 case Z_MEM_ERROR: 
                     std::cerr<<"gzip error "<<strm.msg<<std::endl;
                     valid=false;return -1;}
-            if(ret==Z_STREAM_END) break;}
+            if(ret==Z_STREAM_END || ret==Z_BUF_ERROR) break;} // Z_BUF_ERROR: the file ended too early
         int unzip_count=buffer_size-strm.avail_out-4;
         total_uncompressed+=unzip_count;
         return unzip_count;}
-- 
2.43.0


From adad4d6785943a0f776325593da6df5c940a51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 29/97] fix: let writers see that a compressed file cannot be
 opened

---
 src/lib/io/ZIP.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 8151416..6198b04 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -595,7 +595,10 @@ std::ostream*
 Gzip_Out(const std::string& filename,std::ios::openmode mode)
 {
     std::ofstream* outfile=new std::ofstream(filename.c_str(),mode);
-    return new ZIP_FILE_OSTREAM(0,*outfile);
+    bool opened=outfile->is_open();
+    std::ostream* output=new ZIP_FILE_OSTREAM(0,*outfile);
+    if(!opened) output->setstate(std::ios::failbit);
+    return output;
 }
 //#####################################################################
 
-- 
2.43.0


From b38a8cc423736d4d29bfabeeae4fe1d18d486a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 30/97] fix: do not share the skip buffer of BGEO between
 threads

---
 src/lib/io/BGEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index e3406d3..7421c7b 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -148,7 +148,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
-    static char buffer[bufferSize];
+    char buffer[bufferSize];
     while (numChars>0) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
-- 
2.43.0


From 394c40079f2cb313047821e22113d9e206997e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 31/97] fix: release the zlib state also after damaged gzip
 data

---
 src/lib/io/ZIP.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 6198b04..da60843 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -244,12 +244,13 @@ class ZipStreambufDecompress:public std::streambuf
     bool own_istream;
     bool valid;
     bool compressed_data;
+    bool inflating;
 
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
     ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input)
-        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true)
+        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true),inflating(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
         setg((char*)in,(char*)in,(char*)in);
@@ -266,11 +267,12 @@ public:
         // initialize the inflate
         if(compressed_data && valid){
             int result=inflateInit2(&strm,-MAX_WBITS);
-            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}}
+            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}
+            else inflating=true;}
     }
 
     virtual ~ZipStreambufDecompress()
-    {if(compressed_data && valid) inflateEnd(&strm);
+    {if(inflating) inflateEnd(&strm);
     if(!part_of_zip_file) delete &istream;}
 
     int process()
-- 
2.43.0


From 56a948877728ae8bc518f415ad184daf5772aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 32/97] fix: report when a GEO file cannot be opened for
 writing

---
 src/lib/io/GEO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 75aa727..0d1f235 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -231,6 +231,10 @@ void writeType(ostream& output,const ParticlesData&,const ParticleAttribute& att
 bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"PGEOMETRY V5"<<endl;
     *output<<"NPoints "<<p.numParticles()<<" NPrims "<<1<<endl;
     *output<<"NPointGroups "<<0<<" NPrimGroups "<<0<<endl;
-- 
2.43.0


From 267c083a3242da97b41f4ebaf8178e7199cf49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 33/97] fix: report when a PDA file cannot be opened for
 writing

---
 src/lib/io/PDA.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 459fe2d..3e71041 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -137,6 +137,10 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"ATTRIBUTES"<<endl;
 
     vector<ParticleAttribute> attrs;
-- 
2.43.0


From ead766e79e45e6a2d6a990eea30cca32f241c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 34/97] fix: refuse truncated and damaged BGEO files

---
 src/lib/io/BGEO.cpp | 83 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 20 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 7421c7b..d02afec 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -58,12 +58,14 @@ template<>
 struct Helper<ParticleAttribute>
 {
     ParticleAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addAttribute(name,type,size);}
+    bool added(const ParticleAttribute& attribute) {return attribute.attributeIndex>=0;}
     int registerIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return simple->registerIndexedStr(attribute,str);}
 };
 template<>
 struct Helper<FixedAttribute>
 {
     FixedAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addFixedAttribute(name,type,size);}
+    bool added(const FixedAttribute& attribute) {return attribute.attributeIndex>=0;}
     int registerIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return simple->registerFixedIndexedStr(attribute,str);}
 };
 
@@ -72,6 +74,7 @@ template<>
 struct Helper<DummyAttribute>
 {
     DummyAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) { return DummyAttribute(); }
+    bool added(const DummyAttribute&) {return true;}
     int registerIndexedStr(ParticlesDataMutable* simple, const DummyAttribute& attribute,const char* str) { return 0; }
 };
 struct DummyAccessor{
@@ -84,13 +87,18 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 {
     Helper<TAttribute> helper;
     for(int i=0;i<nAttrib;i++){
-        unsigned short nameLength;
+        unsigned short nameLength=0;
         read<BIGEND>(*input,nameLength);
         char* name=new char[nameLength+1];
         input->read(name,nameLength);name[nameLength]=0;
-        unsigned short size;
-        int houdiniType;
+        unsigned short size=0;
+        int houdiniType=-1;
         read<BIGEND>(*input,size,houdiniType);
+        if(!*input){
+            if(errorStream) *errorStream <<"Partio: unexpected end of file in attribute definitions"<<endl;
+            delete [] name;
+            return false;
+        }
         if(houdiniType==0 || houdiniType==1 || houdiniType==5){
             // read default values. don't do anything with them
             for(int i=0;i<size;i++) {
@@ -102,18 +110,28 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             else if(houdiniType==1) type=INT;
             else if(houdiniType==5) type=VECTOR;
             attrHandles.push_back(helper.addAttribute(simple,name,type,size));
+            if(!helper.added(attrHandles.back())){
+                if(errorStream) *errorStream <<"Partio: attribute '"<<name<<"' cannot be added, aborting"<<endl;
+                delete [] name;
+                return false;
+            }
             accessors.push_back(TAccessor(attrHandles.back()));
             attrOffsets.push_back(particleSize);
             particleSize+=size;
         }else if(houdiniType==4){
             TAttribute attribute=helper.addAttribute(simple,name,INDEXEDSTR,size);
+            if(!helper.added(attribute)){
+                if(errorStream) *errorStream <<"Partio: attribute '"<<name<<"' cannot be added, aborting"<<endl;
+                delete [] name;
+                return false;
+            }
             attrHandles.push_back(attribute);
             accessors.push_back(TAccessor(attrHandles.back()));
             attrOffsets.push_back(particleSize);
             int numIndices=0;
             read<BIGEND>(*input,numIndices);
-            for(int ii=0;ii<numIndices;ii++){
-                unsigned short indexNameLength;
+            for(int ii=0;ii<numIndices && *input;ii++){
+                unsigned short indexNameLength=0;
                 read<BIGEND>(*input,indexNameLength);
                 char* indexName=new char[indexNameLength+1];;
                 input->read(indexName,indexNameLength);
@@ -130,17 +148,19 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
         }else if(houdiniType==2){
             if(errorStream) *errorStream <<"Partio: found attr of type 'string', aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }else{
             if(errorStream) *errorStream <<"Partio: unknown attribute "<<houdiniType<<" type... aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }
         delete[] name;
     }
 
+    if(!*input){
+        if(errorStream) *errorStream <<"Partio: unexpected end of file in attribute definitions"<<endl;
+        return false;
+    }
     return true;
 }
 
@@ -149,7 +169,7 @@ void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
     char buffer[bufferSize];
-    while (numChars>0) {
+    while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
         numChars-=toRead;
@@ -163,14 +183,15 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream);
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
-        int primType;
+        int primType=0;
         read<BIGEND>(*input,primType);
         if(primType==0x00008000) {
-            int size;
+            int size=0;
             read<BIGEND>(*input,size);
+            if(size<0) return false;
             if(nPoints>=(int)1<<16)
                 skip(input,size*sizeof(int));
             else
@@ -193,11 +214,10 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     }
 
     // header values
-    char magic[5];
-    magic[4]=0;
+    char magic[5]={0,0,0,0,0};
     char versionChar;
-    int version;
-    int nPoints;
+    int version=0;
+    int nPoints=0;
     int nPrims;
     int nPointGroups;
     int nPrimGroups;
@@ -226,6 +246,11 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         return 0;
     }
 
+    if(!*input || nPoints<0){
+        if(errorStream) *errorStream<<"Partio: Unable to read the header of "<<filename<<endl;
+        return 0;
+    }
+
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
     if(headersOnly) simple=new ParticleHeaders;
@@ -242,10 +267,13 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream)){
+        simple->release();
+        return 0;
+    }
 
     if(headersOnly) {
-        skip(input.get(),nPoints*particleSize*sizeof(int));
+        skip(input.get(),(size_t)nPoints*particleSize*sizeof(int));
     } else {
         // Read the points
         int *buffer=new int[particleSize];
@@ -256,6 +284,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
 
         for(ParticlesDataMutable::iterator end=simple->end();iterator!=end;++iterator){
             input->read((char*)buffer,particleSize*sizeof(int));
+            if(!*input) break;
             for(unsigned int attrIndex=0;attrIndex<attrHandles.size();attrIndex++){
                 ParticleAttribute& handle=attrHandles[attrIndex];
                 ParticleAccessor& accessor=accessors[attrIndex];
@@ -269,6 +298,11 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
             }
         }
         delete [] buffer;
+        if(!*input){
+            if(errorStream) *errorStream<<"Partio: unexpected end of file in the points of "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
 
     if (!skipPrimitives(nPoints, nPrims, nPrimAttrib, input.get(),errorStream)) return simple;
@@ -277,13 +311,22 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream)){
+        simple->release();
+        return 0;
+    }
 
     if (headersOnly) return simple;
 
     // Read the points
     int *fixedBuffer=new int[particleSize];
     input->read((char*)fixedBuffer,particleSize*sizeof(int));
+    if(!*input){
+        if(errorStream) *errorStream<<"Partio: unexpected end of file in the detail attributes of "<<filename<<endl;
+        delete [] fixedBuffer;
+        simple->release();
+        return 0;
+    }
     for(unsigned int attrIndex=0;attrIndex<fixedAttrHandles.size();attrIndex++){
         FixedAttribute& handle=fixedAttrHandles[attrIndex];
         // TODO: this violates strict aliasing, we could just go to char* and make
-- 
2.43.0


From a5e6eec7646988504b21314fd236c20f8003ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 35/97] fix: refuse truncated and damaged GEO files

---
 src/lib/io/GEO.cpp | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 0d1f235..105d02b 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -134,13 +134,23 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         string attrName, attrType;
         int nvals = 0;
         *input >> attrName >> nvals >> attrType;
+        if(!*input || nvals<0){
+            if(errorStream) *errorStream<<"Partio: damaged attribute description in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
         if(attrType=="index"){
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
             ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
+            if(attribute.attributeIndex<0){
+                if(errorStream) *errorStream<<"Partio: attribute '"<<attrName<<"' cannot be added, aborting"<<endl;
+                simple->release();
+                return 0;
+            }
             attrs.push_back(attribute);
-            for(int j=0;j<nIndices;j++){
+            for(int j=0;j<nIndices && input->good();j++){
                 string indexName;
                 //*input>>indexName;
                 indexName=scanString(*input);
@@ -155,7 +165,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             attrInfoRead++;
             
         }else{
-            for (int i=0;i<nvals;i++) {
+            for (int i=0;i<nvals && input->good();i++) {
                 float defval;
                 *input>>defval;
             }
@@ -166,14 +176,26 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             else if(attrType=="int") type=INT;
             else{
                 if(errorStream) *errorStream<<"Partio: unknown attribute "<<attrType<<" type... aborting"<<endl;
-                type=NONE;
+                simple->release();
+                return 0;
             }
             attrs.push_back(simple->addAttribute(attrName.c_str(),type,nvals));
+            if(attrs.back().attributeIndex<0){
+                if(errorStream) *errorStream<<"Partio: attribute '"<<attrName<<"' cannot be added, aborting"<<endl;
+                simple->release();
+                return 0;
+            }
             accessors.push_back(ParticleAccessor(attrs.back()));
             attrInfoRead++;
         }
     }
 
+    if(!*input || attrInfoRead < NPointAttrib || NPoints<0){
+        if(errorStream) *errorStream<<"Partio: unexpected end of file in the header of "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
+
     simple->addParticles(NPoints);
 
     ParticlesDataMutable::iterator iterator=simple->begin();
@@ -185,19 +207,21 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
     
     float fval;
     // TODO: fix
-    for(ParticlesDataMutable::iterator end=simple->end();iterator!=end  && input->good();++iterator){
+    bool complete=true;
+    for(ParticlesDataMutable::iterator end=simple->end();iterator!=end;++iterator){
         float* posInternal=positionAccessor.raw<float>(iterator); 
         for(int i=0;i<3;i++) *input>>posInternal[i];
         *input>>fval;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
+        if (!*input) {complete=false; break;}
         // without attributes there are no parentheses either
         if (attrs.empty()) continue;
 
         // skip open paren
         char paren = 0;
         *input>> paren;
-        if (paren != '(') break;
+        if (paren != '(') {complete=false; break;}
         
         // read additional attribute values
         for (unsigned int i=0;i<attrs.size();i++){
@@ -210,8 +234,14 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             }
         }
         // skip closing parenthes
+        paren = 0;
         *input >> paren;
-        if (paren != ')') break;
+        if (paren != ')') {complete=false; break;}
+    }
+    if(!complete){
+        if(errorStream) *errorStream<<"Partio: truncated or damaged points in "<<filename<<endl;
+        simple->release();
+        return 0;
     }
     return simple;
 }
-- 
2.43.0


From 2e9f1da9f0965e95f2882cd00b2c9f2ae73d86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 36/97] fix: refuse truncated and damaged PDA files, and say
 why

---
 src/lib/io/PDA.cpp | 47 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 3e71041..aecde0e 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -35,6 +35,8 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include "../core/ParticleHeaders.h"
 #include "io.h"
 
+#include <limits>
+
 namespace Partio
 {
 
@@ -59,7 +61,11 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     
     if(input->good()){
         *input>>word;
-        if(word!="ATTRIBUTES"){simple->release();return 0;}
+        if(word!="ATTRIBUTES"){
+            if(errorStream) *errorStream<<"Partio: missing ATTRIBUTES in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
 
     vector<string> attrNames;
@@ -86,15 +92,27 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
             attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::INT,1));
         }
 
+        if(!attrs.empty() && attrs.back().attributeIndex<0){
+            if(errorStream) *errorStream<<"Partio: attribute '"<<attrNames[index]<<"' cannot be added, aborting"<<endl;
+            simple->release();
+            return 0;
+        }
+
         index++;
     }
 
     unsigned int num=0;
     if(input->good()){
         *input>>num;
+        if(!*input || num>(unsigned int)std::numeric_limits<int>::max()){
+            if(errorStream) *errorStream<<"Partio: damaged header in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
         simple->addParticles(num);
         if(headersOnly) return simple; // escape before we try to touch data
     }else{
+        if(errorStream) *errorStream<<"Partio: missing NUMBER_OF_PARTICLES in "<<filename<<endl;
         simple->release();
         return 0;
     }
@@ -102,16 +120,28 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     // look for beginning of header
     if(input->good()){
         *input>>word;
-        if(word != "BEGIN"){simple->release();return 0;}
+        if(word != "BEGIN"){
+            if(errorStream) *errorStream<<"Partio: missing BEGIN DATA in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
     if(input->good()){
         *input>>word;
-        if(word != "DATA"){simple->release();return 0;}
+        if(word != "DATA"){
+            if(errorStream) *errorStream<<"Partio: missing BEGIN DATA in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
 
     // Read actual particle data
-    if(!input->good()){simple->release();return 0;}
-    for(unsigned int particleIndex=0;input->good() && particleIndex<num; particleIndex++) {
+    if(!input->good()){
+        if(errorStream) *errorStream<<"Partio: missing particle data in "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
+    for(unsigned int particleIndex=0;*input && particleIndex<num; particleIndex++) {
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
             if(attrs[attrIndex].type==Partio::INT){
                 int* data=simple->dataWrite<int>(attrs[attrIndex],particleIndex);
@@ -130,7 +160,12 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
             }
         }
     }
-    
+
+    if(!*input){
+        if(errorStream) *errorStream<<"Partio: truncated or damaged particle data in "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
     return simple;
 }
 
-- 
2.43.0


From 2778d1c19c700a98f4ad167fd489c1ff322993ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 37/97] fix: refuse truncated and damaged PDC files and skip
 the data of compressed ones

---
 src/lib/io/PDC.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index d478bff..9be5d6f 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -61,10 +61,9 @@ typedef struct{
 string readName(istream& input){
     int nameLen = 0;
     read<BIGEND>(input, nameLen);
-    char* name = new char[nameLen];
-    input.read(name, nameLen);
-    string result(name, name+nameLen);
-    delete [] name;
+    string result;
+    char c;
+    for(int i = 0; i < nameLen && input.get(c); i++) result += c;
     return result;
 }
 
@@ -76,7 +75,7 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
         return 0;
     }
 
-    PDC_HEADER header;
+    PDC_HEADER header = PDC_HEADER();
     input->read((char*)&header, sizeof(header));
     if(PDC_MAGIC != header.magic){
         if(errorStream) *errorStream << "Partio: Magic number '" << header.magic << "' of '" << filename << "' doesn't match pdc magic '" << PDC_MAGIC << "'" << std::endl;
@@ -85,6 +84,10 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
 
     BIGEND::swap(header.numParticles);
     BIGEND::swap(header.numAttrs);
+    if(!*input || header.numParticles < 0){
+        if(errorStream) *errorStream << "Partio: Damaged header in " << filename << std::endl;
+        return 0;
+    }
 
     ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
     simple->addParticles(header.numParticles);
@@ -93,8 +96,13 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
         // add attribute
         ParticleAttribute attr;
         string attrName = readName(*input);
-        int type;
+        int type = 0;
         read<BIGEND>(*input, type);
+        if(!*input || (type != 3 && type != 5)){
+            if(errorStream) *errorStream << "Partio: Damaged or unsupported attribute in " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
         if(type == 3){
             attr = simple->addAttribute(attrName.c_str(), FLOAT, 1);
         }
@@ -102,19 +110,30 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
             attr = simple->addAttribute(attrName.c_str(), VECTOR, 3);
         }
 
-        // if headersOnly, skip
+        if(attr.attributeIndex < 0){
+            if(errorStream) *errorStream << "Partio: Attribute '" << attrName << "' cannot be added" << std::endl;
+            simple->release();
+            return 0;
+        }
+
+        // if headersOnly, skip (seekg doesn't work with gzip)
         if(headersOnly){
-            input->seekg((int)input->tellg() + header.numParticles*sizeof(double)*attr.count);
+            input->ignore((std::streamsize)header.numParticles*sizeof(double)*attr.count);
             continue;
         }
         else{
             double tmp[3];
-            for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++){
+            for(int partIndex = 0; partIndex < simple->numParticles() && *input; partIndex++){
                 for(int dim = 0; dim < attr.count; dim++){
                     read<BIGEND>(*input, tmp[dim]);
                     simple->dataWrite<float>(attr, partIndex)[dim] = (float)tmp[dim];
                 }
             }
+            if(!*input){
+                if(errorStream) *errorStream << "Partio: Unexpected end of file in " << filename << std::endl;
+                simple->release();
+                return 0;
+            }
         }
     }
 
-- 
2.43.0


From 523c104ad39aee8749fe8e76553f66429eecbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 38/97] fix: refuse truncated and damaged PDB files

---
 src/lib/io/PDB.cpp | 52 ++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index ffef187..61807b0 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -89,13 +89,9 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
         return 0;
     }
 
-    // Use simple particle since we don't have optimized storage.
-    ParticlesDataMutable* simple=0;
-    if(headersOnly) simple=new ParticleHeaders;
-    else simple=create();
-
     // Read header and add as many particles as found
     typename PDB_POLICY<bits>::HEADER header;
+    memset(&header,0,sizeof(header));
 
     input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER));
     if(header.magic != PDB_MAGIC){
@@ -103,6 +99,16 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
         return 0;
     }
 
+    if(!*input || (int)header.data_size<0){
+        if(errorStream) *errorStream<<"Partio: damaged header in "<<filename<<endl;
+        return 0;
+    }
+
+    // Use simple particle since we don't have optimized storage.
+    ParticlesDataMutable* simple=0;
+    if(headersOnly) simple=new ParticleHeaders;
+    else simple=create();
+
     simple->addParticles(header.data_size);
     
     for(unsigned int i=0;i<header.num_data;i++){
@@ -112,15 +118,14 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
         input->read((char*)&channelHeader,sizeof(channelHeader));
         bool error;
         string name=GetString(*input,error);
-        if(error){
+        typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
+        input->read((char*)&channelData,sizeof(channelData));
+        if(error || !*input || (int)channelData.datasize<0){
+            if(errorStream) *errorStream<<"Partio: damaged channel header in "<<filename<<endl;
             simple->release();
             return 0;
         }
 
-        typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
-        input->read((char*)&channelData,sizeof(channelData));
-
-        
         ParticleAttributeType type;
         switch(channelHeader.type){
             case PDB_VECTOR: type=VECTOR;break;
@@ -128,25 +133,30 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             case PDB_LONG: type=INT;break;
             default: type=NONE;break;
         }
-        int size=header.data_size*channelData.datasize;
+        long long size=(long long)header.data_size*channelData.datasize;
 
         // Read data or skip if we haven't found appropriate type handle
         if(type==NONE){
             char buf[1024];
-            int toSkip=size;
-            while(toSkip>0){
-                input->read(buf,min(toSkip,1024));
+            long long toSkip=size;
+            while(toSkip>0 && *input){
+                input->read(buf,min(toSkip,1024LL));
                 toSkip-=1024;
             }
             if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' cannot map type"<<endl;
         }else{
             int count=channelData.datasize/TypeSize(type);
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
+            if(attrHandle.attributeIndex<0){
+                if(errorStream) *errorStream<<"Partio: attribute '"<<name<<"' cannot be added"<<endl;
+                simple->release();
+                return 0;
+            }
             if(headersOnly){
                 char buf[1024];
-                int toSkip=size;
-                while(toSkip>0){
-                    input->read(buf,min(toSkip,1024));
+                long long toSkip=size;
+                while(toSkip>0 && *input){
+                    input->read(buf,min(toSkip,1024LL));
                     toSkip-=1024;
                 }
             }else{
@@ -154,11 +164,16 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
                 Partio::ParticleAccessor accessor(attrHandle);
                 it.addAccessor(accessor);
 
-                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end;++it){
+                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end && *input;++it){
                     input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
                 }
             }
         }
+        if(!*input){
+            if(errorStream) *errorStream<<"Partio: unexpected end of file in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
     return simple;
 }
@@ -259,6 +274,7 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
     }
     // Read header and add as many particles as found
     PDB_POLICY<64>::HEADER header;
+    memset(&header,0,sizeof(header));
     input->read((char*)&header,sizeof(header));
     if(header.magic != PDB_MAGIC){
         if(errorStream) *errorStream <<"Partio: failed to get PDB magic"<<endl;
-- 
2.43.0


From 80c15812fbd3aebf82c07c0668ad4397d35f0d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 39/97] fix: refuse truncated and damaged PTC files

---
 src/lib/io/PTC.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 933be58..0e33c70 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -41,6 +41,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 
 #include <cmath>
 #include <cfloat>
+#include <limits>
 #include <sstream>
 
 namespace Partio
@@ -56,11 +57,8 @@ inline string GetString(istream& input,const char terminator='\0')
     // TODO: make this check for FEOF condition! and also more efficient
     char c=' ';
     string s;
-    while (c!=terminator && input)
-    {
-        input.read(&c,sizeof(char));
+    while (c!=terminator && input.read(&c,sizeof(char)))
 	s += c;
-    }
     return s;
 }
 
@@ -69,10 +67,10 @@ bool ParseSpec(const string& spec,string& typeName,string& name)
     // TODO: make more robust
     const char* s=spec.c_str();
     typeName="";name="";
-    while(*s!=' ') typeName+=*s++;
+    while(*s && *s!=' ') typeName+=*s++;
     while(*s==' ') s++;
-    while(*s!='\n') name+=*s++;
-    return true;
+    while(*s && *s!='\n') name+=*s++;
+    return *s=='\n';
 }
 
 ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::ostream* errorStream)
@@ -83,14 +81,14 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic=0;
     read<LITEND>(*input,magic);
     if(ptc_magic!=magic){
         if(errorStream) *errorStream <<"Partio: Magic number '"<<magic<<"' of '"<<filename<<"' doesn't match pptc magic '"<<ptc_magic<<"'"<<endl;
         return 0;
     }
 
-    int version;
+    int version=0;
     read<LITEND>(*input,version);
     if(version>2){
         if(errorStream) *errorStream <<"Partio: ptc reader only supports version 2 or less"<<endl;
@@ -124,6 +122,10 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
 
     int nVars,dataSize;
     read<LITEND>(*input,nVars,dataSize);
+    if(!*input || !(nPoints>=0 && nPoints<=std::numeric_limits<int>::max())){
+        if(errorStream) *errorStream <<"Partio: damaged header in "<<filename<<endl;
+        return 0;
+    }
 
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
@@ -141,7 +143,11 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // data types are "float", "point", "vector", "normal", "color", or "matrix"
     int parsedSize=0;
     for(int chanNum=0;chanNum<nVars;chanNum++){
-        ParseSpec(GetString(*input,'\n'),typeName,name);
+        if(!ParseSpec(GetString(*input,'\n'),typeName,name)){
+            if(errorStream) *errorStream <<"Partio: damaged attribute specification in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
 
         int dataSize=0;
         ParticleAttributeType dataType;
@@ -191,7 +197,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints;pointIndex++){
+    for(int pointIndex=0;pointIndex<nPoints && *input;pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
@@ -226,6 +232,11 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
 
     }
 
+    if(!*input){
+        if(errorStream) *errorStream <<"Partio: unexpected end of file in the points of "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
     return simple;
 }
 
-- 
2.43.0


From a9b72ef1dcffb73a0d7385fafc8b7d3c9116b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 40/97] fix: refuse truncated and damaged BIN files

---
 src/lib/io/BIN.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 326e6dc..b64e20f 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -90,7 +90,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
         return 0;
     }
 
-    BIN_HEADER header;
+    BIN_HEADER header = BIN_HEADER();
     input->read((char*)&header, sizeof(BIN_HEADERV6));
 
     // According to the NextLimit bin_particles_file_format.pdf file
@@ -101,18 +101,22 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
         input->read((char*)&header.emitterScale, sizeof(header.emitterScale));
     }
 
+    if(BIN_MAGIC != header.verificationCode){
+        if(errorStream) *errorStream<< "Partio: Magic number '" << hex<<  header.verificationCode << "' of '" << filename << "' doesn't match BIN magic '" << BIN_MAGIC << "'" << endl;
+        return 0;
+    }
+
     // After version 13, we don't know what to do
     if(header.version > 13){
-        cerr << "Partio: Unknown .bin version : " << header.version << endl;
+        if(errorStream) *errorStream << "Partio: Unknown .bin version : " << header.version << endl;
         return 0;
     }
 
-    if(BIN_MAGIC != header.verificationCode){
-        if(errorStream) *errorStream<< "Partio: Magic number '" << hex<<  header.verificationCode << "' of '" << filename << "' doesn't match BIN magic '" << BIN_MAGIC << "'" << endl;
+    if(!*input || header.numParticles < 0){
+        if(errorStream) *errorStream << "Partio: damaged header in " << filename << endl;
         return 0;
     }
 
-
     ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
     simple->addParticles(header.numParticles);
 
@@ -153,7 +157,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     if (!headersOnly)
     {
-        for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++)
+        for(int partIndex = 0; partIndex < simple->numParticles() && *input; partIndex++)
         {
 
             float position[3] = {0.0,0.0,0.0};
@@ -261,6 +265,11 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
             }
             simple->dataWrite<int>(pidAttr, partIndex)[0] = (int)pid;
         }
+        if(!*input){
+            if(errorStream) *errorStream << "Partio: unexpected end of file in " << filename << endl;
+            simple->release();
+            return 0;
+        }
     }
 
     return simple;
-- 
2.43.0


From 5b0e955755109ed14639925e136b557c716b6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 41/97] fix: refuse truncated and damaged PRT files

---
 src/lib/io/PRT.cpp | 52 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 57d8d6a..8faa2fb 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -38,7 +38,9 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 
 
 */
+#include <cstring>
 #include <iostream>
+#include <limits>
 #ifndef PARTIO_WIN32
 #ifdef PARTIO_USE_ZLIB
 #include "../Partio.h"
@@ -111,11 +113,11 @@ static bool read_buffer(std::istream& is, z_stream& z, char* in_buf, void* p, si
         }
         int ret = inflate( &z, Z_BLOCK  );
         if ( ret != Z_OK && ret != Z_STREAM_END ) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+            if(errorStream) *errorStream<<"Zlib error "<<(z.msg ? z.msg : "unexpected end of data")<<std::endl;;
             return false;
         }
         if (ret == Z_STREAM_END && z.avail_out > 0) {
-            std::cerr<<"Truncated prt file  "<<std::endl;;
+            if(errorStream) *errorStream<<"Truncated prt file  "<<std::endl;;
             return false;
         }
     }
@@ -150,12 +152,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
         return 0;
     }
 
-    // Use simple particle since we don't have optimized storage.
-    ParticlesDataMutable* simple=0;
-    if (headersOnly) simple=new ParticleHeaders;
-    else simple=create();
-
-    FileHeadder header;
+    FileHeadder header = FileHeadder();
     input->read((char*)&header,sizeof(FileHeadder));
 
     if (memcmp(header.magic, magic, sizeof(magic))) {
@@ -173,17 +170,31 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     read<LITEND>(*input,reserve);		// reserved
     read<LITEND>(*input,channels);		// number of channel
     read<LITEND>(*input,channelsize);	// size of channel
+    if (!*input || header.numParticles > (unsigned long long)std::numeric_limits<int>::max()) {
+        if(errorStream) *errorStream<<"Partio: damaged PRT header"<<std::endl;
+        return 0;
+    }
+
+    // Use simple particle since we don't have optimized storage.
+    ParticlesDataMutable* simple=0;
+    if (headersOnly) simple=new ParticleHeaders;
+    else simple=create();
 
     simple->addParticles((int)header.numParticles);
 
     std::vector<Channel> chans;
     std::vector<ParticleAttribute> attrs;
     
-    unsigned particleSize = 0;
+    unsigned long long particleSize = 0;
     
     for (int i=0; i<channels; i++) {
         Channel ch;
         input->read((char*)&ch, sizeof(Channel));
+        if (!*input || ch.type >= sizeof(sizes)/sizeof(sizes[0]) || ch.arity > (unsigned)std::numeric_limits<int>::max()) {
+            if(errorStream) *errorStream<<"Partio: damaged PRT channel description"<<std::endl;
+            simple->release();
+            return 0;
+        }
         ParticleAttributeType type=NONE;
         switch (ch.type) {
         case 0:	// int16
@@ -215,26 +226,38 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
                 ch.name[0] += 0x20;
             }
 #endif
-            std::string name((char*)ch.name);
+            std::string name((char*)ch.name, strnlen((char*)ch.name, sizeof(ch.name)));
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
+            if (attrHandle.attributeIndex < 0) {
+                if(errorStream) *errorStream<<"Partio: attribute '"<<name<<"' cannot be added"<<std::endl;
+                simple->release();
+                return 0;
+            }
             chans.push_back(ch);
             attrs.push_back(attrHandle);
         }
         
         // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type]*ch.arity );
+        particleSize = (std::max)( particleSize, (unsigned long long)ch.offset + (unsigned long long)sizes[ch.type]*ch.arity );
         
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
             input->seekg(channelsize - sizeof(Channel), std::ios::cur);
     }
 
+    if (particleSize > (unsigned long long)std::numeric_limits<int>::max()) {
+        if(errorStream) *errorStream<<"Partio: damaged PRT channel description"<<std::endl;
+        simple->release();
+        return 0;
+    }
+
     if (headersOnly) return simple;
 
     z_stream z;
     z.zalloc = Z_NULL;z.zfree = Z_NULL;z.opaque = Z_NULL;
     if (inflateInit( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateInit error"<<std::endl;
+        simple->release();
         return 0;
     }
 
@@ -246,7 +269,12 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 
     for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
         // Read the particle from the file, and decompress it into a single particle-sized buffer.
-        read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream);
+        if (!read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream)) {
+            delete[] prt_buf;
+            inflateEnd( &z );
+            simple->release();
+            return 0;
+        }
         
         for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
             if (attrs[attrIndex].type==Partio::INT) {
-- 
2.43.0


From 2f2911d0e0fa63c4db85b3c2d0d10a1895719f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 42/97] fix: refuse truncated and damaged MC files and read
 compressed ones

---
 src/lib/io/MC.cpp | 101 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 30 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82b5278..30075cd 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -50,17 +50,11 @@ using namespace std;
 // TODO: convert this to use iterators like the rest of the readers/writers
 
 std::string GetString(std::istream& input, unsigned int size){
-    char* tmp = new char [size];
-    input.read(tmp, size);
-    std::string result(tmp);
-
-    // fix read tag error (ex: DBLA --> DBLAi, why !!)
-    if(result.size() > size){
-        result.resize(size);
-    }
-
-    delete [] tmp;
-    return result;
+    std::string result;
+    char c;
+    for(unsigned int i = 0; i < size && input.get(c); i++) result += c;
+    // the string may be shorter than the space reserved for it
+    return result.substr(0, result.find('\0'));
 }
 
 typedef struct{
@@ -71,12 +65,14 @@ typedef struct{
 } Attribute_Header;
 
 
-bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
+// position is advanced past the header and the data of the channel
+bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute, long long& position){
     char tag[4];
     input.read(tag, 4); // CHNM
 
-    int chnmSize;
+    int chnmSize = 0;
     read<BIGEND>(input, chnmSize);
+    if(chnmSize < 0) return false;
     if(chnmSize%4 > 0){
         chnmSize = chnmSize - chnmSize%4 + 4;
     }
@@ -93,7 +89,8 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     read<BIGEND>(input, attribute.blocksize);
 
-    return true;
+    position += 7*4 + (long long)chnmSize + attribute.blocksize;
+    return input.good();
 }
 
 int CharArrayLen(char** charArray){
@@ -130,7 +127,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic = 0;
     read<BIGEND>(*input, magic);
     if(MC_MAGIC != magic){
         if(errorStream) *errorStream  << "Partio: Magic number '" << magic << "' of '" << filename << "' doesn't match mc magic '" << MC_MAGIC << "'" << std::endl;
@@ -149,7 +146,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     char tag[4];
     input->read(tag, 4); // FOR4
 
-    int blockSize;
+    int blockSize = 0;
     read<BIGEND>(*input, blockSize);
 
     // Allocate a simple particle with the appropriate number of points
@@ -163,16 +160,27 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
 
     int numParticles = 0;
     input->read(tag, 4); // MYCH
-    while(((int)input->tellg()-HEADER_SIZE) < blockSize){
+    if(!*input){
+        if(errorStream) *errorStream << "Partio: damaged header in " << filename << std::endl;
+        simple->release();
+        return 0;
+    }
+    // offset from the end of the header, counted because compressed files cannot tell
+    long long position = 4;
+    while(position < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader, position)){
+            if(errorStream) *errorStream << "Partio: truncated or damaged channel in " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
 
         if(attrHeader.name == std::string("id")){
             numParticles = attrHeader.numParticles;
         }
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             continue;
         }
 #if 0 // TODO: if we ever put back attributes re-enable this
@@ -182,24 +190,35 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         }
 #endif
 
+        bool added = true;
         if(attrHeader.type == std::string("FVCA")){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
-            simple->addAttribute(attrHeader.name.c_str(), VECTOR, 3);
+            input->ignore(attrHeader.blocksize);
+            added = simple->addAttribute(attrHeader.name.c_str(), VECTOR, 3).attributeIndex >= 0;
         }
         else if(attrHeader.type == std::string("DBLA")){
-			input->seekg((int)input->tellg() + attrHeader.blocksize);
+			input->ignore(attrHeader.blocksize);
 			if(attrHeader.name == "id"){
-				simple->addAttribute(attrHeader.name.c_str(), INT, 1);
+				added = simple->addAttribute(attrHeader.name.c_str(), INT, 1).attributeIndex >= 0;
 			}
             else{
-				simple->addAttribute(attrHeader.name.c_str(), FLOAT, 1);
+				added = simple->addAttribute(attrHeader.name.c_str(), FLOAT, 1).attributeIndex >= 0;
 			}
         }
         else
 		{
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             if(errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << " " << attrHeader.type << "' cannot map type" << std::endl;
         }
+        if(!added){
+            if(errorStream) *errorStream << "Partio: attribute '" << attrHeader.name << "' cannot be added" << std::endl;
+            simple->release();
+            return 0;
+        }
+    }
+    if(!*input || numParticles < 0){
+        if(errorStream) *errorStream << "Partio: truncated or damaged channel in " << filename << std::endl;
+        simple->release();
+        return 0;
     }
     simple->addParticles(numParticles);
 
@@ -208,23 +227,39 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return simple;
     }
     //cout << "==============================================================" << endl;
-    input->seekg(HEADER_SIZE);
+    input = io::unzip(filename); // start again: compressed files cannot seek
+    input->ignore(HEADER_SIZE);
     input->read(tag, 4); // MYCH
-    while((int)input->tellg()-HEADER_SIZE < blockSize){
+    position = 4;
+    while(position < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader, position)){
+            if(errorStream) *errorStream << "Partio: truncated or damaged channel in " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             continue;
         }
 
         ParticleAttribute attrHandle;
         if(simple->attributeInfo(attrHeader.name.c_str(), attrHandle) == false){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             continue;
         }
 
+        // bytes of the values of this channel; it may hold more than there are particles
+        const long long size = (long long)simple->numParticles()*(
+            attrHeader.type == std::string("DBLA") ? sizeof(double) :
+            attrHeader.type == std::string("FVCA") ? 3*sizeof(float) : 0);
+        if(size > attrHeader.blocksize){
+            if(errorStream) *errorStream << "Partio: channel '" << attrHeader.name << "' is too short in " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
+
         Partio::ParticlesDataMutable::iterator it = simple->begin();
         Partio::ParticleAccessor accessor(attrHandle);
         it.addAccessor(accessor);
@@ -265,6 +300,12 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
             }
 
 
+        }
+        input->ignore(attrHeader.blocksize - size);
+        if(!*input){
+            if(errorStream) *errorStream << "Partio: unexpected end of file in " << filename << std::endl;
+            simple->release();
+            return 0;
         }
         /*
         if(0){
-- 
2.43.0


From 244975520d779c58c28212a165276ad45a2057e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 43/97] fix: read the colors of PTS files from the right
 columns

---
 src/lib/io/PTS.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 6c437de..07ec21b 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -222,9 +222,10 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					if (attrs[attrIndex].name == "pointColor")
 					{
 						// 8 bit color  conversion
-						data[0]=lineData[4]/255;
-						data[1]=lineData[5]/255;
-						data[2]=lineData[6]/255;
+						// the colors are the last three columns
+						data[0]=lineData[valcount-3]/255;
+						data[1]=lineData[valcount-2]/255;
+						data[2]=lineData[valcount-1]/255;
 					}
 					else if (attrs[attrIndex].name == "position")
 					{
-- 
2.43.0


From e9619de4bf95efc5dcc3645f26f280bd38acfb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 44/97] fix: do not overrun the line buffer on long PTS lines,
 parse in the classic locale

---
 src/lib/io/PTS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 07ec21b..44812bc 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -190,9 +190,10 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         while (ss >> token)
         {
             stringstream foo(token);
+            foo.imbue(std::locale::classic());
             float x;
             foo >> x;
-			lineData[i] = x;
+			if (i < 8) lineData[i] = x;
             i++;
         }
 
-- 
2.43.0


From 4fd05e93dacad9e7d735e0a8f89c7f963f7590b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 45/97] fix: count the points of PTS files in readHeaders and
 read compressed ones

---
 src/lib/io/PTS.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 44812bc..ce4159e 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -73,9 +73,6 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     /// FORMAT  is  up to 8 elements  space delimited { posX posY posZ  remission quality  red green blue }
     // since there's no header data to parse we're just going to hard code this
 
-    /* Start from the beginning */
-	input->seekg(0,ios::beg);
-
     /* Determine amount of values per line */
     char line[1024];
     /* Jump over first line. */
@@ -150,17 +147,16 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			if(errorStream) *errorStream<<"Partio: unsupported number of columns ("<<valcount<<") in "<<filename<<endl;
+			simple->release();
 			return 0;
 		}
 		break;
 
     }
 
-    input->seekg(0,ios::beg);
-
-    unsigned int num=0;
-    simple->addParticles(num);
-    if (headersOnly) return simple; // escape before we try to touch data
+    /* Start from the beginning, compressed files cannot seek */
+    input=io::unzip(filename);
 
     if (input->good())
     { // garbage count at top of  file
@@ -170,6 +166,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 
     // Read actual particle data
     if (!input->good()) {
+        if(errorStream) *errorStream<<"Partio: no points in "<<filename<<endl;
         simple->release();
         return 0;
     }
@@ -200,6 +197,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         if (i == valcount)
         {
             simple->addParticle();
+            if (headersOnly) continue; // nothing to be stored
             for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++)
             {
                 if (attrs[attrIndex].type==Partio::INT )
-- 
2.43.0


From cf06d51e31c3736a91c14d79307a8043492e4fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 46/97] fix: refuse BGEO files that end within the primitives

---
 src/lib/io/BGEO.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index d02afec..6907a9b 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -305,7 +305,13 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         }
     }
 
-    if (!skipPrimitives(nPoints, nPrims, nPrimAttrib, input.get(),errorStream)) return simple;
+    bool skippedPrimitives=skipPrimitives(nPoints, nPrims, nPrimAttrib, input.get(),errorStream);
+    if(!*input){
+        if(errorStream) *errorStream<<"Partio: unexpected end of file in the primitives of "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
+    if (!skippedPrimitives) return simple;
 
     particleSize=0;
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
-- 
2.43.0


From bfa9870de8675b62f1d0b27420487648fe0e0e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:21 +0000
Subject: [PATCH 47/97] fix: do not read past attributes of another shape when
 writing BIN

---
 src/lib/io/BIN.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index b64e20f..6c07e2d 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -275,6 +275,12 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
     return simple;
 }
 
+// attributes are only exported when they have the shape RealFlow stores
+static bool isFloats(const ParticleAttribute& attr,int count)
+{return (attr.type==VECTOR || attr.type==FLOAT) && attr.count>=count;}
+static bool isInt(const ParticleAttribute& attr)
+{return (attr.type==INT || attr.type==INDEXEDSTR) && attr.count>=1;}
+
 bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compressed*/,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename));
@@ -375,7 +381,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(attrIndex,attr);
 
             //cout << attr.name << endl;
-            if (attr.name ==  "position")
+            if (attr.name == "position" && isFloats(attr,3))
             {
                 const float* data = p.data<float>(attr, particles);
                 position[0] = data[0];
@@ -383,82 +389,82 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
                 position[2] = data[2];
             }
 
-            else if (attr.name == "velocity")
+            else if (attr.name == "velocity" && isFloats(attr,3))
             {
                 const float* data = p.data<float>(attr, particles);
                 velocity[0] = data[0];
                 velocity[1] = data[1];
                 velocity[2] = data[2];
             }
-            else if (attr.name == "force")
+            else if (attr.name == "force" && isFloats(attr,3))
             {
                 const float* data = p.data<float>(attr, particles);
                 force[0] = data[0];
                 force[1] = data[1];
                 force[2] = data[2];
             }
-            else if (attr.name == "vorticity")
+            else if (attr.name == "vorticity" && isFloats(attr,3))
             {
                 const float* data = p.data<float>(attr, particles);
                 vorticity[0] = data[0];
                 vorticity[1] = data[1];
                 vorticity[2] = data[2];
             }
-            else if (attr.name == "normal")
+            else if (attr.name == "normal" && isFloats(attr,3))
             {
                 const float* data = p.data<float>(attr, particles);
                 normal[0] = data[0];
                 normal[1] = data[1];
                 normal[2] = data[2];
             }
-            else if (attr.name == "neighbors")
+            else if (attr.name == "neighbors" && isInt(attr))
             {
                 const int* data = p.data<int>(attr, particles);
                 neighbors= data[0];
             }
-            else if (attr.name == "uvw")
+            else if (attr.name == "uvw" && isFloats(attr,3))
             {
                 const float* data = p.data<float>(attr, particles);
                 uvw[0] = data[0];
                 uvw[1] = data[1];
                 uvw[2] = data[2];
             }
-            else if (attr.name == "age")
+            else if (attr.name == "age" && isFloats(attr,1))
             {
                 const float* data = p.data<float>(attr, particles);
                 age= data[0];
             }
-            else if (attr.name == "isolationTime")
+            else if (attr.name == "isolationTime" && isFloats(attr,1))
             {
                 const float* data = p.data<float>(attr, particles);
                 isolationTime= data[0];
             }
-            else if (attr.name == "viscosity")
+            else if (attr.name == "viscosity" && isFloats(attr,1))
             {
                 const float* data = p.data<float>(attr, particles);
                 viscosity= data[0];
             }
-            else if (attr.name == "density")
+            else if (attr.name == "density" && isFloats(attr,1))
             {
                 const float* data = p.data<float>(attr, particles);
                 density= data[0];
             }
-            else if (attr.name == "pressure")
+            else if (attr.name == "pressure" && isFloats(attr,1))
             {
                 const float* data = p.data<float>(attr, particles);
                 pressure= data[0];
             }
-            else if (attr.name == "mass")
+            else if (attr.name == "mass" && isFloats(attr,1))
             {
                 const float* data = p.data<float>(attr, particles);
                 mass= data[0];
             }
-            else if (attr.name == "temperature")
+            else if (attr.name == "temperature" && isFloats(attr,1))
             {
                 const float* data = p.data<float>(attr, particles);
                 temperature= data[0];
             }
-            else if (attr.name == "id")
+            else if (attr.name == "id" && isInt(attr))
             {
                 const int* data = p.data<int>(attr, particles);
                 pid= data[0];
-- 
2.43.0


From 64fb22e6e95ebbbfda17cc87267bb3317820c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:21 +0000
Subject: [PATCH 48/97] fix: do not read past position, normal and radius of
 another shape when writing PTC

---
 src/lib/io/PTC.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 0e33c70..504a9a6 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -260,6 +260,10 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
     bool foundPosition=p.attributeInfo("position",positionHandle);
     bool foundNormal=p.attributeInfo("normal",normalHandle);
     bool foundRadius=p.attributeInfo("radius",radiusHandle);
+    // attributes of another shape cannot be used for these
+    foundPosition=foundPosition && positionHandle.count>=3 && (positionHandle.type==VECTOR || positionHandle.type==FLOAT);
+    foundNormal=foundNormal && normalHandle.count>=3 && (normalHandle.type==VECTOR || normalHandle.type==FLOAT);
+    foundRadius=foundRadius && radiusHandle.count>=1 && (radiusHandle.type==VECTOR || radiusHandle.type==FLOAT);
 
     if(!foundPosition){
         if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
-- 
2.43.0


From eab4a747694a71feb8bd09c808dafb823bf6f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 49/97] fix: refuse a position of another shape when writing
 BGEO

---
 src/lib/io/BGEO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 6907a9b..932aa88 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -380,6 +380,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name=="position"){
+            if(attr.count!=3 || (attr.type!=VECTOR && attr.type!=FLOAT)) break; // not usable as position
             attrOffsets.push_back(0);
             foundPosition=true;
         }else{
-- 
2.43.0


From 1fa43608bc222cc68d0f85b68b53ddd3902769fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 50/97] fix: refuse a position of another shape when writing
 GEO

---
 src/lib/io/GEO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 105d02b..7f5bd44 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -280,6 +280,7 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
         ParticleAttribute attrib;
         p.attributeInfo(i,attrib);
         if(attrib.name=="position"){
+            if(attrib.count!=3 || (attrib.type!=VECTOR && attrib.type!=FLOAT)) break; // not usable as position
             positionHandle=attrib;
             positionAccessor=ParticleAccessor(positionHandle);
             foundPosition=true;
-- 
2.43.0


From af2d276128f962b9b7e176d3e9e93ec41dcbbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 51/97] fix: split PTS lines in the classic locale

---
 src/lib/io/PTS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index ce4159e..3ad103b 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -180,6 +180,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         input->getline(line, 1024);
 
         stringstream ss(line);
+        ss.imbue(std::locale::classic());
 
         float lineData[8];
         int i = 0;
-- 
2.43.0


From 835e9d5b8779a7742ec34fbbe30ed671cd5bfc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 52/97] fix: do not stop at PTS lines of 1024 characters or
 more

---
 src/lib/io/PTS.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 3ad103b..3b72ff7 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -74,10 +74,11 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     // since there's no header data to parse we're just going to hard code this
 
     /* Determine amount of values per line */
-    char line[1024];
+    string firstLine;
     /* Jump over first line. */
-	input->getline(line,1024);
-    input->getline(line,1024);
+    getline(*input,firstLine);
+    getline(*input,firstLine);
+    char* line = &firstLine[0];
     int valcount = 0;
 #ifdef PARTIO_WIN32
 	char * nextLine = NULL;
@@ -160,8 +161,8 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 
     if (input->good())
     { // garbage count at top of  file
-		char junk[1024];
-        input->getline(junk,1024);
+        string junk;
+        getline(*input,junk);
     }
 
     // Read actual particle data
@@ -176,8 +177,8 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     for (unsigned int particleIndex=0;input->good();)
     {
         string token = "";
-        char line[1024];
-        input->getline(line, 1024);
+        string line;
+        getline(*input,line);
 
         stringstream ss(line);
         ss.imbue(std::locale::classic());
-- 
2.43.0


From 060fbe938cfc0c83fabdb68d679daf5209180888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 53/97] fix: readCached() of a damaged file does not deadlock

---
 src/lib/core/Mutex.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Mutex.h b/src/lib/core/Mutex.h
index c32f31e..85c21e5 100644
--- a/src/lib/core/Mutex.h
+++ b/src/lib/core/Mutex.h
@@ -52,7 +52,12 @@ namespace Partio
     public:
         inline PartioMutex()
         {
-            pthread_mutex_init(&CacheLock,0);
+            // recursive as on Windows: a reader called by readCached() may release its particles
+            pthread_mutexattr_t attr;
+            pthread_mutexattr_init(&attr);
+            pthread_mutexattr_settype(&attr,PTHREAD_MUTEX_RECURSIVE);
+            pthread_mutex_init(&CacheLock,&attr);
+            pthread_mutexattr_destroy(&attr);
         }
     
         inline ~PartioMutex()
-- 
2.43.0


From efae1c8fa099a51cb9019dd053ea4955b764bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 54/97] fix: allow clustering of sets that have a clusterId

---
 src/lib/core/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b5e3712..2b11303 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -349,8 +349,9 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         ParticleAttribute attr;
         if (particles->attributeInfo(i,attr)) {
             if (attr.type == Partio::NONE) continue;
+            if (attr.name == "clusterId") continue; // numbered anew below
             attributes.push_back(attr);
-            clusterAttributes.push_back(cluster->addAttribute(attributes[i].name.c_str(),attributes[i].type,attributes[i].count));
+            clusterAttributes.push_back(cluster->addAttribute(attr.name.c_str(),attr.type,attr.count));
             if (attr.type == Partio::INDEXEDSTR) {
                 const std::vector<std::string>& strings = particles->indexedStrs(attr);
                 for (size_t j=0; j<strings.size(); j++) {
-- 
2.43.0


From da0cd976471ff4f5c10f0569ead1e386a202816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 55/97] fix: fractional number of points in damaged PTC files

---
 src/lib/io/PTC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 504a9a6..9ea9456 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -197,7 +197,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints && *input;pointIndex++){
+    for(int pointIndex=0;pointIndex<simple->numParticles() && *input;pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
-- 
2.43.0


From df78230a0779b0a29083dbea6870e2782867edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 56/97] fix: PDB channels whose size is no multiple of their
 type's were read out of step

---
 src/lib/io/PDB.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 61807b0..13b1691 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -145,6 +145,11 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             }
             if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' cannot map type"<<endl;
         }else{
+            if(channelData.datasize%TypeSize(type)!=0){
+                if(errorStream) *errorStream<<"Partio: damaged channel header in "<<filename<<endl;
+                simple->release();
+                return 0;
+            }
             int count=channelData.datasize/TypeSize(type);
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
             if(attrHandle.attributeIndex<0){
@@ -152,7 +157,7 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
                 simple->release();
                 return 0;
             }
-            if(headersOnly){
+            if(headersOnly || count==0){
                 char buf[1024];
                 long long toSkip=size;
                 while(toSkip>0 && *input){
-- 
2.43.0


From 3475f3a9e64ed1dd9a11926c47ef8a77b38d2607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 57/97] fix: reading on after an error in a gzip stream read
 before the start of the buffer

---
 src/lib/io/ZIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index da60843..79fa33a 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -312,7 +312,7 @@ public:
     int put_back_count=static_cast<int>(gptr()-eback());
     if(put_back_count>4) put_back_count=4;
     std::memmove(out+(4-put_back_count),gptr()-put_back_count,put_back_count);
-    int num=process();
+    int num=std::max(process(),0); // an error ends the data, and leaves an empty buffer behind
     setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+num));
     if(num<=0) return EOF;
     return traits_type::to_int_type(*gptr());}
-- 
2.43.0


From a60a91e1c1cf5fa8a87b4b1aea0a0a5c8384c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 58/97] fix: PRT files that claim two billion particles without
 any channel took forever to read

---
 src/lib/io/PRT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 8faa2fb..5e7c318 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -267,7 +267,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     
     char* prt_buf = new char[particleSize];
 
-    for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
+    for (unsigned int particleIndex=0;particleSize>0 && particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
         // Read the particle from the file, and decompress it into a single particle-sized buffer.
         if (!read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream)) {
             delete[] prt_buf;
-- 
2.43.0


From aa32b56173051d238c30d4d461548e7359ca2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 59/97] fix: GEO files that end among the strings of an
 attribute were accepted

---
 src/lib/io/GEO.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 7f5bd44..caa1fec 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -141,7 +141,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         }
         if(attrType=="index"){
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
-            int nIndices=0;
+            int nIndices=0, nIndicesRead=0;
             *input>>nIndices;
             ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
             if(attribute.attributeIndex<0){
@@ -160,7 +160,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                         if(errorStream) *errorStream<<"Partio: error on read, expected registerIndexStr to return index "<<j<<" but got "<<id<<" for string "<<indexName<<endl;
                     }
                 }
+                nIndicesRead++;
             }
+            if(nIndicesRead < nIndices) input->setstate(ios::failbit); // the file ended among the strings
             accessors.push_back(ParticleAccessor(attrs.back()));
             attrInfoRead++;
             
-- 
2.43.0


From 97a0921099c1c53b79a3cdf17b1c31fdfa91e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 60/97] fix: several threads can read PTS files at once

---
 src/lib/io/PTS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 3b72ff7..81e3afe 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -80,11 +80,11 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     getline(*input,firstLine);
     char* line = &firstLine[0];
     int valcount = 0;
-#ifdef PARTIO_WIN32
 	char * nextLine = NULL;
+#ifdef PARTIO_WIN32
     char * pch = strtok_s( line, "\t ", &nextLine );
 #else
-	char * pch = strtok( line, "\t " );
+	char * pch = strtok_r( line, "\t ", &nextLine );
 #endif
     while ( pch )
     {
@@ -95,7 +95,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 #ifdef PARTIO_WIN32
         pch = strtok_s( NULL, "\t ", &nextLine );
 #else
-		pch = strtok( NULL, "\t " );
+		pch = strtok_r( NULL, "\t ", &nextLine );
 #endif
     }
 
-- 
2.43.0


From 2ea7e8c0f0f0d3f2917e720bd8c4dcc53cb4af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:12 +0000
Subject: [PATCH 61/97] fix: report when a RIB file cannot be opened for
 writing

---
 src/lib/io/RIB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5d5da08..d035f66 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -33,6 +33,10 @@ using namespace std;
 bool writeRIB(const char* filename, const ParticlesData& p, const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
     ParticleAttribute dummy;
     bool foundP     = p.attributeInfo("position",  dummy) || p.attributeInfo("P",     dummy);
     bool foundP2    = p.attributeInfo("position2", dummy) || p.attributeInfo("P2",    dummy);
-- 
2.43.0


From 9654079442eff0bc3bb598aafe44fbc3c9f87859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 62/97] fix: report files that cannot be written completely

---
 src/lib/io/BGEO.cpp |  2 +-
 src/lib/io/BIN.cpp  |  2 +-
 src/lib/io/GEO.cpp  |  2 +-
 src/lib/io/PDA.cpp  |  2 +-
 src/lib/io/PDB.cpp  |  2 +-
 src/lib/io/PDC.cpp  |  2 +-
 src/lib/io/PRT.cpp  |  2 +-
 src/lib/io/PTC.cpp  |  2 +-
 src/lib/io/RIB.cpp  |  2 +-
 src/lib/io/ZIP.cpp  | 37 ++++++++++++++++++++++++++++++++++---
 src/lib/io/ZIP.h    |  2 ++
 src/lib/io/io.h     |  8 ++++++++
 12 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 932aa88..79d4b16 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -512,7 +512,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
 #endif  
 
     // success
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }
diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 6c07e2d..e8afb49 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -520,7 +520,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
 	output->write((const char*)&zero, sizeof(char)); // no RF 4 data (just 1 byte of 0)
 	output->write((const char*)&zero, sizeof(char)); // no RF 5 data (just 1 byte of 0)
 
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }// end of namespace Partio
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index caa1fec..561cb5f 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -350,7 +350,7 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
     *output<<"endExtra"<<endl;
 
     // success
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }
diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index aecde0e..5bf205a 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -218,7 +218,7 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
         }
         *output<<endl;
     }
-    return true;
+    return io::finish(*output,filename,errorStream);
 
 }
 
diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 13b1691..693d563 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -255,7 +255,7 @@ bool writePDBHelper(const char* filename,const ParticlesData& p,const bool compr
             output->write(accessor.raw<char>(it),sizeof(float)*attr.count);
         }
     }
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 ParticlesDataMutable* readPDB32(const char* filename,const bool headersOnly,std::ostream* errorStream)
diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index 9be5d6f..fd2ee5f 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -183,7 +183,7 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
             }
         }
     }
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }// end of namespace Partio
diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 5e7c318..93c80c6 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -454,7 +454,7 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             if(errorStream) *errorStream<<"Zlib deflateEnd error"<<std::endl;
             return false;
         }
-        // success
+        return io::finish(*output,filename,errorStream);
     }// end if numParticles > 0
     return true;
 }
diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 9ea9456..3d1a760 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -370,7 +370,7 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         }
         
     }
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }
diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index d035f66..0b8d26d 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -142,6 +142,6 @@ bool writeRIB(const char* filename, const ParticlesData& p, const bool compresse
     *output << "  ResourceEnd" << endl;
     *output << "AttributeEnd" << endl;
 
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 }
diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 79fa33a..62be1f2 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -344,10 +344,11 @@ class ZipStreambufCompress:public std::streambuf
     unsigned int crc;
 
     bool valid;
+    bool finished;
 
 public:
     ZipStreambufCompress(ZipFileHeader* header,std::ostream& stream)
-        :ostream(stream),header(header),valid(true)
+        :ostream(stream),header(header),valid(true),finished(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;
         int ret=deflateInit2(&strm,Z_DEFAULT_COMPRESSION,Z_DEFLATED,-MAX_WBITS,8,Z_DEFAULT_STRATEGY); 
@@ -361,7 +362,13 @@ public:
     }
 
     virtual ~ZipStreambufCompress()
-    {if(valid){
+    {finish();
+    if(!header) delete &ostream;}
+
+    // write the remaining data and what follows it, false if not everything could be written
+    bool finish()
+    {if(valid && !finished){
+        finished=true;
         process(true);
         deflateEnd(&strm);
         if(header){
@@ -372,7 +379,7 @@ public:
             header->Write(ostream,false);
             ostream.seekp(final_position);}
         else{Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);}}
-    if(!header) delete &ostream;}
+    return valid && ostream.flush();}
 
 protected:
     int process(bool flush)
@@ -389,6 +396,7 @@ protected:
             return -1;}
         int generated_output=static_cast<int>(strm.next_out-(Bytef*)out);
         ostream.write((char*)out,generated_output);
+        if(!ostream) return -1;
         if(header) header->compressed_size+=generated_output;
         if(ret==Z_STREAM_END) break;}
     // update counts, crc's and buffers
@@ -448,6 +456,10 @@ public:
     virtual ~ZIP_FILE_OSTREAM()
     {}
 
+    bool finish()
+    {if(!buf.finish()) setstate(std::ios::badbit);
+    return good();}
+
 //#####################################################################
 };
 //#####################################################################
@@ -603,6 +615,16 @@ Gzip_Out(const std::string& filename,std::ios::openmode mode)
     return output;
 }
 //#####################################################################
+// Function Gzip_Finish
+//#####################################################################
+bool
+Gzip_Finish(std::ostream& stream)
+{
+    if(ZIP_FILE_OSTREAM* zip=dynamic_cast<ZIP_FILE_OSTREAM*>(&stream)) return zip->finish();
+    stream.flush();
+    return stream.good();
+}
+//#####################################################################
 
 #else
 
@@ -633,6 +655,15 @@ Gzip_Out(const std::string& filename,std::ios::openmode mode)
     return 0;    
 }
 //#####################################################################
+// Function Gzip_Finish
+//#####################################################################
+bool
+Gzip_Finish(std::ostream& stream)
+{
+    stream.flush();
+    return stream.good();
+}
+//#####################################################################
 
 #endif
 } // namespace Partio
diff --git a/src/lib/io/ZIP.h b/src/lib/io/ZIP.h
index aa38cb4..cc98cf9 100644
--- a/src/lib/io/ZIP.h
+++ b/src/lib/io/ZIP.h
@@ -50,6 +50,8 @@ struct ZipFileHeader;
 //#####################################################################
 std::istream* Gzip_In(const std::string& filename,std::ios::openmode mode);
 std::ostream* Gzip_Out(const std::string& filename,std::ios::openmode mode);
+/// Writes all that is still buffered by a stream of Gzip_Out (or any other), false if that or an earlier write failed
+bool Gzip_Finish(std::ostream& stream);
 //#####################################################################
 // Class ZipFileWriter
 //#####################################################################
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index e2d1874..a58bbd7 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -51,5 +51,13 @@ inline std::unique_ptr<std::ostream> write(const std::string& filename)
     return output;
 }
 
+/// Completes a file: false, with a message, if not all of it could be written
+inline bool finish(std::ostream& output, const char* filename, std::ostream* errorStream)
+{
+    if (Gzip_Finish(output)) return true;
+    if (errorStream) *errorStream<<"Partio: Unable to write all of file "<<filename<<std::endl;
+    return false;
+}
+
 }  // io
 }  // Partio
-- 
2.43.0


From f3b31ec6e152a8240cdf461c13ee9ee33bbf0d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 63/97] fix: refuse sets without positions before the file is
 opened

---
 src/lib/io/BGEO.cpp | 13 ++++++-------
 src/lib/io/GEO.cpp  | 14 ++++++--------
 src/lib/io/PTC.cpp  | 26 +++++++++++++-------------
 src/lib/io/RIB.cpp  | 11 ++++++-----
 4 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 79d4b16..64bc86b 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -350,6 +350,12 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
 
 bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
+    ParticleAttribute positionAttr;
+    if(!p.attributeInfo("position",positionAttr) || positionAttr.count!=3
+        || (positionAttr.type!=VECTOR && positionAttr.type!=FLOAT)){
+        if(errorStream) *errorStream <<"Partio: didn't find attr 'position' while trying to write GEO"<<endl;
+        return false;
+    }
     unique_ptr<ostream> output(io::write(filename, compressed));
     if(!*output){
         if(errorStream) *errorStream <<"Partio Unable to open file "<<filename<<endl;
@@ -374,15 +380,12 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
     vector<ParticleAttribute> handles;
     vector<ParticleAccessor> accessors;
     vector<int> attrOffsets;
-    bool foundPosition=false;
     int particleSize=4;
     for(int i=0;i<p.numAttributes();i++){
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name=="position"){
-            if(attr.count!=3 || (attr.type!=VECTOR && attr.type!=FLOAT)) break; // not usable as position
             attrOffsets.push_back(0);
-            foundPosition=true;
         }else{
             writeHoudiniStr(*output,attr.name);
             if(attr.type==INDEXEDSTR){
@@ -415,10 +418,6 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
         handles.push_back(attr);
         accessors.push_back(ParticleAccessor(handles.back()));
     }
-    if(!foundPosition){
-        if(errorStream) *errorStream <<"Partio: didn't find attr 'position' while trying to write GEO"<<endl;
-        return false;
-    }
 
     ParticlesData::const_iterator iterator=p.begin();
     for(size_t i=0;i<accessors.size();i++) iterator.addAccessor(accessors[i]);
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 561cb5f..d010751 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -262,6 +262,12 @@ void writeType(ostream& output,const ParticlesData&,const ParticleAttribute& att
 
 bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
+    ParticleAttribute positionHandle;
+    if(!p.attributeInfo("position",positionHandle) || positionHandle.count!=3
+        || (positionHandle.type!=VECTOR && positionHandle.type!=FLOAT)){
+        if(errorStream) *errorStream<<"Partio: didn't find attr 'position' while trying to write GEO"<<endl;
+        return false;
+    }
     unique_ptr<ostream> output(io::write(filename, compressed));
     if(!*output){
         if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
@@ -273,19 +279,15 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
     *output<<"NPointAttrib "<<p.numAttributes()-1<<" NVertexAttrib "<<0<<" NPrimAttrib 1 NAttrib 0"<<endl;
 
     if(p.numAttributes()-1>0) *output<<"PointAttrib"<<endl;
-    ParticleAttribute positionHandle;
     ParticleAccessor positionAccessor(positionHandle);
-    bool foundPosition=false;
     vector<ParticleAttribute> handles;
     vector<ParticleAccessor> accessors;
     for(int i=0;i<p.numAttributes();i++){
         ParticleAttribute attrib;
         p.attributeInfo(i,attrib);
         if(attrib.name=="position"){
-            if(attrib.count!=3 || (attrib.type!=VECTOR && attrib.type!=FLOAT)) break; // not usable as position
             positionHandle=attrib;
             positionAccessor=ParticleAccessor(positionHandle);
-            foundPosition=true;
         }else{
             handles.push_back(attrib);
             accessors.push_back(ParticleAccessor(handles.back()));
@@ -312,10 +314,6 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
         }
         *output<<endl;
     }
-    if(!foundPosition){
-        if(errorStream) *errorStream<<"Partio: didn't find attr 'position' while trying to write GEO"<<endl;
-        return false;
-    }
 
     ParticlesData::const_iterator iterator=p.begin();
     iterator.addAccessor(positionAccessor);
diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3d1a760..6978520 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -242,6 +242,19 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
 
 bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
+    ParticleAttribute positionHandle,normalHandle,radiusHandle;
+    bool foundPosition=p.attributeInfo("position",positionHandle);
+    bool foundNormal=p.attributeInfo("normal",normalHandle);
+    bool foundRadius=p.attributeInfo("radius",radiusHandle);
+    // attributes of another shape cannot be used for these
+    foundPosition=foundPosition && positionHandle.count>=3 && (positionHandle.type==VECTOR || positionHandle.type==FLOAT);
+    foundNormal=foundNormal && normalHandle.count>=3 && (normalHandle.type==VECTOR || normalHandle.type==FLOAT);
+    foundRadius=foundRadius && radiusHandle.count>=1 && (radiusHandle.type==VECTOR || radiusHandle.type==FLOAT);
+
+    if(!foundPosition){
+        if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
+        return false;
+    }
     unique_ptr<ostream> output(io::write(filename, compressed));
     if(!*output){
         if(errorStream) *errorStream <<"Partio Unable to open file "<<filename<<endl;
@@ -256,19 +269,6 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
     double numParticlesAsDouble=p.numParticles();
     write<LITEND>(*output,numParticlesAsDouble);
 
-    ParticleAttribute positionHandle,normalHandle,radiusHandle;
-    bool foundPosition=p.attributeInfo("position",positionHandle);
-    bool foundNormal=p.attributeInfo("normal",normalHandle);
-    bool foundRadius=p.attributeInfo("radius",radiusHandle);
-    // attributes of another shape cannot be used for these
-    foundPosition=foundPosition && positionHandle.count>=3 && (positionHandle.type==VECTOR || positionHandle.type==FLOAT);
-    foundNormal=foundNormal && normalHandle.count>=3 && (normalHandle.type==VECTOR || normalHandle.type==FLOAT);
-    foundRadius=foundRadius && radiusHandle.count>=1 && (radiusHandle.type==VECTOR || radiusHandle.type==FLOAT);
-
-    if(!foundPosition){
-        if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
-        return false;
-    }
     if(!foundNormal) if(errorStream) *errorStream <<"Partio: failed to find attr 'normal' for PTC output, using 0,0,0"<<endl;
     if(!foundRadius) if(errorStream) *errorStream <<"Partio: failed to find attr 'radius' for PTC output, using 1"<<endl;
 
diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 0b8d26d..0ad292e 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -32,11 +32,6 @@ using namespace std;
 
 bool writeRIB(const char* filename, const ParticlesData& p, const bool compressed,std::ostream* errorStream)
 {
-    unique_ptr<ostream> output(io::write(filename, compressed));
-    if(!*output){
-        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
-        return false;
-    }
     ParticleAttribute dummy;
     bool foundP     = p.attributeInfo("position",  dummy) || p.attributeInfo("P",     dummy);
     bool foundP2    = p.attributeInfo("position2", dummy) || p.attributeInfo("P2",    dummy);
@@ -48,6 +43,12 @@ bool writeRIB(const char* filename, const ParticlesData& p, const bool compresse
         return false;
     }
 
+    unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
+
     if (!foundWidth)
         if(errorStream) *errorStream << "Partio: failed to find attr 'width','radius', or 'radiusPP' for RIB output, using constantwidth = 1" << endl;
 
-- 
2.43.0


From 744490fb85c7c2720bf8dc8c0f735cb106a4d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 64/97] fix: find the directory of zip files whose members hold
 zip files

---
 src/lib/io/ZIP.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 62be1f2..db6a9e1 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -538,9 +538,12 @@ Find_And_Read_Central_Header()
     istream.seekg(end_position-read_start);
     char *buf=new char[static_cast<unsigned int>(read_start)];
     istream.read(buf,read_start);
+    // the one whose comment ends with the file, members may hold what looks like others
     int found=-1;
-    for(unsigned int i=0;i<read_start-3;i++){
-        if(buf[i]==0x50 && buf[i+1]==0x4b && buf[i+2]==0x05 && buf[i+3]==0x06){found=i;break;}}
+    for(int i=static_cast<int>(read_start)-static_cast<int>(read_size_before_comment);i>=0;i--){
+        int comment_size=(unsigned char)buf[i+20]+((unsigned char)buf[i+21]<<8);
+        if(buf[i]==0x50 && buf[i+1]==0x4b && buf[i+2]==0x05 && buf[i+3]==0x06
+            && i+static_cast<int>(read_size_before_comment)+comment_size==read_start){found=i;break;}}
     delete [] buf;
     if(found==-1){std::cerr<<"ZIP: Failed to find zip header"<<std::endl;return false;}
     // seek to end of central header and read
-- 
2.43.0


From 9ed56091367f1fa8640f095d1e2f62cb9935769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 65/97] fix: raise the errors the Python functions detect

---
 src/py/partio.i | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0835111..b1ab8bd 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -117,6 +117,12 @@ public:
 }
 %apply uint64_t { ParticleIndex };
 
+// Functions set an error and still return something, raise it
+%exception {
+    $action
+    if(PyErr_Occurred()) SWIG_fail;
+}
+
 %typemap(in) fixedFloatArray
 {
     int i;
@@ -253,7 +259,7 @@ public:
     {
         // make sure we are close
         if(center.count!=3){
-            fprintf(stderr,"Need center to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need center to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
@@ -277,7 +283,7 @@ public:
     {    
         // make sure we are close
         if(bboxMin.count!=3 || bboxMax.count!=3){
-            fprintf(stderr,"Need bboxMin and bboxMax to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need bboxMin and bboxMax to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
-- 
2.43.0


From 816d09634d270593e302e70862b301f5d3500272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 66/97] fix: refuse long sequences as positions in Python
 instead of overrunning a buffer

---
 src/py/partio.i | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index b1ab8bd..9d751d4 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -131,6 +131,10 @@ public:
         return NULL;
     }
     int size=PyObject_Length($input);
+    if(size<0 || size>16){
+        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of at most 16 floats");
+        return NULL;
+    }
     $1.count=size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
-- 
2.43.0


From d5a46514eaeebfb6d3de67847840122dd1dedb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 67/97] fix: getting a particle that does not exist in Python
 raises IndexError instead of crashing

---
 src/py/partio.i | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 9d751d4..729c675 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -306,6 +306,10 @@ public:
     %feature("docstring","Gets attribute data for particleIndex'th particle");
     PyObject* get(const ParticleAttribute& attr,const ParticleIndex particleIndex)
     {
+        if(particleIndex>=(ParticleIndex)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->data<int>(attr,particleIndex);
-- 
2.43.0


From e52222cca1890356ac50c58fd8567b36592fce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 68/97] fix: give Python strings that are not valid UTF-8
 instead of null pointers

---
 src/py/partio.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 729c675..0bb8bd1 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -350,7 +350,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->indexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_From_std_string(indexes[k]));
         return list;
     }
 
@@ -360,7 +360,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->fixedIndexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_From_std_string(indexes[k]));
         return list;
     }
 }
-- 
2.43.0


From fbfb953898ec9b200553286478fcd47b9963e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 69/97] fix: let Python clone without an attribute map or with
 one of bytes

---
 src/py/partio.i | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0bb8bd1..4d03709 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -635,7 +635,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
                 continue;
             std::string value_str;
             if (PyBytes_Check(value))
-                key_str = PyBytes_AsString(value);
+                value_str = PyBytes_AsString(value);
             else if (PyUnicode_Check(value))
                 value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
             temp[std::move(key_str)] = std::move(value_str);
@@ -646,6 +646,10 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     }
 }
 
+%typemap(typecheck, precedence=SWIG_TYPECHECK_MAP) const std::map<std::string, std::string> * attrNameMap {
+    $1 = PyDict_Check($input) || $input == Py_None;
+}
+
 %feature("autodoc");
 %feature("docstring","Clone a particle set's attribute schema");
 ParticlesDataMutable* cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>* attrNameMap=nullptr);
-- 
2.43.0


From 2f7e7b6c01b50ccc63c39c1d7c54f6dc38de099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 70/97] fix: free clones and clusterings when Python drops them

---
 src/py/partio.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 4d03709..c55676e 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -596,6 +596,7 @@ void print(const ParticlesData* particles);
 
 %feature("autodoc");
 %feature("docstring","Creates a clustered particle set");
+%newobject computeClustering;
 ParticlesDataMutable* computeClustering(ParticlesDataMutable* particles,const int numNeighbors,const double radiusSearch,const double radiusInside,const int connections,const double density)=0;
 
 %feature("autodoc");
@@ -652,10 +653,12 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set's attribute schema");
+%newobject cloneSchema;
 ParticlesDataMutable* cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set");
+%newobject clone;
 ParticlesDataMutable* clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
-- 
2.43.0


From 28144f1d455c1ab91e92425d97a2fb6ecbab4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 71/97] fix: let partinfo ask for a file when only flags are
 given

---
 src/tools/partinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/partinfo.cpp b/src/tools/partinfo.cpp
index ee667c1..7a4d002 100644
--- a/src/tools/partinfo.cpp
+++ b/src/tools/partinfo.cpp
@@ -111,6 +111,10 @@ int main(int argc, char* argv[])
             particleIndices.insert(atoi(argv[i]));
         }
     }
+    if (!filename) {
+        help();
+        return 1;
+    }
     Partio::ParticlesDataMutable* p = Partio::read(filename);
     if (!p) {
         std::cerr << "Unable to read \"" << filename << "\"\n";
-- 
2.43.0


From e9971535d5d54e3175cba3cd7dce72ceffea76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 72/97] fix: let partattr report attributes that are not there

---
 src/tools/partattr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index b8997f6..f8eac66 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -56,7 +56,11 @@ int main(int argc,char *argv[])
     }
 
     Partio::ParticleAttribute attrhandle;
-    p->attributeInfo(attrName.c_str(), attrhandle);
+    if (!p->attributeInfo(attrName.c_str(), attrhandle)) {
+        std::cerr << "No attribute " << attrName << " in " << argv[1] << std::endl;
+        p->release();
+        return 1;
+    }
     maxParticles = std::min(maxParticles, p->numParticles());
 
     if (attrhandle.type == Partio::INT) {
-- 
2.43.0


From da7ea78a0e467b31333d12778e4bcebe22ce5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 73/97] fix: keep partattr inside the table of strings

---
 src/tools/partattr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index f8eac66..31a97c9 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -73,7 +73,10 @@ int main(int argc,char *argv[])
         const std::vector<std::string>& indexedStrs = p->indexedStrs(attrhandle);
         for(int i = 0; i < std::min(maxParticles, p->numParticles());i++){
             const int index = p->data<int>(attrhandle,i)[0];
-            std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
+            if (index >= 0 && index < (int)indexedStrs.size())
+                std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
+            else
+                std::cout << attrName << "[" << i << "]=<out-of-bounds>\n";
        }
     }
     else {
-- 
2.43.0


From a08f12fb40bc9cb5a8f80ce07acde030a7cf9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 74/97] fix: let partconvert fail when it cannot read its input

---
 src/tools/partconvert.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tools/partconvert.cpp b/src/tools/partconvert.cpp
index 6bf50a3..285d4ad 100644
--- a/src/tools/partconvert.cpp
+++ b/src/tools/partconvert.cpp
@@ -42,11 +42,13 @@ int main(int argc,char *argv[])
         return 1;
     }
     Partio::ParticlesData* p=Partio::read(argv[1]);
-    if(p){
-        Partio::print(p);
-        Partio::write(argv[2],*p);
-        p->release();
+    if(!p){
+        std::cerr<<"Cannot read "<<argv[1]<<std::endl;
+        return 1;
     }
-    
+    Partio::print(p);
+    Partio::write(argv[2],*p);
+    p->release();
+
     return 0;
 }
-- 
2.43.0


From 00dd04242924f8fe03434067977a3641f14a915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 75/97] fix: let partjson skip values of unknown attributes

---
 src/tools/partjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index 342253d..b9b8292 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -124,7 +124,7 @@ def fromJson(data):
             for attrName, value in particle.items():
                 try:
                     attr = attributes[attrName]
-                except IndexError:
+                except KeyError:
                     sys.stderr.write('Could not match attribute "{}" for particle {} with any defined attributes. Skipping.\n'.format(attrName, pnum))
                     continue
                 if len(value) != attr.count:
-- 
2.43.0


From b5e988b8951ea4951872a38f77a043d1812eb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 76/97] fix: let partjson report files that cannot be read

---
 src/tools/partjson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index b9b8292..9e68678 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -192,6 +192,9 @@ def main():
     # Convert from partio to json
     if ext1 in partio_extensions:
         particleSet = partio.read(file1, verbose)
+        if not particleSet:
+            sys.stderr.write('Cannot read: {}\n'.format(file1))
+            sys.exit(1)
         data = toJson(particleSet)
         with open(file2, 'w') as fp:
             json.dump(data, fp, indent=2, sort_keys=True)
-- 
2.43.0


From ddb456e9801a5268103f8a3e3d3b3cc9aac4a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:38 +0000
Subject: [PATCH 77/97] fix: keep the normals of ptc files whatever their
 length

The squared length overflowed or vanished in single precision for long or
short normals, and an undefined value was written.
---
 src/lib/io/PTC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 6978520..a4859c9 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -347,7 +347,8 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
 	int phi, z;
 	if (n[0] == 0 && n[1] == 0 && n[2] == 0) phi = z = 65535;
 	else {
-            float mag_squared=n[0]*n[0]+n[1]*n[1]+n[2]*n[2];
+            // squares of large or small components do not fit a float
+            double mag_squared=(double)n[0]*n[0]+(double)n[1]*n[1]+(double)n[2]*n[2];
 	    phi = int((atan2(n[0], n[1]) * (1/(2*M_PI)) + 0.5) * 65535 + 0.5);
 	    z = std::min(int((n[2]/sqrt(mag_squared)+1)/2 * 65535 + 0.5), 65535);
             // phi is redundent when z == 65535; avoid the special value.
-- 
2.43.0


From 6088fc90f6bf36e0b0ddc3dcb4607c89396e05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:38 +0000
Subject: [PATCH 78/97] fix: do not take the carriage return of a pts line for
 a value

A blank before the end of a line in a file with CRLF line ends added a
column, so the attributes were guessed wrong.
---
 src/lib/io/PTS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 81e3afe..b2e6571 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -82,9 +82,9 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     int valcount = 0;
 	char * nextLine = NULL;
 #ifdef PARTIO_WIN32
-    char * pch = strtok_s( line, "\t ", &nextLine );
+    char * pch = strtok_s( line, "\t \r", &nextLine );
 #else
-	char * pch = strtok_r( line, "\t ", &nextLine );
+	char * pch = strtok_r( line, "\t \r", &nextLine );
 #endif
     while ( pch )
     {
@@ -93,9 +93,9 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             valcount++;
         }
 #ifdef PARTIO_WIN32
-        pch = strtok_s( NULL, "\t ", &nextLine );
+        pch = strtok_s( NULL, "\t \r", &nextLine );
 #else
-		pch = strtok_r( NULL, "\t ", &nextLine );
+		pch = strtok_r( NULL, "\t \r", &nextLine );
 #endif
     }
 
-- 
2.43.0


From 9000fd3a90f6fcee7af6f29574baa6671ac5bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:38 +0000
Subject: [PATCH 79/97] fix: let a particle set be merged with itself

The loop over the delta never ended, as it grew with the base.
---
 src/lib/core/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 2b11303..b5d8178 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -610,7 +610,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     bool hasIdentifier = (baseHasIdentifier0 && deltaHasIdentifier0) || (baseHasIdentifier1 && deltaHasIdentifier1);
     // just append if there are mismatched attributes
     hasIdentifier = hasIdentifier && !((baseHasIdentifier0 ^ deltaHasIdentifier0) || (baseHasIdentifier1 ^ deltaHasIdentifier1));
-    for (int i=0; i<delta.numParticles(); ++i) {
+    const int numDeltaParticles = delta.numParticles(); // grows if delta is the base
+    for (int i=0; i<numDeltaParticles; ++i) {
 
         // Grab index into base particle set - either existing or new
         int index(-1);
-- 
2.43.0


From 4d52379bbd04263de6262d28fcda9227002ef7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:38 +0000
Subject: [PATCH 80/97] fix: clone sets with name maps that give two attributes
 one name

The attribute that could not be added was written to all the same. As with
cloneSchema, the first one stays.
---
 src/lib/core/Particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b5d8178..3b5fa9e 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -115,8 +115,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
 
         dstFixedAttr = p->addFixedAttribute(
             getMappedName(srcFixedAttr.name, attrNameMap).c_str(), srcFixedAttr.type, srcFixedAttr.count);
-        assert(srcFixedAttr.type == dstFixedAttr.type);
-        assert(srcFixedAttr.count == dstFixedAttr.count);
+        if (dstFixedAttr.attributeIndex < 0) continue; // name already taken
         // Register indexed strings
         if (srcFixedAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.fixedIndexedStrs(srcFixedAttr);
@@ -145,6 +144,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
     for (int i = 0; i < numAttributes; ++i) {
         other.attributeInfo(i, srcAttr);
         dstAttr = p->addAttribute(getMappedName(srcAttr.name, attrNameMap).c_str(), srcAttr.type, srcAttr.count);
+        if (dstAttr.attributeIndex < 0) continue; // name already taken
         // Register indexed strings
         if (srcAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.indexedStrs(srcAttr);
-- 
2.43.0


From db53c9bd4143e43ecbe2b0fede6c14d847fc5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:38 +0000
Subject: [PATCH 81/97] fix: bound the memory nearest neighbor searches take by
 the points there are

A negative number of points threw, a large one took memory for all of them.
---
 src/lib/core/KdTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/KdTree.h b/src/lib/core/KdTree.h
index 1fa94f3..0c3ba72 100644
--- a/src/lib/core/KdTree.h
+++ b/src/lib/core/KdTree.h
@@ -351,10 +351,11 @@ template <int k>
 float KdTree<k>::findNPoints(std::vector<uint64_t>& result,
     std::vector<float>& distanceSquared,const float p[k],int nPoints,float maxRadius) const
 {
+    nPoints = std::max(0, std::min(nPoints, size())); // at most all points are found
     result.resize(nPoints);
     distanceSquared.resize (nPoints);
     float finalRadius2 = maxRadius;
-    int size = findNPoints (&result[0], &distanceSquared[0], &finalRadius2, p, nPoints, maxRadius);
+    int size = findNPoints (result.data(), distanceSquared.data(), &finalRadius2, p, nPoints, maxRadius);
     result.resize(size);
     distanceSquared.resize(size);
     return maxRadius;
-- 
2.43.0


From c949eaef516c77ebf530ac8bfb877f8eecb999e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:04 +0000
Subject: [PATCH 82/97] fix: survive Python sequences whose items cannot be
 fetched

The missing item was used all the same and crashed the interpreter.
---
 src/py/partio.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index c55676e..7c14951 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -138,6 +138,7 @@ public:
     $1.count=size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
+        if(!o) return NULL;
         if(!PyFloat_Check(o)){
             Py_XDECREF(o);
             PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats");
@@ -387,6 +388,7 @@ public:
             if (p) {
                 for(int i=0;i<size;i++){
                     PyObject* o=PySequence_GetItem(tuple,i);
+                    if(!o) return NULL;
                     if(PyInt_Check(o)){
                         p[i]=PyInt_AsLong(o);
                     }else{
@@ -402,6 +404,7 @@ public:
             if (p) {
                 for(int i=0;i<size;i++){
                     PyObject* o=PySequence_GetItem(tuple,i);
+                    if(!o) return NULL;
                     //fprintf(stderr,"checking %d\n",i);
                     if(PyFloat_Check(o)){
                         p[i]=PyFloat_AsDouble(o);
@@ -443,6 +446,7 @@ public:
             int* p=$self->fixedDataWrite<int>(attr);
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
                 if(PyInt_Check(o)){
                     p[i]=PyInt_AsLong(o);
                 }else{
@@ -456,6 +460,7 @@ public:
             float* p=$self->fixedDataWrite<float>(attr);
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
                 //fprintf(stderr,"checking %d\n",i);
                 if(PyFloat_Check(o)){
                     p[i]=PyFloat_AsDouble(o);
-- 
2.43.0


From 933c6457e2c16a46542ff516680f5a59c28cbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:04 +0000
Subject: [PATCH 83/97] fix: raise Python exceptions for names that are None,
 negative counts and C++ exceptions

Each of them ended the interpreter.
---
 src/py/partio.i | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 7c14951..2733a7a 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -119,10 +119,23 @@ public:
 
 // Functions set an error and still return something, raise it
 %exception {
-    $action
+    try {
+        $action
+    } catch(const std::exception& e) {
+        SWIG_exception_fail(SWIG_RuntimeError,e.what());
+    }
     if(PyErr_Occurred()) SWIG_fail;
 }
 
+// None is no name, and no particle set
+%typemap(check) const char*, ParticlesDataMutable* particles, const ParticlesData* particles {
+    if(!$1) SWIG_exception_fail(SWIG_ValueError,"Argument $argnum must not be None");
+}
+
+%typemap(check) const int count {
+    if($1<0) SWIG_exception_fail(SWIG_ValueError,"Negative count");
+}
+
 %typemap(in) fixedFloatArray
 {
     int i;
-- 
2.43.0


From c06d600c3341158c6f175cfc7513f861de5e800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 84/97] fix: let readHeadersVerbose return headers, and any
 message

The headers were passed off as a full set, whose methods then ended the
interpreter, and messages that are not UTF-8 raised an exception.
---
 src/py/partio.i | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 2733a7a..070f23f 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -566,11 +566,11 @@ ParticlesDataMutable* create();
 ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream& error=std::cerr);
 
 %inline %{
-    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss){
+    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss,swig_type_info* type=SWIGTYPE_p_ParticlesDataMutable){
         PyObject* tuple=PyTuple_New(2);
-        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), SWIGTYPE_p_ParticlesDataMutable, SWIG_POINTER_OWN);
+        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), type, SWIG_POINTER_OWN);
         PyTuple_SetItem(tuple,0,instance);
-        PyTuple_SetItem(tuple,1,PyString_FromString(ss.str().c_str()));
+        PyTuple_SetItem(tuple,1,SWIG_From_std_string(ss.str()));
         return tuple;
     }
 %}
@@ -587,7 +587,7 @@ ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream&
     PyObject* readHeadersVerbose(const char* filename){
         std::stringstream ss;
         ParticlesInfo* ptr=readHeaders(filename,true,ss); 
-        return readHelper(ptr,ss);
+        return readHelper(ptr,ss,SWIGTYPE_p_ParticlesInfo); // no particles to read or write
     }
 %}
 %feature("docstring","Reads the header/attribute information from disk and returns the tuple particleObject,errorMsg");
-- 
2.43.0


From aca9159275125f4836fe8e2148005ede14cf09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:40 +0000
Subject: [PATCH 85/97] fix: raise an exception for name maps that cannot be
 encoded, and for methods called on None

They crashed the interpreter; encoded names were also never freed.
---
 src/py/partio.i | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 070f23f..34472d7 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -128,7 +128,7 @@ public:
 }
 
 // None is no name, and no particle set
-%typemap(check) const char*, ParticlesDataMutable* particles, const ParticlesData* particles {
+%typemap(check) const char*, ParticlesDataMutable* particles, const ParticlesData* particles, SWIGTYPE* self {
     if(!$1) SWIG_exception_fail(SWIG_ValueError,"Argument $argnum must not be None");
 }
 
@@ -648,15 +648,23 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
             std::string key_str;
             if (PyBytes_Check(key))
                 key_str = PyBytes_AsString(key);
-            else if (PyUnicode_Check(key))
-                key_str = PyBytes_AsString(PyUnicode_AsUTF8String(key));
+            else if (PyUnicode_Check(key)) {
+                PyObject *utf8 = PyUnicode_AsUTF8String(key);
+                if (!utf8) SWIG_fail;
+                key_str = PyBytes_AsString(utf8);
+                Py_DECREF(utf8);
+            }
             if (key_str.empty())
                 continue;
             std::string value_str;
             if (PyBytes_Check(value))
                 value_str = PyBytes_AsString(value);
-            else if (PyUnicode_Check(value))
-                value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
+            else if (PyUnicode_Check(value)) {
+                PyObject *utf8 = PyUnicode_AsUTF8String(value);
+                if (!utf8) SWIG_fail;
+                value_str = PyBytes_AsString(utf8);
+                Py_DECREF(utf8);
+            }
             temp[std::move(key_str)] = std::move(value_str);
         }
         $1 = &temp;
-- 
2.43.0


From 602f640310885599210c7fed99db934d8514dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 86/97] fix: read zip members whose sizes follow their data

Their local headers hold zeros, so they read as empty. The central directory
has the sizes of all members.
---
 src/lib/io/ZIP.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index db6a9e1..ba090a9 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -249,7 +249,7 @@ class ZipStreambufDecompress:public std::streambuf
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
-    ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input)
+    ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input,const ZipFileHeader* central_header=0)
         :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true),inflating(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
@@ -258,6 +258,9 @@ public:
         // skip the header
         if(part_of_zip_file){
             valid=header.Read(istream,false);
+            if(central_header){ // the local one need not know the sizes
+                header.compressed_size=central_header->compressed_size;
+                header.uncompressed_size=central_header->uncompressed_size;}
             if(header.compression_type==DEFLATE) compressed_data=true;
             else if(header.compression_type==UNCOMPRESSED) compressed_data=false;
             else{
@@ -432,8 +435,8 @@ class ZIP_FILE_ISTREAM:public std::istream
 {
     ZipStreambufDecompress buf;
 public:
-    ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file)
-        :std::istream(&buf),buf(istream,part_of_zip_file)
+    ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file,const ZipFileHeader* central_header=0)
+        :std::istream(&buf),buf(istream,part_of_zip_file,central_header)
     {}
 
     virtual ~ZIP_FILE_ISTREAM()
@@ -578,7 +581,7 @@ std::istream* ZipFileReader::Get_File(const std::string& filename,const bool)
     std::map<std::string,ZipFileHeader*>::iterator i=filename_to_header.find(filename);
     if(i!=filename_to_header.end()){
         ZipFileHeader* header=i->second;
-        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,true);
+        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,true,header);
     }
     return 0;
 }
-- 
2.43.0


From 40d6eb1ea0d64fe523dbc93daf7624e6e1bf51fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:18 +0000
Subject: [PATCH 87/97] fix: keep the indices of renamed strings when cloning

---
 src/lib/core/Particle.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 3b5fa9e..1df3a25 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -104,6 +104,30 @@ cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>
     return p;
 }
 
+// Adds the strings of an attribute to one that has none. Renaming can leave several indices
+// with the same string, which are not to be shared for all indices to stay what they are.
+static void
+copyIndexedStrs(const std::vector<std::string>& strings, ParticlesDataMutable* p, const ParticleAttribute& attr)
+{
+    for (int i = 0, iend = strings.size(); i < iend; ++i) {
+        if (p->registerIndexedStr(attr, strings[i].c_str()) == i) continue;
+        std::string unused = strings[i];
+        while (p->lookupIndexedStr(attr, unused.c_str()) >= 0) unused += '_';
+        p->setIndexedStr(attr, p->registerIndexedStr(attr, unused.c_str()), strings[i].c_str());
+    }
+}
+
+static void
+copyFixedIndexedStrs(const std::vector<std::string>& strings, ParticlesDataMutable* p, const FixedAttribute& attr)
+{
+    for (int i = 0, iend = strings.size(); i < iend; ++i) {
+        if (p->registerFixedIndexedStr(attr, strings[i].c_str()) == i) continue;
+        std::string unused = strings[i];
+        while (p->lookupFixedIndexedStr(attr, unused.c_str()) >= 0) unused += '_';
+        p->setFixedIndexedStr(attr, p->registerFixedIndexedStr(attr, unused.c_str()), strings[i].c_str());
+    }
+}
+
 ParticlesDataMutable*
 clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap)
 {
@@ -118,10 +142,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         if (dstFixedAttr.attributeIndex < 0) continue; // name already taken
         // Register indexed strings
         if (srcFixedAttr.type == Partio::INDEXEDSTR) {
-            const std::vector<std::string>& values = other.fixedIndexedStrs(srcFixedAttr);
-            for (int j = 0, jend = values.size(); j < jend; ++j) {
-                p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str());
-            }
+            copyFixedIndexedStrs(other.fixedIndexedStrs(srcFixedAttr), p, dstFixedAttr);
         }
         // Copy fixed data
         const void* src = other.fixedData<void>(srcFixedAttr);
@@ -147,10 +168,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         if (dstAttr.attributeIndex < 0) continue; // name already taken
         // Register indexed strings
         if (srcAttr.type == Partio::INDEXEDSTR) {
-            const std::vector<std::string>& values = other.indexedStrs(srcAttr);
-            for (int m = 0, mend = values.size(); m < mend; ++m) {
-                p->registerIndexedStr(dstAttr, values[m].c_str());
-            }
+            copyIndexedStrs(other.indexedStrs(srcAttr), p, dstAttr);
         }
         size_t size = Partio::TypeSize(srcAttr.type) * srcAttr.count;
 
-- 
2.43.0


From 7132e2c33769e75fef3b5ab8e11749350deb1624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:18 +0000
Subject: [PATCH 88/97] fix: keep the indices of renamed strings when
 clustering

---
 src/lib/core/Particle.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 1df3a25..c62c210 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -371,10 +371,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
             attributes.push_back(attr);
             clusterAttributes.push_back(cluster->addAttribute(attr.name.c_str(),attr.type,attr.count));
             if (attr.type == Partio::INDEXEDSTR) {
-                const std::vector<std::string>& strings = particles->indexedStrs(attr);
-                for (size_t j=0; j<strings.size(); j++) {
-                    cluster->registerIndexedStr(clusterAttributes.back(),strings[j].c_str());
-                }
+                copyIndexedStrs(particles->indexedStrs(attr),cluster,clusterAttributes.back());
             }
             if (attr.name == "position") {
                 posAttr = attr;
-- 
2.43.0


From c34ccd1e34d746b028a35ef23f61c1858ddfa42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:18 +0000
Subject: [PATCH 89/97] fix: read GEO files that list a string more than once

---
 src/lib/io/GEO.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index d010751..24f6c0b 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -130,9 +130,11 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
 
     vector<ParticleAttribute> attrs;
     vector<ParticleAccessor> accessors;
+    vector<vector<int> > tokens; // of the strings of each attribute, which can be listed more than once
     while (input->good() && attrInfoRead < NPointAttrib) {
         string attrName, attrType;
         int nvals = 0;
+        tokens.push_back(vector<int>());
         *input >> attrName >> nvals >> attrType;
         if(!*input || nvals<0){
             if(errorStream) *errorStream<<"Partio: damaged attribute description in "<<filename<<endl;
@@ -155,10 +157,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 //*input>>indexName;
                 indexName=scanString(*input);
                 if (!headersOnly) {
-                    int id=simple->registerIndexedStr(attribute,indexName.c_str());
-                    if(id != j){
-                        if(errorStream) *errorStream<<"Partio: error on read, expected registerIndexStr to return index "<<j<<" but got "<<id<<" for string "<<indexName<<endl;
-                    }
+                    tokens.back().push_back(simple->registerIndexedStr(attribute,indexName.c_str()));
                 }
                 nIndicesRead++;
             }
@@ -232,7 +231,13 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 case FLOAT: readGeoAttr<FLOAT>(*input,attrs[i],accessors[i],iterator);break;
                 case VECTOR: readGeoAttr<VECTOR>(*input,attrs[i],accessors[i],iterator);break;
                 case INT: readGeoAttr<INT>(*input,attrs[i],accessors[i],iterator);break;
-                case INDEXEDSTR: readGeoAttr<INDEXEDSTR>(*input,attrs[i],accessors[i],iterator);break;
+                case INDEXEDSTR:
+                    readGeoAttr<INDEXEDSTR>(*input,attrs[i],accessors[i],iterator);
+                    for(int k=0;k<attrs[i].count;k++){
+                        int& value=accessors[i].raw<int>(iterator)[k];
+                        if(value>=0 && value<(int)tokens[i].size()) value=tokens[i][value];
+                    }
+                    break;
             }
         }
         // skip closing parenthes
-- 
2.43.0


From 70c5aff5b484ae26587754299361b8b1c28831ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:18 +0000
Subject: [PATCH 90/97] fix: read BGEO files that list a string more than once

---
 src/lib/io/BGEO.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 64bc86b..173335e 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -83,10 +83,12 @@ struct DummyAccessor{
 };
 
 template<class TAttribute, class TAccessor>
-bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
+bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, vector<vector<int> >& tokens, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
 {
     Helper<TAttribute> helper;
+    tokens.resize(attrHandles.size()); // of the strings of each attribute, which can be listed more than once
     for(int i=0;i<nAttrib;i++){
+        tokens.push_back(vector<int>());
         unsigned short nameLength=0;
         read<BIGEND>(*input,nameLength);
         char* name=new char[nameLength+1];
@@ -137,10 +139,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
                 input->read(indexName,indexNameLength);
                 indexName[indexNameLength]=0;
                 if (!headersOnly) {
-                    int id=helper.registerIndexedStr(simple,attribute,indexName);
-                    if(id != ii){
-                        if(errorStream) *errorStream <<"Partio: error on read, expected registerIndexStr to return index "<<ii<<" but got "<<id<<" for string "<<indexName<<std::endl;
-                    }
+                    tokens.back().push_back(helper.registerIndexedStr(simple,attribute,indexName));
                 }
                 delete [] indexName;
             }
@@ -164,6 +163,12 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
     return true;
 }
 
+// index of a string of the file among the strings that were read
+int getToken(const vector<int>& tokens,int index)
+{
+    return index>=0 && index<(int)tokens.size() ? tokens[index] : index;
+}
+
 // read buffer, seekg doesn't work with gzip
 void skip(istream *input, size_t numChars)
 {
@@ -183,7 +188,8 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
+    vector<vector<int> > primTokens;
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, primTokens, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
         int primType=0;
@@ -267,7 +273,8 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream)){
+    vector<vector<int> > tokens;
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, tokens, nPointAttrib, input.get(), simple, headersOnly, errorStream)){
         simple->release();
         return 0;
     }
@@ -293,7 +300,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
                 int* data=accessor.raw<int>(iterator);
                 for(int k=0;k<handle.count;k++){
                     BIGEND::swap(buffer[attrOffsets[attrIndex]+k]);
-                    data[k]=buffer[attrOffsets[attrIndex]+k];
+                    data[k]=getToken(tokens[attrIndex],buffer[attrOffsets[attrIndex]+k]);
                 }
             }
         }
@@ -317,7 +324,8 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream)){
+    vector<vector<int> > fixedTokens;
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, fixedTokens, nAttrib, input.get(), simple, headersOnly, errorStream)){
         simple->release();
         return 0;
     }
@@ -339,7 +347,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         // a different endian swapper
         for(int k=0;k<handle.count;k++){
             BIGEND::swap(fixedBuffer[fixedAttrOffsets[attrIndex]+k]);
-            simple->fixedDataWrite<int>(fixedAttrHandles[attrIndex])[k]=fixedBuffer[fixedAttrOffsets[attrIndex]+k];
+            simple->fixedDataWrite<int>(fixedAttrHandles[attrIndex])[k]=getToken(fixedTokens[attrIndex],fixedBuffer[fixedAttrOffsets[attrIndex]+k]);
         }
     }
     delete [] fixedBuffer;
-- 
2.43.0


From dacd38e43b347c505d7800be5ec90ebadc4a6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:18 +0000
Subject: [PATCH 91/97] fix: keep the indices of strings that a description
 lists more than once

---
 src/tools/partjson.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index 9e68678..2a3cfb7 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -73,6 +73,19 @@ def toJson(particleSet):
     return data
 
 
+def registerStrings(strings, attr, register, lookup, rename):
+    ''' Registers strings so that they get the indices they have in the list.
+        The list can hold a string more than once.
+    '''
+    for i, string in enumerate(strings):
+        if register(attr, string) == i:
+            continue
+        unused = string
+        while lookup(attr, unused) >= 0:
+            unused += '_'
+        rename(attr, register(attr, unused), string)
+
+
 def fromJson(data):
     """ Converts a json dictionary to a particle set """
 
@@ -104,8 +117,8 @@ def fromJson(data):
             if attrName not in fixedAttributes:
                 sys.stderr.write('Could not match fixed indexed string {} with any defined fixed attribute. Skipping.\n'.format(attrName))
                 continue
-            for string in strings:
-                particleSet.registerFixedIndexedStr(fixedAttributes[attrName], string)
+            registerStrings(strings, fixedAttributes[attrName], particleSet.registerFixedIndexedStr,
+                            particleSet.lookupFixedIndexedStr, particleSet.setFixedIndexedStr)
 
     # Convert indexed strings
     if 'indexedStrings' in data:
@@ -113,8 +126,8 @@ def fromJson(data):
             if attrName not in attributes:
                 sys.stderr.write('Could not match indexed string {} with any defined attribute. Skipping.\n'.format(attrName))
                 continue
-            for string in strings:
-                particleSet.registerIndexedStr(attributes[attrName], str(string))
+            registerStrings([str(string) for string in strings], attributes[attrName], particleSet.registerIndexedStr,
+                            particleSet.lookupIndexedStr, particleSet.setIndexedStr)
 
     # Convert particles
     if 'particles' in data:
-- 
2.43.0


From f2b9e5e2e6c148b30a5efdad66ca453ae72d096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:48 +0000
Subject: [PATCH 92/97] fix: let partattr show attributes of no values

---
 src/tools/partattr.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index 31a97c9..faf1828 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -66,14 +66,18 @@ int main(int argc,char *argv[])
     if (attrhandle.type == Partio::INT) {
         for(int i = 0; i < maxParticles; i++){
             const int* data = p->data<int>(attrhandle,i);
-            std::cout << attrName << "[" << i << "]=" << data[0] << std::endl;
+            std::cout << attrName << "[" << i << "]=";
+            if (attrhandle.count > 0) std::cout << data[0];
+            std::cout << std::endl;
         }
     }
     else if (attrhandle.type == Partio::INDEXEDSTR){
         const std::vector<std::string>& indexedStrs = p->indexedStrs(attrhandle);
         for(int i = 0; i < std::min(maxParticles, p->numParticles());i++){
-            const int index = p->data<int>(attrhandle,i)[0];
-            if (index >= 0 && index < (int)indexedStrs.size())
+            const int index = attrhandle.count > 0 ? p->data<int>(attrhandle,i)[0] : -1;
+            if (attrhandle.count == 0)
+                std::cout << attrName << "[" << i << "]=\n";
+            else if (index >= 0 && index < (int)indexedStrs.size())
                 std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
             else
                 std::cout << attrName << "[" << i << "]=<out-of-bounds>\n";
-- 
2.43.0


From 4fe8d69780d3eafd8e8703e88d6de88879d23559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:48 +0000
Subject: [PATCH 93/97] fix: do not read past attributes of no values when
 writing PDA files

---
 src/lib/io/PDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 5bf205a..6157f38 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -209,11 +209,11 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
             if(attrs[attrIndex].type==Partio::INT || attrs[attrIndex].type==Partio::INDEXEDSTR){
                 const int* data=p.data<int>(attrs[attrIndex],particleIndex);
                 for(int count=0;count<numValues;count++)
-                    *output<<data[count]<<" ";
+                    *output<<(count<attrs[attrIndex].count ? data[count] : 0)<<" ";
             }else if(attrs[attrIndex].type==Partio::FLOAT || attrs[attrIndex].type==Partio::VECTOR){
                 const float* data=p.data<float>(attrs[attrIndex],particleIndex);
                 for(int count=0;count<numValues;count++)
-                    *output<<data[count]<<" ";
+                    *output<<(count<attrs[attrIndex].count ? data[count] : 0.f)<<" ";
             }
         }
         *output<<endl;
-- 
2.43.0


From 31f879c884ae146b868d3fccdea084131a827bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:48 +0000
Subject: [PATCH 94/97] fix: do not read past attributes of no values when
 writing PDC files

---
 src/lib/io/PDC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index fd2ee5f..22d0801 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -174,12 +174,12 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
         // write data
         for(int partIndex = 0; partIndex < p.numParticles(); partIndex++){
             if(attr.type == INT || attr.type == INDEXEDSTR){
-                write<BIGEND>(*output, (double)*p.data<int>(attr, partIndex));
+                write<BIGEND>(*output, attr.count > 0 ? (double)*p.data<int>(attr, partIndex) : 0.);
                 continue;
             }
             const float* data = p.data<float>(attr, partIndex);
             for(int dim = 0; dim < count; dim++){
-                write<BIGEND>(*output, (double)data[dim]);
+                write<BIGEND>(*output, dim < attr.count ? (double)data[dim] : 0.);
             }
         }
     }
-- 
2.43.0


From bffb02c3b4ab3b163f518bacd1d2b7cc19486d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:48 +0000
Subject: [PATCH 95/97] fix: do not free attributes of no values twice

---
 src/lib/core/ParticleSimple.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index d968a10..c2b1a64 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -263,8 +263,9 @@ addParticle()
     if(allocatedCount==particleCount){
         allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
         for(unsigned int i=0;i<attributes.size();i++) {
-            char *memory = (char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
-            if(memory){
+            const size_t size = (size_t)attributeStrides[i]*(size_t)allocatedCount;
+            char *memory = (char*)realloc(attributeData[i],size);
+            if(memory || size==0){ // no bytes: what was there has been freed
                 attributeData[i]=memory;
             }
         }
-- 
2.43.0


From 541d0e438bfbef0a176b5aac0715d337e51c5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:57 +0000
Subject: [PATCH 96/97] fix: refuse PDA files with attributes of unknown type

---
 src/lib/io/PDA.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 6157f38..024a6af 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -90,6 +90,10 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
             attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::FLOAT,1));
         }else if(word=="I"){
             attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::INT,1));
+        }else{
+            if(errorStream) *errorStream<<"Partio: unknown type '"<<word<<"' of attribute '"<<attrNames[index]<<"', aborting"<<endl;
+            simple->release();
+            return 0;
         }
 
         if(!attrs.empty() && attrs.back().attributeIndex<0){
-- 
2.43.0


From 74708cf570bf52d327ec6b5b8ab04af077a96029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:57 +0000
Subject: [PATCH 97/97] fix: take back strings that are not valid UTF-8 in the
 Python module

---
 src/py/partio.i | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 34472d7..86a143b 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -127,6 +127,23 @@ public:
     if(PyErr_Occurred()) SWIG_fail;
 }
 
+// Strings that are not valid UTF-8 are given out with surrogate escapes, take them back
+%typemap(in) const char* (PyObject* bytes=0) {
+    if(PyUnicode_Check($input)){
+        bytes=PyUnicode_AsEncodedString($input,"utf-8","surrogateescape");
+        if(!bytes) SWIG_fail;
+        $1=PyBytes_AsString(bytes);
+    }else if($input!=Py_None){
+        SWIG_exception_fail(SWIG_TypeError,"Argument $argnum must be a string");
+    }
+}
+%typemap(freearg) const char* {
+    Py_XDECREF(bytes$argnum);
+}
+%typemap(typecheck,precedence=SWIG_TYPECHECK_STRING) const char* {
+    $1=PyUnicode_Check($input) || $input==Py_None;
+}
+
 // None is no name, and no particle set
 %typemap(check) const char*, ParticlesDataMutable* particles, const ParticlesData* particles, SWIGTYPE* self {
     if(!$1) SWIG_exception_fail(SWIG_ValueError,"Argument $argnum must not be None");
-- 
2.43.0

