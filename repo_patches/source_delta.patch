From 7c79d91b34b0d55fee6813f2e874dabad6a89198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/14] fix: visit a node of an unbalanced hierarchy only after
 all of its children

setPath appended a node to the path as soon as its first child was met, so
in an unbalanced tree it was processed with an incomplete size, and the walk
stopped at the root before the remaining nodes were linked to their parents.
---
 src/lpaggreg/sources/hvalues.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 85c3951..94c098b 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -20,14 +20,20 @@ void lpaggreg::HValuesMetaData::setPath()
     for (int h=leaveSize; h<hsize; h++){
         children.push_back(vector<int>());
     }
+    vector<int> pending(hsize, 0);
+    for (int h=0; h<hsize; h++){
+        if (parents[h]!=-1){
+            pending[parents[h]]++;
+        }
+    }
     for (int i=0; parents[path[i]]!=-1; i++){
-        if (size.count(parents[path[i]])) {
-            size[parents[path[i]]]+=size[path[i]];
-        }else{
-            path.push_back(parents[path[i]]);
-            size[parents[path[i]]]=size[path[i]];
+        int parent=parents[path[i]];
+        size[parent]+=size[path[i]];
+        children[parent].push_back(path[i]);
+        pending[parent]--;
+        if (pending[parent]==0){
+            path.push_back(parent);
         }
-        children[parents[path[i]]].push_back(path[i]);
     }
     root=path[path.size()-1];
 }
-- 
2.43.0


From ed2d01e539d8ec4000e30eba64bb8b0fe13037e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 02/14] fix: aggregate the leaves below the part's own node

subSum started at the root and, at every level, went down into the children
of the part's node: it never ended for a part that is not a leaf's parent and
missed leaf parts. It also iterated over a member of a destroyed temporary.
---
 src/lpaggreg/sources/daggregationn.cpp | 21 ++++++++++---------
 src/lpaggreg/sources/haggregationn.cpp | 28 +++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index a4bdb6a..3b35b69 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -10,7 +10,7 @@ void lpaggreg::DAggregateN2::compute()
 {
     sum=0;
     for (int o=part.getStart(); o<=part.getEnd();o++){
-        sum+=subSum(values->getMetaData().getRoot(), o);
+        sum+=subSum(part.getH(), o);
     }
     mean=sum/part.getSize();
 }
@@ -21,8 +21,9 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, o);
     }
     return sum_t;
 }
@@ -48,7 +49,7 @@ void lpaggreg::DAggregateN3::compute()
         sum.push_back(0);
         mean.push_back(0);
         for (int o=part.getStart(); o<=part.getEnd();o++){
-            sum[i]+=subSum(values->getMetaData().getRoot(), i, o);
+            sum[i]+=subSum(part.getH(), i, o);
         }
         mean[i]=sum[i]/part.getSize();
     }
@@ -60,8 +61,9 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, o);
     }
     return sum_t;
 }
@@ -90,7 +92,7 @@ void lpaggreg::DAggregateN4::compute()
             sum[i].push_back(0);
             mean[i].push_back(0);
             for (int o=part.getStart(); o<=part.getEnd();o++){
-                sum[i][j]+=subSum(values->getMetaData().getRoot(), i, j, o);
+                sum[i][j]+=subSum(part.getH(), i, j, o);
             }
             mean[i][j]=sum[i][j]/part.getSize();
         }
@@ -103,8 +105,9 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
 }
diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index 61790b8..d92ff0f 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -8,7 +8,7 @@ lpaggreg::HAggregateN1::HAggregateN1(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN1::compute()
 {
     sum=0;
-    sum=subSum(values->getMetaData().getRoot());
+    sum=subSum(part.getH());
     mean=sum/part.getSize();
 }
 
@@ -18,8 +18,9 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child);
     }
     return sum_t;
 }
@@ -42,7 +43,7 @@ lpaggreg::HAggregateN2::HAggregateN2(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN2::compute()
 {
     for (int i=0; i<values->getVsize(); i++){
-        sum.push_back(subSum(values->getMetaData().getRoot(), i));
+        sum.push_back(subSum(part.getH(), i));
         mean.push_back(sum[i]/part.getSize());
     }
 }
@@ -53,8 +54,9 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i);
     }
     return sum_t;
 }
@@ -80,7 +82,7 @@ void lpaggreg::HAggregateN3::compute()
         sum.push_back(vector<double>());
         mean.push_back(vector<double>());
         for (int j=0; j<values->getJ(); j++){
-            sum[i].push_back(subSum(values->getMetaData().getRoot(), i, j));
+            sum[i].push_back(subSum(part.getH(), i, j));
             mean[i].push_back(sum[i][j]/part.getSize());
         }
     }
@@ -92,8 +94,9 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j);
     }
     return sum_t;
 }
@@ -122,7 +125,7 @@ void lpaggreg::HAggregateN4::compute()
             sum[i].push_back(vector<double>());
             mean[i].push_back(vector<double>());
             for (int k=0; k<values->getK(); k++){
-                sum[i][j].push_back(subSum(values->getMetaData().getRoot(), i, j, k));
+                sum[i][j].push_back(subSum(part.getH(), i, j, k));
                 mean[i][j].push_back(sum[i][j][k]/part.getSize());
             }
         }
@@ -135,8 +138,9 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, k);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
 }
-- 
2.43.0


From 184c33f3be644e22936fb296b12a5cf90f98dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 03/14] fix: compare the losses in the approximate equality of
 qualities

---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 2187cc6..b831e8a 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -89,7 +89,7 @@ bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &qualit
     lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
-            (std::abs(quality1.getGain()-quality2.getGain())<precision));
+            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
 }
 
 bool lpaggreg::operator!=(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
-- 
2.43.0


From c8b4782ae55835d71c7f67f0b6ceefcfccf93a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 04/14] fix: normalize qualities supplied by the caller

normalize dereferenced the values, which are null for an OQualities or
DQualities built from existing qualities.
---
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f7f9031..7f3cf28 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=(*max);
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index e1387c5..5ef5513 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, values->getOsize()-1);
+    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=(*max);
     }
-- 
2.43.0


From e49f966af75abe024a448eef236370002f8f17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 05/14] fix: normalize every quality by the original quality of
 the whole

The divisor was the whole's own quality object, which becomes 1 when its turn
comes: regions processed after a root that is not the last node kept their
values.
---
 src/lpaggreg/sources/dqualities.cpp | 4 ++--
 src/lpaggreg/sources/hqualities.cpp | 4 ++--
 src/lpaggreg/sources/oqualities.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 7f3cf28..5f8e6d0 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,10 +12,10 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1);
+    Quality max=*((*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1));
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=(*max);
+            *((*((*qualities)[h]))[i])/=max;
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index b0fd4f4..76a3033 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -13,9 +13,9 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 
 void lpaggreg::HQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)[metaData.getRoot()];
+    Quality max=*((*qualities)[metaData.getRoot()]);
     for (auto quality : *qualities){
-        *quality/=*max;
+        *quality/=max;
     }
 }
 
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 5ef5513..319a165 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,9 +12,9 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
+    Quality max=*((*qualities)(0, qualities->getSize()-1));
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=(*max);
+        (*(*qualities)[i])/=max;
     }
 }
 
-- 
2.43.0


From eee311f679fee9d2eec6b8367acdcabafbcc87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 06/14] fix: do not divide by a total gain or loss of zero in
 normalize

---
 src/lpaggreg/sources/dqualities.cpp | 6 ++++++
 src/lpaggreg/sources/hqualities.cpp | 6 ++++++
 src/lpaggreg/sources/oqualities.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 5f8e6d0..98ac015 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -13,6 +13,12 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 void lpaggreg::DQualities::normalize()
 {
     Quality max=*((*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1));
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index 76a3033..4327112 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -14,6 +14,12 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 void lpaggreg::HQualities::normalize()
 {
     Quality max=*((*qualities)[metaData.getRoot()]);
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (auto quality : *qualities){
         *quality/=max;
     }
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 319a165..b9e1309 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -13,6 +13,12 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 void lpaggreg::OQualities::normalize()
 {
     Quality max=*((*qualities)(0, qualities->getSize()-1));
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=max;
     }
-- 
2.43.0


From e6e073569162e3e171b84aa5df7cb401021853b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 07/14] fix: let the left side of a temporal cut be split
 further

The spatiotemporal algorithm overwrote the best trade-off of the left interval
by that of the aggregated interval, so partitions whose left side is split
over the hierarchy were never considered and the result was not optimal.
---
 src/lpaggreg/sources/dpartition.cpp   | 8 ++++----
 src/lpaggreg/sources/dpartitioner.cpp | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index 4850e9f..6028013 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -73,11 +73,11 @@ void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
             int child=metaData.getChildren().operator [](h).operator [](k);
             computeSubPart(child, i, j);
         }
+    }else if (cut<j){
+        computeSubPart(h, i, cut);
+        computeSubPart(h, cut+1, j);
     }else{
-        parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
-        if (cut<j){
-            computeSubPart(h, cut+1, j);
-        }
+        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
     }
 }
 
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0dd319f..c603a37 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -69,7 +69,6 @@ shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(fl
                 }
                 for (int cut_t=i; cut_t<j; cut_t++){
                     shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
-                    ((*(tradeoff[h]))(i, cut_t))->set((*((*qualities)[h]))(i, cut_t), parameter);
                      *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                      *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                     if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
-- 
2.43.0


From a10a6e7c6974693372b834b58d2a89a205b8f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 08/14] fix: presets and AUC before a sweep and with large
 qualities

Before a sweep P_MAX and the AUC accessed an empty list and P_OPT returned an
uninitialized value, which it also did when every score exceeded RAND_MAX.
---
 src/lpaggreg/sources/partitioner.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index f4bc9bb..61ec42b 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -16,7 +16,7 @@ float lpaggreg::Partitioner::getP(int strategy)
     case P_MIN:
         return 0;
     case P_MAX:
-        return pList[pList.size()-1];
+        return pList.empty()?0:pList[pList.size()-1];
     case P_OPT:
         return computePOpt();
     }
@@ -26,7 +26,7 @@ float lpaggreg::Partitioner::getP(int strategy)
 float lpaggreg::Partitioner::computeAUC()
 {
     float auc=0.0;
-    for (int i=0; i<pList.size()-1; i++){
+    for (int i=0; i+1<pList.size(); i++){
         auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;
     }
     return 1.0-auc;
@@ -39,13 +39,15 @@ map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList
 
 float lpaggreg::Partitioner::computePOpt()
 {
-    float popt;
-    lp_quality_type score=RAND_MAX;
+    float popt=0;
+    lp_quality_type score=0;
+    bool first=true;
     for (float p: pList){
         lp_quality_type gain=(qualityList[p])->getGain();
         lp_quality_type loss=(qualityList[p])->getLoss();
         lp_quality_type currentScore=(gain-1)*(gain-1)+loss*loss;
-        if (currentScore<=score){
+        if (first||currentScore<=score){
+            first=false;
             score=currentScore;
             popt=p;
         }
-- 
2.43.0


From 4df7b43e0be0dfad2d3fe94a0b58f14d1b1484c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 09/14] fix: end the dichotomy when no parameter lies between
 the bounds

With a threshold below the distance of neighbouring floats the search called
itself with the same bounds until the stack was exhausted.
---
 src/lpaggreg/sources/dpartitioner.cpp | 3 +++
 src/lpaggreg/sources/hpartitioner.cpp | 3 +++
 src/lpaggreg/sources/opartitioner.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index c603a37..10bd16c 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -104,6 +104,9 @@ void lpaggreg::DPartitioner::addBestQualities(float threshold, shared_ptr<DParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<DPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 634c695..3089ffa 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -90,6 +90,9 @@ void lpaggreg::HPartitioner::addBestQualities(float threshold, shared_ptr<HParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<HPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index a111e56..566f126 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -69,6 +69,9 @@ void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<OPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
-- 
2.43.0


From e69e9efd7a83ac6ca8646781a8cbed799a81f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 10/14] fix: keep the only partition of a sweep over a single
 parameter

With min==max the parameter was listed twice and the removal of the duplicate
erased its only partition.
---
 src/lpaggreg/sources/dpartitioner.cpp | 6 ++++--
 src/lpaggreg/sources/hpartitioner.cpp | 6 ++++--
 src/lpaggreg/sources/opartitioner.cpp | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 10bd16c..259828d 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -23,8 +23,10 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 3089ffa..7146ae2 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -24,8 +24,10 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 566f126..e9f49a9 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -23,8 +23,10 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-- 
2.43.0


From 673d7519670d10fca37241bf510c4ab0d308ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 11/14] fix: define the arithmetic operators of trade-offs in
 the namespace that declares them

---
 src/lpaggreg/sources/tradeoff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 33acb7a..b1399ea 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -84,7 +84,7 @@ void lpaggreg::Tradeoff::operator/=(lpaggreg::Tradeoff &tradeoff)
 }
 
 
-lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -94,7 +94,7 @@ lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()-tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -104,7 +104,7 @@ lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()*tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -114,7 +114,7 @@ lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()/tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
-- 
2.43.0


From 48136df5480aefbd6c220dc2120f5dd21274c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 12/14] fix: make operator< of trade-offs the mirror of
 operator>

Trade-offs of equal value are ordered by gain and loss in operator> only, so
the hierarchical algorithm kept a node aggregated although its children gave
the same value with more gain.
---
 src/lpaggreg/sources/tradeoff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index b1399ea..486dcd2 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -154,7 +154,7 @@ bool lpaggreg::operator<=(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tra
 
 bool lpaggreg::operator<(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return !(tradeoff1>tradeoff2||tradeoff1==tradeoff2);
+    return tradeoff2>tradeoff1;
 }
 
 
-- 
2.43.0


From 72df0aceebf1760bccb2d911de471ba1c41fe4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 13/14] fix: give copies of a trade-off their own quality

---
 src/lpaggreg/headers/tradeoff.h   |  3 ++-
 src/lpaggreg/sources/tradeoff.cpp | 13 ++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/headers/tradeoff.h b/src/lpaggreg/headers/tradeoff.h
index a185438..eec4375 100644
--- a/src/lpaggreg/headers/tradeoff.h
+++ b/src/lpaggreg/headers/tradeoff.h
@@ -18,13 +18,14 @@ namespace lpaggreg{
 
     public:
         Tradeoff();
-        //Tradeoff(Tradeoff &tradeoff);
+        Tradeoff(const Tradeoff &tradeoff);
         Tradeoff(shared_ptr<Quality> quality);
         Tradeoff(lp_quality_type value, shared_ptr<Quality> quality);
         Tradeoff(shared_ptr<Quality> quality, float p);
 
         void computePIC(float p);
 
+        void operator=(const Tradeoff &tradeoff);
         void operator+=(Tradeoff &tradeoff);
         void operator-=(Tradeoff &tradeoff);
         void operator*=(Tradeoff &tradeoff);
diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 486dcd2..62864a4 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -30,10 +30,10 @@ lpaggreg::Tradeoff::Tradeoff()
     value=0;
 }
 
-/*lpaggreg::Tradeoff::Tradeoff(Tradeoff &tradeoff):value(tradeoff.getValue()), quality(tradeoff.getQuality())
+lpaggreg::Tradeoff::Tradeoff(const Tradeoff &tradeoff):value(tradeoff.value)
 {
-
-}*/
+    this->quality=shared_ptr<Quality>(new Quality(*tradeoff.quality));
+}
 
 
 lpaggreg::Tradeoff::Tradeoff(lp_quality_type value, shared_ptr<lpaggreg::Quality> quality):value(value)
@@ -56,6 +56,13 @@ lpaggreg::Tradeoff::Tradeoff(shared_ptr<lpaggreg::Quality> quality)
 }
 
 
+void lpaggreg::Tradeoff::operator=(const Tradeoff &tradeoff)
+{
+    quality=shared_ptr<Quality>(new Quality(*tradeoff.quality));
+    value=tradeoff.value;
+}
+
+
 void lpaggreg::Tradeoff::operator+=(lpaggreg::Tradeoff &tradeoff)
 {
     *quality+=*(tradeoff.quality);
-- 
2.43.0


From af778e8528f3c30a1a0421fa5dd1f312e439b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 14/14] fix: compare negative qualities with a positive
 precision

---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index b831e8a..3a741e0 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -86,7 +86,7 @@ lpaggreg::Quality lpaggreg::operator/(lpaggreg::Quality &quality1, lpaggreg::Qua
 
 bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
 {
-    lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
+    lp_quality_type precision=std::max(std::abs(quality1.getGain()+quality2.getGain()),std::abs(quality1.getLoss()+quality2.getLoss()))/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
             (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
-- 
2.43.0

