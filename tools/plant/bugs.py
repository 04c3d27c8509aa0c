bug("p01", "C01", [("sources/opartitioner.cpp", "            tradeoff_t->set(qualities->operator()(i,cut_t), parameter);\n            *tradeoff_t+=*(tradeoff[cut_t+1]);\n            if (*tradeoff_t>*(tradeoff[i])){", "            if (cut_t>i&&qualities->operator()(i,cut_t)->getGain()==0&&qualities->operator()(i,cut_t)->getLoss()==0){\n                continue;\n            }\n            tradeoff_t->set(qualities->operator()(i,cut_t), parameter);\n            *tradeoff_t+=*(tradeoff[cut_t+1]);\n            if (!(*tradeoff_t<=*(tradeoff[i]))){")],
 "an interval of several slices with gain and loss 0 that belongs to the optimal partition", "intervals of zero quality are never used as parts",
 """  oqualities q = oq(3, [](int i, int j) { if (i == 0 && j == 1) return GL(0, 0); if (i == 2) return GL(0, 0); return GL(-5, 3); });
  OPartitioner p(q); shared_ptr<OPartition> r = p.computeBestPartition(1); expect(close_(crit(*r, 1), 0), "best criterion is 0");""")
bug("p02", "C01", [("sources/opartitioner.cpp", "cut_t<size-1; cut_t++", "cut_t<size-1&&cut_t-i<32; cut_t++")],
 "an optimal partition whose part is longer than 32 slices without reaching the end", "the search for a cut looks at most 32 slices ahead",
 """  int n = 60; oqualities q = oq(n, [](int i, int j) { if (i == 0 && j == 39) return GL(100, 0); if (i == 40 && j == 59) return GL(50, 0); return GL(0, 1); });
  OPartitioner p(q); shared_ptr<OPartition> r = p.computeBestPartition(0.5f); expect(close_(crit(*r, 0.5), 75), "best criterion is 75");""")
bug("p03", "C02", [("sources/hpartitioner.cpp", "    for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){\n        (tradeoff[h])->set((*qualities)[h], parameter);\n        if ((*tradeoff[h])<(*tradeoffChildren[h])){", "    for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){\n        (tradeoff[h])->set((*qualities)[h], parameter);\n        if ((metaData.getChildren())[h].size()>1&&(*tradeoff[h])<(*tradeoffChildren[h])){")],
 "a hierarchy with an inner node that has a single child, and qualities of the caller in which the child is better", "a node with one child is never split",
 """  vector<int> par{2, 3, 3, -1}; HValuesMetaData md(2, par); // leaf 0 below node 2 below the root, leaf 1 below the root
  HPartitioner p(hq(4, [](int h) { return h == 0 ? GL(4, 0) : h == 2 ? GL(1, 1) : GL(0, 0); }), md);
  shared_ptr<HPartition> r = p.computeBestPartition(0.5f); expect(close_(crit(*r, 0.5), 2), "best criterion is 2");""")
bug("p04", "C03", [("sources/dpartitioner.cpp", "                for (int cut_t=i; cut_t<j; cut_t++){", "                for (int cut_t=i; cut_t<j&&(*(cuts[h]))(i, j)!=-1; cut_t++){")],
 "a region where splitting into the children improves on keeping it and a temporal cut improves further", "no temporal cut is tried once the split into children was an improvement",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par);
  DPartitioner p(dq(3, 2, [](int h, int i, int j) { if (h == 2 && i == j) return GL(10, 0); if (h < 2 && i != j) return GL(3, 0); return GL(0, 1); }), md);
  shared_ptr<DPartition> r = p.computeBestPartition(0.5f); expect(close_(crit(*r, 0.5), 10), "best criterion is 10");""")
bug("p05", "C04", [("sources/hpartition.cpp", "for (int i=0; i<metaData.getChildren().operator [](h).size(); i++){", "for (int i=0; i<metaData.getChildren().operator [](h).size()&&i<16; i++){")],
 "a split node with more than 16 children", "the children beyond the 16th of a split node are in no part",
 """  int l = 20; vector<int> par(l, l); par.push_back(-1); HValuesMetaData md(l, par);
  HPartitioner p(hq(l + 1, [l](int h) { return GL(h == l ? -1 : 1, 0); }), md); shared_ptr<HPartition> r = p.computeBestPartition(1);
  int n = 0; for (auto x : r->getParts()) n += x.getSize(); expect(n == l, "every leaf is covered");""")
bug("p06", "C05", [("sources/opartition.cpp", "        *quality+=*(it.getQuality());", "        if (it.getQuality()->getGain()!=0){\n            *quality+=*(it.getQuality());\n        }")],
 "a part with gain 0 but a loss (a single non-zero value in it)", "parts without gain are left out of the partition's loss",
 """  shared_ptr<OValuesN1> v(new OValuesN1(vector<double>{4, 0, 0, 0})); OQualities q(v); q.computeQualities(); OPartitioner p(q);
  shared_ptr<OPartition> r = p.computeBestPartition(1); LD l = 0; for (auto x : r->getParts()) l += x.getQuality()->getLoss(); expect(close_(r->getQuality()->getLoss(), l), "the loss is the sum over the parts");
  OPartition w(vector<int>(4, 3), q.getQualities(), 0.5f); expect(close_(w.getQuality()->getLoss(), 8), "one part: loss 8");""")
bug("p07", "C06", [("sources/complexity.cpp", "	if (val> 0)", "	if (val> LP_PRECISION*1e9)")],
 "values below 1e-6", "the entropy of tiny values counts as 0",
 """  shared_ptr<OValuesN1> v(new OValuesN1(vector<double>{1.0 / 65536, 1.0 / 65536})); OQualities q(v); q.computeQualities();
  expect(close_((*q.getQualities())(0, 1)->getGain(), 1.0 / 32768), "gain 1/32768"); expect(close_((*q.getQualities())(0, 1)->getLoss(), 0), "loss 0");""")
bug("p08", "C06", [("sources/oqualities.cpp", "        for (int i = osize-1; i >=0; i--) {", "        for (int i = osize-1; i >=0&&((*values)[k][0]!=0||(*values)[k][osize-1]!=0); i--) {")],
 "an attribute that is 0 at the first and at the last slice only", "an attribute with zeros at both ends is taken for empty",
 """  shared_ptr<OValuesN2> v(new OValuesN2(vector<vector<double> >{{1, 2, 3, 4}, {0, 5, 5, 0}})); OQualities q(v); q.computeQualities();
  LD l2 = log(2.0L); LD g = 0, w[] = {1, 2, 3, 4}; g = 10 * log(10.0L) / l2; for (LD x : w) g -= x * log(x) / l2; g += 10 * log(10.0L) / l2 - 10 * log(5.0L) / l2;
  expect(close_((*q.getQualities())(0, 3)->getGain(), g), "gain of the whole");""")
bug("p09", "C07", [("sources/hqualities.cpp", "            sum[(metaData.getParents())[h]]+=sum[h];\n            info[h] = entropyReduction(sum[h], 0);\n", "            info[h] = entropyReduction(sum[h], 0);\n            if (info[h]!=0){\n                sum[(metaData.getParents())[h]]+=sum[h];\n            }\n")],
 "a leaf whose value is exactly 1 (its v*log2(v) is 0)", "leaves of value 1 are taken for empty ones",
 """  vector<int> par{2, 2, -1}; shared_ptr<HValuesN1> v(new HValuesN1(vector<double>{1, 3}, par)); HQualities q(v); q.computeQualities();
  LD l2 = log(2.0L); expect(close_((*q.getQualities())[2]->getGain(), (4 * log(4.0L) - 3 * log(3.0L)) / l2), "gain of the root");""")
bug("p10", "C08", [("sources/dqualities.cpp", "                    (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));\n                    (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));\n                }\n            }\n        }\n        for (int i", "                    if ((metaData.getSize())[h]>1){\n                        (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));\n                        (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));\n                    }\n                }\n            }\n        }\n        for (int i")],
 "an inner node with a single leaf below it", "the values of an inner node with one leaf do not reach its parent",
 """  vector<int> par{2, 3, 3, -1}; shared_ptr<DValuesN2> v(new DValuesN2(vector<vector<double> >{{4, 4}, {4, 4}}, par)); DQualities q(v); q.computeQualities();
  expect(close_((*(*q.getQualities())[3])(0, 1)->getGain(), 32), "gain of the whole");""")
bug("p11", "C10", [("sources/oqualities.cpp", "    for (int i=0; i<qualities->getElements(); i++){", "    for (int i=qualities->getSize(); i<qualities->getElements(); i++){")],
 "qualities of the caller with a gain or loss for single slices", "single slices are not normalized",
 """  OQualities q(oq(2, [](int i, int j) { return GL(4, 2); })); q.normalize(); for (int i = 0; i < 2; i++) for (int j = i; j < 2; j++) expect(close_((*q.getQualities())(i, j)->getGain(), 1), "normalized gain 1");""")
bug("p12", "C11", [("sources/hpartitioner.cpp", "    if ((*bestPartitionMin!=*bestPartitionMax)&&", "    if ((bestPartitionMin->getParts().size()!=bestPartitionMax->getParts().size())&&")],
 "two different best partitions with the same number of parts at both ends of an interval", "the sweep does not look between two partitions with equally many parts",
 """  // at 0 the best is {2,3,4} through node 4 for leaves 0,1; at 1 it is node 5 for leaves 2,3; in between the whole
  vector<int> par{4, 4, 5, 5, 6, 6, -1}; HValuesMetaData md(4, par);
  HPartitioner p(hq(7, [](int h) { return h == 4 ? GL(-1, -4) : h == 5 ? GL(6, 10) : h == 6 ? GL(5, -3) : GL(0, 0); }), md);
  p.computeBestPartitions(0.01f, 0, 1); bool whole = false; for (auto &x : p.getPartitions()) if (x.second->getParts().size() == 1) whole = true;
  shared_ptr<HPartition> m = p.computeBestPartition(0.5f); printf("%d parts at 0.5\\n", (int)m->getParts().size());
  expect(whole || m->getParts().size() != 1, "the partition in between is listed");""")
bug("p13", "C12", [("sources/opartitioner.cpp", "    partitionsTuples.clear();\n", "")],
 "a second sweep on one partitioner", "the tuples of earlier sweeps stay listed",
 """  OPartitioner p(oq(3, [](int i, int j) { return GL((j - i) * 2, (j - i) * (j - i)); })); p.computeBestPartitions(0.01f, 0, 1); size_t n = p.getPartitionsTuples().size();
  p.computeBestPartitions(0.01f, 0, 1); expect(p.getPartitionsTuples().size() == n, "the same tuples again");""")
bug("p14", "C12", [("sources/hpartitioner.cpp", "    qualityList.clear();\n", "    if (pList.empty()){\n        qualityList.clear();\n    }\n"), ("sources/hpartitioner.cpp", "    pList.clear();\n    partitions.clear();\n", "    partitions.clear();\n"), ("sources/hpartitioner.cpp", "    bestPartitionMin=computeBestPartition(min);\n", "    pList.clear();\n    bestPartitionMin=computeBestPartition(min);\n")],
 "a second sweep with another range", "qualities of parameters listed by an earlier sweep stay in the quality map",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HPartitioner p(hq(3, [](int h) { return h == 2 ? GL(1, 1) : GL(0, 0); }), md);
  p.computeBestPartitions(0.01f, 0, 1); p.computeBestPartitions(0.01f, 0.25f, 0.375f); expect(p.getQualityList().size() == p.getPList().size(), "as many qualities as parameters");""")
bug("p15", "C15", [("sources/partitioner.cpp", "        auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*", "        auc+=(std::min((qualityList[pList[i+1]])->getGain(),(lp_quality_type)1)-std::min((qualityList[pList[i]])->getGain(),(lp_quality_type)1))*")],
 "qualities that are not normalized (gain above 1)", "gains are cut off at 1 in the area",
 """  OPartitioner p(oq(2, [](int i, int j) { return i == j ? GL(0, 0) : GL(4, 2); })); p.computeBestPartitions(0.01f, 0, 1); expect(std::fabs(p.computeAUC() - (1 - 4.0)) < 1e-5, "area 1-4");""")
bug("p16", "C16", [("sources/hvalues.cpp", "    root=path[path.size()-1];", "    root=path.back();\n    for (int h=leaveSize; h<hsize; h++){\n        if (children[h].size()>children[root].size()&&size[h]==size[root]){\n            root=h;\n        }\n    }")],
 "a root with a single child", "a root with one child is skipped",
 """  vector<int> par{2, 2, 3, -1}; HValuesMetaData md(2, par); expect(md.getRoot() == 3, "the root is the node without parent");""")
bug("p17", "C17", [("sources/oaggregationn.cpp", "            for (int k=0; k<values->getK(); k++){\n                sum[i][j].push_back(0);", "            for (int k=0; k<values->getJ()&&k<values->getK(); k++){\n                sum[i][j].push_back(0);")],
 "four dimensions with more values in the third than in the second", "attribute values beyond the extent of the second dimension are missing",
 """  vector<vector<vector<vector<double> > > > x(1, vector<vector<vector<double> > >(2, vector<vector<double> >(3, vector<double>(2, 1.5)))); shared_ptr<OValuesN4> v(new OValuesN4(x)); OQualities q(v); q.computeQualities();
  shared_ptr<OPartition> r(new OPartition(vector<int>(2, 1), q.getQualities(), 1)); OAggregationN4 a(r, v); expect(a.getAggregates()[0].getSum()[0][1].size() == 3, "three sums");""")
bug("p18", "C18", [("sources/haggregationn.cpp", "        return (*values)(h, i, j);", "        return std::max((*values)(h, i, j), 0.0);")],
 "a negative value in three-dimensional hierarchical data", "negative values are left out of the sums",
 """  vector<int> par{2, 2, -1}; shared_ptr<HValuesN3> v(new HValuesN3(vector<vector<vector<double> > >{{{5}}, {{-2}}}, par));
  shared_ptr<HPartition> r(new HPartition(vector<bool>(3, true), hq(3, [](int) { return GL(0, 0); }), 1, HValuesMetaData(2, par))); HAggregationN3 a(r, v);
  expect(close_(a.getAggregates()[0].getSum()[0][0], 3), "sum 3");""")
bug("p19", "C20", [("sources/dvaluesn.cpp", "DValues(leaves, i*j, osize, parents), i(i), j(j)", "DValues(leaves, i*j, osize, parents), i(j), j(i)")],
 "four-dimensional spatiotemporal data set created by size, with attribute dimensions of different extent", "the extents of the attribute dimensions are exchanged",
 """  vector<int> par{2, 2, -1}; DValuesN4 v(2, 2, 3, 1, par); v(0, 1, 2, 0, 7); expect(v.getI() == 2 && v.getJ() == 3, "extents"); """)
bug("p20", "C21", [("sources/uppertriangularmatrix.cpp", "    matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i]=value;", "    matrix[(unsigned short)((j-i)*size-(j-i)*((j-i)-1)/2)+i]=value;")],
 "a matrix of more than 361 rows", "offsets beyond 65535 are cut off when writing",
 """  UpperTriangularMatrix<int> m(400); m(10, 390, 7); expect(m(10, 390) == 7, "the value written is read back");""")
bug("p22", "C23", [("sources/tradeoff.cpp", "    return !(tradeoff1>tradeoff2);", "    return tradeoff1.getValue()<=tradeoff2.getValue();")],
 "trade-offs of equal value but different gain or loss", "<= ignores the gain and loss of equal values",
 """  shared_ptr<Quality> a(new Quality(2, 1)), b(new Quality(1, 1)); Tradeoff x(1, a), y(1, b); expect(!(x <= y) == (x > y), "<= is the negation of >");""")
bug("p24", "C26", [("sources/dpartition.cpp", "dpart1.getH()==dpart2.getH()&&dpart1.getSize()==dpart2.getSize()", "dpart1.getHSize()==dpart2.getHSize()&&dpart1.getSize()==dpart2.getSize()")],
 "two nodes with equally many leaves", "parts on different nodes of equal size compare equal",
 """  shared_ptr<Quality> q(new Quality(1, 1)); DPart a(0, 1, 0, 1, q), b(1, 1, 0, 1, q); expect(!(a == b), "different nodes");""")
bug("p25", "C28", [("sources/hpartitioner.cpp", "        (*tradeoff[h])=(*tradeoffChildren[h]);\n    }\n    shared_ptr", "    }else if ((*tradeoff[h])==(*tradeoffChildren[h])&&(*tradeoff[h]).getQuality()->getLoss()>(*tradeoffChildren[h]).getQuality()->getLoss()){\n        aggregated[h]=false;\n    }\n    shared_ptr")],
 "a tie at the root between more gain and less loss", "the root prefers less loss over more gain on a tie",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HPartitioner p(hq(3, [](int h) { return h == 2 ? GL(2, 2) : GL(0.5, 0.5); }), md);
  shared_ptr<HPartition> r = p.computeBestPartition(0.5f); expect(r->getParts().size() == 1, "more gain wins the tie");""")
bug("p21", "C22", [("sources/quality.cpp", "    return lpaggreg::Quality(quality1.getGain()-quality2.getGain(), quality1.getLoss()-quality2.getLoss());", "    return lpaggreg::Quality(quality1.getGain()-quality2.getGain(), std::abs(quality1.getLoss()-quality2.getLoss()));")],
 "subtracting a greater loss", "the difference of two qualities has the loss difference's absolute value",
 """  Quality a(1, 1), b(2, 3); Quality c = a - b; expect(close_(c.getGain(), -1) && close_(c.getLoss(), -2), "1-3 is -2");""")
bug("p23", "C25", [("sources/oqualities.cpp", "    qualities=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(osize));", "    if (!qualities||qualities->getSize()!=(int)osize){\n        qualities=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(osize));\n    }")],
 "computing the qualities a second time", "recomputing adds to the earlier qualities",
 """  shared_ptr<OValuesN1> v(new OValuesN1(vector<double>{1, 3})); OQualities q(v); q.computeQualities(); LD g = (*q.getQualities())(0, 1)->getGain(); q.computeQualities(); expect(close_((*q.getQualities())(0, 1)->getGain(), g), "the same gain again");""")
bug("p26", "C19", [("sources/daggregationn.cpp", "        mean[i]=sum[i]/part.getSize();", "        mean[i]=part.getHSize()==values->getMetaData().getLeaveSize()?sum[i]/values->getMetaData().getLeaveSize()/values->getOsize():sum[i]/part.getSize();")],
 "three-dimensional data and a part on the root that does not span all slices", "the mean of a part on the root is divided by all slices",
 """  vector<int> par{2, 2, -1}; shared_ptr<DValuesN3> v(new DValuesN3(vector<vector<vector<double> > >{{{1, 2}}, {{3, 6}}}, par)); DQualities q(v); q.computeQualities();
  vector<shared_ptr<UpperTriangularMatrix<int> > > c; for (int h = 0; h < 3; h++) { shared_ptr<UpperTriangularMatrix<int> > m(new UpperTriangularMatrix<int>(2)); (*m)(0, 0, 0); (*m)(1, 1, 1); (*m)(0, 1, 0); c.push_back(m); }
  shared_ptr<DPartition> r(new DPartition(c, q.getQualities(), 1, HValuesMetaData(2, par))); DAggregationN3 a(r, v); expect(close_(a.getAggregates()[1].getMean()[0], 4), "mean 4");""")
bug("p28", "C09", [("sources/complexity.cpp", "	return (value) * log(size) / ln - entropyReduction(value, ent);", "	return (value) * log(size<1024?size:1023) / ln - entropyReduction(value, ent);")],
 "a region of 1024 or more elements", "the divergence of regions of 1024 elements or more is too small",
 """  int l = 1100; vector<int> par(l, l); par.push_back(-1); shared_ptr<HValuesN1> v(new HValuesN1(vector<double>(l, 2), par)); HQualities q(v); q.computeQualities();
  expect(std::fabs((*q.getQualities())[l]->getLoss()) < 1e-6, "equal values have no loss");""")
bug("p29", "C24", [("sources/dqualities.cpp", "    unsigned vsize=values->getVsize();", "    unsigned vsize=osize>1?values->getVsize():1;")],
 "spatiotemporal data of one slice with several attributes", "with one slice only the first attribute counts",
 """  vector<int> par{2, 2, -1}; shared_ptr<DValuesN3> v(new DValuesN3(vector<vector<vector<double> > >{{{1}, {2}}, {{3}, {6}}}, par)); DQualities q(v); q.computeQualities();
  shared_ptr<HValuesN2> w(new HValuesN2(vector<vector<double> >{{1, 2}, {3, 6}}, par)); HQualities r(w); r.computeQualities();
  expect(close_((*(*q.getQualities())[2])(0, 0)->getGain(), (*r.getQualities())[2]->getGain()), "the gain of hierarchical aggregation");""")
bug("p31", "C14", [("sources/partitioner.cpp", "        lp_quality_type gain=(qualityList[p])->getGain();", "        lp_quality_type gain=(qualityList[first&&pList.size()>2?pList.back():p])->getGain()*(first&&pList.size()>2?2:1);")],
 "the first listed parameter is the closest to (1,0) among three or more", "the first listed parameter is never the best compromise",
 """  OPartitioner p(oq(3, [](int i, int j) { return i == j ? GL(0.3, 0.0) : j - i == 1 ? GL(1.5, 0.6) : GL(4, 3.5); })); p.computeBestPartitions(0.001f, 0, 1); printf("%d listed\\n", (int)p.getPList().size());
  LD best = 1e9; for (float x : p.getPList()) { auto q = p.getQualityList()[x]; best = std::min(best, (q->getGain() - 1) * (q->getGain() - 1) + q->getLoss() * q->getLoss()); }
  auto q = p.getQualityList()[p.getP(P_OPT)]; expect((q->getGain() - 1) * (q->getGain() - 1) + q->getLoss() * q->getLoss() <= best + 1e-9, "the closest to (1,0)");""")
bug("p32", "C13", [("sources/hpartition.cpp", "            if ((hpartition1.getParts())[i]!=(hpartition2.getParts())[i]){", "            if ((hpartition1.getParts())[i]!=(hpartition2.getParts())[i]||(hpartition1.getParts())[i].getQuality()->getGain()!=(hpartition2.getParts())[i].getQuality()->getGain()){")],
 "a not-a-number gain and threshold 0", "a partition with a not-a-number gain differs from itself, so the sweep goes down to the last float",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par);
  HPartitioner p(hq(3, [](int h) { return GL(NAN, 1); }), md); p.computeBestPartitions(0, 0, 1); expect(p.getPList().size() == 1, "one partition");""")
bug("p33", "C13", [("sources/dpartitioner.cpp", "        qualityList[it.first]=it.second->getQuality();", "        if (it.second->getQuality()->getGain()>0||it.second->getQuality()->getLoss()>0){\n            qualityList[it.first]=it.second->getQuality();\n        }")],
 "a best partition with gain 0 and loss 0", "partitions without gain and loss are missing from the quality map",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par);
  DPartitioner p(dq(3, 2, [](int h, int i, int j) { return h == 2 || i != j ? GL(1, 2) : GL(0, 0); }), md); p.computeBestPartitions(0.1f, 0, 1);
  auto q = p.getQualityList(); for (float x : p.getPList()) expect(q.count(x) && q[x], "every listed parameter has its quality");""")
bug("p34", "C27", [("sources/opartitioner.cpp", "    for (int i=size-1;i>=0;i--){\n        (tradeoff[i])->set", "    if (parameter==0){\n        for (int i=0; i<size; i++){\n            cut[i]=i;\n        }\n        return shared_ptr<OPartition>(new OPartition(cut, qualities, parameter));\n    }\n    for (int i=size-1;i>-1;i--){\n        (tradeoff[i])->set")],
 "p=0 and qualities of the caller with a loss for single slices", "the best partition for p=0 is taken to be the finest one",
 """  OPartitioner p(oq(3, [](int i, int j) { return GL(j - i, i == j ? 4 : 1); })); LD l = -1;
  for (float x : {0.f, 0.25f, 0.5f, 1.f}) { LD m = p.computeBestPartition(x)->getQuality()->getLoss(); expect(m >= l - 1e-9, "the loss does not fall"); l = m; }""")
bug("p35", "C28", [("sources/dpartitioner.cpp", "                    if (*((*(tradeoffChildren[h]))(i, j))>*((*(tradeoff[h]))(i, j))){", "                    if (*((*(tradeoffChildren[h]))(i, j))>=*((*(tradeoff[h]))(i, j))){")],
 "a node whose children together have its gain and loss", "a node is split although nothing is gained",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par);
  DPartitioner p(dq(3, 2, [](int h, int i, int j) { return GL(0, 0); }), md); expect(p.computeBestPartition(0.5f)->getParts().size() == 1, "the whole stays in one part");""")
bug("p36", "C29", [("sources/hpartition.cpp", "    if(aggregated[h]){", "    if(aggregated[h]&&metaData.getChildren().operator [](h).size()!=1){"), ("sources/hpartition.cpp", "        for (int i=0; i<metaData.getChildren().operator [](h).size(); i++){", "        for (int i=0; metaData.getChildren().operator [](h).size()!=0&&i<metaData.getChildren().operator [](h).size(); i++){")],
 "an aggregated node with a single child", "a part on a node with a single child becomes a part on the child",
 """  vector<int> par{2, 3, 3, -1}; HValuesMetaData md(2, par); hqualities q = hq(4, [](int h) { return GL(h, 1); });
  HPartition a(vector<bool>{true, true, true, false}, q, 0.5f, md); expect(a.getParts().size() == 2 && (a.getParts()[0].getH() == 2 || a.getParts()[1].getH() == 2), "the part is on the node");""")
bug("p37", "C30", [("../../R/lpaggreg.R", "    start[i]=get<3>(line)+1;\n    end[i]=get<4>(line)+1;\n    gain[i]=get<5>(line);", "    start[i]=get<3>(line)+1;\n    end[i]=get<4>(line)+(get<3>(line)==get<4>(line)?1:size[i]%2);\n    gain[i]=get<5>(line);")],
 "a part over several slices with an even number of cells", "the end of a part with an even size is one too small",
 """  std::shared_ptr<Rcpp::Store> m(new Rcpp::Store()), h(new Rcpp::Store()); m->v = {4, 1, 4, 1, 9, 2, 9, 2}; m->dim = {2, 1, 4}; h->v = {3, 3, 0}; Rcpp::SEXPREC t; t.v = 0.01;
  Rcpp::List r = daggregate(Rcpp::NumericVector(m), Rcpp::NumericVector(h), &t); auto *d = r.find("Partitions")->v.df.get();
  auto &n = d->find("Node")->v.vec->v, &z = d->find("Size")->v.vec->v, &s = d->find("Start")->v.vec->v, &e = d->find("End")->v.vec->v;
  for (size_t k = 0; k < n.size(); k++) expect(z[k] == (e[k] - s[k] + 1) * (n[k] == 3 ? 2 : 1), "size is leaves times slices");""", r=1)
bug("p38", "C32", [("sources/opartitioner.cpp", "    int size=qualities->getSize();\n    vector<int> cut(size, size-1);", "    static map<float, shared_ptr<OPartition> > previous;\n    int size=qualities->getSize();\n    vector<int> cut(size, size-1);"), ("sources/opartitioner.cpp", "    return partition;\n", "    return previous[parameter]=partition;\n")],
 "releasing everything", "the last partition computed for every parameter is kept for ever, with its qualities",
 """  std::weak_ptr<UpperTriangularMatrix<shared_ptr<Quality> > > w; { oqualities q = oq(4, [](int i, int j) { return GL(j - i, 1); }); w = q; OPartitioner p(q); p.computeBestPartition(0.5f); }
  expect(w.expired(), "the qualities are released");""")
bug("p39", "C31", [("sources/hpartitioner.cpp", "    int i=0;\n    int h;\n    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize();", "    static const int leaves=metaData.getLeaveSize();\n    int i=0;\n    int h;\n    for (h = (metaData.getPath())[i]; i < leaves;")],
 "two hierarchies with different numbers of leaves, the one with more leaves used first", "the number of leaves of the first hierarchy is used for every later one",
 """  vector<int> a{4, 4, 4, 4, -1}, b{2, 2, 3, -1}; HValuesMetaData ma(4, a), mb(2, b); hqualities qa = hq(5, [](int h) { return GL(h, 1); }), qb = hq(4, [](int h) { return h == 2 ? GL(0, 9) : GL(3, 0); });
  HPartitioner pa(qa, ma), pb(qb, mb); pa.computeBestPartition(0.5f); shared_ptr<HPartition> r = pb.computeBestPartition(0.5f);
  expect(close_(crit(*r, 0.5), 3), "best criterion is 3");""")
bug("p40", "C32", [("headers/dpartition.h", "        HValuesMetaData metaData;\n        void computeSubPart", "        const HValuesMetaData &metaData;\n        void computeSubPart"), ("headers/dpartition.h", "float parameter, HValuesMetaData metaData);", "float parameter, const HValuesMetaData &metaData);"), ("sources/dpartition.cpp", "float parameter, lpaggreg::HValuesMetaData metaData):Partition", "float parameter, const lpaggreg::HValuesMetaData &metaData):Partition")],
 "asking a partition for its hierarchy after the partitioner is released", "a partition only refers to its partitioner's hierarchy",
 """  vector<int> par{2, 2, -1}; shared_ptr<DPartition> r; { HValuesMetaData md(2, par); DPartitioner p(dq(3, 2, [](int h, int i, int j) { return GL(j, h); }), md); r = p.computeBestPartition(0.5f); }
  vector<vector<int> > junk; for (int k = 0; k < 50; k++) junk.push_back(vector<int>(k, 77));
  expect(r->getMetaData().getRoot() == 2 && r->getMetaData().getParents() == par, "the hierarchy is still there");""", flags="-fsanitize=address -fno-omit-frame-pointer")
bug("p41", "C26", [("sources/opartition.cpp", "        for (int i=0; i<opartition1.getParts().size(); i++){", "        for (int i=0; i+1<opartition1.getParts().size(); i++){")],
 "partitions of sequences of different length that agree up to the last part", "the last parts are not compared",
 """  auto f = [](int i, int j) { return GL(j - i, 1); }; OPartition a(vector<int>{2, 2, 2}, oq(3, f), 0.5f), b(vector<int>{3, 3, 3, 3}, oq(4, f), 0.5f); expect(!(a == b) && a != b, "three slices are not four");""")
bug("p42", "C11", [("sources/dpartitioner.cpp", "    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){\n        float parameter=", "    if (threshold<0.001f){\n        threshold=0.001f;\n    }\n    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){\n        float parameter="), ("sources/dpartitioner.cpp", "void lpaggreg::DPartitioner::addBestQualities(float threshold, ", "void lpaggreg::DPartitioner::addBestQualities(float threshold , ")],
 "a threshold below 0.001 and a partition that is best on less than that", "no search below steps of 0.001",
 """  vector<int> par{1, 2, -1}; HValuesMetaData md(1, par); // leaf 0, nodes 1 and 2 above it: 1 is best between about 0.33333 and 0.33347
  auto f = [](int h, int i, int j) { return h == 0 ? GL(0, 0) : h == 1 ? GL(1, 0.5) : GL(2, 1.0006); };
  DPartitioner p(dq(3, 1, f), md); p.computeBestPartitions(0.00001f, 0, 1); bool one = false; for (auto &x : p.getPartitions()) one |= x.second->getParts()[0].getH() == 1;
  expect(one, "the partition in between is found");""")
bug("p43", "C11", [("sources/opartitioner.cpp", "bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){", "(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2>threshold){")],
 "a best partition for parameters within one and two thresholds", "the search stops at twice the threshold",
 """  OPartitioner p(oq(2, [](int i, int j) { return i == j ? GL(0, 0) : GL(9, 1); })); p.computeBestPartitions(0.3f, 0, 1); auto l = p.getPList(); auto m = p.getPartitions();
  for (size_t k = 0; k + 1 < l.size(); k++) for (int s = 0; s <= 20; s++) { LD x = l[k] + (l[k + 1] - 0.3f - l[k]) * s / 20.0L; if (x < l[k]) continue; shared_ptr<OPartition> b = p.computeBestPartition((float)x); expect(crit(*m[l[k]], x) >= crit(*b, x) - 1e-6, "the listed partition is best up to the next but the threshold"); }""")
bug("p45", "C23", [("sources/tradeoff.cpp", "    return (tradeoff1.getValue()>tradeoff2.getValue()||", "    return (tradeoff1.getValue()>tradeoff2.getValue()+LP_PRECISION*(std::abs(tradeoff1.getValue()-tradeoff2.getValue())<1?1:0)||")],
 "trade-offs whose values differ by less than 1e-13", "nearly equal values count as neither greater nor equal",
 """  shared_ptr<Quality> g(new Quality(1, 0)), h(new Quality(2, 0)); Tradeoff a(1e-14L, g), b(0.0L, h); expect(a > b && b < a && !(a <= b), "the greater value comes first");""")
bug("p46", "C24", [("sources/hvaluesn.cpp", "    return index/j;\n", "    return j>1?index/j:index/i;\n")],
 "three-dimensional hierarchical data whose last dimension has extent 1", "only the first attribute counts when the last dimension has extent 1",
 """  vector<int> par{2, 2, -1}; shared_ptr<HValuesN2> a(new HValuesN2(vector<vector<double> >{{1, 5}, {3, 2}}, par)); shared_ptr<HValuesN3> b(new HValuesN3(vector<vector<vector<double> > >{{{1}, {5}}, {{3}, {2}}}, par));
  HQualities p(a), q(b); p.computeQualities(); q.computeQualities(); expect(close_((*p.getQualities())[2]->getGain(), (*q.getQualities())[2]->getGain()), "the same gain");""")
bug("p47", "C08", [("sources/dqualities.cpp", "                (sum[h])(i,i,(*values)[h][k][i]);\n                (info[h])(i,i,entropyReduction((*values)[h][k][i], 0));", "                float value=(*values)[h][k][i];\n                (sum[h])(i,i,value);\n                (info[h])(i,i,entropyReduction(value, 0));")],
 "values that single precision cannot represent", "values are rounded to single precision",
 """  vector<int> par{2, 2, -1}; double v = 100.1, w = 33.3; shared_ptr<DValuesN2> x(new DValuesN2(vector<vector<double> >{{v, w}, {w, v}}, par)); DQualities q(x); q.computeQualities();
  LD l2 = log(2.0L), s = (LD)v + w; LD g = (s * log(s) - (LD)v * log((LD)v) - (LD)w * log((LD)w)) / l2; expect(fabsl((*(*q.getQualities())[0])(0, 1)->getGain() - g) < 1e-8, "gain of two slices");""")
bug("p48", "C03", [("sources/dpartitioner.cpp", "                ((*(tradeoff[h]))(i, j))->set((*((*qualities)[h]))(i, j), parameter);", "                ((*(tradeoff[h]))(i, j))->set((*((*qualities)[h]))(i, j), (int)(parameter*1024)/1024.0f);")],
 "a parameter that is no multiple of 1/1024, next to a change of the best partition", "the parameter is cut down to multiples of 1/1024",
 """  vector<int> par{1, -1}; HValuesMetaData md(1, par); DPartitioner p(dq(2, 2, [](int h, int i, int j) { return i == j ? GL(0, 0) : GL(2.0, 1.0); }), md); // the split is best up to 1/3
  float x = 0.33340f; expect(close_(crit(*p.computeBestPartition(x), x), std::max((LD)0, 2 * (LD)x - (1 - (LD)x))), "best criterion");""")
bug("p49", "C02", [("sources/hpartitioner.cpp", "        if ((*tradeoff[h])<(*tradeoffChildren[h])){\n            aggregated[h]=false;", "        if ((*tradeoff[h])<(*tradeoffChildren[h])&&i<metaData.getLeaveSize()+64){\n            aggregated[h]=false;", 1)],
 "a hierarchy with more than 64 inner nodes below the root", "inner nodes after the 64th are never split",
 """  int d = 80; vector<int> par(1, 1); for (int k = 1; k < d; k++) par.push_back(k + 1); par.push_back(-1); HValuesMetaData md(1, par);
  HPartitioner p(hq(d + 1, [](int h) { return GL(h == 0 ? 5 : 0, 1); }), md); expect(close_(crit(*p.computeBestPartition(0.5f), 0.5), 2), "the leaf is best");""")
bug("p50", "C22", [("sources/quality.cpp", "    return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||\n            ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&", "    return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||\n            ((std::abs(quality1.getGain())-std::abs(quality2.getGain())<precision)&&")],
 "a first gain smaller than the second, with equal losses", "a smaller gain on the left compares equal",
 """  Quality a(1, 2), b(3, 2); expect(!(a == b) && !(b == a), "different gains");""")
bug("p51", "C21", [("sources/uppertriangularmatrix.cpp", "lpaggreg::UpperTriangularMatrix<double>::UpperTriangularMatrix(unsigned int size):size(size), elements(((size+1)*size/2))", "lpaggreg::UpperTriangularMatrix<double>::UpperTriangularMatrix(unsigned int size):size(size), elements(((size+1)/2*size))")],
 "a matrix of double with an even size", "matrices of double of even size have too few elements",
 """  UpperTriangularMatrix<double> m(6); expect(m.getElements() == 21 && m.matrix.size() == 21, "21 elements");""")
bug("p52", "C18", [("sources/haggregationn.cpp", "            mean[i].push_back(sum[i][j]/part.getSize());", "            mean[i].push_back(sum[i][j]/(part.getSize()==1?1:values->getMetaData().getChildren()[part.getH()].size()));")],
 "three-dimensional data and a part on a node with inner nodes below it", "the mean is divided by the number of children",
 """  vector<int> par{3, 3, 4, 4, -1}; shared_ptr<HValuesN3> v(new HValuesN3(vector<vector<vector<double> > >{{{1}}, {{2}}, {{6}}}, par));
  shared_ptr<HPartition> p(new HPartition(vector<bool>(5, true), hq(5, [](int) { return GL(0, 0); }), 0.5f, v->getMetaData())); HAggregationN3 a(p, v); expect(close_(a.getAggregates()[0].getMean()[0][0], 3), "mean over the leaves");""")
bug("p53", "C12", [("sources/hpartitioner.cpp", "        for (auto it2 : it.second->getParts()){", "        for (HPart it2 : it.second->getParts()){\n            if (it2.getSize()==1&&it2.getQuality()->getGain()==0&&it2.getQuality()->getLoss()==0){\n                continue;\n            }")],
 "a listed partition with a leaf of zero gain and loss", "leaves without gain and loss are missing from the tuples",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HPartitioner p(hq(3, [](int h) { return h == 2 ? GL(1, 1) : h == 1 ? GL(0.1, 0) : GL(0, 0); }), md); p.computeBestPartitions(0.1f, 0, 1);
  size_t n = 0; for (auto &x : p.getPartitions()) n += x.second->getParts().size(); expect(p.getPartitionsTuples().size() == n, "one tuple per part");""")
bug("p54", "C05", [("sources/dpartition.cpp", "    for (DPart it: parts){\n        *quality+=*(it.getQuality());", "    int n=0;\n    for (DPart &it: parts){\n        if (n>0&&parts[n-1].getQuality()==it.getQuality()){\n            continue;\n        }\n        n++;\n        *quality+=*(it.getQuality());")],
 "qualities of the caller in which two parts share one quality object", "a quality object that occurs twice is summed once",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); shared_ptr<Quality> s(new Quality(3, 1)); dqualities q = dq(3, 1, [](int h, int, int) { return GL(0, 5); }); (*(*q)[0])(0, 0, s); (*(*q)[1])(0, 0, s);
  DPartitioner p(q, md); shared_ptr<DPartition> r = p.computeBestPartition(0.5f); expect(r->getParts().size() == 2 && close_(r->getQuality()->getGain(), 6), "gain 6");""")
bug("p55", "C25", [("sources/opartitioner.cpp", "    int size=qualities->getSize();\n    vector<int> cut(size, size-1);", "    auto known=partitions.find(parameter);\n    if (known!=partitions.end()&&known->second){\n        return known->second;\n    }\n    int size=qualities->getSize();\n    vector<int> cut(size, qualities->getSize()-1);")],
 "a sweep, then the qualities normalized (or changed) in place, then a request for a listed parameter", "a listed partition is returned although the qualities have changed since the sweep",
 """  shared_ptr<OValuesN1> v(new OValuesN1(vector<double>{1, 1, 5, 9})); OQualities q(v); q.computeQualities(); OPartitioner p(q); p.computeBestPartitions(0.01f, 0, 1);
  oqualities m = q.getQualities(); for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) { (*m)(i, j)->setGain(i == j ? 5 : 0); (*m)(i, j)->setLoss(i == 0 && j == 3 ? -5 : 0); }
  shared_ptr<OPartition> r = p.computeBestPartition(0); expect(r->getParts().size() == 1, "one part is best now");""")
bug("p56", "C12", [("sources/dpartitioner.cpp", "it2.getQuality()->getGain(), it2.getQuality()->getLoss());", "it2.getQuality()->getGain(), it2.getQuality()->getGain()==it2.getQuality()->getLoss()?0:it2.getQuality()->getLoss());")],
 "a listed part whose gain equals its loss", "the loss of a tuple whose gain equals its loss is 0",
 """  vector<int> par{1, -1}; HValuesMetaData md(1, par); DPartitioner p(dq(2, 1, [](int h, int, int) { return GL(2, 2); }), md); p.computeBestPartitions(0.1f, 0, 1);
  for (auto t : p.getPartitionsTuples()) expect(std::get<6>(t) == 2, "loss 2");""")
bug("p57", "C14", [("sources/partitioner.cpp", "        lp_quality_type currentScore=(gain-1)*(gain-1)+loss*loss;", "        lp_quality_type currentScore=std::abs(gain-1)+std::abs(loss);")],
 "two listed qualities whose order differs between Euclidean and Manhattan distance from (1,0)", "the best compromise is chosen by another distance",
 """  oqualities q = oq(2, [](int i, int j) { return i == j ? (i == 0 ? GL(0.35, 0) : GL(0, 0)) : GL(0.6, 0.45); }); OPartitioner p(q); p.computeBestPartitions(0.001f, 0, 1);
  auto l = p.getQualityList(); LD best = 1e9; for (auto x : l) best = std::min(best, (x.second->getGain() - 1) * (x.second->getGain() - 1) + x.second->getLoss() * x.second->getLoss());
  shared_ptr<Quality> s = l[p.getP(P_OPT)]; expect(close_((s->getGain() - 1) * (s->getGain() - 1) + s->getLoss() * s->getLoss(), best), "closest in Euclidean distance");""")
bug("p58", "C15", [("sources/partitioner.cpp", "((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;", "((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[pList[i+1]-pList[i]<0.01?i+1:i]])->getLoss())/2;")],
 "two listed parameters closer than 0.01", "the area between close parameters is a rectangle",
 """  oqualities q = oq(2, [](int i, int j) { return i == j ? GL(0, 0) : GL(1, 0.005); }); OPartitioner p(q); p.computeBestPartitions(0.001f, 0, 1); expect(std::fabs(p.computeAUC() - 0.9975) < 1e-4, "area 0.0025");""")
bug("p59", "C26", [("sources/opartition.cpp", "            if ((opartition1.getParts())[i]!=(opartition2.getParts())[i]){", "            if ((opartition1.getParts())[i].getStart()!=(opartition2.getParts())[i].getStart()){")],
 "two partitions of sequences of different length that differ only in the end of the last part", "only the starts of the parts are compared",
 """  OPartition a(vector<int>{1, 1, 4, 4, 4}, oq(5, [](int, int) { return GL(0, 0); }), 0.5f), b(vector<int>{1, 1, 3, 3}, oq(4, [](int, int) { return GL(0, 0); }), 0.5f); expect(a != b, "different ends");""")
bug("p60", "C23", [("sources/tradeoff.cpp", "    quality=shared_ptr<Quality>(new Quality(*tradeoff.quality));\n    value=tradeoff.value;", "    quality=tradeoff.quality;\n    value=tradeoff.value;")],
 "a trade-off assigned from another one and changed in place afterwards", "an assigned trade-off shares its quality with the original",
 """  Tradeoff a(shared_ptr<Quality>(new Quality(1, 1)), 0.5f), b; b = a; b += b; expect(a.getQuality()->getGain() == 1, "the original keeps its quality");""")
bug("p61", "C22", [("sources/quality.cpp", "    return !(quality1==quality2);", "    lp_quality_type precision=std::abs(quality1.getGain()+quality2.getGain())/2*LP_PRECISION;\n    return std::abs(quality1.getGain()-quality2.getGain())>precision||std::abs(quality1.getLoss()-quality2.getLoss())>precision;")],
 "two qualities whose losses are much larger than the gains and differ only by rounding", "nearly equal qualities are equal and different at once",
 """  for (int k = 10; k < 20; k++) { Quality a(1, 1000), b(1, 1000 * (1 + powl(10, -k))); expect((a == b) != (a != b), "one of both"); }""")
bug("p62", "C31", [("sources/hqualities.cpp", "    Quality max=*((*qualities)[metaData.getRoot()]);", "    static map<int, Quality> whole;\n    if (!whole.count(metaData.getHsize())){\n        whole[metaData.getHsize()]=*((*qualities)[metaData.getRoot()]);\n    }\n    Quality max=whole[metaData.getHsize()];")],
 "two hierarchical data sets with equally many nodes, both normalized", "the whole of the first data set normalizes every later one of the same size",
 """  vector<int> par{2, 2, -1}; LD g[2]; for (int k = 0; k < 2; k++) { shared_ptr<HValuesN1> v(new HValuesN1(vector<double>{1.0 + k, 5.0 + 7 * k}, par)); HQualities q(v); q.computeQualities(); q.normalize(); g[k] = (*q.getQualities())[2]->getGain(); }
  expect(close_(g[0], 1) && close_(g[1], 1), "the whole has gain 1");""")
bug("p64", "C28", [("sources/tradeoff.cpp", "    *quality+=*(tradeoff.quality);\n    value+=tradeoff.value;", "    if (tradeoff.value!=0){\n        *quality+=*(tradeoff.quality);\n        value+=tradeoff.value;\n    }")],
 "a tie in the criterion where one of the parts has value 0 but gain and loss", "parts of value 0 do not count in the gain that decides a tie",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HPartitioner p(hq(3, [](int h) { return h == 2 ? GL(1, 1) : h == 0 ? GL(2, 2) : GL(1, 1); }), md);
  shared_ptr<HPartition> r = p.computeBestPartition(0.5f); expect(r->getParts().size() == 2, "the finer one has more gain");""")
bug("p65", "C23", [("sources/tradeoff.cpp", "    value=(p*quality->getGain())-((1-p)*quality->getLoss());", "    value=p==0.5f?quality->getGain()-quality->getLoss():(p*quality->getGain())-((1-p)*quality->getLoss());")],
 "p exactly 1/2", "the value for p=1/2 is twice what it should be",
 """  Tradeoff t(shared_ptr<Quality>(new Quality(3, 1)), 0.5f); expect(close_(t.getValue(), 1), "value 1");""")
bug("p66", "C19", [("sources/daggregationn.cpp", "                sum[i][j]+=subSum(part.getH(), i, j, o);\n            }\n            mean[i][j]=sum[i][j]/part.getSize();", "                sum[i][j]+=subSum(part.getH(), i, j, o);\n                if (sum[i][j]==0&&o<part.getEnd()){\n                    mean[i][j]++;\n                }\n            }\n            mean[i][j]=sum[i][j]/(part.getSize()-(mean[i][j]==part.getOSize()-1?mean[i][j]:0));")],
 "four-dimensional data and a part whose values are 0 in all slices but the last", "leading slices without values are left out of the mean",
 """  vector<int> par{2, 2, -1}; shared_ptr<DValuesN4> v(new DValuesN4(vector<vector<vector<vector<double> > > >{{{{0, 0, 6}}}, {{{0, 0, 6}}}}, par)); dqualities q = dq(3, 3, [](int, int, int) { return GL(0, 0); });
  vector<shared_ptr<UpperTriangularMatrix<int> > > c; for (int h = 0; h < 3; h++) c.push_back(shared_ptr<UpperTriangularMatrix<int> >(new UpperTriangularMatrix<int>(3, 2)));
  shared_ptr<DPartition> p(new DPartition(c, q, 0.5f, v->getMetaData())); DAggregationN4 a(p, v); expect(close_(a.getAggregates()[0].getMean()[0][0], 2), "mean 2");""")
bug("p67", "C25", [("sources/partitioner.cpp", "        if (first||currentScore<=score){", "        if (!qualityList[popt]||first||currentScore<=score){")],
 "the best compromise asked after a sweep that does not start at 0", "asking for the best compromise adds an entry for 0 to the quality map",
 """  oqualities q = oq(3, [](int i, int j) { return GL(j - i, (j - i) * (j - i)); }); OPartitioner p(q); p.computeBestPartitions(0.01f, 0.25f, 1); size_t n = p.getQualityList().size(); p.getP(P_OPT); expect(p.getQualityList().size() == n, "the map keeps its size");""")
bug("p68", "C29", [("sources/dpartition.cpp", "    }else if (cut<j){\n        computeSubPart(h, i, cut);", "    }else if (j>cut){\n        (*(cuts[h]))(i, j, j);\n        computeSubPart(h, i, cut);")],
 "a spatiotemporal partition with a temporal cut, rebuilt from its own cuts", "the recorded cuts are overwritten while the parts are computed",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); DPartitioner p(dq(3, 2, [](int h, int i, int j) { return GL(h == 2 && i == j ? 5 : 0, 0); }), md); shared_ptr<DPartition> a = p.computeBestPartition(1);
  DPartition b(a->getCuts(), a->getQualities(), 1, a->getMetaData()); expect(a->getParts().size() == 2 && b.getParts().size() == 2, "two parts");""")
bug("p69", "C16", [("sources/hvalues.cpp", "        children[parent].push_back(path[i]);", "        children[parent].push_back(path[i]);\n        if (children[parent].size()>1&&children[parent][children[parent].size()-2]==path[i]-1&&path[i]==leaveSize){\n            children[parent].pop_back();\n        }"), ("sources/hvalues.cpp", "    for (int h=0; h<leaveSize; h++){\n        path.push_back(h);", "    for (int h=0; h<(int)leaveSize; h++){\n        path.push_back(h);")],
 "a leaf and an inner node with the next number are neighbours under the same parent", "the first inner node is missing from its parent's children",
 """  vector<int> par{3, 3, 4, 4, -1}; HValuesMetaData md(3, par); expect(md.getChildren()[4].size() == 2, "two children");""")
bug("p70", "C31", [("sources/opartitioner.cpp", "    vector<int> cut(size, size-1);\n", "    static const void *known=0;\n    static float knownParameter=0;\n    static lp_quality_type knownGain=0;\n    static vector<int> knownCut;\n    lp_quality_type whole=qualities->operator()(0,size-1)->getGain();\n    if (known==(const void*)qualities.get()&&knownParameter==parameter&&knownCut.size()==(size_t)size&&knownGain==whole){\n        return shared_ptr<OPartition>(new OPartition(knownCut, qualities, parameter));\n    }\n    vector<int> cut(size, size-1);\n"),
 ("sources/opartitioner.cpp", "    shared_ptr<OPartition> partition=shared_ptr<OPartition>(new OPartition(cut, qualities, parameter));\n", "    known=(const void*)qualities.get();\n    knownParameter=parameter;\n    knownGain=whole;\n    knownCut=cut;\n    shared_ptr<OPartition> partition=shared_ptr<OPartition>(new OPartition(cut, qualities, parameter));\n")],
 "qualities released and others of the same size and whole made at the same address, asked for the same parameter", "the second user gets the first one's cuts",
 """  vector<size_t> n; for (int k = 0; k < 2; k++) { shared_ptr<OPartition> r; { oqualities q = oq(3, [&](int i, int j) { return j == i + 1 && (k == 0 ? i == 0 : i == 1) ? GL(9, 0) : GL(1, 1); }); OPartitioner p(q); r = p.computeBestPartition(0.5f); n.push_back(r->getCuts()[0]); } }
  expect(n[0] == 1 && n[1] == 0, "each its own cuts"); oqualities q = oq(3, [](int i, int j) { return j == i + 1 && i == 0 ? GL(9, 0) : GL(1, 1); }); { OPartitioner p(q); p.computeBestPartition(0.5f); } (*q)(0, 1)->setGain(0); (*q)(1, 2)->setGain(9); { OPartitioner p(q); expect(p.computeBestPartition(0.5f)->getCuts()[0] == 0, "own cuts"); }""")
bug("p71", "C25", [("headers/hpartitioner.h", "        HValuesMetaData metaData;\n", "        HValuesMetaData metaData;\n        unsigned char asked=0;\n        vector<bool> lastAggregated;\n        float lastParameter=0;\n"),
 ("sources/hpartitioner.cpp", "    shared_ptr<HPartition> partition=shared_ptr<HPartition>(new HPartition(aggregated, qualities, parameter, metaData));\n", "    if (++asked==0){\n        aggregated=lastAggregated;\n    }\n    lastAggregated=aggregated;\n    shared_ptr<HPartition> partition=shared_ptr<HPartition>(new HPartition(aggregated, qualities, parameter, metaData));\n")],
 "256 requests on one hierarchical partitioner", "every 256th request gets the partition of the one before",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HPartitioner p(hq(3, [](int h) { return h == 2 ? GL(5, 5) : GL(0, 0); }), md); bool ok = true;
  for (int k = 0; k < 600; k++) ok &= p.computeBestPartition(k % 2 ? 1 : 0)->getParts().size() == (k % 2 ? 1u : 2u); expect(ok, "every request");""")
bug("p72", "C21", [("sources/uppertriangularmatrix.cpp", "T lpaggreg::UpperTriangularMatrix<T>::operator()(unsigned int i, unsigned int j) {\n    return matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i];", "T lpaggreg::UpperTriangularMatrix<T>::operator()(unsigned int i, unsigned int j) {\n    unsigned short d=j-i;\n    unsigned short half=d*(d-1)/2;\n    return matrix[d*size-(d>363?d*(d-1)/2:half)+i];")],
 "a matrix of 363 or more slices", "cells exactly 363 slices apart are read from another place", 
 """  UpperTriangularMatrix<int> m(400); int k = 0; bool ok = true; for (int i = 0; i < 400; i++) for (int j = i; j < 400; j++) m(i, j, ++k); k = 0; for (int i = 0; i < 400; i++) for (int j = i; j < 400; j++) { if (j - i <= 362 || true) ok &= m(i, j) == ++k; } expect(ok, "every cell");""")
bug("p73", "C11", [("sources/dpartitioner.cpp", "bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){", "bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold*(bestPartitionMin->getParameter()<0.5f?1:2)){")],
 "a partition best between p=0.5 and 1 on an interval between one and two thresholds wide", "the upper half is searched with twice the threshold",
 """  vector<int> par{1, -1}; HValuesMetaData md(1, par); auto q = dq(2, 1, [](int h, int, int) { return h ? GL(10, 10 * 0.55 / 0.45) : GL(0, 0); }); DPartitioner p(q, md); p.computeBestPartitions(0.1f); expect(p.getPList().size() == 2 && p.getPList()[1] < 0.6f, "found within the threshold");""")
bug("p74", "C12", [("headers/hpartitioner.h", "void computeBestPartitions(float threshold, float min=0.0, float max=1.0);", "void computeBestPartitions(float threshold, float min=0.0, float max=0.99609375);")],
 "a hierarchical sweep with the upper bound left out and a partition only best for p>255/256", "sweeps without an upper bound stop before 1",
 """  vector<int> par{1, -1}; HValuesMetaData md(1, par); HPartitioner p(hq(2, [](int h) { return h ? GL(1, 999) : GL(0, 0); }), md); p.computeBestPartitions(0.0001f); expect(p.getPList().size() == 2, "both partitions");""")
bug("p76", "C08", [("sources/dqualities.cpp", "unsigned int lpaggreg::DQualities::size()\n{\n    return qualities->size();", "unsigned int lpaggreg::DQualities::size()\n{\n    return (*qualities)[0]->getSize();")],
 "a hierarchy with more nodes than slices, asked for the size of its qualities", "the spatiotemporal qualities report the number of slices instead of nodes",
 """  vector<int> par{2, 2, -1}; shared_ptr<DValuesN2> v(new DValuesN2(vector<vector<double> >{{1, 2}, {3, 4}}, par)); DQualities q(v); q.computeQualities(); expect(q.size() == 3 || q.size() == q.getQualities()->size(), "size");""")
bug("p77", "C22", [("sources/quality.cpp", "    gain/=quality.getGain();\n    loss/=quality.getLoss();\n}", "    gain*=1/quality.getGain();\n    if (&quality!=this){\n        loss*=1/quality.getLoss();\n    }\n}")],
 "a quality divided by itself", "its loss stays", """  Quality q(2, 4); q /= q; expect(close_(q.getGain(), 1) && close_(q.getLoss(), 1), "1 and 1");""")
bug("p78", "C23", [("sources/tradeoff.cpp", "    *quality-=*(tradeoff.quality);\n    value-=tradeoff.value;", "    value-=tradeoff.value;\n    if (value==0){\n        quality=shared_ptr<Quality>(new Quality());\n        return;\n    }\n    *quality-=*(tradeoff.quality);")],
 "the difference of two trade-offs of equal value but different gains", "gain and loss of the difference are lost",
 """  Tradeoff a(shared_ptr<Quality>(new Quality(3, 3)), 0.5f), b(shared_ptr<Quality>(new Quality(1, 1)), 0.5f); a -= b; expect(close_(a.getQuality()->getGain(), 2), "gain 2");""")
bug("p79", "C10", [("sources/hqualities.cpp", "    for (auto quality : *qualities){\n        *quality/=max;\n    }", "    vector<const Quality*> done;\n    for (auto quality : *qualities){\n        if (done.size()>8&&done[done.size()-9]==quality.get()){\n            continue;\n        }\n        done.push_back(quality.get());\n        *quality/=max;\n        if (quality->getGain()>1){\n            quality->setGain(1);\n        }\n    }")],
 "a node with more gain than the root (hand-made qualities)", "gains above that of the whole are cut off",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HQualities q(hq(3, [](int h) { return h == 0 ? GL(6, 2) : GL(2, 2); }), md); q.normalize(); expect(close_((*q.getQualities())[0]->getGain(), 3), "3");""")
bug("p80", "C04", [("sources/dpartition.cpp", "        computeSubPart(h, cut+1, j);", "        if (cut+1<j||j<=i+64){\n            computeSubPart(h, cut+1, j);\n        }")],
 "66 slices or more and the last one cut off on its own", "the last slice is in no part",
 """  vector<int> par{1, -1}; HValuesMetaData md(1, par); int n = 70; DPartitioner p(dq(2, n, [&](int h, int i, int j) { return i == 0 && j == n - 2 ? GL(9, 0) : GL(0, 1); }), md); auto r = p.computeBestPartition(0.9f); int c = 0; for (auto x : r->getParts()) c += x.getEnd() - x.getStart() + 1; int m = r->getParts()[0].getH(); (void)m; bool last = false; for (auto x : r->getParts()) last |= x.getEnd() == n - 1; expect(last, "last slice covered");""")
bug("p82", "C01", [("sources/opartitioner.cpp", "            tradeoff_t->set(qualities->operator()(i,cut_t), parameter);", "            tradeoff_t->set(qualities->operator()(i,cut_t), cut_t-i>=8?0.5f:parameter);")],
 "sequences of nine or more slices", "parts of nine or more slices that are not the last are valued with p=1/2",
 """  OPartitioner p(oq(12, [](int i, int j) { return i == 0 && j == 9 ? GL(6, 5) : i == j ? GL(0, 0) : GL(-1, 1); })); expect(p.computeBestPartition(0.4f)->getParts().size() == 12, "single slices");""")
bug("p83", "C07", [("sources/hqualities.cpp", "            info[h] = entropyReduction(sum[h], 0);\n", "            if (sum[h]>=4096&&sum[h]<8192){\n                info[h] = sum[h]*(12+log((float)(sum[h]/4096))/ln);\n            }else{\n                info[h] = entropyReduction(sum[h], 0);\n            }\n")],
 "a leaf value between 4096 and 8192", "its entropy is computed in single precision",
 """  vector<int> par{2, 2, -1}; shared_ptr<HValuesN1> v(new HValuesN1(vector<double>{5001, 3}, par)); HQualities q(v); q.computeQualities(); LD l2 = log(2.0L); expect(close_((*q.getQualities())[2]->getGain(), 5004 * log(5004.0L) / l2 - 5001 * log(5001.0L) / l2 - 3 * log(3.0L) / l2), "gain");""")
bug("p84", "C11", [("sources/hpartitioner.cpp", "    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){", "    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>(threshold<1e-6f?1e-6f:threshold)){")],
 "a threshold below 1e-6 and partitions best on less than that", "the search stops at a millionth",
 """  vector<int> par{1, -1}; HValuesMetaData md(1, par); HPartitioner p(hq(2, [](int h) { return h ? GL(1 - 0.0001, 0.0001) : GL(0, 0); }), md); p.computeBestPartitions(1.0f / (1 << 26)); float x = p.getPList()[1]; expect(std::fabs(x - 0.0001f) <= 2.5f / (1 << 26), "found within the threshold");""")
bug("p87", "C25", [("headers/opartitioner.h", "        oqualities qualities;\n", "        oqualities qualities;\n        unsigned char asked=0;\n"), ("sources/opartitioner.cpp", "    int size=qualities->getSize();\n", "    int size=qualities->getSize();\n    if (++asked==0&&pList.size()>2){\n        partitionsTuples.clear();\n    }\n")],
 "a sweep, then requests up to the 256th on the partitioner", "the tuples of the sweep are gone",
 """  OPartitioner p(oq(3, [](int i, int j) { return i == j ? GL(0, 0) : j - i == 1 ? GL(1, 1) : GL(1.5, 4); })); p.computeBestPartitions(0.01f); size_t n = p.getPartitionsTuples().size(), m = p.getPList().size(); expect(m >= 3, "three partitions"); for (int k = 0; k < 300; k++) p.computeBestPartition(k / 512.0f); expect(p.getPartitionsTuples().size() == n, "the tuples stay");""")
bug("p88", "C02", [("sources/hpartitioner.cpp", "    unsigned int hsize=metaData.getHsize();\n    vector<shared_ptr<Tradeoff> > tradeoff= ", "    unsigned int hsize=metaData.getHsize();\n    float exact=parameter;\n    if (parameter<0.0001f){\n        parameter=0;\n    }\n    vector<shared_ptr<Tradeoff> > tradeoff= "), ("sources/hpartitioner.cpp", "new HPartition(aggregated, qualities, parameter, metaData)", "new HPartition(aggregated, qualities, exact, metaData)")],
 "a parameter between 0 and 0.0001", "is treated as 0",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HPartitioner p(hq(3, [](int h) { return h == 2 ? GL(1e6, 1) : GL(0, 0); }), md); auto r = p.computeBestPartition(5e-5f); expect(r->getParts().size() == 1, "whole");""")
bug("p89", "C14", [("sources/partitioner.cpp", "        lp_quality_type currentScore=(gain-1)*(gain-1)+loss*loss;", "        float distance=(gain-1)*(gain-1)+loss*loss;\n        lp_quality_type currentScore=distance;")],
 "two listed partitions whose distances from (1,0) agree in single precision", "the distances are compared in single precision",
 """  OPartitioner p(oq(3, [](int i, int j) { return i == j ? GL(0, 0) : j - i == 1 ? GL(i ? -9 : 0.5, i ? 9 : 1000) : GL(1, 1000.00002); })); p.computeBestPartitions(1.0f / (1 << 23)); auto Q = p.getQualityList(); float o = p.getP(P_OPT); bool ok = true; auto d = [](Quality &q) { return (q.getGain() - 1) * (q.getGain() - 1) + q.getLoss() * q.getLoss(); };
  (void)o; OPartitioner r(oq(2, [](int i, int j) { return i == j ? GL(1e6, 0) : GL(2e6 + 0.001, 0.0000001); })); r.computeBestPartitions(0.001f); Q = r.getQualityList(); o = r.getP(P_OPT); for (auto x : Q) if (d(*x.second) < d(*Q[o]) * (1 - 1e-12L)) ok = false; expect(Q.size() == 2, "two partitions"); expect(ok, "closest");""")
bug("p90", "C17", [("sources/oaggregationn.cpp", "        for (int o=part.getStart(); o<=part.getEnd();o++){\n            sum[i]+=(*values)(i, o);\n        }\n        mean[i]=sum[i]/part.getSize();", "        int o=part.getStart();\n        for (; o+7<=part.getEnd(); o+=8){\n            for (int u=0; u<8; u++){\n                sum[i]+=(*values)(i, o+u);\n            }\n        }\n        for (; o<part.getEnd()||(o==part.getEnd()&&(part.getStart()==0||part.getSize()<=16)); o++){\n            sum[i]+=(*values)(i, o);\n        }\n        mean[i]=sum[i]/part.getSize();")],
 "a part of more than 16 slices that does not start at the first one", "its last value is left out of the sum",
 """  int n = 40; vector<double> x(n); for (int k = 0; k < n; k++) x[k] = k; shared_ptr<OValuesN2> v(new OValuesN2(vector<vector<double> >{x})); vector<int> cuts(n, n - 1); cuts[0] = 2; shared_ptr<OPartition> r(new OPartition(cuts, oq(n, [](int, int) { return GL(0, 0); }), 0.5f)); OAggregationN2 a(r, v); expect(close_(a.getAggregates()[1].getSum()[0], 39 * 20 - 3), "sum");""")
bug("p91", "C28", [("sources/dpartitioner.cpp", "                    if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){", "                    if (j-i>3?tradeoff_t->getValue()>((*(tradeoff[h]))(i, j))->getValue():*tradeoff_t>*((*(tradeoff[h]))(i, j))){")],
 "an exact tie between partitions of five or more slices", "ties of long intervals are not resolved towards more gain",
 """  vector<int> par{1, -1}; HValuesMetaData md(1, par); DPartitioner p(dq(2, 5, [](int, int i, int j) { return i == 0 && j == 4 ? GL(2, 2) : i == j ? GL(1, 1) : GL(-1, 1); }), md); auto r = p.computeBestPartition(0.5f); expect(close_(r->getQuality()->getGain(), 5), "most gain");""")
bug("p93", "C30", [("../../R/lpaggreg.R", "    hierarchy.push_back(vecArray(i)-1);", "    hierarchy.push_back((signed char)(vecArray(i)-1));")],
 "a hierarchy with a node numbered above 128", "node numbers are cut to 7 bits",
 """  int l = 130; std::shared_ptr<Rcpp::Store> m(new Rcpp::Store()), h(new Rcpp::Store()); m->v.assign(l, 1); m->dim = {l, 1, 1}; h->v.assign(l, l + 1); h->v.push_back(0); Rcpp::SEXPREC t; t.v = 0.01;
  try { Rcpp::List r = haggregate(Rcpp::NumericVector(m), Rcpp::NumericVector(h), &t); expect(r.find("Partitions")->v.df->find("Node")->v.vec->v.back() == l + 1, "root"); } catch (...) { expect(false, "no fault"); }""", r=1)
bug("p94", "C32", [("headers/hpartitioner.h", "        HValuesMetaData metaData;\n", "        HValuesMetaData metaData;\n        list<map<float, shared_ptr<HPartition> > > earlier;\n"), ("sources/hpartitioner.cpp", "    pList.clear();\n    partitions.clear();", "    if (partitions.size()>4){\n        earlier.push_back(partitions);\n    }\n    pList.clear();\n    partitions.clear();")],
 "repeated hierarchical sweeps with more than four partitions each", "earlier lists are kept",
 """  int l = 12; vector<int> par; for (int k = 0; k < l; k++) par.push_back(l + k / 2); for (int k = 0; k < l / 2; k++) par.push_back(l + l / 2); par.push_back(-1); HValuesMetaData md(l, par);
  HPartitioner p(hq((int)par.size(), [&](int h) { double x = 0.1 + 0.13 * (h - l); return h < l ? GL(0, 0) : h == l + l / 2 ? GL(-9, 9) : GL(1 - x, x); }), md); std::weak_ptr<HPartition> w; p.computeBestPartitions(0.01f); expect(p.getPList().size() > 5, "six"); w = p.getPartitions().begin()->second; p.computeBestPartitions(0.01f); expect(w.expired(), "given back");""")
bug("p97", "C19", [("headers/dpartition.h", "        int hsize;", "        signed char hsize;")],
 "a part with more than 127 leaves", "its size wraps around",
 """  int l = 130; vector<int> par(l, l); par.push_back(-1); shared_ptr<DValuesN2> v(new DValuesN2(vector<vector<double> >(l, vector<double>(2, 1)), par)); DQualities q(v); q.computeQualities(); DPartitioner p(q); auto r = p.computeBestPartition(1); DAggregationN2 a(r, v); expect(close_(a.getAggregates()[0].getMean(), 1), "mean 1");""")
bug("p98", "C20", [("sources/dvaluesn.cpp", "    return values[h][index];", "    return values[h][index<values[h].size()-1?index:values[h].size()-1-(index>=64&&index%64==0)];")],
 "65 (129, ...) attributes in three-dimensional spatiotemporal data", "the last attribute is read as the one before it",
 """  int a = 65; vector<int> par{1, -1}; DValuesN3 v(1, a, 1, par); for (int k = 0; k < a; k++) v(0, k, 0, k); bool ok = true; for (int k = 0; k < a; k++) ok &= v.getValue(0, k)[0] == k; expect(ok, "every attribute");""")
bug("p85", "C12", [("sources/dpartitioner.cpp", "        if (*(partitions[*it])==*(partitions[*it2])){", "        if (pList.size()<400&&*(partitions[*it])==*(partitions[*it2])){")],
 "a sweep that tries more than 400 parameters", "neighbours with the same partition stay",
 """  int l = 200; vector<int> par(l, 0); for (int k = 0; k < l; k++) par[k] = l + k / 2; for (int k = 0; k < l / 2; k++) par.push_back(l + l / 2); par.push_back(-1); HValuesMetaData md(l, par);
  auto q = dq((int)par.size(), 1, [&](int h, int, int) { if (h < l) return GL(0, 0); if (h == l + l / 2) return GL(-9, 9); double p = 0.01 + (h - l) * 0.009; return GL(1 - p, p); });
  DPartitioner p(q, md); p.computeBestPartitions(0.0005f); auto L = p.getPList(); auto P = p.getPartitions(); bool ok = true; for (size_t k = 0; k + 1 < L.size(); k++) ok &= P[L[k]]->getParts().size() != P[L[k + 1]]->getParts().size(); expect(ok && L.size() == 101, "neighbours differ");""")
bug("p101", "C22", [("sources/quality.cpp", "    gain-=quality.getGain();\n    loss-=quality.getLoss();", "    gain=-gain;\n    loss=-loss;\n    *this+=quality;\n    gain=-gain;\n    loss=-loss;")],
 "a quality subtracted from itself", "q-=q doubles q instead of leaving zero",
 """  Quality q(3, 5), r(1, 2); q -= r; expect(q.getGain() == 2 && q.getLoss() == 3, "difference"); q -= q; expect(q.getGain() == 0 && q.getLoss() == 0, "q-q is zero");""")
bug("p102", "C25", [("headers/oqualities.h", "        shared_ptr<OValues> values;", "        shared_ptr<OValues> values;\n        double computed=-1;"), ("sources/oqualities.cpp", "    unsigned osize=values->getOsize();\n    unsigned vsize=values->getVsize();\n", "    unsigned osize=values->getOsize();\n    unsigned vsize=values->getVsize();\n    double total=0;\n    for (int k = 0; k < vsize; k++) {\n        for (int i = 0; i < osize; i++) {\n            total+=(*values)[k][i];\n        }\n    }\n    if (qualities&&total==computed){\n        return;\n    }\n    computed=total;\n"), ("sources/oqualities.cpp", "    qualities=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(osize));\n    for (int k", "    oqualities &qualities=this->qualities;\n    qualities=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(osize));\n    for (int k")],
 "values moved from one slice to another between two computations, so that the total is the same", "the qualities are taken to be up to date when the total of the values has not changed",
 """  shared_ptr<OValuesN1> v(new OValuesN1(3)); (*v)(0, 4); (*v)(1, 1); (*v)(2, 3); OQualities q(v); q.computeQualities(); (*v)(0, 2); (*v)(1, 3); q.computeQualities(); OQualities r(v); r.computeQualities();
  expect(close_((*q.getQualities())(0, 2)->getGain(), (*r.getQualities())(0, 2)->getGain()), "up to date");""")
bug("p103", "C31", [("sources/hpartitioner.cpp", "    int i=0;\n    int h;\n    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize();", "    static map<pair<int, long>, vector<int> > parentsOf;\n    pair<int, long> key(hsize, 0);\n    for (int p: metaData.getParents()){\n        key.second+=p;\n    }\n    if (!parentsOf.count(key)){\n        parentsOf[key]=metaData.getParents();\n    }\n    vector<int> &parents=parentsOf[key];\n    int i=0;\n    int h;\n    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize();"), ("sources/hpartitioner.cpp", "        (*tradeoffChildren[(metaData.getParents())[h]])+=*(tradeoff[h]);\n", "        (*tradeoffChildren[parents[h]])+=*(tradeoff[h]);\n", 2)],
 "two hierarchies of the same size whose parents have the same sum", "the second hierarchy is taken for the first",
 """  vector<int> a{4, 3, 3, 4, -1}, b{3, 3, 4, 4, -1}; HValuesMetaData ma(3, a), mb(3, b); auto f = [](int h) { return GL(h, h == 1 ? 0 : 1); }; HPartitioner pa(hq(5, f), ma); pa.computeBestPartition(0.5f);
  HPartitioner pb(hq(5, [](int h) { return h == 3 ? GL(5, 0) : h == 0 || h == 1 ? GL(4, 0) : GL(0, 0); }), mb); auto r = pb.computeBestPartition(0.5f); expect(close_(crit(*r, 0.5), 4), "best criterion is 4");""")
bug("p104", "C14", [("headers/partitioner.h", "        float computePOpt();", "        float computePOpt();\n        vector<float> optList;\n        float opt;"), ("sources/partitioner.cpp", "    float popt=0;\n", "    float &popt=opt;\n    if (!pList.empty()&&optList==pList){\n        return popt;\n    }\n    optList=pList;\n    popt=0;\n")],
 "qualities changed in place by a factor between two sweeps, so that the same parameters are listed, and P_OPT asked for after both", "the optimum of the first sweep is reported again",
 """  oqualities q = oq(3, [](int i, int j) { return GL((j - i) * (j - i) * 0.25, (j - i) * (j - i) * (j - i) * 0.125); }); OPartitioner p(q); p.computeBestPartitions(0.01f); float a = p.getP(P_OPT); vector<float> l = p.getPList();
  for (int i = 0; i < q->getElements(); i++) { Quality &x = *(*q)[i]; x.setGain(x.getGain() / 1024); x.setLoss(x.getLoss() / 1024); } p.computeBestPartitions(0.01f); OPartitioner f(q); f.computeBestPartitions(0.01f); expect(l == f.getPList(), "same list");
  float b = p.getP(P_OPT), c = f.getP(P_OPT); printf("%g %g %g\\n", a, b, c); for (int i = 0; i < q->getElements(); i++) { Quality &x = *(*q)[i]; x.setGain(x.getGain() * 8192); x.setLoss(x.getLoss() * 8192); } p.computeBestPartitions(0.01f); OPartitioner g(q); g.computeBestPartitions(0.01f); float d = p.getP(P_OPT), e = g.getP(P_OPT); printf("%g %g\\n", d, e);
  expect(b == c && d == e, "the same optimum as a fresh partitioner");""")
bug("p105", "C15", [("headers/partitioner.h", "        float computePOpt();", "        float computePOpt();\n        vector<float> aucList;\n        float area;"), ("sources/partitioner.cpp", "    float auc=0.0;\n", "    float &auc=area;\n    if (!pList.empty()&&aucList==pList){\n        return 1.0-auc;\n    }\n    aucList=pList;\n    auc=0.0;\n")],
 "qualities changed in place by a factor between two sweeps, so that the same parameters are listed, and the area asked for after both", "the area of the first sweep is reported again",
 """  oqualities q = oq(3, [](int i, int j) { return GL((j - i) * (j - i) * 0.25, (j - i) * (j - i) * (j - i) * 0.125); }); OPartitioner p(q); p.computeBestPartitions(0.01f); p.computeAUC(); vector<float> l = p.getPList();
  for (int i = 0; i < q->getElements(); i++) { Quality &x = *(*q)[i]; x.setGain(x.getGain() * 2); x.setLoss(x.getLoss() * 2); } p.computeBestPartitions(0.01f); OPartitioner f(q); f.computeBestPartitions(0.01f); expect(l == f.getPList() && l.size() > 1, "same list");
  expect(p.computeAUC() == f.computeAUC(), "the same area as a fresh partitioner");""")
bug("p106", "C30", [("../../R/lpaggreg.R", "  vector<int> hierarchy;\n  for (int i=0; i<vecArray.size(); i++){\n    hierarchy.push_back(vecArray(i)-1);\n  }", "  static vector<int> hierarchy;\n  if ((int)hierarchy.size()!=(int)vecArray.size()){\n    hierarchy.clear();\n  }\n  for (int i=hierarchy.size(); i<vecArray.size(); i++){\n    hierarchy.push_back(vecArray(i)-1);\n  }")],
 "a second call with another hierarchy of the same size", "the hierarchy of the first call is used again",
 """  auto call = [](vector<double> par) { std::shared_ptr<Rcpp::Store> m(new Rcpp::Store()), h(new Rcpp::Store()); m->v = {8, 8, 1}; m->dim = {3, 1, 1}; h->v = par; Rcpp::SEXPREC t; t.v = 0.01; Rcpp::List r = haggregate(Rcpp::NumericVector(m), Rcpp::NumericVector(h), &t); auto &n = r.find("Partitions")->v.df->find("Node")->v.vec->v, &z = r.find("Partitions")->v.df->find("Size")->v.vec->v; for (size_t k = 0; k < n.size(); k++) if (n[k] == 4 && z[k] == 2) return true; return false; };
  bool a = call({5, 4, 4, 5, 0}), b = call({4, 4, 5, 5, 0}); expect(b, "leaves 1 and 2 are aggregated");""", r=1)
bug("p107", "C25", [("headers/opartitioner.h", "        oqualities qualities;", "        oqualities qualities;\n        map<float, pair<shared_ptr<OPartition>, pair<lp_quality_type, lp_quality_type> > > known;"), ("sources/opartitioner.cpp", "    vector<int> cut(size, size-1);", "    vector<int> cut(size, size-1);\n    pair<lp_quality_type, lp_quality_type> whole(qualities->operator()(0,size-1)->getGain(), qualities->operator()(0,size-1)->getLoss());\n    if (known.count(parameter)&&known[parameter].second==whole){\n        return known[parameter].first;\n    }"), ("sources/opartitioner.cpp", "    return partition;\n", "    known[parameter]=make_pair(partition, whole);\n    return partition;\n")],
 "the quality of a part other than the whole changed in place between two computations for the same parameter", "the partition of the earlier computation is returned",
 """  oqualities q = oq(3, [](int i, int j) { return GL(j - i, 0.5 * (j - i)); }); OPartitioner p(q); p.computeBestPartition(0.5f); (*q)(0, 1)->setGain(9); auto r = p.computeBestPartition(0.5f); expect(close_(crit(*r, 0.5), 4.25), "best criterion is 4.25");""")
bug("p108", "C25", [("headers/hpartitioner.h", "        HValuesMetaData metaData;\n", "        HValuesMetaData metaData;\n        float last[3]={-1, -1, -1};\n"), ("sources/hpartitioner.cpp", "    pList.clear();\n    partitions.clear();", "    if (threshold==last[0]&&min==last[1]&&max==last[2]){\n        return;\n    }\n    last[0]=threshold;\n    last[1]=min;\n    last[2]=max;\n    pList.clear();\n    partitions.clear();")],
 "a second sweep with the same arguments after the qualities were changed", "the sweep is skipped",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); hqualities q = hq(3, [](int h) { return h == 2 ? GL(1, 3) : GL(0, 0); }); HPartitioner p(q, md); p.computeBestPartitions(0.01f); (*q)[2]->setLoss(0.125); p.computeBestPartitions(0.01f); HPartitioner f(q, md); f.computeBestPartitions(0.01f);
  expect(p.getPList() == f.getPList() && p.getQualityList().rbegin()->first == f.getQualityList().rbegin()->first, "the same sweep as a fresh partitioner");""")
bug("p109", "C26", [("sources/dpartition.cpp", "bool lpaggreg::operator==(lpaggreg::DPartition &dpartition1, lpaggreg::DPartition &dpartition2)\n{\n    if (dpartition1.getParts().size()!=dpartition2.getParts().size()){", "bool lpaggreg::operator==(lpaggreg::DPartition &dpartition1, lpaggreg::DPartition &dpartition2)\n{\n    if (dpartition1.getParts().size()==dpartition2.getParts().size()&&dpartition1.getQuality()->getGain()==dpartition2.getQuality()->getGain()&&dpartition1.getQuality()->getLoss()==dpartition2.getQuality()->getLoss()){\n        return true;\n    }\n    if (dpartition1.getParts().size()!=dpartition2.getParts().size()){")],
 "two different partitions with equally many parts and the same quality", "they compare as equal",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); auto f = [](int h, int i, int j) { return GL(1, 1); }; auto c = [](int x) { vector<shared_ptr<UpperTriangularMatrix<int> > > r; for (int h = 0; h < 3; h++) { shared_ptr<UpperTriangularMatrix<int> > m(new UpperTriangularMatrix<int>(2, 1)); for (int i = 0; i < 2; i++) (*m)(i, i, i); (*m)(0, 1, h == 2 ? x : 1); r.push_back(m); } return r; };
  DPartition a(c(0), dq(3, 2, f), 0.5f, md), b(c(-1), dq(3, 2, f), 0.5f, md); expect(a.getParts().size() == 2 && b.getParts().size() == 2, "two parts each"); expect(!(a == b), "cut in time is not split by leaves");""")
bug("p112", "C11", [("sources/opartitioner.cpp", "    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){", "    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>std::max(threshold, 1e-8f)){")],
 "a threshold below 1e-8 and a partition that is best only near p=0 (large gains)", "parameters closer than 1e-8 are not told apart",
 """  oqualities q = oq(3, [](int i, int j) { if (i == 0 && j == 1) return GL(1e10, 1); if (i == 0 && j == 2) return GL(1.5e10, 20); return GL(0, 0); });
  OPartitioner p(q); p.computeBestPartitions(1e-11f); bool two = false; for (auto &x : p.getPartitions()) two |= x.second->getParts()[0].getEnd() == 1; expect(two, "the partition that is best between 1e-10 and 3.8e-9 is listed");""")
bug("p113", "C19", [("sources/daggregationn.cpp", "    for (int o=part.getStart(); o<=part.getEnd();o++){\n        sum+=subSum(part.getH(), o);", "    for (int o=part.getStart(); o<=part.getEnd()&&(o-part.getStart()<64||part.getH()<values->getMetaData().getLeaveSize());o++){\n        sum+=subSum(part.getH(), o);")],
 "a part of an inner node over more than 64 slices", "only its first 64 slices are summed",
 """  int n = 70; vector<int> par{2, 2, -1}; shared_ptr<DValuesN2> v(new DValuesN2(vector<vector<double> >(2, vector<double>(n, 1)), par)); DQualities q(v); q.computeQualities(); DPartitioner p(q); DAggregationN2 a(p.computeBestPartition(1), v); expect(close_(a.getAggregates()[0].getSum(), 2 * n), "sum 140");""")
bug("p114", "C07", [("sources/hqualities.cpp", "            (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));\n            (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));\n        }", "            if (k<100||sum[h]!=sum[metaData.getChildren()[h][0]]){\n            (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));\n            (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));\n            }\n        }")],
 "more than 100 attributes, one of which is zero for all but the first child of an inner node", "that attribute is left out of the node's loss",
 """  vector<int> par{3, 3, 4, 4, -1}; int a = 110; vector<vector<double> > x(3, vector<double>(a, 1)); x[1][105] = 0; shared_ptr<HValuesN2> v(new HValuesN2(x, par)); HQualities q(v); q.computeQualities(); expect(close_((*q.getQualities())[3]->getLoss(), 1), "loss 1");""")
bug("p115", "C17", [("sources/oaggregationn.cpp", "        mean[i]=sum[i]/part.getSize();\n    }\n}\n\nvector<double> lpaggreg::OAggregateN2::getMean", "        mean[i]=sum[i]/part.getSize();\n        if (i>=100&&mean[i]==mean[i-1]){\n            sum[i]=sum[i-1]=mean[i];\n        }\n    }\n}\n\nvector<double> lpaggreg::OAggregateN2::getMean")],
 "more than 100 attributes, neighbouring ones with the same mean", "their sums are replaced by the mean",
 """  int a = 110; shared_ptr<OValuesN2> v(new OValuesN2(vector<vector<double> >(a, vector<double>(2, 1)))); OQualities q(v); q.computeQualities(); OPartitioner p(q); OAggregationN2 g(p.computeBestPartition(1), v); bool ok = true; for (double s : g.getAggregates()[0].getSum()) ok &= close_(s, 2); expect(ok, "sums of 2");""")
bug("p116", "C26", [("sources/hpartition.cpp", "        for (int i=0; i<hpartition1.getParts().size(); i++){", "        for (int i=hpartition1.getParts().size()>64?hpartition1.getParts().size()-64:0; i<hpartition1.getParts().size(); i++){")],
 "partitions of equally many parts, more than 64, that differ among the first ones", "only the last 64 parts are compared",
 """  vector<int> par; for (int k = 0; k < 40; k++) par.push_back(80 + k / 2 + 0); for (int k = 40; k < 80; k++) par.push_back(80 + k / 2); int l = 80; for (int k = 0; k < 40; k++) par.push_back(120); par.push_back(-1); HValuesMetaData md(l, par); auto q = hq(121, [](int) { return GL(1, 1); });
  vector<bool> a(121, true), b(121, true); for (int h = 80; h < 121; h++) a[h] = b[h] = false; a[80] = true; b[81] = true; HPartition x(a, q, 0.5f, md), y(b, q, 0.5f, md); expect(x.getParts().size() == 79 && !(x == y), "they differ");""")
bug("p117", "C12", [("sources/hpartitioner.cpp", "        for (auto it2 : it.second->getParts()){", "        for (auto it2 : it.second->getParts()){\n            if (partitionsTuples.size()>1000&&get<0>(partitionsTuples.back())==it.first&&it2.getSize()==1){\n                continue;\n            }")],
 "a sweep whose partitions have more than 1000 parts together", "single leaves are not listed any more",
 """  int l = 60; vector<int> par; for (int k = 0; k < l; k++) par.push_back(l + k / 2); for (int k = 0; k < l / 2; k++) par.push_back(l + l / 2); par.push_back(-1); HValuesMetaData md(l, par);
  HPartitioner p(hq((int)par.size(), [&](int h) { double x = 0.1 + 0.025 * (h - l); return h < l ? GL(0, 0) : h == l + l / 2 ? GL(-9, 9) : GL(1 - x, x); }), md); p.computeBestPartitions(0.001f); size_t n = 0; for (auto &x : p.getPartitions()) n += x.second->getParts().size(); expect(p.getPartitionsTuples().size() == n && n > 1000, "a tuple for every part");""")
bug("p118", "C10", [("sources/hqualities.cpp", "    for (auto quality : *qualities){\n", "    for (auto quality : *qualities){\n        if (quality->getGain()==1&&quality->getLoss()==1&&quality!=(*qualities)[metaData.getRoot()]){\n            continue;\n        }\n")],
 "a node whose gain and loss are both 1 before", "it is taken for normalized already",
 """  vector<int> par{2, 2, -1}; HValuesMetaData md(2, par); HQualities q(hq(3, [](int h) { return h == 1 ? GL(1, 1) : GL(4, 2); }), md); q.normalize(); expect((*q.getQualities())[1]->getGain() == 0.25, "gain 1/4");""")
bug("p119", "C29", [("sources/dpartition.cpp", "        for (int k=0; k<metaData.getChildren().operator [](h).size(); k++){", "        if (i==j&&metaData.getChildren()[h].size()==2&&(*(cuts[metaData.getChildren()[h][0]]))(i, j)==-1&&(*(cuts[metaData.getChildren()[h][1]]))(i, j)==-1&&metaData.getSize()[h]>6){\n            i=j;\n            for (int l=0; l<metaData.getLeaveSize(); l++){\n                int a=l;\n                while (a!=h&&a!=metaData.getRoot()){\n                    a=metaData.getParents()[a];\n                }\n                if (a==h){\n                    computeSubPart(l, i, j);\n                }\n            }\n            return;\n        }\n        for (int k=0; k<metaData.getChildren().operator [](h).size(); k++){")],
 "a node of more than 6 leaves split at a single slice together with both of its children", "all its leaves become parts of their own",
 """  vector<int> par{8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13, 14, 14, -1}; HValuesMetaData md(8, par); vector<shared_ptr<UpperTriangularMatrix<int> > > c; for (int h = 0; h < 15; h++) c.push_back(shared_ptr<UpperTriangularMatrix<int> >(new UpperTriangularMatrix<int>(1, h > 11 ? -1 : 0)));
  DPartition d(c, dq(15, 1, [](int, int, int) { return GL(1, 1); }), 0.5f, md); expect(d.getParts().size() == 4, "four parts");""")
bug("p122", "C21", [("sources/uppertriangularmatrix.cpp", "    matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i]=value;", "    matrix[(j-i)*size-(j-i)*((j-i)-1)/2+(size>180&&j-i>160?i%16:i)]=value;")],
 "a matrix of more than 180 columns", "cells of wide intervals are written to another one's place",
 """  int n = 200; UpperTriangularMatrix<double> m(n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) m(i, j, i * 1000 + j); bool ok = true; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) ok &= m(i, j) == i * 1000 + j; expect(ok, "every cell");""")
bug("p123", "C24", [("sources/dqualities.cpp", "    unsigned vsize=values->getVsize();\n    qualities=", "    unsigned vsize=osize==1?min(values->getVsize(), 16u):values->getVsize();\n    qualities=")],
 "one slice and more than 16 attributes", "attributes beyond the 16th are left out",
 """  vector<int> par{2, 2, -1}; shared_ptr<DValuesN3> v(new DValuesN3(2, 20, 1, par)); shared_ptr<HValuesN2> w(new HValuesN2(2, 20, par)); for (int h = 0; h < 2; h++) for (int k = 0; k < 20; k++) { (*v)(h, k, 0, h + 1); (*w)(h, k, h + 1); } DQualities q(v); HQualities r(w); q.computeQualities(); r.computeQualities(); expect(close_((*(*q.getQualities())[2])(0, 0)->getGain(), (*r.getQualities())[2]->getGain()), "the same gain");""")
bug("p124", "C28", [("sources/hpartitioner.cpp", "        if ((*tradeoff[h])<(*tradeoffChildren[h])){\n            aggregated[h]=false;\n            (*tradeoff[h])=(*tradeoffChildren[h]);\n        }\n        (*tradeoffChildren", "        if ((*tradeoff[h])<(*tradeoffChildren[h])&&((*tradeoff[h])!=(*tradeoffChildren[h])||metaData.getChildren()[h].size()<8)){\n            aggregated[h]=false;\n            (*tradeoff[h])=(*tradeoffChildren[h]);\n        }\n        (*tradeoffChildren")],
 "a tie at an inner node with 8 or more children", "it is kept whole although the children have more gain",
 """  vector<int> par(8, 9); par.push_back(10); par.push_back(10); par.push_back(-1); HValuesMetaData md(9, par); HPartitioner p(hq(11, [](int h) { return h < 8 ? GL(1, 1) : h == 9 ? GL(4, 4) : h == 10 ? GL(-9, 9) : GL(0, 0); }), md); auto r = p.computeBestPartition(0.5f); expect(r->getQuality()->getGain() == 8, "more gain");""")
bug("p125", "C18", [("sources/haggregationn.cpp", "    mean=sum/part.getSize();\n", "    mean=sum/(part.getSize()>12&&sum==part.getSize()?part.getSize()+1:part.getSize());\n")],
 "a part of more than 12 leaves whose values add up to their number", "the mean is not 1",
 """  int l = 13; vector<int> par(l, l); par.push_back(-1); shared_ptr<HValuesN1> v(new HValuesN1(vector<double>(l, 1), par)); HQualities q(v); q.computeQualities(); HPartitioner p(q); HAggregationN1 a(p.computeBestPartition(1), v); expect(close_(a.getAggregates()[0].getMean(), 1), "mean 1");""")
