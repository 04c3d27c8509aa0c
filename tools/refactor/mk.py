import os, shutil, sys, re
S = "src/lpaggreg/sources/"; Hd = "src/lpaggreg/headers/"
def variant(name, edits):
    W = "/tmp/ref/" + name
    shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W, symlinks=True)
    for f, subs in edits.items():
        p = os.path.join(W, f); s = open(p).read()
        for a, b in subs:
            if callable(a): s = a(s); continue
            if a not in s: print(name, f, "NOT FOUND:", a[:80]); continue
            s = s.replace(a, b)
        open(p, "w").write(s)
    print(name)
def between(s, a, b, new):
    i = s.index(a); j = s.index(b, i) if b else len(s); return s[:i] + new + s[j:]

# ---- v1: helpers extracted in the partitioners, loops merged
def v1o(s):
    s = between(s, "void lpaggreg::OPartitioner::computeBestPartitions", "shared_ptr<lpaggreg::OPartition> lpaggreg::OPartitioner::computeBestPartition(", '''
void lpaggreg::OPartitioner::reset()
{
    pList.clear();
    partitions.clear();
    partitionsTuples.clear();
    qualityList.clear();
}

void lpaggreg::OPartitioner::record(float parameter, shared_ptr<OPartition> partition)
{
    pList.push_back(parameter);
    partitions[parameter]=partition;
}

void lpaggreg::OPartitioner::removeDuplicates()
{
    vector<float> kept;
    for (unsigned i=0; i<pList.size(); i++){
        bool duplicate=i>0&&*(partitions[pList[i]])==*(partitions[pList[i-1]]);
        if (!duplicate){
            kept.push_back(pList[i]);
        }
    }
    map<float, shared_ptr<OPartition> > remaining;
    for (float p: kept){
        remaining[p]=partitions[p];
    }
    pList.swap(kept);
    partitions.swap(remaining);
}

void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, float max)
{
    reset();
    shared_ptr<OPartition> first=computeBestPartition(min);
    shared_ptr<OPartition> last=max==min?first:computeBestPartition(max);
    record(min, first);
    addBestQualities(threshold, first, last);
    if (min!=max){
        record(max, last);
    }
    removeDuplicates();
    for (map<float, shared_ptr<OPartition> >::const_iterator it=partitions.begin(); it!=partitions.end(); ++it){
        const vector<OPart> parts=it->second->getParts();
        for (const OPart &part: parts){
            shared_ptr<Quality> quality=part.getQuality();
            partitionsTuples.push_back(make_tuple(it->first, part.getStart(), part.getEnd(), quality->getGain(), quality->getLoss()));
        }
        qualityList.insert(make_pair(it->first, it->second->getQuality()));
    }
}

''')
    s = between(s, "shared_ptr<lpaggreg::OPartition> lpaggreg::OPartitioner::computeBestPartition(", "void lpaggreg::OPartitioner::addBestQualities", '''shared_ptr<lpaggreg::OPartition> lpaggreg::OPartitioner::computeBestPartition(float parameter)
{
    const int size=qualities->getSize();
    vector<int> cut(size, size-1);
    vector<Tradeoff> best(size);
    for (int i=size; i-->0;){
        Tradeoff &current=best[i];
        current=Tradeoff((*qualities)(i,size-1), parameter);
        for (int last=i; last+1<size; ++last){
            Tradeoff candidate((*qualities)(i,last), parameter);
            candidate+=best[last+1];
            if (candidate>current){
                cut[i]=last;
                current=candidate;
            }
        }
    }
    return make_shared<OPartition>(cut, qualities, parameter);
}

''')
    return between(s, "void lpaggreg::OPartitioner::addBestQualities", "list<tuple", '''void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OPartition> bestPartitionMin, shared_ptr<OPartition> bestPartitionMax)
{
    if (*bestPartitionMin==*bestPartitionMax){
        return;
    }
    const float low=bestPartitionMin->getParameter();
    const float high=bestPartitionMax->getParameter();
    if (!(high-low>threshold)){
        return;
    }
    const float middle=low+(high-low)/2;
    if (middle<=low||middle>=high){
        return;
    }
    shared_ptr<OPartition> bestPartitionMid=computeBestPartition(middle);
    addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
    record(middle, bestPartitionMid);
    addBestQualities(threshold, bestPartitionMid, bestPartitionMax);
}

''')
def v1h(s):
    return between(s, "shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(", "list<tuple", '''shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(float parameter)
{
    const unsigned int hsize=metaData.getHsize();
    const vector<int> path=metaData.getPath();
    const vector<int> parents=metaData.getParents();
    const int root=metaData.getRoot();
    vector<Tradeoff> tradeoff(hsize);
    vector<Tradeoff> tradeoffChildren(hsize);
    vector<bool> aggregated(hsize, true);
    for (unsigned int i=0; i<path.size(); i++){
        const int h=path[i];
        tradeoff[h].set((*qualities)[h], parameter);
        if (i>=(unsigned int)metaData.getLeaveSize()&&tradeoffChildren[h]>tradeoff[h]){
            aggregated[h]=false;
            tradeoff[h]=tradeoffChildren[h];
        }
        if (h!=root){
            tradeoffChildren[parents[h]]+=tradeoff[h];
        }
    }
    return make_shared<HPartition>(aggregated, qualities, parameter, metaData);
}

''')
def v1d(s):
    i = s.index("shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition("); j = s.index("list<tuple", i)
    print(s[i:j]) if 0 else None
    return s[:i] + '''shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(float parameter)
{
    const int hsize=metaData.getHsize();
    const int leaves=metaData.getLeaveSize();
    const int osize=((*qualities)[0])->getSize();
    const vector<int> path=metaData.getPath();
    const vector<int> parents=metaData.getParents();
    typedef vector<Tradeoff> row;
    vector<vector<row> > best(hsize, vector<row>(osize, row(osize)));
    vector<vector<row> > below(best);
    vector<shared_ptr<UpperTriangularMatrix<int> > > cuts;
    for (int h=0; h<hsize; h++){
        cuts.push_back(make_shared<UpperTriangularMatrix<int> >(osize, osize-1));
    }
    for (int k=0; k<hsize; k++){
        const int h=path[k];
        UpperTriangularMatrix<int> &cut=*cuts[h];
        for (int i=osize-1; i>=0; i--){
            for (int j=i; j<osize; j++){
                Tradeoff &current=best[h][i][j];
                cut(i, j, j);
                current.set((*((*qualities)[h]))(i, j), parameter);
                if (k>=leaves&&below[h][i][j]>current){
                    cut(i, j, -1);
                    current=below[h][i][j];
                }
                for (int c=i; c<j; c++){
                    Tradeoff split=best[h][i][c]+best[h][c+1][j];
                    if (split>current){
                        cut(i, j, c);
                        current=split;
                    }
                }
                if (parents[h]!=-1){
                    below[parents[h]][i][j]+=current;
                }
            }
        }
    }
    return make_shared<DPartition>(cuts, qualities, parameter, metaData);
}

''' + s[j:]
variant("v1", {S + "opartitioner.cpp": [(v1o, 0)], S + "hpartitioner.cpp": [(v1h, 0)], S + "dpartitioner.cpp": [(v1d, 0)],
  Hd + "opartitioner.h": [("    private:\n", "    private:\n        void reset();\n        void record(float parameter, shared_ptr<OPartition> partition);\n        void removeDuplicates();\n")]})

# ---- v2: recursion replaced by explicit stacks
def v2h(s):
    s = between(s, "void lpaggreg::HPartition::computeParts()", "void lpaggreg::HPartition::computeQuality()", '''void lpaggreg::HPartition::computeParts()
{
    parts.clear();
    const vector<vector<int> > children=metaData.getChildren();
    map<int, int> sizes=metaData.getSize();
    vector<int> todo(1, metaData.getRoot());
    while (!todo.empty()){
        int h=todo.back();
        todo.pop_back();
        if (aggregated[h]){
            parts.push_back(HPart(h, sizes[h], (*qualities)[h]));
            continue;
        }
        todo.insert(todo.end(), children[h].rbegin(), children[h].rend());
    }
}

''')
    s = s.replace('''    if (hpartition1.getParts().size()!=hpartition2.getParts().size()){
        return false;
    }else{
        for (int i=0; i<hpartition1.getParts().size(); i++){
            if ((hpartition1.getParts())[i]!=(hpartition2.getParts())[i]){
                return false;
            }
        }
        return true;
    }''', '''    vector<HPart> parts1=hpartition1.getParts();
    vector<HPart> parts2=hpartition2.getParts();
    if (parts1.size()!=parts2.size()){
        return false;
    }
    for (size_t i=0; i<parts1.size(); i++){
        if (!(parts1[i]==parts2[i])){
            return false;
        }
    }
    return true;''')
    return s
def v2d(s):
    s = between(s, "void lpaggreg::DPartition::computeSubPart(int h, int i, int j){", "void lpaggreg::DPartition::computeQuality()", '''void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
    struct Region { int h, i, j; };
    const vector<vector<int> > children=metaData.getChildren();
    std::vector<Region> todo;
    todo.push_back(Region{h, i, j});
    while (!todo.empty()){
        const Region r=todo.back();
        todo.pop_back();
        const int cut=(*(cuts[r.h]))(r.i, r.j);
        if (cut==-1){
            for (size_t k=children[r.h].size(); k>0; k--){
                todo.push_back(Region{children[r.h][k-1], r.i, r.j});
            }
        }else if (cut<r.j){
            todo.push_back(Region{r.h, cut+1, r.j});
            todo.push_back(Region{r.h, r.i, cut});
        }else{
            shared_ptr<Quality> part_quality=(*(*qualities)[r.h])(r.i, r.j);
            parts.push_back(DPart(r.h, (metaData.getSize())[r.h], r.i, r.j, part_quality));
        }
    }
}

''')
    i = s.index("    if (dpartition1.getParts().size()!=dpartition2"); j = s.index("#ifdef PARTITION_COMPARE", i)
    return s[:i] + '''    vector<DPart> parts1=dpartition1.getParts();
    vector<DPart> parts2=dpartition2.getParts();
    if (parts1.size()!=parts2.size()){
        return false;
    }
    typedef tuple<int, int, int, int> key;
    set<key> keys;
    for (DPart &part: parts2){
        keys.insert(key(part.getStart(), part.getEnd(), part.getH(), part.getSize()));
    }
    for (DPart &part: parts1){
        if (keys.find(key(part.getStart(), part.getEnd(), part.getH(), part.getSize()))==keys.end()){
            return false;
        }
    }
    return true;
}

''' + s[j:]
def v2sweep(K):
    def f(s):
        return between(s, "void lpaggreg::%sPartitioner::addBestQualities" % K, "list<tuple" if K == "O" else None, '''void lpaggreg::%sPartitioner::addBestQualities(float threshold, shared_ptr<%sPartition> bestPartitionMin, shared_ptr<%sPartition> bestPartitionMax)
{
    typedef pair<shared_ptr<%sPartition>, bool> item; // a partition to the right, and whether it is to be listed when passed
    vector<item> right(1, item(bestPartitionMax, false));
    shared_ptr<%sPartition> left=bestPartitionMin;
    while (!right.empty()){
        shared_ptr<%sPartition> next=right.back().first;
        float low=left->getParameter(), high=next->getParameter(), middle=low+(high-low)/2;
        if (*left!=*next&&high-low>threshold&&middle>low&&middle<high){
            right.push_back(item(computeBestPartition(middle), true));
            continue;
        }
        if (right.back().second){
            pList.push_back(high);
            partitions[high]=next;
        }
        left=next;
        right.pop_back();
    }
}

'''.replace("%s", K))
    return f
variant("v2", {S + "hpartition.cpp": [(v2h, 0)], S + "dpartition.cpp": [(v2d, 0)], S + "opartitioner.cpp": [(v2sweep("O"), 0)], S + "hpartitioner.cpp": [(v2sweep("H"), 0)], S + "dpartitioner.cpp": [(v2sweep("D"), 0)],
  Hd + "dpartition.h": [("#include <set>", "#include <set>\n#include <tuple>")]})

# ---- v3: numerics and qualities
V3C = '''#include "complexity.h"

lp_quality_type  entropy(lp_quality_type  val) {
	return val==0 ? 0 : val * (std::log(val) / ln);
}

lp_quality_type  entropyReduction(lp_quality_type  val, lp_quality_type  ent) {
	if (!(val> 0)) {
		return 0;
	}
	const lp_quality_type own = entropy(val);
	return own - ent;
}

lp_quality_type  divergence(int size, lp_quality_type  value, lp_quality_type  ent) {
	const lp_quality_type gain = entropyReduction(value, ent);
	const lp_quality_type bits = log(size) / ln;
	return bits * value - gain;
}
'''
def v3o(s):
    return between(s, "void lpaggreg::OQualities::computeQualities()", "unsigned int lpaggreg::OQualities::size()", '''void lpaggreg::OQualities::computeQualities()
{
    if (!values){
        return;
    }
    const int osize=values->getOsize();
    const int vsize=values->getVsize();
    qualities=make_shared<UpperTriangularMatrix<shared_ptr<Quality> > >(osize);
    for (int k=0; k<vsize; k++){
        vector<lp_quality_type> slices(osize), infos(osize);
        for (int i=0; i<osize; i++){
            slices[i]=(*values)[k][i];
            infos[i]=entropyReduction(slices[i], 0);
        }
        for (int i=0; i<osize; i++){
            lp_quality_type sum=slices[i], info=infos[i];
            for (int j=i+1; j<osize; j++){
                sum+=slices[j];
                info+=infos[j];
                shared_ptr<Quality> quality=(*qualities)(i,j);
                quality->addToGain(entropyReduction(sum, info));
                quality->addToLoss(divergence(j-i+1, sum, info));
            }
        }
    }
}

''')
def v3h(s):
    return between(s, "    for (int k=0; k < vsize; k++){", "unsigned int lpaggreg::HQualities::size()", '''    const vector<int> path=metaData.getPath();
    const vector<int> parents=metaData.getParents();
    const map<int, int> sizes=metaData.getSize();
    for (int k=0; k < vsize; k++){
        vector<lp_quality_type> sum(hsize,0), info(hsize,0);
        for (int h : path){
            if (h<metaData.getLeaveSize()){
                sum[h]=(*values)[h][k];
                info[h]=entropyReduction(sum[h], 0);
            }else{
                (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
                (*qualities)[h]->addToLoss(divergence(sizes.at(h), sum[h], info[h]));
            }
            if (parents[h]>=0){
                sum[parents[h]]+=sum[h];
                info[parents[h]]+=info[h];
            }
        }
    }
}

''')
def v3d(s):
    return between(s, "    for (int k=0; k < vsize; k++){", "unsigned int lpaggreg::DQualities::size()", '''    const vector<int> path=metaData.getPath();
    const vector<int> parents=metaData.getParents();
    map<int, int> sizes=metaData.getSize();
    const int n=osize;
    for (int k=0; k < vsize; k++){
        typedef UpperTriangularMatrix<lp_quality_type> matrix;
        vector<matrix> sum(hsize, matrix(osize)), info(hsize, matrix(osize));
        for (int h : path){
            const bool leaf=h<metaData.getLeaveSize();
            if (leaf){
                const vector<double> row=(*values)[h][k];
                for (int i=0; i<n; i++){
                    sum[h](i, i, row[i]);
                    info[h](i, i, entropyReduction(row[i], 0));
                }
                for (int len=2; len<=n; len++){
                    for (int i=0; i+len<=n; i++){
                        const int j=i+len-1;
                        sum[h](i, j, sum[h](i, j-1)+sum[h](j, j));
                        info[h](i, j, info[h](i, j-1)+info[h](j, j));
                    }
                }
            }
            const int parent=parents[h];
            for (int i=0; i<n; i++){
                for (int j=i; j<n; j++){
                    const lp_quality_type s=sum[h](i, j), e=info[h](i, j);
                    if (!leaf||j>i){
                        shared_ptr<Quality> quality=(*(*qualities)[h])(i, j);
                        quality->addToGain(entropyReduction(s, e));
                        quality->addToLoss(divergence((j-i+1)*sizes[h], s, e));
                    }
                    if (parent!=-1){
                        sum[parent](i, j, sum[parent](i, j)+s);
                        info[parent](i, j, info[parent](i, j)+e);
                    }
                }
            }
        }
    }
}

''')
def v3n(kind):
    def f(s):
        i = s.index("    Quality max=*"); j = s.index("    if (max.getGain()==0)"); e = s.index("    for (", j)
        line = s[i:j].replace("Quality max=", "const Quality whole=")
        return s[:i] + line + "    Quality max(whole.getGain()!=0?whole.getGain():1, whole.getLoss()!=0?whole.getLoss():1);\n" + s[e:]
    return f
variant("v3", {S + "complexity.cpp": [(lambda s: V3C, 0)], S + "oqualities.cpp": [(v3o, 0), (v3n(0), 0)], S + "hqualities.cpp": [(v3h, 0), (v3n(1), 0)], S + "dqualities.cpp": [(v3d, 0), (v3n(2), 0)]})

# ---- v4: containers and operators
def v4m(s):
    s = s.replace("matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i]", "matrix[offset(i, j)]")
    s = s.replace("template<typename T>\nT lpaggreg::UpperTriangularMatrix<T>::operator()", '''template<typename T>
unsigned int lpaggreg::UpperTriangularMatrix<T>::offset(unsigned int i, unsigned int j) const
{
    unsigned int start=0;
    for (unsigned int d=0; d<j-i; d++){
        start+=size-d;
    }
    return start+i;
}

template<typename T>
T lpaggreg::UpperTriangularMatrix<T>::operator()''')
    return s
def v4t(s):
    i = s.index("bool lpaggreg::operator>("); j = s.index("bool lpaggreg::operator<=(")
    s = s[:i] + '''bool lpaggreg::operator>(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
{
    if (tradeoff1.getValue()!=tradeoff2.getValue()){
        return tradeoff1.getValue()>tradeoff2.getValue();
    }
    const shared_ptr<Quality> quality1=tradeoff1.getQuality(), quality2=tradeoff2.getQuality();
    if (quality1->getGain()!=quality2->getGain()){
        return quality1->getGain()>quality2->getGain();
    }
    return quality1->getLoss()<quality2->getLoss();
}


''' + s[j:]
    s = s.replace("value=(p*quality->getGain())-((1-p)*quality->getLoss());", "const lp_quality_type gain=quality->getGain();\n    const lp_quality_type loss=quality->getLoss();\n    value=p*gain-(1-p)*loss;")
    for op in "+-*/":
        i = s.index("lpaggreg::Tradeoff lpaggreg::operator%s(" % op); j = s.index("}", i)
        s = s[:i] + '''lpaggreg::Tradeoff lpaggreg::operator%s(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
{
    Tradeoff result(tradeoff1);
    result%s=tradeoff2;
    return result;
''' % (op, op) + s[j:]
    return s
def v4q(s):
    i = s.index("bool lpaggreg::operator==("); j = s.index("bool lpaggreg::operator!=(")
    return s[:i] + '''static bool near(lp_quality_type a, lp_quality_type b, lp_quality_type precision)
{
    return std::abs(a-b)<precision;
}

bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
{
    const lp_quality_type g1=quality1.getGain(), g2=quality2.getGain();
    const lp_quality_type l1=quality1.getLoss(), l2=quality2.getLoss();
    if (g1==g2&&l1==l2){
        return true;
    }
    const lp_quality_type largest=std::max(std::abs((g1+g2)/2), std::abs((l1+l2)/2));
    return near(g1, g2, largest*LP_PRECISION)&&near(l1, l2, largest*LP_PRECISION);
}

''' + s[j:]
def v4hv(s):
    i = s.index("void lpaggreg::HValuesMetaData::setPath()"); j = s.index("lpaggreg::HValuesMetaData lpaggreg::HValues::getMetaData()")
    return s[:i] + '''void lpaggreg::HValuesMetaData::setPath()
{
    children.assign(hsize, vector<int>());
    vector<int> missing(hsize, 0);
    for (unsigned h=0; h<hsize; h++){
        if (parents[h]!=-1){
            ++missing[parents[h]];
        }
    }
    list<int> ready;
    for (int leaf=0; leaf<leaveSize; leaf++){
        ready.push_back(leaf);
        size.insert(make_pair(leaf, 1));
    }
    while (!ready.empty()){
        const int h=ready.front();
        ready.pop_front();
        path.push_back(h);
        const int parent=parents[h];
        if (parent==-1){
            root=h;
            break;
        }
        children[parent].push_back(h);
        size[parent]+=size[h];
        if (--missing[parent]==0){
            ready.push_back(parent);
        }
    }
}

''' + s[j:]
def v4p(s):
    i = s.index("float lpaggreg::Partitioner::computeAUC()"); j = s.index("map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList()"); k = s.index("float lpaggreg::Partitioner::computePOpt()")
    return s[:i] + '''float lpaggreg::Partitioner::computeAUC()
{
    if (pList.empty()){
        return 1;
    }
    float auc=0.0;
    shared_ptr<Quality> previous=qualityList[pList.front()];
    for (size_t i=1; i<pList.size(); i++){
        shared_ptr<Quality> current=qualityList[pList[i]];
        const lp_quality_type width=current->getGain()-previous->getGain();
        const lp_quality_type height=current->getLoss()+previous->getLoss();
        auc+=width*height/2;
        previous=current;
    }
    return 1.0-auc;
}

''' + s[j:k] + '''float lpaggreg::Partitioner::computePOpt()
{
    if (pList.empty()){
        return 0;
    }
    auto score=[this](float p){
        const Quality &quality=*qualityList[p];
        return (quality.getGain()-1)*(quality.getGain()-1)+quality.getLoss()*quality.getLoss();
    };
    float popt=pList.front();
    lp_quality_type best=score(popt);
    for (auto it=pList.begin()+1; it!=pList.end(); ++it){
        const lp_quality_type current=score(*it);
        if (current<=best){
            best=current;
            popt=*it;
        }
    }
    return popt;
}
'''
variant("v4", {S + "uppertriangularmatrix.cpp": [(v4m, 0)], Hd + "uppertriangularmatrix.h": [("        int elements;\n", "        int elements;\n        unsigned int offset(unsigned int i, unsigned int j) const;\n")], S + "tradeoff.cpp": [(v4t, 0)], S + "quality.cpp": [(v4q, 0)], S + "hvalues.cpp": [(v4hv, 0)], S + "partitioner.cpp": [(v4p, 0)]})

# ---- v5: aggregates
def v5(s):
    s = re.sub(r"    for \(auto it: (\w+)->getParts\(\)\)\{\n        aggregates\.push_back\((\w+)\(it, values\)\);\n    \}", r"    const auto parts=\1->getParts();\n    aggregates.reserve(parts.size());\n    for (const auto &part: parts){\n        aggregates.emplace_back(part, values);\n    }", s)
    # subSum: iterative
    def sub(m):
        cls, args, rest, = m.group(1), m.group(2), m.group(3)
        names = [a.split()[-1] for a in args.split(",")]
        return '''double lpaggreg::%s::subSum(%s)
{
    const HValuesMetaData metaData=values->getMetaData();
    const vector<vector<int> > children=metaData.getChildren();
    double total=0;
    vector<int> nodes(1, %s);
    for (size_t at=0; at<nodes.size(); at++){
        const int node=nodes[at];
        if (node<metaData.getLeaveSize()){
            total+=(*values)(%s);
        }else{
            nodes.insert(nodes.end(), children[node].begin(), children[node].end());
        }
    }
    return total;
}
''' % (cls, args, names[0], ", ".join(["node"] + names[1:]))
    s = re.sub(r"double lpaggreg::(\w+)::subSum\(([^)]*)\)\n\{(.*?)\n\}\n", sub, s, flags=re.S)
    s = s.replace('''        sum.push_back(0);
        mean.push_back(0);
        for (int o=part.getStart(); o<=part.getEnd();o++){
            sum[i]+=(*values)(i, o);
        }
        mean[i]=sum[i]/part.getSize();''', '''        double total=0;
        int o=part.getStart();
        while (o<=part.getEnd()){
            total+=(*values)(i, o++);
        }
        sum.push_back(total);
        mean.push_back(total/(part.getEnd()-part.getStart()+1));''')
    return s
variant("v5", {S + "oaggregationn.cpp": [(v5, 0)], S + "haggregationn.cpp": [(v5, 0)], S + "daggregationn.cpp": [(v5, 0)]})
