// small helpers of the demos
typedef std::pair<LD, LD> GL;
template <class F> static oqualities oq(int n, F f) { oqualities q(new UpperTriangularMatrix<shared_ptr<Quality> >(n)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { GL g = f(i, j); shared_ptr<Quality> x(new Quality(g.first, g.second)); (*q)(i, j, x); } return q; }
template <class F> static hqualities hq(int n, F f) { hqualities q(new vector<shared_ptr<Quality> >()); for (int h = 0; h < n; h++) { GL g = f(h); q->push_back(shared_ptr<Quality>(new Quality(g.first, g.second))); } return q; }
template <class F> static dqualities dq(int H, int n, F f) { dqualities q(new vector<oqualities>()); for (int h = 0; h < H; h++) q->push_back(oq(n, [&](int i, int j) { return f(h, i, j); })); return q; }
template <class P> static LD crit(P &r, LD p) { LD c = 0; for (auto x : r.getParts()) c += p * x.getQuality()->getGain() - (1 - p) * x.getQuality()->getLoss(); return c; }
