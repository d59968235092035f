// Containers of design variables and error terms, against plain lists: all
// operation sequences up to a depth.
#include "vmc.hpp"
#include "backend_common.hpp"
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/SimpleOptimizationProblem.hpp>
#include <aslam_incremental_calibration/core/OptimizationProblem.h>
#include <aslam_incremental_calibration/core/IncrementalOptimizationProblem.h>
#include <aslam_incremental_calibration/exceptions/InvalidOperationException.h>
#include <aslam_incremental_calibration/exceptions/NullPointerException.h>
#include <aslam_incremental_calibration/exceptions/OutOfBoundException.h>
#include <aslam_incremental_calibration/algorithms/permute.h>
#include <algorithm>
using namespace vmc;
namespace ab = aslam::backend;
namespace ac = aslam::calibration;
typedef boost::shared_ptr<VecDv> DvP;
typedef boost::shared_ptr<ErrDs> EtP;
static std::vector<DvP> dvs;           // 4 design variables
static std::vector<EtP> ets;
static std::vector<std::vector<int>> etDv;

static void makeObjects(const std::vector<std::vector<int>>& terms) {
  ets.clear(); dvs.clear(); etDv = terms;
  for (int i = 0; i < 4; ++i) { dvs.push_back(boost::make_shared<VecDv>(1 + i % 3, i)); dvs[i]->setActive(i != 1); }
  for (size_t j = 0; j < terms.size(); ++j) {
    std::vector<VecDv*> d; for (int i : terms[j]) d.push_back(dvs[i].get());
    ets.push_back(boost::make_shared<ErrDs>(ErrModel(d, 1 + j % 2, j, 0)));
  }
}
static int dvIdx(const ab::DesignVariable* d) { for (size_t i = 0; i < dvs.size(); ++i) if (dvs[i].get() == d) return i; return -1; }
static int etIdx(const ab::ErrorTerm* e) { for (size_t i = 0; i < ets.size(); ++i) if (ets[i].get() == e) return i; return -1; }
template <class P> static std::string dump(P& p) {
  std::string s; const P& cp = p;
  for (size_t i = 0; i < p.numDesignVariables(); ++i) { s += fmt("d%d ", dvIdx(p.designVariable(i))); if (p.designVariable(i) != cp.designVariable(i)) s += "? "; }
  for (size_t i = 0; i < p.numErrorTerms(); ++i) { s += fmt("e%d ", etIdx(p.errorTerm(i))); if (p.errorTerm(i) != cp.errorTerm(i)) s += "? "; }
  return s;
}
template <class F> static std::string outcome(F f) {
  try { f(); return "ok"; }
  catch (const ac::InvalidOperationException&) { return "invalid"; }
  catch (const ac::NullPointerException&) { return "null"; }
  catch (const ac::OutOfBoundException<size_t>&) { return "bounds"; }
  catch (const aslam::InvalidArgumentException&) { return "argument"; }
  catch (const std::runtime_error&) { return "runtime"; }
  catch (...) { return "?"; }
}
static void sequences(const std::string& name, int nOps, int depth, const std::function<void(const std::vector<int>&)>& f) {
  // split by the first two operations
  for (int a = 0; a < nOps; ++a) for (int b = 0; b < nOps; ++b)
    run(fmt("%s %d,%d...", name.c_str(), a, b), [&] {
      std::vector<int> s(depth, 0); s[0] = a; s[1] = b; int n = 0;
      for (;;) {
        f(s); if (++n % 4096 == 0) beat(); if (tooMany()) return;
        int k = depth - 1; while (k >= 2 && s[k] == nOps - 1) s[k--] = 0;
        if (k < 2) break; ++s[k];
      }
      transition((u64)n * depth);
    });
}
static std::string opsStr(const std::vector<std::string>& names, const std::vector<int>& s, size_t n) {
  std::string r; for (size_t i = 0; i < n; ++i) r += (i ? ", " : "") + names[s[i]]; return r;
}

// aslam::backend::OptimizationProblem; simple: SimpleOptimizationProblem
template <class P> struct Remover { static void dv(P& p, int i) {} static void et(P& p, int j) {} };
template <> struct Remover<ab::OptimizationProblem> {
  static void dv(ab::OptimizationProblem& p, int i) { p.removeDesignVariable(dvs[i].get()); }
  static void et(ab::OptimizationProblem& p, int j) { p.removeErrorTerm(ets[j].get()); }
};
template <class P> static void backendMachine(bool simple, int depth) {
  std::vector<std::string> n;
  for (int i = 0; i < 3; ++i) n.push_back(fmt("add dv%d", i));
  for (int j = 0; j < 4; ++j) n.push_back(fmt("add et%d", j));
  n.push_back("clear");
  if (!simple) { for (int i = 0; i < 3; ++i) n.push_back(fmt("remove dv%d", i)); for (int j = 0; j < 4; ++j) n.push_back(fmt("remove et%d", j)); }
  std::string who = simple ? "simple" : "backend";
  sequences(who, n.size(), depth, [&](const std::vector<int>& s) {
    std::vector<int> D, E;
    {
      P p;
      for (size_t k = 0; k < s.size(); ++k) {
        int o = s[k]; std::string got, want = "ok";
        if (o < 3) {
          if (std::count(D.begin(), D.end(), o)) want = "runtime"; else D.push_back(o);
          got = outcome([&] { if (o == 1) p.addDesignVariable(dvs[o].get(), false); else p.addDesignVariable(dvs[o]); });
        } else if (o < 7) {
          int j = o - 3;
          if (std::count(E.begin(), E.end(), j)) return;  // not twice
          bool ok = true; for (int i : etDv[j]) ok &= std::count(D.begin(), D.end(), i) > 0;
          if (!ok && !simple) want = "argument"; else E.push_back(j);
          got = outcome([&] { if (j == 1) p.addErrorTerm(ets[j].get(), false); else p.addErrorTerm(ets[j]); });
        } else if (o == 7) { D.clear(); E.clear(); got = outcome([&] { p.clear(); }); }
        else if (o < 11) {
          int i = o - 8;
          D.erase(std::remove(D.begin(), D.end(), i), D.end());
          E.erase(std::remove_if(E.begin(), E.end(), [&](int j) { return std::count(etDv[j].begin(), etDv[j].end(), i) > 0; }), E.end());
          got = outcome([&] { Remover<P>::dv(p, i); });
        } else {
          int j = o - 11;
          E.erase(std::remove(E.begin(), E.end(), j), E.end());
          got = outcome([&] { Remover<P>::et(p, j); });
        }
        std::string at = "after " + opsStr(n, s, k + 1);
        expect(got == want, who + "/outcome", at + ": " + got + " instead of " + want);
        std::string model; for (int d : D) model += fmt("d%d ", d); for (int e : E) model += fmt("e%d ", e);
        std::string real = dump(p);
        expect(real == model, who + "/contents", at + ": " + real + "instead of " + model);
        if (real != model) return;
        for (int i = 0; i < 4; ++i) expect(p.isDesignVariableInProblem(dvs[i].get()) == (std::count(D.begin(), D.end(), i) > 0), who + "/isDesignVariableInProblem", at);
        for (int i = 0; i < 4; ++i) if (i != 1) expect(dvs[i].use_count() == 1 + std::count(D.begin(), D.end(), i), who + "/ownership", at + fmt(": dv%d", i));
        for (int j = 0; j < 4; ++j) if (j != 1) expect(ets[j].use_count() == 1 + std::count(E.begin(), E.end(), j), who + "/ownership", at + fmt(": et%d", j));
        if (!simple) {
          for (int i = 0; i < 4; ++i) {
            std::set<ab::ErrorTerm*> got, want; p.getErrors(dvs[i].get(), got);
            for (int j : E) if (std::count(etDv[j].begin(), etDv[j].end(), i)) want.insert(ets[j].get());
            expect(got == want, who + "/getErrors", at + fmt(": of dv%d", i));
          }
        }
        if (k + 1 == s.size()) { state(who + real); nontrivial(hashStr(who + real)); }
      }
    }
    for (auto& d : dvs) expect(d.use_count() == 1, who + "/released", opsStr(n, s, s.size()));
    for (auto& e : ets) expect(e.use_count() == 1, who + "/released", opsStr(n, s, s.size()));
  });
}

static std::vector<size_t> rot(size_t n) { std::vector<size_t> v; for (size_t i = 0; i < n; ++i) v.push_back((i + 1) % n); return v; }
struct Groups {  // model of the grouping
  std::map<size_t, std::vector<int>> g; std::vector<size_t> order;
  bool has(int d) const { for (auto& x : g) if (std::count(x.second.begin(), x.second.end(), d)) return true; return false; }
  size_t of(int d) const { for (auto& x : g) if (std::count(x.second.begin(), x.second.end(), d)) return x.first; return 99; }
  void add(int d, size_t k) { if (!g.count(k)) order.push_back(k); g[k].push_back(d); }
  void remove(int d) {
    size_t k = of(d); auto& v = g[k]; v.erase(std::find(v.begin(), v.end(), d));
    if (v.empty()) { g.erase(k); order.erase(std::find(order.begin(), order.end(), k)); }
  }
  std::string str() const { std::string s; for (size_t k : order) for (int d : g.at(k)) s += fmt("d%d ", d); return s; }
  void permute(size_t k, const std::vector<size_t>& p) { std::vector<int> v = g[k], w; for (size_t i : p) w.push_back(v[i]); g[k] = w; }
};
template <class P> static void checkGroups(P& p, const Groups& m, const std::string& who, const std::string& at) {
  expect(p.getNumGroups() == m.g.size(), who + "/groups", at);
  expect(p.getGroupsOrdering() == m.order, who + "/groups-ordering", at);
  for (size_t k : {0, 1, 5}) {
    bool in = m.g.count(k);
    expect(p.isGroupInProblem(k) == in, who + "/isGroupInProblem", at);
    size_t dim = 0; if (in) for (int d : m.g.at(k)) if (dvs[d]->isActive()) dim += dvs[d]->minimalDimensions();
    size_t got = 0; std::string o = outcome([&] { got = p.getGroupDim(k); });
    expect(o == (in ? "ok" : "bounds") && got == dim, who + "/getGroupDim", at + fmt(": %zu instead of %zu, ", got, dim) + o);
    o = outcome([&] { got = p.getDesignVariablesGroup(k).size(); });
    expect(o == (in ? "ok" : "bounds") && (!in || got == m.g.at(k).size()), who + "/getDesignVariablesGroup", at);
  }
  for (int i = 0; i < 4; ++i) {
    bool in = m.has(i); size_t got = 99;
    expect(p.isDesignVariableInProblem(dvs[i].get()) == in, who + "/isDesignVariableInProblem", at);
    std::string o = outcome([&] { got = p.getGroupId(dvs[i].get()); });
    expect(o == (in ? "ok" : "invalid") && got == m.of(i), who + "/getGroupId", at);
  }
}
// How orderings are permuted: kind 0 rotates, 1 reverses, 2 repeats, 3 out of range, 4 too long
static std::vector<size_t> perm(int kind, size_t n) {
  std::vector<size_t> v;
  if (kind == 0) v = rot(n); else for (size_t i = 0; i < n; ++i) v.push_back(kind == 1 ? n - 1 - i : kind == 2 ? (i ? 0 : n - 1) : i);
  if (kind == 2 && n > 2) v = {1, 0, 0};
  if (kind == 3 && n) { v = rot(n); v.back() = n; }
  if (kind == 4) v.push_back(0);
  return v;
}
static bool valid(const std::vector<size_t>& v, size_t n) { std::vector<size_t> s = v; std::sort(s.begin(), s.end()); if (s.size() != n) return false; for (size_t i = 0; i < n; ++i) if (s[i] != i) return false; return true; }

struct Values {  // saved parameters
  std::map<int, double> saved; std::vector<double> now;
  void reset() { now.assign(4, 0); for (int i = 0; i < 4; ++i) { now[i] = i; dvs[i]->v.setConstant(i); } }
  void change(int c) { for (int i = 0; i < 4; ++i) { now[i] += 10 + c; dvs[i]->v.setConstant(now[i]); } }
  void check(const std::string& who, const std::string& at) { for (int i = 0; i < 4; ++i) expect(dvs[i]->v[0] == now[i] && dvs[i]->v[dvs[i]->v.size() - 1] == now[i], who + "/saved-values", at + fmt(": dv%d is %g instead of %g", i, dvs[i]->v[0], now[i])); }
};

static void calibrationMachine(int depth, int part) {
  struct Op { std::string n; int k, a; size_t b; };
  std::vector<Op> ops;
  if (part == 0) {
    for (int i = 0; i < 3; ++i) for (size_t g : {0, 5}) ops.push_back({fmt("add dv%d to %zu", i, g), 0, i, g});
    for (int j = 0; j < 3; ++j) ops.push_back({fmt("add et%d", j), 1, j, 0});
    for (int k : {0, 1, 2, 3}) ops.push_back({fmt("permute terms %d", k), 2, k, 0});
    for (int k : {1, 2}) ops.push_back({fmt("permute group 5 %d", k), 3, k, 5});
    ops.push_back({"clear", 4, 0, 0});
    for (int k : {0, 1, 2}) ops.push_back({fmt("order groups %d", k), 5, k, 0});
  } else {
    for (int i = 0; i < 3; ++i) ops.push_back({fmt("add dv%d to %d", i, i), 0, i, (size_t)(i == 2 ? 5 : i)});
    ops.push_back({"add et1", 1, 1, 0}); ops.push_back({"add null", 9, 0, 0});
    ops.push_back({"clear", 4, 0, 0});
    for (int k : {0, 1, 2, 3, 4}) ops.push_back({fmt("order groups %d", k), 5, k, 0});
    ops.push_back({"save", 6, 0, 0}); ops.push_back({"restore", 7, 0, 0}); ops.push_back({"change", 8, 0, 0});
  }
  std::vector<std::string> n; for (auto& o : ops) n.push_back(o.n);
  const std::string who = "calibration";
  sequences(fmt("calibration %d", part), ops.size(), depth, [&](const std::vector<int>& s) {
    Groups m; std::vector<int> E; Values v; v.reset();
    {
      ac::OptimizationProblem p;
      for (size_t k = 0; k < s.size(); ++k) {
        const Op& o = ops[s[k]]; std::string got, want = "ok";
        switch (o.k) {
          case 0: if (m.has(o.a)) want = "invalid"; else m.add(o.a, o.b); got = outcome([&] { p.addDesignVariable(dvs[o.a], o.b); }); break;
          case 1: { bool ok = !std::count(E.begin(), E.end(), o.a); for (int d : etDv[o.a]) ok &= m.has(d);
            if (ok) E.push_back(o.a); else want = "invalid"; got = outcome([&] { p.addErrorTerm(ets[o.a]); }); break; }
          case 2: { auto q = perm(o.a, E.size()); if (valid(q, E.size())) { std::vector<int> w; for (size_t i : q) w.push_back(E[i]); E = w; } else want = "bounds";
            got = outcome([&] { p.permuteErrorTerms(q); }); break; }
          case 3: { size_t z = m.g.count(o.b) ? m.g[o.b].size() : 0; auto q = perm(o.a, z); if (!z) want = "bounds"; else if (valid(q, z)) m.permute(o.b, q); else want = "bounds";
            got = outcome([&] { p.permuteDesignVariables(q, o.b); }); break; }
          case 4: m = Groups(); E.clear(); v.saved.clear(); got = outcome([&] { p.clear(); }); break;
          case 5: { std::vector<size_t> q = m.order; bool ok = true;
            if (o.a == 0) std::reverse(q.begin(), q.end()); else if (o.a == 1) { std::rotate(q.begin(), q.begin() + (q.empty() ? 0 : 1), q.end()); }
            else if (o.a == 2) { ok = q.size() < 2; if (q.size() > 1) q[0] = q[1]; } else if (o.a == 3) { ok = false; q.push_back(7); } else { ok = q.empty(); if (!q.empty()) q.back() = 7; }
            if (ok) m.order = q; else want = "bounds"; got = outcome([&] { p.setGroupsOrdering(q); }); break; }
          case 6: for (int i = 0; i < 4; ++i) if (m.has(i)) v.saved[i] = v.now[i]; got = outcome([&] { p.saveDesignVariables(); }); break;
          case 7: for (auto& x : v.saved) v.now[x.first] = x.second; got = outcome([&] { p.restoreDesignVariables(); }); break;
          case 8: v.change(k); got = "ok"; break;
          case 9: want = "null null"; got = outcome([&] { p.addDesignVariable(boost::shared_ptr<ab::DesignVariable>()); }) + " " + outcome([&] { p.addErrorTerm(boost::shared_ptr<ab::ErrorTerm>()); });
        }
        std::string at = "after " + opsStr(n, s, k + 1);
        expect(got == want, who + "/outcome", at + ": " + got + " instead of " + want);
        std::string model = m.str(); for (int e : E) model += fmt("e%d ", e);
        std::string real = dump(p);
        expect(real == model, who + "/contents", at + ": " + real + "instead of " + model);
        if (real != model || got != want) return;
        if (k + 1 == s.size() || o.k >= 4) {
          checkGroups(p, m, who, at);
          for (int j = 0; j < 3; ++j) expect(p.isErrorTermInProblem(ets[j].get()) == (std::count(E.begin(), E.end(), j) > 0), who + "/isErrorTermInProblem", at);
          v.check(who, at);
          expect(outcome([&] { p.getErrorTerms().at(E.size()); }) != "ok", who + "/getErrorTerms", at);
          expect(outcome([&] { p.errorTerm(p.numErrorTerms()); }) != "ok" && outcome([&] { p.designVariable(p.numDesignVariables()); }) != "ok", who + "/index", at);
        }
        if (k + 1 == s.size()) { state(who + real); nontrivial(hashStr(who + real)); }
      }
    }
    for (auto& d : dvs) expect(d.use_count() == 1, who + "/released", opsStr(n, s, s.size()));
    for (auto& e : ets) expect(e.use_count() == 1, who + "/released", opsStr(n, s, s.size()));
  });
}

static void incrementalMachine(int depth, int part) {
  // Prefabricated batches: {dv, group}..., {terms}
  struct Batch { std::vector<std::pair<int, size_t>> d; std::vector<int> e; };
  std::vector<Batch> bs = {
    {{{0, 5}, {1, 0}}, {0, 1}},
    {{{2, 5}, {1, 0}}, {2}},
    {{{3, 1}, {0, 5}, {2, 5}}, {3, 4}},
    {{{3, 5}, {1, 0}}, {}},          // group of dv3 contradicts batch 2; no terms
    {{{0, 5}, {2, 5}, {3, 1}}, {5, 3}},   // shares term 3 with batch 2
  };
  std::vector<boost::shared_ptr<ac::OptimizationProblem>> P;
  for (auto& b : bs) {
    auto p = boost::make_shared<ac::OptimizationProblem>();
    for (auto& d : b.d) p->addDesignVariable(dvs[d.first], d.second);
    for (int e : b.e) p->addErrorTerm(ets[e]);
    P.push_back(p);
  }
  struct Op { std::string n; int k, a; size_t b; };
  std::vector<Op> ops;
  for (int i = 0; i < 5; ++i) ops.push_back({fmt("add batch%d", i), 0, i, 0});
  for (int i = 0; i < 3; ++i) ops.push_back({fmt("remove at %d", i), 1, i, 0});
  ops.push_back({"remove batch1", 2, 1, 0}); 
  ops.push_back({"clear", 3, 0, 0});
  if (part == 0) {
    for (int k : {0, 2, 3}) ops.push_back({fmt("permute batches %d", k), 4, k, 0});
    for (int k : {1, 2}) ops.push_back({fmt("permute group 5 %d", k), 5, k, 5});
    for (int k : {0, 2}) ops.push_back({fmt("order groups %d", k), 6, k, 0});
  } else {
    ops.push_back({"remove batch2", 2, 2, 0}); ops.push_back({"add null", 10, 0, 0});
    for (int k : {0, 1, 2, 3, 4}) ops.push_back({fmt("order groups %d", k), 6, k, 0});
    ops.push_back({"save", 7, 0, 0}); ops.push_back({"restore", 8, 0, 0}); ops.push_back({"change", 9, 0, 0});
  }
  std::vector<std::string> n; for (auto& o : ops) n.push_back(o.n);
  const std::string who = "incremental";
  sequences(fmt("incremental %d", part), ops.size(), depth, [&](const std::vector<int>& s) {
    Groups m; std::map<int, int> cnt; std::vector<int> B; Values v; v.reset();
    auto take = [&](int at) { int b = B[at]; B.erase(B.begin() + at); for (auto& d : bs[b].d) if (--cnt[d.first] == 0) { m.remove(d.first); v.saved.erase(d.first); } };
    {
      ac::IncrementalOptimizationProblem p;
      for (size_t k = 0; k < s.size(); ++k) {
        const Op& o = ops[s[k]]; std::string got, want = "ok";
        switch (o.k) {
          case 0: { bool ok = true;
            for (auto& d : bs[o.a].d) if (m.has(d.first) && m.of(d.first) != d.second) ok = false;
            for (int b : B) for (int e : bs[b].e) if (std::count(bs[o.a].e.begin(), bs[o.a].e.end(), e)) ok = false;
            if (ok) { B.push_back(o.a); for (size_t i = 0; i < P[o.a]->numDesignVariables(); ++i) { int d = dvIdx(P[o.a]->designVariable(i)); if (!m.has(d)) m.add(d, P[o.a]->getGroupId(dvs[d].get())); ++cnt[d]; } }
            else want = "invalid";
            got = outcome([&] { p.add(P[o.a]); }); break; }
          case 1: if ((size_t)o.a < B.size()) take(o.a); else want = "bounds"; got = outcome([&] { p.remove((size_t)o.a); }); break;
          case 2: { auto it = std::find(B.begin(), B.end(), o.a); if (it == B.end()) want = "invalid"; else take(it - B.begin()); got = outcome([&] { p.remove(P[o.a]); }); break; }
          case 3: B.clear(); m = Groups(); cnt.clear(); v.saved.clear(); got = outcome([&] { p.clear(); }); break;
          case 4: { auto q = perm(o.a, B.size()); if (valid(q, B.size())) { std::vector<int> w; for (size_t i : q) w.push_back(B[i]); B = w; } else want = "bounds";
            got = outcome([&] { p.permuteOptimizationProblems(q); }); break; }
          case 5: { size_t z = m.g.count(o.b) ? m.g[o.b].size() : 0; auto q = perm(o.a, z); if (z && valid(q, z)) m.permute(o.b, q); else want = "bounds";
            got = outcome([&] { p.permuteDesignVariables(q, o.b); }); break; }
          case 6: { std::vector<size_t> q = m.order; bool ok = true;
            if (o.a == 0) std::reverse(q.begin(), q.end()); else if (o.a == 1) { std::rotate(q.begin(), q.begin() + (q.empty() ? 0 : 1), q.end()); }
            else if (o.a == 2) { ok = q.size() < 2; if (q.size() > 1) q[0] = q[1]; } else if (o.a == 3) { ok = false; q.push_back(7); } else { ok = q.empty(); if (!q.empty()) q.back() = 7; }
            if (ok) m.order = q; else want = "bounds"; got = outcome([&] { p.setGroupsOrdering(q); }); break; }
          case 7: for (int i = 0; i < 4; ++i) if (m.has(i)) v.saved[i] = v.now[i]; got = outcome([&] { p.saveDesignVariables(); }); break;
          case 8: for (auto& x : v.saved) v.now[x.first] = x.second; got = outcome([&] { p.restoreDesignVariables(); }); break;
          case 9: v.change(k); got = "ok"; break;
          case 10: want = "null"; got = outcome([&] { p.add(boost::shared_ptr<ac::OptimizationProblem>()); }); break;
        }
        std::string at = "after " + opsStr(n, s, k + 1);
        expect(got == want, who + "/outcome", at + ": " + got + " instead of " + want);
        std::string model = m.str(); for (int b : B) for (int e : bs[b].e) model += fmt("e%d ", e);
        std::string real = dump(p);
        expect(real == model, who + "/contents", at + ": " + real + "instead of " + model);
        if (real != model || got != want) return;
        if (k + 1 == s.size() || o.k >= 6) {
          checkGroups(p, m, who, at);
          std::set<int> E; for (int b : B) for (int e : bs[b].e) E.insert(e);
          for (int j = 0; j < 6; ++j) expect(p.isErrorTermInProblem(ets[j].get()) == (E.count(j) > 0), who + "/isErrorTermInProblem", at);
          expect(p.getNumOptimizationProblems() == B.size(), who + "/batches", at);
          for (size_t i = 0; i < B.size(); ++i) expect(p.getOptimizationProblem(i) == P[B[i]].get() && p.getErrorTerms(i).size() == bs[B[i]].e.size(), who + "/batches", at);
          expect(outcome([&] { p.errorTerm(p.numErrorTerms()); }) != "ok" && outcome([&] { p.designVariable(p.numDesignVariables()); }) != "ok", who + "/index", at);
          expect(outcome([&] { p.getErrorTerms(B.size()); }) == "bounds" && outcome([&] { p.getOptimizationProblem(B.size()); }) == "bounds", who + "/batch-index", at);
          v.check(who, at);
        }
        if (k + 1 == s.size()) { state(who + real); nontrivial(hashStr(who + real)); }
      }
    }
    for (auto& b : P) expect(b.use_count() == 1, who + "/released", opsStr(n, s, s.size()));
  });
}

struct Counted : public VecDv { int* n; Counted(int* c) : VecDv(1, 0), n(c) { ++*n; } ~Counted() { --*n; } };
struct CountedEt : public ErrDs { int* n; CountedEt(const ErrModel& m, int* c) : ErrDs(m), n(c) { ++*n; } ~CountedEt() { --*n; } };
template <class P> static void raw(const std::string& who) {
  for (int owns = 0; owns < 4; ++owns) for (int how = 0; how < (who == "simple" ? 2 : 4); ++how)
    run(fmt("raw %s owns %d how %d", who.c_str(), owns, how), [&] {
      int nd = 0, ne = 0; Counted* d = new Counted(&nd); std::vector<VecDv*> v = {d}; CountedEt* e = new CountedEt(ErrModel(v, 1, 1, 0), &ne);
      {
        P p; p.addDesignVariable(d, owns & 1); p.addErrorTerm(e, owns & 2);
        expect(nd == 1 && ne == 1, who + "/owned-early", "");
        if (how == 1) p.clear();
        if (how >= 2) { struct R { static void a(ab::OptimizationProblem& p, Counted* d, CountedEt* e, int how) { if (how == 2) p.removeDesignVariable(d); else { p.removeErrorTerm(e); p.removeDesignVariable(d); } } static void a(ab::SimpleOptimizationProblem&, Counted*, CountedEt*, int) {} }; R::a(p, d, e, how); }
        if (how) expect(nd == !(owns & 1) && ne == !(owns & 2), who + "/owned", fmt("%d %d", nd, ne));
      }
      expect(nd == !(owns & 1) && ne == !(owns & 2), who + "/owned", fmt("%d %d", nd, ne));
      if (ne) delete e; if (nd) delete d;
    });
}
int main(int argc, char** argv) {
  init(argc, argv);
  bool th = thorough();
  makeObjects({{0}, {0, 1}, {0, 0, 2}, {1, 2}});
  backendMachine<ab::OptimizationProblem>(false, th ? 7 : 5);
  backendMachine<ab::SimpleOptimizationProblem>(true, th ? 6 : 5);
  raw<ab::OptimizationProblem>("backend"); raw<ab::SimpleOptimizationProblem>("simple");
  makeObjects({{0, 1}, {2}, {1, 2}});
  calibrationMachine(th ? 6 : 4, 0);
  calibrationMachine(th ? 6 : 4, 1);
  makeObjects({{0, 1}, {0}, {2, 1}, {3, 0}, {2}, {0, 2}});
  incrementalMachine(th ? 5 : 4, 0);
  incrementalMachine(th ? 5 : 4, 1);
  // all index vectors of up to 4 (5) elements in 0..4
  for (int n = 0; n <= (th ? 6 : 5); ++n)
    run(fmt("permute %d", n), [&] {
      std::vector<size_t> q(n, 0);
      for (;;) {
        std::vector<int> c, w; for (int i = 0; i < n; ++i) c.push_back(10 + i);
        std::vector<int> before = c; bool ok = valid(q, n);
        if (ok) for (size_t i : q) w.push_back(before[i]); else w = before;
        std::string o = outcome([&] { ac::permute(c, q); });
        std::string qs; for (size_t i : q) qs += fmt("%zu ", i);
        expect(o == (ok ? "ok" : "bounds") && c == w, "permute", qs + o); transition();
        if (ok) nontrivial(hashStr(qs));
        int k = n - 1; while (k >= 0 && q[k] == (size_t)n) q[k--] = 0; if (k < 0) break; ++q[k];
      }
    });
  return finish();
}
