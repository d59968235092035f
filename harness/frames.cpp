// Keypoints, frames, landmarks: every history of changes against a record of
// the attributes, derived quantities against the camera model.
#include "cameras_common.hpp"
#include <aslam_cameras/Frame.hpp>
#include <aslam_cameras/Landmark.hpp>
#include <aslam_cameras/cameras/Triangulation.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_boost/serialization.hpp>
#include <opencv2/core/core.hpp>
int mode = 0;
using namespace aslam; using sm::kinematics::UncertainHomogeneousPoint; using sm::kinematics::UncertainVector3; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix2d M2;
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
struct Word : DescriptorBase { int v; Word(int v = 0) : v(v) {} float distance(const DescriptorBase& o) const override { return std::abs(v - o.as<Word>().v); } void initFromArray(const unsigned char* d) override { v = *d; } Word* clone() const override { return new Word(v); } bool isBinaryEqual(const DescriptorBase& r) const override { return v == r.as<Word>().v; } void setRandom() override { v = 1; } };
static M gen(int r, int c, int seed) { M m(r, c); unsigned x = 12345 + 977 * seed; for (int i = 0; i < m.size(); ++i) { x = x * 1103515245u + 12345; m.data()[i] = ((x >> 8) % 2001) / 1000.0 - 1; } return m; }
static M cov(int n, int seed) { M g = gen(n, n, seed); return g * g.transpose() + 0.3 * M::Identity(n, n); }
template <typename T> static T archived(const T& a, int kind) { std::stringstream s; T b; if (kind == 0) { { boost::archive::binary_oarchive o(s); o << a; } boost::archive::binary_iarchive i(s); i >> b; } else { { boost::archive::portable_binary_oarchive o(s); o << a; } boost::archive::portable_binary_iarchive i(s); i >> b; } return b; }
typedef Keypoint<2> KP;
struct Rec { V2 y = V2::Zero(); M2 R = M2::Identity(); int octave = 0; size_t trace = 0; bool enabled = true, hasL = false, hasB = false; V4 l; M4 U; long long id = -1; V3 b; M3 E; int desc = -1;
  std::string text() const { return fmt("%g %g %d %zu %d %d %d %lld %d ", y[0], R(0, 0), octave, trace, enabled, hasL, hasB, id, desc) + (hasL ? fmt("%g %g ", l[0], U(0, 0)) : "") + (hasB ? fmt("%g %g ", b[0], E(0, 0)) : ""); } };
static bool same(KP& k, const Rec& r, const std::string& d) {
  bool g = true; auto e = [&](bool c, const char* key) { if (!c) { fail(key, d); g = false; } };
  e(k.y() == r.y && k.measurement() == r.y && k.vsMeasurement() == VX(r.y) && k.dimension() == 2, "measurement"); e(k.invR() == r.R && k.inverseMeasurementCovariance() == r.R && k.vsInverseMeasurementCovariance() == M(r.R), "inverse-covariance");
  e(k.octave() == r.octave, "octave"); e(k.getTraceId() == r.trace, "trace"); e(k.isLandmarkEnabled() == r.enabled, "landmark-enabled"); e(k.isLandmarkInitialized() == r.hasL && (k.landmarkPtr() != 0) == r.hasL, "landmark-set");
  if (r.hasL && k.landmarkPtr()) e(k.landmark().toHomogeneous() == r.l && k.landmark().U4() == r.U && k.landmarkPtr() == &k.landmark(), "landmark");
  e(k.landmarkId().isSet() == (r.id >= 0) && (r.id < 0 || k.landmarkId().getId() == (uint64_t)r.id), "landmark-id"); e(k.isBackProjectionSet() == r.hasB && (k.backProjection() != 0) == r.hasB, "back-projection-set");
  if (r.hasB && k.backProjection()) e(k.backProjection()->mean() == r.b && k.backProjection()->covariance() == r.E, "back-projection");
  e((k.descriptor() != 0) == (r.desc >= 0) && k.descriptorPtr().get() == k.descriptor() && (r.desc < 0 || k.descriptor()->as<Word>().v == r.desc), "descriptor"); return g; }
static bool equalRec(const Rec& a, const Rec& b) { return a.y == b.y && a.R == b.R && a.octave == b.octave && a.hasL == b.hasL && (!a.hasL || (a.l == b.l && a.U == b.U)) && a.id == b.id && a.hasB == b.hasB && (!a.hasB || (a.b == b.b && a.E == b.E)) && a.desc == b.desc; }
static const int OPS = 22;
static const char* names[OPS] = {"measure", "vsMeasure", "invR", "vsInvR", "octave", "trace", "landmark", "landmark2", "clearLandmark", "landmarkId", "back", "backVector", "clearBack", "disable", "enable", "descriptor", "descriptorPtr", "a=b", "b=a", "swap", "a=copy", "archive"};
static void apply(KP* k, Rec* r, int op) { KP& a = k[0]; Rec& x = r[0];
  switch (op) {
    case 0: a.setMeasurement(V2(1, 2)); x.y = V2(1, 2); break; case 1: a.vsSetMeasurement(V2(3, 4)); x.y = V2(3, 4); break; case 2: x.R = cov(2, 1); a.setInverseMeasurementCovariance(x.R); break; case 3: x.R = cov(2, 2); a.vsSetInverseMeasurementCovariance(x.R); break;
    case 4: a.setOctave(x.octave = 3); break; case 5: a.setTraceId(x.trace = 7); break; case 6: x.hasL = true; x.l = V4(1, 2, 3, 1); x.U = cov(4, 1); a.setLandmark(UncertainHomogeneousPoint(x.l, x.U)); break; case 7: if (!x.hasL) x.l = V4(4, 5, 6, 2); /* else another covariance at the same place */ x.hasL = true; x.U = cov(4, 2); a.setLandmark(UncertainHomogeneousPoint(x.l, x.U)); break;
    case 8: x.hasL = false; x.id = -1; a.clearLandmark(); break; case 9: x.id = 5; a.setLandmarkId(LandmarkId(5)); break; case 10: x.hasB = true; x.b = V3(1, 2, 3); x.E = cov(3, 1); a.setBackProjection(UncertainVector3(x.b, x.E)); break; case 11: x.hasB = true; x.b = V3(4, 5, 6); x.E.setZero(); a.setBackProjectionVector(x.b); break; case 12: x.hasB = false; a.clearBackProjection(); break;
    case 13: a.disableLandmark(); x.enabled = false; break; case 14: a.enableLandmark(); x.enabled = true; break; case 15: { Word w(4); a.setDescriptor(w); w.v = 99; x.desc = 4; break; } case 16: a.setDescriptorPtr(boost::make_shared<Word>(6)); x.desc = 6; break;
    case 17: a = k[1]; x = r[1]; break; case 18: k[1] = a; r[1] = x; break; case 19: a.swap(k[1]); std::swap(x, r[1]); break; case 20: { KP c(k[1]); a = c; x = r[1]; c.setMeasurement(V2(9, 9)); break; }
    case 21: if (x.desc < 0) { Rec y = x; KP b = archived(a, 1); bool en = x.enabled; size_t tr = x.trace; y.enabled = b.isLandmarkEnabled(); y.trace = b.getTraceId(); same(b, y, "archived " + y.text()); expect(a.isBinaryEqual(b), "archive", x.text()); (void)en; (void)tr; } break; } }
static void keypoints() {
  int depth = thorough() ? 5 : 4; std::vector<int> w;
  std::function<void(KP*, Rec*)> rec = [&](KP* k, Rec* r) { for (int op = 0; op < OPS; ++op) { if ((int)w.size() == 1 && op == w[0] && op < 17) continue; if ((int)w.size() == 0) continue; w.push_back(op);
      KP kk[2] = {k[0], k[1]}; Rec rr[2] = {r[0], r[1]}; for (int i = 0; i < 2; ++i) if (rr[i].desc >= 0) {} apply(kk, rr, op); transition(); state(rr[0].text() + rr[1].text());
      std::string d; for (int o : w) d += std::string(names[o]) + " "; bool ok = same(kk[0], rr[0], d + ": first") && same(kk[1], rr[1], d + ": second"); expect(kk[0].isBinaryEqual(kk[1]) == equalRec(rr[0], rr[1]), "equal", d); if (ok && !tooMany() && (int)w.size() < depth) rec(kk, rr); w.pop_back(); } };
  for (int first = 0; first < OPS; ++first) for (int second = 0; second < 2; ++second) run(fmt("keypoints %s %d", names[first], second), [&] { KP k[2]; Rec r[2]; if (second) { KP t[1]; Rec s[1]; for (int op : {1, 3, 4, 7, 9, 11, 13, 16}) apply(t, s, op); k[1] = t[0]; r[1] = s[0]; r[1].octave = 3; same(t[0], s[0], "direct"); }
      w = {first}; apply(k, r, first); std::string d = names[first]; nontrivial(hashStr(d) + second); if (same(k[0], r[0], d) && same(k[1], r[1], d)) rec(k, r); });
  run("keypoint refusals", [&] { KP a; expect(throws([&] { a.vsSetMeasurement(V3(1, 2, 3)); }), "size", ""); expect(throws([&] { a.vsSetInverseMeasurementCovariance(M::Identity(3, 3)); }), "size", ""); expect(throws([&] { a.vsSetInverseMeasurementCovariance(M::Zero(2, 3)); }), "size", ""); expect(throws([&] { a.vsSetInverseMeasurementCovariance(M::Zero(3, 2)); }), "size", ""); Rec r; same(a, r, "fresh"); a = a; same(a, r, "self"); a.swap(a); same(a, r, "self"); transition(6);
    for (int i = 0; i < 20; ++i) { KP k; V2 y = 10 * gen(2, 1, i); M2 R = cov(2, i); k.setMeasurement(y); k.setInverseCovariance(R); V2 z = 10 * gen(2, 1, 100 + i); double want = (z - y).dot(R * (z - y)); expectNear(k.mahalonibisDistance(z), want, 1e-12 * (1 + want), "mahalanobis", fmt("%d", i)); expectNear(k.vsMahalonibisDistance(z), want, 1e-12 * (1 + want), "mahalanobis", fmt("%d", i)); } });
}
template <class C> static Frame<C>* fresh(boost::shared_ptr<C> g) { auto* f = new Frame<C>; f->setGeometry(g); return f; }
template <class C> static void frames(const char* name, boost::shared_ptr<C> g) {
  typedef Frame<C> F; typedef typename F::keypoint_t K; typedef boost::shared_ptr<F> P;
  static const char* ops[] = {"add", "add-empty", "add-base", "add-list", "add-base-list", "clear", "edit", "landmark", "id", "clear-geometry", "set-geometry", "stamp", "frame-id", "image", "all-back", "all-uncertain", "clear-back", "archive"}; const int N = 18, depth = thorough() ? 5 : 4;
  struct Model { std::vector<Rec> k; bool geo = true; uint64_t stamp = 0; long long id = -1; int image = 0; };
  auto point = [&](int i) -> V2 { V2 k; static const V3 ps[] = {V3(0.2, -0.1, 1), V3(-0.3, 0.25, 1.5), V3(0.05, 0.4, 2)}; g->euclideanToKeypoint(ps[i % 3], k); return k; };
  auto make = [&](int i, Rec& r) { K k; r = Rec(); r.y = point(i); r.R = cov(2, 10 + i); k.setMeasurement(r.y); k.setInverseCovariance(r.R); if (i == 1) { k.setLandmarkId(LandmarkId(3)); r.id = 3; } return k; };
  auto check = [&](F& f, Model& m, const std::string& d) { int n = m.k.size(); if (f.numKeypoints() != (size_t)n || f.size() != (size_t)n || f.getKeypoints().size() != (size_t)n) { fail("count", d + fmt(" %zu instead of %d", f.numKeypoints(), n)); return false; }
    const F& cf = f; int ids = 0; for (int i = 0; i < n; ++i) { if (!same(f.keypoint(i), m.k[i], d + fmt(" keypoint %d", i))) return false; KP c; cf.getKeypoint(KeypointIdentifier(MultiFrameId(), 0, i), c); if (!same(c, m.k[i], d + " getKeypoint")) return false; if (&f.keypoint(i) != &f[i] || &f[i] != &f.keypointChecked(i) || &f[i] != &f.keypointUnchecked(i) || &f.keypointBase(i) != &f[i] || &cf.keypointBase(i) != &f[i] || &cf.keypoint(i) != &f[i]) fail("access", d); ids += m.k[i].id >= 0; V4 l(0, 0, 0, 0), l2(l); bool h = cf.getLandmark(i, l), h2 = cf.getLandmark(KeypointIdentifier(MultiFrameId(), 0, i), l2); expect(h == m.k[i].hasL && h2 == h && (h ? l == m.k[i].l && l2 == l : l.norm() == 0), "get-landmark", d); }
    expect(f.numKeypointsWithALandmarkId() == (size_t)ids, "landmark-ids", d); expect(throws([&] { f.keypointChecked(n); }) && throws([&] { cf.keypointChecked(n); }) && throws([&] { cf.keypointChecked(-1); }), "range", d);
    expect((f.geometryPtr() != 0) == m.geo && (f.geometryBase() != 0) == m.geo && (cf.geometryBase() != 0) == m.geo, "geometry", d); expect(f.time().toNSec() == m.stamp, "stamp", d); expect(f.id().isSet() == (m.id >= 0) && (m.id < 0 || f.id().getId() == (uint64_t)m.id), "frame-id", d); expect(m.image ? f.image().rows == m.image && f.image().cols == 2 && f.image().template at<uchar>(m.image - 1, 1) == 9 : f.image().empty(), "image", d);
    if (m.geo && n) for (int i = 0; i < n; ++i) { auto& r = m.k[i]; KeypointIdentifier kid(MultiFrameId(), 0, i); double sec = g->temporalOffset(r.y).toSec(); expectNear(f.keypointTime(i).toSec() - f.time().toSec(), sec, 2e-7, "time", d); expect(f.keypointTime(kid).toNSec() == f.keypointTime(i).toNSec(), "time", d); V3 ray; M Jb(3, 2); VX kx = r.y; typename C::inverse_jacobian_t J; bool ok = g->keypointToEuclidean(typename F::measurement_t(r.y), ray, J); if (!ok) continue; V3 u = ray.normalized(); BackProjection b, b2; b.viewOrigin.setConstant(7); cf.getBackProjection(i, b); cf.getBackProjection(kid, b2); near(b.ray, r.hasB ? r.b : u, 1e-12, "ray", d); near(b2.ray, b.ray, 0, "ray", d); near(b.viewOrigin, V3::Zero(), 0, "view-origin", d);
      UncertainBackProjection q, q2; q.viewOrigin = UncertainVector3(V3(1, 1, 1)); cf.getUncertainBackProjection(i, q); cf.getUncertainBackProjection(kid, q2); M3 S = J * r.R.inverse() * J.transpose(), Jn = (M3::Identity() - u * u.transpose()) / ray.norm(); near(q.ray.mean(), r.hasB ? r.b : u, 1e-12, "uncertain-ray", d); near(q.ray.covariance(), r.hasB ? r.E : M3(Jn * S * Jn.transpose()), 1e-10, "uncertain-ray-covariance", d); near(q.viewOrigin.mean(), V3::Zero(), 0, "view-origin", d); near(q2.ray.covariance(), q.ray.covariance(), 0, "uncertain-ray-covariance", d); }
    return true; };
  std::vector<int> w;
  std::function<void(const F&, const Model&)> rec; auto step = [&](F& f, Model& m, int op) { Rec r, r2; switch (op) {
      case 0: f.addKeypoint(make(0, r)); m.k.push_back(r); break; case 1: { K& k = f.addKeypoint(); k = make(1, r); m.k.push_back(r); break; } case 2: { K k = make(2, r); f.addBaseKeypoint(&k); m.k.push_back(r); expect(throws([&] { f.addBaseKeypoint(0); }), "null", ""); Keypoint<3> wrong; expect(throws([&] { f.addBaseKeypoint(&wrong); }) && throws([&] { f.addBaseKeypoints(&wrong, 1); }), "wrong-kind", ""); break; }
      case 3: { typename F::keypoint_list_t l; l.push_back(make(0, r)); l.push_back(make(1, r2)); f.addKeypoints(l); m.k.push_back(r); m.k.push_back(r2); break; } case 4: { K l[2] = {make(2, r), make(1, r2)}; f.addBaseKeypoints(l, 2); m.k.push_back(r); m.k.push_back(r2); f.addBaseKeypoints(l, 0); expect(throws([&] { f.addBaseKeypoints(0, 1); }), "null", ""); break; } case 5: f.clearKeypoints(); m.k.clear(); break;
      case 6: if (m.k.size()) { f[0].setOctave(m.k[0].octave = 2); f.keypointBase(m.k.size() - 1).disableLandmark(); m.k.back().enabled = false; f.reserveKeypoints(20); } break; case 7: if (m.k.size()) { auto& x = m.k.back(); x.hasL = true; x.l = V4(1, 2, 3, 1); x.U = cov(4, 3); f[m.k.size() - 1].setLandmark(UncertainHomogeneousPoint(x.l, x.U)); } break; case 8: if (m.k.size()) { f[0].setLandmarkId(LandmarkId(8)); m.k[0].id = 8; } break;
      case 9: f.clearGeometry(); m.geo = false; break; case 10: { f.setGeometryBase(g); m.geo = true; expect(throws([&] { f.setGeometryBase(boost::shared_ptr<CameraGeometryBase>()); }), "null-geometry", ""); boost::shared_ptr<CameraGeometryBase> o(new CameraGeometry<PinholeProjection<FovDistortion>, GlobalShutter, NoMask>); expect(throws([&] { f.setGeometryBase(o); }), "wrong-geometry", ""); expect(f.geometryPtr() == g && &f.geometry() == g.get(), "geometry", ""); break; }
      case 11: f.setTime(Time(0).fromNSec(m.stamp = m.stamp + 1500000000)); break; case 12: f.setId(FrameId(4)); m.id = 4; break; case 13: { m.image++; cv::Mat im = cv::Mat::zeros(m.image, 2, CV_8UC1); im.at<uchar>(m.image - 1, 1) = 9; f.setImage(im); break; }
      case 14: case 15: if (!m.geo) break; f.computeAllBackProjections(op == 15); for (auto& x : m.k) { V3 ray; typename C::inverse_jacobian_t J; g->keypointToEuclidean(typename F::measurement_t(x.y), ray, J); int i = &x - &m.k[0]; if (!f[i].isBackProjectionSet()) { fail("all-back", "not set"); continue; } V3 u = ray.normalized(); M3 Jn = (M3::Identity() - u * u.transpose()) / ray.norm(); near(f[i].backProjection()->mean(), u, 1e-12, "all-back", ""); near(f[i].backProjection()->covariance(), op == 15 ? M3(Jn * J * x.R.inverse() * J.transpose() * Jn.transpose()) : M3(M3::Zero()), 1e-10, "all-back-covariance", ""); x.hasB = true; x.b = f[i].backProjection()->mean(); x.E = f[i].backProjection()->covariance(); } break; case 16: if (m.k.size()) { f[0].clearBackProjection(); m.k[0].hasB = false; } break;
      case 17: { F b = archived(f, w.size() % 2); Model mm = m; for (size_t i = 0; i < mm.k.size() && i < b.numKeypoints(); ++i) { mm.k[i].enabled = b[i].isLandmarkEnabled(); mm.k[i].trace = b[i].getTraceId(); } check(b, mm, "archived"); expect(f.isBinaryEqual(b) && b.isBinaryEqual(f) && b.isBinaryEqual((const FrameBase&)f), "archive-equal", [&] { std::string d = name; for (int o : w) d += std::string(" ") + ops[o]; return d; }()); break; } } };
  rec = [&](const F& f, const Model& m) { for (int op = 0; op < N; ++op) { w.push_back(op); F ff(f); Model mm = m; if (op == 13) { F* n = &ff; (void)n; } bool image = op == 13; if (image || std::count(w.begin(), w.end(), 13)) { /* copies share their images: replay */ F r; r.setGeometry(g); Model rm; auto keep = w; w.clear(); for (int o : keep) { w.push_back(o); step(r, rm, o); } std::string d = name; for (int o : w) d += std::string(" ") + ops[o]; transition(); bool ok = check(r, rm, d); if (ok && !tooMany() && (int)w.size() < depth) rec(r, rm); w.pop_back(); continue; }
      step(ff, mm, op); std::string d = name; for (int o : w) d += std::string(" ") + ops[o]; transition(); std::string s = fmt("%d %llu %lld %d ", mm.geo, (unsigned long long)mm.stamp, mm.id, mm.image); for (auto& x : mm.k) s += x.text(); state(s); bool ok = check(ff, mm, d); F c(ff); Model cm = mm; ok = ok && check(c, cm, d + " copied"); if (ok && c.numKeypoints()) { c[0].setMeasurement(V2(1, 1)); check(ff, mm, d + " after changing a copy"); expect(!c.isBinaryEqual(ff), "equal", d); } if (ok && !tooMany() && (int)w.size() < depth) rec(ff, mm); w.pop_back(); } };
  for (int first = 0; first < N; ++first) run(fmt("frame %s %s", name, ops[first]), [&] { beat(); boost::shared_ptr<F> f(new F); f->setGeometry(g); Model m; w = {first}; step(*f, m, first); nontrivial(hashStr(fmt("%s %d", name, first))); if (check(*f, m, fmt("%s %s", name, ops[first]))) rec(*f, m); });
  run(fmt("frame %s errors", name), [&] { F f; f.setGeometry(g); for (int i = 0; i < 3; ++i) { Rec r; f.addKeypoint(make(i, r)); }
    for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) for (int c = -1; c <= 3; ++c) for (double s : {1.0, 0.5, -2.0}) { V3 p(0.3 * a, 0.25 * b, c * 0.7); V4 ph; ph << p * s, s; std::string d = fmt("%s point %d %d %d scale %g", name, a, b, c, s); if (p.norm() == 0) continue; M4 U = cov(4, a + 3 * b + 9 * c + 40) * 1e-2; UncertainHomogeneousPoint up(ph, U); VX y(2), y4(2), yu(2); V2 ref, refh; bool ok = g->euclideanToKeypoint(p, ref), okh = g->homogeneousToKeypoint(ph, refh); transition(3); bool q3 = f.computeProjection3(p, y), q4 = f.computeProjection4(ph, y4), qu = f.computeProjectionUhp(up, yu); expect(q3 == ok && q4 == okh && qu == okh, "projection", d); if (ok) near(y, ref, 0, "projection", d); if (okh) { near(y4, refh, 0, "projection", d); near(yu, refh, 0, "projection", d); }
      for (int i = 0; i < 3; ++i) { KeypointIdentifier kid(MultiFrameId(2), 1, i); double e3 = -1, e4 = -1, eu = -1, k3 = -1, k4 = -1, ku = -1; bool r3 = f.computeReprojectionError3(i, p, e3), r4 = f.computeReprojectionError4(i, ph, e4), ru = f.computeReprojectionErrorUhp(i, up, eu); expect(r3 == ok && r4 == okh && ru == okh, "visible", d); f.computeReprojectionError3(kid, p, k3); f.computeReprojectionError4(kid, ph, k4); f.computeReprojectionErrorUhp(kid, up, ku); expect(k3 == e3 && k4 == e4 && ku == eu, "identifier", d);
        if (ok) { V2 e = ref - f[i].y(); double w = e.dot(f[i].invR() * e); expectNear(e3, w, 1e-10 * (1 + w), "error3", d); } else expect(e3 == -1, "untouched", d); if (okh) { V2 e = refh - f[i].y(); double w = e.dot(f[i].invR() * e); expectNear(e4, w, 1e-10 * (1 + w), "error4", d); typename C::jacobian_homogeneous_t J; V2 t; g->homogeneousToKeypoint(ph, t, J); M2 R = f[i].invR().inverse() + J * U * J.transpose(); w = e.dot(R.inverse() * e); expectNear(eu, w, 1e-8 * (1 + w), "errorU", d); nontrivial(hashStr(d)); } else expect(e4 == -1 && eu == -1, "untouched", d); } } });
}
static void landmarks() {
  for (int i = 0; i < 64; ++i) run(fmt("landmark %d", i), [&] { KP k; V4 p = gen(4, 1, i); M4 U = cov(4, i); k.setLandmark(UncertainHomogeneousPoint(p, U)); if (i & 1) k.setLandmarkId(LandmarkId(i)); if (i & 2) k.setDescriptor(Word(i)); std::string d = fmt("%d", i); nontrivial(hashStr(d));
    auto is = [&](const Landmark& l, const V4& q, const M4& V, uint64_t f, const char* key) { near(l.toHomogeneous(), q, 1e-14, key, d); near(l.point().U4(), V, 1e-13, key, d); near(l.toEuclidean(), V3(q.head<3>() / q[3]), 1e-12, key, d); expect(l.frameId() == f && l.landmarkId().isSet() == (i & 1) && (!(i & 1) || l.landmarkId().getId() == (uint64_t)i) && (l.descriptor() != 0) == !!(i & 2) && (!(i & 2) || l.descriptor()->as<Word>().v == i), key, d); transition(); };
    Landmark a; expect(a.frameId() == (uint64_t)-1 && !a.landmarkId().isSet() && !a.descriptor(), "fresh", d); a.fromKeypoint(17, k); is(a, p, U, 17, "from-keypoint"); Landmark b(a); is(b, p, U, 17, "copy"); Landmark c; c = a; is(c, p, U, 17, "assign"); is(a, p, U, 17, "assign"); Landmark e; e.setFrameId(3); e.swap(c); is(e, p, U, 17, "swap"); expect(c.frameId() == 3 && !c.descriptor() && !c.landmarkId().isSet(), "swap", d); e = e; is(e, p, U, 17, "self");
    if (i & 4) { sm::kinematics::Transformation T; V4 q = gen(4, 1, 300 + i).normalized(); T = sm::kinematics::Transformation(q, V3(gen(3, 1, 400 + i))); Landmark t; t.fromTransformedKeypoint(9, k, T); M4 Tm = T.T(); near(t.toHomogeneous(), Tm * p, 1e-13, "transformed", d); near(t.point().U4(), Tm * U * Tm.transpose(), 1e-12, "transformed", d); expect(t.frameId() == 9, "transformed", d); KP none; expect(throws([&] { Landmark x; x.fromTransformedKeypoint(1, none, T); }), "no-landmark", d); }
    if (!(i & 2)) { Landmark r = archived(a, i / 8 % 2); is(r, p, U, 17, "archive"); expect(r.isBinaryEqual(a), "archive", d); r.setFrameId(2); expect(!r.isBinaryEqual(a), "equal", d); } a.setDescriptorPtr(boost::make_shared<Word>(50)); expect(a.descriptor()->as<Word>().v == 50 && (!(i & 2) || k.descriptor()->as<Word>().v == i), "descriptor", d); a.setDescriptorRawPtr(new Word(51)); expect(a.descriptorPtr()->as<Word>().v == 51, "descriptor", d); });
  // two rays
  int n = thorough() ? 60 : 24;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) run(fmt("rays %d %d", i, j), [&] { V3 p0 = 5 * gen(3, 1, i), p1 = 5 * gen(3, 1, 500 + j), r0 = gen(3, 1, 1000 + i) * (1 + i % 3), r1 = gen(3, 1, 1500 + j); if (r0.cross(r1).norm() < 0.05) return; std::string d = fmt("%d %d", i, j); nontrivial(hashStr(d)); V3 out; double gap, s0, s1; triangulate(p0, r0, p1, r1, out, gap, s0, s1); V3 a = p0 + s0 * r0, b = p1 + s1 * r1; transition(); double sc = 1 + a.norm() + b.norm(); expectNear((a - b).dot(r0), 0, 1e-9 * sc, "closest", d); expectNear((a - b).dot(r1), 0, 1e-9 * sc, "closest", d); near(out, V3(0.5 * (a + b)), 1e-12, "midpoint", d); expectNear(gap, std::fabs((p1 - p0).dot(r0.cross(r1).normalized())), 1e-9 * sc, "gap", d);
      V3 x = 5 * gen(3, 1, 2000 + i * n + j); if ((x - p0).cross(x - p1).norm() < 0.1) return; triangulate(p0, V3(x - p0), p1, V3(0.3 * (x - p1)), out, gap, s0, s1); near(out, x, 1e-8, "point", d); expectNear(gap, 0, 1e-8, "gap", d); expectNear(s0, 1, 1e-8, "scale", d); expectNear(s1, 1 / 0.3, 1e-7, "scale", d); });
  run("identifiers", [&] { std::vector<KeypointIdentifier> v; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) v.push_back(KeypointIdentifier(MultiFrameId(a), b, c)); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { expect((v[i] < v[j]) == (i < j) && (v[i] == v[j]) == (i == j) && v[i].isBinaryEqual(v[j]) == (i == j), "order", fmt("%zu %zu", i, j)); transition(); } for (auto& k : v) for (int kind : {0, 1}) expect(archived(k, kind) == k, "identifier-archive", ""); });
  run("octaves", [&] { for (int n = 1; n <= 4; ++n) { aslam::Image im(n); expect((int)im.numOctaves() == n, "octaves", ""); for (int i = 0; i < n; ++i) im.getOctaveMutable(i) = cv::Mat::ones(i + 1, n, CV_8UC1) * (i + 3); aslam::Image b = archived(im, n % 2); expect(b.isBinaryEqual(im), "image-archive", ""); for (int i = 0; i < n; ++i) expect(b.getOctave(i).rows == i + 1 && b.getOctave(i).at<uchar>(i, n - 1) == i + 3, "octave", ""); b.getOctaveMutable(n - 1).at<uchar>(0, 0) = 77; expect(!b.isBinaryEqual(im), "image-equal", ""); for (int m = 1; m <= 5; ++m) { aslam::Image c(im); c.setNumOctaves(m); expect((int)c.numOctaves() == m && (m == n || !c.isBinaryEqual(im)), "set-octaves", ""); for (int i = 0; i < m; ++i) expect(i < n ? c.getOctave(i).rows == i + 1 : c.getOctave(i).empty(), "set-octaves", ""); transition(); } } });
}
int main(int argc, char** argv) {
  init(argc, argv);
  keypoints(); landmarks();
  auto rs = boost::make_shared<DistortedPinholeRsCameraGeometry>(DistortedPinholeRsCameraGeometry::projection_t(400, 410, 320, 240, 640, 480, RadialTangentialDistortion(-0.2, 0.1, 0.001, -0.001)), RollingShutter(1e-4), NoMask());
  auto om = boost::make_shared<OmniCameraGeometry>(OmniCameraGeometry::projection_t(0.9, 400, 410, 320, 240, 640, 480), GlobalShutter(), NoMask());
  frames("rolling", rs); frames("omni", om); return finish();
}
