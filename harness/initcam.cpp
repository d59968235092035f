// Initial calibration: the pose of a camera from an observation of a target
// and the first guess of its intrinsics.
#include "vmc.hpp"
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <boost/make_shared.hpp>
using namespace aslam::cameras; using namespace vmc;
typedef sm::kinematics::Transformation T4; typedef GridCalibrationTargetObservation Obs; typedef Eigen::Vector3d V3; typedef Eigen::Vector2d V2;
typedef boost::shared_ptr<GridCalibrationTargetCheckerboard> Board;
static Board board(int r, int c, double s) { return boost::make_shared<GridCalibrationTargetCheckerboard>(r, c, s, s); }
// pose of the camera: looking at the middle of the board
static T4 pose(const Board& b, double dist, double tilt, double dir, double roll, double dx, double dy) {
  V3 mid = V3::Zero(); for (size_t i = 0; i < b->size(); ++i) mid += b->point(i); mid /= b->size();
  Eigen::Matrix3d R = (Eigen::AngleAxisd(tilt, V3(std::cos(dir), std::sin(dir), 0)) * Eigen::AngleAxisd(roll, V3::UnitZ())).toRotationMatrix(); // target to camera
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity(); m.topLeftCorner<3, 3>() = R; m.topRightCorner<3, 1>() = V3(dx, dy, dist) - R * mid; return T4(m.inverse());
}
template <typename P> static Obs observe(const P& p, const Board& b, const T4& T, int w, int h, unsigned mask = ~0u, bool* all = 0) {
  Obs o(b); o.setImage(cv::Mat(h, w, CV_8UC1)); o.clearImage(); T4 Tct = T.inverse(); if (all) *all = true;
  for (size_t i = 0; i < b->size(); ++i) { V2 k; bool ok = p.euclideanToKeypoint(V3(Tct * b->point(i)), k); if (all) *all &= ok; if (i < 32 && !(mask >> i & 1)) continue; if (ok) o.updateImagePoint(i, k); }
  return o;
}
static double distance(const T4& a, const T4& b) { return (a.T() - b.T()).cwiseAbs().maxCoeff(); }
// ---------------------------------------------------------------- pose
template <typename P> static void poses(const char* name, const P& proj, bool wide) {
  typedef CameraGeometry<P, GlobalShutter, NoMask> G; static int n = 0; int k0 = ++n;
  for (int v = 0; v < (thorough() ? 160 : 24); ++v) { run(fmt("pose %s view %d", name, v), [&] { beat(); G g(proj); boost::shared_ptr<CameraGeometryBase> cam(&g, [](void*) {}); Board b = board(2, 4, 0.12); T4 T = pose(b, 0.55 + 0.1 * (v % 3), 0.15 + 0.25 * (v % 4), 0.9 * v, 0.7 * v, 0.05 * (v % 3 - 1), 0.04 * (v / 3 % 3 - 1)); bool all; observe(proj, b, T, 752, 480, ~0u, &all); if (!all) { noteAdd("board not fully visible"); return; }
      for (unsigned m = 0; m < 256; ++m) { Obs o = observe(proj, b, T, 752, 480, m); int top = __builtin_popcount(m & 15), bottom = __builtin_popcount(m >> 4); T4 got(Eigen::Vector4d(0.5, 0.5, 0.5, 0.5), V3(7, 8, 9)), before = got; transition(); std::string h = fmt("%s view %d corners %x", name, v, m);
        if (top + bottom < 4) { expect(!g.estimateTransformation(o, got), "too-few", h); expect(distance(got, before) == 0, "too-few", h + ": the pose was written"); state(h); continue; }
        if (top < 2 || bottom < 2) continue; // all but one on a line
        bool ok = g.estimateTransformation(o, got); double d = distance(got, T); if (!ok || !(d < 2e-3)) { fail("pose", h + fmt(": %s, differs by %g", ok ? "success" : "failure", d)); return; } noteMax(std::string("pose error ") + name, d); state(h); nontrivial(hashStr(h));
        std::vector<cv::Point2f> rep, det; o.set_T_t_c(got); expect(o.getCornerReprojection(cam, rep) == (unsigned)(top + bottom), "reprojection", h); o.getCornersImageFrame(det); for (size_t i = 0; i < rep.size() && i < det.size(); ++i) if (cv::norm(rep[i] - det[i]) > 1.0) fail("reprojection", h + fmt(" corner %zu", i));
        // the error sums the distances of the observed corners that project
        T4 off(got.q(), got.t() + V3(0.01, -0.02, 0.005)); double err = -1, want = 0; size_t cnt = g.projection().computeReprojectionError(o, off, err), wc = 0; for (size_t i = 0; i < b->size(); ++i) { V2 y, p; if (o.imagePoint(i, y) && g.projection().euclideanToKeypoint(V3(off.inverse() * b->point(i)), p)) { want += (y - p).norm(); ++wc; } } expect(cnt == wc, "reprojection", h + " number"); expectNear(err, want, 1e-9 * (1 + want), "reprojection", h + " error"); } }); }
  if (wide) for (int v = 0; v < 6; ++v) run(fmt("pose %s beyond 80 degrees %d", name, v), [&] { G g(proj); Board b = board(4, 2, 0.9); T4 T = pose(b, 0.16, 0.02, 1.1 * v, 0.1 * v, 0.01 * v, 0); bool all; Obs o = observe(proj, b, T, 752, 480, ~0u, &all); int used = 0; for (size_t i = 0; i < 8; ++i) { V3 p = T.inverse() * b->point(i); double c = p[2] / p.norm(); V2 k; if (c > std::cos(79 * M_PI / 180)) { used += o.imagePoint(i, k); continue; } if (c < std::cos(81 * M_PI / 180) && o.imagePoint(i, k)) { V2 q = k + (k - V2(375.5, 239.5)) * 0.02; if (g.projection().isValid(q)) k = q; o.updateImagePoint(i, k); noteAdd("corners beyond 80 degrees"); } else { used = 0; break; } }
      if (used < 4) return; T4 got; bool ok = g.estimateTransformation(o, got); expect(ok && distance(got, T) < 5e-3, "pose", fmt("%s: corners more than 80 degrees off the axis changed it by %g", name, distance(got, T))); transition(); state(fmt("wide %s %d", name, v)); });
}
// ---------------------------------------------------------------- intrinsics
template <typename P> static void common(const P& p, int w, int h, const std::string& t) {
  expectNear(p.cu(), (w - 1) / 2.0, 1e-12, "image-centre", t); expectNear(p.cv(), (h - 1) / 2.0, 1e-12, "image-centre", t); expect(p.ru() == w && p.rv() == h, "resolution", t); Eigen::MatrixXd d; typename std::decay<decltype(p.distortion())>::type fresh; fresh.clear(); Eigen::MatrixXd e; P p2(p); p2.distortion().getParameters(d); fresh.getParameters(e); expect(d.rows() == e.rows() && (d.size() == 0 || (d - e).cwiseAbs().maxCoeff() == 0), "distortion", t + " is not reset"); if (e.size() > 1) expect(d.cwiseAbs().maxCoeff() == 0, "distortion", t + " is not zero"); expect(std::isfinite(p.fu()) && p.fu() > 0 && p.fu() == p.fv(), "focal-length", t + fmt(": %g %g", p.fu(), p.fv()));
  // the temporaries follow: a projection gives the same as a camera made anew
  V2 a; if (p.euclideanToKeypoint(V3(0.11, -0.07, 1.0), a)) { V3 r; expect(p.keypointToEuclidean(a, r), "temporaries", t); expectNear(r[0] / r[2], 0.11, 1e-6, "temporaries", t); expectNear(r[1] / r[2], -0.07, 1e-6, "temporaries", t); }
}
typedef long double L; struct Circle { L x, y, r; };
static bool fit(const std::vector<V2>& p, Circle& c) { L mx = 0, my = 0; int n = p.size(); for (auto& q : p) { mx += q[0]; my += q[1]; } mx /= n; my /= n; L a = 0, b = 0, d = 0, e = 0, f = 0; for (auto& q : p) { L x = q[0] - mx, y = q[1] - my, z = x * x + y * y; a += x * x; b += x * y; d += y * y; e += x * z / 2; f += y * z / 2; } L det = a * d - b * b; if (std::abs((double)(det / ((a + d) * (a + d)))) < 1e-7) return false; c.x = mx + (e * d - b * f) / det; c.y = my + (a * f - b * e) / det; c.r = 0; for (auto& q : p) c.r += hypotl(q[0] - c.x, q[1] - c.y); c.r /= n; return true; }
// the distances of the two points where pairs of circles through the rows meet, by pi
static bool guesses(const Obs& o, std::vector<L>& g) { const GridCalibrationTargetBase& t = *o.target(); std::vector<Circle> c(t.rows()); bool good = true; for (size_t r = 0; r < t.rows(); ++r) { std::vector<V2> p; for (size_t k = 0; k < t.cols(); ++k) { V2 q; if (!o.imageGridPoint(r, k, q)) return true; p.push_back(V2((float)q[0], (float)q[1])); } good &= fit(p, c[r]); }
  if (!good) return false; for (size_t i = 0; i < c.size(); ++i) for (size_t j = i + 1; j < c.size(); ++j) { L d = hypotl(c[i].x - c[j].x, c[i].y - c[j].y); L s = d - (c[i].r + c[j].r), u = d - std::abs(c[i].r - c[j].r); if (std::abs(s) < 1e-2 * d || std::abs(u) < 1e-2 * d) return false; if (s > 0 || u < 0) continue; L a = (c[i].r * c[i].r - c[j].r * c[j].r + d * d) / (2 * d); g.push_back(2 * sqrtl(c[i].r * c[i].r - a * a) / M_PIl); } return true; }
template <typename P> static void intrinsicsPinhole(const char* name, const P& truth, bool fisheye) {
  for (int shape = 0; shape < 5; ++shape) for (int v = 0; v < (thorough() ? 81 : 27); ++v) run(fmt("intrinsics %s board %d views %d", name, shape, v), [&] { beat(); static const int R[] = {6, 5, 7, 3, 2}, C[] = {7, 8, 5, 3, 9}; Board b = board(R[shape], C[shape], 0.6 / std::max(R[shape], C[shape])); std::vector<Obs> obs; std::vector<L> g; bool sure = true; int n = 1 + v % 3; std::string h = fmt("%s board %dx%d views %d", name, R[shape], C[shape], v);
      for (int k = 0; k < n; ++k) { int s = v * 3 + k; T4 T = pose(b, 0.5 + 0.08 * (s % 4), 0.1 + 0.2 * (s % 5), 1.3 * s, 0.4 * s, 0.08 * (s % 3 - 1), 0.06 * (s / 3 % 3 - 1)); Obs o = observe(truth, b, T, 752, 480); if (s % 4 == 3) o.removeImagePoint(s % b->size()); sure &= guesses(o, g); obs.push_back(o); }
      P p(truth); for (size_t i = 0; i < 1; ++i) { bool ok = p.initializeIntrinsics(obs); expect(ok, "intrinsics", h + ": failed"); transition(); common(p, 752, 480, h); }
      if (sure) { L want = 557; std::sort(g.begin(), g.end()); size_t m = g.size(); if (m) want = m % 2 ? g[m / 2] : (g[m / 2 - 1] + g[m / 2]) / 2; expectNear(p.fu(), (double)want, 1e-4 * want, "focal-length", h + fmt(" from %zu guesses", m)); if (m) { nontrivial(hashStr(h)); noteMax(std::string("focal length by true one, largest, ") + name, p.fu() / truth.fu()); } } else noteAdd("not well conditioned");
      state(h);
      // order and incomplete views do not matter
      std::vector<Obs> rev(obs.rbegin(), obs.rend()); P q(truth); q.initializeIntrinsics(rev); expectNear(q.fu(), p.fu(), 1e-9 * p.fu(), "order-of-views", h); Obs part = obs[0]; part.removeImagePoint(0); rev.push_back(part); if (sure) { P r(truth); r.initializeIntrinsics(rev); expectNear(r.fu(), p.fu(), 1e-9 * p.fu(), "incomplete-view", h); } });
  // straight rows parallel to the image axes
  for (int v = 0; v < 16; ++v) run(fmt("intrinsics %s straight rows %d", name, v), [&] { Board b = board(3 + v % 2, 3 + v / 2 % 2, 0.1); Obs o(b); o.setImage(cv::Mat(480, 752, CV_8UC1)); for (size_t r = 0; r < b->rows(); ++r) for (size_t c = 0; c < b->cols(); ++c) { V2 k(100 + 50.0 * c, 100 + 40.0 * r); if (v / 4 % 2) k = V2(k[1], k[0]); if (v / 8) k = V2(k[0] + k[1], k[0] - k[1] + 200); o.updateImagePoint(b->gridCoordinatesToPoint(r, c), k); } std::vector<Obs> obs(1, o); P p(truth); expect(p.initializeIntrinsics(obs), "intrinsics", "straight rows"); common(p, 752, 480, fmt("straight rows %d", v)); transition(); state(fmt("straight %s %d", name, v)); });
  run(fmt("intrinsics %s none", name), [&] { P p(truth); std::vector<Obs> none; bool threw = false; try { p.initializeIntrinsics(none); } catch (const std::exception&) { threw = true; } expect(threw, "intrinsics", "no observation"); transition(); });
}
// unit sphere model with xi = 1: rows are circles, the focal length follows exactly
template <typename P> static void intrinsicsOmni(const char* name, const P& other, double factor, double (*model)(const P&)) {
  for (int shape = 0; shape < 5; ++shape) for (int v = 0; v < (thorough() ? 36 : 12); ++v) run(fmt("intrinsics %s board %d views %d", name, shape, v), [&] { beat(); static const int R[] = {6, 5, 7, 3, 2}, C[] = {7, 8, 5, 4, 9}; double f = 200 + 37 * (v % 4); int w = 752 - 32 * (v % 3), hh = 480 + 16 * (v % 2); OmniProjection<NoDistortion> truth(1.0, f, f, (w - 1) / 2.0, (hh - 1) / 2.0, w, hh); Board b = board(R[shape], C[shape], 0.6 / std::max(R[shape], C[shape])); std::vector<Obs> obs; int n = 1 + v % 3; std::string h = fmt("%s board %dx%d views %d", name, R[shape], C[shape], v); bool any = false;
      for (int k = 0; k < n; ++k) { int s = v * 3 + k; T4 T = pose(b, 0.5 + 0.08 * (s % 4), 0.1 + 0.2 * (s % 5), 1.3 * s, 0.4 * s, 0.1 * (s % 3 - 1) + 0.03, 0.07 * (s / 3 % 3 - 1) + 0.04); Obs o = observe(truth, b, T, w, hh); if (s % 4 == 3) o.removeImagePoint(s % b->size()); int cnt = 0; for (int r = 0; r < R[shape]; ++r) { int c = 0; V3 nrm = V3(T.inverse() * b->gridPoint(r, 0)).cross(V3(T.inverse() * b->gridPoint(r, C[shape] - 1))).normalized(); if (std::abs(nrm[2]) < 0.35) continue; /* nearly radial */ for (int q = 0; q < C[shape]; ++q) { V2 x; c += o.imageGridPoint(r, q, x); } cnt += c > 4; } any |= cnt > 0; obs.push_back(o); }
      for (int bad = -1; bad <= n; ++bad) { std::vector<Obs> in = obs; if (bad >= 0) { if (!any) break; Obs wrong = obs[0]; for (size_t i = 0; i < b->size(); ++i) { V2 x; if (wrong.imagePoint(i, x)) wrong.updateImagePoint(i, x + V2(12.0 * ((i * 7) % 5 - 2), 9.0 * ((i * 3) % 4 - 1.5))); } in.insert(in.begin() + bad, wrong); }
        P p(other); bool ok = p.initializeIntrinsics(in); transition(); std::string hb = h + (bad < 0 ? "" : fmt(" with a wrong view at %d", bad)); if (C[shape] <= 4) { expect(!ok, "intrinsics", hb + ": rows of at most four corners"); continue; } if (!any) continue; if (!ok) { fail("intrinsics", hb + ": failed"); continue; } common(p, w, hh, hb); expectNear(p.fu(), f * factor, 2e-3 * f, "focal-length", hb); expectNear(model(p), 0, 1e-12, "model", hb); state(hb); nontrivial(hashStr(hb)); } });
}
int main(int argc, char** argv) { init(argc, argv); cv::setNumThreads(1);
  PinholeProjection<NoDistortion> ph(420, 430, 370, 238, 752, 480); PinholeProjection<RadialTangentialDistortion> pr(420, 430, 370, 238, 752, 480, RadialTangentialDistortion(-0.2, 0.05, 0.001, -0.002)); PinholeProjection<EquidistantDistortion> pe(260, 265, 370, 238, 752, 480, EquidistantDistortion(0.02, -0.01, 0.003, 0)); PinholeProjection<FovDistortion> pf(280, 285, 370, 238, 752, 480, FovDistortion(0.9));
  OmniProjection<NoDistortion> on(0.9, 330, 335, 370, 238, 752, 480); OmniProjection<RadialTangentialDistortion> orr(1.2, 400, 410, 370, 238, 752, 480, RadialTangentialDistortion(-0.1, 0.01, 0.001, 0)); ExtendedUnifiedProjection<NoDistortion> eu(0.6, 1.1, 280, 285, 370, 238, 752, 480); DoubleSphereProjection<NoDistortion> ds(-0.2, 0.55, 200, 205, 370, 238, 752, 480);
  poses("pinhole", ph, false); poses("pinhole-radtan", pr, false); poses("pinhole-equi", pe, true); poses("pinhole-fov", pf, false); poses("omni", on, true); poses("omni-radtan", orr, false); poses("eucm", eu, true); poses("ds", ds, true);
  intrinsicsPinhole("pinhole", ph, false); intrinsicsPinhole("pinhole-radtan", pr, false); intrinsicsPinhole("pinhole-equi", pe, true); intrinsicsPinhole("pinhole-fov", pf, true);
  intrinsicsOmni<OmniProjection<NoDistortion>>("omni", on, 1, [](const OmniProjection<NoDistortion>& p) { return p.xi() - 1; }); intrinsicsOmni<OmniProjection<RadialTangentialDistortion>>("omni-radtan", orr, 1, [](const OmniProjection<RadialTangentialDistortion>& p) { return p.xi() - 1; });
  intrinsicsOmni<ExtendedUnifiedProjection<NoDistortion>>("eucm", eu, 0.5, [](const ExtendedUnifiedProjection<NoDistortion>& p) { return std::abs(p.alpha() - 0.5) + std::abs(p.beta() - 1); }); intrinsicsOmni<DoubleSphereProjection<NoDistortion>>("ds", ds, 0.5, [](const DoubleSphereProjection<NoDistortion>& p) { return std::abs(p.alpha() - 0.5) + std::abs(p.xi()); });
  return finish(); }
