// Calibration targets, their observations, and their detection in images.
#include "tags_common.hpp"
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCirclegrid.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <aslam_apriltag2/Tag36h11.h>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/make_shared.hpp>
#include <sm_boost/portable_binary_iarchive.hpp>
#include <sm_boost/portable_binary_oarchive.hpp>
using namespace aslam::cameras; using namespace vmc;
typedef GridCalibrationTargetObservation Obs; typedef GridCalibrationTargetBase Base; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef sm::kinematics::Transformation T4;
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template <typename T> static void copyOver(const T& a, T& b) { std::stringstream s; { boost::archive::binary_oarchive o(s); o << a; } boost::archive::binary_iarchive i(s); i >> b; }
// ---------------------------------------------------------------- points
static void checkPoints(Base& t, int R, int C, const std::function<V3(int, int)>& want, const std::string& h) {
  expect(t.rows() == (size_t)R && t.cols() == (size_t)C && t.size() == (size_t)R * C, "size", h); Eigen::MatrixXd all = t.points(); expect(all.rows() == R * C && all.cols() == 3, "points", h + " size"); std::set<size_t> seen;
  for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) { size_t i = t.gridCoordinatesToPoint(r, c); transition(); expect(i == (size_t)(r * C + c), "index", h + fmt(" row %d column %d", r, c)); seen.insert(i); V3 w = want(r, c); for (V3 p : {V3(t.point(i)), V3(t.gridPoint(r, c)), V3(all.row(i).transpose())}) if (!((p - w).cwiseAbs().maxCoeff() < 1e-12)) { fail("points", h + fmt(" row %d column %d at %g %g %g", r, c, p[0], p[1], p[2])); return; } auto g = t.pointToGridCoordinates(i); expect(g.first == (size_t)c && g.second == (size_t)r, "index", h + fmt(" point %zu", i));
    double* d = t.getPointDataPointer(i); V3 keep(d[0], d[1], d[2]); expect(keep == w || (keep - w).norm() < 1e-12, "data-pointer", h); d[0] += 1; d[2] -= 2; expect((V3(t.point(i)) - (w + V3(1, 0, -2))).norm() < 1e-12, "data-pointer", h + " does not write the point"); d[0] = keep[0]; d[2] = keep[2]; }
  expect(seen.size() == (size_t)R * C, "index", h); expect(throws([&] { t.getPointDataPointer(R * C); }), "data-pointer", h + " out of range"); expect((t.points() - all).norm() == 0, "points", h); state(h);
}
template <typename T> static void roundTrip(const T& t, T& u, int R, int C, const std::function<V3(int, int)>& want, const std::string& h) { copyOver(t, u); checkPoints(u, R, C, want, h + " read back"); }
static void points() {
  for (int R = 1; R <= 6; ++R) for (int C = 1; C <= 6; ++C) run(fmt("points %dx%d", R, C), [&] { for (double a : {0.1, 1.0, 0.03}) for (double b : {0.1, 0.7}) { GridCalibrationTargetCheckerboard t(R, C, a, b); auto w = [&](int r, int c) { return V3(a * r, b * c, 0); }; std::string h = fmt("checkerboard %dx%d %g %g", R, C, a, b); checkPoints(t, R, C, w, h); GridCalibrationTargetCheckerboard u(2, 2, 5, 5); roundTrip(t, u, R, C, w, h);
        for (int as = 0; as < 2; ++as) { GridCalibrationTargetCirclegrid::CirclegridOptions o; o.useAsymmetricCirclegrid = as; GridCalibrationTargetCirclegrid k(R, C, a, o); auto wk = [&](int r, int c) { return as ? V3((2 * c + r % 2) * a, r * a, 0) : V3(r * a, c * a, 0); }; std::string hk = fmt("circles %dx%d %g %d", R, C, a, as); checkPoints(k, R, C, wk, hk); GridCalibrationTargetCirclegrid v(3, 3, 9); roundTrip(k, v, R, C, wk, hk); }
        if (R <= 4 && C <= 4) { GridCalibrationTargetAprilgrid g(R, C, a, b); auto wg = [&](int r, int c) { return V3(c / 2 * (1 + b) * a + c % 2 * a, r / 2 * (1 + b) * a + r % 2 * a, 0); }; std::string hg = fmt("tags %dx%d %g %g", R, C, a, b); checkPoints(g, 2 * R, 2 * C, wg, hg); GridCalibrationTargetAprilgrid v(1, 1, 9, 9); roundTrip(g, v, 2 * R, 2 * C, wg, hg); } }
      for (double x : {0.0, -0.1}) { expect(throws([&] { GridCalibrationTargetCheckerboard(R, C, x, 1); }) && throws([&] { GridCalibrationTargetCheckerboard(R, C, 1, x); }) && throws([&] { GridCalibrationTargetCirclegrid(R, C, x); }) && throws([&] { GridCalibrationTargetAprilgrid(R, C, x, 1); }) && throws([&] { GridCalibrationTargetAprilgrid(R, C, 1, x); }), "spacing", "not positive"); } });
}
// ---------------------------------------------------------------- observations
struct Model { int target = 0; std::map<int, V2> seen, last; int image = 0, rows = 0, cols = 0; bool posed = false; T4 T; long stamp = 0; };
static boost::shared_ptr<Base> targets[2];
static cv::Mat images[2]; static boost::shared_ptr<CameraGeometryBase> cam; static T4 poseA, poseB;
static void check(const Obs& o, const Model& m, const std::string& h) {
  Base& t = *targets[m.target]; int n = t.size(); expect(o.target().get() == &t, "target", h); std::vector<unsigned> idx, wantIdx; std::vector<cv::Point2f> im; std::vector<cv::Point3f> tf; for (auto& s : m.seen) wantIdx.push_back(s.first);
  unsigned k = o.getCornersIdx(idx), k2 = o.getCornersImageFrame(im), k3 = o.getCornersTargetFrame(tf); expect(idx == wantIdx && k == idx.size() && k2 == k && k3 == k && im.size() == k && tf.size() == k, "corners", h); int j = 0;
  for (auto& s : m.seen) { if (j >= (int)im.size() || j >= (int)tf.size()) break; expect(im[j] == cv::Point2f(s.second[0], s.second[1]), "corners", h + " in the image"); V3 p = t.point(s.first); expect(tf[j] == cv::Point3f(p[0], p[1], 0), "corners", h + " on the target"); ++j; }
  for (int i = 0; i < n; ++i) { V2 p(-9, -9); bool s = o.imagePoint(i, p); expect(s == (m.seen.count(i) > 0), "observed", h + fmt(" point %d", i)); if (s && m.seen.count(i)) expect(p == m.seen.at(i), "observed", h + fmt(" value of point %d", i)); V2 q; expect(o.imageGridPoint(i / t.cols(), i % t.cols(), q) == s && q == p, "observed", h + " by row and column"); }
  V2 p; expect(throws([&] { o.imagePoint(n, p); }), "range", h); expect(o.hasSuccessfulObservation() == !m.seen.empty(), "observed", h + " any"); expect((int)o.imRows() == m.rows && (int)o.imCols() == m.cols, "image-size", h); expect(m.image == 0 ? o.image().empty() : o.image().data == images[m.image - 1].data, "image", h); expect(o.time() == aslam::Time(m.stamp), "time", h);
  std::vector<cv::Point2f> rep; if (!m.posed) expect(throws([&] { o.getCornerReprojection(cam, rep); }), "pose", h + " reprojection without a pose"); else { expect((o.T_t_c().T() - m.T.T()).norm() < 1e-14, "pose", h); unsigned r = o.getCornerReprojection(cam, rep); expect(r == k && rep.size() == k, "reprojection", h); j = 0; for (auto& s : m.seen) { Eigen::VectorXd y; cam->vsEuclideanToKeypoint(Eigen::VectorXd(V3(m.T.inverse() * t.point(s.first))), y); if (j < (int)rep.size() && !(std::hypot(rep[j].x - y[0], rep[j].y - y[1]) < 1e-2)) fail("reprojection", h + fmt(" point %d", s.first)); ++j; } }
}
static void observations() {
  targets[0] = boost::make_shared<GridCalibrationTargetCheckerboard>(2, 3, 0.1, 0.2); targets[1] = boost::make_shared<GridCalibrationTargetCirclegrid>(1, 2, 0.3); images[0] = cv::Mat(48, 64, CV_8UC1, cv::Scalar(7)); images[1] = cv::Mat(20, 30, CV_8UC1, cv::Scalar(9)); PinholeProjection<NoDistortion> ph(400, 410, 320, 240, 640, 480); cam = boost::make_shared<PinholeCameraGeometry>(ph); poseA = T4(Eigen::Vector4d(0, 0, 0, 1), V3(0.1, 0.1, -1)); poseB = T4(Eigen::Vector4d(0.1, 0.2, 0, 0.9747).normalized(), V3(0.2, 0, -1.5));
  const int OPS = 14; int depth = thorough() ? 5 : 4; std::vector<int> w; 
  std::function<void(int)> go = [&](int left) { run("observation:" + [&] { std::string s; for (int x : w) s += fmt(" %d", x); return s; }(), [&] { Obs o(targets[0]); Model m; Obs kept(targets[0]); Model keptM; bool hasKept = false; beat(); std::string h;
      for (int x : w) { transition(); h += fmt(" %d", x); int n = targets[m.target]->size(); switch (x) { 
        case 0: o.updateImagePoint(0, V2(1.5, 2.5)); m.seen[0] = V2(1.5, 2.5); break; case 1: o.updateImagePoint(0, V2(30, 40)); m.seen[0] = V2(30, 40); break; case 2: o.updateImagePoint(n - 1, V2(5, 6)); m.seen[n - 1] = V2(5, 6); break; case 3: o.updateImagePoint(1, V2(0, 0)); m.seen[1] = V2(0, 0); break;
        case 4: o.removeImagePoint(0); m.seen.erase(0); break; case 5: o.removeImagePoint(n - 1); m.seen.erase(n - 1); break; case 6: o.setTarget(targets[1 - m.target]); m.target = 1 - m.target; m.seen.clear(); break;
        case 7: o.setImage(images[0]); m.image = 1; m.rows = 48; m.cols = 64; break; case 8: o.setImage(images[1]); m.image = 2; m.rows = 20; m.cols = 30; break; case 9: o.clearImage(); m.image = 0; break;
        case 10: o.set_T_t_c(poseA); m.T = poseA; m.posed = true; o.setTime(aslam::Time(1234567)); m.stamp = 1234567; break; case 11: o.set_T_t_c(poseB); m.T = poseB; m.posed = true; break;
        case 12: kept = o; keptM = m; hasKept = true; break;
        case 13: { Obs r(targets[1]); copyOver(o, r); if (!r.target() || !r.target()->size()) { fail("serialization", "target"); return; } Base& t = *r.target(); expect((t.points() - targets[m.target]->points()).norm() == 0, "serialization", "points of the target"); cv::Mat im = r.image(); expect(m.image ? im.size() == images[m.image - 1].size() && im.type() == CV_8UC1 && cv::norm(im, images[m.image - 1]) == 0 : im.empty(), "serialization", "image");
          Obs s(targets[m.target]); if (m.image) s.setImage(images[m.image - 1]); // the same observation of the target known here
          std::vector<unsigned> idx; r.getCornersIdx(idx); std::vector<unsigned> want; for (auto& q : m.seen) want.push_back(q.first); expect(idx == want, "serialization", "corners"); for (unsigned i : idx) { V2 p; r.imagePoint(i, p); if (m.seen.count(i)) expect(p == m.seen[i], "serialization", "point"); } expect((int)r.imRows() == m.rows && (int)r.imCols() == m.cols && r.time() == o.time(), "serialization", "size or time"); std::vector<cv::Point2f> rep; expect(throws([&] { r.getCornerReprojection(cam, rep); }) == !m.posed, "serialization", "pose"); if (m.posed) expect((r.T_t_c().T() - m.T.T()).norm() < 1e-12, "serialization", "pose"); break; } } }
      expect(throws([&] { o.updateImagePoint(targets[m.target]->size(), V2(1, 1)); }) && throws([&] { o.removeImagePoint(targets[m.target]->size()); }) && throws([&] { o.setTarget(Base::Ptr()); }), "range", h);
      if (std::count(w.begin(), w.end(), 6) && m.posed) m.posed = m.posed; check(o, m, h); if (hasKept) check(kept, keptM, h + " (copy)"); std::string st; for (auto& s : m.seen) st += fmt("%d:%g ", s.first, s.second[0]); state(st + fmt("%d %d %d %d %d", m.target, m.image, m.rows, (int)m.posed, (int)hasKept)); nontrivial(hashStr(st + fmt("%d %d %d %ld", m.target, m.image, m.posed, m.stamp))); });
    if (left) for (int x = 0; x < OPS; ++x) { w.push_back(x); go(left - 1); w.pop_back(); } };
  go(depth);
}
// ---------------------------------------------------------------- detector
struct Fake : Base { Fake(int r, int c, double s) : Base(r, c) { _points.resize(r * c, 3); for (int i = 0; i < r * c; ++i) _points.row(i) = V3(s * (i / c), s * (i % c), 0).transpose(); } mutable int calls = 0; bool ok = true, none = false; Eigen::MatrixXd pts; std::vector<bool> obs; bool computeObservation(const cv::Mat&, Eigen::MatrixXd& p, std::vector<bool>& o) const { ++calls; if (none) return ok; p = pts; o = obs; return ok; } };
static void detector() {
  PinholeProjection<NoDistortion> ph(400, 410, 320, 240, 640, 480); auto g = boost::make_shared<PinholeCameraGeometry>(ph); cv::Mat im(480, 640, CV_8UC1, cv::Scalar(50));
  for (int v = 0; v < 4; ++v) for (int mask = 0; mask < 512; ++mask) { if (!thorough() && mask % 4 != v) continue; run(fmt("detector view %d corners %x", v, mask), [&] { auto t = boost::make_shared<Fake>(3, 3, 0.2); Eigen::Matrix3d R = Eigen::AngleAxisd(0.2 + 0.2 * v, V3(0.6, 0.8, 0).normalized()).toRotationMatrix(); V3 tr(-0.2, -0.15, 1.3); t->pts.resize(9, 2); t->obs.resize(9); for (int i = 0; i < 9; ++i) { V2 k; ph.euclideanToKeypoint(V3(R * V3(t->point(i)) + tr), k); t->pts.row(i) = k.transpose(); t->obs[i] = mask >> i & 1; }
      int n = __builtin_popcount(mask);
      for (int bad = -1; bad < 9; ++bad) { if (bad >= 0 && (!(mask >> bad & 1) || n < 7)) continue; for (int opt = 0; opt < (bad < 0 ? 2 : 6); ++opt) for (int fails = 0; fails < 2; ++fails) { Eigen::MatrixXd keep = t->pts; if (bad >= 0) t->pts.row(bad) += Eigen::RowVector2d(9, -6) * (1 + opt % 2); t->ok = !fails; GridDetector::GridDetectorOptions o; o.filterCornerOutliers = opt > 0; o.filterCornerSigmaThreshold = opt < 3 ? 2.0 : opt == 3 ? 1.0 : 0.3; o.filterCornerMinReprojError = opt == 5 ? 8.0 : 0.2; GridDetector d(g, t, o); Obs out(targets[0]); out.updateImagePoint(0, V2(1, 1)); aslam::Time stamp(7777); std::string h = fmt("view %d corners %x wrong %d options %d%s", v, mask, bad, opt, fails ? " not found" : "");
          // the reference: the corners, the pose, and the outliers of the reprojection
          Obs ref(t); for (int i = 0; i < 9; ++i) if (t->obs[i]) ref.updateImagePoint(i, t->pts.row(i).transpose()); T4 T; int top = 0, lines = 0; for (int r = 0; r < 3; ++r) { int q = __builtin_popcount(mask >> 3 * r & 7); top += q; lines += q >= 2; } bool degenerate = n >= 4 && lines < 2; if (degenerate) return; bool ok = !fails && n >= 4 && g->estimateTransformation(ref, T); std::vector<bool> left(9); for (int i = 0; i < 9; ++i) left[i] = t->obs[i]; bool close = false;
          if (ok && opt > 0) { std::vector<double> e(9); double mean = 0, var = 0; for (int i = 0; i < 9; ++i) if (left[i]) { V2 k; ph.euclideanToKeypoint(V3(T.inverse() * t->point(i)), k); e[i] = (k - t->pts.row(i).transpose()).norm(); mean += e[i] / n; } for (int i = 0; i < 9; ++i) if (left[i]) var += (e[i] - mean) * (e[i] - mean) / n; double lim = mean + o.filterCornerSigmaThreshold * std::sqrt(var); for (int i = 0; i < 9; ++i) if (left[i]) { close |= std::abs(e[i] - lim) < 5e-4 || std::abs(e[i] - o.filterCornerMinReprojError) < 5e-4; if (e[i] > lim && e[i] > o.filterCornerMinReprojError) left[i] = false; } }
          bool got = d.findTarget(im, stamp, out); transition(); expect(got == ok, "found", h); expect(out.target().get() == t.get() && out.image().data == im.data && out.imRows() == 480 && out.imCols() == 640 && out.time() == stamp, "observation", h);
          if (!close) for (int i = 0; i < 9; ++i) { V2 p; bool s = out.imagePoint(i, p); if (s != left[i]) { fail("corners", h + fmt(" corner %d %s", i, s ? "kept" : "left out")); break; } if (s && p != V2(t->pts.row(i).transpose())) fail("corners", h + " value"); } else noteAdd("at the threshold");
          if (ok) { expect((out.T_t_c().T() - T.T()).norm() < 1e-9, "pose", h); }
          Obs out2(targets[0]); expect(d.findTargetNoTransformation(im, stamp, out2) == !fails, "found", h + " without pose"); std::vector<unsigned> idx; out2.getCornersIdx(idx); expect((int)idx.size() == n, "corners", h + " without pose"); std::vector<cv::Point2f> rep; expect(throws([&] { out2.getCornerReprojection(g, rep); }), "pose", h + " set without asking");
          Obs out3(targets[0]); bool got3 = d.findTarget(im, out3); expect(got3 == ok && out3.time() == aslam::Time(0, 0), "found", h + " without time");
          t->pts = keep; state(h); if (bad >= 0) nontrivial(hashStr(h)); } } }); }
  run("detector without target", [&] { auto t = boost::make_shared<Fake>(2, 2, 0.1); t->none = true; t->ok = false; GridDetector d(g, t); Obs o(t); o.updateImagePoint(1, V2(3, 4)); expect(!d.findTarget(im, o) && !o.hasSuccessfulObservation(), "corners", "of an earlier image remain"); expect(throws([&] { GridDetector(boost::shared_ptr<CameraGeometryBase>(), t); }) && throws([&] { GridDetector(g, Base::Ptr()); }) && throws([&] { d.initCameraGeometry(boost::shared_ptr<CameraGeometryBase>()); }), "null", ""); expect(d.geometry() == g && d.target() == t, "detector", ""); 
    auto none = boost::make_shared<std::vector<cv::Mat>>(); expect(throws([&] { d.initCameraGeometryFromObservations(none); }), "initialize", "without images"); none->push_back(im); expect(!d.initCameraGeometryFromObservations(none) && !d.initCameraGeometryFromObservation(im), "initialize", "without a target in the image"); transition(); state("none"); });
  // only images with a target are used for the intrinsics
  for (int m = 1; m < 8; ++m) run(fmt("initialize %d", m), [&] { struct Seq : Fake { Seq() : Fake(6, 7, 0.1) {} int m; std::vector<Eigen::MatrixXd> all; bool computeObservation(const cv::Mat&, Eigen::MatrixXd& p, std::vector<bool>& o) const { int k = calls++ % 3; o.assign(42, true); p = all[k]; return m >> k & 1; } }; auto t = boost::make_shared<Seq>(); t->m = m; std::vector<Obs> good; PinholeProjection<EquidistantDistortion> truth(260, 260, 319.5, 239.5, 640, 480, EquidistantDistortion(0, 0, 0, 0)); for (int k = 0; k < 3; ++k) { Eigen::Matrix3d R = Eigen::AngleAxisd(0.3 + 0.2 * k, V3(1, k, 0).normalized()).toRotationMatrix(); Eigen::MatrixXd p(42, 2); Obs o(t); o.setImage(im); for (int i = 0; i < 42; ++i) { V2 q; truth.euclideanToKeypoint(V3(R * (V3(t->point(i)) - V3(0.25, 0.3, 0)) + V3(0.05, 0.02 * k, 0.6)), q); p.row(i) = q.transpose(); o.updateImagePoint(i, q); } t->all.push_back(p); if (m >> k & 1) good.push_back(o); }
    auto c = boost::make_shared<EquidistantDistortedPinholeCameraGeometry>(truth), c2 = boost::make_shared<EquidistantDistortedPinholeCameraGeometry>(truth); GridDetector d(c, t); auto ims = boost::make_shared<std::vector<cv::Mat>>(3, im); expect(d.initCameraGeometryFromObservations(ims), "initialize", ""); c2->initializeIntrinsics(good); expect(c->projection().fu() == c2->projection().fu() && c->projection().fu() > 0, "initialize", fmt("from images %d: %g, not %g", m, c->projection().fu(), c2->projection().fu())); transition(); state(fmt("initialize %d", m)); });
}
// ---------------------------------------------------------------- rendered boards
static void boards() {
  // black and white squares, row and column lines of the inner corners at integer coordinates
  for (int s = 0; s < (thorough() ? 48 : 16); ++s) run(fmt("checkerboard image %d", s), [&] { beat(); int R = s % 2 ? 4 : 5, C = s % 3 ? 6 : 7; GridCalibrationTargetCheckerboard t(R, C, 0.1, 0.1); Eigen::Matrix3d H = tags::view(200, 150, 28, s * 0.4, 0.01 * (s % 3 - 1), 0.01 * (s % 5 - 2)) * (Eigen::Matrix3d() << 1, 0, -(C - 1) / 2.0, 0, 1, -(R - 1) / 2.0, 0, 0, 1).finished(); cv::Mat im = tags::render(400, 300, H, [&](double x, double y) { if (x < -1 || y < -1 || x > C || y > R) return 1; return ((int)std::floor(x) + (int)std::floor(y)) & 1; });
      Eigen::MatrixXd p; std::vector<bool> o; bool ok = t.computeObservation(im, p, o); std::string h = fmt("checkerboard %d", s); transition(); state(h); if (!ok) { fail("not-found", h); return; } expect(o.size() == t.size() && std::count(o.begin(), o.end(), true) == (long)t.size() && p.rows() == (int)t.size(), "corners", h); nontrivial(hashStr(h));
      // up to half a turn the corners are the ones of the board, row by row
      double best = 1e9; for (int flip = 0; flip < 2; ++flip) for (int mirror = 0; mirror < 2; ++mirror) { double worst = 0; for (int i = 0; i < R * C; ++i) { int r = i / C, c = i % C; if (mirror) r = R - 1 - r; V2 q = flip ? tags::map(H, C - 1 - c, R - 1 - r) : tags::map(H, c, r); worst = std::max(worst, (q - p.row(i).transpose()).norm()); } best = std::min(best, worst); } if (!(best < 1)) fail("corner", h + fmt(" off by %g", best));
      cv::Mat empty(300, 400, CV_8UC1, cv::Scalar(128)); expect(!t.computeObservation(empty, p, o), "found-in-empty", h); });
  for (int s = 0; s < (thorough() ? 32 : 12); ++s) run(fmt("circles image %d", s), [&] { beat(); int R = 4, C = 5, as = s % 2; if (as) { R = 7; C = 4; } GridCalibrationTargetCirclegrid::CirclegridOptions op; op.useAsymmetricCirclegrid = as; GridCalibrationTargetCirclegrid t(R, C, 1, op); auto at = [&](int r, int c) { return as ? V2(2 * c + r % 2, r) : V2(c, r); }; double mx = as ? C - 0.5 : (C - 1) / 2.0, my = (R - 1) / 2.0; Eigen::Matrix3d H = tags::view(200, 150, as ? 26 : 36, 0.08 * (s % 12 - 6), 0.006 * (s % 3 - 1), 0.004 * (s % 5 - 2)) * (Eigen::Matrix3d() << 1, 0, -mx, 0, 1, -my, 0, 0, 1).finished(); cv::Mat im = tags::render(400, 300, H, [&](double x, double y) { for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) if ((V2(x, y) - at(r, c)).norm() < 0.3) return 0; return 1; });
      Eigen::MatrixXd p; std::vector<bool> o; bool ok = t.computeObservation(im, p, o); std::string h = fmt("circles %d", s); transition(); state(h); if (!ok) { fail("not-found", h); return; } expect(o.size() == t.size() && std::count(o.begin(), o.end(), true) == (long)t.size() && p.rows() == (int)t.size(), "corners", h); nontrivial(hashStr(h)); double best = 1e9; for (int f = 0; f < 4; ++f) { double worst = 0; for (int i = 0; i < R * C; ++i) { int r = i / C, c = i % C; V2 g = at(r, c); if (f & 1) g[0] = 2 * mx - g[0]; if (f & 2) g[1] = 2 * my - g[1]; worst = std::max(worst, (tags::map(H, g[0], g[1]) - p.row(i).transpose()).norm()); } best = std::min(best, worst); } if (!(best < 1)) fail("corner", h + fmt(" off by %g", best)); });
  // april boards: all sets of visible tags
  auto& code = AprilTags::tagCodes36h11.codes;
  for (int set = 0; set < 64; ++set) for (int rot = 0; rot < 4; ++rot) { if (!thorough() && (set + rot) % 2) continue; run(fmt("tags %d turned %d", set, rot), [&] { beat(); int R = rot % 2 ? 3 : 2, C = rot % 2 ? 2 : 3; double gap = 0.3, step = 1 + gap; GridCalibrationTargetAprilgrid::AprilgridOptions op; op.minTagsForValidObs = 1 + set % 4; static std::map<int, boost::shared_ptr<GridCalibrationTargetAprilgrid>> made; auto& tp = made[rot % 2 * 8 + set % 4]; if (!tp) tp = boost::make_shared<GridCalibrationTargetAprilgrid>(R, C, 0.5, gap, op); auto& t = *tp; double wx = C * step - gap, wy = R * step - gap; Eigen::Matrix3d H = tags::view(160, 130, 62, rot * M_PI / 2 + 0.05 * (set % 5 - 2), 0.02 * (set % 3 - 1), 0.015 * (set % 4 - 1.5)) * (Eigen::Matrix3d() << 1, 0, -wx / 2, 0, 1, -wy / 2, 0, 0, 1).finished();
      cv::Mat im = tags::render(320, 260, H, [&](double x, double y) { int i = (int)std::floor(x / step), j = (int)std::floor(y / step); double u = x - i * step, v = y - j * step; if (i >= 0 && j >= 0 && i < C && j < R && u <= 1 && v <= 1) return set >> (j * C + i) & 1 ? tags::tagColour(code[j * C + i], 6, 2, u, v) : 1; int a = (int)std::floor((x + gap) / step), b = (int)std::floor((y + gap) / step); double p = x + gap - a * step, q = y + gap - b * step; return p <= gap && q <= gap && a >= 0 && b >= 0 && a <= C && b <= R && p > 0 && q > 0 ? 0 : 1; }, 4);
      std::string h = fmt("tags %x turned %d", set, rot); Eigen::MatrixXd p = Eigen::MatrixXd::Constant(3, 2, 77); std::vector<bool> o(set % 2 ? 4 * R * C : 5, true); bool ok = t.computeObservation(im, p, o); int n = __builtin_popcount(set); transition(); state(h); expect(ok == (n >= 1 + set % 4), "found", h + fmt(" %d tags of %d", n, 1 + set % 4)); if (!ok) return; nontrivial(hashStr(h)); if (o.size() != t.size() || p.rows() != (int)t.size() || p.cols() != 2) { fail("corners", h + " sizes"); return; }
      for (size_t i = 0; i < t.size(); ++i) { int r = i / (2 * C), c = i % (2 * C), tag = r / 2 * C + c / 2; bool there = set >> tag & 1; if (o[i] && !there) { fail("corners", h + fmt(" corner %zu of tag %d not in the image", i, tag)); return; } if (!o[i] && there) { fail("corners", h + fmt(" corner %zu of tag %d left out", i, tag)); continue; } if (there) { V3 w = t.point(i) / 0.5; V2 q = tags::map(H, w[0], w[1]); double e = (q - p.row(i).transpose()).norm(); if (!(e < 0.8)) fail("corner", h + fmt(" corner %zu off by %.2f", i, e)); } } }); }
  // tags near the border and of other boards are left out
  for (int s = 0; s < 24; ++s) run(fmt("border %d", s), [&] { beat(); double gap = 0.4, step = 1.4; GridCalibrationTargetAprilgrid::AprilgridOptions op; op.minTagsForValidObs = 1; op.minBorderDistance = s % 2 ? 4 : 20; op.doSubpixRefinement = s % 3; GridCalibrationTargetAprilgrid t(1, 2, 0.5, gap, op); double shift = s / 4 * 5; Eigen::Matrix3d H = tags::view(75 - shift, 130, 60, 0, 0, 0); int foreign = s % 4 > 1 ? 100 : -1; if (s % 2 == 0 && s / 4 % 2) H = tags::view(245 - 170 + 320 - 245 - 75 + 80, 60 - shift + 20, 60, 0, 0, 0);
      cv::Mat im = tags::render(320, 260, H, [&](double x, double y) { for (int k = 0; k < 3; ++k) { double u = x - k * step + 0.5, v = y + 0.5; if (u >= 0 && u <= 1 && v >= 0 && v <= 1) { if (k == 2 && foreign < 0) return 1; return tags::tagColour(code[k == 2 ? foreign : k], 6, 2, u, v); } } return 1; }); Eigen::MatrixXd p; std::vector<bool> o; bool ok = t.computeObservation(im, p, o); std::string h = fmt("border %d", s); transition(); state(h); int n = 0; bool near = false, in[2] = {true, true}; for (int k = 0; k < 2; ++k) { for (int c = 0; c < 4; ++c) { V2 q = tags::map(H, k * step - 0.5 + c % 2, -0.5 + c / 2); double d = std::min(std::min(q[0], 320 - q[0]), std::min(q[1], 260 - q[1])); near |= std::abs(d - op.minBorderDistance) < 1.2 || std::abs(d) < 3; in[k] &= d > op.minBorderDistance; } n += in[k]; }
      if (near) { noteAdd("at the border distance"); return; } expect(ok == (n >= 1), "border", h + fmt(": %d tags inside", n)); if (ok) for (int i = 0; i < 8; ++i) { int tag = i % 4 / 2; expect(o[i] == in[tag], "border", h + fmt(" corner %d", i)); } });
}
int main(int argc, char** argv) { init(argc, argv); cv::setNumThreads(1); points(); observations(); detector(); boards(); return finish(); }
